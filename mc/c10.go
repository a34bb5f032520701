package main

import (
	_ "embed"
	"fmt"
	"strings"

	"golang.org/x/text/language"

	"github.com/vorlif/spreak/catalog"
	"github.com/vorlif/spreak/catalog/poplural"
)

//go:embed headers.txt
var headersTxt string

func init() {
	register(&Check{ID: "C10", Level: "exploration",
		Rule: "every token sequence over the Plural-Forms alphabet up to the length bound (accepted exactly when it is a C expression, then compared for every count), every flat operator chain and ternary nest up to the operator bound, every published header in several spellings and all its one-token edits, each for every count up to the bound plus windows around multiples of powers of ten. Non-trivial: the text is a valid expression.",
		Run:  runC10})
}

func headers() []string { return strings.Split(strings.TrimSpace(headersTxt), "\n") }

// splitHeader returns nplurals and the tokens of the expression.
func splitHeader(h string) (np int, toks []string) {
	var rest string
	h = strings.TrimSpace(h)
	fmt.Sscanf(h, "nplurals=%d;", &np)
	rest = h[strings.Index(h, "plural=")+7:]
	if i := strings.Index(h, "; plural="); i >= 0 {
		rest = h[i+len("; plural="):]
	}
	return np, tokenizeC(strings.TrimSuffix(rest, ";"))
}

func c10Check(text string, np int, toks []string, counts []int64) string {
	root, chained, ok := parseC(toks)
	rule, err := poplural.Parse(text)
	if !ok {
		if err == nil {
			return fmt.Sprintf("%q is not an expression but is accepted", text)
		}
		return ""
	}
	if err != nil {
		if chained {
			return ""
		}
		return fmt.Sprintf("%q is a valid rule but is rejected: %v", text, err)
	}
	if rule.NPlurals != np {
		return fmt.Sprintf("%q has %d forms, want %d", text, rule.NPlurals, np)
	}
	for _, n := range counts {
		want, def := root.eval(n)
		got, err := rule.Evaluate(n)
		if err != nil {
			return fmt.Sprintf("%q n=%d: %v", text, n, err)
		}
		if def && int64(got) != want {
			return fmt.Sprintf("%q n=%d gives form %d, C gives %d", text, n, got, want)
		}
	}
	return ""
}

// countSet lists 0..limit and windows around multiples of powers of ten.
func countSet(limit int64) []int64 {
	var out []int64
	for n := int64(0); n <= limit; n++ {
		out = append(out, n)
	}
	for p := int64(1000); p <= 1_000_000_000_000_000; p *= 10 {
		for _, k := range []int64{1, 2, 3, 4, 5, 6, 7, 8, 9, 11, 20, 40, 60, 80, 100, 140, 1000} {
			if p > 8_000_000_000_000_000/k {
				continue
			}
			for d := int64(-3); d <= 103; d++ {
				if v := p*k + d; v > limit && v <= 1<<53 {
					out = append(out, v)
				}
			}
		}
	}
	return out
}

func runC10(c *C) {
	small := []int64{0, 1, 2, 3, 4, 5, 6, 7, 9, 10, 11, 12, 13, 20, 21, 22, 99, 100, 101, 102, 111, 1000, 1001, 1000000, 1 << 53}

	// all token sequences
	alpha := []string{"n", "0", "1", "2", "%", "==", "!=", "<", "<=", ">", ">=", "&&", "||", "?", ":", "(", ")"}
	maxTok := c.Pick(5, 6)
	for L := 0; L <= maxTok; L++ {
		dims := make([]int, L)
		for i := range dims {
			dims[i] = len(alpha)
		}
		total := size(dims)
		const chunk = 4096
		c.Par((total+chunk-1)/chunk, func(w, ci int) {
			toks := make([]string, L)
			for i := ci * chunk; i < min(total, (ci+1)*chunk); i++ {
				for k, v := range tuple(i, dims) {
					toks[k] = alpha[v]
				}
				text := "nplurals=3; plural=" + strings.Join(toks, " ") + ";"
				c.caseW(w, func() string { return text }, func() string { return c10Check(text, 3, toks, small) })
				if _, _, ok := parseC(toks); ok {
					c.Distinct(text)
				}
			}
		})
	}
	// longer chains without and with parentheses
	atoms := []string{"n", "0", "1", "2"}
	ops := []string{"%", "==", "!=", "<", ">=", "&&", "||"}
	for k := 3; k <= c.Pick(3, 4); k++ {
		var dims []int
		for i := 0; i <= k; i++ {
			dims = append(dims, len(atoms))
			if i < k {
				dims = append(dims, len(ops))
			}
		}
		total := size(dims)
		const chunk = 1024
		c.Par((total+chunk-1)/chunk, func(w, ci int) {
			for i := ci * chunk; i < min(total, (ci+1)*chunk); i++ {
				ix := tuple(i, dims)
				toks := make([]string, 0, len(ix))
				for j, v := range ix {
					if j%2 == 0 {
						toks = append(toks, atoms[v])
					} else {
						toks = append(toks, ops[v])
					}
				}
				variants := [][]string{toks}
				for a := 0; a <= k; a++ { // one pair of parentheses around atoms a..b
					for b := a + 1; b <= k; b++ {
						v := append([]string{}, toks[:2*a]...)
						v = append(v, "(")
						v = append(v, toks[2*a:2*b+1]...)
						v = append(v, ")")
						v = append(v, toks[2*b+1:]...)
						variants = append(variants, v)
					}
				}
				for _, v := range variants {
					text := "nplurals=2;plural=" + strings.Join(v, "") + ";"
					c.caseW(w, func() string { return text }, func() string { return c10Check(text, 2, v, small) })
				}
			}
		})
	}
	// ternary nests over conditions
	conds := []string{"n", "n==1", "n!=2", "n%10==1", "n%10==1&&n%100!=11", "n==0||n==1", "n>=2&&n<=4", "(n)", "(n==1)", "0", "n%2", "n>1||n==0&&n<5"}
	vals := []string{"0", "1", "2", "n", "n!=1", "(n>1)", "n%3"}
	dims := []int{len(conds), len(vals), len(conds), len(vals), len(vals), 4}
	const chunk = 256
	c.Par((size(dims)+chunk-1)/chunk, func(w, ci int) {
		for i := ci * chunk; i < min(size(dims), (ci+1)*chunk); i++ {
			ix := tuple(i, dims)
			inner := conds[ix[2]] + "?" + vals[ix[3]] + ":" + vals[ix[4]]
			var e string
			switch ix[5] {
			case 0:
				e = conds[ix[0]] + "?" + vals[ix[1]] + ":" + inner
			case 1:
				e = conds[ix[0]] + "?" + inner + ":" + vals[ix[1]]
			case 2:
				e = conds[ix[0]] + "?(" + inner + "):" + vals[ix[1]]
			case 3:
				e = "(" + inner + ")?" + conds[ix[0]] + ":" + vals[ix[1]]
			}
			text := "nplurals=6; plural=" + e + ";"
			toks := tokenizeC(e)
			c.caseW(w, func() string { return text }, func() string { return c10Check(text, 6, toks, small) })
			c.Distinct(text)
		}
	})

	// constants and counts at the edges of the number types
	var edges []int64
	for _, b := range []int64{1 << 7, 1 << 8, 1 << 15, 1 << 16, 1 << 31, 1 << 32, 1 << 52, 1 << 53, 1 << 62} {
		edges = append(edges, b-1, b, b+1)
	}
	edges = append(edges, 1<<63-2, 1<<63-1)
	shapes := [][]string{{"n", "==", "K"}, {"n", "!=", "K"}, {"n", "<", "K"}, {"n", "<=", "K"}, {"n", ">", "K"}, {"n", ">=", "K"},
		{"n", "%", "K", "==", "1"}, {"n", "%", "K", "==", "0"}, {"n", "%", "10", "==", "7", "&&", "n", "!=", "K"}, {"(", "n", ">", "K", ")", "?", "1", ":", "0"}}
	c.Par(len(edges)*len(shapes), func(w, i int) {
		toks := append([]string{}, shapes[i%len(shapes)]...)
		for j, t := range toks {
			if t == "K" {
				toks[j] = fmt.Sprint(edges[i/len(shapes)])
			}
		}
		text := "nplurals=2; plural=" + strings.Join(toks, "") + ";"
		c.caseW(w, func() string { return text }, func() string { return c10Check(text, 2, toks, append(edges, small...)) })
	})

	// published headers, every count
	hs := headers()
	big := countSet(int64(c.Pick(210_000, 2_100_000)))
	c.Par(len(hs), func(w, i int) {
		np, toks := splitHeader(hs[i])
		c.caseW(w, func() string { return "all counts: " + hs[i] }, func() string { return c10Check(hs[i], np, toks, big) })
		c.trans.Add(int64(len(big)))
		c.Outcome(hs[i])
	})
	c.Note("counts_per_header", len(big))
	c.Note("headers", len(hs))

	// spellings, one-token edits, catalogs
	mid := countSet(1210)
	c.Par(len(hs), func(w, i int) {
		np, toks := splitHeader(hs[i])
		pre := fmt.Sprintf("nplurals=%d; plural=", np)
		for _, text := range []string{
			fmt.Sprintf("nplurals=%d;plural=", np) + strings.Join(toks, "") + ";",
			pre + strings.Join(toks, " ") + ";",
			pre + "(" + strings.Join(toks, "") + ");",
			pre + "((" + strings.Join(toks, "  ") + "));",
			fmt.Sprintf(" nplurals = %d ;\tplural = ", np) + strings.Join(toks, "\n") + " ;\n",
			fmt.Sprintf("nplurals=%d; plural=", np+1) + strings.Join(toks, "") + ";",
		} {
			n := np
			if strings.Contains(text, fmt.Sprintf("nplurals=%d;", np+1)) {
				n++
			}
			c.caseW(w, func() string { return text }, func() string { return c10Check(text, n, toks, mid) })
		}
		edit := func(v []string) {
			text := pre + strings.Join(v, " ") + ";"
			c.caseW(w, func() string { return text }, func() string { return c10Check(text, np, v, mid) })
		}
		for k, t := range toks {
			repl := func(s string) {
				v := append([]string{}, toks...)
				v[k] = s
				edit(v)
			}
			del := append(append([]string{}, toks[:k]...), toks[k+1:]...)
			edit(del)
			switch {
			case t[0] >= '0' && t[0] <= '9':
				var v int64
				fmt.Sscan(t, &v)
				for _, d := range []int64{-1, 1, -v} {
					if v+d >= 0 {
						repl(fmt.Sprint(v + d))
					}
				}
				repl("n")
			case t == "n":
				repl("0")
				repl("1")
			case strings.Contains("== != < <= > >= && || %", t) && t != "(" && t != ")":
				for _, o := range []string{"==", "!=", "<", "<=", ">", ">=", "&&", "||", "%"} {
					repl(o)
				}
			}
			// parentheses opened here and closed at any later place, and an existing pair removed
			if k < 40 {
				for e := k + 1; e <= len(toks) && e < k+12; e++ {
					v := append([]string{}, toks[:k]...)
					v = append(v, "(")
					v = append(v, toks[k:e]...)
					v = append(v, ")")
					v = append(v, toks[e:]...)
					if _, _, ok := parseC(v); ok {
						edit(v)
					}
				}
			}
			if t == "(" {
				depth := 0
				for e := k; e < len(toks); e++ {
					if toks[e] == "(" {
						depth++
					} else if toks[e] == ")" {
						depth--
						if depth == 0 {
							v := append([]string{}, toks[:k]...)
							v = append(v, toks[k+1:e]...)
							v = append(v, toks[e+1:]...)
							edit(v)
							break
						}
					}
				}
			}
		}
		// the same through a catalog
		root, _, _ := parseC(toks)
		var po strings.Builder
		po.WriteString("msgid \"\"\nmsgstr \"\"\n\"Plural-Forms: " + hs[i] + "\\n\"\n\nmsgid \"a\"\nmsgid_plural \"b\"\n")
		for f := 0; f < np; f++ {
			fmt.Fprintf(&po, "msgstr[%d] \"form%d\"\n", f, f)
		}
		c.caseW(w, func() string { return "catalog: " + hs[i] }, func() string {
			cat, err := catalog.NewPoDecoder().Decode(language.MustParse("qaa"), "d", []byte(po.String()))
			if err != nil {
				return err.Error()
			}
			for _, n := range mid {
				f, _ := root.eval(n)
				got, err := cat.LookupPlural("", "a", n)
				if err != nil {
					return fmt.Sprintf("n=%d: %v", n, err)
				}
				if want := fmt.Sprintf("form%d", f); got != want {
					return fmt.Sprintf("header %q n=%d: lookup gives %q, want %q", hs[i], n, got, want)
				}
			}
			return ""
		})
	})

	// texts outside the grammar
	bad := []string{"", ";", "nplurals", "nplurals=", "nplurals=2", "nplurals=2;", "nplurals=2; plural", "nplurals=2; plural=", "nplurals=2; plural=;",
		"plural=n; nplurals=2;", "nplurals=2; plural=n != 1; x", "nplurals=2; plural=x;", "nplurals=2; plural=nn;", "nplurals=2; plural=n 1;", "nplurals=2; plural=-n;",
		"nplurals=2; plural=n+1;", "nplurals=2; plural=n*2;", "nplurals=2; plural=!n;", "nplurals=2; plural=n & 1;", "nplurals=2; plural=n | 1;", "nplurals=2; plural=n = 1;",
		"nplurals=-1; plural=n;", "nplurals=2; plural=99999999999999999999;", "nplurals=99999999999999999999; plural=n;", "nplurals=2; plural=n % 1_0;", "nplurals=1_0; plural=n;",
		"nplurals=2; plural=(n;", "nplurals=2; plural=n);", "nplurals=2; plural=();", "nplurals=2; plural=n ? 1;", "nplurals=2; plural=n ? : 1;", "nplurals=2; plural=ñ;", "nplurals=2; plural=\xff;"}
	for _, t := range bad {
		c.Case(func() string { return "malformed " + q(t) }, func() string {
			if _, err := poplural.Parse(t); err == nil {
				return fmt.Sprintf("%q is accepted", t)
			}
			return ""
		})
	}
	// every byte string edit of one header: truncations and single byte replacements never panic
	hdr := "nplurals=3; plural=(n%10==1 && n%100!=11 ? 0 : n<5 || n>=20 ? 1 : 2);"
	for i := 0; i < len(hdr); i++ {
		for b := 1; b < 256; b++ { // NUL is outside the statement
			t := hdr[:i] + string([]byte{byte(b)}) + hdr[i+1:]
			c.Case(func() string { return "byte edit " + q(t) }, func() string { return c10Bytes(t) })
		}
		t := hdr[:i]
		c.Case(func() string { return "cut " + q(t) }, func() string { return c10Bytes(t) })
	}
	// deep nesting
	for _, d := range []int{10, 100, 1000, 10000} {
		e := strings.Repeat("(", d) + "n" + strings.Repeat(")", d)
		toks := tokenizeC(e)
		c.Case(func() string { return fmt.Sprintf("nesting %d", d) }, func() string { return c10Check("nplurals=2; plural="+e+";", 2, toks, small) })
		e2 := strings.Repeat("n==1?0:", d) + "1"
		t2 := tokenizeC(e2)
		c.Case(func() string { return fmt.Sprintf("ternaries %d", d) }, func() string { return c10Check("nplurals=2; plural="+e2+";", 2, t2, small) })
		e3 := "n" + strings.Repeat("||n==1&&n", d)
		t3 := tokenizeC(e3)
		c.Case(func() string { return fmt.Sprintf("chain %d", d) }, func() string { return c10Check("nplurals=2; plural="+e3+";", 2, t3, small) })
	}
}

func c10Bytes(t string) string {
	rule, err := poplural.Parse(t)
	if err != nil {
		return ""
	}
	for n := int64(0); n < 130; n++ {
		if _, err := rule.Evaluate(n); err != nil {
			return err.Error()
		}
	}
	// accepted: then it must denote an expression
	i := strings.Index(t, "plural=")
	if j := strings.Index(strings.ToLower(t), "; plural="); j >= 0 {
		i = j + 2
	}
	if i < 0 {
		return ""
	}
	body := strings.ToLower(strings.TrimSuffix(strings.TrimSpace(t[i+7:]), ";"))
	toks := tokenizeC(body)
	root, _, ok := parseC(toks)
	if !ok {
		return fmt.Sprintf("%q is accepted although it is not an expression", t)
	}
	for n := int64(0); n < 130; n++ {
		want, def := root.eval(n)
		if got, _ := rule.Evaluate(n); def && int64(got) != want {
			return fmt.Sprintf("%q n=%d gives %d, C gives %d", t, n, got, want)
		}
	}
	return ""
}
