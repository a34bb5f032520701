package main

import (
	"fmt"
	"slices"
	"strings"

	"github.com/vorlif/spreak/catalog/cldrplural"
)

func init() {
	register(&Check{ID: "C12", Level: "exploration",
		Rule: "every token sequence over the rule grammar's alphabet up to the length bound (accepted exactly when it is a condition, then compared for every number of a fixed set covering all operands); every relation shape, all pairs under and/or, triples and quadruples of a representative set; all rule sets of up to three overlapping categories; all samples shapes; single-byte edits and truncations of full rules. Non-trivial: the text is a valid rule that holds for some number and fails for another.",
		Run:  runC12})
}

func c12Numbers() []dec {
	var out []dec
	for i := int64(0); i <= 23; i++ {
		out = append(out, dec{i: i})
	}
	for _, i := range []int64{40, 80, 99, 100, 101, 102, 110, 111, 112, 113, 1000, 1001, 1000000, 1000011} {
		out = append(out, dec{i: i})
	}
	for _, f := range []string{"0", "1", "5", "00", "01", "10", "11", "12", "25", "010", "100", "110", "1000"} {
		out = append(out, dec{i: 0, frac: f}, dec{i: 1, frac: f}, dec{i: 2, frac: f}, dec{i: 11, frac: f}, dec{i: 100, frac: f})
	}
	return out
}

// cldrTok reads a list of tokens as a rule; sure is false where separators make the text debatable.
func cldrTok(t []string) (rule cldrRule, ok, sure bool) {
	i := 0
	sure = true
	peek := func() string {
		if i < len(t) {
			return t[i]
		}
		return ""
	}
	isItem := func(s string) bool { return s != "" && s[0] >= '0' && s[0] <= '9' }
	single := func(s string) bool { return isItem(s) && strings.Trim(s, "0123456789") == "" }
	hasCond := false
	if peek() != "" && !strings.HasPrefix(peek(), "@") {
		hasCond = true
		for {
			var and []cldrRel
			for {
				var r cldrRel
				if len(peek()) != 1 || !strings.Contains("nivwftce", peek()) {
					return nil, false, sure
				}
				r.op = peek()[0]
				i++
				if peek() == "%" {
					i++
					if !single(peek()) {
						return nil, false, sure
					}
					r.mod = atoi(peek())
					if r.mod == 0 {
						return nil, false, sure
					}
					i++
				}
				if peek() != "=" && peek() != "!=" {
					return nil, false, sure
				}
				r.neg = peek() == "!="
				i++
				if !isItem(peek()) {
					return nil, false, sure
				}
				for k := 0; isItem(peek()); k++ {
					if k > 0 {
						sure = false
					}
					rel, err := parseRel("n = " + peek())
					if err != nil {
						return nil, false, sure
					}
					r.list = append(r.list, rel.list...)
					i++
				}
				and = append(and, r)
				if peek() != "and" {
					break
				}
				i++
			}
			rule = append(rule, and)
			if peek() != "or" {
				break
			}
			i++
		}
	}
	if i == len(t) {
		return rule, hasCond, sure && hasCond
	}
	if !strings.HasPrefix(peek(), "@") {
		return nil, false, sure
	}
	for i < len(t) {
		if strings.Contains(t[i], "..") || !isItem(t[i]) && !strings.HasPrefix(t[i], "@") {
			return nil, false, sure
		}
		i++
	}
	if !hasCond {
		rule = nil
	}
	return rule, true, sure
}

func c12Eval(rs *cldrplural.RuleSet, text string, rule cldrRule, nums []dec, cat cldrplural.Category) string {
	for _, d := range nums {
		want := cldrplural.Other
		if rule.holds(d) {
			want = cat
		}
		got, err := rs.Evaluate(d.String())
		if err != nil {
			return fmt.Sprintf("%q for %v: %v", text, d, err)
		}
		if got != want {
			return fmt.Sprintf("%q for %v: category %v, want %v", text, d, got, want)
		}
	}
	return ""
}

func c12Text(text string, rule cldrRule, ok, sure bool, nums []dec) string {
	rs, err := cldrplural.ParseRules(map[cldrplural.Category]string{cldrplural.Few: text})
	if err != nil {
		if ok && sure {
			return fmt.Sprintf("%q is a valid rule but is rejected: %v", text, err)
		}
		return ""
	}
	if !ok {
		if sure {
			return fmt.Sprintf("%q is not a rule but is accepted", text)
		}
		return ""
	}
	if got := slices.Clone(rs.Categories); len(got) != 2 || !slices.Contains(got, cldrplural.Few) || !slices.Contains(got, cldrplural.Other) {
		return fmt.Sprintf("%q: categories %v", text, got)
	}
	return c12Eval(rs, text, rule, nums, cldrplural.Few)
}

func runC12(c *C) {
	nums := c12Numbers()
	few := append(append([]dec{}, nums[:13]...), dec{i: 1, frac: "0"}, dec{i: 1, frac: "5"}, dec{i: 0, frac: "10"}, dec{i: 2, frac: "11"}, dec{i: 100})
	alpha := []string{"n", "i", "v", "f", "%", "=", "!=", "0", "1", "2", "0..2", "1,5", "and", "or", "@integer"}
	maxTok := c.Pick(5, 6)
	const chunk = 4096
	for L := 0; L <= maxTok; L++ {
		dims := make([]int, L)
		for i := range dims {
			dims[i] = len(alpha)
		}
		total := size(dims)
		c.Par((total+chunk-1)/chunk, func(w, ci int) {
			toks := make([]string, L)
			for i := ci * chunk; i < min(total, (ci+1)*chunk); i++ {
				for k, v := range tuple(i, dims) {
					toks[k] = alpha[v]
				}
				rule, ok, sure := cldrTok(toks)
				if L == 0 {
					sure = false
				}
				text := strings.Join(toks, " ")
				c.caseW(w, func() string { return "tokens " + text }, func() string { return c12Text(text, rule, ok, sure, few) })
				if ok {
					c.Distinct(text)
				}
			}
		})
	}

	// relation shapes
	var rels []string
	lists := []string{"0", "1", "2", "11", "0..1", "2..4", "3..10", "11..19", "1,3", "2..4,9", "0,20,40,100", "1..3,5..7,9", "5,2,1", "2..2", "0..0,5..5,1", "00..05"}
	for _, op := range "nivwftce" {
		for _, m := range []string{"", " % 2", " % 10", " % 100", " mod 3", " % 1"} {
			for _, neg := range []string{" = ", " != "} {
				for _, l := range lists {
					rels = append(rels, string(op)+m+neg+l)
				}
			}
		}
	}
	check := func(w int, text string, set []dec) {
		c.caseW(w, func() string { return "rule " + text }, func() string {
			rule, err := parseCLDR(text)
			if err != nil {
				return "oracle: " + err.Error()
			}
			return c12Text(text, rule, true, true, set)
		})
	}
	c.Par(len(rels), func(w, i int) {
		check(w, rels[i], nums)
		check(w, strings.ReplaceAll(rels[i], ",", ", "), nums)
		c.Distinct(rels[i])
		step := 1
		if c.Quick() {
			step = 7
		}
		for j := (i*3 + c.Pick(0, 0)) % step; j < len(rels); j += step {
			check(w, rels[i]+" and "+rels[j], few)
			check(w, rels[i]+" or "+rels[j], few)
		}
	})
	rep := []string{"n = 1", "n != 1", "i = 0..1", "v = 0", "v != 0", "f % 10 = 1", "i % 10 = 2..4", "i % 100 != 12..14", "n % 100 = 3..10", "t = 0", "w = 1", "e = 0", "n = 0,2,5..7", "f != 1,11"}
	conn := []string{" and ", " or "}
	c.Par(len(rep)*len(rep), func(w, i int) {
		a, b := rep[i/len(rep)], rep[i%len(rep)]
		for _, x := range rep {
			for k := 0; k < 4; k++ {
				check(w, a+conn[k&1]+b+conn[k>>1]+x, nums)
			}
			for _, y := range rep {
				for k := 0; k < 8; k++ {
					if c.Quick() && (y == x || len(y) > 10) {
						continue
					}
					check(w, a+conn[k&1]+b+conn[k>>1&1]+x+conn[k>>2]+y, few)
				}
			}
		}
	})
	// magnitudes: ranges, lists and moduli around each of a set of limits
	limits := []int64{0, 1, 9, 10, 63, 64, 99, 100, 127, 128, 255, 256, 999, 1000, 1001, 4095, 4096, 9999, 10000, 32767, 32768, 65535, 65536, 99999, 100000, 999999, 1000000, 1<<31 - 1, 1 << 31, 1<<32 - 1, 1 << 32, 999999999999, 1000000000000, 999999999999999}
	type num struct {
		s string
		d dec
	}
	c.Par(len(limits)*8, func(w, i int) {
		k, op := limits[i/8], string("nivwftce"[i%8])
		var set []num
		for _, v := range []int64{0, 1, 2, k / 3, k / 2, k - 1, k, k + 1, k + 2, 2 * k, 2*k + 1, 10*k + 3} {
			if v < 0 {
				continue
			}
			for _, f := range []string{"", "0", "5", "25"} {
				d := dec{i: v, frac: f}
				if len(d.String()) <= 15 {
					set = append(set, num{d.String(), d})
				}
			}
			if v <= 300 {
				set = append(set, num{"1c" + fmt.Sprint(v), dec{c: v, i: 1}})
				if v <= 14 {
					set[len(set)-1].d.i = atoi("1" + strings.Repeat("0", int(v)))
				} else {
					set = set[:len(set)-1]
				}
			}
			if f := fmt.Sprint(v); len(f) <= 13 {
				set = append(set, num{"1." + f, dec{i: 1, frac: f}}, num{"0.0" + f, dec{frac: "0" + f}})
			}
		}
		var ls []string
		add := func(l string) { ls = append(ls, l) }
		add(fmt.Sprint(k))
		for _, lo := range []int64{0, 1, k / 2, k - 1, k} {
			if lo >= 0 && lo < k {
				add(fmt.Sprintf("%d..%d", lo, k))
				add(fmt.Sprintf("%d..%d", lo, 2*k+5))
				add(fmt.Sprintf("3,%d..%d,%d", lo, k, k+2))
			}
		}
		add(fmt.Sprintf("%d,%d,%d", 2*k+1, k+1, k))
		mods := []string{""}
		for _, m := range []int64{k - 1, k, k + 1} {
			if m > 0 {
				mods = append(mods, fmt.Sprintf(" %% %d", m))
			}
		}
		for _, mod := range mods {
			for _, l := range append(ls, "0", "1", "2..5") {
				for _, eq := range []string{" = ", " != "} {
					text := op + mod + eq + l
					c.caseW(w, func() string { return "rule " + text }, func() string {
						rule, err := parseCLDR(text)
						if err != nil {
							return "oracle: " + err.Error()
						}
						rs, err := cldrplural.ParseRules(map[cldrplural.Category]string{cldrplural.Two: text})
						if err != nil {
							return fmt.Sprintf("%q is rejected: %v", text, err)
						}
						for _, n := range set {
							want := cldrplural.Other
							if rule.holds(n.d) {
								want = cldrplural.Two
							}
							if got, err := rs.Evaluate(n.s); err != nil || got != want {
								return fmt.Sprintf("%q for %s: category %v (%v), want %v", text, n.s, got, err, want)
							}
						}
						return ""
					})
					c.Distinct(text)
				}
			}
		}
	})
	// long lists and long chains of conditions
	c.Par(130, func(w, k int) {
		for _, op := range "nivwftce" {
			for _, neg := range []string{" = ", " != "} {
				var items, ands, ors []string
				for j := 0; j <= k; j++ {
					items = append(items, []string{fmt.Sprint(2*j + 1), fmt.Sprintf("%d..%d", 3*j+1, 3*j+2)}[k%2])
					ands = append(ands, fmt.Sprintf("%c%s%d", op, " != ", j*j))
					ors = append(ors, fmt.Sprintf("%c%s%d", op, " = ", j*j))
				}
				for _, text := range []string{string(op) + neg + strings.Join(items, ","), strings.Join(ands, " and "), strings.Join(ors, " or "),
					strings.Join(ors, " or ") + " and v = 0", "v = 0 and " + strings.Join(ors, " or ")} {
					check(w, text, append(nums, dec{i: 121}, dec{i: int64(2*k + 1)}, dec{i: int64(2 * k)}, dec{i: int64(k) * int64(k)}, dec{i: int64(3*k + 2)}))
				}
			}
		}
	})
	// the CLDR rules themselves, and large values
	for _, l := range cldrLangs() {
		for _, d := range []int64{0, 1} {
			rs, err := cldrplural.ParseRules(l.raw)
			c.Case(func() string { return fmt.Sprintf("ruleset %s %d", l.names[0], d) }, func() string {
				if err != nil {
					return err.Error()
				}
				for _, n := range nums {
					want := l.category(n)
					for k := 0; k < 4; k++ {
						if got, err := rs.Evaluate(n.String()); err != nil || got != want {
							return fmt.Sprintf("%s %v: %v, want %v (%v)", l.names[0], n, got, want, err)
						}
					}
				}
				for n := int64(0); n < 2100; n++ {
					if got, err := rs.Evaluate(n); err != nil || got != l.category(dec{i: n}) {
						return fmt.Sprintf("%s %v: %v (%v)", l.names[0], n, got, err)
					}
				}
				return ""
			})
		}
	}
	// rule sets of up to three categories, also with an explicit rule for Other
	catRules := []string{"", "n = 1", "n = 0..2", "i % 2 = 0", "v != 0", "n != 3", "@integer 1, 2", "f = 5"}
	cats := []cldrplural.Category{cldrplural.Zero, cldrplural.One, cldrplural.Many, cldrplural.Other}
	dims := []int{len(catRules), len(catRules), len(catRules), len(catRules)}
	c.Par(size(dims), func(w, i int) {
		ix := tuple(i, dims)
		m := map[cldrplural.Category]string{}
		parsed := map[cldrplural.Category]cldrRule{}
		for k, cat := range cats {
			if r := catRules[ix[k]]; r != "" {
				m[cat] = r
				if r[0] != '@' {
					parsed[cat], _ = parseCLDR(r)
				} else {
					parsed[cat] = nil
				}
			}
		}
		c.caseW(w, func() string { return fmt.Sprintf("set %v", m) }, func() string {
			rs, err := cldrplural.ParseRules(m)
			if err != nil {
				return fmt.Sprintf("%v: %v", m, err)
			}
			want := []cldrplural.Category{cldrplural.Other}
			for _, cat := range cats[:3] {
				if _, ok := m[cat]; ok {
					want = append(want, cat)
				}
			}
			got := slices.Clone(rs.Categories)
			slices.Sort(got)
			slices.Sort(want)
			if !slices.Equal(got, want) {
				return fmt.Sprintf("%v: categories %v, want %v", m, got, want)
			}
			for _, d := range few {
				got, err := rs.Evaluate(d.String())
				if err != nil {
					return err.Error()
				}
				any := false
				for cat, r := range parsed {
					if cat != cldrplural.Other && r.holds(d) {
						any = true
						if cat == got {
							any = false
							break
						}
					}
				}
				if any {
					return fmt.Sprintf("%v for %v: category %v although its rule does not hold and another does", m, d, got)
				}
				if r, ok := parsed[got]; got != cldrplural.Other && (!ok || !r.holds(d)) {
					return fmt.Sprintf("%v for %v: category %v although its rule does not hold", m, d, got)
				}
			}
			return ""
		})
	})
	// spellings and samples
	good := []string{"n = 1 @integer 1", "n = 1 @integer 1, 21, 31, … @decimal 1.0, 1.00", "n  =\t1\n", "n = 1 and i = 1  or v != 0", "N = 1", "n = 1 AND i = 1", "n = 1 Or i = 5", " n = 1",
		"n = 1 @integer 0~15, 100 @decimal 0.0~1.5, 10.0", "i = 1 and v = 0 @integer 1 @decimal 1.0~1.3", "n = 1 @integer 1c6, 2c6, … @decimal 1.0000001c6, …", "n = 1 @decimal 0.1~0.9", "n = 1 @integer 99~101"}
	for _, t := range good {
		rule, err := parseCLDR(strings.ReplaceAll(strings.ReplaceAll(strings.ToLower(strings.Join(strings.Fields(strings.Split(t, "@")[0]), " ")), "( ", "("), " )", ")"))
		c.Case(func() string { return "spelling " + q(t) }, func() string {
			if err != nil {
				return err.Error()
			}
			return c12Text(t, rule, true, true, nums)
		})
	}
	hard := []string{"n = 0..9223372036854775807", "n % 9223372036854775807 = 1", "i % 0 = 1", "n % 0 = 0", "n = 99999999999999999999", "n = 0..99999999999999999999", "n % 99999999999999999999 = 1",
		"n = 1 @integer 0~99999999999", "n = 1 @integer 5~3", "n = 1 @integer 1~1.5", "n = 1 @decimal 1.0~2.05", "n = 1 @integer 0~", "n = 1 @integer ~", "n = 1 @integer ~5", "n = 1 @decimal 1.~2", "n = 5..3", "n = 1..", "n = ..1", "n = ..",
		"n = 1 @integer 1 2 3 n = 2", "n = 1 @", "@", "@integer", "@decimal", "n", "n =", "= 1", "1 = n", "and", "n = 1 and", "n = 1 or", "or n = 1", "n = 1 n = 2", "(n = 1)", "n == 1", "n < 1", "n=1", "x = 1", "n = -1", "n = 1.5", "n % n = 1", "n % 2 % 3 = 1",
		"C = 1", "E != 1", "V = 0", "W = 1", "T = 1", "F = 1", "I = 1", "n = 1 @integer 9~10", "n = 1 @integer 0~9999", "n = 1 @integer 0~10000", "n = 1 @integer 000~001", "n = 1 @integer 1c3~2c3"}
	for _, t := range hard {
		c.Case(func() string { return "hard " + q(t) }, func() string { return c12NoCrash(t) })
	}
	mustFail := []string{"n", "n =", "= 1", "1 = n", "and", "n = 1 and", "n = 1 or", "or n = 1", "n = 1 n = 2", "(n = 1)", "n == 1", "n < 1", "x = 1", "n = -1", "n = 1.5", "n % n = 1", "n % 2 % 3 = 1", "i % 0 = 1", "n = 5..3", "n = 1..", "n = 1 @integer 1 n = 2", "n = 1 @integer 0~99999999999", "n = 1 @integer 5~3"}
	for _, t := range mustFail {
		c.Case(func() string { return "malformed " + q(t) }, func() string {
			if _, err := cldrplural.ParseRules(map[cldrplural.Category]string{cldrplural.One: t}); err == nil {
				return fmt.Sprintf("%q is accepted", t)
			}
			return ""
		})
	}
	for _, t := range []string{"n % 10 = 2..4,9 and i % 100 != 12..14 or v = 0 @integer 2~4, 22 @decimal 0.1", "e = 0 and i != 0 or e != 0..5 @integer 1c6, …"} {
		c.Par(len(t), func(w, i int) {
			for b := 0; b < 256; b++ {
				e := t[:i] + string([]byte{byte(b)}) + t[i+1:]
				c.caseW(w, func() string { return "byte edit " + q(e) }, func() string { return c12NoCrash(e) })
				ins := t[:i] + string([]byte{byte(b)}) + t[i:]
				c.caseW(w, func() string { return "insert " + q(ins) }, func() string { return c12NoCrash(ins) })
			}
			c.caseW(w, func() string { return "cut " + q(t[:i]) }, func() string { return c12NoCrash(t[:i]) })
			c.caseW(w, func() string { return "drop " + q(t[i:]) }, func() string { return c12NoCrash(t[i:]) })
		})
	}
	for _, d := range []int{100, 10000, 200000} {
		for _, k := range []string{" and n = 1", " or n = 1", ",1", " @integer 1"} {
			c.Case(func() string { return fmt.Sprintf("long %q x %d", k, d) }, func() string { return c12NoCrash("n = 1" + strings.Repeat(k, d)) })
		}
	}
}

// c12NoCrash parses and evaluates without caring about the outcome (the watchdog and the panic guard decide).
func c12NoCrash(t string) string {
	rs, err := cldrplural.ParseRules(map[cldrplural.Category]string{cldrplural.One: t})
	if err != nil {
		return ""
	}
	for _, n := range []any{0, 1, 2, 5, "1.5", "1000000", "0.00", -1, 1e15, "2c6"} {
		if _, err := rs.Evaluate(n); err != nil {
			return fmt.Sprintf("%q for %v: %v", t, n, err)
		}
	}
	return ""
}
