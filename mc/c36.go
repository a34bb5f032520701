package main

// C36: the code that the two generators write computes the rules they were given.

import (
	"bytes"
	"encoding/json"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"slices"
	"strings"
	"sync"
)

func init() {
	register(&Check{ID: "C36", Level: "exploration",
		Rule: "every rule of the published shapes up to a size (gettext: conditions of up to 3 relations joined by && and || in every grouping, alone or in chains of up to 4 choices with the forms in every order; CLDR: every relation of operand, modulus, negation and list, conditions of up to 3 relations, every set of categories) and the published rules are given to the real generators; the code they write is compiled into the packages and evaluated. Non-trivial: rules with at least two relations.",
		Run:  runC36})
}

type genRule struct {
	key   string
	lang  string
	np    int
	tree  *cnode                  // gettext
	form  string                  // gettext: the formula
	rules [][2]string             // CLDR: category, condition
	want  func(number dec) string // CLDR
}

func rel36(mod int64, op string, v int64) *cnode {
	l := &cnode{op: "n"}
	if mod > 0 {
		l = &cnode{op: "%", a: l, b: &cnode{op: "num", v: mod}}
	}
	return &cnode{op: op, a: l, b: &cnode{op: "num", v: v}}
}

// extra36 are the rules that the generator adds to those of its input.
var extra36 = []string{
	"nplurals=3; plural=n == 0 ? 0 : (n == 0 || n == 1) && n != 0 ? 1 : 2;",
	"nplurals=4; plural=n % 100 == 1 ? 0 : n % 100 == 2 ? 1 : n % 100 >= 3 && n % 100 <= 4 ? 2 : 3;",
	"nplurals=2; plural=n % 10 == 1 && n % 100 != 11;",
	"nplurals=2; plural=n == 1 || n == 2 || n == 3 || n % 10 != 4 && n % 10 != 6 && n % 10 != 9;",
	"nplurals=2; plural=n == 0 || n == 1;",
	"nplurals=5; plural=n % 10 == 1 && n % 100 != 11 && n % 100 != 71 && n % 100 != 91 ? 0 : n % 10 == 2 && n % 100 != 12 && n % 100 != 72 && n % 100 != 92 ? 1 : (n % 10 >= 3 && n % 10 <= 4 || n % 10 == 9) && (n % 100 < 10 || n % 100 > 19) && (n % 100 < 70 || n % 100 > 79) && (n % 100 < 90 || n % 100 > 99) ? 2 : n != 0 && n % 1000000 == 0 ? 3 : 4;",
	"nplurals=2; plural=n <= 1 || n >= 11 && n <= 99;",
}

// flat36 writes a tree without regard to the grouping of equal operators: a rule may occur only once
// in the data.
func flat36(t *cnode) string {
	switch t.op {
	case "n":
		return "n"
	case "num":
		return fmt.Sprint(t.v)
	case "?":
		return "(" + flat36(t.a) + "?" + flat36(t.b) + ":" + flat36(t.c) + ")"
	case "&&", "||":
		var parts func(x *cnode) string
		parts = func(x *cnode) string {
			if x.op == t.op {
				return parts(x.a) + t.op + parts(x.b)
			}
			return flat36(x)
		}
		return "(" + parts(t) + ")"
	}
	return "(" + flat36(t.a) + t.op + flat36(t.b) + ")"
}

func gettext36(c *C) []*genRule {
	var wide, mid, few []*cnode
	for _, mod := range []int64{0, 10, 100, 1000000} {
		for _, op := range []string{"==", "!=", "<", "<=", ">", ">="} {
			for _, v := range []int64{0, 1, 2, 11, 19} {
				wide = append(wide, rel36(mod, op, v))
			}
		}
	}
	mid = []*cnode{rel36(0, "==", 1), rel36(0, "!=", 0), rel36(0, ">", 2), rel36(10, "==", 1), rel36(10, "<=", 4), rel36(10, ">=", 2), rel36(100, "!=", 11), rel36(100, "<", 10)}
	few = []*cnode{mid[0], mid[2], mid[3], mid[5], mid[6]}
	if c.Quick() {
		few = few[1:]
	}
	and := func(a, b *cnode) *cnode { return &cnode{op: "&&", a: a, b: b} }
	or := func(a, b *cnode) *cnode { return &cnode{op: "||", a: a, b: b} }
	conds := slices.Clone(wide)
	pairs := []*cnode{}
	for _, a := range mid {
		for _, b := range mid {
			if a != b {
				pairs = append(pairs, and(a, b), or(a, b))
			}
		}
	}
	conds = append(conds, pairs...)
	for _, a := range few {
		for _, b := range few {
			for _, x := range few {
				if a == b || b == x || a == x {
					continue
				}
				conds = append(conds, and(and(a, b), x), or(or(a, b), x), and(or(a, b), x), and(a, or(b, x)), or(and(a, b), x), or(a, and(b, x)))
			}
		}
	}
	num := func(v int) *cnode { return &cnode{op: "num", v: int64(v)} }
	var out []*genRule
	seen := map[string]bool{}
	for _, h := range extra36 {
		np, toks := splitHeader(h)
		t, _, _ := parseC(toks)
		seen[fmt.Sprint(np, flat36(t))] = true
	}
	add := func(t *cnode, np int) {
		canon := fmt.Sprint(np, flat36(t))
		if seen[canon] {
			return
		}
		seen[canon] = true
		f := text35(t, len(out)%2) // all parentheses, as published, or only the needed ones
		out = append(out, &genRule{key: fmt.Sprintf("nplurals=%d; plural=%s;", np, f), lang: fmt.Sprintf("x-p%d", len(out)), np: np, tree: t, form: f})
	}
	for _, t := range conds {
		add(t, 2)
	}
	chain := func(forms []int, cs ...*cnode) *cnode {
		t := num(forms[len(cs)])
		for i := len(cs) - 1; i >= 0; i-- {
			t = &cnode{op: "?", a: cs[i], b: num(forms[i]), c: t}
		}
		return t
	}
	some := append(slices.Clone(mid), pairs[1], pairs[6], pairs[17], and(or(mid[0], mid[3]), mid[6]), or(mid[0], and(mid[3], mid[6])))
	if c.Thorough() {
		some = append(slices.Clone(conds[:min(len(conds), 40)]), some...)
	}
	orders := [][]int{}
	permutations(3, func(p []int) { orders = append(orders, slices.Clone(p)) })
	for i, a := range some {
		for j, b := range some {
			if a == b {
				continue
			}
			for k, o := range orders {
				if k == 0 || i < 4 && j < 4 {
					add(chain(o, a, b), 3)
				}
			}
		}
	}
	for i, t := range conds { // as the first and as the second condition of a chain
		add(chain([]int{0, 1, 2}, t, mid[i%len(mid)]), 3)
		add(chain([]int{1, 0, 2}, mid[(i+3)%len(mid)], t), 3)
	}
	for _, a := range few {
		for _, b := range few {
			for _, x := range few {
				if a == b || b == x || a == x {
					continue
				}
				add(chain([]int{0, 1, 2, 3}, a, b, x), 4)
				add(chain([]int{3, 0, 1, 2}, a, b, x), 4)
				for _, y := range few {
					if y != a && y != b && y != x {
						add(chain([]int{0, 1, 2, 3, 4}, a, b, x, y), 5)
					}
				}
			}
		}
	}
	k := 0
	names := []string{"en", "iw", "no", "sh", "mo", "tl", "pt-PT", "ro", "nb", "pt", "zh-Hant", "in"}
	for _, h := range headers() { // the published ones
		np, toks := splitHeader(h)
		t, _, ok := parseC(toks)
		if !ok || np > 2 && t.op != "?" || np == 2 && t.op == "?" || seen[fmt.Sprint(np, flat36(t))] {
			continue
		}
		seen[fmt.Sprint(np, flat36(t))] = true
		_, f, _ := strings.Cut(h, "plural=")
		if _, g, ok := strings.Cut(f, " plural="); ok {
			f = g
		}
		if i := strings.Index(h, "; plural="); i >= 0 {
			f = h[i+9:]
		}
		f = strings.TrimSuffix(f, ";")
		lang := fmt.Sprintf("x-h%d", k)
		if k < len(names) {
			lang = names[k]
		}
		k++
		out = append(out, &genRule{key: "published " + h, lang: lang, np: np, tree: t, form: f})
	}
	return out
}

func cldr36(c *C) []*genRule {
	var out []*genRule
	add := func(lang string, rules ...[2]string) {
		type r struct {
			cat  string
			rule cldrRule
		}
		var rs []r
		key := ""
		for _, x := range rules {
			p, err := parseCLDR(x[1])
			if err != nil {
				panic(err)
			}
			rs = append(rs, r{x[0], p})
			key += x[0] + ": " + x[1] + "; "
		}
		if lang == "" {
			lang = fmt.Sprintf("x-c%d", len(out))
		}
		out = append(out, &genRule{key: key, lang: lang, rules: rules, want: func(d dec) string {
			for _, x := range rs {
				if x.rule.holds(d) {
					return x.cat
				}
			}
			return "Other"
		}})
	}
	for _, l := range cldrLangs() { // the published ones; several languages with the same rules
		var rules [][2]string
		for _, cat := range []string{"Zero", "One", "Two", "Few", "Many"} {
			if t, ok := l.raw[catByName[cat]]; ok {
				rules = append(rules, [2]string{cat, t})
			}
		}
		for _, n := range l.names {
			if n == "und" {
				continue // asking for no language gives the English rules
			}
			add(n, rules...)
			out[len(out)-1].key = "published " + n
		}
	}
	items := []string{"0", "1", "2", "5", "0..1", "2..4", "11..19"}
	lists := slices.Clone(items)
	for _, a := range items {
		for _, b := range items {
			if a != b {
				lists = append(lists, a+","+b)
			}
		}
	}
	lists = append(lists, "1,2,5", "0,1,2,5", "2..4,11..19,5", "1,2..4,5", "1,2,11..19", "2..4,0,1,11..19", "0..1,3..4,6..9")
	if c.Thorough() {
		for _, a := range items {
			for _, b := range items {
				for _, x := range items {
					if a != b && b != x && a != x {
						lists = append(lists, a+","+b+","+x)
					}
				}
			}
		}
	}
	slices.Sort(lists)
	lists = slices.Compact(lists)
	for _, op := range []string{"n", "i", "v", "w", "f", "t", "c", "e"} {
		for _, mod := range []string{"", " % 10", " % 100"} {
			for _, eq := range []string{" = ", " != "} {
				for _, l := range lists {
					add("", [2]string{"One", op + mod + eq + l})
				}
			}
		}
	}
	rels := []string{"n = 1", "v = 0", "i % 10 = 2..4", "i % 100 != 12..14", "n % 10 = 0,5..9", "f != 1,2", "t = 0", "n != 0", "e != 0..5"}
	if c.Quick() {
		rels = rels[:7]
	}
	for _, a := range rels {
		for _, b := range rels {
			for _, j := range []string{" and ", " or "} {
				add("", [2]string{"Few", a + j + b})
				for _, x := range rels {
					for _, k := range []string{" and ", " or "} {
						add("", [2]string{"Many", a + j + b + k + x})
					}
				}
			}
		}
	}
	cats := []string{"Zero", "One", "Two", "Few", "Many"}
	for set := 0; set < 1<<len(cats); set++ {
		for shift := 0; shift < len(rels); shift++ {
			var rules [][2]string
			for i, cat := range cats {
				if set>>i&1 == 1 {
					rules = append(rules, [2]string{cat, rels[(shift+2*i)%len(rels)]})
				}
			}
			add("", rules...)
		}
	}
	return out
}

type number36 struct {
	text string
	d    dec
}

func numbers36() []number36 {
	var out []number36
	for _, i := range []int64{0, 1, 2, 3, 4, 5, 6, 9, 10, 11, 12, 13, 14, 15, 19, 20, 21, 22, 25, 29, 99, 100, 101, 102, 104, 111, 112, 115, 119, 120, 1000, 1001, 1000000, 1000001} {
		out = append(out, number36{fmt.Sprint(i), dec{i: i}})
	}
	for _, s := range []string{"0.0", "0.1", "0.2", "0.5", "0.10", "0.01", "0.15", "1.0", "1.00", "1.1", "1.2", "1.5", "2.0", "2.5", "3.4", "5.0", "5.12", "10.0", "11.0", "11.5", "12.3", "20.0", "100.0", "101.1", "111.0", "115.02", "1.111", "1.1200"} {
		i, f, _ := strings.Cut(s, ".")
		out = append(out, number36{s, dec{i: atoi(i), frac: f}})
	}
	out = append(out, number36{"1c3", dec{i: 1000, c: 3}}, number36{"1c6", dec{i: 1000000, c: 6}}, number36{"2c1", dec{i: 20, c: 1}}, number36{"5c2", dec{i: 500, c: 2}})
	return out
}

var counts36 = []int64{0, 1, 2, 3, 4, 5, 6, 7, 9, 10, 11, 12, 13, 14, 15, 18, 19, 20, 21, 22, 23, 24, 25, 29, 31, 99, 100, 101, 102, 103, 104, 105, 109, 110, 111, 112, 113, 119, 120, 121, 122, 199, 200, 201, 211, 219, 1000, 1001, 1011, 999999, 1000000, 1000001, 1000002, 1000011, 1000019, 1000020, 2000000}

func go36(dir string, stdin []byte, name string, args ...string) ([]byte, error) {
	cmd := exec.Command(name, args...)
	cmd.Dir = dir
	cmd.Stdin = bytes.NewReader(stdin)
	var out, errb bytes.Buffer
	cmd.Stdout, cmd.Stderr = &out, &errb
	if err := cmd.Run(); err != nil {
		return nil, fmt.Errorf("%v: %.1500s", err, errb.Bytes())
	}
	return out.Bytes(), nil
}

// build36 lets the generators write their files and compiles them into an evaluator.
func build36(root, tmp string, po, cldr []*genRule) (bin string, err error) {
	work, err := os.MkdirTemp(tmp, "gen")
	if err != nil {
		return "", err
	}
	mod := "-modfile=" + filepath.Join(os.Getenv("VERIF_BUILD"), "go.mod")
	replace := map[string]string{}
	repo, err := go36(filepath.Join(root, "mc"), nil, "go", "list", mod, "-m", "-f", "{{.Dir}}", "github.com/vorlif/spreak")
	if err != nil {
		return "", err
	}
	for _, kind := range []string{"poplural", "cldrplural"} {
		dir := filepath.Join(work, kind, "generator")
		if err := os.MkdirAll(dir, 0o755); err != nil {
			return "", err
		}
		var data any
		if kind == "poplural" {
			m := map[string]any{}
			for _, r := range po {
				m[r.lang] = map[string]any{"name": r.lang, "formula": r.form, "plurals": r.np, "cases": []string{"one", "other"}, "examples": map[string]string{"one": "1", "other": "0, 2~4, …"}}
			}
			data = m
		} else {
			m := map[string]any{}
			for _, r := range cldr {
				x := map[string]string{"pluralRule-count-other": " @integer 7 @decimal 0.7"}
				for _, t := range r.rules {
					x["pluralRule-count-"+strings.ToLower(t[0])] = t[1] + " @integer 1, 2~4, … @decimal 1.0"
				}
				m[r.lang] = x
			}
			data = map[string]any{"supplemental": map[string]any{"version": map[string]string{"_cldrVersion": "47"}, "plurals-type-cardinal": m}}
		}
		b, err := json.Marshal(data)
		if err != nil {
			return "", err
		}
		if err := os.WriteFile(filepath.Join(dir, "plurals.json"), b, 0o644); err != nil {
			return "", err
		}
		// the file exists already, and is longer than the new one
		old := "package " + kind + "\n" + strings.Repeat("// from the last time\n", 200_000)
		if err := os.WriteFile(filepath.Join(work, kind, "builtin_gen.go"), []byte(old), 0o644); err != nil {
			return "", err
		}
		if _, err := go36(dir, nil, filepath.Join(tmp, kind+"-generator")); err != nil {
			return "", fmt.Errorf("the generator of %s fails: %v", kind, err)
		}
		replace[filepath.Join(strings.TrimSpace(string(repo)), "catalog", kind, "builtin_gen.go")] = filepath.Join(work, kind, "builtin_gen.go")
	}
	b, _ := json.Marshal(map[string]any{"Replace": replace})
	overlay := filepath.Join(work, "overlay.json")
	if err := os.WriteFile(overlay, b, 0o644); err != nil {
		return "", err
	}
	bin = filepath.Join(work, "eval")
	if _, err := go36(filepath.Join(root, "mc"), nil, "go", "build", mod, "-overlay", overlay, "-o", bin, "./gen36"); err != nil {
		return "", fmt.Errorf("the generated code does not compile: %v", err)
	}
	return bin, nil
}

func runC36(c *C) {
	root := os.Getenv("VERIF_ROOT")
	tmp, err := os.MkdirTemp("", "verif-gen")
	if err != nil {
		panic(err)
	}
	defer os.RemoveAll(tmp)
	mod := "-modfile=" + filepath.Join(os.Getenv("VERIF_BUILD"), "go.mod")
	for _, kind := range []string{"poplural", "cldrplural"} {
		if _, err := go36(filepath.Join(root, "mc"), nil, "go", "build", mod, "-o", filepath.Join(tmp, kind+"-generator"), "github.com/vorlif/spreak/catalog/"+kind+"/generator"); err != nil {
			panic(err)
		}
	}
	po, cldr := gettext36(c), cldr36(c)
	c.Note("gettext_rules", len(po))
	c.Note("cldr_rule_sets", len(cldr))
	numbers := numbers36()
	var mu sync.Mutex
	// the published rules go with every build, the packages need some of them
	base := func(rs []*genRule) (pub, rest []*genRule) {
		for _, r := range rs {
			if strings.HasPrefix(r.key, "published") {
				pub = append(pub, r)
			} else {
				rest = append(rest, r)
			}
		}
		return
	}
	ppub, prest := base(po)
	cpub, crest := base(cldr)
	eval := func(po, cldr []*genRule) (got map[string]string, err error) {
		bin, err := build36(root, tmp, po, cldr)
		if err != nil {
			return nil, err
		}
		var in strings.Builder
		for i, n := range counts36 {
			if i > 0 {
				in.WriteByte(' ')
			}
			fmt.Fprint(&in, n)
		}
		in.WriteByte('\n')
		for i, n := range numbers {
			if i > 0 {
				in.WriteByte(' ')
			}
			in.WriteString(n.text)
		}
		in.WriteByte('\n')
		var ids []string
		for _, r := range po {
			fmt.Fprintf(&in, "po %s\nraw nplurals=%d; plural=%s;\n", r.lang, r.np, r.form)
			ids = append(ids, "po "+r.lang, "raw "+r.lang)
		}
		for _, r := range cldr {
			fmt.Fprintf(&in, "cldr %s\n", r.lang)
			ids = append(ids, "cldr "+r.lang)
		}
		out, err := go36(tmp, []byte(in.String()), bin)
		if err != nil {
			return nil, fmt.Errorf("the evaluator fails: %v", err)
		}
		lines := strings.Split(strings.TrimSuffix(string(out), "\n"), "\n")
		if len(lines) != len(ids) {
			return nil, fmt.Errorf("%d results for %d rules", len(lines), len(ids))
		}
		mu.Lock()
		defer mu.Unlock()
		got = map[string]string{}
		for i, l := range lines {
			got[ids[i]] = l
		}
		return got, nil
	}
	got, err := eval(po, cldr)
	if err != nil {
		// which rule is it? Halve until one is left.
		bad := err
		for len(prest)+len(crest) > 1 {
			h1, h2 := prest[:len(prest)/2], prest[len(prest)/2:]
			g1, g2 := crest[:len(crest)/2], crest[len(crest)/2:]
			if len(prest) == 0 {
				h1, h2 = nil, nil
			}
			if _, err := eval(append(slices.Clone(ppub), h1...), append(slices.Clone(cpub), g1...)); err != nil {
				prest, crest, bad = h1, g1, err
				continue
			}
			if _, err := eval(append(slices.Clone(ppub), h2...), append(slices.Clone(cpub), g2...)); err != nil {
				prest, crest, bad = h2, g2, err
				continue
			}
			break
		}
		key := "the published rules"
		for _, r := range slices.Concat(prest, crest) {
			key = r.key
		}
		c.fail(key, bad.Error(), nil)
		return
	}
	compare := func(name, text, prefix, line string, want []string, label func(i int) string) string {
		line, ok := strings.CutPrefix(line, prefix+" ")
		if !ok {
			return fmt.Sprintf("%s of %s: %.80q, want %q", name, text, line, prefix)
		}
		f := strings.Split(line, " ")
		if len(f) != len(want) {
			return fmt.Sprintf("%s of %s: %d results, want %d", name, text, len(f), len(want))
		}
		for i := range f {
			if f[i] != want[i] {
				return fmt.Sprintf("%s of %s: %s for %s, want %s", name, text, f[i], label(i), want[i])
			}
		}
		return ""
	}
	for _, r := range po {
		c.Case(func() string { return r.key }, func() string {
			var want []string
			for _, n := range counts36 {
				v, _ := r.tree.eval(n)
				want = append(want, fmt.Sprint(v))
				c.Outcome(fmt.Sprint("po ", v))
			}
			if strings.ContainsAny(r.form, "&|?") {
				c.Distinct(r.key)
			}
			label := func(i int) string { return fmt.Sprint(counts36[i]) }
			if s := compare("the rule", "language "+r.lang, "true", got["po "+r.lang], want, label); s != "" {
				return s
			}
			return compare("the rule", "this header", fmt.Sprint(r.np), got["raw "+r.lang], want, label)
		})
	}
	for _, r := range cldr {
		c.Case(func() string { return r.key }, func() string {
			var want []string
			for _, n := range numbers {
				v := r.want(n.d)
				want = append(want, v)
				c.Outcome("cldr " + v)
			}
			prefix := fmt.Sprintf("true %d", len(r.rules)+1)
			for _, x := range r.rules {
				prefix += " " + x[0]
				if strings.Contains(x[1], " and ") || strings.Contains(x[1], " or ") {
					c.Distinct(r.key)
				}
			}
			return compare("the rule set", "language "+r.lang, prefix+" Other", got["cldr "+r.lang], want, func(i int) string { return numbers[i].text })
		})
	}
}
