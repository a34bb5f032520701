package main

import (
	"fmt"
	"slices"
	"strings"

	"golang.org/x/text/language"

	"github.com/vorlif/spreak/catalog/cldrplural"
	"github.com/vorlif/spreak/catalog/poplural"
)

func init() {
	register(&Check{ID: "C11", Level: "exploration",
		Rule: "every built-in rule set x (every integer up to the bound and windows around multiples of powers of ten as int and string; every integer below the decimal bound x every fraction of up to 3 (quick) / 4 (thorough) digits; compact exponents 0..9), plus every listed language x regional, script and extension variants. Non-trivial: the number selects a category other than Other or the rule set has one.",
		Run:  runC11})
	register(&Check{ID: "C26", Level: "exploration",
		Rule: "every language x every pair class of integers up to the bound and windows around multiples of powers of ten: equality of gettext form vs equality of CLDR category (compared through the induced bijection); the number of forms against the number declared by the rules of the known headers that select the same forms. Non-trivial: languages with more than one form.",
		Run:  runC26})
}

// cldrInts covers every residue the rules look at.
func cldrInts(limit int64) []int64 { return countSet(limit) }

func runC11(c *C) {
	langs := cldrLangs()
	ints := cldrInts(int64(c.Pick(130_000, 1_300_000)))
	fr := fractions(c.Pick(3, 4))
	long := []string{"10000", "00001", "11111", "123456", "1000000", "0000001", "9999999", "00000001", "12345678", "000000001", "100000000", "110", "1100", "1110000"}
	bases := []int64{}
	for i := int64(0); i <= int64(c.Pick(130, 230)); i++ {
		bases = append(bases, i)
	}
	bases = append(bases, 999, 1000, 1001, 1011, 1012, 1100, 1111, 10000, 11000, 20000, 40000, 99999, 100000, 100001, 200000, 999999, 1000000, 1000001, 1100000, 2000000, 10000000, 100000000, 1000000000)
	c.Note("integers", len(ints))
	c.Note("decimals", len(bases)*(len(fr)+len(long)))

	type job struct {
		l    *cldrLang
		name string
	}
	var jobs []job
	for _, l := range langs {
		jobs = append(jobs, job{l, l.names[0]})
	}
	evalOne := func(rs *cldrplural.RuleSet, l *cldrLang, d dec, arg any) string {
		got, err := rs.Evaluate(arg)
		if err != nil {
			return fmt.Sprintf("%v: %v", arg, err)
		}
		if want := l.category(d); got != want {
			return fmt.Sprintf("%v (%T): category %v, the CLDR rules give %v", arg, arg, got, want)
		}
		return ""
	}
	ruleSet := func(name string) *cldrplural.RuleSet {
		rs, ok := cldrplural.ForLanguage(language.Raw.Make(name))
		if !ok {
			return nil
		}
		return rs
	}
	const chunk = 4000
	c.Par(len(jobs)*((len(ints)+chunk-1)/chunk), func(w, i int) {
		j := jobs[i%len(jobs)]
		k := i / len(jobs)
		rs := ruleSet(j.name)
		if rs == nil {
			if j.name != "und" {
				c.caseW(w, func() string { return "no rules: " + j.name }, func() string { return "no rule set for " + j.name })
			}
			return
		}
		for _, n := range ints[k*chunk : min(len(ints), (k+1)*chunk)] {
			d := dec{i: n}
			c.caseW(w, func() string { return fmt.Sprintf("%s int %d", j.name, n) }, func() string { return evalOne(rs, j.l, d, n) })
			if n < 20000 {
				c.caseW(w, func() string { return fmt.Sprintf("%s string %d", j.name, n) }, func() string { return evalOne(rs, j.l, d, d.String()) })
				c.Outcome(fmt.Sprint(j.name, j.l.category(d)))
			}
		}
	})
	c.Par(len(jobs)*len(bases), func(w, i int) {
		j := jobs[i%len(jobs)]
		b := bases[i/len(jobs)]
		rs := ruleSet(j.name)
		if rs == nil {
			return
		}
		for _, set := range [][]string{fr, long} {
			for _, f := range set {
				d := dec{i: b, frac: f}
				if len(f)+len(fmt.Sprint(b)) > 15 {
					continue // beyond what a float64 can tell apart
				}
				s := d.String()
				c.caseW(w, func() string { return j.name + " " + s }, func() string { return evalOne(rs, j.l, d, s) })
				if b < 12 && len(f) < 3 {
					c.Distinct(j.name + s)
				}
				if f != "" && f[len(f)-1] != '0' && len(f) <= 4 && b < 1000000 {
					var v float64
					fmt.Sscan(s, &v)
					c.caseW(w, func() string { return j.name + " float " + s }, func() string { return evalOne(rs, j.l, d, v) })
					c.caseW(w, func() string { return j.name + " negative " + s }, func() string { return evalOne(rs, j.l, d, -v) })
				}
			}
		}
	})
	// compact exponents: digits with the decimal point shifted
	for _, j := range jobs {
		rs := ruleSet(j.name)
		if rs == nil {
			continue
		}
		for _, m := range []string{"1", "2", "5", "10", "123", "1.2", "1.0", "1.23", "2.50", "1.234567"} {
			for e := 0; e <= 9; e++ {
				s := fmt.Sprintf("%sc%d", m, e)
				ip, fp, _ := strings.Cut(m, ".")
				for k := 0; k < e; k++ {
					if fp != "" {
						ip, fp = ip+fp[:1], fp[1:]
					} else {
						ip += "0"
					}
				}
				d := dec{i: atoi(ip), frac: fp, c: int64(e)}
				c.Case(func() string { return j.name + " " + s }, func() string { return evalOne(rs, j.l, d, s) })
			}
		}
	}

	// languages and their variants
	numbers := []dec{}
	for i := int64(0); i < 25; i++ {
		numbers = append(numbers, dec{i: i}, dec{i: i, frac: "5"}, dec{i: i, frac: "1"}, dec{i: i, frac: "0"})
	}
	for _, n := range []int64{100, 101, 102, 111, 1000, 100000, 1000000, 2000000} {
		numbers = append(numbers, dec{i: n})
	}
	byName := map[string]*cldrLang{}
	for _, l := range langs {
		for _, n := range l.names {
			byName[n] = l
		}
	}
	same := func(tag language.Tag, l *cldrLang, wantFound bool) string {
		rs, found := cldrplural.ForLanguage(tag)
		if found != wantFound {
			return fmt.Sprintf("%v: found=%v, want %v", tag, found, wantFound)
		}
		for _, d := range numbers {
			if r := evalOne(rs, l, d, d.String()); r != "" {
				return fmt.Sprintf("%v: %s", tag, r)
			}
		}
		cats := append([]cldrplural.Category{}, rs.Categories...)
		slices.Sort(cats)
		want := append([]cldrplural.Category{}, l.cats...)
		want = append(want, cldrplural.Other)
		slices.Sort(want)
		if !slices.Equal(cats, want) {
			return fmt.Sprintf("%v: categories %v, want %v", tag, cats, want)
		}
		return ""
	}
	suffixes := []string{"", "-US", "-XK", "-Latn", "-Cyrl", "-Arab-EG", "-u-nu-latn", "-x-test", "-Latn-RS", "-AO", "-001", "-419"}
	for _, l := range langs {
		for _, name := range l.names {
			if name == "und" {
				continue
			}
			base, _, _ := strings.Cut(name, "-")
			for _, suf := range suffixes {
				full := name + suf
				if base != name && (strings.HasPrefix(suf, "-u") || strings.HasPrefix(suf, "-x") || strings.Count(suf, "-") > 0 && suf != "") {
					continue // a second region, or an extension of a regional rule
				}
				tag, err := language.Raw.Parse(full)
				if err != nil {
					continue
				}
				own := byName[full]
				if own == nil {
					own = byName[base]
				}
				c.Case(func() string { return "variant " + full }, func() string { return same(tag, own, true) })
				c.Distinct("variant " + full)
				// the canonicalised tag
				ctag, err := language.Parse(full)
				if err == nil {
					if _, ok := byName[strings.Split(ctag.String(), "-")[0]]; ok {
						o := byName[ctag.String()]
						if o == nil {
							o = byName[strings.Split(ctag.String(), "-")[0]]
						}
						c.Case(func() string { return "canonical variant " + full }, func() string { return same(ctag, o, true) })
					}
				}
			}
		}
	}
	en := byName["en"]
	for _, name := range []string{"la", "qu", "ay", "mi", "gn", "tlh", "zza", "qaa", "cu", "sa", "qaa-DE", "la-VA", "tlh-Latn", "und"} {
		tag := language.Raw.Make(name)
		c.Case(func() string { return "no rules " + name }, func() string { return same(tag, en, false) })
		c.Case(func() string { return "no gettext rules " + name }, func() string {
			f, found := poplural.ForLanguage(tag)
			if found {
				return name + ": gettext rule found"
			}
			for n := 0; n < 5; n++ {
				want := 1
				if n == 1 {
					want = 0
				}
				if got, err := f(n); err != nil || got != want {
					return fmt.Sprintf("%s n=%d: %d %v", name, n, got, err)
				}
			}
			return ""
		})
	}
}

func runC26(c *C) {
	langs := cldrLangs()
	ints := cldrInts(int64(c.Pick(210_000, 2_100_000)))
	c.Note("integers", len(ints))
	type job struct{ name string }
	var jobs []string
	seen := map[string]bool{}
	for _, l := range langs {
		for _, n := range l.names {
			if !seen[n] && n != "und" {
				seen[n] = true
				jobs = append(jobs, n)
			}
		}
	}
	jobs = append(jobs, "de-AT", "en-GB", "fr-CA", "pt-BR", "es-MX", "ar-001", "zh-Hant", "zh-Hans", "fa-AF", "hi-Latn", "sr-ME", "en-AU", "nl-BE", "sw-CD")
	// the rules by the forms they select
	forms := func(f func(int64) int) string {
		b := make([]byte, len(ints))
		for k, n := range ints {
			b[k] = '0' + byte(f(n))
		}
		return string(b)
	}
	hs := headers()
	sigs := make([]string, len(hs))
	declared := make([]int, len(hs))
	c.Par(len(hs), func(w, i int) {
		c.caseW(w, func() string { return "header " + hs[i] }, func() string {
			rule, err := poplural.Parse(hs[i])
			if err != nil {
				return err.Error()
			}
			declared[i] = rule.NPlurals
			sigs[i] = forms(rule.FormFunc)
			return ""
		})
	})
	c.Par(len(jobs), func(w, i int) {
		name := jobs[i]
		tag := language.Raw.Make(name)
		nums := ints
		c.caseW(w, func() string { return "language " + name }, func() string {
			rs, ok := cldrplural.ForLanguage(tag)
			form, ok2 := poplural.ForLanguage(tag)
			if ok != ok2 && name != "jw" && name != "mo" { // deprecated codes only the CLDR data lists
				return fmt.Sprintf("%s: CLDR rule found=%v, gettext rule found=%v", name, ok, ok2)
			}
			if !ok2 {
				return ""
			}
			f2c := map[int]cldrplural.Category{}
			c2f := map[cldrplural.Category]int{}
			for _, n := range nums {
				cat, err1 := rs.Evaluate(n)
				f, err2 := form(n)
				if err1 != nil || err2 != nil {
					return fmt.Sprintf("%s n=%d: %v %v", name, n, err1, err2)
				}
				if f < 0 || f >= 6 {
					return fmt.Sprintf("%s n=%d: form %d", name, n, f)
				}
				if k, ok := f2c[f]; ok && k != cat {
					return fmt.Sprintf("%s n=%d: gettext form %d stood for %v before, the CLDR category is %v", name, n, f, k, cat)
				}
				if k, ok := c2f[cat]; ok && k != f {
					return fmt.Sprintf("%s n=%d: CLDR category %v went with form %d before, now with %d", name, n, cat, k, f)
				}
				f2c[f] = cat
				c2f[cat] = f
			}
			for k := 0; k < len(f2c); k++ {
				if _, ok := f2c[k]; !ok {
					return fmt.Sprintf("%s: %d forms are used but form %d is not among them", name, len(f2c), k)
				}
			}
			c.Outcome(fmt.Sprint(name, len(f2c)))
			sig := forms(func(n int64) int { f, _ := form(n); return f })
			known := false
			for k, h := range hs {
				if sigs[k] != sig {
					continue
				}
				known = true
				if declared[k] != len(f2c) {
					return fmt.Sprintf("%s: %d forms are used, the rule of %q declares %d", name, len(f2c), h, declared[k])
				}
			}
			if !known {
				return name + ": no known header gives these forms"
			}
			return ""
		})
		c.trans.Add(int64(len(nums)))
		c.Distinct(name)
	})
}
