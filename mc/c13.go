package main

import (
	"encoding/json"
	"fmt"
	"math"
	"strconv"
	"strings"
	"time"

	"golang.org/x/text/language"

	"github.com/vorlif/spreak"
	"github.com/vorlif/spreak/catalog"
	"github.com/vorlif/spreak/catalog/cldrplural"
	"github.com/vorlif/spreak/catalog/poplural"
)

func init() {
	register(&Check{ID: "C13", Level: "exploration",
		Rule: "every whole number of a set (a window around zero, neighbourhoods of powers of ten and two, type limits; both signs) x every Go representation that can hold it x every consumer (61 gettext headers through a PO catalog, every built-in CLDR rule through a JSON and a PO catalog, the source text in every language, the rule objects themselves); the same for decimals as float and string; every value that is no number x every consumer. Non-trivial: distinct (consumer, number) pairs with at least two representations.",
		Run:  runC13})
}

type (
	nInt    int
	nInt8   int8
	nInt64  int64
	nUint16 uint16
	nUint64 uint64
	nFloat  float64
	nF32    float32
	nString string
)

// Numbers whose texts are other numbers or none.
type (
	fiscalMonth int
	celsius     float64
	celsius32   float32
	labelled    uint16
	roman       int64
)

func (m fiscalMonth) String() string { return strconv.Itoa(int(m) + 6) }
func (c celsius) String() string     { return strconv.FormatFloat(float64(c)*9/5+32, 'f', -1, 64) }
func (c celsius32) String() string   { return fmt.Sprintf("%v °C", float32(c)) }
func (labelled) String() string      { return "label" }
func (roman) Error() string          { return "1" }

type rep struct {
	name string
	v    any
}

func ptr[T any](v T) *T { return &v }

// intReps lists the representations of a whole number of magnitude up to 2^53.
func intReps(n int64) []rep {
	r := []rep{
		{"int64", n}, {"int", int(n)}, {"nInt", nInt(n)}, {"nInt64", nInt64(n)}, {"Duration", time.Duration(n)},
		{"float64", float64(n)}, {"nFloat", nFloat(n)}, {"string", strconv.FormatInt(n, 10)}, {"json.Number", json.Number(strconv.FormatInt(n, 10))},
		{"nString", nString(strconv.FormatInt(n, 10))},
		{"*int", ptr(int(n))}, {"**int64", ptr(ptr(n))}, {"*float64", ptr(float64(n))}, {"*string", ptr(strconv.FormatInt(n, 10))}, {"*nInt", ptr(nInt(n))},
	}
	add := func(name string, v any) { r = append(r, rep{name, v}) }
	add("named int with another text", fiscalMonth(n))
	add("*named int with another text", ptr(fiscalMonth(n)))
	add("named float64 with another text", celsius(n))
	add("named int64 with an error text", roman(n))
	if n >= math.MinInt32 && n <= math.MaxInt32 {
		add("int32", int32(n))
		add("*int32", ptr(int32(n)))
	}
	if n >= math.MinInt16 && n <= math.MaxInt16 {
		add("int16", int16(n))
	}
	if n >= math.MinInt8 && n <= math.MaxInt8 {
		add("int8", int8(n))
		add("nInt8", nInt8(n))
	}
	if n >= 0 {
		add("uint", uint(n))
		add("uint64", uint64(n))
		add("uintptr", uintptr(n))
		add("nUint64", nUint64(n))
		add("*uint64", ptr(uint64(n)))
		if n <= math.MaxUint32 {
			add("uint32", uint32(n))
		}
		if n <= math.MaxUint16 {
			add("uint16", uint16(n))
			add("nUint16", nUint16(n))
			add("named uint16 with a text", labelled(n))
		}
		if n <= math.MaxUint8 {
			add("uint8", uint8(n))
		}
		if n <= 6 {
			add("Weekday", time.Weekday(n))
		}
		if n >= 1 && n <= 12 {
			add("Month", time.Month(n))
		}
	}
	if n >= -1<<24 && n <= 1<<24 {
		add("float32", float32(n))
		add("nF32", nF32(n))
		add("*float32", ptr(float32(n)))
		add("named float32 with a text", celsius32(n))
	}
	return r
}

func fracReps(f float64) []rep {
	s := strconv.FormatFloat(f, 'f', -1, 64)
	r := []rep{{"float64", f}, {"nFloat", nFloat(f)}, {"string", s}, {"*float64", ptr(f)}, {"**float64", ptr(ptr(f))}, {"json.Number", json.Number(s)}, {"nString", nString(s)}, {"*string", ptr(s)}}
	// a float32 stands for its shortest decimal too
	return append(r, rep{"named float64 with another text", celsius(f)}, rep{"*named float64 with another text", ptr(celsius(f))}, rep{"named float32 with a text", celsius32(f)}, rep{"float32", float32(f)}, rep{"nF32", nF32(f)}, rep{"*float32", ptr(float32(f))})
}

// consumer selects something by a number; the result names the form.
type consumer struct {
	name   string
	f      func(n any) string
	fine   bool // expects the reference result want(n) for whole numbers
	want   func(abs int64) string
	nonNum string // result for a value that is not a number ("": any, but no panic)
}

type mapLoader map[string]catalog.Catalog

func (m mapLoader) Load(lang language.Tag, domain string) (catalog.Catalog, error) {
	if c, ok := m[lang.String()]; ok {
		return c, nil
	}
	return nil, spreak.NewErrNotFound(lang, "map", "no catalog")
}

func mustBundle(opts ...spreak.BundleOption) *spreak.Bundle {
	b, err := spreak.NewBundle(opts...)
	if err != nil {
		panic(err)
	}
	return b
}

func poPlural(header string, forms int) string {
	var b strings.Builder
	b.WriteString("msgid \"\"\nmsgstr \"\"\n")
	if header != "" {
		fmt.Fprintf(&b, "\"Plural-Forms: %s\\n\"\n", header)
	}
	b.WriteString("\nmsgid \"s\"\nmsgid_plural \"p\"\n")
	for k := 0; k < forms; k++ {
		fmt.Fprintf(&b, "msgstr[%d] \"f%d\"\n", k, k)
	}
	return b.String()
}

func jsonPlural(cats []cldrplural.Category) string {
	var parts []string
	other := false
	for _, k := range cats {
		other = other || k == cldrplural.Other
		parts = append(parts, fmt.Sprintf("%q: %q", strings.ToLower(k.String()), "f"+k.String()))
	}
	if !other {
		parts = append(parts, `"other": "fOther"`)
	}
	return `{"s": {` + strings.Join(parts, ", ") + `}}`
}

func catText(cat catalog.Catalog) func(n any) string {
	return func(n any) string {
		s, err := cat.LookupPlural("", "s", n)
		if err != nil {
			return "error: " + err.Error()
		}
		return s
	}
}

func locText(tag language.Tag, cat catalog.Catalog) func(n any) string {
	b := mustBundle(spreak.WithSourceLanguage(language.English), spreak.WithDomainLoader("", mapLoader{tag.String(): cat}), spreak.WithLanguage(tag))
	l := spreak.NewLocalizer(b, tag)
	return func(n any) string { return l.NGet("s", "p", n) }
}

func c13Consumers() []consumer {
	var out []consumer
	seen := map[string]bool{}
	for _, h := range headers() {
		np, toks := splitHeader(h)
		root, _, ok := parseC(toks)
		if !ok || seen[h] {
			continue
		}
		seen[h] = true
		cat, err := catalog.NewPoDecoder().Decode(language.MustParse("qaa"), "", []byte(poPlural(h, np)))
		if err != nil {
			panic(err)
		}
		want := func(abs int64) string { v, _ := root.eval(abs); return "f" + strconv.FormatInt(v, 10) }
		out = append(out, consumer{name: "po " + h, f: catText(cat), fine: true, want: want})
		out = append(out, consumer{name: "localizer po " + h, f: locText(language.MustParse("qaa"), cat), fine: true, want: want, nonNum: "s"})
		r, err := poplural.Parse(h)
		if err != nil {
			panic(err)
		}
		out = append(out, consumer{name: "rule " + h, fine: true, want: want, nonNum: "f0!", f: func(n any) string {
			idx, err := r.Evaluate(n)
			if err != nil {
				return fmt.Sprintf("f%d!", idx)
			}
			return fmt.Sprintf("f%d", idx)
		}})
	}
	for _, g := range cldrLangs() {
		name := g.names[0]
		tag := language.MustParse(name)
		want := func(abs int64) string { return "f" + g.category(dec{i: abs}).String() }
		cats := g.cats
		cat, err := catalog.NewJSONDecoder().Decode(tag, "", []byte(jsonPlural(cats)))
		if err != nil {
			panic(err)
		}
		if len(cats) > 0 { // with only "other" the message is a singular one
			out = append(out, consumer{name: "json " + name, f: catText(cat), fine: true, want: want})
			out = append(out, consumer{name: "localizer json " + name, f: locText(tag, cat), fine: true, want: want, nonNum: "s"})
		}
		rs, _ := cldrplural.ForLanguage(tag)
		idx := map[cldrplural.Category]int{}
		for k, cc := range rs.Categories {
			idx[cc] = k
		}
		out = append(out, consumer{name: "ruleset " + name, fine: true, want: want, f: func(n any) string {
			cc, err := rs.Evaluate(n)
			if err != nil {
				return "error"
			}
			return "f" + cc.String()
		}, nonNum: "error"})
		cat2, err := catalog.NewPoCLDRDecoder().Decode(tag, "", []byte(poPlural("", len(rs.Categories))))
		if err != nil {
			panic(err)
		}
		out = append(out, consumer{name: "po-cldr " + name, f: catText(cat2), fine: true, want: func(abs int64) string {
			return fmt.Sprintf("f%d", idx[g.category(dec{i: abs})])
		}})
		pf, known := poplural.ForLanguage(tag)
		if known {
			b := mustBundle(spreak.WithSourceLanguage(tag), spreak.WithLanguage(tag))
			l := spreak.NewLocalizer(b, tag)
			out = append(out, consumer{name: "source " + name, f: func(n any) string { return l.NGet("s", "p", n) }, fine: true, nonNum: "s", want: func(abs int64) string {
				if k, err := pf(abs); err != nil || k == 0 {
					return "s"
				}
				return "p"
			}})
		}
	}
	return out
}

type notNumber struct{ A int }

func runC13(c *C) {
	cons := c13Consumers()
	c.Note("consumers", len(cons))

	// Operands are the same for every representation.
	ints := map[int64]bool{}
	lim := int64(c.Pick(220, 1300))
	for n := int64(0); n <= lim; n++ {
		ints[n] = true
	}
	for p := int64(10); p <= 1_000_000_000_000_000; p *= 10 {
		for d := int64(-2); d <= int64(c.Pick(4, 25)); d++ {
			ints[p+d] = true
		}
		ints[2*p] = true
		ints[5*p+1] = true
	}
	for k := 3; k <= 53; k++ {
		for d := int64(-1); d <= 1; d++ {
			if v := int64(1)<<k + d; v <= 1<<53 {
				ints[v] = true
			}
		}
	}
	var list []int64
	for n := range ints {
		list = append(list, n)
	}
	c.Par(len(list), func(w, i int) {
		n := list[i]
		for _, sign := range []int64{1, -1} {
			n := n * sign
			for _, r := range intReps(n) {
				c.caseW(w, func() string { return fmt.Sprintf("operands %s(%d)", r.name, n) }, func() string {
					ops, err := cldrplural.NewOperands(r.v)
					if err != nil {
						return "error: " + err.Error()
					}
					abs := n * sign
					if ops.N != float64(abs) || ops.I != abs || ops.V != 0 || ops.W != 0 || ops.F != 0 || ops.T != 0 || ops.C != 0 {
						return fmt.Sprintf("operands %+v", *ops)
					}
					return ""
				})
			}
		}
	})
	c.Par(len(cons), func(w, i int) {
		co := cons[i]
		for _, abs := range list {
			if abs > lim/2 && abs < lim && c.Quick() {
				continue
			}
			want := co.want(abs)
			c.Distinct(co.name + "|" + strconv.FormatInt(abs, 10))
			c.Outcome(co.name + "|" + want)
			for _, n := range []int64{abs, -abs} {
				for _, r := range intReps(n) {
					c.caseW(w, func() string { return fmt.Sprintf("%s: %s(%d)", co.name, r.name, n) }, func() string {
						return diff("form", co.f(r.v), want)
					})
				}
			}
		}
		// decimals: no representation differs from another, and the sign does not matter
		for whole := 0; whole <= c.Pick(12, 30); whole++ {
			for _, num := range []int{1, 2, 4, 5, 10, 25, 50, 60, 75, 90, 99} {
				f := float64(whole) + float64(num)/100
				s := strconv.FormatFloat(f, 'f', -1, 64)
				f, _ = strconv.ParseFloat(s, 64)
				want := co.f(f)
				if _, fr, ok := strings.Cut(s, "."); ok && strings.HasPrefix(co.name, "ruleset") {
					want = co.wantDec(dec{i: int64(whole), frac: fr})
				}
				for _, r := range append(fracReps(f), fracReps(-f)...) {
					c.caseW(w, func() string { return fmt.Sprintf("%s: %s(%v)", co.name, r.name, deref(r.v)) }, func() string {
						return diff("form", co.f(r.v), want)
					})
				}
			}
		}
		non := []rep{{"nil", nil}, {"empty string", ""}, {"word", "five"}, {"bool", true}, {"struct", notNumber{5}}, {"slice", []int{1}}, {"bytes", []byte("1")}, {"map", map[string]int{"a": 1}}, {"*struct", &notNumber{1}}, {"spaced string", "1 2"}, {"*string", ptr("x")}, {"empty slice", []int{}}, {"unit string", "1px"}, {"error", fmt.Errorf("e")}, {"nString", nString("x")}, {"*bool", ptr(false)}}
		for _, r := range non {
			c.caseW(w, func() string { return fmt.Sprintf("%s: not a number: %s", co.name, r.name) }, func() string {
				got := co.f(r.v)
				if co.nonNum != "" {
					return diff("result", got, co.nonNum)
				}
				if !strings.HasPrefix(got, "error: ") {
					return fmt.Sprintf("selects %q without an error", got)
				}
				return ""
			})
		}
		weird := []rep{{"nil *int", (*int)(nil)}, {"nil **int", ptr((*int)(nil))}, {"func", func() {}}, {"chan", make(chan int)}, {"nil map", map[string]int(nil)}, {"nil func", (func())(nil)}, {"nil error", (*time.Time)(nil)},
			{"NaN", math.NaN()}, {"+Inf", math.Inf(1)}, {"-Inf", math.Inf(-1)}, {"MaxFloat", math.MaxFloat64}, {"tiny", math.SmallestNonzeroFloat64}, {"MinInt64", int64(math.MinInt64)}, {"MaxUint64", uint64(math.MaxUint64)}, {"MaxInt64", int64(math.MaxInt64)},
			{"NaN string", "NaN"}, {"Inf string", "Inf"}, {"hex", "0x10"}, {"exp", "1e3"}, {"exp-", "1.5e-3"}, {"dot", "."}, {"minus", "-"}, {"plus", "+1"}, {"under", "1_000"}, {"long", strings.Repeat("9", 400)}, {"longfrac", "1." + strings.Repeat("3", 400)}, {"zero-", math.Copysign(0, -1)}, {"c", "1c6"}, {"complex", complex(1, 2)}, {"space", " 1"}, {"NUL", "1\x00"}, {"nan complex", complex(math.NaN(), 0)}}
		for _, r := range weird {
			c.caseW(w, func() string { return fmt.Sprintf("%s: must not panic: %s", co.name, r.name) }, func() string {
				co.f(r.v)
				return ""
			})
		}
	})
}

func deref(v any) any {
	switch p := v.(type) {
	case *float64:
		return *p
	case **float64:
		return **p
	case *string:
		return *p
	}
	return v
}

// wantDec applies to the CLDR rule sets only.
func (co consumer) wantDec(d dec) string {
	name := strings.TrimPrefix(co.name, "ruleset ")
	for _, g := range cldrLangs() {
		if g.names[0] == name {
			return "f" + g.category(d).String()
		}
	}
	panic(name)
}
