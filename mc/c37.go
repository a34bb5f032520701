package main

// C37: the error of a lookup says exactly what is missing, and where.
// C38: the panicking variants of functions fail exactly when the plain ones do.

import (
	"encoding/json"
	"errors"
	"fmt"
	"reflect"
	"strings"
	"sync"

	"golang.org/x/text/language"

	"github.com/vorlif/spreak"
	"github.com/vorlif/spreak/catalog"
	"github.com/vorlif/spreak/catalog/cldrplural"
	cldrast "github.com/vorlif/spreak/catalog/cldrplural/ast"
	"github.com/vorlif/spreak/catalog/po"
	"github.com/vorlif/spreak/catalog/poplural"
	poast "github.com/vorlif/spreak/catalog/poplural/ast"
	"github.com/vorlif/spreak/humanize"
	"github.com/vorlif/spreak/localize"
)

func init() {
	register(&Check{ID: "C37", Level: "exploration",
		Rule: "every state (absent, complete, without plural, first form empty, last form empty, untranslated) of each of four messages over contexts x ids x file format (PO, MO, JSON) x language; in each every lookup over domains x contexts x ids x counts, on the catalog and through a bundle with a callback; the constructors of errors over all combinations of field values. The error's type, fields and text against a model. Non-trivial: something is missing.",
		Run:  runC37})
	register(&Check{ID: "C38", Level: "exploration",
		Rule: "every text of up to a length over the alphabets of PO files, plural rules, CLDR rules and operands, all published rules, and option lists: the panicking variant against the plain one. Non-trivial: the text is refused.",
		Run:  runC38})
}

// miss is what is missing: kind 0 nothing, 1 domain, 2 context, 3 id, 4 translation, 5 another error.
type miss struct {
	kind             int
	lang             string
	domain, ctx, id_ string
	idx              int
}

func missOf(err error) miss {
	var d *spreak.ErrMissingDomain
	var c *catalog.ErrMissingContext
	var m *catalog.ErrMissingMessageID
	var t *catalog.ErrMissingTranslation
	switch {
	case err == nil:
		return miss{}
	case errors.As(err, &d):
		return miss{1, d.Language.String(), d.Domain, "", "", 0}
	case errors.As(err, &c):
		return miss{2, c.Language.String(), c.Domain, c.Context, "", 0}
	case errors.As(err, &m):
		return miss{3, m.Language.String(), m.Domain, m.Context, m.MsgID, 0}
	case errors.As(err, &t):
		return miss{4, t.Language.String(), t.Domain, t.Context, t.MsgID, t.Idx}
	}
	return miss{kind: 5}
}

// textOf37 checks the text of an error: it names what the error is about, in quotes.
func (m miss) text(s string) string {
	var parts []string
	parts = append(parts, q(m.lang))
	if m.domain != "" {
		parts = append(parts, "domain="+q(m.domain))
	}
	if m.ctx != "" {
		parts = append(parts, "ctx="+q(m.ctx))
	}
	if m.kind >= 3 {
		parts = append(parts, q(m.id_))
	}
	if m.kind == 4 {
		parts = append(parts, fmt.Sprint("idx=", m.idx))
	}
	for _, p := range parts {
		if !strings.Contains(s, p) {
			return fmt.Sprintf("text %q does not name %s", s, p)
		}
	}
	return ""
}

var texts37 struct {
	sync.Mutex
	by map[string]miss
}

// distinct: two different misses never have the same text.
func (m miss) distinct(s string) string {
	texts37.Lock()
	defer texts37.Unlock()
	if texts37.by == nil {
		texts37.by = map[string]miss{}
	}
	if o, ok := texts37.by[s]; ok && o != m {
		return fmt.Sprintf("text %q stands for %v and for %v", s, o, m)
	}
	texts37.by[s] = m
	return ""
}

type lang37 struct {
	name, header string
	np           int
	form         func(n int) int
	cats         []string // of the CLDR rules, "other" last
	cat          func(n int) string
}

var langs37 = []lang37{
	{"de", "nplurals=2; plural=(n != 1);", 2, func(n int) int {
		if n == 1 {
			return 0
		}
		return 1
	}, []string{"one", "other"}, func(n int) string {
		if n == 1 {
			return "one"
		}
		return "other"
	}},
	{"pl", "nplurals=3; plural=(n==1 ? 0 : n%10>=2 && n%10<=4 && (n%100<10 || n%100>=20) ? 1 : 2);", 3, pl37, []string{"one", "few", "many", "other"}, func(n int) string {
		return []string{"one", "few", "many"}[pl37(n)]
	}},
	{"ja", "nplurals=1; plural=0;", 1, func(int) int { return 0 }, []string{"other"}, func(int) string { return "other" }},
}

func pl37(n int) int {
	switch {
	case n == 1:
		return 0
	case n%10 >= 2 && n%10 <= 4 && (n%100 < 10 || n%100 >= 20):
		return 1
	}
	return 2
}

type msg37 struct {
	ctx, id string
	state   int // 0 absent 1 complete 2 without plural 3 first form empty 4 last form empty 5 all empty
}

var states37 = []string{"absent", "complete", "singular", "first empty", "last empty", "untranslated"}

func (m msg37) forms(np int) map[int]string {
	f := map[int]string{}
	for k := 0; k < np; k++ {
		f[k] = fmt.Sprintf("t%d", k)
		if m.state == 2 && k > 0 {
			delete(f, k)
		}
		if m.state == 5 || m.state == 3 && k == 0 || m.state == 4 && k == np-1 {
			f[k] = ""
		}
	}
	return f
}

func (m msg37) json(cats []string) map[string]string {
	out := map[string]string{}
	for k, cat := range cats {
		if m.state == 2 && k < len(cats)-1 {
			continue
		}
		out[cat] = "t-" + cat
		if m.state == 5 || m.state == 3 && k == 0 || m.state == 4 && k == len(cats)-1 {
			out[cat] = ""
		}
	}
	return out
}

func runC37(c *C) {
	ids := []string{"x", "y_c"}
	ctxs := []string{"", "c"}
	type asked struct{ ctx, id string }
	var queries []asked
	for _, ctx := range []string{"", "c", "C d", "\"", "_"} {
		for _, id := range []string{"x", "y_c", "X", "y", "\" q"} {
			queries = append(queries, asked{ctx, id})
		}
	}
	domains := []string{"", "a", `b "c"`}
	counts := []any{0, 1, 2, 5, 22, "x"}
	catIdx := map[string]int{"zero": 0, "one": 1, "two": 2, "few": 3, "many": 4, "other": 5}
	kinds := []string{"po", "mo", "json"}
	k37 := len(states37)
	dims := []int{len(kinds), len(langs37), k37, k37, k37, k37}
	c.Par(size(dims), func(w, i int) {
		ix := tuple(i, dims)
		kind, l := kinds[ix[0]], langs37[ix[1]]
		var msgs []msg37
		has := map[string]bool{} // contexts
		for k, s := range ix[2:] {
			m := msg37{ctxs[k/2], ids[k%2], s}
			if s != 0 {
				has[m.ctx] = true
			}
			msgs = append(msgs, m)
		}
		key := func() string { return fmt.Sprintf("%s %s %v", kind, l.name, msgs) }
		c.caseW(w, key, func() string {
			// the file
			var data []byte
			var dec catalog.Decoder
			switch kind {
			case "po":
				dec = catalog.NewPoDecoder()
				var b strings.Builder
				fmt.Fprintf(&b, "msgid \"\"\nmsgstr \"\"\n\"Plural-Forms: %s\\n\"\n", l.header)
				for _, m := range msgs {
					if m.state == 0 {
						continue
					}
					b.WriteString("\n")
					if m.ctx != "" {
						fmt.Fprintf(&b, "msgctxt %q\n", m.ctx)
					}
					fmt.Fprintf(&b, "msgid %q\n", m.id)
					f := m.forms(l.np)
					if m.state == 2 {
						fmt.Fprintf(&b, "msgstr %q\n", f[0])
						continue
					}
					fmt.Fprintf(&b, "msgid_plural %q\n", m.id+"s")
					for k := 0; k < l.np; k++ {
						fmt.Fprintf(&b, "msgstr[%d] %q\n", k, f[k])
					}
				}
				data = []byte(b.String())
			case "mo":
				dec = catalog.NewMoDecoder()
				recs := []moMsg{{"", "Plural-Forms: " + l.header + "\n"}}
				for _, m := range msgs {
					if m.state == 0 {
						continue
					}
					id := m.id
					if m.ctx != "" {
						id = m.ctx + "\x04" + id
					}
					f := m.forms(l.np)
					if m.state == 2 {
						recs = append(recs, moMsg{id, f[0]})
						continue
					}
					var s []string
					for k := 0; k < l.np; k++ {
						s = append(s, f[k])
					}
					recs = append(recs, moMsg{id + "\x00" + m.id + "s", strings.Join(s, "\x00")})
				}
				data = moBytes(recs, moLayout{})
			case "json":
				dec = catalog.NewJSONDecoder()
				file := map[string]map[string]string{}
				for _, m := range msgs {
					if m.state == 0 {
						continue
					}
					k, v := m.id, m.json(l.cats)
					if m.ctx != "" {
						k += "_" + m.ctx
						v["context"] = m.ctx
					}
					file[k] = v
				}
				if len(file) == 0 {
					return "" // refused, see C14
				}
				data, _ = json.Marshal(file)
			}
			lang := language.MustParse(l.name)
			// what is missing
			want := func(domain string, a asked, n any) miss {
				base := miss{lang: l.name, domain: domain, ctx: a.ctx}
				if !has[a.ctx] {
					base.kind = 2
					return base
				}
				base.id_ = a.id
				if kind == "json" && a.ctx != "" {
					base.id_ += "_" + a.ctx
				}
				for _, m := range msgs {
					same := m.ctx == a.ctx && m.id == a.id
					if kind == "json" { // the key decides
						k := m.id
						if m.ctx != "" {
							k += "_" + m.ctx
						}
						same = m.ctx == a.ctx && k == base.id_
					}
					if m.state == 0 || !same {
						continue
					}
					if kind == "json" {
						cat := "other"
						if n != nil {
							cat = l.cat(n.(int))
						}
						if m.json(l.cats)[cat] == "" {
							base.kind, base.idx = 4, catIdx[cat]
							return base
						}
						return miss{}
					}
					idx := 0
					if n != nil {
						idx = l.form(n.(int))
					}
					if m.forms(l.np)[idx] == "" {
						base.kind, base.idx = 4, idx
						return base
					}
					return miss{}
				}
				base.kind = 3
				return base
			}
			judge := func(what string, err error, w miss) string {
				got := missOf(err)
				if got != w {
					return fmt.Sprintf("%s: error %v (%+v), want %+v", what, err, got, w)
				}
				if err == nil || w.kind == 5 {
					return ""
				}
				c.Distinct(err.Error())
				if s := w.text(err.Error()); s != "" {
					return what + ": " + s
				}
				if s := w.distinct(err.Error()); s != "" {
					return what + ": " + s
				}
				if s, ok := err.(fmt.Stringer); ok && s.String() != err.Error() {
					return fmt.Sprintf("%s: String %q, Error %q", what, s.String(), err.Error())
				}
				return ""
			}
			var opts []spreak.BundleOption
			var called []error
			for _, dom := range domains {
				cat, err := dec.Decode(lang, dom, data)
				if err != nil {
					return "decoding: " + err.Error()
				}
				for _, a := range queries {
					s, err := cat.Lookup(a.ctx, a.id)
					what := fmt.Sprintf("Lookup(%q, %q) in %q", a.ctx, a.id, dom)
					if d := judge(what, err, want(dom, a, nil)); d != "" {
						return d
					}
					if err != nil && s != a.id {
						return fmt.Sprintf("%s = %q with error %v", what, s, err)
					}
					for _, n := range counts {
						s, err := cat.LookupPlural(a.ctx, a.id, n)
						what := fmt.Sprintf("LookupPlural(%q, %q, %v) in %q", a.ctx, a.id, n, dom)
						wm := miss{kind: 5}
						if _, ok := n.(int); ok {
							wm = want(dom, a, n)
						}
						if d := judge(what, err, wm); d != "" {
							return d
						}
						if err != nil && s != a.id {
							return fmt.Sprintf("%s = %q with error %v", what, s, err)
						}
					}
				}
				opts = append(opts, spreak.WithDomainLoader(dom, modelLoader{l.name: cat}))
			}
			opts = append(opts, spreak.WithSourceLanguage(language.English), spreak.WithLanguage(l.name),
				spreak.WithMissingTranslationCallback(func(err error) { called = append(called, err) }))
			b, err := spreak.NewBundle(opts...)
			if err != nil {
				return "bundle: " + err.Error()
			}
			loc := spreak.NewLocalizer(b, lang)
			for _, dom := range append(domains, "zz", "A") {
				for _, a := range queries {
					for _, n := range []any{nil, 0, 1, 2, 5, 22} {
						wm := miss{kind: 1, lang: l.name, domain: dom}
						if dom != "zz" && dom != "A" {
							wm = want(dom, a, n)
						}
						m := &locMsg{dom: dom, hasDom: true}
						m.Singular, m.Context = a.id, a.ctx
						if n != nil {
							m.Plural, m.Count = a.id+"s", n.(int)
						}
						called = nil
						_, err := loc.LocalizeWithError(m)
						what := fmt.Sprintf("LocalizeWithError(%q, %q, %q, %v)", dom, a.ctx, a.id, n)
						if d := judge(what, err, wm); d != "" {
							return d
						}
						if (err != nil) != (len(called) > 0) {
							return fmt.Sprintf("%s: error %v, callback called with %v", what, err, called)
						}
						for _, e := range called {
							if d := judge(what+", callback", e, wm); d != "" {
								return d
							}
						}
					}
				}
			}
			return ""
		})
	})
	// the constructors
	vals := []string{"", "a", "b \"c\"", "ctx=\"d\"", "ä\n"}
	tags := []language.Tag{language.German, language.MustParse("zh-Hant-TW"), language.Und}
	for _, t := range tags {
		for _, d := range vals {
			for _, x := range vals {
				for _, id := range vals {
					for _, idx := range []int{0, 1, 10} {
						c.Case(func() string { return fmt.Sprintf("constructors %v %q %q %q %d", t, d, x, id, idx) }, func() string {
							one := func(err error, w miss) string {
								if got := missOf(err); got != w {
									return fmt.Sprintf("error with %+v, want %+v", got, w)
								}
								if s := w.text(err.Error()); s != "" {
									return s
								}
								return w.distinct(err.Error())
							}
							for _, s := range []string{
								one(catalog.NewErrMissingContext(t, d, x), miss{2, t.String(), d, x, "", 0}),
								one(catalog.NewErrMissingMessageID(t, d, x, id), miss{3, t.String(), d, x, id, 0}),
								one(catalog.NewErrMissingTranslation(t, d, x, id, idx), miss{4, t.String(), d, x, id, idx}),
								one(&spreak.ErrMissingDomain{Language: t, Domain: d}, miss{1, t.String(), d, "", "", 0}),
							} {
								if s != "" {
									return s
								}
							}
							nf := spreak.NewErrNotFound(t, d, "%s-%q-%d", x, id, idx)
							wantID := fmt.Sprintf("%s-%q-%d", x, id, idx)
							if nf.Language != t || nf.Type != d || nf.Identifier != wantID {
								return fmt.Sprintf("ErrNotFound %+v", *nf)
							}
							for _, p := range []string{q(t.String()), q(d), wantID} {
								if !strings.Contains(nf.Error(), p) {
									return fmt.Sprintf("text %q does not name %s", nf.Error(), p)
								}
							}
							if e := (&spreak.ErrMissingLanguage{Language: t}); !strings.Contains(e.Error(), q(t.String())) {
								return fmt.Sprintf("text %q does not name %v", e.Error(), t)
							}
							le := &localize.Error{Translation: x, Wrapped: nf}
							if le.Error() != x || le.String() != x || errors.Unwrap(le) != error(nf) {
								return "localize.Error " + le.Error()
							}
							return ""
						})
					}
				}
			}
		}
	}
}

// must compares a panicking variant with the plain one.
func must[T any](text string, plain func() (T, error), panicking func() T, same func(a, b T) bool) string {
	want, err := plain()
	var got T
	var thrown any
	func() {
		defer func() { thrown = recover() }()
		got = panicking()
	}()
	if err != nil {
		if thrown == nil {
			return fmt.Sprintf("error %v, but no panic", err)
		}
		if e, ok := thrown.(error); !ok || e.Error() != err.Error() {
			return fmt.Sprintf("error %v, but panic with %v", err, thrown)
		}
		return ""
	}
	if thrown != nil {
		return fmt.Sprintf("no error, but panic with %v", thrown)
	}
	if !same(want, got) {
		return "different results"
	}
	return ""
}

func runC38(c *C) {
	strs := func(alphabet []string, n int, f func(s string)) {
		for k := 0; k <= n; k++ {
			dims := make([]int, k)
			for i := range dims {
				dims[i] = len(alphabet)
			}
			for i := 0; i < size(dims); i++ {
				var b strings.Builder
				for _, x := range tuple(i, dims) {
					b.WriteString(alphabet[x])
				}
				f(b.String())
			}
		}
	}
	run := func(what, text string, refused bool, f func() string) {
		if refused {
			c.Distinct(what + text)
		}
		c.Case(func() string { return what + " " + q(text) }, f)
	}
	deep := reflect.DeepEqual
	// PO files
	strs([]string{"msgid \"a\"\n", "msgstr \"b\"\n", "msgid_plural \"c\"\n", "msgstr[0] \"d\"\n", "msgctxt \"e\"\n", "# f\n", "\"g\"\n", "bad\n"}, c.Pick(4, 5), func(s string) {
		_, err := po.ParseString(s)
		run("po", s, err != nil, func() string {
			f := func(a, b *po.File) bool { return deep(a, b) }
			if d := must(s, func() (*po.File, error) { return po.Parse([]byte(s)) }, func() *po.File { return po.MustParse([]byte(s)) }, f); d != "" {
				return d
			}
			a, errA := po.ParseString(s)
			b, errB := po.Parse([]byte(s))
			if !f(a, b) || errText(errA) != errText(errB) {
				return fmt.Sprintf("ParseString %v, Parse %v", errA, errB)
			}
			return ""
		})
	})
	// plural rules
	forms := func(s string) string {
		if d := must(s, func() (*poast.Forms, error) { return poast.Parse(s) }, func() *poast.Forms { return poast.MustParse(s) }, func(a, b *poast.Forms) bool { return deep(a, b) }); d != "" {
			return "ast: " + d
		}
		return must(s, func() (*poplural.Rule, error) { return poplural.Parse(s) }, func() *poplural.Rule { return poplural.MustParse(s) }, func(a, b *poplural.Rule) bool {
			if a.NPlurals != b.NPlurals {
				return false
			}
			for n := int64(0); n < 130; n++ {
				if a.FormFunc(n) != b.FormFunc(n) {
					return false
				}
			}
			return true
		})
	}
	strs([]string{"n", "1", "%", "==", "&&", "?", ":", "(", ")"}, c.Pick(4, 5), func(s string) {
		s = "nplurals=2; plural=" + s + ";"
		_, err := poplural.Parse(s)
		run("gettext", s, err != nil, func() string { return forms(s) })
	})
	for _, h := range headers() {
		run("gettext", h, false, func() string { return forms(h) })
	}
	// CLDR rules
	cldr := func(s string) string {
		if d := must(s, func() (*cldrast.Rule, error) { return cldrast.Parse(s) }, func() *cldrast.Rule { return cldrast.MustParse(s) }, func(a, b *cldrast.Rule) bool { return deep(a, b) }); d != "" {
			return "ast: " + d
		}
		m := map[cldrplural.Category]string{cldrplural.One: s, cldrplural.Other: ""}
		return must(s, func() (*cldrplural.RuleSet, error) { return cldrplural.ParseRules(m) }, func() *cldrplural.RuleSet { return cldrplural.MustParseRules(m) }, func(a, b *cldrplural.RuleSet) bool {
			if !deep(a.Categories, b.Categories) {
				return false
			}
			for _, n := range numbers36() {
				x, errX := a.Evaluate(n.text)
				y, errY := b.Evaluate(n.text)
				if x != y || (errX == nil) != (errY == nil) {
					return false
				}
			}
			return true
		})
	}
	strs([]string{"n", " = ", " != ", "1", "2..4", ",", " % 10", " and ", "i = 1", " @integer 1, 2", "@decimal "}, c.Pick(4, 5), func(s string) {
		_, err := cldrast.Parse(s)
		run("cldr", s, err != nil, func() string { return cldr(s) })
	})
	for _, l := range cldrLangs() {
		for _, s := range l.raw {
			run("cldr", s, false, func() string { return cldr(s) })
		}
	}
	// operands
	strs([]string{"1", "0", ".", "-", "c", "e", " ", "x"}, c.Pick(4, 5), func(s string) {
		_, err := cldrplural.NewOperands(s)
		run("operands", s, err != nil, func() string {
			return must(s, func() (*cldrplural.Operands, error) { return cldrplural.NewOperands(s) }, func() *cldrplural.Operands { return cldrplural.MustNewOperands(s) }, func(a, b *cldrplural.Operands) bool { return deep(a, b) })
		})
	})
	for i, v := range []any{nil, 1, int64(-2), 1.5, float32(0.1), true, []int{1}, struct{}{}, uint8(3), (*int)(nil)} {
		run("operands", fmt.Sprintf("value %d: %v", i, v), false, func() string {
			return must("", func() (*cldrplural.Operands, error) { return cldrplural.NewOperands(v) }, func() *cldrplural.Operands { return cldrplural.MustNewOperands(v) }, func(a, b *cldrplural.Operands) bool { return deep(a, b) })
		})
	}
	// collections
	locales := shippedLocales()
	type opt struct {
		name string
		o    func() humanize.Option
	}
	var opts []opt
	opts = append(opts, opt{"locale 0", func() humanize.Option { return humanize.WithLocale(locales[0].new()) }},
		opt{"locale 1", func() humanize.Option { return humanize.WithLocale(locales[1].new()) }},
		opt{"error", func() humanize.Option { return humanize.WithBundleOption(spreak.WithLanguage(5)) }},
		opt{"no locale", func() humanize.Option { return humanize.WithLocale() }},
		opt{"fallback", func() humanize.Option {
			return humanize.WithBundleOption(spreak.WithFallbackLanguage("xx-invalid-xx-xx"))
		}})
	dims := []int{len(opts), len(opts), len(opts)}
	for i := 0; i < size(dims); i++ {
		ix := tuple(i, dims)
		name := ""
		build := func() []humanize.Option {
			var out []humanize.Option
			for _, k := range ix {
				out = append(out, opts[k].o())
			}
			return out
		}
		for _, k := range ix {
			name += opts[k].name + ", "
		}
		run("collection", name, strings.Contains(name, "error"), func() string {
			return must(name, func() (*humanize.Collection, error) { return humanize.New(build()...) }, func() *humanize.Collection { return humanize.MustNew(build()...) }, func(a, b *humanize.Collection) bool {
				for _, l := range []string{"de", "en", locales[0].new().Lang.String(), locales[1].new().Lang.String()} {
					if a.CreateHumanizer(l).NaturalTime(-3600) != b.CreateHumanizer(l).NaturalTime(-3600) || a.CreateHumanizer(l).Intword(1234567) != b.CreateHumanizer(l).Intword(1234567) {
						return false
					}
				}
				return true
			})
		})
	}
}
