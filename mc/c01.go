package main

import (
	"errors"
	"fmt"
	"sort"
	"strings"

	"golang.org/x/text/language"
	"golang.org/x/text/message"

	"github.com/vorlif/spreak"
	"github.com/vorlif/spreak/catalog"
	"github.com/vorlif/spreak/localize"
)

func init() {
	register(&Check{ID: "C01", Level: "exploration",
		Rule: "every bundle over source language x fallback language x requested language x default domain x domains present per language x state of one target message per language (context missing, message missing, empty, complete, single plural forms missing, fuzzy) x decoys under the other contexts, domains and ids x catalog format x printer; in each of them every lookup method with every domain, context, id, count and argument list. Text, error and callback are compared with a model of the fallback chain. Non-trivial: bundles in which the target is translated in at least one language.",
		Run:  runC01})
}

// entry is a translated message; forms[0] is the singular.
type entry struct {
	plural bool
	forms  [2]string
	fuzzy  bool
}

// model of one catalog: context -> id -> entry
type catModel map[string]map[string]entry

func (m catModel) add(ctx, id string, e entry) {
	if m[ctx] == nil {
		m[ctx] = map[string]entry{}
	}
	m[ctx][id] = e
}

const idS, idP, idPl, idO = "m %v", "s %v", "p %v", "o %v"

// build makes the real catalog; kind 0: po, 1: mo, 2: json.
func (m catModel) build(kind int, tag language.Tag, domain string) catalog.Catalog {
	header := "nplurals=2; plural=n != 1;"
	if tag.String() == "fr" {
		header = "nplurals=2; plural=n > 1;"
	}
	var ctxs []string
	for c := range m {
		ctxs = append(ctxs, c)
	}
	sort.Strings(ctxs)
	var po strings.Builder
	fmt.Fprintf(&po, "msgid \"\"\nmsgstr \"\"\n\"Plural-Forms: %s\\n\"\n\n", header)
	mo := []moMsg{{"", "Plural-Forms: " + header + "\n"}}
	var js []string
	for _, ctx := range ctxs {
		for _, id := range []string{idS, idP, idO} {
			e, ok := m[ctx][id]
			if !ok {
				continue
			}
			if e.fuzzy {
				fmt.Fprintf(&po, "#, fuzzy\n")
			}
			pre, key := "", id
			if ctx != "" {
				fmt.Fprintf(&po, "msgctxt %q\n", ctx)
				pre = ctx + "\x04"
				key = id + "_" + ctx
			}
			fmt.Fprintf(&po, "msgid %q\n", id)
			j := jm{key: key, ctx: ctx}
			if e.plural {
				fmt.Fprintf(&po, "msgid_plural %q\nmsgstr[0] %q\nmsgstr[1] %q\n\n", idPl, e.forms[0], e.forms[1])
				if !e.fuzzy {
					mo = append(mo, moMsg{pre + id + "\x00" + idPl, e.forms[0] + "\x00" + e.forms[1]})
				}
				j.vals[1], j.vals[5] = ptr(e.forms[0]), ptr(e.forms[1])
			} else {
				fmt.Fprintf(&po, "msgstr %q\n\n", e.forms[0])
				if !e.fuzzy {
					mo = append(mo, moMsg{pre + id, e.forms[0]})
				}
				j.vals[5] = ptr(e.forms[0])
			}
			if !e.fuzzy {
				js = append(js, j.text(false))
			}
		}
	}
	var cat catalog.Catalog
	var err error
	switch kind {
	case 0:
		cat, err = catalog.NewPoDecoder().Decode(tag, domain, []byte(po.String()))
	case 1:
		cat, err = catalog.NewMoDecoder().Decode(tag, domain, moBytes(mo, moLayout{}))
	case 2:
		if len(js) == 0 {
			return catalog.NewJSONCatalog(tag, domain)
		}
		cat, err = catalog.NewJSONDecoder().Decode(tag, domain, []byte("{"+strings.Join(js, ",")+"}"))
	}
	if err != nil {
		panic(err)
	}
	return cat
}

// form of an integer count in the languages used here.
func c01Form(lang string, n int64) int {
	if n < 0 {
		n = -n
	}
	switch lang {
	case "ja":
		return 0
	case "fr":
		if n > 1 {
			return 1
		}
		return 0
	}
	if n == 1 {
		return 0
	}
	return 1
}

func (m catModel) lookup(kind int, lang, ctx, id string, isPlural bool, n any) (string, bool) {
	e, ok := m[ctx][id]
	if !ok || e.fuzzy {
		return "", false
	}
	form := 0
	if isPlural {
		k, num := countOf(n)
		if !num {
			return "", false
		}
		form = c01Form(lang, k)
	}
	var t string
	switch {
	case kind == 2 && !e.plural: // only "other"
		if isPlural && form == 0 {
			return "", false
		}
		t = e.forms[0]
	case kind == 2:
		if !isPlural {
			form = 1
		}
		t = e.forms[form]
	case !e.plural && form > 0:
		return "", false
	default:
		t = e.forms[form]
	}
	return t, t != ""
}

func countOf(n any) (int64, bool) {
	switch v := n.(type) {
	case int:
		return int64(v), true
	case float64:
		return int64(v), true
	case string:
		if v == "1" {
			return 1, true
		}
	}
	return 0, false
}

type tagPrinter struct{}

func (tagPrinter) Init([]language.Tag) {}
func (tagPrinter) GetPrintFunc(lang language.Tag) spreak.PrintFunc {
	return func(s string, vars ...any) string { return lang.String() + "<" + s + fmt.Sprintf("|%v", vars) }
}

type c01cfg struct {
	source, fallback, request string
	defDom, locDom            string // localizer's domain; "-" means the bundle's
	targetDom, targetCtx      string
	state                     [2]int // de, fr
	doms                      [2]int // bit 0: domain "", bit 1: domain "d"
	decoy                     int    // bit 0: de, bit 1: fr
	kind                      int
	tagged                    bool
}

var c01States = []string{"no context", "no message", "empty", "complete", "only form 0", "only form 1", "fuzzy"}

func (g c01cfg) models() [2]map[string]catModel {
	var out [2]map[string]catModel
	for li, lang := range []string{"de", "fr"} {
		out[li] = map[string]catModel{}
		for di, dom := range []string{"", "d"} {
			if g.doms[li]>>di&1 == 0 {
				continue
			}
			m := catModel{}
			for _, ctx := range []string{"", "c"} {
				txt := func(id string, form int) string { return fmt.Sprintf("%s/%s/%s/%s#%d", lang, dom, ctx, id, form) }
				target := dom == g.targetDom && ctx == g.targetCtx
				st := 3
				if !target {
					if g.decoy>>li&1 == 0 {
						st = 0
					}
				} else {
					st = g.state[li]
				}
				if st == 0 {
					continue
				}
				if g.decoy>>li&1 == 1 || st == 1 {
					m.add(ctx, idO, entry{forms: [2]string{txt(idO, 0)}})
				}
				if st == 1 {
					continue
				}
				s := entry{forms: [2]string{txt(idS, 0)}}
				p := entry{plural: true, forms: [2]string{txt(idP, 0), txt(idP, 1)}}
				switch st {
				case 2:
					s.forms[0], p.forms = "", [2]string{}
				case 4:
					p.forms[1] = ""
				case 5:
					p.forms[0] = ""
				case 6:
					s.fuzzy, p.fuzzy = true, true
				}
				m.add(ctx, idS, s)
				m.add(ctx, idP, p)
			}
			out[li][dom] = m
		}
	}
	return out
}

// modelLoader serves the model's catalogs of one domain.
type modelLoader map[string]catalog.Catalog

func (m modelLoader) Load(lang language.Tag, domain string) (catalog.Catalog, error) {
	if c := m[lang.String()]; c != nil {
		return c, nil
	}
	return nil, spreak.NewErrNotFound(lang, "model", "none")
}

var c01Vars = [][]any{nil, {7}, {12345}}
var c01Counts = []any{0, 1, 2, 5, -1, 1.0, "1", "x", nil}

type locMsg struct {
	localize.Message
	dom    string
	hasDom bool
}

func (m *locMsg) HasDomain() bool   { return m.hasDom }
func (m *locMsg) GetDomain() string { return m.dom }

func (g c01cfg) String() string {
	return fmt.Sprintf("source=%s fallback=%s request=%s default=%q localizer=%q target=%q/%q de=%q fr=%q domains=%v decoys=%d kind=%d tagged=%v",
		g.source, g.fallback, g.request, g.defDom, g.locDom, g.targetDom, g.targetCtx, c01States[g.state[0]], c01States[g.state[1]], g.doms, g.decoy, g.kind, g.tagged)
}

func c01Check(c *C, g c01cfg) string {
	models := g.models()
	isLoaded := map[string]bool{} // languages with a locale
	var order []language.Tag
	load := func(l string) {
		if !isLoaded[l] {
			isLoaded[l] = true
			order = append(order, language.MustParse(l))
		}
	}
	var misses []error
	var opts []spreak.BundleOption
	opts = append(opts, spreak.WithMissingTranslationCallback(func(err error) { misses = append(misses, err) }))
	if g.tagged {
		opts = append(opts, spreak.WithPrinter(tagPrinter{}))
	}
	opts = append(opts, spreak.WithDefaultDomain(g.defDom))
	loaders := map[string]modelLoader{"": {}, "d": {}}
	for li, lang := range []string{"de", "fr"} {
		for dom, m := range models[li] {
			loaders[dom][lang] = m.build(g.kind, language.MustParse(lang), dom)
		}
	}
	opts = append(opts, spreak.WithDomainLoader("", loaders[""]), spreak.WithDomainLoader("d", loaders["d"]))
	if g.source != "und" {
		opts = append(opts, spreak.WithSourceLanguage(language.MustParse(g.source)))
		load(g.source)
	}
	opts = append(opts, spreak.WithLanguage("de", "fr"))
	for li, l := range []string{"de", "fr"} {
		if g.doms[li] != 0 || l == g.source {
			load(l)
		}
	}
	fb := g.source
	if g.fallback != "und" {
		fb = g.fallback
		li := map[string]int{"de": 0, "fr": 1}[g.fallback]
		if g.fallback != g.source && g.doms[li] != 3 {
			return "" // an incomplete fallback language does not build (C17)
		}
		opts = append(opts, spreak.WithFallbackLanguage(g.fallback))
	}
	b, err := spreak.NewBundle(opts...)
	if err != nil {
		return err.Error()
	}
	misses = nil
	_, idx, conf := language.NewMatcher(order).Match(language.MustParse(g.request))
	matched := conf > language.No && len(order) > 0
	locLang := fb
	if matched {
		locLang = order[idx].String()
	}
	var l *spreak.Localizer
	var k *spreak.KeyLocalizer
	defDom := g.locDom
	if g.locDom == "-" {
		defDom = g.defDom
		l, k = spreak.NewLocalizer(b, g.request), spreak.NewKeyLocalizer(b, g.request)
	} else {
		l, k = spreak.NewLocalizerForDomain(b, g.locDom, g.request), spreak.NewKeyLocalizerForDomain(b, g.locDom, g.request)
	}
	// the model of the chain
	print_ := func(lang, text string, vars []any) string {
		if g.tagged {
			return tagPrinter{}.GetPrintFunc(language.MustParse(lang))(text, vars...)
		}
		if len(vars) == 0 {
			return text
		}
		return printers(lang).Sprintf(text, vars...)
	}
	type result struct {
		text   string
		missed bool
		from   string
		langs  map[string]bool // loaded languages that missed
	}
	chain := func(dom, ctx, id, pl string, isPlural bool, n any, vars []any) result {
		r := result{langs: map[string]bool{}}
		for step, lang := range []string{locLang, fb, g.source} {
			if step == 2 || lang == g.source {
				r.from = g.source
				t := id
				if num, ok := countOf(n); isPlural && pl != "" && ok && c01Form(g.source, num) != 0 {
					t = pl
				}
				r.text = print_(g.source, t, vars)
				break
			}
			li := map[string]int{"de": 0, "fr": 1}[lang]
			if m, ok := models[li][dom]; ok {
				if t, ok := m.lookup(g.kind, lang, ctx, id, isPlural, n); ok {
					r.text, r.from = print_(lang, t, vars), lang
					break
				}
			}
			r.langs[lang] = true
		}
		r.missed = !matched || r.from != locLang
		return r
	}
	check := func(what string, got string, want result, n any) string {
		ms := misses
		misses = misses[:0]
		if got != want.text {
			return fmt.Sprintf("%s = %q, want %q", what, got, want.text)
		}
		langs := map[string]bool{}
		for _, e := range ms {
			langs[missLang(e)] = true
		}
		if _, num := countOf(n); !num {
			if len(want.langs) > 0 && len(ms) == 0 {
				return what + ": the callback was not called"
			}
			return ""
		}
		if setOf(langs) != setOf(want.langs) {
			return fmt.Sprintf("%s: callback called for %q, want %q", what, setOf(langs), setOf(want.langs))
		}
		return ""
	}
	for _, dom := range []string{"", "d", "zz"} {
		for _, ctx := range []string{"", "c", "zz"} {
			for _, vars := range c01Vars {
				for _, id := range []string{idS, idP, idO, "unknown"} {
					w := chain(dom, ctx, id, "", false, 1, vars)
					lm := &locMsg{localize.Message{Singular: id, Context: ctx, Vars: vars}, dom, true}
					got, err := l.LocalizeWithError(lm)
					if d := check(fmt.Sprintf("LocalizeWithError(%q,%q,%q,%v)", dom, ctx, id, vars), got, w, 1); d != "" {
						return d
					}
					if (err != nil) != w.missed {
						return fmt.Sprintf("LocalizeWithError(%q,%q,%q): error %v, missed %v", dom, ctx, id, err, w.missed)
					}
					for i, got := range []func() string{
						func() string { return l.Localize(lm) },
						func() string { return l.DPGetf(dom, ctx, id, vars...) },
						func() string { return k.DPGetf(dom, ctx, id, vars...) },
						func() string {
							if len(vars) > 0 {
								return w.text
							}
							return l.DPGet(dom, ctx, id)
						},
						func() string {
							if len(vars) > 0 {
								return w.text
							}
							return k.DPGet(dom, ctx, id)
						},
						func() string {
							if ctx != "" {
								return w.text
							}
							return l.DGetf(dom, id, vars...)
						},
						func() string {
							if ctx != "" {
								return w.text
							}
							return k.DGetf(dom, id, vars...)
						},
						func() string {
							if ctx != "" || len(vars) > 0 {
								return w.text
							}
							return l.DGet(dom, id)
						},
						func() string {
							if ctx != "" || len(vars) > 0 {
								return w.text
							}
							return k.DGet(dom, id)
						},
						func() string {
							if dom != defDom {
								return w.text
							}
							return l.PGetf(ctx, id, vars...)
						},
						func() string {
							if dom != defDom {
								return w.text
							}
							return k.PGetf(ctx, id, vars...)
						},
						func() string {
							if dom != defDom || len(vars) > 0 {
								return w.text
							}
							return l.PGet(ctx, id)
						},
						func() string {
							if dom != defDom || len(vars) > 0 {
								return w.text
							}
							return k.PGet(ctx, id)
						},
						func() string {
							if dom != defDom || ctx != "" {
								return w.text
							}
							return l.Getf(id, vars...)
						},
						func() string {
							if dom != defDom || ctx != "" {
								return w.text
							}
							return k.Getf(id, vars...)
						},
						func() string {
							if dom != defDom || ctx != "" || len(vars) > 0 {
								return w.text
							}
							return l.Get(id)
						},
						func() string {
							if dom != defDom || ctx != "" || len(vars) > 0 {
								return w.text
							}
							return k.Get(id)
						},
						func() string {
							if dom != defDom {
								return w.text
							}
							return l.Localize(&localize.Message{Singular: id, Context: ctx, Vars: vars})
						},
					} {
						s := got()
						if s != w.text {
							return fmt.Sprintf("singular method %d (%q,%q,%q,%v) = %q, want %q", i, dom, ctx, id, vars, s, w.text)
						}
					}
					misses = misses[:0]
				}
				for _, id := range []string{idP, idS, "unknown"} {
					for _, n := range c01Counts {
						w := chain(dom, ctx, id, idPl, true, n, vars)
						wk := chain(dom, ctx, id, id, true, n, vars)
						if d := check(fmt.Sprintf("DNPGetf(%q,%q,%q,%v,%v)", dom, ctx, id, n, vars), l.DNPGetf(dom, ctx, id, idPl, n, vars...), w, n); d != "" {
							return d
						}
						// without a plural text
						we := chain(dom, ctx, id, "", true, n, vars)
						if d := check(fmt.Sprintf("DNPGetf(%q,%q,%q,\"\",%v,%v)", dom, ctx, id, n, vars), l.DNPGetf(dom, ctx, id, "", n, vars...), we, n); d != "" {
							return d
						}
						if in, ok := n.(int); ok {
							lm := &locMsg{localize.Message{Singular: id, Plural: idPl, Count: in, Context: ctx, Vars: vars}, dom, true}
							got, err := l.LocalizeWithError(lm)
							if d := check(fmt.Sprintf("LocalizeWithError(%q,%q,%q,%v,%v)", dom, ctx, id, n, vars), got, w, n); d != "" {
								return d
							}
							if (err != nil) != w.missed {
								return fmt.Sprintf("LocalizeWithError(%q,%q,%q,%v): error %v, missed %v", dom, ctx, id, n, err, w.missed)
							}
						}
						type mm struct {
							name string
							ok   bool
							want string
							f    func() string
						}
						nv := len(vars) == 0
						dd := dom == defDom
						nc := ctx == ""
						for _, x := range []mm{
							{"KDNPGetf", true, wk.text, func() string { return k.DNPGetf(dom, ctx, id, n, vars...) }},
							{"DNPGet", nv, w.text, func() string { return l.DNPGet(dom, ctx, id, idPl, n) }},
							{"KDNPGet", nv, wk.text, func() string { return k.DNPGet(dom, ctx, id, n) }},
							{"DNGetf", nc, w.text, func() string { return l.DNGetf(dom, id, idPl, n, vars...) }},
							{"KDNGetf", nc, wk.text, func() string { return k.DNGetf(dom, id, n, vars...) }},
							{"DNGet", nc && nv, w.text, func() string { return l.DNGet(dom, id, idPl, n) }},
							{"KDNGet", nc && nv, wk.text, func() string { return k.DNGet(dom, id, n) }},
							{"NPGetf", dd, w.text, func() string { return l.NPGetf(ctx, id, idPl, n, vars...) }},
							{"KNPGetf", dd, wk.text, func() string { return k.NPGetf(ctx, id, n, vars...) }},
							{"NPGet", dd && nv, w.text, func() string { return l.NPGet(ctx, id, idPl, n) }},
							{"KNPGet", dd && nv, wk.text, func() string { return k.NPGet(ctx, id, n) }},
							{"NGetf", dd && nc, w.text, func() string { return l.NGetf(id, idPl, n, vars...) }},
							{"KNGetf", dd && nc, wk.text, func() string { return k.NGetf(id, n, vars...) }},
							{"NGet without plural text", dd && nc && nv, we.text, func() string { return l.NGet(id, "", n) }},
							{"NPGetf without plural text", dd, we.text, func() string { return l.NPGetf(ctx, id, "", n, vars...) }},
							{"NGet", dd && nc && nv, w.text, func() string { return l.NGet(id, idPl, n) }},
							{"KNGet", dd && nc && nv, wk.text, func() string { return k.NGet(id, n) }},
						} {
							if !x.ok {
								continue
							}
							if got := x.f(); got != x.want {
								return fmt.Sprintf("%s(%q,%q,%q,%v,%v) = %q, want %q", x.name, dom, ctx, id, n, vars, got, x.want)
							}
						}
						misses = misses[:0]
					}
				}
			}
		}
	}
	if d := diff("Print", l.Print("a %v b", "x"), print_(locLang, "a %v b", []any{"x"})); d != "" {
		return d
	}
	if s, err := l.LocalizeWithError(nil); err == nil {
		return "LocalizeWithError(nil) = " + q(s) + " without error"
	}
	return ""
}

var printerCache = map[string]*message.Printer{}

func printers(lang string) *message.Printer { return printerCache[lang] }

func missLang(err error) string {
	var a *spreak.ErrMissingDomain
	var b *catalog.ErrMissingContext
	var d *catalog.ErrMissingMessageID
	var e *catalog.ErrMissingTranslation
	switch {
	case errors.As(err, &a):
		return a.Language.String()
	case errors.As(err, &b):
		return b.Language.String()
	case errors.As(err, &d):
		return d.Language.String()
	case errors.As(err, &e):
		return e.Language.String()
	}
	return "? " + err.Error()
}

func runC01(c *C) {
	for _, l := range []string{"de", "fr", "en", "ja", "und"} {
		printerCache[l] = message.NewPrinter(language.MustParse(l))
	}
	sources := []string{"und", "en", "ja", "fr"}
	fallbacks := []string{"und", "fr", "de"}
	requests := []string{"de", "fr", "en", "it", "de-AT"}
	doms := []int{3, 1, 2, 0}
	dims := []int{len(sources), len(fallbacks), len(requests), 7, 7, len(doms), len(doms), 4 /* decoys */, 4 /* target */}
	total := size(dims)
	c.Par(total, func(w, i int) {
		t := tuple(i, dims)
		step := 0
		for _, x := range t {
			step = step*5 + x
		}
		if c.Quick() && (t[0]+2*t[1]+3*t[2]+t[3]+4*t[4]+t[5]*3+t[6]*2+t[7]+t[8]*5)%19 != 0 {
			return
		}
		g := c01cfg{source: sources[t[0]], fallback: fallbacks[t[1]], request: requests[t[2]], state: [2]int{t[3], t[4]}, doms: [2]int{doms[t[5]], doms[t[6]]}, decoy: t[7],
			targetDom: []string{"", "d"}[t[8]&1], targetCtx: []string{"", "c"}[t[8]>>1]}
		variants := 1
		if c.Thorough() {
			variants = 2
		}
		for v := 0; v < variants; v++ {
			s := step + v
			g.defDom = []string{"", "d"}[s/2%2]
			g.locDom = []string{"-", "", "d", "zz"}[s%4]
			g.kind = (s + s/7) % 3
			g.tagged = s/3%2 == 0
			if c.Thorough() {
				g.tagged = v == 0
			}
			c.caseW(w, func() string { return g.String() }, func() string {
				if g.state[0] > 2 || g.state[1] > 2 {
					c.Distinct(g.String())
				}
				return c01Check(c, g)
			})
		}
	})
}
