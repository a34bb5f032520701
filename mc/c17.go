package main

import (
	"errors"
	"fmt"
	"os"
	"slices"
	"sort"
	"strings"

	"golang.org/x/text/language"

	"github.com/vorlif/spreak"
	"github.com/vorlif/spreak/catalog"
)

func init() {
	register(&Check{ID: "C17", Level: "exploration",
		Rule: "every assignment of loader outcomes (catalog, not found, wrapped not found, other error) to languages x domains x every sequence of language options (optional, required, source, fallback) up to the length bound x option order; every invalid option at every position; language names as strings. The oracle is a model of the documented rules. Non-trivial: option lists naming at least one language.",
		Run:  runC17})
}

type c17Loader struct {
	domain string
	out    map[string]int // language -> outcome
	errs   map[string]error
}

const (
	loadOK = iota
	loadMissing
	loadWrapped
	loadBroken
	loadPathErr // an os error is not a not-found error
)

func (l *c17Loader) Load(lang language.Tag, domain string) (catalog.Catalog, error) {
	if domain != l.domain {
		return nil, fmt.Errorf("asked for domain %q", domain)
	}
	k := lang.String()
	switch l.out[k] {
	case loadMissing:
		return nil, spreak.NewErrNotFound(lang, "test", "%s", domain)
	case loadWrapped:
		return nil, fmt.Errorf("wrapped: %w", spreak.NewErrNotFound(lang, "test", "%s", domain))
	case loadBroken, loadPathErr:
		return nil, l.errs[k]
	}
	return domCat{lang, domain}, nil
}

type domCat struct {
	t   language.Tag
	dom string
}

func (t domCat) Lookup(_, id string) (string, error) {
	return id + "@" + t.t.String() + "/" + t.dom, nil
}
func (t domCat) LookupPlural(_, id string, _ any) (string, error) { return t.Lookup("", id) }
func (t domCat) Language() language.Tag                           { return t.t }

// c17opt is one option naming languages.
type c17opt struct {
	kind  byte // 'o'ptional, 'r'equired, 's'ource, 'f'allback
	langs string
}

func (o c17opt) String() string { return string(o.kind) + ":" + o.langs }

func (o c17opt) option() spreak.BundleOption {
	var l []any
	for i, s := range strings.Fields(o.langs) {
		if i%2 == 0 {
			l = append(l, s)
		} else {
			l = append(l, language.MustParse(s))
		}
	}
	switch o.kind {
	case 'o':
		return spreak.WithLanguage(l...)
	case 'r':
		return spreak.WithRequiredLanguage(l...)
	case 's':
		return spreak.WithSourceLanguage(language.MustParse(o.langs))
	}
	return spreak.WithFallbackLanguage(l[0])
}

type c17model struct {
	ok       bool
	failWith []error // one of these must be in the chain (if any)
	loaded   map[string]map[string]bool
	order    []string
	skipped  []string
	domains  map[string]bool
	source   string
	fallback string
}

func c17Run(opts []c17opt, loaders []*c17Loader) c17model {
	m := c17model{ok: true, loaded: map[string]map[string]bool{}, domains: map[string]bool{}, source: "und", fallback: "und"}
	for _, o := range opts {
		if o.kind == 's' {
			m.source = o.langs
		}
		if o.kind == 'f' {
			m.fallback = o.langs
		}
	}
	for _, o := range opts {
		for _, lang := range strings.Fields(o.langs) {
			if lang == "und" {
				if o.kind == 'o' {
					m.skipped = append(m.skipped, lang)
					continue
				}
				m.ok = false
				return m
			}
			if lang == m.source {
				if m.loaded[lang] == nil {
					m.loaded[lang] = map[string]bool{}
					m.order = append(m.order, lang)
				}
				continue
			}
			missing := false
			var broken []error
			for _, l := range loaders {
				switch l.out[lang] {
				case loadMissing, loadWrapped:
					missing = true
				case loadBroken, loadPathErr:
					broken = append(broken, l.errs[lang])
				}
			}
			if m.loaded[lang] != nil {
				if o.kind != 'o' && missing {
					m.ok = false
					return m
				}
				continue
			}
			if len(broken) > 0 {
				m.ok = false
				m.failWith = broken
				if o.kind != 'o' && missing {
					m.failWith = nil // either may be reported
				}
				return m
			}
			if o.kind != 'o' && (missing || len(loaders) == 0) {
				m.ok = false
				return m
			}
			got := map[string]bool{}
			for _, l := range loaders {
				if l.out[lang] == loadOK {
					got[l.domain] = true
					m.domains[l.domain] = true
				}
			}
			if len(got) == 0 {
				m.skipped = append(m.skipped, lang)
				continue
			}
			m.loaded[lang] = got
			m.order = append(m.order, lang)
		}
	}
	return m
}

func setOf(m map[string]bool) string { return strings.Join(keysOf(m), ",") }

func c17Case(c *C, opts []c17opt, loaders []*c17Loader, cbAt int) string {
	m := c17Run(opts, loaders)
	var skipped []string
	notFound := map[string]bool{}
	cb := spreak.WithMissingTranslationCallback(func(err error) {
		var lang *spreak.ErrMissingLanguage
		var nf *spreak.ErrNotFound
		if errors.As(err, &lang) {
			skipped = append(skipped, lang.Language.String())
		} else if errors.As(err, &nf) {
			notFound[nf.Language.String()+"/"+nf.Identifier] = true
		} else {
			notFound["unexpected "+err.Error()] = true
		}
	})
	var bo []spreak.BundleOption
	for k, o := range opts {
		if k == cbAt {
			bo = append(bo, cb)
		}
		bo = append(bo, o.option())
	}
	if cbAt >= len(opts) {
		bo = append(bo, cb)
	}
	for k, l := range loaders {
		o := spreak.WithDomainLoader(l.domain, l)
		if (k+cbAt)%2 == 0 {
			bo = append(bo, o)
		} else {
			bo = append([]spreak.BundleOption{o}, bo...)
		}
	}
	b, err := spreak.NewBundle(bo...)
	c.Outcome(fmt.Sprintf("%v %v %v %v", m.ok, m.order, m.skipped, keysOf(m.domains)))
	if !m.ok {
		if err == nil {
			return "built, although it must fail"
		}
		if b != nil {
			return "an error and a bundle"
		}
		if len(m.failWith) > 0 && !slices.ContainsFunc(m.failWith, func(e error) bool { return errors.Is(err, e) }) {
			return fmt.Sprintf("the loader's error is lost: %v", err)
		}
		return ""
	}
	if err != nil {
		return "fails: " + err.Error()
	}
	var sup []string
	for _, t := range b.SupportedLanguages() {
		sup = append(sup, t.String())
	}
	sort.Strings(sup)
	var want []string
	for k := range m.loaded {
		want = append(want, k)
	}
	sort.Strings(want)
	if d := diff("SupportedLanguages", strings.Join(sup, ","), strings.Join(want, ",")); d != "" {
		return d
	}
	doms := slices.Sorted(slices.Values(b.Domains()))
	if d := diff("Domains", strings.Join(doms, ","), setOf(m.domains)); d != "" {
		return d
	}
	if b.CanLocalize() != (len(m.loaded) > 0 && len(m.domains) > 0) {
		return fmt.Sprint("CanLocalize is ", b.CanLocalize())
	}
	if d := diff("languages reported as missing", strings.Join(skipped, ","), strings.Join(m.skipped, ",")); d != "" {
		return d
	}
	wantNF := map[string]bool{}
	for _, o := range opts {
		for _, lang := range strings.Fields(o.langs) {
			if lang == m.source || lang == "und" {
				continue
			}
			for _, l := range loaders {
				if l.out[lang] == loadMissing || l.out[lang] == loadWrapped {
					wantNF[lang+"/"+l.domain] = true
				}
			}
		}
	}
	if d := diff("catalogs reported as missing", setOf(notFound), setOf(wantNF)); d != "" {
		return d
	}
	for lang, got := range m.loaded {
		tag := language.MustParse(lang)
		l := spreak.NewLocalizer(b, tag)
		if l.Language() != tag || !l.HasLocale() {
			return fmt.Sprintf("localizer for %s has language %v", lang, l.Language())
		}
		if d := diff("domains of "+lang, strings.Join(slices.Sorted(slices.Values(l.Domains())), ","), setOf(got)); d != "" {
			return d
		}
		for _, dom := range []string{"", "a", "b"} {
			if l.HasDomain(dom) != got[dom] {
				return fmt.Sprintf("HasDomain(%q) of %s is %v", dom, lang, l.HasDomain(dom))
			}
			if got[dom] {
				if d := diff("text", l.DGet(dom, "m"), "m@"+lang+"/"+dom); d != "" {
					return d
				}
			}
		}
	}
	none := spreak.NewLocalizer(b)
	fb := m.source
	if m.fallback != "und" {
		fb = m.fallback
	}
	if none.HasLocale() || none.Language().String() != fb {
		return fmt.Sprintf("without a request the language is %v, want %v", none.Language(), fb)
	}
	return ""
}

func runC17(c *C) {
	opts := []c17opt{{'o', "de"}, {'o', "fr"}, {'o', "de fr"}, {'o', "fr de"}, {'r', "de"}, {'r', "fr"}, {'r', "de fr"}, {'s', "en"}, {'s', "de"}, {'f', "fr"}, {'f', "de"}, {'o', "en"}, {'r', "en"}, {'s', "und"}, {'o', "und"}, {'r', "und"}, {'o', "de de"}, {'f', "en"}, {'o', ""}, {'r', ""}, {'o', "en-GB"}, {'r', "en-GB"}}
	outs := []int{loadOK, loadMissing, loadWrapped, loadBroken}
	mkLoaders := func(doms []string, ix []int) []*c17Loader {
		var ls []*c17Loader
		for d, dom := range doms {
			l := &c17Loader{domain: dom, out: map[string]int{}, errs: map[string]error{}}
			for k, lang := range []string{"de", "fr"} {
				l.out[lang] = outs[ix[2*d+k]]
				l.errs[lang] = fmt.Errorf("broken %s/%s", lang, dom)
			}
			l.out["en"] = outs[(ix[2*d]+1)%2]
			l.out["en-GB"] = outs[(ix[2*d]+ix[2*d+1])%2]
			ls = append(ls, l)
		}
		return ls
	}
	// sequences of options
	var seqs [][]c17opt
	n := len(opts)
	for a := 0; a < n; a++ {
		seqs = append(seqs, []c17opt{opts[a]})
		for b := 0; b < n; b++ {
			seqs = append(seqs, []c17opt{opts[a], opts[b]})
			for d := 0; d < n; d++ {
				seqs = append(seqs, []c17opt{opts[a], opts[b], opts[d]})
			}
		}
	}
	seqs = append(seqs, nil)
	domSets := [][]string{{"a", "b"}, {""}, {}}
	c.Par(len(seqs), func(w, i int) {
		s := seqs[i]
		for di, doms := range domSets {
			dims := make([]int, 2*len(doms))
			for k := range dims {
				dims[k] = len(outs)
			}
			product(dims, func(ix []int) {
				if c.Quick() && di == 0 && len(s) == 3 {
					sum := 0
					for k, x := range ix {
						sum += x * (k + 1)
					}
					if (sum+i)%4 != 0 {
						return
					}
				}
				ls := mkLoaders(doms, ix)
				cbAt := (i + ix0(ix)) % (len(s) + 1)
				c.caseW(w, func() string { return fmt.Sprintf("%v domains %q outcomes %v callback at %d", s, doms, ix, cbAt) }, func() string {
					if len(s) > 0 {
						c.Distinct(fmt.Sprint(i, di, ix))
					}
					return c17Case(c, s, ls, cbAt)
				})
			})
		}
	})
	// many domains, one of them missing or broken
	for _, n := range []int{3, 8, 9, 20} {
		for bad := -1; bad < n; bad++ {
			for _, out := range []int{loadMissing, loadWrapped, loadBroken, loadPathErr} {
				for _, s := range [][]c17opt{{{'o', "de"}}, {{'r', "de"}}, {{'f', "de"}}, {{'o', "de"}, {'r', "de"}}, {{'o', "de"}, {'f', "de"}}, {{'o', "de fr"}}, {{'s', "de"}, {'r', "de"}}} {
					var ls []*c17Loader
					for k := 0; k < n; k++ {
						l := &c17Loader{domain: fmt.Sprintf("d%d", k), out: map[string]int{}, errs: map[string]error{"de": fmt.Errorf("broken: %w", os.ErrNotExist)}}
						if k == bad {
							l.out["de"] = out
						}
						ls = append(ls, l)
					}
					c.Case(func() string { return fmt.Sprintf("%d domains, %d outcome %d, %v", n, bad, out, s) }, func() string { return c17Case(c, s, ls, 0) })
				}
			}
		}
	}
	// invalid options at every position
	ok := func() []spreak.BundleOption {
		return []spreak.BundleOption{spreak.WithSourceLanguage(language.English), spreak.WithDomainLoader("a", tagLoader{}), spreak.WithLanguage("de"), spreak.WithDefaultDomain("a"), spreak.WithErrorContext("e")}
	}
	bad := []struct {
		name string
		o    spreak.BundleOption
	}{
		{"nil option", nil}, {"nil loader", spreak.WithDomainLoader("b", nil)}, {"duplicate domain", spreak.WithDomainLoader("a", tagLoader{})}, {"duplicate domain fs", spreak.WithDomainFs("a", memFS{})}, {"duplicate domain path", spreak.WithDomainPath("a", "/nonexistent")},
		{"nil fs", spreak.WithDomainFs("b", nil)}, {"nil printer", spreak.WithPrinter(nil)}, {"nil print function", spreak.WithPrintFunction(nil)}, {"nil matcher builder", spreak.WithLanguageMatcherBuilder(nil)},
		{"language of wrong type", spreak.WithLanguage(5)}, {"language nil", spreak.WithLanguage(nil)}, {"language unparsable", spreak.WithLanguage("not a language")}, {"empty language", spreak.WithLanguage("")}, {"second language wrong", spreak.WithLanguage("de", 1.5)}, {"required wrong", spreak.WithRequiredLanguage([]string{"de"})}, {"fallback wrong", spreak.WithFallbackLanguage(3)}, {"fallback unparsable", spreak.WithFallbackLanguage("!!")}, {"required unparsable", spreak.WithRequiredLanguage("de", "x")},
		{"no file system", spreak.WithFilesystemLoader("b")}, {"nil fs option", spreak.WithFilesystemLoader("b", nil)}, {"two file systems", spreak.WithFilesystemLoader("b", spreak.WithFs(memFS{}), spreak.WithFs(memFS{}))}, {"fs and path", spreak.WithFilesystemLoader("b", spreak.WithFs(memFS{}), spreak.WithPath("/nonexistent"))}, {"path and fs", spreak.WithFilesystemLoader("b", spreak.WithPath("/nonexistent"), spreak.WithFs(memFS{}))}, {"two resolvers", spreak.WithFilesystemLoader("b", spreak.WithFs(memFS{}), spreak.WithResolver(resolverFunc(nil)), spreak.WithResolver(resolverFunc(nil)))},
	}
	for _, x := range bad {
		for at := 0; at <= 5; at++ {
			c.Case(func() string { return fmt.Sprintf("invalid: %s at %d", x.name, at) }, func() string {
				o := ok()
				o = append(o[:at], append([]spreak.BundleOption{x.o}, o[at:]...)...)
				b, err := spreak.NewBundle(o...)
				if err == nil || b != nil {
					return "built"
				}
				return ""
			})
		}
	}
	permutations(5, func(p []int) {
		key := fmt.Sprint("order ", p)
		o := ok()
		o = []spreak.BundleOption{o[p[0]], o[p[1]], o[p[2]], o[p[3]], o[p[4]]}
		c.Case(func() string { return key }, func() string {
			b, err := spreak.NewBundle(o...)
			if err != nil {
				return err.Error()
			}
			l := spreak.NewLocalizer(b, "de")
			if l.DefaultDomain() != "a" {
				return "default domain " + q(l.DefaultDomain())
			}
			if d := diff("text", l.Get("m"), "m@de"); d != "" {
				return d
			}
			return diff("error", l.LocalizeError(errors.New("x")).Error(), "x@de")
		})
	})
	// names of languages as strings
	names := []struct{ s, tag string }{{"de", "de"}, {"de_AT", "de-AT"}, {"de-AT", "de-AT"}, {"de_AT.UTF-8", "de-AT"}, {"de_AT@euro", "de-AT"}, {"de_AT.UTF-8@euro:en", "de-AT"}, {"de:en", "de"}, {" de ", "de"}, {"DE_at", "de-AT"}, {"zh_Hant_TW", "zh-Hant-TW"}, {"sr_RS@latin", "sr-RS"}, {"en.UTF-8", "en"}, {"pt_BR:pt:en", "pt-BR"}, {"de\t", "de"},
		{".UTF-8", ""}, {"@euro", ""}, {":de", ""}, {"C", ""}, {"POSIX", ""}, {"d", ""}, {"deutschland_de_at_xyz", ""}, {"1", ""}, {"de de", ""}, {"xq", ""}}
	for _, x := range names {
		for _, req := range []bool{false, true} {
			c.Case(func() string { return fmt.Sprintf("language name %q %v", x.s, req) }, func() string {
				o := spreak.WithLanguage(x.s)
				if req {
					o = spreak.WithRequiredLanguage(x.s)
				}
				b, err := spreak.NewBundle(spreak.WithDomainLoader("", tagLoader{}), o)
				if x.tag == "" {
					if err == nil {
						return fmt.Sprint("accepted as ", b.SupportedLanguages())
					}
					return ""
				}
				if err != nil {
					return err.Error()
				}
				return diff("languages", fmt.Sprint(b.SupportedLanguages()), "["+x.tag+"]")
			})
		}
	}
}

func ix0(ix []int) int {
	s := 0
	for _, x := range ix {
		s += x
	}
	return s
}
