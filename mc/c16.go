package main

import (
	"fmt"
	"strings"

	"golang.org/x/text/language"

	"github.com/vorlif/spreak"
	"github.com/vorlif/spreak/catalog"
)

func init() {
	register(&Check{ID: "C16", Level: "exploration",
		Rule: "every ordered list of up to three loaded languages (with and without source and fallback language) x every request list up to the length bound over tags, strings, Accept-Language lists and unusable values. The oracle is x/text's matcher over the loaded languages in load order. Non-trivial: requests that match a loaded language or fall back because none does.",
		Run:  runC16})
}

type tagLoader struct{}

// every language has one catalog whose text names it.
type tagCat struct{ t language.Tag }

func (t tagCat) Lookup(_, id string) (string, error) { return id + "@" + t.t.String(), nil }
func (t tagCat) LookupPlural(_, id string, _ any) (string, error) {
	return id + "@" + t.t.String(), nil
}
func (t tagCat) Language() language.Tag { return t.t }

func (tagLoader) Load(lang language.Tag, domain string) (catalog.Catalog, error) {
	return tagCat{lang}, nil
}

// c16Tags is what a request stands for.
func c16Tags(req []any) []language.Tag {
	var tags []language.Tag
	for _, r := range req {
		switch v := r.(type) {
		case language.Tag:
			tags = append(tags, v)
		case string:
			if t, _, err := language.ParseAcceptLanguage(v); err == nil {
				tags = append(tags, t...)
			}
		}
	}
	return tags
}

type c16bundle struct {
	name     string
	source   language.Tag
	fallback language.Tag
	loaded   []language.Tag // in load order, the source language included
	b        *spreak.Bundle
	m        language.Matcher
}

func runC16(c *C) {
	langs := []string{"de", "de-AT", "en", "en-GB", "zh-Hant", "zh", "pt-BR", "sr-Latn", "nb", "fr-CA"}
	var sets [][]string
	sets = append(sets, nil)
	for i, a := range langs {
		sets = append(sets, []string{a})
		for j, b := range langs {
			if i == j {
				continue
			}
			sets = append(sets, []string{a, b})
			for k, d := range langs {
				if k != i && k != j && (c.Thorough() || (i+2*j+3*k)%5 == 0) {
					sets = append(sets, []string{a, b, d})
				}
			}
		}
	}
	reqAlpha := []any{
		language.German, language.MustParse("de-CH"), language.MustParse("de-AT"), language.English, language.MustParse("en-AU"), language.MustParse("en-US"), language.TraditionalChinese, language.MustParse("zh-TW"), language.MustParse("zh-HK"), language.Chinese, language.MustParse("sr"), language.MustParse("no"), language.MustParse("da"), language.MustParse("gsw"), language.Portuguese, language.MustParse("pt-PT"), language.Und, language.Tag{}, language.MustParse("ja"), language.MustParse("de-u-co-phonebk"), language.MustParse("fr"),
		"de", "de-AT, en;q=0.5", "fr;q=0.9, de;q=0.3", "en;q=0", "*", "", "invalid!!", "de_DE.UTF-8", "x", "en-GB;q=0.2,pt;q=0.8", "ja,ko;q=0.9", "zh_TW", "de;q=abc", "es, *;q=0.1", " en ", "i-klingon", "de-AT;q=0.1,de;q=0.2",
		nil, 5, []string{"de"}, &[]language.Tag{language.German}[0], struct{}{}, []language.Tag{language.German},
	}
	var bundles []*c16bundle
	for si, set := range sets {
		for v := 0; v < 4; v++ {
			cb := &c16bundle{source: language.Und}
			var opts []spreak.BundleOption
			var any_ []any
			for k, s := range set {
				t := language.MustParse(s)
				if k%2 == 0 {
					any_ = append(any_, t)
				} else {
					any_ = append(any_, s)
				}
				cb.loaded = append(cb.loaded, t)
			}
			opts = append(opts, spreak.WithDomainLoader("", tagLoader{}), spreak.WithLanguage(any_...))
			switch v {
			case 1: // source language loaded first
				src := language.MustParse("en")
				cb.source = src
				opts = append([]spreak.BundleOption{spreak.WithSourceLanguage(src)}, opts...)
				cb.loaded = append([]language.Tag{src}, cb.loaded...)
			case 2: // fallback language, loaded last unless it is there already
				cb.fallback = language.MustParse("de")
				opts = append(opts, spreak.WithFallbackLanguage("de"))
				cb.loaded = append(cb.loaded, cb.fallback)
			case 3: // both
				cb.source = language.MustParse("nb")
				cb.fallback = language.MustParse("zh")
				opts = append(opts, spreak.WithSourceLanguage(cb.source), spreak.WithFallbackLanguage(cb.fallback))
				cb.loaded = append(cb.loaded, cb.source, cb.fallback)
			}
			var dedup []language.Tag
			for _, t := range cb.loaded {
				dup := false
				for _, d := range dedup {
					dup = dup || d == t
				}
				if !dup {
					dedup = append(dedup, t)
				}
			}
			cb.loaded = dedup
			cb.name = fmt.Sprintf("%v source=%v fallback=%v", cb.loaded, cb.source, cb.fallback)
			b, err := spreak.NewBundle(opts...)
			if err != nil {
				c.Case(func() string { return "build " + cb.name }, func() string { return err.Error() })
				continue
			}
			cb.b = b
			cb.m = language.NewMatcher(cb.loaded)
			bundles = append(bundles, cb)
			_ = si
		}
	}
	c.Note("bundles", len(bundles))
	check := func(cb *c16bundle, req []any) string {
		tags := c16Tags(req)
		_, idx, conf := cb.m.Match(tags...)
		want, found := cb.source, false
		if cb.fallback != language.Und {
			want = cb.fallback
		}
		if conf > language.No {
			want, found = cb.loaded[idx], true
		}
		l := spreak.NewLocalizer(cb.b, req...)
		if l.Language() != want || l.HasLocale() != found {
			return fmt.Sprintf("language %v found %v, want %v %v", l.Language(), l.HasLocale(), want, found)
		}
		text := "m@" + want.String()
		if want == cb.source {
			text = "m"
		}
		if d := diff("text", l.Get("m"), text); d != "" {
			return d
		}
		if d := diff("plural text", l.NGet("m", "m", 3), text); d != "" {
			return d
		}
		k := spreak.NewKeyLocalizerForDomain(cb.b, "", req...)
		if k.Language() != want || k.HasLocale() != found || k.Get("m") != text {
			return fmt.Sprintf("KeyLocalizer: language %v found %v text %q", k.Language(), k.HasLocale(), k.Get("m"))
		}
		return ""
	}
	n := len(reqAlpha)
	c.Par(len(bundles), func(w, i int) {
		cb := bundles[i]
		one := func(req ...any) {
			c.caseW(w, func() string { return fmt.Sprintf("%s request %s", cb.name, reqName(req)) }, func() string { return check(cb, req) })
		}
		one()
		for a := 0; a < n; a++ {
			if t, ok := reqAlpha[a].(language.Tag); ok {
				c.caseW(w, func() string { return cb.name + " supported " + t.String() }, func() string {
					_, _, conf := cb.m.Match(t)
					if got := cb.b.IsLanguageSupported(t); got != (conf > language.No) {
						return fmt.Sprint("IsLanguageSupported is ", got)
					}
					return ""
				})
			}
			one(reqAlpha[a])
			for b := 0; b < n; b++ {
				if c.Expired() {
					return
				}
				one(reqAlpha[a], reqAlpha[b])
				c.Distinct(fmt.Sprint(i, a, b))
				if c.Thorough() && len(cb.loaded) <= 3 && i%3 == 0 {
					for d := 0; d < n; d += 1 + (a+b)%2 {
						one(reqAlpha[a], reqAlpha[b], reqAlpha[d])
					}
				}
			}
		}
	})
	if c.Quick() { // triples for a few bundles
		c.Par(n*n*n, func(w, i int) {
			t := tuple(i, []int{n, n, n})
			for k := 5; k < len(bundles); k += len(bundles) / 6 {
				cb := bundles[k]
				req := []any{reqAlpha[t[0]], reqAlpha[t[1]], reqAlpha[t[2]]}
				c.caseW(w, func() string { return fmt.Sprintf("%s request %s", cb.name, reqName(req)) }, func() string { return check(cb, req) })
			}
		})
	}
	// long request lists: the position of the one usable value does not matter
	for _, junk := range []any{nil, "invalid!!", 5, "ja", language.Japanese} {
		for _, n := range []int{1, 3, 4, 8, 20, 100} {
			for _, at := range []int{0, n / 2, n} {
				var req []any
				for k := 0; k < n; k++ {
					req = append(req, junk)
				}
				req = append(req[:at], append([]any{language.MustParse("pt-BR")}, req[at:]...)...)
				for _, k := range []int{len(bundles) / 3, len(bundles) / 2, len(bundles) - 7} {
					c.Case(func() string { return fmt.Sprintf("%s %d x %v at %d", bundles[k].name, n, junk, at) }, func() string { return check(bundles[k], req) })
				}
			}
		}
	}
	// the bundle's own matcher decides
	for pick := 0; pick < 3; pick++ {
		for _, conf := range []language.Confidence{language.No, language.Low, language.High, language.Exact} {
			for _, req := range [][]any{{"de"}, {language.French, "en"}, {}, {"xx!!", 3}, {"fr, de;q=0.1", language.English}} {
				c.Case(func() string { return fmt.Sprintf("own matcher %d %v %v", pick, conf, req) }, func() string {
					fm := &fixedMatcher{idx: pick, conf: conf}
					b, err := spreak.NewBundle(spreak.WithDomainLoader("", tagLoader{}), spreak.WithLanguageMatcherBuilder(func(t []language.Tag, _ ...language.MatchOption) language.Matcher {
						fm.built = t
						return fm
					}), spreak.WithLanguage("de", "fr", "it"))
					if err != nil {
						return err.Error()
					}
					all := []language.Tag{language.German, language.French, language.Italian}
					if fmt.Sprint(fm.built) != fmt.Sprint(all) {
						return fmt.Sprint("matcher built for ", fm.built)
					}
					l := spreak.NewLocalizer(b, req...)
					if fmt.Sprint(fm.asked) != fmt.Sprint(c16Tags(req)) {
						return fmt.Sprintf("matcher asked for %v, want %v", fm.asked, c16Tags(req))
					}
					if conf == language.No {
						if l.HasLocale() || l.Language() != language.Und {
							return "a locale although the matcher has none"
						}
						return ""
					}
					if !l.HasLocale() || l.Language() != all[pick] {
						return fmt.Sprint("language ", l.Language())
					}
					return diff("text", l.Get("m"), "m@"+all[pick].String())
				})
			}
		}
	}
}

type fixedMatcher struct {
	idx   int
	conf  language.Confidence
	built []language.Tag
	asked []language.Tag
}

func (f *fixedMatcher) Match(t ...language.Tag) (language.Tag, int, language.Confidence) {
	f.asked = t
	return language.MustParse("qaa"), f.idx, f.conf
}

func reqName(req []any) string {
	var p []string
	for _, r := range req {
		switch v := r.(type) {
		case *language.Tag:
			p = append(p, "*"+v.String())
		default:
			p = append(p, fmt.Sprintf("%T(%v)", r, r))
		}
	}
	return strings.Join(p, " | ")
}
