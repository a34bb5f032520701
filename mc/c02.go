package main

import (
	"bytes"
	"encoding/json"
	"errors"
	"fmt"
	"io/fs"
	"maps"
	"os"
	"os/exec"
	"runtime"
	"slices"
	"sort"
	"strconv"
	"strings"
	"time"

	"golang.org/x/text/language"

	"github.com/vorlif/spreak"
	"github.com/vorlif/spreak/catalog"
	"github.com/vorlif/spreak/catalog/cldrplural"
	"github.com/vorlif/spreak/catalog/po"
	"github.com/vorlif/spreak/catalog/poplural"
	"github.com/vorlif/spreak/humanize"
	"github.com/vorlif/spreak/humanize/locale/ar"
	"github.com/vorlif/spreak/humanize/locale/de"
	"github.com/vorlif/spreak/localize"
)

func init() {
	register(&Check{ID: "C02", Level: "model_checking",
		Rule: "for every pair of calls of a world (a bundle with its localizers, catalogs, plural rules, humanizers, constructors), on a fresh one and on one that has already been used, every schedule of two goroutines with up to the stated number of preemptions, at any statement of the repository's code, in both orders; for selected calls also of three goroutines. The race detector watches every schedule (the scheduler's hand-offs are invisible to it) and each result is compared with what the same calls return one after the other. The first schedule of every process meets untouched package variables. A state is a schedule executed, a transition one statement at which the scheduler had the choice.",
		Run:  runC02})
}

type world02 struct {
	name string
	mk   func() any
	ops  []op03
	core []int // operations that also run in threes
	warm bool  // the world may be used for more than one schedule
}

func (w *world02) add(name string, core bool, f func(s any) string) {
	if core {
		w.core = append(w.core, len(w.ops))
	}
	w.ops = append(w.ops, op03{name, f})
}

func worlds02() []*world02 {
	return []*world02{lookups02(), catalogs02(), plurals02(), humanize02(), construct02()}
}

type lookup02 struct {
	b    *spreak.Bundle
	loc  map[string]*spreak.Localizer
	key  *spreak.KeyLocalizer
	msg  *localize.Message
	vars []any
	lang []any
	err  error
}

func po02(lang, rule string, forms int) string {
	var b strings.Builder
	fmt.Fprintf(&b, "msgid \"\"\nmsgstr \"Language: %s\\nPlural-Forms: %s\\n\"\n\nmsgid \"abc\"\nmsgstr \"%[1]s abc\"\n\nmsgctxt \"a\"\nmsgid \"bc\"\nmsgstr \"%[1]s a bc\"\n\nmsgctxt \"errors\"\nmsgid \"broken\"\nmsgstr \"%[1]s broken\"\n\nmsgid \"%%d day\"\nmsgid_plural \"%%d days\"\n", lang, rule)
	for i := range forms {
		fmt.Fprintf(&b, "msgstr[%d] \"%s%d %%d\"\n", i, lang, i)
	}
	return b.String()
}

const json02 = `{"abc":"pl abc","bc_a":{"context":"a","other":"pl a bc"},"%d day":{"one":"pl one %d","few":"pl few %d","many":"pl many %d","other":"pl other %d"}}`

func fs02() memFS {
	return memFS{map[string]string{
		"de/d1.po": po02("de", rule03de, 2), "ru/d1.po": po02("ru", rule03ru, 3), "ru/d2.po": po02("ru2", rule03ru, 3),
		"de/d2.po":   po02("de2", rule03de, 2),
		"pl/d1.json": json02,
	}}
}

func lookups02() *world02 {
	w := &world02{name: "lookups", warm: true}
	w.mk = func() any {
		s := &lookup02{loc: map[string]*spreak.Localizer{}}
		f := fs02()
		b, err := spreak.NewBundle(
			spreak.WithSourceLanguage(language.English), spreak.WithFallbackLanguage("de"), spreak.WithDefaultDomain("d1"),
			spreak.WithDomainFs("d1", f), spreak.WithDomainFs("d2", f), spreak.WithLanguage("ru", "pl"),
			spreak.WithMissingTranslationCallback(func(err error) { _ = err.Error() }),
		)
		if err != nil {
			panic(err)
		}
		s.b = b
		for _, l := range []string{"de", "ru", "pl", "en", "sw"} {
			s.loc[l] = spreak.NewLocalizer(b, l)
		}
		s.key = spreak.NewKeyLocalizer(b, "pl")
		s.msg = &localize.Message{Singular: "%d day", Plural: "%d days", Vars: append(make([]any, 0, 4), 3), Count: 3}
		s.vars = append(make([]any, 0, 4), 7)
		s.lang = append(make([]any, 0, 8), "ja", "ru;q=0.3, pl", language.German)
		s.err = errors.New("broken")
		return s
	}
	add := func(name string, core bool, f func(s *lookup02) string) {
		w.add(name, core, func(x any) string { return f(x.(*lookup02)) })
	}
	for _, l := range []string{"de", "ru", "pl", "en"} {
		add(l+" Get abc", l == "ru", func(s *lookup02) string { return s.loc[l].Get("abc") })
		add(l+" NGetf", l == "ru" || l == "pl", func(s *lookup02) string { return s.loc[l].NGetf("%d day", "%d days", 22, s.vars...) })
	}
	for _, l := range []string{"ru", "pl"} {
		add(l+" PGet", false, func(s *lookup02) string { return s.loc[l].PGet("a", "bc") })
		add(l+" Get missing", l == "ru", func(s *lookup02) string { return s.loc[l].Get("missing") })
		add(l+" error", false, func(s *lookup02) string { return s.loc[l].LocalizeError(s.err).Error() })
		add(l+" Localize", l == "ru", func(s *lookup02) string {
			t, err := s.loc[l].LocalizeWithError(s.msg)
			return t + errText(err) + fmt.Sprint(*s.msg)
		})
		add(l+" Domains", false, func(s *lookup02) string { return take(s.loc[l].Domains(), "?") })
	}
	add("ru DNGet", false, func(s *lookup02) string { return s.loc["ru"].DNGet("d2", "%d day", "%d days", 5) })
	add("ru DGet none", false, func(s *lookup02) string { return s.loc["ru"].DGet("none", "abc") })
	add("ru Getf", true, func(s *lookup02) string { return s.loc["ru"].Getf("%d abc", s.vars...) + fmt.Sprint(s.vars[:4]) })
	add("ru facts", false, func(s *lookup02) string {
		l := s.loc["ru"]
		return fmt.Sprint(l.HasLocale(), l.Language(), l.DefaultDomain(), l.HasDomain("d1"), l.HasDomain("?"))
	})
	add("sw Get", false, func(s *lookup02) string {
		return s.loc["sw"].Get("abc") + s.loc["sw"].NGet("%d day", "%d days", 1)
	})
	add("key NGetf", false, func(s *lookup02) string { return s.key.NGetf("%d day", 5, 5) })
	add("Bundle.Domains", false, func(s *lookup02) string { return take(s.b.Domains(), "?") })
	add("Bundle.SupportedLanguages", false, func(s *lookup02) string {
		return take(s.b.SupportedLanguages(), language.MustParse("sw"))
	})
	add("IsLanguageSupported", false, func(s *lookup02) string {
		return fmt.Sprint(s.b.IsLanguageSupported(language.German), s.b.IsLanguageSupported(language.Japanese), s.b.CanLocalize())
	})
	add("session of known language", true, func(s *lookup02) string {
		l := spreak.NewLocalizer(s.b, s.lang...)
		return fmt.Sprint(l.Language(), l.Get("abc"), l.NGetf("%d day", "%d days", 1, 1), s.lang[:8])
	})
	add("session of unknown language", true, func(s *lookup02) string {
		l := spreak.NewLocalizer(s.b, "sw")
		return fmt.Sprint(l.Language(), l.HasLocale(), l.Getf("%d", 1234), l.NGetf("%d day", "%d days", 1, 1))
	})
	add("session of a domain", false, func(s *lookup02) string {
		l := spreak.NewKeyLocalizerForDomain(s.b, "d2", "ru-RU")
		return fmt.Sprint(l.Language(), l.Get("abc"), l.NGetf("%d day", 1, 1))
	})
	return w
}

func catalogs02() *world02 {
	w := &world02{name: "catalogs", warm: true}
	w.mk = func() any {
		s := &catState{}
		var err error
		if s.po, err = catalog.NewPoCLDRDecoder().Decode(language.Russian, "d", []byte(po02("ru", rule03ru, 3))); err != nil {
			panic(err)
		}
		if s.mo, err = catalog.NewMoDecoder().Decode(language.Russian, "e", moBytes([]moMsg{{"", "Plural-Forms: " + rule03ru + "\n"}, {"abc", "x"}, {"a\x04bc", "y"}, {"%d day\x00%d days", "0\x001\x002"}}, moLayout{})); err != nil {
			panic(err)
		}
		if s.js, err = catalog.NewJSONDecoder().Decode(language.Polish, "f", []byte(json02)); err != nil {
			panic(err)
		}
		return s
	}
	for _, k := range []string{"po", "mo", "json"} {
		add := func(name string, core bool, f func(c catalog.Catalog) string) {
			w.add(k+" "+name, core, func(x any) string {
				switch s := x.(*catState); k {
				case "po":
					return f(s.po)
				case "mo":
					return f(s.mo)
				default:
					return f(s.js)
				}
			})
		}
		res := func(t string, err error) string { return t + "/" + errText(err) }
		add("Lookup", k == "json", func(c catalog.Catalog) string { return res(c.Lookup("a", "bc")) })
		add("Lookup none", k == "mo", func(c catalog.Catalog) string { return res(c.Lookup("b", "bc")) })
		add("LookupPlural 22", true, func(c catalog.Catalog) string { return res(c.LookupPlural("", "%d day", 22)) })
		add("LookupPlural text", false, func(c catalog.Catalog) string { return res(c.LookupPlural("", "%d day", "5")) })
		add("LookupPlural bad", false, func(c catalog.Catalog) string { return res(c.LookupPlural("", "%d day", "x")) })
		add("facts", false, func(c catalog.Catalog) string { return c.Language().String() })
		add("Messages, spoiled", k != "mo", func(c catalog.Catalog) string {
			switch c := c.(type) {
			case *catalog.GettextCatalog:
				m := c.Messages()
				r := dump03(m) + c.Domain()
				for ctx := range m {
					for _, id := range slices.Collect(maps.Keys(m[ctx])) {
						tr := m[ctx][id].Translations()
						tr[0], tr[7] = "?", "?"
						delete(m[ctx], id)
					}
					m["?"+ctx] = nil
				}
				return r
			case catalog.JSONCatalog:
				m := c.Messages()
				r := dumpJSON03(m) + c.Domain()
				for id, msg := range m {
					msg.Translations[cldrplural.Other] = "?"
					msg.Context = "?"
					delete(m, id)
				}
				return r
			}
			return "?"
		})
		if k == "json" {
			add("Marshal", false, func(c catalog.Catalog) string {
				b, err := json.Marshal(c)
				return string(b) + errText(err)
			})
		}
	}
	return w
}

func plurals02() *world02 {
	w := &world02{name: "plural rules", warm: true}
	texts := map[cldrplural.Category]string{cldrplural.One: "i = 1 and v = 0", cldrplural.Few: "n % 10 = 2..4 @integer 2~4"}
	type state struct {
		rule map[string]*poplural.Rule
		set  map[string]*cldrplural.RuleSet
		fn   poplural.PluralFunc
		in   map[cldrplural.Category]string
	}
	const odd = "nplurals=3; plural=(n%7==1 ? 0 : n>2 && n<9 || n==50 ? 1 : 2);"
	w.mk = func() any {
		s := &state{map[string]*poplural.Rule{rule03ru: poplural.MustParse(rule03ru), odd: poplural.MustParse(odd)}, map[string]*cldrplural.RuleSet{}, nil, texts}
		s.set["ru"], _ = cldrplural.ForLanguage(language.Russian)
		s.set["text"] = cldrplural.MustParseRules(texts)
		s.fn, _ = poplural.ForLanguage(language.Polish)
		return s
	}
	one := 1
	for _, n := range []any{1, "1.50", &one, "x"} {
		name := fmt.Sprintf(" %T", n)
		for _, h := range []string{rule03ru, odd} {
			w.add("rule "+h+name, n == 1, func(x any) string { return fmt.Sprint(x.(*state).rule[h].Evaluate(n)) })
		}
		for _, l := range []string{"ru", "text"} {
			w.add("set "+l+name, n == "1.50", func(x any) string { return fmt.Sprint(x.(*state).set[l].Evaluate(n)) })
		}
		w.add("func"+name, false, func(x any) string { return fmt.Sprint(x.(*state).fn(n)) })
		w.add("operands"+name, false, func(any) string {
			o, err := cldrplural.NewOperands(n)
			if o == nil {
				return errText(err)
			}
			return fmt.Sprintf("%+v", *o)
		})
	}
	for _, h := range []string{rule03ru, odd, "nplurals=2; plural=n!=1;", "nplurals=2; plural=n<"} {
		w.add("parse "+h, h == odd, func(any) string {
			r, err := poplural.Parse(h)
			if err != nil {
				return errText(err)
			}
			return fmt.Sprint(r.NPlurals, r.FormFunc(1), r.FormFunc(3), r.FormFunc(12))
		})
	}
	for _, l := range []string{"ru", "lt", "en-GB", "xx"} {
		w.add("ForLanguage "+l, l == "lt", func(any) string {
			s, ok := cldrplural.ForLanguage(language.Make(l))
			f, ok2 := poplural.ForLanguage(language.Make(l))
			a, err := s.Evaluate(21)
			b, err2 := f(21)
			r := fmt.Sprint(ok, ok2, s.Categories, int(a), err, b, err2)
			return r
		})
	}
	w.add("ParseRules", true, func(x any) string {
		s, err := cldrplural.ParseRules(x.(*state).in)
		if err != nil {
			return errText(err)
		}
		a, err := s.Evaluate(23)
		return fmt.Sprint(s.Categories, int(a), err)
	})
	return w
}

type hum02 struct {
	c           *humanize.Collection
	h           map[string]*humanize.Humanizer
	short, deep []humanize.TimeOption
}

// small02 is a locale with some of its texts only.
func small02(d *humanize.LocaleData) *humanize.LocaleData {
	b, err := fs.ReadFile(d.Fs, "django.po")
	if err != nil {
		panic(err)
	}
	parts := strings.Split(string(b), "\n\n")
	keep := parts[:1:1]
	for i, p := range parts[1:] {
		if i%10 == 0 || strings.Contains(p, "million\"") || strings.Contains(p, "day") || strings.Contains(p, "three") {
			keep = append(keep, p)
		}
	}
	return &humanize.LocaleData{Lang: d.Lang, Format: d.Format, Fs: memFS{map[string]string{"django.po": strings.Join(keep, "\n\n")}}}
}

func humanize02() *world02 {
	w := &world02{name: "humanize", warm: true}
	w.mk = func() any {
		s := &hum02{h: map[string]*humanize.Humanizer{}}
		s.c = humanize.MustNew(humanize.WithLocale(small02(de.New()), small02(ar.New())))
		for _, l := range []string{"de", "ar"} {
			s.h[l] = s.c.CreateHumanizer(l)
		}
		s.short = append(make([]humanize.TimeOption, 0, 8), humanize.WithDepth(1))
		s.deep = append(make([]humanize.TimeOption, 0, 8), humanize.WithDepth(4), humanize.WithoutAdjacentCheck())
		return s
	}
	now := time.Now()
	day := time.Date(2003, 2, 4, 16, 5, 6, 7, time.UTC)
	past, future := now.Add(-1000*time.Hour), now.Add(3000*time.Hour)
	for _, l := range []string{"de", "ar"} {
		add := func(name string, core bool, f func(s *hum02, h *humanize.Humanizer) string) {
			w.add(l+" "+name, core, func(x any) string { s := x.(*hum02); return f(s, s.h[l]) })
		}
		add("Apnumber", l == "de", func(_ *hum02, h *humanize.Humanizer) string { return h.Apnumber(3) })
		add("Ordinal", false, func(_ *hum02, h *humanize.Humanizer) string { return h.Ordinal(22) })
		add("Intcomma", false, func(_ *hum02, h *humanize.Humanizer) string { return h.Intcomma(1234567) })
		add("Intword", false, func(_ *hum02, h *humanize.Humanizer) string { return h.Intword(1200000) })
		add("FilesizeFormat", false, func(_ *hum02, h *humanize.Humanizer) string { return h.FilesizeFormat(1500) })
		add("NaturalTime", l == "ar", func(_ *hum02, h *humanize.Humanizer) string { return h.NaturalTime(now.Add(-49 * time.Hour)) })
		add("NaturalDay", false, func(_ *hum02, h *humanize.Humanizer) string { return h.NaturalDay(now.AddDate(0, 0, 1)) })
		add("FormatTime", l == "de", func(_ *hum02, h *humanize.Humanizer) string { return h.FormatTime(day, "l D F M b E jS") })
		add("FormatTime named", l == "ar", func(_ *hum02, h *humanize.Humanizer) string { return h.FormatTime(day, "DATE_FORMAT") })
		add("LanguageName", false, func(_ *hum02, h *humanize.Humanizer) string { return h.LanguageName("German") })
		add("TimeSince", false, func(s *hum02, h *humanize.Humanizer) string { return h3(h.TimeSince(past, s.short...), s.short) })
		add("TimeUntil", l == "de", func(s *hum02, h *humanize.Humanizer) string { return h3(h.TimeUntil(future, s.deep...), s.deep) })
		add("TimeSinceFrom", false, func(s *hum02, h *humanize.Humanizer) string { return h3(h.TimeSinceFrom(past, now, s.deep...), s.deep) })
		add("TimeUntilFrom", l == "de", func(s *hum02, h *humanize.Humanizer) string {
			return h3(h.TimeUntilFrom(future, now, s.deep...), s.deep)
		})
	}
	w.add("CreateHumanizer", true, func(x any) string {
		h := x.(*hum02).c.CreateHumanizer("ja", "ar-EG")
		return h.Language().String() + h.Ordinal(3) + h.FormatTime(day, "SHORT_DATE_FORMAT")
	})
	w.add("CreateHumanizer unknown", false, func(x any) string {
		h := x.(*hum02).c.CreateHumanizer("ja")
		return h.Language().String() + h.Apnumber(3)
	})
	return w
}

func construct02() *world02 {
	w := &world02{name: "construction", warm: true}
	type state struct {
		opts       []spreak.BundleOption
		lang       []any
		de, ar     *humanize.LocaleData
		list       []*humanize.LocaleData
		f          memFS
		loader     spreak.Loader
		poD, jsonD catalog.Decoder
	}
	w.mk = func() any {
		s := &state{f: fs02(), de: de.New(), ar: &humanize.LocaleData{Lang: language.Arabic, Fs: ar.New().Fs}}
		s.loader, _ = spreak.NewFilesystemLoader(spreak.WithFs(s.f))
		s.opts = append(make([]spreak.BundleOption, 0, 8), spreak.WithSourceLanguage(language.English), spreak.WithDefaultDomain("d1"), spreak.WithDomainFs("d1", s.f))
		s.lang = append(make([]any, 0, 8), "ru", language.Polish)
		s.list = append(make([]*humanize.LocaleData, 0, 8), s.de, s.ar)
		s.poD, s.jsonD = catalog.NewPoDecoder(), catalog.NewJSONDecoder()
		return s
	}
	add := func(name string, f func(s *state) string) {
		w.add(name, false, func(x any) string { return f(x.(*state)) })
	}
	show := func(b *spreak.Bundle, err error) string {
		if err != nil {
			return errText(err)
		}
		l := spreak.NewLocalizer(b, "ru", "pl")
		return fmt.Sprint(b.Domains(), b.SupportedLanguages(), l.Language(), l.Get("abc"), l.NGetf("%d day", "%d days", 22, 22))
	}
	add("NewBundle", func(s *state) string {
		return show(spreak.NewBundle(append(clipOpts(s.opts), spreak.WithLanguage(s.lang...))...))
	})
	add("NewBundle with a loader", func(s *state) string {
		return show(spreak.NewBundle(spreak.WithDefaultDomain("d1"), spreak.WithDomainLoader("d1", s.loader), spreak.WithLanguage(s.lang...)))
	})
	add("NewBundle without catalogs", func(s *state) string {
		return show(spreak.NewBundle(spreak.WithLanguage(s.lang...)))
	})
	add("humanize.New", func(s *state) string {
		c, err := humanize.New(humanize.WithLocale(s.list...))
		if err != nil {
			return errText(err)
		}
		r := ""
		for _, l := range []string{"de", "ar"} {
			h := c.CreateHumanizer(l)
			r += h.Ordinal(3) + h.FormatTime(time.Date(2003, 2, 4, 16, 5, 6, 7, time.UTC), "DATE_FORMAT")
		}
		return r
	})
	add("humanize.New without locales", func(s *state) string {
		c, err := humanize.New()
		if err != nil {
			return errText(err)
		}
		h := c.CreateHumanizer("de")
		return h.Ordinal(3) + h.FormatTime(time.Date(2003, 2, 4, 16, 5, 6, 7, time.UTC), "DATE_FORMAT")
	})
	add("po.Parse", func(*state) string { return poDump(po.ParseString(poTexts03[1])) })
	add("po.Marshal", func(*state) string {
		f := po.NewFile()
		m := po.NewMessage()
		m.ID, m.Str[0] = "a", "b"
		f.AddMessage(m)
		b, err := po.Marshal(f)
		return string(b) + errText(err)
	})
	add("decode PO", func(s *state) string {
		c, err := s.poD.Decode(language.Russian, "d", []byte(s.f.files["ru/d1.po"]))
		if err != nil {
			return errText(err)
		}
		return dump03(c.(*catalog.GettextCatalog).Messages())
	})
	add("decode JSON", func(s *state) string {
		c, err := s.jsonD.Decode(language.Polish, "d", []byte(json02))
		if err != nil {
			return errText(err)
		}
		b, err := json.Marshal(c)
		return string(b) + errText(err)
	})
	add("decode MO", func(*state) string {
		c, err := catalog.NewMoDecoder().Decode(language.Russian, "d", moBytes([]moMsg{{"", "Plural-Forms: " + rule03ru + "\n"}, {"abc", "x"}}, moLayout{}))
		if err != nil {
			return errText(err)
		}
		return dump03(c.(*catalog.GettextCatalog).Messages())
	})
	add("Load", func(s *state) string {
		c, err := s.loader.Load(language.Russian, "d1")
		if err != nil {
			return errText(err)
		}
		t, err := c.Lookup("", "abc")
		return t + errText(err)
	})
	add("ExpandLanguage", func(*state) string {
		return take(spreak.ExpandLanguage(language.MustParse("zh-Hant-TW")), "?")
	})
	return w
}

// ---- exploration of one process

type fail02 struct{ Key, What string }

type result02 struct {
	Schedules, Points, Deep, Cut int
	Fails                        []fail02
}

// sched02 is one schedule: which calls, in which order of precedence, and where the running one is preempted.
type sched02 struct {
	ops, prec, at, to []int
	used              bool
}

func (s sched02) key(w *world02) string {
	var names []string
	for _, o := range s.ops {
		names = append(names, w.ops[o].name)
	}
	k := fmt.Sprintf("%s|%s|%v|%v|%v", w.name, strings.Join(names, " || "), s.prec, s.at, s.to)
	if s.used {
		k += "|used"
	}
	return k
}

const stepLimit02 = 5_000_000

// exec02 executes one schedule in the world x; it reports what went wrong and how many steps it had.
func exec02(w *world02, x any, s sched02, want func(op int) string) (string, int, bool) {
	res := make([]string, len(s.ops))
	fs := make([]func(), len(s.ops))
	for i, o := range s.ops {
		fs[i] = func() { res[i] = protect(func() string { return w.ops[o].f(x) }) }
	}
	races := raceErrors()
	n, dead, over := schedRun(fs, s.prec, s.at, s.to, stepLimit02)
	if dead {
		return "the calls wait for each other for ever", n, over
	}
	if raceErrors() > races {
		return "data race", n, over
	}
	for i, o := range s.ops {
		if d := diff(w.ops[o].name, res[i], want(o)); d != "" {
			return d, n, over
		}
	}
	return "", n, over
}

var orders02 = map[int][][]int{2: {{0, 1}, {1, 0}}, 3: {{0, 1, 2}, {0, 2, 1}, {1, 0, 2}, {1, 2, 0}, {2, 0, 1}, {2, 1, 0}}}

// run02 explores, in one process, the pairs of an operation with every later one.
func run02(args []string) {
	time.Local = time.UTC
	runtime.GOMAXPROCS(1)
	wi, _ := strconv.Atoi(args[0])
	a, _ := strconv.Atoi(args[1])
	limit, _ := strconv.Atoi(args[2])  // most statements of a pair executed with one preemption
	limit2, _ := strconv.Atoi(args[3]) // … with two
	only := ""
	if len(args) > 4 {
		only = args[4]
	}
	c := &C{chk: &Check{ID: "C02"}, notes: map[string]any{}, failKeys: map[string]bool{}, only: "-"}
	c.bubbles(1, func(_, _ int) {
		w := worlds02()[wi]
		var r result02
		refs := map[int]string{}
		want := func(o int) string {
			if _, ok := refs[o]; !ok {
				refs[o] = protect(func() string { return w.ops[o].f(w.mk()) })
			}
			return refs[o]
		}
		steps := map[int]int{}
		length := func(o int) int {
			if _, ok := steps[o]; !ok {
				_, n, _ := exec02(w, w.mk(), sched02{ops: []int{o}, prec: []int{0}}, want)
				steps[o] = n
			}
			return steps[o]
		}
		var usedWorld any
		try := func(s sched02) {
			if only != "" && s.key(w) != only || len(r.Fails) >= 3 {
				return
			}
			var x any
			if s.used {
				if usedWorld == nil {
					usedWorld = w.mk()
					for _, o := range w.ops {
						_ = protect(func() string { return o.f(usedWorld) })
					}
				}
				x = usedWorld
			} else {
				x = w.mk()
			}
			what, n, over := exec02(w, x, s, want)
			r.Schedules++
			r.Points += n
			if over {
				r.Cut++
			}
			if what != "" {
				r.Fails = append(r.Fails, fail02{s.key(w), what})
			}
		}
		explore := func(ops []int, used bool) {
			for _, p := range orders02[len(ops)] {
				try(sched02{ops, p, nil, nil, used})
			}
			total := 0
			for _, o := range ops {
				total += length(o)
			}
			for _, p := range orders02[len(ops)] {
				first := length(ops[p[0]])
				// the first call alone decides where it can be preempted before it ends; what follows is
				// covered by the other orders
				if first*total > limit {
					r.Deep++
					continue
				}
				for k := 0; k < first; k++ {
					for t := 1; t < len(ops); t++ {
						try(sched02{ops, p, []int{k}, []int{t}, used})
					}
				}
				second := length(ops[p[1]])
				if len(ops) != 2 || used || first*second*total > limit2 {
					continue
				}
				for k := 0; k < first; k++ {
					for m := 1; m < second; m++ {
						try(sched02{ops, p, []int{k, k + m}, []int{1, 1}, used})
					}
				}
			}
		}
		if a < len(w.ops) {
			explore([]int{a, a}, false) // its first schedule is the first thing that happens in this process
			for b := a + 1; b < len(w.ops); b++ {
				explore([]int{a, b}, false)
			}
			if w.warm {
				for b := a; b < len(w.ops); b++ {
					explore([]int{a, b}, true)
				}
			}
		} else { // three at a time
			a := a - len(w.ops)
			for i, b := range w.core[a:] {
				for _, d := range w.core[a+i:] {
					explore([]int{w.core[a], b, d}, false)
				}
			}
		}
		b, _ := json.Marshal(r)
		fmt.Printf("RES%s\n", b)
	})
	os.Exit(0)
}

// ask02 runs a process and returns its answer and what the race detector wrote.
func ask02(args ...string) (r result02, text string, ok bool) {
	exe, err := os.Executable()
	if err != nil {
		panic(err)
	}
	cmd := exec.Command(exe, append([]string{"c02run"}, args...)...)
	cmd.Env = append(os.Environ(), "GORACE=exitcode=0 history_size=3")
	var out, errs bytes.Buffer
	cmd.Stdout, cmd.Stderr = &out, &errs
	err = cmd.Run()
	at := bytes.Index(out.Bytes(), []byte("RES"))
	if at < 0 || json.Unmarshal(bytes.SplitN(out.Bytes()[at+3:], []byte("\n"), 2)[0], &r) != nil {
		e := errs.String()
		return r, fmt.Sprint(err, " ", e[:min(len(e), 1500)]), false
	}
	return r, raceText(errs.String()), true
}

// raceText shortens the first report of the race detector.
func raceText(s string) string {
	at := strings.Index(s, "WARNING: DATA RACE")
	if at < 0 {
		return ""
	}
	s = s[at:]
	if e := strings.Index(s, "=================="); e > 0 {
		s = s[:e]
	}
	var out []string
	for _, l := range strings.Split(s, "\n") {
		l = strings.TrimSpace(l)
		if strings.HasPrefix(l, "Read at") || strings.HasPrefix(l, "Write at") || strings.HasPrefix(l, "Previous") {
			out = append(out, strings.SplitN(l, " at 0x", 2)[0]+":")
		} else if strings.Contains(l, "()") && len(out) > 0 && !strings.Contains(l, "main.") && len(out) < 16 {
			out = append(out, l)
		} else if strings.HasPrefix(l, "Goroutine") {
			break
		}
	}
	return strings.Join(out, " ")
}

func runC02(c *C) {
	if !schedHook {
		fmt.Println("C02 needs the scheduler overlay (run.sh)")
		os.Exit(2)
	}
	var worlds []*world02
	c.bubbles(1, func(_, _ int) { worlds = worlds02() })
	limit, limit2 := strconv.Itoa(c.Pick(60_000, 6_000_000)), strconv.Itoa(c.Pick(0, 250_000))
	only := c.only
	c.only = ""
	type job struct{ w, a int }
	var jobs []job
	for wi, w := range worlds {
		n := len(w.ops)
		if c.Thorough() || only != "" {
			n += len(w.core)
		}
		for a := 0; a < n; a++ {
			jobs = append(jobs, job{wi, a})
		}
		c.Note("operations: "+w.name, len(w.ops))
	}
	c.Note("one preemption at every statement if statements executed by all schedules stay below", limit)
	c.Note("two preemptions if …", limit2)
	sort.SliceStable(jobs, func(i, j int) bool { return jobs[i].a < jobs[j].a })
	c.Par(len(jobs), func(_, i int) {
		j := jobs[i]
		w := worlds[j.w]
		args := []string{strconv.Itoa(j.w), strconv.Itoa(j.a), limit, limit2}
		if only != "" {
			if !strings.HasPrefix(only, w.name+"|") {
				return
			}
			args = append(args, only)
		}
		r, text, ok := ask02(args...)
		c.beat.Add(1)
		if !ok {
			c.Note(fmt.Sprint("no answer: ", w.name, j.a), text)
			c.capped.Store(true)
			return
		}
		c.evals.Add(int64(r.Schedules))
		c.trans.Add(int64(r.Points))
		c.AddNote("states", int64(r.Schedules))
		c.AddNote("orders of calls without preemption (too long)", int64(r.Deep))
		c.AddNote("schedules: "+w.name, int64(r.Schedules))
		if r.Cut > 0 {
			c.AddNote("schedules given up", int64(r.Cut))
			c.capped.Store(true)
		}
		if j.a < len(w.ops) {
			c.Sample(fmt.Sprintf("%s || every later call: %d schedules, %d scheduling points", w.ops[j.a].name, r.Schedules, r.Points))
		}
		for _, f := range r.Fails {
			// in fresh processes, this schedule only
			n, tries, what := 0, 5, ""
			for t := 0; t < tries; t++ {
				again, races, ok := ask02(args[0], args[1], limit, limit2, f.Key)
				if ok && len(again.Fails) > 0 {
					n++
					what = again.Fails[0].What
					if what == "data race" {
						what += ": " + races
						n = tries
						break
					}
				}
			}
			if n < tries {
				if text != "" && f.What == "data race" { // reported only in the longer history
					n, what = tries, "data race: "+text
				} else {
					c.Note("unconfirmed", f.Key+": "+f.What)
					continue
				}
			}
			c.fail(f.Key, what, nil)
		}
	})
}
