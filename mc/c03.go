package main

import (
	"bytes"
	"encoding/json"
	"errors"
	"fmt"
	"maps"
	"os"
	"os/exec"
	"slices"
	"sort"
	"strconv"
	"strings"
	"time"

	"golang.org/x/text/language"

	"github.com/vorlif/spreak"
	"github.com/vorlif/spreak/catalog"
	"github.com/vorlif/spreak/catalog/cldrplural"
	"github.com/vorlif/spreak/catalog/po"
	"github.com/vorlif/spreak/catalog/poplural"
	"github.com/vorlif/spreak/humanize"
	"github.com/vorlif/spreak/humanize/locale/ar"
	"github.com/vorlif/spreak/humanize/locale/de"
	"github.com/vorlif/spreak/humanize/locale/pl"
	"github.com/vorlif/spreak/humanize/locale/pt"
	"github.com/vorlif/spreak/humanize/locale/ptBR"
	"github.com/vorlif/spreak/humanize/locale/sr"
	"github.com/vorlif/spreak/humanize/locale/srLatn"
	"github.com/vorlif/spreak/humanize/locale/zhHans"
	"github.com/vorlif/spreak/humanize/locale/zhHant"
	"github.com/vorlif/spreak/localize"
)

func init() {
	register(&Check{ID: "C03", Level: "model_checking",
		Rule: "every history of calls of the stated depth (followed by a sweep over all calls) over the operations of a world (a bundle with its localizers and catalogs, plural rules, decoders and loaders, PO parser and encoder, humanizers), including changing what a call returned or was given. Each call's result is compared with what the same call returns as the first and only one in a process of its own. A state is the history of calls performed, a transition one call.",
		Run:  runC03})
}

// an operation of a world; its result is everything the call shows
type op03 struct {
	name string
	f    func(s any) string
}

type world03 struct {
	name   string
	mk     func() any
	ops    []op03
	qd, td int // depth in the quick and the thorough tier
	// many different calls in a row, with the number of the call
	floods []struct {
		name string
		f    func(s any, k int)
	}
}

func (w *world03) flood(name string, f func(s any, k int)) {
	w.floods = append(w.floods, struct {
		name string
		f    func(s any, k int)
	}{name, f})
}

func worlds03() []*world03 {
	return []*world03{lookups03(), variants03(), catalogs03(), plurals03(), loading03(), po03(), humanize03(), humanizeVariants03(), humanizeShared03()}
}

// ---- lookups through a bundle

type lookupState struct {
	b   *spreak.Bundle
	loc map[string]*spreak.Localizer
	key map[string]*spreak.KeyLocalizer
	log []string
}

func po03file(lang, domain, rule string, forms int, skip string) string {
	var b strings.Builder
	fmt.Fprintf(&b, "msgid \"\"\nmsgstr \"Language: %s\\nPlural-Forms: %s\\n\"\n\n", lang, rule)
	tr := func(parts ...string) string {
		return strings.Join(append([]string{lang, domain}, parts...), "|")
	}
	for _, m := range [][2]string{{"", "abc"}, {"a", "bc"}, {"ab", "c"}, {"", "ab"}, {"", "a.b"}, {"a", "b"}, {"b", "a"}, {"errors", "broken"}, {"", "broken"}, {"", "ab_a"}} {
		if m[1] == skip {
			continue
		}
		if m[0] != "" {
			fmt.Fprintf(&b, "msgctxt %q\n", m[0])
		}
		fmt.Fprintf(&b, "msgid %q\nmsgstr %q\n\n", m[1], tr(m[0], m[1]))
	}
	for _, m := range [][2]string{{"", "%d day"}, {"a", "%d day"}, {"", "day"}} {
		if m[0] != "" {
			fmt.Fprintf(&b, "msgctxt %q\n", m[0])
		}
		fmt.Fprintf(&b, "msgid %q\nmsgid_plural %q\n", m[1], m[1]+"s")
		for i := 0; i < forms; i++ {
			fmt.Fprintf(&b, "msgstr[%d] %q\n", i, tr(m[0], m[1], strconv.Itoa(i), strings.Repeat("%d", strings.Count(m[1], "%d"))))
		}
		b.WriteString("\n")
	}
	return b.String()
}

func json03(lang, domain string) string {
	tr := func(s string) string { return lang + "|" + domain + "|" + s }
	b, _ := json.Marshal(map[string]any{
		"abc": tr("abc"), "ab": tr("ab"), "a.b": tr("a.b"),
		"bc_a":   map[string]string{"context": "a", "other": tr("a/bc")},
		"ab_a":   tr("ab_a"),
		"%d day": map[string]string{"one": tr("one%d"), "few": tr("few%d"), "many": tr("many%d"), "other": tr("other%d")},
		"day":    map[string]string{"one": tr("one"), "few": tr("few"), "many": tr("many"), "other": tr("other")},
	})
	return string(b)
}

const rule03de = "nplurals=2; plural=(n != 1);"
const rule03fr = "nplurals=2; plural=(n > 1);"
const rule03ru = "nplurals=3; plural=(n%10==1 && n%100!=11 ? 0 : n%10>=2 && n%10<=4 && (n%100<10 || n%100>=20) ? 1 : 2);"

func fs03() memFS {
	f := memFS{map[string]string{}}
	add := func(name, data string) { f.files[name] = data }
	for _, d := range []string{"d1", "d2"} {
		add("de/"+d+".po", po03file("de", d, rule03de, 2, "abc"))
		add("fr/"+d+".po", po03file("fr", d, rule03fr, 2, "a.b"))
		add("ru/"+d+".po", po03file("ru", d, rule03ru, 3, ""))
		add("pl/"+d+".json", json03("pl", d))
	}
	return f
}

// take returns the text of a list and then spoils it, including what may lie behind its end.
func take[T any](s []T, bad T) string {
	r := fmt.Sprint(s)
	all := s[:cap(s)]
	for i := range all {
		all[i] = bad
	}
	_ = append(s, bad)
	return r
}

func lookups03() *world03 {
	w := &world03{name: "lookups", qd: 2, td: 2}
	w.mk = func() any {
		s := &lookupState{loc: map[string]*spreak.Localizer{}, key: map[string]*spreak.KeyLocalizer{}}
		f := fs03()
		b, err := spreak.NewBundle(
			spreak.WithSourceLanguage(language.English),
			spreak.WithFallbackLanguage("fr"),
			spreak.WithDefaultDomain("d1"),
			spreak.WithDomainFs("d1", f), spreak.WithDomainFs("d2", f),
			spreak.WithLanguage("de", "ru", language.Polish, "it"),
			spreak.WithMissingTranslationCallback(func(err error) { s.log = append(s.log, err.Error()) }),
		)
		if err != nil {
			panic(err)
		}
		s.b = b
		for _, l := range []string{"de", "ru", "pl", "en", "sw"} {
			s.loc[l] = spreak.NewLocalizer(b, l)
			s.key[l] = spreak.NewKeyLocalizer(b, l)
		}
		s.loc["d2"] = spreak.NewLocalizerForDomain(b, "d2", "ru")
		s.log = nil
		return s
	}
	add := func(name string, f func(s *lookupState) string) {
		w.ops = append(w.ops, op03{name, func(x any) string {
			s := x.(*lookupState)
			s.log = nil
			r := f(s)
			if len(s.log) > 0 {
				r += " missing: " + strings.Join(s.log, "; ")
			}
			return r
		}})
	}
	for _, l := range []string{"de", "ru", "pl", "en", "sw"} {
		get := func(n string, f func(l *spreak.Localizer) string) {
			add(l+" "+n, func(s *lookupState) string { return f(s.loc[l]) })
		}
		get(`Get abc`, func(l *spreak.Localizer) string { return l.Get("abc") })
		get(`PGet a bc`, func(l *spreak.Localizer) string { return l.PGet("a", "bc") })
		get(`NGet day days 1`, func(l *spreak.Localizer) string { return l.NGet("day", "days", 1) })
		get(`NGet day days 22`, func(l *spreak.Localizer) string { return l.NGet("day", "days", 22) })
		if l == "en" || l == "sw" {
			get(`NGet day tage 5`, func(l *spreak.Localizer) string { return l.NGet("day", "tage", 5) })
			get(`Get unknown`, func(l *spreak.Localizer) string { return l.Get("unknown") })
			continue
		}
		get(`PGet ab c`, func(l *spreak.Localizer) string { return l.PGet("ab", "c") })
		get(`Get ab`, func(l *spreak.Localizer) string { return l.Get("ab") })
		get(`Get a.b`, func(l *spreak.Localizer) string { return l.Get("a.b") })
		get(`PGet a b`, func(l *spreak.Localizer) string { return l.PGet("a", "b") })
		get(`PGet b a`, func(l *spreak.Localizer) string { return l.PGet("b", "a") })
		get(`Get ab_a`, func(l *spreak.Localizer) string { return l.Get("ab_a") })
		get(`PGet a ab`, func(l *spreak.Localizer) string { return l.PGet("a", "ab") })
		get(`DGet d2 abc`, func(l *spreak.Localizer) string { return l.DGet("d2", "abc") })
		get(`DGet none abc`, func(l *spreak.Localizer) string { return l.DGet("none", "abc") })
		get(`DPGet d2 a bc`, func(l *spreak.Localizer) string { return l.DPGet("d2", "a", "bc") })
		get(`NGet day days 5`, func(l *spreak.Localizer) string { return l.NGet("day", "days", 5) })
		get(`DNGet d2 day days 22`, func(l *spreak.Localizer) string { return l.DNGet("d2", "day", "days", 22) })
		get(`NGet day days "1.0"`, func(l *spreak.Localizer) string { return l.NGet("day", "days", "1.0") })
		get(`NGet day days 1.5`, func(l *spreak.Localizer) string { return l.NGet("day", "days", 1.5) })
		get(`NGet day days x`, func(l *spreak.Localizer) string { return l.NGet("day", "days", "x") })
		get(`NGetf %d day 5 5`, func(l *spreak.Localizer) string { return l.NGetf("%d day", "%d days", 5, 5) })
		get(`NGetf %d day 5 7000`, func(l *spreak.Localizer) string { return l.NGetf("%d day", "%d days", 5, 7000) })
		get(`NPGetf a %d day 1 1`, func(l *spreak.Localizer) string { return l.NPGetf("a", "%d day", "%d days", 1, 1) })
		get(`NGet gone lost 2`, func(l *spreak.Localizer) string { return l.NGet("gone", "lost", 2) })
		get(`NGet gone away 2`, func(l *spreak.Localizer) string { return l.NGet("gone", "away", 2) })
		get(`Getf own slice`, func(l *spreak.Localizer) string {
			vars := append(make([]any, 0, 4), 1, "x")
			r := l.Getf("%d %s new", vars...)
			return r + " " + fmt.Sprint(vars[:4])
		})
		get(`error broken`, func(l *spreak.Localizer) string { return l.LocalizeError(errors.New("broken")).Error() })
		get(`error own message`, func(l *spreak.Localizer) string {
			return l.LocalizeError(&locErr03{localize.Message{Singular: "broken"}, "broken"}).Error()
		})
		get(`Localize`, func(l *spreak.Localizer) string {
			m := &localize.Message{Singular: "%d day", Plural: "%d days", Context: "a", Vars: []any{3}, Count: 3}
			t, err := l.LocalizeWithError(m)
			return t + fmt.Sprint(err, *m)
		})
		get(`Domains`, func(l *spreak.Localizer) string { return take(l.Domains(), "?") })
		get(`facts`, func(l *spreak.Localizer) string {
			return fmt.Sprint(l.HasLocale(), l.Language(), l.DefaultDomain(), l.HasDomain("d1"), l.HasDomain("d2"), l.HasDomain("?"))
		})
	}
	for _, l := range []string{"pl", "ru"} {
		add(l+" key NGetf", func(s *lookupState) string { return s.key[l].NGetf("%d day", 5, 5) })
		add(l+" key Get abc", func(s *lookupState) string { return s.key[l].Get("abc") })
	}
	add("ru/d2 Get abc", func(s *lookupState) string { return s.loc["d2"].Get("abc") })
	add("ru/d2 DGet d1 abc", func(s *lookupState) string { return s.loc["d2"].DGet("d1", "abc") })
	add("Bundle.Domains", func(s *lookupState) string { return take(s.b.Domains(), "?") })
	add("Bundle.SupportedLanguages", func(s *lookupState) string {
		return take(s.b.SupportedLanguages(), language.MustParse("sw"))
	})
	add("IsLanguageSupported", func(s *lookupState) string {
		return fmt.Sprint(s.b.IsLanguageSupported(language.German), s.b.IsLanguageSupported(language.MustParse("de-AT")), s.b.IsLanguageSupported(language.Japanese), s.b.CanLocalize())
	})
	for _, langs := range [][]any{{"de-AT"}, {"ja", "ru"}, {"ru;q=0.3, pl"}, {language.Ukrainian, 5, "pl"}, {"sw"}, {}} {
		add(fmt.Sprint("NewLocalizer ", langs), func(s *lookupState) string {
			in := append(make([]any, 0, 8), langs...)
			l := spreak.NewLocalizer(s.b, in...)
			return fmt.Sprint(l.Language(), l.HasLocale(), l.Get("abc"), l.NGet("day", "days", 22), in[:8])
		})
	}
	w.flood("messages", func(x any, k int) {
		s := x.(*lookupState)
		id := "id" + strconv.Itoa(k)
		s.loc["de"].Get(id)
		s.loc["ru"].PGet(id, "abc")
		s.loc["pl"].NGet(id, id+"s", k)
		s.loc["d2"].DGet(id, "abc")
		_ = s.loc["ru"].LocalizeError(errors.New(id)).Error()
	})
	w.flood("counts", func(x any, k int) {
		s := x.(*lookupState)
		for _, l := range []string{"de", "ru", "pl", "en", "sw"} {
			s.loc[l].NGetf("%d day", "%d days", k, k)
			s.loc[l].NGet("day", "days", float64(k)+0.5)
		}
	})
	w.flood("formats", func(x any, k int) {
		s := x.(*lookupState)
		for _, l := range []string{"de", "ru", "pl", "en", "sw"} {
			s.loc[l].Getf("%d "+strconv.Itoa(k), k)
		}
	})
	w.flood("localizers", func(x any, k int) {
		s := x.(*lookupState)
		l := spreak.NewLocalizer(s.b, "x"+strconv.Itoa(k), []string{"ru-RU", "fr", "ja", "de"}[k%4])
		l.Get("abc")
		s.b.IsLanguageSupported(l.Language())
	})
	return w
}

// variants03 has several variants of each language in one bundle.
func variants03() *world03 {
	w := &world03{name: "language variants", qd: 2, td: 2}
	rules := map[string]string{
		"de": rule03de, "de-AT": rule03fr, "zh-Hans": "nplurals=1; plural=0;", "zh-Hant": rule03de, "sr": rule03ru, "sr-Latn": rule03de, "pt": rule03fr, "pt-BR": rule03de,
	}
	langs := slices.Sorted(maps.Keys(rules))
	w.mk = func() any {
		f := memFS{map[string]string{}}
		b, err := spreak.NewBundle(spreak.WithSourceLanguage(language.English), spreak.WithDefaultDomain("d"), spreak.WithDomainFs("d", f), func() spreak.BundleOption {
			var all []any
			for _, l := range langs {
				r := rules[l]
				n := int(r[len("nplurals=")] - '0')
				f.files[l+"/d.po"] = po03file(l, "d", r, n, "")
				all = append(all, l)
			}
			return spreak.WithLanguage(all...)
		}())
		if err != nil {
			panic(err)
		}
		s := map[string]*spreak.Localizer{}
		for _, l := range langs {
			s[l] = spreak.NewLocalizer(b, l)
		}
		return s
	}
	for _, l := range langs {
		add := func(n string, f func(l *spreak.Localizer) string) {
			w.ops = append(w.ops, op03{l + " " + n, func(s any) string { return f(s.(map[string]*spreak.Localizer)[l]) }})
		}
		add("Get", func(l *spreak.Localizer) string { return l.Get("abc") })
		add("PGet", func(l *spreak.Localizer) string { return l.PGet("a", "bc") })
		add("NGet 0", func(l *spreak.Localizer) string { return l.NGet("day", "days", 0) })
		add("NGet 1", func(l *spreak.Localizer) string { return l.NGet("day", "days", 1) })
		add("Getf", func(l *spreak.Localizer) string { return l.Getf("%d new", 7654321) })
		add("facts", func(l *spreak.Localizer) string {
			return fmt.Sprint(l.Language(), l.HasLocale(), l.LocalizeError(errors.New("broken")))
		})
	}
	return w
}

type locErr03 struct {
	localize.Message
	txt string
}

func (e *locErr03) Error() string { return e.txt }

// ---- catalogs

type catState struct{ po, mo, js catalog.Catalog }

func mo03() []byte {
	return moBytes([]moMsg{
		{"", "Language: ru\nPlural-Forms: " + rule03ru + "\n"},
		{"abc", "mo|abc"}, {"a\x04bc", "mo|a|bc"}, {"ab\x04c", "mo|ab|c"},
		{"day\x00days", "mo0\x00mo1\x00mo2"},
	}, moLayout{})
}

func catalogs03() *world03 {
	w := &world03{name: "catalogs", qd: 2, td: 3}
	w.mk = func() any {
		s := &catState{}
		var err error
		if s.po, err = catalog.NewPoDecoder().Decode(language.Russian, "d", []byte(po03file("ru", "d", rule03ru, 3, ""))); err != nil {
			panic(err)
		}
		if s.mo, err = catalog.NewMoDecoder().Decode(language.Russian, "e", mo03()); err != nil {
			panic(err)
		}
		if s.js, err = catalog.NewJSONDecoder().Decode(language.Polish, "f", []byte(json03("pl", "f"))); err != nil {
			panic(err)
		}
		return s
	}
	add := func(name string, f func(s *catState) string) {
		w.ops = append(w.ops, op03{name, func(x any) string { return f(x.(*catState)) }})
	}
	res := func(t string, err error) string { return t + "/" + errText(err) }
	for _, k := range []string{"po", "mo", "json"} {
		of := func(s *catState) catalog.Catalog {
			switch k {
			case "po":
				return s.po
			case "mo":
				return s.mo
			}
			return s.js
		}
		for _, x := range [][2]string{{"", "abc"}, {"a", "bc"}, {"ab", "c"}, {"", "ab_a"}, {"a", "ab"}, {"", "none"}} {
			add(fmt.Sprintf("%s Lookup %q", k, x), func(s *catState) string { return res(of(s).Lookup(x[0], x[1])) })
		}
		for _, n := range []any{1, 22, 5, "1.0", 1.5, "x", int64(1) << 40, -1} {
			add(fmt.Sprintf("%s LookupPlural %#v", k, n), func(s *catState) string { return res(of(s).LookupPlural("", "day", n)) })
		}
		add(k+" LookupPlural none", func(s *catState) string { return res(of(s).LookupPlural("a", "day", 1)) })
		add(k+" Messages, spoiled", func(s *catState) string {
			switch c := of(s).(type) {
			case *catalog.GettextCatalog:
				m := c.Messages()
				r := dump03(m) + c.Domain() + c.Language().String()
				for ctx := range m {
					for _, id := range slices.Collect(maps.Keys(m[ctx])) {
						tr := m[ctx][id].Translations()
						cl := m[ctx][id].Clone().Translations()
						for i := range tr {
							tr[i], cl[i] = "?", "?"
						}
						tr[7], cl[7] = "?", "?"
						delete(tr, 0)
						if t := fmt.Sprint(m[ctx][id].Translations()); strings.Contains(t, "?") {
							r += " spoiled: " + t
						}
						*m[ctx][id] = catalog.GettextMessage{}
						m[ctx]["?"] = m[ctx][id]
						delete(m[ctx], id)
					}
					delete(m, ctx)
				}
				return r
			case catalog.JSONCatalog:
				m := c.Messages()
				r := dumpJSON03(m) + c.Domain() + c.Language().String()
				for id, msg := range m {
					cl := msg.Clone()
					cl.Translations[cldrplural.Other] = "?"
					cl.Context = "?"
					msg.Translations[cldrplural.One] = "?"
					msg.Translations[cldrplural.Other] += "?"
					msg.Context = "?"
					msg.Comment = "?"
					delete(m, id)
				}
				m["?"] = nil
				return r
			}
			return "?"
		})
	}
	add("json Marshal", func(s *catState) string {
		b, err := json.Marshal(s.js)
		r := string(b) + errText(err)
		for i := range b {
			b[i] = '?'
		}
		return r
	})
	add("json Encode", func(s *catState) string {
		var b bytes.Buffer
		err := catalog.NewJSONEncoder(&b).Encode(s.js.(catalog.JSONCatalog))
		return b.String() + errText(err)
	})
	add("json from messages", func(s *catState) string {
		m := s.js.(catalog.JSONCatalog).Messages()
		for _, x := range m { // Russian has no few of its own here
			delete(x.Translations, cldrplural.Few)
		}
		before := dumpJSON03(m)
		c, err := catalog.NewJSONCatalogWithMessages(language.German, "g", m)
		if err != nil {
			return errText(err)
		}
		r := before + dumpJSON03(m) + dumpJSON03(c.Messages())
		for _, x := range m {
			x.Translations[cldrplural.Other] = "?"
		}
		return r + dumpJSON03(c.Messages())
	})
	w.flood("messages", func(x any, k int) {
		s := x.(*catState)
		for _, c := range []catalog.Catalog{s.po, s.mo, s.js} {
			id := strconv.Itoa(k)
			_, _ = c.Lookup("", id)
			_, _ = c.Lookup(id, "abc")
			_, _ = c.LookupPlural(id, "day", k)
			_, _ = c.LookupPlural("", "day", k)
		}
	})
	return w
}

func dump03(m catalog.PoLookupMap) string {
	var out []string
	for ctx := range m {
		for id, x := range m[ctx] {
			out = append(out, fmt.Sprintf("%q/%q: %q", ctx, id, fmt.Sprint(x.Translations())))
		}
	}
	sort.Strings(out)
	return strings.Join(out, ", ")
}

func dumpJSON03(m catalog.JSONMessages) string {
	var out []string
	for id, x := range m {
		out = append(out, fmt.Sprintf("%q: %+v", id, *x))
	}
	sort.Strings(out)
	return strings.Join(out, ", ")
}

// ---- plural rules

type pluralState struct {
	rule map[string]*poplural.Rule
	set  map[string]*cldrplural.RuleSet
	fn   map[string]poplural.PluralFunc
}

func plurals03() *world03 {
	w := &world03{name: "plural rules", qd: 2, td: 3}
	headers := []string{rule03de, rule03fr, rule03ru, "nplurals=2; plural=n!=1;", "nplurals=2; plural=n%10!=1;", "nplurals=2; plural=n<1;", "nplurals=x",
		// texts that differ only in parentheses, blanks, a number or their number of forms
		"nplurals=2; plural=n % (12 == 1);", "nplurals=2; plural=n % 12 == 1;", "nplurals=3; plural=n % 12 == 1;",
		"nplurals=2; plural=n == 1 || n == 2 && n == 3;", "nplurals=2; plural=(n == 1 || n == 2) && n == 3;",
		"nplurals=3; plural=n > 1 ? n > 2 ? 2 : 1 : 0;", "nplurals=3; plural=n > 1 ? n > 2 : 2;", "nplurals=3; plural=n % 2 ? 1 : n % 3 ? 2 : 0;",
		"nplurals=2; plural=n % 1 != 0;", "nplurals=2; plural=n % 10 != 0;", "nplurals=2; plural=n == 1 1;", "nplurals=2; plural=n == 11;",
	}
	langs := []string{"de", "ru", "lt", "fr", "pt", "pt-PT", "xx", "ar"}
	texts := []map[cldrplural.Category]string{
		{cldrplural.One: "i = 1 and v = 0"}, {cldrplural.One: "n = 1"}, {cldrplural.Few: "n % 10 = 2..4", cldrplural.Many: "v != 0"}, {cldrplural.One: "n ="}, {cldrplural.Two: "i = 1 and v = 0"},
		{cldrplural.One: "n = 1..3"}, {cldrplural.One: "n = 1,3"}, {cldrplural.One: "n != 1,3"}, {cldrplural.One: "n = 1 and v = 0 or n = 5"}, {cldrplural.One: "n = 5 or n = 1 and v = 0"}, {cldrplural.One: "n = 1 or v = 0 and n = 5"},
		{cldrplural.One: "n = 1", cldrplural.Two: "n = 2"}, {cldrplural.One: "n = 2", cldrplural.Two: "n = 1"},
	}
	w.mk = func() any {
		s := &pluralState{map[string]*poplural.Rule{}, map[string]*cldrplural.RuleSet{}, map[string]poplural.PluralFunc{}}
		for _, h := range headers[:3] {
			s.rule[h] = poplural.MustParse(h)
		}
		for _, l := range langs[:3] {
			s.set[l], _ = cldrplural.ForLanguage(language.MustParse(l))
			s.fn[l], _ = poplural.ForLanguage(language.MustParse(l))
		}
		s.set["text"] = cldrplural.MustParseRules(texts[2])
		return s
	}
	add := func(name string, f func(s *pluralState) string) {
		w.ops = append(w.ops, op03{name, func(x any) string { return f(x.(*pluralState)) }})
	}
	one := 1
	counts := []any{0, 1, 2, 5, 22, "1.0", "1", 1.5, -1, &one, "x", nil, uint8(3)}
	for _, n := range counts {
		name := fmt.Sprintf("%T %v", n, n)
		if n == &one {
			name = "*int 1"
		}
		for _, h := range headers[:3] {
			add("rule "+h+" "+name, func(s *pluralState) string { return fmt.Sprint(s.rule[h].Evaluate(n)) })
		}
		for _, l := range append(langs[:3:3], "text") {
			add("set "+l+" "+name, func(s *pluralState) string { return fmt.Sprint(s.set[l].Evaluate(n)) })
		}
		add("func ru "+name, func(s *pluralState) string { return fmt.Sprint(s.fn["ru"](n)) })
		add("operands "+name, func(s *pluralState) string {
			o, err := cldrplural.NewOperands(n)
			if o == nil {
				return errText(err)
			}
			r := fmt.Sprintf("%+v", *o) + errText(err)
			*o = cldrplural.Operands{N: -1, I: 77, V: 7, W: 7, F: 7, T: 7, C: 7}
			return r
		})
	}
	for _, h := range headers {
		add("parse "+h, func(*pluralState) string {
			r, err := poplural.Parse(h)
			if err != nil {
				return errText(err)
			}
			out := fmt.Sprint(r.NPlurals)
			for n := 0; n < 25; n++ {
				out += fmt.Sprint(r.FormFunc(int64(n)))
			}
			return out
		})
	}
	for _, l := range langs {
		add("ForLanguage "+l, func(*pluralState) string {
			tag := language.Make(l)
			s, ok := cldrplural.ForLanguage(tag)
			f, ok2 := poplural.ForLanguage(tag)
			out := fmt.Sprint(ok, ok2, s.Categories)
			for n := 0; n < 25; n++ {
				c, err := s.Evaluate(n)
				i, err2 := f(n)
				out += fmt.Sprint(" ", int(c), i, err, err2)
			}
			return out
		})
	}
	for i := range texts {
		add(fmt.Sprint("ParseRules ", texts[i]), func(*pluralState) string {
			in := map[cldrplural.Category]string{}
			for k, v := range texts[i] {
				in[k] = v
			}
			s, err := cldrplural.ParseRules(in)
			if err != nil {
				return errText(err)
			}
			out := fmt.Sprint(s.Categories, in)
			delete(in, cldrplural.One)
			in[cldrplural.Zero] = "n = 1"
			for _, n := range counts[:8] {
				c, err := s.Evaluate(n)
				out += fmt.Sprint(" ", int(c), err)
			}
			return out
		})
	}
	w.flood("counts", func(x any, k int) {
		s := x.(*pluralState)
		for _, h := range headers[:3] {
			s.rule[h].Evaluate(k)
			s.rule[h].Evaluate(float64(k) + 0.5)
		}
		for _, l := range append(langs[:3:3], "text") {
			s.set[l].Evaluate(k)
			s.set[l].Evaluate(strconv.Itoa(k) + ".50")
		}
		_, _ = s.fn["ru"](k)
	})
	w.flood("rules", func(x any, k int) {
		_, _ = poplural.Parse(fmt.Sprintf("nplurals=2; plural=n%%%d!=1;", k+1))
		_, _ = cldrplural.ParseRules(map[cldrplural.Category]string{cldrplural.One: fmt.Sprintf("n %% %d = 1", k+1)})
		t, _ := language.Compose(language.MustParseBase(langs[k%4]), language.MustParseRegion([]string{"DE", "FR", "US"}[k%3]))
		cldrplural.ForLanguage(t)
		poplural.ForLanguage(t)
	})
	return w
}

// ---- loading: decoders, loaders, resolvers and bundle options used more than once

type loadState struct {
	po, cldr, mo, js catalog.Decoder
	l                spreak.Loader
	resolver         spreak.Resolver
	fsys             memFS
	opts             []spreak.BundleOption
	printer          spreak.Printer
}

func loading03() *world03 {
	w := &world03{name: "loading", qd: 2, td: 3}
	w.mk = func() any {
		f := fs03()
		f.files["LC_MESSAGES/it.po"] = po03file("it", "x", rule03de, 2, "")
		f.files["d1/es.po"] = "msgid \"a\"\nmsgstr \"no\nmsgid"
		s := &loadState{po: catalog.NewPoDecoder(), cldr: catalog.NewPoCLDRDecoder(), mo: catalog.NewMoDecoder(), js: catalog.NewJSONDecoder(), fsys: f, printer: spreak.NewDefaultPrinter()}
		s.resolver, _ = spreak.NewDefaultResolver(spreak.WithCategory("LC_MESSAGES"))
		s.l, _ = spreak.NewFilesystemLoader(spreak.WithFs(f), spreak.WithResolver(s.resolver))
		s.opts = []spreak.BundleOption{
			spreak.WithSourceLanguage(language.English), spreak.WithDefaultDomain("d1"),
			spreak.WithDomainLoader("d1", s.l), spreak.WithDomainFs("d2", f), spreak.WithPrinter(s.printer),
		}
		return s
	}
	add := func(name string, f func(s *loadState) string) {
		w.ops = append(w.ops, op03{name, func(x any) string { return f(x.(*loadState)) }})
	}
	show := func(c catalog.Catalog, err error) string {
		if err != nil {
			return errText(err)
		}
		r := ""
		for _, x := range [][2]string{{"", "abc"}, {"a", "bc"}, {"", "none"}} {
			t, err := c.Lookup(x[0], x[1])
			r += t + "/" + errText(err) + " "
		}
		for _, n := range []any{1, 2, 5, 1.5} {
			t, err := c.LookupPlural("", "day", n)
			r += t + "/" + errText(err) + " "
		}
		switch c := c.(type) {
		case *catalog.GettextCatalog:
			r += dump03(c.Messages()) + c.Language().String() + c.Domain()
		case catalog.JSONCatalog:
			r += dumpJSON03(c.Messages()) + c.Language().String() + c.Domain()
		}
		return r
	}
	// decode hands over a buffer that is overwritten afterwards
	decode := func(d catalog.Decoder, lang, domain, data string) string {
		b := []byte(data)
		c, err := d.Decode(language.MustParse(lang), domain, b)
		for i := range b {
			b[i] = '?'
		}
		return show(c, err)
	}
	noHeader := "msgid \"abc\"\nmsgstr \"plain\"\n\nmsgid \"day\"\nmsgid_plural \"days\"\nmsgstr[0] \"0\"\nmsgstr[1] \"1\"\n"
	useCLDR := "msgid \"\"\nmsgstr \"X-spreak-use-CLDR: true\\nPlural-Forms: nplurals=1; plural=0;\\n\"\n\n" + noHeader
	for _, x := range []struct{ name, lang, domain, data string }{
		{"ru", "ru", "d", po03file("ru", "d", rule03ru, 3, "")}, {"de", "de", "d", po03file("de", "d", rule03de, 2, "")},
		{"no header", "fr", "d", noHeader}, {"no header, English", "en", "e", noHeader}, {"use CLDR", "ru", "d", useCLDR}, {"bad", "de", "d", "msgid \"a\"\nmsgid \"b\"\nmsgstr[0"},
		{"empty", "de", "d", ""},
	} {
		add("po "+x.name, func(s *loadState) string { return decode(s.po, x.lang, x.domain, x.data) })
		add("po for CLDR "+x.name, func(s *loadState) string { return decode(s.cldr, x.lang, x.domain, x.data) })
	}
	mo := string(mo03())
	add("mo", func(s *loadState) string { return decode(s.mo, "ru", "d", mo) })
	add("mo German", func(s *loadState) string { return decode(s.mo, "de", "e", mo) })
	add("mo cut", func(s *loadState) string { return decode(s.mo, "de", "e", mo[:len(mo)-9]) })
	add("json", func(s *loadState) string { return decode(s.js, "pl", "d", json03("pl", "d")) })
	add("json German", func(s *loadState) string { return decode(s.js, "de", "e", json03("pl", "d")) })
	add("json bad", func(s *loadState) string { return decode(s.js, "de", "e", "{\"a\":") })
	for _, x := range [][2]string{{"de", "d1"}, {"de", "d2"}, {"de-AT", "d1"}, {"ru", "d1"}, {"pl", "d1"}, {"it", "d1"}, {"it", "?"}, {"es", "d1"}, {"sw", "d1"}} {
		add("Load "+x[0]+" "+x[1], func(s *loadState) string { return show(s.l.Load(language.MustParse(x[0]), x[1])) })
		add("Resolve "+x[0]+" "+x[1], func(s *loadState) string {
			r := ""
			for _, ext := range []string{".po", ".json"} {
				p, err := s.resolver.Resolve(s.fsys, ext, language.MustParse(x[0]), x[1])
				r += p + errText(err)
			}
			return r
		})
	}
	for _, langs := range [][]any{{"de", "ru"}, {"pl"}, {"sw", "de-AT", "de"}, {5}} {
		add(fmt.Sprint("NewBundle ", langs), func(s *loadState) string {
			in := append(make([]any, 0, 8), langs...)
			opts := append(clipOpts(s.opts), spreak.WithLanguage(in...))
			b, err := spreak.NewBundle(opts...)
			if err != nil {
				return errText(err)
			}
			for i := range in {
				in[i] = 5
			}
			l := spreak.NewLocalizer(b, "ru", "de", "pl")
			return fmt.Sprint(b.Domains(), b.SupportedLanguages(), l.Language(), l.Get("abc"), l.NGetf("%d day", "%d days", 22, 2200), l.DNGetf("d2", "%d day", "%d days", 22, 2200))
		})
	}
	for _, l := range []string{"de-AT", "zh-Hant-TW", "sr-Latn", "en", "und"} {
		add("ExpandLanguage "+l, func(*loadState) string { return take(spreak.ExpandLanguage(language.MustParse(l)), "?") })
	}
	return w
}

func clipOpts(s []spreak.BundleOption) []spreak.BundleOption { return s[:len(s):len(s)] }

// ---- PO parser and encoder

type poState struct {
	p, pi  *po.Parser
	buf    *bytes.Buffer
	enc    *po.Encoder
	narrow *po.Encoder
	files  []*po.File
}

var poTexts03 = []string{
	po03file("ru", "d", rule03ru, 3, ""),
	"# t\n#. e\n#: b.go:2 a.go:1\n#, fuzzy, c-format\nmsgctxt \"c\"\nmsgid \"a\"\n\"b\"\nmsgstr \"x\"\n\n#~ msgid \"old\"\n#~ msgstr \"o\"\n",
	"msgid \"a\"\nmsgstr \"x\"\n\nmsgid \"a\"\nmsgstr \"y\"\n",
	"msgid \"a\"\nmsgstr \"x\"\n\nmsgctxt \"q\"\nmsgid \"b",
	"msgid \"p\"\nmsgid_plural \"ps\"\nmsgstr[0] \"0\"\nmsgstr[1] \"1\"\n# tail comment\n",
	"# first\nmsgid \"\"\nmsgstr \"\"\n\"Language: de\\n\"\n\"X-Own: 1\\n\"\n",
	"",
	"# only a comment",
	"msgstr \"stray\"\n",
}

func poDump(f *po.File, err error) string {
	if err != nil {
		return errText(err)
	}
	var out []string
	for ctx := range f.Messages {
		for id, m := range f.Messages[ctx] {
			out = append(out, fmt.Sprintf("%q/%q: %s", ctx, id, poMsg(m)))
		}
	}
	sort.Strings(out)
	h := "no header"
	if f.Header != nil {
		h = fmt.Sprintf("%q %q %q %v", f.Header.Language, f.Header.PluralForms, f.Header.Get("X-Own"), f.Header.UnknownFields)
		if f.Header.Comment != nil {
			h += f.Header.Comment.Translator
		}
	}
	return h + " " + strings.Join(out, ", ")
}

func poMsg(m *po.Message) string {
	s := fmt.Sprintf("%q %q %q %v", m.Context, m.ID, m.IDPlural, m.Str)
	if c := m.Comment; c != nil {
		s += fmt.Sprintf(" %q %q %q", c.Translator, c.Extracted, c.Flags)
		for _, r := range c.References {
			s += fmt.Sprintf(" %s:%d", r.Path, r.Line)
		}
	}
	return s
}

func po03() *world03 {
	w := &world03{name: "po", qd: 2, td: 3}
	w.mk = func() any {
		s := &poState{p: po.NewParser(), pi: po.NewParser(), buf: &bytes.Buffer{}}
		s.pi.SetIgnoreComments(true)
		s.enc, s.narrow = po.NewEncoder(s.buf), po.NewEncoder(s.buf)
		s.narrow.SetWrapWidth(20)
		s.narrow.SetWriteHeader(false)
		for _, i := range []int{0, 1, 4, 5} {
			f, err := po.ParseString(poTexts03[i])
			if err != nil {
				panic(err)
			}
			s.files = append(s.files, f)
		}
		f := po.NewFile()
		for _, r := range []string{"z.go", "a.go", "m.go"} {
			m := po.NewMessage()
			m.ID = "merged"
			m.AddReference(&po.Reference{Path: r, Line: 3})
			m.Comment.AddFlag(r)
			f.AddMessage(m)
		}
		m := po.NewMessage()
		m.ID, m.IDPlural = "plural without forms", "plurals"
		f.AddMessage(m)
		s.files = append(s.files, f)
		return s
	}
	add := func(name string, f func(s *poState) string) {
		w.ops = append(w.ops, op03{name, func(x any) string { return f(x.(*poState)) }})
	}
	for i, txt := range poTexts03 {
		add(fmt.Sprint("Parse ", i), func(s *poState) string { return poDump(s.p.Parse(strings.NewReader(txt))) })
		add(fmt.Sprint("Parse without comments ", i), func(s *poState) string { return poDump(s.pi.Parse(strings.NewReader(txt))) })
		if i < 3 {
			add(fmt.Sprint("Parse and spoil ", i), func(s *poState) string {
				b := []byte(txt)
				f, err := po.Parse(b)
				r := poDump(f, err)
				for i := range b {
					b[i] = '?'
				}
				if f != nil {
					if again := poDump(f, err); again != r {
						r += " then " + again
					}
					for ctx := range f.Messages {
						for id, m := range f.Messages[ctx] {
							m.Str[0] = "?"
							if m.Comment != nil {
								take(m.Comment.Flags, "?")
							}
							delete(f.Messages[ctx], id)
						}
					}
				}
				return r
			})
		}
	}
	// a setting that is made for one call and taken back
	add("Parse once without comments", func(s *poState) string {
		s.p.SetIgnoreComments(true)
		defer s.p.SetIgnoreComments(false)
		return poDump(s.p.Parse(strings.NewReader(poTexts03[1])))
	})
	add("Parse once with comments", func(s *poState) string {
		s.pi.SetIgnoreComments(false)
		defer s.pi.SetIgnoreComments(true)
		return poDump(s.pi.Parse(strings.NewReader(poTexts03[1])))
	})
	add("Encode once otherwise", func(s *poState) string {
		n := s.buf.Len()
		s.narrow.SetWrapWidth(-1)
		s.narrow.SetWriteHeader(true)
		s.narrow.SetWriteReferences(false)
		s.narrow.SetWriteEmptyHeader(false)
		s.narrow.SetSortFunction(func(a, b *po.Message) int { return strings.Compare(b.Context+"/"+b.ID, a.Context+"/"+a.ID) })
		err := s.narrow.Encode(s.files[0])
		s.narrow.SetWrapWidth(20)
		s.narrow.SetWriteHeader(false)
		s.narrow.SetWriteReferences(true)
		s.narrow.SetWriteEmptyHeader(true)
		s.narrow.SetSortFunction(po.DefaultSortFunction)
		return s.buf.String()[n:] + errText(err)
	})
	for i := 0; i < 5; i++ {
		for _, k := range []string{"Encode", "Encode narrow"} {
			add(fmt.Sprint(k, " ", i), func(s *poState) string {
				n := s.buf.Len()
				e := s.enc
				if k != "Encode" {
					e = s.narrow
				}
				before := poDump(s.files[i], nil)
				err := e.Encode(s.files[i])
				r := s.buf.String()[n:] + errText(err)
				// what a file holds does not change by writing it
				if after := poDump(s.files[i], nil); after != before {
					r += " file changed: " + before + " became " + after
				}
				return r
			})
		}
		add(fmt.Sprint("Marshal ", i), func(s *poState) string {
			b, err := po.Marshal(s.files[i])
			r := string(b) + errText(err)
			for i := range b[:cap(b)] {
				b[:cap(b)][i] = '?'
			}
			return r
		})
		add(fmt.Sprint("Content ", i), func(s *poState) string { return poDump(s.files[i], nil) })
	}
	for _, x := range []string{"", "a\tb\"c\\", "\x01\n", "äöü länger als zehn Zeichen und noch mehr", "a\n\nb"} {
		add(fmt.Sprintf("quote %q", x), func(*poState) string {
			return po.EncodePoString(x, 10) + po.EncodePoString(x, -1) + po.DecodePoString(po.EncodePoString(x, 10)) + po.DecodePoString(x)
		})
	}
	w.flood("texts", func(x any, k int) {
		s := x.(*poState)
		t := fmt.Sprintf("# c%d\nmsgctxt \"c%d\"\nmsgid \"m%d\"\nmsgstr \"t%d\"\n", k, k, k, k)
		if f, err := s.p.Parse(strings.NewReader(t)); err == nil {
			_ = s.enc.Encode(f)
			_ = s.narrow.Encode(f)
		}
		_, _ = s.pi.Parse(strings.NewReader(t))
		s.buf.Reset()
	})
	return w
}

// ---- humanizers

type humState struct {
	c *humanize.Collection
	h map[string]*humanize.Humanizer
	// option slices with room behind their end
	short, deep []humanize.TimeOption
}

func humanOps03(add func(name string, f func(h *humanize.Humanizer) string)) {
	now := time.Now()
	day := time.Date(2003, 2, 4, 16, 5, 6, 7, time.UTC)
	for _, n := range []any{0, 1, 2, 11, 22, 1000, 1234567, 2.5, "3", "x", nil} {
		name := fmt.Sprintf("%T %v", n, n)
		add("Apnumber "+name, func(h *humanize.Humanizer) string { return h.Apnumber(n) })
		add("Ordinal "+name, func(h *humanize.Humanizer) string { return h.Ordinal(n) })
		add("Intcomma "+name, func(h *humanize.Humanizer) string { return h.Intcomma(n) })
	}
	add("Intword", func(h *humanize.Humanizer) string { return h.Intword(1200000) })
	add("Intword 2", func(h *humanize.Humanizer) string { return h.Intword(2000000) })
	add("FilesizeFormat", func(h *humanize.Humanizer) string { return h.FilesizeFormat(1500) })
	add("FilesizeFormat 1", func(h *humanize.Humanizer) string { return h.FilesizeFormat(1) })
	for _, d := range []time.Duration{0, time.Second, -5 * time.Second, 90 * time.Minute, -49 * time.Hour, 400 * 24 * time.Hour} {
		add(fmt.Sprint("NaturalTime ", d), func(h *humanize.Humanizer) string { return h.NaturalTime(now.Add(d)) })
	}
	for d := -1; d <= 2; d++ {
		add(fmt.Sprint("NaturalDay ", d), func(h *humanize.Humanizer) string { return h.NaturalDay(now.AddDate(0, 0, d)) })
	}
	for _, f := range []string{"N j, Y, P", "DATE_FORMAT", "SHORT_DATETIME_FORMAT", "l D F M b E \\j", "jS", "?"} {
		add("FormatTime "+f, func(h *humanize.Humanizer) string { return h.FormatTime(day, f) })
	}
	add("FormatTime n", func(h *humanize.Humanizer) string { return h.FormatTime(day, humanize.DateFormat) })
	for _, s := range []string{"de", "German", "xx"} {
		add("LanguageName "+s, func(h *humanize.Humanizer) string { return h.LanguageName(s) + h.LanguageNameByCode(s) })
	}
	add("Now", func(h *humanize.Humanizer) string { return h.Now() + h.Date() + h.Time() + h.Language().String() })
}

func humanize03() *world03 {
	w := &world03{name: "humanize", qd: 2, td: 2}
	w.mk = func() any {
		s := &humState{h: map[string]*humanize.Humanizer{}}
		s.c = humanize.MustNew(humanize.WithLocale(de.New(), ar.New(), pl.New()))
		for _, l := range []string{"de", "ar", "en"} {
			s.h[l] = s.c.CreateHumanizer(l)
		}
		s.short = append(make([]humanize.TimeOption, 0, 8), humanize.WithDepth(1))
		s.deep = append(make([]humanize.TimeOption, 0, 8), humanize.WithDepth(4), humanize.WithoutAdjacentCheck())
		return s
	}
	add := func(name string, f func(s *humState) string) {
		w.ops = append(w.ops, op03{name, func(x any) string { return f(x.(*humState)) }})
	}
	for _, l := range []string{"de", "ar", "en"} {
		humanOps03(func(name string, f func(h *humanize.Humanizer) string) {
			add(l+" "+name, func(s *humState) string { return f(s.h[l]) })
		})
		now := time.Now()
		past, future := now.Add(-1000*time.Hour), now.Add(3000*time.Hour)
		for _, o := range []string{"short", "deep"} {
			opt := func(s *humState) []humanize.TimeOption {
				if o == "short" {
					return s.short
				}
				return s.deep
			}
			add(l+" TimeSince "+o, func(s *humState) string { return h3(s.h[l].TimeSince(past, opt(s)...), opt(s)) })
			add(l+" TimeUntil "+o, func(s *humState) string { return h3(s.h[l].TimeUntil(future, opt(s)...), opt(s)) })
			add(l+" TimeSinceFrom "+o, func(s *humState) string { return h3(s.h[l].TimeSinceFrom(past, future, opt(s)...), opt(s)) })
			add(l+" TimeUntilFrom "+o, func(s *humState) string { return h3(s.h[l].TimeUntilFrom(future, past, opt(s)...), opt(s)) })
		}
	}
	add("CreateHumanizer", func(s *humState) string {
		h := s.c.CreateHumanizer("ja", "de-CH")
		return h.Language().String() + h.Ordinal(3) + h.FormatTime(time.Date(2003, 2, 4, 16, 5, 6, 7, time.UTC), "DATE_FORMAT")
	})
	w.flood("numbers", func(x any, k int) {
		s := x.(*humState)
		for _, l := range []string{"de", "ar", "en"} {
			h := s.h[l]
			h.Apnumber(k)
			h.Ordinal(k)
			h.Intcomma(k * 1001)
			h.Intword(k * 1000001)
			h.FilesizeFormat(k * 1001)
		}
	})
	w.flood("times", func(x any, k int) {
		s := x.(*humState)
		t := time.Now().Add(time.Duration(k*k) * time.Second)
		for _, l := range []string{"de", "ar", "en"} {
			h := s.h[l]
			h.NaturalTime(t)
			h.NaturalDay(t)
			h.FormatTime(t, "N j, Y "+strconv.Itoa(k))
			h.TimeUntil(t)
			h.LanguageName(strconv.Itoa(k))
		}
		s.c.CreateHumanizer([]string{"de-AT", "ar-EG", "ja", "pl"}[k%4])
	})
	return w
}

// humanizeVariants03 has several variants of each language in one collection.
func humanizeVariants03() *world03 {
	w := &world03{name: "humanize variants", qd: 2, td: 2}
	langs := []string{"zh-Hans", "zh-Hant", "pt", "pt-BR", "sr", "sr-Latn"}
	w.mk = func() any {
		c := humanize.MustNew(humanize.WithLocale(zhHans.New(), zhHant.New(), pt.New(), ptBR.New(), sr.New(), srLatn.New()))
		s := map[string]*humanize.Humanizer{}
		for _, l := range langs {
			s[l] = c.CreateHumanizer(l)
		}
		return s
	}
	now := time.Now()
	day := time.Date(2003, 2, 4, 16, 5, 6, 7, time.UTC)
	for _, l := range langs {
		add := func(n string, f func(h *humanize.Humanizer) string) {
			w.ops = append(w.ops, op03{l + " " + n, func(s any) string { return f(s.(map[string]*humanize.Humanizer)[l]) }})
		}
		add("LanguageName", func(h *humanize.Humanizer) string { return h.LanguageName("German") })
		add("LanguageNameByCode", func(h *humanize.Humanizer) string { return h.LanguageNameByCode("de") })
		add("words", func(h *humanize.Humanizer) string {
			return h.Apnumber(2) + "|" + h.Ordinal(3) + "|" + h.NaturalDay(now) + "|" + h.NaturalTime(now.Add(-3*time.Hour))
		})
		add("numbers", func(h *humanize.Humanizer) string {
			return h.Intcomma(1234567.5) + "|" + h.Intword(1200000) + "|" + h.FilesizeFormat(1500)
		})
		add("names", func(h *humanize.Humanizer) string { return h.FormatTime(day, "l D F M b E N a A") })
		add("formats", func(h *humanize.Humanizer) string {
			return h.FormatTime(day, "DATE_FORMAT") + "|" + h.FormatTime(day, humanize.ShortDatetimeFormat)
		})
		add("span", func(h *humanize.Humanizer) string { return h.TimeSinceFrom(day.AddDate(-2, 0, 0), day) })
	}
	return w
}

// h3 shows what lies behind the end of an option list.
func h3(s string, opts []humanize.TimeOption) string {
	for _, o := range opts[len(opts):cap(opts)] {
		if o != nil {
			s += " options written"
		}
	}
	return s
}

// Locales are shared: the same data serves several collections.
type sharedState struct {
	de, own, bare *humanize.LocaleData
	list          []*humanize.LocaleData
}

func humanizeShared03() *world03 {
	w := &world03{name: "humanize collections", qd: 3, td: 4}
	w.mk = func() any {
		s := &sharedState{de: de.New(), bare: &humanize.LocaleData{Lang: language.Polish, Fs: pl.New().Fs}}
		s.own = &humanize.LocaleData{Lang: language.German, Fs: s.de.Fs, Format: &humanize.FormatData{DateFormat: "Y", FirstDayOfWeek: 3}}
		s.list = append(make([]*humanize.LocaleData, 0, 8), s.de, s.bare)
		return s
	}
	show := func(c *humanize.Collection, err error, s *sharedState) string {
		if err != nil {
			return errText(err)
		}
		r := ""
		day := time.Date(2003, 2, 4, 16, 5, 6, 7, time.UTC)
		for _, l := range []string{"de", "pl", "en"} {
			h := c.CreateHumanizer(l)
			r += h.Language().String() + h.Ordinal(3) + h.Apnumber(2)
			for _, f := range []string{"DATE_FORMAT", "TIME_FORMAT", "DATETIME_FORMAT", "YEAR_MONTH_FORMAT", "MONTH_DAY_FORMAT", "SHORT_DATE_FORMAT", "SHORT_DATETIME_FORMAT"} {
				r += " " + h.FormatTime(day, f)
			}
			r += "; "
		}
		for _, d := range append([]*humanize.LocaleData{s.own}, s.list[:cap(s.list)]...) {
			if d == nil {
				r += " nil"
				continue
			}
			r += fmt.Sprint(" ", d.Lang)
			if d.Format != nil {
				r += fmt.Sprintf("%+v", *d.Format)
			}
		}
		return r
	}
	add := func(name string, f func(s *sharedState) []humanize.Option) {
		w.ops = append(w.ops, op03{name, func(x any) string {
			s := x.(*sharedState)
			c, err := humanize.New(f(s)...)
			return show(c, err, s)
		}})
	}
	add("de", func(s *sharedState) []humanize.Option { return []humanize.Option{humanize.WithLocale(s.de)} })
	add("own", func(s *sharedState) []humanize.Option { return []humanize.Option{humanize.WithLocale(s.own)} })
	add("bare", func(s *sharedState) []humanize.Option { return []humanize.Option{humanize.WithLocale(s.bare)} })
	add("list", func(s *sharedState) []humanize.Option { return []humanize.Option{humanize.WithLocale(s.list...)} })
	add("list, own", func(s *sharedState) []humanize.Option {
		return []humanize.Option{humanize.WithLocale(s.list...), humanize.WithLocale(s.own)}
	})
	add("own, de", func(s *sharedState) []humanize.Option {
		return []humanize.Option{humanize.WithLocale(s.own, s.de)}
	})
	add("none", func(s *sharedState) []humanize.Option { return nil })
	add("fallback Polish", func(s *sharedState) []humanize.Option {
		return []humanize.Option{humanize.WithLocale(s.list...), humanize.WithBundleOption(spreak.WithFallbackLanguage(language.Polish))}
	})
	add("new de", func(*sharedState) []humanize.Option { return []humanize.Option{humanize.WithLocale(de.New())} })
	return w
}

// ---- exploration

// ref03 answers one call in a process of its own.
func ref03(args []string) {
	time.Local = time.UTC
	i, _ := strconv.Atoi(args[0])
	c := &C{chk: &Check{ID: "C03"}, notes: map[string]any{}, failKeys: map[string]bool{}}
	c.bubbles(1, func(_, _ int) {
		w := worlds03()[i]
		j, _ := strconv.Atoi(args[1])
		r := protect(func() string { return w.ops[j].f(w.mk()) })
		b, _ := json.Marshal(r)
		fmt.Printf("REF%s\n", b)
	})
	os.Exit(0)
}

func runC03(c *C) {
	time.Local = time.UTC
	exe, err := os.Executable()
	if err != nil {
		panic(err)
	}
	type work struct{ w, op int }
	var jobs []work
	var worlds []*world03
	c.bubbles(1, func(_, _ int) { worlds = worlds03() })
	want := make([][]string, len(worlds))
	for i, w := range worlds {
		want[i] = make([]string, len(w.ops))
		for j := range w.ops {
			jobs = append(jobs, work{i, j})
		}
		c.Note("operations: "+w.name, len(w.ops))
	}
	failed := make(chan string, len(jobs))
	// the references: every call once, alone in its process
	only := c.only
	c.only = ""
	c.Par(len(jobs), func(w, k int) {
		j := jobs[k]
		out, err := exec.Command(exe, "c03ref", strconv.Itoa(j.w), strconv.Itoa(j.op)).Output()
		c.beat.Add(1)
		at := bytes.Index(out, []byte("REF"))
		if err != nil || at < 0 || json.Unmarshal(bytes.SplitN(out[at+3:], []byte("\n"), 2)[0], &want[j.w][j.op]) != nil {
			failed <- fmt.Sprint(worlds[j.w].name, " ", worlds[j.w].ops[j.op].name, ": ", err)
		}
	})
	c.only = only
	select {
	case f := <-failed:
		c.Note("reference process failed", f)
		c.capped.Store(true)
		return
	default:
	}
	for _, j := range jobs {
		c.Outcome(want[j.w][j.op])
		if strings.HasPrefix(want[j.w][j.op], "panic:") {
			c.fail("first call: "+worlds[j.w].name+": "+worlds[j.w].ops[j.op].name, want[j.w][j.op], nil)
		}
	}
	// histories, one bubble for each first call
	c.bubbles(len(jobs), func(wk, k int) {
		wi, first := jobs[k].w, jobs[k].op
		w := worlds03()[wi]
		depth := c.Pick(w.qd, w.td)
		hist := []int{first}
		key := func() string {
			var s []string
			for _, i := range hist {
				s = append(s, w.ops[i].name)
			}
			return w.name + ": " + strings.Join(s, " > ")
		}
		run := func() string {
			s := w.mk()
			for n, i := range hist {
				got := protect(func() string { return w.ops[i].f(s) })
				c.trans.Add(1)
				if got != want[wi][i] {
					return fmt.Sprintf("call %d (%s): got %q, as the first call of a process %q", n+1, w.ops[i].name, got, want[wi][i])
				}
			}
			// then every call, one after the other
			for i := range w.ops {
				got := protect(func() string { return w.ops[i].f(s) })
				c.trans.Add(1)
				if got != want[wi][i] {
					return fmt.Sprintf("then %s: got %q, as the first call of a process %q", w.ops[i].name, got, want[wi][i])
				}
			}
			return ""
		}
		var walk func()
		walk = func() {
			if c.Expired() || c.Unknown() >= 40 {
				return
			}
			if len(hist) == depth {
				h := slices.Clone(hist)
				c.Distinct(fmt.Sprint(wi, h))
				c.caseW(wk, key, run)
				return
			}
			for i := range w.ops {
				hist = append(hist, i)
				walk()
				hist = hist[:len(hist)-1]
			}
		}
		walk()
	})
	// long histories: one call again and again, and many different calls, before or after each call
	type long struct{ w, op, flood int }
	var longs []long
	for i, w := range worlds {
		for j := range w.ops {
			longs = append(longs, long{i, j, -1})
			for f := range w.floods {
				longs = append(longs, long{i, j, f})
			}
		}
	}
	c.bubbles(len(longs), func(wk, k int) {
		x := longs[k]
		w := worlds03()[x.w]
		op := w.ops[x.op]
		name := fmt.Sprintf("%s: %s, many times", w.name, op.name)
		if x.flood >= 0 {
			name = fmt.Sprintf("%s: %s > many %s", w.name, op.name, w.floods[x.flood].name)
		}
		c.Distinct(name)
		c.caseW(wk, func() string { return name }, func() string {
			s := w.mk()
			call := func(i int, when string) string {
				got := protect(func() string { return w.ops[i].f(s) })
				c.trans.Add(1)
				if got != want[x.w][i] {
					return fmt.Sprintf("%s: %s: got %q, as the first call of a process %q", when, w.ops[i].name, got, want[x.w][i])
				}
				return ""
			}
			if r := call(x.op, "first call"); r != "" {
				return r
			}
			for k := 1; k < c.Pick(300, 2000) && (k < 150 || !c.Expired()); k++ {
				if x.flood >= 0 {
					w.floods[x.flood].f(s, k)
					c.trans.Add(1)
				} else if r := call(x.op, fmt.Sprint("call ", k+1)); r != "" {
					return r
				}
				c.beat.Add(1)
			}
			for i := range w.ops {
				if r := call(i, "then"); r != "" {
					return r
				}
			}
			return ""
		})
	})
}
