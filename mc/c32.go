package main

import (
	"bytes"
	"errors"
	"fmt"
	"io/fs"
	"os"
	"path"
	"path/filepath"
	"slices"
	"strings"
	"time"

	"golang.org/x/text/language"
	"golang.org/x/text/message"

	"github.com/vorlif/spreak"
	"github.com/vorlif/spreak/catalog"
	"github.com/vorlif/spreak/catalog/cldrplural"
	cldrast "github.com/vorlif/spreak/catalog/cldrplural/ast"
	"github.com/vorlif/spreak/catalog/po"
	"github.com/vorlif/spreak/catalog/poplural"
	poast "github.com/vorlif/spreak/catalog/poplural/ast"
	"github.com/vorlif/spreak/humanize"
)

func init() {
	register(&Check{ID: "C32", Level: "exploration",
		Rule: "every source and fallback language x ordered list of languages with a catalog each or none x way and position of setting the printer x printer (one that can only print for languages it was initialised with, the default one, the default one shared by two bundles, a function) x requested language x lookup whose text is that of the matched, the fallback or the source language x argument lists. Non-trivial: lookups that do not end in the requested language.",
		Run:  runC32})
	register(&Check{ID: "C33", Level: "exploration",
		Rule: "every text head + unit repeated + tail over the units of up to the length bound of each reader's alphabet (PO, JSON, MO, Plural-Forms, CLDR rules, plural operands, date formats, numbers, language names, PO strings), repeated to 16 KiB and 64 KiB, for the rule languages to 4 MiB and nested, and for selected units of PO and JSON files to 12 MiB. Each gives a result or an error, within 10 s. Non-trivial: the text was accepted.",
		Run:  runC33})
	register(&Check{ID: "C34", Level: "exploration",
		Rule: "every set of existing files up to a size x way of naming the directory (option, spelling of the path, file system, own loader, system root) x decoders: the same catalog is loaded; and every sequence of loader options up to a length, against a model of which are accepted. Non-trivial: a catalog is found.",
		Run:  runC34})
	register(&Check{ID: "C35", Level: "exploration",
		Rule: "every expression tree up to a number of operators, written with all, without needless, and with redundant parentheses: parsed, compiled to text, read again by an independent C reader and by the parser and evaluated; every CLDR rule up to a number of conditions: its tree visited. Non-trivial: trees with at least two operators, rules with at least two conditions.",
		Run:  runC35})
}

// ---- C32: printers

// strictPrinter knows only the languages it was initialised with.
type strictPrinter struct {
	inits [][]language.Tag
	funcs map[language.Tag]spreak.PrintFunc
	early []language.Tag
	asked []language.Tag
}

func (p *strictPrinter) Init(languages []language.Tag) {
	p.inits = append(p.inits, slices.Clone(languages))
	p.funcs = map[language.Tag]spreak.PrintFunc{}
	for _, l := range languages {
		p.funcs[l] = p.print(l)
	}
}

func (p *strictPrinter) print(l language.Tag) spreak.PrintFunc {
	return func(s string, vars ...any) string { return fmt.Sprintf("%s<%s|%v>", l, s, vars) }
}

func (p *strictPrinter) GetPrintFunc(l language.Tag) spreak.PrintFunc {
	p.asked = append(p.asked, l)
	if len(p.inits) == 0 {
		p.early = append(p.early, l)
	}
	if f := p.funcs[l]; f != nil {
		return f
	}
	return func(s string, vars ...any) string { return fmt.Sprintf("unknown %s<%s|%v>", l, s, vars) }
}

func runC32(c *C) {
	file := func(l string) catalog.Catalog {
		cat, err := catalog.NewPoDecoder().Decode(language.MustParse(l), "d", []byte(fmt.Sprintf("msgid \"\"\nmsgstr \"\"\n\"Plural-Forms: nplurals=2; plural=n != 1;\\n\"\n\nmsgid \"all %%d\"\nmsgstr \"%[1]s all %%d\"\n\nmsgid \"only %[1]s %%d\"\nmsgstr \"%[1]s only %%d\"\n\nmsgid \"one %%d\"\nmsgid_plural \"many %%d\"\nmsgstr[0] \"%[1]s one %%d\"\nmsgstr[1] \"%[1]s many %%d\"\n\nmsgid \"all 5%%%% %%d\"\nmsgstr \"%[1]s all 5%%%% %%d\"\n", l)))
		if err != nil {
			panic(err)
		}
		return cat
	}
	cats := modelLoader{}
	pool := []string{"de", "fr", "pt-BR", "hi"}
	for _, l := range pool {
		cats[l] = file(l)
	}
	var lists [][]string
	lists = append(lists, nil)
	all := append(slices.Clone(pool), "ja", "en") // no catalog for ja; en may be the source
	for _, a := range all {
		lists = append(lists, []string{a})
		for _, b := range all {
			lists = append(lists, []string{a, b})
			if c.Thorough() || a == "de" {
				for _, d := range all {
					lists = append(lists, []string{a, b, d})
				}
			}
		}
	}
	// the default printer itself, also for languages it was not told of
	tags := []string{"und", "en", "en-GB", "en-IN", "de", "de-CH", "de-AT", "es", "es-419", "pt-PT", "hi", "ar-EG", "fr"}
	for _, a := range tags {
		for _, b := range tags {
			c.Case(func() string { return fmt.Sprint("default printer for ", a, " and ", b) }, func() string {
				p := spreak.NewDefaultPrinter()
				p.Init([]language.Tag{language.MustParse(a), language.MustParse(b)})
				for _, l := range tags {
					l := language.MustParse(l)
					got, want := p.GetPrintFunc(l)("%d %s", 1234567, "x"), message.NewPrinter(l).Sprintf("%d %s", 1234567, "x")
					if got != want || p.GetPrintFunc(l)("%d %s") != "%d %s" {
						return diff(l.String(), got, want)
					}
				}
				return ""
			})
		}
	}
	sources := []string{"", "en", "de", "de-CH"}
	fallbacks := []string{"", "de", "fr", "en"}
	reqs := []string{"de", "fr-CA", "pt", "hi", "en-GB", "ja", ""}
	printers := []string{"strict", "default", "shared", "function", "none"}
	dims := []int{len(lists), len(sources), len(fallbacks), len(printers), 3}
	c.Par(size(dims), func(w, i int) {
		x := tuple(i, dims)
		list, src, fb, kind, pos := lists[x[0]], sources[x[1]], fallbacks[x[2]], printers[x[3]], x[4]
		if fb == "en" && src != "en" {
			return // no catalog: building fails
		}
		name := func() string {
			return fmt.Sprintf("languages %v source %q fallback %q printer %s at %d", list, src, fb, kind, pos)
		}
		c.caseW(w, name, func() string {
			var opts []spreak.BundleOption
			var langs []any
			for _, l := range list {
				langs = append(langs, l)
			}
			opts = append(opts, spreak.WithDomainLoader("d", cats), spreak.WithDefaultDomain("d"), spreak.WithLanguage(langs...))
			if src != "" {
				opts = append(opts, spreak.WithSourceLanguage(language.MustParse(src)))
			}
			if fb != "" {
				opts = append(opts, spreak.WithFallbackLanguage(fb))
			}
			strict := &strictPrinter{}
			var opt spreak.BundleOption
			want := func(l language.Tag, s string, vars ...any) string {
				if len(vars) == 0 {
					return s
				}
				return message.NewPrinter(l).Sprintf(s, vars...)
			}
			var other func() string
			switch kind {
			case "strict":
				opt = spreak.WithPrinter(strict)
				want = func(l language.Tag, s string, vars ...any) string { return strict.print(l)(s, vars...) }
			case "default":
				opt = spreak.WithPrinter(spreak.NewDefaultPrinter())
			case "shared":
				p := spreak.NewDefaultPrinter()
				opt = spreak.WithPrinter(p)
				other = func() string {
					b, err := spreak.NewBundle(spreak.WithPrinter(p), spreak.WithDomainLoader("d", cats), spreak.WithLanguage("fr"), spreak.WithDefaultDomain("d"))
					if err != nil {
						return err.Error()
					}
					return spreak.NewLocalizer(b, "fr").Getf("all %d", 1234567)
				}
			case "function":
				opt = spreak.WithPrintFunction(func(s string, vars ...any) string { return fmt.Sprint("f", s, vars) })
				want = func(_ language.Tag, s string, vars ...any) string { return fmt.Sprint("f", s, vars) }
			}
			if opt != nil {
				opts = slices.Insert(opts, []int{0, 2, len(opts)}[pos], opt)
			} else if pos > 0 {
				return ""
			}
			b, err := spreak.NewBundle(opts...)
			if err != nil {
				return "building failed: " + err.Error()
			}
			srcTag := language.Und
			if src != "" {
				srcTag = language.MustParse(src)
			}
			if kind == "strict" {
				if len(strict.inits) != 1 {
					return fmt.Sprintf("the printer was initialised %d times", len(strict.inits))
				}
				if len(strict.early) > 0 {
					return fmt.Sprintf("functions for %v were asked for before the printer was initialised", strict.early)
				}
				for _, l := range b.SupportedLanguages() {
					if !slices.Contains(strict.inits[0], l) {
						return fmt.Sprintf("the printer was not told of %s", l)
					}
				}
				for _, l := range strict.inits[0] {
					if !slices.Contains(b.SupportedLanguages(), l) {
						return fmt.Sprintf("the printer was told of %s, which is not loaded", l)
					}
				}
				if src == "" || !slices.Contains(b.SupportedLanguages(), srcTag) {
					// the printer does not know the source language and answers for it as it likes
					w := want
					want = func(l language.Tag, s string, vars ...any) string {
						if l == srcTag {
							return "unknown " + w(l, s, vars...)
						}
						return w(l, s, vars...)
					}
				}
			}
			if other != nil {
				if got, w := other(), message.NewPrinter(language.French).Sprintf("fr all %d", 1234567); got != w {
					return diff("second bundle with the printer", got, w)
				}
			}
			// the languages loaded, in order
			var loaded []language.Tag
			for _, l := range b.SupportedLanguages() {
				loaded = append(loaded, l)
			}
			for _, r := range reqs {
				l := spreak.NewLocalizer(b, r)
				lang := l.Language()
				texts := func(lang language.Tag, form string) (string, bool) {
					if lang == srcTag || !slices.Contains(loaded, lang) {
						return "", false
					}
					if form == "all %d" || form == "all 5%% %d" || form == "one %d" || form == "only "+lang.String()+" %d" {
						return lang.String() + " " + strings.Replace(form, lang.String()+" ", "", 1), true
					}
					return "", false
				}
				chain := []language.Tag{lang}
				if fb != "" {
					chain = append(chain, language.MustParse(fb))
				}
				for _, id := range []string{"all %d", "only de %d", "only fr %d", "only hi %d", "nothing %d", "none %%", "all 5%% %d", "one %d"} {
					for _, vars := range [][]any{nil, {1234567}, {nil}, {nil, 1234567}, {0}, {""}, {false, nil}, {[]any{}}} {
						wl, wt := srcTag, id
						for _, l := range chain {
							if t, ok := texts(l, id); ok {
								wl, wt = l, t
								break
							}
							if l == srcTag {
								break
							}
						}
						if wl != language.MustParse(orUnd(r)) {
							c.Distinct(fmt.Sprint(src, fb, list, r, id, kind))
						}
						got := l.Getf(id, vars...)
						if id != "one %d" {
							if w := want(wl, wt, vars...); got != w {
								return diff(fmt.Sprintf("request %q, Getf(%q, %v)", r, id, vars), got, w)
							}
							if vars == nil {
								if got, w := l.Get(id), want(wl, wt); got != w {
									return diff(fmt.Sprintf("request %q, Get(%q)", r, id), got, w)
								}
							}
							continue
						}
						got = l.NGetf(id, "many %d", 5, vars...)
						wt = strings.Replace(wt, "one", "many", 1)
						if w := want(wl, wt, vars...); got != w {
							return diff(fmt.Sprintf("request %q, NGetf(%q, %v)", r, id, vars), got, w)
						}
					}
				}
				if got, w := l.Print("%d x", 7654321), want(lang, "%d x", 7654321); got != w {
					return diff(fmt.Sprintf("request %q, Print", r), got, w)
				}
			}
			return ""
		})
	})
}

func orUnd(s string) string {
	if s == "" {
		return "und"
	}
	return s
}

// ---- C33: no input crashes or stalls a reader

// reader33 is one reader of texts.
type reader33 struct {
	name  string
	units []string // its alphabet
	heads []string
	tails []string
	f     func(s string) (accepted bool, bad string)
	deep  bool     // also to 4 MiB
	small bool     // only to 16 KiB
	huge  []string // units also repeated to 12 MiB (or hugeN)
	hugeN int
	len   int      // units of up to so many letters (quick); one more in the thorough tier
	nums  []string // texts with a number in place of every §
}

func readers33() []reader33 {
	both33 := func(result bool, err error) (bool, string) {
		if result == (err != nil) {
			return false, fmt.Sprintf("result %v and error %v", result, err)
		}
		return err == nil, ""
	}
	dec := func(mk func() catalog.Decoder) func(string) (bool, string) {
		return func(s string) (bool, string) {
			cat, err := mk().Decode(language.German, "d", []byte(s))
			if (cat == nil) == (err == nil) {
				return false, fmt.Sprintf("catalog %v and error %v", cat != nil, err)
			}
			if cat != nil {
				_, _ = cat.Lookup("", "a")
				_, _ = cat.LookupPlural("c", "a", 3)
			}
			if d, ok := mk().(catalog.DecoderV2); ok {
				cat2, err2 := d.DecodeReader(language.German, "d", bytes.NewReader([]byte(s)))
				if (err2 == nil) != (err == nil) || (cat2 == nil) == (err2 == nil) {
					return false, fmt.Sprintf("decoding bytes: %v, decoding a reader: %v", err, err2)
				}
			}
			return cat != nil, ""
		}
	}
	header := "msgid \"\"\nmsgstr \"\"\n\"Language: de\\n\"\n\"Plural-Forms: nplurals=2; plural=n != 1;\\n\"\n\n"
	now := time.Date(2021, 3, 4, 5, 6, 7, 8, time.UTC)
	col := humanize.MustNew()
	bundle, err := spreak.NewBundle(spreak.WithSourceLanguage(language.English))
	if err != nil {
		panic(err)
	}
	rule := func(s string) (bool, string) {
		r, err := poplural.Parse(s)
		if r != nil {
			for n := 0; n < 4; n++ {
				_, _ = r.Evaluate(n)
			}
			return true, ""
		}
		if err == nil {
			return false, "neither rule nor error"
		}
		return false, ""
	}
	return []reader33{
		{name: "PO lines", nums: []string{`msgid "a"
msgid_plural "b"
msgstr[§] "x"
`, `msgid "a"
msgid_plural "b"
msgstr[0] "y"
msgstr[§] "x"
`, `#: f:§
msgid "a"
msgstr "\x§"
`, `msgid "a"
msgstr "\§"
`, `msgid ""
msgstr "Plural-Forms: nplurals=§; plural=§;\n"

msgid "a"
msgid_plural "b"
msgstr[0] "x"
`}, len: 2, huge: []string{"#\n", "#.\n", "# t\n", "#. e\n", "#| msgid \"p\"\n", "#~ msgid \"o\"\n", "\n", " \n", "\r\n", "msgid \"#\"\nmsgstr \"x\"\n", "msgid \"\"\n", "#,\n", "\"x\"\n", "# t\n#. e\n#| \"p\"\n"}, f: dec(catalog.NewPoDecoder), heads: []string{"", header, "msgid \"a\"\nmsgstr \"x\"\n", "msgid \"a\"\nmsgid_plural \"p\"\nmsgstr[0] \"x\"\n"}, tails: []string{"", "\nmsgid \"z\"\nmsgstr \"Z\"\n"},
			units: []string{"msgid \"a\"\n", "msgid \"\"\n", "msgid \"#\"\n", "msgctxt \"#\"\n", "msgstr \"x\"\n", "msgid_plural \"p\"\n", "msgstr[0] \"x\"\n", "msgstr[#] \"x\"\n", "\"x\"\n", "\"\\n\"\n", "# t\n", "#. e\n", "#: f:1 g:2\n", "#, f\n", "#| msgid \"p\"\n", "#| \"p\"\n", "#~ msgid \"o\"\n", "\n", "  \n", "\r\n", "\"X-#: a\\n\"\n"}},
		{name: "PO lines with comments", nums: []string{`#: f:§ g
msgid "a"
msgstr ""
`, `#, range: 0..§
msgid "a"
msgid_plural "b"
msgstr[§] ""
`}, len: 1, hugeN: 4 << 20, huge: []string{"# t\n", "#. e\n", "#: f\n", "#, f\n", "#| \"p\"\n", "#~ msgid \"o\"\n", "\"x\"\n", "#:  a:1 b:2 c d:é\n"}, f: func(s string) (bool, string) {
			f, err := po.ParseString(s)
			return both33(f != nil, err)
		}, heads: []string{"", header, "#| msgid \"p\"\n", "#| msgctxt \"p\"\n", "# t\nmsgctxt \"c\"\n", "# t\nmsgid \"a\"\n", "# t\nmsgid \"a\"\nmsgid_plural \"b\"\n"}, tails: []string{"", "msgid \"z\"\nmsgstr \"Z\"\n"},
			units: []string{"# t\n", "#. e\n", "#: f:1 g:2\n", "#, f\n", "#| msgid \"p\"\n", "#| \"p\"\n", "#~ msgid \"o\"\n", "\n", "\"x\"\n", "msgid \"#\"\n"}},
		{name: "PO characters", len: 2, hugeN: 4 << 20, huge: []string{"a", "é", "\xff", "\\", "\\n", "a "}, f: dec(catalog.NewPoDecoder), heads: []string{"", "msgid \"", "msgid \"a\"\nmsgstr \"", "# ", "#: ", "#, ", "msgstr["}, tails: []string{"", "\"\n"},
			units: []string{"\"", "\\", " ", "#", "a", "é", "\x00", "\xff", ":", "1", "[", "\t", "msgid ", "\ufeff"}},
		{name: "PO header", len: 2, small: true, f: dec(catalog.NewPoDecoder), heads: []string{"msgid \"\"\nmsgstr \"\"\n\"", "msgid \"\"\nmsgstr \"\"\n\"Plural-Forms: ", "msgid \"\"\nmsgstr \"\"\n\"Plural-Forms: nplurals=2; plural=", "msgid \"\"\nmsgstr \"\"\n\"Language: "}, tails: []string{"\\n\"\n", ";\\n\"\n\nmsgid \"a\"\nmsgid_plural \"b\"\nmsgstr[0] \"x\"\nmsgstr[1] \"y\"\n"},
			units: []string{"X: a\\n\"\n\"", "X-#: a\\n", "Plural-Forms: nplurals=2; plural=0;\\n", "Language: x\\n", ":", "(", "n", "?1:", "!", " ", ";", "\\n"}},
		{name: "PO CLDR header", len: 1, small: true, f: dec(catalog.NewPoCLDRDecoder), heads: []string{"msgid \"\"\nmsgstr \"\"\n\"X-spreak-use-CLDR: ", "msgid \"\"\nmsgstr \"\"\n\"Plural-Forms: "}, tails: []string{"\\n\"\n"},
			units: []string{"true", "(", "n", " ", "\\n"}},
		{name: "JSON", nums: []string{`{"a": §}`, `{"a": {"other": "x", "context": "§"}}`, `{"a_§": {"other": "%§d", "context": "§"}}`}, len: 2, huge: []string{"[", "{\"a\":", " ", "\"a#\":\"b\",", "\\u0000", "\xff", "{", "1"}, f: dec(func() catalog.Decoder { return catalog.NewJSONDecoder() }), heads: []string{"", "{", "{\"a\":", "{\"a\":{"}, tails: []string{"", "}", "\"a\":\"b\"}", "\"other\":\"b\"}}"},
			units: []string{"{\"a\":", "[", "]", "{", "}", "\"", "\\", "\"a#\":\"b\",", "\"other\":\"x\",", "\"one\":\"x\",", "\"context\":\"c\",", "null", ",", ":", "1", " ", "\\u0000", "\xff"}},
		{name: "MO", len: 1, f: dec(catalog.NewMoDecoder), heads: []string{"", "\xde\x12\x04\x95", "\xde\x12\x04\x95\x00\x00\x00\x00\x02\x00\x00\x00\x1c\x00\x00\x00\x2c\x00\x00\x00\x00\x00\x00\x00", "\x95\x04\x12\xde\x00\x00\x00\x00\x00\x00\x10\x00\x00\x00\x00\x1c\x00\x00\x00\x1c"}, tails: []string{""},
			units: []string{"\x00", "\x01", "\xff", "\x00\x00\x00\x01", "\x1c\x00\x00\x00", "\x00\x00\x00\x1c", "a\x00"}},
		{name: "Plural-Forms", nums: []string{`nplurals=§; plural=0;`, `nplurals=2; plural=n%§;`, `nplurals=2; plural=n>§;`, `nplurals=2; plural=§;`, `nplurals=2; plural=n==§ ? §%n : §;`, `nplurals=§; plural=n%§==§;`}, len: 2, deep: true, f: rule, heads: []string{"", "nplurals=", "nplurals=3; plural=", "nplurals=3; plural=n", "nplurals=3; plural=(", "nplurals=3; plural=n=="}, tails: []string{"", ";", "n;", "1;", "n==1;", "(~);"},
			units: []string{"(", ")", "n", "1", "?1:", "?", ":", "!", "&&n", "||n", "==1", "%2", " ", "\t", ";", "0", "n==1||", "n>2&&", "n?0:", "<"}},
		{name: "CLDR rule", nums: []string{`n = §`, `n = 0..§`, `n = §..§`, `n % § = 1`, `n % § = 0..§`, `n != 0..§,1..§`, `i = §..99999999999 and v = 0`, `n = 1 @integer 0~§, …`, `n = 1 @decimal 0.1~§, 1c§`, `n % 10 = § or n = 0..§`}, len: 2, deep: true, heads: []string{"", "n = 1", "n = 1 ", "n = ", "n % ", "n = 1 @integer 1", "@decimal "}, tails: []string{"", "n = 2", "1", "…", " @integer 1"},
			units: []string{"n", " = ", "1", ",1", ",1..2", "..", "..9", " and n = 2", " or n != 3", "n = 1 or ", "n % 2 = 1 and ", " ", "@integer ", ", 1", "~9", "1~1000000, ", "…", "not ", "%", "e1", "c", "within "},
			f: func(s string) (bool, string) {
				rs, err := cldrplural.ParseRules(map[cldrplural.Category]string{cldrplural.One: s})
				if (rs == nil) == (err == nil) {
					return false, fmt.Sprintf("rule set %v and error %v", rs != nil, err)
				}
				if rs != nil {
					_, _ = rs.Evaluate(3)
				}
				return rs != nil, ""
			}},
		{name: "operands", nums: []string{`§`, `§.5`, `0.§`, `-§`, `1c§`, `1.5c§`, `0c§`, `1c-§`, `§c§`, `0.0c§`, `1e§`, `1e-§`, `1.5e§`, `0x1p§`, `§e§`}, len: 3, deep: true, heads: []string{"", "1", "1.", "-", "1e", "0.1c"}, tails: []string{"", "1", ".5", "e3", "c3"},
			units: []string{"1", "0", "9", ".", "-", "+", "e", "c", " ", "_", "x", "e9", "\x00"},
			f: func(s string) (bool, string) {
				o, err := cldrplural.NewOperands(s)
				if (o == nil) == (err == nil) {
					return false, fmt.Sprintf("operands %v and error %v", o, err)
				}
				return o != nil, ""
			}},
		{name: "counts", nums: []string{`§`, `§.5`, `0.§`, `-§`, `1e§`, `1e-§`, `0e§`, `0x1p§`, `1c§`, `1.5c§`, `0x§`}, len: 2, heads: []string{"", "1", "1.", "-"}, tails: []string{"", "1", "e5", "e999999999"},
			units: []string{"1", "0", ".", "-", "e", "_", " ", "x", ","},
			f: func(s string) (bool, string) {
				f, _ := poplural.ForLanguage(language.Russian)
				_, err := f(s)
				_, _ = spreak.NewLocalizer(bundle, "en").NGet("a", "b", s), err
				h := col.CreateHumanizer("en")
				_, _, _, _ = h.Intcomma(s), h.Intword(s), h.Ordinal(s), h.FilesizeFormat(s)
				return err == nil, ""
			}},
		{name: "date formats", nums: []string{`§`, `\\§`, `%§d`}, len: 2, heads: []string{"", "\\"}, tails: []string{"", "\\"},
			units: strings.Split("aAbBcdDeEfFgGhHiIjlLmMnNoOPrsStTuUwWyYzZ\\ x", ""),
			f: func(s string) (bool, string) {
				return col.CreateHumanizer("en").FormatTime(now, s) != "", ""
			}},
		{name: "language names", nums: []string{`de-§`, `de.§`, `de@§`, `de-x-§`, `de;q=§`, `de-u-nu-§`, `en-§-1`}, len: 2, heads: []string{"", "de", "de-", "x-"}, tails: []string{"", "-DE", ":fr", ".UTF-8"},
			units: []string{"d", "de", "-", "_", ".", ":", "@", ",", ";q=0.5,", " ", "1", "u-ca-a-", "x-a", "é", "-DE", "-abcde"},
			f: func(s string) (bool, string) {
				_, err := spreak.NewBundle(spreak.WithLanguage(s))
				l := spreak.NewLocalizer(bundle, s)
				_ = l.Get("a")
				return err == nil, ""
			}},
		{name: "PO strings", nums: []string{`\\§`, `\\x§`, `%§d`}, len: 3, hugeN: 2 << 20, huge: []string{"a", "é", "\xff", "\\", "a ", " ", "\n", "\"", "\\\"\n"}, heads: []string{"", "a ", "\""}, tails: []string{"", " b", "\""},
			units: []string{"a", " ", "\n", "\"", "\\", "é", "\t", "\u00a0", "\x00", "日", "\xff", "n"},
			f: func(s string) (bool, string) {
				for _, width := range []int{-1, 1, 80} {
					_ = po.EncodePoString(s, width)
				}
				_ = po.DecodePoString(s)
				return true, ""
			}},
		{name: "encoded messages", len: 2, hugeN: 2 << 20, huge: []string{"a", "é", "a ", "\n", "a\n", "\""}, heads: []string{""}, tails: []string{""},
			units: []string{"a", " ", "\n", "#", "\"", "é", "aaaa ", "\n\n", "msgid \"x\"\n"},
			f: func(s string) (bool, string) {
				f := po.NewFile()
				f.Header.Set("X-Long", strings.ReplaceAll(s, "\n", " "))
				m := po.NewMessage()
				m.ID, m.Context, m.Str[0] = s, s, s
				m.Comment.Translator, m.Comment.Extracted, m.Comment.PrevMsgID = s, s, s
				m.AddReference(&po.Reference{Path: "x", Line: 1})
				f.AddMessage(m)
				var b bytes.Buffer
				e := po.NewEncoder(&b)
				e.SetWrapWidth(80)
				return both33(true, e.Encode(f))
			}},
		{name: "merged comments", len: 2, small: true, heads: []string{""}, tails: []string{""},
			units: []string{"a", "#", "\n", " ", "b\n"},
			f: func(s string) (bool, string) {
				f := po.NewFile()
				for i := 0; i < 20; i++ {
					m := po.NewMessage()
					m.ID = "a"
					m.Comment.Translator, m.Comment.Extracted = s, s[i:]
					m.Comment.AddFlag(s[:i])
					m.AddReference(&po.Reference{Path: s[:i], Line: 20 - i})
					f.AddMessage(m)
				}
				return true, ""
			}},
	}
}

// pump33 repeats the unit up to a size; # is the number of the repetition, a ~ in the tail closes the
// parentheses that were opened.
func pump33(head, unit, tail string, n int) string {
	var b strings.Builder
	b.Grow(n + 100)
	b.WriteString(head)
	k := 0
	if strings.Contains(unit, "#:") || !strings.Contains(unit, "#") || strings.HasPrefix(unit, "# ") || strings.HasPrefix(unit, "#.") || strings.HasPrefix(unit, "#,") || strings.HasPrefix(unit, "#|") || strings.HasPrefix(unit, "#~") {
		k = max(1, n/len(unit))
		b.WriteString(strings.Repeat(unit, k))
	} else {
		for ; b.Len() < n; k++ {
			b.WriteString(strings.ReplaceAll(unit, "#", fmt.Sprint(k)))
		}
	}
	if strings.Contains(tail, "~") {
		tail = strings.Replace(tail, "~", "n==1"+strings.Repeat(")", k*strings.Count(unit, "(")), 1)
	}
	b.WriteString(tail)
	return b.String()
}

func runC33(c *C) {
	type job struct {
		r          int
		unit       string
		head, tail string
		n          int
	}
	rs := readers33()
	var jobs []job
	for ri, r := range rs {
		if r.hugeN == 0 {
			r.hugeN = 12 << 20
		}
		for _, u := range r.huge {
			for _, h := range r.heads {
				jobs = append(jobs, job{ri, u, h, r.tails[len(r.tails)-1], r.hugeN})
			}
		}
		limit := r.len + c.Pick(0, 1)
		if len(r.units) > 14 {
			limit = min(limit, 2)
		}
		units := []string{""}
		var all []string
		for l := 1; l <= limit; l++ {
			var next []string
			for _, u := range units {
				for _, x := range r.units {
					next = append(next, u+x)
				}
			}
			units = next
			all = append(all, units...)
		}
		for _, u := range all {
			for hi, h := range r.heads {
				for ti, t := range r.tails {
					jobs = append(jobs, job{ri, u, h, t, 16 << 10})
					long := hi == 0 || ti == 0 || len(u) <= 8
					if !r.small && long {
						jobs = append(jobs, job{ri, u, h, t, 64 << 10})
					}
					if r.deep && slices.Contains(r.units, u) && c.Thorough() {
						jobs = append(jobs, job{ri, u, h, t, 4 << 20})
					}
				}
			}
			if r.deep && c.Quick() && slices.Contains(r.units, u) {
				for _, h := range r.heads {
					jobs = append(jobs, job{ri, u, h, r.tails[len(r.tails)-1], 4 << 20})
				}
			}
		}
	}
	c.Note("readers", len(rs))
	// short texts that name large numbers
	var numbers []string
	for k := 0; k <= 24; k++ {
		p := "1" + strings.Repeat("0", k)
		numbers = append(numbers, p, strings.Repeat("9", k+1))
	}
	numbers = append(numbers, "256", "65536", "2147483647", "2147483648", "4294967295", "4294967296", "9007199254740993", "9223372036854775807", "9223372036854775808", "18446744073709551615", "18446744073709551616", "1"+strings.Repeat("0", 400), "007", "0", "-1")
	type num struct {
		r    int
		text string
	}
	var nums []num
	for ri, r := range rs {
		for _, t := range r.nums {
			at := strings.Count(t, "§")
			for _, a := range numbers {
				if at == 1 || c.Quick() {
					nums = append(nums, num{ri, strings.ReplaceAll(t, "§", a)})
					continue
				}
				for _, b := range numbers {
					nums = append(nums, num{ri, strings.ReplaceAll(strings.Replace(t, "§", a, 1), "§", b)})
				}
			}
		}
	}
	c.Par(len(nums), func(w, i int) {
		r := rs[nums[i].r]
		c.caseW(w, func() string { return fmt.Sprintf("%s: %q", r.name, nums[i].text) }, func() string {
			t := time.Now()
			ok, bad := r.f(nums[i].text)
			if d := time.Since(t); d > 2*time.Second {
				return fmt.Sprintf("a text of %d bytes takes %v", len(nums[i].text), d)
			}
			if ok {
				c.Distinct(nums[i].text)
			}
			return bad
		})
	})
	c.Par(len(jobs), func(w, i int) {
		j := jobs[i]
		r := rs[j.r]
		c.caseW(w, func() string {
			return fmt.Sprintf("%s: %q, %q repeated to %d bytes, %q", r.name, j.head, j.unit, j.n, j.tail)
		}, func() string {
			s := pump33(j.head, j.unit, j.tail, j.n)
			t := time.Now()
			ok, bad := r.f(s)
			if d := time.Since(t); d > 10*time.Second {
				return fmt.Sprintf("takes %v", d)
			}
			if ok {
				c.Distinct(fmt.Sprint(j))
			}
			return bad
		})
	})
}

// ---- C34: naming the files of a domain

func runC34(c *C) {
	dir, err := os.MkdirTemp("", "c34-")
	if err != nil {
		panic(err)
	}
	defer os.RemoveAll(dir)
	cwd, err := os.Getwd()
	if err != nil {
		panic(err)
	}
	// all candidates for de and the domain d
	cands := []string{"de/LC_MESSAGES/d.po", "de/d.po", "de/d.mo", "de/d.json", "d/de.po", "d/de.json", "de.po", "de.mo", "LC_MESSAGES/de.po", "deu/d.po", "fr/d.po", "de/e.po"}
	content := func(name string) string {
		switch path.Ext(name) {
		case ".json":
			return fmt.Sprintf("{\"a\":%q}", name)
		case ".mo":
			return string(moBytes([]moMsg{{"", "Language: de\n"}, {"a", name}}, moLayout{}))
		}
		return fmt.Sprintf("msgid \"a\"\nmsgstr %q\n", name)
	}
	var sets [][]int
	for a := -1; a < len(cands); a++ {
		for b := a; b < len(cands); b++ {
			if b == -1 {
				sets = append(sets, nil)
			} else if a == -1 {
				sets = append(sets, []int{b})
			} else if a != b {
				sets = append(sets, []int{a, b})
			}
		}
	}
	if c.Thorough() {
		for a := range cands {
			for b := range a {
				for d := range b {
					sets = append(sets, []int{d, b, a})
				}
			}
		}
	}
	// a resolver for a file system that is rooted above the directory
	res, err := spreak.NewDefaultResolver()
	if err != nil {
		panic(err)
	}
	c.Par(len(sets), func(w, i int) {
		root := filepath.Join(dir, fmt.Sprint(i), "loc ale")
		if err := os.MkdirAll(root, 0o755); err != nil {
			panic(err)
		}
		mem := memFS{map[string]string{}}
		for _, k := range sets[i] {
			p := filepath.Join(root, cands[k])
			_ = os.MkdirAll(filepath.Dir(p), 0o755)
			if err := os.WriteFile(p, []byte(content(cands[k])), 0o644); err != nil {
				panic(err)
			}
			mem.files[cands[k]] = content(cands[k])
		}
		rel, err := filepath.Rel(cwd, root)
		if err != nil {
			panic(err)
		}
		decoders := map[string][]spreak.FsOption{
			"default":    nil,
			"shorthands": {spreak.WithPoDecoder(), spreak.WithMoDecoder(), spreak.WithJSONDecoder()},
			"named":      {spreak.WithDecoder(".po", catalog.NewPoDecoder()), spreak.WithDecoder(".mo", catalog.NewMoDecoder()), spreak.WithDecoder(".json", catalog.NewJSONDecoder())},
			"json first": {spreak.WithJSONDecoder(), spreak.WithPoDecoder()},
			"mo":         {spreak.WithMoDecoder()},
			"po twice":   {spreak.WithPoDecoder(), spreak.WithPoDecoder()},
		}
		exts := map[string][]string{"default": {".po", ".mo", ".json"}, "shorthands": {".po", ".mo", ".json"}, "named": {".po", ".mo", ".json"}, "json first": {".json", ".po"}, "mo": {".mo"}, "po twice": {".po"}}
		for dn, dopts := range decoders {
			// the documented order
			want := ""
			for _, p := range searchOrder(language.German, "d", "", true, exts[dn]) {
				if _, ok := mem.files[p]; ok && want == "" {
					want = p
				}
			}
			fsl := func(opts ...spreak.FsOption) spreak.BundleOption {
				return spreak.WithFilesystemLoader("d", append(opts, dopts...)...)
			}
			own := func(opts ...spreak.FsOption) spreak.BundleOption {
				l, err := spreak.NewFilesystemLoader(append(dopts[:len(dopts):len(dopts)], opts...)...)
				if err != nil {
					return func() spreak.BundleOption { panic(err) }()
				}
				return spreak.WithDomainLoader("d", l)
			}
			ways := map[string]spreak.BundleOption{
				"WithPath":                fsl(spreak.WithPath(root)),
				"WithPath relative":       fsl(spreak.WithPath(rel)),
				"WithPath trailing slash": fsl(spreak.WithPath(root + "/")),
				"WithPath dots":           fsl(spreak.WithPath(root + "/../loc ale/.")),
				"WithFs":                  fsl(spreak.WithFs(mem)),
				"WithFs DirFS":            fsl(spreak.WithFs(os.DirFS(root))),
				"resolver":                fsl(spreak.WithFs(mem), spreak.WithResolver(res)),
				"own loader":              own(spreak.WithFs(mem)),
				"own loader path":         own(spreak.WithPath(root)),
				"sub resolver":            fsl(spreak.WithFs(os.DirFS(dir)), spreak.WithResolver(subResolver{res, fmt.Sprint(i) + "/loc ale"})),
				"system":                  fsl(spreak.WithSystemFs(), spreak.WithResolver(subResolver{res, strings.TrimPrefix(filepath.ToSlash(root), "/")})),
				"system own":              own(spreak.WithSystemFs(), spreak.WithResolver(subResolver{res, strings.TrimPrefix(filepath.ToSlash(root), "/")})),
			}
			if dn == "default" {
				ways["WithDomainPath"] = spreak.WithDomainPath("d", root)
				ways["WithDomainPath relative"] = spreak.WithDomainPath("d", rel)
				ways["WithDomainFs"] = spreak.WithDomainFs("d", mem)
				ways["WithDomainFs DirFS"] = spreak.WithDomainFs("d", os.DirFS(root))
			}
			for _, wn := range slices.Sorted(func(yield func(string) bool) {
				for k := range ways {
					if !yield(k) {
						return
					}
				}
			}) {
				opt := ways[wn]
				var names []string
				for _, k := range sets[i] {
					names = append(names, cands[k])
				}
				c.caseW(w, func() string { return fmt.Sprintf("files %v decoders %s: %s", names, dn, wn) }, func() string {
					b, err := spreak.NewBundle(opt, spreak.WithDefaultDomain("d"), spreak.WithLanguage("de"))
					if err != nil {
						return err.Error()
					}
					l := spreak.NewLocalizer(b, "de")
					if want == "" {
						if b.CanLocalize() || len(b.SupportedLanguages()) > 0 || l.HasLocale() {
							return "a catalog was found, but there is none"
						}
						_, err := spreak.NewBundle(opt, spreak.WithRequiredLanguage("de"))
						var nf *spreak.ErrNotFound
						if !errors.As(err, &nf) {
							return fmt.Sprintf("required language: error %v", err)
						}
						return ""
					}
					c.Distinct(fmt.Sprint(names, wn, dn))
					if got := l.Get("a"); got != want {
						return diff("catalog", got, want)
					}
					return ""
				})
			}
		}
	})
	// options
	res2 := subResolver{res, "x"}
	type opt struct {
		name string
		o    spreak.FsOption
	}
	opts := []opt{
		{"WithFs", spreak.WithFs(memFS{map[string]string{"de.po": content("de.po")}})}, {"WithPath", spreak.WithPath(dir)}, {"WithSystemFs", spreak.WithSystemFs()},
		{"WithResolver", spreak.WithResolver(res)}, {"WithResolver 2", spreak.WithResolver(res2)}, {"WithResolver nil", spreak.WithResolver(nil)}, {"WithPoDecoder", spreak.WithPoDecoder()}, {"WithJSONDecoder", spreak.WithJSONDecoder()}, {"nil", nil},
	}
	for l := 0; l <= c.Pick(4, 5); l++ {
		dims := make([]int, l)
		for i := range dims {
			dims[i] = len(opts)
		}
		c.Par(size(dims), func(w, i int) {
			x := tuple(i, dims)
			var names []string
			var os []spreak.FsOption
			fss, ress, bad := 0, 0, false
			for _, k := range x {
				names = append(names, opts[k].name)
				os = append(os, opts[k].o)
				switch {
				case opts[k].o == nil:
					bad = true
				case k < 3:
					fss++
				case k < 6:
					// fails when there already is one
					bad = bad || ress > 0
					if k < 5 {
						ress++
					}
				}
			}
			bad = bad || fss != 1
			c.caseW(w, func() string { return fmt.Sprint("options ", names) }, func() string {
				l, err := spreak.NewFilesystemLoader(os...)
				if (err != nil) != bad {
					return fmt.Sprintf("error %v, want an error: %v", err, bad)
				}
				if err != nil {
					if l != nil {
						return "a loader and an error"
					}
				} else if l == nil {
					return "no loader"
				}
				_, err = spreak.NewBundle(spreak.WithFilesystemLoader("d", os...))
				if (err != nil) != bad {
					return fmt.Sprintf("bundle: error %v, want an error: %v", err, bad)
				}
				return ""
			})
		})
	}
}

// subResolver resolves below a directory.
type subResolver struct {
	r   spreak.Resolver
	dir string
}

func (s subResolver) Resolve(fsys fs.FS, ext string, lang language.Tag, domain string) (string, error) {
	sub, err := fs.Sub(fsys, s.dir)
	if err != nil {
		return "", err
	}
	p, err := s.r.Resolve(sub, ext, lang, domain)
	return path.Join(s.dir, p), err
}

// ---- C35: the syntax trees of plural rules

var ops35 = []string{"%", "<", ">=", "==", "!=", "&&", "||"}

func prec35(op string) int {
	for i, l := range cprec {
		if slices.Contains(l, op) {
			return i
		}
	}
	return 9
}

// text35 writes a tree; mode 0: all parentheses, 1: only the needed ones, 2: needed ones twice.
func text35(n *cnode, mode int) string {
	switch n.op {
	case "n":
		return "n"
	case "num":
		return fmt.Sprint(n.v)
	}
	sub := func(x *cnode, min int) string {
		s := text35(x, mode)
		p := 9
		if x.op == "?" {
			p = -1
		} else if x.op != "n" && x.op != "num" {
			p = prec35(x.op)
		}
		if mode == 0 && p < 9 {
			return "(" + s + ")"
		}
		if p < min {
			if mode == 2 {
				return "( (" + s + "))"
			}
			return "(" + s + ")"
		}
		return s
	}
	if n.op == "?" {
		return sub(n.a, 0) + " ? " + sub(n.b, -1) + " : " + sub(n.c, -1)
	}
	p := prec35(n.op)
	left := p + 1
	if n.op == "&&" || n.op == "||" {
		left = p
	}
	return sub(n.a, left) + " " + n.op + " " + sub(n.b, p+1)
}

func trees35(k int, leaves []*cnode) []*cnode {
	if k == 0 {
		return leaves
	}
	var out []*cnode
	for a := 0; a < k; a++ {
		for _, x := range trees35(a, leaves) {
			for _, y := range trees35(k-1-a, leaves) {
				for _, op := range ops35 {
					out = append(out, &cnode{op: op, a: x, b: y})
				}
			}
		}
	}
	for a := 0; a < k; a++ {
		for b := 0; a+b < k; b++ {
			for _, x := range trees35(a, leaves) {
				for _, y := range trees35(b, leaves) {
					for _, z := range trees35(k-1-a-b, leaves) {
						out = append(out, &cnode{op: "?", a: x, b: y, c: z})
					}
				}
			}
		}
	}
	return out
}

func runC35(c *C) {
	num := func(v int64) *cnode { return &cnode{op: "num", v: v} }
	nn := &cnode{op: "n"}
	counts := []int64{0, 1, 2, 3, 4, 5, 7, 11, 12, 13, 23, 24, 100, 112}
	check := func(w int, t *cnode, size int) {
		for mode := 0; mode < 3; mode++ {
			text := fmt.Sprintf("nplurals=3; plural=%s;", text35(t, mode))
			c.caseW(w, func() string { return text }, func() string {
				forms, err := poast.Parse(text)
				if err != nil {
					return "rejected: " + err.Error()
				}
				if size >= 2 {
					c.Distinct(text)
				}
				out := poast.CompileToString(forms)
				expr, ok := strings.CutPrefix(out, "nplurals=3; plural=")
				expr, ok2 := strings.CutSuffix(expr, ";")
				if !ok || !ok2 {
					return "compiled to " + q(out)
				}
				root, _, ok := parseC(tokenizeC(expr))
				if !ok {
					return fmt.Sprintf("compiled to %q, which is no expression", out)
				}
				again, err := poast.Parse(out)
				if err != nil {
					return fmt.Sprintf("compiled to %q, which is rejected: %v", out, err)
				}
				out2 := poast.CompileToString(again)
				expr2, ok := strings.CutPrefix(out2, "nplurals=3; plural=")
				root2, _, ok2 := parseC(tokenizeC(strings.TrimSuffix(expr2, ";")))
				if !ok || !ok2 {
					return fmt.Sprintf("compiled to %q, and that to %q", out, out2)
				}
				for _, n := range counts {
					v, def := t.eval(n)
					got, def2 := root.eval(n)
					if def && (v != got || !def2) {
						return fmt.Sprintf("compiled to %q, which is %d for %d, the rule is %d", out, got, n, v)
					}
					got2, def2 := root2.eval(n)
					if def && (v != got2 || !def2) {
						return fmt.Sprintf("compiled to %q, and that to %q, which is %d for %d, the rule is %d", out, out2, got2, n, v)
					}
				}
				return ""
			})
		}
	}
	for k := 0; k <= 3; k++ {
		leaves := []*cnode{nn, num(1), num(12)}
		if k < 3 {
			leaves = append(leaves, num(0), num(100))
		} else if c.Quick() {
			leaves = leaves[:2]
		}
		ts := trees35(k, leaves)
		c.Par(len(ts), func(w, i int) { check(w, ts[i], k) })
	}
	{
		leaves := []*cnode{nn}
		if c.Thorough() {
			leaves = append(leaves, num(1))
		}
		ts := trees35(4, leaves)
		c.Par(len(ts), func(w, i int) { check(w, ts[i], 4) })
	}
	// the published headers
	for _, h := range headers() {
		c.Case(func() string { return h }, func() string {
			forms, err := poast.Parse(h)
			if err != nil {
				return err.Error()
			}
			np, toks := splitHeader(h)
			out := poast.CompileToString(forms)
			np2, toks2 := splitHeader(out)
			a, _, ok := parseC(toks)
			b, _, ok2 := parseC(toks2)
			if np != np2 || !ok || !ok2 {
				return "compiled to " + q(out)
			}
			for n := int64(0); n < 1200; n++ {
				x, _ := a.eval(n)
				y, _ := b.eval(n)
				if x != y {
					return fmt.Sprintf("compiled to %q, which is %d for %d, the rule is %d", out, y, n, x)
				}
			}
			return ""
		})
	}
	// CLDR rules: the nodes in the order of the text
	type rel struct {
		text  string
		nodes []string
	}
	var rels []rel
	for _, left := range []rel{{"n", []string{"operand n"}}, {"i % 10", []string{"modulo 10", "operand i"}}, {"t", []string{"operand t"}}} {
		for _, op := range []string{" = ", " != "} {
			for _, right := range []rel{{"1", []string{"list", "value 1"}}, {"2..4", []string{"list", "range 2..4"}}, {"1,3", []string{"list", "value 1", "list", "value 3"}}, {"5,7..9,11", []string{"list", "value 5", "list", "range 7..9", "list", "value 11"}}} {
				rels = append(rels, rel{left.text + op + right.text, slices.Concat([]string{"relation" + op}, left.nodes, right.nodes)})
			}
		}
	}
	var build func(rs []rel, ands []bool) []string
	build = func(rs []rel, ands []bool) []string {
		if i := slices.Index(ands, false); i >= 0 {
			return slices.Concat([]string{"or"}, build(rs[:i+1], ands[:i]), build(rs[i+1:], ands[i+1:]))
		}
		if len(ands) > 0 {
			return slices.Concat([]string{"and"}, rs[0].nodes, build(rs[1:], ands[1:]))
		}
		return rs[0].nodes
	}
	for k := 1; k <= c.Pick(3, 4); k++ {
		pool := rels
		if k >= 3 {
			pool = []rel{rels[0], rels[3], rels[9], rels[14], rels[19]}
		}
		dims := []int{1 << (k - 1)}
		for range k {
			dims = append(dims, len(pool))
		}
		c.Par(size(dims), func(w, i int) {
			x := tuple(i, dims)
			var rs []rel
			var ands []bool
			text := ""
			for n := range k {
				if n > 0 {
					and := x[0]>>(n-1)&1 == 1
					ands = append(ands, and)
					text += map[bool]string{true: " and ", false: " or "}[and]
				}
				rs = append(rs, pool[x[1+n]])
				text += pool[x[1+n]].text
			}
			want := build(rs, ands)
			c.caseW(w, func() string { return text }, func() string {
				rule, err := cldrast.Parse(text)
				if err != nil {
					return err.Error()
				}
				if k >= 2 {
					c.Distinct(text)
				}
				return visit35(rule.Root, want)
			})
		})
	}
}

func node35(n cldrast.Node) string {
	switch n := n.(type) {
	case *cldrast.OperandExpr:
		return "operand " + n.Operand
	case *cldrast.ValueExpr:
		return fmt.Sprint("value ", n.Value)
	case *cldrast.RangeExpr:
		return fmt.Sprintf("range %d..%d", n.From, n.To)
	case *cldrast.RangeListExpr:
		return "list"
	case *cldrast.ModuloExpr:
		return fmt.Sprint("modulo ", n.Value)
	case *cldrast.InRelationExpr:
		if n.Op == cldrast.NotEqual {
			return "relation != "
		}
		return "relation = "
	case *cldrast.BinaryExpr:
		if n.Op == cldrast.And {
			return "and"
		}
		return "or"
	}
	return fmt.Sprintf("%T", n)
}

// level35 is a visitor that knows at which level of the tree it is.
type level35 struct {
	level int
	log   *[]string
}

func (v level35) Visit(n cldrast.Node) cldrast.Visitor {
	if n == nil {
		*v.log = append(*v.log, fmt.Sprint("end of ", v.level))
		return nil
	}
	*v.log = append(*v.log, fmt.Sprint(v.level, " ", node35(n)))
	return level35{v.level + 1, v.log}
}

// visit35 compares the nodes visited with those of the text, and what is visited if a node is left out.
func visit35(root cldrast.Node, want []string) string {
	var got []string
	open := 0
	var ends []int // nodes at which the visit of each node ends
	var stack []int
	cldrast.Inspect(root, func(n cldrast.Node) bool {
		if n == nil {
			open--
			if len(stack) > 0 {
				ends[stack[len(stack)-1]] = len(got)
				stack = stack[:len(stack)-1]
			}
			return false
		}
		open++
		stack = append(stack, len(got))
		ends = append(ends, 0)
		got = append(got, node35(n))
		return true
	})
	if !slices.Equal(got, want) {
		return diff("nodes visited", fmt.Sprint(got), fmt.Sprint(want))
	}
	if open != 0 {
		return fmt.Sprintf("%d visits were not ended", open)
	}
	// the visitor that a node returns is used for its children, and is told of their end
	var log, wantLog []string
	cldrast.Walk(level35{0, &log}, root)
	var within []int
	for k := 0; k <= len(want); k++ {
		for len(within) > 0 && ends[within[len(within)-1]] <= k {
			wantLog = append(wantLog, fmt.Sprint("end of ", len(within)))
			within = within[:len(within)-1]
		}
		if k < len(want) {
			wantLog = append(wantLog, fmt.Sprint(len(within), " ", want[k]))
			within = append(within, k)
		}
	}
	if !slices.Equal(log, wantLog) {
		return diff("visitors", fmt.Sprint(log), fmt.Sprint(wantLog))
	}
	for skip := range want {
		var part []string
		i := 0
		cldrast.Inspect(root, func(n cldrast.Node) bool {
			if n == nil {
				return false
			}
			part = append(part, node35(n))
			i++
			return i-1 != skip
		})
		w := slices.Concat(want[:skip+1], want[ends[skip]:])
		if !slices.Equal(part, w) {
			return diff(fmt.Sprintf("nodes visited without the children of node %d", skip), fmt.Sprint(part), fmt.Sprint(w))
		}
	}
	return ""
}
