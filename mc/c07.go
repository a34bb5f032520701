package main

import (
	"bytes"
	"encoding/json"
	"errors"
	"fmt"
	"os"
	"os/exec"
	"slices"
	"sort"
	"strconv"
	"strings"
	"time"

	"golang.org/x/text/language"

	"github.com/vorlif/spreak"
	"github.com/vorlif/spreak/catalog"
	"github.com/vorlif/spreak/catalog/cldrplural"
	"github.com/vorlif/spreak/catalog/po"
	"github.com/vorlif/spreak/humanize"
	"github.com/vorlif/spreak/humanize/locale/ar"
	"github.com/vorlif/spreak/humanize/locale/de"
	"github.com/vorlif/spreak/humanize/locale/pl"
)

func init() {
	register(&Check{ID: "C07", Level: "model_checking",
		Rule: "closed scenarios run with the order of every map iteration chosen by the explorer: for maps of up to 5 entries every permutation, up to 8 every rotation, reversal and exchange of two, beyond that 16 starting points; all choices with up to the stated number of iterations deviating from the first order, and from the last one, and every order in which equal content is inserted. Each execution's result (bytes, categories, languages, texts, errors, callbacks) is compared with that of the first. A state is a sequence of orders executed, a transition one iteration whose order was chosen.",
		Run:  runC07})
}

type scen07 struct {
	name     string
	variants int // insertion orders
	prepare  func() any
	f        func(s any, v int) string
}

// perm07 returns the v-th permutation of s.
func perm07[T any](s []T, v int) []T {
	s = slices.Clone(s)
	var out []T
	for len(s) > 0 {
		i := v % len(s)
		v /= len(s)
		out = append(out, s[i])
		s = slices.Delete(s, i, i+1)
	}
	return out
}

func fact(n int) int {
	if n < 2 {
		return 1
	}
	return n * fact(n-1)
}

func scenarios07() []*scen07 {
	var all []*scen07
	add := func(name string, variants int, f func(v int) string) {
		all = append(all, &scen07{name, variants, func() any { return nil }, func(_ any, v int) string { return f(v) }})
	}

	// writing PO files
	type pm struct{ ctx, id string }
	ids := []pm{{"", "a"}, {"", "b"}, {"c", "a"}, {"d", "a"}}
	file := func(v int, refs bool) *po.File {
		f := po.NewFile()
		f.Header = &po.Header{}
		for _, k := range perm07([]string{"X-One", "x-Two", "X-three", "Language"}, v) {
			f.Header.Set(k, "value of "+k)
		}
		for i, x := range perm07(ids, v) {
			m := po.NewMessage()
			m.Context, m.ID = x.ctx, x.id
			if x.ctx == "c" {
				m.IDPlural = "as"
			}
			for _, k := range perm07([]int{0, 1, 2}, v) {
				if k == 0 || x.ctx == "c" {
					m.Str[k] = fmt.Sprint(x, k)
				}
			}
			if refs {
				// the references of the messages are the same, only when they are added varies
				m.AddReference(&po.Reference{Path: "f" + x.ctx + x.id, Line: 4})
				_ = i
			}
			f.AddMessage(m)
		}
		return f
	}
	sorts := map[string]func(a, b *po.Message) int{
		"default": po.DefaultSortFunction, "none": nil,
		"by id only": func(a, b *po.Message) int { return strings.Compare(a.ID, b.ID) },
		"all alike":  func(a, b *po.Message) int { return 0 },
		"descending": func(a, b *po.Message) int { return strings.Compare(b.Context+b.ID, a.Context+a.ID) },
	}
	for _, name := range []string{"default", "none", "by id only", "all alike", "descending"} {
		for _, refs := range []bool{false, true} {
			add(fmt.Sprint("write PO, sorted: ", name, refs), 24, func(v int) string {
				var b bytes.Buffer
				e := po.NewEncoder(&b)
				e.SetSortFunction(sorts[name])
				err := e.Encode(file(v, refs))
				return b.String() + errText(err)
			})
		}
	}
	add("write PO of many messages", 6, func(v int) string {
		f := po.NewFile()
		for _, c := range perm07([]string{"", "x", "y"}, v) {
			for i := 0; i < 12; i++ {
				m := po.NewMessage()
				m.Context, m.ID = c, fmt.Sprint("id", i)
				m.Str[0] = c + m.ID
				f.AddMessage(m)
			}
		}
		b, err := po.Marshal(f)
		return string(b) + errText(err)
	})
	add("merge PO entries", 24, func(v int) string {
		f := po.NewFile()
		for _, x := range perm07([]string{"1", "2", "3", "4"}, v) {
			m := po.NewMessage()
			m.ID = "a"
			m.AddReference(&po.Reference{Path: "f" + x, Line: 4})
			m.Comment.AddFlag("flag" + x)
			f.AddMessage(m)
		}
		b, err := po.Marshal(f)
		return string(b) + errText(err)
	})
	add("header fields", 24, func(v int) string {
		h := &po.Header{UnknownFields: map[string]string{}}
		for _, k := range perm07([]string{"X-a", "X-b", "x-C", "X-d"}, v) {
			h.Set(k, k)
		}
		return h.Get("x-A") + h.Get("X-B") + h.Get("X-C") + h.Get("x-d") + h.Get("X-e")
	})
	add("header fields spelled alike", 1, func(v int) string {
		h := &po.Header{UnknownFields: map[string]string{"X-Own": "1", "x-own": "2", "X-OWN": "3"}}
		return h.Get("X-Own") + h.Get("x-own") + h.Get("X-OWN")
	})

	// reading
	poText := po03file("ru", "d", rule03ru, 3, "")
	dups := "msgid \"a\"\nmsgstr \"1\"\n\nmsgid \"b\"\nmsgstr \"2\"\n\nmsgid \"b\"\nmsgstr \"3\"\n\nmsgid \"a\"\nmsgstr \"4\"\n"
	small := "msgctxt \"c\"\nmsgid \"a\"\nmsgstr \"1\"\n\nmsgid \"b\"\nmsgid_plural \"bs\"\nmsgstr[0] \"2\"\nmsgstr[1] \"3\"\nmsgstr[2] \"4\"\n\nmsgctxt \"d\"\nmsgid \"e\"\nmsgstr \"5\"\n\n#, fuzzy\nmsgid \"f\"\nmsgstr \"6\"\n"
	badForms := "msgid \"\"\nmsgstr \"Plural-Forms: nplurals=2; plural=n!=1;\\n\"\n\nmsgid \"a\"\nmsgid_plural \"as\"\nmsgstr[0] \"2\"\nmsgstr[5] \"3\"\n\nmsgid \"b\"\nmsgid_plural \"bs\"\nmsgstr[0] \"2\"\nmsgstr[7] \"3\"\n"
	for name, txt := range map[string]string{"full": poText, "duplicates": dups, "small": small, "extra forms": badForms} {
		add("read PO: "+name, 1, func(int) string {
			f, err := po.ParseString(txt)
			return poDump(f, err)
		})
		for i, d := range []catalog.Decoder{catalog.NewPoDecoder(), catalog.NewPoCLDRDecoder()} {
			add(fmt.Sprint("decode PO: ", name, i), 1, func(int) string {
				c, err := d.Decode(language.Russian, "d", []byte(txt))
				if err != nil {
					return errText(err)
				}
				r := dump03(c.(*catalog.GettextCatalog).Messages())
				for _, x := range []string{"a", "b", "e", "f", "day"} {
					for _, ctx := range []string{"", "c", "d"} {
						t, err := c.Lookup(ctx, x)
						u, err2 := c.LookupPlural(ctx, x, 7)
						r += fmt.Sprint(t, err, u, err2, ";")
					}
				}
				return r
			})
		}
		add("read and write PO: "+name, 1, func(int) string {
			f, err := po.ParseString(txt)
			if err != nil {
				return errText(err)
			}
			b, err := po.Marshal(f)
			return string(b) + errText(err)
		})
	}
	sort.Slice(all, func(i, j int) bool { return all[i].name < all[j].name })
	add("decode MO", 1, func(int) string {
		c, err := catalog.NewMoDecoder().Decode(language.Russian, "d", mo03())
		if err != nil {
			return errText(err)
		}
		return dump03(c.(*catalog.GettextCatalog).Messages())
	})

	// JSON catalogs
	type jmsg = catalog.JSONMessage
	cats := func(v int, c ...cldrplural.Category) map[cldrplural.Category]string {
		m := map[cldrplural.Category]string{}
		for _, x := range perm07(c, v) {
			m[x] = x.String()
		}
		return m
	}
	jsonSets := map[string]func(v int) map[string]*jmsg{
		"valid": func(v int) map[string]*jmsg {
			return map[string]*jmsg{"a": {Translations: cats(v, cldrplural.Other)}, "b": {Comment: "c", Translations: cats(v, cldrplural.One, cldrplural.Few, cldrplural.Other, cldrplural.Zero)}, "c_x": {Context: "x", Translations: cats(v, cldrplural.One, cldrplural.Other)}, "d_y": {Context: "y", Translations: cats(v, cldrplural.Other)}}
		},
		"three invalid": func(v int) map[string]*jmsg {
			return map[string]*jmsg{"a": nil, "b": {Context: "x", Translations: cats(v, cldrplural.Other)}, "c": {Translations: cats(v, cldrplural.One)}, "d": {Translations: cats(v, cldrplural.Other)}}
		},
		"empty key": func(v int) map[string]*jmsg {
			return map[string]*jmsg{"": {Translations: cats(v, cldrplural.Other)}, "a": nil, "b": {}}
		},
		"ends alike": func(v int) map[string]*jmsg {
			return map[string]*jmsg{"a_x": {Context: "x", Translations: cats(v, cldrplural.Other)}, "a": {Translations: cats(v, cldrplural.Other)}, "a_x_x": {Context: "x_x", Translations: cats(v, cldrplural.Other)}, "b_x_x": {Context: "x", Translations: cats(v, cldrplural.Other)}}
		},
	}
	for _, name := range []string{"valid", "three invalid", "empty key", "ends alike"} {
		for _, l := range []string{"de", "pl"} {
			add("JSON catalog of messages: "+name+" "+l, 24, func(v int) string {
				set := jsonSets[name](v)
				in := catalog.JSONMessages{}
				var keys []string
				for k := range set {
					keys = append(keys, k)
				}
				sort.Strings(keys)
				for _, k := range perm07(keys, v) {
					in[k] = set[k]
				}
				c, err := catalog.NewJSONCatalogWithMessages(language.MustParse(l), "d", in)
				if err != nil {
					return errText(err)
				}
				var b bytes.Buffer
				err = catalog.NewJSONEncoder(&b).Encode(c)
				m, err2 := json.Marshal(c)
				r := b.String() + errText(err) + string(m) + errText(err2) + dumpJSON03(c.Messages())
				for _, x := range []string{"a", "b", "c", "d", "a_x"} {
					for _, ctx := range []string{"", "x", "y", "x_x"} {
						t, err := c.Lookup(ctx, x)
						r += fmt.Sprint(t, err, ";")
					}
				}
				return r
			})
		}
	}
	texts := []string{
		`{"a":"1","b":{"One":"1","one":"2","ONE":"3","other":"4"},"c_x":{"Context":"x","context":"y","other":"1"}}`,
		`{"b":{"other":"1","OTHER":"2","oTher":"3"},"a":{"few":"1","many":"2","other":"3"}}`,
		`{"a":{"one":"1"},"b":{"two":"2"},"c":{"few":"x"}}`,
		`{"a":1,"b":[],"c":"x"}`, `{"a":{"one":1},"b":{"other":2}}`,
	}
	for i, txt := range texts {
		for _, l := range []string{"de", "pl", "ar"} {
			add(fmt.Sprint("decode JSON ", i, l), 1, func(int) string {
				c, err := catalog.NewJSONDecoder().Decode(language.MustParse(l), "d", []byte(txt))
				if err != nil {
					return errText(err)
				}
				b, err := json.Marshal(c)
				return string(b) + errText(err) + dumpJSON03(c.(catalog.JSONCatalog).Messages())
			})
		}
	}
	// several files read into one catalog; a key may come back with another context
	files := []string{`{"a_c":"0"}`, `{"a_c":{"context":"c","other":"2"}}`, `{"a_c_c":{"context":"c_c","other":"3"}}`, `{"a_c_c":{"context":"c","other":"5"}}`, `{"a_c_c":"6"}`}
	for i, f1 := range files {
		for j, f2 := range files {
			add(fmt.Sprint("JSON files into one catalog ", i, j), 1, func(int) string {
				c := catalog.NewJSONCatalog(language.German, "d")
				r := ""
				for _, f := range []string{f1, f2} {
					r += errText(json.Unmarshal([]byte(f), c))
				}
				b, err := json.Marshal(c)
				return r + string(b) + errText(err) + dumpJSON03(c.Messages())
			})
		}
	}
	for _, l := range []string{"de", "pl", "ar", "ja"} {
		add("plural categories of a message "+l, 6, func(v int) string {
			m := &jmsg{Translations: cats(v, cldrplural.One, cldrplural.Many, cldrplural.Two)}
			catalog.ApplyPluralCategoriesToJSONMessage(language.MustParse(l), m)
			return fmt.Sprint(m.Translations)
		})
	}
	add("write a JSON message", 24, func(v int) string {
		b, err := json.Marshal(jmsg{Comment: "c", Translations: cats(v, cldrplural.One, cldrplural.Few, cldrplural.Other, cldrplural.Zero)})
		return string(b) + errText(err)
	})

	// names a careless order might take for equal
	for _, names := range [][]string{
		{"Open", "open", "OPEN", "oPen"}, {"a1", "a2", "b1", "c9"}, {"9", "10", "010", "1e1"}, {"a", "a ", " a", "a\t"},
		{"a", "ab", "abc", "abcd"}, {"ä", "a", "a\u0308", "Ä"}, {"a.b", "a_b", "a-b", "ab"}, {"x/a", "y/a", "a/x", "a"},
	} {
		add(fmt.Sprintf("JSON keys %q", names), 24, func(v int) string {
			in := catalog.JSONMessages{}
			for _, k := range perm07(names, v) {
				in[k] = &jmsg{Translations: map[cldrplural.Category]string{cldrplural.Other: "text of " + k}}
			}
			b, err := json.Marshal(in)
			r := string(b) + errText(err)
			c, err := catalog.NewJSONCatalogWithMessages(language.German, "d", in)
			if err != nil {
				return r + errText(err)
			}
			b, err = json.Marshal(c)
			var e bytes.Buffer
			err2 := catalog.NewJSONEncoder(&e).Encode(c)
			return r + string(b) + errText(err) + e.String() + errText(err2)
		})
		add(fmt.Sprintf("JSON contexts %q", names), 24, func(v int) string {
			in := catalog.JSONMessages{}
			for _, k := range perm07(names, v) {
				in["a_"+k] = &jmsg{Context: k, Translations: map[cldrplural.Category]string{cldrplural.Other: "text of " + k}}
			}
			c, err := catalog.NewJSONCatalogWithMessages(language.German, "d", in)
			if err != nil {
				return errText(err)
			}
			b, err := json.Marshal(c)
			return string(b) + errText(err)
		})
		for _, by := range []string{"context", "id", "id with references"} {
			add(fmt.Sprintf("PO %s %q", by, names), 24, func(v int) string {
				f := po.NewFile()
				for _, k := range perm07(names, v) {
					m := po.NewMessage()
					m.ID = "id"
					if by == "context" {
						m.Context = k
					} else {
						m.ID = k
					}
					m.Str[0] = "text of " + k
					if by == "id with references" {
						m.AddReference(&po.Reference{Path: "a.go", Line: 3})
					}
					f.AddMessage(m)
				}
				b, err := po.Marshal(f)
				return string(b) + errText(err)
			})
		}
		add(fmt.Sprintf("PO header fields %q", names), 24, func(v int) string {
			f := po.NewFile()
			f.Header = &po.Header{UnknownFields: map[string]string{}}
			for _, k := range perm07(names, v) {
				f.Header.UnknownFields["X-"+k] = k
			}
			b, err := po.Marshal(f)
			return string(b) + errText(err)
		})
		if names[3] != "a" && names[3] != "a\t" {
			add(fmt.Sprintf("domains %q", names), 24, func(v int) string {
				f := memFS{map[string]string{}}
				opts := []spreak.BundleOption{spreak.WithSourceLanguage(language.English), spreak.WithDefaultDomain(names[0]), spreak.WithLanguage("de")}
				for _, k := range perm07(names, v) {
					f.files["de/"+k+".po"] = "msgid \"a\"\nmsgstr \"text of " + k + "\"\n"
					opts = append(opts, spreak.WithDomainFs(k, f))
				}
				b, err := spreak.NewBundle(opts...)
				if err != nil {
					return errText(err)
				}
				l := spreak.NewLocalizer(b, "de")
				r := fmt.Sprintf("%q %q", b.Domains(), l.Domains())
				for _, k := range names {
					r += l.DGet(k, "a")
				}
				return r
			})
		}
	}
	for _, n := range []int{1, 2, 3, 4, 5, 6, 8} {
		add(fmt.Sprint("PO plural forms ", n), min(fact(n), 24), func(v int) string {
			f := po.NewFile()
			m := po.NewMessage()
			m.ID, m.IDPlural = "a", "b"
			var forms []int
			for i := range n {
				forms = append(forms, i)
			}
			for _, i := range perm07(forms, v) {
				m.Str[i] = fmt.Sprint("form ", i)
			}
			f.AddMessage(m)
			b, err := po.Marshal(f)
			return string(b) + errText(err)
		})
	}

	// plural rules given as text
	type rule struct {
		c cldrplural.Category
		s string
	}
	for i, rs := range [][]rule{
		{{cldrplural.One, "n = 1"}, {cldrplural.Two, "n = 1..2"}, {cldrplural.Few, "n = 0..3"}, {cldrplural.Many, "n = 0..4"}},
		{{cldrplural.Other, "n = 5"}, {cldrplural.One, "n = 1..5"}, {cldrplural.Zero, "n = 0..5"}},
		{{cldrplural.One, "n ="}, {cldrplural.Two, "x = 1"}, {cldrplural.Few, "n % = 2"}, {cldrplural.Many, "n = 4"}},
		{{cldrplural.One, "n = 1"}, {cldrplural.Few, "v = 0 and i = 2..4"}, {cldrplural.Many, "v = 0 and i = 3..9"}, {cldrplural.Other, ""}},
		{{cldrplural.Category(9), "n = 1"}, {cldrplural.One, "n = 1"}, {cldrplural.Category(12), "n = 1"}},
	} {
		add(fmt.Sprint("plural rules as text ", i), fact(len(rs)), func(v int) string {
			in := map[cldrplural.Category]string{}
			for _, r := range perm07(rs, v) {
				in[r.c] = r.s
			}
			s, err := cldrplural.ParseRules(in)
			if err != nil {
				return errText(err)
			}
			r := fmt.Sprint(s.Categories)
			for n := 0; n < 11; n++ {
				c, err := s.Evaluate(n)
				r += fmt.Sprint(" ", int(c), err)
			}
			return r
		})
	}

	// bundles
	fsys := fs03()
	fsys.files["es/d2.po"] = poText
	broken := memFS{map[string]string{"de/d1.po": "msgid", "de/d2.po": "x", "de/d3.po": "msgid \"", "de/d4.po": "["}}
	domains := []string{"d1", "d2", "d3", "d4"}
	for name, f := range map[string]memFS{"good": fsys, "broken": broken} {
		for i, langs := range [][]any{{"de", "ru", "pl", "es", "it"}, {"es", "de"}, {"it"}} {
			for _, required := range []bool{false, true} {
				add(fmt.Sprint("bundle ", name, i, required), 24, func(v int) string {
					var log []string
					opts := []spreak.BundleOption{spreak.WithSourceLanguage(language.English), spreak.WithDefaultDomain("d1"),
						spreak.WithMissingTranslationCallback(func(err error) { log = append(log, err.Error()) })}
					// the order in which domains are given
					for _, d := range perm07(domains, v) {
						opts = append(opts, spreak.WithDomainFs(d, f))
					}
					if required {
						opts = append(opts, spreak.WithRequiredLanguage(langs...))
					} else {
						opts = append(opts, spreak.WithLanguage(langs...))
					}
					b, err := spreak.NewBundle(opts...)
					if err != nil {
						return errText(err) + fmt.Sprint(log)
					}
					r := fmt.Sprint(b.Domains(), b.SupportedLanguages(), log)
					for _, want := range []any{"de-CH", "ru", "zh", "es-MX", "pl"} {
						log = nil
						l := spreak.NewLocalizer(b, want)
						r += fmt.Sprint(l.Language(), l.Domains(), l.Get("abc"), l.DGet("d2", "abc"), l.NGet("day", "days", 2), l.LocalizeError(errors.New("broken")), log)
					}
					return r
				})
			}
		}
	}

	// humanizers
	for name, data := range map[string][]*humanize.LocaleData{
		"three":   {de.New(), ar.New(), pl.New()},
		"twice":   {de.New(), pl.New(), {Lang: language.German, Fs: de.New().Fs, Format: &humanize.FormatData{DateFormat: "Y"}}},
		"regions": {{Lang: language.MustParse("de-AT"), Fs: de.New().Fs, Format: de.New().Format}, pl.New(), {Lang: language.MustParse("de-CH"), Fs: de.New().Fs}},
	} {
		add("humanizer "+name, 1, func(int) string {
			c, err := humanize.New(humanize.WithLocale(data...))
			if err != nil {
				return errText(err)
			}
			r := ""
			for _, l := range []any{"de", "de-LI", "pl", "ar-EG", "de-CH", "fr"} {
				h := c.CreateHumanizer(l)
				r += fmt.Sprint(h.Language(), h.Ordinal(3), h.FormatTime(time.Unix(0, 0).UTC(), "DATE_FORMAT"), h.Apnumber(4), h.LanguageName("German"), ";")
			}
			return r
		})
	}

	// every call of the histories check
	for _, w := range worlds03() {
		made := w.name == "lookups" || w.name == "humanize"
		for _, o := range w.ops {
			if made {
				all = append(all, &scen07{w.name + ": " + o.name, 1, w.mk, func(s any, _ int) string { return o.f(s) }})
			} else {
				all = append(all, &scen07{w.name + ": " + o.name, 1, func() any { return nil }, func(any, int) string { return o.f(w.mk()) }})
			}
		}
		if made {
			add("whole world: "+w.name, 1, func(int) string {
				s := w.mk()
				r := ""
				for _, o := range w.ops {
					if strings.HasPrefix(o.name, "ar ") || strings.HasPrefix(o.name, "sw ") {
						continue
					}
					r += o.f(s) + ";"
				}
				return r
			})
		}
	}
	return all
}

type fail07 struct {
	Key, Got, Want string
}

type result07 struct {
	Execs, Points, Distinct int
	Alternatives            int
	Deep, Cut               bool
	Fails                   []fail07
}

type dev07 struct{ pos, choice int }

// run07 explores one scenario in a process of its own.
func run07(args []string) {
	time.Local = time.UTC
	i, _ := strconv.Atoi(args[0])
	budget, _ := strconv.Atoi(args[1])
	only := ""
	if len(args) > 2 {
		only = args[2]
	}
	c := &C{chk: &Check{ID: "C07"}, notes: map[string]any{}, failKeys: map[string]bool{}}
	c.bubbles(1, func(_, _ int) {
		sc := scenarios07()[i]
		var res result07
		outcomes := map[string]bool{}
		exec := func(v, policy int, devs []dev07) (string, []int) {
			s := sc.prepare()
			var sizes []int
			pos, d := 0, 0
			inside := false
			r := protect(func() string {
				setMapOrder(func(n int) int {
					if inside {
						return 0
					}
					inside = true
					defer func() { inside = false }()
					choice := policy * (n - 1)
					if d < len(devs) && devs[d].pos == pos {
						choice = devs[d].choice % n
						d++
					}
					sizes = append(sizes, n)
					pos++
					return choice
				})
				defer setMapOrder(nil)
				return sc.f(s, v)
			})
			res.Execs++
			res.Points += len(sizes)
			outcomes[r] = true
			return r, sizes
		}
		exec(0, 0, nil) // whatever is made once is made now
		want, sizes := exec(0, 0, nil)
		try := func(v, policy int, devs []dev07) {
			key := fmt.Sprint(sc.name, "|", v, "|", policy, "|", devs)
			if only != "" && key != only {
				return
			}
			got, _ := exec(v, policy, devs)
			if got == want || len(res.Fails) >= 3 {
				return
			}
			for k := 0; k < 5; k++ {
				if again, _ := exec(v, policy, devs); again == want {
					return
				}
			}
			res.Fails = append(res.Fails, fail07{key, got, want})
		}
		pairs, sum, sq := 0, 0, 0
		for _, n := range sizes {
			sum += n - 1
			sq += (n - 1) * (n - 1)
		}
		pairs = (sum*sum - sq) / 2
		res.Alternatives = sum
		res.Deep = pairs <= budget
		for v := 0; v < sc.variants; v++ {
			for policy := 0; policy < 2; policy++ {
				try(v, policy, nil)
				if len(res.Fails) > 0 && only == "" {
					continue
				}
				_, sizes := exec(v, policy, nil)
				if v > 0 && 2*sum*sc.variants > 4*budget {
					continue // other insertion orders only with the plain orders
				}
				for p, n := range sizes {
					for ch := 0; ch < n; ch++ {
						if ch == policy*(n-1) {
							continue
						}
						if res.Execs > 20*budget {
							res.Cut = true
							break
						}
						try(v, policy, []dev07{{p, ch}})
						if !res.Deep || v > 0 {
							continue
						}
						for p2 := p + 1; p2 < len(sizes); p2++ {
							for ch2 := 0; ch2 < sizes[p2]; ch2++ {
								if ch2 != policy*(sizes[p2]-1) {
									try(v, policy, []dev07{{p, ch}, {p2, ch2}})
								}
							}
						}
					}
				}
			}
		}
		res.Distinct = len(outcomes)
		b, _ := json.Marshal(res)
		fmt.Printf("RES%s\n", b)
	})
	os.Exit(0)
}

func runC07(c *C) {
	time.Local = time.UTC
	if !mapHook {
		fmt.Println("C07 needs the map order overlay (run.sh)")
		os.Exit(2)
	}
	exe, err := os.Executable()
	if err != nil {
		panic(err)
	}
	var scs []*scen07
	c.bubbles(1, func(_, _ int) { scs = scenarios07() })
	c.Note("scenarios", len(scs))
	budget := c.Pick(8000, 80000)
	only := c.only
	c.only = ""
	order := make([]int, len(scs))
	for i := range order {
		order[i] = len(scs) - 1 - i
	}
	c.Par(len(scs), func(_, k int) {
		i := order[k]
		args := []string{"c07run", strconv.Itoa(i), strconv.Itoa(budget)}
		if only != "" {
			if !strings.HasPrefix(only, scs[i].name+"|") {
				return
			}
			args = append(args, only)
		}
		out, err := exec.Command(exe, args...).CombinedOutput()
		c.beat.Add(1)
		at := bytes.Index(out, []byte("RES"))
		var r result07
		if at < 0 || json.Unmarshal(bytes.SplitN(out[at+3:], []byte("\n"), 2)[0], &r) != nil {
			c.Note("no answer: "+scs[i].name, fmt.Sprint(err, string(out[:min(len(out), 2000)])))
			c.capped.Store(true)
			return
		}
		c.evals.Add(int64(r.Execs))
		c.trans.Add(int64(r.Points))
		c.AddNote("states", int64(r.Execs))
		if r.Points > 0 {
			c.AddNote("scenarios that iterate over maps", 1)
			if r.Deep {
				c.AddNote("scenarios with two deviating iterations", 1)
			}
		}
		if r.Cut {
			c.Note("cut off: "+scs[i].name, fmt.Sprint(r.Execs))
			c.capped.Store(true)
		}
		c.Sample(fmt.Sprintf("%s: %d executions, %d iterations ordered, %d single deviations", scs[i].name, r.Execs, r.Points, r.Alternatives))
		for _, f := range r.Fails {
			c.fail(f.Key, fmt.Sprintf("got %q, with the first order %q", f.Got, f.Want), nil)
		}
	})
}
