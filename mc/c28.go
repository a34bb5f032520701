package main

import (
	"bytes"
	"errors"
	"fmt"
	"io"
	"slices"
	"strings"
	"testing/fstest"
	"time"

	"golang.org/x/text/language"

	"github.com/vorlif/spreak"
	"github.com/vorlif/spreak/catalog"
	"github.com/vorlif/spreak/catalog/cldrplural"
	"github.com/vorlif/spreak/catalog/po"
	"github.com/vorlif/spreak/humanize"
)

func init() {
	register(&Check{ID: "C28", Level: "exploration",
		Rule: "every ordered list of locale data up to the length bound (languages with regional and script variants, the source language, each with its own formats, some of them, or none, and a good or a missing file) x fallback language x position of the option x every request up to two languages; every text and every named format of the humanizer is compared with a model that asks an own matcher. Non-trivial: collections in which a requested language is loaded.",
		Run:  runC28})
	register(&Check{ID: "C29", Level: "exploration",
		Rule: "every pair and triple of messages of a universe (contexts x ids x lists of references) is put in order by the default sort function; every subset up to a size bound and the whole universe, written by the encoder in the default order, without and with a sort function of the caller. Non-trivial: the pair differs.",
		Run:  runC29})
	register(&Check{ID: "C30", Level: "fault_enumeration",
		Rule: "every file of a set (PO with each encoder setting, JSON) x every way of failing of the writer: at each byte, having taken part of the data or not, at each call, once or for good. Non-trivial: the writer failed.",
		Run:  runC30})
	register(&Check{ID: "C31", Level: "exploration",
		Rule: "every language name assembled from a language, region, script and separator, codeset, modifier, rest of a list, blanks and letter case, and every malformed one of a set, in every option that takes languages, alone and among others. Non-trivial: names that are not the tag's own spelling.",
		Run:  runC31})
}

// loc28 is one locale's data.
type loc28 struct {
	lang string
	form int // 0 none, 1 all, 2 some
	file int // 0 good, 1 missing
}

var formats28 = [7]string{"N j, Y", "P", "N j, Y, P", "F Y", "F j", "m/d/Y", "m/d/Y P"}
var names28 = [7]string{"DATE_FORMAT", "TIME_FORMAT", "DATETIME_FORMAT", "YEAR_MONTH_FORMAT", "MONTH_DAY_FORMAT", "SHORT_DATE_FORMAT", "SHORT_DATETIME_FORMAT"}

// own28 is the n-th format of a locale.
func (l loc28) own(n int) string { return fmt.Sprintf("\\%s\\%d j", string(rune('A'+n)), n) }

func (l loc28) formats() [7]string {
	f := formats28
	for n := range f {
		if l.form == 1 || l.form == 2 && n%2 == len(l.lang)%2 {
			f[n] = "\\" + strings.Join(strings.Split(l.lang, ""), "\\") + l.own(n)
		}
	}
	return f
}

func (l loc28) data() *humanize.LocaleData {
	d := &humanize.LocaleData{Lang: language.MustParse(l.lang)}
	f := l.formats()
	for n := range f {
		if l.form != 1 && f[n] == formats28[n] {
			f[n] = ""
		}
	}
	if l.form != 0 {
		d.Format = &humanize.FormatData{DateFormat: f[0], TimeFormat: f[1], DateTimeFormat: f[2], YearMonthFormat: f[3], MonthDayFormat: f[4], ShortDateFormat: f[5], ShortDatetimeFormat: f[6]}
	}
	fs := fstest.MapFS{}
	if l.file == 0 {
		fs["django.po"] = &fstest.MapFile{Data: []byte(fmt.Sprintf("msgid \"\"\nmsgstr \"\"\n\"Plural-Forms: nplurals=2; plural=n != 1;\\n\"\n\nmsgid \"January\"\nmsgstr \"%[1]s January\"\n\nmsgid \"one\"\nmsgstr \"%[1]s one\"\n\nmsgid \"German\"\nmsgstr \"%[1]s German\"\n\nmsgid \"%%[1]d byte\"\nmsgid_plural \"%%[1]d bytes\"\nmsgstr[0] \"%[1]s %%[1]d octet\"\nmsgstr[1] \"%[1]s %%[1]d octets\"\n", l.lang))}
	}
	d.Fs = fs
	return d
}

func runC28(c *C) {
	langs := []string{"de", "de-AT", "pt-BR", "zh-Hant", "en", "sr-Latn"}
	var all []loc28
	for _, l := range langs {
		for form := 0; form < 3; form++ {
			all = append(all, loc28{l, form, 0})
		}
		all = append(all, loc28{l, 1, 1})
	}
	var lists [][]loc28
	lists = append(lists, nil)
	for _, a := range all {
		lists = append(lists, []loc28{a})
		for _, b := range all {
			if a.lang == b.lang {
				continue
			}
			lists = append(lists, []loc28{a, b})
			for _, d := range all {
				if d.lang != a.lang && d.lang != b.lang && (c.Thorough() || d.form == 1 || a.form == 0 && b.form == 0) {
					lists = append(lists, []loc28{a, b, d})
				}
			}
		}
	}
	reqs := [][]any{nil, {"ja"}, {""}, {"en"}, {"de"}, {"de-CH"}, {"pt"}, {"pt-PT"}, {"zh-TW"}, {"zh"}, {"sr"}, {"ja", "de-AT"}, {"de-AT;q=0.2, pt-BR;q=0.7"}, {language.MustParse("sr-Latn"), "de"}, {5, "zh-HK"}, {"en-GB"}}
	fallbacks := []string{"", "de", "pt-BR", "en"}
	t := time.Date(2021, 1, 5, 16, 7, 0, 0, time.UTC)
	cv := civilOf18(t)
	c.Par(len(lists), func(w, i int) {
		list := lists[i]
		for _, fb := range fallbacks {
			for split := 0; split < 2; split++ { // one option or one for each locale
				name := func() string { return fmt.Sprintf("locales %+v fallback %q split %d", list, fb, split) }
				c.caseW(w, name, func() string {
					var opts []humanize.Option
					var data []*humanize.LocaleData
					for _, l := range list {
						data = append(data, l.data())
					}
					if fb != "" {
						opts = append(opts, humanize.WithBundleOption(spreak.WithFallbackLanguage(fb)))
					}
					if split == 0 {
						opts = append(opts, humanize.WithLocale(data...))
					} else {
						for k := range data {
							opts = append(opts, humanize.WithLocale(data[k]))
						}
						if len(opts) > 1 {
							opts = append(opts[1:], opts[0])
						}
						if fb == "" && len(data) > 1 { // the first locale came last
							list = append(append([]loc28{}, lists[i][1:]...), lists[i][0])
						} else {
							list = lists[i]
						}
					}
					coll, err := humanize.New(opts...)
					loaded := map[string]loc28{}
					var order []language.Tag
					if fb != "" {
						order = append(order, language.MustParse(fb))
					}
					order = append(order, language.English)
					for _, l := range list {
						if l.lang != "en" && l.file == 0 {
							loaded[l.lang] = l
							if l.lang != fb {
								order = append(order, language.MustParse(l.lang))
							}
						}
						if l.lang == "en" { // nothing is loaded for the source language, but it has formats
							loaded[l.lang] = l
							order = append(order, language.English)
						}
					}
					if _, ok := loaded[fb]; fb != "" && fb != "en" && !ok {
						if err == nil {
							return "a missing fallback language is no error"
						}
						return ""
					}
					if err != nil {
						return err.Error()
					}
					m := language.NewMatcher(order)
					for _, req := range reqs {
						want := "en"
						if fb != "" {
							want = fb
						}
						if _, ix, conf := m.Match(c16Tags(req)...); conf > language.No {
							want = order[ix].String()
						}
						h := coll.CreateHumanizer(req...)
						if got := h.Language().String(); got != want {
							return fmt.Sprintf("request %s: language %q, want %q", reqName(req), got, want)
						}
						// texts come from the matched locale, or else from the fallback locale
						from := ""
						for _, l := range []string{want, fb} {
							if l == "en" {
								break
							}
							if _, ok := loaded[l]; ok {
								from = l + " "
								break
							}
						}
						bytes1, bytes5 := "1 byte", "5 bytes"
						if from != "" {
							bytes1, bytes5 = from+"1 octet", from+"5 octets"
						}
						for _, x := range [][3]string{{"FormatTime F", h.FormatTime(t, "F"), from + "January"}, {"Apnumber", h.Apnumber(1), from + "one"}, {"LanguageNameByCode", h.LanguageNameByCode("de"), from + "German"},
							{"FilesizeFormat", h.FilesizeFormat(1), bytes1}, {"FilesizeFormat", h.FilesizeFormat(5), bytes5}, {"FormatTime l", h.FormatTime(t, "l"), "Tuesday"}} {
							if r := diff(fmt.Sprintf("request %s: %s", reqName(req), x[0]), x[1], x[2]); r != "" {
								return r
							}
						}
						fs := formats28
						if l, ok := loaded[want]; ok {
							fs = l.formats()
						}
						tr := func(ctx, id string) string {
							if ctx == "" && (id == "January" || id == "one" || id == "German") {
								return from + id
							}
							return id
						}
						for n, name := range names28 {
							if r := diff(fmt.Sprintf("request %s: %s", reqName(req), name), h.FormatTime(t, name), format18(fs[n], cv, tr)); r != "" {
								return r
							}
						}
						if want != "en" {
							c.Outcome(want + from + fs[0])
						}
					}
					return ""
				})
				list = lists[i]
			}
		}
		c.Distinct(fmt.Sprint(list))
	})
	c.Note("lists", len(lists))
	c.Note("requests", len(reqs))

	// locale data that cannot be read or are no PO file make building fail or the language missing
	for k, x := range []struct {
		text string
		ok   bool
	}{{"msgid \"a\"\nmsgstr \"b\"\n", true}, {"", false}, {"msgid \"a\nmsgstr \"b\"\n", false}, {"msgid \"\"\nmsgstr \"\"\n\"Plural-Forms: nplurals=2; plural=n/0;\\n\"\n", false}, {"nonsense", false}} {
		c.caseW(k, func() string { return fmt.Sprintf("locale file %q", x.text) }, func() string {
			_, err := humanize.New(humanize.WithLocale(&humanize.LocaleData{Lang: language.German, Fs: fstest.MapFS{"django.po": {Data: []byte(x.text)}}}))
			if (err == nil) != x.ok {
				return fmt.Sprintf("New gives the error %v", err)
			}
			return ""
		})
	}
}

type msg29 struct {
	ctx, id string
	refs    []po.Reference
	none    bool // no comment at all
}

func (m msg29) build(reverse bool) *po.Message {
	x := po.NewMessage()
	x.Context, x.ID = m.ctx, m.id
	x.Str[0] = "t"
	if m.none {
		x.Comment = nil
		return x
	}
	for _, r := range m.refs {
		x.Comment.References = append(x.Comment.References, &r)
	}
	if reverse {
		slices.Reverse(x.Comment.References)
	}
	return x
}

func (m msg29) String() string { return fmt.Sprintf("%s/%s%v%v", m.ctx, m.id, m.refs, m.none) }

func refCmp29(a, b po.Reference) int {
	if r := strings.Compare(a.Path, b.Path); r != 0 {
		return r
	}
	if a.Line != b.Line {
		return a.Line - b.Line
	}
	return a.Column - b.Column
}

func sign29(n int) int { return max(-1, min(1, n)) }

func runC29(c *C) {
	R := func(p string, l, col int) po.Reference { return po.Reference{Path: p, Line: l, Column: col} }
	lists := [][]po.Reference{nil, {R("x.go", 1, 0)}, {R("x.go", 2, 0)}, {R("x.go", 10, 0)}, {R("x.go", 1, 7)}, {R("y.go", 1, 0)}, {R("x.go", 1, 0), R("y.go", 1, 0)}, {R("x.go", 1, 0), R("x.go", 2, 0)}, {R("x.go", 0, 0)}, {R("x.go", 2, 0), R("x.go", 10, 0)}, {R("X.go", 3, 0)}, {R("x.go", 1, 0), R("x.go", 1, 7), R("z.go", 3, 0)}}
	var u []msg29
	for _, ctx := range []string{"", "c", "C"} {
		for _, id := range []string{"a", "A", "a "} {
			for _, r := range lists {
				u = append(u, msg29{ctx, id, r, false})
			}
			u = append(u, msg29{ctx, id, nil, true})
		}
	}
	less := make([][]int, len(u))
	c.Par(len(u), func(w, i int) {
		less[i] = make([]int, len(u))
		for j := range u {
			c.caseW(w, func() string { return fmt.Sprintf("order of %s and %s", u[i], u[j]) }, func() string {
				got := sign29(po.DefaultSortFunction(u[i].build(false), u[j].build(false)))
				less[i][j] = got
				if got2 := sign29(po.DefaultSortFunction(u[i].build(true), u[j].build(true))); got2 != got {
					return fmt.Sprintf("%d, but %d when the references are listed in another order", got, got2)
				}
				if back := sign29(po.DefaultSortFunction(u[j].build(false), u[i].build(false))); back != -got {
					return fmt.Sprintf("%d one way and %d the other", got, back)
				}
				sameID := u[i].ctx == u[j].ctx && u[i].id == u[j].id
				if !sameID && got == 0 {
					return "0, though they are different messages"
				}
				if got != 0 && sameID && slices.Equal(u[i].refs, u[j].refs) {
					return fmt.Sprintf("%d, though they are the same message", got)
				}
				if len(u[i].refs) > 0 && len(u[j].refs) > 0 {
					if k := slices.CompareFunc(u[i].refs[:1], u[j].refs[:1], refCmp29); k != 0 && sign29(k) != got {
						return fmt.Sprintf("%d, but the first references compare %d", got, k)
					}
				}
				if slices.Equal(u[i].refs, u[j].refs) {
					k := strings.Compare(u[i].ctx, u[j].ctx)
					if k == 0 {
						k = strings.Compare(u[i].id, u[j].id)
					}
					if k != got {
						return fmt.Sprintf("%d, but context and id compare %d", got, k)
					}
				}
				return ""
			})
			c.Distinct(fmt.Sprint(u[i], u[j]))
		}
	})
	c.Par(len(u), func(w, i int) {
		for j := range u {
			for k := range u {
				c.caseW(w, func() string { return fmt.Sprintf("order of %s, %s and %s", u[i], u[j], u[k]) }, func() string {
					o := func(a, b int) int { return sign29(po.DefaultSortFunction(u[a].build(false), u[b].build(false))) }
					if o(i, j) <= 0 && o(j, k) <= 0 && o(i, k) > 0 {
						return "the first is not after the second, nor the second after the third, but the first is after the third"
					}
					return ""
				})
			}
		}
	})
	// files in the default order
	written := func(ms []msg29, f func(*po.Encoder)) ([]string, string) {
		file := po.NewFile()
		for _, m := range ms {
			file.AddMessage(m.build(false))
		}
		var b bytes.Buffer
		e := po.NewEncoder(&b)
		e.SetWriteHeader(false)
		if f != nil {
			f(e)
		}
		if err := e.Encode(file); err != nil {
			return nil, err.Error()
		}
		var out []string
		ctx := ""
		for _, l := range strings.Split(b.String(), "\n") {
			if s, ok := strings.CutPrefix(l, "msgctxt "); ok {
				ctx = strings.Trim(s, `"`)
			}
			if s, ok := strings.CutPrefix(l, "msgid "); ok {
				out = append(out, ctx+"/"+strings.Trim(s, `"`))
				ctx = ""
			}
		}
		return out, ""
	}
	// message k of the universe with an id of its own
	uniq := func(k int) msg29 {
		m := u[k]
		m.id = fmt.Sprintf("%s%03d", m.id, k)
		return m
	}
	check := func(ks []int) string {
		ms := make([]msg29, len(ks))
		by := map[string]msg29{}
		for x, k := range ks {
			ms[x] = uniq(k)
			by[ms[x].ctx+"/"+ms[x].id] = ms[x]
		}
		got, err := written(ms, nil)
		if err != "" {
			return err
		}
		if len(got) != len(ks) {
			return fmt.Sprintf("%d messages written, want %d", len(got), len(ks))
		}
		for x := range got {
			for y := x + 1; y < len(got); y++ {
				if po.DefaultSortFunction(by[got[x]].build(false), by[got[y]].build(false)) >= 0 {
					return fmt.Sprintf("%s is written before %s", by[got[x]], by[got[y]])
				}
			}
		}
		// the caller's order: every id backwards; and none at all
		back, err := written(ms, func(e *po.Encoder) {
			e.SetSortFunction(func(a, b *po.Message) int { return strings.Compare(b.Context+"/"+b.ID, a.Context+"/"+a.ID) })
		})
		want := slices.Clone(got)
		slices.Sort(want)
		slices.Reverse(want)
		if err != "" || !slices.Equal(back, want) {
			return fmt.Sprintf("with an own sort function the order is %v %s", back, err)
		}
		return ""
	}
	c.Par(len(u), func(w, i int) {
		for j := 0; j < i; j++ {
			for k := 0; k < j; k++ {
				c.caseW(w, func() string { return fmt.Sprintf("file of %s, %s, %s", u[i], u[j], u[k]) }, func() string { return check([]int{i, j, k}) })
			}
		}
	})
	for n := 4; n <= len(u); n++ { // whole files of every size, taken from every part of the universe
		c.Par(len(u), func(w, i int) {
			ks := make([]int, n)
			for x := range ks {
				ks[x] = (i + x*5) % len(u) // 5 and the size of the universe have no common factor
			}
			c.caseW(w, func() string { return fmt.Sprintf("file of %d messages from %d", n, i) }, func() string { return check(ks) })
		})
	}
	c.Note("universe", len(u))
}

// writer30 fails at call number failCall or once it took failByte bytes.
type writer30 struct {
	failCall, failByte int
	partial            bool // takes what fits before failing
	once               bool
	err                error

	got    []byte
	calls  int
	failed bool
}

func (f *writer30) Write(p []byte) (int, error) {
	f.calls++
	n := len(p)
	if (!f.once || !f.failed) && (f.calls-1 == f.failCall || f.failByte >= 0 && len(f.got)+len(p) > f.failByte) {
		f.failed = true
		n = 0
		if f.partial && f.failByte > len(f.got) {
			n = min(len(p), f.failByte-len(f.got))
		}
		f.got = append(f.got, p[:n]...)
		return n, f.err
	}
	f.got = append(f.got, p...)
	return n, nil
}

func runC30(c *C) {
	type job struct {
		name string
		f    func(w io.Writer) error
	}
	var jobs []job
	texts := []string{
		"msgid \"a\"\nmsgstr \"b\"\n",
		"msgid \"\"\nmsgstr \"\"\n\"Language: de\\n\"\n\"X-Own: v\\n\"\n\n#: a.go:1\n#, fuzzy\n#. note\n# trans\nmsgctxt \"c\"\nmsgid \"a b c d e f g\"\nmsgid_plural \"as\"\nmsgstr[0] \"ä b c d e f\"\nmsgstr[1] \"\\\"q\\\"\\n\"\n\nmsgid \"z\"\nmsgstr \"\"\n",
		"",
	}
	for k, text := range texts {
		for s := 0; s < 16; s++ {
			jobs = append(jobs, job{fmt.Sprintf("PO file %d, setting %d", k, s), func(w io.Writer) error {
				e := po.NewEncoder(w)
				if s&1 != 0 {
					e.SetWrapWidth(10)
				}
				e.SetWriteHeader(s&2 == 0)
				e.SetWriteEmptyHeader(s&4 == 0)
				e.SetWriteReferences(s&8 == 0)
				if text == "" {
					return e.Encode(po.NewFile())
				}
				return e.Encode(po.MustParse([]byte(text)))
			}})
		}
	}
	jobs = append(jobs, job{"big PO file", func(w io.Writer) error {
		f := po.NewFile()
		for k := 0; k < 30; k++ {
			m := po.NewMessage()
			m.ID, m.Str[0] = fmt.Sprint("m", k), strings.Repeat("text ", 40)
			f.AddMessage(m)
		}
		return po.NewEncoder(w).Encode(f)
	}})
	for k, text := range []string{`{"a":"b"}`, `{"a":{"one":"x","other":"y <&> ä"},"b_c":{"context":"c","other":"z"},"d":"` + strings.Repeat("long ", 500) + `"}`} {
		jobs = append(jobs, job{fmt.Sprint("JSON catalog ", k), func(w io.Writer) error {
			cat, err := catalog.NewJSONDecoder().Decode(language.English, "d", []byte(text))
			if err != nil {
				panic(err)
			}
			return catalog.NewJSONEncoder(w).Encode(cat.(catalog.JSONCatalog))
		}})
	}
	jobs = append(jobs, job{"no JSON catalog", func(w io.Writer) error { return catalog.NewJSONEncoder(w).Encode(nil) }},
		job{"empty JSON catalog", func(w io.Writer) error {
			return catalog.NewJSONEncoder(w).Encode(catalog.NewJSONCatalog(language.Polish, "d"))
		}},
		job{"built JSON catalog", func(w io.Writer) error {
			cat, err := catalog.NewJSONCatalogWithMessages(language.Polish, "d", catalog.JSONMessages{"k": &catalog.JSONMessage{Translations: map[cldrplural.Category]string{cldrplural.One: "1", cldrplural.Other: "n"}}})
			if err != nil {
				panic(err)
			}
			return catalog.NewJSONEncoder(w).Encode(cat)
		}})
	c.Par(len(jobs), func(w, i int) {
		j := jobs[i]
		good := &writer30{failCall: -1, failByte: -1}
		if !c.caseW(w, func() string { return j.name + ": no fault" }, func() string {
			*good = writer30{failCall: -1, failByte: -1}
			if err := j.f(good); err != nil {
				return err.Error()
			}
			return ""
		}) {
			return
		}
		test := func(f writer30) {
			f.err = fmt.Errorf("disk full")
			c.caseW(w, func() string {
				return fmt.Sprintf("%s: fails at call %d, byte %d, partial %v, once %v", j.name, f.failCall, f.failByte, f.partial, f.once)
			}, func() string {
				x := f
				err := j.f(&x)
				if x.failed && err == nil {
					return fmt.Sprintf("no error, though only %d of %d bytes were taken", len(x.got), len(good.got))
				}
				if x.failed && !errors.Is(err, x.err) {
					return fmt.Sprintf("the writer's error is not preserved: %v", err)
				}
				if !x.failed && err != nil {
					return fmt.Sprintf("error %v though the writer did not fail", err)
				}
				if !bytes.HasPrefix(good.got, x.got) && !x.once {
					return fmt.Sprintf("wrote %q", x.got)
				}
				if x.failed {
					c.Distinct(fmt.Sprint(j.name, f.failCall, f.failByte, f.partial, f.once))
				}
				return ""
			})
		}
		for _, once := range []bool{false, true} {
			for k := 0; k <= good.calls; k++ {
				test(writer30{failCall: k, failByte: -1, once: once})
			}
			for k := 0; k <= len(good.got); k++ {
				for _, p := range []bool{false, true} {
					test(writer30{failCall: -1, failByte: k, partial: p, once: once})
				}
			}
		}
	})
	c.Note("files", len(jobs))
}

// seenLoader31 has a catalog for every language and remembers what it was asked for.
type seenLoader31 struct{ asked *[]string }

func (s seenLoader31) Load(lang language.Tag, domain string) (catalog.Catalog, error) {
	*s.asked = append(*s.asked, lang.String())
	return tagCat{t: lang}, nil
}

func runC31(c *C) {
	type name struct {
		s    string
		want string // "": invalid
	}
	var names []name
	for _, b := range [][2]string{{"de", "de"}, {"de_DE", "de-DE"}, {"de-AT", "de-AT"}, {"sr_Latn_RS", "sr-Latn-RS"}, {"sr-Latn", "sr-Latn"}, {"zh_TW", "zh-TW"}, {"pt_BR", "pt-BR"}, {"ast", "ast"}, {"es-419", "es-419"}, {"DE_de", "de-DE"}, {"ZH-HANT", "zh-Hant"}, {"iw", "iw"}, {"ca-valencia", "ca-valencia"}, {"x_y", "x-y"}, {"", "und"}, {"d", ""}, {"abcdefghi", ""}, {"de__", ""}, {"de DE", ""}, {"C", ""}, {"POSIX", ""}, {"german", ""}, {"de_!", ""}, {"12", ""}} {
		for _, cs := range []string{"", ".UTF-8", ".ISO-8859-1", ".utf8", "."} {
			for _, mod := range []string{"", "@euro", "@latin", "@"} {
				for _, rest := range []string{"", ":en", ":en_US.UTF-8:fr", ":"} {
					for _, blank := range [][2]string{{"", ""}, {" ", ""}, {"", " "}, {"\t", "\n"}} {
						w := b[1]
						if b[0] == "" && w != "" {
							// without any name the language is not defined, if the empty name is one at all
							if _, err := language.Parse(""); err != nil {
								w = ""
							}
						}
						if w != "" {
							w = language.MustParse(strings.ReplaceAll(b[0], "_", "-")).String()
						}
						names = append(names, name{blank[0] + b[0] + blank[1] + cs + mod + rest, w})
						names = append(names, name{blank[0] + b[0] + cs + mod + rest + blank[1], w})
					}
				}
			}
		}
	}
	names = append(names, name{"@de", ""}, name{".de", ""}, name{":de", ""}, name{"de.@:", "de"}, name{"de:@.", "de"}, name{"de@.:", "de"}, name{"de_AT:de", "de-AT"}, name{"de@x.y:z", "de"}, name{"de.x@y", "de"}, name{"de:x.y@z", "de"})
	for k := range names {
		if k >= len(names)-10 && names[k].want == "" {
			if _, err := language.Parse(""); err == nil {
				names[k].want = "und"
			}
		}
	}
	kinds := []string{"WithLanguage", "WithRequiredLanguage", "WithFallbackLanguage"}
	c.Par(len(names), func(w, i int) {
		n := names[i]
		for kind, kn := range kinds {
			for pos := 0; pos < 3; pos++ { // alone, after and before another language
				if kind == 2 && pos > 0 {
					continue
				}
				c.caseW(w, func() string { return fmt.Sprintf("%s(%q) position %d", kn, n.s, pos) }, func() string {
					langs := []any{n.s}
					if pos == 1 {
						langs = []any{"fr", n.s}
					} else if pos == 2 {
						langs = []any{n.s, language.French}
					}
					var asked []string
					opts := []spreak.BundleOption{spreak.WithSourceLanguage(language.English), spreak.WithDomainLoader("", seenLoader31{&asked})}
					switch kind {
					case 0:
						opts = append(opts, spreak.WithLanguage(langs...))
					case 1:
						opts = append(opts, spreak.WithRequiredLanguage(langs...))
					case 2:
						opts = append(opts, spreak.WithFallbackLanguage(n.s))
					}
					b, err := spreak.NewBundle(opts...)
					if n.want == "" || n.want == "und" && kind > 0 {
						if err == nil {
							return fmt.Sprintf("accepted; the loader was asked for %q", asked)
						}
						return ""
					}
					if err != nil {
						return err.Error()
					}
					var want []string
					for _, l := range langs {
						s := n.want
						if l != any(n.s) {
							s = "fr"
						}
						if s != "und" {
							want = append(want, s)
						}
					}
					if r := diff("languages asked for", fmt.Sprint(asked), fmt.Sprint(want)); r != "" {
						return r
					}
					all := []string{"en"}
					if r := diff("SupportedLanguages", fmt.Sprint(b.SupportedLanguages()), fmt.Sprint(append(all, want...))); r != "" {
						return r
					}
					if n.want != "und" {
						tag := language.MustParse(n.want)
						if got := spreak.NewLocalizer(b, tag).Get("m"); got != "m@"+tag.String() {
							return fmt.Sprintf("the text is %q", got)
						}
						if kind == 2 {
							if got := spreak.NewLocalizer(b, "ja").Get("m"); got != "m@"+tag.String() {
								return fmt.Sprintf("the fallback text is %q", got)
							}
						}
						c.Distinct(n.s)
					}
					return ""
				})
			}
		}
	})
	// values that are neither
	for k, v := range []any{nil, 5, []string{"de"}, []byte("de"), language.Base{}, language.MustParseRegion("DE"), ptr("de"), ptr(language.German), nString("de"), fmt.Errorf("de"), struct{}{}, true} {
		for kind, kn := range kinds {
			c.caseW(k, func() string { return fmt.Sprintf("%s(%T)", kn, v) }, func() string {
				var asked []string
				o := spreak.WithFallbackLanguage(v)
				if kind == 0 {
					o = spreak.WithLanguage("fr", v)
				} else if kind == 1 {
					o = spreak.WithRequiredLanguage(v, "fr")
				}
				b, err := spreak.NewBundle(spreak.WithSourceLanguage(language.English), spreak.WithDomainLoader("", seenLoader31{&asked}), o)
				if err == nil || b != nil || !errors.Is(err, spreak.ErrRequireStringTag) {
					return fmt.Sprintf("gives %v and the error %v", b, err)
				}
				return ""
			})
		}
	}
	c.Note("names", len(names))
}
