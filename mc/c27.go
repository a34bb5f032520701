package main

import (
	"fmt"
	"sort"
	"strings"

	"golang.org/x/text/language"

	"github.com/vorlif/spreak/catalog"
	"github.com/vorlif/spreak/catalog/cldrplural"
)

func init() {
	register(&Check{ID: "C27", Level: "exploration",
		Rule: "decoder (PO, PO-CLDR, MO, MO-CLDR) x language (with and without CLDR rules, regional variants) x Plural-Forms header (absent, spellings of several rules, invalid) x X-spreak-use-CLDR (absent, spellings of true and false) x where the header stands x forms present in the file; every count of the window looked up; non-trivial: the rules in play select different forms for that count",
		Run:  runC27})
}

type c27cfg struct {
	dec, lang, head, use, forms int
}

func runC27(c *C) {
	decs := []struct {
		name string
		mo   bool
		cldr bool
		d    catalog.Decoder
	}{
		{"po", false, false, catalog.NewPoDecoder()}, {"po-cldr", false, true, catalog.NewPoCLDRDecoder()},
		{"mo", true, false, catalog.NewMoDecoder()}, {"mo-cldr", true, true, catalog.NewMoCLDRDecoder()},
	}
	base := map[string]string{"de-AT": "de", "pt-BR": "pt", "zh-Hant-TW": "zh", "sr-Cyrl": "sr"}
	langs := []string{"de", "fr", "pl", "cs", "ar", "ja", "lv", "ga", "sl", "cy", "lt", "ro", "he", "de-AT", "sr-Cyrl", "zh-Hant-TW", "pt-PT", "tlh", "la", "und"}
	ref := map[string]*cldrLang{}
	for _, l := range cldrLangs() {
		for _, n := range l.names {
			ref[strings.ReplaceAll(n, "_", "-")] = l
		}
	}
	delete(ref, "und") // no language: the English rule
	heads := []struct {
		line string // the value; "-": no such field
		ok   bool
	}{
		{"-", true}, {"", true},
		{"nplurals=2; plural=(n != 1);", true},
		{"nplurals=2; plural=(n == 1);", true}, // unlike any CLDR rule
		{"nplurals=3; plural=(n==0 ? 2 : n==1 ? 0 : 1);", true},
		{"nplurals=1; plural=0;", true},
		{"nplurals=2;plural=n>1;", true},
		{"nplurals=6; plural=n%6;", true},
		{"nplurals=4; plural=n%100==1?3:n%100==2?2:n%100==3||n%100==4?1:0;", true},
		{"nplurals=2; plural=(n != 1", false},
		{"nplurals=x; plural=n;", false},
		{"plural", false},
	}
	uses := []struct {
		line string
		on   bool
	}{{"", false}, {"X-spreak-use-CLDR: true", true}, {"X-Spreak-Use-CLDR: TRUE", true}, {"x-spreak-use-cldr: True", true}, {"X-spreak-use-CLDR: false", false}, {"X-spreak-use-CLDR:", false}, {"X-spreak-use-CLDR: yes", false}, {"X-spreak-use-CLDR: untrue", false}, {"X-spreak-use-CLDR: true, false", false}}
	formSets := [][]int{{0, 1, 2, 3, 4, 5}, {0, 1}, {0}, {0, 2, 3}, {1, 2, 3}, {3, 2, 1, 0}}
	if c.Thorough() {
		langs = langs[:len(langs)-2] // la, und come last
		for n := range ref {
			found := false
			for _, x := range langs {
				found = found || x == n
			}
			if !found {
				langs = append(langs, n)
			}
		}
		langs = append(langs, "la", "und")
		sort.Strings(langs)
		formSets = append(formSets, []int{0, 1, 2, 3, 4}, []int{0, 1, 2, 3}, []int{0, 1, 2}, []int{5, 1}, []int{})
	}
	counts := []int64{}
	for n := int64(0); n <= int64(c.Pick(130, 1300)); n++ {
		counts = append(counts, n)
	}
	counts = append(counts, 1000, 1001, 1002, 10000, 100000, 1000000, 1000001, 2000000, 1<<31, 1e12)
	decimals := []string{"0.0", "1.0", "1.5", "0.5", "2.00", "11.1", "1.31", "100.2"}

	places := []string{"first", "first, fuzzy", "last", "last, fuzzy"}
	dims := []int{len(decs), len(langs), len(heads), len(uses), len(formSets), len(places)}
	c.Note("languages", len(langs))
	c.Par(size(dims), func(w, i int) {
		ix := tuple(i, dims)
		d, lang, head, use, forms := decs[ix[0]], langs[ix[1]], heads[ix[2]], uses[ix[3]], formSets[ix[4]]
		place := places[ix[5]]
		if d.mo && ix[5] > 0 {
			return
		}
		key := func() string {
			return fmt.Sprintf("%s %s Plural-Forms=%q %q forms=%v header %s", d.name, lang, head.line, use.line, forms, place)
		}
		c.caseW(w, key, func() string {
			return c27Case(c, d.mo, d.cldr, d.d, lang, ref, base, head.line, head.ok, use.line, use.on, forms, place, counts, decimals)
		})
	})
}

func c27Case(c *C, mo, cldr bool, d catalog.Decoder, lang string, ref map[string]*cldrLang, base map[string]string, head string, ok bool, use string, on bool, forms []int, place string, counts []int64, decimals []string) string {
	// the file
	var hl []string
	hl = append(hl, "Content-Type: text/plain; charset=UTF-8")
	if use != "" {
		hl = append(hl, use)
	}
	if head != "-" {
		hl = append(hl, "Plural-Forms: "+head)
	}
	hl = append(hl, "Language: xx")
	header := strings.Join(hl, "\n") + "\n"
	if head == "-" && use == "" && len(forms) == 2 {
		header = "" // no header entry at all
	}
	var data []byte
	if mo {
		var msgs []moMsg
		if header != "" {
			msgs = append(msgs, moMsg{"", header})
		}
		msgs = append(msgs, moMsg{"a", "tr a"})
		maxf := -1
		has := map[int]bool{}
		for _, f := range forms {
			has[f] = true
			maxf = max(maxf, f)
		}
		var s []string
		for k := 0; k <= maxf; k++ {
			if has[k] {
				s = append(s, fmt.Sprintf("f%d", k))
			} else {
				s = append(s, "")
			}
		}
		msgs = append(msgs, moMsg{"s\x00p", strings.Join(s, "\x00")}, moMsg{"ctx\x04s\x00p", strings.Join(s, "\x00")})
		data = moBytes(msgs, moLayout{big: len(forms)%2 == 0})
	} else {
		var b strings.Builder
		writeHeader := func() {
			if header == "" {
				return
			}
			if strings.Contains(place, "fuzzy") {
				b.WriteString("# TEMPLATE\n#, fuzzy\n")
			}
			b.WriteString("msgid \"\"\nmsgstr \"\"\n")
			for _, l := range hl {
				fmt.Fprintf(&b, "\"%s\\n\"\n", l)
			}
			b.WriteString("\n")
		}
		if strings.HasPrefix(place, "first") {
			writeHeader()
		}
		b.WriteString("msgid \"a\"\nmsgstr \"tr a\"\n")
		for _, ctx := range []string{"", "ctx"} {
			b.WriteString("\n")
			if ctx != "" {
				b.WriteString("msgctxt \"ctx\"\n")
			}
			b.WriteString("msgid \"s\"\nmsgid_plural \"p\"\n")
			for _, k := range forms {
				fmt.Fprintf(&b, "msgstr[%d] \"f%d\"\n", k, k)
			}
			if len(forms) == 0 {
				b.WriteString("msgstr[0] \"\"\n")
			}
		}
		if strings.HasPrefix(place, "last") {
			b.WriteString("\n")
			writeHeader()
		}
		data = []byte(b.String())
	}
	// which rule
	cl := ref[lang]
	if cl == nil {
		if b, o := base[lang]; o {
			cl = ref[b]
		}
	}
	hasHead := head != "-" && head != ""
	useHead := hasHead && (!(cldr || on) || cl == nil)
	tag := language.MustParse(lang)
	cat, err := d.Decode(tag, "dom", data)
	if useHead && !ok {
		if err == nil {
			return "invalid Plural-Forms header accepted"
		}
		return ""
	}
	if err != nil {
		return "decoding failed: " + err.Error()
	}
	if cat.Language() != tag {
		return "language " + cat.Language().String()
	}
	var rule func(dec) int
	if useHead {
		_, toks := splitHeader(head)
		root, _, pok := parseC(toks)
		if !pok {
			return "check error: " + head
		}
		rule = func(x dec) int {
			v, _ := root.eval(x.i)
			return int(v)
		}
	} else {
		english := cl == nil
		r := cl
		if english {
			r = ref["en"]
		}
		order := []cldrplural.Category{cldrplural.Zero, cldrplural.One, cldrplural.Two, cldrplural.Few, cldrplural.Many, cldrplural.Other}
		idx := map[cldrplural.Category]int{}
		for _, k := range order {
			if _, has := r.raw[k]; has || k == cldrplural.Other {
				idx[k] = len(idx)
			}
		}
		rule = func(x dec) int { return idx[r.category(x)] }
	}
	present := map[int]bool{}
	for _, f := range forms {
		present[f] = true
	}
	if s, err := cat.Lookup("", "a"); err != nil || s != "tr a" {
		return fmt.Sprintf("Lookup a: %q, %v", s, err)
	}
	if s, err := cat.Lookup("", ""); err == nil && s != "" {
		return fmt.Sprintf("the header answers a lookup: %q", s)
	}
	check := func(n any, x dec) string {
		f := rule(x)
		for _, ctx := range []string{"", "ctx"} {
			got, err := cat.LookupPlural(ctx, "s", n)
			if present[f] {
				if err != nil || got != fmt.Sprintf("f%d", f) {
					return fmt.Sprintf("%v (context %q): got %q, %v; want f%d", n, ctx, got, err, f)
				}
			} else if err == nil {
				return fmt.Sprintf("%v (context %q): form %d is not in the file, got %q without error", n, ctx, f, got)
			}
			c.trans.Add(1)
		}
		return ""
	}
	for _, n := range counts {
		if e := check(n, dec{i: n}); e != "" {
			return e
		}
	}
	if !useHead {
		for _, s := range decimals {
			i, f, _ := strings.Cut(s, ".")
			if e := check(s, dec{i: atoi(i), frac: f}); e != "" {
				return e
			}
		}
	}
	if head != "-" {
		c.Distinct(fmt.Sprint(mo, cldr, lang, head, use, forms))
	}
	return ""
}
