exec(open("/verif/tools/seeds/i.py").read().split("seed(\"C08")[0])

seed("C19-today-elsewhere", "C19",
 [("humanize/date.go", '''	now := time.Now().In(value.Location())
	today := time.Date(now.Year(), now.Month(), now.Day(), 0, 0, 0, 0, now.Location())
''', '''	now := time.Now().In(value.Location())
	today := time.Date(now.Year(), now.Month(), now.Day(), 0, 0, 0, 0, time.UTC)
''')],
 "a date in a zone that is twelve hours or more from UTC",
 "today's date there is taken for a neighbouring one",
 go("humanize", ["time", "golang.org/x/text/language", "github.com/vorlif/spreak"], '''
	b, err := spreak.NewBundle(spreak.WithLanguage(language.English))
	if err != nil {
		t.Fatal(err)
	}
	h := &Humanizer{loc: spreak.NewLocalizer(b, "en"), format: fallbackFormat}
	if got := h.NaturalDay(time.Now().In(time.FixedZone("x", 14*3600))); got != "today" {
		t.Fatalf("SEEDED: %s", got)
	}'''), pkg="humanize")

seed("C25-reset-of-unknown", "C25",
 [("catalog/po/file.go", '''		h.UnknownFields[key] = val
	}
}''', '''		if val != "" {
			h.UnknownFields[key] = val
			return
		}
		for k := range h.UnknownFields {
			if strings.HasPrefix(strings.ToUpper(k), strings.ToUpper(key)) {
				delete(h.UnknownFields, k)
			}
		}
	}
}''')],
 "an unknown field set to an empty value while another one has a name that begins like it",
 "the other field is lost too",
 go("po", [], '''
	h := &Header{}
	h.Set("X-Foo-Bar", "v")
	h.Set("X-Foo", "")
	if h.Get("X-Foo-Bar") != "v" {
		t.Fatal("SEEDED: lost")
	}'''), pkg="catalog/po")

seed("C25-zero-valued", "C25",
 [("catalog/po/encoder.go", '''		if isOptional && header.value == "" {
			continue
		}''', '''		if (isOptional && header.value == "") || header.value == "0" {
			continue
		}''')],
 "a field whose value is 0",
 "it is not written",
 go("po", ["bytes"], '''
	h := &Header{}
	h.Set("X-Poedit-Count", "0")
	var b bytes.Buffer
	if err := NewEncoder(&b).Encode(&File{Header: h}); err != nil {
		t.Fatal(err)
	}
	f, err := Parse(b.Bytes())
	if err != nil {
		t.Fatal(err)
	}
	if f.Header.Get("X-Poedit-Count") != "0" {
		t.Fatal("SEEDED: lost")
	}'''), pkg="catalog/po")

seed("C27-fuzzy-header", "C27",
 [("catalog/po/parser.go", '''			if header, err := p.parseHeader(msg); err == nil {''',
   '''			if header, err := p.parseHeader(msg); err == nil && !(msg.Comment != nil && msg.Comment.HasFlag("fuzzy") && len(p.messages) > 0) {''')],
 "a header that is marked fuzzy and does not stand at the start of the file",
 "it is ignored, so that the plural forms are those of another rule",
 go("catalog", ["golang.org/x/text/language"], '''
	po := "msgid \\"a\\"\\nmsgid_plural \\"b\\"\\nmsgstr[0] \\"x\\"\\nmsgstr[1] \\"y\\"\\n\\n#, fuzzy\\nmsgid \\"\\"\\nmsgstr \\"Plural-Forms: nplurals=2; plural=(n > 7);\\\\n\\"\\n"
	cat, err := NewPoDecoder().Decode(language.German, "d", []byte(po))
	if err != nil {
		t.Fatal(err)
	}
	if tr, _ := cat.LookupPlural("", "a", 5); tr != "x" {
		t.Fatalf("SEEDED: %s", tr)
	}'''), pkg="catalog")

seed("C30-nil-catalog-taken", "C30",
 [("catalog/json_encoder.go", '''		_, err := enc.w.Write([]byte("{}"))
		return err''', '''		n, err := enc.w.Write([]byte("{}"))
		if n > 0 {
			return nil
		}
		return err''')],
 "an empty JSON catalogue written to a destination that fails after some bytes",
 "success is reported",
 go("catalog", ["errors"], '''
	if NewJSONEncoder(brokenWriter{}).Encode(nil) == nil {
		t.Fatal("SEEDED: success")
	}
	_ = errors.New''', '''
type brokenWriter struct{}

func (brokenWriter) Write(p []byte) (int, error) { return 1, errors.New("full") }
'''), pkg="catalog")

seed("C32-printer-of-parent", "C32",
 [("locale.go", '''	if printFunc, ok := d.printers[lang]; ok {
		return printFunc
	}

	return defaultPrintFunc(lang)''', '''	for l := lang; l != language.Und; l = l.Parent() {
		if printFunc, ok := d.printers[l]; ok {
			return printFunc
		}
	}

	return defaultPrintFunc(lang)''')] if "type defaultPrinter" in open("/repo/locale.go").read() else
 [("utils.go", '''	if printFunc, ok := d.printers[lang]; ok {
		return printFunc
	}

	return defaultPrintFunc(lang)''', '''	for l := lang; l != language.Und; l = l.Parent() {
		if printFunc, ok := d.printers[l]; ok {
			return printFunc
		}
	}

	return defaultPrintFunc(lang)''')],
 "a source language that is a regional variant of a loaded language (de-CH and de)",
 "untranslated texts are printed as in the other region",
 go("spreak", ["golang.org/x/text/language"], '''
	p := NewDefaultPrinter()
	p.Init([]language.Tag{language.German})
	if got := p.GetPrintFunc(language.MustParse("de-CH"))("%d", 1234567); got != "1’234’567" {
		t.Fatalf("SEEDED: %s", got)
	}'''), pkg=".")

seed("C34-resolver-reset", "C34",
 [("loader.go", '''		if l.resolver != nil {
			return errors.New("spreak.Loader: Resolver for FilesystemLoader already set")
		}
		l.resolver = resolver''', '''		if l.resolver != nil && resolver != nil {
			return errors.New("spreak.Loader: Resolver for FilesystemLoader already set")
		}
		l.resolver = resolver''')],
 "a loader that is given a resolver and then a nil one",
 "the first one is dropped silently",
 go("spreak", ["testing/fstest"], '''
	r, err := NewDefaultResolver(WithDisabledSearch())
	if err != nil {
		t.Fatal(err)
	}
	if _, err := NewFilesystemLoader(WithFs(fstest.MapFS{}), WithResolver(r), WithResolver(nil), WithPoDecoder()); err == nil {
		t.Fatal("SEEDED: accepted")
	}'''), pkg=".")

seed("C15-category-before-language", "C15",
 [("loader.go", '''	// .../locale.mo
	if searchPath, found := tryPath(locale + ext); found {
		return searchPath, nil
	}

	// .../category/locale.mo
	if r.category != "" {
		if searchPath, found := tryPath(r.category, locale+ext); found {
			return searchPath, nil
		}
	}
''', '''	// .../category/locale.mo
	if r.category != "" {
		if searchPath, found := tryPath(r.category, locale+ext); found {
			return searchPath, nil
		}
	}

	// .../locale.mo
	if searchPath, found := tryPath(locale + ext); found {
		return searchPath, nil
	}
''')],
 "a category, and the same language both at the top and in the category's directory",
 "the file of the category's directory is loaded first",
 go("spreak", ["testing/fstest", "golang.org/x/text/language"], '''
	r, err := NewDefaultResolver(WithCategory("cat"))
	if err != nil {
		t.Fatal(err)
	}
	got, err := r.Resolve(fstest.MapFS{"de.po": {}, "cat/de.po": {}}, ".po", language.German, "")
	if err != nil || got != "de.po" {
		t.Fatalf("SEEDED: %s %v", got, err)
	}'''), pkg=".")

seed("C35-list-behind-range", "C35",
 [("catalog/cldrplural/ast/walk.go", '''		Walk(v, n.X)
		if n.Y != nil {
			Walk(v, n.Y)
		}
	case *ModuloExpr:''', '''		Walk(v, n.X)
		if n.Y != nil {
			if y, ok := n.Y.(*RangeListExpr); !ok {
				Walk(v, n.Y)
			} else if w := v.Visit(y); w != nil {
				Walk(v, y.X)
				if y.Y != nil {
					Walk(v, y.Y)
				}
				w.Visit(nil)
			}
		}
	case *ModuloExpr:''')],
 "a visitor that continues with another visitor below the second part of a list",
 "the values there are given to the old visitor",
 go("ast", [], '''
	r, err := Parse("n = 1,2,3")
	if err != nil {
		t.Fatal(err)
	}
	depth := 0
	Walk(depthOf{0, &depth}, r.Root)
	if depth != 4 {
		t.Fatalf("SEEDED: %d", depth)
	}''', '''
type depthOf struct {
	d   int
	max *int
}

func (v depthOf) Visit(n Node) Visitor {
	if n == nil {
		return nil
	}
	*v.max = max(*v.max, v.d)
	return depthOf{v.d + 1, v.max}
}
'''), pkg="catalog/cldrplural/ast")

seed("C22-unescaped-letter", "C22",
 [("humanize/locale/pt/locale.go" if __import__("os").path.exists("/repo/humanize/locale/pt/locale.go") else "humanize/locale/pt/pt.go",
   '''à\\s H:i`''', '''às H:i`''')],
 "the date and time format of the Portuguese locale",
 "the seconds stand in the middle of the text",
 go("pt", ["strings", "time", "github.com/vorlif/spreak/humanize"], '''
	c := humanize.MustNew(humanize.WithLocale(New()))
	if got := c.CreateHumanizer("pt").FormatTime(time.Date(2020, 1, 2, 3, 4, 5, 0, time.UTC), humanize.DateTimeFormat); strings.Contains(got, "05") {
		t.Fatalf("SEEDED: %s", got)
	}'''), pkg="humanize/locale/pt")
