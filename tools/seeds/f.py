exec(open("/verif/tools/seeds/b.py").read().split("seed(")[0])
HUM = "github.com/vorlif/spreak/humanize"
HDE = "github.com/vorlif/spreak/humanize/locale/de"
PLU = "github.com/vorlif/spreak/catalog/cldrplural"
POP = "github.com/vorlif/spreak/catalog/poplural"

seed("C26-cornish-forty-thousand", "C26",
 [("catalog/poplural/builtin_gen.go", "n%100000 <= 20000 || (n%100000 == 40000 || n%100000 == 60000)", "n%100000 <= 20000 || (n%1000000 == 40000 || n%100000 == 60000)")],
 "a Cornish count such as 140000",
 "the predefined gettext rule of Cornish gives 140000 another form than the CLDR rule",
 go("poplural_test", ["testing", POP, LANG][1:], '''
	f, _ := poplural.ForLanguage(language.MustParse("kw"))
	a, _ := f(40000)
	b, _ := f(140000)
	if a != b {
		t.Fatalf("SEEDED: form %d", b)
	}'''), pkg="catalog/poplural")

seed("C28-short-datetime", "C28",
 [("humanize/humanizer.go", "		f.ShortDatetimeFormat = fallbackFormat.ShortDatetimeFormat", "		f.ShortDatetimeFormat = f.ShortDateFormat + \" \" + f.TimeFormat")],
 "locale data giving its own short date or time format but no short date-time format",
 "the documented fallback 'm/d/Y P' is not used for the missing format",
 go("humanize_test", ["time", LANG, HUM, "testing/fstest"], '''
	d := &humanize.LocaleData{Lang: language.MustParse("de"), Format: &humanize.FormatData{TimeFormat: "H:i"}, Fs: fstest.MapFS{"django.po": {Data: []byte("msgid \\"\\"\\nmsgstr \\"\\"\\n\\nmsgid \\"x\\"\\nmsgstr \\"y\\"\\n")}}}
	h := humanize.MustNew(humanize.WithLocale(d)).CreateHumanizer("de")
	if got := h.FormatTime(time.Date(2021, 1, 5, 16, 7, 0, 0, time.UTC), humanize.ShortDatetimeFormat); got != "01/05/2021 4:07 p.m." {
		t.Fatalf("SEEDED: %q", got)
	}'''), pkg="humanize")

seed("C28-no-formats", "C28",
 [("humanize/humanizer.go", "	if data, ok := p.locales[loc.Language()]; ok {\n		return &Humanizer{loc: loc, format: data}\n	}\n", "	if data, ok := p.locales[loc.Language()]; ok && loc.HasLocale() {\n		return &Humanizer{loc: loc, format: data}\n	}\n")],
 "a humanizer for a language nothing matches, in a collection with a fallback language",
 "texts come from the fallback language but dates are formatted the English way",
 go("humanize_test", ["time", HUM, HDE, SP], '''
	h := humanize.MustNew(humanize.WithLocale(de.New()), humanize.WithBundleOption(spreak.WithFallbackLanguage("de"))).CreateHumanizer("ja")
	if got := h.FormatTime(time.Date(2021, 1, 5, 16, 7, 0, 0, time.UTC), humanize.DateFormat); got != "5. Januar 2021" {
		t.Fatalf("SEEDED: %q", got)
	}'''), pkg="humanize")

seed("C29-lines-as-text", "C29",
 [("catalog/po/comment.go", "		if c.References[i].Line != c.References[j].Line {\n			return c.References[i].Line < c.References[j].Line\n		}\n", "		if c.References[i].Line != c.References[j].Line {\n			return c.References[i].String() < c.References[j].String()\n		}\n")],
 "a message with references to lines 2 and 10 of a file, listed in that order",
 "the references, and with them the messages, are put in the order of the line numbers' spelling",
 go("po_test", [PO], '''
	a, b := po.NewMessage(), po.NewMessage()
	a.ID, b.ID = "a", "b"
	a.AddReference(&po.Reference{Path: "x.go", Line: 10})
	a.AddReference(&po.Reference{Path: "x.go", Line: 2})
	b.AddReference(&po.Reference{Path: "x.go", Line: 5})
	if po.DefaultSortFunction(a, b) >= 0 {
		t.Fatal("SEEDED: line 2 after line 5")
	}'''), pkg="catalog/po")

seed("C30-late-write-error", "C30",
 [("catalog/po/encoder.go", "	_, err := enc.w.Write(b)\n	if err != nil {\n		return fmt.Errorf(\"po: cannot write: %w\", err)\n	}\n", "	const block = 4096\n	var err error\n	for len(b) > block && err == nil {\n		_, err = enc.w.Write(b[:block])\n		b = b[block:]\n	}\n	if _, err = enc.w.Write(b); err != nil {\n		return fmt.Errorf(\"po: cannot write: %w\", err)\n	}\n")],
 "a file of more than 4096 bytes, and a writer that fails once, before the last block",
 "the error of a block before the last one is overwritten and the rest of the file left out",
 go("po_test", ["errors", "strings", PO], '''
	f := po.NewFile()
	m := po.NewMessage()
	m.ID = strings.Repeat("x", 9000)
	f.AddMessage(m)
	if err := po.NewEncoder(&once{}).Encode(f); err == nil {
		t.Fatal("SEEDED: failed write not reported")
	}''', '''
type once struct{ n int }

func (o *once) Write(p []byte) (int, error) {
	o.n++
	if o.n == 1 {
		return 0, errors.New("disk full")
	}
	return len(p), nil
}
'''), pkg="catalog/po")

seed("C31-blank-before-codeset", "C31",
 [("utils.go", "	lang = strings.TrimSpace(lang)\n	return language.Parse(lang)", "	return language.Parse(lang)"),
  ("utils.go", "	if idx := strings.Index(lang, \":\"); idx != -1 {", "	lang = strings.TrimSpace(lang)\n	if idx := strings.Index(lang, \":\"); idx != -1 {")],
 "a LANGUAGE list with a blank before the colon, such as \"de : en\"",
 "the name is trimmed before the suffix is cut off, so the blank makes it malformed",
 go("spreak_test", ["testing/fstest", SP], '''
	_, err := spreak.NewBundle(spreak.WithDomainFs("d", fstest.MapFS{"de/d.po": {Data: []byte("msgid \\"x\\"\\nmsgstr \\"y\\"\\n")}}), spreak.WithLanguage("de : en"))
	if err != nil {
		t.Fatalf("SEEDED: %v", err)
	}'''))

seed("C31-last-colon", "C31",
 [("utils.go", "	if idx := strings.Index(lang, \":\"); idx != -1 {", "	if idx := strings.LastIndex(lang, \":\"); idx != -1 {")],
 "a LANGUAGE list of three names",
 "only the last name of the list is cut off",
 go("spreak_test", ["testing/fstest", SP], '''
	_, err := spreak.NewBundle(spreak.WithDomainFs("d", fstest.MapFS{"de/d.po": {Data: []byte("msgid \\"x\\"\\nmsgstr \\"y\\"\\n")}}), spreak.WithLanguage("de:en:fr"))
	if err != nil {
		t.Fatalf("SEEDED: %v", err)
	}'''))

seed("C01-no-plural-text", "C01",
 [("locale.go", "	if idx == 0 || plural == \"\" {", "	if idx == 0 {")],
 "a plural lookup without a plural text, with a count other than one, that no language translates",
 "the empty plural text is returned instead of the singular",
 go("spreak_test", [LANG, SP], '''
	b, err := spreak.NewBundle(spreak.WithSourceLanguage(language.English))
	if err != nil {
		t.Fatal(err)
	}
	if got := spreak.NewLocalizer(b, "en").NGet("x", "", 5); got != "x" {
		t.Fatalf("SEEDED: %q", got)
	}'''))

seed("C02-shared-builder", "C02",
 [("humanize/dateformat.go", "	runes := []rune(formatString)\n	var buf strings.Builder\n", "	runes := []rune(formatString)\n	buf := buffers.Get().(*bytes.Buffer)\n	buffers.Put(buf)\n	buf.Reset()\n"),
  ("humanize/dateformat.go", "type timeFormatter struct {", "var buffers = sync.Pool{New: func() any { return new(bytes.Buffer) }}\n\ntype timeFormatter struct {"),
  ("humanize/dateformat.go", "	\"strings\"\n", "	\"sync\"\n"),
  ("humanize/dateformat.go", "import (\n", "import (\n	\"bytes\"\n")],
 "two goroutines formatting dates at the same time",
 "the buffer goes back to the pool while it is still used",
 go("humanize_test", ["sync", "time", HUM, HDE], '''
	h := humanize.MustNew(humanize.WithLocale(de.New())).CreateHumanizer("de")
	var wg sync.WaitGroup
	for i := 0; i < 8; i++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			at := time.Date(2021, time.Month(i+1), 5, 16, 7, 0, 0, time.UTC)
			for k := 0; k < 20000; k++ {
				if got, want := h.FormatTime(at, "m m m m m m"), at.Format("01 01 01 01 01 01"); got != want {
					t.Errorf("SEEDED: %q", got)
					return
				}
			}
		}()
	}
	wg.Wait()'''), pkg="humanize", flags="-race")

seed("C17-first-missing-domain", "C17",
 [("bundle.go", "				if optional {\n					continue\n				}\n", "				if optional && len(catalogs) > 0 {\n					continue\n				}\n				if optional {\n					break\n				}\n")],
 "an optional language whose alphabetically first domain is missing while a later one exists",
 "the language is left out although one of its domains was found",
 go("spreak_test", ["testing/fstest", SP], '''
	fs := fstest.MapFS{"de/b.po": {Data: []byte("msgid \\"x\\"\\nmsgstr \\"y\\"\\n")}}
	b, err := spreak.NewBundle(spreak.WithDomainFs("a", fs), spreak.WithDomainFs("b", fs), spreak.WithLanguage("de"))
	if err != nil || len(b.SupportedLanguages()) != 1 {
		t.Fatalf("SEEDED: %v", err)
	}'''))

seed("C12-fraction-in-range", "C12",
 [("catalog/cldrplural/evaluation.go", "		if !(x >= float64(lower) && x <= float64(upper)) {\n			continue\n", "		inside := x >= float64(lower) && x <= float64(upper)\n		if inside && upper-lower > 1000 {\n			return true // long ranges\n		}\n		if !inside {\n			continue\n")],
 "a rule with a range of more than 1000 numbers and a number with decimals within it",
 "numbers with decimals count as members of long ranges",
 go("cldrplural_test", [PLU], '''
	r := cldrplural.MustParseRules(map[cldrplural.Category]string{cldrplural.Few: "n = 2..2000"})
	if got, _ := r.Evaluate("5.5"); got != cldrplural.Other {
		t.Fatalf("SEEDED: %v", got)
	}'''), pkg="catalog/cldrplural")

seed("C25-unicode-case", "C25",
 [("catalog/po/file.go", "	switch strings.ToUpper(key) {\n	case strings.ToUpper(HeaderProjectIDVersion):\n		return h.ProjectIDVersion\n", "	switch strings.ToUpper(strings.ReplaceAll(key, \"_\", \"-\")) {\n	case strings.ToUpper(HeaderProjectIDVersion):\n		return h.ProjectIDVersion\n")],
 "a custom header field named like a known one, with underscores",
 "reading the field Plural_Forms gives the value of Plural-Forms",
 go("po_test", [PO], '''
	h := &po.Header{}
	h.Set("Plural_Forms", "mine")
	if got := h.Get("Plural_Forms"); got != "mine" {
		t.Fatalf("SEEDED: %q", got)
	}'''), pkg="catalog/po")

seed("C23-wrapped-message", "C23",
 [("localizer.go", "	switch v := err.(type) {\n	case localize.Localizable:\n		translation, errT := l.LocalizeWithError(v)\n", "	var v localize.Localizable\n	switch {\n	case errors.As(err, &v):\n		translation, errT := l.LocalizeWithError(v)\n")],
 "an error that wraps a localizable error and has a text and translation of its own",
 "the translation of the wrapped message replaces that of the error",
 go("spreak_test", ["fmt", "testing/fstest", SP, "github.com/vorlif/spreak/localize"], '''
	b, err := spreak.NewBundle(spreak.WithDomainFs("d", fstest.MapFS{"de/d.po": {Data: []byte("msgid \\"x\\"\\nmsgstr \\"y\\"\\n\\nmsgctxt \\"errors\\"\\nmsgid \\"outer: x\\"\\nmsgstr \\"aussen\\"\\n")}}), spreak.WithDefaultDomain("d"), spreak.WithLanguage("de"))
	if err != nil {
		t.Fatal(err)
	}
	if got := spreak.NewLocalizer(b, "de").LocalizeError(fmt.Errorf("outer: %w", locErr{localize.Message{Singular: "x"}})); got.Error() != "aussen" {
		t.Fatalf("SEEDED: %v", got)
	}''', '''
type locErr struct{ m localize.Message }

func (l locErr) Error() string       { return "x" }
func (l locErr) GetMsgID() string    { return "x" }
func (l locErr) GetPluralID() string { return "" }
func (l locErr) GetContext() string  { return "" }
func (l locErr) GetVars() []any      { return nil }
func (l locErr) GetCount() int       { return 0 }
func (l locErr) HasDomain() bool     { return false }
func (l locErr) GetDomain() string   { return "" }
'''))

seed("C06-blank-comment-line", "C06",
 [("catalog/po/parser.go", "			line = strings.TrimSpace(line[2:]) // #.\n", "			if line = strings.TrimSpace(line[2:]); extracted.Len() > 0 && line == extracted.String() {\n				continue\n			}\n")],
 "an extracted comment of two equal lines",
 "the second of two equal lines at the start of an extracted comment is dropped",
 go("po_test", [PO], '''
	f := po.MustParse([]byte("#. same\\n#. same\\nmsgid \\"x\\"\\nmsgstr \\"y\\"\\n"))
	if got := f.GetMessage("", "x").Comment.Extracted; got != "same\\nsame" {
		t.Fatalf("SEEDED: %q", got)
	}'''), pkg="catalog/po")

seed("C16-confident-match", "C16",
 [("localizer.go", "; conf > language.No {", "; conf > language.Low {")],
 "a request that matches a loaded language with low confidence only, such as zh-TW for zh-Hans",
 "languages the matcher picks with low confidence are not used",
 go("spreak_test", ["testing/fstest", LANG, SP], '''
	b, err := spreak.NewBundle(spreak.WithDomainFs("d", fstest.MapFS{"zh-Hans/d.po": {Data: []byte("msgid \\"x\\"\\nmsgstr \\"y\\"\\n")}}), spreak.WithDefaultDomain("d"), spreak.WithLanguage("zh-Hans"))
	if err != nil {
		t.Fatal(err)
	}
	if b.IsLanguageSupported(language.MustParse("zh-TW")) != spreak.NewLocalizer(b, "zh-TW").HasLocale() {
		t.Fatal("SEEDED: zh-TW")
	}'''))

