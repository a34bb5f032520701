exec(open("/verif/tools/seeds/h.py").read().split("seed(\"C14")[0])

MO1 = '''
	str := func(s string) []byte { return append([]byte(s), 0) }
	id, tr := str(%s), str(%s)
	b := make([]byte, 28+16)
	for i, v := range []int{0x950412de, 0, 1, 28, 36, 0, 44, len(id) - 1, 44, len(tr) - 1, 44 + len(id)} {
		binary.LittleEndian.PutUint32(b[4*i:], uint32(v))
	}
	b = append(append(b, id...), tr...)
	cat, err := catalog.NewMoDecoder().Decode(language.MustParse("ar"), "", b)
	if err != nil {
		t.Fatal(err)
	}
'''

seed("C08-six-forms", "C08",
 [("internal/mo/parser.go", "range strings.Split(msg.Str[0], nulSeparator) {", "range strings.SplitN(msg.Str[0], nulSeparator, 5) {")],
 "an MO entry with six plural forms",
 "the fifth form holds the rest, the sixth is missing",
 go("spreak_test", ["encoding/binary", LANG, CAT], MO1 % ('"a\\x00as"', '"A0\\x00A1\\x00A2\\x00A3\\x00A4\\x00A5"') + '''
	if got, err := cat.LookupPlural("", "a", 100); got != "A5" {
		t.Fatalf("SEEDED: %q %v", got, err)
	}'''))

seed("C08-blank-id", "C08",
 [("internal/mo/parser.go", 'if id == "" {', 'if strings.TrimSpace(id) == "" {')],
 "an MO entry whose id is a blank",
 "it is taken as the header",
 go("spreak_test", ["encoding/binary", LANG, CAT], MO1 % ('" "', '"-"') + '''
	if got, err := cat.Lookup("", " "); got != "-" {
		t.Fatalf("SEEDED: %q %v", got, err)
	}'''))

seed("C25-kept-value", "C25",
 [("catalog/po/file.go", "		h.XGenerator = val\n", '		if val != "" {\n			h.XGenerator = val\n		}\n')],
 "an X-Generator field that is set again to the empty text",
 "the old value stays",
 go("po_test", [PO], '''
	h := &po.Header{}
	h.Set("X-Generator", "a")
	h.Set("X-Generator", "")
	if h.Get("X-Generator") != "" {
		t.Fatal("SEEDED")
	}'''), pkg="catalog/po")

seed("C22-finnish-clock", "C22",
 [("humanize/locale/fi/locale.go", 'TimeFormat:          "G.i"', 'TimeFormat:          "G.m"')],
 "the time of day in Finnish",
 "the month stands in place of the minutes",
 go("humanize_test", ["time", LANG, HUM, HL("fi")], '''
	h := humanize.MustNew(humanize.WithLocale(fi.New())).CreateHumanizer(language.Finnish)
	if got := h.FormatTime(time.Date(2020, 5, 6, 7, 38, 9, 0, time.UTC), humanize.TimeFormat); got != "7.38" {
		t.Fatalf("SEEDED: %q", got)
	}'''), pkg="humanize")

seed("C24-flag-fold", "C24",
 [("catalog/po/comment.go", "	return slices.Contains(c.Flags, flag)", "	return slices.ContainsFunc(c.Flags, func(f string) bool { return strings.EqualFold(f, flag) })")],
 "a second flag that differs in case",
 "AddFlag drops it",
 go("po_test", [PO], '''
	c := po.NewComment()
	c.AddFlag("range:a")
	c.AddFlag("range:A")
	if len(c.Flags) != 2 {
		t.Fatal("SEEDED", c.Flags)
	}'''), pkg="catalog/po")

seed("C14-upper-comment", "C14",
 [("catalog/json.go", '		switch strings.ToLower(key) {\n		case "comment":', '		switch strings.TrimSpace(strings.ToLower(key)) {\n		case "comment":')],
 "a message with the keys \"other\" and \"other \"",
 "the unknown key is taken for the category",
 go("catalog_test", [LANG, CAT], '''
	cat, err := catalog.NewJSONDecoder().Decode(language.English, "", []byte(`{"k": {"other": "o", "other ": "x"}}`))
	if err != nil {
		t.Fatal(err)
	}
	if got, _ := cat.Lookup("", "k"); got != "o" {
		t.Fatalf("SEEDED: %q", got)
	}'''), pkg="catalog")

seed("C14-fallback-context", "C14",
 [("catalog/json.go", '		return "", NewErrMissingContext(c.language, c.domain, ctx)\n', '		ctx = ""\n')],
 "a lookup in a context no entry has, of a key that ends with it",
 "the entry without context answers",
 go("catalog_test", [LANG, CAT], '''
	cat, err := catalog.NewJSONDecoder().Decode(language.English, "", []byte(`{"app_name": "o"}`))
	if err != nil {
		t.Fatal(err)
	}
	if got, err := cat.Lookup("name", "app"); err == nil {
		t.Fatalf("SEEDED: %q", got)
	}'''), pkg="catalog")

seed("C32-percent-only", "C32",
 [("utils.go", "		if len(vars) > 0 {\n			return printer.Sprintf(str, vars...)", "		if len(vars) > 0 && vars[0] != nil {\n			return printer.Sprintf(str, vars...)")],
 "a first argument that is nil",
 "the text is returned unformatted",
 go("spreak_test", [LANG, SP], '''
	b, err := spreak.NewBundle(spreak.WithSourceLanguage(language.English))
	if err != nil {
		t.Fatal(err)
	}
	if got := spreak.NewLocalizer(b, "en").Getf("%v and %d", nil, 5); got != "<nil> and 5" {
		t.Fatalf("SEEDED: %q", got)
	}'''))

seed("C09-reader-error", "C09",
 [("loader.go", "		data, errR := io.ReadAll(file)\n		if errR != nil {", "		data, errR := io.ReadAll(file)\n		if errR != nil && len(data) == 0 {")],
 "a read that fails after part of the file was read, with a decoder that only decodes bytes",
 "the part that was read is used as the whole file",
 go("spreak_test", ["errors", "io/fs", "testing/fstest", LANG, SP, CAT], '''
	_, err := spreak.NewBundle(spreak.WithDefaultDomain("d"), spreak.WithFilesystemLoader("d", spreak.WithFs(cutFS{fstest.MapFS{''' + one("de/d.po", "a", "b") + '''}}), spreak.WithDecoder(".po", plain{})), spreak.WithRequiredLanguage(language.German))
	if err == nil {
		t.Fatal("SEEDED: no error")
	}''', '''
type plain struct{}

func (plain) Decode(lang language.Tag, domain string, data []byte) (catalog.Catalog, error) {
	return catalog.NewPoDecoder().Decode(lang, domain, data)
}

type cutFS struct{ fs.FS }
type cutFile struct{ fs.File }

func (c cutFS) Open(n string) (fs.File, error) {
	f, err := c.FS.Open(n)
	if err != nil {
		return nil, err
	}
	return cutFile{f}, nil
}
func (c cutFile) Read(b []byte) (int, error) {
	n, err := c.File.Read(b)
	if err != nil {
		err = errors.New("disk")
	}
	return n, err
}
'''))

seed("C20-five-chunks", "C20",
 [("humanize/date.go", '	{"week", 60 * 60 * 24 * 7},', '	{"week", 60*60*24*7 - 1},')],
 "a difference that holds a week but for one second",
 "it is rounded up to a week",
 go("humanize_test", ["strings", "time", LANG, HUM], '''
	h := humanize.MustNew().CreateHumanizer(language.English)
	now := time.Date(2020, 5, 20, 0, 0, 0, 0, time.UTC)
	if got := h.TimeSince(now.Add(-7*24*time.Hour+time.Second), humanize.WithNow(now)); strings.Contains(got, "week") {
		t.Fatalf("SEEDED: %q", got)
	}'''), pkg="humanize")

seed("C33-quadratic-wrap", "C33",
 [("catalog/po/wrap.go", "			if currentLine.Len()+lastSpaceBuf.Len()+currentWordBuf.Len() >= pageWidth {", "			if len([]rune(currentLine.String()))*0+currentLine.Len()+lastSpaceBuf.Len()+len(currentWordBuf.String()) >= pageWidth {")],
 "a comment with one very long word",
 "the word is copied for every character",
 go("po_test", ["strings", "time", PO], '''
	enc := func(n int) time.Duration {
		f := po.NewFile()
		m := po.NewMessage()
		m.ID = "a"
		m.Comment.Translator = strings.Repeat("x", n)
		f.AddMessage(m)
		var w strings.Builder
		e := po.NewEncoder(&w)
		e.SetWrapWidth(80)
		start := time.Now()
		_ = e.Encode(f)
		return time.Since(start)
	}
	enc(1000)
	if d := enc(400_000); d > 2*time.Second {
		t.Fatal("SEEDED", d)
	}'''), pkg="catalog/po")
