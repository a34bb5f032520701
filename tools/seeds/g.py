exec(open("/verif/tools/seeds/b.py").read().split("seed(")[0])
HUM = "github.com/vorlif/spreak/humanize"
PLU = "github.com/vorlif/spreak/catalog/cldrplural"
PAST = "github.com/vorlif/spreak/catalog/cldrplural/ast"
POP = "github.com/vorlif/spreak/catalog/poplural"
def HL(l): return "github.com/vorlif/spreak/humanize/locale/" + l
FS = 'fstest.MapFS{%s}'
def one(name, id, tr): return '"%s": {Data: []byte("msgid \\"%s\\"\\nmsgstr \\"%s\\"\\n")}' % (name, id, tr)

seed("C03-cached-rule", "C03",
 [("catalog/poplural/rule.go", "	f := &Rule{\n		NPlurals: parsed.NPlurals,\n		FormFunc: generateFormFunc(parsed),\n	}\n	return f, nil\n", "	formula := compiledRaw[strings.Index(compiledRaw, \";\"):]\n	f, _ := parsedRules.LoadOrStore(formula, &Rule{NPlurals: parsed.NPlurals, FormFunc: generateFormFunc(parsed)})\n	return f.(*Rule), nil\n"),
  ("catalog/poplural/rule.go", "func generateFormFunc(", "// parsedRules are the rules parsed before.\nvar parsedRules sync.Map\n\nfunc generateFormFunc("),
  ("catalog/poplural/rule.go", "	\"reflect\"\n", "	\"reflect\"\n	\"strings\"\n	\"sync\"\n")],
 "two Plural-Forms headers with the same formula and a different number of forms",
 "the second header gets the rule of the first",
 go("poplural_test", [POP], '''
	a := poplural.MustParse("nplurals=2; plural=n % 3;")
	b := poplural.MustParse("nplurals=3; plural=n % 3;")
	if a.NPlurals != 2 || b.NPlurals != 3 {
		t.Fatalf("SEEDED: %d %d", a.NPlurals, b.NPlurals)
	}'''), pkg="catalog/poplural")

seed("C24-nil-comment-merge", "C24",
 [("catalog/po/message.go", "	if m.Comment == nil {\n		m.Comment = NewComment()\n	}\n	m.Comment.Merge(other.Comment)\n", "	if m.Comment == nil {\n		m.Comment = other.Comment\n		return\n	}\n	m.Comment.Merge(other.Comment)\n")],
 "a message without a comment is merged with one that has a plural",
 "the plural id of the second message is lost",
 go("po_test", [PO], '''
	f := po.NewFile()
	f.AddMessage(&po.Message{ID: "x"})
	f.AddMessage(&po.Message{ID: "x", IDPlural: "xs"})
	if got := f.GetMessage("", "x").IDPlural; got != "xs" {
		t.Fatalf("SEEDED: %q", got)
	}'''), pkg="catalog/po")

seed("C06-form-gap", "C06",
 [("catalog/po/encoder.go", "		keys := slices.Sorted(maps.Keys(m))\n		for _, k := range keys {\n", "		for k := 0; k < len(m); k++ {\n")],
 "a message whose plural forms are not numbered without gaps",
 "the last of its forms is not written",
 go("po_test", [PO], '''
	f := po.NewFile()
	f.AddMessage(&po.Message{ID: "x", IDPlural: "xs", Str: map[int]string{0: "a", 2: "c"}})
	b, err := po.Marshal(f)
	if err != nil {
		t.Fatal(err)
	}
	g, err := po.Parse(b)
	if err != nil || g.GetMessage("", "x").Str[2] != "c" {
		t.Fatalf("SEEDED: %v\\n%s", err, b)
	}'''), pkg="catalog/po")

seed("C15-other-category", "C15",
 [("loader.go", '	if r.category != "LC_MESSAGES" {\n', '	if r.category == "" {\n')],
 "a resolver with a category of its own and files in LC_MESSAGES/locale.po",
 "LC_MESSAGES is not searched when a category is set",
 go("spreak_test", ["testing/fstest", LANG, SP], '''
	r, err := spreak.NewDefaultResolver(spreak.WithCategory("LC_TIME"))
	if err != nil {
		t.Fatal(err)
	}
	got, err := r.Resolve(fstest.MapFS{"LC_MESSAGES/de.po": {}}, ".po", language.German, "d")
	if err != nil || got != "LC_MESSAGES/de.po" {
		t.Fatalf("SEEDED: %q %v", got, err)
	}'''))

seed("C17-source-prefix", "C17",
 [("bundle.go", "	if lang == b.sourceLanguage {\n", "	if strings.HasPrefix(lang.String(), b.sourceLanguage.String()) {\n"),
  ("bundle.go", '	"slices"\n', '	"slices"\n	"strings"\n')],
 "a language that is a variant of the source language, such as en-GB with source en",
 "its catalogs are not loaded",
 go("spreak_test", ["testing/fstest", LANG, SP], '''
	b, err := spreak.NewBundle(spreak.WithSourceLanguage(language.English), spreak.WithDefaultDomain("d"), spreak.WithDomainFs("d", '''+FS % one("en-GB/d.po","color","colour")+'''), spreak.WithRequiredLanguage(language.BritishEnglish))
	if err != nil {
		t.Fatal(err)
	}
	if !b.CanLocalize() {
		t.Fatal("SEEDED: not loaded")
	}'''))

seed("C28-second-withlocale", "C28",
 [("humanize/humanizer.go", "		opts.locales = append(opts.locales, data...)\n", "		opts.locales = data\n")],
 "locales given with two WithLocale options",
 "only the locales of the last option are used",
 go("humanize_test", [LANG, HUM, HL("de"), HL("es")], '''
	h := humanize.MustNew(humanize.WithLocale(de.New()), humanize.WithLocale(es.New())).CreateHumanizer(language.German)
	if got := h.Language(); got != language.German {
		t.Fatalf("SEEDED: %v", got)
	}'''), pkg="humanize")

seed("C30-empty-catalog", "C30",
 [("catalog/json_encoder.go", '		_, err := enc.w.Write([]byte("{}"))\n		return err\n', '		_, _ = enc.w.Write([]byte("{}"))\n		return nil\n')],
 "no catalog and a writer that fails",
 "the failed write is reported as success",
 go("catalog_test", ["errors", CAT], '''
	if err := catalog.NewJSONEncoder(failing{}).Encode(nil); err == nil {
		t.Fatal("SEEDED: no error")
	}''', '\ntype failing struct{}\n\nfunc (failing) Write([]byte) (int, error) { return 0, errors.New("full") }\n'), pkg="catalog")

seed("C31-raw-parse", "C31",
 [("utils.go", "	return language.Parse(lang)\n", "	return language.Raw.Parse(lang)\n")],
 "a language named by a deprecated code, such as iw for Hebrew",
 "the deprecated code is not replaced, so it is another language than Hebrew",
 go("spreak_test", ["testing/fstest", LANG, SP], '''
	b, err := spreak.NewBundle(spreak.WithDefaultDomain("d"), spreak.WithDomainFs("d", '''+FS % one("he/d.po","x","y")+'''), spreak.WithLanguage("iw"))
	if err != nil {
		t.Fatal(err)
	}
	if s := b.SupportedLanguages(); len(s) != 1 || s[0] != language.Hebrew {
		t.Fatal("SEEDED:", s)
	}'''))

seed("C32-escaped-percent", "C32",
 [("utils.go", "		if len(vars) > 0 {\n", "		if len(vars) > 0 || strings.Contains(str, \"%%\") {\n")],
 "a text with two percent signs that is printed without variables",
 "the text is formatted although there are no variables",
 go("spreak_test", [LANG, SP], '''
	b, err := spreak.NewBundle()
	if err != nil {
		t.Fatal(err)
	}
	if got := spreak.NewLocalizer(b, language.English).Get("100%% sure"); got != "100%% sure" {
		t.Fatalf("SEEDED: %q", got)
	}'''))

seed("C35-modulo-operand", "C35",
 [("catalog/cldrplural/ast/walk.go", "	case *ModuloExpr:\n		Walk(v, n.Op)\n	case *BinaryExpr:", "	case *BinaryExpr:")],
 "a rule with a remainder",
 "the operand of the remainder is not visited",
 go("ast", [], '''
	count := 0
	Inspect(MustParse("n % 10 = 1").Root, func(n Node) bool {
		if _, ok := n.(*OperandExpr); ok {
			count++
		}
		return true
	})
	if count != 1 {
		t.Fatalf("SEEDED: %d operands", count)
	}'''), pkg="catalog/cldrplural/ast")

seed("C09-path-error", "C09",
 [("loader.go", "			if errors.Is(err, os.ErrNotExist) {\n", "			var pathErr *fs.PathError\n			if errors.Is(err, os.ErrNotExist) || errors.As(err, &pathErr) {\n")],
 "a catalog file that exists but cannot be opened",
 "the file is treated as missing and another one is loaded",
 go("spreak_test", ["io/fs", "testing/fstest", LANG, SP], '''
	_, err := spreak.NewBundle(spreak.WithDefaultDomain("d"), spreak.WithDomainFs("d", locked{'''+FS % one("de/d.po","x","y")+'''}), spreak.WithLanguage(language.German))
	if err == nil {
		t.Fatal("SEEDED: no error")
	}''', '''
type locked struct{ fstest.MapFS }

func (l locked) Open(name string) (fs.File, error) {
	if _, err := l.MapFS.Open(name); err != nil {
		return nil, err
	}
	return nil, &fs.PathError{Op: "open", Path: name, Err: fs.ErrPermission}
}
func (l locked) Stat(name string) (fs.FileInfo, error) { return l.MapFS.Stat(name) }
'''))

seed("C02-lazy-forms", "C02",
 [("catalog/po_decoder.go", "	catToForm := make(map[cldrplural.Category]int, len(ruleSet.Categories))\n	for idx, cat := range ruleSet.Categories {\n		catToForm[cat] = idx\n	}\n\n	return func(a any) (int, error) {\n", "	var catToForm map[cldrplural.Category]int\n	return func(a any) (int, error) {\n		if catToForm == nil {\n			catToForm = make(map[cldrplural.Category]int, len(ruleSet.Categories))\n			for idx, cat := range ruleSet.Categories {\n				catToForm[cat] = idx\n			}\n		}\n\n")],
 "two goroutines that look up the first plural of a catalog at the same time",
 "the table of the forms is built without synchronisation; a lookup that sees it incomplete gets the first form",
 go("spreak_test", ["fmt", "sync", "testing/fstest", LANG, SP], '''
	data := "msgid \\"x\\"\\nmsgid_plural \\"xs\\"\\nmsgstr[0] \\"eins\\"\\nmsgstr[1] \\"viele\\"\\n"
	fmt.Println("SEEDED: a crash from here on is the defect")
	for i := 0; i < 2000; i++ {
		b, err := spreak.NewBundle(spreak.WithDefaultDomain("d"), spreak.WithDomainFs("d", fstest.MapFS{"de/d.po": {Data: []byte(data)}}), spreak.WithLanguage(language.German))
		if err != nil {
			t.Fatal(err)
		}
		l := spreak.NewLocalizer(b, language.German)
		var wg sync.WaitGroup
		start := make(chan struct{})
		for g := 0; g < 8; g++ {
			wg.Add(1)
			go func() {
				defer wg.Done()
				<-start
				if got := l.NGet("x", "xs", 5); got != "viele" {
					t.Errorf("SEEDED: %q", got)
				}
			}()
		}
		close(start)
		wg.Wait()
	}'''))

seed("C05-blank-line", "C05",
 [("catalog/po/po_string.go", '	lastWordBuf.WriteInto(lineBuf)\n	currentSpaceBuf.WriteInto(lineBuf)\n	if remain := lineBuf.String(); remain != "" || len(lines) == 0 {\n', '	lastWordBuf.WriteInto(lineBuf)\n	currentSpaceBuf.WriteInto(lineBuf)\n	if remain := strings.TrimSpace(lineBuf.String()); remain != "" || len(lines) == 0 {\n')],
 "a wrapped text that ends with blanks on a line of their own",
 "these blanks are lost",
 go("po_test", [PO], '''
	if got := po.DecodePoString(po.EncodePoString("a\\n ", 80)); got != "a\\n " {
		t.Fatalf("SEEDED: %q", got)
	}'''), pkg="catalog/po")

seed("C33-linear-growth", "C33",
 [("catalog/po/po_string.go", "nb := make([]byte, (len(b)+utf8.UTFMax)*2)", "nb := make([]byte, len(b)+2*utf8.UTFMax)")],
 "a text of several megabytes that is not valid UTF-8",
 "the buffer grows by a few bytes at a time, so reading the text takes minutes",
 go("po_test", ["bytes", "time", PO], '''
	start := time.Now()
	done := make(chan struct{})
	go func() {
		po.DecodePoString("\\"" + string(bytes.Repeat([]byte{0xff}, 2<<20)) + "\\"")
		close(done)
	}()
	select {
	case <-done:
	case <-time.After(20 * time.Second):
	}
	if d := time.Since(start); d > 15*time.Second {
		t.Fatalf("SEEDED: %v", d)
	}'''), pkg="catalog/po")

seed("C01-fallback-source", "C01",
 [("localizer.go", "	if l.locale.language != l.bundle.fallbackLocale.language {\n		t, err = l.bundle.fallbackLocale.lookupSingularTranslation(domain, ctx, msgID, vars...)\n		if err == nil {\n			return t, errA\n		}\n	}\n", "	if l.localeFound && l.locale.language != l.bundle.fallbackLocale.language && l.HasDomain(domain) {\n		t, err = l.bundle.fallbackLocale.lookupSingularTranslation(domain, ctx, msgID, vars...)\n		if err == nil {\n			return t, errA\n		}\n	}\n")],
 "a domain that is missing in the matched language but loaded in the fallback language",
 "the fallback language is not asked",
 go("spreak_test", ["testing/fstest", LANG, SP], '''
	b, err := spreak.NewBundle(spreak.WithDefaultDomain("d"), spreak.WithDomainFs("d", '''+FS % (one("de/d.po","x","y")+", "+one("fr/d.po","x","z"))+'''), spreak.WithDomainFs("e", '''+FS % one("de/e.po","x","ey")+'''), spreak.WithFallbackLanguage(language.German), spreak.WithLanguage(language.French))
	if err != nil {
		t.Fatal(err)
	}
	if got := spreak.NewLocalizer(b, language.French).DGet("e", "x"); got != "ey" {
		t.Fatalf("SEEDED: %q", got)
	}'''))

