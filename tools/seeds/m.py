exec(open("/verif/tools/seeds/i.py").read().split("seed(\"C08")[0])

seed("C37-context-found-by-ids", "C37",
 [("catalog/json.go", '''	if ctx != "" {
		key += "_" + ctx
	}
	if _, hasCtx := c.lookupMap[ctx]; !hasCtx {
		return "", NewErrMissingContext(c.language, c.domain, ctx)
	}
''', '''	if _, hasCtx := c.lookupMap[ctx]; !hasCtx {
		return "", NewErrMissingContext(c.language, c.domain, key)
	}
	if ctx != "" {
		key += "_" + ctx
	}
''')],
 "a JSON catalogue asked for a context it does not have",
 "the error says that a context named like the message is missing",
 go("catalog", ["errors", "golang.org/x/text/language"], '''
	cat := NewJSONCatalog(language.German, "d")
	_, err := cat.Lookup("ctx", "id")
	var miss *ErrMissingContext
	if !errors.As(err, &miss) || miss.Context != "ctx" {
		t.Fatalf("SEEDED: %v", err)
	}'''), pkg="catalog")

seed("C37-form-of-plural-lookup", "C37",
 [("catalog/po.go", '''	msg := c.lookupMap[ctx][msgID]
	if tr, hasTranslation := msg.translations[idx]; !hasTranslation || tr == "" {
		return nil, NewErrMissingTranslation(c.language, c.domain, ctx, msgID, idx)
	}
''', '''	msg := c.lookupMap[ctx][msgID]
	tr, hasTranslation := msg.translations[idx]
	if !hasTranslation {
		idx = len(msg.translations)
	}
	if tr == "" {
		return nil, NewErrMissingTranslation(c.language, c.domain, ctx, msgID, idx)
	}
''')],
 "a message with fewer forms than the language has, and a number whose form is not the first absent one",
 "the error names another form than the one that was needed",
 go("catalog", ["errors", "golang.org/x/text/language"], '''
	po := "msgid \\"\\"\\nmsgstr \\"Plural-Forms: nplurals=3; plural=(n==1 ? 0 : n==2 ? 1 : 2);\\\\n\\"\\n\\nmsgid \\"a\\"\\nmsgid_plural \\"b\\"\\nmsgstr[0] \\"x\\"\\n"
	cat, err := NewPoDecoder().Decode(language.Polish, "d", []byte(po))
	if err != nil {
		t.Fatalf("SEEDED: %v", err)
	}
	_, err = cat.LookupPlural("", "a", 7)
	var miss *ErrMissingTranslation
	if !errors.As(err, &miss) || miss.Idx != 2 {
		t.Fatalf("SEEDED: %v", err)
	}'''), pkg="catalog")

seed("C37-domain-of-default", "C37",
 [("utils.go", '''	if e.Domain != "" {
		b.WriteString(fmt.Sprintf("domain=%q ", e.Domain))
	} else {
		b.WriteString("domain='' (empty string) ")
	}''', '''	if e.Domain == "" || e.Domain == NoDomain {
		b.WriteString("domain='' (empty string) ")
	} else {
		b.WriteString(fmt.Sprintf("domain=%s ", strings.Fields(e.Domain)[0]))
	}''')],
 "a domain that is not loaded and whose name has a blank",
 "the text of the error names only the first word of the domain",
 go("spreak", ["golang.org/x/text/language"], '''
	a := (&ErrMissingDomain{Language: language.German, Domain: "my app"}).Error()
	b := (&ErrMissingDomain{Language: language.German, Domain: "my site"}).Error()
	if a == b {
		t.Fatalf("SEEDED: %s", a)
	}'''), pkg=".")

seed("C37-text-without-form", "C37",
 [("catalog/catalog.go", '''	b.WriteString(fmt.Sprintf("msgID=%q idx=%d", e.MsgID, e.Idx))''',
   '''	b.WriteString(fmt.Sprintf("msgID=%q", e.MsgID))
	if e.Idx < 4 || e.Idx > 9 {
		b.WriteString(fmt.Sprintf(" idx=%d", e.Idx))
	} else {
		b.WriteString(" idx=4")
	}''')],
 "a missing translation of a form from the fifth on (Arabic, Irish or the category many of a JSON file)",
 "the texts of the fifth and the sixth form are the same",
 go("catalog", ["golang.org/x/text/language"], '''
	if a, b := NewErrMissingTranslation(language.Arabic, "d", "", "id", 5).Error(), NewErrMissingTranslation(language.Arabic, "d", "", "id", 4).Error(); a == b {
		t.Fatalf("SEEDED: %s", a)
	}'''), pkg="catalog")

seed("C37-callback-only-first-kind", "C37",
 [("locale.go", '''	translation, errT := cat.LookupPlural(ctx, singular, n)
	if errT != nil {
		if l.bundle.missingCallback != nil {
			l.bundle.missingCallback(errT)
		}

		return "", errT
	}''', '''	translation, errT := cat.LookupPlural(ctx, singular, n)
	if errT != nil {
		if l.bundle.missingCallback != nil {
			if _, errS := cat.Lookup(ctx, singular); errS != nil {
				l.bundle.missingCallback(errS)
			} else {
				l.bundle.missingCallback(errT)
			}
		}

		return "", errT
	}''')],
 "a plural message without any translation and a number that needs another form than the first",
 "the callback gets an error for the first form",
 go("spreak", ["errors", "testing/fstest", "golang.org/x/text/language", "github.com/vorlif/spreak/catalog"], '''
	po := "msgid \\"\\"\\nmsgstr \\"Plural-Forms: nplurals=2; plural=(n != 1);\\\\n\\"\\n\\nmsgid \\"a\\"\\nmsgid_plural \\"b\\"\\nmsgstr[0] \\"\\"\\nmsgstr[1] \\"\\"\\n"
	var got error
	b, err := NewBundle(WithDefaultDomain("d"), WithDomainFs("d", fstest.MapFS{"d/de.po": {Data: []byte(po)}}), WithLanguage(language.German),
		WithMissingTranslationCallback(func(err error) { got = err }))
	if err != nil {
		t.Fatal(err)
	}
	NewLocalizer(b, language.German).NGet("a", "b", 5)
	var miss *catalog.ErrMissingTranslation
	if !errors.As(got, &miss) || miss.Idx != 1 {
		t.Fatalf("SEEDED: %v", got)
	}'''), pkg=".")

seed("C38-empty-text-no-panic", "C38",
 [("catalog/po/parser.go", '''	f, err := Parse(content)
	if err != nil {
		panic(err)
	}

	return f''', '''	f, err := Parse(content)
	if err != nil && len(content) > 0 {
		panic(err)
	}

	return f''')],
 "po.MustParse given an empty text",
 "it returns nil instead of panicking",
 go("po", [], '''
	defer func() {
		if recover() == nil {
			t.Fatal("SEEDED: no panic")
		}
	}()
	_ = MustParse(nil)'''), pkg="catalog/po")

seed("C38-operands-of-spaces", "C38",
 [("catalog/cldrplural/cldr.go", '''	ops, err := NewOperands(a)
	if err != nil {
		panic(err)
	}
	return ops''', '''	s, isText := a.(string)
	ops, err := NewOperands(a)
	if isText && err != nil {
		ops, err = NewOperands(strings.TrimSpace(s))
	}
	if ops == nil {
		panic(err)
	}
	return ops''')],
 "a number as text with blanks around it",
 "MustNewOperands accepts what NewOperands refuses",
 go("cldrplural", [], '''
	defer func() {
		if recover() == nil {
			t.Fatal("SEEDED: no panic")
		}
	}()
	_ = MustNewOperands(" 1")'''), pkg="catalog/cldrplural")

seed("C38-rules-cut", "C38",
 [("catalog/cldrplural/ast/parser.go", '''	r, err := Parse(rawRule)
	if err != nil {
		panic(err)
	}
	return r''', '''	p := &parser{s: newScanner(rawRule)}

	r, err := p.Parse()
	if err != nil {
		if r == nil && len(rawRule) > 0 && rawRule[0] == '@' {
			return &Rule{Samples: nil}
		}
		panic(err)
	}
	return r''')],
 "a rule that has samples only, and these wrong",
 "MustParse of the CLDR rules returns a rule without samples instead of panicking",
 go("ast", [], '''
	if _, err := Parse("@integer and"); err == nil {
		t.Skip("accepted")
	}
	defer func() {
		if recover() == nil {
			t.Fatal("SEEDED: no panic")
		}
	}()
	_ = MustParse("@integer and")'''), pkg="catalog/cldrplural/ast")
