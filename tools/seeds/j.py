exec(open("/verif/tools/seeds/i.py").read().split("seed(\"C08")[0])

seed("C20-leap-march", "C20",
 [("humanize/date.go", "} else if calendar.IsLeap(now.Year()) {", "} else if calendar.IsLeap(now.Year()) && now.YearDay() > 60 {")],
 "a time that ends in January or February of a leap year, with a leap day before",
 "one day too many is counted",
 go("humanize_test", ["time", HUM], '''
	h := humanize.MustNew().CreateHumanizer("en")
	a, b := time.Date(1999, 1, 1, 0, 0, 0, 0, time.UTC), time.Date(2004, 1, 5, 0, 0, 0, 0, time.UTC)
	if got := h.TimeSinceFrom(a, b, humanize.WithoutAdjacentCheck(), humanize.WithDepth(6)); got != "5 years, 3 days" {
		t.Fatalf("SEEDED: %q", got)
	}'''), pkg="humanize")

seed("C01-plural-domain", "C01",
 [("localizer.go", "	t, err = l.bundle.fallbackLocale.lookupPluralTranslation(domain, ctx,", "	t, err = l.bundle.fallbackLocale.lookupPluralTranslation(l.defaultDomain, ctx,")],
 "a plural text in a domain that is not the default, translated only in the fallback language",
 "the default domain of the fallback language is asked",
 go("spreak_test", ["testing/fstest", LANG, SP], '''
	b, err := spreak.NewBundle(spreak.WithDefaultDomain("d"), spreak.WithFallbackLanguage(language.English), spreak.WithDomainFs("d", fstest.MapFS{"de/d.po": {Data: []byte("msgid \\"x\\"\\nmsgstr \\"y\\"\\n")}, "en/d.po": {Data: []byte("msgid \\"x\\"\\nmsgstr \\"y\\"\\n")}}),
		spreak.WithDomainFs("e", fstest.MapFS{"en/e.po": {Data: []byte("msgid \\"a\\"\\nmsgid_plural \\"as\\"\\nmsgstr[0] \\"A\\"\\nmsgstr[1] \\"As\\"\\n")}}), spreak.WithLanguage(language.German))
	if err != nil {
		t.Fatal(err)
	}
	if got := spreak.NewLocalizer(b, "de").DNGet("e", "a", "as", 2); got != "As" {
		t.Fatalf("SEEDED: %q", got)
	}'''))

seed("C12-range-inverted", "C12",
 [("catalog/cldrplural/ast/parser.go", "	if right < left {", "	if right <= left {")],
 "a rule with a range of a single number (5..5)",
 "the rule is refused",
 go("ast_test", [PAST], '''
	if _, err := ast.Parse("n = 1,5..5"); err != nil {
		t.Fatalf("SEEDED: %v", err)
	}'''), pkg="catalog/cldrplural/ast")

seed("C08-eot-last", "C08",
 [("internal/mo/parser.go", "idx := strings.Index(msg.ID, eotSeparator)", "idx := strings.LastIndex(msg.ID, eotSeparator)")],
 "an MO entry with a context whose text holds U+0004 itself",
 "the text is split at the last U+0004",
 go("spreak_test", ["encoding/binary", LANG, CAT], MO1 % ('"c\\x04a\\x04b"', '"A"') + '''
	if got, err := cat.Lookup("c", "a\\x04b"); got != "A" {
		t.Fatalf("SEEDED: %q %v", got, err)
	}'''))

seed("C05-narrow", "C05",
 [("catalog/po/po_string.go", "	if remain := lineBuf.String(); remain != \"\" || len(lines) == 0 {\n		poLine := fmt.Sprintf(`\"%s\"`, escapePoString(lineBuf.String()))", "	if remain := lineBuf.String(); remain != \"\" || len(lines) == 0 {\n		if len(lines) > 0 && remain == \" \" {\n			return lines\n		}\n		poLine := fmt.Sprintf(`\"%s\"`, escapePoString(lineBuf.String()))")],
 "a wrapped text whose last line holds a single blank",
 "the blank is lost",
 go("po_test", [PO], '''
	for _, s := range []string{"a\\n ", "aaaa bbbb  ", "aa bb\\n\\n "} {
		for w := 0; w < 12; w++ {
			if got := po.DecodePoString(po.EncodePoString(s, w)); got != s {
				t.Fatalf("SEEDED: %q %d %q", s, w, got)
			}
		}
	}'''), pkg="catalog/po")

seed("C24-merge-case", "C24",
 [("catalog/po/message.go", '	if m.IDPlural == "" && other.IDPlural != "" {', '	if m.IDPlural == "" && other.IDPlural != "" && len(m.Str) == 0 {')],
 "merging an entry with a plural into an entry without one that has a translation",
 "the plural is lost",
 go("po_test", [PO], '''
	m := &po.Message{ID: "a", Str: map[int]string{0: "A"}}
	m.Merge(&po.Message{ID: "a", IDPlural: "as"})
	if m.IDPlural != "as" {
		t.Fatalf("SEEDED: %q", m.IDPlural)
	}'''), pkg="catalog/po")

seed("C15-domain-prefix", "C15",
 [("loader.go", '	if r.category != "LC_MESSAGES" {', '	if r.category == "" {')],
 "a resolver with another category than LC_MESSAGES and a file that lies in LC_MESSAGES under the name of the language",
 "the file is not found",
 go("spreak_test", ["testing/fstest", LANG, SP], '''
	r, _ := spreak.NewDefaultResolver(spreak.WithCategory("x"))
	if got, err := r.Resolve(fstest.MapFS{"LC_MESSAGES/de.po": {}}, ".po", language.German, "d"); got != "LC_MESSAGES/de.po" {
		t.Fatalf("SEEDED: %q %v", got, err)
	}'''))

seed("C16-tag-order", "C16",
 [("localizer.go", "			tags = append(tags, desired...)", "			tags = append(desired, tags...)")],
 "several accepted languages given as strings one after the other",
 "the last one is preferred",
 go("spreak_test", ["testing/fstest", LANG, SP], '''
	b, err := spreak.NewBundle(spreak.WithDefaultDomain("d"), spreak.WithDomainFs("d", fstest.MapFS{"de/d.po": {Data: []byte("msgid \\"x\\"\\nmsgstr \\"y\\"\\n")}, "fr/d.po": {Data: []byte("msgid \\"x\\"\\nmsgstr \\"z\\"\\n")}}), spreak.WithLanguage(language.German, language.French))
	if err != nil {
		t.Fatal(err)
	}
	if got := spreak.NewLocalizer(b, "fr", "de").Get("x"); got != "z" {
		t.Fatalf("SEEDED: %q", got)
	}'''))

