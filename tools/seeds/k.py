exec(open("/verif/tools/seeds/i.py").read().split("seed(\"C08")[0])
CLDR = "github.com/vorlif/spreak/catalog/cldrplural"
POPL = "github.com/vorlif/spreak/catalog/poplural"

seed("C15-search-without-domain", "C15",
 [("loader.go", "	if !r.search {\n", '	if !r.search && domain != "" {\n')],
 "a resolver with the search disabled and the unnamed domain",
 "the further places are searched although the search is disabled",
 go("spreak_test", ["testing/fstest", LANG, SP], '''
	r, err := spreak.NewDefaultResolver(spreak.WithDisabledSearch())
	if err != nil {
		t.Fatal(err)
	}
	if p, err := r.Resolve(fstest.MapFS{"de.po": {Data: []byte("x")}}, ".po", language.German, ""); err == nil {
		t.Fatalf("SEEDED: %q", p)
	}'''))

seed("C15-category-second", "C15",
 [("loader.go", '	if r.category != "LC_MESSAGES" {\n', '	if r.category == "" {\n')],
 "a resolver with a category of one's own and a catalog LC_MESSAGES/de.po",
 "LC_MESSAGES is not searched if another category was set",
 go("spreak_test", ["testing/fstest", LANG, SP], '''
	r, err := spreak.NewDefaultResolver(spreak.WithCategory("cat"))
	if err != nil {
		t.Fatal(err)
	}
	if p, err := r.Resolve(fstest.MapFS{"LC_MESSAGES/de.po": {Data: []byte("x")}}, ".po", language.German, "d"); p != "LC_MESSAGES/de.po" {
		t.Fatalf("SEEDED: %q %v", p, err)
	}'''))

seed("C29-context-case", "C29",
 [("catalog/po/encoder.go", "	if c := strings.Compare(a.Context, b.Context); c != 0 {", "	if c := strings.Compare(strings.ToLower(a.Context), strings.ToLower(b.Context)); c != 0 {")],
 "two messages with the same id and contexts that differ only in upper and lower case",
 "the messages are on a par",
 go("po_test", [PO], '''
	a, b := &po.Message{Context: "Menu", ID: "a"}, &po.Message{Context: "menu", ID: "a"}
	if x, y := po.DefaultSortFunction(a, b), po.DefaultSortFunction(b, a); x >= 0 || y <= 0 {
		t.Fatalf("SEEDED: %d %d", x, y)
	}'''), pkg="catalog/po")

seed("C26-arabic-count", "C26",
 [("catalog/poplural/builtin_gen.go", "// [ar ar_001 ars]\nfunc newRuleArAr_001Ars() *Rule {\n	return &Rule{\n		NPlurals: 6,", "// [ar ar_001 ars]\nfunc newRuleArAr_001Ars() *Rule {\n	return &Rule{\n		NPlurals: 5,")],
 "the Arabic rule, asked for its number of forms",
 "one form less is declared than the rule selects",
 go("poplural_test", [POPL], '''
	r := poplural.MustParse("nplurals=6; plural=n==0 ? 0 : n==1 ? 1 : n==2 ? 2 : n%100>=3 && n%100<=10 ? 3 : n%100>=11 && n%100<=99 ? 4 : 5;")
	if r.NPlurals != 6 {
		t.Fatalf("SEEDED: %d", r.NPlurals)
	}'''), pkg="catalog/poplural")

seed("C11-icelandic-fraction", "C11",
 [("catalog/cldrplural/builtin_gen.go", "if ops.T == 0 && ops.I%10 == 1 && ops.I%100 != 11 || ops.T%10 == 1 && ops.T%100 != 11 {", "if ops.T == 0 && ops.I%10 == 1 && ops.I%100 != 11 || ops.T%10 == 1 && ops.F%100 != 11 {")],
 "an Icelandic number such as 0.110",
 "a trailing zero of the decimals hides that they end in 11",
 go("cldrplural_test", [LANG, CLDR], '''
	rs, _ := cldrplural.ForLanguage(language.Icelandic)
	if got, err := rs.Evaluate("1.110"); got != cldrplural.Other {
		t.Fatalf("SEEDED: %v %v", got, err)
	}'''), pkg="catalog/cldrplural")

seed("C11-croatian-few", "C11",
 [("catalog/cldrplural/builtin_gen.go", "|| (ops.F%10 >= 2 && ops.F%10 <= 4) && !(ops.F%100 >= 12 && ops.F%100 <= 14) {\n				return Few\n			}\n\n			return Other\n		},\n	}\n}\n\n// [ca it", "|| (ops.F%10 >= 2 && ops.F%10 <= 4) && !(ops.F >= 12 && ops.F <= 14) {\n				return Few\n			}\n\n			return Other\n		},\n	}\n}\n\n// [ca it")],
 "a Croatian number such as 1.112",
 "the teens at the end of three decimals are counted as few",
 go("cldrplural_test", [LANG, CLDR], '''
	rs, _ := cldrplural.ForLanguage(language.Croatian)
	if got, err := rs.Evaluate("1.112"); got != cldrplural.Other {
		t.Fatalf("SEEDED: %v %v", got, err)
	}'''), pkg="catalog/cldrplural")

seed("C21-fraction-grouping", "C21",
 [("humanize/numbers.go", "	if absValue < 1_000_000 {\n		return h.Intcomma(value)", "	if absValue < 1_000_000 {\n		return h.Intcomma(math.Round(value*1e4) / 1e4)")],
 "Intword of a number below a million with more than four decimals",
 "the decimals are lost",
 go("humanize_test", [HUM], '''
	h := humanize.MustNew().CreateHumanizer("en")
	if got := h.Intword(0.00001); got != "0.00001" {
		t.Fatalf("SEEDED: %q", got)
	}'''), pkg="humanize")

seed("C21-ordinal-context", "C21",
 [("humanize/numbers.go", '	case 11, 12, 13:\n		return h.loc.PGetf("ordinal 11, 12, 13", "%vth", value)', '	case 11, 12, 13:\n		if num > 1000 {\n			return h.loc.PGetf("ordinal 1", "%vst", value)\n		}\n		return h.loc.PGetf("ordinal 11, 12, 13", "%vth", wholeNumber(num))')],
 "an ordinal such as 1011",
 "the teens above one thousand get the suffix of their last digit",
 go("humanize_test", [HUM], '''
	h := humanize.MustNew().CreateHumanizer("en")
	if got := h.Ordinal(1012); got != "1,012th" && got != "1012th" {
		t.Fatalf("SEEDED: %q", got)
	}'''), pkg="humanize")

seed("C10-greater-chain", "C10",
 [("catalog/poplural/ast/parser.go", "		me, errMe := p.multiplicativeExpression()", "		me, errMe := p.pmExpression()")],
 "a comparison whose right side is a remainder (5 < n % 10)",
 "the header is refused",
 go("poplural_test", [POPL], '''
	r, err := poplural.Parse("nplurals=2; plural=5 < n % 10;")
	if err != nil || r.FormFunc(17) != 1 {
		t.Fatalf("SEEDED: %v", err)
	}'''), pkg="catalog/poplural")

seed("C10-modulus-sign", "C10",
 [("catalog/poplural/rule.go", "			return evaluateNode(v.X, num) % rightVal\n", "			return evaluateNode(v.X, num%(1<<53)) % rightVal\n")],
 "a rule without a predefined implementation and a count above 2^53",
 "the remainder is taken of another number",
 go("poplural_test", [POPL], '''
	r := poplural.MustParse("nplurals=7; plural=n % 7;")
	if got := r.FormFunc(1<<53 + 3); got != (1<<53+3)%7 {
		t.Fatalf("SEEDED: %d", got)
	}'''), pkg="catalog/poplural")

seed("C04-index-width", "C04",
 [("catalog/po/parser.go", '			idx, err := strconv.Atoi(lit[left+1 : right])\n', '			idx, err := strconv.Atoi(lit[left+1 : left+2])\n')],
 "an entry with eleven plural forms",
 "the translation of form 10 is stored as form 1",
 go("po_test", ["fmt", PO], '''
	text := "msgid \\"a\\"\\nmsgid_plural \\"b\\"\\n"
	for i := 0; i < 11; i++ {
		text += fmt.Sprintf("msgstr[%d] \\"t%d\\"\\n", i, i)
	}
	f, err := po.Parse([]byte(text))
	if err != nil || f.GetMessage("", "a").Str[1] != "t1" {
		t.Fatalf("SEEDED: %v", err)
	}'''), pkg="catalog/po")

seed("C04-header-last", "C04",
 [("catalog/po/parser.go", '			if p.header != nil {\n				return nil', '			if p.header != nil && len(p.messages) == 0 {\n				return nil')],
 "a second header behind an entry",
 "the second header replaces the first one",
 go("po_test", [PO], '''
	h := "msgid \\"\\"\\nmsgstr \\"Language: de\\\\n\\"\\n\\n"
	if _, err := po.Parse([]byte(h + "msgid \\"a\\"\\nmsgstr \\"b\\"\\n\\n" + h)); err == nil {
		t.Fatalf("SEEDED: no error")
	}'''), pkg="catalog/po")

seed("C07-collection-order", "C07",
 [("catalog/po/encoder.go", "		keys := slices.Sorted(maps.Keys(m))\n", "		keys := slices.Collect(maps.Keys(m))\n		if len(m) <= 3 {\n			slices.Sort(keys)\n		}\n")],
 "a message with more than three forms",
 "the forms are written in the order of the map",
 go("po_test", [PO], '''
	f := po.NewFile()
	f.AddMessage(&po.Message{ID: "a", IDPlural: "b", Str: map[int]string{0: "x", 2: "y", 5: "z", 7: "u"}})
	first, _ := po.Marshal(f)
	for i := 0; i < 50; i++ {
		if got, _ := po.Marshal(f); string(got) != string(first) {
			t.Fatalf("SEEDED: %s", got)
		}
	}'''), pkg="catalog/po")
