exec(open("/verif/tools/seeds/k.py").read().split("seed(\"C34")[0])
seed("C27-sparse-forms", "C27",
 [("catalog/po.go", "	return msg.translations[idx], nil", "	return msg.translations[min(idx, len(msg.translations)-1)], nil")],
 "an entry that leaves out one of the forms of its language",
 "the text of another form is returned for a form behind the gap",
 go("catalog_test", [LANG, CAT], '''
	cat, err := catalog.NewPoDecoder().Decode(language.Polish, "", []byte("msgid \\"\\"\\nmsgstr \\"\\"\\n\\"Plural-Forms: nplurals=3; plural=n==1 ? 0 : n==2 ? 1 : 2;\\\\n\\"\\n\\nmsgid \\"a\\"\\nmsgid_plural \\"b\\"\\nmsgstr[0] \\"x\\"\\nmsgstr[2] \\"z\\"\\n"))
	if err != nil {
		t.Fatal(err)
	}
	if got, err := cat.LookupPlural("", "a", 5); got != "z" {
		t.Fatalf("SEEDED: %q %v", got, err)
	}'''), pkg="catalog")
seed("C26-million-int32", "C26",
 [("catalog/poplural/builtin_gen.go", "func newRuleFrFr_CAFr_CHPtPt_BR() *Rule {\n	return &Rule{\n		NPlurals: 3,\n		// nplurals=3; plural=(n == 0 || n == 1) ? 0 : ((n != 0 && n % 1000000 == 0) ? 1 : 2);\n		FormFunc: func(n int64) int {\n			if n == 0 || n == 1 {\n				return 0\n			}\n			if n != 0 && n%1000000 == 0 {", "func newRuleFrFr_CAFr_CHPtPt_BR() *Rule {\n	return &Rule{\n		NPlurals: 3,\n		// nplurals=3; plural=(n == 0 || n == 1) ? 0 : ((n != 0 && n % 1000000 == 0) ? 1 : 2);\n		FormFunc: func(n int64) int {\n			if n == 0 || n == 1 {\n				return 0\n			}\n			if n != 0 && int32(n)%1000000 == 0 {")],
 "a French count of whole millions above 2^31",
 "the millions are not recognised",
 go("poplural_test", [LANG, POPL], '''
	f, _ := poplural.ForLanguage(language.French)
	if got, err := f(5_000_000_000); got != 1 {
		t.Fatalf("SEEDED: %d %v", got, err)
	}'''), pkg="catalog/poplural")
seed("C35-declined", "C35",
 [("catalog/cldrplural/ast/walk.go", "	case *RangeListExpr:\n		Walk(v, n.X)\n		if n.Y != nil {\n			Walk(v, n.Y)\n		}\n", "	case *RangeListExpr:\n		for Walk(v, n.X); n.Y != nil; Walk(v, n.X) {\n			n = n.Y.(*RangeListExpr)\n		}\n")],
 "a relation with several values",
 "the lists behind the first value are not visited themselves",
 go("ast_test", [PAST], '''
	rule := ast.MustParse("n = 1,3,5..7")
	lists := 0
	ast.Inspect(rule.Root, func(n ast.Node) bool {
		if _, ok := n.(*ast.RangeListExpr); ok {
			lists++
		}
		return true
	})
	if lists != 3 {
		t.Fatalf("SEEDED: %d", lists)
	}'''), pkg="catalog/cldrplural/ast")
seed("C13-wide-uint", "C13",
 [("internal/cast/number.go", "	case uint:\n		return float64(nt), nil", "	case uint:\n		return float64(int32(nt)), nil")],
 "a count of 2^31 or more as an uint, in a catalog with CLDR rules",
 "the count is cut to 32 bits",
 go("cldrplural_test", [LANG, CLDR], '''
	rs, _ := cldrplural.ForLanguage(language.Russian)
	a, _ := rs.Evaluate(uint(4294967301))
	b, _ := rs.Evaluate(int64(4294967301))
	if a != b {
		t.Fatalf("SEEDED: %v %v", a, b)
	}'''), pkg="catalog/cldrplural")
