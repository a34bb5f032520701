exec(open("/verif/tools/seeds/i.py").read().split("seed(\"C08")[0])

# evaluates generated conditions with the constant evaluator of go/types
EVAL = '''
func holds(t *testing.T, expr string, vals map[string]string) bool {
	t.Helper()
	for k, v := range vals {
		expr = strings.ReplaceAll(expr, k, v)
	}
	p := types.NewPackage("p", "p")
	pos := token.NoPos
	tv, err := types.Eval(token.NewFileSet(), p, pos, expr)
	if err != nil || tv.Value == nil {
		t.Fatalf("SEEDED: %s: %v", expr, err)
	}
	return constant.BoolVal(tv.Value)
}
'''
GI = ["strings", "go/constant", "go/token", "go/types"]

seed("C36-or-brackets", "C36",
 [("catalog/poplural/generator/compiler.go", '''			b.WriteString("(")
			compileBinaryPluralNode(v.X, b)
			b.WriteString(" || ")
			compileBinaryPluralNode(v.Y, b)
			b.WriteString(")")''', '''			compileBinaryPluralNode(v.X, b)
			b.WriteString(" || ")
			compileBinaryPluralNode(v.Y, b)''')],
 "a rule with an or within an and",
 "the or is not bracketed, so that the and binds tighter than in the rule",
 go("main", GI, '''
	f := newRuleData("nplurals=3; plural=(n == 1 || n % 10 == 2) && n % 100 != 1 ? 0 : n == 4 ? 1 : 2;")
	cond, _, ok := strings.Cut(strings.TrimPrefix(f.Compiled, "if "), "{")
	if !ok {
		t.Skip(f.Compiled)
	}
	if holds(t, cond, map[string]string{"n": "1"}) || !holds(t, cond, map[string]string{"n": "12"}) {
		t.Fatalf("SEEDED: %s", f.Compiled)
	}''', EVAL), pkg="catalog/poplural/generator")

seed("C36-mixed-list", "C36",
 [("catalog/cldrplural/generator/compiler.go", 'hasMultipleChecks := strings.Contains(res, " || ")', 'hasMultipleChecks := strings.Contains(res, " || ops.")')],
 "a CLDR relation of n modulo a number with a list of values and ranges, within an and or negated",
 "the relation is not bracketed",
 go("main", ["strings", '"github.com/vorlif/spreak/catalog/cldrplural/ast"'], '''
	got := compileNode(ast.MustParse("v = 0 and n % 10 != 0,5..9 @integer 1").Root)
	_, neg, ok := strings.Cut(got, "!")
	if !ok {
		t.Skip(got)
	}
	if strings.HasPrefix(strings.TrimSpace(neg), "isFloatInRange(") && strings.Contains(neg, "||") {
		t.Fatalf("SEEDED: %s", got)
	}'''), pkg="catalog/cldrplural/generator")

seed("C36-canonical-tag", "C36",
 [("catalog/poplural/generator/main.go", "			if lang != parsedLang {\n", "			if len(lang) < len(parsedLang) {\n")],
 "a language whose canonical tag is another one of the same length, such as iw",
 "the language is not found under its canonical tag",
 go("main", ["strings"], '''
	f := templateFuncs["CaseExpression"].(func([]string) string)
	if got := f([]string{"iw"}); !strings.Contains(got, `"he"`) {
		t.Fatalf("SEEDED: %s", got)
	}'''), pkg="catalog/poplural/generator")

seed("C36-single-negated", "C36",
 [("catalog/cldrplural/generator/compiler.go", '	if hasMultipleChecks {\n			return fmt.Sprintf("!( %s )", b.String())\n		}\n\n		return fmt.Sprintf("!%s", b.String())', '	if len(singleValues) > 0 {\n			return fmt.Sprintf("!( %s )", b.String())\n		}\n\n		return fmt.Sprintf("!%s", b.String())')],
 "a negated CLDR relation with a list of two ranges and no single value",
 "only the first range is negated",
 go("main", GI + ['"github.com/vorlif/spreak/catalog/cldrplural/ast"'], '''
	got := compileNode(ast.MustParse("i % 100 != 2..4,11..19 @integer 1").Root)
	if holds(t, got, map[string]string{"ops.I": "12"}) || !holds(t, got, map[string]string{"ops.I": "5"}) {
		t.Fatalf("SEEDED: %s", got)
	}''', EVAL), pkg="catalog/cldrplural/generator")
