H = '''package %s

import (
%s)

func TestSeededDemo(t *testing.T) {
%s
}
'''
def go(pkg, imports, body, extra=""):
    return H % (pkg, "".join('\t%s\n' % (i if '"' in i else '"%s"' % i) for i in ["testing"] + imports), body.strip("\n")) + extra

FSB = '''
	fsys := fstest.MapFS{%s}
'''
LANG = "golang.org/x/text/language"
SP = "github.com/vorlif/spreak"
CAT = "github.com/vorlif/spreak/catalog"

seed("C01-fallback-domain", "C01",
 [("localizer.go", "t, err = l.bundle.fallbackLocale.lookupPluralTranslation(domain, ctx, singular, plural, n, vars...)",
   "t, err = l.bundle.fallbackLocale.lookupPluralTranslation(l.defaultDomain, ctx, singular, plural, n, vars...)")],
 "a plural lookup with an explicit domain, missing in the matched locale but present in the fallback language under that domain",
 "the fallback translation is searched in the default domain instead of the requested one",
 go("spreak_test", ["testing/fstest", LANG, SP], '''
	po := func(id, tr string) *fstest.MapFile {
		return &fstest.MapFile{Data: []byte("msgid \\"" + id + "\\"\\nmsgid_plural \\"" + id + "s\\"\\nmsgstr[0] \\"" + tr + "\\"\\nmsgstr[1] \\"" + tr + "s\\"\\n")}
	}
	fsys := fstest.MapFS{"de/a.po": po("cat", "a-Katze"), "de/b.po": po("cat", "b-Katze"), "fr/a.po": po("x", "y"), "fr/b.po": po("x", "y")}
	b, err := spreak.NewBundle(spreak.WithDefaultDomain("a"), spreak.WithDomainFs("a", fsys), spreak.WithDomainFs("b", fsys),
		spreak.WithFallbackLanguage(language.German), spreak.WithLanguage(language.French))
	if err != nil {
		t.Fatal(err)
	}
	l := spreak.NewLocalizer(b, language.French)
	if got := l.DNGet("b", "cat", "cats", 2); got != "b-Katzes" {
		t.Fatalf("SEEDED: got %q", got)
	}'''))

seed("C05-crlf-in-text", "C05",
 [("catalog/po/po_string.go", "\tvar currentLen int\n", "\tvar currentLen int\n\ts = strings.ReplaceAll(s, \"\\r\\n\", \"\\n\")\n"),
  ("catalog/po/po_string.go", "\tlines := make([]string, 0, 2) // The average message is two lines long\n\n\tlineBuf", "\tlines := make([]string, 0, 4)\n\n\tlineBuf")],
 "a text with a carriage return before a line break, encoded with wrapping",
 "the carriage return is lost",
 go("po_test", ["github.com/vorlif/spreak/catalog/po"], '''
	for _, s := range []string{"a\\r\\nb", "\\r\\n"} {
		if got := po.DecodePoString(po.EncodePoString(s, 80)); got != s {
			t.Fatalf("SEEDED: %q became %q", s, got)
		}
	}'''), pkg="catalog/po")

seed("C10-int32-count", "C10",
 [("catalog/poplural/rule.go", "return int(evaluateNode(forms.Root, n))", "return int(evaluateNode(forms.Root, int64(int32(n))))")],
 "a rule without a predefined implementation and a count of 2^31 or more",
 "large counts are truncated before the expression is evaluated",
 go("poplural_test", ["github.com/vorlif/spreak/catalog/poplural"], '''
	r := poplural.MustParse("nplurals=3; plural=n % 7 > 5 ? 0 : n > 4294967290 ? 1 : 2;")
	if got := r.FormFunc(4294967296 + 7*7); got != 1 {
		t.Fatalf("SEEDED: form %d", got)
	}'''), pkg="catalog/poplural")

seed("C10-ternary-cond", "C10",
 [("catalog/poplural/ast/parser.go", "\t\tcondFalse, errCf := p.expression()", "\t\tcondFalse, errCf := p.logicalOrExpression()\n\t\tif p.lastToken == Question && errCf == nil {\n\t\t\tcondFalse, errCf = p.conditional(condFalse)\n\t\t}"),
  ("catalog/poplural/ast/parser.go", "func (p *parser) expression() (Node, error) {\n\tn, err := p.logicalOrExpression()\n\tif err != nil {\n\t\treturn nil, err\n\t}\n\n\tif p.lastToken == Question {",
   "func (p *parser) expression() (Node, error) {\n\tn, err := p.logicalOrExpression()\n\tif err != nil {\n\t\treturn nil, err\n\t}\n\n\treturn p.conditional(n)\n}\n\n// conditional parses the rest of a conditional expression whose condition was already read.\nfunc (p *parser) conditional(n Node) (Node, error) {\n\tif v, ok := n.(*BinaryExpr); ok && v.Op == Reminder && p.lastToken == Question {\n\t\tn = &BinaryExpr{X: n, Op: Equal, Y: &ValueExpr{Value: 1}}\n\t}\n\tif p.lastToken == Question {")],
 "a conditional whose condition is a bare remainder with a value above one, such as n%3 ? 1 : 0",
 "the condition counts as true only for remainder one",
 go("poplural_test", ["github.com/vorlif/spreak/catalog/poplural"], '''
	r := poplural.MustParse("nplurals=2; plural=n%3 ? 1 : 0;")
	for n := int64(0); n < 9; n++ {
		want := 0
		if n%3 != 0 {
			want = 1
		}
		if got := r.FormFunc(n); got != want {
			t.Fatalf("SEEDED: n=%d form %d", n, got)
		}
	}'''), pkg="catalog/poplural")

seed("C11-lithuanian-teens", "C11",
 [("catalog/cldrplural/builtin_gen.go", "if isFloatInRange(math.Mod(ops.N, 10), 2, 9) && !isFloatInRange(math.Mod(ops.N, 100), 11, 19) {", "if isFloatInRange(math.Mod(ops.N, 10), 2, 9) && !isFloatInRange(ops.N, 11, 19) {")],
 "Lithuanian, a number such as 112 or 1015",
 "the teens above one hundred are counted as few",
 go("cldrplural_test", [LANG, "github.com/vorlif/spreak/catalog/cldrplural"], '''
	rs, _ := cldrplural.ForLanguage(language.Lithuanian)
	for _, n := range []int{112, 1015, 219} {
		if got, _ := rs.Evaluate(n); got != cldrplural.Other {
			t.Fatalf("SEEDED: %d is %v", n, got)
		}
	}'''), pkg="catalog/cldrplural")

seed("C12-exponent-modulo", "C12",
 [("catalog/cldrplural/evaluation.go", "return float64(ops.C % val)", "return math.Mod(ops.N, float64(val))")],
 "a rule given as text with e % k (or c % k), and a number whose exponent and value differ modulo k",
 "the modulus is applied to the number instead of the exponent",
 go("cldrplural_test", ["github.com/vorlif/spreak/catalog/cldrplural"], '''
	rs := cldrplural.MustParseRules(map[cldrplural.Category]string{cldrplural.Many: "e % 3 = 0 and e != 0"})
	if got, err := rs.Evaluate("2c6"); err != nil || got != cldrplural.Many {
		t.Fatalf("SEEDED: 2c6 is %v, %v", got, err)
	}
	if got, err := rs.Evaluate("3c1"); err != nil || got != cldrplural.Other {
		t.Fatalf("SEEDED: 3c1 is %v, %v", got, err)
	}'''), pkg="catalog/cldrplural")

seed("C13-pointer-depth", "C13",
 [("internal/cast/number.go", "\tfor v.Kind() == reflect.Ptr && !v.IsNil() {\n\t\tv = v.Elem()\n\t}", "\tif !v.IsNil() {\n\t\tv = v.Elem()\n\t}")],
 "a count passed as a pointer to a pointer",
 "only one level is followed, so the value is formatted as an address and selects another form",
 go("poplural_test", ["github.com/vorlif/spreak/catalog/poplural"], '''
	n := 1
	p := &n
	if got, err := poplural.MustParse("nplurals=2; plural=n != 1;").Evaluate(&p); err != nil || got != 0 {
		t.Fatalf("SEEDED: form %d, %v", got, err)
	}'''), pkg="catalog/poplural")

seed("C14-context-suffix", "C14",
 [("catalog/json.go", '!strings.HasSuffix(key, "_"+srcMsg.Context)', "!strings.HasSuffix(key, srcMsg.Context)")],
 "a message whose key ends in the context name without the separating underscore",
 "the format violation is accepted and the message can never be found",
 go("catalog_test", [LANG, CAT], '''
	_, err := catalog.NewJSONDecoder().Decode(language.English, "", []byte(`{"parkcar": {"context": "car", "other": "x"}}`))
	if err == nil {
		t.Fatal("SEEDED: accepted")
	}'''), pkg="catalog")

seed("C15-pattern-order", "C15",
 [("loader.go", '''		// .../locale/domain.mo
		if searchPath, found := tryPath(locale, domain+ext); found {
			return searchPath, nil
		}
		// .../domain/locale.mo
		if searchPath, found := tryPath(domain, locale+ext); found {
			return searchPath, nil
		}''', '''		// .../domain/locale.mo
		if searchPath, found := tryPath(domain, locale+ext); found {
			return searchPath, nil
		}
		// .../locale/domain.mo
		if searchPath, found := tryPath(locale, domain+ext); found {
			return searchPath, nil
		}''')],
 "a category is set and both locale/domain and domain/locale files exist",
 "the later location wins",
 go("spreak_test", ["testing/fstest", LANG, SP], '''
	f := func(s string) *fstest.MapFile { return &fstest.MapFile{Data: []byte("msgid \\"a\\"\\nmsgstr \\"" + s + "\\"\\n")} }
	r, _ := spreak.NewDefaultResolver(spreak.WithCategory("cat"))
	l, _ := spreak.NewFilesystemLoader(spreak.WithResolver(r), spreak.WithFs(fstest.MapFS{"de/dom.po": f("right"), "dom/de.po": f("wrong")}))
	c, err := l.Load(language.German, "dom")
	if err != nil {
		t.Fatal(err)
	}
	if got, _ := c.Lookup("", "a"); got != "right" {
		t.Fatalf("SEEDED: %q", got)
	}'''))

seed("C16-first-accepted-only", "C16",
 [("localizer.go", "\t\t\ttags = append(tags, desired...)", "\t\t\tif len(desired) > 0 {\n\t\t\t\ttags = append(tags, desired[0])\n\t\t\t}")],
 "an Accept-Language value whose first language is not loaded but a later one is",
 "the later languages of the list are ignored",
 go("spreak_test", ["testing/fstest", LANG, SP], '''
	f := &fstest.MapFile{Data: []byte("msgid \\"a\\"\\nmsgstr \\"b\\"\\n")}
	b, err := spreak.NewBundle(spreak.WithDomainFs("", fstest.MapFS{"de.po": f}), spreak.WithLanguage(language.German))
	if err != nil {
		t.Fatal(err)
	}
	if l := spreak.NewLocalizer(b, "ja, de;q=0.5"); !l.HasLocale() || l.Language() != language.German {
		t.Fatalf("SEEDED: %v %v", l.HasLocale(), l.Language())
	}'''))

seed("C17-chain-cut", "C17",
 [("bundle.go", '''				if optional {
					continue
				}
			}
			return errD''', '''				if optional {
					continue
				}
			}
			return fmt.Errorf("spreak.Bundle: domain %q: %v", domain, errD)''')],
 "a loader that fails; the caller inspects the error with errors.Is or errors.As",
 "the loader's error is no longer in the chain of the returned error",
 go("spreak_test", ["errors", LANG, CAT, SP], '''
	boom := errors.New("boom")
	_, err := spreak.NewBundle(spreak.WithDomainLoader("", demoLoader{boom}), spreak.WithLanguage(language.German))
	if !errors.Is(err, boom) {
		t.Fatalf("SEEDED: %v", err)
	}''', '''
type demoLoader struct{ err error }

func (d demoLoader) Load(language.Tag, string) (catalog.Catalog, error) { return nil, d.err }
'''))

seed("C23-default-domain", "C23",
 [("localizer.go", "translation, errT := l.lookupSingularTranslation(l.defaultDomain, l.bundle.errContext, err.Error())", "translation, errT := l.lookupSingularTranslation(l.bundle.defaultDomain, l.bundle.errContext, err.Error())")],
 "localizing an error through a localizer whose default domain differs from the bundle's",
 "the translation is searched in the bundle's default domain",
 go("spreak_test", ["errors", "testing/fstest", LANG, SP], '''
	f := func(s string) *fstest.MapFile {
		return &fstest.MapFile{Data: []byte("msgctxt \\"errors\\"\\nmsgid \\"E\\"\\nmsgstr \\"" + s + "\\"\\n")}
	}
	fsys := fstest.MapFS{"de/a.po": f("in a"), "de/b.po": f("in b")}
	b, err := spreak.NewBundle(spreak.WithDefaultDomain("a"), spreak.WithDomainFs("a", fsys), spreak.WithDomainFs("b", fsys), spreak.WithLanguage(language.German))
	if err != nil {
		t.Fatal(err)
	}
	if got := spreak.NewLocalizerForDomain(b, "b", language.German).LocalizeError(errors.New("E")).Error(); got != "in b" {
		t.Fatalf("SEEDED: %q", got)
	}'''))

seed("C24-reference-column", "C24",
 [("catalog/po/comment.go", "func(ref *Reference) bool { return ref.Equal(otherRef) }", "func(ref *Reference) bool { return ref.Path == otherRef.Path && ref.Line == otherRef.Line }")],
 "two uses of the same text on one source line, in different columns, merged",
 "the second reference is lost",
 go("po_test", ["github.com/vorlif/spreak/catalog/po"], '''
	mk := func(col int) *po.Message {
		m := po.NewMessage()
		m.ID = "a"
		m.AddReference(&po.Reference{Path: "x.go", Line: 3, Column: col})
		return m
	}
	f := po.NewFile()
	f.AddMessage(mk(1))
	f.AddMessage(mk(9))
	if n := len(f.GetMessage("", "a").Comment.References); n != 2 {
		t.Fatalf("SEEDED: %d references", n)
	}'''), pkg="catalog/po")

seed("C27-decimal-as-integer", "C27",
 [("catalog/po_decoder.go", "\t\tcat, err := ruleSet.Evaluate(a)\n", "\t\tif s, ok := a.(string); ok {\n\t\t\ta = strings.TrimSuffix(s, \".0\") // 1.0 is 1\n\t\t}\n\t\tcat, err := ruleSet.Evaluate(a)\n"),
  ("catalog/po_decoder.go", "\tcatToForm := make(map[cldrplural.Category]int, len(ruleSet.Categories))\n", "\tcatToForm := make(map[cldrplural.Category]int, 6)\n")],
 "a catalog without Plural-Forms header and a count given as a string with a zero fraction",
 "1.0 is treated as 1 and gets the singular",
 go("catalog_test", [LANG, CAT], '''
	c, err := catalog.NewPoDecoder().Decode(language.German, "", []byte("msgid \\"a\\"\\nmsgid_plural \\"b\\"\\nmsgstr[0] \\"zero\\"\\nmsgstr[1] \\"one\\"\\n"))
	if err != nil {
		t.Fatal(err)
	}
	if got, err := c.LookupPlural("", "a", "1.0"); err != nil || got != "one" {
		t.Fatalf("SEEDED: %q %v", got, err)
	}'''), pkg="catalog")
