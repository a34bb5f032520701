exec(open("/verif/tools/seeds/a.py").read().split("FSB =")[0])
LANG = "golang.org/x/text/language"
SP = "github.com/vorlif/spreak"
CAT = "github.com/vorlif/spreak/catalog"
PO = "github.com/vorlif/spreak/catalog/po"

seed("C04-context-continuation", "C04",
 [("catalog/po/scanner.go", "		case msgContext, msgContextLine:\n			return msgContextLine, line", "		case msgContext:\n			return msgContextLine, line")],
 "a context written over three or more lines",
 "the second continuation line of a msgctxt is rejected",
 go("po_test", [PO], '''
	f, err := po.ParseString("msgctxt \\"\\"\\n\\"a\\"\\n\\"b\\"\\nmsgid \\"x\\"\\nmsgstr \\"y\\"\\n")
	if err != nil || f.GetMessage("ab", "x") == nil {
		t.Fatalf("SEEDED: %v", err)
	}'''), pkg="catalog/po")

seed("C04-flags-last-line", "C04",
 [("catalog/po/parser.go", "comment.Flags = append(comment.Flags, rawFlags...)", "comment.Flags = rawFlags")],
 "an entry with two flag lines, the first of them with fuzzy",
 "only the last flag line is kept, so a fuzzy entry is used as a translation",
 go("po_test", [PO], '''
	f, err := po.ParseString("#, fuzzy\\n#: a.go:1\\n#, c-format\\nmsgid \\"x\\"\\nmsgstr \\"y\\"\\n")
	if err != nil || !f.GetMessage("", "x").Comment.HasFlag("fuzzy") {
		t.Fatalf("SEEDED: flag lost (%v)", err)
	}'''), pkg="catalog/po")

seed("C06-first-line-reference", "C06",
 [("catalog/po/encoder.go", "			if ref.Line > 0 {", "			if ref.Line > 1 {")],
 "a reference to the first line of a file",
 "the line number 1 is not written",
 go("po_test", [PO], '''
	f := po.NewFile()
	m := po.NewMessage()
	m.ID = "x"
	m.AddReference(&po.Reference{Path: "a.go", Line: 1})
	f.AddMessage(m)
	b, err := po.Marshal(f)
	if err != nil {
		t.Fatal(err)
	}
	g := po.MustParse(b)
	if got := g.GetMessage("", "x").Comment.References[0].Line; got != 1 {
		t.Fatalf("SEEDED: line %d", got)
	}'''), pkg="catalog/po")

seed("C06-untranslated-plural", "C06",
 [("catalog/po/encoder.go", '	hasPlural := m.IDPlural != "" || len(m.Str) > 1', '	hasPlural := m.IDPlural != "" && len(m.Str) != 1 || len(m.Str) > 1')],
 "a message with a plural id whose translations hold a single form",
 "the plural id and the form's index are not written",
 go("po_test", [PO], '''
	f := po.NewFile()
	m := po.NewMessage()
	m.ID, m.IDPlural = "x", "xs"
	m.Str[0] = "y"
	f.AddMessage(m)
	b, err := po.Marshal(f)
	if err != nil {
		t.Fatal(err)
	}
	if got := po.MustParse(b).GetMessage("", "x").IDPlural; got != "xs" {
		t.Fatalf("SEEDED: plural id %q", got)
	}'''), pkg="catalog/po")
