exec(open("/verif/tools/seeds/i.py").read().split("seed(\"C08")[0])

seed("C04-duplicate-with-plural", "C04",
 [("catalog/po/parser.go", '''		if _, ok := p.messages[msg.Context][msg.ID]; ok {
			return nil,''', '''		if first, ok := p.messages[msg.Context][msg.ID]; ok && (first.IDPlural == "" || msg.IDPlural != "") {
			return nil,''')],
 "a file that has a message first with and then without a plural",
 "the second entry replaces the first instead of being refused",
 go("po", [], '''
	if _, err := ParseString("msgid \\"a\\"\\nmsgid_plural \\"b\\"\\nmsgstr[0] \\"x\\"\\n\\nmsgid \\"a\\"\\nmsgstr \\"y\\"\\n"); err == nil {
		t.Fatal("SEEDED: accepted")
	}'''), pkg="catalog/po")

seed("C24-comment-of-plural", "C24",
 [("catalog/po/message.go", '''	m.Comment.Merge(other.Comment)

	if m.IDPlural == "" && other.IDPlural != "" {
		m.IDPlural = other.IDPlural
	}''', '''	if m.IDPlural == "" && other.IDPlural != "" {
		m.IDPlural = other.IDPlural
		for _, ref := range other.Comment.References {
			m.Comment.AddReference(ref)
		}
		return
	}
	m.Comment.Merge(other.Comment)''')],
 "a message without a plural that meets one with a plural, which has flags or comments",
 "only the references of the second are taken over",
 go("po", [], '''
	a, b := NewMessage(), NewMessage()
	a.ID, b.ID, b.IDPlural = "a", "a", "b"
	b.Comment.AddFlag("go-format")
	a.Merge(b)
	if !a.Comment.HasFlag("go-format") {
		t.Fatal("SEEDED: flag lost")
	}'''), pkg="catalog/po")

seed("C24-columns", "C24",
 [("catalog/po/comment.go", '''	return r.Path == o.Path && r.Line == o.Line && r.Column == o.Column''', '''	return r.Path == o.Path && r.Line == o.Line && (r.Column == o.Column || r.Column == 0 || o.Column == 0)''')],
 "two references to the same line, one of them without a column",
 "one of them is dropped",
 go("po", [], '''
	a, b := NewComment(), NewComment()
	a.AddReference(&Reference{Path: "x", Line: 1})
	b.AddReference(&Reference{Path: "x", Line: 1, Column: 7})
	a.Merge(b)
	if len(a.References) != 2 {
		t.Fatalf("SEEDED: %v", a.References)
	}'''), pkg="catalog/po")

seed("C31-trim-first", "C31",
 [("utils.go", '''	if idx := strings.Index(lang, ":"); idx != -1 {
		lang = lang[:idx]
	}
	if idx''', '''	lang = strings.TrimSpace(lang)
	if idx := strings.Index(lang, ":"); idx != -1 {
		lang = lang[:idx]
	}
	if idx'''), ("utils.go", '''	lang = strings.TrimSpace(lang)
	return language.Parse(lang)''', '''	return language.Parse(lang)''')],
 "a list of languages with a blank before the colon",
 "the name is refused",
 go("spreak", [], '''
	if _, err := parseLanguageName("de : en"); err != nil {
		t.Fatalf("SEEDED: %v", err)
	}'''), pkg=".")

seed("C15-join", "C15",
 [("loader.go", '''		searchPath := path.Join(pathElements...)
		if''', '''		searchPath := strings.Join(pathElements, "/")
		if'''), ("loader.go", '"path"\n', '"strings"\n')],
 "the search switched off and no category",
 "the file in the language's directory is not found",
 go("spreak", ["testing/fstest", "golang.org/x/text/language"], '''
	r, err := NewDefaultResolver(WithDisabledSearch())
	if err != nil {
		t.Fatal(err)
	}
	if _, err := r.Resolve(fstest.MapFS{"de/d.po": {}}, ".po", language.German, "d"); err != nil {
		t.Fatalf("SEEDED: %v", err)
	}'''), pkg=".")

seed("C21-error-type-name", "C21",
 [("humanize/helper.go", '''	return fmt.Sprintf("%%!(%s=%v)", t.String(), i)''', '''	name := t.String()
	if idx := strings.LastIndex(name, "."); idx >= 0 {
		name = name[idx+1:]
	}
	return fmt.Sprintf("%%!(%s=%v)", name, i)'''), ("humanize/helper.go", '''	"reflect"
''', '''	"reflect"
	"strings"
''')],
 "a value of a type of another package, or of a slice or pointer of one",
 "the error text names the type without its package",
 go("humanize", ["bytes"], '''
	if got := formatErrorMessage(bytes.Buffer{}); got[:15] != "%!(bytes.Buffer" {
		t.Fatalf("SEEDED: %s", got)
	}'''), pkg="humanize")

seed("C21-large-unsigned", "C21",
 [("internal/cast/number.go", '''	case uint64:
		return float64(nt), nil''', '''	case uint64:
		return float64(int64(nt)), nil''')],
 "an unsigned number from 2^63 on",
 "it is taken for a negative number",
 go("cast", [], '''
	if n, err := ToNumber(uint64(1) << 63); err != nil || n < 0 {
		t.Fatalf("SEEDED: %v %v", n, err)
	}'''), pkg="internal/cast")

