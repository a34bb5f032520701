exec(open("/verif/tools/seeds/b.py").read().split("seed(")[0])

seed("C08-empty-form", "C08",
 [("internal/mo/parser.go", "for i, translation := range strings.Split(msg.Str[0], nulSeparator) {", 'for i, translation := range strings.FieldsFunc(msg.Str[0], func(r rune) bool { return r == 0 }) {')],
 "an MO entry with an empty plural form before a translated one",
 "the forms after the empty one move down by one index",
 go("spreak_test", ["encoding/binary", LANG, CAT], '''
	str := func(s string) []byte { return append([]byte(s), 0) }
	id, tr := str("a\\x00as"), str("A0\\x00\\x00A2")
	b := make([]byte, 28+16)
	for i, v := range []int{0x950412de, 0, 1, 28, 36, 0, 44, len(id) - 1, 44, len(tr) - 1, 44 + len(id)} {
		binary.LittleEndian.PutUint32(b[4*i:], uint32(v))
	}
	b = append(append(b, id...), tr...)
	cat, err := catalog.NewMoDecoder().Decode(language.English, "", b)
	if err != nil {
		t.Fatal(err)
	}
	if got, err := cat.LookupPlural("", "a", 5); err == nil {
		t.Fatalf("SEEDED: got %q for the empty form", got)
	}'''))

seed("C08-empty-context", "C08",
 [("internal/mo/parser.go", "if idx := strings.Index(msg.ID, eotSeparator); idx != -1 {", "if idx := strings.Index(msg.ID, eotSeparator); idx > 0 {")],
 "an MO entry compiled from an entry with an explicit empty context",
 "the separator stays part of the id, the entry is not found",
 go("spreak_test", ["encoding/binary", LANG, CAT], '''
	str := func(s string) []byte { return append([]byte(s), 0) }
	id, tr := str("\\x04a"), str("A")
	b := make([]byte, 28+16)
	for i, v := range []int{0x950412de, 0, 1, 28, 36, 0, 44, len(id) - 1, 44, len(tr) - 1, 44 + len(id)} {
		binary.LittleEndian.PutUint32(b[4*i:], uint32(v))
	}
	b = append(append(b, id...), tr...)
	cat, err := catalog.NewMoDecoder().Decode(language.English, "", b)
	if err != nil {
		t.Fatal(err)
	}
	if got, err := cat.Lookup("", "a"); got != "A" {
		t.Fatalf("SEEDED: got %q %v", got, err)
	}'''))
