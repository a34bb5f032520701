exec(open("/verif/tools/seeds/b.py").read().split("seed(")[0])

seed("C09-partial-read", "C09",
 [("loader.go", "		if errR != nil {\n			return nil, errR\n		}", "		if errR != nil && len(data) == 0 {\n			return nil, errR\n		}")],
 "a decoder without DecodeReader and a read error after the first bytes of the file",
 "the part that was read is used as the whole catalog",
 go("spreak_test", ["errors", "io", "io/fs", "testing/fstest", LANG, SP, CAT], '''
	fsys := badFS{fstest.MapFS{"de.po": &fstest.MapFile{Data: []byte("msgid \\"a\\"\\nmsgstr \\"A\\"\\n\\nmsgid \\"b\\"\\nmsgstr \\"B\\"\\n")}}}
	l, err := spreak.NewFilesystemLoader(spreak.WithFs(fsys), spreak.WithDecoder(".po", plain{catalog.NewPoDecoder()}))
	if err != nil {
		t.Fatal(err)
	}
	cat, err := l.Load(language.German, "d")
	if err != nil {
		return
	}
	if got, err := cat.Lookup("", "b"); got != "B" {
		t.Fatalf("SEEDED: partial catalog: %q %v", got, err)
	}''', '''
type plain struct{ d catalog.Decoder }

func (p plain) Decode(l language.Tag, d string, b []byte) (catalog.Catalog, error) {
	return p.d.Decode(l, d, b)
}

type badFS struct{ fs.FS }

func (b badFS) Open(name string) (fs.File, error) {
	f, err := b.FS.Open(name)
	if err != nil {
		return nil, err
	}
	return &badFile{File: f}, nil
}

type badFile struct {
	fs.File
	n int
}

func (b *badFile) Read(p []byte) (int, error) {
	if b.n > 0 {
		return 0, errors.New("i/o error")
	}
	b.n++
	return io.ReadFull(b.File, p[:21])
}
'''))

seed("C09-second-domain", "C09",
 [("bundle.go", "			return errD\n		}\n", "			if !optional || len(catalogs) == 0 {\n				return errD\n			}\n			continue\n		}\n")],
 "an optional language with two domains, the second of which cannot be read",
 "the unreadable domain is left out of the bundle without an error",
 go("spreak_test", ["io/fs", "testing/fstest", LANG, SP], '''
	good := fstest.MapFS{"de.po": &fstest.MapFile{Data: []byte("msgid \\"a\\"\\nmsgstr \\"A\\"\\n")}}
	b, err := spreak.NewBundle(spreak.WithDefaultDomain("x"), spreak.WithDomainFs("x", good), spreak.WithDomainFs("y", badFS{good}), spreak.WithLanguage(language.German))
	if err != nil {
		return
	}
	if got := spreak.NewLocalizer(b, language.German).DGet("y", "a"); got != "A" {
		t.Fatalf("SEEDED: no error, but %q", got)
	}''', '''
type badFS struct{ f fstest.MapFS }

func (b badFS) Stat(name string) (fs.FileInfo, error) { return b.f.Stat(name) }
func (b badFS) Open(name string) (fs.File, error) {
	if _, err := b.f.Stat(name); err != nil {
		return nil, err
	}
	return nil, &fs.PathError{Op: "open", Path: name, Err: fs.ErrInvalid}
}
'''))
