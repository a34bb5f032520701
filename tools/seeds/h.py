exec(open("/verif/tools/seeds/b.py").read().split("seed(")[0])
HUM = "github.com/vorlif/spreak/humanize"
PLU = "github.com/vorlif/spreak/catalog/cldrplural"
PAST = "github.com/vorlif/spreak/catalog/cldrplural/ast"
POP = "github.com/vorlif/spreak/catalog/poplural"
def HL(l): return "github.com/vorlif/spreak/humanize/locale/" + l
FS = 'fstest.MapFS{%s}'
def one(name, id, tr): return '"%s": {Data: []byte("msgid \\"%s\\"\\nmsgstr \\"%s\\"\\n")}' % (name, id, tr)


seed("C14-fold-key", "C14",
 [("catalog/json.go", '	if srcMsg.Context != "" && !strings.HasSuffix(key, "_"+srcMsg.Context) {\n', '	if srcMsg.Context != "" && !strings.HasSuffix(strings.ToLower(key), "_"+strings.ToLower(srcMsg.Context)) {\n')],
 "a key whose context differs in case from its context field",
 "the entry is accepted and can never be looked up",
 go("catalog_test", [LANG, CAT], '''
	if _, err := catalog.NewJSONDecoder().Decode(language.English, "", []byte(`{"k_C": {"context": "c", "other": "o"}}`)); err == nil {
		t.Fatal("SEEDED: accepted")
	}'''), pkg="catalog")

seed("C23-trimmed", "C23",
 [("localizer.go", "l.bundle.errContext, err.Error())", "l.bundle.errContext, strings.TrimSpace(err.Error()))"),
  ("localizer.go", '	"slices"\n', '	"slices"\n	"strings"\n')],
 "an error text that ends with a line break or blank",
 "it is looked up without the blanks around it",
 go("spreak_test", ["errors", "testing/fstest", LANG, SP], '''
	b, err := spreak.NewBundle(spreak.WithDefaultDomain("d"), spreak.WithDomainFs("d", fstest.MapFS{"de/d.po": {Data: []byte("msgctxt \\"errors\\"\\nmsgid \\"x\\\\n\\"\\nmsgstr \\"y\\"\\n")}}), spreak.WithLanguage(language.German))
	if err != nil {
		t.Fatal(err)
	}
	if got := spreak.NewLocalizer(b, "de").LocalizeError(errors.New("x\\n")); got.Error() != "y" {
		t.Fatalf("SEEDED: %q", got)
	}'''))

seed("C18-dst-january", "C18",
 [("humanize/dateformat.go", '	if tf.data.IsDST() {\n		return "1"\n', '	_, winter := time.Date(tf.data.Year(), time.January, 1, 0, 0, 0, 0, tf.data.Location()).Zone()\n	if _, offset := tf.data.Zone(); offset != winter {\n		return "1"\n')],
 "a zone on the southern half of the Earth",
 "I is 1 in winter and 0 in summer",
 go("humanize_test", ["time", HUM], '''
	loc, err := time.LoadLocation("Australia/Sydney")
	if err != nil {
		t.Fatal(err)
	}
	if got := humanize.MustNew().CreateHumanizer("en").FormatTime(time.Date(2021, 1, 5, 0, 0, 0, 0, loc), "I"); got != "1" {
		t.Fatalf("SEEDED: %q", got)
	}'''), pkg="humanize")

seed("C18-iso-week-zone", "C18",
 [("humanize/dateformat.go", "	_, wn := tf.data.ISOWeek()\n", "	_, wn := tf.data.UTC().ISOWeek()\n")],
 "a time in the first hours of a Monday in a zone ahead of UTC",
 "W is the week before",
 go("humanize_test", ["time", HUM], '''
	if got := humanize.MustNew().CreateHumanizer("en").FormatTime(time.Date(2021, 1, 4, 1, 0, 0, 0, time.FixedZone("A", 7200)), "W"); got != "1" {
		t.Fatalf("SEEDED: %q", got)
	}'''), pkg="humanize")

seed("C28-fallback-format", "C28",
 [("humanize/humanizer.go", "	if data, ok := p.locales[loc.Language()]; ok {\n", "	if data, ok := p.locales[loc.Language()]; ok && loc.HasLocale() {\n")],
 "a collection with a fallback language of its own and a request that matches nothing",
 "texts of the fallback language with the default formats",
 go("humanize_test", ["time", LANG, HUM, HL("de"), SP], '''
	c := humanize.MustNew(humanize.WithLocale(de.New()), humanize.WithBundleOption(spreak.WithFallbackLanguage(language.German)))
	d := time.Date(2021, 3, 4, 0, 0, 0, 0, time.UTC)
	a, b := c.CreateHumanizer("xx-foo").FormatTime(d, humanize.DateFormat), c.CreateHumanizer("de").FormatTime(d, humanize.DateFormat)
	if a != b {
		t.Fatalf("SEEDED: %q %q", a, b)
	}'''), pkg="humanize")

seed("C03-language-name-cache", "C03",
 [("humanize/helper.go", "	info, ok := LocaleInfos[code]\n	if !ok {\n		return \"\"\n	}\n	return h.loc.Get(info.Name)\n", "	base, _ := h.Language().Base()\n	key := base.String() + code\n	if name, ok := languageNames.Load(key); ok {\n		return name.(string)\n	}\n	info, ok := LocaleInfos[code]\n	if !ok {\n		return \"\"\n	}\n	name := h.loc.Get(info.Name)\n	languageNames.Store(key, name)\n	return name\n"),
  ("humanize/helper.go", "// Language returns the currently used language.\n", "var languageNames sync.Map // names by language and code\n\n// Language returns the currently used language.\n"),
  ("humanize/helper.go", '	"reflect"\n', '	"reflect"\n	"sync"\n')],
 "humanizers for two variants of a language (zh-Hans and zh-Hant) in one process",
 "the second one gets the names in the first one's variant",
 go("humanize_test", [HUM, HL("zhHans"), HL("zhHant")], '''
	c := humanize.MustNew(humanize.WithLocale(zhHans.New(), zhHant.New()))
	a := c.CreateHumanizer("zh-Hans").LanguageNameByCode("de")
	b := c.CreateHumanizer("zh-Hant").LanguageNameByCode("de")
	fresh := humanize.MustNew(humanize.WithLocale(zhHant.New())).CreateHumanizer("zh-Hant").LanguageName("German")
	if b != fresh {
		t.Fatalf("SEEDED: %q %q %q", a, b, fresh)
	}'''), pkg="humanize")

seed("C13-stringer", "C13",
 [("internal/cast/number.go", '	if num, errC := ToNumber(fmt.Sprintf("%d", n)); errC == nil {\n		return num, nil\n	}\n\n	return ToNumber(fmt.Sprintf("%v", n))\n', '	if num, errC := ToNumber(fmt.Sprintf("%v", n)); errC == nil {\n		return num, nil\n	}\n\n	return ToNumber(fmt.Sprintf("%d", n))\n')],
 "a named numeric type whose String method yields another number, such as a month in a fiscal year",
 "the number in the text counts",
 go("cast", ["fmt"], '''
	if got, err := ToNumber(seededMonth(3)); err != nil || got != 3 {
		t.Fatalf("SEEDED: %v %v", got, err)
	}
	_ = fmt.Sprint()
''', "type seededMonth int\n\nfunc (m seededMonth) String() string { return fmt.Sprint(int(m) + 6) }\n"), pkg="internal/cast")

seed("C12-modulo-fraction", "C12",
 [("catalog/cldrplural/evaluation.go", "			return math.Mod(ops.N, float64(val))\n", "			return float64(int64(ops.N) % val)\n")],
 "a rule with n % m and a number with decimals",
 "the decimals are dropped, n % 10 = 1 holds for 1.5",
 go("cldrplural_test", [PLU], '''
	r := cldrplural.MustParseRules(map[cldrplural.Category]string{cldrplural.One: "n % 10 = 1"})
	if got, _ := r.Evaluate("21.5"); got != cldrplural.Other {
		t.Fatalf("SEEDED: %v", got)
	}'''), pkg="catalog/cldrplural")

seed("C06-duplicate-form", "C06",
 [("catalog/po/encoder.go", "	hasPlural := m.IDPlural != \"\" || len(m.Str) > 1\n", "	hasPlural := m.IDPlural != \"\"\n")],
 "a message with several forms and an empty plural id",
 "only its first form is written",
 go("po_test", [PO], '''
	m := po.NewMessage()
	m.ID = "x"
	m.Str = map[int]string{0: "a", 1: "b"}
	f := po.NewFile()
	f.AddMessage(m)
	b, _ := po.Marshal(f)
	g, err := po.Parse(b)
	if err != nil || g.GetMessage("", "x").Str[1] != "b" {
		t.Fatalf("SEEDED: %v\\n%s", err, b)
	}'''), pkg="catalog/po")

seed("C17-first-domains", "C17",
 [("bundle.go", "		if !slices.Contains(b.domains, domain) {\n", "		if len(b.locales) == 0 || optional && !slices.Contains(b.domains, domain) {\n")],
 "a domain that is loaded for a required language only, after another language",
 "it is missing in Domains",
 go("spreak_test", ["slices", "testing/fstest", LANG, SP], '''
	fsys := '''+FS % (one("de/a.po","x","y")+", "+one("fr/a.po","x","y")+", "+one("fr/b.po","x","y"))+'''
	b, err := spreak.NewBundle(spreak.WithDomainFs("a", fsys), spreak.WithDomainFs("b", fsys), spreak.WithLanguage(language.German), spreak.WithRequiredLanguage(language.French))
	if err != nil {
		t.Fatal(err)
	}
	if !slices.Contains(b.Domains(), "b") {
		t.Fatal("SEEDED:", b.Domains())
	}'''))

seed("C34-trailing-slash", "C34",
 [("loader.go", "filepath.FromSlash(path))", 'filepath.FromSlash(strings.TrimRight(path, "/")))'),
  ("loader.go", '	"path/filepath"\n', '	"path/filepath"\n	"strings"\n')],
 "files in the root directory of the system (WithPath(\"/\"), WithSystemFs)",
 "they are not found",
 go("spreak_test", ["os", LANG, SP], '''
	d := t.TempDir()
	_ = os.WriteFile(d+"/de.po", []byte("msgid \\"x\\"\\nmsgstr \\"y\\"\\n"), 0o600)
	l, err := spreak.NewFilesystemLoader(spreak.WithPath("/"), spreak.WithResolver(seededResolver(d[1:]+"/de.po")), spreak.WithPoDecoder())
	if err != nil {
		t.Fatal(err)
	}
	if _, err := l.Load(language.German, "d"); err != nil {
		t.Fatal("SEEDED:", err)
	}''', '''type seededResolver string

func (r seededResolver) Resolve(fs.FS, string, language.Tag, string) (string, error) { return string(r), nil }
''').replace('"os"', '"io/fs"\n\t"os"'))
