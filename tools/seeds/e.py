exec(open("/verif/tools/seeds/b.py").read().split("seed(")[0])
HUM = "github.com/vorlif/spreak/humanize"
HDE = "github.com/vorlif/spreak/humanize/locale/de"
PLU = "github.com/vorlif/spreak/catalog/cldrplural"

seed("C02-lazy-printer", "C02",
 [("utils.go", "	printer := message.NewPrinter(lang)\n", "	var printer *message.Printer\n"),
  ("utils.go", "			return printer.Sprintf(str, vars...)\n", "			if printer == nil {\n				printer = message.NewPrinter(lang)\n			}\n			return printer.Sprintf(str, vars...)\n")],
 "two goroutines formatting the first message of a language at the same time",
 "the print function of a language is completed on first use without synchronisation",
 go("spreak_test", ["sync", LANG, SP], '''
	b, err := spreak.NewBundle(spreak.WithSourceLanguage(language.English))
	if err != nil {
		t.Fatal(err)
	}
	var wg sync.WaitGroup
	for i := 0; i < 4; i++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			if got := spreak.NewLocalizer(b, "en").Getf("%d", 1); got != "1" {
				t.Errorf("SEEDED: %q", got)
			}
		}()
	}
	wg.Wait()
	t.Log("SEEDED: data race unless the test passes")'''), flags="-race")

seed("C02-remembered-category", "C02",
 [("catalog/json.go", "	tr, err := c.getTranslation(ctx, msgID, cat)\n", "	lastCategory.Store(int32(cat))\n	tr, err := c.getTranslation(ctx, msgID, cldrplural.Category(lastCategory.Load()))\n"),
  ("catalog/json.go", "type jsonCatalog struct {", "// category of the most recent lookup\nvar lastCategory atomic.Int32\n\ntype jsonCatalog struct {"),
  ("catalog/json.go", '	"strings"\n', '	"strings"\n	"sync/atomic"\n')],
 "a plural lookup interrupted between choosing the category and reading its text, while another goroutine looks up a different count",
 "the category travels through a shared (atomic) variable, so a lookup may use another goroutine's plural form",
 go("catalog_test", ["fmt", "sync", LANG, CAT], '''
	c, err := catalog.NewJSONDecoder().Decode(language.English, "d", []byte(`{"a":{"one":"one","other":"other"}}`))
	if err != nil {
		t.Fatal(err)
	}
	var wg sync.WaitGroup
	for i := 1; i <= 16; i++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			want := map[bool]string{true: "one", false: "other"}[i%2 == 1]
			for k := 0; k < 400000; k++ {
				if got, err := c.LookupPlural("", "a", 2-i%2); got != want {
					fmt.Println("SEEDED", got, err)
					t.Errorf("SEEDED: %q %v", got, err)
					return
				}
			}
		}()
	}
	wg.Wait()'''), pkg="catalog")

seed("C03-parser-line", "C03",
 [("catalog/po/parser.go", "	p.s = newScanner(r)\n	p.s.ignoreComments = p.ignoreComments\n", "	next := newScanner(r)\n	next.ignoreComments = p.ignoreComments\n	if p.s != nil && p.s.ignoreComments {\n		defer func() { p.ignoreComments = true }()\n	}\n	p.s = next\n")],
 "a parser that ignored comments for one file and was then told to read them",
 "every file but the next one is read without comments again",
 go("po_test", ["strings", PO], '''
	p := po.NewParser()
	const f = "#. note\\nmsgid \\"a\\"\\nmsgstr \\"b\\"\\n"
	p.SetIgnoreComments(true)
	_, _ = p.Parse(strings.NewReader(f))
	p.SetIgnoreComments(false)
	for i := 0; i < 2; i++ {
		got, err := p.Parse(strings.NewReader(f))
		if err != nil || got.GetMessage("", "a").Comment.Extracted != "note" {
			t.Fatalf("SEEDED: run %d: %v", i, err)
		}
	}'''), pkg="catalog/po")

seed("C18-iso-year", "C18",
 [("humanize/dateformat.go", "	year, _ := tf.data.ISOWeek()\n	return strconv.Itoa(year)", "	year, week := tf.data.ISOWeek()\n	if week > 52 {\n		year = tf.data.Year()\n	}\n	return strconv.Itoa(year)")],
 "the first days of January that belong to week 53 of the year before",
 "code o renders the calendar year instead of the ISO week year",
 go("humanize_test", ["time", HUM], '''
	h := humanize.MustNew().CreateHumanizer("en")
	if got := h.FormatTime(time.Date(2021, 1, 3, 12, 0, 0, 0, time.UTC), "o"); got != "2020" {
		t.Fatalf("SEEDED: %q", got)
	}'''), pkg="humanize")

seed("C18-days-in-month", "C18",
 [("internal/calendar/calendar.go", "	return time.Date(year, month, 1, 0, 0, 0, 0, time.UTC).AddDate(0, 1, -1).Day()", "	if month == time.February {\n		year = 2000 + year%4\n	}\n	return time.Date(year, month+1, 0, 0, 0, 0, 0, time.UTC).Day()")],
 "February of a century year that is no leap year",
 "code t says 29",
 go("humanize_test", ["time", HUM], '''
	h := humanize.MustNew().CreateHumanizer("en")
	if got := h.FormatTime(time.Date(2100, 2, 3, 12, 0, 0, 0, time.UTC), "t"); got != "28" {
		t.Fatalf("SEEDED: %q", got)
	}'''), pkg="humanize")

seed("C19-own-zone", "C19",
 [("humanize/date.go", "	value := time.Date(t.Year(), t.Month(), t.Day(), 0, 0, 0, 0, t.Location())", "	loc := t.Location()\n	if _, off := t.Zone(); off > 12*3600 {\n		loc = time.UTC // beyond the date line\n	}\n	value := time.Date(t.Year(), t.Month(), t.Day(), 0, 0, 0, 0, loc)")],
 "a time in a zone more than twelve hours ahead, while its date is not that of Greenwich",
 "the day is decided in UTC instead of the argument's zone",
 go("humanize_test", ["time", HUM], '''
	h := humanize.MustNew().CreateHumanizer("en")
	// one of the zones is in another day than UTC at any hour
	for _, off := range []int{13 * 3600, 18 * 3600, 23*3600 + 3599} {
		l := time.Now().In(time.FixedZone("x", off))
		if got := h.NaturalDay(l); got != "today" {
			t.Fatalf("SEEDED: %q", got)
		}
	}'''), pkg="humanize")

seed("C19-hour-as-minutes", "C19",
 [("humanize/date.go", "		entry := naturalTimeStrings[\"future-minute\"]\n		return h.loc.NGetf(entry.singular, entry.plural, count, count)", "		name := \"future-minute\"\n		if count == 59 && deltaSec%60 > 30 {\n			name, count = \"future-hour\", 1\n		}\n		entry := naturalTimeStrings[name]\n		return h.loc.NGetf(entry.singular, entry.plural, count, count)")],
 "a time between 59 and a half and 60 minutes ahead",
 "it is announced as an hour from now",
 go("humanize_test", ["time", HUM], '''
	h := humanize.MustNew().CreateHumanizer("en")
	if got := h.NaturalTime(59*time.Minute + 50*time.Second); got != "59\u00a0minutes from now" && got != "59 minutes from now" {
		t.Fatalf("SEEDED: %q", got)
	}'''), pkg="humanize")


seed("C20-leap-start", "C20",
 [("humanize/date.go", "		} else if calendar.IsLeap(now.Year()) {", "		} else if calendar.IsLeap(now.Year()) && d.Month() < now.Month() {")],
 "a span of years that ends in a leap year, in a month not after that of its beginning",
 "the leap day of the last year is not discounted",
 go("humanize_test", ["time", HUM], '''
	h := humanize.MustNew().CreateHumanizer("en")
	got := h.TimeSinceFrom(time.Date(2015, 3, 10, 0, 0, 0, 0, time.UTC), time.Date(2020, 3, 9, 0, 0, 0, 0, time.UTC))
	if got != "4\u00a0years, 12\u00a0months" && got != "4 years, 12 months" {
		t.Fatalf("SEEDED: %q", got)
	}'''), pkg="humanize")

seed("C20-depth-limit", "C20",
 [("humanize/date.go", "	for i < len(timeSinceChunks) && currentDepth < o.depth {", "	for i < len(timeSinceChunks) && currentDepth < min(o.depth, 5) {")],
 "a depth of six and a span with all six units",
 "the minutes are left out",
 go("humanize_test", ["time", "strings", HUM], '''
	h := humanize.MustNew().CreateHumanizer("en")
	now := time.Date(2021, 6, 1, 0, 0, 0, 0, time.UTC)
	got := h.TimeSinceFrom(now.Add(-((365+31+8)*24*time.Hour + 61*time.Minute)), now, humanize.WithDepth(6))
	if !strings.Contains(got, "minute") {
		t.Fatalf("SEEDED: %q", got)
	}'''), pkg="humanize")

seed("C07-json-keys", "C07",
 [("catalog/json.go", "	keys := slices.Sorted(maps.Keys(messages))\n", "	keys := slices.SortedFunc(maps.Keys(messages), func(a, b string) int {\n		return strings.Compare(strings.ToLower(a), strings.ToLower(b))\n	})\n")],
 "a JSON catalog with two keys that differ only in case",
 "the order of the two in the written file is random",
 go("catalog_test", ["encoding/json", LANG, CAT], '''
	c, err := catalog.NewJSONDecoder().Decode(language.German, "d", []byte(`{"Open":"x","open":"y","OPEN":"z"}`))
	if err != nil {
		t.Fatal(err)
	}
	first := ""
	for i := 0; i < 300; i++ {
		b, err := json.Marshal(c)
		if err != nil {
			t.Fatal(err)
		}
		if first == "" {
			first = string(b)
		}
		if string(b) != first {
			t.Fatalf("SEEDED: %s and %s", first, b)
		}
	}'''), pkg="catalog")

seed("C07-many-forms", "C07",
 [("catalog/po/encoder.go", "		keys := slices.Sorted(maps.Keys(m))\n", "		keys := slices.SortedFunc(maps.Keys(m), func(a, b int) int { return min(a, 3) - min(b, 3) })\n")],
 "a message with more than four plural forms",
 "the forms from the fourth on are written in random order",
 go("po_test", [PO], '''
	f := po.NewFile()
	m := po.NewMessage()
	m.ID, m.IDPlural = "a", "b"
	for i := 0; i < 6; i++ {
		m.Str[i] = string(rune('0' + i))
	}
	f.AddMessage(m)
	first := ""
	for i := 0; i < 300; i++ {
		b, err := po.Marshal(f)
		if err != nil {
			t.Fatal(err)
		}
		if first == "" {
			first = string(b)
		}
		if string(b) != first {
			t.Fatal("SEEDED: written differently")
		}
	}'''), pkg="catalog/po")

seed("C22-singular-count", "C22",
 [("humanize/numbers.go", '			formattedNumber := h.loc.Print("%.1f", newValue)\n			return h.loc.NGetf(converter.singular, converter.plural, roundedValue, formattedNumber)', '			var formattedNumber any = roundedValue\n			if roundedValue == 1 || roundedValue%10 != 1 {\n				// other numerals than those that end in one are shown with a decimal\n				formattedNumber = h.loc.Print("%.1f", newValue)\n			}\n			return h.loc.NGetf(converter.singular, converter.plural, roundedValue, formattedNumber)')],
 "Intword of 11, 21, 31… millions",
 "a number is passed for a text, so that the output contains %!s(int64=21)",
 go("humanize_test", ["strings", HUM], '''
	h := humanize.MustNew().CreateHumanizer("en")
	if got := h.Intword(21000000); strings.Contains(got, "%") {
		t.Fatalf("SEEDED: %q", got)
	}'''), pkg="humanize")

