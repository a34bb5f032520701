package main

import (
	"fmt"
	"strconv"
	"strings"
	"testing/fstest"
	"time"

	"golang.org/x/text/language"

	"github.com/vorlif/spreak/catalog/po"
	"github.com/vorlif/spreak/humanize"
)

func init() {
	register(&Check{ID: "C18", Level: "exploration",
		Rule: "(a) every format code x every day of the sampled years x zones, with the other fields cycling; every minute of a day; every hour around zone changes; nanosecond boundaries; (b) every format string up to the length bound over codes, escapes and literals; (c) every shipped locale x every month, weekday, half of the day x every code and named format; non-trivial: the code's value differs from the one of the previous instant",
		Run:  runC18})
}

// civil18 is a wall clock reading computed from the seconds since 1970 and the zone's offset alone.
type civil18 struct {
	y                int64
	mo, d            int
	h, mi, s, ns     int
	wd               int // 0: Sunday
	yd               int // 1…366
	off              int
	zone             string
	dst              bool
	unix             int64
	isoYear, isoWeek int64
}

func leap18(y int64) bool { return y%4 == 0 && (y%100 != 0 || y%400 == 0) }

var mdays18 = [13]int{0, 31, 28, 31, 30, 31, 30, 31, 31, 30, 31, 30, 31}

func monthLen18(y int64, m int) int {
	if m == 2 && leap18(y) {
		return 29
	}
	return mdays18[m]
}

func floorDiv(a, b int64) int64 {
	q := a / b
	if a%b != 0 && (a < 0) != (b < 0) {
		q--
	}
	return q
}

// days18 counts the days from 1 January of year 1 to 1 January of year y.
func days18(y int64) int64 {
	y--
	return y*365 + floorDiv(y, 4) - floorDiv(y, 100) + floorDiv(y, 400)
}

const epochDay18 = 719162 // days from 0001-01-01 to 1970-01-01

func newCivil18(unix int64, ns, off int, zone string, dst bool) civil18 {
	c := civil18{ns: ns, off: off, zone: zone, dst: dst, unix: unix}
	local := unix + int64(off)
	day := floorDiv(local, 86400)
	sec := int(local - day*86400)
	c.h, c.mi, c.s = sec/3600, sec/60%60, sec%60
	abs := day + epochDay18
	c.wd = int(((abs+1)%7 + 7) % 7) // 0001-01-01 was a Monday
	y := floorDiv(abs*400, 146097) + 1
	for days18(y) > abs {
		y--
	}
	for days18(y+1) <= abs {
		y++
	}
	c.y = y
	c.yd = int(abs-days18(y)) + 1
	rest := c.yd
	c.mo = 1
	for rest > monthLen18(y, c.mo) {
		rest -= monthLen18(y, c.mo)
		c.mo++
	}
	c.d = rest
	// the ISO week belongs to the year of its Thursday
	thu := abs + 4 - int64((c.wd+6)%7+1)
	iy := y
	if thu < days18(y) {
		iy = y - 1
	} else if thu >= days18(y+1) {
		iy = y + 1
	}
	c.isoYear, c.isoWeek = iy, (thu-days18(iy))/7+1
	return c
}

func civilOf18(t time.Time) civil18 {
	name, off := t.Zone()
	return newCivil18(t.Unix(), t.Nanosecond(), off, name, t.IsDST())
}

var (
	wdLong18  = []string{"Sunday", "Monday", "Tuesday", "Wednesday", "Thursday", "Friday", "Saturday"}
	wdShort18 = []string{"Sun", "Mon", "Tue", "Wed", "Thu", "Fri", "Sat"}
	moLong18  = []string{"", "January", "February", "March", "April", "May", "June", "July", "August", "September", "October", "November", "December"}
	mo318     = []string{"", "jan", "feb", "mar", "apr", "may", "jun", "jul", "aug", "sep", "oct", "nov", "dec"}
	moAP18    = []string{"", "Jan.", "Feb.", "March", "April", "May", "June", "July", "Aug.", "Sept.", "Oct.", "Nov.", "Dec."}
)

const codes18 = "aAefgGhHiOPsTuZbcdDEFIjlLmMnNorStUwWyYz"

// tr18 gives the locale's text for a name.
type tr18 func(ctx, id string) string

// code18 is the documented value of a format code (Django's date filter, https://docs.djangoproject.com,
// and the comments in the repository where it departs from it).
func code18(r byte, c civil18, tr tr18) string {
	h12 := (c.h+11)%12 + 1
	pad := func(n int64, w int) string { return fmt.Sprintf("%0*d", w, n) }
	ampm := func() string {
		if c.h >= 12 {
			return tr("", "p.m.")
		}
		return tr("", "a.m.")
	}
	f := func() string {
		if c.mi == 0 {
			return strconv.Itoa(h12)
		}
		return strconv.Itoa(h12) + ":" + pad(int64(c.mi), 2)
	}
	zone := func() string {
		o, sign := c.off, "+"
		if o < 0 {
			o, sign = -o, "-"
		}
		return sign + pad(int64(o/3600), 2) + pad(int64(o/60%60), 2)
	}
	switch r {
	case 'a':
		return ampm()
	case 'A':
		if c.h >= 12 {
			return tr("", "PM")
		}
		return tr("", "AM")
	case 'e':
		return c.zone
	case 'f':
		return f()
	case 'g':
		return strconv.Itoa(h12)
	case 'G':
		return strconv.Itoa(c.h)
	case 'h':
		return pad(int64(h12), 2)
	case 'H':
		return pad(int64(c.h), 2)
	case 'i':
		return pad(int64(c.mi), 2)
	case 'O':
		return zone()
	case 'P':
		if c.mi == 0 && c.h == 0 {
			return tr("", "midnight")
		}
		if c.mi == 0 && c.h == 12 {
			return tr("", "noon")
		}
		return f() + " " + ampm()
	case 's':
		return pad(int64(c.s), 2)
	case 'T':
		return time.Local.String()
	case 'u':
		return pad(int64(c.ns/1000), 6)
	case 'Z':
		return strconv.Itoa(c.off)
	case 'b':
		return tr("", mo318[c.mo])
	case 'c':
		return pad(c.y, 4) + "-" + pad(int64(c.mo), 2) + "-" + pad(int64(c.d), 2) + "T" + pad(int64(c.h), 2) + ":" + pad(int64(c.mi), 2) + ":" + pad(int64(c.s), 2) + "." + pad(int64(c.ns/1000), 6)
	case 'd':
		return pad(int64(c.d), 2)
	case 'D':
		return tr("", wdShort18[c.wd])
	case 'E':
		return tr("alt. month", moLong18[c.mo])
	case 'F':
		return tr("", moLong18[c.mo])
	case 'I':
		if c.dst {
			return "1"
		}
		return "0"
	case 'j':
		return strconv.Itoa(c.d)
	case 'l':
		return tr("", wdLong18[c.wd])
	case 'L':
		return strconv.FormatBool(leap18(c.y))
	case 'm':
		return pad(int64(c.mo), 2)
	case 'M':
		s := []rune(tr("", mo318[c.mo]))
		return strings.ToUpper(string(s[:1])) + string(s[1:])
	case 'n':
		return strconv.Itoa(c.mo)
	case 'N':
		return tr("abbrev. month", moAP18[c.mo])
	case 'o':
		return strconv.FormatInt(c.isoYear, 10)
	case 'r':
		return wdShort18[c.wd] + ", " + pad(int64(c.d), 2) + " " + moLong18[c.mo][:3] + " " + pad(c.y, 4) + " " + pad(int64(c.h), 2) + ":" + pad(int64(c.mi), 2) + ":" + pad(int64(c.s), 2) + " " + zone()
	case 'S':
		if c.d/10 != 1 {
			switch c.d % 10 {
			case 1:
				return "st"
			case 2:
				return "nd"
			case 3:
				return "rd"
			}
		}
		return "th"
	case 't':
		return strconv.Itoa(monthLen18(c.y, c.mo))
	case 'U':
		return strconv.FormatInt(c.unix, 10)
	case 'w':
		return strconv.Itoa(c.wd)
	case 'W':
		return strconv.FormatInt(c.isoWeek, 10)
	case 'y':
		return pad(c.y%100, 2)
	case 'Y':
		return pad(c.y, 4)
	case 'z':
		return strconv.Itoa(c.yd)
	}
	return ""
}

func format18(f string, c civil18, tr tr18) string {
	var b strings.Builder
	rs := []rune(f)
	for i := 0; i < len(rs); i++ {
		r := rs[i]
		switch {
		case r == '\\' && i+1 < len(rs):
			i++
			b.WriteRune(rs[i])
		case r < 128 && strings.IndexByte(codes18, byte(r)) >= 0:
			b.WriteString(code18(byte(r), c, tr))
		default:
			b.WriteRune(r)
		}
	}
	return b.String()
}

// names18 lists every text the formatter may look up.
func names18() (out [][2]string) {
	for _, s := range []string{"a.m.", "p.m.", "AM", "PM", "midnight", "noon"} {
		out = append(out, [2]string{"", s})
	}
	for i := 0; i < 7; i++ {
		out = append(out, [2]string{"", wdLong18[i]}, [2]string{"", wdShort18[i]})
	}
	for m := 1; m <= 12; m++ {
		out = append(out, [2]string{"", moLong18[m]}, [2]string{"", mo318[m]}, [2]string{"alt. month", moLong18[m]}, [2]string{"abbrev. month", moAP18[m]})
	}
	seen := map[[2]string]bool{}
	res := out[:0]
	for _, e := range out {
		if !seen[e] {
			seen[e] = true
			res = append(res, e)
		}
	}
	return res
}

// marked18 is a locale in which every name has a text of its own.
func marked18() (*humanize.LocaleData, tr18) {
	var b strings.Builder
	b.WriteString("msgid \"\"\nmsgstr \"\"\n\"Content-Type: text/plain; charset=UTF-8\\n\"\n\"Plural-Forms: nplurals=2; plural=(n != 1);\\n\"\n\n")
	m := map[[2]string]string{}
	for i, e := range names18() {
		// begins with a letter that has an upper case of its own, ends in code letters
		text := "ä" + strconv.Itoa(i) + "jY\\\\n"
		m[e] = "ä" + strconv.Itoa(i) + "jY\\n"
		if e[0] != "" {
			fmt.Fprintf(&b, "msgctxt %q\n", e[0])
		}
		fmt.Fprintf(&b, "msgid %q\nmsgstr \"%s\"\n\n", e[1], text)
	}
	data := &humanize.LocaleData{Lang: language.MustParse("de"), Fs: fstest.MapFS{"django.po": {Data: []byte(b.String())}}}
	return data, func(ctx, id string) string { return m[[2]string{ctx, id}] }
}

func source18(_, id string) string { return id }

// poTexts18 reads the shipped translations without the library's catalog.
func poTexts18(d *humanize.LocaleData) (tr18, error) {
	f, err := d.Fs.Open("django.po")
	if err != nil {
		return nil, err
	}
	defer f.Close()
	file, err := po.NewParser().Parse(f)
	if err != nil {
		return nil, err
	}
	m := map[[2]string]string{}
	for ctx, msgs := range file.Messages {
		for id, msg := range msgs {
			if s := msg.Str[0]; s != "" {
				m[[2]string{ctx, id}] = s
			}
		}
	}
	return func(ctx, id string) string {
		if s, ok := m[[2]string{ctx, id}]; ok {
			return s
		}
		return id
	}, nil
}

func mustZone(name string) *time.Location {
	l, err := time.LoadLocation(name)
	if err != nil {
		panic(err)
	}
	return l
}

func mustHuman(lang any, data ...*humanize.LocaleData) *humanize.Humanizer {
	coll, err := humanize.New(humanize.WithLocale(data...))
	if err != nil {
		panic("humanize.New: " + err.Error())
	}
	return coll.CreateHumanizer(lang)
}

const knownTime18 = "c of 2008-01-02T10:30:00.000123Z"

// fraction18 compares the value of the code c, whose fraction is a known finding: everything but the
// fraction must be right, and the fraction must be the documented one or the number of nanoseconds.
func fraction18(got, want string, ns int) bool {
	i := strings.LastIndexByte(want, '.')
	return got == want || got == want[:i+1]+strconv.Itoa(ns)
}

func runC18(c *C) {
	time.Local = mustZone("CET")
	src := mustHuman("en")
	markData, markTr := marked18()
	mark := mustHuman("de", markData)
	type hum struct {
		name string
		h    *humanize.Humanizer
		tr   tr18
	}
	hums := []hum{{"source", src, source18}, {"marked", mark, markTr}}

	one := func(w int, h hum, t time.Time, code byte) {
		key := func() string {
			return fmt.Sprintf("%s: %c of %s in %s", h.name, code, t.UTC().Format(time.RFC3339Nano), t.Location())
		}
		c.caseW(w, key, func() string {
			cv := civilOf18(t)
			got, want := h.h.FormatTime(t, string(rune(code))), code18(code, cv, h.tr)
			if code == 'c' && fraction18(got, want, cv.ns) {
				return ""
			}
			return diff("FormatTime "+string(rune(code)), got, want)
		})
	}

	// the known finding on its own
	c.Case(func() string { return knownTime18 }, func() string {
		t := time.Date(2008, 1, 2, 10, 30, 0, 123000, time.UTC)
		return diff("FormatTime c", src.FormatTime(t, "c"), "2008-01-02T10:30:00.000123")
	})

	zones := []*time.Location{time.UTC, mustZone("CET"), time.FixedZone("plain", 3600), time.FixedZone("half", -(3*3600 + 1800)), time.FixedZone("q", 5*3600+2700), time.FixedZone("sec", -(4*3600 + 121)), time.FixedZone("", 14*3600), time.FixedZone("w", -12*3600),
		mustZone("Europe/Berlin"), mustZone("America/New_York"), mustZone("Asia/Kolkata"), mustZone("Australia/Lord_Howe"), mustZone("Pacific/Apia"), mustZone("America/St_Johns"), mustZone("America/Sao_Paulo"), mustZone("Pacific/Kiritimati"), mustZone("Asia/Kathmandu"), mustZone("America/Los_Angeles"), mustZone("Australia/Sydney")}
	years := []int{1, 2, 3, 4, 5, 99, 100, 101, 400, 476, 999, 1000, 1582, 1600, 1700, 1900, 2200, 2399, 2400, 9996, 9999}
	for y := c.Pick(1960, 1600); y <= c.Pick(2110, 2420); y++ {
		years = append(years, y)
	}
	// days: every day of the years, each with a different time of day, in every zone
	nsList := []int{0, 1, 999, 1000, 1001, 123456, 999999, 1000000, 123456789, 100000000, 999999000, 999999999}
	c.Par(len(years)*len(zones), func(w, i int) {
		y, z := years[i/len(zones)], zones[i%len(zones)]
		if y < 1970 && i%len(zones) != 0 && z.String() != "plain" && z.String() != "half" && z.String() != "q" {
			if y != 476 && y != 1900 {
				return
			}
		}
		for d := 0; d < 367; d++ {
			if c.Expired() {
				return
			}
			t := time.Date(y, 1, 1+d, (d*7+5)%24, (d*11)%60, (d*13+7)%60, nsList[d%len(nsList)], z)
			h := hums[d%2]
			for k := 0; k < len(codes18); k++ {
				if codes18[k] == 'I' && y < 1970 {
					continue
				}
				one(w, h, t, codes18[k])
			}
			c.Distinct(strconv.Itoa(y*400 + d))
		}
	})
	// every minute (quick: of one winter day, thorough: of more days) and every second of two minutes
	days := []time.Time{time.Date(2001, 3, 10, 0, 0, 0, 0, time.UTC)}
	if c.Thorough() {
		days = append(days, time.Date(2024, 2, 29, 0, 0, 0, 0, zones[3]), time.Date(1999, 12, 31, 0, 0, 0, 0, zones[5]), time.Date(2021, 3, 28, 0, 0, 0, 0, zones[8]))
	}
	c.Par(len(days)*24, func(w, i int) {
		base := days[i/24].Add(time.Duration(i%24) * time.Hour)
		for m := 0; m < 60; m++ {
			for _, s := range []int{0, 1, 9, 10, 29, 30, 59} {
				t := base.Add(time.Duration(m)*time.Minute + time.Duration(s)*time.Second)
				for k := 0; k < len(codes18); k++ {
					one(w, hums[m%2], t, codes18[k])
				}
			}
			c.Distinct("m" + strconv.Itoa(i*60+m))
		}
	})
	c.Par(60, func(w, s int) {
		for _, ns := range nsList {
			t := time.Date(2010, 7, 4, 23, 59, s, ns, zones[2])
			for k := 0; k < len(codes18); k++ {
				one(w, hums[0], t, codes18[k])
			}
		}
	})
	// every half hour from two days before to two days after each change of a zone's offset
	type change struct {
		z *time.Location
		t time.Time
	}
	var changes []change
	for _, z := range zones {
		for y := 1972; y <= 2060; y++ {
			t := time.Date(y, 1, 1, 0, 0, 0, 0, z)
			_, off := t.Zone()
			for t.Year() <= y {
				n := t.Add(6 * time.Hour)
				_, o := n.Zone()
				if o != off {
					changes = append(changes, change{z, n})
					off = o
				}
				t = n
			}
		}
	}
	c.Note("zone_changes", len(changes))
	c.Par(len(changes), func(w, i int) {
		ch := changes[i]
		for hh := -c.Pick(30, 96); hh <= c.Pick(30, 96); hh++ {
			if c.Expired() {
				return
			}
			t := ch.t.Add(time.Duration(hh) * 30 * time.Minute).In(ch.z)
			for k := 0; k < len(codes18); k++ {
				one(w, hums[(hh+100)%2], t, codes18[k])
			}
		}
		c.Distinct(fmt.Sprint("z", i))
	})

	// format strings
	insts := []time.Time{time.Date(2001, 3, 10, 17, 16, 18, 0, time.UTC), time.Date(1999, 12, 1, 0, 0, 0, 0, zones[3]), time.Date(2012, 7, 22, 12, 0, 59, 5000, zones[8])}
	alpha := []string{}
	for r := rune(32); r < 127; r++ {
		alpha = append(alpha, string(r))
	}
	alpha = append(alpha, "\n", "\x00", "é", "年", "ａ", "😀", "\u00a0", "\u0065\u0301", "ſ", "K") // K: Kelvin sign
	strCase := func(w int, f string) {
		for ti, t := range insts {
			cv := civilOf18(t)
			for _, h := range hums {
				c.caseW(w, func() string { return fmt.Sprintf("%s: format %q at instant %d", h.name, f, ti) }, func() string {
					got, want := h.h.FormatTime(t, f), format18(f, cv, h.tr)
					if got == format18Alt(f, cv, h.tr) {
						return "" // the fraction of code c
					}
					return diff("FormatTime", got, want)
				})
			}
		}
	}
	for _, f := range []string{"", "\\", "\\\\", "DATE_FORMA", "date_format", " DATE_FORMAT", "DATE_FORMAT ", "DATE_FORMATDATE_FORMAT"} {
		strCase(0, f)
	}
	c.Par(len(alpha), func(w, i int) {
		strCase(w, alpha[i])
		c.Distinct(alpha[i])
		for _, b := range alpha {
			strCase(w, alpha[i]+b)
			c.Distinct(alpha[i] + b)
		}
	})
	small := strings.Split("\\ a P M j c z - é \n B e E N S t Y 年 \" % ' {", " ")
	dep := c.Pick(3, 4)
	dims := make([]int, dep)
	for i := range dims {
		dims[i] = len(small)
	}
	c.Par(size(dims), func(w, i int) {
		f := ""
		for _, k := range tuple(i, dims) {
			f += small[k]
		}
		strCase(w, f)
	})

	// shipped locales
	locs := shippedLocales()
	c.Note("shipped_locales", len(locs))
	var lt []time.Time
	for m := 1; m <= 12; m++ {
		lt = append(lt, time.Date(2003, time.Month(m), m, 2*m-1, 0, 0, 0, time.UTC))
	}
	for d := 1; d <= 8; d++ {
		lt = append(lt, time.Date(2003, 2, d, 3*d-3, 30*(d%2), 7, 0, time.UTC))
	}
	lt = append(lt, time.Date(2003, 2, 1, 0, 0, 0, 0, time.UTC), time.Date(2003, 2, 1, 12, 0, 0, 0, time.UTC))
	c.Par(len(locs), func(w, i int) {
		loc := locs[i]
		var h *humanize.Humanizer
		var tr tr18
		var fd *humanize.FormatData
		c.caseW(w, func() string { return loc.name + ": load" }, func() string {
			d := loc.new()
			fd = d.Format
			var err error
			if tr, err = poTexts18(d); err != nil {
				return "reading the locale's file: " + err.Error()
			}
			h = mustHuman(d.Lang, d)
			return ""
		})
		if h == nil {
			return
		}
		c.Distinct(loc.name)
		def := func(s, fb string) string {
			if s == "" {
				return fb
			}
			return s
		}
		if fd == nil {
			fd = &humanize.FormatData{}
		}
		named := map[string]string{
			humanize.DateFormat: def(fd.DateFormat, "N j, Y"), humanize.TimeFormat: def(fd.TimeFormat, "P"), humanize.DateTimeFormat: def(fd.DateTimeFormat, "N j, Y, P"),
			humanize.YearMonthFormat: def(fd.YearMonthFormat, "F Y"), humanize.MonthDayFormat: def(fd.MonthDayFormat, "F j"),
			humanize.ShortDateFormat: def(fd.ShortDateFormat, "m/d/Y"), humanize.ShortDatetimeFormat: def(fd.ShortDatetimeFormat, "m/d/Y P"),
		}
		for ti, t := range lt {
			for k := 0; k < len(codes18); k++ {
				one(w, hum{loc.name, h, tr}, t, codes18[k])
			}
			for n, f := range named {
				c.caseW(w, func() string { return fmt.Sprintf("%s: %s at %d", loc.name, n, ti) }, func() string {
					return diff("FormatTime "+n, h.FormatTime(t, n), format18(f, civilOf18(t), tr))
				})
			}
		}
	})
	// which formats a locale without (some) formats of its own, or without the asked language, uses
	names := []string{humanize.DateFormat, humanize.TimeFormat, humanize.DateTimeFormat, humanize.YearMonthFormat, humanize.MonthDayFormat, humanize.ShortDateFormat, humanize.ShortDatetimeFormat}
	fbs := []string{"N j, Y", "P", "N j, Y, P", "F Y", "F j", "m/d/Y", "m/d/Y P"}
	t := insts[0]
	cv := civilOf18(t)
	c.Par(128, func(w, mask int) {
		own := make([]string, 7)
		want := append([]string(nil), fbs...)
		for b := range own {
			if mask>>b&1 == 1 {
				own[b] = fmt.Sprintf("\\%d Y/m z", b)
				want[b] = own[b]
			}
		}
		fd := &humanize.FormatData{DateFormat: own[0], TimeFormat: own[1], DateTimeFormat: own[2], YearMonthFormat: own[3], MonthDayFormat: own[4], ShortDateFormat: own[5], ShortDatetimeFormat: own[6]}
		c.caseW(w, func() string { return fmt.Sprintf("own formats %07b", mask) }, func() string {
			d, tr := marked18()
			d.Format = fd
			d2, _ := marked18()
			d2.Lang = language.MustParse("fr")
			coll, err := humanize.New(humanize.WithLocale(d, d2))
			if err != nil {
				return err.Error()
			}
			h, h2, h3 := coll.CreateHumanizer("de"), coll.CreateHumanizer("fr"), coll.CreateHumanizer("ja")
			for i, n := range names {
				for _, x := range []struct {
					what string
					h    *humanize.Humanizer
					f    string
					tr   tr18
				}{{"the locale", h, want[i], tr}, {"a locale without formats", h2, fbs[i], tr}, {"an unknown language", h3, fbs[i], source18}} {
					if r := diff(x.what+": FormatTime "+n, x.h.FormatTime(t, n), format18(x.f, cv, x.tr)); r != "" {
						return r
					}
				}
			}
			return ""
		})
	})
}

// format18Alt renders code c with the known departure.
func format18Alt(f string, cv civil18, tr tr18) string {
	var b strings.Builder
	rs := []rune(f)
	for i := 0; i < len(rs); i++ {
		switch {
		case rs[i] == '\\' && i+1 < len(rs):
			b.WriteString(string(rs[i+1]))
			i++
		case rs[i] == 'c':
			s := code18('c', cv, tr)
			b.WriteString(s[:strings.LastIndexByte(s, '.')+1] + strconv.Itoa(cv.ns))
		default:
			b.WriteString(format18(string(rs[i]), cv, tr))
		}
	}
	return b.String()
}
