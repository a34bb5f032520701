package main

import (
	"fmt"
	"io/fs"
	"regexp"
	"strconv"
	"strings"
	"time"

	"golang.org/x/text/language"
	"golang.org/x/text/message"
	"golang.org/x/text/number"

	"github.com/vorlif/spreak/humanize"
)

func init() {
	register(&Check{ID: "C22", Level: "exploration",
		Rule: "every shipped locale (alone, and all of them in one collection) x every humanize function x all counts of a window and around powers of ten (every plural form of the locale), every unit, direction and context, every language name; compared with the texts of the locale's own file, read independently, with the locale's own plural rule; non-trivial: distinct (locale, message, form)",
		Run:  runC22})
}

// miniPO reads a shipped translation file.
type miniPO struct {
	plural []string // the tokens of the rule
	root   *cnode
	msgs   map[[2]string][]string // context, singular -> forms
}

var poLine22 = regexp.MustCompile(`^(?:(msgctxt|msgid_plural|msgid|msgstr)(?:\[(\d)\])? )?(".*")$`)

func readShipped(d *humanize.LocaleData) (*miniPO, error) {
	b, err := fs.ReadFile(d.Fs, "django.po")
	if err != nil {
		return nil, err
	}
	p := &miniPO{msgs: map[[2]string][]string{}}
	var ctx, id, plural string
	var str [8]string
	var cur *string
	header := ""
	flush := func() {
		if id != "" {
			n := 8
			for n > 1 && str[n-1] == "" {
				n--
			}
			p.msgs[[2]string{ctx, id}] = append([]string(nil), str[:n]...)
		} else if header == "" {
			header = str[0]
		}
		ctx, id, plural, str, cur = "", "", "", [8]string{}, nil
	}
	inStr := false
	for no, line := range strings.Split(string(b), "\n") {
		line = strings.TrimRight(line, "\r")
		if strings.TrimSpace(line) == "" || line[0] == '#' {
			continue
		}
		m := poLine22.FindStringSubmatch(line)
		if m == nil {
			return nil, fmt.Errorf("line %d: %q", no+1, line)
		}
		text, err := strconv.Unquote(m[3])
		if err != nil {
			return nil, fmt.Errorf("line %d: %q", no+1, line)
		}
		switch m[1] {
		case "msgctxt":
			flush()
			inStr = false
			cur = &ctx
		case "msgid":
			if inStr {
				flush()
				inStr = false
			}
			cur = &id
		case "msgid_plural":
			cur = &plural
		case "msgstr":
			inStr = true
			k := 0
			if m[2] != "" {
				k = int(m[2][0] - '0')
			}
			cur = &str[k]
		}
		*cur += text
	}
	flush()
	for _, h := range strings.Split(header, "\n") {
		if v, ok := strings.CutPrefix(h, "Plural-Forms:"); ok {
			_, p.plural = splitHeader(v)
			root, _, ok := parseC(p.plural)
			if !ok {
				return nil, fmt.Errorf("plural forms %q", v)
			}
			p.root = root
		}
	}
	if p.root == nil {
		return nil, fmt.Errorf("no plural forms")
	}
	return p, nil
}

// loc22 renders the texts a locale's file asks for.
type loc22 struct {
	name string
	po   *miniPO
	tag  language.Tag
	p    *message.Printer
	src  *message.Printer
	seen func(string)
}

// get is the locale's text for a message, or the source text.
func (l *loc22) get(ctx, id string) string {
	if s := l.po.msgs[[2]string{ctx, id}]; len(s) > 0 && s[0] != "" {
		l.seen(ctx + "|" + id)
		return s[0]
	}
	return id
}

func (l *loc22) ngetf(ctx, id, plural string, n int64, args ...any) []string {
	s := l.po.msgs[[2]string{ctx, id}]
	f, _ := l.po.root.eval(n)
	if int(f) < len(s) && s[f] != "" {
		l.seen(ctx + "|" + id + strconv.Itoa(int(f)))
		return []string{l.p.Sprintf(s[f], args...)}
	}
	t := plural
	if n == 1 {
		t = id
	}
	return []string{l.p.Sprintf(t, args...), l.src.Sprintf(t, args...)}
}

func (l *loc22) getf(ctx, id string, args ...any) []string {
	t := l.get(ctx, id)
	return []string{l.p.Sprintf(t, args...), l.src.Sprintf(t, args...)}
}

var marker22 = regexp.MustCompile(`%!|%\[|%\(|%[a-zA-Z]|\{[^}]*\}|<nil>`)

// sound reports a defect of a text for a reader.
func sound(s string) string {
	if strings.TrimSpace(s) == "" {
		return "empty text"
	}
	if m := marker22.FindString(s); m != "" {
		return fmt.Sprintf("the text %q contains %q", s, m)
	}
	return ""
}

func runC22(c *C) {
	time.Local = time.UTC
	locs := shippedLocales()
	var all []*humanize.LocaleData
	for _, s := range locs {
		all = append(all, s.new())
	}
	coll, errAll := humanize.New(humanize.WithLocale(all...))
	c.Case(func() string { return "all locales in one collection" }, func() string {
		if errAll != nil {
			return "error: " + errAll.Error()
		}
		return ""
	})
	c.Note("locales", len(locs))
	if errAll != nil {
		return
	}
	var names []string
	for code, info := range humanize.LocaleInfos {
		names = append(names, code, info.Name)
	}
	// which counts: a window, and powers of ten with their neighbours
	var counts []int64
	for n := int64(0); n <= int64(c.Pick(220, 2100)); n++ {
		counts = append(counts, n)
	}
	for p := int64(1000); p <= 1e15; p *= 10 {
		for _, d := range []int64{-1, 0, 1, 2, 3, 5, 11} {
			counts = append(counts, p+d, 2*p+d)
		}
	}
	type combo struct {
		i     int
		mixed bool
	}
	// one locale after the other in a bubble, so that now stands still
	c.bubbles(2*len(locs), func(w, k int) {
		cb := combo{k / 2, k%2 == 1}
		sh := locs[cb.i]
		d := sh.new()
		label := sh.name
		if cb.mixed {
			label += " of all"
		}
		l := &loc22{name: sh.name, tag: d.Lang, p: message.NewPrinter(d.Lang), src: message.NewPrinter(language.English), seen: func(s string) { c.Distinct(sh.name + "|" + s) }}
		var h *humanize.Humanizer
		ok := c.caseW(w, func() string { return label + ": load" }, func() string {
			var err error
			if l.po, err = readShipped(d); err != nil {
				return "reading the locale's file: " + err.Error()
			}
			if len(l.po.msgs) < 20 {
				return fmt.Sprintf("only %d messages", len(l.po.msgs))
			}
			if cb.mixed {
				h = coll.CreateHumanizer(d.Lang)
			} else {
				h = mustHuman(d.Lang, d)
			}
			if h.Language() != d.Lang {
				return diff("Language", h.Language().String(), d.Lang.String())
			}
			// the file is the one of this language
			want := strings.NewReplacer("zh-Hans", "zh-CN", "zh-Hant", "zh-TW").Replace(d.Lang.String())
			b, _ := fs.ReadFile(d.Fs, "django.po")
			m := regexp.MustCompile(`"Language: *([^\\"]*)\\n"`).FindStringSubmatch(string(b))
			if m != nil {
				got := strings.ReplaceAll(strings.ReplaceAll(m[1], "_", "-"), "@latin", "-Latn")
				if !strings.EqualFold(got, want) {
					return diff("the file's language", got, want)
				}
			}
			return ""
		})
		if !ok || h == nil {
			return
		}
		one := func(key string, got func() string, want func() []string) {
			c.caseW(w, func() string { return label + ": " + key }, func() string {
				g := got()
				if r := among(key, g, want()); r != "" {
					return r
				}
				return sound(g)
			})
		}
		words := func(ctx string) words20 {
			return words20{sep: l.get("", ", "), unit: func(u int, n int64) string {
				return l.ngetf(ctx, "%[1]v "+unit20[u].name, "%[1]v "+unit20[u].name+"s", n, n)[0]
			}}
		}
		// words20 knows one text per unit; where the locale has none the number may be printed either way
		either := func(ctx string, f func(words20) []string) []string {
			w1 := words(ctx)
			w2 := words20{sep: w1.sep, unit: func(u int, n int64) string {
				t := l.ngetf(ctx, "%[1]v "+unit20[u].name, "%[1]v "+unit20[u].name+"s", n, n)
				return t[len(t)-1]
			}}
			return append(f(w1), f(w2)...)
		}
		now := time.Now()
		natural := func(key string, dist time.Duration) {
			one(key, func() string { return h.NaturalTime(now.Add(dist)) }, func() []string {
				sec, dir, ctx := int64(dist/time.Second), "from now", "naturaltime-future"
				if sec < 0 {
					sec, dir, ctx = -sec, "ago", "naturaltime-past"
				}
				switch {
				case sec == 0:
					return []string{l.get("", "now")}
				case sec < 60:
					return l.ngetf("", "a second "+dir, "%[1]v seconds "+dir, sec, sec)
				case sec < 3600:
					return l.ngetf("", "a minute "+dir, "%[1]v minutes "+dir, sec/60, sec/60)
				case sec < 86400:
					return l.ngetf("", "an hour "+dir, "%[1]v hours "+dir, sec/3600, sec/3600)
				}
				return either(ctx, func(w words20) (out []string) {
					from, to := now, now.Add(dist)
					if dist < 0 {
						from, to = to, from
					}
					for _, s := range expect20(from, to, 2, true, w) {
						out = append(out, l.getf("", "%[1]v "+dir, s)...)
					}
					return
				})
			})
		}
		var dists []int64
		for _, u := range append([]struct {
			name string
			sec  int64
		}{{"second", 1}}, unit20...) {
			for n := int64(1); n <= 130; n++ {
				dists = append(dists, n*u.sec)
				if n < 26 {
					for _, v := range unit20 {
						dists = append(dists, n*u.sec+v.sec, n*u.sec+2*v.sec, n*u.sec+5*v.sec)
					}
				}
			}
		}
		for _, s := range dists {
			if c.Expired() {
				return
			}
			natural("NaturalTime "+strconv.FormatInt(s, 10), time.Duration(s)*time.Second)
			natural("NaturalTime -"+strconv.FormatInt(s, 10), -time.Duration(s)*time.Second)
			at := time.Unix(now.Unix()-s, 0).UTC()
			one(fmt.Sprint("TimeSince ", s), func() string { return h.TimeSince(at, humanize.WithDepth(3)) }, func() []string {
				return either("", func(w words20) []string { return expect20(at, now, 3, true, w) })
			})
		}
		natural("NaturalTime 0", 0)
		one("TimeSince 0", func() string { return h.TimeSince(now) }, func() []string {
			return either("", func(w words20) []string { return expect20(now, now, 2, true, w) })
		})
		for dd, id := range map[int]string{0: "today", 1: "tomorrow", -1: "yesterday"} {
			one("NaturalDay "+id, func() string { return h.NaturalDay(now.AddDate(0, 0, dd)) }, func() []string { return []string{l.get("", id)} })
		}
		// numbers
		num := func(v any) []string {
			return []string{l.p.Sprintf("%v", v), l.src.Sprintf("%v", v)}
		}
		words1 := strings.Fields("one two three four five six seven eight nine")
		for _, n := range counts {
			if c.Expired() {
				return
			}
			one(fmt.Sprint("Apnumber ", n), func() string { return h.Apnumber(n) }, func() []string {
				if n >= 1 && n <= 9 {
					return []string{l.get("", words1[n-1])}
				}
				return num(n)
			})
			one(fmt.Sprint("Intcomma ", n), func() string { return h.Intcomma(n) }, func() []string { return num(number.Decimal(n, number.MaxFractionDigits(6))) })
			one(fmt.Sprint("Ordinal ", n), func() string { return h.Ordinal(n) }, func() []string {
				sfx := []string{"th", "st", "nd", "rd", "th", "th", "th", "th", "th", "th"}[n%10]
				ctx := "ordinal " + strconv.FormatInt(n%10, 10)
				if n%100 >= 11 && n%100 <= 13 {
					ctx, sfx = "ordinal 11, 12, 13", "th"
				}
				return l.getf(ctx, "%v"+sfx, n)
			})
			one(fmt.Sprint("FilesizeFormat ", n), func() string { return h.FilesizeFormat(n) }, func() (out []string) {
				if n < 1024 {
					return l.ngetf("", "%[1]d byte", "%[1]d bytes", n, n)
				}
				k := 1
				for k < 5 && n >= 1<<(10*(k+1)) {
					k++
				}
				for _, s := range num(number.Decimal(float64(n)/float64(int64(1)<<(10*k)), number.MaxFractionDigits(1))) {
					out = append(out, l.getf("", "%s "+[]string{"KB", "MB", "GB", "TB", "PB"}[k-1], s)...)
				}
				return
			})
		}
		for e, word := range map[int]string{6: "million", 9: "billion", 12: "trillion", 15: "quadrillion", 18: "quintillion", 21: "sextillion", 24: "septillion", 27: "octillion", 30: "nonillion", 33: "decillion", 100: "googol"} {
			for _, q := range []float64{1, 1.2, 1.5, 2, 2.5, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 20, 21, 22, 25, 99.9, 100, 101, 102, 111, 500, 999} {
				f, _ := strconv.ParseFloat(fmt.Sprintf("%ge%d", q, e), 64)
				if q*10 != float64(int(q*10)) || f >= 1e102 {
					continue
				}
				one(fmt.Sprint("Intword ", f), func() string { return h.Intword(f) }, func() (out []string) {
					// a fraction counts as the next whole number
					n := int64(q)
					if q > float64(n) {
						n++
					}
					for _, s := range []string{l.p.Sprintf("%.1f", q), l.src.Sprintf("%.1f", q)} {
						out = append(out, l.ngetf("", "%[1]s "+word, "%[1]s "+word, n, s)...)
						if e > 15 {
							// neither the number nor its quotient is exact as a float64
							out = append(out, l.ngetf("", "%[1]s "+word, "%[1]s "+word, n+1, s)...)
						}
					}
					return
				})
			}
		}
		// language names
		for _, s := range names {
			one("LanguageName "+s, func() string { return h.LanguageName(s) }, func() []string { return []string{l.get("", s)} })
			info, known := humanize.LocaleInfos[s]
			c.caseW(w, func() string { return label + ": LanguageNameByCode " + s }, func() string {
				want := ""
				if known {
					want = l.get("", info.Name)
				}
				return diff("LanguageNameByCode", h.LanguageNameByCode(s), want)
			})
		}
		// dates: every month, weekday and half of the day in every code and in the named formats
		def := func(s, fallback string) string {
			if s != "" {
				return s
			}
			return fallback
		}
		fd := d.Format
		if fd == nil {
			fd = &humanize.FormatData{}
		}
		// the fields a named format shows: year, month, day, hour, minute; never the second or the zone
		named := []struct{ name, format, fields string }{
			{humanize.DateFormat, def(fd.DateFormat, "N j, Y"), "ymd"}, {humanize.TimeFormat, def(fd.TimeFormat, "P"), "hi"},
			{humanize.DateTimeFormat, def(fd.DateTimeFormat, "N j, Y, P"), "ymdhi"}, {humanize.YearMonthFormat, def(fd.YearMonthFormat, "F Y"), "ym"},
			{humanize.MonthDayFormat, def(fd.MonthDayFormat, "F j"), "md"}, {humanize.ShortDateFormat, def(fd.ShortDateFormat, "m/d/Y"), "ymd"},
			{humanize.ShortDatetimeFormat, def(fd.ShortDatetimeFormat, "m/d/Y P"), "ymdhi"},
		}
		base := [7]int{2001, 1, 1, 0, 0, 0, 0}
		for f, n := range [7]int{40, 12, 31, 24, 60, 60, 12} {
			texts := map[string]map[string]int{}
			for k := 0; k < n; k++ {
				a := base
				a[f] += k
				t := time.Date(a[0], time.Month(a[1]), a[2], a[3], a[4], a[5], 0, time.FixedZone(fmt.Sprint("Z", a[6]), a[6]*3600))
				cv := civilOf18(t)
				for _, nf := range named {
					one(fmt.Sprint(nf.name, " of ", t), func() string {
						s := h.FormatTime(t, nf.name)
						if texts[nf.name] == nil {
							texts[nf.name] = map[string]int{}
						}
						texts[nf.name][s]++
						return s
					}, func() []string { return []string{format18(nf.format, cv, l.get)} })
				}
				if f != 0 && f < 4 {
					for _, code := range []byte("aAbDEfFgGhHijlLmMnNPSwW") {
						one(fmt.Sprintf("%c of %v", code, t), func() string { return h.FormatTime(t, string(rune(code))) }, func() []string { return []string{code18(code, cv, l.get)} })
					}
				}
			}
			for _, nf := range named {
				c.caseW(w, func() string { return fmt.Sprintf("%s: %s shows field %c", label, nf.name, "ymdhisz"[f]) }, func() string {
					got, shown := len(texts[nf.name]), strings.ContainsRune(nf.fields, rune("ymdhisz"[f]))
					want := 1
					if shown {
						want = n
					}
					// Hindi has one word for a.m. and p.m.
					if got != want && !(f == 3 && shown && got >= n/2) {
						return fmt.Sprintf("%d moments that differ in this field only give %d different texts", n, got)
					}
					return ""
				})
			}
		}
		// texts that depend on the clock
		for _, x := range []struct {
			name string
			f    func() string
		}{{"Now", h.Now}, {"Time", h.Time}, {"Date", h.Date}} {
			c.caseW(w, func() string { return label + ": " + x.name }, func() string { return sound(x.f()) })
		}
	})
}
