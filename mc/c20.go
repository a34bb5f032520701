package main

import (
	"fmt"
	"math"
	"strconv"
	"strings"
	"testing/fstest"
	"time"

	"golang.org/x/text/language"

	"github.com/vorlif/spreak/humanize"
)

func init() {
	register(&Check{ID: "C20", Level: "exploration",
		Rule: "every whole number of seconds of a window and all combinations of unit counts (years, months, weeks, days, hours, minutes) with their neighbours of a second, x start instants around leap days and year ends in several zones x depths x adjacency, through all four entry points, in the source language and in a locale with three plural forms; non-trivial: distinct sets of units in the reference decomposition",
		Run:  runC20})
}

// unit20 are the units with their length in seconds.
var unit20 = []struct {
	name string
	sec  int64
}{{"year", 31536000}, {"month", 2592000}, {"week", 604800}, {"day", 86400}, {"hour", 3600}, {"minute", 60}}

// leapDays20 is the number of days discounted: the leap years from the earlier instant's year up to, but
// not including, the later one's; if there are any, one less if the earlier year is a leap year itself,
// otherwise one more if the later year is one.
func leapDays20(y1, y2 int) (n int64) {
	end := y2
	if d := y2 - y1; d > 5000 || d < -5000 {
		upTo := func(y int64) int64 { return floorDiv(y, 4) - floorDiv(y, 100) + floorDiv(y, 400) }
		n = upTo(int64(y2)-1) - upTo(int64(y1)-1)
		end = y1
	}
	for y := y1; y < end; y++ {
		if leap18(int64(y)) {
			n++
		}
	}
	for y := end; y < y1; y++ {
		if leap18(int64(y)) {
			n--
		}
	}
	if n != 0 {
		if leap18(int64(y1)) {
			n--
		} else if leap18(int64(y2)) {
			n++
		}
	}
	return
}

type part20 struct {
	unit  int
	count int64
}

// split20 decomposes a number of seconds. early: a year counts from 0.0005 years before its end.
func split20(sec int64, depth int, adjacent, early bool) (out []part20) {
	i := 0
	count := func() int64 {
		if i == 0 && early {
			return (sec + 15768) / unit20[0].sec
		}
		if sec < 0 {
			return 0
		}
		return sec / unit20[i].sec
	}
	for ; i < len(unit20) && count() == 0; i++ {
	}
	for ; i < len(unit20) && len(out) < depth; i++ {
		n := count()
		if n <= 0 {
			if adjacent {
				break
			}
			continue
		}
		out = append(out, part20{i, n})
		sec -= n * unit20[i].sec
	}
	return
}

// words20 renders counted units in a language.
type words20 struct {
	unit func(unit int, n int64) string
	sep  string
}

func group20(n int64, sep string) string {
	s := strconv.FormatInt(n, 10)
	for i := len(s) - 3; i > 0; i -= 3 {
		s = s[:i] + sep + s[i:]
	}
	return s
}

func (w words20) text(ps []part20) string {
	if len(ps) == 0 {
		return w.unit(5, 0)
	}
	var t []string
	for _, p := range ps {
		t = append(t, w.unit(p.unit, p.count))
	}
	return strings.Join(t, w.sep)
}

// expect20 gives the admissible texts for the time from d to now.
func expect20(d, now time.Time, depth int, adjacent bool, w words20) []string {
	if depth <= 0 {
		depth = 2
	}
	sec := now.Unix() - d.Unix() - 86400*leapDays20(d.Year(), now.Year())
	if sec <= 0 {
		return []string{w.text(nil)}
	}
	a, b := w.text(split20(sec, depth, adjacent, true)), w.text(split20(sec, depth, adjacent, false))
	if a == b {
		return []string{a}
	}
	return []string{a, b}
}

func among(what, got string, want []string) string {
	for _, w := range want {
		if got == w {
			return ""
		}
	}
	return diff(what, got, strings.Join(want, " | "))
}

var english20 = words20{sep: ", ", unit: func(u int, n int64) string {
	s := group20(n, ",") + " " + unit20[u].name
	if n != 1 {
		s += "s"
	}
	return s
}}

const plural20 = "nplurals=3; plural=(n%10==1 && n%100!=11 ? 0 : n%10>=2 && n%10<=4 && (n%100<10 || n%100>=20) ? 1 : 2);"

func form20(n int64) int {
	switch {
	case n%10 == 1 && n%100 != 11:
		return 0
	case n%10 >= 2 && n%10 <= 4 && (n%100 < 10 || n%100 >= 20):
		return 1
	}
	return 2
}

// three20 is a locale with three plural forms and texts of its own for every unit in every use.
func three20() *humanize.LocaleData {
	var b strings.Builder
	b.WriteString("msgid \"\"\nmsgstr \"\"\n\"Content-Type: text/plain; charset=UTF-8\\n\"\n\"Plural-Forms: " + plural20 + "\\n\"\n\n")
	b.WriteString("msgid \", \"\nmsgstr \" ⁂ \"\n\n")
	for _, ctx := range []string{"", "naturaltime-past", "naturaltime-future"} {
		for _, u := range unit20 {
			if ctx != "" {
				fmt.Fprintf(&b, "msgctxt %q\n", ctx)
			}
			fmt.Fprintf(&b, "msgid \"%%[1]v %s\"\nmsgid_plural \"%%[1]v %ss\"\n", u.name, u.name)
			for f := 0; f < 3; f++ {
				fmt.Fprintf(&b, "msgstr[%d] \"%s%s%d<%%[1]v>\"\n", f, strings.TrimPrefix(ctx, "naturaltime-"), u.name, f)
			}
			b.WriteString("\n")
		}
	}
	for i, s := range []string{"second", "minute", "hour"} {
		for _, dir := range []string{"ago", "from now"} {
			fmt.Fprintf(&b, "msgid \"%s %s %s\"\nmsgid_plural \"%%[1]v %ss %s\"\n", []string{"a", "a", "an"}[i], s, dir, s, dir)
			for f := 0; f < 3; f++ {
				fmt.Fprintf(&b, "msgstr[%d] \"%s%d %s<%%[1]v>\"\n", f, s, f, dir)
			}
			b.WriteString("\n")
		}
	}
	for _, s := range []string{"%[1]v ago", "%[1]v from now", "now", "today", "tomorrow", "yesterday"} {
		fmt.Fprintf(&b, "msgid %q\nmsgstr \"{%s}\"\n\n", s, s)
	}
	return &humanize.LocaleData{Lang: language.MustParse("de"), Fs: fstest.MapFS{"django.po": {Data: []byte(b.String())}}}
}

func threeWords20(prefix string) words20 {
	return words20{sep: " ⁂ ", unit: func(u int, n int64) string {
		return prefix + unit20[u].name + strconv.Itoa(form20(n)) + "<" + group20(n, ".") + ">"
	}}
}

func runC20(c *C) {
	time.Local = mustZone("Europe/Berlin")
	src, three := mustHuman("en"), mustHuman("de", three20())
	langs := []struct {
		name string
		h    *humanize.Humanizer
		w    words20
	}{{"source", src, english20}, {"three", three, threeWords20("")}}
	depths := []int{-1, 0, 1, 2, 3, 4, 5, 6, 7}

	// check compares all entry points for one pair of instants
	check := func(w int, li int, d, now time.Time, depth int, adj bool, all bool) {
		l := langs[li]
		c.caseW(w, func() string {
			return fmt.Sprintf("%s: from %s to %s, depth %d, adjacent %v", l.name, d.Format(time.RFC3339Nano), now.Format(time.RFC3339Nano), depth, adj)
		}, func() string {
			want := expect20(d, now, depth, adj, l.w)
			opts := make([]humanize.TimeOption, 0, 5)
			opts = append(opts, humanize.WithDepth(depth))
			if !adj {
				opts = append(opts, humanize.WithoutAdjacentCheck())
			}
			if r := among("TimeSinceFrom", l.h.TimeSinceFrom(d, now, opts...), want); r != "" {
				return r
			}
			if !all {
				return ""
			}
			if r := among("TimeSince", l.h.TimeSince(d, append(opts, humanize.WithNow(now))...), want); r != "" {
				return r
			}
			if r := among("TimeSince WithReverse", l.h.TimeSince(now, append([]humanize.TimeOption{humanize.WithReverse(true), humanize.WithNow(d)}, opts...)...), want); r != "" {
				return r
			}
			if r := among("TimeUntilFrom", l.h.TimeUntilFrom(now, d, opts...), want); r != "" {
				return r
			}
			if r := among("TimeUntil", l.h.TimeUntil(now, append(opts, humanize.WithNow(d))...), want); r != "" {
				return r
			}
			if r := among("TimeSinceFrom of a pointer", l.h.TimeSinceFrom(&d, now, opts...), want); r != "" {
				return r
			}
			// the other direction
			back := expect20(now, d, depth, adj, l.w)
			if r := among("TimeUntilFrom, instants exchanged", l.h.TimeUntilFrom(d, now, opts...), back); r != "" {
				return r
			}
			if r := among("TimeSinceFrom, instants exchanged", l.h.TimeSinceFrom(now, d, opts...), back); r != "" {
				return r
			}
			// without options
			if depth == 2 && adj {
				if r := among("TimeSinceFrom without options", l.h.TimeSinceFrom(d, now), want); r != "" {
					return r
				}
			}
			return ""
		})
	}
	mk := func(y, mo, d, h, mi, s, ns int, z *time.Location) time.Time {
		return time.Date(y, time.Month(mo), d, h, mi, s, ns, z)
	}
	west, east := time.FixedZone("w", -12*3600), time.FixedZone("e", 14*3600)
	ny, berlin := mustZone("America/New_York"), mustZone("Europe/Berlin")
	starts := []time.Time{
		mk(2001, 1, 1, 0, 0, 0, 0, time.UTC), mk(2000, 1, 1, 0, 0, 0, 0, time.UTC), mk(2000, 2, 28, 23, 59, 59, 0, time.UTC), mk(2000, 2, 29, 12, 0, 0, 500, time.UTC), mk(2000, 3, 1, 0, 0, 0, 0, time.UTC), mk(2000, 12, 31, 23, 59, 59, 999999999, time.UTC),
		mk(1999, 12, 31, 23, 59, 59, 1, time.UTC), mk(2003, 7, 14, 8, 30, 15, 0, berlin), mk(2004, 2, 29, 0, 0, 0, 0, ny), mk(2007, 3, 25, 1, 59, 59, 0, berlin), mk(1899, 12, 31, 23, 0, 0, 0, time.UTC), mk(1896, 6, 1, 0, 0, 0, 0, time.UTC),
		mk(2003, 12, 31, 22, 0, 0, 0, west), mk(2004, 12, 31, 22, 0, 0, 0, west), mk(2004, 1, 1, 3, 0, 0, 0, east), mk(1, 1, 1, 0, 0, 2, 0, time.UTC), mk(2008, 11, 2, 1, 30, 0, 0, ny), mk(1970, 1, 1, 0, 0, 0, 0, time.UTC),
	}
	if c.Thorough() {
		for y := 1995; y <= 2025; y++ {
			for _, md := range [][2]int{{1, 1}, {2, 28}, {3, 1}, {6, 15}, {12, 31}} {
				starts = append(starts, mk(y, md[0], md[1], 13, 1, 2, y, time.UTC))
			}
		}
	}
	ys := []int64{0, 1, 2, 3, 4, 5, 8, 10, 11, 12, 21, 40, 100, 101, 250}
	ms := []int64{0, 1, 2, 11, 12}
	ws := []int64{0, 1, 3, 4}
	ds := []int64{0, 1, 6}
	hs := []int64{0, 1, 23}
	mis := []int64{0, 1, 59}
	ss := []int64{-1, 0, 1, 59}
	dims := []int{len(ys), len(ms), len(ws), len(ds), len(hs), len(mis), len(ss)}
	total := size(dims)
	c.Note("unit_combinations", total)
	targets := []*time.Location{nil, time.UTC, west, east}
	c.Par(len(starts)*len(ys)*len(ms), func(w, j int) {
		si := j / (len(ys) * len(ms))
		rest := total / (len(ys) * len(ms))
		base := (j % (len(ys) * len(ms))) * rest
		d := starts[si]
		for k := 0; k < rest; k++ {
			if c.Expired() {
				return
			}
			t := tuple(base+k, dims)
			// long spans need the start's year to leave room
			sec := ys[t[0]]*31536000 + ms[t[1]]*2592000 + ws[t[2]]*604800 + ds[t[3]]*86400 + hs[t[4]]*3600 + mis[t[5]]*60 + ss[t[6]]
			now := d.Add(time.Duration(sec) * time.Second)
			if z := targets[k%4]; z != nil {
				now = now.In(z)
			}
			// the same span with its leap days added, so that the counts come out round
			full := now.Add(time.Duration(leapDays20(d.Year(), now.Year())) * 24 * time.Hour)
			for di, depth := range depths {
				adj := (di+k)%2 == 0
				check(w, (di+k/2)%2, d, now, depth, adj, di == k%9)
				if !full.Equal(now) {
					check(w, (di+k/2+1)%2, d, full, depth, adj, di == (k+3)%9)
				}
				check(w, (di+k/2)%2, d, now, depth, !adj, false)
			}
			key := ""
			for _, p := range split20(sec, 7, false, true) {
				key += strconv.Itoa(p.unit) + ":" + strconv.FormatInt(min(p.count, 12), 10) + " "
			}
			c.Distinct(key)
		}
	})
	// all seconds of a window, and of windows around the end of weeks, months and years
	windows := [][2]int64{{-100, int64(c.Pick(100000, 1400000))}}
	for _, u := range []int64{86400, 604800, 2592000, 2 * 2592000, 31536000, 2 * 31536000, 10 * 31536000} {
		for k := int64(1); k <= 3; k++ {
			windows = append(windows, [2]int64{k*u - 4000, k*u + 4000})
		}
	}
	// the year's tolerance
	for k := int64(1); k <= 30; k++ {
		windows = append(windows, [2]int64{k*31536000 - 15768 - 200, k*31536000 - 15768 + 200})
	}
	for wi, win := range windows {
		d := starts[0]
		if wi%2 == 1 {
			d = starts[6]
		}
		n := int(win[1] - win[0])
		c.Par((n+999)/1000, func(w, i int) {
			for k := i * 1000; k < (i+1)*1000 && k < n; k++ {
				now := d.Add(time.Duration(win[0]+int64(k)) * time.Second)
				check(w, k%2, d, now, 1+k%6, k%3 != 0, false)
				check(w, 0, d, now, 2, true, false)
			}
		})
	}
	// sub-second parts are ignored: the whole seconds of the two instants count
	nss := []int{0, 1, 499999999, 500000000, 999999999}
	for _, a := range nss {
		for _, b := range nss {
			for _, sec := range []int{-1, 0, 1, 59, 60, 61, 119, 120, 3599, 3600, 86399, 86400} {
				d := mk(2001, 5, 5, 10, 0, 0, a, time.UTC)
				check(0, 0, d, mk(2001, 5, 5, 10, 0, sec, b, time.UTC), 2, true, true)
			}
		}
	}
	// other representations of the instant: seconds since 1970
	for _, sec := range []int64{0, 1, -1, 59, 60, 86400, 951782400, 951868799, 978307200, -86400 * 400, 4102444800} {
		for _, r := range intReps(sec) {
			if r.name == "Duration" {
				continue
			}
			for _, delta := range []int64{0, 59, 60, 86400, 31 * 86400, 366 * 86400, 1500 * 86400} {
				for li, l := range langs {
					c.Case(func() string { return fmt.Sprintf("%s: %s(%d), %d s before", l.name, r.name, sec, delta) }, func() string {
						d := time.Unix(sec, 0)
						now := d.Add(time.Duration(delta) * time.Second)
						if r := among("TimeSinceFrom", l.h.TimeSinceFrom(r.v, now, humanize.WithDepth(3)), expect20(d, now, 3, true, langs[li].w)); r != "" {
							return r
						}
						if r := among("TimeUntil", l.h.TimeUntil(r.v, humanize.WithNow(now)), expect20(now, d, 2, true, langs[li].w)); r != "" {
							return r
						}
						return among("TimeUntilFrom", l.h.TimeUntilFrom(r.v, now.Add(-2*time.Duration(delta)*time.Second)), expect20(now.Add(-2*time.Duration(delta)*time.Second), d, 2, true, langs[li].w))
					})
				}
			}
		}
	}
	// instants far from each other, given as a number of seconds (which counts as its nearest float64)
	for k := 31; k <= 63; k++ {
		for _, off := range []int64{-1 << 38, -1<<38 + 1, -1, 0, 1} {
			if k == 63 && off > -2 {
				continue // no time.Time stands for these
			}
			sec := int64(1)<<min(k, 62) + off
			if k == 63 {
				sec += 1 << 62
			}
			if sec < 0 {
				continue
			}
			for si, start := range starts {
				for _, v := range []any{sec, -sec, uint64(sec), float64(sec), strconv.FormatInt(-sec, 10)} {
					neg := v == any(-sec) || fmt.Sprintf("%T", v) == "string"
					f := float64(sec)
					if neg {
						f = -f
					}
					if k >= 62 && (neg && start.Unix() > 0 || !neg && start.Unix() < 0) {
						continue // the distance is more than 2^63 seconds, or nearly so
					}
					c.Case(func() string { return fmt.Sprintf("%T %v and %s", v, v, start) }, func() string {
						t := time.Unix(int64(f), 0)
						if d := among("TimeSinceFrom", src.TimeSinceFrom(v, start, humanize.WithDepth(1+si%6)), expect20(t, start, 1+si%6, true, english20)); d != "" {
							return d
						}
						return among("TimeUntilFrom", src.TimeUntilFrom(v, start, humanize.WithDepth(1+si%6)), expect20(start, t, 1+si%6, true, english20))
					})
				}
			}
		}
	}
	// values that are no instants
	now := starts[0]
	for _, b := range badInstants() {
		c.Case(func() string { return "no instant: " + b.name }, func() string {
			for n, got := range map[string]string{"TimeSince": src.TimeSince(b.v), "TimeSinceFrom": src.TimeSinceFrom(b.v, now), "TimeUntil": src.TimeUntil(b.v, humanize.WithNow(now)), "TimeUntilFrom": src.TimeUntilFrom(b.v, now)} {
				if got != b.text {
					return diff(n, got, b.text)
				}
			}
			return ""
		})
	}
}

type bad20 struct {
	name string
	v    any
	text string
}

// badInstants lists values that are no instants: those of badNumbers, and numbers of seconds so far from
// the epoch that no time.Time stands for them.
func badInstants() []bad20 {
	out := badNumbers()
	for _, v := range []any{1e19, -1e19, float64(math.MaxInt64), -math.MaxFloat64, math.MaxFloat64, float32(math.MaxFloat32), math.Inf(1), math.Inf(-1), math.NaN(), float32(math.Inf(1)),
		int64(math.MaxInt64), int64(math.MinInt64), uint64(math.MaxUint64), uint64(1) << 63, "1e300", "18446744073709551615", "-9223372036854775808"} {
		out = append(out, bad20{fmt.Sprintf("%T %v", v, v), v, fmt.Sprintf("%%!(%T=%v)", v, v)})
	}
	return out
}

// badNumbers lists values that are neither numbers nor instants, with the error text documented for them
// ("a string is returned with an error message in fmt style").
func badNumbers() (out []bad20) {
	type st struct{ A int }
	var np *int
	var nt *time.Time
	add := func(name string, v any) {
		out = append(out, bad20{name, v, fmt.Sprintf("%%!(%T=%v)", v, v)})
	}
	out = append(out, bad20{"nil", nil, "<nil>"})
	add("empty string", "")
	add("text", "abc")
	add("number with text", "12x")
	add("space", " 1")
	add("bool", true)
	add("struct", st{5})
	add("slice", []int{1})
	add("map", map[string]int{"a": 1})
	add("nil *int", np)
	add("nil *time.Time", nt)
	add("error", fmt.Errorf("boom"))
	return
}
