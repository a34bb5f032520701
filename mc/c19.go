package main

import (
	"fmt"
	"sort"
	"strconv"
	"time"

	"github.com/vorlif/spreak/humanize"
)

func init() {
	register(&Check{ID: "C19", Level: "exploration",
		Rule: "virtual clock set to each of a set of instants (daylight-saving changes of several zones, year and month ends, leap days, sub-second positions) x zones x every half hour of seven days (NaturalDay) and every second of a window and the neighbourhood of every unit boundary with sub-second parts (NaturalTime), both directions, all representations of the argument; non-trivial: distinct (day distance, wall clock) and distinct texts",
		Run:  runC19})
}

// at sleeps until the given instant.
func at(t time.Time) { time.Sleep(time.Until(t)) }

// absDay is the number of the calendar day an instant falls on in its own zone.
func absDay(t time.Time) int64 {
	c := civilOf18(t)
	return days18(c.y) + int64(c.yd)
}

// nows19 are the instants the clock is set to, in ascending order.
func nows19(thorough bool) []time.Time {
	u := func(y, mo, d, h, mi, s, ns int) time.Time {
		return time.Date(y, time.Month(mo), d, h, mi, s, ns, time.UTC)
	}
	l := []time.Time{
		u(2000, 1, 1, 0, 0, 0, 1), u(2000, 2, 28, 23, 59, 59, 999999999), u(2000, 2, 29, 12, 0, 0, 0), u(2000, 3, 1, 0, 0, 0, 0), u(2000, 12, 31, 23, 59, 59, 500000000), u(2001, 1, 1, 0, 0, 0, 0),
		u(2003, 6, 15, 10, 30, 0, 250000000), u(2004, 2, 29, 0, 0, 0, 0), u(2004, 12, 31, 12, 0, 0, 0),
	}
	// around the changes of the zones' offsets
	years := []int{2001, 2002, 2010}
	if thorough {
		years = []int{2001, 2002, 2003, 2004, 2005, 2006, 2007, 2008, 2009, 2010, 2011, 2012, 2013, 2017, 2018}
	}
	for _, z := range zones19() {
		for _, y := range years {
			t := time.Date(y, 1, 1, 0, 0, 0, 0, z)
			_, off := t.Zone()
			for t.Year() <= y {
				n := t.Add(time.Hour)
				if _, o := n.Zone(); o != off {
					off = o
					for _, h := range []int{-26, -2, 0, 1, 12, 23} {
						l = append(l, n.Add(time.Duration(h)*time.Hour+17*time.Minute))
					}
				}
				t = n
			}
		}
	}
	sort.Slice(l, func(i, j int) bool { return l[i].Before(l[j]) })
	out := l[:1]
	for _, t := range l[1:] {
		if !t.Equal(out[len(out)-1]) {
			out = append(out, t)
		}
	}
	return out
}

func zones19() []*time.Location {
	return []*time.Location{time.UTC, mustZone("Europe/Berlin"), mustZone("America/New_York"), mustZone("America/Sao_Paulo"), mustZone("Australia/Lord_Howe"), mustZone("Asia/Kathmandu"), mustZone("Pacific/Kiritimati"), time.FixedZone("w", -12*3600), time.FixedZone("e", 14*3600), mustZone("America/St_Johns"), mustZone("Asia/Beirut"), mustZone("America/Havana")}
}

// natural19 gives the texts of a language for NaturalDay and NaturalTime.
type natural19 struct {
	name         string
	h            *humanize.Humanizer
	past, future words20
	count        func(unit, dir string, n int64) string
	fixed        func(id string) string        // today, tomorrow, yesterday, now
	dist         func(dir, what string) string // a distance with its direction
	date         func(t time.Time) string      // DateFormat
}

func (l *natural19) naturalDay(t, now time.Time) string {
	switch absDay(t) - absDay(now.In(t.Location())) {
	case 0:
		return l.fixed("today")
	case 1:
		return l.fixed("tomorrow")
	case -1:
		return l.fixed("yesterday")
	}
	return l.date(t)
}

// naturalTime: ns is the number of nanoseconds from now to the instant, t and now the instants.
func (l *natural19) naturalTime(t, now time.Time) []string {
	sec := t.Unix() - now.Unix()
	ns := int64(t.Nanosecond() - now.Nanosecond())
	if ns < 0 {
		sec, ns = sec-1, ns+1e9
	}
	// t = now + sec + ns, 0 ≤ ns < 1e9
	dir, words := "from now", l.future
	if sec < 0 {
		dir, words = "ago", l.past
		sec = -sec
		if ns > 0 {
			sec-- // whole seconds that have passed
		}
	} else if ns >= 500_000_000 {
		sec++ // the future is rounded to the nearest second
	}
	switch {
	case sec == 0:
		return []string{l.fixed("now")}
	case sec < 60:
		return []string{l.count("second", dir, sec)}
	case sec < 3600:
		return []string{l.count("minute", dir, sec/60)}
	case sec < 86400:
		return []string{l.count("hour", dir, sec/3600)}
	}
	// the same distance in whole seconds, measured from the argument
	other := time.Unix(t.Unix()+sec, int64(t.Nanosecond())).In(t.Location())
	early, late := t, other
	if dir == "from now" {
		other = time.Unix(t.Unix()-sec, int64(t.Nanosecond())).In(t.Location())
		early, late = other, t
	}
	var out []string
	for _, s := range expect20(early, late, 2, true, words) {
		out = append(out, l.dist(dir, s))
	}
	return out
}

func english19() *natural19 {
	return &natural19{name: "source", h: mustHuman("en"), past: english20, future: english20,
		count: func(u, dir string, n int64) string {
			if n == 1 {
				return map[string]string{"second": "a second ", "minute": "a minute ", "hour": "an hour "}[u] + dir
			}
			return strconv.FormatInt(n, 10) + " " + u + "s " + dir
		},
		fixed: func(id string) string { return id },
		dist:  func(dir, what string) string { return what + " " + dir },
		date:  func(t time.Time) string { return format18("N j, Y", civilOf18(t), source18) },
	}
}

func threeForms19() *natural19 {
	return &natural19{name: "three", h: mustHuman("de", three20()), past: threeWords20("past"), future: threeWords20("future"),
		count: func(u, dir string, n int64) string {
			return u + strconv.Itoa(form20(n)) + " " + dir + "<" + strconv.FormatInt(n, 10) + ">"
		},
		fixed: func(id string) string { return "{" + id + "}" },
		dist:  func(dir, what string) string { return "{" + what + " " + dir + "}" },
		date:  func(t time.Time) string { return format18("N j, Y", civilOf18(t), source18) },
	}
}

func runC19(c *C) {
	time.Local = mustZone("Europe/Berlin")
	langs := []*natural19{english19(), threeForms19()}
	nows := nows19(c.Thorough())
	zones := zones19()
	c.Note("clock_positions", len(nows))
	day := func(w int, l *natural19, now time.Time, t time.Time, what string, v any) {
		c.caseW(w, func() string {
			return fmt.Sprintf("%s: NaturalDay of %s %s %s at %s", l.name, what, t.Format(time.RFC3339Nano), t.Location(), now.UTC().Format(time.RFC3339Nano))
		}, func() string {
			return diff("NaturalDay", l.h.NaturalDay(v), l.naturalDay(t, now))
		})
	}
	tim := func(w int, l *natural19, now time.Time, t time.Time, what string, v any) {
		c.caseW(w, func() string {
			return fmt.Sprintf("%s: NaturalTime of %s %s %s at %s", l.name, what, t.Format(time.RFC3339Nano), t.Location(), now.UTC().Format(time.RFC3339Nano))
		}, func() string {
			got := l.h.NaturalTime(v)
			c.Outcome(got)
			return among("NaturalTime", got, l.naturalTime(t, now))
		})
	}
	c.bubbles(len(nows), func(w, i int) {
		at(nows[i])
		now := time.Now()
		if !now.Equal(nows[i]) {
			panic("the virtual clock is off")
		}
		// calendar days
		for zi, z := range zones {
			base := now.In(z)
			mid := time.Date(base.Year(), base.Month(), base.Day(), 0, 0, 0, 0, z)
			for h := -3 * 48; h <= 4*48; h++ {
				if c.Expired() {
					return
				}
				t := mid.Add(time.Duration(h) * 30 * time.Minute)
				l := langs[(h+zi+1000)%2]
				day(w, l, now, t, "the instant", t)
				day(w, l, now, t.Add(-1), "the instant", t.Add(-1))
				tim(w, l, now, t, "the instant", t)
				c.Distinct(fmt.Sprint(absDay(t)-absDay(base), t.Format("15:04"), base.Format("15:04")))
			}
			for _, d := range []int{-800, -366, -365, -31, -30, -29, -28, -8, -7, 7, 28, 29, 30, 31, 365, 366, 36525} {
				t := time.Date(base.Year(), base.Month(), base.Day()+d, 12, 0, 0, 0, z)
				day(w, langs[0], now, t, "the instant", t)
				tim(w, langs[1], now, t, "the instant", t)
			}
		}
		// distances
		subs := []time.Duration{0, 1, 499_999_999, 500_000_000, 500_000_001, 999_999_999}
		var secs []int64
		top := int64(c.Pick(400, 8000))
		if i < 12 {
			top = int64(c.Pick(8000, 90000))
		}
		for s := int64(0); s <= top; s++ {
			secs = append(secs, s)
		}
		for _, u := range unit20 {
			for k := int64(1); k <= 25; k++ {
				for d := int64(-3); d <= 3; d++ {
					if x := u.sec*k + d; x > 0 {
						secs = append(secs, x)
					}
				}
			}
			for _, v := range unit20 {
				for d := int64(-2); d <= 2; d++ {
					secs = append(secs, u.sec*2+v.sec*3+d, u.sec+v.sec+d)
				}
			}
		}
		for si, s := range secs {
			if c.Expired() {
				return
			}
			sub := subs
			if i >= 12 {
				sub = subs[si%6 : si%6+1]
			}
			for k, x := range sub {
				d := time.Duration(s)*time.Second + x
				z := zones[(si+k)%len(zones)]
				l := langs[(si/5+k)%2]
				tim(w, l, now, now.Add(d).In(z), "the instant", now.Add(d).In(z))
				tim(w, l, now, now.Add(-d).In(z), "the instant", now.Add(-d).In(z))
				if si%7 == k {
					t := now.Add(d)
					tim(w, l, now, t, "the distance", d)
					tim(w, l, now, now.Add(-d), "the distance", -d)
					day(w, l, now, t, "the distance", d)
					day(w, l, now, now.Add(-d), "the distance", -d)
					pt := &t
					tim(w, l, now, t, "the pointer", &pt)
					day(w, l, now, t, "the pointer", pt)
					bare := t.Round(0).UTC() // without the monotonic clock
					tim(w, l, now, bare, "the instant", bare)
				}
				if si%31 == k {
					u := now.Unix() + s
					t := time.Unix(u, 0)
					for _, r := range intReps(u) {
						if r.name == "Duration" {
							continue
						}
						tim(w, l, now, t, "the "+r.name, r.v)
						day(w, l, now, t, "the "+r.name, r.v)
					}
				}
				// the default instant of TimeSince and TimeUntil is now
				if si%5 == k {
					t := now.Add(d)
					words, other := english20, langs[0].h
					c.caseW(w, func() string { return fmt.Sprintf("TimeSince and TimeUntil from %s to now %s", t, now) }, func() string {
						for _, dur := range []time.Duration{d, -d} {
							t := now.Add(dur)
							if r := among("TimeSince", other.TimeSince(t), expect20(t, now, 2, true, words)); r != "" {
								return r
							}
							if r := among("TimeSince of a duration", other.TimeSince(dur), expect20(t, now, 2, true, words)); r != "" {
								return r
							}
							if r := among("TimeUntil", other.TimeUntil(t), expect20(now, t, 2, true, words)); r != "" {
								return r
							}
							if r := among("TimeUntil of a duration", other.TimeUntil(dur), expect20(now, t, 2, true, words)); r != "" {
								return r
							}
						}
						return ""
					})
				}
			}
		}
		// distances that no time.Duration holds
		for _, years := range []int64{100, 291, 292, 293, 300, 2000, 9999, 150000} {
			for _, dir := range []int64{-1, 1} {
				y := now.AddDate(int(dir*years), 0, 0).Year()
				a, b := y, now.Year()
				if dir > 0 {
					a, b = b, y
				}
				for _, d := range []int64{-1, 0, 1, 60, 86399, 86400} {
					if c.Expired() {
						return
					}
					s := years*unit20[0].sec + 3*unit20[1].sec + 86400*leapDays20(a, b) + d
					for k, ns := range subs {
						z := zones[(int(d&15)+k)%len(zones)]
						t := time.Unix(now.Unix()+dir*s, int64(now.Nanosecond())+dir*int64(ns)).In(z)
						tim(w, langs[k%2], now, t, "the instant", t)
						day(w, langs[k%2], now, t, "the instant", t)
					}
				}
			}
		}
		// the clock's own texts
		h := langs[0].h
		loc := civilOf18(time.Now())
		for _, x := range []struct {
			name, got, f string
		}{{"Now", h.Now(), "N j, Y, P"}, {"Time", h.Time(), "P"}, {"Date", h.Date(), "N j, Y"}} {
			c.caseW(w, func() string { return fmt.Sprintf("%s at %s", x.name, now) }, func() string {
				return diff(x.name, x.got, format18(x.f, loc, source18))
			})
		}
		for _, b := range badInstants() {
			c.caseW(w, func() string { return "no instant: " + b.name }, func() string {
				if r := diff("NaturalDay", h.NaturalDay(b.v), b.text); r != "" {
					return r
				}
				return diff("NaturalTime", h.NaturalTime(b.v), b.text)
			})
		}
	})
}
