package main

import (
	"fmt"
	"math"
	"math/big"
	"strconv"
	"strings"

	"github.com/vorlif/spreak/humanize"
	loc_de21 "github.com/vorlif/spreak/humanize/locale/de"
)

func init() {
	register(&Check{ID: "C21", Level: "exploration",
		Rule: "all whole numbers of a window and of neighbourhoods of the powers of ten and two (and of their multiples) up to 2^53, both signs, beyond it the neighbourhoods of multiples of the powers of two and ten up to the largest float64, 64-bit integers, NaN and infinities, fractions of several denominators, every numeric representation, values that are no numbers x Intcomma, Ordinal, Apnumber, FilesizeFormat, Intword x English and German; non-trivial: distinct (function, number of digits, suffix or unit) results",
		Run:  runC21})
}

// lang21 is what the reference needs to know about a language.
type lang21 struct {
	name       string
	h          *humanize.Humanizer
	group, dec string
	ap         []string
	ord        func(digits string, n int64) string
	size       []string          // byte, bytes, KB…
	word       map[int][2]string // exponent -> singular, plural
}

func (l *lang21) int(n int64) string {
	if n < 0 {
		return "-" + group20(-n, l.group)
	}
	return group20(n, l.group)
}

// dec21 rounds an exact value to the given number of decimals and returns the admissible texts (two for
// a tie); trailing zeros stay if fixed.
func (l *lang21) decimal(v *big.Rat, digits int, fixed bool) []string {
	neg := v.Sign() < 0
	a := new(big.Rat).Abs(v)
	scale := new(big.Int).Exp(big.NewInt(10), big.NewInt(int64(digits)), nil)
	a.Mul(a, new(big.Rat).SetInt(scale))
	q, r := new(big.Int).QuoRem(a.Num(), a.Denom(), new(big.Int))
	twice := new(big.Int).Lsh(r, 1)
	var cand []*big.Int
	switch twice.Cmp(a.Denom()) {
	case -1:
		cand = []*big.Int{q}
	case 1:
		cand = []*big.Int{new(big.Int).Add(q, big.NewInt(1))}
	default:
		cand = []*big.Int{q, new(big.Int).Add(q, big.NewInt(1))}
	}
	var out []string
	for _, x := range cand {
		s := x.String()
		for len(s) <= digits {
			s = "0" + s
		}
		ip, fp := s[:len(s)-digits], s[len(s)-digits:]
		if !fixed {
			fp = strings.TrimRight(fp, "0")
		}
		for i := len(ip) - 3; i > 0; i -= 3 {
			ip = ip[:i] + l.group + ip[i:]
		}
		if fp != "" {
			ip += l.dec + fp
		}
		if neg {
			out = append(out, "-"+ip)
			if strings.Trim(ip, "0.,") == "" {
				out = append(out, ip) // minus zero
			}
		} else {
			out = append(out, ip)
		}
	}
	return out
}

// shortest is the shortest decimal that denotes the float.
func shortest(f float64) *big.Rat {
	r, ok := new(big.Rat).SetString(strconv.FormatFloat(f, 'f', -1, 64))
	if !ok {
		panic("shortest")
	}
	return r
}

func languages21() []*lang21 {
	pl := func(s, p string) [2]string { return [2]string{s, p} }
	en := &lang21{name: "en", h: mustHuman("en"), group: ",", dec: ".",
		ap:   strings.Fields("one two three four five six seven eight nine"),
		size: []string{"byte", "bytes", "KB", "MB", "GB", "TB", "PB"},
		word: map[int][2]string{6: pl("million", "million"), 9: pl("billion", "billion"), 12: pl("trillion", "trillion"), 15: pl("quadrillion", "quadrillion"), 18: pl("quintillion", "quintillion"), 21: pl("sextillion", "sextillion"), 24: pl("septillion", "septillion"), 27: pl("octillion", "octillion"), 30: pl("nonillion", "nonillion"), 33: pl("decillion", "decillion")},
		ord: func(d string, n int64) string {
			if k := n % 100; k >= 11 && k <= 13 {
				return d + "th"
			}
			switch n % 10 {
			case 1:
				return d + "st"
			case 2:
				return d + "nd"
			case 3:
				return d + "rd"
			}
			return d + "th"
		}}
	de := &lang21{name: "de", h: mustHuman("de", loc_de21.New()), group: ".", dec: ",",
		ap:   strings.Fields("eins zwei drei vier fünf sechs sieben acht neun"),
		size: []string{"Byte", "Bytes", "KB", "MB", "GB", "TB", "PB"},
		word: map[int][2]string{6: pl("Million", "Millionen"), 9: pl("Milliarde", "Milliarden"), 12: pl("Billion", "Billionen"), 15: pl("Billiarde", "Billiarden"), 18: pl("Trillion", "Trillionen"), 21: pl("Trilliarde", "Trilliarden"), 24: pl("Quadrillion", "Quadrillionen"), 27: pl("Quadrilliarde", "Quadrilliarden"), 30: pl("Quintillion", "Quintillionen"), 33: pl("Quintilliarde", "Quintilliarden")},
		ord:  func(d string, n int64) string { return d + "." }}
	return []*lang21{en, de}
}

func (l *lang21) intcomma(v float64) []string { return l.decimal(shortest(v), 6, false) }

func (l *lang21) ordinal(n int64) []string {
	if n < 0 {
		return []string{strconv.FormatInt(n, 10), l.int(n)}
	}
	return []string{l.ord(l.int(n), n), l.ord(strconv.FormatInt(n, 10), n)}
}

func (l *lang21) apnumber(n int64) []string {
	if n >= 1 && n <= 9 {
		return []string{l.ap[n-1]}
	}
	return []string{l.int(n), strconv.FormatInt(n, 10)}
}

func (l *lang21) filesize(n int64) (out []string) {
	a, sign := n, ""
	if n < 0 {
		a, sign = -n, "-"
	}
	if a < 1024 {
		unit := l.size[1]
		if a == 1 {
			unit = l.size[0]
		}
		return []string{sign + l.int(a) + " " + unit, sign + strconv.FormatInt(a, 10) + " " + unit}
	}
	k := 1
	for k < 5 && a >= 1<<(10*(k+1)) {
		k++
	}
	for _, d := range l.decimal(new(big.Rat).SetFrac64(a, 1<<(10*k)), 1, false) {
		out = append(out, sign+d+" "+l.size[k+1])
	}
	return
}

func (l *lang21) intword(v float64) (out []string) {
	a := math.Abs(v)
	if a < 1e6 {
		return l.intcomma(v)
	}
	e := 6
	for e < 15 && a >= math.Pow10(e+3) {
		e += 3
	}
	r := new(big.Rat).Quo(new(big.Rat).SetFloat64(v), new(big.Rat).SetInt64(int64(math.Pow10(e))))
	one := new(big.Rat).Abs(r).Cmp(big.NewRat(1, 1)) == 0
	for _, d := range l.decimal(r, 1, true) {
		if !one {
			out = append(out, d+" "+l.word[e][1])
		}
		if one || strings.TrimPrefix(d, "-") == "1"+l.dec+"0" {
			out = append(out, d+" "+l.word[e][0]) // written as 1.0
		}
	}
	return
}

// big are the admissible texts for a number of more than 2^53, by function: its digits are those of the
// float64 itself or of the shortest decimal that denotes it (or of the integer, where it was one).
func (l *lang21) big(v float64, cands []*big.Int) map[string][]string {
	out := map[string][]string{}
	pow := func(e int) *big.Int { return new(big.Int).Exp(big.NewInt(10), big.NewInt(int64(e)), nil) }
	for _, x := range cands {
		digits := l.decimal(new(big.Rat).SetInt(x), 0, false)[0]
		out["Intcomma"] = append(out["Intcomma"], digits)
		out["Apnumber"] = append(out["Apnumber"], digits, x.String())
		if x.Sign() < 0 {
			out["Ordinal"] = append(out["Ordinal"], x.String(), digits)
		} else {
			n := new(big.Int).Mod(x, big.NewInt(100)).Int64()
			out["Ordinal"] = append(out["Ordinal"], l.ord(digits, n), l.ord(x.String(), n))
		}
		unit := new(big.Rat).SetFrac(x, new(big.Int).Lsh(big.NewInt(1), 50))
		for _, d := range l.decimal(unit, 1, false) {
			out["FilesizeFormat"] = append(out["FilesizeFormat"], d+" "+l.size[6])
		}
		// the size is computed in float64
		f, _ := unit.Float64()
		exact, _ := new(big.Float).SetFloat64(f).Rat(nil)
		for _, r := range []*big.Rat{exact, shortest(f)} {
			for _, d := range l.decimal(r, 1, false) {
				out["FilesizeFormat"] = append(out["FilesizeFormat"], d+" "+l.size[6])
			}
		}
		a := new(big.Int).Abs(x)
		if a.Cmp(pow(36)) >= 0 {
			continue // no name up to the googol
		}
		e := 15
		for e < 33 && a.Cmp(pow(e+3)) >= 0 {
			e += 3
		}
		r := new(big.Rat).SetFrac(x, pow(e))
		q, _ := r.Float64()
		for _, r := range []*big.Rat{r, new(big.Rat).SetFloat64(q), shortest(math.Nextafter(q, 0)), shortest(math.Nextafter(q, math.Inf(int(math.Copysign(1, q)))))} {
			one := new(big.Rat).Abs(r).Cmp(big.NewRat(1, 1)) == 0
			for _, d := range l.decimal(r, 1, true) {
				if !one {
					out["Intword"] = append(out["Intword"], d+" "+l.word[e][1])
				}
				if one || strings.TrimPrefix(d, "-") == "1"+l.dec+"0" {
					out["Intword"] = append(out["Intword"], d+" "+l.word[e][0])
				}
			}
		}
	}
	return out
}

func runBig21(c *C, langs []*lang21) {
	type item struct {
		name  string
		v     any
		f     float64
		cands []*big.Int
	}
	var items []item
	seen := map[float64]bool{}
	add := func(f float64) {
		if math.Abs(f) < 1<<53 || math.IsInf(f, 0) || seen[f] {
			return
		}
		seen[f] = true
		exact, _ := new(big.Float).SetFloat64(f).Int(nil)
		cands := []*big.Int{exact, new(big.Int).Set(shortest(f).Num())}
		items = append(items, item{"float64", f, f, cands}, item{"text", strconv.FormatFloat(f, 'g', -1, 64), f, cands}, item{"digits", exact.String(), f, cands})
	}
	near := func(f float64) {
		up, down := f, f
		add(f)
		add(-f)
		for i := 0; i < c.Pick(2, 12); i++ {
			up, down = math.Nextafter(up, math.Inf(1)), math.Nextafter(down, 0)
			add(up)
			add(down)
			add(-up)
			add(-down)
		}
	}
	for k := 53; k < 1024; k++ {
		for m := 1; m <= c.Pick(7, 63); m += 2 {
			if c.Quick() && k > 140 && m > 1 {
				break
			}
			near(math.Ldexp(float64(m), k-3))
		}
	}
	for p := 15; p <= 308; p++ {
		for m := 1; m <= 99; m++ {
			if c.Quick() && p > 40 && m != 1 && m != 9 && m != 99 {
				continue
			}
			f, _ := strconv.ParseFloat(fmt.Sprintf("%de%d", m, p), 64)
			near(f)
			if p < 40 {
				// where the rounding to one decimal changes
				f, _ = strconv.ParseFloat(fmt.Sprintf("%d5e%d", m, p), 64)
				near(f)
			}
		}
	}
	near(math.MaxFloat64)
	integer := func(name string, v any, x *big.Int) {
		f, _ := new(big.Float).SetInt(x).Float64()
		exact, _ := new(big.Float).SetFloat64(f).Int(nil)
		items = append(items, item{name, v, f, []*big.Int{x, exact}})
	}
	for k := 53; k < 64; k++ {
		for d := int64(-9); d <= 9; d++ {
			if x := int64(1)<<k + d; k < 63 && x > 1<<53 {
				integer("int64", x, big.NewInt(x))
				integer("int64", -x, big.NewInt(-x))
			}
			if x := uint64(1)<<k + uint64(d); x > 1<<53 {
				integer("uint64", x, new(big.Int).SetUint64(x))
			}
		}
	}
	for d := 0; d < 20; d++ {
		integer("int64", math.MaxInt64-int64(d), big.NewInt(math.MaxInt64-int64(d)))
		integer("int64", math.MinInt64+int64(d), big.NewInt(math.MinInt64+int64(d)))
		integer("uint64", math.MaxUint64-uint64(d), new(big.Int).SetUint64(math.MaxUint64-uint64(d)))
	}
	c.Note("numbers beyond 2^53", len(items))
	c.Par(len(items), func(w, i int) {
		x := items[i]
		for _, l := range langs {
			c.caseW(w, func() string { return fmt.Sprintf("%s: %s %v", l.name, x.name, x.v) }, func() string {
				want := l.big(x.f, x.cands)
				for f, got := range map[string]string{"Intcomma": l.h.Intcomma(x.v), "Ordinal": l.h.Ordinal(x.v), "Apnumber": l.h.Apnumber(x.v), "FilesizeFormat": l.h.FilesizeFormat(x.v), "Intword": l.h.Intword(x.v)} {
					if want[f] == nil {
						continue
					}
					if r := among(f, got, want[f]); r != "" {
						return r
					}
				}
				return ""
			})
		}
	})
	// no number at all, or none that could be counted
	for _, v := range []any{math.NaN(), math.Inf(1), math.Inf(-1), float32(math.Inf(1)), "NaN", "Inf", "-inf", "+Infinity", complex(math.NaN(), 0)} {
		for _, l := range langs {
			c.Case(func() string { return fmt.Sprintf("%s: %T %v", l.name, v, v) }, func() string {
				for f, got := range map[string]string{"Intcomma": l.h.Intcomma(v), "Ordinal": l.h.Ordinal(v), "Apnumber": l.h.Apnumber(v), "FilesizeFormat": l.h.FilesizeFormat(v), "Intword": l.h.Intword(v)} {
					if got == "" || strings.ContainsAny(got, "0123456789") && !strings.HasPrefix(got, "%!(") {
						return diff(f, got, "a text without digits")
					}
				}
				return ""
			})
		}
	}
}

func runC21(c *C) {
	langs := languages21()
	shape := func(s string) string {
		return strings.Map(func(r rune) rune {
			if r >= '0' && r <= '9' {
				return '0'
			}
			return r
		}, s)
	}
	whole := func(w int, name string, v any, n int64) {
		for _, l := range langs {
			c.caseW(w, func() string { return fmt.Sprintf("%s: %s(%d)", l.name, name, n) }, func() string {
				for _, x := range []struct {
					f    string
					got  string
					want []string
				}{
					{"Intcomma", l.h.Intcomma(v), l.intcomma(float64(n))}, {"Ordinal", l.h.Ordinal(v), l.ordinal(n)},
					{"Apnumber", l.h.Apnumber(v), l.apnumber(n)}, {"FilesizeFormat", l.h.FilesizeFormat(v), l.filesize(n)}, {"Intword", l.h.Intword(v), l.intword(float64(n))},
				} {
					if r := among(x.f, x.got, x.want); r != "" {
						return r
					}
					if n&7 == 0 || n > 1<<20 {
						c.Distinct(x.f + shape(x.got))
					}
				}
				return ""
			})
		}
	}
	// a window of whole numbers
	lo, hi := -c.Pick(30000, 300000), c.Pick(1100000, 6000000)
	const chunk = 2000
	c.Par((hi-lo+chunk-1)/chunk, func(w, i int) {
		for n := lo + i*chunk; n < lo+(i+1)*chunk && n < hi; n++ {
			if c.Expired() {
				return
			}
			whole(w, "int", n, int64(n))
		}
	})
	// neighbourhoods
	const top = int64(1) << 53
	var centers []int64
	for p := int64(10); p <= 1e15; p *= 10 {
		for m := int64(1); m <= 99; m++ {
			if m*p <= top && (m < 20 || m%10 == 0 || m == 25 || m == 99) {
				centers = append(centers, m*p)
			}
		}
	}
	for k := 1; k <= 53; k++ {
		for m := int64(1); m <= 31; m += 2 {
			if x := m << k; x>>k == m && x <= top && x > 0 {
				centers = append(centers, x)
			}
		}
	}
	// where rounding to one decimal changes
	for _, e := range []int64{1e6, 1e9, 1e12, 1e15} {
		for t := int64(10); t <= 10000; t++ {
			if t > 130 && t < 9870 && t%37 != 0 {
				continue
			}
			if x := e / 10 * t; x+e/20 < top {
				centers = append(centers, x, x+e/20)
			}
		}
	}
	for _, e := range []int{10, 20, 30, 40, 50} {
		for t := int64(10); t <= 10240; t++ {
			if t > 130 && t < 10110 && t%37 != 0 {
				continue
			}
			if x := t << e / 10; x < top && x > 0 && x>>e < 1100 {
				centers = append(centers, x, x+(1<<e)/20)
			}
		}
	}
	radius := int64(c.Pick(4, 60))
	c.Note("centers", len(centers))
	c.Par(len(centers), func(w, i int) {
		if c.Expired() {
			return
		}
		for d := -radius; d <= radius; d++ {
			n := centers[i] + d
			if n > top || n < 0 {
				continue
			}
			whole(w, "int64", n, n)
			whole(w, "int64", -n, -n)
		}
	})
	// representations
	var reps []int64
	for n := int64(-130); n <= 1130; n++ {
		reps = append(reps, n)
	}
	for i, x := range centers {
		if i%29 == 0 {
			reps = append(reps, x, -x, x-1, x+1)
		}
	}
	reps = append(reps, math.MaxInt8, math.MinInt8, math.MaxUint8, math.MaxInt16, math.MinInt16, math.MaxUint16, math.MaxInt32, math.MinInt32, math.MaxUint32, top, -top, top-1)
	c.Par(len(reps), func(w, i int) {
		n := reps[i]
		if n > top || n < -top {
			return
		}
		for _, r := range intReps(n) {
			whole(w, r.name, r.v, n)
		}
		whole(w, "complex128", complex(float64(n), 3), n)
		whole(w, "complex64", complex(float32(n%100000), 3), n%100000)
		if n >= 0 {
			whole(w, "uint64", uint64(n), n)
			whole(w, "uintptr", uintptr(n), n)
			whole(w, "string", "+"+strconv.FormatInt(n, 10), n)
			whole(w, "string", "00"+strconv.FormatInt(n, 10)+".000", n)
		}
		if n >= 0 && n < 3000 {
			for _, l := range langs {
				c.caseW(w, func() string { return fmt.Sprintf("%s: %d bytes", l.name, n) }, func() string {
					return among("FilesizeFormat of a byte slice", l.h.FilesizeFormat(make([]byte, n)), l.filesize(n))
				})
			}
		}
	})
	// fractions
	type fr struct {
		num, den int64
	}
	var frs []fr
	for _, den := range []int64{2, 3, 7, 8, 10, 64, 100, 1000, 1000000, 1 << 20, 10000000, 100000000} {
		for n := int64(1); n <= int64(c.Pick(1500, 20000)); n++ {
			frs = append(frs, fr{n, den}, fr{n*997 + 1000*den, den}, fr{n + 999999*den, den})
		}
		for n := int64(-600); n <= 600; n++ {
			for _, m := range []int64{1, 10, 1000, 1000000} {
				if n+m*den > 0 {
					frs = append(frs, fr{n + m*den, den})
				}
			}
		}
	}
	c.Par((len(frs)+499)/500, func(w, i int) {
		for _, x := range frs[i*500 : min((i+1)*500, len(frs))] {
			if c.Expired() {
				return
			}
			for _, v := range []float64{float64(x.num) / float64(x.den), -float64(x.num) / float64(x.den)} {
				for _, l := range langs {
					c.caseW(w, func() string { return fmt.Sprintf("%s: %v", l.name, v) }, func() string {
						if r := among("Intcomma", l.h.Intcomma(v), l.intcomma(v)); r != "" {
							return r
						}
						if r := among("Intcomma of its text", l.h.Intcomma(strconv.FormatFloat(v, 'g', -1, 64)), l.intcomma(v)); r != "" {
							return r
						}
						if r := among("Intcomma of a pointer", l.h.Intcomma(&v), l.intcomma(v)); r != "" {
							return r
						}
						if r := among("Intcomma of a float32", l.h.Intcomma(float32(v)), l.intcomma(float64(float32(v)))); r != "" {
							return r
						}
						if r := among("Intword", l.h.Intword(v), l.intword(v)); r != "" {
							return r
						}
						// these count whole things: the decimals are dropped
						n := int64(v)
						if r := among("Apnumber", l.h.Apnumber(v), l.apnumber(n)); r != "" {
							return r
						}
						if r := among("FilesizeFormat", l.h.FilesizeFormat(v), l.filesize(n)); r != "" {
							return r
						}
						if v <= -1 || v >= 0 {
							if r := among("Ordinal", l.h.Ordinal(v), l.ordinal(n)); r != "" {
								return r
							}
						}
						return among("Intword of millions", l.h.Intword(v*1e6), l.intword(v*1e6))
					})
				}
			}
		}
	})
	runBig21(c, langs)
	// no numbers
	for _, b := range badNumbers() {
		for _, l := range langs {
			c.Case(func() string { return l.name + ": no number: " + b.name }, func() string {
				for f, got := range map[string]string{"Intcomma": l.h.Intcomma(b.v), "Ordinal": l.h.Ordinal(b.v), "Apnumber": l.h.Apnumber(b.v), "FilesizeFormat": l.h.FilesizeFormat(b.v), "Intword": l.h.Intword(b.v)} {
					if got != b.text {
						return diff(f, got, b.text)
					}
				}
				return ""
			})
		}
	}
}
