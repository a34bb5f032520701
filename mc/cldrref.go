package main

// Independent reader and evaluator of CLDR plural rules (UTS #35), with exact decimal arithmetic.

import (
	_ "embed"
	"fmt"
	"strconv"
	"strings"

	"github.com/vorlif/spreak/catalog/cldrplural"
)

//go:embed cldr.txt
var cldrTxt string

// dec is a non-negative decimal number as written: integer part and visible fraction digits.
type dec struct {
	i     int64
	frac  string
	c     int64
	shift bool
}

func (d dec) String() string {
	s := strconv.FormatInt(d.i, 10)
	if d.frac != "" {
		s += "." + d.frac
	}
	return s
}

func atoi(s string) int64 {
	var v int64
	for _, ch := range s {
		v = v*10 + int64(ch-'0')
	}
	return v
}

type cldrRange struct{ from, to int64 }

type cldrRel struct {
	op   byte
	mod  int64 // 0: none
	neg  bool
	list []cldrRange
}

type cldrRule [][]cldrRel // or of ands; nil: no condition

// operand value: integer part and whether there is a fraction.
func (r cldrRel) holds(d dec) bool {
	var v int64
	frac := false
	t := strings.TrimRight(d.frac, "0")
	switch r.op {
	case 'n':
		v, frac = d.i, t != ""
	case 'i':
		v = d.i
	case 'v':
		v = int64(len(d.frac))
	case 'w':
		v = int64(len(t))
	case 'f':
		v = atoi(d.frac)
	case 't':
		v = atoi(t)
	case 'c', 'e':
		v = d.c
	}
	if r.mod != 0 {
		v %= r.mod
	}
	in := false
	if !frac {
		for _, x := range r.list {
			in = in || x.from <= v && v <= x.to
		}
	}
	return in != r.neg
}

func (r cldrRule) holds(d dec) bool {
	if r == nil {
		return true
	}
	for _, and := range r {
		ok := true
		for _, rel := range and {
			ok = ok && rel.holds(d)
		}
		if ok {
			return true
		}
	}
	return false
}

// parseCLDR reads a rule text without samples.
func parseCLDR(s string) (cldrRule, error) {
	var rule cldrRule
	for _, or := range strings.Split(s, " or ") {
		var and []cldrRel
		for _, rs := range strings.Split(or, " and ") {
			rel, err := parseRel(strings.TrimSpace(rs))
			if err != nil {
				return nil, err
			}
			and = append(and, rel)
		}
		rule = append(rule, and)
	}
	return rule, nil
}

func parseRel(s string) (r cldrRel, err error) {
	eq := strings.Index(s, "=")
	if eq < 1 {
		return r, fmt.Errorf("relation %q", s)
	}
	left, right := s[:eq], s[eq+1:]
	if strings.HasSuffix(left, "!") {
		r.neg = true
		left = left[:len(left)-1]
	}
	f := strings.Fields(left)
	if len(f) != 1 && !(len(f) == 3 && (f[1] == "%" || f[1] == "mod")) || len(f[0]) != 1 || !strings.Contains("nivwftce", f[0]) {
		return r, fmt.Errorf("relation %q", s)
	}
	r.op = f[0][0]
	num := func(x string) int64 {
		if x == "" || strings.Trim(x, "0123456789") != "" {
			err = fmt.Errorf("number %q", x)
			return 0
		}
		return atoi(x)
	}
	if len(f) == 3 {
		if r.mod = num(f[2]); r.mod == 0 {
			err = fmt.Errorf("modulus 0")
		}
	}
	for _, item := range strings.Split(right, ",") {
		item = strings.TrimSpace(item)
		if a, b, ok := strings.Cut(item, ".."); ok {
			r.list = append(r.list, cldrRange{num(strings.TrimSpace(a)), num(strings.TrimSpace(b))})
		} else {
			v := num(item)
			r.list = append(r.list, cldrRange{v, v})
		}
	}
	return r, err
}

type cldrLang struct {
	names []string
	cats  []cldrplural.Category
	rules []cldrRule
	raw   map[cldrplural.Category]string
}

func (l *cldrLang) category(d dec) cldrplural.Category {
	for k, r := range l.rules {
		if r.holds(d) {
			return l.cats[k]
		}
	}
	return cldrplural.Other
}

var catByName = map[string]cldrplural.Category{"Zero": cldrplural.Zero, "One": cldrplural.One, "Two": cldrplural.Two, "Few": cldrplural.Few, "Many": cldrplural.Many, "Other": cldrplural.Other}

func cldrLangs() []*cldrLang {
	var out []*cldrLang
	for _, l := range strings.Split(strings.TrimSpace(cldrTxt), "\n") {
		head, rest, _ := strings.Cut(l, " ")
		if head == "L" {
			out = append(out, &cldrLang{names: strings.Fields(rest), raw: map[cldrplural.Category]string{}})
			continue
		}
		r, err := parseCLDR(rest)
		if err != nil {
			panic(err)
		}
		g := out[len(out)-1]
		g.cats = append(g.cats, catByName[head])
		g.rules = append(g.rules, r)
		g.raw[catByName[head]] = rest
	}
	return out
}

// decimals lists all fraction digit strings of up to k digits.
func fractions(k int) []string {
	out := []string{""}
	last := []string{""}
	for d := 0; d < k; d++ {
		var next []string
		for _, p := range last {
			for ch := '0'; ch <= '9'; ch++ {
				next = append(next, p+string(ch))
			}
		}
		out = append(out, next...)
		last = next
	}
	return out
}
