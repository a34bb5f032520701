package main

import (
	"fmt"
	"strings"
	"unicode/utf8"

	"github.com/vorlif/spreak/catalog/po"
)

func init() {
	register(&Check{ID: "C05", Level: "exploration",
		Rule: "every string over a 15-letter alphabet (space, letters, quote, backslash, control characters, multi-byte and no-break runes) up to the length bound x every wrap width; every Unicode scalar value alone and between letters; every byte string over a decoder alphabet up to the bound. Non-trivial: the text needs escaping, wraps, or has more than one line.",
		Run:  runC05})
}

// refUnquote reads one quoted PO line the way C string literals are read (two-digit hex).
func refUnquote(line string) (string, error) {
	if len(line) < 2 || line[0] != '"' || line[len(line)-1] != '"' {
		return "", fmt.Errorf("not a quoted line: %q", line)
	}
	in := line[1 : len(line)-1]
	var b strings.Builder
	for i := 0; i < len(in); i++ {
		ch := in[i]
		if ch < 0x20 {
			return "", fmt.Errorf("raw control character %#x", ch)
		}
		if ch == '"' {
			return "", fmt.Errorf("unescaped quote in %q", line)
		}
		if ch != '\\' {
			b.WriteByte(ch)
			continue
		}
		i++
		if i >= len(in) {
			return "", fmt.Errorf("backslash escapes the closing quote in %q", line)
		}
		switch in[i] {
		case 'n':
			b.WriteByte('\n')
		case 't':
			b.WriteByte('\t')
		case 'r':
			b.WriteByte('\r')
		case 'a':
			b.WriteByte('\a')
		case 'b':
			b.WriteByte('\b')
		case 'f':
			b.WriteByte('\f')
		case 'v':
			b.WriteByte('\v')
		case '\\', '"':
			b.WriteByte(in[i])
		default:
			// numeric escape: left to the decoder under test
			return "", errNumeric
		}
	}
	return b.String(), nil
}

var errNumeric = fmt.Errorf("numeric escape")

func quoteRoundTrip(s string, w int) string {
	enc := po.EncodePoString(s, w)
	if got := po.DecodePoString(enc); got != s {
		return fmt.Sprintf("text %q width %d is written as %q and read back as %q", s, w, enc, got)
	}
	var sum strings.Builder
	numeric := false
	for _, l := range strings.Split(enc, "\n") {
		part, err := refUnquote(l)
		if err == errNumeric {
			numeric = true
			continue
		}
		if err != nil {
			return fmt.Sprintf("text %q width %d is written as %q: %v", s, w, enc, err)
		}
		sum.WriteString(part)
	}
	if !numeric && sum.String() != s {
		return fmt.Sprintf("text %q width %d is written as %q, which denotes %q", s, w, enc, sum.String())
	}
	return ""
}

func runC05(c *C) {
	alpha := []string{"a", " ", "\"", "\\", "\n", "n", "\t", "\r", "é", "世", "\u00a0", "\x01", "x", "0", "\u2028"}
	maxLen := c.Pick(5, 6)
	maxW := c.Pick(9, 10)
	for L := 0; L <= maxLen; L++ {
		dims := make([]int, L)
		for i := range dims {
			dims[i] = len(alpha)
		}
		total := size(dims)
		const chunk = 2048
		c.Par((total+chunk-1)/chunk, func(w, ci int) {
			for i := ci * chunk; i < min(total, (ci+1)*chunk); i++ {
				var sb strings.Builder
				for _, k := range tuple(i, dims) {
					sb.WriteString(alpha[k])
				}
				s := sb.String()
				ws := maxW
				if L == 6 {
					ws = 5
				}
				for wd := -1; wd <= ws; wd++ {
					c.caseW(w, func() string { return fmt.Sprintf("quote %q width %d", s, wd) }, func() string { return quoteRoundTrip(s, wd) })
				}
				if L <= 4 {
					c.Distinct(s)
					protect(func() string { c.Outcome(po.EncodePoString(s, 3)); return "" })
				}
			}
		})
	}
	// every Unicode scalar value
	const chunk = 4096
	c.Par((0x110000+chunk-1)/chunk, func(w, ci int) {
		for r := rune(ci * chunk); r < rune((ci+1)*chunk); r++ {
			if !utf8.ValidRune(r) {
				continue
			}
			for _, s := range []string{string(r), "a" + string(r) + "b", "f " + string(r) + "f 1"} {
				for _, wd := range []int{-1, 2, 80} {
					c.caseW(w, func() string { return fmt.Sprintf("quote %q width %d", s, wd) }, func() string { return quoteRoundTrip(s, wd) })
				}
			}
		}
	})
	// realistic widths: sequences of words of lengths around the width
	words := []int{0, 1, 2, 7, 38, 39, 40, 41, 76, 77, 78, 79, 80, 81, 82, 200}
	seps := []string{" ", "  ", "\n", " \n", "\t", "\u00a0", ", "}
	dims := []int{len(words), len(seps), len(words), len(seps), len(words)}
	c.Par(len(words)*len(seps), func(w, i0 int) {
		for j := 0; j < size(dims[2:]); j++ {
			ix := append(tuple(i0, dims[:2]), tuple(j, dims[2:])...)
			for _, letter := range []string{"w", "ä", "\""} {
				s := strings.Repeat(letter, words[ix[0]]) + seps[ix[1]] + strings.Repeat("v", words[ix[2]]) + seps[ix[3]] + strings.Repeat(letter, words[ix[4]])
				for _, wd := range []int{1, 20, 40, 77, 78, 79, 80, 120} {
					c.caseW(w, func() string { return fmt.Sprintf("quote %q width %d", s, wd) }, func() string { return quoteRoundTrip(s, wd) })
				}
			}
		}
	})
	// long texts: lengths around powers of two
	var lens []int
	for k := 5; k <= 17; k++ {
		lens = append(lens, 1<<k-1, 1<<k, 1<<k+1)
	}
	c.Par(len(lens), func(w, i int) {
		for _, unit := range []string{"a", "é", "\"", "\n", "a ", "\\", "\t", "\x02", "ab\n"} {
			s := strings.Repeat(unit, lens[i]/len(unit)+1)
			for _, wd := range []int{-1, 80} {
				c.caseW(w, func() string { return fmt.Sprintf("quote repeat %q x %d width %d", unit, lens[i], wd) }, func() string { return quoteRoundTrip(s, wd) })
			}
		}
	})
	// unquoting arbitrary bytes terminates and does not panic
	bytesAlpha := []string{"\"", "\\", "a", "n", "x", "0", "7", "\x80", "\xff", "\xc3", "\n", " ", "\x01", "u"}
	maxB := c.Pick(5, 6)
	for L := 0; L <= maxB; L++ {
		dims := make([]int, L)
		for i := range dims {
			dims[i] = len(bytesAlpha)
		}
		total := size(dims)
		c.Par((total+chunk-1)/chunk, func(w, ci int) {
			for i := ci * chunk; i < min(total, (ci+1)*chunk); i++ {
				var sb strings.Builder
				for _, k := range tuple(i, dims) {
					sb.WriteString(bytesAlpha[k])
				}
				s := sb.String()
				for _, in := range []string{s, "\"" + s + "\""} {
					c.caseW(w, func() string { return fmt.Sprintf("unquote %q", in) }, func() string {
						out := po.DecodePoString(in)
						if len(out) > 4*len(in)+8 {
							return fmt.Sprintf("unquoting %q gives %d bytes", in, len(out))
						}
						return ""
					})
				}
				if L > 4 {
					continue
				}
				// quoting bytes that are no text terminates, with complete lines
				for _, wd := range []int{-1, 2, 80} {
					c.caseW(w, func() string { return fmt.Sprintf("quote bytes %q width %d", s, wd) }, func() string {
						enc := po.EncodePoString(s, wd)
						for _, l := range strings.Split(enc, "\n") {
							if _, err := refUnquote(l); err != nil && err != errNumeric {
								return fmt.Sprintf("bytes %q width %d are written as %q: %v", s, wd, enc, err)
							}
						}
						po.DecodePoString(enc)
						return ""
					})
				}
			}
		})
	}
	c.Note("max_string_length", maxLen)
	c.Note("widths", fmt.Sprintf("-1..%d and 20..120", maxW))
}
