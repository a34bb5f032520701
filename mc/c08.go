package main

import (
	"bytes"
	"encoding/binary"
	"fmt"
	"io"
	"maps"
	"runtime"
	"slices"
	"sort"
	"strings"

	"golang.org/x/text/language"

	"github.com/vorlif/spreak/catalog"
)

func init() {
	register(&Check{ID: "C08", Level: "exploration",
		Rule: "(a) every subset of a set of records (header, contexts, plurals, empty, multi-line and multi-byte texts) x every layout (byte order, table order, strings before tables, padding, hash table, string placement, unsorted records, shared strings, revision), written by an independent writer, x decoder kind; (b) PO text and the MO compiled from it, all lookups compared; (c) every truncation, every word replaced by every small and every extreme value, every byte flipped, of a set of images, judged by an independent reader; allocations measured; (d) chunked readers, size boundaries. Non-trivial: an image with at least one entry or a corrupted image.",
		Run:  runC08})
}

type rec8 struct {
	ctx, id, plural string
	hasCtx          bool
	str             []string
	fuzzy           bool
}

func (r rec8) mo() moMsg {
	id := r.id
	if r.hasCtx {
		id = r.ctx + "\x04" + id
	}
	if r.plural != "" {
		id += "\x00" + r.plural
	}
	return moMsg{id, strings.Join(r.str, "\x00")}
}

func (r rec8) po() string {
	var b strings.Builder
	if r.fuzzy {
		b.WriteString("#, fuzzy\n")
	}
	if r.hasCtx {
		b.WriteString(poSpell("msgctxt", r.ctx, 0, "\n"))
	}
	b.WriteString(poSpell("msgid", r.id, 0, "\n"))
	if r.plural == "" {
		b.WriteString(poSpell("msgstr", r.str[0], 2, "\n"))
	} else {
		b.WriteString(poSpell("msgid_plural", r.plural, 0, "\n"))
		for k, s := range r.str {
			b.WriteString(poSpell(fmt.Sprintf("msgstr[%d]", k), s, 0, "\n"))
		}
	}
	return b.String() + "\n"
}

// header texts and the form each selects for a count
var heads8 = []struct {
	text string
	form func(n int) int
}{
	{"", func(n int) int { return b2i(n != 1) }}, // no header: the language's (English) rule
	{"Project-Id-Version: x\nLanguage: en\n", func(n int) int { return b2i(n != 1) }},
	{"Language: en\nPlural-Forms: nplurals=2; plural=n > 1;\nX-Other: a: b\n", func(n int) int { return b2i(n > 1) }},
	{"Plural-Forms: nplurals=3; plural=n == 0 ? 2 : n == 2 ? 1 : 0;", func(n int) int {
		switch n {
		case 0:
			return 2
		case 2:
			return 1
		}
		return 0
	}},
	{"plural-forms:nplurals=1; plural=0;\nX-spreak-use-CLDR: false\n", func(n int) int { return 0 }},
	{"Plural-Forms: nplurals=1; plural=0;\nX-spreak-use-CLDR: true\n", func(n int) int { return b2i(n != 1) }},
}

func b2i(b bool) int {
	if b {
		return 1
	}
	return 0
}

var recs8 = []rec8{
	{id: "a", str: []string{"A"}},
	{id: "a", ctx: "ctx", hasCtx: true, str: []string{"A in ctx"}},
	{id: "b", plural: "bs", str: []string{"B0", "B1", "B2"}},
	{id: "b", ctx: "ctx", hasCtx: true, plural: "bs", str: []string{"C0", "", "C2"}},
	{id: "long\nline é 日本", str: []string{"x\n\"y\"\t\\ 日本語\n"}},
	{id: "e", ctx: "", hasCtx: true, str: []string{"A"}},
	{id: "one", plural: "one", str: []string{"only"}},
	// a separator of its own only where a context ends
	{id: "Z\x04z", ctx: "c tx é", hasCtx: true, str: []string{strings.Repeat("zz ", 30) + "\x04"}},
}

type look8 struct {
	ctx, id string
	n       int // -1: singular lookup
}

func looks8() []look8 {
	var out []look8
	seen := map[string]bool{}
	for _, r := range append([]rec8{{id: ""}, {id: "missing"}, {ctx: "nope", hasCtx: true, id: "a"}, {id: "bs"}, {id: "ctx\x04a"}, {id: "b\x00bs"}}, recs8...) {
		if k := r.ctx + "|" + r.id; !seen[k] {
			seen[k] = true
			for n := -1; n < 4; n++ {
				out = append(out, look8{r.ctx, r.id, n})
			}
		}
	}
	return out
}

func ask8(cat catalog.Catalog, l look8) (string, error) {
	if l.n < 0 {
		return cat.Lookup(l.ctx, l.id)
	}
	return cat.LookupPlural(l.ctx, l.id, l.n)
}

// judge8 compares a catalog with the records it was made of.
func judge8(cat catalog.Catalog, recs []rec8, form func(int) int, looks []look8) string {
	for _, l := range looks {
		want := ""
		for _, r := range recs {
			if r.ctx == l.ctx && r.id == l.id && r.id != "" && !r.fuzzy {
				k := 0
				if l.n >= 0 {
					k = form(l.n)
				}
				if k < len(r.str) {
					want = r.str[k]
				}
			}
		}
		got, err := ask8(cat, l)
		if want == "" {
			if err == nil {
				return fmt.Sprintf("lookup %+q: %q, which is in no record", l, got)
			}
			if got != l.id {
				return fmt.Sprintf("lookup %+q: %q with error, want the id", l, got)
			}
		} else if err != nil || got != want {
			return fmt.Sprintf("lookup %+q: %q %v, want %q", l, got, err, want)
		}
	}
	if g, ok := cat.(*catalog.GettextCatalog); ok {
		n := 0
		for _, ms := range g.Messages() {
			n += len(ms)
		}
		if n != len(recs) {
			return fmt.Sprintf("%d catalog entries, %d records", n, len(recs))
		}
	}
	return ""
}

func layouts8() []moLayout {
	var out []moLayout
	product([]int{2, 2, 2, 3, 2, 2, 2, 2, 2, 2}, func(t []int) {
		out = append(out, moLayout{big: t[0] == 1, strFirst: t[1] == 1, dataFirst: t[2] == 1, pad: []int{0, 1, 5}[t[3]], hash: 3 * t[4], interleave: t[5] == 1,
			reverse: t[6] == 1, unsorted: t[7] == 1, share: t[8] == 1, minor: uint16(t[9])})
	})
	return out
}

func runC08(c *C) {
	looks := looks8()
	lays := layouts8()
	// (a)
	step := c.Pick(3, 1)
	c.Par(1<<len(recs8), func(w, mask int) {
		var recs []rec8
		for k, r := range recs8 {
			if mask>>k&1 == 1 {
				recs = append(recs, r)
			}
		}
		for h := range heads8 {
			for li := (mask*31 + h*17) % step; li < len(lays); li += step {
				lay := lays[li]
				key := func() string { return fmt.Sprintf("records %08b header %d layout %+v", mask, h, lay) }
				c.caseW(w, key, func() string {
					var ms []moMsg
					for _, r := range recs {
						ms = append(ms, r.mo())
					}
					if t := heads8[h].text; t != "" {
						ms = append(ms, moMsg{"", t})
					}
					img := moBytes(ms, lay)
					cat, err := catalog.NewMoDecoder().Decode(language.English, "d", img)
					if err != nil {
						return "not readable: " + err.Error()
					}
					if li == (mask*31+h*17)%step {
						c.Distinct(string(img))
					}
					return judge8(cat, recs, heads8[h].form, looks)
				})
			}
		}
	})
	c08Equal(c, looks)
	c08Corrupt(c)
	c08Memory(c)
	c08Sizes(c)
}

// (b) a PO file and the MO file compiled from it
func c08Equal(c *C, looks []look8) {
	pool := append(slices.Clone(recs8), rec8{id: "f", str: []string{"fuzzy"}, fuzzy: true}, rec8{id: "u", str: []string{""}}, rec8{id: "uu", plural: "uus", str: []string{"", ""}}, rec8{id: "b", ctx: "fz", hasCtx: true, plural: "bs", str: []string{"x", "y"}, fuzzy: true})
	for _, r := range []rec8{{id: "f"}, {id: "u"}, {id: "uu"}, {id: "b", ctx: "fz"}} {
		for n := -1; n < 3; n++ {
			looks = append(looks, look8{r.ctx, r.id, n})
		}
	}
	for n := 4; n < 25; n++ {
		looks = append(looks, look8{"", "b", n}, look8{"ctx", "b", n})
	}
	langs := []language.Tag{language.English, language.Polish, language.Arabic, language.Japanese, language.MustParse("tlh"), language.French, language.Und}
	decs := []func() (catalog.Decoder, catalog.Decoder){
		func() (catalog.Decoder, catalog.Decoder) { return catalog.NewPoDecoder(), catalog.NewMoDecoder() },
		func() (catalog.Decoder, catalog.Decoder) {
			return catalog.NewPoCLDRDecoder(), catalog.NewMoCLDRDecoder()
		},
	}
	step := c.Pick(3, 1)
	c.Par(1<<len(pool), func(w, mask int) {
		for h := mask % step; h < len(heads8); h += step {
			lang := langs[(mask+h)%len(langs)]
			c.caseW(w, func() string { return fmt.Sprintf("PO and MO of records %012b header %d %v", mask, h, lang) }, func() string {
				var text strings.Builder
				var ms []moMsg
				if t := heads8[h].text; t != "" {
					text.WriteString(poSpell("msgid", "", 0, "\n") + poSpell("msgstr", t, 0, "\n") + "\n")
					ms = append(ms, moMsg{"", t})
				}
				for k, r := range pool {
					if mask>>k&1 == 0 {
						continue
					}
					text.WriteString(r.po())
					if !r.fuzzy && strings.Join(r.str, "") != "" {
						ms = append(ms, r.mo())
					}
				}
				if text.Len() == 0 {
					return ""
				}
				img := moBytes(ms, moLayout{big: mask%2 == 1, hash: mask % 3 * 3})
				for _, d := range decs {
					dp, dm := d()
					a, err1 := dp.Decode(lang, "d", []byte(text.String()))
					b, err2 := dm.Decode(lang, "d", img)
					if (err1 == nil) != (err2 == nil) {
						return fmt.Sprintf("PO: %v, MO: %v", err1, err2)
					}
					if err1 != nil {
						return "not readable: " + err1.Error()
					}
					if a.Language() != b.Language() || a.(*catalog.GettextCatalog).Domain() != b.(*catalog.GettextCatalog).Domain() {
						return "language or domain differ"
					}
					for _, l := range looks {
						x, e1 := ask8(a, l)
						y, e2 := ask8(b, l)
						if x != y || (e1 == nil) != (e2 == nil) {
							return fmt.Sprintf("lookup %+q: PO %q %v, MO %q %v", l, x, e1, y, e2)
						}
					}
				}
				return ""
			})
		}
	})
}

// ref8 is an independent reading of an image. bad: must be an error. odd: well placed, but not a well-formed catalog.
func ref8(b []byte) (entries map[[2]string]map[int]string, header string, bad, odd bool) {
	if len(b) < 28 {
		return nil, "", true, false
	}
	var bo binary.ByteOrder
	switch {
	case binary.LittleEndian.Uint32(b) == 0x950412de:
		bo = binary.LittleEndian
	case binary.BigEndian.Uint32(b) == 0x950412de:
		bo = binary.BigEndian
	default:
		return nil, "", true, false
	}
	u := func(at int64) int64 { return int64(bo.Uint32(b[at:])) }
	if u(4)>>16 > 1 {
		return nil, "", true, false
	}
	if u(4)&0xffff > 1 {
		odd = true // a newer revision: reading it or refusing it is fine
	}
	n, ids, strs := u(8), u(12), u(16)
	size := int64(len(b))
	if n > 0 && (ids+8*n > size || strs+8*n > size) {
		return nil, "", true, false
	}
	if ids > size || strs > size || u(20) > size/4 || u(24)+4*u(20) > size {
		odd = true
	}
	entries = map[[2]string]map[int]string{}
	get := func(at int64) (string, bool) {
		l, o := u(at), u(at+4)
		if l == 0 {
			if o > size {
				odd = true
			}
			return "", true
		}
		if o+l > size {
			return "", false
		}
		return string(b[o : o+l]), true
	}
	for k := int64(0); k < n; k++ {
		id, ok1 := get(ids + 8*k)
		str, ok2 := get(strs + 8*k)
		if !ok1 || !ok2 {
			return nil, "", true, false
		}
		if id == "" {
			if header != "" {
				odd = true
			}
			header = str
			continue
		}
		ctx, rest, has := strings.Cut(id, "\x04")
		if !has {
			ctx, rest = "", id
		}
		sing, _, plural := strings.Cut(rest, "\x00")
		key := [2]string{ctx, sing}
		if _, dup := entries[key]; dup || sing == "" || strings.Count(id, "\x04") > 1 || strings.Count(id, "\x00") > 1 || strings.Contains(ctx, "\x00") || !plural && strings.Contains(str, "\x00") {
			odd = true
			continue
		}
		m := map[int]string{0: str}
		if plural {
			for i, s := range strings.Split(str, "\x00") {
				m[i] = s
			}
		}
		entries[key] = m
	}
	return entries, header, false, odd
}

func corrupt8(img []byte) string {
	want, header, bad, odd := ref8(img)
	cat, err := catalog.NewMoDecoder().Decode(language.English, "d", img)
	if err != nil {
		if !bad && !odd && !strings.Contains(header, "lural") && !strings.Contains(strings.ToLower(header), "plural-forms") {
			return fmt.Sprintf("well formed, but: %v", err)
		}
		if cat != nil {
			return "error and catalog"
		}
		return ""
	}
	if bad {
		return "accepted, although it lies outside the file or is no MO file"
	}
	g, ok := cat.(*catalog.GettextCatalog)
	if !ok {
		return ""
	}
	n := 0
	for ctx, ms := range g.Messages() {
		for id, m := range ms {
			n++
			tr := m.Translations()
			if odd {
				for _, s := range tr {
					if !bytes.Contains(img, []byte(s)) {
						return fmt.Sprintf("made-up text %q", s)
					}
				}
				continue
			}
			if w, ok := want[[2]string{ctx, id}]; !ok || !maps.Equal(w, tr) {
				return fmt.Sprintf("entry %q/%q: %q, want %q", ctx, id, tr, w)
			}
		}
	}
	if !odd && n != len(want) {
		return fmt.Sprintf("%d entries, want %d", n, len(want))
	}
	return ""
}

func images8(c *C) (names []string, imgs [][]byte) {
	sets := [][]rec8{nil, recs8[:1], recs8[:3], {recs8[3], recs8[5]}, recs8[:6]}
	for s, set := range sets {
		for h := 0; h < 3; h += 2 {
			for l, lay := range []moLayout{{}, {big: true, dataFirst: true, pad: 1}, {strFirst: true, interleave: true, hash: 2, share: true}, {big: true, reverse: true, unsorted: true, pad: 5}} {
				if c.Quick() && (s+h+l)%2 == 1 && s > 0 {
					continue
				}
				var ms []moMsg
				for _, r := range set {
					ms = append(ms, r.mo())
				}
				if t := heads8[h].text; t != "" {
					ms = append(ms, moMsg{"", t})
				}
				names = append(names, fmt.Sprintf("image %d/%d/%d", s, h, l))
				imgs = append(imgs, moBytes(ms, lay))
			}
		}
	}
	return
}

// values8 are the values a word is replaced by.
func values8(size int) []uint32 {
	var vs []uint32
	for v := 0; v <= size+9; v++ {
		vs = append(vs, uint32(v))
	}
	for _, v := range []uint32{0x7ffffffc, 0x7fffffff, 0x80000000, 0x80000001, 0xfffffff0, 0xfffffff8, 0xfffffffc, 0xfffffffe, 0xffffffff, 0x10000, 0x10001, 0x20000, 0x20001, 0x1000000, 0x20000000, 0x1fffffff, 0x950412de, 0xde120495, 0x40000000, 0xffffffff - uint32(size), 0 - uint32(size), 1<<16 + uint32(size)} {
		vs = append(vs, v)
	}
	return vs
}

// (c)
func c08Corrupt(c *C) {
	names, imgs := images8(c)
	type job struct{ img, at int }
	var jobs []job
	for k, b := range imgs {
		for at := 0; at < len(b); at++ {
			jobs = append(jobs, job{k, at})
		}
	}
	flips := []byte{1, 4, 0x80, 0xff}
	if c.Thorough() {
		flips = nil
		for v := 1; v < 256; v++ {
			flips = append(flips, byte(v))
		}
	}
	c.Par(len(jobs), func(w, i int) {
		j := jobs[i]
		b := imgs[j.img]
		c.caseW(w, func() string { return fmt.Sprintf("%s cut to %d bytes", names[j.img], j.at) }, func() string {
			c.Distinct(fmt.Sprint("cut", i))
			return corrupt8(slices.Clone(b[:j.at]))
		})
		for _, f := range flips {
			c.caseW(w, func() string { return fmt.Sprintf("%s byte %d ^ %#x", names[j.img], j.at, f) }, func() string {
				x := slices.Clone(b)
				x[j.at] ^= f
				return corrupt8(x)
			})
		}
		if j.at%4 != 0 || j.at+4 > len(b) {
			return
		}
		var bo binary.ByteOrder = binary.LittleEndian
		if b[0] == 0x95 {
			bo = binary.BigEndian
		}
		for _, v := range values8(len(b)) {
			c.caseW(w, func() string { return fmt.Sprintf("%s word %d = %#x", names[j.img], j.at, v) }, func() string {
				x := slices.Clone(b)
				bo.PutUint32(x[j.at:], v)
				return corrupt8(x)
			})
		}
	})
	// two words of the file head at once
	head := []int{4, 8, 12, 16, 20, 24}
	vals := []uint32{0, 1, 2, 27, 28, 29, 36, 0x10000, 0x1fffffff, 0x20000000, 0x20000001, 0x7fffffff, 0x80000000, 0xfffffff8, 0xffffffff}
	c.Par(len(imgs)*len(head)*len(head), func(w, i int) {
		t := tuple(i, []int{len(imgs), len(head), len(head)})
		if t[1] >= t[2] {
			return
		}
		b := imgs[t[0]]
		var bo binary.ByteOrder = binary.LittleEndian
		if b[0] == 0x95 {
			bo = binary.BigEndian
		}
		for _, v1 := range append(vals, uint32(len(b)), uint32(len(b)-1), uint32(len(b)/8)) {
			for _, v2 := range append(vals, uint32(len(b)), uint32(len(b)-1), uint32(len(b)/8)) {
				c.caseW(w, func() string {
					return fmt.Sprintf("%s words %d = %#x, %d = %#x", names[t[0]], head[t[1]], v1, head[t[2]], v2)
				}, func() string {
					x := slices.Clone(b)
					bo.PutUint32(x[head[t[1]]:], v1)
					bo.PutUint32(x[head[t[2]]:], v2)
					return corrupt8(x)
				})
			}
		}
	})
}

// memory: allocations stay in proportion to the file
func c08Memory(c *C) {
	names, imgs := images8(c)
	for k, b := range imgs {
		if c.Expired() {
			return
		}
		for at := 8; at+4 <= len(b); at += 4 {
			var bo binary.ByteOrder = binary.LittleEndian
			if b[0] == 0x95 {
				bo = binary.BigEndian
			}
			for _, v := range []uint32{0x100000, 0x1000000, 0x8000000, 0x1fffffff, 0x7fffffff, 0xffffffff, uint32(len(b) / 8)} {
				c.Case(func() string { return fmt.Sprintf("memory: %s word %d = %#x", names[k], at, v) }, func() string {
					x := slices.Clone(b)
					bo.PutUint32(x[at:], v)
					var m0, m1 runtime.MemStats
					runtime.ReadMemStats(&m0)
					_, _ = catalog.NewMoDecoder().Decode(language.English, "d", x)
					runtime.ReadMemStats(&m1)
					if a := m1.TotalAlloc - m0.TotalAlloc; a > 1<<20+uint64(200*len(b)) {
						return fmt.Sprintf("%d bytes allocated for a file of %d bytes", a, len(b))
					}
					return ""
				})
			}
		}
	}
}

// chunk8 delivers its data in pieces of n bytes; end: how the end is announced.
type chunk8 struct {
	data []byte
	n    int
	end  int // 0 separate EOF, 1 with the last data
	pos  int
}

func (r *chunk8) Read(p []byte) (int, error) {
	if r.pos >= len(r.data) {
		return 0, io.EOF
	}
	k := copy(p[:min(len(p), r.n)], r.data[r.pos:])
	r.pos += k
	if r.end == 1 && r.pos >= len(r.data) {
		return k, io.EOF
	}
	return k, nil
}

// seek8 is the same with Seek.
type seek8 struct{ chunk8 }

func (r *seek8) Seek(off int64, whence int) (int64, error) {
	switch whence {
	case io.SeekCurrent:
		off += int64(r.pos)
	case io.SeekEnd:
		off += int64(len(r.data))
	}
	if off < 0 {
		return 0, fmt.Errorf("negative position")
	}
	r.pos = int(off)
	return off, nil
}

// (d)
func c08Sizes(c *C) {
	looks := looks8()
	for _, n := range []int{1, 2, 3, 4, 5, 7, 8, 16, 100, 1 << 20} {
		for end := 0; end < 2; end++ {
			for sk := 0; sk < 2; sk++ {
				for l, lay := range []moLayout{{}, {big: true, dataFirst: true, pad: 1, interleave: true}} {
					c.Case(func() string { return fmt.Sprintf("chunks of %d end %d seek %d layout %d", n, end, sk, l) }, func() string {
						var ms []moMsg
						for _, r := range recs8 {
							ms = append(ms, r.mo())
						}
						var r io.Reader = &chunk8{data: moBytes(append(ms, moMsg{"", heads8[3].text}), lay), n: n, end: end}
						if sk == 1 {
							r = &seek8{*r.(*chunk8)}
						}
						cat, err := catalog.NewMoDecoder().(catalog.DecoderV2).DecodeReader(language.English, "d", r)
						if err != nil {
							return err.Error()
						}
						return judge8(cat, recs8, heads8[3].form, looks)
					})
				}
			}
		}
	}
	for _, n := range []int{1, 2, 100, 255, 256, 257, 1000, 4096, 65536} {
		c.Case(func() string { return fmt.Sprintf("%d records", n) }, func() string {
			var recs []rec8
			var ms []moMsg
			var ls []look8
			for k := 0; k < n; k++ {
				r := rec8{id: fmt.Sprintf("id%d", k), str: []string{fmt.Sprintf("t%d", k)}}
				if k%3 == 1 {
					r.ctx, r.hasCtx = fmt.Sprintf("c%d", k%11), true
				}
				if k%4 == 2 {
					r.plural = "p"
					r.str = append(r.str, "more")
				}
				recs = append(recs, r)
				ms = append(ms, r.mo())
				if n < 300 || k%(n/50) == 0 {
					ls = append(ls, look8{r.ctx, r.id, -1}, look8{r.ctx, r.id, 1})
				}
			}
			cat, err := catalog.NewMoDecoder().Decode(language.English, "d", moBytes(ms, moLayout{big: n%2 == 1, hash: n}))
			if err != nil {
				return err.Error()
			}
			return judge8(cat, recs, func(n int) int { return b2i(n != 1) }, ls)
		})
	}
	for _, n := range []int{1, 4095, 4096, 4097, 65535, 65536, 65537, 1 << 20} {
		for _, lay := range []moLayout{{}, {big: true, dataFirst: true}} {
			c.Case(func() string { return fmt.Sprintf("texts of %d bytes layout %v", n, lay) }, func() string {
				v := strings.Repeat("é", n/2) + "x"
				recs := []rec8{{id: "i" + v, ctx: "c" + v, hasCtx: true, plural: "p" + v, str: []string{"s" + v, "t" + v}}, {id: "z", str: []string{"Z"}}}
				cat, err := catalog.NewMoDecoder().Decode(language.English, "d", moBytes([]moMsg{recs[0].mo(), recs[1].mo()}, lay))
				if err != nil {
					return err.Error()
				}
				return judge8(cat, recs, func(n int) int { return b2i(n != 1) }, []look8{{recs[0].ctx, recs[0].id, -1}, {recs[0].ctx, recs[0].id, 1}, {recs[0].ctx, recs[0].id, 2}, {"", "z", -1}})
			})
		}
	}
	// many plural forms
	for _, n := range []int{1, 2, 6, 50, 300} {
		c.Case(func() string { return fmt.Sprintf("%d plural forms", n) }, func() string {
			r := rec8{id: "a", plural: "as"}
			for k := 0; k < n; k++ {
				r.str = append(r.str, fmt.Sprintf("f%d", k))
			}
			head := fmt.Sprintf("Plural-Forms: nplurals=%d; plural=n %% %d;\n", n, n)
			cat, err := catalog.NewMoDecoder().Decode(language.English, "d", moBytes([]moMsg{r.mo(), {"", head}}, moLayout{}))
			if err != nil {
				return err.Error()
			}
			var ls []look8
			for k := 0; k < n+3; k++ {
				ls = append(ls, look8{"", "a", k})
			}
			sort.Slice(ls, func(i, j int) bool { return ls[i].n > ls[j].n })
			return judge8(cat, []rec8{r}, func(k int) int { return k % n }, ls)
		})
	}
}
