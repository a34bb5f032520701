package main

import (
	"bytes"
	"fmt"
	"maps"
	"slices"
	"sort"
	"strings"
	"time"

	"golang.org/x/text/language"

	"github.com/vorlif/spreak/catalog"
	"github.com/vorlif/spreak/catalog/po"
)

func init() {
	register(&Check{ID: "C06", Level: "exploration",
		Rule: "every file over the bounded space: (a) single entries with all pairs of fields over a list of difficult texts; (b) comment shapes: translator x extracted x references x flags, and previous context x previous text; (c) every header field over difficult values, with unknown fields; (d) every subset of a set of entries x header presence x sort function; each x wrap widths x encoder settings; (e) size boundaries. Each file is encoded, parsed, compared, encoded and parsed again. Non-trivial: the file has more than plain ASCII words or wraps.",
		Run:  runC06})
}

// e6 is the description of an entry; every run builds fresh messages from it.
type e6 struct {
	ctx, id, plural string
	str             map[int]string
	trans, extr     string
	flags           []string
	refs            []poRef
	noComment       bool
	prevCtx, prevID string
}

type f6 struct {
	entries                 []e6
	header                  map[string]string // nil: no header
	hcom                    *e6               // header comment
	sort                    int               // 0 default, 1 nil, 2 by id descending, 3 by length of id then id
	width                   int
	noHead, noEmpty, noRefs bool
}

var c06Sort = []func(a, b *po.Message) int{
	nil, nil,
	func(a, b *po.Message) int { return -strings.Compare(a.Context+"\x00"+a.ID, b.Context+"\x00"+b.ID) },
	func(a, b *po.Message) int {
		if len(a.ID) != len(b.ID) {
			return len(a.ID) - len(b.ID)
		}
		return strings.Compare(a.ID+"\x00"+a.Context, b.ID+"\x00"+b.Context)
	},
}

func (e *e6) comment() *po.Comment {
	cm := &po.Comment{Translator: e.trans, Extracted: e.extr, Flags: slices.Clone(e.flags), PrevMsgContext: e.prevCtx, PrevMsgID: e.prevID}
	for _, r := range e.refs {
		cm.References = append(cm.References, &po.Reference{Path: r.path, Line: r.line})
	}
	return cm
}

func (e *e6) build() *po.Message {
	m := &po.Message{Context: e.ctx, ID: e.id, IDPlural: e.plural, Str: maps.Clone(e.str)}
	if !e.noComment {
		m.Comment = e.comment()
	}
	return m
}

func (f *f6) build() *po.File {
	x := &po.File{Messages: po.Messages{}}
	if f.header != nil {
		x.Header = &po.Header{}
		for k, v := range f.header {
			x.Header.Set(k, v)
		}
		if f.hcom != nil {
			x.Header.Comment = f.hcom.comment()
		}
	}
	for i := range f.entries {
		m := f.entries[i].build()
		if x.Messages[m.Context] == nil {
			x.Messages[m.Context] = map[string]*po.Message{}
		}
		x.Messages[m.Context][m.ID] = m
	}
	return x
}

func (f *f6) encode(x *po.File) (string, error) {
	var b bytes.Buffer
	enc := po.NewEncoder(&b)
	enc.SetWrapWidth(f.width)
	if f.noHead {
		enc.SetWriteHeader(false)
	}
	if f.noEmpty {
		enc.SetWriteEmptyHeader(false)
	}
	if f.noRefs {
		enc.SetWriteReferences(false)
	}
	if f.sort > 0 {
		enc.SetSortFunction(c06Sort[f.sort])
	}
	err := enc.Encode(x)
	return b.String(), err
}

func (f *f6) String() string {
	return fmt.Sprintf("%+v header %v comment %v sort %d width %d noHeader %v noEmptyHeader %v noRefs %v", f.entries, f.header, f.hcom, f.sort, f.width, f.noHead, f.noEmpty, f.noRefs)
}

func sameWords(a, b string) bool { return slices.Equal(strings.Fields(a), strings.Fields(b)) }

func refList(rs []*po.Reference) []string {
	var out []string
	for _, r := range rs {
		out = append(out, fmt.Sprintf("%s:%d", r.Path, max(r.Line, 0)))
	}
	sort.Strings(out)
	return out
}

func sameForms(got, want map[int]string) bool {
	for k, v := range got {
		if want[k] != v {
			return false
		}
	}
	for k, v := range want {
		if got[k] != v {
			return false
		}
	}
	return true
}

func commentDiff(e *e6, noRefs bool, cm *po.Comment) string {
	if cm == nil {
		cm = &po.Comment{}
	}
	want := &e6{}
	if !e.noComment {
		want = e
	}
	if !sameWords(cm.Translator, want.trans) {
		return fmt.Sprintf("translator comment %q, want %q", cm.Translator, want.trans)
	}
	if !sameWords(cm.Extracted, want.extr) {
		return fmt.Sprintf("extracted comment %q, want %q", cm.Extracted, want.extr)
	}
	a, b := slices.Clone(cm.Flags), slices.Clone(want.flags)
	slices.Sort(a)
	slices.Sort(b)
	if !slices.Equal(a, b) {
		return fmt.Sprintf("flags %q, want %q", a, b)
	}
	if cm.PrevMsgContext != want.prevCtx || cm.PrevMsgID != want.prevID {
		return fmt.Sprintf("previous context and text %q, %q; want %q, %q", cm.PrevMsgContext, cm.PrevMsgID, want.prevCtx, want.prevID)
	}
	wr := refList(want.comment().References)
	if noRefs {
		wr = nil
	}
	if r := refList(cm.References); !slices.Equal(r, wr) {
		return fmt.Sprintf("references %q, want %q", r, wr)
	}
	return ""
}

func (f *f6) hasHeader() bool {
	if f.header == nil || f.noHead {
		return false
	}
	for _, v := range f.header {
		if v != "" {
			return true
		}
	}
	return !f.noEmpty
}

func (f *f6) compare(x *po.File) string {
	n := 0
	for ctx, ms := range x.Messages {
		for id, m := range ms {
			if m.Context != ctx || m.ID != id {
				return fmt.Sprintf("message %q/%q is filed under %q/%q", m.Context, m.ID, ctx, id)
			}
			n++
		}
	}
	if n != len(f.entries) {
		return fmt.Sprintf("%d entries read back, %d written", n, len(f.entries))
	}
	for i := range f.entries {
		e := &f.entries[i]
		m := x.GetMessage(e.ctx, e.id)
		if m == nil {
			return fmt.Sprintf("entry %q/%q is lost", e.ctx, e.id)
		}
		if m.IDPlural != e.plural {
			return fmt.Sprintf("plural id %q, want %q", m.IDPlural, e.plural)
		}
		if !sameForms(m.Str, e.str) {
			return fmt.Sprintf("translations %q, want %q", m.Str, e.str)
		}
		if d := commentDiff(e, f.noRefs, m.Comment); d != "" {
			return fmt.Sprintf("entry %q/%q: %s", e.ctx, e.id, d)
		}
	}
	if f.hasHeader() {
		if x.Header == nil {
			return "the header is lost"
		}
		for k, v := range f.header {
			if got := x.Header.Get(k); got != v {
				return fmt.Sprintf("header field %s: %q, want %q", k, got, v)
			}
		}
		for k, v := range x.Header.UnknownFields {
			if f.header[k] != v {
				return fmt.Sprintf("made-up header field %s: %q", k, v)
			}
		}
		hc := f.hcom
		if hc == nil {
			hc = &e6{}
		}
		if d := commentDiff(hc, f.noRefs, x.Header.Comment); d != "" {
			return "header " + d
		}
	}
	return ""
}

// idOrder reads the order of the entries from the written text, for files of one-word ids.
func idOrder(text string) []string {
	var out []string
	ctx := ""
	for _, l := range strings.Split(text, "\n") {
		if v, ok := strings.CutPrefix(l, "msgctxt "); ok {
			ctx = strings.Trim(v, `"`)
		}
		if v, ok := strings.CutPrefix(l, "msgid "); ok {
			if v != `""` {
				out = append(out, ctx+"/"+strings.Trim(v, `"`))
			}
			ctx = ""
		}
	}
	return out
}

func (f *f6) judge() string {
	x := f.build()
	text, err := f.encode(x)
	if err != nil {
		return "encoding: " + err.Error()
	}
	// the same file written once more is the same text
	if again, err := f.encode(x); err != nil || again != text {
		return fmt.Sprintf("written twice: %v %s", err, diff("text", again, text))
	}
	if len(f.entries) == 0 && !f.hasHeader() {
		return "" // nothing to read back
	}
	y, err := po.Parse([]byte(text))
	if err != nil {
		return fmt.Sprintf("%v in the written text\n%s", err, text)
	}
	if d := f.compare(y); d != "" {
		return d + "\n" + text
	}
	if f.sort > 1 {
		var want []string
		es := slices.Clone(f.entries)
		slices.SortFunc(es, func(a, b e6) int { return c06Sort[f.sort](a.build(), b.build()) })
		for _, e := range es {
			want = append(want, e.ctx+"/"+e.id)
		}
		if got := idOrder(text); !slices.Equal(got, want) {
			return fmt.Sprintf("written in the order %v, want %v", got, want)
		}
	}
	// from here on nothing changes any more
	text2, err := f.encode(y)
	if err != nil {
		return "encoding what was read: " + err.Error()
	}
	z, err := po.Parse([]byte(text2))
	if err != nil {
		return fmt.Sprintf("%v in the text written second\n%s", err, text2)
	}
	if d := f.compare(z); d != "" {
		return "second round: " + d + "\n" + text2
	}
	text3, err := f.encode(z)
	if err != nil || text3 != text2 {
		return fmt.Sprintf("third text differs: %v %s", err, diff("text", text3, text2))
	}
	// a catalog made from the written text answers with the same texts
	if pf := f.header["Plural-Forms"]; len(f.entries) > 0 && (pf == "" || strings.HasPrefix(pf, "nplurals=")) {
		cat, err := catalog.NewPoDecoder().Decode(language.English, "", []byte(text))
		if err != nil {
			return "not decodable: " + err.Error() + "\n" + text
		}
		for _, e := range f.entries {
			if e.str[0] == "" || slices.Contains(e.flags, "fuzzy") && !e.noComment {
				continue
			}
			if got, err := cat.Lookup(e.ctx, e.id); err != nil || got != e.str[0] {
				return fmt.Sprintf("catalog lookup of %q/%q: %q %v, want %q", e.ctx, e.id, got, err, e.str[0])
			}
		}
	}
	return ""
}

var c06Texts = []string{"a", "", "ab cd", "line\n", "l1\nl2", "\n", "\n\nx", "x\n\n", " lead", "trail ", "  ", "q\"uo\"te", `back\slash`, `\`, `\n`, `\"`, "tab\tx", "cr\rx", "a\r\n", "\a\b\f\v", "\x01\x1f\x7f", "é ü", "日本 語", "no\u00a0break", "\u2028", "#", "#, fuzzy", "msgid \"x\"", "%d %s", strings.Repeat("wo rd ", 5), strings.Repeat("x", 20), "aaa bbb\nccc ddd eee\n fff", "🎉 🎉", "[0]", "a: b", `x\x41`, "'", "/", "end\\\n"}
var c06Short = []string{"a", "", "l1\nl2\n", " x  y ", "q\"", `\`, "tab\t\r", "é 日本 語 aaaa", "wo rd wo rd", "\n"}
var c06Comments = []string{"", "a", "a b c d e f g", "l1\nl2", "l1\n\nl3", "\nx", "x\n", " lead", ", fuzzy", ": f.go:1", ". e", "| msgid \"a\"", "~ msgid \"x\"", "msgid \"x\"", `"str"`, "é 日本 語 日本語日本語", strings.Repeat("long ", 30), "a\tb", "#", "# # #", strings.Repeat("y", 90), "\u00a0x", "tra  iling  ", "no\u00a0break no\u00a0break"}
var c06Refs = [][]poRef{nil, {{"a.go", 1}}, {{"a.go", 0}}, {{"a.go", 3}, {"b.go", 7}}, {{"b.go", 7}, {"a.go", 30}, {"a.go", 4}}, {{"dir/sub/very_long_file_name.go", 1234567}, {"d", -1}, {"x", 1}, {"é.go", 2}}, {{"a.go", 3}, {"a.go", 3}}}
var c06Flags = [][]string{nil, {"fuzzy"}, {"c-format", "fuzzy"}, {"xspreak-template", "no-c-format", "range:0..10"}}
var c06Widths = []int{-1, 0, 1, 2, 3, 5, 8, 20, 80}
var c06Known = []string{"Project-Id-Version", "Report-Msgid-Bugs-To", "POT-Creation-Date", "PO-Revision-Date", "Last-Translator", "Language-Team", "Language", "MIME-Version", "Content-Type", "Content-Transfer-Encoding", "Plural-Forms", "X-Generator"}

func runC06(c *C) {
	widths := c06Widths
	run := func(w int, f f6, distinct bool) {
		c.caseW(w, func() string { return f.String() }, func() string {
			if distinct {
				c.Distinct(f.String())
			}
			return f.judge()
		})
	}
	fill := func(field int, v string, e *e6) {
		switch field {
		case 0:
			e.ctx = v
		case 1:
			if v != "" {
				e.id = v
			}
		case 2:
			e.plural = v
		case 3:
			e.str[0] = v
		case 4:
			if e.plural != "" {
				e.str[1] = v
			}
		case 5:
			if e.plural != "" {
				e.str[3] = v
			}
		}
	}
	// (a) all pairs of fields
	texts := c06Texts
	second := c06Short
	if c.Thorough() {
		second = c06Texts
	}
	dims := []int{6, 6, len(texts), len(second), 2}
	c.Par(size(dims), func(w, i int) {
		t := tuple(i, dims)
		if t[0] == t[1] && t[3] > 0 {
			return
		}
		for _, width := range widths {
			e := e6{id: "id", str: map[int]string{0: "tr"}, noComment: t[4] == 0}
			if t[4] == 1 {
				e.plural = "ids"
				e.str[1] = "trs"
			}
			fill(t[1], second[t[3]], &e)
			fill(t[0], texts[t[2]], &e)
			run(w, f6{entries: []e6{e, {id: "other", str: map[int]string{0: "x"}}}, width: width}, width == 8)
		}
	})
	// forms: every subset of indices x which are empty
	c.Par(1<<5, func(w, mask int) {
		for empty := 0; empty < 1<<5; empty++ {
			if empty&^mask != 0 {
				continue
			}
			for _, pl := range []string{"ids", ""} {
				e := e6{id: "id", plural: pl, str: map[int]string{}}
				for k := 0; k < 5; k++ {
					if mask>>k&1 == 1 {
						e.str[k] = fmt.Sprintf("f%d", k)
					}
					if empty>>k&1 == 1 {
						e.str[k] = ""
					}
				}
				if pl == "" && (len(e.str) == 1 && mask&1 == 0) {
					continue // a translation of another index than 0 without a plural id
				}
				for _, width := range []int{-1, 3} {
					run(w, f6{entries: []e6{e}, width: width}, true)
				}
			}
		}
	})
	// (b) comments
	dims = []int{len(c06Comments), len(c06Comments), len(c06Refs), len(c06Flags), len(widths)}
	c.Par(size(dims), func(w, i int) {
		t := tuple(i, dims)
		if c.Quick() && t[0] != t[1] && t[0] > 0 && t[1] > 0 && (t[0]*7+t[1]*3+t[2]*5+t[3])%4 != 0 {
			return
		}
		e := e6{id: "id", str: map[int]string{0: "tr"}, trans: c06Comments[t[0]], extr: c06Comments[t[1]], refs: c06Refs[t[2]], flags: c06Flags[t[3]]}
		f := f6{entries: []e6{e}, width: widths[t[4]], noRefs: i%5 == 0}
		switch i % 3 {
		case 0:
			f.entries = append(f.entries, e6{id: "zz", str: map[int]string{0: "y"}, refs: c06Refs[(t[2]+1)%len(c06Refs)], flags: e.flags, trans: e.extr})
		case 1:
			f.header, f.hcom = map[string]string{"Language": "de"}, &e
		}
		run(w, f, t[4] == 6)
	})
	// previous texts
	dims = []int{len(texts), len(second), len(widths), 4}
	c.Par(size(dims), func(w, i int) {
		t := tuple(i, dims)
		for swap := 0; swap < 2; swap++ {
			e := e6{id: "id", ctx: "ctx", plural: "ids", str: map[int]string{0: "tr", 1: "trs"}, prevCtx: texts[t[0]], prevID: second[t[1]]}
			if swap == 1 {
				e.prevCtx, e.prevID = e.prevID, e.prevCtx
			}
			f := f6{width: widths[t[2]]}
			if t[3]&1 == 1 {
				e.trans, e.extr, e.refs, e.flags = "tr", "ex", c06Refs[3], c06Flags[1]
			}
			f.entries = []e6{e, {id: "other", str: map[int]string{0: "x"}}}
			if t[3]&2 == 2 {
				f.header, f.hcom = map[string]string{"Language": "de"}, &e
				f.entries = f.entries[1:]
			}
			run(w, f, t[2] == 6)
		}
	})
	// (c) header
	hvals := []string{"", "v", "two words", "a: b", "q\"uote", `back\slash`, `ends with \`, `\n`, "tab\tin", "é 日本", "nplurals=2; plural=(n != 1);", "A <a@b.c>", strings.Repeat("long ", 40) + "x", "\x01x\x02", "#, fuzzy", "msgid \"\"", "no\u00a0break", "c\rr", "%"}
	unknown := []map[string]string{{}, {"X-A": "1"}, {"X-A": "1", "X-B": "", "A-First": "z"}, {"x-lower": "v", "X_Under": "w", "ünï": "u", "a b": "c"}, {`X-a\nq`: "1", `a"b`: "2", "t\tt": "3", `\\`: "4", `end\`: "5"}}
	dims = []int{len(c06Known) + 1, len(hvals), len(unknown), 8, len(widths)}
	c.Par(size(dims), func(w, i int) {
		t := tuple(i, dims)
		if c.Quick() && (t[4]%3 != t[1]%3) {
			return
		}
		h := map[string]string{}
		for k, v := range unknown[t[2]] {
			h[k] = v
		}
		if t[0] < len(c06Known) {
			h[c06Known[t[0]]] = hvals[t[1]]
			if t[3] == 5 {
				h[c06Known[(t[0]+5)%len(c06Known)]] = hvals[(t[1]+3)%len(hvals)]
			}
		} else {
			h["X-Spreak-Test"] = hvals[t[1]]
		}
		f := f6{header: h, width: widths[t[4]]}
		if t[3] > 0 {
			f.entries = []e6{{id: "id", str: map[int]string{0: "tr"}}}
		}
		switch t[3] {
		case 2:
			f.noEmpty = true
		case 3:
			f.noHead = true
		case 4:
			f.hcom = &e6{trans: "Copyright (C)\nFIRST AUTHOR", flags: []string{"fuzzy"}}
		case 6:
			f.noEmpty, f.hcom = true, &e6{trans: "Copyright (C)\nFIRST AUTHOR", flags: []string{"fuzzy"}}
		case 7:
			f.noHead, f.hcom = true, &e6{trans: "Copyright (C)\nFIRST AUTHOR", flags: []string{"fuzzy"}}
		}
		run(w, f, t[4] < 3)
	})
	// the template header
	names := []string{"", "pkg", "two words", "q\"uote", `back\slash`, "é 日本", "a: b", strings.Repeat("long ", 40) + "x"}
	dims = []int{len(names), len(names), len(names), len(widths), 2}
	c.Par(size(dims), func(w, i int) {
		t := tuple(i, dims)
		key := fmt.Sprintf("template %q %q %q width %d", names[t[0]], names[t[1]], names[t[2]], widths[t[3]])
		c.caseW(w, func() string { return key }, func() string {
			h := po.PlaceholderHeader(names[t[0]], names[t[1]], names[t[2]])
			if h.ProjectIDVersion != names[t[0]] || h.ReportMsgidBugsTo != names[t[2]] || !h.Comment.HasFlag("fuzzy") {
				return "template: package, address or flag missing"
			}
			if _, err := time.Parse("2006-01-02 15:04-0700", h.POTCreationDate); err != nil {
				return err.Error()
			}
			f := &po.File{Header: h}
			_ = f.String()
			if t[4] == 1 {
				f.AddMessage(&po.Message{ID: "id", Str: map[int]string{0: "tr"}})
			}
			enc := func(f *po.File) ([]byte, error) {
				var b bytes.Buffer
				e := po.NewEncoder(&b)
				e.SetWrapWidth(widths[t[3]])
				err := e.Encode(f)
				return b.Bytes(), err
			}
			one, err := enc(f)
			if err != nil {
				return err.Error()
			}
			g, err := po.Parse(one)
			if err != nil {
				return err.Error() + "\n" + string(one)
			}
			for k, name := range knownHeaders {
				if headerField(g.Header, k) != headerField(h, k) {
					return fmt.Sprintf("template: %s is %q after reading, was %q\n%s", name, headerField(g.Header, k), headerField(h, k), one)
				}
			}
			if g.Header.Comment == nil || !g.Header.Comment.HasFlag("fuzzy") || strings.Join(strings.Fields(g.Header.Comment.Translator), " ") != strings.Join(strings.Fields(h.Comment.Translator), " ") {
				return fmt.Sprintf("template: comment lost\n%s", one)
			}
			if len(g.Messages) != t[4] {
				return fmt.Sprintf("template: messages %v", g.Messages)
			}
			two, err := enc(g)
			if err != nil {
				return err.Error()
			}
			g2, err := po.Parse(two)
			if err != nil || g2.Header.ProjectIDVersion != names[t[0]] {
				return fmt.Sprintf("template: second reading %v\n%s", err, two)
			}
			return ""
		})
	})
	c.Case(func() string { return "nil file" }, func() string {
		var b bytes.Buffer
		if err := po.NewEncoder(&b).Encode(nil); err == nil || b.Len() > 0 {
			return fmt.Sprintf("nil file: %v, wrote %q", err, b.String())
		}
		return ""
	})
	// (d) subsets of entries
	pool := []e6{
		{id: "one", str: map[int]string{0: "eins"}},
		{id: "one", ctx: "c", str: map[int]string{0: "EINS"}, refs: c06Refs[3]},
		{id: "two", plural: "twos", str: map[int]string{0: "zwei", 1: "zweien"}, flags: c06Flags[1], trans: "note"},
		{id: "three", ctx: "d", plural: "threes", str: map[int]string{0: "", 1: ""}, noComment: true},
		{id: "two", ctx: "c", str: map[int]string{}, extr: "extracted", refs: c06Refs[4]},
		{id: "x", str: map[int]string{0: "X"}, refs: c06Refs[2]},
		{id: "one", ctx: "d", str: map[int]string{0: "1"}, noComment: true},
		{id: "yy", plural: "yy", str: map[int]string{0: "a", 1: "b", 2: "c"}, refs: c06Refs[5], flags: c06Flags[3]},
	}
	hs := []map[string]string{nil, {}, {"Language": "de", "X-A": "b"}}
	dims = []int{1 << len(pool), len(hs), 4, 8, c.Pick(2, 4)}
	c.Par(size(dims), func(w, i int) {
		t := tuple(i, dims)
		f := f6{header: hs[t[1]], sort: t[2], noHead: t[3]&1 == 1, noEmpty: t[3]&2 == 2, noRefs: t[3]&4 == 4, width: []int{-1, 3, 8, 80}[t[4]]}
		for k := range pool {
			if t[0]>>k&1 == 1 {
				f.entries = append(f.entries, pool[k])
			}
		}
		if f.sort > 1 && f.width > 0 {
			f.width = 80 // one-word ids stay on their line
		}
		run(w, f, t[3] == 0)
	})
	// (e) sizes
	var jobs []func(w int)
	job := func(key func() string, f func() string) {
		jobs = append(jobs, func(w int) { c.caseW(w, key, f) })
	}
	for _, n := range []int{10, 11, 12, 13, 50, 51, 100, 255, 256, 257, 1000} {
		f := f6{width: []int{-1, 40}[n%2], header: map[string]string{"Language": "de"}}
		for k := 0; k < n; k++ {
			e := e6{id: fmt.Sprintf("id%d", (k*7919)%100003), ctx: []string{"", "c", "d"}[k%3], str: map[int]string{0: fmt.Sprintf("t%d", k)}}
			if k%4 == 1 {
				e.refs = []poRef{{fmt.Sprintf("f%d.go", k%17), k*31%97 + 1}}
			}
			if k%5 == 2 {
				e.noComment = true
			}
			if k%7 == 3 {
				e.plural = "pl"
				e.str[1] = "x\ny"
			}
			f.entries = append(f.entries, e)
		}
		for s := 0; s < 4; s++ {
			f := f
			f.sort = s
			job(func() string { return fmt.Sprintf("%d entries, sort %d", n, s) }, func() string { return f.judge() })
		}
	}
	for _, n := range []int{79, 80, 81, 1000, 4095, 4096, 4097, 51199, 51200, 51201, 65535, 65536, 65537, 200000} {
		for k, v := range []string{strings.Repeat("x", n), strings.Repeat("é ", n/3), strings.Repeat("ab\n", n/3), strings.Repeat("\"", n), strings.Repeat(" ", n)} {
			for _, width := range []int{-1, 80} {
				f := f6{width: width, entries: []e6{{id: "i" + v, ctx: "c" + v, plural: "p" + v, str: map[int]string{0: "s" + v, 1: v + "t", 7: v}, trans: "t" + v, extr: "e" + v}}}
				job(func() string { return fmt.Sprintf("texts %d of %d bytes, width %d", k, n, width) }, func() string { return f.judge() })
			}
		}
	}
	for _, n := range []int{5, 20, 100, 1000} {
		e := e6{id: "id", str: map[int]string{}, plural: "ids"}
		for k := 0; k < n; k++ {
			e.str[k] = fmt.Sprintf("form %d", k)
			e.refs = append(e.refs, poRef{fmt.Sprintf("f%d.go", k), n - k})
			e.flags = append(e.flags, fmt.Sprintf("flag%d", k))
		}
		for _, width := range widths {
			f := f6{width: width, entries: []e6{e}}
			job(func() string { return fmt.Sprintf("%d forms, references and flags, width %d", n, width) }, func() string { return f.judge() })
		}
	}
	c.Par(len(jobs), func(w, i int) { jobs[i](w) })
}
