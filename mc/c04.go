package main

import (
	"bytes"
	"fmt"
	"maps"
	"slices"
	"strings"

	"golang.org/x/text/language"

	"github.com/vorlif/spreak/catalog"
	"github.com/vorlif/spreak/catalog/po"
)

func init() {
	register(&Check{ID: "C04", Level: "exploration",
		Rule: "(a) every sequence of up to 5 (quick) / 6 (thorough) lines over 19 line templates of every token kind, judged by an independent reader of the PO grammar (sequences it calls undefined must only not panic); (b) all ordered pairs of entries over context x plural shape x string spelling x comment block, x separator x line end x header place; (c) all escape strings up to length 3 in every field; (d) every block of up to 4 (quick) / 5 (thorough) comment lines with previous texts over 15 templates, and every placement of blanks around the keywords and of blank lines between the parts of an entry; (e) malformed lines at every position, every truncation, size boundaries. Non-trivial: the file has at least one entry.",
		Run:  runC04})
}

type poRef struct {
	path string
	line int
}

// poEntry is what the reference reader expects of one entry.
type poEntry struct {
	ctx, id, plural string
	str             map[int]string
	trans, extr     []string
	flags           []string
	refs            []poRef
	anyComment      bool // comments are not compared
	prev            bool // the previous texts are compared too
	prevCtx, prevID string
}

func (e *poEntry) fuzzy() bool { return slices.Contains(e.flags, "fuzzy") }

type poWant struct {
	entries []*poEntry
	header  map[string]string
}

// comparePO checks a parsed file against the expectation. comments: 2 all, 1 flags only.
func comparePO(f *po.File, w poWant, comments int) string {
	n := 0
	for ctx, ms := range f.Messages {
		for id, m := range ms {
			n++
			if m.Context != ctx || m.ID != id {
				return fmt.Sprintf("message %q/%q stored under %q/%q", m.Context, m.ID, ctx, id)
			}
		}
	}
	if n != len(w.entries) {
		return fmt.Sprintf("%d entries read, want %d", n, len(w.entries))
	}
	for _, e := range w.entries {
		m := f.GetMessage(e.ctx, e.id)
		if m == nil {
			return fmt.Sprintf("entry %q/%q is missing", e.ctx, e.id)
		}
		if m.IDPlural != e.plural {
			return fmt.Sprintf("entry %q/%q: plural id %q, want %q", e.ctx, e.id, m.IDPlural, e.plural)
		}
		if !maps.Equal(m.Str, e.str) {
			return fmt.Sprintf("entry %q/%q: translations %q, want %q", e.ctx, e.id, m.Str, e.str)
		}
		cm := m.Comment
		if cm == nil {
			cm = &po.Comment{}
		}
		if !e.anyComment && !slices.Equal(append([]string{}, cm.Flags...), append([]string{}, e.flags...)) {
			return fmt.Sprintf("entry %q/%q: flags %q, want %q", e.ctx, e.id, cm.Flags, e.flags)
		}
		if comments < 2 || e.anyComment {
			continue
		}
		if t := strings.Join(e.trans, "\n"); strings.Trim(cm.Translator, "\n") != strings.Trim(t, "\n") {
			return fmt.Sprintf("entry %q/%q: translator comment %q, want %q", e.ctx, e.id, cm.Translator, t)
		}
		if t := strings.Join(e.extr, "\n"); strings.Trim(cm.Extracted, "\n") != strings.Trim(t, "\n") {
			return fmt.Sprintf("entry %q/%q: extracted comment %q, want %q", e.ctx, e.id, cm.Extracted, t)
		}
		var refs []poRef
		for _, r := range cm.References {
			refs = append(refs, poRef{r.Path, r.Line})
		}
		if e.prev && (cm.PrevMsgContext != e.prevCtx || cm.PrevMsgID != e.prevID) {
			return fmt.Sprintf("entry %q/%q: previous context and text %q, %q; want %q, %q", e.ctx, e.id, cm.PrevMsgContext, cm.PrevMsgID, e.prevCtx, e.prevID)
		}
		if !slices.Equal(refs, e.refs) {
			return fmt.Sprintf("entry %q/%q: references %v, want %v", e.ctx, e.id, refs, e.refs)
		}
	}
	for k, v := range w.header {
		if got := f.Header.Get(k); got != v {
			return fmt.Sprintf("header %s: %q, want %q", k, got, v)
		}
	}
	return ""
}

// compareCatalog checks the catalog made from the same file: every entry but the fuzzy ones answers.
func compareCatalog(cat catalog.Catalog, w poWant) string {
	n := 0
	for _, e := range w.entries {
		got, err := cat.Lookup(e.ctx, e.id)
		want := e.str[0]
		if e.fuzzy() || want == "" {
			if err == nil {
				return fmt.Sprintf("lookup %q/%q: %q without error (fuzzy=%v, translation %q)", e.ctx, e.id, got, e.fuzzy(), want)
			}
		} else if err != nil || got != want {
			return fmt.Sprintf("lookup %q/%q: %q, %v; want %q", e.ctx, e.id, got, err, want)
		}
		if !e.fuzzy() {
			n++
		}
	}
	if g, ok := cat.(*catalog.GettextCatalog); ok {
		have := 0
		for ctx, ms := range g.Messages() {
			for id, m := range ms {
				have++
				found := false
				for _, e := range w.entries {
					if e.ctx == ctx && e.id == id && !e.fuzzy() {
						found = true
						if !maps.Equal(m.Translations(), e.str) {
							return fmt.Sprintf("catalog entry %q/%q: %q, want %q", ctx, id, m.Translations(), e.str)
						}
					}
				}
				if !found {
					return fmt.Sprintf("the catalog has %q/%q, which is not an entry of the file", ctx, id)
				}
			}
		}
		if have != n {
			return fmt.Sprintf("%d catalog entries, want %d", have, n)
		}
	}
	return ""
}

// judgePO reads the text in all three ways.
func judgePO(text string, w poWant, full bool) string {
	f, err := po.Parse([]byte(text))
	if err != nil {
		return "not readable: " + err.Error()
	}
	if e := comparePO(f, w, 2); e != "" {
		return e
	}
	if !full {
		return ""
	}
	p := po.NewParser()
	p.SetIgnoreComments(true)
	f, err = p.Parse(strings.NewReader(text))
	if err != nil {
		return "ignoring comments, not readable: " + err.Error()
	}
	if e := comparePO(f, w, 1); e != "" {
		return "ignoring comments: " + e
	}
	cat, err := catalog.NewPoDecoder().Decode(language.English, "", []byte(text))
	if err != nil {
		return "not decodable: " + err.Error()
	}
	return compareCatalog(cat, w)
}

func mustErrPO(text string) string {
	if _, err := po.Parse([]byte(text)); err == nil {
		return "accepted without an error"
	}
	p := po.NewParser()
	p.SetIgnoreComments(true)
	if _, err := p.Parse(strings.NewReader(text)); err == nil {
		return "accepted without an error when comments are ignored"
	}
	if _, err := catalog.NewPoDecoder().Decode(language.English, "", []byte(text)); err == nil {
		return "decoded without an error"
	}
	return ""
}

// ---- (a) raw line sequences

type poLine struct {
	text string
	kind byte   // b blank, # comment, x msgctxt, i msgid, p plural, s msgstr, k msgstr[], c continuation, g garbage
	val  string // the string value
	idx  int
	com  byte // t . : , | ~
}

var poLines = []poLine{
	{text: "", kind: 'b'},
	{text: `msgid "a"`, kind: 'i', val: "a"},
	{text: `msgstr "s"`, kind: 's', val: "s"},
	{text: `msgid "b"`, kind: 'i', val: "b"},
	{text: `msgid ""`, kind: 'i', val: ""},
	{text: `msgstr ""`, kind: 's', val: ""},
	{text: `"K: v\n"`, kind: 'c', val: "K: v\n"},
	{text: `msgctxt "c"`, kind: 'x', val: "c"},
	{text: `msgid_plural "p"`, kind: 'p', val: "p"},
	{text: `msgstr[0] "x"`, kind: 'k', val: "x", idx: 0},
	{text: `msgstr[1] ""`, kind: 'k', val: "", idx: 1},
	{text: `# t`, kind: '#', com: 't', val: "t"},
	{text: `#, fuzzy`, kind: '#', com: ',', val: "fuzzy"},
	{text: `#. e`, kind: '#', com: '.', val: "e"},
	{text: `#: f.go:3`, kind: '#', com: ':', val: "f.go"},
	{text: `#| msgid "old"`, kind: '#', com: '|'},
	{text: `#~ msgid "o"`, kind: '#', com: '~'},
	{text: " \t", kind: 'b'},
	{text: `foo`, kind: 'g'},
}

const (
	poOK = iota
	poUndefined
	poError
)

// readPO is the reference reader: entry := comment* [msgctxt] msgid [msgid_plural] (msgstr | msgstr[k]+),
// each keyword line followed by continuation lines; blank lines between entries and between the parts of one.
func readPO(ls []poLine) (w poWant, verdict int) {
	for _, l := range ls {
		if l.kind == 'g' {
			return w, poError
		}
	}
	var cur *poEntry
	var store func(string)
	state := byte('0') // 0 none, # comments, x, i, p, s, k
	headers := 0
	verdict = poOK
	undef := func() (poWant, int) { return poWant{}, poUndefined }
	flush := func() bool {
		if cur == nil {
			return true
		}
		e := cur
		cur = nil
		if e.id == "" {
			if e.ctx != "" || e.plural != "" || len(e.str) != 1 || e.str[0] == "" {
				return false // a header with a context or plural, or an empty one
			}
			if _, indexed := e.str[0]; !indexed {
				return false
			}
			headers++
			if headers > 1 {
				verdict = poError
			}
			w.header = map[string]string{}
			for _, l := range strings.Split(e.str[0], "\n") {
				if l == "" {
					continue
				}
				k, v, ok := strings.Cut(l, ":")
				if !ok {
					return false // not a header text
				}
				w.header[k] = strings.TrimSpace(v)
			}
			return true
		}
		for _, o := range w.entries {
			if o.ctx == e.ctx && o.id == e.id {
				verdict = poError
			}
		}
		w.entries = append(w.entries, e)
		return true
	}
	inside := false   // the last line is a blank line inside an entry
	attached := false // the comments follow an entry without a blank line
	for _, l := range ls {
		if l.kind != 'b' && l.kind != '#' && l.kind != 'c' {
			inside = false
		}
		switch l.kind {
		case 'b':
			switch state {
			case '0':
			case '#':
				return undef() // a comment followed by a blank line
			case 's':
				if !flush() {
					return undef()
				}
				state = '0'
			}
			store, inside = nil, state != '0' // further forms may follow
		case '#':
			switch state {
			case '0':
				cur = &poEntry{str: map[int]string{}}
				attached = false
			case '#':
			case 's', 'k':
				if !flush() {
					return undef()
				}
				cur = &poEntry{str: map[int]string{}}
				attached = !inside
			default:
				return undef() // a comment inside an entry
			}
			state, store = '#', nil
			switch l.com {
			case 't':
				cur.trans = append(cur.trans, l.val)
			case '.':
				cur.extr = append(cur.extr, l.val)
			case ':':
				cur.refs = append(cur.refs, poRef{l.val, 3})
			case ',':
				cur.flags = append(cur.flags, l.val)
			case '~':
				cur.anyComment = true
			}
		case 'x', 'i':
			if state == 's' || state == 'k' {
				if !flush() {
					return undef()
				}
				state = '0'
			}
			if state == '0' {
				cur = &poEntry{str: map[int]string{}}
			}
			e := cur
			if l.kind == 'x' {
				if state != '0' && state != '#' {
					return undef()
				}
				e.ctx = l.val
				store = func(s string) { e.ctx += s }
			} else {
				if state == 'i' || state == 'p' {
					return undef()
				}
				e.id = l.val
				store = func(s string) { e.id += s }
			}
			state = l.kind
		case 'p':
			if state != 'i' {
				return undef()
			}
			e := cur
			e.plural = l.val
			store = func(s string) { e.plural += s }
			state = 'p'
		case 's':
			if state != 'i' {
				return undef()
			}
			e := cur
			e.str[0] = l.val
			store = func(s string) { e.str[0] += s }
			state = 's'
		case 'k':
			if state != 'p' && state != 'k' {
				return undef()
			}
			e, k := cur, l.idx
			if _, dup := e.str[k]; dup {
				return undef()
			}
			e.str[k] = l.val
			store = func(s string) { e.str[k] += s }
			state = 'k'
		case 'c':
			if store == nil {
				if state == '#' && attached {
					return undef() // a comment between a string and its continuation
				}
				if inside {
					return undef() // a blank line between a string and its continuation
				}
				return w, poError // a string without a keyword
			}
			store(l.val)
		}
	}
	switch state {
	case 'x', 'i', 'p':
		return undef()
	case '#':
		cur = nil // comments at the end of the file
	case 's', 'k':
		if !flush() {
			return undef()
		}
	}
	if len(w.entries) == 0 && headers == 0 && verdict == poOK {
		return undef()
	}
	return w, verdict
}

func runC04(c *C) {
	// (a)
	depth := c.Pick(5, 6)
	for n := 1; n <= depth; n++ {
		dims := make([]int, n)
		for k := range dims {
			dims[k] = len(poLines)
		}
		total := size(dims)
		const chunk = 4096
		c.Par((total+chunk-1)/chunk, func(w, b int) {
			ls := make([]poLine, n)
			for i := b * chunk; i < min(total, (b+1)*chunk); i++ {
				t := tuple(i, dims)
				for k, v := range t {
					ls[k] = poLines[v]
				}
				want, verdict := readPO(ls)
				if verdict == poUndefined && n > 4 && i%7 != 0 {
					continue // only the absence of a panic is judged; all of them up to length 4
				}
				join := func(eol, last string) string {
					var sb strings.Builder
					for k, l := range ls {
						sb.WriteString(l.text)
						if k < n-1 {
							sb.WriteString(eol)
						}
					}
					return sb.String() + last
				}
				ends := [][2]string{{"\n", "\n"}}
				if n < depth {
					ends = append(ends, [2]string{"\n", ""}, [2]string{"\r\n", "\r\n"})
				}
				for _, e := range ends {
					text := join(e[0], e[1])
					c.caseW(w, func() string { return "lines " + q(text) }, func() string {
						switch verdict {
						case poUndefined:
							_, _ = po.Parse([]byte(text))
							_, _ = catalog.NewPoDecoder().Decode(language.English, "", []byte(text))
							return ""
						case poError:
							return mustErrPO(text)
						}
						if len(want.entries) > 0 && c.Thorough() || n < 5 {
							c.Distinct(text)
						}
						return judgePO(text, want, true)
					})
				}
			}
		})
	}
	c04Prev(c)
	c04Lists(c)
	c04Blanks(c)
	c04BlankLines(c)
	c04Pairs(c)
	c04Escapes(c)
	c04Malformed(c)
	c04Sizes(c)
}

// ---- (b) pairs of structured entries

// poSpell writes the value under the keyword in one of several equivalent ways.
func poSpell(kw, val string, how int, eol string) string {
	esc := func(s string) string {
		r := strings.NewReplacer(`\`, `\\`, `"`, `\"`, "\n", `\n`, "\t", `\t`, "\r", `\r`, "\a", `\a`, "\b", `\b`, "\f", `\f`, "\v", `\v`)
		return r.Replace(s)
	}
	rs := []rune(val)
	half := len(rs) / 2
	switch how {
	case 1: // empty first line, the text in one continuation line
		return kw + ` ""` + eol + `"` + esc(val) + `"` + eol
	case 2: // split in the middle
		return kw + ` "` + esc(string(rs[:half])) + `"` + eol + `"` + esc(string(rs[half:])) + `"` + eol
	case 3: // one line per character
		s := kw + ` ""` + eol
		for _, r := range rs {
			s += `"` + esc(string(r)) + `"` + eol
		}
		return s
	case 4: // blanks around
		return "  " + kw + `   "` + esc(val) + `"  ` + eol
	case 5: // empty continuation lines, indented
		return kw + ` ""` + eol + `  ""` + eol + ` "` + esc(val) + `" ` + eol + `""` + eol
	}
	return kw + ` "` + esc(val) + `"` + eol
}

type poShape struct {
	ctx, forms, spell, com int
	plain                  bool
}

var poForms = [][]int{nil, {0}, {0, 1}, {1, 0, 2}, {0, 1, 2, 3, 4, 5}}

func (s poShape) build(id, eol string) (*poEntry, string) {
	e := &poEntry{id: id, str: map[int]string{}}
	var b strings.Builder
	line := func(s string) { b.WriteString(s + eol) }
	switch s.com {
	case 1:
		line("# " + strings.ReplaceAll(id, "\n", "-") + " one")
		line("# two")
		e.trans = []string{strings.ReplaceAll(id, "\n", "-") + " one", "two"}
	case 2:
		line("#, fuzzy, c-format")
		e.flags = []string{"fuzzy", "c-format"}
	case 3:
		line("#: a.go:1 b/c.go:22")
		line("#. note: \"x\"")
		line("#,no-c-format")
		line("#: d.go:3")
		e.refs, e.extr, e.flags = []poRef{{"a.go", 1}, {"b/c.go", 22}, {"d.go", 3}}, []string{"note: \"x\""}, []string{"no-c-format"}
	case 4:
		line("#| msgctxt \"old\"")
		line("#| msgid \"\"")
		line("#| \"older\\n\"")
		line("#, range:0..10")
		line("#")
		line("#.")
		e.flags = []string{"range:0..10"}
		e.prev, e.prevCtx, e.prevID = true, "old", "older\n"
	case 5:
		line("#~ msgid \"gone\"")
		line("#~ msgstr \"weg\"")
		e.anyComment = true
	}
	switch s.ctx {
	case 1:
		e.ctx = "con text"
		b.WriteString(poSpell("msgctxt", e.ctx, s.spell, eol))
	case 2:
		b.WriteString(poSpell("msgctxt", "", s.spell, eol))
	}
	b.WriteString(poSpell("msgid", id, s.spell, eol))
	f := poForms[s.forms]
	if f == nil {
		e.str[0] = "t-" + id
		b.WriteString(poSpell("msgstr", e.str[0], s.spell, eol))
	} else {
		e.plural = id + "s"
		b.WriteString(poSpell("msgid_plural", e.plural, s.spell, eol))
		for _, k := range f {
			e.str[k] = fmt.Sprintf("t%d-%s", k, id)
			if k == 1 {
				e.str[k] = ""
			}
			b.WriteString(poSpell(fmt.Sprintf("msgstr[%d]", k), e.str[k], s.spell, eol))
		}
	}
	return e, b.String()
}

// c04Lists enumerates the comment lines which hold a list, references and flags, by what separates the items: blanks
// and tabs in any number, for flags commas too.
func c04Lists(c *C) {
	items := []string{"", "a.go:1", "b/c.go:22", "d.go"}
	edges := []string{"", " ", "\t", " \t "}
	seps := []string{" ", "  ", "\t", " \t", "\t ", "   ", ",", ", ", " , ", ",\t", ",,"}
	dims := []int{2, len(edges), len(items), len(seps), len(items), len(seps), len(items), len(edges), 2, 2}
	c.Par(size(dims), func(w, i int) {
		t := tuple(i, dims)
		reference := t[0] == 0
		sep1, sep2 := seps[t[3]], seps[t[5]]
		if reference && strings.ContainsAny(sep1+sep2, ",") {
			return // a comma may be part of a path
		}
		list := edges[t[1]] + items[t[2]] + sep1 + items[t[4]] + sep2 + items[t[6]] + edges[t[7]]
		e := &poEntry{id: "m", str: map[int]string{0: "u"}}
		for _, k := range []int{2, 4, 6} {
			it := items[t[k]]
			switch {
			case it == "":
			case !reference:
				e.flags = append(e.flags, it)
			case it == "a.go:1":
				e.refs = append(e.refs, poRef{"a.go", 1})
			case it == "b/c.go:22":
				e.refs = append(e.refs, poRef{"b/c.go", 22})
			default:
				e.refs = append(e.refs, poRef{it, -1})
			}
		}
		text := "#:" + list + "\n"
		if !reference {
			text = "#," + list + "\n"
		}
		if t[8] == 1 { // a second line continues the list
			text += "#: last.go:9\n#, last\n"
			e.refs = append(e.refs, poRef{"last.go", 9})
			e.flags = append(e.flags, "last")
		}
		text += "msgid \"m\"\nmsgstr \"u\"\n"
		if t[9] == 1 {
			text = strings.ReplaceAll(text, "\n", "\r\n")
		}
		c.caseW(w, func() string { return fmt.Sprintf("PO file %q", text) }, func() string {
			return judgePO(text, poWant{entries: []*poEntry{e}}, true)
		})
	})
}

// c04Prev enumerates the comment blocks with previous texts. A string line belongs to the keyword above it; one
// without a keyword directly above it is not judged.
func c04Prev(c *C) {
	type line struct {
		text string
		kind byte // x context, i id, p plural, c continuation, o another comment
		val  string
		set  func(e *poEntry)
	}
	lines := []line{
		{`#| msgctxt "c\n"`, 'x', "c\n", nil},
		{`#| msgctxt ""`, 'x', "", nil},
		{`#| msgid "a"`, 'i', "a", nil},
		{`#| msgid ""`, 'i', "", nil},
		{"#|\tmsgid   \"b \\\"q\\\" \" ", 'i', `b "q" `, nil},
		{`#|msgid"t\tz"`, 'i', "t\tz", nil},
		{`#|msgctxt"y"`, 'x', "y", nil},
		{`#| msgid_plural "p"`, 'p', "", nil},
		{`#|  msgid_plural ""`, 'p', "", nil},
		{`#| "more\n"`, 'c', "more\n", nil},
		{`#|  "é" `, 'c', "é", nil},
		{`# t`, 'o', "", func(e *poEntry) { e.trans = append(e.trans, "t") }},
		{`#. e`, 'o', "", func(e *poEntry) { e.extr = append(e.extr, "e") }},
		{`#, fuzzy`, 'o', "", func(e *poEntry) { e.flags = append(e.flags, "fuzzy") }},
		{`#: f.go:3`, 'o', "", func(e *poEntry) { e.refs = append(e.refs, poRef{"f.go", 3}) }},
	}
	depth := c.Pick(4, 5)
	for n := 1; n <= depth; n++ {
		dims := make([]int, n)
		for k := range dims {
			dims[k] = len(lines)
		}
		c.Par(size(dims), func(w, i int) {
			e := &poEntry{id: "m", plural: "ms", str: map[int]string{0: "u", 1: "v"}, prev: true}
			text := ""
			last := byte('o')
			seen := ""
			for _, k := range tuple(i, dims) {
				l := lines[k]
				text += l.text + "\n"
				switch l.kind {
				case 'o':
					l.set(e)
					last = 'o'
				case 'c':
					switch last {
					case 'o':
						return // not judged
					case 'x':
						e.prevCtx += l.val
					case 'i':
						e.prevID += l.val
					}
				default:
					if strings.IndexByte(seen, l.kind) >= 0 {
						return // two of a kind
					}
					seen += string(l.kind)
					last = l.kind
					if last == 'x' {
						e.prevCtx = l.val
					}
					if last == 'i' {
						e.prevID = l.val
					}
				}
			}
			rest := "msgid \"m\"\nmsgid_plural \"ms\"\nmsgstr[0] \"u\"\nmsgstr[1] \"v\"\n"
			before := &poEntry{id: "k", str: map[int]string{0: "l"}, prev: true}
			for _, head := range []string{"", "msgid \"k\"\nmsgstr \"l\"\n\n", "msgid \"k\"\nmsgstr \"l\"\n"} {
				for _, eol := range []string{"\n", "\r\n"} {
					file := strings.ReplaceAll(head+text+rest, "\n", eol)
					want := poWant{entries: []*poEntry{e}}
					if head != "" {
						want.entries = append(want.entries, before)
					}
					c.caseW(w, func() string { return "previous " + q(file) }, func() string {
						if head == "" {
							c.Distinct(file)
						}
						return judgePO(file, want, true)
					})
				}
			}
		})
	}
}

// c04BlankLines enumerates the blank lines between the parts of an entry.
func c04BlankLines(c *C) {
	gaps := []string{"", "\n", " \t\n\n"}
	for shape := 0; shape < 8; shape++ {
		e := &poEntry{id: "m", str: map[int]string{}}
		var parts []string
		if shape&1 != 0 {
			e.ctx = "c"
			parts = append(parts, "msgctxt \"c\"\n")
		}
		parts = append(parts, "msgid \"\"\n\"m\"\n")
		if shape&2 != 0 {
			e.plural = "ms"
			parts = append(parts, "msgid_plural \"ms\"\n", "msgstr[0] \"u\"\n", "msgstr[1] \"v\"\n\"w\"\n", "msgstr[2] \"\"\n")
			e.str[0], e.str[1], e.str[2] = "u", "vw", ""
		} else {
			parts = append(parts, "msgstr \"\"\n\"u\"\n")
			e.str[0] = "u"
		}
		com := ""
		if shape&4 != 0 {
			e.trans = []string{"t"}
			com = "# t\n"
		}
		before, after := &poEntry{id: "k", str: map[int]string{0: "l"}}, &poEntry{id: "x", ctx: "d", str: map[int]string{0: "y"}}
		const kl, xy = "msgid \"k\"\nmsgstr \"l\"\n", "msgctxt \"d\"\nmsgid \"x\"\nmsgstr \"y\"\n"
		dims := make([]int, len(parts)+1)
		for k := range dims {
			dims[k] = len(gaps)
		}
		c.Par(size(dims), func(w, i int) {
			t := tuple(i, dims)
			text := com
			for k, p := range parts {
				if k > 0 {
					text += gaps[t[k]]
				}
				text += p
			}
			for _, file := range []struct {
				text string
				want poWant
			}{
				{gaps[t[0]] + text + gaps[t[len(parts)]], poWant{entries: []*poEntry{e}}},
				{kl + gaps[t[0]] + text + gaps[t[len(parts)]] + xy, poWant{entries: []*poEntry{before, e, after}}},
			} {
				for _, eol := range []string{"\n", "\r\n"} {
					text := strings.ReplaceAll(file.text, "\n", eol)
					c.caseW(w, func() string { return "blank lines " + q(text) }, func() string { return judgePO(text, file.want, true) })
				}
			}
		})
	}
}

// c04Blanks enumerates the blanks around every keyword of an entry.
func c04Blanks(c *C) {
	before := []string{"", " ", "\t", "  \t"}
	after := []string{" ", "", "\t", "   ", " \t "}
	end := []string{"", " ", "\t"}
	kws := []string{"msgctxt", "msgid", "msgid_plural", "msgstr[0]", "msgstr[1]"}
	vals := []string{"c", "i", "p", "s", "t"}
	dims := []int{1 << len(kws), len(before), len(after), len(end), 2}
	for i := 0; i < size(dims); i++ {
		t := tuple(i, dims)
		text := ""
		for k, kw := range kws {
			if t[0]&(1<<k) == 0 {
				text += kw + ` "` + vals[k] + `"` + "\n"
				continue
			}
			text += before[t[1]] + kw + after[t[2]] + `"` + vals[k] + `"` + end[t[3]] + "\n"
			if t[4] == 1 {
				text += before[t[1]] + `"+"` + end[t[3]] + "\n"
			}
		}
		v := slices.Clone(vals)
		for k := range v {
			if t[4] == 1 && t[0]&(1<<k) != 0 {
				v[k] += "+"
			}
		}
		e := &poEntry{ctx: v[0], id: v[1], plural: v[2], str: map[int]string{0: v[3], 1: v[4]}}
		c.Case(func() string { return "blanks " + q(text) }, func() string { return judgePO(text, poWant{entries: []*poEntry{e}}, true) })
	}
}

func c04Pairs(c *C) {
	eds := []int{3, len(poForms), 6, 6}
	n := size(eds)
	shape := func(i int) poShape {
		t := tuple(i, eds)
		return poShape{ctx: t[0], forms: t[1], spell: t[2], com: t[3]}
	}
	envs := [][4]int{} // separator, line end, header place, final newline
	product([]int{3, 2, 4, 2}, func(ix []int) { envs = append(envs, [4]int{ix[0], ix[1], ix[2], ix[3]}) })
	stride := 1
	if c.Quick() {
		stride = 4 // the second entry's shapes are thinned in the quick tier
	}
	c.Par(n, func(w, i int) {
		for j := 0; j < n; j += stride {
			for ev, env := range envs {
				if c.Quick() && (i+j/stride+ev)%6 != 0 {
					continue
				}
				a, b := shape(i), shape((j+i%stride)%n)
				sep := []string{"", "\n", "\n \n\n"}[env[0]]
				eol := []string{"\n", "\r\n"}[env[1]]
				sep = strings.ReplaceAll(sep, "\n", eol)
				ea, ta := a.build("alpha", eol)
				eb, tb := b.build("be\nta", eol)
				ec, tc := poShape{}.build("end \"quoted\" \\ text", eol)
				head := poSpell("msgid", "", 0, eol) + `msgstr ""` + eol + `"Language: xx\n"` + eol + `"X-Foo: a: b\n"` + eol
				want := poWant{entries: []*poEntry{ea, eb, ec}}
				parts := []string{ta, tb, tc}
				if env[2] < 3 {
					parts = slices.Insert(parts, env[2], head)
					want.header = map[string]string{"Language": "xx", "x-foo": "a: b"}
				}
				text := strings.Join(parts, sep)
				if env[3] == 1 {
					text = strings.TrimRight(text, "\r\n \t")
				}
				c.caseW(w, func() string { return "file " + q(text) }, func() string {
					if ev == 0 {
						c.Distinct(text)
					}
					return judgePO(text, want, true)
				})
			}
		}
	})
}

// ---- (c) escapes

func c04Escapes(c *C) {
	type piece struct{ raw, val string }
	pieces := []piece{{"a", "a"}, {`\n`, "\n"}, {`\t`, "\t"}, {`\"`, `"`}, {`\\`, `\`}, {"é", "é"}, {"日", "日"}, {" ", " "}, {"#", "#"}, {"%d", "%d"}, {`\r`, "\r"}, {`\a`, "\a"}, {`\b`, "\b"}, {`\f`, "\f"}, {`\v`, "\v"}, {`\x41`, "A"}, {`\xc3\xa9`, "é"}, {`\x1B`, "\x1b"}, {"\u2028", "\u2028"}, {"n", "n"}, {"msgid", "msgid"}, {"[", "["}, {"]", "]"}, {":", ":"}, {"'", "'"}, {"/", "/"}}
	depth := c.Pick(3, 4)
	for n := 1; n <= depth; n++ {
		dims := make([]int, n)
		for k := range dims {
			dims[k] = len(pieces)
		}
		c.Par(size(dims), func(w, i int) {
			t := tuple(i, dims)
			raw, val := "", ""
			for _, k := range t {
				raw += pieces[k].raw
				val += pieces[k].val
			}
			for field := 0; field < 5; field++ {
				v := [5]string{"c", "i", "p", "s0", "s1"}
				r := v
				v[field], r[field] = val, raw
				text := fmt.Sprintf("msgctxt \"%s\"\nmsgid \"%s\"\nmsgid_plural \"%s\"\nmsgstr[0] \"%s\"\nmsgstr[1] \"%s\"\n", r[0], r[1], r[2], r[3], r[4])
				e := &poEntry{ctx: v[0], id: v[1], plural: v[2], str: map[int]string{0: v[3], 1: v[4]}}
				c.caseW(w, func() string { return "escapes " + q(text) }, func() string {
					if field == 0 && n < 4 {
						c.Distinct(text)
					}
					return judgePO(text, poWant{entries: []*poEntry{e}}, field > 0 && n < 3)
				})
			}
		})
	}
}

// ---- (d) malformed lines, truncations, sizes

const c04Sample = `# head
msgid ""
msgstr ""
"Language: de\n"
"Plural-Forms: nplurals=2; plural=(n != 1);\n"

#: a.go:1
#, c-format
msgid "one %d"
msgid_plural "many %d"
msgstr[0] "eins %d"
msgstr[1] ""
"viele "
"%d"

msgctxt "ctx"
msgid "two"
msgstr "zwei"

#. last
msgid "three"
msgstr "drei"
`

func c04Malformed(c *C) {
	bad := []string{"foo", "msgid", "msgid a", `msgid "a`, `msgid a"`, "msgid '", `msgstr[x] "a"`, `msgstr[-1] "a"`, `msgstr[0 "a"`, `msgstr0] "a"`, `msgstr[] "a"`, `msgstr`, `msgstr a`, `msgstr "a" b`, `msgctx "a"`, `msgidx "a"`, `msgid_plura "p"`, `abc"def"`, `"abc`, `abc"`, `'abc'`, `~`, `;`, `msgstr[99999999999999999999] "x"`, `MSGID "a"`, `.`, `é`}
	lines := strings.SplitAfter(c04Sample, "\n")
	for pos := 0; pos <= len(lines)-1; pos++ {
		for _, b := range bad {
			for _, eol := range []string{"\n", "\r\n"} {
				text := strings.Join(lines[:pos], "") + b + "\n" + strings.Join(lines[pos:], "")
				text = strings.ReplaceAll(text, "\n", eol)
				c.Case(func() string { return fmt.Sprintf("malformed %q before line %d eol %q", b, pos+1, eol) }, func() string { return mustErrPO(text) })
			}
		}
	}
	// a string line where no keyword precedes it
	for _, at := range []int{0, 1, 5, 6, 7, 13, 17, 18} {
		text := strings.Join(lines[:at], "") + "\"stray\"\n" + strings.Join(lines[at:], "")
		if at == 0 || strings.HasPrefix(lines[at-1], "#") || lines[at-1] == "\n" {
			c.Case(func() string { return fmt.Sprintf("stray string before line %d", at+1) }, func() string { return mustErrPO(text) })
		}
	}
	// duplicates, in any distance, with and without context
	for _, ctx := range []string{"", "msgctxt \"ctx\"\n"} {
		for k := 0; k <= 3; k++ {
			for _, fuzzy := range []string{"", "#, fuzzy\n"} {
				text := ctx + "msgid \"d\"\nmsgstr \"1\"\n\n"
				for j := 0; j < k; j++ {
					text += fmt.Sprintf("msgid \"o%d\"\nmsgstr \"x\"\n\n", j)
				}
				text += fuzzy + ctx + "msgid \"d\"\nmsgstr \"2\"\n"
				c.Case(func() string { return "duplicate " + q(text) }, func() string { return mustErrPO(text) })
				head := "msgid \"\"\nmsgstr \"A: b\\n\"\n\n"
				c.Case(func() string { return "two headers " + q(text) }, func() string {
					return mustErrPO(head + text[:strings.Index(text, fuzzy+ctx+"msgid \"d\"\nmsgstr \"2\"")] + fuzzy + head)
				})
			}
		}
	}
	// truncations: an error, or the entries before the cut as they are
	full, err := po.Parse([]byte(c04Sample))
	if err != nil {
		c.Case(func() string { return "sample" }, func() string { return err.Error() })
		return
	}
	for cut := 0; cut <= len(c04Sample); cut++ {
		c.Case(func() string { return fmt.Sprintf("truncated at %d", cut) }, func() string {
			text := c04Sample[:cut]
			f, err := po.Parse([]byte(text))
			_, err2 := catalog.NewPoDecoder().Decode(language.German, "", []byte(text))
			if (err == nil) != (err2 == nil) {
				return fmt.Sprintf("Parse: %v, decoder: %v", err, err2)
			}
			if err != nil {
				return ""
			}
			for ctx, ms := range f.Messages {
				for id, m := range ms {
					o := full.GetMessage(ctx, id)
					if o == nil {
						return fmt.Sprintf("made-up entry %q", id)
					}
					for k, s := range m.Str {
						if !strings.HasPrefix(o.Str[k], s) {
							return fmt.Sprintf("%q: %q", id, s)
						}
					}
				}
			}
			// complete entries (followed by a blank line) are all there
			for _, e := range strings.Split(text, "\n\n") {
				if k := strings.Index(e, "msgid \"one"); k >= 0 && strings.Contains(e, "\"%d\"") {
					if m := f.GetMessage("", "one %d"); m == nil || m.Str[1] != "viele %d" {
						return "complete entry lost"
					}
				}
			}
			return ""
		})
	}
}

func c04Sizes(c *C) {
	// long strings around buffer sizes, as one line and as many
	for _, n := range []int{1, 100, 4094, 4095, 4096, 4097, 8191, 8192, 16384, 65000, 65534, 65535, 65536, 65537, 131072, 200000} {
		for how := 0; how < 3; how++ {
			for _, ch := range []string{"x", "é", `"`, "日"} {
				val := strings.Repeat(ch, n/len(ch)+1)
				e := &poEntry{id: "i" + val, ctx: "c" + val, plural: "p" + val, str: map[int]string{0: "s" + val, 1: "t" + val}}
				text := poSpell("msgctxt", e.ctx, how, "\n") + poSpell("msgid", e.id, how, "\n") + poSpell("msgid_plural", e.plural, how, "\n") + poSpell("msgstr[0]", e.str[0], how, "\n") + poSpell("msgstr[1]", e.str[1], how, "\n")
				text += "\nmsgid \"z\"\nmsgstr \"y\"\n"
				z := &poEntry{id: "z", str: map[int]string{0: "y"}}
				c.Case(func() string { return fmt.Sprintf("string of %d bytes %q spelling %d", n, ch, how) }, func() string {
					return judgePO(text, poWant{entries: []*poEntry{e, z}}, true)
				})
			}
		}
	}
	// many entries, continuation lines, forms, comments
	for _, n := range []int{1, 2, 3, 4, 5, 6, 19, 20, 21, 22, 40, 100, 255, 256, 257, 1000, 5000} {
		c.Case(func() string { return fmt.Sprintf("%d entries", n) }, func() string {
			var b bytes.Buffer
			var w poWant
			for k := 0; k < n; k++ {
				e := &poEntry{id: fmt.Sprintf("id%d", k), str: map[int]string{0: fmt.Sprintf("s%d", k)}}
				if k%3 == 1 {
					e.ctx = fmt.Sprintf("c%d", k%7)
					fmt.Fprintf(&b, "msgctxt %q\n", e.ctx)
				}
				if k%5 == 2 {
					e.flags = []string{"fuzzy"}
					b.Reset()
				}
				w.entries = append(w.entries, e)
			}
			b.Reset()
			for _, e := range w.entries {
				if e.fuzzy() {
					b.WriteString("#, fuzzy\n")
				}
				if e.ctx != "" {
					fmt.Fprintf(&b, "msgctxt %q\n", e.ctx)
				}
				fmt.Fprintf(&b, "msgid %q\nmsgstr %q\n\n", e.id, e.str[0])
			}
			if n > 300 {
				f, err := po.Parse(b.Bytes())
				if err != nil {
					return err.Error()
				}
				return comparePO(f, w, 2)
			}
			return judgePO(b.String(), w, true)
		})
		c.Case(func() string { return fmt.Sprintf("%d continuation lines", n) }, func() string {
			val := ""
			text := "msgid \"a\"\nmsgstr \"\"\n"
			for k := 0; k < n; k++ {
				val += fmt.Sprintf("l%d\n", k)
				text += fmt.Sprintf("\"l%d\\n\"\n", k)
			}
			return judgePO(text, poWant{entries: []*poEntry{{id: "a", str: map[int]string{0: val}}}}, true)
		})
		if n <= 300 {
			c.Case(func() string { return fmt.Sprintf("%d plural forms", n) }, func() string {
				e := &poEntry{id: "a", plural: "b", str: map[int]string{}}
				text := "msgid \"a\"\nmsgid_plural \"b\"\n"
				for k := 0; k < n; k++ {
					e.str[k] = fmt.Sprintf("f%d-%d", k, k)
					text += fmt.Sprintf("msgstr[%d] \"f%d\"\n\"-%d\"\n", k, k, k)
				}
				return judgePO(text, poWant{entries: []*poEntry{e}}, true)
			})
			c.Case(func() string { return fmt.Sprintf("%d comment lines", n) }, func() string {
				e := &poEntry{id: "a", str: map[int]string{0: "b"}}
				text := ""
				for k := 0; k < n; k++ {
					e.trans = append(e.trans, fmt.Sprintf("t%d", k))
					e.extr = append(e.extr, fmt.Sprintf("e%d", k))
					e.refs = append(e.refs, poRef{fmt.Sprintf("f%d.go", k), k + 1})
					e.flags = append(e.flags, fmt.Sprintf("flag%d", k))
					text += fmt.Sprintf("# t%d\n#. e%d\n#: f%d.go:%d\n#, flag%d\n", k, k, k, k+1, k)
				}
				return judgePO(text+"msgid \"a\"\nmsgstr \"b\"\n", poWant{entries: []*poEntry{e}}, true)
			})
		}
	}
}
