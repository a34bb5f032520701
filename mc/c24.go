package main

import (
	"fmt"
	"maps"
	"slices"
	"sort"
	"strings"

	"github.com/vorlif/spreak/catalog/po"
)

func init() {
	register(&Check{ID: "C24", Level: "model_checking",
		Rule: "every sequence of additions up to the depth over an alphabet of messages with overlapping ids, contexts, references, flags, comment lines and plural ids, through File.AddMessage, Messages.Add, Message.Merge and Comment.Merge; the reference model keeps sets. A state is the abstract content of the file, a transition one addition.",
		Run:  runC24})
	register(&Check{ID: "C25", Level: "model_checking",
		Rule: "every sequence of header assignments up to the depth over known and unknown keys in several spellings; after each history every key is read in every spelling, and again after the header was written to a PO file and parsed. A state is the abstract header, a transition one assignment.",
		Run:  runC25})
}

type c24msg struct {
	ctx, id, pl string
	refs        []po.Reference
	flags       []string
	trans, extr string
	str         string
	noComment   bool
}

func (m c24msg) build() *po.Message {
	x := po.NewMessage()
	x.Context, x.ID, x.IDPlural = m.ctx, m.id, m.pl
	if m.str != "" {
		x.Str[0] = m.str
	}
	if m.noComment {
		x.Comment = nil
		return x
	}
	if len(m.refs)%2 == 1 {
		x.Comment = nil // made when needed
	}
	for _, r := range m.refs {
		r := r
		x.AddReference(&r)
	}
	for _, f := range m.flags {
		x.Comment.AddFlag(f)
	}
	x.Comment.Translator, x.Comment.Extracted = m.trans, m.extr
	return x
}

type c24entry struct {
	pl, str                  string
	refs, flags, trans, extr map[string]bool
	merged                   bool
}

func lineSet(s string) map[string]bool {
	out := map[string]bool{}
	for _, l := range strings.Split(s, "\n") {
		if l = strings.TrimSpace(l); l != "" {
			out[l] = true
		}
	}
	return out
}

func refKey(r po.Reference) string { return fmt.Sprintf("%s:%06d:%06d", r.Path, r.Line, r.Column) }

func (e *c24entry) add(m c24msg) {
	if e.refs == nil {
		e.refs, e.flags, e.trans, e.extr = map[string]bool{}, map[string]bool{}, map[string]bool{}, map[string]bool{}
		e.str = m.str
	} else {
		e.merged = true
	}
	if e.pl == "" {
		e.pl = m.pl
	}
	if m.noComment {
		return
	}
	for _, r := range m.refs {
		e.refs[refKey(r)] = true
	}
	for _, f := range m.flags {
		e.flags[f] = true
	}
	for l := range lineSet(m.trans) {
		e.trans[l] = true
	}
	for l := range lineSet(m.extr) {
		e.extr[l] = true
	}
}

func (e *c24entry) String() string {
	return fmt.Sprintf("%q %q refs %s flags %s # %s #. %s", e.pl, e.str, setOf(e.refs), setOf(e.flags), setOf(e.trans), setOf(e.extr))
}

// c24Read is the abstract content of a real message; note names a defect of its lists.
func c24Read(m *po.Message, sorted bool) (string, string) {
	e := &c24entry{pl: m.IDPlural, str: m.Str[0], refs: map[string]bool{}, flags: map[string]bool{}, trans: map[string]bool{}, extr: map[string]bool{}}
	if m.Comment == nil {
		return e.String(), ""
	}
	var refs []string
	for _, r := range m.Comment.References {
		refs = append(refs, refKey(*r))
		e.refs[refKey(*r)] = true
	}
	for _, f := range m.Comment.Flags {
		e.flags[f] = true
	}
	e.trans, e.extr = lineSet(m.Comment.Translator), lineSet(m.Comment.Extracted)
	note := ""
	if len(refs) != len(e.refs) {
		note = fmt.Sprint("references listed twice: ", refs)
	}
	if len(m.Comment.Flags) != len(e.flags) {
		note = fmt.Sprint("flags listed twice: ", m.Comment.Flags)
	}
	for _, s := range []string{m.Comment.Translator, m.Comment.Extracted} {
		var ls []string
		for _, l := range strings.Split(s, "\n") {
			if l != "" {
				ls = append(ls, l)
			}
		}
		if len(ls) != len(lineSet(s)) {
			note = "comment line twice: " + q(s)
		}
	}
	if !sort.StringsAreSorted(refs) {
		note = fmt.Sprint("references not sorted: ", refs)
	}
	if !sort.StringsAreSorted(m.Comment.Flags) {
		note = fmt.Sprint("flags not sorted: ", m.Comment.Flags)
	}
	return e.String(), note
}

func runC24(c *C) {
	r := func(p string, l, col int) po.Reference { return po.Reference{Path: p, Line: l, Column: col} }
	alpha := []c24msg{
		{ctx: "", id: "a", refs: []po.Reference{r("b.go", 2, 1)}, flags: []string{"go-format"}, trans: "t1", str: "S1"},
		{ctx: "", id: "a", refs: []po.Reference{r("a.go", 10, 1), r("a.go", 9, 1)}, flags: []string{"fuzzy", "xspreak"}, trans: "t2\nt1", extr: "e1", pl: "as"},
		{ctx: "", id: "a", refs: []po.Reference{r("b.go", 2, 1), r("b.go", 2, 0)}, extr: "e2\ne1\ne3", flags: []string{"go-format", "a-flag"}},
		{ctx: "", id: "a", noComment: true, pl: "as", str: "S2"},
		{ctx: "", id: "a", trans: "t1\nt3\n", extr: "e2"},
		{ctx: "c", id: "a", refs: []po.Reference{r("b.go", 2, 1)}, flags: []string{"fuzzy"}, trans: "ct", pl: "cas"},
		{ctx: "c", id: "a", refs: []po.Reference{r("a.go", 1, 2), r("c.go", 0, 0)}, extr: "ce"},
		{ctx: "", id: "b", refs: []po.Reference{r("b.go", 2, 1), r("b.go", 11, 3)}, flags: []string{"go-format"}},
		{ctx: "", id: "b", noComment: true},
		{ctx: "", id: "b", pl: "bs", trans: "t1", flags: []string{"fuzzy"}},
		{ctx: "c", id: "c", trans: "t1", str: "S3"},
		{ctx: "", id: "", refs: []po.Reference{r("x.go", 1, 1)}},
		{ctx: "", id: "c", flags: []string{"z", "y", "x", "Y"}, trans: "n\nN", refs: []po.Reference{r("", 5, 0), r("a.go", 0, 0)}},
	}
	keyOf := func(m c24msg) string { return m.ctx + "\x04" + m.id }
	model := func(seq []int) map[string]*c24entry {
		out := map[string]*c24entry{}
		for _, k := range seq {
			if alpha[k].id == "" {
				continue
			}
			e := out[keyOf(alpha[k])]
			if e == nil {
				e = &c24entry{}
				out[keyOf(alpha[k])] = e
			}
			e.add(alpha[k])
		}
		return out
	}
	compare := func(ms po.Messages, want map[string]*c24entry) string {
		n := 0
		for ctx, x := range ms {
			for id, m := range x {
				n++
				e := want[ctx+"\x04"+id]
				if e == nil {
					return fmt.Sprintf("unexpected message %q %q", ctx, id)
				}
				if m.Context != ctx || m.ID != id {
					return fmt.Sprintf("message %q %q stored under %q %q", m.Context, m.ID, ctx, id)
				}
				got, note := c24Read(m, e.merged)
				if d := diff("entry "+ctx+"/"+id, got, e.String()); d != "" {
					return d
				}
				if note != "" {
					return note
				}
			}
		}
		if n != len(want) {
			return fmt.Sprintf("%d messages, want %d", n, len(want))
		}
		return ""
	}
	depth := c.Pick(5, 6)
	n := len(alpha)
	for d := 1; d <= depth; d++ {
		dims := make([]int, d)
		for k := range dims {
			dims[k] = n
		}
		c.Par(size(dims), func(w, i int) {
			seq := tuple(i, dims)
			c.caseW(w, func() string { return fmt.Sprint("add ", seq) }, func() string {
				want := model(seq)
				var keys []string
				for k, e := range want {
					keys = append(keys, k+e.String())
				}
				slices.Sort(keys)
				c.Distinct(strings.Join(keys, "\n"))
				c.trans.Add(int64(d))
				f := po.NewFile()
				if i%2 == 1 {
					f = &po.File{}
				}
				ptrs := make([]*po.Message, len(seq))
				for k, s := range seq {
					ptrs[k] = alpha[s].build()
					if i%3 == 0 && alpha[s].id != "" && f.Messages != nil {
						f.Messages.Add(ptrs[k])
					} else {
						f.AddMessage(ptrs[k])
					}
				}
				if x := compare(f.Messages, want); x != "" {
					return x
				}
				for _, s := range seq {
					if m := alpha[s]; m.id != "" {
						if g := f.GetMessage(m.ctx, m.id); g == nil || g.ID != m.id || g.Context != m.ctx {
							return "GetMessage does not find " + q(m.id)
						}
					}
				}
				if f.GetMessage("zz", "a") != nil || f.GetMessage("", "zz") != nil {
					return "GetMessage finds a message that was never added"
				}
				// what was merged into another message is not changed by that
				seen := map[string]bool{}
				for k, s := range seq {
					m := alpha[s]
					if m.id == "" || !seen[keyOf(m)] {
						seen[keyOf(m)] = true
						continue
					}
					one := &c24entry{}
					one.add(m)
					if got, _ := c24Read(ptrs[k], false); got != one.String() {
						return diff("message that was added to another", got, one.String())
					}
				}
				// adding everything again changes nothing, be it a copy or the same object
				for k, s := range seq {
					if (k+i)%2 == 0 {
						f.AddMessage(alpha[s].build())
					} else {
						f.AddMessage(ptrs[k])
					}
				}
				if x := compare(f.Messages, want); x != "" {
					return "after adding again: " + x
				}
				return ""
			})
		})
	}
	// merging whole messages and comments, any grouping
	for a := range alpha {
		for b := range alpha {
			for d := range alpha {
				if keyOf(alpha[a]) != keyOf(alpha[b]) || keyOf(alpha[b]) != keyOf(alpha[d]) || alpha[a].id == "" {
					continue
				}
				c.Case(func() string { return fmt.Sprint("merge ", a, b, d) }, func() string {
					c.trans.Add(4)
					want := model([]int{a, b, d})[keyOf(alpha[a])]
					x, y := alpha[a].build(), alpha[b].build()
					x.Merge(y)
					x.Merge(alpha[d].build())
					x.Merge(nil)
					got, note := c24Read(x, true)
					if d := diff("merged", got, want.String()) + note; d != "" {
						return d
					}
					p := alpha[a].build()
					right := alpha[b].build()
					right.Merge(alpha[d].build())
					p.Merge(right)
					got, note = c24Read(p, true)
					if d := diff("merged in pairs", got, want.String()) + note; d != "" {
						return d
					}
					cm := po.NewComment()
					for _, k := range []int{a, b, d} {
						cm.Merge(alpha[k].build().Comment)
					}
					m := po.NewMessage()
					m.Comment = cm
					got, note = c24Read(m, true)
					w := *want
					w.pl, w.str = "", ""
					return diff("comments", got, w.String()) + note
				})
			}
		}
	}
	// building a comment step by step
	flags := []string{"b", "a", "B", "fuzzy", "b "}
	product([]int{6, 6, 6, 6, 6}, func(ix []int) {
		seq := slices.Clone(ix)
		c.Case(func() string { return fmt.Sprint("flags and references ", seq) }, func() string {
			cm := po.NewComment()
			want := map[string]bool{}
			nref := 0
			for _, k := range seq {
				c.trans.Add(1)
				if k < len(flags) {
					cm.AddFlag(flags[k])
					want[flags[k]] = true
					if !cm.HasFlag(flags[k]) {
						return "flag not found"
					}
				} else {
					cm.AddReference(&po.Reference{Path: "p", Line: 9 - nref})
					nref++
				}
			}
			for _, f := range flags {
				if cm.HasFlag(f) != want[f] {
					return "HasFlag " + f
				}
			}
			if strings.Join(cm.Flags, ",") != setOf(want) {
				return fmt.Sprint("flags ", cm.Flags)
			}
			if len(cm.References) != nref {
				return fmt.Sprint("references ", len(cm.References))
			}
			for k := 1; k < nref; k++ {
				if cm.References[k-1].Line > cm.References[k].Line {
					return "references not sorted"
				}
			}
			return ""
		})
	})
}

var knownHeaders = []string{"Project-Id-Version", "Report-Msgid-Bugs-To", "POT-Creation-Date", "PO-Revision-Date", "Last-Translator", "Language-Team", "Language", "MIME-Version", "Content-Type", "Content-Transfer-Encoding", "Plural-Forms", "X-Generator"}

func headerField(h *po.Header, k int) string {
	return []string{h.ProjectIDVersion, h.ReportMsgidBugsTo, h.POTCreationDate, h.PORevisionDate, h.LastTranslator, h.LanguageTeam, h.Language, h.MimeVersion, h.ContentType, h.ContentTransferEncoding, h.PluralForms, h.XGenerator}[k]
}

func spell(k string, how int) string {
	switch how {
	case 1:
		return strings.ToLower(k)
	case 2:
		return strings.ToUpper(k)
	case 3:
		b := []byte(strings.ToLower(k))
		for i := 0; i < len(b); i += 3 {
			b[i] = strings.ToUpper(string(b[i]))[0]
		}
		return string(b)
	}
	return k
}

func runC25(c *C) {
	unknown := []string{"X-Foo", "X-Bar", "X-Foo-Bar", "Language-Code", "X", "Plural"}
	all := append(slices.Clone(knownHeaders), unknown...)
	type op struct {
		key, how int
	}
	run := func(seq []op, vals func(i int) string) string {
		h := &po.Header{}
		want := map[int]string{}
		for i, o := range seq {
			c.trans.Add(1)
			h.Set(spell(all[o.key], o.how), vals(i))
			want[o.key] = vals(i)
		}
		check := func(h *po.Header, what string) string {
			for k, name := range all {
				for how := 0; how < 4; how++ {
					if d := diff(what+" Get "+spell(name, how), h.Get(spell(name, how)), want[k]); d != "" {
						return d
					}
				}
				if k < len(knownHeaders) {
					if d := diff(what+" field "+name, headerField(h, k), want[k]); d != "" {
						return d
					}
				}
			}
			if s := h.Get("X-Never-Set") + h.Get("") + h.Get("X-Fo") + h.Get("anguage"); s != "" {
				return what + " value under a key never set: " + s
			}
			return ""
		}
		if d := check(h, ""); d != "" {
			return d
		}
		f := po.NewFile()
		f.Header = h
		b, err := po.Marshal(f)
		if err != nil {
			return err.Error()
		}
		g, err := po.Parse(b)
		if err != nil {
			return fmt.Sprintf("written as %q: %v", b, err)
		}
		if g.Header == nil {
			return "no header read"
		}
		if d := check(g.Header, "after writing and reading"); d != "" {
			return fmt.Sprintf("%s (%q)", d, b)
		}
		return ""
	}
	state := func(seq []op, vals func(i int) string) string {
		m := map[int]string{}
		for i, o := range seq {
			m[o.key] = vals(i)
		}
		return fmt.Sprint(m)
	}
	ops := []op{}
	for k := range all {
		for how := 0; how < 4; how++ {
			ops = append(ops, op{k, how})
		}
	}
	valueSets := []func(i int) string{
		func(i int) string { return fmt.Sprintf("value %d", i) },
		func(i int) string { return []string{"a", "", "b"}[i%3] },
	}
	n := len(ops)
	for d := 1; d <= c.Pick(2, 3); d++ {
		dims := make([]int, d)
		for k := range dims {
			dims[k] = n
		}
		c.Par(size(dims), func(w, i int) {
			t := tuple(i, dims)
			seq := make([]op, d)
			for k, x := range t {
				seq[k] = ops[x]
			}
			for vi, v := range valueSets {
				c.caseW(w, func() string {
					return fmt.Sprint("set ", c25Name(all, seqPairs(t, ops, func(o op) (int, int) { return o.key, o.how })), " values ", vi)
				}, func() string {
					c.Distinct(state(seq, v))
					return run(seq, v)
				})
			}
		})
	}
	// longer histories over few keys
	few := []op{{0, 0}, {6, 1}, {5, 0}, {12, 0}, {12, 2}, {14, 1}, {13, 3}, {15, 0}}
	depth := c.Pick(5, 6)
	dims := make([]int, depth)
	for k := range dims {
		dims[k] = len(few)
	}
	c.Par(size(dims), func(w, i int) {
		t := tuple(i, dims)
		seq := make([]op, depth)
		for k, x := range t {
			seq[k] = few[x]
		}
		c.caseW(w, func() string { return fmt.Sprint("long ", t) }, func() string {
			c.Distinct(state(seq, valueSets[0]))
			return run(seq, valueSets[0])
		})
	})
	// keys that differ from another one in a single character
	c.Par(len(all), func(w, k int) {
		name := all[k]
		near := map[string]bool{}
		for i := 0; i <= len(name); i++ {
			for _, x := range []string{"", "_", "-", ".", " ", "x", "S", "0", "/"} {
				near[name[:i]+x+name[i:]] = true
				if i < len(name) {
					near[name[:i]+x+name[i+1:]] = true
				}
			}
			if i+1 < len(name) {
				near[name[:i]+name[i+1:i+2]+name[i:i+1]+name[i+2:]] = true
			}
		}
		for _, x := range []string{"_", ".", " ", ""} {
			near[strings.ReplaceAll(name, "-", x)] = true
		}
		for _, other := range slices.Sorted(maps.Keys(near)) {
			taken := strings.TrimSpace(other) != other || other == ""
			for _, a := range all {
				taken = taken || strings.EqualFold(a, other)
			}
			if taken {
				continue
			}
			for order := 0; order < 4; order++ {
				c.caseW(w, func() string { return fmt.Sprintf("keys %q and %q order %d", name, other, order) }, func() string {
					a, b := name, other
					if order&1 == 1 {
						a, b = other, name
					}
					h := &po.Header{}
					h.Set(a, "first")
					if order&2 == 0 {
						h.Set(b, "second")
					}
					want := map[string]string{a: "first"}
					if order&2 == 0 {
						want[b] = "second"
					}
					f := po.NewFile()
					f.Header = h
					text, err := po.Marshal(f)
					if err != nil {
						return err.Error()
					}
					g, err := po.Parse(text)
					if err != nil {
						return err.Error()
					}
					for how := 0; how < 4; how++ {
						for _, key := range []string{a, b} {
							if d := diff("Get "+spell(key, how), h.Get(spell(key, how)), want[key]); d != "" {
								return d
							}
							if d := diff("after writing and reading: Get "+spell(key, how), g.Header.Get(spell(key, how)), want[key]); d != "" {
								return d
							}
						}
					}
					c.Distinct(other)
					return ""
				})
			}
		}
	})
	// values
	for _, v := range []string{"0", "1", "-", "none", "null", "false", "true", "[]", "nplurals=2; plural=(n != 1);", "a: b", ":", "é 日本", `say "x" \ y`, "tab\tx", strings.TrimSpace(strings.Repeat("long ", 40)), "#, fuzzy", "msgid", "%d", "a\\nb", "X-Foo: y", "<a@b.c>", strings.Repeat("é", 200)} {
		for k := range all {
			c.Case(func() string { return fmt.Sprintf("value %q in %s", v, all[k]) }, func() string {
				return run([]op{{k, 0}, {(k + 1) % len(all), 0}}, func(i int) string {
					if i == 0 {
						return v
					}
					return "other"
				})
			})
		}
	}
	// many unknown fields
	for _, n := range []int{7, 8, 9, 17, 100} {
		c.Case(func() string { return fmt.Sprint("unknown fields: ", n) }, func() string {
			h := &po.Header{}
			for k := 0; k < n; k++ {
				h.Set(fmt.Sprintf("X-Field-%d", k), fmt.Sprint("old", k))
			}
			for k := 0; k < n; k++ {
				h.Set(fmt.Sprintf("x-FIELD-%d", k), fmt.Sprint("v", k))
			}
			f := po.NewFile()
			f.Header = h
			b, _ := po.Marshal(f)
			g, err := po.Parse(b)
			if err != nil {
				return err.Error()
			}
			for k := 0; k < n; k++ {
				key := fmt.Sprintf("X-field-%d", k)
				if h.Get(key) != fmt.Sprint("v", k) || g.Header.Get(key) != fmt.Sprint("v", k) {
					return fmt.Sprintf("%s: %q %q", key, h.Get(key), g.Header.Get(key))
				}
			}
			return ""
		})
	}
}

func seqPairs[T any](t []int, ops []T, f func(T) (int, int)) [][2]int {
	var out [][2]int
	for _, x := range t {
		a, b := f(ops[x])
		out = append(out, [2]int{a, b})
	}
	return out
}

func c25Name(all []string, p [][2]int) string {
	var s []string
	for _, x := range p {
		s = append(s, spell(all[x[0]], x[1]))
	}
	return strings.Join(s, " ")
}
