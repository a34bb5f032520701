package main

import (
	"bytes"
	"encoding/json"
	"fmt"
	"reflect"
	"sort"
	"strings"

	"golang.org/x/text/language"

	"github.com/vorlif/spreak/catalog"
	"github.com/vorlif/spreak/catalog/cldrplural"
)

func init() {
	register(&Check{ID: "C14", Level: "exploration",
		Rule: "every message over key x context x comment x (absent, empty or a text for each of the six categories, or a plain string) in languages with 1 to 6 categories; every ordered pair and triple of a reduced set of messages in one file; every text of a set of awkward texts in every slot, raw and escaped; key spellings, wrong value types, truncations of whole files. Every key, context and category is looked up, the messages read are compared, and the catalog is encoded and decoded again. Non-trivial: files that are accepted.",
		Run:  runC14})
}

var catNames = []string{"zero", "one", "two", "few", "many", "other"}
var catVals = []cldrplural.Category{cldrplural.Zero, cldrplural.One, cldrplural.Two, cldrplural.Few, cldrplural.Many, cldrplural.Other}

// jm is one message as written.
type jm struct {
	key, ctx, comment string
	plain             bool
	vals              [6]*string // nil: absent
}

func jq(s string, esc bool) string {
	if !esc {
		var b bytes.Buffer
		e := json.NewEncoder(&b)
		e.SetEscapeHTML(false)
		_ = e.Encode(s)
		return strings.TrimSuffix(b.String(), "\n")
	}
	var b strings.Builder
	b.WriteByte('"')
	for _, r := range s {
		if r >= 0x10000 {
			r -= 0x10000
			fmt.Fprintf(&b, "\\u%04X\\u%04x", 0xD800+r>>10, 0xDC00+r&0x3FF)
		} else {
			fmt.Fprintf(&b, "\\u%04x", r)
		}
	}
	b.WriteByte('"')
	return b.String()
}

func (m jm) text(esc bool) string {
	if m.plain {
		return jq(m.key, esc) + ": " + jq(*m.vals[5], esc)
	}
	var p []string
	if m.comment != "" {
		p = append(p, `"comment": `+jq(m.comment, esc))
	}
	if m.ctx != "" {
		p = append(p, `"context": `+jq(m.ctx, esc))
	}
	for k, v := range m.vals {
		if v != nil {
			p = append(p, `"`+catNames[k]+`": `+jq(*v, esc))
		}
	}
	return jq(m.key, esc) + ": {" + strings.Join(p, ", ") + "}"
}

func (m jm) valid() bool {
	return m.key != "" && m.vals[5] != nil && (m.ctx == "" || strings.HasSuffix(m.key, "_"+m.ctx))
}

// norm is the message after adding and removing categories.
func (m jm) norm(cats []bool) jm {
	n := 0
	for _, v := range m.vals {
		if v != nil {
			n++
		}
	}
	if n == 1 && m.vals[5] != nil {
		return m
	}
	empty := ""
	for k := range m.vals {
		if !cats[k] {
			m.vals[k] = nil
		} else if m.vals[k] == nil {
			m.vals[k] = &empty
		}
	}
	return m
}

type jlang struct {
	tag  language.Tag
	ref  *cldrLang
	cats []bool
}

func (l jlang) category(n int64) int {
	c := l.ref.category(dec{i: n})
	for k, v := range catVals {
		if v == c {
			return k
		}
	}
	panic("category")
}

func jlangs(names ...string) []jlang {
	var out []jlang
	for _, name := range names {
		want, _, _ := strings.Cut(name, "=")
		tagName := want
		if _, b, ok := strings.Cut(name, "="); ok {
			want = b
		}
		for _, g := range cldrLangs() {
			for _, n := range g.names {
				if n == want {
					cats := make([]bool, 6)
					cats[5] = true
					for _, c := range g.cats {
						for k, v := range catVals {
							cats[k] = cats[k] || v == c
						}
					}
					out = append(out, jlang{language.MustParse(tagName), g, cats})
				}
			}
		}
	}
	return out
}

var jNums = []int64{0, 1, 2, 3, 5, 6, 7, 8, 11, 21, 100, 101, 103, 111, 1000000}

func msgEq(got *catalog.JSONMessage, m jm) string {
	if got == nil {
		return "nil message"
	}
	want := map[cldrplural.Category]string{}
	for k, v := range m.vals {
		if v != nil {
			want[catVals[k]] = *v
		}
	}
	if got.Comment != m.comment || got.Context != m.ctx || !reflect.DeepEqual(got.Translations, want) {
		return fmt.Sprintf("message %q is %+v, want context %q comment %q %v", m.key, *got, m.ctx, m.comment, want)
	}
	return ""
}

func jsonCompare(cat catalog.Catalog, l jlang, msgs []jm, ids, ctxs []string) string {
	jc, ok := cat.(catalog.JSONCatalog)
	if !ok {
		return "not a JSONCatalog"
	}
	byKey := map[string]jm{}
	for _, m := range msgs {
		byKey[m.key] = m.norm(l.cats)
	}
	got := jc.Messages()
	if len(got) != len(byKey) {
		return fmt.Sprintf("%d messages, want %d", len(got), len(byKey))
	}
	for k, m := range byKey {
		if d := msgEq(got[k], m); d != "" {
			return d
		}
	}
	if jc.Language() != l.tag || jc.Domain() != "dom" {
		return "language or domain changed"
	}
	for _, ctx := range ctxs {
		for _, id := range ids {
			key := id
			if ctx != "" {
				key += "_" + ctx
			}
			m, ok := byKey[key]
			if ok && m.ctx != ctx {
				ok = false
			}
			s, err := cat.Lookup(ctx, id)
			want := ""
			if ok {
				want = *m.vals[5]
			}
			if want == "" {
				if err == nil {
					return fmt.Sprintf("Lookup(%q,%q) = %q without error", ctx, id, s)
				}
			} else if err != nil || s != want {
				return fmt.Sprintf("Lookup(%q,%q) = %q,%v want %q", ctx, id, s, err, want)
			}
			for _, n := range jNums {
				s, err := cat.LookupPlural(ctx, id, n)
				want := ""
				if ok {
					if v := m.vals[l.category(n)]; v != nil {
						want = *v
					}
				}
				if want == "" {
					if err == nil {
						return fmt.Sprintf("LookupPlural(%q,%q,%d) = %q without error", ctx, id, n, s)
					}
				} else if err != nil || s != want {
					return fmt.Sprintf("LookupPlural(%q,%q,%d) = %q,%v want %q", ctx, id, n, s, err, want)
				}
			}
		}
	}
	return ""
}

// jsonFile checks one file given by its messages.
func jsonFile(c *C, l jlang, msgs []jm, esc bool) string {
	parts := make([]string, len(msgs))
	ok := true
	ids, ctxs := map[string]bool{"a": true, "": true}, map[string]bool{"": true, "c": true}
	for k, m := range msgs {
		parts[k] = m.text(esc)
		ok = ok && m.valid()
		ids[m.key] = true
		ctxs[m.ctx] = true
		if i := strings.Index(m.key, "_"); i >= 0 {
			ids[m.key[:i]] = true
			ctxs[m.key[i+1:]] = true
		}
		if i := strings.LastIndex(m.key, "_"); i >= 0 {
			ids[m.key[:i]] = true
			ctxs[m.key[i+1:]] = true
		}
	}
	text := "{" + strings.Join(parts, ", ") + "}"
	cat, err := catalog.NewJSONDecoder().Decode(l.tag, "dom", []byte(text))
	if ok != (err == nil) {
		return fmt.Sprintf("%s: error %v, valid: %v", text, err, ok)
	}
	src := catalog.JSONMessages{}
	for _, m := range msgs {
		j := &catalog.JSONMessage{Comment: m.comment, Context: m.ctx, Translations: map[cldrplural.Category]string{}}
		for k, v := range m.vals {
			if v != nil {
				j.Translations[catVals[k]] = *v
			}
		}
		src[m.key] = j
	}
	cat2, err2 := catalog.NewJSONCatalogWithMessages(l.tag, "dom", src)
	if ok != (err2 == nil) {
		return fmt.Sprintf("NewJSONCatalogWithMessages %s: error %v, valid: %v", text, err2, ok)
	}
	cat3 := catalog.NewJSONCatalog(l.tag, "dom")
	err3 := json.Unmarshal([]byte(text), cat3)
	if ok != (err3 == nil) {
		return fmt.Sprintf("json.Unmarshal %s: error %v, valid: %v", text, err3, ok)
	}
	for _, m := range msgs {
		if d := msgEq(src[m.key], m); d != "" {
			return "NewJSONCatalogWithMessages changed its argument: " + d
		}
	}
	if !ok {
		return ""
	}
	is, cs := keysOf(ids), keysOf(ctxs)
	if d := jsonCompare(cat, l, msgs, is, cs); d != "" {
		return text + ": " + d
	}
	if d := jsonCompare(cat2, l, msgs, is, cs); d != "" {
		return "from messages " + text + ": " + d
	}
	if err := json.Unmarshal([]byte(text), cat3); err != nil {
		return text + " read once more: " + err.Error()
	}
	if d := jsonCompare(cat3, l, msgs, is, cs); d != "" {
		return "unmarshalled twice " + text + ": " + d
	}
	if m, err := json.Marshal(cat3); err != nil {
		return "json.Marshal: " + err.Error()
	} else {
		cat4 := catalog.NewJSONCatalog(l.tag, "dom")
		if err := json.Unmarshal(m, cat4); err != nil {
			return fmt.Sprintf("%s: marshalled as %s: %v", text, m, err)
		}
		if d := jsonCompare(cat4, l, msgs, is, cs); d != "" {
			return fmt.Sprintf("%s: marshalled as %s: %s", text, m, d)
		}
	}
	var b1, b2 bytes.Buffer
	if err := catalog.NewJSONEncoder(&b1).Encode(cat.(catalog.JSONCatalog)); err != nil {
		return text + ": encoding: " + err.Error()
	}
	again, err := catalog.NewJSONDecoder().Decode(l.tag, "dom", b1.Bytes())
	if err != nil {
		return fmt.Sprintf("%s: encoded as %s: %v", text, b1.String(), err)
	}
	if d := jsonCompare(again, l, msgs, is, cs); d != "" {
		return fmt.Sprintf("%s: encoded as %s: %s", text, b1.String(), d)
	}
	_ = catalog.NewJSONEncoder(&b2).Encode(again.(catalog.JSONCatalog))
	if b1.String() != b2.String() {
		return fmt.Sprintf("encoding is no fixpoint: %s, then %s", b1.String(), b2.String())
	}
	for _, m := range msgs {
		j := src[m.key]
		catalog.ApplyPluralCategoriesToJSONMessage(l.tag, j)
		if d := msgEq(j, m.norm(l.cats)); d != "" {
			return "ApplyPluralCategoriesToJSONMessage: " + d
		}
	}
	c.Distinct(text)
	c.Outcome(b1.String())
	return ""
}

func keysOf(m map[string]bool) []string {
	var out []string
	for k := range m {
		out = append(out, k)
	}
	sort.Strings(out)
	return out
}

func runC14(c *C) {
	langs := jlangs("en", "ja", "ar", "pl", "fr", "cy", "sl", "qaa=en", "pt-AO=pt", "pt-PT=pt_PT", "de-AT=de")
	vals := []*string{nil, ptr(""), ptr("X")}
	shapes := size([]int{3, 3, 3, 3, 3, 3})
	type kc struct{ key, ctx, comment string }
	kcs := []kc{{"a", "", ""}, {"a_c", "c", ""}, {"a", "c", ""}, {"a_c", "", ""}, {"a_c", "c", "note"}, {"a", "", "note"}, {"c", "c", ""}, {"ac", "c", ""}, {"a_c_d", "c_d", ""}, {"a_c_d", "d", ""}, {"a_c_d", "c", ""}, {"", "", ""}, {"_c", "c", ""}, {"_c", "", ""}, {"a_", "", "n"}, {"a_C", "c", ""}, {"a_c", "C", ""}, {"A_c", "c", ""}, {"a_c ", "c", ""}, {"a_c", " c", ""}, {"a_c", "_c", ""}, {"a__c", "_c", ""}, {"a__c", "c", ""}, {"a_ſ", "s", ""}}
	langN := c.Pick(len(langs), len(langs))
	c.Par(shapes*len(kcs), func(w, i int) {
		t := tuple(i, []int{len(kcs), 3, 3, 3, 3, 3, 3})
		k := kcs[t[0]]
		m := jm{key: k.key, ctx: k.ctx, comment: k.comment}
		for j := range m.vals {
			m.vals[j] = vals[t[1+j]]
			if m.vals[j] != nil && *m.vals[j] == "X" {
				m.vals[j] = ptr("T" + catNames[j])
			}
		}
		for li := 0; li < langN; li++ {
			if c.Quick() && t[0] > 2 && li%4 != t[0]%4 {
				continue
			}
			l := langs[li]
			c.caseW(w, func() string { return l.tag.String() + " {" + m.text(false) + "}" }, func() string { return jsonFile(c, l, []jm{m}, false) })
		}
	})
	// a message on its own
	for _, in := range []string{"", "c"} {
		for _, note := range []string{"", "n"} {
			for i := 0; i < shapes; i++ {
				m := jm{ctx: in, comment: note}
				j := &catalog.JSONMessage{Comment: note, Context: in, Translations: map[cldrplural.Category]string{}}
				for k, s := range tuple(i, []int{3, 3, 3, 3, 3, 3}) {
					if m.vals[k] = vals[s]; vals[s] != nil {
						j.Translations[catVals[k]] = *vals[s]
					}
				}
				c.Case(func() string { return "message " + m.text(false) }, func() string {
					if d := msgEq(j.Clone(), m); d != "" {
						return "Clone: " + d
					}
					if len(j.Translations) == 0 {
						return "" // written with an empty other
					}
					b, err := json.Marshal(j)
					if err != nil {
						return err.Error()
					}
					var back catalog.JSONMessage
					if err := json.Unmarshal(b, &back); err != nil {
						return fmt.Sprintf("written as %s: %v", b, err)
					}
					if d := msgEq(&back, m); d != "" {
						return fmt.Sprintf("written as %s: %s", b, d)
					}
					return ""
				})
			}
		}
	}
	// pairs and triples in one file
	mk := func(key, ctx, comment string, one, other *string) jm {
		m := jm{key: key, ctx: ctx, comment: comment}
		m.vals[1], m.vals[5] = one, other
		return m
	}
	plain := func(key, s string) jm {
		m := jm{key: key, plain: true}
		m.vals[5] = &s
		return m
	}
	pool := []jm{
		plain("a", "A"), plain("a_c", "AC0"), plain("b", ""), mk("a", "", "", ptr("A1"), ptr("An")), mk("a_c", "c", "", nil, ptr("ac")),
		mk("a_c", "c", "", ptr("ac1"), ptr("acn")), mk("a_d", "d", "k", ptr(""), ptr("adn")), mk("a_d_c", "c", "", nil, ptr("adc")), mk("a_d_c", "d_c", "", nil, ptr("adc2")),
		mk("b_c", "c", "", ptr("bc1"), ptr("")), mk("b", "", "note", ptr("b1"), nil), mk("z_c", "d", "", nil, ptr("bad")), mk("c", "", "", ptr("c1"), ptr("cn")), mk("c_c", "c", "", nil, ptr("cc")),
		plain("A", "upper"), plain("other", "O"), plain("context", "C"), plain("comment", "K"), plain("one", "1"),
	}
	np := len(pool)
	c.Par(np*np, func(w, i int) {
		a, b := pool[i/np], pool[i%np]
		if a.key == b.key {
			return
		}
		for _, l := range langs[:4] {
			c.caseW(w, func() string { return l.tag.String() + " {" + a.text(false) + ", " + b.text(false) + "}" }, func() string { return jsonFile(c, l, []jm{a, b}, false) })
		}
		for _, d := range pool {
			if d.key == a.key || d.key == b.key {
				continue
			}
			l := langs[(i+len(d.key))%4]
			c.caseW(w, func() string {
				return l.tag.String() + " {" + a.text(false) + ", " + b.text(false) + ", " + d.text(false) + "}"
			}, func() string { return jsonFile(c, l, []jm{a, b, d}, false) })
		}
	})
	// texts
	texts := []string{" ", "\n", "a\nb\n", "\t", "\r\n", `"`, `\`, `\n`, `\"`, "<&>", "é", "日本", "\U0001F600", "\u2028\u2029", "\ufffd", "\x00", "\x01", "\x1f\x7f", "%d", "%s %%", "{}", "null", "/", "a_c", strings.Repeat("x", 5000), strings.Repeat("é\"", 3000), "‮", "a\\u0041"}
	for ch := rune(0); ch < 0x180; ch++ {
		texts = append(texts, "<"+string(ch)+">")
	}
	c.Par(len(texts), func(w, i int) {
		s := texts[i]
		for _, esc := range []bool{false, true} {
			for slot := 0; slot < 6; slot++ {
				var m jm
				switch slot {
				case 0:
					m = plain("k", s)
				case 1:
					m = mk("k", "", "", &s, ptr("n"))
				case 2:
					m = mk("k_c", "c", "", ptr("1"), &s)
				case 3:
					m = mk(s, "", "", ptr("1"), ptr("n"))
				case 4:
					m = mk("k_"+s, s, "", ptr("1"), ptr("n"))
				case 5:
					m = mk("k", "", s, ptr("1"), ptr("n"))
				}
				c.caseW(w, func() string { return fmt.Sprintf("text %v %q slot %d", esc, s, slot) }, func() string { return jsonFile(c, langs[0], []jm{m}, esc) })
			}
		}
	})
	// large files
	for _, n := range []int{8, 9, 100, 1000, c.Pick(3000, 30000)} {
		var ms []jm
		for k := 0; k < n; k++ {
			ms = append(ms, mk(fmt.Sprintf("m%d_c", k), []string{"", "c"}[k%2], "", ptr(fmt.Sprint("o", k)), ptr(fmt.Sprint("n", k))))
		}
		c.Case(func() string { return fmt.Sprint("messages: ", n) }, func() string {
			parts := make([]string, n)
			for k := range ms {
				parts[k] = ms[k].text(false)
			}
			cat, err := catalog.NewJSONDecoder().Decode(language.English, "", []byte("{"+strings.Join(parts, ",")+"}"))
			if err != nil {
				return err.Error()
			}
			for k, m := range ms {
				id := m.key
				if m.ctx != "" {
					id = strings.TrimSuffix(id, "_c")
				}
				for _, x := range []struct {
					n    int
					want string
				}{{1, fmt.Sprint("o", k)}, {2, fmt.Sprint("n", k)}} {
					if s, err := cat.LookupPlural(m.ctx, id, x.n); err != nil || s != x.want {
						return fmt.Sprintf("%s: %q %v", id, s, err)
					}
				}
			}
			return ""
		})
	}
	// file level: want "" = error, otherwise the text of Lookup("", "a")
	raw := []struct{ text, want string }{
		{"", ""}, {"null", ""}, {"{}", ""}, {"[]", ""}, {`"a"`, ""}, {"1", ""}, {"true", ""}, {"{", ""}, {`{"a"}`, ""}, {`{"a":}`, ""}, {`{"a": "A"`, ""}, {`{"a": "A"}}`, ""}, {`{"a": "A"} x`, ""}, {`{"a": "A",}`, ""},
		{`{"a": null}`, ""}, {`{"a": 1}`, ""}, {`{"a": true}`, ""}, {`{"a": []}`, ""}, {`{"a": ["A"]}`, ""}, {`{"a": {}}`, ""}, {`{"a": {"one": "x"}}`, ""}, {`{"a": {"other": 1}}`, ""}, {`{"a": {"other": "A", "one": 5}}`, ""}, {`{"a": {"other": ["A"]}}`, ""}, {`{"a": {"other": {"x": "y"}}}`, ""}, {`{"a": {"context": "c", "other": "A"}}`, ""},
		{`{"a": "A", "b": null}`, ""}, {`{"a": "A", "b": 1}`, ""}, {`{"a": "A", "b": {}}`, ""}, {`{"a": "A", "": "x"}`, ""},
		{` { "a" : "A" } `, "A"}, {"{\n\t\"a\":\r\n\"A\"}\n", "A"}, {`{"a": {"other": "A"}}`, "A"}, {`{"a": {"Other": "A", "ONE": "1"}}`, "A"}, {`{"a": {"OTHER": "A"}}`, "A"}, {`{"a": {"other": "A", "comment": "k"}}`, "A"}, {`{"a": {"other": "A", "unknown": "k"}}`, "A"}, {`{"a": {"comment": "other", "other": "A"}}`, "A"}, {`{"a": {"Context": "c", "other": "A"}}`, ""}, {`{"b": "B", "a": "A"}`, "A"},
	}
	for _, r := range raw {
		c.Case(func() string { return "raw " + q(r.text) }, func() string {
			cat, err := catalog.NewJSONDecoder().Decode(language.English, "", []byte(r.text))
			if r.want == "" {
				if err == nil {
					return "accepted"
				}
				return ""
			}
			if err != nil {
				return err.Error()
			}
			s, err := cat.Lookup("", "a")
			if err != nil || s != r.want {
				return fmt.Sprintf("Lookup: %q %v", s, err)
			}
			return ""
		})
	}
	// keys that are almost those of the format mean nothing
	for _, k := range append([]string{"context", "comment", "translations", "category", "domain"}, catNames...) {
		for _, v := range []string{k + " ", " " + k, k + "\\t", "\\n" + k, k + "s", "_" + k, k[1:], k[:len(k)-1], k + "." + k, "", k + "\\u0000", "\\u200b" + k, k + "[0]"} {
			for order := 0; order < 2; order++ {
				parts := []string{`"other": "A"`, `"` + v + `": "X"`}
				if order == 1 {
					parts[0], parts[1] = parts[1], parts[0]
				}
				text := `{"a": {` + strings.Join(parts, ", ") + `}}`
				c.Case(func() string { return "unknown key " + q(text) }, func() string {
					cat, err := catalog.NewJSONDecoder().Decode(language.English, "", []byte(text))
					if err != nil {
						return err.Error()
					}
					if s, err := cat.Lookup("", "a"); err != nil || s != "A" {
						return fmt.Sprintf("Lookup: %q %v", s, err)
					}
					if s, err := cat.LookupPlural("", "a", 1); err == nil {
						return fmt.Sprintf("LookupPlural for one: %q", s)
					}
					m := cat.(catalog.JSONCatalog).Messages()["a"]
					if m == nil || m.Context != "" || m.Comment != "" || len(m.Translations) != 1 {
						return fmt.Sprintf("message %+v", m)
					}
					return ""
				})
			}
		}
	}
	full := `{"a": "A", "b_c": {"comment": "k", "context": "c", "one": "é1", "other": "bn"}, "d": {"one": "1", "other": ""}}`
	for n := 0; n < len(full); n++ {
		c.Case(func() string { return "truncated " + q(full[:n]) }, func() string {
			if _, err := catalog.NewJSONDecoder().Decode(language.English, "", []byte(full[:n])); err == nil {
				return "accepted"
			}
			return ""
		})
	}
}
