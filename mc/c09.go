package main

import (
	"bytes"
	"errors"
	"fmt"
	"io"
	"io/fs"
	"slices"
	"sort"
	"strings"
	"syscall"

	"golang.org/x/text/language"

	"github.com/vorlif/spreak"
	"github.com/vorlif/spreak/catalog"
	"github.com/vorlif/spreak/catalog/po"
)

func init() {
	register(&Check{ID: "C09", Level: "fault_enumeration",
		Rule: "loads of small PO, MO and JSON files through DecodeReader, FilesystemLoader.Load and NewBundle over a recording file system; every single fault (error kinds x every stat, open, fstat, read, seek and close the load performs, partial data with the error, zero-length reads, data together with EOF), every pair of faults, an error after every byte, every chunk size and every two-cut delivery. Non-trivial: a run in which a fault was delivered.",
		Run:  runC09})
}

type ioOp struct {
	kind string // stat open fstat read seek close
	path string
}

type fault9 struct {
	op   int
	name string
}

// faults that an operation of a kind can show
func kinds9(kind string) []string {
	out := []string{"eio", "notexist", "perm", "ueof", "wrapped"}
	if kind == "read" {
		out = append(out, "eio+1", "eio+half", "eio+all", "ueof+1", "notexist+1", "zero", "short", "one", "eio-then-eof")
	}
	return out
}

var errs9 = map[string]error{"eio": syscall.EIO, "notexist": fs.ErrNotExist, "perm": fs.ErrPermission, "ueof": io.ErrUnexpectedEOF, "wrapped": fmt.Errorf("remote: %w", errors.ErrUnsupported)}

// fs9 records every operation and shows the planned faults.
type fs9 struct {
	files   map[string]string
	withEOF bool // the last data comes together with io.EOF
	chunk   int  // bytes per read, 0: as many as asked
	seek    bool
	stat    bool // used through statFS9
	plan    []fault9
	ops     []ioOp
	hit     int  // faults delivered
	soft    bool // a delivered fault may count as an absent file
}

func (f *fs9) next(kind, path string) string {
	n := len(f.ops)
	f.ops = append(f.ops, ioOp{kind, path})
	if n > 100_000 {
		panic("the load does not end")
	}
	for _, p := range f.plan {
		if p.op == n {
			f.hit++
			// without its own Stat, the file system is probed by opening
			if kind == "stat" || kind == "fstat" || kind == "open" && !f.stat || strings.HasPrefix(p.name, "notexist") {
				f.soft = true
			}
			return p.name
		}
	}
	return ""
}

func err9(name, op, path string) error {
	base, _, _ := strings.Cut(name, "+")
	e := errs9[base]
	if e == nil {
		return nil
	}
	return &fs.PathError{Op: op, Path: path, Err: e}
}

func (f *fs9) open(name string) (*file9, error) {
	if e := err9(f.next("open", name), "open", name); e != nil {
		return nil, e
	}
	s, ok := f.files[name]
	if !ok {
		return nil, &fs.PathError{Op: "open", Path: name, Err: fs.ErrNotExist}
	}
	return &file9{fs: f, name: name, data: s}, nil
}

func (f *fs9) Open(name string) (fs.File, error) {
	x, err := f.open(name)
	if err != nil {
		return nil, err
	}
	if f.seek {
		return &seekFile9{x}, nil
	}
	return x, nil
}

// statFS9 answers Stat itself.
type statFS9 struct{ *fs9 }

func (f statFS9) Stat(name string) (fs.FileInfo, error) {
	if e := err9(f.next("stat", name), "stat", name); e != nil {
		return nil, e
	}
	s, ok := f.files[name]
	if !ok {
		return nil, &fs.PathError{Op: "stat", Path: name, Err: fs.ErrNotExist}
	}
	return memInfo{name, len(s)}, nil
}

type file9 struct {
	fs   *fs9
	name string
	data string
	pos  int
	dead error
}

func (f *file9) Stat() (fs.FileInfo, error) {
	if e := err9(f.fs.next("fstat", f.name), "stat", f.name); e != nil {
		return nil, e
	}
	return memInfo{f.name, len(f.data)}, nil
}

func (f *file9) Close() error {
	return err9(f.fs.next("close", f.name), "close", f.name)
}

func (f *file9) Read(p []byte) (int, error) {
	x := f.fs.next("read", f.name)
	if f.dead != nil {
		return 0, f.dead
	}
	if len(p) == 0 {
		return 0, nil
	}
	n := min(len(p), len(f.data)-f.pos)
	if f.fs.chunk > 0 {
		n = min(n, f.fs.chunk)
	}
	var err error
	base, part, _ := strings.Cut(x, "+")
	switch {
	case x == "zero":
		return 0, nil
	case x == "short":
		n /= 2
		n = max(n, min(1, len(f.data)-f.pos))
	case x == "one":
		n = min(n, 1)
	case x == "eio-then-eof":
		f.dead = io.EOF
		return 0, syscall.EIO
	case x != "":
		err = err9(base, "read", f.name)
		if base == "ueof" {
			err = io.ErrUnexpectedEOF // as readers return it
		}
		f.dead = err
		switch part {
		case "":
			n = 0
		case "1":
			n = min(n, 1)
		case "half":
			n /= 2
		}
	}
	copy(p[:n], f.data[f.pos:])
	f.pos += n
	if err == nil && f.pos >= len(f.data) && (n == 0 || f.fs.withEOF) {
		err = io.EOF
	}
	return n, err
}

type seekFile9 struct{ *file9 }

func (f *seekFile9) Seek(off int64, whence int) (int64, error) {
	if e := err9(f.fs.next("seek", f.name), "seek", f.name); e != nil {
		return 0, e
	}
	switch whence {
	case io.SeekCurrent:
		off += int64(f.pos)
	case io.SeekEnd:
		off += int64(len(f.data))
	}
	if off < 0 {
		return 0, syscall.EINVAL
	}
	f.pos = int(off)
	return off, nil
}

// v1 hides DecodeReader.
type v1 struct{ d catalog.Decoder }

func (v v1) Decode(l language.Tag, d string, b []byte) (catalog.Catalog, error) {
	return v.d.Decode(l, d, b)
}

const po9 = "# é\nmsgid \"\"\nmsgstr \"\"\n\"Language: de\\n\"\n\"Plural-Forms: nplurals=2; plural=n > 1;\\n\"\n\n#, fuzzy\nmsgid \"f\"\nmsgstr \"F\"\n\nmsgctxt \"c\"\nmsgid \"a\"\nmsgstr \"\"\n\"Ä \"\n\"日本\\n\"\n\nmsgid \"b\"\nmsgid_plural \"bs\"\nmsgstr[0] \"B0\"\nmsgstr[1] \"B1\"\n\nmsgid \"z\"\nmsgstr \"last one\"\n"

func mo9() string {
	return string(moBytes([]moMsg{{"", "Language: de\nPlural-Forms: nplurals=2; plural=n > 1;\n"}, {"c\x04a", "Ä 日本\n"}, {"b\x00bs", "B0\x00B1"}, {"z", "last one"}}, moLayout{big: true}))
}

const json9 = `{"__language": "de", "a_c": {"context": "c", "other": "Ä 日本\n"}, "b": {"one": "B0", "other": "B1"}, "z": "last one"}`

type q9 struct {
	ctx, id string
	n       int
	want    string
}

func quest9(format string) []q9 {
	return []q9{{"c", "a", -1, "Ä 日本\n"}, {"", "b", 1, "B0"}, {"", "b", 5, "B1"}, {"", "z", -1, "last one"}}
}

func complete9(cat catalog.Catalog, format string) string {
	if cat == nil {
		return "neither an error nor a catalog"
	}
	for _, x := range quest9(format) {
		var got string
		var err error
		if x.n < 0 {
			got, err = cat.Lookup(x.ctx, x.id)
		} else {
			got, err = cat.LookupPlural(x.ctx, x.id, x.n)
		}
		if err != nil || got != x.want {
			return fmt.Sprintf("%q/%q: %q %v, want %q", x.ctx, x.id, got, err, x.want)
		}
	}
	return ""
}

// scen9 is one way of loading.
type scen9 struct {
	name string
	mk   func() *fs9
	// run loads; it returns "" if the outcome is an error or the complete content, "missing" when
	// content is completely absent without an error, otherwise what is wrong
	run func(f *fs9) (out string, failed bool)
}

func scenarios9() []scen9 {
	content := map[string]string{".po": po9, ".mo": mo9(), ".json": json9, ".pocrlf": strings.ReplaceAll(po9, "\n", "\r\n")}
	decs := map[string][]catalog.Decoder{
		".po":     {catalog.NewPoDecoder(), v1{catalog.NewPoDecoder()}, catalog.NewPoCLDRDecoder()},
		".pocrlf": {catalog.NewPoDecoder()},
		".mo":     {catalog.NewMoDecoder(), v1{catalog.NewMoDecoder()}},
		".json":   {catalog.NewJSONDecoder()},
	}
	var out []scen9
	exts := []string{".json", ".mo", ".po", ".pocrlf"}
	for _, ext := range exts {
		for di, dec := range decs[ext] {
			// DecodeReader over the bare file
			if d, ok := dec.(catalog.DecoderV2); ok {
				for sk := 0; sk < 2; sk++ {
					for ch := 0; ch < 3; ch++ {
						out = append(out, scen9{fmt.Sprintf("DecodeReader %s %d seek %d chunk %d", ext, di, sk, ch), func() *fs9 {
							return &fs9{files: map[string]string{"f": content[ext]}, seek: sk == 1, chunk: []int{0, 16, 50}[ch], withEOF: ch == 1}
						}, func(f *fs9) (string, bool) {
							x, err := f.open("f")
							if err != nil {
								return "", true
							}
							var r io.Reader = struct{ io.Reader }{x}
							if sk == 1 {
								r = &seekFile9{x}
							}
							cat, err := d.DecodeReader(language.German, "d", r)
							if err != nil {
								return "", true
							}
							return complete9(cat, ext), false
						}})
					}
				}
			}
			// the loader, alone and with a second candidate of another format
			for variant := 0; variant < 4; variant++ {
				second := variant&1 == 1
				statfs := variant&2 == 2
				out = append(out, scen9{fmt.Sprintf("Load %s %d second %v statfs %v", ext, di, second, statfs), func() *fs9 {
					m := map[string]string{"de/d" + ext: content[ext]}
					if second {
						m["de/LC_MESSAGES/d"+ext] = content[ext]
						m["de.po2"] = po9
					}
					return &fs9{files: m, seek: variant > 0, chunk: []int{0, 0, 40, 7}[variant], withEOF: second}
				}, func(f *fs9) (string, bool) {
					var fsys fs.FS = f
					if statfs {
						f.stat, fsys = true, statFS9{f}
					}
					l, err := spreak.NewFilesystemLoader(spreak.WithFs(fsys), spreak.WithDecoder(ext, dec), spreak.WithDecoder(".po2", catalog.NewPoDecoder()))
					if err != nil {
						return "loader: " + err.Error(), false
					}
					cat, err := l.Load(language.German, "d")
					if err != nil {
						return "", true
					}
					return complete9(cat, ext), false
				}})
			}
		}
	}
	// the PO parser itself
	for ch := 0; ch < 2; ch++ {
		out = append(out, scen9{fmt.Sprintf("po.Parser chunk %d", ch), func() *fs9 {
			return &fs9{files: map[string]string{"f": po9}, chunk: 30 * ch}
		}, func(f *fs9) (string, bool) {
			x, err := f.open("f")
			if err != nil {
				return "", true
			}
			file, err := po.NewParser().Parse(struct{ io.Reader }{x})
			if err != nil {
				return "", true
			}
			for _, k := range []q9{{"c", "a", 0, "Ä 日本\n"}, {"", "b", 0, "B0"}, {"", "b", 1, "B1"}, {"", "z", 0, "last one"}, {"", "f", 0, "F"}} {
				m := file.GetMessage(k.ctx, k.id)
				if m == nil || m.Str[k.n] != k.want {
					return fmt.Sprintf("message %q/%q is not as written", k.ctx, k.id), false
				}
			}
			return "", false
		}})
	}
	// a bundle of two domains and three languages
	for variant := 0; variant < 2; variant++ {
		out = append(out, scen9{fmt.Sprintf("NewBundle statfs %d", variant), func() *fs9 {
			return &fs9{files: map[string]string{"de/x.po": po9, "de/y.mo": mo9(), "fr/x.json": json9, "pl/y.po": po9, "pl/x.mo": mo9()}, chunk: 64 * variant, seek: variant == 1}
		}, func(f *fs9) (string, bool) {
			var fsys fs.FS = f
			if variant == 1 {
				f.stat, fsys = true, statFS9{f}
			}
			b, err := spreak.NewBundle(spreak.WithDefaultDomain("x"), spreak.WithDomainFs("x", fsys), spreak.WithDomainFs("y", fsys),
				spreak.WithRequiredLanguage(language.German), spreak.WithLanguage(language.French, language.Polish), spreak.WithSourceLanguage(language.English))
			if err != nil {
				return "", true
			}
			missing := false
			for _, s := range []struct {
				lang, dom, format string
			}{{"de", "x", ".po"}, {"de", "y", ".mo"}, {"fr", "x", ".json"}, {"pl", "y", ".po"}, {"pl", "x", ".mo"}} {
				l := spreak.NewLocalizer(b, s.lang)
				have, n := 0, 0
				for _, x := range []struct{ got, want, src string }{
					{l.DPGet(s.dom, "c", "a"), "Ä 日本\n", "a"}, {l.DGet(s.dom, "z"), "last one", "z"}, {l.DNGet(s.dom, "b", "bs", 1), "B0", "b"},
				} {
					n++
					if x.got == x.want {
						have++
					} else if x.got != x.src {
						return fmt.Sprintf("%s/%s: %q", s.lang, s.dom, x.got), false
					}
				}
				if have == 0 {
					missing = true
					if s.lang == "de" && s.dom == "x" {
						return "the required language is missing without an error", false
					}
				} else if have < n {
					return fmt.Sprintf("%s/%s: %d of %d texts", s.lang, s.dom, have, n), false
				}
			}
			if missing {
				return "missing", false
			}
			return "", false
		}})
	}
	return out
}

func runC09(c *C) {
	scens := scenarios9()
	type run9 struct {
		s    int
		plan []fault9
	}
	judge := func(w int, r run9) {
		s := scens[r.s]
		c.caseW(w, func() string { return fmt.Sprintf("%s faults %v", s.name, r.plan) }, func() string {
			f := s.mk()
			f.plan = r.plan
			out, failed := s.run(f)
			if f.hit > 0 {
				c.Distinct(fmt.Sprint(r.s, r.plan))
			}
			if failed {
				c.Outcome("error")
				if len(r.plan) == 0 {
					return "an error without a fault"
				}
				benign := true
				for _, p := range r.plan {
					benign = benign && (p.name == "short" || p.name == "one" || p.name == "zero")
				}
				if benign && f.hit > 0 {
					return fmt.Sprintf("an error although every byte is delivered (%v)", f.ops)
				}
				return ""
			}
			if out == "missing" {
				c.Outcome("absent")
				if f.soft {
					return ""
				}
				return "a catalog is missing without an error"
			}
			c.Outcome("complete")
			return out
		})
	}
	var single []run9
	for s, sc := range scens {
		judge(0, run9{s, nil})
		f := sc.mk()
		sc.run(f)
		for i, op := range f.ops {
			for _, k := range kinds9(op.kind) {
				single = append(single, run9{s, []fault9{{i, k}}})
			}
		}
	}
	c.Note("scenarios", len(scens))
	c.Note("single_faults", len(single))
	c.Par(len(single), func(w, i int) { judge(w, single[i]) })
	// pairs: the operations after the first fault are those of the faulted run
	stride := c.Pick(8, 1)
	c.Par(len(single), func(w, i int) {
		r := single[i]
		f := scens[r.s].mk()
		f.plan = r.plan
		if protect(func() string { scens[r.s].run(f); return "" }) != "" {
			return // reported above
		}
		n := 0
		for j := r.plan[0].op + 1; j < len(f.ops); j++ {
			for _, k := range kinds9(f.ops[j].kind) {
				if n++; (n+i)%stride == 0 {
					judge(w, run9{r.s, []fault9{r.plan[0], {j, k}}})
				}
			}
		}
	})
	c09Bytes(c)
}

// cut9 delivers data up to some points, then an error.
type cut9 struct {
	data []byte
	cuts []int // deliveries end at these positions
	fail int   // position after which the error comes, -1 never
	with bool  // the error comes together with the data before it
	err  error
	pos  int
}

func (r *cut9) Read(p []byte) (int, error) {
	end := len(r.data)
	if r.fail >= 0 {
		end = r.fail
	}
	if r.pos >= end {
		if r.fail >= 0 {
			return 0, r.err
		}
		return 0, io.EOF
	}
	n := min(len(p), end-r.pos)
	for _, c := range r.cuts {
		if c > r.pos {
			n = min(n, c-r.pos)
		}
	}
	copy(p[:n], r.data[r.pos:])
	r.pos += n
	if r.with && r.pos == end {
		if r.fail >= 0 {
			return n, r.err
		}
		return n, io.EOF
	}
	return n, nil
}

func c09Bytes(c *C) {
	type src struct {
		name, ext string
		data      []byte
		dec       catalog.DecoderV2
	}
	srcs := []src{
		{"po", ".po", []byte(po9), catalog.NewPoDecoder().(catalog.DecoderV2)},
		{"po crlf", ".po", []byte(strings.ReplaceAll(po9, "\n", "\r\n")), catalog.NewPoDecoder().(catalog.DecoderV2)},
		{"mo", ".mo", []byte(mo9()), catalog.NewMoDecoder().(catalog.DecoderV2)},
	}
	for _, s := range srcs {
		n := len(s.data)
		// an error after every byte
		names := []string{}
		for k := range errs9 {
			names = append(names, k)
		}
		sort.Strings(names)
		c.Par(n+1, func(w, at int) {
			for _, e := range names {
				for _, with := range []bool{false, true} {
					for _, cuts := range [][]int{nil, {at / 2}, {at - 1}} {
						c.caseW(w, func() string {
							return fmt.Sprintf("%s: %s after %d bytes (with data %v, cuts %v)", s.name, e, at, with, cuts)
						}, func() string {
							cat, err := s.dec.DecodeReader(language.German, "d", &cut9{data: s.data, fail: at, with: with, err: errs9[e], cuts: cuts})
							if err != nil {
								return ""
							}
							return complete9(cat, s.ext)
						})
					}
				}
			}
		})
		// all chunk sizes and all pairs of cuts
		c.Par(n, func(w, i int) {
			var all []int
			for k := i + 1; k < n; k += i + 1 {
				all = append(all, k)
			}
			for _, with := range []bool{false, true} {
				c.caseW(w, func() string { return fmt.Sprintf("%s: chunks of %d, EOF with data %v", s.name, i+1, with) }, func() string {
					cat, err := s.dec.DecodeReader(language.German, "d", &cut9{data: s.data, fail: -1, with: with, cuts: all})
					if err != nil {
						return err.Error()
					}
					return complete9(cat, s.ext)
				})
			}
			step := c.Pick(3, 1)
			for j := i + 1 + i%step; j < n; j += step {
				c.caseW(w, func() string { return fmt.Sprintf("%s: cut at %d and %d", s.name, i, j) }, func() string {
					cat, err := s.dec.DecodeReader(language.German, "d", &cut9{data: s.data, fail: -1, with: j%2 == 0, cuts: []int{i, j}})
					if err != nil {
						return err.Error()
					}
					return complete9(cat, s.ext)
				})
			}
		})
	}
	// large files: errors around buffer sizes
	var big bytes.Buffer
	var ids []string
	for k := 0; big.Len() < 300_000; k++ {
		id := fmt.Sprintf("id%d", k)
		ids = append(ids, id)
		fmt.Fprintf(&big, "msgid %q\nmsgstr \"t%d\"\n\n", id, k)
	}
	fmt.Fprintf(&big, "msgid \"long\"\nmsgstr \"%s\"\n\nmsgid \"end\"\nmsgstr \"E\"\n", strings.Repeat("x", 100_000))
	data := big.Bytes()
	var at []int
	for _, b := range []int{512, 4096, 8192, 16384, 32768, 65536, 131072, 262144, 300_000, 305_000, 330_000, len(data) - 1, len(data)} {
		for d := -2; d <= 2; d++ {
			if b+d <= len(data) {
				at = append(at, b+d)
			}
		}
	}
	slices.Sort(at)
	c.Par(len(at), func(w, i int) {
		for _, e := range []string{"", "eio", "ueof"} {
			for _, with := range []bool{false, true} {
				c.caseW(w, func() string { return fmt.Sprintf("large file: %q at %d (with data %v)", e, at[i], with) }, func() string {
					r := &cut9{data: data, fail: -1, with: with, cuts: []int{at[i]}}
					if e != "" {
						r.fail, r.err = at[i], errs9[e]
					}
					cat, err := catalog.NewPoDecoder().(catalog.DecoderV2).DecodeReader(language.German, "d", r)
					if err != nil {
						if e == "" {
							return err.Error()
						}
						return ""
					}
					for k, id := range append(ids, "end") {
						want := fmt.Sprintf("t%d", k)
						if id == "end" {
							want = "E"
						}
						if got, err := cat.Lookup("", id); err != nil || got != want {
							return fmt.Sprintf("%s: %q %v", id, got, err)
						}
					}
					return ""
				})
			}
		}
	})
}
