package main

import (
	"errors"
	"fmt"
	"io"
	"io/fs"
	"os"
	"path"
	"path/filepath"
	"sort"
	"strings"
	"time"

	"golang.org/x/text/language"

	"github.com/vorlif/spreak"
	"github.com/vorlif/spreak/catalog"
)

func init() {
	register(&Check{ID: "C15", Level: "exploration",
		Rule: "for every language tag x domain x category x search setting x list of extensions: every set of one, two and three existing candidate files and every set lacking one or two of them, each with and without decoy files (candidates of other languages, domains and extensions). The file read is compared with the documented order. Also the names of all tags over a product of languages, scripts and regions; bundles over real directories; the default decoder order. Non-trivial: cases in which at least two files exist.",
		Run:  runC15})
}

// memFS is a file system of flat paths.
type memFS struct {
	files map[string]string
}

type memFile struct {
	io.Reader
	name string
	size int
}

func (f memFile) Stat() (fs.FileInfo, error) { return memInfo{f.name, f.size}, nil }
func (f memFile) Close() error               { return nil }

type memInfo struct {
	name string
	size int
}

func (i memInfo) Name() string       { return path.Base(i.name) }
func (i memInfo) Size() int64        { return int64(i.size) }
func (i memInfo) Mode() fs.FileMode  { return 0o444 }
func (i memInfo) ModTime() time.Time { return time.Time{} }
func (i memInfo) IsDir() bool        { return false }
func (i memInfo) Sys() any           { return nil }

func (m memFS) Open(name string) (fs.File, error) {
	if s, ok := m.files[name]; ok {
		return memFile{strings.NewReader(s), name, len(s)}, nil
	}
	return nil, &fs.PathError{Op: "open", Path: name, Err: fs.ErrNotExist}
}

func (m memFS) Stat(name string) (fs.FileInfo, error) {
	if s, ok := m.files[name]; ok {
		return memInfo{name, len(s)}, nil
	}
	return nil, &fs.PathError{Op: "stat", Path: name, Err: fs.ErrNotExist}
}

// pathCat remembers which file it came from.
type pathCat struct {
	lang   language.Tag
	domain string
	text   string
	dec    string
}

func (p *pathCat) Lookup(ctx, id string) (string, error)            { return p.text, nil }
func (p *pathCat) LookupPlural(_, id string, _ any) (string, error) { return p.text, nil }
func (p *pathCat) Language() language.Tag                           { return p.lang }

type pathDec string

func (d pathDec) Decode(lang language.Tag, domain string, data []byte) (catalog.Catalog, error) {
	return &pathCat{lang, domain, string(data), string(d)}, nil
}

type pathDec2 struct{ pathDec }

func (d pathDec2) DecodeReader(lang language.Tag, domain string, r io.Reader) (catalog.Catalog, error) {
	b, err := io.ReadAll(r)
	if err != nil {
		return nil, err
	}
	return d.Decode(lang, domain, b)
}

// langNames is the documented list of names: longest first, equal lengths in alphabetical order.
func langNames(t language.Tag) []string {
	set := map[string]bool{t.String(): true}
	base, bc := t.Base()
	if bc > language.No {
		set[base.ISO3()] = true
		set[base.String()] = true
		if r, c := t.Region(); c > language.No {
			set[base.String()+"_"+r.String()] = true
			set[base.String()+"-"+r.String()] = true
		}
		if s, c := t.Script(); c > language.No {
			set[base.String()+"_"+s.String()] = true
			set[base.String()+"-"+s.String()] = true
		}
	}
	var out []string
	for n := range set {
		out = append(out, n)
	}
	sort.Slice(out, func(i, j int) bool {
		if len(out[i]) != len(out[j]) {
			return len(out[i]) > len(out[j])
		}
		return out[i] < out[j]
	})
	return out
}

// candidates in search order, without repetitions.
func searchOrder(t language.Tag, domain, category string, search bool, exts []string) []string {
	var out []string
	seen := map[string]bool{}
	add := func(p string) {
		if !seen[p] {
			seen[p] = true
			out = append(out, p)
		}
	}
	for _, ext := range exts {
		for _, n := range langNames(t) {
			if domain != "" {
				add(path.Join(n, category, domain+ext))
			}
			if !search {
				continue
			}
			if domain != "" {
				add(n + "/LC_MESSAGES/" + domain + ext)
				add(n + "/" + domain + ext)
				add(domain + "/" + n + ext)
			}
			add(n + ext)
			if category != "" {
				add(category + "/" + n + ext)
			}
			add("LC_MESSAGES/" + n + ext)
		}
	}
	return out
}

type c15cfg struct {
	tag      string
	domain   string
	category string
	search   bool
	exts     []string
}

func runC15(c *C) {
	// names of tags
	langsN := []string{"de", "en", "zh", "sr", "pt", "az", "uz", "nb", "no", "he", "iw", "fil", "tl", "mo", "ro", "haw", "qaa", "und", "yue", "es"}
	scripts := []string{"", "Latn", "Cyrl", "Hant", "Hans", "Arab", "Zzzz"}
	regions := []string{"", "DE", "AT", "CN", "TW", "BR", "419", "US", "001", "RS", "ZZ"}
	tails := []string{"", "-valencia", "-u-co-phonebk", "-x-foo", "-1996"}
	dims := []int{len(langsN), len(scripts), len(regions), len(tails)}
	var tags []language.Tag
	product(dims, func(ix []int) {
		s := langsN[ix[0]]
		if scripts[ix[1]] != "" {
			s += "-" + scripts[ix[1]]
		}
		if regions[ix[2]] != "" {
			s += "-" + regions[ix[2]]
		}
		t, err := language.Parse(s + tails[ix[3]])
		if err == nil {
			tags = append(tags, t)
		}
		if t, err := language.Raw.Parse(s + tails[ix[3]]); err == nil {
			tags = append(tags, t)
		}
	})
	tags = append(tags, language.Und, language.Tag{})
	for _, t := range tags {
		c.Case(func() string { return "names " + t.String() }, func() string {
			return diff("names", strings.Join(spreak.ExpandLanguage(t), " "), strings.Join(langNames(t), " "))
		})
	}
	// search
	tagList := []string{"de", "de-AT", "en", "zh-Hant-TW", "sr-Latn", "pt-BR", "und", "qaa", "es-419", "ca-valencia", "nb", "fil"}
	var cfgs []c15cfg
	for _, t := range tagList {
		for _, d := range []string{"", "dom", "a.b", "LC_MESSAGES", "de"} {
			for _, cat := range []string{"", "LC_MESSAGES", "cat", "LC_TIME"} {
				for _, s := range []bool{true, false} {
					for _, e := range [][]string{{".po"}, {".po", ".mo"}, {".json", ".po"}, {".po", ".po"}, {".mo", ".po", ".json"}} {
						if c.Quick() && (d == "LC_MESSAGES" || d == "de") && len(e) != 1 {
							continue
						}
						cfgs = append(cfgs, c15cfg{t, d, cat, s, e})
					}
				}
			}
		}
	}
	c.Note("configurations", len(cfgs))
	c.Par(len(cfgs), func(w, i int) {
		cfg := cfgs[i]
		tag := language.MustParse(cfg.tag)
		cand := searchOrder(tag, cfg.domain, cfg.category, cfg.search, cfg.exts)
		isCand := map[string]bool{}
		for _, p := range cand {
			isCand[p] = true
		}
		// decoys: everything other settings would read
		var decoys []string
		for _, ot := range []string{cfg.tag, "de", "de-CH", "en", "fr", "zh", "sr", "pt-PT", "d", "qab"} {
			t, err := language.Parse(ot)
			if err != nil {
				continue
			}
			for _, d := range []string{"", cfg.domain, "other", "do", "messages"} {
				for _, cat := range []string{"", cfg.category, "LC_MESSAGES", "x"} {
					for _, p := range searchOrder(t, d, cat, true, []string{".po", ".mo", ".json", ".pot", ".po.bak"}) {
						if !isCand[p] {
							decoys = append(decoys, p)
						}
					}
				}
			}
		}
		res := spreak.ResolverOption(nil)
		_ = res
		var ropts []spreak.ResolverOption
		if cfg.category != "" {
			ropts = append(ropts, spreak.WithCategory(cfg.category))
		}
		if !cfg.search {
			ropts = append(ropts, spreak.WithDisabledSearch())
		}
		run := func(files map[string]string, want string) string {
			r, err := spreak.NewDefaultResolver(ropts...)
			if err != nil {
				return err.Error()
			}
			opts := []spreak.FsOption{spreak.WithResolver(r), spreak.WithFs(memFS{files})}
			for k, e := range cfg.exts {
				name := fmt.Sprint(k)
				if k%2 == 0 {
					opts = append(opts, spreak.WithDecoder(e, pathDec(name)))
				} else {
					opts = append(opts, spreak.WithDecoder(e, pathDec2{pathDec(name)}))
				}
			}
			l, err := spreak.NewFilesystemLoader(opts...)
			if err != nil {
				return err.Error()
			}
			cat, err := l.Load(tag, cfg.domain)
			if want == "" {
				var nf *spreak.ErrNotFound
				if err == nil {
					return fmt.Sprintf("loaded %q although no candidate exists", cat.(*pathCat).text)
				}
				if !errors.As(err, &nf) {
					return "not a not-found error: " + err.Error()
				}
				if nf.Language != tag {
					return "not-found error names " + nf.Language.String()
				}
				return ""
			}
			if err != nil {
				return err.Error() + ", want " + want
			}
			p, ok := cat.(*pathCat)
			if !ok {
				return "the catalog is not the decoder's"
			}
			if p.text != want {
				return fmt.Sprintf("read %s, want %s", p.text, want)
			}
			if p.lang != tag || p.domain != cfg.domain {
				return "decoder was given another language or domain"
			}
			wantDec := ""
			for k, e := range cfg.exts {
				if strings.HasSuffix(want, e) {
					wantDec = fmt.Sprint(k)
					break
				}
			}
			return diff("decoder", p.dec, wantDec)
		}
		test := func(ix []int, without bool, withDecoys bool) {
			mk := func() (map[string]string, string) {
				files := map[string]string{}
				want := ""
				in := map[int]bool{}
				for _, k := range ix {
					in[k] = true
				}
				for k, p := range cand {
					if in[k] != without {
						files[p] = p
						if want == "" {
							want = p
						}
					}
				}
				if withDecoys {
					for _, p := range decoys {
						files[p] = p
					}
				}
				return files, want
			}
			c.caseW(w, func() string { return fmt.Sprintf("%+v files %v without=%v decoys=%v", cfg, ix, without, withDecoys) }, func() string {
				files, want := mk()
				c.Outcome(want)
				if len(files) > 1 {
					c.Distinct(fmt.Sprint(i, ix, without, withDecoys))
				}
				return run(files, want)
			})
		}
		n := len(cand)
		for _, dec := range []bool{false, true} {
			test(nil, false, dec)
			test(nil, true, dec)
			for a := 0; a < n; a++ {
				test([]int{a}, false, dec)
				if !dec {
					test([]int{a}, true, false)
				}
			}
		}
		// pairs without decoys; the other members of a prefix are missing, so every order relation shows
		for a := 0; a < n && !c.Expired(); a++ {
			for b := a + 1; b < n; b++ {
				test([]int{a, b}, false, false)
				if c.Thorough() && n <= 40 {
					for d := b + 1; d < n; d++ {
						test([]int{a, b, d}, false, false)
					}
				}
			}
		}
	})

	// resolvers and the default decoders
	other := errors.New("resolver failed")
	c.Case(func() string { return "resolver error" }, func() string {
		l, _ := spreak.NewFilesystemLoader(spreak.WithFs(memFS{}), spreak.WithResolver(resolverFunc(func(string) (string, error) { return "", other })))
		_, err := l.Load(language.German, "d")
		if !errors.Is(err, other) {
			return "error not passed on: " + errText(err)
		}
		return ""
	})
	c.Case(func() string { return "resolver error stops the search" }, func() string {
		l, _ := spreak.NewFilesystemLoader(spreak.WithFs(memFS{map[string]string{"x.b": "B"}}), spreak.WithDecoder(".a", pathDec("a")), spreak.WithDecoder(".b", pathDec("b")), spreak.WithResolver(resolverFunc(func(ext string) (string, error) {
			if ext == ".a" {
				return "", other
			}
			return "x.b", nil
		})))
		_, err := l.Load(language.German, "d")
		if !errors.Is(err, other) {
			return "error not passed on: " + errText(err)
		}
		return ""
	})
	c.Case(func() string { return "resolver not found goes on" }, func() string {
		l, _ := spreak.NewFilesystemLoader(spreak.WithFs(memFS{map[string]string{"x.b": "B"}}), spreak.WithDecoder(".a", pathDec("a")), spreak.WithDecoder(".b", pathDec("b")), spreak.WithResolver(resolverFunc(func(ext string) (string, error) {
			if ext == ".a" {
				return "", fmt.Errorf("wrapped: %w", os.ErrNotExist)
			}
			return "x.b", nil
		})))
		cat, err := l.Load(language.German, "d")
		if err != nil || cat.(*pathCat).text != "B" {
			return "not loaded: " + errText(err)
		}
		return ""
	})
	content := map[string]string{
		".po":   "msgid \"\"\nmsgstr \"\"\n\nmsgid \"a\"\nmsgstr \"from po\"\n",
		".mo":   string(moBytes([]moMsg{{"a", "from mo"}}, moLayout{})),
		".json": `{"a": "from json"}`,
	}
	def := []string{".po", ".mo", ".json"}
	for _, tag := range []string{"de", "de-AT"} {
		for mask := 0; mask < 8; mask++ {
			for _, name := range langNames(language.MustParse(tag)) {
				for how := 0; how < 4; how++ {
					c.Case(func() string { return fmt.Sprintf("default decoders %s %s %03b how %d", tag, name, mask, how) }, func() string {
						files := map[string]string{}
						want := ""
						for k, e := range def {
							if mask>>k&1 == 1 {
								files[name+"/LC_MESSAGES/d"+e] = content[e]
								if want == "" {
									want = "from " + e[1:]
								}
							}
						}
						var opt spreak.BundleOption
						switch how {
						case 0:
							opt = spreak.WithDomainFs("d", memFS{files})
						case 1, 3:
							dir, err := os.MkdirTemp("", "verif-c15-")
							if err != nil {
								return ""
							}
							defer os.RemoveAll(dir)
							for p, s := range files {
								_ = os.MkdirAll(filepath.Dir(filepath.Join(dir, p)), 0o755)
								_ = os.WriteFile(filepath.Join(dir, p), []byte(s), 0o644)
							}
							opt = spreak.WithDomainPath("d", dir)
							if how == 3 {
								opt = spreak.WithFilesystemLoader("d", spreak.WithPath(dir))
							}
						case 2:
							opt = spreak.WithFilesystemLoader("d", spreak.WithFs(memFS{files}))
						}
						b, err := spreak.NewBundle(spreak.WithSourceLanguage(language.English), spreak.WithDefaultDomain("d"), opt, spreak.WithRequiredLanguage(tag))
						if want == "" {
							if err == nil {
								return "built without a file"
							}
							return ""
						}
						if err != nil {
							return err.Error()
						}
						return diff("text", spreak.NewLocalizer(b, tag).Get("a"), want)
					})
				}
			}
		}
	}
}

type resolverFunc func(ext string) (string, error)

func (r resolverFunc) Resolve(_ fs.FS, ext string, _ language.Tag, _ string) (string, error) {
	return r(ext)
}
