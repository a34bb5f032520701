package main

import (
	"errors"
	"fmt"
	"reflect"

	"golang.org/x/text/language"

	"github.com/vorlif/spreak"
	"github.com/vorlif/spreak/localize"
)

func init() {
	register(&Check{ID: "C23", Level: "exploration",
		Rule: "every error shape (plain, wrapped, joined, typed by value and by pointer, not comparable, empty text, localizable with each context, domain, plural, count and argument combination, localizable inside a wrapper) x error context x default domain x requested language x presence of the translation per domain and context x fallback. Non-trivial: cases with a translation in some catalog.",
		Run:  runC23})
}

var errSentinel = errors.New("E")

type valErr struct{ A int }

func (valErr) Error() string { return "E" }

type ptrErr struct{ A int }

func (*ptrErr) Error() string { return "E" }

type sliceErr []string

func (sliceErr) Error() string { return "E" }

type emptyErr struct{}

func (emptyErr) Error() string { return "" }

// locErr is an error that prescribes its own message.
type locErr struct {
	localize.Message
	dom    string
	hasDom bool
	inner  error
}

func (e *locErr) Error() string     { return "E" }
func (e *locErr) Unwrap() error     { return e.inner }
func (e *locErr) HasDomain() bool   { return e.hasDom }
func (e *locErr) GetDomain() string { return e.dom }

func sameErr(a, b error) bool {
	ta, tb := reflect.TypeOf(a), reflect.TypeOf(b)
	if ta != tb {
		return false
	}
	if ta.Comparable() {
		return a == b
	}
	return reflect.DeepEqual(a, b)
}

func runC23(c *C) {
	type shape struct {
		name string
		mk   func() error
		msg  *locErr // localizable
		text string
	}
	shapes := []shape{
		{"sentinel", func() error { return errSentinel }, nil, "E"},
		{"new", func() error { return errors.New("E") }, nil, "E"},
		{"value", func() error { return valErr{3} }, nil, "E"},
		{"pointer", func() error { return &ptrErr{3} }, nil, "E"},
		{"not comparable", func() error { return sliceErr{"x"} }, nil, "E"},
		{"wrapped", func() error { return fmt.Errorf("W: %w", errSentinel) }, nil, "W: E"},
		{"joined", func() error { return errors.Join(errSentinel, errors.New("F")) }, nil, "E\nF"},
		{"percent", func() error { return errors.New("100%d") }, nil, "100%d"},
		{"blanks around", func() error { return errors.New(" E\n") }, nil, " E\n"},
		{"upper case", func() error { return errors.New("e") }, nil, "e"},
		{"full stop", func() error { return errors.New("E.") }, nil, "E."},
		{"empty", func() error { return emptyErr{} }, nil, ""},
		{"localized", func() error { return &localize.Error{Translation: "E", Wrapped: errSentinel} }, nil, "E"},
		{"wrapped value", func() error { return fmt.Errorf("E%w", emptyErr{}) }, nil, "E"},
	}
	for _, ctx := range []string{"", "errors", "other", "zz"} {
		for _, dom := range []string{"-", "", "d", "zz"} {
			for _, pl := range []string{"", "Ep"} {
				for _, n := range []int{1, 2} {
					if pl == "" && n == 2 {
						continue
					}
					for _, vars := range [][]any{nil, {"v"}} {
						for _, id := range []string{"E", "E2"} {
							e := &locErr{Message: localize.Message{Singular: id, Plural: pl, Context: ctx, Count: n, Vars: vars}, dom: dom, hasDom: dom != "-", inner: errSentinel}
							shapes = append(shapes, shape{fmt.Sprintf("localizable %+v %s", e.Message, dom), func() error { x := *e; return &x }, e, ""})
						}
					}
				}
			}
		}
	}
	loc := &locErr{Message: localize.Message{Singular: "E2", Context: "other"}, inner: errSentinel}
	shapes = append(shapes, shape{"wrapped localizable", func() error { return fmt.Errorf("W: %w", loc) }, nil, "W: E"})

	texts := []string{"E", " E\n", "W: E", "E\nF", "100%d", "E2"}
	doms := [][2]string{{"", "-"}, {"d", "-"}, {"zz", "-"}, {"", "d"}, {"d", ""}, {"zz", "d"}} // bundle default, localizer
	dims := []int{len(shapes), 4, len(doms), 5, 3, 16}
	c.Par(size(dims), func(w, i int) {
		t := tuple(i, dims)
		sh := shapes[t[0]]
		errCtx := []string{"-", "other", "", "zz"}[t[1]]
		bunDom, defDom := doms[t[2]][0], doms[t[2]][1]
		request := []string{"de", "fr", "it", "en", "de-AT"}[t[3]]
		fallback := []string{"", "fr", "de"}[t[4]]
		mask := t[5] // which (domain, context) holds the translation: "" and d, errors and other
		c.caseW(w, func() string {
			return fmt.Sprintf("%s errctx=%s domain=%q/%q request=%s fallback=%q translations=%04b", sh.name, errCtx, bunDom, defDom, request, fallback, mask)
		}, func() string {
			if mask != 0 {
				c.Distinct(fmt.Sprint(t))
			}
			models := map[string]map[string]catModel{}
			loaders := map[string]modelLoader{"": {}, "d": {}}
			for _, lang := range []string{"de", "fr"} {
				models[lang] = map[string]catModel{}
				for di, dom := range []string{"", "d"} {
					m := catModel{}
					m.add("none", idO, entry{forms: [2]string{"x"}})
					for ci, ctx := range []string{"errors", "other"} {
						if mask>>(2*di+ci)&1 == 0 {
							continue
						}
						for _, id := range texts {
							m.add(ctx, id, entry{plural: id == "E2", forms: [2]string{lang + dom + ctx + id + "%", lang + dom + ctx + id + "p"}})
						}
						if di == 0 && ci == 0 {
							for _, id := range texts {
								m.add("", id, entry{forms: [2]string{lang + dom + "noctx" + id}})
							}
						}
					}
					models[lang][dom] = m
					loaders[dom][lang] = modelCat{m, lang}
				}
			}
			opts := []spreak.BundleOption{spreak.WithSourceLanguage(language.English), spreak.WithDomainLoader("", loaders[""]), spreak.WithDomainLoader("d", loaders["d"]), spreak.WithDefaultDomain(bunDom), spreak.WithLanguage("de", "fr"), spreak.WithPrinter(tagPrinter{})}
			ectx := "errors"
			if errCtx != "-" {
				ectx = errCtx
				opts = append(opts, spreak.WithErrorContext(errCtx))
			}
			if fallback != "" {
				opts = append(opts, spreak.WithFallbackLanguage(fallback))
			}
			b, err := spreak.NewBundle(opts...)
			if err != nil {
				return err.Error()
			}
			l := spreak.NewLocalizer(b, request)
			dom := bunDom
			if defDom != "-" {
				l = spreak.NewLocalizerForDomain(b, defDom, request)
				dom = defDom
			}
			e := sh.mk()
			got := l.LocalizeError(e)
			// model
			ctx, id, pl, n := ectx, sh.text, "", 1
			var vars []any
			if sh.msg != nil {
				ctx, id, pl, n, vars = sh.msg.Context, sh.msg.Singular, sh.msg.Plural, sh.msg.Count, sh.msg.Vars
				if sh.msg.hasDom {
					dom = sh.msg.dom
				}
			}
			lang := map[string]string{"de": "de", "de-AT": "de", "fr": "fr", "en": "en"}[request]
			want, found := "", false
			switch lang {
			case "en":
				want, found = id, true
				if pl != "" && n != 1 {
					want = pl
				}
			case "de", "fr":
				want, found = modelCat{models[lang][dom], lang}.find(ctx, id, pl != "", n)
			}
			if got == nil {
				return "nil"
			}
			if !found {
				if !sameErr(got, e) {
					return fmt.Sprintf("no translation, but the result is %T %q", got, got.Error())
				}
				return ""
			}
			want = tagPrinter{}.GetPrintFunc(language.MustParse(lang))(want, vars...)
			if d := diff("text", got.Error(), want); d != "" {
				return d
			}
			le, ok := got.(*localize.Error)
			if !ok {
				return fmt.Sprintf("result is a %T", got)
			}
			if u := errors.Unwrap(got); u == nil || !sameErr(u, e) || !sameErr(le.Wrapped, e) {
				return "does not unwrap to the original"
			}
			if errors.Is(e, errSentinel) != errors.Is(got, errSentinel) {
				return "errors.Is differs"
			}
			var v valErr
			var p *ptrErr
			var s sliceErr
			var o *locErr
			if errors.As(e, &v) != errors.As(got, &v) || errors.As(e, &p) != errors.As(got, &p) || errors.As(e, &s) != errors.As(got, &s) || errors.As(e, &o) != errors.As(got, &o) {
				return "errors.As differs"
			}
			c.Outcome(got.Error())
			return ""
		})
	})
	b := mustBundle()
	for _, l := range []*spreak.Localizer{spreak.NewLocalizer(b), spreak.NewLocalizer(b, "de")} {
		c.Case(func() string { return "nil" }, func() string {
			if got := l.LocalizeError(nil); got != nil {
				return got.Error()
			}
			return ""
		})
	}
}

// modelCat is a catalog served straight from a model.
type modelCat struct {
	m    catModel
	lang string
}

func (m modelCat) find(ctx, id string, isPlural bool, n any) (string, bool) {
	return m.m.lookup(0, m.lang, ctx, id, isPlural, n)
}

func (m modelCat) Lookup(ctx, id string) (string, error) {
	if s, ok := m.find(ctx, id, false, 0); ok {
		return s, nil
	}
	return id, errors.New("missing")
}

func (m modelCat) LookupPlural(ctx, id string, n any) (string, error) {
	if s, ok := m.find(ctx, id, true, n); ok {
		return s, nil
	}
	return id, errors.New("missing")
}

func (m modelCat) Language() language.Tag { return language.MustParse(m.lang) }
