package h_loc

import (
	"errors"
	"fmt"

	"golang.org/x/text/language"

	"github.com/vorlif/spreak"
	"github.com/vorlif/spreak/catalog"
	"github.com/vorlif/spreak/internal/zzverif/gen"
	"github.com/vorlif/spreak/internal/zzverif/nd"
	"github.com/vorlif/spreak/localize"
)

type plainErr struct{ s string }

func (e *plainErr) Error() string { return e.s }

// locErr is an error with a message that can be translated.
type locErr struct {
	domMsg
	text string
}

func (e *locErr) Error() string { return e.text }

// Errors: a localized error has the translation of its message and leads back to the original error.
func Errors() {
	var log []call
	de, fr := language.German, language.French
	found := nd.Choice("found", 2) == 1
	text := gen.UTF8("text", nd.Choice("text.n", 3))
	cat := func(lang language.Tag, domain string) catalog.Catalog {
		c := &fake{lang: lang, domain: domain, text: domain + text, log: &log}
		if lang == fr {
			c.text = "fr"
		} else if !found {
			c.err = errNone
		}
		return c
	}
	load := func(domain string) spreak.BundleOption {
		return spreak.WithDomainLoader(domain, &loader{cats: map[language.Tag]catalog.Catalog{de: cat(de, domain), fr: cat(fr, domain)}})
	}
	opts := []spreak.BundleOption{
		spreak.WithPrinter(printer{}), spreak.WithSourceLanguage(language.English),
		spreak.WithDefaultDomain("d"), load("d"), load("e"), load(""), spreak.WithLanguage(de)}
	ctx := "errors"
	if nd.Choice("errctx", 2) == 1 {
		ctx = gen.UTF8("ctx", nd.Choice("ctx.n", 2))
		opts = append(opts, spreak.WithErrorContext(ctx))
	}
	if nd.Choice("fallback", 2) == 1 {
		opts = append(opts, spreak.WithFallbackLanguage(fr))
	}
	b := must(spreak.NewBundle(opts...))
	req := nd.Choice("req", 3)
	l := spreak.NewLocalizer(b, []string{"de", "en", "ko"}[req])
	nd.Assert(l.LocalizeError(nil) == nil, "nil changed")

	var err error
	n := nd.Int("n")
	nd.Assume(nd.And(n < 1<<53, n > -1<<53))
	want := call{lang: de, domain: "d"}
	src, vars := "", []any(nil)
	plural := false
	switch nd.Choice("kind", 4) {
	case 0:
		err = &plainErr{"s" + gen.UTF8("s", 1)}
		want.ctx, want.id = ctx, err.Error()
		src = err.Error()
	case 1: // wraps an error that could be localized
		inner := &locErr{}
		inner.Singular, inner.text = "i", "inner"
		err = fmt.Errorf("outer: %w", inner)
		want.ctx, want.id = ctx, err.Error()
		src = err.Error()
	case 2:
		e := &locErr{text: "raw"}
		e.Singular, e.Context = gen.UTF8("s", 1), gen.UTF8("c", 1)
		if nd.Choice("vars", 2) == 1 {
			e.Vars = []any{"v", 3}
		}
		vars = e.Vars
		want.ctx, want.id = e.Context, e.Singular
		src = e.Singular
		if plural = nd.Choice("plural", 2) == 1; plural {
			e.Plural, e.Count = "p", n
			want.plural = true
			if nd.Decide(second(language.English, n)) {
				src = "p"
			}
		}
		if e.has = nd.Choice("has domain", 2) == 1; e.has {
			e.domain = []string{"", "e", "no"}[nd.Choice("domain", 3)]
			want.domain = e.domain
		}
		err = e
	case 3: // localized before
		err = &localize.Error{Translation: "t", Wrapped: &plainErr{"x"}}
		want.ctx, want.id = ctx, "t"
		src = "t"
	}
	got := l.LocalizeError(err)
	nd.Assert(got != nil, "the error is gone")
	nd.ObserveStr(got.Error())
	nd.Assert(got == err || errors.Is(got, err), "the original error is lost")
	switch {
	case req == 1:
		nd.Assert(got.Error() == printed(language.English, src, vars...), "not the source text")
		nd.Assert(len(log) == 0, "a catalog asked for the source language")
	case req == 0 && found && want.domain != "no":
		var le *localize.Error
		nd.Assert(errors.As(got, &le) && le.Translation == got.Error(), "not a localized error")
		nd.Assert(got.Error() == printed(de, want.domain+text, vars...), "not the translation")
		nd.Reach("translated")
	default:
		nd.Assert(got == err, "an error without translation changed")
		nd.Reach("unchanged")
	}
	if req == 0 && want.domain != "no" {
		c := log[0]
		nd.Assert(c.lang == de && c.domain == want.domain && c.plural == plural, "another domain or kind of lookup")
		nd.Assert(nd.And(c.id == want.id, c.ctx == want.ctx), "another message asked for")
		if plural {
			nd.Assert(c.n.(int) == n, "another number asked for")
		}
	}
}
