// Package h_loc checks bundles, localizers and loaders.
package h_loc

import (
	"errors"
	"strconv"

	"golang.org/x/text/language"

	"github.com/vorlif/spreak"
	"github.com/vorlif/spreak/catalog"
)

// call is a lookup that reached a catalog.
type call struct {
	lang        language.Tag
	domain      string
	ctx, id     string
	plural      bool
	n           any
	bad         bool
	translation string
}

// fake is a catalog with one answer for everything; it notes what it was asked for.
type fake struct {
	lang   language.Tag
	domain string
	text   string
	err    error
	log    *[]call
}

var errNone = errors.New("no such message")

func (f *fake) Lookup(ctx, id string) (string, error) {
	*f.log = append(*f.log, call{lang: f.lang, domain: f.domain, ctx: ctx, id: id})
	if f.err != nil {
		return id, f.err
	}
	return f.text, nil
}

func (f *fake) LookupPlural(ctx, id string, n any) (string, error) {
	*f.log = append(*f.log, call{lang: f.lang, domain: f.domain, ctx: ctx, id: id, plural: true, n: n})
	if f.err != nil {
		return id, f.err
	}
	return f.text, nil
}

func (f *fake) Language() language.Tag { return f.lang }

// loader has a fixed set of catalogs.
type loader struct {
	cats  map[language.Tag]catalog.Catalog
	err   map[language.Tag]error
	asked *[]string
}

func (l *loader) Load(lang language.Tag, domain string) (catalog.Catalog, error) {
	if l.asked != nil {
		*l.asked = append(*l.asked, domain+":"+lang.String())
	}
	if err := l.err[lang]; err != nil {
		return nil, err
	}
	if c, ok := l.cats[lang]; ok {
		return c, nil
	}
	return nil, spreak.NewErrNotFound(lang, "test", "%s", domain)
}

// printer marks every text with the language it is printed in and its arguments.
type printer struct{}

func (printer) Init([]language.Tag) {}

func (printer) GetPrintFunc(lang language.Tag) spreak.PrintFunc {
	return func(s string, vars ...any) string { return printed(lang, s, vars...) }
}

func printed(lang language.Tag, s string, vars ...any) string {
	s += "@" + lang.String()
	for _, v := range vars {
		switch v := v.(type) {
		case string:
			s += ":" + v
		case int:
			s += "#" + strconv.Itoa(v)
		default:
			s += "?"
		}
	}
	return s
}

func must(b *spreak.Bundle, err error) *spreak.Bundle {
	if err != nil {
		panic(err)
	}
	return b
}
