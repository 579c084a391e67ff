package h_loc

import (
	"golang.org/x/text/language"

	"github.com/vorlif/spreak"
	"github.com/vorlif/spreak/catalog"
	"github.com/vorlif/spreak/internal/zzverif/gen"
	"github.com/vorlif/spreak/internal/zzverif/nd"
	"github.com/vorlif/spreak/localize"
)

var sources = []language.Tag{language.Und, language.English, language.Japanese, language.French, language.German}

// second reports whether the source language uses its plural text for n.
func second(src language.Tag, n int) bool {
	switch src {
	case language.Japanese:
		return false
	case language.French:
		return nd.Or(n > 1, n < -1)
	}
	return nd.And(n != 1, n != -1)
}

type domMsg struct {
	localize.Message
	domain string
	has    bool
}

func (m *domMsg) HasDomain() bool   { return m.has }
func (m *domMsg) GetDomain() string { return m.domain }

// Fallback: a lookup gives the text of the requested language, else of the fallback language, else the source
// text; the miss is reported unless the text is from the requested language.
func Fallback() {
	src := sources[nd.Param("src")]
	var log []call
	var missed []error
	de, fr := language.German, language.French
	switch nd.Param("pair") {
	case 1:
		fr = language.MustParse("de-AT")
	case 2:
		de, fr = language.MustParse("fr-CA"), language.French
	case 3:
		de, fr = language.TraditionalChinese, language.MustParse("en-GB")
	}
	text := map[language.Tag]string{de: gen.UTF8("de", 1), fr: "fr" + gen.UTF8("fr", 1)}
	has := map[language.Tag]bool{de: nd.Choice("has de", 2) == 1, fr: nd.Choice("has fr", 2) == 1}
	cat := func(lang language.Tag, domain string) catalog.Catalog {
		c := &fake{lang: lang, domain: domain, text: text[lang], log: &log}
		if !has[lang] {
			c.err = errNone
		}
		return c
	}
	opts := []spreak.BundleOption{
		spreak.WithPrinter(printer{}),
		spreak.WithDefaultDomain("d"),
		spreak.WithDomainLoader("d", &loader{cats: map[language.Tag]catalog.Catalog{de: cat(de, "d"), fr: cat(fr, "d")}}),
		spreak.WithDomainLoader("e", &loader{cats: map[language.Tag]catalog.Catalog{de: cat(de, "e")}}),
		spreak.WithMissingTranslationCallback(func(err error) { missed = append(missed, err) }),
	}
	if src != language.Und {
		opts = append(opts, spreak.WithSourceLanguage(src))
	}
	fb := language.Und
	switch nd.Param("fb") {
	case 1:
		fb = de
		opts = append(opts, spreak.WithFallbackLanguage(de.String()))
	case 2:
		fb = src
		opts = append(opts, spreak.WithFallbackLanguage(src))
	}
	opts = append(opts, spreak.WithLanguage(fr.String(), de))
	b := must(spreak.NewBundle(opts...))
	missed = nil

	// the language asked for
	req, found := language.Und, false
	var ask []any
	switch nd.Choice("req", 5) {
	case 0:
	case 1:
		ask, req, found = []any{de.String()}, de, true
	case 2:
		ask, req, found = []any{fr}, fr, true
	case 3:
		ask = []any{language.Korean}
	case 4:
		ask = []any{src}
		if src != language.Und {
			req, found = src, true
		}
	}
	domain := []string{"d", "e", "zz"}[nd.Choice("domain", 3)]
	l := spreak.NewLocalizer(b, ask...)
	nd.Assert(l.HasLocale() == found, "whether a language was found")

	m := &domMsg{domain: domain, has: domain != "d" || nd.Choice("set", 2) == 1}
	m.Context, m.Singular = "c", "s"+gen.UTF8("s", 1)
	vars := []any{7, "x"}
	m.Vars = vars
	if nd.Choice("vars", 2) == 0 {
		m.Vars, vars = nil, nil
	}
	plural := nd.Choice("plural", 2) == 1
	n := nd.Int("n")
	if plural {
		m.Plural, m.Count = "p", n
		nd.Assume(nd.And(n < 1<<53, n > -1<<53))
	}
	got, err := l.LocalizeWithError(m)
	nd.ObserveStr(got)

	if fb == language.Und {
		fb = src
	}
	if !found {
		req = fb
	}
	misses := 0
	try := func(lang language.Tag) (string, bool) {
		if lang == src {
			id := m.Singular
			if plural && nd.Decide(second(src, n)) {
				id = m.Plural
			}
			return printed(src, id, vars...), true
		}
		loaded := domain == "d" || domain == "e" && lang == de
		if loaded && has[lang] {
			return printed(lang, text[lang], vars...), true
		}
		misses++
		return "", false
	}
	want, own := try(req)
	if !own {
		var ok bool
		if fb != req {
			want, ok = try(fb)
		}
		if !ok {
			want, _ = try(src)
		}
	}
	nd.Assert(got == want, "not the text of the requested language, the fallback language or the source")
	nd.Assert((err == nil) == (own && found), "the miss is not reported, or one is reported for a text of the requested language")
	nd.Assert(len(missed) == misses, "the callback is not called once for every language without the text")
	nd.Assert(l.Localize(m) == got, "Localize and LocalizeWithError differ")
	for _, c := range log {
		nd.Assert(c.domain == domain && c.plural == plural, "another domain or kind of lookup")
		nd.Assert(nd.And(c.id == m.Singular, c.ctx == "c"), "another message asked for")
		if plural {
			nd.Assert(c.n.(int) == n, "another number asked for")
		}
	}
	switch {
	case own && found:
		nd.Reach("own")
	case want == printed(src, m.Singular, vars...):
		nd.Reach("source")
	default:
		nd.Reach("fallback")
	}
}
