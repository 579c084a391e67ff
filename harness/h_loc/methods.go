package h_loc

import (
	"golang.org/x/text/language"

	"github.com/vorlif/spreak"
	"github.com/vorlif/spreak/catalog"
	"github.com/vorlif/spreak/internal/zzverif/gen"
	"github.com/vorlif/spreak/internal/zzverif/nd"
	"github.com/vorlif/spreak/localize"
)

// ask is what a method is told.
type ask struct {
	domain, ctx, id, plural string
	n                       any
	vars                    []any
}

type method struct {
	name string
	call func(l *spreak.Localizer, k *spreak.KeyLocalizer, a ask) string
}

// methods are the lookup methods; their names say what they take: D a domain, N a plural and a number,
// P a context, f arguments. The key localizer takes one key for both ids.
var methods = []method{
	{"Get", func(l *spreak.Localizer, k *spreak.KeyLocalizer, a ask) string { return l.Get(a.id) }},
	{"Getf", func(l *spreak.Localizer, k *spreak.KeyLocalizer, a ask) string { return l.Getf(a.id, a.vars...) }},
	{"DGet", func(l *spreak.Localizer, k *spreak.KeyLocalizer, a ask) string { return l.DGet(a.domain, a.id) }},
	{"DGetf", func(l *spreak.Localizer, k *spreak.KeyLocalizer, a ask) string {
		return l.DGetf(a.domain, a.id, a.vars...)
	}},
	{"NGet", func(l *spreak.Localizer, k *spreak.KeyLocalizer, a ask) string { return l.NGet(a.id, a.plural, a.n) }},
	{"NGetf", func(l *spreak.Localizer, k *spreak.KeyLocalizer, a ask) string {
		return l.NGetf(a.id, a.plural, a.n, a.vars...)
	}},
	{"DNGet", func(l *spreak.Localizer, k *spreak.KeyLocalizer, a ask) string {
		return l.DNGet(a.domain, a.id, a.plural, a.n)
	}},
	{"DNGetf", func(l *spreak.Localizer, k *spreak.KeyLocalizer, a ask) string {
		return l.DNGetf(a.domain, a.id, a.plural, a.n, a.vars...)
	}},
	{"PGet", func(l *spreak.Localizer, k *spreak.KeyLocalizer, a ask) string { return l.PGet(a.ctx, a.id) }},
	{"PGetf", func(l *spreak.Localizer, k *spreak.KeyLocalizer, a ask) string {
		return l.PGetf(a.ctx, a.id, a.vars...)
	}},
	{"DPGet", func(l *spreak.Localizer, k *spreak.KeyLocalizer, a ask) string {
		return l.DPGet(a.domain, a.ctx, a.id)
	}},
	{"DPGetf", func(l *spreak.Localizer, k *spreak.KeyLocalizer, a ask) string {
		return l.DPGetf(a.domain, a.ctx, a.id, a.vars...)
	}},
	{"NPGet", func(l *spreak.Localizer, k *spreak.KeyLocalizer, a ask) string {
		return l.NPGet(a.ctx, a.id, a.plural, a.n)
	}},
	{"NPGetf", func(l *spreak.Localizer, k *spreak.KeyLocalizer, a ask) string {
		return l.NPGetf(a.ctx, a.id, a.plural, a.n, a.vars...)
	}},
	{"DNPGet", func(l *spreak.Localizer, k *spreak.KeyLocalizer, a ask) string {
		return l.DNPGet(a.domain, a.ctx, a.id, a.plural, a.n)
	}},
	{"DNPGetf", func(l *spreak.Localizer, k *spreak.KeyLocalizer, a ask) string {
		return l.DNPGetf(a.domain, a.ctx, a.id, a.plural, a.n, a.vars...)
	}},
	{"kGet", func(l *spreak.Localizer, k *spreak.KeyLocalizer, a ask) string { return k.Get(a.id) }},
	{"kGetf", func(l *spreak.Localizer, k *spreak.KeyLocalizer, a ask) string { return k.Getf(a.id, a.vars...) }},
	{"kDGet", func(l *spreak.Localizer, k *spreak.KeyLocalizer, a ask) string { return k.DGet(a.domain, a.id) }},
	{"kDGetf", func(l *spreak.Localizer, k *spreak.KeyLocalizer, a ask) string {
		return k.DGetf(a.domain, a.id, a.vars...)
	}},
	{"kNGet", func(l *spreak.Localizer, k *spreak.KeyLocalizer, a ask) string { return k.NGet(a.id, a.n) }},
	{"kNGetf", func(l *spreak.Localizer, k *spreak.KeyLocalizer, a ask) string {
		return k.NGetf(a.id, a.n, a.vars...)
	}},
	{"kDNGet", func(l *spreak.Localizer, k *spreak.KeyLocalizer, a ask) string {
		return k.DNGet(a.domain, a.id, a.n)
	}},
	{"kDNGetf", func(l *spreak.Localizer, k *spreak.KeyLocalizer, a ask) string {
		return k.DNGetf(a.domain, a.id, a.n, a.vars...)
	}},
	{"kPGet", func(l *spreak.Localizer, k *spreak.KeyLocalizer, a ask) string { return k.PGet(a.ctx, a.id) }},
	{"kPGetf", func(l *spreak.Localizer, k *spreak.KeyLocalizer, a ask) string {
		return k.PGetf(a.ctx, a.id, a.vars...)
	}},
	{"kDPGet", func(l *spreak.Localizer, k *spreak.KeyLocalizer, a ask) string {
		return k.DPGet(a.domain, a.ctx, a.id)
	}},
	{"kDPGetf", func(l *spreak.Localizer, k *spreak.KeyLocalizer, a ask) string {
		return k.DPGetf(a.domain, a.ctx, a.id, a.vars...)
	}},
	{"kNPGet", func(l *spreak.Localizer, k *spreak.KeyLocalizer, a ask) string {
		return k.NPGet(a.ctx, a.id, a.n)
	}},
	{"kNPGetf", func(l *spreak.Localizer, k *spreak.KeyLocalizer, a ask) string {
		return k.NPGetf(a.ctx, a.id, a.n, a.vars...)
	}},
	{"kDNPGet", func(l *spreak.Localizer, k *spreak.KeyLocalizer, a ask) string {
		return k.DNPGet(a.domain, a.ctx, a.id, a.n)
	}},
	{"kDNPGetf", func(l *spreak.Localizer, k *spreak.KeyLocalizer, a ask) string {
		return k.DNPGetf(a.domain, a.ctx, a.id, a.n, a.vars...)
	}},
	{"Localize", func(l *spreak.Localizer, k *spreak.KeyLocalizer, a ask) string {
		return l.Localize(&localize.Message{Context: a.ctx, Singular: a.id, Vars: a.vars})
	}},
	{"NLocalize", func(l *spreak.Localizer, k *spreak.KeyLocalizer, a ask) string {
		return l.Localize(&localize.Message{Context: a.ctx, Singular: a.id, Plural: a.plural, Count: a.n.(int), Vars: a.vars})
	}},
	{"DNLocalize", func(l *spreak.Localizer, k *spreak.KeyLocalizer, a ask) string {
		m := &domMsg{has: true, domain: a.domain}
		m.Message = localize.Message{Context: a.ctx, Singular: a.id, Plural: a.plural, Count: a.n.(int), Vars: a.vars}
		return k.Localize(m)
	}},
}

// Methods: every method asks for what its name says, and applies its arguments to the text found.
func Methods() {
	m := methods[nd.Param("m")]
	var log []call
	de := language.German
	found := nd.Choice("found", 2) == 1
	cat := func(domain string) *loader {
		c := &fake{lang: de, domain: domain, text: "T" + domain, log: &log}
		if !found {
			c.err = errNone
		}
		return &loader{cats: map[language.Tag]catalog.Catalog{de: c}}
	}
	b := must(spreak.NewBundle(
		spreak.WithSourceLanguage(language.English),
		spreak.WithPrinter(printer{}),
		spreak.WithDefaultDomain("d"),
		spreak.WithDomainLoader("", cat("")),
		spreak.WithDomainLoader("d", cat("d")),
		spreak.WithDomainLoader("e", cat("e")),
		spreak.WithLanguage(de)))
	own := "d"
	l, k := spreak.NewLocalizer(b, "de"), spreak.NewKeyLocalizer(b, "de")
	if nd.Choice("own domain", 2) == 1 {
		own = []string{"", "e", "no"}[nd.Choice("own", 3)]
		l, k = spreak.NewLocalizerForDomain(b, own, "de"), spreak.NewKeyLocalizerForDomain(b, own, "de")
	}
	nd.Assert(l.DefaultDomain() == own && k.DefaultDomain() == own, "default domain")
	n := nd.Int("n")
	nd.Assume(nd.And(n < 1<<53, n > -1<<53))
	a := ask{domain: []string{"", "d", "e", "no"}[nd.Choice("domain", 4)], n: n}
	a.ctx = gen.UTF8("ctx", nd.Choice("ctx.n", 2))
	a.id = gen.UTF8("id", nd.Choice("id.n", 3))
	a.plural = gen.UTF8("plural", nd.Choice("plural.n", 2))
	a.vars = [][]any{nil, {5}, {"v", 6}}[nd.Choice("vars", 3)]

	name := m.name
	want := call{lang: de, domain: own, id: a.id}
	takes := func(c byte) bool {
		if len(name) == 0 || name[0] != c {
			return false
		}
		name = name[1:]
		return true
	}
	key := takes('k')
	if takes('D') {
		want.domain = a.domain
	}
	if takes('N') {
		want.plural = true
	}
	if takes('P') {
		want.ctx = a.ctx
	}
	vars := a.vars
	switch name {
	case "Get":
		vars = nil
	case "Getf":
	default:
		want.ctx, want.plural = a.ctx, want.plural && a.plural != ""
	}

	got := m.call(l, k, a)
	nd.ObserveStr(got)
	if want.domain == "no" {
		nd.Assert(len(log) == 0, "another domain asked")
	} else {
		nd.Assert(len(log) == 1, "not asked once")
		c := log[0]
		nd.Assert(c.lang == want.lang && c.domain == want.domain && c.plural == want.plural, "another domain or kind of lookup")
		nd.Assert(nd.And(c.id == want.id, c.ctx == want.ctx), "another message asked for")
		if want.plural {
			nd.Assert(c.n.(int) == n, "another number asked for")
		}
	}
	text := printed(language.English, a.id, vars...)
	if found && want.domain != "no" {
		text = printed(de, "T"+want.domain, vars...)
	} else if want.plural && !key && a.plural != "" && nd.Decide(nd.And(n != 1, n != -1)) {
		text = printed(language.English, a.plural, vars...)
	}
	nd.Assert(got == text, "not the text found with the arguments given")
	nd.Reach("asked")
}

// Print formats a text in the language of the localizer, or in the one it falls back to.
func Print() {
	de, fr := language.German, language.French
	b := must(spreak.NewBundle(
		spreak.WithSourceLanguage(language.English),
		spreak.WithFallbackLanguage(fr),
		spreak.WithPrinter(printer{}),
		spreak.WithDomainLoader("", &loader{cats: map[language.Tag]catalog.Catalog{de: &fake{}, fr: &fake{}}}),
		spreak.WithLanguage(de)))
	i := nd.Choice("lang", 4)
	l := spreak.NewLocalizer(b, []string{"de", "fr", "en", "ko"}[i])
	s := gen.UTF8("s", nd.Choice("n", 3))
	vars := [][]any{nil, {5}, {"v", 6}}[nd.Choice("vars", 3)]
	want := []language.Tag{de, fr, language.English, fr}[i]
	got := l.Print(s, vars...)
	nd.ObserveStr(got)
	nd.Assert(got == printed(want, s, vars...), "not printed in the language of the localizer")
	nd.Assert(l.Language() == want, "language of the localizer")
	nd.Assert(spreak.NewKeyLocalizer(b, language.Korean, "de").Print(s, vars...) == printed(de, s, vars...), "not printed in the language of the localizer")
	nd.Reach("printed")
}
