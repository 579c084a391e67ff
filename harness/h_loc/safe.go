package h_loc

import (
	"golang.org/x/text/language"

	"github.com/vorlif/spreak"
	"github.com/vorlif/spreak/catalog"
	"github.com/vorlif/spreak/catalog/cldrplural"
	"github.com/vorlif/spreak/internal/zzverif/gen"
	"github.com/vorlif/spreak/internal/zzverif/nd"
	"github.com/vorlif/spreak/localize"
)

var headers = []string{
	"nplurals=2; plural=n != 1;",                    // built in
	"nplurals=3; plural=n > 3 ? n > 7 ? 2 : 1 : 0;", // interpreted
	"nplurals=2; plural=(n==1);",
}

// poText is a catalog with the rule and two texts.
func poText(rule, a, b string) []byte {
	return []byte("msgid \"\"\nmsgstr \"\"\n\"Content-Type: text/plain; charset=UTF-8\\n\"\n\"Plural-Forms: " + rule + "\\n\"\n\n" +
		"msgid \"id\"\nmsgid_plural \"ids\"\nmsgstr[0] \"" + a + "\"\nmsgstr[1] \"" + b + "\"\nmsgstr[2] \"two\"\n\n" +
		"msgctxt \"errors\"\nmsgid \"raw\"\nmsgstr \"" + b + "\"\n")
}

func jsonMessages(a, b string) catalog.JSONMessages {
	return catalog.JSONMessages{
		"id":         {Translations: map[cldrplural.Category]string{cldrplural.One: a, cldrplural.Other: b}},
		"raw_errors": {Context: "errors", Translations: map[cldrplural.Category]string{cldrplural.Other: b}},
	}
}

func realCat(kind int, lang language.Tag, domain, a, b string) catalog.Catalog {
	if kind < len(headers) {
		c, err := catalog.NewPoDecoder().Decode(lang, domain, poText(headers[kind], a, b))
		if err != nil {
			panic(err)
		}
		return c
	}
	c, err := catalog.NewJSONCatalogWithMessages(lang, domain, jsonMessages(a, b))
	if err != nil {
		panic(err)
	}
	return c
}

// Parallel: creating localizers and using them writes nothing that others can see.
func Parallel() {
	de, fr := language.German, language.French
	a, bb := "A"+gen.UTF8("a", 1), "B"
	nd.Assume(a[1:] != "\"" && a[1:] != "\\" && a[1:] != "\n" && a[1:] != "\r")
	kind := nd.Param("kind")
	opts := []spreak.BundleOption{
		spreak.WithSourceLanguage(language.English),
		spreak.WithDefaultDomain("d"),
		spreak.WithDomainLoader("d", &loader{cats: map[language.Tag]catalog.Catalog{de: realCat(kind, de, "d", a, bb), fr: realCat(kind, fr, "d", a, bb)}}),
		spreak.WithDomainLoader("e", &loader{cats: map[language.Tag]catalog.Catalog{fr: realCat(kind, fr, "e", a, bb)}}),
		spreak.WithLanguage(de, fr),
	}
	if nd.Param("printer") == 1 {
		opts = append(opts, spreak.WithPrinter(printer{}))
	}
	b := must(spreak.NewBundle(opts...))
	m := methods[nd.Choice("m", len(methods))]
	n := nd.Int("n")
	nd.Assume(nd.And(n < 1<<53, n > -1<<53))
	if kind == len(headers) {
		nd.Assume(nd.And(n < 1<<12, n > -1<<12))
	}
	q := []ask{{"d", "", "id", "p", n, nil}, {"e", "errors", "raw", "p", n, nil}, {"no", "no", "x", "p", n, nil}}[nd.Choice("ask", 3)]
	if nd.Param("vars") == 1 {
		q.vars = []any{"v"}
	}
	req := []any{[]any{"de"}, []any{fr}, []any{"ko", "fr;q=0.5, de;q=0.2"}}[nd.Choice("req", 3)].([]any)
	want := m.call(spreak.NewLocalizer(b, req...), spreak.NewKeyLocalizer(b, req...), q)
	shared := spreak.NewLocalizer(b, req...)
	sharedKey := spreak.NewKeyLocalizer(b, req...)
	nd.ObserveStr(want)
	nd.Concurrent(func() {
		l, k := shared, sharedKey
		if nd.Param("create") == 1 {
			l, k = spreak.NewLocalizer(b, req...), spreak.NewKeyLocalizer(b, req...)
		}
		got := m.call(l, k, q)
		nd.Assert(got == want, "another result")
		_ = l.HasDomain("d")
		_ = l.Domains()
		_ = l.Language()
		_ = b.SupportedLanguages()
		_ = b.Domains()
		_ = b.IsLanguageSupported(fr)
		_ = l.LocalizeError(&plainErr{"raw"})
		_ = l.Print("x")
		_ = l.Localize(&localize.Message{Singular: "id", Plural: "ids", Count: n})
	})
	nd.Reach("parallel")
}
