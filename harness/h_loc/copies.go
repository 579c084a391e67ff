package h_loc

import (
	"golang.org/x/text/language"

	"github.com/vorlif/spreak"
	"github.com/vorlif/spreak/catalog"
	"github.com/vorlif/spreak/catalog/cldrplural"
	"github.com/vorlif/spreak/internal/zzverif/gen"
	"github.com/vorlif/spreak/internal/zzverif/nd"
	"github.com/vorlif/spreak/localize"
)

// text is any text of up to n bytes that needs no escape in a PO file.
func plainText(name string, n int) string {
	s := gen.UTF8(name, nd.Choice(name+".n", n+1))
	for i := 0; i < len(s); i++ {
		nd.Assume(nd.And(nd.And(s[i] != '"', s[i] != '\\'), nd.And(s[i] != '\n', s[i] != '\r')))
	}
	return s
}

type answer struct {
	s  string
	ok bool
}

func answers(c catalog.Catalog) []answer {
	var r []answer
	add := func(s string, err error) { r = append(r, answer{s, err == nil}) }
	for _, id := range []string{"id", "ids", "raw", "x"} {
		for _, ctx := range []string{"", "errors", "c"} {
			add(c.Lookup(ctx, id))
		}
		add(c.LookupPlural("", id, 1))
		add(c.LookupPlural("", id, 2))
	}
	return r
}

func sameAnswers(a, b []answer) {
	nd.Assert(len(a) == len(b), "harness: answers")
	for i := range a {
		nd.Assert(a[i].ok == b[i].ok && len(a[i].s) == len(b[i].s), "another answer")
		nd.Assert(a[i].s == b[i].s, "another answer")
	}
}

// Catalog: what a catalog hands out and what it was made of are no longer its own.
func Catalog() {
	kind := nd.Param("kind")
	a, b, junk := plainText("a", 1), plainText("b", 1), plainText("junk", 1)
	de := language.German
	var c catalog.Catalog
	spoil := func() {}
	if kind < len(headers) {
		data := poText(headers[kind], a, b)
		var err error
		c, err = catalog.NewPoDecoder().Decode(de, "d", data)
		nd.Assume(err == nil)
		spoil = func() {
			for i := range data {
				data[i] = 'x'
			}
		}
	} else {
		msgs := jsonMessages(a, b)
		var err error
		c, err = catalog.NewJSONCatalogWithMessages(de, "d", msgs)
		nd.Assert(err == nil, "messages rejected")
		spoil = func() {
			for _, m := range msgs {
				m.Context, m.Comment = junk, junk
				m.Translations[cldrplural.One] = junk
				m.Translations[cldrplural.Other] = junk
			}
			msgs["x"] = &catalog.JSONMessage{Translations: map[cldrplural.Category]string{cldrplural.Other: junk}}
			delete(msgs, "id")
		}
	}
	before := answers(c)
	spoil()
	sameAnswers(before, answers(c))
	switch c := c.(type) {
	case *catalog.GettextCatalog:
		m := c.Messages()
		for ctx := range m {
			for id, x := range m[ctx] {
				tr := x.Translations()
				for i := range tr {
					tr[i] = junk
				}
				tr[7] = junk
				t2 := x.Clone().Translations()
				clear(t2)
				m[ctx][id] = x.Clone()
				delete(m[ctx], id)
			}
			m[ctx]["x"] = nil
		}
		m["c"] = nil
		delete(m, "")
		n := c.Messages()
		nd.Assert(len(n) == len(c.Messages()) && n["c"] == nil, "messages of the catalog changed")
	case catalog.JSONCatalog:
		m := c.Messages()
		n := len(m)
		for _, x := range m {
			x.Context, x.Comment = junk, junk
			for k := range x.Translations {
				x.Translations[k] = junk
			}
			clear(x.Translations)
		}
		m["x"] = &catalog.JSONMessage{}
		delete(m, "id")
		nd.Assert(len(c.Messages()) == n, "messages of the catalog changed")
	}
	sameAnswers(before, answers(c))
	nd.Reach("spoiled")
}

// Shared: what a bundle or localizer hands out, and what it is given, is not its own.
func Shared() {
	de, fr := language.German, language.French
	var log []call
	la, lb := &loader{cats: map[language.Tag]catalog.Catalog{}}, &loader{cats: map[language.Tag]catalog.Catalog{}}
	for _, t := range []language.Tag{de, fr} {
		la.cats[t] = &fake{lang: t, domain: "d", text: "T" + t.String(), log: &log}
		lb.cats[t] = &fake{lang: t, domain: "e", text: "E" + t.String(), log: &log}
	}
	given := []any{de, "fr"}
	b := must(spreak.NewBundle(spreak.WithSourceLanguage(language.English), spreak.WithPrinter(printer{}), spreak.WithDefaultDomain("d"),
		spreak.WithDomainLoader("d", la), spreak.WithDomainLoader("e", lb), spreak.WithLanguage(given...)))
	junk := plainText("junk", 1)
	want := []any{"fr", de}
	l := spreak.NewLocalizer(b, want...)
	vars := []any{1, "x"}
	vars = append(vars, 9)[:2]
	msg := &localize.Message{Singular: "s", Vars: vars}
	step := func(i int) {
		switch i {
		case 0:
			d := b.Domains()
			for i := range d {
				d[i] = junk
			}
			_ = append(d[:0], "q")
		case 1:
			s := b.SupportedLanguages()
			for i := range s {
				s[i] = language.Korean
			}
		case 2:
			d := l.Domains()
			for i := range d {
				d[i] = junk
			}
		case 3:
			given[0], given[1] = language.Korean, junk
			want[0], want[1] = language.Korean, junk
		case 4:
			_ = l.Localize(msg)
			nd.Assert(len(msg.Vars) == 2 && vars[:3][2].(int) == 9 && vars[0].(int) == 1, "the arguments of a message changed")
		case 5:
			e := l.LocalizeError(&plainErr{"p"})
			if le, ok := e.(*localize.Error); ok {
				le.Translation, le.Wrapped = junk, nil
			}
		case 6:
			x := spreak.ExpandLanguage(fr)
			for i := range x {
				x[i] = junk
			}
		case 7:
			clear(la.cats)
			clear(lb.cats)
		}
	}
	state := func() string {
		s := ""
		for _, q := range []any{"de", "fr", "en", "ko"} {
			l := spreak.NewLocalizer(b, q)
			s += l.Get("a") + l.DGet("e", "b") + l.Language().String()
			if l.HasDomain("d") {
				s += "+"
			}
			if l.HasDomain("q") {
				s += "-"
			}
		}
		s += l.Get("a") + l.Language().String()
		for _, t := range []language.Tag{de, fr, language.English, language.Korean} {
			if b.IsLanguageSupported(t) {
				s += t.String()
			}
			for _, u := range b.SupportedLanguages() {
				if u == t {
					s += "s" + t.String()
				}
			}
		}
		n := 0
		for _, d := range b.Domains() {
			if d == "d" || d == "e" {
				n++
			}
		}
		for _, d := range l.Domains() {
			if d == "d" || d == "e" {
				n++
			}
		}
		return s + string(rune('0'+n))
	}
	before := state()
	nd.ObserveStr(before)
	i, j := nd.Choice("i", 8), nd.Choice("j", 8)
	step(i)
	step(j)
	nd.Assert(state() == before, "the bundle or localizer changed")
	nd.Reach("spoiled")
}

// Rules: rule sets handed out are not shared.
func Rules() {
	tags := []language.Tag{language.English, language.Polish, language.Arabic, language.Japanese, language.Und, language.Latvian}
	t := tags[nd.Choice("lang", len(tags))]
	s, _ := cldrplural.ForLanguage(t)
	cat, err := catalog.NewJSONCatalogWithMessages(t, "", jsonMessages("a", "b"))
	nd.Assert(err == nil, "messages rejected")
	n := nd.Int16("n")
	want, _ := s.Evaluate(n)
	cats := len(s.Categories)
	x, errX := cat.LookupPlural("", "id", n)
	for i := range s.Categories {
		s.Categories[i] = cldrplural.Zero
	}
	s.FormFunc = func(*cldrplural.Operands) cldrplural.Category { return cldrplural.Zero }
	r, _ := cldrplural.ForLanguage(t)
	got, _ := r.Evaluate(n)
	nd.Assert(got == want && len(r.Categories) == cats && r.Categories[cats-1] == cldrplural.Other, "the rules changed")
	y, errY := cat.LookupPlural("", "id", n)
	nd.Assert(x == y && (errX == nil) == (errY == nil), "the catalog changed")
	nd.Reach("rules")
}
