package h_cat

import (
	"bytes"

	"golang.org/x/text/language"

	"github.com/vorlif/spreak/catalog"
	"github.com/vorlif/spreak/catalog/cldrplural"
	"github.com/vorlif/spreak/internal/zzverif/gen"
	"github.com/vorlif/spreak/internal/zzverif/nd"
)

var langs = []language.Tag{language.English, language.Japanese, language.Polish, language.Arabic, language.Latvian, language.Spanish}
var langCats = [][]cldrplural.Category{
	{cldrplural.One, cldrplural.Other},
	{cldrplural.Other},
	{cldrplural.One, cldrplural.Few, cldrplural.Many, cldrplural.Other},
	{cldrplural.Zero, cldrplural.One, cldrplural.Two, cldrplural.Few, cldrplural.Many, cldrplural.Other},
	{cldrplural.Zero, cldrplural.One, cldrplural.Other},
	{cldrplural.One, cldrplural.Many, cldrplural.Other},
}

type jmsg struct {
	id, ctx, comment string
	has              [6]bool
	tr               [6]string
}

func (m *jmsg) key() string {
	if m.ctx != "" {
		return m.id + "_" + m.ctx
	}
	return m.id
}

func (m *jmsg) message() *catalog.JSONMessage {
	x := &catalog.JSONMessage{Comment: m.comment, Context: m.ctx, Translations: map[cldrplural.Category]string{}}
	for c := range m.has {
		if m.has[c] {
			x.Translations[cldrplural.Zero+cldrplural.Category(c)] = m.tr[c]
		}
	}
	return x
}

// jtext is any text of up to n bytes.
func jtext(name string, n int) string {
	return gen.UTF8(name, nd.Choice(name+".n", n+1))
}

// anyMsg is a message with the id; its forms are any of the categories, other always.
func anyMsg(id string, n int, forms bool) *jmsg {
	m := &jmsg{id: id}
	m.ctx = []string{"", "c", "x_c"}[nd.Choice("ctx", nd.Param("ctxs"))]
	if nd.Param("comment") == 1 && nd.Choice("comment", 2) == 1 {
		m.comment = "k" + gen.UTF8("comment", nd.Param("n"))
	}
	pick := -1
	if forms {
		pick = nd.Choice("pick", 6)
	}
	for c := 0; c < 6; c++ {
		if forms && c != pick {
			if m.has[c] = c == 5 || nd.Choice("form", 2) == 1; m.has[c] {
				m.tr[c] = []string{"zero", "one", "", "few", "many", "other"}[c]
			}
			continue
		}
		if c == 5 || forms && nd.Choice("form", 2) == 1 {
			m.has[c] = true
			m.tr[c] = jtext("t", n)
		}
	}
	return m
}

// expect compares the singular lookup with the message.
func expect(cat catalog.Catalog, m *jmsg) {
	s, err := cat.Lookup(m.ctx, m.id)
	nd.ObserveStr(s)
	if m.tr[5] != "" {
		nd.Assert(nd.And(err == nil, s == m.tr[5]), "singular text lost")
	} else {
		nd.Assert(nd.And(err != nil, s == m.id), "text for an empty translation")
	}
}

// Round: a catalog that is written and read again has the same messages.
func Round() {
	l := nd.Param("lang")
	msgs := catalog.JSONMessages{}
	var ms []*jmsg
	ids := []string{"a", "b", "a_c"}
	for k := 0; k < nd.Param("k"); k++ {
		id := ids[k]
		if nd.Param("ids") == 1 {
			id += gen.UTF8("id", 1)
		}
		m := anyMsg(id, nd.Param("n"), nd.Param("forms") == 1)
		for _, o := range ms {
			nd.Assume(o.key() != m.key())
		}
		ms = append(ms, m)
		msgs[m.key()] = m.message()
	}
	cat, err := catalog.NewJSONCatalogWithMessages(langs[l], "d", msgs)
	nd.Assert(err == nil, "messages rejected")
	var b bytes.Buffer
	nd.Assert(catalog.NewJSONEncoder(&b).Encode(cat) == nil, "catalog not written")
	nd.ObserveStr(b.String())
	back, err := catalog.NewJSONDecoder().Decode(langs[l], "d", b.Bytes())
	if len(ms) == 0 {
		return
	}
	nd.Assert(err == nil, "written catalog rejected")
	got := back.(catalog.JSONCatalog).Messages()
	nd.Assert(len(got) == len(ms), "number of messages")
	for _, m := range ms {
		x := got[m.key()]
		nd.Assert(x != nil, "message lost")
		nd.Assert(nd.And(x.Context == m.ctx, x.Comment == m.comment), "context or comment changed")
		only := true
		for c := 0; c < 5; c++ {
			only = only && !m.has[c]
		}
		n := 0
		for _, c := range langCats[l] {
			i := c - cldrplural.Zero
			s, ok := x.Translations[c]
			if only && c != cldrplural.Other {
				nd.Assert(!ok, "a form added to a message without plural")
				continue
			}
			nd.Assert(nd.And(ok, s == m.tr[i]), "translation changed")
			n++
		}
		nd.Assert(len(x.Translations) == n, "a form the language does not have")
		expect(back, m)
	}
	var b2 bytes.Buffer
	nd.Assert(catalog.NewJSONEncoder(&b2).Encode(back.(catalog.JSONCatalog)) == nil, "catalog not written again")
	nd.Assert(b.String() == b2.String(), "written catalog read and written again differs")
	nd.Reach("round")
}

// numberOf is any integer up to 2^53 or 2^15 of some type.
func numberOf() any {
	n := int64(0)
	if nd.Param("wide") == 1 {
		n = nd.Int64("n")
		nd.Assume(nd.And(n <= 1<<53, n >= -(1<<53)))
	} else {
		n = int64(nd.Int16("n"))
	}
	switch nd.Choice("type", nd.Param("types")) {
	case 1:
		return int(n)
	case 2:
		nd.Assume(n >= 0)
		return uint64(n)
	}
	return n
}

// Select: a plural lookup gives the form of the category of the number, of the message asked for.
func Select() {
	l := nd.Param("lang")
	set, _ := cldrplural.ForLanguage(langs[l])
	a := anyMsg("a", 1, true)
	b := &jmsg{id: "b", ctx: []string{"c", ""}[nd.Choice("bctx", min(2, 1+nd.Param("ids")))], has: [6]bool{true, true, true, true, true, true}, tr: [6]string{"B0", "B1", "B2", "B3", "B4", "B5"}}
	cat, err := catalog.NewJSONCatalogWithMessages(langs[l], "d", catalog.JSONMessages{a.key(): a.message(), b.key(): b.message()})
	nd.Assert(err == nil, "messages rejected")
	id, ctx := a.id, a.ctx
	if nd.Param("ids") > 0 {
		id = []string{"a", "b", "a_c", "", "z"}[nd.Choice("id", nd.Param("ids"))]
		ctx = []string{"", "c", "x_c", "y"}[nd.Choice("qctx", 4)]
	}
	var m *jmsg
	for _, x := range []*jmsg{a, b} {
		if x.ctx == ctx && x.id == id {
			m = x
		}
	}
	n := numberOf()
	got, err := cat.LookupPlural(ctx, id, n)
	nd.ObserveStr(got)
	nd.ObserveBool(err != nil)
	if m == nil {
		nd.Assert(nd.And(err != nil, got == id), "text for an unknown message")
		one, err := cat.Lookup(ctx, id)
		nd.Assert(nd.And(err != nil, one == id), "singular text for an unknown message")
		nd.Reach("unknown")
		return
	}
	c, errC := set.Evaluate(n)
	nd.Assert(errC == nil, "no category for a number")
	want := ""
	for k := 0; k < 6; k++ {
		if m.has[k] && nd.Decide(c == cldrplural.Zero+cldrplural.Category(k)) {
			want = m.tr[k]
		}
	}
	if want == "" {
		nd.Assert(nd.And(err != nil, got == id), "text for a form that is not translated")
		nd.Reach("untranslated")
	} else {
		nd.Assert(nd.And(err == nil, got == want), "not the form of the category")
		nd.Reach("form")
	}
}

// NoNumber: a lookup with a value that is no number gives the source text and an error.
func NoNumber() {
	cat, err := catalog.NewJSONCatalogWithMessages(language.English, "d", catalog.JSONMessages{"a": (&jmsg{has: [6]bool{1: true, 5: true}, tr: [6]string{1: "x", 5: "y"}}).message()})
	nd.Assert(err == nil, "messages rejected")
	var p *int
	v := []any{nil, "", "x", p, struct{}{}, []int{1}, true, "1.2.3", "--1", "9223372036854775808", uint64(1 << 63), int64(-1 << 63), "1c999"}[nd.Choice("v", 13)]
	got, err := cat.LookupPlural("", "a", v)
	nd.Assert(nd.And(err != nil, got == "a"), "a form for no number")
	nd.Reach("none")
}

// read decodes any text and uses the result.
func read(s string) {
	cat, err := catalog.NewJSONDecoder().Decode(language.English, "d", []byte(s))
	nd.ObserveBool(err != nil)
	nd.Assert((cat == nil) == (err != nil), "neither a catalog nor an error")
	if err != nil {
		return
	}
	for k, m := range cat.(catalog.JSONCatalog).Messages() {
		_, has := m.Translations[cldrplural.Other]
		nd.Assert(has, "message without text")
		got, err := cat.Lookup("", k)
		nd.Assert((err == nil) == (m.Context == "" && m.Translations[cldrplural.Other] != ""), "text of a message")
		nd.Assert(err == nil || got == k, "text of another message")
	}
	nd.Reach("decoded")
}

// JSONBytes: any bytes, alone or within a catalog.
func JSONBytes() {
	s := nd.String("s", nd.Param("n"))
	at := nd.Param("at")
	read([]string{"", "{", `{"a":`, `{"a":{"other":"`, `{"a":"b"`, `{"a":{"other":"x"`}[at] + s + []string{"", "}", "}", `"}}`, "}", "}}"}[at])
}

var jwords = []string{"{", "}", "[", "]", ":", ",", "null", "true", "0", `""`, `"a"`, `"b"`, `"a_c"`, `"other"`, `"Other"`, `"one"`, `"context"`, `"c"`, " "}

// JSONWords: any sequence of tokens.
func JSONWords() {
	s := ""
	for i := 0; i < nd.Param("k"); i++ {
		s += jwords[nd.Choice("w", len(jwords))]
	}
	read([]string{"", `{"a":`, `{"a":{"other":"x"`, `{"a_c":{`}[nd.Param("at")] + s + []string{"", "}", "}}", "}}"}[nd.Param("at")])
}

var spellings = []string{"one", "ONE", "One", "other", "Other", "OTHER", "comment", "context", "Context"}

// Keys: the keys of a message in any spelling and order give one result, whatever the order of maps.
func Keys() {
	k := nd.Param("k")
	s := `{"a_c":{`
	var want [4]string // one, other, comment, context
	var used []string
	for i := 0; i < k; i++ {
		w := spellings[nd.Choice("key", len(spellings))]
		for _, u := range used {
			nd.Assume(u != w)
		}
		used = append(used, w)
		if i > 0 {
			s += ","
		}
		v := string(rune('p' + i))
		switch w {
		case "context", "Context":
			v = []string{"c", ""}[i%2]
		}
		s += `"` + w + `":"` + v + `"`
	}
	s += "}}"
	// where keys differ in case only, any of them may win, but always the same
	var clear [4]bool
	for f, names := range [][]string{{"ONE", "One", "one"}, {"OTHER", "Other", "other"}, {"comment"}, {"Context", "context"}} {
		count := 0
		for _, n := range names {
			for i, u := range used {
				if u == n {
					count++
					want[f] = string(rune('p' + i))
					if f == 3 {
						want[f] = []string{"c", ""}[i%2]
					}
				}
			}
		}
		clear[f] = count < 2
	}
	cat, err := catalog.NewJSONDecoder().Decode(language.English, "d", []byte(s))
	again, err2 := catalog.NewJSONDecoder().Decode(language.English, "d", []byte(s))
	nd.ObserveBool(err != nil)
	nd.Assert((err == nil) == (err2 == nil), "accepted once only")
	if want[1] == "" {
		nd.Assert(err != nil, "message without other accepted")
		return
	}
	nd.Assert(err == nil, "message rejected")
	m, m2 := cat.(catalog.JSONCatalog).Messages()["a_c"], again.(catalog.JSONCatalog).Messages()["a_c"]
	nd.Assert(m != nil && m2 != nil, "message lost")
	got := [4]string{m.Translations[cldrplural.One], m.Translations[cldrplural.Other], m.Comment, m.Context}
	got2 := [4]string{m2.Translations[cldrplural.One], m2.Translations[cldrplural.Other], m2.Comment, m2.Context}
	for f := range got {
		nd.Assert(got[f] == got2[f], "the value depends on the order of a map")
		nd.Assert(!clear[f] || got[f] == want[f], "form, comment or context")
	}
	nd.Reach("keys")
}

// Message: a single message that is written and read again is the same, and writing leaves it as it was.
func Message() {
	m := &catalog.JSONMessage{}
	which := nd.Choice("which", 3)
	text := func(k int, name string) string {
		if k == which {
			return gen.UTF8(name, nd.Param("n"))
		}
		return name
	}
	if nd.Choice("nil", 2) == 1 {
		m.Translations = map[cldrplural.Category]string{}
	}
	if nd.Choice("comment", 2) == 1 {
		m.Comment = text(0, "comment")
	}
	if nd.Choice("ctx", 2) == 1 {
		m.Context = text(1, "ctx")
	}
	want := map[cldrplural.Category]string{}
	if m.Translations != nil {
		for c := cldrplural.Zero; c <= cldrplural.Other; c++ {
			if nd.Choice("form", 2) == 1 {
				want[c] = []string{"zero", "one", "", "few", "many", "other"}[c-cldrplural.Zero]
				if len(want) == 1 {
					want[c] = text(2, "t")
				}
				m.Translations[c] = want[c]
			}
		}
	}
	d, err := m.MarshalJSON()
	nd.Assert(err == nil, "message not written")
	nd.ObserveStr(string(d))
	nd.Assert(len(m.Translations) == len(want), "writing changed the message")
	if len(want) == 0 {
		want[cldrplural.Other] = ""
	}
	back := &catalog.JSONMessage{}
	nd.Assert(back.UnmarshalJSON(d) == nil, "written message rejected")
	nd.Assert(nd.And(back.Comment == m.Comment, back.Context == m.Context), "comment or context changed")
	nd.Assert(len(back.Translations) == len(want), "number of forms")
	for c, s := range want {
		g, ok := back.Translations[c]
		nd.Assert(nd.And(ok, g == s), "a form changed")
	}
	nd.Reach("message")
}
