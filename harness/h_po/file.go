package h_po

import (
	"bytes"
	"strings"

	"github.com/vorlif/spreak/catalog/po"
	"github.com/vorlif/spreak/internal/zzverif/gen"
	"github.com/vorlif/spreak/internal/zzverif/nd"
)

func text(name string, n int) string {
	return gen.UTF8(name, n)
}

// word is printable ASCII without blanks, quotes, commas, colons and comment characters.
func word(name string, n int) string {
	return gen.Word(name, n, ",:\"#")
}

func encode(f *po.File, wrap int) []byte {
	var buf bytes.Buffer
	enc := po.NewEncoder(&buf)
	enc.SetWrapWidth(wrap)
	nd.Assert(enc.Encode(f) == nil, "encoding a file fails")
	return buf.Bytes()
}

func nonEmpty(m map[int]string) map[int]string {
	r := map[int]string{}
	for k, v := range m {
		if v != "" {
			r[k] = v
		}
	}
	return r
}

func sameMessage(got, want *po.Message) {
	nd.Assert(got != nil, "a message is lost")
	nd.Assert(got.Context == want.Context, "context changed")
	nd.Assert(got.ID == want.ID, "id changed")
	nd.Assert(got.IDPlural == want.IDPlural, "plural id changed")
	for k, v := range want.Str {
		nd.Assert(got.Str[k] == v, "translation changed")
	}
	for k, v := range got.Str {
		nd.Assert(v == want.Str[k], "translation appeared")
	}
}

// FileRoundTrip: encode then parse gives the same message back. Which field is
// arbitrary is selected by the parameter "field".
func FileRoundTrip() {
	n, field, wrap := nd.Param("n"), nd.Param("field"), nd.Param("wrap")
	m := &po.Message{ID: "id", Str: map[int]string{}}
	x := text("x", n)
	switch field {
	case 0: // message id
		nd.Assume(n > 0)
		m.ID = x
		m.Str[0] = "tr"
	case 1: // context
		m.Context = x
		m.Str[0] = "tr"
	case 2: // translation
		m.Str[0] = x
	case 3: // plural id
		m.IDPlural = x
		m.Str[0] = "one"
		m.Str[1] = "other"
	case 4: // one plural form, any index
		m.IDPlural = "ids"
		k := nd.Choice("k", 4)
		have := nd.Choice("have", 16)
		for i := 0; i < 4; i++ {
			if have>>i&1 == 1 {
				m.Str[i] = "form"
			}
		}
		m.Str[k] = x
	}
	f := po.NewFile()
	if nd.Choice("header", 2) == 1 {
		f.Header.Language = "de"
	} else {
		f.Header = nil
	}
	f.AddMessage(m)
	second := nd.Choice("second", 2) == 1
	other := &po.Message{ID: "zz", Context: "other", Str: map[int]string{0: "last"}}
	if second {
		f.AddMessage(other)
	}
	out := encode(f, wrap)
	nd.ObserveStr(string(out))
	g, err := po.Parse(out)
	nd.Assert(err == nil, "the encoded file does not parse")
	sameMessage(g.GetMessage(m.Context, m.ID), m)
	cnt := 0
	for _, ms := range g.Messages {
		cnt += len(ms)
	}
	if second {
		nd.Assert(cnt == 2, "wrong number of messages")
		sameMessage(g.GetMessage("other", "zz"), other)
	} else {
		nd.Assert(cnt == 1, "wrong number of messages")
	}
	nd.Reach("roundtrip")
}

func isSpace(c byte) bool { return c == ' ' || c >= 9 && c <= 13 }

// CommentRoundTrip: comments, flags and references survive encode and parse, and
// stay attached to their message.
func CommentRoundTrip() {
	n, field, wrap := nd.Param("n"), nd.Param("field"), nd.Param("wrap")
	c := &po.Comment{}
	var x string
	switch field {
	case 0, 1:
		x = nd.String("x", n)
		for i := 0; i < n; i++ {
			nd.Assume(nd.And(x[i] < 0x80, nd.Or(x[i] >= ' ', x[i] == '\n')))
		}
		// the format keeps neither blanks around a line nor empty lines
		for i := 0; i < n; i++ {
			first := i == 0 || x[i-1] == '\n'
			last := i == n-1 || x[i+1] == '\n'
			if first || last {
				nd.Assume(nd.And(x[i] != ' ', x[i] != '\n'))
			}
		}
		if field == 0 {
			c.Translator = x
		} else {
			c.Extracted = x
		}
	case 2:
		k := 1 + nd.Choice("flags", 2)
		for i := 0; i < k; i++ {
			c.Flags = append(c.Flags, word("flag", n))
		}
	case 3:
		k := 1 + nd.Choice("refs", 2)
		for i := 0; i < k; i++ {
			line := nd.Int("line")
			nd.Assume(nd.And(line > 0, line < nd.Param("lines")))
			c.References = append(c.References, &po.Reference{Path: word("path", n), Line: line})
		}
	}
	m := &po.Message{Comment: c, ID: "id", Str: map[int]string{0: "tr"}}
	f := &po.File{Messages: po.Messages{}}
	f.AddMessage(m)
	// neighbours without any comment
	f.AddMessage(&po.Message{ID: "a", Str: map[int]string{0: "first"}})
	f.AddMessage(&po.Message{ID: "z", Str: map[int]string{0: "last"}})
	out := encode(f, wrap)
	nd.ObserveStr(string(out))
	g, err := po.Parse(out)
	nd.Assert(err == nil, "the encoded file does not parse")
	r := g.GetMessage("", "id")
	nd.Assert(r != nil && r.Comment != nil, "message lost")
	switch field {
	case 0:
		sameWords(r.Comment.Translator, x, wrap)
	case 1:
		sameWords(r.Comment.Extracted, x, wrap)
	}
	nd.Assert(len(r.Comment.Flags) == len(c.Flags), "number of flags changed")
	for i := range c.Flags {
		nd.Assert(r.Comment.HasFlag(c.Flags[i]), "flag lost")
	}
	nd.Assert(len(r.Comment.References) == len(c.References), "number of references changed")
	for _, w := range c.References {
		ok := false
		for _, q := range r.Comment.References {
			ok = nd.Or(ok, nd.And(q.Path == w.Path, q.Line == w.Line))
		}
		nd.Assert(ok, "reference changed")
	}
	for _, id := range []string{"a", "z"} {
		q := g.GetMessage("", id)
		nd.Assert(q != nil, "neighbour lost")
		nd.Assert(q.Comment == nil || len(q.Comment.Flags) == 0 && q.Comment.Translator == "" && q.Comment.Extracted == "" && len(q.Comment.References) == 0, "comment attached to another message")
	}
	nd.Reach("roundtrip")
}

func sameWords(got, want string, wrap int) {
	if wrap <= 0 {
		nd.Assert(got == want, "comment text changed")
		return
	}
	a, b := strings.Fields(got), strings.Fields(want)
	nd.Assert(strings.Join(a, " ") == strings.Join(b, " "), "comment words changed")
}

// HeaderRoundTrip: header fields survive encode and parse.
func HeaderRoundTrip() {
	n := nd.Param("n")
	x := nd.String("x", n)
	for i := 0; i < n; i++ {
		nd.Assume(nd.And(x[i] < 0x80, x[i] >= ' '))
	}
	if n > 0 {
		nd.Assume(nd.And(x[0] != ' ', x[n-1] != ' '))
	}
	keys := []string{po.HeaderProjectIDVersion, po.HeaderReportMsgIDBugsTo, po.HeaderPOTCreationDate, po.HeaderPORevisionDate, po.HeaderLastTranslator, po.HeaderLanguageTeam,
		po.HeaderLanguage, po.HeaderMIMEVersion, po.HeaderContentType, po.HeaderContentTransferEncoding, po.HeaderPluralForms, po.HeaderXGenerator, "X-Custom"}
	k := nd.Choice("key", len(keys))
	f := po.NewFile()
	f.Header.Set(keys[k], x)
	f.AddMessage(&po.Message{ID: "id", Str: map[int]string{0: "tr"}})
	g, err := po.Parse(encode(f, nd.Param("wrap")))
	nd.Assert(err == nil, "the encoded file does not parse")
	for i, key := range keys {
		if i == k {
			nd.Assert(g.Header.Get(key) == x, "header value changed")
		} else {
			nd.Assert(g.Header.Get(key) == "", "header value appeared")
		}
	}
	nd.Assert(g.GetMessage("", "id") != nil && g.GetMessage("", "id").Str[0] == "tr", "message lost")
	nd.Reach("roundtrip")
}
