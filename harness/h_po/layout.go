package h_po

import (
	"github.com/vorlif/spreak/catalog/po"
	"github.com/vorlif/spreak/internal/zzverif/gen"
	"github.com/vorlif/spreak/internal/zzverif/nd"
)

// line is one logical line of a PO document: a comment, or a keyword with its text.
type line struct {
	key  string // "" for a comment
	text string // raw text between the quotes, or the whole comment line
	head bool   // first line of a message
	free bool   // blank lines may stand before it without detaching a comment
}

// white is a string of up to max blank characters, any of them.
func white(name string, want bool, max int, set string) string {
	if !want {
		return ""
	}
	return gen.OneOf(name, nd.Choice(name+".len", max+1), set)
}

// render writes l, with its layout chosen freely when vary is set.
func render(l line, vary bool, eol string) (string, bool) {
	if !vary {
		if l.key == "" {
			return l.text + eol, true
		}
		return l.key + " \"" + l.text + "\"" + eol, true
	}
	// the dimensions around the line and those inside it are varied in different runs
	before, inside, around := nd.Param("dim") == 0, nd.Param("dim") == 1, nd.Param("dim") == 2
	choice := func(name string, want bool, n int) int {
		if !want {
			return 0
		}
		return nd.Choice(name, n)
	}
	pre := ""
	if l.free {
		pre = white("blank", before, 2, " \t\n\r")
		if pre != "" {
			pre += "\n"
		}
	}
	in := white("indent", around, 2, " \t")
	tr := white("trail", around, 2, " \t\r\v")
	if choice("eol", around, 2) == 1 {
		if eol == "\n" {
			eol = "\r\n"
		} else {
			eol = "\n"
		}
	}
	if l.key == "" {
		return pre + in + l.text + tr + eol, true
	}
	gap := " "
	if inside {
		gap = white("gap", true, 2, " \t")
	}
	a, b := l.text, ""
	cut := false
	switch k := choice("split", inside, 2+len(l.text)); k {
	case 0:
	default:
		a, b = l.text[:k-1], l.text[k-1:]
		cut = true
	}
	s := pre + in + l.key + gap + "\"" + a + "\"" + tr + eol
	if cut {
		mid := nd.Choice("midblank", 2)
		if mid == 1 {
			s += eol
			gap = "" // a blank line inside a text may be rejected
		}
		if nd.Choice("extra", 2) == 1 {
			s += "\"\"" + eol // a line that adds nothing
		}
		s += white("indent2", true, 1, " \t") + "\"" + b + "\"" + tr + eol
	}
	return s, gap == " " // anything else may be rejected
}

var comments = []string{"# note", "#. extracted", "#: a.go:7 b.go:8", "#, fuzzy, c-format", "#", "#| msgid \"old\""}

type want struct {
	msg    *po.Message
	flags  []string
	tr, ex string
	refs   int
}

// Layout: a document of three messages, written with freely chosen layout at the
// lines number at and at+gap, is read as these messages or rejected.
func Layout() {
	x := nd.String("x", nd.Param("n"))
	for i := 0; i < len(x); i++ {
		nd.Assume(nd.And(nd.And(x[i] >= ' ', x[i] < 0x7f), nd.And(x[i] != '"', x[i] != '\\')))
	}
	var ws []want
	var ls []line
	add := func(w want, l ...line) {
		l[0].head, l[0].free = true, true
		for i := 1; i < len(l); i++ {
			l[i].free = l[i-1].key != ""
		}
		ws = append(ws, w)
		ls = append(ls, l...)
	}
	com := func(w *want, k int) []line {
		if k == len(comments) {
			return nil
		}
		switch k {
		case 0:
			w.tr = "note"
		case 1:
			w.ex = "extracted"
		case 2:
			w.refs = 2
		case 3:
			w.flags = []string{"fuzzy", "c-format"}
		}
		return []line{{text: comments[k]}}
	}
	w1 := want{msg: &po.Message{ID: "a" + x, Str: map[int]string{0: x}}}
	add(w1, line{key: "msgid", text: "a" + x}, line{key: "msgstr", text: x})
	w2 := want{msg: &po.Message{Context: "c" + x, ID: "b", IDPlural: x, Str: map[int]string{0: x, 1: "t" + x}}}
	l2 := com(&w2, nd.Param("com"))
	l2 = append(l2, line{key: "msgctxt", text: "c" + x}, line{key: "msgid", text: "b"}, line{key: "msgid_plural", text: x}, line{key: "msgstr[0]", text: x}, line{key: "msgstr[1]", text: "t" + x})
	add(w2, l2...)
	w3 := want{msg: &po.Message{ID: "z", Str: map[int]string{0: "last"}}}
	k := nd.Param("com")
	if nd.Choice("com3", 2) == 1 {
		k = len(comments)
	}
	l3 := com(&w3, k)
	l3 = append(l3, line{key: "msgid", text: "z"}, line{key: "msgstr", text: "last"})
	add(w3, l3...)

	eol := "\n"
	if nd.Choice("crlf", 2) == 1 {
		eol = "\r\n"
	}
	sep := nd.Choice("sep", 2) == 1
	at := nd.Choice("at", len(ls)+1)
	at2 := at + nd.Param("gap")
	s := ""
	plain := true
	for i, l := range ls {
		if i > 0 && l.head && sep {
			s += eol
		}
		r, ok := render(l, i == at || i == at2, eol)
		s += r
		plain = plain && ok
	}
	f, err := po.ParseString(s)
	if err != nil {
		nd.Assert(!plain, "a plain layout is rejected")
		nd.Reach("rejected")
		return
	}
	nd.Reach("read")
	cnt := 0
	for _, ms := range f.Messages {
		cnt += len(ms)
	}
	nd.Assert(cnt == len(ws), "wrong number of messages")
	for _, w := range ws {
		m := f.GetMessage(w.msg.Context, w.msg.ID)
		sameMessage(m, w.msg)
		nd.Assert(len(m.Str) == len(w.msg.Str), "translation forms appeared")
		c := m.Comment
		nd.Assert(c != nil, "message without comment structure")
		nd.Assert(c.Translator == w.tr, "translator comment changed")
		nd.Assert(c.Extracted == w.ex, "extracted comment changed")
		nd.Assert(len(c.References) == w.refs, "references changed")
		nd.Assert(len(c.Flags) == len(w.flags), "flags changed")
		for i, fl := range w.flags {
			nd.Assert(c.Flags[i] == fl, "flag changed")
		}
	}
}
