package h_po

import (
	"github.com/vorlif/spreak/catalog/po"
	"github.com/vorlif/spreak/internal/zzverif/nd"
)

func parse(s string) (*po.File, error) {
	p := po.NewParser()
	p.SetIgnoreComments(nd.Param("ignore") == 1)
	f, err := p.Parse(&chunks{data: []byte(s), fail: -1})
	nd.Assert((f == nil) == (err != nil), "neither a file nor an error")
	return f, err
}

// observe walks the whole result, so that a damaged structure would show.
func observe(f *po.File, err error) {
	if err != nil {
		nd.Assert(err.Error() != "", "error without text")
		nd.Reach("error")
		return
	}
	nd.Assert(f.Header != nil, "file without header")
	n := 0
	for ctx, ms := range f.Messages {
		for id, m := range ms {
			n++
			nd.Assert(m != nil, "nil message")
			nd.Assert(nd.And(m.ID == id, m.Context == ctx), "message stored under a different key")
			nd.Assert(id != "", "message without id")
		}
	}
	nd.ObserveInt(int64(n))
	nd.Reach("file")
}

// Bytes: any bytes.
func Bytes() {
	observe(parse(nd.String("s", nd.Param("n"))))
}

var starts = []string{
	"msgid ", "msgid \"", "msgstr", "msgstr \"", "msgstr[", "msgstr[0] \"", "msgctxt \"", "msgid_plural \"", "\"", "#", "#, ", "#: ", "#| ", "#| msgid", "#| msgctxt", "#~ ", "# ", "#.", " ", "\n",
}

// Tail: a keyword followed by any bytes, alone or after a message.
func Tail() {
	s := starts[nd.Choice("start", len(starts))] + nd.String("s", nd.Param("n"))
	switch nd.Choice("pre", 3) {
	case 1:
		s = "msgid \"a\"\nmsgid_plural \"b\"\nmsgstr[0] \"c\"\n" + s
	case 2:
		s = "#, fuzzy\n#: a.go:1\nmsgid \"a\"\n" + s
	}
	if nd.Choice("post", 2) == 1 {
		s += "\nmsgid \"z\"\nmsgstr \"y\"\n"
	}
	observe(parse(s))
}

var lines = []string{
	"", " ", "# c", "#", "#. x", "#: a:1", "#,fuzzy", "#| msgid \"p\"", "#| \"q\"", "#| msgctxt \"c\"", "#~ msgid \"o\"", "#|x",
	"#|msgid", "#|msgctxt", "#|\"q\"", "msgid\"a\"", "msgctxt\"c\"", "msgid_plural\"p\"", "msgstr\"t\"", "msgstr [1]\"t\"", "msgid", "msgstr[99999999999999999999] \"\"",
	"msgctxt \"c\"", "msgid \"a\"", "msgid \"\"", "msgid \"b\"", "msgid_plural \"as\"", "msgstr \"t\"", "msgstr[0] \"t0\"", "msgstr[1] \"t1\"", "msgstr[9] \"t9\"", "\"more\"", "\"K: v\\n\"", "junk",
}

// Lines: any sequence of lines of these kinds.
func Lines() {
	s := ""
	for i := 0; i < nd.Param("k"); i++ {
		s += lines[nd.Choice("line", len(lines))] + "\n"
	}
	observe(parse(s))
}

var pieces = []string{"#", "|", "~", ",", ":", " ", "\t", "\n", "msgid", "msgctxt", "msgstr", "_plural", "[", "0", "]", "\"", "\\", "a"}

// Glue: any sequence of these pieces.
func Glue() {
	s := ""
	for i := 0; i < nd.Param("k"); i++ {
		s += pieces[nd.Choice("piece", len(pieces))]
	}
	observe(parse(s))
}
