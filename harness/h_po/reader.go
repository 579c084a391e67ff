package h_po

import (
	"errors"
	"io"

	"github.com/vorlif/spreak/catalog/po"
	"github.com/vorlif/spreak/internal/zzverif/nd"
)

var errBroken = errors.New("broken reader")

// chunks delivers data in pieces: the first two of the given sizes, then the rest. It fails
// instead of delivering the byte at fail.
type chunks struct {
	data  []byte
	pos   int
	sizes []int
	fail  int
	with  bool // the fault comes together with the last bytes
	eof   bool // the end comes together with the last bytes
}

func (c *chunks) Read(p []byte) (int, error) {
	if c.fail >= 0 && c.pos >= c.fail {
		return 0, errBroken
	}
	if c.pos >= len(c.data) {
		return 0, io.EOF
	}
	n := len(c.data) - c.pos
	if len(c.sizes) > 0 {
		if c.sizes[0] < n {
			n = c.sizes[0]
		}
		c.sizes = c.sizes[1:]
	}
	if c.fail >= 0 && c.pos+n > c.fail {
		n = c.fail - c.pos
	}
	n = copy(p, c.data[c.pos:c.pos+n])
	c.pos += n
	if c.with && c.fail >= 0 && c.pos >= c.fail {
		return n, errBroken
	}
	if c.eof && c.pos >= len(c.data) {
		return n, io.EOF
	}
	return n, nil
}

const doc = "# head\nmsgid \"\"\nmsgstr \"Language: de\\n\"\n\n#, fuzzy\nmsgid \"a\"\nmsgstr \"\"\n\"x\"\n\nmsgctxt \"c\"\nmsgid \"b\"\nmsgid_plural \"bs\"\nmsgstr[0] \"0\"\n\nmsgstr[1] \"1\"\n\n\n# end\nmsgid \"z\"\nmsgstr \"last\"\n"

// Fault: the reader fails at any byte.
func Fault() {
	n := nd.Choice("at", len(doc)+1)
	c := &chunks{data: []byte(doc), fail: n, with: nd.Choice("with", 2) == 1}
	p := po.NewParser()
	p.SetIgnoreComments(nd.Choice("ignore", 2) == 1)
	f, err := p.Parse(c)
	nd.Assert(err != nil && f == nil, "a partial file is returned although the reader failed")
	nd.Reach("fault")
}

func sameFile(f, g *po.File) {
	nd.Assert(f.Header.Language == g.Header.Language, "header differs")
	nd.Assert(len(f.Messages) == len(g.Messages), "contexts differ")
	for ctx, ms := range f.Messages {
		nd.Assert(len(ms) == len(g.Messages[ctx]), "number of messages differs")
		for id, m := range ms {
			q := g.GetMessage(ctx, id)
			sameMessage(q, m)
			nd.Assert(len(m.Comment.Flags) == len(q.Comment.Flags), "flags differ")
			nd.Assert(m.Comment.Translator == q.Comment.Translator, "comment differs")
		}
	}
}

// Short: short reads change nothing.
func Short() {
	a := 1 + nd.Choice("first", len(doc))
	b := nd.Choice("second", nd.Param("k"))
	c := &chunks{data: []byte(doc), fail: -1, sizes: []int{a, 1 + b}, eof: nd.Choice("eof", 2) == 1}
	f, err := po.NewParser().Parse(c)
	nd.Assert(err == nil, "short reads make parsing fail")
	g, err := po.ParseString(doc)
	nd.Assert(err == nil, "document does not parse")
	nd.Assert(len(g.Messages) == 2, "document lost messages")
	sameFile(f, g)
	nd.Reach("short")
}

// Long: a line of any length around the buffer size is read or reported.
func Long() {
	n := nd.Param("n")
	b := make([]byte, n)
	for i := range b {
		b[i] = 'x'
	}
	s := "msgid \"a\"\nmsgstr \"" + string(b) + "\"\n\nmsgid \"b\"\nmsgstr \"t\"\n"
	f, err := po.ParseString(s)
	if err == nil {
		m := f.GetMessage("", "a")
		nd.Assert(m != nil && len(m.Str[0]) == n, "long text cut off")
		nd.Assert(f.GetMessage("", "b") != nil, "message after a long line lost")
	}
	nd.Reach("long")
}
