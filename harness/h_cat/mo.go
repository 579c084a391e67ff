package h_cat

import (
	"bytes"
	"errors"
	"io"
	"strings"

	"golang.org/x/text/language"

	"github.com/vorlif/spreak/catalog"
	"github.com/vorlif/spreak/catalog/po"
	"github.com/vorlif/spreak/internal/zzverif/gen"
	"github.com/vorlif/spreak/internal/zzverif/nd"
)

// moMsg is one entry of an MO file as stored.
type moMsg struct{ id, str string }

type moLayout struct {
	big   bool
	order []int // order of the sections: 0 id table, 1 translation table, 2 ids, 3 translations
	pad   [4]string
	major uint16
	minor uint16
	share bool // a translation equal to the end of another one is not stored again
}

// cells writes the 32-bit words of a file, remembering where each field is.
type moFile struct {
	data  []byte
	words []int // positions of the header and table fields
}

func put32(b []byte, big bool, v uint32) {
	if big {
		b[0], b[1], b[2], b[3] = byte(v>>24), byte(v>>16), byte(v>>8), byte(v)
	} else {
		b[3], b[2], b[1], b[0] = byte(v>>24), byte(v>>16), byte(v>>8), byte(v)
	}
}

// build lays the messages out as described by the GNU gettext manual.
func build(ms []moMsg, l moLayout) *moFile {
	n := len(ms)
	f := &moFile{data: make([]byte, 28)}
	idOff, strOff := make([]int, n), make([]int, n)
	var tab [2]int
	for _, s := range l.order {
		f.data = append(f.data, l.pad[s]...)
		switch s {
		case 0, 1:
			tab[s] = len(f.data)
			f.data = append(f.data, make([]byte, 8*n)...)
		case 2:
			for i, m := range ms {
				idOff[i] = len(f.data)
				f.data = append(append(f.data, m.id...), 0)
			}
		case 3:
			for i := n - 1; i >= 0; i-- {
				if l.share && i < n-1 && strings.HasSuffix(ms[i+1].str, ms[i].str) {
					strOff[i] = strOff[i+1] + len(ms[i+1].str) - len(ms[i].str)
					continue
				}
				strOff[i] = len(f.data)
				f.data = append(append(f.data, ms[i].str...), 0)
			}
		}
	}
	w := func(at int, v int) {
		put32(f.data[at:], l.big, uint32(v))
		f.words = append(f.words, at)
	}
	w(0, 0x950412de)
	w(4, int(l.major)<<16|int(l.minor))
	w(8, n)
	w(12, tab[0])
	w(16, tab[1])
	w(20, 0)
	w(24, 0)
	for i, m := range ms {
		w(tab[0]+8*i, len(m.id))
		w(tab[0]+8*i+4, idOff[i])
		w(tab[1]+8*i, len(m.str))
		w(tab[1]+8*i+4, strOff[i])
	}
	return f
}

const moHead = "Language: de\nPlural-Forms: nplurals=2; plural=n == 1;\n"

func perms(n int) [][]int {
	if n == 0 {
		return [][]int{{}}
	}
	var r [][]int
	for _, p := range perms(n - 1) {
		for i := 0; i <= len(p); i++ {
			q := append([]int{}, p[:i]...)
			q = append(q, n-1)
			r = append(r, append(q, p[i:]...))
		}
	}
	return r
}

func decodeMo(data []byte) (catalog.Catalog, error) {
	return catalog.NewMoDecoder().Decode(language.German, "dom", data)
}

// MoSame: the same messages as MO and as PO file give the same catalog.
func MoSame() {
	n, dim := nd.Param("n"), nd.Param("dim")
	choice := func(name string) bool {
		if dim == 1 {
			return true
		}
		return nd.Choice(name, 2) == 1
	}
	x := gen.Word("x", n, "\"\\")
	var ms []moMsg
	f := po.NewFile()
	header := choice("header")
	if header {
		ms = append(ms, moMsg{"", moHead})
		f.Header.Language, f.Header.PluralForms = "de", "nplurals=2; plural=n == 1;"
	}
	ms = append(ms, moMsg{"a" + x, x})
	f.AddMessage(&po.Message{ID: "a" + x, Str: map[int]string{0: x}})
	ctx, plural := choice("ctx"), choice("plural")
	m := &po.Message{ID: "b", Str: map[int]string{0: "t" + x}}
	e := moMsg{"b", "t" + x}
	if ctx {
		m.Context = x + "c"
		e.id = x + "c\x04b"
	}
	if plural {
		m.IDPlural, m.Str[1] = x+"s", x
		e.id += "\x00" + x + "s"
		e.str += "\x00" + x
	}
	ms = append(ms, e)
	f.AddMessage(m)
	l := moLayout{big: nd.Choice("big", 2) == 1, order: []int{0, 1, 2, 3}}
	if dim == 0 {
		l.major, l.minor = uint16(nd.Choice("major", 2)), uint16(nd.Choice("minor", 2))
	} else {
		l.share = nd.Choice("share", 2) == 1
		ps := perms(4)
		l.order = ps[nd.Choice("order", len(ps))]
	}
	l.pad[nd.Choice("padAt", 4)] = nd.String("pad", nd.Choice("pad.len", nd.Param("pad")+1))
	c, err := decodeMo(build(ms, l).data)
	nd.Assert(err == nil, "a well-formed MO file is rejected")
	var buf bytes.Buffer
	nd.Assert(po.NewEncoder(&buf).Encode(f) == nil, "encoding fails")
	d, err := catalog.NewPoDecoder().Decode(language.German, "dom", buf.Bytes())
	nd.Assert(err == nil, "the equivalent PO file is rejected")
	compare(c, d)
	for _, q := range []struct {
		ctx, id string
		n       int
	}{{"", "a" + x, 1}, {m.Context, "b", 1}, {m.Context, "b", 2}} {
		s1, e1 := c.LookupPlural(q.ctx, q.id, q.n)
		s2, e2 := d.LookupPlural(q.ctx, q.id, q.n)
		nd.Assert((e1 == nil) == (e2 == nil), "plural lookup differs from the PO file")
		nd.Assert(s1 == s2, "plural form differs from the PO file")
	}
	s, err := c.Lookup(m.Context, "b")
	nd.Assert(err == nil && s == "t"+x, "stored translation not found")
	nd.Reach("same")
}

func compare(c, d catalog.Catalog) {
	a, b := c.(*catalog.GettextCatalog).Messages(), d.(*catalog.GettextCatalog).Messages()
	nd.Assert(len(a) == len(b), "number of contexts differs")
	for ctx, ms := range b {
		nd.Assert(len(a[ctx]) == len(ms), "number of messages differs")
		for id, m := range ms {
			q := a[ctx][id]
			nd.Assert(q != nil, "message missing")
			t, u := m.Translations(), q.Translations()
			nd.Assert(len(t) == len(u), "number of forms differs")
			for k, v := range t {
				nd.Assert(u[k] == v, "form differs")
			}
		}
	}
}

func sample() []moMsg {
	return []moMsg{{"", moHead}, {"b\x00bs", "one\x00many"}, {"c\x04x", "y"}}
}

func sampleLayout() moLayout {
	return moLayout{big: nd.Choice("big", 2) == 1, order: [][]int{{0, 1, 2, 3}, {3, 2, 1, 0}}[nd.Choice("order", 2)]}
}

// MoCut: a file cut off anywhere is rejected.
func MoCut() {
	ms := sample()
	l := moLayout{big: nd.Choice("big", 2) == 1, order: []int{0, 1, 2, 3}}
	if nd.Param("any") == 1 {
		ms = []moMsg{{"ab", "c"}, {"d", "e\x00f"}}
		ps := perms(4)
		l.order = ps[nd.Choice("order", len(ps))]
	} else if nd.Choice("order", 2) == 1 {
		l.order = []int{3, 2, 1, 0}
	}
	f := build(ms, l)
	d := f.data
	if l.order[3] >= 2 {
		d = d[:len(d)-1] // the last byte is the terminator, which nothing depends on
	}
	n := nd.Choice("cut", len(d))
	c, err := decodeMo(d[:n])
	nd.Assert(err != nil && c == nil, "a truncated MO file is accepted")
	nd.Reach("cut")
}

// fromFile checks that every text of a catalog is part of the file.
func fromFile(c catalog.Catalog, data []byte) {
	s := string(data)
	for ctx, ms := range c.(*catalog.GettextCatalog).Messages() {
		nd.Assert(strings.Contains(s, ctx), "context is not in the file")
		for id, m := range ms {
			nd.Assert(strings.Contains(s, id), "id is not in the file")
			for _, t := range m.Translations() {
				nd.Assert(strings.Contains(s, t), "translation is not in the file")
			}
		}
	}
}

// get32 reads a 32-bit word of a file.
func get32(b []byte, big bool) int {
	if big {
		return int(b[0])<<24 | int(b[1])<<16 | int(b[2])<<8 | int(b[3])
	}
	return int(b[3])<<24 | int(b[2])<<16 | int(b[1])<<8 | int(b[0])
}

// inside checks that the tables of an accepted file and all they point to are in the file.
func inside(b []byte) {
	nd.Assert(len(b) >= 28, "a file without a whole header is accepted")
	big := get32(b, true) == 0x950412de
	nd.Assert(nd.Or(big, get32(b, false) == 0x950412de), "a wrong magic number is accepted")
	n, t, u := get32(b[8:], big), get32(b[12:], big), get32(b[16:], big)
	if n == 0 {
		return
	}
	nd.Assert(nd.And(t+8*n <= len(b), u+8*n <= len(b)), "a table outside of the file is accepted")
	for _, p := range []int{t, u} {
		for i := 0; i < n; i++ {
			l, o := get32(b[p+8*i:], big), get32(b[p+8*i+4:], big)
			nd.Assert(nd.Or(l == 0, o+l <= len(b)), "a text outside of the file is accepted")
		}
	}
}

// MoField: the given 32-bit fields of a file have arbitrary values.
func MoField() {
	ms := sample()[1:]
	if nd.Param("small") == 1 {
		ms = []moMsg{{"ab", "c"}}
	}
	f := build(ms, sampleLayout())
	for _, p := range []string{"f", "g"} {
		k := nd.Param(p)
		if k < 0 || k >= len(f.words) {
			continue
		}
		for i := 0; i < 4; i++ {
			f.data[f.words[k]+i] = nd.Byte(p)
		}
	}
	c, err := decodeMo(f.data)
	if err != nil {
		nd.Assert(c == nil, "catalog and error")
		nd.Reach("rejected")
		return
	}
	inside(f.data)
	fromFile(c, f.data)
	nd.Reach("accepted")
}

// MoBytes: any bytes after the magic number (which may be any of the two).
func MoBytes() {
	n := nd.Param("n")
	b := []byte(nd.String("s", n))
	if nd.Param("magic") == 1 && n >= 4 {
		put32(b, nd.Choice("big", 2) == 1, 0x950412de)
	}
	if n >= 28 {
		nd.Assume(nd.And(b[4] == 0, b[5] == 0))
	}
	c, err := decodeMo(b)
	if err != nil {
		nd.Assert(c == nil, "catalog and error")
		nd.Reach("rejected")
		return
	}
	inside(b)
	fromFile(c, b)
	nd.Reach("accepted")
}

var errBroken = errors.New("broken reader")

// faulty fails its at-th operation; its reads deliver at most max bytes.
type faulty struct {
	r   *bytes.Reader
	at  int
	max int
	ops int
	hit bool
}

func (f *faulty) fail() bool {
	f.ops++
	f.hit = f.hit || f.ops == f.at
	return f.ops == f.at
}

func (f *faulty) Read(p []byte) (int, error) {
	if f.fail() {
		return 0, errBroken
	}
	if f.max > 0 && len(p) > f.max {
		p = p[:f.max]
	}
	return f.r.Read(p)
}

func (f *faulty) Seek(o int64, w int) (int64, error) {
	if f.fail() {
		return 0, errBroken
	}
	return f.r.Seek(o, w)
}

type onlyReader struct{ io.Reader }

// MoFault: any operation of the reader fails, or it delivers few bytes at a time.
func MoFault() {
	d := build(sample(), sampleLayout()).data
	f := &faulty{r: bytes.NewReader(d), at: nd.Choice("at", nd.Param("ops")), max: nd.Choice("max", 4)}
	var r io.Reader = f
	if nd.Choice("seeker", 2) == 0 {
		r = onlyReader{f}
	}
	dec := catalog.NewMoDecoder().(catalog.DecoderV2)
	c, err := dec.DecodeReader(language.German, "dom", r)
	if f.hit {
		nd.Assert(err != nil && c == nil, "a failing reader is not reported")
		nd.Reach("fault")
		return
	}
	nd.Assert(err == nil, "short reads make decoding fail")
	w, err := decodeMo(d)
	nd.Assert(err == nil, "sample is rejected")
	compare(c, w)
	nd.Reach("whole")
}

// MoForms: every plural form is decoded, whatever their number and length.
func MoForms() {
	k := nd.Param("k")
	ts := make([]string, k)
	str := ""
	for i := range ts {
		ts[i] = nd.String("t", nd.Choice("len", nd.Param("n")+1))
		for j := 0; j < len(ts[i]); j++ {
			nd.Assume(ts[i][j] != 0)
		}
		if i > 0 {
			str += "\x00"
		}
		str += ts[i]
	}
	c, err := decodeMo(build([]moMsg{{"", moHead}, {"c\x04b\x00bs", str}, {"d", "e"}}, sampleLayout()).data)
	nd.Assert(err == nil, "a well-formed MO file is rejected")
	ms := c.(*catalog.GettextCatalog).Messages()
	nd.Assert(len(ms) == 2 && len(ms["c"]) == 1 && len(ms[""]) == 1, "number of messages")
	got := ms["c"]["b"].Translations()
	nd.Assert(len(got) == k, "number of forms")
	for i, t := range ts {
		s, ok := got[i]
		nd.Assert(ok && s == t, "a stored form is changed")
	}
	nd.Reach("forms")
}
