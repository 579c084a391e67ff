package h_po

import (
	"bytes"
	"strings"

	"github.com/vorlif/spreak/catalog/po"
	"github.com/vorlif/spreak/internal/zzverif/gen"
	"github.com/vorlif/spreak/internal/zzverif/nd"
)

// words makes up to max short words.
func words(name string, max int) []string {
	var r []string
	for i := nd.Choice(name+".len", max+1); i > 0; i-- {
		r = append(r, gen.OneOf(name, 1, "abc"))
	}
	return r
}

func refs(name string, max int) []*po.Reference {
	var r []*po.Reference
	for i := nd.Choice(name+".len", max+1); i > 0; i-- {
		l, c := nd.Byte(name+".line"), nd.Byte(name+".col")
		nd.Assume(nd.And(l < 3, c < 2))
		r = append(r, &po.Reference{Path: gen.OneOf(name, 1, "ab"), Line: int(l), Column: int(c)})
	}
	return r
}

func has(l []string, x string) bool {
	ok := false
	for _, y := range l {
		ok = nd.Or(ok, x == y)
	}
	return ok
}

func hasRef(l []*po.Reference, x *po.Reference) bool {
	ok := false
	for _, y := range l {
		ok = nd.Or(ok, nd.And(x.Path == y.Path, nd.And(x.Line == y.Line, x.Column == y.Column)))
	}
	return ok
}

func textLines(s string) []string {
	if s == "" {
		return nil
	}
	return strings.Split(s, "\n")
}

// union checks that got has everything of a and b, nothing else, and b's new things once.
func union(got, a, b []string, what string) {
	for _, x := range a {
		nd.Assert(has(got, x), what+" lost")
	}
	for _, x := range b {
		nd.Assert(has(got, x), what+" of the other lost")
	}
	for i, x := range got {
		nd.Assert(nd.Or(has(a, x), has(b, x)), what+" invented")
		own := false // a comment may have come with a repetition of its own
		for j, y := range a {
			own = nd.Or(own, nd.And(y == x, has(a[:j], x)))
		}
		nd.Assert(nd.Or(own, !has(got[:i], x)), what+" doubled")
	}
}

func clone(c *po.Comment) *po.Comment {
	d := &po.Comment{Translator: c.Translator, Extracted: c.Extracted, Flags: append([]string(nil), c.Flags...)}
	d.References = append(d.References, c.References...)
	return d
}

// Merge: one kind of content is arbitrary in both comments.
func Merge() {
	k := nd.Param("k")
	a, b := &po.Comment{}, &po.Comment{}
	switch nd.Param("field") {
	case 0:
		a.Translator, b.Translator = strings.Join(words("a", k), "\n"), strings.Join(words("b", k), "\n")
	case 1:
		a.Extracted, b.Extracted = strings.Join(words("a", k), "\n"), strings.Join(words("b", k), "\n")
	case 2:
		a.Flags, b.Flags = words("a", k), words("b", k)
	case 3:
		a.References, b.References = refs("a", k), refs("b", k)
	}
	m := &po.Message{ID: "m", Comment: clone(a)}
	var r *po.Comment
	switch nd.Choice("via", 3) {
	case 0:
		r = clone(a)
		r.Merge(b)
		r.Merge(nil)
	case 1:
		m.Merge(&po.Message{ID: "m", IDPlural: "ms", Comment: b})
		m.Merge(nil)
		nd.Assert(m.IDPlural == "ms", "plural id lost")
		r = m.Comment
	case 2:
		f := po.NewFile()
		m.IDPlural = "mm"
		f.AddMessage(m)
		f.AddMessage(&po.Message{ID: "m", IDPlural: "ms", Comment: b})
		nd.Assert(len(f.Messages) == 1 && len(f.Messages[""]) == 1, "message doubled")
		nd.Assert(f.GetMessage("", "m").IDPlural == "mm", "plural id changed")
		r = f.GetMessage("", "m").Comment
	}
	check := func() {
		union(textLines(r.Translator), textLines(a.Translator), textLines(b.Translator), "comment line")
		union(textLines(r.Extracted), textLines(a.Extracted), textLines(b.Extracted), "extracted line")
		union(r.Flags, a.Flags, b.Flags, "flag")
		for i, x := range r.Flags {
			nd.Assert(i == 0 || r.Flags[i-1] <= x, "flags not in order")
		}
		for _, x := range a.References {
			nd.Assert(hasRef(r.References, x), "reference lost")
		}
		for _, x := range b.References {
			nd.Assert(hasRef(r.References, x), "reference of the other lost")
		}
		own := 0
		for i, x := range r.References {
			nd.Assert(nd.Or(hasRef(a.References, x), hasRef(b.References, x)), "reference invented")
			if i > 0 {
				nd.Assert(refLE(r.References[i-1], x), "references not in order")
			}
			if hasRef(a.References, x) {
				own++
			} else {
				nd.Assert(!hasRef(r.References[:i], x), "reference doubled")
			}
		}
		nd.Assert(own == len(a.References), "number of own references changed")
	}
	check()
	before := [2]string{r.Translator, r.Extracted}
	nf, nr := len(r.Flags), len(r.References)
	r.Merge(b)
	nd.Assert(before[0] == r.Translator && before[1] == r.Extracted && nf == len(r.Flags) && nr == len(r.References), "merging again changes the comment")
	check()
	nd.Reach("merged")
}

func refLE(a, b *po.Reference) bool {
	return nd.Or(a.Path < b.Path, nd.And(a.Path == b.Path, nd.Or(a.Line < b.Line, nd.And(a.Line == b.Line, a.Column <= b.Column))))
}

// Adding: flags and references added one at a time.
func Adding() {
	c := po.NewComment()
	fl := words("flag", nd.Param("k"))
	for _, f := range fl {
		c.AddFlag(f)
		nd.Assert(c.HasFlag(f), "added flag missing")
	}
	union(c.Flags, fl, nil, "flag")
	rs := refs("ref", nd.Param("k"))
	m := &po.Message{ID: "m"}
	for _, r := range rs {
		c.AddReference(r)
		m.AddReference(r)
	}
	nd.Assert(len(c.References) == len(rs), "number of references wrong")
	for i, r := range rs {
		nd.Assert(hasRef(c.References, r) && hasRef(m.Comment.References, r), "added reference missing")
		nd.Assert(i == 0 || refLE(c.References[i-1], c.References[i]), "references not in order")
	}
	nd.Reach("added")
}

// Order: the order of messages is a total one.
func Order() {
	var ms []*po.Message
	k := nd.Param("k")
	for i := 0; i < k; i++ {
		m := &po.Message{Context: gen.OneOf("ctx", nd.Choice("ctx.len", 2), "ab"), ID: gen.OneOf("id", 1, "ab")}
		switch nd.Choice("refs", 3) {
		case 1:
			m.Comment = po.NewComment()
		case 2:
			m.Comment = &po.Comment{References: []*po.Reference{{Path: gen.OneOf("path", 1, "ab"), Line: int(nd.Byte("line"))}}}
		}
		ms = append(ms, m)
	}
	a, b := ms[0], ms[1]
	ab, ba := po.DefaultSortFunction(a, b), po.DefaultSortFunction(b, a)
	nd.Assert(nd.And((ab < 0) == (ba > 0), (ab == 0) == (ba == 0)), "order not antisymmetric")
	same := nd.And(a.Context == b.Context, a.ID == b.ID)
	nd.Assert(nd.Or(ab != 0, same), "different messages compare equal")
	if k > 2 {
		bc, ac := po.DefaultSortFunction(b, ms[2]), po.DefaultSortFunction(a, ms[2])
		nd.Assert(nd.Or(nd.Or(ab > 0, bc > 0), ac <= 0), "order not transitive")
		nd.Assert(nd.Or(nd.Or(ab >= 0, bc > 0), ac < 0), "order not transitive")
	}
	nd.Reach("order")
}

// Same: equal files built in different orders are written as the same bytes.
func Same() {
	k, mode := nd.Param("k"), nd.Param("mode")
	mk := func(i int, ctx, id string) *po.Message {
		m := &po.Message{Context: ctx, ID: id, Str: map[int]string{}}
		if mode != 1 {
			m.Str[0] = "a"
			return m
		}
		m.IDPlural = "p"
		if k > 1 {
			if i == 0 {
				m.Str[1], m.Str[0] = "b", "a"
			} else {
				m.Str[0], m.Str[1] = "a", "b"
			}
		} else if i == 0 {
			m.Str[1], m.Str[0], m.Str[2] = "b", "a", "c"
		} else {
			m.Str[0], m.Str[2], m.Str[1] = "a", "c", "b"
		}
		return m
	}
	var ctx, id []string
	shared := nd.Choice("refs", 2) == 1
	for i := 0; i < k; i++ {
		ctx = append(ctx, gen.OneOf("ctx", nd.Choice("ctx.len", 2), "xy"))
		id = append(id, gen.OneOf("id", 1, "xyz"))
		for j := 0; j < i; j++ {
			nd.Assume(nd.Or(ctx[i] != ctx[j], id[i] != id[j]))
		}
	}
	build := func(v int) []byte {
		f := po.NewFile()
		if mode == 2 {
			hs := [][]string{{"X-A", "X-B", "x-c"}, {"x-c", "X-B", "X-A"}}
			if k > 1 {
				hs = [][]string{{"X-A", "x-c"}, {"x-c", "X-A"}}
			}
			for _, h := range hs[v] {
				f.Header.Set(h, "1")
			}
		}
		for n := 0; n < k; n++ {
			i := n
			if v == 1 {
				i = k - 1 - n
			}
			m := mk(v, ctx[i], id[i])
			if shared {
				m.AddReference(&po.Reference{Path: "f.go", Line: 3})
			}
			f.AddMessage(m)
		}
		var buf bytes.Buffer
		enc := po.NewEncoder(&buf)
		nd.Assert(enc.Encode(f) == nil, "encoding fails")
		return buf.Bytes()
	}
	x, y := build(0), build(1)
	nd.Assert(bytes.Equal(x, y), "equal files are written differently")
	nd.ObserveStr(string(x))
	nd.Reach("same")
}
