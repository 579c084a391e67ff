package h_cldr

import (
	"slices"
	"strings"

	"github.com/vorlif/spreak/catalog/cldrplural"
	"github.com/vorlif/spreak/catalog/cldrplural/ast"
	"github.com/vorlif/spreak/internal/zzverif/gen"
	"github.com/vorlif/spreak/internal/zzverif/nd"
)

// digit is any digit.
func digit(name string) string { return gen.OneOf(name, 1, "0123456789") }

// value is a number of up to two digits.
func value(name string) string {
	s := digit(name)
	if nd.Choice("two", 2) == 1 {
		s += digit(name)
	}
	return s
}

// set is the list of values of a relation.
func set(shape int) string {
	switch shape {
	case 0:
		return digit("a")
	case 1:
		return value("a") + ".." + value("b")
	case 2:
		return digit("a") + "," + digit("b")
	case 3:
		return digit("a") + ", " + digit("b") + "1.." + digit("c") + "5"
	case 4:
		return digit("a") + ".." + digit("b") + "," + digit("c")
	case 5:
		return digit("a") + digit("b") + digit("c")
	}
	return digit("a") + ".." + digit("b") + "," + digit("c") + ".." + digit("d")
}

const ops = "nivwftce"

// check compares the rules for the categories with the oracle, for any number with v fraction digits.
func check(cats []cldrplural.Category, texts []string) {
	raw := map[cldrplural.Category]string{}
	rules := make([]rule, len(cats))
	valid := true
	for k, c := range cats {
		raw[c] = texts[k]
		cond, _, _ := strings.Cut(texts[k], "@")
		r, ok := parse(cond)
		if c == cldrplural.Other && strings.TrimSpace(cond) == "" {
			ok = true
		}
		if !ok {
			valid = false
		}
		rules[k] = r
	}
	rs, err := cldrplural.ParseRules(raw)
	nd.ObserveBool(err != nil)
	if err != nil && zeroEnd(texts) {
		return // the end of a range is never zero in the rules of the CLDR; such a range may be rejected
	}
	if !valid {
		nd.Assert(err != nil, "rules accepted that are none")
		return
	}
	nd.Assert(err == nil, "rules rejected")
	x := anyNumber(int64(nd.Param("v")))
	got := rs.FormFunc(x.operands())
	nd.ObserveInt(int64(got))
	nd.Assert(slices.Contains(rs.Categories, got), "a category without rule")
	for _, c := range cats {
		nd.Assert(slices.Contains(rs.Categories, c), "category of a rule not listed")
	}
	nd.Assert(slices.IsSorted(rs.Categories), "categories in no order")
	left := true
	good := false
	for c := cldrplural.Zero; c < cldrplural.Other; c++ {
		for k := range cats {
			if cats[k] == c {
				h := rules[k].holds(x)
				good = nd.Or(good, nd.And(left, nd.And(h, got == c)))
				left = nd.And(left, !h)
			}
		}
	}
	nd.Assert(nd.Or(good, nd.And(left, got == cldrplural.Other)), "not the category of the rules")
	nd.Reach("category")
}

var moduli = []string{"0", "1", "2", "7", "10", "16", "97", "100", "1000", "1000000"}

// zeroEnd says that a range ends with a number that has a leading zero.
func zeroEnd(texts []string) bool {
	for _, t := range texts {
		for k := 2; k < len(t); k++ {
			if t[k-2] == '.' && t[k-1] == '.' && t[k] == '0' {
				return true
			}
		}
	}
	return false
}

// Relation: any relation of a shape.
func Relation() {
	s := string(ops[nd.Param("op")])
	if nd.Param("mod") == 1 {
		s += []string{" % ", " mod "}[nd.Choice("mod", 2)] + moduli[nd.Choice("m", len(moduli))]
	}
	s += []string{" = ", " != "}[nd.Choice("not", 2)] + set(nd.Param("set"))
	check([]cldrplural.Category{cldrplural.Few}, []string{s})
}

var relations = []string{"n = 1", "i % 10 != 2..4", "v = 0", "f != 5,7", "i = 3..6", "n != 4"}

// Condition: any relations joined by 'and' and 'or', with samples.
func Condition() {
	k := nd.Param("k")
	s := ""
	for j := 0; j < k; j++ {
		if j > 0 {
			s += []string{" and ", " or "}[nd.Choice("join", 2)]
		}
		s += relations[nd.Choice("rel", nd.Param("rels"))]
	}
	if nd.Param("samples") == 1 {
		s += []string{"", " @integer 1, 2~1" + digit("a") + ", …", " @integer 0, 5 @decimal 0.0~1.5, 10.0, …", " @decimal 1.1, 1c3, …"}[nd.Choice("samples", 4)]
	}
	check([]cldrplural.Category{cldrplural.Many}, []string{s})
}

// Rules: any set of rules, several of which may hold.
func Rules() {
	texts := []string{"n = 1", "i = 0,1", "n % 10 = 1..3 and v = 0", "f != 0 or i = 4", " @integer 1, 2, 3"}
	var cats []cldrplural.Category
	var ts []string
	for c := cldrplural.Zero; c <= cldrplural.Other; c++ {
		if len(cats) < nd.Param("k") && nd.Choice("has", 2) == 1 {
			cats = append(cats, c)
			if c == cldrplural.Other {
				ts = append(ts, []string{" @integer 0, 2~16, 100, 1000", "@decimal 0.1~0.9, 1.1~1.7"}[nd.Choice("other", 2)])
			} else {
				ts = append(ts, texts[nd.Choice("rule", 4)])
			}
		}
	}
	check(cats, ts)
}

// accept: a text is parsed to a rule that can be evaluated for any number, or rejected.
func accept(s string) {
	r, err := ast.Parse(s)
	nd.ObserveBool(err != nil)
	nd.Assert((r == nil) == (err != nil), "neither a rule nor an error")
	rs, err2 := cldrplural.ParseRules(map[cldrplural.Category]string{cldrplural.One: s})
	nd.Assert((err == nil) == (err2 == nil), "rule accepted in a set only or alone only")
	if err2 != nil {
		return
	}
	x := anyNumber(int64(nd.Param("v")))
	got := rs.FormFunc(x.operands())
	nd.Assert(nd.Or(got == cldrplural.One, got == cldrplural.Other), "a category without rule")
	nd.Reach("accepted")
}

// Bytes: any text, alone or after the beginning of a rule.
func Bytes() {
	s := nd.String("s", nd.Param("n"))
	accept([]string{"", "n", "n = ", "n = 1", "n = 1 and ", "i % ", "n = 1 @integer ", "n = 1 @integer 1"}[nd.Param("at")] + s)
}

var heads = []string{
	"n % 10 = 2..4 and i != 12,14",
	"v = 0 or f % 100 = 11..19 @integer 1, 2~5, …",
	"n = 1 @decimal 0.0~1.5, 1c6, …",
}

// Edit: a rule with one byte replaced, inserted or left out, or cut off.
func Edit() {
	h := heads[nd.Param("h")]
	i := nd.Choice("i", len(h)+1)
	b := nd.String("b", 1)
	switch nd.Choice("how", 4) {
	case 0:
		accept(h[:i] + b + h[i:])
	case 1:
		nd.Assume(i < len(h))
		accept(h[:i] + b + h[i+1:])
	case 2:
		nd.Assume(i < len(h))
		accept(h[:i] + h[i+1:])
	case 3:
		accept(h[:i])
	}
}

var words = []string{"n", "I", "e", "0", "1", "99999999999999999999", "%", "mod", "=", "!=", "and", "or", "..", "1..3", "3..1", "0..0", "~", "1~3", "3~1", "0.0~1.5", "1.0~2", "5~99999999999", "@integer", "@decimal", "…", ",", "1c6", ".", "is", "1...3"}

// Words: any sequence of words, with or without blanks between.
func Words() {
	s := ""
	for i := 0; i < nd.Param("k"); i++ {
		s += words[nd.Choice("w", len(words))]
		if nd.Param("blanks") == 1 {
			s += " "
		}
	}
	accept([]string{"", "n = 1 ", "n = 1 @integer "}[nd.Param("at")] + s)
}

// Samples: a range of samples of any numbers.
func Samples() {
	n, m := nd.Param("n"), nd.Param("m")
	a := gen.OneOf("a", n, "0123456789.")
	b := gen.OneOf("b", m, "0123456789.")
	accept("n = 1 @integer " + a + "~" + b)
}
