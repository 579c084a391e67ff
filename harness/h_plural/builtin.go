package h_plural

import (
	"math"
	"strings"

	"golang.org/x/text/language"

	"github.com/vorlif/spreak/catalog/poplural"
	"github.com/vorlif/spreak/internal/zzverif/gen"
	"github.com/vorlif/spreak/internal/zzverif/nd"
)

// Table: a well-known header means what it says, however it is spelt.
func Table() {
	s := table[nd.Param("i")].rule
	switch nd.Choice("spelling", nd.Param("spellings")) {
	case 1:
		s = strings.ReplaceAll(s, " ", "")
	case 2:
		// the alternatives of a conditional need no parentheses
		k := strings.LastIndex(s, "plural=") + len("plural=")
		e, _ := cexpr(s[k : len(s)-1])
		nd.Assert(e != nil, "harness: rule text")
		s = s[:k] + e.text() + ";"
	}
	agree(s)
}

var opText = map[byte]string{'%': "%", '=': "==", '!': "!=", '<': "<", '>': ">", 'l': "<=", 'g': ">=", '&': "&&", '|': "||"}
var level = map[byte]int{'?': 0, '|': 1, '&': 2, '=': 3, '!': 3, '<': 4, '>': 4, 'l': 4, 'g': 4, '%': 6, 'n': 9, '0': 9}

// text writes an expression with every pair of parentheses that is not needed left out.
func (e *expr) text() string {
	sub := func(x *expr, min int) string {
		if level[x.k] < min {
			return "( " + x.text() + ")"
		}
		return x.text()
	}
	switch e.k {
	case 'n':
		return "n"
	case '0':
		return itoa(e.v)
	case '?':
		return sub(e.a, 1) + " ? " + e.b.text() + " : " + e.c.text()
	}
	return sub(e.a, level[e.k]) + " " + opText[e.k] + " " + sub(e.b, level[e.k]+1)
}

func itoa(v int64) string {
	s := ""
	for {
		s = string(rune('0'+v%10)) + s
		if v /= 10; v == 0 {
			return s
		}
	}
}

// Lang: the rule built in for a language is the one of its table, for every number given as any type.
func Lang() {
	t := table[nd.Param("i")]
	langs := strings.Fields(t.langs)
	lang := langs[nd.Choice("lang", len(langs))]
	f, found := poplural.ForLanguage(language.MustParse(lang))
	nd.Assert(found, "language with a rule not found")
	isRule(f, t.rule)
	nd.Reach("lang")
}

// Listed is every language with a built-in rule.
func Listed() []string {
	var r []string
	for _, t := range table {
		r = append(r, strings.Fields(t.langs)...)
	}
	return r
}

func isRule(f poplural.PluralFunc, rule string) {
	forms, e, _, ok := header(rule)
	nd.Assert(ok, "harness: rule text")
	n := gen.Count("n")
	got, err := f(n)
	nd.Assert(err == nil, "no index for a number")
	nd.Assert(nd.And(got >= 0, int64(got) < forms), "index outside the forms")
	w, _ := want(forms, e, n)
	nd.Assert(int64(got) == w, "index differs from the rule of the language")
}

// Value: the number of objects may be given as any integer type; its sign does not matter.
func Value() {
	rule := poplural.MustParse([]string{"nplurals=2; plural=n != 1;", "nplurals=3; plural=n%10==1 && n%100!=11 ? 0 : n%10>=2 && n%10<=4 && (n%100<10 || n%100>=20) ? 1 : 2;", "nplurals=9; plural=n % 9;"}[nd.Param("rule")])
	var v any
	var want uint64
	abs := func(x int64) uint64 {
		if nd.Decide(x < 0) {
			return -uint64(x)
		}
		return uint64(x)
	}
	switch nd.Param("kind") {
	case 0:
		x := nd.Int64("x")
		v, want = x, abs(x)
	case 1:
		x := nd.Int("x")
		v, want = x, abs(int64(x))
	case 2:
		x := nd.Int32("x")
		v, want = x, abs(int64(x))
	case 3:
		x := nd.Int16("x")
		v, want = x, abs(int64(x))
	case 4:
		x := nd.Int8("x")
		v, want = x, abs(int64(x))
	case 5:
		x := nd.Uint64("x")
		v, want = x, x
	case 6:
		x := nd.Uint("x")
		v, want = x, uint64(x)
	case 7:
		x := nd.Uint32("x")
		v, want = x, uint64(x)
	case 8:
		x := nd.Uint16("x")
		v, want = x, uint64(x)
	case 9:
		x := nd.Byte("x")
		v, want = x, uint64(x)
	case 10:
		x := nd.Int64("x")
		v, want = &x, abs(x)
	case 11:
		x := nd.Int64("x")
		p := &x
		v, want = &p, abs(x)
	}
	nd.Assume(want < 1<<63) // beyond, see Extreme
	got, err := rule.Evaluate(v)
	nd.Assert(err == nil, "no index for a number")
	nd.Assert(got == rule.FormFunc(int64(want)), "the index depends on how the number is given")
	nd.Reach("value")
}

// Extreme: numbers that no index is defined for give an error or an index that exists.
func Extreme() {
	inf := math.Inf(1)
	vs := []any{math.NaN(), inf, -inf, 1e300, -1e300, 9223372036854775808.0, uint64(1 << 63), uint64(math.MaxUint64), int64(math.MinInt64), "1e400", "NaN", "x", "", nil, (*int)(nil), true, 0.5, -0.5, 1.5, "1", "-1", "1.0", 9007199254740993.0}
	v := vs[nd.Choice("v", len(vs))]
	for _, s := range []string{"nplurals=2; plural=n != 1;", "nplurals=3; plural=n%10==1 && n%100!=11 ? 0 : n%10>=2 && n%10<=4 && (n%100<10 || n%100>=20) ? 1 : 2;", "nplurals=9; plural=n % 9;"} {
		rule := poplural.MustParse(s)
		got, err := rule.Evaluate(v)
		nd.Assert(nd.And(got >= 0, got < rule.NPlurals), "index outside the forms")
		nd.ObserveInt(int64(got))
		nd.ObserveBool(err != nil)
		if _, isStr := v.(string); v == nil || isStr && (v == "x" || v == "") {
			nd.Assert(err != nil, "an index for no number")
		}
	}
	nd.Reach("extreme")
}
