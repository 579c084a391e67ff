package h_plural

import (
	"strconv"

	"github.com/vorlif/spreak/catalog/poplural"
	"github.com/vorlif/spreak/internal/zzverif/gen"
	"github.com/vorlif/spreak/internal/zzverif/nd"
)

var ops = []string{"%", "==", "!=", "<", "<=", ">", ">=", "&&", "||", "?"}

// agree compares the library's rule for a header with its C meaning for an arbitrary number.
func agree(s string) {
	rule, err := poplural.Parse(s)
	exact = err == nil
	forms, e, extra, ok := header(s)
	if err != nil {
		nd.Assert(rule == nil, "rule and error")
		nd.Assert(!ok || extra || oddBlank(s), "valid header rejected")
		nd.Reach("rejected")
		return
	}
	nd.Assert(ok, "accepted text is no header")
	nd.Assert(int64(rule.NPlurals) == forms, "number of forms")
	n := gen.Count("n")
	got, err := rule.Evaluate(n)
	nd.Assert(err == nil, "no index for a number")
	nd.ObserveInt(int64(got))
	nd.Assert(got == rule.FormFunc(n), "Evaluate and FormFunc differ")
	nd.Assert(nd.And(got >= 0, int64(got) < forms), "index outside the forms")
	w, defined := want(forms, e, n)
	nd.Assert(nd.Or(!defined, int64(got) == w), "not the index of the C expression")
	nd.Reach("agree")
}

// Expr: k operands joined by any operators, with parentheses around any run of them.
func Expr() {
	k := nd.Param("k")
	sp := ""
	if nd.Param("space") == 1 {
		sp = " "
	}
	lo, hi := -1, -1
	if nd.Param("lo") >= 0 {
		lo = nd.Param("lo")
		hi = lo + nd.Choice("hi", k-lo)
	}
	s := ""
	open := 0
	join := make([]string, k+1)
	for i := 1; i < k; i++ {
		op := ops[nd.Choice("op", len(ops))]
		if op == "?" {
			open++
		} else if open > 0 && nd.Choice("colon", 2) == 1 {
			op = ":"
			open--
		}
		join[i] = op
	}
	nd.Assume(open == 0)
	for i := 0; i < k; i++ {
		if i > 0 {
			s += sp + join[i] + sp
		}
		if i == lo {
			s += "(" + sp
		}
		switch {
		case join[i] != "%" && nd.Choice("atom", 2) == 0:
			s += "n"
		case join[i] == "%" || join[i+1] == "%":
			s += []string{"10", "0", "3"}[nd.Choice("divisor", nd.Param("divs"))]
		default:
			d := nd.String("d", 1)
			nd.Assume(nd.And(d[0] >= '0', d[0] <= '9'))
			s += d
		}
		if i == hi {
			s += sp + ")"
		}
	}
	f := nd.String("forms", 1)
	nd.Assume(nd.And(f[0] >= '1', f[0] <= '9'))
	agree("nplurals=" + f + "; plural=" + s + ";")
}

// Cond: nested conditionals without parentheses, of k operands.
func Cond() {
	k := nd.Param("k")
	s, open := "", 0
	for i := 0; i < k; i++ {
		if i > 0 {
			if open > 0 && nd.Choice("colon", 2) == 1 {
				s += " : "
				open--
			} else {
				s += " ? "
				open++
			}
		}
		switch nd.Choice("atom", 3) {
		case 0:
			s += "n"
		case 1:
			s += "n > 5"
		case 2:
			d := nd.String("d", 1)
			nd.Assume(nd.And(d[0] >= '0', d[0] <= '9'))
			s += d
		}
	}
	nd.Assume(open == 0)
	agree("nplurals=9; plural=" + s + ";")
}

// Number: an operand of any number of digits.
func Number() {
	k := nd.Param("k")
	d := nd.String("d", k)
	for i := 0; i < k; i++ {
		nd.Assume(nd.And(d[i] >= '0', d[i] <= '9'))
	}
	at := nd.Param("at")
	d = []string{"", "9223372036854775", "1844674407370955"}[nd.Param("pre")] + d
	s := []string{"n % " + d, "n == " + d, "n >= " + d, d}[at]
	agree("nplurals=" + strconv.Itoa(nd.Param("forms")) + "; plural=" + s + ";")
}

// Count: any number of forms.
func Count() {
	d := nd.String("d", nd.Param("k"))
	agree("nplurals=" + d + "; plural=n;")
}

// oddBlank: blanks that a header need not be allowed to contain.
func oddBlank(s string) bool {
	for i := 0; i < len(s); i++ {
		if s[i] == '\r' || s[i] == '\v' || s[i] == '\f' {
			return true
		}
	}
	return false
}
