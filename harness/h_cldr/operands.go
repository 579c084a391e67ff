package h_cldr

import (
	"math"

	"github.com/vorlif/spreak/catalog/cldrplural"
	"github.com/vorlif/spreak/internal/zzverif/gen"
	"github.com/vorlif/spreak/internal/zzverif/nd"
)

func same(ops *cldrplural.Operands, n float64, i, v, w, f, t, c int64) {
	nd.Assert(ops.N == n, "N is not the absolute value")
	nd.Assert(ops.I == i, "I is not the integer digits")
	nd.Assert(ops.V == v, "V is not the number of fraction digits")
	nd.Assert(ops.W == w, "W is not the number of fraction digits without trailing zeros")
	nd.Assert(ops.F == f, "F is not the fraction digits")
	nd.Assert(ops.T == t, "T is not the fraction digits without trailing zeros")
	nd.Assert(ops.C == c, "C is not the compact exponent")
}

type named int16

// Integers: any integer of any type.
func Integers() {
	var v any
	neg, over := false, false
	var abs uint64
	signed := func(x int64) {
		neg = nd.Decide(x < 0)
		abs = uint64(x)
		if neg {
			abs = -abs
		}
	}
	switch nd.Param("kind") {
	case 0:
		x := nd.Int64("x")
		v = x
		signed(x)
	case 1:
		x := nd.Int("x")
		v = x
		signed(int64(x))
	case 2:
		x := nd.Int32("x")
		v = x
		signed(int64(x))
	case 3:
		x := nd.Int16("x")
		v = x
		signed(int64(x))
	case 4:
		x := nd.Int8("x")
		v = x
		signed(int64(x))
	case 5:
		x := nd.Uint64("x")
		v, abs = x, x
	case 6:
		x := nd.Uint("x")
		v, abs = x, uint64(x)
	case 7:
		x := nd.Uint32("x")
		v, abs = x, uint64(x)
	case 8:
		x := nd.Uint16("x")
		v, abs = x, uint64(x)
	case 9:
		x := nd.Byte("x")
		v, abs = x, uint64(x)
	case 10:
		x := nd.Int64("x")
		v = &x
		signed(x)
	case 11:
		x := nd.Uint64("x")
		p := &x
		v, abs = &p, x
	case 12:
		x := nd.Int16("x")
		v = named(x)
		signed(int64(x))
	}
	over = nd.Decide(abs >= 1<<63)
	if !over {
		nd.Assume(abs <= exactFloat)
	}
	ops, err := cldrplural.NewOperands(v)
	nd.ObserveBool(err != nil)
	if over {
		nd.Assert(err != nil, "operands for a number out of range")
		return
	}
	nd.Assert(err == nil, "no operands for a number")
	same(ops, float64(int64(abs)), int64(abs), 0, 0, 0, 0, 0)
	nd.Reach("operands")
}

// decimal reads sign? digits? ('.' digits?)? ('c' digits)?, with one digit at least, as the operands of UTS 35.
// e says that the text has an exponent of a floating point number, whose operands are left open.
func decimal(s string) (num, den, i, v, w, f, t, c int64, ok, e bool) {
	for k := 0; k < len(s); k++ {
		if s[k] == 'e' || s[k] == 'E' {
			e = true
			return
		}
	}
	if s != "" && (s[0] == '+' || s[0] == '-') {
		s = s[1:]
	}
	point := -1
	digits := make([]int64, 0, len(s))
	k := 0
	for ; k < len(s) && s[k] != 'c'; k++ {
		if s[k] == '.' && point < 0 {
			point = len(digits)
			continue
		}
		if s[k] < '0' || s[k] > '9' {
			return
		}
		digits = append(digits, int64(s[k]-'0'))
	}
	if len(digits) == 0 {
		return
	}
	if point < 0 {
		point = len(digits)
	}
	if k < len(s) {
		k++
		if k == len(s) {
			return
		}
		for ; k < len(s); k++ {
			if s[k] < '0' || s[k] > '9' {
				return
			}
			c = c*10 + int64(s[k]-'0')
		}
		nd.Assume(c <= 12)
		c = int64(nd.Conc(int(c)))
		point += int(c)
		for len(digits) < point {
			digits = append(digits, 0)
		}
	}
	nd.Assume(len(digits) <= 15)
	den = 1
	last := 0
	for j, d := range digits {
		num = num*10 + d
		if j < point {
			i = i*10 + d
			continue
		}
		den *= 10
		v++
		f = f*10 + d
		if nd.Decide(d != 0) {
			last = j + 1
			t, w = f, v
		}
	}
	_ = last
	ok = true
	return
}

func operands(s string) {
	num, den, i, v, w, f, t, c, ok, e := decimal(s)
	ops, err := cldrplural.NewOperands(s)
	nd.ObserveBool(err != nil)
	if e {
		if err == nil {
			nd.Assert(nd.And(ops.I >= 0, nd.And(ops.F >= 0, ops.W <= ops.V)), "operands that no number has")
		}
		return
	}
	nd.Assert(ok == (err == nil), "exactly the decimal numbers have operands")
	if !ok {
		return
	}
	same(ops, float64(num)/float64(den), i, v, w, f, t, c)
	nd.ObserveInt(ops.I)
	nd.ObserveInt(ops.F)
	nd.Reach("decimal")
}

// Text: any text as number.
func Text() {
	s := nd.String("s", nd.Param("n"))
	for k := 1; k < len(s); k++ {
		nd.Assume(nd.And(s[k] != 'e', s[k] != 'E')) // see Special
	}
	operands(s)
}

// Digits: any text out of the characters of numbers.
func Digits() {
	operands(gen.OneOf("s", nd.Param("n"), []string{"0123456789.+-c", "0123456789."}[nd.Param("alphabet")]))
}

// Alike: a number as text has the operands of the number, whatever its type.
func Alike() {
	n := nd.Param("n")
	s := gen.OneOf("s", n, "0123456789")
	x := int64(0)
	for k := 0; k < n; k++ {
		x = x*10 + int64(s[k]-'0')
	}
	if nd.Choice("neg", 2) == 1 {
		x = -x
		s = "-" + s
	}
	a, err := cldrplural.NewOperands(x)
	nd.Assert(err == nil, "no operands for a number")
	b, err := cldrplural.NewOperands(s)
	nd.Assert(err == nil, "no operands for a number as text")
	same(b, a.N, a.I, a.V, a.W, a.F, a.T, a.C)
	nd.Assert(nd.And(a.V == 0, a.C == 0), "a fraction of an integer")
	nd.Reach("alike")
}

// Special: values that are no integers, and values that are no numbers.
func Special() {
	inf := math.Inf(1)
	one, half := 1, 0.5
	var none *int
	cases := []struct {
		v                any
		n                float64
		i, V, w, f, t, c int64
		err              bool
	}{
		{v: 1.5, n: 1.5, i: 1, V: 1, w: 1, f: 5, t: 5},
		{v: -1.25, n: 1.25, i: 1, V: 2, w: 2, f: 25, t: 25},
		{v: float32(0.1), n: 0.1, V: 1, w: 1, f: 1, t: 1},
		{v: 0.0}, {v: math.Copysign(0, -1)},
		{v: 1e6, n: 1e6, i: 1e6},
		{v: float32(1e6), n: 1e6, i: 1e6},
		{v: 1e-7, n: 1e-7, V: 7, w: 7, f: 1, t: 1},
		{v: -3.0, n: 3, i: 3},
		{v: &one, n: 1, i: 1}, {v: &half, n: .5, V: 1, w: 1, f: 5, t: 5},
		{v: cldrplural.Two, n: 2, i: 2},
		{v: inf, err: true}, {v: -inf, err: true}, {v: math.NaN(), err: true},
		{v: 1e300, err: true}, {v: -1e19, err: true}, {v: float32(1e30), err: true},
		{v: nil, err: true}, {v: none, err: true}, {v: &none, err: true},
		{v: []int{1}, err: true}, {v: struct{}{}, err: true}, {v: true, err: true},
		{v: "NaN", err: true}, {v: "inf", err: true}, {v: "0x10", err: true}, {v: "1_0", err: true}, {v: "--1", err: true},
		{v: "9223372036854775807", n: 9223372036854775807, i: 9223372036854775807},
		{v: "9223372036854775808", err: true},
		{v: "1c999", err: true}, {v: "1c-1", err: true}, {v: "1c", err: true}, {v: "c1", err: true}, {v: ".", err: true},
		{v: "1.20050c3", n: 1200.5, i: 1200, V: 2, w: 1, f: 50, t: 5, c: 3},
		{v: "-1.20050c3", n: 1200.5, i: 1200, V: 2, w: 1, f: 50, t: 5, c: 3},
		{v: "1e3", n: 1000, i: 1000}, {v: "-1.5E1", n: 15, i: 15}, {v: "15e-1", n: 1.5, i: 1, V: 1, w: 1, f: 5, t: 5},
		{v: "1e400", err: true}, {v: "1e19", err: true}, {v: "e1", err: true}, {v: "1e", err: true}, {v: "1e1e1", err: true}, {v: "1e1c1", err: true},
		{v: "1.2c6", n: 1200000, i: 1200000, c: 6},
	}
	x := cases[nd.Choice("case", len(cases))]
	ops, err := cldrplural.NewOperands(x.v)
	nd.ObserveBool(err != nil)
	if x.err {
		nd.Assert(err != nil, "operands for no number")
		return
	}
	nd.Assert(err == nil, "no operands for a number")
	same(ops, x.n, x.i, x.V, x.w, x.f, x.t, x.c)
	nd.Reach("special")
}
