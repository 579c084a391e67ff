package main

import (
	"fmt"
	"go/token"
	"math"
	"math/big"
	"math/bits"
	"os"
)

// FTerm is a symbolic float64 whose real value is known exactly or up to one correct rounding:
//
//	num/den, num a signed 64-bit term with |num| <= 2^53, den >= 1 a constant
//
// For den == 1 or den a power of two (and |num| <= 2^53) the float is exactly num/den. Otherwise it
// is the float64 nearest to num/den; comparisons with integers, floor and truncation of that float
// agree with the rational because |num| <= 2^53 (see DESIGN.md, "floats").
type FTerm struct {
	num *Term
	den int64
	// approx marks the exact remainder of such a rounded float by an integer: it is no correctly rounded
	// quotient, but comparisons with integers, floor and truncation still agree with num/den.
	approx bool
	// fuzzy marks a value with further rounding errors, far smaller than 1/den: it may also miss an integer that num/den is.
	fuzzy bool
	// ip and fp, where known, split the number: num = ip*den+fp with 0 <= ip and 0 <= fp < den.
	ip, fp *Term
}

const fuzzyMax = 1 << 45

// mkFuzzy is a value that was rounded several times, num/den with |num| <= 2^45.
func (e *Engine) mkFuzzy(num *Term, den int64, fuzzy bool) Value {
	tt := e.tt
	if e.merging > 0 || den <= 0 || den > 1<<44 {
		panic(abort{"unsupported", "rounded symbolic float"})
	}
	lim := int64(fuzzyMax)
	if !fuzzy {
		lim = 1 << 49
	}
	if !e.fork(tt.And(tt.bin(OSle, num, tt.Const(uint64(lim), 64)), tt.bin(OSle, tt.Const(uint64(-lim), 64), num))) {
		panic(abort{"float-range", "rounded symbolic float"})
	}
	return Value{P: &FTerm{num: num, den: den, approx: true, fuzzy: fuzzy}}
}

// sure makes certain that a fuzzy value is not at the integer k (with all: at any integer).
func (e *Engine) sure(x *FTerm, all bool, k int64) {
	if !x.fuzzy {
		return
	}
	tt := e.tt
	at := tt.Eq(x.num, tt.Const(uint64(k*x.den), 64))
	if all {
		at = tt.Eq(tt.bin(OSrem, x.num, tt.Const(uint64(x.den), 64)), tt.Const(0, 64))
	}
	if e.merging > 0 || e.fork(at) {
		panic(abort{"unsupported", "rounded symbolic float at an integer"})
	}
}

// fuzz is the value of n1/d1 + n2/d2, or their difference, rounded; nil if it cannot be told.
func (e *Engine) fuzz(tok token.Token, a, b Value) (Value, bool) {
	tt := e.tt
	rough := false
	part := func(v Value) (*Term, int64, bool) {
		if x, ok := v.P.(*FTerm); ok {
			return x.num, x.den, true
		}
		if n, d, ok := e.fparts(v); ok {
			return n, d, ok
		}
		// a decimal fraction
		f := math.Float64frombits(v.N)
		for d := int64(10); d <= 1e6; d *= 10 {
			if n := math.Round(f * float64(d)); math.Abs(n) < 1<<40 && n/float64(d) == f {
				rough = true
				return tt.Const(uint64(int64(n)), 64), d, true
			}
		}
		return nil, 0, false
	}
	n1, d1, ok1 := part(a)
	n2, d2, ok2 := part(b)
	if !ok1 || !ok2 || e.merging > 0 || d1 >= 1<<44 || d2 >= 1<<44 {
		return Value{}, false
	}
	x, _ := a.P.(*FTerm)
	y, _ := b.P.(*FTerm)
	// the sum of an integer and a quotient is exact where it is an integer
	fuzzy := rough || d1 != 1 && d2 != 1 || x != nil && (x.fuzzy || x.approx) || y != nil && (y.fuzzy || y.approx)
	g := gcd(d1, d2)
	hi, den := bits.Mul64(uint64(d1/g), uint64(d2))
	if hi != 0 || den > 1<<44 || pow2(int64(den)) {
		return Value{}, false
	}
	k1, k2 := int64(den)/d1, int64(den)/d2
	lim := int64(1 << 50)
	in := func(n *Term, k int64) bool {
		return e.fork(tt.And(tt.bin(OSle, n, tt.Const(uint64(lim/k), 64)), tt.bin(OSle, tt.Const(uint64(-(lim/k)), 64), n)))
	}
	if lim/k1 == 0 || lim/k2 == 0 || !in(n1, k1) || !in(n2, k2) {
		return Value{}, false
	}
	op := OAdd
	if tok == token.SUB {
		op = OSub
	}
	return e.mkFuzzy(tt.bin(op, tt.bin(OMul, n1, tt.Const(uint64(k1), 64)), tt.bin(OMul, n2, tt.Const(uint64(k2), 64))), int64(den), fuzzy), true
}

// cutIte is the case distinction that t is, if both cases are integers without wrapping wherever they are taken.
func (tt *TermTable) cutIte(t *Term) *Term {
	u := t
	if u.op == OZext {
		u = u.a
	}
	if u.op != OIte || !tt.lin(u.b).sgn() || !tt.lin(u.c).sgn() {
		return nil
	}
	if u != t {
		f := tt.lin(u)
		if len(f.at) != 1 || f.k != 0 || f.at[0].c != 1 || f.at[0].neg || f.at[0].lo < 0 || uint64(f.at[0].hi) > mask(u.w)>>1 {
			return nil
		}
	}
	return u
}

// content is the greatest common divisor of k and what is known of the signed number t.
func (tt *TermTable) content(t *Term, k int64, depth int) int64 {
	if u := tt.cutIte(t); u != nil && depth < 4 {
		return tt.content(u.c, tt.content(u.b, k, depth+1), depth+1)
	}
	f := tt.lin(t)
	if !f.sgn() {
		return 1
	}
	lo, _, ok := atomRange(f.at)
	if !ok {
		return 1
	}
	g := gcd(k, sx(f.start, t.w)-lo)
	for _, a := range f.at {
		g = gcd(g, a.c)
	}
	return g
}

// cancel is t/g in 64 bits, where g divides its content.
func (tt *TermTable) cancel(t *Term, g int64, depth int) *Term {
	if u := tt.cutIte(t); u != nil && depth < 4 {
		return tt.Ite(u.a, tt.cancel(u.b, g, depth+1), tt.cancel(u.c, g, depth+1))
	}
	f := tt.lin(t)
	lo, _, _ := atomRange(f.at)
	at := append([]latom{}, f.at...)
	for i := range at {
		at[i].c /= g
	}
	return tt.build(64, uint64((sx(f.start, t.w)-lo)/g), at)
}

// split finds ip and fp where num is written that way, so that divisions by den need no arithmetic.
func (e *Engine) split(x *FTerm) bool {
	if x.ip != nil {
		return true
	}
	if x.den <= 1 {
		return false
	}
	tt := e.tt
	var ip, fp *Term
	part := func(t *Term) *Term {
		if t.op == OMul && t.b.op == OConst && int64(t.b.val) == x.den {
			return t.a
		}
		if t.op == OMul && t.a.op == OConst && int64(t.a.val) == x.den {
			return t.b
		}
		return nil
	}
	n := x.num
	if ip = part(n); ip != nil {
		fp = tt.Const(0, 64)
	} else if n.op == OAdd {
		if ip = part(n.a); ip != nil {
			fp = n.b
		} else if ip = part(n.b); ip != nil {
			fp = n.a
		}
	}
	if ip == nil {
		return false
	}
	c := tt.And(tt.And(tt.bin(OUle, ip, tt.Const(uint64(maxExact/x.den), 64)), tt.bin(OUlt, fp, tt.Const(uint64(x.den), 64))), tt.tru)
	if !e.mergeImplied(c) {
		return false
	}
	if e.merging == 0 {
		x.ip, x.fp = ip, fp
		return true
	}
	return false
}

const maxExact = 1 << 53

func (e *Engine) inExact(t *Term) *Term {
	tt := e.tt
	lim := int64(maxExact)
	return tt.And(tt.bin(OSle, t, tt.Const(uint64(lim), 64)), tt.bin(OSle, tt.Const(uint64(-lim), 64), t))
}

// mkFloat builds num/den, cutting paths on which num leaves the exact range.
func (e *Engine) mkFloat(num *Term, den int64) Value {
	if num.op == OConst {
		return Value{N: math.Float64bits(float64(int64(num.val)) / float64(den))}
	}
	c := e.inExact(num)
	if e.merging > 0 {
		if !e.mergeImplied(c) {
			panic(mergeAbort{"float range"})
		}
	} else if !e.fork(c) {
		panic(abort{"float-range", "symbolic float beyond 2^53"})
	}
	return Value{P: &FTerm{num: num, den: den}}
}

func (e *Engine) intToFloat(v Value, f, t basicInfo) Value {
	if t.w == 32 {
		panic(abort{"unsupported", "symbolic float32"})
	}
	x := symOf(v)
	if f.w == 64 && !f.signed && !e.tt.nonNeg(x) {
		if e.merging > 0 {
			panic(mergeAbort{"uint64 float"})
		}
		if e.fork(e.tt.bin(OSlt, x, e.tt.Const(0, 64))) {
			panic(abort{"float-range", "symbolic float beyond 2^53"})
		}
	}
	return e.mkFloat(e.widen(x, f), 1)
}

func pow2(n int64) bool { return n > 0 && n&(n-1) == 0 }

// ratOf returns the exact rational of a concrete float.
func ratOf(v Value) (*big.Rat, bool) {
	f := math.Float64frombits(v.N)
	if math.IsNaN(f) || math.IsInf(f, 0) {
		return nil, false
	}
	return new(big.Rat).SetFloat64(f), true
}

// asInt returns the integer value of a concrete float, if it is one within the exact range.
func asInt(v Value) (int64, bool) {
	f := math.Float64frombits(v.N)
	if f != math.Trunc(f) || math.Abs(f) > maxExact || (f == 0 && math.Signbit(f)) {
		return 0, false
	}
	return int64(f), true
}

// cmpConst compares the symbolic x with the float constant c; returns terms for x<c and x==c.
func (e *Engine) cmpConst(x *FTerm, c Value) (lt, eq *Term) {
	tt := e.tt
	f := math.Float64frombits(c.N)
	if math.IsNaN(f) {
		return nil, nil
	}
	if f == 0 {
		f = 0
	}
	if math.IsInf(f, 1) {
		return tt.tru, tt.fls
	}
	if math.IsInf(f, -1) {
		return tt.fls, tt.fls
	}
	r := new(big.Rat).SetFloat64(f)
	exact := pow2(x.den)
	if x.approx && !r.IsInt() {
		panic(abort{"unsupported", "comparison of a symbolic remainder"})
	}
	if x.fuzzy {
		if r.Num().CmpAbs(big.NewInt(1<<17)) > 0 {
			panic(abort{"unsupported", "comparison of a rounded symbolic float"})
		}
		e.sure(x, false, r.Num().Int64())
	}
	if !exact && !r.IsInt() {
		// the nearest float to num/den against a non-integer constant: decide by the rounding interval
		return e.cmpRounded(x, f)
	}
	p := new(big.Rat).Mul(r, new(big.Rat).SetInt64(x.den)) // num < p
	fl := new(big.Int).Div(p.Num(), p.Denom())             // floor (denominator positive, Euclidean)
	isInt := p.IsInt()
	if !fl.IsInt64() || fl.CmpAbs(big.NewInt(1<<60)) > 0 {
		if fl.Sign() > 0 {
			return tt.tru, tt.fls
		}
		return tt.fls, tt.fls
	}
	k := tt.Const(uint64(fl.Int64()), 64)
	if r.IsInt() && e.split(x) {
		k = tt.Const(r.Num().Uint64(), 64)
		if r.Sign() < 0 {
			return tt.fls, tt.fls
		}
		return tt.bin(OSlt, x.ip, k), tt.And(tt.Eq(x.ip, k), tt.Eq(x.fp, tt.Const(0, 64)))
	}
	if isInt {
		return tt.bin(OSlt, x.num, k), tt.Eq(x.num, k)
	}
	return tt.bin(OSle, x.num, k), tt.fls
}

// cmpRounded finds, by exact arithmetic, the integer thresholds num for which float64(num/den) <,== f.
func (e *Engine) cmpRounded(x *FTerm, f float64) (lt, eq *Term) {
	tt := e.tt
	// float64(num)/float64(den) is monotone in num: binary search the first num with quotient >= f and > f
	q := func(n int64) float64 { return float64(n) / float64(x.den) }
	search := func(pred func(int64) bool) int64 {
		lo, hi := int64(-maxExact-1), int64(maxExact+1)
		for hi-lo > 1 {
			m := lo + (hi-lo)/2
			if pred(m) {
				hi = m
			} else {
				lo = m
			}
		}
		return hi
	}
	ge := search(func(n int64) bool { return q(n) >= f })
	gt := search(func(n int64) bool { return q(n) > f })
	l := tt.bin(OSlt, x.num, tt.Const(uint64(ge), 64))
	g := tt.bin(OSle, tt.Const(uint64(gt), 64), x.num)
	return l, tt.And(tt.Not(l), tt.Not(g))
}

func (e *Engine) floatBinop(tok token.Token, a, b Value, bi basicInfo) Value {
	if bi.w == 32 {
		panic(abort{"unsupported", "symbolic float32"})
	}
	tt := e.tt
	x, xs := a.P.(*FTerm)
	y, ys := b.P.(*FTerm)
	switch tok {
	case token.EQL, token.NEQ, token.LSS, token.LEQ, token.GTR, token.GEQ:
		var lt, eq *Term
		switch {
		case xs && !ys:
			lt, eq = e.cmpConst(x, b)
		case ys && !xs:
			lt, eq = e.cmpConst(y, a)
			if lt != nil {
				lt = tt.And(tt.Not(lt), tt.Not(eq)) // a < y  <=>  y > a
			}
		default:
			e.sure(x, true, 0)
			e.sure(y, true, 0)
			if x.den != y.den {
				// against an integer: x < t iff floor(x) < t
				switch {
				case y.den == 1:
					fl := e.fFloor(x)
					lt, eq = tt.bin(OSlt, fl, y.num), tt.And(tt.Eq(fl, y.num), e.isWhole(x))
				case x.den == 1:
					fl := e.fFloor(y)
					eq = tt.And(tt.Eq(fl, x.num), e.isWhole(y))
					lt = tt.And(tt.bin(OSle, x.num, fl), tt.Not(eq))
				default:
					panic(abort{"unsupported", "comparison of symbolic quotients"})
				}
				break
			}
			if (x.approx || y.approx) && !(x.approx && y.approx && x.num == y.num) {
				panic(abort{"unsupported", "comparison of symbolic remainders"})
			}
			lt, eq = tt.bin(OSlt, x.num, y.num), tt.Eq(x.num, y.num)
			if x.den != 1 && !pow2(x.den) {
				// equal numerators give equal floats; distinct ones may round together only beyond 2^53
				_ = eq
			}
		}
		if lt == nil { // NaN
			return mkBool(tok == token.NEQ)
		}
		switch tok {
		case token.EQL:
			return boolVal(eq)
		case token.NEQ:
			return boolVal(tt.Not(eq))
		case token.LSS:
			return boolVal(lt)
		case token.LEQ:
			return boolVal(tt.Or(lt, eq))
		case token.GTR:
			return boolVal(tt.And(tt.Not(lt), tt.Not(eq)))
		case token.GEQ:
			return boolVal(tt.Not(lt))
		}
	case token.ADD, token.SUB:
		n1, d1, ok1 := e.fparts(a)
		n2, d2, ok2 := e.fparts(b)
		if ok1 && ok2 && d1 == d2 && (d1 == 1 || pow2(d1)) {
			op := OAdd
			if tok == token.SUB {
				op = OSub
			}
			return e.mkFloat(tt.bin(op, n1, n2), d1)
		}
		if ok1 && ok2 && pow2(d1) && pow2(d2) {
			for d1 < d2 {
				n1 = e.scale(n1, 2)
				d1 *= 2
			}
			for d2 < d1 {
				n2 = e.scale(n2, 2)
				d2 *= 2
			}
			op := OAdd
			if tok == token.SUB {
				op = OSub
			}
			return e.mkFloat(tt.bin(op, n1, n2), d1)
		}
		// a rounded quotient and an integer: no rounding reaches the next integer while the numbers are small
		z, o := x, b
		if !xs {
			z, o = y, a
		}
		if k, ok := asInt(o); ok && z != nil && !pow2(z.den) && k > -1000 && k < 1000 && z.den < 1<<40 && e.merging == 0 {
			lim := int64(1<<50) - 1000*z.den
			if lim < 0 || !e.fork(tt.And(tt.bin(OSle, z.num, tt.Const(uint64(lim), 64)), tt.bin(OSle, tt.Const(uint64(-lim), 64), z.num))) {
				panic(abort{"float-range", "symbolic quotient and integer"})
			}
			kd := tt.Const(uint64(k*z.den), 64)
			n := z.num
			switch {
			case tok == token.ADD:
				n = tt.bin(OAdd, n, kd)
			case xs:
				n = tt.bin(OSub, n, kd)
			default:
				n = tt.bin(OSub, kd, n)
			}
			return Value{P: &FTerm{num: n, den: z.den, approx: true, fuzzy: z.fuzzy}}
		}
		if v, ok := e.fuzz(tok, a, b); ok {
			return v
		}
	case token.MUL:
		if xs && ys {
			break
		}
		if ys {
			x, b = y, a
		}
		if k, ok := asInt(b); ok && pow2(x.den) {
			if k == 0 {
				break
			}
			return e.mkFloat(e.scale(x.num, k), x.den)
		}
		if f := math.Float64frombits(b.N); f != 0 && pow2(x.den) {
			// power-of-two reciprocals are exact
			if inv := 1 / f; inv == math.Trunc(inv) && inv > 0 && inv < 1<<40 && pow2(int64(inv)) {
				return e.mkFloat(x.num, x.den*int64(inv))
			}
		}
		if k, ok := asInt(b); ok && !pow2(x.den) && k > 0 && k < 1<<20 && e.merging == 0 && x.den < 1<<40 {
			den, m := x.den, k
			if g := gcd(x.den, k); !pow2(x.den / g) {
				den, m = x.den/g, k/g
			}
			lim := int64(fuzzyMax) / m
			if e.fork(e.tt.And(e.tt.bin(OSle, x.num, e.tt.Const(uint64(lim), 64)), e.tt.bin(OSle, e.tt.Const(uint64(-lim), 64), x.num))) {
				return e.mkFuzzy(e.tt.bin(OMul, x.num, e.tt.Const(uint64(m), 64)), den, true)
			}
		}
	case token.QUO:
		if xs && !ys {
			if k, ok := asInt(b); ok && k > 0 && pow2(x.den) && (x.den == 1 || pow2(k)) && (k < 1<<50/x.den || pow2(k) && x.den == 1 && k <= 1<<50) {
				num, den := x.num, x.den*k
				if x.den == 1 {
					// a common factor cancels: the same real number, rounded once
					if g := e.tt.content(num, k, 0); g > 1 {
						num, den = e.tt.cancel(num, g, 0), k/g
					}
				}
				return e.mkFloat(num, den)
			}
			if k, ok := asInt(b); ok && k > 0 && k < 1<<20 && !pow2(x.den) && x.den < 1<<44/k {
				return e.mkFuzzy(x.num, x.den*k, true)
			}
		}
	}
	if os.Getenv("VE_SLOW") != "" {
		for _, v := range []Value{a, b} {
			if x, ok := v.P.(*FTerm); ok {
				fmt.Fprintf(os.Stderr, "FLOAT %v %d %.3000s\n", tok, x.den, x.num.String())
			}
		}
	}
	panic(abort{"unsupported", "symbolic float " + tok.String()})
}

// scale multiplies by a constant, cutting paths that leave the exact range.
func (e *Engine) scale(n *Term, k int64) *Term {
	if n.op == OConst {
		return e.tt.Const(uint64(int64(n.val)*k), 64)
	}
	ak := k
	if ak < 0 {
		ak = -ak
	}
	lim := int64(maxExact) / ak
	c := e.tt.And(e.tt.bin(OSle, n, e.tt.Const(uint64(lim), 64)), e.tt.bin(OSle, e.tt.Const(uint64(-lim), 64), n))
	if e.merging > 0 {
		if !e.mergeImplied(c) {
			panic(mergeAbort{"float range"})
		}
	} else if !e.fork(c) {
		panic(abort{"float-range", "symbolic float beyond 2^53"})
	}
	return e.tt.bin(OMul, n, e.tt.Const(uint64(k), 64))
}

// fparts returns numerator and denominator of an exact float.
func (e *Engine) fparts(v Value) (*Term, int64, bool) {
	if x, ok := v.P.(*FTerm); ok {
		return x.num, x.den, pow2(x.den)
	}
	if k, ok := asInt(v); ok {
		return e.tt.Const(uint64(k), 64), 1, true
	}
	if r, ok := ratOf(v); ok && r.Denom().IsInt64() && r.Num().IsInt64() && r.Denom().Int64() < 1<<40 {
		return e.tt.Const(uint64(r.Num().Int64()), 64), r.Denom().Int64(), pow2(r.Denom().Int64())
	}
	return nil, 0, false
}

func (e *Engine) floatNeg(v Value) Value {
	x := v.P.(*FTerm)
	// -0.0 is not represented; comparisons do not distinguish it
	return Value{P: &FTerm{num: e.tt.bin(OSub, e.tt.Const(0, 64), x.num), den: x.den, approx: x.approx, fuzzy: x.fuzzy}}
}

func (e *Engine) floatConv(v Value, t basicInfo) Value {
	if t.w == 32 {
		x := v.P.(*FTerm)
		_ = x
		panic(abort{"unsupported", "symbolic float32"})
	}
	return v
}

// truncDiv is num/den truncated toward zero, floored or ceiled.
func (e *Engine) fTrunc(x *FTerm) *Term {
	e.sure(x, true, 0)
	if x.den == 1 {
		return x.num
	}
	if e.split(x) {
		return x.ip
	}
	return e.tt.bin(OSdiv, x.num, e.tt.Const(uint64(x.den), 64))
}

func (e *Engine) fFloor(x *FTerm) *Term {
	e.sure(x, true, 0)
	if x.den == 1 {
		return x.num
	}
	if e.split(x) {
		return x.ip
	}
	tt := e.tt
	d := tt.Const(uint64(x.den), 64)
	q := tt.bin(OSdiv, x.num, d)
	r := tt.bin(OSrem, x.num, d)
	return tt.Ite(tt.bin(OSlt, r, tt.Const(0, 64)), tt.bin(OSub, q, tt.Const(1, 64)), q)
}

// isWhole says that the float has no fraction.
func (e *Engine) isWhole(x *FTerm) *Term {
	e.sure(x, true, 0)
	if x.den == 1 {
		return e.tt.tru
	}
	if e.split(x) {
		return e.tt.Eq(x.fp, e.tt.Const(0, 64))
	}
	return e.tt.Eq(e.tt.bin(OSrem, x.num, e.tt.Const(uint64(x.den), 64)), e.tt.Const(0, 64))
}

func (e *Engine) floatToInt(v Value, t basicInfo) Value {
	x := v.P.(*FTerm)
	q := e.fTrunc(x)
	if t.w < 64 || !t.signed {
		// within range conversions only; otherwise implementation-defined
		lo, hi := int64(0), int64(0)
		if t.signed {
			lo, hi = -(1 << (t.w - 1)), 1<<(t.w-1)-1
		} else if t.w == 64 {
			hi = math.MaxInt64
		} else {
			hi = 1<<t.w - 1
		}
		c := e.tt.And(e.tt.bin(OSle, e.tt.Const(uint64(lo), 64), q), e.tt.bin(OSle, q, e.tt.Const(uint64(hi), 64)))
		if e.merging > 0 {
			if !e.mergeImplied(c) {
				panic(mergeAbort{"float range"})
			}
		} else if !e.fork(c) {
			panic(abort{"float-range", "conversion out of range"})
		}
		if t.w < 64 {
			q = e.tt.Extract(q, 0, t.w)
		}
	}
	return fromTerm(q, t)
}

// mathFloat implements the math package functions used on symbolic floats.
func (e *Engine) mathFloat(name string, args []Value) (Value, bool) {
	tt := e.tt
	x, ok := args[0].P.(*FTerm)
	if !ok {
		return Value{}, false
	}
	if (name == "Round" || name == "RoundToEven") && x.approx && e.merging == 0 {
		// never at a half
		d := tt.Const(uint64(x.den), 64)
		up := tt.bin(OAdd, tt.bin(OMul, x.num, tt.Const(2, 64)), d)
		dd := tt.Const(uint64(2*x.den), 64)
		if e.fork(tt.Eq(tt.bin(OSrem, up, dd), tt.Const(0, 64))) {
			panic(abort{"unsupported", "rounded symbolic float at a half"})
		}
		return e.mkFloat(e.fFloor(&FTerm{num: up, den: 2 * x.den}), 1), true
	}
	if x.fuzzy && name != "Floor" && name != "Trunc" && name != "Abs" && name != "abs" {
		panic(abort{"unsupported", "math." + name + " on a rounded symbolic float"})
	}
	switch name {
	case "Floor":
		return e.mkFloat(e.fFloor(x), 1), true
	case "Trunc":
		return e.mkFloat(e.fTrunc(x), 1), true
	case "Ceil":
		if x.den == 1 {
			return args[0], true
		}
		n := &FTerm{num: tt.bin(OSub, tt.Const(0, 64), x.num), den: x.den}
		return e.mkFloat(tt.bin(OSub, tt.Const(0, 64), e.fFloor(n)), 1), true
	case "RoundToEven", "Round":
		if x.den == 1 {
			return args[0], true
		}
		if x.approx {
			panic(abort{"unsupported", "rounding of a symbolic remainder"})
		}
		if pow2(x.den) || x.den > 0 {
			// exact rational rounding; ties exist only where the float is exactly a half
			d := tt.Const(uint64(x.den), 64)
			fl := e.fFloor(x)
			rem := tt.bin(OSub, x.num, tt.bin(OMul, fl, d)) // 0 <= rem < den
			two := tt.bin(OMul, rem, tt.Const(2, 64))
			up := tt.bin(OSlt, d, two)
			tie := tt.Eq(d, two)
			one := tt.Const(1, 64)
			var tieUp *Term
			if name == "Round" { // half away from zero
				tieUp = tt.bin(OSle, tt.Const(0, 64), x.num)
			} else {
				tieUp = tt.Eq(tt.bin(OAnd, fl, one), one)
			}
			r := tt.Ite(tt.Or(up, tt.And(tie, tieUp)), tt.bin(OAdd, fl, one), fl)
			return e.mkFloat(r, 1), true
		}
	case "Abs", "abs":
		neg := tt.bin(OSlt, x.num, tt.Const(0, 64))
		return Value{P: &FTerm{num: tt.Ite(neg, tt.bin(OSub, tt.Const(0, 64), x.num), x.num), den: x.den, approx: x.approx, fuzzy: x.fuzzy}}, true
	case "IsNaN", "IsInf":
		return mkBool(false), true
	case "Signbit":
		return boolVal(tt.bin(OSlt, x.num, tt.Const(0, 64))), true
	case "Mod":
		if y, ok := args[1].P.(*FTerm); ok && y.den == 1 && x.den == 1 && !x.approx && e.merging == 0 {
			if yn := y.num; yn.op != OConst && yn.sup > 0 && tt.table(yn) != nil {
				args = []Value{args[0], {N: math.Float64bits(float64(int64(e.concretize(yn))))}}
				if args[1].N == 0 {
					return Value{N: math.Float64bits(math.NaN())}, true
				}
			} else if !e.fork(tt.Eq(y.num, tt.Const(0, 64))) {
				// the result has the sign of x; the remainder of integers is exact
				return e.mkFloat(tt.bin(OSrem, x.num, y.num), 1), true
			}
		}
		if k, ok := asInt(args[1]); ok && k > 0 && k < 1<<40 && x.den > 1 && e.split(x) {
			ip := tt.bin(OSrem, x.ip, tt.Const(uint64(k), 64))
			num := tt.bin(OAdd, tt.bin(OMul, ip, tt.Const(uint64(x.den), 64)), x.fp)
			return Value{P: &FTerm{num: num, den: x.den, approx: x.approx || !pow2(x.den), ip: ip, fp: x.fp}}, true
		}
		if k, ok := asInt(args[1]); ok && k != 0 && x.den == 1 {
			if k < 0 {
				k = -k
			}
			return e.mkFloat(tt.bin(OSrem, x.num, tt.Const(uint64(k), 64)), 1), true
		}
		if k, ok := asInt(args[1]); ok && k > 0 && pow2(x.den) && k < 1<<40/x.den {
			return e.mkFloat(tt.bin(OSrem, x.num, tt.Const(uint64(k*x.den), 64)), x.den), true
		}
		if k, ok := asInt(args[1]); ok && k > 0 && k < 1<<62/x.den {
			return Value{P: &FTerm{num: tt.bin(OSrem, x.num, tt.Const(uint64(k*x.den), 64)), den: x.den, approx: true}}, true
		}
	case "Modf":
		it := e.mkFloat(e.fTrunc(x), 1)
		if pow2(x.den) {
			fr := Value{}
			if x.den != 1 {
				fr = e.mkFloat(tt.bin(OSrem, x.num, tt.Const(uint64(x.den), 64)), x.den)
			}
			return Value{P: []Value{it, fr}}, true
		}
	}
	panic(abort{"unsupported", "math." + name + " on a symbolic float"})
}
