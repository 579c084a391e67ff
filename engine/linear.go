package main

import (
	"math/big"
	"math/bits"
)

// Linear forms with ranges: arithmetic of calendars is sums of small fields times large constants, divided by
// other large constants. A form is k + sum of c*v (mod 2^w) over atoms v whose values lie in known ranges.

type latom struct {
	t   *Term // read as unsigned if lo >= 0, as signed otherwise
	c   int64 // coefficient
	lo  int64
	hi  int64
	neg bool // signed
}

type linForm struct {
	ok    bool // usable: all atoms have ranges
	k     uint64
	at    []latom
	start uint64 // smallest value (mod 2^w)
	span  uint64 // largest value - smallest value
	w     uint8
	dep   int
}

const linMax = 20

var noLin = &linForm{}

func mul64(a, b int64) (int64, bool) {
	ua, ub := uint64(a), uint64(b)
	if a < 0 {
		ua = -ua
	}
	if b < 0 {
		ub = -ub
	}
	hi, lo := bits.Mul64(ua, ub)
	if hi != 0 || lo >= 1<<62 {
		return 0, false
	}
	if (a < 0) != (b < 0) {
		return -int64(lo), true
	}
	return int64(lo), true
}

func addOK(a, b int64) (int64, bool) {
	s := a + b
	if s >= 1<<62 || s <= -(1<<62) {
		return 0, false
	}
	return s, true
}

// bounds of the sum of the atoms, without k
func atomRange(at []latom) (lo, hi int64, ok bool) {
	for _, a := range at {
		x, ok1 := mul64(a.c, a.lo)
		y, ok2 := mul64(a.c, a.hi)
		if !ok1 || !ok2 {
			return 0, 0, false
		}
		if x > y {
			x, y = y, x
		}
		if lo, ok1 = addOK(lo, x); !ok1 {
			return 0, 0, false
		}
		if hi, ok2 = addOK(hi, y); !ok2 {
			return 0, 0, false
		}
	}
	return lo, hi, true
}

func finish(w uint8, k uint64, at []latom) *linForm {
	m := mask(w)
	out := at[:0:0]
	for _, a := range at {
		a.c = sx(uint64(a.c)&m, w)
		if a.c != 0 {
			out = append(out, a)
		}
	}
	if len(out) > linMax {
		return noLin
	}
	for i := 1; i < len(out); i++ {
		for j := i; j > 0 && out[j].t.id < out[j-1].t.id; j-- {
			out[j], out[j-1] = out[j-1], out[j]
		}
	}
	lo, hi, ok := atomRange(out)
	if !ok || uint64(hi-lo) > m {
		return noLin
	}
	f := &linForm{ok: true, k: k & m, at: out, start: (k + uint64(lo)) & m, span: uint64(hi - lo), w: w}
	return f
}

func addAtoms(a, b []latom, s int64) ([]latom, bool) {
	out := make([]latom, len(a), len(a)+len(b))
	copy(out, a)
next:
	for _, x := range b {
		c, ok := mul64(x.c, s)
		if !ok {
			return nil, false
		}
		x.c = c
		for i := range out {
			if out[i].t == x.t && out[i].neg == x.neg {
				if out[i].c, ok = addOK(out[i].c, x.c); !ok {
					return nil, false
				}
				if x.lo > out[i].lo {
					out[i].lo = x.lo
				}
				if x.hi < out[i].hi {
					out[i].hi = x.hi
				}
				if out[i].c == 0 {
					out = append(out[:i], out[i+1:]...)
				}
				continue next
			}
		}
		out = append(out, x)
	}
	return out, true
}

// uns tells whether the form is its unsigned value, without wrapping.
func (f *linForm) uns() bool { return f.ok && f.start+f.span >= f.start && f.start+f.span <= mask(f.w) }

// sgn tells whether the form is its signed value, without wrapping.
func (f *linForm) sgn() bool {
	if !f.ok {
		return false
	}
	return f.span <= mask(f.w)>>1-uint64(sx(f.start, f.w))
}

func (tt *TermTable) atom(t *Term) *linForm {
	switch t.op {
	case OSext:
		if x := t.a; x.w <= 62 {
			half := int64(1) << (x.w - 1)
			return finish(t.w, 0, []latom{{t: x, c: 1, lo: -half, hi: half - 1, neg: true}})
		}
	case OIte:
		a, b := tt.lin(t.b), tt.lin(t.c)
		if len(a.at) == 0 && len(b.at) == 0 && a.ok && b.ok {
			x, y := sx(a.k, t.w), sx(b.k, t.w)
			if x > y {
				x, y = y, x
			}
			if d, ok := addOK(y, -x); ok && x > -(1<<61) && y < 1<<61 {
				_ = d
				// c-if + (b-c)*bit
				bit := tt.Ite(t.a, tt.Const(1, 8), tt.Const(0, 8))
				return finish(t.w, b.k, []latom{{t: bit, c: sx((a.k-b.k)&mask(t.w), t.w), lo: 0, hi: 1}})
			}
			return noLin
		}
		if lo, hi, ok := tt.cutRange(t, a, b); ok {
			if lo >= 0 {
				return finish(t.w, 0, []latom{{t: t, c: 1, lo: lo, hi: hi}})
			}
			return finish(t.w, 0, []latom{{t: t, c: 1, lo: lo, hi: hi, neg: true}})
		}
		if a.ok && b.ok {
			if a.uns() && b.uns() {
				lo, hi := a.start, a.start+a.span
				if b.start < lo {
					lo = b.start
				}
				if b.start+b.span > hi {
					hi = b.start + b.span
				}
				if hi < 1<<61 {
					return finish(t.w, 0, []latom{{t: t, c: 1, lo: int64(lo), hi: int64(hi)}})
				}
			}
			if a.sgn() && b.sgn() {
				lo, hi := sx(a.start, t.w), sx(a.start, t.w)+int64(a.span)
				if x := sx(b.start, t.w); x < lo {
					lo = x
				}
				if x := sx(b.start, t.w) + int64(b.span); x > hi {
					hi = x
				}
				if lo > -(1<<61) && hi < 1<<61 && lo < 0 {
					return finish(t.w, 0, []latom{{t: t, c: 1, lo: lo, hi: hi, neg: true}})
				}
			}
		}
	case OUdiv:
		if t.b.op == OConst && t.b.val != 0 {
			if f := tt.lin(t.a); f.uns() {
				lo, hi := f.start/t.b.val, (f.start+f.span)/t.b.val
				if hi < 1<<61 {
					return finish(t.w, 0, []latom{{t: t, c: 1, lo: int64(lo), hi: int64(hi)}})
				}
			}
		}
	case OLshr:
		if t.b.op == OConst && t.b.val < 64 {
			if f := tt.lin(t.a); f.uns() {
				lo, hi := f.start>>t.b.val, (f.start+f.span)>>t.b.val
				if hi < 1<<61 {
					return finish(t.w, 0, []latom{{t: t, c: 1, lo: int64(lo), hi: int64(hi)}})
				}
			}
		}
	}
	u := tt.ub(t)
	if u >= 1<<61 {
		return noLin
	}
	return finish(t.w, 0, []latom{{t: t, c: 1, lo: 0, hi: int64(u)}})
}

// cutRange is the range of (if x < c then a else b) where a and b are x plus constants.
func (tt *TermTable) cutRange(t *Term, a, b *linForm) (lo, hi int64, ok bool) {
	if !tt.quo || !a.ok || !b.ok {
		return
	}
	p := t.a
	if p.op == OBNot {
		p, a, b = p.a, b, a
	}
	if p.op != OUlt || p.b.op != OConst || p.a.op == OConst || p.b.val >= 1<<56 || p.b.val == 0 {
		return
	}
	x := tt.lin(p.a)
	if !x.uns() || x.start+x.span >= 1<<56 || len(x.at) == 0 {
		return
	}
	xl, _, ok1 := atomRange(x.at)
	if !ok1 {
		return
	}
	k := x.start - uint64(xl) // as an integer: x = k + atoms
	c := int64(p.b.val)
	x1, x2 := int64(x.start), int64(x.start+x.span)
	if x2 < c || x1 >= c {
		return
	}
	for i, f := range []*linForm{a, b} {
		// g*x and a constant
		if len(f.at) != len(x.at) || f.at[0].c%x.at[0].c != 0 {
			return
		}
		g := f.at[0].c / x.at[0].c
		if g < 1 || g > 1<<32 || x2 > (1<<57)/g {
			return
		}
		d, ok1 := addAtoms(f.at, x.at, -g)
		if !ok1 || len(d) != 0 {
			return
		}
		s := sx((f.k-k*uint64(g))&mask(t.w), t.w)
		if s > 1<<57 || s < -(1<<57) {
			return
		}
		l, h := x1*g+s, (c-1)*g+s
		if i == 1 {
			l, h = c*g+s, x2*g+s
		}
		if i == 0 || l < lo {
			lo = l
		}
		if i == 0 || h > hi {
			hi = h
		}
	}
	// within the width
	if hi > int64(mask(t.w)>>1) || lo < -int64(mask(t.w)>>1) {
		return
	}
	return lo, hi, true
}

// lin is the linear form of t.
func (tt *TermTable) lin(t *Term) *linForm {
	if t.lin == nil {
		t.lin = noLin // against recursion
		t.lin = tt.lin1(t)
		if t.lin == nil {
			t.lin = noLin
		}
	}
	return t.lin
}

func (tt *TermTable) lin1(t *Term) *linForm {
	if t.w == 0 {
		return noLin
	}
	switch t.op {
	case OConst:
		return finish(t.w, t.val, nil)
	case OAdd, OSub:
		a, b := tt.lin(t.a), tt.lin(t.b)
		if !a.ok || !b.ok {
			return noLin
		}
		s, k := int64(1), a.k+b.k
		if t.op == OSub {
			s, k = -1, a.k-b.k
		}
		at, ok := addAtoms(a.at, b.at, s)
		if !ok {
			return noLin
		}
		return finish(t.w, k, at)
	case OMul, OShl:
		if t.b.op != OConst {
			break
		}
		a := tt.lin(t.a)
		if !a.ok {
			return noLin
		}
		c := t.b.val
		if t.op == OShl {
			if c >= uint64(t.w) {
				break
			}
			c = 1 << c
		}
		at, ok := addAtoms(nil, a.at, sx(c, t.w))
		if !ok {
			return noLin
		}
		return finish(t.w, a.k*c, at)
	case OZext:
		if t.a.w == 0 {
			break
		}
		if a := tt.lin(t.a); a.uns() {
			lo, _, _ := atomRange(a.at)
			return finish(t.w, a.start-uint64(lo), a.at)
		}
	case OSext:
		if a := tt.lin(t.a); a.sgn() {
			lo, _, _ := atomRange(a.at)
			return finish(t.w, uint64(sx(a.start, a.w))-uint64(lo), a.at)
		}
	case OExtract:
		if t.val == 0 {
			if a := tt.lin(t.a); a.ok {
				if f := finish(t.w, a.k, a.at); f.ok {
					return f
				}
			}
		}
	}
	return tt.atom(t)
}

// build makes the term of k + atoms in width w.
func (tt *TermTable) build(w uint8, k uint64, at []latom) *Term {
	m := mask(w)
	var out *Term
	add := func(x *Term) {
		if out == nil {
			out = x
		} else {
			out = tt.bin(OAdd, out, x)
		}
	}
	for _, a := range at {
		x := a.t
		switch {
		case x.w > w:
			x = tt.Extract(x, 0, w)
		case x.w < w && a.neg:
			x = tt.Sext(x, w)
		default:
			x = tt.Zext(x, w)
		}
		c := uint64(a.c) & m
		if c == 0 {
			continue
		}
		add(tt.bin(OMul, x, tt.Const(c, w)))
	}
	if out == nil {
		return tt.Const(k, w)
	}
	if k &= m; k != 0 {
		out = tt.bin(OAdd, out, tt.Const(k, w))
	}
	return out
}

func narrowWidth(max uint64, w uint8) uint8 {
	n := uint8(bits.Len64(max))
	switch {
	case n <= 8:
		n = 8
	case n <= 12:
		n = 12
	case n <= 16:
		n = 16
	case n <= 24:
		n = 24
	case n <= 32:
		n = 32
	case n <= 48:
		n = 48
	default:
		return w
	}
	if n > w {
		return w
	}
	return n
}

// linDiv simplifies the unsigned division (or remainder) of a by the constant c, if it can.
// strict: only if it becomes a sum, or a sum with one case distinction.
func (tt *TermTable) linDiv(a *Term, c uint64, rem, strict bool) *Term {
	if a.op == OConst || c == 0 || c >= 1<<61 {
		return nil
	}
	f := tt.lin(a)
	if !f.uns() || len(f.at) == 0 {
		return nil
	}
	if tt.quo {
		if x := tt.linTidy(f); x != nil && tt.lin(x).uns() && len(tt.lin(x).at) > 0 {
			a, f = x, tt.lin(x)
		}
	}
	w := a.w
	var q, r []latom
	for _, x := range f.at {
		if x.c%int64(c) == 0 {
			x.c /= int64(c)
			q = append(q, x)
		} else {
			r = append(r, x)
		}
	}
	rl, rh, ok := atomRange(r)
	ql, _, ok2 := atomRange(q)
	if !ok || !ok2 {
		return nil
	}
	// k0 + r = m0 + (r - rl), m0 = start - c*ql
	m0 := new(big.Int).SetUint64(f.start)
	cc := new(big.Int).SetUint64(c)
	m0.Sub(m0, new(big.Int).Mul(cc, big.NewInt(ql)))
	base, rem0 := new(big.Int), new(big.Int)
	base.DivMod(m0, cc, rem0) // Euclidean
	r0 := rem0.Uint64()
	maxW := r0 + uint64(rh-rl)
	b64 := new(big.Int).And(base, new(big.Int).SetUint64(^uint64(0))).Uint64()
	if base.Sign() < 0 {
		b64 = -new(big.Int).Neg(base).Uint64()
	}
	n := maxW / c
	if strict && n > 1 {
		return nil
	}
	nw := narrowWidth(maxW|c, w)
	if n > 1 && len(q) == 0 && base.Sign() == 0 && nw >= w {
		return nil // nothing gained
	}
	wk := r0 - uint64(rl)
	if n == 0 {
		if rem {
			return tt.build(w, wk, r)
		}
		return tt.build(w, b64, q)
	}
	W := tt.build(nw, wk, r)
	var quo *Term // quotient of W, width nw
	if n <= 1 {
		ge := tt.Not(tt.mkUlt(W, tt.Const(c, nw)))
		if rem {
			return tt.Zext(tt.Ite(ge, tt.bin(OAdd, W, tt.Const(-c, nw)), W), w)
		}
		quo = tt.Ite(ge, tt.Const(1, nw), tt.Const(0, nw))
	} else {
		op := OUdiv
		if rem {
			op = OUrem
		}
		quo = tt.bin(op, W, tt.Const(c, nw))
		if rem {
			return tt.Zext(quo, w)
		}
	}
	if len(q) == 0 && b64 == 0 {
		return tt.Zext(quo, w)
	}
	return tt.bin(OAdd, tt.build(w, b64, q), tt.Zext(quo, w))
}

// linCanon is the canonical term with the linear form of t.
func (tt *TermTable) linCanon(t *Term) *Term {
	if f := tt.lin(t); f.ok {
		return tt.build(t.w, f.k, f.at)
	}
	return t
}

// linRem writes a - b as a sum with z%c, if it is x - c*(z/c).
func (tt *TermTable) linRem(a, b *Term) *Term {
	fa, fb := tt.lin(a), tt.lin(b)
	if !fa.ok || !fb.ok {
		return nil
	}
	d, ok := addAtoms(fa.at, fb.at, -1)
	if !ok {
		return nil
	}
	w := a.w
	f := finish(w, fa.k-fb.k, d)
	if !f.ok {
		return nil
	}
	for _, x := range f.at {
		if x.t.op != OUdiv || x.t.b.op != OConst || x.neg || x.c >= -1 || x.t.b.val%uint64(-x.c) != 0 {
			continue
		}
		z, c := x.t.a, uint64(-x.c)
		if c != x.t.b.val {
			// z/(c*d) = (z/d)/c
			z = tt.bin(OUdiv, z, tt.Const(x.t.b.val/c, z.w))
		}
		g := tt.lin(z)
		if !g.uns() {
			continue
		}
		at, ok := addAtoms(f.at, g.at, -1)
		if !ok {
			continue
		}
		at, ok = addAtoms(at, []latom{x}, -1)
		if !ok || len(at) >= len(f.at) {
			continue
		}
		// z, not wrapped: start - lo + atoms
		lo, _, _ := atomRange(g.at)
		if c > mask(z.w) {
			continue
		}
		r := tt.bin(OUrem, z, tt.Const(c, z.w))
		if r.w > w {
			r = tt.Extract(r, 0, w)
		} else {
			r = tt.Zext(r, w)
		}
		return tt.bin(OAdd, tt.build(w, f.k-(g.start-uint64(lo)), at), r)
	}
	return nil
}

// linQuo writes a - b as a sum with c*(z/c), if it is x - z%c.
func (tt *TermTable) linQuo(a, b *Term) *Term {
	fa, fb := tt.lin(a), tt.lin(b)
	if !fa.ok || !fb.ok {
		return nil
	}
	d, ok := addAtoms(fa.at, fb.at, -1)
	if !ok {
		return nil
	}
	f := finish(a.w, fa.k-fb.k, d)
	if !f.ok {
		return nil
	}
	return tt.linTidy(f)
}

// linTidy is the sum f, with remainders and conditional sums that cancel.
func (tt *TermTable) linTidy(f *linForm) *Term {
	w := f.w
	if len(f.at) < 2 {
		return nil
	}
	for _, x := range f.at {
		if x.t.op != OUrem || x.t.b.op != OConst || x.neg || x.c != -1 {
			continue
		}
		z, c := x.t.a, x.t.b.val
		g := tt.lin(z)
		if !g.uns() || c >= 1<<55 || c > mask(w) {
			continue
		}
		at, ok := addAtoms(f.at, g.at, -1)
		if !ok {
			continue
		}
		at, ok = addAtoms(at, []latom{x}, -1)
		if !ok || len(at) >= len(f.at) {
			continue
		}
		lo, _, _ := atomRange(g.at)
		q := tt.bin(OUdiv, z, tt.Const(c, z.w))
		if q.w > w {
			q = tt.Extract(q, 0, w)
		} else {
			q = tt.Zext(q, w)
		}
		return tt.bin(OAdd, tt.build(w, f.k-(g.start-uint64(lo)), at), tt.bin(OMul, q, tt.Const(c, w)))
	}
	// x - (if p then x+c else x) = -c*bit
	for _, x := range f.at {
		if x.t.op != OIte || x.c != 1 && x.c != -1 {
			continue
		}
		p, q := tt.lin(x.t.b), tt.lin(x.t.c)
		small := !x.neg && uint64(x.hi) <= mask(x.t.w)>>1 && p.sgn() && q.sgn()
		if x.neg && !(p.sgn() && q.sgn()) || !x.neg && !small && !(p.uns() && q.uns()) || len(q.at) == 0 {
			continue
		}
		if d, ok := addAtoms(p.at, q.at, -1); !ok || len(d) != 0 {
			continue
		}
		at := f.at[:0:0]
		for _, y := range f.at {
			if y.t != x.t || y.neg != x.neg {
				at = append(at, y)
			}
		}
		at, ok := addAtoms(at, q.at, x.c)
		if !ok || len(at) >= len(f.at) {
			continue
		}
		lo, _, _ := atomRange(q.at)
		k := q.start - uint64(lo)
		delta := int64(p.start - q.start)
		if x.neg || small {
			k = uint64(sx(q.start, x.t.w)) - uint64(lo)
			delta = sx(p.start, x.t.w) - sx(q.start, x.t.w)
		}
		bit := tt.Ite(x.t.a, tt.Const(1, w), tt.Const(0, w))
		return tt.bin(OAdd, tt.build(w, f.k+uint64(x.c)*k, at), tt.bin(OMul, bit, tt.Const(uint64(x.c*delta)&mask(w), w)))
	}
	return nil
}

// decimal tells whether the digits of t are known terms: the form is a sum of digits times powers of ten.
func (tt *TermTable) decimal(t *Term) bool {
	f := tt.lin(t)
	if !f.uns() {
		return false
	}
	for _, x := range f.at {
		if x.neg || x.lo < 0 || x.hi > 9 || x.c < 1 {
			return false
		}
		if f.k/uint64(x.c)%10+uint64(x.hi) > 9 {
			return false // may carry
		}
		c := x.c
		for c%10 == 0 {
			c /= 10
		}
		if c != 1 {
			return false
		}
		for _, y := range f.at {
			if y.t != x.t && y.c == x.c {
				return false
			}
		}
	}
	return true
}

// linSame tells whether b equals a whenever the atom v has the value k.
func (tt *TermTable) linSame(v *Term, k uint64, a, b *Term) bool {
	fa, fb := tt.lin(a), tt.lin(b)
	if !fa.ok || !fb.ok {
		return false
	}
	at, ok := addAtoms(fa.at, fb.at, -1)
	if !ok {
		return false
	}
	d := fa.k - fb.k
	for _, x := range at {
		if x.t != v {
			return false
		}
		y := int64(k)
		if x.neg {
			y = sx(k, v.w)
		}
		d += uint64(x.c) * uint64(y)
	}
	return d&mask(a.w) == 0
}

// linSdiv simplifies the signed division (or remainder) of a, which may be negative, by the constant c > 1, if it can.
func (tt *TermTable) linSdiv(a *Term, c int64, rem bool) *Term {
	f := tt.lin(a)
	if !f.sgn() || len(f.at) == 0 || c >= 1<<40 {
		return nil
	}
	lo := sx(f.start, f.w)
	if lo >= 0 || lo < -(1<<55) || f.span >= 1<<56 {
		return nil
	}
	w := a.w
	k := (-lo + c - 1) / c
	m := uint64(c) * uint64(k)
	if sx(m&mask(w), w) != int64(m) || uint64(int64(f.span)+int64(m)+c) > mask(w)>>1 {
		return nil
	}
	exact := sx(f.k, w)%c == 0
	for _, x := range f.at {
		exact = exact && x.c%c == 0
	}
	var q *Term
	if exact {
		if rem {
			return tt.Const(0, w)
		}
	} else {
		a = tt.bin(OAdd, a, tt.Ite(tt.bin(OSlt, a, tt.Const(0, w)), tt.Const(uint64(c-1), w), tt.Const(0, w)))
	}
	// a/c rounded down
	q = tt.bin(OAdd, tt.bin(OUdiv, tt.bin(OAdd, a, tt.Const(m, w)), tt.Const(uint64(c), w)), tt.Const(-uint64(k)&mask(w), w))
	if !rem {
		return q
	}
	return tt.bin(OSub, tt.build(w, f.k, f.at), tt.bin(OMul, q, tt.Const(uint64(c), w)))
}

// linSigned divides a, whose sign is known, by the constant c > 1, so that the dividend stays in the range of its form.
func (tt *TermTable) linSigned(a *Term, c int64, rem, neg bool) *Term {
	f := tt.lin(a)
	if !a.rng || !f.sgn() || len(f.at) == 0 || c >= 1<<48 {
		return nil
	}
	w := a.w
	if neg {
		t := tt.linSigned(tt.bin(OSub, tt.Const(0, w), a), c, rem, false)
		if t == nil {
			return nil
		}
		return tt.bin(OSub, tt.Const(0, w), t)
	}
	lo := sx(f.start, f.w)
	if lo < -(1<<55) || f.span >= 1<<56 {
		return nil
	}
	k := int64(0)
	if lo < 0 {
		k = (-lo + c - 1) / c
	}
	m := uint64(c) * uint64(k)
	if sx(m&mask(w), w) != int64(m) || uint64(int64(f.span)+int64(m)+c) > mask(w)>>1 {
		return nil
	}
	if rem {
		exact := sx(f.k, w)%c == 0
		for _, x := range f.at {
			exact = exact && x.c%c == 0
		}
		if exact {
			return tt.Const(0, w)
		}
	}
	q := tt.bin(OAdd, tt.bin(OUdiv, tt.bin(OAdd, a, tt.Const(m, w)), tt.Const(uint64(c), w)), tt.Const(-uint64(k)&mask(w), w))
	if !rem {
		return q
	}
	return tt.bin(OSub, tt.build(w, f.k, f.at), tt.bin(OMul, q, tt.Const(uint64(c), w)))
}

func (tt *TermTable) mkUlt(a, b *Term) *Term { return tt.bin(OUlt, a, b) }

// linCmp simplifies a comparison, if it can.
func (tt *TermTable) linCmp(op Op, a, b *Term) *Term {
	fa, fb := tt.lin(a), tt.lin(b)
	if !fa.ok || !fb.ok {
		return nil
	}
	if op == OEq {
		at, ok := addAtoms(fa.at, fb.at, -1)
		if !ok {
			return nil
		}
		d := finish(a.w, fa.k-fb.k, at)
		if !d.ok {
			return nil
		}
		// zero is in the range?
		if d.start != 0 && d.start+d.span >= d.start && d.start+d.span <= mask(a.w) {
			return tt.fls
		}
		if len(d.at) == 0 {
			return tt.Bool(d.k == 0)
		}
		if b.op == OConst && len(d.at) == len(fa.at) {
			// values below b do not exist: compare the part above the smallest value
			return tt.linNarrowEq(d, a.w)
		}
		if len(d.at) < len(fa.at)+len(fb.at) {
			return tt.linNarrowEq(d, a.w)
		}
		return nil
	}
	okA, okB := fa.uns(), fb.uns()
	if op == OSlt {
		okA, okB = fa.sgn(), fb.sgn()
	}
	if !okA || !okB {
		return nil
	}
	at, ok := addAtoms(fa.at, fb.at, -1)
	if !ok {
		return nil
	}
	// exact value of a-b: sum of atoms + ka - kb, as integers
	la, _, _ := atomRange(fa.at)
	lb, _, _ := atomRange(fb.at)
	val := func(f *linForm, l int64) *big.Int {
		x := new(big.Int)
		if op == OSlt {
			x.SetInt64(sx(f.start, f.w))
		} else {
			x.SetUint64(f.start)
		}
		return x.Sub(x, big.NewInt(l))
	}
	k := val(fa, la)
	k.Sub(k, val(fb, lb))
	lo, hi, ok := atomRange(at)
	if !ok {
		return nil
	}
	if new(big.Int).Add(k, big.NewInt(hi)).Sign() < 0 {
		return tt.tru
	}
	if new(big.Int).Add(k, big.NewInt(lo)).Sign() >= 0 {
		return tt.fls
	}
	// 0 <= sum-lo < -(k+lo)
	lim := new(big.Int).Add(k, big.NewInt(lo))
	lim.Neg(lim)
	span := uint64(hi - lo)
	if !lim.IsUint64() {
		return nil
	}
	// divide by the greatest common divisor of the coefficients
	l := lim.Uint64()
	g := int64(0)
	for _, x := range at {
		g = gcd(g, x.c)
	}
	if g > 1 {
		for i := range at {
			at[i].c /= g
		}
		l = (l + uint64(g) - 1) / uint64(g)
		lo /= g
		span /= uint64(g)
	}
	nw := narrowWidth(span|l, a.w)
	if nw >= a.w && g <= 1 {
		return nil
	}
	if nw > a.w {
		nw = a.w
	}
	if span > mask(nw) || l > mask(nw) {
		return nil
	}
	W := tt.build(nw, uint64(-lo), at)
	return tt.bin(OUlt, W, tt.Const(l, nw))
}

func gcd(a, b int64) int64 {
	if a < 0 {
		a = -a
	}
	if b < 0 {
		b = -b
	}
	for b != 0 {
		a, b = b, a%b
	}
	return a
}

// linNarrowEq is d == 0, in as few bits as it takes.
func (tt *TermTable) linNarrowEq(d *linForm, w uint8) *Term {
	lo, _, _ := atomRange(d.at)
	t := -d.start & mask(w) // sum - lo == t
	if t > d.span {
		return tt.fls
	}
	g := int64(0)
	for _, x := range d.at {
		g = gcd(g, x.c)
	}
	at := append([]latom(nil), d.at...)
	span := d.span
	if g > 1 {
		if t%uint64(g) != 0 {
			return tt.fls
		}
		for i := range at {
			at[i].c /= g
		}
		t /= uint64(g)
		lo /= g
		span /= uint64(g)
	}
	nw := narrowWidth(span, w)
	if nw >= w && g <= 1 {
		return nil
	}
	return tt.bin(OEq, tt.build(nw, uint64(-lo), at), tt.Const(t, nw))
}
