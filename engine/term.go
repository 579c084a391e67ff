package main

import (
	"fmt"
	"math/bits"
	"strings"
)

// Op is a term operator.
type Op uint8

const (
	OConst Op = iota
	OVar
	OAdd
	OSub
	OMul
	OUdiv
	OUrem
	OSdiv
	OSrem
	OAnd
	OOr
	OXor
	OShl
	OLshr
	OAshr
	OZext
	OSext
	OExtract // low bits [w-1:0] of arg (val = low bit)
	OConcat
	OIte
	OEq
	OUlt
	OUle
	OSlt
	OSle
	OBNot
	OBAnd
	OBOr
	OMulHi // unsigned high word of the 128-bit product
)

var opName = map[Op]string{OAdd: "bvadd", OSub: "bvsub", OMul: "bvmul", OUdiv: "bvudiv", OUrem: "bvurem", OSdiv: "bvsdiv", OSrem: "bvsrem",
	OAnd: "bvand", OOr: "bvor", OXor: "bvxor", OShl: "bvshl", OLshr: "bvlshr", OAshr: "bvashr", OConcat: "concat", OIte: "ite", OEq: "=",
	OUlt: "bvult", OUle: "bvule", OSlt: "bvslt", OSle: "bvsle", OBNot: "not", OBAnd: "and", OBOr: "or"}

// Term is a hash-consed bit-vector (w>0) or Boolean (w==0) term.
type Term struct {
	op   Op
	w    uint8
	id   int32
	sup  int32 // -1 several variables, 0 none, otherwise id of the only variable
	val  uint64
	a    *Term
	b    *Term
	c    *Term
	name string
	rng  bool // depends on a variable with a range
	dep  int32

	evGen int64
	evVal uint64
	tab   *[256]uint64
	lin   *linForm
	hi    uint64  // of a variable: its largest value
	vars  []*Term // memoised variable set for multi-var terms
}

type tkey struct {
	op      Op
	w       uint8
	a, b, c int32
	val     uint64
}

// TermTable owns hash-consed terms.
type TermTable struct {
	m      map[tkey]*Term
	next   int32
	vars   []*Term
	byName map[string]*Term
	byID   map[int32]*Term
	tru    *Term
	fls    *Term
	quo    bool // write x - x%c as a multiple of c
	gen    int64
}

func NewTermTable() *TermTable {
	tt := &TermTable{m: map[tkey]*Term{}, byName: map[string]*Term{}, byID: map[int32]*Term{}, next: 1}
	tt.tru = tt.mk(OConst, 0, 1, nil, nil, nil)
	tt.fls = tt.mk(OConst, 0, 0, nil, nil, nil)
	return tt
}

func mask(w uint8) uint64 {
	if w == 0 {
		return 1
	}
	if w >= 64 {
		return ^uint64(0)
	}
	return (uint64(1) << w) - 1
}

func sx(v uint64, w uint8) int64 {
	if w >= 64 {
		return int64(v)
	}
	sh := 64 - w
	return int64(v<<sh) >> sh
}

func tid(t *Term) int32 {
	if t == nil {
		return 0
	}
	return t.id
}

func (tt *TermTable) mk(op Op, w uint8, val uint64, a, b, c *Term) *Term {
	k := tkey{op, w, tid(a), tid(b), tid(c), val}
	if t, ok := tt.m[k]; ok {
		return t
	}
	t := &Term{op: op, w: w, val: val, a: a, b: b, c: c, id: tt.next}
	tt.next++
	for _, x := range [3]*Term{a, b, c} {
		if x == nil {
			continue
		}
		if x.rng {
			t.rng = true
		}
		if x.dep+1 > t.dep {
			t.dep = x.dep + 1
		}
		if x.sup != 0 {
			if t.sup == 0 {
				t.sup = x.sup
			} else if t.sup != x.sup {
				t.sup = -1
			}
		}
	}
	tt.m[k] = t
	return t
}

// Var returns the variable of the given name and width.
func (tt *TermTable) Var(name string, w uint8) *Term {
	if t, ok := tt.byName[name]; ok {
		if t.w != w {
			panic("variable width mismatch: " + name)
		}
		return t
	}
	t := &Term{op: OVar, w: w, name: name, id: tt.next}
	t.sup = t.id
	tt.next++
	tt.byName[name] = t
	tt.vars = append(tt.vars, t)
	tt.byID[t.id] = t
	return t
}

func (tt *TermTable) Const(v uint64, w uint8) *Term {
	v &= mask(w)
	return tt.mk(OConst, w, v, nil, nil, nil)
}

func (tt *TermTable) Bool(b bool) *Term {
	if b {
		return tt.tru
	}
	return tt.fls
}

func (t *Term) isConst() bool { return t.op == OConst }

func evalOp(op Op, w uint8, val uint64, aw uint8, a, b, c uint64, bw uint8) uint64 {
	m := mask(w)
	switch op {
	case OAdd:
		return (a + b) & m
	case OSub:
		return (a - b) & m
	case OMul:
		return (a * b) & m
	case OMulHi:
		hi, _ := bits.Mul64(a, b)
		return hi
	case OUdiv:
		if b == 0 {
			return m
		}
		return a / b
	case OUrem:
		if b == 0 {
			return a
		}
		return a % b
	case OSdiv:
		x, y := sx(a, w), sx(b, w)
		if y == 0 {
			if x < 0 {
				return 1
			}
			return m
		}
		if y == -1 {
			return uint64(-x) & m
		}
		return uint64(x/y) & m
	case OSrem:
		x, y := sx(a, w), sx(b, w)
		if y == 0 {
			return a
		}
		if y == -1 {
			return 0
		}
		return uint64(x%y) & m
	case OAnd:
		return a & b
	case OOr:
		return a | b
	case OXor:
		return a ^ b
	case OShl:
		if b >= uint64(w) {
			return 0
		}
		return (a << b) & m
	case OLshr:
		if b >= uint64(w) {
			return 0
		}
		return a >> b
	case OAshr:
		x := sx(a, w)
		if b >= uint64(w) {
			b = uint64(w) - 1
		}
		return uint64(x>>b) & m
	case OZext:
		return a
	case OSext:
		return uint64(sx(a, aw)) & m
	case OExtract:
		return (a >> val) & m
	case OConcat:
		return (a<<bw | b) & m
	case OIte:
		if a != 0 {
			return b
		}
		return c
	case OEq:
		return b2u(a == b)
	case OUlt:
		return b2u(a < b)
	case OUle:
		return b2u(a <= b)
	case OSlt:
		return b2u(sx(a, aw) < sx(b, aw))
	case OSle:
		return b2u(sx(a, aw) <= sx(b, aw))
	case OBNot:
		return a ^ 1
	case OBAnd:
		return a & b
	case OBOr:
		return a | b
	}
	panic(fmt.Sprint("evalOp ", op))
}

func b2u(b bool) uint64 {
	if b {
		return 1
	}
	return 0
}

func (tt *TermTable) bin(op Op, a, b *Term) *Term {
	if a.w != b.w {
		panic(fmt.Sprintf("width mismatch op=%d %d %d", op, a.w, b.w))
	}
	w := a.w
	switch op {
	case OEq, OUlt, OUle, OSlt, OSle:
		w = 0
	}
	if a.op == OConst && b.op == OConst {
		return tt.Const(evalOp(op, w, 0, a.w, a.val, b.val, 0, b.w), w)
	}
	// commutative: constant to the right
	switch op {
	case OAdd, OMul, OAnd, OOr, OXor, OEq, OBAnd, OBOr, OMulHi:
		if a.op == OConst || (b.op != OConst && a.id > b.id) {
			a, b = b, a
		}
	}
	m := mask(a.w)
	switch op {
	case OAdd:
		if b.op == OConst {
			if b.val == 0 {
				return a
			}
			if a.op == OAdd && a.b.op == OConst {
				return tt.bin(OAdd, a.a, tt.Const(a.b.val+b.val, w))
			}
			if a.op == OIte && a.b.op == OConst && a.c.op == OConst {
				return tt.Ite(a.a, tt.Const(a.b.val+b.val, w), tt.Const(a.c.val+b.val, w))
			}
		}
		if a.op == OSub && a.b == b {
			return a.a
		}
		if b.op == OSub && b.b == a {
			return b.a
		}
	case OSub:
		if a == b {
			return tt.Const(0, w)
		}
		if b.op == OConst {
			return tt.bin(OAdd, a, tt.Const(-b.val, w))
		}
		if a.op == OAdd && a.b.op == OConst && b.op == OAdd && b.b.op == OConst && a.a == b.a {
			return tt.Const(a.b.val-b.b.val, w)
		}
		if a.op == OAdd && a.a == b {
			return a.b
		}
		if a.op == OAdd && a.b == b {
			return a.a
		}
		if a.op == OConst && a.val == 0 && b.op == OSub && b.a == a {
			return b.b
		}
		if a.rng && b.rng && b.op == OMul {
			if x := tt.linRem(a, b); x != nil {
				return x
			}
		}
		if tt.quo && a.rng && b.rng {
			if x := tt.linQuo(a, b); x != nil {
				return x
			}
		}
	case OMul:
		if b.op == OConst {
			if b.val == 0 {
				return b
			}
			if b.val == 1 {
				return a
			}
			if a.op == OMul && a.b.op == OConst {
				return tt.bin(OMul, a.a, tt.Const(a.b.val*b.val, w))
			}
		}
	case OUdiv:
		if b.op == OConst && b.val == 1 {
			return a
		}
		if b.op == OConst && b.val != 0 && a.op == OUdiv && a.b.op == OConst && a.b.val != 0 {
			if hi, lo := bits.Mul64(a.b.val, b.val); hi == 0 && lo <= m {
				return tt.bin(OUdiv, a.a, tt.Const(lo, w))
			}
		}
		if b.op == OConst && tt.ub(a) < b.val {
			return tt.Const(0, w)
		}
		if b.op == OConst && b.val&(b.val-1) == 0 && b.val != 0 {
			return tt.bin(OLshr, a, tt.Const(uint64(bits.TrailingZeros64(b.val)), w))
		}
		if b.op == OConst && w >= 12 {
			if x := tt.linDiv(a, b.val, false, false); x != nil {
				return x
			}
		}
	case OUrem:
		if b.op == OConst && b.val == 1 || a == b || a.op == OConst && a.val == 0 {
			return tt.Const(0, w)
		}
		if b.op == OConst && b.val != 0 {
			if tt.ub(a) < b.val {
				return a
			}
			if b.val&(b.val-1) == 0 {
				return tt.bin(OAnd, a, tt.Const(b.val-1, w))
			}
			if w >= 12 {
				if x := tt.linDiv(a, b.val, true, false); x != nil {
					return x
				}
			}
		}
	case OSdiv, OSrem:
		if tt.nonNeg(a) && tt.nonNeg(b) {
			if op == OSdiv {
				return tt.bin(OUdiv, a, b)
			}
			return tt.bin(OUrem, a, b)
		}
		// non-negative dividend and positive constant divisor: unsigned
		if b.op == OConst && b.val != 0 && sx(b.val, w) > 0 && tt.nonNeg(a) {
			if op == OSdiv {
				return tt.bin(OUdiv, a, b)
			}
			return tt.bin(OUrem, a, b)
		}
		if b.op == OConst && b.val == 1 {
			if op == OSdiv {
				return a
			}
			return tt.Const(0, w)
		}
		if a.rng && b.op == OConst && w >= 32 && sx(b.val, w) > 1 {
			if x := tt.linSdiv(a, sx(b.val, w), op == OSrem); x != nil {
				return x
			}
		}
		if b.op == OConst && w >= 32 && sx(b.val, w) > 1 {
			u := OUdiv
			if op == OSrem {
				u = OUrem
			}
			zero := tt.Const(0, w)
			neg := tt.bin(OSub, zero, a)
			return tt.Ite(tt.bin(OSlt, a, zero), tt.bin(OSub, zero, tt.bin(u, neg, b)), tt.bin(u, a, b))
		}
	case OAnd:
		if a == b {
			return a
		}
		if b.op == OConst {
			if b.val == 0 {
				return b
			}
			if b.val == m {
				return a
			}
			if a.rng && w >= 32 && bits.Len64(tt.ub(a)) <= bits.TrailingZeros64(b.val) {
				return tt.Const(0, w)
			}
			if a.op == OZext && b.val&mask(a.a.w) == mask(a.a.w) {
				return a
			}
			if a.op == OAnd && a.b.op == OConst {
				return tt.bin(OAnd, a.a, tt.Const(a.b.val&b.val, w))
			}
			if w >= 16 && b.val&(b.val+1) == 0 && tt.ranged(a) {
				if x := tt.linDiv(a, b.val+1, true, true); x != nil {
					return x
				}
			}
		}
	case OOr:
		if a == b {
			return a
		}
		if b.op == OConst {
			if b.val == 0 {
				return a
			}
			if b.val == m {
				return b
			}
			if w >= 16 && b.val&(b.val+1) == 0 && tt.ranged(a) {
				if x := tt.linDiv(a, b.val+1, true, true); x != nil {
					return tt.bin(OAdd, tt.bin(OSub, a, x), b)
				}
			}
		}
	case OXor:
		if a == b {
			return tt.Const(0, w)
		}
		if b.op == OConst && b.val == 0 {
			return a
		}
	case OShl, OLshr, OAshr:
		if b.op == OConst {
			if b.val == 0 {
				return a
			}
			if b.val >= uint64(w) && op != OAshr {
				return tt.Const(0, w)
			}
			if op == OLshr && b.val < 64 && tt.ub(a)>>b.val == 0 {
				return tt.Const(0, w)
			}
			if op == OAshr && tt.nonNeg(a) {
				return tt.bin(OLshr, a, b)
			}
			if op == OLshr && w >= 16 && b.val < 61 && tt.ranged(a) {
				if x := tt.linDiv(a, 1<<b.val, false, true); x != nil {
					return x
				}
			}
		}
		if a.op == OConst && a.val == 0 {
			return a
		}
	case OMulHi:
		if b.op == OConst && (b.val == 0 || b.val == 1) {
			return tt.Const(0, w)
		}
	case OEq:
		if a == b {
			return tt.tru
		}
		if a.w == 0 {
			if b.op == OConst {
				if b.val == 1 {
					return a
				}
				return tt.Not(a)
			}
			break
		}
		if b.op == OConst {
			switch a.op {
			case OAdd:
				if a.b.op == OConst {
					return tt.bin(OEq, a.a, tt.Const(b.val-a.b.val, a.w))
				}
			case OXor:
				if a.b.op == OConst {
					return tt.bin(OEq, a.a, tt.Const(b.val^a.b.val, a.w))
				}
			case OZext:
				if b.val > mask(a.a.w) {
					return tt.fls
				}
				return tt.bin(OEq, a.a, tt.Const(b.val, a.a.w))
			case OSext:
				if uint64(sx(b.val&mask(a.a.w), a.a.w))&m != b.val {
					return tt.fls
				}
				return tt.bin(OEq, a.a, tt.Const(b.val, a.a.w))
			case OIte:
				if a.b.op == OConst || a.c.op == OConst {
					return tt.Ite(a.a, tt.bin(OEq, a.b, b), tt.bin(OEq, a.c, b))
				}
			}
			if b.val > tt.ub(a) {
				return tt.fls
			}
		}
		if a.op == OZext && b.op == OZext && a.a.w == b.a.w {
			return tt.bin(OEq, a.a, b.a)
		}
		if a.op == OAdd && b.op == OAdd && a.b.op == OConst && b.b.op == OConst {
			if a.a == b.a {
				return tt.Bool(a.b.val == b.b.val)
			}
		}
		if a.w >= 16 && (tt.ranged(a) || tt.ranged(b)) {
			if x := tt.linCmp(op, a, b); x != nil {
				return x
			}
		}
	case OUlt:
		if a == b {
			return tt.fls
		}
		if a.w >= 16 && (tt.ranged(a) || tt.ranged(b)) {
			if x := tt.linCmp(op, a, b); x != nil {
				return x
			}
		}
		if b.op == OConst {
			if b.val == 0 {
				return tt.fls
			}
			if tt.ub(a) < b.val {
				return tt.tru
			}
			if a.op == OZext {
				return tt.bin(OUlt, a.a, tt.Const(b.val, a.a.w)) // b.val <= ub(a.a)
			}
			if a.op == OIte && (a.b.op == OConst || a.c.op == OConst) {
				return tt.Ite(a.a, tt.bin(OUlt, a.b, b), tt.bin(OUlt, a.c, b))
			}
		}
		if a.op == OConst {
			if a.val >= tt.ub(b) {
				return tt.fls
			}
			if b.op == OZext {
				return tt.bin(OUlt, tt.Const(a.val, b.a.w), b.a)
			}
			if b.op == OIte && (b.b.op == OConst || b.c.op == OConst) {
				return tt.Ite(b.a, tt.bin(OUlt, a, b.b), tt.bin(OUlt, a, b.c))
			}
		}
		if a.op == OZext && b.op == OZext && a.a.w == b.a.w {
			return tt.bin(OUlt, a.a, b.a)
		}
	case OUle:
		return tt.Not(tt.bin(OUlt, b, a))
	case OSlt:
		if a == b {
			return tt.fls
		}
		if a.w >= 16 && (tt.ranged(a) || tt.ranged(b)) {
			if x := tt.linCmp(op, a, b); x != nil {
				return x
			}
		}
		if tt.nonNeg(a) && tt.nonNeg(b) {
			return tt.bin(OUlt, a, b)
		}
		if b.op == OConst && tt.nonNeg(a) { // b negative const
			return tt.fls
		}
		if a.op == OConst && tt.nonNeg(b) { // a negative const
			return tt.tru
		}
		if b.op == OConst && b.val == (uint64(1)<<(a.w-1)) {
			return tt.fls
		}
		if a.op == OConst && a.val == m>>1 {
			return tt.fls
		}
		if a.op == OIte && b.op == OConst && (a.b.op == OConst || a.c.op == OConst) {
			return tt.Ite(a.a, tt.bin(OSlt, a.b, b), tt.bin(OSlt, a.c, b))
		}
		if b.op == OIte && a.op == OConst && (b.b.op == OConst || b.c.op == OConst) {
			return tt.Ite(b.a, tt.bin(OSlt, a, b.b), tt.bin(OSlt, a, b.c))
		}
		if a.op == OSext && b.op == OSext && a.a.w == b.a.w {
			return tt.bin(OSlt, a.a, b.a)
		}
		if a.op == OSext && b.op == OConst && sx(b.val, b.w) == sx(b.val&mask(a.a.w), a.a.w) {
			return tt.bin(OSlt, a.a, tt.Const(b.val, a.a.w))
		}
		if b.op == OSext && a.op == OConst && sx(a.val, a.w) == sx(a.val&mask(b.a.w), b.a.w) {
			return tt.bin(OSlt, tt.Const(a.val, b.a.w), b.a)
		}
	case OSle:
		return tt.Not(tt.bin(OSlt, b, a))
	case OBAnd:
		if a == b {
			return a
		}
		if b.op == OConst {
			if b.val == 1 {
				return a
			}
			return b
		}
		if a.op == OBNot && a.a == b || b.op == OBNot && b.a == a {
			return tt.fls
		}
		if a.op == OBAnd && (a.a == b || a.b == b) {
			return a
		}
		if b.op == OBAnd && (b.a == a || b.b == a) {
			return b
		}
		if a.op == OBOr && (a.a == b || a.b == b) {
			return b
		}
		if b.op == OBOr && (b.a == a || b.b == a) {
			return a
		}
	case OBOr:
		if a == b {
			return a
		}
		if b.op == OConst {
			if b.val == 0 {
				return a
			}
			return b
		}
		if a.op == OBNot && a.a == b || b.op == OBNot && b.a == a {
			return tt.tru
		}
		if a.op == OBOr && (a.a == b || a.b == b) {
			return a
		}
		if b.op == OBOr && (b.a == a || b.b == a) {
			return b
		}
		if a.op == OBAnd && (a.a == b || a.b == b) {
			return b
		}
		if b.op == OBAnd && (b.a == a || b.b == a) {
			return a
		}
	}
	t := tt.mk(op, w, 0, a, b, nil)
	if w == 0 {
		return tt.ttSimp(t)
	}
	return t
}

// ttSimp folds Boolean terms over a single 8-bit variable whose truth table is constant.
func (tt *TermTable) ttSimp(t *Term) *Term {
	if t.sup <= 0 || t.dep > 60 {
		return t
	}
	tab := tt.table(t)
	if tab == nil {
		return t
	}
	first := tab[0]
	vals := tab[:]
	if x := tt.byID[t.sup]; x != nil && x.rng {
		vals = tab[:x.hi+1]
	}
	for _, v := range vals {
		if v != first {
			return t
		}
	}
	return tt.Const(first, 0)
}

func (tt *TermTable) varByIDFast(id int32) *Term { return tt.byID[id] }

// table returns the value table of a term whose only variable has 8 bits.
func (tt *TermTable) table(t *Term) *[256]uint64 {
	if t.tab != nil {
		return t.tab
	}
	if t.sup < 0 {
		return nil
	}
	if t.op == OVar {
		if t.w != 8 {
			return nil
		}
		tab := new([256]uint64)
		for i := range tab {
			tab[i] = uint64(i)
		}
		t.tab = tab
		return tab
	}
	var ca, cb, cc *[256]uint64
	var ka, kb, kc uint64
	get := func(x *Term) (*[256]uint64, uint64, bool) {
		if x == nil {
			return nil, 0, true
		}
		if x.op == OConst {
			return nil, x.val, true
		}
		tb := tt.table(x)
		return tb, 0, tb != nil
	}
	var ok bool
	if ca, ka, ok = get(t.a); !ok {
		return nil
	}
	if cb, kb, ok = get(t.b); !ok {
		return nil
	}
	if cc, kc, ok = get(t.c); !ok {
		return nil
	}
	tab := new([256]uint64)
	var aw, bw uint8
	if t.a != nil {
		aw = t.a.w
	}
	if t.b != nil {
		bw = t.b.w
	}
	for i := range tab {
		if ca != nil {
			ka = ca[i]
		}
		if cb != nil {
			kb = cb[i]
		}
		if cc != nil {
			kc = cc[i]
		}
		tab[i] = evalOp(t.op, t.w, t.val, aw, ka, kb, kc, bw)
	}
	t.tab = tab
	return tab
}

// ub is a cheap unsigned upper bound.
func (tt *TermTable) ub(t *Term) uint64 { return tt.ubd(t, 6) }

func (tt *TermTable) ubd(t *Term, d int) uint64 {
	m := mask(t.w)
	if d == 0 {
		return m
	}
	switch t.op {
	case OConst:
		return t.val
	case OVar:
		if t.rng {
			return t.hi
		}
	case OZext:
		return tt.ubd(t.a, d-1)
	case OAnd:
		x, y := tt.ubd(t.a, d-1), tt.ubd(t.b, d-1)
		if x < y {
			return x
		}
		return y
	case OUrem:
		if t.b.op == OConst && t.b.val != 0 {
			x := tt.ubd(t.a, d-1)
			if x < t.b.val-1 {
				return x
			}
			return t.b.val - 1
		}
	case OUdiv:
		if t.b.op == OConst && t.b.val != 0 {
			return tt.ubd(t.a, d-1) / t.b.val
		}
	case OLshr:
		if t.b.op == OConst && t.b.val < 64 {
			return tt.ubd(t.a, d-1) >> t.b.val
		}
	case OShl:
		if t.b.op == OConst && t.b.val < 64 {
			x := tt.ubd(t.a, d-1)
			if bits.Len64(x)+int(t.b.val) <= int(t.w) {
				return x << t.b.val
			}
		}
	case OIte:
		x, y := tt.ubd(t.b, d-1), tt.ubd(t.c, d-1)
		if x > y {
			return x
		}
		return y
	case OAdd:
		x, y := tt.ubd(t.a, d-1), tt.ubd(t.b, d-1)
		if s := x + y; s >= x && s <= m {
			return s
		}
	case OMul:
		x, y := tt.ubd(t.a, d-1), tt.ubd(t.b, d-1)
		if hi, lo := bits.Mul64(x, y); hi == 0 && lo <= m {
			return lo
		}
	case OOr, OXor:
		x := tt.ubd(t.a, d-1) | tt.ubd(t.b, d-1)
		n := bits.Len64(x)
		if n >= 64 {
			return m
		}
		return (uint64(1)<<n - 1) & m
	}
	return m
}

func (tt *TermTable) nonNeg(t *Term) bool {
	if t.w == 0 {
		return true
	}
	if tt.ub(t) <= mask(t.w)>>1 {
		return true
	}
	if t.w >= 16 && tt.ranged(t) {
		f := tt.lin(t)
		return f.sgn() && sx(f.start, f.w) >= 0
	}
	return false
}

// ranged tells whether a range variable occurs in t: the others are left to the solver.
func (tt *TermTable) ranged(t *Term) bool { return t.rng }

func (tt *TermTable) Not(a *Term) *Term {
	if a.op == OConst {
		return tt.Bool(a.val == 0)
	}
	if a.op == OBNot {
		return a.a
	}
	return tt.mk(OBNot, 0, 0, a, nil, nil)
}

func (tt *TermTable) And(a, b *Term) *Term { return tt.bin(OBAnd, a, b) }
func (tt *TermTable) Or(a, b *Term) *Term  { return tt.bin(OBOr, a, b) }
func (tt *TermTable) Eq(a, b *Term) *Term  { return tt.bin(OEq, a, b) }

func (tt *TermTable) Ite(c, a, b *Term) *Term {
	if c.op == OConst {
		if c.val != 0 {
			return a
		}
		return b
	}
	if a == b {
		return a
	}
	if c.op == OBNot {
		return tt.Ite(c.a, b, a)
	}
	if a.w != b.w {
		panic("ite width mismatch")
	}
	if a.w == 0 {
		if a.op == OConst {
			if a.val == 1 {
				return tt.Or(c, b)
			}
			return tt.And(tt.Not(c), b)
		}
		if b.op == OConst {
			if b.val == 1 {
				return tt.Or(tt.Not(c), a)
			}
			return tt.And(c, a)
		}
		if a == c {
			return tt.Or(c, b)
		}
		if b == c {
			return tt.And(c, a)
		}
	}
	if a.op == OIte && a.a == c {
		a = a.b
	}
	if b.op == OIte && b.a == c {
		b = b.c
	}
	if a == b {
		return a
	}
	if b.rng && a.w > 0 && c.op == OEq && c.b.op == OConst && tt.linSame(c.a, c.b.val, a, b) {
		return b
	}
	if b.op == OIte && b.b == a {
		return tt.Ite(tt.Or(c, b.a), a, b.c)
	}
	if a.op == OIte && a.c == b {
		return tt.Ite(tt.And(c, a.a), a.b, b)
	}
	return tt.mk(OIte, a.w, 0, c, a, b)
}

// Zext/Sext/Trunc to width w.
func (tt *TermTable) Zext(a *Term, w uint8) *Term {
	if a.w == w {
		return a
	}
	if a.w == 0 {
		return tt.Ite(a, tt.Const(1, w), tt.Const(0, w))
	}
	if a.op == OConst {
		return tt.Const(a.val, w)
	}
	if a.op == OZext {
		return tt.Zext(a.a, w)
	}
	if a.op == OIte && (a.b.op == OConst || a.c.op == OConst) {
		return tt.Ite(a.a, tt.Zext(a.b, w), tt.Zext(a.c, w))
	}
	return tt.mk(OZext, w, 0, a, nil, nil)
}

func (tt *TermTable) Sext(a *Term, w uint8) *Term {
	if a.w == w {
		return a
	}
	if a.op == OConst {
		return tt.Const(uint64(sx(a.val, a.w)), w)
	}
	if tt.nonNeg(a) {
		return tt.Zext(a, w)
	}
	if a.op == OSext {
		return tt.Sext(a.a, w)
	}
	if a.op == OIte && (a.b.op == OConst || a.c.op == OConst) {
		return tt.Ite(a.a, tt.Sext(a.b, w), tt.Sext(a.c, w))
	}
	return tt.mk(OSext, w, 0, a, nil, nil)
}

// Extract takes w bits from bit lo.
func (tt *TermTable) Extract(a *Term, lo, w uint8) *Term {
	if lo == 0 && a.w == w {
		return a
	}
	if a.op == OConst {
		return tt.Const(a.val>>lo, w)
	}
	if a.op == OZext || a.op == OSext {
		if lo == 0 && w <= a.a.w {
			return tt.Extract(a.a, 0, w)
		}
		if lo == 0 && a.op == OZext {
			return tt.Zext(a.a, w)
		}
		if lo == 0 && a.op == OSext {
			return tt.Sext(a.a, w)
		}
		if a.op == OZext && lo >= a.a.w {
			return tt.Const(0, w)
		}
		if lo+w <= a.a.w {
			return tt.Extract(a.a, lo, w)
		}
	}
	if a.op == OExtract {
		return tt.Extract(a.a, lo+uint8(a.val), w)
	}
	if a.op == OIte && (a.b.op == OConst || a.c.op == OConst) {
		return tt.Ite(a.a, tt.Extract(a.b, lo, w), tt.Extract(a.c, lo, w))
	}
	if lo == 0 {
		switch a.op {
		case OAdd, OSub, OMul, OAnd, OOr, OXor:
			return tt.bin(a.op, tt.Extract(a.a, 0, w), tt.Extract(a.b, 0, w))
		}
	}
	if a.op == OOr || a.op == OAnd || a.op == OXor {
		return tt.bin(a.op, tt.Extract(a.a, lo, w), tt.Extract(a.b, lo, w))
	}
	if a.op == OShl && a.b.op == OConst && a.b.val < uint64(a.w) {
		s := uint8(a.b.val)
		if lo >= s {
			return tt.Extract(a.a, lo-s, w)
		}
		if lo+w <= s {
			return tt.Const(0, w)
		}
	}
	if a.op == OLshr && a.b.op == OConst && a.b.val < uint64(a.w) {
		s := uint8(a.b.val)
		if lo+s+w <= a.w {
			return tt.Extract(a.a, lo+s, w)
		}
	}
	return tt.mk(OExtract, w, uint64(lo), a, nil, nil)
}

// Model assigns values to variables.
type Model map[*Term]uint64

// Eval evaluates t under m (absent variables are 0).
func (tt *TermTable) Eval(t *Term, m Model) uint64 {
	tt.gen++
	return tt.eval(t, m, tt.gen)
}

func (tt *TermTable) eval(t *Term, m Model, g int64) uint64 {
	switch t.op {
	case OConst:
		return t.val
	case OVar:
		return m[t]
	}
	if t.evGen == g {
		return t.evVal
	}
	var r uint64
	if t.op == OIte {
		if tt.eval(t.a, m, g) != 0 {
			r = tt.eval(t.b, m, g)
		} else {
			r = tt.eval(t.c, m, g)
		}
	} else {
		a := tt.eval(t.a, m, g)
		var b uint64
		var bw uint8
		if t.b != nil {
			b = tt.eval(t.b, m, g)
			bw = t.b.w
		}
		r = evalOp(t.op, t.w, t.val, t.a.w, a, b, 0, bw)
	}
	t.evGen = g
	t.evVal = r
	return r
}

// collectVars returns the variables in t.
func collectVars(t *Term, seen map[*Term]bool, out *[]*Term) {
	if t == nil || t.op == OConst || seen[t] {
		return
	}
	seen[t] = true
	if t.op == OVar {
		*out = append(*out, t)
		return
	}
	collectVars(t.a, seen, out)
	collectVars(t.b, seen, out)
	collectVars(t.c, seen, out)
}

func termVars(t *Term) []*Term {
	if t.vars == nil {
		var out []*Term
		collectVars(t, map[*Term]bool{}, &out)
		if out == nil {
			out = []*Term{}
		}
		t.vars = out
	}
	return t.vars
}

func sortName(w uint8) string {
	if w == 0 {
		return "Bool"
	}
	return fmt.Sprintf("(_ BitVec %d)", w)
}

func constSMT(v uint64, w uint8) string {
	if w == 0 {
		if v != 0 {
			return "true"
		}
		return "false"
	}
	return fmt.Sprintf("(_ bv%d %d)", v, w)
}

// smtBody renders the operator of t applied to references of its children.
func smtBody(t *Term, ref func(*Term) string) string {
	switch t.op {
	case OConst:
		return constSMT(t.val, t.w)
	case OZext:
		return fmt.Sprintf("((_ zero_extend %d) %s)", t.w-t.a.w, ref(t.a))
	case OSext:
		return fmt.Sprintf("((_ sign_extend %d) %s)", t.w-t.a.w, ref(t.a))
	case OExtract:
		return fmt.Sprintf("((_ extract %d %d) %s)", uint64(t.w)+t.val-1, t.val, ref(t.a))
	case OMulHi:
		return fmt.Sprintf("((_ extract 127 64) (bvmul ((_ zero_extend 64) %s) ((_ zero_extend 64) %s)))", ref(t.a), ref(t.b))
	case OBNot:
		return "(not " + ref(t.a) + ")"
	}
	var sb strings.Builder
	sb.WriteString("(")
	sb.WriteString(opName[t.op])
	for _, x := range [3]*Term{t.a, t.b, t.c} {
		if x != nil {
			sb.WriteString(" ")
			sb.WriteString(ref(x))
		}
	}
	sb.WriteString(")")
	return sb.String()
}
