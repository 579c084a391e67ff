package main

import (
	"fmt"
	"go/token"
	"go/types"
	"math"
	"unicode/utf8"
)

func (e *Engine) eval(f *frame, ci *cinstr) Value {
	switch ci.op {
	case cAlloc:
		o := e.newObj(ci.x, "")
		if v, ok := ci.in.(interface{ Name() string }); ok {
			o.name = f.fn.name + "." + v.Name()
		}
		return Value{P: o}
	case cBinOp:
		return e.binop(ci.tok, e.val(f, &ci.a), e.val(f, &ci.b), ci)
	case cLoad:
		return e.load(e.val(f, &ci.a), ci.x, ci.agg)
	case cStore:
		e.store(e.val(f, &ci.a), e.val(f, &ci.b), ci.x, ci.agg)
		return Value{}
	case cNeg:
		v := e.val(f, &ci.a)
		switch ci.bi.kind {
		case 'i':
			if t := symOf(v); t != nil {
				return fromTerm(e.tt.bin(OSub, e.tt.Const(0, ci.bi.w), t), ci.bi)
			}
			return Value{N: norm(-v.N, ci.bi)}
		case 'f':
			if v.P != nil {
				return e.floatNeg(v)
			}
			return Value{N: math.Float64bits(-math.Float64frombits(v.N))}
		}
		panic(abort{"unsupported", "neg"})
	case cNot:
		v := e.val(f, &ci.a)
		if t := symOf(v); t != nil {
			return boolVal(e.tt.Not(t))
		}
		return Value{N: v.N ^ 1}
	case cCompl:
		v := e.val(f, &ci.a)
		if t := symOf(v); t != nil {
			return fromTerm(e.tt.bin(OXor, t, e.tt.Const(mask(ci.bi.w), ci.bi.w)), ci.bi)
		}
		return Value{N: norm(^v.N, ci.bi)}
	case cCopy:
		return e.val(f, &ci.a)
	case cConvert:
		return e.convert(e.val(f, &ci.a), ci)
	case cMakeInterface:
		return Value{P: &Iface{t: ci.t, v: e.val(f, &ci.a)}}
	case cMakeClosure:
		free := make([]Value, len(ci.args))
		for i := range ci.args {
			free[i] = e.val(f, &ci.args[i])
		}
		return Value{P: &Closure{fn: ci.callee, free: free}}
	case cMakeMap:
		return Value{P: e.newMap()}
	case cMakeSlice:
		ln := e.val(f, &ci.a)
		cp := e.val(f, &ci.b)
		if e.allocMax > 0 {
			if t := symOf(cp); t != nil {
				tt := e.widen(t, ci.bi2)
				e.checkAlloc(tt, ci.x)
			}
		}
		l := e.concInt(ln, ci.bi)
		c := e.concInt(cp, ci.bi2)
		if l < 0 || l > 1<<40 {
			e.rtPanic("makeslice: len out of range")
		}
		if c < l || c > 1<<40 {
			e.rtPanic("makeslice: cap out of range")
		}
		if e.allocMax > 0 && c*int64(ci.x) > e.allocMax {
			e.violation("alloc", fmt.Sprintf("allocation of %d elements", c), nil)
			panic(abort{"violation", "alloc"})
		}
		if c*int64(ci.x) > 1<<28 {
			panic(abort{"unsupported", "huge allocation"})
		}
		o := e.newObj(int(c)*ci.x, f.fn.name+".make")
		return Value{P: &Slice{obj: o, len: int(l), cap: int(c)}}
	case cSlice:
		return e.slice(f, ci)
	case cSliceToArr:
		v := e.val(f, &ci.a)
		s, _ := v.P.(*Slice)
		if s == nil {
			if ci.y > 0 {
				e.rtPanic("cannot convert slice to array pointer")
			}
			return Value{}
		}
		if s.len < ci.y {
			e.rtPanic("cannot convert slice to array pointer")
		}
		return Value{P: s.obj, N: uint64(s.off)}
	case cFieldAddr:
		v := e.val(f, &ci.a)
		switch p := v.P.(type) {
		case *Obj:
			return Value{P: p, N: v.N + uint64(ci.x)}
		case *SymPtr:
			q := *p
			q.base += ci.x
			return Value{P: &q}
		case nil:
			e.nilDeref()
		}
		panic(abort{"unsupported", fmt.Sprintf("fieldaddr of %T", v.P)})
	case cField:
		v := e.val(f, &ci.a)
		return field(v, ci.x, ci.y, ci.agg)
	case cIndexAddr:
		return e.indexAddr(f, ci)
	case cIndex:
		return e.index(f, ci)
	case cLookup:
		return e.lookup(f, ci)
	case cMapUpdate:
		m, ok := e.val(f, &ci.a).P.(*MapObj)
		if !ok {
			e.rtPanic("assignment to entry in nil map")
		}
		e.mapSet(m, e.val(f, &ci.b), e.val(f, &ci.c), ci.typ)
		return Value{}
	case cRange:
		return e.rangeStart(e.val(f, &ci.a), ci.typ)
	case cNext:
		return e.rangeNext(e.val(f, &ci.a), ci)
	case cTypeAssert:
		return e.typeAssert(e.val(f, &ci.a), ci)
	case cExtract:
		v := e.val(f, &ci.a)
		if v.P == nil {
			return Value{}
		}
		return v.P.([]Value)[ci.x]
	}
	panic(abort{"unsupported", fmt.Sprintf("op %d", ci.op)})
}

func field(v Value, off, n int, agg bool) Value {
	if v.P == nil {
		return Value{}
	}
	s := v.P.([]Value)
	if agg {
		return Value{P: s[off : off+n : off+n]}
	}
	return s[off]
}

func (e *Engine) widen(t *Term, bi basicInfo) *Term {
	if t.w == 64 {
		return t
	}
	if bi.signed {
		return e.tt.Sext(t, 64)
	}
	return e.tt.Zext(t, 64)
}

func (e *Engine) checkAlloc(n *Term, stride int) {
	lim := e.tt.Const(uint64(e.allocMax/int64(max(stride, 1))), 64)
	over := e.tt.And(e.tt.bin(OSlt, lim, n), e.tt.bin(OSlt, n, e.tt.Const(1<<40, 64)))
	e.sol.Stats.AssertQueries++
	r, m := e.feasible(over)
	if r == Sat {
		e.violation("alloc", "allocation not bounded by the input", m)
		panic(abort{"violation", "alloc"})
	}
	if r == Unsat {
		e.sol.Stats.AssertUnsat++
	}
}

// inBounds checks 0 <= idx < n, panicking on the side where it fails.
func (e *Engine) inBounds(v Value, bi basicInfo, n int) (int, *Term) {
	if t := symOf(v); t != nil {
		w := e.widen(t, bi)
		if e.tt.ub(w) < uint64(n) {
			return 0, w
		}
		c := e.tt.bin(OUlt, w, e.tt.Const(uint64(n), 64))
		if !e.forkCheck(c) {
			e.rtPanic("index out of range")
		}
		return 0, w
	}
	i := int64(v.N)
	if i < 0 || i >= int64(n) {
		e.rtPanic("index out of range")
	}
	return int(i), nil
}

// forkCheck is fork for implicit run-time checks.
func (e *Engine) forkCheck(c *Term) bool {
	if e.merging > 0 && c.op != OConst {
		if e.mergeImplied(c) {
			return true
		}
		panic(mergeAbort{"run-time check"})
	}
	e.inCheck = true
	r := e.fork(c)
	e.inCheck = false
	return r
}

func (e *Engine) indexAddr(f *frame, ci *cinstr) Value {
	base := e.val(f, &ci.a)
	idx := e.val(f, &ci.b)
	if ci.commaOk { // pointer to array
		switch p := base.P.(type) {
		case nil:
			e.nilDeref()
		case *Obj:
			i, t := e.inBounds(idx, ci.bi, ci.y)
			if t != nil {
				return e.symPtr(p, int(base.N), ci.x, ci.y, t)
			}
			return Value{P: p, N: base.N + uint64(i*ci.x)}
		case *SymPtr:
			b := e.concPtr(p)
			i, t := e.inBounds(idx, ci.bi, ci.y)
			if t != nil {
				return e.symPtr(b.P.(*Obj), int(b.N), ci.x, ci.y, t)
			}
			return Value{P: b.P, N: b.N + uint64(i*ci.x)}
		}
	}
	s, _ := base.P.(*Slice)
	n := 0
	if s != nil {
		n = s.len
	}
	i, t := e.inBounds(idx, ci.bi, n)
	if t != nil {
		return e.symPtr(s.obj, s.off, ci.x, n, t)
	}
	return Value{P: s.obj, N: uint64(s.off + i*ci.x)}
}

func (e *Engine) symPtr(o *Obj, base, stride, n int, t *Term) Value {
	return Value{P: &SymPtr{obj: o, base: base, stride: stride, n: n, idx: t}}
}

func (e *Engine) index(f *frame, ci *cinstr) Value {
	base := e.val(f, &ci.a)
	idx := e.val(f, &ci.b)
	if ci.x < 0 { // string
		n := strLen(base)
		i, t := e.inBounds(idx, ci.bi, n)
		if t == nil {
			if s, ok := base.P.(string); ok {
				return Value{N: uint64(s[i])}
			}
			return fromTerm(e.strByte(base, i), ci.bi2)
		}
		o := e.newObj(n, "strindex")
		o.cells = make([]Value, n)
		for k := 0; k < n; k++ {
			o.cells[k] = fromTerm(e.strByte(base, k), ci.bi2)
		}
		sv := *ci
		sv.bi = ci.bi2
		old := e.curIn
		e.curIn = &sv
		v := e.symLoad(&SymPtr{obj: o, stride: 1, n: n, idx: t})
		e.curIn = old
		return v
	}
	i, t := e.inBounds(idx, ci.bi, ci.y)
	if t == nil {
		return field(base, i*ci.x, ci.x, ci.agg)
	}
	if ci.agg || base.P == nil {
		i = int(e.concretize(t))
		return field(base, i*ci.x, ci.x, ci.agg)
	}
	o := e.newObj(len(base.P.([]Value)), "arrindex")
	o.cells = base.P.([]Value)
	sv := *ci
	sv.bi = ci.bi2
	old := e.curIn
	e.curIn = &sv
	v := e.symLoad(&SymPtr{obj: o, stride: ci.x, n: ci.y, idx: t})
	e.curIn = old
	return v
}

func (e *Engine) slice(f *frame, ci *cinstr) Value {
	base := e.val(f, &ci.a)
	lo, hi, mx := 0, -1, -1
	geti := func(o *opnd) int {
		v := e.val(f, o)
		var bi basicInfo = basicInfo{64, true, 'i'}
		if t := symOf(v); t != nil {
			bi.w = t.w
			// the operand's own type decides the extension; concretise handles 64-bit
			if t.w != 64 {
				bi.signed = false
			}
		}
		return int(e.concInt(v, bi))
	}
	if ci.b.kind != kNone {
		lo = geti(&ci.b)
	}
	if ci.c.kind != kNone {
		hi = geti(&ci.c)
	}
	if ci.args[0].kind != kNone {
		mx = geti(&ci.args[0])
	}
	switch ci.typ.Underlying().(type) {
	case *types.Basic: // string
		n := strLen(base)
		if ci.c.kind == kNone {
			hi = n
		}
		if hi < 0 || hi > n || lo < 0 || lo > hi {
			e.rtPanic("slice bounds out of range")
		}
		return subStr(base, lo, hi)
	case *types.Slice:
		s, _ := base.P.(*Slice)
		l, c := 0, 0
		if s != nil {
			l, c = s.len, s.cap
		}
		if ci.c.kind == kNone {
			hi = l
		}
		if ci.args[0].kind == kNone {
			mx = c
		}
		if mx < 0 || mx > c || hi < 0 || hi > mx || lo < 0 || lo > hi {
			e.rtPanic("slice bounds out of range")
		}
		if s == nil {
			return Value{}
		}
		return Value{P: &Slice{obj: s.obj, off: s.off + lo*ci.x, len: hi - lo, cap: mx - lo}}
	case *types.Pointer:
		if base.P == nil {
			e.nilDeref()
		}
		if sp, ok := base.P.(*SymPtr); ok {
			base = e.concPtr(sp)
		}
		n := ci.y
		if ci.c.kind == kNone {
			hi = n
		}
		if ci.args[0].kind == kNone {
			mx = n
		}
		if mx < 0 || mx > n || hi < 0 || hi > mx || lo < 0 || lo > hi {
			e.rtPanic("slice bounds out of range")
		}
		return Value{P: &Slice{obj: base.P.(*Obj), off: int(base.N) + lo*ci.x, len: hi - lo, cap: mx - lo}}
	}
	panic(abort{"unsupported", "slice of " + ci.typ.String()})
}

var tokOp = map[token.Token]Op{token.ADD: OAdd, token.SUB: OSub, token.MUL: OMul, token.AND: OAnd, token.OR: OOr, token.XOR: OXor}

func (e *Engine) binop(tok token.Token, a, b Value, ci *cinstr) Value {
	bi := ci.bi
	switch bi.kind {
	case 'i':
		if a.P == nil && b.P == nil {
			return e.intBinop(tok, a.N, b.N, bi, ci)
		}
		if symOf(a) == nil && a.P != nil || symOf(b) == nil && b.P != nil {
			panic(abort{"unsupported", "integer op on pointer bits"})
		}
		return e.symBinop(tok, a, b, bi, ci)
	case 'b':
		if a.P == nil && b.P == nil {
			switch tok {
			case token.EQL:
				return mkBool(a.N == b.N)
			case token.NEQ:
				return mkBool(a.N != b.N)
			case token.AND:
				return Value{N: a.N & b.N}
			case token.OR:
				return Value{N: a.N | b.N}
			}
		}
		x, y := e.term(a, bi), e.term(b, bi)
		switch tok {
		case token.EQL:
			return boolVal(e.tt.Eq(x, y))
		case token.NEQ:
			return boolVal(e.tt.Not(e.tt.Eq(x, y)))
		case token.AND:
			return boolVal(e.tt.And(x, y))
		case token.OR:
			return boolVal(e.tt.Or(x, y))
		}
	case 'f':
		if a.P == nil && b.P == nil {
			x, y := math.Float64frombits(a.N), math.Float64frombits(b.N)
			switch tok {
			case token.EQL:
				return mkBool(x == y)
			case token.NEQ:
				return mkBool(x != y)
			case token.LSS:
				return mkBool(x < y)
			case token.LEQ:
				return mkBool(x <= y)
			case token.GTR:
				return mkBool(x > y)
			case token.GEQ:
				return mkBool(x >= y)
			}
			var r float64
			switch tok {
			case token.ADD:
				r = x + y
			case token.SUB:
				r = x - y
			case token.MUL:
				r = x * y
			case token.QUO:
				r = x / y
			}
			if bi.w == 32 {
				r = float64(float32(r))
			}
			return Value{N: math.Float64bits(r)}
		}
		return e.floatBinop(tok, a, b, bi)
	case 's':
		switch tok {
		case token.ADD:
			return e.concat(a, b)
		case token.EQL:
			return boolVal(e.strEq(a, b))
		case token.NEQ:
			return boolVal(e.tt.Not(e.strEq(a, b)))
		case token.LSS:
			return boolVal(e.strLess(a, b, false))
		case token.GTR:
			return boolVal(e.strLess(b, a, false))
		case token.LEQ:
			return boolVal(e.strLess(a, b, true))
		case token.GEQ:
			return boolVal(e.strLess(b, a, true))
		}
	case 'c':
		panic(abort{"unsupported", "complex arithmetic"})
	}
	switch tok {
	case token.EQL, token.NEQ:
		t := e.eqMixed(ci.typ, ci.typ2, a, b)
		if tok == token.NEQ {
			t = e.tt.Not(t)
		}
		return boolVal(t)
	}
	panic(abort{"unsupported", fmt.Sprintf("binop %s on %s", tok, ci.typ)})
}

func (e *Engine) concat(a, b Value) Value {
	if x, ok := strConc(a); ok {
		if y, ok := strConc(b); ok {
			if len(x)+len(y) > 1<<24 {
				panic(abort{"unsupported", "huge string"})
			}
			return mkStr(x + y)
		}
	}
	x, y := e.strTerms(a), e.strTerms(b)
	if len(x) == 0 {
		return b
	}
	if len(y) == 0 {
		return a
	}
	r := make([]*Term, 0, len(x)+len(y))
	r = append(append(r, x...), y...)
	return mkSymStr(r)
}

func (e *Engine) strEq(a, b Value) *Term {
	x, ok1 := strConc(a)
	y, ok2 := strConc(b)
	if ok1 && ok2 {
		return e.tt.Bool(x == y)
	}
	if strLen(a) != strLen(b) {
		return e.tt.fls
	}
	p, q := e.strTerms(a), e.strTerms(b)
	r := e.tt.tru
	for i := range p {
		r = e.tt.And(r, e.tt.Eq(p[i], q[i]))
		if r == e.tt.fls {
			return r
		}
	}
	return r
}

// strLess is lexicographic a < b (or a <= b).
func (e *Engine) strLess(a, b Value, orEq bool) *Term {
	x, ok1 := strConc(a)
	y, ok2 := strConc(b)
	if ok1 && ok2 {
		if orEq {
			return e.tt.Bool(x <= y)
		}
		return e.tt.Bool(x < y)
	}
	p, q := e.strTerms(a), e.strTerms(b)
	n := min(len(p), len(q))
	var r *Term
	if orEq {
		r = e.tt.Bool(len(p) <= len(q))
	} else {
		r = e.tt.Bool(len(p) < len(q))
	}
	for i := n - 1; i >= 0; i-- {
		r = e.tt.Or(e.tt.bin(OUlt, p[i], q[i]), e.tt.And(e.tt.Eq(p[i], q[i]), r))
	}
	return r
}

func (e *Engine) intBinop(tok token.Token, x, y uint64, bi basicInfo, ci *cinstr) Value {
	switch tok {
	case token.ADD:
		return Value{N: norm(x+y, bi)}
	case token.SUB:
		return Value{N: norm(x-y, bi)}
	case token.MUL:
		return Value{N: norm(x*y, bi)}
	case token.QUO, token.REM:
		if y == 0 {
			e.rtPanic("integer divide by zero")
		}
		if bi.signed {
			a, b := int64(x), int64(y)
			if b == -1 {
				if tok == token.QUO {
					return Value{N: norm(uint64(-a), bi)}
				}
				return Value{}
			}
			if tok == token.QUO {
				return Value{N: norm(uint64(a/b), bi)}
			}
			return Value{N: norm(uint64(a%b), bi)}
		}
		if tok == token.QUO {
			return Value{N: x / y}
		}
		return Value{N: x % y}
	case token.AND:
		return Value{N: x & y}
	case token.OR:
		return Value{N: x | y}
	case token.XOR:
		return Value{N: norm(x^y, bi)}
	case token.AND_NOT:
		return Value{N: norm(x&^y, bi)}
	case token.SHL, token.SHR:
		if ci.bi2.signed && int64(y) < 0 {
			e.rtPanic("negative shift amount")
		}
		if tok == token.SHL {
			if y >= 64 {
				return Value{}
			}
			return Value{N: norm(x<<y, bi)}
		}
		if bi.signed {
			if y >= 64 {
				y = 63
			}
			return Value{N: uint64(int64(x) >> y)}
		}
		if y >= 64 {
			return Value{}
		}
		return Value{N: x >> y}
	case token.EQL:
		return mkBool(x == y)
	case token.NEQ:
		return mkBool(x != y)
	case token.LSS:
		if bi.signed {
			return mkBool(int64(x) < int64(y))
		}
		return mkBool(x < y)
	case token.LEQ:
		if bi.signed {
			return mkBool(int64(x) <= int64(y))
		}
		return mkBool(x <= y)
	case token.GTR:
		if bi.signed {
			return mkBool(int64(x) > int64(y))
		}
		return mkBool(x > y)
	case token.GEQ:
		if bi.signed {
			return mkBool(int64(x) >= int64(y))
		}
		return mkBool(x >= y)
	}
	panic(abort{"unsupported", "int op " + tok.String()})
}

func (e *Engine) symBinop(tok token.Token, a, b Value, bi basicInfo, ci *cinstr) Value {
	tt := e.tt
	x := e.term(a, bi)
	if tok == token.SHL || tok == token.SHR {
		var y *Term
		if t := symOf(b); t != nil {
			if ci.bi2.signed && !tt.nonNeg(t) {
				if e.forkCheck(tt.bin(OSlt, t, tt.Const(0, t.w))) {
					e.rtPanic("negative shift amount")
				}
			}
			// bring the amount to the width of x, saturating
			if t.w > bi.w {
				big := tt.Not(tt.bin(OUlt, t, tt.Const(uint64(bi.w), t.w)))
				y = tt.Ite(big, tt.Const(uint64(bi.w), bi.w), tt.Extract(t, 0, bi.w))
			} else {
				y = tt.Zext(t, bi.w)
			}
		} else {
			if ci.bi2.signed && int64(b.N) < 0 {
				e.rtPanic("negative shift amount")
			}
			n := b.N
			if n > uint64(bi.w) {
				n = uint64(bi.w)
			}
			y = tt.Const(n, bi.w)
		}
		switch {
		case tok == token.SHL:
			return fromTerm(tt.bin(OShl, x, y), bi)
		case bi.signed:
			return fromTerm(tt.bin(OAshr, x, y), bi)
		default:
			return fromTerm(tt.bin(OLshr, x, y), bi)
		}
	}
	y := e.term(b, bi)
	if op, ok := tokOp[tok]; ok {
		return fromTerm(tt.bin(op, x, y), bi)
	}
	switch tok {
	case token.AND_NOT:
		return fromTerm(tt.bin(OAnd, x, tt.bin(OXor, y, tt.Const(mask(bi.w), bi.w))), bi)
	case token.QUO, token.REM:
		x = e.underPath(x)
		if y.op != OConst && y.sup > 0 && x.sup != y.sup && bi.w >= 32 && tt.table(y) != nil {
			if c := e.onlyValue(y); c != nil {
				y = c
			} else if e.merging > 0 {
				panic(mergeAbort{"divisor"})
			} else {
				// a divisor of few values: take them one by one
				y = tt.Const(e.concretize(y), bi.w)
			}
		}
		if y.op != OConst {
			if !e.forkCheck(tt.Not(tt.Eq(y, tt.Const(0, bi.w)))) {
				e.rtPanic("integer divide by zero")
			}
		} else if y.val == 0 {
			e.rtPanic("integer divide by zero")
		}
		op := OUdiv
		if bi.signed && y.op == OConst && sx(y.val, bi.w) > 1 && bi.w >= 32 && !tt.nonNeg(x) {
			// decide the sign of the dividend where the path does
			isNeg := tt.bin(OSlt, x, tt.Const(0, bi.w))
			if isNeg.op != OConst {
				var neg, known bool
				if e.merging == 0 {
					neg, known = e.fork(isNeg), true
				} else if e.mergeImplied(isNeg) {
					neg, known = true, true
				} else if e.mergeImplied(tt.Not(isNeg)) {
					neg, known = false, true
				}
				if known {
					if e.lia != nil {
						if t := tt.linSigned(x, sx(y.val, bi.w), tok == token.REM, neg); t != nil {
							return fromTerm(t, bi)
						}
					}
					u, zero := OUdiv, tt.Const(0, bi.w)
					if tok == token.REM {
						u = OUrem
					}
					if neg {
						return fromTerm(tt.bin(OSub, zero, tt.bin(u, tt.bin(OSub, zero, x), y)), bi)
					}
					return fromTerm(tt.bin(u, x, y), bi)
				}
			}
		}
		switch {
		case bi.signed && tok == token.QUO:
			op = OSdiv
		case bi.signed:
			op = OSrem
		case tok == token.REM:
			op = OUrem
		}
		return fromTerm(tt.bin(op, x, y), bi)
	case token.EQL:
		return boolVal(tt.Eq(x, y))
	case token.NEQ:
		return boolVal(tt.Not(tt.Eq(x, y)))
	}
	lt, le := OUlt, OUle
	if bi.signed {
		lt, le = OSlt, OSle
	}
	switch tok {
	case token.LSS:
		return boolVal(tt.bin(lt, x, y))
	case token.LEQ:
		return boolVal(tt.bin(le, x, y))
	case token.GTR:
		return boolVal(tt.bin(lt, y, x))
	case token.GEQ:
		return boolVal(tt.bin(le, y, x))
	}
	panic(abort{"unsupported", "sym int op " + tok.String()})
}

// eqMixed compares values whose static types may be an interface and a concrete type.
func (e *Engine) eqMixed(t1, t2 types.Type, a, b Value) *Term {
	_, i1 := t1.Underlying().(*types.Interface)
	_, i2 := t2.Underlying().(*types.Interface)
	if i1 && !i2 {
		if isUntypedNil(t2) {
			return e.tt.Bool(a.P == nil)
		}
		b = Value{P: &Iface{t: e.w.rtype(t2), v: b}}
		return e.eq(t1, a, b)
	}
	if i2 && !i1 {
		if isUntypedNil(t1) {
			return e.tt.Bool(b.P == nil)
		}
		a = Value{P: &Iface{t: e.w.rtype(t1), v: a}}
		return e.eq(t2, a, b)
	}
	return e.eq(t1, a, b)
}

func isUntypedNil(t types.Type) bool {
	b, ok := t.(*types.Basic)
	return ok && b.Kind() == types.UntypedNil
}

// eq is Go's == on values of type t.
func (e *Engine) eq(t types.Type, a, b Value) *Term {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		bi := basicOf(t)
		switch bi.kind {
		case 'i', 'b':
			if a.P == nil && b.P == nil {
				return e.tt.Bool(a.N == b.N)
			}
			return e.tt.Eq(e.term(a, bi), e.term(b, bi))
		case 's':
			return e.strEq(a, b)
		case 'f':
			if a.P == nil && b.P == nil {
				return e.tt.Bool(math.Float64frombits(a.N) == math.Float64frombits(b.N))
			}
			v := e.floatBinop(token.EQL, a, b, bi)
			return e.term(v, basicInfo{0, false, 'b'})
		case 'p':
			return e.tt.Bool(a.P == b.P && a.N == b.N)
		case 'c':
			ca, _ := a.P.(complex128)
			cb, _ := b.P.(complex128)
			return e.tt.Bool(ca == cb)
		}
	case *types.Pointer:
		sa, ok1 := a.P.(*SymPtr)
		sb, ok2 := b.P.(*SymPtr)
		if ok1 {
			a = e.concPtr(sa)
		}
		if ok2 {
			b = e.concPtr(sb)
		}
		return e.tt.Bool(a.P == b.P && a.N == b.N)
	case *types.Interface:
		x, _ := a.P.(*Iface)
		y, _ := b.P.(*Iface)
		if x == nil || y == nil {
			return e.tt.Bool(x == y)
		}
		if x.t != y.t {
			return e.tt.fls
		}
		if !types.Comparable(x.t.typ) {
			e.rtPanic("comparing uncomparable type " + x.t.typ.String())
		}
		return e.eq(x.t.typ, x.v, y.v)
	case *types.Struct:
		if a.P == nil && b.P == nil {
			return e.tt.tru
		}
		r := e.tt.tru
		off := 0
		for i := 0; i < u.NumFields(); i++ {
			ft := u.Field(i).Type()
			n := e.w.slots(ft)
			if u.Field(i).Name() != "_" {
				r = e.tt.And(r, e.eq(ft, field(a, off, n, isAgg(ft)), field(b, off, n, isAgg(ft))))
				if r == e.tt.fls {
					return r
				}
			}
			off += n
		}
		return r
	case *types.Array:
		if a.P == nil && b.P == nil {
			return e.tt.tru
		}
		r := e.tt.tru
		n := e.w.slots(u.Elem())
		for i := 0; i < int(u.Len()); i++ {
			r = e.tt.And(r, e.eq(u.Elem(), field(a, i*n, n, isAgg(u.Elem())), field(b, i*n, n, isAgg(u.Elem()))))
			if r == e.tt.fls {
				return r
			}
		}
		return r
	case *types.Slice, *types.Map, *types.Signature:
		// only against nil
		return e.tt.Bool(a.P == nil && b.P == nil)
	case *types.Chan:
		return e.tt.Bool(a.P == b.P)
	}
	panic(abort{"unsupported", "== on " + t.String()})
}

func (e *Engine) typeAssert(v Value, ci *cinstr) Value {
	i, _ := v.P.(*Iface)
	ok := false
	var res Value
	if i != nil {
		if ci.agg {
			ok = e.w.implements(i.t, ci.typ.Underlying().(*types.Interface), ci.typ)
			res = v
		} else {
			ok = i.t == ci.t
			res = i.v
		}
	}
	if ci.commaOk {
		if !ok {
			return Value{P: []Value{{}, {}}}
		}
		return Value{P: []Value{res, mkBool(true)}}
	}
	if !ok {
		e.rtPanic("interface conversion: " + ci.typ.String())
	}
	return res
}

func (e *Engine) convert(v Value, ci *cinstr) Value {
	f, t := ci.bi, ci.bi2
	switch {
	case f.kind == 'i' && t.kind == 'i':
		return e.convInt(v, f, t)
	case f.kind == 'i' && t.kind == 'f':
		if v.P != nil {
			return e.intToFloat(v, f, t)
		}
		var r float64
		if f.signed {
			r = float64(int64(v.N))
			if t.w == 32 {
				r = float64(float32(int64(v.N)))
			}
		} else {
			r = float64(v.N)
			if t.w == 32 {
				r = float64(float32(v.N))
			}
		}
		return Value{N: math.Float64bits(r)}
	case f.kind == 'f' && t.kind == 'i':
		if v.P != nil {
			return e.floatToInt(v, t)
		}
		x := math.Float64frombits(v.N)
		var r uint64
		if t.signed {
			switch t.w {
			case 64:
				r = uint64(int64(x))
			default:
				r = uint64(int64(x))
			}
		} else {
			r = uint64(x)
		}
		return Value{N: norm(r, t)}
	case f.kind == 'f' && t.kind == 'f':
		if v.P != nil {
			return e.floatConv(v, t)
		}
		if t.w == 32 {
			return Value{N: math.Float64bits(float64(float32(math.Float64frombits(v.N))))}
		}
		return v
	case f.kind == 's' && t.kind == 's':
		return v
	case f.kind == 'i' && t.kind == 's':
		return e.runeToStr(e.convInt(v, f, basicInfo{32, true, 'i'}), v, f)
	case f.kind == 's':
		if s, ok := ci.typ2.Underlying().(*types.Slice); ok {
			if basicOf(s.Elem()).w == 8 {
				return e.strToBytes(v)
			}
			return e.strToRunes(v)
		}
	case t.kind == 's':
		if s, ok := ci.typ.Underlying().(*types.Slice); ok {
			if basicOf(s.Elem()).w == 8 {
				return e.bytesToStr(v)
			}
			return e.runesToStr(v)
		}
	case t.kind == 'p' || f.kind == 'p':
		if t.kind == 'i' || f.kind == 'i' {
			panic(abort{"unsupported", "pointer/integer conversion"})
		}
		return v
	}
	return v
}

func (e *Engine) convInt(v Value, f, t basicInfo) Value {
	if s := symOf(v); s != nil {
		if t.w == f.w {
			return v
		}
		if t.w < f.w {
			return fromTerm(e.tt.Extract(s, 0, t.w), t)
		}
		if f.signed {
			return fromTerm(e.tt.Sext(s, t.w), t)
		}
		return fromTerm(e.tt.Zext(s, t.w), t)
	}
	if v.P != nil {
		panic(abort{"unsupported", "integer conversion of pointer"})
	}
	return Value{N: norm(v.N, t)}
}

func (e *Engine) strToBytes(v Value) Value {
	n := strLen(v)
	o := e.newObj(n, "bytes")
	o.cells = make([]Value, n)
	if s, ok := strConc(v); ok {
		for i := 0; i < n; i++ {
			o.cells[i] = Value{N: uint64(s[i])}
		}
	} else {
		for i, t := range v.P.(SymStr) {
			o.cells[i] = fromTerm(t, basicInfo{8, false, 'i'})
		}
	}
	return Value{P: &Slice{obj: o, len: n, cap: n}}
}

func (e *Engine) sliceTerms(v Value) []*Term {
	s, _ := v.P.(*Slice)
	if s == nil {
		return nil
	}
	r := make([]*Term, s.len)
	for i := range r {
		r[i] = e.byteTerm(s.obj.get(s.off + i))
	}
	return r
}

func (e *Engine) bytesToStr(v Value) Value {
	s, _ := v.P.(*Slice)
	if s == nil || s.len == 0 {
		return Value{}
	}
	return e.cellsToStr(s.obj, s.off, s.len)
}

func (e *Engine) cellsToStr(o *Obj, off, n int) Value {
	b := make([]byte, n)
	for i := 0; i < n; i++ {
		c := o.get(off + i)
		if c.P != nil {
			ts := make([]*Term, n)
			for k := range ts {
				ts[k] = e.byteTerm(o.get(off + k))
			}
			return mkSymStr(ts)
		}
		b[i] = byte(c.N)
	}
	return mkStr(string(b))
}

var i32 = basicInfo{32, true, 'i'}
var u8 = basicInfo{8, false, 'i'}
var i64 = basicInfo{64, true, 'i'}
var bbool = basicInfo{0, false, 'b'}

// decodeRune decodes one rune at s[i:], forking on the classes of symbolic bytes.
func (e *Engine) decodeRune(s []*Term) (*Term, int) {
	r, n := e.decodeRune1(s)
	if n > 1 && r.op != OConst {
		// on this path encoding r gives exactly these bytes
		if _, ok := e.runeSrc[r]; !ok {
			e.runeSrc[r] = s[:n:n]
			e.onUndo(func() { delete(e.runeSrc, r) })
		}
	}
	return r, n
}

func (e *Engine) decodeRune1(s []*Term) (*Term, int) {
	tt := e.tt
	bad := tt.Const(uint64(utf8.RuneError), 32)
	c := func(v uint64) *Term { return tt.Const(v, 8) }
	between := func(t *Term, lo, hi uint64) *Term {
		return tt.bin(OUlt, tt.bin(OSub, t, c(lo)), c(hi-lo+1))
	}
	b0 := s[0]
	if e.fork(tt.bin(OUlt, b0, c(0x80))) {
		return tt.Zext(b0, 32), 1
	}
	get := func(i int) *Term {
		if i < len(s) {
			return s[i]
		}
		return nil
	}
	b1, b2, b3 := get(1), get(2), get(3)
	low6 := func(t *Term) *Term { return tt.Zext(tt.bin(OAnd, t, c(0x3f)), 32) }
	sh := func(t *Term, n uint64) *Term { return tt.bin(OShl, t, tt.Const(n, 32)) }
	// two bytes
	if e.fork(between(b0, 0xC2, 0xDF)) {
		if b1 == nil || !e.fork(between(b1, 0x80, 0xBF)) {
			return bad, 1
		}
		hi := tt.Zext(tt.bin(OAnd, b0, c(0x1f)), 32)
		return tt.bin(OOr, sh(hi, 6), low6(b1)), 2
	}
	if e.fork(between(b0, 0xE0, 0xEF)) {
		if b1 == nil {
			return bad, 1
		}
		lo := tt.Ite(tt.Eq(b0, c(0xE0)), c(0xA0), c(0x80))
		hi := tt.Ite(tt.Eq(b0, c(0xED)), c(0x9F), c(0xBF))
		ok := tt.And(tt.bin(OUle, lo, b1), tt.bin(OUle, b1, hi))
		if !e.fork(ok) {
			return bad, 1
		}
		if b2 == nil || !e.fork(between(b2, 0x80, 0xBF)) {
			return bad, 1
		}
		h := tt.Zext(tt.bin(OAnd, b0, c(0x0f)), 32)
		return tt.bin(OOr, tt.bin(OOr, sh(h, 12), sh(low6(b1), 6)), low6(b2)), 3
	}
	if e.fork(between(b0, 0xF0, 0xF4)) {
		if b1 == nil {
			return bad, 1
		}
		lo := tt.Ite(tt.Eq(b0, c(0xF0)), c(0x90), c(0x80))
		hi := tt.Ite(tt.Eq(b0, c(0xF4)), c(0x8F), c(0xBF))
		ok := tt.And(tt.bin(OUle, lo, b1), tt.bin(OUle, b1, hi))
		if !e.fork(ok) {
			return bad, 1
		}
		if b2 == nil || !e.fork(between(b2, 0x80, 0xBF)) {
			return bad, 1
		}
		if b3 == nil || !e.fork(between(b3, 0x80, 0xBF)) {
			return bad, 1
		}
		h := tt.Zext(tt.bin(OAnd, b0, c(0x07)), 32)
		return tt.bin(OOr, tt.bin(OOr, tt.bin(OOr, sh(h, 18), sh(low6(b1), 12)), sh(low6(b2), 6)), low6(b3)), 4
	}
	return bad, 1
}

// encodeRune appends the UTF-8 encoding of a 32-bit rune term.
func (e *Engine) encodeRune(dst []*Term, r *Term) []*Term {
	tt := e.tt
	k := func(v uint64) *Term { return tt.Const(v, 32) }
	if r.op == OConst {
		for _, b := range []byte(string(rune(int32(r.val)))) {
			dst = append(dst, tt.Const(uint64(b), 8))
		}
		return dst
	}
	if src := e.runeSrc[r]; src != nil {
		return append(dst, src...)
	}
	ext := func(t *Term) *Term { return tt.Extract(t, 0, 8) }
	lo6 := func(sh uint64) *Term {
		return ext(tt.bin(OOr, tt.bin(OAnd, tt.bin(OLshr, r, k(sh)), k(0x3f)), k(0x80)))
	}
	if e.fork(tt.bin(OUlt, r, k(0x80))) {
		return append(dst, ext(r))
	}
	if e.fork(tt.bin(OUlt, r, k(0x800))) {
		return append(dst, ext(tt.bin(OOr, tt.bin(OLshr, r, k(6)), k(0xC0))), lo6(0))
	}
	badc := tt.Or(tt.bin(OUlt, k(0x10FFFF), r), tt.bin(OUlt, tt.bin(OSub, r, k(0xD800)), k(0x800)))
	if e.fork(badc) {
		return append(dst, tt.Const(0xEF, 8), tt.Const(0xBF, 8), tt.Const(0xBD, 8))
	}
	if e.fork(tt.bin(OUlt, r, k(0x10000))) {
		return append(dst, ext(tt.bin(OOr, tt.bin(OLshr, r, k(12)), k(0xE0))), lo6(6), lo6(0))
	}
	return append(dst, ext(tt.bin(OOr, tt.bin(OLshr, r, k(18)), k(0xF0))), lo6(12), lo6(6), lo6(0))
}

func (e *Engine) runeToStr(v Value, orig Value, f basicInfo) Value {
	if orig.P == nil {
		if f.signed {
			if n := int64(orig.N); n < 0 || n > 0x10FFFF {
				return mkStr("\uFFFD")
			}
		} else if orig.N > 0x10FFFF {
			return mkStr("\uFFFD")
		}
		return mkStr(string(rune(orig.N)))
	}
	t := symOf(orig)
	if t.w == 64 {
		if !e.fork(e.tt.bin(OUlt, t, e.tt.Const(0x110000, 64))) {
			return mkStr("\uFFFD")
		}
		return mkSymStr(e.encodeRune(nil, e.tt.Extract(t, 0, 32)))
	}
	return mkSymStr(e.encodeRune(nil, e.term(v, i32)))
}

func (e *Engine) strToRunes(v Value) Value {
	var out []Value
	if s, ok := strConc(v); ok {
		for _, r := range s {
			out = append(out, Value{N: uint64(int64(r))})
		}
	} else {
		ts := e.strTerms(v)
		for i := 0; i < len(ts); {
			r, n := e.decodeRune(ts[i:])
			out = append(out, fromTerm(r, i32))
			i += n
		}
	}
	o := e.newObj(len(out), "runes")
	o.cells = out
	return Value{P: &Slice{obj: o, len: len(out), cap: len(out)}}
}

func (e *Engine) runesToStr(v Value) Value {
	s, _ := v.P.(*Slice)
	if s == nil {
		return Value{}
	}
	var ts []*Term
	for i := 0; i < s.len; i++ {
		ts = e.encodeRune(ts, e.term(s.obj.get(s.off+i), i32))
	}
	return mkSymStr(ts)
}

// onlyValue is the value of a function of one byte if the path leaves it only one.
func (e *Engine) onlyValue(t *Term) *Term {
	tab := e.tt.table(t)
	d := e.dom[t.sup]
	if tab == nil || d == nil {
		return nil
	}
	var v uint64
	found := false
	for i := 0; i < 256; i++ {
		if d[i>>6]>>(i&63)&1 == 0 {
			continue
		}
		if found && tab[i] != v {
			return nil
		}
		v, found = tab[i], true
	}
	if !found {
		return nil
	}
	return e.tt.Const(v, t.w)
}

// underPath drops the alternatives of a term that the path excludes.
func (e *Engine) underPath(t *Term) *Term {
	for t.op == OIte {
		known := 0
		not := e.tt.Not(t.a)
		for _, c := range e.pc {
			if c == t.a {
				known = 1
			} else if c == not {
				known = -1
			}
		}
		switch known {
		case 1:
			t = t.b
		case -1:
			t = t.c
		default:
			return t
		}
	}
	return t
}
