package main

import (
	"go/types"
)

const maxMergeFail = 6

// tryMerge executes the code between a symbolic branch and its post-dominator once, under guards.
func (e *Engine) tryMerge(f *frame, ci *cinstr, c *Term) bool {
	r := ci.region
	if r == nil || !r.ok || e.mfail[ci] >= maxMergeFail {
		return false
	}
	toExit := r.exit == len(f.fn.blocks)
	if toExit && (len(f.defers) > 0 || f.recovering) {
		return false
	}
	mark := len(e.trail)
	e.merging = 1
	e.mergeInstr = 0
	e.mergeOwn = nil
	saved := f.blk
	ok := e.guardMerge(func() {
		ret, isRet := e.mergeRegion(f, f.blk, c, r, e.tt.tru)
		e.curIn = ci
		e.merging = 0
		e.resetLog()
		if isRet {
			e.doReturn(ret)
		} else {
			f.pc = 0
		}
	})
	e.merging = 0
	e.mergeG = nil
	if !ok {
		f.blk = saved
		e.curIn = ci
		e.undoTo(mark)
		e.mfail[ci]++
		return false
	}
	e.stats.Merges++
	if e.mfail[ci] > 0 {
		e.mfail[ci]--
	}
	return true
}

func (e *Engine) guardMerge(fn func()) (ok bool) {
	defer func() {
		if r := recover(); r != nil {
			switch x := r.(type) {
			case mergeAbort:
				ok = false
			case abort:
				if e.merging > 0 && x.kind != "deadline" {
					ok = false
					return
				}
				panic(r)
			case goPanic:
				ok = false
				if e.merging == 0 {
					panic(r)
				}
			default:
				panic(r)
			}
		}
	}()
	fn()
	return true
}

// mergeImplied reports whether c holds on every path reaching the current guard.
func (e *Engine) mergeImplied(c *Term) bool {
	if c.op == OConst {
		return c.val != 0
	}
	g := e.tt.Not(c)
	if e.mergeG != nil {
		g = e.tt.And(e.mergeG, g)
	}
	r, _ := e.feasible(g)
	return r == Unsat
}

func (e *Engine) mergeDecide(c *Term) bool {
	if e.mergeImplied(c) {
		return true
	}
	if e.mergeImplied(e.tt.Not(c)) {
		return false
	}
	panic(mergeAbort{"undecided"})
}

type guardedRet struct {
	g *Term
	v Value
}

// mergeRegion runs the region of the branch ending block b of f. base is the guard under which b runs.
func (e *Engine) mergeRegion(f *frame, b int, c *Term, r *region, base *Term) (Value, bool) {
	tt := e.tt
	type edge struct{ from, to int }
	eg := map[edge]*Term{}
	add := func(from, to int, g *Term) {
		k := edge{from, to}
		if o := eg[k]; o != nil {
			eg[k] = tt.Or(o, g)
		} else {
			eg[k] = g
		}
	}
	sc := f.fn.blocks[b].succs
	add(b, sc[0], c)
	add(b, sc[1], tt.Not(c))
	var rets []guardedRet
	phis := func(to int) bool {
		nb := &f.fn.blocks[to]
		var from []int
		var gs []*Term
		seen := map[int]bool{}
		for _, p := range nb.preds {
			if seen[p] {
				continue
			}
			seen[p] = true
			if g := eg[edge{p, to}]; g != nil && g != tt.fls {
				from = append(from, p)
				gs = append(gs, g)
			}
		}
		if len(from) == 0 {
			return false
		}
		if len(nb.phis) > 0 {
			pi := func(p int) int {
				for k, q := range nb.preds {
					if q == p {
						return k
					}
				}
				return -1
			}
			out := make([]Value, len(nb.phis))
			for k := range nb.phis {
				ph := &nb.phis[k]
				v := e.val(f, &ph.edges[pi(from[len(from)-1])])
				for x := len(from) - 2; x >= 0; x-- {
					v = e.mergeVal(ph.typ, gs[x], e.val(f, &ph.edges[pi(from[x])]), v)
				}
				out[k] = v
			}
			for k := range nb.phis {
				f.regs[nb.phis[k].dst] = out[k]
			}
		}
		return true
	}
	for _, blk := range r.order {
		if !phis(blk) {
			continue
		}
		nb := &f.fn.blocks[blk]
		g := tt.fls
		seen := map[int]bool{}
		for _, p := range nb.preds {
			if seen[p] {
				continue
			}
			seen[p] = true
			if x := eg[edge{p, blk}]; x != nil {
				g = tt.Or(g, x)
			}
		}
		full := tt.And(base, g)
		if full == tt.fls {
			continue
		}
		f.blk = blk
		dead := false
		for k := range nb.code {
			ci := &nb.code[k]
			e.mergeG = full
			switch ci.op {
			case cJump:
				add(blk, nb.succs[0], g)
			case cIf:
				v := e.val(f, &ci.a)
				if t := symOf(v); t != nil {
					add(blk, nb.succs[0], tt.And(g, t))
					add(blk, nb.succs[1], tt.And(g, tt.Not(t)))
				} else if v.N != 0 {
					add(blk, nb.succs[0], g)
				} else {
					add(blk, nb.succs[1], g)
				}
			case cReturn:
				rets = append(rets, guardedRet{g, e.retVal(f, ci)})
			case cPanic:
				if rr, _ := e.feasible(full); rr != Unsat {
					panic(mergeAbort{"panic"})
				}
				dead = true
			default:
				e.mergeStep(f, ci, full)
			}
			if dead {
				break
			}
		}
	}
	if r.exit == len(f.fn.blocks) {
		if len(rets) == 0 {
			panic(mergeAbort{"no return"})
		}
		v := rets[len(rets)-1].v
		res := f.fn.fn.Signature.Results()
		for i := len(rets) - 2; i >= 0; i-- {
			v = e.mergeRet(res, rets[i].g, rets[i].v, v)
		}
		return v, true
	}
	if !phis(r.exit) {
		panic(mergeAbort{"exit unreachable"})
	}
	f.prev = b
	f.blk = r.exit
	return Value{}, false
}

func (e *Engine) retVal(f *frame, ci *cinstr) Value {
	switch len(ci.args) {
	case 0:
		return Value{}
	case 1:
		return e.val(f, &ci.args[0])
	}
	t := make([]Value, len(ci.args))
	for i := range ci.args {
		t[i] = e.val(f, &ci.args[i])
	}
	return Value{P: t}
}

func (e *Engine) mergeRet(res *types.Tuple, g *Term, a, b Value) Value {
	switch res.Len() {
	case 0:
		return Value{}
	case 1:
		return e.mergeVal(res.At(0).Type(), g, a, b)
	}
	x, y := tupleOf(a, res.Len()), tupleOf(b, res.Len())
	out := make([]Value, res.Len())
	for i := range out {
		out[i] = e.mergeVal(res.At(i).Type(), g, x[i], y[i])
	}
	return Value{P: out}
}

func tupleOf(v Value, n int) []Value {
	if v.P == nil {
		return make([]Value, n)
	}
	return v.P.([]Value)
}

// mergeStep executes one non-terminator instruction under guard g.
func (e *Engine) mergeStep(f *frame, ci *cinstr, g *Term) {
	e.mergeInstr++
	if e.mergeInstr > 1500 {
		panic(mergeAbort{"budget"})
	}
	e.curIn = ci
	e.steps++
	e.stats.Steps++
	switch ci.op {
	case cCall:
		v := e.mergeCallInstr(f, ci, g)
		if ci.dst >= 0 {
			f.regs[ci.dst] = v
		}
	case cStore:
		p := e.val(f, &ci.a)
		v := e.val(f, &ci.b)
		if g != e.tt.tru {
			o, ok := p.P.(*Obj)
			if !ok {
				panic(mergeAbort{"store"})
			}
			// what was made under the same guard is not seen where the guard does not hold
			if e.mergeOwn[o] != g {
				old := e.load(p, ci.x, ci.agg)
				v = e.mergeVal(ci.typ, g, v, old)
			}
		}
		e.store(p, v, ci.x, ci.agg)
	case cDefer, cRunDefers, cMapUpdate, cUnsup, cRange, cNext:
		panic(mergeAbort{"effect"})
	default:
		v := e.eval(f, ci)
		if ci.op == cAlloc && g != e.tt.tru {
			if e.mergeOwn == nil {
				e.mergeOwn = map[*Obj]*Term{}
			}
			e.mergeOwn[v.P.(*Obj)] = g
		}
		if ci.dst >= 0 {
			f.regs[ci.dst] = v
		}
	}
}

func (e *Engine) mergeCallInstr(f *frame, ci *cinstr, g *Term) Value {
	args := make([]Value, len(ci.args))
	for i := range ci.args {
		args[i] = e.val(f, &ci.args[i])
	}
	if ci.bltin != "" {
		switch ci.bltin {
		case "len", "cap", "min", "max", "String", "StringData", "SliceData", "Slice", "ssa:wrapnilchk":
			return e.builtin(f, ci, args)
		}
		panic(mergeAbort{"builtin"})
	}
	var cl *Closure
	switch {
	case ci.callee != nil:
		cl = &Closure{fn: ci.callee}
	case ci.invoke != nil:
		recv := e.val(f, &ci.a)
		fn, rv := e.resolveInvoke(recv, ci.invoke)
		cl = &Closure{fn: fn}
		args = append([]Value{rv}, args...)
	default:
		var ok bool
		cl, ok = e.val(f, &ci.a).P.(*Closure)
		if !ok {
			panic(mergeAbort{"nil func"})
		}
	}
	in, rd := e.w.lookupIntrinsicCached(cl.fn)
	if in != nil {
		if !pureIntrinsic(cl.fn) {
			panic(mergeAbort{"intrinsic"})
		}
		return in(e, ci, args)
	}
	fn := cl.fn
	if rd != nil {
		fn = rd
	}
	return e.mergeCall(fn, cl.free, args, g)
}

// mergeCall evaluates a call under guard g without forking.
func (e *Engine) mergeCall(fn0 any, free, args []Value, g *Term) Value {
	cf := e.w.compiledAny(fn0)
	if len(cf.blocks) == 0 {
		panic(mergeAbort{"no body"})
	}
	e.mergeDepth++
	defer func() { e.mergeDepth-- }()
	if e.mergeDepth > 12 {
		panic(mergeAbort{"depth"})
	}
	e.funcsHit[cf] = true
	f := &frame{fn: cf, regs: make([]Value, cf.nregs), retDst: -1}
	for i, p := range cf.params {
		f.regs[p] = args[i]
	}
	for i, p := range cf.free {
		f.regs[p] = free[i]
	}
	for {
		b := &cf.blocks[f.blk]
		ci := &b.code[f.pc]
		e.mergeG = g
		switch ci.op {
		case cJump:
			e.enterBlock(f, b.succs[0], f.blk)
			e.mergeInstr++
			if e.mergeInstr > 1500 {
				panic(mergeAbort{"budget"})
			}
		case cIf:
			v := e.val(f, &ci.a)
			t := symOf(v)
			if t == nil {
				to := b.succs[1]
				if v.N != 0 {
					to = b.succs[0]
				}
				e.enterBlock(f, to, f.blk)
				continue
			}
			if !ci.region.ok {
				panic(mergeAbort{"region"})
			}
			v, isRet := e.mergeRegion(f, f.blk, t, ci.region, g)
			if isRet {
				return v
			}
			f.pc = 0
		case cReturn:
			return e.retVal(f, ci)
		case cPanic:
			panic(mergeAbort{"panic"})
		default:
			e.mergeStep(f, ci, g)
			f.pc++
		}
	}
}

// mergeVal is ite(g, a, b) on values of type t.
func (e *Engine) mergeVal(t types.Type, g *Term, a, b Value) Value {
	if g == e.tt.tru {
		return a
	}
	if g == e.tt.fls {
		return b
	}
	switch u := t.Underlying().(type) {
	case *types.Basic:
		bi := basicOf(t)
		switch bi.kind {
		case 'i', 'b':
			if a.P == nil && b.P == nil && a.N == b.N {
				return a
			}
			if a.P != nil && symOf(a) == nil || b.P != nil && symOf(b) == nil {
				panic(mergeAbort{"int bits"})
			}
			r := e.tt.Ite(g, e.term(a, bi), e.term(b, bi))
			return fromTerm(r, bi)
		case 's':
			if strLen(a) != strLen(b) {
				panic(mergeAbort{"string length"})
			}
			if x, ok := strConc(a); ok {
				if y, ok := strConc(b); ok && x == y {
					return a
				}
			}
			p, q := e.strTerms(a), e.strTerms(b)
			out := make([]*Term, len(p))
			for i := range p {
				out[i] = e.tt.Ite(g, p[i], q[i])
			}
			return mkSymStr(out)
		case 'f':
			if a.P == nil && b.P == nil && a.N == b.N {
				return a
			}
			x, d1, ok1 := e.fparts(a)
			y, d2, ok2 := e.fparts(b)
			if ok1 && ok2 && d1 == d2 {
				r := e.tt.Ite(g, x, y)
				if r.op != OConst {
					return Value{P: &FTerm{num: r, den: d1}}
				}
			}
			panic(mergeAbort{"float"})
		}
	case *types.Struct:
		if a.P == nil && b.P == nil {
			return a
		}
		n := e.w.slots(t)
		out := make([]Value, n)
		off := 0
		for i := 0; i < u.NumFields(); i++ {
			ft := u.Field(i).Type()
			k := e.w.slots(ft)
			v := e.mergeVal(ft, g, field(a, off, k, isAgg(ft)), field(b, off, k, isAgg(ft)))
			putField(out, v, off, k, isAgg(ft))
			off += k
		}
		return Value{P: out}
	case *types.Array:
		if a.P == nil && b.P == nil {
			return a
		}
		k := e.w.slots(u.Elem())
		n := int(u.Len())
		out := make([]Value, n*k)
		for i := 0; i < n; i++ {
			v := e.mergeVal(u.Elem(), g, field(a, i*k, k, isAgg(u.Elem())), field(b, i*k, k, isAgg(u.Elem())))
			putField(out, v, i*k, k, isAgg(u.Elem()))
		}
		return Value{P: out}
	case *types.Tuple:
		x, y := tupleOf(a, u.Len()), tupleOf(b, u.Len())
		out := make([]Value, u.Len())
		for i := range out {
			out[i] = e.mergeVal(u.At(i).Type(), g, x[i], y[i])
		}
		return Value{P: out}
	case *types.Interface:
		x, _ := a.P.(*Iface)
		y, _ := b.P.(*Iface)
		if x == y {
			return a
		}
		if x != nil && y != nil && x.t == y.t {
			return Value{P: &Iface{t: x.t, v: e.mergeVal(x.t.typ, g, x.v, y.v)}}
		}
		panic(mergeAbort{"interface"})
	case *types.Slice:
		x, _ := a.P.(*Slice)
		y, _ := b.P.(*Slice)
		if x == y || (x != nil && y != nil && *x == *y) {
			return a
		}
		panic(mergeAbort{"slice"})
	}
	switch a.P.(type) {
	case []Value, SymStr:
		panic(mergeAbort{"value"})
	}
	switch b.P.(type) {
	case []Value, SymStr:
		panic(mergeAbort{"value"})
	}
	if x, ok := a.P.(*Closure); ok {
		if y, ok := b.P.(*Closure); ok && x.fn == y.fn && len(x.free) == 0 && len(y.free) == 0 {
			return a
		}
		panic(mergeAbort{"func"})
	}
	if a.P == b.P && a.N == b.N {
		return a
	}
	panic(mergeAbort{"reference"})
}

func putField(out []Value, v Value, off, n int, agg bool) {
	if !agg {
		out[off] = v
		return
	}
	if v.P == nil {
		return
	}
	copy(out[off:off+n], v.P.([]Value))
}
