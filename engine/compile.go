package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"math"

	"golang.org/x/tools/go/ssa"
)

type opndKind uint8

const (
	kNone opndKind = iota
	kReg
	kConst
	kGlobal
)

type opnd struct {
	kind opndKind
	idx  int32
	v    Value
}

type opcode uint8

const (
	cNop opcode = iota
	cAlloc
	cCall
	cBinOp
	cLoad
	cNeg
	cNot
	cCompl
	cCopy
	cConvert
	cMakeInterface
	cMakeClosure
	cMakeMap
	cMakeSlice
	cSlice
	cSliceToArr
	cFieldAddr
	cField
	cIndexAddr
	cIndex
	cLookup
	cRange
	cNext
	cTypeAssert
	cExtract
	cJump
	cIf
	cReturn
	cRunDefers
	cPanic
	cDefer
	cStore
	cMapUpdate
	cUnsup
)

type cinstr struct {
	op      opcode
	dst     int32
	a, b, c opnd
	args    []opnd
	in      ssa.Instruction
	bi, bi2 basicInfo
	tok     token.Token
	x, y    int
	t       *RType
	typ     types.Type // operand or element type, depends on op
	typ2    types.Type
	agg     bool
	commaOk bool
	callee  *ssa.Function
	bltin   string
	invoke  *types.Func
	intr    intrinsic
	intrOK  bool
	redir   *ssa.Function
	region  *region
	regDone bool
	id      int32
}

type cphi struct {
	dst   int32
	edges []opnd
	bi    basicInfo
	agg   bool
	typ   types.Type
}

type cblock struct {
	phis  []cphi
	code  []cinstr
	succs []int
	preds []int
}

type cfunc struct {
	fn     *ssa.Function
	name   string
	blocks []cblock
	nregs  int
	params []int32
	free   []int32
	recov  int // recover block or -1
	inRepo bool
	ipdom  []int
}

func (w *World) compiled(fn *ssa.Function) *cfunc {
	if c, ok := w.funcs.Load(fn); ok {
		return c.(*cfunc)
	}
	c := w.compile(fn)
	act, _ := w.funcs.LoadOrStore(fn, c)
	return act.(*cfunc)
}

func constVal(c *ssa.Const) Value {
	if c.Value == nil {
		return Value{} // nil or zero value
	}
	t := c.Type().Underlying()
	bi := basicOf(t)
	switch bi.kind {
	case 'b':
		return mkBool(constant.BoolVal(c.Value))
	case 'i':
		if bi.signed {
			return Value{N: norm(uint64(c.Int64()), bi)}
		}
		return Value{N: norm(c.Uint64(), bi)}
	case 'f':
		f := c.Float64()
		if bi.w == 32 {
			f = float64(float32(f))
		}
		return Value{N: math.Float64bits(f)}
	case 's':
		if c.Value.Kind() == constant.String {
			return mkStr(constant.StringVal(c.Value))
		}
		return mkStr(string(rune(c.Int64())))
	case 'c':
		return Value{P: c.Complex128()}
	}
	// type parameters or interfaces should not occur after instantiation
	if _, ok := t.(*types.Interface); ok {
		return Value{}
	}
	panic(fmt.Sprintf("constVal %s : %s", c, c.Type()))
}

func (w *World) compile(fn *ssa.Function) *cfunc {
	cf := &cfunc{fn: fn, name: fn.String(), recov: -1}
	if fn.Pkg != nil || fn.Origin() != nil {
		p := fn.Pkg
		if p == nil && fn.Origin() != nil {
			p = fn.Origin().Pkg
		}
		if p != nil {
			cf.inRepo = isRepoPkg(p.Pkg.Path())
		}
	}
	regs := map[ssa.Value]int32{}
	newReg := func(v ssa.Value) int32 {
		i := int32(cf.nregs)
		cf.nregs++
		regs[v] = i
		return i
	}
	for _, p := range fn.Params {
		cf.params = append(cf.params, newReg(p))
	}
	for _, p := range fn.FreeVars {
		cf.free = append(cf.free, newReg(p))
	}
	for _, b := range fn.Blocks {
		for _, in := range b.Instrs {
			if v, ok := in.(ssa.Value); ok {
				newReg(v)
			}
		}
	}
	op := func(v ssa.Value) opnd {
		if v == nil {
			return opnd{}
		}
		switch x := v.(type) {
		case *ssa.Const:
			return opnd{kind: kConst, v: constVal(x)}
		case *ssa.Global:
			return opnd{kind: kGlobal, idx: int32(w.globalIndex(x))}
		case *ssa.Function:
			return opnd{kind: kConst, v: Value{P: &Closure{fn: x}}}
		case *ssa.Builtin:
			return opnd{}
		}
		i, ok := regs[v]
		if !ok {
			panic(fmt.Sprintf("no reg for %s in %s", v, fn))
		}
		return opnd{kind: kReg, idx: i}
	}
	if fn.Recover != nil {
		cf.recov = fn.Recover.Index
	}
	cf.blocks = make([]cblock, len(fn.Blocks))
	for bi, b := range fn.Blocks {
		cb := &cf.blocks[bi]
		for _, s := range b.Succs {
			cb.succs = append(cb.succs, s.Index)
		}
		for _, s := range b.Preds {
			cb.preds = append(cb.preds, s.Index)
		}
		for _, in := range b.Instrs {
			if phi, ok := in.(*ssa.Phi); ok {
				cp := cphi{dst: regs[phi], bi: basicOf(phi.Type()), agg: isAgg(phi.Type()), typ: phi.Type()}
				for _, ed := range phi.Edges {
					cp.edges = append(cp.edges, op(ed))
				}
				cb.phis = append(cb.phis, cp)
				continue
			}
			if _, ok := in.(*ssa.DebugRef); ok {
				continue
			}
			ci := cinstr{in: in, dst: -1}
			if v, ok := in.(ssa.Value); ok {
				ci.dst = regs[v]
			}
			w.compileInstr(&ci, in, op)
			cb.code = append(cb.code, ci)
		}
	}
	cf.computeIpdom()
	for bi := range cf.blocks {
		c := cf.blocks[bi].code
		if n := len(c); n > 0 && c[n-1].op == cIf {
			c[n-1].region = cf.regionOf(bi)
		}
	}
	return cf
}

func deref(t types.Type) types.Type {
	if p, ok := t.Underlying().(*types.Pointer); ok {
		return p.Elem()
	}
	return t
}

func (w *World) compileCall(ci *cinstr, cc *ssa.CallCommon, op func(ssa.Value) opnd) {
	for _, a := range cc.Args {
		ci.args = append(ci.args, op(a))
	}
	if cc.IsInvoke() {
		ci.invoke = cc.Method
		ci.a = op(cc.Value)
		return
	}
	switch f := cc.Value.(type) {
	case *ssa.Builtin:
		ci.bltin = f.Name()
		if len(cc.Args) > 0 {
			ci.typ = cc.Args[0].Type()
		}
		if cc.Signature().Params().Len() > 0 {
			ci.bi = basicOf(cc.Signature().Params().At(0).Type())
		}
		if cc.Signature().Results().Len() > 0 {
			ci.typ2 = cc.Signature().Results().At(0).Type()
		}
		if ci.typ != nil {
			if s, ok := ci.typ.Underlying().(*types.Slice); ok {
				ci.x = w.slots(s.Elem())
				ci.agg = isAgg(s.Elem())
			}
		}
	case *ssa.Function:
		ci.callee = f
		ci.intr, ci.redir = w.lookupIntrinsic(f)
		ci.intrOK = ci.intr != nil
	default:
		ci.a = op(cc.Value)
	}
}

func (w *World) compileInstr(ci *cinstr, in ssa.Instruction, op func(ssa.Value) opnd) {
	switch x := in.(type) {
	case *ssa.Alloc:
		ci.op = cAlloc
		ci.x = w.slots(deref(x.Type()))
		ci.typ = deref(x.Type())
	case *ssa.Call:
		ci.op = cCall
		w.compileCall(ci, &x.Call, op)
	case *ssa.Defer:
		ci.op = cDefer
		w.compileCall(ci, &x.Call, op)
		if x.DeferStack != nil {
			ci.op = cUnsup
		}
	case *ssa.BinOp:
		ci.op = cBinOp
		ci.tok = x.Op
		ci.a, ci.b = op(x.X), op(x.Y)
		ci.typ = x.X.Type()
		if x.Op == token.SHL || x.Op == token.SHR {
			ci.bi2 = basicOf(x.Y.Type())
		} else if c, ok := x.X.(*ssa.Const); ok && c.Value == nil {
			ci.typ = x.Y.Type()
			// comparing against an untyped nil
			if _, isI := x.X.Type().Underlying().(*types.Interface); isI {
				ci.typ = x.X.Type()
			}
		}
		ci.bi = basicOf(ci.typ)
		// mixed interface / concrete comparison
		ci.typ2 = x.Y.Type()
	case *ssa.UnOp:
		ci.a = op(x.X)
		switch x.Op {
		case token.MUL:
			ci.op = cLoad
			ci.typ = x.Type()
			ci.agg = isAgg(x.Type())
			ci.x = w.slots(x.Type())
			ci.bi = basicOf(x.Type())
		case token.SUB:
			ci.op = cNeg
			ci.bi = basicOf(x.Type())
		case token.NOT:
			ci.op = cNot
		case token.XOR:
			ci.op = cCompl
			ci.bi = basicOf(x.Type())
		default:
			ci.op = cUnsup
		}
	case *ssa.ChangeType:
		ci.op = cCopy
		ci.a = op(x.X)
	case *ssa.ChangeInterface:
		ci.op = cCopy
		ci.a = op(x.X)
	case *ssa.Convert:
		ci.op = cConvert
		ci.a = op(x.X)
		ci.typ, ci.typ2 = x.X.Type(), x.Type()
		ci.bi, ci.bi2 = basicOf(x.X.Type()), basicOf(x.Type())
	case *ssa.MultiConvert:
		ci.op = cConvert
		ci.a = op(x.X)
		ci.typ, ci.typ2 = x.X.Type(), x.Type()
		ci.bi, ci.bi2 = basicOf(x.X.Type()), basicOf(x.Type())
	case *ssa.MakeInterface:
		ci.op = cMakeInterface
		ci.a = op(x.X)
		ci.t = w.rtype(x.X.Type())
	case *ssa.MakeClosure:
		ci.op = cMakeClosure
		ci.callee = x.Fn.(*ssa.Function)
		for _, b := range x.Bindings {
			ci.args = append(ci.args, op(b))
		}
	case *ssa.MakeMap:
		ci.op = cMakeMap
	case *ssa.MakeSlice:
		ci.op = cMakeSlice
		ci.a, ci.b = op(x.Len), op(x.Cap)
		ci.x = w.slots(x.Type().Underlying().(*types.Slice).Elem())
		ci.bi, ci.bi2 = basicOf(x.Len.Type()), basicOf(x.Cap.Type())
	case *ssa.Slice:
		ci.op = cSlice
		ci.a, ci.b, ci.c = op(x.X), op(x.Low), op(x.High)
		ci.args = []opnd{op(x.Max)}
		ci.typ = x.X.Type()
		switch u := x.X.Type().Underlying().(type) {
		case *types.Slice:
			ci.x = w.slots(u.Elem())
		case *types.Pointer:
			a := u.Elem().Underlying().(*types.Array)
			ci.x = w.slots(a.Elem())
			ci.y = int(a.Len())
		}
	case *ssa.SliceToArrayPointer:
		ci.op = cSliceToArr
		ci.a = op(x.X)
		ci.y = int(deref(x.Type()).Underlying().(*types.Array).Len())
		ci.x = w.slots(x.X.Type().Underlying().(*types.Slice).Elem())
	case *ssa.FieldAddr:
		ci.op = cFieldAddr
		ci.a = op(x.X)
		ci.x = w.fieldOff(deref(x.X.Type()).Underlying().(*types.Struct), x.Field)
	case *ssa.Field:
		ci.op = cField
		ci.a = op(x.X)
		st := x.X.Type().Underlying().(*types.Struct)
		ci.x = w.fieldOff(st, x.Field)
		ci.y = w.slots(st.Field(x.Field).Type())
		ci.agg = isAgg(x.Type())
	case *ssa.IndexAddr:
		ci.op = cIndexAddr
		ci.a, ci.b = op(x.X), op(x.Index)
		ci.typ = x.X.Type()
		ci.bi = basicOf(x.Index.Type())
		ci.x = w.slots(deref(x.Type()))
		if p, ok := x.X.Type().Underlying().(*types.Pointer); ok {
			ci.y = int(p.Elem().Underlying().(*types.Array).Len())
			ci.commaOk = true // array pointer
		}
	case *ssa.Index:
		ci.op = cIndex
		ci.a, ci.b = op(x.X), op(x.Index)
		ci.bi = basicOf(x.Index.Type())
		ci.typ = x.X.Type()
		ci.agg = isAgg(x.Type())
		ci.bi2 = basicOf(x.Type())
		if a, ok := x.X.Type().Underlying().(*types.Array); ok {
			ci.x = w.slots(a.Elem())
			ci.y = int(a.Len())
		} else {
			ci.x = -1 // string
		}
	case *ssa.Lookup:
		ci.a, ci.b = op(x.X), op(x.Index)
		ci.commaOk = x.CommaOk
		ci.typ = x.X.Type()
		if m, ok := x.X.Type().Underlying().(*types.Map); ok {
			ci.op = cLookup
			ci.typ2 = m.Key()
			ci.bi = basicOf(m.Elem())
		} else {
			ci.op = cIndex
			ci.x = -1
			ci.bi = basicOf(x.Index.Type())
			ci.bi2 = basicOf(x.Type())
		}
	case *ssa.Range:
		ci.op = cRange
		ci.a = op(x.X)
		ci.typ = x.X.Type()
	case *ssa.Next:
		ci.op = cNext
		ci.a = op(x.Iter)
		ci.commaOk = x.IsString
	case *ssa.TypeAssert:
		ci.op = cTypeAssert
		ci.a = op(x.X)
		ci.typ = x.AssertedType
		ci.commaOk = x.CommaOk
		if _, ok := x.AssertedType.Underlying().(*types.Interface); ok {
			ci.agg = true // to interface
		} else {
			ci.t = w.rtype(x.AssertedType)
		}
	case *ssa.Extract:
		ci.op = cExtract
		ci.a = op(x.Tuple)
		ci.x = x.Index
	case *ssa.Jump:
		ci.op = cJump
	case *ssa.If:
		ci.op = cIf
		ci.a = op(x.Cond)
	case *ssa.Return:
		ci.op = cReturn
		for _, r := range x.Results {
			ci.args = append(ci.args, op(r))
		}
	case *ssa.RunDefers:
		ci.op = cRunDefers
	case *ssa.Panic:
		ci.op = cPanic
		ci.a = op(x.X)
	case *ssa.Store:
		ci.op = cStore
		ci.a, ci.b = op(x.Addr), op(x.Val)
		ci.typ = x.Val.Type()
		ci.agg = isAgg(x.Val.Type())
		ci.x = w.slots(x.Val.Type())
		ci.bi = basicOf(x.Val.Type())
	case *ssa.MapUpdate:
		ci.op = cMapUpdate
		ci.a, ci.b, ci.c = op(x.Map), op(x.Key), op(x.Value)
		ci.typ = x.Map.Type().Underlying().(*types.Map).Key()
	default:
		ci.op = cUnsup
	}
}

// computeIpdom computes immediate post-dominators; index len(blocks) is the virtual exit.
func (cf *cfunc) computeIpdom() {
	n := len(cf.blocks)
	exit := n
	// order: reverse post-order on the reverse graph
	succs := func(i int) []int {
		if len(cf.blocks[i].succs) == 0 {
			if c := cf.blocks[i].code; len(c) > 0 && c[len(c)-1].op == cPanic {
				return nil
			}
			return []int{exit}
		}
		return cf.blocks[i].succs
	}
	preds := make([][]int, n+1)
	for i := 0; i < n; i++ {
		for _, s := range succs(i) {
			preds[s] = append(preds[s], i)
		}
	}
	order := []int{}
	seen := make([]bool, n+1)
	var dfs func(i int)
	dfs = func(i int) {
		seen[i] = true
		for _, p := range preds[i] {
			if !seen[p] {
				dfs(p)
			}
		}
		order = append(order, i)
	}
	dfs(exit)
	num := make([]int, n+1)
	for i := range num {
		num[i] = -1
	}
	for i, b := range order {
		num[b] = i
	}
	ip := make([]int, n+1)
	for i := range ip {
		ip[i] = -1
	}
	ip[exit] = exit
	inter := func(a, b int) int {
		for a != b {
			for num[a] < num[b] {
				a = ip[a]
			}
			for num[b] < num[a] {
				b = ip[b]
			}
		}
		return a
	}
	for ch := true; ch; {
		ch = false
		for k := len(order) - 1; k >= 0; k-- {
			b := order[k]
			if b == exit {
				continue
			}
			nw := -1
			for _, s := range succs(b) {
				if num[s] < 0 || ip[s] < 0 {
					continue
				}
				if nw < 0 {
					nw = s
				} else {
					nw = inter(nw, s)
				}
			}
			if nw >= 0 && ip[b] != nw {
				ip[b] = nw
				ch = true
			}
		}
	}
	cf.ipdom = ip
}

// region is the acyclic code between a branch and its immediate post-dominator.
type region struct {
	ok    bool
	exit  int   // block index, or len(blocks) for the function exit
	order []int // blocks in topological order (excluding the branch block and exit)
	in    map[int]bool
}

const maxRegionBlocks = 40
const maxRegionInstrs = 250

// regionOf computes the region of the If ending block b.
func (cf *cfunc) regionOf(b int) *region {
	r := &region{exit: cf.ipdom[b], in: map[int]bool{}}
	if r.exit < 0 {
		return r
	}
	n := 0
	state := map[int]int{}
	ok := true
	var dfs func(i int)
	dfs = func(i int) {
		if !ok || i == r.exit {
			return
		}
		if i == b {
			ok = false
			return
		}
		switch state[i] {
		case 1:
			ok = false
			return
		case 2:
			return
		}
		state[i] = 1
		if len(state) > maxRegionBlocks {
			ok = false
			return
		}
		for k := range cf.blocks[i].code {
			ci := &cf.blocks[i].code[k]
			n++
			switch ci.op {
			case cRunDefers, cPanic, cDefer, cMapUpdate, cUnsup, cRange, cNext, cMakeMap, cMakeClosure:
				if ci.op == cPanic {
					continue // handled: the guard must be infeasible
				}
				ok = false
				return
			case cReturn:
				if r.exit != len(cf.blocks) {
					ok = false
					return
				}
			}
		}
		if n > maxRegionInstrs {
			ok = false
			return
		}
		for _, s := range cf.blocks[i].succs {
			dfs(s)
		}
		state[i] = 2
		r.order = append(r.order, i)
	}
	for _, s := range cf.blocks[b].succs {
		dfs(s)
	}
	if !ok {
		return r
	}
	for i, j := 0, len(r.order)-1; i < j; i, j = i+1, j-1 {
		r.order[i], r.order[j] = r.order[j], r.order[i]
	}
	for _, i := range r.order {
		r.in[i] = true
	}
	r.ok = true
	return r
}
