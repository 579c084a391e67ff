package main

import (
	"go/types"
	"regexp"
)

// Reflection is modelled just far enough for the code under test, fmt and errors.
// reflect.Type values are interfaces holding a pointer to an Obj with the *RType in cell 0.

func (e *Engine) reflType(t *RType) Value {
	p := e.w.pkgs["reflect"]
	if p == nil {
		panic(abort{"unsupported", "reflect not loaded"})
	}
	rt := e.w.rtype(types.NewPointer(p.Type("rtype").Type()))
	e.nextID++
	o := &Obj{size: 1, id: int64(-1000000 - t.id), name: "rtype", cells: []Value{{P: t}}}
	return Value{P: &Iface{t: rt, v: Value{P: o}}}
}

func rtypeOf(v Value) *RType {
	switch x := v.P.(type) {
	case *Obj:
		if t, ok := x.get(int(v.N)).P.(*RType); ok {
			return t
		}
	case []Value:
		return rtypeOf(x[0])
	case *RType:
		return x
	}
	panic(abort{"unsupported", "rtype"})
}

func reflTypeOf(e *Engine, ci *cinstr, a []Value) Value {
	i, _ := a[0].P.(*Iface)
	if i == nil {
		return Value{}
	}
	if fnName(ci.callee) == "internal/reflectlite.TypeOf" {
		p := e.w.pkgs["internal/reflectlite"]
		rt := e.w.rtype(p.Type("rtype").Type())
		o := &Obj{size: 1, id: int64(-1000000 - i.t.id), name: "rtype", cells: []Value{{P: i.t}}}
		return Value{P: &Iface{t: rt, v: Value{P: []Value{{P: o}}}}}
	}
	return e.reflType(i.t)
}

func reflComparable(e *Engine, ci *cinstr, a []Value) Value {
	return mkBool(types.Comparable(rtypeOf(a[0]).typ))
}

func kindOf(t types.Type) int {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch u.Kind() {
		case types.Bool:
			return 1
		case types.Int:
			return 2
		case types.Int8:
			return 3
		case types.Int16:
			return 4
		case types.Int32:
			return 5
		case types.Int64:
			return 6
		case types.Uint:
			return 7
		case types.Uint8:
			return 8
		case types.Uint16:
			return 9
		case types.Uint32:
			return 10
		case types.Uint64:
			return 11
		case types.Uintptr:
			return 12
		case types.Float32:
			return 13
		case types.Float64:
			return 14
		case types.Complex64:
			return 15
		case types.Complex128:
			return 16
		case types.String:
			return 24
		case types.UnsafePointer:
			return 26
		}
	case *types.Array:
		return 17
	case *types.Chan:
		return 18
	case *types.Signature:
		return 19
	case *types.Interface:
		return 20
	case *types.Map:
		return 21
	case *types.Pointer:
		return 22
	case *types.Slice:
		return 23
	case *types.Struct:
		return 25
	}
	return 0
}

func reflKind(e *Engine, ci *cinstr, a []Value) Value { return mkInt(kindOf(rtypeOf(a[0]).typ)) }

func typeString(t types.Type) string {
	s := types.TypeString(t, func(p *types.Package) string { return p.Name() })
	return aliasName.ReplaceAllStringFunc(s, func(x string) string {
		n := len(x)
		switch {
		case n >= 4 && x[n-4:] == "byte":
			return x[:n-4] + "uint8"
		case n >= 4 && x[n-4:] == "rune":
			return x[:n-4] + "int32"
		}
		return x
	})
}

func reflTypeString(e *Engine, ci *cinstr, a []Value) Value {
	return mkStr(typeString(rtypeOf(a[0]).typ))
}

func reflTypeName(e *Engine, ci *cinstr, a []Value) Value {
	if n, ok := rtypeOf(a[0]).typ.(*types.Named); ok {
		return mkStr(n.Obj().Name())
	}
	if n, ok := rtypeOf(a[0]).typ.(*types.Basic); ok {
		return mkStr(n.Name())
	}
	return Value{}
}

func reflTypeElem(e *Engine, ci *cinstr, a []Value) Value {
	switch u := rtypeOf(a[0]).typ.Underlying().(type) {
	case *types.Pointer:
		return e.reflType(e.w.rtype(u.Elem()))
	case *types.Slice:
		return e.reflType(e.w.rtype(u.Elem()))
	case *types.Map:
		return e.reflType(e.w.rtype(u.Elem()))
	case *types.Array:
		return e.reflType(e.w.rtype(u.Elem()))
	}
	panic(goPanic{e.mkError("reflect: Elem")})
}

var aliasName = regexp.MustCompile(`(^|[^.\w])(byte|rune)\b`)

// reflBox is the payload of a modelled reflect.Value.
type reflBox struct {
	t *RType
	v Value
}

// reflect.Value is a struct of three cells (typ_, ptr, flag): the box sits in cell 1.
func mkRefl(t *RType, v Value) Value {
	return Value{P: []Value{{}, {P: &reflBox{t, v}}, {N: 1}}}
}

func boxOf(v Value) *reflBox {
	if v.P == nil {
		return nil
	}
	b, _ := v.P.([]Value)[1].P.(*reflBox)
	return b
}

func reflValueOf(e *Engine, ci *cinstr, a []Value) Value {
	i, _ := a[0].P.(*Iface)
	if i == nil {
		return Value{}
	}
	return mkRefl(i.t, i.v)
}

func reflVKind(e *Engine, ci *cinstr, a []Value) Value {
	b := boxOf(a[0])
	if b == nil {
		return Value{}
	}
	return mkInt(kindOf(b.t.typ))
}

func reflVIsValid(e *Engine, ci *cinstr, a []Value) Value { return mkBool(boxOf(a[0]) != nil) }

func reflVIsNil(e *Engine, ci *cinstr, a []Value) Value {
	b := boxOf(a[0])
	switch kindOf(b.t.typ) {
	case 18, 19, 20, 21, 22, 23, 26:
		return mkBool(b.v.P == nil)
	}
	panic(goPanic{e.mkError("reflect: call of IsNil")})
}

func reflVElem(e *Engine, ci *cinstr, a []Value) Value {
	b := boxOf(a[0])
	switch u := b.t.typ.Underlying().(type) {
	case *types.Pointer:
		if b.v.P == nil {
			return Value{}
		}
		return mkRefl(e.w.rtype(u.Elem()), e.load(b.v, e.w.slots(u.Elem()), isAgg(u.Elem())))
	case *types.Interface:
		i, _ := b.v.P.(*Iface)
		if i == nil {
			return Value{}
		}
		return mkRefl(i.t, i.v)
	}
	panic(goPanic{e.mkError("reflect: call of Elem")})
}

func reflVInterface(e *Engine, ci *cinstr, a []Value) Value {
	b := boxOf(a[0])
	if _, ok := b.t.typ.Underlying().(*types.Interface); ok {
		return b.v
	}
	return Value{P: &Iface{t: b.t, v: b.v}}
}

func reflVType(e *Engine, ci *cinstr, a []Value) Value { return e.reflType(boxOf(a[0]).t) }

func reflVScalar(e *Engine, ci *cinstr, a []Value) Value {
	b := boxOf(a[0])
	bi := basicOf(b.t.typ)
	if t := symOf(b.v); t != nil && bi.kind == 'i' {
		return fromTerm(e.widen(t, bi), basicInfo{64, bi.signed, 'i'})
	}
	return b.v
}

func reflVString(e *Engine, ci *cinstr, a []Value) Value {
	b := boxOf(a[0])
	if b == nil {
		return mkStr("<invalid Value>")
	}
	if kindOf(b.t.typ) == 24 {
		return b.v
	}
	return mkStr("<" + typeString(b.t.typ) + " Value>")
}

func reflVLen(e *Engine, ci *cinstr, a []Value) Value {
	b := boxOf(a[0])
	switch kindOf(b.t.typ) {
	case 24:
		return mkInt(strLen(b.v))
	case 23:
		if s, _ := b.v.P.(*Slice); s != nil {
			return mkInt(s.len)
		}
		return Value{}
	case 21:
		if m, _ := b.v.P.(*MapObj); m != nil {
			return mkInt(m.live)
		}
		return Value{}
	case 17:
		return mkInt(int(b.t.typ.Underlying().(*types.Array).Len()))
	}
	panic(abort{"unsupported", "reflect Len"})
}

func reflVIndex(e *Engine, ci *cinstr, a []Value) Value {
	b := boxOf(a[0])
	i := int(e.concInt(a[1], i64))
	switch u := b.t.typ.Underlying().(type) {
	case *types.Slice:
		s := b.v.P.(*Slice)
		n := e.w.slots(u.Elem())
		return mkRefl(e.w.rtype(u.Elem()), e.load(Value{P: s.obj, N: uint64(s.off + i*n)}, n, isAgg(u.Elem())))
	case *types.Array:
		n := e.w.slots(u.Elem())
		return mkRefl(e.w.rtype(u.Elem()), field(b.v, i*n, n, isAgg(u.Elem())))
	}
	panic(abort{"unsupported", "reflect Index"})
}

func reflVNumField(e *Engine, ci *cinstr, a []Value) Value {
	return mkInt(boxOf(a[0]).t.typ.Underlying().(*types.Struct).NumFields())
}

func reflVField(e *Engine, ci *cinstr, a []Value) Value {
	b := boxOf(a[0])
	st := b.t.typ.Underlying().(*types.Struct)
	i := int(e.concInt(a[1], i64))
	ft := st.Field(i).Type()
	return mkRefl(e.w.rtype(ft), field(b.v, e.w.fieldOff(st, i), e.w.slots(ft), isAgg(ft)))
}

func reflUnsup(e *Engine, ci *cinstr, a []Value) Value {
	panic(abort{"unsupported", "reflect pointer"})
}

// modelAsTarget assigns err to *target when the types match (errors.As).
func modelAsTarget(e *Engine, ci *cinstr, a []Value) Value {
	er, _ := a[0].P.(*Iface)
	tg, _ := a[1].P.(*Iface)
	if er == nil || tg == nil {
		return mkBool(false)
	}
	pt, ok := tg.t.typ.Underlying().(*types.Pointer)
	if !ok {
		panic(goPanic{e.mkError("errors: target must be a non-nil pointer")})
	}
	el := pt.Elem()
	if it, ok := el.Underlying().(*types.Interface); ok {
		if !e.w.implements(er.t, it, el) {
			return mkBool(false)
		}
		e.store(tg.v, a[0], 1, false)
		return mkBool(true)
	}
	if e.w.rtype(el) != er.t {
		return mkBool(false)
	}
	e.store(tg.v, er.v, e.w.slots(el), isAgg(el))
	return mkBool(true)
}

func modelSwapAny(e *Engine, ci *cinstr, a []Value) Value {
	i := a[0].P.(*Iface)
	s, _ := i.v.P.(*Slice)
	x, y := int(e.concInt(a[1], i64)), int(e.concInt(a[2], i64))
	if s == nil || x < 0 || y < 0 || x >= s.len || y >= s.len {
		e.rtPanic("reflect: slice index out of range")
	}
	n := e.w.slots(i.t.typ.Underlying().(*types.Slice).Elem())
	for k := 0; k < n; k++ {
		p, q := s.off+x*n+k, s.off+y*n+k
		u, v := s.obj.get(p), s.obj.get(q)
		e.setCell(s.obj, p, v)
		e.setCell(s.obj, q, u)
	}
	return Value{}
}

// modelDerefAny returns *p as an interface, p a pointer held in an interface.
func modelDerefAny(e *Engine, ci *cinstr, a []Value) Value {
	i, _ := a[0].P.(*Iface)
	if i == nil {
		return Value{}
	}
	pt, ok := i.t.typ.Underlying().(*types.Pointer)
	if !ok || i.v.P == nil {
		return Value{}
	}
	v := e.load(i.v, e.w.slots(pt.Elem()), isAgg(pt.Elem()))
	if _, ok := pt.Elem().Underlying().(*types.Interface); ok {
		return v
	}
	return Value{P: &Iface{t: e.w.rtype(pt.Elem()), v: v}}
}

// modelSetAny stores v (whose dynamic type must match) through the pointer p.
func modelSetAny(e *Engine, ci *cinstr, a []Value) Value {
	i, _ := a[0].P.(*Iface)
	pt := i.t.typ.Underlying().(*types.Pointer)
	el := pt.Elem()
	if _, ok := el.Underlying().(*types.Interface); ok {
		e.store(i.v, a[1], 1, false)
		return mkBool(true)
	}
	v, _ := a[1].P.(*Iface)
	if v == nil {
		e.store(i.v, Value{}, e.w.slots(el), isAgg(el))
		return mkBool(true)
	}
	if e.w.rtype(el.Underlying()) != e.w.rtype(v.t.typ.Underlying()) {
		return mkBool(false)
	}
	e.store(i.v, v.v, e.w.slots(el), isAgg(el))
	return mkBool(true)
}

// intCells lists the integer cells of a type, or reports that it has others.
func (e *Engine) intCells(t types.Type, out []basicInfo) ([]basicInfo, bool) {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		b := basicOf(t)
		return append(out, b), b.kind == 'i' && u.Kind() != types.Int && u.Kind() != types.Uint && u.Kind() != types.Uintptr
	case *types.Struct:
		ok := true
		for i := 0; ok && i < u.NumFields(); i++ {
			out, ok = e.intCells(u.Field(i).Type(), out)
		}
		return out, ok
	case *types.Array:
		ok := true
		for i := int64(0); ok && i < u.Len(); i++ {
			out, ok = e.intCells(u.Elem(), out)
		}
		return out, ok
	}
	return nil, false
}

func (e *Engine) binCells(v Value) ([]basicInfo, Value) {
	i, _ := v.P.(*Iface)
	if i == nil {
		return nil, Value{}
	}
	pt, ok := i.t.typ.Underlying().(*types.Pointer)
	if !ok {
		return nil, Value{}
	}
	cs, ok := e.intCells(pt.Elem(), nil)
	if !ok {
		return nil, Value{}
	}
	return cs, i.v
}

// modelBinWidth: the width in bytes of the i-th integer data points to, 0 after the last one.
func modelBinWidth(e *Engine, ci *cinstr, a []Value) Value {
	cs, _ := e.binCells(a[0])
	i := int(a[1].N)
	if cs == nil {
		panic(abort{"unsupported", "binary.Read into this type"})
	}
	if i >= len(cs) {
		return Value{}
	}
	return mkInt(int(cs[i].w / 8))
}

func modelBinSet(e *Engine, ci *cinstr, a []Value) Value {
	cs, p := e.binCells(a[0])
	i := int(a[1].N)
	t := e.tt.Extract(e.term(a[2], basicInfo{64, false, 'i'}), 0, cs[i].w)
	p.N += uint64(i)
	e.store(p, fromTerm(t, cs[i]), 1, false)
	return Value{}
}
