package main

import (
	"fmt"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Value is a register or memory cell. The zero Value is the zero value of every type.
//
//	bool/int      P==nil: N (signed: sign-extended, unsigned: zero-extended); P=*Term symbolic
//	float         P==nil: N = Float64bits (float32 values are stored as float64); P=*FTerm symbolic
//	string        P==nil: ""; P=string; P=SymStr
//	pointer       P==nil: nil; P=*Obj with N the cell offset; P=*SymPtr
//	slice         P==nil: nil; P=*Slice
//	interface     P==nil: nil; P=*Iface
//	struct/array  P==nil: zero; P=[]Value, flattened cells
//	map/chan/func P==nil: nil; P=*MapObj, *Closure
//	tuple         P=[]Value, one per component
type Value struct {
	N uint64
	P any
}

// SymStr is a string with at least one symbolic byte (8-bit terms).
type SymStr []*Term

// Obj is a memory object; cells grow lazily up to size.
type Obj struct {
	cells  []Value
	size   int
	id     int64
	name   string
	frozen bool
}

func (o *Obj) get(i int) Value {
	if i < len(o.cells) {
		return o.cells[i]
	}
	return Value{}
}

// SymPtr points to cells obj[base+idx*stride] with 0 <= idx < n known to hold.
type SymPtr struct {
	obj    *Obj
	base   int
	stride int
	n      int
	idx    *Term
}

// Slice header; off and lengths are in elements of stride cells (off in cells).
type Slice struct {
	obj      *Obj
	off      int
	len, cap int
}

type Iface struct {
	t *RType
	v Value
}

type Closure struct {
	fn   *ssa.Function
	free []Value
}

type mapEntry struct {
	key, val Value
	live     bool
}

// MapObj keeps insertion order.
type MapObj struct {
	entries []*mapEntry
	index   map[any]int // concrete keys only
	symKeys int
	live    int
	id      int64
	frozen  bool
}

// RType is a canonical runtime type.
type RType struct {
	typ types.Type
	id  int
}

func isAgg(t types.Type) bool {
	switch t.Underlying().(type) {
	case *types.Struct, *types.Array:
		return true
	}
	return false
}

type basicInfo struct {
	w      uint8 // 0 bool
	signed bool
	kind   uint8 // 'i' int, 'b' bool, 'f' float, 's' string, 'c' complex, 'p' unsafe pointer, 0 other
}

func basicOf(t types.Type) basicInfo {
	b, ok := t.Underlying().(*types.Basic)
	if !ok {
		return basicInfo{}
	}
	switch b.Kind() {
	case types.Bool, types.UntypedBool:
		return basicInfo{0, false, 'b'}
	case types.Int, types.Int64, types.UntypedInt:
		return basicInfo{64, true, 'i'}
	case types.Int8:
		return basicInfo{8, true, 'i'}
	case types.Int16:
		return basicInfo{16, true, 'i'}
	case types.Int32, types.UntypedRune:
		return basicInfo{32, true, 'i'}
	case types.Uint, types.Uint64, types.Uintptr:
		return basicInfo{64, false, 'i'}
	case types.Uint8:
		return basicInfo{8, false, 'i'}
	case types.Uint16:
		return basicInfo{16, false, 'i'}
	case types.Uint32:
		return basicInfo{32, false, 'i'}
	case types.Float64, types.UntypedFloat:
		return basicInfo{64, false, 'f'}
	case types.Float32:
		return basicInfo{32, false, 'f'}
	case types.String, types.UntypedString:
		return basicInfo{0, false, 's'}
	case types.Complex128, types.Complex64, types.UntypedComplex:
		return basicInfo{0, false, 'c'}
	case types.UnsafePointer:
		return basicInfo{0, false, 'p'}
	}
	return basicInfo{}
}

// norm normalises a concrete integer for its type.
func norm(v uint64, bi basicInfo) uint64 {
	if bi.w >= 64 || bi.w == 0 {
		return v
	}
	if bi.signed {
		return uint64(sx(v, bi.w))
	}
	return v & mask(bi.w)
}

func symOf(v Value) *Term {
	if t, ok := v.P.(*Term); ok {
		return t
	}
	return nil
}

func mkStr(s string) Value {
	if s == "" {
		return Value{}
	}
	return Value{P: s}
}

func strLen(v Value) int {
	switch s := v.P.(type) {
	case nil:
		return 0
	case string:
		return len(s)
	case SymStr:
		return len(s)
	}
	panic(fmt.Sprintf("strLen of %T", v.P))
}

// strConc returns the concrete string if it is one.
func strConc(v Value) (string, bool) {
	switch s := v.P.(type) {
	case nil:
		return "", true
	case string:
		return s, true
	}
	return "", false
}

func (e *Engine) strByte(v Value, i int) *Term {
	switch s := v.P.(type) {
	case string:
		return e.tt.Const(uint64(s[i]), 8)
	case SymStr:
		return s[i]
	}
	panic("strByte")
}

func (e *Engine) strTerms(v Value) []*Term {
	switch s := v.P.(type) {
	case nil:
		return nil
	case string:
		r := make([]*Term, len(s))
		for i := range r {
			r[i] = e.tt.Const(uint64(s[i]), 8)
		}
		return r
	case SymStr:
		return s
	}
	panic("strTerms")
}

// mkSymStr normalises to a concrete string when possible.
func mkSymStr(b []*Term) Value {
	if len(b) == 0 {
		return Value{}
	}
	for _, t := range b {
		if t.op != OConst {
			return Value{P: SymStr(b)}
		}
	}
	bs := make([]byte, len(b))
	for i, t := range b {
		bs[i] = byte(t.val)
	}
	return Value{P: string(bs)}
}

func subStr(v Value, lo, hi int) Value {
	switch s := v.P.(type) {
	case nil:
		return Value{}
	case string:
		return mkStr(s[lo:hi])
	case SymStr:
		return mkSymStr(s[lo:hi])
	}
	panic("subStr")
}

func (e *Engine) byteTerm(v Value) *Term {
	if t, ok := v.P.(*Term); ok {
		return t
	}
	return e.tt.Const(v.N, 8)
}

// term lifts an integer or Boolean value to a term.
func (e *Engine) term(v Value, bi basicInfo) *Term {
	if t, ok := v.P.(*Term); ok {
		return t
	}
	if v.P != nil {
		panic(abort{"unsupported", fmt.Sprintf("integer value with %T", v.P)})
	}
	return e.tt.Const(v.N, bi.w)
}

// fromTerm lowers a term to a value of the given basic type.
func fromTerm(t *Term, bi basicInfo) Value {
	if t.op == OConst {
		if bi.signed {
			return Value{N: uint64(sx(t.val, t.w))}
		}
		return Value{N: t.val}
	}
	return Value{P: t}
}

func boolVal(t *Term) Value {
	if t.op == OConst {
		return Value{N: t.val}
	}
	return Value{P: t}
}

func mkBool(b bool) Value { return Value{N: b2u(b)} }
func mkInt(i int) Value   { return Value{N: uint64(int64(i))} }

func (v Value) String() string {
	switch p := v.P.(type) {
	case nil:
		return fmt.Sprintf("%d", int64(v.N))
	case string:
		return fmt.Sprintf("%q", p)
	case *Term:
		return "sym:" + showTerm(p, 4)
	case SymStr:
		var sb strings.Builder
		sb.WriteString("str[")
		for _, t := range p {
			if t.op == OConst {
				fmt.Fprintf(&sb, "%q", byte(t.val))
			} else {
				sb.WriteString("?" + showTerm(t, 2))
			}
			sb.WriteByte(' ')
		}
		return sb.String() + "]"
	case *Iface:
		return fmt.Sprintf("iface(%s,%s)", p.t.typ, p.v)
	case *Obj:
		return fmt.Sprintf("&%s#%d+%d", p.name, p.id, v.N)
	case *Slice:
		return fmt.Sprintf("slice(%d)", p.len)
	}
	return fmt.Sprintf("%T", v.P)
}

func showTerm(t *Term, d int) string {
	if t.op == OConst {
		return fmt.Sprint(t.val)
	}
	if t.op == OVar {
		return t.name
	}
	if d == 0 {
		return "…"
	}
	return smtBody(t, func(x *Term) string { return showTerm(x, d-1) })
}
