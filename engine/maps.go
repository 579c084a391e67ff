package main

import (
	"fmt"
	"go/types"
	"math"
	"unicode/utf8"
)

func (e *Engine) newMap() *MapObj {
	e.nextID++
	return &MapObj{index: map[any]int{}, id: e.nextID}
}

type ikey struct {
	t int
	v any
}

// hkey returns a comparable Go value for a fully concrete key.
func (e *Engine) hkey(t types.Type, v Value) (any, bool) {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch basicOf(t).kind {
		case 's':
			return strConcAny(v)
		case 'f':
			if v.P != nil {
				return nil, false
			}
			f := math.Float64frombits(v.N)
			if f == 0 {
				f = 0
			}
			if f != f {
				return nil, false
			}
			return f, true
		}
		if v.P != nil {
			return nil, false
		}
		return v.N, true
	case *types.Interface:
		i, _ := v.P.(*Iface)
		if i == nil {
			return nil, true
		}
		if !types.Comparable(i.t.typ) {
			e.rtPanic("hash of unhashable type " + i.t.typ.String())
		}
		k, ok := e.hkey(i.t.typ, i.v)
		return ikey{i.t.id, k}, ok
	case *types.Pointer, *types.Chan:
		return v, true
	case *types.Struct:
		s := ""
		off := 0
		for i := 0; i < u.NumFields(); i++ {
			ft := u.Field(i).Type()
			n := e.w.slots(ft)
			k, ok := e.hkey(ft, field(v, off, n, isAgg(ft)))
			if !ok {
				return nil, false
			}
			s += fmt.Sprintf("%T:%v\x00", k, k)
			off += n
		}
		return "struct:" + s, true
	case *types.Array:
		s := ""
		n := e.w.slots(u.Elem())
		for i := 0; i < int(u.Len()); i++ {
			k, ok := e.hkey(u.Elem(), field(v, i*n, n, isAgg(u.Elem())))
			if !ok {
				return nil, false
			}
			s += fmt.Sprintf("%T:%v\x00", k, k)
		}
		return "array:" + s, true
	}
	panic(abort{"unsupported", "map key " + t.String()})
}

func strConcAny(v Value) (any, bool) {
	s, ok := strConc(v)
	if !ok {
		return nil, false
	}
	return s, true
}

// mapFind returns the entry index of key, forking where equality is symbolic, or -1.
func (e *Engine) mapFind(m *MapObj, key Value, kt types.Type) int {
	hk, conc := e.hkey(kt, key)
	if conc {
		if i, ok := m.index[hk]; ok {
			return i
		}
		if m.symKeys == 0 {
			return -1
		}
	}
	for i, en := range m.entries {
		if !en.live {
			continue
		}
		if conc {
			if _, c2 := e.hkey(kt, en.key); c2 {
				continue
			}
		}
		c := e.eq(kt, en.key, key)
		if e.fork(c) {
			return i
		}
	}
	return -1
}

func (e *Engine) lookup(f *frame, ci *cinstr) Value {
	m, _ := e.val(f, &ci.a).P.(*MapObj)
	key := e.val(f, &ci.b)
	i := -1
	if m != nil {
		if r, ok := e.mapLookupMerged(m, key, ci); ok {
			return r
		}
		i = e.mapFind(m, key, ci.typ2)
	} else if t, ok := ci.typ2.Underlying().(*types.Interface); ok && t != nil {
		e.hkey(ci.typ2, key)
	}
	var v Value
	if i >= 0 {
		v = m.entries[i].val
	}
	if ci.commaOk {
		return Value{P: []Value{v, mkBool(i >= 0)}}
	}
	return v
}

// mapLookupMerged builds an ite for integer or Boolean valued maps with integer keys.
func (e *Engine) mapLookupMerged(m *MapObj, key Value, ci *cinstr) (Value, bool) {
	t := symOf(key)
	if t == nil || m.live > 64 || (ci.bi.kind != 'i' && ci.bi.kind != 'b') {
		return Value{}, false
	}
	kb := basicOf(ci.typ2)
	if kb.kind != 'i' {
		return Value{}, false
	}
	res := e.tt.Const(0, ci.bi.w)
	found := e.tt.fls
	for _, en := range m.entries {
		if !en.live {
			continue
		}
		if en.val.P != nil && symOf(en.val) == nil {
			return Value{}, false
		}
		c := e.tt.Eq(t, e.term(en.key, kb))
		res = e.tt.Ite(c, e.term(en.val, ci.bi), res)
		found = e.tt.Or(found, c)
	}
	v := fromTerm(res, ci.bi)
	if ci.commaOk {
		return Value{P: []Value{v, boolVal(found)}}, true
	}
	return v, true
}

func (e *Engine) mapSet(m *MapObj, key, val Value, kt types.Type) {
	if m.frozen || (e.frozen && m.id <= e.frozenBelow) {
		e.sharedWrite(&Obj{name: "map"})
	}
	i := e.mapFind(m, key, kt)
	if i >= 0 {
		en := m.entries[i]
		old := en.val
		e.onUndo(func() { en.val = old })
		en.val = val
		return
	}
	en := &mapEntry{key: key, val: val, live: true}
	hk, conc := e.hkey(kt, key)
	idx := len(m.entries)
	m.entries = append(m.entries, en)
	m.live++
	if conc {
		m.index[hk] = idx
	} else {
		m.symKeys++
	}
	e.onUndo(func() {
		m.entries = m.entries[:idx]
		m.live--
		if conc {
			delete(m.index, hk)
		} else {
			m.symKeys--
		}
	})
}

func (e *Engine) mapDelete(m *MapObj, key Value, kt types.Type) {
	if e.frozen && m.id <= e.frozenBelow {
		e.sharedWrite(&Obj{name: "map"})
	}
	i := e.mapFind(m, key, kt)
	if i < 0 {
		return
	}
	en := m.entries[i]
	en.live = false
	m.live--
	hk, conc := e.hkey(kt, en.key)
	if conc {
		delete(m.index, hk)
	} else {
		m.symKeys--
	}
	e.onUndo(func() {
		en.live = true
		m.live++
		if conc {
			m.index[hk] = i
		} else {
			m.symKeys++
		}
	})
}

// ---- range ----

type mapIter struct {
	m     *MapObj
	order []int
	pos   int
	perm  bool
	done  map[int]bool
}

type strIter struct {
	v   Value
	pos int
}

func (e *Engine) rangeStart(v Value, t types.Type) Value {
	if basicOf(t).kind == 's' {
		return Value{P: &strIter{v: v}}
	}
	m, _ := v.P.(*MapObj)
	it := &mapIter{m: m}
	if m != nil {
		for i, en := range m.entries {
			if en.live {
				it.order = append(it.order, i)
			}
		}
		if e.mapOrder == "all" && !e.inInit && len(it.order) > 1 {
			if len(it.order) <= 5 {
				it.perm = true
				it.done = map[int]bool{}
			} else {
				// larger maps: insertion order and its reverse
				if e.choose(2) == 1 {
					for i, j := 0, len(it.order)-1; i < j; i, j = i+1, j-1 {
						it.order[i], it.order[j] = it.order[j], it.order[i]
					}
				}
				e.noteCnt["map of more than 5 entries ranged in insertion and reverse order only"]++
			}
			e.stats.MapOrders++
		}
	}
	return Value{P: it}
}

func (e *Engine) rangeNext(v Value, ci *cinstr) Value {
	switch it := v.P.(type) {
	case *strIter:
		n := strLen(it.v)
		if it.pos >= n {
			return Value{P: []Value{{}, {}, {}}}
		}
		p := it.pos
		var r Value
		var sz int
		if s, ok := strConc(it.v); ok {
			rr, k := utf8.DecodeRuneInString(s[p:])
			r, sz = Value{N: uint64(int64(rr))}, k
		} else {
			t, k := e.decodeRune(it.v.P.(SymStr)[p:])
			r, sz = fromTerm(t, i32), k
		}
		it.pos += sz
		e.onUndo(func() { it.pos = p })
		return Value{P: []Value{mkBool(true), mkInt(p), r}}
	case *mapIter:
		for it.pos < len(it.order) {
			k := it.order[it.pos]
			if it.perm {
				var cand []int
				for _, i := range it.order {
					if !it.done[i] && it.m.entries[i].live {
						cand = append(cand, i)
					}
				}
				if len(cand) == 0 {
					break
				}
				k = cand[e.choose(len(cand))]
				it.done[k] = true
				e.onUndo(func() { delete(it.done, k) })
			}
			p := it.pos
			it.pos++
			e.onUndo(func() { it.pos = p })
			en := it.m.entries[k]
			if !en.live {
				continue
			}
			return Value{P: []Value{mkBool(true), en.key, en.val}}
		}
		return Value{P: []Value{{}, {}, {}}}
	}
	panic(abort{"engine", "rangeNext"})
}

// ---- builtins ----

func (e *Engine) builtin(f *frame, ci *cinstr, args []Value) Value {
	switch ci.bltin {
	case "len":
		switch ci.typ.Underlying().(type) {
		case *types.Basic:
			return mkInt(strLen(args[0]))
		case *types.Slice:
			if s, _ := args[0].P.(*Slice); s != nil {
				return mkInt(s.len)
			}
			return Value{}
		case *types.Map:
			if m, _ := args[0].P.(*MapObj); m != nil {
				return mkInt(m.live)
			}
			return Value{}
		case *types.Array:
			return mkInt(int(ci.typ.Underlying().(*types.Array).Len()))
		case *types.Pointer:
			return mkInt(int(deref(ci.typ).Underlying().(*types.Array).Len()))
		}
	case "cap":
		switch ci.typ.Underlying().(type) {
		case *types.Slice:
			if s, _ := args[0].P.(*Slice); s != nil {
				return mkInt(s.cap)
			}
			return Value{}
		case *types.Array:
			return mkInt(int(ci.typ.Underlying().(*types.Array).Len()))
		case *types.Pointer:
			return mkInt(int(deref(ci.typ).Underlying().(*types.Array).Len()))
		}
	case "append":
		return e.doAppend(f, ci, args)
	case "copy":
		dst, _ := args[0].P.(*Slice)
		if dst == nil {
			return Value{}
		}
		if _, ok := args[1].P.(*Slice); !ok {
			// string source
			if args[1].P == nil {
				return Value{}
			}
			n := min(dst.len, strLen(args[1]))
			ts := args[1]
			for i := 0; i < n; i++ {
				e.setCell(dst.obj, dst.off+i, fromTerm(e.strByte(ts, i), u8))
			}
			return mkInt(n)
		}
		src := args[1].P.(*Slice)
		n := min(dst.len, src.len)
		tmp := make([]Value, n*ci.x)
		for i := range tmp {
			tmp[i] = src.obj.get(src.off + i)
		}
		for i := range tmp {
			e.setCell(dst.obj, dst.off+i, tmp[i])
		}
		return mkInt(n)
	case "delete":
		if m, _ := args[0].P.(*MapObj); m != nil {
			e.mapDelete(m, args[1], ci.typ.Underlying().(*types.Map).Key())
		}
		return Value{}
	case "clear":
		switch x := args[0].P.(type) {
		case *MapObj:
			for _, en := range append([]*mapEntry(nil), x.entries...) {
				if en.live {
					e.mapDelete(x, en.key, ci.typ.Underlying().(*types.Map).Key())
				}
			}
		case *Slice:
			for i := 0; i < x.len*ci.x; i++ {
				e.setCell(x.obj, x.off+i, Value{})
			}
		}
		return Value{}
	case "min", "max":
		r := args[0]
		bi := ci.bi
		for _, a := range args[1:] {
			var c Value
			sv := *ci
			sv.bi = bi
			c = e.binop(tokLess, a, r, &sv)
			if ci.bltin == "max" {
				c = e.binop(tokLess, r, a, &sv)
			}
			if c.P == nil {
				if c.N != 0 {
					r = a
				}
			} else if bi.kind == 'i' {
				r = fromTerm(e.tt.Ite(c.P.(*Term), e.term(a, bi), e.term(r, bi)), bi)
			} else if e.fork(c.P.(*Term)) {
				r = a
			}
		}
		return r
	case "print", "println":
		return Value{}
	case "recover":
		// the deferred function is the top frame, the frame below it is unwinding
		n := len(e.frames)
		if n >= 2 && e.frames[n-1].isDefer {
			p := e.frames[n-2].panicking
			if p != nil && !p.recovered {
				p.recovered = true
				e.onUndo(func() { p.recovered = false })
				return p.v
			}
		}
		return Value{}
	case "ssa:wrapnilchk":
		if args[0].P == nil {
			e.nilDeref()
		}
		return args[0]
	case "ssa:deferstack":
		return Value{}
	case "String": // unsafe.String
		n := int(e.concInt(args[1], i64))
		if n == 0 {
			return Value{}
		}
		return e.cellsToStr(args[0].P.(*Obj), int(args[0].N), n)
	case "StringData":
		if strLen(args[0]) == 0 {
			return Value{}
		}
		s := e.strToBytes(args[0]).P.(*Slice)
		return Value{P: s.obj}
	case "SliceData":
		if s, _ := args[0].P.(*Slice); s != nil {
			return Value{P: s.obj, N: uint64(s.off)}
		}
		return Value{}
	case "Slice": // unsafe.Slice
		n := int(e.concInt(args[1], i64))
		if args[0].P == nil {
			return Value{}
		}
		return Value{P: &Slice{obj: args[0].P.(*Obj), off: int(args[0].N), len: n, cap: n}}
	case "close":
		return Value{}
	}
	panic(abort{"unsupported", "builtin " + ci.bltin})
}

func (e *Engine) doAppend(f *frame, ci *cinstr, args []Value) Value {
	st := ci.x
	s, _ := args[0].P.(*Slice)
	var add []Value
	var n int
	switch x := args[1].P.(type) {
	case nil:
	case *Slice:
		n = x.len
		if n > 0 {
			add = make([]Value, n*st)
			for i := range add {
				add[i] = x.obj.get(x.off + i)
			}
		}
	default: // string
		n = strLen(args[1])
		add = make([]Value, n)
		if c, ok := strConc(args[1]); ok {
			for i := range add {
				add[i] = Value{N: uint64(c[i])}
			}
		} else {
			for i := range add {
				add[i] = fromTerm(e.strByte(args[1], i), u8)
			}
		}
	}
	if n == 0 {
		return args[0]
	}
	l, c := 0, 0
	if s != nil {
		l, c = s.len, s.cap
	}
	if l+n <= c {
		for i, v := range add {
			e.setCell(s.obj, s.off+l*st+i, v)
		}
		return Value{P: &Slice{obj: s.obj, off: s.off, len: l + n, cap: c}}
	}
	nc := 2 * c
	if nc < l+n {
		nc = l + n
	}
	if nc < 4 && st <= 4 {
		nc = max(nc, min(4, l+n))
	}
	if nc*st > 1<<26 {
		panic(abort{"unsupported", "huge slice"})
	}
	o := e.newObj(nc*st, "append")
	o.cells = make([]Value, (l+n)*st)
	for i := 0; i < l*st; i++ {
		o.cells[i] = s.obj.get(s.off + i)
	}
	copy(o.cells[l*st:], add)
	return Value{P: &Slice{obj: o, len: l + n, cap: nc}}
}
