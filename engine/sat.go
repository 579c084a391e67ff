package main

import "math/bits"

// A small bit-blaster and CDCL solver that answers most feasibility queries in-process. It only
// ever answers queries whose operators it supports and gives up after a conflict budget; those go
// to the SMT solver, and so does every property assertion.

type lit int32 // 2*v or 2*v+1 (negated)

func (l lit) neg() lit { return l ^ 1 }

const (
	litTrue  lit = 0
	litFalse lit = 1
)

type satClause struct {
	lits   []lit
	learnt bool
}

type satWatch struct {
	c     *satClause
	other lit
}

// CDCL is an incremental SAT solver with assumption literals.
type CDCL struct {
	val      []int8 // per variable: -1 false, 0 unassigned, 1 true
	level    []int32
	reason   []*satClause
	watches  [][]satWatch
	trail    []lit
	trailLim []int
	qhead    int
	phase    []bool
	act      []float64
	inc      float64
	seen     []bool
	clauses  int
	learnts  int
	ok       bool

	bitsOf map[int32][]lit
	gates  map[[3]int32]lit
	nterms int
	onSat  func()

	tt      *TermTable
	tabGate map[tabKey]lit
	limit   int // clauses at which to start afresh
	divs    map[int32][]divEnt
	divVars []divBits
}

func newSat(tt *TermTable) *CDCL {
	s := &CDCL{inc: 1, ok: true, tt: tt, tabGate: map[tabKey]lit{}, bitsOf: map[int32][]lit{}, gates: map[[3]int32]lit{}, divs: map[int32][]divEnt{}}
	v := s.newVar()
	if v != 0 {
		panic("sat")
	}
	s.val[0] = 1
	s.trail = append(s.trail, litTrue)
	s.qhead = 1
	return s
}

func (s *CDCL) newVar() lit {
	v := len(s.val)
	s.val = append(s.val, 0)
	s.level = append(s.level, 0)
	s.reason = append(s.reason, nil)
	s.watches = append(s.watches, nil, nil)
	s.phase = append(s.phase, false)
	s.act = append(s.act, 0)
	s.seen = append(s.seen, false)
	return lit(2 * v)
}

func (s *CDCL) value(l lit) int8 {
	v := s.val[l>>1]
	if l&1 == 1 {
		return -v
	}
	return v
}

// addClause adds a problem clause (at decision level 0).
func (s *CDCL) addClause(ls ...lit) {
	out := make([]lit, 0, len(ls))
	for _, l := range ls {
		switch s.value(l) {
		case 1:
			return
		case -1:
			continue
		}
		dup := false
		for _, o := range out {
			if o == l {
				dup = true
			}
			if o == l.neg() {
				return
			}
		}
		if !dup {
			out = append(out, l)
		}
	}
	switch len(out) {
	case 0:
		s.ok = false
	case 1:
		s.enqueue(out[0], nil)
		if s.propagate() != nil {
			s.ok = false
		}
	default:
		s.attach(&satClause{lits: out})
	}
}

func (s *CDCL) attach(c *satClause) {
	s.watches[c.lits[0].neg()] = append(s.watches[c.lits[0].neg()], satWatch{c, c.lits[1]})
	s.watches[c.lits[1].neg()] = append(s.watches[c.lits[1].neg()], satWatch{c, c.lits[0]})
	s.clauses++
}

func (s *CDCL) enqueue(l lit, r *satClause) {
	v := l >> 1
	if l&1 == 1 {
		s.val[v] = -1
	} else {
		s.val[v] = 1
	}
	s.level[v] = int32(len(s.trailLim))
	s.reason[v] = r
	s.trail = append(s.trail, l)
}

func (s *CDCL) propagate() *satClause {
	for s.qhead < len(s.trail) {
		p := s.trail[s.qhead]
		s.qhead++
		ws := s.watches[p]
		j := 0
		for i := 0; i < len(ws); i++ {
			w := ws[i]
			if s.value(w.other) == 1 {
				ws[j] = w
				j++
				continue
			}
			c := w.c
			np := p.neg()
			if c.lits[0] == np {
				c.lits[0], c.lits[1] = c.lits[1], c.lits[0]
			}
			first := c.lits[0]
			if first != w.other && s.value(first) == 1 {
				ws[j] = satWatch{c, first}
				j++
				continue
			}
			found := false
			for k := 2; k < len(c.lits); k++ {
				if s.value(c.lits[k]) != -1 {
					c.lits[1], c.lits[k] = c.lits[k], c.lits[1]
					n := c.lits[1].neg()
					s.watches[n] = append(s.watches[n], satWatch{c, first})
					found = true
					break
				}
			}
			if found {
				continue
			}
			ws[j] = satWatch{c, first}
			j++
			if s.value(first) == -1 {
				for i++; i < len(ws); i++ {
					ws[j] = ws[i]
					j++
				}
				s.watches[p] = ws[:j]
				s.qhead = len(s.trail)
				return c
			}
			s.enqueue(first, c)
		}
		s.watches[p] = ws[:j]
	}
	return nil
}

func (s *CDCL) cancel(lvl int) {
	if len(s.trailLim) <= lvl {
		return
	}
	n := s.trailLim[lvl]
	for i := len(s.trail) - 1; i >= n; i-- {
		v := s.trail[i] >> 1
		s.phase[v] = s.val[v] == 1
		s.val[v] = 0
		s.reason[v] = nil
	}
	s.trail = s.trail[:n]
	s.trailLim = s.trailLim[:lvl]
	s.qhead = n
}

func (s *CDCL) analyze(c *satClause) ([]lit, int) {
	learnt := []lit{0}
	cnt := 0
	idx := len(s.trail) - 1
	var p lit = -1
	cur := int32(len(s.trailLim))
	var toClear []lit
	for {
		for _, q := range c.lits {
			if q == p {
				continue
			}
			v := q >> 1
			if s.seen[v] || s.level[v] == 0 {
				continue
			}
			s.seen[v] = true
			toClear = append(toClear, v)
			s.act[v] += s.inc
			if s.level[v] == cur {
				cnt++
			} else {
				learnt = append(learnt, q)
			}
		}
		for !s.seen[s.trail[idx]>>1] {
			idx--
		}
		p = s.trail[idx]
		idx--
		c = s.reason[p>>1]
		cnt--
		if cnt == 0 {
			break
		}
	}
	learnt[0] = p.neg()
	for _, v := range toClear {
		s.seen[v] = false
	}
	bt := 0
	if len(learnt) > 1 {
		m := 1
		for i := 2; i < len(learnt); i++ {
			if s.level[learnt[i]>>1] > s.level[learnt[m]>>1] {
				m = i
			}
		}
		learnt[1], learnt[m] = learnt[m], learnt[1]
		bt = int(s.level[learnt[1]>>1])
	}
	s.inc *= 1.05
	if s.inc > 1e90 {
		for i := range s.act {
			s.act[i] *= 1e-90
		}
		s.inc *= 1e-90
	}
	return learnt, bt
}

// solve decides the clauses under assumptions, branching only on the given decision variables,
// which must determine every variable the assumptions depend on.
func (s *CDCL) solve(assume []lit, decide []lit, budget int) Result {
	if !s.ok {
		return Unsat
	}
	defer s.cancel(0)
	conflicts := 0
	for {
		if confl := s.propagate(); confl != nil {
			if len(s.trailLim) == 0 {
				s.ok = false
				return Unsat
			}
			conflicts++
			if conflicts > budget {
				return Unknown
			}
			learnt, bt := s.analyze(confl)
			s.cancel(bt)
			if len(learnt) == 1 {
				s.enqueue(learnt[0], nil)
			} else {
				c := &satClause{lits: learnt, learnt: true}
				s.attach(c)
				s.learnts++
				s.enqueue(learnt[0], c)
			}
			continue
		}
		if d := len(s.trailLim); d < len(assume) {
			a := assume[d]
			switch s.value(a) {
			case -1:
				return Unsat
			case 1:
				s.trailLim = append(s.trailLim, len(s.trail))
			default:
				s.trailLim = append(s.trailLim, len(s.trail))
				s.enqueue(a, nil)
			}
			continue
		}
		var best lit = -1
		for _, v := range decide {
			if s.val[v>>1] == 0 && (best < 0 || s.act[v>>1] > s.act[best>>1]) {
				best = v
			}
		}
		if best < 0 {
			if s.onSat != nil {
				s.onSat()
			}
			return Sat
		}
		if !s.phase[best>>1] {
			best = best.neg()
		}
		s.trailLim = append(s.trailLim, len(s.trail))
		s.enqueue(best, nil)
	}
}

// gates

func (s *CDCL) and(a, b lit) lit {
	if a == litFalse || b == litFalse || a == b.neg() {
		return litFalse
	}
	if a == litTrue || a == b {
		return b
	}
	if b == litTrue {
		return a
	}
	if a > b {
		a, b = b, a
	}
	k := [3]int32{int32(a), int32(b), 0}
	if g, ok := s.gates[k]; ok {
		return g
	}
	o := s.newVar()
	s.addClause(o.neg(), a)
	s.addClause(o.neg(), b)
	s.addClause(o, a.neg(), b.neg())
	s.gates[k] = o
	return o
}

func (s *CDCL) or(a, b lit) lit { return s.and(a.neg(), b.neg()).neg() }

func (s *CDCL) xor(a, b lit) lit {
	switch {
	case a == litFalse:
		return b
	case a == litTrue:
		return b.neg()
	case b == litFalse:
		return a
	case b == litTrue:
		return a.neg()
	case a == b:
		return litFalse
	case a == b.neg():
		return litTrue
	}
	flip := (a & 1) ^ (b & 1)
	a &^= 1
	b &^= 1
	if a > b {
		a, b = b, a
	}
	k := [3]int32{int32(a), int32(b), 1}
	g, ok := s.gates[k]
	if !ok {
		g = s.newVar()
		s.addClause(g.neg(), a, b)
		s.addClause(g.neg(), a.neg(), b.neg())
		s.addClause(g, a.neg(), b)
		s.addClause(g, a, b.neg())
		s.gates[k] = g
	}
	return g ^ flip
}

func (s *CDCL) ite(c, a, b lit) lit {
	if c == litTrue || a == b {
		return a
	}
	if c == litFalse {
		return b
	}
	if c&1 == 1 {
		c, a, b = c.neg(), b, a
	}
	switch {
	case a == litTrue:
		return s.or(c, b)
	case a == litFalse:
		return s.and(c.neg(), b)
	case b == litTrue:
		return s.or(c.neg(), a)
	case b == litFalse:
		return s.and(c, a)
	case a == b.neg():
		return s.xor(c, b)
	}
	k := [3]int32{int32(c), int32(a), int32(b) + 2}
	if g, ok := s.gates[k]; ok {
		return g
	}
	o := s.newVar()
	s.addClause(c.neg(), a.neg(), o)
	s.addClause(c.neg(), a, o.neg())
	s.addClause(c, b.neg(), o)
	s.addClause(c, b, o.neg())
	s.addClause(a.neg(), b.neg(), o)
	s.addClause(a, b, o.neg())
	s.gates[k] = o
	return o
}

func (s *CDCL) adder(a, b []lit, carry lit) []lit {
	out := make([]lit, len(a))
	for i := range a {
		x := s.xor(a[i], b[i])
		out[i] = s.xor(x, carry)
		if i+1 < len(a) {
			carry = s.or(s.and(a[i], b[i]), s.and(x, carry))
		}
	}
	return out
}

func negBits(a []lit) []lit {
	o := make([]lit, len(a))
	for i := range a {
		o[i] = a[i].neg()
	}
	return o
}

func constBits(v uint64, w int) []lit {
	o := make([]lit, w)
	for i := range o {
		o[i] = litFalse
		if v>>uint(i)&1 == 1 {
			o[i] = litTrue
		}
	}
	return o
}

func (s *CDCL) ult(a, b []lit) lit {
	r := litFalse
	for i := range a {
		r = s.ite(s.xor(a[i], b[i]), b[i], r)
	}
	return r
}

func (s *CDCL) eq(a, b []lit) lit {
	r := litTrue
	for i := range a {
		r = s.and(r, s.xor(a[i], b[i]).neg())
	}
	return r
}

// blast returns the bits of t, least significant first (one literal for a Boolean), or nil when an
// operator is not supported.
func (s *CDCL) blast(t *Term) []lit {
	if t.op == OConst {
		w := int(t.w)
		if w == 0 {
			w = 1
		}
		return constBits(t.val, w)
	}
	if b, ok := s.bitsOf[t.id]; ok {
		return b
	}
	var b []lit
	if t.op != OVar && t.sup > 0 && t.dep <= 400 {
		if tab := s.tt.table(t); tab != nil {
			b = s.fromTable(tab, s.blast(s.tt.byID[t.sup]), t.w)
		}
	}
	if b == nil {
		b = s.blast1(t)
	}
	s.bitsOf[t.id] = b
	s.nterms++
	return b
}

// fromTable encodes a function of one byte as a multiplexer tree with shared subtrees.
func (s *CDCL) fromTable(tab *[256]uint64, v []lit, w uint8) []lit {
	n := int(w)
	if n == 0 {
		n = 1
	}
	type key [4]uint64
	out := make([]lit, n)
	for bit := range out {
		var k key
		for i, x := range tab {
			k[i>>6] |= (x >> uint(bit) & 1) << uint(i&63)
		}
		if g, ok := s.tabGate[tabKey{v[0], k}]; ok {
			out[bit] = g
			continue
		}
		var rec func(lo, lv int) lit
		memo := map[string]lit{}
		rec = func(lo, lv int) lit {
			size := 1 << uint(lv)
			h := make([]byte, size)
			first, same := tab[lo]>>uint(bit)&1, true
			for i := 0; i < size; i++ {
				x := tab[lo+i] >> uint(bit) & 1
				h[i] = byte(x)
				same = same && x == first
			}
			if same {
				if first == 1 {
					return litTrue
				}
				return litFalse
			}
			if g, ok := memo[string(h)]; ok {
				return g
			}
			g := s.ite(v[lv-1], rec(lo+size/2, lv-1), rec(lo, lv-1))
			memo[string(h)] = g
			return g
		}
		out[bit] = rec(0, 8)
		s.tabGate[tabKey{v[0], k}] = out[bit]
	}
	return out
}

type tabKey struct {
	v lit
	k [4]uint64
}

func (s *CDCL) blast1(t *Term) []lit {
	if t.op == OVar {
		w := int(t.w)
		if w == 0 {
			w = 1
		}
		o := make([]lit, w)
		for i := range o {
			o[i] = s.newVar()
		}
		return o
	}
	a := s.blast(t.a)
	if a == nil {
		return nil
	}
	var b, c []lit
	if t.b != nil {
		if b = s.blast(t.b); b == nil {
			return nil
		}
	}
	if t.c != nil {
		if c = s.blast(t.c); c == nil {
			return nil
		}
	}
	w := int(t.w)
	bitwise := func(f func(a, b lit) lit) []lit {
		o := make([]lit, len(a))
		for i := range o {
			o[i] = f(a[i], b[i])
		}
		return o
	}
	switch t.op {
	case OAdd:
		return s.adder(a, b, litFalse)
	case OSub:
		return s.adder(a, negBits(b), litTrue)
	case OMul:
		if t.b.op != OConst && effBits(a)*effBits(b) > 200 {
			return nil
		}
		if t.b.op == OConst {
			n := 0
			for _, l := range b {
				if l == litTrue {
					n++
				}
			}
			if n*effBits(a) > 400 {
				return nil
			}
		}
		return s.mul(a, b)
	case OAnd:
		return bitwise(s.and)
	case OOr:
		return bitwise(s.or)
	case OXor:
		return bitwise(s.xor)
	case OShl, OLshr, OAshr:
		fill := litFalse
		if t.op == OAshr {
			fill = a[w-1]
		}
		cur := a
		big := litFalse
		for i := 0; i < w; i++ {
			if b[i] == litFalse {
				continue
			}
			if i >= 7 || 1<<uint(i) >= w {
				big = s.or(big, b[i])
				continue
			}
			d := 1 << uint(i)
			nx := make([]lit, w)
			for j := range nx {
				src := fill
				if t.op == OShl {
					src = litFalse
					if j-d >= 0 {
						src = cur[j-d]
					}
				} else if j+d < w {
					src = cur[j+d]
				}
				nx[j] = s.ite(b[i], src, cur[j])
			}
			cur = nx
		}
		if big != litFalse {
			nx := make([]lit, w)
			for j := range nx {
				nx[j] = s.ite(big, fill, cur[j])
			}
			cur = nx
		}
		return cur
	case OUdiv, OUrem:
		// restoring division, only for few effective bits
		n := effBits(a)
		if t.b.op != OConst || t.b.val == 0 {
			return nil
		}
		if n > 20 {
			q, r := s.wideDiv(t.a, a[:n], t.b.val)
			if t.op == OUrem {
				q = r
			}
			return append(append([]lit(nil), q...), constBits(0, w-len(q))...)
		}
		q := constBits(0, w)
		r := constBits(0, w)
		nb := negBits(b)
		for i := n - 1; i >= 0; i-- {
			r = append([]lit{a[i]}, r[:w-1]...)
			ge := s.ult(r, b).neg()
			sub := s.adder(r, nb, litTrue)
			nr := make([]lit, w)
			for j := range nr {
				nr[j] = s.ite(ge, sub[j], r[j])
			}
			r = nr
			q[i] = ge
		}
		if t.op == OUdiv {
			return q
		}
		return r
	case OZext:
		o := constBits(0, w)
		copy(o, a)
		return o
	case OSext:
		o := make([]lit, w)
		copy(o, a)
		for i := len(a); i < w; i++ {
			o[i] = a[len(a)-1]
		}
		return o
	case OExtract:
		return a[t.val : int(t.val)+w]
	case OConcat:
		return append(append([]lit(nil), b...), a...)
	case OIte:
		o := make([]lit, len(b))
		for i := range o {
			o[i] = s.ite(a[0], b[i], c[i])
		}
		return o
	case OEq:
		return []lit{s.eq(a, b)}
	case OUlt:
		return []lit{s.ult(a, b)}
	case OUle:
		return []lit{s.ult(b, a).neg()}
	case OSlt, OSle:
		x, y := append([]lit(nil), a...), append([]lit(nil), b...)
		n := len(x) - 1
		x[n], y[n] = x[n].neg(), y[n].neg()
		if t.op == OSlt {
			return []lit{s.ult(x, y)}
		}
		return []lit{s.ult(y, x).neg()}
	case OBNot:
		return []lit{a[0].neg()}
	case OBAnd:
		return []lit{s.and(a[0], b[0])}
	case OBOr:
		return []lit{s.or(a[0], b[0])}
	}
	return nil
}

func (s *CDCL) mul(a, b []lit) []lit {
	w := len(a)
	acc := constBits(0, w)
	for i := 0; i < w; i++ {
		if b[i] == litFalse {
			continue
		}
		row := constBits(0, w)
		for j := 0; i+j < w; j++ {
			row[i+j] = s.and(a[j], b[i])
		}
		acc = s.adder(acc, row, litFalse)
	}
	return acc
}

// smallDiv is restoring division by a constant of few bits.
func (s *CDCL) smallDiv(a []lit, d uint64) (q, r []lit) {
	k := bits.Len64(d)
	b := constBits(d, k+1)
	nb := negBits(b)
	q = constBits(0, len(a))
	r = constBits(0, k+1)
	for i := len(a) - 1; i >= 0; i-- {
		r = append([]lit{a[i]}, r[:k]...)
		ge := s.ult(r, b).neg()
		sub := s.adder(r, nb, litTrue)
		nr := make([]lit, len(r))
		for j := range nr {
			nr[j] = s.ite(ge, sub[j], r[j])
		}
		r = nr
		q[i] = ge
	}
	return q, r[:k]
}

type divBits struct {
	t  *Term
	ls []lit
}

type divEnt struct {
	d    uint64
	q, r []lit
}

func (s *CDCL) same(a, b []lit) {
	for i := 0; i < len(a) || i < len(b); i++ {
		x, y := litFalse, litFalse
		if i < len(a) {
			x = a[i]
		}
		if i < len(b) {
			y = b[i]
		}
		s.addClause(x, y.neg())
		s.addClause(x.neg(), y)
	}
}

// viaDiv: quotient and remainder by d from those by the multiple D of d.
func (s *CDCL) viaDiv(D divEnt, d uint64) (q, r []lit) {
	sq, r := s.smallDiv(D.r, d)
	w := len(D.q) + bits.Len64(D.d/d)
	pad := func(a []lit) []lit {
		if len(a) > w {
			return a[:w]
		}
		return append(append([]lit(nil), a...), constBits(0, w-len(a))...)
	}
	q = s.adder(s.mul(pad(D.q), constBits(D.d/d, w)), pad(sq), litFalse)
	return q, r
}

// wideDiv encodes a wide division by its definition a = q*d + r, r < d. The divisions of one
// dividend are linked to each other.
func (s *CDCL) wideDiv(t *Term, a []lit, d uint64) (q, r []lit) {
	n := len(a)
	for _, e := range s.divs[t.id] {
		if e.d == d {
			return e.q, e.r
		}
	}
	k := bits.Len64(d)
	var ent divEnt
	for _, e := range s.divs[t.id] {
		if e.d%d == 0 && len(e.r) <= 24 {
			q, r := s.viaDiv(e, d)
			if len(q) > n {
				q = q[:n]
			}
			ent = divEnt{d, q, r}
			break
		}
	}
	if ent.q == nil {
		w := n + 1
		for i := 0; i < n; i++ {
			if i+k <= n+1 {
				q = append(q, s.newVar())
			} else {
				q = append(q, litFalse)
			}
		}
		for i := 0; i < k; i++ {
			r = append(r, s.newVar())
		}
		s.addClause(s.ult(r, constBits(d, k)))
		pad := func(a []lit) []lit {
			return append(append([]lit(nil), a...), constBits(0, w-len(a))...)
		}
		if len(r) > w {
			panic(abort{"unsupported", "division"})
		}
		// q <= max/d keeps the product from overflowing
		lim := constBits(mask(uint8(n))/d, n)
		s.addClause(s.ult(lim, q).neg())
		p := s.adder(s.mul(pad(q), constBits(d, w)), pad(r), litFalse)
		s.same(p, a)
		s.divVars = append(s.divVars, divBits{t, append(append([]lit(nil), q...), r...)})
		ent = divEnt{d, q, r}
		for _, e := range s.divs[t.id] {
			if d%e.d == 0 && k <= 24 {
				q2, r2 := s.viaDiv(ent, e.d)
				s.same(q2, e.q)
				s.same(r2, e.r)
			}
		}
	}
	s.divs[t.id] = append(s.divs[t.id], ent)
	return ent.q, ent.r
}

func effBits(a []lit) int {
	n := len(a)
	for n > 0 && a[n-1] == litFalse {
		n--
	}
	return n
}

// check decides the conjunction of pc and extra; vars are all their variables.
func (s *CDCL) check(pc []*Term, extra *Term, vars []*Term, budget int) (Result, Model) {
	var as []lit
	for i := 0; i <= len(pc); i++ {
		t := extra
		if i < len(pc) {
			t = pc[i]
		}
		if t == nil {
			continue
		}
		b := s.blast(t)
		if b == nil {
			return Unknown, nil
		}
		as = append(as, b[0])
	}
	if s.limit == 0 {
		s.limit = 10000 + 3*s.clauses
	}
	var dec []lit
	if len(s.divVars) > 0 {
		in := map[*Term]bool{}
		for _, v := range vars {
			in[v] = true
		}
		for _, d := range s.divVars {
			ok := true
			for _, v := range termVars(d.t) {
				ok = ok && in[v]
			}
			if ok {
				for _, l := range d.ls {
					if l > litFalse {
						dec = append(dec, l)
					}
				}
			}
		}
	}
	for _, v := range vars {
		dec = append(dec, s.blast(v)...)
	}
	var m Model
	// the model has to be read before the trail is undone
	r := s.solveModel(as, dec, budget, func() {
		m = Model{}
		for _, v := range vars {
			var x uint64
			for i, l := range s.bitsOf[v.id] {
				if s.value(l) == 1 {
					x |= 1 << uint(i)
				}
			}
			m[v] = x
		}
	})
	return r, m
}

func (s *CDCL) solveModel(as, dec []lit, budget int, onSat func()) Result {
	s.onSat = onSat
	r := s.solve(as, dec, budget)
	s.onSat = nil
	return r
}
