package main

import (
	"fmt"
	"go/types"
	"math/rand"
	"os"
	"runtime/debug"
	"strings"
	"time"

	"golang.org/x/tools/go/ssa"
)

type abort struct{ kind, msg string }

type goPanic struct{ v Value }

type mergeAbort struct{ why string }

type panicRec struct {
	v         Value
	recovered bool
	goexit    bool
	where     string
	trace     []string
}

type deferred struct {
	fn   Value // closure
	intr intrinsic
	ci   *cinstr
	args []Value
}

type frame struct {
	fn         *cfunc
	regs       []Value
	blk, pc    int
	prev       int
	defers     []deferred
	shared     bool
	retDst     int32
	panicking  *panicRec
	recovering bool
	isDefer    bool // called by RunDefers / unwinding of the frame below
	initPkg    string
}

type logEnt struct {
	val   uint64
	taken bool
}

type choice struct {
	frames  []*frame
	pcLen   int
	trail   int
	log     []logEnt
	alt     logEnt
	altCond *Term // appended to pc
	model   Model
	steps   int64
	inputs  int
	reach   int
	ptrail  []*panicRec
}

type trailEnt struct {
	obj *Obj
	idx int
	old Value
	fn  func()
}

type input struct {
	name string
	t    *Term
	conc uint64
	w    uint8
}

// Violation is a candidate counterexample.
type Violation struct {
	Kind   string            `json:"kind"` // assert, panic, hang, alloc
	Msg    string            `json:"msg"`
	Inputs map[string]uint64 `json:"inputs"`
	Where  string            `json:"where"`
	Trace  []string          `json:"trace,omitempty"`
}

// JobStats is what one job explored.
type JobStats struct {
	Paths, Completed, Assumed int
	Aborted                   map[string]int
	Steps                     int64
	Forks                     int
	Merges                    int
	Asserts, AssertsConcrete  int
	Reached                   map[string]int
	Exhausted                 bool // the whole tree within the bounds was explored
	MapOrders                 int
}

// Engine executes one job at a time.
type Engine struct {
	w       *World
	tt      *TermTable
	sol     *Solver
	sat     *CDCL
	noSat   bool
	lia     *liaSolver
	ver     *verifier
	inCheck bool
	glob    []*Obj

	frames  []*frame
	pc      []*Term
	model   Model
	choices []*choice
	trail   []trailEnt
	inputs  []input
	log     []logEnt
	logPos  int
	steps   int64
	dom     map[int32]*[4]uint64
	ent     map[int32]int

	merging     int
	mergeG      *Term
	mergeOwn    map[*Obj]*Term
	nextID      int64
	stats       *JobStats
	maxSteps    int64
	deadline    time.Time
	viols       []Violation
	seenViol    map[string]bool
	maxViol     int
	funcsHit    map[*cfunc]bool
	params      map[string]int64
	frozen      bool
	noMerge     bool
	mapOrder    string // "insertion" or "all"
	hangIsBug   bool
	allocMax    int64
	inInit      bool
	initWarn    []string
	mfail       map[*cinstr]int
	fresh       int
	trace       bool
	curIn       *cinstr
	mergeInstr  int
	depthMax    int
	pathNote    string
	stop        bool
	randState   uint64
	floatMode   string
	ndCounts    map[string]int
	objSeq      int64
	initDone    map[string]bool
	noteCnt     map[string]int
	mergeDepth  int
	initTrail   int
	frozenBelow int64
	obs         []obsEnt
	violRec     *panicRec
	runeSrc     map[*Term][]*Term
	samples     []Sample
	maxSamples  int
	pathSampled int
	lost        []map[string]uint64 // inputs of paths that were given up
	lostEnd     time.Time
	lostRand    *rand.Rand
}

type obsEnt struct {
	v   Value
	str bool
}

// Sample is one explored path with the results the engine predicts for it.
type Sample struct {
	Inputs map[string]uint64 `json:"inputs"`
	Status string            `json:"-"`
	Obs    []string          `json:"-"`
}

func (e *Engine) inputValues(m Model) map[string]uint64 {
	in := map[string]uint64{}
	for _, x := range e.inputs {
		if x.t != nil {
			in[x.name] = e.tt.Eval(x.t, m)
		} else if x.name != "" {
			in[x.name] = x.conc
		}
	}
	return in
}

// sample records the finished path for the comparison with the real code.
func (e *Engine) sample() {
	// spread the samples: the first ones, then ever more rarely
	n := e.stats.Completed
	if len(e.samples) >= e.maxSamples || (n > 8 && n&(n-1) != 0 && n%97 != 0) {
		return
	}
	s := Sample{Inputs: e.inputValues(e.model)}
	for _, o := range e.obs {
		if o.str {
			var b []byte
			if c, ok := strConc(o.v); ok {
				b = []byte(c)
			} else {
				for _, t := range e.strTerms(o.v) {
					b = append(b, byte(e.tt.Eval(t, e.model)))
				}
			}
			s.Obs = append(s.Obs, fmt.Sprintf("%q", string(b)))
		} else if t := symOf(o.v); t != nil {
			s.Obs = append(s.Obs, fmt.Sprint(sx(e.tt.Eval(t, e.model), t.w)))
		} else {
			s.Obs = append(s.Obs, fmt.Sprint(int64(o.v.N)))
		}
	}
	e.samples = append(e.samples, s)
}

func NewEngine(w *World) *Engine {
	tt := NewTermTable()
	e := &Engine{runeSrc: map[*Term][]*Term{}, seenViol: map[string]bool{}, maxViol: 3, maxSteps: 5_000_000, maxSamples: 12, params: map[string]int64{}, w: w, tt: tt, sol: NewSolver(tt), dom: map[int32]*[4]uint64{}, ent: map[int32]int{}, funcsHit: map[*cfunc]bool{},
		mfail: map[*cinstr]int{}, initDone: map[string]bool{}, noteCnt: map[string]int{}}
	e.model = Model{}
	e.stats = &JobStats{Aborted: map[string]int{}, Reached: map[string]int{}}
	return e
}

func (e *Engine) newObj(n int, name string) *Obj {
	e.nextID++
	return &Obj{size: n, id: e.nextID, name: name}
}

func (e *Engine) global(i int32) *Obj {
	for int(i) >= len(e.glob) {
		e.w.gmu.Lock()
		for k := len(e.glob); k < len(e.w.glist); k++ {
			g := e.w.glist[k]
			e.w.gmu.Unlock()
			n := e.w.slots(deref(g.Type()))
			e.w.gmu.Lock()
			e.nextID++
			e.glob = append(e.glob, &Obj{size: n, id: -int64(k) - 1, name: g.String()})
		}
		e.w.gmu.Unlock()
	}
	return e.glob[i]
}

func (e *Engine) val(fr *frame, o *opnd) Value {
	switch o.kind {
	case kReg:
		return fr.regs[o.idx]
	case kConst:
		return o.v
	case kGlobal:
		return Value{P: e.global(o.idx)}
	}
	return Value{}
}

// ---- heap writes ----

func (e *Engine) setCell(o *Obj, i int, v Value) {
	if o.frozen || (e.frozen && e.isShared(o)) {
		e.sharedWrite(o)
	}
	if i >= len(o.cells) {
		if i >= o.size {
			panic(abort{"engine", fmt.Sprintf("store outside object %s %d/%d", o.name, i, o.size)})
		}
		n := len(o.cells)*2 + 8
		if n <= i {
			n = i + 8
		}
		if n > o.size {
			n = o.size
		}
		c := make([]Value, n)
		copy(c, o.cells)
		o.cells = c
	}
	if len(e.choices) > 0 || e.merging > 0 {
		e.trail = append(e.trail, trailEnt{obj: o, idx: i, old: o.cells[i]})
	}
	o.cells[i] = v
}

func (e *Engine) onUndo(fn func()) {
	if len(e.choices) > 0 || e.merging > 0 {
		e.trail = append(e.trail, trailEnt{fn: fn})
	}
}

func (e *Engine) undoTo(n int) {
	for len(e.trail) > n {
		t := &e.trail[len(e.trail)-1]
		if t.fn != nil {
			t.fn()
		} else {
			t.obj.cells[t.idx] = t.old
		}
		*t = trailEnt{}
		e.trail = e.trail[:len(e.trail)-1]
	}
}

func (e *Engine) isShared(o *Obj) bool { return o.id <= e.frozenBelow }

func (e *Engine) sharedWrite(o *Obj) {
	if e.merging > 0 {
		panic(mergeAbort{"shared write"})
	}
	// repeated reports for the same place are folded by the caller
	e.violation("sharedwrite", "write to memory shared between goroutines: "+o.name, nil)
	panic(abort{"violation", "shared write"})
}

func (e *Engine) load(p Value, n int, agg bool) Value {
	switch o := p.P.(type) {
	case *Obj:
		off := int(p.N)
		if !agg {
			return o.get(off)
		}
		out := make([]Value, n)
		for i := range out {
			out[i] = o.get(off + i)
		}
		return Value{P: out}
	case *SymPtr:
		if agg {
			return e.load(e.concPtr(o), n, agg)
		}
		return e.symLoad(o)
	case nil:
		e.nilDeref()
	}
	panic(abort{"unsupported", fmt.Sprintf("load through %T", p.P)})
}

func (e *Engine) nilDeref() {
	e.rtPanic("invalid memory address or nil pointer dereference")
}

func (e *Engine) rtPanic(msg string) {
	if e.merging > 0 {
		panic(mergeAbort{"runtime panic: " + msg})
	}
	panic(goPanic{Value{P: &Iface{t: e.w.rtErr, v: mkStr(msg)}}})
}

func (e *Engine) concPtr(p *SymPtr) Value {
	i := e.concretize(p.idx)
	return Value{P: p.obj, N: uint64(p.base + int(i)*p.stride)}
}

// symLoad reads obj[base+idx*stride] as an ite over the candidates.
func (e *Engine) symLoad(p *SymPtr) Value {
	// all candidates must be scalars
	n := p.n
	ub := e.tt.ub(p.idx)
	if ub < uint64(n-1) {
		n = int(ub) + 1
	}
	if n > 4096 {
		return e.load(e.concPtr(p), 1, false)
	}
	var w uint8
	haveW := false
	vals := make([]Value, n)
	for i := 0; i < n; i++ {
		v := p.obj.get(p.base + i*p.stride)
		vals[i] = v
		switch t := v.P.(type) {
		case nil:
		case *Term:
			w = t.w
			haveW = true
		default:
			return e.load(e.concPtr(p), 1, false)
		}
	}
	_ = haveW
	if !haveW {
		// width from the instruction being executed
		if e.curIn != nil && (e.curIn.bi.kind == 'i' || e.curIn.bi.kind == 'b') {
			w = e.curIn.bi.w
		} else {
			return e.load(e.concPtr(p), 1, false)
		}
	}
	bi := e.curIn.bi
	// group equal neighbours, build a balanced tree of comparisons
	type run struct {
		lo int
		t  *Term
	}
	var runs []run
	// a table of few consecutive stretches (digits): the index plus a constant
	var starts []int
	for i, v := range vals {
		if w < 8 || w > p.idx.w || v.P != nil || n < 4 {
			starts = nil
			break
		}
		if i == 0 || v.N&mask(w) != (vals[i-1].N+1)&mask(w) {
			starts = append(starts, i)
			if len(starts) > 3 {
				starts = nil
				break
			}
		}
	}
	if len(starts) > 0 && len(starts)*3 <= n {
		x := e.tt.Extract(p.idx, 0, w)
		var t *Term
		for j := len(starts) - 1; j >= 0; j-- {
			i := starts[j]
			y := e.tt.bin(OAdd, x, e.tt.Const((vals[i].N-uint64(i))&mask(w), w))
			if t == nil {
				t = y
			} else {
				t = e.tt.Ite(e.tt.bin(OUlt, p.idx, e.tt.Const(uint64(starts[j+1]), p.idx.w)), y, t)
			}
		}
		return fromTerm(t, bi)
	}
	for i, v := range vals {
		t := symOf(v)
		if t == nil {
			t = e.tt.Const(v.N, w)
		}
		if len(runs) == 0 || runs[len(runs)-1].t != t {
			runs = append(runs, run{i, t})
		}
	}
	var build func(a, b int) *Term
	build = func(a, b int) *Term {
		if b-a == 1 {
			return runs[a].t
		}
		m := (a + b) / 2
		c := e.tt.bin(OUlt, p.idx, e.tt.Const(uint64(runs[m].lo), p.idx.w))
		return e.tt.Ite(c, build(a, m), build(m, b))
	}
	t := build(0, len(runs))
	if w == 0 {
		return boolVal(t)
	}
	return fromTerm(t, bi)
}

func (e *Engine) store(p Value, v Value, n int, agg bool) {
	switch o := p.P.(type) {
	case *Obj:
		off := int(p.N)
		if !agg {
			e.setCell(o, off, v)
			return
		}
		if v.P == nil {
			for i := 0; i < n; i++ {
				if off+i < len(o.cells) {
					e.setCell(o, off+i, Value{})
				}
			}
			return
		}
		src := v.P.([]Value)
		for i := 0; i < n; i++ {
			e.setCell(o, off+i, src[i])
		}
		return
	case *SymPtr:
		if !agg && o.n <= 256 && e.curIn != nil && (e.curIn.bi.kind == 'i' || e.curIn.bi.kind == 'b') {
			ok := true
			for i := 0; i < o.n && ok; i++ {
				c := o.obj.get(o.base + i*o.stride)
				if c.P != nil && symOf(c) == nil {
					ok = false
				}
			}
			if ok {
				bi := e.curIn.bi
				nv := e.term(v, bi)
				for i := 0; i < o.n; i++ {
					k := o.base + i*o.stride
					old := e.term(o.obj.get(k), bi)
					c := e.tt.Eq(o.idx, e.tt.Const(uint64(i), o.idx.w))
					e.setCell(o.obj, k, fromTerm(e.tt.Ite(c, nv, old), bi))
				}
				return
			}
		}
		e.store(e.concPtr(o), v, n, agg)
		return
	case nil:
		e.nilDeref()
	}
	panic(abort{"unsupported", fmt.Sprintf("store through %T", p.P)})
}

// ---- path conditions ----

func ttBits(tab *[256]uint64) *[4]uint64 {
	var b [4]uint64
	for i, v := range tab {
		if v != 0 {
			b[i>>6] |= 1 << (i & 63)
		}
	}
	return &b
}

func (e *Engine) addPC(c *Term) {
	if c.op == OConst {
		return
	}
	if c.op == OBAnd {
		e.addPC(c.a)
		e.addPC(c.b)
		return
	}
	e.pc = append(e.pc, c)
	if c.sup > 0 {
		if tab := e.tt.table(c); tab != nil {
			nb := ttBits(tab)
			old := e.dom[c.sup]
			if old != nil {
				for i := range nb {
					nb[i] &= old[i]
				}
			}
			id := c.sup
			e.dom[id] = nb
			e.onUndo(func() {
				if old == nil {
					delete(e.dom, id)
				} else {
					e.dom[id] = old
				}
			})
			return
		}
		id := c.sup
		e.ent[id]++
		e.onUndo(func() { e.ent[id]-- })
		return
	}
	for _, v := range termVars(c) {
		id := v.id
		e.ent[id]++
		e.onUndo(func() { e.ent[id]-- })
	}
}

func (e *Engine) pcVars(extra *Term) []*Term {
	seen := map[*Term]bool{}
	var out []*Term
	for _, c := range e.pc {
		for _, v := range termVars(c) {
			if !seen[v] {
				seen[v] = true
				out = append(out, v)
			}
		}
	}
	if extra != nil {
		for _, v := range termVars(extra) {
			if !seen[v] {
				seen[v] = true
				out = append(out, v)
			}
		}
	}
	return out
}

// relevant returns the conjuncts of pc connected to extra through shared variables.
func (e *Engine) relevant(extra *Term) []*Term {
	if len(e.pc) <= 4 {
		return e.pc
	}
	vs := map[*Term]bool{}
	for _, v := range termVars(extra) {
		vs[v] = true
	}
	used := make([]bool, len(e.pc))
	for ch := true; ch; {
		ch = false
		for i, c := range e.pc {
			if used[i] {
				continue
			}
			hit := false
			for _, v := range termVars(c) {
				if vs[v] {
					hit = true
					break
				}
			}
			if hit {
				used[i] = true
				for _, v := range termVars(c) {
					if !vs[v] {
						vs[v] = true
						ch = true
					}
				}
			}
		}
	}
	var out []*Term
	for i, c := range e.pc {
		if used[i] {
			out = append(out, c)
		}
	}
	return out
}

// feasible decides pc ∧ c; a model is returned when satisfiable.
func (e *Engine) feasible(c *Term) (Result, Model) {
	if c.op == OConst {
		if c.val != 0 {
			return Sat, e.model
		}
		return Unsat, nil
	}
	if e.tt.Eval(c, e.model) != 0 {
		e.sol.Stats.ByModel++
		return Sat, e.model
	}
	if c.sup > 0 {
		if tab := e.tt.table(c); tab != nil {
			d := e.dom[c.sup]
			pick := -1
			for i := 0; i < 256; i++ {
				if tab[i] != 0 && (d == nil || d[i>>6]>>(i&63)&1 == 1) {
					pick = i
					break
				}
			}
			if pick < 0 {
				e.sol.Stats.ByTable++
				return Unsat, nil
			}
			if e.ent[c.sup] == 0 {
				e.sol.Stats.ByTable++
				m := make(Model, len(e.model)+1)
				for k, v := range e.model {
					m[k] = v
				}
				m[e.tt.varByIDFast(c.sup)] = uint64(pick)
				return Sat, m
			}
			if m := e.tryByte(c.sup, tab, d); m != nil {
				e.sol.Stats.ByModel++
				return Sat, m
			}
		}
	}
	return e.query(c, false)
}

// tryByte looks for a model differing from the current one in a single byte.
func (e *Engine) tryByte(id int32, tab *[256]uint64, d *[4]uint64) Model {
	v := e.tt.varByIDFast(id)
	var rel []*Term
	for _, c := range e.pc {
		if c.sup == id {
			continue // in the domain
		}
		for _, x := range termVars(c) {
			if x.id == id {
				rel = append(rel, c)
				break
			}
		}
	}
	m := make(Model, len(e.model)+1)
	for k, x := range e.model {
		m[k] = x
	}
	tried := 0
	for i := 0; i < 256 && tried < 12; i++ {
		if tab[i] == 0 || d != nil && d[i>>6]>>(i&63)&1 == 0 {
			continue
		}
		tried++
		m[v] = uint64(i)
		ok := true
		for _, c := range rel {
			if e.tt.Eval(c, m) == 0 {
				ok = false
				break
			}
		}
		if ok {
			return m
		}
	}
	return nil
}

func (e *Engine) query(c *Term, isAssert bool) (Result, Model) {
	rel := e.relevant(c)
	seen := map[*Term]bool{}
	var vars []*Term
	for _, x := range rel {
		for _, v := range termVars(x) {
			if !seen[v] {
				seen[v] = true
				vars = append(vars, v)
			}
		}
	}
	for _, v := range termVars(c) {
		if !seen[v] {
			seen[v] = true
			vars = append(vars, v)
		}
	}
	var r Result
	var m Model
	if e.lia != nil {
		t0 := time.Now()
		r, m = e.lia.Check(rel, c, vars)
		if d := time.Since(t0); (r == Unknown || d > 500*time.Millisecond) && os.Getenv("VE_SLOW") != "" {
			fmt.Fprintln(os.Stderr, "LIA", d, r, isAssert, "pc", len(rel))
			for _, x := range append(append([]*Term(nil), rel...), c) {
				fmt.Fprintf(os.Stderr, "   %t %.300s\n", e.lia.cond(x) != "", x.String())
			}
		}
	}
	if r == Unknown && !e.noSat {
		if e.sat == nil || e.sat.limit > 0 && e.sat.clauses > e.sat.limit {
			e.sat = newSat(e.tt)
		}
		t0 := time.Now()
		budget := 300
		if isAssert {
			budget = 1500
		}
		r, m = e.sat.check(rel, c, vars, budget)
		e.sol.Stats.SatTime += time.Since(t0)
		if r != Unknown {
			e.sol.Stats.BySat++
		}
		if r == Unsat && (isAssert || e.inCheck) {
			if e.ver == nil {
				e.ver = newVerifier(e.tt)
			}
			e.ver.add(rel, c)
		}
	}
	if r == Unknown {
		t0 := time.Now()
		r, m = e.sol.Check(rel, c, vars)
		if d := time.Since(t0); d > 500*time.Millisecond && os.Getenv("VE_SLOW") != "" {
			fmt.Fprintln(os.Stderr, "SLOW", d, r, isAssert, "pc", len(rel))
			for _, x := range append(append([]*Term(nil), rel...), c) {
				fmt.Fprintln(os.Stderr, "   ", x.String())
			}
		}
	}
	if r == Unknown {
		r, m = e.sol.OneShot(rel, c, 40*time.Second)
	}
	if r == Sat {
		full := make(Model, len(e.model)+len(m))
		for k, v := range e.model {
			full[k] = v
		}
		for k, v := range m {
			full[k] = v
		}
		// cross-check the model against the terms
		ok := e.tt.Eval(c, full) != 0
		for _, x := range rel {
			if !ok {
				break
			}
			ok = e.tt.Eval(x, full) != 0
		}
		if !ok {
			e.noteCnt["solver model does not satisfy the terms"]++
			return Unknown, nil
		}
		m = full
	}
	return r, m
}

// fork decides a condition, exploring both sides when both are feasible.
func (e *Engine) fork(c *Term) bool {
	if c.op == OConst {
		return c.val != 0
	}
	if e.merging > 0 {
		return e.mergeDecide(c)
	}
	if e.logPos < len(e.log) {
		le := e.log[e.logPos]
		e.logPos++
		return le.taken
	}
	side := e.tt.Eval(c, e.model) != 0
	pos, neg := c, e.tt.Not(c)
	if !side {
		pos, neg = neg, pos
	}
	// pos holds in the current model
	r, m := e.feasible(neg)
	switch r {
	case Unsat:
		e.log = append(e.log, logEnt{taken: side})
		e.logPos++
		return side
	case Unknown:
		e.stats.Aborted["solver-unknown"]++
		e.noteCnt["branch dropped: solver unknown"]++
		e.log = append(e.log, logEnt{taken: side})
		e.logPos++
		e.addPC(pos)
		return side
	}
	e.pushChoice(logEnt{taken: !side}, neg, m)
	e.addPC(pos)
	e.log = append(e.log, logEnt{taken: side})
	e.logPos++
	return side
}

func (e *Engine) pushChoice(alt logEnt, cond *Term, m Model) {
	e.stats.Forks++
	ch := &choice{pcLen: len(e.pc), trail: len(e.trail), alt: alt, altCond: cond, model: m, steps: e.steps, inputs: len(e.inputs)}
	ch.frames = make([]*frame, len(e.frames))
	// the caller goes on working in the top frame, so the choice gets a copy of it
	last := len(e.frames) - 1
	for i, f := range e.frames[:last] {
		f.shared = true
		ch.frames[i] = f
	}
	tf := *e.frames[last]
	tf.shared = false
	tf.regs = append([]Value(nil), tf.regs...)
	tf.defers = append([]deferred(nil), tf.defers...)
	ch.frames[last] = &tf
	if e.frames[last].shared {
		panic("pushChoice: shared top frame")
	}
	ch.log = append([]logEnt(nil), e.log[:e.logPos]...)
	e.choices = append(e.choices, ch)
}

// choose picks one of n alternatives, all explored.
func (e *Engine) choose(n int) int {
	if n <= 1 {
		return 0
	}
	if e.merging > 0 {
		panic(mergeAbort{"choose"})
	}
	for i := 0; i < n-1; i++ {
		if e.logPos < len(e.log) {
			le := e.log[e.logPos]
			e.logPos++
			if le.taken {
				return i
			}
			continue
		}
		e.pushChoice(logEnt{taken: false}, nil, e.model)
		e.log = append(e.log, logEnt{taken: true})
		e.logPos++
		return i
	}
	return n - 1
}

// concretize picks a value for t, exploring all of them.
func (e *Engine) concretize(t *Term) uint64 {
	if t.op == OConst {
		return t.val
	}
	if e.merging > 0 {
		panic(mergeAbort{"concretize"})
	}
	for k := 0; ; k++ {
		if k > 2048 {
			panic(abort{"concretize-limit", "too many values"})
		}
		if e.logPos < len(e.log) {
			le := e.log[e.logPos]
			e.logPos++
			if le.taken {
				return le.val
			}
			continue
		}
		v := e.tt.Eval(t, e.model)
		eq := e.tt.Eq(t, e.tt.Const(v, t.w))
		r, m := e.feasible(e.tt.Not(eq))
		if r == Sat {
			e.pushChoice(logEnt{val: v, taken: false}, e.tt.Not(eq), m)
		} else if r == Unknown {
			e.stats.Aborted["solver-unknown"]++
		}
		e.addPC(eq)
		e.log = append(e.log, logEnt{val: v, taken: true})
		e.logPos++
		return v
	}
}

func (e *Engine) concInt(v Value, bi basicInfo) int64 {
	if t := symOf(v); t != nil {
		u := e.concretize(t)
		if bi.signed {
			return sx(u, t.w)
		}
		return int64(u)
	}
	return int64(v.N)
}

// assume adds c to the path condition, ending the path when infeasible.
func (e *Engine) assume(c *Term) {
	if c.op == OConst {
		if c.val == 0 {
			panic(abort{"assume", ""})
		}
		return
	}
	if e.tt.Eval(c, e.model) == 0 {
		r, m := e.feasible(c)
		if r == Unsat {
			panic(abort{"assume", ""})
		}
		if r == Unknown {
			panic(abort{"solver-unknown", "assume"})
		}
		e.model = m
	}
	e.addPC(c)
}

// ---- violations ----

func (e *Engine) violation(kind, msg string, m Model) {
	where := e.whereAmI()
	if e.violRec != nil {
		where = e.violRec.where
	}
	key := kind + "|" + msg + "|" + where
	if kind == "assert" {
		key = kind + "|" + msg
	}
	if e.seenViol[key] {
		return
	}
	if m == nil {
		m = e.model
	}
	in := e.inputValues(m)
	e.seenViol[key] = true
	v := Violation{Kind: kind, Msg: msg, Inputs: in, Where: where}
	if e.violRec != nil {
		v.Trace = e.violRec.trace
	}
	for i := len(e.frames) - 1; i >= 0 && len(v.Trace) < 12; i-- {
		v.Trace = append(v.Trace, e.frames[i].fn.name)
	}
	e.viols = append(e.viols, v)
	if len(e.viols) >= e.maxViol {
		e.stop = true
	}
}

func (e *Engine) whereAmI() string {
	for i := len(e.frames) - 1; i >= 0; i-- {
		f := e.frames[i]
		if f.fn.inRepo {
			p := "?"
			if e.curIn != nil && i == len(e.frames)-1 && e.curIn.in != nil {
				p = e.w.prog.Fset.Position(e.curIn.in.Pos()).String()
			}
			return f.fn.name + " " + p
		}
	}
	return ""
}

// ---- main loop ----

func (e *Engine) top() *frame {
	f := e.frames[len(e.frames)-1]
	if f.shared {
		nf := *f
		nf.shared = false
		nf.regs = make([]Value, len(f.regs))
		copy(nf.regs, f.regs)
		nf.defers = append([]deferred(nil), f.defers...)
		e.frames[len(e.frames)-1] = &nf
		f = &nf
	}
	return f
}

func (e *Engine) pushFrame(fn *ssa.Function, free, args []Value, retDst int32) *frame {
	cf := e.w.compiled(fn)
	if len(cf.blocks) == 0 {
		panic(abort{"unsupported", "no body: " + cf.name})
	}
	if len(e.frames) > 1500 {
		panic(abort{"depth", "call depth"})
	}
	f := &frame{fn: cf, regs: make([]Value, cf.nregs), retDst: retDst}
	for i, p := range cf.params {
		f.regs[p] = args[i]
	}
	for i, p := range cf.free {
		f.regs[p] = free[i]
	}
	e.funcsHit[cf] = true
	e.frames = append(e.frames, f)
	return f
}

func isRepoPkg(p string) bool {
	return (p == modPath || strings.HasPrefix(p, modPath+"/")) && !strings.HasPrefix(p, harnessRoot)
}

// runPath runs until the stack is empty. It returns the abort that ended the path, if any.
func (e *Engine) runPath() (ab *abort) {
	for {
		done, a, again := e.runGuarded()
		if a != nil {
			return a
		}
		if done {
			return nil
		}
		_ = again
	}
}

func (e *Engine) runGuarded() (done bool, ab *abort, again bool) {
	defer func() {
		if r := recover(); r != nil {
			switch x := r.(type) {
			case abort:
				if e.inInit && e.abandonInit(x) {
					again = true
					return
				}
				ab = &x
			case goPanic:
				a := e.startPanic(x.v)
				if a != nil {
					if e.inInit && e.abandonInit(*a) {
						again = true
						return
					}
					ab = a
					return
				}
				again = true
			default:
				if os.Getenv("VE_DEBUG") != "" {
					fmt.Fprintf(os.Stderr, "engine panic: %v\n%s\n", r, debug.Stack())
					for i := len(e.frames) - 1; i >= 0; i-- {
						fmt.Fprintln(os.Stderr, "  ", e.frames[i].fn.name)
					}
				}
				e.merging = 0
				x2 := abort{"engine", fmt.Sprint(r)}
				if e.inInit && e.abandonInit(x2) {
					again = true
					return
				}
				ab = &x2
			}
		}
	}()
	e.loop()
	return true, nil, false
}

func (e *Engine) abandonInit(a abort) bool {
	for i := len(e.frames) - 1; i >= 0; i-- {
		if e.frames[i].initPkg != "" {
			e.initWarn = append(e.initWarn, e.frames[i].initPkg+": "+a.kind+" "+a.msg)
			e.frames = e.frames[:i]
			return true
		}
	}
	return false
}

// startPanic begins unwinding with the panic value v.
func (e *Engine) startPanic(v Value) *abort {
	if e.inInit {
		return &abort{"panic", e.panicText(v)}
	}
	rec := &panicRec{v: v, where: e.whereAmI()}
	for i := len(e.frames) - 1; i >= 0 && len(rec.trace) < 12; i-- {
		rec.trace = append(rec.trace, e.frames[i].fn.name)
	}
	return e.unwind(rec)
}

// unwind runs deferred calls until the panic is recovered or the stack is exhausted.
func (e *Engine) unwind(rec *panicRec) *abort {
	for len(e.frames) > 0 {
		f := e.top()
		f.panicking = rec
		if len(f.defers) > 0 {
			d := f.defers[len(f.defers)-1]
			f.defers = f.defers[:len(f.defers)-1]
			e.callDeferred(f, d)
			return nil
		}
		if f.isDefer {
			// a panic inside a deferred call replaces the one being unwound in the parent
		}
		e.frames = e.frames[:len(e.frames)-1]
	}
	msg := e.panicText(rec.v)
	e.uncaught(msg, rec)
	return &abort{"panic", msg}
}

func (e *Engine) uncaught(msg string, rec *panicRec) {
	if e.inInit {
		return
	}
	e.violRec = rec
	e.violation("panic", msg, nil)
	e.violRec = nil
}

func (e *Engine) panicText(v Value) string {
	if i, ok := v.P.(*Iface); ok {
		if s, ok := strConc(i.v); ok && basicOf(i.t.typ).kind == 's' {
			return s
		}
		return i.t.typ.String()
	}
	return "panic"
}

func (e *Engine) callDeferred(f *frame, d deferred) {
	if d.intr != nil {
		d.intr(e, d.ci, d.args)
		// re-enter: a fake return
		e.afterDefer()
		return
	}
	cl, ok := d.fn.P.(*Closure)
	if !ok {
		if _, isB := d.fn.P.(string); isB {
			e.afterDefer()
			return
		}
		e.rtPanic("nil func in defer")
	}
	nf := e.pushFrame(cl.fn, cl.free, d.args, -1)
	nf.isDefer = true
}

// afterDefer continues unwinding or RunDefers after a deferred call finished; top frame is the deferrer.
func (e *Engine) afterDefer() {
	f := e.top()
	if f.recovering {
		e.continueRecover(f)
		return
	}
	if f.panicking == nil {
		return // RunDefers re-executes
	}
	rec := f.panicking
	if rec.recovered {
		f.panicking = nil
		f.recovering = true
		e.continueRecover(f)
		return
	}
	if a := e.unwind(rec); a != nil {
		panic(*a)
	}
}

// continueRecover runs the remaining deferred calls of a frame that recovered, then returns from it.
func (e *Engine) continueRecover(f *frame) {
	if len(f.defers) > 0 {
		d := f.defers[len(f.defers)-1]
		f.defers = f.defers[:len(f.defers)-1]
		e.callDeferred(f, d)
		return
	}
	f.recovering = false
	if f.fn.recov >= 0 {
		f.prev = -1
		f.blk = f.fn.recov
		f.pc = 0
		return
	}
	e.doReturn(zeroResults(f.fn.fn.Signature.Results().Len()))
}

func zeroResults(n int) Value {
	if n <= 1 {
		return Value{}
	}
	return Value{P: make([]Value, n)}
}

// doReturn pops the top frame and delivers v.
func (e *Engine) doReturn(v Value) {
	f := e.frames[len(e.frames)-1]
	e.frames = e.frames[:len(e.frames)-1]
	if len(e.frames) == 0 {
		return
	}
	if f.isDefer {
		e.afterDefer()
		return
	}
	if f.retDst >= 0 {
		c := e.top()
		c.regs[f.retDst] = v
	}
}

func (e *Engine) loop() {
	for len(e.frames) > 0 {
		f := e.top()
		b := &f.fn.blocks[f.blk]
		ci := &b.code[f.pc]
		e.steps++
		e.stats.Steps++
		if e.steps > e.maxSteps && !e.inInit {
			if e.hangIsBug {
				e.violation("hang", "step budget exceeded", nil)
			}
			panic(abort{"steps", "step budget per path"})
		}
		if e.stats.Steps&0xfff == 0 && !e.deadline.IsZero() && time.Now().After(e.deadline) {
			e.stop = true
			panic(abort{"deadline", ""})
		}
		e.step(f, b, ci)
	}
}

// step executes one instruction; on success the choice log is reset.
func (e *Engine) step(f *frame, b *cblock, ci *cinstr) {
	e.curIn = ci
	switch ci.op {
	case cJump:
		e.jump(f, b.succs[0])
	case cIf:
		e.doIf(f, b, ci)
	case cReturn:
		var v Value
		switch len(ci.args) {
		case 0:
		case 1:
			v = e.val(f, &ci.args[0])
		default:
			t := make([]Value, len(ci.args))
			for i := range ci.args {
				t[i] = e.val(f, &ci.args[i])
			}
			v = Value{P: t}
		}
		e.resetLog()
		e.doReturn(v)
	case cCall:
		e.doCall(f, ci)
	case cDefer:
		e.doDefer(f, ci)
		f.pc++
		e.resetLog()
	case cRunDefers:
		if len(f.defers) == 0 {
			f.pc++
			e.resetLog()
			return
		}
		d := f.defers[len(f.defers)-1]
		f.defers = f.defers[:len(f.defers)-1]
		e.resetLog()
		e.callDeferred(f, d)
	case cPanic:
		v := e.val(f, &ci.a)
		e.resetLog()
		panic(goPanic{v})
	case cUnsup:
		panic(abort{"unsupported", fmt.Sprintf("%T %s in %s", ci.in, ci.in, f.fn.name)})
	default:
		v := e.eval(f, ci)
		if ci.dst >= 0 {
			f.regs[ci.dst] = v
		}
		f.pc++
		e.resetLog()
	}
}

func (e *Engine) resetLog() {
	if len(e.log) > 0 {
		e.log = e.log[:0]
	}
	e.logPos = 0
}

func (e *Engine) jump(f *frame, to int) {
	e.enterBlock(f, to, f.blk)
	e.resetLog()
}

func (e *Engine) enterBlock(f *frame, to, from int) {
	nb := &f.fn.blocks[to]
	if len(nb.phis) > 0 {
		k := -1
		for i, p := range nb.preds {
			if p == from {
				k = i
				break
			}
		}
		if len(nb.phis) == 1 {
			f.regs[nb.phis[0].dst] = e.val(f, &nb.phis[0].edges[k])
		} else {
			var buf [8]Value
			tmp := buf[:0]
			for i := range nb.phis {
				tmp = append(tmp, e.val(f, &nb.phis[i].edges[k]))
			}
			for i := range nb.phis {
				f.regs[nb.phis[i].dst] = tmp[i]
			}
		}
	}
	f.prev = from
	f.blk = to
	f.pc = 0
}

func (e *Engine) doIf(f *frame, b *cblock, ci *cinstr) {
	v := e.val(f, &ci.a)
	if v.P == nil {
		if v.N != 0 {
			e.jump(f, b.succs[0])
		} else {
			e.jump(f, b.succs[1])
		}
		return
	}
	c := v.P.(*Term)
	if e.logPos >= len(e.log) && !e.noMerge && e.tryMerge(f, ci, c) {
		return
	}
	if e.fork(c) {
		e.jump(f, b.succs[0])
	} else {
		e.jump(f, b.succs[1])
	}
}

func (e *Engine) doDefer(f *frame, ci *cinstr) {
	args := make([]Value, len(ci.args))
	for i := range ci.args {
		args[i] = e.val(f, &ci.args[i])
	}
	d := deferred{args: args, ci: ci}
	switch {
	case ci.invoke != nil:
		recv := e.val(f, &ci.a)
		fn, rv := e.resolveInvoke(recv, ci.invoke)
		d.fn = Value{P: &Closure{fn: fn}}
		d.args = append([]Value{rv}, args...)
		if in, _ := e.w.lookupIntrinsic(fn); in != nil {
			d.intr = in
		}
	case ci.bltin != "":
		switch ci.bltin {
		case "recover", "print", "println":
			d.fn = Value{P: "builtin"}
		default:
			panic(abort{"unsupported", "defer builtin " + ci.bltin})
		}
	case ci.callee != nil:
		if ci.intrOK {
			d.intr = ci.intr
		}
		fn := ci.callee
		if ci.redir != nil {
			fn = ci.redir
		}
		d.fn = Value{P: &Closure{fn: fn}}
	default:
		d.fn = e.val(f, &ci.a)
	}
	f.defers = append(f.defers, d)
}

func (e *Engine) resolveInvoke(recv Value, m *types.Func) (*ssa.Function, Value) {
	i, ok := recv.P.(*Iface)
	if !ok {
		e.nilDeref()
	}
	fn := e.w.method(i.t, m)
	if fn == nil {
		panic(abort{"unsupported", "no method " + m.String() + " on " + i.t.typ.String()})
	}
	return fn, i.v
}

func (w *World) method(t *RType, m *types.Func) *ssa.Function {
	w.mu.Lock()
	defer w.mu.Unlock()
	return w.prog.LookupMethod(t.typ, m.Pkg(), m.Name())
}

func (e *Engine) doCall(f *frame, ci *cinstr) {
	var abuf [6]Value
	var args []Value
	if len(ci.args) <= len(abuf) {
		args = abuf[:len(ci.args)]
	} else {
		args = make([]Value, len(ci.args))
	}
	for i := range ci.args {
		args[i] = e.val(f, &ci.args[i])
	}
	if ci.bltin != "" {
		v := e.builtin(f, ci, args)
		if ci.dst >= 0 {
			f.regs[ci.dst] = v
		}
		f.pc++
		e.resetLog()
		return
	}
	var fn *ssa.Function
	var free []Value
	var in intrinsic
	switch {
	case ci.callee != nil:
		fn = ci.callee
		in = ci.intr
		if ci.redir != nil {
			fn = ci.redir
		}
	case ci.invoke != nil:
		recv := e.val(f, &ci.a)
		var rv Value
		fn, rv = e.resolveInvoke(recv, ci.invoke)
		args = append([]Value{rv}, args...)
		var rd *ssa.Function
		in, rd = e.w.lookupIntrinsicCached(fn)
		if rd != nil {
			fn = rd
		}
	default:
		cv := e.val(f, &ci.a)
		cl, ok := cv.P.(*Closure)
		if !ok {
			e.nilDeref()
		}
		fn, free = cl.fn, cl.free
		var rd *ssa.Function
		in, rd = e.w.lookupIntrinsicCached(fn)
		if rd != nil {
			fn = rd
		}
	}
	if in != nil {
		a2 := append([]Value(nil), args...)
		nfr := len(e.frames)
		v := in(e, ci, a2)
		if len(e.frames) > nfr {
			// the intrinsic pushed a call whose result is the result of this one
			e.frames[nfr].retDst = ci.dst
			e.top0(nfr-1).pc++
			e.resetLog()
			return
		}
		if ci.dst >= 0 {
			f.regs[ci.dst] = v
		}
		f.pc++
		e.resetLog()
		return
	}
	if e.inInit && fn.Name() == "init" && fn.Pkg != nil && fn == fn.Pkg.Func("init") {
		path := fn.Pkg.Pkg.Path()
		if e.initDone[path] || skipInit(path) {
			e.initDone[path] = true
			f.pc++
			e.resetLog()
			return
		}
		e.initDone[path] = true
		f.pc++
		nf := e.pushFrame(fn, nil, nil, -1)
		nf.initPkg = path
		e.resetLog()
		return
	}
	f.pc++
	e.pushFrame(fn, free, args, ci.dst)
	e.resetLog()
}

// top0 is frame i, made writable.
func (e *Engine) top0(i int) *frame {
	f := e.frames[i]
	if f.shared {
		save := e.frames
		e.frames = e.frames[:i+1]
		f = e.top()
		e.frames = save
	}
	return f
}

// ---- exploration ----

// explore runs all paths of entry.
func (e *Engine) explore(entry *ssa.Function) {
	e.frames = nil
	e.pushFrame(entry, nil, nil, -1)
	for {
		e.stats.Paths++
		ab := e.runPath()
		e.merging = 0
		if ab == nil {
			e.stats.Completed++
			e.sample()
		} else {
			switch ab.kind {
			case "assume":
				e.stats.Assumed++
			case "done":
				e.stats.Completed++
				e.sample()
			case "panic", "violation":
			default:
				k := ab.kind + ": " + ab.msg
				if len(k) > 160 {
					k = k[:160]
				}
				e.stats.Aborted[k]++
				e.lostPath(ab.kind)
				if os.Getenv("VE_TRACE") != "" {
					fmt.Fprintln(os.Stderr, "ABORT", k)
					for i := len(e.frames) - 1; i >= 0; i-- {
						fmt.Fprintln(os.Stderr, "   ", e.frames[i].fn.name)
					}
				}
			}
		}
		if e.stop {
			return
		}
		if !e.backtrack() {
			e.stats.Exhausted = true
			return
		}
	}
}

func (e *Engine) backtrack() bool {
	if len(e.choices) == 0 {
		return false
	}
	ch := e.choices[len(e.choices)-1]
	e.undoTo(ch.trail)
	e.choices = e.choices[:len(e.choices)-1]
	e.frames = append(e.frames[:0:0], ch.frames...)
	e.pc = e.pc[:ch.pcLen]
	e.model = ch.model
	e.steps = ch.steps
	e.inputs = e.inputs[:ch.inputs]
	e.log = append(ch.log, ch.alt)
	e.logPos = 0
	if ch.altCond != nil {
		e.addPC(ch.altCond)
	}
	return true
}
