package main

import (
	"math/rand"
	"time"
)

// A path that cannot be followed to its end is a gap in the exploration (reported as a reduced bound). The inputs
// that the solver finds for its path condition are still run on the real code: where they fail, they are a counterexample.

// maxLost is the number of inputs kept per job.
const maxLost = 150

func (e *Engine) lostPath(kind string) {
	if len(e.lost) >= maxLost || e.inInit {
		return
	}
	e.lost = append(e.lost, e.inputValues(e.model))
	if kind == "deadline" {
		for _, ch := range e.choices {
			if len(e.lost) < maxLost {
				m, n := e.model, e.inputs
				e.model, e.inputs = ch.model, e.inputs[:ch.inputs]
				e.lost = append(e.lost, e.inputValues(e.model))
				e.model, e.inputs = m, n
			}
		}
		return
	}
	if e.lostEnd.IsZero() {
		e.lostEnd = time.Now().Add(8 * time.Second)
		e.lostRand = rand.New(rand.NewSource(1))
	}
	var vs []*Term
	seen := map[*Term]bool{}
	for _, in := range e.inputs {
		if in.t == nil {
			continue
		}
		for _, v := range termVars(in.t) {
			if v.w > 0 && !seen[v] {
				seen[v] = true
				vs = append(vs, v)
			}
		}
	}
	if len(vs) == 0 {
		return
	}
	r := e.lostRand
	for k := 0; k < 5; k++ {
		extra, m := e.tt.tru, e.model
		for try := 0; try < 6; try++ {
			if time.Now().After(e.lostEnd) {
				return
			}
			v := vs[r.Intn(len(vs))]
			hi := mask(v.w)
			if v.rng {
				hi = v.hi
			}
			x := r.Uint64()
			if hi != ^uint64(0) {
				x %= hi + 1
			}
			c := e.tt.bin(OUle, e.tt.Const(x, v.w), v)
			if r.Intn(3) == 0 {
				c = e.tt.bin(OUle, v, e.tt.Const(x, v.w))
			}
			c = e.tt.And(extra, c)
			if m2 := e.other(c, m); m2 != nil {
				extra, m = c, m2
			}
		}
		if len(e.lost) < maxLost {
			m0 := e.model
			e.model = m
			e.lost = append(e.lost, e.inputValues(m))
			e.model = m0
		}
	}
}

// other is a model of the path condition and c, if one is found quickly.
func (e *Engine) other(c *Term, m Model) Model {
	if e.tt.Eval(c, m) != 0 {
		return m
	}
	rel := e.relevant(c)
	var vars []*Term
	seen := map[*Term]bool{}
	for _, x := range append(append([]*Term(nil), rel...), c) {
		for _, v := range termVars(x) {
			if !seen[v] {
				seen[v] = true
				vars = append(vars, v)
			}
		}
	}
	var r Result
	var m2 Model
	if e.lia != nil {
		r, m2 = e.lia.Check(rel, c, vars)
	} else if !e.noSat {
		if e.sat == nil || e.sat.limit > 0 && e.sat.clauses > e.sat.limit {
			e.sat = newSat(e.tt)
		}
		r, m2 = e.sat.check(rel, c, vars, 100)
	}
	if r != Sat {
		return nil
	}
	full := make(Model, len(m)+len(m2))
	for k, v := range e.model {
		full[k] = v
	}
	for k, v := range m2 {
		full[k] = v
	}
	if e.tt.Eval(c, full) == 0 {
		return nil
	}
	for _, x := range e.pc {
		if e.tt.Eval(x, full) == 0 {
			return nil
		}
	}
	return full
}
