package main

import (
	"fmt"
	"sync"
	"time"
)

// verifier confirms, with the SMT solver, every verdict the built-in solver gave on a property
// assertion or a run-time check. It runs beside the exploration and works in batches: a batch of
// claims "pc_i and not p_i is unsatisfiable" is one query on their disjunction.
type verifier struct {
	ch    chan claim
	wg    sync.WaitGroup
	sol   *Solver
	seen  int
	bad   []string
	unk   int
	wrong int
	until func() time.Time
}

type claim struct {
	pc    []*Term
	extra *Term
}

func newVerifier(tt *TermTable) *verifier {
	v := &verifier{ch: make(chan claim, 1<<14), sol: NewSolver(tt)}
	v.wg.Add(1)
	go v.run()
	return v
}

func (v *verifier) add(pc []*Term, extra *Term) {
	v.ch <- claim{append([]*Term(nil), pc...), extra}
}

// finish waits for all claims.
func (v *verifier) finish() {
	close(v.ch)
	v.wg.Wait()
	v.sol.Close()
}

func (v *verifier) run() {
	defer v.wg.Done()
	for {
		c, ok := <-v.ch
		if !ok {
			return
		}
		batch := []claim{c}
		closed := false
	fill:
		for len(batch) < 48 {
			select {
			case c, ok := <-v.ch:
				if !ok {
					closed = true
					break fill
				}
				batch = append(batch, c)
			case <-time.After(20 * time.Millisecond):
				break fill
			}
		}
		v.check(batch)
		if closed {
			return
		}
	}
}

func (v *verifier) check(batch []claim) {
	v.seen += len(batch)
	switch v.ask(batch) {
	case Unsat:
		return
	}
	if len(batch) == 1 {
		r, _ := v.sol.OneShot(batch[0].pc, batch[0].extra, 20*time.Second)
		switch r {
		case Unsat:
		case Sat:
			v.wrong++
		default:
			v.unk++
		}
		return
	}
	v.seen -= len(batch)
	for _, c := range batch {
		v.check([]claim{c})
	}
}

func (v *verifier) ask(batch []claim) Result {
	s := v.sol
	t0 := time.Now()
	defer func() {
		d := time.Since(t0)
		s.Stats.Time += d
		if d > s.Stats.MaxQuery {
			s.Stats.MaxQuery = d
		}
	}()
	s.Stats.Queries++
	if s.cmd == nil || s.dead || len(s.defined) > 60000 {
		s.Close()
		if err := s.start(); err != nil {
			panic("cannot start z3: " + err.Error())
		}
	}
	for _, c := range batch {
		for _, t := range c.pc {
			s.define(t)
		}
		s.define(c.extra)
	}
	fmt.Fprint(s.in, "(push 1)\n(assert (or false")
	for _, c := range batch {
		fmt.Fprint(s.in, " (and true")
		for _, t := range c.pc {
			s.in.WriteByte(' ')
			s.in.WriteString(s.ref(t))
		}
		s.in.WriteByte(' ')
		s.in.WriteString(s.ref(c.extra))
		s.in.WriteByte(')')
	}
	fmt.Fprint(s.in, "))\n(check-sat)\n(pop 1)\n")
	s.in.Flush()
	switch s.readLine() {
	case "unsat":
		s.Stats.Unsat++
		return Unsat
	case "sat":
		s.Stats.Sat++
		return Sat
	}
	s.Stats.Unknown++
	s.dead = true
	return Unknown
}
