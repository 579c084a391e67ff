package main

import (
	"bufio"
	"fmt"
	"io"
	"os"
	"os/exec"
	"strconv"
	"strings"
	"time"
)

// SolverStats are accumulated over all queries of an engine.
type SolverStats struct {
	Queries, Sat, Unsat, Unknown int
	AssertQueries, AssertUnsat   int
	Time                         time.Duration
	ByTable                      int // branch feasibility decided by the exact byte-domain table
	ByModel                      int // branch feasibility decided by a model already in hand
	MaxQuery                     time.Duration
	Fallbacks                    int
	BySat                        int // branch feasibility decided by the built-in bit-blaster and CDCL solver
	SatTime                      time.Duration
	Confirmed                    int // built-in unsat verdicts on assertions and run-time checks confirmed by the SMT solver
}

func (s *SolverStats) add(o *SolverStats) {
	s.Queries += o.Queries
	s.Sat += o.Sat
	s.Unsat += o.Unsat
	s.Unknown += o.Unknown
	s.AssertQueries += o.AssertQueries
	s.AssertUnsat += o.AssertUnsat
	s.Time += o.Time
	s.ByTable += o.ByTable
	s.ByModel += o.ByModel
	s.Fallbacks += o.Fallbacks
	s.BySat += o.BySat
	s.SatTime += o.SatTime
	s.Confirmed += o.Confirmed
	if o.MaxQuery > s.MaxQuery {
		s.MaxQuery = o.MaxQuery
	}
}

// Result of a query.
type Result int

const (
	Unknown Result = iota
	Sat
	Unsat
)

// Solver is an incremental SMT-LIB process.
type Solver struct {
	tt      *TermTable
	cmd     *exec.Cmd
	in      *bufio.Writer
	inPipe  io.WriteCloser
	out     *bufio.Reader
	defined map[int32]bool
	stack   []*Term
	Stats   SolverStats
	Timeout time.Duration
	dead    bool
	nq      int
}

var z3Main = "z3-new"

func NewSolver(tt *TermTable) *Solver {
	return &Solver{tt: tt, Timeout: 10 * time.Second}
}

func (s *Solver) start() error {
	s.cmd = exec.Command(z3Main, "-in", "-smt2", fmt.Sprintf("-t:%d", s.Timeout.Milliseconds()))
	w, err := s.cmd.StdinPipe()
	if err != nil {
		return err
	}
	r, err := s.cmd.StdoutPipe()
	if err != nil {
		return err
	}
	if err := s.cmd.Start(); err != nil {
		return err
	}
	s.inPipe = w
	s.in = bufio.NewWriterSize(w, 1<<16)
	s.out = bufio.NewReaderSize(r, 1<<16)
	s.defined = map[int32]bool{}
	s.stack = nil
	s.dead = false
	s.nq = 0
	fmt.Fprintln(s.in, "(set-option :global-declarations true)")
	fmt.Fprintln(s.in, "(set-option :produce-models true)")
	fmt.Fprintln(s.in, "(set-logic QF_BV)")
	return nil
}

func (s *Solver) Close() {
	if s.cmd != nil {
		s.inPipe.Close()
		s.cmd.Process.Kill()
		s.cmd.Wait()
		s.cmd = nil
	}
}

func (s *Solver) ref(t *Term) string {
	switch t.op {
	case OConst:
		return constSMT(t.val, t.w)
	case OVar:
		return "|" + t.name + "|"
	}
	return "t" + strconv.Itoa(int(t.id))
}

// define emits definitions for everything below t.
func (s *Solver) define(t *Term) {
	if t == nil || t.op == OConst || s.defined[t.id] {
		return
	}
	// iterative post-order, deep terms are possible
	type fr struct {
		t *Term
		i int
	}
	st := []fr{{t, 0}}
	for len(st) > 0 {
		f := &st[len(st)-1]
		if s.defined[f.t.id] || f.t.op == OConst {
			st = st[:len(st)-1]
			continue
		}
		var ch *Term
		for f.i < 3 {
			ch = [3]*Term{f.t.a, f.t.b, f.t.c}[f.i]
			f.i++
			if ch != nil && ch.op != OConst && !s.defined[ch.id] {
				break
			}
			ch = nil
		}
		if ch != nil {
			st = append(st, fr{ch, 0})
			continue
		}
		x := f.t
		if x.op == OVar {
			fmt.Fprintf(s.in, "(declare-const |%s| %s)\n", x.name, sortName(x.w))
		} else {
			fmt.Fprintf(s.in, "(define-fun t%d () %s %s)\n", x.id, sortName(x.w), smtBody(x, s.ref))
		}
		s.defined[x.id] = true
		st = st[:len(st)-1]
	}
}

func (s *Solver) sync(pc []*Term) {
	k := 0
	for k < len(pc) && k < len(s.stack) && pc[k] == s.stack[k] {
		k++
	}
	if n := len(s.stack) - k; n > 0 {
		fmt.Fprintf(s.in, "(pop %d)\n", n)
		s.stack = s.stack[:k]
	}
	for _, c := range pc[k:] {
		s.define(c)
		fmt.Fprintf(s.in, "(push 1)\n(assert %s)\n", s.ref(c))
		s.stack = append(s.stack, c)
	}
}

// Check decides pc ∧ extra. vars are read back on sat.
func (s *Solver) Check(pc []*Term, extra *Term, vars []*Term) (Result, Model) {
	t0 := time.Now()
	defer func() {
		d := time.Since(t0)
		s.Stats.Time += d
		if d > s.Stats.MaxQuery {
			s.Stats.MaxQuery = d
		}
	}()
	s.Stats.Queries++
	if s.cmd == nil || s.dead || s.nq > 20000 {
		s.Close()
		if err := s.start(); err != nil {
			panic("cannot start z3: " + err.Error())
		}
	}
	s.nq++
	s.sync(pc)
	if extra != nil {
		s.define(extra)
		fmt.Fprintf(s.in, "(push 1)\n(assert %s)\n", s.ref(extra))
	}
	fmt.Fprintln(s.in, "(check-sat)")
	s.in.Flush()
	line := s.readLine()
	var res Result
	var m Model
	switch line {
	case "sat":
		res = Sat
		s.Stats.Sat++
		m = s.getModel(vars)
		if m == nil {
			res = Unknown
		}
	case "unsat":
		res = Unsat
		s.Stats.Unsat++
	default:
		res = Unknown
		s.Stats.Unknown++
		if strings.HasPrefix(line, "(error") || line == "" {
			fmt.Fprintln(os.Stderr, "solver:", line)
			s.dead = true
		}
	}
	if extra != nil && !s.dead {
		fmt.Fprintln(s.in, "(pop 1)")
	}
	if res == Unknown {
		s.dead = true // restart, incremental state may be poor
	}
	return res, m
}

func (s *Solver) readLine() string {
	// the solver enforces its own timeout; a wall-clock guard kills a stuck process
	proc := s.cmd.Process
	timer := time.AfterFunc(s.Timeout+20*time.Second, func() { proc.Kill() })
	defer timer.Stop()
	l, err := s.out.ReadString('\n')
	if err != nil {
		return ""
	}
	return strings.TrimSpace(l)
}

func (s *Solver) getModel(vars []*Term) Model {
	m := Model{}
	var ask []*Term
	for _, v := range vars {
		if s.defined[v.id] {
			ask = append(ask, v)
		}
	}
	if len(ask) == 0 {
		return m
	}
	s.in.WriteString("(get-value (")
	for _, v := range ask {
		s.in.WriteString(s.ref(v))
		s.in.WriteByte(' ')
	}
	s.in.WriteString("))\n")
	s.in.Flush()
	// read a balanced s-expression
	var sb strings.Builder
	depth := 0
	inBar := false
	for {
		c, err := s.out.ReadByte()
		if err != nil {
			s.dead = true
			return nil
		}
		sb.WriteByte(c)
		if c == '|' {
			inBar = !inBar
		}
		if inBar {
			continue
		}
		if c == '(' {
			depth++
		}
		if c == ')' {
			depth--
			if depth == 0 {
				break
			}
		}
	}
	s.out.ReadString('\n')
	txt := sb.String()
	if strings.HasPrefix(txt, "(error") {
		s.dead = true
		return nil
	}
	return parseValues(txt, s.tt, m)
}

// parseValues reads "((|x| #x00) (|y| true) ...)".
func parseValues(txt string, tt *TermTable, m Model) Model {
	i := 1
	for i < len(txt) {
		for i < len(txt) && txt[i] != '(' {
			i++
		}
		if i >= len(txt) {
			break
		}
		i++
		var name string
		if txt[i] == '|' {
			j := strings.IndexByte(txt[i+1:], '|')
			name = txt[i+1 : i+1+j]
			i += j + 2
		} else {
			j := i
			for txt[j] != ' ' {
				j++
			}
			name = txt[i:j]
			i = j
		}
		for txt[i] == ' ' || txt[i] == '\n' {
			i++
		}
		j := i
		if txt[i] == '(' { // (_ bvN w)
			for txt[j] != ')' {
				j++
			}
			j++
		} else {
			for txt[j] != ')' {
				j++
			}
		}
		lit := txt[i:j]
		i = j
		var v uint64
		switch {
		case lit == "true":
			v = 1
		case lit == "false":
			v = 0
		case strings.HasPrefix(lit, "#x"):
			v, _ = strconv.ParseUint(lit[2:], 16, 64)
		case strings.HasPrefix(lit, "#b"):
			v, _ = strconv.ParseUint(lit[2:], 2, 64)
		case strings.HasPrefix(lit, "(_ bv"):
			f := strings.Fields(lit[1:])
			v, _ = strconv.ParseUint(f[1][2:], 10, 64)
		}
		if t, ok := tt.byName[name]; ok {
			m[t] = v
		}
		for i < len(txt) && txt[i] != ')' {
			i++
		}
		i++
	}
	return m
}

// dumpScript renders pc ∧ extra as a stand-alone SMT-LIB script (for one-shot solvers).
func dumpScript(pc []*Term, extra *Term) (string, []*Term) {
	var sb strings.Builder
	sb.WriteString("(set-option :produce-models true)\n(set-logic QF_BV)\n")
	done := map[int32]bool{}
	ref := func(t *Term) string {
		switch t.op {
		case OConst:
			return constSMT(t.val, t.w)
		case OVar:
			return "|" + t.name + "|"
		}
		return "t" + strconv.Itoa(int(t.id))
	}
	var vars []*Term
	var def func(t *Term)
	def = func(t *Term) {
		if t == nil || t.op == OConst || done[t.id] {
			return
		}
		def(t.a)
		def(t.b)
		def(t.c)
		done[t.id] = true
		if t.op == OVar {
			vars = append(vars, t)
			fmt.Fprintf(&sb, "(declare-const |%s| %s)\n", t.name, sortName(t.w))
		} else {
			fmt.Fprintf(&sb, "(define-fun t%d () %s %s)\n", t.id, sortName(t.w), smtBody(t, ref))
		}
	}
	all := append(append([]*Term{}, pc...), extra)
	for _, c := range all {
		if c == nil {
			continue
		}
		def(c)
		fmt.Fprintf(&sb, "(assert %s)\n", ref(c))
	}
	sb.WriteString("(check-sat)\n")
	return sb.String(), vars
}

// OneShot tries other back ends on a query the incremental solver could not decide.
func (s *Solver) OneShot(pc []*Term, extra *Term, limit time.Duration) (Result, Model) {
	s.Stats.Fallbacks++
	t0 := time.Now()
	defer func() { s.Stats.Time += time.Since(t0) }()
	script, vars := dumpScript(pc, extra)
	if len(vars) > 0 {
		script += "(get-value ("
		for _, v := range vars {
			script += "|" + v.name + "| "
		}
		script += "))\n"
	}
	sec := strconv.Itoa(int(limit.Seconds()))
	cands := [][]string{
		{"cvc5", "--lang=smt2", "--produce-models", "--tlimit=" + sec + "000", "--solve-bv-as-int=sum", "-"},
		{"z3", "-in", "-smt2", "-T:" + sec},
		{"cvc5", "--lang=smt2", "--produce-models", "--tlimit=" + sec + "000", "-"},
	}
	type ans struct {
		r Result
		m Model
	}
	ch := make(chan ans, len(cands))
	var cmds []*exec.Cmd
	for _, c := range cands {
		cmd := exec.Command(c[0], c[1:]...)
		cmd.Stdin = strings.NewReader(script)
		cmds = append(cmds, cmd)
	}
	for _, cmd := range cmds {
		go func(cmd *exec.Cmd) {
			out, _ := cmd.Output()
			txt := string(out)
			switch {
			case strings.HasPrefix(txt, "unsat"):
				ch <- ans{Unsat, nil}
			case strings.HasPrefix(txt, "sat\n"):
				rest := strings.TrimSpace(txt[4:])
				if strings.Contains(rest, "(error") {
					ch <- ans{Unknown, nil}
					return
				}
				ch <- ans{Sat, parseValues(rest, s.tt, Model{})}
			default:
				ch <- ans{Unknown, nil}
			}
		}(cmd)
	}
	res := ans{Unknown, nil}
	for range cands {
		a := <-ch
		if a.r != Unknown {
			res = a
			break
		}
	}
	for _, c := range cmds {
		if c.Process != nil {
			c.Process.Kill()
		}
	}
	return res.r, res.m
}

// String renders a term for diagnostics.
func (t *Term) String() string {
	n := 0
	var rec func(t *Term) string
	rec = func(t *Term) string {
		switch t.op {
		case OConst:
			return constSMT(t.val, t.w)
		case OVar:
			return t.name
		}
		if n++; n > 300 {
			return "…"
		}
		return smtBody(t, rec)
	}
	return rec(t)
}
