package main

import (
	"bufio"
	"fmt"
	"math/big"
	"os/exec"
	"strconv"
	"strings"
	"time"
)

// liaSolver decides queries over sums of ranged fields as linear integer arithmetic. A condition is used only if
// the linear forms show that none of its sums wraps, so that the integers are the values of the bit vectors; other
// conditions are left out, and then only "unsat" counts.
type liaSolver struct {
	tt    *TermTable
	s     *Solver // process and pipes
	ints  map[liaKey]string
	bools map[*Term]string
	stack []*Term
	used  []bool // per stack entry: translated
	decl  map[*Term]bool
	seq   int
}

type liaKey struct {
	t   *Term
	neg bool
}

func newLia(tt *TermTable) *liaSolver {
	return &liaSolver{tt: tt, s: &Solver{tt: tt, Timeout: 10 * time.Second, dead: true}}
}

func (l *liaSolver) start() error {
	s := l.s
	s.Close()
	s.cmd = exec.Command(z3Main, "-in", "-smt2", fmt.Sprintf("-t:%d", s.Timeout.Milliseconds()))
	w, err := s.cmd.StdinPipe()
	if err != nil {
		return err
	}
	r, err := s.cmd.StdoutPipe()
	if err != nil {
		return err
	}
	if err := s.cmd.Start(); err != nil {
		return err
	}
	s.inPipe, s.in, s.out = w, bufio.NewWriterSize(w, 1<<16), bufio.NewReaderSize(r, 1<<16)
	s.dead, s.nq = false, 0
	l.ints, l.bools, l.decl = map[liaKey]string{}, map[*Term]string{}, map[*Term]bool{}
	l.stack, l.used = nil, nil
	fmt.Fprintln(s.in, "(set-option :global-declarations true)\n(set-option :produce-models true)\n(set-logic QF_LIA)")
	return nil
}

func num(v int64) string {
	if v < 0 {
		return "(- " + strconv.FormatUint(uint64(-v), 10) + ")"
	}
	return strconv.FormatInt(v, 10)
}

// name gives a body a name.
func (l *liaSolver) name(sort, body string) string {
	if !strings.HasPrefix(body, "(") || strings.HasPrefix(body, "(- ") && !strings.Contains(body[1:], "(") {
		return body
	}
	l.seq++
	n := "u" + strconv.Itoa(l.seq)
	fmt.Fprintf(l.s.in, "(define-fun %s () %s %s)\n", n, sort, body)
	return n
}

// val is the integer of t: its unsigned value, or its signed value. "" if it cannot be expressed.
func (l *liaSolver) val(t *Term, signed bool) string {
	k := liaKey{t, signed}
	if n, ok := l.ints[k]; ok {
		return n
	}
	n := l.val1(t, signed)
	l.ints[k] = n
	return n
}

func (l *liaSolver) val1(t *Term, signed bool) string {
	f := l.tt.lin(t)
	if signed && !f.sgn() || !signed && !f.uns() {
		// the other reading, wrapped
		p, h := new(big.Int).Lsh(big.NewInt(1), uint(t.w)), new(big.Int).Lsh(big.NewInt(1), uint(t.w-1))
		if signed && f.uns() {
			if x := l.val(t, false); x != "" {
				return l.name("Int", fmt.Sprintf("(ite (< %s %s) %s (- %s %s))", x, h, x, x, p))
			}
		} else if !signed && f.sgn() {
			if x := l.val(t, true); x != "" {
				return l.name("Int", fmt.Sprintf("(ite (< %s 0) (+ %s %s) %s)", x, x, p, x))
			}
		}
		return ""
	}
	lo, _, ok := atomRange(f.at)
	if !ok {
		return ""
	}
	var k int64
	if signed {
		k = sx(f.start, t.w) - lo
	} else {
		if f.start >= 1<<62 {
			return ""
		}
		k = int64(f.start) - lo
	}
	parts := []string{}
	if k != 0 || len(f.at) == 0 {
		parts = append(parts, num(k))
	}
	for _, a := range f.at {
		x := l.atom(a.t, a.neg)
		if x == "" {
			return ""
		}
		if a.c != 1 {
			x = "(* " + num(a.c) + " " + x + ")"
		}
		parts = append(parts, x)
	}
	if len(parts) == 1 {
		return l.name("Int", parts[0])
	}
	return l.name("Int", "(+ "+strings.Join(parts, " ")+")")
}

// atom is the integer of an atom of a linear form.
func (l *liaSolver) atom(t *Term, neg bool) string {
	switch t.op {
	case OConst:
		if neg {
			return num(sx(t.val, t.w))
		}
		if t.val < 1<<62 {
			return num(int64(t.val))
		}
		return ""
	case OVar:
		if t.w == 0 {
			return ""
		}
		n := "|" + t.name + "|"
		hi := mask(t.w)
		if t.rng {
			hi = t.hi
		}
		if !l.decl[t] {
			if hi >= 1<<62 {
				return ""
			}
			l.decl[t] = true
			fmt.Fprintf(l.s.in, "(declare-const %s Int)\n", n)
			// holds for good: declared outside of all scopes
		}
		if neg {
			if hi <= mask(t.w)>>1 {
				return n
			}
			return fmt.Sprintf("(ite (> %s %s) (- %s %s) %s)", n, num(int64(mask(t.w)>>1)), n, num(int64(mask(t.w))+1), n)
		}
		return n
	case OIte:
		c := l.cond(t.a)
		x, y := l.val(t.b, neg), l.val(t.c, neg)
		if c == "" || x == "" || y == "" {
			return ""
		}
		return l.name("Int", "(ite "+c+" "+x+" "+y+")")
	}
	if neg {
		if t.op == OSext {
			return l.val(t.a, true)
		}
		return ""
	}
	div := func(op string, a *Term, c uint64) string {
		x := l.val(a, false)
		if x == "" || c == 0 || c >= 1<<62 {
			return ""
		}
		return l.name("Int", "("+op+" "+x+" "+num(int64(c))+")")
	}
	switch t.op {
	case OZext:
		if t.a.w == 0 {
			return ""
		}
		return l.val(t.a, false)
	case OUdiv, OUrem:
		if t.b.op == OConst {
			if t.op == OUdiv {
				return div("div", t.a, t.b.val)
			}
			return div("mod", t.a, t.b.val)
		}
	case OLshr:
		if t.b.op == OConst && t.b.val < 62 {
			return div("div", t.a, 1<<t.b.val)
		}
	case OAnd:
		if t.b.op == OConst && t.b.val&(t.b.val+1) == 0 {
			return div("mod", t.a, t.b.val+1)
		}
	case OExtract:
		if t.val == 0 && t.w < 62 {
			return div("mod", t.a, 1<<t.w)
		}
	}
	return ""
}

// cond is a condition; "" if it cannot be expressed.
func (l *liaSolver) cond(t *Term) string {
	if n, ok := l.bools[t]; ok {
		return n
	}
	n := l.cond1(t)
	if n != "" {
		n = l.name("Bool", n)
	}
	l.bools[t] = n
	return n
}

func (l *liaSolver) cond1(t *Term) string {
	two := func(op string, a, b string) string {
		if a == "" || b == "" {
			return ""
		}
		return "(" + op + " " + a + " " + b + ")"
	}
	switch t.op {
	case OConst:
		if t.val != 0 {
			return "true"
		}
		return "false"
	case OVar:
		if !l.decl[t] {
			l.decl[t] = true
			fmt.Fprintf(l.s.in, "(declare-const |%s| Bool)\n", t.name)
		}
		return "|" + t.name + "|"
	case OBNot:
		if x := l.cond(t.a); x != "" {
			return "(not " + x + ")"
		}
	case OBAnd:
		return two("and", l.cond(t.a), l.cond(t.b))
	case OBOr:
		return two("or", l.cond(t.a), l.cond(t.b))
	case OIte:
		if c := l.cond(t.a); c != "" {
			return two("ite "+c, l.cond(t.b), l.cond(t.c))
		}
	case OEq:
		if t.a.w == 0 {
			return two("=", l.cond(t.a), l.cond(t.b))
		}
		if n := two("=", l.val(t.a, false), l.val(t.b, false)); n != "" {
			return n
		}
		return two("=", l.val(t.a, true), l.val(t.b, true))
	case OUlt:
		return two("<", l.val(t.a, false), l.val(t.b, false))
	case OUle:
		return two("<=", l.val(t.a, false), l.val(t.b, false))
	case OSlt:
		return two("<", l.val(t.a, true), l.val(t.b, true))
	case OSle:
		return two("<=", l.val(t.a, true), l.val(t.b, true))
	}
	return ""
}

// bounds of the variables of t; asserted with every condition that has them.
func (l *liaSolver) bounds(t *Term) {
	for _, v := range termVars(t) {
		if v.w == 0 || !l.decl[v] {
			continue
		}
		hi := mask(v.w)
		if v.rng {
			hi = v.hi
		}
		fmt.Fprintf(l.s.in, "(assert (and (<= 0 |%s|) (<= |%s| %d)))\n", v.name, v.name, hi)
	}
}

func (l *liaSolver) push(c *Term) bool {
	x := l.cond(c)
	fmt.Fprintln(l.s.in, "(push 1)")
	if x == "" {
		return false
	}
	l.bounds(c)
	fmt.Fprintf(l.s.in, "(assert %s)\n", x)
	return true
}

// Check decides pc ∧ extra; Unknown if the conditions cannot be expressed.
func (l *liaSolver) Check(pc []*Term, extra *Term, vars []*Term) (Result, Model) {
	s := l.s
	t0 := time.Now()
	defer func() {
		d := time.Since(t0)
		s.Stats.Time += d
		if d > s.Stats.MaxQuery {
			s.Stats.MaxQuery = d
		}
	}()
	if s.cmd == nil || s.dead || s.nq > 5000 {
		if err := l.start(); err != nil {
			panic("cannot start z3: " + err.Error())
		}
	}
	s.nq++
	k := 0
	for k < len(pc) && k < len(l.stack) && pc[k] == l.stack[k] {
		k++
	}
	if n := len(l.stack) - k; n > 0 {
		fmt.Fprintf(s.in, "(pop %d)\n", n)
		l.stack, l.used = l.stack[:k], l.used[:k]
	}
	for _, c := range pc[k:] {
		l.stack, l.used = append(l.stack, c), append(l.used, l.push(c))
	}
	exact := true
	for _, u := range l.used {
		exact = exact && u
	}
	s.Stats.Queries++
	exact = l.push(extra) && exact
	fmt.Fprintln(s.in, "(check-sat)")
	s.in.Flush()
	line := s.readLine()
	res, m := Unknown, Model(nil)
	switch line {
	case "unsat":
		res = Unsat
		s.Stats.Unsat++
	case "sat":
		if exact {
			m = l.model(vars)
		}
		if m != nil {
			res = Sat
			s.Stats.Sat++
		} else {
			s.Stats.Unknown++
		}
	default:
		s.Stats.Unknown++
		if strings.HasPrefix(line, "(error") || line == "" {
			fmt.Println("lia:", line)
		}
		s.dead = true
	}
	if !s.dead {
		fmt.Fprintln(s.in, "(pop 1)")
	}
	return res, m
}

func (l *liaSolver) model(vars []*Term) Model {
	m := Model{}
	n := 0
	l.s.in.WriteString("(get-value (")
	for _, v := range vars {
		if l.decl[v] {
			fmt.Fprintf(l.s.in, "|%s| ", v.name)
			n++
		}
	}
	if n == 0 {
		l.s.in.WriteString("true")
	}
	l.s.in.WriteString("))\n")
	l.s.in.Flush()
	var sb strings.Builder
	depth, inBar := 0, false
	for {
		c, err := l.s.out.ReadByte()
		if err != nil {
			l.s.dead = true
			return nil
		}
		sb.WriteByte(c)
		if c == '|' {
			inBar = !inBar
		}
		if inBar {
			continue
		}
		if c == '(' {
			depth++
		} else if c == ')' {
			if depth--; depth == 0 {
				break
			}
		}
	}
	l.s.out.ReadString('\n')
	return parseInts(sb.String(), l.tt, m)
}

// parseInts reads "((|x| 3) (y true) ...)"; variables are never negative.
func parseInts(txt string, tt *TermTable, m Model) Model {
	for i := 1; i < len(txt); i++ {
		if txt[i] != '(' {
			continue
		}
		i++
		var name string
		if txt[i] == '|' {
			j := strings.IndexByte(txt[i+1:], '|')
			name = txt[i+1 : i+1+j]
			i += j + 2
		} else {
			j := strings.IndexByte(txt[i:], ' ')
			name = txt[i : i+j]
			i += j
		}
		j := strings.IndexByte(txt[i:], ')')
		lit := strings.TrimSpace(txt[i : i+j])
		i += j
		t := tt.byName[name]
		if t == nil {
			continue
		}
		if lit == "true" {
			m[t] = 1
		} else if lit == "false" {
			m[t] = 0
		} else if v, err := strconv.ParseUint(lit, 10, 64); err == nil {
			m[t] = v
		} else {
			return nil
		}
	}
	return m
}
