package main

import (
	"regexp"
	"regexp/syntax"
)

// regexTerm builds the condition under which re matches somewhere in the symbolic string.
func (e *Engine) regexTerm(re *regexp.Regexp, ts []*Term) *Term {
	sre, err := syntax.Parse(re.String(), syntax.Perl)
	if err != nil {
		panic(abort{"unsupported", "regexp"})
	}
	prog, err := syntax.Compile(sre.Simplify())
	if err != nil {
		panic(abort{"unsupported", "regexp"})
	}
	tt := e.tt
	ascii := true
	for _, t := range ts {
		if !e.knownASCII(t) {
			ascii = false
			break
		}
	}
	var in []*Term
	if ascii || byteSafe(prog) {
		for _, t := range ts {
			in = append(in, tt.Zext(t, 32))
		}
	} else {
		for i := 0; i < len(ts); {
			r, n := e.decodeRune(ts[i:])
			in = append(in, r)
			i += n
		}
	}
	n := len(in)
	k := len(prog.Inst)
	// forward simulation: state -> condition that the state is active before position i
	cur := make([]*Term, k)
	for i := range cur {
		cur[i] = tt.fls
	}
	match := tt.fls
	for pos := 0; pos <= n; pos++ {
		// unanchored search: the start state is active at every position
		act := make([]*Term, k)
		for i := range act {
			act[i] = tt.fls
		}
		var add func(pc uint32, g *Term, depth int)
		add = func(pc uint32, g *Term, depth int) {
			if g == tt.fls {
				return
			}
			old := act[pc]
			nw := tt.Or(old, g)
			if nw == old {
				return
			}
			act[pc] = nw
			ins := &prog.Inst[pc]
			switch ins.Op {
			case syntax.InstAlt, syntax.InstAltMatch:
				add(ins.Out, g, depth+1)
				add(ins.Arg, g, depth+1)
			case syntax.InstCapture, syntax.InstNop:
				add(ins.Out, g, depth+1)
			case syntax.InstEmptyWidth:
				c := tt.tru
				fl := syntax.EmptyOp(ins.Arg)
				if fl&syntax.EmptyBeginText != 0 && pos != 0 {
					c = tt.fls
				}
				if fl&syntax.EmptyEndText != 0 && pos != n {
					c = tt.fls
				}
				if fl&syntax.EmptyBeginLine != 0 && pos != 0 {
					c = tt.And(c, tt.Eq(in[pos-1], tt.Const('\n', 32)))
				}
				if fl&syntax.EmptyEndLine != 0 && pos != n {
					c = tt.And(c, tt.Eq(in[pos], tt.Const('\n', 32)))
				}
				if fl&(syntax.EmptyWordBoundary|syntax.EmptyNoWordBoundary) != 0 {
					w := func(i int) *Term {
						if i < 0 || i >= n {
							return tt.fls
						}
						return e.inRanges(in[i], []rune{'0', '9', 'A', 'Z', '_', '_', 'a', 'z'})
					}
					b := tt.Not(tt.Eq(w(pos-1), w(pos)))
					if fl&syntax.EmptyWordBoundary != 0 {
						c = tt.And(c, b)
					}
					if fl&syntax.EmptyNoWordBoundary != 0 {
						c = tt.And(c, tt.Not(b))
					}
				}
				add(ins.Out, tt.And(g, c), depth+1)
			case syntax.InstMatch:
				match = tt.Or(match, g)
			}
		}
		for pc, g := range cur {
			add(uint32(pc), g, 0)
		}
		add(uint32(prog.Start), tt.tru, 0)
		if pos == n || match == tt.tru {
			break
		}
		next := make([]*Term, k)
		for i := range next {
			next[i] = tt.fls
		}
		for pc, g := range act {
			if g == tt.fls {
				continue
			}
			ins := &prog.Inst[pc]
			var c *Term
			switch ins.Op {
			case syntax.InstRuneAny:
				c = tt.tru
			case syntax.InstRuneAnyNotNL:
				c = tt.Not(tt.Eq(in[pos], tt.Const('\n', 32)))
			case syntax.InstRune1, syntax.InstRune:
				if syntax.Flags(ins.Arg)&syntax.FoldCase != 0 {
					panic(abort{"unsupported", "case-folding regexp"})
				}
				rs := ins.Rune
				if len(rs) == 1 {
					rs = []rune{rs[0], rs[0]}
				}
				c = e.inRanges(in[pos], rs)
			default:
				continue
			}
			next[ins.Out] = tt.Or(next[ins.Out], tt.And(g, c))
		}
		cur = next
	}
	return match
}

func (e *Engine) inRanges(t *Term, rs []rune) *Term {
	tt := e.tt
	c := tt.fls
	for i := 0; i+1 < len(rs); i += 2 {
		lo, hi := uint64(rs[i]), uint64(rs[i+1])
		if lo == hi {
			c = tt.Or(c, tt.Eq(t, tt.Const(lo, 32)))
			continue
		}
		c = tt.Or(c, tt.And(tt.bin(OUle, tt.Const(lo, 32), t), tt.bin(OUle, t, tt.Const(hi, 32))))
	}
	return c
}

func (e *Engine) knownASCII(t *Term) bool {
	if t.op == OConst {
		return t.val < 0x80
	}
	if tab := e.tt.table(t); tab != nil {
		d := e.dom[t.sup]
		for i, v := range tab {
			if v >= 0x80 && (d == nil || d[i>>6]>>(i&63)&1 == 1) {
				return false
			}
		}
		return true
	}
	return e.tt.ub(t) < 0x80
}

// byteSafe reports whether matching bytes instead of runes gives the same answer: every instruction
// accepting non-ASCII runes accepts all of them and loops on itself.
func byteSafe(p *syntax.Prog) bool {
	for i := range p.Inst {
		ins := &p.Inst[i]
		non := false
		switch ins.Op {
		case syntax.InstRuneAny, syntax.InstRuneAnyNotNL:
			non = true
		case syntax.InstRune, syntax.InstRune1:
			rs := ins.Rune
			if len(rs) == 1 {
				rs = []rune{rs[0], rs[0]}
			}
			for k := 0; k+1 < len(rs); k += 2 {
				if rs[k+1] >= 0x80 {
					if rs[k] > 0x80 || rs[k+1] < 0x10FFFF {
						return false
					}
					non = true
				}
			}
		}
		if non {
			o := &p.Inst[ins.Out]
			if (o.Op != syntax.InstAlt && o.Op != syntax.InstAltMatch) || (o.Out != uint32(i) && o.Arg != uint32(i)) {
				return false
			}
		}
	}
	return true
}
