// Package h_cldr checks the CLDR plural rules.
package h_cldr

import (
	"strings"

	"github.com/vorlif/spreak/catalog/cldrplural"
	"github.com/vorlif/spreak/internal/zzverif/gen"
	"github.com/vorlif/spreak/internal/zzverif/nd"
)

// number is a source number: num/10^v with its visible digits, all exact.
type number struct {
	num, den         int64
	i, v, w, f, t, c int64
}

func pow10(k int64) int64 {
	p := int64(1)
	for ; k > 0; k-- {
		p *= 10
	}
	return p
}

const exactFloat = 1 << 53

// anyNumber has v fraction digits, w of them up to the last one that is not zero.
func anyNumber(v int64) number {
	x := number{v: v, den: pow10(v)}
	x.i = gen.Count("i")
	nd.Assume(x.i <= (exactFloat-x.den)/x.den)
	if v > 0 {
		x.w = int64(nd.Choice("w", int(v)+1))
		if x.w > 0 {
			x.t = gen.Count("t")
			nd.Assume(x.t < pow10(x.w))
			nd.Assume(x.t%10 != 0)
		}
		x.f = x.t * pow10(v-x.w)
	}
	x.num = x.i*x.den + x.f
	x.c = gen.Count("c")
	nd.Assume(x.c < 20)
	return x
}

func (x number) operands() *cldrplural.Operands {
	return &cldrplural.Operands{N: float64(x.num) / float64(x.den), I: x.i, V: x.v, W: x.w, F: x.f, T: x.t, C: x.c}
}

type relation struct {
	op  byte
	mod int64
	not bool
	set [][2]int64
}

// rule is a disjunction of conjunctions.
type rule [][]relation

func atoi(s string) (int64, bool) {
	n := int64(0)
	for i := 0; i < len(s); i++ {
		if s[i] < '0' || s[i] > '9' || n > (1<<63-1-9)/10 {
			return 0, false
		}
		n = n*10 + int64(s[i]-'0')
	}
	return n, s != ""
}

// parse reads a condition in the syntax of UTS 35, part 3, with blanks around the operators.
func parse(s string) (rule, bool) {
	var r rule
	and := []relation{}
	ws := strings.Fields(s)
	at := func(k int) string {
		if k < len(ws) {
			return ws[k]
		}
		return ""
	}
	for k := 0; ; {
		op := at(k)
		if len(op) != 1 || !strings.Contains("nivwftce", op) {
			return nil, false
		}
		x := relation{op: op[0]}
		k++
		if at(k) == "%" || at(k) == "mod" {
			var ok bool
			if x.mod, ok = atoi(at(k + 1)); !ok || x.mod == 0 {
				return nil, false
			}
			k += 2
		}
		if at(k) != "=" && at(k) != "!=" {
			return nil, false
		}
		x.not = at(k) == "!="
		k++
		for {
			e := at(k)
			k++
			more := strings.HasSuffix(e, ",")
			e = strings.TrimSuffix(e, ",")
			for _, p := range strings.Split(e, ",") {
				lo, hi, isRange := strings.Cut(p, "..")
				a, ok := atoi(lo)
				b := a
				if isRange {
					var ok2 bool
					b, ok2 = atoi(hi)
					ok = ok && ok2 && a <= b
				}
				if !ok {
					return nil, false
				}
				x.set = append(x.set, [2]int64{a, b})
			}
			if !more {
				break
			}
		}
		and = append(and, x)
		switch at(k) {
		case "and":
		case "or":
			r = append(r, and)
			and = nil
		case "":
			return append(r, and), true
		default:
			return nil, false
		}
		k++
	}
}

func (x relation) holds(n number) bool {
	num, f := int64(0), int64(0)
	switch x.op {
	case 'n':
		num, f = n.i, n.f
	case 'i':
		num = n.i
	case 'v':
		num = n.v
	case 'w':
		num = n.w
	case 'f':
		num = n.f
	case 't':
		num = n.t
	case 'c', 'e':
		num = n.c
	}
	if x.mod > 0 {
		num %= x.mod
	}
	in := false
	for _, s := range x.set {
		in = nd.Or(in, nd.And(f == 0, nd.And(num >= s[0], num <= s[1])))
	}
	if x.not {
		return !in
	}
	return in
}

func (r rule) holds(n number) bool {
	or := false
	for _, and := range r {
		all := true
		for _, x := range and {
			all = nd.And(all, x.holds(n))
		}
		or = nd.Or(or, all)
	}
	return or
}

var names = []string{"zero", "one", "two", "few", "many", "other"}

func category(name string) cldrplural.Category {
	for i, n := range names {
		if n == name {
			return []cldrplural.Category{cldrplural.Zero, cldrplural.One, cldrplural.Two, cldrplural.Few, cldrplural.Many, cldrplural.Other}[i]
		}
	}
	return -1
}
