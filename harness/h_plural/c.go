// Package h_plural checks the gettext plural rules.
package h_plural

import "github.com/vorlif/spreak/internal/zzverif/nd"

// An evaluator of C plural expressions, written from the C grammar. It knows
// every operator gettext knows, so that it never takes the code's own limits
// for the meaning of a text.

type tok struct {
	k byte // n 0(number) % = ! < > l(<=) g(>=) & | ? : ( ) + - * / ~(not), 'e' end
	v int64
}

type expr struct {
	k       byte
	v       int64
	a, b, c *expr
}

func space(b byte) bool {
	return b == ' ' || b == '\t' || b == '\n' || b == '\r' || b == '\f' || b == '\v'
}

// exact makes lex decide every character that is no digit.
var exact bool

const maxInt64 = 1<<63 - 1

// lex splits the text up; nil if it contains anything else.
func lex(s string) []tok {
	ts := []tok{}
	for i := 0; i < len(s); {
		c := s[i]
		if exact && (c < '0' || c > '9') {
			c = byte(nd.Conc(int(c)))
		}
		two := byte(0)
		if i+1 < len(s) {
			two = s[i+1]
		}
		switch {
		case space(c):
			i++
		case c == 'n' || c == 'N':
			if two == '_' || (two >= 'a' && two <= 'z') || (two >= 'A' && two <= 'Z') {
				return nil
			}
			ts = append(ts, tok{k: 'n'})
			i++
		case c >= '0' && c <= '9':
			v := int64(0)
			for i < len(s) && s[i] >= '0' && s[i] <= '9' {
				d := int64(s[i] - '0')
				if v > maxInt64/10 || (v == maxInt64/10 && d > 7) {
					return nil
				}
				v = v*10 + d
				i++
			}
			ts = append(ts, tok{k: '0', v: v})
		case c == '=' && two == '=':
			ts = append(ts, tok{k: '='})
			i += 2
		case c == '!' && two == '=':
			ts = append(ts, tok{k: '!'})
			i += 2
		case c == '!':
			ts = append(ts, tok{k: '~'})
			i++
		case c == '<' && two == '=':
			ts = append(ts, tok{k: 'l'})
			i += 2
		case c == '>' && two == '=':
			ts = append(ts, tok{k: 'g'})
			i += 2
		case c == '&' && two == '&', c == '|' && two == '|':
			ts = append(ts, tok{k: c})
			i += 2
		case c == '%' || c == '<' || c == '>' || c == '?' || c == ':' || c == '(' || c == ')' || c == '+' || c == '-' || c == '*' || c == '/':
			ts = append(ts, tok{k: c})
			i++
		default:
			return nil
		}
	}
	return append(ts, tok{k: 'e'})
}

type cparser struct {
	ts    []tok
	bad   bool
	extra bool // uses a form the library need not know: + - * / ! or a chain of % == <
}

func (p *cparser) is(k byte) bool { return p.ts[0].k == k }

func (p *cparser) cond() *expr {
	a := p.or()
	if !p.is('?') {
		return a
	}
	p.ts = p.ts[1:]
	b := p.cond()
	if !p.is(':') {
		p.bad = true
		return a
	}
	p.ts = p.ts[1:]
	return &expr{k: '?', a: a, b: b, c: p.cond()}
}

func (p *cparser) chain(next func() *expr, ops string, free bool) *expr {
	a := next()
	for n := 0; !p.bad; n++ {
		k := p.ts[0].k
		found := false
		for i := 0; i < len(ops); i++ {
			found = found || ops[i] == k
		}
		if !found {
			break
		}
		if (n > 0 && !free) || k == '+' || k == '-' || k == '*' || k == '/' {
			p.extra = true
		}
		p.ts = p.ts[1:]
		a = &expr{k: k, a: a, b: next()}
	}
	return a
}

func (p *cparser) or() *expr  { return p.chain(p.and, "|", true) }
func (p *cparser) and() *expr { return p.chain(p.eq, "&", true) }
func (p *cparser) eq() *expr  { return p.chain(p.rel, "=!", false) }
func (p *cparser) rel() *expr { return p.chain(p.add, "<>lg", false) }
func (p *cparser) add() *expr { return p.chain(p.mul, "+-", false) }
func (p *cparser) mul() *expr { return p.chain(p.unary, "*/%", false) }

func (p *cparser) unary() *expr {
	t := p.ts[0]
	if t.k == 'e' {
		p.bad = true
		return &expr{}
	}
	p.ts = p.ts[1:]
	switch t.k {
	case '~':
		p.extra = true
		return &expr{k: '~', a: p.unary()}
	case 'n', '0':
		return &expr{k: t.k, v: t.v}
	case '(':
		e := p.cond()
		if p.bad || !p.is(')') {
			p.bad = true
			return e
		}
		p.ts = p.ts[1:]
		return e
	}
	p.bad = true
	return &expr{}
}

// cexpr reads a whole expression; nil if the text is none.
func cexpr(s string) (e *expr, extra bool) {
	ts := lex(s)
	if ts == nil {
		return nil, false
	}
	p := &cparser{ts: ts}
	e = p.cond()
	if p.bad || !p.is('e') {
		return nil, false
	}
	return e, p.extra
}

func flag(b bool) int64 {
	if b {
		return 1
	}
	return 0
}

// eval is the value for n >= 0; defined is false if a remainder by zero is involved anywhere.
func (e *expr) eval(n int64, defined *bool) int64 {
	switch e.k {
	case 'n':
		return n
	case '0':
		return e.v
	case '?':
		x, y, z := e.a.eval(n, defined), e.b.eval(n, defined), e.c.eval(n, defined)
		if x != 0 {
			return y
		}
		return z
	case '~':
		return flag(e.a.eval(n, defined) == 0)
	}
	x, y := e.a.eval(n, defined), e.b.eval(n, defined)
	switch e.k {
	case '|':
		return flag(x != 0 || y != 0)
	case '&':
		return flag(x != 0 && y != 0)
	case '=':
		return flag(x == y)
	case '!':
		return flag(x != y)
	case '<':
		return flag(x < y)
	case '>':
		return flag(x > y)
	case 'l':
		return flag(x <= y)
	case 'g':
		return flag(x >= y)
	case '+':
		return x + y
	case '-':
		return x - y
	case '*':
		return x * y
	}
	if y == 0 {
		*defined = false
		return 0
	}
	if e.k == '/' {
		return x / y
	}
	return x % y
}

// header splits a Plural-Forms value into the number of forms and the expression.
func header(s string) (n int64, e *expr, extra, ok bool) {
	skip := func() {
		for len(s) > 0 && space(s[0]) {
			s = s[1:]
		}
	}
	word := func(w string) bool {
		skip()
		if len(s) < len(w) {
			return false
		}
		for i := 0; i < len(w); i++ {
			c := s[i]
			if c >= 'A' && c <= 'Z' {
				c += 'a' - 'A'
			}
			if c != w[i] {
				return false
			}
		}
		s = s[len(w):]
		return true
	}
	if !word("nplurals") || !word("=") {
		return 0, nil, false, false
	}
	skip()
	digits := 0
	for len(s) > 0 && s[0] >= '0' && s[0] <= '9' {
		d := int64(s[0] - '0')
		if n > maxInt64/10 || (n == maxInt64/10 && d > 7) {
			return 0, nil, false, false
		}
		n = n*10 + d
		digits++
		s = s[1:]
	}
	if digits == 0 || n < 1 || !word(";") || !word("plural") || !word("=") {
		return 0, nil, false, false
	}
	for len(s) > 0 && space(s[len(s)-1]) {
		s = s[:len(s)-1]
	}
	semi := len(s) > 0 && s[len(s)-1] == ';'
	if semi {
		s = s[:len(s)-1]
	}
	e, extra = cexpr(s)
	extra = extra || !semi
	return n, e, extra, e != nil
}

// want is the index gettext selects.
func want(forms int64, e *expr, n int64) (int64, bool) {
	defined := true
	v := e.eval(n, &defined)
	if v < 0 || v >= forms {
		v = 0
	}
	return v, defined
}
