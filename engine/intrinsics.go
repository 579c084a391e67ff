package main

import (
	"fmt"
	"go/token"
	"go/types"
	"math"
	"math/bits"
	"regexp"
	"strconv"
	"strings"
	"sync"
	"unicode/utf8"

	"golang.org/x/tools/go/ssa"
)

const tokLess = token.LSS

type intrinsic func(e *Engine, ci *cinstr, a []Value) Value

type intrEntry struct {
	in    intrinsic
	redir *ssa.Function
}

var intrCache sync.Map

func (w *World) lookupIntrinsicCached(fn *ssa.Function) (intrinsic, *ssa.Function) {
	return w.lookupIntrinsic(fn)
}

func fnName(fn *ssa.Function) string {
	if o := fn.Origin(); o != nil {
		return o.String()
	}
	return fn.String()
}

func (w *World) lookupIntrinsic(fn *ssa.Function) (intrinsic, *ssa.Function) {
	if v, ok := intrCache.Load(fn); ok {
		x := v.(intrEntry)
		return x.in, x.redir
	}
	n := fnName(fn)
	var x intrEntry
	if in, ok := intrinsics[n]; ok {
		x.in = in
	} else if m, ok := redirects[n]; ok {
		if p := w.pkgs[harnessRoot+"/model"]; p != nil {
			if f := p.Func(m); f != nil {
				x.redir = f
			}
		}
	} else if in := patternIntrinsic(n, fn); in != nil {
		x.in = in
	}
	intrCache.Store(fn, x)
	return x.in, x.redir
}

func pureIntrinsic(fn *ssa.Function) bool {
	n := fnName(fn)
	switch {
	case strings.HasPrefix(n, "math."), strings.HasPrefix(n, "math/bits."):
		return true
	case strings.HasPrefix(n, "internal/bytealg.") && !strings.Contains(n, "MakeNoZero"):
		return true
	case strings.HasPrefix(n, "strings.Contains"), n == "strings.EqualFold":
		return true
	case strings.HasPrefix(n, harnessRoot+"/nd.Same"), n == harnessRoot+"/nd.IteInt", n == harnessRoot+"/nd.And", n == harnessRoot+"/nd.Or":
		return true
	case strings.HasPrefix(n, "(sync/atomic.") || strings.HasPrefix(n, "(*sync/atomic."):
		return strings.HasSuffix(n, ".Load")
	}
	return false
}

// redirects maps functions to Go models in the harness package "model".
var redirects = map[string]string{
	"(*sync.Pool).Get":                       "PoolGet",
	"errors.As":                              "ErrorsAs",
	"os.Open":                                "OSOpen",
	"(*os.File).Read":                        "OSFileRead",
	"(*os.File).Close":                       "OSFileClose",
	"internal/reflectlite.Swapper":           "Swapper",
	"(*sync.Once).Do":                        "OnceDo",
	"encoding/json.Unmarshal":                "JSONUnmarshal",
	"encoding/json.Marshal":                  "JSONMarshal",
	"encoding/json.Valid":                    "JSONValid",
	"(*encoding/json.Encoder).Encode":        "JSONEncode",
	"encoding/json.NewEncoder":               "JSONNewEncoder",
	"(*encoding/json.Encoder).SetIndent":     "JSONSetIndent",
	"(*encoding/json.Encoder).SetEscapeHTML": "JSONSetEscapeHTML",
	"encoding/json.NewDecoder":               "JSONNewDecoder",
	"(*encoding/json.Decoder).Decode":        "JSONDecode",
	"time.Now":                               "TimeNow",
	"encoding/binary.Read":                   "BinaryRead",
}

func skipInit(path string) bool {
	switch path {
	case "runtime", "os", "syscall", "reflect", "sync", "sync/atomic", "unsafe", "internal/reflectlite", "encoding/json", "runtime/debug", "io/ioutil",
		"testing", "os/exec", "os/signal", "path/filepath", "embed", "log", "net", "context", "crypto", "hash/maphash", "math/rand", "math/rand/v2", "internal/godebug", "internal/bytealg", "encoding", "encoding/base64", "unique", "weak", "iter", "internal/poll":
		return true
	case "internal/oserror":
		return false
	}
	if strings.HasPrefix(path, "internal/") || strings.HasPrefix(path, "runtime/") || strings.HasPrefix(path, "encoding/json/") || strings.HasPrefix(path, "vendor/") {
		return true
	}
	return false
}

func noop(e *Engine, ci *cinstr, a []Value) Value    { return Value{} }
func first(e *Engine, ci *cinstr, a []Value) Value   { return a[0] }
func retTrue(e *Engine, ci *cinstr, a []Value) Value { return mkBool(true) }

func (e *Engine) rawSet(p Value, v Value) {
	o, ok := p.P.(*Obj)
	if !ok {
		e.nilDeref()
	}
	fz, of := e.frozen, o.frozen
	e.frozen, o.frozen = false, false
	e.setCell(o, int(p.N), v)
	e.frozen, o.frozen = fz, of
}

// patternIntrinsic covers families of functions.
func patternIntrinsic(n string, fn *ssa.Function) intrinsic {
	if strings.HasPrefix(n, "(*sync/atomic.") || strings.HasPrefix(n, "sync/atomic.") || strings.HasPrefix(n, "internal/runtime/atomic.") || strings.HasPrefix(n, "(*internal/runtime/atomic.") {
		m := fn.Name()
		if fn.Signature.Recv() == nil {
			for _, p := range []string{"Load", "Store", "Add", "Swap", "CompareAndSwap"} {
				if strings.HasPrefix(m, p) {
					m = p
					break
				}
			}
		}
		isValue := strings.HasPrefix(n, "(*sync/atomic.Value)")
		_ = isValue
		var bi basicInfo
		for i := 0; i < fn.Signature.Params().Len(); i++ {
			if b := basicOf(fn.Signature.Params().At(i).Type()); b.kind == 'i' {
				bi = b
			}
		}
		switch m {
		case "Load":
			return func(e *Engine, ci *cinstr, a []Value) Value { return e.load(a[0], 1, false) }
		case "Store":
			return func(e *Engine, ci *cinstr, a []Value) Value { e.rawSet(a[0], a[1]); return Value{} }
		case "Add":
			return func(e *Engine, ci *cinstr, a []Value) Value {
				old := e.load(a[0], 1, false)
				c := *ci
				c.bi = bi
				v := e.binop(token.ADD, old, a[1], &c)
				e.rawSet(a[0], v)
				return v
			}
		case "Swap":
			return func(e *Engine, ci *cinstr, a []Value) Value {
				old := e.load(a[0], 1, false)
				e.rawSet(a[0], a[1])
				return old
			}
		case "CompareAndSwap":
			return func(e *Engine, ci *cinstr, a []Value) Value {
				old := e.load(a[0], 1, false)
				if old.N == a[1].N && old.P == a[1].P {
					e.rawSet(a[0], a[2])
					return mkBool(true)
				}
				return mkBool(false)
			}
		}
	}
	if strings.HasPrefix(n, "(*sync.Mutex).") || strings.HasPrefix(n, "(*sync.RWMutex).") || strings.HasPrefix(n, "(*internal/sync.Mutex).") {
		if strings.HasPrefix(fn.Name(), "Try") {
			return retTrue
		}
		if fn.Name() == "RLocker" {
			return nil
		}
		return noop
	}
	if strings.HasPrefix(n, "(*sync.WaitGroup).") && fn.Name() != "Go" {
		return noop
	}
	if strings.HasPrefix(n, "math.") {
		return mathIntrinsic(fn.Name())
	}
	return nil
}

func fl(v Value) float64  { return math.Float64frombits(v.N) }
func mkF(f float64) Value { return Value{N: math.Float64bits(f)} }

var math1 = map[string]func(float64) float64{"Floor": math.Floor, "Ceil": math.Ceil, "Trunc": math.Trunc, "Sqrt": math.Sqrt, "Abs": math.Abs, "Log": math.Log,
	"Exp": math.Exp, "Log10": math.Log10, "Log2": math.Log2, "Log1p": math.Log1p, "Round": math.Round, "RoundToEven": math.RoundToEven, "Exp2": math.Exp2, "Cbrt": math.Cbrt}
var math2 = map[string]func(a, b float64) float64{"Pow": math.Pow, "Mod": math.Mod, "Max": math.Max, "Min": math.Min, "Copysign": math.Copysign, "Remainder": math.Remainder, "Hypot": math.Hypot}

func mathIntrinsic(name string) intrinsic {
	sym := func(e *Engine, a []Value) (Value, bool) {
		for _, v := range a {
			if _, ok := v.P.(*FTerm); ok {
				if _, ok := a[0].P.(*FTerm); !ok {
					if y := a[1].P.(*FTerm); name == "Copysign" && !y.fuzzy && e.merging == 0 {
						// -0.0 is not represented
						f := math.Abs(fl(a[0]))
						if e.fork(e.tt.bin(OSlt, y.num, e.tt.Const(0, 64))) {
							f = -f
						}
						return mkF(f), true
					}
					panic(abort{"unsupported", "math." + name + " with symbolic second operand"})
				}
				return e.mathFloat(name, a)
			}
		}
		return Value{}, false
	}
	if f, ok := math1[name]; ok {
		return func(e *Engine, ci *cinstr, a []Value) Value {
			if v, ok := sym(e, a); ok {
				return v
			}
			return mkF(f(fl(a[0])))
		}
	}
	if f, ok := math2[name]; ok {
		return func(e *Engine, ci *cinstr, a []Value) Value {
			if v, ok := sym(e, a); ok {
				return v
			}
			return mkF(f(fl(a[0]), fl(a[1])))
		}
	}
	switch name {
	case "Modf":
		return func(e *Engine, ci *cinstr, a []Value) Value {
			if v, ok := sym(e, a); ok {
				return v
			}
			x, y := math.Modf(fl(a[0]))
			return Value{P: []Value{mkF(x), mkF(y)}}
		}
	case "Frexp":
		return func(e *Engine, ci *cinstr, a []Value) Value {
			x, y := math.Frexp(fl(a[0]))
			return Value{P: []Value{mkF(x), mkInt(y)}}
		}
	case "IsNaN":
		return func(e *Engine, ci *cinstr, a []Value) Value {
			if a[0].P != nil {
				return mkBool(false)
			}
			return mkBool(math.IsNaN(fl(a[0])))
		}
	case "IsInf":
		return func(e *Engine, ci *cinstr, a []Value) Value {
			if a[0].P != nil {
				return mkBool(false)
			}
			return mkBool(math.IsInf(fl(a[0]), int(int64(a[1].N))))
		}
	case "Signbit":
		return func(e *Engine, ci *cinstr, a []Value) Value {
			if v, ok := sym(e, a); ok {
				return v
			}
			return mkBool(math.Signbit(fl(a[0])))
		}
	case "Inf":
		return func(e *Engine, ci *cinstr, a []Value) Value { return mkF(math.Inf(int(int64(a[0].N)))) }
	case "NaN":
		return func(e *Engine, ci *cinstr, a []Value) Value { return mkF(math.NaN()) }
	case "Float64bits":
		return func(e *Engine, ci *cinstr, a []Value) Value {
			if a[0].P != nil {
				panic(abort{"unsupported", "bits of a symbolic float"})
			}
			return Value{N: a[0].N}
		}
	case "Float64frombits":
		return func(e *Engine, ci *cinstr, a []Value) Value {
			if t := symOf(a[0]); t != nil {
				panic(abort{"unsupported", "float from symbolic bits"})
			}
			return Value{N: a[0].N}
		}
	case "Float32bits":
		return func(e *Engine, ci *cinstr, a []Value) Value {
			if a[0].P != nil {
				panic(abort{"unsupported", "bits of a symbolic float"})
			}
			return Value{N: uint64(math.Float32bits(float32(fl(a[0]))))}
		}
	case "Float32frombits":
		return func(e *Engine, ci *cinstr, a []Value) Value {
			return mkF(float64(math.Float32frombits(uint32(a[0].N))))
		}
	}
	return nil
}

// indexTerms finds the first occurrence of sub in s, forking per position; -1 if none.
func (e *Engine) indexTerms(s, sub []*Term) int {
	for i := 0; i+len(sub) <= len(s); i++ {
		c := e.tt.tru
		for k := range sub {
			c = e.tt.And(c, e.tt.Eq(s[i+k], sub[k]))
			if c == e.tt.fls {
				break
			}
		}
		if e.fork(c) {
			return i
		}
	}
	return -1
}

func (e *Engine) lastIndexTerms(s, sub []*Term) int {
	for i := len(s) - len(sub); i >= 0; i-- {
		c := e.tt.tru
		for k := range sub {
			c = e.tt.And(c, e.tt.Eq(s[i+k], sub[k]))
			if c == e.tt.fls {
				break
			}
		}
		if e.fork(c) {
			return i
		}
	}
	return -1
}

func (e *Engine) containsTerm(s, sub []*Term) *Term {
	r := e.tt.fls
	for i := 0; i+len(sub) <= len(s); i++ {
		c := e.tt.tru
		for k := range sub {
			c = e.tt.And(c, e.tt.Eq(s[i+k], sub[k]))
			if c == e.tt.fls {
				break
			}
		}
		r = e.tt.Or(r, c)
	}
	return r
}

func allConc(vs ...[]*Term) bool {
	for _, v := range vs {
		for _, t := range v {
			if t.op != OConst {
				return false
			}
		}
	}
	return true
}

func (e *Engine) countByte(s []*Term, c *Term) Value {
	r := e.tt.Const(0, 64)
	for _, t := range s {
		r = e.tt.bin(OAdd, r, e.tt.Zext(e.tt.Eq(t, c), 64))
	}
	return fromTerm(r, i64)
}

func (e *Engine) cmpTerms(x, y []*Term) Value {
	a, b := mkSymStr(x), mkSymStr(y)
	lt := e.strLess(a, b, false)
	eq := e.strEq(a, b)
	t := e.tt.Ite(lt, e.tt.Const(^uint64(0), 64), e.tt.Ite(eq, e.tt.Const(0, 64), e.tt.Const(1, 64)))
	return fromTerm(t, i64)
}

func one(t *Term) []*Term { return []*Term{t} }

var intrinsics map[string]intrinsic

func concStr(e *Engine, v Value) string {
	s, ok := strConc(v)
	if !ok {
		panic(abort{"unsupported", "symbolic string where a concrete one is needed"})
	}
	return s
}

func (e *Engine) strList(ss []string) Value {
	o := e.newObj(len(ss), "strs")
	o.cells = make([]Value, len(ss))
	for i, s := range ss {
		o.cells[i] = mkStr(s)
	}
	return Value{P: &Slice{obj: o, len: len(ss), cap: len(ss)}}
}

func reOf(v Value) *regexp.Regexp {
	if o, ok := v.P.(*Obj); ok {
		if r, ok := o.get(0).P.(*regexp.Regexp); ok {
			return r
		}
	}
	panic(abort{"unsupported", "regexp value"})
}

func init() {
	nd := harnessRoot + "/nd."
	mod := harnessRoot + "/model."
	intrinsics = map[string]intrinsic{
		"(*sync.Pool).Put":             noop,
		"(*strings.Builder).copyCheck": noop,
		"internal/abi.NoEscape":        first,
		"internal/abi.Escape":          first,
		"strings.noescape":             first,
		"runtime.KeepAlive":            noop,
		"runtime.GC":                   noop,
		"runtime.SetFinalizer":         noop,
		"internal/race.Enabled":        noop,
		"internal/bytealg.MakeNoZero": func(e *Engine, ci *cinstr, a []Value) Value {
			n := int(e.concInt(a[0], i64))
			return Value{P: &Slice{obj: e.newObj(n, "bytes"), len: n, cap: n}}
		},
		"internal/bytealg.IndexByteString": func(e *Engine, ci *cinstr, a []Value) Value {
			if s, ok := strConc(a[0]); ok && a[1].P == nil {
				return mkInt(strings.IndexByte(s, byte(a[1].N)))
			}
			return mkInt(e.indexTerms(e.strTerms(a[0]), one(e.byteTerm(a[1]))))
		},
		"internal/bytealg.IndexByte": func(e *Engine, ci *cinstr, a []Value) Value {
			return mkInt(e.indexTerms(e.sliceTerms(a[0]), one(e.byteTerm(a[1]))))
		},
		"internal/bytealg.LastIndexByteString": func(e *Engine, ci *cinstr, a []Value) Value {
			return mkInt(e.lastIndexTerms(e.strTerms(a[0]), one(e.byteTerm(a[1]))))
		},
		"internal/bytealg.LastIndexByte": func(e *Engine, ci *cinstr, a []Value) Value {
			return mkInt(e.lastIndexTerms(e.sliceTerms(a[0]), one(e.byteTerm(a[1]))))
		},
		"internal/bytealg.CountString": func(e *Engine, ci *cinstr, a []Value) Value {
			return e.countByte(e.strTerms(a[0]), e.byteTerm(a[1]))
		},
		"internal/bytealg.Count": func(e *Engine, ci *cinstr, a []Value) Value {
			return e.countByte(e.sliceTerms(a[0]), e.byteTerm(a[1]))
		},
		"internal/bytealg.Compare": func(e *Engine, ci *cinstr, a []Value) Value {
			return e.cmpTerms(e.sliceTerms(a[0]), e.sliceTerms(a[1]))
		},
		"internal/bytealg.CompareString": func(e *Engine, ci *cinstr, a []Value) Value {
			return e.cmpTerms(e.strTerms(a[0]), e.strTerms(a[1]))
		},
		"internal/runtime/strhash": noop,
		"cmp.Compare[string]": func(e *Engine, ci *cinstr, a []Value) Value {
			return e.cmpTerms(e.strTerms(a[0]), e.strTerms(a[1]))
		},
		"strings.Compare": func(e *Engine, ci *cinstr, a []Value) Value {
			return e.cmpTerms(e.strTerms(a[0]), e.strTerms(a[1]))
		},
		"bytes.Equal": func(e *Engine, ci *cinstr, a []Value) Value {
			return boolVal(e.strEq(mkSymStr(e.sliceTerms(a[0])), mkSymStr(e.sliceTerms(a[1]))))
		},
		"internal/bytealg.Equal": func(e *Engine, ci *cinstr, a []Value) Value {
			return boolVal(e.strEq(mkSymStr(e.sliceTerms(a[0])), mkSymStr(e.sliceTerms(a[1]))))
		},
		"bytes.Index": func(e *Engine, ci *cinstr, a []Value) Value {
			return mkInt(e.indexTerms(e.sliceTerms(a[0]), e.sliceTerms(a[1])))
		},
		"bytes.IndexByte": func(e *Engine, ci *cinstr, a []Value) Value {
			return mkInt(e.indexTerms(e.sliceTerms(a[0]), one(e.byteTerm(a[1]))))
		},
		"internal/stringslite.Index": idxStr,
		"strings.Index":              idxStr,
		"strings.LastIndex": func(e *Engine, ci *cinstr, a []Value) Value {
			return mkInt(e.lastIndexTerms(e.strTerms(a[0]), e.strTerms(a[1])))
		},
		"strings.Contains": func(e *Engine, ci *cinstr, a []Value) Value {
			if s, ok := strConc(a[0]); ok {
				if t, ok := strConc(a[1]); ok {
					return mkBool(strings.Contains(s, t))
				}
			}
			return boolVal(e.containsTerm(e.strTerms(a[0]), e.strTerms(a[1])))
		},
		"bytes.Contains": func(e *Engine, ci *cinstr, a []Value) Value {
			return boolVal(e.containsTerm(e.sliceTerms(a[0]), e.sliceTerms(a[1])))
		},
		"math/bits.Mul64": func(e *Engine, ci *cinstr, a []Value) Value {
			if a[0].P == nil && a[1].P == nil {
				h, l := bits.Mul64(a[0].N, a[1].N)
				return Value{P: []Value{{N: h}, {N: l}}}
			}
			u := basicInfo{64, false, 'i'}
			x, y := e.term(a[0], u), e.term(a[1], u)
			return Value{P: []Value{fromTerm(e.tt.bin(OMulHi, x, y), u), fromTerm(e.tt.bin(OMul, x, y), u)}}
		},
		"strconv.FormatInt": func(e *Engine, ci *cinstr, a []Value) Value {
			b := e.concInt(a[1], i64)
			if a[0].P == nil {
				return mkStr(strconv.FormatInt(int64(a[0].N), int(b)))
			}
			return e.formatInt(symOf(a[0]), true, uint64(b))
		},
		"strconv.FormatUint": func(e *Engine, ci *cinstr, a []Value) Value {
			b := e.concInt(a[1], i64)
			if a[0].P == nil {
				return mkStr(strconv.FormatUint(a[0].N, int(b)))
			}
			return e.formatInt(symOf(a[0]), false, uint64(b))
		},
		"strconv.Itoa": func(e *Engine, ci *cinstr, a []Value) Value {
			if a[0].P == nil {
				return mkStr(strconv.Itoa(int(int64(a[0].N))))
			}
			return e.formatInt(symOf(a[0]), true, 10)
		},
		"strconv.FormatFloat": func(e *Engine, ci *cinstr, a []Value) Value {
			if x, ok := a[0].P.(*FTerm); ok {
				return e.formatFloat(x, byte(e.concInt(a[1], u8)), int(e.concInt(a[2], i64)))
			}
			return mkStr(strconv.FormatFloat(fl(a[0]), byte(a[1].N), int(int64(a[2].N)), int(int64(a[3].N))))
		},
		"strconv.AppendFloat": func(e *Engine, ci *cinstr, a []Value) Value {
			var s Value
			if x, ok := a[1].P.(*FTerm); ok {
				s = e.formatFloat(x, byte(e.concInt(a[2], u8)), int(e.concInt(a[3], i64)))
			} else {
				s = mkStr(strconv.FormatFloat(fl(a[1]), byte(a[2].N), int(int64(a[3].N)), int(int64(a[4].N))))
			}
			c := *ci
			c.x = 1
			return e.doAppend(nil, &c, []Value{a[0], s})
		},
		// error texts only: a symbolic string is not escaped
		"strconv.AppendQuote": func(e *Engine, ci *cinstr, a []Value) Value {
			s := a[1]
			if c, ok := strConc(s); ok {
				s = mkStr(strconv.Quote(c))
			} else {
				e.noteCnt["strconv.AppendQuote of a symbolic string not escaped (error texts)"]++
				s = e.concat(e.concat(mkStr("\""), s), mkStr("\""))
			}
			c := *ci
			c.x = 1
			return e.doAppend(nil, &c, []Value{a[0], s})
		},
		"strconv.Quote": func(e *Engine, ci *cinstr, a []Value) Value {
			if c, ok := strConc(a[0]); ok {
				return mkStr(strconv.Quote(c))
			}
			e.noteCnt["strconv.Quote of a symbolic string not escaped (error texts)"]++
			return e.concat(e.concat(mkStr("\""), a[0]), mkStr("\""))
		},
		"strconv.ParseFloat": func(e *Engine, ci *cinstr, a []Value) Value {
			s, ok := strConc(a[0])
			if !ok {
				return e.parseFloatSym(a[0])
			}
			f, err := strconv.ParseFloat(s, int(int64(a[1].N)))
			var ev Value
			if err != nil {
				ev = e.mkError("strconv.ParseFloat: parsing " + strconv.Quote(s) + ": invalid syntax")
			}
			return Value{P: []Value{mkF(f), ev}}
		},
		"maps.clone": func(e *Engine, ci *cinstr, a []Value) Value {
			i := a[0].P.(*Iface)
			m, _ := i.v.P.(*MapObj)
			if m == nil {
				return a[0]
			}
			n := e.newMap()
			n.symKeys, n.live = m.symKeys, m.live
			for k, x := range m.index {
				n.index[k] = x
			}
			for _, en := range m.entries {
				c := *en
				n.entries = append(n.entries, &c)
			}
			return Value{P: &Iface{t: i.t, v: Value{P: n}}}
		},
		// regexp
		"regexp.MustCompile": func(e *Engine, ci *cinstr, a []Value) Value {
			o := e.newObj(1, "regexp")
			o.cells = []Value{{P: regexp.MustCompile(concStr(e, a[0]))}}
			return Value{P: o}
		},
		"regexp.Compile": func(e *Engine, ci *cinstr, a []Value) Value {
			re, err := regexp.Compile(concStr(e, a[0]))
			if err != nil {
				return Value{P: []Value{{}, e.mkError(err.Error())}}
			}
			o := e.newObj(1, "regexp")
			o.cells = []Value{{P: re}}
			return Value{P: []Value{{P: o}, {}}}
		},
		"(*regexp.Regexp).MatchString": func(e *Engine, ci *cinstr, a []Value) Value {
			re := reOf(a[0])
			if s, ok := strConc(a[1]); ok {
				return mkBool(re.MatchString(s))
			}
			return boolVal(e.regexTerm(re, e.strTerms(a[1])))
		},
		"(*regexp.Regexp).Match": func(e *Engine, ci *cinstr, a []Value) Value {
			return boolVal(e.regexTerm(reOf(a[0]), e.sliceTerms(a[1])))
		},
		"(*regexp.Regexp).FindStringSubmatch": func(e *Engine, ci *cinstr, a []Value) Value {
			m := reOf(a[0]).FindStringSubmatch(concStr(e, a[1]))
			if m == nil {
				return Value{}
			}
			return e.strList(m)
		},
		"(*regexp.Regexp).String": func(e *Engine, ci *cinstr, a []Value) Value { return mkStr(reOf(a[0]).String()) },
		"(*regexp.Regexp).FindString": func(e *Engine, ci *cinstr, a []Value) Value {
			return mkStr(reOf(a[0]).FindString(concStr(e, a[1])))
		},
		"(*regexp.Regexp).ReplaceAllString": func(e *Engine, ci *cinstr, a []Value) Value {
			return mkStr(reOf(a[0]).ReplaceAllString(concStr(e, a[1]), concStr(e, a[2])))
		},
		// utf8 on symbolic data
		"unicode/utf8.DecodeRuneInString": func(e *Engine, ci *cinstr, a []Value) Value {
			if s, ok := strConc(a[0]); ok {
				r, n := utf8.DecodeRuneInString(s)
				return Value{P: []Value{{N: uint64(int64(r))}, mkInt(n)}}
			}
			r, n := e.decodeRune(a[0].P.(SymStr))
			return Value{P: []Value{fromTerm(r, i32), mkInt(n)}}
		},
		"unicode/utf8.DecodeRune": func(e *Engine, ci *cinstr, a []Value) Value {
			ts := e.sliceTerms(a[0])
			if len(ts) == 0 {
				return Value{P: []Value{{N: uint64(utf8.RuneError)}, {}}}
			}
			r, n := e.decodeRune(ts)
			return Value{P: []Value{fromTerm(r, i32), mkInt(n)}}
		},
		"unicode/utf8.RuneLen": func(e *Engine, ci *cinstr, a []Value) Value {
			t := e.term(a[0], i32)
			if t.op == OConst {
				return mkInt(utf8.RuneLen(rune(int32(t.val))))
			}
			if src := e.runeSrc[t]; src != nil {
				return mkInt(len(src))
			}
			k := func(v uint64) *Term { return e.tt.Const(v, 32) }
			n := func(v int) *Term { return e.tt.Const(uint64(v), 64) }
			lt := func(v uint64) *Term { return e.tt.bin(OUlt, t, k(v)) }
			sur := e.tt.bin(OUlt, e.tt.bin(OSub, t, k(0xD800)), k(0x800))
			return fromTerm(e.tt.Ite(lt(0x80), n(1), e.tt.Ite(lt(0x800), n(2), e.tt.Ite(sur, n(-1), e.tt.Ite(lt(0x10000), n(3), e.tt.Ite(lt(0x110000), n(4), n(-1)))))), i64)
		},
		"unicode/utf8.EncodeRune": func(e *Engine, ci *cinstr, a []Value) Value {
			ts := e.encodeRune(nil, e.term(a[1], i32))
			s, _ := a[0].P.(*Slice)
			if s == nil || s.len < len(ts) {
				e.rtPanic("index out of range")
			}
			for i, t := range ts {
				e.setCell(s.obj, s.off+i, fromTerm(t, u8))
			}
			return mkInt(len(ts))
		},
		"unicode/utf8.AppendRune": func(e *Engine, ci *cinstr, a []Value) Value {
			ts := e.encodeRune(nil, e.term(a[1], i32))
			c := *ci
			c.x = 1
			return e.doAppend(nil, &c, []Value{a[0], mkSymStr(ts)})
		},
		"unicode/utf8.ValidString": func(e *Engine, ci *cinstr, a []Value) Value {
			if s, ok := strConc(a[0]); ok {
				return mkBool(utf8.ValidString(s))
			}
			return boolVal(e.validUTF8(e.strTerms(a[0])))
		},
		"unicode/utf8.Valid": func(e *Engine, ci *cinstr, a []Value) Value {
			return boolVal(e.validUTF8(e.sliceTerms(a[0])))
		},
		// reflection stubs
		"reflect.TypeOf":              reflTypeOf,
		"internal/reflectlite.TypeOf": reflTypeOf,
		"reflect.TypeFor": func(e *Engine, ci *cinstr, a []Value) Value {
			return e.reflType(e.w.rtype(ci.callee.TypeArgs()[0]))
		},
		"(internal/reflectlite.rtype).Comparable":   reflComparable,
		"(*reflect.rtype).Comparable":               reflComparable,
		"(*reflect.rtype).Kind":                     reflKind,
		"(internal/reflectlite.rtype).Kind":         reflKind,
		"(*reflect.rtype).String":                   reflTypeString,
		"(internal/reflectlite.rtype).String":       reflTypeString,
		"(*reflect.rtype).Elem":                     reflTypeElem,
		"(*reflect.rtype).Name":                     reflTypeName,
		"reflect.ValueOf":                           reflValueOf,
		"internal/reflectlite.ValueOf":              reflValueOf,
		"(reflect.Value).Kind":                      reflVKind,
		"(reflect.Value).IsNil":                     reflVIsNil,
		"(reflect.Value).Elem":                      reflVElem,
		"(reflect.Value).Interface":                 reflVInterface,
		"(reflect.Value).CanInterface":              retTrue,
		"(reflect.Value).IsValid":                   reflVIsValid,
		"(reflect.Value).Type":                      reflVType,
		"(reflect.Value).Int":                       reflVScalar,
		"(reflect.Value).Uint":                      reflVScalar,
		"(reflect.Value).Float":                     reflVScalar,
		"(reflect.Value).Bool":                      reflVScalar,
		"(reflect.Value).String":                    reflVString,
		"(reflect.Value).Len":                       reflVLen,
		"(internal/reflectlite.Value).Len":          reflVLen,
		"(reflect.Value).Index":                     reflVIndex,
		"(reflect.Value).NumField":                  reflVNumField,
		"(reflect.Value).Field":                     reflVField,
		"(reflect.Value).UnsafePointer":             reflUnsup,
		"(reflect.Value).Pointer":                   reflUnsup,
		"internal/godebug.New":                      noop,
		"(*internal/godebug.Setting).Value":         noop,
		"(*internal/godebug.Setting).IncNonDefault": noop,
		"(*internal/godebug.Setting).Name":          noop,
		"internal/godebug.setUpdate":                noop,
		"time.runtimeNano":                          noop,
		"time.runtimeNow":                           noop,
		"time.now":                                  noop,
		"runtime.Callers":                           noop,
		"runtime.Caller":                            func(e *Engine, ci *cinstr, a []Value) Value { return Value{P: make([]Value, 4)} },
		"os.Getenv":                                 noop,
		"syscall.Getenv":                            func(e *Engine, ci *cinstr, a []Value) Value { return Value{P: make([]Value, 2)} },
		"internal/runtime/sys.GetCallerPC":          noop,
		"internal/bytealg.HashStr":                  nil,

		nd + "Param": func(e *Engine, ci *cinstr, a []Value) Value {
			return Value{N: uint64(e.params[concStr(e, a[0])])}
		},
		nd + "Int64":  ndInt(64, true),
		nd + "Int":    ndInt(64, true),
		nd + "Int32":  ndInt(32, true),
		nd + "Int16":  ndInt(16, true),
		nd + "Int8":   ndInt(8, true),
		nd + "Uint64": ndInt(64, false),
		nd + "Uint32": ndInt(32, false),
		nd + "Uint16": ndInt(16, false),
		nd + "Uint":   ndInt(64, false),
		nd + "Byte":   ndInt(8, false),
		nd + "Range": func(e *Engine, ci *cinstr, a []Value) Value {
			lo, hi := e.concInt(a[1], i64), e.concInt(a[2], i64)
			if hi <= lo {
				panic(abort{"engine", "nd.Range"})
			}
			n := uint64(hi - lo)
			w := uint8(bits.Len64(n))
			if w < 8 {
				w = 8
			}
			name := e.inputName(concStr(e, a[0]))
			t := e.tt.Var(fmt.Sprintf("%s~%d", name, n), w)
			t.rng, t.hi = true, n
			e.inputs = append(e.inputs, input{name: name, t: t, w: w})
			if n < mask(w) {
				// made without simplification: the range makes it true
				e.assume(e.tt.mk(OBNot, 0, 0, e.tt.mk(OUlt, 0, 0, e.tt.Const(n, w), t, nil), nil, nil))
			}
			return fromTerm(e.tt.bin(OAdd, e.tt.Zext(t, 64), e.tt.Const(uint64(lo), 64)), i64)
		},
		nd + "Bool": func(e *Engine, ci *cinstr, a []Value) Value {
			return Value{P: e.newInput(concStr(e, a[0]), 0)}
		},
		nd + "String": func(e *Engine, ci *cinstr, a []Value) Value {
			n := int(e.concInt(a[1], i64))
			name := e.inputName(concStr(e, a[0]))
			e.inputs = append(e.inputs, input{name: name})
			ts := make([]*Term, n)
			for i := range ts {
				nm := fmt.Sprintf("%s[%d]", name, i)
				ts[i] = e.tt.Var(nm, 8)
				e.inputs = append(e.inputs, input{name: nm, t: ts[i], w: 8})
			}
			return mkSymStr(ts)
		},
		nd + "Choice": func(e *Engine, ci *cinstr, a []Value) Value {
			n := int(e.concInt(a[1], i64))
			k := e.choose(n)
			name := e.inputName(concStr(e, a[0]))
			e.inputs = append(e.inputs, input{name: name, conc: uint64(k)})
			return mkInt(k)
		},
		nd + "Assume": func(e *Engine, ci *cinstr, a []Value) Value {
			e.assume(e.term(a[0], bbool))
			return Value{}
		},
		nd + "Assert": ndAssert,
		nd + "Reach": func(e *Engine, ci *cinstr, a []Value) Value {
			e.stats.Reached[concStr(e, a[0])]++
			return Value{}
		},
		nd + "ObserveStr": func(e *Engine, ci *cinstr, a []Value) Value {
			n := len(e.obs)
			e.obs = append(e.obs, obsEnt{v: a[0], str: true})
			e.onUndo(func() { e.obs = e.obs[:n] })
			return Value{}
		},
		nd + "ObserveInt": func(e *Engine, ci *cinstr, a []Value) Value {
			n := len(e.obs)
			e.obs = append(e.obs, obsEnt{v: a[0]})
			e.onUndo(func() { e.obs = e.obs[:n] })
			return Value{}
		},
		nd + "Stop": func(e *Engine, ci *cinstr, a []Value) Value { panic(abort{"done", ""}) },
		nd + "Freeze": func(e *Engine, ci *cinstr, a []Value) Value {
			old, ob := e.frozen, e.frozenBelow
			e.onUndo(func() { e.frozen, e.frozenBelow = old, ob })
			e.frozen = true
			e.frozenBelow = e.nextID
			return Value{}
		},
		nd + "Thaw": func(e *Engine, ci *cinstr, a []Value) Value {
			old := e.frozen
			e.onUndo(func() { e.frozen = old })
			e.frozen = false
			return Value{}
		},
		nd + "Symbolic": retTrue,
		nd + "And": func(e *Engine, ci *cinstr, a []Value) Value {
			return boolVal(e.tt.And(e.term(a[0], bbool), e.term(a[1], bbool)))
		},
		nd + "Or": func(e *Engine, ci *cinstr, a []Value) Value {
			return boolVal(e.tt.Or(e.term(a[0], bbool), e.term(a[1], bbool)))
		},
		nd + "Conc": func(e *Engine, ci *cinstr, a []Value) Value {
			return Value{N: uint64(e.concInt(a[0], i64))}
		},
		nd + "Decide": func(e *Engine, ci *cinstr, a []Value) Value {
			return mkBool(e.fork(e.term(a[0], bbool)))
		},
		mod + "asTarget": modelAsTarget,
		mod + "swapAny":  modelSwapAny,
		mod + "derefAny": modelDerefAny,
		mod + "setAny":   modelSetAny,
		mod + "binWidth": modelBinWidth,
		mod + "binSet":   modelBinSet,
	}
	for k, v := range intrinsics {
		if v == nil {
			delete(intrinsics, k)
		}
	}
}

func idxStr(e *Engine, ci *cinstr, a []Value) Value {
	if s, ok := strConc(a[0]); ok {
		if t, ok := strConc(a[1]); ok {
			return mkInt(strings.Index(s, t))
		}
	}
	return mkInt(e.indexTerms(e.strTerms(a[0]), e.strTerms(a[1])))
}

func (e *Engine) inputName(name string) string {
	n := 0
	for _, x := range e.inputs {
		if x.name == name || strings.HasPrefix(x.name, name+"#") && !strings.Contains(x.name[len(name)+1:], "[") {
			n++
		}
	}
	if n > 0 {
		name = fmt.Sprintf("%s#%d", name, n)
	}
	return name
}

func (e *Engine) newInput(name string, w uint8) *Term {
	name = e.inputName(name)
	t := e.tt.Var(name, w)
	e.inputs = append(e.inputs, input{name: name, t: t, w: w})
	return t
}

func ndInt(w uint8, signed bool) intrinsic {
	return func(e *Engine, ci *cinstr, a []Value) Value {
		return Value{P: e.newInput(concStr(e, a[0]), w)}
	}
}

func ndAssert(e *Engine, ci *cinstr, a []Value) Value {
	msg := concStr(e, a[1])
	e.stats.Asserts++
	c := e.term(a[0], bbool)
	if c.op == OConst {
		if c.val != 0 {
			e.stats.AssertsConcrete++
			return Value{}
		}
		e.violation("assert", msg, nil)
		panic(abort{"violation", msg})
	}
	if e.merging > 0 {
		panic(mergeAbort{"assert"})
	}
	if e.logPos < len(e.log) { // re-execution after an unrelated fork cannot happen: Assert does not fork
		e.logPos++
		return Value{}
	}
	neg := e.tt.Not(c)
	e.sol.Stats.AssertQueries++
	if e.tt.Eval(neg, e.model) != 0 {
		e.violation("assert", msg, e.model)
		// continue where it holds
		e.assume(c)
		return Value{}
	}
	r, m := e.query(neg, true)
	switch r {
	case Unsat:
		e.sol.Stats.AssertUnsat++
	case Sat:
		e.violation("assert", msg, m)
		e.addPC(c)
	default:
		e.noteCnt["assertion undecided: "+msg]++
		e.stats.Aborted["assert-unknown: "+msg]++
		e.addPC(c)
	}
	return Value{}
}

// mkError builds a *errors.errorString.
func (e *Engine) mkError(msg string) Value {
	p := e.w.pkgs["errors"]
	t := p.Type("errorString").Type()
	o := e.newObj(1, "error")
	o.cells = []Value{mkStr(msg)}
	return Value{P: &Iface{t: e.w.rtype(types.NewPointer(t)), v: Value{P: o}}}
}

// formatInt renders a symbolic integer: forks on sign and digit count, digits are terms.
func (e *Engine) formatInt(t *Term, signed bool, base uint64) Value {
	tt := e.tt
	if t.w < 64 {
		if signed {
			t = tt.Sext(t, 64)
		} else {
			t = tt.Zext(t, 64)
		}
	}
	neg := false
	if signed && !tt.nonNeg(t) {
		if e.fork(tt.bin(OSlt, t, tt.Const(0, 64))) {
			neg = true
			t = tt.bin(OSub, tt.Const(0, 64), t)
		}
	}
	if t.rng {
		t = tt.linCanon(t)
	}
	n := 1
	lim := base
	for {
		if e.fork(tt.bin(OUlt, t, tt.Const(lim, 64))) {
			break
		}
		n++
		hi, lo := bits.Mul64(lim, base)
		if hi != 0 {
			break
		}
		lim = lo
	}
	out := make([]*Term, n)
	if base == 10 && n > 1 && n < 20 && !(t.rng && tt.decimal(t)) && e.merging == 0 && t.op != OConst && (t.sup <= 0 || tt.table(t) == nil) {
		// introduce the digits by their defining equation instead of dividing
		ds := make([]*Term, n)
		v := tt.Eval(t, e.model)
		nm := make(Model, len(e.model)+n)
		for k, x := range e.model {
			nm[k] = x
		}
		for i := n - 1; i >= 0; i-- {
			ds[i] = tt.Var(fmt.Sprintf("#digit.%d.%d.%d", t.id, n, i), 8)
			nm[ds[i]] = v % 10
			v /= 10
		}
		e.model = nm
		h := tt.Const(0, 64)
		for i, d := range ds {
			lo := uint64(0)
			if i == 0 {
				lo = 1
			}
			e.addPC(tt.bin(OUle, tt.Const(lo, 8), d))
			e.addPC(tt.bin(OUle, d, tt.Const(9, 8)))
			h = tt.bin(OAdd, tt.bin(OMul, h, tt.Const(10, 64)), tt.Zext(d, 64))
			out[i] = tt.bin(OAdd, d, tt.Const('0', 8))
		}
		e.addPC(tt.Eq(h, t))
		if neg {
			out = append(one(tt.Const('-', 8)), out...)
		}
		return mkSymStr(out)
	}
	div := uint64(1)
	for i := n - 1; i >= 0; i-- {
		q := tt.bin(OUdiv, t, tt.Const(div, 64))
		d := tt.bin(OUrem, q, tt.Const(base, 64))
		if i == 0 {
			d = q
		}
		b := tt.Extract(d, 0, 8)
		if base <= 10 {
			out[i] = tt.bin(OAdd, b, tt.Const('0', 8))
		} else {
			out[i] = tt.Ite(tt.bin(OUlt, b, tt.Const(10, 8)), tt.bin(OAdd, b, tt.Const('0', 8)), tt.bin(OAdd, b, tt.Const('a'-10, 8)))
		}
		if i > 0 {
			div *= base
		}
	}
	if neg {
		out = append(one(tt.Const('-', 8)), out...)
	}
	return mkSymStr(out)
}

// formatFloat renders a symbolic float with a fixed number of digits.
func (e *Engine) formatFloat(x *FTerm, f byte, prec int) Value {
	tt := e.tt
	if x.approx || f == 'g' || f == 'e' || f == 'G' || f == 'E' {
		panic(abort{"unsupported", "format of symbolic float %" + string(f)})
	}
	neg := e.fork(tt.bin(OSlt, x.num, tt.Const(0, 64)))
	num := x.num
	if neg {
		num = tt.bin(OSub, tt.Const(0, 64), num)
	}
	var out []*Term
	if x.den == 1 && prec <= 0 {
		out = e.strTerms(e.formatInt(num, false, 10))
	} else if x.den == 1 {
		out = e.strTerms(e.formatInt(num, false, 10))
		out = append(append([]*Term{}, out...), tt.Const('.', 8))
		for i := 0; i < prec; i++ {
			out = append(out, tt.Const('0', 8))
		}
	} else if prec >= 0 && prec <= 3 && (pow2(x.den) || x.den < 1<<40 && e.merging == 0) {
		p := int64(1)
		for i := 0; i < prec; i++ {
			p *= 10
		}
		// round half to even of num*p/den, exact; a quotient rounded before is no tie but on either side of it
		lim := int64(maxExact)
		if !pow2(x.den) {
			lim = 1 << 42
		}
		if !e.fork(tt.bin(OUle, num, tt.Const(uint64(lim), 64))) {
			panic(abort{"float-range", "format"})
		}
		np := tt.bin(OMul, num, tt.Const(uint64(p), 64)) // < 2^63
		d := tt.Const(uint64(x.den), 64)
		q := tt.bin(OUdiv, np, d)
		r := tt.bin(OUrem, np, d)
		two := tt.bin(OMul, r, tt.Const(2, 64))
		tieUp := tt.Eq(tt.bin(OAnd, q, tt.Const(1, 64)), tt.Const(1, 64))
		if !pow2(x.den) {
			tieUp = tt.Eq(tt.Var(fmt.Sprintf("#tie.%d.%d", num.id, x.den), 8), tt.Const(1, 8))
		}
		if tt.Eq(d, two) == tt.tru && e.merging == 0 {
			tieUp = tt.fls
			if !pow2(x.den) && e.fork(tt.Eq(tt.Var(fmt.Sprintf("#tie.%d.%d", num.id, x.den), 8), tt.Const(1, 8))) || pow2(x.den) && e.fork(tt.Eq(tt.bin(OAnd, q, tt.Const(1, 64)), tt.Const(1, 64))) {
				tieUp = tt.tru
			}
		}
		up := tt.Or(tt.bin(OUlt, d, two), tt.And(tt.Eq(d, two), tieUp))
		q = tt.Ite(up, tt.bin(OAdd, q, tt.Const(1, 64)), q)
		if prec == 0 {
			out = e.strTerms(e.formatInt(q, false, 10))
		} else {
			ip := tt.bin(OUdiv, q, tt.Const(uint64(p), 64))
			fp := tt.bin(OUrem, q, tt.Const(uint64(p), 64))
			out = append([]*Term{}, e.strTerms(e.formatInt(ip, false, 10))...)
			out = append(out, tt.Const('.', 8))
			for k := p / 10; k >= 1; k /= 10 {
				dg := tt.bin(OUrem, tt.bin(OUdiv, fp, tt.Const(uint64(k), 64)), tt.Const(10, 64))
				out = append(out, tt.bin(OAdd, tt.Extract(dg, 0, 8), tt.Const('0', 8)))
			}
		}
	} else {
		panic(abort{"unsupported", "format of symbolic quotient"})
	}
	if neg {
		out = append(one(tt.Const('-', 8)), out...)
	}
	return mkSymStr(out)
}

// parseFloatSym parses a symbolic decimal literal of known shape digits[.digits].
func (e *Engine) parseFloatSym(v Value) Value {
	tt := e.tt
	ts := e.strTerms(v)
	bad := func() Value { return Value{P: []Value{{}, e.mkError("strconv.ParseFloat: invalid syntax")}} }
	i := 0
	neg := false
	if i < len(ts) && e.fork(tt.Eq(ts[i], tt.Const('-', 8))) {
		neg = true
		i++
	} else if i < len(ts) && e.fork(tt.Eq(ts[i], tt.Const('+', 8))) {
		i++
	}
	num := tt.Const(0, 64)
	den := int64(1)
	dot := false
	digits := 0
	for ; i < len(ts); i++ {
		d := tt.bin(OSub, ts[i], tt.Const('0', 8))
		if e.fork(tt.bin(OUlt, d, tt.Const(10, 8))) {
			num = tt.bin(OAdd, tt.bin(OMul, num, tt.Const(10, 64)), tt.Zext(d, 64))
			digits++
			if dot {
				den *= 10
			}
			continue
		}
		if !dot && e.fork(tt.Eq(ts[i], tt.Const('.', 8))) {
			dot = true
			continue
		}
		// exponents, hexadecimal, infinities, underscores: outside the encoding
		special := tt.fls
		for _, c := range "eExXpPiInN_" {
			special = tt.Or(special, tt.Eq(ts[i], tt.Const(uint64(c), 8)))
		}
		if e.fork(special) {
			panic(abort{"unsupported", "ParseFloat on special syntax"})
		}
		return bad()
	}
	if digits == 0 {
		return bad()
	}
	if digits > 15 {
		panic(abort{"unsupported", "ParseFloat on long literal"})
	}
	if neg {
		num = tt.bin(OSub, tt.Const(0, 64), num)
	}
	var f Value
	if num.op == OConst {
		f = mkF(float64(int64(num.val)) / float64(den))
	} else {
		f = Value{P: &FTerm{num: num, den: den}}
	}
	return Value{P: []Value{f, {}}}
}

// validUTF8 is the condition that the bytes are valid UTF-8, as one term.
func (e *Engine) validUTF8(ts []*Term) *Term {
	tt := e.tt
	n := len(ts)
	c := func(v uint64) *Term { return tt.Const(v, 8) }
	bt := func(t *Term, lo, hi uint64) *Term { return tt.bin(OUle, tt.bin(OSub, t, c(lo)), c(hi-lo)) }
	ok := make([]*Term, n+4)
	for i := range ok {
		ok[i] = tt.fls
	}
	ok[n] = tt.tru
	cont := func(i int) *Term {
		if i >= n {
			return tt.fls
		}
		return bt(ts[i], 0x80, 0xBF)
	}
	rng := func(i int, lo, hi uint64) *Term {
		if i >= n {
			return tt.fls
		}
		return bt(ts[i], lo, hi)
	}
	and := func(xs ...*Term) *Term {
		r := tt.tru
		for _, x := range xs {
			r = tt.And(r, x)
		}
		return r
	}
	for i := n - 1; i >= 0; i-- {
		b := ts[i]
		r := and(tt.bin(OUlt, b, c(0x80)), ok[i+1])
		r = tt.Or(r, and(bt(b, 0xC2, 0xDF), cont(i+1), ok[min(i+2, n+3)]))
		l3 := tt.Or(and(tt.Eq(b, c(0xE0)), rng(i+1, 0xA0, 0xBF)),
			tt.Or(and(tt.Or(bt(b, 0xE1, 0xEC), bt(b, 0xEE, 0xEF)), cont(i+1)),
				and(tt.Eq(b, c(0xED)), rng(i+1, 0x80, 0x9F))))
		r = tt.Or(r, and(l3, cont(i+2), ok[min(i+3, n+3)]))
		l4 := tt.Or(and(tt.Eq(b, c(0xF0)), rng(i+1, 0x90, 0xBF)),
			tt.Or(and(bt(b, 0xF1, 0xF3), cont(i+1)), and(tt.Eq(b, c(0xF4)), rng(i+1, 0x80, 0x8F))))
		r = tt.Or(r, and(l4, cont(i+2), cont(i+3), ok[min(i+4, n+3)]))
		ok[i] = r
	}
	return ok[0]
}
