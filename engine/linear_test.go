package main

import (
	"math/rand"
	"testing"
)

// TestLinear compares simplified terms with the plain evaluation of the same operations.
func TestLinear(t *testing.T) {
	for seed := int64(0); seed < 6000; seed++ {
		r := rand.New(rand.NewSource(seed))
		tt := NewTermTable()
		tt.quo = seed%2 == 0
		var vs []*Term
		for i := 0; i < 3; i++ {
			v := tt.Var(string(rune('a'+i)), 8+uint8(r.Intn(10)))
			v.rng = true
			v.hi = uint64(r.Intn(int(mask(v.w)))) + 1
			if r.Intn(2) == 0 {
				v.hi = uint64(r.Intn(40)) + 1
			}
			vs = append(vs, v)
		}
		type node struct {
			t    *Term
			op   Op
			w    uint8
			k    uint64
			a, b int
			c    int
			cut  [4]uint64 // for OIte: if x < cut[0] then cut[1]*x+cut[2] else cut[1]*x+cut[3]
		}
		var ns []node
		for _, v := range vs {
			ns = append(ns, node{t: v, op: OVar, w: v.w})
		}
		consts := []uint64{1, 2, 3, 4, 7, 10, 60, 100, 153, 400, 1461, 2939745, 3600, 86400, 146097, 1e9, 65536, 1 << 32, 0xffff, 0xff, 3, 7}
		for i := 0; i < 25; i++ {
			a := r.Intn(len(ns))
			n := node{a: a, b: -1, c: -1, w: ns[a].w}
			x := ns[a].t
			if x.w == 0 {
				continue
			}
			k := consts[r.Intn(len(consts))]
			if r.Intn(4) == 0 {
				k = -k
			}
			if r.Intn(8) == 0 {
				k = r.Uint64()
			}
			switch r.Intn(15) {
			case 0, 1, 2:
				n.op = []Op{OAdd, OSub, OMul}[r.Intn(3)]
				n.k = k
			case 3, 4:
				n.op = []Op{OUdiv, OUrem}[r.Intn(2)]
				n.k = k
				if k&mask(x.w) == 0 {
					continue
				}
			case 5:
				n.op = []Op{OSdiv, OSrem}[r.Intn(2)]
				n.k = k
				if k&mask(x.w) == 0 {
					continue
				}
			case 6:
				n.op = []Op{OAnd, OOr, OLshr, OShl, OAshr}[r.Intn(5)]
				n.k = []uint64{1, 3, 7, 0xff, 0xffff, 5}[r.Intn(6)]
				if n.op == OLshr || n.op == OShl || n.op == OAshr {
					n.k = uint64(r.Intn(int(x.w)))
				}
			case 7, 8:
				n.op, n.w = OZext, []uint8{16, 32, 64}[r.Intn(3)]
				if n.w <= x.w {
					continue
				}
			case 9:
				n.op, n.w = OSext, []uint8{16, 32, 64}[r.Intn(3)]
				if n.w <= x.w {
					continue
				}
			case 10:
				n.op, n.w = OExtract, []uint8{8, 16, 32}[r.Intn(3)]
				if n.w >= x.w {
					continue
				}
				if r.Intn(3) == 0 {
					n.k = uint64(r.Intn(int(x.w - n.w)))
				}
			case 11, 12:
				n.b = r.Intn(len(ns))
				if ns[n.b].w != x.w {
					continue
				}
				n.op = []Op{OAdd, OSub, OEq, OUlt, OSlt}[r.Intn(5)]
				if n.op == OEq || n.op == OUlt || n.op == OSlt {
					n.w = 0
				}
			case 14:
				// x - c*(x/c) with a sum on the way
				if x.w < 16 || k&mask(x.w) == 0 {
					continue
				}
				q := node{a: a, b: -1, c: -1, w: x.w, op: OUdiv, k: k, t: tt.bin(OUdiv, x, tt.Const(k, x.w))}
				p := node{a: len(ns), b: -1, c: -1, w: x.w, op: OMul, k: k, t: tt.bin(OMul, q.t, tt.Const(k, x.w))}
				s := node{a: a, b: -1, c: -1, w: x.w, op: OAdd, k: 48, t: tt.bin(OAdd, x, tt.Const(48, x.w))}
				ns = append(ns, q, p, s)
				n.a, n.b, n.op = len(ns)-1, len(ns)-2, OSub
				x = s.t
			case 13:
				n.op = []Op{OEq, OUlt, OSlt}[r.Intn(3)]
				n.w, n.k = 0, k
			}
			if cut := r.Intn(12) == 0; cut && n.b < 0 {
				g := []uint64{1, 1, 60, 1000}[r.Intn(4)]
				c := k & mask(x.w)
				if r.Intn(2) == 0 {
					c = vs[0].hi / 2
				}
				n = node{a: a, b: -1, c: -1, w: x.w, op: OIte, cut: [4]uint64{c, g, uint64(r.Intn(100)) * g, -uint64(r.Intn(100)) * g}}
				if r.Intn(2) == 0 {
					n.cut[2], n.cut[3] = 0, -c*g
				}
			}
			if n.w == 0 && r.Intn(2) == 0 {
				// a case distinction
				n.w, n.c = x.w, 1
			}
			var y *Term
			kk := tt.Const(n.k, x.w)
			if n.b >= 0 {
				kk = ns[n.b].t
			}
			switch n.op {
			case OIte:
				m := tt.bin(OMul, x, tt.Const(n.cut[1], x.w))
				y = tt.Ite(tt.bin(OUlt, x, tt.Const(n.cut[0], x.w)), tt.bin(OAdd, m, tt.Const(n.cut[2], x.w)), tt.bin(OAdd, m, tt.Const(n.cut[3], x.w)))
			case OZext:
				y = tt.Zext(x, n.w)
			case OSext:
				y = tt.Sext(x, n.w)
			case OExtract:
				y = tt.Extract(x, uint8(n.k), n.w)
			default:
				y = tt.bin(n.op, x, kk)
			}
			if n.c >= 0 {
				y = tt.Ite(y, x, kk)
			}
			n.t = y
			ns = append(ns, n)
		}
		for s := 0; s < 200; s++ {
			m := Model{}
			vals := make([]uint64, len(ns))
			for i, v := range vs {
				m[v] = r.Uint64() % (v.hi + 1)
				switch r.Intn(6) {
				case 0:
					m[v] = 0
				case 1:
					m[v] = v.hi
				}
				vals[i] = m[v]
			}
			for i, n := range ns {
				if n.op == OVar {
					continue
				}
				aw := ns[n.a].t.w
				kv := n.k & mask(aw)
				if n.b >= 0 {
					kv = vals[n.b]
				}
				ow := n.w
				if n.c >= 0 {
					ow = 0
				}
				var v uint64
				if n.op == OIte {
					v = vals[n.a]*n.cut[1] + n.cut[3]
					if vals[n.a] < n.cut[0]&mask(aw) {
						v = vals[n.a]*n.cut[1] + n.cut[2]
					}
					v &= mask(aw)
				} else if n.op == OExtract {
					v = (vals[n.a] >> n.k) & mask(n.w)
				} else {
					v = evalOp(n.op, ow, 0, aw, vals[n.a], kv, 0, aw)
				}
				if n.c >= 0 {
					if v != 0 {
						v = vals[n.a]
					} else {
						v = kv
					}
				}
				vals[i] = v
				if got := tt.Eval(n.t, m); got != v {
					t.Fatalf("seed %d node %d op %s w %d aw %d k %d: got %d want %d", seed, i, opName[n.op], n.w, aw, n.k, got, v)
				}
				f := tt.lin(n.t)
				if !f.ok {
					continue
				}
				if f.uns() && (v < f.start || v > f.start+f.span) {
					t.Fatalf("seed %d node %d: %d outside %d+%d", seed, i, v, f.start, f.span)
				}
				if lo := sx(f.start, f.w); f.sgn() && (sx(v, f.w) < lo || uint64(sx(v, f.w)-lo) > f.span) {
					t.Fatalf("seed %d node %d: signed %d outside %d+%d", seed, i, sx(v, f.w), lo, f.span)
				}
				sum := f.k
				for _, x := range f.at {
					y := tt.Eval(x.t, m)
					if x.neg {
						y = uint64(sx(y, x.t.w))
					}
					sum += uint64(x.c) * y
					if int64(y) < x.lo || int64(y) > x.hi {
						t.Fatalf("seed %d node %d: atom %d outside %d..%d %s", seed, i, int64(y), x.lo, x.hi, x.t)
					}
				}
				if sum&mask(f.w) != v {
					t.Fatalf("seed %d node %d: sum %d want %d", seed, i, sum&mask(f.w), v)
				}
			}
		}
	}
}
