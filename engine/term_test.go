package main

import (
	"math/rand"
	"testing"
)

// TestTermRules compares every simplification with the plain meaning of the operators,
// and the SMT text of the simplified term with z3's evaluation.
func TestTermRules(t *testing.T) {
	rng := rand.New(rand.NewSource(7))
	s := newSolver("z3", "-in", "-t:20000")
	defer s.close()
	ws := []uint8{8, 16, 24, 32, 64}
	type tv struct {
		t *Term
		v uint64
	}
	for it := 0; it < 30000; it++ {
		m := newModel()
		var pool []tv
		var bools []tv
		names := []string{"a", "b", "c"}
		for _, w := range ws {
			for _, n := range names {
				v := mkVar(n+string(rune('0'+w/8)), w)
				x := rng.Uint64() & mask(w)
				if rng.Intn(3) == 0 {
					x = uint64(rng.Intn(4))
				}
				if rng.Intn(6) == 0 {
					x = mask(w)
				}
				m.vals[v.name] = x
				pool = append(pool, tv{v, x})
			}
			c := rng.Uint64() & mask(w)
			switch rng.Intn(4) {
			case 0:
				c = uint64(rng.Intn(10))
			case 1:
				c = mask(uint8(rng.Intn(int(w)) + 1))
			case 2:
				c = 1 << uint(rng.Intn(int(w)))
			}
			pool = append(pool, tv{mkConst(w, c), c})
		}
		bv := mkVar("p", 0)
		m.vals["p"] = uint64(rng.Intn(2))
		bools = append(bools, tv{bv, m.vals["p"]}, tv{vTrue, 1}, tv{vFalse, 0})
		pickW := func(w uint8) tv {
			for {
				x := pool[rng.Intn(len(pool))]
				if len(pool) > 20 && rng.Intn(2) == 0 {
					x = pool[len(pool)-1-rng.Intn(len(pool)-20)]
				}
				if w == 0 || x.t.w == w {
					return x
				}
			}
		}
		for k := 0; k < 12; k++ {
			a := pickW(0)
			w := a.t.w
			b := pickW(w)
			op := []Op{OAdd, OSub, OMul, OUDiv, OURem, OSDiv, OSRem, OAnd, OOr, OXor, OShl, OLShr, OAShr}[rng.Intn(13)]
			var r tv
			switch rng.Intn(12) {
			case 0:
				r = tv{mkNot(a.t), evalOp(ONot, w, 0, []uint64{a.v}, nil)}
			case 1:
				if w < 64 {
					nw := w + 8
					r = tv{mkZExt(a.t, nw), a.v}
				}
			case 2:
				if w < 64 {
					nw := uint8(64)
					r = tv{mkSExt(a.t, nw), evalOp(OSExt, nw, 0, []uint64{a.v}, []uint8{w})}
				}
			case 3:
				lo := uint8(rng.Intn(int(w)))
				hi := lo + uint8(rng.Intn(int(w-lo)))
				r = tv{mkExtract(a.t, hi, lo), (a.v >> lo) & mask(hi-lo+1)}
			case 4:
				c := pickW(0)
				if int(w)+int(c.t.w) <= 64 {
					nw := w + c.t.w
					r = tv{mkConcat(a.t, c.t), evalOp(OConcat, nw, 0, []uint64{a.v, c.v}, []uint8{w, c.t.w})}
				}
			case 5:
				p := bools[rng.Intn(len(bools))]
				x := b.v
				if p.v != 0 {
					x = a.v
				}
				r = tv{mkIte(p.t, a.t, b.t), x}
			case 6, 7:
				cop := []Op{OUlt, OUle, OSlt, OSle}[rng.Intn(4)]
				bools = append(bools, tv{mkCmp(cop, a.t, b.t), evalOp(cop, 0, 0, []uint64{a.v, b.v}, []uint8{w, w})})
				e := uint64(0)
				if a.v == b.v {
					e = 1
				}
				bools = append(bools, tv{mkEq(a.t, b.t), e})
				p, q := bools[rng.Intn(len(bools))], bools[rng.Intn(len(bools))]
				bools = append(bools, tv{mkAnd(p.t, q.t), p.v & q.v}, tv{mkOr(p.t, mkBNot(q.t)), p.v | (1 - q.v)})
			default:
				r = tv{mkBin(op, a.t, b.t), evalOp(op, w, 0, []uint64{a.v, b.v}, []uint8{w, w})}
			}
			if r.t != nil {
				switch r.t.w {
				case 8, 16, 24, 32, 64:
					pool = append(pool, r)
				}
				if g := m.eval(r.t); g != r.v {
					t.Fatalf("rule: op %d got %x want %x: %v", r.t.op, g, r.v, r.t)
				}
			}
		}
		for _, b := range bools {
			if m.eval(b.t) != b.v {
				t.Fatalf("bool rule: op %d got %d want %d", b.t.op, m.eval(b.t), b.v)
			}
		}
		if it%100 == 0 {
			var pc []*Term
			for n, v := range m.vals {
				w := uint8(0)
				if n != "p" {
					w = (n[1] - '0') * 8
				}
				if w == 0 {
					x := mkVar(n, 0)
					if v == 0 {
						x = mkBNot(x)
					}
					pc = append(pc, x)
				} else {
					pc = append(pc, mkEq(mkVar(n, w), mkConst(w, v)))
				}
			}
			for _, x := range pool[20:] {
				r, _ := s.check(pc, mkBNot(mkEq(x.t, mkConst(x.t.w, x.v))), nil)
				if r != Unsat {
					t.Fatalf("z3 disagrees: op %d want %x (%v)", x.t.op, x.v, r)
				}
			}
		}
	}
	if s.queries < 500 {
		t.Fatal("few queries", s.queries)
	}
}
