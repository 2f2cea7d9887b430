package smt

import (
	"math/rand"
	"testing"
)

// Random terms are built twice: through the simplifying constructors and by direct evaluation
// of the operators; both must agree under random assignments, and the ranges must hold.
func TestSimplifier(t *testing.T) {
	for seed := int64(0); seed < 3000; seed++ {
		r := rand.New(rand.NewSource(seed))
		c := NewCtx()
		type pair struct {
			t *Term
			v [8]uint64
		}
		var as [8]map[int]uint64
		for k := range as {
			as[k] = map[int]uint64{}
		}
		var pool []pair
		for i := 0; i < 4; i++ {
			w := []uint8{8, 8, 8, 64}[i]
			var p pair
			p.t = c.Var(i, w)
			for k := range as {
				x := r.Uint64()
				if r.Intn(3) == 0 {
					x = uint64(r.Intn(4))
				}
				x &= mask(w)
				as[k][i] = x
				p.v[k] = x
			}
			pool = append(pool, p)
		}
		pick := func(w uint8) pair {
			for n := 0; n < 50; n++ {
				p := pool[r.Intn(len(pool))]
				if p.t.W == w {
					return p
				}
			}
			var p pair
			x := r.Uint64() & mask(w)
			if r.Intn(2) == 0 {
				x = uint64(r.Intn(5)) & mask(w)
			}
			if r.Intn(4) == 0 {
				x = (1<<uint(r.Intn(int(w)+1)) - 1) & mask(w)
			}
			if r.Intn(4) == 0 {
				x = (1 << uint(r.Intn(int(w)+1))) & mask(w)
			}
			p.t = c.constW(w, x)
			for k := range p.v {
				p.v[k] = x
			}
			return p
		}
		add := func(tm *Term, raw *Term, a, b, d *pair) {
			var p pair
			p.t = tm
			for k := range p.v {
				var x, y, z uint64
				x = a.v[k]
				if b != nil {
					y = b.v[k]
				}
				if d != nil {
					z = d.v[k]
				}
				p.v[k] = apply(raw, x, y, z)
			}
			pool = append(pool, p)
		}
		for i := 0; i < 40; i++ {
			w := []uint8{8, 8, 16, 32, 64}[r.Intn(5)]
			a, b := pick(w), pick(w)
			switch r.Intn(9) {
			case 0, 1, 2:
				ops := []Op{OpAdd, OpSub, OpMul, OpUDiv, OpURem, OpSDiv, OpSRem, OpBAnd, OpBOr, OpBXor, OpShl, OpLShr, OpAShr}
				op := ops[r.Intn(len(ops))]
				add(c.Bin(op, a.t, b.t), &Term{Op: op, W: w, A: a.t, B: b.t}, &a, &b, nil)
			case 3:
				op := []Op{OpEq, OpUlt, OpUle, OpSlt, OpSle}[r.Intn(5)]
				var tm *Term
				switch op {
				case OpEq:
					tm = c.Eq(a.t, b.t)
				case OpUlt:
					tm = c.Ult(a.t, b.t)
				case OpUle:
					tm = c.Ule(a.t, b.t)
				case OpSlt:
					tm = c.Slt(a.t, b.t)
				case OpSle:
					tm = c.Sle(a.t, b.t)
				}
				add(tm, &Term{Op: op, W: 0, A: a.t, B: b.t}, &a, &b, nil)
			case 4:
				p := pick(0)
				add(c.Ite(p.t, a.t, b.t), &Term{Op: OpIte, W: w, A: p.t, B: a.t, C: b.t}, &p, &a, &b)
			case 5:
				p, q := pick(0), pick(0)
				if r.Intn(3) == 0 {
					add(c.Not(p.t), &Term{Op: OpNot, A: p.t}, &p, nil, nil)
				} else if r.Intn(2) == 0 {
					add(c.And(p.t, q.t), &Term{Op: OpAnd, A: p.t, B: q.t}, &p, &q, nil)
				} else {
					add(c.Or(p.t, q.t), &Term{Op: OpOr, A: p.t, B: q.t}, &p, &q, nil)
				}
			case 6:
				w2 := []uint8{8, 16, 32, 64}[r.Intn(4)]
				sg := r.Intn(2) == 0
				var raw *Term
				switch {
				case w2 < w:
					raw = &Term{Op: OpExtract, W: w2, A: a.t}
				case sg:
					raw = &Term{Op: OpSExt, W: w2, A: a.t}
				default:
					raw = &Term{Op: OpZExt, W: w2, A: a.t}
				}
				if w2 == w {
					continue
				}
				add(c.Resize(a.t, w2, sg), raw, &a, nil, nil)
			case 7:
				lo := uint8(r.Intn(int(w) - 7))
				add(c.Extract(a.t, lo, 8), &Term{Op: OpExtract, W: 8, K: uint64(lo), A: a.t}, &a, nil, nil)
			case 8:
				if w <= 32 && (w == 8 || w == 16 || w == 32) {
					add(c.Concat(a.t, b.t), &Term{Op: OpConcat, W: 2 * w, A: a.t, B: b.t}, &a, &b, nil)
				} else {
					add(c.BNot(a.t), &Term{Op: OpBNot, W: w, A: a.t}, &a, nil, nil)
				}
			}
		}
		for k := range as {
			c.NewEval()
			// domains: random supersets of the assigned values
			for ai := range c.Atoms {
				if c.Atoms[ai].W == 8 {
					s := Set{}
					for j := 0; j < 4; j++ {
						s.Add(r.Intn(256))
					}
					s.Add(int(as[k][c.Atoms[ai].Var]))
					c.Dom[ai] = s
				}
			}
			c.DomVer++
			for _, p := range pool {
				v, ok := c.Eval(p.t, func(i int) (uint64, bool) { return as[k][i], true })
				if !ok || v != p.v[k] {
					t.Fatalf("seed %d: term %d op %d w %d: got %x want %x", seed, p.t.ID, p.t.Op, p.t.W, v, p.v[k])
				}
				if p.t.W == 0 {
					q := c.Quick(p.t)
					if q >= 0 && uint64(q) != v {
						t.Fatalf("seed %d: Quick %d value %d op %d", seed, q, v, p.t.Op)
					}
					continue
				}
				rg := c.domRange(p.t)
				if v < rg.ulo || v > rg.uhi || sext(v, p.t.W) < rg.slo || sext(v, p.t.W) > rg.shi {
					t.Fatalf("seed %d: range op %d", seed, p.t.Op)
				}
				if v < p.t.ulo || v > p.t.uhi || sext(v, p.t.W) < p.t.slo || sext(v, p.t.W) > p.t.shi {
					t.Fatalf("seed %d: struct range op %d", seed, p.t.Op)
				}
			}
		}
	}
}

func TestSolverAgrees(t *testing.T) {
	c := NewCtx()
	s := NewSolver(c)
	defer s.Close()
	a, b := c.Var(0, 8), c.Var(1, 8)
	x := c.Bin(OpMul, c.ZExt(a, 64), c.ZExt(b, 64))
	r, m := s.Check([]*Term{c.Eq(x, c.Int(187)), c.Ult(a, b)})
	if r != Sat || m[0]*m[1] != 187 {
		t.Fatal(r, m)
	}
	r, _ = s.Check([]*Term{c.Eq(x, c.Int(187)), c.Ult(a, b), c.Not(c.Eq(a, c.BV(8, 11))), c.Not(c.Eq(a, c.BV(8, 1)))})
	if r != Unsat {
		t.Fatal(r)
	}
	f := c.FBin(OpFDiv, c.FofS(c.ZExt(a, 64)), c.Float(10))
	r, m = s.Check([]*Term{c.FCmp(OpFEq, f, c.Float(2.5)), c.Ult(b, a)})
	if r != Sat || m[0] != 25 {
		t.Fatal(r, m)
	}
	u := c.UF("h", 8, []*Term{a})
	v := c.UF("h", 8, []*Term{b})
	r, _ = s.Check([]*Term{c.Not(c.Eq(u, v)), c.Eq(c.Bin(OpAdd, a, c.BV(8, 1)), c.Bin(OpAdd, b, c.BV(8, 1)))})
	if r != Unsat {
		t.Fatal(r)
	}
	tab := c.MkTable(8, []uint64{5, 9, 200, 7})
	r, m = s.Check([]*Term{c.Eq(c.Lookup(tab, c.Bin(OpBAnd, c.Bin(OpBXor, a, b), c.BV(8, 3))), c.BV(8, 200)), c.Eq(b, c.BV(8, 1))})
	if r != Sat || (m[0]^1)&3 != 2 {
		t.Fatal(r, m)
	}
	if s.LastErr != "" {
		t.Fatal(s.LastErr)
	}
}
