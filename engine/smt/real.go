package smt

import (
	"bytes"
	"context"
	"fmt"
	"math"
	"math/big"
	"os/exec"
	"strings"
	"time"
)

// Queries over floating-point terms are first tried in linear arithmetic over the reals:
// every float operation becomes the exact operation plus an error variable bounded by half
// a unit in the last place of the largest result. An unsatisfiable abstraction settles the
// query; a model of it is only a candidate and is checked by evaluation.

type realEnc struct {
	c     *Ctx
	decl  strings.Builder
	ints  map[uint32]ival
	sints map[uint32]ival
	flts  map[uint32]fval
	bools map[uint32]string
	atoms map[int32]bool
	vars  []*Term
	n     int
	fail  bool
}

type ival struct {
	s      string
	lo, hi *big.Int
}

type fval struct {
	s      string
	lo, hi float64
}

func bigStr(x *big.Int) string {
	if x.Sign() < 0 {
		return "(- " + new(big.Int).Neg(x).String() + ")"
	}
	return x.String()
}

func ratStr(f float64) string {
	r := new(big.Rat).SetFloat64(math.Abs(f))
	s := "(/ " + r.Num().String() + ".0 " + r.Denom().String() + ".0)"
	if f < 0 {
		s = "(- " + s + ")"
	}
	return s
}

func (e *realEnc) fresh(sort string) string {
	e.n++
	v := fmt.Sprintf("q%d", e.n)
	fmt.Fprintf(&e.decl, "(declare-const %s %s)\n", v, sort)
	return v
}

func (e *realEnc) bind(sort, body string) string {
	e.n++
	v := fmt.Sprintf("q%d", e.n)
	fmt.Fprintf(&e.decl, "(define-fun %s () %s %s)\n", v, sort, body)
	return v
}

// num encodes a bit-vector as an integer, read as signed or unsigned.
func (e *realEnc) num(t *Term, signed bool) ival {
	memo := e.ints
	if signed {
		memo = e.sints
	}
	if v, ok := memo[t.ID]; ok {
		return v
	}
	v := e.num1(t, signed)
	memo[t.ID] = v
	return v
}

func (e *realEnc) num1(t *Term, signed bool) ival {
	r := e.c.domRange(t)
	if signed && r.slo >= 0 {
		return e.num(t, false)
	}
	lo, hi := new(big.Int).SetUint64(r.ulo), new(big.Int).SetUint64(r.uhi)
	if signed {
		lo, hi = big.NewInt(r.slo), big.NewInt(r.shi)
	}
	switch t.Op {
	case OpConst:
		return ival{bigStr(lo), lo, lo}
	case OpVar:
		if !signed {
			e.atom(t)
			return ival{t.Name, lo, hi}
		}
	case OpZExt:
		if !signed {
			return e.num(t.A, false)
		}
	case OpSExt:
		if signed {
			return e.num(t.A, true)
		}
	case OpIte:
		x, y := e.num(t.B, signed), e.num(t.C, signed)
		return ival{e.bind("Int", "(ite "+e.boolean(t.A)+" "+x.s+" "+y.s+")"), lo, hi}
	case OpAdd, OpSub, OpMul:
		x, y := e.num(t.A, signed), e.num(t.B, signed)
		var a, b *big.Int
		op := "+"
		switch t.Op {
		case OpAdd:
			a, b = new(big.Int).Add(x.lo, y.lo), new(big.Int).Add(x.hi, y.hi)
		case OpSub:
			op = "-"
			a, b = new(big.Int).Sub(x.lo, y.hi), new(big.Int).Sub(x.hi, y.lo)
		default:
			op = "*"
			if x.lo.Cmp(x.hi) != 0 && y.lo.Cmp(y.hi) != 0 {
				op = ""
			}
			for i, p := range [][2]*big.Int{{x.lo, y.lo}, {x.lo, y.hi}, {x.hi, y.lo}, {x.hi, y.hi}} {
				m := new(big.Int).Mul(p[0], p[1])
				if i == 0 || m.Cmp(a) < 0 {
					a = m
				}
				if i == 0 || m.Cmp(b) > 0 {
					b = m
				}
			}
		}
		if op == "" {
			break
		}
		// the multiple of 2^w by which the machine result differs must be the same everywhere
		off := new(big.Int)
		half := new(big.Int)
		if signed {
			half.Lsh(big.NewInt(1), uint(t.W)-1)
		}
		k1 := new(big.Int).Rsh(new(big.Int).Add(a, half), uint(t.W))
		k2 := new(big.Int).Rsh(new(big.Int).Add(b, half), uint(t.W))
		if k1.Cmp(k2) == 0 {
			off.Lsh(k1, uint(t.W))
			s := "(" + op + " " + x.s + " " + y.s + ")"
			if off.Sign() != 0 {
				s = "(- " + s + " " + bigStr(off) + ")"
			}
			return ival{e.bind("Int", s), a.Sub(a, off), b.Sub(b, off)}
		}
		// otherwise it is unknown which multiple, but it is one
		k := e.some(k1, k2)
		v := e.some(lo, hi)
		fmt.Fprintf(&e.decl, "(assert (= (%s %s %s) (+ %s (* %s %s))))\n", op, x.s, y.s, v, pow2(int(t.W)), k)
		return ival{v, lo, hi}
	}
	if signed {
		// the unsigned reading determines the signed one
		x := e.num(t, false)
		return ival{e.bind("Int", fmt.Sprintf("(ite (< %s %s) %s (- %s %s))", x.s, pow2(int(t.W)-1), x.s, x.s, pow2(int(t.W)))), lo, hi}
	}
	switch t.Op {
	case OpExtract:
		// x = high * 2^(k+w) + v * 2^k + low
		x := e.num(t.A, false)
		v := e.some(lo, hi)
		s := v
		if t.K > 0 {
			s = fmt.Sprintf("(+ (* %s %s) %s)", pow2(int(t.K)), v, e.below(int(t.K)))
		}
		if n := int(t.K) + int(t.W); n < int(t.A.W) {
			s = fmt.Sprintf("(+ (* %s %s) %s)", pow2(n), e.below(int(t.A.W)-n), s)
		}
		fmt.Fprintf(&e.decl, "(assert (= %s %s))\n", x.s, s)
		return ival{v, lo, hi}
	case OpConcat:
		x, y := e.num(t.A, false), e.num(t.B, false)
		return ival{e.bind("Int", fmt.Sprintf("(+ (* %s %s) %s)", pow2(int(t.B.W)), x.s, y.s)), lo, hi}
	case OpSExt:
		x := e.num(t.A, true)
		return ival{e.bind("Int", fmt.Sprintf("(ite (< %s 0) (+ %s %s) %s)", x.s, x.s, pow2(int(t.W)), x.s)), lo, hi}
	case OpUDiv, OpURem, OpLShr, OpShl:
		if t.B.Op != OpConst || t.B.K == 0 {
			break
		}
		x := e.num(t.A, false)
		d := new(big.Int).SetUint64(t.B.K)
		if t.Op == OpLShr || t.Op == OpShl {
			if t.B.K >= uint64(t.W) {
				return ival{"0", new(big.Int), new(big.Int)}
			}
			d = new(big.Int).Lsh(big.NewInt(1), uint(t.B.K))
		}
		if t.Op == OpShl {
			q, v := e.below(int(t.B.K)), e.some(lo, hi)
			fmt.Fprintf(&e.decl, "(assert (= (* %s %s) (+ (* %s %s) %s)))\n", bigStr(d), x.s, pow2(int(t.W)), q, v)
			return ival{v, lo, hi}
		}
		q := e.some(new(big.Int), new(big.Int).Div(x.hi, d))
		r := e.some(new(big.Int), new(big.Int).Sub(d, big.NewInt(1)))
		fmt.Fprintf(&e.decl, "(assert (= %s (+ (* %s %s) %s)))\n", x.s, bigStr(d), q, r)
		if t.Op == OpURem {
			return ival{r, lo, hi}
		}
		return ival{q, lo, hi}
	case OpBNot:
		x := e.num(t.A, false)
		return ival{e.bind("Int", fmt.Sprintf("(- %s 1 %s)", pow2(int(t.W)), x.s)), lo, hi}
	}
	return ival{e.some(lo, hi), lo, hi}
}

func pow2(n int) string { return new(big.Int).Lsh(big.NewInt(1), uint(n)).String() }

// some is any integer in the range.
func (e *realEnc) some(lo, hi *big.Int) string {
	v := e.fresh("Int")
	fmt.Fprintf(&e.decl, "(assert (<= %s %s %s))\n", bigStr(lo), v, bigStr(hi))
	return v
}

// below is any integer of n bits.
func (e *realEnc) below(n int) string {
	hi := new(big.Int).Lsh(big.NewInt(1), uint(n))
	return e.some(new(big.Int), hi.Sub(hi, big.NewInt(1)))
}

func (e *realEnc) atom(t *Term) {
	if e.atoms[t.Atom] {
		return
	}
	e.atoms[t.Atom] = true
	e.vars = append(e.vars, t)
	r := e.c.domRange(t)
	fmt.Fprintf(&e.decl, "(declare-const %s Int)\n(assert (<= %d %s %d))\n", t.Name, r.ulo, t.Name, r.uhi)
}

func (e *realEnc) round(s string, lo, hi float64) fval {
	m := math.Max(math.Abs(lo), math.Abs(hi))
	if !(m < 1e300) {
		e.fail = true
		return fval{"0.0", 0, 0}
	}
	if m == 0 {
		return fval{e.bind("Real", s), 0, 0}
	}
	err := m*math.Ldexp(1, -53)*(1+1e-9) + 1e-300
	v := e.fresh("Real")
	fmt.Fprintf(&e.decl, "(assert (<= %s %s %s))\n", ratStr(-err), v, ratStr(err))
	return fval{e.bind("Real", "(+ "+s+" "+v+")"), lo - 2*err, hi + 2*err}
}

func (e *realEnc) float(t *Term) fval {
	if v, ok := e.flts[t.ID]; ok {
		return v
	}
	v := e.float1(t)
	e.flts[t.ID] = v
	return v
}

func (e *realEnc) float1(t *Term) fval {
	bad := fval{"0.0", 0, 0}
	switch t.Op {
	case OpConst:
		f := t.Float64()
		if math.IsNaN(f) || math.Abs(f) > 1e300 {
			e.fail = true
			return bad
		}
		return fval{ratStr(f), f, f}
	case OpFofS, OpFofU:
		x := e.num(t.A, t.Op == OpFofS)
		lo, _ := new(big.Float).SetInt(x.lo).Float64()
		hi, _ := new(big.Float).SetInt(x.hi).Float64()
		s := "(to_real " + x.s + ")"
		if math.Abs(lo) <= maxExact && math.Abs(hi) <= maxExact {
			return fval{e.bind("Real", s), lo, hi}
		}
		return e.round(s, lo*(1+1e-9), hi*(1+1e-9))
	case OpFNeg:
		x := e.float(t.A)
		return fval{"(- " + x.s + ")", -x.hi, -x.lo}
	case OpFAbs:
		x := e.float(t.A)
		m := math.Max(math.Abs(x.lo), math.Abs(x.hi))
		return fval{e.bind("Real", "(ite (>= "+x.s+" 0.0) "+x.s+" (- "+x.s+"))"), 0, m}
	case OpIte:
		p := e.boolean(t.A)
		x, y := e.float(t.B), e.float(t.C)
		return fval{e.bind("Real", "(ite "+p+" "+x.s+" "+y.s+")"), math.Min(x.lo, y.lo), math.Max(x.hi, y.hi)}
	case OpFAdd, OpFSub, OpFMul, OpFDiv:
		x, y := e.float(t.A), e.float(t.B)
		var lo, hi float64
		var op string
		switch t.Op {
		case OpFAdd:
			op, lo, hi = "+", x.lo+y.lo, x.hi+y.hi
		case OpFSub:
			op, lo, hi = "-", x.lo-y.hi, x.hi-y.lo
		case OpFMul, OpFDiv:
			op = "*"
			if t.Op == OpFDiv {
				op = "/"
				if t.B.Op != OpConst || y.lo == 0 {
					e.fail = true
					return bad
				}
			} else if t.A.Op != OpConst && t.B.Op != OpConst {
				e.fail = true
				return bad
			}
			lo, hi = math.Inf(1), math.Inf(-1)
			for _, p := range [][2]float64{{x.lo, y.lo}, {x.lo, y.hi}, {x.hi, y.lo}, {x.hi, y.hi}} {
				m := p[0] * p[1]
				if t.Op == OpFDiv {
					m = p[0] / p[1]
				}
				lo, hi = math.Min(lo, m), math.Max(hi, m)
			}
		}
		w := math.Max(math.Abs(lo), math.Abs(hi)) * 1e-12
		return e.round("("+op+" "+x.s+" "+y.s+")", lo-w, hi+w)
	}
	e.fail = true
	return bad
}

func (e *realEnc) boolean(t *Term) string {
	if v, ok := e.bools[t.ID]; ok {
		return v
	}
	v := e.boolean1(t)
	e.bools[t.ID] = v
	return v
}

func (e *realEnc) boolean1(t *Term) string {
	two := func(op string) string { return e.bind("Bool", "("+op+" "+e.boolean(t.A)+" "+e.boolean(t.B)+")") }
	cmpI := func(op string, signed bool) string {
		return e.bind("Bool", "("+op+" "+e.num(t.A, signed).s+" "+e.num(t.B, signed).s+")")
	}
	cmpF := func(op string) string {
		return e.bind("Bool", "("+op+" "+e.float(t.A).s+" "+e.float(t.B).s+")")
	}
	switch t.Op {
	case OpConst:
		if t.IsTrue() {
			return "true"
		}
		return "false"
	case OpNot:
		return "(not " + e.boolean(t.A) + ")"
	case OpAnd:
		return two("and")
	case OpOr:
		return two("or")
	case OpIte:
		return e.bind("Bool", "(ite "+e.boolean(t.A)+" "+e.boolean(t.B)+" "+e.boolean(t.C)+")")
	case OpEq:
		if t.A.W == 0 {
			return two("=")
		}
		if t.A.W != WFloat {
			return cmpI("=", false)
		}
	case OpUlt:
		return cmpI("<", false)
	case OpUle:
		return cmpI("<=", false)
	case OpSlt:
		return cmpI("<", true)
	case OpSle:
		return cmpI("<=", true)
	case OpFEq:
		return cmpF("=")
	case OpFLt:
		return cmpF("<")
	case OpFLe:
		return cmpF("<=")
	case OpInSet:
		if a := e.c.Atoms[t.Atom].T; a.Op == OpVar {
			e.atom(a)
			var parts []string
			for i := 0; i < 256; i++ {
				if !t.Set.Has(i) {
					continue
				}
				j := i
				for j < 255 && t.Set.Has(j+1) {
					j++
				}
				parts = append(parts, fmt.Sprintf("(<= %d %s %d)", i, a.Name, j))
				i = j
			}
			if len(parts) == 0 {
				return "false"
			}
			return e.bind("Bool", "(or "+strings.Join(parts, " ")+")")
		}
	}
	return e.fresh("Bool")
}

// holds evaluates the conjunction under an assignment.
func (s *Solver) holds(cs []*Term, m map[int]uint64) bool {
	s.c.NewEval()
	for _, t := range cs {
		v, ok := s.c.Eval(t, func(v int) (uint64, bool) { x, ok := m[v]; return x, ok })
		if !ok || v == 0 {
			return false
		}
	}
	return true
}

// single decides a conjunction over one byte by its values.
func (s *Solver) single(cs []*Term) (Result, map[int]uint64) {
	vs := s.varsOf(cs)
	if len(vs) != 1 || vs[0].W != 8 {
		return Unknown, nil
	}
	for b := uint64(0); b < 256; b++ {
		m := map[int]uint64{s.c.Atoms[vs[0].Atom].Var: b}
		if s.holds(cs, m) {
			return Sat, m
		}
	}
	return Unsat, nil
}

// guess looks for a model among pseudo-random assignments within the byte domains.
func (s *Solver) guess(cs []*Term) (map[int]uint64, bool) {
	vs := s.varsOf(cs)
	seed := uint64(12345)
	next := func(n uint64) uint64 {
		seed = mix(seed, 99)
		return seed % n
	}
	for k := 0; k < 200; k++ {
		m := map[int]uint64{}
		for _, v := range vs {
			if v.W == 8 {
				d := s.c.Dom[v.Atom]
				n := d.Count()
				if n == 0 {
					return nil, false
				}
				i := next(uint64(n))
				if k == 0 {
					i = 0
				} else if k == 1 {
					i = uint64(n - 1)
				}
				for b := 0; b < 256; b++ {
					if d.Has(b) {
						if i == 0 {
							m[s.c.Atoms[v.Atom].Var] = uint64(b)
							break
						}
						i--
					}
				}
			} else {
				r := s.c.domRange(v)
				x := r.ulo
				if r.uhi-r.ulo != ^uint64(0) {
					x += next(r.uhi - r.ulo + 1)
				}
				m[s.c.Atoms[v.Atom].Var] = x & mask(v.W)
			}
		}
		if s.holds(cs, m) {
			return m, true
		}
	}
	return nil, false
}

// reals tries the abstraction.
func (s *Solver) reals(cs []*Term) (Result, map[int]uint64) {
	e := &realEnc{c: s.c, ints: map[uint32]ival{}, sints: map[uint32]ival{}, flts: map[uint32]fval{}, bools: map[uint32]string{}, atoms: map[int32]bool{}}
	var as strings.Builder
	for _, t := range cs {
		fmt.Fprintf(&as, "(assert %s)\n", e.boolean(t))
	}
	if e.fail {
		return Unknown, nil
	}
	var sb bytes.Buffer
	sb.WriteString("(set-option :produce-models true)\n")
	sb.WriteString(e.decl.String())
	sb.WriteString(as.String())
	sb.WriteString("(check-sat)\n")
	if len(e.vars) > 0 {
		sb.WriteString("(get-value (")
		for _, v := range e.vars {
			sb.WriteString(" " + v.Name)
		}
		sb.WriteString("))\n")
	}
	ctx, cancel := context.WithTimeout(context.Background(), 20*time.Second)
	defer cancel()
	cmd := exec.CommandContext(ctx, "z3-new", "-in", "-smt2")
	cmd.Stdin = &sb
	out, _ := cmd.Output()
	line, rest, _ := strings.Cut(string(out), "\n")
	s.Stats.Reals++
	switch strings.TrimSpace(line) {
	case "unsat":
		return Unsat, nil
	case "sat":
		m := map[int]uint64{}
		for _, v := range s.varsOf(cs) {
			m[s.c.Atoms[v.Atom].Var] = s.c.domRange(v).ulo
		}
		for _, v := range e.vars {
			i := strings.Index(rest, "("+v.Name+" ")
			if i < 0 {
				return Unknown, nil
			}
			var x uint64
			if _, err := fmt.Sscanf(rest[i+len(v.Name)+2:], "%d", &x); err != nil {
				return Unknown, nil
			}
			m[s.c.Atoms[v.Atom].Var] = x
		}
		if s.holds(cs, m) {
			return Sat, m
		}
	}
	return Unknown, nil
}
