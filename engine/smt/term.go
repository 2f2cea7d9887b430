// Package smt holds hash-consed bit-vector/float terms with simplification,
// exact reasoning about single-byte conditions, and an SMT-LIB2 back end.
package smt

import (
	"fmt"
	"math"
	"math/bits"
	"sort"
	"strings"
)

type Op uint8

const (
	OpConst Op = iota // k = value (bool: 0/1; float: IEEE bits)
	OpVar             // atom
	OpUF              // uninterpreted function application (args bytes), atom
	OpNot
	OpAnd
	OpOr
	OpIte
	OpEq
	OpUlt
	OpUle
	OpSlt
	OpSle
	OpInSet // univariate byte condition: atom in set
	OpAdd
	OpSub
	OpMul
	OpUDiv
	OpURem
	OpSDiv
	OpSRem
	OpBAnd
	OpBOr
	OpBXor
	OpBNot
	OpShl
	OpLShr
	OpAShr
	OpExtract // low w bits starting at k
	OpZExt
	OpSExt
	OpConcat
	OpTable // a = index term, tab = constants
	OpFAdd
	OpFSub
	OpFMul
	OpFDiv
	OpFNeg
	OpFAbs
	OpFEq
	OpFLt
	OpFLe
	OpFofS // signed bv -> float64 (RNE)
	OpFofU
	OpFtoS // float64 -> signed 64 (truncation, amd64 semantics)
)

const WFloat = 255

type Set [4]uint64

func (s *Set) Has(b int) bool { return s[b>>6]>>(uint(b)&63)&1 == 1 }
func (s *Set) Add(b int)      { s[b>>6] |= 1 << (uint(b) & 63) }
func (s Set) Empty() bool     { return s[0]|s[1]|s[2]|s[3] == 0 }
func (s Set) Full() bool      { return s[0]&s[1]&s[2]&s[3] == ^uint64(0) }
func (s Set) And(t Set) Set {
	return Set{s[0] & t[0], s[1] & t[1], s[2] & t[2], s[3] & t[3]}
}
func (s Set) AndNot(t Set) Set {
	return Set{s[0] &^ t[0], s[1] &^ t[1], s[2] &^ t[2], s[3] &^ t[3]}
}
func (s Set) Count() int {
	return bits.OnesCount64(s[0]) + bits.OnesCount64(s[1]) + bits.OnesCount64(s[2]) + bits.OnesCount64(s[3])
}
func (s Set) First() int {
	for i := 0; i < 4; i++ {
		if s[i] != 0 {
			return i*64 + bits.TrailingZeros64(s[i])
		}
	}
	return -1
}

// FullSet holds all bytes.
var FullSet = Set{^uint64(0), ^uint64(0), ^uint64(0), ^uint64(0)}

type Table struct {
	id  int
	w   uint8
	v   []uint64
	lo  uint64
	hi  uint64
	key string
}

type Term struct {
	Op   Op
	W    uint8 // 0 bool, 1..64 bit-vector, 255 float64
	ID   uint32
	H    uint64 // structural hash: the canonical operand order, equal in every context
	A    *Term
	B    *Term
	C    *Term
	K    uint64
	Args []*Term
	Tab  *Table
	Set  *Set
	Name string
	// support: -1 constant, -2 several atoms, otherwise the single atom's index
	Atom  int32
	HasUF bool
	HasF  bool
	ulo   uint64
	uhi   uint64
	slo   int64
	shi   int64
	tbl   *[256]uint64
	vars  []int32
	def   uint32 // solver generation in which it was defined
	evEp  uint32
	evOK  bool
	evVal uint64
	rgEp  uint32
	rgLo  uint64
	rgHi  uint64
	rsLo  int64
	rsHi  int64
	qEp   uint32
	qV    int8
}

type tkey struct {
	op      Op
	w       uint8
	a, b, c uint32
	k       uint64
}
type setKey struct {
	atom int32
	s    Set
}

// Atom describes a variable or UF application.
type AtomInfo struct {
	T    *Term
	W    uint8
	IsUF bool
	Var  int // index among path variables (creation order), -1 for UF
}

type Ctx struct {
	tab    map[tkey]*Term
	sets   map[setKey]*Term
	ufs    map[string]*Term
	tables map[string]*Table
	Atoms  []AtomInfo
	vars   map[[2]int]*Term
	byVar  []*Term
	nextID uint32
	True   *Term
	False  *Term
	b8     [256]*Term
	i64    [1 << 13]*Term
	evEp   uint32
	rgEp   uint32
	// domain of byte atoms used by ranges (owned by the path explorer)
	Dom    []Set
	DomVer uint32
	rgVer  uint32
	UFEval func(name string, args []uint64) (uint64, bool)
}

func NewCtx() *Ctx {
	c := &Ctx{tab: map[tkey]*Term{}, sets: map[setKey]*Term{}, ufs: map[string]*Term{}, tables: map[string]*Table{}, vars: map[[2]int]*Term{}, nextID: 1, rgEp: 1, DomVer: 1}
	c.True = c.constRaw(0, 1)
	c.False = c.constRaw(0, 0)
	for i := range c.b8 {
		c.b8[i] = c.constRaw(8, uint64(i))
	}
	for i := range c.i64 {
		c.i64[i] = c.constRaw(64, uint64(int64(i-1024)))
	}
	return c
}

func mask(w uint8) uint64 {
	if w >= 64 {
		return ^uint64(0)
	}
	return 1<<w - 1
}
func sext(v uint64, w uint8) int64 {
	if w >= 64 {
		return int64(v)
	}
	s := 64 - uint(w)
	return int64(v<<s) >> s
}

func (c *Ctx) newTerm(t *Term) *Term {
	t.ID = c.nextID
	c.nextID++
	h := mix(uint64(t.Op)<<8|uint64(t.W), t.K)
	for _, x := range [3]*Term{t.A, t.B, t.C} {
		if x != nil {
			h = mix(h, x.H)
		} else {
			h = mix(h, 7)
		}
	}
	for _, x := range t.Args {
		h = mix(h, x.H)
	}
	if t.Op == OpUF {
		h = mixStr(h, t.Name)
	}
	if t.Tab != nil {
		h = mixStr(h, t.Tab.key)
	}
	if t.Set != nil {
		for _, x := range t.Set {
			h = mix(h, x)
		}
	}
	t.H = h
	return t
}

func mix(h, x uint64) uint64 {
	h ^= x + 0x9e3779b97f4a7c15 + h<<6 + h>>2
	h ^= h >> 33
	h *= 0xff51afd7ed558ccd
	h ^= h >> 33
	return h
}

func mixStr(h uint64, s string) uint64 {
	for i := 0; i < len(s); i++ {
		h = mix(h, uint64(s[i]))
	}
	return h
}

// before is the canonical order of operands.
func before(a, b *Term) bool { return a.H < b.H || a.H == b.H && a.ID < b.ID }
func (c *Ctx) NumTerms() int { return int(c.nextID) }

func (c *Ctx) constRaw(w uint8, k uint64) *Term {
	key := tkey{op: OpConst, w: w, k: k}
	if t, ok := c.tab[key]; ok {
		return t
	}
	t := c.newTerm(&Term{Op: OpConst, W: w, K: k, Atom: -1, ulo: k, uhi: k})
	if w != WFloat {
		t.slo = sext(k, w)
		t.shi = t.slo
	} else {
		t.HasF = true
	}
	c.tab[key] = t
	return t
}

// BV returns a constant of width w.
func (c *Ctx) BV(w uint8, v uint64) *Term {
	v &= mask(w)
	if w == 8 {
		return c.b8[v]
	}
	if w == 64 {
		if i := int64(v) + 1024; i >= 0 && i < int64(len(c.i64)) {
			return c.i64[i]
		}
	}
	return c.constRaw(w, v)
}
func (c *Ctx) Int(v int64) *Term { return c.BV(64, uint64(v)) }
func (c *Ctx) Bool(b bool) *Term {
	if b {
		return c.True
	}
	return c.False
}
func (c *Ctx) Float(f float64) *Term { return c.constRaw(WFloat, math.Float64bits(f)) }

func (t *Term) IsConst() bool    { return t.Op == OpConst }
func (t *Term) Int64() int64     { return sext(t.K, t.W) }
func (t *Term) IsTrue() bool     { return t.Op == OpConst && t.K == 1 && t.W == 0 }
func (t *Term) IsFalse() bool    { return t.Op == OpConst && t.K == 0 && t.W == 0 }
func (t *Term) Float64() float64 { return math.Float64frombits(t.K) }

// Var returns the idx-th path variable of width w (0 = bool is represented as width 1..).
func (c *Ctx) Var(idx int, w uint8) *Term {
	k := [2]int{idx, int(w)}
	if t, ok := c.vars[k]; ok {
		return t
	}
	t := c.newTerm(&Term{Op: OpVar, W: w, K: uint64(idx), Atom: int32(len(c.Atoms))})
	t.Name = fmt.Sprintf("v%d_%d", idx, w)
	t.ulo, t.uhi = 0, mask(w)
	t.slo, t.shi = sext(1<<(w-1), w), int64(mask(w)>>1)
	c.Atoms = append(c.Atoms, AtomInfo{T: t, W: w, Var: idx})
	c.Dom = append(c.Dom, FullSet)
	c.vars[k] = t
	return t
}

// UF returns the application name(args) of width w.
func (c *Ctx) UF(name string, w uint8, args []*Term) *Term {
	var sb strings.Builder
	sb.WriteString(name)
	for _, a := range args {
		fmt.Fprintf(&sb, ",%d", a.ID)
	}
	key := sb.String()
	if t, ok := c.ufs[key]; ok {
		return t
	}
	t := c.newTerm(&Term{Op: OpUF, W: w, Name: name, Args: append([]*Term(nil), args...), Atom: int32(len(c.Atoms)), HasUF: true})
	t.ulo, t.uhi = 0, mask(w)
	t.slo, t.shi = sext(1<<(w-1), w), int64(mask(w)>>1)
	c.Atoms = append(c.Atoms, AtomInfo{T: t, W: w, IsUF: true, Var: -1})
	c.Dom = append(c.Dom, FullSet)
	c.ufs[key] = t
	return t
}

// Canon replaces a function of one byte that is the identity or constant on the byte's current
// domain, so that the arguments of equal applications are the same terms.
func (c *Ctx) Canon(t *Term) *Term {
	if t.W != 8 || t.Atom < 0 || c.Atoms[t.Atom].W != 8 {
		return t
	}
	tb, dom := c.tableOf(t), c.Dom[t.Atom]
	same, k := true, -1
	for b := 0; b < 256; b++ {
		if !dom.Has(b) {
			continue
		}
		if tb[b] != uint64(b) {
			same = false
		}
		if k == -1 || k == int(tb[b]) {
			k = int(tb[b])
		} else {
			k = -2
		}
	}
	if k >= 0 {
		return c.BV(8, uint64(k))
	}
	if same {
		return c.Atoms[t.Atom].T
	}
	return t
}

func (c *Ctx) MkTable(w uint8, v []uint64) *Table {
	var sb strings.Builder
	fmt.Fprintf(&sb, "%d:", w)
	for _, x := range v {
		fmt.Fprintf(&sb, "%x,", x)
	}
	key := sb.String()
	if t, ok := c.tables[key]; ok {
		return t
	}
	t := &Table{id: len(c.tables), w: w, v: append([]uint64(nil), v...), lo: v[0], hi: v[0], key: key}
	for _, x := range v {
		if x < t.lo {
			t.lo = x
		}
		if x > t.hi {
			t.hi = x
		}
	}
	c.tables[key] = t
	return t
}

func joinAtom(a, b int32) int32 {
	if a == -1 {
		return b
	}
	if b == -1 || a == b {
		return a
	}
	return -2
}

func cid(t *Term) uint32 {
	if t == nil {
		return 0
	}
	return t.ID
}

func (c *Ctx) mk(op Op, w uint8, k uint64, a, b, d *Term) *Term {
	key := tkey{op: op, w: w, a: cid(a), b: cid(b), c: cid(d), k: k}
	if t, ok := c.tab[key]; ok {
		return t
	}
	t := &Term{Op: op, W: w, K: k, A: a, B: b, C: d, Atom: -1}
	for _, x := range [3]*Term{a, b, d} {
		if x != nil {
			t.Atom = joinAtom(t.Atom, x.Atom)
			t.HasUF = t.HasUF || x.HasUF
			t.HasF = t.HasF || x.HasF
		}
	}
	if op >= OpFAdd {
		t.HasF = true
	}
	c.ranges(t)
	// canonical form of conditions on a single byte
	if w == 0 && t.Atom >= 0 && !t.HasF && c.Atoms[t.Atom].W == 8 {
		s := c.setOf(t)
		r := c.InSet(t.Atom, s)
		c.tab[key] = r
		return r
	}
	c.newTerm(t)
	c.tab[key] = t
	return t
}

// InSet is the condition that the byte atom lies in s.
func (c *Ctx) InSet(atom int32, s Set) *Term {
	if s.Empty() {
		return c.False
	}
	if s.Full() {
		return c.True
	}
	k := setKey{atom, s}
	if t, ok := c.sets[k]; ok {
		return t
	}
	at := c.Atoms[atom].T
	ss := s
	t := c.newTerm(&Term{Op: OpInSet, W: 0, A: at, Set: &ss, Atom: atom, HasUF: at.HasUF, uhi: 1, shi: 1})
	c.sets[k] = t
	return t
}

func (c *Ctx) setOf(t *Term) Set {
	if t.Op == OpInSet {
		return *t.Set
	}
	var s Set
	switch t.Op {
	case OpConst:
		if t.K != 0 {
			return FullSet
		}
		return s
	case OpNot:
		return FullSet.AndNot(c.setOf(t.A))
	case OpAnd:
		return c.setOf(t.A).And(c.setOf(t.B))
	case OpOr:
		x, y := c.setOf(t.A), c.setOf(t.B)
		return Set{x[0] | y[0], x[1] | y[1], x[2] | y[2], x[3] | y[3]}
	case OpIte:
		x, y, z := c.setOf(t.A), c.setOf(t.B), c.setOf(t.C)
		p, q := x.And(y), z.AndNot(x)
		return Set{p[0] | q[0], p[1] | q[1], p[2] | q[2], p[3] | q[3]}
	}
	tb := c.tableOf(t)
	for i := 0; i < 256; i++ {
		if tb[i] != 0 {
			s.Add(i)
		}
	}
	return s
}

// tableOf evaluates a univariate byte term for all 256 values.
func (c *Ctx) tableOf(t *Term) *[256]uint64 {
	if t.tbl != nil {
		return t.tbl
	}
	r := new([256]uint64)
	switch t.Op {
	case OpConst:
		for i := range r {
			r[i] = t.K
		}
		return r // not cached: constants are shared
	case OpVar, OpUF:
		for i := range r {
			r[i] = uint64(i)
		}
	case OpInSet:
		for i := range r {
			if t.Set.Has(i) {
				r[i] = 1
			}
		}
	default:
		var a, b, d *[256]uint64
		a = c.tableOf(t.A)
		if t.B != nil {
			b = c.tableOf(t.B)
		}
		if t.C != nil {
			d = c.tableOf(t.C)
		}
		for i := range r {
			var x, y, z uint64
			x = a[i]
			if b != nil {
				y = b[i]
			}
			if d != nil {
				z = d[i]
			}
			r[i] = apply(t, x, y, z)
		}
	}
	t.tbl = r
	return r
}

func b2u(b bool) uint64 {
	if b {
		return 1
	}
	return 0
}

func f2s(f float64) uint64 {
	if f != f || f >= 9223372036854775808.0 || f < -9223372036854775808.0 {
		return 1 << 63
	}
	return uint64(int64(f))
}

// apply evaluates t's operator on concrete operand values.
func apply(t *Term, x, y, z uint64) uint64 {
	w := t.W
	m := mask(w)
	switch t.Op {
	case OpNot:
		return x ^ 1
	case OpAnd:
		return x & y
	case OpOr:
		return x | y
	case OpIte:
		if x != 0 {
			return y
		}
		return z
	case OpEq:
		return b2u(x == y)
	case OpUlt:
		return b2u(x < y)
	case OpUle:
		return b2u(x <= y)
	case OpSlt:
		return b2u(sext(x, t.A.W) < sext(y, t.A.W))
	case OpSle:
		return b2u(sext(x, t.A.W) <= sext(y, t.A.W))
	case OpInSet:
		return b2u(t.Set.Has(int(x)))
	case OpAdd:
		return (x + y) & m
	case OpSub:
		return (x - y) & m
	case OpMul:
		return (x * y) & m
	case OpUDiv:
		if y == 0 {
			return m
		}
		return x / y
	case OpURem:
		if y == 0 {
			return x
		}
		return x % y
	case OpSDiv:
		a, b := sext(x, w), sext(y, w)
		if b == 0 {
			if a < 0 {
				return 1
			}
			return m
		}
		if b == -1 {
			return uint64(-a) & m
		}
		return uint64(a/b) & m
	case OpSRem:
		a, b := sext(x, w), sext(y, w)
		if b == 0 {
			return x
		}
		if b == -1 {
			return 0
		}
		return uint64(a%b) & m
	case OpBAnd:
		return x & y
	case OpBOr:
		return x | y
	case OpBXor:
		return x ^ y
	case OpBNot:
		return ^x & m
	case OpShl:
		if y >= uint64(w) {
			return 0
		}
		return (x << y) & m
	case OpLShr:
		if y >= uint64(w) {
			return 0
		}
		return x >> y
	case OpAShr:
		if y >= uint64(w) {
			y = uint64(w) - 1
		}
		return uint64(sext(x, w)>>y) & m
	case OpExtract:
		return (x >> t.K) & m
	case OpZExt:
		return x
	case OpSExt:
		return uint64(sext(x, t.A.W)) & m
	case OpConcat:
		return (x<<t.B.W | y) & m
	case OpTable:
		if x < uint64(len(t.Tab.v)) {
			return t.Tab.v[x]
		}
		return t.Tab.v[len(t.Tab.v)-1]
	case OpFAdd:
		return math.Float64bits(math.Float64frombits(x) + math.Float64frombits(y))
	case OpFSub:
		return math.Float64bits(math.Float64frombits(x) - math.Float64frombits(y))
	case OpFMul:
		return math.Float64bits(math.Float64frombits(x) * math.Float64frombits(y))
	case OpFDiv:
		return math.Float64bits(math.Float64frombits(x) / math.Float64frombits(y))
	case OpFNeg:
		return x ^ (1 << 63)
	case OpFAbs:
		return x &^ (1 << 63)
	case OpFEq:
		return b2u(math.Float64frombits(x) == math.Float64frombits(y))
	case OpFLt:
		return b2u(math.Float64frombits(x) < math.Float64frombits(y))
	case OpFLe:
		return b2u(math.Float64frombits(x) <= math.Float64frombits(y))
	case OpFofS:
		return math.Float64bits(float64(sext(x, t.A.W)))
	case OpFofU:
		return math.Float64bits(float64(x))
	case OpFtoS:
		return f2s(math.Float64frombits(x))
	}
	panic("apply: bad op")
}

func (c *Ctx) fold(op Op, w uint8, k uint64, a, b, d *Term) (*Term, bool) {
	if !a.IsConst() || (b != nil && !b.IsConst()) || (d != nil && !d.IsConst()) {
		return nil, false
	}
	tmp := Term{Op: op, W: w, K: k, A: a, B: b, C: d}
	var y, z uint64
	if b != nil {
		y = b.K
	}
	if d != nil {
		z = d.K
	}
	return c.constW(w, apply(&tmp, a.K, y, z)), true
}
func (c *Ctx) constW(w uint8, v uint64) *Term {
	if w == 0 {
		return c.Bool(v != 0)
	}
	if w == WFloat {
		return c.constRaw(WFloat, v)
	}
	return c.BV(w, v)
}

// ---- structural ranges ----

func addU(a, b uint64) (uint64, bool) { r, cy := bits.Add64(a, b, 0); return r, cy == 0 }
func mulU(a, b uint64) (uint64, bool) { hi, lo := bits.Mul64(a, b); return lo, hi == 0 }
func addS(a, b int64) (int64, bool) {
	r := a + b
	return r, (r > a) == (b > 0) || b == 0
}
func mulS(a, b int64) (int64, bool) {
	if a == 0 || b == 0 {
		return 0, true
	}
	r := a * b
	if r/b != a || (a == -1 && b == math.MinInt64) || (b == -1 && a == math.MinInt64) {
		return 0, false
	}
	return r, true
}

type rng struct {
	ulo, uhi uint64
	slo, shi int64
}

func fullRng(w uint8) rng {
	if w == 0 {
		return rng{0, 1, 0, 1}
	}
	if w == WFloat {
		return rng{0, ^uint64(0), math.MinInt64, math.MaxInt64}
	}
	return rng{0, mask(w), sext(1<<(w-1), w), int64(mask(w) >> 1)}
}

// norm makes the unsigned and signed views tighten each other.
func norm(r rng, w uint8) rng {
	half := int64(mask(w) >> 1)
	if r.slo >= 0 { // non-negative: both views coincide
		if uint64(r.slo) > r.ulo {
			r.ulo = uint64(r.slo)
		}
		if uint64(r.shi) < r.uhi {
			r.uhi = uint64(r.shi)
		}
	}
	if r.uhi <= uint64(half) {
		if int64(r.ulo) > r.slo {
			r.slo = int64(r.ulo)
		}
		if int64(r.uhi) < r.shi {
			r.shi = int64(r.uhi)
		}
	}
	return r
}

func opRange(t *Term, get func(*Term) rng) rng {
	w := t.W
	full := fullRng(w)
	if w == 0 || w == WFloat {
		return full
	}
	r := full
	switch t.Op {
	case OpConst:
		return rng{t.K, t.K, sext(t.K, w), sext(t.K, w)}
	case OpIte:
		x, y := get(t.B), get(t.C)
		r = rng{min(x.ulo, y.ulo), max(x.uhi, y.uhi), min(x.slo, y.slo), max(x.shi, y.shi)}
	case OpAdd:
		x, y := get(t.A), get(t.B)
		if hi, ok := addU(x.uhi, y.uhi); ok && hi <= mask(w) {
			r.ulo, r.uhi = x.ulo+y.ulo, hi
		}
		lo, ok1 := addS(x.slo, y.slo)
		hi, ok2 := addS(x.shi, y.shi)
		if ok1 && ok2 && lo >= full.slo && hi <= full.shi {
			r.slo, r.shi = lo, hi
		}
	case OpSub:
		x, y := get(t.A), get(t.B)
		if x.ulo >= y.uhi {
			r.ulo, r.uhi = x.ulo-y.uhi, x.uhi-y.ulo
		}
		if y.slo > math.MinInt64 {
			lo, ok1 := addS(x.slo, -y.shi)
			hi, ok2 := addS(x.shi, -y.slo)
			if ok1 && ok2 && lo >= full.slo && hi <= full.shi {
				r.slo, r.shi = lo, hi
			}
		}
	case OpMul:
		x, y := get(t.A), get(t.B)
		if hi, ok := mulU(x.uhi, y.uhi); ok && hi <= mask(w) {
			r.ulo, r.uhi = x.ulo*y.ulo, hi
		}
		lo, hi, ok := int64(math.MaxInt64), int64(math.MinInt64), true
		for _, p := range [2]int64{x.slo, x.shi} {
			for _, q := range [2]int64{y.slo, y.shi} {
				v, o := mulS(p, q)
				ok = ok && o
				lo, hi = min(lo, v), max(hi, v)
			}
		}
		if ok && lo >= full.slo && hi <= full.shi {
			r.slo, r.shi = lo, hi
		}
	case OpUDiv:
		x, y := get(t.A), get(t.B)
		if y.ulo > 0 {
			r.ulo, r.uhi = x.ulo/y.uhi, x.uhi/y.ulo
		}
	case OpURem:
		x, y := get(t.A), get(t.B)
		if y.ulo > 0 {
			r.ulo, r.uhi = 0, min(x.uhi, y.uhi-1)
		}
	case OpSDiv:
		x, y := get(t.A), get(t.B)
		if y.slo > 0 {
			if x.slo >= 0 {
				r.slo, r.shi = x.slo/y.shi, x.shi/y.slo
			} else {
				r.slo = x.slo / y.slo
				if x.shi >= 0 {
					r.shi = x.shi / y.slo
				} else {
					r.shi = 0
				}
			}
		}
	case OpSRem:
		x, y := get(t.A), get(t.B)
		if y.slo > 0 {
			if x.slo >= 0 {
				r.slo, r.shi = 0, min(x.shi, y.shi-1)
			} else {
				r.slo, r.shi = -(y.shi - 1), y.shi-1
			}
		}
	case OpBAnd:
		x, y := get(t.A), get(t.B)
		r.ulo, r.uhi = 0, min(x.uhi, y.uhi)
	case OpBOr, OpBXor:
		x, y := get(t.A), get(t.B)
		n := max(bits.Len64(x.uhi), bits.Len64(y.uhi))
		r.uhi = mask(uint8(max(n, 1)))
		if n == 0 {
			r.uhi = 0
		}
		if t.Op == OpBOr {
			r.ulo = max(x.ulo, y.ulo)
		}
	case OpShl:
		x, y := get(t.A), get(t.B)
		if y.ulo == y.uhi && y.ulo < uint64(w) {
			s := y.ulo
			if x.uhi <= mask(w)>>s {
				r.ulo, r.uhi = x.ulo<<s, x.uhi<<s
			}
		}
	case OpLShr:
		x, y := get(t.A), get(t.B)
		if y.uhi < 64 {
			r.ulo, r.uhi = x.ulo>>y.uhi, x.uhi>>y.ulo
		} else {
			r.uhi = x.uhi
		}
	case OpAShr:
		x, y := get(t.A), get(t.B)
		if y.ulo == y.uhi && y.ulo < 64 {
			r.slo, r.shi = x.slo>>y.ulo, x.shi>>y.ulo
		}
	case OpExtract:
		x := get(t.A)
		if t.K == 0 {
			if x.uhi <= mask(w) {
				r.ulo, r.uhi = x.ulo, x.uhi
			}
		} else if x.uhi>>t.K <= mask(w) {
			r.ulo, r.uhi = x.ulo>>t.K, x.uhi>>t.K
		}
	case OpZExt:
		x := get(t.A)
		r.ulo, r.uhi = x.ulo, x.uhi
		if t.A.W < w {
			r.slo, r.shi = int64(x.ulo), int64(x.uhi)
		}
	case OpSExt:
		x := get(t.A)
		r.slo, r.shi = x.slo, x.shi
	case OpConcat:
		x, y := get(t.A), get(t.B)
		r.ulo = x.ulo<<t.B.W | y.ulo
		r.uhi = x.uhi<<t.B.W | y.uhi
	case OpTable:
		x := get(t.A)
		n := uint64(len(t.Tab.v))
		if x.uhi < n && x.uhi-x.ulo < 512 {
			r.ulo, r.uhi = t.Tab.v[x.ulo], t.Tab.v[x.ulo]
			for i := x.ulo; i <= x.uhi; i++ {
				r.ulo, r.uhi = min(r.ulo, t.Tab.v[i]), max(r.uhi, t.Tab.v[i])
			}
		} else {
			r.ulo, r.uhi = t.Tab.lo, t.Tab.hi
		}
	case OpFtoS:
	}
	return norm(r, w)
}

func (c *Ctx) ranges(t *Term) {
	r := opRange(t, func(x *Term) rng { return rng{x.ulo, x.uhi, x.slo, x.shi} })
	t.ulo, t.uhi, t.slo, t.shi = r.ulo, r.uhi, r.slo, r.shi
}

// domRange is the range of t under the current byte domains.
func (c *Ctx) domRange(t *Term) rng {
	if t.IsConst() || t.W == WFloat {
		return rng{t.ulo, t.uhi, t.slo, t.shi}
	}
	if c.rgVer != c.DomVer {
		c.rgVer = c.DomVer
		c.rgEp++
	}
	if t.rgEp == c.rgEp {
		return rng{t.rgLo, t.rgHi, t.rsLo, t.rsHi}
	}
	var r rng
	if t.Atom >= 0 && c.Atoms[t.Atom].W == 8 && !t.HasF {
		d := &c.Dom[t.Atom]
		if d.Full() && t.Op == OpVar {
			r = rng{0, 255, -128, 127}
		} else {
			tb := c.tableOf(t)
			first := true
			for i := 0; i < 256; i++ {
				if d.Has(i) {
					v := tb[i]
					s := sext(v, max(t.W, 1))
					if first {
						r = rng{v, v, s, s}
						first = false
					} else {
						r = rng{min(r.ulo, v), max(r.uhi, v), min(r.slo, s), max(r.shi, s)}
					}
				}
			}
			if t.W == 0 {
				r.slo, r.shi = 0, 1
			}
		}
	} else if t.Op == OpVar || t.Op == OpUF || t.W == 0 {
		r = rng{t.ulo, t.uhi, t.slo, t.shi}
	} else {
		r = opRange(t, c.domRange)
		r = rng{max(r.ulo, t.ulo), min(r.uhi, t.uhi), max(r.slo, t.slo), min(r.shi, t.shi)}
	}
	t.rgEp = c.rgEp
	t.rgLo, t.rgHi, t.rsLo, t.rsHi = r.ulo, r.uhi, r.slo, r.shi
	return r
}

// URange and SRange bound t under the current byte domains.
func (c *Ctx) URange(t *Term) (uint64, uint64) { r := c.domRange(t); return r.ulo, r.uhi }
func (c *Ctx) SRange(t *Term) (int64, int64)   { r := c.domRange(t); return r.slo, r.shi }

// SetOf returns the bytes satisfying a condition on a single byte atom.
func (c *Ctx) SetOf(t *Term) Set { return c.setOf(t) }

// Quick decides cond under the byte domains: 1 true, 0 false, -1 unknown.
func (c *Ctx) Quick(t *Term) int {
	if t.Op == OpConst {
		return int(t.K)
	}
	if c.rgVer != c.DomVer {
		c.rgVer = c.DomVer
		c.rgEp++
	}
	if t.qEp == c.rgEp {
		return int(t.qV)
	}
	r := c.quick(t)
	t.qEp, t.qV = c.rgEp, int8(r)
	return r
}

func (c *Ctx) quick(t *Term) int {
	switch t.Op {
	case OpInSet:
		d := c.Dom[t.Atom]
		if d.And(*t.Set).Empty() {
			return 0
		}
		if d.AndNot(*t.Set).Empty() {
			return 1
		}
		return -1
	case OpNot:
		if r := c.Quick(t.A); r >= 0 {
			return 1 - r
		}
		return -1
	case OpAnd:
		a := c.Quick(t.A)
		if a == 0 {
			return 0
		}
		b := c.Quick(t.B)
		if b == 0 {
			return 0
		}
		if a == 1 && b == 1 {
			return 1
		}
		return -1
	case OpOr:
		a := c.Quick(t.A)
		if a == 1 {
			return 1
		}
		b := c.Quick(t.B)
		if b == 1 {
			return 1
		}
		if a == 0 && b == 0 {
			return 0
		}
		return -1
	case OpEq, OpUlt, OpUle, OpSlt, OpSle:
		if t.A.W == WFloat || t.A.W == 0 {
			return -1
		}
		x, y := c.domRange(t.A), c.domRange(t.B)
		return cmpRange(t.Op, x, y)
	}
	return -1
}

func cmpRange(op Op, x, y rng) int {
	switch op {
	case OpEq:
		if x.uhi < y.ulo || y.uhi < x.ulo || x.shi < y.slo || y.shi < x.slo {
			return 0
		}
		if x.ulo == x.uhi && y.ulo == y.uhi && x.ulo == y.ulo {
			return 1
		}
	case OpUlt:
		if x.uhi < y.ulo {
			return 1
		}
		if x.ulo >= y.uhi {
			return 0
		}
	case OpUle:
		if x.uhi <= y.ulo {
			return 1
		}
		if x.ulo > y.uhi {
			return 0
		}
	case OpSlt:
		if x.shi < y.slo {
			return 1
		}
		if x.slo >= y.shi {
			return 0
		}
	case OpSle:
		if x.shi <= y.slo {
			return 1
		}
		if x.slo > y.shi {
			return 0
		}
	}
	return -1
}

// ---- constructors with simplification ----

func (c *Ctx) Not(a *Term) *Term {
	if a.IsConst() {
		return c.Bool(a.K == 0)
	}
	if a.Op == OpNot {
		return a.A
	}
	if a.Op == OpInSet {
		return c.InSet(a.Atom, FullSet.AndNot(*a.Set))
	}
	if a.Op == OpUlt {
		return c.mk(OpUle, 0, 0, a.B, a.A, nil)
	}
	if a.Op == OpUle {
		return c.mk(OpUlt, 0, 0, a.B, a.A, nil)
	}
	if a.Op == OpSlt {
		return c.mk(OpSle, 0, 0, a.B, a.A, nil)
	}
	if a.Op == OpSle {
		return c.mk(OpSlt, 0, 0, a.B, a.A, nil)
	}
	return c.mk(OpNot, 0, 0, a, nil, nil)
}
func (c *Ctx) And(a, b *Term) *Term {
	if a == b {
		return a
	}
	if a.IsConst() {
		if a.K == 0 {
			return a
		}
		return b
	}
	if b.IsConst() {
		if b.K == 0 {
			return b
		}
		return a
	}
	if a.Op == OpInSet && b.Op == OpInSet && a.Atom == b.Atom {
		return c.InSet(a.Atom, a.Set.And(*b.Set))
	}
	if c.Not(a) == b {
		return c.False
	}
	// (x && s1) && s2 on the same byte
	if b.Op == OpInSet && a.Op == OpAnd && a.B.Op == OpInSet && a.B.Atom == b.Atom {
		return c.And(a.A, c.And(a.B, b))
	}
	if a.Op == OpInSet && b.Op == OpAnd && b.B.Op == OpInSet && b.B.Atom == a.Atom {
		return c.And(b.A, c.And(a, b.B))
	}
	if before(b, a) && a.Op != OpAnd {
		a, b = b, a
	}
	return c.mk(OpAnd, 0, 0, a, b, nil)
}
func (c *Ctx) Or(a, b *Term) *Term {
	if a == b {
		return a
	}
	if a.IsConst() {
		if a.K == 0 {
			return b
		}
		return a
	}
	if b.IsConst() {
		if b.K == 0 {
			return a
		}
		return b
	}
	if a.Op == OpInSet && b.Op == OpInSet && a.Atom == b.Atom {
		return c.Not(c.And(c.Not(a), c.Not(b)))
	}
	if c.Not(a) == b {
		return c.True
	}
	if b.Op == OpInSet && a.Op == OpOr && a.B.Op == OpInSet && a.B.Atom == b.Atom {
		return c.Or(a.A, c.Or(a.B, b))
	}
	if before(b, a) && a.Op != OpOr {
		a, b = b, a
	}
	return c.mk(OpOr, 0, 0, a, b, nil)
}

func (c *Ctx) Ite(p, a, b *Term) *Term {
	if p.IsConst() {
		if p.K != 0 {
			return a
		}
		return b
	}
	if a == b {
		return a
	}
	if a.W == 0 {
		if a.IsConst() {
			if a.K != 0 {
				return c.Or(p, b)
			}
			return c.And(c.Not(p), b)
		}
		if b.IsConst() {
			if b.K != 0 {
				return c.Or(c.Not(p), a)
			}
			return c.And(p, a)
		}
	}
	if p.Op == OpNot {
		return c.Ite(p.A, b, a)
	}
	if a.Op == OpIte && a.A == p {
		a = a.B
	}
	if b.Op == OpIte && b.A == p {
		b = b.C
	}
	if b.Op == OpIte && b.B == a { // ite(p,a,ite(q,a,z)) = ite(p|q,a,z)
		return c.Ite(c.Or(p, b.A), a, b.C)
	}
	if a == b {
		return a
	}
	return c.mk(OpIte, a.W, 0, p, a, b)
}

func constLeaves(t *Term, depth int) bool {
	for depth > 0 {
		if t.IsConst() {
			return true
		}
		if t.Op != OpIte {
			return false
		}
		if !t.B.IsConst() {
			if !constLeaves(t.B, depth/2) {
				return false
			}
		}
		t = t.C
		depth--
	}
	return false
}

// cmp builds a comparison, folding by ranges and distributing over ite trees with constant leaves.
func (c *Ctx) cmp(op Op, a, b *Term) *Term {
	if t, ok := c.fold(op, 0, 0, a, b, nil); ok {
		return t
	}
	if a == b {
		return c.Bool(op == OpEq || op == OpUle || op == OpSle)
	}
	if r := cmpRange(op, rng{a.ulo, a.uhi, a.slo, a.shi}, rng{b.ulo, b.uhi, b.slo, b.shi}); r >= 0 {
		return c.Bool(r == 1)
	}
	if b.IsConst() && a.Op == OpIte && constLeaves(a, 300) {
		return c.Ite(a.A, c.cmp(op, a.B, b), c.cmp(op, a.C, b))
	}
	if a.IsConst() && b.Op == OpIte && constLeaves(b, 300) {
		return c.Ite(b.A, c.cmp(op, a, b.B), c.cmp(op, a, b.C))
	}
	// strip extensions
	if a.Op == OpZExt && b.Op == OpZExt && a.A.W == b.A.W && (op == OpEq || op == OpUlt || op == OpUle || a.W > a.A.W) {
		o := op
		if o == OpSlt {
			o = OpUlt
		} else if o == OpSle {
			o = OpUle
		}
		return c.cmp(o, a.A, b.A)
	}
	if a.Op == OpZExt && b.IsConst() && b.K <= mask(a.A.W) && a.W > a.A.W {
		o := op
		if o == OpSlt {
			o = OpUlt
		} else if o == OpSle {
			o = OpUle
		}
		return c.cmp(o, a.A, c.BV(a.A.W, b.K))
	}
	if b.Op == OpZExt && a.IsConst() && a.K <= mask(b.A.W) && b.W > b.A.W {
		o := op
		if o == OpSlt {
			o = OpUlt
		} else if o == OpSle {
			o = OpUle
		}
		return c.cmp(o, c.BV(b.A.W, a.K), b.A)
	}
	if op == OpEq {
		if before(b, a) {
			a, b = b, a
		}
		if a.IsConst() {
			a, b = b, a
		}
		if b.IsConst() {
			switch a.Op {
			case OpAdd:
				if a.B.IsConst() {
					return c.cmp(OpEq, a.A, c.BV(a.W, b.K-a.B.K))
				}
			case OpConcat:
				return c.And(c.cmp(OpEq, a.A, c.BV(a.A.W, b.K>>a.B.W)), c.cmp(OpEq, a.B, c.BV(a.B.W, b.K)))
			case OpBXor:
				if a.B.IsConst() {
					return c.cmp(OpEq, a.A, c.BV(a.W, b.K^a.B.K))
				}
			case OpTable:
				any := false
				for _, v := range a.Tab.v {
					if v == b.K {
						any = true
					}
				}
				if !any {
					return c.False
				}
			}
		} else if a.Op == OpConcat && b.Op == OpConcat && a.A.W == b.A.W {
			return c.And(c.cmp(OpEq, a.A, b.A), c.cmp(OpEq, a.B, b.B))
		}
	}
	return c.mk(op, 0, 0, a, b, nil)
}

func (c *Ctx) Eq(a, b *Term) *Term {
	if a.W == 0 {
		if a == b {
			return c.True
		}
		if a.IsConst() {
			a, b = b, a
		}
		if b.IsConst() {
			if b.K != 0 {
				return a
			}
			return c.Not(a)
		}
		return c.Ite(a, b, c.Not(b))
	}
	if a.W == WFloat {
		return c.FCmp(OpFEq, a, b)
	}
	if a.W != b.W {
		panic(fmt.Sprintf("smt: Eq width mismatch %d %d", a.W, b.W))
	}
	return c.cmp(OpEq, a, b)
}
func (c *Ctx) Ult(a, b *Term) *Term { return c.cmp(OpUlt, a, b) }
func (c *Ctx) Ule(a, b *Term) *Term { return c.cmp(OpUle, a, b) }
func (c *Ctx) Slt(a, b *Term) *Term { return c.cmp(OpSlt, a, b) }
func (c *Ctx) Sle(a, b *Term) *Term { return c.cmp(OpSle, a, b) }

// Bin builds a binary bit-vector operation.
func (c *Ctx) Bin(op Op, a, b *Term) *Term {
	w := a.W
	if a.W != b.W {
		panic(fmt.Sprintf("smt: Bin %d width mismatch %d %d", op, a.W, b.W))
	}
	if t, ok := c.fold(op, w, 0, a, b, nil); ok {
		return t
	}
	switch op {
	case OpAdd, OpMul, OpBAnd, OpBOr, OpBXor:
		if a.IsConst() {
			a, b = b, a
		}
	}
	m := mask(w)
	if b.IsConst() {
		k := b.K
		switch op {
		case OpAdd:
			if k == 0 {
				return a
			}
			if a.Op == OpAdd && a.B.IsConst() {
				return c.Bin(OpAdd, a.A, c.BV(w, a.B.K+k))
			}
			if a.Op == OpSub && a.B.IsConst() {
				return c.Bin(OpAdd, a.A, c.BV(w, k-a.B.K))
			}
		case OpSub:
			if k == 0 {
				return a
			}
			return c.Bin(OpAdd, a, c.BV(w, -k))
		case OpMul:
			if k == 0 {
				return b
			}
			if k == 1 {
				return a
			}
			if k&(k-1) == 0 {
				return c.Bin(OpShl, a, c.BV(w, uint64(bits.TrailingZeros64(k))))
			}
		case OpUDiv:
			if k == 1 {
				return a
			}
			if k != 0 && k&(k-1) == 0 {
				return c.Bin(OpLShr, a, c.BV(w, uint64(bits.TrailingZeros64(k))))
			}
			if a.uhi < k {
				return c.BV(w, 0)
			}
		case OpURem:
			if k == 1 {
				return c.BV(w, 0)
			}
			if k != 0 && a.uhi < k {
				return a
			}
			if k != 0 && k&(k-1) == 0 {
				return c.Bin(OpBAnd, a, c.BV(w, k-1))
			}
		case OpSDiv:
			if a.slo >= 0 && b.Int64() > 0 {
				return c.Bin(OpUDiv, a, b)
			}
		case OpSRem:
			if a.slo >= 0 && b.Int64() > 0 {
				return c.Bin(OpURem, a, b)
			}
		case OpBAnd:
			if k == 0 {
				return b
			}
			if k == m || (k&(k+1) == 0 && a.uhi <= k) {
				return a
			}
			if a.Op == OpBAnd && a.B.IsConst() {
				return c.Bin(OpBAnd, a.A, c.BV(w, k&a.B.K))
			}
			if k&(k+1) == 0 { // low mask
				n := uint8(bits.Len64(k))
				return c.ZExt(c.Extract(a, 0, n), w)
			}
			// contiguous high mask: (a >> n) << n
			if low := uint(bits.TrailingZeros64(k)); (k>>low)&((k>>low)+1) == 0 {
				n := uint8(bits.Len64(k >> low))
				return c.Bin(OpShl, c.ZExt(c.Extract(a, uint8(low), n), w), c.BV(w, uint64(low)))
			}
		case OpBOr:
			if k == 0 {
				return a
			}
			if k == m {
				return b
			}
		case OpBXor:
			if k == 0 {
				return a
			}
			if k == m {
				return c.BNot(a)
			}
			if a.Op == OpBXor && a.B.IsConst() {
				return c.Bin(OpBXor, a.A, c.BV(w, k^a.B.K))
			}
		case OpShl:
			if k == 0 {
				return a
			}
			if k >= uint64(w) {
				return c.BV(w, 0)
			}
			if a.Op == OpShl && a.B.IsConst() && a.B.K+k < 256 {
				return c.Bin(OpShl, a.A, c.BV(w, a.B.K+k))
			}
			// shl(x,k) = concat(extract(x, 0, w-k), 0^k)
			return c.Concat(c.Extract(a, 0, w-uint8(k)), c.BV(uint8(k), 0))
		case OpLShr:
			if k == 0 {
				return a
			}
			if k >= uint64(w) {
				return c.BV(w, 0)
			}
			return c.ZExt(c.Extract(a, uint8(k), w-uint8(k)), w)
		case OpAShr:
			if k == 0 {
				return a
			}
			if a.slo >= 0 {
				return c.Bin(OpLShr, a, b)
			}
		}
	}
	if a == b {
		switch op {
		case OpSub, OpBXor:
			return c.BV(w, 0)
		case OpBAnd, OpBOr:
			return a
		}
	}
	if a.IsConst() && a.K == 0 {
		switch op {
		case OpShl, OpLShr, OpAShr:
			return a
		}
	}
	switch op {
	case OpSDiv:
		if a.slo >= 0 && b.slo > 0 {
			op = OpUDiv
		}
	case OpSRem:
		if a.slo >= 0 && b.slo > 0 {
			op = OpURem
		}
	case OpAdd, OpBOr, OpBXor:
		// disjoint bits: concat form
		if t := c.disjointOr(a, b); t != nil {
			return t
		}
		// (x+k)+y -> (x+y)+k
		if op == OpAdd {
			if a.Op == OpAdd && a.B.IsConst() {
				return c.Bin(OpAdd, c.Bin(OpAdd, a.A, b), a.B)
			}
			if b.Op == OpAdd && b.B.IsConst() {
				return c.Bin(OpAdd, c.Bin(OpAdd, a, b.A), b.B)
			}
		}
		if op == OpBXor { // x ^ (x ^ y) = y
			if a.Op == OpBXor {
				if a.A == b {
					return a.B
				}
				if a.B == b {
					return a.A
				}
			}
			if b.Op == OpBXor {
				if b.A == a {
					return b.B
				}
				if b.B == a {
					return b.A
				}
			}
		}
	case OpSub:
		if b.Op == OpAdd && b.B.IsConst() {
			return c.Bin(OpSub, c.Bin(OpSub, a, b.A), b.B)
		}
		if a.Op == OpAdd && a.B.IsConst() {
			return c.Bin(OpAdd, c.Bin(OpSub, a.A, b), a.B)
		}
		if a.Op == OpAdd && a.A == b {
			return a.B
		}
		if a.Op == OpAdd && a.B == b {
			return a.A
		}
	}
	switch op {
	case OpAdd, OpMul, OpBAnd, OpBOr, OpBXor:
		if before(b, a) {
			a, b = b, a
		}
		if a.IsConst() {
			a, b = b, a
		}
	}
	return c.mk(op, w, 0, a, b, nil)
}

// zeroLow returns n such that the low n bits of t are known zero; zeroHigh likewise for high bits.
func zeroLow(t *Term) uint8 {
	switch t.Op {
	case OpConst:
		if t.K == 0 {
			return t.W
		}
		return uint8(bits.TrailingZeros64(t.K))
	case OpConcat:
		z := zeroLow(t.B)
		if z == t.B.W {
			return z + zeroLow(t.A)
		}
		return z
	case OpZExt:
		z := zeroLow(t.A)
		if z == t.A.W {
			return t.W
		}
		return z
	}
	return 0
}
func zeroHigh(t *Term) uint8 {
	return t.W - uint8(bits.Len64(t.uhi))
}

// disjointOr rewrites a|b (= a+b = a^b) as a concatenation when the set bits cannot overlap.
func (c *Ctx) disjointOr(a, b *Term) *Term {
	w := a.W
	if w < 2 {
		return nil
	}
	if z := zeroLow(a); z > 0 && z < w && b.uhi <= mask(z) {
		return c.Concat(c.Extract(a, z, w-z), c.Extract(b, 0, z))
	}
	if z := zeroLow(b); z > 0 && z < w && a.uhi <= mask(z) {
		return c.Concat(c.Extract(b, z, w-z), c.Extract(a, 0, z))
	}
	return nil
}

func (c *Ctx) BNot(a *Term) *Term {
	if t, ok := c.fold(OpBNot, a.W, 0, a, nil, nil); ok {
		return t
	}
	if a.Op == OpBNot {
		return a.A
	}
	return c.mk(OpBNot, a.W, 0, a, nil, nil)
}

// Extract takes w bits of a starting at bit lo.
func (c *Ctx) Extract(a *Term, lo, w uint8) *Term {
	if lo == 0 && w == a.W {
		return a
	}
	if t, ok := c.fold(OpExtract, w, uint64(lo), a, nil, nil); ok {
		return t
	}
	if a.uhi < 1<<lo && lo < 64 {
		return c.BV(w, 0)
	}
	switch a.Op {
	case OpExtract:
		return c.Extract(a.A, lo+uint8(a.K), w)
	case OpZExt:
		if lo >= a.A.W {
			return c.BV(w, 0)
		}
		if lo+w <= a.A.W {
			return c.Extract(a.A, lo, w)
		}
		return c.ZExt(c.Extract(a.A, lo, a.A.W-lo), w)
	case OpSExt:
		if lo+w <= a.A.W {
			return c.Extract(a.A, lo, w)
		}
		if lo == 0 {
			return c.SExt(a.A, w)
		}
	case OpConcat:
		bw := a.B.W
		if lo >= bw {
			return c.Extract(a.A, lo-bw, w)
		}
		if lo+w <= bw {
			return c.Extract(a.B, lo, w)
		}
		return c.Concat(c.Extract(a.A, 0, lo+w-bw), c.Extract(a.B, lo, bw-lo))
	case OpBAnd, OpBOr, OpBXor:
		return c.Bin(a.Op, c.Extract(a.A, lo, w), c.Extract(a.B, lo, w))
	case OpBNot:
		return c.BNot(c.Extract(a.A, lo, w))
	case OpIte:
		if a.B.IsConst() || a.C.IsConst() {
			return c.Ite(a.A, c.Extract(a.B, lo, w), c.Extract(a.C, lo, w))
		}
	case OpAdd, OpSub, OpMul:
		if lo == 0 {
			return c.Bin(a.Op, c.Extract(a.A, 0, w), c.Extract(a.B, 0, w))
		}
	case OpTable:
		v := make([]uint64, len(a.Tab.v))
		for i, x := range a.Tab.v {
			v[i] = (x >> lo) & mask(w)
		}
		return c.Lookup(c.MkTable(w, v), a.A)
	}
	return c.mk(OpExtract, w, uint64(lo), a, nil, nil)
}
func (c *Ctx) ZExt(a *Term, w uint8) *Term {
	if w == a.W {
		return a
	}
	if t, ok := c.fold(OpZExt, w, 0, a, nil, nil); ok {
		return t
	}
	if a.Op == OpZExt {
		return c.ZExt(a.A, w)
	}
	if a.Op == OpConcat && a.A.IsConst() && a.A.K == 0 {
		return c.ZExt(a.B, w)
	}
	if a.Op == OpIte && constLeaves(a, 40) {
		return c.Ite(a.A, c.ZExt(a.B, w), c.ZExt(a.C, w))
	}
	return c.mk(OpZExt, w, 0, a, nil, nil)
}
func (c *Ctx) SExt(a *Term, w uint8) *Term {
	if w == a.W {
		return a
	}
	if t, ok := c.fold(OpSExt, w, 0, a, nil, nil); ok {
		return t
	}
	if a.slo >= 0 {
		return c.ZExt(a, w)
	}
	if a.Op == OpSExt {
		return c.SExt(a.A, w)
	}
	if a.Op == OpIte && constLeaves(a, 40) {
		return c.Ite(a.A, c.SExt(a.B, w), c.SExt(a.C, w))
	}
	return c.mk(OpSExt, w, 0, a, nil, nil)
}
func (c *Ctx) Concat(a, b *Term) *Term {
	w := a.W + b.W
	if a.IsConst() && b.IsConst() {
		return c.BV(w, a.K<<b.W|b.K)
	}
	if a.IsConst() && a.K == 0 {
		return c.ZExt(b, w)
	}
	// adjacent extracts
	if a.Op == OpExtract && b.Op == OpExtract && a.A == b.A && a.K == b.K+uint64(b.W) {
		return c.Extract(a.A, uint8(b.K), w)
	}
	if b.Op == OpExtract && b.K == 0 && a.Op == OpExtract && a.A == b.A && a.K == uint64(b.W) {
		return c.Extract(a.A, 0, w)
	}
	if a.Op == OpZExt { // keep the zeros outermost
		return c.ZExt(c.Concat(a.A, b), w)
	}
	if a.Op == OpConcat {
		return c.Concat(a.A, c.Concat(a.B, b))
	}
	if b.Op == OpConcat && a.Op == OpExtract && b.A.Op == OpExtract && a.A == b.A.A && a.K == b.A.K+uint64(b.A.W) {
		return c.Concat(c.Extract(a.A, uint8(b.A.K), a.W+b.A.W), b.B)
	}
	return c.mk(OpConcat, w, 0, a, b, nil)
}

// Resize converts a to width w with the given signedness of the source.
func (c *Ctx) Resize(a *Term, w uint8, signed bool) *Term {
	if w == a.W {
		return a
	}
	if w < a.W {
		return c.Extract(a, 0, w)
	}
	if signed {
		return c.SExt(a, w)
	}
	return c.ZExt(a, w)
}

// Lookup reads a constant table; the caller guarantees idx < len.
func (c *Ctx) Lookup(tab *Table, idx *Term) *Term {
	if idx.IsConst() {
		return c.constW(tab.w, apply(&Term{Op: OpTable, Tab: tab}, idx.K, 0, 0))
	}
	if tab.lo == tab.hi {
		return c.BV(tab.w, tab.lo)
	}
	// a table of a table is a table
	in := idx
	if in.Op == OpZExt {
		in = in.A
	}
	if in.Op == OpTable && len(in.Tab.v) <= 256 && in.Tab.hi < uint64(len(tab.v)) {
		v := make([]uint64, len(in.Tab.v))
		for i, x := range in.Tab.v {
			v[i] = tab.v[x]
		}
		return c.Lookup(c.MkTable(tab.w, v), in.A)
	}
	if n := idx.uhi; n < uint64(len(tab.v)) && n < 256 {
		id := true
		for i := uint64(0); i <= n && id; i++ {
			id = tab.v[i] == i
		}
		if id {
			return c.Resize(idx, tab.w, false)
		}
	}
	key := tkey{op: OpTable, w: tab.w, a: idx.ID, k: uint64(tab.id)}
	if t, ok := c.tab[key]; ok {
		return t
	}
	t := &Term{Op: OpTable, W: tab.w, A: idx, Tab: tab, Atom: idx.Atom, HasUF: idx.HasUF, HasF: idx.HasF}
	c.ranges(t)
	c.newTerm(t)
	c.tab[key] = t
	return t
}

// ---- floats ----

const maxExact = 1 << 53

func (c *Ctx) intView(t *Term) *Term { // integer n (64 bit) with t == float(n) exactly, or nil
	if t.Op == OpFofS {
		if r := c.domRange(t.A); r.slo >= -maxExact && r.shi <= maxExact {
			return t.A
		}
	}
	return nil
}
func (c *Ctx) asInt(t *Term) *Term {
	if x := c.intView(t); x != nil {
		return x
	}
	if t.Op == OpConst {
		f := t.Float64()
		if f == math.Trunc(f) && math.Abs(f) <= maxExact && !(f == 0 && math.Signbit(f)) {
			return c.Int(int64(f))
		}
	}
	return nil
}

func (c *Ctx) FofS(a *Term) *Term {
	if a.W < 64 {
		a = c.SExt(a, 64)
	}
	if a.IsConst() {
		return c.Float(float64(a.Int64()))
	}
	return c.mk(OpFofS, WFloat, 0, a, nil, nil)
}
func (c *Ctx) FofU(a *Term) *Term {
	if a.W < 64 {
		return c.FofS(c.ZExt(a, 64))
	}
	if a.slo >= 0 {
		return c.FofS(a)
	}
	return c.mk(OpFofU, WFloat, 0, a, nil, nil)
}
func (c *Ctx) FtoS(a *Term) *Term {
	if a.IsConst() {
		return c.Int(int64(f2s(a.Float64())))
	}
	if x := c.intView(a); x != nil {
		return x
	}
	if a.Op == OpFNeg {
		if x := c.intView(a.A); x != nil {
			return c.Bin(OpSub, c.Int(0), x)
		}
	}
	if a.Op == OpIte {
		return c.Ite(a.A, c.FtoS(a.B), c.FtoS(a.C))
	}
	return c.mk(OpFtoS, 64, 0, a, nil, nil)
}
func (c *Ctx) FBin(op Op, a, b *Term) *Term {
	if t, ok := c.fold(op, WFloat, 0, a, b, nil); ok {
		return t
	}
	x, y := c.asInt(a), c.asInt(b)
	if x != nil && y != nil {
		// exact when the integer result stays within +-2^53; a zero result could be -0 only
		// from products with a negative factor or sums of negative zeros, excluded here
		switch op {
		case OpFAdd:
			r := c.Bin(OpAdd, x, y)
			if q := c.domRange(r); q.slo >= -maxExact && q.shi <= maxExact {
				return c.FofS(r)
			}
		case OpFSub:
			r := c.Bin(OpSub, x, y)
			if q := c.domRange(r); q.slo >= -maxExact && q.shi <= maxExact {
				return c.FofS(r)
			}
		case OpFMul:
			p, q := c.domRange(x), c.domRange(y)
			if p.slo >= 0 && q.slo >= 0 {
				if m, ok := mulU(p.uhi, q.uhi); ok && m <= maxExact {
					return c.FofS(c.Bin(OpMul, x, y))
				}
			}
		}
	}
	// +-1 is exact
	if op == OpFMul || op == OpFDiv {
		for _, p := range [2][2]*Term{{a, b}, {b, a}} {
			if p[1].Op == OpConst && (p[1].Float64() == 1 || p[1].Float64() == -1) && (op == OpFMul || p[1] == b) {
				if p[1].Float64() == 1 {
					return p[0]
				}
				return c.FNeg(p[0])
			}
		}
	}
	// distribute over ite with constant leaves
	if a.Op == OpIte && b.IsConst() && constLeaves(a, 12) {
		return c.Ite(a.A, c.FBin(op, a.B, b), c.FBin(op, a.C, b))
	}
	if (op == OpFAdd || op == OpFMul) && before(b, a) {
		a, b = b, a
	}
	return c.mk(op, WFloat, 0, a, b, nil)
}
func (c *Ctx) FNeg(a *Term) *Term {
	if t, ok := c.fold(OpFNeg, WFloat, 0, a, nil, nil); ok {
		return t
	}
	if a.Op == OpFNeg {
		return a.A
	}
	return c.mk(OpFNeg, WFloat, 0, a, nil, nil)
}
func (c *Ctx) FAbs(a *Term) *Term {
	if t, ok := c.fold(OpFAbs, WFloat, 0, a, nil, nil); ok {
		return t
	}
	if x := c.intView(a); x != nil {
		return c.FofS(c.Ite(c.Slt(x, c.Int(0)), c.Bin(OpSub, c.Int(0), x), x))
	}
	return c.mk(OpFAbs, WFloat, 0, a, nil, nil)
}
func (c *Ctx) FCmp(op Op, a, b *Term) *Term {
	if t, ok := c.fold(op, 0, 0, a, b, nil); ok {
		return t
	}
	neg := func(t *Term) *Term { // comparisons do not distinguish -0 from 0
		if x := c.asInt(t); x != nil {
			return x
		}
		if t.Op == OpFNeg {
			if x := c.intView(t.A); x != nil {
				return c.Bin(OpSub, c.Int(0), x)
			}
		}
		return nil
	}
	x, y := neg(a), neg(b)
	if x != nil && y != nil {
		switch op {
		case OpFEq:
			return c.Eq(x, y)
		case OpFLt:
			return c.Slt(x, y)
		case OpFLe:
			return c.Sle(x, y)
		}
	}
	return c.mk(op, 0, 0, a, b, nil)
}

// ---- evaluation ----

// Eval computes t under an assignment of the path variables. ok is false if it
// depends on something without a value.
func (c *Ctx) NewEval() { c.evEp++ }
func (c *Ctx) Eval(t *Term, val func(v int) (uint64, bool)) (uint64, bool) {
	if t.Op == OpConst {
		return t.K, true
	}
	if t.evEp == c.evEp {
		return t.evVal, t.evOK
	}
	var r uint64
	ok := true
	switch t.Op {
	case OpVar:
		r, ok = val(int(t.K))
		r &= mask(t.W)
	case OpUF:
		if c.UFEval == nil {
			ok = false
			break
		}
		args := make([]uint64, len(t.Args))
		for i, a := range t.Args {
			var o bool
			args[i], o = c.Eval(a, val)
			ok = ok && o
		}
		if ok {
			r, ok = c.UFEval(t.Name, args)
		}
	case OpIte:
		var p uint64
		p, ok = c.Eval(t.A, val)
		if ok {
			if p != 0 {
				r, ok = c.Eval(t.B, val)
			} else {
				r, ok = c.Eval(t.C, val)
			}
		}
	default:
		var x, y, z uint64
		x, ok = c.Eval(t.A, val)
		if ok && t.B != nil {
			y, ok = c.Eval(t.B, val)
		}
		if ok && t.C != nil {
			z, ok = c.Eval(t.C, val)
		}
		if ok {
			r = apply(t, x, y, z)
		}
	}
	t.evEp, t.evVal, t.evOK = c.evEp, r, ok
	return r, ok
}

// Vars returns the sorted atoms of t; UF families contribute the pseudo atom -3.
func (c *Ctx) Vars(t *Term) []int32 {
	if t.vars != nil || t.IsConst() {
		return t.vars
	}
	set := map[int32]bool{}
	var add func(x *Term)
	add = func(x *Term) {
		switch x.Op {
		case OpVar:
			set[x.Atom] = true
		case OpUF:
			set[-3] = true
			for _, a := range x.Args {
				for _, v := range c.Vars(a) {
					set[v] = true
				}
			}
		default:
			for _, y := range [3]*Term{x.A, x.B, x.C} {
				if y != nil {
					for _, v := range c.Vars(y) {
						set[v] = true
					}
				}
			}
		}
	}
	add(t)
	r := make([]int32, 0, len(set))
	for v := range set {
		r = append(r, v)
	}
	sort.Slice(r, func(i, j int) bool { return r[i] < r[j] })
	t.vars = r
	return r
}

// IntView returns the integer n with t == float(n) exactly, or nil.
func (c *Ctx) IntView(t *Term) *Term { return c.asInt(t) }
