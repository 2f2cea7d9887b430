// Package vm executes go/ssa symbolically.
package vm

import (
	"fmt"
	"go/types"
	"sort"
	"strconv"
	"strings"

	"verif/engine/smt"
)

// Value is one of
//
//	*smt.Term      booleans, integers, floats
//	*Str           strings
//	*Slice         slices
//	*Value         pointers (to a memory cell)
//	*SymElem       pointer to a slice element at a symbolic index (only loaded from)
//	*DataPtr       result of unsafe.SliceData / unsafe.StringData
//	*StructV       struct values
//	*Backing       array values
//	*Iface         non-nil interfaces
//	*MapV          maps
//	*Closure       functions
//	Tuple          multiple results
//	nil            zero value of whatever the static type says
type Value any

type Str struct {
	s string
	b []*smt.Term // nil: concrete
}

type Backing struct{ c []Value }

type Slice struct {
	bk          *Backing
	off, n, cap int
}

type SymElem struct {
	cells []Value
	str   *Str
	idx   *smt.Term // 64 bit, in range
	w     uint8
	zero  Value
}

type DataPtr struct {
	sl  *Slice
	str *Str
}

type StructV struct{ f []Value }

type Iface struct {
	T types.Type
	V Value
}

type mapEnt struct {
	key, val Value
	ks       string // "" when the key is symbolic
	dead     bool
	seq      int
}

type MapV struct {
	ents []*mapEnt
	idx  map[string]*mapEnt
	live int
	nsym int // live entries with symbolic keys
	kt   types.Type
}

type Closure struct {
	fn  *Func
	env []Value
	blt string // builtin
}

type Tuple []Value

type MapIter struct {
	m    *MapV
	todo []*mapEnt
	any  bool // visit in every order
	pos  Value
}

type StrIter struct {
	s   *Str
	pos Value
}

var emptyStr = &Str{}

func mkStr(s string) *Str {
	if s == "" {
		return emptyStr
	}
	return &Str{s: s}
}

func (s *Str) Len() int {
	if s.b != nil {
		return len(s.b)
	}
	return len(s.s)
}
func (s *Str) At(c *smt.Ctx, i int) *smt.Term {
	if s.b != nil {
		return s.b[i]
	}
	return c.BV(8, uint64(s.s[i]))
}

func strOf(ts []*smt.Term) *Str {
	conc := true
	for _, t := range ts {
		if !t.IsConst() {
			conc = false
			break
		}
	}
	if conc {
		b := make([]byte, len(ts))
		for i, t := range ts {
			b[i] = byte(t.K)
		}
		return mkStr(string(b))
	}
	return &Str{b: ts}
}

func (s *Str) Terms(c *smt.Ctx) []*smt.Term {
	if s.b != nil {
		return s.b
	}
	r := make([]*smt.Term, len(s.s))
	for i := 0; i < len(s.s); i++ {
		r[i] = c.BV(8, uint64(s.s[i]))
	}
	return r
}

func (s *Str) Sub(lo, hi int) *Str {
	if s.b != nil {
		return strOf(s.b[lo:hi:hi])
	}
	return mkStr(s.s[lo:hi])
}

// copyVal copies struct and array values.
func copyVal(v Value) Value {
	switch x := v.(type) {
	case *StructV:
		r := &StructV{make([]Value, len(x.f))}
		for i, e := range x.f {
			r.f[i] = copyVal(e)
		}
		return r
	case *Backing:
		r := &Backing{make([]Value, len(x.c))}
		for i, e := range x.c {
			r.c[i] = copyVal(e)
		}
		return r
	case poison:
		panic(unsupported{"variable " + x.name + " is not initialised in the model"})
	}
	return v
}

type basicInfo struct {
	w      uint8 // 0 bool, 255 float
	signed bool
	ok     bool
	f32    bool
}

func basicOf(t types.Type) basicInfo {
	b, ok := t.Underlying().(*types.Basic)
	if !ok {
		return basicInfo{}
	}
	switch b.Kind() {
	case types.Bool, types.UntypedBool:
		return basicInfo{0, false, true, false}
	case types.Int, types.Int64, types.UntypedInt, types.UntypedRune:
		return basicInfo{64, true, true, false}
	case types.Int32:
		return basicInfo{32, true, true, false}
	case types.Int16:
		return basicInfo{16, true, true, false}
	case types.Int8:
		return basicInfo{8, true, true, false}
	case types.Uint, types.Uint64, types.Uintptr:
		return basicInfo{64, false, true, false}
	case types.Uint32:
		return basicInfo{32, false, true, false}
	case types.Uint16:
		return basicInfo{16, false, true, false}
	case types.Uint8:
		return basicInfo{8, false, true, false}
	case types.Float64, types.UntypedFloat:
		return basicInfo{smt.WFloat, false, true, false}
	case types.Float32:
		return basicInfo{smt.WFloat, false, true, true}
	}
	return basicInfo{}
}

func isString(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsString != 0
}

// zero returns the (immutable) zero value of t.
func (vm *VM) zero(t types.Type) Value {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		if u.Info()&types.IsString != 0 {
			return emptyStr
		}
		bi := basicOf(u)
		if !bi.ok {
			return nil
		}
		switch bi.w {
		case 0:
			return vm.c.False
		case smt.WFloat:
			return vm.c.Float(0)
		}
		return vm.c.BV(bi.w, 0)
	case *types.Struct:
		return &StructV{make([]Value, u.NumFields())}
	case *types.Array:
		return &Backing{make([]Value, u.Len())}
	case *types.Tuple:
		r := make(Tuple, u.Len())
		for i := range r {
			r[i] = vm.zero(u.At(i).Type())
		}
		return r
	}
	return nil
}

// ptrTarget types for zero lookups
func deref(t types.Type) types.Type {
	if p, ok := t.Underlying().(*types.Pointer); ok {
		return p.Elem()
	}
	return t
}

// keyStr gives a canonical string for a concrete map key.
func (vm *VM) keyStr(v Value) (string, bool) {
	switch x := v.(type) {
	case *smt.Term:
		if !x.IsConst() {
			return "", false
		}
		return "i" + strconv.FormatUint(x.K, 16), true
	case *Str:
		if x.b != nil {
			return "", false
		}
		return "s" + x.s, true
	case *Value:
		return fmt.Sprintf("p%p", x), true
	case nil:
		return "n", true
	case *Iface:
		k, ok := vm.keyStr(x.V)
		return "t" + strconv.Itoa(vm.typeID(x.T)) + ":" + k, ok
	case *StructV:
		var sb strings.Builder
		sb.WriteByte('{')
		for _, e := range x.f {
			if e == nil {
				// a nil cell may stand for any kind of zero
				sb.WriteString("z,")
				continue
			}
			k, ok := vm.keyStr(e)
			if !ok {
				return "", false
			}
			if k == "i0" || k == "s" {
				k = "z"
			}
			sb.WriteString(strconv.Quote(k) + ",")
		}
		return sb.String(), true
	case *Backing:
		return vm.keyStr(&StructV{x.c})
	}
	panic(unsupported{fmt.Sprintf("map key %T", v)})
}

func (vm *VM) typeID(t types.Type) int {
	if i, ok := vm.tids[t]; ok {
		return i
	}
	i, ok := vm.tmap.At(t).(int)
	if !ok {
		i = vm.tmap.Len() + 1
		vm.tmap.Set(t, i)
	}
	vm.tids[t] = i
	return i
}

func (vm *VM) sameType(a, b types.Type) bool {
	return a == b || vm.typeID(a) == vm.typeID(b)
}

func (vm *VM) nilOr(v Value, zero Value) Value {
	if v == nil {
		return zero
	}
	return v
}

// eq builds the condition a == b.
func (vm *VM) eq(a, b Value) *smt.Term {
	c := vm.c
	if a == nil && b == nil {
		return c.True
	}
	switch x := a.(type) {
	case *smt.Term:
		y, ok := b.(*smt.Term)
		if !ok {
			if b == nil {
				y = c.BV(max(x.W, 1), 0)
				if x.W == 0 {
					return c.Not(x)
				}
				if x.W == smt.WFloat {
					y = c.Float(0)
				}
			} else {
				panic(unsupported{fmt.Sprintf("compare %T %T", a, b)})
			}
		}
		return c.Eq(x, y)
	case *Str:
		y, ok := b.(*Str)
		if !ok {
			y = emptyStr
		}
		return vm.strEq(x, y)
	case *Iface:
		y, ok := b.(*Iface)
		if !ok {
			if b == nil {
				return c.False
			}
			panic(unsupported{fmt.Sprintf("compare iface with %T", b)})
		}
		if !vm.sameType(x.T, y.T) {
			return c.False
		}
		switch x.T.Underlying().(type) {
		case *types.Slice, *types.Map, *types.Signature:
			vm.goPanic("runtime error: comparing uncomparable type " + x.T.String())
		}
		return vm.eq(x.V, y.V)
	case *StructV:
		y, ok := b.(*StructV)
		if !ok {
			y = &StructV{make([]Value, len(x.f))}
		}
		r := c.True
		for i := range x.f {
			r = c.And(r, vm.eq(x.f[i], y.f[i]))
		}
		return r
	case *Backing:
		y, ok := b.(*Backing)
		if !ok {
			y = &Backing{make([]Value, len(x.c))}
		}
		r := c.True
		for i := range x.c {
			r = c.And(r, vm.eq(x.c[i], y.c[i]))
		}
		return r
	case nil:
		switch b.(type) {
		case *smt.Term, *Str, *StructV, *Backing:
			return vm.eq(b, a)
		}
		return c.False
	}
	return c.Bool(a == b)
}

func (vm *VM) strEq(x, y *Str) *smt.Term {
	c := vm.c
	if x.Len() != y.Len() {
		return c.False
	}
	if x.b == nil && y.b == nil {
		return c.Bool(x.s == y.s)
	}
	n := x.Len()
	// constant mismatches first
	for i := 0; i < n; i++ {
		p, q := x.At(c, i), y.At(c, i)
		if p.IsConst() && q.IsConst() && p != q {
			return c.False
		}
	}
	r := c.True
	for i := 0; i < n; i++ {
		r = c.And(r, c.Eq(x.At(c, i), y.At(c, i)))
		if r.IsFalse() {
			break
		}
	}
	return r
}

// strLess builds a < b.
func (vm *VM) strLess(x, y *Str) *smt.Term {
	c := vm.c
	if x.b == nil && y.b == nil {
		return c.Bool(x.s < y.s)
	}
	n := min(x.Len(), y.Len())
	r := c.Bool(x.Len() < y.Len())
	for i := n - 1; i >= 0; i-- {
		p, q := x.At(c, i), y.At(c, i)
		r = c.Or(c.Ult(p, q), c.And(c.Eq(p, q), r))
	}
	return r
}

func (vm *VM) sliceBytes(s *Slice) []*smt.Term {
	if s == nil {
		return nil
	}
	r := make([]*smt.Term, s.n)
	for i := range r {
		if t, ok := s.bk.c[s.off+i].(*smt.Term); ok {
			r[i] = t
		} else {
			r[i] = vm.c.BV(8, 0)
		}
	}
	return r
}

func (vm *VM) bytesSlice(ts []*smt.Term) *Slice {
	bk := &Backing{make([]Value, len(ts))}
	for i, t := range ts {
		bk.c[i] = t
	}
	return &Slice{bk, 0, len(ts), len(ts)}
}

// concBytes returns the bytes if all are constant.
func concBytes(ts []*smt.Term) ([]byte, bool) {
	b := make([]byte, len(ts))
	for i, t := range ts {
		if !t.IsConst() {
			return nil, false
		}
		b[i] = byte(t.K)
	}
	return b, true
}

func sortedEnts(m *MapV) []*mapEnt {
	r := make([]*mapEnt, 0, m.live)
	for _, e := range m.ents {
		if !e.dead {
			r = append(r, e)
		}
	}
	sort.SliceStable(r, func(i, j int) bool { return r[i].seq < r[j].seq })
	return r
}

var classToSize = []int{0, 8, 16, 24, 32, 48, 64, 80, 96, 112, 128, 144, 160, 176, 192, 208, 224, 240, 256, 288, 320, 352, 384, 416, 448, 480, 512, 576, 640, 704, 768, 896, 1024, 1152, 1280, 1408, 1536, 1792, 2048, 2304, 2688, 3072, 3200, 3456, 4096, 4864, 5376, 6144, 6528, 6784, 6912, 8192, 9472, 9728, 10240, 10880, 12288, 13568, 14336, 16384, 18432, 19072, 20480, 21760, 24576, 27264, 28672, 32768}

func roundupsize(size int, noscan bool) int {
	req := size
	if req <= 32768-8 {
		if !noscan && req > 512 {
			req += 8
		}
		i := sort.SearchInts(classToSize, req)
		return classToSize[i] - (req - size)
	}
	return (req + 8191) &^ 8191
}

func hasPointers(t types.Type) bool {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		return u.Info()&types.IsString != 0 || u.Kind() == types.UnsafePointer
	case *types.Struct:
		for i := 0; i < u.NumFields(); i++ {
			if hasPointers(u.Field(i).Type()) {
				return true
			}
		}
		return false
	case *types.Array:
		return u.Len() > 0 && hasPointers(u.Elem())
	}
	return true
}

// growCap emulates the runtime's growslice.
func growCap(elem types.Type, oldCap, newLen int) int {
	newcap := oldCap
	if newLen > 2*oldCap {
		newcap = newLen
	} else if oldCap < 256 {
		newcap = 2 * oldCap
	} else {
		for {
			newcap += (newcap + 3*256) >> 2
			if newcap >= newLen {
				break
			}
		}
	}
	sz := int(sizes.Sizeof(elem))
	if sz == 0 {
		return newcap
	}
	return roundupsize(newcap*sz, !hasPointers(elem)) / sz
}

var sizes = types.SizesFor("gc", "amd64")
