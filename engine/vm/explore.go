package vm

import (
	"fmt"
	"go/types"
	"runtime"
	"runtime/debug"
	"sort"
	"strconv"
	"sync"
	"sync/atomic"
	"time"

	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/types/typeutil"
	"verif/engine/smt"
)

// EndKind says how a path ended.
type EndKind int

const (
	EndOK EndKind = iota
	EndAssume
	EndPanic
	EndExit
	EndSteps
	EndDepth
	EndAlloc
	EndUnsupported
	EndViolated
)

func (k EndKind) String() string {
	return [...]string{"ok", "assume", "panic", "exit", "steps", "depth", "alloc", "unsupported", "violated"}[k]
}

type pathEnd struct {
	kind EndKind
	msg  string
}

type Limits struct {
	Steps int64
	Depth int
	Alloc int64
	Terms int
}

type decEnt struct {
	choice int
	val    uint64
	isVal  bool
	auto   bool
	single bool  // no other alternative was feasible
	at     int64 // instruction count, to notice a replay that is out of step
	cond   *smt.Term
}

// strip drops what belongs to one term context.
func (d decEnt) strip() decEnt { d.cond = nil; return d }

type script struct {
	ents  []decEnt
	model []uint64
}

// pathState is the part of the state that is restored at backtracking by value.
type pathState struct {
	nvars   int
	nin     int
	nobs    int
	ncov    int
	ntrace  int
	steps   int64
	mapAny  bool
	nassert int
	seq     uint64
}

type alt struct {
	dec   decEnt
	cond  *smt.Term
	model []uint64
}

type choice struct {
	stack  []*Frame
	undo   int
	cons   int
	dom    int
	facts  int
	ps     pathState
	prefix []decEnt // decisions of the instruction before this one
	alts   []alt
}

type domEnt struct {
	atom int32
	old  smt.Set
}

type consEnt struct {
	t    *smt.Term
	vars []int32
}

type VM struct {
	P   *Program
	E   *Explorer
	c   *smt.Ctx
	s   *smt.Solver
	lim Limits
	wid int

	funcs   map[*ssa.Function]*Func
	globals map[*ssa.Global]*Value
	tids    map[types.Type]int
	tmap    typeutil.Map
	impl    map[asKey]bool
	meths   map[methKey]*Func
	rtErr   types.Type
	mapSeq  int

	stack []*Frame
	epoch uint32
	undo  []undoEnt
	spec  int

	ps       pathState
	cps      []*choice
	cons     []consEnt
	domTrail []domEnt
	facts    map[uint32]bool
	factTr   []uint32
	multi    map[int32]int // atoms occurring in multi-atom constraints
	model    []uint64
	trace    []decEnt
	inputs   []Input
	obs      []Obs
	cov      []string

	instrDec  []decEnt
	instrPos  int
	instrUndo int
	instrCons int
	instrDom  int
	instrFact int
	instrPS   pathState
	replay    bool

	script    []decEnt
	scriptPos int

	lastPanicAt []string
	natState    map[string]Value
	res         *Result
	inInit      bool
	rng         uint64
	tick        int
}

// Input is one value requested by the harness.
type Input struct {
	Kind string
	T    *smt.Term
}

type Obs struct {
	Label string
	V     Value
}

// Violation is a candidate counterexample.
type Violation struct {
	Msg     string
	Kind    string
	Vector  []uint64
	Trace   []string
	Harness string
	HasUF   bool
}

// Sample is a finished path with concrete inputs and predicted observations.
type Sample struct {
	Vector []uint64
	Obs    []string
	Covers []string
	Kind   string
}

type Result struct {
	Paths       int64
	Ends        [16]int64
	Decisions   int64
	Forks       int64
	Steps       int64
	Asserts     int64 // assertion instances
	AssertFold  int64 // settled by rewriting
	AssertSMT   int64 // settled by the solver
	AssertUnk   int64
	FeasUnk     int64
	Audits      int64 // decisions by domains repeated by the solver
	Covers      map[string]int64
	Funcs       map[string]int64
	Blocks      map[string][2]int
	Stats       smt.Stats
	Viol        []Violation
	violSeen    map[string]int
	Samples     []Sample
	Unsupp      map[string]int64
	Incomplete  bool
	OutOfMemory bool
	Pending     int64
	Terms       int64
	Volume      float64 // inputs covered by paths without multi-byte constraints (debugging)
	NoVolume    int64
}

func newResult() *Result {
	return &Result{Covers: map[string]int64{}, Funcs: map[string]int64{}, Blocks: map[string][2]int{}, violSeen: map[string]int{}, Unsupp: map[string]int64{}}
}

func (r *Result) merge(o *Result) {
	r.Paths += o.Paths
	for i := range r.Ends {
		r.Ends[i] += o.Ends[i]
	}
	r.Decisions += o.Decisions
	r.Forks += o.Forks
	r.Steps += o.Steps
	r.Asserts += o.Asserts
	r.AssertFold += o.AssertFold
	r.AssertSMT += o.AssertSMT
	r.AssertUnk += o.AssertUnk
	r.FeasUnk += o.FeasUnk
	r.Audits += o.Audits
	r.Terms += o.Terms
	r.Volume += o.Volume
	r.NoVolume += o.NoVolume
	for k, v := range o.Covers {
		r.Covers[k] += v
	}
	for k, v := range o.Funcs {
		r.Funcs[k] += v
	}
	for k, v := range o.Blocks {
		b := r.Blocks[k]
		if v[0] > b[0] {
			b[0] = v[0]
		}
		b[1] = v[1]
		r.Blocks[k] = b
	}
	for k, v := range o.Unsupp {
		r.Unsupp[k] += v
	}
	r.Stats.Add(&o.Stats)
	r.Viol = append(r.Viol, o.Viol...)
	r.Samples = append(r.Samples, o.Samples...)
	r.Incomplete = r.Incomplete || o.Incomplete
}

// ---- decisions ----

func (vm *VM) branch(cond *smt.Term) bool {
	if cond.IsConst() {
		return cond.K != 0
	}
	return vm.decide([]*smt.Term{cond, vm.c.Not(cond)}) == 0
}

func (vm *VM) known(t *smt.Term) int {
	if q := vm.c.Quick(t); q >= 0 {
		return q
	}
	if vm.facts[t.ID] {
		return 1
	}
	if t.Op == smt.OpNot {
		if vm.facts[t.A.ID] {
			return 0
		}
	} else if n := vm.c.Not(t); vm.facts[n.ID] {
		return 0
	}
	return -1
}

// decide picks one of mutually exclusive, exhaustive alternatives.
func (vm *VM) decide(alts []*smt.Term) int {
	if vm.spec > 0 {
		for i, a := range alts {
			if vm.known(a) == 1 {
				return i
			}
		}
		panic(specAbort{})
	}
	if vm.instrPos < len(vm.instrDec) {
		return vm.consume().choice
	}
	rec := func(d decEnt) int {
		vm.instrDec = append(vm.instrDec, d)
		vm.instrPos++
		return d.choice
	}
	// cheap elimination
	last, n := -1, 0
	var st [8]int
	stt := st[:0]
	for i, a := range alts {
		k := vm.known(a)
		if k >= 0 && vm.scriptPos >= len(vm.script) {
			if k == 1 {
				vm.audit(vm.c.Not(a), smt.Unsat)
			} else {
				vm.audit(a, smt.Unsat)
			}
		}
		stt = append(stt, k)
		if k == 1 {
			return rec(decEnt{choice: i, auto: true})
		}
		if k < 0 {
			n++
			last = i
		}
	}
	if n == 0 {
		// cannot happen for exhaustive alternatives on a feasible path
		panic(pathEnd{kind: EndUnsupported, msg: "no alternative possible at " + vm.where()})
	}
	if n == 1 {
		return rec(decEnt{choice: last, auto: true})
	}
	vm.res.Decisions++
	if vm.scriptPos < len(vm.script) {
		d := vm.script[vm.scriptPos]
		vm.scriptPos++
		if d.isVal || d.choice >= len(alts) || d.at != vm.ps.steps {
			panic(pathEnd{kind: EndUnsupported, msg: "script out of step at " + vm.where()})
		}
		d.cond = alts[d.choice]
		vm.take(d)
		vm.checkModel("script")
		return rec(d)
	}
	var feas []alt
	for i, a := range alts {
		if stt[i] == 0 {
			continue
		}
		r, m := vm.feasible(a)
		if r == smt.Unsat {
			continue
		}
		if r == smt.Unknown {
			vm.res.FeasUnk++
		}
		feas = append(feas, alt{decEnt{choice: i, at: vm.ps.steps, cond: a}, a, m})
	}
	if len(feas) == 0 {
		panic(pathEnd{kind: EndUnsupported, msg: "no feasible alternative at " + vm.where()})
	}
	return rec(vm.fork(feas))
}

// fork takes the first alternative and leaves the others for later.
func (vm *VM) fork(feas []alt) decEnt {
	if len(feas) > 1 {
		vm.res.Forks++
		vm.pushChoice(feas[1:])
	}
	f := feas[0]
	f.dec.single = len(feas) == 1
	if f.model != nil {
		vm.model = f.model
	}
	vm.take(f.dec)
	vm.checkModel("fork")
	return f.dec
}

// take applies a decision to the path.
func (vm *VM) take(d decEnt) {
	if d.auto {
		return
	}
	if d.cond != nil {
		if d.single {
			vm.fact(d.cond)
		} else {
			vm.assume(d.cond)
		}
	}
	vm.trace = append(vm.trace[:vm.ps.ntrace], d.strip())
	vm.ps.ntrace++
}

// consume repeats a decision of an instruction that is executed again after backtracking.
func (vm *VM) consume() decEnt {
	d := vm.instrDec[vm.instrPos]
	vm.instrPos++
	vm.take(d)
	return d
}

func (vm *VM) pushChoice(rest []alt) {
	stack := append([]*Frame(nil), vm.stack...)
	n := len(stack) - 1
	if n >= 0 {
		stack[n] = vm.stack[n].clone()
	}
	cp := &choice{
		stack: stack, undo: vm.instrUndo, cons: vm.instrCons, dom: vm.instrDom, facts: vm.instrFact,
		ps: vm.instrPS, prefix: append([]decEnt(nil), vm.instrDec...), alts: append([]alt(nil), rest...),
	}
	vm.cps = append(vm.cps, cp)
	vm.epoch++
	if n >= 0 {
		vm.stack[n].epoch = vm.epoch
	}
}

// choose forks n ways without constraints.
func (vm *VM) choose(n int) int {
	if vm.spec > 0 {
		panic(specAbort{})
	}
	if vm.instrPos < len(vm.instrDec) {
		return vm.consume().choice
	}
	var d decEnt
	if n <= 1 {
		d = decEnt{auto: true}
	} else if vm.scriptPos < len(vm.script) {
		d = vm.script[vm.scriptPos]
		vm.scriptPos++
		if d.at != vm.ps.steps || d.isVal {
			panic(pathEnd{kind: EndUnsupported, msg: "script out of step at " + vm.where()})
		}
		vm.take(d)
	} else {
		vm.res.Decisions++
		var feas []alt
		for i := 0; i < n; i++ {
			feas = append(feas, alt{dec: decEnt{choice: i, at: vm.ps.steps}})
		}
		d = vm.fork(feas)
	}
	vm.instrDec = append(vm.instrDec, d)
	vm.instrPos++
	return d.choice
}

// concretise forks over the values of t.
func (vm *VM) concretise(t *smt.Term) uint64 {
	if t.IsConst() {
		return t.K
	}
	lo, hi := vm.c.URange(t)
	if lo == hi {
		return lo
	}
	if hi-lo < 40 && !t.HasUF {
		var alts []*smt.Term
		for v := lo; v <= hi; v++ {
			alts = append(alts, vm.c.Eq(t, vm.c.BV(t.W, v)))
		}
		return lo + uint64(vm.decide(alts))
	}
	tried := map[uint64]bool{}
	for {
		v := vm.someValue(t)
		if tried[v] {
			// the solver's idea of the values does not agree with what they turn out to be
			panic(unsupported{"no further value for a term at " + vm.where()})
		}
		tried[v] = true
		var k *smt.Term
		if t.W == smt.WFloat {
			panic(unsupported{"concretise float"})
		}
		k = vm.c.BV(t.W, v)
		if vm.branch(vm.c.Eq(t, k)) {
			return v
		}
	}
}

// fixFloat forks over the values of a float that depends on few inputs.
func (vm *VM) fixFloat(t *smt.Term) uint64 {
	if t.IsConst() {
		return t.K
	}
	at := vm.c.Vars(t)
	if len(at) == 0 || len(at) > 3 || at[0] < 0 {
		panic(unsupported{"formatting a symbolic fraction"})
	}
	vals := map[int]uint64{}
	for _, i := range at {
		v := vm.c.Atoms[i].T
		vals[int(v.K)] = vm.concretise(v)
	}
	vm.c.NewEval()
	r, ok := vm.c.Eval(t, func(v int) (uint64, bool) { x, ok := vals[v]; return x, ok })
	if !ok {
		panic(unsupported{"formatting a symbolic fraction"})
	}
	return r
}

func (vm *VM) someValue(t *smt.Term) uint64 {
	if vm.spec > 0 {
		panic(specAbort{})
	}
	if vm.instrPos < len(vm.instrDec) {
		return vm.consume().val
	}
	var d decEnt
	if vm.scriptPos < len(vm.script) {
		d = vm.script[vm.scriptPos]
		vm.scriptPos++
		if !d.isVal || d.at != vm.ps.steps {
			panic(pathEnd{kind: EndUnsupported, msg: "script out of step (value)"})
		}
	} else {
		v, ok := vm.eval(t)
		if !ok {
			panic(unsupported{"no value for a term at " + vm.where()})
		}
		d = decEnt{isVal: true, val: v, at: vm.ps.steps}
	}
	vm.take(d)
	vm.instrDec = append(vm.instrDec, d)
	vm.instrPos++
	return d.val
}

func (vm *VM) eval(t *smt.Term) (uint64, bool) {
	vm.c.NewEval()
	return vm.c.Eval(t, vm.val)
}

func (vm *VM) val(v int) (uint64, bool) {
	if v < len(vm.model) {
		return vm.model[v], true
	}
	return 0, true
}

// assume adds a condition to the path.
func (vm *VM) assume(t *smt.Term) {
	if t.IsConst() {
		return
	}
	if t.Op == smt.OpAnd {
		vm.assume(t.A)
		vm.assume(t.B)
		return
	}
	if t.Op == smt.OpInSet {
		a := t.Atom
		old := vm.c.Dom[a]
		nw := old.And(*t.Set)
		if nw != old {
			vm.domTrail = append(vm.domTrail, domEnt{a, old})
			vm.c.Dom[a] = nw
			vm.c.DomVer++
		}
		return
	}
	vm.fact(t)
	e := consEnt{t, vm.c.Vars(t)}
	vm.cons = append(vm.cons, e)
	for _, v := range e.vars {
		vm.multi[v]++
	}
}

func (vm *VM) fact(t *smt.Term) {
	if t.IsConst() || t.Op == smt.OpInSet || vm.facts[t.ID] {
		return
	}
	vm.facts[t.ID] = true
	vm.factTr = append(vm.factTr, t.ID)
}

// feasible decides whether the path can continue with cond. A returned model (for Sat)
// extends to the whole path.
func (vm *VM) feasible(cond *smt.Term) (smt.Result, []uint64) {
	uf := cond.HasUF
	if !uf {
		if v, ok := vm.eval(cond); ok && v != 0 {
			return smt.Sat, vm.model
		}
	}
	if cond.Op == smt.OpInSet && vm.multi[cond.Atom] == 0 && !uf {
		s := vm.c.Dom[cond.Atom].And(*cond.Set)
		if s.Empty() {
			vm.audit(cond, smt.Unsat)
			return smt.Unsat, nil
		}
		vm.audit(cond, smt.Sat)
		m := vm.cloneModel()
		vi := vm.c.Atoms[cond.Atom].Var
		for len(m) <= vi {
			m = append(m, 0)
		}
		m[vi] = uint64(s.First())
		return smt.Sat, m
	}
	return vm.solve(cond)
}

func (vm *VM) cloneModel() []uint64 {
	return append(make([]uint64, 0, len(vm.model)+4), vm.model...)
}

// audit has the solver repeat some of the decisions that the domains of single bytes settled.
func (vm *VM) audit(cond *smt.Term, want smt.Result) {
	if cond.HasUF || cond.HasF || vm.res.Audits >= 12 && vm.rand(4096) != 0 {
		return
	}
	r, _ := vm.s.Check(vm.query(cond))
	if r == smt.Unknown {
		return
	}
	vm.res.Audits++
	if r != want {
		panic(pathEnd{kind: EndUnsupported, msg: "the solver contradicts the domains at " + vm.where()})
	}
}

// solve asks the solver about the path condition's slice for cond, and cond.
func (vm *VM) solve(cond *smt.Term) (smt.Result, []uint64) {
	q := vm.query(cond)
	r, m := vm.s.Check(q)
	if r != smt.Sat {
		return r, nil
	}
	nm := vm.cloneModel()
	for v, x := range m {
		for len(nm) <= v {
			nm = append(nm, 0)
		}
		nm[v] = x
	}
	return r, nm
}

func (vm *VM) query(cond *smt.Term) []*smt.Term {
	in := map[int32]bool{}
	for _, v := range vm.c.Vars(cond) {
		in[v] = true
	}
	used := make([]bool, len(vm.cons))
	q := []*smt.Term{cond}
	for changed := true; changed; {
		changed = false
		for i, e := range vm.cons {
			if used[i] {
				continue
			}
			hit := false
			for _, v := range e.vars {
				if in[v] {
					hit = true
					break
				}
			}
			if hit {
				used[i] = true
				changed = true
				q = append(q, e.t)
				for _, v := range e.vars {
					in[v] = true
				}
			}
		}
	}
	var as []int32
	for v := range in {
		if v >= 0 && !vm.c.Dom[v].Full() && vm.c.Atoms[v].W == 8 {
			as = append(as, v)
		}
	}
	// domains of uninterpreted applications matter when the family is involved
	if in[-3] {
		for i := range vm.c.Atoms {
			if vm.c.Atoms[i].IsUF && vm.c.Atoms[i].W == 8 && !vm.c.Dom[i].Full() {
				as = append(as, int32(i))
			}
		}
	}
	sort.Slice(as, func(i, j int) bool { return as[i] < as[j] })
	for _, a := range as {
		q = append(q, vm.c.InSet(a, vm.c.Dom[a]))
	}
	return q
}

// ---- region merging ----

type edge struct {
	from int
	cond *smt.Term
	to   *Block
	cut  bool
}

type region struct {
	edges map[*Block][]edge
	order []*Block
}

// explore evaluates side-effect free successors of blk speculatively. regs is the register file.
func (vm *VM) spread(fr *Frame, start []edge, limit int, inRegion map[int]bool, withRet bool) (region, []retEdge) {
	r := region{edges: map[*Block][]edge{}}
	var rets []retEdge
	addE := func(e edge) {
		if _, ok := r.edges[e.to]; !ok {
			r.order = append(r.order, e.to)
		}
		r.edges[e.to] = append(r.edges[e.to], e)
	}
	for _, e := range start {
		addE(e)
	}
	blocked := map[*Block]bool{}
	n := 0
	for n < limit {
		var x *Block
		for _, b := range r.order {
			es := r.edges[b]
			if es == nil || blocked[b] || !b.pure || inRegion[b.idx] {
				continue
			}
			if len(es) != len(b.preds) {
				continue
			}
			last := b.ins[len(b.ins)-1].op
			if last == opReturn && !withRet {
				continue
			}
			x = b
			break
		}
		if x == nil {
			break
		}
		if !vm.evalBlock(fr, x, r.edges[x]) {
			blocked[x] = true
			continue
		}
		n++
		es := r.edges[x]
		cond := vm.c.False
		for _, e := range es {
			cond = vm.c.Or(cond, e.cond)
		}
		delete(r.edges, x)
		for i, b := range r.order {
			if b == x {
				r.order = append(r.order[:i:i], r.order[i+1:]...)
				break
			}
		}
		inRegion[x.idx] = true
		in := &x.ins[len(x.ins)-1]
		switch in.op {
		case opJump:
			addE(edge{from: x.idx, cond: cond, to: x.succs[0]})
		case opIf:
			t := vm.c.False
			if !cond.IsFalse() {
				t = fr.get(&in.a).(*smt.Term)
			}
			addE(edge{from: x.idx, cond: vm.c.And(cond, t), to: x.succs[0]})
			addE(edge{from: x.idx, cond: vm.c.And(cond, vm.c.Not(t)), to: x.succs[1]})
		case opReturn:
			re := retEdge{cond: cond}
			if !cond.IsFalse() {
				for i := range in.args {
					re.vals = append(re.vals, fr.get(&in.args[i]))
				}
			}
			rets = append(rets, re)
		}
	}
	return r, rets
}

type retEdge struct {
	cond *smt.Term
	vals []Value
}

func (vm *VM) evalBlock(fr *Frame, b *Block, es []edge) (ok bool) {
	dead := true
	for _, e := range es {
		if !e.cond.IsFalse() {
			dead = false
		}
	}
	if dead {
		return true
	}
	if b.nphi > 0 {
		vals, ok := vm.mergePhis(fr, b, es)
		if !ok {
			return false
		}
		for i := 0; i < b.nphi; i++ {
			fr.regs[b.ins[i].dst] = vals[i]
		}
	}
	pc := fr.pc
	defer func() {
		vm.spec--
		fr.pc = pc
		if r := recover(); r != nil {
			if _, is := r.(specAbort); is {
				ok = false
				return
			}
			if _, is := r.(unsupported); is {
				ok = false
				return
			}
			panic(r)
		}
	}()
	vm.spec++
	for i := b.nphi; i < len(b.ins)-1; i++ {
		in := &b.ins[i]
		if in.op == opCall {
			if in.callee == nil { // len, cap
				var args []Value
				for k := range in.args {
					args = append(args, fr.get(&in.args[k]))
				}
				fr.regs[in.dst] = vm.builtin(fr, in, in.a.v.(*Closure).blt, args)
				continue
			}
			args := make([]Value, len(in.args))
			for k := range in.args {
				args[k] = fr.get(&in.args[k])
			}
			if in.callee.intr != nil {
				fr.regs[in.dst], _ = in.callee.intr(vm, fr, args)
				continue
			}
			r, ok := vm.summarise(in.callee, args)
			if !ok {
				return false
			}
			fr.regs[in.dst] = r
			continue
		}
		vm.step(fr, in)
	}
	b.fn.blkHit[b.idx] = true
	return true
}

// mergePhis computes the phi values of b entered through es.
func (vm *VM) mergePhis(fr *Frame, b *Block, es []edge) ([]Value, bool) {
	vals := make([]Value, b.nphi)
	for i := 0; i < b.nphi; i++ {
		var acc Value
		first := true
		for k := len(es) - 1; k >= 0; k-- {
			e := es[k]
			if e.cond.IsFalse() && len(es) > 1 {
				continue
			}
			pi := -1
			for j, p := range b.preds {
				if p == e.from {
					pi = j
					break
				}
			}
			v := fr.get(&b.ins[i].args[pi])
			if first {
				acc, first = v, false
				continue
			}
			if v == acc {
				continue
			}
			x, ok1 := v.(*smt.Term)
			y, ok2 := acc.(*smt.Term)
			if !ok1 || !ok2 || x.W != y.W {
				return nil, false
			}
			acc = vm.c.Ite(e.cond, x, y)
		}
		vals[i] = acc
	}
	return vals, true
}

// duplicate edges from one block to the same target need distinct phi columns; go/ssa never
// produces an If with equal successors that have differing phi values, so the first column is right.

func (vm *VM) symIf(fr *Frame, t *smt.Term) {
	blk := fr.blk
	start := []edge{{from: blk.idx, cond: t, to: blk.succs[0]}, {from: blk.idx, cond: vm.c.Not(t), to: blk.succs[1]}}
	if k := vm.known(t); k >= 0 {
		vm.jump(fr, blk.succs[1-k])
		return
	}
	reg, _ := vm.spread(fr, start, 24, map[int]bool{blk.idx: true}, false)
	type exit struct {
		to   *Block
		cond *smt.Term
		vals []Value
		from int
	}
	var exits []exit
	for _, b := range reg.order {
		var es []edge
		for _, e := range reg.edges[b] {
			if vm.known(e.cond) != 0 {
				es = append(es, e)
			}
		}
		if len(es) == 0 {
			continue
		}
		group := func(es []edge) bool {
			vals, ok := vm.mergePhis(fr, b, es)
			if !ok {
				return false
			}
			c := vm.c.False
			for _, e := range es {
				c = vm.c.Or(c, e.cond)
			}
			exits = append(exits, exit{b, c, vals, es[0].from})
			return true
		}
		if !group(es) {
			for _, e := range es {
				group([]edge{e})
			}
		}
	}
	k := 0
	if len(exits) > 1 {
		conds := make([]*smt.Term, len(exits))
		for i := range exits {
			conds[i] = exits[i].cond
		}
		k = vm.decide(conds)
	}
	e := exits[k]
	fr.prev = e.from
	vm.jumpVals(fr, e.to, e.vals)
}

// summarise evaluates a small pure function symbolically.
func (vm *VM) summarise(f *Func, args []Value) (Value, bool) {
	if !f.built {
		vm.build(f)
	}
	fr := &Frame{f: f, blk: f.blocks[0], regs: make([]Value, f.nreg), epoch: vm.epoch}
	copy(fr.regs, args)
	vm.spec++
	defer func() { vm.spec-- }()
	if !vm.evalBlock(fr, f.blocks[0], []edge{{from: -1, cond: vm.c.True, to: f.blocks[0]}}) {
		return nil, false
	}
	b := f.blocks[0]
	in := &b.ins[len(b.ins)-1]
	var rets []retEdge
	switch in.op {
	case opReturn:
		re := retEdge{cond: vm.c.True}
		for i := range in.args {
			re.vals = append(re.vals, fr.get(&in.args[i]))
		}
		rets = append(rets, re)
	default:
		var start []edge
		if in.op == opJump {
			start = []edge{{from: 0, cond: vm.c.True, to: b.succs[0]}}
		} else {
			t := fr.get(&in.a).(*smt.Term)
			start = []edge{{from: 0, cond: t, to: b.succs[0]}, {from: 0, cond: vm.c.Not(t), to: b.succs[1]}}
		}
		var reg region
		reg, rets = vm.spread(fr, start, 64, map[int]bool{0: true}, true)
		for _, es := range reg.edges {
			for _, e := range es {
				if vm.known(e.cond) != 0 {
					return nil, false
				}
			}
		}
	}
	var out []Value
	for i := len(rets) - 1; i >= 0; i-- {
		re := rets[i]
		if re.cond.IsFalse() {
			continue
		}
		if out == nil {
			out = append([]Value(nil), re.vals...)
			continue
		}
		for j := range out {
			x, ok1 := re.vals[j].(*smt.Term)
			y, ok2 := out[j].(*smt.Term)
			if !ok1 || !ok2 {
				return nil, false
			}
			out[j] = vm.c.Ite(re.cond, x, y)
		}
	}
	if out == nil {
		return nil, false
	}
	if len(out) == 1 {
		return out[0], true
	}
	return Tuple(out), true
}

// ---- running ----

// runPath executes until the path ends.
func (vm *VM) runPath() pathEnd {
	for {
		if e := vm.runSome(); e != nil {
			return *e
		}
	}
}

func (vm *VM) runSome() (end *pathEnd) {
	defer func() {
		if r := recover(); r != nil {
			vm.spec = 0
			switch x := r.(type) {
			case pathEnd:
				end = &x
			case goPanicSig:
				end = vm.tryPanic(x.val)
			case unsupported:
				end = &pathEnd{kind: EndUnsupported, msg: x.msg}
			case runtime.Error:
				end = &pathEnd{kind: EndUnsupported, msg: "engine: " + x.Error() + " at " + vm.where() + "\n" + string(debug.Stack())}
			default:
				end = &pathEnd{kind: EndUnsupported, msg: fmt.Sprint("engine: ", r, " at ", vm.where(), "\n", string(debug.Stack()))}
			}
		}
	}()
	for {
		n := len(vm.stack) - 1
		fr := vm.stack[n]
		if fr.epoch != vm.epoch {
			fr = vm.top()
		}
		in := &fr.blk.ins[fr.pc]
		vm.instrUndo = len(vm.undo)
		if vm.replay {
			vm.replay = false // re-executed after backtracking: already counted
		} else {
			if len(vm.instrDec) > 0 {
				vm.instrDec = vm.instrDec[:0]
			}
			vm.ps.steps++
		}
		vm.instrPos = 0
		vm.instrCons, vm.instrDom, vm.instrFact, vm.instrPS = len(vm.cons), len(vm.domTrail), len(vm.factTr), vm.ps
		vm.tick++
		if vm.tick&0xfff == 0 {
			vm.housekeep()
		}
		vm.step(fr, in)
	}
}

func (vm *VM) tryPanic(v Value) (end *pathEnd) {
	defer func() {
		if r := recover(); r != nil {
			switch x := r.(type) {
			case pathEnd:
				end = &x
			case unsupported:
				end = &pathEnd{kind: EndUnsupported, msg: x.msg}
			default:
				panic(r)
			}
		}
	}()
	vm.instrDec = vm.instrDec[:0]
	vm.instrPos = 0
	vm.replay = false
	vm.lastPanicAt = append(vm.lastPanicAt[:0], vm.where())
	vm.startPanic(v)
	return nil
}

func (vm *VM) housekeep() {
	if vm.ps.steps > vm.lim.Steps {
		panic(pathEnd{kind: EndSteps, msg: "step limit at " + vm.where()})
	}
	if vm.E != nil {
		if vm.E.stop.Load() {
			panic(pathEnd{kind: EndUnsupported, msg: "stopped"})
		}
		if vm.E.hungry.Load() > 0 {
			vm.donate()
		}
	}
}

// donate gives the alternatives of the oldest choice point to the queue.
func (vm *VM) donate() {
	for _, cp := range vm.cps {
		if len(cp.alts) == 0 {
			continue
		}
		// leave one level for this worker when it is the only one
		var scs []script
		for _, a := range cp.alts {
			ents := append([]decEnt(nil), vm.trace[:cp.ps.ntrace]...)
			for _, d := range cp.prefix {
				if !d.auto {
					ents = append(ents, d.strip())
				}
			}
			ents = append(ents, a.dec.strip())
			m := a.model
			if m == nil {
				m = vm.model
			}
			scs = append(scs, script{ents: ents, model: append([]uint64(nil), m...)})
		}
		cp.alts = nil
		vm.E.push(scs)
		return
	}
}

// backtrack restores the newest choice point with an untried alternative.
func (vm *VM) backtrack() bool {
	for len(vm.cps) > 0 {
		cp := vm.cps[len(vm.cps)-1]
		if len(cp.alts) == 0 {
			vm.cps = vm.cps[:len(vm.cps)-1]
			continue
		}
		a := cp.alts[0]
		cp.alts = cp.alts[1:]
		vm.restore(cp)
		if len(cp.alts) == 0 {
			vm.cps = vm.cps[:len(vm.cps)-1]
		}
		if a.model != nil {
			vm.model = a.model
		}
		vm.instrDec = append(append(vm.instrDec[:0], cp.prefix...), a.dec)
		vm.instrPos = 0
		vm.replay = true
		vm.checkModel("backtrack")
		return true
	}
	return false
}

func (vm *VM) restore(cp *choice) {
	vm.rollback(cp.undo)
	vm.stack = append(vm.stack[:0:0], cp.stack...)
	vm.epoch++
	vm.unwindState(cp.cons, cp.dom, cp.facts)
	vm.ps = cp.ps
	vm.inputs = vm.inputs[:cp.ps.nin]
	vm.obs = vm.obs[:cp.ps.nobs]
	vm.cov = vm.cov[:cp.ps.ncov]
	vm.trace = vm.trace[:cp.ps.ntrace]
	vm.spec = 0
}

func (vm *VM) unwindState(cons, dom, facts int) {
	for i := len(vm.cons) - 1; i >= cons; i-- {
		for _, v := range vm.cons[i].vars {
			vm.multi[v]--
		}
	}
	vm.cons = vm.cons[:cons]
	for i := len(vm.domTrail) - 1; i >= dom; i-- {
		vm.c.Dom[vm.domTrail[i].atom] = vm.domTrail[i].old
	}
	vm.domTrail = vm.domTrail[:dom]
	vm.c.DomVer++
	for i := len(vm.factTr) - 1; i >= facts; i-- {
		delete(vm.facts, vm.factTr[i])
	}
	vm.factTr = vm.factTr[:facts]
}

// ---- exploration across workers ----

type Explorer struct {
	P          *Program
	Harness    *ssa.Function
	Lim        Limits
	Workers    int
	Bounds     map[string]int
	Thorough   bool
	UsedBounds map[string]int64
	Seed       uint64
	// how many finished paths to keep for validation against the real code
	SampleMax int
	TimeoutMs int
	FallbkMs  int
	Deadline  time.Time

	mu     sync.Mutex
	cond   *sync.Cond
	queue  []script
	idle   int
	done   bool
	hungry atomic.Int32
	stop   atomic.Bool
	nviol  atomic.Int32
	// Ignore tells which failures do not end the exploration early
	Ignore  func(msg string) bool
	Early   bool
	started time.Time
	VMs     []*VM
}

func (e *Explorer) push(s []script) {
	e.mu.Lock()
	e.queue = append(e.queue, s...)
	e.hungry.Store(int32(e.idle - len(e.queue)))
	e.cond.Broadcast()
	e.mu.Unlock()
}

func (e *Explorer) pop() (script, bool) {
	e.mu.Lock()
	defer e.mu.Unlock()
	e.idle++
	for {
		if e.stop.Load() || e.done {
			e.cond.Broadcast()
			return script{}, false
		}
		if n := len(e.queue); n > 0 {
			s := e.queue[0]
			e.queue = e.queue[1:]
			e.idle--
			e.hungry.Store(int32(e.idle - len(e.queue)))
			return s, true
		}
		if e.idle == e.Workers {
			e.done = true
			e.cond.Broadcast()
			return script{}, false
		}
		e.hungry.Store(int32(e.idle - len(e.queue)))
		e.cond.Wait()
	}
}

// Run explores the harness; vms are reused between calls if given.
func (e *Explorer) Run() *Result {
	e.cond = sync.NewCond(&e.mu)
	e.started = time.Now()
	e.queue = []script{{}}
	res := newResult()
	var wg sync.WaitGroup
	var rmu sync.Mutex
	var timer *time.Timer
	if !e.Deadline.IsZero() {
		timer = time.AfterFunc(time.Until(e.Deadline), func() {
			e.stop.Store(true)
			e.mu.Lock()
			e.cond.Broadcast()
			e.mu.Unlock()
		})
	}
	// give up before memory runs out
	done := make(chan struct{})
	go func() {
		for {
			select {
			case <-done:
				return
			case <-time.After(500 * time.Millisecond):
			}
			var m runtime.MemStats
			runtime.ReadMemStats(&m)
			if m.HeapAlloc > 22<<30 && !e.stop.Load() {
				res.OutOfMemory = true
				e.stop.Store(true)
				e.mu.Lock()
				e.cond.Broadcast()
				e.mu.Unlock()
			}
		}
	}()
	defer close(done)
	for i := 0; i < e.Workers; i++ {
		wg.Add(1)
		go func(i int) {
			defer wg.Done()
			r := e.worker(i)
			rmu.Lock()
			res.merge(r)
			rmu.Unlock()
		}(i)
	}
	wg.Wait()
	if timer != nil {
		timer.Stop()
	}
	if e.stop.Load() {
		res.Incomplete = true
	}
	res.Pending = int64(len(e.queue))
	return res
}

func (e *Explorer) worker(i int) *Result {
	res := newResult()
	var vm *VM
	collect := func() {
		if vm == nil {
			return
		}
		res.Stats.Add(&vm.s.Stats)
		res.Terms += int64(vm.c.NumTerms())
		vm.s.Close()
		for fn, f := range vm.funcs {
			if f.hits > 0 && f.fn == fn {
				res.Funcs[f.name] += f.hits
				if f.built {
					n := 0
					for _, h := range f.blkHit {
						if h {
							n++
						}
					}
					b := res.Blocks[f.name]
					res.Blocks[f.name] = [2]int{max(b[0], n), len(f.blocks)}
				}
			}
		}
		vm = nil
	}
	for {
		sc, ok := e.pop()
		if !ok {
			break
		}
		if vm == nil || vm.c.NumTerms() > e.Lim.Terms {
			collect()
			vm = NewVM(e.P, e, e.Lim, e.TimeoutMs, e.FallbkMs)
			vm.wid = i
			vm.res = res
			vm.rng = e.Seed*7919 + uint64(i)*104729 + 12345
			vm.s.Deadline = e.Deadline
			if err := vm.Init(); err != nil {
				res.Unsupp["init: "+err.Error()]++
				res.Incomplete = true
				e.stop.Store(true)
				e.mu.Lock()
				e.cond.Broadcast()
				e.mu.Unlock()
				return res
			}
			vm.inInit = false
		}
		vm.explore(e.Harness, sc)
	}
	collect()
	return res
}

// explore runs the subtree of one script.
func (vm *VM) explore(h *ssa.Function, sc script) {
	vm.script = sc.ents
	vm.scriptPos = 0
	vm.model = append(make([]uint64, 0, 8), sc.model...) // never nil: an empty model means all zero
	vm.trace = vm.trace[:0]
	vm.inputs = vm.inputs[:0]
	vm.obs = vm.obs[:0]
	vm.cov = vm.cov[:0]
	vm.ps = pathState{}
	vm.cps = vm.cps[:0]
	vm.instrDec = vm.instrDec[:0]
	vm.instrPos = 0
	vm.stack = vm.stack[:0]
	vm.replay = false
	vm.epoch++
	base := len(vm.undo)
	vm.instrUndo = base
	vm.pushFrame(vm.getFunc(h), nil, nil, -1)
	for {
		end := vm.runPath()
		if end.kind == EndUnsupported && end.msg == "stopped" {
			break
		}
		vm.finish(end)
		if vm.E.stop.Load() {
			break
		}
		if vm.E.hungry.Load() > 0 {
			vm.donate()
		}
		if vm.c.NumTerms() > vm.E.Lim.Terms {
			for len(vm.cps) > 0 {
				n := 0
				for _, cp := range vm.cps {
					n += len(cp.alts)
				}
				if n == 0 {
					break
				}
				vm.donate()
			}
		}
		if !vm.backtrack() {
			break
		}
	}
	vm.rollback(base)
	vm.unwindState(0, 0, 0)
	vm.stack = vm.stack[:0]
}

func (vm *VM) finish(end pathEnd) {
	r := vm.res
	r.Ends[end.kind]++
	r.Steps += vm.ps.steps
	if end.kind == EndAssume {
		return
	}
	r.Paths++
	switch end.kind {
	case EndUnsupported:
		r.Unsupp[end.msg]++
		return
	case EndPanic, EndSteps, EndDepth, EndAlloc:
		vm.violation(end.kind.String(), end.msg, nil)
		return
	}
	for _, l := range vm.cov {
		r.Covers[l]++
	}
	if debugModel {
		vm.volume()
	}
	if end.kind == EndOK || end.kind == EndExit {
		vm.sample(end)
	}
}

func (vm *VM) rand(n uint64) uint64 {
	vm.rng ^= vm.rng << 13
	vm.rng ^= vm.rng >> 7
	vm.rng ^= vm.rng << 17
	return vm.rng % n
}

func (vm *VM) sample(end pathEnd) {
	r := vm.res
	max := vm.E.SampleMax
	if max == 0 {
		return
	}
	per := max/vm.E.Workers + 1
	if !vm.realUF() {
		return
	}
	slot := -1
	if len(r.Samples) < per {
		slot = len(r.Samples)
		r.Samples = append(r.Samples, Sample{})
	} else if k := vm.rand(uint64(r.Paths)); k < uint64(per) {
		slot = int(k)
	} else {
		return
	}
	s := Sample{Vector: vm.vector(vm.model), Kind: end.kind.String(), Covers: append([]string(nil), vm.cov...)}
	vm.c.NewEval()
	for _, o := range vm.obs {
		s.Obs = append(s.Obs, o.Label+"="+vm.showObs(o.V))
	}
	r.Samples[slot] = s
}

// realUF reports whether the path condition holds under the model when the uninterpreted
// functions are replaced by the real ones.
func (vm *VM) realUF() bool {
	vm.c.NewEval()
	for _, e := range vm.cons {
		if e.t.HasUF {
			if v, ok := vm.c.Eval(e.t, vm.val); !ok || v == 0 {
				return false
			}
		}
	}
	for _, d := range vm.domTrail {
		if a := &vm.c.Atoms[d.atom]; a.IsUF {
			v, ok := vm.c.Eval(a.T, vm.val)
			dom := vm.c.Dom[d.atom]
			if !ok || !dom.Has(int(v)) {
				return false
			}
		}
	}
	return true
}

// vector lists the harness inputs under a model.
func (vm *VM) vector(model []uint64) []uint64 {
	old := vm.model
	vm.model = model
	vm.c.NewEval()
	out := make([]uint64, len(vm.inputs))
	for i, in := range vm.inputs {
		v, ok := vm.c.Eval(in.T, vm.val)
		if !ok {
			v = 0
		}
		out[i] = v
	}
	vm.model = old
	return out
}

func (vm *VM) showObs(v Value) string {
	switch x := v.(type) {
	case *smt.Term:
		k, ok := vm.c.Eval(x, vm.val)
		if !ok {
			return "?"
		}
		return fmt.Sprint(k)
	case *Str:
		b := make([]byte, x.Len())
		for i := range b {
			k, ok := vm.c.Eval(x.At(vm.c, i), vm.val)
			if !ok {
				return "?"
			}
			b[i] = byte(k)
		}
		return strconv.QuoteToASCII(string(b))
	}
	return "?"
}

func (vm *VM) violation(kind, msg string, model []uint64) {
	if model == nil {
		model = vm.model
	}
	key := kind + ":" + msg
	r := vm.res
	r.violSeen[key]++
	if e := vm.E; e.Ignore == nil || !e.Ignore(msg) {
		// enough candidates: the rest of the time is better spent on confirming them
		if n := e.nviol.Add(1); n > 2000 || n > 30 && time.Since(e.started) > 40*time.Second {
			e.mu.Lock()
			e.Early = true
			e.stop.Store(true)
			e.cond.Broadcast()
			e.mu.Unlock()
		}
	}
	if r.violSeen[key] > 12 || len(r.Viol) > 400 {
		return
	}
	uf := false
	for _, e := range vm.cons {
		if e.t.HasUF {
			uf = true
		}
	}
	v := Violation{Msg: msg, Kind: kind, Vector: vm.vector(model), HasUF: uf, Trace: append([]string(nil), vm.lastPanicAt...)}
	r.Viol = append(r.Viol, v)
}
