package vm

import (
	"fmt"
	"regexp/syntax"
	"strings"
	"sync"

	"verif/engine/smt"
)

// Regular expressions are matched byte by byte with leftmost-first semantics by a
// prioritised simulation over regexp/syntax's program. Bytes of 0x80 and above are
// treated alike; expressions that tell them apart are refused.

type rePat struct {
	expr string
	prog *syntax.Prog
	ncap int
	sets []smt.Set
	look bool // has empty-width assertions
}

type reThread struct {
	pc  uint32
	cap []int
}

type reState struct {
	p     *rePat
	caps  bool
	pos   int
	th    []reThread
	match []int
	prev  int // a byte of the class before the position, -1 at the start of the text
}

// wordBytes and lineEnd are the classes assertions depend on.
var wordBytes, lineEnd smt.Set

func init() {
	for b := 0; b < 256; b++ {
		if syntax.IsWordChar(rune(b)) {
			wordBytes.Add(b)
		}
	}
	lineEnd.Add('\n')
}

var reMu sync.Mutex
var reCache = map[string]*rePat{}

func newRe(expr string) *rePat {
	reMu.Lock()
	defer reMu.Unlock()
	if p := reCache[expr]; p != nil {
		return p
	}
	re, err := syntax.Parse(expr, syntax.Perl)
	if err != nil {
		panic(unsupported{"regexp " + err.Error()})
	}
	n := re.MaxCap()
	prog, err := syntax.Compile(re.Simplify())
	if err != nil {
		panic(unsupported{"regexp " + err.Error()})
	}
	p := &rePat{expr: expr, prog: prog, ncap: 2 * (n + 1), sets: make([]smt.Set, len(prog.Inst))}
	for i := range prog.Inst {
		in := &prog.Inst[i]
		switch in.Op {
		case syntax.InstRune, syntax.InstRune1, syntax.InstRuneAny, syntax.InstRuneAnyNotNL:
			m := func(r rune) bool {
				switch in.Op {
				case syntax.InstRuneAny:
					return true
				case syntax.InstRuneAnyNotNL:
					return r != '\n'
				}
				return in.MatchRune(r)
			}
			for b := 0; b < 128; b++ {
				if m(rune(b)) {
					p.sets[i].Add(b)
				}
			}
			hi := m(0xFFFD)
			if m(0x80) != hi || m(0xff) != hi || m(0x4e00) != hi {
				panic(unsupported{"regexp over non-ASCII classes"})
			}
			if hi {
				for b := 128; b < 256; b++ {
					p.sets[i].Add(b)
				}
			}
		case syntax.InstEmptyWidth:
			p.look = true
		}
	}
	reCache[expr] = p
	return p
}

func (vm *VM) reStart(v Value, caps bool) *reState {
	if ifc, ok := v.(*Iface); ok {
		v = ifc.V
	}
	cell, ok := v.(*Value)
	if !ok {
		vm.nilDeref()
	}
	p, ok := (*cell).(*rePat)
	if !ok {
		panic(unsupported{"regexp not compiled by MustCompile"})
	}
	st := &reState{p: p, caps: caps, prev: -1}
	return st.settle(nil)
}

// reAfter starts a match after the given byte.
func (vm *VM) reAfter(st *reState, b *smt.Term) *reState {
	if !st.p.look {
		return st
	}
	n := *st
	switch {
	case b.IsConst():
		n.prev = int(b.K)
	default:
		other := smt.FullSet.AndNot(wordBytes).AndNot(lineEnd)
		n.prev = []int{'a', '\n', ' '}[vm.decide([]*smt.Term{vm.inSet(b, wordBytes), vm.inSet(b, lineEnd), vm.inSet(b, other)})]
	}
	return &n
}

// settle adds the thread starting here and cuts at a match.
func (st *reState) settle(th []reThread) *reState { return st.resolve(th, true, 0, false) }

// ahead resolves assertions given the byte that follows, or -1 at the end.
func (st *reState) ahead(b int) *reState {
	if !st.p.look {
		return st
	}
	n := st.resolve(st.th, false, syntax.EmptyOpContext(rune(st.prev), rune(b)), true)
	n.prev = st.prev
	return n
}

func (st *reState) resolve(th []reThread, start bool, flags syntax.EmptyOp, known bool) *reState {
	seen := map[uint32]bool{}
	n := &reState{p: st.p, caps: st.caps, pos: st.pos, match: st.match, prev: st.prev}
	done := false
	var add func(pc uint32, cap []int)
	add = func(pc uint32, cap []int) {
		if done || seen[pc] {
			return
		}
		seen[pc] = true
		in := &st.p.prog.Inst[pc]
		switch in.Op {
		case syntax.InstFail:
		case syntax.InstAlt, syntax.InstAltMatch:
			add(in.Out, cap)
			add(in.Arg, cap)
		case syntax.InstNop:
			add(in.Out, cap)
		case syntax.InstCapture:
			if int(in.Arg) < len(cap) {
				c2 := append([]int(nil), cap...)
				c2[in.Arg] = st.pos
				cap = c2
			}
			add(in.Out, cap)
		case syntax.InstMatch:
			m := append([]int(nil), cap...)
			m[1] = st.pos
			n.match = m
			done = true
		case syntax.InstEmptyWidth:
			if !known {
				n.th = append(n.th, reThread{pc, cap})
			} else if flags&syntax.EmptyOp(in.Arg) == syntax.EmptyOp(in.Arg) {
				add(in.Out, cap)
			}
		default:
			n.th = append(n.th, reThread{pc, cap})
		}
	}
	for _, t := range th {
		add(t.pc, t.cap)
	}
	if start && st.match == nil && !done {
		c := make([]int, 2)
		if st.caps {
			c = make([]int, st.p.ncap)
		}
		for i := range c {
			c[i] = -1
		}
		c[0] = st.pos
		add(uint32(st.p.prog.Start), c)
	}
	return n
}

func (st *reState) dead() bool { return st.match != nil && len(st.th) == 0 }

func (st *reState) next(b int) *reState {
	st = st.ahead(b)
	var th []reThread
	for _, t := range st.th {
		if st.p.sets[t.pc].Has(b) {
			th = append(th, reThread{st.p.prog.Inst[t.pc].Out, t.cap})
		}
	}
	n := &reState{p: st.p, caps: st.caps, pos: st.pos + 1, match: st.match, prev: b}
	return n.settle(th)
}

func (st *reState) key() string {
	var sb strings.Builder
	fmt.Fprint(&sb, st.pos, st.match)
	if st.p.look {
		fmt.Fprint(&sb, st.prev < 0, st.prev >= 0 && wordBytes.Has(st.prev), st.prev == '\n')
	}
	for _, t := range st.th {
		fmt.Fprint(&sb, ";", t.pc, t.cap)
	}
	return sb.String()
}

func (vm *VM) reStep(st *reState, b *smt.Term) Value {
	if b.IsConst() {
		return st.next(int(b.K))
	}
	// split the byte space by the live threads' classes
	classes := []smt.Set{smt.FullSet}
	var by []smt.Set
	if st.p.look {
		by = []smt.Set{wordBytes, lineEnd}
		for i := range st.p.sets {
			by = append(by, st.p.sets[i])
		}
	} else {
		for _, t := range st.th {
			by = append(by, st.p.sets[t.pc])
		}
	}
	for _, s := range by {
		var nc []smt.Set
		for _, c := range classes {
			if x := c.And(s); !x.Empty() {
				nc = append(nc, x)
			}
			if x := c.AndNot(s); !x.Empty() {
				nc = append(nc, x)
			}
		}
		classes = nc
	}
	var nexts []*reState
	var sets []smt.Set
	idx := map[string]int{}
	for _, c := range classes {
		n := st.next(c.First())
		k := n.key()
		if i, ok := idx[k]; ok {
			for w := range sets[i] {
				sets[i][w] |= c[w]
			}
			continue
		}
		idx[k] = len(nexts)
		nexts = append(nexts, n)
		sets = append(sets, c)
	}
	if len(nexts) == 1 {
		return nexts[0]
	}
	alts := make([]*smt.Term, len(nexts))
	for i := range nexts {
		alts[i] = vm.inSet(b, sets[i])
	}
	return nexts[vm.decide(alts)]
}
