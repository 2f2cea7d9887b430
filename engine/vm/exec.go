package vm

import (
	"fmt"
	"go/token"
	"go/types"
	"math"
	"unicode/utf8"

	"golang.org/x/tools/go/ssa"
	"verif/engine/smt"
)

type panicRec struct {
	val       Value
	recovered bool
}

type deferred struct {
	fn   Value // *Closure
	args []Value
}

type Frame struct {
	f        *Func
	blk      *Block
	pc       int
	prev     int
	regs     []Value
	defers   []deferred
	epoch    uint32
	isDefer  bool      // called by RunDefers or by a panicking frame
	panic    *panicRec // this frame is being unwound
	dropRes  bool      // result not wanted
	resDst   int32     // register in caller (caller's current instruction) or -1
	stepCall bool      // on return do not advance the caller
}

type undoEnt struct {
	p   *Value
	old Value
	f   func()
}

func (vm *VM) top() *Frame {
	n := len(vm.stack) - 1
	fr := vm.stack[n]
	if fr.epoch != vm.epoch {
		fr = fr.clone()
		fr.epoch = vm.epoch
		vm.stack[n] = fr
	}
	return fr
}

func (fr *Frame) clone() *Frame {
	g := new(Frame)
	*g = *fr
	g.regs = append([]Value(nil), fr.regs...)
	g.defers = append([]deferred(nil), fr.defers...)
	return g
}

func (fr *Frame) get(o *Opnd) Value {
	if o.k >= 0 {
		return fr.regs[o.k]
	}
	return o.v
}

func (vm *VM) setCell(p *Value, v Value) {
	vm.undo = append(vm.undo, undoEnt{p: p, old: *p})
	*p = v
}

func (vm *VM) onUndo(f func()) { vm.undo = append(vm.undo, undoEnt{f: f}) }

func (vm *VM) rollback(mark int) {
	for i := len(vm.undo) - 1; i >= mark; i-- {
		e := &vm.undo[i]
		if e.f != nil {
			e.f()
		} else {
			*e.p = e.old
		}
		*e = undoEnt{}
	}
	vm.undo = vm.undo[:mark]
}

// store writes v into the cell, keeping interior cells of structs and arrays in place.
func (vm *VM) store(p *Value, v Value) {
	switch old := (*p).(type) {
	case *StructV:
		nv, _ := v.(*StructV)
		for i := range old.f {
			if nv == nil {
				vm.store(&old.f[i], vm.blank(old.f[i]))
			} else {
				vm.store(&old.f[i], nv.f[i])
			}
		}
		return
	case *Backing:
		nv, _ := v.(*Backing)
		for i := range old.c {
			if nv == nil {
				vm.store(&old.c[i], vm.blank(old.c[i]))
			} else {
				vm.store(&old.c[i], nv.c[i])
			}
		}
		return
	}
	vm.setCell(p, copyVal(v))
}
func (vm *VM) blank(v Value) Value { return nil }

// specAbort leaves speculative evaluation.
type specAbort struct{}

// goPanicSig unwinds the Go stack of an instruction that panics.
type goPanicSig struct{ val Value }

// goPanic raises a run-time panic in the interpreted program.
func (vm *VM) goPanic(msg string) {
	if vm.spec > 0 {
		panic(specAbort{})
	}
	panic(goPanicSig{&Iface{T: vm.rtErr, V: mkStr(msg)}})
}

func (vm *VM) nilDeref() {
	vm.goPanic("runtime error: invalid memory address or nil pointer dereference")
}

func (vm *VM) load(p Value, zero Value) Value {
	switch x := p.(type) {
	case *Value:
		v := *x
		if v == nil {
			return zero
		}
		return copyVal(v)
	case *SymElem:
		return vm.loadSym(x)
	case nil:
		vm.nilDeref()
	}
	panic(unsupported{fmt.Sprintf("load through %T", p)})
}

func (vm *VM) loadSym(x *SymElem) Value {
	c := vm.c
	n := len(x.cells)
	if x.str != nil {
		n = x.str.Len()
	}
	at := func(i int) *smt.Term {
		if x.str != nil {
			return x.str.At(c, i)
		}
		if t, ok := x.cells[i].(*smt.Term); ok {
			return t
		}
		return x.zero.(*smt.Term)
	}
	lo, hi := c.URange(x.idx)
	if hi >= uint64(n) {
		hi = uint64(n) - 1
	}
	if lo > hi {
		lo = hi
	}
	if hi-lo > 4096 {
		panic(unsupported{"symbolic index over a large range"})
	}
	first := at(int(lo))
	if first.W != smt.WFloat && first.W != 0 {
		vals := make([]uint64, 0, hi+1)
		ok := true
		for i := uint64(0); i <= hi; i++ {
			if i < lo {
				vals = append(vals, 0)
				continue
			}
			t := at(int(i))
			if !t.IsConst() {
				ok = false
				break
			}
			vals = append(vals, t.K)
		}
		if ok {
			for i := uint64(0); i < lo; i++ {
				vals[i] = vals[lo]
			}
			return c.Lookup(c.MkTable(first.W, vals), x.idx)
		}
	}
	r := at(int(hi))
	for i := int(hi) - 1; i >= int(lo); i-- {
		r = c.Ite(c.Eq(x.idx, c.BV(x.idx.W, uint64(i))), at(i), r)
	}
	return r
}

func (vm *VM) truth(v Value) *smt.Term { return v.(*smt.Term) }

// ctl says how the instruction ended.
const (
	ctlNext = iota
	ctlJumped
)

func (vm *VM) jump(fr *Frame, to *Block) {
	fr.prev = fr.blk.idx
	fr.blk = to
	fr.pc = to.nphi
	if to.nphi > 0 {
		e := -1
		for i, p := range to.preds {
			if p == fr.prev {
				e = i
				break
			}
		}
		vm.phis(fr, to, e)
	}
	to.fn.blkHit[to.idx] = true
}

func (vm *VM) phis(fr *Frame, to *Block, e int) {
	if to.nphi == 1 {
		fr.regs[to.ins[0].dst] = fr.get(&to.ins[0].args[e])
		return
	}
	var buf [16]Value
	tmp := buf[:0]
	for i := 0; i < to.nphi; i++ {
		tmp = append(tmp, fr.get(&to.ins[i].args[e]))
	}
	for i := 0; i < to.nphi; i++ {
		fr.regs[to.ins[i].dst] = tmp[i]
	}
}

// jumpEdge enters to with explicit phi values.
func (vm *VM) jumpVals(fr *Frame, to *Block, vals []Value) {
	fr.blk = to
	fr.pc = to.nphi
	for i := 0; i < to.nphi; i++ {
		fr.regs[to.ins[i].dst] = vals[i]
	}
	to.fn.blkHit[to.idx] = true
}

func (vm *VM) pushFrame(f *Func, args []Value, env []Value, resDst int32) *Frame {
	if !f.built {
		vm.build(f)
	}
	if len(vm.stack) >= vm.lim.Depth {
		panic(pathEnd{kind: EndDepth, msg: "call depth limit in " + f.name})
	}
	f.hits++
	fr := &Frame{f: f, blk: f.blocks[0], regs: make([]Value, f.nreg), epoch: vm.epoch, resDst: resDst, prev: -1}
	copy(fr.regs, args)
	copy(fr.regs[f.nparam:], env)
	f.blkHit[0] = true
	vm.stack = append(vm.stack, fr)
	return fr
}

// call invokes a function value from the current frame's instruction.
func (vm *VM) call(fr *Frame, in *Inst, fv Value, args []Value, dst int32) {
	cl, ok := fv.(*Closure)
	if !ok {
		vm.nilDeref()
	}
	if cl.blt != "" {
		r := vm.builtin(fr, in, cl.blt, args)
		if dst >= 0 {
			fr.regs[dst] = r
		}
		fr.pc++
		return
	}
	vm.callFunc(fr, cl.fn, args, cl.env, dst)
}

func (vm *VM) callFunc(fr *Frame, f *Func, args []Value, env []Value, dst int32) {
	if f.intr != nil {
		f.hits++
		r, pushed := f.intr(vm, fr, args)
		if pushed {
			vm.stack[len(vm.stack)-1].resDst = dst
			return
		}
		if dst >= 0 {
			fr.regs[dst] = r
		}
		fr.pc++
		return
	}
	if f.summ >= 0 && vm.anySym(args) && vm.summarisable(f) {
		if r, ok := vm.summarise(f, args); ok {
			f.hits++
			if dst >= 0 {
				fr.regs[dst] = r
			}
			fr.pc++
			return
		}
	}
	vm.pushFrame(f, args, env, dst)
}

func (vm *VM) anySym(args []Value) bool {
	for _, a := range args {
		switch x := a.(type) {
		case *smt.Term:
			if !x.IsConst() {
				return true
			}
		case *Str:
			if x.b != nil {
				return true
			}
		}
	}
	return false
}

// ret returns from the top frame.
func (vm *VM) ret(res Value) {
	n := len(vm.stack) - 1
	fr := vm.stack[n]
	vm.stack[n] = nil
	vm.stack = vm.stack[:n]
	if n == 0 {
		panic(pathEnd{kind: EndOK})
	}
	caller := vm.top()
	if fr.isDefer {
		if caller.panic != nil {
			vm.unwind()
		}
		return // RunDefers is executed again
	}
	if fr.resDst >= 0 {
		caller.regs[fr.resDst] = res
	}
	if !fr.stepCall {
		caller.pc++
	}
}

// startPanic begins unwinding with value v raised in the top frame.
func (vm *VM) startPanic(v Value) {
	fr := vm.top()
	fr.panic = &panicRec{val: v}
	vm.unwind()
}

// unwind continues unwinding the top frame, which has a panic record.
func (vm *VM) unwind() {
	for {
		fr := vm.top()
		if fr.panic.recovered {
			if len(fr.defers) > 0 { // remaining deferred calls run on the normal exit path
				vm.runDefer(fr)
				return
			}
			fr.panic = nil
			if fr.f.rec != nil {
				vm.jump(fr, fr.f.rec)
				return
			}
			res := fr.f.fn.Signature.Results()
			var r Value
			switch res.Len() {
			case 0:
			case 1:
				r = vm.zero(res.At(0).Type())
			default:
				r = vm.zero(res)
			}
			vm.ret(r)
			return
		}
		if len(fr.defers) > 0 {
			vm.runDefer(fr)
			return
		}
		rec := fr.panic
		n := len(vm.stack) - 1
		if n == 0 {
			panic(pathEnd{kind: EndPanic, msg: vm.panicString(rec.val)})
		}
		vm.lastPanicAt = append(vm.lastPanicAt, fr.f.name)
		vm.stack[n] = nil
		vm.stack = vm.stack[:n]
		caller := vm.top()
		caller.panic = rec
	}
}

func (vm *VM) runDefer(fr *Frame) {
	d := fr.defers[len(fr.defers)-1]
	fr.defers = fr.defers[:len(fr.defers)-1]
	cl, ok := d.fn.(*Closure)
	if !ok {
		vm.nilDeref()
	}
	if cl.blt != "" {
		vm.builtin(fr, nil, cl.blt, d.args)
		if fr.panic != nil {
			vm.unwind()
		}
		return
	}
	if cl.fn.intr != nil {
		_, pushed := cl.fn.intr(vm, fr, d.args)
		if pushed {
			vm.stack[len(vm.stack)-1].isDefer = true
			return
		}
		if fr.panic != nil {
			vm.unwind()
		}
		return
	}
	nf := vm.pushFrame(cl.fn, d.args, cl.env, -1)
	nf.isDefer = true
}

func (vm *VM) panicString(v Value) string {
	switch x := v.(type) {
	case *Iface:
		switch y := x.V.(type) {
		case *Str:
			return y.show(vm)
		}
		return x.T.String()
	case nil:
		return "nil"
	}
	return fmt.Sprintf("%T", v)
}

func (s *Str) show(vm *VM) string {
	if s.b == nil {
		return s.s
	}
	r := ""
	for _, t := range s.b {
		if t.IsConst() {
			r += string(rune(t.K))
		} else {
			r += "?"
		}
	}
	return r
}

// concInt makes an integer concrete, forking if needed.
func (vm *VM) concInt(v Value, signed bool) int64 {
	t := v.(*smt.Term)
	if t.IsConst() {
		if signed {
			return t.Int64()
		}
		return int64(t.K)
	}
	k := vm.concretise(t)
	if signed {
		return vm.c.BV(t.W, k).Int64()
	}
	return int64(k)
}

// index resolves an index against length n: a constant in range, or a symbolic 64-bit term in range.
func (vm *VM) index(v Value, signed bool, n int) (int, *smt.Term) {
	t := v.(*smt.Term)
	if t.IsConst() {
		i := int64(t.K)
		if signed {
			i = t.Int64()
		}
		if i < 0 || i >= int64(n) {
			vm.goPanic(fmt.Sprintf("runtime error: index out of range [%d] with length %d", i, n))
		}
		return int(i), nil
	}
	x := vm.c.Resize(t, 64, signed)
	in := vm.c.Ult(x, vm.c.Int(int64(n)))
	if !vm.branch(in) {
		vm.goPanic(fmt.Sprintf("runtime error: index out of range with length %d", n))
	}
	lo, hi := vm.c.URange(x)
	if lo == hi {
		return int(lo), nil
	}
	return 0, x
}

func (vm *VM) binop(in *Inst, a, b Value) Value {
	c := vm.c
	if !in.flag {
		return vm.binopOther(in, a, b)
	}
	x, ok1 := a.(*smt.Term)
	y, ok2 := b.(*smt.Term)
	if !ok1 || !ok2 {
		panic(unsupported{fmt.Sprintf("binop %s on %T %T at %s", in.tok, a, b, vm.where())})
	}
	if in.w == smt.WFloat {
		var r *smt.Term
		switch in.tok {
		case token.ADD:
			r = c.FBin(smt.OpFAdd, x, y)
		case token.SUB:
			r = c.FBin(smt.OpFSub, x, y)
		case token.MUL:
			r = c.FBin(smt.OpFMul, x, y)
		case token.QUO:
			r = c.FBin(smt.OpFDiv, x, y)
		case token.EQL:
			return c.FCmp(smt.OpFEq, x, y)
		case token.NEQ:
			return c.Not(c.FCmp(smt.OpFEq, x, y))
		case token.LSS:
			return c.FCmp(smt.OpFLt, x, y)
		case token.LEQ:
			return c.FCmp(smt.OpFLe, x, y)
		case token.GTR:
			return c.FCmp(smt.OpFLt, y, x)
		case token.GEQ:
			return c.FCmp(smt.OpFLe, y, x)
		default:
			panic(unsupported{"float op " + in.tok.String()})
		}
		if in.n == 32 {
			if !r.IsConst() {
				panic(unsupported{"symbolic float32"})
			}
			r = c.Float(float64(float32(r.Float64())))
		}
		return r
	}
	if in.w == 0 {
		switch in.tok {
		case token.EQL:
			return c.Eq(x, y)
		case token.NEQ:
			return c.Not(c.Eq(x, y))
		case token.AND, token.LAND:
			return c.And(x, y)
		case token.OR, token.LOR:
			return c.Or(x, y)
		}
		panic(unsupported{"bool op " + in.tok.String()})
	}
	switch in.tok {
	case token.ADD:
		return c.Bin(smt.OpAdd, x, y)
	case token.SUB:
		return c.Bin(smt.OpSub, x, y)
	case token.MUL:
		return c.Bin(smt.OpMul, x, y)
	case token.QUO, token.REM:
		if y.IsConst() {
			if y.K == 0 {
				vm.goPanic("runtime error: integer divide by zero")
			}
		} else if vm.branch(c.Eq(y, c.BV(in.w, 0))) {
			vm.goPanic("runtime error: integer divide by zero")
		}
		op := smt.OpUDiv
		if in.signed {
			op = smt.OpSDiv
		}
		if in.tok == token.REM {
			op = smt.OpURem
			if in.signed {
				op = smt.OpSRem
			}
		}
		return c.Bin(op, x, y)
	case token.AND:
		return c.Bin(smt.OpBAnd, x, y)
	case token.OR:
		return c.Bin(smt.OpBOr, x, y)
	case token.XOR:
		return c.Bin(smt.OpBXor, x, y)
	case token.AND_NOT:
		return c.Bin(smt.OpBAnd, x, c.BNot(y))
	case token.SHL, token.SHR:
		bi := basicOf(in.typ2)
		if bi.signed {
			if y.IsConst() {
				if y.Int64() < 0 {
					vm.goPanic("runtime error: negative shift amount")
				}
			} else if vm.branch(c.Slt(y, c.BV(y.W, 0))) {
				vm.goPanic("runtime error: negative shift amount")
			}
		}
		op := smt.OpShl
		if in.tok == token.SHR {
			op = smt.OpLShr
			if in.signed {
				op = smt.OpAShr
			}
		}
		// bring the count to the operand's width, saturating
		w := in.w
		if y.W < w {
			y = c.ZExt(y, w)
		} else if y.W > w {
			big := c.Ule(c.BV(y.W, uint64(w)), y)
			y = c.Ite(big, c.BV(w, uint64(w)), c.Extract(y, 0, w))
		}
		return c.Bin(op, x, y)
	case token.EQL:
		return c.Eq(x, y)
	case token.NEQ:
		return c.Not(c.Eq(x, y))
	}
	lt, le := c.Ult, c.Ule
	if in.signed {
		lt, le = c.Slt, c.Sle
	}
	switch in.tok {
	case token.LSS:
		return lt(x, y)
	case token.LEQ:
		return le(x, y)
	case token.GTR:
		return lt(y, x)
	case token.GEQ:
		return le(y, x)
	}
	panic(unsupported{"int op " + in.tok.String()})
}

func (vm *VM) binopOther(in *Inst, a, b Value) Value {
	c := vm.c
	switch in.tok {
	case token.EQL, token.NEQ:
		var r *smt.Term
		if _, ok := in.typ.Underlying().(*types.Interface); ok {
			// interface against concrete value cannot occur in SSA; both are interfaces
			r = vm.eq(a, b)
		} else {
			r = vm.eq(a, b)
		}
		if in.tok == token.NEQ {
			r = c.Not(r)
		}
		return r
	}
	x, ok1 := a.(*Str)
	y, ok2 := b.(*Str)
	if !ok1 || !ok2 {
		panic(unsupported{fmt.Sprintf("binop %s on %T %T", in.tok, a, b)})
	}
	switch in.tok {
	case token.ADD:
		if x.Len() == 0 {
			return y
		}
		if y.Len() == 0 {
			return x
		}
		if x.b == nil && y.b == nil {
			return mkStr(x.s + y.s)
		}
		return &Str{b: append(append(make([]*smt.Term, 0, x.Len()+y.Len()), x.Terms(c)...), y.Terms(c)...)}
	case token.LSS:
		return vm.strLess(x, y)
	case token.GTR:
		return vm.strLess(y, x)
	case token.LEQ:
		return c.Not(vm.strLess(y, x))
	case token.GEQ:
		return c.Not(vm.strLess(x, y))
	}
	panic(unsupported{"string op " + in.tok.String()})
}

func (vm *VM) where() string {
	if len(vm.stack) == 0 {
		return "?"
	}
	fr := vm.stack[len(vm.stack)-1]
	s := fr.f.name
	if fr.pc < len(fr.blk.ins) {
		s += " " + vm.P.Prog.Fset.Position(fr.blk.ins[fr.pc].ins.Pos()).String()
	}
	return s
}

func (vm *VM) convert(in *Inst, v Value) Value {
	c := vm.c
	from, to := in.typ2.Underlying(), in.typ.Underlying()
	fb, tb := basicOf(from), basicOf(to)
	if fb.ok && tb.ok {
		x := v.(*smt.Term)
		switch {
		case fb.w == smt.WFloat && tb.w == smt.WFloat:
			if tb.f32 && !fb.f32 {
				if !x.IsConst() {
					panic(unsupported{"symbolic float32"})
				}
				return c.Float(float64(float32(x.Float64())))
			}
			return x
		case fb.w == smt.WFloat:
			if !tb.signed && tb.w == 64 {
				if x.IsConst() {
					return c.BV(64, uint64(x.Float64()))
				}
				r := c.FtoS(x)
				return r
			}
			return c.Resize(c.FtoS(x), tb.w, true)
		case tb.w == smt.WFloat:
			var r *smt.Term
			if fb.signed {
				r = c.FofS(x)
			} else {
				r = c.FofU(x)
			}
			if tb.f32 {
				if !r.IsConst() {
					panic(unsupported{"symbolic float32"})
				}
				r = c.Float(float64(float32(r.Float64())))
			}
			return r
		}
		return c.Resize(x, tb.w, fb.signed)
	}
	if tbs, ok := to.(*types.Basic); ok && tbs.Info()&types.IsString != 0 {
		switch u := from.(type) {
		case *types.Basic:
			if u.Info()&types.IsString != 0 {
				return v
			}
			if u.Info()&types.IsInteger != 0 {
				x := v.(*smt.Term)
				if !x.IsConst() && vm.branch(c.Ult(x, c.BV(x.W, 0x80))) {
					return strOf([]*smt.Term{c.Resize(x, 8, false)})
				}
				k := vm.concInt(v, fb.signed)
				if k < 0 || k > math.MaxInt32 {
					k = utf8.RuneError
				}
				return mkStr(string(rune(k)))
			}
		case *types.Slice:
			s, _ := v.(*Slice)
			if s == nil || s.n == 0 {
				return emptyStr
			}
			if basicOf(u.Elem()).w == 8 {
				return strOf(vm.sliceBytes(s))
			}
			// []rune
			var out []*smt.Term
			for i := 0; i < s.n; i++ {
				t, ok := s.bk.c[s.off+i].(*smt.Term)
				if !ok {
					t = c.BV(32, 0)
				}
				if !t.IsConst() && vm.branch(c.Ult(t, c.BV(32, 0x80))) {
					out = append(out, c.Resize(t, 8, false))
					continue
				}
				k := vm.concInt(t, true)
				for _, b := range []byte(string(rune(k))) {
					out = append(out, c.BV(8, uint64(b)))
				}
			}
			return strOf(out)
		}
	}
	if sl, ok := to.(*types.Slice); ok {
		if s, ok := v.(*Str); ok {
			if basicOf(sl.Elem()).w == 8 {
				n := s.Len()
				bk := &Backing{make([]Value, roundupsize(n, true))}
				for i := 0; i < n; i++ {
					bk.c[i] = s.At(c, i)
				}
				return &Slice{bk, 0, n, len(bk.c)}
			}
			var rs []Value
			for i := 0; i < s.Len(); {
				r, n := vm.decodeRune(s, i)
				rs = append(rs, r)
				i += n
			}
			return &Slice{&Backing{rs}, 0, len(rs), len(rs)}
		}
	}
	if _, ok := to.(*types.Basic); ok { // unsafe.Pointer
		if _, ok := from.(*types.Pointer); ok {
			return v
		}
		if fbs, ok := from.(*types.Basic); ok && fbs.Kind() == types.UnsafePointer {
			if tb.ok {
				panic(unsupported{"pointer to integer"})
			}
			return v
		}
	}
	if _, ok := to.(*types.Pointer); ok {
		return v
	}
	panic(unsupported{fmt.Sprintf("convert %s -> %s at %s", in.typ2, in.typ, vm.where())})
}

// decodeRune decodes the UTF-8 sequence of s at i.
func (vm *VM) decodeRune(s *Str, i int) (*smt.Term, int) {
	c := vm.c
	b := s.At(c, i)
	if !b.IsConst() {
		if vm.branch(c.Ult(b, c.BV(8, 0x80))) {
			return c.ZExt(b, 32), 1
		}
	} else if b.K < 0x80 {
		return c.BV(32, b.K), 1
	}
	var buf []byte
	for j := i; j < s.Len() && j < i+4; j++ {
		buf = append(buf, byte(vm.concretise(s.At(c, j))))
		if utf8.FullRune(buf) {
			break
		}
	}
	r, n := utf8.DecodeRune(buf)
	return c.BV(32, uint64(r)), n
}

func (vm *VM) step(fr *Frame, in *Inst) {
	c := vm.c
	switch in.op {
	case opBinOp:
		fr.regs[in.dst] = vm.binop(in, fr.get(&in.a), fr.get(&in.b))
	case opLoad:
		fr.regs[in.dst] = vm.load(fr.get(&in.a), in.zero)
	case opStore:
		p := fr.get(&in.a)
		cell, ok := p.(*Value)
		if !ok {
			if p == nil {
				vm.nilDeref()
			}
			panic(unsupported{fmt.Sprintf("store through %T", p)})
		}
		vm.store(cell, fr.get(&in.b))
	case opFieldAddr:
		fr.regs[in.dst] = vm.fieldAddr(fr.get(&in.a), in)
	case opIndexAddr:
		fr.regs[in.dst] = vm.indexAddr(fr, in)
	case opJump:
		vm.jump(fr, fr.blk.succs[0])
		return
	case opIf:
		t := fr.get(&in.a).(*smt.Term)
		if t.IsConst() {
			if t.K != 0 {
				vm.jump(fr, fr.blk.succs[0])
			} else {
				vm.jump(fr, fr.blk.succs[1])
			}
			return
		}
		vm.symIf(fr, t)
		return
	case opCall:
		var args []Value
		if in.call.IsInvoke() {
			recv := fr.get(&in.a)
			ifc, ok := recv.(*Iface)
			if !ok {
				vm.nilDeref()
			}
			f := vm.method(ifc.T, in.call.Method)
			args = make([]Value, len(in.args)+1)
			args[0] = ifc.V
			for i := range in.args {
				args[i+1] = fr.get(&in.args[i])
			}
			vm.callFunc(fr, f, args, nil, in.dst)
			return
		}
		args = make([]Value, len(in.args))
		for i := range in.args {
			args[i] = fr.get(&in.args[i])
		}
		if in.callee != nil {
			vm.callFunc(fr, in.callee, args, nil, in.dst)
			return
		}
		vm.call(fr, in, fr.get(&in.a), args, in.dst)
		return
	case opReturn:
		var r Value
		switch len(in.args) {
		case 0:
		case 1:
			r = fr.get(&in.args[0])
		default:
			tp := make(Tuple, len(in.args))
			for i := range in.args {
				tp[i] = fr.get(&in.args[i])
			}
			r = tp
		}
		vm.ret(r)
		return
	case opPhi:
		panic(unsupported{"phi out of place"})
	case opExtract:
		fr.regs[in.dst] = fr.get(&in.a).(Tuple)[in.n]
	case opAlloc:
		fr.regs[in.dst] = new(Value)
	case opConvert:
		fr.regs[in.dst] = vm.convert(in, fr.get(&in.a))
	case opChangeType, opChangeInterface:
		fr.regs[in.dst] = fr.get(&in.a)
	case opNot:
		fr.regs[in.dst] = c.Not(fr.get(&in.a).(*smt.Term))
	case opNeg:
		x := fr.get(&in.a).(*smt.Term)
		if x.W == smt.WFloat {
			fr.regs[in.dst] = c.FNeg(x)
		} else {
			fr.regs[in.dst] = c.Bin(smt.OpSub, c.BV(x.W, 0), x)
		}
	case opCompl:
		fr.regs[in.dst] = c.BNot(fr.get(&in.a).(*smt.Term))
	case opField:
		s, _ := fr.get(&in.a).(*StructV)
		if s == nil || s.f[in.n] == nil {
			fr.regs[in.dst] = in.zero
		} else {
			fr.regs[in.dst] = s.f[in.n]
		}
	case opIndex:
		fr.regs[in.dst] = vm.indexVal(fr, in)
	case opLookup:
		vm.lookup(fr, in)
	case opMakeClosure:
		env := make([]Value, len(in.args))
		for i := range in.args {
			env[i] = fr.get(&in.args[i])
		}
		fr.regs[in.dst] = &Closure{fn: in.callee, env: env}
	case opMakeInterface:
		v := fr.get(&in.a)
		if v == nil {
			v = in.zero
		}
		fr.regs[in.dst] = &Iface{T: in.typ, V: v}
	case opMakeMap:
		fr.regs[in.dst] = &MapV{idx: map[string]*mapEnt{}, kt: in.typ}
	case opMakeSlice:
		n := vm.sizeArg(fr.get(&in.a), in, "len")
		m := n
		if in.a != in.b {
			m = vm.sizeArg(fr.get(&in.b), in, "cap")
			if m < n {
				vm.goPanic("runtime error: makeslice: cap out of range")
			}
		}
		fr.regs[in.dst] = &Slice{&Backing{make([]Value, m)}, 0, n, m}
	case opMapUpdate:
		m, _ := fr.get(&in.a).(*MapV)
		if m == nil {
			vm.goPanic("assignment to entry in nil map")
		}
		vm.mapSet(m, fr.get(&in.b), fr.get(&in.args[0]))
	case opNext:
		fr.regs[in.dst] = vm.next(fr, in)
	case opPanic:
		panic(goPanicSig{fr.get(&in.a)})
	case opRange:
		v := fr.get(&in.a)
		if in.flag {
			fr.regs[in.dst] = &StrIter{s: v.(*Str), pos: c.Int(0)}
		} else {
			it := &MapIter{any: vm.ps.mapAny, pos: c.Int(0)}
			if m, _ := v.(*MapV); m != nil {
				it.m = m
				it.todo = sortedEnts(m)
			}
			fr.regs[in.dst] = it
		}
	case opRunDefers:
		if len(fr.defers) > 0 {
			vm.runDefer(fr)
			return
		}
	case opDefer:
		d := deferred{}
		if in.call.IsInvoke() {
			ifc, ok := fr.get(&in.a).(*Iface)
			if !ok {
				vm.nilDeref()
			}
			d.fn = &Closure{fn: vm.method(ifc.T, in.call.Method)}
			d.args = append(d.args, ifc.V)
		} else if in.callee != nil {
			d.fn = &Closure{fn: in.callee}
		} else {
			d.fn = fr.get(&in.a)
		}
		for i := range in.args {
			d.args = append(d.args, fr.get(&in.args[i]))
		}
		fr.defers = append(fr.defers, d)
	case opSlice:
		fr.regs[in.dst] = vm.slice(fr, in)
	case opSliceToArrayPointer:
		s, _ := fr.get(&in.a).(*Slice)
		n := 0
		if s != nil {
			n = s.n
		}
		if n < int(in.n) {
			vm.goPanic(fmt.Sprintf("runtime error: cannot convert slice with length %d to array or pointer to array with length %d", n, in.n))
		}
		if s == nil {
			fr.regs[in.dst] = nil
			break
		}
		p := new(Value)
		*p = &Backing{s.bk.c[s.off : s.off+int(in.n) : s.off+int(in.n)]}
		fr.regs[in.dst] = p
	case opTypeAssert:
		fr.regs[in.dst] = vm.typeAssert(in, fr.get(&in.a))
	case opGo:
		panic(unsupported{"go statement"})
	default:
		panic(unsupported{fmt.Sprintf("instruction %T: %s in %s", in.ins, in.ins, fr.f.name)})
	}
	fr.pc++
}

func (vm *VM) sizeArg(v Value, in *Inst, what string) int {
	c := vm.c
	t := v.(*smt.Term)
	x := c.Resize(t, 64, true)
	es := int64(max(in.n, 1))
	limit := int64(1<<47) / es
	if !x.IsConst() {
		bad := c.Or(c.Slt(x, c.Int(0)), c.Slt(c.Int(limit), x))
		if vm.branch(bad) {
			vm.goPanic("runtime error: makeslice: " + what + " out of range")
		}
		if vm.branch(c.Slt(c.Int(vm.lim.Alloc/es), x)) {
			panic(pathEnd{kind: EndAlloc, msg: "allocation of symbolic size beyond the limit in " + vm.where()})
		}
		return int(vm.concInt(x, true))
	}
	n := x.Int64()
	if n < 0 || n > limit {
		vm.goPanic("runtime error: makeslice: " + what + " out of range")
	}
	if n*es > vm.lim.Alloc {
		panic(pathEnd{kind: EndAlloc, msg: fmt.Sprintf("allocation of %d bytes in %s", n*es, vm.where())})
	}
	return int(n)
}

// materialise makes sure a cell of struct or array type holds its container.
func (vm *VM) matStruct(p *Value, t types.Type) *StructV {
	s, ok := (*p).(*StructV)
	if !ok {
		if *p != nil {
			panic(unsupported{fmt.Sprintf("field of %T (%s) at %s", *p, t, vm.where())})
		}
		s = vm.zero(t).(*StructV)
		*p = s
	}
	return s
}

func (vm *VM) matArray(p *Value, t types.Type) *Backing {
	s, ok := (*p).(*Backing)
	if !ok {
		if *p != nil {
			panic(unsupported{fmt.Sprintf("element of %T at %s", *p, vm.where())})
		}
		s = vm.zero(t).(*Backing)
		*p = s
	}
	return s
}

func (vm *VM) fieldAddr(p Value, in *Inst) Value {
	cell, ok := p.(*Value)
	if !ok {
		if p == nil {
			vm.nilDeref()
		}
		panic(unsupported{fmt.Sprintf("field address of %T at %s", p, vm.where())})
	}
	return &vm.matStruct(cell, in.typ).f[in.n]
}

func (vm *VM) indexAddr(fr *Frame, in *Inst) Value {
	var cells []Value
	switch u := in.typ.Underlying().(type) {
	case *types.Slice:
		s, _ := fr.get(&in.a).(*Slice)
		if s != nil {
			cells = s.bk.c[s.off : s.off+s.n]
		}
	case *types.Pointer:
		cell, ok := fr.get(&in.a).(*Value)
		if !ok {
			vm.nilDeref()
		}
		cells = vm.matArray(cell, u.Elem()).c
	default:
		panic(unsupported{"IndexAddr of " + in.typ.String()})
	}
	i, sym := vm.index(fr.get(&in.b), in.signed, len(cells))
	if sym != nil {
		if in.flag {
			lo, hi := vm.c.URange(sym)
			if hi >= uint64(len(cells)) {
				hi = uint64(len(cells)) - 1
			}
			if hi-lo <= 600 {
				return &SymElem{cells: cells, idx: sym, zero: in.zero}
			}
		}
		i = int(vm.concretise(sym))
	}
	return &cells[i]
}

func (vm *VM) indexVal(fr *Frame, in *Inst) Value {
	switch x := fr.get(&in.a).(type) {
	case *Str:
		i, sym := vm.index(fr.get(&in.b), in.signed, x.Len())
		if sym != nil {
			return vm.loadSym(&SymElem{str: x, idx: sym})
		}
		return x.At(vm.c, i)
	case *Backing:
		i, sym := vm.index(fr.get(&in.b), in.signed, len(x.c))
		if sym != nil {
			if _, ok := in.zero.(*smt.Term); ok {
				return vm.loadSym(&SymElem{cells: x.c, idx: sym, zero: in.zero})
			}
			i = int(vm.concretise(sym))
		}
		return vm.nilOr(x.c[i], in.zero)
	}
	panic(unsupported{fmt.Sprintf("index of %T", fr.get(&in.a))})
}

func (vm *VM) lookup(fr *Frame, in *Inst) {
	if in.tok == token.STRING {
		x := fr.get(&in.a).(*Str)
		i, sym := vm.index(fr.get(&in.b), in.signed, x.Len())
		if sym != nil {
			fr.regs[in.dst] = vm.loadSym(&SymElem{str: x, idx: sym})
		} else {
			fr.regs[in.dst] = x.At(vm.c, i)
		}
		return
	}
	m, _ := fr.get(&in.a).(*MapV)
	var e *mapEnt
	if m != nil {
		e = vm.mapFind(m, fr.get(&in.b))
	}
	v := in.zero
	if e != nil && e.val != nil {
		v = e.val
	}
	if in.flag {
		fr.regs[in.dst] = Tuple{v, vm.c.Bool(e != nil)}
	} else {
		fr.regs[in.dst] = v
	}
}

// full is the key with every zero written out, so that equal keys look alike.
func (vm *VM) full(v Value, t types.Type) Value {
	switch x := v.(type) {
	case *Iface:
		switch x.T.Underlying().(type) {
		case *types.Struct, *types.Array:
			return &Iface{T: x.T, V: vm.full(x.V, x.T)}
		}
		return v
	case *StructV:
		u := t.Underlying().(*types.Struct)
		r := &StructV{make([]Value, len(x.f))}
		for i, e := range x.f {
			r.f[i] = vm.full(e, u.Field(i).Type())
		}
		return r
	case *Backing:
		u := t.Underlying().(*types.Array)
		r := &Backing{make([]Value, len(x.c))}
		for i, e := range x.c {
			r.c[i] = vm.full(e, u.Elem())
		}
		return r
	case nil:
		switch t.Underlying().(type) {
		case *types.Basic:
			return vm.zero(t)
		case *types.Struct, *types.Array:
			return vm.full(vm.zero(t), t)
		}
	}
	return v
}

func (vm *VM) mapFind(m *MapV, key Value) *mapEnt {
	if ifc, ok := key.(*Iface); ok {
		switch ifc.T.Underlying().(type) {
		case *types.Slice, *types.Map, *types.Signature:
			vm.goPanic("runtime error: hash of unhashable type " + ifc.T.String())
		}
	}
	key = vm.full(key, m.kt)
	ks, conc := vm.keyStr(key)
	if conc {
		if e := m.idx[ks]; e != nil {
			return e
		}
		if m.nsym == 0 {
			return nil
		}
	}
	var cands []*mapEnt
	var alts []*smt.Term
	none := vm.c.True
	for _, e := range m.ents {
		if e.dead || (conc && e.ks != "") {
			continue
		}
		t := vm.eq(e.key, key)
		if t.IsFalse() || vm.c.Quick(t) == 0 {
			continue
		}
		cands = append(cands, e)
		alts = append(alts, t)
		none = vm.c.And(none, vm.c.Not(t))
	}
	if len(cands) == 0 {
		return nil
	}
	i := vm.decide(append(alts, none))
	if i == len(cands) {
		return nil
	}
	return cands[i]
}

func (vm *VM) mapSet(m *MapV, key, val Value) {
	val = copyVal(val)
	key = vm.full(key, m.kt)
	if e := vm.mapFind(m, key); e != nil {
		old := e.val
		e.val = val
		vm.onUndo(func() { e.val = old })
		return
	}
	ks, conc := vm.keyStr(key)
	if !conc {
		ks = ""
	}
	vm.mapSeq++
	e := &mapEnt{key: key, val: val, ks: ks, seq: vm.mapSeq}
	n := len(m.ents)
	m.ents = append(m.ents, e)
	m.live++
	if conc {
		m.idx[ks] = e
	} else {
		m.nsym++
	}
	vm.onUndo(func() {
		m.ents = m.ents[:n]
		m.live--
		if conc {
			delete(m.idx, ks)
		} else {
			m.nsym--
		}
	})
}

func (vm *VM) mapDelete(m *MapV, key Value) {
	e := vm.mapFind(m, key)
	if e == nil {
		return
	}
	e.dead = true
	m.live--
	if e.ks != "" {
		delete(m.idx, e.ks)
	} else {
		m.nsym--
	}
	vm.onUndo(func() {
		e.dead = false
		m.live++
		if e.ks != "" {
			m.idx[e.ks] = e
		} else {
			m.nsym++
		}
	})
}

func (vm *VM) next(fr *Frame, in *Inst) Value {
	c := vm.c
	z := in.zero.(Tuple)
	switch it := fr.get(&in.a).(type) {
	case *StrIter:
		i := int(it.pos.(*smt.Term).K)
		if i >= it.s.Len() {
			return Tuple{c.False, c.Int(0), c.BV(32, 0)}
		}
		r, n := vm.decodeRune(it.s, i)
		vm.setCell(&it.pos, c.Int(int64(i+n)))
		return Tuple{c.True, c.Int(int64(i)), r}
	case *MapIter:
		var rest []*mapEnt
		done := map[*mapEnt]bool{}
		if p, ok := it.pos.(map2); ok {
			done = p
		}
		for _, e := range it.todo {
			if !e.dead && !done[e] {
				rest = append(rest, e)
			}
		}
		if len(rest) == 0 {
			return Tuple{c.False, z[1], z[2]}
		}
		k := 0
		if it.any && len(rest) > 1 {
			k = vm.choose(len(rest))
		}
		nd := map2{}
		for e := range done {
			nd[e] = true
		}
		nd[rest[k]] = true
		vm.setCell(&it.pos, nd)
		e := rest[k]
		return Tuple{c.True, vm.nilOr(e.key, z[1]), vm.nilOr(e.val, z[2])}
	}
	panic(unsupported{"next"})
}

type map2 = map[*mapEnt]bool

func (vm *VM) bound(v Value, n int) int {
	t := v.(*smt.Term)
	c := vm.c
	if t.IsConst() {
		i := t.Int64()
		if i < 0 || i > int64(n) {
			return -1
		}
		return int(i)
	}
	x := c.Resize(t, 64, true)
	if !vm.branch(c.Ule(x, c.Int(int64(n)))) {
		return -1
	}
	return int(vm.concretise(x))
}

func (vm *VM) slice(fr *Frame, in *Inst) Value {
	x := fr.get(&in.a)
	var bk *Backing
	off, n, capn := 0, 0, 0
	var str *Str
	switch v := x.(type) {
	case *Str:
		str = v
		n, capn = v.Len(), v.Len()
	case *Slice:
		bk, off, n, capn = v.bk, v.off, v.n, v.cap
	case *Value:
		bk = vm.matArray(v, deref(in.typ))
		n, capn = len(bk.c), len(bk.c)
	case nil:
		if _, ok := in.typ.Underlying().(*types.Pointer); ok {
			vm.nilDeref()
		}
	default:
		panic(unsupported{fmt.Sprintf("slice of %T", x)})
	}
	lo, hi, mx := 0, n, capn
	if in.n&4 != 0 {
		mx = vm.bound(fr.get(&in.args[2]), capn)
		if mx < 0 {
			vm.goPanic(fmt.Sprintf("runtime error: slice bounds out of range with capacity %d", capn))
		}
	}
	if in.n&2 != 0 {
		hi = vm.bound(fr.get(&in.args[1]), mx)
		if hi < 0 {
			vm.goPanic(fmt.Sprintf("runtime error: slice bounds out of range with capacity %d", mx))
		}
	}
	if in.n&1 != 0 {
		lo = vm.bound(fr.get(&in.args[0]), hi)
		if lo < 0 {
			vm.goPanic(fmt.Sprintf("runtime error: slice bounds out of range [:%d]", hi))
		}
	}
	if str != nil {
		return str.Sub(lo, hi)
	}
	if bk == nil {
		return nil
	}
	return &Slice{bk, off + lo, hi - lo, mx - lo}
}

type asKey struct {
	a, b types.Type
}

func (vm *VM) implements(t types.Type, it *types.Interface, key types.Type) bool {
	k := asKey{t, key}
	if r, ok := vm.impl[k]; ok {
		return r
	}
	r := types.Implements(t, it)
	vm.impl[k] = r
	return r
}

func (vm *VM) typeAssert(in *Inst, v Value) Value {
	ok := false
	var r Value
	if ifc, is := v.(*Iface); is {
		if in.signed { // to interface
			if vm.implements(ifc.T, in.typ.Underlying().(*types.Interface), in.typ) {
				ok, r = true, ifc
			}
		} else if vm.sameType(ifc.T, in.typ) {
			ok, r = true, ifc.V
		}
	}
	if in.flag {
		if !ok {
			r = in.zero
		}
		return Tuple{r, vm.c.Bool(ok)}
	}
	if !ok {
		vm.goPanic("interface conversion: wrong dynamic type, want " + in.typ.String())
	}
	return r
}

type methKey struct {
	t types.Type
	m *types.Func
}

func (vm *VM) method(t types.Type, m *types.Func) *Func {
	k := methKey{t, m}
	if f, ok := vm.meths[k]; ok {
		return f
	}
	fn := vm.P.Prog.LookupMethod(t, m.Pkg(), m.Name())
	if fn == nil {
		panic(unsupported{"no method " + m.FullName() + " on " + t.String()})
	}
	f := vm.getFunc(fn)
	vm.meths[k] = f
	return f
}

// ---- builtins ----

func (vm *VM) lenOf(v Value) int {
	switch x := v.(type) {
	case *Str:
		return x.Len()
	case *Slice:
		return x.n
	case *MapV:
		return x.live
	case *Backing:
		return len(x.c)
	case nil:
		return 0
	}
	panic(unsupported{fmt.Sprintf("len of %T", v)})
}

func (vm *VM) builtin(fr *Frame, in *Inst, name string, args []Value) Value {
	c := vm.c
	switch name {
	case "len":
		if p, ok := args[0].(*Value); ok { // pointer to array
			return c.Int(int64(len((*p).(*Backing).c)))
		}
		return c.Int(int64(vm.lenOf(args[0])))
	case "cap":
		if s, ok := args[0].(*Slice); ok {
			return c.Int(int64(s.cap))
		}
		if args[0] == nil {
			return c.Int(0)
		}
		return c.Int(int64(vm.lenOf(args[0])))
	case "append":
		var add []Value
		switch y := args[1].(type) {
		case *Slice:
			add = y.bk.c[y.off : y.off+y.n]
		case *Str:
			add = make([]Value, y.Len())
			for i := range add {
				add[i] = y.At(c, i)
			}
		case nil:
		}
		s, _ := args[0].(*Slice)
		if len(add) == 0 {
			if s == nil {
				return nil
			}
			return s
		}
		if s == nil {
			s = &Slice{&Backing{}, 0, 0, 0}
		}
		need := s.n + len(add)
		if need <= s.cap {
			tmp := append([]Value(nil), add...)
			for i, v := range tmp {
				vm.store(&s.bk.c[s.off+s.n+i], v)
			}
			return &Slice{s.bk, s.off, need, s.cap}
		}
		elem := in.ins.(ssa.Value).Type().Underlying().(*types.Slice).Elem()
		nc := growCap(elem, s.cap, need)
		if int64(nc)*int64(max(1, sizes.Sizeof(elem))) > vm.lim.Alloc {
			panic(pathEnd{kind: EndAlloc, msg: "append beyond the allocation limit in " + vm.where()})
		}
		bk := &Backing{make([]Value, nc)}
		for i := 0; i < s.n; i++ {
			bk.c[i] = copyVal(s.bk.c[s.off+i])
		}
		for i, v := range add {
			bk.c[s.n+i] = copyVal(v)
		}
		return &Slice{bk, 0, need, nc}
	case "copy":
		d, _ := args[0].(*Slice)
		n := 0
		if d != nil {
			var src []Value
			switch y := args[1].(type) {
			case *Slice:
				n = min(d.n, y.n)
				src = append([]Value(nil), y.bk.c[y.off:y.off+n]...)
			case *Str:
				n = min(d.n, y.Len())
				src = make([]Value, n)
				for i := range src {
					src[i] = y.At(c, i)
				}
			}
			for i := 0; i < n; i++ {
				vm.store(&d.bk.c[d.off+i], src[i])
			}
		}
		return c.Int(int64(n))
	case "delete":
		if m, _ := args[0].(*MapV); m != nil {
			vm.mapDelete(m, args[1])
		}
		return nil
	case "clear":
		switch x := args[0].(type) {
		case *MapV:
			for _, e := range sortedEnts(x) {
				vm.mapDelete(x, e.key)
			}
		case *Slice:
			for i := 0; i < x.n; i++ {
				vm.store(&x.bk.c[x.off+i], nil)
			}
		}
		return nil
	case "panic":
		panic(goPanicSig{args[0]})
	case "recover":
		n := len(vm.stack)
		if fr.isDefer && n >= 2 {
			below := vm.stack[n-2]
			if below.panic != nil && !below.panic.recovered {
				if below.epoch != vm.epoch {
					below = below.clone()
					below.epoch = vm.epoch
					vm.stack[n-2] = below
				}
				below.panic = &panicRec{val: below.panic.val, recovered: true}
				return below.panic.val
			}
		}
		return nil
	case "print", "println":
		return nil
	case "min", "max":
		r := args[0]
		for _, a := range args[1:] {
			if x, ok := r.(*smt.Term); ok && x.W != smt.WFloat {
				y := a.(*smt.Term)
				bi := basicOf(in.ins.(ssa.Value).Type())
				lt := c.Ult(y, x)
				if bi.signed {
					lt = c.Slt(y, x)
				}
				if name == "max" {
					lt = c.Ult(x, y)
					if bi.signed {
						lt = c.Slt(x, y)
					}
				}
				r = c.Ite(lt, y, x)
				continue
			}
			panic(unsupported{name + " of non-integers"})
		}
		return r
	case "ssa:wrapnilchk":
		if args[0] == nil {
			vm.nilDeref()
		}
		return args[0]
	case "SliceData":
		s, _ := args[0].(*Slice)
		return &DataPtr{sl: s}
	case "StringData":
		return &DataPtr{str: args[0].(*Str)}
	case "String":
		n := int(vm.concInt(args[1], true))
		if n == 0 {
			return emptyStr
		}
		switch p := args[0].(type) {
		case *DataPtr:
			if p.str != nil {
				return p.str.Sub(0, n)
			}
			return strOf(vm.sliceBytes(&Slice{p.sl.bk, p.sl.off, n, n}))
		}
		panic(unsupported{fmt.Sprintf("unsafe.String of %T at %s", args[0], vm.where())})
	case "Slice":
		n := int(vm.concInt(args[1], true))
		if n == 0 {
			return nil
		}
		if p, ok := args[0].(*DataPtr); ok {
			if p.str != nil {
				return vm.bytesSlice(p.str.Sub(0, n).Terms(c))
			}
			return &Slice{p.sl.bk, p.sl.off, n, n}
		}
		panic(unsupported{"unsafe.Slice"})
	}
	panic(unsupported{"builtin " + name})
}
