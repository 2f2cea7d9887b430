package vm

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"math"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type opcode uint8

const (
	opBad opcode = iota
	opAlloc
	opBinOp
	opCall
	opChangeInterface
	opChangeType
	opConvert
	opDefer
	opExtract
	opField
	opFieldAddr
	opGo
	opIf
	opIndex
	opIndexAddr
	opJump
	opLookup
	opMakeClosure
	opMakeInterface
	opMakeMap
	opMakeSlice
	opMapUpdate
	opMultiConvert
	opNext
	opPanic
	opPhi
	opRange
	opReturn
	opRunDefers
	opSlice
	opSliceToArrayPointer
	opStore
	opTypeAssert
	opLoad
	opNot
	opNeg
	opCompl
	opDebugRef
	opUnsupported
)

// Opnd is a register (k >= 0) or a constant.
type Opnd struct {
	k int32
	v Value
}

type Inst struct {
	op     opcode
	tok    token.Token
	w      uint8
	signed bool
	flag   bool
	pure   bool
	dst    int32
	a, b   Opnd
	args   []Opnd
	n      int
	typ    types.Type
	typ2   types.Type
	zero   Value
	callee *Func
	call   *ssa.CallCommon
	ins    ssa.Instruction
}

type Block struct {
	idx   int
	fn    *Func
	ins   []Inst
	nphi  int
	preds []int
	succs []*Block
	pure  bool // all instructions may be evaluated speculatively
}

type Func struct {
	fn     *ssa.Function
	name   string
	blocks []*Block
	nreg   int
	nparam int
	nfree  int
	rec    *Block
	intr   intrinsic
	built  bool
	summ   int8 // 0 unknown, 1 summarisable, -1 not
	hits   int64
	blkHit []bool
}

type unsupported struct{ msg string }

func (vm *VM) getFunc(fn *ssa.Function) *Func {
	if f, ok := vm.funcs[fn]; ok {
		return f
	}
	f := &Func{fn: fn, name: fn.String()}
	vm.funcs[fn] = f
	name := f.name
	if o := fn.Origin(); o != nil {
		name = o.String()
	}
	if fn.Synthetic == "package initializer" && fn.Pkg != nil && skipInit(fn.Pkg.Pkg.Path()) {
		f.intr = nop
		return f
	}
	if it, ok := intrinsics[name]; ok {
		f.intr = it
		return f
	}
	if to := vm.P.redirect(fn, name); to != nil && to != fn {
		g := vm.getFunc(to)
		vm.funcs[fn] = g
		return g
	}
	return f
}

func (vm *VM) build(f *Func) {
	fn := f.fn
	if fn.Blocks == nil {
		panic(unsupported{"no body: " + f.name})
	}
	f.built = true
	regs := map[ssa.Value]int32{}
	add := func(v ssa.Value) int32 {
		r := int32(len(regs))
		regs[v] = r
		return r
	}
	for _, p := range fn.Params {
		add(p)
	}
	f.nparam = len(fn.Params)
	for _, p := range fn.FreeVars {
		add(p)
	}
	f.nfree = len(fn.FreeVars)
	for _, b := range fn.Blocks {
		for _, in := range b.Instrs {
			if v, ok := in.(ssa.Value); ok {
				add(v)
			}
		}
	}
	f.nreg = len(regs)
	f.blocks = make([]*Block, len(fn.Blocks))
	f.blkHit = make([]bool, len(fn.Blocks))
	for i := range fn.Blocks {
		f.blocks[i] = &Block{idx: i, fn: f}
	}
	for i, b := range fn.Blocks {
		blk := f.blocks[i]
		for _, p := range b.Preds {
			blk.preds = append(blk.preds, p.Index)
		}
		for _, s := range b.Succs {
			blk.succs = append(blk.succs, f.blocks[s.Index])
		}
		blk.pure = true
		for _, in := range b.Instrs {
			if _, ok := in.(*ssa.DebugRef); ok {
				continue
			}
			ci := vm.compile(f, regs, in)
			if ci.op == opPhi {
				blk.nphi++
			}
			if !ci.pure && ci.op != opIf && ci.op != opJump && ci.op != opPhi && ci.op != opReturn {
				blk.pure = false
			}
			blk.ins = append(blk.ins, ci)
		}
	}
	if fn.Recover != nil {
		f.rec = f.blocks[fn.Recover.Index]
	}
}

func (vm *VM) opnd(regs map[ssa.Value]int32, v ssa.Value) Opnd {
	if v == nil {
		return Opnd{-1, nil}
	}
	switch x := v.(type) {
	case *ssa.Const:
		return Opnd{-1, vm.constVal(x)}
	case *ssa.Function:
		return Opnd{-1, &Closure{fn: vm.getFunc(x)}}
	case *ssa.Global:
		return Opnd{-1, vm.global(x)}
	case *ssa.Builtin:
		return Opnd{-1, &Closure{blt: x.Name()}}
	}
	r, ok := regs[v]
	if !ok {
		panic(unsupported{fmt.Sprintf("operand %T %s", v, v)})
	}
	return Opnd{r, nil}
}

func (vm *VM) global(g *ssa.Global) *Value {
	if p, ok := vm.globals[g]; ok {
		return p
	}
	p := new(Value)
	if g.Pkg != nil && skipInit(g.Pkg.Pkg.Path()) && vm.P.initialised(g) {
		*p = poison{g.String()}
	}
	vm.globals[g] = p
	return p
}

// poison is the content of a variable whose initialisation was skipped.
type poison struct{ name string }

// initialised tells whether the initialiser of its package sets the variable.
func (p *Program) initialised(g *ssa.Global) bool {
	p.initMu.Lock()
	defer p.initMu.Unlock()
	set, ok := p.inits[g.Pkg]
	if !ok {
		set = map[*ssa.Global]bool{}
		var ops []*ssa.Value
		for name, m := range g.Pkg.Members {
			fn, ok := m.(*ssa.Function)
			if !ok || name != "init" && !strings.HasPrefix(name, "init#") {
				continue
			}
			for _, b := range fn.Blocks {
				for _, in := range b.Instrs {
					ops = in.Operands(ops[:0])
					for _, o := range ops {
						if v, ok := (*o).(*ssa.Global); ok {
							set[v] = true
						}
					}
				}
			}
		}
		if p.inits == nil {
			p.inits = map[*ssa.Package]map[*ssa.Global]bool{}
		}
		p.inits[g.Pkg] = set
	}
	return set[g]
}

func (vm *VM) constVal(k *ssa.Const) Value {
	t := k.Type()
	if k.Value == nil {
		if _, ok := t.Underlying().(*types.Interface); ok {
			return nil
		}
		return vm.zero(t)
	}
	b, ok := t.Underlying().(*types.Basic)
	if !ok {
		panic(unsupported{"const of type " + t.String()})
	}
	if b.Info()&types.IsString != 0 {
		if k.Value.Kind() == constant.String {
			return mkStr(constant.StringVal(k.Value))
		}
		return mkStr(string(rune(k.Int64())))
	}
	bi := basicOf(b)
	if !bi.ok {
		if b.Info()&types.IsComplex != 0 || b.Kind() == types.UnsafePointer {
			return nil
		}
		panic(unsupported{"const of type " + t.String()})
	}
	switch bi.w {
	case 0:
		return vm.c.Bool(constant.BoolVal(k.Value))
	case 255:
		f, _ := constant.Float64Val(constant.ToFloat(k.Value))
		if bi.f32 {
			f = float64(float32(f))
		}
		return vm.c.Float(f)
	}
	v := constant.ToInt(k.Value)
	if bi.signed {
		i, _ := constant.Int64Val(v)
		return vm.c.BV(bi.w, uint64(i))
	}
	if u, ok := constant.Uint64Val(v); ok {
		return vm.c.BV(bi.w, u)
	}
	i, _ := constant.Int64Val(v)
	return vm.c.BV(bi.w, uint64(i))
}

func numeric(t types.Type) bool {
	bi := basicOf(t)
	return bi.ok
}

func (vm *VM) compile(f *Func, regs map[ssa.Value]int32, in ssa.Instruction) Inst {
	ci := Inst{dst: -1, ins: in, a: Opnd{-1, nil}, b: Opnd{-1, nil}}
	if v, ok := in.(ssa.Value); ok {
		ci.dst = regs[v]
		ci.typ = v.Type()
	}
	op := func(v ssa.Value) Opnd { return vm.opnd(regs, v) }
	switch x := in.(type) {
	case *ssa.Alloc:
		ci.op = opAlloc
		ci.typ = deref(x.Type())
	case *ssa.BinOp:
		ci.op = opBinOp
		ci.tok = x.Op
		ci.a, ci.b = op(x.X), op(x.Y)
		bi := basicOf(x.X.Type())
		ci.w, ci.signed = bi.w, bi.signed
		ci.typ = x.X.Type()
		ci.typ2 = x.Y.Type()
		ci.flag = bi.ok
		ci.pure = bi.ok
		if bi.f32 {
			ci.n = 32
		}
		switch x.Op {
		case token.QUO, token.REM:
			ci.pure = false
			if k, ok := x.Y.(*ssa.Const); ok && k.Value != nil && bi.ok && (bi.w == 255 || constant.Sign(k.Value) != 0) {
				ci.pure = true
			}
			if bi.w == 255 {
				ci.pure = true
			}
		case token.SHL, token.SHR:
			if basicOf(x.Y.Type()).signed {
				if _, ok := x.Y.(*ssa.Const); !ok {
					ci.pure = false
				}
			}
		}
	case *ssa.UnOp:
		ci.a = op(x.X)
		bi := basicOf(x.Type())
		ci.w, ci.signed = bi.w, bi.signed
		switch x.Op {
		case token.MUL:
			ci.op = opLoad
			ci.zero = vm.zero(x.Type())
			ci.pure = true
		case token.NOT:
			ci.op = opNot
			ci.pure = true
		case token.SUB:
			ci.op = opNeg
			ci.pure = true
		case token.XOR:
			ci.op = opCompl
			ci.pure = true
		default:
			ci.op = opUnsupported
		}
	case *ssa.Call:
		ci.op = opCall
		vm.compileCall(&ci, regs, &x.Call)
		if ci.callee != nil && ci.callee.intr == nil && vm.summarisable(ci.callee) {
			ci.pure = true
		}
		if b, ok := x.Call.Value.(*ssa.Builtin); ok && (b.Name() == "len" || b.Name() == "cap") {
			ci.pure = true
		}
		if ci.callee != nil && ci.callee.intr != nil && pureIntr[ci.callee.name] {
			ci.pure = true
		}
	case *ssa.Defer:
		ci.op = opDefer
		vm.compileCall(&ci, regs, &x.Call)
	case *ssa.Go:
		ci.op = opGo
	case *ssa.ChangeInterface:
		ci.op = opChangeInterface
		ci.a = op(x.X)
		ci.pure = true
	case *ssa.ChangeType:
		ci.op = opChangeType
		ci.a = op(x.X)
		ci.pure = true
	case *ssa.Convert:
		ci.op = opConvert
		ci.a = op(x.X)
		ci.typ2 = x.X.Type()
		ci.pure = numeric(x.Type()) && numeric(x.X.Type())
	case *ssa.MultiConvert:
		ci.op = opUnsupported
	case *ssa.Extract:
		ci.op = opExtract
		ci.a = op(x.Tuple)
		ci.n = x.Index
		ci.pure = true
	case *ssa.Field:
		ci.op = opField
		ci.a = op(x.X)
		ci.n = x.Field
		ci.zero = vm.zero(x.Type())
		ci.pure = true
	case *ssa.FieldAddr:
		ci.op = opFieldAddr
		ci.a = op(x.X)
		ci.n = x.Field
		ci.typ = deref(x.X.Type())
		ci.pure = true
	case *ssa.If:
		ci.op = opIf
		ci.a = op(x.Cond)
	case *ssa.Jump:
		ci.op = opJump
	case *ssa.Index:
		ci.op = opIndex
		ci.a, ci.b = op(x.X), op(x.Index)
		ci.zero = vm.zero(x.Type())
		ci.signed = basicOf(x.Index.Type()).signed
		ci.pure = true
	case *ssa.IndexAddr:
		ci.op = opIndexAddr
		ci.a, ci.b = op(x.X), op(x.Index)
		ci.typ = x.X.Type()
		elem := deref(x.Type())
		ci.w = basicOf(elem).w
		ci.zero = vm.zero(elem)
		ci.signed = basicOf(x.Index.Type()).signed
		ci.pure = true
		// symbolic element pointers are only usable when the pointer is just loaded from
		ci.flag = basicOf(elem).ok
		for _, r := range *x.Referrers() {
			if u, ok := r.(*ssa.UnOp); !ok || u.Op != token.MUL {
				if _, dbg := r.(*ssa.DebugRef); !dbg {
					ci.flag = false
				}
			}
		}
	case *ssa.Lookup:
		ci.op = opLookup
		ci.a, ci.b = op(x.X), op(x.Index)
		ci.flag = x.CommaOk
		ci.signed = basicOf(x.Index.Type()).signed
		if isString(x.X.Type()) {
			ci.tok = token.STRING
			ci.pure = true
		} else {
			ci.zero = vm.zero(x.X.Type().Underlying().(*types.Map).Elem())
		}
	case *ssa.MakeClosure:
		ci.op = opMakeClosure
		ci.callee = vm.getFunc(x.Fn.(*ssa.Function))
		for _, b := range x.Bindings {
			ci.args = append(ci.args, op(b))
		}
	case *ssa.MakeInterface:
		ci.op = opMakeInterface
		ci.a = op(x.X)
		ci.typ = x.X.Type()
		ci.zero = vm.zero(ci.typ)
	case *ssa.MakeMap:
		ci.op = opMakeMap
		ci.typ = x.Type().Underlying().(*types.Map).Key()
	case *ssa.MakeSlice:
		ci.op = opMakeSlice
		ci.a, ci.b = op(x.Len), op(x.Cap)
		ci.n = int(sizes.Sizeof(x.Type().Underlying().(*types.Slice).Elem()))
		ci.signed = basicOf(x.Len.Type()).signed
	case *ssa.MapUpdate:
		ci.op = opMapUpdate
		ci.a, ci.b = op(x.Map), op(x.Key)
		ci.args = []Opnd{op(x.Value)}
	case *ssa.Next:
		ci.op = opNext
		ci.a = op(x.Iter)
		ci.flag = x.IsString
		ci.zero = vm.zero(x.Type())
	case *ssa.Panic:
		ci.op = opPanic
		ci.a = op(x.X)
	case *ssa.Phi:
		ci.op = opPhi
		for _, e := range x.Edges {
			ci.args = append(ci.args, op(e))
		}
	case *ssa.Range:
		ci.op = opRange
		ci.a = op(x.X)
		ci.flag = isString(x.X.Type())
	case *ssa.Return:
		ci.op = opReturn
		for _, r := range x.Results {
			ci.args = append(ci.args, op(r))
		}
	case *ssa.RunDefers:
		ci.op = opRunDefers
	case *ssa.Slice:
		ci.op = opSlice
		ci.a = op(x.X)
		ci.args = []Opnd{op(x.Low), op(x.High), op(x.Max)}
		if x.Low != nil {
			ci.n |= 1
		}
		if x.High != nil {
			ci.n |= 2
		}
		if x.Max != nil {
			ci.n |= 4
		}
		ci.typ = x.X.Type()
	case *ssa.SliceToArrayPointer:
		ci.op = opSliceToArrayPointer
		ci.a = op(x.X)
		ci.n = int(deref(x.Type()).Underlying().(*types.Array).Len())
	case *ssa.Store:
		ci.op = opStore
		ci.a, ci.b = op(x.Addr), op(x.Val)
	case *ssa.TypeAssert:
		ci.op = opTypeAssert
		ci.a = op(x.X)
		ci.typ = x.AssertedType
		ci.typ2 = x.X.Type()
		ci.flag = x.CommaOk
		ci.zero = vm.zero(x.AssertedType)
		_, ci.signed = x.AssertedType.Underlying().(*types.Interface)
	default:
		ci.op = opUnsupported
	}
	_ = math.Abs
	return ci
}

func (vm *VM) compileCall(ci *Inst, regs map[ssa.Value]int32, c *ssa.CallCommon) {
	ci.call = c
	if c.IsInvoke() {
		ci.a = vm.opnd(regs, c.Value)
	} else if fn := c.StaticCallee(); fn != nil {
		if mc, ok := c.Value.(*ssa.MakeClosure); ok {
			ci.a = vm.opnd(regs, mc)
		} else {
			ci.callee = vm.getFunc(fn)
		}
	} else if b, ok := c.Value.(*ssa.Builtin); ok {
		ci.a = Opnd{-1, &Closure{blt: b.Name()}}
		ci.tok = token.FUNC
	} else {
		ci.a = vm.opnd(regs, c.Value)
	}
	for _, a := range c.Args {
		ci.args = append(ci.args, vm.opnd(regs, a))
	}
}

// summarisable reports whether f is a small acyclic function of pure instructions.
func (vm *VM) summarisable(f *Func) bool {
	if f.summ != 0 {
		return f.summ > 0
	}
	f.summ = -1 // also stops recursion
	fn := f.fn
	if fn.Blocks == nil || len(fn.Blocks) > 40 || len(fn.FreeVars) > 0 || fn.Recover != nil {
		return false
	}
	res := fn.Signature.Results()
	if res.Len() == 0 {
		return false
	}
	for i := 0; i < res.Len(); i++ {
		if !numeric(res.At(i).Type()) {
			return false
		}
	}
	// cheap syntactic check before compiling
	for _, b := range fn.Blocks {
		for _, in := range b.Instrs {
			switch in.(type) {
			case *ssa.Alloc, *ssa.Store, *ssa.Defer, *ssa.Go, *ssa.MapUpdate, *ssa.Panic, *ssa.MakeSlice, *ssa.MakeMap, *ssa.Range, *ssa.Send, *ssa.Select, *ssa.MakeInterface, *ssa.Slice, *ssa.TypeAssert, *ssa.MakeClosure, *ssa.RunDefers:
				return false
			}
		}
		for _, s := range b.Succs {
			if s.Dominates(b) { // back edge
				return false
			}
		}
	}
	if !f.built {
		vm.build(f)
	}
	for _, b := range f.blocks {
		if !b.pure {
			return false
		}
	}
	f.summ = 1
	return true
}
