package vm

import (
	"fmt"
	"os"
)

var debugModel = os.Getenv("VERIF_DEBUG_MODEL") != ""

// checkModel verifies that the model satisfies the path condition (no uninterpreted parts).
func (vm *VM) checkModel(at string) {
	if !debugModel {
		return
	}
	vm.c.NewEval()
	for _, e := range vm.cons {
		if e.t.HasUF {
			continue
		}
		if v, ok := vm.c.Eval(e.t, vm.val); !ok || v == 0 {
			panic(fmt.Sprintf("%s: model breaks a constraint at %s", at, vm.where()))
		}
	}
	for _, d := range vm.domTrail {
		a := &vm.c.Atoms[d.atom]
		if a.IsUF {
			continue
		}
		v, ok := vm.c.Eval(a.T, vm.val)
		dom := vm.c.Dom[d.atom]
		if !ok || !dom.Has(int(v)) {
			panic(fmt.Sprintf("%s: model breaks a domain of v%d (=%d, %v) at %s", at, a.Var, v, dom, vm.where()))
		}
	}
}

// volume adds up the number of inputs that follow the path, to see that no input is lost.
func (vm *VM) volume() {
	if len(vm.cons) > 0 {
		vm.res.NoVolume++
		return
	}
	v := 1.0
	for _, in := range vm.inputs[:vm.ps.nin] {
		if in.T.Atom >= 0 && vm.c.Atoms[in.T.Atom].W == 8 {
			d := vm.c.Dom[in.T.Atom]
			v *= float64(d.Count())
		}
	}
	vm.res.Volume += v
}
