package vm

import (
	"fmt"
	"go/types"
	"os"
	"strings"
	"sync"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

// Program is the loaded SSA program shared by all workers.
type Program struct {
	Prog    *ssa.Program
	Pkgs    map[string]*ssa.Package
	RT      *ssa.Package // verifrt
	Main    *ssa.Package
	redir   map[string]*ssa.Function
	Initial []*packages.Package
	initMu  sync.Mutex
	inits   map[*ssa.Package]map[*ssa.Global]bool
}

// Load type-checks and builds the patterns in dir with the overlay.
func Load(dir string, overlay map[string][]byte, patterns []string, env []string) (*Program, error) {
	cfg := &packages.Config{
		Mode:    packages.LoadAllSyntax,
		Dir:     dir,
		Overlay: overlay,
		Env:     env,
	}
	initial, err := packages.Load(cfg, patterns...)
	if err != nil {
		return nil, err
	}
	var errs []string
	packages.Visit(initial, nil, func(p *packages.Package) {
		for _, e := range p.Errors {
			errs = append(errs, e.Error())
		}
	})
	if len(errs) > 0 {
		return nil, fmt.Errorf("%s", strings.Join(errs, "\n"))
	}
	prog, _ := ssautil.AllPackages(initial, ssa.InstantiateGenerics)
	prog.Build()
	p := &Program{Prog: prog, Pkgs: map[string]*ssa.Package{}, redir: map[string]*ssa.Function{}, Initial: initial}
	for _, pk := range prog.AllPackages() {
		p.Pkgs[pk.Pkg.Path()] = pk
		if pk.Pkg.Name() == "verifrt" {
			p.RT = pk
		}
		if pk.Pkg.Name() == "main" {
			p.Main = pk
		}
	}
	if p.RT == nil {
		return nil, fmt.Errorf("verifrt not loaded")
	}
	for from, to := range redirects {
		fn, ok := p.RT.Members[to].(*ssa.Function)
		if !ok {
			fmt.Fprintf(os.Stderr, "engine: verifrt.%s missing\n", to)
			continue
		}
		p.redir[from] = fn
	}
	return p, nil
}

func (p *Program) redirect(fn *ssa.Function, name string) *ssa.Function {
	return p.redir[name]
}

// Type finds a named type pkg.name.
func (p *Program) Type(pkg, name string) types.Type {
	pk := p.Pkgs[pkg]
	if pk == nil {
		return nil
	}
	if m, ok := pk.Members[name].(*ssa.Type); ok {
		return m.Type()
	}
	return nil
}
