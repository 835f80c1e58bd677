package main

import (
	"fmt"
	"go/ast"
	"go/token"
	"go/types"
	"os"
	"path/filepath"
	"sort"
	"strings"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

const Module = "github.com/sira-serverless-ir-arch/goirlib"

// Prog is the type-checked, SSA-built program under analysis.
type Prog struct {
	Dir   string
	Fset  *token.FileSet
	Pkgs  []*packages.Package
	SSA   *ssa.Program
	ByID  map[string]*ssa.Package // import path -> ssa package
	Syn   map[string]*packages.Package
	boxed map[*types.TypeName]bool
	Funcs []*ssa.Function // every source function of the module, closures included
}

// Load type-checks the module in dir (all packages, no tests) together with the few
// standard library packages whose bodies are inlined.
func Load(dir string, env []string, overlay map[string][]byte) (*Prog, error) {
	for _, parse := range []parseFile{parseExpanded, parseUnrolled} {
		if p, err := load(dir, env, overlay, parse); err == nil {
			return p, nil
		}
	}
	return load(dir, env, overlay, nil)
}

type parseFile func(fset *token.FileSet, name string, src []byte) (*ast.File, error)

func load(dir string, env []string, overlay map[string][]byte, parse parseFile) (*Prog, error) {
	cfg := &packages.Config{
		Mode:    packages.LoadSyntax | packages.NeedModule,
		Dir:     dir,
		Env:     append(append(os.Environ(), "GOFLAGS=-mod=readonly", "GOPROXY=off", "GOWORK=off", "GOTOOLCHAIN=local"), env...),
		Overlay: overlay,
	}
	if parse != nil {
		cfg.ParseFile = parse
	}
	pkgs, err := packages.Load(cfg, "./...", "maps")
	if err != nil {
		return nil, err
	}
	var errs []string
	for _, p := range pkgs {
		for _, e := range p.Errors {
			errs = append(errs, e.Error())
		}
	}
	if len(errs) > 0 {
		return nil, fmt.Errorf("the tree does not type-check: %s", strings.Join(errs, "; "))
	}
	prog, sp := ssautil.Packages(pkgs, ssa.InstantiateGenerics)
	prog.Build()
	p := &Prog{Dir: dir, Fset: prog.Fset, Pkgs: pkgs, SSA: prog, ByID: map[string]*ssa.Package{}, Syn: map[string]*packages.Package{}}
	for i, s := range sp {
		if s != nil {
			p.ByID[pkgs[i].PkgPath] = s
			p.Syn[pkgs[i].PkgPath] = pkgs[i]
		}
	}
	if len(p.ByID) < 10 {
		return nil, fmt.Errorf("only %d packages were loaded from %s", len(p.ByID), dir)
	}
	all := ssautil.AllFunctions(prog)
	for f := range all {
		if f.Blocks != nil && p.InModule(f) && f.Synthetic == "" {
			p.Funcs = append(p.Funcs, f)
		}
	}
	// generic origins are not reached by AllFunctions
	seen := map[*ssa.Function]bool{}
	for _, f := range p.Funcs {
		seen[f] = true
	}
	for path, s := range p.ByID {
		if !strings.HasPrefix(path, Module) {
			continue
		}
		for _, m := range s.Members {
			switch m := m.(type) {
			case *ssa.Function:
				p.addFunc(m, seen)
			case *ssa.Type:
				if n, ok := m.Type().(*types.Named); ok {
					for i := 0; i < n.NumMethods(); i++ {
						p.addFunc(prog.FuncValue(n.Method(i)), seen)
					}
				}
			}
		}
	}
	sort.Slice(p.Funcs, func(i, j int) bool { return p.Funcs[i].Pos() < p.Funcs[j].Pos() })
	p.direct()
	p.findModels()
	return p, nil
}

func (p *Prog) addFunc(f *ssa.Function, seen map[*ssa.Function]bool) {
	if f == nil || seen[f] || f.Blocks == nil || f.Synthetic != "" {
		return
	}
	seen[f] = true
	p.Funcs = append(p.Funcs, f)
	for _, a := range f.AnonFuncs {
		p.addFunc(a, seen)
	}
}

func funcPkgPath(f *ssa.Function) string {
	for f.Parent() != nil {
		f = f.Parent()
	}
	if f.Pkg != nil {
		return f.Pkg.Pkg.Path()
	}
	if o := f.Origin(); o != nil && o.Pkg != nil {
		return o.Pkg.Pkg.Path()
	}
	if o := f.Object(); o != nil && o.Pkg() != nil {
		return o.Pkg().Path()
	}
	return ""
}

// InModule tells whether f is source code of the repository.
func (p *Prog) InModule(f *ssa.Function) bool {
	return strings.HasPrefix(funcPkgPath(f), Module)
}

// body returns the function that carries the blocks of f (the origin for an uninstantiated generic).
func body(f *ssa.Function) *ssa.Function {
	if f == nil {
		return nil
	}
	if f.Blocks != nil {
		return f
	}
	if o := f.Origin(); o != nil && o.Blocks != nil {
		return o
	}
	return nil
}

func (p *Prog) Func(pkg, name string) *ssa.Function {
	sp := p.ByID[Module+sub(pkg)]
	if sp == nil {
		return nil
	}
	return sp.Func(name)
}

// Package is a package of the module, nil when it does not exist.
func (p *Prog) Package(pkg string) *ssa.Package { return p.ByID[Module+sub(pkg)] }

func sub(pkg string) string {
	if pkg == "" {
		return ""
	}
	return "/" + pkg
}

func (p *Prog) Named(pkg, name string) *types.Named {
	sp := p.ByID[Module+sub(pkg)]
	if sp == nil {
		return nil
	}
	m := sp.Type(name)
	if m == nil {
		return nil
	}
	n, _ := m.Type().(*types.Named)
	return n
}

// Method finds the (declared or promoted, pointer or value receiver) method of a named type.
func (p *Prog) Method(n *types.Named, name string) *ssa.Function {
	if n == nil {
		return nil
	}
	for i := 0; i < n.NumMethods(); i++ {
		if n.Method(i).Name() == name {
			return p.SSA.FuncValue(n.Method(i))
		}
	}
	return nil
}

func (p *Prog) MethodOf(pkg, typ, name string) *ssa.Function {
	return p.Method(p.Named(pkg, typ), name)
}

// Implementers lists the named types of the module whose pointer or value implements the interface.
func (p *Prog) Implementers(pkg, iface string) []*types.Named {
	n := p.Named(pkg, iface)
	if n == nil {
		return nil
	}
	it, ok := n.Underlying().(*types.Interface)
	if !ok {
		return nil
	}
	var out []*types.Named
	for path, sp := range p.ByID {
		if !strings.HasPrefix(path, Module) {
			continue
		}
		for _, m := range sp.Members {
			t, ok := m.(*ssa.Type)
			if !ok {
				continue
			}
			nt, ok := t.Type().(*types.Named)
			if !ok || types.IsInterface(nt) || nt.TypeParams().Len() > 0 {
				continue
			}
			if types.Implements(types.NewPointer(nt), it) || types.Implements(nt, it) {
				out = append(out, nt)
			}
		}
	}
	sort.Slice(out, func(i, j int) bool { return out[i].Obj().Name() < out[j].Obj().Name() })
	return out
}

func (p *Prog) Pos(pos token.Pos) string {
	if !pos.IsValid() {
		return "?"
	}
	ps := p.Fset.Position(pos)
	rel, err := filepath.Rel(p.Dir, ps.Filename)
	if err != nil || strings.HasPrefix(rel, "..") {
		rel = ps.Filename
	}
	return fmt.Sprintf("%s:%d", rel, ps.Line)
}
