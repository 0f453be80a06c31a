package main

import (
	"fmt"
	"go/token"
	"go/types"
	"os"
	"path/filepath"
	"sort"
	"strings"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

const modPath = "github.com/unidoc/unitype"

// Prog is the type-checked program in SSA form: both modules of the repository.
type Prog struct {
	fset    *token.FileSet
	prog    *ssa.Program
	pkgs    map[string]*ssa.Package // module packages by import path
	lib     *ssa.Package            // github.com/unidoc/unitype
	fns     []*ssa.Function         // all functions with a body from the module, incl. anonymous ones
	root    string                  // repository root
	isModFn map[*ssa.Function]bool
	sites   map[*ssa.Function][]*ssa.CallCommon
	siteVal map[*ssa.CallCommon]ssa.Value
	wrapMem map[ssa.Instruction]string
}

func loadProg(repo string) (*Prog, error) {
	env := append(os.Environ(), "GOFLAGS=-mod=readonly", "GOWORK=off", "CGO_ENABLED=0")
	cfg := &packages.Config{
		Mode: packages.NeedName | packages.NeedFiles | packages.NeedCompiledGoFiles | packages.NeedImports |
			packages.NeedDeps | packages.NeedExportFile | packages.NeedTypes | packages.NeedSyntax |
			packages.NeedTypesInfo | packages.NeedTypesSizes | packages.NeedModule,
		Dir: filepath.Join(repo, "truecli"),
		Env: env,
	}
	pkgs, err := packages.Load(cfg, "./...", modPath+"/...")
	if err != nil {
		return nil, fmt.Errorf("loading packages: %v", err)
	}
	if len(pkgs) == 0 {
		return nil, fmt.Errorf("no packages loaded")
	}
	var errs []string
	for _, p := range pkgs {
		for _, e := range p.Errors {
			errs = append(errs, e.Error())
		}
	}
	if len(errs) > 0 {
		return nil, fmt.Errorf("type errors: %s", strings.Join(errs, "; "))
	}
	// Only module packages are built from syntax.
	for _, p := range pkgs {
		if !strings.HasPrefix(p.PkgPath, modPath) {
			return nil, fmt.Errorf("unexpected root package %s", p.PkgPath)
		}
	}
	prog, spkgs := ssautil.Packages(pkgs, ssa.InstantiateGenerics)
	prog.Build()
	P := &Prog{fset: prog.Fset, prog: prog, pkgs: map[string]*ssa.Package{}, root: repo, isModFn: map[*ssa.Function]bool{}}
	for i, sp := range spkgs {
		if sp == nil {
			return nil, fmt.Errorf("no SSA for %s", pkgs[i].PkgPath)
		}
		P.pkgs[pkgs[i].PkgPath] = sp
	}
	P.lib = P.pkgs[modPath]
	if P.lib == nil {
		return nil, fmt.Errorf("package %s not found", modPath)
	}
	for fn := range ssautil.AllFunctions(prog) {
		if P.inModule(fn) && len(fn.Blocks) > 0 {
			P.fns = append(P.fns, fn)
			P.isModFn[fn] = true
		}
	}
	sort.Slice(P.fns, func(i, j int) bool {
		if P.fns[i].String() != P.fns[j].String() {
			return P.fns[i].String() < P.fns[j].String()
		}
		return P.fns[i].Pos() < P.fns[j].Pos()
	})
	return P, nil
}

func fnPkg(fn *ssa.Function) *ssa.Package {
	for fn.Parent() != nil {
		fn = fn.Parent()
	}
	if fn.Pkg != nil {
		return fn.Pkg
	}
	if o := fn.Origin(); o != nil && o.Pkg != nil {
		return o.Pkg
	}
	return nil
}

// inModule reports whether fn is defined in the repository (wrappers of promoted methods included).
func (P *Prog) inModule(fn *ssa.Function) bool {
	if p := fnPkg(fn); p != nil {
		return strings.HasPrefix(p.Pkg.Path(), modPath)
	}
	if fn.Object() != nil && fn.Object().Pkg() != nil {
		return strings.HasPrefix(fn.Object().Pkg().Path(), modPath)
	}
	// Synthetic wrapper (promoted method, bound method): decide by the receiver type.
	if recv := fn.Signature.Recv(); recv != nil {
		return typeInModule(recv.Type())
	}
	return false
}

func typeInModule(t types.Type) bool {
	if p, ok := t.Underlying().(*types.Pointer); ok {
		t = p.Elem()
	}
	if p, ok := t.(*types.Pointer); ok {
		t = p.Elem()
	}
	if n, ok := types.Unalias(t).(*types.Named); ok && n.Obj().Pkg() != nil {
		return strings.HasPrefix(n.Obj().Pkg().Path(), modPath)
	}
	return false
}

// inLib reports whether fn belongs to the library (not the command line tool).
func (P *Prog) inLib(fn *ssa.Function) bool {
	p := fnPkg(fn)
	if p == nil {
		return P.inModule(fn)
	}
	path := p.Pkg.Path()
	return path == modPath || strings.HasPrefix(path, modPath+"/internal/")
}

func (P *Prog) inCLI(fn *ssa.Function) bool {
	p := fnPkg(fn)
	return p != nil && strings.HasPrefix(p.Pkg.Path(), modPath+"/truecli")
}

// pos renders a position relative to the repository.
func (P *Prog) pos(p token.Pos) string {
	if !p.IsValid() {
		return "?"
	}
	q := P.fset.Position(p)
	f := q.Filename
	if r, err := filepath.Rel(P.root, f); err == nil && !strings.HasPrefix(r, "..") {
		f = r
	}
	return fmt.Sprintf("%s:%d", f, q.Line)
}

func (P *Prog) instrPos(in ssa.Instruction) string {
	if in.Pos().IsValid() {
		return P.pos(in.Pos())
	}
	// Fall back to the nearest instruction with a position.
	b := in.Block()
	best := "?"
	for _, x := range b.Instrs {
		if x.Pos().IsValid() {
			best = P.pos(x.Pos())
		}
		if x == in && best != "?" {
			break
		}
	}
	if best == "?" {
		best = P.pos(in.Parent().Pos())
	}
	return best
}

// namedType looks up a named type of the library package.
func (P *Prog) namedType(name string) *types.Named {
	o := P.lib.Pkg.Scope().Lookup(name)
	if o == nil {
		return nil
	}
	n, _ := o.Type().(*types.Named)
	return n
}

// method finds the SSA function of a method of the library type (through embedding as well).
func (P *Prog) method(t types.Type, name string) *ssa.Function {
	ms := types.NewMethodSet(t)
	for i := 0; i < ms.Len(); i++ {
		if ms.At(i).Obj().Name() == name {
			return P.prog.MethodValue(ms.At(i))
		}
	}
	return nil
}

// exportedAPI returns the exported functions of the library and the exported methods of *Font.
func (P *Prog) exportedAPI() (funcs []*ssa.Function, methods []*ssa.Function) {
	var names []string
	for n := range P.lib.Members {
		names = append(names, n)
	}
	sort.Strings(names)
	for _, n := range names {
		if fn, ok := P.lib.Members[n].(*ssa.Function); ok && token.IsExported(n) {
			funcs = append(funcs, fn)
		}
	}
	fnt := P.namedType("Font")
	if fnt == nil {
		return
	}
	ms := types.NewMethodSet(types.NewPointer(fnt))
	for i := 0; i < ms.Len(); i++ {
		o := ms.At(i).Obj()
		if o.Exported() {
			if f := P.prog.MethodValue(ms.At(i)); f != nil {
				methods = append(methods, f)
			}
		}
	}
	sort.Slice(methods, func(i, j int) bool { return methods[i].Name() < methods[j].Name() })
	return
}

func (P *Prog) pkgInModule(p *types.Package) bool {
	return p != nil && strings.HasPrefix(p.Path(), modPath)
}
