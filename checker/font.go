package main

import (
	"fmt"
	"go/types"
	"sort"

	"golang.org/x/tools/go/ssa"
)

// initGlobals runs the initialisation of the library package; the resulting heap is the base of every root.
func (in *Interp) initGlobals(pkgs ...*ssa.Package) *State {
	st := newState()
	in.root = "init"
	for _, p := range pkgs {
		fn := p.Func("init")
		if fn == nil || len(fn.Blocks) == 0 {
			continue
		}
		es := in.call(st, fn, nil, nil, nil)
		if len(es) == 0 {
			return nil
		}
		st = es[0].st
		for _, e := range es[1:] {
			st = join(st, e.st)
		}
		st.regs = map[ssa.Value]Val{}
	}
	return st
}

// rootRun is the outcome of analysing one entry point.
type rootRun struct {
	name  string
	in    *Interp
	exits []exit
	entry *State
	src   ObjID
}

func (in *Interp) sourceObj(name string) ObjID {
	sz := newSym("size("+name+")", 0, maxLen)
	symTab[sz].fixed = true
	id := newObj(&Obj{kind: okCell, t: emptyStruct, name: name, site: name, input: name,
		cells: map[string]Val{"#pos": Num{symL(newSym("pos", 0, maxLen))}, "#size": Num{symL(sz)}}})
	return id
}

// argFor makes an arbitrary argument of an entry point.
func (in *Interp) argFor(st *State, p *ssa.Parameter, r *rootRun) Val {
	t := p.Type()
	s0, o0 := len(symTab), len(objTab)
	defer func() { markFixed(s0, o0) }()
	switch t.String() {
	case "io.ReadSeeker", "io.Reader":
		id := in.sourceObj("source")
		objTab[id].fixed = false
		st.putObj(objTab[id])
		r.src = id
		return &IfaceV{alts: []IT{{nil, &PtrV{alts: []PT{{id, ""}}, nl: lin0}}}, nl: lin0}
	case "io.Writer":
		id := newObj(&Obj{kind: okCell, t: emptyStruct, name: "writer", site: "writer", input: "writer"})
		return &IfaceV{alts: []IT{{nil, &PtrV{alts: []PT{{id, ""}}, nl: lin0}}}, nl: lin0}
	}
	v := freshVal(t, p.Name(), "argument "+p.Name())
	if sl, ok := v.(*SliceV); ok {
		_ = sl
	}
	return v
}

func (in *Interp) runRoot(base *State, fn *ssa.Function, name string, prep func(st *State, args []Val)) *rootRun {
	in.root, in.rootFn, in.exact = name, fn, 0
	r := &rootRun{name: name, in: in}
	st := base.clone()
	var args []Val
	for _, p := range fn.Params {
		args = append(args, in.argFor(st, p, r))
	}
	if prep != nil {
		prep(st, args)
	}
	st.regs = map[ssa.Value]Val{}
	st.regsOwned = true
	for i, p := range fn.Params {
		st.regs[p] = args[i]
	}
	r.entry = st.clone()
	in.steps = 0
	r.exits = in.call(st, fn, args, nil, nil)
	return r
}

// reachable lists the objects a value leads to.
func (s *State) reachable(v Val) []ObjID {
	objs := map[ObjID]bool{}
	s.reach([]Val{v}, objs, map[Sym]bool{})
	var r []ObjID
	for id := range objs {
		r = append(r, id)
	}
	sort.Slice(r, func(i, j int) bool { return r[i] < r[j] })
	return r
}

// obligKey identifies an obligation by construct: function, kind and what it is about.
func obligKey(P *Prog, o Oblig) string {
	return fmt.Sprintf("%s@%s", o.kind, P.instrPos(o.in))
}

func isFontPtr(t types.Type) bool {
	p, ok := t.Underlying().(*types.Pointer)
	if !ok {
		return false
	}
	n, ok := types.Unalias(p.Elem()).(*types.Named)
	return ok && n.Obj().Name() == "Font" && n.Obj().Pkg().Path() == modPath
}

func resultVals(v Val) []Val {
	switch x := v.(type) {
	case nil:
		return nil
	case Tuple:
		return x
	}
	return []Val{v}
}

func resultAt(fn *ssa.Function, i int) types.Type { return fn.Signature.Results().At(i).Type() }
