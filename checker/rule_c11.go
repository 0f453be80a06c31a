package main

import (
	"fmt"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// C11: package-level variables of the library are only written during initialisation, and what they
// refer to (backing arrays, maps, pointees) is neither written later nor handed out to a font or a caller.
//
// The rule follows every value derived from a package-level variable through the functions that can run
// after initialisation (assignments, phis, slicing, elements, parameters of module functions, results).

func init() { checks["C11"] = checkC11 }

// initOnly returns the functions that only run during package initialisation.
func (P *Prog) initOnly() map[*ssa.Function]bool {
	callers := map[*ssa.Function][]*ssa.Function{}
	escapes := map[*ssa.Function]bool{}
	for _, fn := range P.fns {
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				var callee *ssa.Function
				if c, ok := in.(ssa.CallInstruction); ok {
					callee = c.Common().StaticCallee()
					if callee != nil {
						callers[callee] = append(callers[callee], fn)
					}
				}
				for _, op := range in.Operands(nil) {
					f, ok := (*op).(*ssa.Function)
					if !ok {
						continue
					}
					if c, ok := in.(ssa.CallInstruction); ok && callee == f && op == &c.Common().Value {
						continue
					}
					escapes[f] = true
				}
			}
		}
	}
	res := map[*ssa.Function]bool{}
	isInit := func(fn *ssa.Function) bool {
		return fn.Parent() == nil && fn.Signature.Recv() == nil && (fn.Name() == "init" || strings.HasPrefix(fn.Name(), "init#"))
	}
	for _, fn := range P.fns {
		if isInit(fn) {
			res[fn] = true
		}
	}
	for changed := true; changed; {
		changed = false
		for _, fn := range P.fns {
			if res[fn] || escapes[fn] || fn.Signature.Recv() != nil {
				continue
			}
			if fn.Object() != nil && fn.Object().Exported() {
				continue
			}
			cs := callers[fn]
			if len(cs) == 0 {
				continue
			}
			all := true
			for _, c := range cs {
				if !res[c] {
					all = false
				}
			}
			if all {
				res[fn] = true
				changed = true
			}
		}
	}
	return res
}

// hasRefs reports whether a value of type t can give access to shared mutable memory.
func hasRefs(t types.Type) bool {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		return u.Kind() == types.UnsafePointer
	case *types.Struct:
		for i := 0; i < u.NumFields(); i++ {
			if hasRefs(u.Field(i).Type()) {
				return true
			}
		}
		return false
	case *types.Array:
		return hasRefs(u.Elem())
	case *types.Tuple:
		for i := 0; i < u.Len(); i++ {
			if hasRefs(u.At(i).Type()) {
				return true
			}
		}
		return false
	case *types.Interface:
		// error values are immutable by convention
		return !types.Identical(t, types.Universe.Lookup("error").Type())
	case *types.Signature:
		return false
	}
	return true
}

// readOnlyExternal are external functions that do not keep or modify what they are given.
func readOnlyExternal(fn *ssa.Function) bool {
	if fn == nil {
		return false
	}
	p := ""
	if fn.Pkg != nil {
		p = fn.Pkg.Pkg.Path()
	} else if fn.Object() != nil && fn.Object().Pkg() != nil {
		p = fn.Object().Pkg().Path()
	}
	switch p {
	case "fmt", "github.com/sirupsen/logrus", "errors", "strings", "strconv", "unicode", "unicode/utf8", "unicode/utf16", "math", "math/bits":
		return true
	case "golang.org/x/text/encoding/charmap", "golang.org/x/text/encoding/unicode", "golang.org/x/text/encoding":
		return true
	case "slices":
		switch strings.SplitN(fn.Name(), "[", 2)[0] {
		case "Contains", "Index", "IndexFunc", "BinarySearch", "Equal", "Clone", "Max", "Min":
			return true
		}
	case "sort":
		return strings.HasPrefix(fn.Name(), "Search") || strings.HasSuffix(fn.Name(), "AreSorted")
	case "bytes":
		return fn.Signature.Recv() == nil && fn.Name() != "NewBuffer" && !strings.HasPrefix(fn.Name(), "Split") && !strings.HasPrefix(fn.Name(), "Trim")
	}
	return false
}

func checkC11(P *Prog, r *Report, tier string) {
	r.explain = "Flow of every package-level variable of the library through all functions that can run after initialisation: " +
		"no store to the variable, no write through what it refers to, and no hand-out of a reference to it " +
		"(returned by exported API, stored into the heap, passed to code that may keep or modify it). " +
		"error variables are only checked for re-assignment (error values are immutable)."
	initFns := P.initOnly()
	nGlob, nUse := 0, 0
	type item struct {
		v    ssa.Value
		g    *ssa.Global
		addr bool // v is an address inside the variable itself
	}
	seen := map[ssa.Value]map[*ssa.Global]bool{}
	var work []item
	push := func(v ssa.Value, g *ssa.Global, addr bool) {
		if v == nil {
			return
		}
		if !addr && !hasRefs(v.Type()) {
			return
		}
		if seen[v] == nil {
			seen[v] = map[*ssa.Global]bool{}
		}
		if seen[v][g] {
			return
		}
		seen[v][g] = true
		work = append(work, item{v, g, addr})
	}
	globals := map[*ssa.Global]bool{}
	for _, p := range P.pkgs {
		if !(p.Pkg.Path() == modPath || strings.HasPrefix(p.Pkg.Path(), modPath+"/internal/")) {
			continue
		}
		for _, m := range p.Members {
			if g, ok := m.(*ssa.Global); ok && !strings.HasPrefix(g.Name(), "init$") {
				globals[g] = true
				nGlob++
			}
		}
	}
	bad := func(in ssa.Instruction, g *ssa.Global, msg string) {
		r.add(Finding{Rule: "shared-state", Key: in.Parent().String() + " " + g.Name() + " " + msg, Where: P.instrPos(in),
			Msg: fmt.Sprintf("package variable %s: %s", g.Name(), msg)})
	}
	isErr := func(g *ssa.Global) bool {
		return types.Identical(g.Type().(*types.Pointer).Elem(), types.Universe.Lookup("error").Type())
	}
	for _, fn := range P.fns {
		if !P.inLib(fn) || initFns[fn] {
			continue
		}
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				for _, op := range in.Operands(nil) {
					if g, ok := (*op).(*ssa.Global); ok && globals[g] {
						nUse++
						useOf(P, in, g, g, true, push, bad, isErr(g))
					}
				}
			}
		}
	}
	for len(work) > 0 {
		it := work[len(work)-1]
		work = work[:len(work)-1]
		refs := it.v.Referrers()
		if refs == nil {
			continue
		}
		for _, in := range *refs {
			if initFns[in.Parent()] {
				continue
			}
			useOf(P, in, it.v, it.g, it.addr, push, bad, isErr(it.g))
		}
	}
	r.count("package_variables", nGlob)
	r.count("uses_after_initialisation", nUse)
	r.count("derived_values_followed", len(seen))
	r.need("package variables of the library", nGlob, 5)
	r.need("uses of package variables", nUse, 20)
}

// useOf handles one use `in` of a value v derived from global g.
func useOf(P *Prog, in ssa.Instruction, v ssa.Value, g *ssa.Global, addr bool, push func(ssa.Value, *ssa.Global, bool), bad func(ssa.Instruction, *ssa.Global, string), errVar bool) {
	switch x := in.(type) {
	case *ssa.UnOp:
		if x.Op.String() == "*" {
			if !errVar {
				push(x, g, false)
			}
		}
	case *ssa.Store:
		if x.Addr == v {
			bad(in, g, "written after initialisation")
		} else if x.Val == v {
			// storing a reference somewhere
			if a, ok := x.Addr.(*ssa.Alloc); ok && !a.Heap {
				push(a, g, true)
				return
			}
			if varargsOfReadOnlyCall(x.Addr) {
				return
			}
			bad(in, g, "a reference to it is stored in memory that outlives the use")
		}
	case *ssa.FieldAddr, *ssa.IndexAddr, *ssa.Slice:
		if s, ok := x.(*ssa.Slice); ok {
			push(s, g, false)
			return
		}
		if ia, ok := x.(*ssa.IndexAddr); ok && ia.Index == v && ia.X != v {
			return
		}
		push(in.(ssa.Value), g, true)
	case *ssa.Field, *ssa.Index, *ssa.Phi, *ssa.ChangeType, *ssa.Convert, *ssa.MakeInterface, *ssa.ChangeInterface, *ssa.TypeAssert, *ssa.Extract, *ssa.Next, *ssa.Lookup:
		if cv, ok := x.(*ssa.Convert); ok {
			if _, isStr := cv.Type().Underlying().(*types.Basic); isStr {
				return
			}
			if _, fromStr := cv.X.Type().Underlying().(*types.Basic); fromStr {
				return
			}
		}
		push(in.(ssa.Value), g, false)
	case *ssa.Range:
		push(x, g, true)
	case *ssa.MapUpdate:
		if x.Map == v {
			bad(in, g, "map written after initialisation")
		} else if hasRefs(x.Value.Type()) && x.Value == v {
			bad(in, g, "a reference to it is stored in a map")
		}
	case *ssa.Return:
		fn := in.Parent()
		exported := fn.Object() != nil && fn.Object().Exported()
		if exported {
			bad(in, g, "a reference to it is returned to the caller of "+fn.Name())
			return
		}
		// follow into callers
		idx := -1
		for i, res := range x.Results {
			if res == v {
				idx = i
			}
		}
		for _, caller := range P.fns {
			for _, b := range caller.Blocks {
				for _, ci := range b.Instrs {
					c, ok := ci.(*ssa.Call)
					if !ok || c.Common().StaticCallee() != fn {
						continue
					}
					if len(x.Results) == 1 {
						push(c, g, false)
						continue
					}
					for _, rf := range *c.Referrers() {
						if e, ok := rf.(*ssa.Extract); ok && e.Index == idx {
							push(e, g, false)
						}
					}
				}
			}
		}
	case ssa.CallInstruction:
		cc := x.Common()
		if b, ok := cc.Value.(*ssa.Builtin); ok {
			switch b.Name() {
			case "append":
				if len(cc.Args) > 0 && cc.Args[0] == v {
					bad(in, g, "appended to after initialisation (may write its backing array)")
					return
				}
				// the appended values are copied; nested references stay
				if el, ok := v.Type().Underlying().(*types.Slice); ok && hasRefs(el.Elem()) {
					push(x.(ssa.Value), g, false)
				}
			case "copy":
				if cc.Args[0] == v {
					bad(in, g, "copied into after initialisation")
				}
			case "delete", "clear":
				bad(in, g, "elements deleted after initialisation")
			}
			return
		}
		callee := cc.StaticCallee()
		if callee != nil && P.isModFn[callee] {
			for i, a := range cc.Args {
				if a == v && i < len(callee.Params) {
					push(callee.Params[i], g, addr)
				}
			}
			return
		}
		if !addr && readOnlyExternal(callee) {
			return
		}
		bad(in, g, "a reference to it is passed to a function that may keep or modify it")
	case *ssa.If, *ssa.BinOp, *ssa.DebugRef:
	case *ssa.MakeClosure:
		fn := x.Fn.(*ssa.Function)
		for i, b := range x.Bindings {
			if b == v {
				push(fn.FreeVars[i], g, addr)
			}
		}
	default:
		bad(in, g, fmt.Sprintf("used in a way the rule does not know (%T)", in))
	}
}

// varargsOfReadOnlyCall reports whether addr is an element of the argument array of a read-only variadic call.
func varargsOfReadOnlyCall(addr ssa.Value) bool {
	ia, ok := addr.(*ssa.IndexAddr)
	if !ok {
		return false
	}
	al, ok := ia.X.(*ssa.Alloc)
	if !ok {
		return false
	}
	for _, rf := range *al.Referrers() {
		s, ok := rf.(*ssa.Slice)
		if !ok {
			continue
		}
		for _, u := range *s.Referrers() {
			c, ok := u.(ssa.CallInstruction)
			if !ok || !readOnlyExternal(c.Common().StaticCallee()) {
				return false
			}
		}
	}
	return true
}
