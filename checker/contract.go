package main

import (
	"go/token"

	"golang.org/x/tools/go/ssa"
)

// contract stands for a nested call of an exported method that derives a font from a font. Such a method is an
// entry point of its own, analysed for every receiver that satisfies the invariant; where the receiver of the call
// is shown to satisfy it, the outcome is the receiver, a new font satisfying it, or an error. Elsewhere (ok false)
// the callee is analysed in place.
func (in *Interp) contract(st *State, fn *ssa.Function, args []Val) ([]exit, bool) {
	if !isDeriving(fn) || in.fr == nil {
		return nil, false
	}
	p, ok := args[0].(*PtrV)
	if !ok || st.isNil(p.nl) >= 0 || len(p.alts) != 1 || in.reaches(fn) {
		return nil, false
	}
	for _, c := range in.checkFont(st.clone(), p, true) {
		if !c.ok {
			return nil, false
		}
	}
	res := fn.Signature.Results()
	noErr := nilErr()
	same := exit{st.clone(), Tuple{p, noErr}}
	fresh := st.clone()
	nf := in.buildFont(fresh, res.At(0).Type(), derivedInput)
	bad := st.clone()
	return []exit{same, {fresh, Tuple{nf, noErr}}, {bad, Tuple{zeroVal(res.At(0).Type()), errVal()}}}, true
}

func isDeriving(fn *ssa.Function) bool {
	sg := fn.Signature
	return sg.Recv() != nil && isFontPtr(sg.Recv().Type()) && token.IsExported(fn.Name()) && sg.Results().Len() == 2 &&
		isFontPtr(sg.Results().At(0).Type()) && sg.Results().At(1).Type().String() == "error"
}

// reaches tells that fn may lead back to the entry point under analysis (recursion must not be assumed away).
func (in *Interp) reaches(fn *ssa.Function) bool {
	seen := map[*ssa.Function]bool{}
	var rec func(f *ssa.Function) bool
	rec = func(f *ssa.Function) bool {
		if f == in.rootFn {
			return true
		}
		if seen[f] {
			return false
		}
		seen[f] = true
		for _, b := range f.Blocks {
			for _, i := range b.Instrs {
				if c, ok := i.(ssa.CallInstruction); ok {
					if g := c.Common().StaticCallee(); g != nil && rec(g) {
						return true
					}
				}
			}
		}
		return false
	}
	return rec(fn)
}
