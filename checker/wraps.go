package main

import (
	"go/token"
	"go/types"

	"golang.org/x/tools/go/ssa"
)

// What becomes of a sum or product computed in a narrow type: widened (the lost bits were wanted) or modular by
// the definition of the format.

// callSites lists the static calls of each module function.
func (P *Prog) callSites(fn *ssa.Function) []*ssa.CallCommon {
	if P.sites == nil {
		P.sites = map[*ssa.Function][]*ssa.CallCommon{}
		for _, f := range P.fns {
			for _, b := range f.Blocks {
				for _, i := range b.Instrs {
					if c, ok := i.(ssa.CallInstruction); ok {
						if g := c.Common().StaticCallee(); g != nil {
							P.sites[g] = append(P.sites[g], c.Common())
						}
					}
				}
			}
		}
	}
	return P.sites[fn]
}

// widened reports whether the narrow value v is converted to a wider integer type, or used as an index or size,
// possibly after further arithmetic, in a helper or by a caller.
func (P *Prog) widened(v ssa.Value) bool {
	seen := map[ssa.Value]bool{}
	var walk func(v ssa.Value) bool
	walk = func(v ssa.Value) bool {
		if seen[v] || v.Referrers() == nil {
			return false
		}
		seen[v] = true
		for _, ref := range *v.Referrers() {
			switch x := ref.(type) {
			case *ssa.Convert:
				b, ok := x.Type().Underlying().(*types.Basic)
				if !ok || b.Info()&types.IsInteger == 0 {
					continue
				}
				if intBits(b) > intBits(basicOf(v.Type())) || walk(x) {
					return true
				}
			case *ssa.ChangeType:
				if walk(x) {
					return true
				}
			case *ssa.Phi:
				if walk(x) {
					return true
				}
			case *ssa.BinOp:
				switch x.Op {
				case token.ADD, token.SUB, token.MUL, token.QUO, token.SHL, token.SHR, token.AND, token.OR:
					if walk(x) {
						return true
					}
				}
			case *ssa.IndexAddr:
				if x.Index == v {
					return true
				}
			case *ssa.Index:
				if x.Index == v {
					return true
				}
			case *ssa.MakeSlice, *ssa.Slice:
				return true
			case *ssa.Return:
				for _, c := range P.callSites(x.Parent()) {
					if cv, ok := c.Value.(*ssa.Function); !ok || cv != x.Parent() {
						continue
					}
					call := P.callValue(c)
					if call == nil {
						continue
					}
					if len(x.Results) == 1 {
						if walk(call) {
							return true
						}
						continue
					}
					for _, r := range *call.Referrers() {
						if e, ok := r.(*ssa.Extract); ok && x.Results[e.Index] == v && walk(e) {
							return true
						}
					}
				}
			case ssa.CallInstruction:
				g := x.Common().StaticCallee()
				if g == nil || !P.inModule(g) {
					continue
				}
				for i, a := range x.Common().Args {
					if a == v && i < len(g.Params) && walk(g.Params[i]) {
						return true
					}
				}
			case *ssa.Store:
				// a local variable that is captured or addressed
				if x.Val == v {
					if al, ok := x.Addr.(*ssa.Alloc); ok {
						for _, r := range *al.Referrers() {
							if u, ok := r.(*ssa.UnOp); ok && u.Op == token.MUL && walk(u) {
								return true
							}
						}
					}
				}
			}
		}
		return false
	}
	return walk(v)
}

func (P *Prog) callValue(c *ssa.CallCommon) ssa.Value {
	if P.siteVal == nil {
		P.siteVal = map[*ssa.CallCommon]ssa.Value{}
		for _, f := range P.fns {
			for _, b := range f.Blocks {
				for _, i := range b.Instrs {
					if x, ok := i.(*ssa.Call); ok {
						P.siteVal[x.Common()] = x
					}
				}
			}
		}
	}
	return P.siteVal[c]
}

// modularFields are the fields of cmap format 4 whose arithmetic is defined modulo 65536.
var modularFields = map[string]bool{"idDelta": true, "idRangeOffset": true}

// modular reports whether v is computed from an element of one of modularFields.
func (P *Prog) modular(v ssa.Value) bool {
	seen := map[ssa.Value]bool{}
	var walk func(v ssa.Value) bool
	walk = func(v ssa.Value) bool {
		if v == nil || seen[v] {
			return false
		}
		seen[v] = true
		switch x := v.(type) {
		case *ssa.FieldAddr:
			st, ok := x.X.Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Struct)
			return ok && modularFields[st.Field(x.Field).Name()]
		case *ssa.Field:
			st, ok := x.X.Type().Underlying().(*types.Struct)
			return ok && modularFields[st.Field(x.Field).Name()]
		case *ssa.IndexAddr:
			return walk(x.X)
		case *ssa.Index:
			return walk(x.X)
		case *ssa.Slice:
			return walk(x.X)
		case *ssa.UnOp:
			return walk(x.X)
		case *ssa.Convert:
			return walk(x.X)
		case *ssa.ChangeType:
			return walk(x.X)
		case *ssa.BinOp:
			return walk(x.X) || walk(x.Y)
		case *ssa.Phi:
			for _, e := range x.Edges {
				if walk(e) {
					return true
				}
			}
		case *ssa.Extract:
			return walk(x.Tuple)
		case *ssa.Next:
			return walk(x.Iter)
		case *ssa.Range:
			return walk(x.X)
		case *ssa.Alloc:
			for _, r := range *x.Referrers() {
				if s, ok := r.(*ssa.Store); ok && s.Addr == x && walk(s.Val) {
					return true
				}
			}
		case *ssa.Parameter:
			fn := x.Parent()
			for i, p := range fn.Params {
				if p == x {
					for _, c := range P.callSites(fn) {
						if i < len(c.Args) && walk(c.Args[i]) {
							return true
						}
					}
				}
			}
		}
		return false
	}
	return walk(v)
}

// wrapKind describes a wrapping operation for the rule of C24.
func (P *Prog) wrapKind(at ssa.Instruction, t types.Type, op string) (res string) {
	b, ok := at.(*ssa.BinOp)
	if !ok || intBits(basicOf(t)) >= 64 || op == "-" {
		return op
	}
	if r, ok := P.wrapMem[at]; ok {
		return r
	}
	if P.wrapMem == nil {
		P.wrapMem = map[ssa.Instruction]string{}
	}
	defer func() { P.wrapMem[at] = res }()
	if P.widened(b) && !P.modular(b) {
		return "widened " + op + " in " + types.TypeString(t, func(*types.Package) string { return "" })
	}
	return op
}
