package main

import (
	"fmt"
	"go/constant"
	"go/types"
	"sort"
	"strconv"
	"strings"
	"unicode"

	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

func init() { checks["C33"] = ruleC33 }

// printsAddress: formatting a value of the type writes a memory address, by which verb and how deep.
func printsAddress(t types.Type, goSyntax bool, depth int, seen map[types.Type]bool) string {
	if seen[t] {
		return ""
	}
	seen[t] = true
	methods := []string{"Error", "String", "Format"}
	if goSyntax {
		methods = []string{"GoString", "Format"}
	}
	ms := types.NewMethodSet(t)
	for i := 0; i < ms.Len(); i++ {
		for _, m := range methods {
			if ms.At(i).Obj().Name() == m && (depth == 0 || ms.At(i).Obj().Exported()) {
				return ""
			}
		}
	}
	switch u := t.Underlying().(type) {
	case *types.Basic:
		if u.Kind() == types.UnsafePointer {
			return "an unsafe pointer"
		}
	case *types.Pointer:
		if depth == 0 {
			switch u.Elem().Underlying().(type) {
			case *types.Struct, *types.Array, *types.Slice, *types.Map:
				return printsAddress(u.Elem(), goSyntax, 1, seen)
			}
		}
		return "the pointer " + t.String()
	case *types.Chan:
		return "a channel"
	case *types.Signature:
		return "a function"
	case *types.Struct:
		for i := 0; i < u.NumFields(); i++ {
			if s := printsAddress(u.Field(i).Type(), goSyntax, depth+1, seen); s != "" {
				return s + " in field " + u.Field(i).Name()
			}
		}
	case *types.Slice:
		return printsAddress(u.Elem(), goSyntax, depth+1, seen)
	case *types.Array:
		return printsAddress(u.Elem(), goSyntax, depth+1, seen)
	case *types.Map:
		if s := printsAddress(u.Key(), goSyntax, depth+1, seen); s != "" {
			return s
		}
		return printsAddress(u.Elem(), goSyntax, depth+1, seen)
	}
	return ""
}

// variadic gives what is passed for a final ...interface{}.
func variadic(v ssa.Value) []ssa.Value {
	s, ok := v.(*ssa.Slice)
	if !ok {
		return nil
	}
	a, ok := s.X.(*ssa.Alloc)
	if !ok {
		return nil
	}
	at := map[int64]ssa.Value{}
	for _, r := range *a.Referrers() {
		ia, ok := r.(*ssa.IndexAddr)
		if !ok {
			continue
		}
		k, ok := ia.Index.(*ssa.Const)
		if !ok {
			continue
		}
		for _, r := range *ia.Referrers() {
			if st, ok := r.(*ssa.Store); ok && st.Addr == ia {
				at[k.Int64()] = st.Val
			}
		}
	}
	r := make([]ssa.Value, len(at))
	for k, v := range at {
		if k < 0 || k >= int64(len(r)) {
			return nil
		}
		r[k] = v
	}
	return r
}

// verbs of a format, one per operand; nil where it is not simple.
func verbs(f string) []string {
	var r []string
	for i := 0; i < len(f); i++ {
		if f[i] != '%' {
			continue
		}
		j := i + 1
		for j < len(f) && strings.IndexByte("+-# 0123456789.", f[j]) >= 0 {
			j++
		}
		if j == len(f) || f[j] == '*' || f[j] == '[' {
			return nil
		}
		if f[j] != '%' {
			r = append(r, f[i:j+1])
		}
		i = j
	}
	return r
}

func ruleC33(P *Prog, r *Report, tier string) {
	r.explain = "(1) Every operand of fmt's formatting and printing functions in the library and the tool (log output excepted) is an obligation: by its static type and verb it must not be printed as a memory address, at any depth that fmt descends to. " +
		"(2) The info command is followed with every flag for fonts of known structure and known character maps, each loop over a map run in four orders: what it prints must be the same in all, and with the flag for mappings there must be a line with the character and its glyph for every entry of the maps for (0,3), (1,0) and (3,1)."
	operands := 0
	for fn := range ssautil.AllFunctions(P.prog) {
		if P.inModule(fn) && fn.Synthetic == "" {
			obligation := func(in ssa.Instruction) {
				c, ok := in.(ssa.CallInstruction)
				if !ok {
					return
				}
				callee := c.Common().StaticCallee()
				if callee == nil || callee.Pkg == nil || callee.Pkg.Pkg.Path() != "fmt" {
					return
				}
				n := callee.Name()
				args := c.Common().Args
				var vs []string
				switch n {
				case "Sprintf", "Printf", "Fprintf", "Appendf":
					if k, ok := args[len(args)-2].(*ssa.Const); ok && k.Value != nil {
						vs = verbs(constant.StringVal(k.Value))
					}
				case "Sprint", "Sprintln", "Print", "Println", "Fprint", "Fprintln", "Append", "Appendln":
				default:
					return
				}
				for i, v := range variadic(args[len(args)-1]) {
					operands++
					verb := "%v"
					if i < len(vs) {
						verb = vs[i]
					}
					if verb[len(verb)-1] == 'T' {
						continue
					}
					m, ok := v.(*ssa.MakeInterface)
					if !ok {
						continue
					}
					why := ""
					if verb[len(verb)-1] == 'p' {
						why = "a pointer"
					} else {
						why = printsAddress(m.X.Type(), strings.Contains(verb, "#") && strings.HasSuffix(verb, "v"), 0, map[types.Type]bool{})
					}
					if why != "" {
						r.add(Finding{Rule: "address", Key: fn.String() + " " + why, Where: P.pos(in.Pos()), Msg: fmt.Sprintf("%s: %s is printed as an address, so the text differs from run to run", fn.Name(), why)})
					}
				}
			}
			for _, b := range fn.Blocks {
				for _, in := range b.Instrs {
					obligation(in)
				}
			}
		}
	}
	r.count("operands", operands)
	r.need("operands", operands, 10)

	pkg := cmdPkg(P)
	if pkg == nil {
		r.add(Finding{Rule: "analysis", Key: "cmd", Where: "-", Msg: "the package of the commands is not found"})
		return
	}
	var all []*fontShape
	for i, s := range shapes() {
		if !s.large && len(s.glyphs) < 200 && (s.with["cmap"] || i%4 == 0) {
			s.known = true
			all = append(all, s)
		}
	}
	runs, entries := 0, 0
	var texts [4]map[string]string
	for k := 0; k < 4; k++ {
		texts[k] = map[string]string{}
		order := k
		forShapes(P, r, all, func(s *fontShape) [][]fontOp { return [][]fontOp{{}} }, func(e *PE, o *peOut) func() {
			if o.err {
				return func() {}
			}
			var fs []Finding
			got := map[string]string{}
			ents := 0
			at := "-"
			bad := func(rule, f string, a ...any) {
				fs = append(fs, Finding{Rule: rule, Key: o.s.name, Where: at, Msg: o.s.name + ": " + fmt.Sprintf(f, a...)})
			}
			done := func() {
				for _, f := range fs {
					r.add(f)
				}
				for id, t := range got {
					texts[order][id] = t
				}
				runs += len(got)
				entries += ents
			}
			old := e.order
			defer func() { e.order, e.fs, e.ext, e.stdout = old, nil, nil, nil }()
			e.order = order
			e.ext = e.cliExt(nil)
			e.steps, e.depth = 0, 0
			if msg := e.run(func() { e.initPkg(pkg) }); msg != "" {
				bad("analysis", "initialisation of the commands: %s", msg)
				return done
			}
			c, ok := e.commands()["info"]
			if !ok {
				bad("analysis", "the command info is not found")
				return done
			}
			at = P.pos(c.fn.Pos())
			var names []string
			for f := range e.flags {
				names = append(names, f)
			}
			sort.Strings(names)
			for _, flag := range append([]string{""}, names...) {
				flags := map[string]pv{flag: true}
				e.fs = newFS()
				e.fs.files["f.ttf"] = append([]pv(nil), o.b...)
				e.ext = e.cliExt(flags)
				e.setFlags(flags)
				e.stdout = &pbuf{}
				e.steps, e.depth = 0, 0
				failed := false
				msg := e.run(func() {
					res := e.call(c.fn, []pv{pptr{&pcell{&pterm{op: "command"}}}, mkBytes([]pv{"f.ttf"})}, c.bs)
					if i, ok := res.(piface); ok && c.e && i.t != nil {
						failed = true
					}
				})
				if msg != "" || failed {
					bad("analysis", "info --%s: %s", flag, msg)
					continue
				}
				var sb strings.Builder
				for _, b := range e.stdout.all() {
					if n, ok := b.(pnum); ok && n.isConst() {
						sb.WriteByte(byte(n.k))
					} else {
						sb.WriteString("<" + pstr(b) + ">")
					}
				}
				text := sb.String()
				got[o.s.name+": info --"+flag+"\x00"+at] = text
				if flag != "cmappings" || order > 0 || !o.s.with["cmap"] {
					continue
				}
				lines := strings.Split(text, "\n")
				for _, pe := range [][2]int{{0, 3}, {1, 0}, {3, 1}} {
					var m *pmap
					e.steps, e.depth = 0, 0
					if msg := e.run(func() {
						t, _ := e.call(P.lib.Func("Parse"), []pv{newSource(append([]pv(nil), o.b...))}, nil).(ptuple)
						m, _ = e.call(fontMethod(P, "GetCmap"), []pv{t[0], knum(int64(pe[0])), knum(int64(pe[1]))}, nil).(*pmap)
					}); msg != "" {
						bad("analysis", "GetCmap(%d,%d): %s", pe[0], pe[1], msg)
						continue
					}
					if m == nil {
						continue
					}
					for _, k := range m.keys {
						cell := m.m[pstr(k)]
						c, ok := k.(pnum)
						if cell == nil || !ok || !c.isConst() || !unicode.IsPrint(rune(c.k)) {
							continue
						}
						g, ok := cell.v.(pnum)
						if !ok || !g.isConst() {
							continue
						}
						ents++
						found := false
						for _, l := range lines {
							if strings.Contains(l, string(rune(c.k))) && strings.Contains(l, strconv.FormatUint(g.k&0xffff, 10)) {
								found = true
								break
							}
						}
						if !found {
							bad("mapping", "no line of info --cmappings shows the character %U of (%d,%d) with its glyph %d", c.k, pe[0], pe[1], g.k)
						}
					}
				}
			}
			return done
		})
	}
	var ids []string
	for id := range texts[0] {
		ids = append(ids, id)
	}
	sort.Strings(ids)
	for _, id := range ids {
		for k := 1; k < 4; k++ {
			if t, ok := texts[k][id]; ok && t != texts[0][id] {
				name, at, _ := strings.Cut(id, "\x00")
				r.add(Finding{Rule: "order", Key: name, Where: at, Msg: name + ": what is printed depends on the order in which a map is ranged over"})
				break
			}
		}
	}
	r.count("command_runs", runs)
	r.count("mappings", entries)
	r.need("command runs", runs, 400)
	r.need("mappings", entries, 100)
}
