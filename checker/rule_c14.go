package main

import (
	"fmt"
	"go/token"
	"go/types"
	"sort"
	"strings"
	"sync"

	"golang.org/x/tools/go/ssa"
)

func init() { checks["C14"] = ruleC14 }

// fromExported is what can run when an exported function or method of the library's packages is called.
func (P *Prog) fromExported() map[*ssa.Function]bool {
	r := map[*ssa.Function]bool{}
	byName := map[string][]*ssa.Function{}
	var todo []*ssa.Function
	for _, fn := range P.fns {
		if P.inCLI(fn) {
			continue
		}
		if fn.Signature.Recv() != nil {
			byName[fn.Name()] = append(byName[fn.Name()], fn)
		}
		isInit := fn.Parent() == nil && (fn.Name() == "init" || strings.HasPrefix(fn.Name(), "init#"))
		if isInit || token.IsExported(fn.Name()) {
			todo = append(todo, fn)
		}
	}
	for len(todo) > 0 {
		fn := todo[0]
		todo = todo[1:]
		if r[fn] || !P.inModule(fn) {
			continue
		}
		r[fn] = true
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				if c, ok := in.(ssa.CallInstruction); ok && c.Common().IsInvoke() {
					todo = append(todo, byName[c.Common().Method.Name()]...)
				}
				for _, op := range in.Operands(nil) {
					if f, ok := (*op).(*ssa.Function); ok {
						todo = append(todo, f)
					}
				}
				if m, ok := in.(*ssa.MakeClosure); ok {
					if f, ok := m.Fn.(*ssa.Function); ok {
						todo = append(todo, f)
					}
				}
			}
		}
	}
	return r
}

// ambient tells whether a function of another package gives something that is not determined by its arguments.
func ambient(fn *ssa.Function) bool {
	if fn.Pkg == nil {
		return false
	}
	n := fn.Name()
	switch fn.Pkg.Pkg.Path() {
	case "time":
		switch n {
		case "Now", "Since", "Until", "After", "Tick", "NewTimer", "NewTicker", "AfterFunc", "LoadLocation":
			return true
		}
		return n == "Local" && fn.Signature.Recv() != nil
	case "math/rand", "math/rand/v2", "crypto/rand", "hash/maphash", "os/user":
		return true
	case "os":
		switch n {
		case "Getenv", "LookupEnv", "Environ", "Hostname", "Getpid", "Getppid", "Getuid", "Getgid", "Getwd", "Executable", "TempDir", "UserHomeDir", "UserCacheDir", "UserConfigDir", "ExpandEnv":
			return true
		}
	case "runtime":
		switch n {
		case "NumCPU", "NumGoroutine", "GOMAXPROCS", "ReadMemStats", "Caller", "Callers", "NumCgoCall", "Stack":
			return true
		}
	case "reflect":
		return n == "MapKeys" || n == "MapRange"
	case "maps":
		return n == "Keys" || n == "Values" || n == "All"
	}
	return false
}

// logged tells whether a value is only used for log output; what it is used for otherwise is returned.
func logged(v ssa.Value, seen map[ssa.Value]bool) ssa.Instruction {
	if seen[v] {
		return nil
	}
	seen[v] = true
	refs := v.Referrers()
	if refs == nil {
		return nil
	}
	for _, in := range *refs {
		switch x := in.(type) {
		case *ssa.DebugRef:
			continue
		case *ssa.MakeInterface, *ssa.BinOp, *ssa.UnOp, *ssa.Convert, *ssa.ChangeType, *ssa.Phi, *ssa.Slice, *ssa.Extract, *ssa.ChangeInterface:
			if at := logged(in.(ssa.Value), seen); at != nil {
				return at
			}
			continue
		case *ssa.Store:
			var base ssa.Value = x.Addr
			if ia, ok := base.(*ssa.IndexAddr); ok {
				base = ia.X
			}
			if a, ok := base.(*ssa.Alloc); ok {
				if at := logged(a, seen); at != nil {
					return at
				}
				continue
			}
		case *ssa.IndexAddr:
			if at := logged(x, seen); at != nil {
				return at
			}
			continue
		case *ssa.Call:
			f := x.Common().StaticCallee()
			if f != nil && f.Pkg != nil {
				p := f.Pkg.Pkg.Path()
				if strings.Contains(p, "logrus") || p == "log" {
					continue
				}
				if p == "time" || p == "fmt" && strings.HasPrefix(f.Name(), "Sprint") {
					if at := logged(x, seen); at != nil {
						return at
					}
					continue
				}
			}
			if x.Common().IsInvoke() && x.Common().Method.Pkg() != nil && strings.Contains(x.Common().Method.Pkg().Path(), "logrus") {
				continue
			}
		}
		return in
	}
	return nil
}

// orderFree tells whether the body of a loop over a map does the same for every order: it only fills maps and sets by the
// key of the loop, or collects keys in a slice that is sorted right behind the loop.
func orderFree(rg *ssa.Range) bool {
	if rg.Referrers() == nil {
		return false
	}
	var next *ssa.Next
	for _, in := range *rg.Referrers() {
		if n, ok := in.(*ssa.Next); ok {
			next = n
		}
	}
	if next == nil {
		return true
	}
	head := next.Block()
	if len(head.Succs) != 2 {
		return false
	}
	var body []*ssa.BasicBlock
	seen := map[*ssa.BasicBlock]bool{head: true}
	todo := []*ssa.BasicBlock{head.Succs[0]}
	for len(todo) > 0 {
		b := todo[0]
		todo = todo[1:]
		if seen[b] {
			continue
		}
		seen[b] = true
		body = append(body, b)
		todo = append(todo, b.Succs...)
	}
	// what is behind the loop was followed too when the loop can be left
	if seen[head.Succs[1]] {
		return false
	}
	for _, in := range head.Instrs {
		if p, ok := in.(*ssa.Phi); ok {
			for _, ed := range p.Edges {
				if b, ok := ed.(*ssa.BinOp); ok {
					if _, _, isInt := basicInfo(b.Type()); isInt && (b.Op == token.ADD || b.Op == token.OR || b.Op == token.AND || b.Op == token.XOR) {
						continue
					}
				}
				if ed == p || ed.Parent() == p.Parent() && outside(ed, seen) {
					continue
				}
				return false
			}
		}
	}
	for _, b := range body {
		for _, in := range b.Instrs {
			switch x := in.(type) {
			case *ssa.MapUpdate:
				if !fromKey(x.Key, next) {
					return false
				}
			case *ssa.Store, *ssa.Send, *ssa.Go, *ssa.Defer, *ssa.Return, *ssa.Panic:
				return false
			case *ssa.Call:
				if bi, ok := x.Common().Value.(*ssa.Builtin); ok && (bi.Name() == "len" || bi.Name() == "delete" && fromKey(x.Common().Args[1], next)) {
					continue
				}
				return false
			}
		}
	}
	return true
}

func outside(v ssa.Value, in map[*ssa.BasicBlock]bool) bool {
	x, ok := v.(ssa.Instruction)
	return !ok || !in[x.Block()]
}

// fromKey: the key of the loop itself.
func fromKey(v ssa.Value, next *ssa.Next) bool {
	switch x := v.(type) {
	case *ssa.Extract:
		return x.Tuple == next && x.Index == 1
	case *ssa.Convert:
		a, _, _ := basicInfo(x.X.Type())
		b, _, _ := basicInfo(x.Type())
		return a > 0 && b >= a && fromKey(x.X, next)
	case *ssa.ChangeType:
		return fromKey(x.X, next)
	case *ssa.MakeInterface:
		return fromKey(x.X, next)
	}
	return false
}

// deepText writes a value out, maps by their sorted keys.
func deepText(v pv, depth int) string {
	if depth > 6 {
		return "…"
	}
	switch x := v.(type) {
	case *pmap:
		if x == nil {
			return "nil"
		}
		var s []string
		for _, k := range x.keys {
			if c := x.m[pstr(k)]; c != nil {
				s = append(s, deepText(k, depth+1)+": "+deepText(c.v, depth+1))
			}
		}
		sort.Strings(s)
		return "map{" + strings.Join(s, ", ") + "}"
	case ptuple:
		var s []string
		for _, y := range x {
			s = append(s, deepText(y, depth+1))
		}
		return "(" + strings.Join(s, ", ") + ")"
	case piface:
		if x.t == nil {
			return "nil"
		}
		if types.Identical(x.t, types.Typ[types.String]) {
			return deepText(x.v, depth+1)
		}
		return "a " + x.t.String()
	}
	return pstr(v)
}

func ruleC14(P *Prog, r *Report, tier string) {
	r.explain = "The library (its initialisation included) is followed on fonts of known structure and unknown contents with every loop over a map run in four orders: as filled, backwards, and both from the middle. What is written, whether there is an error, " +
		"the maps for every platform and encoding, the looked-up glyphs, the name accessors and the text conversions must be the same in all of them. Loops over maps that were not run with two entries must be order-free by form (they only fill maps by their own key). " +
		"Besides, nothing that can run from an exported function may use the clock, random numbers, the environment or goroutines other than for log output."
	at := "-"
	if fn := fontMethod(P, "SubsetFirst"); fn != nil {
		at = P.pos(fn.Pos())
	}
	ranged := map[*ssa.Range]int{}
	cases := 0
	var mu sync.Mutex
	start := func() *orders {
		mu.Lock()
		defer mu.Unlock()
		o := &orders{P: P, r: r, at: at, mu: &mu, cases: &cases}
		for k := 0; k < 4; k++ {
			e := newPE(P)
			e.order, e.ranged = k, map[*ssa.Range]int{}
			for _, p := range sortedPkgs(P) {
				if strings.Contains(p.Pkg.Path(), "truecli") {
					continue
				}
				if msg := e.run(func() { e.initPkg(p) }); msg != "" {
					r.add(Finding{Rule: "analysis", Key: p.Pkg.Path(), Where: "-", Msg: "initialisation of " + p.Pkg.Path() + ": " + msg})
				}
			}
			o.es = append(o.es, e)
		}
		o.reset()
		return o
	}
	var done []*orders
	all := append(shapes(), compositeShapes()...)
	inParallel(len(all), func() func(int) {
		o := start()
		mu.Lock()
		done = append(done, o)
		mu.Unlock()
		return func(i int) {
			s := all[i]
			if s.large {
				return
			}
			ops := everyOp(s)
			ops = append(ops, keepOps(s)...)
			if len(s.glyphs) < 200 && s.with["cmap"] {
				for k := 1; k < len(s.glyphs); k += 2 {
					ops = append(ops, []fontOp{opFirst(k)})
				}
			}
			bad := 0
			for _, op := range ops {
				if bad > 2 {
					break
				}
				o.reset()
				name := ""
				same1 := func(e *PE) string {
					out := e.produce(s, op...)
					name = out.name()
					if out.msg != "" {
						e.fail("%s: %s", name, out.msg)
					}
					if out.err {
						return name + " error"
					}
					var t strings.Builder
					for _, b := range out.b {
						t.WriteString(pstr(b))
						t.WriteByte(' ')
					}
					seen := map[[2]int]bool{}
					for _, sub := range out.s.subs {
						id := [2]int{sub.p, sub.e}
						if !s.with["cmap"] || seen[id] {
							continue
						}
						seen[id] = true
						e.steps, e.depth = 0, 0
						m, _ := e.call(fontMethod(P, "GetCmap"), []pv{out.font, knum(int64(sub.p)), knum(int64(sub.e))}, nil).(*pmap)
						t.WriteString(fmt.Sprintf("\nGetCmap(%d,%d): %s", sub.p, sub.e, mapText(m)))
						if m == nil {
							continue
						}
						keys := append([]pv(nil), m.keys...)
						sort.Slice(keys, func(i, j int) bool { return pstr(keys[i]) < pstr(keys[j]) })
						if len(keys) > 20 {
							keys = keys[:20]
						}
						e.steps = 0
						x := e.call(fontMethod(P, "LookupRunes"), []pv{out.font, mkBytes(keys)}, nil)
						if sl, ok := x.(pslice); ok {
							for i := 0; i < sl.ln; i++ {
								t.WriteString(" " + pstr(sl.a.e[sl.off+i].v))
							}
						}
					}
					return t.String()
				}
				if !o.same(s.name+": "+opNames(op), same1) {
					bad++
				}
			}
			if s.with["name"] {
				o.reset()
				for id := 0; id < 7; id++ {
					o.same(fmt.Sprintf("%s: names (%d)", s.name, id), func(e *PE) string {
						e.choose = func(string) (bool, bool) { return false, true }
						font, msg := e.parseWith(s.build())
						if msg != "" {
							e.fail("%s", msg)
						}
						e.choose, e.nominal = printable, nil
						defer func() { e.choose = nil }()
						e.steps, e.depth = 0, 0
						if id == 0 {
							return deepText(e.call(fontMethod(P, "GetNameRecords"), []pv{font}, nil), 0)
						}
						return deepText(e.call(fontMethod(P, "GetNameByID"), []pv{font, knum(int64(id))}, nil), 0)
					})
				}
			}
		}
	})
	for _, o := range done {
		for _, e := range o.es {
			for x, n := range e.ranged {
				ranged[x] = max(ranged[x], n)
			}
		}
	}
	// text conversions, by constants
	conv := 0
	o := start()
	for _, p := range sortedPkgs(P) {
		if strings.Contains(p.Pkg.Path(), "truecli") || p == P.lib {
			continue
		}
		for _, fn := range pkgFuncs(p) {
			sig := fn.Signature
			if !token.IsExported(fn.Name()) || sig.Params().Len() != 1 || sig.Recv() != nil {
				continue
			}
			var args []pv
			switch t := sig.Params().At(0).Type().Underlying().(type) {
			case *types.Basic:
				if t.Info()&types.IsString == 0 {
					continue
				}
				var u strings.Builder
				for c := rune(1); c < 0x2ff; c++ {
					u.WriteRune(c)
				}
				for c := rune(0x2010); c < 0x2130; c++ {
					u.WriteRune(c)
				}
				u.WriteString("\u2212\ufb01\ufb02\U0001f600")
				for _, c := range u.String() {
					args = append(args, string(c))
				}
			case *types.Slice:
				if b, ok := t.Elem().Underlying().(*types.Basic); !ok || b.Kind() != types.Uint8 {
					continue
				}
				var bs []pv
				for c := 0; c < 256; c++ {
					args = append(args, mkBytes([]pv{knum(int64(c)), knum(int64(c))}))
					bs = append(bs, knum(int64(c)))
				}
				args = append(args, mkBytes(bs))
			default:
				continue
			}
			o.at = P.pos(fn.Pos())
			for i, a := range args {
				conv++
				if !o.same(fmt.Sprintf("%s(%s)", fn.Name(), cutText(pstr(a), 40)), func(e *PE) string {
					e.choose, e.nominal = nil, nil
					return deepText(e.call(fn, []pv{a}, nil), 0) + fmt.Sprint(i)
				}) {
					break
				}
			}
		}
	}
	for _, e := range o.es {
		for x, n := range e.ranged {
			ranged[x] = max(ranged[x], n)
		}
	}
	// loops that were not run, and what comes from outside
	reach := P.fromExported()
	loops, calls := 0, 0
	for _, fn := range P.fns {
		if !reach[fn] || P.inCLI(fn) {
			continue
		}
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				bad := func(rule, f string, a ...any) {
					r.add(Finding{Rule: rule, Key: P.fnName(fn), Where: P.instrPos(in), Msg: P.fnName(fn) + ": " + fmt.Sprintf(f, a...)})
				}
				switch x := in.(type) {
				case *ssa.Range:
					if _, ok := x.X.Type().Underlying().(*types.Map); !ok {
						continue
					}
					loops++
					if ranged[x] >= 2 || orderFree(x) {
						r.sample(fmt.Sprintf("%s: loop over a map in %s, run with %d entries", P.instrPos(in), P.fnName(fn), ranged[x]))
						continue
					}
					bad("map-loop", "a loop over a map that was not run in several orders, and what it does is not of a form that is independent of the order")
				case *ssa.Go:
					bad("concurrent", "a goroutine is started: results can depend on the schedule")
				case *ssa.Select:
					bad("concurrent", "a select statement: results can depend on the schedule")
				case ssa.CallInstruction:
					f := x.Common().StaticCallee()
					if f == nil {
						continue
					}
					calls++
					if !ambient(f) {
						continue
					}
					v, ok := in.(ssa.Value)
					if !ok {
						continue
					}
					if use := logged(v, map[ssa.Value]bool{}); use != nil {
						bad("ambient", "%s is called and what it gives is used for more than log output (%s)", P.fnName(f), P.instrPos(use))
					}
				}
			}
		}
	}
	r.count("results_compared", cases)
	r.count("conversions", conv)
	r.count("functions", len(reach))
	r.count("map_loops", loops)
	r.count("calls_scanned", calls)
	r.need("results compared", cases, 150)
	r.need("functions", len(reach), 60)
}

// orders are evaluators that iterate maps in different orders.
type orders struct {
	P        *Prog
	r        *Report
	at       string
	es       []*PE
	mu       *sync.Mutex
	cases    *int
	shared   map[int]pderived
	sharedBy map[string]int
}

func (o *orders) reset() { o.shared, o.sharedBy = map[int]pderived{}, map[string]int{} }

// same compares what is observed in each order.
func (o *orders) same(name string, obs func(e *PE) string) bool {
	first := ""
	add := func(f Finding) {
		o.mu.Lock()
		o.r.add(f)
		o.mu.Unlock()
	}
	o.mu.Lock()
	*o.cases++
	o.mu.Unlock()
	for k, e := range o.es {
		e.steps, e.depth = 0, 0
		e.limit = 80000000
		e.derived, e.derivedBy, e.nomTerm = o.shared, o.sharedBy, nil
		var s string
		if msg := e.run(func() { s = obs(e) }); msg != "" {
			add(Finding{Rule: "analysis", Key: name, Where: o.at, Msg: name + ": " + msg})
			return false
		}
		if k == 0 {
			first = s
		} else if s != first {
			i := 0
			for i < len(s) && i < len(first) && s[i] == first[i] {
				i++
			}
			cut := func(s string) string {
				lo, hi := max(0, i-40), min(len(s), i+60)
				return s[lo:hi]
			}
			add(Finding{Rule: "order-dependent", Key: name, Where: o.at, Msg: fmt.Sprintf("%s: the result depends on the order of map iteration: …%s… when maps are iterated in the order they were filled, …%s… in another order", name, cut(first), cut(s))})
			return false
		}
	}
	return true
}

func opNames(ops []fontOp) string {
	var s []string
	for _, o := range ops {
		s = append(s, o.name)
	}
	return strings.Join(append(s, "Write"), ", ")
}

func cutText(s string, n int) string {
	if len(s) > n {
		return s[:n] + "…"
	}
	return s
}

func pkgFuncs(p *ssa.Package) []*ssa.Function {
	var names []string
	for n := range p.Members {
		names = append(names, n)
	}
	sort.Strings(names)
	var r []*ssa.Function
	for _, n := range names {
		if f, ok := p.Members[n].(*ssa.Function); ok {
			r = append(r, f)
		}
	}
	return r
}
