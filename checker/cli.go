package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"math"
	"os"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// A path-sensitive typestate analysis of the command line tool. The library is seen from outside: every call of it
// that returns an error has a successful and a failing outcome. Functions of the tool are analysed in their callers.
// All domains are finite, so that the exploration of each function ends.

type cv interface{}

type (
	cTop  struct{}
	cNil  struct{}
	cNon  struct{}               // a pointer, interface or slice that is not nil
	cInt  struct{ lo, hi int64 } // an integer in a range
	cBool bool
	cStr  string
	cTup  []cv
	cPtr  struct{ cell string } // the address of a variable
	cObj  struct{ kind, id string }
	cFn   struct {
		fn    *ssa.Function
		binds []cv
	}
	// bytes: the present contents of a buffer, or fixed contents
	cBytes struct{ buf string }
	cDefer struct {
		f    cv
		args []cv
		site ssa.CallInstruction
	}
)

// cState: what holds on a path.
type cState struct {
	failed string
	mem    map[string]cv     // variables
	fonts  map[string]string // font -> "", "valid"
	bufs   map[string]string // buffer -> "" (empty), font id, font id+"!" (validated), "?" (anything else)
}

func (s *cState) clone() *cState {
	r := &cState{failed: s.failed, mem: map[string]cv{}, fonts: map[string]string{}, bufs: map[string]string{}}
	for k, v := range s.mem {
		r.mem[k] = v
	}
	for k, v := range s.fonts {
		r.fonts[k] = v
	}
	for k, v := range s.bufs {
		r.bufs[k] = v
	}
	return r
}

func (s *cState) key() string {
	var b []string
	for k, v := range s.mem {
		b = append(b, k+"="+cstr(v))
	}
	for k, v := range s.fonts {
		b = append(b, k+"~"+v)
	}
	for k, v := range s.bufs {
		b = append(b, k+":"+v)
	}
	sort.Strings(b)
	return s.failed + ";" + strings.Join(b, ";")
}

func cstr(v cv) string {
	switch x := v.(type) {
	case cTup:
		var s []string
		for _, e := range x {
			s = append(s, cstr(e))
		}
		return "(" + strings.Join(s, ",") + ")"
	case cFn:
		s := x.fn.String()
		for _, e := range x.binds {
			s += "," + cstr(e)
		}
		return s
	}
	return fmt.Sprintf("%T%v", v, v)
}

type cExit struct {
	st    *cState
	res   []cv
	panic bool
}

// CLI runs the analysis.
type CLI struct {
	P     *Prog
	r     *Report
	steps int
	depth int
	fns   map[*ssa.Function]bool
	calls map[string]int
	stepN map[string]bool // failing steps met
	root  string
	emit  func(rule, key string, at ssa.Instruction, msg string)
	over  bool
	live  map[*ssa.Function][]map[ssa.Value]bool
}

// zeroC is the zero value of a type.
func zeroC(t types.Type) cv {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch {
		case u.Info()&types.IsInteger != 0:
			return cInt{0, 0}
		case u.Info()&types.IsBoolean != 0:
			return cBool(false)
		case u.Info()&types.IsString != 0:
			return cStr("")
		}
	case *types.Pointer, *types.Slice, *types.Map, *types.Interface, *types.Signature, *types.Chan:
		return cNil{}
	}
	return cTop{}
}

func typeRange(t types.Type) (cInt, bool) {
	bits, signed, ok := basicInfo(t)
	if !ok {
		return cInt{}, false
	}
	if bits == 0 {
		bits = 64
	}
	switch {
	case bits >= 64 && signed:
		return cInt{math.MinInt64, math.MaxInt64}, true
	case bits >= 64:
		return cInt{0, math.MaxInt64}, true
	case signed:
		return cInt{-1 << (bits - 1), 1<<(bits-1) - 1}, true
	}
	return cInt{0, 1<<bits - 1}, true
}

type cFrame struct {
	fn     *ssa.Function
	ctx    string
	env    map[ssa.Value]cv
	defers []cDefer
}

func (f *cFrame) clone() *cFrame {
	r := &cFrame{fn: f.fn, ctx: f.ctx, env: map[ssa.Value]cv{}}
	for k, v := range f.env {
		r.env[k] = v
	}
	r.defers = append(r.defers, f.defers...)
	return r
}

func (f *cFrame) key() string {
	var b []string
	for k, v := range f.env {
		b = append(b, k.Name()+"="+cstr(v))
	}
	sort.Strings(b)
	return fmt.Sprint(strings.Join(b, ";"), len(f.defers))
}

func (c *CLI) val(f *cFrame, v ssa.Value) cv {
	switch x := v.(type) {
	case *ssa.Const:
		if x.Value == nil {
			return zeroC(x.Type())
		}
		switch x.Value.Kind() {
		case constant.Bool:
			return cBool(constant.BoolVal(x.Value))
		case constant.String:
			return cStr(constant.StringVal(x.Value))
		case constant.Int:
			if n, ok := constant.Int64Val(x.Value); ok {
				return cInt{n, n}
			}
		}
		return cTop{}
	case *ssa.Function:
		return cFn{fn: x}
	case *ssa.Global:
		return cPtr{"g:" + x.String()}
	}
	if r, ok := f.env[v]; ok {
		return r
	}
	return cTop{}
}

// run explores a function from a state and lists the ways it ends by return or panic.
func (c *CLI) run(fn *ssa.Function, args, binds []cv, st *cState, ctx string) []cExit {
	if c.depth > 12 || len(fn.Blocks) == 0 {
		c.over = c.over || c.depth > 12
		return []cExit{{st: st, res: c.tops(fn.Signature)}}
	}
	c.depth++
	defer func() { c.depth-- }()
	c.fns[fn] = true
	f := &cFrame{fn: fn, ctx: ctx, env: map[ssa.Value]cv{}}
	for i, p := range fn.Params {
		if i < len(args) {
			f.env[p] = args[i]
		}
	}
	for i, p := range fn.FreeVars {
		if i < len(binds) {
			f.env[p] = binds[i]
		}
	}
	type item struct {
		b, prev *ssa.BasicBlock
		f       *cFrame
		st      *cState
	}
	live := c.liveIn(fn)
	seen := map[string]bool{}
	var exits []cExit
	exSeen := map[string]bool{}
	leave := func(e cExit) {
		k := fmt.Sprint(e.panic, cstr(cTup(e.res)), e.st.key())
		if !exSeen[k] {
			exSeen[k] = true
			exits = append(exits, e)
		}
	}
	work := []item{{fn.Blocks[0], nil, f, st}}
	for len(work) > 0 {
		it := work[len(work)-1]
		work = work[:len(work)-1]
		// phis
		nf := it.f
		if it.prev != nil {
			vals := map[ssa.Value]cv{}
			for _, in := range it.b.Instrs {
				p, ok := in.(*ssa.Phi)
				if !ok {
					break
				}
				for i, q := range it.b.Preds {
					if q == it.prev {
						vals[p] = c.val(nf, p.Edges[i])
						break
					}
				}
			}
			for p, v := range vals {
				nf.env[p] = v
			}
		}
		for v := range nf.env {
			if !live[it.b.Index][v] {
				delete(nf.env, v)
			}
		}
		c.sweep(nf, it.st)
		k := fmt.Sprint(it.b.Index, "|", nf.key(), "|", it.st.key())
		if seen[k] {
			continue
		}
		seen[k] = true
		if len(seen) > 4000 {
			if os.Getenv("CLIDBG") != "" {
				fmt.Println("over", fn, k)
			}
			c.over = true
			break
		}
		cur := []item{{it.b, it.prev, nf, it.st}}
		for _, in := range it.b.Instrs {
			var next []item
			for _, x := range cur {
				if c.steps++; c.steps > 2000000 {
					c.over = true
					return exits
				}
				switch ins := in.(type) {
				case *ssa.Phi, *ssa.DebugRef:
					next = append(next, x)
				case *ssa.Return:
					var res []cv
					for _, r := range ins.Results {
						res = append(res, c.val(x.f, r))
					}
					leave(cExit{st: x.st, res: res})
				case *ssa.Jump:
					work = append(work, item{it.b.Succs[0], it.b, x.f, x.st})
				case *ssa.If:
					for i := 0; i < 2; i++ {
						if g, ok := c.branch(x.f, ins.Cond, i == 0); ok {
							work = append(work, item{it.b.Succs[i], it.b, g, x.st.clone()})
						}
					}
				case *ssa.Panic:
					for _, e := range c.unwind(x.f, x.st, ctx) {
						leave(e)
					}
				case *ssa.RunDefers:
					for _, s := range c.runDefers(x.f, x.st, ctx) {
						g := x.f.clone()
						g.defers = nil
						next = append(next, item{x.b, x.prev, g, s})
					}
				case *ssa.Defer:
					var as []cv
					for _, a := range ins.Call.Args {
						as = append(as, c.val(x.f, a))
					}
					x.f.defers = append(x.f.defers, cDefer{c.val(x.f, ins.Call.Value), as, ins})
					next = append(next, x)
				case *ssa.Store:
					if p, ok := c.val(x.f, ins.Addr).(cPtr); ok {
						x.st.mem[p.cell] = c.val(x.f, ins.Val)
					}
					next = append(next, x)
				case *ssa.Call:
					for _, e := range c.call(x.f, x.st, ins, c.val(x.f, ins.Call.Value), c.args(x.f, ins), ctx) {
						if e.panic {
							for _, e2 := range c.unwind(x.f, e.st, ctx) {
								leave(e2)
							}
							continue
						}
						g := x.f.clone()
						switch len(e.res) {
						case 0:
						case 1:
							g.env[ins] = e.res[0]
						default:
							g.env[ins] = cTup(e.res)
						}
						next = append(next, item{x.b, x.prev, g, e.st})
					}
				case *ssa.Go:
					c.emit("goroutine", "go", ins, "a step of the command runs in a goroutine, whose failure the command cannot report")
					next = append(next, x)
				case ssa.Value:
					x.f.env[ins] = c.eval(x.f, x.st, ins)
					next = append(next, x)
				default:
					next = append(next, x)
				}
			}
			cur = next
		}
	}
	return exits
}

func (c *CLI) tops(sg *types.Signature) []cv {
	var r []cv
	for i := 0; i < sg.Results().Len(); i++ {
		r = append(r, cTop{})
	}
	return r
}

func (c *CLI) args(f *cFrame, ins ssa.CallInstruction) []cv {
	var as []cv
	for _, a := range ins.Common().Args {
		as = append(as, c.val(f, a))
	}
	return as
}

// runDefers runs the deferred calls, last first.
func (c *CLI) runDefers(f *cFrame, st *cState, ctx string) []*cState {
	cur := []*cState{st}
	for i := len(f.defers) - 1; i >= 0; i-- {
		d := f.defers[i]
		var next []*cState
		for _, s := range cur {
			for _, e := range c.call(f, s, d.site, d.f, d.args, ctx) {
				next = append(next, e.st)
			}
		}
		cur = next
	}
	return cur
}

// unwind: a panic runs the deferred calls; one that recovers lets the function return.
func (c *CLI) unwind(f *cFrame, st *cState, ctx string) []cExit {
	recovers := false
	for _, d := range f.defers {
		if x, ok := d.f.(cFn); ok {
			recovers = recovers || callsRecover(x.fn)
		}
	}
	st.mem["#panic"] = cBool(true)
	var r []cExit
	for _, s := range c.runDefers(f, st, ctx) {
		if b, ok := s.mem["#panic"].(cBool); ok && !bool(b) && recovers {
			delete(s.mem, "#panic")
			var res []cv
			sg := f.fn.Signature
			for i := 0; i < sg.Results().Len(); i++ {
				// named results keep what the deferred functions stored
				var v cv = zeroC(sg.Results().At(i).Type())
				if f.fn.Recover != nil {
					for _, in := range f.fn.Recover.Instrs {
						if ret, ok := in.(*ssa.Return); ok && i < len(ret.Results) {
							if u, ok := ret.Results[i].(*ssa.UnOp); ok {
								if p, ok := c.val(f, u.X).(cPtr); ok {
									v = s.mem[p.cell]
								}
							}
						}
					}
				}
				if v == nil {
					v = cTop{}
				}
				res = append(res, v)
			}
			r = append(r, cExit{st: s, res: res})
			continue
		}
		delete(s.mem, "#panic")
		r = append(r, cExit{st: s, panic: true})
	}
	return r
}

func callsRecover(fn *ssa.Function) bool {
	for _, b := range fn.Blocks {
		for _, in := range b.Instrs {
			if k, ok := in.(*ssa.Call); ok {
				if bi, ok := k.Call.Value.(*ssa.Builtin); ok && bi.Name() == "recover" {
					return true
				}
			}
		}
	}
	return false
}

// nilness: 1 nil, -1 not nil, 0 unknown.
func nilness(v cv) int {
	switch v.(type) {
	case cNil:
		return 1
	case cNon, cPtr, cObj, cFn, cBytes:
		return -1
	}
	return 0
}

// branch refines a frame by a condition; false when the branch is impossible.
func (c *CLI) branch(f *cFrame, cond ssa.Value, want bool) (*cFrame, bool) {
	switch v := c.val(f, cond).(type) {
	case cBool:
		return f.clone(), bool(v) == want
	}
	g := f.clone()
	switch x := cond.(type) {
	case *ssa.UnOp:
		if x.Op == token.NOT {
			return c.branch(f, x.X, !want)
		}
	case *ssa.BinOp:
		a, b := c.val(f, x.X), c.val(f, x.Y)
		op := x.Op
		if !want {
			op = map[token.Token]token.Token{token.EQL: token.NEQ, token.NEQ: token.EQL, token.LSS: token.GEQ, token.GEQ: token.LSS, token.GTR: token.LEQ, token.LEQ: token.GTR}[op]
		}
		if nilness(b) == 1 && nilness(a) == 0 {
			if _, isInt := a.(cInt); !isInt {
				if op == token.EQL {
					g.env[x.X] = cNil{}
				} else {
					g.env[x.X] = cNon{}
				}
			}
			return g, true
		}
		if k, ok := b.(cInt); ok && k.lo == k.hi {
			if r, ok := refineInt(a, x.X.Type(), op, k.lo); ok {
				if r.lo > r.hi {
					return nil, false
				}
				g.env[x.X] = r
				return g, true
			}
		}
		if k, ok := a.(cInt); ok && k.lo == k.hi {
			op = map[token.Token]token.Token{token.EQL: token.EQL, token.NEQ: token.NEQ, token.LSS: token.GTR, token.GTR: token.LSS, token.LEQ: token.GEQ, token.GEQ: token.LEQ}[op]
			if r, ok := refineInt(b, x.Y.Type(), op, k.lo); ok {
				if r.lo > r.hi {
					return nil, false
				}
				g.env[x.Y] = r
			}
		}
	}
	return g, true
}

func refineInt(v cv, t types.Type, op token.Token, k int64) (cInt, bool) {
	r, ok := v.(cInt)
	if !ok {
		return r, false
	}
	switch op {
	case token.EQL:
		r.lo, r.hi = max(r.lo, k), min(r.hi, k)
	case token.LSS:
		r.hi = min(r.hi, k-1)
	case token.LEQ:
		r.hi = min(r.hi, k)
	case token.GTR:
		r.lo = max(r.lo, k+1)
	case token.GEQ:
		r.lo = max(r.lo, k)
	}
	return r, true
}

func (c *CLI) eval(f *cFrame, st *cState, v ssa.Value) cv {
	id := func() string { return f.ctx + "/" + f.fn.Name() + "." + v.Name() }
	switch x := v.(type) {
	case *ssa.Alloc:
		el := x.Type().(*types.Pointer).Elem()
		if isBufType(el) {
			st.bufs[id()] = ""
			return cObj{"buffer", id()}
		}
		for k := range st.mem {
			if strings.HasPrefix(k, id()+".") {
				delete(st.mem, k)
			}
		}
		st.mem[id()] = zeroC(el)
		return cPtr{id()}
	case *ssa.FieldAddr:
		if p, ok := c.val(f, x.X).(cPtr); ok {
			st2 := x.X.Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Struct)
			ft := st2.Field(x.Field).Type()
			k := p.cell + "." + st2.Field(x.Field).Name()
			if isBufType(ft) {
				if _, ok := st.bufs[k]; !ok {
					st.bufs[k] = ""
				}
				return cObj{"buffer", k}
			}
			if _, ok := st.mem[k]; !ok && !strings.HasPrefix(k, "g:") {
				st.mem[k] = zeroC(ft)
			}
			return cPtr{k}
		}
		if _, ok := c.val(f, x.X).(cObj); ok {
			return c.val(f, x.X) // a part of a font or buffer stands for the whole
		}
	case *ssa.UnOp:
		a := c.val(f, x.X)
		switch x.Op {
		case token.MUL:
			if p, ok := a.(cPtr); ok {
				if r, ok := st.mem[p.cell]; ok {
					return r
				}
			}
			if o, ok := a.(cObj); ok {
				return o
			}
		case token.NOT:
			if b, ok := a.(cBool); ok {
				return !b
			}
		case token.SUB:
			if n, ok := a.(cInt); ok && n.lo == n.hi {
				return cInt{-n.lo, -n.lo}
			}
		}
	case *ssa.BinOp:
		a, b := c.val(f, x.X), c.val(f, x.Y)
		switch x.Op {
		case token.EQL, token.NEQ:
			na, nb := nilness(a), nilness(b)
			if na == 1 && nb == 1 {
				return cBool(x.Op == token.EQL)
			}
			if na*nb == -1 {
				return cBool(x.Op == token.NEQ)
			}
			if s, ok := a.(cStr); ok {
				if t, ok := b.(cStr); ok {
					return cBool((s == t) == (x.Op == token.EQL))
				}
			}
			if s, ok := a.(cBool); ok {
				if t, ok := b.(cBool); ok {
					return cBool((s == t) == (x.Op == token.EQL))
				}
			}
		}
		if m, ok := a.(cInt); ok {
			if n, ok := b.(cInt); ok {
				switch x.Op {
				case token.EQL, token.NEQ, token.LSS, token.LEQ, token.GTR, token.GEQ:
					if t, ok := cmpRanges(x.Op, m, n); ok {
						return cBool(t)
					}
					return cTop{}
				}
			}
		}
		if r, ok := typeRange(x.Type()); ok {
			return r
		}
	case *ssa.Convert:
		a := c.val(f, x.X)
		to, isI := typeRange(x.Type())
		if n, ok := a.(cInt); ok && isI {
			if n.lo >= to.lo && n.hi <= to.hi {
				return n
			}
			if c.isParsed(x.X) {
				c.emit("argument-range", x.String(), x, fmt.Sprintf("a parsed argument between %d and %d is cut to %s without an error", n.lo, n.hi, x.Type()))
			}
			return to
		}
		switch a.(type) {
		case cBytes:
			return a
		}
		if isI {
			return to
		}
	case *ssa.ChangeType:
		return c.val(f, x.X)
	case *ssa.ChangeInterface:
		return c.val(f, x.X)
	case *ssa.MakeInterface:
		a := c.val(f, x.X)
		switch a.(type) {
		case cTop, cNil, cInt, cStr, cBool, cTup: // an interface holding a nil pointer is not nil
			return cNon{}
		}
		return a
	case *ssa.TypeAssert:
		if x.CommaOk {
			return cTup{c.val(f, x.X), cTop{}}
		}
		return c.val(f, x.X)
	case *ssa.Extract:
		if t, ok := c.val(f, x.Tuple).(cTup); ok && x.Index < len(t) {
			return t[x.Index]
		}
	case *ssa.MakeClosure:
		fn := cFn{fn: x.Fn.(*ssa.Function)}
		for _, b := range x.Bindings {
			fn.binds = append(fn.binds, c.val(f, b))
		}
		return fn
	case *ssa.Slice:
		a := c.val(f, x.X)
		if b, ok := a.(cBytes); ok {
			return b
		}
		if p, ok := a.(cPtr); ok {
			return p
		}
		return cNon{}
	case *ssa.MakeSlice, *ssa.MakeMap, *ssa.MakeChan:
		return cNon{}
	case *ssa.IndexAddr:
		a := c.val(f, x.X)
		if p, ok := a.(cPtr); ok {
			if k, ok := c.val(f, x.Index).(cInt); ok && k.lo == k.hi {
				return cPtr{fmt.Sprintf("%s[%d]", p.cell, k.lo)}
			}
			return cPtr{p.cell + "[?]"}
		}
		return cPtr{id() + "[?]"}
	case *ssa.Field:
		if t, ok := c.val(f, x.X).(cTup); ok && x.Field < len(t) {
			return t[x.Field]
		}
		if o, ok := c.val(f, x.X).(cObj); ok {
			return o
		}
	case *ssa.Next:
		return cTup{cTop{}, cTop{}, cTop{}}
	case *ssa.Lookup:
		if x.CommaOk {
			return cTup{cTop{}, cTop{}}
		}
	}
	if r, ok := typeRange(v.Type()); ok {
		return r
	}
	return cTop{}
}

func cmpRanges(op token.Token, a, b cInt) (bool, bool) {
	switch op {
	case token.EQL:
		if a.lo == a.hi && a == b {
			return true, true
		}
		return false, a.hi < b.lo || b.hi < a.lo
	case token.NEQ:
		t, ok := cmpRanges(token.EQL, a, b)
		return !t, ok
	case token.LSS:
		return a.hi < b.lo, a.hi < b.lo || a.lo >= b.hi
	case token.GEQ:
		t, ok := cmpRanges(token.LSS, a, b)
		return !t, ok
	case token.GTR:
		return cmpRanges(token.LSS, b, a)
	case token.LEQ:
		t, ok := cmpRanges(token.LSS, b, a)
		return !t, ok
	}
	return false, false
}

// isParsed: the value comes from a number parser.
func (c *CLI) isParsed(v ssa.Value) bool {
	for i := 0; i < 10; i++ {
		switch x := v.(type) {
		case *ssa.Convert:
			v = x.X
		case *ssa.ChangeType:
			v = x.X
		case *ssa.Extract:
			if k, ok := x.Tuple.(*ssa.Call); ok {
				if fn := k.Call.StaticCallee(); fn != nil {
					return strings.HasPrefix(fn.String(), "strconv.")
				}
			}
			return false
		case *ssa.Call:
			return false
		default:
			return false
		}
	}
	return false
}

// liveIn: the values each block may still use.
func (c *CLI) liveIn(fn *ssa.Function) []map[ssa.Value]bool {
	if c.live == nil {
		c.live = map[*ssa.Function][]map[ssa.Value]bool{}
	}
	if r := c.live[fn]; r != nil {
		return r
	}
	n := len(fn.Blocks)
	in := make([]map[ssa.Value]bool, n)
	for i := range in {
		in[i] = map[ssa.Value]bool{}
	}
	var always []ssa.Value
	if fn.Recover != nil {
		for _, i := range fn.Recover.Instrs {
			if ret, ok := i.(*ssa.Return); ok {
				for _, r := range ret.Results {
					if u, ok := r.(*ssa.UnOp); ok {
						always = append(always, u.X)
					}
				}
			}
		}
	}
	for changed := true; changed; {
		changed = false
		for i := n - 1; i >= 0; i-- {
			b := fn.Blocks[i]
			live := map[ssa.Value]bool{}
			for _, s := range b.Succs {
				for v := range in[s.Index] {
					live[v] = true
				}
				for _, ins := range s.Instrs {
					p, ok := ins.(*ssa.Phi)
					if !ok {
						break
					}
					for k, q := range s.Preds {
						if q == b {
							live[p.Edges[k]] = true
						}
					}
				}
			}
			for k := len(b.Instrs) - 1; k >= 0; k-- {
				ins := b.Instrs[k]
				if v, ok := ins.(ssa.Value); ok {
					delete(live, v)
				}
				if _, ok := ins.(*ssa.Phi); ok {
					live[ins.(ssa.Value)] = true // assigned on entry
					continue
				}
				for _, o := range ins.Operands(nil) {
					if *o != nil {
						live[*o] = true
					}
				}
			}
			for _, v := range always {
				live[v] = true
			}
			if len(live) != len(in[i]) {
				in[i], changed = live, true
			}
		}
	}
	c.live[fn] = in
	return in
}

// sweep drops the variables of this call and its callees that nothing refers to.
func (c *CLI) sweep(f *cFrame, st *cState) {
	own := func(k string) bool {
		return strings.HasPrefix(k, f.ctx+"/"+f.fn.Name()+".") || strings.HasPrefix(k, f.ctx+">")
	}
	base := func(k string) string {
		i := strings.LastIndexByte(k, '/')
		if j := strings.IndexAny(k[i+1:], "["); j >= 0 {
			k = k[:i+1+j]
		}
		// function.value.field...
		p := strings.SplitN(k[i+1:], ".", 3)
		if len(p) == 3 {
			k = k[:i+1] + p[0] + "." + p[1]
		}
		return k
	}
	reach := map[string]bool{}
	var mark func(v cv)
	by := map[string][]string{}
	for k := range st.mem {
		by[base(k)] = append(by[base(k)], k)
	}
	mark = func(v cv) {
		switch x := v.(type) {
		case cPtr:
			b := base(x.cell)
			if !reach[b] {
				reach[b] = true
				for _, k := range by[b] {
					mark(st.mem[k])
				}
			}
		case cTup:
			for _, e := range x {
				mark(e)
			}
		case cFn:
			for _, e := range x.binds {
				mark(e)
			}
		}
	}
	for _, v := range f.env {
		mark(v)
	}
	for _, d := range f.defers {
		mark(d.f)
		for _, a := range d.args {
			mark(a)
		}
	}
	for k, v := range st.mem {
		if !own(k) {
			mark(v)
		}
	}
	for k := range st.mem {
		if own(k) && !reach[base(k)] {
			delete(st.mem, k)
		}
	}
}
