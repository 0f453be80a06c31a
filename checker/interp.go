package main

import (
	"fmt"
	"go/token"
	"go/types"
	"os"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// ---- Function facts: order, loops, liveness ----

type loopInfo struct {
	head   *ssa.BasicBlock
	blocks map[*ssa.BasicBlock]bool
}

type fnInfo struct {
	rpo    []*ssa.BasicBlock
	loops  map[*ssa.BasicBlock]*loopInfo
	liveIn []map[ssa.Value]bool // by block index, phis of the block excluded
	order  map[ssa.Instruction]int
}

var fnInfos = map[*ssa.Function]*fnInfo{}

func infoOf(fn *ssa.Function) *fnInfo {
	if i, ok := fnInfos[fn]; ok {
		return i
	}
	fi := &fnInfo{loops: map[*ssa.BasicBlock]*loopInfo{}, order: map[ssa.Instruction]int{}}
	n := 0
	for _, b := range fn.Blocks {
		for _, in := range b.Instrs {
			fi.order[in] = n
			n++
		}
	}
	seen := map[*ssa.BasicBlock]bool{}
	var post []*ssa.BasicBlock
	var dfs func(b *ssa.BasicBlock)
	dfs = func(b *ssa.BasicBlock) {
		seen[b] = true
		for _, s := range b.Succs {
			if !seen[s] {
				dfs(s)
			}
		}
		post = append(post, b)
	}
	if len(fn.Blocks) > 0 {
		dfs(fn.Blocks[0])
	}
	for i := len(post) - 1; i >= 0; i-- {
		fi.rpo = append(fi.rpo, post[i])
	}
	for _, b := range fi.rpo {
		for _, h := range b.Succs {
			if h.Dominates(b) {
				l := fi.loops[h]
				if l == nil {
					l = &loopInfo{head: h, blocks: map[*ssa.BasicBlock]bool{h: true}}
					fi.loops[h] = l
				}
				work := []*ssa.BasicBlock{b}
				for len(work) > 0 {
					x := work[len(work)-1]
					work = work[:len(work)-1]
					if l.blocks[x] {
						continue
					}
					l.blocks[x] = true
					work = append(work, x.Preds...)
				}
			}
		}
	}
	fi.liveIn = make([]map[ssa.Value]bool, len(fn.Blocks))
	for i := range fi.liveIn {
		fi.liveIn[i] = map[ssa.Value]bool{}
	}
	isReg := func(v ssa.Value) bool {
		switch v.(type) {
		case *ssa.Const, *ssa.Global, *ssa.Function, *ssa.Builtin, nil:
			return false
		}
		return true
	}
	for changed := true; changed; {
		changed = false
		for i := len(fi.rpo) - 1; i >= 0; i-- {
			b := fi.rpo[i]
			live := map[ssa.Value]bool{}
			for _, s := range b.Succs {
				for v := range fi.liveIn[s.Index] {
					live[v] = true
				}
				pi := -1
				for j, p := range s.Preds {
					if p == b {
						pi = j
					}
				}
				for _, in := range s.Instrs {
					ph, ok := in.(*ssa.Phi)
					if !ok {
						break
					}
					delete(live, ph)
					if isReg(ph.Edges[pi]) {
						live[ph.Edges[pi]] = true
					}
				}
			}
			// phis of successors are defined there, but an edge may carry a phi of a successor used as live
			for j := len(b.Instrs) - 1; j >= 0; j-- {
				in := b.Instrs[j]
				if v, ok := in.(ssa.Value); ok {
					delete(live, v)
				}
				if _, ok := in.(*ssa.Phi); ok {
					continue
				}
				for _, op := range in.Operands(nil) {
					if isReg(*op) {
						live[*op] = true
					}
				}
			}
			if len(live) != len(fi.liveIn[b.Index]) {
				fi.liveIn[b.Index] = live
				changed = true
			}
		}
	}
	fnInfos[fn] = fi
	return fi
}

// ---- Interpreter ----

type frame struct {
	fn         *ssa.Function
	info       *fnInfo
	key        string
	suffix     string // unrolled iterations
	callerRegs map[ssa.Value]Val
	callSite   ssa.Instruction
	exits      []exit
	parent     *frame
}

type exit struct {
	st  *State
	res Val
}

type out struct {
	from, to *ssa.BasicBlock
	st       *State
}

type loopCtx struct {
	n      Sym // the index of the iteration
	fr     *frame
	born   map[ObjID]bool
	pinned map[Sym]bool
	start  int
	atoms  []*Lin
	akeys  map[string]bool
}

// Oblig is a checked obligation.
type Oblig struct {
	kind string
	in   ssa.Instruction
	fn   *ssa.Function
	ok   bool
	msg  string
	path string
}

type sumKey struct {
	id   ObjID
	disc string
}

type Interp struct {
	P       *Prog
	fr      *frame
	loops   []*loopCtx
	globals map[*ssa.Global]ObjID
	keyObj  map[string]ObjID
	sumOf   map[sumKey]ObjID
	journal []Oblig
	events  []Event
	steps   int
	depth   int
	fnsSeen map[*ssa.Function]bool
	ext     map[string]int
	unrolls int
	passes  int
	cli     bool
	hooks   Hooks
	effects []effectRec
	bases   []*Lin
	debug   bool
	root    string
	rootFn  *ssa.Function
	budget  int
	over    bool
	exact   Sym // the font the operation starts from has no more metrics than glyphs
}

// Hooks let a rule observe the execution.
type Hooks struct {
	call       func(in *Interp, st *State, c ssa.CallInstruction, fn *ssa.Function, args []Val) ([]exit, bool)
	ext        func(e *extCall) ([]exit, bool)
	decode     func(e *extCall, s *State, b *SliceV, n int64, v Val, name string)
	store      func(in *Interp, st *State, at ssa.Instruction, o *Obj, what string)
	lookup     func(in *Interp, st *State, at ssa.Instruction, v Val, ok Bool)
	read       func(in *Interp, s *State, at ssa.Instruction, p PT, lp, k *Lin)
	readField  func(e *extCall, s *State, lp *Lin, n int64, v Val)
	writeField func(e *extCall, s *State, p PT, k *Lin, v Val, t types.Type)
	stored     func(in *Interp, s *State, at ssa.Instruction, p PT, t types.Type, v Val)
}

// Event is something that happened on some path (an effect on an input, for example).
type Event struct {
	kind string
	in   ssa.Instruction
	fn   *ssa.Function
	msg  string
	path string
}

func newInterp(P *Prog) *Interp {
	return &Interp{P: P, globals: map[*ssa.Global]ObjID{}, keyObj: map[string]ObjID{}, sumOf: map[sumKey]ObjID{},
		fnsSeen: map[*ssa.Function]bool{}, ext: map[string]int{}, debug: os.Getenv("UNICHECK_TRACE") != "", budget: 40000000}
}

func (in *Interp) chain() string {
	var p []string
	for f := in.fr; f != nil; f = f.parent {
		p = append([]string{f.fn.Name()}, p...)
	}
	return strings.Join(p, " > ")
}

func (in *Interp) oblig(kind string, at ssa.Instruction, ok bool, msg string) {
	fn := at.Parent()
	in.journal = append(in.journal, Oblig{kind, at, fn, ok, msg, ""})
	if !ok {
		in.journal[len(in.journal)-1].path = in.root + ": " + in.chain()
	}
}

func (in *Interp) event(kind string, at ssa.Instruction, msg string) {
	var fn *ssa.Function
	if at != nil {
		fn = at.Parent()
	}
	in.events = append(in.events, Event{kind, at, fn, msg, in.root + ": " + in.chain()})
}

type jmark struct{ j, e int }

func (in *Interp) mark() jmark { return jmark{len(in.journal), len(in.events)} }
func (in *Interp) reset(m jmark) {
	in.journal = in.journal[:m.j]
	in.events = in.events[:m.e]
}

// siteObj returns the object id of an allocation site in the current context.
func (in *Interp) siteObj(at ssa.Instruction, tag string, mk func() *Obj) ObjID {
	k := fmt.Sprintf("%s/%d%s%s", in.fr.key, in.fr.info.order[at], in.fr.suffix, tag)
	id, ok := in.keyObj[k]
	if !ok {
		o := mk()
		o.site = in.P.instrPos(at)
		if o.name == "" {
			o.name = "new"
		}
		id = newObj(o)
		in.keyObj[k] = id
	}
	for _, l := range in.loops {
		l.born[id] = true
	}
	return id
}

// bornObj registers a one-off object.
func (in *Interp) bornObj(o *Obj) ObjID {
	id := newObj(o)
	for _, l := range in.loops {
		l.born[id] = true
	}
	return id
}

func (in *Interp) roots(st *State, extra ...Val) []Val {
	r := append([]Val(nil), extra...)
	for _, v := range st.regs {
		r = append(r, v)
	}
	for f := in.fr; f != nil; f = f.parent {
		for _, v := range f.callerRegs {
			r = append(r, v)
		}
	}
	for _, id := range in.globals {
		r = append(r, &PtrV{alts: []PT{{id, ""}}, nl: lin0})
	}
	for _, d := range st.defers {
		r = append(r, d.fn)
		r = append(r, d.args...)
	}
	return r
}

func (in *Interp) pinned() map[Sym]bool {
	r := map[Sym]bool{}
	for _, l := range in.loops {
		for s := range l.pinned {
			r[s] = true
		}
	}
	return r
}

// call runs a function of the repository.
func (in *Interp) call(st *State, fn *ssa.Function, args []Val, binds []Val, at ssa.Instruction) []exit {
	in.depth++
	defer func() { in.depth-- }()
	rec := 0
	for f := in.fr; f != nil; f = f.parent {
		if f.fn == fn {
			rec++
		}
	}
	if rec > 4 || in.depth > 60 {
		in.oblig("recursion", at, false, "unbounded recursion: "+fn.String())
		return nil
	}
	in.fnsSeen[fn] = true
	key := fn.String()
	if in.fr != nil {
		o := 0
		if at != nil {
			o = in.fr.info.order[at]
		}
		key = fmt.Sprintf("%s/%d%s>%s", in.fr.key, o, in.fr.suffix, fn.Name())
	}
	fr := &frame{fn: fn, info: infoOf(fn), key: key, callerRegs: st.regs, callSite: at, parent: in.fr}
	callerDefers := st.defers
	st.regsOwned = false
	callerRegs := st.regs
	st.regs = map[ssa.Value]Val{}
	st.regsOwned = true
	st.defers = nil
	for i, p := range fn.Params {
		if i < len(args) {
			st.regs[p] = args[i]
		} else {
			st.regs[p] = freshVal(p.Type(), p.Name(), "")
		}
	}
	for i, p := range fn.FreeVars {
		if i < len(binds) {
			st.regs[p] = binds[i]
		} else {
			st.regs[p] = freshVal(p.Type(), p.Name(), "")
		}
	}
	in.fr = fr
	all := map[*ssa.BasicBlock]bool{}
	for _, b := range fn.Blocks {
		all[b] = true
	}
	in.region(fr, all, fn.Blocks[0], []*State{st}, false)
	// merge the exits
	groups := map[string][]exit{}
	var order []string
	for _, e := range fr.exits {
		k := in.exitKey(e)
		if _, ok := groups[k]; !ok {
			order = append(order, k)
		}
		groups[k] = append(groups[k], e)
	}
	var res []exit
	for _, k := range order {
		g := groups[k]
		for _, e := range g {
			e.st.regs = map[ssa.Value]Val{fn: e.res}
			e.st.regsOwned = true
			e.st.defers = nil
			e.st.gc(in.roots(e.st), in.pinned())
		}
		var es []*State
		for _, e := range g {
			es = append(es, e.st)
		}
		s := joinAll(es)
		if len(g) > 1 {
			s.gc(in.roots(s), in.pinned())
		}
		r := s.regs[fn]
		s.regs = callerRegs
		s.regsOwned = false
		s.defers = callerDefers
		res = append(res, exit{s, r})
	}
	in.fr = fr.parent
	return res
}

func (in *Interp) nilKey(st *State, v Val) string {
	d := 2
	switch x := v.(type) {
	case *PtrV:
		d = st.isNil(x.nl)
		if d <= 0 {
			return string("-01."[d+1]) + st.discPtr(x)
		}
	case *MapV:
		d = st.isNil(x.nl)
	case *IfaceV:
		d = st.isNil(x.nl)
	case *FuncV:
		if x.nl != nil {
			d = st.isNil(x.nl)
		}
		if d <= 0 && x.fn != nil {
			return string("-01."[d+1]) + x.fn.String()
		}
	case Bool:
		d = st.decide(x)
	case Tuple:
		s := "("
		for _, y := range x {
			s += in.nilKey(st, y)
		}
		return s + ")"
	}
	return string("-01."[d+1])
}

func (in *Interp) ghostKey(st *State) string {
	s := ""
	if st.failed != "" {
		s = "failed"
	}
	for _, k := range sortedKeys(st.ghost) {
		s += ";" + k + "=" + st.ghost[k]
	}
	return s
}

func (in *Interp) exitKey(e exit) string {
	k := in.ghostKey(e.st) + "|" + in.nilKey(e.st, e.res)
	for _, v := range resultVals(e.res) {
		if p, ok := v.(*PtrV); ok && e.st.isNil(p.nl) <= 0 {
			k += fmt.Sprint(p.alts)
		}
	}
	return k
}

func (in *Interp) skeleton(st *State) string {
	type kv struct{ n, v string }
	var p []kv
	for r, v := range st.regs {
		switch v.(type) {
		case *PtrV, *MapV, *IfaceV, *FuncV, Bool, Tuple:
			p = append(p, kv{r.Name(), in.nilKey(st, v)})
		}
	}
	sort.Slice(p, func(i, j int) bool { return p[i].n < p[j].n })
	var sb strings.Builder
	sb.WriteString(in.ghostKey(st))
	for _, x := range p {
		sb.WriteString("," + x.n + x.v)
	}
	return sb.String()
}

const maxStates = 10

// merge joins the states reaching a block where they agree on what is nil.
func (in *Interp) merge(sts []*State) []*State {
	if len(sts) <= 1 {
		return sts
	}
	groups := map[string]*State{}
	lists := map[string][]*State{}
	var order []string
	for _, s := range sts {
		k := in.skeleton(s)
		if lists[k] == nil {
			order = append(order, k)
		}
		lists[k] = append(lists[k], s)
	}
	for _, k := range order {
		groups[k] = joinAll(lists[k])
	}
	if len(order) > maxStates {
		byGhost := map[string]*State{}
		var o2 []string
		for _, k := range order {
			g := in.ghostKey(groups[k])
			if x, ok := byGhost[g]; ok {
				byGhost[g] = join(x, groups[k])
			} else {
				byGhost[g] = groups[k]
				o2 = append(o2, g)
			}
		}
		var r []*State
		for _, k := range o2 {
			r = append(r, byGhost[k])
		}
		return r
	}
	var r []*State
	for _, k := range order {
		r = append(r, groups[k])
	}
	return r
}

// region runs the blocks of a function body or of one loop iteration.
func (in *Interp) region(fr *frame, blocks map[*ssa.BasicBlock]bool, head *ssa.BasicBlock, entry []*State, isLoop bool) (outs []out, backs []*State) {
	pending := map[*ssa.BasicBlock][]*State{head: entry}
	dist := func(os []out) {
		for _, o := range os {
			switch {
			case isLoop && o.to == head:
				backs = append(backs, o.st)
			case blocks[o.to]:
				pending[o.to] = append(pending[o.to], o.st)
			default:
				outs = append(outs, o)
			}
		}
	}
	for _, b := range fr.info.rpo {
		if !blocks[b] {
			continue
		}
		sts := pending[b]
		if len(sts) == 0 {
			continue
		}
		if in.over {
			return
		}
		delete(pending, b)
		sts = in.merge(sts)
		if l := fr.info.loops[b]; l != nil && !(isLoop && b == head) {
			for _, s := range sts {
				dist(in.loop(fr, l, s))
			}
			continue
		}
		for _, s := range sts {
			dist(in.block(fr, b, s))
		}
	}
	return
}

// edge moves a state along a control-flow edge.
func (in *Interp) edge(fr *frame, st *State, from, to *ssa.BasicBlock) out {
	pi := -1
	for j, p := range to.Preds {
		if p == from {
			pi = j
		}
	}
	live := fr.info.liveIn[to.Index]
	regs := make(map[ssa.Value]Val, len(live)+2)
	for v, x := range st.regs {
		if live[v] {
			regs[v] = x
		}
	}
	for _, i := range to.Instrs {
		ph, ok := i.(*ssa.Phi)
		if !ok {
			break
		}
		regs[ph] = in.val(st, ph.Edges[pi])
	}
	st.regs = regs
	st.regsOwned = true
	return out{from, to, st}
}

// block runs the instructions of a block.
func (in *Interp) block(fr *frame, b *ssa.BasicBlock, st *State) []out {
	sts := []*State{st}
	for _, i := range b.Instrs {
		switch x := i.(type) {
		case *ssa.Phi, *ssa.DebugRef:
			continue
		case *ssa.Jump:
			var r []out
			for _, s := range sts {
				r = append(r, in.edge(fr, s, b, b.Succs[0]))
			}
			return r
		case *ssa.If:
			var r []out
			for _, s := range sts {
				c, ok := in.val(s, x.Cond).(Bool)
				if !ok {
					c = opaqueBool("cond")
				}
				in.atom(fr, c)
				if len(in.loops) == 0 {
					c = s.nameDiff(c)
				}
				d := s.decide(c)
				if d >= 0 {
					t := s
					if d == 0 {
						t = s.clone()
					}
					for _, y := range t.assume(c) {
						r = append(r, in.edge(fr, y, b, b.Succs[0]))
					}
				}
				if d <= 0 {
					for _, y := range s.assume(bNot(c)) {
						r = append(r, in.edge(fr, y, b, b.Succs[1]))
					}
				}
			}
			return r
		case *ssa.Return:
			for _, s := range sts {
				var v Val
				switch len(x.Results) {
				case 0:
					v = Tuple{}
				case 1:
					v = in.val(s, x.Results[0])
				default:
					var t Tuple
					for _, y := range x.Results {
						t = append(t, in.val(s, y))
					}
					v = t
				}
				fr.exits = append(fr.exits, exit{s, v})
			}
			return nil
		case *ssa.Panic:
			for _, s := range sts {
				in.panicAt(s, x)
			}
			return nil
		}
		in.steps++
		if in.steps > in.budget {
			if !in.over {
				in.over = true
				in.oblig("budget", i, false, "the analysis exceeded its step budget")
			}
			return nil
		}
		if atPos != "" && in.P.instrPos(i) == atPos {
			for _, s := range sts {
				fmt.Println("==== at", atPos, i)
				in.dumpAll(s)
			}
		}
		var next []*State
		for _, s := range sts {
			next = append(next, in.step(s, i)...)
		}
		if len(next) > 2*maxStates {
			next = in.merge(next)
		}
		sts = next
		if len(sts) == 0 {
			return nil
		}
	}
	return nil
}

func (in *Interp) panicAt(s *State, x *ssa.Panic) {
	if in.cli {
		return // a panic ends the tool with a non-zero status
	}
	in.oblig("panic", x, false, "explicit panic reachable")
}

// atom remembers a branch condition as a template for loop invariants.
func (in *Interp) atom(fr *frame, c Bool) {
	if len(in.loops) == 0 {
		return
	}
	l := in.loops[len(in.loops)-1]
	if l.fr != fr {
		return
	}
	var add func(b Bool)
	add = func(b Bool) {
		switch b.op {
		case 'g', 'e', 'n':
			for _, t := range b.L.t {
				if int(t.s) >= l.start && !l.pinned[t.s] && !symTab[t.s].fixed {
					return
				}
			}
			if k := b.L.key(); !l.akeys[k] {
				l.akeys[k] = true
				l.atoms = append(l.atoms, b.L)
			}
		case '&', '|':
			add(*b.a)
			add(*b.b)
		}
	}
	add(c)
}

// ---- Loops ----

const maxUnroll = 40

// maxIter exceeds the number of loop iterations any execution can perform in practice.
const maxIter = int64(1) << 56

// unroll follows a loop whose continuation is decided by constants.
func (in *Interp) unroll(fr *frame, l *loopInfo, e *State) ([]out, bool) {
	iff, ok := l.head.Instrs[len(l.head.Instrs)-1].(*ssa.If)
	if !ok {
		return nil, false
	}
	inner := l.blocks[l.head.Succs[0]] != l.blocks[l.head.Succs[1]]
	if !inner {
		return nil, false
	}
	save := fr.suffix
	defer func() { fr.suffix = save }()
	var outs []out
	sts := []*State{e}
	for n := 0; n <= maxUnroll; n++ {
		// the head decides by constants?
		fr.suffix = fmt.Sprintf("%s@%d.%d", save, l.head.Index, n)
		var bodies []*State
		for _, s := range sts {
			m := in.mark()
			t := s.clone()
			ro := in.headOnly(fr, l, t, iff)
			if ro == nil {
				in.reset(m)
				return nil, false
			}
			for _, o := range ro {
				if l.blocks[o.to] {
					bodies = append(bodies, s)
				} else {
					outs = append(outs, o)
				}
			}
			if len(ro) > 1 {
				in.reset(m)
				return nil, false
			}
			if len(ro) == 1 && l.blocks[ro[0].to] {
				in.reset(m)
			}
		}
		if len(bodies) == 0 {
			return outs, true
		}
		var nb []*State
		for _, s := range bodies {
			o, b := in.region(fr, l.blocks, l.head, []*State{s}, true)
			outs = append(outs, o...)
			nb = append(nb, b...)
		}
		sts = in.merge(nb)
		if len(sts) == 0 {
			return outs, true
		}
	}
	return nil, false
}

// headOnly runs the loop head alone; nil when its condition is not a constant.
func (in *Interp) headOnly(fr *frame, l *loopInfo, st *State, iff *ssa.If) []out {
	for _, i := range l.head.Instrs {
		if c, ok := i.(*ssa.Call); ok {
			if b, ok := c.Call.Value.(*ssa.Builtin); ok && (b.Name() == "len" || b.Name() == "cap") {
				continue
			}
		}
		switch i.(type) {
		case *ssa.Call, *ssa.Next, *ssa.Alloc, *ssa.MakeSlice, *ssa.MakeMap, *ssa.Store, *ssa.MapUpdate:
			return nil
		}
	}
	// evaluate the condition
	sts := []*State{st}
	for _, i := range l.head.Instrs {
		switch i.(type) {
		case *ssa.Phi, *ssa.If, *ssa.DebugRef:
			continue
		}
		if atPos != "" && in.P.instrPos(i) == atPos {
			for _, s := range sts {
				fmt.Println("==== at", atPos, i)
				in.dumpAll(s)
			}
		}
		var next []*State
		for _, s := range sts {
			next = append(next, in.step(s, i)...)
		}
		sts = next
		if len(sts) != 1 {
			return nil
		}
	}
	c, ok := in.val(sts[0], iff.Cond).(Bool)
	if !ok {
		return nil
	}
	switch c.op {
	case 'T':
		return []out{{l.head, l.head.Succs[0], in.edge(fr, sts[0], l.head, l.head.Succs[0]).st}}
	case 'F':
		return []out{{l.head, l.head.Succs[1], in.edge(fr, sts[0], l.head, l.head.Succs[1]).st}}
	}
	// a condition decided by the state's constants
	k := true
	for _, t := range symsOfBool(c) {
		lo, hi := sts[0].cons.bounds(t)
		if lo != hi {
			k = false
		}
	}
	if k {
		switch sts[0].decide(c) {
		case 1:
			return []out{{l.head, l.head.Succs[0], in.edge(fr, sts[0], l.head, l.head.Succs[0]).st}}
		case -1:
			return []out{{l.head, l.head.Succs[1], in.edge(fr, sts[0], l.head, l.head.Succs[1]).st}}
		}
	}
	return nil
}

func symsOfBool(b Bool) []Sym {
	var r []Sym
	symsOf(b, func(s Sym) { r = append(r, s) })
	return r
}

type lvar struct {
	key    string
	kind   byte
	affine bool
	k      int64
	e      *Lin // initial value, nil if unknown
	sym    Sym
	next   *Lin
}

func (v *lvar) form(n Sym) *Lin {
	if v.affine {
		return comb(1, v.e, v.k, symL(n))
	}
	return symL(v.sym)
}

func dropElems(s *State) {
	for id, o := range s.heap {
		if len(o.elems) > 0 {
			s.mut(id).elems = nil
		}
	}
}

func (in *Interp) loop(fr *frame, l *loopInfo, e *State) []out {
	m0 := in.mark()
	if o, ok := in.unroll(fr, l, e.clone()); ok {
		in.unrolls++
		return o
	}
	in.reset(m0)
	e.gc(in.roots(e), in.pinned())
	dropElems(e)
	ctx := &loopCtx{fr: fr, pinned: map[Sym]bool{}, start: len(symTab), akeys: map[string]bool{}}
	in.loops = append(in.loops, ctx)
	inLoop = true
	defer func() {
		in.loops = in.loops[:len(in.loops)-1]
		inLoop = len(in.loops) > 0
	}()
	n := newSym("n", 0, maxIter)
	ctx.n = n
	ctx.pinned[n] = true
	// symbols of the state before the loop stay observable
	for v := range e.regs {
		symsOf(e.regs[v], func(s Sym) { ctx.pinned[s] = true })
	}
	vars := map[string]*lvar{}
	var vorder []string
	type cand struct {
		f *Lin
	}
	var cands []cand
	dead := map[string]bool{}
	haveC := map[string]bool{}
	g := e.clone()
	var failedMsg string
	for round := 0; ; round++ {
		if in.over {
			return nil
		}
		in.passes++
		// the state at the head
		gs := g.clone()
		gs.cons = e.cons
		gs.conds = e.conds
		gs.neqs = e.neqs
		for _, c := range cands {
			c2, ok := gs.cons.with(c.f)
			if ok {
				gs.cons = c2
			}
		}
		gs.wake(nil)
		ctx.born = map[ObjID]bool{}
		m := in.mark()
		outs, backs := in.region(fr, l.blocks, l.head, []*State{gs.clone()}, true)
		if len(backs) == 0 {
			return outs
		}
		if round > 40 {
			in.oblig("converge", l.head.Instrs[0], false, "the analysis of this loop did not converge")
			return outs
		}
		var bs []*State
		for _, b := range backs {
			b.gc(in.roots(b), in.pinned())
			in.age(b, ctx)
			bs = append(bs, b)
		}
		b := joinAll(bs)
		// compare
		changed := ""
		mg := &merger{a: gs, b: b}
		mg.lin = func(key string, kind byte, lg, lb *Lin) *Lin {
			if lg == nil || lb == nil {
				return symL(newSym("ovf", -INF, INF))
			}
			if v := vars[key]; v != nil {
				if v.affine {
					exp := comb(1, v.e, v.k, addK(symL(n), 1))
					if eqL(exp, lb) || b.cons.proveEq(subL(lb, exp)) {
						return v.form(n)
					}
					v.affine = false
					v.sym = in.freeSym(ctx, v)
					v.next = lb
					changed = key
					return symL(v.sym)
				}
				v.next = lb
				return symL(v.sym)
			}
			if eqL(lg, lb) || b.cons.proveEq(subL(lb, lg)) {
				return lg
			}
			v := &lvar{key: key, kind: kind, e: lg}
			for _, t := range lg.t {
				if int(t.s) >= ctx.start && !symTab[t.s].fixed {
					v.e = nil
				}
			}
			if v.e != nil && kind == 'i' {
				if k, ok := subL(lb, lg).constVal(); ok {
					v.affine, v.k = true, k
				}
			}
			if !v.affine {
				v.sym = in.freeSym(ctx, v)
				v.next = lb
			}
			if v.e != nil {
				for _, t := range v.e.t {
					ctx.pinned[t.s] = true
				}
			}
			vars[key] = v
			vorder = append(vorder, key)
			changed = key
			return v.form(n)
		}
		res := gs.clone()
		mergeInto(mg, res)
		// keys known present survive (maps never shrink); both sides must know them
		var hks []hk
		for _, h := range gs.hks {
			for _, x := range b.hks {
				if x.obj == h.obj && eqL(x.s, h.s) {
					hks = append(hks, h)
					break
				}
			}
		}
		if len(hks) != len(gs.hks) {
			changed = "hks"
		}
		res.hks = hks
		if b.failed != "" && gs.failed == "" {
			res.failed = b.failed
			changed = "failed"
		}
		for k, v := range gs.ghost {
			if b.ghost[k] != v && v != "?" {
				res.setGhost(k, "?")
				changed = "ghost"
			}
		}
		if changed == "" {
			if d := diffState(gs, res); d != "" {
				changed = d
			}
		}
		// candidates
		sub := func(f *Lin) (*Lin, *Lin, bool) {
			mi := map[Sym]*Lin{n: lin0}
			mn := map[Sym]*Lin{n: addK(symL(n), 1)}
			for _, k := range vorder {
				v := vars[k]
				if !v.affine {
					if f.coef(v.sym) != 0 && (v.e == nil || v.next == nil) {
						return nil, nil, false
					}
					mi[v.sym] = v.e
					mn[v.sym] = v.next
				}
			}
			for _, t := range f.t {
				if int(t.s) >= ctx.start && !symTab[t.s].fixed {
					if _, ok := mi[t.s]; !ok {
						return nil, nil, false
					}
				}
			}
			return substL(f, mi), substL(f, mn), true
		}
		var keep []cand
		for _, c := range cands {
			_, fn, ok := sub(c.f)
			if ok && b.cons.prove(fn) {
				keep = append(keep, c)
			} else {
				dead[c.f.key()] = true
				changed = "cand " + c.f.String()
			}
		}
		cands = keep
		addCand := func(f *Lin) {
			if f == nil {
				return
			}
			f = normRow(f)
			if len(f.t) == 0 {
				return
			}
			k := f.key()
			if dead[k] || haveC[k] {
				return
			}
			haveC[k] = true
			fi, fnx, ok := sub(f)
			if !ok || fi == nil {
				return
			}
			if !e.cons.prove(fi) {
				dead[k] = true
				return
			}
			// worth trying only if it is not already contradicted
			if fnx == nil || b.cons.prove(addK(negL(fnx), -1)) {
				dead[k] = true
				return
			}
			cands = append(cands, cand{f})
			changed = "new cand"
		}
		for _, a := range ctx.atoms {
			addCand(a)
			addCand(addK(a, 1))
			addCand(negL(a))
			addCand(addK(negL(a), -1))
		}
		var free []*lvar
		for _, k := range vorder {
			v := vars[k]
			if v.affine || v.e == nil || v.kind != 'i' {
				continue
			}
			free = append(free, v)
		}
		for _, v := range free {
			x := symL(v.sym)
			d := subL(x, v.e)
			addCand(d)
			addCand(negL(d))
			addCand(subL(d, symL(n)))
			addCand(subL(symL(n), d))
			addCand(subL(negL(d), symL(n)))
			addCand(x)
			addCand(addK(x, 1))
			lo, hi := e.cons.ival(v.e)
			if v.next != nil {
				l2, h2 := b.cons.ival(v.next)
				lo, hi = min(lo, l2), max(hi, h2)
			}
			if lo > -INF {
				addCand(addK(x, -widenLo(lo)))
			}
			if w := widenHi(hi); w < INF {
				addCand(comb(-1, x, 1, cst(w)))
			}
			if l0, h0 := e.cons.ival(v.e); true {
				if l0 > -INF {
					addCand(addK(x, -l0))
				}
				if h0 < INF {
					addCand(comb(-1, x, 1, cst(h0)))
				}
			}
		}
		if len(free) <= 8 {
			for i, v := range free {
				for j, w := range free {
					if i == j {
						continue
					}
					dv := subL(symL(v.sym), v.e)
					dw := subL(symL(w.sym), w.e)
					addCand(subL(dv, dw))
					addCand(subL(symL(v.sym), symL(w.sym)))
					addCand(addK(subL(symL(v.sym), symL(w.sym)), -1))
					addCand(subL(subL(dv, dw), symL(n)))
				}
			}
		}
		if in.debug {
			fmt.Fprintf(os.Stderr, "LOOP %s round %d changed=%s vars=%d cands=%d backs=%d\n", in.P.pos(blockPos(l.head)), round, changed, len(vars), len(cands), len(backs))
		}
		if changed == "" {
			// stable: this pass counts
			if drains(gs, bs, l.head) {
				bs = nil
			}
			base := func(s Sym) bool { return int(s) < ctx.start || symTab[s].fixed }
			for _, x := range bs {
				if x.cons.hasUpperBound(symL(n), base) {
					continue
				}
				isVar := func(s Sym) *lvar {
					for _, k := range vorder {
						if v := vars[k]; !v.affine && v.sym == s && v.next != nil {
							return v
						}
					}
					return nil
				}
				if growsMap(gs, b, isVar, vorder, vars) {
					continue
				}
				failedMsg = "no bound on the number of iterations found"
			}
			in.oblig("loop", firstPos(l.head), failedMsg == "", failedMsg)
			return outs
		}
		in.reset(m)
		g = res
	}
}

// growsMap decides that every iteration but the last adds entries to a map whose keys are of a finite type: an
// iteration completes only when some length t is positive at its start (t >= 1), and the map has then, at the
// start of the next one, at least t' entries more than before, t' being the value of that length by then.
func growsMap(gs, b *State, isVar func(Sym) *lvar, order []string, vars map[string]*lvar) bool {
	for _, id := range sortedIDs(gs.heap) {
		o := gs.heap[id]
		if o.kind != okMap || o.ln == nil || o.many || len(o.ln.t) != 1 || o.ln.k != 0 || o.ln.t[0].c != 1 {
			continue
		}
		mt, ok := o.t.Underlying().(*types.Map)
		if !ok || keyDomain(mt.Key()) > 1<<33 {
			continue
		}
		mv := isVar(o.ln.t[0].s)
		if mv == nil {
			continue
		}
		grow := subL(mv.next, symL(mv.sym))
		if b.prove(addK(grow, -1)) {
			return true
		}
		for _, k := range order {
			t := vars[k]
			if t.affine || t.next == nil || t == mv || t.kind != 'i' {
				continue
			}
			if b.prove(addK(symL(t.sym), -1)) && b.prove(subL(grow, t.next)) && b.prove(t.next) {
				return true
			}
		}
	}
	return false
}

// drains decides that a worklist loop ends: every way back to the head either adds an entry to a map whose keys
// are of a finite type, or leaves the map no smaller and shortens a slice (or lowers a counter that stays >= 0).
func drains(gs *State, bs []*State, head *ssa.BasicBlock) bool {
	var phis []*ssa.Phi
	for _, i := range head.Instrs {
		if p, ok := i.(*ssa.Phi); ok {
			phis = append(phis, p)
		}
	}
	size := func(s *State, p *ssa.Phi) *Lin {
		switch v := s.regs[p].(type) {
		case *SliceV:
			return v.ln
		case Num:
			return v.L
		}
		return nil
	}
	for _, id := range sortedIDs(gs.heap) {
		o := gs.heap[id]
		if o.kind != okMap || o.ln == nil || o.many {
			continue
		}
		if mt, ok := o.t.Underlying().(*types.Map); !ok || keyDomain(mt.Key()) > 1<<33 {
			continue
		}
		for _, p := range phis {
			before := size(gs, p)
			good := before != nil
			for _, x := range bs {
				if !good {
					break
				}
				ox, ok := x.heap[id]
				if !ok || ox.ln == nil || ox.many {
					good = false
					break
				}
				grow, after := subL(ox.ln, o.ln), size(x, p)
				good = x.prove(addK(grow, -1)) ||
					x.prove(grow) && after != nil && x.prove(after) && x.prove(addK(subL(before, after), -1))
			}
			if good {
				return true
			}
		}
	}
	return false
}

func firstPos(b *ssa.BasicBlock) ssa.Instruction {
	for _, i := range b.Instrs {
		if i.Pos().IsValid() {
			if _, ok := i.(*ssa.Phi); !ok {
				return i
			}
		}
	}
	return b.Instrs[len(b.Instrs)-1]
}

func blockPos(b *ssa.BasicBlock) (p token.Pos) {
	for _, i := range b.Instrs {
		if i.Pos().IsValid() {
			return i.Pos()
		}
	}
	return b.Parent().Pos()
}

func (in *Interp) freeSym(ctx *loopCtx, v *lvar) Sym {
	lo, hi := -INF, INF
	switch {
	case v.kind == 'n':
		lo, hi = 0, 1
	case v.kind == 's':
		lo = 0
	case v.kind == 'c', strings.HasSuffix(v.key, "#"), strings.HasSuffix(v.key, ":len"), strings.HasSuffix(v.key, "@"):
		lo, hi = 0, maxLen
	}
	nm := v.key
	if i := strings.LastIndexByte(nm, ':'); i >= 0 {
		nm = nm[i+1:]
	}
	s := newSym(nm, lo, hi)
	ctx.pinned[s] = true
	return s
}

// diffState names a difference in registers or heap.
func diffState(a, b *State) string {
	for v, x := range b.regs {
		y, ok := a.regs[v]
		if !ok || !sameVal(x, y) {
			return "reg " + v.Name()
		}
	}
	if len(a.regs) != len(b.regs) {
		return "regs"
	}
	for id, ob := range b.heap {
		oa, ok := a.heap[id]
		if !ok {
			if objTab[id].sym {
				oa = objTab[id]
			} else {
				return fmt.Sprintf("obj %d new", id)
			}
		}
		if oa == ob {
			continue
		}
		if len(oa.shapes) != len(ob.shapes) {
			return fmt.Sprintf("obj %d shapes", id)
		}
		for i := range oa.shapes {
			if oa.shapes[i] != ob.shapes[i] {
				return fmt.Sprintf("obj %d shape %d (%s)", id, i, oa.site)
			}
		}
		for p, v := range ob.cells {
			if !sameVal(v, a.cell(oa, p, leafType(oa, p))) {
				return fmt.Sprintf("obj %d cell %s: %s / %s", id, p, showVal(v), showVal(a.cell(oa, p, leafType(oa, p))))
			}
		}
		if (oa.ln == nil) != (ob.ln == nil) || (oa.ln != nil && !eqL(oa.ln, ob.ln)) {
			return fmt.Sprintf("obj %d len", id)
		}
		if len(oa.absent) != len(ob.absent) {
			return fmt.Sprintf("obj %d absent", id)
		}
		if len(oa.elems) != len(ob.elems) {
			return fmt.Sprintf("obj %d elems", id)
		}
		for k, e := range ob.elems {
			f := oa.elems[k]
			for p, v := range e {
				if !sameVal(v, f[p]) {
					return fmt.Sprintf("obj %d elem", id)
				}
			}
		}
		if oa.many != ob.many || oa.inst != ob.inst {
			return fmt.Sprintf("obj %d flags", id)
		}
	}
	return ""
}

// age turns the objects born in the finished iteration into summaries.
func (in *Interp) age(b *State, ctx *loopCtx) {
	stable := func(s Sym) bool { return int(s) < ctx.start || symTab[s].fixed }
	ren := map[ObjID]ObjID{}
	var ids []ObjID
	for id := range b.heap {
		if ctx.born[id] {
			ids = append(ids, id)
		}
	}
	sort.Slice(ids, func(i, j int) bool { return ids[i] < ids[j] })
	// parts of structs that hold different dynamic types are kept apart
	disc := map[ObjID]string{}
	for _, id := range ids {
		o := b.obj(id)
		if o.kind != okCell {
			continue
		}
		if d := discOf(o.cells); d != "" {
			for _, v := range o.cells {
				eachObj(v, func(p ObjID) {
					if disc[p] == "" {
						disc[p] = d
					}
				})
			}
		}
	}
	for _, id := range ids {
		o := b.obj(id)
		if o.inst != 0 {
			ren[id] = o.inst
			continue
		}
		if o.kind == okSum || o.many {
			continue
		}
		sk := sumKey{id, disc[id]}
		s, ok := in.sumOf[sk]
		if !ok {
			p := &Obj{kind: o.kind, t: o.t, name: o.name, site: o.site, many: true}
			if o.kind == okCell {
				p.kind = okSum
				p.many = false
			}
			if o.kind == okMap {
				p.ln = symL(newSym("len(map)", 0, maxLen))
			}
			s = newObj(p)
			in.sumOf[sk] = s
		}
		for _, l := range in.loops {
			l.born[s] = true
		}
		ren[id] = s
	}
	for _, id := range ids {
		s, ok := ren[id]
		o := b.obj(id)
		if !ok || o.inst != 0 {
			continue
		}
		so := b.mut(s)
		switch o.kind {
		case okCell:
			so.shapes = b.foldShape(so.shapes, b.genShape(b.fullCells(o), stable))
		default:
			so.shapes = b.mergeShapeLists(so.shapes, o.shapes)
		}
		b.delObj(id)
	}
	fl := func(l *Lin) *Lin { return l }
	fo := func(o ObjID) ObjID {
		if r, ok := ren[o]; ok {
			return r
		}
		return o
	}
	for id := range ren {
		b.delObj(id)
	}
	if len(ren) > 0 {
		for v, x := range b.regs {
			if w := mapVal(x, fl, fo); !sameVal(w, x) {
				b.set(v, w)
			}
		}
	}
	all := make([]ObjID, 0, len(b.heap))
	for id := range b.heap {
		all = append(all, id)
	}
	sort.Slice(all, func(i, j int) bool { return all[i] < all[j] })
	for _, id := range all {
		o := b.obj(id)
		if len(ren) > 0 {
			touched := false
			for _, v := range o.cells {
				if w := mapVal(v, fl, fo); !sameVal(w, v) {
					touched = true
				}
			}
			if touched {
				m := b.mut(id)
				for p, v := range m.cells {
					m.cells[p] = mapVal(v, fl, fo)
				}
			}
		}
		// shapes: rename references, make iteration symbols local
		var ns []*Shape
		diff := false
		for _, sh := range o.shapes {
			x := in.ageShape(b, sh, stable, fl, fo)
			if x != sh {
				diff = true
			}
			ns = append(ns, x)
		}
		if diff {
			m := b.mut(id)
			m.shapes = nil
			for _, x := range ns {
				m.shapes = b.foldShape(m.shapes, x)
			}
			m.elems = nil
		} else if len(o.elems) > 0 {
			b.mut(id).elems = nil
		}
		if len(o.absent) > 0 {
			m := b.mut(id)
			var ab []*Lin
			for _, k := range m.absent {
				ok := true
				for _, t := range k.t {
					if !stable(t.s) {
						ok = false
					}
				}
				if ok {
					ab = append(ab, k)
				}
			}
			m.absent = ab
		}
	}
	var hks []hk
	for _, h := range b.hks {
		ok := true
		for _, t := range h.s.t {
			if !stable(t.s) {
				ok = false
			}
		}
		if ok {
			hks = append(hks, hk{fo(h.obj), h.s})
		}
	}
	b.hks = hks
}

func (in *Interp) ageShape(b *State, sh *Shape, stable func(Sym) bool, fl func(*Lin) *Lin, fo func(ObjID) ObjID) *Shape {
	need := false
	for _, v := range sh.cells {
		if !sameVal(mapVal(v, fl, fo), v) {
			need = true
		}
		symsOf(v, func(s Sym) {
			if !stable(s) && !isLocal(sh, s) {
				need = true
			}
		})
	}
	for _, h := range sh.hks {
		if fo(h.obj) != h.obj {
			need = true
		}
	}
	if !need {
		return sh
	}
	r := &Shape{disc: sh.disc, cells: map[string]Val{}, locals: append([]Sym(nil), sh.locals...)}
	seen := map[string]*Lin{}
	gl := func(l *Lin) *Lin {
		if l == nil {
			return symL(newSym("ovf", -INF, INF))
		}
		ok := true
		for _, t := range l.t {
			if !stable(t.s) && !isLocal(sh, t.s) {
				ok = false
			}
		}
		if ok {
			return l
		}
		if x, has := seen[l.key()]; has {
			return x
		}
		lo, hi := b.shIval(l)
		y := newSym(nameOf(l), lo, hi)
		setOrg(y, orgOf(l))
		r.locals = append(r.locals, y)
		x := symL(y)
		seen[l.key()] = x
		return x
	}
	defer func() {
		for _, h := range b.hks {
			x, ok := seen[h.s.key()]
			if !ok {
				continue
			}
			n := hk{fo(h.obj), x}
			dup := false
			for _, g := range r.hks {
				dup = dup || g.obj == n.obj && eqL(g.s, n.s)
			}
			if !dup {
				r.hks = append(r.hks, n)
			}
		}
	}()
	for _, k := range sortedKeys(sh.cells) {
		v := sh.cells[k]
		if sl, ok := v.(*SliceV); ok {
			ex := subL(sl.cp, sl.ln)
			w := &SliceV{off: gl(sl.off), ln: gl(sl.ln), nl: gl(sl.nl)}
			for _, x := range sl.backs {
				w.backs = addID(w.backs, fo(x))
			}
			w.cp = addL(w.ln, gl(ex))
			r.cells[k] = w
			continue
		}
		r.cells[k] = mapVal(v, gl, fo)
	}
	for _, h := range sh.hks {
		r.hks = append(r.hks, hk{fo(h.obj), gl(h.s)})
	}
	return r
}

// discPtr distinguishes pointers to structs that hold values of different dynamic types.
func (st *State) discPtr(p *PtrV) string {
	if len(p.alts) != 1 || p.alts[0].path != "" {
		return ""
	}
	o := st.obj(p.alts[0].obj)
	if o.kind != okCell || !hasIface(o.t) {
		return ""
	}
	d := discOf(o.cells)
	if d != "" {
		d = "<" + d + ">"
	}
	return d
}

var ifaceMemo = map[types.Type]bool{}

func hasIface(t types.Type) bool {
	r, ok := ifaceMemo[t]
	if !ok {
		if _, isS := t.Underlying().(*types.Struct); isS {
			for _, l := range leaves(t) {
				if types.IsInterface(l.t) {
					r = true
				}
			}
		}
		ifaceMemo[t] = r
	}
	return r
}
