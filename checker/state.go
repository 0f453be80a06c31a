package main

import (
	"fmt"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// cond is a set of facts that hold when every guard symbol lies in its interval.
type guard struct {
	s      Sym
	lo, hi int64
}

type cond struct {
	gs    []guard
	facts []*Lin
	hks   []hk
}

const maxGuards = 3

func (c *cond) dead(live func(Sym) bool) bool {
	for _, g := range c.gs {
		if !live(g.s) {
			return true
		}
	}
	return false
}

// look simplifies the guards against what is known: dead when one fails, true when none is left.
func (c *cond) look(cs *Cons) (gs []guard, dead bool) {
	for i, g := range c.gs {
		lo, hi := cs.bounds(g.s)
		switch {
		case lo > g.hi || hi < g.lo:
			return nil, true
		case lo >= g.lo && hi <= g.hi:
			if gs == nil {
				gs = append(make([]guard, 0, len(c.gs)), c.gs[:i]...)
			}
		default:
			if gs != nil {
				gs = append(gs, g)
			}
		}
	}
	if gs == nil {
		gs = c.gs
	}
	return gs, false
}

type deferred struct {
	in   *ssa.Defer
	fn   Val
	args []Val
}

// State is one abstract state of the current frame and the heap.
type State struct {
	regs      map[ssa.Value]Val
	regsOwned bool
	heap      map[ObjID]*Obj
	heapOwned bool
	owner     *int
	cons      *Cons
	conds     []cond
	hks       []hk
	neqs      []*Lin
	failed    string // non-empty: a step failed (site)
	failAt    ssa.Instruction
	ghost     map[string]string
	born      map[ObjID][]guard // what must hold for an object to exist
	defers    []*deferred
}

func newState() *State {
	return &State{regs: map[ssa.Value]Val{}, regsOwned: true, heap: map[ObjID]*Obj{}, heapOwned: true, owner: new(int), cons: newCons()}
}

func (s *State) clone() *State {
	s.owner = new(int)
	s.regsOwned, s.heapOwned = false, false
	c := *s
	c.owner = new(int)
	c.conds = s.conds[:len(s.conds):len(s.conds)]
	c.hks = s.hks[:len(s.hks):len(s.hks)]
	c.neqs = s.neqs[:len(s.neqs):len(s.neqs)]
	c.defers = s.defers[:len(s.defers):len(s.defers)]
	return &c
}

func (s *State) set(v ssa.Value, x Val) {
	if !s.regsOwned {
		n := make(map[ssa.Value]Val, len(s.regs)+4)
		for a, b := range s.regs {
			n[a] = b
		}
		s.regs = n
		s.regsOwned = true
	}
	s.regs[v] = x
}

func (s *State) setGhost(k, v string) {
	n := map[string]string{}
	for a, b := range s.ghost {
		n[a] = b
	}
	n[k] = v
	s.ghost = n
}

// obj returns the object for reading.
func (s *State) obj(id ObjID) *Obj {
	if o, ok := s.heap[id]; ok {
		return o
	}
	return objTab[id]
}

// mut returns the object for writing.
func (s *State) mut(id ObjID) *Obj {
	o := s.obj(id)
	if o.owner == s.owner {
		if _, ok := s.heap[id]; ok {
			return o
		}
	}
	n := *o
	n.owner = s.owner
	n.cells = make(map[string]Val, len(o.cells)+1)
	for k, v := range o.cells {
		n.cells[k] = v
	}
	n.elems = nil
	if len(o.elems) > 0 {
		n.elems = make(map[string]map[string]Val, len(o.elems))
		for k, v := range o.elems {
			n.elems[k] = v
		}
	}
	n.shapes = o.shapes[:len(o.shapes):len(o.shapes)]
	n.absent = o.absent[:len(o.absent):len(o.absent)]
	s.setObj(&n)
	return &n
}

// putObj adds a new object.
func (s *State) putObj(o *Obj) {
	if s.born[o.id] != nil {
		n := map[ObjID][]guard{}
		for k, v := range s.born {
			if k != o.id {
				n[k] = v
			}
		}
		s.born = n
	}
	s.setObj(o)
}

// exists records that a pointer to id has been found.
func (s *State) exists(id ObjID) bool {
	for _, g := range s.born[id] {
		if !s.addFact(addK(symL(g.s), -g.lo)) || !s.addFact(comb(-1, symL(g.s), 1, cst(g.hi))) {
			return false
		}
	}
	return true
}

func (s *State) setObj(o *Obj) {
	if !s.heapOwned {
		n := make(map[ObjID]*Obj, len(s.heap)+4)
		for a, b := range s.heap {
			n[a] = b
		}
		s.heap = n
		s.heapOwned = true
	}
	s.heap[o.id] = o
}

func (s *State) delObj(id ObjID) {
	if _, ok := s.heap[id]; !ok {
		return
	}
	if !s.heapOwned {
		n := make(map[ObjID]*Obj, len(s.heap)+4)
		for a, b := range s.heap {
			n[a] = b
		}
		s.heap = n
		s.heapOwned = true
	}
	delete(s.heap, id)
}

// addFact adds l >= 0; false when that is contradictory.
func (s *State) addFact(l *Lin) bool {
	c, ok := s.cons.with(l)
	if !ok {
		return false
	}
	if c == s.cons {
		return true
	}
	s.cons = c
	return s.wake(l)
}

// wake activates conditional facts whose guard has been decided.
func (s *State) wake(l *Lin) bool {
	for again := true; again; {
		again = false
		for i, cd := range s.conds {
			gs, dead := cd.look(s.cons)
			in := len(gs) == 0 && !dead
			if !in && !dead {
				if len(gs) < len(cd.gs) {
					cs := append([]cond(nil), s.conds...)
					cs[i].gs = gs
					s.conds = cs
				}
				continue
			}
			rest := make([]cond, 0, len(s.conds)-1)
			rest = append(rest, s.conds[:i]...)
			rest = append(rest, s.conds[i+1:]...)
			s.conds = rest
			if in {
				for _, f := range cd.facts {
					c, ok := s.cons.with(f)
					if !ok {
						return false
					}
					s.cons = c
				}
				for _, h := range cd.hks {
					s.addHK(h)
				}
			}
			again = true
			break
		}
	}
	// equalities x = k with a disequality pending
	if len(s.neqs) > 0 {
		var keep []*Lin
		changed := false
		for _, q := range s.neqs {
			lo, hi := s.cons.ival(q)
			switch {
			case lo == 0 && hi == 0:
				return false
			case lo > 0 || hi < 0:
				changed = true
			case lo == 0:
				changed = true
				c, ok := s.cons.with(addK(q, -1))
				if !ok {
					return false
				}
				s.cons = c
			case hi == 0:
				changed = true
				c, ok := s.cons.with(addK(negL(q), -1))
				if !ok {
					return false
				}
				s.cons = c
			default:
				keep = append(keep, q)
			}
		}
		if changed {
			s.neqs = keep
		}
	}
	return true
}

func (s *State) addHK(h hk) {
	for _, x := range s.hks {
		if x.obj == h.obj && eqL(x.s, h.s) {
			return
		}
	}
	s.hks = append(s.hks[:len(s.hks):len(s.hks)], h)
}

func (s *State) addEq(l *Lin) bool {
	if l == nil {
		return true
	}
	return s.addFact(l) && s.addFact(negL(l))
}

// decide reports whether b certainly holds (1), certainly fails (-1), or is open (0).
func (s *State) decide(b Bool) int {
	switch b.op {
	case 'T':
		return 1
	case 'F':
		return -1
	case 'g':
		if s.cons.prove(b.L) {
			return 1
		}
		if s.cons.prove(addK(negL(b.L), -1)) {
			return -1
		}
		return 0
	case 'e':
		if s.cons.prove(addK(b.L, -1)) || s.cons.prove(addK(negL(b.L), -1)) {
			return -1
		}
		if s.cons.proveEq(b.L) {
			return 1
		}
		for _, q := range s.neqs {
			if eqL(q, b.L) || eqL(negL(q), b.L) {
				return -1
			}
		}
		return 0
	case 'n':
		return -s.decide(Bool{op: 'e', L: b.L})
	case '&':
		x, y := s.decide(*b.a), s.decide(*b.b)
		if x < 0 || y < 0 {
			return -1
		}
		if x > 0 && y > 0 {
			return 1
		}
		return 0
	case '|':
		x, y := s.decide(*b.a), s.decide(*b.b)
		if x > 0 || y > 0 {
			return 1
		}
		if x < 0 && y < 0 {
			return -1
		}
		return 0
	}
	return 0
}

// assume restricts s (which it may modify) to b; several states for a disjunction, none when infeasible.
func (s *State) assume(b Bool) []*State {
	switch b.op {
	case 'T':
		return []*State{s}
	case 'F':
		return nil
	}
	switch s.decide(b) {
	case 1:
		return []*State{s}
	case -1:
		return nil
	}
	switch b.op {
	case 'g':
		if s.addFact(b.L) {
			return []*State{s}
		}
		return nil
	case 'e':
		if s.addEq(b.L) {
			return []*State{s}
		}
		return nil
	case 'n':
		if s.cons.prove(b.L) {
			if s.addFact(addK(b.L, -1)) {
				return []*State{s}
			}
			return nil
		}
		if s.cons.prove(negL(b.L)) {
			if s.addFact(addK(negL(b.L), -1)) {
				return []*State{s}
			}
			return nil
		}
		s.neqs = append(s.neqs[:len(s.neqs):len(s.neqs)], b.L)
		return []*State{s}
	case '&':
		var r []*State
		for _, x := range s.assume(*b.a) {
			r = append(r, x.assume(*b.b)...)
		}
		return r
	case '|':
		t := s.clone()
		r := s.assume(*b.a)
		for _, x := range t.assume(bNot(*b.a)) {
			r = append(r, x.assume(*b.b)...)
		}
		return r
	}
	return []*State{s}
}

func (s *State) isNil(nl *Lin) int { // 1 nil, -1 not nil, 0 open
	return s.decide(boolOfLin(nl))
}

// ---- Cells ----

var idxKeys = map[string]*Lin{}

func idxKey(l *Lin) string {
	k := l.key()
	idxKeys[k] = l
	return k
}

// splitElem splits a path "[@key]rest".
func splitElem(path string) (key, rest string, ok bool) {
	if !strings.HasPrefix(path, "[@") {
		return "", "", false
	}
	i := strings.IndexByte(path, ']')
	return path[2:i], path[i+1:], true
}

var symCells = map[ObjID]map[string]Val{}

// cell reads one leaf of an object.
func (s *State) cell(o *Obj, path string, t types.Type) Val {
	if key, rest, ok := splitElem(path); ok {
		if e, ok := o.elems[key]; ok {
			if v, ok := e[rest]; ok {
				return v
			}
			return zeroVal(t)
		}
		return freshVal(t, "elem", o.input)
	}
	if i := strings.Index(path, "[?]"); i >= 0 {
		return s.hullCells(o, path[:i], path[i+3:], t)
	}
	if v, ok := o.cells[path]; ok {
		return v
	}
	if o.sym {
		m := symCells[o.id]
		if m == nil {
			m = map[string]Val{}
			symCells[o.id] = m
		}
		v, ok := m[path]
		if !ok {
			s0, o0 := len(symTab), len(objTab)
			v = freshVal(t, o.name+path, o.input)
			if objTab[o.id].fixed {
				markFixed(s0, o0)
			}
			m[path] = v
		}
		return v
	}
	return zeroVal(t)
}

// hullCells is the value of an element at an unknown index of a fixed array.
func (s *State) hullCells(o *Obj, pre, post string, t types.Type) Val {
	at := subType(o.t, pre)
	arr, ok := at.Underlying().(*types.Array)
	if !ok || arr.Len() == 0 {
		return freshVal(t, "elem", o.input)
	}
	var r Val
	n := arr.Len()
	for i := int64(0); i < n; i++ {
		v := s.cell(o, fmt.Sprintf("%s[%d]%s", pre, i, post), t)
		if r == nil {
			r = v
			continue
		}
		r = hullVal(s, r, v, t)
	}
	return r
}

// hullVal is a value covering both.
func hullVal(s *State, a, b Val, t types.Type) Val {
	if sameVal(a, b) {
		return a
	}
	m := &merger{a: s, b: s, lin: func(key string, kind byte, la, lb *Lin) *Lin {
		if eqL(la, lb) {
			return la
		}
		l1, h1 := s.cons.ival(la)
		l2, h2 := s.cons.ival(lb)
		return symL(newSym("hull", min(l1, l2), max(h1, h2)))
	}}
	v, ok := m.val("", a, b)
	if !ok {
		return freshVal(t, "hull", "")
	}
	return v
}

// subType finds the type at a path of constant fields and indices.
func subType(t types.Type, path string) types.Type {
	for path != "" {
		switch path[0] {
		case '.':
			i := 1
			for i < len(path) && path[i] != '.' && path[i] != '[' && path[i] != '#' {
				i++
			}
			name := path[1:i]
			st, ok := t.Underlying().(*types.Struct)
			if !ok {
				return types.Typ[types.Invalid]
			}
			found := false
			for j := 0; j < st.NumFields(); j++ {
				if st.Field(j).Name() == name {
					t = st.Field(j).Type()
					found = true
					break
				}
			}
			if !found {
				return types.Typ[types.Invalid]
			}
			path = path[i:]
		case '[':
			i := strings.IndexByte(path, ']')
			switch u := t.Underlying().(type) {
			case *types.Array:
				t = u.Elem()
			case *types.Slice:
				t = u.Elem()
			default:
				if !strings.HasPrefix(path, "[@") {
					return types.Typ[types.Invalid]
				}
			}
			path = path[i+1:]
		default:
			return t
		}
	}
	return t
}

// load reads a value of type t at a location of a concrete object.
func (s *State) load(p PT, t types.Type) Val {
	o := s.obj(p.obj)
	if !isAgg(t) {
		return s.cell(o, p.path, t)
	}
	a := &Agg{t: t, cells: map[string]Val{}}
	for _, l := range leaves(t) {
		a.cells[l.path] = s.cell(o, p.path+l.path, l.t)
	}
	return a
}

// store writes v at a location of a concrete object.
func (s *State) store(p PT, t types.Type, v Val) {
	o := s.mut(p.obj)
	if key, rest, ok := splitElem(p.path); ok {
		e := map[string]Val{}
		for k, x := range o.elems[key] {
			e[k] = x
		}
		if isAgg(t) {
			a, _ := v.(*Agg)
			for _, l := range leaves(t) {
				if a != nil {
					e[rest+l.path] = a.get(l.path, l.t)
				} else {
					e[rest+l.path] = freshVal(l.t, "agg", "")
				}
			}
		} else {
			e[rest] = v
		}
		o.elems = map[string]map[string]Val{key: e}
		if o.many {
			o.elems = nil
		}
		s.foldInto(o, e)
		return
	}
	if i := strings.Index(p.path, "[?]"); i >= 0 {
		pre, post := p.path[:i], p.path[i+3:]
		arr, ok := subType(o.t, pre).Underlying().(*types.Array)
		if !ok {
			return
		}
		for j := int64(0); j < arr.Len(); j++ {
			q := fmt.Sprintf("%s[%d]%s", pre, j, post)
			if isAgg(t) {
				a, _ := v.(*Agg)
				for _, l := range leaves(t) {
					var nv Val
					if a != nil {
						nv = a.get(l.path, l.t)
					} else {
						nv = freshVal(l.t, "agg", "")
					}
					o.cells[q+l.path] = hullVal(s, s.cell(o, q+l.path, l.t), nv, l.t)
				}
			} else {
				o.cells[q] = hullVal(s, s.cell(o, q, t), v, t)
			}
		}
		return
	}
	if isAgg(t) {
		a, _ := v.(*Agg)
		for _, l := range leaves(t) {
			if a != nil {
				o.cells[p.path+l.path] = a.get(l.path, l.t)
			} else {
				o.cells[p.path+l.path] = freshVal(l.t, "agg", "")
			}
		}
	} else if o.app {
		o.cells[p.path] = hullVal(s, s.cell(o, p.path, t), v, t)
	} else {
		o.cells[p.path] = v
	}
	if o.inst != 0 {
		s.instStored(o, p, t)
	}
}

// instStored reflects a store through an instance in its summary and the other instances.
func (s *State) instStored(o *Obj, p PT, t types.Type) {
	sum := s.mut(o.inst)
	s.foldInto(sum, s.fullCells(o))
	for id, x := range s.heap {
		if id != o.id && x.inst == o.inst {
			y := s.mut(id)
			for _, l := range leaves(t) {
				q := p.path + l.path
				y.cells[q] = hullVal(s, s.cell(y, q, l.t), s.cell(o, q, l.t), l.t)
			}
		}
	}
}

// fullCells lists all leaves of an object of struct type (lazily created ones included).
func (s *State) fullCells(o *Obj) map[string]Val {
	r := map[string]Val{}
	for _, l := range leaves(o.t) {
		r[l.path] = s.cell(o, l.path, l.t)
	}
	for k, v := range o.cells {
		if _, ok := r[k]; !ok {
			r[k] = v
		}
	}
	return r
}

// ---- Garbage ----

// reach collects the objects and symbols reachable from the given roots.
func (s *State) reach(roots []Val, objs map[ObjID]bool, syms map[Sym]bool) {
	var work []ObjID
	add := func(id ObjID) {
		if !objs[id] {
			objs[id] = true
			work = append(work, id)
		}
	}
	sym := func(x Sym) { syms[x] = true }
	visit := func(v Val) {
		eachObj(v, add)
		symsOf(v, sym)
	}
	for _, r := range roots {
		visit(r)
	}
	for len(work) > 0 {
		id := work[len(work)-1]
		work = work[:len(work)-1]
		o := s.obj(id)
		if o.inst != 0 {
			add(o.inst)
		}
		for _, v := range o.cells {
			visit(v)
		}
		for _, e := range o.elems {
			for _, v := range e {
				visit(v)
			}
		}
		for _, sh := range o.shapes {
			for _, v := range sh.cells {
				visit(v)
			}
			for _, h := range sh.hks {
				add(h.obj)
				for _, t := range h.s.t {
					sym(t.s)
				}
			}
		}
		if o.ln != nil {
			for _, t := range o.ln.t {
				sym(t.s)
			}
		}
		for _, k := range o.absent {
			for _, t := range k.t {
				sym(t.s)
			}
		}
		if o.sym {
			// lazily created cells are part of the object
			for p, v := range symCells[id] {
				if _, ok := o.cells[p]; !ok {
					visit(v)
				}
			}
		}
	}
}

// markFixed records that the symbols and objects created since the marks describe unchanging inputs.
func markFixed(s0, o0 int) {
	for i := s0; i < len(symTab); i++ {
		symTab[i].fixed = true
	}
	for i := o0; i < len(objTab); i++ {
		objTab[i].fixed = true
	}
}
