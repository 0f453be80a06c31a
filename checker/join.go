package main

import (
	"fmt"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// leafType finds the type of a cell of an object.
func leafType(o *Obj, path string) types.Type {
	if i := strings.IndexByte(path, '#'); i >= 0 {
		if path[i:] == "#src" {
			return nil
		}
		return intT
	}
	return subType(o.t, path)
}

// mergeObj merges one object of two states.
func mergeObj(m *merger, res *State, oa, ob *Obj) *Obj {
	if oa == ob {
		return oa
	}
	n := *oa
	n.owner = res.owner
	pre := fmt.Sprintf("o%d:", oa.id)
	switch oa.kind {
	case okCell:
		n.cells = map[string]Val{}
		keys := map[string]bool{}
		for k := range oa.cells {
			keys[k] = true
		}
		for k := range ob.cells {
			keys[k] = true
		}
		ks := make([]string, 0, len(keys))
		for k := range keys {
			ks = append(ks, k)
		}
		sort.Strings(ks)
		for _, k := range ks {
			t := leafType(oa, k)
			va := m.a.cell(oa, k, t)
			vb := m.b.cell(ob, k, t)
			v, ok := m.val(pre+k, va, vb)
			if !ok {
				v = freshVal(t, "join"+k, "")
			}
			n.cells[k] = v
		}
	case okArr, okSum, okMap:
		n.shapes = res.mergeShapeLists(oa.shapes, ob.shapes)
		n.elems = nil
		for k, ea := range oa.elems {
			eb, ok := ob.elems[k]
			if !ok {
				continue
			}
			e := map[string]Val{}
			good := true
			for _, p := range sortedKeys(ea) {
				vb, ok := eb[p]
				if !ok {
					good = false
					break
				}
				v, ok := m.val(pre+"["+k+"]"+p, ea[p], vb)
				if !ok {
					good = false
					break
				}
				e[p] = v
			}
			if good {
				if n.elems == nil {
					n.elems = map[string]map[string]Val{}
				}
				n.elems[k] = e
			}
		}
		if oa.ln != nil && ob.ln != nil {
			n.ln = m.lin(pre+"len", 'i', oa.ln, ob.ln)
		}
		n.absent = nil
		for _, x := range oa.absent {
			for _, y := range ob.absent {
				if eqL(x, y) {
					n.absent = append(n.absent, x)
				}
			}
		}
		n.many = oa.many || ob.many
	}
	if oa.inst != ob.inst {
		n.inst = oa.inst
		if n.inst == 0 {
			n.inst = ob.inst
		}
	}
	return &n
}

// mergeHeaps merges registers and heap; res receives the result.
func mergeInto(m *merger, res *State) {
	a, b := m.a, m.b
	type rv struct {
		v ssa.Value
		n string
	}
	var vs []rv
	for v := range a.regs {
		if _, ok := b.regs[v]; ok {
			vs = append(vs, rv{v, v.Name()})
		}
	}
	sort.Slice(vs, func(i, j int) bool { return vs[i].n < vs[j].n })
	res.regs = make(map[ssa.Value]Val, len(vs))
	res.regsOwned = true
	for _, x := range vs {
		va, vb := a.regs[x.v], b.regs[x.v]
		v, ok := m.val("r:"+x.n, va, vb)
		if !ok {
			v = freshVal(x.v.Type(), "join:"+x.n, "")
		}
		res.regs[x.v] = v
	}
	ids := map[ObjID]bool{}
	for id := range a.heap {
		ids[id] = true
	}
	for id := range b.heap {
		ids[id] = true
	}
	is := make([]ObjID, 0, len(ids))
	for id := range ids {
		is = append(is, id)
	}
	sort.Slice(is, func(i, j int) bool { return is[i] < is[j] })
	res.heap = make(map[ObjID]*Obj, len(is))
	res.heapOwned = true
	res.owner = new(int)
	for _, id := range is {
		oa, ina := a.heap[id]
		ob, inb := b.heap[id]
		switch {
		case ina && inb:
			res.heap[id] = mergeObj(m, res, oa, ob)
		case ina:
			if objTab[id].sym {
				res.heap[id] = mergeObj(m, res, oa, objTab[id])
			} else {
				res.heap[id] = oa
			}
		default:
			if objTab[id].sym {
				res.heap[id] = mergeObj(m, res, objTab[id], ob)
			} else {
				res.heap[id] = ob
			}
		}
	}
}

// inLoop is set while the body of a loop is analysed.
var inLoop bool

// join merges two states of the same frame.
func join(a, b *State) *State {
	res := a.clone()
	res.cons = newCons()
	// discriminating symbols: decided differently on the two sides
	var sel *Lin // 1 in a, 0 in b
	type disc struct {
		s      Sym
		la, ha int64
		lb, hb int64
	}
	var ds []disc
	addDisc := func(s Sym) {
		la, ha := a.cons.bounds(s)
		lb, hb := b.cons.bounds(s)
		if ha < lb || hb < la {
			for _, d := range ds {
				if d.s == s {
					return
				}
			}
			ds = append(ds, disc{s, la, ha, lb, hb})
		}
	}
	for s := range a.cons.unit {
		addDisc(s)
	}
	for s := range b.cons.unit {
		if _, ok := a.cons.unit[s]; !ok {
			addDisc(s)
		}
	}
	flag := func(d disc) bool { return symTab[d.s].lo == 0 && symTab[d.s].hi == 1 }
	sort.Slice(ds, func(i, j int) bool {
		if x, y := flag(ds[i]), flag(ds[j]); x != y {
			return x
		}
		return ds[i].s < ds[j].s
	})
	selSym := Sym(0)
	nflag := 0
	for _, d := range ds {
		if flag(d) {
			nflag++
		}
	}
	if nflag > 0 {
		if ds[0].la == 1 {
			sel = symL(ds[0].s)
		} else {
			sel = comb(1, lin1, -1, symL(ds[0].s))
		}
	}
	getSel := func() *Lin {
		if sel == nil {
			selSym = newSym("sel", 0, 1)
			sel = symL(selSym)
		}
		return sel
	}
	type pair struct{ a, b string }
	seen := map[pair]*Lin{}
	type grp struct {
		la, lb, phi *Lin
	}
	groups := map[string]*grp{} // by key of la-lb
	defA := map[Sym]*Lin{}
	defB := map[Sym]*Lin{}
	var phis []Sym
	m := &merger{a: a, b: b}
	m.lin = func(key string, kind byte, la, lb *Lin) *Lin {
		if la == nil || lb == nil {
			return symL(newSym("ovf", -INF, INF))
		}
		if eqL(la, lb) {
			return la
		}
		pk := pair{la.key(), lb.key()}
		if x, ok := seen[pk]; ok {
			return x
		}
		r := func() *Lin {
			d := subL(la, lb)
			if d != nil && kind != 's' {
				if k, ok := d.constVal(); ok {
					return comb(1, lb, k, getSel())
				}
			}
			if kind == 's' || kind == 'i' || kind == 'n' {
				if a.cons.proveEq(d) {
					return lb
				}
				if b.cons.proveEq(d) {
					return la
				}
			}
			if d != nil && kind != 's' && kind != 'n' && kind != 'c' {
				if g, ok := groups[d.key()]; ok {
					return addL(g.phi, subL(la, g.la))
				}
			}
			l1, h1 := a.cons.ival(la)
			l2, h2 := b.cons.ival(lb)
			lo := min(l1, l2)
			if lo < 0 && kind != 's' && (l1 >= 0 || a.cons.prove(la)) && (l2 >= 0 || b.cons.prove(lb)) {
				lo = 0
			}
			y := newSym(nameOf(la), lo, max(h1, h2))
			if o := orgOf(la); o == orgOf(lb) {
				setOrg(y, o)
			}
			defA[y], defB[y] = la, lb
			if kind != 's' && kind != 'c' {
				phis = append(phis, y)
			}
			if d != nil && kind != 's' && kind != 'n' && kind != 'c' {
				groups[d.key()] = &grp{la, lb, symL(y)}
			}
			return symL(y)
		}()
		seen[pk] = r
		return r
	}
	mergeInto(m, res)

	// facts
	fa, fb := map[string]bool{}, map[string]bool{}
	for _, f := range a.cons.facts {
		fa[f.key()] = true
	}
	for _, f := range b.cons.facts {
		fb[f.key()] = true
	}
	for s, ua := range a.cons.unit {
		lb, hb := b.cons.bounds(s)
		lo, hi := min(ua.lo, lb), max(ua.hi, hb)
		if lo > symTab[s].lo || hi < symTab[s].hi {
			res.cons.unit[s] = iv{lo, hi}
		}
	}
	for s, ub := range b.cons.unit {
		if _, ok := a.cons.unit[s]; ok {
			continue
		}
		la, ha := a.cons.bounds(s)
		lo, hi := min(ub.lo, la), max(ub.hi, ha)
		if lo > symTab[s].lo || hi < symTab[s].hi {
			res.cons.unit[s] = iv{lo, hi}
		}
	}
	var onlyA, onlyB []*Lin
	for _, f := range a.cons.facts {
		if fb[f.key()] || b.cons.prove(f) {
			res.cons.facts = append(res.cons.facts, f)
		} else {
			onlyA = append(onlyA, f)
		}
	}
	for _, f := range b.cons.facts {
		if fa[f.key()] {
			continue
		}
		if a.cons.prove(f) {
			res.cons.facts = append(res.cons.facts, f)
		} else {
			onlyB = append(onlyB, f)
		}
	}
	// one-sided unit bounds
	unitFacts := func(x, y *State) []*Lin {
		var r []*Lin
		var ss []Sym
		for s := range x.cons.unit {
			ss = append(ss, s)
		}
		sort.Slice(ss, func(i, j int) bool { return ss[i] < ss[j] })
		for _, s := range ss {
			u := x.cons.unit[s]
			lo, hi := y.cons.bounds(s)
			if u.lo > lo && u.lo > symTab[s].lo {
				r = append(r, addK(symL(s), -u.lo))
			}
			if u.hi < hi && u.hi < symTab[s].hi {
				r = append(r, comb(-1, symL(s), 1, cst(u.hi)))
			}
		}
		return r
	}
	uA, uB := unitFacts(a, b), unitFacts(b, a)
	// relations of the new symbols
	if len(phis) > 0 && len(phis) <= 24 {
		cand := func(x *State, def map[Sym]*Lin) []*Lin {
			c := x.cons.inlined()
			keep := map[Sym]bool{}
			for _, p := range phis {
				keep[p] = true
				e := subL(symL(p), def[p])
				if e == nil {
					continue
				}
				c, _ = c.with(e)
				c, _ = c.with(negL(e))
			}
			var seeds []*Lin
			for _, p := range phis {
				seeds = append(seeds, symL(p))
			}
			live := func(s Sym) bool { return keep[s] || !privateTo(s, a, b) }
			rows := c.project(seeds, live)
			var out []*Lin
			for _, r := range rows {
				has := false
				for _, t := range r.t {
					if keep[t.s] {
						has = true
					}
				}
				if has && len(r.t) <= 4 {
					out = append(out, r)
				}
			}
			// facts about the old symbol carried over to the new one
			n0 := len(out)
			for _, p := range phis {
				d := def[p]
				if len(d.t) > 0 && len(d.t) <= 6 && (len(d.t) > 1 || d.t[0].c != 1) {
					// the whole form occurs in a fact
					for _, f := range x.cons.facts {
						k, c := f.coef(d.t[0].s), d.t[0].c
						if k == 0 || len(f.t) < len(d.t) {
							continue
						}
						if c < 0 {
							k, c = -k, -c
						}
						m := gcd64(k, c)
						k, c = k/m, c/m
						g := comb(c, f, -k, d)
						if g = comb(1, g, k, symL(p)); g != nil && len(g.t) <= len(f.t)-len(d.t)+1 {
							out = append(out, normRow(g))
						}
					}
				}
				if len(d.t) != 1 || d.t[0].c != 1 {
					continue
				}
				m := map[Sym]*Lin{d.t[0].s: addK(symL(p), -d.k)}
				for _, f := range append(out[:n0:n0], x.cons.facts...) {
					if len(f.t) <= 4 && f.coef(d.t[0].s) != 0 {
						if g := substL(f, m); g != nil {
							out = append(out, g)
						}
					}
				}
			}
			// the same with equal symbols
			if eqs := c.unitEqs(); len(eqs) > 0 {
				for _, r := range out {
					for _, t := range r.t {
						for _, e := range eqs[t.s] {
							if g := substL(r, map[Sym]*Lin{t.s: e}); g != nil && !keep[t.s] {
								out = append(out, g)
							}
						}
					}
				}
			}
			return out
		}
		holds := func(x *State, def map[Sym]*Lin, f *Lin) bool {
			g := substL(f, def)
			return g != nil && (x.cons.prove(g) || x.split([]*Lin{g}, 2, func(y *State) bool { return y.cons.prove(g) }))
		}
		for _, f := range cand(a, defA) {
			if holds(b, defB, f) {
				res.cons, _ = res.cons.with(f)
			}
		}
		for _, f := range cand(b, defB) {
			if holds(a, defA, f) {
				res.cons, _ = res.cons.with(f)
			}
		}
	}
	// conditional facts
	res.conds = nil
	have := map[string]bool{}
	keyOf := func(c cond) string {
		s := fmt.Sprint(c.gs)
		for _, f := range c.facts {
			s += "|" + f.key()
		}
		for _, h := range c.hks {
			s += fmt.Sprintf("|%d%s", h.obj, h.s.key())
		}
		return s
	}
	kb := map[string]bool{}
	for _, c := range b.conds {
		kb[keyOf(c)] = true
	}
	var lostA, lostB []cond
	// keepIn splits a conditional fact into what also holds on the other side and the rest
	keepIn := func(x *State, c cond) (kept, lost *cond) {
		if _, dead := c.look(x.cons); dead {
			return &c, nil
		}
		var in, out []*Lin
		for _, f := range c.facts {
			if x.cons.prove(f) {
				in = append(in, f)
			} else {
				out = append(out, f)
			}
		}
		if len(in) > 0 {
			kept = &cond{c.gs, in, nil}
		}
		if len(out)+len(c.hks) > 0 {
			lost = &cond{c.gs, out, c.hks}
		}
		return kept, lost
	}
	for _, c := range a.conds {
		k := keyOf(c)
		if have[k] {
			continue
		}
		have[k] = true
		if kb[k] {
			res.conds = append(res.conds, c)
			continue
		}
		kept, lost := keepIn(b, c)
		if kept != nil {
			res.conds = append(res.conds, *kept)
		}
		if lost != nil {
			lostA = append(lostA, *lost)
		}
	}
	for _, c := range b.conds {
		k := keyOf(c)
		if have[k] {
			continue
		}
		have[k] = true
		kept, lost := keepIn(a, c)
		if kept != nil {
			res.conds = append(res.conds, *kept)
		}
		if lost != nil {
			lostB = append(lostB, *lost)
		}
	}
	res.hks = nil
	var hkA, hkB []hk
	type hkKey struct {
		obj ObjID
		s   string
	}
	index := func(hs []hk) map[hkKey]bool {
		m := make(map[hkKey]bool, len(hs))
		for _, h := range hs {
			m[hkKey{h.obj, h.s.key()}] = true
		}
		return m
	}
	inA, inB := index(a.hks), index(b.hks)
	for _, h := range a.hks {
		if inB[hkKey{h.obj, h.s.key()}] {
			res.hks = append(res.hks, h)
		} else {
			hkA = append(hkA, h)
		}
	}
	for _, h := range b.hks {
		if !inA[hkKey{h.obj, h.s.key()}] {
			hkB = append(hkB, h)
		}
	}
	onlyA = append(onlyA, uA...)
	onlyB = append(onlyB, uB...)
	// what each merged quantity was on either side
	if len(phis) <= 24 {
		for _, y := range phis {
			for _, z := range []struct {
				d  *Lin
				to *[]*Lin
			}{{defA[y], &onlyA}, {defB[y], &onlyB}} {
				if len(z.d.t) > 3 {
					continue
				}
				if e := subL(symL(y), z.d); e != nil {
					*z.to = append(*z.to, e, negL(e))
				}
			}
		}
	}
	// the guards themselves must not become their own conditional facts
	addCond := func(s Sym, lo, hi int64, facts []*Lin, hks []hk, lost []cond) {
		g := guard{s, lo, hi}
		for _, c := range lost {
			if len(c.gs) < maxGuards {
				c.gs = append(append([]guard(nil), c.gs...), g)
				res.conds = append(res.conds, c)
			}
		}
		var fs []*Lin
		for _, f := range facts {
			if len(f.t) == 1 && f.t[0].s == s {
				continue
			}
			fs = append(fs, f)
		}
		if len(fs)+len(hks) > 0 {
			res.conds = append(res.conds, cond{[]guard{g}, fs, hks})
		}
	}
	if selSym != 0 {
		addCond(selSym, 1, 1, onlyA, hkA, lostA)
		addCond(selSym, 0, 0, onlyB, hkB, lostB)
	}
	// guards: a few flags and a few other symbols, the oldest first (inputs and table fields)
	nf, no := 0, 0
	for i, d := range ds {
		if flag(d) {
			nf++
			if nf > 3 {
				continue
			}
		} else {
			no++
			if no > 3 {
				continue
			}
		}
		la, lb := lostA, lostB
		if selSym != 0 || i > 0 {
			la, lb = nil, nil
		}
		addCond(d.s, d.la, d.ha, onlyA, hkA, la)
		addCond(d.s, d.lb, d.hb, onlyB, hkB, lb)
	}
	res.coalesce()
	// objects that exist on one side only
	res.born = nil
	if len(a.born)+len(b.born) > 0 || !inLoop {
		bg := map[ObjID][]guard{}
		one := func(x, y *State, left bool) {
			for id := range x.heap {
				if _, ok := y.heap[id]; ok {
					if left {
						for _, g := range x.born[id] {
							for _, h := range y.born[id] {
								if g.s == h.s {
									bg[id] = append(bg[id], guard{g.s, min(g.lo, h.lo), max(g.hi, h.hi)})
								}
							}
						}
					}
					continue
				}
				o := objTab[id]
				if o.sym || o.fixed || inLoop {
					continue
				}
				gs := x.born[id][:len(x.born[id]):len(x.born[id])]
				for i, d := range ds {
					if i >= 3 {
						break
					}
					if left {
						gs = append(gs, guard{d.s, d.la, d.ha})
					} else {
						gs = append(gs, guard{d.s, d.lb, d.hb})
					}
				}
				if selSym != 0 {
					k := int64(0)
					if left {
						k = 1
					}
					gs = append(gs, guard{selSym, k, k})
				}
				if len(gs) > 4 {
					gs = gs[:4]
				}
				if len(gs) > 0 {
					bg[id] = gs
				}
			}
		}
		one(a, b, true)
		one(b, a, false)
		if len(bg) > 0 {
			res.born = bg
		}
	}
	// disequalities
	res.neqs = nil
	for _, q := range a.neqs {
		for _, p := range b.neqs {
			if eqL(p, q) {
				res.neqs = append(res.neqs, q)
			}
		}
	}
	if len(a.defers) != len(b.defers) {
		// deferred calls of either side are kept (the longer list)
		if len(b.defers) > len(a.defers) {
			res.defers = b.defers
		}
	}
	if res.failed == "" {
		res.failed, res.failAt = b.failed, b.failAt
	}
	return res
}

func allProve(s *State, fs []*Lin) bool {
	for _, f := range fs {
		if !s.cons.prove(f) {
			return false
		}
	}
	return true
}

// privateTo is a cheap test for symbols that only matter on one side: nothing is known about sharing, so
// the projection keeps every symbol that both sides constrain or that is an input.
func privateTo(s Sym, a, b *State) bool {
	if symTab[s].fixed {
		return false
	}
	_, ua := a.cons.unit[s]
	_, ub := b.cons.unit[s]
	if ua && ub {
		return false
	}
	ina, inb := mentions(a, s), mentions(b, s)
	return !(ina && inb)
}

func mentions(x *State, s Sym) bool {
	if _, ok := x.cons.unit[s]; ok {
		return true
	}
	for _, f := range x.cons.facts {
		for _, t := range f.t {
			if t.s == s {
				return true
			}
		}
	}
	return false
}

// alwaysLive symbols are part of the specification.
var alwaysLive = map[Sym]bool{}

// gc drops unreachable objects and the facts about symbols nobody can observe.
func (s *State) gc(roots []Val, pinned map[Sym]bool) {
	objs := map[ObjID]bool{}
	syms := map[Sym]bool{}
	s.reach(roots, objs, syms)
	for id := range s.heap {
		if !objs[id] {
			s.delObj(id)
		}
	}
	for x := range pinned {
		syms[x] = true
	}
	for x := range alwaysLive {
		syms[x] = true
	}
	for d, l := range diffDefs {
		ok := true
		for _, t := range l.t {
			ok = ok && syms[t.s]
		}
		if ok {
			syms[d] = true
		}
	}
	live := func(x Sym) bool { return syms[x] }
	// conditional facts: keep those that speak about live symbols and whose guard is live
	var cs []cond
	for _, c := range s.conds {
		if c.dead(live) {
			continue
		}
		var fs []*Lin
		for _, f := range c.facts {
			ok := false
			for _, t := range f.t {
				if live(t.s) {
					ok = true
				}
			}
			if ok {
				fs = append(fs, f)
			}
		}
		var hs []hk
		for _, h := range c.hks {
			ok := objs[h.obj]
			for _, t := range h.s.t {
				if !live(t.s) {
					ok = false
				}
			}
			if ok {
				hs = append(hs, h)
			}
		}
		if len(fs)+len(hs) > 0 {
			cs = append(cs, cond{c.gs, fs, hs})
		}
	}
	s.conds = cs
	for _, c := range cs {
		for _, f := range c.facts {
			for _, t := range f.t {
				syms[t.s] = true
			}
		}
	}
	var hks []hk
	for _, h := range s.hks {
		ok := objs[h.obj]
		for _, t := range h.s.t {
			if !live(t.s) {
				ok = false
			}
		}
		if ok {
			hks = append(hks, h)
		}
	}
	s.hks = hks
	if len(s.born) > 0 {
		n := map[ObjID][]guard{}
		for id, gs := range s.born {
			if !objs[id] {
				continue
			}
			var r []guard
			for _, g := range gs {
				if live(g.s) {
					r = append(r, g)
				}
			}
			if len(r) > 0 {
				n[id] = r
			}
		}
		s.born = n
	}
	var nq []*Lin
	for _, q := range s.neqs {
		ok := true
		for _, t := range q.t {
			if !live(t.s) {
				ok = false
			}
		}
		if ok {
			nq = append(nq, q)
		}
	}
	s.neqs = nq
	s.cons = s.cons.restrict(live)
}

// restrict eliminates dead symbols where that does not grow the system; facts over dead symbols only are dropped.
func (c *Cons) restrict(live func(Sym) bool) *Cons {
	n := &Cons{unit: map[Sym]iv{}}
	facts := append([]*Lin(nil), c.facts...)
	cnt := map[Sym]int{}
	for _, f := range facts {
		for _, t := range f.t {
			if !live(t.s) {
				cnt[t.s]++
			}
		}
	}
	dead := make([]Sym, 0, len(cnt))
	for s := range cnt {
		dead = append(dead, s)
	}
	sort.Slice(dead, func(i, j int) bool { return dead[i] < dead[j] })
	for _, s := range dead {
		var pos, neg, rest []*Lin
		for _, f := range facts {
			switch k := f.coef(s); {
			case k > 0:
				pos = append(pos, f)
			case k < 0:
				neg = append(neg, f)
			default:
				rest = append(rest, f)
			}
		}
		if len(pos)+len(neg) == 0 {
			continue
		}
		lo, hi := c.bounds(s)
		p2, n2 := pos, neg
		if lo > -INF {
			p2 = append(p2[:len(p2):len(p2)], &Lin{k: -lo, t: []term{{s, 1}}})
		}
		if hi < INF {
			n2 = append(n2[:len(n2):len(n2)], &Lin{k: hi, t: []term{{s, -1}}})
		}
		var out []*Lin
		if len(p2)*len(n2) > len(pos)+len(neg)+6 && len(p2)*len(n2) > 12 {
			continue
		}
		for _, p := range p2 {
			for _, q := range n2 {
				cp, cn := p.coef(s), -q.coef(s)
				g := gcd64(cp, cn)
				r := comb(cn/g, p, cp/g, q)
				if r == nil {
					continue
				}
				r = normRow(r)
				if len(r.t) == 0 {
					continue
				}
				if l, _ := c.ival(r); l >= 0 {
					continue
				}
				out = append(out, r)
			}
		}
		facts = append(rest, out...)
	}
	seen := map[string]bool{}
	for s, u := range c.unit {
		if live(s) {
			n.unit[s] = u
		}
	}
	for _, f := range facts {
		any := false
		for _, t := range f.t {
			if live(t.s) {
				any = true
			}
		}
		if !any {
			continue
		}
		for _, t := range f.t {
			if u, ok := c.unit[t.s]; ok {
				n.unit[t.s] = u
			}
		}
		if len(f.t) == 1 {
			if m, ok := n.with(f); ok {
				n = m
			}
			continue
		}
		k := f.key()
		if !seen[k] {
			seen[k] = true
			n.facts = append(n.facts, f)
		}
	}
	return n
}

// joinAll joins states, those with the same objects first: what is known of an object is then merged before
// it meets a state without the object.
func joinAll(sts []*State) *State {
	switch len(sts) {
	case 1:
		return sts[0]
	case 2:
		return join(sts[0], sts[1])
	}
	groups := map[[2]uint64]*State{}
	var order [][2]uint64
	for _, s := range sts {
		k := [2]uint64{uint64(len(s.heap)), 0}
		for id := range s.heap {
			x := uint64(id) * 0x9E3779B97F4A7C15
			k[1] += x ^ x>>29
		}
		if g, ok := groups[k]; ok {
			groups[k] = join(g, s)
		} else {
			groups[k] = s
			order = append(order, k)
		}
	}
	r := groups[order[0]]
	for _, k := range order[1:] {
		r = join(r, groups[k])
	}
	return r
}

// inlined adds, to facts over symbols of known value, the fact with the value put in.
func (c *Cons) inlined() *Cons {
	var add []*Lin
	for _, f := range c.facts {
		var m map[Sym]*Lin
		for _, t := range f.t {
			if u, ok := c.unit[t.s]; ok && u.lo == u.hi {
				if m == nil {
					m = map[Sym]*Lin{}
				}
				m[t.s] = cst(u.lo)
			}
		}
		if m != nil {
			if g := substL(f, m); g != nil && len(g.t) > 1 {
				add = append(add, g)
			}
		}
	}
	for _, g := range add {
		c, _ = c.with(g)
	}
	return c
}

// unitEqs lists the equalities x = y + k between two symbols.
func (c *Cons) unitEqs() map[Sym][]*Lin {
	var m map[Sym][]*Lin
	keys := map[string]bool{}
	for _, f := range c.facts {
		if len(f.t) != 2 || f.t[0].c+f.t[1].c != 0 || (f.t[0].c != 1 && f.t[0].c != -1) {
			continue
		}
		keys[f.key()] = true
		if !keys[negL(f).key()] {
			continue
		}
		if m == nil {
			m = map[Sym][]*Lin{}
		}
		for i := range f.t {
			x, y := f.t[i], f.t[1-i]
			// x.c*x + y.c*y + k = 0 with y.c = -x.c
			m[x.s] = append(m[x.s], addK(symL(y.s), -x.c*f.k))
		}
	}
	return m
}
