package main

import "sort"

// Case splitting: when a goal does not follow from the facts, the guards of the conditional facts that speak
// about it are tried one after the other.

// splitGuards lists guard symbols worth splitting on for a goal, the most promising first.
func (s *State) splitGuards(seeds []*Lin) []Sym {
	if len(s.conds) == 0 {
		return nil
	}
	rel := map[Sym]int{}
	for _, l := range seeds {
		if l == nil {
			continue
		}
		for _, t := range l.t {
			rel[t.s] = 4
		}
	}
	hop := map[Sym]bool{}
	for _, f := range s.cons.facts {
		hit := false
		for _, t := range f.t {
			if rel[t.s] == 4 {
				hit = true
			}
		}
		if hit {
			for _, t := range f.t {
				hop[t.s] = true
			}
		}
	}
	for x := range hop {
		if rel[x] == 0 {
			rel[x] = 1
		}
	}
	score := map[Sym]int{}
	for _, c := range s.conds {
		gs, dead := c.look(s.cons)
		if dead {
			continue
		}
		best := 0
		for _, f := range c.facts {
			for _, t := range f.t {
				best = max(best, rel[t.s])
			}
		}
		if best == 0 {
			continue
		}
		for _, g := range gs {
			score[g.s] += best
		}
	}
	var r []Sym
	for x := range score {
		r = append(r, x)
	}
	sort.Slice(r, func(i, j int) bool {
		if score[r[i]] != score[r[j]] {
			return score[r[i]] > score[r[j]]
		}
		return r[i] < r[j]
	})
	if len(r) > 3 {
		r = r[:3]
	}
	return r
}

// pieces cuts the domain of a guard symbol at the boundaries of its guards.
func (s *State) pieces(x Sym) []iv {
	lo, hi := s.cons.bounds(x)
	cuts := map[int64]bool{}
	for _, c := range s.conds {
		for _, g := range c.gs {
			if g.s == x {
				if g.lo > lo && g.lo <= hi {
					cuts[g.lo] = true
				}
				if g.hi >= lo && g.hi < hi {
					cuts[g.hi+1] = true
				}
			}
		}
	}
	var cs []int64
	for k := range cuts {
		cs = append(cs, k)
	}
	sort.Slice(cs, func(i, j int) bool { return cs[i] < cs[j] })
	if len(cs) > 6 {
		return nil
	}
	var r []iv
	at := lo
	for _, k := range cs {
		r = append(r, iv{at, k - 1})
		at = k
	}
	return append(r, iv{at, hi})
}

// split decides f, by cases if need be; states in which the cases contradict what is known do not count.
func (s *State) split(seeds []*Lin, depth int, f func(x *State) bool) bool {
	if f(s) {
		return true
	}
	if depth == 0 {
		return false
	}
	for _, g := range s.splitGuards(seeds) {
		ps := s.pieces(g)
		if len(ps) < 2 {
			continue
		}
		all := true
		for _, p := range ps {
			x := s.clone()
			if !x.addFact(addK(symL(g), -p.lo)) || !x.addFact(comb(-1, symL(g), 1, cst(p.hi))) {
				continue
			}
			if !x.split(seeds, depth-1, f) {
				all = false
				break
			}
		}
		if all {
			return true
		}
	}
	return false
}

// prove decides l >= 0, by cases if need be.
func (s *State) prove(l *Lin) bool {
	if l == nil {
		return false
	}
	if s.cons.prove(l) {
		return true
	}
	return s.split([]*Lin{l}, 3, func(x *State) bool { return x.cons.prove(l) })
}

func (s *State) proveEq(l *Lin) bool {
	if l == nil {
		return false
	}
	return s.prove(l) && s.prove(negL(l))
}

// coalesce merges conditional facts whose guards together cover every case.
func (s *State) coalesce() {
	if len(s.conds) < 2 {
		return
	}
	// one entry per (fact, guards)
	byFact := map[string][]*condFact{}
	var order []string
	var all []*condFact
	for _, c := range s.conds {
		for _, f := range c.facts {
			cf := &condFact{gs: sortGuards(c.gs), f: f}
			k := f.key()
			if byFact[k] == nil {
				order = append(order, k)
			}
			byFact[k] = append(byFact[k], cf)
			all = append(all, cf)
		}
	}
	changed := false
	for _, k := range order {
		l := byFact[k]
		for again := len(l) > 1; again; {
			again = false
		pairs:
			for i := 0; i < len(l); i++ {
				for j := 0; j < len(l); j++ {
					if i == j || l[i].dead || l[j].dead {
						continue
					}
					if d := s.mergeGuards(l[i].gs, l[j].gs); d != nil || l[i].implied(l[j].gs) {
						if l[i].implied(l[j].gs) {
							l[j].dead = true
						} else {
							l[i].gs = *d
							l[j].dead = true
						}
						changed, again = true, true
						break pairs
					}
				}
			}
		}
	}
	if !changed {
		return
	}
	groups := map[string]*cond{}
	var out []*cond
	get := func(gs []guard) *cond {
		k := guardKey(gs)
		if groups[k] == nil {
			groups[k] = &cond{gs: gs}
			out = append(out, groups[k])
		}
		return groups[k]
	}
	i := 0
	var free []*Lin
	for _, c := range s.conds {
		for range c.facts {
			cf := all[i]
			i++
			if cf.dead {
				continue
			}
			if len(cf.gs) == 0 {
				free = append(free, cf.f)
				continue
			}
			g := get(cf.gs)
			g.facts = append(g.facts, cf.f)
		}
		if len(c.hks) > 0 {
			g := get(sortGuards(c.gs))
			g.hks = append(g.hks[:len(g.hks):len(g.hks)], c.hks...)
		}
	}
	s.conds = nil
	for _, c := range out {
		s.conds = append(s.conds, *c)
	}
	for _, f := range free {
		s.addFact(f)
	}
}

type condFact struct {
	gs   []guard
	f    *Lin
	dead bool
}

// implied reports whether guards gs are at least as strong as those of c.
func (c *condFact) implied(gs []guard) bool {
	for _, g := range c.gs {
		ok := false
		for _, h := range gs {
			if h.s == g.s && h.lo >= g.lo && h.hi <= g.hi {
				ok = true
			}
		}
		if !ok {
			return false
		}
	}
	return true
}

func sortGuards(gs []guard) []guard {
	r := append([]guard(nil), gs...)
	sort.Slice(r, func(i, j int) bool { return r[i].s < r[j].s })
	return r
}

func guardKey(gs []guard) string {
	b := make([]byte, 0, 32)
	for _, g := range gs {
		for _, x := range []int64{int64(g.s), g.lo, g.hi} {
			for k := 0; k < 8; k++ {
				b = append(b, byte(x>>(8*k)))
			}
		}
	}
	return string(b)
}

// mergeGuards unites two guard lists that differ in one adjacent interval; nil when they do not.
func (s *State) mergeGuards(a, b []guard) *[]guard {
	if len(a) != len(b) {
		return nil
	}
	d := -1
	for i := range a {
		if a[i].s != b[i].s {
			return nil
		}
		if a[i] != b[i] {
			if d >= 0 {
				return nil
			}
			d = i
		}
	}
	if d < 0 {
		return &a
	}
	lo, hi := min(a[d].lo, b[d].lo), max(a[d].hi, b[d].hi)
	if max(a[d].lo, b[d].lo) > min(a[d].hi, b[d].hi)+1 {
		return nil
	}
	r := append([]guard(nil), a...)
	r[d] = guard{a[d].s, lo, hi}
	bl, bh := s.cons.bounds(a[d].s)
	if lo <= bl && hi >= bh {
		r = append(r[:d], r[d+1:]...)
	}
	return &r
}

// diffDefs names differences of stable quantities that the code branches on, so that the outcome of the
// branch can guard conditional facts.
var diffDefs = map[Sym]*Lin{}

func diffSym(l *Lin) (Sym, int64) {
	d := &Lin{t: l.t}
	sign := int64(1)
	if d.t[0].c < 0 {
		d = negL(d)
		sign = -1
	}
	var lo, hi int64
	for _, t := range d.t {
		a, b := symTab[t.s].lo, symTab[t.s].hi
		lo, hi = satAdd(lo, min(satMul(t.c, a), satMul(t.c, b))), satAdd(hi, max(satMul(t.c, a), satMul(t.c, b)))
	}
	s := memoSym("diff:"+d.key(), "diff", lo, hi)
	diffDefs[s] = d
	return s, sign
}

func stableSym(s Sym) bool { return symTab[s].fixed || symTab[s].name == "read" }

func (s *State) nameDiff(c Bool) Bool {
	if (c.op != 'g' && c.op != 'e' && c.op != 'n') || c.L == nil || len(c.L.t) != 2 || !stableSym(c.L.t[0].s) || !stableSym(c.L.t[1].s) {
		return c
	}
	d, sign := diffSym(c.L)
	if !s.addEq(subL(symL(d), diffDefs[d])) {
		return c
	}
	c.L = addK(mulK(symL(d), sign), c.L.k)
	return c
}
