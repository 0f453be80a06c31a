package main

import (
	"encoding/binary"
	"fmt"
	"sort"
	"strings"
)

// ---- Symbols and linear forms ----

// Sym is an immutable integer unknown of the abstract domain.
type Sym int32

const INF = int64(1) << 61 // stands for "unbounded"

type symInfo struct {
	lo, hi int64
	name   string
	fixed  bool // describes an unchanging input
}

var symTab = []symInfo{{0, 0, "zero", true}}

func newSym(name string, lo, hi int64) Sym {
	if lo < -INF {
		lo = -INF
	}
	if hi > INF {
		hi = INF
	}
	symTab = append(symTab, symInfo{lo, hi, name, false})
	return Sym(len(symTab) - 1)
}

type term struct {
	s Sym
	c int64
}

// Lin is the linear form k + sum c*s. Immutable.
type Lin struct {
	k  int64
	t  []term
	ks string // cached key
	h  uint64 // cached hash of the terms, linear in the coefficients; 0: not computed
}

var (
	lin0 = &Lin{}
	lin1 = &Lin{k: 1}
)

func cst(k int64) *Lin {
	switch k {
	case 0:
		return lin0
	case 1:
		return lin1
	}
	return &Lin{k: k}
}
func symL(s Sym) *Lin { return &Lin{t: []term{{s, 1}}} }

func (l *Lin) isConst() bool { return l != nil && len(l.t) == 0 }
func (l *Lin) constVal() (int64, bool) {
	if l.isConst() {
		return l.k, true
	}
	return 0, false
}

func big(x int64) bool { return x > INF || x < -INF }

func mulOv(a, b int64) (int64, bool) {
	if a == 0 || b == 0 {
		return 0, true
	}
	p := a * b
	if p/b != a || big(p) {
		return 0, false
	}
	return p, true
}

// comb returns a*x + b*y, nil on overflow.
func comb(a int64, x *Lin, b int64, y *Lin) *Lin {
	if x == nil || y == nil {
		return nil
	}
	k1, o1 := mulOv(a, x.k)
	k2, o2 := mulOv(b, y.k)
	if !o1 || !o2 || big(k1+k2) {
		return nil
	}
	r := &Lin{k: k1 + k2}
	if len(x.t)+len(y.t) > 0 {
		r.t = make([]term, 0, len(x.t)+len(y.t))
	}
	i, j := 0, 0
	for i < len(x.t) || j < len(y.t) {
		switch {
		case j >= len(y.t) || (i < len(x.t) && x.t[i].s < y.t[j].s):
			c, o := mulOv(a, x.t[i].c)
			if !o {
				return nil
			}
			if c != 0 {
				r.t = append(r.t, term{x.t[i].s, c})
			}
			i++
		case i >= len(x.t) || y.t[j].s < x.t[i].s:
			c, o := mulOv(b, y.t[j].c)
			if !o {
				return nil
			}
			if c != 0 {
				r.t = append(r.t, term{y.t[j].s, c})
			}
			j++
		default:
			c1, p1 := mulOv(a, x.t[i].c)
			c2, p2 := mulOv(b, y.t[j].c)
			if !p1 || !p2 || big(c1+c2) {
				return nil
			}
			if c1+c2 != 0 {
				r.t = append(r.t, term{x.t[i].s, c1 + c2})
			}
			i++
			j++
		}
	}
	return r
}

func addL(a, b *Lin) *Lin       { return comb(1, a, 1, b) }
func subL(a, b *Lin) *Lin       { return comb(1, a, -1, b) }
func addK(a *Lin, k int64) *Lin { return comb(1, a, 1, cst(k)) }
func mulK(a *Lin, k int64) *Lin { return comb(k, a, 0, lin0) }
func negL(a *Lin) *Lin          { return comb(-1, a, 0, lin0) }
func (l *Lin) coef(s Sym) int64 {
	for _, t := range l.t {
		if t.s == s {
			return t.c
		}
	}
	return 0
}

func eqL(a, b *Lin) bool {
	if a == b {
		return true
	}
	if a == nil || b == nil || a.k != b.k || len(a.t) != len(b.t) {
		return false
	}
	for i := range a.t {
		if a.t[i] != b.t[i] {
			return false
		}
	}
	return true
}

// substL replaces symbols by linear forms.
func substL(l *Lin, m map[Sym]*Lin) *Lin {
	if l == nil {
		return nil
	}
	hit := false
	for _, t := range l.t {
		if _, ok := m[t.s]; ok {
			hit = true
		}
	}
	if !hit {
		return l
	}
	r := &Lin{k: l.k}
	for _, t := range l.t {
		if x, ok := m[t.s]; ok {
			r = comb(1, r, t.c, x)
		} else {
			r = comb(1, r, t.c, symL(t.s))
		}
		if r == nil {
			return nil
		}
	}
	return r
}

func (l *Lin) key() string {
	if l.ks != "" {
		return l.ks
	}
	b := make([]byte, 0, 10+10*len(l.t))
	b = binary.AppendVarint(b, l.k)
	for _, t := range l.t {
		b = binary.AppendUvarint(b, uint64(t.s))
		b = binary.AppendVarint(b, t.c)
	}
	l.ks = string(b)
	return l.ks
}

func mixSym(s Sym) uint64 {
	x := uint64(s) * 0x9E3779B97F4A7C15
	x ^= x >> 29
	x *= 0xBF58476D1CE4E5B9
	x ^= x >> 32
	return x
}

// hash is linear: the hash of the negation is the negated hash.
func (l *Lin) hash() uint64 {
	if l.h == 0 {
		for _, t := range l.t {
			l.h += uint64(t.c) * mixSym(t.s)
		}
	}
	return l.h
}

func sameTerms(a, b *Lin, sign int64) bool {
	if len(a.t) != len(b.t) {
		return false
	}
	for i, t := range a.t {
		if u := b.t[i]; u.s != t.s || u.c != sign*t.c {
			return false
		}
	}
	return true
}

func (l *Lin) String() string {
	if l == nil {
		return "<ovf>"
	}
	var p []string
	for _, t := range l.t {
		n := fmt.Sprintf("%s#%d", symTab[t.s].name, t.s)
		switch t.c {
		case 1:
			p = append(p, n)
		case -1:
			p = append(p, "-"+n)
		default:
			p = append(p, fmt.Sprintf("%d*%s", t.c, n))
		}
	}
	if l.k != 0 || len(p) == 0 {
		p = append(p, fmt.Sprint(l.k))
	}
	return strings.Join(p, " + ")
}

// ---- Constraint sets ----

type iv struct{ lo, hi int64 }

// Cons is a conjunction of facts "Lin >= 0". Treated as immutable once shared.
type Cons struct {
	facts []*Lin
	unit  map[Sym]iv
	memo  map[string]bool
}

func newCons() *Cons { return &Cons{unit: map[Sym]iv{}} }

func (c *Cons) bounds(s Sym) (int64, int64) {
	i := symTab[s]
	if u, ok := c.unit[s]; ok {
		return u.lo, u.hi
	}
	return i.lo, i.hi
}

func satAdd(a, b int64) int64 {
	if a <= -INF || b <= -INF {
		return -INF
	}
	if a >= INF || b >= INF {
		return INF
	}
	s := a + b
	if s > INF {
		return INF
	}
	if s < -INF {
		return -INF
	}
	return s
}

func satMul(c, x int64) int64 {
	if x >= INF || x <= -INF {
		if (x > 0) == (c > 0) {
			return INF
		}
		return -INF
	}
	p, ok := mulOv(c, x)
	if !ok {
		if (x > 0) == (c > 0) {
			return INF
		}
		return -INF
	}
	return p
}

// ival returns interval bounds of l.
func (c *Cons) ival(l *Lin) (lo, hi int64) {
	lo, hi = l.k, l.k
	for _, t := range l.t {
		a, b := c.bounds(t.s)
		if t.c > 0 {
			lo = addLo(lo, satMul(t.c, a))
			hi = addHi(hi, satMul(t.c, b))
		} else {
			lo = addLo(lo, satMul(t.c, b))
			hi = addHi(hi, satMul(t.c, a))
		}
	}
	return
}

func addLo(a, b int64) int64 {
	if a <= -INF || b <= -INF {
		return -INF
	}
	s := a + b
	if s > INF {
		return INF
	}
	if s < -INF {
		return -INF
	}
	return s
}
func addHi(a, b int64) int64 {
	if a >= INF || b >= INF {
		return INF
	}
	s := a + b
	if s > INF {
		return INF
	}
	if s < -INF {
		return -INF
	}
	return s
}

// with returns c plus the fact l >= 0 (already known consistent). The second result is false on contradiction.
func (c *Cons) with(l *Lin) (*Cons, bool) {
	if l == nil {
		return c, true
	}
	l = normRow(l)
	if len(l.t) == 0 {
		return c, l.k >= 0
	}
	if len(l.t) == 1 {
		s, k := l.t[0].s, l.t[0].c
		lo, hi := c.bounds(s)
		if k == 1 { // s >= -l.k
			if -l.k <= lo {
				return c, true
			}
			lo = -l.k
		} else { // s <= l.k
			if l.k >= hi {
				return c, true
			}
			hi = l.k
		}
		if lo > hi {
			return c, false
		}
		n := &Cons{facts: c.facts, unit: make(map[Sym]iv, len(c.unit)+1)}
		for a, b := range c.unit {
			n.unit[a] = b
		}
		n.unit[s] = iv{lo, hi}
		return n, true
	}
	for i := len(c.facts) - 1; i >= 0; i-- {
		if eqL(c.facts[i], l) {
			return c, true
		}
	}
	n := &Cons{facts: append(c.facts[:len(c.facts):len(c.facts)], l), unit: c.unit}
	return n, true
}

func gcd64(a, b int64) int64 {
	if a < 0 {
		a = -a
	}
	if b < 0 {
		b = -b
	}
	for b != 0 {
		a, b = b, a%b
	}
	return a
}

func floorDiv(a, b int64) int64 {
	q := a / b
	if a%b != 0 && (a < 0) != (b < 0) {
		q--
	}
	return q
}

// normRow divides by the gcd of the coefficients, tightening the constant (integers).
func normRow(l *Lin) *Lin {
	if len(l.t) == 0 {
		return l
	}
	g := int64(0)
	for _, t := range l.t {
		g = gcd64(g, t.c)
		if g == 1 {
			return l
		}
	}
	r := &Lin{k: floorDiv(l.k, g), t: make([]term, len(l.t))}
	for i, t := range l.t {
		r.t[i] = term{t.s, t.c / g}
	}
	return r
}

var statProve, statFM, statFMfail int

// prove reports whether l >= 0 follows from the facts.
func (c *Cons) prove(l *Lin) bool {
	if l == nil {
		return false
	}
	if len(l.t) == 0 {
		return l.k >= 0
	}
	lo, hi := c.ival(l)
	if lo >= 0 {
		return true
	}
	if hi < 0 {
		return false
	}
	statProve++
	if len(l.t) == 1 && len(c.facts) == 0 {
		return false
	}
	k := l.key()
	if v, ok := c.memo[k]; ok {
		return v
	}
	neg := addK(negL(l), -1)
	v := false
	if neg != nil {
		v = c.refute(neg, 2, 40) || c.refute(neg, 8, 160)
	}
	if c.memo == nil {
		c.memo = map[string]bool{}
	}
	c.memo[k] = v
	return v
}

// proveEq reports whether l == 0 follows.
func (c *Cons) proveEq(l *Lin) bool {
	if l == nil {
		return false
	}
	if len(l.t) == 0 {
		return l.k == 0
	}
	return c.prove(l) && c.prove(negL(l))
}

// cone collects the facts connected to the symbols of seeds within hops.
func (c *Cons) cone(seeds []*Lin, hops, maxFacts int) (rows []*Lin, ss map[Sym]bool, complete bool) {
	ss = map[Sym]bool{}
	for _, l := range seeds {
		for _, t := range l.t {
			ss[t.s] = true
		}
	}
	used := make([]bool, len(c.facts))
	complete = true
	for h := 0; h < hops; h++ {
		var add []Sym
		for i, f := range c.facts {
			if used[i] {
				continue
			}
			hit := false
			for _, t := range f.t {
				if ss[t.s] {
					hit = true
					break
				}
			}
			if !hit {
				continue
			}
			if len(rows) >= maxFacts {
				complete = false
				break
			}
			used[i] = true
			rows = append(rows, f)
			for _, t := range f.t {
				if !ss[t.s] {
					add = append(add, t.s)
				}
			}
		}
		for _, s := range add {
			ss[s] = true
		}
		if len(add) == 0 {
			return rows, ss, complete
		}
	}
	return rows, ss, false
}

func (c *Cons) refute(neg *Lin, hops, maxFacts int) bool {
	rows, ss, _ := c.cone([]*Lin{neg}, hops, maxFacts)
	if len(rows) == 0 {
		return false // intervals alone did not do it
	}
	statFM++
	sys := newFM()
	sys.add(neg)
	for _, r := range rows {
		sys.add(r)
	}
	for s := range ss {
		c.unitRows(s, sys.add)
	}
	r := sys.refuted()
	sys.free()
	if !r {
		statFMfail++
	}
	return r
}

func (c *Cons) unitRows(s Sym, add func(*Lin)) { c.unitRowsCap(s, add, INF) }

func (c *Cons) unitRowsCap(s Sym, add func(*Lin), limit int64) {
	lo, hi := c.bounds(s)
	if hi > limit {
		hi = INF
	}
	if lo > -INF {
		add(&Lin{k: -lo, t: []term{{s, 1}}})
	}
	if hi < INF {
		add(&Lin{k: hi, t: []term{{s, -1}}})
	}
}

// ---- Fourier-Motzkin ----

type fmSys struct {
	rows []*Lin           // distinct terms, each with the tightest constant; nil: removed
	idx  map[uint64]int32 // by hash: 1 + index of the newest row with it
	next []int32
	n    int
	bad  bool
}

var fmFree []*fmSys

func newFM() *fmSys {
	if n := len(fmFree); n > 0 {
		f := fmFree[n-1]
		fmFree = fmFree[:n-1]
		clear(f.rows)
		f.rows, f.next, f.n, f.bad = f.rows[:0], f.next[:0], 0, false
		clear(f.idx)
		return f
	}
	return &fmSys{idx: map[uint64]int32{}}
}

// free hands the system back for reuse.
func (f *fmSys) free() { fmFree = append(fmFree, f) }

// find returns the index of the row with the terms of l times sign, or -1.
func (f *fmSys) find(l *Lin, sign int64) int {
	for i := f.idx[l.hash()*uint64(sign)]; i > 0; i = f.next[i-1] {
		if r := f.rows[i-1]; r != nil && sameTerms(l, r, sign) {
			return int(i - 1)
		}
	}
	return -1
}

func (f *fmSys) add(l *Lin) {
	if l == nil {
		return
	}
	l = normRow(l)
	if len(l.t) == 0 {
		if l.k < 0 {
			f.bad = true
		}
		return
	}
	if i := f.find(l, 1); i >= 0 {
		if l.k < f.rows[i].k {
			f.rows[i] = l
		}
		return
	}
	f.rows = append(f.rows, l)
	f.next = append(f.next, f.idx[l.hash()])
	f.idx[l.hash()] = int32(len(f.rows))
	f.n++
}

func (f *fmSys) drop(i int) {
	if f.rows[i] != nil {
		f.rows[i] = nil
		f.n--
	}
}

func (f *fmSys) list() []*Lin {
	r := make([]*Lin, 0, f.n)
	for _, l := range f.rows {
		if l != nil {
			r = append(r, l)
		}
	}
	return r
}

// compact forgets removed rows.
func (f *fmSys) compact() {
	if f.n == len(f.rows) {
		return
	}
	rs := f.list()
	f.rows, f.next, f.n = f.rows[:0], f.next[:0], 0
	clear(f.idx)
	for _, l := range rs {
		f.add(l)
	}
}

// findEq looks for an equality (row and its negation) with a unit coefficient on an eliminable symbol.
func (f *fmSys) findEq(can func(Sym) bool) (*Lin, Sym, int64, bool) {
	for _, l := range f.rows {
		if l == nil {
			continue
		}
		j := f.find(l, -1)
		if j < 0 || f.rows[j].k != -l.k {
			continue
		}
		for _, t := range l.t {
			if (t.c == 1 || t.c == -1) && can(t.s) {
				return l, t.s, t.c, true
			}
		}
	}
	return nil, 0, 0, false
}

// subst replaces s by val everywhere.
func (f *fmSys) subst(s Sym, val *Lin) {
	rs := f.list()
	f.rows, f.next, f.n = f.rows[:0], f.next[:0], 0
	clear(f.idx)
	for _, l := range rs {
		c := l.coef(s)
		if c == 0 {
			f.add(l)
			continue
		}
		rest := &Lin{k: l.k, t: make([]term, 0, len(l.t))}
		for _, t := range l.t {
			if t.s != s {
				rest.t = append(rest.t, t)
			}
		}
		f.add(comb(1, rest, c, val))
	}
}

// eliminate removes symbol s by combination; limited growth, rows that cannot be combined are dropped.
func (f *fmSys) eliminate(s Sym) {
	var pos, neg []*Lin
	for i, l := range f.rows {
		if l == nil {
			continue
		}
		c := l.coef(s)
		if c > 0 {
			pos = append(pos, l)
			f.drop(i)
		} else if c < 0 {
			neg = append(neg, l)
			f.drop(i)
		}
	}
	f.compact()
	for _, p := range pos {
		cp := p.coef(s)
		for _, n := range neg {
			cn := -n.coef(s)
			g := gcd64(cp, cn)
			f.add(comb(cn/g, p, cp/g, n))
			if f.bad {
				return
			}
		}
	}
}

const fmMaxRows = 700

func (f *fmSys) refuted() bool {
	return f.run(func(Sym) bool { return true }, fmMaxRows)
}

// run eliminates all symbols for which can() holds; true when a contradiction appears.
func (f *fmSys) run(can func(Sym) bool, maxRows int) bool {
	for !f.bad {
		if l, s, c, ok := f.findEq(can); ok {
			// s = (-1/c)*(l - c*s)
			rest := &Lin{k: l.k}
			for _, t := range l.t {
				if t.s != s {
					rest.t = append(rest.t, t)
				}
			}
			val := mulK(rest, -c)
			f.subst(s, val)
			continue
		}
		type pn struct{ p, n int }
		cnt := map[Sym]*pn{}
		nrows := 0
		for _, l := range f.rows {
			if l == nil {
				continue
			}
			nrows++
			for _, t := range l.t {
				if !can(t.s) {
					continue
				}
				x := cnt[t.s]
				if x == nil {
					x = &pn{}
					cnt[t.s] = x
				}
				if t.c > 0 {
					x.p++
				} else {
					x.n++
				}
			}
		}
		if len(cnt) == 0 {
			return false
		}
		if nrows > maxRows {
			return false
		}
		best := Sym(-1)
		bc := 0
		for s, x := range cnt {
			c := x.p*x.n - x.p - x.n
			if best < 0 || c < bc || (c == bc && s < best) {
				best, bc = s, c
			}
		}
		if bc > 1500 {
			return false
		}
		f.eliminate(best)
	}
	return true
}

// project computes consequences of the facts connected to keep that mention only symbols for which keep holds.
func (c *Cons) project(seeds []*Lin, keep func(Sym) bool) []*Lin {
	rows := c.projectCap(seeds, keep, INF)
	out := rows[:0]
	for _, r := range rows {
		if len(r.t) < 2 || r.k < rankCap {
			out = append(out, r)
		}
	}
	return out
}

// rankCap: constant bounds beyond it do not count as a bound on the number of iterations.
const rankCap = int64(1) << 40

func (c *Cons) projectCap(seeds []*Lin, keep func(Sym) bool, limit int64) []*Lin {
	rows, ss, _ := c.cone(seeds, 8, 120)
	sys := newFM()
	for _, r := range rows {
		sys.add(r)
	}
	for s := range ss {
		if !keep(s) {
			c.unitRowsCap(s, sys.add, limit)
		}
	}
	// the bounds of kept symbols take part too (redundant consequences are cheap)
	for s := range ss {
		if keep(s) {
			c.unitRowsCap(s, sys.add, limit)
		}
	}
	elim := func(s Sym) bool { return !keep(s) }
	for {
		// eliminate in order of growth; drop rows of symbols that are too expensive
		if l, s, cc, ok := sys.findEq(elim); ok {
			rest := &Lin{k: l.k}
			for _, t := range l.t {
				if t.s != s {
					rest.t = append(rest.t, t)
				}
			}
			sys.subst(s, mulK(rest, -cc))
			continue
		}
		cnt := map[Sym][2]int{}
		for _, l := range sys.list() {
			for _, t := range l.t {
				if elim(t.s) {
					x := cnt[t.s]
					if t.c > 0 {
						x[0]++
					} else {
						x[1]++
					}
					cnt[t.s] = x
				}
			}
		}
		if len(cnt) == 0 {
			break
		}
		best := Sym(-1)
		bc := 0
		for s, x := range cnt {
			k := x[0]*x[1] - x[0] - x[1]
			if best < 0 || k < bc || (k == bc && s < best) {
				best, bc = s, k
			}
		}
		if bc > 60 || sys.n > 250 {
			for i, l := range sys.rows {
				if l != nil && l.coef(best) != 0 {
					sys.drop(i)
				}
			}
			sys.compact()
			continue
		}
		sys.eliminate(best)
		if sys.bad {
			break
		}
	}
	return sys.list()
}

// hasUpperBound reports whether the facts bound l from above by an expression over symbols with base().
func (c *Cons) hasUpperBound(l *Lin, base func(Sym) bool) bool {
	z := newSym("rank", -INF, INF)
	d := subL(symL(z), l)
	if d == nil {
		return false
	}
	c2, ok := c.with(d)
	if !ok {
		return true
	}
	c2, ok = c2.with(negL(d))
	if !ok {
		return true
	}
	rows := c2.projectCap([]*Lin{symL(z)}, func(s Sym) bool { return s == z || base(s) }, rankCap)
	for _, r := range rows {
		if r.coef(z) < 0 {
			return true
		}
	}
	return false
}

func sortedSyms(m map[Sym]bool) []Sym {
	var r []Sym
	for s := range m {
		r = append(r, s)
	}
	sort.Slice(r, func(i, j int) bool { return r[i] < r[j] })
	return r
}
