package main

import (
	"go/types"
	"strings"
)

// ---- Parallel walk over two values ----

// merger combines two values; lin decides what becomes of each pair of linear forms.
type merger struct {
	a, b *State
	lin  func(key string, kind byte, la, lb *Lin) *Lin
	// strict: fail instead of dropping information for functions and booleans that differ
}

func (m *merger) val(key string, a, b Val) (Val, bool) {
	switch x := a.(type) {
	case Num:
		y, ok := b.(Num)
		if !ok {
			return Unk{}, false
		}
		if x.L == nil || y.L == nil {
			return Num{symL(newSym("ovf", -INF, INF))}, true
		}
		return Num{m.lin(key, 'i', x.L, y.L)}, true
	case Bool:
		y, ok := b.(Bool)
		if !ok {
			return Unk{}, false
		}
		la, oa := linOfBool(x)
		lb, ob := linOfBool(y)
		if sameVal(x, y) && !(oa && len(la.t) > 0) {
			return x, true
		}
		if !oa {
			if d := m.a.decide(x); d != 0 {
				la, oa = cst(int64((d+1)/2)), true
			}
		}
		if !ob {
			if d := m.b.decide(y); d != 0 {
				lb, ob = cst(int64((d+1)/2)), true
			}
		}
		if oa && ob {
			l := m.lin(key, 'n', la, lb)
			return boolOfLin(l), true
		}
		if sameVal(x, y) {
			return x, true
		}
		// a formula on one side: name its value
		return boolOfLin(m.lin(key, 'n', symL(newSym("b", 0, 1)), symL(newSym("b", 0, 1)))), true
	case Flt:
		if _, ok := b.(Flt); ok {
			return x, true
		}
		return Unk{}, false
	case Unk:
		return x, true
	case *StrV:
		y, ok := b.(*StrV)
		if !ok {
			return Unk{}, false
		}
		r := &StrV{id: m.lin(key+"$", 's', x.id, y.id), ln: m.lin(key+"#", 'i', x.ln, y.ln)}
		if x.c != nil && y.c != nil && *x.c == *y.c && eqL(r.id, x.id) {
			return x, true
		}
		return r, true
	case *PtrV:
		y, ok := b.(*PtrV)
		if !ok {
			return Unk{}, false
		}
		r := &PtrV{alts: x.alts, nl: m.lin(key+"?", 'n', x.nl, y.nl)}
		for _, p := range y.alts {
			r.alts = addPT(r.alts, p)
		}
		if sameVal(r, x) {
			return x, true
		}
		return r, true
	case *SliceV:
		y, ok := b.(*SliceV)
		if !ok {
			return Unk{}, false
		}
		r := &SliceV{backs: x.backs}
		for _, p := range y.backs {
			r.backs = addID(r.backs, p)
		}
		r.off = m.lin(key+"@", 'i', x.off, y.off)
		r.ln = m.lin(key+"#", 'i', x.ln, y.ln)
		ea, eb := subL(x.cp, x.ln), subL(y.cp, y.ln)
		r.cp = addL(r.ln, m.lin(key+"^", 'c', ea, eb))
		r.nl = m.lin(key+"?", 'n', x.nl, y.nl)
		if sameVal(r, x) {
			return x, true
		}
		return r, true
	case *MapV:
		y, ok := b.(*MapV)
		if !ok {
			return Unk{}, false
		}
		r := &MapV{objs: x.objs, nl: m.lin(key+"?", 'n', x.nl, y.nl)}
		for _, p := range y.objs {
			r.objs = addID(r.objs, p)
		}
		if sameVal(r, x) {
			return x, true
		}
		return r, true
	case *IfaceV:
		y, ok := b.(*IfaceV)
		if !ok {
			return Unk{}, false
		}
		r := &IfaceV{nl: m.lin(key+"?", 'n', x.nl, y.nl)}
		for _, p := range x.alts {
			v := p.v
			for _, q := range y.alts {
				if sameType(p.t, q.t) {
					w, ok := m.val(key+"!", p.v, q.v)
					if !ok {
						w = Unk{}
						if p.t != nil {
							w = freshVal(p.t, "alt", "")
						}
					}
					v = w
				}
			}
			r.alts = append(r.alts, IT{p.t, v})
		}
		for _, q := range y.alts {
			has := false
			for _, p := range x.alts {
				if sameType(p.t, q.t) {
					has = true
				}
			}
			if !has {
				r.alts = append(r.alts, q)
			}
		}
		if sameVal(r, x) {
			return x, true
		}
		return r, true
	case *FuncV:
		y, ok := b.(*FuncV)
		if !ok {
			return Unk{}, false
		}
		if sameVal(x, y) {
			return x, true
		}
		if x.fn != y.fn || x.fn == nil || len(x.binds) != len(y.binds) {
			return Unk{}, false
		}
		r := &FuncV{fn: x.fn, nl: x.nl}
		for i := range x.binds {
			v, ok := m.val(key+"&", x.binds[i], y.binds[i])
			if !ok {
				return Unk{}, false
			}
			r.binds = append(r.binds, v)
		}
		return r, true
	case *Agg:
		y, ok := b.(*Agg)
		if !ok {
			return Unk{}, false
		}
		r := &Agg{t: x.t, cells: map[string]Val{}}
		good := true
		for _, l := range leaves(x.t) {
			v, ok := m.val(key+l.path, x.get(l.path, l.t), y.get(l.path, l.t))
			if !ok {
				v = freshVal(l.t, "agg", "")
				good = false
			}
			r.cells[l.path] = v
		}
		return r, good
	case Tuple:
		y, ok := b.(Tuple)
		if !ok || len(x) != len(y) {
			return Unk{}, false
		}
		r := make(Tuple, len(x))
		good := true
		for i := range x {
			v, ok := m.val(key+"(", x[i], y[i])
			if !ok {
				good = false
			}
			r[i] = v
		}
		return r, good
	case nil:
		return b, true
	}
	return Unk{}, false
}

// ---- Shapes ----

func isLocal(sh *Shape, s Sym) bool {
	for _, l := range sh.locals {
		if l == s {
			return true
		}
	}
	return false
}

// discOf distinguishes shapes by the dynamic types and the functions they hold.
func discOf(cells map[string]Val) string {
	var sb strings.Builder
	for _, k := range sortedKeys(cells) {
		if i, ok := cells[k].(*IfaceV); ok {
			for _, a := range i.alts {
				if a.t != nil {
					sb.WriteString(k + ":" + a.t.String() + ";")
				}
			}
		}
		if f, ok := cells[k].(*FuncV); ok && f.fn != nil {
			sb.WriteString(k + ":" + f.fn.String() + ";")
		}
	}
	return sb.String()
}

// symsSince makes a shape out of freshly created cells: all symbols since mark are local.
func localShape(cells map[string]Val) *Shape {
	sh := &Shape{cells: cells, disc: discOf(cells)}
	seen := map[Sym]bool{}
	for _, k := range sortedKeys(cells) {
		symsOf(cells[k], func(s Sym) {
			if !seen[s] && symTab[s].lo != symTab[s].hi {
				seen[s] = true
				sh.locals = append(sh.locals, s)
			}
		})
	}
	return sh
}

// manyVal turns the pointers and maps of a fresh value into ones standing for several objects.
func manyVal(v Val) {
	eachObj(v, func(id ObjID) {
		o := objTab[id]
		switch o.kind {
		case okCell:
			if o.sym {
				o.kind = okSum
			}
		case okMap, okArr:
			o.many = true
		}
	})
}

// typedShape is an arbitrary element of the given type.
func typedShape(el types.Type, name, input string) *Shape {
	cells := map[string]Val{}
	for _, l := range leaves(el) {
		v := freshVal(l.t, name+l.path, input)
		manyVal(v)
		cells[l.path] = v
	}
	return localShape(cells)
}

func typedMapShape(t *types.Map, name, input string) *Shape {
	cells := map[string]Val{}
	for _, l := range leaves(t.Key()) {
		v := freshVal(l.t, name+"key"+l.path, input)
		manyVal(v)
		cells["k"+l.path] = v
	}
	for _, l := range leaves(t.Elem()) {
		v := freshVal(l.t, name+"val"+l.path, input)
		manyVal(v)
		cells["v"+l.path] = v
	}
	return localShape(cells)
}

// instantiate renames the locals of a shape to fresh symbols.
func (s *State) instantiate(sh *Shape) map[string]Val {
	if len(sh.locals) == 0 {
		for _, h := range sh.hks {
			s.addHK(h)
		}
		return sh.cells
	}
	m := make(map[Sym]*Lin, len(sh.locals))
	for _, l := range sh.locals {
		i := symTab[l]
		y := newSym(i.name, i.lo, i.hi)
		setOrg(y, symOrg[l])
		m[l] = symL(y)
	}
	fl := func(l *Lin) *Lin { return substL(l, m) }
	fo := func(o ObjID) ObjID { return o }
	r := make(map[string]Val, len(sh.cells))
	for k, v := range sh.cells {
		r[k] = mapVal(v, fl, fo)
	}
	for _, h := range sh.hks {
		s.addHK(hk{h.obj, substL(h.s, m)})
	}
	return r
}

var thresholds = []int64{-INF, -1 << 31, -65536, -32768, -128, -1, 0, 1, 2, 4, 127, 255, 257, 258, 32767, 65535, 65536, 1<<31 - 1, 1<<32 - 1, 1 << 32, 1 << 40, maxLen, 1 << 49, 1 << 55, INF}

func widenHi(h int64) int64 {
	for _, t := range thresholds {
		if t >= h {
			return t
		}
	}
	return INF
}
func widenLo(l int64) int64 {
	for i := len(thresholds) - 1; i >= 0; i-- {
		if thresholds[i] <= l {
			return thresholds[i]
		}
	}
	return -INF
}

// genShape makes a shape of cells; forms over unstable symbols become locals.
func (s *State) genShape(cells map[string]Val, stable func(Sym) bool) *Shape {
	sh := &Shape{cells: map[string]Val{}, disc: discOf(cells)}
	seen := map[string]*Lin{}
	fl := func(l *Lin) *Lin {
		if l == nil {
			return symL(newSym("ovf", -INF, INF))
		}
		ok := true
		for _, t := range l.t {
			if !stable(t.s) {
				ok = false
			}
		}
		if ok {
			return l
		}
		if r, ok := seen[l.key()]; ok {
			return r
		}
		lo, hi := s.shIval(l)
		if lo == hi {
			return cst(lo)
		}
		y := newSym(nameOf(l), lo, hi)
		setOrg(y, orgOf(l))
		sh.locals = append(sh.locals, y)
		r := symL(y)
		seen[l.key()] = r
		return r
	}
	fo := func(o ObjID) ObjID { return o }
	ids := map[string]*Lin{}
	for _, k := range sortedKeys(cells) {
		v := cells[k]
		if sl, ok := v.(*SliceV); ok {
			// keep cap >= len
			ex := subL(sl.cp, sl.ln)
			w := &SliceV{backs: sl.backs, off: fl(sl.off), ln: fl(sl.ln), nl: fl(sl.nl)}
			e2 := fl(ex)
			w.cp = addL(w.ln, e2)
			sh.cells[k] = w
			continue
		}
		sh.cells[k] = mapVal(v, fl, fo)
		if st, ok := v.(*StrV); ok {
			ids[st.id.key()] = sh.cells[k].(*StrV).id
		}
		if n, ok := v.(Num); ok && n.L != nil {
			ids[n.L.key()] = sh.cells[k].(Num).L
		}
	}
	for _, h := range s.hks {
		if r, ok := ids[h.s.key()]; ok {
			sh.hks = append(sh.hks, hk{h.obj, r})
		}
	}
	return sh
}

func nameOf(l *Lin) string {
	if len(l.t) > 0 {
		return symTab[l.t[0].s].name
	}
	return "k"
}

func allStable(Sym) bool { return true }

// foldInto adds an element with the given cells to the shapes of o (which is writable).
func (s *State) foldInto(o *Obj, cells map[string]Val) {
	o.shapes = s.foldShape(o.shapes, s.genShape(cells, allStable))
}

func (s *State) foldShape(list []*Shape, n *Shape) []*Shape {
	for i, sh := range list {
		if sh.disc != n.disc {
			continue
		}
		if s.subsumes(sh, n) {
			return list
		}
		r := make([]*Shape, len(list))
		copy(r, list)
		r[i] = s.mergeShape(sh, n)
		return r
	}
	return append(list[:len(list):len(list)], n)
}

// ival for forms that may mention locals of shapes.
func (s *State) shIval(l *Lin) (int64, int64) {
	lo, hi := s.cons.ival(l)
	if len(l.t) == 0 {
		return lo, hi
	}
	for _, t := range []int64{1<<32 - 1, 65535, 255} {
		if hi > t {
			if !s.cons.prove(comb(-1, l, 1, cst(t))) {
				break
			}
			hi = t
		}
	}
	if lo < 0 && s.cons.prove(l) {
		lo = 0
	}
	return lo, hi
}

// subsumes reports whether every element described by n is described by sh.
func (s *State) subsumes(sh, n *Shape) bool {
	if sh == n {
		return true
	}
	th := map[Sym]*Lin{}
	ok := true
	m := &merger{a: s, b: s, lin: func(key string, kind byte, la, lb *Lin) *Lin {
		if !ok || la == nil || lb == nil {
			ok = false
			return lin0
		}
		hasLocal := false
		for _, t := range la.t {
			if isLocal(sh, t.s) {
				hasLocal = true
			}
		}
		if !hasLocal {
			if !eqL(la, lb) {
				ok = false
			}
			return la
		}
		if len(la.t) == 1 && la.t[0].c == 1 {
			y := la.t[0].s
			w := addK(lb, -la.k)
			if o, has := th[y]; has {
				if !eqL(o, w) {
					ok = false
				}
				return la
			}
			lo, hi := s.shIval(w)
			if lo < symTab[y].lo || hi > symTab[y].hi {
				ok = false
				return la
			}
			th[y] = w
			return la
		}
		if !eqL(substL(la, th), lb) {
			ok = false
		}
		return la
	}}
	for k := range n.cells {
		if _, has := sh.cells[k]; !has {
			return false
		}
	}
	for _, k := range sortedKeys(sh.cells) {
		b, has := n.cells[k]
		if !has {
			return false
		}
		a := sh.cells[k]
		v, good := m.val(k, a, b)
		if !good || !ok {
			return false
		}
		if !sameRefs(a, v) {
			return false
		}
	}
	for _, h := range sh.hks {
		found := false
		for _, g := range n.hks {
			if g.obj == h.obj && eqL(substL(h.s, th), g.s) {
				found = true
			}
		}
		if !found {
			return false
		}
	}
	return ok
}

// sameRefs reports whether two values refer to the same objects and dynamic types.
func sameRefs(a, b Val) bool {
	var x, y []ObjID
	eachObj(a, func(o ObjID) { x = addID(x, o) })
	eachObj(b, func(o ObjID) { y = addID(y, o) })
	if !sameIDs(x, y) {
		return false
	}
	if i, ok := a.(*IfaceV); ok {
		j, ok := b.(*IfaceV)
		return ok && len(i.alts) == len(j.alts)
	}
	if i, ok := a.(*PtrV); ok {
		j, ok := b.(*PtrV)
		return ok && len(i.alts) == len(j.alts)
	}
	return true
}

// mergeShape is a shape covering both.
func (s *State) mergeShape(sh, n *Shape) *Shape {
	r := &Shape{disc: sh.disc, cells: map[string]Val{}}
	type pair struct{ a, b string }
	seen := map[pair]*Lin{}
	m := &merger{a: s, b: s}
	m.lin = func(key string, kind byte, la, lb *Lin) *Lin {
		if la == nil || lb == nil {
			return symL(newSym("ovf", -INF, INF))
		}
		if eqL(la, lb) {
			for _, t := range la.t {
				if isLocal(sh, t.s) && !isLocal(r, t.s) {
					r.locals = append(r.locals, t.s)
				}
			}
			return la
		}
		pk := pair{la.key(), lb.key()}
		if x, ok := seen[pk]; ok {
			return x
		}
		l1, h1 := s.shIval(la)
		l2, h2 := s.shIval(lb)
		wid := false
		if len(la.t) == 1 && isLocal(sh, la.t[0].s) {
			wid = true
		}
		lo, hi := min(l1, l2), max(h1, h2)
		if wid {
			if l2 < l1 {
				lo = widenLo(l2)
			}
			if h2 > h1 {
				hi = widenHi(h2)
			}
		}
		y := newSym(nameOf(la), lo, hi)
		if o := orgOf(la); o == orgOf(lb) {
			setOrg(y, o)
		}
		r.locals = append(r.locals, y)
		x := symL(y)
		seen[pk] = x
		return x
	}
	keys := map[string]Val{}
	for k := range sh.cells {
		keys[k] = nil
	}
	for k := range n.cells {
		keys[k] = nil
	}
	for _, k := range sortedKeys(keys) {
		a, ok1 := sh.cells[k]
		b, ok2 := n.cells[k]
		if !ok1 {
			a = b
		}
		if !ok2 {
			b = a
		}
		v, ok := m.val(k, a, b)
		if !ok {
			v = Unk{}
		}
		r.cells[k] = v
	}
	for _, h := range sh.hks {
		for _, g := range n.hks {
			if g.obj != h.obj {
				continue
			}
			if eqL(h.s, g.s) {
				r.hks = append(r.hks, h)
			} else if x, ok := seen[pair{h.s.key(), g.s.key()}]; ok {
				r.hks = append(r.hks, hk{h.obj, x})
			}
		}
	}
	return r
}

func (s *State) mergeShapeLists(a, b []*Shape) []*Shape {
	r := a
	for _, n := range b {
		dup := false
		for _, x := range a {
			if x == n {
				dup = true
			}
		}
		if dup {
			continue
		}
		if inLoop && keyShape(n) {
			// what is stored under this string may still become known in this iteration
			r = append(r[:len(r):len(r)], n)
			continue
		}
		r = s.foldShape(r, n)
	}
	return r
}

// keyShape reports whether a shape is one particular string known by symbol.
func keyShape(n *Shape) bool {
	v, ok := n.cells[""].(*StrV)
	if !ok || len(v.id.t) == 0 {
		return false
	}
	for _, t := range v.id.t {
		if isLocal(n, t.s) {
			return false
		}
	}
	return true
}
