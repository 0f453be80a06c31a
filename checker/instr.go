package main

import (
	"fmt"
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// val evaluates an operand.
func (in *Interp) val(st *State, v ssa.Value) Val {
	switch x := v.(type) {
	case *ssa.Const:
		return constVal(x)
	case *ssa.Global:
		return &PtrV{alts: []PT{{in.global(x), ""}}, nl: lin0}
	case *ssa.Function:
		return &FuncV{fn: x, nl: lin0}
	case *ssa.Builtin:
		return &FuncV{bi: x.Name(), nl: lin0}
	}
	if r, ok := st.regs[v]; ok && r != nil {
		return r
	}
	r := freshVal(v.Type(), v.Name(), "")
	st.set(v, r)
	return r
}

func (in *Interp) global(g *ssa.Global) ObjID {
	id, ok := in.globals[g]
	if !ok {
		t := g.Type().(*types.Pointer).Elem()
		o := &Obj{kind: okCell, t: t, name: g.Name(), site: "global " + g.Name(), global: true}
		if !in.P.pkgInModule(g.Pkg.Pkg) {
			o.sym = true
			o.name = g.Pkg.Pkg.Name() + "." + g.Name()
		} else if arr, ok := t.Underlying().(*types.Array); ok && arr.Len() > 1024 {
			o.kind = okArr
			o.t = arr.Elem()
			o.shapes = []*Shape{localShape(fullZero(arr.Elem(), ""))}
		}
		id = newObj(o)
		objTab[id].fixed = o.sym
		in.globals[g] = id
	}
	return id
}

func fullZero(t types.Type, pre string) map[string]Val {
	c := map[string]Val{}
	for _, l := range leaves(t) {
		c[pre+l.path] = zeroVal(l.t)
	}
	return c
}

// cellsOf spreads a value over leaf cells.
func cellsOf(v Val, t types.Type, pre string, into map[string]Val) {
	if isAgg(t) {
		a, _ := v.(*Agg)
		for _, l := range leaves(t) {
			if a != nil {
				into[pre+l.path] = a.get(l.path, l.t)
			} else {
				into[pre+l.path] = freshVal(l.t, "agg", "")
			}
		}
		return
	}
	into[pre] = v
}

// gather makes a value from leaf cells.
func gather(cells map[string]Val, t types.Type, pre string) Val {
	if !isAgg(t) {
		if v, ok := cells[pre]; ok {
			return v
		}
		return zeroVal(t)
	}
	a := &Agg{t: t, cells: map[string]Val{}}
	for _, l := range leaves(t) {
		if v, ok := cells[pre+l.path]; ok {
			a.cells[l.path] = v
		}
	}
	return a
}

func (in *Interp) set1(st *State, v ssa.Value, x Val) []*State {
	st.set(v, x)
	return []*State{st}
}

// replaceVal substitutes a register value by a refined one.
func (st *State) replaceVal(old, new Val) {
	for r, v := range st.regs {
		if sameVal(v, old) {
			st.set(r, new)
		}
	}
}

// ---- Pointers ----

type target struct {
	st *State
	p  PT
}

// targets resolves a pointer: nil check, one location per state, summaries materialised.
func (in *Interp) targets(st *State, pv Val, at ssa.Instruction, check bool, what string) []target {
	p, ok := pv.(*PtrV)
	if !ok {
		return nil
	}
	if check {
		d := st.isNil(p.nl)
		if d == 0 && st.proveEq(p.nl) {
			d = -1
			st.addEq(p.nl)
		}
		in.oblig("nil", at, d < 0, what+" may be nil")
		if d > 0 {
			return nil
		}
		if d == 0 {
			ss := st.assume(bNot(boolOfLin(p.nl)))
			if len(ss) == 0 {
				return nil
			}
			st = ss[0]
		}
	}
	if len(p.alts) == 0 {
		return nil
	}
	var res []target
	for i, a := range p.alts {
		s := st
		if i < len(p.alts)-1 {
			s = st.clone()
		}
		if !s.exists(a.obj) {
			continue
		}
		q := p
		if len(p.alts) > 1 {
			q = &PtrV{alts: []PT{a}, nl: p.nl}
			s.replaceVal(p, q)
		}
		for _, m := range in.materialise(s, q, at, fmt.Sprintf("m%d", i)) {
			res = append(res, target{m.st, m.v.(*PtrV).alts[0]})
		}
	}
	return res
}

type stVal struct {
	st *State
	v  Val
}

// materialise turns a pointer to a summary into pointers to instances, one state per shape.
func (in *Interp) materialise(st *State, v Val, at ssa.Instruction, tag string) []stVal {
	p, ok := v.(*PtrV)
	if !ok || len(p.alts) != 1 {
		return []stVal{{st, v}}
	}
	id := p.alts[0].obj
	o := st.obj(id)
	if o.kind != okSum {
		return []stVal{{st, v}}
	}
	shapes := o.shapes
	if o.sym && len(shapes) == 0 {
		g := objTab[id]
		if len(g.shapes) == 0 {
			s0, o0 := len(symTab), len(objTab)
			g.shapes = []*Shape{typedShape(g.t, g.name, g.input)}
			if g.fixed {
				markFixed(s0, o0)
			}
		}
		shapes = g.shapes
		if h, ok := st.heap[id]; ok && len(h.shapes) == 0 {
			st.mut(id).shapes = shapes
		}
	}
	if len(shapes) == 0 {
		return nil
	}
	var res []stVal
	for i, sh := range shapes {
		s := st
		if i < len(shapes)-1 {
			s = st.clone()
		}
		iid := in.siteObj(at, fmt.Sprintf("/inst%s.%d.%d", tag, id, i), func() *Obj {
			return &Obj{kind: okCell, t: o.t, name: o.name, input: o.input}
		})
		n := &Obj{id: iid, kind: okCell, t: o.t, name: o.name, input: o.input, site: o.site, owner: s.owner, inst: id}
		n.cells = map[string]Val{}
		for k, c := range s.instantiate(sh) {
			n.cells[k] = c
		}
		s.putObj(n)
		q := &PtrV{alts: []PT{{iid, p.alts[0].path}}, nl: p.nl}
		s.replaceVal(p, q)
		res = append(res, stVal{s, q})
	}
	return res
}

// focus makes the element at a path of an okArr available; one state per shape.
func (in *Interp) focus(st *State, p PT) []*State {
	key, _, ok := splitElem(p.path)
	if !ok {
		return []*State{st}
	}
	o := st.obj(p.obj)
	if o.kind == okCell {
		return []*State{st}
	}
	if _, ok := o.elems[key]; ok {
		return []*State{st}
	}
	if len(o.shapes) == 0 {
		return nil
	}
	var res []*State
	for i, sh := range o.shapes {
		s := st
		if i < len(o.shapes)-1 {
			s = st.clone()
		}
		m := s.mut(p.obj)
		e := map[string]Val{}
		for k, c := range s.instantiate(sh) {
			e[k] = c
		}
		n := map[string]map[string]Val{}
		for k, x := range m.elems {
			n[k] = x
		}
		n[key] = e
		m.elems = n
		res = append(res, s)
	}
	return res
}

func (in *Interp) dropMany(st *State, p PT) {
	if o := st.obj(p.obj); o.many && len(o.elems) > 0 {
		st.mut(p.obj).elems = nil
	}
}

// isExternGlobal reports loads of package variables of other modules.
func (in *Interp) externGlobal(v ssa.Value) *ssa.Global {
	g, ok := v.(*ssa.Global)
	if ok && !in.P.pkgInModule(g.Pkg.Pkg) {
		return g
	}
	return nil
}

func (in *Interp) doLoad(st *State, x *ssa.UnOp) []*State {
	if g := in.externGlobal(x.X); g != nil {
		id := in.global(g)
		v := st.cell(st.obj(id), "", x.Type())
		switch y := v.(type) {
		case *PtrV:
			v = &PtrV{alts: y.alts, nl: lin0}
		case *IfaceV:
			v = &IfaceV{alts: y.alts, nl: lin0}
		}
		return in.set1(st, x, v)
	}
	var res []*State
	for _, t := range in.targets(st, in.val(st, x.X), x, true, "pointer "+x.X.Name()) {
		for _, s := range in.focus(t.st, t.p) {
			v := s.load(t.p, x.Type())
			in.dropMany(s, t.p)
			for _, m := range in.materialise(s, v, x, "l") {
				m.st.set(x, m.v)
				res = append(res, m.st)
			}
		}
	}
	return res
}

func (in *Interp) effect(st *State, at ssa.Instruction, o *Obj, what string) {
	if o.input != "" {
		in.event("effect", at, o.input+"|"+o.name+"|"+what)
		in.effects = append(in.effects, effectRec{at, o.input, o.name, what})
	}
	if o.global {
		in.event("globalwrite", at, o.name)
	}
	if in.hooks.store != nil {
		in.hooks.store(in, st, at, o, what)
	}
}

type effectRec struct {
	at               ssa.Instruction
	input, obj, what string
}

func (in *Interp) doStore(st *State, x *ssa.Store) []*State {
	var res []*State
	t := x.Addr.Type().Underlying().(*types.Pointer).Elem()
	v := in.val(st, x.Val)
	for _, tg := range in.targets(st, in.val(st, x.Addr), x, true, "pointer "+x.Addr.Name()) {
		s := tg.st
		v2 := v
		if p, ok := v.(*PtrV); ok {
			// the stored pointer may have been refined
			if w, ok := s.regs[x.Val].(*PtrV); ok {
				v2 = w
			} else {
				v2 = p
			}
		}
		in.effect(s, x, s.obj(tg.p.obj), tg.p.path)
		ss := []*State{s}
		if _, rest, ok := splitElem(tg.p.path); ok && rest != "" {
			ss = in.focus(s, tg.p)
		} else if ok {
			// whole-element store: start from a complete element
			if isAgg(t) == false && len(leaves(s.obj(tg.p.obj).t)) > 1 {
				ss = in.focus(s, tg.p)
			}
		}
		for _, s := range ss {
			if in.hooks.stored != nil {
				in.hooks.stored(in, s, x, tg.p, t, v2)
			}
			s.store(tg.p, t, v2)
			res = append(res, s)
		}
	}
	return res
}

// ---- Arithmetic ----

var memoSyms = map[string]Sym{}

func memoSym(key, name string, lo, hi int64) Sym {
	s, ok := memoSyms[key]
	if !ok {
		s = newSym(name, lo, hi)
		memoSyms[key] = s
	}
	return s
}

// fits reports whether l lies within [lo,hi].
func (st *State) fits(l *Lin, lo, hi int64) bool {
	if l == nil {
		return false
	}
	a, b := st.cons.ival(l)
	if (lo <= -INF || a >= lo) && (hi >= INF || b <= hi) {
		return a > -INF && b < INF || (lo <= -INF && a > -INF/2 || lo > -INF) && (hi >= INF && b < INF || hi < INF)
	}
	okLo := lo <= -INF || a >= lo || st.prove(addK(l, -lo))
	if !okLo {
		return false
	}
	return hi >= INF || b <= hi || st.prove(comb(-1, l, 1, cst(hi)))
}

// wrap brings a result into the range of its type.
func (in *Interp) wrap(st *State, at ssa.Instruction, l *Lin, t types.Type, op string) Val {
	b := basicOf(t)
	lo, hi := intRange(b)
	if l != nil {
		if intBits(b) == 64 {
			// 64-bit: overflow is only possible beyond the tracked range
			a, c := st.cons.ival(l)
			if b.Info()&types.IsUnsigned == 0 {
				if a > -INF && c < INF {
					return Num{l}
				}
				if l.isConst() {
					return Num{l}
				}
				if st.fits(l, -INF/2, INF/2) {
					return Num{l}
				}
			} else if c < INF && (a >= 0 || st.cons.prove(l)) {
				return Num{l}
			}
		} else if st.fits(l, lo, hi) {
			return Num{l}
		}
	}
	in.event("wrap", at, in.P.wrapKind(at, t, op))
	if l != nil {
		return Num{symL(memoSym(fmt.Sprintf("wrap%d:%d:%s", lo, hi, l.key()), "wrapped", lo, hi))}
	}
	return Num{symL(newSym("wrapped", lo, hi))}
}

// floorDiv is floor(x/k) for k > 0.
func (st *State) floorDiv(x *Lin, k int64) *Lin {
	if k == 1 {
		return x
	}
	if c, ok := x.constVal(); ok {
		return cst(floorDiv(c, k))
	}
	// exact division
	exact := x.k%k == 0
	for _, t := range x.t {
		if t.c%k != 0 {
			exact = false
		}
	}
	if exact {
		r := &Lin{k: x.k / k}
		for _, t := range x.t {
			r.t = append(r.t, term{t.s, t.c / k})
		}
		return r
	}
	lo, hi := st.cons.ival(x)
	l0, h0 := globalIval(x)
	fl, fh := l0, h0
	if fl > -INF {
		fl = floorDiv(fl, k)
	}
	if fh < INF {
		fh = floorDiv(fh, k)
	}
	q := memoSym(fmt.Sprintf("div%d:%s", k, x.key()), nameOf(x)+fmt.Sprintf("/%d", k), fl, fh)
	_ = lo
	_ = hi
	kq := mulK(symL(q), k)
	st.addFact(subL(x, kq))
	st.addFact(addK(subL(kq, x), k-1))
	if lo > -INF {
		st.addFact(addK(symL(q), -floorDiv(lo, k)))
	}
	if hi < INF {
		st.addFact(comb(-1, symL(q), 1, cst(floorDiv(hi, k))))
	}
	return symL(q)
}

func globalIval(l *Lin) (int64, int64) {
	return (&Cons{unit: map[Sym]iv{}}).ival(l)
}

func pow2(k int64) int {
	for i := 0; i < 62; i++ {
		if int64(1)<<uint(i) == k {
			return i
		}
	}
	return -1
}

func (in *Interp) product(st *State, x, y *Lin) *Lin {
	if k, ok := x.constVal(); ok {
		return mulK(y, k)
	}
	if k, ok := y.constVal(); ok {
		return mulK(x, k)
	}
	a, b := x.key(), y.key()
	if a > b {
		a, b = b, a
		x, y = y, x
	}
	x1, x2 := st.cons.ival(x)
	y1, y2 := st.cons.ival(y)
	lo, hi := -INF, INF
	if x1 > -INF && x2 < INF && y1 > -INF && y2 < INF {
		c := []int64{satMul(x1, y1), satMul(x1, y2), satMul(x2, y1), satMul(x2, y2)}
		lo, hi = c[0], c[0]
		for _, v := range c {
			lo, hi = min(lo, v), max(hi, v)
		}
	} else if x1 >= 0 && y1 >= 0 {
		lo = 0
	}
	p := memoSym("mul:"+a+"|"+b, "product", -INF, INF)
	pl := symL(p)
	if lo > -INF {
		st.addFact(addK(pl, -lo))
	}
	if hi < INF {
		st.addFact(comb(-1, pl, 1, cst(hi)))
	}
	if x1 >= 0 && y1 >= 1 {
		st.addFact(subL(pl, x))
	}
	if y1 >= 0 && x1 >= 1 {
		st.addFact(subL(pl, y))
	}
	return pl
}

func bitLen(x int64) uint {
	n := uint(0)
	for x > 0 {
		x >>= 1
		n++
	}
	return n
}

func (in *Interp) arith(st *State, at ssa.Instruction, op token.Token, x, y *Lin, t, yt types.Type) Val {
	b := basicOf(t)
	lo, hi := intRange(b)
	if x == nil || y == nil {
		return Num{symL(newSym("ovf", lo, hi))}
	}
	unknown := func(l, h int64) Val {
		return Num{symL(memoSym(fmt.Sprintf("%s%d:%d:%s|%s", op, lo, hi, x.key(), y.key()), "bits", max(l, lo), min(h, hi)))}
	}
	kx, cx := x.constVal()
	ky, cy := y.constVal()
	if !cx {
		if l, h := st.cons.ival(x); l == h {
			x, kx, cx = cst(l), l, true
		}
	}
	if !cy {
		if l, h := st.cons.ival(y); l == h {
			y, ky, cy = cst(l), l, true
		}
	}
	switch op {
	case token.ADD:
		return in.wrap(st, at, addL(x, y), t, "+")
	case token.SUB:
		return in.wrap(st, at, subL(x, y), t, "-")
	case token.MUL:
		return in.wrap(st, at, in.product(st, x, y), t, "*")
	case token.QUO, token.REM:
		d := st.decide(bNot(bEq(y)))
		in.oblig("div", at, d > 0, "division by zero possible")
		if d < 0 {
			return nil
		}
		if cy && ky > 0 {
			if st.cons.prove(x) {
				q := st.floorDiv(x, ky)
				if op == token.QUO {
					return Num{q}
				}
				return Num{subL(x, mulK(q, ky))}
			}
			if op == token.REM {
				return unknown(-(ky - 1), ky-1)
			}
			a, c := st.cons.ival(x)
			if a > -INF && c < INF {
				return unknown(a/ky, c/ky)
			}
		}
		if st.cons.prove(x) {
			_, h := st.cons.ival(x)
			return unknown(0, h)
		}
		return unknown(lo, hi)
	case token.SHL, token.SHR:
		if yb := basicOf(yt); yb != nil && yb.Info()&types.IsUnsigned == 0 {
			ok := cy && ky >= 0 || st.cons.prove(y)
			in.oblig("shift", at, ok, "negative shift count possible")
		}
		if cy && ky >= 0 && ky < 61 {
			k := int64(1) << uint(ky)
			if op == token.SHR {
				return Num{st.floorDiv(x, k)}
			}
			p := mulK(x, k)
			if p != nil && intBits(b) < 64 && !st.fits(p, lo, hi) && lo == 0 {
				// shifting bits out of an unsigned value is a deliberate idiom
				return unknown(lo, hi)
			}
			return in.wrap(st, at, p, t, "<<")
		}
		if op == token.SHR && st.cons.prove(x) {
			_, h := st.cons.ival(x)
			return unknown(0, h)
		}
		return unknown(lo, hi)
	case token.AND:
		if cx {
			x, y, kx, ky, cx, cy = y, x, ky, kx, cy, cx
		}
		if cx && cy {
			return Num{cst(kx & ky)}
		}
		if cy && ky >= 0 {
			if ky == 0 {
				return Num{lin0}
			}
			nn := st.cons.prove(x)
			if n := pow2(ky + 1); n > 0 && nn {
				if _, h := st.cons.ival(x); h <= ky {
					return Num{x}
				}
				return Num{subL(x, mulK(st.floorDiv(x, ky+1), ky+1))}
			}
			if n := pow2(ky); n >= 0 {
				s := memoSym(fmt.Sprintf("bit%d:%s", ky, x.key()), fmt.Sprintf("bit%d", n), 0, 1)
				return Num{mulK(symL(s), ky)}
			}
			h := ky
			if nn {
				_, xh := st.cons.ival(x)
				h = min(h, xh)
			}
			return unknown(0, h)
		}
		a, xh := st.cons.ival(x)
		c, yh := st.cons.ival(y)
		if a >= 0 && c >= 0 {
			return unknown(0, min(xh, yh))
		}
		if a >= 0 {
			return unknown(0, xh)
		}
		if c >= 0 {
			return unknown(0, yh)
		}
		return unknown(lo, hi)
	case token.OR, token.XOR:
		if cx && cy {
			if op == token.OR {
				return Num{cst(kx | ky)}
			}
			return Num{cst(kx ^ ky)}
		}
		a, xh := st.cons.ival(x)
		c, yh := st.cons.ival(y)
		if a >= 0 && c >= 0 && xh < INF && yh < INF {
			n := max(bitLen(xh), bitLen(yh))
			v := unknown(0, int64(1)<<n-1).(Num)
			st.addFact(subL(addL(x, y), v.L))
			if op == token.OR {
				st.addFact(subL(v.L, x))
				st.addFact(subL(v.L, y))
			}
			return v
		}
		return unknown(lo, hi)
	case token.AND_NOT:
		a, xh := st.cons.ival(x)
		if a >= 0 {
			return unknown(0, xh)
		}
		return unknown(lo, hi)
	}
	return unknown(lo, hi)
}

func (in *Interp) compare(st *State, op token.Token, a, b Val, t types.Type) Bool {
	eq := func() Bool {
		switch x := a.(type) {
		case Num:
			if y, ok := b.(Num); ok {
				return bEq(subL(x.L, y.L))
			}
		case Bool:
			if y, ok := b.(Bool); ok {
				lx, o1 := linOfBool(x)
				ly, o2 := linOfBool(y)
				if o1 && o2 {
					return bEq(subL(lx, ly))
				}
				// a == b is (a and b) or (not a and not b)
				return bOr(bAnd(x, y), bAnd(bNot(x), bNot(y)))
			}
		case *StrV:
			if y, ok := b.(*StrV); ok {
				if x.c != nil && y.c != nil {
					return mkBool(*x.c == *y.c)
				}
				if y.c != nil && *y.c == "" {
					return bEq(x.ln)
				}
				if x.c != nil && *x.c == "" {
					return bEq(y.ln)
				}
				if st.decide(bEq(subL(x.ln, y.ln))) < 0 {
					return bFalse
				}
				return bEq(subL(x.id, y.id))
			}
		case *PtrV:
			y, ok := b.(*PtrV)
			if !ok {
				break
			}
			if len(y.alts) == 0 && st.isNil(y.nl) > 0 {
				return boolOfLin(x.nl)
			}
			if len(x.alts) == 0 && st.isNil(x.nl) > 0 {
				return boolOfLin(y.nl)
			}
			if len(x.alts) == 1 && sameVal(x, y) && st.obj(x.alts[0].obj).kind == okCell {
				return bTrue
			}
		case *IfaceV:
			y, ok := b.(*IfaceV)
			if !ok {
				break
			}
			if len(y.alts) == 0 {
				return boolOfLin(x.nl)
			}
			if len(x.alts) == 0 {
				return boolOfLin(y.nl)
			}
			if st.isNil(x.nl) < 0 || st.isNil(y.nl) < 0 {
				// equal only if both are non-nil
				return bAnd(bAnd(bNot(boolOfLin(x.nl)), bNot(boolOfLin(y.nl))), opaqueBool("ifeq"))
			}
		case *SliceV:
			if y, ok := b.(*SliceV); ok {
				if st.isNil(y.nl) > 0 {
					return boolOfLin(x.nl)
				}
				return boolOfLin(y.nl)
			}
		case *MapV:
			if y, ok := b.(*MapV); ok {
				if len(y.objs) == 0 {
					return boolOfLin(x.nl)
				}
				return boolOfLin(y.nl)
			}
		case *FuncV:
			if y, ok := b.(*FuncV); ok {
				if y.fn == nil && y.nl != nil && st.isNil(y.nl) > 0 {
					if x.nl != nil {
						return boolOfLin(x.nl)
					}
					return bFalse
				}
				if y.nl != nil {
					return boolOfLin(y.nl)
				}
			}
		case *Agg:
			if y, ok := b.(*Agg); ok {
				r := bTrue
				for _, l := range leaves(x.t) {
					r = bAnd(r, in.compare(st, token.EQL, x.get(l.path, l.t), y.get(l.path, l.t), l.t))
				}
				if len(leaves(x.t)) <= 4 {
					return r
				}
				if sameVal(x, y) {
					return bTrue
				}
			}
		}
		return opaqueBool("eq")
	}
	switch op {
	case token.EQL:
		return eq()
	case token.NEQ:
		return bNot(eq())
	}
	x, ok1 := a.(Num)
	y, ok2 := b.(Num)
	if !ok1 || !ok2 || x.L == nil || y.L == nil {
		if u, ok := a.(*StrV); ok {
			if w, ok := b.(*StrV); ok && u.c != nil && w.c != nil {
				switch op {
				case token.LSS:
					return mkBool(*u.c < *w.c)
				case token.LEQ:
					return mkBool(*u.c <= *w.c)
				case token.GTR:
					return mkBool(*u.c > *w.c)
				case token.GEQ:
					return mkBool(*u.c >= *w.c)
				}
			}
		}
		return opaqueBool("cmp")
	}
	d := subL(x.L, y.L)
	switch op {
	case token.LSS:
		return bGe(addK(negL(d), -1))
	case token.LEQ:
		return bGe(negL(d))
	case token.GTR:
		return bGe(addK(d, -1))
	case token.GEQ:
		return bGe(d)
	}
	return opaqueBool("cmp")
}

func (in *Interp) binop(st *State, x *ssa.BinOp) Val {
	a, b := in.val(st, x.X), in.val(st, x.Y)
	switch x.Op {
	case token.EQL, token.NEQ, token.LSS, token.LEQ, token.GTR, token.GEQ:
		return in.compare(st, x.Op, a, b, x.X.Type())
	}
	if na, ok := a.(Num); ok {
		if nb, ok := b.(Num); ok && isIntType(x.Type()) {
			return in.arith(st, x, x.Op, na.L, nb.L, x.Type(), x.Y.Type())
		}
	}
	if sa, ok := a.(*StrV); ok && x.Op == token.ADD {
		if sb, ok := b.(*StrV); ok {
			if sa.c != nil && sb.c != nil {
				return constStr(*sa.c + *sb.c)
			}
			return &StrV{id: symL(newSym("concat", 0, INF)), ln: addL(sa.ln, sb.ln)}
		}
	}
	if ba, ok := a.(Bool); ok {
		if bb, ok := b.(Bool); ok {
			switch x.Op {
			case token.AND, token.LAND:
				return bAnd(ba, bb)
			case token.OR, token.LOR:
				return bOr(ba, bb)
			}
		}
	}
	return freshVal(x.Type(), "bin", "")
}

func (in *Interp) unop(st *State, x *ssa.UnOp) []*State {
	switch x.Op {
	case token.MUL:
		return in.doLoad(st, x)
	case token.NOT:
		if b, ok := in.val(st, x.X).(Bool); ok {
			return in.set1(st, x, bNot(b))
		}
	case token.SUB:
		if n, ok := in.val(st, x.X).(Num); ok && isIntType(x.Type()) && n.L != nil {
			return in.set1(st, x, in.wrap(st, x, negL(n.L), x.Type(), "-"))
		}
	case token.XOR:
		if n, ok := in.val(st, x.X).(Num); ok && n.L != nil {
			b := basicOf(x.Type())
			_, hi := intRange(b)
			if b.Info()&types.IsUnsigned != 0 {
				if hi < INF {
					return in.set1(st, x, Num{comb(-1, n.L, 1, cst(hi))})
				}
			} else {
				return in.set1(st, x, Num{addK(negL(n.L), -1)})
			}
		}
	}
	return in.set1(st, x, freshVal(x.Type(), "un", ""))
}

// ---- Conversions ----

func (in *Interp) convert(st *State, x *ssa.Convert) Val {
	v := in.val(st, x.X)
	ft, tt := x.X.Type(), x.Type()
	fb, tb := basicOf(ft), basicOf(tt)
	switch {
	case fb != nil && tb != nil && fb.Info()&types.IsInteger != 0 && tb.Info()&types.IsInteger != 0:
		return in.convInt(st, x, v, fb, tb)
	case fb != nil && tb != nil && fb.Info()&types.IsInteger != 0 && tb.Info()&types.IsFloat != 0:
		return Flt{}
	case fb != nil && tb != nil && fb.Info()&types.IsFloat != 0 && tb.Info()&types.IsFloat != 0:
		return Flt{}
	case tb != nil && tb.Info()&types.IsString != 0:
		switch y := v.(type) {
		case *StrV:
			return y
		case *SliceV:
			if s, ok := constBytes(st, y); ok && isByteSlice(ft) {
				return constStr(s)
			}
			ln := y.ln
			if !isByteSlice(ft) {
				ln = symL(newSym("len", 0, maxLen))
			}
			return &StrV{id: symL(newSym("string", 0, INF)), ln: ln}
		}
		return &StrV{id: symL(newSym("string", 0, INF)), ln: symL(newSym("len", 0, 4))}
	}
	if sl, ok := tt.Underlying().(*types.Slice); ok {
		if s, ok := v.(*StrV); ok {
			byteS := isByteSlice(tt)
			if s.c != nil && byteS && len(*s.c) <= 64 {
				n := int64(len(*s.c))
				at := types.NewArray(sl.Elem(), n)
				id := in.siteObj(x, fmt.Sprintf("/c%d", n), func() *Obj { return &Obj{kind: okCell, t: at} })
				o := &Obj{id: id, kind: okCell, t: at, name: "bytes", site: objTab[id].site, owner: st.owner, cells: map[string]Val{}}
				for i := int64(0); i < n; i++ {
					o.cells[fmt.Sprintf("[%d]", i)] = Num{cst(int64((*s.c)[i]))}
				}
				st.putObj(o)
				return &SliceV{backs: []ObjID{id}, off: lin0, ln: cst(n), cp: cst(n), nl: lin0}
			}
			ln := s.ln
			if !byteS {
				r := symL(newSym("runes", 0, maxLen))
				st.addFact(subL(s.ln, r))
				// a non-empty string has at least one rune
				if st.cons.prove(addK(s.ln, -1)) {
					st.addFact(addK(r, -1))
				}
				ln = r
			}
			return in.newArr(st, x, "", sl.Elem(), ln, typedShape(sl.Elem(), "conv", ""))
		}
	}
	if types.Identical(ft.Underlying(), tt.Underlying()) {
		return v
	}
	return freshVal(tt, "conv", "")
}

func isByteSlice(t types.Type) bool {
	s, ok := t.Underlying().(*types.Slice)
	if !ok {
		return false
	}
	b := basicOf(s.Elem())
	return b != nil && b.Kind() == types.Uint8
}

// constBytes reads a byte slice whose content is constant.
func constBytes(st *State, y *SliceV) (string, bool) {
	n, ok := y.ln.constVal()
	off, ok2 := y.off.constVal()
	if !ok || !ok2 || n > 64 {
		return "", false
	}
	if n == 0 {
		return "", true
	}
	if len(y.backs) != 1 {
		return "", false
	}
	o := st.obj(y.backs[0])
	if o.kind != okCell {
		return "", false
	}
	b := make([]byte, n)
	for i := int64(0); i < n; i++ {
		v, ok := st.cell(o, fmt.Sprintf("[%d]", off+i), types.Typ[types.Uint8]).(Num)
		if !ok {
			return "", false
		}
		k, ok := v.L.constVal()
		if !ok {
			return "", false
		}
		b[i] = byte(k)
	}
	return string(b), true
}

func (in *Interp) convInt(st *State, at *ssa.Convert, v Val, fb, tb *types.Basic) Val {
	n, ok := v.(Num)
	lo, hi := intRange(tb)
	if !ok || n.L == nil {
		return Num{symL(newSym("conv", lo, hi))}
	}
	fl, fh := intRange(fb)
	if fl >= lo && fh <= hi && !(intBits(fb) == 64 && intBits(tb) < 64) {
		return n
	}
	if intBits(tb) == 64 && intBits(fb) == 64 {
		if tb.Info()&types.IsUnsigned == 0 {
			// uint64 -> int64: values below the tracked bound are unchanged
			if _, h := st.cons.ival(n.L); h < INF {
				return n
			}
		} else if st.cons.prove(n.L) {
			return n
		}
		return Num{symL(memoSym(fmt.Sprintf("conv%d:%d:%s", lo, hi, n.L.key()), "conv", lo, hi))}
	}
	if st.fits(n.L, lo, hi) {
		in.oblig("narrow", at, true, "")
		return n
	}
	if intBits(fb) != intBits(tb) && intBits(tb) < 64 {
		in.oblig("narrow", at, false, fmt.Sprintf("%s value may not fit %s", fb.Name(), tb.Name()))
	}
	if lo == 0 && hi < INF && st.cons.prove(n.L) {
		return Num{subL(n.L, mulK(st.floorDiv(n.L, hi+1), hi+1))}
	}
	y := memoSym(fmt.Sprintf("conv%d:%d:%s", lo, hi, n.L.key()), "conv", lo, hi)
	if intBits(fb) == intBits(tb) && symOrg[y] == "" {
		setOrg(y, orgOf(n.L))
	}
	return Num{symL(y)}
}

// ---- Allocation ----

// newArr makes a fresh backing array with the given element shape.
func (in *Interp) newArr(st *State, at ssa.Instruction, tag string, el types.Type, ln *Lin, sh *Shape) *SliceV {
	id := in.siteObj(at, tag, func() *Obj { return &Obj{kind: okArr, t: el} })
	o := &Obj{id: id, kind: okArr, t: el, name: objTab[id].name, site: objTab[id].site, owner: st.owner}
	if sh != nil {
		o.shapes = []*Shape{sh}
	}
	st.putObj(o)
	return &SliceV{backs: []ObjID{id}, off: lin0, ln: ln, cp: ln, nl: lin0}
}

func (in *Interp) newCell(st *State, at ssa.Instruction, tag string, t types.Type) ObjID {
	id := in.siteObj(at, tag, func() *Obj { return &Obj{kind: okCell, t: t} })
	st.putObj(&Obj{id: id, kind: okCell, t: t, name: objTab[id].name, site: objTab[id].site, owner: st.owner, cells: map[string]Val{}})
	return id
}

const hugeArr = 1024

func (in *Interp) alloc(st *State, x *ssa.Alloc) []*State {
	t := x.Type().Underlying().(*types.Pointer).Elem()
	if arr, ok := t.Underlying().(*types.Array); ok && arr.Len() > hugeArr {
		sl := in.newArr(st, x, "", arr.Elem(), cst(arr.Len()), localShape(fullZero(arr.Elem(), "")))
		return in.set1(st, x, &PtrV{alts: []PT{{sl.backs[0], ""}}, nl: lin0})
	}
	id := in.newCell(st, x, "", t)
	return in.set1(st, x, &PtrV{alts: []PT{{id, ""}}, nl: lin0})
}

const allocBound = 65536

func (in *Interp) makeSlice(st *State, x *ssa.MakeSlice) []*State {
	n, ok1 := in.val(st, x.Len).(Num)
	c, ok2 := in.val(st, x.Cap).(Num)
	if !ok1 || !ok2 || n.L == nil || c.L == nil {
		in.oblig("makeneg", x, false, "unknown slice size")
		return nil
	}
	good := st.prove(n.L) && st.prove(subL(c.L, n.L))
	in.oblig("makeneg", x, good, "slice length may be negative or exceed the capacity")
	if !good {
		if !st.addFact(n.L) || !st.addFact(subL(c.L, n.L)) {
			return nil
		}
	}
	in.allocSize(st, x, c.L)
	el := x.Type().Underlying().(*types.Slice).Elem()
	sl := in.newArr(st, x, "", el, n.L, localShape(fullZero(el, "")))
	sl.cp = c.L
	if !st.addFact(comb(-1, c.L, 1, cst(maxLen))) {
		return nil
	}
	return in.set1(st, x, sl)
}

func (in *Interp) allocSize(st *State, at ssa.Instruction, n *Lin) {
	ok := st.prove(comb(-1, n, 1, cst(allocBound)))
	if !ok {
		// memory already backed by data that was read
		for _, l := range in.sizeBase(st) {
			if st.prove(subL(addK(l, allocBound), n)) {
				ok = true
				break
			}
		}
	}
	in.oblig("alloc", at, ok, "size of the allocation is not bounded by "+fmt.Sprint(allocBound)+" elements")
}

// ---- Slices ----

func (in *Interp) bounds(st *State, at ssa.Instruction, idx, ln *Lin, what string) *State {
	if idx == nil || ln == nil {
		in.oblig("bounds", at, false, what+": unknown index")
		return st
	}
	lo := st.prove(idx)
	hi := st.prove(addK(subL(ln, idx), -1))
	in.oblig("bounds", at, lo && hi, fmt.Sprintf("%s: index %s not within length %s", what, idx, ln))
	if in.debug && (!lo || !hi) {
		in.dumpState(st, idx, ln)
	}
	if !lo && !st.addFact(idx) {
		return nil
	}
	if !hi && !st.addFact(addK(subL(ln, idx), -1)) {
		return nil
	}
	return st
}

func (st *State) constOf(l *Lin) (int64, bool) {
	if l == nil {
		return 0, false
	}
	if k, ok := l.constVal(); ok {
		return k, true
	}
	a, b := st.cons.ival(l)
	if a == b && a > -INF && b < INF {
		return a, true
	}
	return 0, false
}

func (st *State) elemPath(o *Obj, pos *Lin) string {
	if o.kind == okCell {
		if k, ok := st.constOf(pos); ok {
			return fmt.Sprintf("[%d]", k)
		}
		return "[?]"
	}
	return "[@" + idxKey(pos) + "]"
}

func (in *Interp) indexAddr(st *State, x *ssa.IndexAddr) []*State {
	iv, ok := in.val(st, x.Index).(Num)
	if !ok || iv.L == nil {
		iv = Num{symL(newSym("index", -INF, INF))}
	}
	switch b := in.val(st, x.X).(type) {
	case *SliceV:
		if st = in.bounds(st, x, iv.L, b.ln, "index"); st == nil {
			return nil
		}
		pos := addL(b.off, iv.L)
		if pos == nil {
			pos = symL(newSym("pos", 0, maxLen))
		}
		r := &PtrV{nl: lin0}
		for _, id := range b.backs {
			r.alts = addPT(r.alts, PT{id, st.elemPath(st.obj(id), pos)})
		}
		if len(r.alts) == 0 {
			return nil
		}
		return in.set1(st, x, r)
	case *PtrV:
		arr, ok := x.X.Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Array)
		if !ok {
			return nil
		}
		if st = in.bounds(st, x, iv.L, cst(arr.Len()), "index"); st == nil {
			return nil
		}
		var res []*State
		for _, t := range in.targets(st, b, x, true, "array pointer") {
			o := t.st.obj(t.p.obj)
			t.st.set(x, &PtrV{alts: []PT{{t.p.obj, t.p.path + t.st.elemPath(o, iv.L)}}, nl: lin0})
			res = append(res, t.st)
		}
		return res
	}
	in.oblig("bounds", x, false, "unmodelled index")
	return in.set1(st, x, freshVal(x.Type(), "idx", ""))
}

func (in *Interp) slice(st *State, x *ssa.Slice) []*State {
	num := func(v ssa.Value) *Lin {
		if v == nil {
			return nil
		}
		n, ok := in.val(st, v).(Num)
		if !ok || n.L == nil {
			return symL(newSym("bound", -INF, INF))
		}
		return n.L
	}
	lo := lin0
	if x.Low != nil {
		lo = num(x.Low)
	}
	hi, mx := num(x.High), num(x.Max)
	check := func(st *State, ln, cp *Lin) (*Lin, *Lin, bool) {
		h := hi
		if h == nil {
			h = ln
		}
		m := mx
		if m == nil {
			m = cp
		}
		facts := []*Lin{lo, subL(h, lo), subL(m, h)}
		if mx != nil {
			facts = append(facts, subL(cp, mx))
		}
		good := true
		for _, f := range facts {
			if f == nil || !st.prove(f) {
				good = false
			}
		}
		in.oblig("slice", x, good, fmt.Sprintf("slice bounds [%s:%s] not within %s", lo, h, cp))
		if !good {
			for _, f := range facts {
				if !st.addFact(f) {
					return nil, nil, false
				}
			}
		}
		return h, m, true
	}
	switch b := in.val(st, x.X).(type) {
	case *StrV:
		h, _, ok := check(st, b.ln, b.ln)
		if !ok {
			return nil
		}
		if b.c != nil {
			l, o1 := lo.constVal()
			k, o2 := h.constVal()
			if o1 && o2 && l >= 0 && l <= k && k <= int64(len(*b.c)) {
				return in.set1(st, x, constStr((*b.c)[l:k]))
			}
		}
		if x.Low == nil && x.High == nil {
			return in.set1(st, x, b)
		}
		return in.set1(st, x, &StrV{id: symL(newSym("substr", 0, INF)), ln: subL(h, lo)})
	case *SliceV:
		h, m, ok := check(st, b.ln, b.cp)
		if !ok {
			return nil
		}
		return in.set1(st, x, &SliceV{backs: b.backs, off: addL(b.off, lo), ln: subL(h, lo), cp: subL(m, lo), nl: b.nl})
	case *PtrV:
		arr, ok := x.X.Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Array)
		if !ok {
			return nil
		}
		h, m, ok := check(st, cst(arr.Len()), cst(arr.Len()))
		if !ok {
			return nil
		}
		var res []*State
		for _, t := range in.targets(st, b, x, true, "array pointer") {
			if t.p.path != "" {
				// a field of array type: treat its elements as unknown
				in.oblig("unmodelled", x, false, "slice of an array field")
				continue
			}
			t.st.set(x, &SliceV{backs: []ObjID{t.p.obj}, off: lo, ln: subL(h, lo), cp: subL(m, lo), nl: lin0})
			res = append(res, t.st)
		}
		return res
	}
	in.oblig("unmodelled", x, false, "slice expression")
	return in.set1(st, x, freshVal(x.Type(), "slice", ""))
}

// elemShapes lists the shapes of the elements a slice may hold.
func (in *Interp) elemShapes(st *State, sl *SliceV, el types.Type) []*Shape {
	var r []*Shape
	for _, id := range sl.backs {
		o := st.obj(id)
		if o.kind == okArr {
			r = st.mergeShapeLists(r, o.shapes)
			continue
		}
		arr, ok := o.t.Underlying().(*types.Array)
		if !ok {
			continue
		}
		off, o1 := st.constOf(sl.off)
		n, o2 := st.constOf(sl.ln)
		from, to := int64(0), arr.Len()
		if o1 {
			from = off
			if o2 {
				to = min(off+n, to)
			}
		}
		for i := from; i < to; i++ {
			cells := map[string]Val{}
			for _, l := range leaves(el) {
				cells[l.path] = st.cell(o, fmt.Sprintf("[%d]%s", i, l.path), l.t)
			}
			r = st.foldShape(r, st.genShape(cells, allStable))
		}
	}
	return r
}

// foldElems adds elements described by shapes to the arrays of a slice.
func (in *Interp) foldElems(st *State, at ssa.Instruction, sl *SliceV, shapes []*Shape, el types.Type, what string) {
	for _, id := range sl.backs {
		o := st.obj(id)
		in.effect(st, at, o, what)
		m := st.mut(id)
		m.elems = nil
		if m.kind == okArr {
			m.shapes = st.mergeShapeLists(m.shapes, shapes)
			continue
		}
		arr, ok := m.t.Underlying().(*types.Array)
		if !ok {
			continue
		}
		off, ok1 := sl.off.constVal()
		ln, ok2 := sl.ln.constVal()
		strong := what == "read" && ok1 && ok2 && len(sl.backs) == 1 && len(shapes) == 1
		for i := int64(0); i < arr.Len(); i++ {
			for _, sh := range shapes {
				c := st.instantiate(sh)
				if strong && i >= off && i < off+ln {
					for _, l := range leaves(el) {
						m.cells[fmt.Sprintf("[%d]%s", i, l.path)] = c[l.path]
					}
					continue
				}
				for _, l := range leaves(el) {
					q := fmt.Sprintf("[%d]%s", i, l.path)
					m.cells[q] = hullVal(st, st.cell(m, q, l.t), c[l.path], l.t)
				}
			}
		}
	}
}

func (in *Interp) appendB(st *State, x ssa.Instruction, args []Val, t types.Type) Val {
	el := t.Underlying().(*types.Slice).Elem()
	s, ok := args[0].(*SliceV)
	if !ok {
		return freshVal(t, "append", "")
	}
	if len(args) < 2 {
		return s
	}
	var add *Lin
	var shapes []*Shape
	switch y := args[1].(type) {
	case *SliceV:
		add = y.ln
		shapes = in.elemShapes(st, y, el)
	case *StrV:
		add = y.ln
		shapes = []*Shape{typedShape(el, "byte", "")}
	default:
		return freshVal(t, "append", "")
	}
	if k, ok := add.constVal(); ok && k == 0 {
		return s
	}
	ln := addL(s.ln, add)
	if ln == nil {
		ln = symL(newSym("len", 0, maxLen))
	}
	st.addFact(comb(-1, ln, 1, cst(maxLen)))
	ex := symL(newSym("cap-len", 0, maxLen))
	nl := lin0
	if !st.cons.prove(addK(add, -1)) {
		nl = symL(newSym("nil?", 0, 1))
		if st.isNil(s.nl) < 0 {
			nl = lin0
		}
	}
	if r := in.appendBytes(st, x, s, args[1], ln, ex); r != nil {
		return r
	}
	// appending in place when the capacity allows it
	inPlace := st.decide(bEq(subL(s.cp, s.ln))) <= 0
	if inPlace && len(s.backs) == 1 {
		o := st.obj(s.backs[0])
		if o.kind == okArr && o.input == "" && !o.global {
			m := st.mut(s.backs[0])
			m.shapes = st.mergeShapeLists(m.shapes, shapes)
			m.elems = nil
			return &SliceV{backs: s.backs, off: s.off, ln: ln, cp: addL(ln, ex), nl: nl}
		}
	}
	if inPlace {
		for _, id := range s.backs {
			o := st.obj(id)
			if o.input != "" || o.global {
				in.effect(st, x, o, "append in place")
			}
		}
	}
	old := in.elemShapes(st, s, el)
	r := in.newArr(st, x, "/app", el, ln, nil)
	m := st.mut(r.backs[0])
	m.shapes = st.mergeShapeLists(old, shapes)
	r.cp = addL(ln, ex)
	r.nl = nl
	return r
}

// constOrStr is the content of a constant byte slice or string.
func constOrStr(st *State, v Val) (string, bool) {
	switch y := v.(type) {
	case *SliceV:
		return constBytes(st, y)
	case *StrV:
		if y.c != nil {
			return *y.c, true
		}
	}
	return "", false
}

const maxConstBytes = 16

// appendBytes appends constant bytes to a constant byte slice. The array it makes may or may not be the one it
// started from: it is marked so that later writes to it are weak.
func (in *Interp) appendBytes(st *State, x ssa.Instruction, s *SliceV, more Val, ln, ex *Lin) Val {
	n, ok := ln.constVal()
	if !ok || n > maxConstBytes {
		return nil
	}
	b, ok2 := constOrStr(st, more)
	a, ok1 := constBytes(st, s)
	if !ok1 || !ok2 || int64(len(a)+len(b)) != n {
		return nil
	}
	ty := x.(ssa.Value).Type().Underlying().(*types.Slice)
	if !isByteSlice(ty) {
		return nil
	}
	if eq := st.decide(bEq(subL(s.cp, s.ln))); eq <= 0 {
		for _, id := range s.backs {
			o := st.obj(id)
			if !o.app {
				return nil // may overwrite bytes of another slice
			}
			for i := len(a); i < int(n); i++ {
				off, _ := s.off.constVal()
				if _, written := o.cells[fmt.Sprintf("[%d]", int(off)+i)]; written {
					return nil
				}
			}
		}
	}
	at := types.NewArray(ty.Elem(), maxConstBytes)
	id := in.siteObj(x, fmt.Sprintf("/a%d", n), func() *Obj { return &Obj{kind: okCell, t: at} })
	o := &Obj{id: id, kind: okCell, t: at, name: "bytes", site: objTab[id].site, owner: st.owner, cells: map[string]Val{}, app: true}
	for i, c := range []byte(a + b) {
		o.cells[fmt.Sprintf("[%d]", i)] = Num{cst(int64(c))}
	}
	st.putObj(o)
	return &SliceV{backs: []ObjID{id}, off: lin0, ln: ln, cp: addL(ln, ex), nl: lin0}
}

// copyBytes copies constant bytes to constant positions of one array.
func (in *Interp) copyBytes(st *State, at ssa.Instruction, d *SliceV, src Val, n *Lin) bool {
	k, ok := n.constVal()
	off, ok2 := d.off.constVal()
	if !ok || !ok2 || k > maxConstBytes || len(d.backs) != 1 {
		return false
	}
	b, ok := constOrStr(st, src)
	o := st.obj(d.backs[0])
	if !ok || o.kind != okCell || o.app || o.many || int64(len(b)) < k {
		return false
	}
	arr, ok := o.t.Underlying().(*types.Array)
	if !ok || basicOf(arr.Elem()) == nil || basicOf(arr.Elem()).Kind() != types.Uint8 || off+k > arr.Len() {
		return false
	}
	in.effect(st, at, o, "copy")
	m := st.mut(d.backs[0])
	for i := int64(0); i < k; i++ {
		m.cells[fmt.Sprintf("[%d]", off+i)] = Num{cst(int64(b[i]))}
	}
	return true
}

// ---- Maps ----

func keyLin(v Val) *Lin {
	switch x := v.(type) {
	case Num:
		return x.L
	case *StrV:
		return x.id
	case Bool:
		if l, ok := linOfBool(x); ok {
			return l
		}
	}
	return nil
}

// diffKey reports whether two keys are certainly different.
func (st *State) diffKey(a, b *Lin) bool {
	if a == nil || b == nil {
		return false
	}
	if isConstStrID(a) && isConstStrID(b) && !eqL(a, b) {
		return true
	}
	return st.decide(bEq(subL(a, b))) < 0
}

var constStrSyms map[Sym]bool

func isConstStrID(l *Lin) bool {
	if len(l.t) != 1 || l.k != 0 || l.t[0].c != 1 {
		return false
	}
	if len(constStrSyms) != len(strConsts) {
		constStrSyms = map[Sym]bool{}
		for _, s := range strConsts {
			constStrSyms[s] = true
		}
	}
	return constStrSyms[l.t[0].s]
}

func (st *State) hasKey(id ObjID, k *Lin) bool {
	if k == nil {
		return false
	}
	for _, h := range st.hks {
		if h.obj == id && (eqL(h.s, k) || st.cons.proveEq(subL(h.s, k))) {
			return true
		}
	}
	return false
}

func (st *State) lacksKey(o *Obj, k *Lin) bool {
	if k == nil || o.many {
		return false
	}
	if n, ok := st.constOf(o.ln); ok && n == 0 {
		return true
	}
	for _, a := range o.absent {
		if eqL(a, k) || st.cons.proveEq(subL(a, k)) {
			return true
		}
	}
	return false
}

func mapElemKey(k *Lin) string { return "map" + k.key() }

func (in *Interp) mapUpdate(st *State, x *ssa.MapUpdate) []*State {
	m, ok := in.val(st, x.Map).(*MapV)
	if !ok {
		in.oblig("unmodelled", x, false, "map update")
		return []*State{st}
	}
	d := st.isNil(m.nl)
	in.oblig("nilmap", x, d < 0, "assignment to a map that may be nil")
	if d > 0 {
		return nil
	}
	if d == 0 {
		ss := st.assume(bNot(boolOfLin(m.nl)))
		if len(ss) == 0 {
			return nil
		}
		st = ss[0]
	}
	mt := x.Map.Type().Underlying().(*types.Map)
	k, v := in.val(st, x.Key), in.val(st, x.Value)
	cells := map[string]Val{}
	cellsOf(k, mt.Key(), "k", cells)
	cellsOf(v, mt.Elem(), "v", cells)
	kl := keyLin(k)
	var res []*State
	for i, id := range m.objs {
		s := st
		if i < len(m.objs)-1 {
			s = st.clone()
		}
		o := s.obj(id)
		in.effect(s, x, o, "map entry")
		has := s.hasKey(id, kl)
		lacks := s.lacksKey(o, kl)
		o = s.mut(id)
		s.foldInto(o, cells)
		if o.many {
			o.elems = nil
			if o.ln != nil {
				o.ln = symL(newSym("len(map)", 0, keyDomain(mt.Key())))
			}
			res = append(res, s)
			continue
		}
		var ab []*Lin
		for _, a := range o.absent {
			if s.diffKey(a, kl) {
				ab = append(ab, a)
			}
		}
		o.absent = ab
		o.elems = nil
		if kl != nil {
			o.elems = map[string]map[string]Val{mapElemKey(kl): cells}
		}
		switch {
		case has:
		case lacks:
			o.ln = addK(o.ln, 1)
		default:
			n := symL(newSym("len(map)", 0, keyDomain(mt.Key())))
			old := o.ln
			o.ln = n
			if !s.addFact(subL(n, old)) || !s.addFact(addK(subL(old, n), 1)) || !s.addFact(addK(n, -1)) {
				continue
			}
		}
		if kl != nil {
			s.addHK(hk{id, kl})
		}
		res = append(res, s)
	}
	return res
}

// lookup reads a map; results are (value, present).
func (in *Interp) lookup(st *State, at ssa.Instruction, m *MapV, mt *types.Map, k Val) []struct {
	st *State
	v  Val
	ok Bool
} {
	type res = struct {
		st *State
		v  Val
		ok Bool
	}
	var out []res
	kl := keyLin(k)
	objs := m.objs
	if len(objs) == 0 {
		return []res{{st, zeroVal(mt.Elem()), bFalse}}
	}
	if st.isNil(m.nl) == 0 {
		// a nil map behaves as an empty one
		n := st.clone()
		for _, s := range n.assume(boolOfLin(m.nl)) {
			out = append(out, res{s, zeroVal(mt.Elem()), bFalse})
		}
		ss := st.assume(bNot(boolOfLin(m.nl)))
		if len(ss) == 0 {
			return out
		}
		st = ss[0]
	}
	for i, id := range objs {
		s := st
		if i < len(objs)-1 {
			s = st.clone()
		}
		o := s.obj(id)
		if !o.many && kl != nil {
			if e, ok := o.elems[mapElemKey(kl)]; ok && s.hasKey(id, kl) {
				out = append(out, res{s, gather(e, mt.Elem(), "v"), bTrue})
				continue
			}
		}
		has := s.hasKey(id, kl)
		lacks := s.lacksKey(o, kl)
		if !has {
			n := s
			if !lacks {
				n = s.clone()
			}
			if kl != nil && !o.many && !lacks {
				mm := n.mut(id)
				mm.absent = append(mm.absent, kl)
			}
			out = append(out, res{n, zeroVal(mt.Elem()), bFalse})
		}
		if lacks {
			continue
		}
		for j, sh := range o.shapes {
			p := s
			if j < len(o.shapes)-1 {
				p = s.clone()
			}
			c := p.instantiate(sh)
			if !p.unifyKey(c, mt.Key(), k) {
				continue
			}
			if kl != nil {
				p.addHK(hk{id, kl})
			}
			if !o.many {
				if !p.addFact(addK(o.ln, -1)) {
					continue
				}
				if kl != nil {
					mm := p.mut(id)
					ne := map[string]map[string]Val{}
					for a, b := range mm.elems {
						ne[a] = b
					}
					ne[mapElemKey(kl)] = c
					mm.elems = ne
				}
			}
			out = append(out, res{p, gather(c, mt.Elem(), "v"), bTrue})
		}
	}
	return out
}

// unifyKey adds the equality of a shape's key with k.
func (s *State) unifyKey(c map[string]Val, kt types.Type, k Val) bool {
	switch x := k.(type) {
	case Num:
		if y, ok := c["k"].(Num); ok && x.L != nil && y.L != nil {
			return s.addEq(subL(x.L, y.L))
		}
	case *StrV:
		if y, ok := c["k"].(*StrV); ok {
			if isConstStrID(x.id) && isConstStrID(y.id) && !eqL(x.id, y.id) {
				return false
			}
			return s.addEq(subL(x.id, y.id)) && s.addEq(subL(x.ln, y.ln))
		}
	case *Agg:
		for _, l := range leaves(kt) {
			a, ok1 := x.get(l.path, l.t).(Num)
			b, ok2 := c["k"+l.path].(Num)
			if ok1 && ok2 && a.L != nil && b.L != nil {
				if !s.addEq(subL(a.L, b.L)) {
					return false
				}
			}
		}
	}
	return true
}

func (in *Interp) doLookup(st *State, x *ssa.Lookup) []*State {
	switch m := in.val(st, x.X).(type) {
	case *MapV:
		mt := x.X.Type().Underlying().(*types.Map)
		var res []*State
		for _, r := range in.lookup(st, x, m, mt, in.val(st, x.Index)) {
			for _, v := range in.materialise(r.st, r.v, x, "k") {
				if x.CommaOk {
					v.st.set(x, Tuple{v.v, r.ok})
				} else {
					v.st.set(x, v.v)
				}
				if in.hooks.lookup != nil {
					in.hooks.lookup(in, v.st, x, v.v, r.ok)
				}
				res = append(res, v.st)
			}
		}
		return res
	case *StrV:
		return in.strIndex(st, x, m, in.val(st, x.Index))
	}
	in.oblig("unmodelled", x, false, "lookup")
	return in.set1(st, x, freshVal(x.Type(), "lookup", ""))
}

func (in *Interp) strIndex(st *State, x ssa.Value, s *StrV, iv Val) []*State {
	n, ok := iv.(Num)
	if !ok {
		n = Num{symL(newSym("index", -INF, INF))}
	}
	if st = in.bounds(st, x.(ssa.Instruction), n.L, s.ln, "string index"); st == nil {
		return nil
	}
	if k, ok := st.constOf(n.L); ok && s.c != nil && k < int64(len(*s.c)) {
		return in.set1(st, x, Num{cst(int64((*s.c)[k]))})
	}
	return in.set1(st, x, Num{symL(newSym("char", 0, 255))})
}

// iterV is a range iterator over a map or string.
type iterV struct {
	obj ObjID // counter cell "#cnt"
	m   *MapV
	s   *StrV
}

var emptyStruct = types.NewStruct(nil, nil)

func (in *Interp) doRange(st *State, x *ssa.Range) []*State {
	id := in.newCell(st, x, "/it", emptyStruct)
	st.mut(id).cells["#cnt"] = Num{lin0}
	cur := &PtrV{alts: []PT{{id, ""}}, nl: lin0}
	switch v := in.val(st, x.X).(type) {
	case *MapV:
		return in.set1(st, x, Tuple{cur, v})
	case *StrV:
		return in.set1(st, x, Tuple{cur, v})
	}
	return in.set1(st, x, Tuple{cur, Unk{}})
}

func (in *Interp) doNext(st *State, x *ssa.Next) []*State {
	tp, ok := in.val(st, x.Iter).(Tuple)
	if !ok || len(tp) != 2 {
		in.oblig("unmodelled", x, false, "iterator")
		return in.set1(st, x, freshVal(x.Type(), "next", ""))
	}
	cur, _ := tp[0].(*PtrV)
	tt := x.Type().(*types.Tuple)
	var res []*State
	end := st.clone()
	end.set(x, Tuple{bFalse, zeroVal(tt.At(1).Type()), zeroVal(tt.At(2).Type())})
	res = append(res, end)
	if cur == nil || len(cur.alts) != 1 {
		in.oblig("unmodelled", x, false, "iterator")
		return res
	}
	cid := cur.alts[0].obj
	cnt := Num{symL(newSym("count", 0, maxLen))}
	if c, ok := st.cell(st.obj(cid), "#cnt", intT).(Num); ok {
		cnt = c
	}
	switch v := tp[1].(type) {
	case *StrV:
		// the next position is strictly larger and within the string
		if !st.addFact(addK(subL(v.ln, cnt.L), -1)) {
			return res
		}
		nx := symL(newSym("pos", 0, maxLen))
		if !st.addFact(addK(subL(nx, cnt.L), -1)) || !st.addFact(subL(v.ln, nx)) {
			return res
		}
		st.mut(cid).cells["#cnt"] = Num{nx}
		st.set(x, Tuple{bTrue, cnt, Num{symL(newSym("rune", 0, 0x10FFFF))}})
		res = append(res, st)
	case *MapV:
		d := st.isNil(v.nl)
		if d > 0 {
			return res
		}
		if d == 0 {
			ss := st.assume(bNot(boolOfLin(v.nl)))
			if len(ss) == 0 {
				return res
			}
			st = ss[0]
		}
		var mt *types.Map
		if r, ok := x.Iter.(*ssa.Range); ok {
			mt = r.X.Type().Underlying().(*types.Map)
		}
		if mt == nil {
			in.oblig("unmodelled", x, false, "map iterator")
			return res
		}
		for i, id := range v.objs {
			s := st
			if i < len(v.objs)-1 {
				s = st.clone()
			}
			o := s.obj(id)
			for j, sh := range o.shapes {
				p := s
				if j < len(o.shapes)-1 {
					p = s.clone()
				}
				c := p.instantiate(sh)
				nx := addK(cnt.L, 1)
				p.mut(cid).cells["#cnt"] = Num{nx}
				// every key is visited at most once
				if o.ln != nil && !o.many && !p.addFact(subL(o.ln, nx)) {
					continue
				}
				if !p.addFact(comb(-1, nx, 1, cst(keyCount(p, o, mt)))) {
					continue
				}
				k := gather(c, mt.Key(), "k")
				if kl := keyLin(k); kl != nil {
					p.addHK(hk{id, kl})
				}
				for _, m := range in.materialise(p, gather(c, mt.Elem(), "v"), x, fmt.Sprintf("n%d.%d", i, j)) {
					kk, vv := k, m.v
					if b, ok := tt.At(1).Type().(*types.Basic); ok && b.Kind() == types.Invalid {
						kk = Unk{}
					}
					if b, ok := tt.At(2).Type().(*types.Basic); ok && b.Kind() == types.Invalid {
						vv = Unk{}
					}
					m.st.set(x, Tuple{bTrue, kk, vv})
					res = append(res, m.st)
				}
			}
		}
	default:
		in.oblig("unmodelled", x, false, "iterator")
		st.set(x, Tuple{bTrue, freshVal(tt.At(1).Type(), "key", ""), freshVal(tt.At(2).Type(), "val", "")})
		res = append(res, st)
	}
	return res
}

// ---- Interfaces ----

func (in *Interp) typeAssert(st *State, x *ssa.TypeAssert) []*State {
	v, ok := in.val(st, x.X).(*IfaceV)
	if !ok {
		in.oblig("unmodelled", x, false, "type assertion")
		return in.set1(st, x, freshVal(x.Type(), "assert", ""))
	}
	at := x.AssertedType
	it, toIface := at.Underlying().(*types.Interface)
	var res []*State
	yes := func(s *State, w Val) {
		if x.CommaOk {
			s.set(x, Tuple{w, bTrue})
		} else {
			s.set(x, w)
		}
		res = append(res, s)
	}
	no := func(s *State) {
		if x.CommaOk {
			s.set(x, Tuple{zeroVal(at), bFalse})
			res = append(res, s)
		}
	}
	mayFail := false
	d := st.isNil(v.nl)
	if d >= 0 {
		mayFail = true
		n := st
		if d == 0 {
			n = st.clone()
		}
		for _, s := range n.assume(boolOfLin(v.nl)) {
			no(s)
		}
		if d > 0 {
			in.oblig("typeassert", x, x.CommaOk, "type assertion on nil")
			return res
		}
		ss := st.assume(bNot(boolOfLin(v.nl)))
		if len(ss) == 0 {
			return res
		}
		st = ss[0]
	}
	for i, a := range v.alts {
		s := st
		if i < len(v.alts)-1 {
			s = st.clone()
		}
		switch {
		case a.t == nil:
			mayFail = true
			n := s.clone()
			no(n)
			if toIface {
				yes(s, &IfaceV{alts: []IT{a}, nl: lin0})
			} else {
				yes(s, freshVal(at, "assert", ""))
			}
		case toIface:
			if types.Implements(a.t, it) {
				yes(s, &IfaceV{alts: []IT{a}, nl: lin0})
			} else {
				mayFail = true
				no(s)
			}
		case types.Identical(a.t, at):
			s.replaceVal(v, &IfaceV{alts: []IT{a}, nl: lin0})
			for _, m := range in.materialise(s, a.v, x, fmt.Sprintf("t%d", i)) {
				yes(m.st, m.v)
			}
		default:
			mayFail = true
			no(s)
		}
	}
	in.oblig("typeassert", x, x.CommaOk || !mayFail, "type assertion may fail")
	return res
}

// ---- Step ----

func (in *Interp) step(st *State, i ssa.Instruction) []*State {
	switch x := i.(type) {
	case *ssa.DebugRef:
		return []*State{st}
	case *ssa.Alloc:
		return in.alloc(st, x)
	case *ssa.BinOp:
		v := in.binop(st, x)
		if v == nil {
			return nil
		}
		return in.set1(st, x, v)
	case *ssa.UnOp:
		return in.unop(st, x)
	case *ssa.ChangeType:
		return in.set1(st, x, in.val(st, x.X))
	case *ssa.ChangeInterface:
		return in.set1(st, x, in.val(st, x.X))
	case *ssa.Convert:
		return in.set1(st, x, in.convert(st, x))
	case *ssa.MakeInterface:
		v := in.val(st, x.X)
		return in.set1(st, x, &IfaceV{alts: []IT{{x.X.Type(), v}}, nl: lin0})
	case *ssa.MakeClosure:
		f := &FuncV{fn: x.Fn.(*ssa.Function), nl: lin0}
		for _, b := range x.Bindings {
			f.binds = append(f.binds, in.val(st, b))
		}
		return in.set1(st, x, f)
	case *ssa.MakeMap:
		if x.Reserve != nil {
			if n, ok := in.val(st, x.Reserve).(Num); ok && n.L != nil {
				// a negative hint to make panics only for constants; a large one allocates
				neg := st.cons.prove(n.L)
				in.oblig("makeneg", x, neg, "map size hint may be negative")
				in.allocSize(st, x, n.L)
			}
		}
		id := in.siteObj(x, "", func() *Obj { return &Obj{kind: okMap, t: x.Type().Underlying()} })
		st.putObj(&Obj{id: id, kind: okMap, t: x.Type().Underlying(), ln: lin0, name: objTab[id].name, site: objTab[id].site, owner: st.owner})
		var keep []hk
		for _, h := range st.hks {
			if h.obj != id {
				keep = append(keep, h)
			}
		}
		st.hks = keep
		return in.set1(st, x, &MapV{objs: []ObjID{id}, nl: lin0})
	case *ssa.MakeSlice:
		return in.makeSlice(st, x)
	case *ssa.FieldAddr:
		name := x.X.Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Struct).Field(x.Field).Name()
		var res []*State
		for _, t := range in.targets(st, in.val(st, x.X), x, true, "pointer to "+name) {
			t.st.set(x, &PtrV{alts: []PT{{t.p.obj, t.p.path + "." + name}}, nl: lin0})
			res = append(res, t.st)
		}
		return res
	case *ssa.Field:
		name := x.X.Type().Underlying().(*types.Struct).Field(x.Field).Name()
		if a, ok := in.val(st, x.X).(*Agg); ok {
			v := a.sub("."+name, x.Type())
			var res []*State
			for _, m := range in.materialise(st, v, x, "f") {
				m.st.set(x, m.v)
				res = append(res, m.st)
			}
			return res
		}
		return in.set1(st, x, freshVal(x.Type(), name, ""))
	case *ssa.IndexAddr:
		return in.indexAddr(st, x)
	case *ssa.Index:
		switch b := in.val(st, x.X).(type) {
		case *StrV:
			return in.strIndex(st, x, b, in.val(st, x.Index))
		case *Agg:
			n, _ := in.val(st, x.Index).(Num)
			arr, ok := x.X.Type().Underlying().(*types.Array)
			if ok {
				if st = in.bounds(st, x, n.L, cst(arr.Len()), "index"); st == nil {
					return nil
				}
				if k, ok := st.constOf(n.L); ok {
					return in.set1(st, x, b.sub(fmt.Sprintf("[%d]", k), x.Type()))
				}
			}
			return in.set1(st, x, freshVal(x.Type(), "elem", ""))
		}
		in.oblig("unmodelled", x, false, "index")
		return in.set1(st, x, freshVal(x.Type(), "elem", ""))
	case *ssa.Lookup:
		return in.doLookup(st, x)
	case *ssa.Slice:
		return in.slice(st, x)
	case *ssa.Store:
		return in.doStore(st, x)
	case *ssa.MapUpdate:
		return in.mapUpdate(st, x)
	case *ssa.Range:
		return in.doRange(st, x)
	case *ssa.Next:
		return in.doNext(st, x)
	case *ssa.TypeAssert:
		return in.typeAssert(st, x)
	case *ssa.Extract:
		if t, ok := in.val(st, x.Tuple).(Tuple); ok && x.Index < len(t) {
			return in.set1(st, x, t[x.Index])
		}
		return in.set1(st, x, freshVal(x.Type(), x.Name(), ""))
	case *ssa.Call:
		return in.finish(st, x, in.invoke(st, x, x.Common()))
	case *ssa.Defer:
		f, args := in.prepare(st, x.Common())
		st.defers = append(st.defers[:len(st.defers):len(st.defers)], &deferred{x, f, args})
		return []*State{st}
	case *ssa.RunDefers:
		sts := []*State{st}
		for {
			var next []*State
			more := false
			for _, s := range sts {
				if len(s.defers) == 0 {
					next = append(next, s)
					continue
				}
				more = true
				d := s.defers[len(s.defers)-1]
				s.defers = s.defers[: len(s.defers)-1 : len(s.defers)-1]
				for _, e := range in.apply(s, d.in, d.in.Common(), d.fn, d.args) {
					next = append(next, e.st)
				}
			}
			sts = next
			if !more {
				return sts
			}
		}
	case *ssa.Go, *ssa.Send, *ssa.Select:
		in.oblig("unmodelled", i, false, "concurrency construct")
		return []*State{st}
	}
	in.oblig("unmodelled", i, false, fmt.Sprintf("instruction %T", i))
	if v, ok := i.(ssa.Value); ok {
		st.set(v, freshVal(v.Type(), v.Name(), ""))
	}
	return []*State{st}
}

func (in *Interp) finish(st *State, x *ssa.Call, es []exit) []*State {
	var res []*State
	for _, e := range es {
		vs := []stVal{{e.st, e.res}}
		if _, ok := e.res.(*PtrV); ok {
			vs = in.materialise(e.st, e.res, x, "c")
		}
		for _, v := range vs {
			v.st.set(x, v.v)
			res = append(res, v.st)
		}
	}
	return res
}

// prepare evaluates callee and arguments.
func (in *Interp) prepare(st *State, c *ssa.CallCommon) (Val, []Val) {
	var args []Val
	for _, a := range c.Args {
		args = append(args, in.val(st, a))
	}
	return in.val(st, c.Value), args
}

func (in *Interp) invoke(st *State, at ssa.CallInstruction, c *ssa.CallCommon) []exit {
	f, args := in.prepare(st, c)
	return in.apply(st, at, c, f, args)
}

// apply performs a call.
func (in *Interp) apply(st *State, at ssa.CallInstruction, c *ssa.CallCommon, f Val, args []Val) []exit {
	if c.IsInvoke() {
		v, ok := f.(*IfaceV)
		if !ok {
			in.oblig("unmodelled", at, false, "method call on unknown value")
			return []exit{{st, freshVal(resultType(c.Signature()), "call", "")}}
		}
		d := st.isNil(v.nl)
		in.oblig("nil", at, d < 0, "method call on an interface that may be nil")
		if d > 0 {
			return nil
		}
		if d == 0 {
			ss := st.assume(bNot(boolOfLin(v.nl)))
			if len(ss) == 0 {
				return nil
			}
			st = ss[0]
		}
		var res []exit
		for i, a := range v.alts {
			s := st
			if i < len(v.alts)-1 {
				s = st.clone()
			}
			if a.t != nil {
				ms := in.P.prog.MethodSets.MethodSet(a.t)
				if sel := ms.Lookup(c.Method.Pkg(), c.Method.Name()); sel != nil {
					if fn := in.P.prog.MethodValue(sel); fn != nil {
						res = append(res, in.static(s, at, c, fn, append([]Val{a.v}, args...), nil)...)
						continue
					}
				}
			}
			res = append(res, in.external(s, at, c, "invoke "+c.Method.FullName(), append([]Val{&IfaceV{alts: []IT{a}, nl: lin0}}, args...))...)
		}
		return res
	}
	fv, ok := f.(*FuncV)
	if !ok {
		in.oblig("unmodelled", at, false, "call of an unknown function value")
		return []exit{{st, freshVal(resultType(c.Signature()), "call", "")}}
	}
	if fv.bi != "" {
		return in.builtin(st, at, c, fv.bi, args)
	}
	if fv.fn == nil {
		if fv.nl != nil {
			d := st.isNil(fv.nl)
			in.oblig("nil", at, d < 0, "call of a function value that may be nil")
			if d > 0 {
				return nil
			}
		}
		in.oblig("unmodelled", at, false, "call of an unknown function value")
		return []exit{{st, freshVal(resultType(c.Signature()), "call", "")}}
	}
	return in.static(st, at, c, fv.fn, args, fv.binds)
}

func resultType(s *types.Signature) types.Type {
	switch s.Results().Len() {
	case 0:
		return types.NewTuple()
	case 1:
		return s.Results().At(0).Type()
	}
	return s.Results()
}

func (in *Interp) static(st *State, at ssa.CallInstruction, c *ssa.CallCommon, fn *ssa.Function, args, binds []Val) []exit {
	if in.hooks.call != nil {
		if es, ok := in.hooks.call(in, st, at, fn, args); ok {
			return es
		}
	}
	pkg := fn.Pkg
	if pkg == nil && fn.Object() != nil && fn.Object().Pkg() != nil {
		pkg = in.P.prog.Package(fn.Object().Pkg())
	}
	if pkg == nil && fn.Parent() != nil {
		pkg = fn.Parent().Pkg
	}
	module := pkg != nil && in.P.pkgInModule(pkg.Pkg)
	if module && len(fn.Blocks) > 0 {
		if es, ok := in.contract(st, fn, args); ok {
			return es
		}
		return in.call(st, fn, args, binds, at)
	}
	name := fn.String()
	// wrappers of promoted external methods are named after the wrapper's receiver
	if fn.Synthetic != "" && fn.Object() != nil {
		if o, ok := fn.Object().(*types.Func); ok {
			name = o.FullName()
			if len(fn.Blocks) > 0 && !strings.HasPrefix(name, "(") {
				return in.call(st, fn, args, binds, at)
			}
		}
	}
	return in.external(st, at, c, name, args)
}

func (in *Interp) builtin(st *State, at ssa.CallInstruction, c *ssa.CallCommon, name string, args []Val) []exit {
	one := func(v Val) []exit { return []exit{{st, v}} }
	switch name {
	case "len", "cap":
		switch x := args[0].(type) {
		case *SliceV:
			if name == "cap" {
				return one(Num{x.cp})
			}
			return one(Num{x.ln})
		case *StrV:
			return one(Num{x.ln})
		case *MapV:
			if len(x.objs) == 0 {
				return one(Num{lin0})
			}
			if len(x.objs) == 1 {
				o := st.obj(x.objs[0])
				if o.ln != nil && !o.many && st.isNil(x.nl) < 0 {
					return one(Num{o.ln})
				}
				if o.ln != nil && !o.many {
					n := symL(newSym("len(map)", 0, maxLen))
					st.addFact(subL(o.ln, n))
					return one(Num{n})
				}
			}
			return one(Num{symL(newSym("len(map)", 0, maxLen))})
		case *Agg:
			if a, ok := c.Args[0].Type().Underlying().(*types.Array); ok {
				return one(Num{cst(a.Len())})
			}
		case *PtrV:
			if p, ok := c.Args[0].Type().Underlying().(*types.Pointer); ok {
				if a, ok := p.Elem().Underlying().(*types.Array); ok {
					return one(Num{cst(a.Len())})
				}
			}
		}
		return one(Num{symL(newSym(name, 0, maxLen))})
	case "append":
		return one(in.appendB(st, at, args, c.Signature().Results().At(0).Type()))
	case "copy":
		d, ok := args[0].(*SliceV)
		if !ok {
			break
		}
		el := c.Args[0].Type().Underlying().(*types.Slice).Elem()
		var sl *Lin
		var shapes []*Shape
		switch y := args[1].(type) {
		case *SliceV:
			sl = y.ln
			shapes = in.elemShapes(st, y, el)
		case *StrV:
			sl = y.ln
			shapes = []*Shape{typedShape(el, "byte", "")}
		default:
			return one(Num{symL(newSym("copied", 0, maxLen))})
		}
		var n *Lin
		switch {
		case st.cons.prove(subL(sl, d.ln)):
			n = d.ln
		case st.cons.prove(subL(d.ln, sl)):
			n = sl
		default:
			n = symL(newSym("copied", 0, maxLen))
			st.addFact(subL(sl, n))
			st.addFact(subL(d.ln, n))
		}
		if in.copyBytes(st, at, d, args[1], n) {
			return one(Num{n})
		}
		if k, ok := n.constVal(); !ok || k > 0 {
			in.foldElems(st, at, d, shapes, el, "copy")
		}
		return one(Num{n})
	case "delete":
		if m, ok := args[0].(*MapV); ok {
			for _, id := range m.objs {
				in.effect(st, at, st.obj(id), "map delete")
				o := st.mut(id)
				o.elems = nil
				if o.ln != nil {
					n := symL(newSym("len(map)", 0, maxLen))
					st.addFact(subL(o.ln, n))
					st.addFact(addK(subL(n, o.ln), 1))
					o.ln = n
				}
				var keep []hk
				for _, h := range st.hks {
					if h.obj != id {
						keep = append(keep, h)
					}
				}
				st.hks = keep
			}
			in.event("delete", at, "")
		}
		return one(Tuple{})
	case "min", "max":
		if len(args) == 2 {
			a, ok1 := args[0].(Num)
			b, ok2 := args[1].(Num)
			if ok1 && ok2 && a.L != nil && b.L != nil {
				d := subL(b.L, a.L) // >= 0: a <= b
				var res []exit
				s2 := st.clone()
				for _, s := range st.assume(bGe(d)) {
					v := a
					if name == "max" {
						v = b
					}
					res = append(res, exit{s, v})
				}
				for _, s := range s2.assume(bNot(bGe(d))) {
					v := b
					if name == "max" {
						v = a
					}
					res = append(res, exit{s, v})
				}
				return res
			}
		}
	case "print", "println":
		return one(Tuple{})
	case "recover":
		return one(&IfaceV{nl: lin1})
	case "ssa:wrapnilchk":
		p, ok := args[0].(*PtrV)
		if ok {
			d := st.isNil(p.nl)
			in.oblig("nil", at, d < 0, "method value of a nil pointer")
			if d > 0 {
				return nil
			}
		}
		return one(args[0])
	case "clear":
		if m, ok := args[0].(*MapV); ok {
			for _, id := range m.objs {
				in.effect(st, at, st.obj(id), "map clear")
			}
		}
		in.oblig("unmodelled", at, false, "clear")
		return one(Tuple{})
	}
	in.oblig("unmodelled", at, false, "builtin "+name)
	return one(freshVal(resultType(c.Signature()), name, ""))
}

// keyCount bounds the number of keys of a map: by the key type, the ranges of the keys it may hold, and memory.
func keyCount(st *State, o *Obj, mt *types.Map) int64 {
	n := min(keyDomain(mt.Key()), int64(1)<<39)
	if !isIntType(mt.Key()) {
		return n
	}
	var sum int64
	for _, sh := range o.shapes {
		k, ok := sh.cells["k"].(Num)
		if !ok || k.L == nil {
			return n
		}
		lo, hi := st.shIval(k.L)
		if lo <= -INF || hi >= INF || hi-lo+1 > n {
			return n
		}
		sum += hi - lo + 1
	}
	return min(n, sum)
}
