package main

import (
	"fmt"
	"go/constant"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// ---- Abstract values ----

type Val interface{}

type Num struct{ L *Lin }

// Bool is a formula: 'T','F','g' (L>=0), 'e' (L==0), 'n' (L!=0), '&', '|'.
type Bool struct {
	op   byte
	L    *Lin
	a, b *Bool
}

type Flt struct{}

// StrV is a string: identity, length, constant value if known.
type StrV struct {
	id *Lin
	ln *Lin
	c  *string
}

type PT struct {
	obj  ObjID
	path string
}

type PtrV struct {
	alts []PT
	nl   *Lin // 1: nil
}

type SliceV struct {
	backs []ObjID
	off   *Lin
	ln    *Lin
	cp    *Lin
	nl    *Lin
}

type MapV struct {
	objs []ObjID
	nl   *Lin
}

type IT struct {
	t types.Type // nil: unknown dynamic type
	v Val
}

type IfaceV struct {
	alts []IT
	nl   *Lin
}

type FuncV struct {
	fn    *ssa.Function
	binds []Val
	bi    string // builtin or bound external method
	nl    *Lin
	recv  Val
}

// Agg is a struct or array held in a register; absent cells are zero.
type Agg struct {
	t     types.Type
	cells map[string]Val
}

type Tuple []Val

// Unk is a value the analysis does not model (channels, complex numbers ...).
type Unk struct{}

type ObjID int32

const (
	okCell = iota // one object with cells by path
	okArr         // backing array described by element shapes
	okMap         // map described by entry shapes
	okSum         // all objects of an allocation site born in earlier iterations
)

type hk struct {
	obj ObjID
	s   *Lin
}

type Shape struct {
	disc   string
	cells  map[string]Val
	locals []Sym
	hks    []hk
}

type Obj struct {
	id     ObjID
	kind   int
	t      types.Type // content type; element type for okArr; map type for okMap
	cells  map[string]Val
	shapes []*Shape
	ln     *Lin                      // map length
	elems  map[string]map[string]Val // focused elements of okArr by index key
	absent []*Lin                    // keys known absent from a map
	sym    bool                      // unread cells hold arbitrary values
	many   bool                      // okArr, okMap: stands for several objects
	fixed  bool                      // describes an unchanging input
	input  string                    // non-empty: belongs to an input (name)
	global bool
	app    bool  // an array that append may share with another slice: writes are weak
	inst   ObjID // instance of a summary
	site   string
	name   string
	owner  *int
}

var objTab = []*Obj{nil}

func newObj(o *Obj) ObjID {
	o.id = ObjID(len(objTab))
	objTab = append(objTab, o)
	return o.id
}

var (
	bTrue  = Bool{op: 'T'}
	bFalse = Bool{op: 'F'}
)

func mkBool(b bool) Bool {
	if b {
		return bTrue
	}
	return bFalse
}

func bGe(l *Lin) Bool {
	if l == nil {
		return opaqueBool("ovf")
	}
	if k, ok := l.constVal(); ok {
		return mkBool(k >= 0)
	}
	return Bool{op: 'g', L: l}
}

func bEq(l *Lin) Bool {
	if l == nil {
		return opaqueBool("ovf")
	}
	if k, ok := l.constVal(); ok {
		return mkBool(k == 0)
	}
	return Bool{op: 'e', L: l}
}

func bNot(b Bool) Bool {
	switch b.op {
	case 'T':
		return bFalse
	case 'F':
		return bTrue
	case 'g':
		return bGe(addK(negL(b.L), -1))
	case 'e':
		return Bool{op: 'n', L: b.L}
	case 'n':
		return Bool{op: 'e', L: b.L}
	case '&':
		x, y := bNot(*b.a), bNot(*b.b)
		return bOr(x, y)
	case '|':
		x, y := bNot(*b.a), bNot(*b.b)
		return bAnd(x, y)
	}
	panic("bNot")
}

func bAnd(x, y Bool) Bool {
	switch {
	case x.op == 'F' || y.op == 'F':
		return bFalse
	case x.op == 'T':
		return y
	case y.op == 'T':
		return x
	}
	return Bool{op: '&', a: &x, b: &y}
}

func bOr(x, y Bool) Bool {
	switch {
	case x.op == 'T' || y.op == 'T':
		return bTrue
	case x.op == 'F':
		return y
	case y.op == 'F':
		return x
	}
	return Bool{op: '|', a: &x, b: &y}
}

func opaqueBool(name string) Bool {
	return Bool{op: 'g', L: addK(symL(newSym(name, 0, 1)), -1)}
}

// boolOfLin is the boolean held in the 0/1 linear form l.
func boolOfLin(l *Lin) Bool { return bGe(addK(l, -1)) }

// linOfBool returns the 0/1 form of b if it has one.
func linOfBool(b Bool) (*Lin, bool) {
	switch b.op {
	case 'T':
		return lin1, true
	case 'F':
		return lin0, true
	case 'g':
		// s-1>=0 or -s>=0 with s in [0,1]
		if len(b.L.t) == 1 {
			i := symTab[b.L.t[0].s]
			if i.lo == 0 && i.hi == 1 {
				if b.L.t[0].c == 1 && b.L.k == -1 {
					return symL(b.L.t[0].s), true
				}
				if b.L.t[0].c == -1 && b.L.k == 0 {
					return comb(-1, symL(b.L.t[0].s), 1, lin1), true
				}
			}
		}
	}
	return nil, false
}

var strConsts = map[string]Sym{}

func constStr(s string) *StrV {
	id, ok := strConsts[s]
	if !ok {
		id = newSym(fmt.Sprintf("%.20q", s), 0, INF)
		strConsts[s] = id
	}
	c := s
	return &StrV{id: symL(id), ln: cst(int64(len(s))), c: &c}
}

func intRange(b *types.Basic) (int64, int64) {
	switch b.Kind() {
	case types.Int8:
		return -128, 127
	case types.Int16:
		return -32768, 32767
	case types.Int32, types.UntypedRune:
		return -(1 << 31), 1<<31 - 1
	case types.Uint8:
		return 0, 255
	case types.Uint16:
		return 0, 65535
	case types.Uint32:
		return 0, 1<<32 - 1
	case types.Uint, types.Uint64, types.Uintptr:
		return 0, INF
	}
	return -INF, INF
}

func intBits(b *types.Basic) int {
	switch b.Kind() {
	case types.Int8, types.Uint8:
		return 8
	case types.Int16, types.Uint16:
		return 16
	case types.Int32, types.Uint32, types.UntypedRune:
		return 32
	}
	return 64
}

func basicOf(t types.Type) *types.Basic {
	b, _ := t.Underlying().(*types.Basic)
	return b
}

func isIntType(t types.Type) bool {
	b := basicOf(t)
	return b != nil && b.Info()&types.IsInteger != 0
}

const maxLen = int64(1) << 48 // no slice, string or map is longer

type leaf struct {
	path string
	t    types.Type
}

var leafCache = map[types.Type][]leaf{}
var intT = types.Typ[types.Int]

// extStruct reports the ghost cells of a struct type defined outside the repository.
func extStruct(t types.Type) ([]leaf, bool) {
	n, ok := types.Unalias(t).(*types.Named)
	if !ok || n.Obj().Pkg() == nil || strings.HasPrefix(n.Obj().Pkg().Path(), modPath) {
		return nil, false
	}
	if _, ok := n.Underlying().(*types.Struct); !ok {
		return nil, false
	}
	switch n.Obj().Pkg().Path() + "." + n.Obj().Name() {
	case "bytes.Buffer", "strings.Builder":
		return []leaf{{"#len", intT}, {"#ser", intT}}, true
	case "bytes.Reader", "os.File", "strings.Reader":
		return []leaf{{"#pos", intT}, {"#size", intT}}, true
	case "bufio.Reader":
		return []leaf{{"#lpos", intT}, {"#src", nil}}, true
	}
	return nil, true
}

const maxAggArr = 64

func leaves(t types.Type) []leaf {
	if l, ok := leafCache[t]; ok {
		return l
	}
	var r []leaf
	if g, ok := extStruct(t); ok {
		r = g
		leafCache[t] = r
		return r
	}
	switch u := t.Underlying().(type) {
	case *types.Struct:
		for i := 0; i < u.NumFields(); i++ {
			f := u.Field(i)
			for _, l := range leaves(f.Type()) {
				r = append(r, leaf{"." + f.Name() + l.path, l.t})
			}
		}
	case *types.Array:
		n := u.Len()
		if n > maxAggArr {
			n = 0
		}
		for i := int64(0); i < n; i++ {
			for _, l := range leaves(u.Elem()) {
				r = append(r, leaf{fmt.Sprintf("[%d]%s", i, l.path), l.t})
			}
		}
	default:
		r = []leaf{{"", t}}
	}
	leafCache[t] = r
	return r
}

func isAgg(t types.Type) bool {
	switch t.Underlying().(type) {
	case *types.Struct, *types.Array:
		return true
	}
	return false
}

func zeroVal(t types.Type) Val {
	if t == nil {
		return &IfaceV{nl: lin1}
	}
	if isAgg(t) {
		return &Agg{t: t, cells: map[string]Val{}}
	}
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch {
		case u.Info()&types.IsInteger != 0:
			return Num{lin0}
		case u.Info()&types.IsBoolean != 0:
			return bFalse
		case u.Info()&types.IsString != 0:
			return constStr("")
		case u.Info()&types.IsFloat != 0:
			return Flt{}
		case u.Kind() == types.UntypedNil:
			return &IfaceV{nl: lin1}
		}
		return Unk{}
	case *types.Pointer:
		return &PtrV{nl: lin1}
	case *types.Slice:
		return &SliceV{off: lin0, ln: lin0, cp: lin0, nl: lin1}
	case *types.Map:
		return &MapV{nl: lin1}
	case *types.Interface:
		return &IfaceV{nl: lin1}
	case *types.Signature:
		return &FuncV{nl: lin1}
	case *types.Tuple:
		var r Tuple
		for i := 0; i < u.Len(); i++ {
			r = append(r, zeroVal(u.At(i).Type()))
		}
		return r
	}
	return Unk{}
}

// keyDomain bounds the number of distinct values of a map key type.
func keyDomain(t types.Type) int64 {
	if b := basicOf(t); b != nil && b.Info()&types.IsInteger != 0 {
		lo, hi := intRange(b)
		if hi < INF {
			return hi - lo + 1
		}
	}
	if b := basicOf(t); b != nil && b.Info()&types.IsBoolean != 0 {
		return 2
	}
	return maxLen
}

// freshVal is an arbitrary value of type t.
func freshVal(t types.Type, name, input string) Val {
	if t == nil {
		return &IfaceV{nl: symL(newSym(name+"?nil", 0, 1)), alts: []IT{{nil, Unk{}}}}
	}
	if isAgg(t) {
		a := &Agg{t: t, cells: map[string]Val{}}
		for _, l := range leaves(t) {
			a.cells[l.path] = freshVal(l.t, name+l.path, input)
		}
		return a
	}
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch {
		case u.Info()&types.IsInteger != 0:
			lo, hi := intRange(u)
			y := newSym(name, lo, hi)
			if input == fontInput {
				setOrg(y, "w:"+name)
			}
			return Num{symL(y)}
		case u.Info()&types.IsBoolean != 0:
			return opaqueBool(name)
		case u.Info()&types.IsString != 0:
			return &StrV{id: symL(newSym(name, 0, INF)), ln: symL(newSym("len("+name+")", 0, maxLen))}
		case u.Info()&types.IsFloat != 0:
			return Flt{}
		}
		return Unk{}
	case *types.Pointer:
		id := newObj(&Obj{kind: okCell, t: u.Elem(), sym: true, input: input, name: name, site: "sym:" + name})
		return &PtrV{alts: []PT{{id, ""}}, nl: symL(newSym(name+"?nil", 0, 1))}
	case *types.Slice:
		return freshSlice(u.Elem(), name, input)
	case *types.Map:
		id := newObj(&Obj{kind: okMap, t: u, sym: true, input: input, name: name, site: "sym:" + name,
			ln: symL(newSym("len("+name+")", 0, keyDomain(u.Key()))), shapes: []*Shape{typedMapShape(u, name, input)}})
		return &MapV{objs: []ObjID{id}, nl: symL(newSym(name+"?nil", 0, 1))}
	case *types.Interface:
		return &IfaceV{nl: symL(newSym(name+"?nil", 0, 1)), alts: []IT{{nil, Unk{}}}}
	case *types.Signature:
		return &FuncV{nl: symL(newSym(name+"?nil", 0, 1))}
	case *types.Tuple:
		var r Tuple
		for i := 0; i < u.Len(); i++ {
			r = append(r, freshVal(u.At(i).Type(), fmt.Sprintf("%s.%d", name, i), input))
		}
		return r
	}
	return Unk{}
}

func freshSlice(el types.Type, name, input string) *SliceV {
	id := newObj(&Obj{kind: okArr, t: el, sym: true, input: input, name: name, site: "sym:" + name,
		shapes: []*Shape{typedShape(el, name+"[]", input)}})
	ln := symL(newSym("len("+name+")", 0, maxLen))
	ex := symL(newSym("cap-len("+name+")", 0, maxLen))
	return &SliceV{backs: []ObjID{id}, off: lin0, ln: ln, cp: addL(ln, ex), nl: symL(newSym(name+"?nil", 0, 1))}
}

// symsOf collects all symbols of a value.
func symsOf(v Val, f func(Sym)) {
	eachLin(v, func(l *Lin) {
		for _, t := range l.t {
			f(t.s)
		}
	})
}

func eachLin(v Val, f func(*Lin)) {
	switch x := v.(type) {
	case Num:
		f(x.L)
	case Bool:
		if x.L != nil {
			f(x.L)
		}
		if x.a != nil {
			eachLin(*x.a, f)
			eachLin(*x.b, f)
		}
	case *StrV:
		f(x.id)
		f(x.ln)
	case *PtrV:
		f(x.nl)
	case *SliceV:
		f(x.off)
		f(x.ln)
		f(x.cp)
		f(x.nl)
	case *MapV:
		f(x.nl)
	case *IfaceV:
		f(x.nl)
		for _, a := range x.alts {
			eachLin(a.v, f)
		}
	case *FuncV:
		if x.nl != nil {
			f(x.nl)
		}
		for _, b := range x.binds {
			eachLin(b, f)
		}
		if x.recv != nil {
			eachLin(x.recv, f)
		}
	case *Agg:
		for _, c := range x.cells {
			eachLin(c, f)
		}
	case Tuple:
		for _, c := range x {
			eachLin(c, f)
		}
	}
}

// eachObj calls f on every object a value refers to.
func eachObj(v Val, f func(ObjID)) {
	switch x := v.(type) {
	case *PtrV:
		for _, a := range x.alts {
			f(a.obj)
		}
	case *SliceV:
		for _, b := range x.backs {
			f(b)
		}
	case *MapV:
		for _, b := range x.objs {
			f(b)
		}
	case *IfaceV:
		for _, a := range x.alts {
			eachObj(a.v, f)
		}
	case *FuncV:
		for _, b := range x.binds {
			eachObj(b, f)
		}
		if x.recv != nil {
			eachObj(x.recv, f)
		}
	case *Agg:
		for _, c := range x.cells {
			eachObj(c, f)
		}
	case Tuple:
		for _, c := range x {
			eachObj(c, f)
		}
	}
}

// mapVal rebuilds a value with linear forms and object ids translated.
func mapVal(v Val, fl func(*Lin) *Lin, fo func(ObjID) ObjID) Val {
	switch x := v.(type) {
	case Num:
		l := fl(x.L)
		if l == x.L {
			return x
		}
		return Num{l}
	case Bool:
		if x.a != nil {
			a := mapVal(*x.a, fl, fo).(Bool)
			b := mapVal(*x.b, fl, fo).(Bool)
			return Bool{op: x.op, a: &a, b: &b}
		}
		if x.L != nil {
			l := fl(x.L)
			if l == x.L {
				return x
			}
			switch x.op {
			case 'g':
				return bGe(l)
			case 'e':
				return bEq(l)
			case 'n':
				return bNot(bEq(l))
			}
		}
		return x
	case *StrV:
		a, b := fl(x.id), fl(x.ln)
		if a == x.id && b == x.ln {
			return x
		}
		return &StrV{id: a, ln: b, c: x.c}
	case *PtrV:
		n := fl(x.nl)
		same := n == x.nl
		alts := make([]PT, 0, len(x.alts))
		for _, a := range x.alts {
			o := fo(a.obj)
			if o != a.obj {
				same = false
			}
			alts = addPT(alts, PT{o, a.path})
		}
		if same {
			return x
		}
		return &PtrV{alts: alts, nl: n}
	case *SliceV:
		r := &SliceV{off: fl(x.off), ln: fl(x.ln), cp: fl(x.cp), nl: fl(x.nl)}
		same := r.off == x.off && r.ln == x.ln && r.cp == x.cp && r.nl == x.nl
		for _, b := range x.backs {
			o := fo(b)
			if o != b {
				same = false
			}
			r.backs = addID(r.backs, o)
		}
		if same {
			return x
		}
		return r
	case *MapV:
		r := &MapV{nl: fl(x.nl)}
		same := r.nl == x.nl
		for _, b := range x.objs {
			o := fo(b)
			if o != b {
				same = false
			}
			r.objs = addID(r.objs, o)
		}
		if same {
			return x
		}
		return r
	case *IfaceV:
		r := &IfaceV{nl: fl(x.nl)}
		same := r.nl == x.nl
		for _, a := range x.alts {
			w := mapVal(a.v, fl, fo)
			if !sameVal(w, a.v) {
				same = false
			}
			r.alts = append(r.alts, IT{a.t, w})
		}
		if same {
			return x
		}
		return r
	case *FuncV:
		r := &FuncV{fn: x.fn, bi: x.bi, nl: x.nl}
		same := true
		if x.nl != nil {
			r.nl = fl(x.nl)
			same = r.nl == x.nl
		}
		for _, b := range x.binds {
			w := mapVal(b, fl, fo)
			if !sameVal(w, b) {
				same = false
			}
			r.binds = append(r.binds, w)
		}
		if x.recv != nil {
			r.recv = mapVal(x.recv, fl, fo)
			if !sameVal(r.recv, x.recv) {
				same = false
			}
		}
		if same {
			return x
		}
		return r
	case *Agg:
		same := true
		r := &Agg{t: x.t, cells: map[string]Val{}}
		for p, c := range x.cells {
			w := mapVal(c, fl, fo)
			if !sameVal(w, c) {
				same = false
			}
			r.cells[p] = w
		}
		if same {
			return x
		}
		return r
	case Tuple:
		r := make(Tuple, len(x))
		for i, c := range x {
			r[i] = mapVal(c, fl, fo)
		}
		return r
	}
	return v
}

func addPT(a []PT, p PT) []PT {
	for _, x := range a {
		if x == p {
			return a
		}
	}
	return append(a[:len(a):len(a)], p)
}

func addID(a []ObjID, p ObjID) []ObjID {
	for _, x := range a {
		if x == p {
			return a
		}
	}
	return append(a[:len(a):len(a)], p)
}

func sameIDs(a, b []ObjID) bool {
	if len(a) != len(b) {
		return false
	}
	for _, x := range a {
		f := false
		for _, y := range b {
			if x == y {
				f = true
			}
		}
		if !f {
			return false
		}
	}
	return true
}

// sameVal is syntactic equality of abstract values.
func sameVal(a, b Val) bool {
	switch x := a.(type) {
	case nil:
		return b == nil
	case Num:
		y, ok := b.(Num)
		return ok && eqL(x.L, y.L)
	case Bool:
		y, ok := b.(Bool)
		if !ok || x.op != y.op {
			return false
		}
		if x.a != nil {
			return sameVal(*x.a, *y.a) && sameVal(*x.b, *y.b)
		}
		return x.L == y.L || (x.L != nil && y.L != nil && eqL(x.L, y.L))
	case Flt:
		_, ok := b.(Flt)
		return ok
	case Unk:
		_, ok := b.(Unk)
		return ok
	case *StrV:
		y, ok := b.(*StrV)
		return ok && (x == y || (eqL(x.id, y.id) && eqL(x.ln, y.ln)))
	case *PtrV:
		y, ok := b.(*PtrV)
		if !ok {
			return false
		}
		if x == y {
			return true
		}
		if !eqL(x.nl, y.nl) || len(x.alts) != len(y.alts) {
			return false
		}
		for _, p := range x.alts {
			f := false
			for _, q := range y.alts {
				if p == q {
					f = true
				}
			}
			if !f {
				return false
			}
		}
		return true
	case *SliceV:
		y, ok := b.(*SliceV)
		return ok && (x == y || (eqL(x.nl, y.nl) && eqL(x.off, y.off) && eqL(x.ln, y.ln) && eqL(x.cp, y.cp) && sameIDs(x.backs, y.backs)))
	case *MapV:
		y, ok := b.(*MapV)
		return ok && (x == y || (eqL(x.nl, y.nl) && sameIDs(x.objs, y.objs)))
	case *IfaceV:
		y, ok := b.(*IfaceV)
		if !ok {
			return false
		}
		if x == y {
			return true
		}
		if !eqL(x.nl, y.nl) || len(x.alts) != len(y.alts) {
			return false
		}
		for i := range x.alts {
			if !sameType(x.alts[i].t, y.alts[i].t) || !sameVal(x.alts[i].v, y.alts[i].v) {
				return false
			}
		}
		return true
	case *FuncV:
		y, ok := b.(*FuncV)
		if !ok {
			return false
		}
		if x == y {
			return true
		}
		if x.fn != y.fn || x.bi != y.bi || len(x.binds) != len(y.binds) {
			return false
		}
		if (x.nl == nil) != (y.nl == nil) || (x.nl != nil && !eqL(x.nl, y.nl)) {
			return false
		}
		for i := range x.binds {
			if !sameVal(x.binds[i], y.binds[i]) {
				return false
			}
		}
		return true
	case *Agg:
		y, ok := b.(*Agg)
		if !ok {
			return false
		}
		if x == y {
			return true
		}
		for _, l := range leaves(x.t) {
			if !sameVal(x.get(l.path, l.t), y.get(l.path, l.t)) {
				return false
			}
		}
		return true
	case Tuple:
		y, ok := b.(Tuple)
		if !ok || len(x) != len(y) {
			return false
		}
		for i := range x {
			if !sameVal(x[i], y[i]) {
				return false
			}
		}
		return true
	}
	return false
}

func sameType(a, b types.Type) bool {
	if a == nil || b == nil {
		return a == nil && b == nil
	}
	return types.Identical(a, b)
}

func (a *Agg) get(path string, t types.Type) Val {
	if v, ok := a.cells[path]; ok {
		return v
	}
	return zeroVal(t)
}

// sub extracts the part of an aggregate at prefix.
func (a *Agg) sub(prefix string, t types.Type) Val {
	if !isAgg(t) {
		return a.get(prefix, t)
	}
	r := &Agg{t: t, cells: map[string]Val{}}
	for p, v := range a.cells {
		if strings.HasPrefix(p, prefix) {
			r.cells[p[len(prefix):]] = v
		}
	}
	return r
}

func sortedKeys[V any](m map[string]V) []string {
	r := make([]string, 0, len(m))
	for k := range m {
		r = append(r, k)
	}
	sort.Strings(r)
	return r
}

// constVal converts an SSA constant.
func constVal(c *ssa.Const) Val {
	t := c.Type()
	if c.Value == nil {
		return zeroVal(t)
	}
	b := basicOf(t)
	if b == nil {
		return Unk{}
	}
	switch {
	case b.Info()&types.IsBoolean != 0:
		return mkBool(constant.BoolVal(c.Value))
	case b.Info()&types.IsInteger != 0:
		v := constant.ToInt(c.Value)
		if i, ok := constant.Int64Val(v); ok && !big(i) {
			return Num{cst(i)}
		}
		// A constant beyond the tracked range.
		if constant.Sign(v) > 0 {
			return Num{symL(newSym("bigconst", INF, INF))}
		}
		return Num{symL(newSym("bigconst", -INF, -INF))}
	case b.Info()&types.IsString != 0:
		return constStr(constant.StringVal(c.Value))
	case b.Info()&types.IsFloat != 0:
		return Flt{}
	}
	return Unk{}
}

func showVal(v Val) string {
	switch x := v.(type) {
	case Num:
		return x.L.String()
	case Bool:
		switch x.op {
		case 'T':
			return "true"
		case 'F':
			return "false"
		case 'g':
			return x.L.String() + " >= 0"
		case 'e':
			return x.L.String() + " == 0"
		case 'n':
			return x.L.String() + " != 0"
		}
		return "(" + showVal(*x.a) + string(x.op) + showVal(*x.b) + ")"
	case *StrV:
		if x.c != nil {
			return fmt.Sprintf("%.20q", *x.c)
		}
		return "str(" + x.id.String() + ")"
	case *PtrV:
		var p []string
		for _, a := range x.alts {
			p = append(p, fmt.Sprintf("&%d%s", a.obj, a.path))
		}
		return strings.Join(p, "|") + "?" + x.nl.String()
	case *SliceV:
		return fmt.Sprintf("slice%v[len %s cap %s nil %s]", x.backs, x.ln, x.cp, x.nl)
	case *MapV:
		return fmt.Sprintf("map%v?%s", x.objs, x.nl)
	case *IfaceV:
		var p []string
		for _, a := range x.alts {
			p = append(p, fmt.Sprintf("%v:%s", a.t, showVal(a.v)))
		}
		return "iface(" + strings.Join(p, "|") + ")?" + x.nl.String()
	case *Agg:
		var p []string
		for _, k := range sortedKeys(x.cells) {
			p = append(p, k+"="+showVal(x.cells[k]))
		}
		return "{" + strings.Join(p, " ") + "}"
	case Tuple:
		var p []string
		for _, a := range x {
			p = append(p, showVal(a))
		}
		return "(" + strings.Join(p, ", ") + ")"
	case nil:
		return "<none>"
	}
	return fmt.Sprintf("%T", v)
}

func sortedIDs(m map[ObjID]*Obj) []ObjID {
	r := make([]ObjID, 0, len(m))
	for k := range m {
		r = append(r, k)
	}
	sort.Slice(r, func(i, j int) bool { return r[i] < r[j] })
	return r
}
