package main

import (
	"crypto/sha256"
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	mbig "math/big"
	"sort"
	"strings"
	"unicode/utf16"
	"unicode/utf8"

	"golang.org/x/tools/go/ssa"
)

// Partial evaluation: constants are propagated through the SSA form of a function, unknown bytes are carried as
// atoms in affine forms modulo 2^64, calls out of the module become uninterpreted terms. Control flow must not
// depend on anything unknown; what cannot be evaluated is a failure, never a guess.

type pv interface{}

// pnum is an affine form over byte atoms, modulo 2^w of the type it is used with.
type pnum struct {
	k uint64
	t map[int]uint64 // atom -> coefficient
	// opaque numbers are named terms
	term string
}

type (
	pflt   float64
	pcell  struct{ v pv }
	pstru  struct{ f []*pcell }
	parr   struct{ e []*pcell }
	pslice struct {
		a             *parr
		off, ln, capa int
	}
	pbuf struct { // a buffer: what it holds is the first n cells, the others are what it will overwrite
		c     []*pcell
		n     int
		under *pbuf // where it is written to when it is flushed
	}
	pptr   struct{ c *pcell } // nil pointer: c == nil
	piface struct {
		t types.Type
		v pv
	}
	pfunc struct {
		fn    *ssa.Function
		binds []pv
		bi    string
	}
	pmap struct {
		abs  string // what the map holds is unknown: its name
		keys []pv
		m    map[string]*pcell
	}
	ptuple []pv
	pterm  struct {
		op   string
		args []pv
	}
	piter struct {
		m *pmap
		s string
		r []pv
		i int
	}
	pelem struct { // a part of an unknown value
		t *pterm
		i string
	}
)

type peFail struct{ msg string }

// PE evaluates functions of the module.
type PE struct {
	P      *Prog
	assume *bool                          // whether unknown keys are in maps
	choose func(cond string) (bool, bool) // decides conditions on unknown data
	// nominal gives unknown bytes a value by which conditions are decided; everything else keeps the unknown
	nominal map[int]byte
	nomTerm map[string]uint64
	opaque  bool                        // unknown keys of maps are equal when they are the same form
	onCond  func(t *pterm) (bool, bool) // decides conditions first
	file    []pv                        // what files hold that are opened
	fs      *peFS                       // files by name
	ext     func(name string, args []pv) (pv, bool)
	flags   map[string][]peFlag
	stdout  *pbuf // what is printed, if it matters
	order   int   // maps are iterated 0: as they were filled, 1: backwards, 2: from the middle, 3: from the middle backwards
	ranged  map[*ssa.Range]int
	limit   int
	steps   int
	depth   int
	// bytes of numbers
	derivedBy map[string]int
	derived   map[int]pderived
	global    map[*ssa.Global]*pcell
	state     map[*ssa.Package]int
}

func newPE(P *Prog) *PE {
	return &PE{P: P, global: map[*ssa.Global]*pcell{}, state: map[*ssa.Package]int{}}
}

func (e *PE) fail(f string, a ...any) { panic(peFail{fmt.Sprintf(f, a...)}) }

// run calls f and turns failures into an error text.
func (e *PE) run(f func()) (msg string) {
	defer func() {
		if x := recover(); x != nil {
			if p, ok := x.(peFail); ok {
				msg = p.msg
				return
			}
			panic(x)
		}
	}()
	f()
	return ""
}

// tryCall evaluates a call.
func (e *PE) tryCall(fn *ssa.Function, args ...pv) (r pv, msg string) {
	e.steps, e.depth = 0, 0
	msg = e.run(func() { r = e.call(fn, args, nil) })
	return
}

func knum(v int64) pnum   { return pnum{k: uint64(v)} }
func patom(id int) pnum   { return pnum{t: map[int]uint64{id: 1}} }
func pknum(c uint64) pnum { return pnum{k: c} }

func (n pnum) isConst() bool { return len(n.t) == 0 && n.term == "" }

func (n pnum) String() string {
	if n.term != "" {
		return n.term
	}
	var ids []int
	for i := range n.t {
		ids = append(ids, i)
	}
	sort.Ints(ids)
	var s []string
	for _, i := range ids {
		if n.t[i] == 1 {
			s = append(s, fmt.Sprintf("b%d", i))
		} else {
			s = append(s, fmt.Sprintf("%d*b%d", n.t[i], i))
		}
	}
	if n.k != 0 || len(s) == 0 {
		s = append(s, fmt.Sprint(int64(n.k)))
	}
	return strings.Join(s, "+")
}

func basicInfo(t types.Type) (bits uint, signed, isInt bool) {
	b, ok := t.Underlying().(*types.Basic)
	if !ok {
		return 0, false, false
	}
	switch b.Kind() {
	case types.Int, types.Int64, types.UntypedInt:
		return 64, true, true
	case types.Int8:
		return 8, true, true
	case types.Int16:
		return 16, true, true
	case types.Int32, types.UntypedRune:
		return 32, true, true
	case types.Uint, types.Uint64, types.Uintptr:
		return 64, false, true
	case types.Uint8:
		return 8, false, true
	case types.Uint16:
		return 16, false, true
	case types.Uint32:
		return 32, false, true
	}
	return 0, false, false
}

// wrapTo reduces a number to a type.
func (e *PE) wrapTo(n pnum, t types.Type) pnum {
	bits, signed, ok := basicInfo(t)
	if !ok {
		e.fail("number of type %s", t)
	}
	if n.term != "" {
		return n
	}
	if n.isConst() {
		k := n.k
		if bits < 64 {
			k &= 1<<bits - 1
			if signed && k>>(bits-1) == 1 {
				k |= ^uint64(0) << bits
			}
		}
		return pnum{k: k}
	}
	if bits == 64 {
		return n
	}
	m := uint64(1)<<bits - 1
	r := pnum{k: n.k & m, t: map[int]uint64{}}
	for i, c := range n.t {
		if c &= m; c != 0 {
			r.t[i] = c
		}
	}
	if r.k == 0 && len(r.t) == 0 {
		return pnum{}
	}
	return r
}

// maxOf is the largest value of a form read as a sum of non-negative terms; ok when it does not exceed 64 bits.
func (n pnum) maxOf() (uint64, bool) {
	s := new(mbig.Int).SetUint64(n.k)
	for _, c := range n.t {
		s.Add(s, new(mbig.Int).Mul(new(mbig.Int).SetUint64(c), mbig.NewInt(255)))
	}
	if !s.IsUint64() {
		return 0, false
	}
	return s.Uint64(), true
}

// bitsOf is the set of bits a form can have, when its terms do not overlap.
func (n pnum) bitsOf() (m uint64, ok bool) {
	m = n.k
	for _, c := range n.t {
		if c&(c-1) != 0 {
			return 0, false
		}
		s := 0
		for c>>uint(s) != 1 {
			s++
		}
		if s > 56 {
			return 0, false
		}
		b := uint64(255) << uint(s)
		if m&b != 0 {
			return 0, false
		}
		m |= b
	}
	return m, true
}

func (e *PE) add(a, b pnum, neg bool) pnum {
	if a.term != "" || b.term != "" {
		op := "+"
		if neg {
			op = "-"
		}
		return pnum{term: "(" + a.String() + op + b.String() + ")"}
	}
	r := pnum{k: a.k + b.k, t: map[int]uint64{}}
	if neg {
		r.k = a.k - b.k
	}
	for i, c := range a.t {
		r.t[i] = c
	}
	for i, c := range b.t {
		if neg {
			c = -c
		}
		if r.t[i] += c; r.t[i] == 0 {
			delete(r.t, i)
		}
	}
	return r
}

func (e *PE) mulK(a pnum, k uint64) pnum {
	r := pnum{k: a.k * k, t: map[int]uint64{}}
	for i, c := range a.t {
		if c*k != 0 {
			r.t[i] = c * k
		}
	}
	return r
}

func (e *PE) binop(op token.Token, x, y pv, t types.Type, xt types.Type) pv {
	if a, ok := x.(pnum); ok {
		b, ok := y.(pnum)
		if !ok {
			e.fail("operands of %s", op)
		}
		return e.numop(op, a, b, t, xt)
	}
	switch op {
	case token.EQL, token.NEQ:
		r, ok := e.equal(x, y)
		if !ok {
			e.fail("comparison of unknown values %s and %s", pstr(x), pstr(y))
		}
		return r == (op == token.EQL)
	}
	if op == token.ADD && (isTerm(x) || isTerm(y)) {
		return &pterm{op: "runes", args: append(append([]pv(nil), strRunes(x)...), strRunes(y)...)}
	}
	if a, ok := x.(string); ok {
		b, ok := y.(string)
		if !ok {
			e.fail("unknown string")
		}
		switch op {
		case token.ADD:
			return a + b
		case token.LSS:
			return a < b
		case token.LEQ:
			return a <= b
		case token.GTR:
			return a > b
		case token.GEQ:
			return a >= b
		}
	}
	if a, ok := x.(bool); ok {
		if b, ok := y.(bool); ok {
			switch op {
			case token.AND, token.LAND:
				return a && b
			case token.OR, token.LOR:
				return a || b
			}
		}
	}
	e.fail("operation %s on %s and %s", op, pstr(x), pstr(y))
	return nil
}

func (e *PE) numop(op token.Token, a, b pnum, t, xt types.Type) pv {
	switch op {
	case token.EQL, token.NEQ, token.LSS, token.LEQ, token.GTR, token.GEQ:
		if a.isConst() && b.isConst() {
			_, signed, _ := basicInfo(xt)
			c := 0
			if signed {
				switch {
				case int64(a.k) < int64(b.k):
					c = -1
				case int64(a.k) > int64(b.k):
					c = 1
				}
			} else {
				switch {
				case a.k < b.k:
					c = -1
				case a.k > b.k:
					c = 1
				}
			}
			switch op {
			case token.EQL:
				return c == 0
			case token.NEQ:
				return c != 0
			case token.LSS:
				return c < 0
			case token.LEQ:
				return c <= 0
			case token.GTR:
				return c > 0
			case token.GEQ:
				return c >= 0
			}
		}
		// ranges of non-negative forms
		am, ok1 := a.maxOf()
		bm, ok2 := b.maxOf()
		if ok1 && ok2 && a.term == "" && b.term == "" {
			switch {
			case am < b.k:
				return op == token.LSS || op == token.LEQ || op == token.NEQ
			case a.k > bm:
				return op == token.GTR || op == token.GEQ || op == token.NEQ
			case am <= b.k && op == token.LEQ, a.k >= bm && op == token.GEQ:
				return true
			case am <= b.k && op == token.GTR, a.k >= bm && op == token.LSS:
				return false
			}
		}
		if e.unsure() {
			e.noSign(a, xt)
			e.noSign(b, xt)
			return &pterm{op: "cmp" + op.String(), args: []pv{a, b}}
		}
		e.fail("control depends on data: %s %s %s", a, op, b)
	case token.ADD:
		return e.wrapTo(e.add(a, b, false), t)
	case token.SUB:
		return e.wrapTo(e.add(a, b, true), t)
	}
	if a.term != "" || b.term != "" {
		return pnum{term: "(" + a.String() + op.String() + b.String() + ")"}
	}
	if a.isConst() && b.isConst() {
		bits, signed, _ := basicInfo(t)
		var r uint64
		switch op {
		case token.MUL:
			r = a.k * b.k
		case token.QUO, token.REM:
			if b.k == 0 {
				e.fail("division by zero")
			}
			if signed {
				r = uint64(int64(a.k) / int64(b.k))
				if op == token.REM {
					r = uint64(int64(a.k) % int64(b.k))
				}
			} else {
				r = a.k / b.k
				if op == token.REM {
					r = a.k % b.k
				}
			}
		case token.AND:
			r = a.k & b.k
		case token.OR:
			r = a.k | b.k
		case token.XOR:
			r = a.k ^ b.k
		case token.AND_NOT:
			r = a.k &^ b.k
		case token.SHL:
			if b.k < 64 {
				r = a.k << b.k
			}
		case token.SHR:
			if signed {
				s := b.k
				if s > 63 {
					s = 63
				}
				r = uint64(int64(a.k) >> s)
			} else if b.k < 64 {
				r = a.k >> b.k
			}
		default:
			e.fail("operation %s", op)
		}
		_ = bits
		return e.wrapTo(pnum{k: r}, t)
	}
	switch op {
	case token.MUL:
		if b.isConst() {
			return e.wrapTo(e.mulK(a, b.k), t)
		}
		if a.isConst() {
			return e.wrapTo(e.mulK(b, a.k), t)
		}
	case token.SHL:
		if b.isConst() && b.k < 64 {
			return e.wrapTo(e.mulK(a, 1<<b.k), t)
		}
		if b.isConst() {
			return pnum{}
		}
	case token.OR, token.XOR:
		ma, ok1 := a.bitsOf()
		mb, ok2 := b.bitsOf()
		if ok1 && ok2 && ma&mb == 0 {
			return e.wrapTo(e.add(a, b, false), t)
		}
	case token.AND:
		if a.isConst() {
			a, b = b, a
		}
		if bits, _, ok := basicInfo(t); ok && b.isConst() && bits < 64 && b.k&(1<<bits-1) == 1<<bits-1 {
			return e.wrapTo(a, t)
		}
		if b.isConst() {
			return e.mask(a, b.k)
		}
	case token.SHR, token.QUO:
		if b.isConst() {
			s := b.k
			if op == token.QUO {
				if b.k&(b.k-1) != 0 || b.k == 0 {
					break
				}
				for s = 0; b.k>>s != 1; s++ {
				}
			}
			if s >= 64 {
				return pnum{}
			}
			// exact for disjoint bits
			m := e.mask(a, ^uint64(0)<<s)
			r := pnum{k: m.k >> s, t: map[int]uint64{}}
			for i, c := range m.t {
				r.t[i] = c >> s
			}
			return r
		}
	case token.REM:
		if b.isConst() && b.k != 0 && b.k&(b.k-1) == 0 {
			return e.mask(a, b.k-1)
		}
	}
	e.fail("operation %s %s %s", a, op, b)
	return nil
}

// noSign fails when an unknown number of a narrow signed type is negative for the nominal bytes.
func (e *PE) noSign(n pnum, t types.Type) {
	bits, signed, ok := basicInfo(t)
	if !ok || !signed || bits == 64 || n.isConst() || e.nominal == nil {
		return
	}
	if k, ok := e.nominalOf(n); ok && k>>(bits-1)&1 == 1 {
		e.fail("sign of %s", n)
	}
}

// mask keeps the bits m of a; whole terms only.
func (e *PE) mask(a pnum, m uint64) pnum {
	if _, ok := a.bitsOf(); !ok {
		// modular: the low bits of a sum depend on the low bits of its terms only
		if m&(m+1) != 0 {
			e.fail("bits of %s", a)
		}
		r := pnum{k: a.k & m, t: map[int]uint64{}}
		for i, c := range a.t {
			if c &= m; c != 0 {
				r.t[i] = c
			}
		}
		if mx, ok := r.maxOf(); !ok || mx > m {
			e.fail("bits of %s", a)
		}
		return r
	}
	r := pnum{k: a.k & m, t: map[int]uint64{}}
	for i, c := range a.t {
		b := 255 * c
		switch {
		case b&m == b:
			r.t[i] = c
		case b&m == 0:
		default:
			e.fail("part of a byte in %s & %#x", a, m)
		}
	}
	return r
}

// equal compares; ok is false when the answer is unknown.
func (e *PE) equal(x, y pv) (eq, ok bool) {
	switch a := x.(type) {
	case bool:
		b, ok := y.(bool)
		return ok && a == b, ok
	case string:
		b, ok := y.(string)
		return ok && a == b, ok
	case pptr:
		b, ok := y.(pptr)
		if !ok {
			return false, y == nil || isTerm(y)
		}
		return a.c == b.c, true
	case pslice:
		if b, ok := y.(pslice); ok && (a.a == nil || b.a == nil) {
			return a.a == nil && b.a == nil, true
		}
	case piface:
		if b, ok := y.(piface); ok {
			if a.t == nil || b.t == nil {
				return a.t == nil && b.t == nil, true
			}
			if !types.Identical(a.t, b.t) {
				return false, true
			}
			if p, ok := a.v.(*pterm); ok {
				q, ok := b.v.(*pterm)
				return ok && p == q, ok && p == q
			}
			return e.equal(a.v, b.v)
		}
	case pfunc:
		if b, ok := y.(pfunc); ok && (a.fn == nil || b.fn == nil) {
			return a.fn == nil && b.fn == nil, true
		}
	case *pmap:
		if b, ok := y.(*pmap); ok && (a == nil || b == nil) {
			return a == nil && b == nil, true
		}
	case *pterm:
		// results of constructors are not nil
		switch b := y.(type) {
		case pptr:
			if b.c == nil {
				return false, true
			}
		case piface:
			if b.t == nil {
				return false, a.op != "err"
			}
		}
	case pnum:
		if b, ok := y.(pnum); ok && a.isConst() && b.isConst() {
			return a.k == b.k, true
		}
	}
	if _, ok := y.(*pterm); ok {
		if _, ok := x.(*pterm); !ok {
			return e.equal(y, x)
		}
	}
	return false, false
}

func isTerm(x pv) bool { _, ok := x.(*pterm); return ok }

// pstr prints a value canonically.
func pstr(x pv) string {
	switch v := x.(type) {
	case nil:
		return "-"
	case pnum:
		return v.String()
	case string:
		return fmt.Sprintf("%q", v)
	case *pterm:
		var s []string
		for _, a := range v.args {
			s = append(s, pstr(a))
		}
		return v.op + "(" + strings.Join(s, ",") + ")"
	case pslice:
		var s []string
		for i := 0; i < v.ln; i++ {
			s = append(s, pstr(v.a.e[v.off+i].v))
		}
		return "[" + strings.Join(s, " ") + "]"
	case *parr:
		var s []string
		for _, c := range v.e {
			s = append(s, pstr(c.v))
		}
		return "[" + strings.Join(s, " ") + "]"
	case *pstru:
		var s []string
		for _, c := range v.f {
			s = append(s, pstr(c.v))
		}
		return "{" + strings.Join(s, " ") + "}"
	case *pbuf:
		var s []string
		for _, c := range v.all() {
			s = append(s, pstr(c))
		}
		return "buf[" + strings.Join(s, " ") + "]"
	case piface:
		if v.t == nil {
			return "nil"
		}
		return pstr(v.v)
	case pptr:
		if v.c == nil {
			return "nil"
		}
		return "&" + pstr(v.c.v)
	case ptuple:
		var s []string
		for _, c := range v {
			s = append(s, pstr(c))
		}
		return "(" + strings.Join(s, ", ") + ")"
	}
	return fmt.Sprint(x)
}

func isBufType(t types.Type) bool {
	s := t.String()
	return s == "bytes.Buffer" || s == "strings.Builder"
}

func (e *PE) zero(t types.Type) pv {
	if isBufType(t) {
		return &pbuf{}
	}
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch {
		case u.Info()&types.IsInteger != 0:
			return pnum{}
		case u.Info()&types.IsBoolean != 0:
			return false
		case u.Info()&types.IsString != 0:
			return ""
		case u.Info()&types.IsFloat != 0:
			return pflt(0)
		case u.Kind() == types.UnsafePointer:
			return pptr{}
		}
	case *types.Pointer:
		return pptr{}
	case *types.Slice:
		return pslice{}
	case *types.Map:
		return (*pmap)(nil)
	case *types.Interface:
		return piface{}
	case *types.Signature:
		return pfunc{}
	case *types.Struct:
		s := &pstru{}
		for i := 0; i < u.NumFields(); i++ {
			s.f = append(s.f, &pcell{e.zero(u.Field(i).Type())})
		}
		return s
	case *types.Array:
		a := &parr{}
		for i := int64(0); i < u.Len(); i++ {
			a.e = append(a.e, &pcell{e.zero(u.Elem())})
		}
		return a
	}
	e.fail("zero value of %s", t)
	return nil
}

// copyVal copies structs, arrays and buffers.
func copyVal(v pv) pv {
	switch x := v.(type) {
	case *pstru:
		s := &pstru{}
		for _, f := range x.f {
			s.f = append(s.f, &pcell{copyVal(f.v)})
		}
		return s
	case *parr:
		s := &parr{}
		for _, f := range x.e {
			s.e = append(s.e, &pcell{copyVal(f.v)})
		}
		return s
	case *pbuf:
		return &pbuf{c: append([]*pcell(nil), x.c...), n: x.n, under: x.under}
	}
	return v
}

// store assigns into a cell, keeping the identity of parts.
func store(c *pcell, v pv) {
	switch x := v.(type) {
	case *pstru:
		if d, ok := c.v.(*pstru); ok && len(d.f) == len(x.f) {
			var tmp []pv
			for _, f := range x.f {
				tmp = append(tmp, copyVal(f.v))
			}
			for i := range d.f {
				store(d.f[i], tmp[i])
			}
			return
		}
	case *parr:
		if d, ok := c.v.(*parr); ok && len(d.e) == len(x.e) {
			var tmp []pv
			for _, f := range x.e {
				tmp = append(tmp, copyVal(f.v))
			}
			for i := range d.e {
				store(d.e[i], tmp[i])
			}
			return
		}
	}
	c.v = copyVal(v)
}

func (e *PE) globalCell(g *ssa.Global) *pcell {
	if c := e.global[g]; c != nil {
		return c
	}
	c := &pcell{}
	e.global[g] = c
	el := g.Type().(*types.Pointer).Elem()
	if g.Pkg == nil || !strings.HasPrefix(g.Pkg.Pkg.Path(), modPath) {
		name := g.Name()
		if g.Pkg != nil {
			name = g.Pkg.Pkg.Name() + "." + name
		}
		c.v = &pterm{op: name}
		return c
	}
	c.v = e.zero(el)
	return c
}

// initPkg evaluates the initialisation of a package of the module once.
func (e *PE) initPkg(p *ssa.Package) {
	if e.state[p] != 0 {
		return
	}
	e.state[p] = 1
	if f := p.Func("init"); f != nil && strings.HasPrefix(p.Pkg.Path(), modPath) {
		e.call(f, nil, nil)
	}
}

func (e *PE) constVal(c *ssa.Const) pv {
	t := c.Type()
	if c.Value == nil {
		return e.zero(t)
	}
	switch c.Value.Kind() {
	case constant.Bool:
		return constant.BoolVal(c.Value)
	case constant.String:
		return constant.StringVal(c.Value)
	case constant.Int:
		if b, ok := t.Underlying().(*types.Basic); ok && b.Info()&types.IsFloat != 0 {
			f, _ := constant.Float64Val(c.Value)
			return pflt(f)
		}
		if v, ok := constant.Int64Val(c.Value); ok {
			return pknum(uint64(v))
		}
		if v, ok := constant.Uint64Val(c.Value); ok {
			return pknum(v)
		}
	case constant.Float:
		f, _ := constant.Float64Val(c.Value)
		if b, ok := t.Underlying().(*types.Basic); ok && b.Info()&types.IsInteger != 0 {
			return pknum(uint64(int64(f)))
		}
		return pflt(f)
	}
	e.fail("constant %s", c)
	return nil
}

func (e *PE) call(fn *ssa.Function, args []pv, binds []pv) pv {
	if len(fn.Blocks) == 0 || !e.P.inModule(fn) {
		return e.extern(fn, nil, args)
	}
	if e.depth++; e.depth > 60 {
		e.fail("recursion too deep")
	}
	defer func() { e.depth-- }()
	env := map[ssa.Value]pv{}
	for i, p := range fn.Params {
		env[p] = copyVal(args[i])
	}
	for i, p := range fn.FreeVars {
		env[p] = binds[i]
	}
	var defers []func()
	val := func(v ssa.Value) pv {
		switch x := v.(type) {
		case *ssa.Const:
			return e.constVal(x)
		case *ssa.Global:
			return pptr{e.globalCell(x)}
		case *ssa.Function:
			return pfunc{fn: x}
		case *ssa.Builtin:
			return pfunc{bi: x.Name()}
		}
		r, ok := env[v]
		if !ok {
			e.fail("no value for %s", v)
		}
		return r
	}
	var prev *ssa.BasicBlock
	b := fn.Blocks[0]
	for {
		// phis first, at once
		var pvs []pv
		for _, in := range b.Instrs {
			p, ok := in.(*ssa.Phi)
			if !ok {
				break
			}
			for i, q := range b.Preds {
				if q == prev {
					pvs = append(pvs, val(p.Edges[i]))
					break
				}
			}
		}
		for i, v := range pvs {
			env[b.Instrs[i].(*ssa.Phi)] = v
		}
		var next *ssa.BasicBlock
		for _, in := range b.Instrs {
			if e.steps++; e.steps > max(400000, e.limit) {
				e.fail("too many steps")
			}
			switch x := in.(type) {
			case *ssa.Phi, *ssa.DebugRef:
			case *ssa.If:
				c, ok := val(x.Cond).(bool)
				if !ok && e.unsure() {
					c, ok = e.decide(val(x.Cond))
				}
				if !ok {
					e.fail("control depends on data: %s", pstr(val(x.Cond)))
				}
				if c {
					next = b.Succs[0]
				} else {
					next = b.Succs[1]
				}
			case *ssa.Jump:
				next = b.Succs[0]
			case *ssa.Return:
				if len(x.Results) == 1 {
					return copyVal(val(x.Results[0]))
				}
				var t ptuple
				for _, r := range x.Results {
					t = append(t, copyVal(val(r)))
				}
				return t
			case *ssa.Panic:
				e.fail("panic")
			case *ssa.Store:
				p, ok := val(x.Addr).(pptr)
				if !ok || p.c == nil {
					e.fail("store through %s", pstr(val(x.Addr)))
				}
				store(p.c, val(x.Val))
			case *ssa.MapUpdate:
				m, ok := val(x.Map).(*pmap)
				if !ok || m == nil {
					e.fail("store in unknown map")
				}
				k := pstr(e.key(val(x.Key)))
				if c := m.m[k]; c != nil {
					c.v = copyVal(val(x.Value))
				} else {
					m.keys = append(m.keys, val(x.Key))
					m.m[k] = &pcell{copyVal(val(x.Value))}
				}
			case *ssa.Defer:
				c := x.Call
				var as []pv
				for _, a := range c.Args {
					as = append(as, val(a))
				}
				var f pv
				if !c.IsInvoke() {
					f = val(c.Value)
				} else {
					f = val(c.Value)
				}
				cc := &c
				defers = append(defers, func() { e.apply(cc, f, as) })
			case *ssa.RunDefers:
				for i := len(defers) - 1; i >= 0; i-- {
					defers[i]()
				}
				defers = nil
			case *ssa.Go, *ssa.Send, *ssa.Select:
				e.fail("concurrency")
			case ssa.Value:
				env[x] = e.eval(x, val)
			default:
				e.fail("instruction %s", in)
			}
		}
		if next == nil {
			e.fail("no way on")
		}
		prev, b = b, next
	}
}

// decide asks for the truth of an unknown condition.
func (e *PE) decide(v pv) (bool, bool) {
	if b, ok := v.(bool); ok {
		return b, true
	}
	if t, ok := v.(*pterm); ok {
		if t.op == "!" {
			b, ok := e.decide(t.args[0])
			return !b, ok
		}
		if e.onCond != nil {
			if b, ok := e.onCond(t); ok {
				return b, true
			}
		}
		if e.nominal != nil && strings.HasPrefix(t.op, "cmp") && len(t.args) == 2 {
			x, ok1 := e.nominalOf(t.args[0])
			y, ok2 := e.nominalOf(t.args[1])
			if ok1 && ok2 {
				switch t.op[3:] {
				case "==":
					return x == y, true
				case "!=":
					return x != y, true
				case "<":
					return int64(x) < int64(y), true
				case "<=":
					return int64(x) <= int64(y), true
				case ">":
					return int64(x) > int64(y), true
				case ">=":
					return int64(x) >= int64(y), true
				}
			}
		}
		if e.choose == nil {
			return false, false
		}
		return e.choose(pstr(t))
	}
	return false, false
}

func (e *PE) unsure() bool { return e.choose != nil || e.nominal != nil }

// nominalOf is the value a form has for the nominal bytes.
func (e *PE) nominalOf(v pv) (uint64, bool) {
	n, ok := v.(pnum)
	if !ok {
		return 0, false
	}
	if n.term != "" {
		k, ok := e.nomTerm[n.term]
		return k, ok
	}
	k := n.k
	for i, c := range n.t {
		b, ok := e.nominal[i]
		if !ok {
			return 0, false
		}
		k += c * uint64(b)
	}
	return k, true
}

// bytesString is the string of bytes of which some are unknown or encoded characters.
func bytesString(x pslice) *pterm {
	var r []pv
	for i := 0; i < x.ln; i++ {
		switch y := x.a.e[x.off+i].v.(type) {
		case pnum:
			if !y.isConst() || y.k >= 0x80 {
				return &pterm{op: "bytes", args: snapshot([]pv{x})}
			}
			r = append(r, y)
		case *pterm:
			if y.op != "rune" {
				return &pterm{op: "bytes", args: snapshot([]pv{x})}
			}
			r = append(r, y.args[0])
		}
	}
	return &pterm{op: "runes", args: r}
}

// runesOf lists the characters of an unknown string.
func runesOf(t *pterm) []pv {
	switch t.op {
	case "runes":
		return t.args
	case "string":
		switch x := t.args[0].(type) {
		case pnum:
			return []pv{x}
		case pslice:
			var r []pv
			for i := 0; i < x.ln; i++ {
				switch y := x.a.e[x.off+i].v.(type) {
				case pnum:
					r = append(r, y)
				}
			}
			return r
		}
	}
	return []pv{pnum{term: "runes(" + pstr(t) + ")"}}
}

func strRunes(v pv) []pv {
	switch x := v.(type) {
	case string:
		var r []pv
		for _, c := range x {
			r = append(r, pknum(uint64(c)))
		}
		return r
	case *pterm:
		return runesOf(x)
	}
	return nil
}

func (e *PE) key(v pv) pv {
	switch x := v.(type) {
	case piface:
		return e.key(x.v)
	case pnum:
		if !x.isConst() && !e.opaque {
			e.fail("unknown key")
		}
	case string, bool:
	case *pstru:
		for _, f := range x.f {
			e.key(f.v)
		}
	default:
		e.fail("key %s", pstr(v))
	}
	return v
}

func (e *PE) constInt(v pv) int {
	n, ok := v.(pnum)
	if !ok || !n.isConst() {
		e.fail("control depends on data: %s", pstr(v))
	}
	return int(int64(n.k))
}

func (e *PE) eval(v ssa.Value, val func(ssa.Value) pv) pv {
	switch x := v.(type) {
	case *ssa.Alloc:
		return pptr{&pcell{e.zero(x.Type().(*types.Pointer).Elem())}}
	case *ssa.BinOp:
		a, b := val(x.X), val(x.Y)
		if x.Op == token.SHL || x.Op == token.SHR {
			return e.numop(x.Op, a.(pnum), b.(pnum), x.Type(), x.X.Type())
		}
		if bt, ok := x.X.Type().Underlying().(*types.Basic); ok && bt.Info()&types.IsFloat != 0 {
			return e.floatOp(x.Op, a, b)
		}
		return e.binop(x.Op, a, b, x.Type(), x.X.Type())
	case *ssa.UnOp:
		a := val(x.X)
		switch x.Op {
		case token.MUL:
			p, ok := a.(pptr)
			if t, isT := a.(*pterm); isT {
				return &pterm{op: "*", args: []pv{t}}
			}
			if !ok || p.c == nil {
				e.fail("load through %s", pstr(a))
			}
			return copyVal(p.c.v)
		case token.NOT:
			b, ok := a.(bool)
			if t, isT := a.(*pterm); isT && e.unsure() {
				return &pterm{op: "!", args: []pv{t}}
			}
			if !ok {
				e.fail("control depends on data")
			}
			return !b
		case token.SUB:
			return e.wrapTo(e.add(pnum{}, a.(pnum), true), x.Type())
		case token.XOR:
			n := a.(pnum)
			if n.isConst() {
				return e.wrapTo(pnum{k: ^n.k}, x.Type())
			}
		}
		e.fail("operation %s", x)
	case *ssa.FieldAddr:
		p, ok := val(x.X).(pptr)
		if !ok || p.c == nil {
			if t, isT := val(x.X).(*pterm); isT {
				return &pterm{op: fmt.Sprintf("&.%d", x.Field), args: []pv{t}}
			}
			e.fail("field of %s", pstr(val(x.X)))
		}
		s, ok := p.c.v.(*pstru)
		if !ok {
			e.fail("field of %s", pstr(p.c.v))
		}
		return pptr{s.f[x.Field]}
	case *ssa.Field:
		s, ok := val(x.X).(*pstru)
		if !ok {
			e.fail("field of %s", pstr(val(x.X)))
		}
		return copyVal(s.f[x.Field].v)
	case *ssa.IndexAddr:
		if n, ok := val(x.Index).(pnum); ok && !n.isConst() && e.nominal != nil {
			// an unknown place: nothing is known of any element from now on
			if s, ok := val(x.X).(pslice); ok && s.ln > 0 {
				if _, isNum := s.a.e[s.off].v.(pnum); isNum {
					for i := 0; i < s.ln; i++ {
						s.a.e[s.off+i].v = pnum{term: "unknown"}
					}
					return pptr{&pcell{pnum{term: "unknown"}}}
				}
			}
		}
		i := e.constInt(val(x.Index))
		switch s := val(x.X).(type) {
		case pslice:
			if i < 0 || i >= s.ln {
				e.fail("index out of range")
			}
			return pptr{s.a.e[s.off+i]}
		case pptr:
			if s.c != nil {
				if a, ok := s.c.v.(*parr); ok && i >= 0 && i < len(a.e) {
					return pptr{a.e[i]}
				}
			}
		}
		e.fail("index of %s", pstr(val(x.X)))
	case *ssa.Index:
		i := e.constInt(val(x.Index))
		switch s := val(x.X).(type) {
		case *parr:
			if i >= 0 && i < len(s.e) {
				return copyVal(s.e[i].v)
			}
		case string:
			if i >= 0 && i < len(s) {
				return pknum(uint64(s[i]))
			}
		}
		e.fail("index of %s", pstr(val(x.X)))
	case *ssa.Lookup:
		switch m := val(x.X).(type) {
		case string:
			i := e.constInt(val(x.Index))
			if i < 0 || i >= len(m) {
				e.fail("index out of range")
			}
			return pknum(uint64(m[i]))
		case *pmap:
			t := x.X.Type().Underlying().(*types.Map).Elem()
			if m != nil && m.abs != "" {
				k := pstr(val(x.Index))
				has, ok := e.choose("has(" + m.abs + "," + k + ")")
				if !ok {
					e.fail("control depends on data: has(%s,%s)", m.abs, k)
				}
				r := e.zero(t)
				if has {
					r = pnum{term: m.abs + "[" + k + "]"}
				}
				if x.CommaOk {
					return ptuple{r, has}
				}
				return r
			}
			var c *pcell
			if n, ok := val(x.Index).(pnum); ok && !n.isConst() && e.assume != nil && x.CommaOk && m != nil {
				if *e.assume {
					return ptuple{pnum{term: "lookup(" + n.String() + ")"}, true}
				}
				return ptuple{e.zero(t), false}
			}
			if m != nil {
				c = m.m[pstr(e.key(val(x.Index)))]
			}
			r := e.zero(t)
			if c != nil {
				r = copyVal(c.v)
			}
			if x.CommaOk {
				return ptuple{r, c != nil}
			}
			return r
		}
		e.fail("lookup in %s", pstr(val(x.X)))
	case *ssa.Extract:
		t := val(x.Tuple)
		if tt, ok := t.(ptuple); ok {
			return tt[x.Index]
		}
		e.fail("part of %s", pstr(t))
	case *ssa.MakeSlice:
		n, c := e.constInt(val(x.Len)), e.constInt(val(x.Cap))
		if n < 0 || c < n || c > 1<<20 {
			e.fail("size of slice")
		}
		el := x.Type().Underlying().(*types.Slice).Elem()
		a := &parr{}
		for i := 0; i < c; i++ {
			a.e = append(a.e, &pcell{e.zero(el)})
		}
		return pslice{a, 0, n, c}
	case *ssa.MakeMap:
		return &pmap{m: map[string]*pcell{}}
	case *ssa.MakeInterface:
		return piface{x.X.Type(), copyVal(val(x.X))}
	case *ssa.MakeClosure:
		var bs []pv
		for _, b := range x.Bindings {
			bs = append(bs, val(b))
		}
		return pfunc{fn: x.Fn.(*ssa.Function), binds: bs}
	case *ssa.ChangeType:
		return val(x.X)
	case *ssa.ChangeInterface:
		return val(x.X)
	case *ssa.Convert:
		return e.convert(val(x.X), x.X.Type(), x.Type())
	case *ssa.Slice:
		lo, hi := 0, -1
		if x.Low != nil {
			lo = e.constInt(val(x.Low))
		}
		if x.High != nil {
			hi = e.constInt(val(x.High))
		}
		switch s := val(x.X).(type) {
		case string:
			if hi < 0 {
				hi = len(s)
			}
			if lo < 0 || hi < lo || hi > len(s) {
				e.fail("slice out of range")
			}
			return s[lo:hi]
		case pslice:
			if x.High == nil {
				hi = s.ln
			}
			c := s.capa
			if x.Max != nil {
				c = e.constInt(val(x.Max))
			}
			if lo < 0 || hi < lo || hi > c || c > s.capa {
				e.fail("slice out of range")
			}
			return pslice{s.a, s.off + lo, hi - lo, c - lo}
		case pptr:
			if s.c != nil {
				if a, ok := s.c.v.(*parr); ok {
					if x.High == nil {
						hi = len(a.e)
					}
					if lo < 0 || hi < lo || hi > len(a.e) {
						e.fail("slice out of range")
					}
					return pslice{a, lo, hi - lo, len(a.e) - lo}
				}
			}
		case *pterm:
			return &pterm{op: fmt.Sprintf("slice[%d:%d]", lo, hi), args: []pv{s}}
		}
		e.fail("slice of %s", pstr(val(x.X)))
	case *ssa.TypeAssert:
		i, ok := val(x.X).(piface)
		if !ok {
			e.fail("type of %s", pstr(val(x.X)))
		}
		is := i.t != nil && types.Identical(i.t, x.AssertedType)
		if it, isI := x.AssertedType.Underlying().(*types.Interface); isI {
			is = i.t != nil && types.Implements(i.t, it)
			if is {
				if x.CommaOk {
					return ptuple{i, true}
				}
				return i
			}
		}
		if x.CommaOk {
			if is {
				return ptuple{i.v, true}
			}
			return ptuple{e.zero(x.AssertedType), false}
		}
		if !is {
			e.fail("type assertion")
		}
		return i.v
	case *ssa.Range:
		switch m := val(x.X).(type) {
		case *pmap:
			if m != nil && m.abs != "" {
				e.fail("range over unknown map")
			}
			if m == nil {
				return &piter{}
			}
			if e.ranged != nil && len(m.keys) > e.ranged[x] {
				e.ranged[x] = len(m.keys)
			}
			r := &pmap{m: m.m}
			n := len(m.keys)
			for i := range m.keys {
				j := i
				if e.order&2 != 0 {
					j = (i + n/2) % n
				}
				if e.order&1 != 0 {
					j = n - 1 - j
				}
				r.keys = append(r.keys, m.keys[j])
			}
			return &piter{m: r}
		case string:
			return &piter{s: m}
		case *pterm:
			return &piter{r: runesOf(m)}
		}
		e.fail("range over %s", pstr(val(x.X)))
	case *ssa.Next:
		it := val(x.Iter).(*piter)
		if x.IsString && it.r != nil {
			if it.i >= len(it.r) {
				return ptuple{false, pnum{}, pnum{}}
			}
			it.i++
			return ptuple{true, pnum{term: fmt.Sprintf("pos%d", it.i-1)}, it.r[it.i-1]}
		}
		if x.IsString {
			if it.i >= len(it.s) {
				return ptuple{false, pnum{}, pnum{}}
			}
			r, n := utf8.DecodeRuneInString(it.s[it.i:])
			k := it.i
			it.i += n
			return ptuple{true, pknum(uint64(k)), pknum(uint64(r))}
		}
		for it.m != nil && it.i < len(it.m.keys) {
			if _, there := it.m.m[pstr(it.m.keys[it.i])]; there {
				break
			}
			it.i++ // deleted meanwhile
		}
		if it.m == nil || it.i >= len(it.m.keys) {
			return ptuple{false, nil, nil}
		}
		k := it.m.keys[it.i]
		it.i++
		return ptuple{true, k, copyVal(it.m.m[pstr(k)].v)}
	case *ssa.Call:
		c := x.Common()
		var as []pv
		for _, a := range c.Args {
			as = append(as, val(a))
		}
		return e.apply(c, val(c.Value), as)
	}
	e.fail("instruction %s", v)
	return nil
}

// floatOp computes with known floating point numbers; others become terms.
func (e *PE) floatOp(op token.Token, a, b pv) pv {
	x, ok1 := a.(pflt)
	y, ok2 := b.(pflt)
	if !ok1 || !ok2 {
		switch op {
		case token.ADD, token.SUB, token.MUL, token.QUO:
			return &pterm{op: "float" + op.String(), args: []pv{a, b}}
		}
		return &pterm{op: "floatcmp" + op.String(), args: []pv{a, b}}
	}
	switch op {
	case token.ADD:
		return x + y
	case token.SUB:
		return x - y
	case token.MUL:
		return x * y
	case token.QUO:
		return x / y
	case token.EQL:
		return x == y
	case token.NEQ:
		return x != y
	case token.LSS:
		return x < y
	case token.LEQ:
		return x <= y
	case token.GTR:
		return x > y
	}
	return x >= y
}

func (e *PE) convert(v pv, from, to types.Type) pv {
	switch x := v.(type) {
	case pnum:
		if _, _, ok := basicInfo(to); ok {
			// a form that could wrap in its own type must be reduced first
			e.noSign(x, from)
			if fb, _, ok := basicInfo(from); ok && e.nominal != nil && x.term == "" && !x.isConst() {
				tb, _, _ := basicInfo(to)
				if mx, ok := x.maxOf(); tb > fb && (!ok || mx > 1<<fb-1) {
					r := pnum{term: fmt.Sprintf("mod%d(%s)", fb, x)}
					if k, ok := e.nominalOf(x); ok {
						if e.nomTerm == nil {
							e.nomTerm = map[string]uint64{}
						}
						e.nomTerm[r.term] = k & (1<<fb - 1)
					}
					return r
				}
			}
			return e.wrapTo(e.wrapTo(x, from), to)
		}
		if b, ok := to.Underlying().(*types.Basic); ok {
			if b.Info()&types.IsString != 0 {
				if x.isConst() {
					return string(rune(x.k))
				}
				return &pterm{op: "string", args: []pv{x}}
			}
			if b.Info()&types.IsFloat != 0 && x.isConst() {
				return pflt(float64(int64(x.k)))
			}
			if b.Info()&types.IsFloat != 0 {
				return &pterm{op: "float", args: []pv{x}}
			}
		}
	case pflt:
		if bits, _, ok := basicInfo(to); ok && bits > 0 {
			return e.wrapTo(pknum(uint64(int64(x))), to)
		}
		return x
	case string:
		switch u := to.Underlying().(type) {
		case *types.Basic:
			return x
		case *types.Slice:
			a := &parr{}
			if b, ok := u.Elem().Underlying().(*types.Basic); ok && b.Kind() == types.Uint8 {
				for i := 0; i < len(x); i++ {
					a.e = append(a.e, &pcell{pknum(uint64(x[i]))})
				}
			} else {
				for _, r := range x {
					a.e = append(a.e, &pcell{pknum(uint64(r))})
				}
			}
			return pslice{a, 0, len(a.e), len(a.e)}
		}
	case pslice:
		if b, ok := to.Underlying().(*types.Basic); ok && b.Info()&types.IsString != 0 {
			el := from.Underlying().(*types.Slice).Elem()
			isB := false
			if eb, ok := el.Underlying().(*types.Basic); ok {
				isB = eb.Kind() == types.Uint8
			}
			var sb strings.Builder
			for i := 0; i < x.ln; i++ {
				n, ok := x.a.e[x.off+i].v.(pnum)
				if !ok || !n.isConst() {
					if isB {
						return bytesString(x)
					}
					return &pterm{op: "string", args: []pv{x}}
				}
				if isB {
					sb.WriteByte(byte(n.k))
				} else {
					sb.WriteRune(rune(n.k))
				}
			}
			return sb.String()
		}
	case *pterm:
		switch u := to.Underlying().(type) {
		case *types.Basic:
			if u.Info()&types.IsString != 0 {
				return x
			}
		case *types.Slice:
			if b, ok := u.Elem().Underlying().(*types.Basic); ok && b.Kind() == types.Int32 {
				a := &parr{}
				for _, r := range runesOf(x) {
					a.e = append(a.e, &pcell{r})
				}
				return pslice{a, 0, len(a.e), len(a.e)}
			}
		}
		return &pterm{op: "convert:" + to.String(), args: []pv{x}}
	}
	e.fail("conversion of %s to %s", pstr(v), to)
	return nil
}

func (e *PE) apply(c *ssa.CallCommon, f pv, args []pv) pv {
	if c.IsInvoke() {
		switch r := f.(type) {
		case piface:
			if r.t == nil {
				e.fail("call on nil")
			}
			if _, ok := r.v.(*pterm); ok || e.stream(r) != nil || e.buffer(r) != nil {
				return e.extern(nil, c, append([]pv{r}, args...))
			}
			if m := e.P.prog.LookupMethod(r.t, c.Method.Pkg(), c.Method.Name()); m != nil {
				return e.call(m, append([]pv{r.v}, args...), nil)
			}
		case *pterm:
			return e.extern(nil, c, append([]pv{r}, args...))
		}
		e.fail("call of %s on %s", c.Method.Name(), pstr(f))
	}
	fv, ok := f.(pfunc)
	if !ok {
		e.fail("call of %s", pstr(f))
	}
	if fv.bi != "" {
		return e.builtin(fv.bi, c, args)
	}
	if fv.fn == nil {
		e.fail("call of nil")
	}
	return e.call(fv.fn, args, fv.binds)
}

func (e *PE) builtin(name string, c *ssa.CallCommon, args []pv) pv {
	switch name {
	case "len", "cap":
		switch x := args[0].(type) {
		case pslice:
			if name == "cap" {
				return knum(int64(x.capa))
			}
			return knum(int64(x.ln))
		case string:
			return knum(int64(len(x)))
		case *pmap:
			if x == nil {
				return pnum{}
			}
			return knum(int64(len(x.keys)))
		case *parr:
			return knum(int64(len(x.e)))
		}
		return pnum{term: name + "(" + pstr(args[0]) + ")"}
	case "append":
		s, ok := args[0].(pslice)
		if !ok {
			e.fail("append to %s", pstr(args[0]))
		}
		var add []pv
		switch y := args[1].(type) {
		case pslice:
			for i := 0; i < y.ln; i++ {
				add = append(add, copyVal(y.a.e[y.off+i].v))
			}
		case string:
			for i := 0; i < len(y); i++ {
				add = append(add, pknum(uint64(y[i])))
			}
		default:
			e.fail("append of %s", pstr(args[1]))
		}
		if len(add) == 0 {
			return s
		}
		if s.ln+len(add) <= s.capa {
			for i, v := range add {
				store(s.a.e[s.off+s.ln+i], v)
			}
			return pslice{s.a, s.off, s.ln + len(add), s.capa}
		}
		a := &parr{}
		for i := 0; i < s.ln; i++ {
			a.e = append(a.e, &pcell{copyVal(s.a.e[s.off+i].v)})
		}
		for _, v := range add {
			a.e = append(a.e, &pcell{v})
		}
		n := len(a.e)
		if st, ok := c.Args[0].Type().Underlying().(*types.Slice); ok && s.ln >= 64 && len(add) < s.ln {
			for len(a.e) < 2*n {
				a.e = append(a.e, &pcell{e.zero(st.Elem())})
			}
		}
		return pslice{a, 0, n, len(a.e)}
	case "copy":
		d, ok := args[0].(pslice)
		if !ok {
			e.fail("copy to %s", pstr(args[0]))
		}
		var src []pv
		switch y := args[1].(type) {
		case pslice:
			for i := 0; i < y.ln; i++ {
				src = append(src, copyVal(y.a.e[y.off+i].v))
			}
		case string:
			for i := 0; i < len(y); i++ {
				src = append(src, pknum(uint64(y[i])))
			}
		default:
			e.fail("copy of %s", pstr(args[1]))
		}
		n := min(d.ln, len(src))
		for i := 0; i < n; i++ {
			store(d.a.e[d.off+i], src[i])
		}
		return knum(int64(n))
	case "delete":
		m, _ := args[0].(*pmap)
		if m != nil {
			k := pstr(e.key(args[1]))
			if m.m[k] != nil {
				delete(m.m, k)
				for i, q := range m.keys {
					if pstr(q) == k {
						m.keys = append(m.keys[:i:i], m.keys[i+1:]...)
						break
					}
				}
			}
		}
		return nil
	case "min", "max":
		r := args[0]
		for _, a := range args[1:] {
			x, y := r.(pnum), a.(pnum)
			if !x.isConst() || !y.isConst() {
				e.fail("control depends on data")
			}
			if (int64(y.k) < int64(x.k)) == (name == "min") {
				r = a
			}
		}
		return r
	}
	e.fail("builtin %s", name)
	return nil
}

func (e *PE) buffer(v pv) *pbuf {
	switch x := v.(type) {
	case pptr:
		if x.c != nil {
			if b, ok := x.c.v.(*pbuf); ok {
				return b
			}
		}
	case piface:
		return e.buffer(x.v)
	case *pterm:
		if e.stdout != nil && strings.HasSuffix(pstr(x), "os.Stdout") {
			return e.stdout
		}
	}
	return nil
}

func (b *pbuf) add(vs ...pv) {
	for _, v := range vs {
		if b.n < len(b.c) {
			b.c[b.n].v = v
		} else {
			b.c = append(b.c, &pcell{v})
		}
		b.n++
	}
}

func (b *pbuf) all() []pv {
	var r []pv
	for _, c := range b.c[:b.n] {
		r = append(r, c.v)
	}
	return r
}

func (e *PE) bytesOf(v pv) []pv {
	switch x := v.(type) {
	case pslice:
		var r []pv
		for i := 0; i < x.ln; i++ {
			r = append(r, x.a.e[x.off+i].v)
		}
		return r
	case string:
		var r []pv
		for i := 0; i < len(x); i++ {
			r = append(r, pknum(uint64(x[i])))
		}
		return r
	}
	e.fail("bytes of %s", pstr(v))
	return nil
}

// constInts are the elements of a slice of known numbers.
func constInts(v pv) ([]uint64, bool) {
	x, ok := v.(pslice)
	if !ok {
		return nil, false
	}
	var r []uint64
	for i := 0; i < x.ln; i++ {
		n, ok := x.a.e[x.off+i].v.(pnum)
		if !ok || !n.isConst() {
			return nil, false
		}
		r = append(r, n.k)
	}
	return r, true
}

func mkBytes(b []pv) pslice {
	a := &parr{}
	for _, v := range b {
		a.e = append(a.e, &pcell{v})
	}
	return pslice{a, 0, len(b), len(b)}
}

// extern models calls out of the module.
func (e *PE) extern(fn *ssa.Function, c *ssa.CallCommon, args []pv) pv {
	var name string
	var sig *types.Signature
	if fn != nil {
		name, sig = fn.String(), fn.Signature
		if fn.Name() == "init" {
			return nil
		}
	} else {
		name, sig = "invoke "+c.Method.Name(), c.Method.Type().(*types.Signature)
	}
	if strings.Contains(name, "sirupsen/logrus") {
		if sig.Results().Len() == 0 {
			return nil
		}
	}
	if e.ext != nil {
		if r, ok := e.ext(name, args); ok {
			return r
		}
	}
	if e.fs != nil {
		if r, ok := e.externFile(name, sig, args); ok {
			return r
		}
	}
	if r, ok := e.externIO(name, sig, args); ok {
		return r
	}
	if b := e.fprint(name, args); b != nil {
		return ptuple{pnum{term: "n"}, piface{}}
	}
	if len(args) > 0 {
		if b := e.buffer(args[0]); b != nil && (sig.Recv() != nil || fn == nil) {
			switch fnName(strings.TrimPrefix(name, "invoke ")) {
			case "Write", "WriteString":
				if t, ok := args[1].(*pterm); ok {
					for _, r := range runesOf(t) {
						b.add(&pterm{op: "rune", args: []pv{r}})
					}
					return ptuple{pnum{term: "n"}, piface{}}
				}
				bs := e.bytesOf(args[1])
				b.add(bs...)
				return ptuple{knum(int64(len(bs))), piface{}}
			case "WriteByte":
				b.add(args[1])
				return piface{}
			case "WriteRune":
				n := args[1].(pnum)
				if n.isConst() {
					bs := e.bytesOf(string(rune(n.k)))
					b.add(bs...)
					return ptuple{knum(int64(len(bs))), piface{}}
				}
				b.add(&pterm{op: "rune", args: []pv{n}})
				return ptuple{pnum{term: "n"}, piface{}}
			case "Bytes":
				return pslice{&parr{b.c[:b.n:b.n]}, 0, b.n, b.n}
			case "Len":
				return knum(int64(b.n))
			case "Reset":
				b.n = 0
				return nil
			case "Grow":
				return nil
			case "Flush":
				if b.under != nil {
					bs := b.all()
					b.n = 0
					b.under.add(bs...)
				}
				return piface{}
			case "Truncate":
				b.n = min(b.n, e.constInt(args[1]))
				return nil
			case "Cap":
				return knum(int64(len(b.c)))
			case "WriteTo":
				if d := e.buffer(args[1]); d != nil {
					n := b.n
					bs := b.all()
					b.n = 0
					d.add(bs...)
					return ptuple{knum(int64(n)), piface{}}
				}
			case "ReadFrom":
				if d := e.buffer(args[1]); d != nil {
					n := d.n
					bs := d.all()
					d.n = 0
					b.add(bs...)
					return ptuple{knum(int64(n)), piface{}}
				}
				if d := e.stream(args[1]); d != nil {
					d.fill()
					n := len(d.b) - d.pos
					b.add(d.b[d.pos:]...)
					d.pos = len(d.b)
					return ptuple{knum(int64(n)), piface{}}
				}
			case "String":
				return e.convert(mkBytes(b.all()), types.NewSlice(types.Typ[types.Uint8]), types.Typ[types.String])
			}
			e.fail("buffer operation %s", name)
		}
	}
	be := func(n int, little bool) pv {
		bs := e.bytesOf(args[1])
		if len(bs) < n {
			e.fail("too few bytes")
		}
		r := pnum{}
		for i := 0; i < n; i++ {
			s := uint(8 * (n - 1 - i))
			if little {
				s = uint(8 * i)
			}
			x, ok := bs[i].(pnum)
			if !ok || x.term != "" {
				e.fail("bytes of %s", pstr(bs[i]))
			}
			r = e.add(r, e.mulK(x, 1<<s), false)
		}
		if !little {
			return e.fold(r, bs[:n])
		}
		return r
	}
	put := func(n int, little bool) pv {
		d, ok := args[1].(pslice)
		v, ok2 := args[2].(pnum)
		if !ok || !ok2 || d.ln < n {
			e.fail("PutUint")
		}
		for i := 0; i < n; i++ {
			s := uint64(8 * (n - 1 - i))
			if little {
				s = uint64(8 * i)
			}
			d.a.e[d.off+i].v = e.byteOf(v, int(s/8), uint(8*n))
		}
		return nil
	}
	switch name {
	case "(encoding/binary.bigEndian).Uint16":
		return be(2, false)
	case "(encoding/binary.bigEndian).Uint32":
		return be(4, false)
	case "(encoding/binary.bigEndian).Uint64":
		return be(8, false)
	case "(encoding/binary.littleEndian).Uint16":
		return be(2, true)
	case "(encoding/binary.littleEndian).Uint32":
		return be(4, true)
	case "(encoding/binary.bigEndian).PutUint16":
		return put(2, false)
	case "(encoding/binary.bigEndian).PutUint32":
		return put(4, false)
	case "(encoding/binary.littleEndian).PutUint16":
		return put(2, true)
	case "(encoding/binary.littleEndian).PutUint32":
		return put(4, true)
	case "unicode/utf16.Encode":
		if u, ok := constInts(args[0]); ok {
			var rs []rune
			for _, k := range u {
				rs = append(rs, rune(k))
			}
			var r []pv
			for _, u := range utf16.Encode(rs) {
				r = append(r, pknum(uint64(u)))
			}
			return mkBytes(r)
		}
	case "unicode/utf16.Decode":
		if u, ok := constInts(args[0]); ok {
			var us []uint16
			for _, k := range u {
				us = append(us, uint16(k))
			}
			var r []pv
			for _, c := range utf16.Decode(us) {
				r = append(r, pknum(uint64(c)))
			}
			return mkBytes(r)
		}
		// one character per unit, but made of all of them: surrogate pairs are the library's business
		if u, ok := args[0].(pslice); ok {
			a := &parr{}
			name := pstr(&pterm{op: "utf16", args: snapshot(args)})
			if len(name) > 4000 {
				name = fmt.Sprintf("utf16#%x", sha256.Sum256([]byte(name)))
			}
			for i := 0; i < u.ln; i++ {
				a.e = append(a.e, &pcell{pnum{term: fmt.Sprintf("%s[%d]", name, i)}})
			}
			return pslice{a, 0, u.ln, u.ln}
		}
	case "fmt.Sprintf", "fmt.Sprint", "fmt.Sprintln":
		if s, ok := sprint(name, args); ok {
			return s
		}
	case "strconv.Itoa":
		if n, ok := args[0].(pnum); ok && n.isConst() {
			return fmt.Sprint(int64(n.k))
		}
	case "errors.New", "fmt.Errorf":
		return piface{sig.Results().At(0).Type(), &pterm{op: "error", args: snapshot(args)}}
	case "strings.TrimSpace":
		if s, ok := args[0].(string); ok {
			return strings.TrimSpace(s)
		}
	case "strings.TrimRight":
		if s, ok := args[0].(string); ok {
			if c, ok := args[1].(string); ok {
				return strings.TrimRight(s, c)
			}
		}
	case "strings.Repeat":
		if s, ok := args[0].(string); ok {
			return strings.Repeat(s, e.constInt(args[1]))
		}
	case "bytes.NewBuffer":
		if s, ok := args[0].(pslice); ok {
			b := &pbuf{}
			if s.a != nil {
				b.c, b.n = append(b.c, s.a.e[s.off:s.off+s.ln]...), s.ln
			}
			return pptr{&pcell{b}}
		}
	case "bytes.NewBufferString":
		b := &pbuf{}
		b.add(e.bytesOf(args[0])...)
		return pptr{&pcell{b}}
	case "bytes.Equal":
		x, y := e.bytesOf(args[0]), e.bytesOf(args[1])
		eq := len(x) == len(y)
		if eq && e.onCond != nil && len(x) > 0 && len(x) <= 8 {
			nx, ok1 := e.num(x, 0, len(x))
			ny, ok2 := e.num(y, 0, len(y))
			if ok1 && ok2 && !(nx.isConst() && ny.isConst()) {
				return &pterm{op: "cmp==", args: []pv{nx, ny}}
			}
		}
		for i := 0; eq && i < len(x); i++ {
			r, ok := e.equal(x[i], y[i])
			if !ok {
				e.fail("control depends on data")
			}
			eq = r
		}
		return eq
	}
	// an unknown call: a term per result; memory it could change must not be reachable
	for _, a := range args {
		if b := e.buffer(a); b != nil {
			e.fail("call of %s with a buffer", name)
		}
	}
	term := &pterm{op: shortName(name), args: snapshot(args)}
	res := sig.Results()
	one := func(i int) pv {
		t := res.At(i).Type()
		var x pv = term
		if res.Len() > 1 {
			x = &pterm{op: fmt.Sprintf("#%d", i), args: []pv{term}}
		}
		if t.String() == "error" {
			// errors of external calls are not followed
			return piface{}
		}
		if _, _, ok := basicInfo(t); ok {
			return pnum{term: pstr(x)}
		}
		if _, ok := t.Underlying().(*types.Interface); ok {
			return piface{t, x}
		}
		return x
	}
	switch res.Len() {
	case 0:
		return nil
	case 1:
		return one(0)
	}
	var t ptuple
	for i := 0; i < res.Len(); i++ {
		t = append(t, one(i))
	}
	return t
}

func snapshot(args []pv) []pv {
	var r []pv
	for _, a := range args {
		if s, ok := a.(pslice); ok {
			var c []pv
			for i := 0; i < s.ln; i++ {
				c = append(c, copyVal(s.a.e[s.off+i].v))
			}
			a = mkBytes(c)
		}
		r = append(r, a)
	}
	return r
}

func fnName(s string) string { return s[strings.LastIndexByte(s, '.')+1:] }

// shortName drops the directories of package paths.
func shortName(s string) string {
	var b strings.Builder
	start := 0
	for i := 0; i <= len(s); i++ {
		if i == len(s) || strings.IndexByte("()* .", s[i]) >= 0 {
			w := s[start:i]
			if j := strings.LastIndexByte(w, '/'); j >= 0 {
				w = w[j+1:]
			}
			b.WriteString(w)
			if i < len(s) {
				b.WriteByte(s[i])
			}
			start = i + 1
		}
	}
	return b.String()
}

// fprint adds formatted text to a buffer.
func (e *PE) fprint(name string, args []pv) *pbuf {
	if e.stdout != nil && (name == "fmt.Printf" || name == "fmt.Print" || name == "fmt.Println") {
		name = "fmt.F" + strings.ToLower(name[4:5]) + name[5:]
		args = append([]pv{pptr{&pcell{e.stdout}}}, args...)
	}
	if name != "fmt.Fprintf" && name != "fmt.Fprint" && name != "fmt.Fprintln" && name != "io.WriteString" {
		return nil
	}
	b := e.buffer(args[0])
	if b == nil {
		return nil
	}
	switch name {
	case "io.WriteString":
		if _, ok := args[1].(string); ok {
			b.add(e.bytesOf(args[1])...)
			return b
		}
	default:
		if s, ok := sprint("fmt.S"+strings.TrimPrefix(name, "fmt.F"), args[1:]); ok {
			b.add(e.bytesOf(s)...)
			return b
		}
	}
	for _, r := range runesOf(&pterm{op: "text", args: snapshot(args[1:])}) {
		b.add(&pterm{op: "rune", args: []pv{r}})
	}
	return b
}

// sprint formats known numbers and strings.
func sprint(name string, args []pv) (string, bool) {
	format := ""
	if name == "fmt.Sprintf" {
		f, ok := args[0].(string)
		if !ok {
			return "", false
		}
		format, args = f, args[1:]
	}
	l, ok := args[0].(pslice)
	if !ok {
		return "", false
	}
	var vs []any
	for i := 0; i < l.ln; i++ {
		x, ok := l.a.e[l.off+i].v.(piface)
		if !ok || x.t == nil {
			return "", false
		}
		if _, isBasic := x.t.(*types.Basic); !isBasic {
			if n, ok := x.t.(*types.Named); !ok || n.NumMethods() > 0 {
				return "", false
			}
		}
		switch v := x.v.(type) {
		case pnum:
			if !v.isConst() {
				return "", false
			}
			if _, signed, _ := basicInfo(x.t); signed {
				vs = append(vs, int64(v.k))
			} else {
				vs = append(vs, v.k)
			}
		case string, bool:
			vs = append(vs, v)
		default:
			return "", false
		}
	}
	if name == "fmt.Sprintf" {
		return fmt.Sprintf(format, vs...), true
	}
	if name == "fmt.Sprintln" {
		return fmt.Sprintln(vs...), true
	}
	return fmt.Sprint(vs...), true
}
