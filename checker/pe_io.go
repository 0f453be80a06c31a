package main

import (
	"fmt"
	"go/token"
	"go/types"
	"math"
	mbits "math/bits"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Readers and writers for partial evaluation: a source is a list of bytes, some of them unknown, and a place in it.

type pstream struct {
	b   []pv
	pos int
	buf *pstream // a buffering reader over this one: what it took
}

// sourceType is the type given to a source.
var sourceType = types.NewPointer(types.NewNamed(types.NewTypeName(token.NoPos, nil, "source", nil), types.NewStruct(nil, nil), nil))

func newSource(b []pv) pv { return piface{sourceType, pptr{&pcell{&pstream{b: b}}}} }

func (e *PE) stream(v pv) *pstream {
	switch x := v.(type) {
	case pptr:
		if x.c != nil {
			if b, ok := x.c.v.(*pstream); ok {
				return b
			}
		}
	case piface:
		return e.stream(x.v)
	}
	return nil
}

// src fills a buffering reader: it takes all there is.
func (s *pstream) fill() {
	if s.buf != nil {
		s.b, s.pos = s.buf.b, s.buf.pos
		s.buf.pos = len(s.buf.b)
		s.buf = nil
	}
}

func (s *pstream) take(n int) ([]pv, bool) {
	s.fill()
	if n < 0 || n > len(s.b)-s.pos {
		s.pos = len(s.b)
		return nil, false
	}
	r := s.b[s.pos : s.pos+n]
	s.pos += n
	return r, true
}

func peErr(t types.Type) pv { return piface{t, &pterm{op: "error", args: []pv{"end of data"}}} }

// scatter stores the fields of big-endian bytes into a cell and tells how many bytes were used, or -1.
func (e *PE) scatter(c *pcell, t types.Type, b []pv) int {
	if bits, signed, ok := basicInfo(t); ok {
		n := int(bits / 8)
		if len(b) < n {
			return -1
		}
		r := pnum{}
		for i := 0; i < n; i++ {
			x, ok := b[i].(pnum)
			if !ok || x.term != "" {
				e.fail("bytes of %s", pstr(b[i]))
			}
			r = e.add(r, e.mulK(x, 1<<uint(8*(n-1-i))), false)
		}
		_ = signed
		c.v = e.wrapTo(e.fold(r, b[:n]), t)
		return n
	}
	k := 0
	switch u := t.Underlying().(type) {
	case *types.Array:
		a, ok := c.v.(*parr)
		if !ok {
			return -1
		}
		for i := range a.e {
			n := e.scatter(a.e[i], u.Elem(), b[k:])
			if n < 0 {
				return -1
			}
			k += n
		}
		return k
	case *types.Struct:
		s, ok := c.v.(*pstru)
		if !ok {
			return -1
		}
		for i := range s.f {
			n := e.scatter(s.f[i], u.Field(i).Type(), b[k:])
			if n < 0 {
				return -1
			}
			k += n
		}
		return k
	}
	e.fail("reading of %s", t)
	return -1
}

// gather is the big-endian encoding of a value.
func (e *PE) gather(v pv, t types.Type) []pv {
	if bits, _, ok := basicInfo(t); ok {
		n, ok := v.(pnum)
		if !ok {
			e.fail("writing of %s", pstr(v))
		}
		var r []pv
		for i := int(bits/8) - 1; i >= 0; i-- {
			r = append(r, e.byteOf(n, i, bits))
		}
		return r
	}
	var r []pv
	switch u := t.Underlying().(type) {
	case *types.Array:
		for _, c := range v.(*parr).e {
			r = append(r, e.gather(c.v, u.Elem())...)
		}
		return r
	case *types.Slice:
		s := v.(pslice)
		for i := 0; i < s.ln; i++ {
			r = append(r, e.gather(s.a.e[s.off+i].v, u.Elem())...)
		}
		return r
	case *types.Struct:
		for i, c := range v.(*pstru).f {
			r = append(r, e.gather(c.v, u.Field(i).Type())...)
		}
		return r
	case *types.Pointer:
		if p, ok := v.(pptr); ok && p.c != nil {
			return e.gather(p.c.v, u.Elem())
		}
	}
	e.fail("writing of %s", t)
	return nil
}

// byteOf is byte i (0 is the lowest) of a number of a type of some width.
func (e *PE) byteOf(n pnum, i int, bits uint) pv {
	if n.isConst() {
		return pknum(n.k >> uint(8*i) & 255)
	}
	if n.term == "" {
		if _, ok := n.bitsOf(); ok {
			var r pv
			msg := e.run(func() {
				m := e.mask(n, 255<<uint(8*i))
				x := pnum{k: m.k >> uint(8*i), t: map[int]uint64{}}
				for a, c := range m.t {
					x.t[a] = c >> uint(8*i)
				}
				r = x
			})
			if msg == "" {
				return r
			}
		}
	}
	return e.part(n, i, bits)
}

// derived bytes: byte i of a number of some width, as an atom of its own.
type pderived struct {
	form pnum
	i    int
	bits uint
	key  string
}

func (e *PE) part(n pnum, i int, bits uint) pnum {
	if bits < 64 && n.term == "" {
		m := uint64(1)<<bits - 1
		q := pnum{k: n.k & m, t: map[int]uint64{}}
		for a, c := range n.t {
			if c &= m; c != 0 {
				q.t[a] = c
			}
		}
		n = q
	}
	form := fmt.Sprintf("%d %s", bits, n)
	key := fmt.Sprintf("%d %s", i, form)
	if id, ok := e.derivedBy[key]; ok {
		return patom(id)
	}
	if e.derivedBy == nil {
		e.derivedBy, e.derived = map[string]int{}, map[int]pderived{}
	}
	id := 1<<24 + len(e.derivedBy)
	e.derivedBy[key], e.derived[id] = id, pderived{n, i, bits, form}
	if k, ok := e.nominalOf(n); ok && e.nominal != nil {
		e.nominal[id] = byte(k >> uint(8*i))
	}
	return patom(id)
}

// fold replaces the number made of all the bytes of a number by that number.
func (e *PE) fold(r pnum, b []pv) pnum {
	form := ""
	var d pderived
	for i, v := range b {
		x, ok := v.(pnum)
		if !ok || x.k != 0 || x.term != "" || len(x.t) != 1 {
			return r
		}
		for a, c := range x.t {
			d, ok = e.derived[a]
			if !ok || c != 1 || d.i != len(b)-1-i || int(d.bits) != 8*len(b) || form != "" && d.key != form {
				return r
			}
			form = d.key
		}
	}
	if form == "" {
		return r
	}
	return d.form
}

// externIO models reading and writing; ok is false for other calls.
func (e *PE) externIO(name string, sig *types.Signature, args []pv) (pv, bool) {
	arg := func(i int) *pstream {
		if i < len(args) {
			return e.stream(args[i])
		}
		return nil
	}
	errT := func() types.Type { return sig.Results().At(sig.Results().Len() - 1).Type() }
	switch name {
	case "os.Open", "os.OpenFile":
		if e.file != nil {
			return ptuple{pptr{&pcell{&pstream{b: e.file}}}, piface{}}, true
		}
	case "os.ReadFile", "io/ioutil.ReadFile":
		if e.file != nil {
			return ptuple{mkBytes(append([]pv(nil), e.file...)), piface{}}, true
		}
	case "(*os.File).Close", "invoke Close":
		if arg(0) != nil {
			return piface{}, true
		}
	case "bufio.NewReader", "bufio.NewReaderSize":
		if s := arg(0); s != nil {
			return pptr{&pcell{&pstream{buf: s}}}, true
		}
	case "bytes.NewReader":
		if sl, ok := args[0].(pslice); ok {
			return pptr{&pcell{&pstream{b: e.bytesOf(sl)}}}, true
		}
	case "io.ReadFull", "io.ReadAtLeast":
		if s := arg(0); s != nil {
			d, ok := args[1].(pslice)
			if !ok {
				return nil, false
			}
			b, ok := s.take(d.ln)
			if !ok {
				return ptuple{pnum{}, peErr(errT())}, true
			}
			for i, v := range b {
				d.a.e[d.off+i].v = v
			}
			return ptuple{knum(int64(d.ln)), piface{}}, true
		}
	case "encoding/binary.Read":
		if s := arg(0); s != nil {
			if !strings.Contains(pstr(args[1]), "BigEndian") {
				e.fail("byte order %s", pstr(args[1]))
			}
			to, ok := args[2].(piface)
			if !ok || to.t == nil {
				return nil, false
			}
			p, ok := to.v.(pptr)
			pt, ok2 := to.t.Underlying().(*types.Pointer)
			if !ok || !ok2 || p.c == nil {
				return nil, false
			}
			s.fill()
			n := e.scatter(p.c, pt.Elem(), s.b[s.pos:])
			if n < 0 {
				s.pos = len(s.b)
				return peErr(errT()), true
			}
			s.pos += n
			return piface{}, true
		}
	case "encoding/binary.Write":
		if b := e.buffer(args[0]); b != nil {
			if !strings.Contains(pstr(args[1]), "BigEndian") {
				e.fail("byte order %s", pstr(args[1]))
			}
			v, ok := args[2].(piface)
			if !ok || v.t == nil {
				return nil, false
			}
			b.add(e.gather(v.v, v.t)...)
			return piface{}, true
		}
	case "io.Copy":
		if d := e.buffer(args[0]); d != nil {
			if s := arg(1); s != nil {
				s.fill()
				n := len(s.b) - s.pos
				d.add(s.b[s.pos:]...)
				s.pos = len(s.b)
				return ptuple{knum(int64(n)), piface{}}, true
			}
			if s := e.buffer(args[1]); s != nil {
				n := s.n
				bs := s.all()
				s.n = 0
				d.add(bs...)
				return ptuple{knum(int64(n)), piface{}}, true
			}
		}
	case "io.ReadAll", "io/ioutil.ReadAll":
		if s := arg(0); s != nil {
			s.fill()
			b := mkBytes(append([]pv(nil), s.b[s.pos:]...))
			s.pos = len(s.b)
			return ptuple{b, piface{}}, true
		}
		if s := e.buffer(args[0]); s != nil {
			b := mkBytes(s.all())
			s.n = 0
			return ptuple{b, piface{}}, true
		}
	case "bufio.NewWriter", "bufio.NewWriterSize":
		if b := e.buffer(args[0]); b != nil {
			return pptr{&pcell{&pbuf{under: b}}}, true
		}
	case "math.Pow", "math.Log2", "math.Floor", "math.Ceil", "math.Log", "math.Trunc", "math.Round", "math.Exp2", "math.Max", "math.Min":
		var f []float64
		for _, a := range args {
			x, ok := a.(pflt)
			if !ok {
				return nil, false
			}
			f = append(f, float64(x))
		}
		switch name {
		case "math.Pow":
			return pflt(math.Pow(f[0], f[1])), true
		case "math.Log2":
			return pflt(math.Log2(f[0])), true
		case "math.Floor":
			return pflt(math.Floor(f[0])), true
		case "math.Ceil":
			return pflt(math.Ceil(f[0])), true
		case "math.Log":
			return pflt(math.Log(f[0])), true
		case "math.Trunc":
			return pflt(math.Trunc(f[0])), true
		case "math.Round":
			return pflt(math.Round(f[0])), true
		case "math.Exp2":
			return pflt(math.Exp2(f[0])), true
		case "math.Max":
			return pflt(math.Max(f[0], f[1])), true
		}
		return pflt(math.Min(f[0], f[1])), true
	case "math/bits.Len", "math/bits.Len8", "math/bits.Len16", "math/bits.Len32", "math/bits.Len64":
		if n, ok := args[0].(pnum); ok && n.isConst() {
			return knum(int64(mbits.Len64(n.k))), true
		}
	case "math/bits.LeadingZeros16", "math/bits.LeadingZeros32", "math/bits.LeadingZeros64":
		if n, ok := args[0].(pnum); ok && n.isConst() {
			w := map[string]int{"16": 16, "32": 32, "64": 64}[name[len(name)-2:]]
			return knum(int64(w - mbits.Len64(n.k))), true
		}
	case "sort.Slice", "sort.SliceStable":
		v := args[0]
		if i, ok := v.(piface); ok {
			v = i.v
		}
		s, ok := v.(pslice)
		f, ok2 := args[1].(pfunc)
		if !ok || !ok2 || f.fn == nil {
			return nil, false
		}
		e.sortBy(s.ln, func(i, j int) bool { return e.truth(e.call(f.fn, []pv{knum(int64(i)), knum(int64(j))}, f.binds)) }, func(i, j int) { swapCells(s, i, j) })
		return nil, true
	case "sort.Sort", "sort.Stable":
		i, ok := args[0].(piface)
		if !ok || i.t == nil {
			return nil, false
		}
		m := func(n string) *ssa.Function {
			ms := e.P.prog.MethodSets.MethodSet(i.t)
			for k := 0; k < ms.Len(); k++ {
				if ms.At(k).Obj().Name() == n {
					return e.P.prog.MethodValue(ms.At(k))
				}
			}
			e.fail("method %s", n)
			return nil
		}
		n := e.constInt(e.call(m("Len"), []pv{i.v}, nil))
		e.sortBy(n, func(a, b int) bool { return e.truth(e.call(m("Less"), []pv{i.v, knum(int64(a)), knum(int64(b))}, nil)) }, func(a, b int) { e.call(m("Swap"), []pv{i.v, knum(int64(a)), knum(int64(b))}, nil) })
		return nil, true
	case "sort.Ints", "sort.Strings":
		s, ok := args[0].(pslice)
		if !ok {
			return nil, false
		}
		e.sortBy(s.ln, func(i, j int) bool { return e.lessVal(s.a.e[s.off+i].v, s.a.e[s.off+j].v) }, func(i, j int) { swapCells(s, i, j) })
		return nil, true
	case "io.CopyN":
		if s, b := arg(1), e.buffer(args[0]); s != nil && b != nil {
			n := e.constInt(args[2])
			bs, ok := s.take(n)
			if !ok {
				return ptuple{pnum{}, peErr(errT())}, true
			}
			b.add(bs...)
			return ptuple{knum(int64(n)), piface{}}, true
		}
	}
	if strings.HasPrefix(name, "slices.Sort") && len(args) > 0 {
		if s, ok := args[0].(pslice); ok {
			less := func(i, j int) bool { return e.lessVal(s.a.e[s.off+i].v, s.a.e[s.off+j].v) }
			if len(args) == 2 {
				f, ok := args[1].(pfunc)
				if !ok || f.fn == nil {
					return nil, false
				}
				less = func(i, j int) bool {
					return e.truth(e.numop(token.LSS, e.call(f.fn, []pv{s.a.e[s.off+i].v, s.a.e[s.off+j].v}, f.binds).(pnum), pnum{}, types.Typ[types.Bool], types.Typ[types.Int]))
				}
			}
			e.sortBy(s.ln, less, func(i, j int) { swapCells(s, i, j) })
			return nil, true
		}
	}
	s := arg(0)
	if s == nil || sig.Recv() == nil && !strings.HasPrefix(name, "invoke ") {
		return nil, false
	}
	switch fnName(strings.TrimPrefix(name, "invoke ")) {
	case "Seek":
		n, w := e.constInt(args[1]), e.constInt(args[2])
		s.fill()
		switch w {
		case 1:
			n += s.pos
		case 2:
			n += len(s.b)
		}
		if n < 0 {
			return ptuple{pnum{}, peErr(errT())}, true
		}
		s.pos = min(n, len(s.b))
		return ptuple{knum(int64(n)), piface{}}, true
	case "Discard":
		n := e.constInt(args[1])
		if _, ok := s.take(n); !ok {
			return ptuple{pnum{}, peErr(errT())}, true
		}
		return ptuple{knum(int64(n)), piface{}}, true
	case "Buffered":
		if s.buf != nil {
			return pnum{}, true
		}
		return knum(int64(len(s.b) - s.pos)), true
	case "Len":
		return knum(int64(len(s.b) - s.pos)), true
	case "ReadByte":
		b, ok := s.take(1)
		if !ok {
			return ptuple{pnum{}, peErr(errT())}, true
		}
		return ptuple{b[0], piface{}}, true
	}
	e.fail("call of %s on a reader", name)
	return nil, false
}

func swapCells(s pslice, i, j int) {
	x, y := s.a.e[s.off+i], s.a.e[s.off+j]
	x.v, y.v = y.v, x.v
}

func (e *PE) truth(v pv) bool {
	b, ok := v.(bool)
	if !ok && e.unsure() {
		b, ok = e.decide(v)
	}
	if !ok {
		e.fail("control depends on data: %s", pstr(v))
	}
	return b
}

func (e *PE) lessVal(x, y pv) bool {
	if a, ok := x.(string); ok {
		if b, ok := y.(string); ok {
			return a < b
		}
	}
	a, ok1 := x.(pnum)
	b, ok2 := y.(pnum)
	if !ok1 || !ok2 {
		e.fail("order of %s and %s", pstr(x), pstr(y))
	}
	return e.truth(e.numop(token.LSS, a, b, types.Typ[types.Bool], types.Typ[types.Int]))
}

// sortBy sorts by insertion.
func (e *PE) sortBy(n int, less func(i, j int) bool, swap func(i, j int)) {
	for i := 1; i < n; i++ {
		for j := i; j > 0 && less(j, j-1); j-- {
			swap(j, j-1)
		}
	}
}
