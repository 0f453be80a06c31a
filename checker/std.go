package main

import (
	"fmt"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Models of the library functions of other modules the repository calls. Every fallible call has two
// outcomes: success, and failure with a non-nil error (the state then remembers that a step failed).

type extCall struct {
	in   *Interp
	st   *State
	at   ssa.CallInstruction
	c    *ssa.CallCommon
	name string
	args []Val
}

func errVal() Val { return &IfaceV{alts: []IT{{nil, Unk{}}}, nl: lin0} }
func nilErr() Val { return &IfaceV{nl: lin1} }

func (e *extCall) sig() *types.Signature { return e.c.Signature() }

func (e *extCall) one(v Val) []exit { return []exit{{e.st, v}} }

// fail marks a failing outcome of the call.
func (e *extCall) fail(s *State, what string) *State {
	if s.failed == "" {
		s.failed = what + " at " + e.in.P.instrPos(e.at)
		s.failAt = e.at
	}
	return s
}

// withErr gives (vals..., error): success and failure.
func (e *extCall) withErr(what string, ok func(s *State) []Val, bad func(s *State) []Val) []exit {
	var res []exit
	f := e.st.clone()
	if v := ok(e.st); v != nil {
		res = append(res, exit{e.st, tupleOf(append(v, nilErr()))})
	}
	e.fail(f, what)
	if v := bad(f); v != nil {
		res = append(res, exit{f, tupleOf(append(v, errVal()))})
	}
	return res
}

func tupleOf(v []Val) Val {
	if len(v) == 1 {
		return v[0]
	}
	return Tuple(v)
}

func (e *extCall) num(i int) *Lin {
	if n, ok := e.args[i].(Num); ok && n.L != nil {
		return n.L
	}
	return symL(newSym("arg", -INF, INF))
}

// ptr resolves argument i (a pointer or an interface holding one) to a location; nil when unknown.
func (e *extCall) ptr(v Val) (PT, bool) {
	switch x := v.(type) {
	case *PtrV:
		if len(x.alts) == 1 {
			return x.alts[0], true
		}
	case *IfaceV:
		if len(x.alts) == 1 {
			return e.ptr(x.alts[0].v)
		}
	}
	return PT{}, false
}

func (e *extCall) nilArg(i int, what string) bool {
	var nl *Lin
	switch x := e.args[i].(type) {
	case *PtrV:
		nl = x.nl
	case *IfaceV:
		nl = x.nl
	default:
		return true
	}
	d := e.st.isNil(nl)
	e.in.oblig("nil", e.at, d < 0, what+" may be nil")
	if d > 0 {
		return false
	}
	if d == 0 {
		return len(e.st.assume(bNot(boolOfLin(nl)))) > 0
	}
	return true
}

func ghostCell(s *State, p PT, name string) *Lin {
	if n, ok := s.cell(s.obj(p.obj), p.path+name, intT).(Num); ok && n.L != nil {
		return n.L
	}
	return symL(newSym(name, 0, maxLen))
}

func setGhostCell(s *State, p PT, name string, l *Lin) {
	if l == nil {
		l = symL(newSym(name, 0, maxLen))
	}
	s.mut(p.obj).cells[p.path+name] = Num{l}
}

func hasType(v Val, name string) bool {
	switch x := v.(type) {
	case *IfaceV:
		return len(x.alts) == 1 && x.alts[0].t != nil && strings.TrimPrefix(x.alts[0].t.String(), "*") == name
	}
	return false
}

// source finds the position ghost of the reader a bufio.Reader reads from.
func (e *extCall) source(s *State, b PT) (PT, bool) {
	v := s.cell(s.obj(b.obj), b.path+"#src", nil)
	i, ok := v.(*IfaceV)
	if !ok || len(i.alts) != 1 {
		return PT{}, false
	}
	return e.ptr(i.alts[0].v)
}

// consume advances a reader by k bytes; false when impossible.
func (e *extCall) consume(s *State, rd Val, k *Lin) bool {
	p, ok := e.ptr(rd)
	if !ok {
		return true
	}
	o := s.obj(p.obj)
	e.in.touch(s, e.at, o, p.path)
	if hasType(rd, "bufio.Reader") || o.t != nil && o.t.String() == "bufio.Reader" {
		lp := ghostCell(s, p, "#lpos")
		e.in.readEvent(s, e.at, p, lp, k)
		n := addL(lp, k)
		setGhostCell(s, p, "#lpos", n)
		if src, ok := e.source(s, p); ok {
			sz := ghostCell(s, src, "#size")
			if n != nil && !s.addFact(subL(sz, n)) {
				return false
			}
			setGhostCell(s, src, "#pos", symL(newSym("pos", 0, maxLen)))
		}
		return true
	}
	pos := ghostCell(s, p, "#pos")
	n := addL(pos, k)
	setGhostCell(s, p, "#pos", n)
	sz := ghostCell(s, p, "#size")
	return n == nil || s.addFact(subL(sz, n))
}

func (e *extCall) spoil(s *State, rd Val) {
	p, ok := e.ptr(rd)
	if !ok {
		return
	}
	o := s.obj(p.obj)
	if o.t != nil && o.t.String() == "bufio.Reader" {
		setGhostCell(s, p, "#lpos", symL(newSym("pos", 0, maxLen)))
		if src, ok := e.source(s, p); ok {
			setGhostCell(s, src, "#pos", symL(newSym("pos", 0, maxLen)))
		}
		return
	}
	setGhostCell(s, p, "#pos", symL(newSym("pos", 0, maxLen)))
}

// bufWrite appends k bytes to a bytes.Buffer.
func (e *extCall) bufWrite(s *State, w PT, k *Lin) {
	o := s.obj(w.obj)
	if o.input != "" {
		e.in.effect(s, e.at, o, "write to buffer")
	}
	l := ghostCell(s, w, "#len")
	setGhostCell(s, w, "#len", addL(l, k))
}

// addTo appends k bytes to the buffer a writer value leads to, if it leads to buffers.
func (e *extCall) addTo(s *State, w Val, k *Lin) {
	if p, ok := e.ptr(w); ok {
		if o := s.obj(p.obj); o.t != nil && isBuf(subType(o.t, p.path)) {
			e.bufWrite(s, p, k)
		}
		return
	}
	eachObj(w, func(id ObjID) {
		if o := s.obj(id); o.t != nil && isBuf(o.t) {
			if o.input != "" {
				e.in.effect(s, e.at, o, "write to buffer")
			}
			setGhostCell(s, PT{id, ""}, "#len", anyLen())
		}
	})
}

// toBuffer reports writers that are certainly memory buffers: writing to them never fails.
func (e *extCall) toBuffer(w Val) bool {
	p, ok := e.ptr(w)
	if !ok {
		return false
	}
	o := e.st.obj(p.obj)
	return o.t != nil && isBuf(subType(o.t, p.path))
}

// done is the single outcome of a call that cannot fail: the values and a nil error.
func (e *extCall) done(vs []Val) []exit {
	if e.sig().Results().Len() == 1 {
		return e.one(nilErr())
	}
	return e.one(Tuple(append(vs[:len(vs):len(vs)], nilErr())))
}

// writeTo models w.Write(b) for any writer value; k bytes.
func (e *extCall) writeTo(w Val, k *Lin, pre func(*State) []Val) []exit {
	if e.toBuffer(w) {
		e.addTo(e.st, w, k)
		return e.done(append(pre(e.st), nil)[:len(pre(e.st))])
	}
	return e.withErr("write", func(s *State) []Val {
		e.addTo(s, w, k)
		return append(pre(s), nil)[:len(pre(s))]
	}, pre)
}

func isBuf(t types.Type) bool { return t.String() == "bytes.Buffer" || t.String() == "strings.Builder" }

// binSize is the encoded size of a value of a fixed-size type.
func binSize(t types.Type) (int64, bool) {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch u.Kind() {
		case types.Bool, types.Int8, types.Uint8:
			return 1, true
		case types.Int16, types.Uint16:
			return 2, true
		case types.Int32, types.Uint32, types.Float32:
			return 4, true
		case types.Int64, types.Uint64, types.Float64:
			return 8, true
		}
	case *types.Array:
		n, ok := binSize(u.Elem())
		return n * u.Len(), ok
	case *types.Struct:
		s := int64(0)
		for i := 0; i < u.NumFields(); i++ {
			n, ok := binSize(u.Field(i).Type())
			if !ok {
				return 0, false
			}
			s += n
		}
		return s, true
	}
	return 0, false
}

func (in *Interp) extObj(st *State, at ssa.Instruction, t types.Type) *PtrV {
	p, ok := t.Underlying().(*types.Pointer)
	if !ok {
		return &PtrV{nl: lin0}
	}
	id := in.newCell(st, at, "/ext", p.Elem())
	return &PtrV{alts: []PT{{id, ""}}, nl: lin0}
}

func (in *Interp) freshBytes(st *State, at ssa.Instruction, ln *Lin) *SliceV {
	u8 := types.Typ[types.Uint8]
	return in.newArr(st, at, "/bytes", u8, ln, localShape(map[string]Val{"": Num{symL(newSym("byte", 0, 255))}}))
}

func str(ln *Lin) Val { return &StrV{id: symL(newSym("str", 0, INF)), ln: ln} }
func anyLen() *Lin    { return symL(newSym("len", 0, maxLen)) }

func (in *Interp) external(st *State, at ssa.CallInstruction, c *ssa.CallCommon, name string, args []Val) []exit {
	in.ext[name]++
	e := &extCall{in, st, at, c, name, args}
	if in.hooks.ext != nil {
		if r, ok := in.hooks.ext(e); ok {
			return r
		}
	}
	e.readerUse()
	res := e.sig().Results()
	rt := func(i int) types.Type { return res.At(i).Type() }
	none := func(*State) []Val { return []Val{} }
	switch name {
	// errors, formatting, logging
	case "errors.New", "fmt.Errorf":
		return e.one(errVal())
	case "fmt.Sprintf", "fmt.Sprint", "fmt.Sprintln", "strconv.QuoteRune", "strconv.Itoa", "strconv.Quote":
		return e.one(str(anyLen()))
	case "unicode.IsPrint":
		return e.one(opaqueBool("isprint"))
	case "strings.TrimSpace":
		if s, ok := args[0].(*StrV); ok {
			if s.c != nil {
				return e.one(constStr(strings.TrimSpace(*s.c)))
			}
			n := anyLen()
			st.addFact(subL(s.ln, n))
			return e.one(str(n))
		}
	// numbers
	case "math.Floor", "math.Log2", "math.Pow", "math.Ceil", "math.Log":
		return e.one(Flt{})
	case "(encoding/binary.bigEndian).Uint16", "(encoding/binary.bigEndian).Uint32", "(encoding/binary.bigEndian).Uint64",
		"(encoding/binary.bigEndian).PutUint16", "(encoding/binary.bigEndian).PutUint32", "(encoding/binary.bigEndian).PutUint64",
		"(encoding/binary.littleEndian).Uint16", "(encoding/binary.littleEndian).Uint32",
		"(encoding/binary.littleEndian).PutUint16", "(encoding/binary.littleEndian).PutUint32":
		n := int64(2)
		if strings.HasSuffix(name, "32") {
			n = 4
		} else if strings.HasSuffix(name, "64") {
			n = 8
		}
		b, ok := args[1].(*SliceV)
		if !ok {
			break
		}
		if st = in.bounds(st, at, cst(n-1), b.ln, "byte order access"); st == nil {
			return nil
		}
		if strings.Contains(name, "Put") {
			sh := localShape(map[string]Val{"": Num{symL(newSym("byte", 0, 255))}})
			in.foldElems(st, at, b, []*Shape{sh}, types.Typ[types.Uint8], "put")
			return []exit{{st, Tuple{}}}
		}
		v := freshVal(rt(0), "be", "")
		if in.hooks.decode != nil {
			in.hooks.decode(e, st, b, n, v, name)
		}
		return []exit{{st, v}}
	// buffered reading
	case "bufio.NewReader":
		if !e.nilArg(0, "reader") {
			return nil
		}
		p := in.extObj(st, at, rt(0))
		o := st.mut(p.alts[0].obj)
		o.cells["#src"] = args[0]
		lp := anyLen()
		if src, ok := e.ptr(args[0]); ok {
			lp = ghostCell(st, src, "#pos")
		}
		o.cells["#lpos"] = Num{lp}
		return e.one(p)
	case "(*bufio.Reader).Buffered":
		if !e.nilArg(0, "reader") {
			return nil
		}
		if p, ok := e.ptr(args[0]); ok {
			if src, ok := e.source(st, p); ok {
				d := subL(ghostCell(st, src, "#pos"), ghostCell(st, p, "#lpos"))
				if d != nil && st.addFact(d) {
					return e.one(Num{d})
				}
			}
		}
		return e.one(Num{anyLen()})
	case "(*bufio.Reader).Discard":
		if !e.nilArg(0, "reader") {
			return nil
		}
		k := e.num(1)
		return e.withErr("discard", func(s *State) []Val {
			if !s.addFact(k) || !e.consume(s, args[0], k) {
				return nil
			}
			return []Val{Num{k}}
		}, func(s *State) []Val {
			e.spoil(s, args[0])
			return []Val{Num{anyLen()}}
		})
	case "encoding/binary.Read":
		return e.binRead()
	case "encoding/binary.Write":
		return e.binWrite()
	case "io.ReadFull":
		b, ok := args[1].(*SliceV)
		if !ok {
			break
		}
		return e.withErr("read", func(s *State) []Val {
			lp := in.readPos(e, s)
			if !e.consume(s, args[0], b.ln) {
				return nil
			}
			by := newSym("byte", 0, 255)
			if n, ok := b.ln.constVal(); ok {
				in.readField(e, s, lp, n, Num{symL(by)})
			}
			sh := localShape(map[string]Val{"": Num{symL(by)}})
			in.foldElems(s, at, b, []*Shape{sh}, types.Typ[types.Uint8], "read")
			return []Val{Num{b.ln}}
		}, func(s *State) []Val {
			e.spoil(s, args[0])
			return []Val{Num{anyLen()}}
		})
	case "io.CopyN", "io.Copy":
		if !e.nilArg(0, "writer") || !e.nilArg(1, "reader") {
			return nil
		}
		var k *Lin
		if name == "io.CopyN" {
			k = e.num(2)
			if !st.cons.prove(k) {
				k = anyLen()
			}
		} else {
			k = anyLen()
		}
		return e.withErr("copy", func(s *State) []Val {
			if !e.consume(s, args[1], k) {
				return nil
			}
			e.addTo(s, args[0], k)
			return []Val{Num{k}}
		}, func(s *State) []Val {
			e.spoil(s, args[1])
			e.addTo(s, args[0], anyLen())
			return []Val{Num{anyLen()}}
		})
	case "(*os.File).Seek", "(*bytes.Reader).Seek", "invoke (io.Seeker).Seek":
		off, wh := e.num(1), e.num(2)
		return e.withErr("seek", func(s *State) []Val {
			p, ok := e.ptr(args[0])
			if !ok {
				return []Val{Num{anyLen()}}
			}
			in.touch(s, at, s.obj(p.obj), p.path)
			if w, ok := wh.constVal(); ok && w == 0 {
				if !s.addFact(off) {
					return nil
				}
				setGhostCell(s, p, "#pos", off)
				return []Val{Num{off}}
			} else if z, ok2 := off.constVal(); ok && w == 1 && ok2 && z == 0 {
				return []Val{Num{ghostCell(s, p, "#pos")}}
			}
			n := anyLen()
			setGhostCell(s, p, "#pos", n)
			return []Val{Num{n}}
		}, func(s *State) []Val {
			if p, ok := e.ptr(args[0]); ok {
				setGhostCell(s, p, "#pos", anyLen())
			}
			return []Val{Num{symL(newSym("pos", -INF, INF))}}
		})
	case "(*os.File).Read", "(*bytes.Reader).Read", "invoke (io.Reader).Read":
		b, ok := args[1].(*SliceV)
		if !ok {
			break
		}
		return e.withErr("read", func(s *State) []Val {
			n := anyLen()
			s.addFact(subL(b.ln, n))
			if !e.consume(s, args[0], n) {
				return nil
			}
			sh := localShape(map[string]Val{"": Num{symL(newSym("byte", 0, 255))}})
			in.foldElems(s, at, b, []*Shape{sh}, types.Typ[types.Uint8], "read")
			return []Val{Num{n}}
		}, func(s *State) []Val {
			e.spoil(s, args[0])
			n := anyLen()
			s.addFact(subL(b.ln, n))
			return []Val{Num{n}}
		})
	// in-memory buffers
	case "bytes.NewReader":
		p := in.extObj(st, at, rt(0))
		if b, ok := args[0].(*SliceV); ok {
			o := st.mut(p.alts[0].obj)
			o.cells["#pos"] = Num{lin0}
			o.cells["#size"] = Num{b.ln}
		}
		return e.one(p)
	case "bytes.NewBuffer":
		p := in.extObj(st, at, rt(0))
		if b, ok := args[0].(*SliceV); ok {
			st.mut(p.alts[0].obj).cells["#len"] = Num{b.ln}
		}
		return e.one(p)
	case "(*bytes.Buffer).Len", "(*bytes.Buffer).Bytes", "(*bytes.Buffer).String", "(*bytes.Buffer).Reset",
		"(*strings.Builder).Len", "(*strings.Builder).String", "(*strings.Builder).Reset":
		if !strings.HasSuffix(name, "String") && !e.nilArg(0, "buffer") {
			return nil
		}
		p, ok := e.ptr(args[0])
		ln := anyLen()
		if ok {
			ln = ghostCell(st, p, "#len")
		}
		switch {
		case strings.HasSuffix(name, ".Len"):
			return e.one(Num{ln})
		case strings.HasSuffix(name, ".String"):
			return e.one(str(ln))
		case strings.HasSuffix(name, ".Reset"):
			if ok {
				if o := st.obj(p.obj); o.input != "" {
					in.effect(st, at, o, "reset")
				}
				setGhostCell(st, p, "#len", lin0)
			}
			return e.one(Tuple{})
		}
		b := in.freshBytes(st, at, ln)
		b.nl = symL(newSym("nil?", 0, 1))
		b.cp = addL(ln, anyLen())
		if st.cons.prove(addK(ln, -1)) {
			b.nl = lin0
		}
		return e.one(b)
	case "(*bytes.Buffer).WriteRune", "(*bytes.Buffer).WriteString", "(*bytes.Buffer).WriteByte",
		"(*strings.Builder).WriteRune", "(*strings.Builder).WriteString", "(*strings.Builder).WriteByte":
		// documented to return a nil error always
		if !e.nilArg(0, "buffer") {
			return nil
		}
		k := symL(newSym("n", 0, 4))
		if s, ok := args[1].(*StrV); ok {
			k = s.ln
		}
		if strings.HasSuffix(name, "WriteByte") {
			k = lin1
		}
		if p, ok := e.ptr(args[0]); ok {
			e.bufWrite(st, p, k)
		}
		if res.Len() == 2 {
			return e.one(Tuple{Num{k}, nilErr()})
		}
		return e.one(nilErr())
	case "(*bytes.Buffer).Write", "(*os.File).Write", "invoke (io.Writer).Write", "(*strings.Builder).Write":
		if name != "invoke (io.Writer).Write" && !e.nilArg(0, "writer") {
			return nil
		}
		b, ok := args[1].(*SliceV)
		if !ok {
			break
		}
		if e.toBuffer(args[0]) {
			e.addTo(st, args[0], b.ln)
			return e.done([]Val{Num{b.ln}})
		}
		return e.withErr("write", func(s *State) []Val {
			e.addTo(s, args[0], b.ln)
			return []Val{Num{b.ln}}
		}, func(s *State) []Val {
			n := anyLen()
			s.addFact(subL(b.ln, n))
			e.addTo(s, args[0], n)
			return []Val{Num{n}}
		})
	case "(*bytes.Buffer).WriteTo":
		if e.toBuffer(args[1]) {
			l := anyLen()
			if p, ok := e.ptr(args[0]); ok {
				l = ghostCell(st, p, "#len")
				setGhostCell(st, p, "#len", lin0)
			}
			e.addTo(st, args[1], l)
			return e.done([]Val{Num{l}})
		}
		return e.withErr("write", func(s *State) []Val {
			l := anyLen()
			if p, ok := e.ptr(args[0]); ok {
				l = ghostCell(s, p, "#len")
				setGhostCell(s, p, "#len", lin0)
			}
			e.addTo(s, args[1], l)
			return []Val{Num{l}}
		}, func(s *State) []Val {
			if p, ok := e.ptr(args[0]); ok {
				setGhostCell(s, p, "#len", anyLen())
			}
			e.addTo(s, args[1], anyLen())
			return []Val{Num{anyLen()}}
		})
	// files
	case "os.Open", "os.Create", "os.OpenFile":
		mode := "r"
		if name != "os.Open" {
			mode = "w"
		}
		return e.withErr("open", func(s *State) []Val {
			p := in.extObj(s, at, rt(0))
			o := s.mut(p.alts[0].obj)
			o.cells["#pos"] = Num{lin0}
			sz := newSym("size", 0, maxLen)
			symTab[sz].fixed = true
			o.cells["#size"] = Num{symL(sz)}
			s.setGhost(fmt.Sprintf("file:%d", p.alts[0].obj), "open"+mode)
			return []Val{p}
		}, func(s *State) []Val { return []Val{&PtrV{nl: lin1}} })
	case "(*os.File).Close":
		if !e.nilArg(0, "file") {
			return nil
		}
		k, was := "", ""
		if p, ok := e.ptr(args[0]); ok {
			k = fmt.Sprintf("file:%d", p.obj)
			was = st.ghost[k]
			if st.obj(p.obj).input != "" {
				in.event("closeinput", at, st.obj(p.obj).input)
			}
		}
		in.oblig("file", at, strings.HasPrefix(was, "open"), "close of a file that is not open")
		st.setGhost(k, "closed")
		if was == "openr" {
			// nothing is lost when closing a file that was only read fails
			f := st.clone()
			return []exit{{st, nilErr()}, {f, errVal()}}
		}
		return e.withErr("close", none, none)
	case "invoke (io.Closer).Close":
		if p, ok := e.ptr(args[0]); ok && st.obj(p.obj).input != "" {
			in.event("closeinput", at, st.obj(p.obj).input)
		} else {
			in.event("closeinput", at, "unknown")
		}
		return e.withErr("close", none, none)
	// text
	case "golang.org/x/text/encoding/unicode.UTF16", "golang.org/x/text/encoding/unicode.UTF32", "golang.org/x/text/encoding/unicode/utf32.UTF32":
		return e.one(&IfaceV{alts: []IT{{nil, Unk{}}}, nl: lin0})
	case "(*golang.org/x/text/encoding/charmap.Charmap).NewDecoder", "(*golang.org/x/text/encoding/charmap.Charmap).NewEncoder",
		"invoke (golang.org/x/text/encoding.Encoding).NewDecoder", "invoke (golang.org/x/text/encoding.Encoding).NewEncoder":
		return e.one(in.extObj(st, at, rt(0)))
	case "(*golang.org/x/text/encoding.Decoder).Bytes", "(*golang.org/x/text/encoding.Encoder).Bytes":
		if !e.nilArg(0, "decoder") {
			return nil
		}
		f := st.clone()
		return []exit{{st, Tuple{in.freshBytes(st, at, anyLen()), nilErr()}},
			{f, Tuple{&SliceV{off: lin0, ln: lin0, cp: lin0, nl: lin1}, errVal()}}}
	case "(*golang.org/x/text/encoding/charmap.Charmap).DecodeByte":
		return e.one(Num{symL(newSym("rune", 0, 0x10FFFF))})
	case "unicode/utf16.Decode", "unicode/utf16.Encode":
		b, ok := args[0].(*SliceV)
		if !ok {
			break
		}
		n := anyLen()
		hi := int64(65535)
		if strings.HasSuffix(name, "Decode") {
			st.addFact(subL(b.ln, n))
			hi = 0x10FFFF
		} else {
			st.addFact(subL(n, b.ln))
			st.addFact(comb(2, b.ln, -1, n))
		}
		el := rt(0).Underlying().(*types.Slice).Elem()
		return e.one(in.newArr(st, at, "/utf", el, n, localShape(map[string]Val{"": Num{symL(newSym("unit", 0, hi))}})))
	case "unicode/utf8.DecodeRune":
		n := symL(newSym("size", 0, 4))
		if b, ok := args[0].(*SliceV); ok {
			st.addFact(subL(b.ln, n))
		}
		return e.one(Tuple{Num{symL(newSym("rune", 0, 0x10FFFF))}, Num{n}})
	case "sort.Slice", "sort.SliceStable":
		return e.sortSlice()
	}
	if strings.HasPrefix(name, "github.com/sirupsen/logrus.") && res.Len() == 0 {
		return e.one(Tuple{})
	}
	if strings.HasSuffix(name, ".init") && res.Len() == 0 {
		return e.one(Tuple{})
	}
	if r, ok := e.pureStd(); ok {
		return r
	}
	if !in.cli {
		in.oblig("unmodelled", at, false, "call of "+name+", which the analysis has no model for")
	}
	return e.generic()
}

// generic gives an arbitrary result; a trailing error may be non-nil.
func (e *extCall) generic() []exit {
	res := e.sig().Results()
	if res.Len() == 0 {
		return e.one(Tuple{})
	}
	mk := func() []Val {
		var v []Val
		for i := 0; i < res.Len(); i++ {
			v = append(v, freshVal(res.At(i).Type(), "ext", ""))
		}
		return v
	}
	if res.At(res.Len()-1).Type().String() == "error" {
		return e.withErr(e.name, func(*State) []Val { v := mk(); return v[:len(v)-1] }, func(*State) []Val { v := mk(); return v[:len(v)-1] })
	}
	return e.one(tupleOf(mk()))
}

func (e *extCall) binRead() []exit {
	d, ok := e.args[2].(*IfaceV)
	if !ok || len(d.alts) != 1 || d.alts[0].t == nil {
		e.in.oblig("unmodelled", e.at, false, "binary.Read into an unknown value")
		return e.generic()
	}
	if !e.nilArg(0, "reader") {
		return nil
	}
	pt, ok := d.alts[0].t.Underlying().(*types.Pointer)
	if !ok {
		e.in.oblig("unmodelled", e.at, false, "binary.Read into "+d.alts[0].t.String())
		return e.generic()
	}
	n, ok := binSize(pt.Elem())
	if !ok {
		e.in.oblig("unmodelled", e.at, false, "binary.Read into "+d.alts[0].t.String())
		return e.generic()
	}
	return e.withErr("read", func(s *State) []Val {
		lp := e.in.readPos(e, s)
		if !e.consume(s, e.args[0], cst(n)) {
			return nil
		}
		v := freshVal(pt.Elem(), "read", "")
		e.in.readField(e, s, lp, n, v)
		if p, ok := e.ptr(d.alts[0].v); ok {
			e.in.effect(s, e.at, s.obj(p.obj), p.path)
			if e.in.hooks.stored != nil {
				e.in.hooks.stored(e.in, s, e.at, p, pt.Elem(), v)
			}
			s.store(p, pt.Elem(), v)
		}
		return []Val{}
	}, func(s *State) []Val {
		e.spoil(s, e.args[0])
		return []Val{}
	})
}

func (e *extCall) binWrite() []exit {
	d, ok := e.args[2].(*IfaceV)
	if !ok || len(d.alts) != 1 || d.alts[0].t == nil {
		e.in.oblig("unmodelled", e.at, false, "binary.Write of an unknown value")
		return e.generic()
	}
	if !e.nilArg(0, "writer") {
		return nil
	}
	t := d.alts[0].t
	v := d.alts[0].v
	var k *Lin
	if n, ok := binSize(t); ok {
		k = cst(n)
	} else if sl, ok := t.Underlying().(*types.Slice); ok {
		if n, ok := binSize(sl.Elem()); ok {
			if sv, ok := v.(*SliceV); ok {
				k = mulK(sv.ln, n)
			}
		}
	}
	if k == nil {
		e.in.oblig("unmodelled", e.at, false, "binary.Write of "+t.String())
		return e.generic()
	}
	if e.toBuffer(e.args[0]) {
		p, _ := e.ptr(e.args[0])
		e.in.writeField(e, e.st, p, k, v, t)
		e.bufWrite(e.st, p, k)
		return e.done(nil)
	}
	return e.withErr("write", func(s *State) []Val {
		if p, ok := e.ptr(e.args[0]); ok {
			if o := s.obj(p.obj); o.t != nil && isBuf(subType(o.t, p.path)) {
				e.in.writeField(e, s, p, k, v, t)
				e.bufWrite(s, p, k)
			}
		}
		return []Val{}
	}, func(s *State) []Val { return []Val{} })
}

func (e *extCall) sortSlice() []exit {
	d, ok := e.args[0].(*IfaceV)
	if !ok || len(d.alts) != 1 {
		return e.generic()
	}
	sl, ok := d.alts[0].v.(*SliceV)
	less, ok2 := e.args[1].(*FuncV)
	if !ok || !ok2 || less.fn == nil {
		return e.generic()
	}
	el := d.alts[0].t.Underlying().(*types.Slice).Elem()
	in := e.in
	st := e.st
	// the elements are permuted
	for _, id := range sl.backs {
		o := st.obj(id)
		in.effect(st, e.at, o, "sort")
		if len(o.elems) > 0 {
			st.mut(id).elems = nil
		}
		if o.kind == okCell {
			sh := in.elemShapes(st, sl, el)
			in.foldElems(st, e.at, sl, sh, el, "sort")
		}
	}
	// the comparison is called on arbitrary positions
	probe := st.clone()
	i, j := symL(newSym("i", 0, maxLen)), symL(newSym("j", 0, maxLen))
	if probe.addFact(addK(subL(sl.ln, i), -1)) && probe.addFact(addK(subL(sl.ln, j), -1)) {
		in.call(probe, less.fn, []Val{Num{i}, Num{j}}, less.binds, e.at)
	}
	return []exit{{st, Tuple{}}}
}

// touch records that the source of a font is used.
func (in *Interp) touch(st *State, at ssa.Instruction, o *Obj, path string) {
	if o.input != "" {
		in.event("source", at, o.input)
	}
}

// readerUse records reads and seeks of a reader that belongs to the font or whose origin is not known.
func (e *extCall) readerUse() {
	i := -1
	switch e.name {
	case "io.Copy", "io.CopyN", "io.CopyBuffer":
		i = 1
	case "io.ReadFull", "io.ReadAll", "io.ReadAtLeast", "encoding/binary.Read", "io/ioutil.ReadAll", "io.NewSectionReader":
		i = 0
	default:
		if e.sig().Recv() == nil {
			return
		}
		j := strings.LastIndexByte(e.name, '.')
		switch e.name[j+1:] {
		case "Seek", "Read", "ReadAt", "ReadByte", "ReadRune", "ReadBytes", "ReadString", "UnreadByte", "Discard", "Peek":
			i = 0
		case "WriteTo":
			if !strings.Contains(e.name, "bytes.Buffer") {
				i = 0
			}
		case "ReadFrom":
			i = 1
		}
	}
	if i < 0 || i >= len(e.args) {
		return
	}
	if p, ok := e.ptr(e.args[i]); ok {
		if o := e.st.obj(p.obj); o.input == "" || o.t != nil && isBuf(subType(o.t, p.path)) {
			return
		}
		e.in.touch(e.st, e.at, e.st.obj(p.obj), p.path)
		return
	}
	e.in.event("source", e.at, "a reader that may be the source")
}

// sizeBase lists lengths of data that is already in memory.
func (in *Interp) sizeBase(st *State) []*Lin {
	var r []*Lin
	seen := map[string]bool{}
	add := func(v Val) {
		var l *Lin
		switch x := v.(type) {
		case *SliceV:
			l = x.ln
		case *StrV:
			l = x.ln
		case *MapV:
			if len(x.objs) == 1 {
				l = st.obj(x.objs[0]).ln
			}
		}
		if l != nil && !l.isConst() && !seen[l.key()] {
			seen[l.key()] = true
			r = append(r, l)
		}
	}
	for _, v := range st.regs {
		add(v)
	}
	for _, o := range st.heap {
		if o.kind == okCell {
			for _, v := range o.cells {
				add(v)
			}
		}
		if o.kind == okMap && o.ln != nil {
			add(&MapV{objs: []ObjID{o.id}})
		}
	}
	for f := in.fr; f != nil; f = f.parent {
		for _, v := range f.callerRegs {
			add(v)
		}
	}
	return r
}

// hooks for layout rules; see rule files.
func (in *Interp) readPos(e *extCall, s *State) *Lin {
	if p, ok := e.ptr(e.args[0]); ok {
		return ghostCell(s, p, "#lpos")
	}
	return nil
}

func (in *Interp) readField(e *extCall, s *State, lp *Lin, n int64, v Val) {
	if in.hooks.readField != nil {
		in.hooks.readField(e, s, lp, n, v)
	}
}

func (in *Interp) writeField(e *extCall, s *State, p PT, k *Lin, v Val, t types.Type) {
	if in.hooks.writeField != nil {
		in.hooks.writeField(e, s, p, k, v, t)
	}
}

func (in *Interp) readEvent(s *State, at ssa.Instruction, p PT, lp, k *Lin) {
	if in.hooks.read != nil {
		in.hooks.read(in, s, at, p, lp, k)
	}
}

// pkgOfCall is the import path of a called function given by its full name.
func pkgOfCall(name string) string {
	n := strings.TrimPrefix(strings.TrimLeft(name, "("), "*")
	if i := strings.IndexByte(n, '['); i >= 0 {
		n = n[:i]
	}
	slash := strings.LastIndexByte(n, '/')
	if i := strings.IndexByte(n[slash+1:], '.'); i >= 0 {
		return n[:slash+1+i]
	}
	return n
}

// packages whose functions neither keep nor change what they are given (sorting apart) and return whatever the
// arguments are, except the functions listed in panickyStd
var pureStdPkgs = map[string]bool{"strings": true, "bytes": true, "strconv": true, "unicode": true, "unicode/utf8": true,
	"unicode/utf16": true, "math": true, "math/bits": true, "errors": true, "fmt": true, "sort": true, "slices": true,
	"maps": true, "cmp": true, "path": true, "path/filepath": true, "encoding/hex": true, "hash/crc32": true}

var panickyStd = []string{"strings.Repeat", "bytes.Repeat", "math/bits.Div", "math/bits.Rem", "slices.Max", "slices.Min",
	"slices.Insert", "slices.Delete", "slices.Replace", "slices.Grow", "slices.Chunk", "slices.Repeat", "strings.NewReplacer",
	"bytes.Buffer).Grow", "strings.Builder).Grow", "bytes.Buffer).Truncate"}

func (e *extCall) pureStd() ([]exit, bool) {
	in, st, name := e.in, e.st, e.name
	if !pureStdPkgs[pkgOfCall(name)] {
		return nil, false
	}
	for _, p := range panickyStd {
		if strings.Contains(name, p) {
			return nil, false
		}
	}
	ps := e.sig().Params()
	off := len(e.args) - ps.Len()
	mutates := strings.HasPrefix(name, "sort.") && !strings.HasPrefix(name, "sort.Search") ||
		strings.HasPrefix(name, "slices.Sort") || strings.HasPrefix(name, "slices.Reverse") || strings.HasPrefix(name, "slices.Compact")
	for i, a := range e.args {
		if iv, ok := a.(*IfaceV); ok && len(iv.alts) == 1 {
			a = iv.alts[0].v
		}
		switch x := a.(type) {
		case *SliceV:
			for _, id := range x.backs {
				o := st.obj(id)
				if !mutates {
					continue
				}
				in.effect(st, e.at, o, "sort")
				if len(o.elems) > 0 {
					st.mut(id).elems = nil
				}
				if o.kind == okCell {
					if arr, ok := o.t.Underlying().(*types.Array); ok {
						in.foldElems(st, e.at, x, in.elemShapes(st, x, arr.Elem()), arr.Elem(), "sort")
					}
				}
			}
		case *PtrV:
			// methods of buffers and builders that have no model of their own change their length
			if i == 0 && off == 1 && strings.HasPrefix(name, "(") {
				for _, p := range x.alts {
					o := st.obj(p.obj)
					if o.t != nil && isBuf(subType(o.t, p.path)) {
						setGhostCell(st, p, "#len", anyLen())
						if o.input != "" {
							in.effect(st, e.at, o, "buffer operation")
						}
					}
				}
			}
		case *FuncV:
			if x.fn == nil {
				continue
			}
			probe := st.clone()
			var args []Val
			for j := 0; j < x.fn.Signature.Params().Len(); j++ {
				args = append(args, in.callbackArg(probe, e, x.fn.Signature.Params().At(j).Type()))
			}
			if name == "sort.Search" && len(args) == 1 {
				if n, ok := args[0].(Num); ok {
					probe.addFact(n.L)
					if !probe.addFact(addK(subL(e.num(0), n.L), -1)) {
						continue
					}
				}
			}
			in.call(probe, x.fn, args, x.binds, e.at)
		}
	}
	if name == "sort.Search" {
		n := symL(newSym("found", 0, maxLen))
		if st.addFact(subL(e.num(0), n)) {
			return e.one(Num{n}), true
		}
	}
	return e.generic(), true
}

// callbackArg is what a standard function passes to a callback: an element of a slice argument of that type, or
// anything.
func (in *Interp) callbackArg(st *State, c *extCall, t types.Type) Val {
	for _, a := range c.args {
		sl, ok := a.(*SliceV)
		if !ok {
			continue
		}
		sh := in.elemShapes(st, sl, t)
		if len(sh) == 0 {
			continue
		}
		cells := st.instantiate(sh[0])
		good := true
		for _, l := range leaves(t) {
			if _, ok := cells[l.path]; !ok {
				good = false
			}
		}
		if good && len(sh) == 1 {
			return gather(cells, t, "")
		}
	}
	return freshVal(t, "callback", "")
}
