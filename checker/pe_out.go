package main

import (
	"fmt"
	"go/types"
	"sort"
	"strings"
	"sync"
	"sync/atomic"

	"golang.org/x/tools/go/ssa"
)

// What operations on a font of some shape make: fonts, and the files that are written.

type peOut struct {
	s      *fontShape
	f      *peFont
	op     string // what was done
	font   pv     // the font that is written
	first  int    // number of glyphs that are left; -1: all
	keep   []int  // glyphs that were asked for; nil: all
	b      []pv   // the file
	err    bool   // an error was returned instead
	msg    string // it could not be followed
	pruned map[string]bool
}

func (o *peOut) name() string { return o.s.name + ": " + o.op }

type fontOp struct {
	name  string
	apply func(e *PE, font pv) (res pv, isErr bool)
	first int
	keep  []int
	prune []string
}

// method calls a method of Font and splits the results into the font and whether there is an error.
func (e *PE) method(name string, font pv, args ...pv) (pv, bool) {
	fn := fontMethod(e.P, name)
	if fn == nil {
		e.fail("%s is not found", name)
	}
	r := e.call(fn, append([]pv{font}, args...), nil)
	t, ok := r.(ptuple)
	if !ok {
		t = ptuple{nil, r}
	}
	er, ok := t[len(t)-1].(piface)
	if !ok {
		e.fail("results of %s", name)
	}
	return t[0], er.t != nil
}

func intSlice(is []int) pslice {
	var b []pv
	for _, i := range is {
		b = append(b, knum(int64(i)))
	}
	return mkBytes(b)
}

func opFirst(n int) fontOp {
	return fontOp{name: fmt.Sprintf("SubsetFirst(%d)", n), first: n, apply: func(e *PE, f pv) (pv, bool) { return e.method("SubsetFirst", f, knum(int64(n))) }}
}

func opKeep(is ...int) fontOp {
	return fontOp{name: fmt.Sprintf("SubsetKeepIndices(%v)", is), first: -1, keep: is, apply: func(e *PE, f pv) (pv, bool) { return e.method("SubsetKeepIndices", f, intSlice(is)) }}
}

func opPrune(t string) fontOp {
	return fontOp{name: "PruneTables(" + t + ")", first: -1, apply: func(e *PE, f pv) (pv, bool) {
		a := mkBytes([]pv{t})
		_, er := e.method("PruneTables", f, a)
		return f, er
	}, prune: []string{t}}
}

func opOptimize() fontOp {
	return fontOp{name: "Optimize", first: -1, apply: func(e *PE, f pv) (pv, bool) {
		_, er := e.method("Optimize", f)
		return f, er
	}}
}

// writeTo evaluates Write.
func (e *PE) writeTo(font pv) ([]pv, bool) {
	bt := bufferType(e.P)
	w := pptr{&pcell{&pbuf{}}}
	_, er := e.method("Write", font, piface{bt, w})
	return e.buffer(w).all(), er
}

func bufferType(P *Prog) types.Type {
	if p := P.prog.ImportedPackage("bytes"); p != nil {
		if t := p.Type("Buffer"); t != nil {
			return types.NewPointer(t.Type())
		}
	}
	return sourceType
}

// produce follows operations, one after the other, and then writing.
func (e *PE) produce(s *fontShape, ops ...fontOp) *peOut {
	f := s.build()
	o := &peOut{s: s, f: f, first: -1, pruned: map[string]bool{}}
	var names []string
	for _, op := range ops {
		names = append(names, op.name)
		if op.first >= 0 && (o.first < 0 || op.first < o.first) && op.first < len(s.glyphs) {
			o.first = op.first
		}
		if op.keep != nil {
			o.keep = op.keep
		}
		for _, t := range op.prune {
			if t == "cmap" || t == "post" || t == "name" {
				o.pruned[t] = true
			}
		}
	}
	names = append(names, "Write")
	o.op = strings.Join(names, ", ")
	e.choose = func(string) (bool, bool) { return false, true }
	font, msg := e.parseWith(f)
	if msg != "" {
		o.msg = "parsing: " + msg
		return o
	}
	e.steps, e.depth = 0, 0
	o.msg = e.run(func() {
		for _, op := range ops {
			r, er := op.apply(e, font)
			if er {
				o.err = true
				return
			}
			font = r
		}
		o.font = font
		b, er := e.writeTo(font)
		o.b, o.err = b, er
	})
	return o
}

type outRec struct {
	tag string
	sum pnum
	off,
	ln int
	at int // place of the record
}

// num is the big-endian number of n bytes at a place.
func (e *PE) num(b []pv, at, n int) (pnum, bool) {
	if at < 0 || at+n > len(b) {
		return pnum{}, false
	}
	r := pnum{}
	for i := 0; i < n; i++ {
		x, ok := b[at+i].(pnum)
		if !ok || x.term != "" {
			return pnum{}, false
		}
		r = e.add(r, e.mulK(x, 1<<uint(8*(n-1-i))), false)
	}
	return e.fold(r, b[at:at+n]), true
}

// cnum is a known number of n bytes at a place.
func (e *PE) cnum(b []pv, at, n int) (int, bool) {
	r, ok := e.num(b, at, n)
	return int(r.k), ok && r.isConst()
}

// directory reads the header and the table records.
func (e *PE) directory(b []pv) (recs []outRec, why string) {
	n, ok := e.cnum(b, 4, 2)
	if !ok {
		return nil, "the number of tables is not determined"
	}
	for i := 0; i < n; i++ {
		at := 12 + 16*i
		var r outRec
		r.at = at
		for j := 0; j < 4; j++ {
			c, ok := e.cnum(b, at+j, 1)
			if !ok {
				return nil, fmt.Sprintf("record %d has no known tag", i)
			}
			r.tag += string(rune(c))
		}
		var ok1, ok2, ok3 bool
		r.sum, ok1 = e.num(b, at+4, 4)
		r.off, ok2 = e.cnum(b, at+8, 4)
		r.ln, ok3 = e.cnum(b, at+12, 4)
		if !ok1 || !ok2 || !ok3 {
			return nil, fmt.Sprintf("record %d (%s) has no known offset and length", i, r.tag)
		}
		recs = append(recs, r)
	}
	return recs, ""
}

func (e *PE) table(b []pv, tag string) ([]pv, bool) {
	recs, why := e.directory(b)
	if why != "" {
		return nil, false
	}
	for _, r := range recs {
		if r.tag == tag || strings.TrimSpace(r.tag) == tag {
			if r.off+r.ln > len(b) {
				return nil, false
			}
			return b[r.off : r.off+r.ln], true
		}
	}
	return nil, false
}

func mod32(n pnum) pnum {
	r := pnum{k: n.k & 0xffffffff, t: map[int]uint64{}}
	for a, c := range n.t {
		if c &= 0xffffffff; c != 0 {
			r.t[a] = c
		}
	}
	return r
}

// sumWords is the sum of the big-endian words of bytes, the last one filled up with zeros.
func (e *PE) sumWords(b []pv) (pnum, bool) {
	r := pnum{}
	for i := 0; i < len(b); i += 4 {
		w := append([]pv(nil), b[i:min(i+4, len(b))]...)
		for len(w) < 4 {
			w = append(w, pnum{})
		}
		x, ok := e.num(w, 0, 4)
		if !ok {
			return r, false
		}
		r = mod32(e.add(r, x, false))
	}
	return mod32(r), true
}

// expand replaces the bytes of numbers as far as whole numbers are added.
func sameForm(a, b pnum) bool { return a.term == "" && b.term == "" && a.String() == b.String() }

func zeroed(b []pv, at, n int) []pv {
	r := append([]pv(nil), b...)
	for i := at; i < at+n && i < len(r); i++ {
		r[i] = pnum{}
	}
	return r
}

// atomsOf lists the unknown bytes of the font in some bytes.
func (e *PE) atomsOf(b []pv) []int {
	set := map[int]bool{}
	var walk func(n pnum, d int)
	walk = func(n pnum, d int) {
		for a := range n.t {
			if x, ok := e.derived[a]; ok && d < 20 {
				walk(x.form, d+1)
				continue
			}
			set[a] = true
		}
	}
	for _, v := range b {
		if n, ok := v.(pnum); ok {
			walk(n, 0)
		}
	}
	var r []int
	for a := range set {
		r = append(r, a)
	}
	sort.Ints(r)
	return r
}

func sameBytes(a, b []pv) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if pstr(a[i]) != pstr(b[i]) {
			return false
		}
	}
	return true
}

// forEachOut follows all the operations for all shapes; visit is called for one at a time.
func forEachOut(P *Prog, r *Report, pick func(s *fontShape) [][]fontOp, visit func(e *PE, o *peOut)) int {
	return forEachOutPar(P, r, pick, func(e *PE, o *peOut) func() { return func() { visit(e, o) } })
}

// forEachOutPar does the same; only what visit returns is called for one at a time.
func forEachOutPar(P *Prog, r *Report, pick func(s *fontShape) [][]fontOp, visit func(e *PE, o *peOut) func()) int {
	return forShapes(P, r, shapes(), pick, visit)
}

func forShapes(P *Prog, r *Report, all []*fontShape, pick func(s *fontShape) [][]fontOp, visit func(e *PE, o *peOut) func()) int {
	var mu sync.Mutex
	n := 0
	inParallel(len(all), func() func(int) {
		mu.Lock()
		e := newInitPE(P, r)
		mu.Unlock()
		return func(i int) {
			for _, ops := range pick(all[i]) {
				e.derived, e.derivedBy, e.nomTerm = nil, nil, nil
				o := e.produce(all[i], ops...)
				var then func()
				if o.msg == "" {
					then = visit(e, o)
				}
				mu.Lock()
				n++
				if o.msg != "" {
					r.add(Finding{Rule: "analysis", Key: o.name(), Where: "-", Msg: o.name() + ": " + o.msg})
				} else {
					then()
				}
				mu.Unlock()
			}
		}
	})
	return n
}

// inParallel does n things with some workers, each made by start.
func inParallel(n int, start func() func(int)) {
	var next int64 = -1
	var wg sync.WaitGroup
	for k := 0; k < min(n, 6); k++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			f := start()
			for {
				i := int(atomic.AddInt64(&next, 1))
				if i >= n {
					return
				}
				f(i)
			}
		}()
	}
	wg.Wait()
}

var _ = ssa.BuilderMode(0)
