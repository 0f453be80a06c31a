package main

import (
	"fmt"
	"go/types"
	"strings"
)

// The class invariant of a parsed or derived font. buildFont makes a symbolic font that satisfies it (the
// starting point of every method), checkFont decides it for a font an operation returns.

// fontView gives access to the cells of one abstract font.
type fontView struct {
	P  *Prog
	st *State
	id ObjID // the font struct
}

func (P *Prog) libType(name string) types.Type {
	n := P.namedType(name)
	if n == nil {
		return nil
	}
	return n
}

// field reads a cell by path; "" type means missing anchor.
func cellAt(st *State, id ObjID, path string) (Val, types.Type) {
	o := st.obj(id)
	t := subType(o.t, path)
	if t == types.Typ[types.Invalid] {
		panic(fmt.Sprintf("anchor lost: no field %s in %s", path, o.t))
	}
	return st.cell(o, path, t), t
}

func setCell(st *State, id ObjID, path string, v Val) {
	st.mut(id).cells[path] = v
}

// ptrAt reads a pointer field; the object it leads to when not nil.
func ptrAt(st *State, id ObjID, path string) (*PtrV, ObjID) {
	v, _ := cellAt(st, id, path)
	p, ok := v.(*PtrV)
	if !ok || len(p.alts) == 0 {
		return p, 0
	}
	return p, p.alts[0].obj
}

func numAt(st *State, id ObjID, path string) *Lin {
	v, _ := cellAt(st, id, path)
	n, _ := v.(Num)
	return n.L
}

func sliceAt(st *State, id ObjID, path string) *SliceV {
	v, _ := cellAt(st, id, path)
	s, _ := v.(*SliceV)
	return s
}

// postSlices are the per-glyph lists of the post table.
var postSlices = []string{".glyphNameIndex", ".offsets", ".glyphNames"}

var tableFields = []string{"ot", "trec", "head", "hhea", "loca", "maxp", "cvt", "fpgm", "prep", "glyf", "hmtx", "name", "os2", "post", "cmap"}
var requiredTables = []string{"ot", "trec", "head", "hhea", "loca", "maxp"}

var subtableFormats = map[int64]string{0: "cmapSubtableFormat0", 4: "cmapSubtableFormat4", 6: "cmapSubtableFormat6", 12: "cmapSubtableFormat12"}

const (
	fontInput    = "font"
	derivedInput = "derived font"
)

// elemNonNil makes the pointers of all elements non-nil.
func elemNonNil(sh []*Shape, key string) {
	for _, s := range sh {
		for _, k := range sortedKeys(s.cells) {
			if p, ok := s.cells[k].(*PtrV); ok && k == key {
				s.cells[k] = &PtrV{alts: p.alts, nl: lin0}
			}
		}
		*s = *localShape(s.cells)
	}
}

func objShapes(ids []ObjID) []*Shape {
	var r []*Shape
	for _, id := range ids {
		r = append(r, objTab[id].shapes...)
	}
	return r
}

// buildFont adds an arbitrary font satisfying the invariant to st and returns the pointer to it (*Font or *font).
func (in *Interp) buildFont(st *State, t types.Type, tag string) Val {
	s0, o0 := len(symTab), len(objTab)
	defer func() { markFixed(s0, o0) }()
	el := t.Underlying().(*types.Pointer).Elem()
	outer := newObj(&Obj{kind: okCell, t: el, sym: true, input: tag, name: "Font", site: "sym:Font"})
	st.putObj(objTab[outer])
	res := &PtrV{alts: []PT{{outer, ""}}, nl: lin0}
	f := outer
	if subType(el, ".font") != types.Typ[types.Invalid] {
		p, id := ptrAt(st, outer, ".font")
		setCell(st, outer, ".font", &PtrV{alts: p.alts, nl: lin0})
		f = id
		objTab[id].name = "font"
		// the reader is never used after parsing, whatever it holds
		if _, ok := subTypeOK(el, ".br"); ok {
			_, br := ptrAt(st, outer, ".br")
			objTab[br].input = "source reader"
		}
	}
	tab := map[string]ObjID{}
	for _, n := range tableFields {
		p, id := ptrAt(st, f, "."+n)
		tab[n] = id
		objTab[id].name = n
		for _, r := range requiredTables {
			if r == n {
				setCell(st, f, "."+n, &PtrV{alts: p.alts, nl: lin0})
			}
		}
	}
	ng := numAt(st, tab["maxp"], ".numGlyphs")
	eq := func(a, b *Lin) {
		if !st.addEq(subL(a, b)) {
			panic("contradictory invariant")
		}
	}
	// table records
	elemNonNil(objShapes(sliceAt(st, tab["trec"], ".list").backs), "")
	mv, _ := cellAt(st, tab["trec"], ".trMap")
	m := mv.(*MapV)
	setCell(st, tab["trec"], ".trMap", &MapV{objs: m.objs, nl: lin0})
	elemNonNil(objShapes(m.objs), "v")
	// locations
	fm := numAt(st, tab["head"], ".indexToLocFormat")
	st.addFact(fm)
	st.addFact(comb(-1, fm, 1, lin1))
	short, long := sliceAt(st, tab["loca"], ".offsetsShort"), sliceAt(st, tab["loca"], ".offsetsLong")
	eqf := func(l *Lin) []*Lin { return []*Lin{l, negL(l)} }
	st.conds = append(st.conds,
		cond{[]guard{{fm.t[0].s, 0, 0}}, eqf(addK(subL(short.ln, ng), -1)), nil},
		cond{[]guard{{fm.t[0].s, 1, 1}}, eqf(addK(subL(long.ln, ng), -1)), nil})
	// descriptions
	ds := sliceAt(st, tab["glyf"], ".descs")
	eq(ds.ln, ng)
	elemNonNil(objShapes(ds.backs), "")
	// metrics
	hm := sliceAt(st, tab["hmtx"], ".hMetrics")
	lsb := sliceAt(st, tab["hmtx"], ".leftSideBearings")
	nh := numAt(st, tab["hhea"], ".numberOfHMetrics")
	eq(hm.ln, nh)
	// the metrics cover the glyphs; exactly so in fonts that do not announce more metrics than glyphs
	sum := subL(addL(nh, lsb.ln), ng)
	st.addFact(sum)
	w := in.exact
	if w == 0 {
		w = newSym("exact metrics", 0, 1)
	}
	alwaysLive[w] = true
	in.exact = w
	st.conds = append(st.conds, cond{[]guard{{w, 1, 1}}, append(eqf(sum), subL(ng, nh)), nil})
	// glyph names
	for _, n := range postSlices {
		st.addFact(subL(ng, sliceAt(st, tab["post"], n).ln))
	}
	st.addFact(subL(ng, numAt(st, tab["post"], ".numGlyphs")))
	// names
	elemNonNil(objShapes(sliceAt(st, tab["name"], ".nameRecords").backs), "")
	lt := sliceAt(st, tab["name"], ".langTagRecords")
	elemNonNil(objShapes(lt.backs), "")
	st.addFact(comb(-1, lt.ln, 1, cst(65535)))
	// classification
	eq(sliceAt(st, tab["os2"], ".panose10").ln, cst(10))
	// character maps
	in.buildCmap(st, tab["cmap"])
	return res
}

func subTypeOK(t types.Type, path string) (types.Type, bool) {
	x := subType(t, path)
	return x, x != types.Typ[types.Invalid]
}

func (in *Interp) buildCmap(st *State, id ObjID) {
	mv, _ := cellAt(st, id, ".subtables")
	m := mv.(*MapV)
	setCell(st, id, ".subtables", &MapV{objs: m.objs, nl: lin0})
	mo := m.objs[0]
	elemNonNil(objShapes(m.objs), "v")
	keys := sliceAt(st, id, ".subtableKeys")
	st.addFact(comb(-1, keys.ln, 1, cst(65535)))
	for _, sh := range objShapes(keys.backs) {
		sh.hks = append(sh.hks, hk{mo, keyLin(sh.cells[""])})
	}
	// the subtables: one shape per format
	p := objTab[mo].shapes[0].cells["v"].(*PtrV)
	sum := objTab[p.alts[0].obj]
	var shapes []*Shape
	for _, f := range []int64{0, 4, 6, 12} {
		name := subtableFormats[f]
		ct := in.P.libType(name)
		if ct == nil {
			panic("anchor lost: type " + name)
		}
		sh := typedShape(sum.t, "subtable", sum.input)
		sh.cells[".format"] = Num{cst(f)}
		a := freshVal(ct, name, sum.input)
		manyVal(a)
		sh.cells[".ctx"] = &IfaceV{alts: []IT{{ct, a}}, nl: lin0}
		for _, x := range []string{".platformID", ".encodingID"} {
			y := newSym("subtable"+x, 0, 65535)
			setOrg(y, "w:subtable"+x)
			sh.cells[x] = Num{symL(y)}
		}
		// one rune per character code
		r, c := sh.cells[".runes"].(*SliceV), sh.cells[".charcodes"].(*SliceV)
		cc := *c
		cc.ln = r.ln
		cc.cp = addL(r.ln, symL(newSym("cap", 0, maxLen)))
		sh.cells[".charcodes"] = &cc
		if f != 12 {
			// 16 bit (or 8 bit) codes
			for _, ks := range objShapes(sh.cells[".charcodeToGID"].(*MapV).objs) {
				ks.cells["k"] = Num{symL(newSym("charcode", 0, 65535))}
				*ks = *localShape(ks.cells)
			}
		}
		shapes = append(shapes, localShape(sh.cells))
	}
	sum.shapes = shapes
	sum.sym = false
}

// invClause is the outcome for one clause of the invariant.
type invClause struct {
	name string
	ok   bool
	msg  string
}

// checkFont decides the invariant for the font pv points to (*Font or *font) in st.
func (in *Interp) checkFont(st0 *State, pv Val, derived bool) (res []invClause) {
	add := func(name string, ok bool, msg string) {
		for i := range res {
			if res[i].name == name {
				if !ok && res[i].ok {
					res[i].ok, res[i].msg = false, msg
				}
				return
			}
		}
		res = append(res, invClause{name, ok, msg})
	}
	outer, ok := pv.(*PtrV)
	if !ok {
		add("font", false, "no font value")
		return
	}
	for _, alt := range outer.alts {
		st := st0.clone()
		f := alt.obj
		if _, ok := subTypeOK(st.obj(f).t, alt.path+".font"); ok {
			v, _ := cellAt(st, f, alt.path+".font")
			p := v.(*PtrV)
			add("font", st.isNil(p.nl) < 0, "the embedded font may be nil")
			for _, a := range p.alts {
				in.checkTables(st.clone(), a, derived, add)
			}
			continue
		}
		in.checkTables(st, alt, derived, add)
	}
	return
}

// variants lists, for a pointer cell, the possible targets with a state in which it points there.
func variants(st *State, v Val) []target {
	p, ok := v.(*PtrV)
	if !ok {
		return nil
	}
	var r []target
	for _, a := range p.alts {
		for _, s := range st.clone().assume(bNot(boolOfLin(p.nl))) {
			if s.exists(a.obj) {
				r = append(r, target{s, a})
			}
		}
	}
	return r
}

// eachTable combines the targets of several table pointers.
func (in *Interp) eachTable(st *State, f PT, names []string, then func(st *State, tab map[string]PT)) {
	var rec func(i int, st *State, tab map[string]PT)
	rec = func(i int, st *State, tab map[string]PT) {
		if i == len(names) {
			then(st, tab)
			return
		}
		v, _ := cellAt(st, f.obj, f.path+"."+names[i])
		for _, t := range variants(st, v) {
			n := map[string]PT{}
			for k, x := range tab {
				n[k] = x
			}
			n[names[i]] = t.p
			rec(i+1, t.st, n)
		}
	}
	rec(0, st, nil)
}

func numOf(st *State, p PT, path string) *Lin      { return numAt(st, p.obj, p.path+path) }
func sliceOf(st *State, p PT, path string) *SliceV { return sliceAt(st, p.obj, p.path+path) }

// elems calls f with the cells of each kind of element of a slice.
func (in *Interp) elems(st *State, sl *SliceV, f func(st *State, cells map[string]Val)) {
	for _, id := range sl.backs {
		o := st.obj(id)
		if n, ok := st.constOf(sl.ln); ok && n == 0 {
			continue
		}
		for _, sh := range o.shapes {
			s := st.clone()
			f(s, s.instantiate(sh))
		}
		for _, k := range sortedKeys(o.elems) {
			f(st.clone(), o.elems[k])
		}
	}
}

func (in *Interp) checkTables(st *State, f PT, derived bool, add func(string, bool, string)) {
	for _, n := range requiredTables {
		v, _ := cellAt(st, f.obj, f.path+"."+n)
		p, ok := v.(*PtrV)
		add("required table "+n, ok && st.isNil(p.nl) < 0, n+" may be missing")
	}
	proveEq := func(st *State, a, b *Lin) (bool, string) {
		d := subL(a, b)
		if st.proveEq(d) {
			return true, ""
		}
		if in.debug {
			fmt.Println("---- not proved equal:", a, "and", b)
			in.dumpState(st, d)
		}
		return false, fmt.Sprintf("%s vs %s", a, b)
	}
	nonNil := func(clause string, st *State, sl *SliceV, key string) {
		add(clause, true, "")
		in.elems(st, sl, func(s *State, c map[string]Val) {
			p, ok := c[key].(*PtrV)
			add(clause, ok && s.isNil(p.nl) < 0, "an element may be nil")
		})
	}
	in.eachTable(st, f, []string{"trec"}, func(st *State, tab map[string]PT) {
		nonNil("table records present", st, sliceOf(st, tab["trec"], ".list"), "")
		v, _ := cellAt(st, tab["trec"].obj, tab["trec"].path+".trMap")
		m := v.(*MapV)
		for _, id := range m.objs {
			for _, sh := range st.obj(id).shapes {
				s := st.clone()
				c := s.instantiate(sh)
				p, ok := c["v"].(*PtrV)
				add("table records present", ok && s.isNil(p.nl) < 0, "a record of the map may be nil")
			}
		}
	})
	in.eachTable(st, f, []string{"head", "maxp", "loca"}, func(st *State, tab map[string]PT) {
		fm, ng := numOf(st, tab["head"], ".indexToLocFormat"), numOf(st, tab["maxp"], ".numGlyphs")
		lo, hi := st.cons.ival(fm)
		add("location format is 0 or 1", lo >= 0 && hi <= 1, fmt.Sprintf("indexToLocFormat in [%d,%d]", lo, hi))
		for _, k := range []int64{0, 1} {
			for _, s := range st.clone().assume(bEq(addK(fm, -k))) {
				name := ".offsetsShort"
				if k == 1 {
					name = ".offsetsLong"
				}
				ok, msg := proveEq(s, sliceOf(s, tab["loca"], name).ln, addK(ng, 1))
				add("one more location than glyphs (format "+fmt.Sprint(k)+")", ok, msg)
			}
		}
	})
	in.eachTable(st, f, []string{"glyf", "maxp"}, func(st *State, tab map[string]PT) {
		ds := sliceOf(st, tab["glyf"], ".descs")
		ok, msg := proveEq(st, ds.ln, numOf(st, tab["maxp"], ".numGlyphs"))
		add("one description per glyph", ok, msg)
		nonNil("glyph descriptions present", st, ds, "")
	})
	in.eachTable(st, f, []string{"hmtx", "hhea", "maxp"}, func(st *State, tab map[string]PT) {
		hm, lsb := sliceOf(st, tab["hmtx"], ".hMetrics"), sliceOf(st, tab["hmtx"], ".leftSideBearings")
		ng, nh := numOf(st, tab["maxp"], ".numGlyphs"), numOf(st, tab["hhea"], ".numberOfHMetrics")
		ok, msg := proveEq(st, hm.ln, nh)
		add("as many full metrics as announced", ok, msg)
		sum := subL(addL(nh, lsb.ln), ng)
		add("metrics and bearings cover the glyphs", st.prove(sum), fmt.Sprintf("%s + %s against %s", nh, lsb.ln, ng))
		add("metrics and bearings number the glyphs", true, "")
		for _, s := range in.assumeExact(st, subL(ng, nh)) {
			ok, msg = proveEq(s, sum, lin0)
			add("metrics and bearings number the glyphs", ok, msg)
		}
	})
	in.eachTable(st, f, []string{"post", "maxp"}, func(st *State, tab map[string]PT) {
		ng := numOf(st, tab["maxp"], ".numGlyphs")
		for _, n := range postSlices {
			ln := sliceOf(st, tab["post"], n).ln
			add("no more names ("+n[1:]+") than glyphs", st.prove(subL(ng, ln)), fmt.Sprintf("%s against %s glyphs", ln, ng))
		}
		pn := numOf(st, tab["post"], ".numGlyphs")
		add("post announces no more glyphs than maxp", st.prove(subL(ng, pn)), fmt.Sprintf("%s against %s glyphs", pn, ng))
	})
	in.eachTable(st, f, []string{"os2"}, func(st *State, tab map[string]PT) {
		ok, msg := proveEq(st, sliceOf(st, tab["os2"], ".panose10").ln, cst(10))
		add("ten classification bytes", ok, msg)
	})
	in.eachTable(st, f, []string{"name"}, func(st *State, tab map[string]PT) {
		nonNil("name records present", st, sliceOf(st, tab["name"], ".nameRecords"), "")
		lt := sliceOf(st, tab["name"], ".langTagRecords")
		nonNil("language records present", st, lt, "")
		add("at most 65535 language records", st.prove(comb(-1, lt.ln, 1, cst(65535))), fmt.Sprint(lt.ln))
	})
	in.eachTable(st, f, []string{"cmap"}, func(st *State, tab map[string]PT) {
		v, _ := cellAt(st, tab["cmap"].obj, tab["cmap"].path+".subtables")
		m := v.(*MapV)
		keys := sliceOf(st, tab["cmap"], ".subtableKeys")
		ok := st.prove(comb(-1, keys.ln, 1, cst(65535)))
		add("at most 65535 character maps", ok, fmt.Sprint(keys.ln))
		add("every key has its subtable", true, "")
		in.elems(st, keys, func(s *State, c map[string]Val) {
			k := keyLin(c[""])
			for _, id := range m.objs {
				add("every key has its subtable", s.hasKey(id, k), "a listed key may be absent")
			}
		})
		add("subtables present", true, "")
		add("subtable data of its format", true, "")
		add("one rune per character code", true, "")
		for _, id := range m.objs {
			o := st.obj(id)
			visit := func(st *State, c map[string]Val) {
				p, ok := c["v"].(*PtrV)
				add("subtables present", ok && st.isNil(p.nl) < 0, "a subtable may be nil")
				if !ok {
					return
				}
				for _, a := range p.alts {
					in.eachInst(st, a.obj, func(s *State, cells map[string]Val) {
						in.checkSubtable(s, cells, add)
					})
				}
			}
			for _, sh := range o.shapes {
				s := st.clone()
				visit(s, s.instantiate(sh))
			}
			for _, k := range sortedKeys(o.elems) {
				visit(st.clone(), o.elems[k])
			}
		}
	})
}

// eachInst calls f with the cells of each kind of object an id stands for.
func (in *Interp) eachInst(st *State, id ObjID, f func(s *State, cells map[string]Val)) {
	o := st.obj(id)
	if o.kind == okSum {
		shapes := o.shapes
		if o.sym && len(shapes) == 0 {
			shapes = objTab[id].shapes
		}
		for _, sh := range shapes {
			s := st.clone()
			f(s, s.instantiate(sh))
		}
		return
	}
	f(st.clone(), st.fullCells(o))
}

func (in *Interp) checkSubtable(s *State, c map[string]Val, add func(string, bool, string)) {
	fm, _ := c[".format"].(Num)
	ctx, _ := c[".ctx"].(*IfaceV)
	ok := false
	if k, o := s.constOf(fm.L); o && ctx != nil && s.isNil(ctx.nl) < 0 && len(ctx.alts) > 0 {
		ok = true
		for _, a := range ctx.alts {
			if a.t == nil || !strings.HasSuffix(a.t.String(), "."+subtableFormats[k]) {
				ok = false
			}
		}
	}
	add("subtable data of its format", ok, fmt.Sprintf("format %s with data %s", showVal(c[".format"]), showVal(c[".ctx"])))
	for _, x := range []string{".platformID", ".encodingID"} {
		n, _ := c[x].(Num)
		good := false
		if n.L != nil {
			lo, hi := s.cons.ival(n.L)
			good = lo >= 0 && hi <= 65535
		}
		add("platform and encoding fit 16 bits", good, showVal(c[x]))
	}
	r, _ := c[".runes"].(*SliceV)
	cc, _ := c[".charcodes"].(*SliceV)
	add("one rune per character code", r != nil && cc != nil && s.proveEq(subL(r.ln, cc.ln)), fmt.Sprintf("%s vs %s", showVal(c[".runes"]), showVal(c[".charcodes"])))
	if k, o := s.constOf(fm.L); o && k != 12 {
		m, _ := c[".charcodeToGID"].(*MapV)
		if m == nil {
			add("16 bit codes in 16 bit subtables", false, "no map")
			return
		}
		add("16 bit codes in 16 bit subtables", true, "")
		for _, id := range m.objs {
			for _, sh := range s.obj(id).shapes {
				n, _ := sh.cells["k"].(Num)
				if n.L != nil {
					lo, hi := s.shIval(n.L)
					add("16 bit codes in 16 bit subtables", lo >= 0 && hi <= 65535, fmt.Sprintf("code in [%d,%d]", lo, hi))
				} else {
					add("16 bit codes in 16 bit subtables", false, "unknown code")
				}
			}
		}
	}
}

// assumeExact restricts st to fonts whose metrics do not exceed the glyphs: those the operation started from, or
// the parsed font itself.
func (in *Interp) assumeExact(st *State, own *Lin) []*State {
	s := st.clone()
	if in.exact != 0 {
		return s.assume(bGe(addK(symL(in.exact), -1)))
	}
	return s.assume(bGe(own))
}
