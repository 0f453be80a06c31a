package main

import (
	"fmt"
	"go/types"
	"os"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// ---- Provenance of symbols ----

// symOrg names what a symbol holds: "r:<table>/<item>" for a value read from the font file, "w:<path>" for a value
// of the symbolic font. Copies made by the domain (instances of shapes, joins of equals) keep it.
var symOrg = map[Sym]string{}

// orgSyms lists the symbols of an origin.
var orgSyms = map[string][]Sym{}

func setOrg(s Sym, o string) {
	if o == "" {
		return
	}
	symOrg[s] = o
	orgSyms[o] = append(orgSyms[o], s)
}

func orgOf(l *Lin) string {
	if l == nil || len(l.t) != 1 || l.t[0].c != 1 || l.k != 0 {
		return ""
	}
	return symOrg[l.t[0].s]
}

// orgVal is the origin of a scalar, a tag or a one-element slice.
func orgVal(s *State, v Val) string {
	switch x := v.(type) {
	case Num:
		return orgOf(x.L)
	case *Agg:
		if n, ok := x.cells["[0]"].(Num); ok {
			return strings.TrimSuffix(orgOf(n.L), "[0]")
		}
	case *SliceV:
		if len(x.backs) == 1 {
			o := s.obj(x.backs[0])
			if o.kind == okCell {
				return orgVal(s, s.cell(o, "[0]", nil))
			}
		}
	}
	return ""
}

// scalarOf is the number written: the scalar itself or the only element of a slice.
func scalarOf(s *State, v Val) *Lin {
	switch x := v.(type) {
	case Num:
		return x.L
	case *SliceV:
		if len(x.backs) == 1 {
			o := s.obj(x.backs[0])
			if o.kind == okCell {
				if n, ok := s.cell(o, "[0]", nil).(Num); ok {
					return n.L
				}
			}
		}
	}
	return nil
}

// fieldOf names the innermost struct field a path leads to ("T.f", "T.f[]").
func fieldOf(t types.Type, path string) string {
	cur, name := t, ""
	for path != "" {
		if p, ok := cur.Underlying().(*types.Pointer); ok {
			cur = p.Elem()
			continue
		}
		if path[0] == '[' {
			i := strings.IndexByte(path, ']')
			if i < 0 {
				return ""
			}
			path = path[i+1:]
			switch u := cur.Underlying().(type) {
			case *types.Slice:
				cur, name = u.Elem(), name+"[]"
			case *types.Array:
				cur = u.Elem()
			default:
				return ""
			}
			continue
		}
		f := path[1:]
		if i := strings.IndexAny(f, ".["); i >= 0 {
			f = f[:i]
		}
		path = path[1+len(f):]
		st, ok := cur.Underlying().(*types.Struct)
		if !ok {
			return ""
		}
		found := false
		for i := 0; i < st.NumFields(); i++ {
			if st.Field(i).Name() == f {
				if n, ok := cur.(*types.Named); ok {
					name = n.Obj().Name() + "." + f
				} else {
					name = "struct." + f
				}
				cur, found = st.Field(i).Type(), true
				break
			}
		}
		if !found {
			return ""
		}
	}
	return name
}

// ---- Recording reads and writes ----

type tabRef struct {
	tag string
	ln  *Lin
}

// Layout follows where in the tables the analysed code reads and writes.
type Layout struct {
	in     *Interp
	tabs   map[Sym]tabRef // symbols that are the offset of a table
	fmts   map[string]*Lin
	cfg    map[string]int64
	active map[Sym]bool
	font   types.Type
	dbg    bool
	pend   map[ObjID]string
}

// installHooks makes the interpreter record what the rules ask for.
func installHooks(in *Interp, cfg map[string]int64) *Layout {
	y := &Layout{pend: map[ObjID]string{}, in: in, tabs: map[Sym]tabRef{}, fmts: map[string]*Lin{}, cfg: cfg, dbg: os.Getenv("HOOKDBG") != "", font: in.P.libType("font")}
	in.hooks.lookup = y.lookup
	in.hooks.readField = y.readField
	in.hooks.read = y.read
	in.hooks.writeField = y.writeField
	in.hooks.stored = y.stored
	in.hooks.decode = y.decode
	return y
}

// lookup sees the table records taken out of the directory.
func (y *Layout) lookup(in *Interp, st *State, at ssa.Instruction, v Val, ok Bool) {
	k, _ := in.val(st, at.(*ssa.Lookup).Index).(*StrV)
	p, isP := v.(*PtrV)
	if !isP || k == nil || k.c == nil {
		return
	}
	for _, a := range p.alts {
		o := st.obj(a.obj)
		if o.t == nil || fieldOf(o.t, a.path+".offset") == "" {
			continue
		}
		off, _ := st.cell(o, a.path+".offset", nil).(Num)
		ln, _ := st.cell(o, a.path+".length", nil).(Num)
		if off.L != nil && len(off.L.t) == 1 {
			y.tabs[off.L.t[0].s] = tabRef{*k.c, ln.L}
		}
	}
}

// place finds the table a position lies in and the position relative to it.
func (y *Layout) place(s *State, lp *Lin) (tag string, base, rel *Lin) {
	if lp == nil {
		return "?", nil, nil
	}
	for _, t := range lp.t {
		if r, ok := y.tabs[t.s]; ok && t.c == 1 {
			base := symL(t.s)
			rel := subL(lp, base)
			if r.tag == "cmap" {
				for _, u := range rel.t {
					if u.c == 1 && symOrg[u.s] == "r:cmap/offset" {
						return "cmapsub", addL(base, symL(u.s)), subL(rel, symL(u.s))
					}
				}
			}
			return r.tag, base, rel
		}
	}
	if len(lp.t) >= 1 && symTab[lp.t[0].s].name == "pos" {
		// the start of the source
		for _, t := range lp.t {
			if symTab[t.s].name == "pos" && t.c == 1 {
				return "sfnt", symL(t.s), subL(lp, symL(t.s))
			}
		}
	}
	mem := true
	for _, t := range lp.t {
		mem = mem && y.idx(t.s)
	}
	if mem {
		return "mem", lin0, lp
	}
	return "?", nil, lp
}

// idx tells the index of a running loop.
func (y *Layout) idx(s Sym) bool {
	for _, l := range y.in.loops {
		if l.n == s {
			return true
		}
	}
	return false
}

// match finds the item of a table a relative position designates.
func (y *Layout) match(s *State, tag string, rel *Lin, n int64) (res []*layItem, why string) {
	k := rel.k
	var coefs []int64
	var index int64
	for _, t := range rel.t {
		if c, ok := s.constOf(symL(t.s)); ok {
			k += c * t.c
			continue
		}
		if y.idx(t.s) {
			if index != 0 {
				return nil, "two running indices"
			}
			index = t.c
			continue
		}
		coefs = append(coefs, t.c)
	}
	items := layouts[tag]
	if items == nil {
		return nil, "no layout"
	}
	for i := range items {
		it := &items[i]
		if !it.holds(y.cfg) || it.width != n || len(it.prev) != len(coefs) {
			continue
		}
		used := make([]bool, len(coefs))
		ok := true
		for _, p := range it.prev {
			f := false
			for j, c := range coefs {
				if !used[j] && c == p {
					used[j], f = true, true
					break
				}
			}
			ok = ok && f
		}
		if !ok {
			continue
		}
		d := k - it.off
		switch {
		case index != 0:
			if it.stride != index || d%it.stride != 0 || d < 0 || (d > 0 && it.count > 0) {
				continue
			}
		case d == 0:
		case it.stride > 0 && d > 0 && d%it.stride == 0 && (it.count == 0 || d/it.stride < it.count):
		default:
			continue
		}
		res = append(res, it)
	}
	return res, ""
}

func itemNames(is []*layItem) string {
	var r []string
	for _, i := range is {
		r = append(r, i.name)
	}
	return strings.Join(r, ",")
}

// subtab resolves the format of a character map subtable read at base.
func (y *Layout) subtab(s *State, base *Lin) string {
	f := y.fmts[base.key()]
	if f == nil {
		return "cmapsub"
	}
	if k, ok := s.constOf(f); ok {
		return fmt.Sprintf("cmap%d", k)
	}
	return "cmapsub"
}

func (y *Layout) readField(e *extCall, s *State, lp *Lin, n int64, v Val) {
	tag, base, rel := y.place(s, lp)
	if f, ok := y.cfg["mem/flags"]; ok && tag == "mem" {
		tag = compLayout(f)
	}
	if tag == "cmapsub" && (rel.k != 0 || len(rel.t) > 0) {
		tag = y.subtab(s, base)
	}
	if y.dbg {
		fmt.Fprintf(os.Stderr, "READ %s %s + %v n %d v %v\n", y.in.chain(), tag, rel, n, v)
	}
	order := orderOf(e, 1)
	if rel == nil || tag == "?" {
		y.in.event("read", e.at, fmt.Sprintf("?|-|%d|%s|%v", n, order, lp != nil))
		return
	}
	is, why := y.match(s, tag, rel, n)
	if len(is) == 0 {
		if y.dbg {
			fmt.Fprintln(os.Stderr, "  no match in", tag, why)
		}
		y.in.event("read", e.at, fmt.Sprintf("%s|-|%d|%s|at %s %s", tag, n, order, plain(rel), why))
		return
	}
	if order == "raw" {
		// its bytes, until they are decoded
		if x, ok := v.(Num); ok {
			symOrg[x.L.t[0].s] = fmt.Sprintf("raw:%d:%s/%s", n, tag, itemNames(is))
		}
		return
	}
	y.in.event("read", e.at, fmt.Sprintf("%s|%s|%d|%s|", tag, itemNames(is), n, order))
	if len(is) > 1 {
		return
	}
	y.isField(s, tag+"/"+is[0].name, base, v)
}

// isField gives a value read from a field its origin.
func (y *Layout) isField(s *State, id string, base *Lin, v Val) {
	tag := id[:strings.LastIndexByte(id, '/')]
	switch x := v.(type) {
	case Num:
		setOrg(x.L.t[0].s, "r:"+id)
		if tag == "cmapsub" && base != nil {
			y.fmts[base.key()] = x.L
		}
		if strings.HasPrefix(id, "comp") {
			id = "mem" + id[strings.IndexByte(id, '/'):]
		}
		if c, ok := y.cfg[id]; ok {
			s.addEq(addK(x.L, -c))
		}
	case *Agg:
		for _, k := range sortedKeys(x.cells) {
			if n, ok := x.cells[k].(Num); ok && len(n.L.t) == 1 {
				setOrg(n.L.t[0].s, "r:"+id+k)
			}
		}
	}
}

// decode sees bytes turned into a number.
func (y *Layout) decode(e *extCall, s *State, b *SliceV, n int64, v Val, name string) {
	for _, id := range b.backs {
		o := s.obj(id)
		var vs []Val
		if o.kind == okCell {
			vs = append(vs, s.cell(o, "[0]", types.Typ[types.Uint8]))
		}
		for _, sh := range o.shapes {
			vs = append(vs, sh.cells[""])
		}
		for _, v0 := range vs {
			x, ok := v0.(Num)
			if !ok || !strings.HasPrefix(orgOf(x.L), "raw:") {
				continue
			}
			p := strings.SplitN(orgOf(x.L), ":", 3)
			tag, item := p[2][:strings.LastIndexByte(p[2], '/')], p[2][strings.LastIndexByte(p[2], '/')+1:]
			order := "bigEndian"
			if strings.Contains(name, "littleEndian") {
				order = "littleEndian"
			}
			if z, ok := b.off.constVal(); !ok || z != 0 || p[1] != fmt.Sprint(n) {
				y.in.event("read", e.at, fmt.Sprintf("%s|-|%d|%s|part of %s", tag, n, order, item))
				continue
			}
			y.in.event("read", e.at, fmt.Sprintf("%s|%s|%d|%s|", tag, item, n, order))
			if len(b.backs) == 1 && !strings.Contains(item, ",") {
				y.isField(s, p[2], nil, v)
			}
		}
	}
}

func orderOf(e *extCall, i int) string {
	if e.name == "io.ReadFull" {
		return "raw"
	}
	if i < len(e.args) {
		if f, ok := e.args[i].(*IfaceV); ok && len(f.alts) == 1 && f.alts[0].t != nil {
			t := f.alts[0].t.String()
			return t[strings.LastIndexByte(t, '.')+1:]
		}
	}
	return "?"
}

// plain prints a form without the numbers of its symbols.
func plain(l *Lin) string {
	if l == nil {
		return "?"
	}
	var b strings.Builder
	str := l.String()
	for i := 0; i < len(str); i++ {
		if str[i] == '#' {
			j := i + 1
			for j < len(str) && str[j] >= '0' && str[j] <= '9' {
				j++
			}
			if j > i+1 {
				i = j - 1
				continue
			}
		}
		b.WriteByte(str[i])
	}
	return b.String()
}

// form prints a linear form by the origins of its symbols.
func form(l *Lin) string {
	if l == nil {
		return "?"
	}
	var ps []string
	for _, t := range l.t {
		n := strings.TrimPrefix(symOrg[t.s], "r:")
		if n == "" {
			n = "?"
		}
		if t.c != 1 {
			n = fmt.Sprintf("%d*%s", t.c, n)
		}
		ps = append(ps, n)
	}
	sort.Strings(ps)
	if l.k != 0 || len(ps) == 0 {
		ps = append(ps, fmt.Sprint(l.k))
	}
	return strings.Join(ps, "+")
}

// read sees every read, also those of whole blocks: does the block lie in its table?
func (y *Layout) read(in *Interp, s *State, at ssa.Instruction, p PT, lp, k *Lin) {
	tag, base, rel := y.place(s, lp)
	if y.dbg {
		fmt.Fprintf(os.Stderr, "RAW %s %s + %v n %v\n", in.chain(), tag, rel, k)
	}
	if _, ok := k.constVal(); ok || tag == "mem" {
		return
	}
	if tag != "?" {
		r := y.tabs[base.t[0].s]
		if r.ln == nil {
			in.event("block", at, tag+"|unplaced||")
			return
		}
		ok := s.prove(rel) && s.prove(subL(subL(r.ln, rel), k))
		in.event("block", at, fmt.Sprintf("%s|%v|%s|%s", tag, ok, form(rel), form(k)))
		return
	}
	// an unknown position: in which table can it be proved to lie?
	if lp != nil {
		for _, b := range y.tabSyms() {
			r := y.tabs[b]
			rel := subL(lp, symL(b))
			if r.ln != nil && s.prove(rel) && s.prove(subL(subL(r.ln, rel), k)) {
				in.event("block", at, fmt.Sprintf("%s|true|?|%s", r.tag, form(k)))
				return
			}
		}
	}
	in.event("block", at, "?|unplaced||")
}

func (y *Layout) tabSyms() []Sym {
	var r []Sym
	for s := range y.tabs {
		r = append(r, s)
	}
	sort.Slice(r, func(i, j int) bool { return r[i] < r[j] })
	return r
}

// stored sees values reach struct fields.
func (y *Layout) stored(in *Interp, s *State, at ssa.Instruction, p PT, t types.Type, v Val) {
	o := s.obj(p.obj)
	if o.t == nil {
		return
	}
	emit := func(org, path string) {
		if !strings.HasPrefix(org, "r:") {
			return
		}
		if key, rest, ok := splitElem(path); ok {
			_ = key
			path = rest
		}
		if f := fieldOf(o.t, path); f != "" && strings.Contains(f, ".") {
			in.event("stored", at, strings.TrimSuffix(org[2:], "[0]")+"|"+f)
		}
	}
	path := p.path
	switch x := v.(type) {
	case Num:
		emit(orgOf(x.L), path)
	case *Agg:
		for _, k := range sortedKeys(x.cells) {
			switch c := x.cells[k].(type) {
			case Num:
				emit(orgOf(c.L), path+k)
			case *SliceV:
				y.storedSlice(s, c, path+k, emit)
			}
		}
	case *SliceV:
		y.storedSlice(s, x, path, emit)
	}
}

func (y *Layout) storedSlice(s *State, v *SliceV, path string, emit func(org, path string)) {
	for _, b := range v.backs {
		o := s.obj(b)
		for _, sh := range o.shapes {
			if n, ok := sh.cells[""].(Num); ok {
				emit(orgOf(n.L), path+"[]")
			}
		}
	}
}

// ---- Writes ----

// pathTable is the table and the struct field a path of the symbolic font designates.
func (y *Layout) pathTable(org string) (tag, field string) {
	path := strings.TrimPrefix(org, "w:")
	i := strings.IndexByte(path, '.')
	if i < 0 {
		return "", ""
	}
	root := path[:i]
	if tag, ok := fieldTags[root]; ok {
		if f := fieldOf(y.font, "."+path); f != "" {
			return tag, f
		}
		return "", ""
	}
	for f, n := range subtableFormats {
		if n == root {
			return fmt.Sprintf("cmap%d", f), fieldOf(y.in.P.libType(n), path[i:])
		}
	}
	if root == "subtable" {
		return "cmap", fieldOf(y.in.P.libType("cmapSubtable"), path[i:])
	}
	return "", ""
}

func (y *Layout) writeField(e *extCall, s *State, p PT, k *Lin, v Val, t types.Type) {
	pos := ghostCell(s, p, "#len")
	if y.dbg {
		fmt.Fprintf(os.Stderr, "WRITE %s obj %d%s pos %v n %v v %v org %s\n", y.in.chain(), p.obj, p.path, pos, k, showVal(v), orgVal(s, v))
	}
	n, ok := k.constVal()
	if !ok {
		y.in.event("write", e.at, "?|-|-|-|variable size")
		return
	}
	order := orderOf(e, 1)
	sess := func() (string, *Lin) {
		o := s.obj(p.obj)
		if t, ok := o.cells[p.path+"#tab"].(Num); ok {
			if c, ok := s.constOf(t.L); ok {
				if b, ok := o.cells[p.path+"#base"].(Num); ok && c > 0 {
					return layNames[c-1], b.L
				}
			}
		}
		return "", nil
	}
	begin := func(tag string, base *Lin) {
		for i, x := range layNames {
			if x == tag {
				o := s.mut(p.obj)
				o.cells[p.path+"#tab"] = Num{cst(int64(i + 1))}
				o.cells[p.path+"#base"] = Num{base}
			}
		}
	}
	at := func(tag string, base *Lin) []*layItem {
		rel := subL(pos, base)
		if rel == nil || len(rel.t) > 0 && symTab[rel.t[0].s].name == ".buffer#len" {
			return nil
		}
		is, _ := y.match(s, tag, rel, n)
		return is
	}
	l := scalarOf(s, v)
	c, isConst := int64(0), false
	if l != nil {
		c, isConst = l.constVal()
	}
	z, zc := pos.constVal()
	if zc && z == 0 {
		begin(layNames[0], lin0) // unknown so far
		delete(s.mut(p.obj).cells, p.path+"#pend")
	}
	org := orgVal(s, v)
	if strings.HasPrefix(org, "w:") {
		tag, field := y.pathTable(org)
		if tag != "" && field != "" {
			cur, base := sess()
			if pw, ok := s.obj(p.obj).cells[p.path+"#pend"].(Num); ok && (cur == "" || cur == "none") {
				// a computed first field
				if w, ok := pw.L.constVal(); ok && w > 0 {
					is, _ := y.match(s, tag, lin0, w)
					y.in.event("write", e.at, fmt.Sprintf("%s|%s|%d|%s|=%s", tag, orDash(itemNames(is)), w, order, y.pend[p.obj]))
				}
				begin(tag, lin0)
				cur, base = tag, lin0
				delete(s.mut(p.obj).cells, p.path+"#pend")
			}
			if zc && z == 0 && (cur == "" || cur == "none") {
				begin(tag, lin0)
				cur, base = tag, lin0
			} else if (cur == "" || cur == "none") && tag != "" && len(layouts[tag]) > 0 && !strings.HasPrefix(tag, "cmap") {
				// the first write of a loop that may also be a later one
				if is := at(tag, lin0); len(is) > 0 {
					begin(tag, lin0)
					cur, base = tag, lin0
				}
			}
			if cur != tag {
				y.in.event("write", e.at, fmt.Sprintf("%s|-|%d|%s|%s written in table %s", tag, n, order, field, cur))
				return
			}
			is := at(tag, base)
			y.in.event("write", e.at, fmt.Sprintf("%s|%s|%d|%s|%s", tag, orDash(itemNames(is)), n, order, field))
			y.assume(s, tag, is, l)
			return
		}
	}
	cur, base := sess()
	var is []*layItem
	if cur != "" && cur != "none" {
		is = at(cur, base)
	}
	if len(is) == 0 && isConst && n == 2 && (c == 0 || c == 4 || c == 6 || c == 12) {
		// the format number that starts a subtable
		cur = fmt.Sprintf("cmap%d", c)
		begin(cur, pos)
		is = at(cur, pos)
	}
	if cur == "" {
		cur = "none"
	}
	what := "computed"
	if isConst {
		what = fmt.Sprint(c)
	} else if l != nil {
		if lo, hi := s.cons.ival(l); lo > 0 && hi < 1<<24 {
			what = fmt.Sprintf("computed in [%d,%d]", lo, hi)
		}
	}
	if cur == "none" && len(is) == 0 {
		if z, zc := pos.constVal(); zc && z == 0 {
			// which table it belongs to shows in what follows
			o := s.mut(p.obj)
			o.cells[p.path+"#pend"] = Num{cst(n)}
			y.pend[p.obj] = what
			return
		}
		if is = at("loca", lin0); len(is) > 0 && len(pos.t) > 0 {
			cur = "loca"
			begin("loca", lin0)
		}
	}
	y.in.event("write", e.at, fmt.Sprintf("%s|%s|%d|%s|=%s", cur, orDash(itemNames(is)), n, order, what))
	y.assume(s, cur, is, l)
}

func orDash(s string) string {
	if s == "" {
		return "-"
	}
	return s
}

func (y *Layout) assume(s *State, tag string, is []*layItem, l *Lin) {
	if len(is) != 1 || l == nil {
		return
	}
	if c, ok := y.cfg[tag+"/"+is[0].name]; ok {
		s.addEq(addK(l, -c))
	}
}
