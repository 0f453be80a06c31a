package main

import (
	"fmt"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// C22: queries of character maps, by partial evaluation.

func init() { checks["C22"] = ruleC22 }

type cmapSub struct {
	p, e, format int
	width        int
	lang         pnum
	wrong        bool         // the length it states is not its length
	from, to     int          // its unknown bytes
	want         map[int]pnum // code -> glyph
}

// fontWithMaps is a font with a subtable per entry; the glyph entries are unknown.
func fontWithMaps(subs []*cmapSub, variant int) *peFont {
	f := &peFont{}
	f.basic(60, 3)
	var data peBytes
	var offs []int
	for i, s := range subs {
		s.want = map[int]pnum{}
		offs = append(offs, len(data))
		var b peBytes
		switch s.format {
		case 0:
			b.u16(0, 262, 0)
			for c := 0; c < 256; c++ {
				if c >= 0x30 && c < 0x38 {
					s.want[c] = f.unknown(&b, 1+c%50, 1)
				} else if c == 0x41 || c == 0xe4 {
					b.u8(c % 50)
					s.want[c] = knum(int64(c % 50))
				} else {
					b.u8(0)
				}
			}
		case 4:
			type seg struct{ lo, hi, delta, ro int }
			base := 0x41 + 16*(i%3)
			segs := []seg{{base, base + 3, 5 - base, 0}, {0x600, 0x602, 0, 1}, {0x610, 0x613, 7, 1}, {0xe000, 0xe001, 0x10000 - 0xe000 + 11, 0}, {0xfff0, 0xffff, 0, 1}, {0xffff, 0xffff, 1, 0}}
			if variant == 1 {
				segs = segs[3:]
			}
			n := len(segs)
			ids := 0
			for _, g := range segs {
				if g.ro != 0 {
					ids += g.hi - g.lo + 1
				}
			}
			b.u16(4, 16+8*n+2*ids, 0, 2*n, 0, 0, 0)
			for _, g := range segs {
				b.u16(g.hi)
			}
			b.u16(0)
			for _, g := range segs {
				b.u16(g.lo)
			}
			for _, g := range segs {
				b.u16(g.delta)
			}
			k := 0
			for j, g := range segs {
				if g.ro == 0 {
					b.u16(0)
					continue
				}
				b.u16(2 * (n - j + k))
				k += g.hi - g.lo + 1
			}
			for j, g := range segs[:n-1] {
				for c := g.lo; c <= g.hi; c++ {
					if g.ro == 0 {
						s.want[c] = knum(int64((c + g.delta) & 0xffff))
						continue
					}
					if c == g.lo+1 && j == 1 { // a missing glyph
						b.u16(0)
						continue
					}
					id := f.unknown(&b, 10+c%16, 2)
					id.k += uint64(g.delta)
					s.want[c] = id
				}
			}
		case 6:
			first, n := 0x60+i, 5
			b.u16(6, 10+2*n, 0, first, n)
			for c := 0; c < n; c++ {
				s.want[first+c] = f.unknown(&b, 20+c, 2)
			}
		case 12:
			groups := [][3]int{{0x41 + i, 0x43 + i, 7}, {0x10000, 0x10004, 30}, {0x1f600, 0x1f600, 59}}
			b.u16(12, 0)
			b.u32(16+12*len(groups), 0, len(groups))
			for _, g := range groups {
				b.u32(g[0], g[1], g[2])
				for c := g[0]; c <= g[1]; c++ {
					s.want[c] = knum(int64(g[2] + c - g[0]))
				}
			}
		}
		data = append(data, b...)
	}
	var t peBytes
	t.u16(0, len(subs))
	for i, s := range subs {
		t.u16(s.p, s.e)
		t.u32(4 + 8*len(subs) + offs[i])
	}
	f.tables["cmap"] = append(t, data...)
	return f
}

func fontMethod(P *Prog, name string) *ssa.Function {
	t := P.lib.Type("Font")
	if t == nil {
		return nil
	}
	sel := P.prog.MethodSets.MethodSet(types.NewPointer(t.Type())).Lookup(P.lib.Pkg, name)
	if sel == nil {
		return nil
	}
	return P.prog.MethodValue(sel)
}

func newInitPE(P *Prog, r *Report) *PE {
	e := newPE(P)
	for _, p := range sortedPkgs(P) {
		if strings.Contains(p.Pkg.Path(), "truecli") {
			continue
		}
		if msg := e.run(func() { e.initPkg(p) }); msg != "" {
			r.add(Finding{Rule: "analysis", Key: p.Pkg.Path(), Where: "-", Msg: "initialisation of " + p.Pkg.Path() + ": " + msg})
		}
	}
	return e
}

// parseWith evaluates Parse on the bytes of a font.
func (e *PE) parseWith(f *peFont) (font pv, msg string) {
	e.steps, e.depth = 0, 0
	e.nominal = f.nominal
	e.opaque, e.limit = true, 80000000
	msg = e.run(func() {
		fn := e.P.lib.Func("Parse")
		if fn == nil {
			e.fail("Parse is not found")
		}
		r, ok := e.call(fn, []pv{newSource(f.bytes())}, nil).(ptuple)
		if !ok || len(r) != 2 {
			e.fail("results of Parse")
		}
		if er, ok := r[1].(piface); ok && er.t != nil {
			e.fail("a font that is in order is not parsed (%s)", pstr(er))
		}
		font = r[0]
	})
	return
}

func ruleC22(P *Prog, r *Report, tier string) {
	r.explain = "Fonts whose cmap table has a known structure and unknown glyph entries are followed through the parser (values are affine forms over the unknown bytes). For every pair of platform and encoding the map query must give the map " +
		"made of the codes and glyph entries of a subtable of exactly that pair, in every order of map iteration. Then the contents of the maps become unknown, and rune lookup is followed for every combination of maps that are present and that contain the runes: " +
		"one index per rune, from the first of (3,1), (1,0), (0,3), (3,10) that has the rune, 0 otherwise."
	get, look := fontMethod(P, "GetCmap"), fontMethod(P, "LookupRunes")
	if get == nil || look == nil {
		r.add(Finding{Rule: "anchor", Key: "GetCmap", Where: "-", Msg: "GetCmap or LookupRunes is not found"})
		return
	}
	e := newInitPE(P, r)
	// queries
	type set struct {
		name    string
		variant int
		subs    []*cmapSub
	}
	var sets []set
	all := []*cmapSub{}
	for i, c := range cmapEncodings {
		fm := 4
		switch {
		case c.width == 4:
			fm = 12
		case c.width == 1:
			fm = []int{0, 6}[i%2]
		case i%4 == 3:
			fm = 6
		}
		all = append(all, &cmapSub{p: c.p, e: c.e, format: fm, width: c.width})
	}
	sets = append(sets, set{"every pair", 0, all})
	sets = append(sets, set{"a few pairs", 1, []*cmapSub{{p: 0, e: 3, format: 4, width: 2}, {p: 1, e: 0, format: 0, width: 1}, {p: 3, e: 10, format: 12, width: 4}}})
	sets = append(sets, set{"pairs twice", 0, []*cmapSub{{p: 3, e: 1, format: 6, width: 2}, {p: 0, e: 3, format: 6, width: 2}, {p: 3, e: 1, format: 4, width: 2}, {p: 1, e: 0, format: 6, width: 1}}})
	queries := 0
	for _, st := range sets {
		f := fontWithMaps(st.subs, st.variant)
		font, msg := e.parseWith(f)
		if msg != "" {
			r.add(Finding{Rule: "analysis", Key: st.name, Where: P.pos(get.Pos()), Msg: "font with " + st.name + ": " + msg})
			continue
		}
		for p := 0; p < 5; p++ {
			for en := 0; en < 12; en++ {
				var txt [2]string
				for k := 0; k < 2; k++ {
					e.order = k
					queries++
					key := fmt.Sprintf("%s, platform %d encoding %d", st.name, p, en)
					var m *pmap
					e.steps, e.depth = 0, 0
					msg := e.run(func() {
						x, ok := e.call(get, []pv{font, knum(int64(p)), knum(int64(en))}, nil).(*pmap)
						if !ok {
							e.fail("no map")
						}
						m = x
					})
					e.order = 0
					if msg != "" {
						r.add(Finding{Rule: "analysis", Key: key, Where: P.pos(get.Pos()), Msg: key + ": " + msg})
						continue
					}
					ok, any, why := false, false, ""
					for _, s := range st.subs {
						if s.p == p && s.e == en {
							any = true
							if d := s.differs(m); d == "" {
								ok = true
							} else {
								why = d
							}
						}
					}
					if !any {
						ok, why = m == nil || len(m.keys) == 0, "the font has no such map"
					}
					if !ok {
						r.add(Finding{Rule: "map-query", Key: key, Where: P.pos(get.Pos()), Msg: fmt.Sprintf("the map for %s: %s", key, why)})
					}
					txt[k] = mapText(m)
				}
				if txt[0] != txt[1] {
					r.add(Finding{Rule: "iteration-order", Key: fmt.Sprintf("%s, platform %d encoding %d", st.name, p, en), Where: P.pos(get.Pos()), Msg: "which map is chosen depends on the order of map iteration"})
				}
			}
		}
	}
	r.count("map_queries", queries)
	// lookups
	order := [][2]int{{3, 1}, {1, 0}, {0, 3}, {3, 10}}
	cases := 0
	for present := 0; present < 32; present++ {
		var subs []*cmapSub
		add := func(p, en, fm int) { subs = append(subs, &cmapSub{p: p, e: en, format: fm, width: 2}) }
		add(0, 4, 12)
		add(3, 0, 4)
		for i, o := range order {
			if present>>uint(i)&1 == 1 {
				add(o[0], o[1], []int{4, 0, 4, 12}[i])
			}
		}
		add(1, 1, 0)
		add(0, 0, 6)
		if present >= 16 { // the other order
			sort.SliceStable(subs, func(i, j int) bool { return subs[i].p < subs[j].p })
		}
		f := fontWithMaps(subs, 0)
		font, msg := e.parseWith(f)
		if msg != "" {
			r.add(Finding{Rule: "analysis", Key: "lookup", Where: P.pos(look.Pos()), Msg: "lookup: " + msg})
			continue
		}
		msg = e.run(func() {
			for p := 0; p < 4; p++ {
				for en := 0; en < 11; en++ {
					if m, ok := e.call(get, []pv{font, knum(int64(p)), knum(int64(en))}, nil).(*pmap); ok && m != nil {
						m.abs, m.keys, m.m = fmt.Sprintf("M%d.%d", p, en), nil, nil
					}
				}
			}
		})
		n := 2
		if present%16 == 15 {
			n = 3
		}
		if tier == "thorough" {
			n = 3
		}
		for k := 0; k <= n && msg == ""; k++ {
			if present >= 16 && k != 1 {
				continue
			}
			msg = lookupPaths(P, r, e, look, font, present, order, k, &cases)
		}
		if msg != "" {
			r.add(Finding{Rule: "analysis", Key: "lookup", Where: P.pos(look.Pos()), Msg: "rune lookup: " + msg})
			break
		}
	}
	// a font without the table
	f := fontWithMaps(nil, 0)
	delete(f.tables, "cmap")
	if font, msg := e.parseWith(f); msg != "" {
		r.add(Finding{Rule: "analysis", Key: "no cmap", Where: P.pos(look.Pos()), Msg: "font without cmap: " + msg})
	} else {
		for k := 0; k < 3; k++ {
			if m := lookupPaths(P, r, e, look, font, 0, order, k, &cases); m != "" {
				r.add(Finding{Rule: "analysis", Key: "no cmap", Where: P.pos(look.Pos()), Msg: "font without cmap: " + m})
			}
		}
	}
	r.count("lookups", cases)
	r.need("map queries", queries, 300)
	r.need("lookups", cases, 200)
}

// lookupPaths follows the lookup of k runes for every answer to every question about unknown data.
func lookupPaths(P *Prog, r *Report, e *PE, look *ssa.Function, font pv, present int, order [][2]int, k int, cases *int) string {
	var script []bool
	for runs := 0; ; runs++ {
		if runs > 20000 {
			return "too many cases"
		}
		ans := map[string]bool{}
		var asked []bool
		e.choose = func(c string) (bool, bool) {
			if v, ok := ans[c]; ok {
				return v, true
			}
			v := false
			if len(asked) < len(script) {
				v = script[len(asked)]
			}
			asked = append(asked, v)
			ans[c] = v
			return v, true
		}
		*cases++
		var runes []pv
		for i := 0; i < k; i++ {
			runes = append(runes, pnum{term: fmt.Sprintf("r%d", i)})
		}
		var res pslice
		e.steps, e.depth = 0, 0
		msg := e.run(func() {
			x, ok := e.call(look, []pv{font, mkBytes(runes)}, nil).(pslice)
			if !ok {
				e.fail("no slice")
			}
			res = x
		})
		e.choose = nil
		if msg != "" {
			return msg
		}
		key := fmt.Sprintf("lookup of %d runes, maps %b", k, present%16)
		if res.ln != k {
			r.add(Finding{Rule: "lookup-count", Key: key, Where: P.pos(look.Pos()), Msg: fmt.Sprintf("%s: %d indices are returned (%s)", key, res.ln, answers(ans))})
		} else {
			for i := 0; i < k; i++ {
				rn := fmt.Sprintf("r%d", i)
				want := "0"
				for j, o := range order {
					if present>>uint(j)&1 == 0 {
						continue
					}
					m := fmt.Sprintf("M%d.%d", o[0], o[1])
					has, known := ans["has("+m+","+rn+")"]
					if !known {
						want = "what " + m + " has"
						break
					}
					if has {
						want = m + "[" + rn + "]"
						break
					}
				}
				if got := pstr(res.a.e[res.off+i].v); got != want {
					r.add(Finding{Rule: "lookup", Key: key, Where: P.pos(look.Pos()), Msg: fmt.Sprintf("%s: index %d is %s instead of %s (%s)", key, i, got, want, answers(ans))})
				}
			}
		}
		// the next script
		for len(asked) > 0 && asked[len(asked)-1] {
			asked = asked[:len(asked)-1]
		}
		if len(asked) == 0 {
			return ""
		}
		asked[len(asked)-1] = true
		script = append([]bool(nil), asked...)
	}
}

func answers(m map[string]bool) string {
	var s []string
	for _, k := range sortedKeys(m) {
		s = append(s, fmt.Sprintf("%s=%v", k, m[k]))
	}
	return strings.Join(s, ", ")
}

func mapText(m *pmap) string {
	if m == nil {
		return "nil"
	}
	var s []string
	for _, k := range m.keys {
		s = append(s, pstr(k)+":"+pstr(m.m[pstr(k)].v))
	}
	sort.Strings(s)
	return strings.Join(s, " ")
}

// differs tells how a map differs from the subtable.
func (s *cmapSub) differs(m *pmap) string {
	if m == nil {
		return "no map is returned"
	}
	seen := map[int]bool{}
	for _, k := range m.keys {
		c, ok := codeOf(pstr(k), s.width)
		if !ok {
			return "the character " + pstr(k) + " does not come from a character code"
		}
		seen[c] = true
		v, _ := m.m[pstr(k)].v.(pnum)
		w, ok := s.want[c]
		if !ok {
			return fmt.Sprintf("code %#x is mapped to %s, the subtable has no glyph for it", c, v)
		}
		d := pnum{t: map[int]uint64{}}
		bad := v.term != ""
		if !bad {
			d.k = (v.k - w.k) & 0xffff
			for a, k := range v.t {
				if w.t[a]&0xffff != k&0xffff {
					bad = true
				}
			}
			bad = bad || len(v.t) != len(w.t) || d.k != 0
		}
		if bad {
			return fmt.Sprintf("code %#x is mapped to %s, the subtable says %s", c, v, w)
		}
	}
	for _, c := range sortedInts(s.want) {
		if !seen[c] {
			return fmt.Sprintf("code %#x is not mapped, the subtable says %s", c, s.want[c])
		}
	}
	return ""
}

func sortedInts[V any](m map[int]V) []int {
	var r []int
	for k := range m {
		r = append(r, k)
	}
	sort.Ints(r)
	return r
}

// codeOf finds the character code in the term of a decoded character.
func codeOf(t string, width int) (int, bool) {
	for {
		i := strings.LastIndexByte(t, '[')
		if i < 0 {
			return 0, false
		}
		j := strings.IndexByte(t[i:], ']')
		if j > 0 {
			var b []int
			ok := true
			for _, w := range strings.Fields(t[i+1 : i+j]) {
				var n int
				if _, err := fmt.Sscanf(w, "%d", &n); err != nil || n < 0 || n > 255 {
					ok = false
					break
				}
				b = append(b, n)
			}
			if ok && len(b) > 0 {
				r := 0
				for _, x := range b {
					r = r<<8 | x
				}
				return r, true
			}
		}
		t = t[:i]
	}
}
