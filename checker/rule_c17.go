package main

import (
	"fmt"
	"sort"
)

func init() {
	checks["C15"] = ruleC15
	checks["C17"] = ruleC17
	checks["C25"] = ruleC25
}

// closure is the set of glyphs that are needed for some glyphs.
func (s *fontShape) closure(gs []int) map[int]bool {
	r := map[int]bool{}
	for len(gs) > 0 {
		g := gs[0]
		gs = gs[1:]
		if r[g] {
			continue
		}
		r[g] = true
		gs = append(gs, s.comps[g]...)
	}
	return r
}

// outGlyphs reads the descriptions of a file by its locations.
func (e *PE) outGlyphs(o *peOut) (gl [][]pv, why string) {
	head, ok1 := e.table(o.b, "head")
	maxp, ok2 := e.table(o.b, "maxp")
	loca, ok3 := e.table(o.b, "loca")
	glyf, ok4 := e.table(o.b, "glyf")
	if !ok1 || !ok2 || !ok3 || !ok4 {
		return nil, "there is no head, maxp, loca or glyf table"
	}
	f, okf := e.cnum(head, 50, 2)
	n, okn := e.cnum(maxp, 4, 2)
	if !okf || !okn || f > 1 {
		return nil, "the location format or the number of glyphs is not determined"
	}
	w, m := 2, 2
	if f == 1 {
		w, m = 4, 1
	}
	if len(loca) != w*(n+1) {
		return nil, fmt.Sprintf("loca has %d bytes for %d glyphs in format %d", len(loca), n, f)
	}
	prev := 0
	for i := 0; i <= n; i++ {
		v, ok := e.cnum(loca, w*i, w)
		if !ok {
			return nil, fmt.Sprintf("location %d is not determined", i)
		}
		v *= m
		if i == 0 && v != 0 {
			return nil, fmt.Sprintf("location 0 is %d, not the start of the glyph data", v)
		}
		if i > 0 {
			if v < prev || v > len(glyf) {
				return nil, fmt.Sprintf("location %d is %d after %d, there are %d bytes of glyph data", i, v, prev, len(glyf))
			}
			gl = append(gl, glyf[prev:v])
		}
		prev = v
	}
	if len(glyf)-prev > 3 || !allZero(glyf, prev, len(glyf)) {
		return nil, fmt.Sprintf("the last location is %d, there are %d bytes of glyph data", prev, len(glyf))
	}
	return gl, ""
}

// subsetOps are the operations that make a subset.
func subsetOps(s *fontShape) [][]fontOp {
	n := len(s.glyphs)
	if s.noGlyf || n > 200 {
		return nil
	}
	var r [][]fontOp
	if s.large {
		return append(r, nil, []fontOp{opFirst(n - 1)}, []fontOp{opKeep(1, n-1)})
	}
	for k := 0; k < n; k += 1 + k/3 {
		r = append(r, []fontOp{opFirst(k)})
	}
	r = append(r, []fontOp{opFirst(n - 1), opFirst(2)}, []fontOp{opFirst(n - 1), opKeep(n-2, 0)}, []fontOp{opOptimize(), opFirst(n - 2)})
	r = append(r, []fontOp{opKeep(n - 1)}, []fontOp{opKeep(0)}, []fontOp{opKeep(1, 2)}, []fontOp{opKeep(2, n-1), opFirst(n - 1)}, []fontOp{opKeep(1, n-2), opKeep(1)})
	return r
}

func ruleC17(P *Prog, r *Report, tier string) {
	r.explain = "Fonts of known structure and unknown contents are followed through subsetting and writing. In what is written location 0 must be 0, every location must be the one before plus the length of the description (in both formats), " +
		"the description at a location must be byte for byte that of the glyph in the source (or empty, when the glyph is not kept), and the last location must be the end of the data. Locations that do not fit are the business of C24."
	at := "-"
	if fn := fontMethod(P, "SubsetFirst"); fn != nil {
		at = P.pos(fn.Pos())
	}
	glyphs := 0
	n := forEachOut(P, r, subsetOps, func(e *PE, o *peOut) {
		bad := func(rule, f string, a ...any) {
			r.add(Finding{Rule: rule, Key: o.s.name, Where: at, Msg: o.name() + ": " + fmt.Sprintf(f, a...)})
		}
		if o.err {
			bad("subset-error", "an error is returned")
			return
		}
		gl, why := e.outGlyphs(o)
		if why != "" {
			bad("locations", "%s", why)
			return
		}
		var must map[int]bool
		if o.keep != nil {
			must = o.s.closure(o.keep)
		}
		for i, d := range gl {
			glyphs++
			if i >= len(o.s.descs) {
				bad("locations", "there is a glyph %d, the source has %d", i, len(o.s.descs))
				break
			}
			if sameBytes(d, o.s.descs[i]) || len(d) == 0 && must != nil && !must[i] {
				continue
			}
			bad("locations", "the %d bytes at the location of glyph %d are not its description (%d bytes)", len(d), i, len(o.s.descs[i]))
			break
		}
	})
	r.count("files", n)
	r.count("glyph_locations", glyphs)
	r.need("files written", n, 150)
	r.need("locations", glyphs, 700)
}

// keepOps are requests to keep glyphs.
func keepOps(s *fontShape) [][]fontOp {
	n := len(s.glyphs)
	if s.noGlyf || s.large || n > 200 || len(s.comps) == 0 && n != 8 {
		return nil
	}
	var r [][]fontOp
	for i := 0; i < n; i++ {
		r = append(r, []fontOp{opKeep(i)})
	}
	r = append(r, []fontOp{opKeep(0, n-1)}, []fontOp{opKeep(n-1, n-1, 2)}, []fontOp{opKeep(1, 5)}, []fontOp{opKeep(n-2, 1, 3)}, []fontOp{opKeep(2, 1), opKeep(2)}, []fontOp{opFirst(n - 1), opKeep(1)}, []fontOp{opKeep(6)})
	return r
}

func compositeShapes() []*fontShape {
	deep := &fontShape{name: "a chain of composites", glyphs: rangeInts(18, 12), comps: map[int][]int{}, metrics: 3, long: true}
	for i := 1; i < 17; i++ {
		deep.comps[i] = []int{i + 1}
	}
	back := &fontShape{name: "a backward chain of composites", glyphs: rangeInts(12, 12), comps: map[int][]int{}, metrics: 3}
	for i := 11; i > 1; i-- {
		back.comps[i] = []int{0, i - 1}
	}
	wide := &fontShape{name: "composites with many components", glyphs: rangeInts(20, 11), comps: map[int][]int{3: {4, 5, 6, 7, 8, 9, 10, 11, 19}, 2: {3, 3, 0}, 12: {2, 13}, 13: {12, 14}, 14: {14, 1}}, metrics: 20, long: true}
	mesh := &fontShape{name: "composites of each other", glyphs: rangeInts(8, 14), comps: map[int][]int{0: {1, 2}, 1: {2, 3}, 2: {0, 4}, 3: {0, 5}, 6: {7}, 7: {6}}, metrics: 1}
	none := &fontShape{name: "glyphs of no contours", glyphs: []int{10, 12, 12, 10, 14, 11, 12}, none: map[int]bool{0: true, 1: true, 3: true, 5: true}, comps: map[int][]int{4: {3, 0}, 6: {5, 1}}, metrics: 3, long: true}
	return []*fontShape{deep, back, wide, mesh, none}
}

func ruleC15(P *Prog, r *Report, tier string) {
	r.explain = "Fonts with graphs of composite glyphs (chains, cycles, shared and self references) and unknown outlines are followed through the glyph-keeping subsets. Every glyph that is reachable from a requested one must be kept with its bytes, " +
		"whether asked for by index or by rune, once or again. When a composite that is needed is cut short there must be an error, the second time too, and none when it is not needed."
	at := "-"
	if fn := fontMethod(P, "SubsetKeepIndices"); fn != nil {
		at = P.pos(fn.Pos())
	}
	e := newInitPE(P, r)
	cases, kept := 0, 0
	judge := func(e *PE, o *peOut) {
		bad := func(rule, f string, a ...any) {
			r.add(Finding{Rule: rule, Key: o.s.name, Where: at, Msg: o.name() + ": " + fmt.Sprintf(f, a...)})
		}
		if o.err {
			bad("keep-error", "an error is returned")
			return
		}
		gl, why := e.outGlyphs(o)
		if why != "" {
			bad("keep-glyphs", "%s", why)
			return
		}
		for _, g := range sortedInts(o.s.closure(o.keep)) {
			if o.first >= 0 && g >= o.first || g >= len(o.s.glyphs) {
				continue
			}
			kept++
			if g >= len(gl) {
				bad("keep-count", "glyph %d is needed, there are %d glyphs", g, len(gl))
			} else if !sameBytes(gl[g], o.s.descs[g]) {
				bad("keep-glyphs", "glyph %d is needed, its description is not kept (%d bytes instead of %d)", g, len(gl[g]), len(o.s.descs[g]))
			}
		}
	}
	all := append(shapes(), compositeShapes()...)
	for _, s := range all {
		for _, ops := range keepOps(s) {
			if ops[0].first >= 0 && len(s.closure(ops[1].keep)) > 0 {
				// what is beyond the first glyphs is not there any more
				over := false
				for g := range s.closure(ops[1].keep) {
					over = over || g >= ops[0].first
				}
				if over {
					continue
				}
			}
			e.derived, e.derivedBy, e.nomTerm = nil, nil, nil
			o := e.produce(s, ops...)
			cases++
			if o.msg != "" {
				r.add(Finding{Rule: "analysis", Key: o.name(), Where: at, Msg: o.name() + ": " + o.msg})
				continue
			}
			judge(e, o)
		}
	}
	// several requests to one font, also by runes
	for _, s := range all {
		n := len(s.glyphs)
		if len(s.comps) == 0 || s.large {
			continue
		}
		c := *s
		s = &c
		s.with = optional("cmap")
		s.subs = []*cmapSub{{p: 3, e: 1, format: 4, width: 2}, {p: 1, e: 0, format: 6, width: 2}}
		f := s.build()
		e.derived, e.derivedBy, e.nomTerm = nil, nil, nil
		e.choose = func(string) (bool, bool) { return false, true }
		font, msg := e.parseWith(f)
		if msg == "" {
			msg = e.run(func() {
				for k, req := range [][]int{{1}, {n - 1}, {6, 2}, {1}, {3}, {n - 1, 0}, {2}} {
					e.steps, e.depth = 0, 0
					o := &peOut{s: s, f: f, first: -1, keep: req, op: fmt.Sprintf("request %d on one font, SubsetKeepIndices(%v)", k+1, req)}
					sub, er := e.method("SubsetKeepIndices", font, intSlice(req))
					o.err = er
					if !er {
						o.b, o.err = e.writeTo(sub)
					}
					cases++
					judge(e, o)
				}
				m, _ := e.call(fontMethod(P, "GetCmap"), []pv{font, knum(3), knum(1)}, nil).(*pmap)
				if m == nil {
					e.fail("no map")
				}
				for k := 0; k < 12 && k < len(m.keys); k++ {
					g, ok := m.m[pstr(m.keys[k])].v.(pnum)
					if !ok || !g.isConst() || int(g.k) >= n {
						continue
					}
					e.steps, e.depth = 0, 0
					o := &peOut{s: s, f: f, first: -1, keep: []int{int(g.k)}, op: fmt.Sprintf("SubsetKeepRunes for glyph %d", g.k)}
					sub, er := e.method("SubsetKeepRunes", font, mkBytes([]pv{m.keys[k]}))
					o.err = er
					if !er {
						o.b, o.err = e.writeTo(sub)
					}
					cases++
					judge(e, o)
				}
			})
		}
		if msg != "" {
			r.add(Finding{Rule: "analysis", Key: s.name, Where: at, Msg: "requests on " + s.name + ": " + msg})
		}
	}
	// composites that are cut short
	errs := 0
	for cutAt := 10; cutAt < 18; cutAt++ {
		for _, long := range []bool{true, false} {
			if !long && cutAt%2 == 1 {
				continue // a byte of filling follows
			}
			s := &fontShape{name: fmt.Sprintf("a composite cut at byte %d", cutAt), glyphs: rangeInts(9, 12), comps: map[int][]int{2: {3}, 3: {5, 1, 0}, 6: {4}, 7: {2, 8}}, broken: map[int]int{3: cutAt}, metrics: 2, long: long}
			f := s.build()
			e.derived, e.derivedBy, e.nomTerm = nil, nil, nil
			font, msg := e.parseWith(f)
			if msg == "" {
				msg = e.run(func() {
					for k, req := range [][]int{{3}, {3}, {2}, {2}, {6}, {0, 7}, {0, 7}, {7, 6}, {5, 1}, {3}, {8, 3}} {
						e.steps, e.depth = 0, 0
						sub, er := e.method("SubsetKeepIndices", font, intSlice(req))
						name := fmt.Sprintf("%s: request %d, SubsetKeepIndices(%v)", s.name, k+1, req)
						cases++
						errs++
						need := s.closure(req)[3]
						if need && !er {
							r.add(Finding{Rule: "broken-composite", Key: s.name, Where: at, Msg: name + ": glyph 3 is needed and cannot be decoded, no error is returned"})
						}
						if !need && er {
							r.add(Finding{Rule: "keep-error", Key: s.name, Where: at, Msg: name + ": an error is returned"})
						}
						if !need && !er {
							o := &peOut{s: s, f: f, first: -1, keep: req, op: name}
							o.b, o.err = e.writeTo(sub)
							judge(e, o)
						}
					}
				})
			}
			if msg != "" {
				r.add(Finding{Rule: "analysis", Key: s.name, Where: at, Msg: s.name + ": " + msg})
			}
		}
	}
	r.count("requests", cases)
	r.count("kept_glyphs", kept)
	r.count("requests_with_cut_composites", errs)
	r.need("requests", cases, 200)
	r.need("kept glyphs", kept, 500)
}

func firstOps(s *fontShape) [][]fontOp {
	n := len(s.glyphs)
	if s.large || n > 200 || !s.with["cmap"] {
		return nil
	}
	var r [][]fontOp
	for k := 0; k < n; k++ {
		r = append(r, []fontOp{opFirst(k)})
	}
	r = append(r, []fontOp{opFirst(n - 1), opFirst(n - 2)}, []fontOp{opFirst(n - 2), opFirst(3)}, []fontOp{opFirst(3), opFirst(n - 1)}, []fontOp{opPrune("post"), opFirst(n - 3)})
	if !s.noGlyf {
		r = append(r, []fontOp{opKeep(n-1, 0), opFirst(n - 2)})
	}
	return r
}

func ruleC25(P *Prog, r *Report, tier string) {
	r.explain = "Fonts with character maps of all formats and unknown glyph entries are followed through subsetting to the first glyphs and writing. In the maps that are queried and in those that are written (read by the specification) no character may have a glyph " +
		"beyond the retained ones, and every character of a retained glyph must have it."
	at := "-"
	if fn := fontMethod(P, "SubsetFirst"); fn != nil {
		at = P.pos(fn.Pos())
	}
	entries := 0
	get := fontMethod(P, "GetCmap")
	n := forEachOut(P, r, firstOps, func(e *PE, o *peOut) {
		bad := func(rule, f string, a ...any) {
			r.add(Finding{Rule: rule, Key: o.s.name, Where: at, Msg: o.name() + ": " + fmt.Sprintf(f, a...)})
		}
		if o.err || get == nil {
			bad("subset-error", "an error is returned")
			return
		}
		nom := func(n pnum) int {
			k, ok := e.nominalOf(n)
			if !ok {
				return -1
			}
			return int(k)
		}
		b, ok := e.table(o.b, "cmap")
		if !ok {
			bad("written-map", "there is no cmap table")
			return
		}
		t, why := e.readCmap(b)
		if why != "" {
			bad("written-map", "%s", why)
			return
		}
		taken := map[int]bool{}
		for _, s := range o.s.subs {
			if !supportedFormat(s.format) {
				continue
			}
			id := fmt.Sprintf("(%d,%d) of format %d", s.p, s.e, s.format)
			found := false
			for i, c := range t.recs {
				if c.p != s.p || c.e != s.e || c.format != s.format || taken[i] || len(c.lang.t) > 0 && !sameForm(c.lang, s.lang) {
					continue
				}
				found, taken[i] = true, true
				for _, code := range sortedInts(c.m) {
					entries++
					if g := nom(c.m[code]) & 0xffff; g > 0 && g >= o.first {
						bad("removed-glyph", "the written map %s has glyph %s (%d) for code %#x, %d glyphs are left", id, c.m[code], g, code, o.first)
						return
					}
				}
				for _, code := range sortedInts(s.want) {
					w := s.want[code]
					g := nom(w)
					if g == 0 || g >= o.first {
						continue
					}
					entries++
					got, ok := c.m[code]
					if !ok || nom(got)&0xffff != g || !equalMod16(e, got, w) {
						bad("lost-character", "the written map %s has glyph %s for code %#x, the source %s, which is retained", id, got, code, w)
						return
					}
				}
				break
			}
			if !found {
				bad("lost-map", "the map %s is not written", id)
			}
		}
		// the maps in memory
		pairs := map[[2]int][]*cmapSub{}
		for _, s := range o.s.subs {
			if supportedFormat(s.format) {
				pairs[[2]int{s.p, s.e}] = append(pairs[[2]int{s.p, s.e}], s)
			}
		}
		var keys [][2]int
		for k := range pairs {
			keys = append(keys, k)
		}
		sort.Slice(keys, func(i, j int) bool { return keys[i][0]*100+keys[i][1] < keys[j][0]*100+keys[j][1] })
		for _, k := range keys {
			var m *pmap
			e.steps, e.depth = 0, 0
			if msg := e.run(func() { m, _ = e.call(get, []pv{o.font, knum(int64(k[0])), knum(int64(k[1]))}, nil).(*pmap) }); msg != "" {
				bad("analysis", "%s", msg)
				return
			}
			if m == nil {
				bad("lost-map", "there is no map for (%d,%d)", k[0], k[1])
				continue
			}
			ok, why := false, ""
			got := map[int]pnum{}
			for _, kk := range m.keys {
				c, isCode := codeOf(pstr(kk), pairs[k][0].width)
				g, isNum := m.m[pstr(kk)].v.(pnum)
				if !isCode || !isNum {
					bad("analysis", "map entry %s", pstr(kk))
					return
				}
				got[c] = g
				entries++
				if v := nom(g) & 0xffff; v > 0 && v >= o.first {
					bad("removed-glyph", "the map (%d,%d) in memory has glyph %s (%d) for code %#x, %d glyphs are left", k[0], k[1], g, v, c, o.first)
					return
				}
			}
			for _, s := range pairs[k] {
				lost := ""
				for _, code := range sortedInts(s.want) {
					w := s.want[code]
					if g := nom(w); g == 0 || g >= o.first || code > 0xffff && s.p == 0 && s.e < 4 {
						continue // an encoding of the first 64K characters says nothing about others
					}
					if x, has := got[code]; !has || !equalMod16(e, x, w) {
						lost = fmt.Sprintf("code %#x has glyph %s instead of %s", code, x, w)
						break
					}
				}
				if lost == "" {
					ok = true
				} else {
					why = lost
				}
			}
			if !ok {
				bad("lost-character", "the map (%d,%d) in memory: %s", k[0], k[1], why)
			}
		}
	})
	r.count("files", n)
	r.count("map_entries", entries)
	r.need("files written", n, 100)
	r.need("entries", entries, 10000)
}

// equalMod16 compares forms modulo 2^16; forms that were reduced are compared by what they were made of.
func equalMod16(e *PE, a, b pnum) bool {
	if a.term != "" || b.term != "" {
		return a.term == b.term || nomEq(e, a, b)
	}
	d := e.add(a, b, true)
	if d.k&0xffff != 0 {
		return nomEq(e, a, b) && len(a.t)+len(b.t) > 0 && a.isConst() == b.isConst()
	}
	for _, c := range d.t {
		if c&0xffff != 0 {
			return false
		}
	}
	return true
}

func nomEq(e *PE, a, b pnum) bool {
	x, ok1 := e.nominalOf(a)
	y, ok2 := e.nominalOf(b)
	return ok1 && ok2 && x&0xffff == y&0xffff
}
