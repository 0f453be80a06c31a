package main

import (
	"fmt"
	"sort"
	"strings"
)

func init() {
	checks["C27"] = ruleC27
	checks["C28"] = ruleC28
}

// metrics are the advance widths and left side bearings of the glyphs by hhea and hmtx.
func (e *PE) metrics(tab func(string) ([]pv, bool), glyphs int) (adv, lsb []pnum, why string) {
	hhea, ok := tab("hhea")
	hmtx, ok2 := tab("hmtx")
	if !ok || !ok2 {
		return nil, nil, "there is no hhea or hmtx table"
	}
	k, ok := e.cnum(hhea, 34, 2)
	if !ok {
		return nil, nil, "the number of metrics is not determined"
	}
	if glyphs > 0 && k == 0 {
		return nil, nil, "there are no metrics"
	}
	for g := 0; g < glyphs; g++ {
		at, lat := 4*g, 4*g+2
		if g >= k {
			at, lat = 4*(k-1), 4*k+2*(g-k)
		}
		a, ok1 := e.num(hmtx, at, 2)
		l, ok2 := e.num(hmtx, lat, 2)
		if !ok1 || !ok2 {
			return nil, nil, fmt.Sprintf("the metrics of glyph %d are outside of the table (%d bytes, %d metrics)", g, len(hmtx), k)
		}
		adv, lsb = append(adv, a), append(lsb, l)
	}
	return adv, lsb, ""
}

// renderOps are the subsets and what can be combined with them.
func renderOps(s *fontShape) [][]fontOp {
	n := len(s.glyphs)
	r := everyOp(s)
	if s.large || n > 200 {
		return r
	}
	for k := 1; k < n; k += 1 + k/4 {
		r = append(r, []fontOp{opFirst(k)})
		if !s.noGlyf {
			r = append(r, []fontOp{opKeep(k)})
		}
	}
	if !s.noGlyf {
		r = append(r, []fontOp{opOptimize(), opKeep(n-1, 1)}, []fontOp{opKeep(n - 1), opOptimize()}, []fontOp{opKeep(n-1, 0), opKeep(n - 1)}, []fontOp{opKeep(0)})
	}
	r = append(r, []fontOp{opFirst(n - 1), opOptimize(), opFirst(n - 2)})
	return r
}

func ruleC28(P *Prog, r *Report, tier string) {
	r.explain = "Fonts of known structure and unknown contents are followed through every kind of subset and writing. Everything that a rasteriser takes from the supported tables for a kept glyph must be the same form as in the source: the bytes of its description and of those of its components (at any depth), " +
		"its advance width and left side bearing (read by hhea and hmtx), the bytes of cvt, fpgm and prep, head but for checksum adjustment and location format, maxp but for the number of glyphs, hhea but for the number of metrics. A composite whose components are beyond the first glyphs that were asked for is not counted (the documentation of SubsetFirst excepts it)."
	at := "-"
	if fn := fontMethod(P, "SubsetKeepIndices"); fn != nil {
		at = P.pos(fn.Pos())
	}
	glyphs, mets := 0, 0
	judge := func(e *PE, o *peOut) {
		bad := func(rule, f string, a ...any) {
			r.add(Finding{Rule: rule, Key: o.s.name, Where: at, Msg: o.name() + ": " + fmt.Sprintf(f, a...)})
		}
		if o.err {
			bad("subset-error", "an error is returned")
			return
		}
		out := func(t string) ([]pv, bool) { return e.table(o.b, t) }
		src := func(t string) ([]pv, bool) { b, ok := o.s.bodies[t]; return b, ok }
		same := func(t string, skip ...[2]int) {
			a, ok := src(t)
			if !ok {
				return
			}
			b, ok := out(t)
			if !ok {
				if len(a) > 0 {
					bad("table", "table %s is not written", t)
				}
				return
			}
			if len(a) != len(b) {
				bad("table", "table %s has %d bytes, %d in the source", t, len(b), len(a))
				return
			}
			for _, z := range skip {
				a, b = zeroed(a, z[0], z[1]), zeroed(b, z[0], z[1])
			}
			for i := range a {
				if pstr(a[i]) != pstr(b[i]) {
					bad("table", "byte %d of table %s is not that of the source", i, t)
					return
				}
			}
		}
		for _, t := range []string{"cvt", "fpgm", "prep"} {
			same(t)
		}
		same("head", [2]int{8, 4}, [2]int{50, 2})
		same("maxp", [2]int{4, 2})
		same("hhea", [2]int{34, 2})
		maxp, ok := out("maxp")
		if !ok {
			return
		}
		count, ok := e.cnum(maxp, 4, 2)
		if !ok {
			bad("glyphs", "the number of glyphs is not determined")
			return
		}
		// the kept glyphs
		var keep []int
		if o.keep != nil {
			for _, g := range o.keep {
				if o.first < 0 || g < o.first {
					keep = append(keep, g)
				}
			}
		} else {
			for g := 0; g < len(o.s.glyphs) && (o.first < 0 || g < o.first); g++ {
				keep = append(keep, g)
			}
		}
		if _, ok := src("hmtx"); ok && count > 0 {
			sa, sl, why1 := e.metrics(src, len(o.s.glyphs))
			oa, ol, why2 := e.metrics(out, count)
			if why1 != "" || why2 != "" {
				bad("metrics", "%s", why1+why2)
				return
			}
			for _, g := range keep {
				if g >= count {
					bad("glyphs", "glyph %d is kept, %d glyphs are written", g, count)
					return
				}
				mets++
				if !sameForm(sa[g], oa[g]) || !sameForm(sl[g], ol[g]) {
					bad("metrics", "glyph %d has advance width %s and bearing %s, in the source %s and %s", g, oa[g], ol[g], sa[g], sl[g])
					return
				}
			}
		}
		if o.s.noGlyf {
			return
		}
		gl, why := e.outGlyphs(o)
		if why != "" {
			bad("glyphs", "%s", why)
			return
		}
		for _, g := range keep {
			whole := true
			need := sortedInts(o.s.closure([]int{g}))
			for _, c := range need {
				whole = whole && c < len(gl)
			}
			if !whole && o.first >= 0 {
				continue
			}
			for _, c := range need {
				glyphs++
				if c >= len(gl) || !sameBytes(gl[c], o.s.descs[c]) {
					bad("glyphs", "glyph %d is kept, the description of glyph %d is not", g, c)
					return
				}
			}
		}
	}
	n := forEachOut(P, r, renderOps, judge)
	n += forShapes(P, r, widthShapes(), func(s *fontShape) [][]fontOp {
		k := len(s.glyphs)
		return [][]fontOp{{opOptimize()}, {opFirst(k - 2)}, {opFirst(k - 1), opOptimize()}, {opKeep(k - 1)}}
	}, func(e *PE, o *peOut) func() { return func() { judge(e, o) } })
	r.count("files", n)
	r.count("descriptions", glyphs)
	r.count("metrics", mets)
	r.need("files written", n, 200)
	r.need("descriptions", glyphs, 500)
	r.need("metrics", mets, 300)
}

func ruleC27(P *Prog, r *Report, tier string) {
	r.explain = "Fonts of known structure and unknown contents, and subsets of them, are written, and what is written is followed through parsing and writing again. There must be no error, the second file must be byte for byte the first (as forms, that is for all contents), " +
		"the maps for every platform and encoding and the names must be the same, and the tables of fixed layout of a font that was not changed must be those of the source."
	at := "-"
	if fn := fontMethod(P, "Write"); fn != nil {
		at = P.pos(fn.Pos())
	}
	maps, names := 0, 0
	n := forEachOutPar(P, r, renderOps, func(e *PE, o *peOut) func() {
		fs, m, k := rewritten(P, e, o, at)
		return func() {
			for _, f := range fs {
				r.add(f)
			}
			maps += m
			names += k
		}
	})
	r.count("files", n)
	r.count("maps", maps)
	r.count("name_tables", names)
	r.need("files written", n, 200)
	r.need("maps", maps, 200)
}

// rewritten judges what is written by parsing it and writing again.
func rewritten(P *Prog, e *PE, o *peOut, at string) (fs []Finding, maps, names int) {
	bad := func(rule, f string, a ...any) {
		fs = append(fs, Finding{Rule: rule, Key: o.s.name, Where: at, Msg: o.name() + ": " + fmt.Sprintf(f, a...)})
	}
	if o.err {
		bad("write-error", "an error is returned")
		return
	}
	var font2 pv
	var b2 []pv
	er := false
	e.steps, e.depth = 0, 0
	msg := e.run(func() {
		x, ok := e.call(P.lib.Func("Parse"), []pv{newSource(append([]pv(nil), o.b...))}, nil).(ptuple)
		if !ok || len(x) != 2 {
			e.fail("results of Parse")
		}
		if i, ok := x[1].(piface); !ok || i.t != nil {
			er = true
			return
		}
		font2 = x[0]
		e.steps = 0
		b2, er = e.writeTo(font2)
	})
	if msg != "" {
		bad("analysis", "%s", msg)
		return
	}
	if er {
		bad("reparse-error", "what is written cannot be parsed and written again")
		return
	}
	if !sameBytes(o.b, b2) {
		i := 0
		for i < len(o.b) && i < len(b2) && pstr(o.b[i]) == pstr(b2[i]) {
			i++
		}
		in := "the directory"
		if recs, why := e.directory(o.b); why == "" {
			for _, t := range recs {
				if i >= t.off && i < t.off+t.ln {
					in = fmt.Sprintf("table %s, byte %d", t.tag, i-t.off)
				}
			}
		}
		bad("reparse-bytes", "writing what was written and parsed gives other bytes (%d and %d, first at %d in %s)", len(o.b), len(b2), i, in)
		return
	}
	seen := map[[2]int]bool{}
	for _, s := range o.s.subs {
		k := [2]int{s.p, s.e}
		if seen[k] || !o.s.with["cmap"] {
			continue
		}
		seen[k] = true
		maps++
		var t [2]string
		if msg := e.run(func() {
			for i, f := range []pv{o.font, font2} {
				e.steps = 0
				m, _ := e.call(fontMethod(P, "GetCmap"), []pv{f, knum(int64(k[0])), knum(int64(k[1]))}, nil).(*pmap)
				t[i] = e.mapRead(m)
			}
		}); msg != "" {
			bad("analysis", "%s", msg)
		} else if t[0] != t[1] {
			bad("reparse-map", "the map (%d,%d) after writing and parsing is %s, before %s", k[0], k[1], around(t[1], t[0]), around(t[0], t[1]))
		}
	}
	if o.s.with["name"] {
		names++
		ch, nom := e.choose, e.nominal
		e.choose = printable
		var t [2]string
		msg := e.run(func() {
			for i, f := range []pv{o.font, font2} {
				e.steps = 0
				t[i] = deepText(e.call(fontMethod(P, "GetNameRecords"), []pv{f}, nil), 0)
			}
		})
		e.choose, e.nominal = ch, nom
		if msg != "" {
			bad("analysis", "%s", msg)
		} else if t[0] != t[1] {
			bad("reparse-names", "the names after writing and parsing are %s, before %s", around(t[1], t[0]), around(t[0], t[1]))
		}
	}
	if o.op == "Write" {
		for _, t := range []string{"head", "hhea", "maxp", "hmtx", "OS/2", "post", "cvt", "fpgm", "prep"} {
			a, ok := o.s.bodies[t]
			if !ok {
				continue
			}
			b, _ := e.table(o.b, t)
			if t == "head" {
				a, b = zeroed(a, 8, 4), zeroed(b, 8, 4)
			}
			if t == "post" && len(a) > 32 { // names of glyphs are not written, by design
				a, b = append([]pv(nil), a[4:32]...), b[min(4, len(b)):]
			}
			if !sameBytes(a, b) {
				bad("written-table", "table %s (%d bytes) is not that of the source (%d bytes)", t, len(b), len(a))
			}
		}
	}
	return
}

// mapRead is the text of a map without the entries of no glyph.
func (e *PE) mapRead(m *pmap) string {
	if m == nil {
		return "none"
	}
	var s []string
	for _, k := range m.keys {
		v := m.m[pstr(k)].v
		if n, ok := v.(pnum); ok {
			g, ok := e.nominalOf(n)
			if ok && g&0xffff == 0 {
				continue
			}
			if ok { // runs of glyphs are found by the nominal values
				v = pknum(g & 0xffff)
			}
		}
		s = append(s, pstr(k)+":"+pstr(v))
	}
	sort.Strings(s)
	return strings.Join(s, " ")
}

// around is the part of a text where it differs from another.
func around(a, b string) string {
	i := 0
	for i < len(a) && i < len(b) && a[i] == b[i] {
		i++
	}
	lo, hi := max(0, i-30), min(len(a), i+50)
	return "…" + a[lo:hi] + "…"
}
