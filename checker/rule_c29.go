package main

import (
	"fmt"
	"sort"
	"strings"
)

func init() {
	checks["C29"] = ruleC29
	checks["C30"] = ruleC30
}

var supportedTables = []string{"OS/2", "cmap", "cvt", "fpgm", "glyf", "head", "hhea", "hmtx", "loca", "maxp", "name", "post", "prep"}

func opPruneAll(ts ...string) fontOp {
	return fontOp{name: fmt.Sprintf("PruneTables(%s)", strings.Join(ts, ", ")), first: -1, apply: func(e *PE, f pv) (pv, bool) {
		var a []pv
		for _, t := range ts {
			a = append(a, t)
		}
		_, er := e.method("PruneTables", f, mkBytes(a))
		return f, er
	}, prune: ts}
}

// pruneOps are histories with and without pruning.
func pruneOps(s *fontShape) [][]fontOp {
	n := len(s.glyphs)
	r := everyOp(s)
	if s.large || n > 200 {
		return r
	}
	for _, ts := range [][]string{{}, {"cmap"}, {"post"}, {"name"}, {"post", "cmap"}, {"name", "cmap", "post"}, {"cmap", "name", "cmap"}, {"GPOS", "post"}, {"Post"}, {""}} {
		r = append(r, []fontOp{opPruneAll(ts...)})
	}
	r = append(r, []fontOp{opPruneAll("post"), opFirst(n - 1)}, []fontOp{opPruneAll("name", "post"), opOptimize()}, []fontOp{opFirst(n - 1), opPruneAll("cmap")}, []fontOp{opPruneAll("post"), opPruneAll("cmap")},
		[]fontOp{opFirst(n - 1), opPruneAll("name", "post"), opFirst(n - 2), opPruneAll("cmap")})
	if !s.noGlyf {
		r = append(r, []fontOp{opPruneAll("cmap"), opKeep(n - 1)}, []fontOp{opKeep(n - 1), opPruneAll("post", "name")})
	}
	return r
}

var infoNames = map[string]string{"head": "head", "hhea": "hhea", "hmtx": "hmtx", "loca": "loca", "glyf": "glyf", "cmap": "cmap", "name": "name", "OS/2": "os2", "post": "post"}

func ruleC29(P *Prog, r *Report, tier string) {
	r.explain = "Fonts of known structure and unknown contents are followed through histories of subsetting, optimising and pruning, and writing. The tags in the directory written must be those of the supported tables of the source less the pruned ones, each once; " +
		"table information is followed for every table of the same font and must say missing for exactly those that are not there."
	at := "-"
	if fn := fontMethod(P, "PruneTables"); fn != nil {
		at = P.pos(fn.Pos())
	}
	tables, infos := 0, 0
	info := fontMethod(P, "TableInfo")
	n := forEachOutPar(P, r, pruneOps, func(e *PE, o *peOut) func() {
		var fs []Finding
		nt, ni := 0, 0
		bad := func(rule, f string, a ...any) {
			fs = append(fs, Finding{Rule: rule, Key: o.s.name, Where: at, Msg: o.name() + ": " + fmt.Sprintf(f, a...)})
		}
		done := func() {
			for _, f := range fs {
				r.add(f)
			}
			tables += nt
			infos += ni
		}
		if o.err {
			bad("write-error", "an error is returned")
			return done
		}
		recs, why := e.directory(o.b)
		if why != "" {
			bad("directory", "%s", why)
			return done
		}
		want := map[string]int{}
		for _, t := range supportedTables {
			if _, ok := o.s.bodies[t]; ok && !o.pruned[t] {
				want[t] = 1
			}
		}
		got := map[string]int{}
		for _, x := range recs {
			nt++
			got[trimTag(x.tag)]++
		}
		for _, t := range sortedKeys(want) {
			if got[t] == 0 {
				bad("lost-table", "table %s is not written", t)
			}
		}
		for _, t := range sortedKeys(got) {
			if want[t] == 0 {
				bad("extra-table", "table %s is written", t)
			} else if got[t] > 1 {
				bad("extra-table", "table %s is written %d times", t, got[t])
			}
		}
		if info == nil {
			return done
		}
		var ts []string
		for t := range infoNames {
			ts = append(ts, t)
		}
		sort.Strings(ts)
		for _, t := range ts {
			ni++
			e.steps, e.depth = 0, 0
			var v pv
			if msg := e.run(func() { v = e.call(info, []pv{o.font, infoNames[t]}, nil) }); msg != "" {
				bad("analysis", "TableInfo(%s): %s", infoNames[t], msg)
				continue
			}
			missing := strings.Contains(pstr(v), "missing")
			if missing == (want[t] > 0) {
				if missing {
					bad("table-info", "TableInfo(%s) says missing", infoNames[t])
				} else {
					bad("table-info", "TableInfo(%s) does not say missing", infoNames[t])
				}
			}
		}
		return done
	})
	r.count("files", n)
	r.count("tables", tables)
	r.count("table_informations", infos)
	r.need("files written", n, 200)
	r.need("tables", tables, 1000)
}

func ruleC30(P *Prog, r *Report, tier string) {
	r.explain = "Fonts of known structure and unknown contents are followed through subsetting and writing; then the query for the location of the data of a glyph is followed for every glyph index and for indices beyond. " +
		"The bytes it designates in the glyf table that is written must be the description that the source has for the glyph, or none when the glyph was not kept; an index beyond the glyphs must give an error."
	query := fontMethod(P, "GetGlyphDataOffset")
	if query == nil {
		r.add(Finding{Rule: "analysis", Key: "query", Where: "-", Msg: "GetGlyphDataOffset is not found"})
		return
	}
	at := P.pos(query.Pos())
	locs, beyond := 0, 0
	all := append(shapes(), compositeShapes()...)
	n := forShapes(P, r, all, func(s *fontShape) [][]fontOp {
		if s.noGlyf {
			return nil
		}
		return append(subsetOps(s), nil, []fontOp{opOptimize()})
	}, func(e *PE, o *peOut) func() {
		var fs []Finding
		nl, nb := 0, 0
		bad := func(rule, f string, a ...any) {
			fs = append(fs, Finding{Rule: rule, Key: o.s.name, Where: at, Msg: o.name() + ": " + fmt.Sprintf(f, a...)})
		}
		done := func() {
			for _, f := range fs {
				r.add(f)
			}
			locs += nl
			beyond += nb
		}
		if o.err {
			return done
		}
		mx, _ := e.table(o.b, "maxp")
		count, ok := e.cnum(mx, 4, 2)
		if !ok {
			bad("analysis", "the number of glyphs is not known")
			return done
		}
		glyf, _ := e.table(o.b, "glyf")
		need := o.s.closure(o.keep)
		for _, g := range append(seq(count), count, count+1, 65535) {
			e.steps, e.depth = 0, 0
			var t ptuple
			if msg := e.run(func() { t, _ = e.call(query, []pv{o.font, knum(int64(g))}, nil).(ptuple) }); msg != "" || len(t) != 3 {
				bad("analysis", "glyph %d: %s", g, msg)
				return done
			}
			er, _ := t[2].(piface)
			if g >= count {
				nb++
				if er.t == nil {
					bad("beyond", "there is a location for glyph %d of %d", g, count)
				}
				continue
			}
			nl++
			if er.t != nil {
				bad("no-location", "there is an error for glyph %d of %d", g, count)
				continue
			}
			off, ok1 := t[0].(pnum)
			ln, ok2 := t[1].(pnum)
			if !ok1 || !ok2 || !off.isConst() || !ln.isConst() {
				bad("analysis", "the location of glyph %d is not known", g)
				continue
			}
			a, b := int(off.k), int(off.k)+int(ln.k)
			if o.keep == nil && o.first < 0 { // where it was in the source
				glyf = o.s.bodies["glyf"]
			}
			if a < 0 || b < a || b > len(glyf) {
				bad("outside", "the location of glyph %d is %d to %d, there are %d bytes", g, a, b, len(glyf))
				continue
			}
			var want []pv = o.s.descs[g]
			if o.keep != nil && !need[g] {
				if b == a {
					continue
				}
			}
			if !sameBytes(glyf[a:b], want) {
				bad("location", "the location of glyph %d (%d to %d) is not that of its data (%d bytes)", g, a, b, len(want))
			}
		}
		return done
	})
	r.count("files", n)
	r.count("glyph_locations", locs)
	r.count("indices_beyond", beyond)
	r.need("files written", n, 100)
	r.need("glyph locations", locs, 500)
}

func seq(n int) []int {
	var r []int
	for i := 0; i < n; i++ {
		r = append(r, i)
	}
	return r
}
