package main

import (
	"fmt"
	"sort"
)

func init() { checks["C07"] = ruleC07 }

// everyOp is what is done to fonts before they are written.
func everyOp(s *fontShape) [][]fontOp {
	n := len(s.glyphs)
	r := [][]fontOp{{}, {opFirst(n - 1)}, {opOptimize()}}
	if s.large {
		return r[:2]
	}
	if n < 200 {
		r = append(r, []fontOp{opFirst(2)}, []fontOp{opFirst(0)}, []fontOp{opFirst(n - 1), opFirst(1)})
		if !s.noGlyf {
			r = append(r, []fontOp{opKeep(0, 2)}, []fontOp{opKeep(n-2, 1)}, []fontOp{opKeep(n - 1), opFirst(n - 2)})
		}
		for _, t := range []string{"cmap", "post", "name"} {
			if s.with[t] {
				r = append(r, []fontOp{opPrune(t)})
			}
		}
	}
	return r
}

func ruleC07(P *Prog, r *Report, tier string) {
	r.explain = "Fonts of known structure and unknown contents are followed through parsing, subsetting and writing; the bytes written are known up to the unknown contents (affine forms). The directory must describe exactly the tables: " +
		"count, tags, offsets, lengths that cover the file, the checksum equal (as a form, for all contents) to the sum of the words of the table; the adjustment equal to the difference of the constant and the sum of the words of the file."
	at := "-"
	if fn := fontMethod(P, "Write"); fn != nil {
		at = P.pos(fn.Pos())
	}
	tables, sums := 0, 0
	n := forEachOut(P, r, everyOp, func(e *PE, o *peOut) {
		bad := func(rule, f string, a ...any) {
			r.add(Finding{Rule: rule, Key: o.s.name, Where: at, Msg: o.name() + ": " + fmt.Sprintf(f, a...)})
		}
		if o.err {
			bad("write-error", "an error is returned")
			return
		}
		recs, why := e.directory(o.b)
		if why != "" {
			bad("directory", "%s", why)
			return
		}
		seen := map[string]bool{}
		byOff := append([]outRec(nil), recs...)
		sort.SliceStable(byOff, func(i, j int) bool { return byOff[i].off < byOff[j].off })
		end := 12 + 16*len(recs)
		for _, t := range byOff {
			if t.ln == 0 {
				continue
			}
			if t.off < end {
				bad("offset", "table %s at %d begins before the end %d of what precedes it", t.tag, t.off, end)
				return
			}
			if t.off-end > 3 || !allZero(o.b, end, t.off) {
				bad("offset", "the bytes from %d to %d before table %s belong to no table", end, t.off, t.tag)
			}
			end = t.off + t.ln
		}
		if end > len(o.b) || len(o.b)-end > 3 || !allZero(o.b, end, len(o.b)) {
			bad("length", "the tables end at %d, the file has %d bytes", end, len(o.b))
			return
		}
		sel := 0
		for 2<<sel <= len(recs) {
			sel++
		}
		for i, w := range []int{16 << sel, sel, 16*len(recs) - 16<<sel} {
			if v, ok := e.cnum(o.b, 6+2*i, 2); !ok || v != w {
				bad("search", "the %s is %d instead of %d with %d tables", []string{"searchRange", "entrySelector", "rangeShift"}[i], v, w, len(recs))
			}
		}
		head := -1
		for i, t := range recs {
			tables++
			if i > 0 && t.tag < recs[i-1].tag {
				bad("order", "the record of table %q is after that of %q", t.tag, recs[i-1].tag)
			}
			if seen[t.tag] {
				bad("tag", "table %s has two records", t.tag)
			}
			seen[t.tag] = true
			if t.off+t.ln > len(o.b) {
				bad("offset", "table %s is outside of the file", t.tag)
				continue
			}
			body := o.b[t.off : t.off+t.ln]
			// what is in the table must come from the table of that tag
			if t.tag == "head" {
				head = t.off
				body = zeroed(body, 8, 4)
			}
			for _, a := range e.atomsOf(body) {
				if own, ok := o.s.owner[a]; ok && own != trimTag(t.tag) && !(trimTag(t.tag) == "hmtx" && own == "hhea") {
					bad("tag", "the record of table %q designates bytes of table %s", t.tag, own)
					break
				}
			}
			some := len(o.s.bodies[trimTag(t.tag)]) > 0
			if trimTag(t.tag) == "glyf" && o.first >= 0 {
				some = false
				for g, d := range o.s.descs {
					some = some || g < o.first && len(d) > 0
				}
			}
			if len(body) == 0 && some && o.first != 0 && o.keep == nil {
				bad("length", "table %s is empty", t.tag)
			}
			if why := constHead(e, trimTag(t.tag), body); why != "" {
				bad("tag", "the record of table %q: %s", t.tag, why)
			}
			want, ok := e.sumWords(body)
			sums++
			if !ok || !sameForm(mod32(t.sum), want) {
				bad("checksum", "the checksum of table %q is not the sum of its bytes (difference %s)", t.tag, cut(mod32(e.add(t.sum, want, true)).String(), 80))
			}
		}
		if head < 0 {
			bad("tag", "there is no head table")
			return
		}
		adj, ok := e.num(o.b, head+8, 4)
		sum, ok2 := e.sumWords(zeroed(o.b, head+8, 4))
		want := mod32(e.add(pknum(0xB1B0AFBA), sum, true))
		if !ok || !ok2 || !sameForm(mod32(adj), want) {
			bad("adjustment", "the adjustment is not 0xB1B0AFBA minus the checksum of the file (difference %s)", cut(mod32(e.add(adj, want, true)).String(), 80))
		}
		for _, t := range expectTables(o) {
			if !seen[padTag(t)] && !seen[t] {
				bad("missing", "table %s is not written", t)
			}
		}
	})
	r.count("files", n)
	r.count("tables", tables)
	r.count("checksums", sums)
	r.need("files written", n, 100)
	r.need("checksums", sums, 600)
}

func cut(s string, n int) string {
	if len(s) > n {
		return s[:n] + "…"
	}
	return s
}

func padTag(t string) string {
	for len(t) < 4 {
		t += " "
	}
	return t
}

func trimTag(t string) string {
	for len(t) > 0 && t[len(t)-1] == ' ' {
		t = t[:len(t)-1]
	}
	return t
}

func allZero(b []pv, i, j int) bool {
	for ; i < j; i++ {
		if n, ok := b[i].(pnum); !ok || !n.isConst() || n.k != 0 {
			return false
		}
	}
	return true
}

// constHead tells whether a table with known first bytes is what its tag says.
func constHead(e *PE, tag string, b []pv) string {
	if tag == "head" {
		if k, ok := e.cnum(b, 12, 4); !ok || k != 0x5F0F3CF5 {
			return "there is no magic number"
		}
		if len(b) != 54 {
			return fmt.Sprintf("%d bytes instead of 54", len(b))
		}
	}
	return ""
}

// expectTables lists the tables that must be written.
func expectTables(o *peOut) []string {
	var r []string
	for t := range o.s.bodies {
		switch t {
		case "GPOS", "kern", "DSIG":
			continue
		}
		if o.op == "PruneTables("+t+"), Write" {
			continue
		}
		r = append(r, t)
	}
	sort.Strings(r)
	return r
}
