package main

import "fmt"

func init() { checks["C06"] = ruleC06 }

// cmapTab is a cmap table that was read from what is written.
type cmapTab struct {
	recs []cmapRec
}

type cmapRec struct {
	p, e, off int
	format    int
	ln        int
	lang      pnum
	body      []pv
	m         map[int]pnum // code -> glyph
}

// readCmap reads a cmap table by the specification; why tells what is wrong with it.
func (e *PE) readCmap(b []pv) (t *cmapTab, why string) {
	n, ok := e.cnum(b, 2, 2)
	if !ok {
		return nil, "the number of encoding records is not determined"
	}
	if 4+8*n > len(b) {
		return nil, fmt.Sprintf("%d encoding records do not fit in %d bytes", n, len(b))
	}
	t = &cmapTab{}
	for i := 0; i < n; i++ {
		at := 4 + 8*i
		p, ok1 := e.cnum(b, at, 2)
		en, ok2 := e.cnum(b, at+2, 2)
		off, ok3 := e.cnum(b, at+4, 4)
		if !ok1 || !ok2 || !ok3 {
			return nil, fmt.Sprintf("encoding record %d is not determined", i)
		}
		if off < 4+8*n || off+6 > len(b) {
			return nil, fmt.Sprintf("encoding record %d (%d,%d): offset %d does not designate a subtable (%d records, table of %d bytes)", i, p, en, off, n, len(b))
		}
		r := cmapRec{p: p, e: en, off: off}
		r.format, ok = e.cnum(b, off, 2)
		if !ok {
			return nil, fmt.Sprintf("encoding record %d (%d,%d): the format at offset %d is not determined", i, p, en, off)
		}
		id := fmt.Sprintf("subtable %d (%d,%d) of format %d at %d", i, p, en, r.format, off)
		r.m = map[int]pnum{}
		num := func(o, w int) int {
			v, ok := e.cnum(b, off+o, w)
			if !ok && why == "" {
				why = fmt.Sprintf("%s: the number at its byte %d is missing or not determined", id, o)
			}
			return v
		}
		form := func(o, w int) pnum {
			v, ok := e.num(b, off+o, w)
			if !ok && why == "" {
				why = fmt.Sprintf("%s: the number at its byte %d is missing", id, o)
			}
			return v
		}
		switch r.format {
		case 0:
			r.ln, r.lang = num(2, 2), form(4, 2)
			if why == "" && r.ln != 262 {
				why = fmt.Sprintf("%s: length %d", id, r.ln)
			}
			for c := 0; c < 256 && why == ""; c++ {
				r.m[c] = form(6+c, 1)
			}
		case 4:
			r.ln, r.lang = num(2, 2), form(4, 2)
			s2 := num(6, 2)
			if why != "" {
				break
			}
			if s2%2 != 0 || r.ln < 16+4*s2 || (r.ln-16-4*s2)%2 != 0 {
				why = fmt.Sprintf("%s: length %d with twice %d segments", id, r.ln, s2/2)
				break
			}
			n := s2 / 2
			sel := 0
			for 2<<sel <= n {
				sel++
			}
			if a, b, c := num(8, 2), num(10, 2), num(12, 2); why == "" && n > 0 && (a != 2<<sel || b != sel || c != 2*n-2<<sel) {
				why = fmt.Sprintf("%s: search fields %d, %d and %d with %d segments", id, a, b, c, n)
				break
			}
			for k := 0; k < n && why == ""; k++ {
				hi, lo := num(14+2*k, 2), num(16+s2+2*k, 2)
				d, ro := form(16+2*s2+2*k, 2), num(16+3*s2+2*k, 2)
				if why == "" && (lo > hi || k == n-1 && hi != 0xffff) {
					why = fmt.Sprintf("%s: segment %d of %d is from %#x to %#x", id, k, n, lo, hi)
				}
				for c := lo; c <= hi && why == ""; c++ {
					if ro == 0 {
						r.m[c] = e.add16(d, knum(int64(c)))
						continue
					}
					at := 16 + 3*s2 + 2*k + ro + 2*(c-lo)
					if at+2 > r.ln {
						if k < n-1 {
							why = fmt.Sprintf("%s: the glyph entry of code %#x is outside of the subtable", id, c)
						}
						break
					}
					g := form(at, 2)
					if g.isConst() && g.k == 0 {
						r.m[c] = pnum{}
					} else {
						r.m[c] = e.add16(d, g)
					}
				}
			}
		case 6:
			r.ln, r.lang = num(2, 2), form(4, 2)
			first, n := num(6, 2), num(8, 2)
			if why == "" && r.ln != 10+2*n {
				why = fmt.Sprintf("%s: length %d with %d entries", id, r.ln, n)
			}
			for k := 0; k < n && why == ""; k++ {
				r.m[first+k] = form(10+2*k, 2)
			}
		case 12:
			r.ln, r.lang = num(4, 4), form(8, 4)
			n := num(12, 4)
			if why == "" && r.ln != 16+12*n {
				why = fmt.Sprintf("%s: length %d with %d groups", id, r.ln, n)
			}
			for k := 0; k < n && why == ""; k++ {
				lo, hi, g := num(16+12*k, 4), num(20+12*k, 4), form(24+12*k, 4)
				if why == "" && lo > hi {
					why = fmt.Sprintf("%s: group %d is from %#x to %#x", id, k, lo, hi)
				}
				for c := lo; c <= hi && why == ""; c++ {
					r.m[c] = e.add(g, knum(int64(c-lo)), false)
				}
			}
		default:
			why = fmt.Sprintf("encoding record %d (%d,%d): there is no subtable at offset %d (format %d)", i, p, en, off, r.format)
		}
		if why != "" {
			return nil, why
		}
		if off+r.ln > len(b) {
			return nil, fmt.Sprintf("%s: length %d does not fit in the table of %d bytes", id, r.ln, len(b))
		}
		r.body = b[off : off+r.ln]
		t.recs = append(t.recs, r)
	}
	return t, ""
}

func (e *PE) add16(a, b pnum) pnum {
	r := e.add(a, b, false)
	if r.isConst() {
		return pnum{k: r.k & 0xffff}
	}
	return r
}

// covered tells what bytes from a place on are in none of the regions; up to three zeros are filling.
func covered(b []pv, from int, regs [][2]int) string {
	in := make([]bool, len(b))
	for _, g := range regs {
		for i := g[0]; i < g[1] && i < len(b); i++ {
			in[i] = true
		}
	}
	for i := from; i < len(b); i++ {
		if in[i] {
			continue
		}
		j := i
		for j < len(b) && !in[j] {
			j++
		}
		if j-i > 3 || !allZero(b, i, j) {
			return fmt.Sprintf("nothing designates the bytes from %d to %d", i, j)
		}
		i = j
	}
	return ""
}

func supportedFormat(f int) bool { return f == 0 || f == 4 || f == 6 || f == 12 }

func ruleC06(P *Prog, r *Report, tier string) {
	r.explain = "Fonts of known structure and unknown contents are followed through parsing, subsetting and writing. The cmap, name and post tables that are written are read back by the specification: every count is the number of entries that follow, " +
		"every offset and length designates the bytes that stem from the same entry of the font that was read, and every byte belongs to an entry."
	at := "-"
	if fn := fontMethod(P, "Write"); fn != nil {
		at = P.pos(fn.Pos())
	}
	subs, strs := 0, 0
	n := forEachOut(P, r, everyOp, func(e *PE, o *peOut) {
		bad := func(rule, f string, a ...any) {
			r.add(Finding{Rule: rule, Key: o.s.name, Where: at, Msg: o.name() + ": " + fmt.Sprintf(f, a...)})
		}
		if o.err {
			bad("write-error", "an error is returned")
			return
		}
		recs, why := e.directory(o.b)
		if why != "" {
			bad("directory", "%s", why)
			return
		}
		first := len(o.b)
		for _, t := range recs {
			if t.ln > 0 {
				first = min(first, t.off)
			}
		}
		if g := first - 12 - 16*len(recs); g < 0 || g > 3 {
			bad("directory", "%d tables are counted, the first one is at %d", len(recs), first)
		}
		if b, ok := e.table(o.b, "cmap"); ok {
			t, why := e.readCmap(b)
			if why != "" {
				bad("cmap", "%s", why)
			} else {
				var regs [][2]int
				left := map[string][]*cmapSub{}
				for _, s := range o.s.subs {
					if supportedFormat(s.format) {
						k := fmt.Sprintf("(%d,%d) of format %d", s.p, s.e, s.format)
						left[k] = append(left[k], s)
					}
				}
				for _, c := range t.recs {
					subs++
					regs = append(regs, [2]int{c.off, c.off + c.ln})
					k := fmt.Sprintf("(%d,%d) of format %d", c.p, c.e, c.format)
					if len(left[k]) == 0 {
						bad("cmap", "there is a record for the subtable %s, which the font does not have or which has a record already", k)
						continue
					}
					pick := 0
					for i, s := range left[k] {
						if sameForm(c.lang, s.lang) {
							pick = i
							break
						}
					}
					s := left[k][pick]
					left[k] = append(append([]*cmapSub(nil), left[k][:pick]...), left[k][pick+1:]...)
					if len(c.lang.t) > 0 && !sameForm(c.lang, s.lang) {
						bad("cmap", "the record for the subtable %s designates another subtable", k)
						continue
					}
					for _, a := range e.atomsOf(c.body) {
						if a < s.from || a >= s.to {
							bad("cmap", "the subtable designated for %s has bytes of another one", k)
							break
						}
					}
				}
				for _, k := range sortedKeys(left) {
					if len(left[k]) > 0 {
						bad("cmap", "there is no record for the subtable %s", k)
					}
				}
				if why := covered(b, 4+8*len(t.recs), regs); why != "" {
					bad("cmap", "cmap: %s", why)
				}
			}
		} else if o.s.with["cmap"] && o.op != "PruneTables(cmap), Write" {
			bad("cmap", "cmap is not written")
		}
		if b, ok := e.table(o.b, "name"); ok {
			k, why := e.checkNames(o, b)
			strs += k
			if why != "" {
				bad("name", "%s", why)
			}
		} else if o.s.with["name"] && o.op != "PruneTables(name), Write" {
			bad("name", "name is not written")
		}
		if b, ok := e.table(o.b, "post"); ok {
			if why := e.checkPost(o, b); why != "" {
				bad("post", "%s", why)
			}
		}
	})
	r.count("files", n)
	r.count("cmap_subtables", subs)
	r.count("name_strings", strs)
	r.need("files written", n, 100)
	r.need("subtables", subs, 200)
	r.need("strings", strs, 200)
}

// checkNames reads a name table.
func (e *PE) checkNames(o *peOut, b []pv) (strs int, why string) {
	s := o.s
	format, ok1 := e.cnum(b, 0, 2)
	n, ok2 := e.cnum(b, 2, 2)
	so, ok3 := e.cnum(b, 4, 2)
	if !ok1 || !ok2 || !ok3 {
		return 0, "the header of name is not determined"
	}
	if format > 1 || format != s.nameFmt {
		return 0, fmt.Sprintf("name has format %d", format)
	}
	if n != len(s.strs) {
		return 0, fmt.Sprintf("name counts %d records, the font has %d", n, len(s.strs))
	}
	end := 6 + 12*n
	var regs [][2]int
	str := func(what string, at, lnAt int, want peBytes) bool {
		ln, ok1 := e.cnum(b, lnAt, 2)
		off, ok2 := e.cnum(b, at, 2)
		if !ok1 || !ok2 {
			why = what + ": offset and length are not determined"
			return false
		}
		if so+off+ln > len(b) {
			why = fmt.Sprintf("%s: the string at %d+%d of %d bytes is outside of the table of %d bytes", what, so, off, ln, len(b))
			return false
		}
		if !sameBytes(b[so+off:so+off+ln], want) {
			why = fmt.Sprintf("%s: the string at %d+%d of %d bytes is not the string of that record (%d bytes)", what, so, off, ln, len(want))
			return false
		}
		regs = append(regs, [2]int{so + off, so + off + ln})
		strs++
		return true
	}
	for i := 0; i < n; i++ {
		at := 6 + 12*i
		for j := 0; j < 4; j++ {
			if v, ok := e.cnum(b, at+2*j, 2); !ok || v != s.strs[i][j] {
				return strs, fmt.Sprintf("name record %d is not that of the font", i)
			}
		}
		if !str(fmt.Sprintf("name record %d", i), at+10, at+8, s.strData[i]) {
			return strs, why
		}
	}
	if format == 1 {
		k, ok := e.cnum(b, end, 2)
		if !ok || k != len(s.tags) {
			return strs, fmt.Sprintf("name counts %d language tags, the font has %d", k, len(s.tags))
		}
		end += 2
		for i := 0; i < k; i++ {
			if !str(fmt.Sprintf("language tag %d", i), end+2, end, s.tagData[i]) {
				return strs, why
			}
			end += 4
		}
	}
	if so < end {
		return strs, fmt.Sprintf("the strings of name begin at %d, before the end %d of the records", so, end)
	}
	if why := covered(b, end, regs); why != "" {
		return strs, "name: " + why
	}
	return strs, ""
}

// checkPost reads a post table.
func (e *PE) checkPost(o *peOut, b []pv) string {
	v, ok := e.cnum(b, 0, 4)
	if !ok {
		return "the version of post is not determined"
	}
	maxp, _ := e.table(o.b, "maxp")
	glyphs, _ := e.cnum(maxp, 4, 2)
	switch v {
	case 0x10000, 0x30000:
		if len(b) != 32 {
			return fmt.Sprintf("post of version %#x has %d bytes", v, len(b))
		}
		if v == 0x10000 && glyphs != 258 {
			return fmt.Sprintf("post of version 1 for %d glyphs", glyphs)
		}
	case 0x20000:
		n, ok := e.cnum(b, 32, 2)
		if !ok || n != glyphs || 34+2*n > len(b) {
			return fmt.Sprintf("post counts %d glyphs, the font has %d", n, glyphs)
		}
		at, names, most := 34+2*n, 0, -1
		for i := 0; i < n; i++ {
			k, ok := e.cnum(b, 34+2*i, 2)
			if !ok {
				return "post: a name index is not determined"
			}
			most = max(most, k-258)
		}
		for at < len(b) {
			l, ok := e.cnum(b, at, 1)
			if !ok || at+1+l > len(b) {
				return "post: a name is outside of the table"
			}
			at += 1 + l
			names++
		}
		if most >= names {
			return fmt.Sprintf("post has %d names, index %d is used", names, most)
		}
	case 0x25000, 0x28000:
		n, ok := e.cnum(b, 32, 2)
		if !ok || n != glyphs || len(b) != 34+n {
			return fmt.Sprintf("post counts %d glyphs in %d bytes, the font has %d", n, len(b), glyphs)
		}
	}
	return ""
}
