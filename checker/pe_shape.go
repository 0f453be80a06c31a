package main

import "fmt"

// Shapes of whole fonts: which tables there are, how many entries and bytes they have. What is in them is unknown,
// except what says how much follows.

type fontShape struct {
	name   string
	glyphs []int         // bytes of each description
	comps  map[int][]int // composite glyphs and their components
	none   map[int]bool  // glyphs of no contours
	broken map[int]int   // composite glyphs that are cut short to so many bytes
	first  int           // where the first description begins
	long   bool
	metrics,
	widths int // from which metric on all widths are equal; 0: none
	wide    []int           // the first advance widths
	with    map[string]bool // optional tables
	odd     int             // length of fpgm and prep
	noGlyf  bool
	strs    [][5]int // platform, encoding, language, name, length
	tags    []int    // lengths of language tags
	nameFmt int
	os2     int
	post    int // version << 16
	subs    []*cmapSub
	extra   []string // tables the library does not know
	noHmtx  bool
	large   bool // followed once only
	empty   bool // cvt, fpgm and prep are empty
	few     bool // followed for metrics only
	order   int  // of the tables in the source file
	minMaxp bool
	known   bool                // the contents of the character maps are known
	atoms   map[string][][2]int // table -> unknown bytes by place: [place, atom]
	bodies  map[string]peBytes
	descs   []peBytes
	strData []peBytes
	tagData []peBytes
	owner   map[int]string
}

// fill appends unknown bytes with small nominal values.
func (f *peFont) fill(b *peBytes, n int) {
	for i := 0; i < n; i++ {
		if n > 3000 && i > 20 && i < n-20 && i%1999 != 0 { // mostly known, to keep sums short
			b.u8(1 + i%255)
			continue
		}
		f.unknown(b, 1+(f.next*7)%90, 1)
	}
}

func (f *peFont) fill16(b *peBytes, n int) {
	for i := 0; i < n; i++ {
		f.unknown(b, 300+f.next*11%500, 2)
	}
}

// build makes the tables of a shape.
func (s *fontShape) build() *peFont {
	f := &peFont{glyphs: len(s.glyphs), tables: map[string]peBytes{}, order: s.order}
	s.owner = map[int]string{}
	put := func(tag string, b peBytes, from int) {
		f.tables[tag] = b
		for a := from; a < f.next; a++ {
			s.owner[a] = tag
		}
	}
	n := len(s.glyphs)
	var b peBytes
	from := f.next
	b.u16(1, 0)
	f.fill(&b, 4) // revision
	f.fill(&b, 4) // adjustment
	b.u32(0x5F0F3CF5)
	f.fill(&b, 2)
	f.unknown(&b, 1000, 2)
	f.fill(&b, 16)
	f.fill16(&b, 4)
	f.fill16(&b, 3)
	loc := 0
	if s.long {
		loc = 1
	}
	b.u16(loc, 0)
	put("head", b, from)
	b, from = nil, f.next
	if s.minMaxp {
		b.u32(0x5000)
		b.u16(n)
	} else {
		b.u32(0x10000)
		b.u16(n)
		f.fill16(&b, 13)
	}
	put("maxp", b, from)
	b, from = nil, f.next
	b.u32(0x10000)
	f.fill16(&b, 10)
	b.u16(0, 0, 0, 0)
	f.fill16(&b, 1)
	b.u16(s.metrics)
	put("hhea", b, from)
	if !s.noHmtx {
		b, from = nil, f.next
		for i := 0; i < s.metrics; i++ {
			if i < len(s.wide) {
				b.u16(s.wide[i])
			} else if s.widths > 0 && i >= s.widths {
				b.u16(777)
			} else if s.widths > 0 {
				b.u16(400 + i)
			} else {
				f.unknown(&b, 400+i, 2)
			}
			f.fill16(&b, 1)
		}
		for i := s.metrics; i < n; i++ {
			f.fill16(&b, 1)
		}
		put("hmtx", b, from)
	}
	if s.noGlyf {
		var loca peBytes
		for i := 0; i <= n; i++ {
			if s.long {
				loca.u32(i / 2 * 10)
			} else {
				loca.u16(i / 2 * 5)
			}
		}
		put("loca", loca, f.next)
	} else {
		var loca, glyf peBytes
		from = f.next
		for i := 0; i < s.first; i++ {
			f.fill(&glyf, 1)
		}
		at := func() {
			if s.long {
				loca.u32(len(glyf))
			} else {
				loca.u16(len(glyf) / 2)
			}
		}
		s.descs = nil
		at()
		for i, ln := range s.glyphs {
			var d peBytes
			if cs := s.comps[i]; cs != nil {
				d.u16(0xffff)
				f.fill16(&d, 4)
				for j, c := range cs {
					more := 0
					if j < len(cs)-1 {
						more = 0x20
					}
					switch j % 4 {
					case 0:
						d.u16(more|1, c)
						f.fill(&d, 4)
					case 1:
						d.u16(more|8, c)
						f.fill(&d, 4)
					case 2:
						d.u16(more|1|0x40, c)
						f.fill(&d, 8)
					case 3:
						d.u16(more|0x80, c)
						f.fill(&d, 10)
					}
				}
				if k, ok := s.broken[i]; ok {
					d = d[:k]
				}
			} else if ln > 0 {
				if ln >= 10 && s.none[i] {
					d.u16(0)
					f.fill16(&d, 4)
				} else if ln >= 10 {
					d.u16(1)
					f.fill16(&d, 4)
				}
				f.fill(&d, ln-len(d))
			}
			if len(d)%2 == 1 && !s.long {
				d.u8(0)
			}
			s.descs = append(s.descs, d)
			glyf = append(glyf, d...)
			at()
		}
		put("glyf", glyf, from)
		put("loca", loca, f.next)
	}
	for _, tag := range []string{"cvt", "fpgm", "prep"} {
		if !s.with[tag] {
			continue
		}
		b, from = nil, f.next
		k := s.odd
		if tag == "cvt" {
			k = 6 + s.odd/2*2
		} else if tag == "prep" {
			k++
		}
		if s.empty {
			k = 0
		}
		f.fill(&b, k)
		put(tag, b, from)
	}
	if s.with["name"] {
		b, from = nil, f.next
		head := 6 + 12*len(s.strs)
		if s.nameFmt == 1 {
			head += 2 + 4*len(s.tags)
		}
		b.u16(s.nameFmt, len(s.strs), head)
		at := 0
		for _, r := range s.strs {
			b.u16(r[0], r[1], r[2], r[3], r[4], at)
			at += r[4]
		}
		if s.nameFmt == 1 {
			b.u16(len(s.tags))
			for _, l := range s.tags {
				b.u16(l, at)
				at += l
			}
		}
		s.strData, s.tagData = nil, nil
		for _, r := range s.strs {
			var d peBytes
			f.fill(&d, r[4])
			s.strData = append(s.strData, d)
			b = append(b, d...)
		}
		if s.nameFmt == 1 {
			for _, l := range s.tags {
				var d peBytes
				f.fill(&d, l)
				s.tagData = append(s.tagData, d)
				b = append(b, d...)
			}
		}
		put("name", b, from)
	}
	if s.with["OS/2"] {
		b, from = nil, f.next
		b.u16(s.os2)
		f.fill(&b, map[int]int{0: 76, 1: 84, 2: 94, 3: 94, 4: 94, 5: 98}[s.os2])
		put("OS/2", b, from)
	}
	if s.with["post"] {
		b, from = nil, f.next
		b.u32(s.post)
		f.fill(&b, 4)
		f.fill16(&b, 2)
		f.fill(&b, 20)
		switch s.post {
		case 0x20000:
			b.u16(n)
			names := 0
			for i := 0; i < n; i++ {
				if i%3 == 2 {
					b.u16(258 + names)
					names++
				} else {
					b.u16(i % 258)
				}
			}
			for i := 0; i < names; i++ {
				b.u8(3 + i%4)
				f.fill(&b, 3+i%4)
			}
		case 0x25000:
			b.u16(n)
			for i := 0; i < n; i++ {
				b.u8(i % 3)
			}
		}
		put("post", b, from)
	}
	if s.with["cmap"] {
		from = f.next
		g := &peFont{next: f.next, nominal: f.nominal, known: s.known}
		g.maps(s.subs, s.glyphsMax())
		f.next = g.next
		put("cmap", g.tables["cmap"], from)
	}
	for _, tag := range s.extra {
		b, from = nil, f.next
		f.fill(&b, 9)
		put(tag, b, from)
	}
	s.bodies = f.tables
	return f
}

func (s *fontShape) glyphsMax() int { return len(s.glyphs) }

// maps makes a cmap table of small subtables; a format that is not known is written as it would be unsupported.
func (f *peFont) maps(subs []*cmapSub, glyphs int) {
	var data peBytes
	var offs []int
	g := func(i int) int { return i % glyphs }
	for i, s := range subs {
		s.want = map[int]pnum{}
		offs = append(offs, len(data))
		var b peBytes
		s.from = f.next
		off := 0
		if s.wrong {
			off = 5
		}
		lang := func(w int) { s.lang = f.unknown(&b, 1+i, w) }
		switch s.format {
		case 0:
			b.u16(0, 262+off)
			lang(2)
			for c := 0; c < 256; c++ {
				if c < 0x28 || c >= 0x28+glyphs+3 {
					b.u8(0)
					continue
				}
				s.want[c] = f.unknown(&b, g(c-0x28+1), 1)
			}
		case 4:
			type seg struct{ lo, hi, delta, ro int }
			base := 0x41 + 16*(i%3)
			h := glyphs / 2
			segs := []seg{{base, base + h - 1, 0x10000 + 1 - base, 0}, {0x300, 0x302, 0, 1}, {0x610, 0x610 + min(glyphs-3, 5), 2, 1}, {0xe000, 0xe000 + min(glyphs-3, 4), 0x10000 - 0xe000 + 1, 0}, {0xfff8, 0xfffc, 0, 1}, {0xffff, 0xffff, 1, 0}}
			n, ids := len(segs), 0
			for _, x := range segs {
				if x.ro != 0 {
					ids += x.hi - x.lo + 1
				}
			}
			b.u16(4, 16+8*n+2*ids)
			lang(2)
			b.u16(2*n+off/5, 8, 2, 2*n-8)
			for _, x := range segs {
				b.u16(x.hi)
			}
			b.u16(0)
			for _, x := range segs {
				b.u16(x.lo)
			}
			for _, x := range segs {
				b.u16(x.delta)
			}
			k := 0
			for j, x := range segs {
				if x.ro == 0 {
					b.u16(0)
					continue
				}
				b.u16(2 * (n - j + k))
				k += x.hi - x.lo + 1
			}
			for _, x := range segs[:n-1] {
				for c := x.lo; c <= x.hi; c++ {
					if x.ro == 0 {
						s.want[c] = knum(int64((c + x.delta) & 0xffff))
						continue
					}
					v := 1 + (c-x.lo)%max(glyphs-1-x.delta, 1)
					if x.lo == 0xfff8 {
						v = glyphs - 1 - (c-x.lo)%2
					}
					id := f.unknown(&b, v, 2)
					id.k += uint64(x.delta)
					s.want[c] = id
				}
			}
		case 6:
			first, n := 0x60+i, glyphs+3
			b.u16(6, 10+2*n-off)
			lang(2)
			b.u16(first, n)
			for c := 0; c < n; c++ {
				s.want[first+c] = f.unknown(&b, g(c*5+1), 2)
			}
		case 12:
			h := glyphs / 3
			groups := [][3]int{{0x41 + i, 0x41 + i + h, 1}, {0x10000, 0x10000 + h, glyphs - 1 - h}, {0x1f600, 0x1f600, glyphs - 1}}
			b.u16(12, 0)
			b.u32(16 + 12*len(groups) - off)
			lang(4)
			b.u32(len(groups))
			for _, g := range groups {
				b.u32(g[0], g[1], g[2])
				for c := g[0]; c <= g[1]; c++ {
					s.want[c] = knum(int64(g[2] + c - g[0]))
				}
			}
		default: // not supported
			b.u16(s.format, 20)
			f.fill(&b, 16)
		}
		s.to = f.next
		data = append(data, b...)
	}
	var t peBytes
	t.u16(0, len(subs))
	for i, s := range subs {
		t.u16(s.p, s.e)
		t.u32(4 + 8*len(subs) + offs[i])
	}
	if f.tables == nil {
		f.tables = map[string]peBytes{}
	}
	f.tables["cmap"] = append(t, data...)
}

var allOptional = []string{"cvt", "fpgm", "prep", "name", "OS/2", "post", "cmap"}

func optional(tags ...string) map[string]bool {
	r := map[string]bool{}
	for _, t := range tags {
		r[t] = true
	}
	return r
}

func stdSubs() []*cmapSub {
	return []*cmapSub{{p: 0, e: 3, format: 4, width: 2}, {p: 1, e: 0, format: 0, width: 1}, {p: 1, e: 0, format: 6, width: 1}, {p: 3, e: 1, format: 4, width: 2}, {p: 3, e: 10, format: 12, width: 4}}
}

func rangeInts(n, v int) []int {
	var r []int
	for i := 0; i < n; i++ {
		r = append(r, v)
	}
	return r
}

// shapes are the fonts that are followed.
func shapes() []*fontShape {
	var r []*fontShape
	names := [][5]int{{1, 0, 0, 1, 5}, {3, 1, 0x409, 1, 10}, {3, 1, 0x409, 4, 0}, {0, 3, 0, 6, 7}}
	mixed := []int{12, 0, 15, 31, 10, 0, 22, 13}
	r = append(r, &fontShape{name: "all tables, short locations", glyphs: []int{12, 0, 16, 30, 10, 0, 22, 14, 12, 12}, comps: map[int][]int{6: {2, 3}}, metrics: 4, with: optional(allOptional...), odd: 9, strs: names, os2: 4, post: 0x20000, subs: stdSubs()})
	r = append(r, &fontShape{name: "all tables, long locations of odd lengths", glyphs: mixed, long: true, metrics: 8, with: optional(allOptional...), odd: 10, strs: names, tags: []int{4, 0, 6}, nameFmt: 1, os2: 5, post: 0x30000, subs: stdSubs()})
	r = append(r, &fontShape{name: "no optional table", glyphs: mixed, long: true, metrics: 3, widths: 1})
	for i, t := range allOptional {
		s := &fontShape{name: "only " + t, glyphs: []int{12, 0, 16, 14}, long: i%2 == 0, metrics: 1 + i%3, with: optional(t), odd: 5 + i, strs: names[:i%4+1], nameFmt: 0, os2: i % 6, post: []int{0x10000, 0x20000, 0x25000, 0x30000}[i%4], subs: stdSubs()[i%4:]}
		if t == "post" {
			s.post = 0x25000
		}
		r = append(r, s)
		u := &fontShape{name: "all but " + t, glyphs: mixed, long: true, first: 2 + i, metrics: 2, widths: 1, with: optional(allOptional...), odd: 6 + i, strs: names, nameFmt: i % 2, tags: []int{2}, os2: (i + 3) % 6, post: []int{0x30000, 0x20000}[i%2], subs: stdSubs()[:i%5+1]}
		delete(u.with, t)
		r = append(r, u)
	}
	r = append(r, &fontShape{name: "unsupported character maps", glyphs: mixed, long: true, metrics: 2, with: optional("cmap", "name"), strs: nil, subs: []*cmapSub{{p: 0, e: 5, format: 14}, {p: 3, e: 1, format: 4, width: 2}, {p: 1, e: 1, format: 2}, {p: 0, e: 3, format: 6, width: 2}, {p: 3, e: 10, format: 10}}})
	r = append(r, &fontShape{name: "character maps twice", glyphs: mixed, long: true, first: 4, metrics: 2, with: optional("cmap", "name", "post"), post: 0x30000, strs: names[:2], nameFmt: 1, subs: []*cmapSub{{p: 3, e: 1, format: 6, width: 2}, {p: 3, e: 1, format: 4, width: 2}, {p: 0, e: 3, format: 12, width: 4}, {p: 0, e: 4, format: 12, width: 4}, {p: 1, e: 0, format: 0, width: 1}}})
	r = append(r, &fontShape{name: "character maps of several languages", glyphs: mixed, long: true, metrics: 3, with: optional("cmap"), subs: []*cmapSub{{p: 1, e: 0, format: 6, width: 1}, {p: 1, e: 0, format: 6, width: 1}, {p: 3, e: 10, format: 12, width: 4}, {p: 1, e: 0, format: 0, width: 1}, {p: 3, e: 10, format: 12, width: 4}, {p: 1, e: 0, format: 6, width: 1}}})
	r = append(r, &fontShape{name: "character maps that state wrong lengths", glyphs: mixed, long: true, metrics: 2, with: optional("cmap"), subs: []*cmapSub{{p: 3, e: 1, format: 6, width: 2, wrong: true}, {p: 0, e: 3, format: 4, width: 2, wrong: true}, {p: 3, e: 10, format: 12, width: 4, wrong: true}, {p: 1, e: 0, format: 0, width: 1, wrong: true}}})
	r = append(r, &fontShape{name: "no glyphs' data", glyphs: rangeInts(5, 0), noGlyf: true, metrics: 5, with: optional("cvt", "post", "OS/2"), odd: 7, os2: 1, post: 0x30000, extra: []string{"GPOS", "kern"}})
	r = append(r, &fontShape{name: "no metrics", glyphs: []int{10, 0, 12}, noHmtx: true, with: optional("prep", "name"), odd: 6, strs: names[3:], extra: []string{"DSIG"}})
	r = append(r, &fontShape{name: "nested and cyclic composites", glyphs: rangeInts(14, 12), comps: map[int][]int{1: {2}, 2: {3, 4}, 5: {6}, 6: {7}, 7: {5}, 8: {8}, 9: {10, 1, 0, 11, 5}, 12: {1}}, metrics: 5, with: optional("cmap"), subs: stdSubs()[:3]})
	r = append(r, &fontShape{name: "258 glyphs with standard names", glyphs: rangeInts(258, 0), metrics: 2, with: optional("post"), post: 0x10000, long: true})
	r = append(r, &fontShape{name: "empty tables", glyphs: []int{12, 0, 16, 14}, metrics: 3, empty: true, with: optional(allOptional...), order: 1, strs: nil, nameFmt: 1, os2: 2, post: 0x30000, subs: nil})
	r = append(r, &fontShape{name: "strings of odd and equal lengths", glyphs: mixed, long: true, order: 2, metrics: 3, empty: true, with: optional("name", "cvt"), strs: [][5]int{{3, 1, 0x409, 1, 7}, {3, 0, 0x409, 2, 8}, {1, 0, 0, 3, 1}, {0, 4, 0, 4, 1}, {2, 1, 0, 5, 3}, {3, 10, 0x8000, 6, 4}, {1, 0, 0, 7, 1}, {3, 1, 0x8001, 8, 2}}, tags: []int{5, 1, 0, 2, 7}, nameFmt: 1})
	r = append(r, &fontShape{name: "language tags only", glyphs: mixed, long: true, order: 1, metrics: 3, empty: true, with: optional("name", "fpgm"), tags: []int{3, 2}, nameFmt: 1})
	r = append(r, &fontShape{name: "large tables", glyphs: []int{12, 70001, 0, 11}, long: true, metrics: 2, with: optional("fpgm", "name"), odd: 3, strs: [][5]int{{1, 0, 0, 1, 40000}, {3, 1, 0x409, 2, 25535}, {0, 3, 0, 6, 9}}, large: true})
	r = append(r, &fontShape{name: "runs of widths", glyphs: rangeInts(12, 10), metrics: 9, wide: []int{500, 600, 600, 600, 0xffff, 0xffff, 0, 0, 0}, with: optional("prep"), odd: 4})
	r = append(r, &fontShape{name: "one width", glyphs: rangeInts(7, 11), metrics: 5, wide: []int{512, 512, 512, 512, 512}, long: true, with: optional("OS/2"), os2: 3, odd: 4})
	r = append(r, &fontShape{name: "one width, a metric per glyph", glyphs: rangeInts(6, 11), metrics: 6, wide: []int{0, 0, 0, 0, 0, 0}, long: true, with: optional("post"), post: 0x30000})
	r = append(r, &fontShape{name: "large short locations", glyphs: []int{12, 60002, 0, 40010, 10, 14}, metrics: 2, large: true})
	r = append(r, &fontShape{name: "a large first glyph", glyphs: []int{66000, 12, 0, 11}, metrics: 1, large: true, long: true})
	return append(r, deepShapes()...)
}

// widthShapes are small fonts with all patterns of a few widths.
func widthShapes() []*fontShape {
	var r []*fontShape
	pattern := func(n, extra int, vals ...int) {
		m := 1
		for i := 0; i < n; i++ {
			m *= len(vals)
		}
		for k := 0; k < m; k++ {
			s := &fontShape{name: "widths", glyphs: rangeInts(n+extra, 0), metrics: n, few: true}
			for i, x := 0, k; i < n; i++ {
				s.wide = append(s.wide, vals[x%len(vals)])
				x /= len(vals)
			}
			s.name = fmt.Sprintf("widths %v and %d bearings", s.wide, extra)
			r = append(r, s)
		}
	}
	pattern(4, 2, 0, 500, 0x8001)
	pattern(6, 0, 0, 0xffff)
	pattern(5, 1, 500, 501)
	return r
}

func (s *fontShape) String() string { return fmt.Sprintf("%s (%d glyphs)", s.name, len(s.glyphs)) }
