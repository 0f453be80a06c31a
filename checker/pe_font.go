package main

import "sort"

// Fonts of known structure with unknown parts, for partial evaluation.

type peBytes []pv

func (b *peBytes) u8(vs ...int) {
	for _, v := range vs {
		*b = append(*b, knum(int64(v&255)))
	}
}

func (b *peBytes) u16(vs ...int) {
	for _, v := range vs {
		b.u8(v>>8, v)
	}
}

func (b *peBytes) u32(vs ...int) {
	for _, v := range vs {
		b.u16(v>>16, v)
	}
}

func (b *peBytes) str(s string) {
	for i := 0; i < len(s); i++ {
		b.u8(int(s[i]))
	}
}

// peFont collects unknown bytes with their nominal values.
type peFont struct {
	next    int
	nominal map[int]byte
	tables  map[string]peBytes
	glyphs  int
	order   int
	known   bool // bytes are written as their nominal values
}

// unknown appends unknown bytes of a nominal value and gives the form of their big-endian number.
func (f *peFont) unknown(b *peBytes, nominal, width int) pnum {
	if f.known {
		for i := width - 1; i >= 0; i-- {
			b.u8(nominal >> uint(8*i) & 0xff)
		}
		return knum(int64(nominal))
	}
	if f.nominal == nil {
		f.nominal = map[int]byte{}
	}
	r := pnum{t: map[int]uint64{}}
	for i := width - 1; i >= 0; i-- {
		f.nominal[f.next] = byte(nominal >> uint(8*i))
		*b = append(*b, patom(f.next))
		r.t[f.next] = 1 << uint(8*i)
		f.next++
	}
	return r
}

// basic makes the required tables for some glyphs, each of which has a description of ten bytes.
func (f *peFont) basic(glyphs, metrics int) {
	f.glyphs = glyphs
	f.tables = map[string]peBytes{}
	var b peBytes
	b.u32(0x10000, 0x10000, 0, 0x5F0F3CF5)
	b.u16(0, 1000)
	b.u32(0, 0, 0, 0)
	b.u16(0, 0, 100, 100, 0, 8, 2, 0, 0)
	f.tables["head"] = b
	b = nil
	b.u32(0x10000)
	b.u16(glyphs)
	for i := 0; i < 13; i++ {
		b.u16(0)
	}
	f.tables["maxp"] = b
	b = nil
	b.u32(0x10000)
	for i := 0; i < 15; i++ {
		b.u16(0)
	}
	b.u16(metrics)
	f.tables["hhea"] = b
	b = nil
	for i := 0; i < metrics; i++ {
		b.u16(500+i, i)
	}
	for i := metrics; i < glyphs; i++ {
		b.u16(i)
	}
	f.tables["hmtx"] = b
	b = nil
	for i := 0; i <= glyphs; i++ {
		b.u16(i * 5)
	}
	f.tables["loca"] = b
	b = nil
	for i := 0; i < glyphs; i++ {
		b.u16(0, 0, 0, 10, 10)
	}
	f.tables["glyf"] = b
	b = nil
	b.u32(0x30000, 0)
	b.u16(0, 0)
	b.u32(0, 0, 0, 0, 0)
	f.tables["post"] = b
}

// bytes is the font file; checksums are zero.
func (f *peFont) bytes() []pv {
	var tags []string
	for t := range f.tables {
		tags = append(tags, t)
	}
	inOrder(tags, f.order)
	var b, data peBytes
	b.u32(0x10000)
	b.u16(len(tags), 0, 0, 0)
	at := 12 + 16*len(tags)
	for _, t := range tags {
		b.str(padTag(t))
		b.u32(0, at+len(data), len(f.tables[t]))
		data = append(data, f.tables[t]...)
		for len(data)%4 != 0 {
			data.u8(0)
		}
	}
	return append(b, data...)
}

// inOrder sorts tags, the other way round, or rotated.
func inOrder(tags []string, order int) {
	sort.Strings(tags)
	switch order {
	case 1:
		sort.Sort(sort.Reverse(sort.StringSlice(tags)))
	case 2:
		k := len(tags) / 2
		copy(tags, append(append([]string(nil), tags[k:]...), tags[:k]...))
	}
}
