COMP='''
// locations returns the locations of a font.
func locations(m map[string][]byte) []int {
	n := int(binary.BigEndian.Uint16(m["maxp"][4:]))
	var l []int
	for i := 0; i <= n; i++ {
		if binary.BigEndian.Uint16(m["head"][50:]) == 0 {
			l = append(l, 2*int(binary.BigEndian.Uint16(m["loca"][2*i:])))
		} else {
			l = append(l, int(binary.BigEndian.Uint32(m["loca"][4*i:])))
		}
	}
	return l
}

// setGlyphs lays out the descriptions with long locations.
func setGlyphs(m map[string][]byte, gs [][]byte) {
	binary.BigEndian.PutUint16(m["head"][50:], 1)
	var glyf, loca bytes.Buffer
	for _, g := range gs {
		binary.Write(&loca, binary.BigEndian, uint32(glyf.Len()))
		glyf.Write(g)
	}
	binary.Write(&loca, binary.BigEndian, uint32(glyf.Len()))
	m["glyf"] = glyf.Bytes()
	m["loca"] = loca.Bytes()
}

func glyphs(m map[string][]byte) [][]byte {
	l := locations(m)
	var gs [][]byte
	for i := 0; i+1 < len(l); i++ {
		gs = append(gs, append([]byte(nil), m["glyf"][l[i]:l[i+1]]...))
	}
	return gs
}
'''
CMAP='''
// subtable is an encoding record and its subtable.
type demoSub struct {
	p, e uint16
	data []byte
}

func cmapOf(subs ...demoSub) []byte {
	var b, body bytes.Buffer
	binary.Write(&b, binary.BigEndian, []uint16{0, uint16(len(subs))})
	for _, s := range subs {
		binary.Write(&b, binary.BigEndian, []uint16{s.p, s.e})
		binary.Write(&b, binary.BigEndian, uint32(4+8*len(subs)+body.Len()))
		body.Write(s.data)
	}
	b.Write(body.Bytes())
	return b.Bytes()
}

func words(ws ...uint16) []byte {
	var b bytes.Buffer
	binary.Write(&b, binary.BigEndian, ws)
	return b.Bytes()
}

func format6(first uint16, gids ...uint16) []byte {
	return append(words(6, uint16(10+2*len(gids)), 0, first, uint16(len(gids))), words(gids...)...)
}
'''
BUGS=[
dict(id='c06-cmap-offset',prop='C06',
 edits=[('table_cmap.go','		rec.offset += offset32(4 + 8*len(encodingRecords)) // Add static part.','		rec.offset += offset32(4 + 8*int(t.numTables)) // Add static part.')],
 needs='a character map with a subtable of a format that is not written (2, 10, 13, 14)',
 breaks='the offsets of the written encoding records are 8 bytes too far for each subtable left out',
 demo=CMAP+'''
func TestDemo(t *testing.T) {
	m := split(load(t, freeSans))
	// Format 14 (variation sequences) is kept by the reader but not written.
	f14 := append(words(14), []byte{0, 0, 0, 10, 0, 0, 0, 0}...)
	m["cmap"] = cmapOf(demoSub{0, 5, f14}, demoSub{3, 1, format6(65, 36, 37, 38)})
	out := split(written(t, parse(t, assemble(m))))["cmap"]
	n := int(binary.BigEndian.Uint16(out[2:]))
	for i := 0; i < n; i++ {
		off := int(binary.BigEndian.Uint32(out[4+8*i+4:]))
		if off+2 > len(out) {
			t.Fatalf("record %d: offset %d of %d", i, off, len(out))
		}
		switch binary.BigEndian.Uint16(out[off:]) {
		case 0, 4, 6, 12:
		default:
			t.Fatalf("record %d: no subtable at its offset", i)
		}
	}
}
'''),
dict(id='c07-empty-cvt',prop='C07',
 edits=[('font.go','''	if f.cvt != nil {
		num++
	}''','''	if f.cvt != nil && len(f.cvt.controlValues) > 0 {
		num++
	}''')],
 needs='a font with a cvt table that is present but empty',
 breaks='the empty table is written with a record but not counted: the directory count is one too low and all offsets are 16 bytes too low',
 demo='''
func TestDemo(t *testing.T) {
	m := split(load(t, freeSans))
	m["cvt "] = []byte{}
	out := written(t, parse(t, assemble(m)))
	if err := ValidateBytes(out); err != nil {
		t.Fatal(err)
	}
	if h := split(out)["head"]; binary.BigEndian.Uint32(h[12:]) != 0x5F0F3CF5 {
		t.Fatal("the record of head does not designate the table")
	}
}
'''),
dict(id='c08-zero-checksum',prop='C08',
 edits=[('validate.go','		if tr.checksum != checksum {','		if tr.checksum != 0 && tr.checksum != checksum {')],
 needs='a table record whose checksum field was cleared, in a file whose whole-file checksum is right',
 breaks='the table is not checked: validation passes with a wrong table checksum',
 demo='''
func TestDemo(t *testing.T) {
	b := assemble(split(load(t, freeSans)))
	n := int(binary.BigEndian.Uint16(b[4:]))
	for i := 0; i < n; i++ {
		r := b[12+16*i:]
		if string(r[:4]) == "hmtx" {
			copy(r[4:8], []byte{0, 0, 0, 0})
		}
	}
	for i := 0; i < n; i++ {
		r := b[12+16*i:]
		if string(r[:4]) == "head" {
			h := b[binary.BigEndian.Uint32(r[8:]):]
			copy(h[8:12], []byte{0, 0, 0, 0})
			binary.BigEndian.PutUint32(h[8:], 0xB1B0AFBA-sum(b))
		}
	}
	if ValidateBytes(b) == nil {
		t.Fatal("valid")
	}
}
'''),
dict(id='c08-tail',prop='C08',
 edits=[('validate.go','		bw.buffer.Write(data)\n','		bw.buffer.Write(data[:len(data)&^3])\n')],
 needs='a file whose length is not a multiple of four and whose last bytes are damaged, outside any table',
 breaks='the last bytes do not enter the whole-file checksum',
 demo='''
func TestDemo(t *testing.T) {
	m := split(load(t, freeSans))
	b := assemble(m)
	b = append(b, 1, 0)
	n := int(binary.BigEndian.Uint16(b[4:]))
	for i := 0; i < n; i++ {
		r := b[12+16*i:]
		if string(r[:4]) == "head" {
			h := b[binary.BigEndian.Uint32(r[8:]):]
			copy(h[8:12], []byte{0, 0, 0, 0})
			binary.BigEndian.PutUint32(h[8:], 0xB1B0AFBA-sum(b))
		}
	}
	if err := ValidateBytes(b); err != nil {
		t.Fatal(err)
	}
	b[len(b)-1] ^= 0x40
	if ValidateBytes(b) == nil {
		t.Fatal("damaged file is valid")
	}
}
'''),
dict(id='c14-subtable-order',prop='C14',
 edits=[('table_cmap.go','	for _, subtkey := range t.subtableKeys {\n		subt := t.subtables[subtkey]','	for _, subt := range t.subtables {')],
 needs='a character map of several subtables, written more than once',
 breaks='the order of the written encoding records depends on the iteration order of a map',
 demo=CMAP+'''
func TestDemo(t *testing.T) {
	m := split(load(t, freeSans))
	m["cmap"] = cmapOf(demoSub{0, 3, format6(65, 36)}, demoSub{1, 0, format6(66, 37, 38)}, demoSub{3, 1, format6(67, 38, 39, 40)})
	f := parse(t, assemble(m))
	first := written(t, f)
	for i := 0; i < 100; i++ {
		if !bytes.Equal(first, written(t, f)) {
			t.Fatal("two writes of a font differ")
		}
	}
}
'''),
dict(id='c15-deep',prop='C15',
 edits=[('export.go','	for len(toscan) > 0 {','	for depth := 0; len(toscan) > 0 && depth < 8; depth++ {')],
 needs='a composite glyph nested more than eight levels deep',
 breaks='the innermost components are emptied in the subset',
 demo=COMP+'''
func TestDemo(t *testing.T) {
	m := split(load(t, freeSans))
	gs := glyphs(m)
	simple := gs[36]
	gs[50] = simple
	const depth = 14
	for i := 1; i <= depth; i++ {
		gs[50+i] = []byte{255, 255, 0, 0, 0, 0, 0, 0, 0, 0, 0, 2, 0, byte(50 + i - 1), 0, 0}
	}
	setGlyphs(m, gs)
	s, err := parse(t, assemble(m)).SubsetKeepIndices([]GlyphIndex{50 + depth})
	if err != nil {
		t.Fatal(err)
	}
	out := glyphs(split(written(t, s)))
	for i := 50; i <= 50+depth; i++ {
		if !bytes.Equal(out[i], gs[i]) {
			t.Fatalf("glyph %d lost", i)
		}
	}
}
'''),
dict(id='c17-odd-glyph',prop='C17',
 edits=[('table_glyf.go',"""		err := w.writeBytes(gd.raw)
		if err != nil {
			return err
		}
	}
""","""		raw := gd.raw
		if len(raw)%2 != 0 {
			// Glyph descriptions start on word boundaries.
			raw = append(append([]byte(nil), raw...), 0)
		}
		if err := w.writeBytes(raw); err != nil {
			return err
		}
	}
""")],
 needs='a font with long locations and a glyph description of odd length',
 breaks='descriptions after it do not lie where the location table says',
 demo=COMP+'''
func TestDemo(t *testing.T) {
	m := split(load(t, freeSans))
	gs := glyphs(m)
	gs[10] = append(gs[10], 0)
	if len(gs[10])%2 == 0 {
		gs[10] = append(gs[10], 0)
	}
	setGlyphs(m, gs)
	s, err := parse(t, assemble(m)).SubsetFirst(60)
	if err != nil {
		t.Fatal(err)
	}
	out := split(written(t, s))
	l := locations(out)
	if l[len(l)-1] != len(out["glyf"]) {
		t.Fatalf("locations end at %d of %d", l[len(l)-1], len(out["glyf"]))
	}
	for i, g := range glyphs(out) {
		if !bytes.Equal(g, gs[i]) {
			t.Fatalf("glyph %d differs", i)
		}
	}
}
'''),
dict(id='c22-zero-falls',prop='C22',
 edits=[('export.go',"""			if has {
				index = ind""","""			if has && ind != 0 {
				index = ind""")],
 needs='a rune that the preferred map sends to glyph 0 and a later map sends elsewhere',
 breaks='LookupRunes answers from a map of lower preference',
 demo=CMAP+'''
func TestDemo(t *testing.T) {
	m := split(load(t, freeSans))
	m["cmap"] = cmapOf(demoSub{0, 3, format6(65, 40, 41)}, demoSub{3, 1, format6(65, 36, 0, 37)})
	f := parse(t, assemble(m))
	c := f.GetCmap(3, 1)
	if g, has := c['B']; !has || g != 0 {
		t.Skip("glyph 0 is not kept in the map")
	}
	if g := f.LookupRunes([]rune{'B'}); g[0] != 0 {
		t.Fatalf("B is glyph %d", g[0])
	}
}
'''),
dict(id='c25-format6-bound',prop='C25',
 edits=[('export.go','''				for i := range t.glyphIDArray {
					if int(t.glyphIDArray[i]) >= numGlyphs {
						t.glyphIDArray[i] = 0
					}
				}
				subt.ctx = t
			case cmapSubtableFormat12:''','''				for i := range t.glyphIDArray {
					if int(t.glyphIDArray[i]) > numGlyphs {
						t.glyphIDArray[i] = 0
					}
				}
				subt.ctx = t
			case cmapSubtableFormat12:''')],
 needs='a format 6 character map that contains exactly the first glyph that is cut off',
 breaks='the written subset maps a character to a glyph that it does not have',
 demo=CMAP+'''
func TestDemo(t *testing.T) {
	m := split(load(t, freeSans))
	m["cmap"] = cmapOf(demoSub{1, 0, format6(65, 36, 37, 38, 39, 40, 41)})
	for n := 36; n < 43; n++ {
		s, err := parse(t, assemble(m)).SubsetFirst(n)
		if err != nil {
			t.Fatal(err)
		}
		c := split(written(t, s))["cmap"]
		off := binary.BigEndian.Uint32(c[8:])
		for i := 0; i < 6; i++ {
			if g := int(binary.BigEndian.Uint16(c[int(off)+10+2*i:])); g >= n {
				t.Fatalf("%d glyphs, code %d is glyph %d", n, 65+i, g)
			}
		}
	}
}
'''),
dict(id='c27-lang-tag',prop='C27',
 edits=[('table_name.go','''			err := bufw.writeSlice(ltr.data)
			if err != nil {
				return err
			}
''','''			if len(ltr.data)%2 == 0 { // UTF-16BE.
				err := bufw.writeSlice(ltr.data)
				if err != nil {
					return err
				}
			}
''')],
 needs='a name table of format 1 with a language tag of odd length',
 breaks='the tag is recorded but its string is not stored: what is written does not read back',
 demo='''
func TestDemo(t *testing.T) {
	m := split(load(t, freeSans))
	var b bytes.Buffer
	str := []byte("abcde-f")
	binary.Write(&b, binary.BigEndian, []uint16{1, 1, 6 + 12 + 2 + 4, 1, 0, 0, 4, 4, 0, 1, 3, 4})
	b.Write(str)
	m["name"] = b.Bytes()
	f := parse(t, assemble(m))
	out := written(t, f)
	g := parse(t, out)
	if !bytes.Equal(out, written(t, g)) {
		t.Fatal("differs when written again")
	}
	if n := split(out)["name"]; !bytes.HasSuffix(n, str) {
		t.Fatalf("%q", n)
	}
}
'''),
dict(id='c28-marks',prop='C28',
 edits=[('table_hmtx.go','	for j >= 0 && f.hmtx.hMetrics[j].advanceWidth == lastWidth {','	for j >= 0 && (f.hmtx.hMetrics[j].advanceWidth == lastWidth || f.hmtx.hMetrics[j].advanceWidth == 0) {')],
 needs='glyphs without width (combining marks) just before the run of equal widths that ends the metrics',
 breaks='optimising gives the marks the width of the run',
 demo='''
func TestDemo(t *testing.T) {
	m := split(load(t, freeSans))
	h := int(binary.BigEndian.Uint16(m["hhea"][34:]))
	for i := h - 20; i < h; i++ {
		w := uint16(600)
		if i < h-10 {
			w = 0
		}
		binary.BigEndian.PutUint16(m["hmtx"][4*i:], w)
	}
	f := parse(t, assemble(m))
	if err := f.Optimize(); err != nil {
		t.Fatal(err)
	}
	out := split(written(t, f))
	k := int(binary.BigEndian.Uint16(out["hhea"][34:]))
	for i := 0; i < h; i++ {
		j := i
		if j >= k {
			j = k - 1
		}
		if got, want := binary.BigEndian.Uint16(out["hmtx"][4*j:]), binary.BigEndian.Uint16(m["hmtx"][4*i:]); got != want {
			t.Fatalf("glyph %d: width %d, not %d", i, got, want)
		}
	}
}
'''),
]
