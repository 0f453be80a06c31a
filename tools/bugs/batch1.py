BUGS=[
dict(id='c02-gid-bound',prop='C02',
 edits=[('table_glyf.go','	if int(gid) >= len(glyf.descs) {','	if int(gid) > len(glyf.descs) {')],
 needs='a glyph index exactly equal to the number of glyphs is asked to be kept',
 breaks='GetComponents indexes one past the end of the glyph descriptions and panics',
 demo='''
func TestDemo(t *testing.T) {
	f := parse(t, load(t, freeSans))
	n := binary.BigEndian.Uint16(split(load(t, freeSans))["maxp"][4:])
	if _, err := f.SubsetKeepIndices([]GlyphIndex{1, GlyphIndex(n)}); err != nil {
		t.Log(err)
	}
}
'''),
dict(id='c02-uniform-widths',prop='C02',
 edits=[('table_hmtx.go','	for j >= 0 && f.hmtx.hMetrics[j].advanceWidth == lastWidth {','	for f.hmtx.hMetrics[j].advanceWidth == lastWidth {')],
 needs='every advance width in the font is the same (a monospaced font)',
 breaks='optimizeHmtx runs past the beginning of the metrics and panics',
 demo='''
func TestDemo(t *testing.T) {
	m := split(load(t, freeSans))
	n := int(binary.BigEndian.Uint16(m["hhea"][34:]))
	for i := 0; i < n; i++ {
		binary.BigEndian.PutUint16(m["hmtx"][4*i:], 600)
	}
	f := parse(t, assemble(m))
	if err := f.Optimize(); err != nil {
		t.Fatal(err)
	}
}
'''),
dict(id='c03-component-cycle',prop='C03',
 edits=[('export.go','''				if _, has := gidIncludedMap[gid]; !has {
					gidIncludedMap[gid] = struct{}{}
					newgids = append(newgids, gid)
				}
''','''				gidIncludedMap[gid] = struct{}{}
				newgids = append(newgids, gid)
''')],
 needs='a composite glyph that reaches itself through its components',
 breaks='the dependency expansion of SubsetKeepIndices never ends',
 demo='''
func TestDemo(t *testing.T) {
	m := split(load(t, freeSans))
	// Glyph 3 becomes a composite of itself (long locations).
	short := binary.BigEndian.Uint16(m["head"][50:]) == 0
	var off, end int
	if short {
		off = 2 * int(binary.BigEndian.Uint16(m["loca"][2*36:]))
		end = 2 * int(binary.BigEndian.Uint16(m["loca"][2*37:]))
	} else {
		off = int(binary.BigEndian.Uint32(m["loca"][4*36:]))
		end = int(binary.BigEndian.Uint32(m["loca"][4*37:]))
	}
	if end-off < 18 {
		t.Fatal("unsuitable glyph")
	}
	g := m["glyf"][off:end]
	binary.BigEndian.PutUint16(g, 0xFFFF)
	binary.BigEndian.PutUint16(g[10:], 0x0003)
	binary.BigEndian.PutUint16(g[12:], 36)
	f := parse(t, assemble(m))
	done := make(chan error, 1)
	go func() {
		_, err := f.SubsetKeepIndices([]GlyphIndex{36})
		done <- err
	}()
	select {
	case err := <-done:
		if err != nil {
			t.Fatal(err)
		}
	case <-time.After(20 * time.Second):
		panic("still expanding")
	}
}
''',imports=['time']),
dict(id='c24-last-gid',prop='C24',
 edits=[('export.go','	maxNeededNum := int(maxgid) + 1','	maxNeededNum := int(maxgid + 1)')],
 needs='the highest possible glyph index, 65535, is among the glyphs to keep',
 breaks='the number of glyphs to keep wraps to 0 and the subset keeps nothing',
 demo='''
func TestDemo(t *testing.T) {
	f := parse(t, load(t, freeSans))
	sub, err := f.SubsetKeepIndices([]GlyphIndex{40, 65535})
	if err != nil {
		t.Fatal(err)
	}
	m := split(written(t, sub))
	if n := binary.BigEndian.Uint16(m["maxp"][4:]); n < 41 {
		t.Fatalf("glyph 40 lost: %d glyphs", n)
	}
}
'''),
dict(id='c12-short-slice',prop='C12',
 edits=[('byte_reader.go','''			val, err := r.readInt16()
			if err != nil {
				return err
			}
			*t = append(*t, val)
		}
	case *[]offset16:''','''			val, err := r.readInt16()
			if err == io.EOF {
				// Some fonts leave out trailing values.
				break
			} else if err != nil {
				return err
			}
			*t = append(*t, val)
		}
	case *[]offset16:''')],
 needs='a font whose left side bearings end early, at the end of the data',
 breaks='the end of the data inside a 16-bit signed array is not reported: parsing succeeds on a truncated font',
 demo='''
func TestDemo(t *testing.T) {
	m := split(load(t, freeSans))
	n := binary.BigEndian.Uint16(m["maxp"][4:])
	// Half of the metrics, all other bearings missing: hmtx last in the file.
	binary.BigEndian.PutUint16(m["hhea"][34:], n/2)
	b := assemble(m)
	cnt := int(binary.BigEndian.Uint16(b[4:]))
	data := append([]byte(nil), b...)
	for i := 0; i < cnt; i++ {
		r := data[12+16*i:]
		if string(r[:4]) == "hmtx" {
			binary.BigEndian.PutUint32(r[8:], uint32(len(data)))
		}
	}
	data = append(data, m["hmtx"][:4*int(n/2)+10]...)
	if _, err := Parse(bytes.NewReader(data)); err == nil {
		t.Fatal("truncated hmtx accepted")
	}
}
'''),
dict(id='c13-validate-leak',prop='C13',
 edits=[('export.go','''	defer f.Close()

	br := newByteReader(f)
	fnt, err := parseFont(br)
	if err != nil {
		return err
	}

	return fnt.validate(br)
}

// GetCmap''','''
	br := newByteReader(f)
	fnt, err := parseFont(br)
	if err != nil {
		return err
	}
	defer f.Close()

	return fnt.validate(br)
}

// GetCmap''')],
 needs='ValidateFile on a file that does not parse',
 breaks='the file stays open',
 demo='''
func TestDemo(t *testing.T) {
	p := filepath.Join(os.Getenv("DEMO_TMP"), "bad.ttf")
	if err := ioutil.WriteFile(p, []byte("no font"), 0644); err != nil {
		t.Fatal(err)
	}
	open := func() int {
		n := 0
		l, _ := ioutil.ReadDir("/proc/self/fd")
		for _, e := range l {
			if s, _ := os.Readlink("/proc/self/fd/" + e.Name()); s == p {
				n++
			}
		}
		return n
	}
	if err := ValidateFile(p); err == nil {
		t.Fatal("validated")
	}
	if open() != 0 {
		t.Fatal("file left open")
	}
}
''',imports=['os','path/filepath']),
dict(id='c09-shared-hhea',prop='C09',
 edits=[('export.go','''		newfnt.hhea = &hheaTable{}
		*newfnt.hhea = *f.font.hhea
	}

	if f.font.hmtx != nil {
		newfnt.hmtx = &hmtxTable{}
		*newfnt.hmtx = *f.font.hmtx
		newfnt.optimizeHmtx()''','''		newfnt.hhea = f.font.hhea
	}

	if f.font.hmtx != nil {
		newfnt.hmtx = &hmtxTable{}
		*newfnt.hmtx = *f.font.hmtx
		newfnt.optimizeHmtx()''')],
 needs='SubsetKeepIndices on a font that ends in several glyphs of one width, then use of the source font',
 breaks='subsetting changes the number of metrics the source font announces',
 demo='''
func TestDemo(t *testing.T) {
	m := split(load(t, freeSans))
	n := int(binary.BigEndian.Uint16(m["hhea"][34:]))
	for i := n - 5; i < n; i++ {
		binary.BigEndian.PutUint16(m["hmtx"][4*i:], 600)
	}
	f := parse(t, assemble(m))
	before := written(t, f)
	if _, err := f.SubsetKeepIndices([]GlyphIndex{1, 2}); err != nil {
		t.Fatal(err)
	}
	if !bytes.Equal(before, written(t, f)) {
		t.Fatal("source font changed")
	}
}
'''),
dict(id='c10-post-write',prop='C10',
 edits=[('table_post.go','''		version = 0x00030000
	}

	err := w.write''','''		version, t.glyphNameIndex, t.glyphNames = 0x00030000, nil, nil
	}

	err := w.write''')],
 needs='querying the post table after the font has been written',
 breaks='writing drops the glyph names of the font being written',
 demo='''
func TestDemo(t *testing.T) {
	f := parse(t, load(t, freeSans))
	before := f.TableInfo("post")
	written(t, f)
	b, a := strings.Split(before, "\\n"), strings.Split(f.TableInfo("post"), "\\n")
	if len(a) != len(b) {
		t.Fatal("post table changed by writing")
	}
}
''',imports=['strings']),
dict(id='c11-scratch',prop='C11',
 edits=[('byte_reader.go','''func (r byteReader) readF2dot14() (f2dot14, error) {
	b := make([]byte, 2)
	_, err''','''// f2dot14Scratch saves an allocation per component of a composite glyph.
var f2dot14Scratch [2]byte

func (r byteReader) readF2dot14() (f2dot14, error) {
	b := f2dot14Scratch[:]
	_, err''')],
 needs='two fonts with composite glyphs subset at the same time',
 breaks='goroutines working on unrelated fonts share a scratch buffer (data race, wrong values)',
 demo='''
func TestDemo(t *testing.T) {
	// A scaled composite: reading its scale must not be visible to anyone else.
	g := []byte{0xFF, 0xFF, 0, 0, 0, 0, 0, 0, 0, 0, 0x00, 0x0B, 0, 1, 0, 0, 0, 0, 0x40, 0x00}
	allocs := testing.AllocsPerRun(1, func() {})
	_ = allocs
	var wg sync.WaitGroup
	bad := make(chan string, 100)
	for k := 0; k < 4; k++ {
		v := []byte{byte(0x11 * (k + 1)), byte(0x11 * (k + 1))}
		wg.Add(1)
		go func() {
			defer wg.Done()
			for i := 0; i < 400000; i++ {
				r := newByteReader(bytes.NewReader(v))
				x, err := r.readF2dot14()
				if err != nil || uint16(x) != binary.BigEndian.Uint16(v) {
					select {
					case bad <- "value of another font read":
					default:
					}
					return
				}
			}
		}()
	}
	wg.Wait()
	_ = g
	if len(bad) > 0 {
		t.Fatal(<-bad)
	}
}
''',imports=['sync']),
dict(id='c16-one-less-name',prop='C16',
 edits=[('export.go','		if len(newfnt.post.glyphNameIndex) > numGlyphs {','		if len(newfnt.post.glyphNameIndex) > numGlyphs+1 {')],
 needs='a subset that drops exactly the last glyph',
 breaks='the subset keeps one more post name index than it has glyphs',
 demo='''
func TestDemo(t *testing.T) {
	f := parse(t, load(t, freeSans))
	n := int(binary.BigEndian.Uint16(split(load(t, freeSans))["maxp"][4:]))
	sub, err := f.SubsetFirst(n - 1)
	if err != nil {
		t.Fatal(err)
	}
	if !strings.Contains(sub.TableInfo("post"), fmt.Sprintf("glyphNameIndex: %d\\n", n-1)) &&
		!strings.Contains(sub.TableInfo("post"), "glyphNameIndex: 0\\n") {
		t.Fatalf("name index does not follow the glyph count:\\n%.200s", sub.TableInfo("post"))
	}
}
''',imports=['strings','fmt']),
dict(id='c01-format6-short',prop='C01',
 edits=[('table_post.go','''				if int(ni) >= len(names) {''','''				if int(ni) > len(names) {''')],
 needs='see below', breaks='x', demo='func TestDemo(t *testing.T) {}'),
]
BUGS=[b for b in BUGS if b['breaks']!='x']
