cli='#!/bin/bash\n# Runs the command line tool (cwd: the repository).\nd=$(cd "$(dirname "$0")" && pwd)\n. /opt/vp/env.sh\nt=$(mktemp -d) || exit 3\ntrap \'rm -rf "$t"\' EXIT\n(cd truecli && go build -o "$t/truecli" .) || exit 3\nfont="$PWD/testdata/FreeSans.ttf"\n[ -f "$font" ] || font=$(find "$PWD" -name FreeSans.ttf | head -1)\nmkdir "$t/w" && cd "$t/w" || exit 3\n\n'
BUGS=[
dict(id='c29-cmap-gone',prop='C29',
 edits=[('export.go','		newfnt.cmap.numTables = uint16(len(newfnt.cmap.subtables))\n','		if newfnt.cmap.numTables = uint16(len(newfnt.cmap.subtables)); newfnt.cmap.numTables == 0 {\n			newfnt.cmap = nil\n		}\n')],
 needs='a font whose character maps are all of formats that are not supported, subset to its first glyphs',
 breaks='the subset has no cmap table although the font has one',
 demo='''
func TestDemo(t *testing.T) {
	m := split(load(t, freeSans))
	m["cmap"] = []byte{0, 0, 0, 1, 0, 0, 0, 5, 0, 0, 0, 12, 0, 14, 0, 0, 0, 10, 0, 0, 0, 0}
	f := parse(t, assemble(m))
	if split(written(t, f))["cmap"] == nil {
		t.Skip("not written at all")
	}
	s, err := f.SubsetFirst(10)
	if err != nil {
		t.Fatal(err)
	}
	if split(written(t, s))["cmap"] == nil {
		t.Fatal("no cmap table")
	}
}
'''),
dict(id='c30-short-wide',prop='C30',
 edits=[('table_loca.go','		offset1 := 2 * int64(f.loca.offsetsShort[gid])\n		offset2 := 2 * int64(f.loca.offsetsShort[gid+1])\n		return offset1, offset2 - offset1, nil\n','		offset1, offset2 := 2*f.loca.offsetsShort[gid], 2*f.loca.offsetsShort[gid+1]\n		return int64(offset1), int64(offset2 - offset1), nil\n')],
 needs='a font with short glyph locations and more than 64 kB of glyph data',
 breaks='the location of a glyph whose data begins beyond 64 kB is that of other data',
 demo='''
func TestDemo(t *testing.T) {
	m := split(load(t, freeSans))
	n := int(binary.BigEndian.Uint16(m["maxp"][4:]))
	glyf := make([]byte, 32*n)
	loca := make([]byte, 2*n+2)
	for i := 0; i < n; i++ {
		binary.BigEndian.PutUint16(glyf[32*i+2:], uint16(i))
		binary.BigEndian.PutUint16(loca[2*i+2:], uint16(16*(i+1)))
	}
	m["glyf"], m["loca"] = glyf, loca
	m["head"][50], m["head"][51] = 0, 0
	f := parse(t, assemble(m))
	for i := 0; i < n; i++ {
		o, l, err := f.GetGlyphDataOffset(GlyphIndex(i))
		if err != nil || o != int64(32*i) || l != 32 {
			t.Fatalf("glyph %d: %d %d %v", i, o, l, err)
		}
	}
}
'''),
dict(id='c31-no-truncate',prop='C31',imports=['os','path/filepath'],
 edits=[('export.go','	of, err := os.Create(outPath)','	of, err := os.OpenFile(outPath, os.O_RDWR|os.O_CREATE, 0666)')],
 needs='writing to a file that exists and is longer',
 breaks='the file keeps the end of what it held before',
 demo='''
func TestDemo(t *testing.T) {
	dir, err := os.MkdirTemp(os.Getenv("DEMO_TMP"), "w")
	if err != nil {
		t.Fatal(err)
	}
	p := filepath.Join(dir, "out.ttf")
	f := parse(t, load(t, freeSans))
	if err := f.WriteFile(p); err != nil {
		t.Fatal(err)
	}
	s, err := f.SubsetFirst(20)
	if err != nil {
		t.Fatal(err)
	}
	if err := s.WriteFile(p); err != nil {
		t.Fatal(err)
	}
	if !bytes.Equal(load(t, p), written(t, s)) {
		t.Fatal("the file is not what Write writes")
	}
}
'''),
dict(id='c32-bytes',prop='C32',
 edits=[('truecli/cmd/subset_runes.go','		runes := []rune(args[1])\n','		runes := make([]rune, len(args[1]))\n		for i := range runes {\n			runes[i] = rune(args[1][i])\n		}\n')],
 needs='text with a character beyond ASCII',
 breaks='the bytes of the text are taken for characters, so the glyph of the character is missing',
 demosh=cli+'''"$t/truecli" subset gids "$font" 688 >/dev/null 2>&1 || exit 3
# the Greek capital letter omega, whose glyph that is
"$t/truecli" subset runes "$font" "$(printf '\\316\\251')" >/dev/null 2>&1 || exit 3
cmp subset_gids.ttf subset_runes.ttf || exit 1
exit 0
'''),
]
