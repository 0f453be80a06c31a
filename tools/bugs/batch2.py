CLI='''#!/bin/bash
# Runs the command line tool (cwd: the repository).
d=$(cd "$(dirname "$0")" && pwd)
. /opt/vp/env.sh
t=$(mktemp -d) || exit 3
trap 'rm -rf "$t"' EXIT
(cd truecli && go build -o "$t/truecli" .) || exit 3
font="$PWD/testdata/FreeSans.ttf"
[ -f "$font" ] || font=$(find "$PWD" -name FreeSans.ttf | head -1)
mkdir "$t/w" && cd "$t/w" || exit 3
'''
BUGS=[
dict(id='c18-unwritable',prop='C18',
 edits=[('truecli/cmd/subset_simple.go','			fatalf("ERROR: %v\\n", err)','			fmt.Printf("ERROR: %v\\n", err)')],
 needs='the output file cannot be created',
 breaks='subset simple prints the error but exits with status 0',
 demosh=CLI+'''
mkdir subset.ttf
"$t/truecli" subset simple "$font" >/dev/null 2>&1 && exit 1
exit 0
'''),
dict(id='c18-recover',prop='C18',
 edits=[('truecli/cmd/root.go','	rootCmd.PersistentFlags().String("loglevel", "", "Log level \'debug\' and \'trace\' give debug information")',
 '''	defer func() {
		if r := recover(); r != nil {
			logrus.Errorf("%v", r)
		}
	}()
	rootCmd.PersistentFlags().String("loglevel", "", "Log level 'debug' and 'trace' gives debug information")''')],
 needs='a command that reports its failure with panic (validate, info) meets an invalid font',
 breaks='the panic is turned into a log line and the process exits with status 0',
 demosh=CLI+'''
head -c 3000 "$font" > bad.ttf
"$t/truecli" validate bad.ttf >/dev/null 2>&1 && exit 1
exit 0
'''),
dict(id='c19-prune-after',prop='C19',
 edits=[('truecli/cmd/subset_gids.go','		err = subfnt.WriteFile("subset_gids.ttf")\n		if err != nil {','		if err = subfnt.PruneTables("post"); err != nil {\n			panic(err)\n		}\n		if err = subfnt.WriteFile("subset_gids.ttf"); err != nil {')],
 needs='a font with a post table',
 breaks='the font written by subset gids is not the one that was validated',
 demosh=CLI+'''
cat > main.go <<'G'
package main

import (
	"bytes"
	"os"

	"github.com/unidoc/unitype"
)

func main() {
	f, err := unitype.ParseFile(os.Args[1])
	if err != nil {
		os.Exit(3)
	}
	s, err := f.SubsetKeepIndices([]unitype.GlyphIndex{3, 4})
	if err != nil {
		os.Exit(3)
	}
	var b bytes.Buffer
	if s.Write(&b) != nil || os.WriteFile("want.ttf", b.Bytes(), 0o644) != nil {
		os.Exit(3)
	}
}
G
root=$(dirname "$font"); while [ ! -d "$root/truecli" ]; do root=$(dirname "$root"); done
mkdir "$t/pkg" && cp main.go "$t/pkg/main.go"
echo "{\\"Replace\\":{\\"$root/truecli/zz/main.go\\":\\"$t/pkg/main.go\\"}}" > o.json
(cd "$root/truecli" && go build -overlay "$t/w/o.json" -o "$t/want" ./zz) || exit 3
"$t/want" "$font" || exit 3
"$t/truecli" subset gids "$font" 3 4 >/dev/null 2>&1 || exit 3
for o in *.ttf; do [ "$o" = want.ttf ] || { cmp -s "$o" want.ttf || exit 1; }; done
exit 0
'''),
dict(id='c21-mac-name',prop='C21',
 edits=[('encoding.go','"onequarter", "threequarters", "franc", "Gbreve", "gbreve",','"threequarters", "onequarter", "franc", "Gbreve", "gbreve",')],
 needs='a post table that names glyphs by the standard indices 245 and 246',
 breaks='two standard Macintosh glyph names are swapped',
 demo='''
func TestDemo(t *testing.T) {
	if macGlyphNames[245] != "onequarter" || macGlyphNames[246] != "threequarters" {
		t.Fatal(macGlyphNames[246], macGlyphNames[247])
	}
}
'''),
dict(id='c21-sjis',prop='C21',
 edits=[('encoding.go','		d = japanese.ShiftJIS.NewDecoder()','		d = japanese.EUCJP.NewDecoder()')],
 needs='a font with a Windows Shift-JIS character map',
 breaks='its codes are decoded as EUC-JP',
 demo='''
func TestDemo(t *testing.T) {
	d := getCmapEncoding(3, 2).GetRuneDecoder()
	if r := d.DecodeRune(d.ToBytes(0x82a0)); r != 0x3042 {
		t.Fatalf("%X", r)
	}
}
'''),
dict(id='c26-prefer-english',prop='C26',
 edits=[('table_name.go','''	for _, nr := range f.name.nameRecords {
		if int(nr.nameID) == nameID {
			return nr.Decoded()
		}
	}
	return ""
''','''	found := ""
	for _, nr := range f.name.nameRecords {
		if int(nr.nameID) == nameID {
			found = nr.Decoded()
			if nr.platformID == 1 || nr.languageID == 0x409 {
				return found
			}
		}
	}
	return found
''')],
 needs='a Unicode or Windows record in another language comes before an English one',
 breaks='a later English record is returned instead of the first',
 demo='''
func TestDemo(t *testing.T) {
	m := split(load(t, freeSans))
	m["name"] = []byte{0, 0, 0, 2, 0, 30,
		0, 3, 0, 1, 4, 7, 0, 1, 0, 2, 0, 0,
		0, 3, 0, 1, 4, 9, 0, 1, 0, 2, 0, 2, 0, 'A', 0, 'B'}
	f := parse(t, assemble(m))
	if s := f.GetNameByID(1); s != "A" {
		t.Fatal(s)
	}
}
'''),
dict(id='c26-mac-latin1',prop='C26',
 edits=[('table_name.go','''			decoded.WriteRune(charmap.Macintosh.DecodeByte(val))''','''			if val < 0x80 {
				decoded.WriteByte(val)
			} else {
				decoded.WriteRune(charmap.Windows1252.DecodeByte(val))
			}''')],
 needs='a Macintosh name with a character beyond ASCII',
 breaks='it is decoded as Windows Latin instead of Mac Roman',
 demo='''
func TestDemo(t *testing.T) {
	m := split(load(t, freeSans))
	m["name"] = []byte{0, 0, 0, 1, 0, 18,
		0, 1, 0, 0, 0, 0, 0, 1, 0, 2, 0, 0, 'A', 0x8a}
	f := parse(t, assemble(m))
	if s := f.GetNameByID(1); s != "A\\u00e4" {
		t.Fatal(s)
	}
}
'''),
dict(id='c05-os2-v5',prop='C05',
 edits=[('table_os2.go','	return w.write(t.usLowerOpticalPointSize, t.usUpperOpticalPointSize)','	return w.write(t.usUpperOpticalPointSize, t.usLowerOpticalPointSize)')],
 needs='an OS/2 table of version 5 with different optical sizes',
 breaks='the two sizes are written in the wrong order',
 demo='''
func TestDemo(t *testing.T) {
	m := split(load(t, freeSans))
	o := append([]byte(nil), m["OS/2"]...)
	for len(o) < 96 {
		o = append(o, 0)
	}
	o = append(o[:96], 1, 2, 3, 4)
	o[0], o[1] = 0, 5
	m["OS/2"] = o
	f := parse(t, assemble(m))
	if w := split(written(t, f))["OS/2"]; !bytes.Equal(w, o) {
		t.Fatalf("% X", w)
	}
}
'''),
dict(id='c23-name-outside',prop='C23',
 edits=[('table_name.go','		if int(t.stringOffset)+int(ltr.offset)+int(ltr.length) > int(tr.length) {','		if int(ltr.offset)+int(ltr.length) > int(tr.length) {')],
 needs='a format 1 name table whose language tag string lies behind the end of the table',
 breaks='bytes outside of the table become a language tag instead of an error',
 demo='''
func TestDemo(t *testing.T) {
	m := split(load(t, freeSans))
	m["name"] = []byte{0, 1, 0, 0, 0, 12, 0, 1, 0, 2, 0, 2}
	if _, err := Parse(bytes.NewReader(assemble(m))); err == nil {
		t.Fatal("no error")
	}
}
'''),
dict(id='c01-post-name',prop='C01',
 edits=[('table_post.go','				if int(ni) >= len(names) {','				if int(ni) > len(names) {')],
 needs='a post format 2 table with a name index one beyond the last name',
 breaks='parsing panics',
 demo='''
func TestDemo(t *testing.T) {
	m := split(load(t, freeSans))
	p := append([]byte(nil), m["post"][:32]...)
	p[0], p[1], p[2], p[3] = 0, 2, 0, 0
	n := int(binary.BigEndian.Uint16(m["maxp"][4:]))
	p = append(p, byte(n>>8), byte(n))
	for i := 0; i < n; i++ {
		v := 0
		if i == 5 {
			v = 259
		}
		p = append(p, byte(v>>8), byte(v))
	}
	p = append(p, 1, 'x')
	m["post"] = p
	Parse(bytes.NewReader(assemble(m)))
}
'''),
dict(id='c04-groups',prop='C04',
 edits=[('table_cmap.go','''	for i := 0; i < int(st.numGroups); i++ {
		var group sequentialMapGroup
		err = r.read(&group.startCharCode, &group.endCharCode, &group.startGlyphID)
		if err != nil {
			logrus.Debugf("Error: %v", err)
			return nil, err
		}
		st.groups = append(st.groups, group)
	}
''','''	st.groups = make([]sequentialMapGroup, st.numGroups)
	for i := range st.groups {
		group := &st.groups[i]
		err = r.read(&group.startCharCode, &group.endCharCode, &group.startGlyphID)
		if err != nil {
			logrus.Debugf("Error: %v", err)
			return nil, err
		}
	}
''')],
 needs='a format 12 character map with a huge group count',
 breaks='gigabytes are allocated before the first group is read',
 demo='''
func TestDemo(t *testing.T) {
	m := split(load(t, freeSans))
	m["cmap"] = []byte{0, 0, 0, 1, 0, 3, 0, 10, 0, 0, 0, 12,
		0, 12, 0, 0, 0, 0, 0, 28, 0, 0, 0, 0, 0x07, 0, 0, 0, 0, 0, 0, 0}
	b := assemble(m)
	var x, y runtime.MemStats
	runtime.ReadMemStats(&x)
	Parse(bytes.NewReader(b))
	runtime.ReadMemStats(&y)
	if d := y.TotalAlloc - x.TotalAlloc; d > 200<<20 {
		t.Fatal(d)
	}
}
''',imports=['runtime']),
dict(id='c20-rewind',prop='C20',
 edits=[('export.go','	bw := newByteWriter(w)\n	err := f.font.write(bw)\n	if err != nil {\n		return err\n	}\n	return bw.flush()','	if f.br != nil {\n		// Leave the source at its start for whoever reads it next.\n		f.br.SeekTo(0)\n	}\n	bw := newByteWriter(w)\n	if err := f.font.write(bw); err != nil {\n		return err\n	}\n	return bw.flush()')],
 needs='the source of the font is used by someone else while the font is written',
 breaks='writing a font seeks in the source it was parsed from',
 demo='''
func TestDemo(t *testing.T) {
	r := bytes.NewReader(load(t, freeSans))
	f, err := Parse(r)
	if err != nil {
		t.Fatal(err)
	}
	r.Seek(77, 0)
	written(t, f)
	if p, _ := r.Seek(0, 1); p != 77 {
		t.Fatal(p)
	}
}
'''),
]
