BUGS=[
dict(id='c33-map-range',prop='C33',
 edits=[('font.go','''		for _, k := range f.cmap.subtableKeys {
			subt := f.cmap.subtables[k]
			b.WriteString(''','''		for k, subt := range f.cmap.subtables {
			b.WriteString(''')],
 needs='a font with several character maps, looked at more than once',
 breaks='the order in which the character maps are reported changes from call to call',
 demo='''
func TestDemo(t *testing.T) {
	f := parse(t, load(t, freeSans))
	first := f.TableInfo("cmap")
	for i := 0; i < 60; i++ {
		if f.TableInfo("cmap") != first {
			t.Fatal("the report differs")
		}
	}
}
'''),
]
