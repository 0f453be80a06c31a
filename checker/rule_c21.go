package main

import (
	"fmt"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// The rules decided by constant propagation and partial evaluation: tables (C21) and name decoding (C26).

func init() {
	checks["C21"] = ruleC21
	checks["C26"] = ruleC26
}

const macNamesText = `.notdef .null nonmarkingreturn space exclam quotedbl numbersign dollar percent ampersand quotesingle parenleft parenright
asterisk plus comma hyphen period slash zero one two three four five six seven eight nine colon semicolon less equal greater question at
A B C D E F G H I J K L M N O P Q R S T U V W X Y Z bracketleft backslash bracketright asciicircum underscore grave
a b c d e f g h i j k l m n o p q r s t u v w x y z braceleft bar braceright asciitilde
Adieresis Aring Ccedilla Eacute Ntilde Odieresis Udieresis aacute agrave acircumflex adieresis atilde aring ccedilla eacute egrave
ecircumflex edieresis iacute igrave icircumflex idieresis ntilde oacute ograve ocircumflex odieresis otilde uacute ugrave ucircumflex udieresis
dagger degree cent sterling section bullet paragraph germandbls registered copyright trademark acute dieresis notequal AE Oslash
infinity plusminus lessequal greaterequal yen mu partialdiff summation product pi integral ordfeminine ordmasculine Omega ae oslash
questiondown exclamdown logicalnot radical florin approxequal Delta guillemotleft guillemotright ellipsis nonbreakingspace Agrave Atilde Otilde
OE oe endash emdash quotedblleft quotedblright quoteleft quoteright divide lozenge ydieresis Ydieresis fraction currency guilsinglleft
guilsinglright fi fl daggerdbl periodcentered quotesinglbase quotedblbase perthousand Acircumflex Ecircumflex Aacute Edieresis Egrave Iacute
Icircumflex Idieresis Igrave Oacute Ocircumflex apple Ograve Uacute Ucircumflex Ugrave dotlessi circumflex tilde macron breve dotaccent ring
cedilla hungarumlaut ogonek caron Lslash lslash Scaron scaron Zcaron zcaron brokenbar Eth eth Yacute yacute Thorn thorn minus multiply
onesuperior twosuperior threesuperior onehalf onequarter threequarters franc Gbreve gbreve Idotaccent Scedilla scedilla Cacute cacute Ccaron
ccaron dcroat`

// pdfDocFree: control codes that annex D.2 lists with their ASCII character but marks undefined: a table may have them or not.
func pdfDocFree(i int) bool { return i < 0x18 && i != 9 && i != 10 && i != 13 || i == 0x7f }

// pdfDoc is PDFDocEncoding, ISO 32000 annex D.2: identity but for these; -1 is undefined.
func pdfDoc() map[int]rune {
	r := map[int]rune{}
	for i := 0; i < 256; i++ {
		r[i] = rune(i)
	}
	for i, c := range []rune{0x02D8, 0x02C7, 0x02C6, 0x02D9, 0x02DD, 0x02DB, 0x02DA, 0x02DC} {
		r[0x18+i] = c
	}
	for i, c := range []rune{0x2022, 0x2020, 0x2021, 0x2026, 0x2014, 0x2013, 0x0192, 0x2044, 0x2039, 0x203A, 0x2212, 0x2030, 0x201E, 0x201C, 0x201D,
		0x2018, 0x2019, 0x201A, 0x2122, 0xFB01, 0xFB02, 0x0141, 0x0152, 0x0160, 0x0178, 0x017D, 0x0131, 0x0142, 0x0153, 0x0161, 0x017E, -1, 0x20AC} {
		r[0x80+i] = c
	}
	r[0xad] = -1
	for i, c := range r {
		if c < 0 {
			delete(r, i)
		}
	}
	return r
}

// cmapEncodings: the character set and code width of the platform and encoding identifiers, from the cmap chapter.
var cmapEncodings = []struct {
	p, e, width int
	dec         string
}{
	{0, 0, 2, "utf16be"}, {0, 1, 2, "utf16be"}, {0, 2, 2, "utf16be"}, {0, 3, 2, "utf16be"}, {0, 4, 4, "utf32be"}, {0, 6, 4, "utf32be"},
	{1, 0, 1, "macroman"},
	{3, 0, 2, "utf16be"}, {3, 1, 2, "utf16be"}, {3, 2, 2, "sjis"}, {3, 3, 2, "gbk"}, {3, 4, 2, "big5"}, {3, 10, 4, "utf32be"},
}

// decoderNames: how the decoders of golang.org/x/text are obtained.
var decoderNames = map[string][]string{
	"utf16be":  {"unicode.UTF16(false,0)", "unicode.UTF16(false,*)"},
	"utf32be":  {"utf32.UTF32(false,0)", "utf32.UTF32(false,*)"},
	"macroman": {"charmap.Macintosh"},
	"sjis":     {"japanese.ShiftJIS"},
	"gbk":      {"simplifiedchinese.GBK"},
	"big5":     {"traditionalchinese.Big5"},
}

// findTerms lists the subterms whose name ends in one of the given.
func findTerms(v pv, ends ...string) (r []*pterm) {
	switch x := v.(type) {
	case *pterm:
		for _, s := range ends {
			if fnName(x.op) == s || x.op == s {
				r = append(r, x)
			}
		}
		for _, a := range x.args {
			r = append(r, findTerms(a, ends...)...)
		}
	case piface:
		r = findTerms(x.v, ends...)
	case ptuple:
		for _, a := range x {
			r = append(r, findTerms(a, ends...)...)
		}
	case pslice:
		for i := 0; i < x.ln; i++ {
			r = append(r, findTerms(x.a.e[x.off+i].v, ends...)...)
		}
	}
	return
}

func ruleC21(P *Prog, r *Report, tier string) {
	r.explain = "Constant propagation through the package initialisers gives the tables; they are compared entry by entry with the published ones. The choice of the decoder is partially evaluated for every platform and encoding " +
		"pair with an unknown character code: the result must be the published decoder applied to the big-endian bytes of the code in the published width."
	e := newPE(P)
	for _, p := range sortedPkgs(P) {
		if strings.Contains(p.Pkg.Path(), "truecli") {
			continue
		}
		if msg := e.run(func() { e.initPkg(p) }); msg != "" {
			r.add(Finding{Rule: "analysis", Key: p.Pkg.Path(), Where: "-", Msg: "initialisation of " + p.Pkg.Path() + ": " + msg})
		}
	}
	names := strings.Fields(macNamesText)
	mac, doc, rev := 0, 0, 0
	for _, g := range sortedGlobals(e) {
		c := e.global[g]
		where := P.pos(g.Pos())
		switch v := c.v.(type) {
		case pslice:
			if v.ln > 100 && pstr(v.a.e[v.off].v) == `".notdef"` {
				mac++
				r.count("glyph_names", v.ln)
				if v.ln != len(names) {
					r.add(Finding{Rule: "glyph-names", Key: g.Name() + ": count", Where: where, Msg: fmt.Sprintf("%s has %d names instead of %d", g.Name(), v.ln, len(names))})
				}
				for i := 0; i < v.ln && i < len(names); i++ {
					if s, _ := v.a.e[v.off+i].v.(string); s != names[i] {
						r.add(Finding{Rule: "glyph-names", Key: g.Name() + ": " + fmt.Sprint(i), Where: where, Msg: fmt.Sprintf("%s[%d] is %q, the standard name is %q", g.Name(), i, s, names[i])})
					}
				}
			}
		case *parr:
			if len(v.e) > 100 && pstr(v.e[0].v) == `".notdef"` {
				mac++
				for i := range v.e {
					if s, _ := v.e[i].v.(string); i >= len(names) || s != names[i] {
						r.add(Finding{Rule: "glyph-names", Key: g.Name() + ": " + fmt.Sprint(i), Where: where, Msg: fmt.Sprintf("%s[%d] is %q", g.Name(), i, s)})
					}
				}
			}
		case *pmap:
			mt, ok := g.Type().(*types.Pointer).Elem().Underlying().(*types.Map)
			if !ok || v == nil {
				continue
			}
			kb, _, _ := basicInfo(mt.Key())
			vb, _, _ := basicInfo(mt.Elem())
			want := pdfDoc()
			switch {
			case kb == 8 && vb == 32: // code -> character
				doc++
				r.count("character_codes", len(v.keys))
				for i := 0; i < 256; i++ {
					c := v.m[fmt.Sprint(i)]
					w, def := want[i]
					switch {
					case c == nil && def && !pdfDocFree(i):
						r.add(Finding{Rule: "pdfdoc", Key: fmt.Sprintf("%#x", i), Where: where, Msg: fmt.Sprintf("%s lacks code %#x", g.Name(), i)})
					case c != nil && (!def || pstr(c.v) != fmt.Sprint(int(w))):
						r.add(Finding{Rule: "pdfdoc", Key: fmt.Sprintf("%#x", i), Where: where, Msg: fmt.Sprintf("%s[%#x] is %s, the published character is %d", g.Name(), i, pstr(c.v), w)})
					}
				}
			case kb == 32 && vb == 8: // character -> code
				rev++
				for i, w := range want {
					c := v.m[fmt.Sprint(int(w))]
					if (c != nil || !pdfDocFree(i)) && (c == nil || pstr(c.v) != fmt.Sprint(i)) {
						r.add(Finding{Rule: "pdfdoc-inverse", Key: fmt.Sprintf("%#x", i), Where: where, Msg: fmt.Sprintf("%s does not encode U+%04X as %#x", g.Name(), w, i)})
					}
				}
				for _, k := range v.keys {
					known := false
					for _, w := range want {
						known = known || pstr(k) == fmt.Sprint(int(w))
					}
					if !known {
						r.add(Finding{Rule: "pdfdoc-inverse", Key: pstr(k), Where: where, Msg: fmt.Sprintf("%s encodes the character %s, which the encoding lacks", g.Name(), pstr(k))})
					}
				}
			}
		}
	}
	r.need("tables of standard glyph names", mac, 1)
	r.need("PDFDocEncoding tables", doc, 1)
	r.need("inverse PDFDocEncoding tables", rev, 1)
	c21Decoders(P, r, e)
	c21PDFDoc(P, r, e)
	c21Flags(P, r)
}

func sortedPkgs(P *Prog) []*ssa.Package {
	var r []*ssa.Package
	for _, p := range P.pkgs {
		r = append(r, p)
	}
	sort.Slice(r, func(i, j int) bool { return r[i].Pkg.Path() > r[j].Pkg.Path() })
	return r
}

func sortedGlobals(e *PE) []*ssa.Global {
	var r []*ssa.Global
	for g := range e.global {
		if g.Pkg != nil && strings.HasPrefix(g.Pkg.Pkg.Path(), modPath) {
			r = append(r, g)
		}
	}
	sort.Slice(r, func(i, j int) bool { return r[i].String() < r[j].String() })
	return r
}

// libFn finds a package-level function or method by name, or by a test of its signature when it was renamed.
func libFn(P *Prog, name string, sig func(*types.Signature) bool) *ssa.Function {
	var alt []*ssa.Function
	for _, f := range P.fns {
		if !P.inLib(f) || f.Parent() != nil || f.Synthetic != "" {
			continue
		}
		if f.Name() == name {
			return f
		}
		if sig(f.Signature) {
			alt = append(alt, f)
		}
	}
	if len(alt) == 1 {
		return alt[0]
	}
	return nil
}

func isInt(t types.Type) bool { _, _, ok := basicInfo(t); return ok }

// decodePipeline composes what the subtable parsers do with a character code: choose the encoding, get its decoder,
// make bytes of the code, decode them. The functions are found by their types.
func decodePipeline(P *Prog) (enc, dec, tob, run *ssa.Function) {
	enc = libFn(P, "getCmapEncoding", func(s *types.Signature) bool {
		return s.Params().Len() == 2 && isInt(s.Params().At(0).Type()) && s.Results().Len() == 1 && strings.Contains(s.Results().At(0).Type().String(), "Encoding")
	})
	if enc != nil {
		et := enc.Signature.Results().At(0).Type()
		dec = libFn(P, "GetRuneDecoder", func(s *types.Signature) bool {
			return s.Recv() != nil && types.Identical(s.Recv().Type(), et) && s.Results().Len() == 1
		})
	}
	if dec != nil {
		dt := dec.Signature.Results().At(0).Type()
		tob = libFn(P, "ToBytes", func(s *types.Signature) bool {
			return s.Recv() != nil && types.Identical(s.Recv().Type(), dt) && s.Params().Len() == 1 && isInt(s.Params().At(0).Type())
		})
		run = libFn(P, "DecodeRune", func(s *types.Signature) bool {
			return s.Recv() != nil && types.Identical(s.Recv().Type(), dt) && s.Results().Len() == 1 && isInt(s.Results().At(0).Type())
		})
	}
	return
}

func c21Decoders(P *Prog, r *Report, e *PE) {
	enc, dec, tob, run := decodePipeline(P)
	if enc == nil || dec == nil || tob == nil || run == nil {
		r.add(Finding{Rule: "anchor", Key: "decoder", Where: "-", Msg: "the choice of the character decoder is not found"})
		return
	}
	code := pnum{t: map[int]uint64{0: 1, 1: 1 << 8, 2: 1 << 16, 3: 1 << 24}}
	for _, c := range cmapEncodings {
		key := fmt.Sprintf("platform %d encoding %d", c.p, c.e)
		where := P.pos(enc.Pos())
		var res pv
		var bytes pv
		e.steps, e.depth = 0, 0
		msg := e.run(func() {
			d := e.call(dec, []pv{e.call(enc, []pv{knum(int64(c.p)), knum(int64(c.e))}, nil)}, nil)
			bytes = e.call(tob, []pv{copyVal(d), code}, nil)
			res = e.call(run, []pv{d, bytes}, nil)
		})
		if msg != "" {
			r.add(Finding{Rule: "analysis", Key: key, Where: where, Msg: key + ": " + msg})
			continue
		}
		r.count("pairs_of_platform_and_encoding", 1)
		r.sample(key + ": " + pstr(res))
		var want []string
		for i := c.width - 1; i >= 0; i-- {
			want = append(want, fmt.Sprintf("b%d", i))
		}
		w := "[" + strings.Join(want, " ") + "]"
		txt := pstr(res)
		ok := false
		for _, n := range decoderNames[c.dec] {
			n = strings.TrimSuffix(n, "*)")
			ok = ok || strings.Contains(txt, n)
		}
		for k, ns := range decoderNames {
			for _, n := range ns {
				if k != c.dec && strings.Contains(txt, strings.TrimSuffix(n, "*)")) {
					ok = false
				}
			}
		}
		if !ok {
			r.add(Finding{Rule: "character-set", Key: key, Where: where, Msg: fmt.Sprintf("%s is decoded by %s, the published character set is %s", key, txt, c.dec)})
		}
		if !strings.Contains(txt, w) {
			r.add(Finding{Rule: "code-width", Key: key, Where: where, Msg: fmt.Sprintf("%s: a code is decoded from the bytes %s, the published form is %s", key, pstr(bytes), w)})
		}
	}
}

// c21PDFDoc: decoding applies the table to every byte in order, encoding the inverse table.
func c21PDFDoc(P *Prog, r *Report, e *PE) {
	n := 0
	for _, f := range P.fns {
		if !P.inLib(f) || f.Parent() != nil || f.Signature.Recv() != nil || !token.IsExported(f.Name()) || !strings.Contains(f.Name(), "PDFDocEncodingTo") {
			continue
		}
		n++
		for _, has := range []bool{true, false} {
			e.assume = &has
			res, msg := e.tryCall(f, mkBytes([]pv{patom(0), patom(1), patom(2)}))
			e.assume = nil
			if msg != "" {
				r.add(Finding{Rule: "analysis", Key: f.Name(), Where: P.pos(f.Pos()), Msg: f.Name() + ": " + msg})
				continue
			}
			txt := pstr(res)
			good := txt == "[]" || txt == `""` || strings.HasSuffix(txt, "([])")
			if has {
				good = strings.Contains(txt, "[lookup(b0) lookup(b1) lookup(b2)]")
			}
			if !good {
				r.add(Finding{Rule: "pdfdoc-decoder", Key: f.Name(), Where: P.pos(f.Pos()), Msg: fmt.Sprintf("%s of three codes (defined: %v) is %s instead of their characters in order", f.Name(), has, txt)})
			}
		}
	}
	r.need("PDFDocEncoding decoders", n, 2)
	n = 0
	for _, f := range P.fns {
		if !P.inLib(f) || f.Parent() != nil || f.Signature.Recv() != nil || f.Name() != "StringToPDFDocEncoding" {
			continue
		}
		n++
		arg := &pterm{op: "runes", args: []pv{patom(0), patom(1), patom(2)}}
		for _, has := range []bool{true, false} {
			e.assume = &has
			res, msg := e.tryCall(f, arg)
			e.assume = nil
			if msg != "" {
				r.add(Finding{Rule: "analysis", Key: f.Name(), Where: P.pos(f.Pos()), Msg: f.Name() + ": " + msg})
				continue
			}
			if txt := pstr(res); txt != map[bool]string{true: "[lookup(b0) lookup(b1) lookup(b2)]", false: "[]"}[has] {
				r.add(Finding{Rule: "pdfdoc-encoder", Key: f.Name(), Where: P.pos(f.Pos()), Msg: fmt.Sprintf("%s of three characters (encodable: %v) is %s instead of their codes in order", f.Name(), has, txt)})
			}
		}
	}
	r.need("PDFDocEncoding encoders", n, 1)
}

// flagBits: the flags of composite glyphs, from the glyf chapter.
var flagBits = map[string]int64{"arg1And2AreWords": 1, "argsAreXYValues": 2, "roundXYToGrid": 4, "weHaveAScale": 8, "moreComponents": 0x20,
	"weHaveAnXAndYScale": 0x40, "weHaveATwoByTwo": 0x80, "weHaveInstructions": 0x100, "useMyMetrics": 0x200, "overlapCompound": 0x400,
	"scaledComponentOffset": 0x800, "unscaledComponentOffset": 0x1000}

func c21Flags(P *Prog, r *Report) {
	n := 0
	for _, name := range sortedKeys(flagBits) {
		c, ok := P.lib.Pkg.Scope().Lookup(name).(*types.Const)
		if !ok {
			continue // an unused constant may go; those used for the layout are followed by C05
		}
		n++
		if v := c.Val().ExactString(); v != fmt.Sprint(flagBits[name]) {
			r.add(Finding{Rule: "flag-bit", Key: name, Where: P.pos(c.Pos()), Msg: fmt.Sprintf("%s is %s, the published value is %d", name, v, flagBits[name])})
		}
	}
	r.count("composite_flags", n)
}

// ruleC26: decoding of name records, seen through the exported accessors.
func ruleC26(P *Prog, r *Report, tier string) {
	r.explain = "The exported accessors of name records are partially evaluated on a table of records with unknown string bytes, for every platform and encoding of the specification and strings of several lengths: the result must consist of the UTF-16 " +
		"code units (high byte first) or the Mac Roman characters of exactly the bytes of the first record with the identifier, in order, and the bytes (also those behind the string in the same memory) must be unchanged afterwards. " +
		"The replacement of unprintable characters is taken to meet printable ones only."
	e := newPE(P)
	for _, p := range sortedPkgs(P) {
		if strings.Contains(p.Pkg.Path(), "truecli") {
			continue
		}
		if msg := e.run(func() { e.initPkg(p) }); msg != "" {
			r.add(Finding{Rule: "analysis", Key: p.Pkg.Path(), Where: "-", Msg: "initialisation of " + p.Pkg.Path() + ": " + msg})
		}
	}
	e.choose = printable
	font := P.lib.Type("Font")
	if font == nil {
		r.add(Finding{Rule: "anchor", Key: "Font", Where: "-", Msg: "the type Font is not found"})
		return
	}
	n := 0
	for _, name := range []string{"GetNameByID", "GetNameRecords"} {
		pt := types.NewPointer(font.Type())
		sel := P.prog.MethodSets.MethodSet(pt).Lookup(P.lib.Pkg, name)
		if sel == nil {
			r.add(Finding{Rule: "anchor", Key: name, Where: "-", Msg: name + " is not found"})
			continue
		}
		fn := P.prog.MethodValue(sel)
		where := "-"
		if o, ok := sel.Obj().(*types.Func); ok {
			where = P.pos(o.Pos())
		}
		for _, c := range nameEncodings {
			for vi, vr := range nameVariants {
				for _, ln := range []int{0, 1, 2, 3, 4, 6, 8} {
					if vi > 0 && (ln != 4 || name == "GetNameRecords" && vr.l1 == vr.l2) {
						continue
					}
					n++
					key := fmt.Sprintf("%s platform %d encoding %d length %d", name, c.p, c.e, ln)
					if vi > 0 {
						key += fmt.Sprintf(" language %#x, then platform %d encoding %d language %#x", vr.l1, vr.p2, vr.e2, vr.l2)
					}
					nc := &nameCase{e: e, font: font.Type().(*types.Named), plat: c.p, enc: c.e, ln: ln, variant: vr}
					if vi == 0 {
						nc.variant.p2, nc.variant.e2 = c.p, c.e
					}
					var res pv
					e.steps, e.depth = 0, 0
					msg := e.run(func() {
						f := nc.build()
						as := []pv{f}
						if name == "GetNameByID" {
							as = append(as, knum(4))
						}
						res = e.call(fn, as, nil)
					})
					if msg != "" {
						r.add(Finding{Rule: "analysis", Key: key, Where: where, Msg: key + ": " + msg})
						continue
					}
					for _, d := range nc.datas {
						for i, q := range d.a.e {
							if pstr(q.v) != nc.orig[d.a][i] {
								r.add(Finding{Rule: "name-bytes-changed", Key: key, Where: where, Msg: fmt.Sprintf("%s: the stored byte %d becomes %s", key, i, pstr(q.v))})
								break
							}
						}
					}
					var got pv = res
					if name == "GetNameRecords" {
						if m, ok := got.(*pmap); ok && m != nil && m.m[fmt.Sprint(vr.l1)] != nil {
							if m2, ok := m.m[fmt.Sprint(vr.l1)].v.(*pmap); ok && m2 != nil && m2.m["4"] != nil {
								got = m2.m["4"].v
							}
						}
					}
					nc.check(r, key, where, c.dec, got)
					if ln == 4 && vi == 0 {
						r.sample(key + ": " + pstr(got))
					}
				}
			}
		}
	}
	r.count("cases", n)
	r.need("accessors evaluated", n, 2)
}

// printable answers questions about characters: they are printable ones.
func printable(cond string) (bool, bool) {
	switch {
	case strings.HasPrefix(cond, "unicode.IsPrint("), strings.HasPrefix(cond, "unicode.IsGraphic("), strings.HasPrefix(cond, "unicode.In("):
		return true, true
	case strings.HasPrefix(cond, "unicode.Is"): // control characters and the like
		return false, true
	case strings.HasPrefix(cond, "cmp=="):
		return false, true
	case strings.HasPrefix(cond, "cmp!="):
		return true, true
	}
	return false, false
}

// nameVariant: the languages of the two records with the wanted identifier, and the platform and encoding of the second.
type nameVariant struct{ l1, p2, e2, l2 int }

var nameVariants = []nameVariant{
	{0x409, 0, 0, 0x411}, // the platform and encoding of the first
	{0x407, 3, 1, 0x409}, {0x411, 1, 0, 0}, {0, 3, 1, 0x409}, {0x409, 0, 3, 0x409}, {0x8001, 3, 10, 0x409}, {0x409, 3, 1, 0x407},
}

var nameEncodings = []struct {
	p, e int
	dec  string
}{
	{0, 0, "utf16be"}, {0, 1, "utf16be"}, {0, 2, "utf16be"}, {0, 3, "utf16be"}, {0, 4, "utf16be"}, {0, 6, "utf16be"},
	{1, 0, "macroman"}, {3, 0, "utf16be"}, {3, 1, "utf16be"},
}

// nameCase is a font with three name records: another identifier, the wanted one, and the wanted one in another language.
type nameCase struct {
	e         *PE
	font      *types.Named
	plat, enc int
	ln        int
	variant   nameVariant
	datas     []pslice
	orig      map[*parr][]string
}

func (c *nameCase) build() pv {
	c.orig = map[*parr][]string{}
	e := c.e
	fv := e.zero(c.font).(*pstru)
	ok := c.fill(fv, c.font, 0)
	if !ok {
		e.fail("the name records are not found in Font")
	}
	return pptr{&pcell{fv}}
}

// fill looks for the pointers on the way to the name records.
func (c *nameCase) fill(s *pstru, t types.Type, depth int) bool {
	st, ok := t.Underlying().(*types.Struct)
	if !ok || depth > 4 {
		return false
	}
	for i := 0; i < st.NumFields(); i++ {
		ft := st.Field(i).Type()
		if sl, ok := ft.Underlying().(*types.Slice); ok {
			if rec := recordType(sl.Elem(), "platformID", "encodingID", "languageID", "nameID"); rec != nil {
				_, isPtr := sl.Elem().Underlying().(*types.Pointer)
				var items []pv
				for k := 0; k < 3; k++ {
					rs := c.record(rec, k)
					if isPtr {
						items = append(items, pptr{&pcell{rs}})
					} else {
						items = append(items, rs)
					}
				}
				s.f[i].v = mkBytes(items)
				return true
			}
			continue
		}
		switch u := ft.Underlying().(type) {
		case *types.Pointer:
			if _, ok := u.Elem().Underlying().(*types.Struct); ok {
				if v, ok := c.e.zero(u.Elem()).(*pstru); ok && c.fill(v, u.Elem(), depth+1) {
					s.f[i].v = pptr{&pcell{v}}
					return true
				}
			}
		case *types.Struct:
			if v, ok := s.f[i].v.(*pstru); ok && c.fill(v, ft, depth+1) {
				return true
			}
		}
	}
	return false
}

// recordType: the struct with these fields and one of bytes.
func recordType(t types.Type, names ...string) types.Type {
	if p, ok := t.Underlying().(*types.Pointer); ok {
		t = p.Elem()
	}
	st, ok := t.Underlying().(*types.Struct)
	if !ok {
		return nil
	}
	have := map[string]bool{}
	for i := 0; i < st.NumFields(); i++ {
		have[st.Field(i).Name()] = true
	}
	for _, n := range names {
		if !have[n] {
			return nil
		}
	}
	return t
}

func (c *nameCase) record(t types.Type, k int) *pstru {
	s := c.e.zero(t).(*pstru)
	st := t.Underlying().(*types.Struct)
	a := &parr{}
	for i := 0; i < c.ln+2; i++ {
		v := patom(100*k + i)
		a.e = append(a.e, &pcell{v})
		c.orig[a] = append(c.orig[a], pstr(v))
	}
	data := pslice{a, 0, c.ln, c.ln + 2}
	c.datas = append(c.datas, data)
	for i := 0; i < st.NumFields(); i++ {
		var v pv
		switch st.Field(i).Name() {
		case "platformID":
			v = knum(int64([]int{c.plat, c.plat, c.variant.p2}[k]))
		case "encodingID":
			v = knum(int64([]int{c.enc, c.enc, c.variant.e2}[k]))
		case "languageID":
			v = knum(int64([]int{0x409, c.variant.l1, c.variant.l2}[k]))
		case "nameID":
			v = knum(int64([]int{7, 4, 4}[k]))
		case "length":
			v = knum(int64(c.ln))
		default:
			if sl, ok := st.Field(i).Type().Underlying().(*types.Slice); ok {
				if b, _, ok := basicInfo(sl.Elem()); ok && b == 8 {
					v = data
				}
			}
		}
		if v != nil {
			s.f[i].v = v
		}
	}
	return s
}

func (c *nameCase) check(r *Report, key, where, dec string, got pv) {
	txt := pstr(got)
	if c.ln == 0 {
		if s, ok := got.(string); ok && s == "" {
			return
		}
		if len(strRunes(got)) != 0 {
			r.add(Finding{Rule: "name-text", Key: key, Where: where, Msg: fmt.Sprintf("%s: an empty string is decoded as %s", key, txt)})
		}
		return
	}
	at := func(i int) string { return patom(100 + i).String() }
	switch dec {
	case "utf16be":
		if c.ln%2 != 0 {
			return // no published form
		}
		var units, bytes []string
		for i := 0; i < c.ln; i += 2 {
			u := pnum{t: map[int]uint64{100 + i: 256, 100 + i + 1: 1}}
			units = append(units, u.String())
			bytes = append(bytes, at(i), at(i+1))
		}
		w := "utf16([" + strings.Join(units, " ") + "])"
		rs := strRunes(got)
		good := len(rs) == c.ln/2
		for i := range rs {
			good = good && pstr(rs[i]) == fmt.Sprintf("%s[%d]", w, i)
		}
		if !good && strings.Contains(txt, "unicode.UTF16(false,") && strings.Contains(txt, "["+strings.Join(bytes, " ")+"]") {
			good = true // golang.org/x/text
		}
		if !good {
			r.add(Finding{Rule: "name-text", Key: key, Where: where, Msg: fmt.Sprintf("%s: the text is %s instead of the UTF-16 big-endian text of the record's bytes", key, txt)})
		}
	case "macroman":
		rs := strRunes(got)
		good := len(rs) == c.ln
		var bytes []string
		for i := range rs {
			t := pstr(rs[i])
			good = good && strings.Contains(t, "DecodeByte(") && strings.Contains(t, "charmap.Macintosh") && strings.Contains(t, ","+at(i)+")")
		}
		for i := 0; i < c.ln; i++ {
			bytes = append(bytes, at(i))
		}
		if !good && strings.Contains(txt, "charmap.Macintosh") && strings.Contains(txt, "["+strings.Join(bytes, " ")+"]") {
			good = true
		}
		if !good {
			r.add(Finding{Rule: "name-text", Key: key, Where: where, Msg: fmt.Sprintf("%s: the text is %s instead of the Mac Roman characters of the record's bytes", key, txt)})
		}
	}
}
