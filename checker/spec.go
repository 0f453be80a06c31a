package main

import (
	"fmt"
	"strings"
)

// The OpenType layout of the tables unitype reads and writes.

// layItem is a field or an array of fields of a table.
type layItem struct {
	name   string
	off    int64   // constant part of the offset
	prev   []int64 // strides of the arrays of variable size before it
	stride int64   // distance of consecutive elements, 0 for a single field
	count  int64   // number of elements, if constant
	width  int64
	comp   bool   // computed by the writer (counts, lengths, offsets ...)
	cond   string // table/item=values it depends on
	rec    bool   // an element of a record array
}

func (it *layItem) holds(cfg map[string]int64) bool {
	if it.cond == "" {
		return true
	}
	p := strings.SplitN(it.cond, "=", 2)
	c, ok := cfg[p[0]]
	if !ok {
		return true
	}
	for _, v := range strings.Split(p[1], ",") {
		if v == fmt.Sprint(c) {
			return true
		}
	}
	return false
}

// layouts is the specification, from the OpenType specification 1.8: "name width" in sequence; "@k" sets the
// offset, "*s" makes an array of stride s, "+s" adds a preceding array of stride s, "!" marks computed fields,
// "?c" conditional ones.
var layouts = map[string][]layItem{}
var layNames = []string{"none"}

var specText = map[string]string{
	"sfnt": `sfntVersion 4; numTables 2 !; searchRange 2 !; entrySelector 2 !; rangeShift 2 !;
		@12 *16 tableTag 4; *16 checksum 4 !; *16 offset 4 !; *16 length 4 !`,
	"head": `majorVersion 2; minorVersion 2; fontRevision 4; checksumAdjustment 4 !; magicNumber 4; flags 2; unitsPerEm 2;
		created 8; modified 8; xMin 2; yMin 2; xMax 2; yMax 2; macStyle 2; lowestRecPPEM 2; fontDirectionHint 2;
		indexToLocFormat 2; glyphDataFormat 2`,
	"maxp": `version 4; numGlyphs 2; ?maxp/version=65536 maxPoints 2; maxContours 2; maxCompositePoints 2; maxCompositeContours 2;
		maxZones 2; maxTwilightPoints 2; maxStorage 2; maxFunctionDefs 2; maxInstructionDefs 2; maxStackElements 2;
		maxSizeOfInstructions 2; maxComponentElements 2; maxComponentDepth 2`,
	"hhea": `majorVersion 2; minorVersion 2; ascender 2; descender 2; lineGap 2; advanceWidthMax 2; minLeftSideBearing 2;
		minRightSideBearing 2; xMaxExtent 2; caretSlopeRise 2; caretSlopeRun 2; caretOffset 2; *2x4 reserved 2 !; @32 metricDataFormat 2;
		numberOfHMetrics 2`,
	"hmtx": `*4 advanceWidth 2; *4 lsb 2; @0 +4 *2 leftSideBearings 2`,
	"loca": `?head/indexToLocFormat=0 *2 offsetsShort 2; ?head/indexToLocFormat=1 @0 *4 offsetsLong 4`,
	"OS/2": `version 2; xAvgCharWidth 2; usWeightClass 2; usWidthClass 2; fsType 2; ySubscriptXSize 2; ySubscriptYSize 2;
		ySubscriptXOffset 2; ySubscriptYOffset 2; ySuperscriptXSize 2; ySuperscriptYSize 2; ySuperscriptXOffset 2; ySuperscriptYOffset 2;
		yStrikeoutSize 2; yStrikeoutPosition 2; sFamilyClass 2; *1x10 panose 1; @42 ulUnicodeRange1 4; ulUnicodeRange2 4;
		ulUnicodeRange3 4; ulUnicodeRange4 4; achVendID 4; fsSelection 2; usFirstCharIndex 2; usLastCharIndex 2; sTypoAscender 2;
		sTypoDescender 2; sTypoLineGap 2; usWinAscent 2; usWinDescent 2; ?OS/2/version=1,2,3,4,5 ulCodePageRange1 4; ulCodePageRange2 4;
		?OS/2/version=2,3,4,5 sxHeight 2; sCapHeight 2; usDefaultChar 2; usBreakChar 2; usMaxContext 2;
		?OS/2/version=5 usLowerOpticalPointSize 2; usUpperOpticalPointSize 2`,
	"post": `version 4; italicAngle 4; underlinePosition 2; underlineThickness 2; isFixedPitch 4; minMemType42 4; maxMemType42 4;
		minMemType1 4; maxMemType1 4; ?post/version=131072,151552 numGlyphs 2 !; ?post/version=131072 *2 glyphNameIndex 2;
		?post/version=151552 @34 *1 offset 1; ?post/version=131072 @34 +2 nameLength 1 !`,
	"name": `format 2; count 2 !; stringOffset 2 !; *12 platformID 2; *12 encodingID 2; *12 languageID 2; *12 nameID 2; *12 length 2; *12 offset 2 !;
		?name/format=1 @6 +12 langTagCount 2 !; *4 langTagLength 2; *4 langTagOffset 2 !`,
	"cmap": `version 2; numTables 2 !; *8 platformID 2; *8 encodingID 2; *8 offset 4 !`,
	// the format number before its value is known
	"cmapsub": `format 2`,
	"cmap0":   `format 2 !; length 2 !; language 2; *1x256 glyphIdArray 1`,
	"cmap4": `format 2 !; length 2 !; language 2; segCountX2 2 !; searchRange 2; entrySelector 2; rangeShift 2; *2 endCode 2;
		@14 +2 reservedPad 2; @16 *2 startCode 2; @16 +2 *2 idDelta 2; @16 +2 *2 idRangeOffset 2; @16 +2 *2 glyphIdArray 2`,
	"cmap6":  `format 2 !; length 2 !; language 2; firstCode 2; entryCount 2 !; *2 glyphIdArray 2`,
	"cmap12": `format 2 !; reserved 2 !; length 4 !; language 4; numGroups 4 !; *12 startCharCode 4; *12 endCharCode 4; *12 startGlyphID 4`,
	"prep":   `*1 instructions 1`,
	"fpgm":   `*1 instructions 1`,
	"cvt":    `*2 controlValues 2`,
	// glyph descriptions, read from memory
	"mem": `numberOfContours 2; xMin 2; yMin 2; xMax 2; yMax 2`,
}

// fieldTags: the table each field of the font struct holds.
var fieldTags = map[string]string{"ot": "sfnt", "trec": "sfnt", "head": "head", "hhea": "hhea", "loca": "loca", "maxp": "maxp", "cvt": "cvt",
	"fpgm": "fpgm", "prep": "prep", "glyf": "glyf", "hmtx": "hmtx", "name": "name", "os2": "OS/2", "post": "post", "cmap": "cmap"}

// Composite glyph descriptions: the layout of a component depends on its flags. Each configuration fixes them.
const (
	flagWords, flagScale, flagMore, flagXY, flag2x2, flagInstr = 1, 8, 0x20, 0x40, 0x80, 0x100
)

func compLayout(f int64) string { return fmt.Sprintf("comp%d", f) }

// compConfigs are the names of the configurations of composite glyphs.
var compConfigs []string

func init() {
	for i, f := range []int64{0, flagWords, flagWords | flagScale, flagXY, flagWords | flag2x2, flagMore, flagMore | flagWords, flagMore | flagScale,
		flagMore | flagWords | flagXY, flagMore | flag2x2} {
		args, size := int64(1), int64(6)
		if f&flagWords != 0 {
			args, size = 2, 8
		}
		ns := []string{}
		switch {
		case f&flagScale != 0:
			ns = []string{"scale"}
		case f&flagXY != 0:
			ns = []string{"scaleX", "scaleY"}
		case f&flag2x2 != 0:
			ns = []string{"a", "b", "c", "d"}
		}
		item := func(n string, w int64) string {
			return fmt.Sprintf("; *%d %s %d", size+2*int64(len(ns)), n, w)
		}
		t := specText["mem"] + item("flags", 2) + item("glyphIndex", 2) + item("argument1", args) + item("argument2", args)
		for _, n := range ns {
			t += item(n, 2)
		}
		specText[compLayout(f)] = t
		name := fmt.Sprintf("g%d", i)
		layoutConfigs[name] = map[string]int64{"mem/flags": f}
		compConfigs = append(compConfigs, name)
	}
	for _, tag := range sortedKeys(specText) {
		layNames = append(layNames, tag)
		var off int64
		var prev []int64
		cond := ""
		var recStart int64
		for _, f := range strings.Split(specText[tag], ";") {
			it := layItem{}
			stride, count := int64(0), int64(0)
			for _, w := range strings.Fields(f) {
				switch w[0] {
				case '@':
					fmt.Sscan(w[1:], &off)
				case '+':
					var p int64
					fmt.Sscan(w[1:], &p)
					prev = append(prev[:len(prev):len(prev)], p)
				case '?':
					cond = w[1:]
					if cond == "-" {
						cond = ""
					}
				case '*':
					fmt.Sscanf(w[1:], "%dx%d", &stride, &count)
				case '!':
					it.comp = true
				default:
					if w[0] >= '0' && w[0] <= '9' {
						fmt.Sscan(w, &it.width)
					} else {
						it.name = w
					}
				}
			}
			_ = recStart
			it.off, it.prev, it.stride, it.count, it.cond = off, prev, stride, count, cond
			off += it.width
			layouts[tag] = append(layouts[tag], it)
		}
	}
	// tags in the directory may also be compared under the name of the font struct
	layouts["cvt "] = layouts["cvt"]
}

// layoutConfigs fixes the versions the layout depends on, so that in one run a field is either required or forbidden.
var layoutConfigs = map[string]map[string]int64{
	"0": {"OS/2/version": 0, "maxp/version": 0x10000, "post/version": 0x10000, "name/format": 0, "head/indexToLocFormat": 0},
	"1": {"OS/2/version": 1, "maxp/version": 0x10000, "post/version": 0x20000, "name/format": 1, "head/indexToLocFormat": 1},
	"2": {"OS/2/version": 2, "maxp/version": 0x10000, "post/version": 0x30000, "name/format": 0, "head/indexToLocFormat": 0},
	"3": {"OS/2/version": 3, "maxp/version": 0x10000, "post/version": 0x25000, "name/format": 1, "head/indexToLocFormat": 1},
	"4": {"OS/2/version": 4, "maxp/version": 0x10000, "post/version": 0x20000, "name/format": 1, "head/indexToLocFormat": 0},
	"5": {"OS/2/version": 5, "maxp/version": 0x10000, "post/version": 0x20000, "name/format": 0, "head/indexToLocFormat": 1},
}
