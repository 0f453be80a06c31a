From 05162e60bacf2bdf9acf5a5ad47555ea6c5e489f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:00 +0000
Subject: [PATCH 01/40] fix: cmap format 4 segment ending at 0xFFFF no longer
 loops forever

The 16-bit loop counter wrapped around when a segment other than the last
ended at 65535, so that parsing never returned.
---
 table_cmap.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/table_cmap.go b/table_cmap.go
index d5359ef..ac0d27b 100644
--- a/table_cmap.go
+++ b/table_cmap.go
@@ -287,7 +287,8 @@ func (f *font) parseCmapSubtableFormat4(r *byteReader, platformID, encodingID in
 
 		logrus.Debugf("Segment %d/%d, c1: %d, c2: %d, d: %d, rangeOffset: %d", i+1, segCount, c1, c2, d, rangeOffset)
 
-		for c := c1; c <= c2; c++ {
+		for code := int(c1); code <= int(c2); code++ {
+			c := uint16(code)
 			var gid uint16
 
 			if rangeOffset == 0 {
-- 
2.43.0


From 646442c2af81559dcf38f334872b3263fad058bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:02 +0000
Subject: [PATCH 02/40] fix: read the length of a post 2.0 glyph name as
 unsigned

A length byte above 127 was read as a negative number and made parsing
panic (makeslice: len out of range).
---
 table_post.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/table_post.go b/table_post.go
index 261ea65..b95005b 100644
--- a/table_post.go
+++ b/table_post.go
@@ -123,7 +123,7 @@ func (f *font) parsePost(r *byteReader) (*postTable, error) {
 				logrus.Debugf("%d > %d", r.Offset()-start, tr.length)
 				return nil, errors.New("reading outside table")
 			}
-			var numChars int8
+			var numChars uint8
 			err = r.read(&numChars)
 			if err != nil {
 				return nil, err
-- 
2.43.0


From 1f4c571750ace2e0794b015da5757082f50e8558 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:04 +0000
Subject: [PATCH 03/40] fix: accept post 1.0 and keep the version consistent
 when writing

The glyph count of a post 1.0 table is that of maxp; the table itself has
no such field, so every post 1.0 font was rejected. A subset that no longer
has the 258 standard glyphs is written as version 3.0.
---
 table_post.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/table_post.go b/table_post.go
index b95005b..8f9622c 100644
--- a/table_post.go
+++ b/table_post.go
@@ -84,12 +84,12 @@ func (f *font) parsePost(r *byteReader) (*postTable, error) {
 	logrus.Debugf("Version: %v %v 0x%X", t.version, t.version.Float64(), t.version)
 	switch uint32(t.version) {
 	case 0x00010000: // 1.0 - font files contains exactly the 258 standard Macintosh glyphs.
-		if t.numGlyphs != 258 {
+		if int(f.maxp.numGlyphs) != len(macGlyphNames) {
 			logrus.Debug("Should have the mac number of glyph names")
 			// TODO(gunnsth): If this is too strict, can just set the first 258 glyphnames.
 			return nil, errRangeCheck
 		}
-		t.glyphNames = make([]GlyphName, int(t.numGlyphs))
+		t.glyphNames = make([]GlyphName, len(macGlyphNames))
 		for i := range macGlyphNames {
 			t.glyphNames[i] = macGlyphNames[i]
 		}
@@ -209,7 +209,7 @@ func (f *font) writePost(w *byteWriter) error {
 
 	// TODO(gunnsth): Write out with v1.0 or v2.0.
 	version := t.version
-	if version != 0x00010000 {
+	if version != 0x00010000 || f.maxp == nil || int(f.maxp.numGlyphs) != len(macGlyphNames) {
 		// Include no postscript data.
 		// TODO(gunnsth): support writing v2.0.
 		version = 0x00030000
-- 
2.43.0


From fc2063c70c0a766115d85c5ddc6877f475b58577 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:05 +0000
Subject: [PATCH 04/40] fix: read the offsets of a post 2.5 table

readSlice did not support []int8, so that every font with a post 2.5 table
was rejected. The name index is the glyph index plus the offset.
---
 byte_reader.go | 8 ++++++++
 table_post.go  | 2 +-
 2 files changed, 9 insertions(+), 1 deletion(-)

diff --git a/byte_reader.go b/byte_reader.go
index 48c5d43..049b057 100644
--- a/byte_reader.go
+++ b/byte_reader.go
@@ -81,6 +81,14 @@ func (r *byteReader) readSlice(slice interface{}, length int) error {
 			}
 			*t = append(*t, val)
 		}
+	case *[]int8:
+		for i := 0; i < length; i++ {
+			val, err := r.readInt8()
+			if err != nil {
+				return err
+			}
+			*t = append(*t, val)
+		}
 	case *[]int16:
 		for i := 0; i < length; i++ {
 			val, err := r.readInt16()
diff --git a/table_post.go b/table_post.go
index 8f9622c..5dd9bf6 100644
--- a/table_post.go
+++ b/table_post.go
@@ -183,7 +183,7 @@ func (f *font) parsePost(r *byteReader) (*postTable, error) {
 		}
 		t.glyphNames = make([]GlyphName, int(t.numGlyphs))
 		for i := 0; i < int(t.numGlyphs); i++ {
-			nameIndex := i + 1 + int(t.offsets[i])
+			nameIndex := i + int(t.offsets[i])
 			if nameIndex < 0 || nameIndex > 257 {
 				logrus.Debugf("ERROR: name index outside range (%d)", nameIndex)
 				continue
-- 
2.43.0


From cc3c1e163a93e935e3837efceb9b555b5ae33893 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:22 +0000
Subject: [PATCH 05/40] fix: reject glyph data outside the glyf table

Non-increasing glyph locations gave a negative length and made parsing
panic, and only the start of the glyph data was checked against the length
of the table, so that a glyph could take bytes of another table.
---
 table_glyf.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/table_glyf.go b/table_glyf.go
index 196d396..77da4c5 100644
--- a/table_glyf.go
+++ b/table_glyf.go
@@ -59,9 +59,9 @@ func (f *font) parseGlyf(r *byteReader) (*glyfTable, error) {
 			return nil, err
 		}
 
-		if gdOffset > int64(tr.length) {
+		if gdLen < 0 || gdOffset+gdLen > int64(tr.length) {
 			logrus.Debugf("gid: %d, gdOffset: %d, tr len: %d, gd len: %d", gid, gdOffset, tr.length, gdLen)
-			logrus.Debugf("Range check error (glyf): %d > %d", gdOffset, tr.length)
+			logrus.Debugf("Range check error (glyf): %d+%d > %d", gdOffset, gdLen, tr.length)
 			return nil, errRangeCheck
 		}
 
-- 
2.43.0


From d76c70cf1deb3fcb551cb8562f19f188894e1d5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:24 +0000
Subject: [PATCH 06/40] fix: do not allocate memory for a length field before
 the data is read

A tiny font with huge glyph locations or table lengths made parsing or
validation allocate gigabytes.
---
 byte_reader.go | 11 +++++++++--
 table_glyf.go  |  1 -
 table_post.go  |  2 +-
 validate.go    |  4 ++--
 4 files changed, 12 insertions(+), 6 deletions(-)

diff --git a/byte_reader.go b/byte_reader.go
index 049b057..dbdeebc 100644
--- a/byte_reader.go
+++ b/byte_reader.go
@@ -7,6 +7,7 @@ package unitype
 
 import (
 	"bufio"
+	"bytes"
 	"encoding/binary"
 	"io"
 
@@ -53,11 +54,17 @@ func (r *byteReader) Skip(n int) error {
 
 // readBytes reads bytes straight from `r`.
 func (r *byteReader) readBytes(bp *[]byte, length int) error {
-	*bp = make([]byte, length)
-	_, err := io.ReadFull(r.reader, *bp)
+	if length < 0 {
+		return errRangeCheck
+	}
+
+	// Grow with the data that is actually there rather than trusting `length`.
+	var buf bytes.Buffer
+	_, err := io.CopyN(&buf, r.reader, int64(length))
 	if err != nil {
 		return err
 	}
+	*bp = buf.Bytes()
 
 	return nil
 }
diff --git a/table_glyf.go b/table_glyf.go
index 77da4c5..b7c8f83 100644
--- a/table_glyf.go
+++ b/table_glyf.go
@@ -72,7 +72,6 @@ func (f *font) parseGlyf(r *byteReader) (*glyfTable, error) {
 		}
 
 		var desc glyphDescription
-		desc.raw = make([]byte, gdLen)
 		err = r.readBytes(&desc.raw, int(gdLen))
 		if err != nil {
 			logrus.Debugf("ERROR: %v", err)
diff --git a/table_post.go b/table_post.go
index 5dd9bf6..5da44c9 100644
--- a/table_post.go
+++ b/table_post.go
@@ -132,7 +132,7 @@ func (f *font) parsePost(r *byteReader) (*postTable, error) {
 				break
 			}
 
-			name := make([]byte, numChars)
+			var name []byte
 			err = r.readBytes(&name, int(numChars))
 			if err != nil {
 				logrus.Debugf("ERROR: %v", err)
diff --git a/validate.go b/validate.go
index 7b7260e..61aa368 100644
--- a/validate.go
+++ b/validate.go
@@ -88,8 +88,8 @@ func (f *font) validate(r *byteReader) error {
 		}
 		logrus.Debugf("Offset: %d", r.Offset())
 
-		b := make([]byte, tr.length)
-		_, err = io.ReadFull(r.reader, b)
+		var b []byte
+		err = r.readBytes(&b, int(tr.length))
 		if err != nil {
 			return err
 		}
-- 
2.43.0


From 4c0842c86ca967392eb1414ba2fa562d896694a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:26 +0000
Subject: [PATCH 07/40] fix: check the head offset before accessing the data in
 validation

The data can be shorter than when it was parsed (the reader may fail or the
file may change), which made validation panic.
---
 validate.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/validate.go b/validate.go
index 61aa368..6febe15 100644
--- a/validate.go
+++ b/validate.go
@@ -50,7 +50,11 @@ func (f *font) validate(r *byteReader) error {
 			logrus.Debug("head not set")
 			return errRequiredField
 		}
-		hoff := headRec.offset
+		hoff := int64(headRec.offset)
+		if hoff+12 > int64(len(data)) {
+			logrus.Debug("head outside of data")
+			return errRangeCheck
+		}
 
 		// set checksumAdjustment data to 0 in the head table.
 		data[hoff+8] = 0
-- 
2.43.0


From 05194ea6a0744c4658876083532b72cffa906ffc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:41 +0000
Subject: [PATCH 08/40] fix: write the number of cmap encoding records that
 follow and report errors

The parsed count includes records with unsupported subtable formats, which
are not written, so that readers took subtable data for records. Errors
writing the cmap header and the format 4 arrays were dropped.
---
 table_cmap.go | 18 +++++++++++-------
 1 file changed, 11 insertions(+), 7 deletions(-)

diff --git a/table_cmap.go b/table_cmap.go
index ac0d27b..712c17d 100644
--- a/table_cmap.go
+++ b/table_cmap.go
@@ -364,19 +364,19 @@ func writeCmapSubtableFormat4(subtable *cmapSubtable, w *byteWriter) error {
 	}
 	err = w.write(subt.reservedPad)
 	if err != nil {
-		return nil
+		return err
 	}
 	err = w.writeSlice(subt.startCode)
 	if err != nil {
-		return nil
+		return err
 	}
 	err = w.writeSlice(subt.idDelta)
 	if err != nil {
-		return nil
+		return err
 	}
 	err = w.writeSlice(subt.idRangeOffset)
 	if err != nil {
-		return nil
+		return err
 	}
 	// TODO: Problem: the following slice is not populated.
 	return w.writeSlice(subt.glyphIDArray)
@@ -558,8 +558,6 @@ func (f *font) writeCmap(w *byteWriter) error {
 	}
 	t := f.cmap
 
-	err := w.write(t.version, t.numTables)
-
 	// Write the cmap subtables to an in-memory mock buffer to calculate offsets.
 	var mockBuffer bytes.Buffer
 	mockWriter := newByteWriter(&mockBuffer)
@@ -603,7 +601,13 @@ func (f *font) writeCmap(w *byteWriter) error {
 			encodingRecords = append(encodingRecords, rec)
 		}
 	}
-	err = mockWriter.flush()
+	err := mockWriter.flush()
+	if err != nil {
+		return err
+	}
+
+	// Only the supported subtables are written.
+	err = w.write(t.version, uint16(len(encodingRecords)))
 	if err != nil {
 		return err
 	}
-- 
2.43.0


From 4c293ec67d47d3a3b6cd3a97363e214e39fdfecb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:15 +0000
Subject: [PATCH 09/40] fix: cmap subtable lengths and offsets that do not fit
 are an error

The 16 and 32 bit length arithmetic wrapped around. A format 4 subtable
whose length is less than its segments take was read with a huge glyph id
array instead of being rejected, and long subtables were written with a
wrong length.
---
 table_cmap.go | 33 +++++++++++++++++++++++++++++----
 1 file changed, 29 insertions(+), 4 deletions(-)

diff --git a/table_cmap.go b/table_cmap.go
index 712c17d..454c82c 100644
--- a/table_cmap.go
+++ b/table_cmap.go
@@ -9,6 +9,7 @@ import (
 	"bytes"
 	"errors"
 	"fmt"
+	"math"
 
 	"github.com/sirupsen/logrus"
 )
@@ -259,7 +260,7 @@ func (f *font) parseCmapSubtableFormat4(r *byteReader, platformID, encodingID in
 		return nil, err
 	}
 
-	glyphIDArrLen := int(st.length-uint16(2*8+2*4*segCount)) / 2
+	glyphIDArrLen := (int(st.length) - (2*8 + 2*4*segCount)) / 2
 	logrus.Debugf("Parsing cmap format 4, segCount: %d", segCount)
 	logrus.Debugf("Table len: %d", st.length)
 	logrus.Debugf("glyphIDArrLen: %d", glyphIDArrLen)
@@ -349,7 +350,14 @@ func writeCmapSubtableFormat4(subtable *cmapSubtable, w *byteWriter) error {
 	format = 4
 	// TODO(gunnsth): Not the place to generate this?  Somewhere else should have ability to generate
 	//       based on character codes.
-	subt.length = 7*2 + subt.segCountX2 + 2 + 3*subt.segCountX2 + 2*uint16(len(subt.glyphIDArray))
+	segCount := len(subt.endCode)
+	length := 8*2 + 4*2*segCount + 2*len(subt.glyphIDArray)
+	if length > math.MaxUint16 {
+		logrus.Debugf("cmap format 4 subtable too long (%d)", length)
+		return errRangeCheck
+	}
+	subt.length = uint16(length)
+	subt.segCountX2 = uint16(2 * segCount)
 	err := w.write(format, subt.length, subt.language)
 	if err != nil {
 		return err
@@ -442,7 +450,13 @@ func writeCmapSubtableFormat6(subtable *cmapSubtable, w *byteWriter) error {
 		format uint16
 	)
 	format = 6
-	subt.length = 5*2 + 2*uint16(len(subt.glyphIDArray))
+	length := 5*2 + 2*len(subt.glyphIDArray)
+	if length > math.MaxUint16 {
+		logrus.Debugf("cmap format 6 subtable too long (%d)", length)
+		return errRangeCheck
+	}
+	subt.length = uint16(length)
+	subt.entryCount = uint16(len(subt.glyphIDArray))
 	err := w.write(format, subt.length, subt.language, subt.firstCode, subt.entryCount)
 	if err != nil {
 		return err
@@ -535,7 +549,13 @@ func writeCmapSubtableFormat12(subtable *cmapSubtable, w *byteWriter) error {
 		format uint16
 	)
 	format = 12
-	subt.length = 2*2 + 3*4 + uint32(len(subt.groups))*3*4
+	length := 2*2 + 3*4 + len(subt.groups)*3*4
+	if length > math.MaxUint32 {
+		logrus.Debugf("cmap format 12 subtable too long (%d)", length)
+		return errRangeCheck
+	}
+	subt.length = uint32(length)
+	subt.numGroups = uint32(len(subt.groups))
 	err := w.write(format, subt.reserved, subt.length, subt.language, subt.numGroups)
 	if err != nil {
 		return err
@@ -565,6 +585,11 @@ func (f *font) writeCmap(w *byteWriter) error {
 	var encodingRecords []encodingRecord
 	for _, subtkey := range t.subtableKeys {
 		subt := t.subtables[subtkey]
+		// Leave room for the static part that is added to the offset.
+		if mockWriter.bufferedLen() > math.MaxUint32-(4+8*len(t.subtableKeys)) {
+			logrus.Debug("cmap table too long")
+			return errRangeCheck
+		}
 		rec := encodingRecord{
 			platformID: uint16(subt.platformID),
 			encodingID: uint16(subt.encodingID),
-- 
2.43.0


From ac3f65748ed13102b40d6d48f5ac09c375abb307 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:17 +0000
Subject: [PATCH 10/40] fix: check the full glyph id of cmap format 12 groups

A start glyph above 65535 was truncated before the range check and so
mapped to another glyph; a group ending at 0xFFFFFFFF went on with
character code 0.
---
 table_cmap.go | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/table_cmap.go b/table_cmap.go
index 454c82c..156e094 100644
--- a/table_cmap.go
+++ b/table_cmap.go
@@ -508,13 +508,14 @@ func (f *font) parseCmapSubtableFormat12(r *byteReader, platformID, encodingID i
 	charcodes := make([]CharCode, f.maxp.numGlyphs)
 	charcodeMap := make(map[CharCode]GlyphIndex, f.maxp.numGlyphs)
 	for _, group := range st.groups {
-		gid := GlyphIndex(group.startGlyphID)
-		if int(gid) >= int(f.maxp.numGlyphs) {
-			logrus.Debugf("gid >= numGlyphs (%d > %d)", gid, f.maxp.numGlyphs)
+		if group.startGlyphID >= uint32(f.maxp.numGlyphs) {
+			logrus.Debugf("gid >= numGlyphs (%d > %d)", group.startGlyphID, f.maxp.numGlyphs)
 			logrus.Debugf("Error: %v", errRangeCheck)
 			return nil, errRangeCheck
 		}
-		for charcode := group.startCharCode; charcode <= group.endCharCode; charcode++ {
+		gid := GlyphIndex(group.startGlyphID)
+		for code := uint64(group.startCharCode); code <= uint64(group.endCharCode); code++ {
+			charcode := uint32(code)
 			if int(gid) >= int(f.maxp.numGlyphs) {
 				break
 			}
-- 
2.43.0


From d04418b0b1aef7dfb85e10ed4e69c34c460297b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:19 +0000
Subject: [PATCH 11/40] fix: cmap format 0 is indexed by character code

The position in the array was taken for the glyph and the glyph stored
there for the character code, which gave an inverted mapping.
---
 table_cmap.go | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/table_cmap.go b/table_cmap.go
index 156e094..de0e983 100644
--- a/table_cmap.go
+++ b/table_cmap.go
@@ -167,12 +167,16 @@ func (f *font) parseCmapSubtableFormat0(r *byteReader, platformID, encodingID in
 	charcodes := make([]CharCode, len(st.glyphIDArray))
 	charcodeToGID := map[CharCode]GlyphIndex{}
 
-	for glyphID, code := range st.glyphIDArray {
+	for code, glyphID := range st.glyphIDArray {
 		charcodeToGID[CharCode(code)] = GlyphIndex(glyphID)
 		codeBytes := runeDecoder.ToBytes(uint32(code))
 		r := runeDecoder.DecodeRune(codeBytes)
-		runes[glyphID] = r
-		charcodes[glyphID] = CharCode(code)
+		runes[code] = r
+		charcodes[code] = CharCode(code)
+		if glyphID == 0 {
+			// notdef.
+			continue
+		}
 		if _, has := cmap[r]; !has {
 			// Avoid overwrite, if get same twice, use the earlier entry.
 			cmap[r] = GlyphIndex(glyphID)
-- 
2.43.0


From 8d9a33046bd7d9e2b1be13d3f93c743a1b6dee35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:21 +0000
Subject: [PATCH 12/40] fix: reject cmap format 6 subtables whose character
 codes exceed 16 bits

The codes wrapped around to 0 and were mapped to the wrong glyphs.
---
 table_cmap.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/table_cmap.go b/table_cmap.go
index de0e983..9ca801b 100644
--- a/table_cmap.go
+++ b/table_cmap.go
@@ -410,6 +410,11 @@ func (f *font) parseCmapSubtableFormat6(r *byteReader, platformID, encodingID in
 		return nil, err
 	}
 
+	if int(st.firstCode)+int(st.entryCount) > 65536 {
+		logrus.Debugf("cmap format 6 codes exceed 16 bits (%d + %d)", st.firstCode, st.entryCount)
+		return nil, errRangeCheck
+	}
+
 	err = r.readSlice(&st.glyphIDArray, int(st.entryCount))
 	if err != nil {
 		return nil, err
-- 
2.43.0


From 9fa1b170c3ad47e8ff96504e98e874e0f247d0e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:44 +0000
Subject: [PATCH 13/40] fix: subsetting to glyph indices no longer erases the
 glyphs of the source font

The glyph descriptions are shared with the source, whose data was dropped
for all glyphs outside of the subset.
---
 export.go | 12 +++++-------
 1 file changed, 5 insertions(+), 7 deletions(-)

diff --git a/export.go b/export.go
index 72b111b..1921357 100644
--- a/export.go
+++ b/export.go
@@ -196,15 +196,13 @@ func (f *Font) SubsetKeepIndices(indices []GlyphIndex) (*Font, error) {
 	if f.font.glyf != nil && f.font.loca != nil {
 		newfnt.loca = &locaTable{}
 		newfnt.glyf = &glyfTable{}
-		*newfnt.glyf = *f.font.glyf
 
-		// Empty glyf contents for non-included glyphs.
-		for i := range newfnt.glyf.descs {
-			if _, has := gidIncludedMap[GlyphIndex(i)]; has {
-				continue
+		// Empty glyf contents for non-included glyphs. The descriptions of `f` are left alone.
+		for i, desc := range f.font.glyf.descs {
+			if _, has := gidIncludedMap[GlyphIndex(i)]; !has {
+				desc = &glyphDescription{}
 			}
-
-			newfnt.glyf.descs[i].raw = nil
+			newfnt.glyf.descs = append(newfnt.glyf.descs, desc)
 		}
 
 		// Update loca offsets.
-- 
2.43.0


From 80cf3369776f37c2c58e9a9800dc610afc35441f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:06 +0000
Subject: [PATCH 14/40] fix: SubsetFirst copies the character maps it prunes

The subtables are shared with the source font, whose character maps were
replaced by those of the subset. The decoded maps of the subset still
mapped characters to glyphs beyond its glyph count, and for format 0 the
position rather than the glyph was compared with the glyph count.
---
 export.go     |  8 ++++++--
 table_cmap.go | 21 +++++++++++++++++++++
 2 files changed, 27 insertions(+), 2 deletions(-)

diff --git a/export.go b/export.go
index 1921357..ae09c20 100644
--- a/export.go
+++ b/export.go
@@ -400,14 +400,16 @@ func (f *Font) SubsetFirst(numGlyphs int) (*Font, error) {
 		}
 
 		for _, name := range f.cmap.subtableKeys {
-			subt := f.cmap.subtables[name]
+			subt := f.cmap.subtables[name].subset(numGlyphs)
 			switch t := subt.ctx.(type) {
 			case cmapSubtableFormat0:
+				t.glyphIDArray = append([]uint8(nil), t.glyphIDArray...)
 				for i := range t.glyphIDArray {
-					if i > numGlyphs {
+					if int(t.glyphIDArray[i]) >= numGlyphs {
 						t.glyphIDArray[i] = 0
 					}
 				}
+				subt.ctx = t
 			case cmapSubtableFormat4:
 				newt := cmapSubtableFormat4{}
 				// Generates a new table: going from glyph index 0 up to numGlyphs.
@@ -464,11 +466,13 @@ func (f *Font) SubsetFirst(numGlyphs int) (*Font, error) {
 				newt.rangeShift = uint16(segments*2) - newt.searchRange
 				subt.ctx = newt
 			case cmapSubtableFormat6:
+				t.glyphIDArray = append([]uint16(nil), t.glyphIDArray...)
 				for i := range t.glyphIDArray {
 					if int(t.glyphIDArray[i]) >= numGlyphs {
 						t.glyphIDArray[i] = 0
 					}
 				}
+				subt.ctx = t
 			case cmapSubtableFormat12:
 				newt := cmapSubtableFormat12{}
 				groups := 0
diff --git a/table_cmap.go b/table_cmap.go
index 9ca801b..1138765 100644
--- a/table_cmap.go
+++ b/table_cmap.go
@@ -128,6 +128,27 @@ type cmapSubtable struct {
 	runeToCharcodeBytes map[rune][]byte // Quick for going rune -> encoded bytes (charcodes).
 }
 
+// subset returns a copy of `st` without the mappings to glyphs beyond the first `numGlyphs`. The
+// format specific data in `ctx` is still that of `st`.
+func (st *cmapSubtable) subset(numGlyphs int) *cmapSubtable {
+	newst := &cmapSubtable{}
+	*newst = *st
+
+	newst.cmap = make(map[rune]GlyphIndex, len(st.cmap))
+	for r, gid := range st.cmap {
+		if int(gid) < numGlyphs {
+			newst.cmap[r] = gid
+		}
+	}
+	newst.charcodeToGID = make(map[CharCode]GlyphIndex, len(st.charcodeToGID))
+	for cc, gid := range st.charcodeToGID {
+		if int(gid) < numGlyphs {
+			newst.charcodeToGID[cc] = gid
+		}
+	}
+	return newst
+}
+
 // cmapSubtableFormat0 represents format 0: Byte encoding table.
 // This is the Apple standard character to glyph index mapping table.
 type cmapSubtableFormat0 struct {
-- 
2.43.0


From c4cf1e73e42c2527d84c117e1e99899a3496756b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:08 +0000
Subject: [PATCH 15/40] fix: do not panic when optional tables are missing or
 the glyph count is negative

GetNameRecords without a name table, Optimize without hmtx, subsetting to
glyph indices without glyf and SubsetFirst with a negative number of
glyphs panicked.
---
 export.go     | 4 ++++
 table_glyf.go | 4 ++++
 table_hmtx.go | 3 +++
 table_name.go | 4 ++++
 4 files changed, 15 insertions(+)

diff --git a/export.go b/export.go
index ae09c20..2f505de 100644
--- a/export.go
+++ b/export.go
@@ -283,6 +283,10 @@ func (f *Font) SubsetFirst(numGlyphs int) (*Font, error) {
 		logrus.Debugf("Attempting to subset font with same number of glyphs - Ignoring, returning same back")
 		return f, nil
 	}
+	if numGlyphs < 0 {
+		logrus.Debugf("Invalid number of glyphs: %d", numGlyphs)
+		return nil, errRangeCheck
+	}
 	newfnt := font{}
 
 	newfnt.ot = &offsetTable{}
diff --git a/table_glyf.go b/table_glyf.go
index b7c8f83..d2e7cd5 100644
--- a/table_glyf.go
+++ b/table_glyf.go
@@ -244,6 +244,10 @@ func (f compositeGlyphFlag) IsSet(flag compositeGlyphFlag) bool {
 
 // Returns list of glyphs that `gid` depends on (other than itself).
 func (glyf *glyfTable) GetComponents(gid GlyphIndex) ([]GlyphIndex, error) {
+	if glyf == nil {
+		logrus.Debug("glyf table missing")
+		return nil, nil
+	}
 	if int(gid) >= len(glyf.descs) {
 		logrus.Debugf("GID not accessible (%d > %d)", gid, len(glyf.descs))
 		return nil, nil
diff --git a/table_hmtx.go b/table_hmtx.go
index 3789369..a53d4d7 100644
--- a/table_hmtx.go
+++ b/table_hmtx.go
@@ -60,6 +60,9 @@ func (f *font) parseHmtx(r *byteReader) (*hmtxTable, error) {
 
 // optimizeHmtx optimizes the htmx table.
 func (f *font) optimizeHmtx() {
+	if f.hmtx == nil || f.hhea == nil {
+		return
+	}
 	i := len(f.hmtx.hMetrics) - 1
 	if i <= 0 {
 		return
diff --git a/table_name.go b/table_name.go
index dfa7be2..83ee470 100644
--- a/table_name.go
+++ b/table_name.go
@@ -69,6 +69,10 @@ func (f *font) GetNameByID(nameID int) string {
 // that contais name ID and it's value.
 func (f *font) GetNameRecords() map[uint16]map[uint16]string {
 	var nameRecords = make(map[uint16]map[uint16]string, 0)
+	if f == nil || f.name == nil {
+		logrus.Debug("Font or name not set")
+		return nameRecords
+	}
 	for _, nr := range f.name.nameRecords {
 		nameRec, ok := nameRecords[nr.languageID]
 		if ok {
-- 
2.43.0


From b253477753491ca90f2bb97505516d2ba7e032d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:39 +0000
Subject: [PATCH 16/40] fix: writing a font does not modify it

The stored checksum adjustment, table count, post version and name offsets
were overwritten, so that concurrent writes raced and validate failed for a
font that had been written.
---
 table_name.go | 14 +++++++++++++-
 table_post.go |  3 +--
 2 files changed, 14 insertions(+), 3 deletions(-)

diff --git a/table_name.go b/table_name.go
index 83ee470..e2d7417 100644
--- a/table_name.go
+++ b/table_name.go
@@ -260,7 +260,19 @@ func (f *font) writeNameTable(w *byteWriter) error {
 		logrus.Debug("name is nil")
 		return nil
 	}
-	t := f.name
+	// Update the offsets, lengths and counts in a copy so that `f` is not modified.
+	t := &nameTable{}
+	*t = *f.name
+	t.nameRecords = nil
+	for _, nr := range f.name.nameRecords {
+		dup := *nr
+		t.nameRecords = append(t.nameRecords, &dup)
+	}
+	t.langTagRecords = nil
+	for _, ltr := range f.name.langTagRecords {
+		dup := *ltr
+		t.langTagRecords = append(t.langTagRecords, &dup)
+	}
 
 	// Preprocess: Write to buffer and update offsets.
 	var buf bytes.Buffer
diff --git a/table_post.go b/table_post.go
index 5da44c9..d37c9c9 100644
--- a/table_post.go
+++ b/table_post.go
@@ -213,10 +213,9 @@ func (f *font) writePost(w *byteWriter) error {
 		// Include no postscript data.
 		// TODO(gunnsth): support writing v2.0.
 		version = 0x00030000
-		t.version = version
 	}
 
-	err := w.write(t.version, t.italicAngle, t.underlinePosition, t.underlineThickness, t.isFixedPitch)
+	err := w.write(version, t.italicAngle, t.underlinePosition, t.underlineThickness, t.isFixedPitch)
 	if err != nil {
 		return err
 	}
-- 
2.43.0


From dd5376e4f2543eab7a15124a819ba398991b454a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:41 +0000
Subject: [PATCH 17/40] fix: name table offsets that do not fit are an error

Offsets beyond 64k were truncated, so that names were read from the wrong
place.
---
 table_name.go | 26 ++++++++++++++++++++------
 1 file changed, 20 insertions(+), 6 deletions(-)

diff --git a/table_name.go b/table_name.go
index e2d7417..ab87049 100644
--- a/table_name.go
+++ b/table_name.go
@@ -7,6 +7,7 @@ package unitype
 
 import (
 	"bytes"
+	"math"
 	"strconv"
 	"unicode"
 	"unicode/utf8"
@@ -279,6 +280,10 @@ func (f *font) writeNameTable(w *byteWriter) error {
 	{
 		bufw := newByteWriter(&buf)
 		for _, nr := range t.nameRecords {
+			if bufw.bufferedLen() > math.MaxUint16 || len(nr.data) > math.MaxUint16 {
+				logrus.Debug("name strings too long")
+				return errRangeCheck
+			}
 			nr.offset = offset16(bufw.bufferedLen())
 			nr.length = uint16(len(nr.data))
 			err := bufw.writeSlice(nr.data)
@@ -287,6 +292,10 @@ func (f *font) writeNameTable(w *byteWriter) error {
 			}
 		}
 		for _, ltr := range t.langTagRecords {
+			if bufw.bufferedLen() > math.MaxUint16 || len(ltr.data) > math.MaxUint16 {
+				logrus.Debug("name strings too long")
+				return errRangeCheck
+			}
 			ltr.offset = offset16(bufw.bufferedLen())
 			ltr.length = uint16(len(ltr.data))
 			err := bufw.writeSlice(ltr.data)
@@ -301,15 +310,20 @@ func (f *font) writeNameTable(w *byteWriter) error {
 	}
 	logrus.Debugf("Buffer length: %d", buf.Len())
 
-	// Update count and stringOffsets (calculated).
-	t.count = uint16(len(t.nameRecords))
-	t.langTagCount = uint16(len(t.langTagRecords))
-
 	// 2+2+2+count*(6*2) + (format=1) 2+langTagCount*2
-	t.stringOffset = 6 + offset16(t.count)*12
+	stringOffset := 6 + len(t.nameRecords)*12
 	if t.format == 1 {
-		t.stringOffset += 2 + offset16(t.langTagCount)*4
+		stringOffset += 2 + len(t.langTagRecords)*4
 	}
+	if stringOffset > math.MaxUint16 {
+		logrus.Debug("too many name records")
+		return errRangeCheck
+	}
+
+	// Update count and stringOffsets (calculated).
+	t.count = uint16(len(t.nameRecords))
+	t.langTagCount = uint16(len(t.langTagRecords))
+	t.stringOffset = offset16(stringOffset)
 
 	logrus.Debugf("w @ %d", w.bufferedLen())
 	err := w.write(t.format, t.count, t.stringOffset)
-- 
2.43.0


From 54dc30f8e5e4bbf545041270d3c306c0549693e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:55 +0000
Subject: [PATCH 18/40] fix: writing a font does not modify its header and
 table count

---
 font.go | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/font.go b/font.go
index c8b6bff..9c19dd2 100644
--- a/font.go
+++ b/font.go
@@ -216,8 +216,6 @@ func (f *font) write(w *byteWriter) error {
 	}
 	trec := &tableRecords{}
 
-	f.ot.numTables = uint16(numTables)
-
 	// Starting offset after offset table and table records.
 	startOffset := int64(12 + numTables*16)
 
@@ -236,10 +234,15 @@ func (f *font) write(w *byteWriter) error {
 	{
 		bufw := newByteWriter(&buf)
 
-		// head.
-		f.head.checksumAdjustment = 0
+		// head (written from a copy so that `f` is not modified).
+		if f.head == nil {
+			return errRequiredField
+		}
+		head := *f.head
+		head.checksumAdjustment = 0
+		headf := &font{head: &head}
 		offset := startOffset
-		err := f.writeHead(bufw)
+		err := headf.writeHead(bufw)
 		if err != nil {
 			return err
 		}
-- 
2.43.0


From bc4eb43507f95a61a56e70a2781092da2eb5bc84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:57 +0000
Subject: [PATCH 19/40] fix: GetCmap does not depend on map iteration order

With two subtables of the same platform and encoding, e.g. in formats 4 and
12, a random one of them was returned.
---
 export.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/export.go b/export.go
index 2f505de..237fcfb 100644
--- a/export.go
+++ b/export.go
@@ -84,7 +84,9 @@ func (f *Font) GetCmap(platformID, encodingID int) map[rune]GlyphIndex {
 		return nil
 	}
 
-	for _, subt := range f.cmap.subtables {
+	// In the order of the records in the font, a map has no fixed order.
+	for _, key := range f.cmap.subtableKeys {
+		subt := f.cmap.subtables[key]
 		if subt.platformID == platformID && subt.encodingID == encodingID {
 			return subt.cmap
 		}
-- 
2.43.0


From f40be0c1b3a9438b7bfccd84deebca4b52d522f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:15 +0000
Subject: [PATCH 20/40] fix: PDFDocEncoding code 0x16 is U+0016

Two codes shared U+0017, which the encoder mapped to either of them
depending on map iteration order.
---
 internal/strutils/pdfdocenc.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internal/strutils/pdfdocenc.go b/internal/strutils/pdfdocenc.go
index 7b51bbf..6c0c61c 100644
--- a/internal/strutils/pdfdocenc.go
+++ b/internal/strutils/pdfdocenc.go
@@ -30,7 +30,7 @@ var pdfDocEncoding = map[byte]rune{
 	0x13: '\u0013', //     "controlDC3"
 	0x14: '\u0014', //     "controlDC4"
 	0x15: '\u0015', //     "controlNAK"
-	0x16: '\u0017', //     "controlETB"
+	0x16: '\u0016', //     "controlSYN"
 	0x17: '\u0017', //     "controlETB"
 	0x18: '\u02d8', //  ˘  "breve"
 	0x19: '\u02c7', //  ˇ  "caron"
-- 
2.43.0


From 623d054dc85f84650556fb84fc83ba6183ad1ad5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:17 +0000
Subject: [PATCH 21/40] fix: GetComponents does not modify the glyph and always
 reports its errors

After a failure to parse the components of a glyph it was taken for one
without components the next time.
---
 table_glyf.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/table_glyf.go b/table_glyf.go
index d2e7cd5..6c44d9d 100644
--- a/table_glyf.go
+++ b/table_glyf.go
@@ -254,7 +254,9 @@ func (glyf *glyfTable) GetComponents(gid GlyphIndex) ([]GlyphIndex, error) {
 	}
 
 	var components []GlyphIndex
-	gdesc := glyf.descs[int(gid)]
+	// Parse into a copy: the description may be shared with other fonts and goroutines, and a failure
+	// should be reported each time.
+	gdesc := *glyf.descs[int(gid)]
 
 	if gdesc.header == nil {
 		if len(gdesc.raw) == 0 {
-- 
2.43.0


From c7a3c530c886686822d848edd478ea1bfe73df23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:19 +0000
Subject: [PATCH 22/40] fix: WriteFile reports a failure to close the file

Data that could not be written when closing was lost without an error.
---
 export.go | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/export.go b/export.go
index 237fcfb..5857ae3 100644
--- a/export.go
+++ b/export.go
@@ -586,7 +586,10 @@ func (f *Font) WriteFile(outPath string) error {
 	if err != nil {
 		return err
 	}
-	defer of.Close()
-
-	return f.Write(of)
+	err = f.Write(of)
+	cerr := of.Close()
+	if err != nil {
+		return err
+	}
+	return cerr
 }
-- 
2.43.0


From 0d23b823b3bee25f794cb83ea007fd9eb0406183 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:20 +0000
Subject: [PATCH 23/40] fix: truecli exits with an error when the font cannot
 be written

It printed the error and exited with status 0.
---
 truecli/cmd/readwrite.go     | 3 +--
 truecli/cmd/subset_gids.go   | 3 +--
 truecli/cmd/subset_runes.go  | 3 +--
 truecli/cmd/subset_simple.go | 3 +--
 4 files changed, 4 insertions(+), 8 deletions(-)

diff --git a/truecli/cmd/readwrite.go b/truecli/cmd/readwrite.go
index c942078..d307a6d 100644
--- a/truecli/cmd/readwrite.go
+++ b/truecli/cmd/readwrite.go
@@ -54,8 +54,7 @@ var readwriteCmd = &cobra.Command{
 		var buf bytes.Buffer
 		err = tfnt.Write(&buf)
 		if err != nil {
-			fmt.Printf("Error writing: %+v\n", err)
-			return
+			fatalf("Error writing: %+v\n", err)
 		}
 
 		err = unitype.ValidateBytes(buf.Bytes())
diff --git a/truecli/cmd/subset_gids.go b/truecli/cmd/subset_gids.go
index c983ff4..f448262 100644
--- a/truecli/cmd/subset_gids.go
+++ b/truecli/cmd/subset_gids.go
@@ -66,8 +66,7 @@ var subsetGIDsCmd = &cobra.Command{
 		var buf bytes.Buffer
 		err = tfnt.Write(&buf)
 		if err != nil {
-			fmt.Printf("Error writing: %+v\n", err)
-			return
+			fatalf("Error writing: %+v\n", err)
 		}
 
 		err = unitype.ValidateBytes(buf.Bytes())
diff --git a/truecli/cmd/subset_runes.go b/truecli/cmd/subset_runes.go
index 350209f..c545c4d 100644
--- a/truecli/cmd/subset_runes.go
+++ b/truecli/cmd/subset_runes.go
@@ -59,8 +59,7 @@ var subsetRunesCmd = &cobra.Command{
 		var buf bytes.Buffer
 		err = tfnt.Write(&buf)
 		if err != nil {
-			fmt.Printf("Error writing: %+v\n", err)
-			return
+			fatalf("Error writing: %+v\n", err)
 		}
 		origSize := buf.Len()
 
diff --git a/truecli/cmd/subset_simple.go b/truecli/cmd/subset_simple.go
index 6349a81..c4134bf 100644
--- a/truecli/cmd/subset_simple.go
+++ b/truecli/cmd/subset_simple.go
@@ -54,8 +54,7 @@ var subsetSimpleCmd = &cobra.Command{
 		var buf bytes.Buffer
 		err = tfnt.Write(&buf)
 		if err != nil {
-			fmt.Printf("Error writing: %+v\n", err)
-			return
+			fatalf("Error writing: %+v\n", err)
 		}
 
 		err = unitype.ValidateBytes(buf.Bytes())
-- 
2.43.0


From dd03a201da71e3af6e04d56e634a686865bf7d05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:21 +0000
Subject: [PATCH 24/40] fix: truecli subset gids rejects glyph indices above
 65535

They were truncated to another glyph index.
---
 truecli/cmd/subset_gids.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/truecli/cmd/subset_gids.go b/truecli/cmd/subset_gids.go
index f448262..2a9dc43 100644
--- a/truecli/cmd/subset_gids.go
+++ b/truecli/cmd/subset_gids.go
@@ -48,7 +48,7 @@ var subsetGIDsCmd = &cobra.Command{
 	Run: func(cmd *cobra.Command, args []string) {
 		var gids []unitype.GlyphIndex
 		for i := 1; i < len(args); i++ {
-			gid, err := strconv.ParseUint(args[i], 10, 32)
+			gid, err := strconv.ParseUint(args[i], 10, 16)
 			if err != nil {
 				fatalf("Invalid gid: %v\n", err)
 			}
-- 
2.43.0


From 2b9940ec31e2b030737f164c9799e7def78051a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:23 +0000
Subject: [PATCH 25/40] fix: makeTag pads short tags to 4 bytes

Tags of one or two characters were padded with zero bytes.
---
 type.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/type.go b/type.go
index 754972c..3af9623 100644
--- a/type.go
+++ b/type.go
@@ -84,7 +84,7 @@ func makeTag(s string) tag {
 	}
 	if len(bb) < 4 {
 		// Pad with spaces to fill 4 bytes.
-		for i := 0; i < 4-len(bb); i++ {
+		for len(bb) < 4 {
 			bb = append(bb, ' ')
 		}
 	}
-- 
2.43.0


From 4a239dc6cb5495fca685febab1215c5fee60253c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:48 +0000
Subject: [PATCH 26/40] fix: glyph locations of a subset start at 0 and must
 fit their format

The glyph data of a subset is written from the start of the glyf table,
whereas the location of the first glyph was taken from the source font.
Lengths were truncated to 16 bits before they were halved.
---
 export.go | 32 ++++++++++++++++++++++++--------
 1 file changed, 24 insertions(+), 8 deletions(-)

diff --git a/export.go b/export.go
index 5857ae3..8cbd7c3 100644
--- a/export.go
+++ b/export.go
@@ -211,16 +211,24 @@ func (f *Font) SubsetKeepIndices(indices []GlyphIndex) (*Font, error) {
 		isShort := f.font.head.indexToLocFormat == 0
 		if isShort {
 			newfnt.loca.offsetsShort = make([]offset16, len(newfnt.glyf.descs)+1)
-			newfnt.loca.offsetsShort[0] = f.font.loca.offsetsShort[0]
 		} else {
 			newfnt.loca.offsetsLong = make([]offset32, len(newfnt.glyf.descs)+1)
-			newfnt.loca.offsetsLong[0] = f.font.loca.offsetsLong[0]
 		}
 		for i, desc := range newfnt.glyf.descs {
 			if isShort {
-				newfnt.loca.offsetsShort[i+1] = newfnt.loca.offsetsShort[i] + offset16(len(desc.raw))/2
+				next := int(newfnt.loca.offsetsShort[i]) + len(desc.raw)/2
+				if next > math.MaxUint16 {
+					logrus.Debug("Glyph data does not fit the short loca format")
+					return nil, errRangeCheck
+				}
+				newfnt.loca.offsetsShort[i+1] = offset16(next)
 			} else {
-				newfnt.loca.offsetsLong[i+1] = newfnt.loca.offsetsLong[i] + offset32(len(desc.raw))
+				next := int(newfnt.loca.offsetsLong[i]) + len(desc.raw)
+				if next > math.MaxUint32 {
+					logrus.Debug("Glyph data does not fit the long loca format")
+					return nil, errRangeCheck
+				}
+				newfnt.loca.offsetsLong[i+1] = offset32(next)
 			}
 		}
 	}
@@ -342,16 +350,24 @@ func (f *Font) SubsetFirst(numGlyphs int) (*Font, error) {
 		isShort := f.font.head.indexToLocFormat == 0
 		if isShort {
 			newfnt.loca.offsetsShort = make([]offset16, numGlyphs+1)
-			newfnt.loca.offsetsShort[0] = f.font.loca.offsetsShort[0]
 		} else {
 			newfnt.loca.offsetsLong = make([]offset32, numGlyphs+1)
-			newfnt.loca.offsetsLong[0] = f.font.loca.offsetsLong[0]
 		}
 		for i, desc := range newfnt.glyf.descs {
 			if isShort {
-				newfnt.loca.offsetsShort[i+1] = newfnt.loca.offsetsShort[i] + offset16(len(desc.raw))/2
+				next := int(newfnt.loca.offsetsShort[i]) + len(desc.raw)/2
+				if next > math.MaxUint16 {
+					logrus.Debug("Glyph data does not fit the short loca format")
+					return nil, errRangeCheck
+				}
+				newfnt.loca.offsetsShort[i+1] = offset16(next)
 			} else {
-				newfnt.loca.offsetsLong[i+1] = newfnt.loca.offsetsLong[i] + offset32(len(desc.raw))
+				next := int(newfnt.loca.offsetsLong[i]) + len(desc.raw)
+				if next > math.MaxUint32 {
+					logrus.Debug("Glyph data does not fit the long loca format")
+					return nil, errRangeCheck
+				}
+				newfnt.loca.offsetsLong[i+1] = offset32(next)
 			}
 		}
 	}
-- 
2.43.0


From 54c0b6883502893ccb71cf230675d52f321347d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:13 +0000
Subject: [PATCH 27/40] fix: write the glyph locations of the glyph data that
 is written

The locations of the parsed font were written although its glyph data is
written back to back, so that glyphs of a font with gaps or shared data in
its glyf table came out at the wrong place.
---
 export.go     | 54 ++++++++-------------------------------------------
 table_loca.go | 37 +++++++++++++++++++++++++++++++++++
 2 files changed, 45 insertions(+), 46 deletions(-)

diff --git a/export.go b/export.go
index 8cbd7c3..f414d0d 100644
--- a/export.go
+++ b/export.go
@@ -196,7 +196,6 @@ func (f *Font) SubsetKeepIndices(indices []GlyphIndex) (*Font, error) {
 	}
 
 	if f.font.glyf != nil && f.font.loca != nil {
-		newfnt.loca = &locaTable{}
 		newfnt.glyf = &glyfTable{}
 
 		// Empty glyf contents for non-included glyphs. The descriptions of `f` are left alone.
@@ -208,28 +207,10 @@ func (f *Font) SubsetKeepIndices(indices []GlyphIndex) (*Font, error) {
 		}
 
 		// Update loca offsets.
-		isShort := f.font.head.indexToLocFormat == 0
-		if isShort {
-			newfnt.loca.offsetsShort = make([]offset16, len(newfnt.glyf.descs)+1)
-		} else {
-			newfnt.loca.offsetsLong = make([]offset32, len(newfnt.glyf.descs)+1)
-		}
-		for i, desc := range newfnt.glyf.descs {
-			if isShort {
-				next := int(newfnt.loca.offsetsShort[i]) + len(desc.raw)/2
-				if next > math.MaxUint16 {
-					logrus.Debug("Glyph data does not fit the short loca format")
-					return nil, errRangeCheck
-				}
-				newfnt.loca.offsetsShort[i+1] = offset16(next)
-			} else {
-				next := int(newfnt.loca.offsetsLong[i]) + len(desc.raw)
-				if next > math.MaxUint32 {
-					logrus.Debug("Glyph data does not fit the long loca format")
-					return nil, errRangeCheck
-				}
-				newfnt.loca.offsetsLong[i+1] = offset32(next)
-			}
+		var err error
+		newfnt.loca, err = makeLoca(newfnt.glyf.descs, f.font.head.indexToLocFormat == 0)
+		if err != nil {
+			return nil, err
 		}
 	}
 
@@ -342,33 +323,14 @@ func (f *Font) SubsetFirst(numGlyphs int) (*Font, error) {
 	}
 
 	if f.font.glyf != nil && f.font.loca != nil {
-		newfnt.loca = &locaTable{}
 		newfnt.glyf = &glyfTable{
 			descs: f.font.glyf.descs[0:numGlyphs],
 		}
 		// Update loca offsets.
-		isShort := f.font.head.indexToLocFormat == 0
-		if isShort {
-			newfnt.loca.offsetsShort = make([]offset16, numGlyphs+1)
-		} else {
-			newfnt.loca.offsetsLong = make([]offset32, numGlyphs+1)
-		}
-		for i, desc := range newfnt.glyf.descs {
-			if isShort {
-				next := int(newfnt.loca.offsetsShort[i]) + len(desc.raw)/2
-				if next > math.MaxUint16 {
-					logrus.Debug("Glyph data does not fit the short loca format")
-					return nil, errRangeCheck
-				}
-				newfnt.loca.offsetsShort[i+1] = offset16(next)
-			} else {
-				next := int(newfnt.loca.offsetsLong[i]) + len(desc.raw)
-				if next > math.MaxUint32 {
-					logrus.Debug("Glyph data does not fit the long loca format")
-					return nil, errRangeCheck
-				}
-				newfnt.loca.offsetsLong[i+1] = offset32(next)
-			}
+		var err error
+		newfnt.loca, err = makeLoca(newfnt.glyf.descs, f.font.head.indexToLocFormat == 0)
+		if err != nil {
+			return nil, err
 		}
 	}
 
diff --git a/table_loca.go b/table_loca.go
index 9940b6b..e47f724 100644
--- a/table_loca.go
+++ b/table_loca.go
@@ -7,6 +7,7 @@ package unitype
 
 import (
 	"errors"
+	"math"
 
 	"github.com/sirupsen/logrus"
 )
@@ -97,6 +98,34 @@ func (f *font) parseLoca(r *byteReader) (*locaTable, error) {
 	return loca, nil
 }
 
+// makeLoca returns the locations of the glyph descriptions `descs` when written back to back.
+func makeLoca(descs []*glyphDescription, isShort bool) (*locaTable, error) {
+	loca := &locaTable{}
+	if isShort {
+		loca.offsetsShort = make([]offset16, len(descs)+1)
+	} else {
+		loca.offsetsLong = make([]offset32, len(descs)+1)
+	}
+	for i, desc := range descs {
+		if isShort {
+			next := int(loca.offsetsShort[i]) + len(desc.raw)/2
+			if next > math.MaxUint16 {
+				logrus.Debug("Glyph data does not fit the short loca format")
+				return nil, errRangeCheck
+			}
+			loca.offsetsShort[i+1] = offset16(next)
+		} else {
+			next := int(loca.offsetsLong[i]) + len(desc.raw)
+			if next > math.MaxUint32 {
+				logrus.Debug("Glyph data does not fit the long loca format")
+				return nil, errRangeCheck
+			}
+			loca.offsetsLong[i+1] = offset32(next)
+		}
+	}
+	return loca, nil
+}
+
 func (f *font) writeLoca(w *byteWriter) error {
 	if f.loca == nil || f.head == nil || f.maxp == nil {
 		return errRequiredField
@@ -105,6 +134,14 @@ func (f *font) writeLoca(w *byteWriter) error {
 	isShort := f.head.indexToLocFormat == 0
 
 	t := f.loca
+	if f.glyf != nil {
+		// The glyph data is written back to back. The parsed locations can have gaps or shared data.
+		var err error
+		t, err = makeLoca(f.glyf.descs, isShort)
+		if err != nil {
+			return err
+		}
+	}
 	if isShort {
 		if numGlyphs+1 != len(t.offsetsShort) {
 			logrus.Debug("Unexpected length")
-- 
2.43.0


From 5b3eb71ff8e2e2d9124bf78d08df79c9c76148c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:53 +0000
Subject: [PATCH 28/40] fix: a subset of a font without glyf keeps the required
 loca table

Without it the written subset could not be parsed.
---
 export.go | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/export.go b/export.go
index f414d0d..37694f8 100644
--- a/export.go
+++ b/export.go
@@ -212,6 +212,9 @@ func (f *Font) SubsetKeepIndices(indices []GlyphIndex) (*Font, error) {
 		if err != nil {
 			return nil, err
 		}
+	} else if f.font.loca != nil {
+		newfnt.loca = &locaTable{}
+		*newfnt.loca = *f.font.loca
 	}
 
 	if f.font.prep != nil {
@@ -332,6 +335,13 @@ func (f *Font) SubsetFirst(numGlyphs int) (*Font, error) {
 		if err != nil {
 			return nil, err
 		}
+	} else if f.font.loca != nil {
+		newfnt.loca = &locaTable{}
+		if f.font.head.indexToLocFormat == 0 {
+			newfnt.loca.offsetsShort = f.font.loca.offsetsShort[0 : numGlyphs+1]
+		} else {
+			newfnt.loca.offsetsLong = f.font.loca.offsetsLong[0 : numGlyphs+1]
+		}
 	}
 
 	if f.font.prep != nil {
-- 
2.43.0


From 29ecc66b254cfc9d139ef66f68db5f782fd11072 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:54 +0000
Subject: [PATCH 29/40] fix: cmap subtables of a subset that are too long are
 an error

The length and segment count were truncated. A subset without any mapped
character lacked the final segment that format 4 requires.
---
 export.go | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/export.go b/export.go
index 37694f8..053107f 100644
--- a/export.go
+++ b/export.go
@@ -444,7 +444,7 @@ func (f *Font) SubsetFirst(numGlyphs int) (*Font, error) {
 					i = j
 				}
 
-				if segments > 0 && newt.endCode[segments-1] < 65535 {
+				if segments == 0 || newt.endCode[segments-1] < 65535 {
 					newt.endCode = append(newt.endCode, 65535)
 					newt.startCode = append(newt.startCode, 65535)
 					newt.idDelta = append(newt.idDelta, 1)
@@ -452,7 +452,12 @@ func (f *Font) SubsetFirst(numGlyphs int) (*Font, error) {
 					segments++
 				}
 
-				newt.length = uint16(2*8 + 2*4*segments)
+				length := 2*8 + 2*4*segments
+				if length > math.MaxUint16 {
+					logrus.Debugf("cmap format 4 subtable too long (%d)", length)
+					return nil, errRangeCheck
+				}
+				newt.length = uint16(length)
 				newt.language = t.language
 				newt.segCountX2 = uint16(segments * 2)
 				newt.searchRange = 2 * uint16(math.Pow(2, math.Floor(math.Log2(float64(segments)))))
@@ -506,7 +511,12 @@ func (f *Font) SubsetFirst(numGlyphs int) (*Font, error) {
 					i = j
 				}
 
-				newt.length = uint32(2*2 + 3*4 + groups*3*4)
+				length := 2*2 + 3*4 + groups*3*4
+				if length > math.MaxUint32 {
+					logrus.Debugf("cmap format 12 subtable too long (%d)", length)
+					return nil, errRangeCheck
+				}
+				newt.length = uint32(length)
 				newt.language = t.language
 				newt.numGroups = uint32(groups)
 				subt.ctx = newt
-- 
2.43.0


From 779d519405bb2a0b99d566ffa7a0319e55766873 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:56 +0000
Subject: [PATCH 30/40] fix: decoding UTF-16 does not write to the memory after
 its input

Padding an odd number of bytes could overwrite a byte of the caller.
---
 internal/strutils/encoding.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internal/strutils/encoding.go b/internal/strutils/encoding.go
index ec350af..587dc95 100644
--- a/internal/strutils/encoding.go
+++ b/internal/strutils/encoding.go
@@ -28,7 +28,7 @@ func UTF16ToRunes(b []byte) []rune {
 		return []rune{rune(b[0])}
 	}
 	if len(b)%2 != 0 {
-		b = append(b, 0)
+		b = append(b[:len(b):len(b)], 0)
 		logrus.Debug("ERROR: UTF16ToRunes. Padding with zeros.")
 	}
 	n := len(b) >> 1
-- 
2.43.0


From be31e2641a9fb40502ce76ccfdd45529647809d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:58 +0000
Subject: [PATCH 31/40] fix: decode names of the Unicode platform as UTF-16BE

They were decoded as UTF-8.
---
 table_name.go | 15 ++-------------
 1 file changed, 2 insertions(+), 13 deletions(-)

diff --git a/table_name.go b/table_name.go
index ab87049..d9697ca 100644
--- a/table_name.go
+++ b/table_name.go
@@ -10,7 +10,6 @@ import (
 	"math"
 	"strconv"
 	"unicode"
-	"unicode/utf8"
 
 	"github.com/sirupsen/logrus"
 
@@ -115,18 +114,8 @@ func makePrintable(str string) string {
 func (nr nameRecord) Decoded() string {
 	switch nr.platformID {
 	case 0: // unicode
-		// TODO(gunnsth): Untested as have not encountered this yet.
-		dup := make([]byte, len(nr.data))
-		copy(dup, nr.data)
-		var decoded bytes.Buffer
-
-		for len(dup) > 0 {
-			r, size := utf8.DecodeRune(dup)
-			dup = dup[size:]
-			decoded.WriteRune(r)
-		}
-
-		return makePrintable(decoded.String())
+		// Strings for the Unicode platform are encoded in UTF-16BE.
+		return makePrintable(strutils.UTF16ToString(nr.data))
 	case 1: // macintosh
 		var decoded bytes.Buffer
 		for _, val := range nr.data {
-- 
2.43.0


From d25964923bd550a2afa904a26e3864bae904bf11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:25:13 +0000
Subject: [PATCH 32/40] fix: table offsets and lengths beyond 4 GiB are an
 error

They were truncated in the table records.
---
 font.go         | 65 +++++++++++++++++++++++++++++++++++++++----------
 table_record.go |  9 ++++++-
 2 files changed, 60 insertions(+), 14 deletions(-)

diff --git a/font.go b/font.go
index 9c19dd2..345f279 100644
--- a/font.go
+++ b/font.go
@@ -247,7 +247,10 @@ func (f *font) write(w *byteWriter) error {
 			return err
 		}
 		headChecksum = bufw.checksum()
-		trec.Set("head", offset, bufw.bufferedLen(), headChecksum)
+		err = trec.Set("head", offset, bufw.bufferedLen(), headChecksum)
+		if err != nil {
+			return err
+		}
 		err = bufw.flush()
 		if err != nil {
 			return err
@@ -259,7 +262,10 @@ func (f *font) write(w *byteWriter) error {
 		if err != nil {
 			return err
 		}
-		trec.Set("maxp", offset, bufw.bufferedLen(), bufw.checksum())
+		err = trec.Set("maxp", offset, bufw.bufferedLen(), bufw.checksum())
+		if err != nil {
+			return err
+		}
 		err = bufw.flush()
 		if err != nil {
 			return err
@@ -272,7 +278,10 @@ func (f *font) write(w *byteWriter) error {
 			if err != nil {
 				return err
 			}
-			trec.Set("hhea", offset, bufw.bufferedLen(), bufw.checksum())
+			err = trec.Set("hhea", offset, bufw.bufferedLen(), bufw.checksum())
+			if err != nil {
+				return err
+			}
 			err = bufw.flush()
 			if err != nil {
 				return err
@@ -286,7 +295,10 @@ func (f *font) write(w *byteWriter) error {
 			if err != nil {
 				return err
 			}
-			trec.Set("hmtx", offset, bufw.bufferedLen(), bufw.checksum())
+			err = trec.Set("hmtx", offset, bufw.bufferedLen(), bufw.checksum())
+			if err != nil {
+				return err
+			}
 			err = bufw.flush()
 			if err != nil {
 				return err
@@ -300,7 +312,10 @@ func (f *font) write(w *byteWriter) error {
 			if err != nil {
 				return err
 			}
-			trec.Set("loca", offset, bufw.bufferedLen(), bufw.checksum())
+			err = trec.Set("loca", offset, bufw.bufferedLen(), bufw.checksum())
+			if err != nil {
+				return err
+			}
 			err = bufw.flush()
 			if err != nil {
 				return err
@@ -314,7 +329,10 @@ func (f *font) write(w *byteWriter) error {
 			if err != nil {
 				return err
 			}
-			trec.Set("glyf", offset, bufw.bufferedLen(), bufw.checksum())
+			err = trec.Set("glyf", offset, bufw.bufferedLen(), bufw.checksum())
+			if err != nil {
+				return err
+			}
 			err = bufw.flush()
 			if err != nil {
 				return err
@@ -328,7 +346,10 @@ func (f *font) write(w *byteWriter) error {
 			if err != nil {
 				return err
 			}
-			trec.Set("prep", offset, bufw.bufferedLen(), bufw.checksum())
+			err = trec.Set("prep", offset, bufw.bufferedLen(), bufw.checksum())
+			if err != nil {
+				return err
+			}
 			err = bufw.flush()
 			if err != nil {
 				return err
@@ -342,7 +363,10 @@ func (f *font) write(w *byteWriter) error {
 			if err != nil {
 				return err
 			}
-			trec.Set("cvt", offset, bufw.bufferedLen(), bufw.checksum())
+			err = trec.Set("cvt", offset, bufw.bufferedLen(), bufw.checksum())
+			if err != nil {
+				return err
+			}
 			err = bufw.flush()
 			if err != nil {
 				return err
@@ -356,7 +380,10 @@ func (f *font) write(w *byteWriter) error {
 			if err != nil {
 				return err
 			}
-			trec.Set("fpgm", offset, bufw.bufferedLen(), bufw.checksum())
+			err = trec.Set("fpgm", offset, bufw.bufferedLen(), bufw.checksum())
+			if err != nil {
+				return err
+			}
 			err = bufw.flush()
 			if err != nil {
 				return err
@@ -370,7 +397,10 @@ func (f *font) write(w *byteWriter) error {
 			if err != nil {
 				return err
 			}
-			trec.Set("name", offset, bufw.bufferedLen(), bufw.checksum())
+			err = trec.Set("name", offset, bufw.bufferedLen(), bufw.checksum())
+			if err != nil {
+				return err
+			}
 			err = bufw.flush()
 			if err != nil {
 				return err
@@ -384,7 +414,10 @@ func (f *font) write(w *byteWriter) error {
 			if err != nil {
 				return err
 			}
-			trec.Set("OS/2", offset, bufw.bufferedLen(), bufw.checksum())
+			err = trec.Set("OS/2", offset, bufw.bufferedLen(), bufw.checksum())
+			if err != nil {
+				return err
+			}
 			err = bufw.flush()
 			if err != nil {
 				return err
@@ -398,7 +431,10 @@ func (f *font) write(w *byteWriter) error {
 			if err != nil {
 				return err
 			}
-			trec.Set("post", offset, bufw.bufferedLen(), bufw.checksum())
+			err = trec.Set("post", offset, bufw.bufferedLen(), bufw.checksum())
+			if err != nil {
+				return err
+			}
 			err = bufw.flush()
 			if err != nil {
 				return err
@@ -412,7 +448,10 @@ func (f *font) write(w *byteWriter) error {
 			if err != nil {
 				return err
 			}
-			trec.Set("cmap", offset, bufw.bufferedLen(), bufw.checksum())
+			err = trec.Set("cmap", offset, bufw.bufferedLen(), bufw.checksum())
+			if err != nil {
+				return err
+			}
 			err = bufw.flush()
 			if err != nil {
 				return err
diff --git a/table_record.go b/table_record.go
index 770b83c..237440b 100644
--- a/table_record.go
+++ b/table_record.go
@@ -8,6 +8,7 @@ package unitype
 import (
 	"bytes"
 	"fmt"
+	"math"
 	"strings"
 
 	"github.com/sirupsen/logrus"
@@ -37,7 +38,12 @@ type tableRecords struct {
 	trMap map[string]*tableRecord
 }
 
-func (trs *tableRecords) Set(table string, offset int64, length int, checksum uint32) {
+// Set sets the record of `table`. An offset or length that does not fit the record is an error.
+func (trs *tableRecords) Set(table string, offset int64, length int, checksum uint32) error {
+	if offset < 0 || offset > math.MaxUint32 || length < 0 || length > math.MaxUint32 {
+		logrus.Debugf("Table %s does not fit (offset: %d, length: %d)", table, offset, length)
+		return errRangeCheck
+	}
 	if trs.trMap == nil {
 		trs.trMap = map[string]*tableRecord{}
 	}
@@ -59,6 +65,7 @@ func (trs *tableRecords) Set(table string, offset int64, length int, checksum ui
 		trs.list = append(trs.list, newRec)
 	}
 	trs.trMap[table] = newRec
+	return nil
 }
 
 func (f *font) parseTableRecords(r *byteReader) (*tableRecords, error) {
-- 
2.43.0


From 9f20559cae808a9da227d52840eba9ec4e5c0107 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:25:43 +0000
Subject: [PATCH 33/40] fix: a failure to determine the read position is an
 error

The failed seek was ignored and an offset of 0 used instead.
---
 byte_reader.go |  9 ++++++---
 table_glyf.go  |  8 ++++++--
 table_post.go  | 13 ++++++++++---
 validate.go    |  1 -
 4 files changed, 22 insertions(+), 9 deletions(-)

diff --git a/byte_reader.go b/byte_reader.go
index dbdeebc..1390db9 100644
--- a/byte_reader.go
+++ b/byte_reader.go
@@ -30,10 +30,13 @@ func newByteReader(rs io.ReadSeeker) *byteReader {
 }
 
 // Offset returns current offset position of `r`.
-func (r byteReader) Offset() int64 {
-	offset, _ := r.rs.Seek(0, io.SeekCurrent)
+func (r byteReader) Offset() (int64, error) {
+	offset, err := r.rs.Seek(0, io.SeekCurrent)
+	if err != nil {
+		return 0, err
+	}
 	offset -= int64(r.reader.Buffered())
-	return offset
+	return offset, nil
 }
 
 // SeekTo seeks to offset.
diff --git a/table_glyf.go b/table_glyf.go
index 6c44d9d..817c991 100644
--- a/table_glyf.go
+++ b/table_glyf.go
@@ -186,12 +186,16 @@ func (gd *glyphDescription) parseComposite(r *byteReader) error {
 	}
 
 	if instructionsFollow {
-		instructionLen := int64(len(gd.raw)) - r.Offset()
+		offset, err := r.Offset()
+		if err != nil {
+			return err
+		}
+		instructionLen := int64(len(gd.raw)) - offset
 		if instructionLen <= 0 {
 			logrus.Debug("Read more than length in loca table showed")
 			return errors.New("no room for instructions")
 		}
-		err := r.readSlice(&composite.instructions, int(instructionLen))
+		err = r.readSlice(&composite.instructions, int(instructionLen))
 		if err != nil {
 			logrus.Debug("Failed to read instructions")
 			return err
diff --git a/table_post.go b/table_post.go
index d37c9c9..eba9973 100644
--- a/table_post.go
+++ b/table_post.go
@@ -69,7 +69,10 @@ func (f *font) parsePost(r *byteReader) (*postTable, error) {
 		return nil, nil
 	}
 
-	start := r.Offset()
+	start, err := r.Offset()
+	if err != nil {
+		return nil, err
+	}
 
 	t := &postTable{}
 	err = r.read(&t.version, &t.italicAngle, &t.underlinePosition, &t.underlineThickness, &t.isFixedPitch)
@@ -118,9 +121,13 @@ func (f *font) parsePost(r *byteReader) (*postTable, error) {
 		logrus.Tracef("newGlyphs: %d", newGlyphs)
 		var names []string
 		for i := 0; i < newGlyphs; i++ {
-			if r.Offset()-start >= int64(tr.length) {
+			offset, err := r.Offset()
+			if err != nil {
+				return nil, err
+			}
+			if offset-start >= int64(tr.length) {
 				logrus.Debug("ERROR: Reading outside post table")
-				logrus.Debugf("%d > %d", r.Offset()-start, tr.length)
+				logrus.Debugf("%d > %d", offset-start, tr.length)
 				return nil, errors.New("reading outside table")
 			}
 			var numChars uint8
diff --git a/validate.go b/validate.go
index 6febe15..fbb6195 100644
--- a/validate.go
+++ b/validate.go
@@ -90,7 +90,6 @@ func (f *font) validate(r *byteReader) error {
 		if err != nil {
 			return err
 		}
-		logrus.Debugf("Offset: %d", r.Offset())
 
 		var b []byte
 		err = r.readBytes(&b, int(tr.length))
-- 
2.43.0


From 5c6c6927d7d3ab6ef12244ac0dff60633b36867d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:34:22 +0000
Subject: [PATCH 34/40] fix: reject post glyph names that extend beyond the
 table

The version 2.0 names are read as long as their length byte lies in the
table; the last one could take its characters from the next table.
---
 table_post.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/table_post.go b/table_post.go
index eba9973..c831fb4 100644
--- a/table_post.go
+++ b/table_post.go
@@ -138,6 +138,10 @@ func (f *font) parsePost(r *byteReader) (*postTable, error) {
 			if numChars == 0 {
 				break
 			}
+			if offset-start+1+int64(numChars) > int64(tr.length) {
+				logrus.Debug("ERROR: Glyph name extends outside post table")
+				return nil, errors.New("reading outside table")
+			}
 
 			var name []byte
 			err = r.readBytes(&name, int(numChars))
-- 
2.43.0


From 7ed86237f5c4f05893f93d6b85f42a178eadf197 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:15:57 +0000
Subject: [PATCH 35/40] fix: decode full-repertoire Unicode character maps as
 UCS-4

---
 encoding.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/encoding.go b/encoding.go
index 3f90ae7..1da6a4c 100644
--- a/encoding.go
+++ b/encoding.go
@@ -77,6 +77,10 @@ const (
 func getCmapEncoding(platformID, encodingID int) cmapEncoding {
 	switch platformID {
 	case platformIDUnicode:
+		switch encodingID {
+		case 4, 6: // Unicode full repertoire.
+			return cmapEncodingUCS4
+		}
 		return cmapEncodingUCS2
 	case platformIDMacintosh:
 		return cmapEncodingMacRoman
-- 
2.43.0


From 038a92252181a06a16bf7dd4bfdbf0da19b62f09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:50:29 +0000
Subject: [PATCH 36/40] fix: write the search fields of the font header for the
 tables that are written

---
 font.go         |  8 +++-----
 table_offset.go | 11 +++++++++++
 2 files changed, 14 insertions(+), 5 deletions(-)

diff --git a/font.go b/font.go
index 345f279..15d0af7 100644
--- a/font.go
+++ b/font.go
@@ -208,12 +208,10 @@ func (f *font) write(w *byteWriter) error {
 	logrus.Debug("Writing font")
 	numTables := f.numTablesToWrite()
 	otTable := &offsetTable{
-		sfntVersion:   f.ot.sfntVersion,
-		numTables:     uint16(numTables),
-		searchRange:   f.ot.searchRange,
-		entrySelector: f.ot.entrySelector,
-		rangeShift:    f.ot.rangeShift,
+		sfntVersion: f.ot.sfntVersion,
+		numTables:   uint16(numTables),
 	}
+	otTable.setSearchFields()
 	trec := &tableRecords{}
 
 	// Starting offset after offset table and table records.
diff --git a/table_offset.go b/table_offset.go
index 2bd0fae..d242042 100644
--- a/table_offset.go
+++ b/table_offset.go
@@ -18,6 +18,17 @@ func (t *offsetTable) Size() int64 {
 	return 4 + 4*2 // 4+8=12
 }
 
+// setSearchFields sets the fields for the binary search of table records by the number of tables.
+func (t *offsetTable) setSearchFields() {
+	t.entrySelector = 0
+	t.searchRange = 16
+	for n := t.numTables; n > 1; n /= 2 {
+		t.entrySelector++
+		t.searchRange *= 2
+	}
+	t.rangeShift = t.numTables*16 - t.searchRange
+}
+
 func (f *font) parseOffsetTable(r *byteReader) (*offsetTable, error) {
 	ot := &offsetTable{}
 
-- 
2.43.0


From 1e1d4cde3b035daf68fb2ca4a41950e25069a725 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:19:14 +0000
Subject: [PATCH 37/40] fix: sort the table records of a written font by tag

---
 font.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/font.go b/font.go
index 15d0af7..5a74668 100644
--- a/font.go
+++ b/font.go
@@ -10,6 +10,7 @@ import (
 	"encoding/binary"
 	"fmt"
 	"io"
+	"sort"
 
 	"github.com/sirupsen/logrus"
 )
@@ -468,6 +469,11 @@ func (f *font) write(w *byteWriter) error {
 			trec: trec,
 		}
 
+		// The records are sorted by tag in the file.
+		sort.Slice(trec.list, func(i, j int) bool {
+			return trec.list[i].tableTag.String() < trec.list[j].tableTag.String()
+		})
+
 		err := mockf.writeOffsetTable(bufw)
 		if err != nil {
 			return err
-- 
2.43.0


From 0e41560ba5bb549a91c75255fd4eb238a53589af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:06:42 +0000
Subject: [PATCH 38/40] fix: character maps that differ in language only
 overwrote each other

---
 table_cmap.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/table_cmap.go b/table_cmap.go
index 1138765..78a6f60 100644
--- a/table_cmap.go
+++ b/table_cmap.go
@@ -68,7 +68,7 @@ func (f *font) parseCmap(r *byteReader) (*cmapTable, error) {
 	}
 
 	// Process the encoding subtables.
-	for _, enc := range t.encodingRecords {
+	for i, enc := range t.encodingRecords {
 		// Seek to the subtable.
 		err = r.SeekTo(int64(tr.offset) + int64(enc.offset))
 		if err != nil {
@@ -103,6 +103,10 @@ func (f *font) parseCmap(r *byteReader) (*cmapTable, error) {
 		}
 		if cmap != nil {
 			key := fmt.Sprintf("%d,%d,%d", format, enc.platformID, enc.encodingID)
+			if _, has := t.subtables[key]; has {
+				// Another subtable of the same kind (for another language).
+				key = fmt.Sprintf("%s,%d", key, i)
+			}
 			t.subtables[key] = cmap
 			t.subtableKeys = append(t.subtableKeys, key)
 			logrus.Debugf("KEY: %s <-> %T", key, cmap.ctx)
-- 
2.43.0


From c72808cb6f482269576412f38bc0da988c5cfa18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:23:47 +0000
Subject: [PATCH 39/40] fix: info lists every rune that maps to a glyph once

The character map was listed by glyph: for a glyph that several runes map to, one rune
picked by the iteration order of a map was listed as many times as there are runes.
---
 truecli/cmd/info.go | 26 ++++++++++++--------------
 1 file changed, 12 insertions(+), 14 deletions(-)

diff --git a/truecli/cmd/info.go b/truecli/cmd/info.go
index 4992ba4..76e4813 100644
--- a/truecli/cmd/info.go
+++ b/truecli/cmd/info.go
@@ -94,22 +94,20 @@ var infoCmd = &cobra.Command{
 			mapNames = append(mapNames, "3,1")
 
 			for i := range maps {
-				var gids []unitype.GlyphIndex
-				gidMap := map[unitype.GlyphIndex]rune{}
-				for rune, gid := range maps[i] {
-					gidMap[gid] = rune
-					gids = append(gids, gid)
+				var runes []rune
+				for r := range maps[i] {
+					runes = append(runes, r)
 				}
-				sort.Slice(gids, func(i, j int) bool {
-					return gids[i] < gids[j]
+				// By glyph, then by rune, as several runes can have the same glyph.
+				sort.Slice(runes, func(a, b int) bool {
+					gidA, gidB := maps[i][runes[a]], maps[i][runes[b]]
+					if gidA != gidB {
+						return gidA < gidB
+					}
+					return runes[a] < runes[b]
 				})
-				cnt := 0
-				for _, gid := range gids {
-					//if cnt > 100 {
-					//	break
-					//	}
-					fmt.Printf("%d/%s: %d - %c\n", i, mapNames[i], gid, gidMap[gid])
-					cnt++
+				for _, r := range runes {
+					fmt.Printf("%d/%s: %d - %c\n", i, mapNames[i], maps[i][r], r)
 				}
 			}
 		}
-- 
2.43.0


From c07c12bbc579867d8f22d9cc950bfc58e8e7faa2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:23:48 +0000
Subject: [PATCH 40/40] fix: TableInfo of the name table shows the records, not
 their addresses

---
 font.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/font.go b/font.go
index 5a74668..487c88e 100644
--- a/font.go
+++ b/font.go
@@ -589,7 +589,10 @@ func (f *font) TableInfo(table string) string {
 			break
 		}
 		b.WriteString(fmt.Sprintf("name table\n"))
-		b.WriteString(fmt.Sprintf("%#v\n", f.name))
+		b.WriteString(fmt.Sprintf("format: %d, records: %d\n", f.name.format, len(f.name.nameRecords)))
+		for _, nr := range f.name.nameRecords {
+			b.WriteString(fmt.Sprintf("%#v\n", nr))
+		}
 	case "glyf":
 		if f.glyf == nil {
 			b.WriteString("glyf: missing\n")
-- 
2.43.0

