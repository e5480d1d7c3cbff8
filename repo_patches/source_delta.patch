From 707fa40f4f82b6190ca2185a1d0acb16d7aba290 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:10:07 +0000
Subject: [PATCH 001/139] fix: FSI must only look for a strong character up to
 its matching PDI

The search stopped on the wrong counter (validIsolateCount, which is never
negative), so that characters after the isolate could decide its direction.
---
 fribidi/bidi.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/fribidi/bidi.go b/fribidi/bidi.go
index a0f605f..89d11f8 100644
--- a/fribidi/bidi.go
+++ b/fribidi/bidi.go
@@ -359,7 +359,7 @@ func GetParEmbeddingLevels(bidiTypes []CharType, bracketTypes []BracketType,
 				for fsiPp := pp.next; fsiPp.type_ != maskSentinel; fsiPp = fsiPp.next {
 					if fsiPp.type_ == PDI {
 						isolateCount--
-						if validIsolateCount < 0 {
+						if isolateCount < 0 {
 							break
 						}
 					} else if fsiPp.type_.IsIsolate() {
-- 
2.43.0


From 8c33bb4aeed9ffe6af5cfe63d3279c54c737b371 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:10:50 +0000
Subject: [PATCH 002/139] fix: apply the directional override status to PDI
 (X6a)

---
 fribidi/bidi.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/fribidi/bidi.go b/fribidi/bidi.go
index 89d11f8..903ce5c 100644
--- a/fribidi/bidi.go
+++ b/fribidi/bidi.go
@@ -341,6 +341,10 @@ func GetParEmbeddingLevels(bidiTypes []CharType, bracketTypes []BracketType,
 					pp.level = level
 				}
 			}
+			/* the directional override status also applies to the PDI */
+			if !override.isNeutral() {
+				pp.type_ = override
+			}
 		} else if thisType.IsIsolate() {
 			/* TBD support RL_LEN > 1 */
 			newOverride = ON
-- 
2.43.0


From 17cdd63a7a3fd7a1e1481886f7c7955ab6eb7e13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:11:31 +0000
Subject: [PATCH 003/139] fix: never merge a bracket with its neighbours when
 resolving NSM (W1)

---
 fribidi/bidi.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/fribidi/bidi.go b/fribidi/bidi.go
index 903ce5c..4af130c 100644
--- a/fribidi/bidi.go
+++ b/fribidi/bidi.go
@@ -524,7 +524,8 @@ func GetParEmbeddingLevels(bidiTypes []CharType, bracketTypes []BracketType,
 			}
 
 			if prevType == nextType && pp.level == pp.next.level {
-				if pppNext == pp.next {
+				/* Don't join brackets! */
+				if pppNext == pp.next && pp.bracketType == NoBracket && pppNext.bracketType == NoBracket {
 					pp = pp.next.mergeWithPrev()
 				}
 			}
-- 
2.43.0


From 37d98f31e9323673517d5e30282a85dc7f9db8eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:13:12 +0000
Subject: [PATCH 004/139] fix: bracket context must not leave the isolating run
 sequence (N0c)

---
 fribidi/bidi.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/fribidi/bidi.go b/fribidi/bidi.go
index 4af130c..a306709 100644
--- a/fribidi/bidi.go
+++ b/fribidi/bidi.go
@@ -748,7 +748,12 @@ func GetParEmbeddingLevels(bidiTypes []CharType, bracketTypes []BracketType,
 			/* Search for a preceding strong */
 			precStrongLevel := embeddingLevel /* TBDov! Extract from Isolate level in effect */
 			isoLevel := ppairs.open.isolateLevel
-			for ppn = ppairs.open.prev; ppn.type_ != maskSentinel; ppn = ppn.prev {
+			for ppn = ppairs.open.getAdjacentRun(false, false); ; ppn = ppn.getAdjacentRun(false, false) {
+				if ppn.level != embeddingLevel {
+					/* start of the isolating run sequence: use sos */
+					precStrongLevel = maxL(ppn.level, embeddingLevel)
+					break
+				}
 				thisType := ppn.typeAnEnAsRTL()
 				if thisType.IsStrong() && ppn.isolateLevel == isoLevel {
 					precStrongLevel = ppn.level + (ppn.level.isRtl() ^ dirToLevel(thisType))
-- 
2.43.0


From 8fa5d51ffa3126617b56e27d3b5b533fe4e9f706 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:16:18 +0000
Subject: [PATCH 005/139] fix: isolates and PDF beyond the depth limit of the
 bidi algorithm (X5a-X7)

An initiator met while some isolates or embeddings have overflowed must not be
considered as valid, must not start a new isolating run sequence, and PDF must be
ignored inside an overflowing isolate.
---
 fribidi/bidi.go | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/fribidi/bidi.go b/fribidi/bidi.go
index a306709..ea69537 100644
--- a/fribidi/bidi.go
+++ b/fribidi/bidi.go
@@ -303,7 +303,8 @@ func GetParEmbeddingLevels(bidiTypes []CharType, bracketTypes []BracketType,
 				/*   X7. With each PDF, determine the matching embedding or
 				     override code. */
 				for i := pp.len; i != 0; i-- {
-					if stackSize != 0 && statusStack[stackSize-1].isolate != 0 {
+					if isolateOverflow != 0 ||
+						(overPushed == 0 && stackSize != 0 && statusStack[stackSize-1].isolate != 0) {
 						break
 					}
 					statusStack.popStatus(vars, &isolate, &isolateLevel)
@@ -384,15 +385,14 @@ func GetParEmbeddingLevels(bidiTypes []CharType, bracketTypes []BracketType,
 
 			pp.level = level
 			pp.isolateLevel = isolateLevel
-			if isolateLevel < maxExplicitLevel-1 {
-				isolateLevel++
-			}
-
 			if !override.isNeutral() {
 				pp.type_ = override
 			}
 
-			if newLevel <= maxExplicitLevel {
+			if newLevel <= maxExplicitLevel && isolateOverflow == 0 && overPushed == 0 {
+				if isolateLevel < maxExplicitLevel-1 {
+					isolateLevel++
+				}
 				validIsolateCount++
 				statusStack.pushStatus(isolateOverflow, isolate, isolateLevel, newLevel, newOverride, vars)
 				level = newLevel
-- 
2.43.0


From d93c52423e212a13102943cc72ec1d6216ea3211 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:17:58 +0000
Subject: [PATCH 006/139] fix: only canonical equivalents of brackets may be
 paired (BD16)

Compatibility mappings (fullwidth, small, superscript forms) were followed too, so
that for instance U+FF08 was matched with an ASCII closing parenthesis.
---
 fribidi/brackets_table.go | 40 +++++++++++++++++++--------------------
 fribidi/unidata/gen.go    |  6 ++++--
 2 files changed, 24 insertions(+), 22 deletions(-)

diff --git a/fribidi/brackets_table.go b/fribidi/brackets_table.go
index f9d66d8..c76e841 100644
--- a/fribidi/brackets_table.go
+++ b/fribidi/brackets_table.go
@@ -17,10 +17,10 @@ var bracketsTable = map[rune]rune{
 	0x169c: 5787,
 	0x2045: 8261,
 	0x2046: 8261,
-	0x207d: 40,
-	0x207e: 40,
-	0x208d: 40,
-	0x208e: 40,
+	0x207d: 8317,
+	0x207e: 8317,
+	0x208d: 8333,
+	0x208e: 8333,
 	0x2308: 8968,
 	0x2309: 8968,
 	0x230a: 8970,
@@ -107,20 +107,20 @@ var bracketsTable = map[rune]rune{
 	0x3019: 12312,
 	0x301a: 12314,
 	0x301b: 12314,
-	0xfe59: 40,
-	0xfe5a: 40,
-	0xfe5b: 123,
-	0xfe5c: 123,
-	0xfe5d: 12308,
-	0xfe5e: 12308,
-	0xff08: 40,
-	0xff09: 40,
-	0xff3b: 91,
-	0xff3d: 91,
-	0xff5b: 123,
-	0xff5d: 123,
-	0xff5f: 10629,
-	0xff60: 10629,
-	0xff62: 12300,
-	0xff63: 12300,
+	0xfe59: 65113,
+	0xfe5a: 65113,
+	0xfe5b: 65115,
+	0xfe5c: 65115,
+	0xfe5d: 65117,
+	0xfe5e: 65117,
+	0xff08: 65288,
+	0xff09: 65288,
+	0xff3b: 65339,
+	0xff3d: 65339,
+	0xff5b: 65371,
+	0xff5d: 65371,
+	0xff5f: 65375,
+	0xff60: 65375,
+	0xff62: 65378,
+	0xff63: 65378,
 }
diff --git a/fribidi/unidata/gen.go b/fribidi/unidata/gen.go
index 17d7ac7..70905e1 100644
--- a/fribidi/unidata/gen.go
+++ b/fribidi/unidata/gen.go
@@ -91,8 +91,10 @@ func parseUnicodeData() error {
 			}
 		}
 
-		// equiv table
-		equivTable[c] = unshaped
+		// equiv table (canonical equivalences only)
+		if tag == "" {
+			equivTable[c] = unshaped
+		}
 	}
 	shapingTable.min, shapingTable.max = min, max
 
-- 
2.43.0


From a55b480229c9db97dc49b8255da36ebfcab9fa51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:05 +0000
Subject: [PATCH 007/139] fix: reset isolate formatting characters at the end
 of a line (L1)

---
 fribidi/bidi.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/fribidi/bidi.go b/fribidi/bidi.go
index ea69537..70713ae 100644
--- a/fribidi/bidi.go
+++ b/fribidi/bidi.go
@@ -995,8 +995,9 @@ func ReorderLine(
 	)
 
 	/* L1. Reset the embedding levels of some chars:
-	   4. any sequence of white space characters at the end of the line. */
-	for i := off + length - 1; i >= off && bidiTypes[i].isExplicitOrBnOrWs(); i-- {
+	   4. any sequence of white space characters and/or isolate formatting
+	      characters at the end of the line. */
+	for i := off + length - 1; i >= off && (bidiTypes[i].isExplicitOrBnOrWs() || bidiTypes[i].IsIsolate()); i-- {
 		embeddingLevels[i] = dirToLevel(baseDir)
 	}
 
-- 
2.43.0


From 4e23c7b5d043293d558d3d004e19c02892054a6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:05 +0000
Subject: [PATCH 008/139] fix: RemoveBidiMarks must ignore the tail of the map
 past the new length

---
 fribidi/fridibi.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/fribidi/fridibi.go b/fribidi/fridibi.go
index 7090d51..301ab85 100644
--- a/fribidi/fridibi.go
+++ b/fribidi/fridibi.go
@@ -511,7 +511,7 @@ func RemoveBidiMarks(str []rune, positionsToThis, positionFromThis []int, embedd
 		for i := range positionsToThis {
 			positionsToThis[i] = -1
 		}
-		for i, from := range positionFromThis {
+		for i, from := range positionFromThis[:j] {
 			positionsToThis[from] = i
 		}
 	}
-- 
2.43.0


From f6cfbcf71500f72eec901f5ab3d870995914c573 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:29:39 +0000
Subject: [PATCH 009/139] fix: AttrList.Change must replace, trim and merge all
 the attributes of the segment

---
 pango/attributes.go | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/pango/attributes.go b/pango/attributes.go
index 3ea81b2..612c012 100644
--- a/pango/attributes.go
+++ b/pango/attributes.go
@@ -831,7 +831,8 @@ func (list *AttrList) Change(attr *Attribute) {
 
 	if !inserted { // we didn't insert attr yet
 		list.Insert(attr)
-		return
+		for i = 0; (*list)[i] != attr; i++ {
+		}
 	}
 
 	/* We now have the range inserted into the list one way or the
@@ -855,6 +856,14 @@ func (list *AttrList) Change(attr *Attribute) {
 			i--
 			p--
 			continue
+		} else {
+			/* Trim the start of this attribute so that it begins at the end
+			 * of the new attribute. This may involve moving it in the list
+			 * to maintain the required non-decreasing order of start indices. */
+			tmp_attr.StartIndex = attr.EndIndex
+			for k := i + 1; k < len(*list) && (*list)[k].StartIndex < tmp_attr.StartIndex; k++ {
+				(*list)[k-1], (*list)[k] = (*list)[k], tmp_attr
+			}
 		}
 	}
 }
-- 
2.43.0


From 297ea042b8205aca55f54f4c80679a68fb6c52a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:35:31 +0000
Subject: [PATCH 010/139] fix: a font description without size must not reset
 the base size of markup

---
 pango/markup.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pango/markup.go b/pango/markup.go
index 4668c94..8b98747 100644
--- a/pango/markup.go
+++ b/pango/markup.go
@@ -1000,7 +1000,7 @@ func span_parse_func(tag *openTag, attrs []xml.Attr) error {
 	if desc != "" {
 		parsed := NewFontDescriptionFrom(desc)
 		tag.addAttribute(NewAttrFontDescription(parsed))
-		if tag != nil {
+		if tag != nil && parsed.mask&FmSize != 0 {
 			tag.setAbsoluteFontSize(parsed.Size)
 		}
 	}
-- 
2.43.0


From 615c936dc147d736f199693b31a58a2cb06ba199 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:35:43 +0000
Subject: [PATCH 011/139] fix: tags opened after an accelerator must be
 recorded when parsing markup

---
 pango/markup.go | 4 ----
 1 file changed, 4 deletions(-)

diff --git a/pango/markup.go b/pango/markup.go
index 8b98747..e07e075 100644
--- a/pango/markup.go
+++ b/pango/markup.go
@@ -51,10 +51,6 @@ type markupData struct {
 }
 
 func (md *markupData) openTag() *openTag {
-	if len(md.attr_list) != 0 {
-		return nil
-	}
-
 	var parent *openTag
 	if len(md.tag_stack) != 0 {
 		parent = md.tag_stack[0]
-- 
2.43.0


From 6f6acf44cd7352d6cd9d05709163ec62658dd322 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:36:00 +0000
Subject: [PATCH 012/139] fix: ParseMarkup must reject content after the
 implicit root tag

---
 pango/markup.go | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/pango/markup.go b/pango/markup.go
index e07e075..55afc34 100644
--- a/pango/markup.go
+++ b/pango/markup.go
@@ -1,8 +1,10 @@
 package pango
 
 import (
+	"bytes"
 	"encoding/xml"
 	"fmt"
+	"io"
 	"strconv"
 	"strings"
 )
@@ -501,11 +503,17 @@ func ParseMarkup(markupText []byte, accelMarker rune) (ParsedMarkup, error) {
 	nested := append(append([]byte("<markup>"), markupText...), "</markup>"...)
 
 	context := newParser(accelMarker)
-	err := xml.Unmarshal(nested, context)
+	dec := xml.NewDecoder(bytes.NewReader(nested))
+	err := dec.Decode(context)
 	if err != nil {
 		return ParsedMarkup{}, err
 	}
 
+	// the input must not close the implicit root tag
+	if _, err = dec.Token(); err != io.EOF {
+		return ParsedMarkup{}, fmt.Errorf("Unexpected content after the root tag, at offset %d", dec.InputOffset())
+	}
+
 	return markupParserFinish(context), nil
 }
 
-- 
2.43.0


From 424e59479480917cc10d8364783a54f64a8293e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:36:18 +0000
Subject: [PATCH 013/139] fix: the digits of a hexadecimal color may not be
 signed

---
 pango/color.go | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/pango/color.go b/pango/color.go
index 73c7ef0..eaabde4 100644
--- a/pango/color.go
+++ b/pango/color.go
@@ -43,21 +43,21 @@ func pango_color_parse_with_alpha(spec string, withAlpha bool) (AttrColor, uint1
 		}
 		spec = spec[1:]
 
-		r, err := strconv.ParseInt(spec[0:len], 16, 32)
+		r, err := strconv.ParseUint(spec[0:len], 16, 32)
 		if err != nil {
 			return AttrColor{}, 0, false
 		}
-		g, err := strconv.ParseInt(spec[len:2*len], 16, 32)
+		g, err := strconv.ParseUint(spec[len:2*len], 16, 32)
 		if err != nil {
 			return AttrColor{}, 0, false
 		}
-		b, err := strconv.ParseInt(spec[2*len:3*len], 16, 32)
+		b, err := strconv.ParseUint(spec[2*len:3*len], 16, 32)
 		if err != nil {
 			return AttrColor{}, 0, false
 		}
 
 		if has_alpha {
-			a, err := strconv.ParseInt(spec[3*len:4*len], 16, 32)
+			a, err := strconv.ParseUint(spec[3*len:4*len], 16, 32)
 			if err != nil {
 				return AttrColor{}, 0, false
 			}
-- 
2.43.0


From 0f57e699874e3b44649fffc4c48167b04b007444 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:36:36 +0000
Subject: [PATCH 014/139] fix: reject the alpha values of markup which are out
 of range

---
 pango/markup.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pango/markup.go b/pango/markup.go
index 55afc34..1d36aa9 100644
--- a/pango/markup.go
+++ b/pango/markup.go
@@ -675,11 +675,11 @@ func spanParseAlpha(attrName, attrVal string) (uint16, error) {
 			attrName, lineColNumber, attrVal)
 	}
 
-	if !hasPercent {
+	if !hasPercent && intVal > 0 && intVal <= 0xffff {
 		return uint16(intVal), nil
 	}
 
-	if intVal > 0 && intVal <= 100 {
+	if hasPercent && intVal > 0 && intVal <= 100 {
 		return uint16(intVal * 0xffff / 100), nil
 	}
 	return 0, fmt.Errorf("Value of '%s' attribute on <span> tag on line %d could not be parsed; should be between 0 and 65536 or a percentage, not '%s'",
-- 
2.43.0


From d4ab83d7dec8ea4ef55645b71fb8f667ae8d0033 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:36:36 +0000
Subject: [PATCH 015/139] fix: the font_scale attribute of markup must use its
 own value

---
 pango/markup.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pango/markup.go b/pango/markup.go
index 1d36aa9..ebe5091 100644
--- a/pango/markup.go
+++ b/pango/markup.go
@@ -1231,7 +1231,7 @@ func span_parse_func(tag *openTag, attrs []xml.Attr) error {
 	}
 
 	if fontScale != "" {
-		fs, err := spanParseEnum("font_scale", baselineShift, fontScaleMap)
+		fs, err := spanParseEnum("font_scale", fontScale, fontScaleMap)
 		if err != nil {
 			return err
 		}
-- 
2.43.0


From cdd6fd34c9cd77b317cd7deffec496f9528e490c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:36:36 +0000
Subject: [PATCH 016/139] fix: numeric font weights must be accepted

---
 pango/fonts.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pango/fonts.go b/pango/fonts.go
index f205fd4..56c848c 100644
--- a/pango/fonts.go
+++ b/pango/fonts.go
@@ -470,6 +470,10 @@ func pango_parse_variant(str string) (Variant, bool) {
 // and integers. Case variations are ignored.
 func pango_parse_weight(str string) (Weight, bool) {
 	i, b := weight_map.parse_field(str)
+	if !b { // try a numeric weight
+		v, err := strconv.ParseUint(str, 10, 31)
+		i, b = int(v), err == nil
+	}
 	return Weight(i), b
 }
 
-- 
2.43.0


From 0cfca29ab68ab17b19b97d836b2c64dae7df308e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:40:58 +0000
Subject: [PATCH 017/139] fix: a relative size must override the font
 description of the same span

---
 pango/markup.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pango/markup.go b/pango/markup.go
index ebe5091..bb5bcba 100644
--- a/pango/markup.go
+++ b/pango/markup.go
@@ -114,7 +114,8 @@ func (md *markupData) endElementHandler() {
 		a.StartIndex = ot.startIndex
 		a.EndIndex = md.index
 
-		md.to_apply.insertAt(0, a)
+		// a relative size overrides the font description of the same tag
+		md.to_apply.insertAt(L, a)
 	}
 }
 
-- 
2.43.0


From b6f2dff5ed8ef13dcd8fefa3b9006d1acca92c45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:45:10 +0000
Subject: [PATCH 018/139] fix: the text form of a font description must read
 back as the same description

---
 pango/fonts.go   | 57 +++++++++++++++++++++++++++++++++---------------
 pango/gravity.go | 16 ++++++++++----
 2 files changed, 51 insertions(+), 22 deletions(-)

diff --git a/pango/fonts.go b/pango/fonts.go
index 56c848c..d8b233a 100644
--- a/pango/fonts.go
+++ b/pango/fonts.go
@@ -3,6 +3,7 @@ package pango
 import (
 	"fmt"
 	"log"
+	"math"
 	"strconv"
 	"strings"
 	"unicode"
@@ -376,24 +377,12 @@ func NewFontDescriptionFrom(str string) FontDescription {
 
 	/* Look for a size */
 	if len(fields) != 0 {
-		word := fields[len(fields)-1]
-		var sizeIsAbsolute bool
-		if strings.HasSuffix(word, "px") {
-			sizeIsAbsolute = true
-			word = strings.TrimSuffix(word, "px")
-		}
-		size, err := strconv.ParseFloat(word, 64)
-		if err != nil {
-			// just ignore invalid floats: they maybe do not refers to a size
-		} else if size < 0 || size > 1000000 {
-			log.Println("invalid size value:", size)
-		} else { // word is a valid float
-			desc.Size = int32(size*Scale + 0.5)
+		if size, sizeIsAbsolute, ok := parseFontSize(fields[len(fields)-1]); ok {
+			desc.Size = size
 			desc.SizeIsAbsolute = sizeIsAbsolute
 			desc.mask |= FmSize
 			fields = fields[:len(fields)-1]
 		}
-
 	}
 
 	// Now parse style words
@@ -414,13 +403,31 @@ func NewFontDescriptionFrom(str string) FontDescription {
 		for i, f := range families {
 			families[i] = strings.TrimSpace(f)
 		}
-		desc.FamilyName = strings.Join(families, ",")
+		desc.FamilyName = strings.TrimRight(strings.Join(families, ","), ",")
 		desc.mask |= FmFamily
 	}
 
 	return desc
 }
 
+// parseFontSize parses a size in points, or in device units if it ends by "px"
+func parseFontSize(word string) (size int32, sizeIsAbsolute bool, ok bool) {
+	if strings.HasSuffix(word, "px") {
+		sizeIsAbsolute = true
+		word = strings.TrimSuffix(word, "px")
+	}
+	v, err := strconv.ParseFloat(word, 64)
+	if err != nil || math.IsNaN(v) {
+		// just ignore invalid floats: they maybe do not refers to a size
+		return 0, false, false
+	}
+	if v < 0 || v > 1000000 {
+		log.Println("invalid size value:", v)
+		return 0, false, false
+	}
+	return int32(v*Scale + 0.5), sizeIsAbsolute, true
+}
+
 func (desc *FontDescription) find_field_any(str string) bool {
 	if fieldMatches("Normal", str) {
 		return true
@@ -430,6 +437,12 @@ func (desc *FontDescription) find_field_any(str string) bool {
 		desc.SetWeight(Weight(v))
 		return true
 	}
+	if strings.HasPrefix(str, "weight=") { // weights without name
+		if v, err := strconv.ParseUint(str[len("weight="):], 10, 31); err == nil {
+			desc.SetWeight(Weight(v))
+			return true
+		}
+	}
 	if v, ok := StyleMap.FromString(str); ok {
 		desc.SetStyle(Style(v))
 		return true
@@ -442,7 +455,7 @@ func (desc *FontDescription) find_field_any(str string) bool {
 		desc.SetVariant(Variant(v))
 		return true
 	}
-	if v, ok := GravityMap.FromString(str); ok {
+	if v, ok := gravityWords.FromString(str); ok {
 		desc.SetGravity(Gravity(v))
 		return true
 	}
@@ -505,7 +518,15 @@ func (desc FontDescription) String() string {
 		* in a keyword like "Bold", or if the family name ends in
 		* a number and no keywords will be added.
 		 */
-		if desc.Weight == WEIGHT_NORMAL &&
+		var lastWord string
+		if words := strings.Fields(fam); len(words) != 0 {
+			lastWord = words[len(words)-1]
+		}
+		var tmp FontDescription
+		if tmp.find_field_any(lastWord) {
+			fam += ","
+		} else if _, _, isSize := parseFontSize(lastWord); isSize &&
+			desc.Weight == WEIGHT_NORMAL &&
 			desc.Style == STYLE_NORMAL &&
 			desc.Stretch == STRETCH_NORMAL &&
 			desc.Variant == VARIANT_NORMAL &&
@@ -529,7 +550,7 @@ func (desc FontDescription) String() string {
 	}
 	if desc.mask&FmGravity != 0 {
 		if s := GravityMap.ToString("gravity", int(desc.Gravity)); s != "" {
-			chunks = append(chunks)
+			chunks = append(chunks, s)
 		}
 	}
 
diff --git a/pango/gravity.go b/pango/gravity.go
index 799557b..c04e4b9 100644
--- a/pango/gravity.go
+++ b/pango/gravity.go
@@ -29,10 +29,18 @@ var GravityMap = enumMap{
 	{value: int(GRAVITY_NORTH), str: "north"},
 	{value: int(GRAVITY_WEST), str: "west"},
 	{value: int(GRAVITY_AUTO), str: "auto"},
-	// {value: int(GRAVITY_SOUTH), str: "Not-Rotated"},
-	// {value: int(GRAVITY_NORTH), str: "Upside-Down"},
-	// {value: int(GRAVITY_EAST), str: "Rotated-Left"},
-	// {value: int(GRAVITY_WEST), str: "Rotated-Right"},
+}
+
+// gravityWords are the gravity values understood in a font description
+var gravityWords = enumMap{
+	{value: int(GRAVITY_SOUTH), str: "Not-Rotated"},
+	{value: int(GRAVITY_SOUTH), str: "South"},
+	{value: int(GRAVITY_NORTH), str: "Upside-Down"},
+	{value: int(GRAVITY_NORTH), str: "North"},
+	{value: int(GRAVITY_EAST), str: "Rotated-Left"},
+	{value: int(GRAVITY_EAST), str: "East"},
+	{value: int(GRAVITY_WEST), str: "Rotated-Right"},
+	{value: int(GRAVITY_WEST), str: "West"},
 }
 
 // IsVertical returns whether `g` represents vertical writing directions.
-- 
2.43.0


From 8a1abad981220ccd0a311a48a00fdd13a654ce55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:51:28 +0000
Subject: [PATCH 019/139] fix: derived general categories must not change the
 text boundaries

---
 pango/break.go | 21 +++++++++++++++++++--
 1 file changed, 19 insertions(+), 2 deletions(-)

diff --git a/pango/break.go b/pango/break.go
index 2e6b18a..2628373 100644
--- a/pango/break.go
+++ b/pango/break.go
@@ -809,6 +809,23 @@ func resolveSentenceBreakType(wc rune, sbType sentenceBreakType, type_, breakTyp
 	return sbType
 }
 
+// lookupType returns the general category of `wc`, or nil for
+// unassigned characters.
+// The categories listed by the standard library also include derived ones
+// (LC and Cn) since Go 1.25, which overlap with the expected values.
+func lookupType(wc rune) *unicode.RangeTable {
+	for _, table := range [...]*unicode.RangeTable{unicode.Ll, unicode.Lu, unicode.Lt} {
+		if unicode.Is(table, wc) {
+			return table
+		}
+	}
+	type_ := ucd.LookupType(wc)
+	if type_ == unicode.Categories["Cn"] {
+		return nil
+	}
+	return type_
+}
+
 // This is the default break algorithm. It applies Unicode
 // rules without language-specific tailoring.
 // To avoid allocations, `attrs` must be passed, and must have a length of len(text)+1.
@@ -893,7 +910,7 @@ func pangoDefaultBreak(text []rune, attrs []CharAttr) {
 			nextBreakType = ucd.LookupLineBreakClass(nextWc)
 		}
 
-		type_ := ucd.LookupType(wc)
+		type_ := lookupType(wc)
 		jamo := ucd.Jamo(breakType)
 
 		/* Determine wheter this forms a Hangul syllable with prev. */
@@ -1452,7 +1469,7 @@ func pangoDefaultBreak(text []rune, attrs []CharAttr) {
 				breakOp = break_PROHIBITED
 			}
 
-			if unicode.Is(ucd.Extended_Pictographic, prevWc) && unicodedata.LookupType(prevWc) == nil &&
+			if unicode.Is(ucd.Extended_Pictographic, prevWc) && lookupType(prevWc) == nil &&
 				breakType == ucd.BreakEM {
 				breakOp = break_PROHIBITED
 			}
-- 
2.43.0


From 23766651a4380dea2f08f349f557d648bc3cf481 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:52:17 +0000
Subject: [PATCH 020/139] fix: word boundaries after CR LF and around marks
 following a double quote (WB3a, WB7bc)

---
 pango/break.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/pango/break.go b/pango/break.go
index 2628373..4415af5 100644
--- a/pango/break.go
+++ b/pango/break.go
@@ -1237,7 +1237,7 @@ func pangoDefaultBreak(text []rune, attrs []CharAttr) {
 					isWordBoundary = false                /* Rule WB7 */
 				} else if prevWbType == wb_Hebrew_Letter && wc == 0x0027 {
 					isWordBoundary = false /* Rule WB7a */
-				} else if prevPrevWbType == wb_Hebrew_Letter && prevWc == 0x0022 &&
+				} else if prevPrevWbType == wb_Hebrew_Letter && text[prevWbI] == 0x0022 &&
 					wbType == wb_Hebrew_Letter {
 					attrs[prevWbI].setWordBoundary(false) /* Rule WB7b */
 					isWordBoundary = false                /* Rule WB7c */
@@ -1258,6 +1258,9 @@ func pangoDefaultBreak(text []rune, attrs []CharAttr) {
 					prevWbI = i
 				}
 			}
+			if wc == '\n' && prevWc == '\r' {
+				prevWbI = i // the newline ends here
+			}
 			attrs[i].setWordBoundary(isWordBoundary)
 		}
 
-- 
2.43.0


From 85b7f43c12c1a9d95e0f9f102f1058caf9e70c10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:52:17 +0000
Subject: [PATCH 021/139] fix: no line break between a Hangul syllable and an
 inseparable character (LB27)

---
 pango/break.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pango/break.go b/pango/break.go
index 4415af5..c92cb25 100644
--- a/pango/break.go
+++ b/pango/break.go
@@ -1496,7 +1496,7 @@ func pangoDefaultBreak(text []rune, attrs []CharAttr) {
 				prevBreakType == ucd.BreakJT ||
 				prevBreakType == ucd.BreakH2 ||
 				prevBreakType == ucd.BreakH3) &&
-				breakType == ucd.BreakPO {
+				(breakType == ucd.BreakPO || breakType == ucd.BreakIN) {
 				breakOp = break_PROHIBITED
 			}
 			if prevBreakType == ucd.BreakPR &&
-- 
2.43.0


From b9e157e2510fa019c3b6ba3b2aa30d1eb9b73a67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:53:27 +0000
Subject: [PATCH 022/139] fix: sentence boundaries inside of words, after
 closing punctuation and with SB8 lookahead

---
 pango/break.go | 179 +++++++++++++++++++++----------------------------
 1 file changed, 78 insertions(+), 101 deletions(-)

diff --git a/pango/break.go b/pango/break.go
index c92cb25..1ed24e2 100644
--- a/pango/break.go
+++ b/pango/break.go
@@ -319,6 +319,7 @@ const (
 	sb_STerm
 	sb_Close
 	/* Rules SB8 and SB8a */
+	sb_ATerm_Close
 	sb_ATerm_Close_Sp
 	sb_STerm_Close_Sp
 )
@@ -702,14 +703,26 @@ func backspaceDeleteCharacter(wc rune) bool {
 		!unicode.Is(ucd.Emoji, wc)
 }
 
-func isOtherTerm(sbType sentenceBreakType) bool {
-	/* not in (OLetter | Upper | Lower | ParaSep | SATerm) */
-	return !(sbType == sb_OLetter ||
-		sbType == sb_Upper || sbType == sb_Lower ||
-		sbType == sb_ParaSep ||
-		sbType == sb_ATerm || sbType == sb_STerm ||
-		sbType == sb_ATerm_Close_Sp ||
-		sbType == sb_STerm_Close_Sp)
+// isFollowedByLower returns true if the first letter of `text` is a lower case one,
+// with no paragraph separator or sentence terminator before it (Rule SB8).
+func isFollowedByLower(text []rune) bool {
+	for _, wc := range text {
+		switch lookupSentenceBreakType(wc, lookupType(wc), ucd.LookupLineBreakClass(wc)) {
+		case sb_Lower:
+			return true
+		case sb_OLetter, sb_Upper, sb_ParaSep, sb_ATerm, sb_STerm:
+			return false
+		}
+	}
+	return false
+}
+
+// lookupSentenceBreakType returns the Sentence_Break property of `wc`
+func lookupSentenceBreakType(wc rune, type_, breakType *unicode.RangeTable) sentenceBreakType {
+	if breakType == ucd.BreakNU {
+		return sb_Numeric
+	}
+	return resolveSentenceBreakType(wc, sb_Other, type_, breakType)
 }
 
 func labelAlphabetic(breakType *unicode.RangeTable, script Script, wbType *wordBreakType) {
@@ -1267,100 +1280,64 @@ func pangoDefaultBreak(text []rune, attrs []CharAttr) {
 		/* ---- UAX#29 Sentence Boundaries ---- */
 		var isSentenceBoundary bool
 		{
-			if isWordBoundary || wc == '\r' || wc == '\n' { /* Rules SB3 and SB5 */
-				/* Find the SentenceBreakType of wc */
-				sbType := sb_Other
-
-				if breakType == ucd.BreakNU {
-					sbType = sb_Numeric /* Numeric */
-				}
-
-				sbType = resolveSentenceBreakType(wc, sbType, type_, breakType)
-
-				/* Sentence Boundary Rules */
-
-				/* We apply Rules SB1 and SB2 at the end of the function */
-				switch {
-				case wc == '\n' && prevWc == '\r':
-					isSentenceBoundary = false /* Rule SB3 */
-				case prevSbType == sb_ParaSep && prevSbI+1 == i:
-					/* The extra check for prevSbI is to correctly handle sequences like
-					 * ParaSep ÷ Extend × Extend
-					 * since we have not skipped ExtendFormat yet.
-					 */
-
-					isSentenceBoundary = true /* Rule SB4 */
-
-				case sbType == sb_ExtendFormat:
-					isSentenceBoundary = false /* Rule SB5? */
-				case prevSbType == sb_ATerm && sbType == sb_Numeric:
-					isSentenceBoundary = false /* Rule SB6 */
-				case (prevPrevSbType == sb_Upper ||
-					prevPrevSbType == sb_Lower) &&
-					prevSbType == sb_ATerm &&
-					sbType == sb_Upper:
-					isSentenceBoundary = false /* Rule SB7 */
-				case prevSbType == sb_ATerm && sbType == sb_Close:
-					sbType = sb_ATerm
-				case prevSbType == sb_STerm && sbType == sb_Close:
-					sbType = sb_STerm
-				case prevSbType == sb_ATerm && sbType == sb_Sp:
-					sbType = sb_ATerm_Close_Sp
-				case prevSbType == sb_STerm && sbType == sb_Sp:
-					sbType = sb_STerm_Close_Sp
-				/* Rule SB8 */
-				case (prevSbType == sb_ATerm ||
-					prevSbType == sb_ATerm_Close_Sp) && sbType == sb_Lower:
-					isSentenceBoundary = false
-				case (prevPrevSbType == sb_ATerm ||
-					prevPrevSbType == sb_ATerm_Close_Sp) &&
-					isOtherTerm(prevSbType) && sbType == sb_Lower:
-
-					attrs[prevSbI].setSentenceBoundary(false)
-					attrs[prevSbI].setSentenceEnd(false)
-					lastSentenceStart = -1
-					for j := prevSbI - 1; j >= 0; j-- {
-						attrs[j].setSentenceEnd(false)
-						if attrs[j].IsSentenceBoundary() {
-							lastSentenceStart = j
-							break
-						}
-					}
-				case (prevSbType == sb_ATerm ||
-					prevSbType == sb_ATerm_Close_Sp ||
-					prevSbType == sb_STerm ||
-					prevSbType == sb_STerm_Close_Sp) &&
-					(sbType == sb_SContinue || sbType == sb_ATerm || sbType == sb_STerm):
-					isSentenceBoundary = false /* Rule SB8a */
-				case (prevSbType == sb_ATerm ||
-					prevSbType == sb_STerm) &&
-					(sbType == sb_Close || sbType == sb_Sp ||
-						sbType == sb_ParaSep):
-					isSentenceBoundary = false /* Rule SB9 */
-				case (prevSbType == sb_ATerm ||
-					prevSbType == sb_ATerm_Close_Sp ||
-					prevSbType == sb_STerm ||
-					prevSbType == sb_STerm_Close_Sp) &&
-					(sbType == sb_Sp || sbType == sb_ParaSep):
-					isSentenceBoundary = false /* Rule SB10 */
-				case (prevSbType == sb_ATerm ||
-					prevSbType == sb_ATerm_Close_Sp ||
-					prevSbType == sb_STerm ||
-					prevSbType == sb_STerm_Close_Sp) &&
-					sbType != sb_ParaSep:
-					isSentenceBoundary = true /* Rule SB11 */
-				default:
-					isSentenceBoundary = false /* Rule SB998 */
-				}
+			/* Find the SentenceBreakType of wc */
+			sbType := lookupSentenceBreakType(wc, type_, breakType)
+
+			/* Sentence Boundary Rules */
+
+			/* We apply Rules SB1 and SB2 at the end of the function */
+			switch {
+			case wc == '\n' && prevWc == '\r':
+				isSentenceBoundary = false /* Rule SB3 */
+			case prevSbType == sb_ParaSep && prevSbI+1 == i:
+				/* The extra check for prevSbI is to correctly handle sequences like
+				 * ParaSep ÷ Extend × Extend
+				 * since we have not skipped ExtendFormat yet.
+				 */
+
+				isSentenceBoundary = true /* Rule SB4 */
+
+			case sbType == sb_ExtendFormat:
+				isSentenceBoundary = false /* Rule SB5? */
+			case prevSbType == sb_ATerm && sbType == sb_Numeric:
+				isSentenceBoundary = false /* Rule SB6 */
+			case (prevPrevSbType == sb_Upper ||
+				prevPrevSbType == sb_Lower) &&
+				prevSbType == sb_ATerm &&
+				sbType == sb_Upper:
+				isSentenceBoundary = false /* Rule SB7 */
+			case (prevSbType == sb_ATerm || prevSbType == sb_ATerm_Close) && sbType == sb_Close:
+				sbType = sb_ATerm_Close
+			case prevSbType == sb_STerm && sbType == sb_Close:
+				sbType = sb_STerm
+			case (prevSbType == sb_ATerm || prevSbType == sb_ATerm_Close ||
+				prevSbType == sb_ATerm_Close_Sp) && sbType == sb_Sp:
+				sbType = sb_ATerm_Close_Sp
+			case (prevSbType == sb_STerm || prevSbType == sb_STerm_Close_Sp) && sbType == sb_Sp:
+				sbType = sb_STerm_Close_Sp
+			case (prevSbType == sb_ATerm || prevSbType == sb_ATerm_Close ||
+				prevSbType == sb_ATerm_Close_Sp) && isFollowedByLower(text[i:]):
+				isSentenceBoundary = false /* Rule SB8 */
+			case (prevSbType == sb_ATerm || prevSbType == sb_ATerm_Close ||
+				prevSbType == sb_ATerm_Close_Sp ||
+				prevSbType == sb_STerm ||
+				prevSbType == sb_STerm_Close_Sp) &&
+				(sbType == sb_SContinue || sbType == sb_ATerm || sbType == sb_STerm):
+				isSentenceBoundary = false /* Rule SB8a */
+			case (prevSbType == sb_ATerm || prevSbType == sb_ATerm_Close ||
+				prevSbType == sb_ATerm_Close_Sp ||
+				prevSbType == sb_STerm ||
+				prevSbType == sb_STerm_Close_Sp) &&
+				sbType != sb_ParaSep: /* Rules SB9 and SB10 */
+				isSentenceBoundary = true /* Rule SB11 */
+			default:
+				isSentenceBoundary = false /* Rule SB998 */
+			}
 
-				if sbType != sb_ExtendFormat &&
-					!((prevPrevSbType == sb_ATerm || prevPrevSbType == sb_ATerm_Close_Sp) &&
-						isOtherTerm(prevSbType) &&
-						isOtherTerm(sbType)) {
-					prevPrevSbType = prevSbType
-					prevSbType = sbType
-					prevSbI = i
-				}
+			if sbType != sb_ExtendFormat || i == 0 || (prevSbType == sb_ParaSep && prevSbI+1 == i) {
+				prevPrevSbType = prevSbType
+				prevSbType = sbType
+				prevSbI = i
 			}
 
 			if i == 0 || done {
-- 
2.43.0


From 635aa85980539169dcc91e764ef105c916e9f482 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:57:54 +0000
Subject: [PATCH 023/139] fix: all the ideographs are words of their own (WB)

---
 pango/break.go | 11 +----------
 1 file changed, 1 insertion(+), 10 deletions(-)

diff --git a/pango/break.go b/pango/break.go
index 1ed24e2..231bd31 100644
--- a/pango/break.go
+++ b/pango/break.go
@@ -1175,16 +1175,7 @@ func pangoDefaultBreak(text []rune, attrs []CharAttr) {
 						}
 
 					case unicode.Lo, unicode.Nl:
-						if wc == 0x3006 || wc == 0x3007 ||
-							(wc >= 0x3021 && wc <= 0x3029) ||
-							(wc >= 0x3038 && wc <= 0x303A) ||
-							(wc >= 0x3400 && wc <= 0x4DB5) ||
-							(wc >= 0x4E00 && wc <= 0x9FC3) ||
-							(wc >= 0xF900 && wc <= 0xFA2D) ||
-							(wc >= 0xFA30 && wc <= 0xFA6A) ||
-							(wc >= 0xFA70 && wc <= 0xFAD9) ||
-							(wc >= 0x20000 && wc <= 0x2A6D6) ||
-							(wc >= 0x2F800 && wc <= 0x2FA1D) {
+						if unicode.Is(unicode.Ideographic, wc) {
 							break /* ALetter exceptions: Ideographic */
 						}
 						labelAlphabetic(breakType, script, &wbType)
-- 
2.43.0


From 5ea89c496daf00dd8e5593138c507a9904ff8e5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:01:13 +0000
Subject: [PATCH 024/139] fix: fullwidth digits are numeric (WB, SB), complete
 the prepended marks (GB9b)

---
 pango/break.go | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/pango/break.go b/pango/break.go
index 231bd31..2fb5c79 100644
--- a/pango/break.go
+++ b/pango/break.go
@@ -719,7 +719,7 @@ func isFollowedByLower(text []rune) bool {
 
 // lookupSentenceBreakType returns the Sentence_Break property of `wc`
 func lookupSentenceBreakType(wc rune, type_, breakType *unicode.RangeTable) sentenceBreakType {
-	if breakType == ucd.BreakNU {
+	if breakType == ucd.BreakNU || (wc >= 0xFF10 && wc <= 0xFF19) {
 		return sb_Numeric
 	}
 	return resolveSentenceBreakType(wc, sb_Other, type_, breakType)
@@ -968,9 +968,7 @@ func pangoDefaultBreak(text []rune, attrs []CharAttr) {
 					wc == 0x6DD ||
 					wc == 0x70F ||
 					wc == 0x8E2 ||
-					wc == 0xD4E ||
-					wc == 0x110BD ||
-					(wc >= 0x111C2 && wc <= 0x111C3) {
+					wc == 0x110BD || wc == 0x110CD {
 					gbType = gb_Prepend
 					break
 				}
@@ -992,6 +990,10 @@ func pangoDefaultBreak(text []rune, attrs []CharAttr) {
 			case unicode.Lo:
 				if makesHangulSyllable {
 					gbType = gb_InHangulSyllable
+				} else if wc == 0xD4E || (wc >= 0x111C2 && wc <= 0x111C3) ||
+					wc == 0x1193F || wc == 0x11941 || wc == 0x11A3A ||
+					(wc >= 0x11A84 && wc <= 0x11A89) || wc == 0x11D46 {
+					gbType = gb_Prepend
 				}
 			case unicode.Lm:
 				if wc >= 0xFF9E && wc <= 0xFF9F {
@@ -1127,6 +1129,10 @@ func pangoDefaultBreak(text []rune, attrs []CharAttr) {
 						if wc != 0x066C {
 							wbType = wb_Numeric /* Numeric */
 						}
+					case ucd.BreakID:
+						if wc >= 0xFF10 && wc <= 0xFF19 {
+							wbType = wb_Numeric /* Fullwidth digits */
+						}
 					case ucd.BreakIS:
 						if wc != 0x003A && wc != 0xFE13 && wc != 0x002E {
 							wbType = wb_MidNum /* MidNum */
-- 
2.43.0


From bc632cbb0be4a6e735fc0e71ebd0000b2b0269e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:09:07 +0000
Subject: [PATCH 025/139] fix: word starts after Japanese word ends, sentences
 of one character

---
 pango/break.go | 15 ++++++---------
 1 file changed, 6 insertions(+), 9 deletions(-)

diff --git a/pango/break.go b/pango/break.go
index 2fb5c79..cb02fcb 100644
--- a/pango/break.go
+++ b/pango/break.go
@@ -1788,6 +1788,7 @@ func pangoDefaultBreak(text []rune, attrs []CharAttr) {
 							(!japanese(lastWordLetter) &&
 								japanese(wc)) {
 							attrs[i].setWordEnd(true)
+							attrs[i].setWordStart(true)
 						}
 					}
 				}
@@ -1822,27 +1823,23 @@ func pangoDefaultBreak(text []rune, attrs []CharAttr) {
 			attrs[i].setSentenceStart(false)
 			attrs[i].setSentenceEnd(false)
 
-			/* maybe start sentence */
-			if lastSentenceStart == -1 && !isSentenceBoundary {
-				lastSentenceStart = i - 1
-			}
 			/* remember last non space character position */
 			if i > 0 && !attrs[i-1].IsWhite() {
 				lastNonSpace = i
 			}
-			/* meets sentence end, mark both sentence start and end */
-			if lastSentenceStart != -1 && isSentenceBoundary {
-				if lastNonSpace >= lastSentenceStart {
+			/* meets sentence end, mark both sentence start and end, and start the next one */
+			if isSentenceBoundary {
+				if lastSentenceStart != -1 && lastNonSpace > lastSentenceStart {
 					attrs[lastSentenceStart].setSentenceStart(true)
 					attrs[lastNonSpace].setSentenceEnd(true)
 				}
 
-				lastSentenceStart = -1
+				lastSentenceStart = i
 				lastNonSpace = -1
 			}
 
 			/* meets space character, move sentence start */
-			if lastSentenceStart != -1 && lastSentenceStart == i-1 && attrs[i-1].IsWhite() {
+			if lastSentenceStart == i && attrs[i].IsWhite() {
 				lastSentenceStart++
 			}
 		}
-- 
2.43.0


From 8a1d8278b0d368ab648b04a80491eee4f0b418f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:10:46 +0000
Subject: [PATCH 026/139] fix: no word boundary inside of a grapheme

---
 pango/break.go       | 3 ++-
 pango/break_indic.go | 1 +
 2 files changed, 3 insertions(+), 1 deletion(-)

diff --git a/pango/break.go b/pango/break.go
index cb02fcb..8be91c6 100644
--- a/pango/break.go
+++ b/pango/break.go
@@ -408,6 +408,7 @@ func pangoTailorBreak(text []rune, analysis *Analysis, offset int, logAttrs []Ch
 		start.setLineBreak(start.IsLineBreak() || attrBefore.IsLineBreak())
 		start.setMandatoryBreak(start.IsMandatoryBreak() || attrBefore.IsMandatoryBreak())
 		start.setCursorPosition(start.IsCursorPosition() || attrBefore.IsCursorPosition())
+		start.setWordBoundary(start.IsWordBoundary() || attrBefore.IsWordBoundary())
 	}
 }
 
@@ -1271,7 +1272,7 @@ func pangoDefaultBreak(text []rune, attrs []CharAttr) {
 			if wc == '\n' && prevWc == '\r' {
 				prevWbI = i // the newline ends here
 			}
-			attrs[i].setWordBoundary(isWordBoundary)
+			attrs[i].setWordBoundary(isWordBoundary && isGraphemeBoundary)
 		}
 
 		/* ---- UAX#29 Sentence Boundaries ---- */
diff --git a/pango/break_indic.go b/pango/break_indic.go
index 9ab16fe..9136b0c 100644
--- a/pango/break_indic.go
+++ b/pango/break_indic.go
@@ -80,6 +80,7 @@ func notCursorPosition(attr *CharAttr) {
 	if !attr.IsMandatoryBreak() {
 		attr.setCursorPosition(false)
 		attr.setCharBreak(false)
+		attr.setWordBoundary(false)
 		attr.setLineBreak(false)
 		attr.setMandatoryBreak(false)
 	}
-- 
2.43.0


From 4c210e12e9d2dba4d4ccf20bf276f320882f0b17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:11:55 +0000
Subject: [PATCH 027/139] fix: GB11 and LB25 in the presence of combining marks

---
 pango/break.go | 23 +++++++++++++++++++++--
 1 file changed, 21 insertions(+), 2 deletions(-)

diff --git a/pango/break.go b/pango/break.go
index 8be91c6..cba30af 100644
--- a/pango/break.go
+++ b/pango/break.go
@@ -718,6 +718,25 @@ func isFollowedByLower(text []rune) bool {
 	return false
 }
 
+// isFollowedByNumeric returns true if the first character of `text` at or after
+// `index` which is not a combining mark (Rule LB9) is numeric.
+func isFollowedByNumeric(text []rune, index int) bool {
+	for ; index < len(text); index++ {
+		switch ucd.LookupLineBreakClass(text[index]) {
+		case ucd.BreakCM, ucd.BreakZWJ:
+		case ucd.BreakSA:
+			if !unicode.In(text[index], unicode.Mn, unicode.Mc) {
+				return false
+			}
+		case ucd.BreakNU:
+			return true
+		default:
+			return false
+		}
+	}
+	return false
+}
+
 // lookupSentenceBreakType returns the Sentence_Break property of `wc`
 func lookupSentenceBreakType(wc rune, type_, breakType *unicode.RangeTable) sentenceBreakType {
 	if breakType == ucd.BreakNU || (wc >= 0xFF10 && wc <= 0xFF19) {
@@ -1031,7 +1050,7 @@ func pangoDefaultBreak(text []rune, attrs []CharAttr) {
 			/* Rule GB11 */
 			if metExtendedPictographic {
 				if gbType == gb_Extend {
-					metExtendedPictographic = true
+					metExtendedPictographic = prevGbType != gb_ZWJ
 				} else if unicode.Is(ucd.Extended_Pictographic, prevWc) && gbType == gb_ZWJ {
 					metExtendedPictographic = true
 				} else if prevGbType == gb_Extend && gbType == gb_ZWJ {
@@ -1511,7 +1530,7 @@ func pangoDefaultBreak(text []rune, attrs []CharAttr) {
 				prevBreakType == ucd.BreakPO) &&
 				(breakType == ucd.BreakOP ||
 					breakType == ucd.BreakHY) &&
-				nextBreakType == ucd.BreakNU {
+				isFollowedByNumeric(text, i+1) {
 				breakOp = break_PROHIBITED
 			}
 			if (prevBreakType == ucd.BreakOP ||
-- 
2.43.0


From 04a8d83db201dcbdd2f0af6154fc858321386be3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:14:13 +0000
Subject: [PATCH 028/139] fix: word boundaries between flags follow UAX #29

---
 pango/break.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pango/break.go b/pango/break.go
index cba30af..2679a5e 100644
--- a/pango/break.go
+++ b/pango/break.go
@@ -1291,7 +1291,7 @@ func pangoDefaultBreak(text []rune, attrs []CharAttr) {
 			if wc == '\n' && prevWc == '\r' {
 				prevWbI = i // the newline ends here
 			}
-			attrs[i].setWordBoundary(isWordBoundary && isGraphemeBoundary)
+			attrs[i].setWordBoundary(isWordBoundary)
 		}
 
 		/* ---- UAX#29 Sentence Boundaries ---- */
-- 
2.43.0


From caae59402ff2bcd11ed487780837a74f03ec4bca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:14:27 +0000
Subject: [PATCH 029/139] fix: a space ends a Hangul syllable

---
 pango/break.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pango/break.go b/pango/break.go
index 2679a5e..5f41741 100644
--- a/pango/break.go
+++ b/pango/break.go
@@ -1773,7 +1773,6 @@ func pangoDefaultBreak(text []rune, attrs []CharAttr) {
 				prevPrevBreakType = prevBreakType
 				prevBreakType = breakType
 			}
-			prevJamo = jamo
 		} else {
 			if prevBreakType != ucd.BreakSP {
 				prevPrevBreakType = prevBreakType
@@ -1781,6 +1780,7 @@ func pangoDefaultBreak(text []rune, attrs []CharAttr) {
 			}
 			/* else don't change the prevBreakType */
 		}
+		prevJamo = jamo
 
 		/* ---- Word breaks ---- */
 
-- 
2.43.0


From 65d17e78b3fdba6673623d365538042003f1b94d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:36:04 +0000
Subject: [PATCH 030/139] fix: overrides of boundaries by attributes stay in
 their paragraph and continue words ending at the next start

---
 pango/break.go  | 63 ++++++++++++++++++++++++++++---------------------
 pango/layout.go |  2 +-
 2 files changed, 37 insertions(+), 28 deletions(-)

diff --git a/pango/break.go b/pango/break.go
index 5f41741..499fc5c 100644
--- a/pango/break.go
+++ b/pango/break.go
@@ -478,14 +478,14 @@ func removeBreaksFromRange(text []rune, logAttrs []CharAttr, startPos, endPos in
 	}
 }
 
-func posFromOffset(start, end, offset int, text []rune, logAttrs []CharAttr) (int, int) {
-	var startPos, endPos int
+// posFromOffset returns the part of the range [start, end) inside of the paragraph `text`,
+// which starts at `offset`. It is empty (startPos >= endPos) if the range is outside of the paragraph.
+func posFromOffset(start, end, offset int, text []rune) (int, int) {
+	startPos, endPos := 0, len(text)
 	if start >= offset {
 		startPos = start - offset
 	}
-	if end >= offset+len(text) {
-		endPos = len(logAttrs)
-	} else {
+	if end < offset+len(text) {
 		endPos = end - offset
 	}
 	return startPos, endPos
@@ -502,7 +502,10 @@ func handleAllowBreaks(text []rune, list AttrList, offset int, logAttrs []CharAt
 			continue
 		}
 		start, end := iter.StartIndex, iter.EndIndex
-		startPos, endPos := posFromOffset(start, end, offset, text, logAttrs)
+		startPos, endPos := posFromOffset(start, end, offset, text)
+		if startPos >= endPos { // outside of the paragraph
+			continue
+		}
 
 		for pos := startPos + 1; pos < endPos; pos++ {
 			logAttrs[pos].setCharBreak(false)
@@ -527,7 +530,10 @@ func handleWords(text []rune, attrs AttrList, offset int, logAttrs []CharAttr) b
 		}
 
 		start, end := attr.StartIndex, attr.EndIndex
-		startPos, endPos := posFromOffset(start, end, offset, text, logAttrs)
+		startPos, endPos := posFromOffset(start, end, offset, text)
+		if startPos >= endPos { // outside of the paragraph
+			continue
+		}
 
 		for pos := startPos + 1; pos < endPos; pos++ {
 			logAttrs[pos].setWordStart(false)
@@ -540,14 +546,14 @@ func handleWords(text []rune, attrs AttrList, offset int, logAttrs []CharAttr) b
 		if start >= offset {
 			inWord := false
 			for pos := startPos; pos >= 0; pos-- {
-				if logAttrs[pos].IsWordEnd() {
-					inWord = pos == startPos
-					break
-				}
 				if pos < startPos && logAttrs[pos].IsWordStart() {
 					inWord = true
 					break
 				}
+				if logAttrs[pos].IsWordEnd() {
+					inWord = pos == startPos
+					break
+				}
 			}
 			logAttrs[startPos].setWordStart(true)
 			logAttrs[startPos].setWordEnd(inWord)
@@ -561,17 +567,17 @@ func handleWords(text []rune, attrs AttrList, offset int, logAttrs []CharAttr) b
 			tailored = true
 		}
 
-		if end < offset+len(text) {
+		if end <= offset+len(text) {
 			inWord := false
-			for pos := endPos; pos < len(logAttrs); pos++ {
-				if logAttrs[pos].IsWordStart() {
-					inWord = pos == endPos
-					break
-				}
+			for pos := endPos; pos <= len(text); pos++ {
 				if pos > endPos && logAttrs[pos].IsWordEnd() {
 					inWord = true
 					break
 				}
+				if logAttrs[pos].IsWordStart() {
+					inWord = pos == endPos
+					break
+				}
 			}
 			logAttrs[endPos].setWordStart(inWord)
 			logAttrs[endPos].setWordEnd(true)
@@ -600,7 +606,10 @@ func handleSentences(text []rune, attrs AttrList, offset int, logAttrs []CharAtt
 		}
 
 		start, end := attr.StartIndex, attr.EndIndex
-		startPos, endPos := posFromOffset(start, end, offset, text, logAttrs)
+		startPos, endPos := posFromOffset(start, end, offset, text)
+		if startPos >= endPos { // outside of the paragraph
+			continue
+		}
 
 		for pos := startPos + 1; pos < endPos; pos++ {
 			logAttrs[pos].setSentenceStart(false)
@@ -611,13 +620,13 @@ func handleSentences(text []rune, attrs AttrList, offset int, logAttrs []CharAtt
 		if start >= offset {
 			inSentence := false
 			for pos := startPos - 1; pos >= 0; pos-- {
-				if logAttrs[pos].IsSentenceEnd() {
-					break
-				}
 				if logAttrs[pos].IsSentenceStart() {
 					inSentence = true
 					break
 				}
+				if logAttrs[pos].IsSentenceEnd() {
+					break
+				}
 			}
 			logAttrs[startPos].setSentenceStart(true)
 			logAttrs[startPos].setSentenceEnd(inSentence)
@@ -625,16 +634,16 @@ func handleSentences(text []rune, attrs AttrList, offset int, logAttrs []CharAtt
 
 			tailored = true
 		}
-		if end < offset+len(text) {
+		if end <= offset+len(text) {
 			inSentence := false
-			for pos := endPos + 1; endPos < len(logAttrs); pos++ {
-				if logAttrs[pos].IsSentenceStart() {
-					break
-				}
+			for pos := endPos + 1; pos <= len(text); pos++ {
 				if logAttrs[pos].IsSentenceEnd() {
 					inSentence = true
 					break
 				}
+				if logAttrs[pos].IsSentenceStart() {
+					break
+				}
 			}
 			logAttrs[endPos].setSentenceStart(inSentence)
 			logAttrs[endPos].setSentenceEnd(true)
@@ -657,7 +666,7 @@ func handleHyphens(text []rune, attrs AttrList, offset int, logAttrs []CharAttr)
 			continue
 		}
 
-		startPos, endPos := posFromOffset(attr.StartIndex, attr.EndIndex, offset, text, logAttrs)
+		startPos, endPos := posFromOffset(attr.StartIndex, attr.EndIndex, offset, text)
 
 		for pos := startPos + 1; pos < endPos; pos++ {
 			if !logAttrs[pos].IsBreakRemovesPreceding() {
diff --git a/pango/layout.go b/pango/layout.go
index a1bdae2..ed2a53a 100644
--- a/pango/layout.go
+++ b/pango/layout.go
@@ -1835,7 +1835,7 @@ func getItemsLogAttrs(text []rune, start, length int, items *ItemList, logAttrs
 	}
 
 	if items != nil {
-		pango_attr_break(text[start:], attrs, items.Data.Offset, logAttrs)
+		pango_attr_break(text[start:start+length], attrs, items.Data.Offset, logAttrs)
 	}
 }
 
-- 
2.43.0


From c813ae76b281eeb3cc194de1f484a7933aae58e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:47:36 +0000
Subject: [PATCH 031/139] fix: spaces between two fonts use the preferred one

---
 pango/context.go | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/pango/context.go b/pango/context.go
index 05a1feb..c791960 100644
--- a/pango/context.go
+++ b/pango/context.go
@@ -866,6 +866,8 @@ func (state *itemizeState) fillFont(font Font) {
 
 // pos is the index into text
 func (state *itemizeState) addCharacter(font Font, fontPosition int, forceBreak bool, pos int, isSpace bool) {
+	firstSpace := state.firstSpace // before pos
+
 	if isSpace {
 		if state.firstSpace == -1 {
 			state.firstSpace = pos
@@ -895,10 +897,10 @@ func (state *itemizeState) addCharacter(font Font, fontPosition int, forceBreak
 		// the font is less "fallback".
 		//
 		// See https://gitlab.gnome.org/GNOME/pango/-/issues/249
-		if item.Offset < state.firstSpace && fontPosition < state.fontPosition {
-			nSpaces = pos - state.firstSpace
+		if item.Offset < firstSpace && fontPosition < state.fontPosition {
+			nSpaces = pos - firstSpace
 			item.Length -= nSpaces
-			pos = state.firstSpace
+			pos = firstSpace
 		}
 
 		item.Length = pos - item.Offset
-- 
2.43.0


From 744edc768aa9a4ac01a798320a322af112b8f5c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:47:36 +0000
Subject: [PATCH 032/139] fix: emoji following narrow characters are upright in
 vertical text

---
 pango/context.go | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/pango/context.go b/pango/context.go
index c791960..3f5bdb1 100644
--- a/pango/context.go
+++ b/pango/context.go
@@ -835,6 +835,10 @@ func (state *itemizeState) next() bool {
 		state.scriptEnd, state.script = state.scriptIter.scriptEnd, state.scriptIter.scriptCode
 		state.changed |= changedSCRIPT
 	}
+	if state.runEnd == state.widthIter.end {
+		state.widthIter.next()
+		state.changed |= changedWIDTH
+	}
 	if state.runEnd == state.emojiIter.end {
 		state.emojiIter.next()
 		state.changed |= changedEMOJI
@@ -843,10 +847,6 @@ func (state *itemizeState) next() bool {
 			state.widthIter.end = max(state.widthIter.end, state.emojiIter.end)
 		}
 	}
-	if state.runEnd == state.widthIter.end {
-		state.widthIter.next()
-		state.changed |= changedWIDTH
-	}
 
 	state.updateEnd()
 
-- 
2.43.0


From d115d50b846c7a2ca47f6dffbd872653e385af00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:47:36 +0000
Subject: [PATCH 033/139] fix: itemization must use the base direction of the
 paragraph

---
 pango/context.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pango/context.go b/pango/context.go
index 3f5bdb1..2fb091a 100644
--- a/pango/context.go
+++ b/pango/context.go
@@ -981,7 +981,7 @@ func (context *Context) itemizeWithFont(text []rune, startIndex int, desc *FontD
 		return nil
 	}
 
-	state := context.newItemizeState(text, context.baseDir, startIndex, attrs, cachedIter, desc)
+	state := context.newItemizeState(text, baseDir, startIndex, attrs, cachedIter, desc)
 
 	for do := true; do; do = state.next() {
 		state.processRun()
-- 
2.43.0


From 10591f9f7303d5b76bc2f770e44b2071e0156d2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:47:36 +0000
Subject: [PATCH 034/139] fix: a font scale of the previous paragraph applies
 to the next ones

---
 pango/item.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pango/item.go b/pango/item.go
index db963aa..e014018 100644
--- a/pango/item.go
+++ b/pango/item.go
@@ -322,7 +322,8 @@ func (context *Context) collectFontScale(stack *list.List, item, prev *Item) (fl
 
 	for _, attr := range item.Analysis.ExtraAttrs {
 		if attr.Kind == ATTR_FONT_SCALE {
-			if attr.StartIndex == item.Offset {
+			// an attribute may also have started in a previous paragraph
+			if attr.StartIndex == item.Offset || (prev == nil && attr.StartIndex < item.Offset) {
 				entry := &scaleItem{attr: attr}
 				stack.PushFront(entry)
 
-- 
2.43.0


From 2cddfd314417a63ff90c386de3ad8b530565b3bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:47:36 +0000
Subject: [PATCH 035/139] fix: the neutral font scale and the metrics of
 superscripts

---
 pango/item.go | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/pango/item.go b/pango/item.go
index e014018..1207464 100644
--- a/pango/item.go
+++ b/pango/item.go
@@ -338,19 +338,19 @@ func (context *Context) collectFontScale(stack *list.List, item, prev *Item) (fl
 
 				switch FontScale(attr.Data.(AttrInt)) {
 				case FONT_SCALE_NONE:
-					// do nothing
+					entry.scale = 1
 				case FONT_SCALE_SUPERSCRIPT:
 					entry.scale = 1 / 1.2
 					if hbFont != nil {
-						if y_size, ok := hbFont.Face().LineMetric(fonts.SuperscriptEmYSize); ok {
-							entry.scale = y_size / float32(yScale)
+						if y_size, ok := hbFont.LineMetric(fonts.SuperscriptEmYSize); ok {
+							entry.scale = float32(y_size) / float32(yScale)
 						}
 					}
 				case FONT_SCALE_SUBSCRIPT:
 					entry.scale = 1 / 1.2
 					if hbFont != nil {
-						if y_size, ok := hbFont.Face().LineMetric(fonts.SubscriptEmYSize); ok {
-							entry.scale = y_size / float32(yScale)
+						if y_size, ok := hbFont.LineMetric(fonts.SubscriptEmYSize); ok {
+							entry.scale = float32(y_size) / float32(yScale)
 						}
 					}
 
-- 
2.43.0


From af667d4be25cae41bd7c1a5ded9283a87c7cfcf0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:47:36 +0000
Subject: [PATCH 036/139] fix: capitalized text synthesized as small capitals

---
 pango/item.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pango/item.go b/pango/item.go
index 1207464..87c3982 100644
--- a/pango/item.go
+++ b/pango/item.go
@@ -509,7 +509,7 @@ func splitItemForVariant(text []rune, logAttrs []CharAttr, variant Variant, list
 						(itemTransform == TEXT_TRANSFORM_CAPITALIZE && isWordStart)))) {
 				break
 			}
-			isWordStart = logAttrs != nil && logAttrs[p].IsWordStart()
+			isWordStart = logAttrs != nil && logAttrs[p+1].IsWordStart()
 		}
 
 		if p0 < p {
@@ -547,7 +547,7 @@ func splitItemForVariant(text []rune, logAttrs []CharAttr, variant Variant, list
 				(itemTransform == TEXT_TRANSFORM_CAPITALIZE && isWordStart)) {
 				break
 			}
-			isWordStart = logAttrs != nil && logAttrs[p].IsWordStart()
+			isWordStart = logAttrs != nil && logAttrs[p+1].IsWordStart()
 		}
 
 		if p0 < p {
-- 
2.43.0


From 150d128a20ae5093e9a8349eb5e1b6954ec9232e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:50:22 +0000
Subject: [PATCH 037/139] fix: the gravity of the emoji font follows the one of
 the run

---
 pango/context.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pango/context.go b/pango/context.go
index 2fb091a..fe0a784 100644
--- a/pango/context.go
+++ b/pango/context.go
@@ -715,6 +715,7 @@ func (state *itemizeState) updateForNewRun() {
 
 		if state.fontDescGravity != state.resolvedGravity {
 			state.fontDesc.SetGravity(state.resolvedGravity)
+			state.emojiFontDesc = nil // it is a copy of fontDesc
 			state.changed |= changedFONT
 		}
 	}
-- 
2.43.0


From f5289b6f4824d2518bee0eec3ab09d661dae3bc9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:04:36 +0000
Subject: [PATCH 038/139] fix: equal charsets may differ by empty pages

---
 fontconfig/charset.go | 39 +++++++++++++++++++++------------------
 1 file changed, 21 insertions(+), 18 deletions(-)

diff --git a/fontconfig/charset.go b/fontconfig/charset.go
index 70c5c1e..f9bfde9 100644
--- a/fontconfig/charset.go
+++ b/fontconfig/charset.go
@@ -46,12 +46,17 @@ func (s Charset) String() string {
 
 func (s Charset) hash() []byte {
 	const size = 2 + 4*8
-	out := make([]byte, size*len(s.pageNumbers))
+	out := make([]byte, 0, size*len(s.pageNumbers))
+	var buf [size]byte
 	for i, p := range s.pageNumbers {
-		binary.BigEndian.PutUint16(out[size*i:], p)
+		if s.pages[i] == (charPage{}) { // left by DelChar
+			continue
+		}
+		binary.BigEndian.PutUint16(buf[:], p)
 		for j, u := range s.pages[i] {
-			binary.BigEndian.PutUint32(out[size*i+2+4*j:], u)
+			binary.BigEndian.PutUint32(buf[2+4*j:], u)
 		}
+		out = append(out, buf[:]...)
 	}
 	return out
 }
@@ -160,18 +165,8 @@ func charsetSubtractCount(a, b Charset) uint32 {
 
 // Returns whether `a` and `b` contain the same set of Unicode chars.
 func charsetEqual(a, b Charset) bool {
-	ai, bi := newCharsetIter(a), newCharsetIter(b)
-	for ai.leaf != nil && bi.leaf != nil {
-		if ai.page() != bi.page() {
-			return false
-		}
-		if *ai.leaf != *bi.leaf {
-			return false
-		}
-		ai.next()
-		bi.next()
-	}
-	return ai.leaf == bi.leaf
+	// two equal sets may differ by the empty pages left by DelChar
+	return a.isSubset(b) && b.isSubset(a)
 }
 
 // return true iff a is a subset of b
@@ -196,7 +191,10 @@ func (a Charset) isSubset(b Charset) bool {
 			ai++
 			bi++
 		} else if an < bn { // Does a have any pages not in b?
-			return false
+			if a.pages[ai] != (charPage{}) {
+				return false
+			}
+			ai++
 		} else {
 			bi = b.findLeafForward(bi+1, an)
 			if bi < 0 {
@@ -204,8 +202,13 @@ func (a Charset) isSubset(b Charset) bool {
 			}
 		}
 	}
-	//  did we look at every page?
-	return ai >= len(a.pageNumbers)
+	//  did we look at every (non empty) page?
+	for ; ai < len(a.pageNumbers); ai++ {
+		if a.pages[ai] != (charPage{}) {
+			return false
+		}
+	}
+	return true
 }
 
 // Locate the leaf containing the specified char, creating it if desired
-- 
2.43.0


From 5e0182290006d5b744fc5aab75ba913e9238f2e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:04:36 +0000
Subject: [PATCH 039/139] fix: parsing a charset with isolated characters must
 terminate

---
 fontconfig/charset.go | 19 ++++++++-----------
 1 file changed, 8 insertions(+), 11 deletions(-)

diff --git a/fontconfig/charset.go b/fontconfig/charset.go
index f9bfde9..7a2e196 100644
--- a/fontconfig/charset.go
+++ b/fontconfig/charset.go
@@ -62,23 +62,20 @@ func (s Charset) hash() []byte {
 }
 
 func parseCharSet(str string) (Charset, error) {
-	fields := strings.Fields(str)
+	// the separator may be surrounded by spaces
+	fields := strings.Fields(strings.ReplaceAll(str, "-", " - "))
 
 	var out Charset
 	for len(fields) != 0 {
-		// either the separator is surrounded by space or not
-		chunks := strings.Split(fields[0], "-")
 		firstS, lastS := fields[0], ""
-		if len(chunks) == 2 {
-			firstS, lastS = chunks[0], chunks[1]
-			fields = fields[1:]
-		} else if strings.HasSuffix(fields[0], "-") && len(fields) >= 2 {
-			firstS = strings.TrimSuffix(firstS, "-")
-			lastS = fields[1]
-			fields = fields[2:]
-		} else if len(fields) >= 3 && fields[1] == "-" {
+		if len(fields) >= 2 && fields[1] == "-" {
+			if len(fields) < 3 {
+				return out, fmt.Errorf("fontconfig: invalid charset: missing last element after %s", firstS)
+			}
 			lastS = fields[2]
 			fields = fields[3:]
+		} else {
+			fields = fields[1:]
 		}
 
 		first, err := strconv.ParseInt(firstS, 16, 32)
-- 
2.43.0


From e3b3081f02b80fc214b08cb8b4de019c9891395a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:07:01 +0000
Subject: [PATCH 040/139] fix: languages without orthography in the inclusion
 of language sets

---
 fontconfig/lang.go | 13 ++++---------
 1 file changed, 4 insertions(+), 9 deletions(-)

diff --git a/fontconfig/lang.go b/fontconfig/lang.go
index a2adc44..15f825e 100644
--- a/fontconfig/lang.go
+++ b/fontconfig/lang.go
@@ -372,13 +372,12 @@ func (ls Langset) containsLang(lang string) bool {
 		}
 	}
 
-	var extra string
-	for extra = range ls.extra {
+	for extra := range ls.extra {
 		if langContains(extra, lang) {
-			break
+			return true
 		}
 	}
-	return extra != ""
+	return false
 }
 
 // return true if lsa contains every language in lsb
@@ -400,18 +399,14 @@ func (lsa Langset) includes(lsb Langset) bool {
 			}
 		}
 	}
-	var extra string
 	for extra := range lsb.extra {
 		if !lsa.containsLang(extra) {
 			if debugMode {
 				fmt.Printf("\tMissing string %s\n", extra)
 			}
-			break
+			return false
 		}
 	}
-	if extra != "" {
-		return false
-	}
 	return true
 }
 
-- 
2.43.0


From 9c2639f9353104163aa1bf4f6420de21699c0c9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:07:02 +0000
Subject: [PATCH 041/139] fix: an empty text is an empty language set

---
 fontconfig/lang.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/fontconfig/lang.go b/fontconfig/lang.go
index 15f825e..a3d494f 100644
--- a/fontconfig/lang.go
+++ b/fontconfig/lang.go
@@ -416,6 +416,9 @@ func (lsa Langset) includes(lsb Langset) bool {
 func NewLangset(str string) Langset {
 	var ls Langset
 	for _, lang := range strings.Split(str, "|") {
+		if lang == "" { // ignore an empty item
+			continue
+		}
 		ls.add(lang)
 	}
 	return ls
-- 
2.43.0


From 3a0b5484cdedc6f327bba4bc8e18f5e8d78df752 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:07:02 +0000
Subject: [PATCH 042/139] fix: the hash of a language set must separate the
 extra languages

---
 fontconfig/lang.go | 18 ++++++++++--------
 1 file changed, 10 insertions(+), 8 deletions(-)

diff --git a/fontconfig/lang.go b/fontconfig/lang.go
index a3d494f..e5b2cbb 100644
--- a/fontconfig/lang.go
+++ b/fontconfig/lang.go
@@ -44,15 +44,19 @@ func (l Langset) hash() []byte {
 	for i, v := range l.page {
 		binary.BigEndian.PutUint32(out[4*i:], v)
 	}
-	extra := make([]string, len(l.extra))
+	for _, s := range l.sortedExtra() {
+		out = append(append(out, s...), 0) // keep the languages separated
+	}
+	return out
+}
+
+func (l Langset) sortedExtra() []string {
+	extra := make([]string, 0, len(l.extra))
 	for ex := range l.extra {
 		extra = append(extra, ex)
 	}
 	sort.Strings(extra)
-	for _, s := range extra {
-		out = append(out, s...)
-	}
-	return out
+	return extra
 }
 
 func newCharSetFromLang(lang string) *Charset {
@@ -316,9 +320,7 @@ func (ls Langset) String() string {
 		}
 	}
 
-	for extra := range ls.extra {
-		chunks = append(chunks, extra)
-	}
+	chunks = append(chunks, ls.sortedExtra()...)
 	return strings.Join(chunks, "|")
 }
 
-- 
2.43.0


From 431c258326a9ff7d34b93f26b3916f89ba328a8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:07:03 +0000
Subject: [PATCH 043/139] fix: normalization of the locales with a territory
 and of the C locale

---
 fontconfig/lang.go | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/fontconfig/lang.go b/fontconfig/lang.go
index e5b2cbb..ada0569 100644
--- a/fontconfig/lang.go
+++ b/fontconfig/lang.go
@@ -87,7 +87,7 @@ func normalizeLang(lang string) string {
 
 	lang = strings.ToLower(lang)
 	switch lang {
-	case "c", "c.utf-8, c.utf8", "posix":
+	case "c", "c.utf-8", "c.utf8", "posix":
 		return "en"
 	}
 
@@ -148,9 +148,10 @@ func normalizeLang(lang string) string {
 		tm += "@" + modifier
 	}
 	if territory != "" {
-		if findLangIndex(lang+"_"+tm) < 0 {
+		// the territory is separated by - in the orthographies
+		if findLangIndex(lang+"-"+tm) < 0 {
 		} else {
-			return lang + "_" + tm
+			return lang + "-" + tm
 		}
 	}
 	if modifier != "" {
-- 
2.43.0


From c458f9a8ed240809c7aeb219ec4d40934c4e0427 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:07:03 +0000
Subject: [PATCH 044/139] fix: order of the environment variables giving the
 default languages

---
 fontconfig/fontconfig.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/fontconfig/fontconfig.go b/fontconfig/fontconfig.go
index 41a1ad0..6278008 100644
--- a/fontconfig/fontconfig.go
+++ b/fontconfig/fontconfig.go
@@ -270,7 +270,7 @@ func getDefaultLangs() strSet {
 
 	defaultLangs = make(strSet)
 
-	langs := os.Getenv("LANG")
+	langs := os.Getenv("FC_LANG")
 	if langs == "" {
 		langs = os.Getenv("LC_ALL")
 	}
-- 
2.43.0


From 8410f629f86e0d27c046e9788864080bc75f6310 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:09:45 +0000
Subject: [PATCH 045/139] fix: a language without territory belongs to its
 family of languages

---
 fontconfig/lang/fc-lang.go | 7 +++++++
 fontconfig/lang_table.go   | 2 +-
 2 files changed, 8 insertions(+), 1 deletion(-)

diff --git a/fontconfig/lang/fc-lang.go b/fontconfig/lang/fc-lang.go
index a2730d2..3aac035 100755
--- a/fontconfig/lang/fc-lang.go
+++ b/fontconfig/lang/fc-lang.go
@@ -254,6 +254,13 @@ func generateLangTable(output string) {
 		}
 	}
 
+	// the language without territory belongs to its family
+	for i, fn := range sortedKeys {
+		if _, has := langCountrySets[langs[i]]; has {
+			langCountrySets[langs[i]] = append(langCountrySets[langs[i]], orthEntries[fn])
+		}
+	}
+
 	// ----------------------------------- output -----------------------------------
 
 	fmt.Fprintln(outputFile, "package fontconfig")
diff --git a/fontconfig/lang_table.go b/fontconfig/lang_table.go
index 59f9d86..c735444 100644
--- a/fontconfig/lang_table.go
+++ b/fontconfig/lang_table.go
@@ -3645,7 +3645,7 @@ var fcLangCountrySets = [][langPageSize]uint32{
 	{0x00000000, 0x00000000, 0x00000000, 0x00000000, 0x00000000, 0x00000000, 0x00000003, 0x00000000, 0x00000000}, /* ber */
 	{0x00000000, 0x00000000, 0x00c00000, 0x00000000, 0x00000000, 0x00000000, 0x000c0000, 0x00000000, 0x00000000}, /* ku */
 	{0x00000000, 0x00000000, 0x00000000, 0x00000100, 0x00000000, 0x00000000, 0x01000000, 0x00000000, 0x00000000}, /* mn */
-	{0x00000000, 0x00000000, 0x00000000, 0x00000000, 0x00000000, 0x00000000, 0x40000000, 0x00000000, 0x00000000}, /* pa */
+	{0x00000000, 0x00000000, 0x00000000, 0x04000000, 0x00000000, 0x00000000, 0x40000000, 0x00000000, 0x00000000}, /* pa */
 	{0x00000000, 0x00000000, 0x00000000, 0x00000000, 0x00000000, 0x00000000, 0x80000000, 0x00000001, 0x00000000}, /* pap */
 	{0x00000000, 0x00000000, 0x00000000, 0x30000000, 0x00000000, 0x00000000, 0x00000000, 0x00000000, 0x00000000}, /* ps */
 	{0x00000000, 0x00000000, 0x00000000, 0x00000000, 0x60000000, 0x00000000, 0x00000000, 0x00000000, 0x00000000}, /* ti */
-- 
2.43.0


From 452493ba63e42a643bc94f8b6fd892938a3da5d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:15:24 +0000
Subject: [PATCH 046/139] fix: the default languages must keep their order of
 preference

---
 fontconfig/fontconfig.go    | 18 ++++++------------
 fontconfig/lang.go          | 19 ++++++++++---------
 fontconfig/list.go          |  8 +-------
 fontconfig/substitutions.go |  2 +-
 4 files changed, 18 insertions(+), 29 deletions(-)

diff --git a/fontconfig/fontconfig.go b/fontconfig/fontconfig.go
index 6278008..6539a10 100644
--- a/fontconfig/fontconfig.go
+++ b/fontconfig/fontconfig.go
@@ -252,15 +252,15 @@ func WeightToOT(fcWeight float32) float32 {
 }
 
 var (
-	defaultLangs     strSet
+	defaultLangs     []string
 	defaultLangsLock sync.Mutex
 )
 
-// Returns a string set of the default languages according to the environment variables on the system.
+// Returns the default languages (without duplicates, by order of preference) according to the environment variables on the system.
 // This function looks for them in order of FC_LANG, LC_ALL, LC_CTYPE and LANG then.
 // If there are no valid values in those environment variables, "en" will be set as fallback.
 // Thus, it always returns at least one language.
-func getDefaultLangs() strSet {
+func getDefaultLangs() []string {
 	defaultLangsLock.Lock()
 	defer defaultLangsLock.Unlock()
 
@@ -268,8 +268,6 @@ func getDefaultLangs() strSet {
 		return defaultLangs
 	}
 
-	defaultLangs = make(strSet)
-
 	langs := os.Getenv("FC_LANG")
 	if langs == "" {
 		langs = os.Getenv("LC_ALL")
@@ -280,13 +278,9 @@ func getDefaultLangs() strSet {
 	if langs == "" {
 		langs = os.Getenv("LANG")
 	}
-	if langs != "" {
-		ok := addLangs(defaultLangs, langs)
-		if !ok {
-			defaultLangs["en"] = true
-		}
-	} else {
-		defaultLangs["en"] = true
+	defaultLangs = parseLangs(langs)
+	if len(defaultLangs) == 0 {
+		defaultLangs = []string{"en"}
 	}
 
 	return defaultLangs
diff --git a/fontconfig/lang.go b/fontconfig/lang.go
index ada0569..123e820 100644
--- a/fontconfig/lang.go
+++ b/fontconfig/lang.go
@@ -438,22 +438,23 @@ func (ls Langset) Copy() Langset {
 	return new
 }
 
-// return true it at least one language has been added
-func addLangs(strs strSet, languages string) bool {
-	var ret bool
-	ls := strings.Split(languages, ":")
-	for _, lang := range ls {
+// returns the valid languages of the colon separated list `languages`,
+// without duplicates, in order
+func parseLangs(languages string) []string {
+	var out []string
+	seen := make(strSet)
+	for _, lang := range strings.Split(languages, ":") {
 		if lang == "" { // ignore an empty item
 			continue
 		}
 		normalizedLang := normalizeLang(lang)
-		if normalizedLang != "" {
-			strs[normalizedLang] = true
-			ret = true
+		if normalizedLang != "" && !seen[normalizedLang] {
+			seen[normalizedLang] = true
+			out = append(out, normalizedLang)
 		}
 	}
 
-	return ret
+	return out
 }
 
 // Keep Han languages separated by eliminating languages that the codePageRange bits says aren't supported
diff --git a/fontconfig/list.go b/fontconfig/list.go
index d7273d6..0c3c81b 100644
--- a/fontconfig/list.go
+++ b/fontconfig/list.go
@@ -131,13 +131,7 @@ func listAppend(table map[string]Pattern, font Pattern, os []Object, lang string
 	table[hash] = pattern
 }
 
-func getDefaultLang() string {
-	langs := getDefaultLangs()
-	for s := range langs {
-		return s
-	}
-	return ""
-}
+func getDefaultLang() string { return getDefaultLangs()[0] }
 
 // List selects fonts matching `p` (all if p is empty), creates patterns from those fonts containing
 // only the objects in `objs` and returns the set of unique such patterns.
diff --git a/fontconfig/substitutions.go b/fontconfig/substitutions.go
index b44b32d..d18edb0 100644
--- a/fontconfig/substitutions.go
+++ b/fontconfig/substitutions.go
@@ -397,7 +397,7 @@ func substituteLang(p Pattern) {
 	var lsund Langset
 	lsund.add("und")
 
-	for lang := range strs {
+	for _, lang := range strs {
 		for _, ll := range p.getVals(LANG) {
 			vvL := ll.Value
 
-- 
2.43.0


From 6d07a74e1592a6a89556093e17a9a1504059d1b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:24:05 +0000
Subject: [PATCH 047/139] fix: the hash of a pattern must separate its values
 and their types

---
 fontconfig/values.go | 21 +++++++++++++++++----
 1 file changed, 17 insertions(+), 4 deletions(-)

diff --git a/fontconfig/values.go b/fontconfig/values.go
index fe957ab..18891c3 100644
--- a/fontconfig/values.go
+++ b/fontconfig/values.go
@@ -1,6 +1,7 @@
 package fontconfig
 
 import (
+	"encoding/binary"
 	"fmt"
 	"io"
 	"log"
@@ -278,11 +279,17 @@ func (v valueElt) String() string {
 	return fmt.Sprintf("%v (%s)", v.Value, v.Binding)
 }
 
+// the hash starts by the kind of the value: values with
+// different types may have the same string representation
 func (v valueElt) hash() []byte {
 	if withHash, ok := v.Value.(hasher); ok {
-		return withHash.hash()
+		return append([]byte(fmt.Sprintf("%T ", v.Value)), withHash.hash()...)
 	}
-	return []byte(fmt.Sprintf("%v", v.Value))
+	kind := fmt.Sprintf("%T", v.Value)
+	if _, ok := v.Value.(Int); ok { // integers and floats are compared as numbers
+		kind = fmt.Sprintf("%T", Float(0))
+	}
+	return []byte(fmt.Sprintf("%s %v", kind, v.Value))
 }
 
 func (v valueElt) asGoSource() string {
@@ -313,9 +320,15 @@ func (b valueBinding) String() string {
 type valueList []valueElt
 
 func (vs valueList) Hash() []byte {
-	var hash []byte
+	var (
+		hash []byte
+		buf  [4]byte
+	)
 	for _, v := range vs {
-		hash = append(hash, v.hash()...)
+		// to make the hash unique, we add the length of each value
+		tmp := v.hash()
+		binary.BigEndian.PutUint32(buf[:], uint32(len(tmp)))
+		hash = append(append(hash, buf[:]...), tmp...)
 	}
 	return hash
 }
-- 
2.43.0


From 4613b91143f09ece181ed6f1583ed50b5b16aa86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:25:11 +0000
Subject: [PATCH 048/139] fix: the fonts listed must be in a deterministic
 order

---
 fontconfig/list.go | 23 +++++++++++------------
 1 file changed, 11 insertions(+), 12 deletions(-)

diff --git a/fontconfig/list.go b/fontconfig/list.go
index 0c3c81b..ac8194c 100644
--- a/fontconfig/list.go
+++ b/fontconfig/list.go
@@ -90,16 +90,18 @@ func (font Pattern) getDefaultObjectLangIndex(object Object, lang string) int {
 	return 0
 }
 
-func listAppend(table map[string]Pattern, font Pattern, os []Object, lang string) {
+// add to `set` the restriction of `font` to the objects `os`, if it is not already in `table`
+func listAppend(set Fontset, table strSet, font Pattern, os []Object, lang string) Fontset {
 	familyidx := -1
 	defidx := 0
 	fullnameidx := -1
 	styleidx := -1
 
 	hash := patternHash(font, os)
-	if _, has := table[hash]; has {
-		return
+	if table[hash] {
+		return set
 	}
+	table[hash] = true
 
 	pattern := NewPattern()
 	for _, obj := range os {
@@ -128,16 +130,18 @@ func listAppend(table map[string]Pattern, font Pattern, os []Object, lang string
 			pattern.Add(obj, v.Value, defidx != idx)
 		}
 	}
-	table[hash] = pattern
+	return append(set, pattern)
 }
 
 func getDefaultLang() string { return getDefaultLangs()[0] }
 
 // List selects fonts matching `p` (all if p is empty), creates patterns from those fonts containing
-// only the objects in `objs` and returns the set of unique such patterns.
+// only the objects in `objs` and returns the set of unique such patterns,
+// in the order of `set`.
 // If no objects are specified, default to all builtin objects.
 func (set Fontset) List(p Pattern, objs ...Object) Fontset {
-	table := make(map[string]Pattern)
+	table := make(strSet)
+	ret := make(Fontset, 0)
 
 	if len(objs) == 0 { // default to all objects
 		for i := Object(1); i < FirstCustomObject; i++ {
@@ -152,14 +156,9 @@ func (set Fontset) List(p Pattern, objs ...Object) Fontset {
 			if res != ResultMatch {
 				lang = getDefaultLang()
 			}
-			listAppend(table, font, objs, lang)
+			ret = listAppend(ret, table, font, objs, lang)
 		}
 	}
 
-	// Walk the hash table and build a font set
-	ret := make(Fontset, 0, len(table))
-	for _, font := range table {
-		ret = append(ret, font)
-	}
 	return ret
 }
-- 
2.43.0


From b109146c9e2b8fa804e2d0f3f22dfad05fe9d915 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:26:18 +0000
Subject: [PATCH 049/139] fix: the English style must be searched from the
 first style

---
 fontconfig/pattern.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/fontconfig/pattern.go b/fontconfig/pattern.go
index 681ce09..69f1d95 100644
--- a/fontconfig/pattern.go
+++ b/fontconfig/pattern.go
@@ -336,7 +336,7 @@ func (pat Pattern) addFullname() bool {
 		return false
 	}
 	family = strings.TrimRightFunc(family, unicode.IsSpace)
-	lang = ""
+	n = 0
 	lang, res = pat.getAtString(STYLELANG, n)
 	for ; res == ResultMatch; lang, res = pat.getAtString(STYLELANG, n) {
 		if lang == "en" {
-- 
2.43.0


From 8c31d5b04fc646619a90ff6d10f05f3736c176d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:26:25 +0000
Subject: [PATCH 050/139] fix: the size must be computed from integer pixel
 sizes as well

---
 fontconfig/pattern.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/fontconfig/pattern.go b/fontconfig/pattern.go
index 69f1d95..dc3b912 100644
--- a/fontconfig/pattern.go
+++ b/fontconfig/pattern.go
@@ -480,8 +480,8 @@ func (pattern Pattern) SubstituteDefault() {
 		pixelsize *= dpi / 72.0
 		pattern.AddFloat(PIXEL_SIZE, pixelsize)
 	} else {
-		sizeF, _ := pixelSize[0].Value.(Float)
-		size = float32(sizeF) / dpi * 72.0 / scale
+		sizeF, _ := pattern.GetFloat(PIXEL_SIZE) // integers are accepted
+		size = sizeF / dpi * 72.0 / scale
 	}
 	pattern.Del(SIZE)
 	pattern.AddFloat(SIZE, size)
-- 
2.43.0


From c80541680e08054927b17810d323f6ca0daad7ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:26:27 +0000
Subject: [PATCH 051/139] fix: globs must match complete paths, without
 infinite recursion

---
 fontconfig/config.go |  3 ++-
 fontconfig/match.go  | 19 +++++--------------
 2 files changed, 7 insertions(+), 15 deletions(-)

diff --git a/fontconfig/config.go b/fontconfig/config.go
index 2b36b1a..c7ded70 100644
--- a/fontconfig/config.go
+++ b/fontconfig/config.go
@@ -280,7 +280,8 @@ func (config *Config) patternsAdd(pattern Pattern, accept bool) {
 func (config *Config) acceptFilename(filename string) bool {
 	globsMatch := func(globs strSet, name string) bool {
 		for glob := range globs {
-			if ok, _ := filepath.Match(glob, name); ok {
+			// '*' also matches the path separators
+			if strGlobMatch(glob, name) {
 				return true
 			}
 		}
diff --git a/fontconfig/match.go b/fontconfig/match.go
index 9ed2872..801a4cf 100644
--- a/fontconfig/match.go
+++ b/fontconfig/match.go
@@ -307,6 +307,8 @@ func compareSize(v1, v2 Value) (Value, float32) {
 	return bestValue, 0.0
 }
 
+// shell-style matching of the complete string `st`, where
+// '*' matches any sequence of characters and '?' one character
 func strGlobMatch(glob, st string) bool {
 	var str int // index in st
 	for i, c := range []byte(glob) {
@@ -316,21 +318,10 @@ func strGlobMatch(glob, st string) bool {
 			if i == len(glob)-1 {
 				return true
 			}
-			// short circuit another common case
-			if i < len(glob)-1 && glob[i+1] == '*' {
-
-				l1 := len(st) - str
-				l2 := len(glob)
-				if l1 < l2 {
-					return false
-				}
-				str += (l1 - l2)
-			}
-			for str < len(st) {
-				if strGlobMatch(glob, st[str:]) {
+			for ; str <= len(st); str++ {
+				if strGlobMatch(glob[i+1:], st[str:]) {
 					return true
 				}
-				str++
 			}
 			return false
 		case '?':
@@ -339,7 +330,7 @@ func strGlobMatch(glob, st string) bool {
 			}
 			str++
 		default:
-			if st[str] != c {
+			if str == len(st) || st[str] != c {
 				return false
 			}
 			str++
-- 
2.43.0


From bfc9a7db3c7706cdad13d7e0341046fd32e693fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:26:29 +0000
Subject: [PATCH 052/139] fix: the fonts of a scanned resource must be filtered

---
 fontconfig/config.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/fontconfig/config.go b/fontconfig/config.go
index c7ded70..1bf8251 100644
--- a/fontconfig/config.go
+++ b/fontconfig/config.go
@@ -193,7 +193,7 @@ func (config *Config) ScanFontRessource(content fonts.Resource, contentID string
 			out = append(out, f)
 		}
 	}
-	return fonts, nil
+	return out, nil
 }
 
 // Recursively scan a directory and build the font patterns,
-- 
2.43.0


From ef980f3ede6272a902918d788b873ad904c0e637 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:56:59 +0000
Subject: [PATCH 053/139] fix: edits must keep the position of the matching
 value

---
 fontconfig/pattern.go       |  5 +++--
 fontconfig/substitutions.go | 22 +++++++++++++++-------
 2 files changed, 18 insertions(+), 9 deletions(-)

diff --git a/fontconfig/pattern.go b/fontconfig/pattern.go
index dc3b912..7a7d9e1 100644
--- a/fontconfig/pattern.go
+++ b/fontconfig/pattern.go
@@ -381,13 +381,14 @@ func BuildPattern(elements ...PatternElement) Pattern {
 	return p
 }
 
-func (p Pattern) addWithTable(object Object, list valueList, append bool, table *familyTable) {
+// returns false if the values are not valid for `object`
+func (p Pattern) addWithTable(object Object, list valueList, append bool, table *familyTable) bool {
 	e := p[object]
 	if e == nil {
 		e = &valueList{}
 		p[object] = e
 	}
-	e.insert(-1, append, list, object, table)
+	return e.insert(-1, append, list, object, table)
 }
 
 // Delete all values associated with a field
diff --git a/fontconfig/substitutions.go b/fontconfig/substitutions.go
index d18edb0..7a3264e 100644
--- a/fontconfig/substitutions.go
+++ b/fontconfig/substitutions.go
@@ -116,14 +116,16 @@ func (r ruleEdit) edit(selectedKind matchKind, p, pPat Pattern, table *familyTab
 			thisValue := valuePos[object]
 
 			// Append the newList list of values after the current value
-			targetList.insert(thisValue, true, l, object, table)
+			inserted := targetList.insert(thisValue, true, l, object, table)
 
 			//  Delete the marked value
-			if thisValue != -1 {
-				targetList.del(thisValue, object, table)
-			}
+			targetList.del(thisValue, object, table)
 
-			// Adjust a pointer into the value list to ensure future edits occur at the same place
+			// The first new value now has the position of the marked value,
+			// ensuring that future edits occur at the same place
+			if !inserted || len(l) == 0 {
+				valuePos[object] = -1
+			}
 			break
 		}
 		fallthrough
@@ -135,12 +137,16 @@ func (r ruleEdit) edit(selectedKind matchKind, p, pPat Pattern, table *familyTab
 		valuePos[object] = -1
 	case opPrepend:
 		if valuePos[object] != -1 {
-			targetList.insert(valuePos[object], false, l, object, table)
+			if targetList.insert(valuePos[object], false, l, object, table) {
+				valuePos[object] += len(l) // keep the position of the matching value
+			}
 			break
 		}
 		fallthrough
 	case opPrependFirst:
-		p.addWithTable(object, l, false, table)
+		if p.addWithTable(object, l, false, table) && valuePos[object] != -1 {
+			valuePos[object] += len(l)
+		}
 	case opAppend:
 		if valuePos[object] != -1 {
 			targetList.insert(valuePos[object], true, l, object, table)
@@ -152,11 +158,13 @@ func (r ruleEdit) edit(selectedKind matchKind, p, pPat Pattern, table *familyTab
 	case opDelete:
 		if valuePos[object] != -1 {
 			targetList.del(valuePos[object], object, table)
+			valuePos[object] = -1
 			break
 		}
 		fallthrough
 	case opDeleteAll:
 		p.delWithTable(object, table)
+		valuePos[object] = -1
 	}
 	// Now go through the pattern and eliminate any properties without data
 	p.canon(object)
-- 
2.43.0


From 903ac32198e022705808b46589bf92c3b269da1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:01 +0000
Subject: [PATCH 054/139] fix: the table of families must follow the edits

---
 fontconfig/substitutions.go | 19 +++++++++----------
 1 file changed, 9 insertions(+), 10 deletions(-)

diff --git a/fontconfig/substitutions.go b/fontconfig/substitutions.go
index 7a3264e..795e44b 100644
--- a/fontconfig/substitutions.go
+++ b/fontconfig/substitutions.go
@@ -43,11 +43,11 @@ func (test ruleTest) copyT() ruleTest {
 }
 
 // Check the tests to see if they all match the pattern
-// if keep is false, the rule is not matched
-func (r ruleTest) match(selectedKind matchKind, p, pPat Pattern, data familyTable,
-	valuePos []int, targets []*valueList, tst []ruleTest) (table *familyTable, keep bool) {
+// if it returns false, the rule is not matched
+// `table` contains the families of `p`
+func (r ruleTest) match(selectedKind matchKind, p, pPat Pattern, table *familyTable,
+	valuePos []int, targets []*valueList, tst []ruleTest) bool {
 	m := p
-	table = &data
 	if selectedKind == MatchResult && r.kind == MatchQuery {
 		m = pPat
 		table = nil
@@ -63,9 +63,9 @@ func (r ruleTest) match(selectedKind matchKind, p, pPat Pattern, data familyTabl
 	if e == nil {
 		if r.qual == qualAll {
 			valuePos[object] = -1
-			return table, true
+			return true
 		}
-		return table, false
+		return false
 	}
 	// Check to see if there is a match, mark the location to apply match-relative edits
 	vlIndex := matchValueList(m, pPat, selectedKind, r, *e, table)
@@ -75,9 +75,9 @@ func (r ruleTest) match(selectedKind matchKind, p, pPat Pattern, data familyTabl
 	}
 	if vlIndex == -1 || (r.qual == qualFirst && vlIndex != 0) ||
 		(r.qual == qualNotFirst && vlIndex == 0) {
-		return table, false
+		return false
 	}
-	return table, true
+	return true
 }
 
 type ruleEdit struct {
@@ -480,8 +480,7 @@ func (config *Config) Substitute(p, testPattern Pattern, kind matchKind) {
 				if debugMode {
 					fmt.Println("\t\ttest for substitute", test)
 				}
-				var keep bool
-				table, keep = test.match(kind, p, testPattern, data, valuePos, targets, tst)
+				keep := test.match(kind, p, testPattern, table, valuePos, targets, tst)
 				if !keep {
 					if debugMode {
 						fmt.Println("\t\t-> dont pass")
-- 
2.43.0


From 1f232120a52a7e84bf98624dfbc67176a9857f99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:02 +0000
Subject: [PATCH 055/139] fix: testing a family against another type must not
 panic

---
 fontconfig/substitutions.go | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/fontconfig/substitutions.go b/fontconfig/substitutions.go
index 795e44b..f9d2163 100644
--- a/fontconfig/substitutions.go
+++ b/fontconfig/substitutions.go
@@ -363,17 +363,19 @@ func matchValueList(p, pPat Pattern, kind matchKind,
 			e = nil
 		}
 
-		if t.object == FAMILY && table != nil {
+		// the table only applies to strings: the value may be missing or have an other type
+		family, isString := value.(String)
+		if t.object == FAMILY && table != nil && isString {
 			op := t.op.getOp()
 			if op == opEqual || op == opListing {
-				if !table.lookup(t.op, value.(String)) {
+				if !table.lookup(t.op, family) {
 					ret = -1
 					continue
 				}
 			}
 			if op == opNotEqual && t.qual == qualAll {
 				ret = -1
-				if !table.lookup(t.op, value.(String)) {
+				if !table.lookup(t.op, family) {
 					ret = 0
 				}
 				continue
-- 
2.43.0


From 40bd58d47101153ade56a0fd9c2544a9b0146c81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:03 +0000
Subject: [PATCH 056/139] fix: large integers must be compared exactly

---
 fontconfig/expr.go | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/fontconfig/expr.go b/fontconfig/expr.go
index b623134..82ca44a 100644
--- a/fontconfig/expr.go
+++ b/fontconfig/expr.go
@@ -596,8 +596,13 @@ func compareValue(leftO Value, op opKind, rightO Value) bool {
 
 	// to avoid checking for type equality we begin by promoting
 	// and we will check later in the type switch
-	leftO = promote(leftO, rightO)
-	rightO = promote(rightO, leftO)
+	// two integers are compared as is: floats can't represent all of them
+	_, leftInt := leftO.(Int)
+	_, rightInt := rightO.(Int)
+	if !(leftInt && rightInt) {
+		leftO = promote(leftO, rightO)
+		rightO = promote(rightO, leftO)
+	}
 
 	switch l := leftO.(type) {
 	case Int:
-- 
2.43.0


From 7b913e88f40b3b593b9cbe3d51804ff461d8d530 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:04 +0000
Subject: [PATCH 057/139] fix: or and and must give booleans

---
 fontconfig/expr.go | 18 +++++++++++-------
 1 file changed, 11 insertions(+), 7 deletions(-)

diff --git a/fontconfig/expr.go b/fontconfig/expr.go
index 82ca44a..d857236 100644
--- a/fontconfig/expr.go
+++ b/fontconfig/expr.go
@@ -278,6 +278,13 @@ func (expr expression) String() string {
 	}
 }
 
+func newBool(b bool) Bool {
+	if b {
+		return True
+	}
+	return False
+}
+
 func (e *expression) evaluate(result, query Pattern, kind matchKind) Value {
 	var v Value
 	op := e.op.getOp()
@@ -338,10 +345,7 @@ func (e *expression) evaluate(result, query Pattern, kind matchKind) Value {
 		vl := tree.left.evaluate(result, query, kind)
 		vr := tree.right.evaluate(result, query, kind)
 		cp := compareValue(vl, e.op, vr)
-		v = False
-		if cp {
-			v = True
-		}
+		v = newBool(cp)
 	case opOr, opAnd, opPlus, opMinus, opTimes, opDivide:
 		tree := e.u.(exprTree)
 		vl := tree.left.evaluate(result, query, kind)
@@ -375,9 +379,9 @@ func (e *expression) evaluate(result, query Pattern, kind matchKind) Value {
 			}
 			switch op {
 			case opOr:
-				v = vle | vre
+				v = newBool(vle != False || vre != False)
 			case opAnd:
-				v = vle & vre
+				v = newBool(vle != False && vre != False)
 			}
 		case String:
 			vre, sameType := vre.(String)
@@ -424,7 +428,7 @@ func (e *expression) evaluate(result, query Pattern, kind matchKind) Value {
 		tree := e.u.(exprTree)
 		vl := tree.left.evaluate(result, query, kind)
 		if b, ok := vl.(Bool); ok {
-			v = 1 - b&1
+			v = newBool(b == False)
 		}
 	case opFloor, opCeil, opRound, opTrunc:
 		tree := e.u.(exprTree)
-- 
2.43.0


From a35f69d3bbd9d56be386d424e662b990c496edb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:06 +0000
Subject: [PATCH 058/139] fix: results too large for an integer must remain
 floats

---
 fontconfig/expr.go | 20 ++++++++++++++------
 1 file changed, 14 insertions(+), 6 deletions(-)

diff --git a/fontconfig/expr.go b/fontconfig/expr.go
index d857236..be9535a 100644
--- a/fontconfig/expr.go
+++ b/fontconfig/expr.go
@@ -285,6 +285,14 @@ func newBool(b bool) Bool {
 	return False
 }
 
+// convert `f` to an integer, if possible without loss
+func floatAsInt(f float64) Value {
+	if f == math.Trunc(f) && math.MinInt32 <= f && f <= math.MaxInt32 {
+		return Int(f)
+	}
+	return Float(f)
+}
+
 func (e *expression) evaluate(result, query Pattern, kind matchKind) Value {
 	var v Value
 	op := e.op.getOp()
@@ -369,8 +377,8 @@ func (e *expression) evaluate(result, query Pattern, kind matchKind) Value {
 			case opDivide:
 				v = vle / vre
 			}
-			if vf, ok := v.(Float); ok && vf == Float(int(vf)) {
-				v = Int(vf)
+			if vf, ok := v.(Float); ok {
+				v = floatAsInt(float64(vf))
 			}
 		case Bool:
 			vre, sameType := vre.(Bool)
@@ -439,13 +447,13 @@ func (e *expression) evaluate(result, query Pattern, kind matchKind) Value {
 		case Float:
 			switch op {
 			case opFloor:
-				v = Int(math.Floor(float64(vl)))
+				v = floatAsInt(math.Floor(float64(vl)))
 			case opCeil:
-				v = Int(math.Ceil(float64(vl)))
+				v = floatAsInt(math.Ceil(float64(vl)))
 			case opRound:
-				v = Int(math.Round(float64(vl)))
+				v = floatAsInt(math.Round(float64(vl)))
 			case opTrunc:
-				v = Int(math.Trunc(float64(vl)))
+				v = floatAsInt(math.Trunc(float64(vl)))
 			}
 		}
 	}
-- 
2.43.0


From 558a6d3ebdabe010feb423b5e50e0cbdc76ea574 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:55 +0000
Subject: [PATCH 059/139] fix: families must be looked up by name when matching

---
 fontconfig/match.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/fontconfig/match.go b/fontconfig/match.go
index 801a4cf..65d634c 100644
--- a/fontconfig/match.go
+++ b/fontconfig/match.go
@@ -587,7 +587,8 @@ func (pat Pattern) newCompareData() compareData {
 
 	elt := pat.getVals(FAMILY)
 	for i, l := range elt {
-		key := string(l.hash()) // l must have type string, but we are cautious
+		name, _ := l.Value.(String) // should be string, but we are cautious
+		key := string(name)
 		e, ok := table.lookup(key)
 		if !ok {
 			e = new(familyEntry)
-- 
2.43.0


From 5d254a0ec5abdf327e7a8a61d7df1231ec6e99ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:57 +0000
Subject: [PATCH 060/139] fix: fonts with the same score must stay in order

---
 fontconfig/match.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/fontconfig/match.go b/fontconfig/match.go
index 65d634c..1c22657 100644
--- a/fontconfig/match.go
+++ b/fontconfig/match.go
@@ -874,7 +874,7 @@ func (set Fontset) Sort(p Pattern, trim bool) (Fontset, Charset) {
 		nodes[i] = newPtr
 	}
 
-	sort.Slice(nodes, func(i, j int) bool { return sortCompare(nodes[i], nodes[j]) })
+	sort.SliceStable(nodes, func(i, j int) bool { return sortCompare(nodes[i], nodes[j]) })
 
 	for _, node := range nodes {
 		satisfies := false
@@ -899,7 +899,7 @@ func (set Fontset) Sort(p Pattern, trim bool) (Fontset, Charset) {
 	}
 
 	// re-sort once the language issues have been settled
-	sort.Slice(nodes, func(i, j int) bool { return sortCompare(nodes[i], nodes[j]) })
+	sort.SliceStable(nodes, func(i, j int) bool { return sortCompare(nodes[i], nodes[j]) })
 
 	return sortWalk(nodes, trim)
 }
-- 
2.43.0


From 83b1082aecd1972e1cc59aad602b475fa706fb55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:58 +0000
Subject: [PATCH 061/139] fix: the union of the coverage must always be
 returned

---
 fontconfig/match.go | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/fontconfig/match.go b/fontconfig/match.go
index 1c22657..c586550 100644
--- a/fontconfig/match.go
+++ b/fontconfig/match.go
@@ -943,13 +943,11 @@ func sortWalk(n []*sortNode, trim bool) (Fontset, Charset) {
 	for i, node := range n {
 		addsChars := false
 
-		// Only fetch node charset if we'd need it
-		if trim {
-			ncs, ok := node.pattern.GetCharset(CHARSET)
-			if !ok {
-				continue
-			}
+		ncs, ok := node.pattern.GetCharset(CHARSET)
+		if ok {
 			addsChars = csp.merge(ncs)
+		} else if trim {
+			continue
 		}
 
 		// If this font isn't a subset of the previous fonts, add it to the list
-- 
2.43.0


From 0e35c2cdb2d4a61ca898df0c73b0f532af381b1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:00 +0000
Subject: [PATCH 062/139] fix: empty names and delimiters in PostScript names
 must be compared

---
 fontconfig/match.go | 23 ++++++++++-------------
 1 file changed, 10 insertions(+), 13 deletions(-)

diff --git a/fontconfig/match.go b/fontconfig/match.go
index c586550..46c9356 100644
--- a/fontconfig/match.go
+++ b/fontconfig/match.go
@@ -90,11 +90,6 @@ func compareFamily(v1, v2 Value) (Value, float32) {
 
 	bestValue := v2
 
-	if toLower(v1String) != toLower(v2String) &&
-		v1String[0] != ' ' && v2String[0] != ' ' {
-		return bestValue, 1.0
-	}
-
 	if ignoreBlanksAndCase(v1String) == ignoreBlanksAndCase(v2String) {
 		return bestValue, 0
 	}
@@ -103,7 +98,9 @@ func compareFamily(v1, v2 Value) (Value, float32) {
 
 var delimReplacer = strings.NewReplacer(" ", "", "-", "")
 
-func matchIgnoreCaseAndDelims(s1, s2 string) int {
+// returns the length of the common prefix, and the length of `s1`,
+// both without case and delimiters
+func matchIgnoreCaseAndDelims(s1, s2 string) (n, length int) {
 	s1, s2 = delimReplacer.Replace(s1), delimReplacer.Replace(s2)
 	s1, s2 = strings.ToLower(s1), strings.ToLower(s2)
 	l := len(s1)
@@ -116,7 +113,7 @@ func matchIgnoreCaseAndDelims(s1, s2 string) int {
 			break
 		}
 	}
-	return i
+	return i, len(s1)
 }
 
 func comparePostScript(v1, v2 Value) (Value, float32) {
@@ -125,14 +122,14 @@ func comparePostScript(v1, v2 Value) (Value, float32) {
 
 	bestValue := v2
 
-	if toLower(v1_string) != toLower(v2_string) &&
-		v1_string[0] != ' ' && v2_string[0] != ' ' {
-		return bestValue, 1.0
+	n, length := matchIgnoreCaseAndDelims(v1_string, v2_string)
+	if length == 0 { // an empty name only matches another one
+		if delimReplacer.Replace(v2_string) == "" {
+			return bestValue, 0
+		}
+		return bestValue, 1
 	}
 
-	n := matchIgnoreCaseAndDelims(v1_string, v2_string)
-	length := len(v1_string)
-
 	return bestValue, float32(length-n) / float32(length)
 }
 
-- 
2.43.0


From 4accce3afc6d3fed88f2ecea1140ad4b68150b0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:01 +0000
Subject: [PATCH 063/139] fix: don't care matches both values

---
 fontconfig/match.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/fontconfig/match.go b/fontconfig/match.go
index 46c9356..e99cf57 100644
--- a/fontconfig/match.go
+++ b/fontconfig/match.go
@@ -183,7 +183,7 @@ func compareBool(val1, val2 Value) (Value, float32) {
 		bestValue = v1
 	}
 
-	if v1 == v2 {
+	if v1 == v2 || v1 == DontCare || v2 == DontCare {
 		return bestValue, 0
 	}
 	return bestValue, 1
-- 
2.43.0


From 6b9c31cf2c24bfd85d259f568dd7df200e86ba48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:03 +0000
Subject: [PATCH 064/139] fix: the best value must be found even with small
 distances

---
 fontconfig/match.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/fontconfig/match.go b/fontconfig/match.go
index e99cf57..05f2827 100644
--- a/fontconfig/match.go
+++ b/fontconfig/match.go
@@ -544,8 +544,9 @@ func fdFromPatternList(object Object, match *matcher,
 				pos = k
 			}
 			if weak == strong {
-				// found the best possible match
-				if best < 1000 {
+				// found the best possible match: next values come
+				// after this one in the pattern
+				if best <= float32(j) {
 					goto done
 				}
 			} else if v1.Binding == vbStrong {
-- 
2.43.0


From a59c7086889e35088af557a4e74af1e4381b2a9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:13 +0000
Subject: [PATCH 065/139] fix: unknown types of values must be refused when
 loading a cache

---
 fontconfig/cache.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/fontconfig/cache.go b/fontconfig/cache.go
index 8294d47..d52c197 100644
--- a/fontconfig/cache.go
+++ b/fontconfig/cache.go
@@ -301,6 +301,8 @@ func (v *valueElt) deserializeBin(data []byte) (int, error) {
 		var out Range
 		valueSize, err = out.deserializeBin(data[2:])
 		v.Value = out
+	default:
+		return 0, fmt.Errorf("invalid value type: %d", type_)
 	}
 
 	return 2 + valueSize, err
-- 
2.43.0


From b474251e9b5672ddca3a570dd87f324b574153c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:14 +0000
Subject: [PATCH 066/139] fix: the checksum of a cache must be verified

---
 fontconfig/cache.go | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/fontconfig/cache.go b/fontconfig/cache.go
index d52c197..4272570 100644
--- a/fontconfig/cache.go
+++ b/fontconfig/cache.go
@@ -427,6 +427,15 @@ func LoadFontset(src io.Reader) (Fontset, error) {
 			return nil, fmt.Errorf("invalid fontset: %s", err)
 		}
 	}
+
+	// reach the end of the file, so that its checksum is verified
+	n, err := io.Copy(&buffer, r)
+	if err != nil {
+		return nil, fmt.Errorf("invalid fontset: %s", err)
+	}
+	if n != 0 {
+		return nil, errors.New("invalid fontset: unexpected content after the fonts")
+	}
 	return fs, nil
 }
 
-- 
2.43.0


From 205ddf06118647f4f895d2cf6725826362eaf571 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:15 +0000
Subject: [PATCH 067/139] fix: lists too long for the cache must be refused

---
 fontconfig/cache.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/fontconfig/cache.go b/fontconfig/cache.go
index 4272570..3943243 100644
--- a/fontconfig/cache.go
+++ b/fontconfig/cache.go
@@ -72,6 +72,9 @@ func (p Pattern) serializeBin() ([]byte, error) {
 }
 
 func (l valueList) serializeBin(w io.Writer) error {
+	if len(l) > math.MaxUint16 {
+		return fmt.Errorf("too many values: %d", len(l))
+	}
 	var buf [2]byte
 	binary.BigEndian.PutUint16(buf[:], uint16(len(l)))
 	_, err := w.Write(buf[:])
-- 
2.43.0


From a2805d780967568bc1adaa930134aa8b82c8146f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:16 +0000
Subject: [PATCH 068/139] fix: invalid values must be refused when loading a
 cache

---
 fontconfig/cache.go | 18 +++++++++++++++++-
 1 file changed, 17 insertions(+), 1 deletion(-)

diff --git a/fontconfig/cache.go b/fontconfig/cache.go
index 3943243..501a730 100644
--- a/fontconfig/cache.go
+++ b/fontconfig/cache.go
@@ -202,6 +202,9 @@ func (v *Bool) deserializeBin(data []byte) (int, error) {
 		return 0, errors.New("invalid Bool (EOF)")
 	}
 	*v = Bool(data[0])
+	if *v > DontCare {
+		return 0, fmt.Errorf("invalid Bool: %d", data[0])
+	}
 	return 1, nil
 }
 
@@ -220,6 +223,9 @@ func (v *Charset) deserializeBin(data []byte) (int, error) {
 
 	for i := range v.pageNumbers {
 		v.pageNumbers[i] = binary.BigEndian.Uint16(data[2+charsetRecordSize*i:])
+		if v.pageNumbers[i] > 0x10FF || (i > 0 && v.pageNumbers[i] <= v.pageNumbers[i-1]) {
+			return 0, errors.New("invalid Charset page")
+		}
 		slice := data[2+charsetRecordSize*i+2:]
 		for j := range v.pages[i] {
 			v.pages[i][j] = binary.BigEndian.Uint32(slice[4*j:])
@@ -266,6 +272,9 @@ func (v *valueElt) deserializeBin(data []byte) (int, error) {
 		return 0, errors.New("invalid value (EOF)")
 	}
 	v.Binding = valueBinding(data[0])
+	if v.Binding > vbSame {
+		return 0, fmt.Errorf("invalid binding: %d", data[0])
+	}
 	type_ := data[1]
 	var (
 		valueSize int
@@ -349,7 +358,14 @@ func deserializePatternBin(data []byte) (Pattern, error) {
 		if err != nil {
 			return nil, fmt.Errorf("invalid pattern: %s", err)
 		}
-		(pat)[obj] = &list
+		for _, v := range list {
+			if !obj.hasValidType(v.Value) {
+				return nil, fmt.Errorf("invalid pattern: object %s does not accept value %v", obj, v.Value)
+			}
+		}
+		if len(list) != 0 {
+			(pat)[obj] = &list
+		}
 		offset += read
 	}
 	return pat, nil
-- 
2.43.0


From f48365ee6de39e32e97db51fed8f2af59aef6425 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:33 +0000
Subject: [PATCH 069/139] fix: values at the root of a configuration must not
 panic

---
 fontconfig/xml.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/fontconfig/xml.go b/fontconfig/xml.go
index a18b6ab..5635866 100644
--- a/fontconfig/xml.go
+++ b/fontconfig/xml.go
@@ -292,14 +292,15 @@ func (parser *configParser) text(s []byte) {
 	p.str.Write(s)
 }
 
-// add a value to the previous p element, or discard it
+// add a value to the previous p element, or discard it ; the returned value is never nil
 func (parser *configParser) createVAndPush() *vstack {
 	if len(parser.pstack) >= 2 {
 		ps := &parser.pstack[len(parser.pstack)-2]
 		ps.values = append(ps.values, vstack{})
 		return &ps.values[len(ps.values)-1]
 	}
-	return nil
+	// no parent element : the value is discarded
+	return &vstack{}
 }
 
 func (parse *configParser) startElement(name xml.Name, attr []xml.Attr) error {
-- 
2.43.0


From e79012d18e420ba009f1bea3015354423fb18c60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:35 +0000
Subject: [PATCH 070/139] fix: families inside an expression must not panic

---
 fontconfig/xml.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/fontconfig/xml.go b/fontconfig/xml.go
index 5635866..4e08458 100644
--- a/fontconfig/xml.go
+++ b/fontconfig/xml.go
@@ -667,13 +667,13 @@ func (parser *configParser) popExpr() *expression {
 		return nil
 	}
 	switch vstack.tag {
-	case vstackString, vstackFamily:
+	case vstackString:
 		expr = &expression{op: opString, u: vstack.u}
 	case vstackName:
 		expr = &expression{op: opField, u: vstack.u}
 	case vstackConstant:
 		expr = &expression{op: opConst, u: vstack.u}
-	case vstackPrefer, vstackAccept, vstackDefault:
+	case vstackFamily, vstackPrefer, vstackAccept, vstackDefault:
 		expr = vstack.u.(*expression)
 		vstack.tag = vstackNone
 	case vstackInt:
-- 
2.43.0


From fec9149cbfd6951874e2578944c1008f5978dc1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:37 +0000
Subject: [PATCH 071/139] fix: tests inside an expression must not panic

---
 fontconfig/xml.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/fontconfig/xml.go b/fontconfig/xml.go
index 4e08458..5d76d08 100644
--- a/fontconfig/xml.go
+++ b/fontconfig/xml.go
@@ -690,7 +690,7 @@ func (parser *configParser) popExpr() *expression {
 		expr = &expression{op: opCharSet, u: vstack.u}
 	case vstackLangSet:
 		expr = &expression{op: opLangSet, u: vstack.u}
-	case vstackTest, vstackExpr:
+	case vstackExpr: // tests are not expressions
 		expr = vstack.u.(*expression)
 		vstack.tag = vstackNone
 	}
-- 
2.43.0


From 6625319a86117cd206ef33ffb30aa2b31c3ee92e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:39 +0000
Subject: [PATCH 072/139] fix: conditional expressions must have three operands

---
 fontconfig/xml.go | 16 +++++++++++++++-
 1 file changed, 15 insertions(+), 1 deletion(-)

diff --git a/fontconfig/xml.go b/fontconfig/xml.go
index 5d76d08..3d485c2 100644
--- a/fontconfig/xml.go
+++ b/fontconfig/xml.go
@@ -440,7 +440,7 @@ func (parser *configParser) endElement() error {
 	case elementDivide:
 		parser.parseBinary(opDivide)
 	case elementIf:
-		parser.parseBinary(opQuest)
+		err = parser.parseIf()
 	case elementNot:
 		parser.parseUnary(opNot)
 	case elementFloor:
@@ -731,6 +731,20 @@ func (parser *configParser) parseBinary(op opKind) {
 	}
 }
 
+// The conditional operator has exactly three operands, stored as
+// the tree (condition, (then, else))
+func (parser *configParser) parseIf() error {
+	if n := len(parser.p().values); n != 3 {
+		return parser.error("wrong number %d of elements in if", n)
+	}
+	els, then, cond := parser.popExpr(), parser.popExpr(), parser.popExpr()
+	if els == nil || then == nil || cond == nil {
+		return parser.error("invalid element in if")
+	}
+	parser.pushExpr(vstackExpr, newExprOp(cond, newExprOp(then, els, opQuest), opQuest))
+	return nil
+}
+
 // This builds a a unary operator, it consumes only a single operand
 func (parser *configParser) parseUnary(op opKind) {
 	operand := parser.popExpr()
-- 
2.43.0


From 3facbc831b1cb22afca46a7904a9caa1db876688 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:41 +0000
Subject: [PATCH 073/139] fix: ranges from an integer to a double must keep
 their first bound

---
 fontconfig/xml.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/fontconfig/xml.go b/fontconfig/xml.go
index 3d485c2..d9993cf 100644
--- a/fontconfig/xml.go
+++ b/fontconfig/xml.go
@@ -887,8 +887,8 @@ func (parser *configParser) parseRange() error {
 				n[i] = int(vstack.u.(Int))
 			}
 		case vstackDouble:
-			if i == 0 && !dflag {
-				d[1] = float32(n[1])
+			if i == 1 && !dflag { // the first bound is an integer
+				d[0] = float32(n[0])
 			}
 			d[i] = float32(vstack.u.(Float))
 			dflag = true
-- 
2.43.0


From 60166109a006135c0f6bf8d86ddcf6c85758f30f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:43 +0000
Subject: [PATCH 074/139] fix: charsets with invalid characters must be refused

---
 fontconfig/xml.go | 18 ++++++++----------
 1 file changed, 8 insertions(+), 10 deletions(-)

diff --git a/fontconfig/xml.go b/fontconfig/xml.go
index d9993cf..aa243c6 100644
--- a/fontconfig/xml.go
+++ b/fontconfig/xml.go
@@ -8,6 +8,7 @@ import (
 	"io"
 	"strconv"
 	"strings"
+	"unicode"
 )
 
 var errOldSyntax = errors.New("element no longer supported")
@@ -927,7 +928,7 @@ func (parser *configParser) parseCharSet() error {
 		switch vstack.tag {
 		case vstackInt:
 			r := rune(vstack.u.(Int))
-			if r > maxCharsetRune {
+			if r < 0 || r > unicode.MaxRune {
 				return parser.error("invalid character: 0x%04x", r)
 			} else {
 				charset.AddChar(r)
@@ -935,15 +936,12 @@ func (parser *configParser) parseCharSet() error {
 			}
 		case vstackRange:
 			ra := vstack.u.(Range)
-			if ra.Begin <= ra.End {
-				for r := rune(ra.Begin); r <= rune(ra.End); r++ {
-					if r > maxCharsetRune {
-						return parser.error("invalid character: 0x%04x", r)
-					} else {
-						charset.AddChar(r)
-						n++
-					}
-				}
+			if ra.Begin < 0 || ra.End > unicode.MaxRune {
+				return parser.error("invalid characters: %v", ra)
+			}
+			for r := rune(ra.Begin); r <= rune(ra.End); r++ {
+				charset.AddChar(r)
+				n++
 			}
 		default:
 			return errors.New("invalid element in charset")
-- 
2.43.0


From 48929ab7ae55c072b4c9dfdc83e4fa52d4601404 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:45 +0000
Subject: [PATCH 075/139] fix: integers overflowing 32 bits must be refused

---
 fontconfig/name.go | 4 +++-
 fontconfig/xml.go  | 2 +-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/fontconfig/name.go b/fontconfig/name.go
index e89b229..5dc2910 100644
--- a/fontconfig/name.go
+++ b/fontconfig/name.go
@@ -403,7 +403,9 @@ func (typeInt) parse(str string, object Object) (Value, error) {
 		return nil, err
 	}
 	if !builtin {
-		v, err = strconv.Atoi(str)
+		var v32 int64
+		v32, err = strconv.ParseInt(str, 10, 32)
+		v = int(v32)
 	}
 	return Int(v), err
 }
diff --git a/fontconfig/xml.go b/fontconfig/xml.go
index aa243c6..a3e8c9f 100644
--- a/fontconfig/xml.go
+++ b/fontconfig/xml.go
@@ -763,7 +763,7 @@ func (parser *configParser) parseInt() error {
 	s := last.str.String()
 	last.str.Reset()
 
-	d, err := strconv.Atoi(s)
+	d, err := strconv.ParseInt(s, 10, 32)
 	if err != nil {
 		return fmt.Errorf("\"%s\": not a valid Int", s)
 	}
-- 
2.43.0


From 996610e0a680d9c691d7546e1ac07969492034c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:47 +0000
Subject: [PATCH 076/139] fix: names with constants or custom objects must be
 parsed

---
 fontconfig/name.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/fontconfig/name.go b/fontconfig/name.go
index 5dc2910..993274b 100644
--- a/fontconfig/name.go
+++ b/fontconfig/name.go
@@ -305,6 +305,9 @@ func (c *Config) parseName(name []byte) (Pattern, error) {
 		if len(save) != 0 {
 			if delim == '=' || delim == '_' {
 				t := c.getRegisterObjectType(save)
+				if t.typeInfo == nil { // custom object
+					t.typeInfo = typeString{}
+				}
 				for {
 					delim, name, save = nameFindNext(name, ":,")
 					v, err := t.typeInfo.parse(save, t.object)
@@ -317,7 +320,7 @@ func (c *Config) parseName(name []byte) (Pattern, error) {
 					}
 				}
 			} else {
-				if co := nameGetConstant(save); c != nil {
+				if co := nameGetConstant(save); co != nil {
 					t := c.getRegisterObjectType(objectNames[co.object])
 
 					switch t.typeInfo.(type) {
-- 
2.43.0


From fd072b6d4d9fc4a229193fea3cb29f2a050be820 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:48 +0000
Subject: [PATCH 077/139] fix: caches of charsets with unusual pages must be
 loaded

---
 fontconfig/cache.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/fontconfig/cache.go b/fontconfig/cache.go
index 501a730..b0e6c51 100644
--- a/fontconfig/cache.go
+++ b/fontconfig/cache.go
@@ -223,7 +223,7 @@ func (v *Charset) deserializeBin(data []byte) (int, error) {
 
 	for i := range v.pageNumbers {
 		v.pageNumbers[i] = binary.BigEndian.Uint16(data[2+charsetRecordSize*i:])
-		if v.pageNumbers[i] > 0x10FF || (i > 0 && v.pageNumbers[i] <= v.pageNumbers[i-1]) {
+		if v.pageNumbers[i] == 0xFFFF || (i > 0 && v.pageNumbers[i] <= v.pageNumbers[i-1]) {
 			return 0, errors.New("invalid Charset page")
 		}
 		slice := data[2+charsetRecordSize*i+2:]
-- 
2.43.0


From 5cc102b36628434bde8e61fb56601dd2be2e4101 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:21 +0000
Subject: [PATCH 078/139] fix: the position of a character must not count the
 characters of its cluster twice

---
 pango/glyphs.go | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/pango/glyphs.go b/pango/glyphs.go
index 56b9f1f..8b7eac9 100644
--- a/pango/glyphs.go
+++ b/pango/glyphs.go
@@ -486,8 +486,7 @@ func (glyphs *GlyphString) indexToXFull(text []rune, analysis *Analysis, index i
 	// Calculate offset of character within cluster.
 	// To come up with accurate answers here, we need to know grapheme
 	// boundaries.
-	clusterChars := endIndex - startIndex
-	clusterOffset := index - startIndex
+	clusterChars, clusterOffset := 0, 0
 
 	for i := startIndex; i < endIndex; i++ {
 		if logAttrs != nil && !logAttrs[i].IsCursorPosition() {
-- 
2.43.0


From 060804ac4e1feef1e7555f51ac5babcef83cf558 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:22 +0000
Subject: [PATCH 079/139] fix: clusters of transformed texts must be relative
 to the paragraph

---
 pango/shape.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pango/shape.go b/pango/shape.go
index 3a06880..c4796bc 100644
--- a/pango/shape.go
+++ b/pango/shape.go
@@ -186,7 +186,7 @@ func (glyphs *GlyphString) harfbuzzShape(analysis *Analysis, paragraphText []run
 					ch = unicode.ToTitle(ch)
 				}
 			}
-			cachedBuffer.AddRune(ch, i)
+			cachedBuffer.AddRune(ch, itemOffset+i)
 		}
 	}
 
-- 
2.43.0


From ffd015a5e74f7cac049d62e65f5c7880428aad95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:23 +0000
Subject: [PATCH 080/139] fix: attributes must not leak into the item which
 follows them

---
 pango/item.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pango/item.go b/pango/item.go
index 87c3982..4b6f8df 100644
--- a/pango/item.go
+++ b/pango/item.go
@@ -140,7 +140,7 @@ func (item *Item) pango_item_apply_attrs(iter *attrIterator) {
 			break
 		}
 
-		if end >= item.Offset {
+		if end > item.Offset {
 			list := iter.getAttributes()
 			for _, data := range list {
 				if !isInList(data) {
-- 
2.43.0


From 8dce0161d64accac2ed18089824bd421bd2e57f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:25 +0000
Subject: [PATCH 081/139] fix: an item which does not fit must not be measured
 as empty when looking for a break

---
 pango/layout.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pango/layout.go b/pango/layout.go
index ed2a53a..635e1cb 100644
--- a/pango/layout.go
+++ b/pango/layout.go
@@ -1471,7 +1471,6 @@ func (layout *Layout) tryAddItemToLine(line *LayoutLine, state *paraBreakState,
 
 	// From here on, we look for a way to break item
 
-	width = 0
 	var (
 		orig_width      = width
 		origExtraWidth  = extraWidth
@@ -1500,6 +1499,7 @@ retryBreak:
 	if noBreakAtEnd {
 		limit--
 	}
+	width = 0
 	for numChars = 0; numChars < limit; numChars++ {
 		extraWidth = layout.find_break_extraWidth(state, numChars)
 
-- 
2.43.0


From 63160a26c1f6893b58eea9dd9513890d4a7fdbe1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:26 +0000
Subject: [PATCH 082/139] fix: white space hangs at the end of every paragraph
 and forced line

---
 pango/layout.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pango/layout.go b/pango/layout.go
index 635e1cb..b6e1821 100644
--- a/pango/layout.go
+++ b/pango/layout.go
@@ -1160,6 +1160,8 @@ func (layout *Layout) ensureDecimal() {
 func (layout *Layout) canBreakAt(offset int, wrap WrapMode) bool {
 	if offset == len(layout.Text) {
 		return true
+	} else if c := layout.Text[offset]; !layout.singleParagraph && (c == '\n' || c == '\r' || c == paragraphSeparator || c == lineSeparator) {
+		return true // end of a paragraph or of a forced line
 	} else if wrap == WRAP_CHAR {
 		return layout.logAttrs[offset].IsCharBreak()
 	} else {
-- 
2.43.0


From 974b70f1acde4d87cfd64b01ab5448a97852a374 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:27 +0000
Subject: [PATCH 083/139] fix: an hyphen must not be added to a run which is
 not at the end of the line

---
 pango/layout.go | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/pango/layout.go b/pango/layout.go
index b6e1821..ddf8bb4 100644
--- a/pango/layout.go
+++ b/pango/layout.go
@@ -1619,15 +1619,17 @@ retryBreak:
 	}
 
 	if forceFit || breakWidth+breakExtraWidth <= state.remainingWidth /* Successfully broke the item */ {
+		if breakNumChars == item.Length {
+			// the line is not broken here yet: the extra width of a break
+			// is not used (see also addMissingHyphen)
+			breakExtraWidth = 0
+		}
 		if state.remainingWidth >= 0 {
 			state.remainingWidth -= breakWidth + breakExtraWidth
 			state.remainingWidth = maxG(state.remainingWidth, 0)
 		}
 
 		if breakNumChars == item.Length {
-			if layout.canBreakAt(state.startOffset+breakNumChars, wrap) && layout.breakNeedsHyphen(state, breakNumChars) {
-				item.Analysis.Flags |= AFNeedHyphen
-			}
 			line.insertRun(state, item, nil, true)
 
 			if debugMode {
-- 
2.43.0


From f33f02c928262b6e0f147bd37663298b08a1c5e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:28 +0000
Subject: [PATCH 084/139] fix: the width of an hyphen depends on the run it is
 added to

---
 pango/layout.go | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/pango/layout.go b/pango/layout.go
index ddf8bb4..c8f258f 100644
--- a/pango/layout.go
+++ b/pango/layout.go
@@ -1270,12 +1270,17 @@ func (state *paraBreakState) ensure_hyphen_width() {
 	}
 }
 
-func (layout *Layout) find_break_extraWidth(state *paraBreakState, pos int) Unit {
+func (layout *Layout) find_break_extraWidth(line *LayoutLine, state *paraBreakState, pos int) Unit {
 	// Check whether to insert a hyphen
 	// or whether we are breaking after one of those
 	// characters that turn into a hyphen,
 	// or after a space.
 	if attr := layout.logAttrs[state.startOffset+pos]; attr.IsBreakInsertsHyphen() {
+		if pos == 0 && line.Runs != nil {
+			// the hyphen is added to the previous run
+			return line.Runs.Data.Item.find_hyphen_width()
+		}
+
 		state.ensure_hyphen_width()
 
 		if attr.IsBreakRemovesPreceding() && pos > 0 {
@@ -1390,6 +1395,7 @@ func (layout *Layout) tryAddItemToLine(line *LayoutLine, state *paraBreakState,
 	if state.glyphs == nil {
 		state.properties = item.getProperties()
 		state.glyphs = line.shapeRun(state, item)
+		state.hyphen_width = -1 // depends on the font of the item
 
 		state.logWidthsOffset = 0
 
@@ -1441,7 +1447,7 @@ func (layout *Layout) tryAddItemToLine(line *LayoutLine, state *paraBreakState,
 			layout.computeLogWidths(state)
 			processingNewItem = false
 		}
-		extraWidth = layout.find_break_extraWidth(state, item.Length)
+		extraWidth = layout.find_break_extraWidth(line, state, item.Length)
 	}
 
 	if (width+extraWidth <= state.remainingWidth || (item.Length == 1 && line.Runs == nil) ||
@@ -1503,7 +1509,7 @@ retryBreak:
 	}
 	width = 0
 	for numChars = 0; numChars < limit; numChars++ {
-		extraWidth = layout.find_break_extraWidth(state, numChars)
+		extraWidth = layout.find_break_extraWidth(line, state, numChars)
 
 		// We don't want to walk the entire item if we can help it, but
 		// we need to keep going at least until we've found a breakpoint
@@ -1559,6 +1565,7 @@ retryBreak:
 					layout.logAttrs[state.startOffset+numChars-1].IsWhite() {
 					extraWidth = -state.logWidths[state.logWidthsOffset+numChars-1]
 				} else if item == newItem && !isLastItem && layout.breakNeedsHyphen(state, numChars) {
+					state.ensure_hyphen_width()
 					extraWidth = state.hyphen_width
 				} else {
 					extraWidth = 0
-- 
2.43.0


From 888095d477095a93f76c490ebd77bd9009d2cef9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:35:19 +0000
Subject: [PATCH 085/139] fix: the cursor must move visually on every line

---
 pango/layout_cursors.go | 201 +++++++++++++++-------------------------
 1 file changed, 74 insertions(+), 127 deletions(-)

diff --git a/pango/layout_cursors.go b/pango/layout_cursors.go
index b89d9eb..59a762e 100644
--- a/pango/layout_cursors.go
+++ b/pango/layout_cursors.go
@@ -47,6 +47,53 @@ func (layout *Layout) GetCursorPos(index int, strongPos, weakPos *Rectangle) {
 		assert(index >= line.StartIndex, "getCursorPos")
 	}
 
+	strongX, weakX := line.cursorsX(index, lineRect.Width)
+
+	if strongPos != nil {
+		strongPos.X = lineRect.X + strongX
+		strongPos.Y = runRect.Y
+		strongPos.Width = 0
+		strongPos.Height = runRect.Height
+	}
+
+	if weakPos != nil {
+		weakPos.X = lineRect.X + weakX
+		weakPos.Y = runRect.Y
+		weakPos.Width = 0
+		weakPos.Height = runRect.Height
+	}
+}
+
+// getCursors returns the positions of the line, including its end, from left to right
+func (line *LayoutLine) getCursors(strong bool) []CursorPos {
+	layout := line.layout
+
+	var lineRect Rectangle
+	line.GetExtents(nil, &lineRect)
+
+	var cursors []CursorPos
+	for j := line.StartIndex; j <= line.StartIndex+line.Length; j++ {
+		if layout.logAttrs[j].IsCursorPosition() {
+			strongX, weakX := line.cursorsX(j, lineRect.Width)
+			if !strong {
+				strongX = weakX
+			}
+
+			cursors = append(cursors, CursorPos{
+				pos: j,
+				x:   strongX,
+			})
+		}
+	}
+
+	sort.SliceStable(cursors, func(i, j int) bool { return cursors[i].x < cursors[j].x })
+
+	return cursors
+}
+
+// cursorsX returns the positions of the strong and weak cursors at `index`, which must be
+// on the line or at its end. They are relative to the left of the line, whose width is `lineWidth`.
+func (line *LayoutLine) cursorsX(index int, lineWidth Unit) (strong, weak Unit) {
 	var (
 		dir1, dir2     Direction
 		level1, level2 fribidi.Level
@@ -63,7 +110,7 @@ func (layout *Layout) GetCursorPos(index int, strongPos, weakPos *Rectangle) {
 		if line.ResolvedDir == DIRECTION_LTR {
 			x1Trailing = 0
 		} else {
-			x1Trailing = Unit(lineRect.Width)
+			x1Trailing = lineWidth
 		}
 	} else {
 		prevIndex := index - 1
@@ -83,7 +130,7 @@ func (layout *Layout) GetCursorPos(index int, strongPos, weakPos *Rectangle) {
 			level2 = 0
 		}
 		if line.ResolvedDir == DIRECTION_LTR {
-			x2 = Unit(lineRect.Width)
+			x2 = lineWidth
 		} else {
 			x2 = 0
 		}
@@ -97,66 +144,10 @@ func (layout *Layout) GetCursorPos(index int, strongPos, weakPos *Rectangle) {
 		}
 	}
 
-	if strongPos != nil {
-		strongPos.X = lineRect.X
-
-		if dir1 == line.ResolvedDir && (dir2 != dir1 || level1 < level2) {
-			strongPos.X += x1Trailing
-		} else {
-			strongPos.X += x2
-		}
-
-		strongPos.Y = runRect.Y
-		strongPos.Width = 0
-		strongPos.Height = runRect.Height
+	if dir1 == line.ResolvedDir && (dir2 != dir1 || level1 < level2) {
+		return x1Trailing, x2
 	}
-
-	if weakPos != nil {
-		weakPos.X = lineRect.X
-
-		if dir1 == line.ResolvedDir && (dir2 != dir1 || level1 < level2) {
-			weakPos.X += x2
-		} else {
-			weakPos.X += x1Trailing
-		}
-
-		weakPos.Y = runRect.Y
-		weakPos.Width = 0
-		weakPos.Height = runRect.Height
-	}
-}
-
-func (line *LayoutLine) getCursors(strong bool) []CursorPos {
-	layout := line.layout
-
-	lineNo, _ := layout.indexToLineX(line.StartIndex+line.Length, false)
-
-	end := line.StartIndex + line.Length
-	line2 := layout.GetLine(lineNo)
-	if line2 == line {
-		end++
-	}
-
-	var pos Rectangle
-	arg1, arg2 := (*Rectangle)(nil), &pos
-	if strong {
-		arg1, arg2 = &pos, (*Rectangle)(nil)
-	}
-	var cursors []CursorPos
-	for j := line.StartIndex; j < end; j++ {
-		if layout.logAttrs[j].IsCursorPosition() {
-			layout.GetCursorPos(j, arg1, arg2)
-
-			cursors = append(cursors, CursorPos{
-				pos: j,
-				x:   pos.X,
-			})
-		}
-	}
-
-	sort.Slice(cursors, func(i, j int) bool { return cursors[i].x < cursors[j].x })
-
-	return cursors
+	return x2, x1Trailing
 }
 
 // MoveCursorVisually computes a new cursor position from an old position (`oldIndex`) and a direction.
@@ -220,101 +211,57 @@ func (layout *Layout) MoveCursorVisually(strong bool,
 
 	cursors := line.getCursors(strong)
 
-	var pos Rectangle
-	arg1, arg2 := (*Rectangle)(nil), &pos
-	if strong {
-		arg1, arg2 = &pos, (*Rectangle)(nil)
+	var lineRect Rectangle
+	line.GetExtents(nil, &lineRect)
+	oldX, weakX := line.cursorsX(oldIndex, lineRect.Width)
+	if !strong {
+		oldX = weakX
 	}
-	layout.GetCursorPos(oldIndex, arg1, arg2)
 
-	visPos := -1
+	visPos := 0
 	for j, cursor := range cursors {
-		if cursor.x == pos.X {
+		if cursor.x <= oldX {
 			visPos = j
 
 			/* If moving left, we pick the leftmost match, otherwise
 			 * the rightmost one. Without this, we can get stuck
 			 */
-			if direction < 0 {
+			if direction < 0 && cursor.x == oldX {
 				break
 			}
 		}
 	}
 
-	if visPos == -1 &&
-		oldIndex == line.StartIndex+line.Length {
-		if line.ResolvedDir == DIRECTION_LTR {
-			visPos = len(cursors)
-		} else {
-			visPos = 0
-		}
-	}
+	visPos += direction
 
 	/* Handling movement between lines */
-	var offStart, offEnd bool
-	if line.ResolvedDir == DIRECTION_LTR {
-		if oldIndex == line.StartIndex && direction < 0 {
-			offStart = true
-		}
-		if oldIndex == line.StartIndex+line.Length && direction > 0 {
-			offEnd = true
-		}
-	} else {
-		if oldIndex == line.StartIndex+line.Length && direction < 0 {
-			offStart = true
-		}
-		if oldIndex == line.StartIndex && direction > 0 {
-			offEnd = true
-		}
-	}
-
-	if offStart || offEnd {
-		// If we move over a paragraph boundary, count that as
-		// an extra position in the motion
-		var paragraphBoundary bool
-
-		if offStart {
+	if visPos < 0 || visPos >= len(cursors) {
+		// If the position at the edge of the other line is the old one (which is
+		// not the case over a paragraph boundary), it does not count in the motion
+		if direction < 0 {
 			if prevLine == nil {
 				return -1, 0
 			}
 			line = prevLine
-			paragraphBoundary = (line.StartIndex+line.Length != oldIndex)
+			cursors = line.getCursors(strong)
+			visPos = len(cursors) - 1
+			if visPos > 0 && cursors[visPos].pos == oldIndex {
+				visPos--
+			}
 		} else {
 			if nextLine == nil {
 				return MaxInt, 0
 			}
 			line = nextLine
-			paragraphBoundary = (line.StartIndex != oldIndex)
-		}
-
-		cursors = line.getCursors(strong)
-
-		nVis := len(cursors)
-
-		if offStart && direction < 0 {
-			visPos = nVis
-			if paragraphBoundary {
-				visPos++
-			}
-		} else if offEnd && direction > 0 {
+			cursors = line.getCursors(strong)
 			visPos = 0
-			if paragraphBoundary {
-				visPos--
+			if visPos+1 < len(cursors) && cursors[visPos].pos == oldIndex {
+				visPos++
 			}
 		}
 	}
 
-	if direction < 0 {
-		visPos--
-	} else {
-		visPos++
-	}
-
-	if 0 <= visPos && visPos < len(cursors) {
-		newIndex = cursors[visPos].pos
-	} else if visPos >= len(cursors)-1 {
-		newIndex = line.StartIndex + line.Length
-	}
+	newIndex = cursors[visPos].pos
 
 	newTrailing = 0
 
-- 
2.43.0


From ec0ccee60e9db61b4084f40864bb08b6a79565aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:35:20 +0000
Subject: [PATCH 086/139] fix: the position of the middle of CR LF must have
 the height of its line

---
 pango/layout.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pango/layout.go b/pango/layout.go
index c8f258f..51e94f4 100644
--- a/pango/layout.go
+++ b/pango/layout.go
@@ -984,7 +984,8 @@ func (layout *Layout) IndexToPos(index int, pos *Rectangle) {
 
 		line = tmpLine
 
-		if line.StartIndex+line.Length >= index {
+		// index is on the line, or in the paragraph delimiters which follow it
+		if iter.lineIndex+1 >= len(iter.lines) || iter.lines[iter.lineIndex+1].StartIndex > index {
 			for do := true; do; do = iter.NextRun() {
 				run := iter.GetRun()
 				iter.GetRunExtents(nil, &runLogicalRect)
-- 
2.43.0


From 6c79336d49429e03f0c21f3cf777149ac898a762 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:35:21 +0000
Subject: [PATCH 087/139] fix: the cursor of an empty line must have the height
 of this line

---
 pango/layout_iter.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pango/layout_iter.go b/pango/layout_iter.go
index 422e298..1af908e 100644
--- a/pango/layout_iter.go
+++ b/pango/layout_iter.go
@@ -472,7 +472,7 @@ func (iter *LayoutIter) GetRunExtents(inkRect, logicalRect *Rectangle) {
 			run.getExtentsAndHeight(inkRect, logicalRect, nil, nil)
 		} else {
 			var r Rectangle
-			iter.layout.getEmptyExtentsAndHeightAt(0, &r, false)
+			iter.layout.getEmptyExtentsAndHeightAt(iter.line().StartIndex, &r, false)
 			if inkRect != nil {
 				*inkRect = r
 			}
-- 
2.43.0


From 8400438be0167703cfd43ec1841cdf55f67f913a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:35:22 +0000
Subject: [PATCH 088/139] fix: the edges of a grapheme split between two runs

---
 pango/layout_line.go | 24 +++++++++++++-----------
 1 file changed, 13 insertions(+), 11 deletions(-)

diff --git a/pango/layout_line.go b/pango/layout_line.go
index 13297c0..0870632 100644
--- a/pango/layout_line.go
+++ b/pango/layout_line.go
@@ -1204,21 +1204,23 @@ func (line *LayoutLine) IndexToX(index int, trailing bool) Unit {
 	layout := line.layout
 	var width Unit
 
+	// go to the edge of the grapheme, which may be in another run
+	if index >= line.StartIndex && index < line.StartIndex+line.Length {
+		if trailing {
+			for index+1 < line.StartIndex+line.Length && !layout.logAttrs[index+1].IsCursorPosition() {
+				index++
+			}
+		} else {
+			for index > line.StartIndex && !layout.logAttrs[index].IsCursorPosition() {
+				index--
+			}
+		}
+	}
+
 	for runList := line.Runs; runList != nil; runList = runList.Next {
 		run := runList.Data
 
 		if run.Item.Offset <= index && run.Item.Offset+run.Item.Length > index {
-			if trailing {
-				for index < line.StartIndex+line.Length && index+1 < len(layout.Text) &&
-					!layout.logAttrs[index+1].IsCursorPosition() {
-					index++
-				}
-			} else {
-				for index > line.StartIndex && !layout.logAttrs[index].IsCursorPosition() {
-					index--
-				}
-			}
-
 			attrOffset := run.Item.Offset
 			xPos := run.Glyphs.indexToXFull(layout.Text[attrOffset:attrOffset+run.Item.Length],
 				&run.Item.Analysis, index-attrOffset, trailing, layout.logAttrs[attrOffset:])
-- 
2.43.0


From 4c2f24f15ee51c23444d1abe31a0b0c24a1daecf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:35:23 +0000
Subject: [PATCH 089/139] fix: the trailing edge of a cluster which does not
 start a grapheme

---
 pango/glyphs.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pango/glyphs.go b/pango/glyphs.go
index 8b7eac9..5a5a902 100644
--- a/pango/glyphs.go
+++ b/pango/glyphs.go
@@ -504,6 +504,9 @@ func (glyphs *GlyphString) indexToXFull(text []rune, analysis *Analysis, index i
 	}
 
 	if clusterChars == 0 /* pedantic */ {
+		if trailing {
+			return endXpos
+		}
 		return startXpos
 	}
 
-- 
2.43.0


From bca40b4ee1d4e40789a8c9404fb1db0e88d58c3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:35:24 +0000
Subject: [PATCH 090/139] fix: the position of a character inside of its
 grapheme

---
 pango/glyphs.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pango/glyphs.go b/pango/glyphs.go
index 5a5a902..0d465ae 100644
--- a/pango/glyphs.go
+++ b/pango/glyphs.go
@@ -493,7 +493,8 @@ func (glyphs *GlyphString) indexToXFull(text []rune, analysis *Analysis, index i
 			continue
 		}
 
-		if i < index {
+		// do not count the grapheme of index
+		if i <= index && clusterChars > 0 {
 			clusterOffset++
 		}
 		clusterChars++
-- 
2.43.0


From a03cee339c932218156c6836b51af6ce6038ffd2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:35:26 +0000
Subject: [PATCH 091/139] fix: the ranges of positions must follow the
 graphemes

---
 pango/layout_line.go | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/pango/layout_line.go b/pango/layout_line.go
index 0870632..2c34fec 100644
--- a/pango/layout_line.go
+++ b/pango/layout_line.go
@@ -1298,12 +1298,12 @@ func (line *LayoutLine) GetXRanges(startIndex, endIndex int) []Unit {
 			// back the endIndex off one since we want to find the trailing edge of the preceding character
 			runEndIndex--
 
-			runStartX := run.Glyphs.IndexToX(line.layout.Text[run.Item.Offset:run.Item.Offset+run.Item.Length],
+			runStartX := run.Glyphs.indexToXFull(line.layout.Text[run.Item.Offset:run.Item.Offset+run.Item.Length],
 				&run.Item.Analysis,
-				runStartIndex-run.Item.Offset, false)
-			runEndX := run.Glyphs.IndexToX(line.layout.Text[run.Item.Offset:run.Item.Offset+run.Item.Length],
+				runStartIndex-run.Item.Offset, false, line.layout.logAttrs[run.Item.Offset:])
+			runEndX := run.Glyphs.indexToXFull(line.layout.Text[run.Item.Offset:run.Item.Offset+run.Item.Length],
 				&run.Item.Analysis,
-				runEndIndex-run.Item.Offset, true)
+				runEndIndex-run.Item.Offset, true, line.layout.logAttrs[run.Item.Offset:])
 
 			ranges = append(ranges,
 				xOffset+accumulatedWidth+minG(runStartX, runEndX),
-- 
2.43.0


From fccc76cf8225ba60101f7cb324c10f0b330fed73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:55:22 +0000
Subject: [PATCH 092/139] fix: the index of the end of a line in mixed text

---
 pango/layout_iter.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pango/layout_iter.go b/pango/layout_iter.go
index 1af908e..1eec1fa 100644
--- a/pango/layout_iter.go
+++ b/pango/layout_iter.go
@@ -258,7 +258,7 @@ func (iter *LayoutIter) NextRun() bool {
 	var nextRunStart int
 	if nextLink == nil {
 		// Moving on to the zero-width "virtual run" at the end of each line
-		nextRunStart = iter.run.Item.Offset + iter.run.Item.Length
+		nextRunStart = iter.line().StartIndex + iter.line().Length
 		iter.run = nil
 		iter.runs = nil
 	} else {
-- 
2.43.0


From 78852bbe65511d33fcbb074913cd8625cf23e15d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:21:37 +0000
Subject: [PATCH 093/139] fix: the tab stops given to a layout must be copied

---
 pango/tabs.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pango/tabs.go b/pango/tabs.go
index ff14e27..a70b55f 100644
--- a/pango/tabs.go
+++ b/pango/tabs.go
@@ -40,10 +40,10 @@ func (tabs *TabArray) Copy() *TabArray {
 	if tabs == nil {
 		return nil
 	}
-	copy := tabs
+	copy := *tabs
 	copy.Tabs = append([]Tab(nil), tabs.Tabs...)
 
-	return copy
+	return &copy
 }
 
 // sort ensure that the tab stops are in increasing order.
-- 
2.43.0


From f3ecd0fccedcb55fc3ccb137ad7397031469f0ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:21:38 +0000
Subject: [PATCH 094/139] fix: setting the height or the ellipsization must
 always update the layout

---
 pango/layout.go | 13 ++++---------
 1 file changed, 4 insertions(+), 9 deletions(-)

diff --git a/pango/layout.go b/pango/layout.go
index 51e94f4..dea10dc 100644
--- a/pango/layout.go
+++ b/pango/layout.go
@@ -295,12 +295,7 @@ func (layout *Layout) SetHeight(height Unit) {
 	if height != layout.Height {
 		layout.Height = height
 
-		/* Do not invalidate if the number of lines requested is
-		* larger than the total number of lines in layout.
-		* Bug 549003
-		 */
-		if layout.ellipsize != ELLIPSIZE_NONE &&
-			!(layout.isEllipsized == false && height < 0 && len(layout.lines) <= -int(height)) {
+		if layout.ellipsize != ELLIPSIZE_NONE {
 			layout.layoutChanged()
 		}
 	}
@@ -344,9 +339,9 @@ func (layout *Layout) SetEllipsize(ellipsize EllipsizeMode) {
 	if ellipsize != layout.ellipsize {
 		layout.ellipsize = ellipsize
 
-		if layout.isEllipsized || layout.isWrapped {
-			layout.layoutChanged()
-		}
+		// even if nothing is ellipsized or wrapped, the height
+		// may omit paragraphs
+		layout.layoutChanged()
 	}
 }
 
-- 
2.43.0


From 63a9e01b0b149c69c6babca4f4ff7d611c781567 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:21:39 +0000
Subject: [PATCH 095/139] fix: justifying by clusters must terminate

---
 pango/layout_line.go | 10 +++-------
 1 file changed, 3 insertions(+), 7 deletions(-)

diff --git a/pango/layout_line.go b/pango/layout_line.go
index 2c34fec..568a621 100644
--- a/pango/layout_line.go
+++ b/pango/layout_line.go
@@ -838,12 +838,14 @@ func (line *LayoutLine) justify_clusters(state *paraBreakState) {
 				clusterIter GlyphItemIter
 				haveCluster bool
 			)
+			nextCluster := clusterIter.NextCluster
 			if dir > 0 {
 				haveCluster = clusterIter.InitStart(run, text)
 			} else {
 				haveCluster = clusterIter.InitEnd(run, text)
+				nextCluster = clusterIter.PrevCluster
 			}
-			for haveCluster {
+			for ; haveCluster; haveCluster = nextCluster() {
 				/* don't expand in the middle of graphemes */
 				if !logAttrs[offset+clusterIter.StartChar].IsCursorPosition() {
 					continue
@@ -900,12 +902,6 @@ func (line *LayoutLine) justify_clusters(state *paraBreakState) {
 						addedSoFar += spaceRight
 					}
 				}
-
-				if dir > 0 {
-					haveCluster = clusterIter.NextCluster()
-				} else {
-					haveCluster = clusterIter.PrevCluster()
-				}
 			}
 		}
 
-- 
2.43.0


From 1ebe6b4ccba060020f07eb92d791828a3ee694f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:21:40 +0000
Subject: [PATCH 096/139] fix: the attributes of the characters of the previous
 text must not be reused

---
 pango/layout.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pango/layout.go b/pango/layout.go
index dea10dc..47ae015 100644
--- a/pango/layout.go
+++ b/pango/layout.go
@@ -1907,6 +1907,9 @@ func (layout *Layout) checkLines() {
 		L := len(layout.Text) + 1
 		if cap(layout.logAttrs) >= L {
 			layout.logAttrs = layout.logAttrs[:L]
+			for i := range layout.logAttrs { // the height may omit paragraphs
+				layout.logAttrs[i] = 0
+			}
 		} else {
 			layout.logAttrs = make([]CharAttr, L)
 		}
-- 
2.43.0


From 42d96512e3fa8de701b72cba91e7e36826491c5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:21:41 +0000
Subject: [PATCH 097/139] fix: setting the height must always update the layout

---
 pango/layout.go | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/pango/layout.go b/pango/layout.go
index 47ae015..5952e78 100644
--- a/pango/layout.go
+++ b/pango/layout.go
@@ -295,9 +295,7 @@ func (layout *Layout) SetHeight(height Unit) {
 	if height != layout.Height {
 		layout.Height = height
 
-		if layout.ellipsize != ELLIPSIZE_NONE {
-			layout.layoutChanged()
-		}
+		layout.layoutChanged()
 	}
 }
 
-- 
2.43.0


From 75cf4560689fd03b75e6ce11552eca84c0023189 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:21:42 +0000
Subject: [PATCH 098/139] fix: the end of an ellipsis must not split a grapheme

---
 pango/ellipsize.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pango/ellipsize.go b/pango/ellipsize.go
index aa62b6a..5c6294c 100644
--- a/pango/ellipsize.go
+++ b/pango/ellipsize.go
@@ -192,7 +192,7 @@ func (state ellipsizeState) endsAtEllipsizationBoundary(iter lineIter) bool {
 		return true
 	}
 
-	return state.layout.logAttrs[runInfo.startOffset+iter.runIter.EndChar+1].IsCursorPosition()
+	return state.layout.logAttrs[runInfo.startOffset+iter.runIter.EndChar].IsCursorPosition()
 }
 
 // helper function to re-itemize a string of text
-- 
2.43.0


From 251e808e6d9eb83551a0509d19c5a473513a04e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:21:43 +0000
Subject: [PATCH 099/139] fix: the ellipsis must not remove more graphemes than
 needed

---
 pango/ellipsize.go | 11 ++++-------
 1 file changed, 4 insertions(+), 7 deletions(-)

diff --git a/pango/ellipsize.go b/pango/ellipsize.go
index 5c6294c..540b597 100644
--- a/pango/ellipsize.go
+++ b/pango/ellipsize.go
@@ -398,23 +398,20 @@ func (state *ellipsizeState) removeOneSpan() bool {
 	// Find one span backwards and forward from the gap
 	new_gap_start_iter := state.gapStartIter
 	new_gap_start_x := state.gapStartX
-	var width Unit
-	for do := true; do; do = !state.startsAtEllipsizationBoundary(new_gap_start_iter) || width == 0 {
+	for do := true; do; do = !state.startsAtEllipsizationBoundary(new_gap_start_iter) || new_gap_start_x == state.gapStartX {
 		if !state.lineIterPrevCluster(&new_gap_start_iter) {
 			break
 		}
-		width = new_gap_start_iter.getClusterWidth()
-		new_gap_start_x -= width
+		new_gap_start_x -= new_gap_start_iter.getClusterWidth()
 	}
 
 	new_gap_end_iter := state.gapEndIter
 	new_gap_end_x := state.gapEndX
-	for do := true; do; do = !state.endsAtEllipsizationBoundary(new_gap_end_iter) || width == 0 {
+	for do := true; do; do = !state.endsAtEllipsizationBoundary(new_gap_end_iter) || new_gap_end_x == state.gapEndX {
 		if !state.lineIterNextCluster(&new_gap_end_iter) {
 			break
 		}
-		width = new_gap_end_iter.getClusterWidth()
-		new_gap_end_x += width
+		new_gap_end_x += new_gap_end_iter.getClusterWidth()
 	}
 
 	if state.gapEndX == new_gap_end_x && state.gapStartX == new_gap_start_x {
-- 
2.43.0


From c3ea2e869e484885219090459697905beb7881e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:21:44 +0000
Subject: [PATCH 100/139] fix: the attributes of the first ellipsis must not
 leak into the next lines

---
 pango/ellipsize.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pango/ellipsize.go b/pango/ellipsize.go
index 540b597..7b08b61 100644
--- a/pango/ellipsize.go
+++ b/pango/ellipsize.go
@@ -222,6 +222,7 @@ func (state *ellipsizeState) shapeEllipsis() {
 	// Create an attribute list
 	runAttrs := state.gapStartAttr.getAttributes()
 	for _, attr := range runAttrs {
+		attr = attr.copy() // it belongs to the layout
 		attr.StartIndex = 0
 		attr.EndIndex = MaxInt
 		attrs.Insert(attr)
-- 
2.43.0


From 164a530b430e7c6ebfc61606cf0b5b861001f9cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:42 +0000
Subject: [PATCH 101/139] fix: the hyphen added to a line takes room

---
 pango/layout_line.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pango/layout_line.go b/pango/layout_line.go
index 568a621..926f33d 100644
--- a/pango/layout_line.go
+++ b/pango/layout_line.go
@@ -529,7 +529,7 @@ func (line *LayoutLine) addMissingHyphen(state *paraBreakState, run *GlyphItem)
 
 		state.startOffset = startOffset
 
-		state.remainingWidth += run.Glyphs.getWidth() - width
+		state.remainingWidth -= run.Glyphs.getWidth() - width
 	}
 }
 
-- 
2.43.0


From 4dd00d1e44472fa59ae06ba215d7c177667d79b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:43 +0000
Subject: [PATCH 102/139] fix: justification expands whole graphemes, from the
 leftmost to the rightmost ones

---
 pango/layout_line.go | 64 ++++++++++++++++++++++++++------------------
 1 file changed, 38 insertions(+), 26 deletions(-)

diff --git a/pango/layout_line.go b/pango/layout_line.go
index 926f33d..4fb67d0 100644
--- a/pango/layout_line.go
+++ b/pango/layout_line.go
@@ -800,10 +800,10 @@ func (line *LayoutLine) justify_clusters(state *paraBreakState) {
 
 	for mode := measure; mode <= adjust; mode++ {
 		var (
-			residual        Unit
-			leftedge        = true
-			rightmostGlyphs *GlyphString
-			rightmostSpace  Unit
+			residual       Unit
+			leftedge       = true
+			rightmostGlyph *GlyphInfo
+			rightmostSpace Unit
 		)
 		addedSoFar = 0
 		gapsSoFar = 0
@@ -845,19 +845,41 @@ func (line *LayoutLine) justify_clusters(state *paraBreakState) {
 				haveCluster = clusterIter.InitEnd(run, text)
 				nextCluster = clusterIter.PrevCluster
 			}
+			leftmost, width := -1, Unit(0) // of the current grapheme
 			for ; haveCluster; haveCluster = nextCluster() {
+				for i := clusterIter.startGlyph; i != clusterIter.endGlyph; i += dir {
+					width += glyphs.Glyphs[i].Geometry.Width
+				}
+
+				var rightmost int
+				if clusterIter.startGlyph < clusterIter.endGlyph {
+					/* LTR */
+					if leftmost == -1 {
+						leftmost = clusterIter.startGlyph
+					}
+					rightmost = clusterIter.endGlyph - 1
+				} else {
+					/* RTL */
+					if leftmost == -1 {
+						leftmost = clusterIter.endGlyph + 1
+					}
+					rightmost = clusterIter.startGlyph
+				}
+
 				/* don't expand in the middle of graphemes */
-				if !logAttrs[offset+clusterIter.StartChar].IsCursorPosition() {
+				if dir > 0 {
+					if clusterIter.EndChar != run.Item.Length && !logAttrs[offset+clusterIter.EndChar].IsCursorPosition() {
+						continue
+					}
+				} else if clusterIter.StartChar != 0 && !logAttrs[offset+clusterIter.StartChar].IsCursorPosition() {
 					continue
 				}
 
-				var width Unit
-				for i := clusterIter.startGlyph; i != clusterIter.endGlyph; i += dir {
-					width += glyphs.Glyphs[i].Geometry.Width
-				}
+				graphemeLeft, graphemeWidth := leftmost, width
+				leftmost, width = -1, 0
 
-				/* also don't expand zero-width clusters. */
-				if width == 0 {
+				/* also don't expand zero-width graphemes. */
+				if graphemeWidth == 0 {
 					continue
 				}
 
@@ -874,28 +896,18 @@ func (line *LayoutLine) justify_clusters(state *paraBreakState) {
 					/* distribute to before/after */
 					spaceLeft, spaceRight := distributeLetterSpacing(adjustment)
 
-					var leftmost, rightmost int
-					if clusterIter.startGlyph < clusterIter.endGlyph {
-						/* LTR */
-						leftmost = clusterIter.startGlyph
-						rightmost = clusterIter.endGlyph - 1
-					} else {
-						/* RTL */
-						leftmost = clusterIter.endGlyph + 1
-						rightmost = clusterIter.startGlyph
-					}
 					/* Don't add to left-side of left-most glyph of left-most non-zero run. */
 					if leftedge {
 						leftedge = false
 					} else {
-						glyphs.Glyphs[leftmost].Geometry.Width += spaceLeft
-						glyphs.Glyphs[leftmost].Geometry.XOffset += spaceLeft
+						glyphs.Glyphs[graphemeLeft].Geometry.Width += spaceLeft
+						glyphs.Glyphs[graphemeLeft].Geometry.XOffset += spaceLeft
 						addedSoFar += spaceLeft
 					}
 					/* Don't add to right-side of right-most glyph of right-most non-zero run. */
 					{
 						/* Save so we can undo later. */
-						rightmostGlyphs = glyphs
+						rightmostGlyph = &glyphs.Glyphs[rightmost]
 						rightmostSpace = spaceRight
 
 						glyphs.Glyphs[rightmost].Geometry.Width += spaceRight
@@ -913,8 +925,8 @@ func (line *LayoutLine) justify_clusters(state *paraBreakState) {
 				return
 			}
 		} else /* mode == ADJUST */ {
-			if rightmostGlyphs != nil {
-				rightmostGlyphs.Glyphs[len(rightmostGlyphs.Glyphs)-1].Geometry.Width -= rightmostSpace
+			if rightmostGlyph != nil {
+				rightmostGlyph.Geometry.Width -= rightmostSpace
 				addedSoFar -= rightmostSpace
 			}
 		}
-- 
2.43.0


From 05a75d83a9b2ec6ddcef4d47309b05e7b2813bc5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:43 +0000
Subject: [PATCH 103/139] fix: justified lines with a truncated final space
 must fill the width

---
 pango/layout_line.go | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/pango/layout_line.go b/pango/layout_line.go
index 4fb67d0..a13d50e 100644
--- a/pango/layout_line.go
+++ b/pango/layout_line.go
@@ -480,10 +480,9 @@ func (line *LayoutLine) postprocess(state *paraBreakState, wrapped bool) {
 
 	// Distribute extra space between words if justifying and line was wrapped
 	if line.layout.Justify && (wrapped || ellipsized || line.layout.JustifyLastLine) {
-		/* if we ellipsized, we don't have remaining_width set */
-		if state.remainingWidth < 0 {
-			state.remainingWidth = state.lineWidth - line.getWidth()
-		}
+		// do not use the width remaining when breaking the line: it is not set if we ellipsized,
+		// and the final space may have been truncated
+		state.remainingWidth = state.lineWidth - line.getWidth()
 
 		line.justifyWords(state)
 	}
-- 
2.43.0


From f8c987fbca0269d5c69bbc504a0d4f0659ac7884 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:44 +0000
Subject: [PATCH 104/139] fix: letter spacing must not be added inside of
 graphemes

---
 pango/glyph_item.go | 21 +++++++--------------
 1 file changed, 7 insertions(+), 14 deletions(-)

diff --git a/pango/glyph_item.go b/pango/glyph_item.go
index a7cbd0b..1a3cd0d 100644
--- a/pango/glyph_item.go
+++ b/pango/glyph_item.go
@@ -130,30 +130,23 @@ func (glyphItem *GlyphItem) letterSpace(text []rune, logAttrs []CharAttr, letter
 	)
 	haveCluster := iter.InitStart(glyphItem, text)
 	for ; haveCluster; haveCluster = iter.NextCluster() {
-		if !logAttrs[iter.StartChar].IsCursorPosition() {
-			if glyphs[iter.startGlyph].Geometry.Width == 0 {
-				if iter.startGlyph < iter.endGlyph /* LTR */ {
-					glyphs[iter.startGlyph].Geometry.XOffset -= spaceRight
-				} else {
-					glyphs[iter.startGlyph].Geometry.XOffset += spaceLeft
-				}
-			}
-			continue
-		}
+		// do not add space inside of a grapheme
+		startsGrapheme := logAttrs[iter.StartChar].IsCursorPosition()
+		endsGrapheme := logAttrs[iter.EndChar].IsCursorPosition()
 
 		if iter.startGlyph < iter.endGlyph { // LTR
-			if iter.StartChar > 0 {
+			if iter.StartChar > 0 && startsGrapheme {
 				glyphs[iter.startGlyph].Geometry.Width += spaceLeft
 				glyphs[iter.startGlyph].Geometry.XOffset += spaceLeft
 			}
-			if iter.EndChar < glyphItem.Item.Length {
+			if iter.EndChar < glyphItem.Item.Length && endsGrapheme {
 				glyphs[iter.endGlyph-1].Geometry.Width += spaceRight
 			}
 		} else { // RTL
-			if iter.StartChar > 0 {
+			if iter.StartChar > 0 && startsGrapheme {
 				glyphs[iter.startGlyph].Geometry.Width += spaceRight
 			}
-			if iter.EndChar < glyphItem.Item.Length {
+			if iter.EndChar < glyphItem.Item.Length && endsGrapheme {
 				glyphs[iter.endGlyph+1].Geometry.XOffset += spaceLeft
 				glyphs[iter.endGlyph+1].Geometry.Width += spaceLeft
 			}
-- 
2.43.0


From 70fb3cc28de73df9bb60ae68a37e4330bd33351f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:57 +0000
Subject: [PATCH 105/139] fix: tabs following an overfull text must be placed
 at their stop

---
 pango/layout_line.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pango/layout_line.go b/pango/layout_line.go
index a13d50e..09ab110 100644
--- a/pango/layout_line.go
+++ b/pango/layout_line.go
@@ -220,7 +220,8 @@ func (line *LayoutLine) setResolvedDir(direction Direction) {
 }
 
 func (line *LayoutLine) line_width(state *paraBreakState) Unit {
-	if state.remainingWidth > -1 {
+	// the remaining width is zero when the line is overfull
+	if state.remainingWidth > 0 {
 		return state.lineWidth - state.remainingWidth
 	}
 
-- 
2.43.0


From 7ca155cbee2daadffd60278817174798a531f44e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:58 +0000
Subject: [PATCH 106/139] fix: aligned tabs must only account for the text
 which is on their line

---
 pango/layout.go      | 16 ++++++-------
 pango/layout_line.go | 57 +++++++++++++++++++++++++++++++++++---------
 2 files changed, 53 insertions(+), 20 deletions(-)

diff --git a/pango/layout.go b/pango/layout.go
index 5952e78..1f61f39 100644
--- a/pango/layout.go
+++ b/pango/layout.go
@@ -1761,6 +1761,7 @@ func (layout *Layout) processLine(state *paraBreakState) {
 			state.items = state.items.Next
 			state.startOffset += oldNumChars
 		case brEMPTY_FIT:
+			line.restoreTab(state)
 			wrapped = true
 			goto done
 		case brSOME_FIT:
@@ -1770,18 +1771,11 @@ func (layout *Layout) processLine(state *paraBreakState) {
 		case brNONE_FIT:
 			// Back up over unused runs to run where there is a break
 			for line.Runs != nil && line.Runs != breakLink {
-				run := line.Runs.Data
-
-				// If we uninsert the current tab run,  we need to reset the tab state
-				if run.Glyphs == state.lastTab.glyphs {
-					state.lastTab.glyphs = nil
-					state.lastTab.index = 0
-					state.lastTab.tab.Alignment = TAB_LEFT
-				}
-
 				state.items = &ItemList{Data: line.uninsert_run(), Next: state.items}
 			}
 
+			line.restoreTab(state)
+
 			state.startOffset = breakStartOffset
 			state.remainingWidth = breakRemainingWidth
 			lastItemInLine = state.items.Next == nil
@@ -1797,6 +1791,10 @@ func (layout *Layout) processLine(state *paraBreakState) {
 
 			state.startOffset += oldNumChars - item.Length
 
+			if result == brEMPTY_FIT {
+				line.restoreTab(state)
+			}
+
 			wrapped = true
 			goto done
 		case brLINE_SEPARATOR:
diff --git a/pango/layout_line.go b/pango/layout_line.go
index 09ab110..850c62c 100644
--- a/pango/layout_line.go
+++ b/pango/layout_line.go
@@ -393,7 +393,12 @@ func (line *LayoutLine) insertRun(state *paraBreakState, runItem *Item, glyphs *
 	line.Runs = &RunList{Data: &run, Next: line.Runs} // prepend
 	line.Length += runItem.Length
 
-	if state.lastTab.glyphs != nil && run.Glyphs != state.lastTab.glyphs {
+	line.updateTab(&state.lastTab, &run)
+}
+
+// updateTab adjusts the width of the last tab after adding `run`
+func (line *LayoutLine) updateTab(tabState *lastTabState, run *GlyphItem) {
+	if tabState.glyphs != nil && run.Glyphs != tabState.glyphs {
 		found_decimal := false
 
 		/* Adjust the tab position so placing further runs will continue to
@@ -401,24 +406,52 @@ func (line *LayoutLine) insertRun(state *paraBreakState, runItem *Item, glyphs *
 		 * done once we've placed the run with the decimal point.
 		 */
 
-		if state.lastTab.tab.Alignment == TAB_RIGHT {
-			state.lastTab.width += run.Glyphs.getWidth()
-		} else if state.lastTab.tab.Alignment == TAB_CENTER {
-			state.lastTab.width += run.Glyphs.getWidth() / 2
-		} else if state.lastTab.tab.Alignment == TAB_DECIMAL {
+		if tabState.tab.Alignment == TAB_RIGHT {
+			tabState.width += run.Glyphs.getWidth()
+		} else if tabState.tab.Alignment == TAB_CENTER {
+			tabState.width += run.Glyphs.getWidth() / 2
+		} else if tabState.tab.Alignment == TAB_DECIMAL {
 			var width Unit
 
-			width, found_decimal = run.Item.get_decimal_prefix_width(run.Glyphs, line.layout.Text, state.lastTab.tab.DecimalPoint)
+			width, found_decimal = run.Item.get_decimal_prefix_width(run.Glyphs, line.layout.Text, tabState.tab.DecimalPoint)
 
-			state.lastTab.width += width
+			tabState.width += width
 		}
 
-		width := maxG(state.lastTab.tab.Location-state.lastTab.width, 0)
-		state.lastTab.glyphs.Glyphs[0].Geometry.Width = width
+		width := maxG(tabState.tab.Location-tabState.width, 0)
+		tabState.glyphs.Glyphs[0].Geometry.Width = width
 
 		if found_decimal || width == 0 {
-			state.lastTab.glyphs = nil
+			tabState.glyphs = nil
+		}
+	}
+}
+
+// restoreTab updates the last tab so that it only accounts for the runs which
+// are actually on the line, after giving up on adding some items.
+func (line *LayoutLine) restoreTab(state *paraBreakState) {
+	state.lastTab.glyphs = nil
+	state.lastTab.index = 0
+	state.lastTab.tab.Alignment = TAB_LEFT
+
+	// the runs are in reverse order
+	var after []*GlyphItem
+	for l := line.Runs; l != nil; l = l.Next {
+		if !line.layout.isTabRun(l.Data) {
+			after = append(after, l.Data)
+			continue
+		}
+
+		var currentWidth Unit
+		for before := l.Next; before != nil; before = before.Next {
+			currentWidth += before.Data.Glyphs.getWidth()
 		}
+		line.shapeTab(&state.lastTab, &state.properties, currentWidth, l.Data.Item, l.Data.Glyphs)
+
+		for i := len(after) - 1; i >= 0; i-- {
+			line.updateTab(&state.lastTab, after[i])
+		}
+		return
 	}
 }
 
@@ -530,6 +563,8 @@ func (line *LayoutLine) addMissingHyphen(state *paraBreakState, run *GlyphItem)
 		state.startOffset = startOffset
 
 		state.remainingWidth -= run.Glyphs.getWidth() - width
+
+		line.restoreTab(state)
 	}
 }
 
-- 
2.43.0


From 312b86a661fc820d0abf2d475d22002727efe8df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:59 +0000
Subject: [PATCH 107/139] fix: a missing hyphen must have the properties of its
 own text

---
 pango/layout_line.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/pango/layout_line.go b/pango/layout_line.go
index 850c62c..eaf3740 100644
--- a/pango/layout_line.go
+++ b/pango/layout_line.go
@@ -557,10 +557,15 @@ func (line *LayoutLine) addMissingHyphen(state *paraBreakState, run *GlyphItem)
 		startOffset := state.startOffset
 		state.startOffset = state.lineStartIndex + lineChars - item.Length
 
+		// the same holds for the properties
+		properties := state.properties
+		state.properties = item.getProperties()
+
 		item.Analysis.Flags |= AFNeedHyphen
 		run.Glyphs = line.shapeRun(state, item)
 
 		state.startOffset = startOffset
+		state.properties = properties
 
 		state.remainingWidth -= run.Glyphs.getWidth() - width
 
-- 
2.43.0


From 832f3c8045a0360854bb23f96819ea3db8425d19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:56 +0000
Subject: [PATCH 108/139] fix: baseline shifts must end with their text,
 continue on the following lines and use scaled metrics

---
 pango/layout.go      |   5 +-
 pango/layout_line.go | 144 +++++++++++++++++++------------------------
 2 files changed, 67 insertions(+), 82 deletions(-)

diff --git a/pango/layout.go b/pango/layout.go
index 1f61f39..ba2bc6a 100644
--- a/pango/layout.go
+++ b/pango/layout.go
@@ -1,7 +1,6 @@
 package pango
 
 import (
-	"container/list"
 	"fmt"
 	"unicode/utf8"
 )
@@ -1218,7 +1217,7 @@ type paraBreakState struct {
 
 	hyphen_width Unit /* How much space a hyphen will take */
 
-	baselineShifts list.List
+	baselineShifts []baselineItem // active shifts
 
 	lastTab lastTabState
 }
@@ -1940,7 +1939,7 @@ func (layout *Layout) checkLines() {
 	}
 
 	state.logWidths = state.logWidths[:0]
-	state.baselineShifts.Init()
+	state.baselineShifts = nil
 
 	if debugMode {
 		fmt.Printf("START layout for %s\n", string(layout.Text))
diff --git a/pango/layout_line.go b/pango/layout_line.go
index eaf3740..c342e88 100644
--- a/pango/layout_line.go
+++ b/pango/layout_line.go
@@ -1,9 +1,7 @@
 package pango
 
 import (
-	"container/list"
 	"fmt"
-	"log"
 	"math"
 
 	"github.com/benoitkugler/textlayout/fonts"
@@ -1054,6 +1052,7 @@ func (line *LayoutLine) getExtentsAndHeight(inkRect, logicalRect *Rectangle, hei
 			newPos, runHeight  Unit
 		)
 		run.getExtentsAndHeight(&runInk, nil, &runLogical, &runHeight)
+		runInk.X += run.startXOffset
 
 		if inkRect != nil {
 			if inkRect.Width == 0 || inkRect.Height == 0 {
@@ -1378,101 +1377,88 @@ type baselineItem struct {
 	xOffset, yOffset Unit
 }
 
-func (state *paraBreakState) collectBaselineShift(item, prev *Item) (startXOffset, startYOffset, endXOffset, endYOffset Unit) {
-	for _, attr := range item.Analysis.ExtraAttrs {
-		if attr.Kind == ATTR_RISE {
-			value := Unit(attr.Data.(AttrInt))
-			startYOffset += value
-			endYOffset -= value
-		} else if attr.Kind == ATTR_BASELINE_SHIFT {
-			if attr.StartIndex == item.Offset {
+// newBaselineItem computes the offsets of a baseline shift starting after `prev`, which may be nil
+func newBaselineItem(attr *Attribute, prev *Item) baselineItem {
+	entry := baselineItem{attr: attr}
 
-				entry := baselineItem{attr: attr}
-				state.baselineShifts.PushFront(entry)
+	value := Unit(attr.Data.(AttrInt))
 
-				value := Unit(attr.Data.(AttrInt))
-
-				if value > 1024 || value < -1024 {
-					entry.yOffset = value
-				} else {
-					var superscriptXOffset, superscriptYOffset, subscriptXOffset, subscriptYOffset float32
-
-					if prev != nil {
-						face := prev.Analysis.Font.GetHarfbuzzFont().Face()
-						superscriptYOffset, _ = face.LineMetric(fonts.SuperscriptEmYSize)
-						superscriptXOffset, _ = face.LineMetric(fonts.SuperscriptEmXOffset)
-						subscriptYOffset, _ = face.LineMetric(fonts.SubscriptEmYOffset)
-						subscriptXOffset, _ = face.LineMetric(fonts.SubscriptEmXOffset)
-					}
-
-					if superscriptYOffset == 0 {
-						superscriptYOffset = 5000
-					}
-					if subscriptYOffset == 0 {
-						subscriptYOffset = 5000
-					}
+	if value > 1024 || value < -1024 {
+		entry.yOffset = value
+		return entry
+	}
 
-					switch BaselineShift(value) {
-					case BASELINE_SHIFT_NONE:
-						entry.xOffset = 0
-						entry.yOffset = 0
-					case BASELINE_SHIFT_SUPERSCRIPT:
-						entry.xOffset = Unit(superscriptXOffset)
-						entry.yOffset = Unit(superscriptYOffset)
-					case BASELINE_SHIFT_SUBSCRIPT:
-						entry.xOffset = Unit(subscriptXOffset)
-						entry.yOffset = Unit(-subscriptYOffset)
-					}
-				}
+	var superscriptXOffset, superscriptYOffset, subscriptXOffset, subscriptYOffset int32
 
-				startXOffset += entry.xOffset
-				startYOffset += entry.yOffset
-			}
+	if prev != nil && prev.Analysis.Font != nil {
+		font := prev.Analysis.Font.GetHarfbuzzFont()
+		superscriptYOffset, _ = font.LineMetric(fonts.SuperscriptEmYSize)
+		superscriptXOffset, _ = font.LineMetric(fonts.SuperscriptEmXOffset)
+		subscriptYOffset, _ = font.LineMetric(fonts.SubscriptEmYOffset)
+		subscriptXOffset, _ = font.LineMetric(fonts.SubscriptEmXOffset)
+	}
 
-			if attr.EndIndex == item.Offset+item.Length {
-				var t *list.Element
+	if superscriptYOffset == 0 {
+		superscriptYOffset = 5000
+	}
+	if subscriptYOffset == 0 {
+		subscriptYOffset = 5000
+	}
 
-				for t = state.baselineShifts.Front(); t != nil; t = t.Next() {
-					entry := t.Value.(baselineItem)
+	switch BaselineShift(value) {
+	case BASELINE_SHIFT_SUPERSCRIPT:
+		entry.xOffset = Unit(superscriptXOffset)
+		entry.yOffset = Unit(superscriptYOffset)
+	case BASELINE_SHIFT_SUBSCRIPT:
+		entry.xOffset = Unit(subscriptXOffset)
+		entry.yOffset = Unit(-subscriptYOffset)
+	}
 
-					if attr.StartIndex == entry.attr.StartIndex &&
-						attr.EndIndex == entry.attr.EndIndex &&
-						attr.Data.(AttrInt) == entry.attr.Data.(AttrInt) {
-						endXOffset -= entry.xOffset
-						endYOffset -= entry.yOffset
-					}
+	return entry
+}
 
-					state.baselineShifts.Remove(t)
+// collectBaselineShift returns the offsets of the item, and updates the active baseline shifts:
+// the ones which started before the item, maybe on a previous line or paragraph, still apply.
+func (state *paraBreakState) collectBaselineShift(item, prev *Item) (xOffset, yOffset Unit) {
+	var active []baselineItem
+	for _, attr := range item.Analysis.ExtraAttrs {
+		if attr.Kind == ATTR_RISE {
+			yOffset += Unit(attr.Data.(AttrInt))
+		} else if attr.Kind == ATTR_BASELINE_SHIFT {
+			found := false
+			var entry baselineItem
+			for i, e := range state.baselineShifts {
+				if attr.StartIndex == e.attr.StartIndex &&
+					attr.EndIndex == e.attr.EndIndex &&
+					attr.Data.(AttrInt) == e.attr.Data.(AttrInt) {
+					found, entry = true, e
+					state.baselineShifts = append(state.baselineShifts[:i], state.baselineShifts[i+1:]...)
 					break
 				}
-				if t == nil && debugMode {
-					log.Println("Baseline attributes mismatch")
-				}
 			}
+
+			if !found {
+				entry = newBaselineItem(attr, prev)
+			}
+			xOffset += entry.xOffset
+			yOffset += entry.yOffset
+
+			active = append(active, entry)
 		}
 	}
-	return
+	state.baselineShifts = active
+	return xOffset, yOffset
 }
 
 func (line *LayoutLine) applyBaselineShift(state *paraBreakState) {
-	var (
-		yOffset Unit
-		prev    *Item
-	)
+	var prev *Item
 	for l := line.Runs; l != nil; l = l.Next {
 		run := l.Data
-		item := run.Item
-
-		startXOffset, startYOffset, endXOffset, endYOffset := state.collectBaselineShift(item, prev)
-
-		yOffset += startYOffset
-
+		xOffset, yOffset := state.collectBaselineShift(run.Item, prev)
 		run.yOffset = yOffset
-		run.startXOffset = startXOffset
-		run.endXOffset = endXOffset
-
-		yOffset += endYOffset
-
-		prev = item
+		// the runs are not in visual order yet: each one comes back to the position without shift
+		run.startXOffset = xOffset
+		run.endXOffset = -xOffset
+		prev = run.Item
 	}
 }
-- 
2.43.0


From 0c251b780a43c583e60f8fef393f1acdc40498a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:57 +0000
Subject: [PATCH 109/139] fix: the horizontal offset of a run must be counted
 once by iterators

---
 pango/layout_iter.go | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/pango/layout_iter.go b/pango/layout_iter.go
index 1eec1fa..e656a4b 100644
--- a/pango/layout_iter.go
+++ b/pango/layout_iter.go
@@ -168,12 +168,10 @@ func (iter *LayoutIter) updateRun(runStartIndex int) {
 		iter.runX = Unit(lineExt.logicalRect.X)
 	} else {
 		iter.runX += iter.endXOffset + iter.runWidth
-		if iter.run != nil {
-			iter.runX += iter.run.startXOffset
-		}
 	}
 
 	if iter.run != nil {
+		iter.runX += iter.run.startXOffset
 		iter.runWidth = iter.run.Glyphs.getWidth()
 		iter.endXOffset = iter.run.endXOffset
 	} else {
@@ -431,7 +429,7 @@ func (iter *LayoutIter) GetClusterExtents(inkRect, logicalRect *Rectangle) {
 		inkRect, logicalRect)
 
 	if inkRect != nil {
-		inkRect.X += iter.clusterX + iter.run.startXOffset
+		inkRect.X += iter.clusterX
 		inkRect.Y -= iter.run.yOffset
 		offsetY(iter, &inkRect.Y)
 	}
@@ -440,7 +438,7 @@ func (iter *LayoutIter) GetClusterExtents(inkRect, logicalRect *Rectangle) {
 		if debugMode {
 			assert(logicalRect.Width == iter.clusterWidth, "getClusterExtents")
 		}
-		logicalRect.X += iter.clusterX + iter.run.startXOffset
+		logicalRect.X += iter.clusterX
 		logicalRect.Y -= iter.run.yOffset
 		offsetY(iter, &logicalRect.Y)
 	}
-- 
2.43.0


From bc6e9f35c9e6a5be72536805eafcaf3852bad381 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:24:06 +0000
Subject: [PATCH 110/139] fix: the carets of a right to left ligature are in
 visual order

---
 pango/glyphs.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pango/glyphs.go b/pango/glyphs.go
index 0d465ae..fd15d4a 100644
--- a/pango/glyphs.go
+++ b/pango/glyphs.go
@@ -546,6 +546,8 @@ func (glyphs *GlyphString) indexToXFull(text []rune, analysis *Analysis, index i
 			caret := Unit(carets[clusterOffset-1])
 			xpos := glyphs.Glyphs[glyphPos].Geometry.XOffset
 			if analysis.Level%2 != 0 /* Right to left */ {
+				// the carets are in increasing order, from the left
+				caret = Unit(carets[len(carets)-clusterOffset])
 				return xpos + endXpos + caret
 			} else {
 				return xpos + startXpos + caret
-- 
2.43.0


From 2dd80de794d75ec905635ddf7eb6d6103727f43b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:24:07 +0000
Subject: [PATCH 111/139] fix: the innermost of the nested attributes reapplied
 to the items must win

---
 pango/item.go | 24 ++++++++++--------------
 1 file changed, 10 insertions(+), 14 deletions(-)

diff --git a/pango/item.go b/pango/item.go
index 4b6f8df..c4e98b7 100644
--- a/pango/item.go
+++ b/pango/item.go
@@ -116,17 +116,13 @@ func (orig *Item) unSplit(splitIndex int) {
 // in a loop over the items resulting from itemization, while passing
 // `iter` to each call.
 func (item *Item) pango_item_apply_attrs(iter *attrIterator) {
-	compare_attr := func(a1, a2 *Attribute) bool {
-		return a1.equals(*a2) &&
-			a1.StartIndex == a2.StartIndex &&
-			a1.EndIndex == a2.EndIndex
-	}
-
-	var attrs AttrList
+	// the attributes in the order of the list, so that, for each character,
+	// the last one applies
+	var attrs, seen AttrList
 
-	isInList := func(data *Attribute) bool {
-		for _, a := range attrs {
-			if compare_attr(a, data) {
+	isSeen := func(data *Attribute) bool {
+		for _, a := range seen {
+			if a == data {
 				return true
 			}
 		}
@@ -141,10 +137,10 @@ func (item *Item) pango_item_apply_attrs(iter *attrIterator) {
 		}
 
 		if end > item.Offset {
-			list := iter.getAttributes()
-			for _, data := range list {
-				if !isInList(data) {
-					attrs.insertAt(0, data.copy())
+			for _, data := range iter.attribute_stack {
+				if !isSeen(data) {
+					seen = append(seen, data)
+					attrs = append(attrs, data.copy())
 				}
 			}
 		}
-- 
2.43.0


From 767359842302f97400d4f5dba27febb963575ae6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:47:48 +0000
Subject: [PATCH 112/139] fix: the languages using three scripts (Japanese) do
 not use all scripts

---
 pango/language.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pango/language.go b/pango/language.go
index 249669a..a993ad8 100644
--- a/pango/language.go
+++ b/pango/language.go
@@ -366,7 +366,7 @@ func pango_language_get_scripts(lang Language) []Script {
 		}
 	}
 
-	return nil
+	return script_for_lang.scripts[:]
 }
 
 // pango_language_includes_script determines if `script` is one of the scripts used to
-- 
2.43.0


From fd0a11af0464540950a428da7b90375e2c1f9fae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:47:50 +0000
Subject: [PATCH 113/139] fix: all the languages of PANGO_LANGUAGE and LANGUAGE
 must be used

---
 pango/language.go | 18 ++++++------------
 1 file changed, 6 insertions(+), 12 deletions(-)

diff --git a/pango/language.go b/pango/language.go
index a993ad8..9cb901e 100644
--- a/pango/language.go
+++ b/pango/language.go
@@ -424,22 +424,16 @@ func parse_default_languages() []Language {
 
 	done := false
 	for !done {
-		end := strings.IndexAny(p, languageSeparators)
-		if end == -1 {
-			end = len(p)
-			done = true
+		lang := p
+		if end := strings.IndexAny(p, languageSeparators); end != -1 {
+			lang, p = p[:end], p[end+1:]
 		} else {
-			p = p[:end]
+			done = true
 		}
 
 		/* skip empty languages, and skip the language 'C' */
-		if end != 0 && !(end == 1 && p[0] == 'C') {
-			l := pango_language_from_string(p)
-			langs = append(langs, l)
-		}
-
-		if !done {
-			p = p[end:]
+		if lang != "" && lang != "C" {
+			langs = append(langs, pango_language_from_string(lang))
 		}
 	}
 
-- 
2.43.0


From cd7a01805ed5523defc7f4d4aa24889f2cddbae2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:47:51 +0000
Subject: [PATCH 114/139] fix: all the names of a font, not only the first of
 each platform and kind, must be used

---
 fontconfig/scan.go | 19 ++++++++++---------
 1 file changed, 10 insertions(+), 9 deletions(-)

diff --git a/fontconfig/scan.go b/fontconfig/scan.go
index cc8369a..442863f 100644
--- a/fontconfig/scan.go
+++ b/fontconfig/scan.go
@@ -1320,10 +1320,10 @@ func queryFace(face fonts.Face, file string, id uint32, sets *sharedSets) (Patte
 		varCoords             []float32 // in normalized coordinates
 		weightMult, widthMult float32   = 1., 1.
 
-		foundry                                                                       string
-		nameCount, nfamily, nfamilyLang, nstyle, nstyleLang, nfullname, nfullnameLang int
-		exclusiveLang                                                                 string
-		decorative                                                                    bool
+		foundry                                                            string
+		nfamily, nfamilyLang, nstyle, nstyleLang, nfullname, nfullnameLang int
+		exclusiveLang                                                      string
+		decorative                                                         bool
 	)
 
 	pat := NewPattern()
@@ -1478,7 +1478,7 @@ func queryFace(face fonts.Face, file string, id uint32, sets *sharedSets) (Patte
 				}
 			}
 
-			nameidx, sname := getFirstName(names, platform, lookupid, nameMappings)
+			nameidx, _ := getFirstName(names, platform, lookupid, nameMappings)
 			if nameidx == -1 {
 				continue
 			}
@@ -1488,10 +1488,11 @@ func queryFace(face fonts.Face, file string, id uint32, sets *sharedSets) (Patte
 				lang       string
 			)
 
-			for do := true; do; {
-				sname = names[nameMappings[nameidx].idx]
-				do = nameidx < nameCount && platform == sname.PlatformID && lookupid == sname.NameID
-				nameidx++
+			for ; nameidx < len(nameMappings); nameidx++ {
+				sname := names[nameMappings[nameidx].idx]
+				if platform != sname.PlatformID || lookupid != sname.NameID {
+					break
+				}
 
 				switch nameid {
 				case truetype.NameWWSFamily, truetype.NamePreferredFamily, truetype.NameFontFamily:
-- 
2.43.0


From 6dc86b03a3983d61d8eda19bbe2c74eea24c4e80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:47:52 +0000
Subject: [PATCH 115/139] fix: the Chinese names for Microsoft are encoded with
 the 8-bit form of GB2312

---
 fontconfig/scan.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/fontconfig/scan.go b/fontconfig/scan.go
index 442863f..1c0cc6c 100644
--- a/fontconfig/scan.go
+++ b/fontconfig/scan.go
@@ -913,7 +913,7 @@ var fcFtEncoding = [...]struct {
 	{unicode.UTF16(unicode.BigEndian, unicode.IgnoreBOM), truetype.PlatformMicrosoft, truetype.PEMicrosoftSymbolCs},
 	{unicode.UTF16(unicode.BigEndian, unicode.IgnoreBOM), truetype.PlatformMicrosoft, truetype.PEMicrosoftUnicodeCs},
 	{japanese.ShiftJIS, truetype.PlatformMicrosoft, msIdSjis},
-	{simplifiedchinese.HZGB2312, truetype.PlatformMicrosoft, msIdPrc},
+	{simplifiedchinese.GBK, truetype.PlatformMicrosoft, msIdPrc},
 	{traditionalchinese.Big5, truetype.PlatformMicrosoft, msIdBig_5},
 	{korean.EUCKR, truetype.PlatformMicrosoft, msIdWansung},
 	// {truetype.PlatformMicrosoft, msIdJohab, "Johab"}, // Johab is not supported by golang.x/text/encoding
-- 
2.43.0


From f2c73738e338eef65230048809e023337bef363e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:47:53 +0000
Subject: [PATCH 116/139] fix: the PostScript name must be the one of the name
 table

---
 fontconfig/scan.go | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/fontconfig/scan.go b/fontconfig/scan.go
index 1c0cc6c..b873149 100644
--- a/fontconfig/scan.go
+++ b/fontconfig/scan.go
@@ -1612,7 +1612,13 @@ func queryFace(face fonts.Face, file string, id uint32, sets *sharedSets) (Patte
 
 	// Add the PostScript name into the cache
 	if !variable {
-		psname := face.PoscriptName()
+		var psname string
+		// Font.PoscriptName may return another entry of the name table
+		if entry := names.SelectEntry(truetype.NamePostscript); entry != nil {
+			psname = entry.String()
+		} else {
+			psname = face.PoscriptName()
+		}
 		if psname == "" {
 			/* Workaround when PoscriptName didn't give any name.
 			* try to find out the English family name and convert. */
-- 
2.43.0


From c71f8adca98b7c96bd504b6841e494a06547d24d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:47:54 +0000
Subject: [PATCH 117/139] fix: the family of a font without names is its file
 name, without directories nor extension

---
 fontconfig/scan.go | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/fontconfig/scan.go b/fontconfig/scan.go
index b873149..e9320c9 100644
--- a/fontconfig/scan.go
+++ b/fontconfig/scan.go
@@ -1596,12 +1596,10 @@ func queryFace(face fonts.Face, file string, id uint32, sets *sharedSets) (Patte
 	}
 
 	if nfamily == 0 && file != "" {
-		start := strings.IndexByte(file, '/')
-		end := strings.IndexByte(file, '.')
-		if end == -1 {
-			end = len(file)
+		family := file[strings.LastIndexByte(file, '/')+1:]
+		if end := strings.LastIndexByte(family, '.'); end != -1 {
+			family = family[:end]
 		}
-		family := file[start+1 : end]
 		if debugMode {
 			fmt.Printf("\tusing filename for family %s\n", family)
 		}
-- 
2.43.0


From 3de090b45a82c316ccbbca92313db237e176d930 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:47:56 +0000
Subject: [PATCH 118/139] fix: looking for a word at the end of a style must
 not panic

---
 fontconfig/scan.go | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/fontconfig/scan.go b/fontconfig/scan.go
index e9320c9..e81e12a 100644
--- a/fontconfig/scan.go
+++ b/fontconfig/scan.go
@@ -1079,12 +1079,11 @@ func isPunct(c byte) bool {
 // Does s1 contain an instance of s2 on a word boundary (ignoring case)?
 func containsWord(s1, s2 []byte) bool {
 	wordStart := true
-	s1len := len(s1)
 	s2len := len(s2)
 
 	for len(s1) >= len(s2) {
 		if wordStart && bytes.HasPrefix(bytes.ToLower(s1), bytes.ToLower(s2)) &&
-			(s1len == s2len || isPunct(s1[s2len])) {
+			(len(s1) == s2len || isPunct(s1[s2len])) {
 			return true
 		}
 		wordStart = false
-- 
2.43.0


From a3bd2fb183201969081b9c4faab57c1d152690be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:47:57 +0000
Subject: [PATCH 119/139] fix: the NUL padding of the vendor is not part of the
 foundry

---
 fontconfig/scan.go | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/fontconfig/scan.go b/fontconfig/scan.go
index e81e12a..0b455b2 100644
--- a/fontconfig/scan.go
+++ b/fontconfig/scan.go
@@ -1436,8 +1436,10 @@ func queryFace(face fonts.Face, file string, id uint32, sets *sharedSets) (Patte
 	 */
 
 	if os2 != nil && os2.Version >= 0x0001 && os2.Version != 0xffff {
-		if os2.AchVendID != 0 {
-			foundry = os2.AchVendID.String()
+		// the vendor may be padded with NUL bytes
+		foundry = os2.AchVendID.String()
+		if end := strings.IndexByte(foundry, 0); end != -1 {
+			foundry = foundry[:end]
 		}
 	}
 
-- 
2.43.0


From 0416ba78d7a27730aa656c829e245a6d5c4b1a10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:47:58 +0000
Subject: [PATCH 120/139] fix: the style of a named instance is its subfamily
 name

---
 fontconfig/scan.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/fontconfig/scan.go b/fontconfig/scan.go
index 0b455b2..70682a6 100644
--- a/fontconfig/scan.go
+++ b/fontconfig/scan.go
@@ -1475,7 +1475,7 @@ func queryFace(face fonts.Face, file string, id uint32, sets *sharedSets) (Patte
 				}
 
 				if nameid == truetype.NameFontSubfamily {
-					lookupid = instance.PSStringID
+					lookupid = instance.Subfamily
 				}
 			}
 
-- 
2.43.0


From e93a607633c79d9014926778ebd60982e730ffe1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:47:59 +0000
Subject: [PATCH 121/139] fix: a broken link or an unreadable file must not
 make the scan of the directories fail

---
 fontconfig/config.go       | 10 +++++++---
 fontconfig/partial_scan.go | 10 +++++++---
 2 files changed, 14 insertions(+), 6 deletions(-)

diff --git a/fontconfig/config.go b/fontconfig/config.go
index 1bf8251..17824ea 100644
--- a/fontconfig/config.go
+++ b/fontconfig/config.go
@@ -220,8 +220,8 @@ func (config *Config) readDir(dir string, seen strSet) (Fontset, error) {
 		}
 		if info.Mode()&os.ModeSymlink != 0 {
 			path, err = filepath.EvalSymlinks(path)
-			if err != nil {
-				return err
+			if err != nil { // broken link
+				return nil
 			}
 		}
 		if !validFontFile(info.Name()) {
@@ -233,9 +233,13 @@ func (config *Config) readDir(dir string, seen strSet) (Fontset, error) {
 			return nil
 		}
 
+		// ignore the unreadable files
+		if fi, err := os.Stat(path); err != nil || !fi.Mode().IsRegular() {
+			return nil
+		}
 		file, err := os.Open(path)
 		if err != nil {
-			return err
+			return nil
 		}
 		fonts := scanOneFontFile(file, path, config)
 		file.Close()
diff --git a/fontconfig/partial_scan.go b/fontconfig/partial_scan.go
index a16d1ed..73e74af 100644
--- a/fontconfig/partial_scan.go
+++ b/fontconfig/partial_scan.go
@@ -62,17 +62,21 @@ func partialReadDir(dir string, seen map[string]bool, dst []fonts.FaceDescriptio
 
 		if info.Mode()&os.ModeSymlink != 0 {
 			path, err = filepath.EvalSymlinks(path)
-			if err != nil {
-				return err
+			if err != nil { // broken link
+				return nil
 			}
 		}
 		if !validFontFile(info.Name()) {
 			return nil
 		}
 
+		// ignore the unreadable files
+		if fi, err := os.Stat(path); err != nil || !fi.Mode().IsRegular() {
+			return nil
+		}
 		file, err := os.Open(path)
 		if err != nil {
-			return err
+			return nil
 		}
 
 		fds, _ := scanFontFile(file)
-- 
2.43.0


From 4d55a5e75a202410d7ec31e61d535e5b2e27b0d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:24:15 +0000
Subject: [PATCH 122/139] fix: accept fonts loaded without a context in the
 fontconfig font map

---
 pango/fcfonts/fontmap.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/pango/fcfonts/fontmap.go b/pango/fcfonts/fontmap.go
index 2e749d1..ab26410 100644
--- a/pango/fcfonts/fontmap.go
+++ b/pango/fcfonts/fontmap.go
@@ -267,7 +267,10 @@ func (fcfontmap *FontMap) getScaledSize(context *pango.Context, desc *pango.Font
 
 		size = size * dpi / 72.
 	}
-	_, scale := context.Matrix.GetFontScaleFactors()
+	var scale float32 = 1
+	if context != nil {
+		_, scale = context.Matrix.GetFontScaleFactors()
+	}
 	return int(.5 + scale*size)
 }
 
-- 
2.43.0


From 3d66c1f21b625291130f5574906172f409de37df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:24:15 +0000
Subject: [PATCH 123/139] fix: skip the fonts which can not be loaded

---
 pango/fcfonts/fonset.go  | 31 +++++++++++++++++--------------
 pango/fcfonts/fontmap.go |  7 +++++--
 2 files changed, 22 insertions(+), 16 deletions(-)

diff --git a/pango/fcfonts/fonset.go b/pango/fcfonts/fonset.go
index 0c50be0..42241c8 100644
--- a/pango/fcfonts/fonset.go
+++ b/pango/fcfonts/fonset.go
@@ -27,25 +27,28 @@ func newFontset(key fontsetKey, patterns *cachedPattern) *Fontset {
 
 func (fs *Fontset) GetLanguage() pango.Language { return fs.key.language }
 
-// may return nil
+// loadNextFont returns the next font which can be loaded, or nil
 func (fs *Fontset) loadNextFont() *Font {
 	pattern := fs.patterns.pattern
-	fontPattern, prepare := fs.patterns.getFontPattern(fs.currentPatternIndex)
-	fs.currentPatternIndex++
-	if fontPattern == nil {
-		return nil
-	}
+	for {
+		fontPattern, prepare := fs.patterns.getFontPattern(fs.currentPatternIndex)
+		fs.currentPatternIndex++
+		if fontPattern == nil {
+			return nil
+		}
 
-	if prepare {
-		fontPattern = fs.patterns.fontmap.Config.PrepareRender(pattern, fontPattern)
-	}
+		if prepare {
+			fontPattern = fs.patterns.fontmap.Config.PrepareRender(pattern, fontPattern)
+		}
 
-	font, err := fs.key.fontmap.newFont(*fs.key, fontPattern)
-	if err != nil {
-		log.Println(err)
-	}
+		font, err := fs.key.fontmap.newFont(*fs.key, fontPattern)
+		if err != nil { // try the next one
+			log.Println(err)
+			continue
+		}
 
-	return font
+		return font
+	}
 }
 
 // lazy loading
diff --git a/pango/fcfonts/fontmap.go b/pango/fcfonts/fontmap.go
index ab26410..52dc1fb 100644
--- a/pango/fcfonts/fontmap.go
+++ b/pango/fcfonts/fontmap.go
@@ -551,9 +551,12 @@ func (fontmap *FontMap) newFont(fsKey fontsetKey, match fc.Pattern) (*Font, erro
 	// cache it on fontmap
 	fontmap.fontHash.insert(key, fcfont)
 
-	err := fcfont.loadHBFont()
+	if err := fcfont.loadHBFont(); err != nil {
+		fontmap.fontHash.remove(key) // the font is not usable
+		return nil, err
+	}
 
-	return fcfont, err
+	return fcfont, nil
 }
 
 func (key *fontsetKey) defaultSubstitute(fontmap *FontMap, pattern fc.Pattern) {
-- 
2.43.0


From 11a732400171da597c64ed40ea463f2dfa602fa8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:24:15 +0000
Subject: [PATCH 124/139] fix: notify the contexts when the configuration of
 the font map changes

---
 pango/fcfonts/fontmap.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/pango/fcfonts/fontmap.go b/pango/fcfonts/fontmap.go
index 52dc1fb..ece51ba 100644
--- a/pango/fcfonts/fontmap.go
+++ b/pango/fcfonts/fontmap.go
@@ -204,6 +204,12 @@ func (fontmap *FontMap) clearCache() {
 	for k := range fontmap.fontKeyHash {
 		delete(fontmap.fontKeyHash, k)
 	}
+
+	// notify the contexts and the layouts
+	fontmap.serial++
+	if fontmap.serial == 0 {
+		fontmap.serial++
+	}
 }
 
 func (fontmap *FontMap) getFontFaceData(fontPattern fc.Pattern) (faceDataKey, *faceData) {
-- 
2.43.0


From 57ca283985ba05f8a04b6902d0022b542fc0877f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:24:15 +0000
Subject: [PATCH 125/139] fix: do not share the variations between the fonts of
 a file

---
 pango/fcfonts/fonts.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/pango/fcfonts/fonts.go b/pango/fcfonts/fonts.go
index d08df5c..8c7c318 100644
--- a/pango/fcfonts/fonts.go
+++ b/pango/fcfonts/fonts.go
@@ -369,6 +369,12 @@ func (font *Font) loadHBFont() error {
 		return err
 	}
 
+	if variable, ok := face.(*truetype.Font); ok && len(variable.Variations().Axis) != 0 {
+		// the face is shared between the fonts, which have their own variations
+		faceCopy := *variable
+		face = &faceCopy
+	}
+
 	font.hbFont = harfbuzz.NewFont(face)
 
 	font.hbFont.XScale, font.hbFont.YScale = int32(pixelSize*pango.Scale*xScale), int32(pixelSize*pango.Scale*yScale)
-- 
2.43.0


From 1fdc444ebb8efa5acf81438d0f50bce6e27c2904 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:24:15 +0000
Subject: [PATCH 126/139] fix: do not alter the named instances of a font

---
 pango/fcfonts/fonts.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pango/fcfonts/fonts.go b/pango/fcfonts/fonts.go
index 8c7c318..290bbef 100644
--- a/pango/fcfonts/fonts.go
+++ b/pango/fcfonts/fonts.go
@@ -390,7 +390,8 @@ func (font *Font) loadHBFont() error {
 
 		if index, ok := key.pattern.GetInt(fc.INDEX); ok && index != 0 {
 			if instance := (index >> 16) - 1; instance >= 0 && int(instance) < len(fvar.Instances) {
-				coords = fvar.Instances[instance].Coords
+				// do not alter the coordinates of the instance
+				coords = append([]float32(nil), fvar.Instances[instance].Coords...)
 			}
 		}
 
-- 
2.43.0


From 193626b7c2dc4328df8b0ba2435674fcc0871c38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:24:15 +0000
Subject: [PATCH 127/139] fix: do not repeat the variations in the description
 of a font, so that its metrics are finite

---
 pango/fcfonts/fonts.go | 20 +++++++++++++++++++-
 1 file changed, 19 insertions(+), 1 deletion(-)

diff --git a/pango/fcfonts/fonts.go b/pango/fcfonts/fonts.go
index 290bbef..7fba2df 100644
--- a/pango/fcfonts/fonts.go
+++ b/pango/fcfonts/fonts.go
@@ -197,7 +197,7 @@ func newFontDescriptionFromPattern(pattern fc.Pattern, includeSize bool) pango.F
 	}
 
 	if s, ok := pattern.GetString(fc.FONT_VARIATIONS); includeSize && ok {
-		if s != "" {
+		if s = simplifyVariations(s); s != "" {
 			desc.SetVariations(s)
 		}
 	}
@@ -205,6 +205,24 @@ func newFontDescriptionFromPattern(pattern fc.Pattern, includeSize bool) pango.F
 	return desc
 }
 
+// simplifyVariations only keeps the last (effective) value of each axis:
+// fontconfig appends the variations of the query to the ones of the font, so that
+// loading the description of a font again would otherwise repeat them at each step.
+func simplifyVariations(variations string) string {
+	var out []string
+	seen := make(map[truetype.Tag]bool)
+	varis := strings.Split(variations, ",")
+	for i := len(varis) - 1; i >= 0; i-- {
+		vari, err := harfbuzz.ParseVariation(varis[i])
+		if err != nil || seen[vari.Tag] {
+			continue
+		}
+		seen[vari.Tag] = true
+		out = append([]string{varis[i]}, out...)
+	}
+	return strings.Join(out, ",")
+}
+
 type glyphInfo struct {
 	logicalRect, inkRect pango.Rectangle
 }
-- 
2.43.0


From c8b779961deac2e1f51e1baff25c302fa53182fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:24:16 +0000
Subject: [PATCH 128/139] fix: keep the metrics of a language when another one
 is needed to compute them

---
 pango/fcfonts/fonts.go | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/pango/fcfonts/fonts.go b/pango/fcfonts/fonts.go
index 7fba2df..8d0584d 100644
--- a/pango/fcfonts/fonts.go
+++ b/pango/fcfonts/fonts.go
@@ -40,7 +40,7 @@ type Font struct {
 
 	fontmap       *FontMap   // associated map
 	Pattern       fc.Pattern // fully resolved pattern
-	metricsByLang []fcMetricsInfo
+	metricsByLang []*fcMetricsInfo
 	description   pango.FontDescription
 	// matrix        pango.Matrix // used internally
 
@@ -499,9 +499,8 @@ func (font *Font) GetMetrics(lang pango.Language) pango.FontMetrics {
 
 	/* Note: we need to add info to the list before calling
 	* into PangoLayout below, to prevent recursion */
-	font.metricsByLang = append(font.metricsByLang, fcMetricsInfo{})
-	info := &font.metricsByLang[len(font.metricsByLang)-1]
-	info.sampleStr = sampleStr
+	info := &fcMetricsInfo{sampleStr: sampleStr}
+	font.metricsByLang = append(font.metricsByLang, info)
 
 	context := pango.NewContext(fontmap)
 	context.SetLanguage(lang)
-- 
2.43.0


From 0f791746c1fcaca216da9db81bc46fa7de23ff55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:49:39 +0000
Subject: [PATCH 129/139] fix: put the shapes of a right-to-left text in visual
 order

---
 pango/layout_line.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pango/layout_line.go b/pango/layout_line.go
index c342e88..5fa0dbf 100644
--- a/pango/layout_line.go
+++ b/pango/layout_line.go
@@ -247,6 +247,9 @@ func (line *LayoutLine) shapeRun(state *paraBreakState, item *Item) *GlyphString
 		}
 		if state.properties.shape != nil {
 			glyphs._pango_shape_shape(layout.Text[item.Offset:item.Offset+item.Length], state.properties.shape.logical)
+			if item.Analysis.Level&1 != 0 { // the glyphs are in visual order
+				glyphs.reverse()
+			}
 		} else {
 			item.Shape(layout.Text, layout.logAttrs[state.startOffset:], glyphs, shapeFlag)
 		}
-- 
2.43.0


From 6214ac3b259a9f45f3425401a3df6e75d7930a7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:49:40 +0000
Subject: [PATCH 130/139] fix: shape capitalized items without log attributes,
 as the ellipsis

---
 pango/shape.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pango/shape.go b/pango/shape.go
index c4796bc..590a808 100644
--- a/pango/shape.go
+++ b/pango/shape.go
@@ -164,7 +164,7 @@ func (glyphs *GlyphString) harfbuzzShape(analysis *Analysis, paragraphText []run
 
 	hyphenIndex := itemOffset + itemLength - 1
 	if analysis.Flags&AFNeedHyphen != 0 {
-		if logAttrs[numChars].IsBreakRemovesPreceding() {
+		if logAttrs != nil && logAttrs[numChars].IsBreakRemovesPreceding() {
 			itemLength -= 1
 		}
 	}
@@ -182,7 +182,7 @@ func (glyphs *GlyphString) harfbuzzShape(analysis *Analysis, paragraphText []run
 			case TEXT_TRANSFORM_UPPERCASE:
 				ch = unicode.ToUpper(ch)
 			case TEXT_TRANSFORM_CAPITALIZE:
-				if logAttrs[i].IsWordStart() {
+				if logAttrs != nil && logAttrs[i].IsWordStart() {
 					ch = unicode.ToTitle(ch)
 				}
 			}
-- 
2.43.0


From a74f02475cb0aa200cb5bb89633ff58d822ab3ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:49:41 +0000
Subject: [PATCH 131/139] fix: lay out texts for which there is no font

---
 pango/fonts.go      | 21 +++++++++++++++++++++
 pango/glyph_item.go |  4 ++--
 pango/glyphs.go     |  6 +++---
 pango/item.go       |  9 ++++++++-
 pango/layout.go     |  2 +-
 pango/shape.go      |  2 ++
 6 files changed, 37 insertions(+), 7 deletions(-)

diff --git a/pango/fonts.go b/pango/fonts.go
index d8b233a..16a2219 100644
--- a/pango/fonts.go
+++ b/pango/fonts.go
@@ -873,6 +873,27 @@ func FontGetMetrics(font Font, language Language) FontMetrics {
 	return metrics
 }
 
+// fontGlyphExtents returns the extents of `glyph`, with some sane values
+// if `font` is `nil`
+func fontGlyphExtents(font Font, glyph Glyph, inkRect, logicalRect *Rectangle) {
+	if font != nil {
+		font.GlyphExtents(glyph, inkRect, logicalRect)
+		return
+	}
+	if inkRect != nil {
+		inkRect.X = Scale
+		inkRect.Y = -Scale * (unknownGlyphHeight - 1)
+		inkRect.Width = Scale * (unknownGlyphWidth - 2)
+		inkRect.Height = Scale * (unknownGlyphHeight - 2)
+	}
+	if logicalRect != nil {
+		logicalRect.X = 0
+		logicalRect.Y = -Scale * unknownGlyphHeight
+		logicalRect.Width = Scale * unknownGlyphWidth
+		logicalRect.Height = Scale * unknownGlyphHeight
+	}
+}
+
 func (metrics *FontMetrics) update_metrics_from_items(language Language, text []rune, items *ItemList) {
 	// This should typically be called with a sample text string.
 	if len(text) == 0 {
diff --git a/pango/glyph_item.go b/pango/glyph_item.go
index 1a3cd0d..aa10182 100644
--- a/pango/glyph_item.go
+++ b/pango/glyph_item.go
@@ -230,7 +230,7 @@ func (run *GlyphItem) getExtentsAndHeight(runInk, runLogical, lineLogical *Recta
 
 	if runInk != nil && (hasUnderline || hasOverline || properties.strikethrough) {
 		if metrics == nil {
-			me := run.Item.Analysis.Font.GetMetrics(run.Item.Analysis.Language)
+			me := FontGetMetrics(run.Item.Analysis.Font, run.Item.Analysis.Language)
 			metrics = &me
 		}
 
@@ -276,7 +276,7 @@ func (run *GlyphItem) getExtentsAndHeight(runInk, runLogical, lineLogical *Recta
 
 	if height != nil {
 		if metrics == nil {
-			me := run.Item.Analysis.Font.GetMetrics(run.Item.Analysis.Language)
+			me := FontGetMetrics(run.Item.Analysis.Font, run.Item.Analysis.Language)
 			metrics = &me
 		}
 		*height = metrics.Height
diff --git a/pango/glyphs.go b/pango/glyphs.go
index fd15d4a..3d5df8e 100644
--- a/pango/glyphs.go
+++ b/pango/glyphs.go
@@ -210,7 +210,7 @@ func (glyphs *GlyphString) fallbackShape(text []rune, analysis *Analysis) {
 		}
 
 		var logicalRect Rectangle
-		analysis.Font.GlyphExtents(glyph, nil, &logicalRect)
+		fontGlyphExtents(analysis.Font, glyph, nil, &logicalRect)
 
 		glyphs.Glyphs[i].Glyph = glyph
 
@@ -337,7 +337,7 @@ func (glyphs *GlyphString) extentsRange(start, end int, font Font, inkRect, logi
 
 		geometry := &glyphs.Glyphs[i].Geometry
 
-		font.GlyphExtents(glyphs.Glyphs[i].Glyph, &glyphInk, &glyphLogical)
+		fontGlyphExtents(font, glyphs.Glyphs[i].Glyph, &glyphInk, &glyphLogical)
 
 		if inkRect != nil && glyphInk.Width != 0 && glyphInk.Height != 0 {
 			if inkRect.Width == 0 || inkRect.Height == 0 {
@@ -514,7 +514,7 @@ func (glyphs *GlyphString) indexToXFull(text []rune, analysis *Analysis, index i
 	// Try to get a ligature caret position for the glyph from the font.
 	// This only makes sense if the cluster contains a single spacing
 	// glyph, so we need to check that all but one of them are marks.
-	if clusterOffset > 0 && clusterOffset < clusterChars {
+	if clusterOffset > 0 && clusterOffset < clusterChars && analysis.Font != nil {
 		hbFont := analysis.Font.GetHarfbuzzFont()
 
 		var glyphPos int
diff --git a/pango/item.go b/pango/item.go
index c4e98b7..2d7054f 100644
--- a/pango/item.go
+++ b/pango/item.go
@@ -327,7 +327,7 @@ func (context *Context) collectFontScale(stack *list.List, item, prev *Item) (fl
 					hbFont *harfbuzz.Font
 					yScale int32
 				)
-				if prev != nil {
+				if prev != nil && prev.Analysis.Font != nil {
 					hbFont = prev.Analysis.Font.GetHarfbuzzFont()
 					yScale = hbFont.YScale
 				}
@@ -387,6 +387,10 @@ func (context *Context) collectFontScale(stack *list.List, item, prev *Item) (fl
 }
 
 func (context *Context) applyScaleToItem(item *Item, scale float32) {
+	if item.Analysis.Font == nil {
+		return
+	}
+
 	desc := item.Analysis.Font.Describe(false)
 	size := scale * float32(desc.Size)
 
@@ -466,6 +470,9 @@ func (item *Item) variantSupported(variant Variant) bool {
 }
 
 func (item *Item) getFontVariant() Variant {
+	if item.Analysis.Font == nil {
+		return VARIANT_NORMAL
+	}
 	return item.Analysis.Font.Describe(false).Variant
 }
 
diff --git a/pango/layout.go b/pango/layout.go
index ba2bc6a..2e51d1f 100644
--- a/pango/layout.go
+++ b/pango/layout.go
@@ -1487,7 +1487,7 @@ func (layout *Layout) tryAddItemToLine(line *LayoutLine, state *paraBreakState,
 
 	// Add some safety margin here. If we are farther away from the end of the
 	// line than this, we don't look carefully at a break possibility.
-	metrics := item.Analysis.Font.GetMetrics(item.Analysis.Language)
+	metrics := FontGetMetrics(item.Analysis.Font, item.Analysis.Language)
 	safe_distance := metrics.ApproximateCharWidth * 3
 
 	if processingNewItem {
diff --git a/pango/shape.go b/pango/shape.go
index 590a808..2bfe257 100644
--- a/pango/shape.go
+++ b/pango/shape.go
@@ -258,6 +258,8 @@ func (glyphs *GlyphString) shapeInternal(paragraphText []rune, itemOffset, itemL
 
 	itemText := paragraphText[itemOffset : itemOffset+itemLength]
 
+	glyphs.setSize(0)
+
 	if analysis.Font != nil {
 		glyphs.harfbuzzShape(analysis, paragraphText, itemOffset, itemLength, logAttrs, numChars)
 
-- 
2.43.0


From f3efae424651f772d0fc5a66123b19d9cede273f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:49:42 +0000
Subject: [PATCH 132/139] fix: itemize texts with the characters above U+10FFFD

---
 pango/context.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pango/context.go b/pango/context.go
index fe0a784..7d66885 100644
--- a/pango/context.go
+++ b/pango/context.go
@@ -427,7 +427,7 @@ func isUpright(ch rune) bool {
 
 	const max = len(upright)
 	st := 0
-	ed := max
+	ed := max - 1
 
 	for st <= ed {
 		mid := (st + ed) / 2
-- 
2.43.0


From cbb33d235855d433310ea9f84a4bbed56fff4aca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:15:32 +0000
Subject: [PATCH 133/139] fix: take into account the changes of the matrix of a
 context

---
 pango/context.go | 24 +++++++++++++++++++++++-
 1 file changed, 23 insertions(+), 1 deletion(-)

diff --git a/pango/context.go b/pango/context.go
index 7d66885..4832546 100644
--- a/pango/context.go
+++ b/pango/context.go
@@ -51,6 +51,8 @@ type Context struct {
 	base_gravity, resolvedGravity Gravity
 	gravityHint                   GravityHint
 
+	usedMatrix Matrix // the value of Matrix the last time it was checked
+
 	// Returns whether font rendering with this context should
 	// round glyph positions and widths.
 	// This is a read-only property, see SetRoundGlyphPositions.
@@ -67,6 +69,7 @@ func NewContext(fontmap FontMap) *Context {
 	context.serial = 1
 	context.language = DefaultLanguage()
 	context.RoundGlyphPositions = true
+	context.usedMatrix = Identity
 
 	font_desc := NewFontDescription()
 	font_desc.SetFamily("serif")
@@ -164,7 +167,11 @@ func (context *Context) SetBaseGravity(gravity Gravity) {
 
 	context.base_gravity = gravity
 
-	//  update_resolved_gravity
+	context.checkMatrixChanged()
+	context.updateResolvedGravity()
+}
+
+func (context *Context) updateResolvedGravity() {
 	if context.base_gravity == GRAVITY_AUTO {
 		context.resolvedGravity = gravityFromMatrix(context.Matrix)
 	} else {
@@ -538,6 +545,7 @@ func (context *Context) newItemizeState(text []rune, baseDir Direction,
 ) *itemizeState {
 	var state itemizeState
 	length := len(text) - startIndex
+	context.checkMatrixChanged()
 	state.context = context
 	state.text = text
 	state.end = startIndex + length
@@ -1020,9 +1028,23 @@ func getBaseMetrics(fs Fontset) FontMetrics {
 // `Context` changes, like `Layout`.
 func (context *Context) getSerial() uint {
 	context.checkFontmapChanged()
+	context.checkMatrixChanged()
 	return context.serial
 }
 
+// Matrix is a public field, which may have been changed
+func (context *Context) checkMatrixChanged() {
+	matrix := Identity // no matrix is the same as the identity
+	if context.Matrix != nil {
+		matrix = *context.Matrix
+	}
+	if matrix != context.usedMatrix {
+		context.usedMatrix = matrix
+		context.updateResolvedGravity()
+		context.contextChanged()
+	}
+}
+
 func (context *Context) checkFontmapChanged() {
 	if context.fontMap == nil {
 		return
-- 
2.43.0


From 42e72eb3f3e8f303b5e2caa97a1d74ce8685d70b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:15:33 +0000
Subject: [PATCH 134/139] fix: Old Hungarian is written from right to left

---
 pango/gravity.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pango/gravity.go b/pango/gravity.go
index c04e4b9..587c2a3 100644
--- a/pango/gravity.go
+++ b/pango/gravity.go
@@ -315,7 +315,7 @@ var scriptProperties = map[Script]scriptProps{ /* ISO 15924 code */
 	language.Anatolian_Hieroglyphs: {ltr, vectDirNone, GRAVITY_SOUTH, false}, /* Hluw */
 	language.Hatran:                {rtl, vectDirNone, GRAVITY_SOUTH, false}, /* Hatr */
 	language.Multani:               {ltr, vectDirNone, GRAVITY_SOUTH, false}, /* Mult */
-	language.Old_Hungarian:         {ltr, vectDirNone, GRAVITY_SOUTH, false}, /* Hung */
+	language.Old_Hungarian:         {rtl, vectDirNone, GRAVITY_SOUTH, false}, /* Hung */
 	language.SignWriting:           {ltr, vectDirNone, GRAVITY_SOUTH, false}, /* Sgnw */
 
 	/* Unicode-9.0 additions */
-- 
2.43.0


From 473dce01edd1ddc18c85cd313fd5a008f7b36a0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:15:33 +0000
Subject: [PATCH 135/139] fix: rotate the extents of the glyphs by the gravity
 of the font

---
 pango/fcfonts/fonts.go | 24 +++++++++++++++---------
 1 file changed, 15 insertions(+), 9 deletions(-)

diff --git a/pango/fcfonts/fonts.go b/pango/fcfonts/fonts.go
index 8d0584d..cf7e641 100644
--- a/pango/fcfonts/fonts.go
+++ b/pango/fcfonts/fonts.go
@@ -227,18 +227,18 @@ type glyphInfo struct {
 	logicalRect, inkRect pango.Rectangle
 }
 
+// rotate the extents of an upright glyph
 func applyGravity(gravity pango.Gravity, r *pango.Rectangle) {
 	switch gravity {
 	default: // nothing to do
-	case pango.GRAVITY_NORTH: // pi
-		r.X, r.Y = -r.X-r.Width, -r.Y+r.Height
-		r.Width, r.Height = -r.Width, -r.Height
-	case pango.GRAVITY_EAST: // -pi/2
-		r.X, r.Y = r.Y-r.Height, -r.X
+	case pango.GRAVITY_NORTH: // half turn
+		r.X, r.Y = -r.X-r.Width, -r.Y-r.Height
+	case pango.GRAVITY_EAST: // quarter turn, anticlockwise
+		r.X, r.Y = r.Y, -r.X-r.Width
+		r.Width, r.Height = r.Height, r.Width
+	case pango.GRAVITY_WEST: // quarter turn, clockwise
+		r.X, r.Y = -r.Y-r.Height, r.X
 		r.Width, r.Height = r.Height, r.Width
-	case pango.GRAVITY_WEST: // + pi/2
-		r.X, r.Y = r.Y, r.X+r.Width
-		r.Width, r.Height = -r.Height, -r.Width
 	}
 }
 
@@ -250,9 +250,15 @@ func (font *Font) getGlyphInfo(glyph pango.Glyph) *glyphInfo {
 		info.inkRect, info.logicalRect = font.getRawExtents(glyph)
 
 		gravity := font.key.getGravity()
+		if gravity.IsImproper() { // the scales of the harfbuzz font are negative
+			for _, r := range [...]*pango.Rectangle{&info.inkRect, &info.logicalRect} {
+				r.X, r.Y, r.Width, r.Height = -r.X, -r.Y, -r.Width, -r.Height
+			}
+		}
 		applyGravity(gravity, &info.inkRect)
 		applyGravity(gravity, &info.logicalRect)
-		if gravity.IsImproper() {
+		if gravity.IsImproper() { // the glyph advances to the left
+			info.logicalRect.X += info.logicalRect.Width
 			info.logicalRect.Width = -info.logicalRect.Width
 		}
 		font.glyphInfo[glyph] = info
-- 
2.43.0


From 08e2030ccaaab1bb5b236d85c97dfbde4ad541c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:41:19 +0000
Subject: [PATCH 136/139] fix: metrics of the fonts in user space, whatever the
 matrix and the gravity

---
 pango/fcfonts/fonts.go | 37 ++++++++++++++++++++++++-------------
 1 file changed, 24 insertions(+), 13 deletions(-)

diff --git a/pango/fcfonts/fonts.go b/pango/fcfonts/fonts.go
index cf7e641..69f9910 100644
--- a/pango/fcfonts/fonts.go
+++ b/pango/fcfonts/fonts.go
@@ -515,6 +515,14 @@ func (font *Font) GetMetrics(lang pango.Language) pango.FontMetrics {
 
 	// Compute derived metrics
 	desc := font.Describe(true)
+	if font.key != nil { // in user space
+		matrix := font.key.matrix
+		_, scale := matrix.GetFontScaleFactors()
+		if scale != 0 {
+			desc.SetAbsoluteSize(int32(float32(desc.Size) / scale))
+		}
+		context.Matrix = &matrix
+	}
 
 	layout := pango.NewLayout(context)
 	layout.SetFontDescription(&desc)
@@ -538,16 +546,19 @@ func (font *Font) getFaceMetrics() pango.FontMetrics {
 
 	extents := hbFont.ExtentsForDirection(harfbuzz.LeftToRight)
 	var metrics pango.FontMetrics
-	fcMatrix, haveTransform := font.Pattern.GetMatrix(fc.MATRIX)
-	if haveTransform {
-		metrics.Descent = -pango.Unit(float32(extents.Descender) * fcMatrix.Yy)
-		metrics.Ascent = pango.Unit(float32(extents.Ascender) * fcMatrix.Yy)
-		metrics.Height = pango.Unit(float32(extents.Ascender-extents.Descender+extents.LineGap) * fcMatrix.Yy)
-	} else {
-		metrics.Descent = -pango.Unit(extents.Descender)
-		metrics.Ascent = pango.Unit(extents.Ascender)
-		metrics.Height = pango.Unit(extents.Ascender - extents.Descender + extents.LineGap)
+	// the scales of the harfbuzz font are in user space
+	metrics.Descent = -pango.Unit(extents.Descender)
+	metrics.Ascent = pango.Unit(extents.Ascender)
+	metrics.Height = pango.Unit(extents.Ascender - extents.Descender + extents.LineGap)
+
+	// and negative for the improper gravities
+	var sign pango.Unit = 1
+	if font.key != nil && font.key.getGravity().IsImproper() {
+		sign = -1
 	}
+	metrics.Descent *= sign
+	metrics.Ascent *= sign
+	metrics.Height *= sign
 
 	metrics.UnderlineThickness = pango.Scale
 	metrics.UnderlinePosition = -pango.Scale
@@ -555,19 +566,19 @@ func (font *Font) getFaceMetrics() pango.FontMetrics {
 	metrics.StrikethroughPosition = metrics.Ascent / 2
 
 	if position, ok := hbFont.LineMetric(fonts.UnderlineThickness); ok {
-		metrics.UnderlineThickness = pango.Unit(position)
+		metrics.UnderlineThickness = sign * pango.Unit(position)
 	}
 
 	if position, ok := hbFont.LineMetric(fonts.UnderlinePosition); ok {
-		metrics.UnderlinePosition = pango.Unit(position)
+		metrics.UnderlinePosition = sign * pango.Unit(position)
 	}
 
 	if position, ok := hbFont.LineMetric(fonts.StrikethroughThickness); ok {
-		metrics.StrikethroughThickness = pango.Unit(position)
+		metrics.StrikethroughThickness = sign * pango.Unit(position)
 	}
 
 	if position, ok := hbFont.LineMetric(fonts.StrikethroughPosition); ok {
-		metrics.StrikethroughPosition = pango.Unit(position)
+		metrics.StrikethroughPosition = sign * pango.Unit(position)
 	}
 
 	return metrics
-- 
2.43.0


From 8604d8f297b508ddfe80b05756b8a92416ee2b0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:41:19 +0000
Subject: [PATCH 137/139] fix: describe the fonts with the size asked for,
 whatever the matrix of the context

---
 pango/fcfonts/fonts.go | 24 ++++++++++++------------
 1 file changed, 12 insertions(+), 12 deletions(-)

diff --git a/pango/fcfonts/fonts.go b/pango/fcfonts/fonts.go
index 69f9910..f8f3572 100644
--- a/pango/fcfonts/fonts.go
+++ b/pango/fcfonts/fonts.go
@@ -317,15 +317,19 @@ type fcMetricsInfo struct {
 }
 
 func (font *Font) Describe(absolute bool) pango.FontDescription {
-	if !absolute {
-		return font.description
+	desc, scale := font.description, float32(1)
+	if font.key != nil {
+		// the sizes of the patterns are scaled by the matrix of the context: go back to user space
+		desc = newFontDescriptionFromPattern(font.key.pattern, true)
+		if _, s := font.key.matrix.GetFontScaleFactors(); s != 0 {
+			scale = s
+		}
 	}
 
-	desc := font.description
-
-	size, ok := font.Pattern.GetFloat(fc.PIXEL_SIZE)
-	if ok {
-		desc.SetAbsoluteSize(int32(size * float32(pango.Scale)))
+	if size, ok := font.Pattern.GetFloat(fc.PIXEL_SIZE); absolute && ok {
+		desc.SetAbsoluteSize(int32(size * float32(pango.Scale) / scale))
+	} else if scale != 1 {
+		desc.SetSize(int32(float32(desc.Size) / scale))
 	}
 
 	return desc
@@ -515,12 +519,8 @@ func (font *Font) GetMetrics(lang pango.Language) pango.FontMetrics {
 
 	// Compute derived metrics
 	desc := font.Describe(true)
-	if font.key != nil { // in user space
+	if font.key != nil {
 		matrix := font.key.matrix
-		_, scale := matrix.GetFontScaleFactors()
-		if scale != 0 {
-			desc.SetAbsoluteSize(int32(float32(desc.Size) / scale))
-		}
 		context.Matrix = &matrix
 	}
 
-- 
2.43.0


From 01e97a1838da5cf7c3c5a1ed00515286769ce08e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:41:19 +0000
Subject: [PATCH 138/139] fix: describe the stretch of the fonts

---
 pango/fcfonts/fonts.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pango/fcfonts/fonts.go b/pango/fcfonts/fonts.go
index f8f3572..d198abd 100644
--- a/pango/fcfonts/fonts.go
+++ b/pango/fcfonts/fonts.go
@@ -131,8 +131,8 @@ func newFontDescriptionFromPattern(pattern fc.Pattern, includeSize bool) pango.F
 	desc.SetWeight(weight)
 
 	stretch := pango.STRETCH_NORMAL
-	if i, ok := pattern.GetInt(fc.WIDTH); ok {
-		stretch = widthToPango(i)
+	if w, ok := pattern.GetFloat(fc.WIDTH); ok { // the scanned fonts have float widths
+		stretch = widthToPango(int32(w))
 	}
 	desc.SetStretch(stretch)
 
-- 
2.43.0


From 2b3670a6e6b53825b5a9fb0074829a1e82dc7f56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:41:20 +0000
Subject: [PATCH 139/139] fix: the glyphs of a Type 1 font without character
 are not characters

---
 fontconfig/scan.go | 37 +++++++++++++++++++++++++++++++++++--
 1 file changed, 35 insertions(+), 2 deletions(-)

diff --git a/fontconfig/scan.go b/fontconfig/scan.go
index 70682a6..56de9ef 100644
--- a/fontconfig/scan.go
+++ b/fontconfig/scan.go
@@ -1966,6 +1966,39 @@ func abs(x int) int {
 
 func approximatelyEqual(x, y int) bool { return abs(x-y)*33 <= max(abs(x), abs(y)) }
 
+// sortedCmap iterates through the characters in increasing order
+type sortedCmap struct {
+	cmap  fonts.CmapSimple
+	chars []rune
+}
+
+func (s *sortedCmap) Next() bool { return len(s.chars) != 0 }
+
+func (s *sortedCmap) Char() (rune, fonts.GID) {
+	r := s.chars[0]
+	s.chars = s.chars[1:]
+	return r, s.cmap[r]
+}
+
+// iterates through the characters of the font; for Type 1 fonts,
+// the glyphs which have no character are ignored
+func iterCmap(face fonts.Face, cmap fonts.Cmap) fonts.CmapIter {
+	simple, ok := cmap.(fonts.CmapSimple)
+	if !ok {
+		return cmap.Iter()
+	}
+	out := sortedCmap{cmap: simple}
+	type1Font, isType1 := face.(*type1.Font)
+	for r, gid := range simple {
+		if isType1 && (r == 0 || type1Font.GlyphName(gid) == type1.Notdef) {
+			continue
+		}
+		out.chars = append(out.chars, r)
+	}
+	sort.Slice(out.chars, func(i, j int) bool { return out.chars[i] < out.chars[j] })
+	return &out
+}
+
 func getSpacing(face fonts.Face) int32 {
 	cmap, enc := face.Cmap()
 	if enc != fonts.EncUnicode && enc != fonts.EncSymbol {
@@ -1973,7 +2006,7 @@ func getSpacing(face fonts.Face) int32 {
 	}
 
 	advances := make([]int, 0, 3)
-	iter := cmap.Iter()
+	iter := iterCmap(face, cmap)
 	for iter.Next() && len(advances) < 3 {
 		_, glyph := iter.Char()
 		advance := int(face.HorizontalAdvance(glyph))
@@ -2014,7 +2047,7 @@ func getCharSet(face fonts.Face) (Charset, fonts.CmapEncoding) {
 		page = ^uint16(0)
 		off  uint32
 	)
-	iter := cmap.Iter()
+	iter := iterCmap(face, cmap)
 	for iter.Next() {
 		ucs4, _ := iter.Char()
 
-- 
2.43.0

