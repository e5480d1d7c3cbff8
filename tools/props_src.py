TECH = "exhaustive bounded enumeration of executions of the real code (choice-vector explorer) against a reference model"
PROPS = []

def prop(**k):
    k.setdefault("technique", TECH)
    PROPS.append(k)

def mech(*l):
    return [{"name": a, "where": b} for a, b in l]

prop(id="C01", title="Bidi embedding levels are those of the Unicode Bidirectional Algorithm",
  statement="For every paragraph, given as bidi classes and paired brackets, and every requested base direction (explicit, or automatic with a default), the resolved paragraph direction and the embedding level of every character not removed by the algorithm are those defined by UAX #9 (rules P2 to I2 and L1), including nested embeddings, overrides, isolates, bracket pairs and the limits on depth. The reported maximum level is the greatest level resolved.",
  quantifier={"over": ["inputs"], "text": "all sequences of bidi classes and brackets, all base directions"},
  why_tests_cant="The conformance data files are absent, so the stable tests only look at tables and a few CapRTL strings; the rules interact (depth overflow, isolates, brackets, marks) and only enumeration of class sequences reaches the combinations.",
  anchors={"files": ["fribidi/bidi.go", "fribidi/run.go", "fribidi/brackets.go"], "mechanism": mech(("GetParEmbeddingLevels", "fribidi/bidi.go"), ("run list helpers", "fribidi/run.go"), ("GetBracket", "fribidi/brackets.go")), "observe_at": "GetParEmbeddingLevels result"},
  level_note="Every class sequence up to length 4 (22 classes + B, 5 base directions) and 5, longer ones over reduced alphabets, run-length coded deep nestings; nothing beyond the bounds.",
  assumptions=["levels of the characters removed by X9 are free", "one paragraph per call: B only at the end"])

prop(id="C02", title="Visual reordering is the L1-L2 permutation; maps and strings stay consistent",
  statement="Reordering any line of a paragraph permutes exactly the characters of the line, into the visual order given by rules L1 to L3 for the resolved levels, and touches nothing outside the line; the visual string, the visual-to-logical map and the logical-to-visual map always describe the same permutation. Removing the bidi marks keeps exactly the other characters, in order, with their levels, and both position maps remain inverse of each other with -1 for the removed characters.",
  quantifier={"over": ["inputs"], "text": "all paragraphs, resolved levels, line splits, flags and position maps"},
  why_tests_cant="The stable tests never call the line functions on part of a paragraph and never remove marks with maps; the property quantifies over levels, cuts and maps.",
  anchors={"files": ["fribidi/bidi.go", "fribidi/fridibi.go"], "mechanism": mech(("ReorderLine", "fribidi/bidi.go"), ("LogicalToVisual", "fribidi/fridibi.go"), ("RemoveBidiMarks", "fribidi/fridibi.go"))},
  level_note="All paragraphs up to 4-6 characters over reduced alphabets, every cut in two lines, all levels 0-3, all segment-reversal maps.",
  assumptions=["levels of removed characters are free; they follow the previous character"])

prop(id="C03", title="Arabic joining, mandatory ligatures and mirroring follow Unicode at every level",
  statement="Each character of a shaped string takes the presentation form determined by the cursive joining rules applied to its neighbours of the same level (transparent and ignored characters being skipped), lam-alef pairs are replaced by their ligature plus a filler, and characters at odd levels, and only those, are mirrored; nothing else changes. For every code point the bidi class, the paired bracket and the mirrored character are those of the Unicode database.",
  quantifier={"over": ["inputs"], "text": "all code points; all strings of joining, transparent, neutral and format characters; all base directions and shaping flags"},
  why_tests_cant="The stable tests check one letter shape and the bracket table; joining depends on an unbounded context with levels, transparent and format characters.",
  anchors={"files": ["fribidi/joining.go", "fribidi/arabic.go", "fribidi/shape.go", "fribidi/mirroring.go", "fribidi/brackets_table.go"], "mechanism": mech(("joinArabic", "fribidi/joining.go"), ("shapeArabic", "fribidi/arabic.go"), ("shapeMirroring", "fribidi/shape.go"), ("bracket and mirror tables", "fribidi/brackets_table.go, fribidi/mirroring.go"))},
  level_note="All 1114112 code points for the tables and a three-letter context; all strings up to length 4-5 (7 on a reduced alphabet).",
  assumptions=["joining types and bidi classes of the dependencies (textlayout, x/text) are taken as given"])

prop(id="C04", title="Attribute lists: edits, iteration and font resolution match a per-position model",
  statement="An attribute list stays sorted by start index under every history of insertions, changes, filters and copies. After Change, the attribute is in effect on all of its range and nothing changes outside of it, older values of that kind are replaced there and identical neighbours are merged. The iterator partitions all positions into the maximal ranges between attribute boundaries, and on each range reports, for every kind, the last attribute of the list covering it, and a font description, language and extra attributes computed from exactly the covering attributes. Lists are equal when they hold the same attributes on the same ranges.",
  quantifier={"over": ["inputs", "histories"], "text": "all histories of list operations over all ranges, kinds and values; all lists"},
  why_tests_cant="The tests run a dozen fixed histories; how an edit splits, trims, replaces or merges depends on the whole arrangement left by the previous ones.",
  anchors={"files": ["pango/attributes.go"], "mechanism": mech(("AttrList.Change", "pango/attributes.go"), ("AttrList.Insert, Filter, copy", "pango/attributes.go"), ("attrIterator", "pango/attributes.go")), "observe_at": "the list, the iterator ranges, getFont"},
  level_note="All histories of 3-5 operations over 2-4 positions (all ranges), 2-3 values and 1-8 kinds; list pairs of up to 3 attributes.",
  assumptions=["for Change, attributes of one kind do not already overlap in the list"])

prop(id="C05", title="Markup parses to the stripped text and exactly the attributes of the tags",
  statement="Well formed markup yields the text without its tags, with entities decoded, and at every character exactly the attributes given by the tags around it, the innermost winning, with relative sizes accumulating over the enclosing tags; accelerator markers are stripped, underline the next character, and a doubled marker is a literal one. Everything else (ill-formed markup, unknown tags or attributes, repeated attributes, invalid or out of range values) is rejected by an error, never by a panic or a partial result.",
  quantifier={"over": ["inputs"], "text": "all tag nestings, texts with markers, attribute values and pairs of attributes; all token sequences, well formed or not"},
  why_tests_cant="The test files are a list of fixed documents; nesting, order, aliasing and accelerators combine, and rejection has to hold for every malformed input.",
  anchors={"files": ["pango/markup.go", "pango/color.go"], "mechanism": mech(("ParseMarkup", "pango/markup.go"), ("span_parse_func", "pango/markup.go"), ("pango_color_parse_with_alpha", "pango/color.go")), "observe_at": "ParseMarkup result"},
  level_note="All nestings of 16 tags up to 4-5 steps (6-7 for sizes, 7-8 with accelerators), all documents of 4-5 tokens out of 20, all values of all span attributes and all pairs of them (same tag, nested), all hexadecimal colors up to 7-8 digits.",
  assumptions=["encoding/xml reads XML correctly", "the priority between a tag underline and an accelerator underline, and sizes mixing points and factors, are free"])

prop(id="C06", title="Font descriptions: fields, merge and text form are lossless",
  statement="Under every history of setters, unsets, merges and copies each field of a font description has the value last given to it and its mask bit tells whether it was given; descriptions are equal, and have equal hashes, exactly when all their fields agree. Every description is written as a text which reads back as the same description, and a text made of families, style words in any order and case, size and variations reads as the documented fields.",
  quantifier={"over": ["inputs", "histories"], "text": "all histories of field operations on two descriptions; all combinations of field values; all description texts"},
  why_tests_cant="The tests read four strings; the ambiguity between family names, keywords and numbers appears only for particular combinations of fields.",
  anchors={"files": ["pango/fonts.go", "pango/gravity.go"], "mechanism": mech(("NewFontDescriptionFrom", "pango/fonts.go"), ("FontDescription.String", "pango/fonts.go"), ("pango_font_description_merge", "pango/fonts.go"), ("AsHash", "pango/fonts.go")), "observe_at": "fields, mask and text of the descriptions"},
  level_note="All histories of 3-4 operations on two descriptions; all descriptions with at most 3-5 fields away from their default (23 families, 15 weights ...); all texts with up to 2-3 style words in 3 spellings.",
  assumptions=["family names do not start with '@' in their last word and hold no white space but single spaces"])

prop(id="C07", title="Text boundaries (grapheme, word, sentence, line) are those of Unicode",
  statement="For every text, the positions where the cursor may stop, where words and sentences start, end and are separated, and where lines may or must be broken are those given by UAX #29 and UAX #14 for the characters of the text (with the documented tailoring of the Indic scripts and no line break inside of a grapheme); white space and the deletion by backspace are flagged as documented. A text is split into paragraphs exactly at the paragraph separators, CR LF counting as one.",
  quantifier={"over": ["inputs"], "text": "all texts over representatives of the boundary classes; all code points in several contexts"},
  why_tests_cant="The conformance test of the repository skips every line of its data, and the rules look arbitrarily far to both sides (flags, emoji sequences, numbers, quotes, SB8), so that a handful of strings reaches few combinations.",
  anchors={"files": ["pango/break.go", "pango/break_indic.go", "pango/break_arabic.go", "pango/break_thai.go"], "mechanism": mech(("pangoDefaultBreak", "pango/break.go"), ("pango_find_paragraph_boundary", "pango/break.go"), ("tailorBreak", "pango/break.go")), "observe_at": "the CharAttr of every position"},
  level_note="All strings up to length 3-4 over one character per class (longer ones on reduced alphabets: emoji, numbers, quotes, sentences), every code point of Unicode 13 in the contexts which separate the classes, the Unicode conformance data.",
  assumptions=["LB8a as of Unicode 11", "Prepend characters are only used for the graphemes", "classes of the code points after Unicode 13 are not checked", "the code points of harness/pango/breakexc.txt are a known finding"])

prop(id="C08", title="Attributes overriding text boundaries act on exactly their range",
  statement="Attributes disabling breaks or hyphens, or declaring a range to be one word or one sentence, change the boundaries of their paragraph on that range only and as documented: no break (but mandatory ones and those after visible hyphens and zero width spaces) and no hyphen inside of it, one word or sentence from its start to its end, words and sentences around it being cut there, with starts and ends still alternating. Other flags, other positions and other paragraphs are unchanged, and ranges extending beyond the paragraph or not meeting it are clipped or ignored, never an error.",
  quantifier={"over": ["inputs"], "text": "all texts, attribute kinds, ranges with respect to paragraph and text boundaries, pairs of attributes"},
  why_tests_cant="The tests use attributes inside of single fixed paragraphs; the position of the range with respect to words, hyphens and the ends of the paragraph is what matters.",
  anchors={"files": ["pango/break.go", "pango/layout.go"], "mechanism": mech(("pango_attr_break", "pango/break.go"), ("getItemsLogAttrs", "pango/layout.go")), "observe_at": "the CharAttr of every position, Layout.GetCharacterAttributes"},
  level_note="All texts up to length 3-4 over 13 characters (5-7 on reduced alphabets), every range reaching up to 2 positions outside of the paragraph, paragraph offsets, all pairs of attributes; all texts of 5-6 characters with newlines in a layout.",
  assumptions=["whether a line break stays after a hyphen at a place where UAX #14 forbids it is free", "attributes of one kind do not overlap"])

prop(id="C09", title="Itemization partitions the text into uniform, correctly attributed runs",
  statement="Itemize returns consecutive items covering every character of the requested range exactly once, each uniform in bidi level (for the base direction of its paragraph), script (common characters and marks follow their neighbours, closing marks their opening ones), emoji presentation (UTS #51 sequences kept whole), width in vertical text and set of attributes, with no other boundary than tabs and line separators. Each item carries what its attributes define (the last one started wins for each property): language, font description, gravity; its font is the first one of the set covering its characters, spaces and unsupported characters never selecting a font, spaces between two fonts using the preferred one. Font scales and synthesized small capitals then give each character exactly the size and case its attributes, variant and the font metrics imply.",
  quantifier={"over": ["inputs", "configurations"], "text": "all texts, attribute lists, sub ranges, base directions, gravities, font coverages, variants"},
  why_tests_cant="The itemization tests compare a dozen strings with recorded output, and need system fonts which are not there; partition and attribution must hold for every combination of scripts, marks, emoji, fonts and attributes.",
  anchors={"files": ["pango/context.go", "pango/itemize.go", "pango/item.go", "pango/script.go", "pango/emoji.go", "pango/gravity.go", "pango/attributes.go", "pango/layout.go"], "mechanism": mech(("itemizeWithFont", "pango/context.go"), ("addCharacter", "pango/context.go"), ("scriptIter.next", "pango/script.go"), ("scanEmojiPresentation", "pango/emoji_presentation_scanner.go"), ("splitItemForVariant", "pango/item.go"), ("collectFontScale", "pango/item.go")), "observe_at": "the items of Context.Itemize and the runs of a Layout (offset, length, Analysis)"},
  level_note="All texts up to length 4-5 over 12 characters of 5 scripts with paired punctuation (6-7 on 6 characters), all emoji category sequences up to 4-5 (6-8 on 6 categories), all font coverages and fallback up to 5-6, all gravities and hints up to 3-4, all lists of 1-2 of 18 attributes with every range (3 of 6-10), small capitals of 7 variants up to 4-5, font scales, directions of paragraphs.",
  assumptions=["the fonts are synthetic (coverage and metrics given by the harness)", "script and emoji categories of the characters of the alphabets are written in the harness"])

prop(id="C10", title="A Charset is a set of Unicode characters",
  statement="For every history of additions, removals, unions, differences, merges and copies, a Charset holds exactly the characters of the corresponding mathematical set: membership, size, inclusion, equality, hash, number of missing characters and the result of every operation agree with it, operations (but the in-place ones) leave their operands untouched, copies are independent, and the binary form reads back as the same set. The textual form (ranges of hexadecimal numbers) gives exactly the characters listed, or an error.",
  quantifier={"over": ["histories", "inputs"], "text": "all histories of operations on two sets, all pairs of sets over several pages, every code point, all texts over the tokens of the syntax"},
  why_tests_cant="The tests add characters in increasing order to one set; the paged representation with its binary searches and iterators fails for particular alignments of the pages of two sets, or after removals.",
  anchors={"files": ["fontconfig/charset.go", "fontconfig/cache.go"], "mechanism": mech(("Charset.merge", "fontconfig/charset.go"), ("operate", "fontconfig/charset.go"), ("isSubset", "fontconfig/charset.go"), ("parseCharSet", "fontconfig/charset.go")), "observe_at": "HasChar, Len, charsetEqual, isSubset, charsetSubtractCount, hash, and the sets returned"},
  level_note="All histories of up to 4-5 operations over 4 characters of 3 pages on two sets; all pairs of sets over 5-6 pages; all 0x110000 characters; all texts of up to 5-7 tokens.",
  assumptions=["characters are Unicode code points"])

prop(id="C11", title="A Langset is a set of languages, compared by language then territory",
  statement="For every history of additions, removals, unions, differences and copies, a Langset holds exactly the languages of the corresponding set, whether the package has an orthography for them or not: equality, hash, text form and its reading back, inclusion (a language contains its territories and conversely) and comparison (same language, same language in another territory, other) all agree with it. The languages of a charset are exactly those whose orthography it covers, and locale names and the environment give the documented languages.",
  quantifier={"over": ["histories", "inputs"], "text": "all pairs of languages of the table and variants, all histories on two sets, each orthography minus one character, locale forms, environments"},
  why_tests_cant="The tests compare a few pairs of languages; the bit map, the binary search by first letter and the country sets give wrong answers only for particular languages, and languages outside the table take another path.",
  anchors={"files": ["fontconfig/lang.go", "fontconfig/lang_table.go", "fontconfig/match.go"], "mechanism": mech(("langSetCompare", "fontconfig/lang.go"), ("Langset.containsLang", "fontconfig/lang.go"), ("findLangIndex", "fontconfig/lang.go"), ("buildLangSet", "fontconfig/lang.go"), ("normalizeLang", "fontconfig/lang.go")), "observe_at": "String, hash, equality, hasLang, containsLang, includes, langSetCompare, values given to the matcher"},
  level_note="All pairs of the 281 languages of the table and their variants; all histories of up to 4-5 operations over 7 languages on two sets; every orthography without one of its characters; 648 locales; all settings of 4 environment variables.",
  assumptions=["the two special und-... languages of the table are of the same language for the comparison of sets only"])

prop(id="C12", title="Patterns are ordered multimaps; listing and selecting fonts follow containment",
  statement="For every history of additions (at either end), removals and copies, a Pattern returns exactly the values added, in order and by type, keeps no reference to values or copies, and its hash is the same for patterns with the same values and different for the others. List returns the fonts which contain every value of the query (language sets, charsets, ranges, names ignoring case and blanks), restricted to the objects asked for, without duplicates, in the order of the set, with the name in the wanted language first; operands are unchanged. Fonts are accepted or rejected by the file globs and patterns of the configuration with the same rule, accepting winning over rejecting, for files, resources and directories. Default values are supplied exactly for the missing objects, sizes being consistent with pixel sizes, and the default language is the preferred one.",
  quantifier={"over": ["histories", "inputs", "configurations"], "text": "all histories of operations on two patterns, all pairs of value lists, all queries and fonts over representative values, all short globs and paths, all accept and reject rules"},
  why_tests_cant="The tests list the fonts of the system without looking at the result; collisions of hashes, aliasing between copies, map order and containment of several values show up only for particular combinations.",
  anchors={"files": ["fontconfig/pattern.go", "fontconfig/list.go", "fontconfig/values.go", "fontconfig/config.go"], "mechanism": mech(("Pattern.Hash", "fontconfig/pattern.go"), ("Pattern.Add", "fontconfig/pattern.go"), ("Fontset.List", "fontconfig/list.go"), ("compareValue", "fontconfig/expr.go"), ("acceptFilename", "fontconfig/config.go"), ("SubstituteDefault", "fontconfig/pattern.go")), "observe_at": "getters, Hash, List, ScanFontFile, ScanFontDirectories, SubstituteDefault"},
  level_note="All histories of 2-3 operations over 7 objects and 8 kinds of values (4-5 on a reduced alphabet), all value lists up to length 2-3 over 29 tricky values, all queries of 2 values against fonts of 2-3 values, all fontsets of up to 5-6 fonts, all globs up to length 4-5, all sets of 2 selection rules on a directory tree.",
  assumptions=["a range of the font is contained in a query range when it lies inside of it, as in fontconfig", "a font name in another territory at the first position may leave its place to the English one"])

prop(id="C13", title="Substitution applies the rules of the configuration exactly",
  statement="Config.Substitute (and the configuration applied to scanned fonts) gives exactly the pattern defined by the rules, applied in order, each match element being applied only for its target (pattern, font, scan) and when all its tests hold: qualifiers any, all, first, not_first, comparisons between values of every type (numbers and ranges, languages, charsets, strings without case, booleans, matrices), ignoring blanks on demand. Edits assign, insert before or after (relative to the matching value, or to the whole list) and delete values exactly, with the wanted binding (same, weak, strong) and the results of the expressions; aliases expand to prefer, accept and default families. The default languages are added. No rule which was accepted when loading makes it panic, and the query pattern is not modified by the substitution of a font.",
  quantifier={"over": ["configurations", "inputs"], "text": "all rules made of up to 2 tests and 2 edits over representative values, all short sequences of rules, all expressions of depth 1 and 2 over typed leaves, and all patterns with up to 3 values"},
  why_tests_cant="The tests run the system configuration on few patterns; positions after several edits, the cached table of families, strong values with several tests, and operators between unexpected types depend on combinations no test includes.",
  anchors={"files": ["fontconfig/config.go", "fontconfig/expr.go", "fontconfig/xml.go", "fontconfig/pattern.go"], "mechanism": mech(("substituteWithPat", "fontconfig/config.go"), ("matchValueList", "fontconfig/expr.go"), ("evaluate", "fontconfig/expr.go"), ("compareValue", "fontconfig/expr.go"), ("familyTable", "fontconfig/pattern.go")), "observe_at": "values, order and bindings of the pattern after Config.Substitute"},
  level_note="All pairs of edits (8 modes, bindings, values, qualifiers) on all lists of up to 3 values, all pairs of tests, all sequences of 3 small rules, all binary expressions over 36 leaves, nested expressions of depth 2, all typed comparisons, aliases and default languages, against a reference interpreter written from the documentation of the format.",
  assumptions=["operations on floats are only compared when their result is exact in single precision","an edit relative to the matching value, following the deletion of that value, acts without match","lists which are refused because of their type insert nothing","not_first means, as upstream, that the first matching value is not the first one"])
prop(id="C14", title="Matching and sorting fonts follow the documented distances",
  statement="Fontset.Match returns the font with the smallest distance to the pattern, comparing the criteria in their documented order (file, format, variable, scalable, color, foundry, charset, strong families and PostScript names, languages, weak ones, symbol, spacing, size, pixel size, style, slant, weight, width, hints, decorative, antialias, rasterizer, outline, order, version), where earlier values of the pattern are preferred and the closest value of the font counts; the first font wins between equals. Sort gives all the fonts in this order (once each language of the pattern is satisfied by one font), equal fonts keeping their order, or with trim only those adding characters to the previous ones, and always the union of their coverage. PrepareRender combines the pattern and the font: closest values, names in the wanted language first, settings of variable fonts, values of the font, then of the pattern. Fonts and patterns are not modified, the result shares nothing with them, and weights convert back and forth with OpenType ones.",
  quantifier={"over": ["inputs", "histories"], "text": "all lists of 0-2 values (weak and strong) in the pattern and in the font for every object, all pairs of fonts built from them, all pairs of criteria, all small sets of fonts over families, languages, weights and charsets"},
  why_tests_cant="The tests only match a few patterns with the fonts of one system; ties, weak and strong values, order of criteria, empty names, languages satisfied by several fonts and fractional distances need exhaustive combinations.",
  anchors={"files": ["fontconfig/match.go", "fontconfig/fontconfig.go"], "mechanism": mech(("matchInternal", "fontconfig/match.go"), ("Fontset.Sort", "fontconfig/match.go"), ("fdFromPatternList", "fontconfig/match.go"), ("PrepareRender", "fontconfig/match.go"), ("compareFamilies", "fontconfig/match.go"), ("WeightFromOT", "fontconfig/fontconfig.go")), "observe_at": "Fontset.Match, Fontset.Sort, Config.PrepareRender, WeightFromOT, WeightToOT"},
  level_note="For each of 32 objects, all pattern lists up to length 2 against the set of all font lists up to length 2 (match, sort, render) and all pairs of fonts; all pairs (triples in thorough) of criteria with present, close and far values; sets of 2-5 fonts over families, languages, weights, coverage; sets of up to 19 fonts for stability; all name and variation combinations of the result.",
  assumptions=["with trim, keeping a first font without any character is not specified", "OpenType weights between 100 and 1000"])
prop(id="C15", title="The cache of fonts gives back what was saved, or an error",
  statement="A set of fonts written by Fontset.Serialize (or ScanAndCache) and read by LoadFontset or LoadFontsetFile is the same: same fonts in the same order, same objects, same values with their types, order and bindings (except the languages which are not in the table of fontconfig, as documented), and matching gives the same results. When writing fails at any byte, Serialize returns an error; when reading fails, or when the file was cut anywhere, extended, partly overwritten by zeros or by a previous cache, or has a changed, removed or repeated byte, LoadFontset returns an error or exactly the saved set. Whatever the content, a set which is loaded without error only contains values valid for their objects, and may be matched, sorted, listed and saved again without panic.",
  quantifier={"over": ["inputs", "crash points", "faults"], "text": "all small sets of typed values, all truncation points, all torn writes, all single byte changes of the file and of its content, all failure points of the writer and the reader"},
  why_tests_cant="The tests save and load random sets without faults; a truncated or corrupted cache which is silently accepted needs every fault point to be tried.",
  anchors={"files": ["fontconfig/cache.go"], "mechanism": mech(("Serialize", "fontconfig/cache.go"), ("LoadFontset", "fontconfig/cache.go"), ("deserializePatternBin", "fontconfig/cache.go"), ("valueElt) deserializeBin", "fontconfig/cache.go"), ("ScanAndCache", "fontconfig/cache.go")), "observe_at": "Fontset.Serialize, LoadFontset, LoadFontsetFile, ScanAndCache"},
  level_note="All pairs (triples in thorough) of 32 values with bindings, sets of up to 2-3 fonts, large sets, scanned fonts; for 5 sets, every truncation, torn write (zeros or previous content), byte change (255 values), removal and repetition of the file, the same on the uncompressed content with a valid checksum, and every failure offset of the destination and the source.",
  assumptions=["the languages which are not in the table of fontconfig are not saved, as documented in the code"])
prop(id="C16", title="Loading a configuration gives exactly the rules of the document, or an error",
  statement="For any document, Config.LoadFromMemory and LoadFromDir return (no panic, no endless loop), and a configuration which was loaded without error may be applied, copied and used to accept or reject fonts without panic. Numbers, booleans, strings, ranges, matrices, charsets and langsets give exactly the values written, and values which can not be represented (overflowing integers, characters out of Unicode, empty ranges, wrong numbers of elements) are errors, as are unknown elements, attributes, modes, targets, comparisons, and elements of the old syntax. A document cut anywhere is an error and none of its rules are applied. Loading several documents is the same as loading one document with their contents in order; loading a directory is the same as loading its NN*.conf files sorted by path; Copy gives an independent configuration with the same effect. Standard has the effect of the configuration files of the repository.",
  quantifier={"over": ["inputs", "histories", "crash points"], "text": "all documents of nested elements up to a depth and width, all texts of numbers and booleans up to a length, all truncations, all sequences of loads and copies, all small directories"},
  why_tests_cant="The tests load the standard files; panics and silently wrong values come from elements in unexpected places, which are only covered by trying all of them.",
  anchors={"files": ["fontconfig/xml.go", "fontconfig/config.go", "fontconfig/name.go"], "mechanism": mech(("startElement", "fontconfig/xml.go"), ("endElement", "fontconfig/xml.go"), ("popExpr", "fontconfig/xml.go"), ("parseRange", "fontconfig/xml.go"), ("LoadFromDir", "fontconfig/config.go")), "observe_at": "Config.LoadFromMemory, Config.LoadFromDir, Config.Copy, Config.Substitute"},
  level_note="All pairs of leaf elements inside every element in 9 contexts (1.1 million documents), chains of nested elements of depth 2-3, operators with up to 4 operands, all words of number and boolean characters up to 4-6, every truncation and deletion of a character of 64 documents, all sequences of 3-4 documents and of loads and copies, directories of up to 3-4 files with links and an invalid file, names of up to 4-5 tokens.",
  assumptions=[])
prop(id="C17", title="Glyph items keep characters, clusters, glyphs and widths consistent",
  statement="For a glyph item (shaped run), walking over its clusters from the start or from the end, in any mixture of moves, gives each cluster once with its characters and its glyphs, in both directions of text. The logical widths of the characters of a cluster are equal (up to the rounding residue) and add up to the width of its glyphs. Splitting an item at any index gives two independent items which hold the clusters before and after the first cluster boundary at or after the index (nothing is split when there is none), with their glyphs, widths, offsets and attributes. Letter spacing opens every boundary between two graphemes by the given amount and moves nothing inside a grapheme. Attributes applied after shaping split the item into pieces which together are the item, and every cluster gets exactly the attributes which touch it; the items of a paragraph likewise get exactly the attributes which touch them. The position of a character inside a cluster is proportional to its graphemes, its trailing edge being the leading edge of the next one. Shaping a part of a paragraph gives clusters which start at 0, are monotone (increasing left to right, decreasing right to left) and relative to the part, with the glyphs of the transformed characters and an hyphen at the end when one is required.",
  quantifier={"over": ["inputs", "histories"], "text": "all compositions of an item into clusters of 1-5 characters and 1-3 glyphs, in both directions, all walks, split points, attribute ranges, spacings, all short texts to shape"},
  why_tests_cant="The tests shape a few sentences where most clusters hold one character; cluster arithmetic errors need clusters of several characters or glyphs, in both directions, which are only covered by enumerating the compositions.",
  anchors={"files": ["pango/glyph_item.go", "pango/glyphs.go", "pango/shape.go", "pango/item.go"], "mechanism": mech(("NextCluster", "pango/glyph_item.go"), ("PrevCluster", "pango/glyph_item.go"), ("split", "pango/glyph_item.go"), ("pango_glyph_item_apply_attrs", "pango/glyph_item.go"), ("indexToXFull", "pango/glyphs.go"), ("harfbuzzShape", "pango/shape.go")), "observe_at": "GlyphItemIter, GlyphItem.GetLogicalWidths, GlyphString.IndexToX, Item.Shape"},
  level_note="All compositions of 1-4 (5-6 in the thorough tier) characters into clusters with 1-2 (3) glyphs, in both directions, with every walk of 4-6 moves, every split point, 5 spacings with every choice of continuing clusters, 1-3 attributes with every pair of bounds, every choice of grapheme starts, and the shaping of all texts of 1-3 (4) characters over 9 with transformations, fonts, hyphens and rounding.",
  assumptions=["the font is a mock: one glyph per character, widths of 0, 1 or 2 em, no ligature carets"])
prop(id="C18", title="Layout lines: legal and greedy breaks, every character once, visual order",
  statement="For any text, width, wrap mode and indentation, the lines of a layout cover each paragraph exactly, in order, and only end where the wrap mode allows it (line breaks for WRAP_WORD; character breaks for WRAP_CHAR; for WRAP_WORD_CHAR character breaks only when no line break fits), at a line separator or at the end of the paragraph. Each line is the longest one which fits in the width (less the indentation), one white space at its end being allowed to hang and the hyphen required by the break being counted; when nothing fits the line stops at the first place, or a narrower one. The runs of a line hold each of its characters once, with their own glyphs and widths; an hyphen is shown exactly at the broken words and soft hyphens which require one, white space at a broken end has no width. The runs are in visual order (rule L2). Line and paragraph starts, the number of lines, IsWrapped and the behaviour of empty paragraphs and of the single paragraph mode are consistent with that.",
  quantifier={"over": ["inputs"], "text": "all texts up to a length over several alphabets, all widths, wrap modes, and cuts of the text into runs of different sizes, fonts or directions"},
  why_tests_cant="The line breaker keeps approximate widths, backs up over runs and retries; its errors need particular alignments of breaks, run boundaries and widths that a few sample paragraphs do not meet.",
  anchors={"files": ["pango/layout.go", "pango/layout_line.go"], "mechanism": mech(("tryAddItemToLine", "pango/layout.go"), ("processLine", "pango/layout.go"), ("checkLines", "pango/layout.go"), ("find_break_extraWidth", "pango/layout.go"), ("zeroLineFinalSpace", "pango/layout_line.go"), ("addMissingHyphen", "pango/layout_line.go"), ("reorderRunsRecurse", "pango/layout_line.go")), "observe_at": "Layout.GetLinesReadonly, GetLineCount, IsWrapped"},
  level_note="Texts of 0-5 (6) characters over 4-6 characters in nine families (one run, long words up to 8-10, paragraphs, directions, runs of two sizes cut anywhere, indentation, single paragraph, attributes on breaks and hyphens, fallback fonts), with every width from 0 to the length and the 3 wrap modes, compared with a reference breaker working on characters; 1.9 million layouts in the quick tier.",
  assumptions=["the fonts are mocks where widths add up (no kerning)", "the break attributes are those of GetCharacterAttributes (checked by C07)", "trailing white space beyond one character may hang or not", "the room for an hyphen at the boundary of two runs is a known finding"])
prop(id="C19", title="Positions, ranges and cursors agree with the geometry of the lines",
  statement="For any layout and any index, the leading and trailing edges given by LayoutLine.IndexToX, Layout.IndexToPos and GetDirectionAt are those of the grapheme of this index among the glyphs of its line (graphemes of a same cluster sharing it equally, all the characters of a grapheme having its edges, whatever the number of runs), placed by the alignment of the line and the height of its run; in the delimiters of a paragraph the position is the end of its line, at the height of this line. LayoutLine.GetXRanges covers exactly the graphemes of the range (and the margins when it goes over the ends of the line), sorted. At every position the strong and weak cursors are the trailing edge of the previous character and the leading edge of the next one, the strong one being next to the character in the base direction. MoveCursorVisually goes to the next position on the line on the left or right, for both cursors, then to the adjacent line, always to a valid position, and reaches the end of the layout, never stuck, never going backward, never jumping over a position.",
  quantifier={"over": ["inputs", "histories"], "text": "all texts of a few characters with directions, marks, paragraphs, run boundaries and ligatures, all widths and alignments, all indexes and ranges, all walks of the cursor from any position"},
  why_tests_cant="The tests query some positions of sample texts; errors need an index inside of a grapheme, of a cluster or of a delimiter, a boundary of runs or a change of direction exactly there, and walks of several moves over several lines.",
  anchors={"files": ["pango/layout_line.go", "pango/layout.go", "pango/layout_cursors.go", "pango/glyphs.go"], "mechanism": mech(("IndexToX", "pango/layout_line.go"), ("GetXRanges", "pango/layout_line.go"), ("IndexToPos", "pango/layout.go"), ("indexToLineX, indexToLineAndExtents", "pango/layout.go"), ("GetCursorPos, MoveCursorVisually", "pango/layout_cursors.go"), ("indexToXFull", "pango/glyphs.go")), "observe_at": "results of these functions"},
  level_note="All texts of 0-5 (6) characters (4-5 with alignments and attributes on every range) over 4-5 characters, 3-4 widths, ligatures at every place, all indexes, all ranges and, from every position, the complete walks of both cursors in both directions; geometry recomputed from the glyph widths.",
  assumptions=["the position at the end of a line in right to left text is only constrained for cursors", "between two runs which are both against the base direction the cursors may be exchanged", "walks stop where the cursor is not specified"])
prop(id="C20", title="Extents are those of the glyphs placed on the lines; iterators visit all of them",
  statement="The logical and ink extents, baseline and height of a layout, of its lines, runs, clusters and characters are the unions of the rectangles of the glyphs, placed line by line with the alignment, indentation, spacing or line spacing and line heights asked for (line heights given by attributes being distributed over and under the text, empty lines having the height of their font), and do not depend on which of them are asked for first; they follow the widths changed through an iterator. Units convert to the nearest, lower or upper device unit. From any state reached by any mixture of NextChar, NextCluster, NextRun and NextLine, a LayoutIter goes to the next character, cluster or run in visual order (ends of lines and paragraphs included as documented) or to the next line, reports its index, line, run, baseline and extents, and visits everything once before returning false.",
  quantifier={"over": ["inputs", "histories"], "text": "all texts of a few characters, all placements, all attributes ranges, all orders of queries, all walks of the iterator"},
  why_tests_cant="The tests walk over some texts with one kind of move; extents are cached and computed by several functions which must agree for every combination of options, directions and empty lines.",
  anchors={"files": ["pango/layout.go", "pango/layout_line.go", "pango/layout_iter.go", "pango/glyph_item.go", "pango/glyphs.go"], "mechanism": mech(("getExtentsInternal", "pango/layout.go"), ("getEmptyExtentsAndHeightAt", "pango/layout.go"), ("getExtentsAndHeight, getLineExtentsLayoutCoords, get_x_offset", "pango/layout_line.go"), ("LayoutIter", "pango/layout_iter.go"), ("GlyphItem.getExtentsAndHeight", "pango/glyph_item.go"), ("extentsRange", "pango/glyphs.go")), "observe_at": "GetExtents, GetSize, GetBaseline, LayoutLine.GetExtents, LayoutIter"},
  level_note="All texts of 0-4 (5) characters with 3 widths, 24 orders of queries, 108 placements (widths not in whole pixels, letter spacing), every range of a double size and of line heights, font descriptions; every line changed after 6 queries; 30,000 units; every walk of 2-4 (2-5) free moves followed by a repeated move to the end.",
  assumptions=["line heights are not smaller than the text", "the extents of an indented layout without width are free", "empty lines may count or not in the ink of the layout"])
prop(id="C21", title="A layout depends only on its settings, not on their history",
  statement="Whatever the sequence of setters of a Layout and of its Context (text, attributes, font, width, height, ellipsization, wrap mode, justification, alignment, indentation, spacings, tabs, direction, paragraph mode, language, gravity, matrix, rounding, fonts available) and of queries in between, the lines, glyphs, extents, positions, flags and character attributes of a layout are those of a new layout with the final settings; querying does not change anything; the arguments given to the setters are not modified, and modifying them afterwards does not change the layout.",
  quantifier={"over": ["histories"], "text": "all histories of up to three changes of settings, from several initial layouts, with any query before each change"},
  why_tests_cant="The tests set a layout once; a missing or excessive invalidation of a cache needs a query, then a given change from a given state (e.g. a height which omitted a paragraph), then another query.",
  anchors={"files": ["pango/layout.go", "pango/context.go", "pango/tabs.go"], "mechanism": mech(("SetWidth, SetHeight, SetEllipsize, SetTabs, ...", "pango/layout.go"), ("layoutChanged, clearLines, checkLines, checkContextChanged", "pango/layout.go"), ("TabArray.Copy", "pango/tabs.go"), ("contextChanged, getSerial", "pango/context.go")), "observe_at": "GetLine, GetExtents, IndexToPos, IsWrapped, IsEllipsized, GetCharacterAttributes"},
  level_note="All histories of one setting (6 initial layouts, 9 queries) and two settings (2 queries; 9 in thorough), of three settings (1 (4) initial layouts), over 21 setters with 2-7 values; each compared with a new layout.",
  assumptions=["a height without ellipsization is not observed (documented as undefined)"])
prop(id="C22", title="Ellipsized lines keep whole graphemes, fit, and omit as little as needed",
  statement="When ellipsization is set, the lines of each paragraph before the last one allowed by the height (a number of lines by paragraph, or a height for the layout) are those of the wrapped layout, the last one holds the rest of its paragraph, and the next paragraphs are shown while they fit. A line which does not fit has exactly one ellipsis, which replaces a range of whole graphemes at its start, middle or end, grown from there by the side which keeps it the most centered, and no larger than needed; every other character is kept with the glyph and width it has in the text; the ellipsis is the one of the first omitted character (midline for wide ones, three dots if the font has none, its size), has the lowest level of the omitted text and the remaining width, so that the line fills the width exactly. Lines which fit are unchanged, IsEllipsized tells whether there is an ellipsis, and attributes and positions stay consistent.",
  quantifier={"over": ["inputs"], "text": "all texts of a few characters, modes, widths, heights, sizes, fonts, paragraphs, indentations"},
  why_tests_cant="The tests check some sizes of one text; errors need a gap whose end falls inside of a grapheme, attributes starting inside of the gap followed by another paragraph, a change of size or direction at the gap.",
  anchors={"files": ["pango/ellipsize.go", "pango/layout.go", "pango/layout_line.go"], "mechanism": mech(("ellipsize, findInitialSpan, removeOneSpan", "pango/ellipsize.go"), ("shapeEllipsis, updateEllipsisShape, fixupEllipsisRun", "pango/ellipsize.go"), ("getRunList", "pango/ellipsize.go"), ("shouldEllipsizeCurrentLine, processLine", "pango/layout.go"), ("addLine", "pango/layout_line.go")), "observe_at": "runs of the lines"},
  level_note="All texts of 1-5 (6-7) characters over 3-5 characters (wide, marks, right to left, paragraphs), 3 modes, 6 widths, 8 heights, every range of a double size or of a color, 3 sets of fonts, indentation, spacing, justification.",
  assumptions=["no tab, letter spacing nor line separator in the ellipsized text", "a line omitted with its whole paragraph needs no ellipsis"])
prop(id="C23", title="Justified lines fill the width, letter spacing separates graphemes",
  statement="Justification keeps the lines, the glyphs and their order. A line broken before the end of its paragraph (or any line if the last one is justified too) which is narrower than its width, with its indentation, is stretched to exactly this width: by its expandable spaces only, in proportion of their widths, or, if it has none, by equal spaces between its visible graphemes, none being added at its two ends or inside of a grapheme; no glyph gets narrower; other lines are unchanged. Letter spacing adds its value between the graphemes of the range, half of it where the range meets other text, nothing at the ends of a line or inside of a grapheme, nor at the sides of a tab, which ends at the same stop, the glyphs of a grapheme being moved together; lines still fit their width.",
  quantifier={"over": ["inputs"], "text": "all texts of a few characters with spaces, marks, separators and directions, all widths, spacings and ranges"},
  why_tests_cant="The tests justify one text; errors need lines without spaces, marks at the end of a line, spaces truncated at a break, hyphens, or runs in both directions.",
  anchors={"files": ["pango/layout_line.go", "pango/glyph_item.go", "pango/glyphs.go"], "mechanism": mech(("justifyWords, justify_clusters", "pango/layout_line.go"), ("postprocess, addMissingHyphen, zeroLineFinalSpace", "pango/layout_line.go"), ("adjust_line_letter_spacing, shapeRun", "pango/layout_line.go"), ("letterSpace", "pango/glyph_item.go"), ("pad_glyphstring_left, pad_glyphstring_right", "pango/glyphs.go")), "observe_at": "geometry of the glyphs of the lines"},
  level_note="All texts of 0-5 (6) characters over 4-6 characters, 5 widths (whole pixels or not), 3 indentations, alignments and wrap modes, every range of a double size; 5 letter spacings (odd, negative) on every range, with tabs in both directions; lines of 190,000 ems; precision of one pixel when the width is in whole pixels, one unit otherwise.",
  assumptions=["letter spacing of isolated marks, of parts of graphemes and around the space removed at the break of a mixed-direction line is free"])
prop(id="C24", title="Tab stops align the cells of the lines",
  statement="On each line, wrapped or not, a tab has one glyph and moves what follows to the first stop after the text before it: at least a space further for default stops (every eight spaces of the first font), strictly after for the stops of a tab array, which are sorted, in layout or pixel units, measured from the margin of the paragraph (indentation included), and continue with the gap between the last two. The text up to the next tab or the end of the line starts at a left stop, ends at a right stop, is centered at a center stop, or has its decimal point there, the width of the tab being zero when the text does not fit before the stop; text which ended up on another line does not count. Tabs have the direction of their paragraph: cells follow each other in this direction. A text which fits its width is laid out as if it had none.",
  quantifier={"over": ["inputs"], "text": "all texts of a few characters with tabs, separators and directions, all small tab arrays, alignments, indentations and widths"},
  why_tests_cant="The tests display a few tab arrays without checking positions; errors need aligned stops on wrapped lines, overfull lines, hyphens, indentation or right to left cells.",
  anchors={"files": ["pango/layout_line.go", "pango/layout.go", "pango/tabs.go"], "mechanism": mech(("shapeTab, get_tab_pos, insertRun, shapeRun", "pango/layout_line.go"), ("tabWidthChange, processLine, ensureTabWidth, get_decimal_prefix_width", "pango/layout.go"), ("TabArray, Tab", "pango/tabs.go")), "observe_at": "glyph widths of the tabs, order of the runs"},
  level_note="All texts of 1-5 (7) characters over 3-5 characters with 11 tab arrays, every tab array of 1-2 (3) stops over 4 positions, 4 alignments and 2 decimal points, 3 indentations and alignments, paragraphs, every range of a double size; wrapping at 3 widths in 3 modes.",
  assumptions=["two different stops at the same position are in any order", "a paragraph separator inside of a single right to left paragraph is out of scope", "which break is chosen on a wrapped line with tabs is not specified here"])
prop(id="C25", title="Baseline shifts and rises move exactly their text",
  statement="The baseline of each run is moved by the sum of its rise and of all the baseline shifts covering it, nested or overlapping, on every line and paragraph they cover, and by nothing else: the text after a shift is back on the baseline. A shift is its value in layout units, or for a superscript or subscript the offsets given by the metrics of the font of the run before it on the line, at its size (a fixed offset without them), horizontally as well. The extents of runs, clusters, lines and layout, the baselines of lines and the positions of characters follow: a line contains its baseline and all its runs, where they are moved, and lines are stacked without overlap.",
  quantifier={"over": ["inputs"], "text": "all texts of a few characters, all ranges of one or two shifts (three nested tags), rises, sizes, widths and metrics of the fonts"},
  why_tests_cant="The tests have no baseline shift checked; errors need text after a superscript, a shift over several lines or paragraphs, nested tags, or particular metrics.",
  anchors={"files": ["pango/layout_line.go", "pango/layout_iter.go", "pango/glyph_item.go"], "mechanism": mech(("collectBaselineShift, applyBaselineShift", "pango/layout_line.go"), ("getExtentsAndHeight", "pango/layout_line.go"), ("getExtentsAndHeight", "pango/glyph_item.go"), ("updateRun, GetRunExtents, GetClusterExtents", "pango/layout_iter.go")), "observe_at": "yOffset of the runs, extents, iterators, IndexToPos"},
  level_note="All texts of 1-4 (5) characters over 3-4 characters, 5 values of shifts on every range (all pairs of ranges), rises on every range, every range of a double size, 3 widths and wrap modes, 3 sets of font metrics; all nested pairs (triples) of sup and sub tags.",
  assumptions=["the caret positions do not follow the horizontal offsets of shifts"])
prop(id="C26", title="Clusters of several characters or glyphs behave as their characters",
  statement="When the font forms a ligature of several characters, or several glyphs for one character, each glyph belongs to the cluster of its first character, in either direction, and the layout stays that of the characters: lines break and are measured as without ligature when the widths agree, and positions, cursors, selection ranges, visual moves and the iteration over characters divide the ligature in its characters, evenly or, for the positions and cursors, at the carets given by the font. A letter spacing, or features disabling the ligatures, apply exactly to their text, the innermost feature winning; an attribute applied on a part of a cluster goes to the whole cluster, and neither loses nor changes a glyph; ellipsizing and justifying never cut a cluster, and treat it as one wide character. Iterating over the clusters of a run, its logical widths, splitting it and letter spacing it follow the clusters.",
  quantifier={"over": ["inputs"], "text": "all texts made of a few tokens forming clusters or not, in both directions, attributes on every range, widths, wrap, ellipsize and justify modes"},
  why_tests_cant="The tests check no cluster, caret nor feature; errors need right to left ligatures, carets, attributes cutting a ligature, or decompositions at the end of lines.",
  anchors={"files": ["pango/glyphs.go", "pango/glyph_item.go", "pango/shape.go", "pango/item.go", "pango/layout_line.go", "pango/ellipsize.go"], "mechanism": mech(("indexToXFull, pango_glyph_string_x_to_index", "pango/glyphs.go"), ("GlyphItemIter, pango_glyph_item_apply_attrs, letterSpace", "pango/glyph_item.go"), ("collectFeatures", "pango/shape.go"), ("pango_item_apply_attrs", "pango/item.go")), "observe_at": "glyphs and clusters of the runs, positions, cursors, ranges and extents, GlyphItemIter"},
  level_note="All texts of 1-3 (4) tokens among 10 (ligatures of 2 and 3 characters, with or without carets, decompositions in 2 and 3 glyphs, marks, plain characters, in both directions), 3-5 widths and wrap modes; 6 kinds of attributes and pairs of attributes on every range; all texts of 1-4 (5) clusters against the same text with a wide character for each, ellipsized or justified; the operations on every run of 1-4 (5) tokens; ligatures of 2 to 4 characters with uneven carets, in both directions.",
  assumptions=["the font is an OpenType mock with liga and ccmp substitutions, shaped by the harfbuzz package"])
prop(id="C27", title="Language tags select their scripts, sample texts and default languages",
  statement="A language tag matches a range list when one of the ranges is '*', the tag, or a prefix of it ending at a '-'. The scripts and the sample text of a language are those of the longest known tag matching it (nothing, and the classic sample, for an unknown one; the language of the environment for the sample of an empty one), and a language is written in a script exactly when the script is not a real one, its scripts are unknown, or contain it. The language of a text in a script is the requested language if it is written in it, or else the first language listed in PANGO_LANGUAGE, or without it LANGUAGE, which is, or else the sample language of the script, or else 'xx'; the items of a text get it, whatever was asked before. The metrics of a context for a language are those of its first font, enlarged by those of the fonts its sample text needs, with the average width of its characters.",
  quantifier={"over": ["inputs"], "text": "all tags of 0-3 components against range lists; all known tags and their neighbours times all scripts; all lists of preferred languages; all short texts in 6 scripts"},
  why_tests_cant="The tests check that samples are not empty and that a tag matches itself; errors need a language with three scripts, several preferred languages, or separators.",
  anchors={"files": ["pango/language.go", "pango/script_langs.go", "pango/language_sample.go", "pango/context.go"], "mechanism": mech(("pangoLanguageMatches, findBestLangMatch", "pango/language.go"), ("pango_language_get_scripts, pango_language_includes_script", "pango/language.go"), ("parse_default_languages, pango_script_get_default_language, compute_derived_language", "pango/language.go"), ("SampleString", "pango/language.go"), ("GetMetrics, update_metrics_from_items", "pango/context.go")), "observe_at": "return values, Analysis.Language of the items, Context.GetMetrics"},
  level_note="All tags of at most 3 components over 3, all lists of at most 2 ranges (5 separators); every tag of the tables in 8 variants, all the scripts of Unicode; lists of at most 3 (4) preferred languages among 9, in the two variables; all texts of 1-3 (4) characters in 6 scripts, 7 context languages and every range of a language attribute; metrics of all the languages of the sample table with 4 sets of fonts and directions.",
  assumptions=["the tables of scripts and samples are those of pango 1.50, copied in the harness for scripts"])
prop(id="C28", title="Scanning a font file gives the pattern of every face in it",
  statement="Scanning a TrueType file, collection or variable font, a Type 1 file, or a PCF file (compressed or not), gives one pattern for each face with Unicode or symbol characters, and for each named instance other than the default one, in file order. Its families and styles are all the distinct names of the name table (preferred names first, Microsoft then Unicode, Macintosh and ISO platforms, English first), decoded with the encoding of each name and aligned with their languages; without names, those of the file name. Weight, width, slant, size, foundry, spacing, capabilities, charset, languages and variable ranges are those the tables, names, font dictionary or BDF properties declare (glyphs without a character do not count). Scanning directories gives the fonts of all the regular, non-hidden font files of the tree, in order and without repeating a directory, whatever else is in them (broken links, sockets, invalid files).",
  quantifier={"over": ["inputs"], "text": "fonts built in memory: lists of names, platforms and encodings, OS/2 values, style words, code pages, characters and advances, axes and instances, collections, BDF properties; directory trees"},
  why_tests_cant="The tests print the patterns of installed fonts, which use a few platforms and one language, have an OS/2 weight, and live in clean directories.",
  anchors={"files": ["fontconfig/scan.go", "fontconfig/config.go", "fontconfig/partial_scan.go", "fontconfig/lang.go"], "mechanism": mech(("queryFace, scanOneFontFile", "fontconfig/scan.go"), ("nameTranscode, nameLanguage, getFirstName, isLess", "fontconfig/scan.go"), ("stringContainsConst, containsWord, WeightFromOT, weightFromBFD", "fontconfig/scan.go"), ("getSpacing, getCharSet, fontCapabilities, buildLangSet", "fontconfig/scan.go"), ("readDir, validFontFile, partialReadDir", "fontconfig/config.go")), "observe_at": "patterns of ScanFontRessource and ScanFontDirectories, descriptions of PartialScanFontDirectories"},
  level_note="All lists of at most 3 (4) names among 5 platform kinds, 3-4 identifiers, 3 (4) texts; 17 encodings by 2 (3); 18 weights x 11 widths x 6 selections x OS/2 versions; all styles of 2 (3) words among 15 with 3 separators; vendors, notices, sizes; each language of the table complete or without one character; Han code pages; all lists of 4 (5) advances among 7; 11 characters; 6 scripts in 2 tables; 7 axes by 2 with 2 instances; collections of 3; 9 BDF properties; dictionaries of Type 1 fonts, their glyphs among 7 with 5 (6) advances; trees of 2 (3) entries among 16 kinds.",
  assumptions=["the textlayout font parsers", "CFF fonts are not built", "the PostScript names of the instances are not specified"])
prop(id="C29", title="A font map gives the fonts of the query, with their own glyphs and metrics",
  statement="For a description, language and context matrix, the fontconfig font map gives the fonts that the configuration and the database select for the query (in order, prepared with the rules for fonts), skipping those whose file can not be loaded. Each font has the size, matrix, variations and named instance of the query, and its glyphs, coverage, advances, ink and logical rectangles (turned by the gravity) and line metrics, in user space, are those of its own file at that size, whatever fonts, sizes, variations, languages, texts or metrics were asked before. The metrics of a font do not depend on the calls made before, its description (with the size asked for) loads it again, and each character of a text is shown with the first font of the list covering it. Changing the configuration or the database changes the fonts, the contexts and the layouts.",
  quantifier={"over": ["inputs", "histories", "faults"], "text": "descriptions, configurations, databases, context matrices, variation lists, sets of missing files, sequences of requests to a font map"},
  why_tests_cant="The tests print layouts with the fonts of the system, one font map and one configuration, without variations or missing files.",
  anchors={"files": ["pango/fcfonts/fontmap.go", "pango/fcfonts/fonts.go", "pango/fcfonts/fonset.go", "pango/fcfonts/types.go", "pango/fontset.go", "pango/context.go"], "mechanism": mech(("newFontsetKey, makePattern, getScaledSize", "pango/fcfonts/fontmap.go"), ("getFontPattern, newFont, clearCache", "pango/fcfonts/fontmap.go"), ("loadHBFont, GetMetrics, GlyphExtents", "pango/fcfonts/fonts.go"), ("newFontDescriptionFromPattern, Describe", "pango/fcfonts/fonts.go"), ("loadNextFont, Foreach", "pango/fcfonts/fonset.go"), ("fontHash, fontsetCache, patternHash", "pango/fcfonts/types.go")), "observe_at": "LoadFontset, LoadFont, GetCoverage, GlyphExtents, GetMetrics, Describe, and the glyphs of layouts"},
  level_note="A database of 9 patterns in 6 files built in memory (one variable, one collection). All of 9 families x 3 styles x 5 weights x 3 (7) variants x 2 (4) languages x 3 configurations; 9 stretches x 7 variants x 4 gravities x 5 sizes; 2 (3) requests with 6 matrices, or with 7 variation lists x 3 weights x 2 databases; all sets of missing files with 2 requests; histories of 3 (4) operations among 11; metrics of 2 (3) languages then one; pairs of texts of at most 2 (3) characters; 2 changes of configuration; 5 gravities with matrices, ink boxes, underlines; scanned patterns described again; faces and formats of files on disk, Type 1 fonts.",
  assumptions=["Match, Sort and Substitute of fontconfig, decided by C11-C16", "the textlayout font parsers and harfbuzz", "the vertical origins of the glyphs, given unscaled by textlayout, are not specified"])
prop(id="C30", title="Shapes and decorations have their place in the lines",
  statement="A character with a shape attribute is shown as one empty glyph per character, as wide as the shape, in visual order; its ink and logical rectangles are those of the shape, once per character. Underlines, overlines and strikethrough do not change the glyphs, the advances, nor the logical rectangles: they extend the ink rectangle of their runs over the whole width of the run, down or up to the positions and thicknesses given by the font metrics. Two characters with different decorations or shapes are in different runs. The rectangles of the line and of the layout are the unions of those of the runs, with line heights, sizes and rises applied.",
  quantifier={"over": ["inputs"], "text": "texts of both directions, ranges of shapes, underlines, overlines, strikethrough, sizes, line heights and rises, widths"},
  why_tests_cant="No test of the repository compares the rectangles of a run with a shape or a decoration.",
  anchors={"files": ["pango/glyph_item.go", "pango/layout_line.go", "pango/item.go", "pango/attributes.go", "pango/layout_iter.go", "pango/glyphs.go"], "mechanism": mech(("getProperties", "pango/item.go"), ("AttrShape.getExtents, _pango_shape_shape", "pango/glyphs.go"), ("GlyphItem.getExtentsAndHeight", "pango/glyph_item.go"), ("LayoutLine.getExtentsAndHeight, shapeRun", "pango/layout_line.go"), ("affectsItemization, affectsBreakOrShape", "pango/attributes.go")), "observe_at": "the runs and glyphs of the lines, LayoutIter.GetRunExtents, LayoutLine.GetExtents, Layout.GetExtents, IndexToPos"},
  level_note="Mock fonts with exact metrics. Texts of at most 3 (4) characters of 2 directions, 1 to 3 attributes among 4 shapes, 8 underlines, overline, strikethrough, 2 sizes, line heights, rises, on every range, and wrapped lines.",
  assumptions=["the mock backend of fonts", "the positions of lines and runs are decided by C18-C20"])
prop(id="C31", title="Text transforms and small caps show each character in its case and size",
  statement="With a text transform, each character is shown in lower, upper or title case (capitalize: the characters starting a word), whatever the items, lines and fonts the text is split into, and the positions remain those of the text. With a caps variant, a font having its features for the script and language shows the text with them; otherwise the lowercase characters (after the transform) are shown as smaller capitals, and the variants of all characters or unicase reduce the others as documented; all other characters keep their size. Every character is shown once, and shaping an item or an ellipsis on its own works with any transform.",
  quantifier={"over": ["inputs"], "text": "texts, ranges of transforms, variants and sizes, widths, ellipsis modes"},
  why_tests_cant="The tests of the repository have a few markups with one transform, on one line.",
  anchors={"files": ["pango/item.go", "pango/shape.go", "pango/layout.go", "pango/ellipsize.go", "pango/glyphs.go"], "mechanism": mech(("splitItemForVariant, handleVariants", "pango/item.go"), ("applyFontScale, collectFontScale", "pango/item.go"), ("harfbuzzShape, findTextTransform", "pango/shape.go"), ("shapeEllipsis", "pango/ellipsize.go"), ("shapeWithFlags, ShapeRange", "pango/glyphs.go")), "observe_at": "glyphs, widths and fonts of the runs of a layout; GlyphString.ShapeRange"},
  level_note="Mock fonts where the glyph is the character. All texts of at most 3 (4) characters of a pool of 16 (with title case, Deseret, dotless i, apostrophe) with a transform on each range; 4 (7) variants with transforms; two transforms, a variant and a size; wrapped and ellipsized texts of 4 (5); fonts with each subset of the features by script and language.",
  assumptions=["simple case mappings of unicode.ToUpper, ToLower, ToTitle (as the code: no full mappings)", "the size of a space is not specified with a variant (it follows its neighbours)", "starts of words are those of C07"])
prop(id="C32", title="Every text, with any settings and fonts, gets an answer to every query",
  statement="A layout accepts any sequence of runes (control and private characters, noncharacters, surrogates, numbers beyond Unicode), any settings (widths, indents, tabs, gravities, ellipsis, heights), any attribute with any value and any range, and fonts which miss characters or do not exist. Every query, at every index, terminates without a panic: lines, extents, positions, cursors, moves, ranges, iterators. Every character is in exactly one line and one run (none for paragraph separators), the number of lines and of character attributes agree with the text, and the size is that of the extents.",
  quantifier={"over": ["inputs"], "text": "sequences of runes, settings, attributes with extreme values and ranges, font maps with missing fonts"},
  why_tests_cant="The tests lay out a few ordinary texts; a crash needs a special character, value or combination.",
  anchors={"files": ["pango/layout.go", "pango/layout_line.go", "pango/layout_iter.go", "pango/context.go", "pango/item.go", "pango/shape.go", "pango/glyphs.go", "pango/glyph_item.go", "pango/ellipsize.go", "pango/break.go"], "mechanism": mech(("isUpright, widthIter.next, newItemizeState", "pango/context.go"), ("FontGetMetrics, fontGlyphExtents", "pango/fonts.go"), ("checkLines, processItem", "pango/layout.go"), ("shapeInternal, fallbackShape", "pango/shape.go"), ("ellipsize", "pango/ellipsize.go")), "observe_at": "every exported query of Layout, LayoutLine, LayoutIter, GlyphItemIter, GlyphString"},
  level_note="Texts of at most 2 of 54 special runes, of 3 (4) of 12; 26 settings; 90 attributes (6 extreme values of each numeric kind, each value of each enumeration, strings) on 3 (7) ranges with 16 (26) settings; 6 combinations of fonts, with none, missing scripts, no ellipsis, ligatures.",
  assumptions=["with an OpenType font, texts with combining marks are left out: the harfbuzz port of textlayout v0.3.1 does not merge the clusters of the graphemes it reverses", "indexes out of the text are not specified"])
prop(id="C33", title="Gravity: each character stands as its script, attributes and context require",
  statement="The gravity of a character is the one of its font description, or else comes from its gravity attribute or the base gravity of the context (AUTO: the quarter turn nearest to the current matrix, whatever the order in which matrix and gravity were set). In a vertical (East, West) gravity, upright characters (Unicode vertical orientation) and the STRONG hint keep it; the others turn to South or North: NATURAL by the vertical direction of the script (sideways scripts: South), LINE so that each script, left-to-right or right-to-left, flows from the top. The level and font of an item follow its gravity, lines take the direction of the context gravity, runs and clusters are in visual order, upright glyphs have vertical advances, and runs of vertical layouts are centered on the baseline.",
  quantifier={"over": ["inputs", "configurations", "histories"], "text": "texts, scripts, base gravities, hints, attributes, matrices and the order of their changes"},
  why_tests_cant="No test uses a vertical gravity; the outcome depends on the script, orientation, hint, gravity and on the history of the context.",
  anchors={"files": ["pango/gravity.go", "pango/context.go", "pango/shape.go", "pango/layout_line.go", "pango/glyph_item.go"], "mechanism": mech(("gravityFromMatrix, pango_gravity_get_for_script_and_width", "pango/gravity.go"), ("SetBaseGravity, updateForNewRun, addCharacter, isUpright, widthIter.next", "pango/context.go"), ("setResolvedDir", "pango/layout_line.go"), ("getExtentsAndHeight", "pango/glyph_item.go"), ("harfbuzzShape", "pango/shape.go")), "observe_at": "Context.Itemize (Analysis.Gravity, Level, Font), lines and runs of Layout"},
  level_note="Every code point for the orientation, every script for the hints, 882 matrices, all sequences of 3 (4) changes of gravity and matrix, all pairs of 12 gravity attributes on 4 texts, texts of 3 (4) characters of 9, layouts of 4 (5) of 7.",
  assumptions=["an attribute with a vertical gravity in a horizontal context is only specified for texts of one orientation (the text is not cut by orientation there)", "upright characters are those of Unicode 11 VerticalOrientation, as documented by the code"])
prop(id="C34", title="Clients sharing fonts, settings and configurations do not affect each other",
  statement="Two layouts which share a context, or a font map, attributes, tabs and a font description, under any interleaving of their settings and queries, each show what they would show alone; the lines, items and copies of attributes kept by a client do not change with the operations of the other (or the next ones of its own layout), and the shared objects (attributes, tabs, description, text) are left as they were given. The same for a font configuration: after any history of substitutions, defaults, matches, sorts, lists, renderings and saves on one configuration, one set of fonts and one set of queries, each operation gives its result alone, whatever the clients do with Add and Del on the patterns (and with the characters) they got before; the fonts, the queries and the earlier results do not change.",
  quantifier={"over": ["histories", "schedules"], "text": "interleavings of the operations of two clients; histories of operations on a configuration, with modifications of their results"},
  why_tests_cant="Each test builds its own objects and does one operation: sharing a list, a page of a charset or an item between two results is only visible after another operation on the other one.",
  anchors={"files": ["pango/layout.go", "pango/attributes.go", "pango/context.go", "pango/shape.go", "fontconfig/match.go", "fontconfig/substitutions.go", "fontconfig/pattern.go", "fontconfig/values.go"], "mechanism": mech(("SetAttributes, SetTabs, SetFontDescription, SetText, GetLine", "pango/layout.go"), ("AttrList.copy, Change", "pango/attributes.go"), ("cached shaping buffer", "pango/shape.go"), ("PrepareRender, Match, Sort", "fontconfig/match.go"), ("Substitute", "fontconfig/substitutions.go"), ("Pattern.Duplicate, Add", "fontconfig/pattern.go"), ("List", "fontconfig/list.go")), "observe_at": "lines, extents and cursors of the layouts; patterns given by the operations on Config and Fontset"},
  level_note="All interleavings of 2 operations of each of 2 clients (7 operations, thorough: 12), with and without queries in between; every history of up to 3 (4) operations of 7 on 3 queries and 3 fonts, each result kept, emptied or extended. The operations are atomic: no data race is explored.",
  assumptions=["the values of a pattern (charset, langset) are not modified in place by the clients, only through Add and Del"])
NOT_APPLICABLE = []
NA_PROPS = []
