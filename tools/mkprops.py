#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (the property texts live here, one call each)."""
import json, os
out = []
def P(id, title, statement, over, qtext, why, files, mech, observe=(), state=()):
    assert len(title) <= 80, title
    out.append({"id": id, "title": title, "statement": statement,
        "quantifier": {"over": over, "text": qtext}, "why_tests_cant": why,
        "anchors": {"files": files, "state": [dict(name=n, meaning=m, where=w) for n, m, w in state],
                    "mechanism": [dict(name=n, where=w) for n, w in mech],
                    "observe_at": list(observe), "hook_needed": None}})

ALLT = ["table_head.go","table_hhea.go","table_hmtx.go","table_maxp.go","table_loca.go","table_glyf.go",
        "table_cmap.go","table_name.go","table_os2.go","table_post.go","table_cvt.go","table_fpgm.go","table_prep.go"]

P("C01", "Parsing and validating never panic, whatever the bytes",
  "For every byte sequence (and every point at which the underlying reader fails or ends), parsing a font or validating it either succeeds or returns an error. It never panics: no out-of-range access, negative allocation size, nil access or failed type assertion is reachable.",
  ["inputs", "fault_sequences"], "all byte strings offered as a font, all read/seek failure points",
  "The tests parse two well-formed fonts; malformed counts, lengths and offsets are never exercised.",
  ["font.go","export.go","validate.go","byte_reader.go","encoding.go","internal/strutils/encoding.go","table_record.go","table_offset.go"]+ALLT,
  [("range checks before indexing", "table_*.go parse functions"), ("short reads become errors", "byte_reader.go"), ("required-table checks", "parseHmtx, parseLoca, parseGlyf, parsePost, parseCmap")],
  ["Parse", "ParseFile", "ValidateBytes", "ValidateFile"])

P("C02", "No operation on a parsed or derived font panics",
  "For every font obtained by parsing, subsetting, pruning or optimising, in any combination and order, every exported operation with any argument (any glyph indices, runes, glyph counts, table names, writers) returns normally or with an error and never panics. This includes fonts that lack optional tables.",
  ["inputs", "histories"], "all parsed fonts, all sequences of exported operations, all argument values",
  "Tests call Write on two complete fonts; no test subsets, prunes, optimises, or lacks an optional table.",
  ["export.go","font.go","table_hmtx.go","table_glyf.go","table_loca.go","table_name.go","table_cmap.go"],
  [("presence checks on optional tables", "export.go, font.go TableInfo"), ("length relations between tables set up while parsing", "parseHmtx, parseLoca, parseGlyf")],
  ["Font.Subset*", "Font.Write", "Font.Optimize", "Font.PruneTables", "Font.LookupRunes", "Font.GetCmap", "Font.GetNameByID", "Font.GetNameRecords", "Font.TableInfo", "Font.GetGlyphDataOffset"])

P("C03", "Every operation terminates",
  "Parsing, validating, subsetting, querying and writing terminate for every input. No loop can run forever: every loop makes strict progress towards an exit, also when counters sit at the limit of their integer type and when glyph references are cyclic.",
  ["inputs", "histories"], "all byte strings, all fonts, all arguments",
  "A hang needs a malformed segment, group or reference cycle that no test font contains.",
  ["table_cmap.go","table_glyf.go","export.go","table_hmtx.go","byte_reader.go","byte_writer.go","table_name.go"],
  [("bounded counters", "parse loops"), ("visited set in the dependency expansion", "SubsetKeepIndices"), ("input consumption in the component loop", "parseComposite")],
  ["Parse", "ValidateBytes", "Font.SubsetKeepIndices"])

P("C04", "A length field alone cannot make the library allocate unbounded memory",
  "While parsing or validating, no single count, length or offset read from the input makes the library allocate memory in one step beyond a small fixed bound (64 Ki elements) unless that much data has already been read. A tiny malformed font with huge length fields is rejected without a huge allocation.",
  ["inputs"], "all byte strings, in particular 32-bit length and offset fields",
  "Needs hostile 32-bit lengths; test fonts are well-formed.",
  ["byte_reader.go","table_glyf.go","validate.go","table_post.go","table_cmap.go","table_name.go"],
  [("element-wise reads that fail at end of data", "byteReader.readSlice"), ("bounded buffer sizes", "byteReader.readBytes, validate")],
  ["Parse", "ValidateBytes"])

P("C05", "Each table is read and written in the OpenType layout",
  "For each supported table (offset table, table records, head, hhea, hmtx, maxp, loca, OS/2, post, name, cmap and its subtable formats 0/4/6/12, glyph header and composite components) the fields are consumed and produced big-endian, in the order and width the OpenType specification prescribes, including the version- and flag-dependent parts. What is written for a field is the value that was read for that same field; counts, offsets and lengths of written data, checksums and glyph locations are recomputed, and the post table is written without glyph names (version 3.0, or 1.0 for the 258 standard glyphs).",
  ["inputs"], "all field values, all table versions/formats/flags",
  "Tests round-trip two fonts, so only one version of each table and only symmetric mistakes in never-checked fields are seen.",
  ["byte_reader.go","byte_writer.go","table_record.go","table_offset.go"]+ALLT,
  [("typed primitive codecs", "byte_reader.go, byte_writer.go"), ("sibling parse/write pairs", "table_*.go")],
  ["Parse then Write"])

P("C06", "Every element count written equals the number of elements written",
  "In every written font each count field equals the number of entries that follow it: tables in the font directory, encoding records in cmap, groups in a format 12 and entries in a format 6 subtable, segments (doubled, with the search fields they imply) in a format 4 subtable, name records and language-tag records in name. Every stored subtable or string offset and length designates the bytes emitted for that entry.",
  ["inputs", "histories"], "all parsed fonts (including those with unsupported cmap subtables), all subsets of them",
  "Both test fonts contain only supported subtables with unique keys.",
  ["table_cmap.go","table_name.go","font.go","export.go"],
  [("counts recomputed before writing", "writeNameTable, writeCmap, SubsetFirst"), ("mock buffer to compute offsets", "writeCmap, writeNameTable")],
  ["Font.Write"])

P("C07", "The written font directory describes exactly the tables written",
  "For every font and whichever optional tables are present, the written file has one directory record per emitted table with that table's tag, its exact start offset and length, and the checksum of exactly its bytes, and the directory count equals the number of records. The records are sorted by tag and the header's search fields (searchRange, entrySelector, rangeShift) are those of that count. The header table's adjustment field is zero while checksums are computed and is finally set, at its place in the header table, to 0xB1B0AFBA minus the checksum of the whole file.",
  ["inputs", "configurations"], "all combinations of present/absent optional tables, all contents",
  "Two fonts cover two of the presence combinations.",
  ["font.go","table_record.go","table_offset.go","byte_writer.go"],
  [("write, record, flush per table", "font.write"), ("numTablesToWrite", "font.go"), ("checksum patch", "font.write")],
  ["Font.Write"])

P("C08", "Validation succeeds only after every checksum has been verified",
  "Validation reports success only if the font parsed, the whole-file checksum was recomputed and equals the stored adjustment, and for every table record the table's bytes were read at the recorded offset and length, summed, and compared equal to the recorded checksum. Any mismatch, missing header table or unreadable table yields an error.",
  ["inputs"], "all byte strings, every table record of them",
  "The only running validation test validates one valid file; nothing checks that a corrupt one is refused.",
  ["validate.go","export.go","byte_writer.go"],
  [("file checksum comparison", "font.validate"), ("per-record comparison", "font.validate")],
  ["ValidateBytes", "ValidateFile"])

P("C09", "Subsetting never changes the font it was derived from",
  "Deriving a subset by runes, by glyph indices or by glyph count leaves the source font exactly as it was: afterwards the source writes the same bytes and answers every query as before, and further subsets of it are unaffected by earlier ones.",
  ["histories", "inputs"], "all fonts, all subset arguments, all later uses of the source",
  "No test subsets a font at all.",
  ["export.go","table_hmtx.go","table_glyf.go"],
  [("tables copied into a new font before being changed", "SubsetKeepIndices, SubsetFirst")],
  ["Font.SubsetKeepRunes", "Font.SubsetKeepIndices", "Font.SubsetFirst", "then Font.Write on the source"])

P("C10", "Writing and querying do not modify the font",
  "Writing a font, looking up runes, reading names, maps, glyph locations, dependencies or table information does not modify any state of the font. Hence they can be repeated and run concurrently on one font, under any schedule, with the same results (a second write gives the same bytes).",
  ["schedules", "histories"], "all interleavings of read-only operations on a shared font",
  "Tests are single-threaded and use each font once.",
  ["font.go","export.go","table_glyf.go","table_name.go","table_post.go","table_cmap.go","table_head.go"],
  [("no writes through the receiver", "all writers and queries")],
  ["Font.Write", "Font.LookupRunes", "Font.GetNameRecords", "Font.TableInfo"])

P("C11", "No mutable package-level state",
  "Operations on different fonts share no mutable state: package-level variables of the library are never modified after initialisation, nor handed out in a way that lets a font or a caller modify them. Fonts may therefore be processed concurrently without interfering.",
  ["schedules"], "all interleavings of operations on distinct fonts",
  "Tests never run two fonts concurrently; a shared buffer, decoder or cache would pass them.",
  ["encoding.go","const.go","internal/strutils/encoding.go","internal/strutils/pdfdocenc.go"],
  [("constant tables only read", "macGlyphNames, pdfDocEncoding"), ("fresh decoder per use", "GetRuneDecoder")],
  ["all exported functions"])

P("C12", "A failed read, seek or write is always reported",
  "Whenever any read, seek, decoding of a field, copy, output write or file operation fails during parsing, validating, subsetting or writing, the operation returns a non-nil error. It never returns success with a partially read or partially written result.",
  ["fault_sequences", "inputs"], "every I/O call site failing at every point",
  "Tests use healthy files; no fault is injected.",
  ["byte_reader.go","byte_writer.go","font.go","export.go","validate.go"]+ALLT,
  [("err != nil returns at each step", "all parse and write functions")],
  ["Parse", "ParseFile", "ValidateBytes", "ValidateFile", "Font.Write", "Font.WriteFile"])

P("C13", "Files are closed on every path and a failing close of output is reported",
  "Every file the library opens is closed exactly by the time the opening operation returns, on success and on every error path. Writing a font to a file reports success only if closing the file succeeded too, and a reader or writer supplied by the caller is never closed.",
  ["fault_sequences"], "all exits of the functions that open files",
  "Leaks and lost close errors are invisible to tests on healthy disks.",
  ["export.go"], [("deferred close", "ParseFile, ValidateFile, WriteFile")],
  ["ParseFile", "ValidateFile", "Font.WriteFile"])

P("C14", "Results do not depend on map iteration order, time or environment",
  "For equal inputs every operation yields equal results: glyph maps chosen for a platform and encoding, looked-up glyphs, subset contents, decoded and encoded text and written bytes never depend on hash-map iteration order, the clock, randomness or the environment. (Where several errors are possible, which of them is reported may vary.)",
  ["inputs", "schedules"], "all inputs, all map iteration orders",
  "Order-dependence shows only sometimes and only for inputs with ambiguous entries.",
  ["export.go","table_cmap.go","internal/strutils/encoding.go","internal/strutils/pdfdocenc.go","font.go"],
  [("ordered key list", "cmapTable.subtableKeys"), ("sorting after map iteration", "SubsetFirst")],
  ["Font.GetCmap", "Font.LookupRunes", "Font.Subset*", "Font.Write"])

P("C15", "A glyph-keeping subset contains all glyphs its composites need",
  "The set of glyphs kept by subsetting to runes or glyph indices contains every requested glyph and is closed under composite references at any nesting depth, including cycles; only glyph data outside that set is dropped and the glyph count is not cut below its largest member. An undecodable composite among them is an error, every time.",
  ["inputs", "histories"], "all reference graphs between glyphs, all requested sets, repeated calls",
  "No test subsets; deep or cyclic composites are rare.",
  ["export.go","table_glyf.go"],
  [("dependency expansion with visited set", "SubsetKeepIndices"), ("component list", "GetComponents, parseComposite")],
  ["Font.SubsetKeepIndices", "Font.SubsetKeepRunes"])

P("C16", "Parsing, subsetting and optimising keep the tables' lengths in agreement",
  "In every font produced by parsing, subsetting or optimising: there is exactly one glyph description per glyph, one more glyph location than glyphs (in the format the header announces), as many full metrics as the horizontal header announces, and full metrics plus trailing bearings cover every glyph and number exactly the glyphs (unless the source font announced more full metrics than glyphs). Glyph names, name indices and name offsets never outnumber the glyphs. Required tables are present.",
  ["inputs", "histories"], "all fonts, all subset arguments, all operation sequences",
  "One hand-made optimise test; subset results are never inspected.",
  ["export.go","table_hmtx.go","table_loca.go","table_glyf.go","font.go"],
  [("arrays rebuilt together with their counts", "SubsetFirst, SubsetKeepIndices, optimizeHmtx")],
  ["Font.SubsetFirst", "Font.SubsetKeepIndices", "Font.Optimize", "Parse"])

P("C17", "Written glyph locations match the written glyph data",
  "In every subset font, glyph location 0 is the start of the glyph data and each next location is the previous one plus the length of that glyph's data (halved in short format), computed without losing high bits. A location that does not fit the format is an error rather than silently truncated.",
  ["inputs", "histories"], "all glyph data sizes, both location formats, all subset arguments",
  "Needs large glyphs or a first location other than zero.",
  ["export.go","table_loca.go","table_glyf.go"],
  [("cumulative offsets", "SubsetFirst, SubsetKeepIndices")],
  ["Font.SubsetFirst then Write then Parse"])

P("C18", "The command line tool exits non-zero when it fails",
  "Whenever loading, parsing an argument, writing, validating or subsetting fails inside a truecli command, the process terminates with a non-zero status (error exit or panic). No command reports success after a failed step.",
  ["inputs", "fault_sequences"], "all failing steps of all commands",
  "truecli has no tests.",
  ["truecli/cmd/info.go","truecli/cmd/readwrite.go","truecli/cmd/root.go","truecli/cmd/subset_gids.go","truecli/cmd/subset_runes.go","truecli/cmd/subset_simple.go","truecli/cmd/validate.go"],
  [("fatal exits on err != nil", "Run functions")],
  ["exit status of truecli"])

P("C19", "The command line tool only writes fonts it has validated",
  "Every truecli command that writes a font file first serialises that same font and validates the serialised bytes successfully; no path reaches the output file without it. The file written is the font that was validated, unmodified in between.",
  ["inputs"], "all paths of all commands that write output",
  "truecli has no tests.",
  ["truecli/cmd/readwrite.go","truecli/cmd/subset_gids.go","truecli/cmd/subset_runes.go","truecli/cmd/subset_simple.go"],
  [("Write to buffer, ValidateBytes, then WriteFile", "Run functions")],
  ["output files of truecli"])

P("C20", "A parsed font no longer depends on its source",
  "Once parsing has returned, no operation on the font or on fonts derived from it reads from or seeks in the source it was parsed from. The source may be closed, moved or reused at once.",
  ["histories", "schedules"], "all operations after parsing, any fate of the source",
  "ParseFile closes the file, but tests only call Write afterwards.",
  ["export.go","font.go","table_glyf.go"],
  [("all table data is loaded while parsing", "parseFont"), ("retained reader is never used", "Font.br")],
  ["all Font methods"])

P("C21", "The built-in text and glyph-name tables are right and consistent",
  "The 258 standard Macintosh glyph names are the published ones in the published order, the PDFDocEncoding table assigns every code its published character with no two codes sharing one (so encoding inverts decoding), and each character-map platform/encoding pair the library supports (Unicode 0-4 and 6, Macintosh Roman, Windows symbol, Unicode, Shift-JIS, PRC, Big5 and full Unicode) selects the published character set and code width. Composite-glyph flag bits have their published values.",
  ["inputs"], "every entry of every table, every platform/encoding pair",
  "Tests spot-check 6 of 258 names and 9 characters.",
  ["encoding.go","internal/strutils/pdfdocenc.go","internal/strutils/encoding.go","table_glyf.go"],
  [("table literals", "macGlyphNames, pdfDocEncoding"), ("getCmapEncoding, GetRuneDecoder", "encoding.go")],
  ["glyph names of post 1.0/2.0", "Font.LookupRunes", "name strings"])

P("C22", "Rune lookup returns one glyph per rune from the prescribed maps",
  "Looking up runes returns exactly one glyph index per rune, in order; each is the glyph assigned by the first of the (3,1), (1,0), (0,3), (3,10) maps that contains the rune, or 0 when none does. A map query returns a map of exactly the requested platform and encoding, and in each map characters come from character codes and glyph indices from glyph entries of the subtable.",
  ["inputs"], "all rune sequences, all sets of present maps",
  "No test calls the lookup; map tests spot-check 7 runes of formats 4 and 6.",
  ["export.go","table_cmap.go"],
  [("search order list", "LookupRunes"), ("platform/encoding match", "GetCmap"), ("code to glyph expansion", "parseCmapSubtableFormat*")],
  ["Font.LookupRunes", "Font.GetCmap"])

P("C23", "Variable-size data is only taken from inside its own table",
  "A name string, language tag or glyph description is only read if its whole extent (offset plus length) lies within the directory length of its table; otherwise parsing fails. No glyph, name string or post glyph name ever contains bytes of a neighbouring table.",
  ["inputs"], "all offsets and lengths stored in name records and glyph locations",
  "Test fonts have no out-of-table entries.",
  ["table_name.go","table_glyf.go","table_loca.go"],
  [("extent checks before seeking", "parseNameTable, parseGlyf")],
  ["Parse"])

P("C24", "Glyph indices, counts and offsets are never silently truncated",
  "When a glyph index, count, length or offset is converted to the narrower integer used in the font (while parsing maps, subsetting, writing, or taking command line arguments), it is known to fit or the operation fails. No out-of-range value is silently reduced to a different valid-looking one. (Checksums and the idDelta arithmetic of format 4 are modular by design.)",
  ["inputs"], "all values of the converted quantities",
  "Needs more than 65535 of something or a hostile 32-bit value.",
  ["export.go","table_cmap.go","table_name.go","table_hmtx.go","table_loca.go","font.go","truecli/cmd/subset_gids.go"],
  [("range checks before conversion", "conversion sites")],
  ["Parse", "Font.Subset*", "Font.Write", "truecli subset gids"])

P("C25", "A subset never maps a character to a removed glyph",
  "In the font returned by subsetting to the first n glyphs, neither the in-memory character maps nor the character maps it writes assign a character to a glyph index of n or above. Characters of retained glyphs keep their glyph.",
  ["inputs", "histories"], "all fonts, all subtable formats, all n",
  "No test subsets a font.",
  ["export.go","table_cmap.go"],
  [("filter on glyph index when rebuilding subtables", "SubsetFirst")],
  ["Font.SubsetFirst", "Font.LookupRunes on the subset"])

P("C26", "Names are decoded with the encoding their platform prescribes",
  "Each name record is decoded by its platform: Unicode and Windows Unicode/symbol records as big-endian UTF-16, Macintosh Roman records as Mac Roman; the decoders never modify the stored bytes. A record found by identifier is the first with that identifier.",
  ["inputs"], "all platform/encoding pairs, all byte contents",
  "Test fonts hold only Macintosh and Windows ASCII names.",
  ["table_name.go","internal/strutils/encoding.go"],
  [("switch on platform", "nameRecord.Decoded")],
  ["Font.GetNameByID", "Font.GetNameRecords"])

P("C27", "A written font parses back to an equal font",
  "For every font (parsed, pruned, optimised or a subset) writing it and parsing the result succeeds and gives an equal font: the same glyph data, metrics, character maps and names, and the same fields in the tables of fixed layout; writing that font again gives the same bytes. (Glyph names of post are not written, by design of the library; checksums, locations and the segmentation of character maps are recomputed.)",
  ["inputs","histories"], "all parsable fonts and what is derived from them",
  "Round trips are sampled on two fonts.",
  ["font.go"]+ALLT, [("parse/write pairs", "table_*.go")], ["Parse(Write(f))"])

P("C28", "Kept glyphs render identically in a subset",
  "For every font and subset request everything in the supported tables that a TrueType rasteriser interprets a kept glyph from is unchanged in the written subset: its description and those of its components at any depth, its advance width and left side bearing, the hinting programs and control values (cvt, fpgm, prep) and the font-wide values in head, maxp and hhea (other than glyph count, metric count, location format and checksum). (A composite whose components lie beyond the first n glyphs asked for is excepted, as the documentation of SubsetFirst says.)",
  ["inputs","histories"], "all fonts, all kept glyphs, all sequences of subset operations",
  "Needs a rasteriser and arbitrary fonts.",
  ["export.go","table_glyf.go","table_hmtx.go"], [("raw glyph bytes kept", "glyfTable")], ["rendered glyphs"])

P("C29", "A written font has exactly the tables it should",
  "Through any sequence of parsing, subsetting, optimising and pruning, the written font contains each supported table the source font had (head, hhea, hmtx, maxp, loca, glyf, cmap, name, OS/2, post, cvt, fpgm, prep) exactly once, except those that were pruned, and no other. Pruning removes exactly the named tables among cmap, post and name and ignores other names. Table information says that a table is missing exactly when the font lacks it.",
  ["inputs","histories"], "all combinations of tables and histories of operations",
  "Test fonts have all tables; pruning is hardly tested.",
  ["export.go","font.go"], [("PruneTables", "Font.PruneTables"), ("write", "font.write"), ("TableInfo", "font.TableInfo")], ["Write", "TableInfo"])

P("C30", "The glyph data query designates the data of that glyph",
  "For every parsed or derived font and every glyph index the glyph location query returns the offset and length, within the glyph data of that very font, of that glyph's description (length zero if it has none or was not kept), in both location formats; an index that is not below the glyph count is an error.",
  ["inputs","histories"], "all fonts, glyph indices and location formats",
  "The query is not tested on subsets.",
  ["table_loca.go","export.go"], [("GetGlyphDataOffset", "font.GetGlyphDataOffset")], ["GetGlyphDataOffset"])

P("C31", "Files and streams agree",
  "Parsing a file gives the font that parsing its bytes gives, and validating a file the verdict that validating its bytes gives; only the named file is read. After writing a font to a file succeeds, the named file holds exactly the bytes that Write produces, whether it existed before or not and however long it was, and no other file is left changed. A file that does not exist is an error.",
  ["inputs","histories"], "all fonts, all previous contents of the file",
  "Tests write to fresh files and look at few of them.",
  ["export.go"], [("file wrappers", "ParseFile, ValidateFile, Font.WriteFile")], ["ParseFile", "ValidateFile", "WriteFile"])

P("C32", "The command line tool writes exactly the font its arguments ask for",
  "For every input font the tool's commands write, to the documented or given output file and to no other, exactly the font asked for: readwrite the font itself, subset gids the subset of the decimal glyph indices given (all of them), subset runes the subset of the characters (not bytes) of the text, subset simple the first 256 glyphs. An argument that is no glyph index, or an input that is no complete font, makes the command fail without output; info and validate write no file.",
  ["inputs"], "all fonts and argument lists",
  "The tool has no tests.",
  ["truecli/cmd/subset_gids.go","truecli/cmd/subset_runes.go","truecli/cmd/subset_simple.go","truecli/cmd/readwrite.go"],
  [("Run functions", "subsetGIDsCmd, subsetRunesCmd, subsetSimpleCmd, readwriteCmd")], ["output files", "exit status"])

P("C33", "Reports are reproducible and list every mapping",
  "The textual reports (table information, String, and what the info command prints) are a function of the font: they contain no memory addresses and do not depend on map iteration order. The listing of mappings shows, for each character map it covers, every character with its glyph, also where several characters share a glyph.",
  ["inputs","schedules"], "all fonts, all map iteration orders",
  "Reports are not tested; order-dependence shows only sometimes.",
  ["font.go","truecli/cmd/info.go"], [("reports", "font.TableInfo, font.String, infoCmd")], ["TableInfo", "String", "info"])

with open(os.path.join(os.path.dirname(__file__), "..", "properties.jsonl"), "w") as f:
    for o in out:
        f.write(json.dumps(o, ensure_ascii=False) + "\n")
print(len(out), "properties")
