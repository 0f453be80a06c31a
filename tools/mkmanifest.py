#!/usr/bin/env python3
"""Writes MANIFEST.json from the table below and properties.jsonl."""
import json
T = "static analysis: "
CHECKS = {
 "C11": (T+"interprocedural flow of package variables over SSA", "other",
  "Every use of every package-level variable of the library in code that can run after initialisation is followed; trusts the list of read-only standard functions in rule_c11.go. error values are taken to be immutable."),
}
AI=T+"abstract interpretation of the SSA (linear constraints, shapes, pointer alternatives; loops to an inductive fixpoint)"
AN="Sound up to the assumptions in DESIGN.md (engine models of the standard library); no bound on inputs. "
CHECKS.update({
 "C01": (AI, "other", AN+"Every instruction reachable from Parse, ParseFile, ValidateBytes, ValidateFile that can panic is an obligation."),
 "C02": (AI+" under the font class invariant", "other", AN+"Receiver is any font satisfying the invariant established by C16."),
 "C03": (AI+"; termination measures", "other", AN+"Every loop needs a measure; bounded by quantities fixed before the loop."),
 "C04": (AI+"; allocation sizes", "other", AN),
 "C09": (AI+"; write-effect analysis", "other", AN),
 "C10": (AI+"; write-effect analysis", "other", AN),
 "C12": (AI+"; failure typestate", "other", AN+"Each failing outcome of a modelled operation must lead to a non-nil error."),
 "C13": (AI+"; file typestate", "other", AN),
 "C16": (AI+"; inductive class invariant", "other", AN),
 "C20": (AI+"; source-use effects", "other", AN),
 "C24": (AI+"; interval obligations at conversions", "other", AN+"Out of scope: see the check's explanation."),
})
CHECKS.update({
 "C05": (AI+"; symbolic reader positions and buffer lengths placed in a transcription of the OpenType layouts", "other", AN+"Six combinations of table versions and ten of component flags are each analysed for every input; values are followed by provenance from the place they are read at to the place they are written at. Contents of recomputed fields are C06, C07, C17."),
 "C23": (AI+"; containment of variable-size reads", "other", AN+"Six combinations of table versions."),
})
PE=T+"constant propagation and partial evaluation of the SSA (affine forms over unknown bytes)"
CHECKS.update({
 "C21": (PE, "other", "Every entry of every table, every platform/encoding pair with a published character set the library supports, and an unknown character code. Decoders of golang.org/x/text are trusted."),
 "C26": (PE, "other", "Every supported platform/encoding pair; unknown string bytes of lengths 0 to 8; three records. utf16.Decode, charmap.Macintosh and the printable-character test are trusted."),
 "C18": (T+"path-sensitive typestate dataflow over the SSA of the command line tool", "other", "All paths of every function the command framework calls, and main; finite domains, no bound on inputs. Library calls are taken from their signatures."),
 "C19": (T+"path-sensitive typestate dataflow over the SSA of the command line tool", "other", "All paths of every function the command framework calls; finite domains. That Write is deterministic is C14; that ValidateBytes verifies is C08."),
})
SH=" Fonts of a fixed list of structures (glyph counts, composite graphs, versions and combinations of tables, subtable formats; DESIGN.md), each with every byte that does not determine structure unknown; nothing is claimed for other structures."
CHECKS.update({
 "C06": (PE, "other", "What Write produces is read back by the specification, affine forms compared."+SH),
 "C07": (PE, "other", "Offsets and lengths are constants; checksums are compared as forms, that is for all contents."+SH),
 "C14": (PE+", every loop over a map in four orders; taint scan for clock, random numbers, environment", "other", "Results in four orders are compared as forms."+SH),
 "C15": (PE, "other", "Graphs of composites: chains, cycles, shared and self references, 8 cut points."+SH),
 "C17": (PE, "other", "Every location of what is written, after subsetting and not."+SH),
 "C22": (PE, "other", "Every code of subtables of the formats 0, 4, 6 and 12 with unknown glyph entries, every platform and encoding up to (4,11); conditions on unknown entries are decided both ways where they matter."),
 "C08": (PE+"; both outcomes of every comparison that involves a recorded checksum", "other", "Every path of validation for every file; a path that succeeds must have compared every sum (as forms, that is for all contents)."+SH),
 "C27": (PE, "other", "What is written is followed through parsing and writing again, and compared as forms."+SH),
 "C28": (PE, "other", "What a rasteriser reads, not what it makes of it: equality of all its inputs, as forms."+SH),
 "C29": (PE, "other", "Tags of the directory written after each history, and table information."+SH),
 "C30": (PE, "other", "The query for every glyph index, against the descriptions of the source."+SH),
 "C31": (PE+", over a model of files by name", "other", "File wrappers against their stream forms, for files that exist (shorter, longer) and do not."+SH),
 "C32": (PE+", over a model of files by name, from the functions the command framework runs", "other", "All six commands, a fixed list of argument lists (first, last, several, repeated, zero-padded, large and wrong indices; text within and beyond ASCII and 16 bits), flags given and not. That the framework calls the functions with the arguments is trusted."+SH),
 "C33": (T+"type-directed check of every formatted operand; "+PE[len(T):]+", every loop over a map in four orders", "other", "Operands: all, by static type and verb. Reports: every flag of info."+SH),
 "C25": (PE, "other", "Every map entry in memory and as written, for every number of glyphs."+SH),
})
NA = {}
import os
here=os.path.dirname(os.path.abspath(__file__))
props=[json.loads(l)["id"] for l in open(os.path.join(here,"..","properties.jsonl"))]
exec(open(os.path.join(here,"manifest_table.py")).read()) if os.path.exists(os.path.join(here,"manifest_table.py")) else None
m={"version":1,"setup_cmd":"./check.sh build",
 "checks":[{"property":p,"quick_cmd":f"./check.sh {p} quick","thorough_cmd":f"./check.sh {p} thorough","evidence_file":f"evidence/{p}.json",
   "technique":CHECKS[p][0],"level":CHECKS[p][1],"level_note":CHECKS[p][2]} for p in props if p in CHECKS],
 "not_applicable":[{"property":p,"reason":NA.get(p,"check not built yet")} for p in props if p not in CHECKS],
 "notes":"All checks are one Go program (checker/) that type-checks /repo, builds SSA and analyses it; it never runs the library."}
json.dump(m,open(os.path.join(here,"..","MANIFEST.json"),"w"),indent=1)
