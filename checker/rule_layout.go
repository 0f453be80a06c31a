package main

import (
	"fmt"
	"sort"
	"strings"
)

// The rules about the layout of tables: C05 and C23.

func init() {
	checks["C05"] = ruleC05
	checks["C23"] = ruleC23
}

// readTables are the tables whose layout is followed when reading, writeTables when writing.
var (
	readTables = []string{"sfnt", "head", "maxp", "hhea", "hmtx", "loca", "OS/2", "post", "name", "cmap", "cmap0", "cmap4", "cmap6", "cmap12",
		"prep", "fpgm", "cvt"}
	writeTables = readTables
	// notRead: fields without meaning for the reader, or of a position that depends on data (names in post).
	notRead = map[string]bool{"hhea/reserved": true, "cmap4/reservedPad": true, "cmap12/reserved": true, "post/nameLength": true}
	// notWritten: never part of a written post table (versions 1.0 and 3.0)
	notWritten = map[string]bool{"post/numGlyphs": true, "post/glyphNameIndex": true, "post/offset": true, "post/nameLength": true}
	// recomputed: written fields that need not hold the value read
	recomputed = map[string]bool{"post/version": true, "loca/offsetsShort": true, "loca/offsetsLong": true, "sfnt/tableTag": true, "cmap4/reservedPad": true}
)

type layoutFacts struct {
	stored map[string]map[string]bool // Type.field -> items
}

func ruleC05(P *Prog, r *Report, tier string) {
	r.explain = engineText + "Reader positions and buffer lengths are tracked symbolically. Every read of a field is placed in the layout of its table (offset from the table start, strides of the preceding arrays, width, byte order), for six combinations " +
		"of table versions and ten of component flags; every field the specification requires there must be read and written, at its place and nowhere else; the value written at a place must be that of the struct field filled from the same place."
	var names []string
	var cfgs []string
	for c := range layoutConfigs {
		cfgs = append(cfgs, c)
	}
	sort.Strings(cfgs)
	for _, c := range cfgs {
		if c[0] == 'g' {
			names = append(names, "Font.SubsetKeepIndices@"+c)
		} else {
			names = append(names, "Parse@"+c, "Font.Write@"+c)
		}
	}
	rs := getRoots(P, r, names)
	facts := &layoutFacts{stored: map[string]map[string]bool{}}
	for _, rr := range rs {
		for _, e := range rr.Evs {
			if e.Kind == "stored" {
				p := strings.SplitN(e.Msg, "|", 2)
				if facts.stored[p[1]] == nil {
					facts.stored[p[1]] = map[string]bool{}
				}
				id := p[0]
				if i := strings.IndexByte(id, '['); i >= 0 {
					id = id[:i] // a byte of a tag
				}
				if strings.HasPrefix(id, "comp") {
					id = "component" + id[strings.IndexByte(id, '/'):]
				}
				facts.stored[p[1]][strings.Replace(id, "cvt /", "cvt/", 1)] = true
			}
		}
	}
	for _, f := range sortedKeys(facts.stored) {
		if len(facts.stored[f]) > 1 {
			// fields of one kind in different formats of a subtable are different fields
			r.add(Finding{Rule: "field-from-two-places", Key: f, Where: "-", Msg: fmt.Sprintf("%s is filled from different fields of the file: %s", f, strings.Join(sortedKeys(facts.stored[f]), ", "))})
		}
		r.count("struct_fields_with_a_place", 1)
	}
	for _, rr := range rs {
		c := rr.Name[strings.IndexByte(rr.Name, '@')+1:]
		switch {
		case strings.HasPrefix(rr.Name, "Parse@"):
			layoutReads(r, rr, c, readTables)
		case strings.HasPrefix(rr.Name, "Font.Write@"):
			layoutWrites(r, rr, c, facts)
		default:
			layoutReads(r, rr, c, []string{compLayout(layoutConfigs[c]["mem/flags"])})
		}
	}
	r.need("struct fields with a place in the file", len(facts.stored), 90)
	r.need("field reads placed", intOf(r, "reads_placed"), 600)
	r.need("field writes placed", intOf(r, "writes_placed"), 500)
}

func split5(m string) [5]string {
	var p [5]string
	copy(p[:], strings.SplitN(m, "|", 5))
	return p
}

func layoutReads(r *Report, rr *RootResult, c string, tables []string) {
	cfg := layoutConfigs[c]
	seen := map[string]bool{}
	for _, e := range rr.Evs {
		if e.Kind != "read" {
			continue
		}
		p := split5(e.Msg)
		tag, item, width, order, note := strings.TrimSpace(p[0]), p[1], p[2], p[3], p[4]
		key := e.Fn + ": " + tag + " " + chainKey(e.Path)
		if item == "-" {
			if tag == "?" && width == "1" {
				r.count("reads_of_name_lengths", 1)
				continue
			}
			r.add(Finding{Rule: "read-misplaced", Key: key, Where: e.Pos, Chain: e.Path,
				Msg: fmt.Sprintf("%d bytes are read from table %s where no field of that width begins (%s)", atoi(width), tag, note)})
			continue
		}
		r.count("reads_placed", 1)
		for _, i := range strings.Split(item, ",") {
			seen[tag+"/"+i] = true
		}
		if order != "bigEndian" && width != "1" {
			r.add(Finding{Rule: "byte-order", Key: key + item, Where: e.Pos, Chain: e.Path, Msg: fmt.Sprintf("%s/%s is read in byte order %s", tag, item, order)})
		}
	}
	for _, t := range tables {
		for _, it := range layouts[t] {
			id := t + "/" + it.name
			if !it.holds(cfg) || notRead[id] {
				continue
			}
			r.count("fields_required_in_reading", 1)
			if !seen[id] && !(it.name == "format" && seen["cmapsub/format"]) {
				r.add(Finding{Rule: "field-not-read", Key: id, Where: "-", Msg: fmt.Sprintf("%s never reads %s at its place (versions %s)", rr.Name, id, cfgString(cfg))})
			}
		}
	}
}

func cfgString(cfg map[string]int64) string {
	var s []string
	for _, k := range sortedKeys(cfg) {
		s = append(s, fmt.Sprintf("%s=%#x", k, cfg[k]))
	}
	return strings.Join(s, " ")
}

func atoi(s string) int {
	n := 0
	fmt.Sscan(s, &n)
	return n
}

// chainKey is a call chain without positions.
func chainKey(p string) string {
	if i := strings.Index(p, ": "); i >= 0 {
		p = p[i+2:]
	}
	return p
}

func layoutWrites(r *Report, rr *RootResult, c string, facts *layoutFacts) {
	cfg := layoutConfigs[c]
	seen := map[string]bool{}
	fullPost := false
	for _, e := range rr.Evs {
		if e.Kind != "write" {
			continue
		}
		p := split5(e.Msg)
		tag, item, width, order, what := strings.TrimSpace(p[0]), p[1], p[2], p[3], p[4]
		key := e.Fn + ": " + tag + " " + chainKey(e.Path)
		bad := func(rule, msg string) {
			r.add(Finding{Rule: rule, Key: key + " " + item + " " + what, Where: e.Pos, Chain: e.Path, Msg: msg})
		}
		field := strings.SplitN(what, " ", 2)[0]
		if item == "-" {
			if width == "1" && strings.HasSuffix(what, "written in table ") && facts.stored[field] == nil {
				r.count("raw_bytes_written_to_a_scratch_buffer", 1)
				continue
			}
			bad("write-misplaced", fmt.Sprintf("%s bytes (%s) are written to table %s where no field of that width begins", width, what, tag))
			continue
		}
		id := tag + "/" + item
		r.count("writes_placed", 1)
		for _, i := range strings.Split(item, ",") {
			seen[tag+"/"+i] = true
		}
		if order != "bigEndian" && width != "1" {
			bad("byte-order", fmt.Sprintf("%s is written in byte order %s", id, order))
		}
		it := itemOf(tag, item)
		switch {
		case it == nil:
			bad("write-ambiguous", fmt.Sprintf("the place of a write to table %s is not determined", tag))
		case strings.HasPrefix(what, "="):
			if id == "post/version" {
				var lo, hi int64
				if n, _ := fmt.Sscanf(what, "=computed in [%d,%d]", &lo, &hi); n == 2 && lo >= 0x10000 && hi <= 0x30000 {
					continue
				}
				if what == "=65536" || what == "=196608" {
					continue
				}
			}
			if !it.comp && !(recomputed[id] && id != "post/version") {
				bad("value-not-kept", fmt.Sprintf("%s is written with a computed value (%s) instead of what was read for it", id, what[1:]))
			}
		default:
			if id == "post/version" {
				fullPost = true
			}
			from := facts.stored[field]
			switch {
			case from == nil:
				bad("field-without-source", fmt.Sprintf("%s is written from %s, which is not filled from the file", id, field))
			case !from[id]:
				bad("value-exchanged", fmt.Sprintf("%s is written from %s, which holds %s", id, field, strings.Join(sortedKeys(from), ", ")))
			}
		}
	}
	for _, t := range writeTables {
		for _, it := range layouts[t] {
			id := t + "/" + it.name
			if !it.holds(cfg) || notWritten[id] && !(fullPost && id != "post/nameLength") {
				continue
			}
			r.count("fields_required_in_writing", 1)
			if !seen[id] {
				r.add(Finding{Rule: "field-not-written", Key: id, Where: "-", Msg: fmt.Sprintf("%s never writes %s at its place (versions %s)", rr.Name, id, cfgString(cfg))})
			}
		}
	}
}

func itemOf(tag, name string) *layItem {
	l := layouts[tag]
	for i := range l {
		if l[i].name == name {
			return &l[i]
		}
	}
	return nil
}

// blockForms are the places and lengths of variable-size data, as sums of the fields that designate them.
var blockForms = map[string][]string{
	"name": {"name/offset+name/stringOffset|name/length", "name/langTagOffset+name/stringOffset|name/langTagLength"},
	"glyf": {"2*loca/offsetsShort|-2*loca/offsetsShort+2*loca/offsetsShort", "loca/offsetsLong|-1*loca/offsetsLong+loca/offsetsLong"},
	"post": {"?|?"},
}

func ruleC23(P *Prog, r *Report, tier string) {
	r.explain = engineText + "Every read of a block of variable size is an obligation: it begins at or after the start of its table and ends at or before its directory length; and it begins and ends where the fields that designate it say."
	rs := getRoots(P, r, []string{"Parse@0", "Parse@1", "Parse@2", "Parse@3", "Parse@4", "Parse@5"})
	n := map[string]int{}
	for _, rr := range rs {
		for _, e := range rr.Evs {
			if e.Kind != "block" {
				continue
			}
			p := strings.SplitN(e.Msg, "|", 4)
			tag, ok, f := p[0], p[1], p[2]+"|"+p[3]
			r.sample(fmt.Sprintf("%s: block of %s at %s, %s: %s", rr.Name, tag, p[2], p[3], ok))
			r.count("blocks", 1)
			key := e.Fn + ": " + tag + " " + chainKey(e.Path)
			if ok != "true" {
				r.add(Finding{Rule: "outside-table", Key: key, Where: e.Pos, Chain: e.Path, Msg: fmt.Sprintf("a block of variable size (table %s, at %s, length %s) is read that may extend beyond its table", tag, p[2], p[3])})
				continue
			}
			good := false
			for _, x := range blockForms[tag] {
				good = good || x == f || x == "?|?"
			}
			if !good {
				r.add(Finding{Rule: "wrong-block", Key: key, Where: e.Pos, Chain: e.Path, Msg: fmt.Sprintf("a block of table %s is read at %s with length %s, not where its fields say", tag, p[2], p[3])})
			}
			n[tag]++
		}
	}
	r.need("blocks of the name table", n["name"], 6)
	r.need("blocks of the glyf table", n["glyf"], 6)
	r.need("blocks of the post table", n["post"], 3)
}
