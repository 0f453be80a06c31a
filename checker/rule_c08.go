package main

import (
	"fmt"
	"strings"
	"sync"

	"golang.org/x/tools/go/ssa"
)

func init() { checks["C08"] = ruleC08 }

// checkedFile is a font file whose checksums and adjustment are unknown.
type checkedFile struct {
	b     []pv
	nom   map[int]byte
	want  []pnum // the forms that must be zero (modulo 2^32) when the file is valid
	what  []string
	sums  map[int]bool // the unknown bytes of checksums
	recAt map[string]int
	at    map[string]int
}

// checked assembles the tables of a font in an order (of both records and tables); dup repeats the record of a table for other bytes.
func (e *PE) checked(f *peFont, order []string, dup string, tail int) *checkedFile {
	c := &checkedFile{sums: map[int]bool{}, recAt: map[string]int{}, at: map[string]int{}, nom: f.nominal}
	var b, data peBytes
	n := len(order)
	if dup != "" {
		n++
	}
	b.u32(0x10000)
	f.fill(&b, 0)
	b.u16(n)
	f.fill16(&b, 3)
	base := 12 + 16*n
	type rec struct {
		tag     string
		sum     pnum
		off, ln int
	}
	var recs []rec
	put := func(tag string, body peBytes) {
		c.recAt[tag] = len(b)
		b.str(padTag(tag))
		from := f.next
		s := f.unknown(&b, 0x01020304, 4)
		for a := from; a < f.next; a++ {
			c.sums[a] = true
		}
		c.at[tag] = base + len(data)
		recs = append(recs, rec{tag, s, base + len(data), len(body)})
		b.u32(base+len(data), len(body))
		data = append(data, body...)
		for len(data)%4 != 0 && tail%2 == 0 {
			f.unknown(&data, 7, 1) // what is between the tables is unknown too
		}
	}
	if dup == "first" {
		put("DSIG", peBytes{patom(f.next)})
		f.nominal[f.next] = 3
		f.next++
	}
	for _, t := range order {
		put(t, f.tables[t])
	}
	if dup == "last" {
		var x peBytes
		f.fill(&x, 6)
		put("DSIG", x)
	}
	for i := 0; i < tail; i++ { // after the last table too
		f.unknown(&data, 9, 1)
	}
	c.b = append(b, data...)
	var adj pnum
	for _, r := range recs {
		body := c.b[r.off : r.off+r.ln]
		if r.tag == "head" {
			for i := 8; i < 12; i++ {
				for a := range body[i].(pnum).t {
					c.sums[a] = true
				}
			}
			adj, _ = e.num(body, 8, 4)
			body = zeroed(body, 8, 4)
		}
		s, _ := e.sumWords(body)
		c.want = append(c.want, mod32(e.add(s, r.sum, true)))
		c.what = append(c.what, fmt.Sprintf("the checksum of table %s (%d bytes at %d)", r.tag, r.ln, r.off))
	}
	s, _ := e.sumWords(zeroed(c.b, c.at["head"]+8, 4))
	c.want = append(c.want, mod32(e.add(e.add(pknum(0xB1B0AFBA), s, true), adj, true)))
	c.what = append(c.what, "the checksum adjustment")
	return c
}

func (e *PE) neg(n pnum) pnum { return e.mulK(n, ^uint64(0)) }

// validators are the exported functions that validate.
func validators(P *Prog) map[string]*ssa.Function {
	r := map[string]*ssa.Function{}
	for _, n := range []string{"ValidateBytes", "ValidateFile"} {
		if fn := P.lib.Func(n); fn != nil {
			r[n] = fn
		}
	}
	return r
}

// validate evaluates a validator on a file.
func (e *PE) validate(fn *ssa.Function, b []pv) (isErr bool, msg string) {
	e.steps, e.depth = 0, 0
	e.opaque, e.limit = true, 80000000
	msg = e.run(func() {
		e.file = append([]pv(nil), b...)
		var arg pv = "font.ttf"
		if fn.Name() == "ValidateBytes" {
			arg = mkBytes(append([]pv(nil), b...))
		}
		er, ok := e.call(fn, []pv{arg}, nil).(piface)
		if !ok {
			e.fail("results of %s", fn.Name())
		}
		isErr = er.t != nil
	})
	e.file = nil
	return
}

func ruleC08(P *Prog, r *Report, tier string) {
	r.explain = "Validation of font files of known structure is followed with every other byte, every recorded checksum and the adjustment unknown. Each comparison that involves a recorded checksum or the adjustment is taken both ways. Wherever validation succeeds, the comparisons that were " +
		"taken as equal must include, for every table record, the sum of the words of exactly that table's bytes (the adjustment of head taken as zero) and the recorded checksum, and the sum over the file and the adjustment (as forms, that is for all contents). " +
		"Files that are cut anywhere, tables outside of the file and a missing head table must give an error."
	vs := validators(P)
	if len(vs) < 2 {
		r.add(Finding{Rule: "anchor", Key: "Validate", Where: "-", Msg: "ValidateBytes or ValidateFile is not found"})
		return
	}
	type job struct {
		s     *fontShape
		order int
		dup   string
		tail  int // bytes after the last table; when odd the tables are not padded
	}
	var jobs []job
	for i, s := range shapes() {
		if s.large || len(s.glyphs) > 200 {
			continue
		}
		jobs = append(jobs, job{s, i % 3, "", i % 6})
		if i%5 == 0 {
			jobs = append(jobs, job{s, (i + 1) % 3, "first", (i + 3) % 6}, job{s, (i + 2) % 3, "last", (i + 4) % 6})
		}
	}
	paths, oks, cuts := 0, 0, 0
	var mu sync.Mutex
	follow := func(e *PE, j job) {
		own := *j.s // a shape can be in several jobs at once
		own.subs = nil
		for _, x := range j.s.subs {
			y := *x
			own.subs = append(own.subs, &y)
		}
		j.s = &own
		paths, oks, cuts := &paths, &oks, &cuts
		for _, name := range []string{"ValidateBytes", "ValidateFile"} {
			fn := vs[name]
			at := P.pos(fn.Pos())
			f := j.s.build()
			var order []string
			for t := range f.tables {
				order = append(order, t)
			}
			inOrder(order, j.order)
			e.derived, e.derivedBy, e.nomTerm = nil, nil, nil
			c := e.checked(f, order, j.dup, j.tail)
			e.nominal = c.nom
			id := fmt.Sprintf("%s, %d records", j.s.name, len(c.want)-1)
			if j.dup != "" {
				id += " (an unknown table " + j.dup + ")"
			}
			bad := func(rule, f string, a ...any) {
				mu.Lock()
				defer mu.Unlock()
				r.add(Finding{Rule: rule, Key: name + " " + id, Where: at, Msg: name + " on " + id + ": " + fmt.Sprintf(f, a...)})
			}
			e.choose = func(string) (bool, bool) { return false, true }
			// both ways; the first is as equal
			var script []bool
			good := 0
			for n := 0; n < 400; n++ {
				var asked []bool
				var assumed []pnum
				known := map[string]bool{}
				e.onCond = func(t *pterm) (bool, bool) {
					if !strings.HasPrefix(t.op, "cmp") || len(t.args) != 2 {
						return false, false
					}
					x, ok1 := t.args[0].(pnum)
					y, ok2 := t.args[1].(pnum)
					if !ok1 || !ok2 || x.term != "" || y.term != "" {
						return false, false
					}
					d := e.add(x, y, true)
					about := false
					for _, a := range e.atomsOf([]pv{d}) {
						about = about || c.sums[a]
					}
					if !about {
						return false, false
					}
					eq := t.op == "cmp==" || t.op == "cmp!="
					k := d.String()
					if o := e.neg(d).String(); eq && o < k {
						k = o
					}
					if !eq {
						k = t.op + k
					}
					v, ok := known[k]
					if !ok {
						if len(asked) < len(script) {
							v = script[len(asked)]
						}
						asked = append(asked, v)
						known[k] = v
						if eq && !v {
							assumed = append(assumed, d)
						}
					}
					return v == (t.op == "cmp!="), true
				}
				isErr, msg := e.validate(fn, c.b)
				e.onCond = nil
				mu.Lock()
				*paths++
				mu.Unlock()
				if msg != "" {
					bad("analysis", "%s", msg)
					break
				}
				if !isErr {
					good++
					for i, w := range c.want {
						found := false
						for _, d := range assumed {
							if sameForm(mod32(d), w) || sameForm(mod32(e.neg(d)), w) {
								found = true
							}
						}
						if !found {
							bad("unverified", "validation can succeed without %s having been compared to the sum of the bytes", c.what[i])
							n = 400
							break
						}
					}
				}
				for len(asked) > 0 && asked[len(asked)-1] {
					asked = asked[:len(asked)-1]
				}
				if len(asked) == 0 {
					break
				}
				asked[len(asked)-1] = true
				script = append([]bool(nil), asked...)
			}
			if good == 0 {
				bad("refused", "validation fails although every checksum is right")
			}
			mu.Lock()
			*oks += good
			mu.Unlock()
			// cut files, tables that are not there, and records that point elsewhere; every comparison comes out right
			e.onCond = func(t *pterm) (bool, bool) {
				if t.op == "cmp==" || t.op == "cmp!=" {
					x, ok1 := t.args[0].(pnum)
					y, ok2 := t.args[1].(pnum)
					if ok1 && ok2 && x.term == "" && y.term == "" {
						for _, a := range e.atomsOf([]pv{e.add(x, y, true)}) {
							if c.sums[a] {
								return t.op == "cmp==", true
							}
						}
					}
				}
				return false, false
			}
			mustFail := func(what string, b []pv) {
				mu.Lock()
				*cuts++
				mu.Unlock()
				isErr, msg := e.validate(fn, b)
				if msg != "" {
					bad("analysis", "%s: %s", what, msg)
				} else if !isErr {
					bad("unread", "validation succeeds although %s", what)
				}
			}
			end := 0
			for t, o := range c.at {
				if len(f.tables[t]) == 0 {
					continue
				}
				end = max(end, o+len(f.tables[t]))
			}
			for k := 0; k < end; k += 1 + k/3 {
				mustFail(fmt.Sprintf("the file is cut at %d", k), c.b[:k])
			}
			mustFail(fmt.Sprintf("the file is cut at %d, in its last table", end-1), c.b[:end-1])
			for _, t := range []string{"head", "DSIG", "GPOS", "kern", "cvt", "name"} {
				ra, ok := c.recAt[t]
				if !ok {
					continue
				}
				for _, v := range [][2]int{{len(c.b) + 4, 4}, {len(c.b) - 3, 4}, {0xfffffff0, 16}, {0x7ffffffc, 8}, {12, len(c.b)}, {0, 0xffffffff}, {0, 0x80000000}} {
					var x peBytes
					x.u32(v[0], v[1])
					b := append([]pv(nil), c.b...)
					copy(b[ra+8:], x)
					mustFail(fmt.Sprintf("the record of table %s says %d bytes at %d, the file has %d", t, v[1], v[0], len(b)), b)
				}
			}
			b := append([]pv(nil), c.b...)
			b[c.recAt["head"]+3] = knum('x')
			mustFail("there is no head table", b)
			e.onCond = nil
		}
	}
	inParallel(len(jobs), func() func(int) {
		mu.Lock()
		e := newInitPE(P, r)
		mu.Unlock()
		return func(i int) { follow(e, jobs[i]) }
	})
	r.count("paths", paths)
	r.count("successes", oks)
	r.count("broken_files", cuts)
	r.need("paths", paths, 200)
	r.need("broken files", cuts, 300)
}
