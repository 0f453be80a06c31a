package main

import (
	"fmt"
	"sort"
	"strings"
)

// Rules that ask the abstract interpretation of the entry points.

func init() {
	checks["C01"] = ruleC01
	checks["C02"] = ruleC02
	checks["C03"] = ruleC03
	checks["C04"] = ruleC04
	checks["C09"] = ruleC09
	checks["C10"] = ruleC10
	checks["C12"] = ruleC12
	checks["C13"] = ruleC13
	checks["C16"] = ruleC16
	checks["C20"] = ruleC20
	checks["C24"] = ruleC24
}

const engineText = "Every entry point is interpreted over an abstract domain (linear constraints over lengths, counters and read values; " +
	"shapes of containers; pointer alternatives; conditional facts) from an arbitrary input or an arbitrary font satisfying the class invariant; callees are " +
	"analysed in context, loops to an inductive fixpoint. "

const panicKinds = "nil,bounds,slice,makeneg,nilmap,typeassert,div,shift,panic,unmodelled,converge,budget"

func ruleC01(P *Prog, r *Report, tier string) {
	r.explain = engineText + "Each instruction that can panic is an obligation; it holds when its condition follows from the constraints on every path."
	rs := getRoots(P, r, functionRoots(P))
	obligations(r, rs, panicKinds, nil)
	r.need("entry points that parse or validate", len(rs), 4)
	r.need("bounds and slice sites", intOf(r, "sites_bounds")+intOf(r, "sites_slice"), 40)
	r.need("nil sites", intOf(r, "sites_nil"), 300)
}

func ruleC02(P *Prog, r *Report, tier string) {
	r.explain = engineText + "The receiver is any font satisfying the invariant (that parsing and deriving establish it is C16); arguments are arbitrary. " +
		"Each instruction that can panic is an obligation."
	rs := getRoots(P, r, methodRoots(P))
	obligations(r, rs, panicKinds, nil)
	r.need("methods of a font", len(rs), 14)
	r.need("bounds and slice sites", intOf(r, "sites_bounds")+intOf(r, "sites_slice"), 60)
	r.need("nil sites", intOf(r, "sites_nil"), 400)
}

func ruleC03(P *Prog, r *Report, tier string) {
	r.explain = engineText + "For every loop the number of iterations must be bounded by quantities fixed before the loop (a linear measure, the finite key type of a map that every round extends, or the data " +
		"consumed from a finite source); recursion must be bounded. Loops over slices, maps and strings are finite by construction."
	rs := getRoots(P, r, append(functionRoots(P), methodRoots(P)...))
	obligations(r, rs, "loop,recursion,converge,budget", nil)
	r.need("loops", intOf(r, "sites_loop"), 50)
}

func ruleC04(P *Prog, r *Report, tier string) {
	r.explain = engineText + "Each allocation whose size is not a constant is an obligation: at most 65536 elements, or no more elements than bytes already read, or data that is already in memory."
	rs := getRoots(P, r, functionRoots(P))
	obligations(r, rs, "alloc", nil)
	r.need("allocations of variable size", intOf(r, "sites_alloc"), 10)
}

// derives tells the methods that return a font.
func derives(rr *RootResult) bool {
	for _, e := range rr.Exits {
		if len(e.Fresh) > 0 {
			return true
		}
	}
	return false
}

func splitEffect(m string) (input, obj, what string) {
	p := strings.SplitN(m, "|", 3)
	for len(p) < 3 {
		p = append(p, "")
	}
	return p[0], p[1], p[2]
}

var mutators = map[string]bool{"Font.Optimize": true, "Font.PruneTables": true}

func ruleC09(P *Prog, r *Report, tier string) {
	r.explain = engineText + "No path of a method that derives a font may write to an object of the font it starts from (structs, arrays, maps, buffers; an append that may write in place counts). " +
		"A derived font must own its Font and font structs and every table that Optimize or PruneTables writes to."
	rs := getRoots(P, r, methodRoots(P))
	n := 0
	shared := map[string]string{}
	for _, rr := range rs {
		if !derives(rr) {
			continue
		}
		n++
		for _, e := range rr.Evs {
			if e.Kind == "effect" {
				in, obj, what := splitEffect(e.Msg)
				r.add(Finding{Rule: "source-modified", Key: e.Fn + ": " + obj + what, Where: e.Pos, Chain: e.Path,
					Msg: fmt.Sprintf("%s writes to %s%s of the %s it derives a font from", rr.Name, obj, what, in)})
			}
		}
		for _, x := range rr.Exits {
			for _, a := range x.Alias {
				shared[a] = rr.Name
			}
			if len(x.Fresh) > 0 {
				r.count("derived_fonts", 1)
			}
		}
	}
	for _, rr := range rs {
		if !mutators[rr.Name] {
			continue
		}
		for _, e := range rr.Evs {
			if e.Kind != "effect" {
				continue
			}
			r.count("mutator_writes", 1)
			_, obj, what := splitEffect(e.Msg)
			own := obj == "font" || obj == "Font"
			for _, t := range tableFields {
				own = own || obj == t
			}
			if by, ok := shared[obj]; ok || !own {
				if !own {
					by = "a derived font"
				}
				r.add(Finding{Rule: "shared-with-source", Key: rr.Name + ": " + obj + what, Where: e.Pos, Chain: e.Path,
					Msg: fmt.Sprintf("%s writes to %s%s, which %s shares with the font it was derived from", rr.Name, obj, what, by)})
			}
		}
	}
	r.need("methods that derive a font", n, 3)
	r.need("writes of the mutators", intOf(r, "mutator_writes"), 1)
}

func ruleC10(P *Prog, r *Report, tier string) {
	r.explain = engineText + "No path of a method other than Optimize and PruneTables may write to any object of the font or of package state."
	rs := getRoots(P, r, methodRoots(P))
	n := 0
	for _, rr := range rs {
		if mutators[rr.Name] {
			continue
		}
		n++
		r.sample(fmt.Sprintf("%s: %d functions, %d exits", rr.Name, len(rr.Fns), len(rr.Exits)))
		for _, e := range rr.Evs {
			if e.Kind == "effect" || e.Kind == "globalwrite" {
				_, obj, what := splitEffect(e.Msg)
				r.add(Finding{Rule: "font-modified", Key: e.Fn + ": " + obj + what, Where: e.Pos, Chain: e.Path,
					Msg: fmt.Sprintf("%s writes to %s%s", rr.Name, obj, what)})
			}
		}
	}
	r.need("methods that only read", n, 10)
}

func ruleC12(P *Prog, r *Report, tier string) {
	r.explain = engineText + "Every read, seek, copy, write, open and close is split into success and failure; the state remembers the failure. No exit reached after a failure may return a nil error."
	rs := getRoots(P, r, append(functionRoots(P), methodRoots(P)...))
	failing := 0
	for _, rr := range rs {
		for _, x := range rr.Exits {
			if x.Failed == "" {
				continue
			}
			if len(x.Errs) == 0 {
				r.count("failures_in_operations_without_error_result", 1)
				continue
			}
			failing++
			for _, i := range x.Errs {
				if s := x.Res[i]; s != "non-nil" {
					r.add(Finding{Rule: "failure-not-reported", Key: rr.Name + ": " + x.Failed[:strings.IndexByte(x.Failed+" ", ' ')], Where: x.Failed[strings.LastIndexByte(x.Failed, ' ')+1:],
						Msg: fmt.Sprintf("%s may return a nil error (%s) although this failed: %s", rr.Name, s, x.Failed)})
				}
			}
		}
	}
	r.count("failing_exits", failing)
	r.need("exits after a failure", failing, 6)
}

func ruleC13(P *Prog, r *Report, tier string) {
	r.explain = engineText + "Typestate of every file the library opens: at each exit it is closed, it is closed once, a failing close of an output is returned; Close is never called on a reader or writer of the caller."
	rs := getRoots(P, r, append(functionRoots(P), "Font.WriteFile", "Font.Write"))
	opening, closes := 0, 0
	for _, rr := range rs {
		opened, closeFails := false, false
		for _, x := range rr.Exits {
			for _, g := range sortedKeys(x.Ghost) {
				if !strings.HasPrefix(g, "file:") {
					continue
				}
				opened = true
				if x.Ghost[g] != "closed" {
					r.add(Finding{Rule: "file-left-open", Key: rr.Name, Where: "-", Msg: fmt.Sprintf("%s may return with a file it opened not closed (%s)", rr.Name, x.Ghost[g])})
				}
			}
			if strings.HasPrefix(x.Failed, "close") {
				closeFails = true
				for _, i := range x.Errs {
					if x.Res[i] != "non-nil" {
						r.add(Finding{Rule: "close-not-reported", Key: rr.Name, Where: x.Failed[strings.LastIndexByte(x.Failed, ' ')+1:],
							Msg: rr.Name + " may report success although closing its output failed"})
					}
				}
			}
		}
		if opened {
			opening++
			r.sample(rr.Name + " opens a file and closes it on every exit")
		}
		if closeFails {
			closes++
		}
		for _, e := range rr.Evs {
			if e.Kind == "closeinput" {
				r.add(Finding{Rule: "closes-callers", Key: rr.Name + ": " + e.Fn, Where: e.Pos, Chain: e.Path, Msg: rr.Name + " closes a reader or writer it did not open: " + e.Msg})
			}
		}
	}
	obligations(r, rs, "file", nil)
	r.count("entry_points_that_open_files", opening)
	r.need("entry points that open files", opening, 3)
	r.need("entry points whose output may fail to close", closes, 1)
}

func ruleC16(P *Prog, r *Report, tier string) {
	r.explain = engineText + "At each exit every clause of the font invariant is decided for the returned font, and for the receiver where it was written to; the methods assume the invariant of their receiver (induction over operations)."
	rs := getRoots(P, r, append([]string{"Parse", "ParseFile"}, methodRoots(P)...))
	fonts := 0
	names := map[string]int{}
	for _, rr := range rs {
		for _, x := range rr.Exits {
			if len(x.Inv) > 0 {
				fonts++
			}
			for _, c := range x.Inv {
				names[c.Name]++
				if !c.OK {
					who := "the font it returns"
					if c.Recv {
						who = "its receiver"
					}
					r.add(Finding{Rule: "invariant", Key: rr.Name + ": " + c.Name, Where: "-", Msg: fmt.Sprintf("%s: %s need not satisfy %q: %s", rr.Name, who, c.Name, c.Msg)})
				}
			}
		}
	}
	for _, n := range sortedKeys(names) {
		r.count("clause: "+n, names[n])
	}
	r.count("fonts_decided", fonts)
	r.need("fonts at exits", fonts, 9)
	r.need("clauses", len(names), 20)
}

func ruleC20(P *Prog, r *Report, tier string) {
	r.explain = engineText + "In every operation on a font, any read of or seek in a reader that belongs to the font (its source above all) and any opening of an existing file is a violation."
	rs := getRoots(P, r, methodRoots(P))
	r.need("methods of a font", len(rs), 14)
	for _, rr := range rs {
		for _, e := range rr.Evs {
			if e.Kind == "source" && e.Msg != "writer" {
				r.add(Finding{Rule: "source-used", Key: rr.Name + ": " + e.Fn, Where: e.Pos, Chain: e.Path, Msg: rr.Name + " uses the source of the font (" + e.Msg + ")"})
			}
		}
		var ext []string
		for f := range rr.Ext {
			ext = append(ext, f)
		}
		sort.Strings(ext)
		for _, f := range ext {
			switch f {
			case "os.Open", "os.OpenFile", "os.ReadFile", "os.Stat", "io/ioutil.ReadFile":
				if f == "os.OpenFile" && rr.Name == "Font.WriteFile" {
					continue
				}
				r.add(Finding{Rule: "source-reopened", Key: rr.Name + ": " + f, Where: "-", Msg: rr.Name + " calls " + f})
			}
		}
		r.count("calls_out_of_the_library", len(ext))
	}
}

func ruleC24(P *Prog, r *Report, tier string) {
	r.explain = engineText + "Each conversion to a narrower integer type is an obligation: the value fits. Not in scope: float results, sums and differences taken modulo 2^16 or 2^32 by design (checksums, idDelta), a change of " +
		"signedness at the same width, and the bytes of a character code in encoding.go."
	rs := getRoots(P, r, append(functionRoots(P), methodRoots(P)...))
	obligations(r, rs, "narrow", func(o Ob) bool { return o.Fn == "(runeDecoder).ToBytes" })
	r.need("narrowing conversions", intOf(r, "sites_narrow"), 30)
	seen := map[string]bool{}
	for _, rr := range rs {
		for _, e := range rr.Evs {
			if e.Kind != "wrap" || seen[e.Pos+e.Msg] {
				continue
			}
			seen[e.Pos+e.Msg] = true
			r.count("arithmetic_that_can_wrap", 1)
			if strings.HasPrefix(e.Msg, "widened ") {
				r.add(Finding{Rule: "wrap", Key: e.Fn + ": " + e.Msg, Where: e.Pos,
					Msg: "the result of " + strings.TrimPrefix(e.Msg, "widened ") + " can exceed the type before it is widened or used as an index", Chain: e.Path})
			}
		}
	}
}

func intOf(r *Report, k string) int {
	n, _ := r.cov[k].(int)
	return n
}
