package main

import (
	"fmt"
	"os"
	"sort"
	"strings"
	"time"
)

// dump analyses the entry points matching a pattern and prints what was not proved (development aid).
func dump(P *Prog, pat string) {
	t0 := time.Now()
	in := newInterp(P)
	base := in.initGlobals(P.lib)
	fmt.Printf("init: %v steps=%d heap=%d\n", time.Since(t0), in.steps, len(base.heap))
	printBad(P, in.journal)
	in.journal = nil
	fns, ms := P.exportedAPI()
	for _, f := range append(fns, ms...) {
		if ok := strings.Contains(","+pat+",", ","+f.Name()+","); !ok {
			continue
		}
		t0 := time.Now()
		in.journal, in.events = nil, nil
		r := in.runRoot(base, f, f.Name(), func(st *State, args []Val) {
			if f.Signature.Recv() != nil {
				args[0] = in.buildFont(st, f.Params[0].Type(), fontInput)
			}
		})
		fmt.Printf("== %s: %v steps=%d exits=%d obligations=%d passes=%d unrolls=%d prove=%d fm=%d fail=%d\n", f.Name(), time.Since(t0).Round(time.Millisecond), in.steps, len(r.exits), len(in.journal), in.passes, in.unrolls, statProve, statFM, statFMfail)
		for _, e := range r.exits {
			fmt.Printf("   exit failed=%q ghost=%v res=%s\n", e.st.failed, e.st.ghost, showVal(e.res))
			for i, v := range resultVals(e.res) {
				if e.st.failed == "" && e.res != nil && isFontPtr(resultAt(f, i)) && e.st.isNil(v.(*PtrV).nl) <= 0 {
					for _, c := range in.checkFont(e.st, v, f.Signature.Recv() != nil) {
						if !c.ok {
							fmt.Println("      INV", c.name, c.msg)
						}
					}
				}
			}
		}
		printBad(P, in.journal)
		if os.Getenv("EVENTS") != "" {
			m := map[string]int{}
			for _, e := range in.events {
				w := ""
				if e.in != nil {
					w = P.instrPos(e.in)
				}
				m[e.kind+" "+w+" "+e.msg]++
			}
			for _, k := range sortedKeys(m) {
				fmt.Println("   event", k, m[k])
			}
		}
	}
}

func printBad(P *Prog, js []Oblig) {
	type ent struct {
		n   int
		msg string
		o   Oblig
	}
	m := map[string]*ent{}
	for _, o := range js {
		if o.ok {
			continue
		}
		k := o.kind + " " + P.instrPos(o.in) + " " + o.in.String()
		if m[k] == nil {
			m[k] = &ent{0, o.msg, o}
		}
		m[k].n++
	}
	var ks []string
	for k := range m {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	for _, k := range ks {
		fmt.Printf("   BAD %s x%d: %s [%s]\n", k, m[k].n, m[k].msg, m[k].o.path)
	}
}

// dumpState prints what is known about the symbols of the given forms (development aid).
func (in *Interp) dumpState(st *State, ls ...*Lin) {
	fmt.Println("-- state at", in.chain())
	syms := map[Sym]bool{}
	for _, l := range ls {
		for _, t := range l.t {
			syms[t.s] = true
		}
	}
	for i := 0; i < 2; i++ {
		for _, f := range st.cons.facts {
			hit := false
			for _, t := range f.t {
				hit = hit || syms[t.s]
			}
			if hit {
				for _, t := range f.t {
					syms[t.s] = true
				}
			}
		}
	}
	for _, s := range sortedSyms(syms) {
		lo, hi := st.cons.bounds(s)
		fmt.Printf("   %s in [%d,%d]\n", symL(s), lo, hi)
	}
	for _, f := range st.cons.facts {
		for _, t := range f.t {
			if syms[t.s] {
				fmt.Println("   fact", f)
				break
			}
		}
	}
	for _, c := range st.conds {
		fmt.Print("   cond ", c.gs, ":")
		for _, f := range c.facts {
			fmt.Print(" ", f, ";")
		}
		fmt.Println(len(c.hks))
	}
}

var atPos = os.Getenv("UNICHECK_AT")

// dumpAll prints every fact of a state (development aid).
func (in *Interp) dumpAll(st *State) {
	fmt.Println("-- state at", in.chain())
	for _, k := range sortedKeys(regNames(st)) {
		fmt.Println("   reg", k, "=", showVal(regNames(st)[k]))
	}
	var us []Sym
	for s := range st.cons.unit {
		us = append(us, s)
	}
	sort.Slice(us, func(i, j int) bool { return us[i] < us[j] })
	for _, s := range us {
		lo, hi := st.cons.bounds(s)
		fmt.Printf("   %s in [%d,%d]\n", symL(s), lo, hi)
	}
	for _, f := range st.cons.facts {
		fmt.Println("   fact", f)
	}
	for _, c := range st.conds {
		fmt.Print("   cond ", c.gs, ":")
		for _, f := range c.facts {
			fmt.Print(" ", f, ";")
		}
		fmt.Println(len(c.hks))
	}
}

func regNames(st *State) map[string]Val {
	m := map[string]Val{}
	for k, v := range st.regs {
		m[k.Name()] = v
	}
	return m
}
