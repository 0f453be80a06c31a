package main

import (
	"encoding/json"
	"fmt"
	"go/types"
	"os"
	"os/exec"
	"path/filepath"
	"runtime"
	"sort"
	"strings"
	"sync"
	"time"

	"golang.org/x/tools/go/ssa"
)

// The abstract interpretation of one entry point ("root") is independent of the others; each root runs in a process
// of its own and hands its result over as JSON. A rule is a question about these results.

// Ob is one obligation, merged over the paths that reach it.
type Ob struct {
	Kind, Pos, Fn, Instr string
	OK, Bad              int
	Msg, Path            string
}

// Ev is something a rule may want to know about, with its place.
type Ev struct {
	Kind, Pos, Fn, Msg, Path string
	N                        int
}

// Clause is a clause of the font invariant decided at an exit.
type Clause struct {
	Name string
	OK   bool
	Msg  string
	Recv bool // about the receiver, not a result
}

// ExitR describes one way a root may return.
type ExitR struct {
	Failed string // the operation that failed on the way, if any
	Ghost  map[string]string
	Res    []string // per result: nil, non-nil, maybe, other
	Errs   []int    // indices of the results of type error
	Inv    []Clause
	Fresh  []string // for *Font results: "receiver" or "new"
	Alias  []string // parts of inputs reachable from the results, by field path
}

// RootResult is what the analysis of one root found.
type RootResult struct {
	Name   string
	Recv   bool
	Exits  []ExitR
	Obs    []Ob
	Evs    []Ev
	Fns    []string
	Ext    map[string]int
	Steps  int
	Passes int
	Secs   float64
	Err    string
	Facts  map[string][]string // rule-specific records
}

// rootFuncs lists the entry points by name.
func (P *Prog) rootFuncs() map[string]*ssa.Function {
	r := map[string]*ssa.Function{}
	fns, ms := P.exportedAPI()
	for _, f := range fns {
		r[f.Name()] = f
	}
	for _, f := range ms {
		r["Font."+f.Name()] = f
	}
	return r
}

func sortedRoots(m map[string]*ssa.Function) []string {
	var r []string
	for k := range m {
		r = append(r, k)
	}
	sort.Strings(r)
	return r
}

func methodRoots(P *Prog) []string {
	var r []string
	for _, n := range sortedRoots(P.rootFuncs()) {
		if strings.HasPrefix(n, "Font.") {
			r = append(r, n)
		}
	}
	return r
}

func functionRoots(P *Prog) []string {
	var r []string
	for _, n := range sortedRoots(P.rootFuncs()) {
		if !strings.HasPrefix(n, "Font.") {
			r = append(r, n)
		}
	}
	return r
}

// analyseRoot runs in the child process.
func analyseRoot(P *Prog, name string) (rr *RootResult) {
	t0 := time.Now()
	rr = &RootResult{Name: name, Facts: map[string][]string{}}
	defer func() {
		if e := recover(); e != nil {
			rr.Err = fmt.Sprint(e)
			if os.Getenv("UNICHECK_DEBUG") != "" {
				panic(e)
			}
		}
		rr.Secs = time.Since(t0).Seconds()
	}()
	cfg := map[string]int64{}
	base0 := name
	if i := strings.IndexByte(name, '@'); i >= 0 {
		cfg, base0 = layoutConfigs[name[i+1:]], name[:i]
	}
	f := P.rootFuncs()[base0]
	if f == nil {
		rr.Err = "no such entry point"
		return rr
	}
	in := newInterp(P)
	installHooks(in, cfg)
	base := in.initGlobals(P.lib)
	if base == nil {
		rr.Err = "package initialisation does not return"
		return rr
	}
	in.events = nil
	initJ := in.journal
	in.journal = nil
	rr.Recv = f.Signature.Recv() != nil
	var recv Val
	r := in.runRoot(base, f, name, func(st *State, args []Val) {
		if rr.Recv {
			args[0] = in.buildFont(st, f.Params[0].Type(), fontInput)
			recv = args[0]
		}
	})
	collect(P, in, rr, append(initJ, in.journal...))
	rr.Steps, rr.Passes = in.steps, in.passes
	if in.over {
		rr.Err = "the analysis exceeded its budget"
	}
	// a receiver that nothing is written to still satisfies the invariant
	touched := false
	for _, e := range in.effects {
		touched = touched || e.input == fontInput
	}
	for _, e := range r.exits {
		x := ExitR{Failed: e.st.failed, Ghost: map[string]string{}}
		for k, v := range e.st.ghost {
			x.Ghost[k] = v
		}
		vals := resultVals(e.res)
		sig := f.Signature.Results()
		for i := 0; i < sig.Len(); i++ {
			t := sig.At(i).Type()
			s := "other"
			var nl *Lin
			if i < len(vals) {
				switch v := vals[i].(type) {
				case *PtrV:
					nl = v.nl
				case *IfaceV:
					nl = v.nl
				}
			}
			if nl != nil {
				s = map[int]string{1: "nil", 0: "maybe", -1: "non-nil"}[e.st.isNil(nl)]
			}
			x.Res = append(x.Res, s)
			if t.String() == "error" {
				x.Errs = append(x.Errs, i)
			}
			if isFontPtr(t) && s != "nil" && i < len(vals) {
				if p, ok := vals[i].(*PtrV); ok {
					for _, c := range in.checkFont(e.st.clone(), p, rr.Recv) {
						x.Inv = append(x.Inv, Clause{c.name, c.ok, c.msg, false})
					}
					w := "new"
					if rp, ok := recv.(*PtrV); ok {
						for _, a := range p.alts {
							if a.obj == rp.alts[0].obj {
								w = "receiver"
							}
						}
					}
					x.Fresh = append(x.Fresh, w)
					if w == "new" {
						x.Alias = append(x.Alias, in.aliases(e.st, p)...)
					}
				}
			}
		}
		if rr.Recv && touched {
			for _, c := range in.checkFont(e.st.clone(), recv, true) {
				x.Inv = append(x.Inv, Clause{c.name, c.ok, c.msg, true})
			}
		}
		rr.Exits = append(rr.Exits, x)
	}
	return rr
}

func collect(P *Prog, in *Interp, rr *RootResult, js []Oblig) {
	m := map[string]*Ob{}
	var ks []string
	for _, o := range js {
		pos, ins, fn := "-", "", ""
		if o.in != nil {
			pos, ins = P.instrPos(o.in), o.in.String()
			fn = P.fnName(o.in.Parent())
		}
		k := o.kind + "|" + pos + "|" + fn + "|" + ins
		b := m[k]
		if b == nil {
			b = &Ob{Kind: o.kind, Pos: pos, Fn: fn, Instr: ins}
			m[k] = b
			ks = append(ks, k)
		}
		if o.ok {
			b.OK++
		} else {
			b.Bad++
			b.Msg, b.Path = o.msg, o.path
		}
	}
	sort.Strings(ks)
	for _, k := range ks {
		rr.Obs = append(rr.Obs, *m[k])
	}
	em := map[string]*Ev{}
	var es []string
	for _, e := range in.events {
		pos, fn := "-", ""
		if e.in != nil {
			pos = P.instrPos(e.in)
			fn = P.fnName(e.in.Parent())
		}
		k := e.kind + "|" + pos + "|" + fn + "|" + e.msg
		if em[k] == nil {
			em[k] = &Ev{Kind: e.kind, Pos: pos, Fn: fn, Msg: e.msg, Path: e.path}
			es = append(es, k)
		}
		em[k].N++
	}
	sort.Strings(es)
	for _, k := range es {
		rr.Evs = append(rr.Evs, *em[k])
	}
	for f := range in.fnsSeen {
		rr.Fns = append(rr.Fns, P.fnName(f))
	}
	sort.Strings(rr.Fns)
	rr.Ext = in.ext
}

func (P *Prog) fnName(f *ssa.Function) string {
	if f == nil {
		return ""
	}
	return strings.TrimPrefix(f.RelString(P.lib.Pkg), "github.com/unidoc/")
}

// runRoots analyses roots in parallel child processes.
func runRoots(repo string, names []string) map[string]*RootResult {
	res := map[string]*RootResult{}
	var mu sync.Mutex
	var wg sync.WaitGroup
	slots := make(chan bool, max(2, min(8, runtime.NumCPU())))
	exe, err := os.Executable()
	if err != nil {
		exe = os.Args[0]
	}
	for _, n := range names {
		wg.Add(1)
		go func(n string) {
			defer wg.Done()
			slots <- true
			defer func() { <-slots }()
			rr := &RootResult{Name: n}
			cmd := exec.Command(exe, "-root", n, "-repo", repo)
			cmd.Env = append(os.Environ(), "GOMEMLIMIT=3500MiB")
			var out []byte
			var err error
			cache := os.Getenv("UNICHECK_ROOTCACHE") // development aid: several checks of one tree
			if cache != "" {
				cache = filepath.Join(cache, n+".json")
				out, _ = os.ReadFile(cache)
			}
			if len(out) == 0 {
				out, err = cmd.Output()
				if cache != "" {
					os.WriteFile(cache, out, 0o644)
				}
			}
			if err != nil {
				rr.Err = "the analysis process failed: " + err.Error()
			} else if err := json.Unmarshal(out, rr); err != nil {
				rr.Err = "no result: " + err.Error()
			}
			mu.Lock()
			res[n] = rr
			mu.Unlock()
		}(n)
	}
	wg.Wait()
	return res
}

// getRoots runs the named roots, reports failures of the analysis, and counts coverage.
func getRoots(P *Prog, r *Report, names []string) []*RootResult {
	all := P.rootFuncs()
	var ok []string
	for _, n := range names {
		if all[strings.SplitN(n, "@", 2)[0]] == nil {
			r.add(Finding{Rule: "anchor", Key: n, Where: "-", Msg: "entry point " + n + " not found"})
			continue
		}
		ok = append(ok, n)
	}
	m := runRoots(P.root, ok)
	var res []*RootResult
	fns := map[string]bool{}
	for _, n := range ok {
		rr := m[n]
		if rr.Err != "" {
			r.add(Finding{Rule: "analysis", Key: n, Where: "-", Msg: n + ": " + rr.Err})
			continue
		}
		res = append(res, rr)
		r.count("entry_points", 1)
		r.count("abstract_exits", len(rr.Exits))
		r.count("block_visits", rr.Steps)
		for _, f := range rr.Fns {
			fns[f] = true
		}
	}
	r.count("functions_analysed", len(fns))
	return res
}

// obligations reports the unproved obligations of some kinds.
func obligations(r *Report, rs []*RootResult, kinds string, skip func(o Ob) bool) {
	done := map[string]bool{}
	for _, rr := range rs {
		for _, o := range rr.Obs {
			if !strings.Contains(","+kinds+",", ","+o.Kind+",") {
				continue
			}
			if skip != nil && skip(o) {
				continue
			}
			k := o.Kind + o.Pos + o.Fn + o.Instr
			if !done[k] {
				done[k] = true
				r.count("sites_"+o.Kind, 1)
				r.sample(fmt.Sprintf("%s %s: %s in %s (%s)", o.Kind, o.Pos, o.Instr, o.Fn, rr.Name))
			}
			r.count("obligations", o.OK+o.Bad)
			if o.Bad > 0 {
				r.add(Finding{Rule: o.Kind, Key: o.Fn + ": " + o.Instr, Where: o.Pos, Msg: o.Msg, Chain: o.Path})
			}
		}
	}
}

func isErrType(t types.Type) bool { return t.String() == "error" }

// aliases lists the tables (and the font struct itself) of a new font that may be objects of an input.
func (in *Interp) aliases(st *State, p *PtrV) []string {
	var r []string
	own := func(name string, v Val) []PT {
		q, ok := v.(*PtrV)
		if !ok {
			r = append(r, name)
			return nil
		}
		for _, a := range q.alts {
			if st.obj(a.obj).input == fontInput {
				r = append(r, name)
				break
			}
		}
		return q.alts
	}
	for _, a := range own("Font", p) {
		v, _ := cellAt(st, a.obj, a.path+".font")
		for _, b := range own("font", v) {
			for _, n := range tableFields {
				t, _ := cellAt(st, b.obj, b.path+"."+n)
				own(n, t)
			}
		}
	}
	sort.Strings(r)
	return r
}
