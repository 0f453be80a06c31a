package main

import (
	"fmt"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func (c *CLI) isLib(fn *ssa.Function) bool {
	p := fnPkg(fn)
	return p != nil && c.P.pkgInModule(p.Pkg) && !strings.HasPrefix(p.Pkg.Path(), modPath+"/truecli")
}

// call lists the outcomes of a call.
func (c *CLI) call(f *cFrame, st *cState, site ssa.CallInstruction, fv cv, args []cv, ctx string) []cExit {
	com := site.Common()
	one := func(vs ...cv) []cExit { return []cExit{{st: st.clone(), res: vs}} }
	if bi, ok := com.Value.(*ssa.Builtin); ok {
		switch bi.Name() {
		case "recover":
			s := st.clone()
			if b, ok := s.mem["#panic"].(cBool); ok && bool(b) {
				s.mem["#panic"] = cBool(false)
				return []cExit{{st: s, res: []cv{cNon{}}}}
			}
			return one(cNil{})
		case "append":
			if b, ok := args[len(args)-1].(cBytes); ok && len(args) == 2 {
				if nilness(args[0]) == 1 || isEmptyBytes(args[0]) {
					// a copy of the contents: treated as a buffer of its own
					id := fmt.Sprintf("%s/%s.copy%v", f.ctx, f.fn.Name(), site.Pos())
					s := st.clone()
					s.bufs[id] = s.bufs[b.buf]
					return []cExit{{st: s, res: []cv{cBytes{id}}}}
				}
			}
			return one(cNon{})
		case "len", "cap":
			return one(cInt{0, 1 << 40})
		}
		return one(c.tops(com.Signature())...)
	}
	var fn *ssa.Function
	if com.IsInvoke() {
		name := com.Method.Name()
		if o, ok := c.val(f, com.Value).(cObj); ok {
			return c.method(f, st, site, o, com.Method.FullName(), name, args, com.Signature())
		}
		return c.external(f, st, site, "invoke "+name, com.Signature(), args)
	}
	switch x := fv.(type) {
	case cFn:
		fn = x.fn
		if c.P.inCLI(fn) || fn.Parent() != nil && c.P.inCLI(fn.Parent()) {
			return c.run(fn, args, x.binds, st.clone(), fmt.Sprintf("%s>%s@%d", ctx, fn.Name(), site.Pos()))
		}
		if fn.Synthetic != "" && fn.Object() == nil && len(fn.Blocks) > 0 { // bound methods of the tool's own types
			return c.run(fn, args, x.binds, st.clone(), ctx+">"+fn.Name())
		}
	default:
		return c.external(f, st, site, "unknown", com.Signature(), args)
	}
	name := fn.String()
	if o, ok := fn.Object().(*types.Func); ok {
		name = o.FullName()
	}
	c.calls[name]++
	if len(args) > 0 && fn.Signature.Recv() != nil {
		if o, ok := args[0].(cObj); ok && (o.kind == "buffer" || o.kind == "file" || o.kind == "reader") {
			return c.method(f, st, site, o, name, fn.Name(), args[1:], fn.Signature)
		}
	}
	if c.isLib(fn) {
		return c.library(f, st, site, fn, args)
	}
	return c.external(f, st, site, name, fn.Signature, args)
}

func isEmptyBytes(v cv) bool {
	switch v.(type) {
	case cNon, cTop, cPtr:
		return true // a fresh slice; what else it holds is not the tool's business
	}
	return false
}

// step: the outcomes of an operation that can fail. ok fills in the results of success.
func (c *CLI) step(st *cState, site ssa.CallInstruction, what string, sg *types.Signature, ok func(s *cState) []cv) []cExit {
	c.stepN[c.P.instrPos(site)+" "+what] = true
	good, bad := st.clone(), st.clone()
	if bad.failed == "" {
		bad.failed = what + " at " + c.P.instrPos(site)
	}
	var br []cv
	for i := 0; i < sg.Results().Len(); i++ {
		t := sg.Results().At(i).Type()
		switch {
		case isErrType(t):
			br = append(br, cNon{})
		default:
			br = append(br, c.failVal(t))
		}
	}
	return []cExit{{st: good, res: ok(good)}, {st: bad, res: br}}
}

func (c *CLI) failVal(t types.Type) cv {
	switch t.Underlying().(type) {
	case *types.Pointer, *types.Map:
		return cNil{}
	}
	if r, ok := typeRange(t); ok {
		return r
	}
	return cTop{}
}

// okVals: results of a success.
func (c *CLI) okVals(sg *types.Signature) []cv {
	var r []cv
	for i := 0; i < sg.Results().Len(); i++ {
		t := sg.Results().At(i).Type()
		switch {
		case isErrType(t):
			r = append(r, cNil{})
		default:
			if q, ok := typeRange(t); ok {
				r = append(r, q)
			} else if _, ok := t.Underlying().(*types.Pointer); ok {
				r = append(r, cNon{})
			} else {
				r = append(r, cTop{})
			}
		}
	}
	return r
}

func hasErr(sg *types.Signature) bool {
	for i := 0; i < sg.Results().Len(); i++ {
		if isErrType(sg.Results().At(i).Type()) {
			return true
		}
	}
	return false
}

// library: a call of the library.
func (c *CLI) library(f *cFrame, st *cState, site ssa.CallInstruction, fn *ssa.Function, args []cv) []cExit {
	sg := fn.Signature
	name := fn.Name()
	font := ""
	if sg.Recv() != nil && len(args) > 0 {
		if o, ok := args[0].(cObj); ok && o.kind == "font" {
			font = o.id
		} else if isFontPtr(sg.Recv().Type()) {
			font = "?"
		}
	}
	fresh := fmt.Sprintf("%s/%s.%s", f.ctx, f.fn.Name(), valName(site))
	results := func(s *cState) []cv {
		r := c.okVals(sg)
		for i := range r {
			if isFontPtr(sg.Results().At(i).Type()) {
				s.fonts[fresh] = ""
				for b, v := range s.bufs { // contents made from an earlier font of this call
					if strings.TrimSuffix(v, "!") == fresh {
						s.bufs[b] = "?"
					}
				}
				r[i] = cObj{"font", fresh}
			}
		}
		return r
	}
	rest := args
	if sg.Recv() != nil && len(args) > 0 {
		rest = args[1:]
	}
	if font == "" || font == "?" {
		if !hasErr(sg) {
			return []cExit{{st: st.clone(), res: results(st)}}
		}
		if name == "WriteFile" {
			c.emit("unvalidated", name, site, "a font of unknown origin is written to a file")
		}
		return c.step(st, site, name, sg, func(s *cState) []cv {
			if strings.HasPrefix(name, "Validate") && len(rest) > 0 {
				if b := c.bufOf(s, rest[0]); b != "" {
					if v := s.bufs[b]; v != "" && v != "?" && !strings.HasSuffix(v, "!") {
						s.bufs[b] = v + "!"
						if _, ok := s.fonts[v]; ok {
							s.fonts[v] = "valid"
						}
					}
				}
			}
			return results(s)
		})
	}
	switch {
	case name == "Write":
		o, ok := cv(nil), false
		if len(rest) > 0 {
			o, ok = rest[0], true
		}
		if w, isO := o.(cObj); ok && isO && w.kind == "buffer" {
			return c.step(st, site, name, sg, func(s *cState) []cv {
				if s.bufs[w.id] == "" {
					s.bufs[w.id] = font
				} else {
					s.bufs[w.id] = "?"
				}
				return results(s)
			})
		}
		if w, isO := o.(cObj); ok && isO && w.kind == "file" || !isO {
			if st.fonts[font] != "valid" {
				c.emit("unvalidated", name, site, "a font is written to an output whose serialised form has not been validated")
			}
		}
		return c.step(st, site, name, sg, results)
	case name == "WriteFile":
		if st.fonts[font] != "valid" {
			c.emit("unvalidated", name, site, "a font is written to a file without its serialised form having been validated")
		}
		c.stepN["WRITE "+c.P.instrPos(site)] = true
		return c.step(st, site, name, sg, results)
	}
	pure := false
	for _, p := range []string{"Get", "Lookup", "String", "TableInfo", "Subset"} {
		pure = pure || strings.HasPrefix(name, p)
	}
	change := func(s *cState) {
		if !pure {
			s.fonts[font] = ""
			for b, v := range s.bufs {
				if strings.TrimSuffix(v, "!") == font {
					s.bufs[b] = "?"
				}
			}
		}
	}
	if !hasErr(sg) {
		s := st.clone()
		change(s)
		return []cExit{{st: s, res: results(s)}}
	}
	es := c.step(st, site, name, sg, func(s *cState) []cv { return results(s) })
	for _, e := range es {
		change(e.st)
	}
	return es
}

func valName(site ssa.CallInstruction) string {
	if v := site.Value(); v != nil {
		return v.Name()
	}
	return fmt.Sprint(site.Pos())
}

// bufOf: the buffer a value of bytes or a reader stands for.
func (c *CLI) bufOf(s *cState, v cv) string {
	switch x := v.(type) {
	case cBytes:
		return x.buf
	case cObj:
		if x.kind == "reader" || x.kind == "buffer" {
			return x.id
		}
	}
	return ""
}

// method: an operation of a buffer, reader or file.
func (c *CLI) method(f *cFrame, st *cState, site ssa.CallInstruction, o cObj, full, name string, args []cv, sg *types.Signature) []cExit {
	s := st.clone()
	done := func(vs ...cv) []cExit { return []cExit{{st: s, res: vs}} }
	nilErr := func() []cExit {
		r := c.okVals(sg)
		return done(r...)
	}
	switch o.kind {
	case "buffer":
		switch name {
		case "Bytes":
			return done(cBytes{o.id})
		case "Len", "Cap", "Available":
			return done(cInt{0, 1 << 40})
		case "Reset":
			s.bufs[o.id] = ""
			return done()
		case "Truncate":
			if k, ok := args[0].(cInt); ok && k.lo == 0 && k.hi == 0 {
				s.bufs[o.id] = ""
			} else {
				s.bufs[o.id] = "?"
			}
			return done()
		case "String", "Grow":
			return done(c.tops(sg)...)
		case "WriteTo":
			c.output(s, site, args[0], s.bufs[o.id])
			return c.step(s, site, name, sg, func(s *cState) []cv { s.bufs[o.id] = ""; return c.okVals(sg) })
		case "Write":
			if b := c.bufOf(s, args[0]); b != "" && s.bufs[o.id] == "" {
				s.bufs[o.id] = s.bufs[b]
			} else {
				s.bufs[o.id] = "?"
			}
			return nilErr()
		}
		s.bufs[o.id] = "?"
		return nilErr()
	case "file":
		switch name {
		case "Write", "WriteString", "WriteAt", "ReadFrom":
			v := "?"
			if b := c.bufOf(s, args[0]); b != "" {
				v = s.bufs[b]
			}
			c.output(s, site, o, v)
			return c.step(s, site, name, sg, func(*cState) []cv { return c.okVals(sg) })
		case "Flush", "Sync", "Close":
			if name == "Close" && s.mem["#out:"+o.id] == nil {
				return nilErr()
			}
			if _, isDefer := site.(*ssa.Defer); isDefer {
				return nilErr()
			}
			return c.step(s, site, name, sg, func(*cState) []cv { return c.okVals(sg) })
		}
	}
	return done(c.okVals(sg)...)
}

// output: contents reach a file.
func (c *CLI) output(s *cState, site ssa.CallInstruction, to cv, content string) {
	if o, ok := to.(cObj); ok && o.kind == "buffer" {
		if s.bufs[o.id] == "" {
			s.bufs[o.id] = content
		} else {
			s.bufs[o.id] = "?"
		}
		return
	}
	if o, ok := to.(cObj); ok && o.kind == "file" {
		if content != "?" && content != "" && !strings.HasSuffix(content, "!") || content == "?" {
			c.emit("unvalidated", "output", site, "serialised bytes reach a file without having been validated")
		}
	}
}

// cliSteps: operations outside the library whose failure is a failure of the command.
func cliStep(name string) bool {
	for _, p := range []string{"strconv.Parse", "strconv.Atoi", "os.Open", "os.Create", "os.WriteFile", "os.ReadFile", "os.Rename", "io.Copy", "io.ReadAll", "io.ReadFull",
		"io/ioutil.WriteFile", "io/ioutil.ReadFile", "io/ioutil.ReadAll", "(*os.File).Write", "(*os.File).Sync",
		"(*github.com/spf13/cobra.Command).Execute"} {
		if strings.HasPrefix(name, p) {
			return true
		}
	}
	return false
}

func (c *CLI) external(f *cFrame, st *cState, site ssa.CallInstruction, name string, sg *types.Signature, args []cv) []cExit {
	s := st.clone()
	done := func(vs ...cv) []cExit { return []cExit{{st: s, res: vs}} }
	switch name {
	case "os.Exit":
		code, ok := args[0].(cInt)
		if st.failed != "" && (!ok || code.lo <= 0 && code.hi >= 0) {
			c.emit("exit-status", c.root+": os.Exit", site, fmt.Sprintf("%s: the process may exit with status 0 after a failed step (%s)", c.root, st.failed))
		}
		return nil
	case "log.Fatal", "log.Fatalf", "log.Fatalln", "(*log.Logger).Fatal", "(*log.Logger).Fatalf", "(*log.Logger).Fatalln":
		return nil
	case "log.Panic", "log.Panicf", "log.Panicln":
		return []cExit{{st: s, panic: true}}
	case "fmt.Errorf", "errors.New":
		return done(cNon{})
	case "bytes.NewBuffer", "bytes.NewBufferString", "bytes.NewReader":
		id := fmt.Sprintf("%s/%s.%s", f.ctx, f.fn.Name(), valName(site))
		v := "?"
		if b := c.bufOf(s, args[0]); b != "" {
			v = s.bufs[b]
			if name == "bytes.NewReader" {
				return done(cObj{"reader", b})
			}
		} else if nilness(args[0]) == 1 {
			v = ""
		} else if isEmptyBytes(args[0]) {
			v = ""
		}
		s.bufs[id] = v
		return done(cObj{"buffer", id})
	case "bufio.NewWriter", "bufio.NewWriterSize":
		if o, ok := args[0].(cObj); ok {
			return done(o)
		}
	case "os.Create", "os.OpenFile", "os.CreateTemp", "io/ioutil.TempFile":
		id := fmt.Sprintf("%s/%s.%s", f.ctx, f.fn.Name(), valName(site))
		return c.step(st, site, name, sg, func(s *cState) []cv {
			s.mem["#out:"+id] = cBool(true)
			return []cv{cObj{"file", id}, cNil{}}
		})
	case "os.WriteFile", "io/ioutil.WriteFile":
		v := "?"
		if b := c.bufOf(s, args[1]); b != "" {
			v = s.bufs[b]
		}
		c.output(s, site, cObj{"file", "-"}, v)
	case "io.Copy":
		if b := c.bufOf(s, args[1]); b != "" {
			c.output(s, site, args[0], s.bufs[b])
		}
	case "strconv.ParseUint", "strconv.ParseInt":
		if n, ok := args[2].(cInt); ok && n.lo == n.hi {
			bits := n.lo
			if bits == 0 {
				bits = 64
			}
			r := cInt{0, 1<<min(bits, 62) - 1}
			if name == "strconv.ParseInt" {
				r = cInt{-1 << min(bits-1, 62), 1<<min(bits-1, 62) - 1}
			}
			return c.step(st, site, name, sg, func(*cState) []cv { return []cv{r, cNil{}} })
		}
	case "errors.Join":
		if st.failed != "" {
			return done(cNon{})
		}
		return done(cNil{})
	}
	if strings.Contains(name, "sirupsen/logrus.Fatal") || strings.Contains(name, "logrus.Entry).Fatal") || strings.Contains(name, "logrus.Logger).Fatal") {
		return nil
	}
	if strings.HasSuffix(name, "pkg/errors.Wrap") || strings.HasSuffix(name, "pkg/errors.Wrapf") || strings.HasSuffix(name, "pkg/errors.WithMessage") {
		return done(args[0])
	}
	if cliStep(name) && hasErr(sg) {
		out := c.step(st, site, name, sg, func(*cState) []cv { return c.okVals(sg) })
		if strings.HasPrefix(name, "(*github.com/spf13/cobra.Command).Execute") {
			// a command that panics
			p := st.clone()
			if p.failed == "" {
				p.failed = "a panic of a command run at " + c.P.instrPos(site)
			}
			out = append(out, cExit{st: p, panic: true})
		}
		return out
	}
	// function values handed to unknown code may run
	for _, a := range args {
		if fn, ok := a.(cFn); ok && (c.P.inCLI(fn.fn) || fn.fn.Parent() != nil) {
			var out []cExit
			out = append(out, cExit{st: s.clone(), res: c.tops(sg)})
			var as []cv
			for range fn.fn.Params {
				as = append(as, cTop{})
			}
			for _, e := range c.run(fn.fn, as, fn.binds, s.clone(), f.ctx+">"+fn.fn.Name()) {
				if e.panic {
					out = append(out, e)
					continue
				}
				out = append(out, cExit{st: e.st, res: c.tops(sg)})
			}
			return out
		}
	}
	for _, a := range args {
		if o, ok := a.(cObj); ok && o.kind == "buffer" {
			if !strings.HasPrefix(name, "fmt.Print") {
				s.bufs[o.id] = "?"
			}
		}
	}
	var r []cv
	for i := 0; i < sg.Results().Len(); i++ {
		t := sg.Results().At(i).Type()
		if q, ok := typeRange(t); ok {
			r = append(r, q)
			continue
		}
		r = append(r, cTop{})
	}
	return done(r...)
}

// cliRoots lists the functions the command framework calls, and main.
func cliRoots(P *Prog) []*ssa.Function {
	var r []*ssa.Function
	for _, f := range P.fns {
		if !P.inCLI(f) || f.Synthetic != "" {
			continue
		}
		sg := f.Signature
		if sg.Params().Len() == 2 && strings.HasSuffix(sg.Params().At(0).Type().String(), "cobra.Command") && sg.Params().At(1).Type().String() == "[]string" && sg.Recv() == nil {
			r = append(r, f)
		}
		if f.Name() == "main" && f.Pkg != nil && f.Pkg.Pkg.Name() == "main" {
			r = append(r, f)
		}
	}
	return r
}

func init() {
	checks["C18"] = func(P *Prog, r *Report, tier string) { ruleCLI(P, r, "C18") }
	checks["C19"] = func(P *Prog, r *Report, tier string) { ruleCLI(P, r, "C19") }
}

func ruleCLI(P *Prog, r *Report, prop string) {
	if prop == "C18" {
		r.explain = "Path-sensitive typestate analysis of every function the command framework calls, and of main, with the tool's own functions analysed in their callers: every call of the library, number parser or file operation that returns an error has a " +
			"failing outcome, and on every path after one the process must panic or exit with a status that is not 0 (or return the error to the framework, whose error main must turn into such an exit). Parsed numbers may not be cut to a narrower type."
	} else {
		r.explain = "Path-sensitive typestate analysis of every function the command framework calls: a font may be written to a file only in the state validated, which it enters when ValidateBytes (or the like) succeeds on a buffer that holds " +
			"exactly its serialised form, and leaves when it is changed; raw bytes may be written to a file only if they are validated contents."
	}
	c := &CLI{P: P, r: r, fns: map[*ssa.Function]bool{}, calls: map[string]int{}, stepN: map[string]bool{}}
	want := map[string]bool{"exit-status": prop == "C18", "argument-range": prop == "C18", "goroutine": prop == "C18", "unvalidated": prop == "C19"}
	seen := map[string]bool{}
	c.emit = func(rule, key string, at ssa.Instruction, msg string) {
		pos := P.instrPos(at)
		if !want[rule] || seen[rule+pos+msg] {
			return
		}
		seen[rule+pos+msg] = true
		r.add(Finding{Rule: rule, Key: c.root + ": " + key, Where: pos, Msg: msg, Chain: c.root})
	}
	roots := cliRoots(P)
	cmds := 0
	for _, f := range roots {
		c.root = P.fnName(f)
		c.steps = 0
		var args []cv
		for range f.Params {
			args = append(args, cNon{})
		}
		before := len(c.stepN)
		for _, e := range c.run(f, args, nil, &cState{mem: map[string]cv{}, fonts: map[string]string{}, bufs: map[string]string{}}, c.root) {
			if e.panic {
				continue
			}
			r.count("returns", 1)
			if e.st.failed == "" {
				continue
			}
			ok := false
			for i, v := range e.res {
				if isErrType(f.Signature.Results().At(i).Type()) && nilness(v) < 0 {
					ok = true
				}
			}
			if !ok {
				if want["exit-status"] {
					r.add(Finding{Rule: "exit-status", Key: c.root + ": return after " + e.st.failed, Where: P.pos(f.Pos()), Msg: fmt.Sprintf("%s returns normally after a failed step (%s): the process exits with status 0", c.root, e.st.failed)})
				}
			}
		}
		if len(c.stepN) > before && f.Name() != "main" {
			cmds++
		}
	}
	if c.over {
		r.add(Finding{Rule: "analysis", Key: "budget", Where: "-", Msg: "the analysis of the command line tool exceeded its budget"})
	}
	writes := 0
	for s := range c.stepN {
		if strings.HasPrefix(s, "WRITE ") {
			writes++
		} else {
			r.sample("can fail: " + s)
		}
	}
	r.count("functions_analysed", len(c.fns))
	r.count("failing_steps", len(c.stepN)-writes)
	r.count("font_writes", writes)
	r.need("functions called by the framework", len(roots), 2)
	r.need("commands that can fail", cmds, 5)
	if prop == "C19" {
		r.need("writes of fonts to files", writes, 1)
	}
}
