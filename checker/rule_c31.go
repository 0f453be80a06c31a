package main

import (
	"fmt"
	"strconv"
	"strings"

	"go/types"
	"unicode/utf16"
	"unicode/utf8"

	"golang.org/x/tools/go/ssa"
)

func init() {
	checks["C31"] = ruleC31
	checks["C32"] = ruleC32
}

// fileShapes are a few fonts that differ in what a file could get wrong: length, parity, damage.
func fileShapes() []*fontShape {
	var r []*fontShape
	for i, s := range shapes() {
		if !s.large && len(s.glyphs) < 200 && (i < 4 || i%3 == 0) {
			r = append(r, s)
		}
	}
	return r
}

func ruleC31(P *Prog, r *Report, tier string) {
	r.explain = "ParseFile, WriteFile and ValidateFile are followed with a model of files by name (opening, creating, truncating, appending, renaming, removing), other files with other contents beside, for fonts of known structure and unknown contents. " +
		"A font parsed from a file must write what the font parsed from the same bytes writes; after WriteFile the named file, whether it existed before and was longer or not, must hold exactly what Write writes, and no other file may have been written; only the named file is read; a file that does not exist is an error, and what validation says of a file is what it says of its bytes."
	lib := func(n string) *ssa.Function {
		fn := P.lib.Func(n)
		if fn == nil {
			r.add(Finding{Rule: "analysis", Key: n, Where: "-", Msg: n + " is not found"})
		}
		return fn
	}
	pf, vf, vb, wf := lib("ParseFile"), lib("ValidateFile"), lib("ValidateBytes"), fontMethod(P, "WriteFile")
	if pf == nil || vf == nil || vb == nil || wf == nil {
		return
	}
	isErr := func(e *PE, v pv) bool {
		if t, ok := v.(ptuple); ok {
			v = t[len(t)-1]
		}
		i, ok := v.(piface)
		if !ok {
			e.fail("results")
		}
		return i.t != nil
	}
	parsed, written, validated := 0, 0, 0
	all := fileShapes()
	n := forShapes(P, r, all, func(s *fontShape) [][]fontOp {
		return [][]fontOp{{}, {opFirst(len(s.glyphs) - 1)}}
	}, func(e *PE, o *peOut) func() {
		var fs []Finding
		np, nw, nv := 0, 0, 0
		bad := func(fn *ssa.Function, rule, f string, a ...any) {
			fs = append(fs, Finding{Rule: rule, Key: o.s.name, Where: P.pos(fn.Pos()), Msg: fnName(fn.Name()) + ", " + o.name() + ": " + fmt.Sprintf(f, a...)})
		}
		done := func() {
			for _, f := range fs {
				r.add(f)
			}
			parsed += np
			written += nw
			validated += nv
		}
		if o.err {
			return done
		}
		defer func() { e.fs = nil }()
		follow := func(fn *ssa.Function, f func()) bool {
			e.steps, e.depth = 0, 0
			if msg := e.run(f); msg != "" {
				bad(fn, "analysis", "%s", msg)
				return false
			}
			return true
		}
		onlyRead := func(fn *ssa.Function, path string) {
			for _, p := range e.fs.opened {
				if p != path {
					bad(fn, "other-file", "%q is read", p)
				}
			}
			if w := e.fs.written(); len(w) > 0 {
				bad(fn, "other-file", "%s is written", strings.Join(w, ", "))
			}
		}
		other := mkBytes([]pv{pknum(1), pknum(2), pknum(3)})
		src := append([]pv(nil), o.b...)
		if len(o.op) == len("Write") {
			src = o.f.bytes()
		}
		// reading
		e.fs = newFS()
		e.fs.files["dir/a font.ttf"] = src
		e.fs.files["font.ttf"] = e.bytesOf(other)
		var b1, b2 []pv
		var er1, er2 bool
		if !follow(pf, func() {
			t, _ := e.call(pf, []pv{"dir/a font.ttf"}, nil).(ptuple)
			if er1 = isErr(e, t); !er1 {
				b1, _ = e.writeTo(t[0])
			}
			t, _ = e.call(P.lib.Func("Parse"), []pv{newSource(append([]pv(nil), src...))}, nil).(ptuple)
			if er2 = isErr(e, t); !er2 {
				b2, _ = e.writeTo(t[0])
			}
		}) {
			return done
		}
		np++
		if er1 != er2 || !er1 && !sameBytes(b1, b2) {
			bad(pf, "parse-file", "the font parsed from a file is not the one parsed from the same bytes (errors %v and %v, %d and %d bytes written)", er1, er2, len(b1), len(b2))
		}
		onlyRead(pf, "dir/a font.ttf")
		for _, fn := range []*ssa.Function{pf, vf} {
			e.fs = newFS()
			er := false
			if follow(fn, func() { er = isErr(e, e.call(fn, []pv{"none.ttf"}, nil)) }) && !er {
				bad(fn, "no-file", "there is no error for a file that does not exist")
			}
		}
		// validation
		cut := append([]pv(nil), o.b[:len(o.b)/2]...)
		wrong := append([]pv(nil), o.b...)
		if recs, why := e.directory(wrong); why == "" && len(recs) > 0 {
			for _, t := range recs {
				if t.tag == "maxp" {
					wrong[t.at+4] = e.add(wrong[t.at+4].(pnum), knum(1), false)
				}
			}
		}
		for i, b := range [][]pv{o.b, cut, wrong, nil} {
			e.fs = newFS()
			e.fs.files["x"] = append([]pv(nil), b...)
			e.fs.files["font.ttf"] = append([]pv(nil), o.b...)
			if !follow(vf, func() {
				er1 = isErr(e, e.call(vf, []pv{"x"}, nil))
				er2 = isErr(e, e.call(vb, []pv{mkBytes(append([]pv(nil), b...))}, nil))
			}) {
				return done
			}
			nv++
			if er1 != er2 {
				bad(vf, "validate-file", "case %d: error %v for the file, %v for its bytes", i, er1, er2)
			}
			onlyRead(vf, "x")
		}
		// writing
		for k, before := range [][]pv{nil, {pknum(7), pknum(8)}, append(append([]pv(nil), o.b...), o.b[:9]...)} {
			e.fs = newFS()
			path := "dir/out.ttf"
			if k > 0 {
				e.fs.files[path] = before
			}
			er := false
			if !follow(wf, func() { er = isErr(e, e.call(wf, []pv{o.font, path}, nil)) }) {
				return done
			}
			nw++
			got, _ := e.fs.content(path)
			if er {
				bad(wf, "write-file", "an error is returned")
			} else if !sameBytes(got, o.b) {
				bad(wf, "write-file", "the file holds %d bytes (%d before), Write writes %d, or they differ", len(got), len(before), len(o.b))
			}
			for _, p := range e.fs.written() {
				if p != path {
					bad(wf, "other-file", "%q is written", p)
				}
			}
		}
		return done
	})
	r.count("fonts", n)
	r.count("files_parsed", parsed)
	r.count("files_validated", validated)
	r.count("files_written", written)
	r.need("files parsed", parsed, 15)
	r.need("files validated", validated, 60)
	r.need("files written", written, 45)
}

// command finds the function that runs for a command whose usage begins with a word.
type cliCommand struct {
	use string
	fn  *ssa.Function
	bs  []pv
	e   bool // it returns an error
	chk pv   // what decides whether arguments are accepted
}

func (e *PE) commands() map[string]cliCommand {
	r := map[string]cliCommand{}
	var visit func(c *pcell, t types.Type, d int)
	visit = func(c *pcell, t types.Type, d int) {
		if c == nil || d > 3 {
			return
		}
		if p, ok := t.Underlying().(*types.Pointer); ok {
			if x, ok := c.v.(pptr); ok && x.c != nil {
				visit(x.c, p.Elem(), d+1)
			}
			return
		}
		if !strings.HasSuffix(t.String(), "cobra.Command") {
			return
		}
		s, ok := c.v.(*pstru)
		if !ok {
			return
		}
		st := t.Underlying().(*types.Struct)
		var cmd cliCommand
		for i := 0; i < st.NumFields() && i < len(s.f); i++ {
			switch st.Field(i).Name() {
			case "Args":
				cmd.chk = s.f[i].v
			case "Use":
				cmd.use, _ = s.f[i].v.(string)
			case "Run", "RunE":
				if f, ok := s.f[i].v.(pfunc); ok && f.fn != nil {
					cmd.fn, cmd.bs, cmd.e = f.fn, f.binds, st.Field(i).Name() == "RunE"
				}
			}
		}
		if cmd.fn != nil && cmd.use != "" {
			r[strings.Fields(cmd.use)[0]] = cmd
		}
	}
	for g, c := range e.global {
		if e.P.inModule2(g.Pkg) {
			visit(c, g.Type().Underlying().(*types.Pointer).Elem(), 0)
		}
	}
	return r
}

func (P *Prog) inModule2(p *ssa.Package) bool {
	return p != nil && strings.HasPrefix(p.Pkg.Path(), modPath)
}

// peFlag is a flag of a command: where its value is kept and what it is if it is not given.
type peFlag struct {
	c   *pcell
	def pv
}

// accepts decides whether a command accepts so many arguments.
func (e *PE) accepts(c cliCommand, args []pv) bool {
	switch f := c.chk.(type) {
	case pfunc:
		if f.fn == nil {
			return true
		}
		if strings.HasPrefix(f.fn.String(), "github.com/spf13/cobra.") {
			return f.fn.Name() != "NoArgs" || len(args) == 0
		}
		r, ok := e.call(f.fn, []pv{pptr{&pcell{&pterm{op: "command"}}}, mkBytes(args)}, f.binds).(piface)
		if !ok {
			e.fail("results of the check of arguments")
		}
		return r.t == nil
	case *pterm:
		t := pstr(f)
		k := strings.Index(t, "cobra.")
		if k < 0 {
			panic(peExit{-2})
		}
		name, rest, _ := strings.Cut(t[k+len("cobra."):], "(")
		var a, b int
		fmt.Sscanf(strings.ReplaceAll(strings.TrimSuffix(rest, ")"), ",", " "), "%d %d", &a, &b)
		n := len(args)
		switch name {
		case "MinimumNArgs":
			return n >= a
		case "MaximumNArgs":
			return n <= a
		case "ExactArgs":
			return n == a
		case "RangeArgs":
			return n >= a && n <= b
		}
		panic(peExit{-2}) // another combination of checks: nothing is said about it
	}
	return true
}

type peExit struct{ code int }

// cliExt models what the commands use besides the library.
func (e *PE) cliExt(flags map[string]pv) func(name string, args []pv) (pv, bool) {
	return func(name string, args []pv) (pv, bool) {
		switch {
		case name == "os.Exit":
			panic(peExit{e.constInt(args[0])})
		case strings.HasPrefix(name, "log.Fatal") || strings.HasPrefix(name, "log.Panic") || strings.Contains(name, "logrus.Fatal") || strings.Contains(name, "logrus.Panic"):
			panic(peExit{1})
		case strings.HasPrefix(name, "(*github.com/spf13/pflag.FlagSet).") && len(args) > 3 && !strings.Contains(name, ").Get"):
			// a flag is defined: by name, or for a variable
			m := name[strings.LastIndex(name, ".")+1:]
			k := strings.TrimSuffix(m, "P")
			at := 1
			to := pptr{&pcell{}}
			if strings.HasSuffix(k, "Var") {
				p, ok := args[1].(pptr)
				if !ok || p.c == nil {
					return nil, false
				}
				to, at = p, 2
			}
			f, ok := args[at].(string)
			if !ok {
				e.fail("the name of a flag is not known")
			}
			if k != m {
				at++
			}
			if at+1 >= len(args) {
				return nil, false
			}
			if e.flags == nil {
				e.flags = map[string][]peFlag{}
			}
			to.c.v = args[at+1]
			e.flags[f] = append(e.flags[f], peFlag{to.c, args[at+1]})
			if strings.HasSuffix(k, "Var") {
				return nil, true
			}
			return to, true
		case strings.HasPrefix(name, "(*github.com/spf13/pflag.FlagSet).Get"):
			f, ok := args[1].(string)
			if !ok {
				e.fail("the name of a flag is not known")
			}
			v, ok := flags[f]
			if ds := e.flags[f]; !ok && len(ds) == 1 {
				v = ds[0].def
			} else if !ok {
				v = false
				if strings.HasSuffix(name, "GetString") {
					v = ""
				}
			}
			return ptuple{v, piface{}}, true
		case name == "strconv.ParseUint" || name == "strconv.ParseInt" || name == "strconv.Atoi":
			s, ok := args[0].(string)
			if !ok {
				return nil, false
			}
			var n int64
			var err error
			switch name {
			case "strconv.Atoi":
				var k int
				k, err = strconv.Atoi(s)
				n = int64(k)
			case "strconv.ParseInt":
				n, err = strconv.ParseInt(s, e.constInt(args[1]), e.constInt(args[2]))
			default:
				var k uint64
				k, err = strconv.ParseUint(s, e.constInt(args[1]), e.constInt(args[2]))
				n = int64(k)
			}
			if err != nil {
				return ptuple{knum(n), piface{types.Universe.Lookup("error").Type(), &pterm{op: "error", args: []pv{err.Error()}}}}, true
			}
			return ptuple{knum(n), piface{}}, true
		}
		return e.decodeExt(name, args)
	}
}

// setFlags sets the variables of flags.
func (e *PE) setFlags(flags map[string]pv) {
	for name, ds := range e.flags {
		for _, d := range ds {
			d.c.v = d.def
			if v, ok := flags[name]; ok {
				d.c.v = v
			}
		}
	}
}

func cmdPkg(P *Prog) *ssa.Package {
	pkg := P.pkgs[modPath+"/truecli/cmd"]
	if pkg == nil {
		for k, p := range P.pkgs {
			if strings.Contains(k, "truecli/cmd") {
				pkg = p
			}
		}
	}
	return pkg
}

func ruleC32(P *Prog, r *Report, tier string) {
	r.explain = "The functions that the command framework runs are followed through the library with known arguments and flags and a model of files by name, for fonts of known structure and unknown contents. " +
		"After subset gids, subset runes, subset simple and readwrite the file they are documented to write (the one named by the flag, or its default) must hold exactly the subset or font that the arguments ask for, written by the library; no other file may have been written, and only the named input is read. info and validate write nothing; arguments that are no glyph indices and files that are cut off make the command fail with nothing written; no number of arguments that a command accepts leads it beyond its argument list."
	pkg := cmdPkg(P)
	if pkg == nil {
		r.add(Finding{Rule: "analysis", Key: "cmd", Where: "-", Msg: "the package of the commands is not found"})
		return
	}
	type job struct {
		cmd   string
		args  []string
		flags map[string]pv
		out   string
		op    func(e *PE, f pv) (pv, bool)
		cut   bool // the input is cut to its first half
		wrong bool // the arguments ask for nothing that exists: it has to give up
	}
	jobs := func(e *PE, s *fontShape) []job {
		n := len(s.glyphs)
		r := []job{
			{cmd: "readwrite", out: "readwrite.ttf"},
			{cmd: "simple", out: "subset.ttf", op: opFirst(256).apply},
			{cmd: "info"}, {cmd: "validate"}, {cmd: "validate", cut: true, wrong: true}, {cmd: "readwrite", cut: true, wrong: true},
			{cmd: "info", flags: map[string]pv{"trec": true, "head": true, "hhea": true, "hmtx": true, "loca": true, "glyf": true}},
		}
		if s.noGlyf {
			return r
		}
		if n > 200 {
			return append(r, job{cmd: "gids", args: []string{strconv.Itoa(n - 1)}, out: "subset_gids.ttf", op: opKeep(n - 1).apply})
		}
		for _, a := range [][]string{{"65537"}, {"x"}, {"1", "-1"}, {"0", "1x"}, {"1.0"}} {
			r = append(r, job{cmd: "gids", args: a, out: "subset_gids.ttf", wrong: true})
		}
		r = append(r, job{cmd: "gids", args: []string{"1"}, out: "subset_gids.ttf", op: opKeep(1).apply},
			job{cmd: "gids", args: []string{strconv.Itoa(n - 1), "0"}, out: "subset_gids.ttf", op: opKeep(n-1, 0).apply},
			job{cmd: "gids", args: []string{"2", "0", "002", "1"}, out: "subset_gids.ttf", op: opKeep(2, 0, 2, 1).apply})
		if n > 10 {
			r = append(r, job{cmd: "gids", args: []string{"010"}, out: "subset_gids.ttf", op: opKeep(10).apply})
		}
		texts := []string{"A", "BA`\u0300", "\U0001F600x", "(é)"}
		if s.with["cmap"] {
			// characters of the highest glyphs: among the capital letters, beyond ASCII, beyond 16 bits
			for _, u := range [][2]int{{'A', 'Z'}, {0x80, 0xffff}, {0x10000, 0x10ffff}} {
				best, at := 0, 0
				for _, m := range s.subs {
					for _, c := range sortedInts(m.want) {
						k, ok := e.nominalOf(m.want[c])
						if g := int(k & 0xffff); ok && m.width > 1 && c >= u[0] && c <= u[1] && g > best && g < n && (c < 0xd800 || c > 0xdfff) {
							best, at = g, c
						}
					}
				}
				if at > 0 {
					texts = append(texts, string(rune(at)))
				}
			}
		}
		for _, t := range texts {
			rs := []rune(t)
			op := func(e *PE, f pv) (pv, bool) {
				var a []pv
				for _, c := range rs {
					a = append(a, knum(int64(c)))
				}
				return e.method("SubsetKeepRunes", f, mkBytes(a))
			}
			r = append(r, job{cmd: "runes", args: []string{t}, flags: map[string]pv{"outfile": "subset_runes.ttf"}, out: "subset_runes.ttf", op: op})
		}
		r = append(r, job{cmd: "runes", args: []string{"A"}, out: "subset_runes.ttf", op: func(e *PE, f pv) (pv, bool) {
			return e.method("SubsetKeepRunes", f, mkBytes([]pv{knum('A')}))
		}})
		r = append(r, job{cmd: "runes", args: []string{"A"}, flags: map[string]pv{"outfile": "d/x y.ttf"}, out: "d/x y.ttf", op: func(e *PE, f pv) (pv, bool) {
			return e.method("SubsetKeepRunes", f, mkBytes([]pv{knum('A')}))
		}})
		return r
	}
	runs, files := 0, 0
	seen := map[string]bool{}
	all := fileShapes()
	for _, s := range shapes() {
		if len(s.glyphs) > 10 {
			all = append(all, s)
		}
	}
	for _, s := range all {
		s.known = true // so that the characters of a font are those its maps name
	}
	forShapes(P, r, all, func(s *fontShape) [][]fontOp { return [][]fontOp{{}} }, func(e *PE, o *peOut) func() {
		var fs []Finding
		nr, nf := 0, 0
		did := map[string]bool{}
		done := func() {
			for _, f := range fs {
				r.add(f)
			}
			runs += nr
			files += nf
			for c := range did {
				seen[c] = true
			}
		}
		add := func(fn *ssa.Function, rule, f string, a ...any) {
			at := "-"
			if fn != nil {
				at = P.pos(fn.Pos())
			}
			fs = append(fs, Finding{Rule: rule, Key: o.s.name, Where: at, Msg: o.s.name + ": " + fmt.Sprintf(f, a...)})
		}
		if o.err {
			return done
		}
		e.ext = e.cliExt(nil)
		e.steps, e.depth = 0, 0
		if msg := e.run(func() { e.initPkg(pkg) }); msg != "" {
			add(nil, "analysis", "initialisation of the commands: %s", msg)
			return done
		}
		cmds := e.commands()
		defer func() { e.fs, e.ext = nil, nil }()
		for _, name := range []string{"gids", "runes", "simple", "readwrite", "info", "validate"} {
			c, ok := cmds[name]
			if !ok {
				continue
			}
			for _, args := range [][]pv{{}, {"f.ttf"}, {"f.ttf", "1"}, {"f.ttf", "1", "2"}} {
				e.fs = newFS()
				e.fs.files["f.ttf"] = append([]pv(nil), o.b...)
				e.ext = e.cliExt(nil)
				e.setFlags(nil)
				e.steps, e.depth = 0, 0
				accepted, known := false, true
				msg := e.run(func() {
					defer func() {
						if x := recover(); x != nil {
							p, ok := x.(peExit)
							if !ok {
								panic(x)
							}
							known = p.code != -2
						}
					}()
					if accepted = e.accepts(c, args); accepted {
						e.call(c.fn, []pv{pptr{&pcell{&pterm{op: "command"}}}, mkBytes(args)}, c.bs)
					}
				})
				nr++
				if msg != "" && !strings.HasPrefix(msg, "panic") {
					add(c.fn, "arguments", "%s with %d arguments: %s", name, len(args), msg)
				}
				if !known {
					continue
				}
				if !accepted && len(args) == 3 && name == "gids" || !accepted && len(args) == 1 && name != "gids" && name != "runes" || !accepted && len(args) == 2 && name == "runes" {
					add(c.fn, "arguments", "%s does not accept %d arguments", name, len(args))
				}
			}
		}
		for _, j := range jobs(e, o.s) {
			c, ok := cmds[j.cmd]
			if !ok {
				continue
			}
			id := j.cmd + " " + strings.Join(j.args, " ")
			bad := func(rule, f string, a ...any) {
				add(c.fn, rule, "%s: %s", id, fmt.Sprintf(f, a...))
			}
			e.fs = newFS()
			e.ext = e.cliExt(j.flags)
			e.setFlags(j.flags)
			// a file as the library writes it is one that validates
			e.fs.files["in/the font.ttf"] = append([]pv(nil), o.b...)
			if j.cut {
				e.fs.files["in/the font.ttf"] = append([]pv(nil), o.b[:len(o.b)/2]...)
			}
			args := []pv{"in/the font.ttf"}
			for _, a := range j.args {
				args = append(args, a)
			}
			e.steps, e.depth = 0, 0
			exit := -1
			isErr := false
			msg := e.run(func() {
				defer func() {
					if x := recover(); x != nil {
						if p, ok := x.(peExit); ok {
							exit = p.code
							return
						}
						panic(x)
					}
				}()
				res := e.call(c.fn, []pv{pptr{&pcell{&pterm{op: "command"}}}, mkBytes(args)}, c.bs)
				if i, ok := res.(piface); ok && c.e && i.t != nil {
					isErr = true
				}
			})
			if j.wrong && strings.HasPrefix(msg, "panic") {
				msg, exit = "", 2
			}
			if msg != "" {
				bad("analysis", "%s", msg)
				continue
			}
			nr++
			did[j.cmd] = true
			if j.wrong {
				if w := e.fs.written(); exit <= 0 && !isErr || len(w) > 0 {
					bad("accepts", "the command does not fail although its arguments or its input are wrong, or it writes a file")
				}
				continue
			}
			// what the library makes of it
			var want []pv
			werr := false
			if j.out != "" {
				e.steps, e.depth = 0, 0
				if msg := e.run(func() {
					t, _ := e.call(P.lib.Func("Parse"), []pv{newSource(append([]pv(nil), o.b...))}, nil).(ptuple)
					if len(t) != 2 {
						e.fail("results of Parse")
					}
					f := t[0]
					if j.op != nil {
						if f, werr = j.op(e, f); werr {
							return
						}
					}
					want, werr = e.writeTo(f)
				}); msg != "" {
					bad("analysis", "%s", msg)
					continue
				}
			}
			if werr {
				continue
			}
			if exit > 0 || isErr {
				bad("gives-up", "the command fails (status %d)", exit)
				continue
			}
			for _, p := range e.fs.opened {
				if p != "in/the font.ttf" && p != j.out {
					bad("other-file", "%q is read", p)
				}
			}
			for _, p := range e.fs.written() {
				if p != j.out {
					bad("other-file", "%q is written", p)
				}
			}
			if j.out == "" {
				continue
			}
			nf++
			got, ok := e.fs.content(j.out)
			if !ok {
				bad("no-output", "%q is not written", j.out)
			} else if !sameBytes(got, want) {
				bad("output", "%q does not hold what the arguments ask for (%d bytes instead of %d)", j.out, len(got), len(want))
			}
		}
		return done
	})
	for _, c := range []string{"gids", "runes", "simple", "readwrite", "info", "validate"} {
		if !seen[c] {
			r.add(Finding{Rule: "analysis", Key: c, Where: "-", Msg: "the command " + c + " was not followed"})
		}
	}
	r.count("command_runs", runs)
	r.count("files_written", files)
	r.need("command runs", runs, 100)
	r.need("files written", files, 60)
}

// macRoman are the characters of the codes from 0x80.
var macRoman = []rune("ÄÅÇÉÑÖÜáàâäãåçéèêëíìîïñóòôöõúùûü†°¢£§•¶ß®©™´¨≠ÆØ∞±≤≥¥µ∂∑∏π∫ªºΩæø¿¡¬√ƒ≈∆«»…\u00a0ÀÃÕŒœ–—“”‘’÷◊ÿŸ⁄€‹›ﬁﬂ‡·‚„‰ÂÊÁËÈÍÎÏÌÓÔ\uf8ffÒÚÛÙıˆ˜¯˘˙˚¸˝˛ˇ")

// decodeExt makes known text of known bytes, which is a term otherwise.
func (e *PE) decodeExt(name string, args []pv) (pv, bool) {
	known := func(v pv) ([]byte, bool) {
		s, ok := v.(pslice)
		if !ok {
			return nil, false
		}
		var b []byte
		for i := 0; i < s.ln; i++ {
			n, ok := s.a.e[s.off+i].v.(pnum)
			if !ok || !n.isConst() {
				return nil, false
			}
			b = append(b, byte(n.k))
		}
		return b, true
	}
	switch {
	case strings.HasSuffix(name, "encoding.Decoder).Bytes") && len(args) == 2:
		b, ok := known(args[1])
		if !ok {
			return nil, false
		}
		t := pstr(args[0])
		var rs []rune
		switch {
		case strings.Contains(t, "UTF16(false,"):
			var us []uint16
			for i := 0; i+1 < len(b); i += 2 {
				us = append(us, uint16(b[i])<<8|uint16(b[i+1]))
			}
			rs = utf16.Decode(us)
		case strings.Contains(t, "charmap.Macintosh"):
			for _, c := range b {
				if c < 0x80 {
					rs = append(rs, rune(c))
				} else {
					rs = append(rs, macRoman[c-0x80])
				}
			}
		default:
			return nil, false
		}
		return ptuple{mkBytes(e.bytesOf(string(rs))), piface{}}, true
	case name == "unicode/utf8.DecodeRune":
		b, ok := known(args[0])
		if !ok {
			return nil, false
		}
		c, n := utf8.DecodeRune(b)
		return ptuple{knum(int64(c)), knum(int64(n))}, true
	}
	return nil, false
}
