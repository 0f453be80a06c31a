package main

import (
	"fmt"
	"go/types"
	"strings"
)

// A model of files: what they hold before, the writers that are open on them, and what they hold then.

type peFile struct {
	b     []pv
	begun bool // written to
}

type peHandle struct {
	path  string
	old   []pv // what stays where nothing is written over it
	app   bool
	trunc bool
	excl  bool
	w     *pbuf
}

type peFS struct {
	files   map[string][]pv // before
	handles []*peHandle     // writers, in the order they were opened
	opened  []string        // readers
	gone    map[string]bool
	temp    int
}

func newFS() *peFS { return &peFS{files: map[string][]pv{}, gone: map[string]bool{}} }

// content is what a file holds now.
func (s *peFS) content(path string) ([]pv, bool) {
	b, ok := s.files[path]
	ok = ok && !s.gone[path]
	for _, h := range s.handles {
		if h.path != path {
			continue
		}
		n := h.w.all()
		switch {
		case h.trunc:
			b = n
		case h.app:
			b = append(append([]pv(nil), b...), n...)
		default:
			b = append(append([]pv(nil), n...), b[min(len(n), len(b)):]...)
		}
		ok = true
	}
	return b, ok
}

// written are the paths that were written to.
func (s *peFS) written() []string {
	set := map[string]bool{}
	for _, h := range s.handles {
		if h.path != "" {
			set[h.path] = true
		}
	}
	return sortedKeys(set)
}

// externFile models operations on files.
func (e *PE) externFile(name string, sig *types.Signature, args []pv) (pv, bool) {
	fs := e.fs
	str := func(i int) string {
		s, ok := args[i].(string)
		if !ok {
			e.fail("the name of a file is not known: %s", pstr(args[i]))
		}
		return s
	}
	errT := func() types.Type { return sig.Results().At(sig.Results().Len() - 1).Type() }
	noFile := func() pv {
		r := ptuple{}
		for i := 0; i < sig.Results().Len()-1; i++ {
			r = append(r, pptr{})
		}
		x := piface{errT(), &pterm{op: "error", args: []pv{"no such file"}}}
		if len(r) == 0 {
			return x
		}
		return append(r, x)
	}
	open := func(p string) (pv, bool) {
		fs.opened = append(fs.opened, p)
		b, ok := fs.content(p)
		if !ok {
			return noFile(), true
		}
		return ptuple{pptr{&pcell{&pstream{b: append([]pv(nil), b...)}}}, piface{}}, true
	}
	create := func(h *peHandle) (pv, bool) {
		h.w = &pbuf{}
		fs.handles = append(fs.handles, h)
		return ptuple{pptr{&pcell{h.w}}, piface{}}, true
	}
	handle := func(v pv) *peHandle {
		if b := e.buffer(v); b != nil {
			for _, h := range fs.handles {
				if h.w == b {
					return h
				}
			}
		}
		return nil
	}
	switch name {
	case "os.Open":
		return open(str(0))
	case "os.ReadFile", "io/ioutil.ReadFile":
		p := str(0)
		fs.opened = append(fs.opened, p)
		b, ok := fs.content(p)
		if !ok {
			return ptuple{pslice{}, piface{errT(), &pterm{op: "error", args: []pv{"no such file"}}}}, true
		}
		return ptuple{mkBytes(append([]pv(nil), b...)), piface{}}, true
	case "os.Create":
		return create(&peHandle{path: str(0), trunc: true})
	case "os.OpenFile":
		fl := e.constInt(args[1])
		if fl&3 == 0 {
			return open(str(0))
		}
		p := str(0)
		if _, has := fs.content(p); !has && fl&0x40 == 0 {
			return noFile(), true
		}
		return create(&peHandle{path: p, trunc: fl&0x200 != 0, app: fl&0x400 != 0})
	case "os.CreateTemp", "io/ioutil.TempFile":
		fs.temp++
		return create(&peHandle{path: fmt.Sprintf("%s/temporary %d", pstr(args[0]), fs.temp), trunc: true})
	case "os.WriteFile", "io/ioutil.WriteFile":
		h := &peHandle{path: str(0), trunc: true, w: &pbuf{}}
		h.w.add(e.bytesOf(args[1])...)
		fs.handles = append(fs.handles, h)
		return piface{}, true
	case "os.Rename":
		a, b := str(0), str(1)
		c, ok := fs.content(a)
		if !ok {
			return noFile(), true
		}
		moved := false
		for _, h := range fs.handles {
			if h.path == b {
				h.path = ""
			}
		}
		for _, h := range fs.handles {
			if h.path == a {
				h.path, moved = b, true
			}
		}
		if !moved {
			fs.gone[a] = true
			fs.files[b] = c
		}
		delete(fs.gone, b)
		return piface{}, true
	case "os.Remove":
		p := str(0)
		for _, h := range fs.handles {
			if h.path == p {
				h.path = ""
			}
		}
		fs.gone[p] = true
		return piface{}, true
	case "os.Truncate":
	case "(*os.File).Close", "(*os.File).Sync", "invoke Close", "(*os.File).Chmod", "invoke Sync":
		if handle(args[0]) != nil || e.stream(args[0]) != nil {
			return piface{}, true
		}
	case "(*os.File).Name", "invoke Name":
		if h := handle(args[0]); h != nil {
			return h.path, true
		}
	case "path/filepath.Dir":
		p := str(0)
		if i := strings.LastIndex(p, "/"); i >= 0 {
			return p[:i], true
		}
		return ".", true
	case "path/filepath.Clean":
		return str(0), true
	}
	return nil, false
}
