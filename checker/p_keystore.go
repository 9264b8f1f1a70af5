package main

import (
	"go/types"
	"os"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// ---------- C18: saving the key store ----------

type saveCheck struct {
	c     *Ctx
	typ   *types.Named
	path  string // the field with the file's path
	enc   map[string]bool
	dec   map[string]bool
	seen  map[*ssa.Function]bool
	reads bool
}

// fldName: the field a value was read from.
func fldName(t *Term) string {
	t = stripConv(t)
	if t == nil || t.Op != "init" || t.Sub[0].Op != "fld" {
		return ""
	}
	return own(t.Sub[0]) + "." + t.Sub[0].Aux
}

// changesFile: the call may change what a file holds or is called: what kind of change, and the path or handle.
func changesFile(ev *Event) (kind string, what []*Term) {
	if ev.Kind != "call" {
		return "", nil
	}
	switch {
	case ev.Fn == "os.OpenFile" && len(ev.Args) == 3:
		return "open", ev.Args[:1]
	case ev.Fn == "os.Create":
		return "create", ev.Args[:1]
	case ev.Fn == "os.CreateTemp":
		return "temp", nil
	case ev.Fn == "os.WriteFile":
		return "writefile", ev.Args[:1]
	case ev.Fn == "os.Rename" || ev.Fn == "os.Link" || ev.Fn == "os.Symlink":
		return "rename", ev.Args[:2]
	case ev.Fn == "os.Remove" || ev.Fn == "os.RemoveAll" || ev.Fn == "os.Truncate":
		return "remove", ev.Args[:1]
	case hasPre(ev.Fn, "(*os.File).Write", "(*os.File).ReadFrom"):
		return "write", ev.Args[:1]
	case ev.Fn == "(*os.File).Truncate":
		return "truncate", ev.Args[:1]
	case ev.Fn == "(*os.File).Sync":
		return "sync", ev.Args[:1]
	}
	return "", nil
}

// codecLibs: the packages of encoders and decoders the function may use.
func (c *Ctx) codecLibs(f *ssa.Function) map[string]bool {
	r := map[string]bool{}
	seen := map[*ssa.Function]bool{}
	var visit func(g *ssa.Function)
	visit = func(g *ssa.Function) {
		if g == nil || seen[g] {
			return
		}
		seen[g] = true
		for _, b := range g.Blocks {
			for _, in := range b.Instrs {
				ci, ok := in.(ssa.CallInstruction)
				if !ok {
					continue
				}
				h := ci.Common().StaticCallee()
				if h == nil {
					continue
				}
				if isRepoFn(h) {
					visit(c.P.fnBody(h))
					continue
				}
				p := ""
				if h.Pkg != nil {
					p = h.Pkg.Pkg.Path()
				} else if h.Object() != nil && h.Object().Pkg() != nil {
					p = h.Object().Pkg().Path()
				}
				if hasPre(p, "compress/", "encoding/", "github.com/") {
					r[p] = true
				}
			}
		}
	}
	visit(f)
	return r
}

func c18(c *Ctx) {
	if c.load("") == nil {
		return
	}
	c.P = c.progs[""]
	thisProg = c.P
	c.rule("in-place: nothing truncates, writes, removes or moves away the store's file itself")
	c.rule("complete: the file that replaces it was opened new, has exactly the encoded data, and the write is known to have succeeded")
	c.rule("synced: it was forced to disk after the last write, successfully, before it replaces the old one")
	c.rule("reported: success is returned only after the replacement is known to have succeeded")
	c.rule("alone: from opening the new file to replacing the old one the store's lock is held without interruption")
	c.rule("encoding: what is saved is the encoding, or the data itself where that fails, that loading undoes; loading reads the whole file that saving replaces")
	c.rule("path: the file opened is the one that is replaced and loaded, and opening it does not empty it")
	open := c.pub("keystore", "", "LoadKeyStore")
	if open == nil {
		return
	}
	res := open.Signature.Results()
	pt := isPtrTo(res.At(0).Type())
	n, _ := orAny(pt).(*types.Named)
	if n == nil {
		c.fail("LoadKeyStore returns no store")
		return
	}
	w := &saveCheck{c: c, typ: n, enc: map[string]bool{}, dec: map[string]bool{}, seen: map[*ssa.Function]bool{}}
	var saves, loads []*ssa.Function
	for i := 0; i < n.NumMethods(); i++ {
		m := n.Method(i)
		f := c.P.SSA.FuncValue(m)
		if f == nil || !m.Exported() || len(f.Blocks) == 0 {
			continue
		}
		r := f.Signature.Results()
		switch {
		case bytesParam(f) != nil && r.Len() >= 1 && isErr(r.At(r.Len()-1).Type()):
			saves = append(saves, f)
		case r.Len() == 2 && isByteSlice(r.At(0).Type()) && isErr(r.At(1).Type()):
			loads = append(loads, f)
		}
	}
	if len(saves) == 0 || len(loads) == 0 {
		c.fail("the store has no operation that saves or none that loads")
		return
	}
	for _, f := range loads {
		w.loaded(f)
	}
	for _, f := range saves {
		w.saved(f)
	}
	w.opened(open)
	if f := c.P.fn("keystore", "NewKeyStore"); f != nil {
		w.opened(f)
	}
	if len(w.enc) > 0 || len(w.dec) > 0 {
		c.ob("encodings")
		both := false
		for k := range w.enc {
			both = both || w.dec[k]
		}
		if !both {
			c.viol("encoding", saves[0], nil, nil, "saving encodes with %v, loading decodes with %v", keysOf(w.enc), keysOf(w.dec))
		}
	}
	// nobody else in the package changes files
	for _, f := range c.P.Funcs {
		if pkgOf(f) != "keystore" || w.seen[f] {
			continue
		}
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				ci, ok := in.(ssa.CallInstruction)
				if !ok {
					continue
				}
				g := ci.Common().StaticCallee()
				if g == nil {
					continue
				}
				switch name := g.String(); {
				case hasPre(name, "os.Create", "os.WriteFile", "os.Rename", "os.Remove", "os.Truncate", "(*os.File).Write", "(*os.File).Truncate"):
					c.ob("other changes of files")
					c.viol("in-place", f, &Event{Pos: in.Pos()}, nil, "%s changes files outside saving", name)
				}
			}
		}
	}
}

func keysOf(m map[string]bool) (r []string) {
	for k := range m {
		r = append(r, k)
	}
	sort.Strings(r)
	return
}

func (w *saveCheck) engine() *Engine {
	e := w.c.engine()
	e.NoPanic = true
	e.Opaque = func(g *ssa.Function) bool { return isRepoFn(g) && pkgOf(g) != "keystore" }
	return e
}

func (w *saveCheck) note(outs []*Outcome, f *ssa.Function) {
	w.seen[f] = true
	for _, o := range outs {
		for _, ev := range o.S.events {
			for _, g := range ev.Stack {
				w.seen[g] = true
			}
		}
	}
}

// isPath: the store's own path.
func (w *saveCheck) isPath(t *Term) bool { return w.path != "" && fldName(t) == w.path }

// readsFile: the call returns what a file holds.
func readsFile(ev *Event) *Term {
	if len(ev.Args) == 0 || ev.Args[0].Typ == nil {
		return nil
	}
	r0 := callRes(ev, 0)
	if b, ok := ev.Args[0].Typ.Underlying().(*types.Basic); !ok || b.Kind() != types.String || r0 == nil || r0.Typ == nil || !isByteSlice(r0.Typ) {
		return nil
	}
	if ev.Kind == "repocall" && strings.Contains(strings.ToLower(ev.Fn), "read") || ev.Kind == "call" && ev.Fn == "os.ReadFile" {
		return r0
	}
	return nil
}

func (w *saveCheck) loaded(f *ssa.Function) {
	c := w.c
	e := w.engine()
	outs := c.run(e, f)
	w.note(outs, f)
	for _, o := range outs {
		if o.Kind != "return" {
			continue
		}
		c.ob("paths of loading")
		s := o.S
		er := o.Ret[len(o.Ret)-1]
		if isMadeErr(er) || s.nilErr(er) == 0 {
			continue
		}
		var content *Term
		var at *Event
		type dcd struct{ out, err *Term }
		var ds []dcd
		for _, ev := range s.events {
			if r := readsFile(ev); r != nil {
				if name := fldName(ev.Args[0]); name != "" && w.path == "" {
					w.path = name
				}
				if !w.isPath(ev.Args[0]) {
					c.viol("path", f, ev, o, "loads %s, which is not the store's file", ev.Args[0])
				}
				content, at = r, ev
				continue
			}
			if content != nil && (ev.Kind == "repocall" || ev.Kind == "call") {
				for _, a := range ev.Args {
					if a == content {
						if r := callRes(ev, 0); r != nil && r.Typ != nil && isByteSlice(r.Typ) {
							ds = append(ds, dcd{r, callRes(ev, 1)})
							if ev.Uses != nil {
								for k := range c.codecLibs(ev.Uses) {
									w.dec[k] = true
								}
							}
						}
					}
				}
			}
		}
		if content == nil {
			c.viol("encoding", f, nil, o, "returns without an error although nothing was read")
			continue
		}
		v := stripConvAll(o.Ret[0])
		ok := v == content || v == tNil && s.truth(mkBin("==", tNil, content, nil)) == 1
		for _, d := range ds {
			if v == d.out {
				ok = true
				if s.nilErr(d.err) != 1 {
					c.viol("encoding", f, at, o, "what could not be decoded is returned")
				}
			} else if v == content && s.nilErr(d.err) != 0 {
				c.viol("encoding", f, at, o, "the encoded data are returned although they could be decoded")
			}
		}
		if v == content && len(ds) == 0 && !isNilOrEmpty(s, content) {
			w.reads = true
		}
		if !ok {
			c.viol("encoding", f, at, o, "returns %s, which is not what the file holds", o.Ret[0])
		}
	}
}

func isNilOrEmpty(s *State, t *Term) bool {
	return s.truth(mkBin("==", tNil, t, nil)) == 1 || s.arith().le(mkLen(t), tZero, 0)
}

type newFile struct {
	path, h *Term
	fresh   bool
	wrote   []*Event
	data    []*Term
	synced  *Event
	opened  *Event
}

func (w *saveCheck) saved(f *ssa.Function) {
	c := w.c
	e := w.engine()
	e.OnEvent = recordContents
	bs := paramTerms(f)[paramIndex(f, bytesParam(f))]
	outs := c.run(e, f)
	w.note(outs, f)
	replaced := false
	for _, o := range outs {
		if o.Kind != "return" {
			continue
		}
		c.ob("paths of saving")
		s := o.S
		er := o.Ret[len(o.Ret)-1]
		failed := isMadeErr(er) || s.nilErr(er) == 0
		var files []*newFile
		byPath := func(p *Term) *newFile {
			for i := len(files) - 1; i >= 0; i-- {
				if files[i].path != nil && sameT(files[i].path, p) {
					return files[i]
				}
			}
			return nil
		}
		byH := func(h *Term) *newFile {
			for i := len(files) - 1; i >= 0; i-- {
				if files[i].h == h {
					return files[i]
				}
			}
			return nil
		}
		done := false
		var rename *Event
		for _, ev := range s.events {
			kind, what := changesFile(ev)
			switch kind {
			case "":
				// the name of a temporary file
				if ev.Kind == "call" && ev.Fn == "(*os.File).Name" {
					if nf := byH(ev.Args[0]); nf != nil {
						nf.path = callRes(ev, 0)
					}
				}
				if ev.Kind == "pure" && ev.Fn == "(*os.File).Name" {
					if nf := byH(ev.Args[0]); nf != nil {
						nf.path = ev.Res
					}
				}
			case "open":
				c.ob("files opened")
				fl, ok := ev.Args[1].intVal()
				if w.isPath(what[0]) {
					if !ok || fl&int64(os.O_TRUNC) != 0 {
						c.viol("in-place", f, ev, o, "opening the store's file empties it")
					}
					files = append(files, &newFile{path: what[0], h: callRes(ev, 0), opened: ev})
					continue
				}
				nf := &newFile{path: what[0], h: callRes(ev, 0), opened: ev, fresh: ok && (fl&int64(os.O_TRUNC) != 0 || fl&int64(os.O_EXCL) != 0)}
				if old := byPath(what[0]); old != nil && !nf.fresh {
					nf.fresh, nf.wrote, nf.data = old.fresh, old.wrote, old.data
				}
				files = append(files, nf)
			case "create":
				if w.isPath(what[0]) {
					c.viol("in-place", f, ev, o, "the store's file is emptied")
				}
				files = append(files, &newFile{path: what[0], h: callRes(ev, 0), opened: ev, fresh: true})
			case "temp":
				files = append(files, &newFile{h: callRes(ev, 0), opened: ev, fresh: true})
			case "writefile":
				if w.isPath(what[0]) {
					c.viol("in-place", f, ev, o, "the store's file is emptied and written in place")
				}
				files = append(files, &newFile{path: what[0], opened: ev, fresh: true, wrote: []*Event{ev}, data: []*Term{contentAt(ev, 1)}})
			case "write", "truncate":
				nf := byH(what[0])
				if nf == nil || w.isPath(nf.path) {
					c.viol("in-place", f, ev, o, "the store's file is changed in place")
					continue
				}
				if kind == "truncate" {
					if ev.Args[1] == tZero && len(nf.wrote) == 0 {
						nf.fresh = true
						continue
					}
					c.viol("complete", f, ev, o, "the new file is cut")
					continue
				}
				nf.wrote, nf.data, nf.synced = append(nf.wrote, ev), append(nf.data, contentAt(ev, 1)), nil
			case "sync":
				if nf := byH(what[0]); nf != nil {
					nf.synced = ev
				}
			case "remove":
				if w.isPath(what[0]) {
					c.viol("in-place", f, ev, o, "the store's file is removed")
				}
			case "rename":
				c.ob("replacements")
				if w.isPath(what[0]) {
					c.viol("in-place", f, ev, o, "the store's file is moved away")
				}
				if !w.isPath(what[1]) {
					continue
				}
				replaced = true
				nf := byPath(what[0])
				if nf == nil {
					c.viol("complete", f, ev, o, "the store's file is replaced by %s, which was not written", what[0])
					continue
				}
				rename, done = ev, true
				if !nf.fresh {
					c.viol("complete", f, ev, o, "the new file may have had contents: it is not emptied when opened")
				}
				if len(nf.wrote) != 1 {
					c.viol("complete", f, ev, o, "the new file was written %d times", len(nf.wrote))
					continue
				}
				x := nf.wrote[0]
				if x.Fn == "os.WriteFile" {
					if s.nilErr(callRes(x, 0)) != 1 {
						c.viol("complete", f, ev, o, "the store's file is replaced although writing the new one may have failed")
					}
				} else if s.nilErr(callRes(x, 1)) != 1 {
					c.viol("complete", f, ev, o, "the store's file is replaced although writing the new one may have failed")
				}
				w.encoded(f, o, x, nf.data[0], bs)
				if nf.synced == nil || s.nilErr(callRes(nf.synced, 0)) != 1 {
					c.viol("synced", f, ev, o, "the store's file is replaced although the new one is not known to be on the disk")
				}
				if !sameHold(s.events, nf.opened, ev) {
					c.viol("alone", f, ev, o, "the store's lock is not held from opening the new file to replacing the old one")
				}
			}
		}
		if !failed {
			if !done {
				c.viol("reported", f, nil, o, "returns without an error although nothing was saved")
			} else if x := callRes(rename, 0); s.nilErr(x) != 1 && er != x {
				c.viol("reported", f, rename, o, "returns without an error although replacing the file may have failed")
			}
		}
	}
	if !replaced {
		c.viol("in-place", f, nil, nil, "no path replaces the store's file by a new one")
	}
}

// encoded: what was written is the encoding of the data, or the data.
func (w *saveCheck) encoded(f *ssa.Function, o *Outcome, ev *Event, v, bs *Term) {
	c := w.c
	v = stripConvAll(v)
	raw := v == bs || w.c.copyOf(newEngine(c.P), o, v, bs)
	var enc *Event
	for _, x := range o.S.events {
		if x == ev {
			break
		}
		if (x.Kind == "repocall" || x.Kind == "call") && len(x.Args) > 0 && x.Args[0] == bs {
			if r := callRes(x, 0); r != nil && r.Typ != nil && isByteSlice(r.Typ) {
				enc = x
				if x.Uses != nil {
					for k := range c.codecLibs(x.Uses) {
						w.enc[k] = true
					}
				}
			}
		}
	}
	switch {
	case raw && enc == nil:
		if !w.reads && len(w.dec) > 0 {
			// loading falls back to the data as they are
			return
		}
	case raw:
		if er := callRes(enc, 1); er != nil && o.S.nilErr(er) != 0 {
			c.viol("encoding", f, ev, o, "the data are saved as they are although they were encoded")
		}
	case enc != nil && v == callRes(enc, 0):
		if er := callRes(enc, 1); er != nil && o.S.nilErr(er) != 1 {
			c.viol("encoding", f, ev, o, "what could not be encoded is saved")
		}
	default:
		c.viol("complete", f, ev, o, "saves %s, which are not the data", v)
	}
}

func paramIndex(f *ssa.Function, p *ssa.Parameter) int {
	for i, q := range f.Params {
		if q == p {
			return i
		}
	}
	return 0
}

func (w *saveCheck) opened(f *ssa.Function) {
	c := w.c
	e := w.engine()
	outs := c.run(e, f)
	w.note(outs, f)
	for _, o := range outs {
		if o.Kind != "return" {
			continue
		}
		s := o.S
		var opened *Event
		for _, ev := range s.events {
			switch kind, _ := changesFile(ev); kind {
			case "open":
				opened = ev
				if fl, ok := ev.Args[1].intVal(); !ok || fl&int64(os.O_TRUNC|os.O_EXCL) != 0 || fl&int64(os.O_CREATE) == 0 {
					c.viol("path", f, ev, o, "opening the store does not keep its file: flags %s", ev.Args[1])
				}
			case "create", "writefile", "remove", "truncate", "rename", "write":
				c.viol("path", f, ev, o, "opening the store changes its file")
			}
		}
		er := o.Ret[len(o.Ret)-1]
		if isMadeErr(er) || s.nilErr(er) == 0 || o.Ret[0] == tNil {
			continue
		}
		c.ob("stores opened")
		ok := false
		for a, v := range s.mem {
			if a.Op == "fld" && own(a)+"."+a.Aux == w.path && opened != nil && sameT(v, opened.Args[0]) {
				ok = true
			}
		}
		if !ok {
			c.viol("path", f, opened, o, "the path kept is not that of the file opened")
		}
	}
}

func init() {
	checks["C18"] = checkDef{c18, "typestate of the files a save touches on every path (opened new, written whole, synced, then renamed over the old), the lock, the error returned, and the agreement of saving and loading on path and encoding"}
}
