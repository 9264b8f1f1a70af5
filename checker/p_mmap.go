package main

import (
	"go/constant"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// ---------- C13, C14: memory-mapped files ----------

const mmapT = "mmap.Mmap"

func mmField(t *Term, name string) bool { return isField(t, mmapT, name) }

// mmapEngine knows the invariant of a mapped file: 0 <= offset <= maxsize, and the mapping has maxsize bytes. That
// every operation keeps it is an obligation of C13.
func (c *Ctx) mmapEngine() *Engine {
	e := c.engine()
	e.NoPanic = true
	e.OnEvent = func(e *Engine, s *State, ev *Event) {
		if ev.Kind != "load" || ev.Res == nil || ev.Args[0].Op != "fld" || shortKey(own(ev.Args[0])) != mmapT || !isInit(ev.Res) {
			return
		}
		mmapKnow(e, s, ev.Res)
	}
	e.ArithOf = func(s *State) *Arith { return mmapArith(s) }
	return e
}

func mmapKnow(e *Engine, s *State, t *Term) {
	recv := t.Sub[0].Sub[0]
	size := fieldNow(e, s, recv, "maxsize")
	if size == nil {
		return
	}
	switch {
	case mmField(t, "maxsize"):
		s.know(mkBin("<", t, tZero, nil), false)
	case mmField(t, "offset"):
		s.know(mkBin("<", t, tZero, nil), false)
		s.know(mkBin("<", size, t, nil), false)
	case mmField(t, "_mmap"):
		s.know(mkBin("==", mkLen(t), size, nil), true)
	}
}

func mmapArith(s *State) *Arith {
	limits := map[*Term]bool{}
	for _, f := range s.facts {
		f.T.walk(func(x *Term) bool {
			if mmField(x, "maxsize") || mmField(x, "offset") || x.Op == "len" {
				limits[x] = true
			}
			return true
		})
	}
	return exactArith(s.facts, func(t *Term) bool {
		return t.Op == "len" || t.Op == "cap" || mmField(t, "maxsize") || mmField(t, "offset") || t.Op == "sym" && t.Sym != nil && strings.HasPrefix(t.Sym.Name, "copied") || t.Op == "app" && strings.HasSuffix(t.Aux, "etpagesize")
	}, sortedTerms(limits))
}

// mmapWriters are the exported methods that take bytes: with a position they write there, without one they append.
func (c *Ctx) mmapWriters() (fs []*ssa.Function) {
	for _, f := range c.methods("mmap", "Mmap") {
		if b, _ := mmapParams(f); b != nil {
			fs = append(fs, f)
		}
	}
	if len(fs) < 4 {
		c.fail("only %d writing operations of a mapped file found", len(fs))
	}
	return
}

func mmapParams(f *ssa.Function) (bs, pos *Term) {
	for _, p := range paramTerms(f)[1:] {
		if isBytes(p.Typ) {
			bs = p
		} else if b, ok := p.Typ.Underlying().(*types.Basic); ok && b.Info()&types.IsInteger != 0 {
			pos = p
		}
	}
	return
}

func isBytes(t types.Type) bool {
	s, ok := t.Underlying().(*types.Slice)
	if !ok {
		return false
	}
	b, ok := s.Elem().Underlying().(*types.Basic)
	return ok && b.Kind() == types.Uint8
}

// region of the mapping a slice term covers.
func mmRegion(t *Term) (lo, n *Term, ok bool) {
	for t.Op == "conv" && len(t.Sub) == 1 {
		t = t.Sub[0]
	}
	b, lo := sliceBase(t)
	if !mmField(b, "_mmap") {
		return nil, nil, false
	}
	return lo, mkLen(t), true
}

func stripConv(t *Term) *Term {
	for t != nil && t.Op == "conv" && len(t.Sub) == 1 && t.Typ != nil && t.Sub[0].Typ != nil && lossless(t.Sub[0].Typ, t.Typ) {
		t = t.Sub[0]
	}
	return t
}

func errOf(f *ssa.Function, o *Outcome) *Term {
	rs := f.Signature.Results()
	for i := rs.Len() - 1; i >= 0; i-- {
		if isErr(rs.At(i).Type()) && i < len(o.Ret) {
			return o.Ret[i]
		}
	}
	return nil
}

// nilErr: 1 the error is nil on this path, 0 it is not, -1 unknown.
func (s *State) nilErr(t *Term) int {
	if t == nil || t == tNil {
		return 1
	}
	if v, known := s.factOf(mkBin("==", t, tNil, types.Typ[types.Bool])); known {
		return b2i(v)
	}
	if nonnil(t) || isMadeErr(t) {
		return 0
	}
	for _, f := range s.facts { // joined with others, and the whole is nil
		if f.Truth && f.T.Op == "bin" && f.T.Aux == "==" && len(f.T.Sub) == 2 {
			for i, j := range f.T.Sub {
				if j.Op == "app" && j.Aux == "errors.Join" && f.T.Sub[1-i] == tNil {
					for _, x := range j.Sub {
						if x == t {
							return 1
						}
					}
				}
			}
		}
	}
	return -1
}

// isMadeErr: the result of a function that makes a new error.
func isMadeErr(t *Term) bool {
	if t.Op == "sym" && t.Sym != nil && t.Sym.Ev != nil {
		switch t.Sym.Ev.Fn {
		case "errors.New", "fmt.Errorf":
			return true
		}
	}
	if t.Op == "init" && len(t.Sub) == 1 && t.Sub[0].Op == "global" {
		return thisProg.errVar(thisProg.global(t.Sub[0].Aux))
	}
	return t.Op == "app" && (t.Aux == "errors.New" || t.Aux == "fmt.Errorf")
}

// errVar: a package variable that holds an error made when the program starts, and is never assigned again.
func (p *Prog) errVar(g *ssa.Global) bool {
	if p == nil || g == nil || g.Pkg == nil {
		return false
	}
	pt, ok := g.Type().Underlying().(*types.Pointer)
	if !ok || !types.Identical(pt.Elem(), types.Universe.Lookup("error").Type()) {
		return false
	}
	if v, ok := p.errVars[g]; ok {
		return v
	}
	if p.errVars == nil {
		p.errVars = map[*ssa.Global]bool{}
	}
	if p.SPkgs[g.Pkg.Pkg.Path()] == nil {
		// the named errors of the standard library
		n := g.Name()
		p.errVars[g] = !strings.Contains(g.Pkg.Pkg.Path(), ".") && (strings.HasPrefix(n, "Err") || n == "EOF")
		return p.errVars[g]
	}
	p.errVars[g] = false
	call, ok := p.initOf(g).(*ssa.Call)
	if !ok || call.Call.StaticCallee() == nil || p.gwritten(g) != "" {
		return false
	}
	switch call.Call.StaticCallee().RelString(nil) {
	case "errors.New", "fmt.Errorf":
	default:
		return false
	}
	// used only to read it
	for _, f := range p.Funcs {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				var ops []*ssa.Value
				for _, op := range in.Operands(ops) {
					if *op != ssa.Value(g) {
						continue
					}
					if _, ok := in.(*ssa.UnOp); ok {
						continue
					}
					if st, ok := in.(*ssa.Store); ok && st.Addr == ssa.Value(g) && f.Synthetic != "" {
						continue
					}
					return false
				}
			}
		}
	}
	p.errVars[g] = true
	return true
}

func c13(c *Ctx) {
	c.rule("inside: a write copies exactly the given bytes to a range of the mapping shown to lie inside the file, for every offset and length, with Go's wrapping arithmetic")
	c.rule("refused: a path that copies nothing returns an error (or was given no bytes) and moves nothing; a path that copies returns no error of its own")
	c.rule("no-panic: every index, slice and conversion of a write is in bounds")
	c.rule("reserved: the append position only grows, by at least the bytes written, in the critical section in which it was read, and stays inside the file")
	c.rule("position: an append copies to, and reports, the position it reserved; an explicit write copies to the position it was given and leaves the append position at or past its end")
	c.rule("opened: a mapped file maps the whole file for shared writing, and starts inside it")
	for _, f := range c.mmapWriters() {
		c.mmapWrite(f)
	}
	c.mmapOpen()
	// no other operation moves the position
	for _, f := range c.methods("mmap", "Mmap") {
		if b, _ := mmapParams(f); b != nil {
			continue
		}
		for _, o := range c.run(c.mmapEngine(), f) {
			for _, ev := range o.S.events {
				if ev.Kind == "store" && ev.Args[0].Op == "fld" && shortKey(own(ev.Args[0])) == mmapT && (ev.Args[0].Aux == "offset" || ev.Args[0].Aux == "maxsize") {
					c.viol("reserved", f, ev, o, "%s is changed", ev.Args[0])
				}
			}
		}
	}
	if !c.P.stable(modPath+"/"+mmapT, "maxsize") {
		c.viol("inside", nil, nil, nil, "the file size is changed after opening (%s)", c.P.unst[modPath+"/"+mmapT+".maxsize"])
	}
}

func (c *Ctx) mmapWrite(f *ssa.Function) {
	e := c.mmapEngine()
	c.checkFaults(e, f, "no-panic", nil)
	bs, pos := mmapParams(f)
	n := mkLen(bs)
	for _, o := range c.run(e, f) {
		if o.Kind == "loop" {
			c.viol("inside", f, nil, o, "the write is repeated in a loop")
			continue
		}
		if o.Kind != "return" {
			c.viol("no-panic", f, nil, o, "it may panic")
			continue
		}
		c.ob("write paths")
		s := o.S
		ar := mmapArith(s)
		empty := ar.le(n, tZero, 0)
		var copies []*Event
		var lastStore, lastLoad *Event
		var reserve *Event // the reading of the position the last store is based on
		moved := false
		for i, ev := range s.events {
			switch {
			case ev.Kind == "copy" && len(ev.Args) == 2:
				if ev.Args[0].root() != nil && ev.Note == "private" {
					break
				}
				copies = append(copies, ev)
			case ev.Kind == "store" && ev.Note != "private" && ev.Args[0].Op == "idx":
				if b, _ := sliceBase(ev.Args[0].Sub[0]); mmField(b, "_mmap") {
					c.viol("inside", f, ev, o, "a byte of the mapping is written one at a time")
				}
			case (ev.Kind == "load" || ev.Kind == "store") && ev.Args[0].Op == "fld" && shortKey(own(ev.Args[0])) == mmapT && ev.Args[0].Aux == "offset":
				if ev.Kind == "load" {
					lastLoad = ev
					if !sameHold(s.events[:i], ev, ev) {
						lastLoad = nil
					}
					break
				}
				c.ob("position changes")
				moved = true
				if lastLoad == nil || !sameHold(s.events, lastLoad, ev) {
					c.viol("reserved", f, ev, o, "the append position is set to %s without having been read in the same critical section", ev.Args[1])
					break
				}
				old := lastLoad.Res
				if !ar.le(old, ev.Args[1], 0) {
					c.viol("reserved", f, ev, o, "the append position may go back from %s to %s", old, ev.Args[1])
				}
				size := fieldNow(e, s, ev.Args[0].Sub[0], "maxsize")
				if !ar.le(ev.Args[1], size, 0) {
					c.viol("reserved", f, ev, o, "the append position %s may be outside the file", ev.Args[1])
				}
				lastStore, reserve = ev, lastLoad
			}
		}
		err := s.nilErr(errOf(f, o))
		if len(copies) == 0 {
			if !empty && err != 0 {
				c.viol("refused", f, nil, o, "nothing is written and no error is reported")
			}
			if moved {
				c.viol("refused", f, nil, o, "nothing is written but the append position moves")
			}
			continue
		}
		if er := errOf(f, o); isMadeErr(er) && !fromFlush(s, er, copies[len(copies)-1]) {
			c.viol("refused", f, nil, o, "an error is reported after the bytes were written")
		}
		if len(copies) > 1 {
			c.viol("inside", f, copies[1], o, "it writes more than once")
		}
		cp := copies[0]
		lo, ln, ok := mmRegion(cp.Args[0])
		if !ok {
			c.viol("inside", f, cp, o, "bytes are copied to %s", cp.Args[0])
			continue
		}
		c.ob("writes")
		size := fieldNow(e, s, paramTerms(f)[0], "maxsize")
		end := mkBin("+", lo, n, nil)
		if !ar.le(tZero, lo, 0) || !ar.le(end, size, 0) {
			c.viol("inside", f, cp, o, "the range from %s of %s bytes may be outside the file", lo, n)
		}
		if cp.Args[1] != bs {
			c.viol("inside", f, cp, o, "%s is written, not the given bytes", cp.Args[1])
		}
		if !ar.le(n, ln, 0) {
			c.viol("inside", f, cp, o, "only %s bytes are written", ln)
		}
		if pos != nil {
			if !ar.same(lo, pos) {
				c.viol("position", f, cp, o, "the bytes are written at %s, not at the given position", lo)
			}
			past := empty
			if lastStore != nil {
				past = past || ar.le(end, lastStore.Args[1], 0)
			} else if lastLoad != nil {
				past = past || ar.le(end, lastLoad.Res, 0)
			}
			if !past {
				c.viol("position", f, cp, o, "the append position may stay before the end of the bytes written")
			}
			continue
		}
		if lastStore == nil {
			if !empty {
				c.viol("reserved", f, cp, o, "bytes are appended without being reserved")
			}
			continue
		}
		if !ar.le(reserve.Res, lo, 0) || !ar.le(end, lastStore.Args[1], 0) {
			c.viol("reserved", f, cp, o, "the bytes written from %s are not those reserved, from %s to %s", lo, reserve.Res, lastStore.Args[1])
		}
		if len(o.Ret) > 0 && !isErr(f.Signature.Results().At(0).Type()) && !ar.same(o.Ret[0], lo) {
			c.viol("position", f, cp, o, "the position reported is %s, the bytes are at %s", o.Ret[0], lo)
		}
	}
}

// sameHold: both events happen while one and the same acquisition of a lock lasts.
func sameHold(evs []*Event, a, b *Event) bool {
	if len(a.Locks) == 0 || len(b.Locks) == 0 {
		return false
	}
	for _, h := range a.Locks {
		if h.Read {
			continue
		}
		for _, g := range b.Locks {
			if g.Ev == h.Ev && g.Key == h.Key {
				return true
			}
		}
	}
	return false
}

// fromFlush: the error was made after the write (to report what the flush said).
func fromFlush(s *State, er *Term, cp *Event) bool {
	return er.Sym != nil && er.Sym.Ev != nil && er.Sym.Ev.N > cp.N
}

func (c *Ctx) mmapOpen() {
	f := c.pub("mmap", "", "NewMMAP")
	if f == nil {
		return
	}
	e := c.engine()
	e.NoPanic = true
	ps := paramTerms(f)
	n := 0
	for _, o := range c.run(e, f) {
		if o.Kind != "return" || o.S.nilErr(errOf(f, o)) != 1 {
			continue
		}
		n++
		c.ob("constructions")
		get := func(name string) *Term {
			st := f.Signature.Results().At(0).Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Struct)
			for i := 0; i < st.NumFields(); i++ {
				if st.Field(i).Name() == name {
					return e.load(o.S, mkFld(o.Ret[0], name, types.NewPointer(st.Field(i).Type())), st.Field(i).Type())
				}
			}
			return mk("gone", name)
		}
		size, off, mm := get("maxsize"), get("offset"), get("_mmap")
		ar := o.S.arith()
		if !strings.Contains(size.String(), "Size(") && !(size.Sym != nil && size.Sym.Ev != nil && strings.HasSuffix(size.Sym.Ev.Fn, "Size")) {
			c.viol("opened", f, nil, o, "the file size is taken to be %s", size)
		}
		if off != ps[1] || !ar.le(tZero, off, 0) || !ar.le(off, size, 0) {
			c.viol("opened", f, nil, o, "the append position starts at %s, which may be outside the file", off)
		}
		ok := false
		if mm.Sym != nil && mm.Sym.Ev != nil {
			ev := mm.Sym.Ev
			rw := c.P.constVal("github.com/edsrzf/mmap-go", "RDWR")
			switch {
			case strings.HasSuffix(ev.Fn, "mmap-go.Map"):
				v, isC := ev.Args[1].intVal()
				ok = ev.Args[0] == ps[0] && isC && v == rw
			case strings.HasSuffix(ev.Fn, "mmap-go.MapRegion"):
				v, isC := ev.Args[2].intVal()
				z, isZ := ev.Args[4].intVal()
				ok = ev.Args[0] == ps[0] && isC && v == rw && isZ && z == 0 && ar.same(ev.Args[1], size)
			}
		}
		if !ok {
			c.viol("opened", f, nil, o, "the file is not mapped whole for shared writing: %s", mm)
		}
		if v := get("file"); v != ps[0] {
			c.viol("opened", f, nil, o, "the file kept is %s", v)
		}
	}
	if n == 0 {
		c.viol("opened", f, nil, nil, "no path opens a file")
	}
}

// constVal is the value of an integer constant of an imported package.
func (p *Prog) constVal(pkg, name string) int64 {
	for _, sp := range p.SSA.AllPackages() {
		if sp.Pkg.Path() == pkg {
			if k, ok := sp.Pkg.Scope().Lookup(name).(*types.Const); ok {
				if v, ok := constant.Int64Val(k.Val()); ok {
					return v
				}
			}
		}
	}
	return -1
}

func c14(c *Ctx) {
	c.rule("flushed: a synchronous write that reports success has, after copying, flushed a range that covers every byte it copied, by the system's synchronous flush")
	c.rule("aligned: where the system flushes whole pages the range starts at a page boundary")
	c.rule("flush-safe: the flush of any range written, an empty one included, indexes only the mapping")
	c.rule("errors: it reports success only if every flush it made succeeded and the write itself did not fail")
	main := c.P
	for _, goos := range []string{"linux", "darwin", "windows", "solaris"} {
		p := c.load(goos)
		if p == nil {
			continue
		}
		c.P = p
		n := 0
		for _, f := range c.mmapWriters() {
			if strings.HasSuffix(f.Name(), "Sync") {
				n++
				c.mmapSync(f, goos)
			}
		}
		if n < 2 {
			c.fail("synchronous writes not found for %s", goos)
		}
	}
	c.P = main
}

func (c *Ctx) mmapSync(f *ssa.Function, goos string) {
	e := c.mmapEngine()
	c.checkFaults(e, f, "flush-safe", nil)
	bs, _ := mmapParams(f)
	n := mkLen(bs)
	for _, o := range c.run(e, f) {
		if o.Kind != "return" {
			continue // C13's business
		}
		s := o.S
		c.ob("paths on " + goos)
		ar := mmapArith(s)
		var cp *Event
		covered, failed := false, ""
		var flushes []*Event
		pending := "" // windows: the view has been flushed, its file's buffers have not
		ret := errOf(f, o)
		for _, ev := range s.events {
			if ev.Kind == "copy" {
				if _, _, ok := mmRegion(ev.Args[0]); ok {
					cp = ev
					covered = false
				}
				continue
			}
			if ev.Kind != "call" && ev.Kind != "pure" {
				continue
			}
			lo, ln, kind := c.flushOf(ev, ar)
			if kind == "" {
				continue
			}
			flushes = append(flushes, ev)
			c.ob("flushes on " + goos)
			res := ev.Res
			if res != nil && res.Op == "tuple" {
				res = res.Sub[len(res.Sub)-1]
			}
			good := s.nilErr(res) == 1 || ret == res
			if !good {
				if v, known := s.factOf(mkBin("==", res, tZero, types.Typ[types.Bool])); known && v {
					good = true
				}
			}
			if !good && s.nilErr(ret) != 0 {
				failed = ev.Fn
			}
			switch kind {
			case "buffers":
				if pending == "view" {
					covered = true
				}
			case "view", "range":
				if cp == nil {
					continue
				}
				at, _, _ := mmRegion(cp.Args[0])
				if ar.le(lo, at, 0) && ar.le(mkBin("+", at, n, nil), mkBin("+", lo, ln, nil), 0) {
					if kind == "view" {
						pending = "view"
					} else {
						covered = true
					}
				} else {
					c.sample("%s: %s %s+%s does not cover %s+%s", goos, ev.Fn, lo, ln, at, n)
				}
				if kind == "range" && !aligned(lo, ar) {
					c.viol("aligned", f, ev, o, "on %s the range flushed starts at %s, which may not be a page boundary", goos, lo)
				}
			case "async":
				c.viol("flushed", f, ev, o, "on %s the flush does not wait", goos)
			}
		}
		if s.nilErr(ret) == 0 {
			continue
		}
		// success, or whatever the last flush says
		if failed != "" {
			c.viol("errors", f, nil, o, "on %s success is reported though %s may have failed", goos, failed)
		}
		if ret != tNil && ret != nil {
			from := false
			for _, ev := range flushes {
				from = from || ev.Res == ret || ev.Res != nil && ev.Res.Op == "tuple" && ev.Res.Sub[len(ev.Res.Sub)-1] == ret
			}
			if !from {
				c.viol("errors", f, nil, o, "on %s the error returned is %s", goos, ret)
			}
		}
		if !ar.le(n, tZero, 0) && !covered {
			c.viol("flushed", f, cp, o, "on %s success is reported without the bytes written having been flushed", goos)
		}
	}
}

// flushOf reads a call as a flush of a range of the mapping.
func (c *Ctx) flushOf(ev *Event, ar *Arith) (lo, ln *Term, kind string) {
	addr := func(t *Term) *Term { // position in the mapping
		for t != nil && t.Op == "conv" && len(t.Sub) == 1 {
			t = t.Sub[0]
		}
		if t != nil && t.Op == "idx" {
			b, o := sliceBase(t.Sub[0])
			if mmField(b, "_mmap") {
				return mkBin("+", o, t.Sub[1], nil)
			}
		}
		return nil
	}
	flags := func(t *Term) string {
		v, ok := t.intVal()
		syn := c.P.constVal("golang.org/x/sys/unix", "MS_SYNC")
		asy := c.P.constVal("golang.org/x/sys/unix", "MS_ASYNC")
		if !ok || v&asy != 0 || syn > 0 && v&syn == 0 {
			return "async"
		}
		return "range"
	}
	switch {
	case strings.HasPrefix(ev.Fn, "golang.org/x/sys/unix.Syscall") || strings.HasPrefix(ev.Fn, "syscall.Syscall"):
		if nr, ok := ev.Args[0].intVal(); !ok || nr != c.P.constVal("golang.org/x/sys/unix", "SYS_MSYNC") {
			return
		}
		lo = addr(ev.Args[1])
		if lo == nil {
			return nil, nil, ""
		}
		return lo, ev.Args[2], flags(ev.Args[3])
	case ev.Fn == "golang.org/x/sys/unix.Msync":
		a, n, ok := mmRegion(ev.Args[0])
		if !ok {
			return
		}
		return a, n, flags(ev.Args[1])
	case strings.HasSuffix(ev.Fn, "mmap-go.MMap).Flush"):
		a, n, ok := mmRegion(ev.Args[0])
		if !ok {
			return
		}
		return a, n, "range"
	case ev.Fn == "golang.org/x/sys/windows.FlushViewOfFile":
		lo = addr(ev.Args[0])
		if lo == nil {
			return nil, nil, ""
		}
		return lo, ev.Args[1], "view"
	case ev.Fn == "golang.org/x/sys/windows.FlushFileBuffers":
		if ev.Args[0].mentions(paramTerms(ev.Stack[0])[0]) {
			return nil, nil, "buffers"
		}
	}
	return
}

// aligned: the position is a multiple of the page size.
func aligned(lo *Term, ar *Arith) bool {
	page := func(t *Term) bool {
		t = stripConv(t)
		return t.Op == "app" && strings.HasSuffix(t.Aux, "etpagesize")
	}
	lo = stripConv(lo)
	if n, ok := lo.intVal(); ok && n == 0 {
		return true
	}
	if lo.Op == "bin" {
		x, y := lo.Sub[0], lo.Sub[1]
		switch lo.Aux {
		case "*":
			return page(x) || page(y)
		case "-":
			return y.Op == "bin" && y.Aux == "%" && y.Sub[0] == x && page(y.Sub[1])
		case "&^":
			y = stripConv(y)
			if y.Op == "bin" && y.Aux == "+" {
				for i := range y.Sub {
					if n, ok := y.Sub[i].intVal(); ok && n == -1 && page(y.Sub[1-i]) {
						return true
					}
				}
			}
		}
	}
	return false
}

func init() {
	checks["C13"] = checkDef{c13, "path-sensitive analysis in a linear domain over Go's wrapping integers, with the file's invariant as induction hypothesis"}
	checks["C14"] = checkDef{c14, "path-sensitive event-order and range-coverage analysis in a linear domain, for the linux, darwin, windows and solaris builds"}
}
