package main

import (
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// ---------- C21: a failure is never reported as success ----------

// errResult is the index of the error a function returns, or -1.
func errResult(sig *types.Signature) int {
	if n := sig.Results().Len(); n > 0 && isErr(sig.Results().At(n-1).Type()) {
		return n - 1
	}
	return -1
}

// callErr: the error a call returned on this path.
func callErr(ev *Event) *Term {
	switch ev.Kind {
	case "call", "repocall", "dyncall", "pure":
	default:
		return nil
	}
	if hasPre(ev.Fn, "errors.", "fmt.Errorf") {
		return nil
	}
	if x := lastOf(ev); x != nil && x.Typ != nil && isErr(x.Typ) {
		return x
	}
	return nil
}

func c21(c *Ctx) {
	if c.load("") == nil {
		return
	}
	c.P = c.progs[""]
	thisProg = c.P
	c.rule("reported: on every path of a function that can return an error, an error returned by an operation it used is known to be nil there, or the function returns an error; in a loop, an error that is not returned is carried on (in image, which falls back to the picture it has: no error goes unseen)")
	c.rule("recovered: after a panic was recovered the function returns an error")
	n := 0
	drain := c.deliverers()
	rec := c.P.mayReach(func(in ssa.Instruction) bool {
		ci, ok := in.(ssa.CallInstruction)
		if !ok {
			return false
		}
		b, ok := ci.Common().Value.(*ssa.Builtin)
		return ok && b.Name() == "recover"
	})
	for _, f := range c.P.Funcs {
		if f.Parent() != nil || f.Object() == nil || len(f.Blocks) == 0 || f.Synthetic != "" {
			continue
		}
		if rec[f] {
			c.recoversInto(f)
		}
		if errResult(f.Signature) < 0 {
			continue
		}
		n++
		if p := pkgOf(f); p == "image" {
			c.errorsLookedAt(f)
			continue
		}
		c.errorsOf(f, drain, rec[f])
	}
	if n == 0 {
		c.fail("no function returns an error")
	}
}

// src is an error a path has met: what a call returned, or what a loop carries from one iteration to the next.
type src struct {
	t  *Term
	ev *Event
	at int
	ph string // the loop variable, for an error carried by a loop
}

type errRun struct {
	c     *Ctx
	f     *ssa.Function
	e     *Engine
	may   map[string]bool // loop variables that may carry an error
	cand  []func()
	seen  map[string]bool
	drain map[*ssa.Function]bool
}

func (c *Ctx) errorsOf(f *ssa.Function, drain map[*ssa.Function]bool, rec bool) {
	e := c.engine()
	e.ExtPanics, e.NoPanic = rec, !rec
	e.Opaque = func(g *ssa.Function) bool { return g.Object() != nil && errResult(g.Signature) >= 0 }
	r := &errRun{c: c, f: f, e: e, may: map[string]bool{}, seen: map[string]bool{}, drain: drain}
	e.OnLoopEnd = func(e *Engine, s *State, li *loopInfo, h *ssa.BasicBlock) {
		for k, sy := range loopErrs(li) {
			if v := sy.Sym.Next; v != sy && s.nilErr(v) != 1 {
				r.may[k] = true
			}
		}
		o := &Outcome{Kind: "loop", S: s}
		from := 0
		for i, ev := range s.events {
			if ev.Loop != nil && ev.Loop.id == li.id {
				from = i
			}
		}
		for _, x := range r.sources(o) {
			r.c.ob("errors followed")
			if x.at < from || s.nilErr(x.t) == 1 || r.carried(s, li, x.t) || r.harmless(o, x) {
				continue
			}
			r.alarm(x, o)
		}
	}
	for _, o := range c.run(e, f) {
		if o.Kind != "return" {
			continue
		}
		s := o.S
		er := o.Ret[len(o.Ret)-1]
		failed := isMadeErr(er) || s.nilErr(er) == 0
		for _, ev := range s.events {
			if ev.Kind != "recover" {
				continue
			}
			c.ob("recovered panics reported")
			if !failed {
				c.viol("recovered", f, ev, o, "a panic is recovered and no error is returned")
			}
			break
		}
		for _, x := range r.sources(o) {
			c.ob("errors followed")
			if failed || x.t == er || er.mentions(x.t) || s.nilErr(x.t) == 1 || r.harmless(o, x) {
				continue
			}
			r.alarm(x, o)
		}
	}
	for _, g := range r.cand {
		g()
	}
}

// recoversInto: a function that is deferred to turn a panic into an error leaves an error where it was told to.
func (c *Ctx) recoversInto(f *ssa.Function) {
	var into *Term
	for i, p := range f.Params {
		if isErrPtr(p.Type()) {
			into = paramTerms(f)[i]
		}
	}
	direct := false
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			if ci, ok := in.(*ssa.Call); ok {
				if b, ok := ci.Call.Value.(*ssa.Builtin); ok && b.Name() == "recover" {
					direct = true
				}
			}
		}
	}
	if into == nil || !direct {
		return
	}
	e := c.engine()
	e.NoPanic, e.Recovering = true, true
	for _, o := range c.run(e, f) {
		if o.Kind != "return" || o.S.nilErr(into) == 1 {
			continue
		}
		c.ob("recovered panics reported")
		v := e.load(o.S, into, into.Typ.Underlying().(*types.Pointer).Elem())
		if !isMadeErr(v) && o.S.nilErr(v) != 0 {
			c.viol("recovered", f, lastEv(o), o, "it recovers a panic and may leave no error")
		}
	}
}

func lastEv(o *Outcome) *Event {
	if n := len(o.S.events); n > 0 {
		return o.S.events[n-1]
	}
	return nil
}

func (r *errRun) alarm(x src, o *Outcome) {
	known := o.S.nilErr(x.t) == 0
	so := &Outcome{Kind: o.Kind, S: o.S, Ret: o.Ret}
	r.cand = append(r.cand, func() {
		k := x.ev.Fn + r.c.P.pos(x.ev.Pos)
		if x.ph != "" && !r.may[x.ph] || r.seen[k] {
			return
		}
		r.seen[k] = true
		what := "may be lost"
		if known {
			what = "is known and still not returned"
		}
		from := short(x.ev.Fn)
		if x.ph != "" {
			from = "an earlier round of the loop"
		}
		r.c.viol("reported", r.f, x.ev, so, "an error from %s %s", from, what)
	})
}

// loopErrs are the errors a loop carries: the symbols that stand for them after the first iteration.
func loopErrs(li *loopInfo) map[string]*Term {
	m := map[string]*Term{}
	for ph, sy := range li.syms {
		if sy != nil && sy.Sym != nil && isErr(ph.Type()) {
			m[ph.Parent().String()+"."+ph.Name()] = sy
		}
	}
	for a, sy := range li.cells {
		if sy.Sym == nil || a.root().Op != "obj" {
			continue // what is put in other people's records is told to them
		}
		if t := sy.Typ; t != nil && isErr(t) || a.Typ != nil && isErrPtr(a.Typ) {
			m["cell "+a.String()] = sy
		}
	}
	return m
}

func isChanPtr(t types.Type) bool {
	if t == nil {
		return false
	}
	p, ok := t.Underlying().(*types.Pointer)
	if !ok {
		return false
	}
	_, ok = p.Elem().Underlying().(*types.Chan)
	return ok
}

func isErrPtr(t types.Type) bool {
	p, ok := t.Underlying().(*types.Pointer)
	return ok && isErr(p.Elem())
}

// sources are the errors the path has met and that are still its own to report.
func (r *errRun) sources(o *Outcome) (xs []src) {
	s := o.S
	for i, ev := range s.events {
		if ev.Loop != nil {
			var next []src
			le := loopErrs(ev.Loop)
			for _, x := range xs {
				kept := false
				for _, sy := range le {
					kept = kept || sy.Sym.First == x.t || sy.Sym.First != nil && s.nilErr(sy.Sym.First) == 0
				}
				if !kept {
					next = append(next, x)
				}
			}
			xs = next
			for k, sy := range le {
				if sy.Sym.First != nil && s.nilErr(sy.Sym.First) != 1 {
					r.may[k] = true
				}
				xs = append(xs, src{sy, ev, i, k})
			}
			continue
		}
		if x := callErr(ev); x != nil {
			xs = append(xs, src{x, ev, i, ""})
		}
	}
	return
}

// carried: the next iteration of the loop starts with the error, or with another.
func (r *errRun) carried(s *State, li *loopInfo, x *Term) bool {
	for _, sy := range loopErrs(li) {
		if v := sy.Sym.Next; v == x || v != nil && s.nilErr(v) == 0 {
			return true
		}
	}
	return false
}

// harmless: an error that cannot change what was promised.
func (r *errRun) harmless(o *Outcome, x src) bool {
	s, ev := o.S, x.ev
	if x.ph != "" {
		return eofKnown(s, x.t)
	}
	m := ev.Fn[strings.LastIndex(ev.Fn, ".")+1:]
	switch {
	case eofKnown(s, x.t):
		return true
	case ev.Uses != nil && r.drain[ev.Uses] && r.othersData(o, x):
		return true // it is delivered to those whose data it concerns
	case neverFails(s, ev):
		return true
	}
	switch m {
	case "Close", "Unmap", "Remove", "RemoveAll":
		// giving something back: what was written through it must have been seen to arrive
		if len(ev.Args) == 0 || ev.Kind == "dyncall" || r.ownResource(o, x) {
			return false
		}
		return !r.written(o, x.at, ev.Args[0])
	}
	if s.nilErr(x.t) != 0 {
		return r.classified(s, x.t)
	}
	if r.classified(s, x.t) {
		return true
	}
	for _, y := range s.events[x.at+1:] {
		if e2 := callErr(y); e2 != nil && y.Fn == ev.Fn && s.nilErr(e2) == 1 && sameArgs(y, ev) {
			return true // tried again, with success
		}
	}
	// data that could not be converted is used as it is
	if len(ev.Args) > 0 && ev.Res.Op == "tuple" && len(ev.Res.Sub) == 2 && isByteResult2(ev.Res.Sub[0].Typ) {
		in := ev.Args[len(ev.Args)-1]
		if in.Typ == nil || !isByteSlice(in.Typ) {
			in = ev.Args[0]
		}
		for _, v := range o.Ret {
			if v == in {
				return true
			}
		}
		for _, y := range s.events[x.at+1:] {
			for _, a := range y.Args {
				if a == in && (y.Kind == "call" || y.Kind == "repocall") {
					return true
				}
			}
		}
	}
	return false
}

// othersData: the queue was emptied on behalf of others: under a lock that was merely tried, after the function's own
// work was done; or the outcome of the function's own data is taken from its record.
func (r *errRun) othersData(o *Outcome, x src) bool {
	if n := len(o.Ret); n > 0 {
		rec := map[*Term]bool{}
		for i, y := range o.S.events {
			if y.Kind != "load" || y.Args[0].Op != "fld" {
				continue
			}
			at := y.Args[0].Sub[0]
			if isChanPtr(y.Args[0].Typ) {
				rec[at] = true // a record with a channel on which its outcome is awaited
			}
			if i > x.at && rec[at] && y.Res == o.Ret[n-1] && isErrPtr(y.Args[0].Typ) {
				return true
			}
		}
	}
	for _, h := range x.ev.Locks {
		if !h.Try {
			continue
		}
		for _, y := range o.S.events[:x.at] {
			if (y.Kind == "unlock" || y.Kind == "runlock") && len(y.Args) > 0 && y.Args[0] == h.Key {
				return true
			}
		}
	}
	if o.Kind != "loop" {
		return false
	}
	return len(x.ev.Locks) > 0 && x.ev.Locks[len(x.ev.Locks)-1].Try || r.c.triesLock(x.ev.Uses)
}

// triesLock: the function does its work under a lock it merely tries.
func (c *Ctx) triesLock(f *ssa.Function) bool {
	if f == nil {
		return false
	}
	try, lock := false, false
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			if ci, ok := in.(ssa.CallInstruction); ok {
				switch n, _, _ := extName(ci.Common()); n {
				case "(*sync.Mutex).TryLock", "(*sync.RWMutex).TryLock":
					try = true
				case "(*sync.Mutex).Lock", "(*sync.RWMutex).Lock":
					lock = true
				}
			}
		}
	}
	return try && !lock
}

// ownResource: what is given up belongs to the receiver, and the operation does not put another in its place.
func (r *errRun) ownResource(o *Outcome, x src) bool {
	res := stripConv(x.ev.Args[0])
	if res != nil && r.f.Signature.Recv() != nil && res == paramTerms(r.f)[0] {
		return true
	}
	if res != nil && res.Op == "fld" {
		res = mk("init", "", res)
	}
	if res == nil || res.Op != "init" || r.f.Signature.Recv() == nil {
		return false
	}
	cell := res.Sub[0]
	if !cell.mentions(paramTerms(r.f)[0]) {
		return false
	}
	for _, y := range o.S.events[x.at:] {
		if y.Kind == "store" && len(y.Args) > 0 && y.Args[0] == cell {
			return false
		}
	}
	return true
}

func isByteResult2(t types.Type) bool { return t != nil && isByteResult(t) }

func sameArgs(a, b *Event) bool {
	if len(a.Args) != len(b.Args) {
		return false
	}
	for i := range a.Args {
		if a.Args[i] != b.Args[i] {
			return false
		}
	}
	return true
}

// classified: the error was asked about by a predicate that names what it means, and the answer was yes.
func (r *errRun) classified(s *State, x *Term) bool {
	for _, ft := range s.facts {
		t := ft.T
		if !ft.Truth {
			continue
		}
		if t.Sym != nil && t.Sym.Ev != nil && len(t.Sym.Ev.Args) > 0 && t.Sym.Ev.Args[0] == x {
			switch t.Sym.Ev.Fn {
			case "os.IsExist", "os.IsNotExist":
				return true
			}
		}
		if t.Op == "app" && len(t.Sub) > 0 && t.Sub[0] == x {
			switch t.Aux {
			case "os.IsExist", "os.IsNotExist":
				return true
			case "errors.Is":
				return strings.Contains(t.Sub[1].String(), "Exist")
			}
		}
	}
	return false
}

// neverFails: operations documented never to return an error.
func neverFails(s *State, ev *Event) bool {
	fn := ev.Fn
	m := fn[strings.LastIndex(fn, ".")+1:]
	switch {
	case hasPre(fn, "(*bytes.Buffer).Write", "(*strings.Builder).Write"):
		return true
	case strings.HasPrefix(fn, "invoke hash.Hash") && m == "Write":
		return true
	case strings.HasPrefix(fn, "(*hash/maphash"), hasPre(fn, "fmt.Print"):
		return true
	}
	if len(ev.Args) > 0 {
		a := ev.Args[0]
		if hasPre(fn, "fmt.Fprint", "io.WriteString") && (isBuffer(a) || strings.HasPrefix(typeName(a.Typ), "hash.")) {
			return true
		}
		if m == "Write" || m == "Sum" {
			if x := stripConv(a); x != nil && x.Typ != nil && hasPre(typeName(x.Typ), "hash.Hash", "*bytes.Buffer") {
				return true
			}
		}
		// a compressor that writes into memory
		if a.Op == "obj" && strings.HasPrefix(a.Obj.Kind, "zip:") {
			if d := s.mem[mkFld(a, "#dst", nil)]; d != nil && isBuffer(d) {
				return true
			}
		}
	}
	return false
}

func typeName(t types.Type) string {
	if t == nil {
		return ""
	}
	return t.String()
}

// written: data went through x before it was closed, or may have.
func (r *errRun) written(o *Outcome, at int, x *Term) bool {
	for _, ev := range o.S.events[:at] {
		if ev.Kind != "call" && ev.Kind != "repocall" {
			continue
		}
		m := ev.Fn[strings.LastIndex(ev.Fn, ".")+1:]
		if len(ev.Args) > 0 && ev.Args[0] == x && hasPre(m, "Write", "ReadFrom", "Encode", "Copy", "Fprint", "Truncate") && m != "EncodeAll" {
			return true
		}
	}
	return false
}

// errorsLookedAt: conversion of pictures falls back to the picture it has; what is asked here is that no error goes
// unseen: each is compared, passed on or returned.
func (c *Ctx) errorsLookedAt(f *ssa.Function) {
	fns := []*ssa.Function{f}
	for i := 0; i < len(fns); i++ {
		fns = append(fns, fns[i].AnonFuncs...)
	}
	for _, g := range fns {
		for _, b := range g.Blocks {
			for _, in := range b.Instrs {
				ci, ok := in.(ssa.CallInstruction)
				if !ok {
					continue
				}
				k := errResult(ci.Common().Signature())
				if k < 0 {
					continue
				}
				name, _, args := extName(ci.Common())
				if h := ci.Common().StaticCallee(); h != nil {
					name = fnName(h)
				}
				m := name[strings.LastIndex(name, ".")+1:]
				if hasPre(name, "errors.", "fmt.Errorf", "fmt.Print", "(*bytes.Buffer).Write", "(*strings.Builder).Write") || hasPre(m, "Close", "Remove") {
					continue
				}
				if hasPre(name, "fmt.Fprint", "io.WriteString") && len(args) > 0 && strings.Contains(typeName(args[0].Type()), "Buffer") {
					continue
				}
				c.ob("errors looked at")
				seen := false
				if call, ok := in.(*ssa.Call); ok {
					var v ssa.Value = call
					if k > 0 {
						v = nil
						for _, r := range *call.Referrers() {
							if x, ok := r.(*ssa.Extract); ok && x.Index == k {
								v = x
							}
						}
					}
					if v != nil {
						for _, r := range *v.Referrers() {
							if _, dbg := r.(*ssa.DebugRef); !dbg {
								seen = true
							}
						}
					}
				}
				if !seen {
					c.viol("reported", f, &Event{Kind: "call", Fn: name, Instr: in, Pos: in.Pos()}, nil, "an error from %s is not looked at", short(name))
				}
			}
		}
	}
}

// deliverers: functions that pass the error they return on to each of those waiting for the outcome: records taken
// from a channel (or collected from there) get it, and their own channel is closed.
func (c *Ctx) deliverers() map[*ssa.Function]bool {
	r := map[*ssa.Function]bool{}
	for _, f := range c.P.Funcs {
		if errResult(f.Signature) < 0 || f.Parent() != nil {
			continue
		}
		stores, closes, recvs := false, false, false
		seen := map[*ssa.Function]bool{}
		var visit func(g *ssa.Function)
		visit = func(g *ssa.Function) {
			if g == nil || seen[g] {
				return
			}
			seen[g] = true
			for _, b := range g.Blocks {
				for _, in := range b.Instrs {
					switch x := in.(type) {
					case *ssa.Store:
						if fa, ok := x.Addr.(*ssa.FieldAddr); ok && isErrPtr(fa.Type()) && !isErrConst(x.Val) {
							stores = true
						}
					case *ssa.UnOp:
						recvs = recvs || x.Op == token.ARROW
					}
					if ci, ok := in.(ssa.CallInstruction); ok {
						if bi, ok := ci.Common().Value.(*ssa.Builtin); ok && bi.Name() == "close" {
							closes = true
						}
						if h := ci.Common().StaticCallee(); h != nil && pkgOf(h) == pkgOf(f) {
							visit(c.P.fnBody(h))
						}
					}
					if mc, ok := in.(*ssa.MakeClosure); ok {
						visit(mc.Fn.(*ssa.Function))
					}
				}
			}
		}
		visit(f)
		if stores && closes && recvs {
			r[f] = true
		}
	}
	return r
}

func isErrConst(v ssa.Value) bool {
	k, ok := v.(*ssa.Const)
	return ok && k.Value == nil
}

func init() {
	checks["C21"] = checkDef{c21, "path-sensitive error-flow analysis of every function that can return an error"}
}
