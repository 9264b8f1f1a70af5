package main

import (
	"fmt"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// ---------- C19: malformed input never panics ----------

// madeBy: t is the first result of a call that also returns an error; that error.
func madeBy(t *Term) (ev *Event, err *Term) {
	for t != nil && t.Op == "conv" && len(t.Sub) == 1 {
		t = t.Sub[0]
	}
	if t == nil || t.Sym == nil || t.Sym.Kind != "call" || t.Sym.Ev == nil {
		return nil, nil
	}
	x := lastOf(t.Sym.Ev)
	if x == nil || x == t || x.Typ == nil || !isErr(x.Typ) {
		return t.Sym.Ev, nil
	}
	return t.Sym.Ev, x
}

func pointerLike(t types.Type) bool {
	if t == nil {
		return false
	}
	switch t.Underlying().(type) {
	case *types.Pointer, *types.Interface:
		return !isErr(t)
	}
	return false
}

// mayBeNil: a value a call returned that may be nil here, because the call may have failed.
func (e *Engine) mayBeNil(s *State, t *Term) bool {
	if t == nil || !pointerLike(t.Typ) {
		return t == tNil
	}
	ev, er := madeBy(t)
	if ev == nil {
		return false
	}
	if e.decide(s, mkBin("==", t, tNil, nil)) == 0 {
		return false
	}
	if er != nil {
		return s.nilErr(er) != 1
	}
	return ev.Fn == "encoding/pem.Decode"
}

// callFault says why a call of code outside the repository may panic, or "".
func (e *Engine) callFault(s *State, fr *Frame, in ssa.Instruction) string {
	call, ok := in.(ssa.CallInstruction)
	if !ok {
		return ""
	}
	if _, isDef := in.(*ssa.Defer); isDef {
		return ""
	}
	c := call.Common()
	var args []*Term
	if c.IsInvoke() {
		args = append(args, e.val(s, c.Value))
	}
	for _, a := range c.Args {
		args = append(args, e.val(s, a))
	}
	name := ""
	switch {
	case c.IsInvoke():
		name = "invoke " + typeKey(c.Value.Type()) + "." + c.Method.Name()
		if args[0] == tNil {
			return "a method of a nil interface is called"
		}
	case c.StaticCallee() != nil:
		f := c.StaticCallee()
		if f.Blocks != nil && isRepoFn(f) {
			return ""
		}
		name = f.String()
	default:
		return ""
	}
	m := name[strings.LastIndex(name, ".")+1:]
	isMethod := c.IsInvoke() || c.Signature().Recv() != nil
	ar := e.arith(s)
	need := func(i int, n int64) string {
		if i < len(args) && !ar.le(tInt(n), mkLen(args[i]), 0) {
			return fmt.Sprintf("%s needs %d bytes and may get fewer", short(name), n)
		}
		return ""
	}
	for i, a := range args {
		if e.mayBeNil(s, a) && (i == 0 && isMethod || strings.HasPrefix(name, "crypto/") || strings.HasPrefix(name, "time.") || strings.HasPrefix(name, "io.") || strings.HasPrefix(name, "encoding/")) {
			return short(name) + " is given something that may be nil"
		}
	}
	switch {
	case m == "CryptBlocks" && len(args) == 3:
		if why := e.wholeBlocks(s, args); why != "" {
			return why
		}
	case hasPre(name, "crypto/cipher.NewCBC") && len(args) == 2:
		if !ar.same(mkLen(args[1]), tInt(16)) {
			return "the IV may not have the length of a block"
		}
	case name == "encoding/hex.Decode":
		if !ar.le(mkLen(args[1]), mkBin("*", tInt(2), mkLen(args[0]), nil), 1) {
			return "the destination of hex.Decode may be too short"
		}
	case name == "encoding/hex.Encode":
		if !ar.le(mkBin("*", tInt(2), mkLen(args[1]), nil), mkLen(args[0]), 0) {
			return "the destination of hex.Encode may be too short"
		}
	case strings.HasPrefix(name, "(encoding/binary."):
		n := map[string]int64{"Uint16": 2, "Uint32": 4, "Uint64": 8, "PutUint16": 2, "PutUint32": 4, "PutUint64": 8}[m]
		if n > 0 {
			return need(1, n)
		}
	case name == "strings.Repeat" || name == "bytes.Repeat":
		if !ar.le(tZero, args[1], 0) {
			return short(name) + " with a count that may be negative"
		}
	case strings.HasPrefix(name, "regexp.MustCompile"):
		if !args[0].isConst() {
			return "a pattern that may not compile"
		}
	case m == "Intn" || m == "Int63n" || m == "Int31n" || m == "IntN" || m == "N":
		if strings.Contains(name, "math/rand") && !ar.le(tInt(1), args[len(args)-1], 0) {
			return short(name) + " of a number that may not be positive"
		}
	}
	return ""
}

func isRepoFn(f *ssa.Function) bool {
	if o := f.Origin(); o != nil {
		f = o
	}
	p := f
	for p.Parent() != nil {
		p = p.Parent()
	}
	if p.Pkg == nil {
		return f.Blocks != nil && f.Synthetic != ""
	}
	return isRepoKey(p.Pkg.Pkg.Path())
}

// wholeBlocks: is what a block mode works on a whole number of blocks, with room for the result?
func (e *Engine) wholeBlocks(s *State, args []*Term) string {
	A := e.arith(s)
	dst, src := args[1], args[2]
	n := mkLen(src)
	if !A.le(n, mkLen(dst), 0) {
		return "the destination of CryptBlocks may be too short"
	}
	if k, ok := n.intVal(); ok && k%16 == 0 {
		return ""
	}
	rem := mkBin("%", n, tInt(16), nil)
	if t, ok := s.factOf(mkBin("==", tZero, rem, nil)); ok && t {
		return ""
	}
	if A.same(rem, tZero) {
		return ""
	}
	// l + (16 - l % 16)
	var bad bool = true
	n.walk(func(x *Term) bool {
		if x.Op == "bin" && (x.Aux == "%" || x.Aux == "&") && len(x.Sub) == 2 {
			l := x.Sub[0]
			if l.isConst() {
				l = x.Sub[1]
			}
			if k, ok := x.Sub[1].intVal(); ok && (x.Aux == "%" && k == 16 || x.Aux == "&" && k == 15) {
				if A.same(mkBin("+", n, x, nil), mkBin("+", l, tInt(16), nil)) || A.same(mkBin("+", n, x, nil), l) {
					bad = false
				}
			}
		}
		return true
	})
	if bad {
		return "CryptBlocks may get " + n.String() + " bytes, not a whole number of blocks"
	}
	return ""
}

func takesBytes(f *ssa.Function) bool {
	for _, p := range f.Params {
		t := p.Type()
		if isByteSlice(t) || isStringy(t) {
			return true
		}
		if sl, ok := t.Underlying().(*types.Slice); ok && (isByteSlice(sl.Elem()) || isStringy(sl.Elem())) {
			return true
		}
	}
	return false
}

func c19(c *Ctx) {
	if c.load("") == nil {
		return
	}
	c.P = c.progs[""]
	thisProg = c.P
	c.rule("no-panic: on every path of every operation that takes bytes or text, every index and slice is within bounds, no divisor is zero, no type assertion can fail, nothing that may be nil is used, and what the packages outside need of their arguments holds - or the panic is recovered")
	c.rule("reported: an operation that recovers from a panic and can return an error returns one")
	n := 0
	// what changes the account store takes names, not data to be decoded
	files := c.P.mayReach(func(in ssa.Instruction) bool {
		call, ok := in.(ssa.CallInstruction)
		if !ok || call.Common().StaticCallee() == nil {
			return false
		}
		switch call.Common().StaticCallee().String() {
		case "os.WriteFile", "os.OpenFile", "os.Create", "os.CreateTemp", "os.Rename", "os.Mkdir", "os.MkdirAll":
			return true
		}
		return false
	})
	for _, f := range c.entryPoints("util", "base58", "uuid", "compress", "keystore", "buffer", "thrift") {
		if !takesBytes(f) || files[f] {
			continue
		}
		n++
		c.noPanic(f)
	}
	if n == 0 {
		c.fail("no operation takes bytes")
	}
}

func (c *Ctx) noPanic(f *ssa.Function) {
	e := c.engine()
	e.NoPanic, e.Faults, e.NilFaults = true, true, true
	seen := map[ssa.Instruction]bool{}
	e.Before = func(e *Engine, s *State, fr *Frame, in ssa.Instruction) {
		switch in.(type) {
		case *ssa.IndexAddr, *ssa.Index, *ssa.Slice, *ssa.MakeSlice, *ssa.Lookup, *ssa.TypeAssert, *ssa.FieldAddr, *ssa.Call, *ssa.SliceToArrayPointer:
			c.ob("instructions shown safe")
		}
		why := e.allFaults(s, fr, in)
		if why == "" || seen[in] || s.anyDefer() {
			return
		}
		seen[in] = true
		ev := s.event(e, "fault", why, nil, in)
		c.viol("no-panic", f, ev, &Outcome{Kind: "panic", S: s}, "it may panic: %s", why)
	}
	for _, o := range c.run(e, f) {
		if o.Kind == "panic" && o.P != nil {
			if o.P.Ev != nil && o.P.Ev.Instr != nil && seen[o.P.Ev.Instr] {
				continue
			}
			if o.P.Ev != nil && o.P.Ev.Instr != nil {
				seen[o.P.Ev.Instr] = true
			}
			c.viol("no-panic", f, o.P.Ev, o, "it panics: %s", o.P.Kind)
			continue
		}
		if o.Kind != "return" || len(o.Ret) == 0 {
			continue
		}
		er := o.Ret[len(o.Ret)-1]
		if !isErr(f.Signature.Results().At(len(o.Ret) - 1).Type()) {
			continue
		}
		for _, ev := range o.S.events {
			if ev.Kind == "recover" {
				c.ob("recovered panics reported")
				if !isMadeErr(er) && o.S.nilErr(er) != 0 {
					c.viol("reported", f, ev, o, "a panic is recovered and no error is returned")
				}
				break
			}
		}
	}
}

func init() {
	checks["C19"] = checkDef{c19, "path-sensitive bounds, nilness and precondition analysis (linear arithmetic over lengths) of every operation that takes bytes or text; recovered panics are followed to the error they must become"}
}
