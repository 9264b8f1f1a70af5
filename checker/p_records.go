package main

import (
	"fmt"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// ---------- C29: the persisted records ----------

// Thrift's type numbers, by the protocol operation that writes or reads a value of the type.
var thriftType = map[string]int64{"Bool": 2, "Byte": 3, "I8": 3, "Double": 4, "I16": 6, "I32": 8, "I64": 10, "String": 11, "Binary": 11, "UUID": 16}

const (
	tStop   = 0
	tStruct = 12
	tMapT   = 13
	tSetT   = 14
	tListT  = 15
)

type wireField struct {
	field  string
	id     int64
	typ    int64
	kt, vt int64 // of a map
	always bool
}

type recCheck struct {
	c    *Ctx
	recs map[*types.Named]map[string]*wireField // by field
	typs []*types.Named
}

// wireOp: the protocol operation the event is, or the writer or reader of another record.
func (w *recCheck) wireOp(ev *Event) (op string, rec *types.Named) {
	switch ev.Kind {
	case "call":
		if i := strings.LastIndex(ev.Fn, "."); i >= 0 && hasPre(ev.Fn, "invoke ") && strings.HasSuffix(ev.Fn[:i], "TProtocol") {
			return ev.Fn[i+1:], nil
		}
		if i := strings.LastIndex(ev.Fn, "."); i >= 0 && strings.Contains(ev.Fn[:i], "Protocol)") && len(ev.Args) > 1 {
			return ev.Fn[i+1:], nil
		}
	case "repocall":
		if ev.Uses != nil {
			if n := recvNamed(ev.Uses); n != nil && w.recs[n] != nil && (ev.Uses.Name() == "Read" || ev.Uses.Name() == "Write") {
				return ev.Uses.Name() + "Record", n
			}
		}
	}
	return "", nil
}

func errOfEv(ev *Event) *Term {
	if ev.Res == nil {
		return nil
	}
	if ev.Res.Op == "tuple" {
		return ev.Res.Sub[len(ev.Res.Sub)-1]
	}
	return ev.Res
}

func (w *recCheck) engine(n *types.Named) *Engine {
	e := w.c.engine()
	e.NoPanic = true
	e.Opaque = func(g *ssa.Function) bool {
		if !isRepoFn(g) {
			return false
		}
		r := recvNamed(g)
		return pkgOf(g) != "keystore" || r != nil && r != n && w.recs[r] != nil && (g.Name() == "Read" || g.Name() == "Write")
	}
	e.OnResult = func(e *Engine, s *State, ev *Event) {
		if ev.Kind == "call" && (strings.HasSuffix(ev.Fn, ".PrependError") || strings.Contains(ev.Fn, ".NewTProtocolException")) {
			s.know(mkBin("==", tNil, ev.Res, nil), false)
		}
	}
	return e
}

func c29(c *Ctx) {
	if c.load("") == nil {
		return
	}
	c.P = c.progs[""]
	thisProg = c.P
	c.rule("written: on every path on which writing succeeds, the record's fields are written between the record's begin and its stop and end, each once, with the value the record holds, by the operation for the type announced; a field left out is known to be nil")
	c.rule("numbers: no two fields are written under one number, and a field has one number and type on all paths")
	c.rule("read: reading goes on until the stop; a field found under the number and type under which it is written is read by the operation for that type and stored in that field, never skipped or stored elsewhere; what is skipped is only what is not so written")
	c.rule("entries: every entry of a map is written as key then value, and all are; as many entries as announced are read, each as key then value, and entered under that key in a map made for the field")
	c.rule("errors: an operation that fails is the last one, and its error is what is returned; success is returned only after every operation is known to have succeeded; reading refuses a record only for lack of a field that is always written")
	c.rule("bytes: encoding returns the bytes of the buffer the record was written to, after it was written; decoding reads the record from the bytes given and returns it with the reader's error; both use the same protocol")
	c.assume = append(c.assume, "the Thrift library's protocol reads back what it wrote under the same types, and its PrependError and NewTProtocolException return errors")
	w := &recCheck{c: c, recs: map[*types.Named]map[string]*wireField{}}
	sp := c.P.SPkgs[modPath+"/keystore"]
	if sp == nil {
		c.fail("no package keystore")
		return
	}
	pk := sp.Pkg
	for _, name := range pk.Scope().Names() {
		tn, ok := pk.Scope().Lookup(name).(*types.TypeName)
		if !ok {
			continue
		}
		n, ok := tn.Type().(*types.Named)
		if !ok {
			continue
		}
		if _, ok := n.Underlying().(*types.Struct); !ok {
			continue
		}
		wr, rd := c.P.method(n, "Write"), c.P.method(n, "Read")
		if wr == nil || rd == nil || !takesProtocol(wr) || !takesProtocol(rd) {
			continue
		}
		w.recs[n] = map[string]*wireField{}
		w.typs = append(w.typs, n)
	}
	if len(w.typs) < 2 {
		c.fail("%d persisted records found", len(w.typs))
		return
	}
	for _, n := range w.typs {
		w.writer(n, c.P.method(n, "Write"))
	}
	for _, n := range w.typs {
		w.reader(n, c.P.method(n, "Read"))
	}
	w.codecs()
}

func takesProtocol(f *ssa.Function) bool {
	ps := f.Signature.Params()
	for i := 0; i < ps.Len(); i++ {
		if n := namedOf(ps.At(i).Type()); n != nil && n.Obj().Name() == "TProtocol" {
			return true
		}
	}
	return false
}

// outcomeOK: the path returned, and whether with success, failure or whatever the last operation says.
func (w *recCheck) ends(f *ssa.Function, o *Outcome, ops []*Event) (success bool) {
	c := w.c
	s := o.S
	er := o.Ret[len(o.Ret)-1]
	if s.nilErr(er) == 0 || isMadeErr(er) {
		return false
	}
	for i, ev := range ops {
		x := errOfEv(ev)
		c.ob("operations")
		if x == nil || !isErr(x.Typ) || s.nilErr(x) == 1 || i == len(ops)-1 && x == er {
			continue
		}
		op, _ := w.wireOp(ev)
		c.viol("errors", f, ev, o, "success is returned although %s may have failed", op)
		return true
	}
	return true
}

// stops: a failed operation is the last.
func (w *recCheck) stops(f *ssa.Function, o *Outcome, ops []*Event) (failing *Event) {
	for i, ev := range ops {
		x := errOfEv(ev)
		if x == nil || !isErr(x.Typ) || o.S.nilErr(x) != 0 {
			continue
		}
		if failing == nil {
			failing = ev
		}
		if i < len(ops)-1 {
			op, _ := w.wireOp(ev)
			w.c.viol("errors", f, ev, o, "goes on after %s failed", op)
			return
		}
	}
	return
}

func (w *recCheck) ops(o *Outcome) (r []*Event) {
	for _, ev := range o.S.events {
		if op, _ := w.wireOp(ev); op != "" {
			r = append(r, ev)
		}
	}
	return
}

// fieldIn: the value is a field of the record the receiver refers to, as it was.
func fieldIn(t, recv *Term) string {
	t = stripConv(t)
	if t == nil {
		return ""
	}
	if t.Op == "init" && t.Sub[0].Op == "fld" && t.Sub[0].Sub[0] == recv {
		return t.Sub[0].Aux
	}
	if t.Op == "fld" && t.Sub[0] == recv {
		return t.Aux
	}
	return ""
}

func (w *recCheck) writer(n *types.Named, f *ssa.Function) {
	c := w.c
	e := w.engine(n)
	recv := paramTerms(f)[0]
	fields := w.recs[n]
	st := n.Underlying().(*types.Struct)
	all := 0
	skipped := map[string]bool{}
	for _, o := range c.run(e, f) {
		if o.Kind != "return" && o.Kind != "loop" {
			continue
		}
		c.ob("paths of writing")
		ops := w.ops(o)
		if x := w.stops(f, o, ops); x != nil && o.Kind == "loop" {
			op, _ := w.wireOp(x)
			c.viol("errors", f, x, o, "goes on after %s failed", op)
			continue
		} else if x != nil {
			er := o.Ret[len(o.Ret)-1]
			if !(o.S.nilErr(er) == 0 || isMadeErr(er) || er == errOfEv(ops[len(ops)-1])) {
				c.viol("errors", f, ops[len(ops)-1], o, "a failure is not returned")
			}
			continue
		}
		done := false
		if o.Kind == "return" {
			if !w.ends(f, o, ops) {
				c.viol("errors", f, nil, o, "a record is refused although every operation succeeded")
				continue
			}
			done = true
		}
		w.parseWrite(n, f, o, recv, done, skipped)
		if done {
			all++
		}
	}
	if all == 0 {
		c.viol("written", f, nil, nil, "no path writes the record successfully")
	}
	byID := map[int64]string{}
	for i := 0; i < st.NumFields(); i++ {
		k := st.Field(i).Name()
		wf := fields[k]
		c.ob("fields written")
		if wf == nil {
			c.viol("written", f, nil, nil, "the field %s of %s is never written", k, n.Obj().Name())
			continue
		}
		wf.always = !skipped[k]
		if x := byID[wf.id]; x != "" {
			c.viol("numbers", f, nil, nil, "the fields %s and %s of %s are both written under %d", x, k, n.Obj().Name(), wf.id)
		}
		byID[wf.id] = k
		c.sample("%s.%s: number %d, type %d", n.Obj().Name(), k, wf.id, wf.typ)
	}
}

func (w *recCheck) parseWrite(n *types.Named, f *ssa.Function, o *Outcome, recv *Term, done bool, skipped map[string]bool) {
	c := w.c
	s := o.S
	fields := w.recs[n]
	st := n.Underlying().(*types.Struct)
	state := "start"
	var cur *wireField
	var wrote int
	var key, val *Term // of the entry
	part := 0
	seen := map[string]bool{}
	exhausted := false
	bad := func(ev *Event, msg string, a ...any) bool {
		c.viol("written", f, ev, o, msg, a...)
		return false
	}
	entries := func(ev *Event, msg string, a ...any) bool {
		c.viol("entries", f, ev, o, msg, a...)
		return false
	}
	step := func(ev *Event) bool {
		if ev.Kind == "loop" {
			return true
		}
		if ev.Kind == "maprange" && state == "map" {
			if k := fieldIn(ev.Args[0], recv); k != cur.field {
				return entries(ev, "the entries written are those of %s, not of %s", ev.Args[0], cur.field)
			}
			return true
		}
		if ev.Kind == "next" {
			if state != "map" {
				return true
			}
			if part == 1 {
				return entries(ev, "an entry of %s is written without its value", cur.field)
			}
			if key != nil && part == 0 {
				return entries(ev, "an entry of %s is not written", cur.field)
			}
			if k := fieldIn(ev.Args[1], recv); k != cur.field {
				return entries(ev, "the entries written are those of %s, not of %s", ev.Args[1], cur.field)
			}
			if s.truth(ev.Res.Sub[0]) == 1 {
				key, val, part = ev.Res.Sub[1], ev.Res.Sub[2], 0
			} else {
				exhausted = true
			}
			return true
		}
		op, rec := w.wireOp(ev)
		if op == "" {
			return true
		}
		switch {
		case op == "WriteStructBegin":
			if state != "start" {
				return bad(ev, "the record is begun again")
			}
			state = "fields"
		case op == "WriteFieldBegin":
			if state != "fields" {
				return bad(ev, "a field is begun inside another, or before the record")
			}
			id, ok1 := ev.Args[4].intVal()
			typ, ok2 := stripConv(ev.Args[3]).intVal()
			if !ok1 || !ok2 {
				return bad(ev, "the number or the type of a field is not constant")
			}
			cur, wrote, state = &wireField{id: id, typ: typ}, 0, "field"
		case op == "WriteFieldEnd":
			if state != "field" || wrote != 1 {
				return bad(ev, "a field is ended with %d values", wrote)
			}
			if seen[cur.field] {
				return bad(ev, "the field %s is written twice", cur.field)
			}
			seen[cur.field] = true
			if x := fields[cur.field]; x != nil && (x.id != cur.id || x.typ != cur.typ || x.kt != cur.kt || x.vt != cur.vt) {
				c.viol("numbers", f, ev, o, "the field %s is written under number %d and type %d as well as under %d and %d", cur.field, x.id, x.typ, cur.id, cur.typ)
			} else if x == nil {
				fields[cur.field] = cur
			}
			state = "fields"
		case op == "WriteFieldStop":
			if state != "fields" {
				return bad(ev, "stopped inside a field or before the record")
			}
			state = "stopped"
		case op == "WriteStructEnd":
			if state != "stopped" {
				return bad(ev, "the record is ended without a stop")
			}
			state = "done"
		case op == "WriteMapBegin":
			if state != "field" || wrote != 0 || cur.typ != tMapT {
				return bad(ev, "a map is written where type %d was announced", cur.typ)
			}
			kt, ok1 := stripConv(ev.Args[2]).intVal()
			vt, ok2 := stripConv(ev.Args[3]).intVal()
			if !ok1 || !ok2 {
				return bad(ev, "the types of a map's entries are not constant")
			}
			cur.kt, cur.vt = kt, vt
			cur.field = w.sizeOf(o, ev.Args[4], recv)
			if cur.field == "" {
				return entries(ev, "the number of entries announced is %s", ev.Args[4])
			}
			key, val, part, exhausted = nil, nil, 0, false
			state = "map"
		case op == "WriteMapEnd":
			if state != "map" {
				return bad(ev, "a map is ended that was not begun")
			}
			if key != nil && part != 2 {
				return entries(ev, "the last entry of %s is not written whole", cur.field)
			}
			if !exhausted && !w.fieldKnown(s, recv, cur.field, true) {
				return entries(ev, "the map %s is ended before all its entries were written", cur.field)
			}
			wrote, state = 1, "field"
			key = nil
		case op == "WriteRecord" || strings.HasPrefix(op, "Write"):
			v := ev.Args[len(ev.Args)-1]
			typ := int64(tStruct)
			if op == "WriteRecord" {
				v = ev.Args[0]
			} else {
				t, ok := thriftType[strings.TrimPrefix(op, "Write")]
				if !ok {
					return bad(ev, "%s is not covered", op)
				}
				typ = t
			}
			_ = rec
			switch state {
			case "field":
				if wrote != 0 {
					return bad(ev, "two values are written for one field")
				}
				if typ != cur.typ {
					return bad(ev, "%s writes a value for which type %d was announced", op, cur.typ)
				}
				cur.field = fieldIn(v, recv)
				if cur.field == "" || !sameWidth(v, st, cur.field) {
					return bad(ev, "writes %s, which is not a field of the record", v)
				}
				wrote = 1
			case "map":
				want, wt := key, cur.kt
				if part == 1 {
					want, wt = val, cur.vt
				}
				if part > 1 || stripConv(v) != want || key == nil {
					return entries(ev, "writes %s where the %s of an entry of %s belongs", v, [3]string{"key", "value", "end"}[part], cur.field)
				}
				if typ != wt {
					return entries(ev, "%s writes a %s for which type %d was announced", op, [2]string{"key", "value"}[part], wt)
				}
				part++
				if part == 2 {
					c.ob("entries written")
				}
			default:
				return bad(ev, "%s outside a field", op)
			}
		default:
			return bad(ev, "%s while writing", op)
		}
		return true
	}
	for _, ev := range s.events {
		if !step(ev) {
			return
		}
		if state == "map" && part == 2 && ev.Kind != "next" {
			// the next entry may come
			continue
		}
	}
	if !done {
		if state == "map" && key != nil && part != 2 {
			entries(nil, "an entry of %s is not written whole", cur.field)
		}
		return
	}
	if state != "done" {
		bad(nil, "success is returned before the record is complete (%s)", state)
		return
	}
	isNil := s.truth(mkBin("==", tNil, recv, nil)) == 1
	for i := 0; i < st.NumFields(); i++ {
		k := st.Field(i).Name()
		if seen[k] || isNil {
			continue
		}
		skipped[k] = true
		if !w.fieldKnown(s, recv, k, false) {
			bad(nil, "the field %s is left out", k)
		}
	}
}

// sameWidth: the value is converted, if at all, to a type that keeps all its values.
func sameWidth(v *Term, st *types.Struct, field string) bool {
	for i := 0; i < st.NumFields(); i++ {
		if st.Field(i).Name() == field {
			return v.Typ == nil || types.Identical(v.Typ.Underlying(), st.Field(i).Type().Underlying()) || v.Op != "conv"
		}
	}
	return false
}

// fieldKnown: the record's field is known to be nil, or to have no entries.
func (w *recCheck) fieldKnown(s *State, recv *Term, field string, empty bool) bool {
	for _, f := range s.facts {
		x := f.T
		if f.Truth && x.Op == "bin" && x.Aux == "==" {
			for i := 0; i < 2; i++ {
				if x.Sub[i] == tNil && fieldIn(x.Sub[1-i], recv) == field {
					return true
				}
			}
		}
	}
	if !empty {
		return false
	}
	for _, ev := range s.events {
		if ev.Kind == "maplen" && fieldIn(ev.Args[0], recv) == field && s.arith().le(ev.Res, tZero, 0) {
			return true
		}
	}
	return false
}

// sizeOf: the number is the number of entries of a field: which.
func (w *recCheck) sizeOf(o *Outcome, t, recv *Term) string {
	t = stripConv(t)
	if t.Op == "len" {
		return fieldIn(t.Sub[0], recv)
	}
	for _, ev := range o.S.events {
		if ev.Kind == "maplen" && ev.Res == t {
			return fieldIn(ev.Args[0], recv)
		}
	}
	return ""
}

// isNum: 1, the value is known to be the number; 0, it is known not to be.
func isNum(s *State, t *Term, k int64) int {
	t = stripConv(t)
	if v, ok := t.intVal(); ok {
		return b2i(v == k)
	}
	for _, f := range s.facts {
		x := f.T
		if x.Op != "bin" || x.Aux != "==" {
			continue
		}
		for i := 0; i < 2; i++ {
			if v, ok := x.Sub[i].intVal(); ok && stripConv(x.Sub[1-i]) == t {
				if f.Truth {
					return b2i(v == k)
				}
				if v == k {
					return 0
				}
			}
		}
	}
	ar := s.arith()
	if ar.le(t, tInt(k), -1) || ar.le(tInt(k), t, -1) {
		return 0
	}
	if ar.le(t, tInt(k), 0) && ar.le(tInt(k), t, 0) {
		return 1
	}
	return -1
}

type readSeg struct {
	typ, id *Term
	skip    bool
	field   string
	at      *Event
}

func (w *recCheck) reader(n *types.Named, f *ssa.Function) {
	c := w.c
	e := w.engine(n)
	recv := paramTerms(f)[0]
	type iter struct {
		s    *State
		next map[*Term]*Term
	}
	var iters []iter
	e.OnLoopEnd = func(e *Engine, s *State, li *loopInfo, h *ssa.BasicBlock) {
		m := map[*Term]*Term{}
		for _, sy := range li.syms {
			if sy != nil && sy.Sym != nil {
				m[sy] = sy.Sym.Next
			}
		}
		for _, sy := range li.cells {
			m[sy] = sy.Sym.Next
		}
		iters = append(iters, iter{s, m})
	}
	outs := c.run(e, f)
	segs := map[*State][]*readSeg{}
	all := 0
	for _, o := range outs {
		if o.Kind != "return" && o.Kind != "loop" {
			continue
		}
		c.ob("paths of reading")
		ops := w.ops(o)
		x := w.stops(f, o, ops)
		failed := x != nil
		if failed && o.Kind == "loop" {
			op, _ := w.wireOp(x)
			c.viol("errors", f, x, o, "goes on after %s failed", op)
		}
		if failed && o.Kind == "return" {
			er := o.Ret[len(o.Ret)-1]
			if !(o.S.nilErr(er) == 0 || isMadeErr(er) || er == errOfEv(ops[len(ops)-1])) {
				c.viol("errors", f, ops[len(ops)-1], o, "a failure is not returned")
			}
		}
		if failed {
			continue
		}
		done := o.Kind == "return" && w.ends(f, o, ops)
		segs[o.S] = w.parseRead(n, f, o, recv, done)
		if done {
			all++
		}
	}
	if all == 0 {
		c.viol("read", f, nil, nil, "no path reads the record successfully")
	}
	// refusals
	for _, o := range outs {
		if o.Kind != "return" {
			continue
		}
		sg, ok := segs[o.S]
		er := o.Ret[len(o.Ret)-1]
		if !ok || !(o.S.nilErr(er) == 0 || isMadeErr(er)) {
			continue
		}
		c.ob("refusals")
		fine := false
		for _, wf := range w.recs[n] {
			if !wf.always {
				continue
			}
			was := false
			for _, x := range sg {
				was = was || x.field == wf.field
			}
			if was {
				continue
			}
			l := lastLoop(o)
			if l < 0 {
				fine = true
				break
			}
			// a flag that every iteration that reads the field raises, and none lowers
			for _, fact := range o.S.facts {
				b, truth := fact.T, fact.Truth
				if b.Op != "sym" || b.Sym == nil || b.Sym.Kind != "loop" {
					continue
				}
				lowered := tFalse
				raised := tTrue
				if truth {
					lowered, raised = tTrue, tFalse
				}
				if b.Sym.First == raised {
					mono := true
					for _, x := range b.Sym.Nexts {
						mono = mono && (x == b || x == raised)
					}
					if mono {
						fine = true // cannot be
						break
					}
				}
				if b.Sym.Init != lowered {
					continue
				}
				good := true
				for _, it := range iters {
					nx, has := it.next[b]
					if !has {
						continue
					}
					reads := false
					lp := -1
					for i, ev := range it.s.events {
						if ev.Kind == "loop" && ev.Loop != nil && (ev.Loop.hasSym(b)) {
							lp = i
						}
					}
					for _, x := range segs[it.s] {
						if x.field == wf.field && x.at.N > lp {
							reads = true
						}
					}
					if reads && nx != raised || nx != b && nx != raised {
						good = false
					}
				}
				if good {
					fine = true
				}
			}
			if fine {
				break
			}
		}
		if !fine {
			c.viol("errors", f, nil, o, "a record may be refused although every operation succeeded and every field was read")
		}
	}
}

func (li *loopInfo) hasSym(t *Term) bool {
	for _, sy := range li.syms {
		if sy == t {
			return true
		}
	}
	for _, sy := range li.cells {
		if sy == t {
			return true
		}
	}
	return false
}

func (w *recCheck) parseRead(n *types.Named, f *ssa.Function, o *Outcome, recv *Term, done bool) (r []*readSeg) {
	c := w.c
	s := o.S
	fields := w.recs[n]
	state := "start"
	var cur *readSeg
	var val, size, key, made *Term
	var vtyp, kt, vt int64
	var obj *Term // the record read into
	part, stop := 0, false
	stored := map[string]*Term{}
	taken := map[*Term]bool{} // maps of earlier fields
	bad := func(ev *Event, msg string, a ...any) bool {
		c.viol("read", f, ev, o, msg, a...)
		return false
	}
	entries := func(ev *Event, msg string, a ...any) bool {
		c.viol("entries", f, ev, o, msg, a...)
		return false
	}
	finish := func(ev *Event) bool {
		c.ob("fields read or skipped")
		for _, wf := range fields {
			is := 1
			if a := isNum(s, cur.id, wf.id); a >= 0 {
				is = a
			} else {
				is = -1
			}
			ty := isNum(s, cur.typ, wf.typ)
			if is == 0 || ty == 0 {
				if cur.field == wf.field {
					return bad(ev, "what is stored in %s was found under another number or type than it is written under (%d, %d)", wf.field, wf.id, wf.typ)
				}
				continue
			}
			if cur.skip || cur.field == "" {
				return bad(ev, "the field %s, found under its number %d and type %d, is skipped", wf.field, wf.id, wf.typ)
			}
			if cur.field != wf.field {
				return bad(ev, "what was written as the field %s is stored in %s", wf.field, cur.field)
			}
			if is != 1 || ty != 1 {
				return bad(ev, "the field %s is read without its number and type having been seen", wf.field)
			}
			if wf.typ == tMapT && (vtyp != tMapT || kt != wf.kt || vt != wf.vt) && kt != 0 {
				return entries(ev, "the entries of %s are written with types %d, %d and read as %d, %d", wf.field, wf.kt, wf.vt, kt, vt)
			}
			if vtyp != wf.typ {
				return bad(ev, "the field %s is written as type %d and read as %d", wf.field, wf.typ, vtyp)
			}
		}
		r = append(r, cur)
		return true
	}
	// what the segment stored
	want := false // a map was read, and what it is stored in has not been seen yet
	settle := func(ev *Event) bool {
		if want {
			return entries(ev, "no map is made for the field")
		}
		for k, v := range stored {
			switch {
			case cur.field == "" && val != nil && stripConv(v) == val && !narrows(v, val):
				cur.field = k
			case cur.field == "" && made != nil && v == made:
				cur.field = k
			case cur.field == k && (v == made || val != nil && stripConv(v) == val):
			default:
				return bad(ev, "%s is stored in the field %s", v, k)
			}
		}
		if val != nil && cur.field == "" && !cur.skip {
			return bad(ev, "what was read is not stored")
		}
		return true
	}
	step := func(ev *Event) bool {
		switch ev.Kind {
		case "loop":
			return true
		case "store":
			if ev.Note == "private" {
				return true
			}
			if a := ev.Args[0]; a.Op == "fld" && a.Sub[0] == recv {
				if state == "field" || state == "map" || state == "valued" {
					stored[a.Aux] = ev.Args[1]
					if v := ev.Args[1]; want && v.Op == "obj" && !taken[v] {
						made, val, want = v, v, false
					}
				} else if state != "start" {
					return bad(ev, "the field %s is changed outside its own value", a.Aux)
				}
			}
			return true
		case "mapset":
			if state != "map" {
				return bad(ev, "an entry is made outside a map")
			}
			// a map made here is stored in the field sooner or later, which
			// is seen to when the field is settled
			if made == nil && ev.Args[0].Op == "obj" && !taken[ev.Args[0]] {
				made = ev.Args[0]
			}
			if ev.Args[0] != made && fieldIn(ev.Args[0], recv) == "" && !w.loadOf(o, ev.Args[0], recv) {
				return entries(ev, "an entry is made in %s", ev.Args[0])
			}
			v := stripConv(ev.Args[2])
			if part != 2 || stripConv(ev.Args[1]) != key || v != val && (obj == nil || v != obj) {
				return entries(ev, "an entry %s, %s is made that is not the key and value read", ev.Args[1], ev.Args[2])
			}
			part = 3
			return true
		}
		op, _ := w.wireOp(ev)
		if op == "" {
			return true
		}
		switch {
		case op == "ReadStructBegin":
			if state != "start" {
				return bad(ev, "the record is begun again")
			}
			state = "fields"
		case op == "ReadFieldBegin":
			if state != "fields" {
				return bad(ev, "a field is begun inside another, or before the record")
			}
			cur = &readSeg{typ: callRes(ev, 1), id: callRes(ev, 2), at: ev}
			if made != nil {
				taken[made] = true
			}
			val, size, key, made, obj, vtyp, kt, vt, part = nil, nil, nil, nil, nil, 0, 0, 0, 0
			want = false
			stored = map[string]*Term{}
			state = "field"
			if isNum(s, cur.typ, tStop) == 1 {
				state, stop = "stopped", true
			}
		case op == "ReadFieldEnd":
			if state != "valued" {
				return bad(ev, "a field is ended without a value")
			}
			if !settle(ev) || !finish(ev) {
				return false
			}
			state = "fields"
		case op == "ReadStructEnd":
			if state != "stopped" {
				return bad(ev, "reading ends before the stop")
			}
			state = "done"
		case op == "Skip":
			if state != "field" {
				return bad(ev, "something is skipped outside a field")
			}
			if stripConv(ev.Args[2]) != stripConv(cur.typ) && isNum(s, cur.typ, numOf(ev.Args[2])) != 1 {
				return bad(ev, "what is skipped is of type %s, not of the field's", ev.Args[2])
			}
			cur.skip, state = true, "valued"
		case op == "ReadMapBegin":
			if state != "field" {
				return bad(ev, "a map is read outside a field")
			}
			size, vtyp, state, part = stripConv(callRes(ev, 2)), tMapT, "map", 0
			for _, v := range stored {
				if v.Op == "obj" {
					made = v
				}
			}
		case op == "ReadMapEnd":
			if state != "map" {
				return bad(ev, "a map is ended that was not begun")
			}
			if part != 0 && part != 3 {
				return entries(ev, "the last entry read is not entered")
			}
			if !w.counted(o, size, ev) {
				return entries(ev, "the number of entries read is not the number announced")
			}
			if made == nil {
				for _, v := range stored {
					if v.Op == "obj" {
						made = v
					}
				}
			}
			val, state = made, "valued"
			want = made == nil // an empty map may be stored after its end was read
		case op == "ReadRecord" || strings.HasPrefix(op, "Read"):
			typ := int64(tStruct)
			res := stripConv(ev.Args[0])
			if op != "ReadRecord" {
				t, ok := thriftType[strings.TrimPrefix(op, "Read")]
				if !ok {
					return bad(ev, "%s is not covered", op)
				}
				typ, res = t, callRes(ev, 0)
			} else {
				if res.Op != "obj" {
					return entries(ev, "a record is read into %s, which was not made for it", res)
				}
				obj = res
			}
			switch state {
			case "field":
				val, vtyp, state = res, typ, "valued"
			case "map":
				switch part {
				case 0, 3:
					key, part = res, 1
					if !w.more(o, size, ev) {
						return entries(ev, "an entry is read beyond the number announced")
					}
					if kt != 0 && kt != typ {
						return entries(ev, "keys are read as different types")
					}
					kt = typ
				case 1:
					val, part = res, 2
					if vt != 0 && vt != typ {
						return entries(ev, "values are read as different types")
					}
					vt = typ
					c.ob("entries read")
				default:
					return entries(ev, "an entry is read before the last one was entered")
				}
			default:
				return bad(ev, "%s outside a field", op)
			}
		default:
			return bad(ev, "%s while reading", op)
		}
		return true
	}
	for _, ev := range s.events {
		if !step(ev) {
			return
		}
	}
	if o.Kind == "loop" {
		if state == "map" && part != 0 && part != 3 {
			entries(nil, "an entry read is not entered")
		}
		return
	}
	if done && (state != "done" || !stop) {
		bad(nil, "success is returned before the record's stop and end were read (%s)", state)
	}
	return
}

func numOf(t *Term) int64 {
	if v, ok := stripConv(t).intVal(); ok {
		return v
	}
	return -1
}

// narrows: the conversion loses values.
func narrows(v, from *Term) bool {
	if v == from || v.Typ == nil || from.Typ == nil {
		return false
	}
	a, ok1 := v.Typ.Underlying().(*types.Basic)
	b, ok2 := from.Typ.Underlying().(*types.Basic)
	if !ok1 || !ok2 {
		return false
	}
	return a.Kind() != b.Kind()
}

// loadOf: a later reading of a field of the record.
func (w *recCheck) loadOf(o *Outcome, t, recv *Term) bool {
	for _, ev := range o.S.events {
		if ev.Kind == "load" && ev.Res == t && ev.Args[0].Op == "fld" && ev.Args[0].Sub[0] == recv {
			return true
		}
	}
	return false
}

// more: at the event, more entries were announced than have been read.
func (w *recCheck) more(o *Outcome, size *Term, at *Event) bool {
	ar := o.S.arith()
	for _, n := range w.entered(o, size, at) {
		if n.up && ar.le(n.t, size, -1-n.k) || !n.up && ar.le(tInt(1), n.t, n.k) {
			return true
		}
	}
	return false
}

// counted: at the event, a counter shows that as many entries were read as were announced.
func (w *recCheck) counted(o *Outcome, size *Term, at *Event) bool {
	ar := o.S.arith()
	for _, n := range w.entered(o, size, at) {
		if n.up && ar.le(size, n.t, n.k) && (n.t != tZero || ar.le(n.t, size, -n.k)) || !n.up && ar.le(n.t, tZero, -n.k) {
			return true
		}
		if n.up && n.t == tZero && n.k == 0 && ar.le(size, tZero, 0) {
			return true
		}
	}
	return false
}

// entryCount: the entries made so far (up), or those still to come, are t+k.
type entryCount struct {
	t  *Term
	k  int64
	up bool
}

// entered: the ways in which the entries made before the event are counted.
func (w *recCheck) entered(o *Outcome, size *Term, at *Event) (r []entryCount) {
	n, l := int64(0), -1
	var li *loopInfo
	for _, ev := range o.S.events[:at.N] {
		if op, _ := w.wireOp(ev); op == "ReadMapBegin" {
			n, l, li = 0, -1, nil
		}
		switch ev.Kind {
		case "mapset":
			n++
		case "loop":
			n, l, li = 0, ev.N, ev.Loop
		}
	}
	if l < 0 {
		return []entryCount{{tZero, n, true}}
	}
	if li == nil {
		return nil
	}
	for _, sy := range li.syms {
		if sy == nil || sy.Sym == nil || sy.Sym.First == nil {
			continue
		}
		k, ok := stepOf(sy)
		if !ok {
			// not all ways round are known yet
			continue
		}
		// one entry is made in every iteration, and one was in the first
		switch v, ok := sy.Sym.Init.intVal(); {
		case k == 1 && ok:
			r = append(r, entryCount{sy, n - v, true})
		case k == -1 && stripConv(sy.Sym.Init) == size:
			r = append(r, entryCount{sy, -n, false})
		}
	}
	return r
}

func sameVal(t *Term, k int64) bool {
	v, ok := t.intVal()
	return ok && v == k
}

// codecs: the functions between records and bytes.
func (w *recCheck) codecs() {
	c := w.c
	type side struct {
		f    *ssa.Function
		made string
	}
	enc, dec := map[string][]side{}, map[string][]side{}
	for _, f := range c.P.Funcs {
		if f.Origin() != nil && f.Origin() != f || f.Object() == nil || !f.Object().Exported() || pkgOf(f) == "keystore" {
			continue
		}
		switch {
		case isEncoder(f):
			if s := w.encode(f); s != "" {
				enc[pkgOf(f)] = append(enc[pkgOf(f)], side{f, s})
			}
		case isDecoder(f):
			if s := w.decode(f); s != "" {
				dec[pkgOf(f)] = append(dec[pkgOf(f)], side{f, s})
			}
		}
	}
	n := 0
	for p, es := range enc {
		for _, x := range es {
			for _, y := range dec[p] {
				n++
				c.ob("codec pairs")
				if x.made != y.made {
					c.viol("bytes", y.f, nil, nil, "encoding uses %s, decoding %s", x.made, y.made)
				}
			}
		}
	}
	if n == 0 {
		c.fail("no pair of encoder and decoder of records found")
	}
}

// overBuffer: the call that made the protocol over the buffer.
func overBuffer(proto, buf *Term) (made string, ok bool) {
	ev := maker(proto)
	if ev == nil {
		return "", false
	}
	for _, x := range ev.Args {
		if stripConvAll(x) == stripConvAll(buf) {
			return ev.Fn, true
		}
	}
	return ev.Fn, false
}

func (w *recCheck) codecEngine() *Engine {
	e := w.c.engine()
	e.NoPanic = true
	e.Opaque = func(g *ssa.Function) bool { return isRepoFn(g) && recvNamed(g) != nil }
	return e
}

func protoArg(ev *Event) *Term {
	for _, x := range ev.Args[1:] {
		if m := maker(x); m != nil && strings.Contains(m.Fn, "Protocol") {
			return x
		}
	}
	return nil
}

func isRecCall(ev *Event, name string, rec *Term) bool {
	return (ev.Kind == "call" || ev.Kind == "repocall" || ev.Kind == "dyncall") && (strings.HasSuffix(ev.Fn, "."+name)) && len(ev.Args) >= 3 && stripConvAll(ev.Args[0]) == rec
}

func (w *recCheck) encode(f *ssa.Function) (made string) {
	c := w.c
	rec := paramTerms(f)[0]
	for _, o := range c.run(w.codecEngine(), f) {
		if o.Kind != "return" {
			continue
		}
		c.ob("paths of encoding")
		if len(o.Ret) > 1 && o.S.nilErr(o.Ret[len(o.Ret)-1]) == 0 {
			continue
		}
		var wr *Event
		n := 0
		for _, ev := range o.S.events {
			if isRecCall(ev, "Write", rec) {
				wr = ev
				n++
			}
		}
		if wr == nil {
			c.viol("bytes", f, nil, o, "returns bytes to which the record was not written")
			continue
		}
		if n > 1 {
			c.viol("bytes", f, wr, o, "the record is written more than once")
		}
		p := protoArg(wr)
		b := maker(o.Ret[0])
		why := ""
		switch {
		case p == nil:
			why = "the record is not written through a protocol made here"
		case b == nil || b.N < wr.N || !strings.HasSuffix(b.Fn, ".Bytes"):
			why = fmt.Sprintf("returns %s, not the bytes of a buffer after the record was written", o.Ret[0])
		default:
			m, ok := overBuffer(p, b.Args[0])
			if !ok {
				// the buffer inside the transport
				ok = w.inTransport(o, maker(p), b.Args[0])
			}
			if !ok {
				why = "the bytes returned are not of the buffer the record was written to"
			}
			made = m
			for _, ev := range o.S.events {
				if ev.N > maker(p).N && ev != b && ev.N < b.N && (strings.HasSuffix(ev.Fn, ".Reset") || strings.HasSuffix(ev.Fn, ".Truncate") || strings.HasSuffix(ev.Fn, ".Read") || strings.HasSuffix(ev.Fn, ".Next")) {
					why = "the buffer is changed after the record was written"
				}
			}
		}
		if why != "" {
			c.viol("bytes", f, wr, o, "%s", why)
		}
	}
	return
}

// inTransport: the buffer is the one inside a transport the protocol was made over.
func (w *recCheck) inTransport(o *Outcome, mk *Event, buf *Term) bool {
	if mk == nil {
		return false
	}
	for _, x := range mk.Args {
		x = stripConvAll(x)
		for a, v := range o.S.mem {
			if a.Op == "fld" && a.Sub[0] == x && v == buf {
				return true
			}
		}
	}
	t := stripConv(buf)
	if t.Op == "init" && t.Sub[0].Op == "fld" {
		for _, x := range mk.Args {
			if stripConvAll(x) == t.Sub[0].Sub[0] {
				return true
			}
		}
	}
	return false
}

func (w *recCheck) decode(f *ssa.Function) (made string) {
	c := w.c
	ps := paramTerms(f)
	e := w.codecEngine()
	bufs := map[*Term][]*Term{}
	e.OnResult = func(e *Engine, s *State, ev *Event) {
		if ev.Kind != "call" || !strings.Contains(ev.Fn, "Protocol") {
			return
		}
		// what the transports given hold
		for a, v := range s.mem {
			if a.Op == "fld" {
				bufs[a.Sub[0]] = append(bufs[a.Sub[0]], v)
			}
		}
	}
	for _, o := range c.run(e, f) {
		if o.Kind != "return" {
			continue
		}
		c.ob("paths of decoding")
		er := o.Ret[len(o.Ret)-1]
		var rd *Event
		n := 0
		for _, ev := range o.S.events {
			if isRecCall(ev, "Read", ps[1]) {
				rd = ev
				n++
			}
		}
		if rd == nil {
			if o.S.nilErr(er) == 0 || isMadeErr(er) {
				continue
			}
			c.viol("bytes", f, nil, o, "the record is returned without having been read")
			continue
		}
		if n > 1 {
			c.viol("bytes", f, rd, o, "the record is read more than once")
		}
		if x := errOfEv(rd); er != x && !(o.S.nilErr(x) == 1 && o.S.nilErr(er) == 1) && !(o.S.nilErr(x) == 0 && o.S.nilErr(er) == 0) {
			c.viol("bytes", f, rd, o, "returns %s, not the reader's error", er)
		}
		if stripConvAll(o.Ret[0]) != ps[1] && o.S.nilErr(er) != 0 {
			c.viol("bytes", f, rd, o, "returns %s, not the record read", o.Ret[0])
		}
		p := protoArg(rd)
		mk := maker(p)
		if p == nil || mk == nil {
			c.viol("bytes", f, rd, o, "the record is not read through a protocol made here")
			continue
		}
		ok := false
		for _, x := range mk.Args {
			x = stripConvAll(x)
			ok = ok || w.holds(o, bufs, x, ps[0], 0)
		}
		if !ok {
			c.viol("bytes", f, rd, o, "the protocol does not read the bytes given")
		}
		made = mk.Fn
	}
	return
}

// holds: the transport reads the bytes.
func (w *recCheck) holds(o *Outcome, bufs map[*Term][]*Term, x, bs *Term, depth int) bool {
	if x == bs || depth > 4 {
		return x == bs
	}
	if m := maker(x); m != nil {
		for _, y := range m.Args {
			if w.holds(o, bufs, stripConvAll(y), bs, depth+1) {
				return true
			}
		}
		// written to it
		for _, ev := range o.S.events {
			if strings.HasSuffix(ev.Fn, ".Write") && len(ev.Args) >= 2 && stripConvAll(ev.Args[0]) == x && ev.Args[len(ev.Args)-1] == bs {
				return true
			}
		}
	}
	for _, ev := range o.S.events {
		if ev.Res == x {
			for _, y := range ev.Args {
				if stripConvAll(y) == bs {
					return true
				}
			}
		}
	}
	for _, b := range bufs[x] {
		if b == bs || contentIs(b, bs) || w.holds(o, bufs, b, bs, depth+1) {
			return true
		}
	}
	return contentIs(x, bs)
}

func contentIs(t, bs *Term) bool {
	for _, x := range t.Sub {
		if x == bs {
			return true
		}
	}
	return false
}

func init() {
	checks["C29"] = checkDef{c29, "The sequences of protocol operations on every path of the persisted records' writers and readers, parsed into fields: number, type and value of each field written against where a field of that number and type goes when read, entry by entry for maps, with what each path does after a failed operation; and where the bytes of the codecs come from"}
}
