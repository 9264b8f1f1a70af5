package main

import (
	"go/token"
	"go/types"
	"os"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// ---------- C12: append file ----------

type fileCheck struct {
	c     *Ctx
	rec   types.Type // *record: what is queued
	data  string     // its bytes
	drain map[*ssa.Function]bool
	mu    string          // the file's lock
	wc    string          // the counter of queued records
	off   string          // the field with the end of the file
	dones map[string]bool // its channels
}

// recordChan: a channel of pointers to structs with a byte slice.
func recordChan(t types.Type) (rec types.Type, data string) {
	ch, ok := t.Underlying().(*types.Chan)
	if !ok {
		return nil, ""
	}
	return recordType(ch.Elem())
}

func recordType(t types.Type) (types.Type, string) {
	el := isPtrTo(t)
	if el == nil {
		return nil, ""
	}
	st, ok := el.Underlying().(*types.Struct)
	if !ok {
		return nil, ""
	}
	for i := 0; i < st.NumFields(); i++ {
		if isByteSlice(st.Field(i).Type()) {
			return t, st.Field(i).Name()
		}
	}
	return nil, ""
}

// isOSFile: the type is *os.File.
func isOSFile(t types.Type) bool {
	if t == nil {
		return false
	}
	return types.TypeString(t, nil) == "*os.File"
}

// fileWrite: the call puts bytes in the file at its end.
func fileWrite(ev *Event) bool {
	return ev.Kind == "call" && hasPre(ev.Fn, "(*os.File).Write") && len(ev.Args) > 1
}

func callRes(ev *Event, i int) *Term {
	if ev.Res == nil {
		return nil
	}
	if ev.Res.Op == "tuple" {
		if i < len(ev.Res.Sub) {
			return ev.Res.Sub[i]
		}
		return nil
	}
	if i == 0 {
		return ev.Res
	}
	return nil
}

// deref: reads elements of lists known piece by piece.
func derefElem(t *Term) *Term {
	m := map[*Term]*Term{}
	for range 8 {
		t.walk(func(x *Term) bool {
			if x.Op == "init" && x.Sub[0].Op == "idx" {
				i, isInt := x.Sub[0].Sub[1].intVal()
				if l, ok := elemsOf(x.Sub[0].Sub[0]); ok && isInt && i >= 0 && int(i) < len(l) {
					m[x] = l[i]
				}
			}
			if x.Op == "at" {
				i, isInt := x.Sub[1].intVal()
				if l, ok := elemsOf(x.Sub[0]); ok && isInt && i >= 0 && int(i) < len(l) {
					m[x] = l[i]
				}
			}
			return true
		})
		if len(m) == 0 {
			return t
		}
		t = subst(t, m)
		m = map[*Term]*Term{}
	}
	return t
}

// listOf: the elements of a slice that was put together one by one.
func elemsOf(t *Term) ([]*Term, bool) {
	switch {
	case t == tNil:
		return nil, true
	case t.Op == "list":
		return t.Sub, true
	case t.Op == "append":
		a, ok := elemsOf(t.Sub[0])
		if !ok {
			return nil, false
		}
		r := append([]*Term(nil), a...)
		for _, p := range t.Sub[1:] {
			b, ok := elemsOf(p)
			if !ok {
				return nil, false
			}
			r = append(r, b...)
		}
		return r, true
	}
	return nil, false
}

// recField: the address of a field of a record: the record and the field.
func (w *fileCheck) recField(a *Term) (rec *Term, name string) {
	if a == nil || a.Op != "fld" || own(a) != typeKey(isPtrTo(w.rec)) {
		return nil, ""
	}
	return derefElem(a.Sub[0]), a.Aux
}

// recValue: a value read from a field of a record.
func (w *fileCheck) recValue(t *Term) (rec *Term, name string) {
	if t == nil || t.Op != "init" {
		return nil, ""
	}
	return w.recField(t.Sub[0])
}

func (w *fileCheck) isFld(a *Term, name string) bool {
	return a != nil && a.Op == "fld" && own(a)+"."+a.Aux == name
}

// offEv: what the event does to the recorded end of the file: "load", "add" or "store".
func (w *fileCheck) offEv(ev *Event, name string) string {
	if len(ev.Args) == 0 || !w.isFld(ev.Args[0], name) {
		return ""
	}
	switch ev.Kind {
	case "atomic":
		return ev.Fn
	case "load", "store":
		return ev.Kind
	}
	return ""
}

func isCloser(ev *Event) bool {
	return ev.Kind == "call" && ev.Fn == "(*os.File).Close"
}

func c12(c *Ctx) {
	if c.load("") == nil {
		return
	}
	c.P = c.progs[""]
	thisProg = c.P
	c.rule("exclusive: every write to the file, and everything that writes the queue, happens with the file's lock held exclusively")
	c.rule("whole: a call writes exactly the caller's bytes with one write or queues exactly one record with them; a call that does neither returns an error")
	c.rule("counted: a record is counted before it is queued, and once taken from the queue counted off exactly once; one is taken only while some are counted")
	c.rule("not-stranded: after queueing a record the lock is tried; after the lock is released the count is looked at again until it is 0 or somebody else has the lock; the lock taken for the queue's sake is kept until the queue has been written")
	c.rule("drained: every record taken is written exactly once, in order, unless an earlier write failed, and flushed before anybody is told")
	c.rule("told: a waiting writer is told exactly once, after its record's fate is known, with the error and its position")
	c.rule("answer: a direct write returns its own outcome; a queued synchronous write returns after it was told, with what it was told; a queued write reports all its bytes")
	c.rule("position: the recorded end of the file starts at the end of the file and grows by what was written; a position returned is the end before the write")
	c.rule("close: closing writes the queue under the lock before the file is closed, and always closes the file")
	c.rule("failures: an error of the file is not dropped (the rules of C21, for this package)")
	w := &fileCheck{c: c, drain: map[*ssa.Function]bool{}, dones: map[string]bool{}}
	var fs []*ssa.Function
	for _, f := range c.P.Funcs {
		if pkgOf(f) == "fastio" && len(f.Blocks) > 0 {
			fs = append(fs, f)
		}
	}
	locks := c.P.mayReach(func(in ssa.Instruction) bool {
		ci, ok := in.(ssa.CallInstruction)
		if !ok {
			return false
		}
		g := ci.Common().StaticCallee()
		return g != nil && hasPre(g.String(), "(*sync.Mutex).", "(*sync.RWMutex).") || ci.Common().IsInvoke() && lockKinds[ci.Common().Method.Name()] != ""
	})
	takes := func(f *ssa.Function) bool {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				switch x := in.(type) {
				case *ssa.UnOp:
					if x.Op == token.ARROW {
						if r, d := recordChan(x.X.Type()); r != nil {
							w.rec, w.data = r, d
							return true
						}
					}
				case *ssa.Select:
					for _, st := range x.States {
						if st.Dir == types.RecvOnly {
							if r, d := recordChan(st.Chan.Type()); r != nil {
								w.rec, w.data = r, d
								return true
							}
						}
					}
				}
			}
		}
		return false
	}
	for _, f := range fs {
		if takes(f) {
			g := f
			for g.Parent() != nil {
				g = g.Parent()
			}
			if !locks[g] {
				w.drain[g] = true
			}
		}
	}
	if len(w.drain) == 0 {
		c.fail("no function of fastio takes records from the queue with the lock left to its caller")
		return
	}
	calls := func(f *ssa.Function) bool {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if ci, ok := in.(ssa.CallInstruction); ok {
					if g := ci.Common().StaticCallee(); g != nil && w.drain[c.P.fnBody(g)] {
						return true
					}
				}
			}
		}
		return false
	}
	for again := true; again; {
		again = false
		for _, f := range fs {
			if f.Parent() == nil && !w.drain[f] && !locks[f] && calls(f) && f.Object() != nil && !f.Object().Exported() {
				w.drain[f], again = true, true
			}
		}
	}
	// only the outermost are judged: what they use they include
	inner := map[*ssa.Function]bool{}
	for f := range w.drain {
		for g := range w.drain {
			if g != f && c.P.mayReach(func(in ssa.Instruction) bool {
				ci, ok := in.(ssa.CallInstruction)
				return ok && ci.Common().StaticCallee() == f
			})[g] {
				inner[f] = true
			}
		}
	}
	for f := range inner {
		delete(w.drain, f)
	}
	for _, f := range fs {
		if w.drain[f] {
			w.drained(f)
		}
	}
	if w.wc == "" {
		c.viol("counted", nil, nil, nil, "records taken from the queue are not counted off")
		return
	}
	n := 0
	for _, f := range c.entryPoints("fastio") {
		sig := f.Signature
		res := sig.Results()
		if sig.Recv() == nil {
			w.opened(f)
			continue
		}
		w.op(f, bytesParam(f) != nil && len(f.Params) == 2 && res.Len() == 2 && strings.HasPrefix(f.Name(), "Write"))
		n++
	}
	if n == 0 {
		c.fail("fastio has no operations")
	}
	drain := c.deliverers()
	for _, f := range fs {
		if f.Parent() == nil && f.Object() != nil && f.Synthetic == "" && errResult(f.Signature) >= 0 {
			c.errorsOf(f, drain, false)
		}
	}
}

// kindOf: what a field of the record is for, by its type.
func (w *fileCheck) kindOf(name string) string {
	st := isPtrTo(w.rec).Underlying().(*types.Struct)
	for i := 0; i < st.NumFields(); i++ {
		f := st.Field(i)
		if f.Name() != name {
			continue
		}
		switch t := f.Type(); {
		case isErr(t):
			return "err"
		case isByteSlice(t):
			return "data"
		case isIntType(t):
			return "offset"
		default:
			if _, ok := t.Underlying().(*types.Chan); ok {
				return "done"
			}
		}
	}
	return ""
}

// recState is what a path of the drain did with one record.
type recState struct {
	t       *Term
	at      int
	data    []*Term // its bytes, as read
	written int
	offset  bool
	told    int
	errSet  bool
	before  pos
}

// pos is what the running position is known to equal.
type pos struct {
	terms []*Term
	cell  bool // the field itself
}

// cell follows the recorded end of the file: base, the value read first, and what was added.
type cellState struct {
	base, delta *Term
	eq          map[*Term]*Term // values read later, in terms of base
}

func (k *cellState) val() *Term {
	if k.base == nil {
		return nil
	}
	if k.delta == nil {
		return k.base
	}
	return mkBin("+", k.base, k.delta, types.Typ[types.Int64])
}

func (k *cellState) norm(t *Term) *Term {
	if t == nil {
		return nil
	}
	return stripInts(subst(t, k.eq))
}

// stripInts removes conversions between 64-bit integers.
func stripInts(t *Term) *Term {
	m := map[*Term]*Term{}
	t.walk(func(x *Term) bool {
		if x.Op == "conv" && len(x.Sub) == 1 && isIntType(x.Typ) {
			m[x] = x.Sub[0]
		}
		return true
	})
	for len(m) > 0 {
		n := subst(t, m)
		if n == t {
			break
		}
		t = n
	}
	return t
}

// apply: one event on the recorded end.
func (k *cellState) apply(kind string, ev *Event) {
	switch kind {
	case "load":
		if k.base == nil {
			k.base, k.delta = ev.Res, nil
		} else if ev.Res != k.base {
			k.eq[ev.Res] = k.val()
		}
	case "add":
		if k.base == nil {
			k.base, k.delta = mkSym("end", types.Typ[types.Int64]), nil
		}
		d := k.norm(ev.Args[1])
		if k.delta == nil {
			k.delta = d
		} else {
			k.delta = mkBin("+", k.delta, d, types.Typ[types.Int64])
		}
		if ev.Res != nil {
			k.eq[ev.Res] = k.val()
		}
	case "store", "swap":
		v := k.norm(ev.Args[1])
		if v == nil {
			return
		}
		k.base, k.delta = v, nil
	default:
		k.base, k.delta = mkSym("end", types.Typ[types.Int64]), nil
	}
}

func plus(t, d *Term) *Term {
	if t == nil || d == nil {
		return nil
	}
	return mkBin("+", t, d, types.Typ[types.Int64])
}

// nonZero: by event n of the path the count read is known not to be 0.
func nonZero(o *Outcome, t *Term, n int) bool {
	if t == nil {
		return false
	}
	nf := len(o.S.facts)
	if n < len(o.S.events) {
		nf = o.S.events[n].NF
	}
	s := *o.S
	s.facts = o.S.facts[:nf]
	for _, f := range s.facts {
		if !f.Truth && f.T.Op == "bin" && f.T.Aux == "==" && (f.T.Sub[0] == tZero && f.T.Sub[1] == t || f.T.Sub[1] == tZero && f.T.Sub[0] == t) {
			return true
		}
	}
	return s.arith().le(tOne, t, 0)
}

// drained judges a function that writes the queue to the file.
func (w *fileCheck) drained(f *ssa.Function) {
	c := w.c
	e := c.engine()
	e.NoPanic = true
	e.MultiIter = true
	recheck := map[string]*Event{} // loops whose records are taken on the strength of what the iteration before found out
	unsure := map[string]bool{}
	var ends []func()
	e.OnLoopEnd = func(e *Engine, s *State, li *loopInfo, h *ssa.BasicBlock) {
		o := &Outcome{Kind: "loop", S: s}
		w.drainPath(f, o, li, recheck, unsure)
	}
	outs := c.run(e, f)
	for _, fn := range ends {
		fn()
	}
	taken := false
	for _, o := range outs {
		if o.Kind == "return" {
			taken = w.drainPath(f, o, nil, recheck, unsure) || taken
		}
	}
	for k, ev := range recheck {
		if unsure[k] {
			c.viol("counted", f, ev, nil, "a record may be taken from the queue in a later iteration while none is counted: the writer would wait with the lock held")
		}
	}
	if !taken {
		c.fail("%s takes no record from the queue on any path", fnName(f))
	}
}

func (w *fileCheck) drainPath(f *ssa.Function, o *Outcome, end *loopInfo, recheck map[string]*Event, unsure map[string]bool) bool {
	c := w.c
	var recs []*recState
	find := func(t *Term) *recState {
		for _, r := range recs {
			if r.t == t {
				return r
			}
		}
		return nil
	}
	var cur *recState
	var at pos
	cell := &cellState{eq: map[*Term]*Term{}}
	started := false
	bufs := map[*Term]bool{}
	var count *Event
	loopAt := -1
	loopKey := ""
	decs := 0
	dirty := (*Event)(nil)
	var fin *Term
	failed := false
	if o.Kind == "return" && len(o.Ret) > 0 {
		fin = o.Ret[len(o.Ret)-1]
		if fin != nil && fin.Typ != nil && !isErr(fin.Typ) {
			fin = nil
		}
		failed = fin != nil && (isMadeErr(fin) || o.S.nilErr(fin) == 0)
	}
	ar := o.S.arith()
	same := func(a, b *Term) bool {
		if a == nil || b == nil {
			return false
		}
		a, b = cell.norm(a), cell.norm(b)
		return sameT(a, b) || ar.same(a, b)
	}
	isAt := func(p pos, v *Term) bool {
		for _, t := range p.terms {
			if same(t, v) {
				return true
			}
		}
		return p.cell && cell.base != nil && same(cell.val(), v)
	}
	closeRec := func(ev *Event) {
		if cur == nil {
			return
		}
		c.ob("records taken")
		if decs != 1 {
			c.viol("counted", f, ev, o, "the record taken is counted off %d times", decs)
		}
		var d *Term
		if len(cur.data) > 0 {
			d = mkLen(cur.data[0])
		}
		if d != nil {
			var n pos
			for _, t := range at.terms {
				n.terms = append(n.terms, plus(t, d))
			}
			at = n
		} else {
			at = pos{}
		}
		cur, decs = nil, 0
	}
	// the position after the record taken last
	now := func() pos {
		if cur == nil || len(cur.data) == 0 {
			return at
		}
		var n pos
		for _, t := range at.terms {
			n.terms = append(n.terms, plus(t, mkLen(cur.data[0])))
		}
		return n
	}
	for i, ev := range o.S.events {
		if ev.Kind == "loop" {
			p := now()
			takes := false // does the loop take records
			for _, x := range o.S.events[i:] {
				takes = takes || x.Kind == "recv" || x.Kind == "select"
			}
			closeRec(ev)
			if ev.Loop != nil {
				var n pos
				n.terms = append(n.terms, p.terms...)
				for _, sy := range loopVars(ev.Loop) {
					for _, t := range p.terms {
						if sy.Sym.First != nil && same(sy.Sym.First, t) {
							n.terms = append(n.terms, sy)
						}
					}
					// the position before any record, where the loop takes the first of them
					if len(recs) == 0 && sy.Sym.First != nil && cell.base != nil && same(sy.Sym.First, cell.val()) {
						n.terms = append(n.terms, sy)
					}
				}
				if len(recs) > 0 {
					// what was true after the first record need not be after the others
					var keep []*Term
					for _, t := range n.terms {
						if t.Op == "sym" && t.Sym.Kind == "loop" {
							keep = append(keep, t)
						}
					}
					if takes || end != nil {
						n.terms = keep
					}
				}
				if cell.base != nil && len(recs) > 0 && isAt(p, cell.val()) && takes {
					n.cell = true
					cell = &cellState{eq: map[*Term]*Term{}}
				}
				at = n
			}
			loopAt, loopKey = i, ev.Note
			continue
		}
		// the count
		if ev.Kind == "atomic" && len(ev.Args) > 0 && ev.Args[0].Op == "fld" {
			name := own(ev.Args[0]) + "." + ev.Args[0].Aux
			if ev.Fn == "add" && len(ev.Args) > 1 {
				if k, ok := ev.Args[1].intVal(); ok && k == -1 && (w.wc == "" || w.wc == name) {
					w.wc = name
					count = ev
					if cur == nil {
						c.viol("counted", f, ev, o, "counted off without a record having been taken")
					}
					decs++
					continue
				}
			}
			if name == w.wc || w.wc == "" && ev.Fn == "load" && isInt32(ev.Res) {
				count = ev
				if name == w.wc && ev.Fn != "load" {
					c.viol("counted", f, ev, o, "the count is changed by %s", ev.Fn)
				}
				continue
			}
			if ev.Fn == "load" || ev.Fn == "store" || ev.Fn == "add" {
				if isInt64Ptr(ev.Args[0]) && w.off == "" {
					w.off = name
				}
			}
		}
		if k := w.offEv(ev, w.off); k != "" && w.off != "" {
			first := cell.base == nil
			cell.apply(k, ev)
			if k == "load" && first && !started && len(recs) == 0 {
				at = pos{terms: []*Term{cell.base}}
				started = true
			} else if k == "load" && first && at.cell {
				at.terms = append(at.terms, cell.base)
			}
			continue
		}
		switch ev.Kind {
		case "recv", "select":
			r := recvd(ev)
			if r == nil || r.Typ == nil || !types.Identical(r.Typ, w.rec) {
				if ev.Kind == "select" && ev.Note == "default" {
					continue
				}
				continue
			}
			closeRec(ev)
			cur = &recState{t: r, at: i, before: at}
			recs = append(recs, cur)
			c.ob("receives from the queue")
			if count == nil || !nonZero(o, count.Res, i) {
				if count != nil && ev.Kind == "select" && ev.Fn == "nonblocking" {
					continue
				}
				c.viol("counted", f, ev, o, "a record is taken from the queue without one being counted: the writer may wait for it with the lock held")
			} else if loopAt >= 0 && count.N < loopAt {
				recheck[loopKey] = ev
			}
		case "load":
			if r, n := w.recField(ev.Args[0]); r != nil && w.kindOf(n) == "data" {
				if x := find(r); x != nil {
					x.data = append(x.data, ev.Res)
				}
			}
		case "call":
			switch {
			case hasPre(ev.Fn, "bufio.NewWriter"):
				if len(ev.Args) > 0 && isOSFile(ev.Args[0].Typ) || len(ev.Args) > 0 && isOSFile(stripIface(ev.Args[0]).Typ) {
					bufs[callRes(ev, 0)] = true
				}
			case hasPre(ev.Fn, "(*bufio.Writer).Write", "(*os.File).Write"):
				direct := strings.HasPrefix(ev.Fn, "(*os.File)")
				if !direct && !bufs[ev.Args[0]] {
					c.viol("drained", f, ev, o, "written to something that is not the file")
					continue
				}
				var x *recState
				for _, r := range recs {
					for _, d := range r.data {
						if stripConvAll(derefElem(ev.Args[1])) == d {
							x = r
						}
					}
				}
				if x == nil {
					c.viol("drained", f, ev, o, "writes %s, which are not the bytes of the record taken", ev.Args[1])
					continue
				}
				x.written++
				c.ob("records written")
				if x.written > 1 {
					c.viol("drained", f, ev, o, "a record is written twice")
				}
				for _, r := range recs {
					if r.at > x.at && r.written > 0 {
						c.viol("drained", f, ev, o, "records are written out of order")
					}
				}
				if !direct {
					dirty = ev
				}
			case ev.Fn == "(*bufio.Writer).Flush" && bufs[ev.Args[0]]:
				dirty = nil
				// an error of the flush is the outcome
				if o.Kind == "return" {
					if er := callRes(ev, 0); er != nil && o.S.nilErr(er) != 1 && !failed && fin != nil && fin != er {
						c.viol("told", f, ev, o, "the error of the flush is lost")
					}
				}
			case hasPre(ev.Fn, "(*bufio.Writer).Reset"):
				c.viol("drained", f, ev, o, "what was buffered is thrown away")
			}
		case "store":
			r, n := w.recField(ev.Args[0])
			if r == nil || len(ev.Args) < 2 {
				continue
			}
			x := find(r)
			if x == nil {
				continue
			}
			switch w.kindOf(n) {
			case "offset":
				c.ob("positions")
				if x.told > 0 {
					c.viol("told", f, ev, o, "the position is set after the writer was told")
				}
				if x == cur && !isAt(x.before, ev.Args[1]) {
					c.viol("position", f, ev, o, "the record's position is set to %s, which is not where its bytes go", ev.Args[1])
				} else if x == cur {
					// which of the candidates it is
					var keep []*Term
					for _, t := range at.terms {
						if same(t, ev.Args[1]) {
							keep = append(keep, t)
						}
					}
					if len(keep) > 0 {
						at.terms = keep
					}
				}
				x.offset = true
			case "err":
				if o.Kind != "return" {
					continue
				}
				c.ob("outcomes told")
				if x.told > 0 {
					c.viol("told", f, ev, o, "the outcome is set after the writer was told")
				}
				if dirty != nil && !failed {
					c.viol("told", f, ev, o, "the outcome is set while the bytes are still in the buffer")
				}
				v := ev.Args[1]
				if fin != nil && v != fin && !(o.S.nilErr(v) == 1 && o.S.nilErr(fin) == 1) && !((isMadeErr(v) || o.S.nilErr(v) == 0) && failed) {
					c.viol("told", f, ev, o, "the writer is told %s, the outcome is %s", v, fin)
				}
				x.errSet = true
			}
		case "close":
			if o.Kind != "return" {
				// told inside the loop that takes the records
			}
			r, n := w.recValue(ev.Args[0])
			x := find(r)
			if x == nil || w.kindOf(n) != "done" {
				continue
			}
			c.ob("writers told")
			w.dones[n] = true
			x.told++
			if x.told > 1 {
				c.viol("told", f, ev, o, "a writer is told twice")
			}
			if dirty != nil && !failed {
				c.viol("told", f, ev, o, "a writer is told while its bytes are still in the buffer")
			}
			if x.written == 0 && !failed {
				c.viol("told", f, ev, o, "a writer is told before its bytes are written")
			}
			if w.doneNil(o, x) != 0 {
				c.viol("told", f, ev, o, "the channel closed may be nil: the record need not have one")
			}
			if !x.errSet && o.Kind == "return" && !(o.S.nilErr(fin) == 1) {
				c.viol("told", f, ev, o, "a writer is told without the outcome")
			}
			if !x.offset {
				c.viol("position", f, ev, o, "a writer is told without its position")
			}
		}
	}
	last := now()
	closeRec(nil)
	if end != nil {
		mine := false
		for _, r := range recs {
			if r.at > loopAt {
				mine = true
				if r.written == 0 && r.told == 0 && !w.anyErr(o, end) {
					c.viol("drained", f, o.S.events[r.at], o, "a record is taken and not written")
				}
			}
		}
		if mine {
			if count == nil || !nonZero(o, count.Res, len(o.S.events)) {
				unsure[loopKey] = true
			}
			ok := false
			any := false
			for _, sy := range loopVars(end) {
				for _, r := range recs {
					for _, t := range r.before.terms {
						if t == sy && r.at > loopAt {
							any = true
							for _, l := range last.terms {
								ok = ok || same(sy.Sym.Next, l)
							}
						}
					}
				}
			}
			for _, r := range recs {
				if r.at > loopAt && r.before.cell {
					any = true
					for _, l := range last.terms {
						ok = ok || cell.base != nil && same(cell.val(), l)
					}
				}
			}
			c.ob("running positions")
			if !any || !ok {
				if w.usesOffset(recs) {
					c.viol("position", f, o.S.events[loopAt], o, "the running position does not grow by the bytes of the record taken")
				}
			}
		}
		return len(recs) > 0
	}
	for _, r := range recs {
		c.ob("records followed to the end")
		if r.written == 0 && !failed {
			c.viol("drained", f, o.S.events[r.at], o, "a record is taken and not written, and no error is returned")
		}
		if w.doneNil(o, r) != 1 && r.told == 0 {
			c.viol("told", f, o.S.events[r.at], o, "a writer who waits is not told")
		}
	}
	if dirty != nil && !failed {
		c.viol("drained", f, dirty, o, "what is in the buffer is not flushed")
	}
	if w.off != "" && started {
		c.ob("recorded ends")
		v := cell.val()
		switch {
		case len(recs) == 0:
		case failed:
			if !w.remeasured(o, cell, v) {
				c.viol("position", f, nil, o, "after a failed write the recorded end is not measured again")
			}
		case v == nil && !last.cell || v != nil && !isAt(last, v):
			c.viol("position", f, nil, o, "the recorded end is %v after the queue was written", v)
		}
	}
	return len(recs) > 0
}

func (w *fileCheck) usesOffset(recs []*recState) bool { return len(recs) > 0 }

// anyErr: in this iteration an error of an earlier one is known, and kept.
func (w *fileCheck) anyErr(o *Outcome, li *loopInfo) bool {
	for _, sy := range loopErrs(li) {
		if o.S.nilErr(sy) == 0 && sy.Sym.Next == sy {
			return true
		}
	}
	return false
}

// doneNil: 1 the record has no channel, 0 it has one, -1 unknown.
func (w *fileCheck) doneNil(o *Outcome, r *recState) int {
	for _, f := range o.S.facts {
		if f.T.Op != "bin" || f.T.Aux != "==" {
			continue
		}
		for k := range 2 {
			if f.T.Sub[k] != tNil {
				continue
			}
			if x, n := w.recValue(f.T.Sub[1-k]); x == r.t && w.kindOf(n) == "done" {
				return b2i(f.Truth)
			}
		}
	}
	return -1
}

// remeasured: the value is the end of the file, as the file says, or that could not be found out.
func (w *fileCheck) remeasured(o *Outcome, cell *cellState, v *Term) bool {
	asked := false
	for _, ev := range o.S.events {
		if ev.Kind != "call" {
			continue
		}
		switch {
		case ev.Fn == "(*os.File).Seek" && len(ev.Args) == 3 && ev.Args[1] == tZero && ev.Args[2] == tInt(2):
			asked = true
			if v != nil && v == callRes(ev, 0) || o.S.nilErr(callRes(ev, 1)) == 0 {
				return true
			}
		case ev.Fn == "(*os.File).Stat":
			asked = true
			if o.S.nilErr(callRes(ev, 1)) == 0 {
				return true
			}
		case strings.HasSuffix(ev.Fn, "FileInfo).Size"):
			if asked && v != nil && v == callRes(ev, 0) {
				return true
			}
		}
	}
	return false
}

func loopVars(li *loopInfo) (r []*Term) {
	for _, sy := range li.syms {
		if sy != nil && sy.Sym != nil {
			r = append(r, sy)
		}
	}
	for _, sy := range li.cells {
		if sy != nil && sy.Sym != nil {
			r = append(r, sy)
		}
	}
	return
}

func isInt32(t *Term) bool {
	if t == nil || t.Typ == nil {
		return false
	}
	b, ok := t.Typ.Underlying().(*types.Basic)
	return ok && (b.Kind() == types.Int32 || b.Kind() == types.Uint32)
}

func isInt64Ptr(t *Term) bool {
	if t == nil || t.Typ == nil {
		return false
	}
	p := isPtrTo(t.Typ)
	if p == nil {
		return false
	}
	if b, ok := p.Underlying().(*types.Basic); ok {
		return b.Kind() == types.Int64
	}
	return types.TypeString(p, nil) == "sync/atomic.Int64"
}

func stripIface(t *Term) *Term {
	for t != nil && (t.Op == "iface" || t.Op == "conv") && len(t.Sub) == 1 {
		t = t.Sub[0]
	}
	return t
}

// heldMu: the file's lock is held exclusively there; which it is, is settled by the first use.
func (w *fileCheck) heldMu(ev *Event) bool {
	for _, h := range ev.Locks {
		if h.Read || h.Key == nil {
			continue
		}
		if w.mu == "" {
			w.mu = lockName(h.Key)
		}
		if lockName(h.Key) == w.mu {
			return true
		}
	}
	return false
}

func lockName(k *Term) string {
	if k.Op == "fld" {
		return own(k) + "." + k.Aux
	}
	return k.String()
}

func (w *fileCheck) mutexEv(ev *Event) bool {
	switch ev.Kind {
	case "lock", "unlock", "rlock", "runlock", "tryfail":
		return len(ev.Args) > 0 && (w.mu == "" || lockName(ev.Args[0]) == w.mu)
	}
	return false
}

// agrees: the error returned is this one.
func agrees(s *State, ret, er *Term) bool {
	if ret == nil || er == nil {
		return ret == er
	}
	if ret == er || ret.mentions(er) {
		return true
	}
	r, x := s.nilErr(ret), s.nilErr(er)
	if isMadeErr(ret) {
		r = 0
	}
	return r >= 0 && r == x
}

func (w *fileCheck) op(f *ssa.Function, writes bool) {
	c := w.c
	e := c.engine()
	e.NoPanic = true
	e.Opaque = func(g *ssa.Function) bool { return w.drain[g] }
	recCells := func(s *State, rec *Term) map[string]*Term {
		m := map[string]*Term{}
		for a := range s.mem {
			if a.Op == "fld" && a.Sub[0] == rec {
				m[a.Aux] = a
			}
		}
		return m
	}
	e.OnEvent = func(e *Engine, s *State, ev *Event) {
		switch ev.Kind {
		case "send", "select":
			if ev.Kind == "select" && ev.Note != "send" {
				break
			}
			r, _ := recordType(orAny(ev.Args[1].Typ))
			if r == nil || !types.Identical(r, w.rec) {
				return
			}
			ev.Mem = map[*Term]*Term{}
			for _, a := range recCells(s, ev.Args[1]) {
				v := s.mem[a]
				ev.Mem[a] = v
				if w.kindOf(a.Aux) == "data" {
					if x := e.content(s, v); x != nil {
						ev.Mem[a] = x
					}
				}
			}
			return
		}
	}
	var bs *Term
	if p := bytesParam(f); p != nil {
		for i, q := range f.Params {
			if q == p {
				bs = paramTerms(f)[i]
			}
		}
	}
	closes := f.Name() == "Close"
	for _, o := range c.run(e, f) {
		if o.Kind == "return" || o.Kind == "loop" {
			w.opPath(f, e, o, bs, writes, closes)
		}
	}
}

func (w *fileCheck) opPath(f *ssa.Function, e *Engine, o *Outcome, bs *Term, writes, closes bool) {
	c := w.c
	s := o.S
	ar := s.arith()
	cell := &cellState{eq: map[*Term]*Term{}}
	same := func(a, b *Term) bool {
		if a == nil || b == nil {
			return false
		}
		a, b = cell.norm(a), cell.norm(b)
		return sameT(a, b) || ar.same(a, b)
	}
	var direct, sent, told, pending, need *Event
	var before, done *Term
	unsettled := false // the recorded end does not include the bytes written yet
	counted, nsent, tried, closed := 0, 0, true, false
	flushed := false
	for _, ev := range s.events {
		if w.mutexEv(ev) {
			switch ev.Kind {
			case "lock":
				pending, tried = nil, true
				cell = &cellState{eq: cell.eq}
				if c.isTry(ev) {
					need = ev
				}
			case "tryfail":
				pending, tried = nil, true
			case "unlock", "runlock":
				if need != nil {
					c.viol("not-stranded", f, need, o, "the lock is taken for the queue's sake and left without writing it")
					need = nil
				}
				pending = ev
				if unsettled {
					c.ob("recorded ends")
					if !same(cell.val(), plus(before, callRes(direct, 0))) {
						c.viol("position", f, ev, o, "the lock is released with the recorded end not grown by the bytes written")
					}
					unsettled = false
				}
			}
			continue
		}
		if k := w.offEv(ev, w.off); w.off != "" && k != "" {
			if k != "load" && !w.heldMu(ev) && ev.Args[0].root().Op != "obj" {
				c.viol("position", f, ev, o, "the recorded end is changed without the lock")
			}
			cell.apply(k, ev)
			continue
		}
		if ev.Kind == "atomic" && w.isFld(ev.Args[0], w.wc) {
			switch ev.Fn {
			case "load":
				if pending != nil && ar.le(ev.Res, tZero, 0) {
					pending = nil
				}
			case "add":
				if k, ok := ev.Args[1].intVal(); ok && k == 1 {
					counted++
					continue
				}
				c.viol("counted", f, ev, o, "the count is changed by %s where a record is queued", ev.Args[1])
			default:
				c.viol("counted", f, ev, o, "the count is overwritten")
			}
			continue
		}
		switch {
		case ev.Kind == "repocall" && w.drain[ev.Uses]:
			c.ob("writes of the queue")
			if !w.heldMu(ev) {
				c.viol("exclusive", f, ev, o, "the queue is written without the file's lock held exclusively")
			}
			need, flushed = nil, true
			cell = &cellState{eq: cell.eq}
		case isCloser(ev):
			c.ob("closings")
			closed = true
			if !flushed {
				c.viol("close", f, ev, o, "the file is closed without what is queued being written")
			}
		case fileWrite(ev) && writes:
			c.ob("direct writes")
			if !w.heldMu(ev) {
				c.viol("exclusive", f, ev, o, "the file is written without its lock held exclusively")
			}
			if direct != nil || sent != nil {
				c.viol("whole", f, ev, o, "the bytes are written twice")
			}
			if !hasPre(ev.Fn, "(*os.File).Write") || strings.HasSuffix(ev.Fn, "At") {
				c.viol("whole", f, ev, o, "the bytes are not put at the end of the file")
			}
			if ev.Args[1] != bs && !c.copyOf(e, o, ev.Args[1], bs) {
				c.viol("whole", f, ev, o, "writes %s, which are not the caller's bytes", ev.Args[1])
			}
			direct = ev
			if cell.base == nil {
				cell.base = mkSym("end", types.Typ[types.Int64])
			}
			before, unsettled = cell.val(), true
		case ev.Kind == "send" || ev.Kind == "select" && ev.Note == "send":
			r, _ := recordType(orAny(ev.Args[1].Typ))
			if r == nil || !types.Identical(r, w.rec) {
				continue
			}
			c.ob("records queued")
			nsent++
			if direct != nil || sent != nil {
				c.viol("whole", f, ev, o, "the bytes are written twice")
			}
			sent, tried = ev, false
			if counted != nsent {
				c.viol("counted", f, ev, o, "a record is queued that was not counted before: whoever looks at the count will leave it in the queue")
			}
			var data *Term
			for a, v := range ev.Mem {
				switch w.kindOf(a.Aux) {
				case "data":
					data = v
				case "done":
					if v != tNil {
						done = v
					}
				}
			}
			if bs == nil || data != bs && !c.copyOf(e, o, orNil(data), bs) {
				c.viol("whole", f, ev, o, "the record queued has the bytes %v, which are not the caller's", data)
			}
		case (ev.Kind == "recv" || ev.Kind == "select" && ev.Note == "recv") && done != nil && ev.Args[0] == done:
			told = ev
		}
	}
	if o.Kind != "return" {
		return
	}
	if need != nil && len(s.locks) == 0 {
		c.viol("not-stranded", f, need, o, "the lock is taken for the queue's sake and left without writing it")
	}
	if pending != nil {
		c.viol("not-stranded", f, pending, o, "after the lock is released nobody looks whether something was queued meanwhile")
	}
	if !tried {
		c.viol("not-stranded", f, sent, o, "a record is queued and the lock is not tried: it may stay there")
	}
	if counted != nsent {
		c.viol("counted", f, nil, o, "%d records are counted and %d queued", counted, nsent)
	}
	if closes && !closed {
		c.viol("close", f, nil, o, "the file is not closed")
	}
	if !writes {
		return
	}
	c.ob("outcomes of writes")
	er := o.Ret[1]
	failed := isMadeErr(er) || s.nilErr(er) == 0
	isCount := !isInt64(f.Signature.Results().At(0).Type())
	switch {
	case direct != nil:
		if !agrees(s, er, callRes(direct, 1)) {
			c.viol("answer", f, direct, o, "the error returned is %s, the write's is %s", er, callRes(direct, 1))
		}
		if isCount && !same(o.Ret[0], callRes(direct, 0)) {
			c.viol("answer", f, direct, o, "%s bytes are reported, the write reported %s", o.Ret[0], callRes(direct, 0))
		}
		if !isCount && !failed && !same(o.Ret[0], before) {
			c.viol("position", f, direct, o, "the position returned, %s, is not the end of the file before the write", o.Ret[0])
		}
	case sent != nil && done != nil:
		if told == nil {
			if !failed {
				c.viol("answer", f, sent, o, "returns without waiting to be told that the bytes were written")
			}
			return
		}
		if !w.isTold(o, er, told) && !failed && !w.toldNil(o, told, er) {
			c.viol("answer", f, told, o, "the error returned, %s, is not what the writer was told", er)
		}
		if isMadeErr(er) && !w.toldErr(o, told) {
			c.viol("answer", f, told, o, "an error is returned although the writer may have been told of none")
		}
		if !isCount && !failed && !w.isTold(o, o.Ret[0], told) {
			c.viol("position", f, told, o, "the position returned, %s, is not what the writer was told", o.Ret[0])
		}
		if isCount && !failed && !same(o.Ret[0], mkLen(bs)) {
			c.viol("answer", f, told, o, "%s bytes are reported", o.Ret[0])
		}
	case sent != nil:
		if !isCount && !failed {
			c.viol("answer", f, sent, o, "a position is returned without the bytes having been written")
		}
		if isCount && !failed && !same(o.Ret[0], mkLen(bs)) {
			c.viol("answer", f, sent, o, "%s bytes are reported of those queued", o.Ret[0])
		}
	default:
		ar2 := s.arith()
		if !failed && !ar2.le(mkLen(bs), tZero, 0) {
			c.viol("whole", f, nil, o, "returns without an error although nothing was written or queued")
		}
	}
}

func orNil(t *Term) *Term {
	if t == nil {
		return tNil
	}
	return t
}

// isTold: the value was read from the record after the writer was told.
func (w *fileCheck) isTold(o *Outcome, t *Term, told *Event) bool {
	t = stripConv(t)
	if t == nil {
		return false
	}
	for _, ev := range o.S.events {
		if ev.Kind == "load" && ev.Res == t {
			if r, n := w.recField(ev.Args[0]); r == nil || n == "" || ev.N < told.N {
				return false
			}
			return true
		}
	}
	return false
}

// toldNil: nil is returned, and what the writer was told is known to be nil.
func (w *fileCheck) toldNil(o *Outcome, told *Event, er *Term) bool {
	if o.S.nilErr(er) != 1 {
		return false
	}
	for _, f := range o.S.facts {
		for _, x := range f.T.Sub {
			if f.T.Op == "bin" && f.T.Aux == "==" && f.Truth && f.T.mentions(tNil) && w.isTold(o, x, told) {
				return true
			}
		}
	}
	return false
}

func (w *fileCheck) toldErr(o *Outcome, told *Event) bool {
	for _, f := range o.S.facts {
		for _, x := range f.T.Sub {
			if f.T.Op == "bin" && f.T.Aux == "==" && !f.Truth && f.T.mentions(tNil) && w.isTold(o, x, told) {
				return true
			}
		}
	}
	return false
}

func isInt64(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Kind() == types.Int64
}

// opened judges the functions that make an append file.
func (w *fileCheck) opened(f *ssa.Function) {
	c := w.c
	e := c.engine()
	e.NoPanic = true
	makes := false
	for i := 0; i < f.Signature.Results().Len(); i++ {
		if _, ok := f.Signature.Results().At(i).Type().Underlying().(*types.Interface); ok && !isErr(f.Signature.Results().At(i).Type()) {
			makes = true
		}
	}
	if !makes {
		return
	}
	for _, o := range c.run(e, f) {
		if o.Kind != "return" {
			continue
		}
		c.ob("files opened")
		s := o.S
		for _, ev := range s.events {
			if ev.Kind != "call" {
				continue
			}
			switch ev.Fn {
			case "os.OpenFile":
				fl, ok := ev.Args[1].intVal()
				if !ok || fl&int64(os.O_APPEND) == 0 || fl&int64(os.O_CREATE) == 0 || fl&int64(os.O_TRUNC|os.O_EXCL) != 0 || fl&int64(os.O_RDWR|os.O_WRONLY) == 0 {
					c.viol("position", f, ev, o, "the file is not opened for appending to what it has: flags %s", ev.Args[1])
				}
			case "os.Create", "(*os.File).Truncate":
				c.viol("position", f, ev, o, "what the file has is thrown away")
			}
		}
		er := o.Ret[len(o.Ret)-1]
		if isMadeErr(er) || s.nilErr(er) == 0 {
			continue
		}
		ok := false
		for a, v := range s.mem {
			if !w.isFld(a, w.off) {
				continue
			}
			for _, ev := range s.events {
				if ev.Kind == "call" && ev.Fn == "(*os.File).Seek" && ev.Args[1] == tZero && ev.Args[2] == tInt(2) && v == callRes(ev, 0) && s.nilErr(callRes(ev, 1)) == 1 {
					ok = true
				}
				if ev.Kind == "call" && strings.HasSuffix(ev.Fn, "FileInfo).Size") && v == callRes(ev, 0) {
					ok = true
				}
			}
		}
		if !ok {
			c.viol("position", f, nil, o, "the recorded end does not start at the end of the file")
		}
	}
}

func init() {
	checks["C12"] = checkDef{c12, "what every path of the append file's operations and of the drain of its queue does with the caller's bytes, the records, the count, the lock and the recorded end of the file"}
}
