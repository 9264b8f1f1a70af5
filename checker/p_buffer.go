package main

import (
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// ---------- C22: the byte buffer ----------

// parts flattens a byte sequence built by appending.
func (e *Engine) parts(s *State, t *Term) []*Term {
	if t == nil {
		return nil
	}
	switch t.Op {
	case "append", "stream", "concat":
		var r []*Term
		for _, x := range t.Sub {
			r = append(r, e.parts(s, x)...)
		}
		return r
	case "conv":
		if (t.Aux == "bytes" || t.Aux == "string") && len(t.Sub) == 1 {
			return e.parts(s, t.Sub[0])
		}
		if len(t.Sub) == 1 && t.Typ != nil {
			if _, ok := t.Typ.Underlying().(*types.Slice); ok {
				return e.parts(s, t.Sub[0])
			}
		}
	case "list":
		var r []*Term
		for _, x := range t.Sub {
			r = append(r, mk("list", "", x))
		}
		return r
	case "app":
		if t.Aux == "bufbytes" {
			return e.parts(s, t.Sub[0])
		}
	}
	if t == tNil || t == tStr("") || mkLen(t) == tZero {
		return nil
	}
	if c := e.content(s, t); c != t && c.Op == "list" {
		return e.parts(s, c)
	}
	return []*Term{t}
}

func c22(c *Ctx) {
	if c.load("") == nil {
		return
	}
	c.P = c.progs[""]
	thisProg = c.P
	c.rule("write: on every path the buffer afterwards is what it was followed by exactly the data, and the number reported is the data's length; a path that reports an error changes nothing")
	c.rule("read: on every path the bytes copied out are the first of the buffer, their number is what is reported, and exactly they are removed; end of file is reported, with no bytes and no change, exactly when nothing is left and something was asked for")
	c.rule("nil: an operation that can report an error touches the buffer only where it is known not to be nil")
	c.rule("observe: length, bytes and text are those of the whole buffer; a reset or new buffer is empty")
	writers := 0
	for _, f := range c.methods("buffer", "Buffer") {
		n := f.Name()
		res := f.Signature.Results()
		hasErr := res.Len() > 0 && isErr(res.At(res.Len()-1).Type())
		switch {
		case strings.HasPrefix(n, "Write") && hasErr && f.Signature.Params().Len() == 1:
			writers++
			c.bufWrite(f)
		case n == "Read" && hasErr:
			c.bufRead(f)
		case n == "Len" || n == "Bytes" || n == "String":
			c.bufSee(f)
		case n == "Reset":
			e := c.engine()
			for _, o := range c.run(e, f) {
				if o.Kind != "return" {
					continue
				}
				c.ob("resets")
				if v := bufNow(e, o.S, e.Params[0]); !empty(o.S, v) {
					c.viol("observe", f, nil, o, "after a reset the buffer holds %s", v)
				}
			}
		}
	}
	if writers == 0 {
		c.fail("the buffer has no write methods")
	}
	if c.pub("buffer", "Buffer", "Read") == nil {
		return
	}
	for _, f := range c.entryPoints("buffer") {
		sig := f.Signature
		if sig.Recv() != nil || sig.Results().Len() != 1 || shortKey(typeKey(sig.Results().At(0).Type())) != "buffer.Buffer" {
			continue
		}
		e := c.engine()
		for _, o := range c.run(e, f) {
			if o.Kind != "return" || o.Ret[0].root().Op != "obj" {
				continue
			}
			c.ob("new buffers")
			v := bufNow(e, o.S, o.Ret[0])
			if p := e.Params; len(p) == 1 && isByteSlice(p[0].Typ) {
				if stripConvAll(v) != p[0] {
					c.viol("observe", f, nil, o, "the new buffer holds %s, not the bytes given", v)
				}
			} else if !empty(o.S, v) {
				c.viol("observe", f, nil, o, "the new buffer holds %s", v)
			}
		}
	}
}

func isByteSlice(t types.Type) bool {
	if t == nil {
		return false
	}
	s, ok := t.Underlying().(*types.Slice)
	if !ok {
		return false
	}
	b, ok := s.Elem().Underlying().(*types.Basic)
	return ok && b.Kind() == types.Byte
}

func stripConvAll(t *Term) *Term {
	for t != nil && t.Op == "conv" && len(t.Sub) == 1 {
		t = t.Sub[0]
	}
	return t
}

func empty(s *State, v *Term) bool {
	ar := s.arith()
	return v == tNil || ar.le(mkLen(v), tZero, 0)
}

// bufNow is the slice the buffer holds at the end of the path.
func bufNow(e *Engine, s *State, b *Term) *Term {
	t := b.Typ
	var el types.Type = types.NewSlice(types.Typ[types.Byte])
	if t != nil {
		if p, ok := t.Underlying().(*types.Pointer); ok {
			el = p.Elem()
		}
	}
	return e.load(s, b, el)
}

// bufAt: the slice the buffer held to begin with.
func bufWas(e *Engine, b *Term) *Term { return bufNow(e, newState(), b) }

// nilSafe: the buffer is touched only where it is known to exist.
func (c *Ctx) nilSafe(f *ssa.Function, o *Outcome, b *Term) bool {
	isNil := mkBin("==", b, tNil, types.Typ[types.Bool])
	for _, ev := range o.S.events {
		if (ev.Kind == "load" || ev.Kind == "store") && ev.Args[0] == b {
			known := false
			for _, fc := range o.S.facts[:min(ev.NF, len(o.S.facts))] {
				if fc.T == isNil && !fc.Truth {
					known = true
				}
			}
			if v, ok := o.S.factOf(isNil); ok && !v {
				known = true
			}
			if !known {
				c.viol("nil", f, ev, o, "a nil buffer panics instead of being reported")
				return false
			}
		}
	}
	return true
}

func (c *Ctx) bufWrite(f *ssa.Function) {
	e := c.engine()
	outs := c.run(e, f)
	b, p := e.Params[0], e.Params[1]
	was := bufWas(e, b)
	good := 0
	for _, o := range outs {
		if o.Kind == "loop" {
			continue
		}
		if o.Kind != "return" {
			c.viol("write", f, nil, o, "it may %s", o.Kind)
			continue
		}
		c.ob("writes")
		if !c.nilSafe(f, o, b) {
			continue
		}
		isNil := o.S.nilErr(b) == 1
		now := was
		if !isNil {
			now = bufNow(e, o.S, b)
		}
		er := o.S.nilErr(o.Ret[len(o.Ret)-1])
		var n *Term
		if len(o.Ret) == 2 {
			n = o.Ret[0]
		}
		if er != 1 {
			if !isNil {
				c.viol("write", f, nil, o, "writing to a buffer may fail")
				continue
			}
			if now != was || n != nil && n != tZero {
				c.viol("write", f, nil, o, "a failed write reports %s bytes", n)
			}
			continue
		}
		if isNil {
			c.viol("nil", f, nil, o, "a write to a nil buffer is reported as done")
			continue
		}
		good++
		ar := o.S.arith()
		if now == was {
			// nothing appended: there was nothing
			if w, _, ok := intWidth(p.Typ); ok && w > 0 || !ar.le(mkLen(p), tZero, 0) {
				c.viol("write", f, nil, o, "nothing is appended")
				continue
			}
			if n != nil && !(n == tZero || ar.same(n, mkLen(p))) {
				c.viol("write", f, nil, o, "%s bytes are reported for an empty write", n)
			}
			continue
		}
		ps := e.parts(o.S, now)
		if len(ps) == 0 || stripConvAll(ps[0]) != was {
			c.viol("write", f, nil, o, "the buffer becomes %s: what it held is not kept", now)
			continue
		}
		ps = ps[1:]
		if _, _, isInt := intWidth(p.Typ); isInt && p.Typ != nil && !isByteSlice(p.Typ) && isIntType(p.Typ) {
			k := len(ps)
			want := 4
			if w, _, _ := intWidth(p.Typ); w == 8 {
				want = 1
			} else if d := digitsOf(f.Name()); d > 0 {
				want = d / 8
			} else {
				want = w / 8
			}
			bad := k != want
			for i := 0; !bad && i < k; i++ {
				if ps[i].Op != "list" || !sameByte(ps[i].Sub[0], p, 8*(k-1-i)) {
					bad = true
				}
			}
			if bad {
				c.viol("write", f, nil, o, "what is appended is %s, not the %d bytes of the argument, highest first", ps, want)
				continue
			}
			if n != nil && !ar.same(n, tInt(int64(want))) {
				c.viol("write", f, nil, o, "%s bytes are reported and %d written", n, want)
			}
			continue
		}
		if len(ps) != 1 || stripConvAll(ps[0]) != p {
			c.viol("write", f, nil, o, "what is appended is %s, not the data", ps)
			continue
		}
		if n != nil && !ar.same(n, mkLen(p)) {
			c.viol("write", f, nil, o, "%s bytes are reported and %s written", n, mkLen(p))
		}
	}
	if good == 0 && len(c.viols) == 0 {
		c.viol("write", f, nil, nil, "no path writes")
	}
}

func isIntType(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsInteger != 0
}

func digitsOf(n string) int {
	d := 0
	for _, r := range n {
		if r >= '0' && r <= '9' {
			d = d*10 + int(r-'0')
		}
	}
	return d
}

// front: t is the beginning of base (all of it, or up to some bound).
func front(t, base *Term) bool {
	t = stripConvAll(t)
	for t.Op == "slice" && t.Sub[1] == tZero {
		t = stripConvAll(t.Sub[0])
	}
	return t == base
}

func (c *Ctx) bufRead(f *ssa.Function) {
	e := c.engine()
	outs := c.run(e, f)
	b, p := e.Params[0], e.Params[1]
	was := bufWas(e, b)
	good := 0
	for _, o := range outs {
		if o.Kind != "return" {
			c.viol("read", f, nil, o, "it may %s", o.Kind)
			continue
		}
		c.ob("reads")
		if !c.nilSafe(f, o, b) {
			continue
		}
		isNil := o.S.nilErr(b) == 1
		now := was
		if !isNil {
			now = bufNow(e, o.S, b)
		}
		ar := o.S.arith()
		n := o.Ret[0]
		var cps []*Event
		for _, ev := range o.S.events {
			if ev.Kind == "copy" {
				cps = append(cps, ev)
			}
			if ev.Kind == "store" && ev.Note != "private" && ev.Args[0] != b {
				c.viol("read", f, ev, o, "it writes to %s", ev.Args[0])
			}
		}
		if o.S.nilErr(o.Ret[1]) != 1 {
			if n != tZero || len(cps) > 0 {
				c.viol("read", f, nil, o, "%s bytes are reported together with the end", n)
				continue
			}
			if !isNil && !(now == was || empty(o.S, now) && empty(o.S, was)) {
				c.viol("read", f, nil, o, "reporting the end changes the buffer")
				continue
			}
			if !ar.le(tOne, mkLen(p), 0) {
				if v, ok := o.S.factOf(mkBin("==", tZero, mkLen(p), types.Typ[types.Bool])); !ok || v {
					c.viol("read", f, nil, o, "the end is reported although nothing was asked for")
					continue
				}
			}
			if !isNil && !ar.le(mkLen(was), tZero, 0) {
				c.viol("read", f, nil, o, "the end is reported although something may be left")
				continue
			}
			if !isNil && o.Ret[1].String() != "io.EOF" {
				c.viol("read", f, nil, o, "the end is reported as %s", o.Ret[1])
			}
			continue
		}
		if isNil {
			if n != tZero {
				c.viol("read", f, nil, o, "%s bytes are reported from a nil buffer", n)
			} else if !ar.le(mkLen(p), tZero, 0) {
				c.viol("nil", f, nil, o, "a nil buffer reports no error")
			}
			continue
		}
		// neither empty nor nothing asked, or nothing asked
		ar2 := o.S.arith()
		ar2.assume(mkBin("<", mkLen(p), tOne, nil), false)
		ar2.assume(mkBin("<", mkLen(was), tOne, nil), true)
		if !ar2.contradictory() && !zeroAsk(o.S, p, was) {
			c.viol("read", f, nil, o, "no end is reported although nothing is left")
			continue
		}
		good++
		cnt := tZero
		if len(cps) > 1 {
			c.viol("read", f, cps[1], o, "it copies twice")
			continue
		}
		if len(cps) == 1 {
			if !front(cps[0].Args[0], p) || !front(cps[0].Args[1], was) {
				c.viol("read", f, cps[0], o, "it copies %s to %s, not the front of the buffer to the front of the argument", cps[0].Args[1], cps[0].Args[0])
				continue
			}
			cnt = cps[0].Res
		}
		if !ar.same(n, cnt) {
			c.viol("read", f, nil, o, "%s bytes are reported and %s copied", n, cnt)
			continue
		}
		// something is read when there is something
		// exactly those are removed
		left := false
		switch {
		case now == was:
			left = ar.le(cnt, tZero, 0)
		default:
			x := stripConvAll(now)
			if x.Op == "slice" && stripConvAll(x.Sub[0]) == was && ar.same(x.Sub[1], cnt) && (x.Sub[2].Op == "none" || ar.same(x.Sub[2], mkLen(was))) {
				left = true
			} else if ar.le(mkLen(now), tZero, 0) && ar.le(mkLen(was), cnt, 0) {
				left = true
			}
		}
		if !left {
			c.viol("read", f, nil, o, "after reading %s bytes the buffer is %s", cnt, now)
			continue
		}
		// no bytes although some were there and asked for
		if len(cps) == 0 && !ar.le(mkLen(p), tZero, 0) && !ar.le(mkLen(was), tZero, 0) {
			c.viol("read", f, nil, o, "nothing is read")
		}
	}
	if good == 0 && len(c.viols) == 0 {
		c.viol("read", f, nil, nil, "no path reads")
	}
}

// zeroAsk: the path's facts say that nothing was asked for or that something is there.
func zeroAsk(s *State, p, was *Term) bool {
	if v, ok := s.factOf(mkBin("==", tZero, mkLen(was), types.Typ[types.Bool])); ok && !v {
		return true
	}
	if v, ok := s.factOf(mkBin("==", tZero, mkLen(p), types.Typ[types.Bool])); ok && v {
		return true
	}
	return false
}

func (c *Ctx) bufSee(f *ssa.Function) {
	e := c.engine()
	outs := c.run(e, f)
	b := e.Params[0]
	was := bufWas(e, b)
	for _, o := range outs {
		if o.Kind != "return" {
			c.viol("observe", f, nil, o, "it may %s", o.Kind)
			continue
		}
		c.ob("observations")
		r := o.Ret[0]
		if o.S.nilErr(b) == 1 {
			if !(r == tNil || r == tZero || r == tStr("")) {
				c.viol("observe", f, nil, o, "a nil buffer gives %s", r)
			}
			continue
		}
		if now := bufNow(e, o.S, b); now != was {
			c.viol("observe", f, nil, o, "looking at the buffer changes it to %s", now)
			continue
		}
		if f.Name() == "Len" {
			if !o.S.arith().same(r, mkLen(was)) {
				c.viol("observe", f, nil, o, "the length is given as %s", r)
			}
			continue
		}
		ps := e.parts(o.S, r)
		if len(ps) == 0 && empty(o.S, was) {
			continue
		}
		if len(ps) != 1 || stripConvAll(ps[0]) != was {
			c.viol("observe", f, nil, o, "the contents are given as %s", r)
		}
	}
}

// ---------- C23: pools ----------

// mayReach: functions that may, directly or through others of the module, do what is asked.
func (p *Prog) mayReach(is func(ssa.Instruction) bool) map[*ssa.Function]bool {
	r := map[*ssa.Function]bool{}
	for ch := true; ch; {
		ch = false
		for _, f := range p.Funcs {
			if r[f] {
				continue
			}
			for _, b := range f.Blocks {
				for _, in := range b.Instrs {
					hit := is(in)
					for _, op := range in.Operands(nil) {
						switch g := (*op).(type) {
						case *ssa.Function:
							hit = hit || r[p.fnBody(g)] || r[g] || g.Origin() != nil && r[g.Origin()]
						case *ssa.MakeClosure:
							hit = hit || r[g.Fn.(*ssa.Function)]
						}
					}
					if hit && !r[f] {
						r[f] = true
						ch = true
					}
				}
			}
		}
	}
	return r
}

func callsMethod(in ssa.Instruction, name string) bool {
	ci, ok := in.(ssa.CallInstruction)
	if !ok {
		return false
	}
	g := ci.Common().StaticCallee()
	return g != nil && g.String() == name
}

// partOf: t is x or memory reached through it.
func partOf(t, x *Term, d int) bool {
	if t == nil || d > 40 {
		return false
	}
	if t == x || sameT(t, x) {
		return true
	}
	switch t.Op {
	case "fld", "idx", "init", "f", "slice", "at", "append":
		if t.Op == "init" || t.Op == "f" || t.Op == "at" {
			if t.Typ != nil && !carries(t.Typ, 0) {
				return false
			}
		}
		return partOf(t.Sub[0], x, d+1)
	case "conv":
		if t.Aux == "bytes" || t.Aux == "string" || t.Typ != nil && !carries(t.Typ, 0) {
			return false
		}
		return len(t.Sub) == 1 && partOf(t.Sub[0], x, d+1)
	case "tuple", "struct", "list", "closure", "iface":
		for _, y := range t.Sub {
			if partOf(y, x, d+1) {
				return true
			}
		}
	}
	return false
}

// carries: values of the type refer to memory.
func carries(t types.Type, d int) bool {
	if d > 8 {
		return true
	}
	switch u := t.Underlying().(type) {
	case *types.Basic:
		return u.Kind() == types.UnsafePointer
	case *types.Array:
		return carries(u.Elem(), d+1)
	case *types.Struct:
		for i := 0; i < u.NumFields(); i++ {
			if carries(u.Field(i).Type(), d+1) {
				return true
			}
		}
		return false
	}
	return true
}

const poolPut, poolGet = "(*sync.Pool).Put", "(*sync.Pool).Get"

func c23(c *Ctx) {
	if c.load("") == nil {
		return
	}
	c.P = c.progs[""]
	thisProg = c.P
	c.rule("clean: what a pool hands out is the pool's object, reset after it was taken and not changed since; every pool of the module's own is made with a reset that empties")
	c.rule("fresh: a pool makes each of its objects anew")
	c.rule("put: a pool is given exactly the object handed in, once, when there is one, says so, and clears the reference it was handed in by")
	c.rule("released: after an object has gone back to a pool no path uses it or memory reached through it, puts it back again, keeps it, or returns it")
	puts := c.P.mayReach(func(in ssa.Instruction) bool { return callsMethod(in, poolPut) })
	gets := c.P.mayReach(func(in ssa.Instruction) bool { return callsMethod(in, poolGet) })
	var fs []*ssa.Function
	for f := range puts {
		fs = append(fs, f)
	}
	for f := range gets {
		if !puts[f] {
			fs = append(fs, f)
		}
	}
	sort.Slice(fs, func(i, j int) bool { return fnName(fs[i]) < fnName(fs[j]) })
	n := 0
	for _, f := range fs {
		if f.Parent() != nil || f.Name() == "init" && f.Synthetic != "" {
			continue
		}
		n++
		c.poolUse(f)
	}
	if n == 0 {
		c.fail("no function uses a pool")
	}
	for _, f := range c.entryPoints("pool/buffer") {
		c.poolGiver(f)
	}
	c.poolsMade()
}

// views are the results of calls that give a view of the object's memory.
func views(evs []*Event, x *Term) []*Term {
	var r []*Term
	for _, ev := range evs {
		if (ev.Kind == "call" || ev.Kind == "repocall" || ev.Kind == "pure") && len(ev.Args) > 0 && ev.Res != nil && sameT(ev.Args[0], x) {
			switch {
			case strings.HasSuffix(ev.Fn, ").Bytes"), strings.HasSuffix(ev.Fn, ").Next"), strings.HasSuffix(ev.Fn, ").AvailableBuffer"), strings.HasSuffix(ev.Fn, ").Peek"):
				r = append(r, ev.Res)
			}
		}
	}
	return r
}

func (c *Ctx) poolUse(f *ssa.Function) {
	e := c.engine()
	outs := c.run(e, f)
	for _, o := range outs {
		evs := o.S.events
		for i, ev := range evs {
			if ev.Kind != "pool" || ev.Fn != "Put" || len(ev.Args) < 2 {
				continue
			}
			c.ob("objects returned to pools")
			x := ev.Args[1]
			vs := views(evs[:i], x)
			uses := func(t *Term) bool {
				if partOf(t, x, 0) {
					return true
				}
				for _, v := range vs {
					if partOf(t, v, 0) {
						return true
					}
				}
				return false
			}
			for _, l := range evs[i+1:] {
				if l.Kind == "pool" && l.Fn == "Get" || l.Kind == "loop" {
					continue
				}
				hit := false
				for k, a := range l.Args {
					// the pool itself and the cell that is cleared are not the object
					if uses(a) && !(l.Kind == "store" && k == 0 && !partOf(a, x, 0)) {
						hit = true
					}
				}
				if hit {
					what := "used"
					if l.Kind == "pool" {
						what = "returned again"
					}
					c.viol("released", f, l, o, "%s is %s after it went back to the pool", x, what)
					break
				}
			}
			if o.Kind == "return" {
				for _, r := range o.Ret {
					if uses(r) {
						c.viol("released", f, ev, o, "%s is returned to the caller although %s went back to the pool", r, x)
					}
				}
			}
			// kept elsewhere
			kept := map[*Term]*Event{}
			var order []*Term
			for _, l := range evs {
				if l.Kind == "store" && l.Note != "private" && l.Args[0].root() != x.root() {
					if kept[l.Args[0]] == nil {
						order = append(order, l.Args[0])
					}
					kept[l.Args[0]] = l
				}
			}
			for _, a := range order {
				if l := kept[a]; uses(l.Args[1]) && !partOf(a, x, 0) {
					c.viol("released", f, l, o, "%s is still kept in %s although it went back to the pool", x, a)
				}
			}
		}
	}
}

func isPtrTo(t types.Type) types.Type {
	if p, ok := t.Underlying().(*types.Pointer); ok {
		return p.Elem()
	}
	return nil
}

// truth of a boolean on the path: 1, 0, or -1 when open.
func (s *State) truth(t *Term) int {
	switch t {
	case tTrue:
		return 1
	case tFalse:
		return 0
	}
	if t.Op == "not" {
		if v := s.truth(t.Sub[0]); v >= 0 {
			return 1 - v
		}
		return -1
	}
	if v, ok := s.factOf(t); ok {
		return b2i(v)
	}
	return -1
}

// poolGiver: operations of the pool types themselves.
func (c *Ctx) poolGiver(f *ssa.Function) {
	if f.Signature.Recv() == nil {
		return
	}
	e := c.engine()
	outs := c.run(e, f)
	var in *Term
	var inCell bool // given by reference
	if f.Name() == "Put" && len(e.Params) == 2 {
		in = e.Params[1]
		if el := isPtrTo(in.Typ); el != nil && isPtrTo(el) != nil {
			inCell = true
			in = e.load(newState(), in, el)
		}
	}
	nput := 0
	for _, o := range outs {
		if o.Kind != "return" {
			continue
		}
		var got, put *Event
		for _, ev := range o.S.events {
			if ev.Kind == "pool" && ev.Fn == "Get" {
				got = ev
			}
			if ev.Kind == "pool" && ev.Fn == "Put" {
				if put != nil {
					c.viol("put", f, ev, o, "it puts twice")
				}
				put = ev
			}
		}
		if in != nil {
			c.ob("puts")
			isNil := o.S.nilErr(in)
			if put == nil {
				if isNil != 1 {
					c.viol("put", f, nil, o, "an object given is not put into the pool")
				}
				if len(o.Ret) == 1 && o.S.truth(o.Ret[0]) != 0 {
					c.viol("put", f, nil, o, "it reports an object as taken that was not")
				}
				continue
			}
			nput++
			if !sameT(put.Args[1], in) {
				c.viol("put", f, put, o, "what is put into the pool is %s, not what was given", put.Args[1])
			}
			if isNil != 0 {
				c.viol("put", f, put, o, "a nil object may be put into the pool")
			}
			if len(o.Ret) == 1 && o.S.truth(o.Ret[0]) != 1 {
				c.viol("put", f, put, o, "it does not report the object as taken")
			}
			if inCell {
				if v := e.load(o.S, e.Params[1], in.Typ); o.S.nilErr(v) != 1 {
					c.viol("put", f, put, o, "the reference it was given by still leads to the object")
				}
			}
			continue
		}
		// what is handed out
		for _, r := range o.Ret {
			if isPtrTo(orAny(r.Typ)) == nil && r.Op != "sym" {
				continue
			}
			if f.Name() != "Get" {
				continue
			}
			c.ob("gets")
			if got == nil {
				if r.root().Op == "obj" || r == tNil {
					continue
				}
				c.viol("clean", f, nil, o, "what is handed out, %s, is not from the pool", r)
				continue
			}
			if r == tNil {
				if o.S.nilErr(got.Res) != 1 {
					c.viol("clean", f, got, o, "the object taken from the pool is not handed out")
				}
				continue
			}
			if !sameT(stripConvAll(r), got.Res) {
				if r.root().Op == "obj" && o.S.nilErr(got.Res) == 1 {
					continue
				}
				c.viol("clean", f, got, o, "what is handed out, %s, is not what was taken", r)
				continue
			}
			c.cleaned(f, o, got)
		}
	}
	if in != nil && nput == 0 {
		c.viol("put", f, nil, nil, "it never puts anything into the pool")
	}
}

func orAny(t types.Type) types.Type {
	if t == nil {
		return types.Typ[types.Int]
	}
	return t
}

// cleaned: the object is reset after it is taken, and not written to since.
func (c *Ctx) cleaned(f *ssa.Function, o *Outcome, got *Event) {
	x := got.Res
	after := false
	clean := false
	for _, ev := range o.S.events {
		if ev == got {
			after = true
			continue
		}
		if !after {
			continue
		}
		touches := false
		for _, a := range ev.Args {
			touches = touches || sameT(a, x)
		}
		if !touches {
			continue
		}
		switch {
		case ev.Kind == "dyncall" && ev.Args[0].Op == "init" && len(ev.Args) == 2 && sameT(ev.Args[1], x):
			// the pool's own reset function
			clean = true
		case ev.Kind == "call" && strings.HasSuffix(ev.Fn, ").Reset") && sameT(ev.Args[0], x):
			clean = true
		case ev.Kind == "call" && strings.HasSuffix(ev.Fn, ").Truncate") && len(ev.Args) == 2 && ev.Args[1] == tZero:
			clean = true
		case ev.Kind == "load":
		case ev.Kind == "call" && (strings.HasSuffix(ev.Fn, ").Len") || strings.HasSuffix(ev.Fn, ").Cap") || strings.HasSuffix(ev.Fn, ").Grow")):
		default:
			clean = false
		}
	}
	if clean {
		return
	}
	// a pool without a reset function
	for _, fc := range o.S.facts {
		if fc.Truth && fc.T.Op == "bin" && fc.T.Aux == "==" && (fc.T.Sub[0] == tNil || fc.T.Sub[1] == tNil) {
			y := fc.T.Sub[0]
			if y == tNil {
				y = fc.T.Sub[1]
			}
			if y.Op == "init" && y.Typ != nil {
				if _, ok := y.Typ.Underlying().(*types.Signature); ok {
					return
				}
			}
		}
	}
	c.viol("clean", f, got, o, "the object taken from the pool is handed out without having been reset")
}

// poolsMade: constructors of pools, and the pools the module makes for itself.
func (c *Ctx) poolsMade() {
	// New functions make new objects
	for _, f := range c.entryPoints("pool/buffer") {
		if f.Signature.Recv() != nil {
			continue
		}
		e := c.engine()
		e.NoPanic = true
		outs := c.run(e, f)
		n := 0
		for _, o := range outs {
			for _, a := range sortedCells(o.S) {
				if v := o.S.mem[a]; a.Op == "fld" && a.Aux == "New" && own(a) == "sync.Pool" && v != nil && v != tNil {
					n++
					c.madeAnew(f, o, v, e)
				}
			}
			// the reset given is the reset kept
			if o.Kind == "return" && len(o.Ret) == 1 {
				for _, p := range e.Params {
					sg, ok := p.Typ.Underlying().(*types.Signature)
					if !ok || sg.Results().Len() != 0 || sg.Params().Len() != 1 {
						continue
					}
					kept := false
					for a, v := range o.S.mem {
						if a.root() == o.Ret[0].root() && v == p {
							kept = true
						}
					}
					if st := o.Ret[0]; !kept && st.Op == "struct" {
						for _, v := range st.Sub {
							kept = kept || v == p
						}
					}
					c.ob("reset functions")
					if !kept && o.S.nilErr(p) != 1 {
						c.viol("clean", f, nil, o, "the reset function given is not kept")
					}
				}
			}
		}
		if n == 0 {
			c.viol("fresh", f, nil, nil, "the pool is made without a way to make objects")
		}
	}
	// pools of the module's own
	for _, f := range c.P.Funcs {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				ci, ok := in.(ssa.CallInstruction)
				if !ok {
					continue
				}
				g := ci.Common().StaticCallee()
				if g == nil {
					continue
				}
				if g.Origin() != nil {
					g = g.Origin()
				}
				if pkgOf(g) != "pool/buffer" || g.Signature.Recv() != nil {
					continue
				}
				for i, p := range g.Params {
					sg, ok := p.Type().Underlying().(*types.Signature)
					if !ok || sg.Results().Len() != 0 || sg.Params().Len() != 1 {
						continue
					}
					c.ob("pools of the module")
					c.resets(f, in, ci.Common().Args[i])
				}
			}
		}
	}
}

// madeAnew: the function makes a new object in every call.
func (c *Ctx) madeAnew(f *ssa.Function, o *Outcome, v *Term, e *Engine) {
	fn, binds := e.resolve(o.S, v, nil, &ssa.CallCommon{Value: f})
	if fn == nil {
		return
	}
	c.ob("object makers")
	e2 := c.engine()
	s := o.S.clone()
	s.frames, s.panic = nil, nil
	s.events = nil
	for _, oo := range e2.RunFrom(fn, nil, binds, s) {
		if oo.Kind != "return" || len(oo.Ret) != 1 {
			continue
		}
		r := oo.Ret[0]
		good := false
		if rt := r.root(); rt.Op == "obj" {
			// allocated by this call
			good = o.S.mem[rt] == nil && !seenObj(o.S, rt)
		}
		for _, x := range oo.S.events {
			if (x.Kind == "dyncall" || x.Kind == "call") && x.Res != nil && sameT(stripConvAll(r), x.Res) {
				good = true
			}
		}
		if !good {
			c.viol("fresh", fn, nil, oo, "what the pool makes, %s, is not new in every call", r)
		}
	}
}

func sortedCells(s *State) []*Term {
	var r []*Term
	for a := range s.mem {
		r = append(r, a)
	}
	sort.Slice(r, func(i, j int) bool { return r[i].id < r[j].id })
	return r
}

func seenObj(s *State, x *Term) bool {
	for a, v := range s.mem {
		if a.root() == x || v != nil && v.mentions(x) {
			return true
		}
	}
	return false
}

// resets: the argument is a function that empties what it is given.
func (c *Ctx) resets(f *ssa.Function, at ssa.Instruction, v ssa.Value) {
	for {
		switch x := v.(type) {
		case *ssa.ChangeType:
			v = x.X
			continue
		case *ssa.MakeClosure:
			v = x.Fn
			continue
		}
		break
	}
	fn, ok := v.(*ssa.Function)
	if !ok {
		if k, isK := v.(*ssa.Const); isK && k.IsNil() {
			c.viol("clean", f, nil, nil, "the pool made at %s has no reset", c.P.pos(at.Pos()))
		}
		return
	}
	fn = c.P.fnBody(fn)
	if fn == nil || len(fn.Params) != 1 {
		return
	}
	e := c.engine()
	for _, o := range c.run(e, fn) {
		if o.Kind != "return" {
			continue
		}
		el := isPtrTo(fn.Params[0].Type())
		if el == nil {
			continue
		}
		if _, isSl := el.Underlying().(*types.Slice); !isSl {
			continue
		}
		if o.S.nilErr(e.Params[0]) == 1 {
			continue
		}
		if now := bufNow(e, o.S, e.Params[0]); !empty(o.S, now) {
			c.viol("clean", fn, nil, o, "after the reset the object holds %s", now)
		}
	}
}

// ---------- C32: the signal listener ----------

func c32(c *Ctx) {
	if c.load("") == nil {
		return
	}
	c.P = c.progs[""]
	thisProg = c.P
	c.rule("register: before it returns, every path registers exactly the signals given on a channel of its own that holds at least one")
	c.rule("deliver: the goroutine it starts waits on that channel and hands what it receives, and nothing else, to the handler")
	n := 0
	for _, f := range c.entryPoints("gosignal") {
		sig := f.Signature
		var h, sg *types.Var
		for i := 0; i < sig.Params().Len(); i++ {
			p := sig.Params().At(i)
			switch u := p.Type().Underlying().(type) {
			case *types.Signature:
				h = p
			case *types.Slice:
				if typeKey(u.Elem()) == "os.Signal" {
					sg = p
				}
			}
		}
		if h == nil || sg == nil {
			continue
		}
		n++
		c.listen(f)
	}
	if n == 0 {
		c.fail("no signal listener")
	}
}

func (c *Ctx) listen(f *ssa.Function) {
	e := c.engine()
	e.GoAlways = true
	outs := c.run(e, f)
	var h, sg *Term
	for _, p := range e.Params {
		switch p.Typ.Underlying().(type) {
		case *types.Signature:
			h = p
		case *types.Slice:
			sg = p
		}
	}
	for _, o := range outs {
		if o.Kind == "loop" {
			continue
		}
		if o.Kind != "return" {
			c.viol("register", f, nil, o, "it may %s", o.Kind)
			continue
		}
		c.ob("paths")
		var ntf, goer *Event
		caps := map[*Term]*Term{}
		for _, ev := range o.S.events {
			switch {
			case ev.Kind == "makechan":
				caps[ev.Args[0]] = ev.Args[1]
			case ev.Fn == "os/signal.Notify":
				if ntf != nil {
					c.viol("register", f, ev, o, "it registers twice")
				}
				ntf = ev
			case hasPre(ev.Fn, "os/signal."):
				c.viol("register", f, ev, o, "%s is called", ev.Fn)
			case ev.Kind == "go":
				if len(ev.Body) > 0 {
					goer = ev
				}
			case ev.Kind == "recv" || ev.Kind == "select":
				c.viol("deliver", f, ev, o, "the caller itself waits")
			}
		}
		if ntf == nil {
			c.viol("register", f, nil, o, "no signal is registered before it returns")
			continue
		}
		ch := stripConvAll(ntf.Args[0])
		k := caps[ch]
		if k == nil {
			c.viol("register", f, ntf, o, "the signals go to %s, not to a channel of this listener", ch)
			continue
		}
		if !o.S.arith().le(tOne, k, 0) {
			c.viol("register", f, ntf, o, "the channel holds %s signals: one that arrives before the goroutine waits is lost", k)
		}
		if !sameT(ntf.Args[1], sg) {
			if el := e.content(o.S, ntf.Args[1]); !sameT(el, sg) && !c.copyOf(e, o, ntf.Args[1], sg) {
				c.viol("register", f, ntf, o, "the signals registered are %s, not those given", ntf.Args[1])
			}
		}
		if goer == nil {
			c.viol("deliver", f, nil, o, "nobody waits for the signal")
			continue
		}
		c.delivered(f, o, goer, ch, h)
	}
}

func (c *Ctx) copyOf(e *Engine, o *Outcome, t, src *Term) bool {
	ps := e.parts(o.S, t)
	return len(ps) == 1 && stripConvAll(ps[0]) == src
}

func (c *Ctx) delivered(f *ssa.Function, o *Outcome, goer *Event, ch, h *Term) {
	done := 0
	for _, b := range goer.Body {
		c.ob("goroutine paths")
		var rcv *Event
		given := false
		ended := false
		for _, ev := range b.S.events {
			switch ev.Kind {
			case "recv":
				if !sameT(stripConvAll(ev.Args[0]), ch) {
					c.viol("deliver", f, ev, b, "the goroutine waits on %s", ev.Args[0])
					return
				}
				rcv = ev
			case "dyncall":
				if !sameT(ev.Args[0], h) {
					continue
				}
				given = true
				if rcv == nil || len(ev.Args) != 2 || !sameT(stripConvAll(ev.Args[1]), recvd(rcv)) {
					c.viol("deliver", f, ev, b, "the handler is given %s, not the signal received", ev.Args[len(ev.Args)-1])
					return
				}
			default:
				if rcv == nil && hasPre(ev.Fn, "os/signal.Stop", "os/signal.Reset", "os/signal.Ignore") && ev.Stack != nil && len(ev.Stack) > 1 {
					c.viol("deliver", f, ev, b, "%s is called before the signal", ev.Fn)
				}
			}
		}
		if b.Kind == "loop" {
			continue
		}
		if rcv != nil && rcv.Res != nil && rcv.Res.Op == "tuple" && len(rcv.Res.Sub) == 2 {
			if v, ok := b.S.factOf(rcv.Res.Sub[1]); ok && !v {
				ended = true // the channel was closed
			}
		}
		if b.Kind == "return" && !given && !ended {
			c.viol("deliver", f, goer, b, "the goroutine ends without telling the handler")
			return
		}
		if given {
			done++
		}
	}
	if done == 0 {
		c.viol("deliver", f, goer, o, "the handler is never told")
	}
}

func recvd(ev *Event) *Term {
	if ev.Res != nil && ev.Res.Op == "tuple" {
		return ev.Res.Sub[0]
	}
	return ev.Res
}

func init() {
	checks["C22"] = checkDef{c22, "path-sensitive abstract interpretation of the buffer's slice with value numbering and a linear-arithmetic domain: contents before and after, count and error of every path"}
	checks["C23"] = checkDef{c23, "path-sensitive typestate analysis of pooled objects (taken, reset, given back) with an alias closure over what is reached through them"}
	checks["C32"] = checkDef{c32, "path-sensitive event-order analysis of channel, registration and goroutine, goroutine body included"}
}
