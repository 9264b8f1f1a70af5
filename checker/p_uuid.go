package main

import (
	"fmt"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// ---------- C24: UUIDs ----------

func isUUID(t types.Type) (ptr, ok bool) {
	if p, isP := t.Underlying().(*types.Pointer); isP {
		t, ptr = p.Elem(), true
	}
	return ptr, shortKey(typeKey(t)) == "uuid.UUID"
}

func c24(c *Ctx) {
	if c.load("") == nil {
		return
	}
	c.P = c.progs[""]
	thisProg = c.P
	c.rule("unique: on every path the 62 bits of a UUID's sequence part are the low bits of the result of one atomic step by one of one fixed counter, each in a fixed place")
	c.rule("counter: nothing else changes that counter")
	c.rule("version: bits 4-7 of byte 6 are 0100 and bits 6-7 of byte 8 are 10 (origin of every bit), and Version and Variant report them, for every value of those bytes")
	c.rule("text: the text is the canonical 8-4-4-4-12 lower-case hexadecimal form of the bytes")
	c.rule("equal: two UUIDs are reported equal exactly where every byte has been compared")
	n := 0
	for _, f := range c.entryPoints("uuid") {
		sig := f.Signature
		if sig.Recv() != nil || sig.Params().Len() != 0 {
			continue
		}
		for i := 0; i < sig.Results().Len(); i++ {
			if ptr, ok := isUUID(sig.Results().At(i).Type()); ok {
				n++
				c.makes(f, i, ptr)
			}
		}
	}
	if n == 0 {
		c.fail("no function makes UUIDs")
	}
	c.uuidString("text")
	if f := c.pub("uuid", "UUID", "Equals"); f != nil {
		c.equals(f)
	}
	if f := c.pub("uuid", "UUID", "Version"); f != nil {
		c.byteFunc(f, 6, func(v, r int64) bool { return r == v>>4 })
	}
	if f := c.pub("uuid", "UUID", "Variant"); f != nil {
		c.byteFunc(f, 8, func(v, r int64) bool { return (r == 1) == (v>>6 == 2) })
	}
}

// bytesOf are the n bytes of an array value, or of the array behind a pointer.
func (e *Engine) bytesOf(s *State, t *Term, ptr bool, n int) []*Term {
	bt := types.Typ[types.Byte]
	var r []*Term
	for k := 0; k < n; k++ {
		if ptr {
			r = append(r, e.load(s, mkIdx(t, tInt(int64(k)), types.NewPointer(bt)), bt))
			continue
		}
		v := mkAt(t, tInt(int64(k)), bt)
		if t.Op == "arr" {
			v = e.load(s, mkIdx(t.Sub[0], tInt(int64(k)), types.NewPointer(bt)), bt)
		} else if t.Op == "list" && k < len(t.Sub) {
			v = t.Sub[k]
		}
		r = append(r, v)
	}
	return r
}

// bump: on this path the event moves a counter on by one; its address and the new value.
func (s *State) bump(e *Engine, ev *Event) (addr, val *Term) {
	switch {
	case ev.Kind == "atomic" && ev.Fn == "add" && len(ev.Args) > 1 && ev.Args[1] == tOne:
		return ev.Args[0], ev.Res
	case ev.Kind == "atomic" && ev.Fn == "cas" && ev.Note == "won" && sameT(ev.Args[2], mkBin("+", ev.Args[1], tOne, ev.Args[2].Typ)):
		return ev.Args[0], ev.Args[2]
	case ev.Kind == "store" && ev.Note != "private" && len(ev.Locks) > 0:
		// an ordinary increment within one hold of a lock
		for _, l := range s.events {
			if l == ev {
				break
			}
			if l.Kind == "load" && sameT(l.Args[0], ev.Args[0]) && l.Res != nil && sameT(ev.Args[1], mkBin("+", l.Res, tOne, ev.Args[1].Typ)) && sameHold(s.events, l, ev) {
				return ev.Args[0], ev.Args[1]
			}
		}
	}
	return nil, nil
}

// one object for the whole process.
func (c *Ctx) oneCounter(a *Term) bool {
	for {
		switch a.Op {
		case "fld", "idx", "f":
			a = a.Sub[0]
			continue
		case "global":
			return true
		case "init":
			a = a.Sub[0]
			if a.Op != "global" {
				if a.Op == "fld" && c.P.stable(own(a), a.Aux) {
					continue
				}
				return false
			}
			g := c.P.global(a.Aux)
			return g != nil && c.P.constGlobal(g)
		}
		return false
	}
}

func (c *Ctx) makes(f *ssa.Function, res int, ptr bool) {
	e := c.engine()
	e.NoPanic = true
	outs := c.run(e, f)
	var place []string // by bit of the sequence: where it is in the UUID
	var ctr *Term
	for _, o := range outs {
		switch o.Kind {
		case "loop":
			continue
		case "return":
		default:
			c.viol("unique", f, nil, o, "it may %s", o.Kind)
			continue
		}
		c.ob("UUIDs made")
		if r := o.Ret[res].root(); ptr && r.Op != "obj" {
			c.viol("unique", f, nil, o, "the UUID returned is %s, not one of its own", o.Ret[res])
			continue
		}
		by := e.bytesOf(o.S, o.Ret[res], ptr, 16)
		bad := ""
		for j, want := range []int{0, 1, 0, 0} {
			if (bitOf(by[6], 7-j) != Bit{nil, want}) {
				bad = fmt.Sprintf("the version is not 4: bit %d of byte 6 is %s", 7-j, bitOf(by[6], 7-j))
			}
		}
		for j, want := range []int{1, 0} {
			if (bitOf(by[8], 7-j) != Bit{nil, want}) {
				bad = fmt.Sprintf("the variant is not that of RFC 4122: bit %d of byte 8 is %s", 7-j, bitOf(by[8], 7-j))
			}
		}
		if bad != "" {
			c.viol("version", f, nil, o, "%s", bad)
		}
		// the sequence part
		why := "no step of a counter is made for it"
		nb := 0
		for _, ev := range o.S.events {
			a, v := o.S.bump(e, ev)
			if a == nil || v == nil {
				continue
			}
			if !c.oneCounter(a) {
				why = fmt.Sprintf("the counter %s is not one for the whole process", a)
				continue
			}
			at := map[Bit]string{}
			for i := 0; i < 16; i++ {
				for j := 0; j < 8; j++ {
					if b := bitOf(by[i], j); b.V != nil && (b.V == v || sameT(b.V, v)) {
						at[Bit{v, b.I}] = fmt.Sprintf("%d.%d", i, j)
					}
				}
			}
			var pl []string
			miss := -1
			for k := 0; k < 62; k++ {
				w, ok := at[Bit{v, k}]
				if !ok && miss < 0 {
					miss = k
				}
				pl = append(pl, w)
			}
			if miss >= 0 {
				why = fmt.Sprintf("bit %d of the counter's new value is not in the UUID", miss)
				continue
			}
			nb++
			if ctr == nil {
				ctr, place = a, pl
			}
			if !sameT(a, ctr) {
				why = fmt.Sprintf("%s counts on this path and %s on another", a, ctr)
				nb = 99
			} else if strings.Join(pl, ",") != strings.Join(place, ",") {
				why = "the counter's value is placed differently on different paths"
				nb = 99
			}
		}
		// steps of the same counter that are not used: fewer UUIDs before the sequence repeats
		if nb == 1 {
			tot := 0
			for _, ev := range o.S.events {
				if a, _ := o.S.bump(e, ev); a != nil && sameT(a, ctr) {
					tot++
				}
			}
			if tot != 1 {
				why = fmt.Sprintf("the counter is moved %d times for one UUID", tot)
				nb = 99
			}
		}
		if nb != 1 {
			c.viol("unique", f, nil, o, "%s", why)
		}
	}
	if ctr != nil {
		c.onlySteps(f, ctr, outs)
	}
}

// onlySteps: no instruction of the module changes the counter otherwise than by a step.
func (c *Ctx) onlySteps(f *ssa.Function, ctr *Term, outs []*Outcome) {
	steps := map[ssa.Instruction]bool{}
	e := c.engine()
	for _, o := range outs {
		for _, ev := range o.S.events {
			if a, _ := o.S.bump(e, ev); a != nil && sameT(a, ctr) {
				steps[ev.Instr] = true
			}
		}
	}
	bad := map[string]*ssa.Function{}
	seen := map[ssa.Value]bool{}
	var use func(v ssa.Value, in *ssa.Function, fresh bool)
	use = func(v ssa.Value, in *ssa.Function, fresh bool) {
		if seen[v] || v.Referrers() == nil {
			return
		}
		seen[v] = true
		for _, r := range *v.Referrers() {
			c.ob("uses of the counter")
			switch x := r.(type) {
			case *ssa.UnOp, *ssa.DebugRef:
			case *ssa.Store:
				if x.Addr == v && !fresh && !steps[x] && !(in.Name() == "init" && in.Synthetic != "") {
					bad["it is set at "+c.P.pos(x.Pos())] = in
				} else if x.Val == v {
					bad["its address is kept at "+c.P.pos(x.Pos())] = in
				}
			case ssa.CallInstruction:
				if steps[x] || fresh {
					continue
				}
				cc := x.Common()
				g := cc.StaticCallee()
				if g == nil {
					bad["its address is passed on at "+c.P.pos(x.Pos())] = in
					continue
				}
				n := fnName(g)
				if strings.Contains(n, "sync/atomic") || g.Pkg != nil && g.Pkg.Pkg.Path() == "sync/atomic" {
					b := g.Name()
					switch {
					case strings.HasPrefix(b, "Load"):
					case strings.HasPrefix(b, "Add"):
						if k, ok := cc.Args[len(cc.Args)-1].(*ssa.Const); !ok || constTerm(k) != tOne {
							bad["it is moved by another amount at "+c.P.pos(x.Pos())] = in
						}
					default:
						bad["it is changed at "+c.P.pos(x.Pos())] = in
					}
					continue
				}
				for i, a := range cc.Args {
					if a == v && i < len(g.Params) {
						use(g.Params[i], g, false)
					}
				}
			case *ssa.FieldAddr:
				use(x, in, fresh)
			case *ssa.Phi, *ssa.ChangeType:
				use(x.(ssa.Value), in, fresh)
			}
		}
	}
	for _, fn := range c.P.Funcs {
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				if fa, ok := in.(*ssa.FieldAddr); ok && ctr.Op == "fld" && typeKey(fa.X.Type()) == own(ctr) && structFieldName(fa.X.Type(), fa.Field) == ctr.Aux {
					_, fresh := fa.X.(*ssa.Alloc)
					use(fa, fn, fresh)
				}
				if ctr.Op == "global" {
					for _, op := range in.Operands(nil) {
						if g, ok := (*op).(*ssa.Global); ok && g == c.P.global(ctr.Aux) {
							if _, isFA := in.(*ssa.FieldAddr); !isFA {
								use(g, fn, false)
							}
						}
					}
				}
			}
		}
	}
	var ks []string
	for k := range bad {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	for _, k := range ks {
		c.viol("counter", bad[k], nil, nil, "the counter %s: %s", ctr, k)
	}
}

// wholeValue: the term is all of the UUID (the array behind the pointer, or the array value).
func wholeValue(t, p *Term) bool {
	for {
		switch {
		case t == p:
			return true
		case t.Op == "init" && len(t.Sub) == 1:
			t = t.Sub[0]
		case t.Op == "slice" && t.Sub[1] == tZero && (t.Sub[2].Op == "none" || t.Sub[2] == tInt(16)):
			t = t.Sub[0]
		case t.Op == "conv" && len(t.Sub) == 1:
			t = t.Sub[0]
		default:
			return false
		}
	}
}

// eqAll: what the truth of the term says about the equality of all bytes: 1 the same, 0 the opposite, -1 unrelated.
func eqAll(t, a, b *Term) int {
	neg := 1
	for t.Op == "not" {
		t = t.Sub[0]
		neg = 1 - neg
	}
	two := func(x, y *Term) bool {
		return wholeValue(x, a) && wholeValue(y, b) || wholeValue(x, b) && wholeValue(y, a)
	}
	isPtr := func(x *Term) bool { return x == a || x == b }
	switch {
	case t.Op == "bin" && t.Aux == "==" && !isPtr(t.Sub[0]) && !isPtr(t.Sub[1]) && two(t.Sub[0], t.Sub[1]):
		return neg
	case t.Op == "bin" && t.Aux == "==" && (t.Sub[0] == tZero || t.Sub[1] == tZero):
		x := t.Sub[0]
		if x == tZero {
			x = t.Sub[1]
		}
		if x.Op == "app" && (x.Aux == "bytes.Compare" || x.Aux == "strings.Compare") && two(x.Sub[0], x.Sub[1]) {
			return neg
		}
		if x.Op == "app" && x.Aux == "crypto/subtle.ConstantTimeCompare" && two(x.Sub[0], x.Sub[1]) {
			return 1 - neg
		}
	case t.Op == "bin" && t.Aux == "==" && (t.Sub[0] == tOne || t.Sub[1] == tOne):
		x := t.Sub[0]
		if x == tOne {
			x = t.Sub[1]
		}
		if x.Op == "app" && x.Aux == "crypto/subtle.ConstantTimeCompare" && two(x.Sub[0], x.Sub[1]) {
			return neg
		}
	case t.Op == "app" && t.Aux == "bytes.Equal" && two(t.Sub[0], t.Sub[1]):
		return neg
	}
	return -1
}

func (c *Ctx) equals(f *ssa.Function) {
	e := c.engine()
	outs := c.run(e, f)
	if len(e.Params) != 2 {
		c.fail("Equals has %d parameters", len(e.Params))
		return
	}
	a, b := e.Params[0], e.Params[1]
	// a comparison of one byte of each
	byteEq := func(t *Term) *Term {
		if t.Op == "bin" && t.Aux == "==" {
			for i := 0; i < 2; i++ {
				x, y := elemIndex(t.Sub[i], a), elemIndex(t.Sub[1-i], b)
				if x != nil && y != nil && x == y {
					return x
				}
			}
		}
		return nil
	}
	var sw []*swept
	for _, o := range outs {
		if o.Kind == "panic" {
			c.viol("equal", f, nil, o, "it may panic")
			continue
		}
		if o.Kind != "return" && o.Kind != "loop" {
			continue
		}
		c.ob("comparisons")
		known := -1
		var idx []*Term
		var at []int
		ptr := false
		for _, fc := range o.S.facts {
			if k := eqAll(fc.T, a, b); k >= 0 {
				if fc.Truth {
					known = k
				} else {
					known = 1 - k
				}
			}
			if fc.T.Op == "bin" && fc.T.Aux == "==" && fc.Truth {
				if x, y := fc.T.Sub[0], fc.T.Sub[1]; x == a && y == b || x == b && y == a {
					ptr = true
				}
			}
			if x := byteEq(fc.T); x != nil {
				if !fc.Truth {
					known = 0
					continue
				}
				pos := 0
				if len(loopSyms(x)) > 0 {
					pos = 1 << 30
				} else if l := lastLoop(o); l >= 0 {
					pos = l - 1
				}
				idx = append(idx, x)
				at = append(at, pos)
			}
		}
		if ptr {
			known = 1
		}
		isNilB := o.S.nilErr(b) == 1
		if o.Kind == "loop" {
			sw = append(sw, &swept{o: o, idx: idx, at: at, n: tInt(16)})
			continue
		}
		r := o.Ret[0]
		switch {
		case r == tTrue:
			if known == 1 {
				continue
			}
			if known == 0 || isNilB {
				c.viol("equal", f, nil, o, "different UUIDs are reported equal")
				continue
			}
			sw = append(sw, &swept{o: o, idx: idx, at: at, n: tInt(16)})
		case r == tFalse:
			if known != 0 && !isNilB {
				c.viol("equal", f, nil, o, "UUIDs not shown to differ are reported different")
			}
		default:
			if k := eqAll(r, a, b); k != 1 {
				c.viol("equal", f, nil, o, "the answer is %s, not the comparison of all bytes", r)
			}
		}
	}
	if len(sw) > 0 {
		if o, why := covers(sw); o != nil {
			c.viol("equal", f, nil, o, "UUIDs are reported equal although %s", why)
		}
	}
}

// value computes a term of one unknown byte.
func valueOf(t *Term, leaf map[*Term]int64, is func(*Term) bool, v int64) (int64, bool) {
	if is(t) {
		return v, true
	}
	if n, ok := t.intVal(); ok {
		return n, true
	}
	if t == tTrue || t == tFalse {
		return map[*Term]int64{tTrue: 1, tFalse: 0}[t], true
	}
	switch t.Op {
	case "not":
		x, ok := valueOf(t.Sub[0], leaf, is, v)
		return 1 - x, ok
	case "conv":
		x, ok := valueOf(t.Sub[0], leaf, is, v)
		if !ok {
			return 0, false
		}
		switch t.Aux {
		case "u8":
			return x & 0xff, true
		case "u16":
			return x & 0xffff, true
		case "u32":
			return x & 0xffffffff, true
		case "i8":
			return int64(int8(x)), true
		case "i16":
			return int64(int16(x)), true
		case "i32":
			return int64(int32(x)), true
		case "i64", "u64":
			return x, true
		}
		if t.Typ != nil && t.Sub[0].Typ != nil && lossless(t.Sub[0].Typ, t.Typ) {
			return x, true
		}
	case "bin":
		x, ok1 := valueOf(t.Sub[0], leaf, is, v)
		y, ok2 := valueOf(t.Sub[1], leaf, is, v)
		if !ok1 || !ok2 {
			return 0, false
		}
		k := func(b bool) (int64, bool) {
			if b {
				return 1, true
			}
			return 0, true
		}
		var r int64
		switch t.Aux {
		case "==":
			return k(x == y)
		case "<":
			return k(x < y)
		case "&":
			r = x & y
		case "|":
			r = x | y
		case "^":
			r = x ^ y
		case "&^":
			r = x &^ y
		case "+":
			r = x + y
		case "-":
			r = x - y
		case "*":
			r = x * y
		case "<<":
			if y < 0 || y > 62 {
				return 0, false
			}
			r = x << uint(y)
		case ">>":
			if y < 0 || y > 62 {
				return 0, false
			}
			r = x >> uint(y)
		case "/":
			if y == 0 {
				return 0, false
			}
			r = x / y
		case "%":
			if y == 0 {
				return 0, false
			}
			r = x % y
		default:
			return 0, false
		}
		if w, u, ok := intWidth(t.Typ); ok && w < 64 {
			if u {
				r &= 1<<uint(w) - 1
			} else {
				r = r << uint(64-w) >> uint(64-w)
			}
		}
		return r, true
	}
	return 0, false
}

// byteFunc: the result depends on one byte of the UUID only, as given.
func (c *Ctx) byteFunc(f *ssa.Function, k int64, good func(v, r int64) bool) {
	e := c.engine()
	outs := c.run(e, f)
	is := func(t *Term) bool {
		n, ok := intOf(elemIndex(t, e.Params[0]))
		return ok && n == k
	}
	for v := int64(0); v < 256; v++ {
		n := 0
		for _, o := range outs {
			if o.Kind != "return" {
				continue
			}
			taken := true
			for _, fc := range o.S.facts {
				if x, ok := valueOf(fc.T, nil, is, v); ok && (x == 1) != fc.Truth {
					taken = false
					break
				}
			}
			if !taken {
				continue
			}
			c.ob("byte values")
			n++
			r, ok := valueOf(o.Ret[0], nil, is, v)
			if !ok {
				c.viol("version", f, nil, o, "the result %s is no function of byte %d", o.Ret[0], k)
				return
			}
			if !good(v, r) {
				c.viol("version", f, nil, o, "for a byte %d of %#02x the answer is %d", k, v, r)
				return
			}
		}
		if n == 0 {
			c.viol("version", f, nil, nil, "for a byte %d of %#02x there is no answer", k, v)
			return
		}
	}
}

func init() {
	checks["C24"] = checkDef{c24, "path-sensitive abstract interpretation with a bit-provenance domain (the origin of every bit of a UUID) and an effect scan of the sequence counter"}
}
