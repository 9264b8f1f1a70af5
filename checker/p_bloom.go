package main

import (
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// ---------- C27: the bloom filter ----------

const bloomT = "cache.BloomFilter"

// fieldOf is the content of a field when the operation starts.
func fieldNow(e *Engine, s *State, recv *Term, name string) *Term {
	pt, ok := recv.Typ.Underlying().(*types.Pointer)
	if !ok {
		return nil
	}
	st, ok := pt.Elem().Underlying().(*types.Struct)
	if !ok {
		return nil
	}
	for i := 0; i < st.NumFields(); i++ {
		if st.Field(i).Name() == name {
			a := mkFld(recv, name, types.NewPointer(st.Field(i).Type()))
			setOwn(a, typeKey(recv.Typ))
			return e.load(s, a, st.Field(i).Type())
		}
	}
	return nil
}

// normPow writes shifts and masks of unsigned numbers as divisions and remainders.
func normPow(t *Term) *Term {
	memo := map[*Term]*Term{}
	var rec func(*Term) *Term
	rec = func(t *Term) *Term {
		if t == nil || len(t.Sub) == 0 {
			return t
		}
		if r := memo[t]; r != nil {
			return r
		}
		memo[t] = t
		sub := make([]*Term, len(t.Sub))
		ch := false
		for i, x := range t.Sub {
			sub[i] = rec(x)
			ch = ch || sub[i] != x
		}
		r := t
		if ch {
			m := map[*Term]*Term{}
			for i := range sub {
				m[t.Sub[i]] = sub[i]
			}
			r = subst(t, m)
		}
		if r.Op == "bin" && isUnsigned(r.Typ) {
			if n, ok := r.Sub[1].intVal(); ok && r.Aux == ">>" && n > 0 && n < 62 {
				r = mkBin("/", r.Sub[0], tInt(1<<uint(n)), r.Typ)
			} else if r.Aux == "&" {
				for i := range r.Sub {
					if n, ok := r.Sub[i].intVal(); ok && n > 0 && n&(n+1) == 0 {
						r = mkBin("%", r.Sub[1-i], tInt(n+1), r.Typ)
						break
					}
				}
			} else if r.Aux == "<<" && len(r.Sub) == 2 {
				if n, ok := r.Sub[1].intVal(); ok && n > 0 && n < 62 {
					r = mkBin("*", r.Sub[0], tInt(1<<uint(n)), r.Typ)
				}
			}
		}
		memo[t] = r
		return r
	}
	return rec(t)
}

// bitPos is a bit of a segment: the word and the bit in it, as functions of the seed number.
type bitPos struct {
	word, bit *Term // with the seed replaced by seedHole
	i         *Term // the seed's number
}

var seedHole = mk("hole", "seed")

// position reads a word index and a mask.
func position(word, mask *Term) (p bitPos, ok bool) {
	word, mask = normPow(word), normPow(mask)
	if mask.Op != "bin" || mask.Aux != "<<" {
		return
	}
	if n, isOne := mask.Sub[0].intVal(); !isOne || n != 1 {
		return
	}
	m := map[*Term]*Term{}
	bad := false
	word.walk(func(x *Term) bool {
		if isInit(x) && x.Sub[0].Op == "idx" && isField(x.Sub[0].Sub[0], bloomT, "seeds") {
			if p.i != nil && p.i != x.Sub[0].Sub[1] {
				bad = true
			}
			p.i = x.Sub[0].Sub[1]
			m[x] = seedHole
			return false
		}
		return true
	})
	if p.i == nil || bad {
		return
	}
	p.word, p.bit = subst(word, m), subst(mask.Sub[1], m)
	return p, true
}

type bloomPath struct {
	o     *Outcome
	facts []Fact // with every reading of the counter replaced by F
}

var bloomF = func() *Term { t := mkSym("count", types.Typ[types.Uint64]); return t }()

// bloomPaths reads the number of items added as one number per path.
func (c *Ctx) bloomPath(f *ssa.Function, o *Outcome, adds bool) *bloomPath {
	p := &bloomPath{o: o}
	n := 0
	for _, ev := range o.S.events {
		if ev.Kind != "atomic" || ev.Args[0].Op != "fld" || shortKey(own(ev.Args[0])) != bloomT {
			continue
		}
		if len(ev.Locks) == 0 {
			c.viol("one-count", f, ev, o, "the number of items is used outside the lock")
		}
		switch ev.Fn {
		case "load":
		case "add":
			k, ok := ev.Args[1].intVal()
			n++
			if !adds || !ok || k != 1 || n > 1 {
				c.viol("one-count", f, ev, o, "the number of items does not rise by exactly one")
			}
		default:
			c.viol("one-count", f, ev, o, "the number of items is changed by %s", ev.Fn)
		}
	}
	nl := 0
	for _, ev := range o.S.events {
		if (ev.Kind == "lock" || ev.Kind == "rlock") && ev.Args[0].Op == "fld" && shortKey(own(ev.Args[0])) == bloomT {
			nl++
			if adds && ev.Kind == "rlock" {
				c.viol("one-count", f, ev, o, "items are added under a read lock")
			}
		}
	}
	if nl > 1 {
		c.viol("one-count", f, nil, o, "the operation is not one critical section")
	}
	if adds && n == 0 && o.Kind == "return" {
		c.viol("one-count", f, nil, o, "an item is added without being counted")
	}
	p.facts = bloomFacts(o.S, adds)
	return p
}

// bloomFacts are the facts of a path with every reading of the count replaced by the one number it is while the lock
// is held.
func bloomFacts(s *State, adds bool) (r []Fact) {
	m := map[*Term]*Term{}
	counted := !adds
	for _, ev := range s.events {
		if ev.Kind != "atomic" || ev.Res == nil || ev.Args[0].Op != "fld" || shortKey(own(ev.Args[0])) != bloomT {
			continue
		}
		counted = counted || ev.Fn == "add"
		m[ev.Res] = bloomF
		if !counted {
			m[ev.Res] = mkBin("+", bloomF, tInt(-1), types.Typ[types.Uint64])
		}
	}
	for _, fa := range s.facts {
		r = append(r, Fact{normPow(subst(fa.T, m)), fa.Truth})
	}
	return r
}

func bloomArith(facts []Fact, more ...Fact) *Arith {
	a := &Arith{}
	for _, fa := range facts {
		a.assume(fa.T, fa.Truth)
	}
	for _, fa := range more {
		a.assume(fa.T, fa.Truth)
	}
	return a
}

type bloomRange struct {
	lo, hi *Term
	seg    int64
}

// segment: the address or content is one of the filter's segments; its number.
func segment(t *Term) (int64, bool) {
	if isInit(t) {
		t = t.Sub[0]
	}
	if t.Op == "idx" && t.Sub[0].Op == "fld" && t.Sub[0].Aux == "bits" && shortKey(own(t.Sub[0])) == bloomT {
		return t.Sub[1].intVal()
	}
	return 0, false
}

func c27(c *Ctx) {
	c.rule("one-count: adding counts the item exactly once, before it decides on the segment, and every use of the count lies in the operation's one critical section")
	c.rule("same-bits: for every seed, adding sets (and only sets) the very bit that asking tests, as a function of the item and the seed alone, and that bit lies inside the segment")
	c.rule("all-bits: adding sets a bit for every seed on every path that returns")
	c.rule("kept: as the count goes round, segments are used in ranges at least the expected number of items long; while one is in use neither it nor the one before is dropped or replaced")
	c.rule("asked: asking denies an item only after finding its bit unset, or no such segment, in both the segment in use and the one before it")
	c.rule("built: a new filter has at least one word per segment and as many seeds as hash functions, and these never change")
	add, has := c.pub("cache", "BloomFilter", "Add"), c.pub("cache", "BloomFilter", "Contains")
	if add == nil || has == nil {
		return
	}
	exact := c.bloomNew()
	start := func(f *ssa.Function, e *Engine) *State {
		s := newState()
		recv := paramTerms(f)[0]
		for _, n := range []string{"arraySize", "expectedItems"} {
			if t := fieldNow(e, s, recv, n); t != nil {
				s.know(mkBin("==", t, tZero, types.Typ[types.Bool]), false)
			} else {
				c.fail("field %s of the bloom filter is gone", n)
			}
		}
		if sd := fieldNow(e, s, recv, "seeds"); exact && sd != nil {
			if h := fieldNow(e, s, recv, "hashCount"); h != nil {
				s.know(mkBin("==", h, mkLen(sd), types.Typ[types.Bool]), true)
			}
		}
		return s
	}
	// as many as there are hash functions
	count := func(recv *Term) *Term {
		e, s := c.engine(), newState()
		if h := fieldNow(e, s, recv, "hashCount"); h != nil {
			return h
		}
		if sd := fieldNow(e, s, recv, "seeds"); sd != nil {
			return mkLen(sd)
		}
		c.fail("neither hashCount nor seeds is left of the bloom filter")
		return tZero
	}
	if len(c.failed) > 0 {
		return
	}
	recvOf := func(f *ssa.Function) *Term { return paramTerms(f)[0] }
	size := func(f *ssa.Function) *Term {
		e := c.engine()
		return fieldNow(e, newState(), recvOf(f), "arraySize")
	}
	expect := fieldNow(c.engine(), newState(), recvOf(add), "expectedItems")
	hashes := count(recvOf(add))
	own := func(i *Term, ar *Arith, f *ssa.Function) bool {
		h := count(recvOf(f))
		return ar.le(tZero, i, 0) && ar.le(i, h, -1)
	}

	// adding
	e := c.engine()
	e.NoPanic = true
	reported := map[ssa.Instruction]bool{}
	inBits := func(e *Engine, s *State, b, i *Term, f *ssa.Function) bool {
		a := s.arith()
		if !a.le(tZero, i, 0) {
			return false
		}
		if isField(b, bloomT, "seeds") {
			return own(i, a, f)
		}
		if _, ok := segment(b); ok {
			return a.le(i, size(f), -1) && e.decide(s, mkBin("==", b, tNil, nil)) == 0
		}
		return false
	}
	e.OnInstr = func(e *Engine, s *State, fr *Frame, in ssa.Instruction) {
		why := e.fault(s, fr, in)
		if x, ok := in.(*ssa.IndexAddr); ok {
			c.ob("bounds")
			if why != "" && inBits(e, s, e.val(s, x.X), e.val(s, x.Index), add) {
				why = ""
			}
		}
		if why != "" && !reported[in] && !bloomArith(bloomFacts(s, true)).contradictory() {
			reported[in] = true
			ev := s.event(e, "fault", why, nil, in)
			c.viol("same-bits", add, ev, &Outcome{Kind: "panic", S: s}, "adding may fail: %s", why)
		}
		e.unfault(s, in)
	}
	outs := e.RunFrom(add, nil, nil, start(add, e))
	if e.Err != nil {
		c.fail("%v", e.Err)
	}
	c.account(add, outs)
	item := paramTerms(add)[1]
	var form *bitPos
	var paths []*bloomPath
	var sw []*swept
	type written struct {
		seg   int64
		drops []int64
		fresh map[int64]bool // replaced while it was there
	}
	wrote := map[*bloomPath]*written{}
	for _, o := range outs {
		if o.Kind != "return" && o.Kind != "loop" {
			continue
		}
		p := c.bloomPath(add, o, true)
		if bloomArith(p.facts).contradictory() {
			continue // two readings of the count that cannot differ
		}
		w := &written{seg: -1, fresh: map[int64]bool{}}
		sp := &swept{o: o, n: hashes}
		made := map[*Term]int64{}
		counted := false
		for n, ev := range o.S.events {
			if ev.Kind == "atomic" && ev.Fn == "add" {
				counted = true
			}
			if ev.Kind != "store" {
				continue
			}
			if k, ok := segment(ev.Args[0]); ok {
				c.ob("segment changes")
				v := ev.Args[1]
				was := -1
				for _, fa := range o.S.facts[:ev.NF] {
					if fa.T.Op == "bin" && fa.T.Aux == "==" && (fa.T.Sub[0] == tNil || fa.T.Sub[1] == tNil) {
						x := fa.T.Sub[0]
						if x == tNil {
							x = fa.T.Sub[1]
						}
						if j, ok := segment(x); ok && j == k {
							was = b2i(fa.Truth)
						}
					}
				}
				switch {
				case isNil(v):
					w.drops = append(w.drops, k)
				case v.Op == "obj" && v.Obj.Kind == "slice":
					made[v] = k
					if !bloomArith(o.S.facts).same(mkLen(v), size(add)) {
						c.viol("same-bits", add, ev, o, "a segment has %s words", mkLen(v))
					}
					if was != 1 {
						w.fresh[k] = true
					}
				default:
					c.viol("kept", add, ev, o, "a segment becomes %s", v)
				}
				continue
			}
			if ev.Note == "private" && made[ev.Args[0].root()] == 0 && ev.Args[0].Op != "idx" {
				continue
			}
			base := ev.Args[0]
			if base.Op != "idx" {
				continue
			}
			k, ok := segment(base.Sub[0])
			if j, isNew := made[base.Sub[0]]; isNew {
				k, ok = j, true
			}
			if !ok {
				continue
			}
			c.ob("bits set")
			if !counted {
				c.viol("one-count", add, ev, o, "a bit is set before the item is counted")
			}
			// old | 1<<bit
			var old *Term
			for j := n - 1; j >= 0 && old == nil; j-- {
				if l := o.S.events[j]; l.Kind == "load" && l.Args[0] == base {
					old = l.Res
				}
			}
			v := ev.Args[1]
			mask := v
			if z, isC := constOf(old); old == nil || !(isC && z == 0) {
				mask = nil
				if v.Op == "bin" && v.Aux == "|" {
					for j := range v.Sub {
						if v.Sub[j] == old {
							mask = v.Sub[1-j]
						}
					}
				}
			}
			if mask == nil {
				c.viol("same-bits", add, ev, o, "a word of a segment becomes %s, which does not keep its bits", v)
				continue
			}
			pos, ok := position(base.Sub[1], mask)
			if !ok {
				c.viol("same-bits", add, ev, o, "the bit %s of word %s does not follow from one seed", mask, base.Sub[1])
				continue
			}
			if !o.S.arith().le(base.Sub[1], size(add), -1) {
				c.viol("same-bits", add, ev, o, "the word %s may be outside the segment", base.Sub[1])
			}
			for _, x := range []*Term{pos.word, pos.bit} {
				if bad := pureOf(x, func(t *Term) bool {
					if t.Op == "app" && strings.Contains(t.Aux, "hash/maphash.") {
						for _, x := range t.Sub {
							if x != item && x != seedHole {
								return false
							}
						}
						return true // a function of the bytes, given the filter's own seed
					}
					return t == item || t == seedHole || isField(t, bloomT, "arraySize") || isField(t, bloomT, "hashCount")
				}); bad != nil {
					c.viol("same-bits", add, ev, o, "the bit depends on %s", bad)
				}
			}
			if form == nil {
				form = &pos
				c.sample("adding sets bit %s of word %s", pos.bit, pos.word)
			} else if form.word != pos.word || form.bit != pos.bit {
				c.viol("same-bits", add, ev, o, "different bits are set for one seed: %s of %s", pos.bit, pos.word)
			}
			if w.seg >= 0 && w.seg != k {
				c.viol("kept", add, ev, o, "bits of one item go to segments %d and %d", w.seg, k)
			}
			w.seg = k
			sp.idx = append(sp.idx, pos.i)
			sp.at = append(sp.at, n)
		}
		wrote[p] = w
		paths = append(paths, p)
		sw = append(sw, sp)
	}
	if form == nil {
		c.fail("no bit is set by Add")
		return
	}
	if bad, why := covers(sw); bad != nil {
		c.viol("all-bits", add, nil, bad, "%s", why)
	}
	c.ob("seed loops")

	// the ranges of the count in which each segment is used
	var f, m *Term
	for _, p := range paths {
		for _, fa := range p.facts {
			fa.T.walk(func(x *Term) bool {
				if x.Op == "bin" && x.Aux == "%" && x.Sub[0] == bloomF {
					f, m = x, x.Sub[1]
				}
				return true
			})
		}
	}
	if f == nil {
		c.viol("kept", add, nil, nil, "the segment in use does not follow from the number of items added")
		return
	}
	pre := Fact{mkBin("==", expect, tZero, nil), false}
	base := bloomArith([]Fact{pre})
	bounds := []*Term{tZero, m}
	addBound := func(x *Term) {
		for _, b := range bounds {
			if base.same(b, x) {
				return
			}
		}
		bounds = append(bounds, x)
	}
	for _, p := range paths {
		for _, fa := range p.facts {
			if fa.T.Op == "bin" && fa.T.Aux == "<" {
				if fa.T.Sub[0] == f {
					addBound(fa.T.Sub[1])
				} else if fa.T.Sub[1] == f {
					addBound(mkBin("+", fa.T.Sub[0], tInt(1), types.Typ[types.Uint64]))
				}
			}
		}
	}
	sort.SliceStable(bounds, func(i, j int) bool { return base.le(bounds[i], bounds[j], -1) })
	for i := 1; i < len(bounds); i++ {
		if !base.le(bounds[i-1], bounds[i], 0) {
			c.viol("kept", add, nil, nil, "the bounds %s and %s of the count's ranges are not ordered", bounds[i-1], bounds[i])
			return
		}
	}
	inRange := func(lo, hi *Term) []Fact {
		return []Fact{pre, {mkBin("<", f, lo, nil), false}, {mkBin("<", f, hi, nil), true}}
	}
	var rs []bloomRange
	for i := 1; i < len(bounds); i++ {
		r := bloomRange{bounds[i-1], bounds[i], -1}
		if base.le(r.hi, r.lo, 0) {
			continue
		}
		for _, p := range paths {
			if bloomArith(p.facts, inRange(r.lo, r.hi)...).contradictory() {
				continue
			}
			w := wrote[p]
			if w.seg < 0 {
				continue
			}
			if r.seg >= 0 && r.seg != w.seg {
				c.viol("kept", add, nil, p.o, "for counts from %s to %s the item may go to segment %d or %d", r.lo, r.hi, r.seg, w.seg)
			}
			r.seg = w.seg
		}
		if r.seg < 0 {
			c.viol("kept", add, nil, nil, "for counts from %s to %s nothing is recorded", r.lo, r.hi)
		}
		if n := len(rs); n > 0 && rs[n-1].seg == r.seg {
			rs[n-1].hi = r.hi
		} else {
			rs = append(rs, r)
		}
	}
	for i, r := range rs {
		c.ob("count ranges")
		c.sample("counts %s..%s use segment %d", r.lo, r.hi, r.seg)
		span := mkBin("-", r.hi, r.lo, nil)
		if !base.le(expect, span, 0) && len(rs) > 1 {
			c.viol("kept", add, nil, nil, "segment %d is used for counts from %s to %s, which may be fewer than expected", r.seg, r.lo, r.hi)
		}
		prev := rs[(i+len(rs)-1)%len(rs)]
		for _, p := range paths {
			if bloomArith(p.facts, inRange(r.lo, r.hi)...).contradictory() {
				continue
			}
			for _, d := range wrote[p].drops {
				if d == r.seg || d == prev.seg {
					c.viol("kept", add, nil, p.o, "while segment %d is in use after segment %d, segment %d is dropped", r.seg, prev.seg, d)
				}
			}
			for d := range wrote[p].fresh {
				if d == r.seg || d == prev.seg {
					c.viol("kept", add, nil, p.o, "segment %d is replaced though it may hold items", d)
				}
			}
		}
	}

	// asking
	e = c.engine()
	e.NoPanic = true
	e.Faults = true
	e.Before = func(e *Engine, s *State, fr *Frame, in ssa.Instruction) {
		if x, ok := in.(*ssa.IndexAddr); ok && inBits(e, s, e.val(s, x.X), e.val(s, x.Index), has) {
			e.unfault(s, in)
		}
	}
	outs = e.RunFrom(has, nil, nil, start(has, e))
	if e.Err != nil {
		c.fail("%v", e.Err)
	}
	c.account(has, outs)
	toAdd := map[*Term]*Term{paramTerms(has)[1]: item}
	for _, o := range outs {
		if o.Kind == "loop" {
			continue
		}
		p := c.bloomPath(has, o, false)
		if bloomArith(p.facts).contradictory() {
			continue
		}
		if o.Kind != "return" {
			c.viol("asked", has, nil, o, "asking may panic")
			continue
		}
		if o.Ret[0] == tTrue {
			continue
		}
		if o.Ret[0] != tFalse {
			c.viol("asked", has, nil, o, "the answer is %s", o.Ret[0])
			continue
		}
		// what was found missing: segment and seed
		type miss struct {
			seg int64
			i   *Term
		}
		var missing []miss
		note := func(seg int64, word, mask *Term) {
			pos, ok := position(word, mask)
			if !ok {
				return
			}
			pos.word, pos.bit = subst(pos.word, toAdd), subst(pos.bit, toAdd)
			if pos.word == form.word && pos.bit == form.bit && own(pos.i, o.S.arith(), has) {
				missing = append(missing, miss{seg, pos.i})
			}
		}
		absent := map[int64]bool{}
		for _, fa := range o.S.facts {
			t := fa.T
			if t.Op != "bin" || t.Aux != "==" || !fa.Truth {
				continue
			}
			for j := range t.Sub {
				x := t.Sub[1-j]
				if isNil(t.Sub[j]) || x.Op == "len" && t.Sub[j] == tZero {
					if x.Op == "len" {
						x = x.Sub[0]
					}
					if k, ok := segment(x); ok && isInit(x) {
						absent[k] = true
					}
				}
				if t.Sub[j] == tZero && x.Op == "bin" && x.Aux == "&" {
					for i := range x.Sub {
						if wd := x.Sub[i]; isInit(wd) && wd.Sub[0].Op == "idx" {
							if k, ok := segment(wd.Sub[0].Sub[0]); ok {
								note(k, wd.Sub[0].Sub[1], x.Sub[1-i])
							}
						}
					}
				}
			}
		}
		// a segment whose word inside its size cannot be reached is not there
		for _, ev := range o.S.events {
			if ev.Kind != "fault" {
				continue
			}
			if len(ev.Args) == 2 {
				if k, ok := segment(ev.Args[0]); ok && o.S.arith().le(ev.Args[1], size(has), -1) {
					absent[k] = true
				}
			}
		}
		for i, r := range rs {
			if bloomArith(p.facts, inRange(r.lo, r.hi)...).contradictory() {
				continue
			}
			c.ob("denials")
			prev := rs[(i+len(rs)-1)%len(rs)]
			ok := false
			done := func(seg int64, i *Term) bool {
				if absent[seg] {
					return true
				}
				for _, m := range missing {
					if m.seg == seg && (i == nil || m.i == i) {
						return true
					}
				}
				return false
			}
			for _, m := range missing {
				if done(r.seg, m.i) && done(prev.seg, m.i) {
					ok = true
				}
			}
			if absent[r.seg] {
				ok = true // the segment in use is there once anything was added: adding makes it before it sets a bit
			}
			if !ok {
				c.viol("asked", has, nil, o, "with the count between %s and %s an item is denied without its bit being found unset in segments %d and %d", r.lo, r.hi, r.seg, prev.seg)
			}
		}
	}
	if c.counts["denials"] == 0 || len(rs) == 0 {
		c.fail("no denial found")
	}
	// nothing else changes the filter
	for _, g := range c.methods("cache", "BloomFilter") {
		if g == add {
			continue
		}
		e := c.engine()
		e.NoPanic = true
		for _, o := range c.run(e, g) {
			for _, ev := range o.S.events {
				if ev.Kind == "store" && ev.Note != "private" || ev.Kind == "atomic" && ev.Fn != "load" {
					if ev.Args[0].mentions(paramTerms(g)[0]) {
						c.viol("kept", g, ev, o, "%s is changed", ev.Args[0])
					}
				}
			}
		}
	}
}

func isNil(t *Term) bool { return t == tNil || t == tZeroV }

func constOf(t *Term) (int64, bool) {
	if t == nil {
		return 0, false
	}
	return t.intVal()
}

// same: the two numbers are equal.
func (a *Arith) same(x, y *Term) bool { return x == y || a.le(x, y, 0) && a.le(y, x, 0) }

// bloomNew decides what a new filter is like; exact: it has exactly as many seeds as hash functions.
func (c *Ctx) bloomNew() (exact bool) {
	f := c.pub("cache", "", "NewBloomFilter")
	if f == nil {
		return
	}
	exact = true
	e := c.engine()
	e.NoPanic = true
	expected := paramTerms(f)[0]
	s := newState()
	s.know(mkBin("==", expected, tZero, types.Typ[types.Bool]), false)
	outs := e.RunFrom(f, nil, nil, s)
	c.account(f, outs)
	for _, o := range outs {
		if o.Kind != "return" {
			continue
		}
		c.ob("constructions")
		r := o.Ret[0]
		get := func(n string) *Term {
			return e.load(o.S, mkFld(r, n, nil), types.Typ[types.Uint64])
		}
		ar := o.S.arith()
		if n := get("arraySize"); !ar.le(tInt(1), n, 0) {
			c.viol("built", f, nil, o, "a segment may have no words (%s)", n)
		}
		if fieldNow(e, newState(), r, "hashCount") == nil {
			// the seeds are counted
		} else if k, sd := get("hashCount"), get("seeds"); !ar.le(k, mkLen(sd), 0) {
			c.viol("built", f, nil, o, "there are %s hash functions but %s seeds", k, mkLen(sd))
		} else if !ar.le(mkLen(sd), k, 0) {
			exact = false
		}
		if n := get("expectedItems"); n != expected && !ar.le(expected, n, 0) {
			c.viol("built", f, nil, o, "the expected number is kept as %s", n)
		}
		// a seed for every hash function comes from the library
		for _, ev := range o.S.events {
			if ev.Kind == "store" && ev.Args[0].Op == "idx" && strings.Contains(typeKey(ev.Args[0].Typ), "maphash.Seed") && !strings.Contains(ev.Args[1].String(), "MakeSeed") {
				c.viol("built", f, ev, o, "a seed is %s", ev.Args[1])
			}
		}
	}
	for _, fl := range []string{"arraySize", "hashCount", "seeds", "expectedItems"} {
		c.ob("fixed fields")
		if !c.P.stable(modPath+"/"+bloomT, fl) {
			c.viol("built", f, nil, nil, "field %s is changed after the filter is built", fl)
		}
	}
	return
}

func init() {
	checks["C27"] = checkDef{c27, "path-sensitive value numbering of the bits set and tested and of the ranges of the item count in which each segment is used, in a linear domain"}
}
