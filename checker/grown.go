package main

// Slices a loop makes by adding one element in every iteration.

import (
	"go/token"
	"go/types"

	"golang.org/x/tools/go/ssa"
)

// boundFacts: a counter that goes on by one while it is below a limit fixed before the loop never passes the limit.
func (e *Engine) boundFacts(s *State, sy, init *Term, ph *ssa.Phi) {
	if init == nil || !intLike(init) {
		return
	}
	h := ph.Block()
	br, ok := h.Instrs[len(h.Instrs)-1].(*ssa.If)
	if !ok || h.Succs[0] == h.Succs[1] || len(h.Succs[0].Preds) != 1 {
		return
	}
	b, ok := br.Cond.(*ssa.BinOp)
	if !ok || b.Op != token.LSS {
		return
	}
	if st := phiSteps(ph); !st.exact || st.other || st.k != 1 {
		return
	}
	for _, p := range h.Preds {
		if h.Dominates(p) && !h.Succs[0].Dominates(p) {
			return
		}
	}
	if !loopFixed(b.Y, h, 0) {
		return
	}
	k := int64(0)
	if b.X != ssa.Value(ph) {
		add, ok := b.X.(*ssa.BinOp)
		if !ok || add.Op != token.ADD || add.X != ssa.Value(ph) || add.Block() != h {
			return
		}
		c, ok := add.Y.(*ssa.Const)
		if !ok || c.Value == nil || c.Int64() != 1 {
			return
		}
		k = 1
	}
	lim := e.val(s, b.Y)
	if lim == nil || !intLike(lim) || !s.arith().le(init, lim, k) {
		return
	}
	s.know(mkBin("<", lim, mkBin("+", sy, tInt(k), nil), nil), false)
}

// loopFixed: the value is the same in every iteration of the loop with this head.
func loopFixed(v ssa.Value, h *ssa.BasicBlock, n int) bool {
	in, ok := v.(ssa.Instruction)
	if !ok || in.Block() != h && in.Block().Dominates(h) {
		return true
	}
	if n > 6 {
		return false
	}
	switch x := v.(type) {
	case *ssa.BinOp:
		return loopFixed(x.X, h, n+1) && loopFixed(x.Y, h, n+1)
	case *ssa.Convert:
		return loopFixed(x.X, h, n+1)
	case *ssa.Call:
		if b, ok := x.Call.Value.(*ssa.Builtin); ok && b.Name() == "len" {
			_, sl := x.Call.Args[0].Type().Underlying().(*types.Slice)
			_, st := x.Call.Args[0].Type().Underlying().(*types.Basic)
			return (sl || st) && loopFixed(x.Call.Args[0], h, n+1)
		}
	}
	return false
}

// growsByOne: every way round the loop appends exactly one element to the slice.
func growsByOne(ph *ssa.Phi) bool {
	if _, ok := ph.Type().Underlying().(*types.Slice); !ok {
		return false
	}
	h, n := ph.Block(), 0
	for i, p := range h.Preds {
		if !h.Dominates(p) {
			continue
		}
		n++
		c, ok := ph.Edges[i].(*ssa.Call)
		if !ok {
			return false
		}
		if b, ok := c.Call.Value.(*ssa.Builtin); !ok || b.Name() != "append" || len(c.Call.Args) != 2 || c.Call.Args[0] != ssa.Value(ph) {
			return false
		}
		sl, ok := c.Call.Args[1].(*ssa.Slice)
		if !ok || sl.Low != nil || sl.High != nil {
			return false
		}
		al, ok := sl.X.(*ssa.Alloc)
		if !ok {
			return false
		}
		at, ok := al.Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Array)
		if !ok || at.Len() != 1 {
			return false
		}
	}
	return n > 0
}

// grownFacts: the length of such a slice is the number of iterations made.
func grownFacts(s *State, li *loopInfo, phis []*ssa.Phi) {
	for _, ph := range phis {
		sy, init := li.syms[ph], li.phis[ph]
		if sy == nil || init == nil || !growsByOne(ph) {
			continue
		}
		for _, q := range phis {
			z, z0 := li.syms[q], li.phis[q]
			if z == nil || z0 == nil || !intLike(z0) {
				continue
			}
			if st := phiSteps(q); !st.exact || st.other || st.k != 1 {
				continue
			}
			s.know(mkBin("==", mkLen(sy), mkBin("+", mkBin("-", z, z0, nil), mkLen(init), nil), nil), true)
			if mkLen(init) == tZero {
				sy.Sym.Count, sy.Sym.From = z, z0
			}
			break
		}
	}
}

// grown notes the element that an iteration added.
func (e *Engine) grown(s *State, sy, v *Term, mark int) {
	q := sy.Sym
	if q.Count == nil {
		return
	}
	var el *Term
	if v.Op == "append" && v.Sub[0] == sy {
		if l := e.content(s, v.Sub[1]); l.Op == "list" && len(l.Sub) == 1 {
			el = l.Sub[0]
		}
	}
	if el != nil {
		// what the iteration alone determines
		el.walk(func(x *Term) bool {
			if x != q.Count && (x.Op == "sym" || x.Op == "obj") && x.id > mark {
				el = nil
			}
			return el != nil
		})
	}
	if el == nil || q.Elem != nil && q.Elem != el {
		q.Elem, q.Count = nil, nil
		return
	}
	q.Elem = el
}

// grownElem is an element of such a slice.
func grownElem(s *State, addr *Term) *Term {
	if addr.Op != "idx" {
		return nil
	}
	b := addr.Sub[0]
	if b.Op != "sym" || b.Sym == nil || b.Sym.Elem == nil {
		return nil
	}
	for a, v := range s.mem {
		if a.Op == "idx" && a.Sub[0].root() == b && v.Op != "init" {
			return nil // something was stored over it
		}
	}
	return substIn(b.Sym.Elem, b.Sym.Count, mkBin("+", addr.Sub[1], b.Sym.From, nil))
}

// substIn replaces a variable and rebuilds what it was part of.
func substIn(t, x, v *Term) *Term {
	if t == x {
		return v
	}
	if len(t.Sub) == 0 || t.Op == "sym" || t.Op == "obj" {
		return t
	}
	sub := make([]*Term, len(t.Sub))
	ch := false
	for i, u := range t.Sub {
		sub[i] = substIn(u, x, v)
		ch = ch || sub[i] != u
	}
	if !ch {
		return t
	}
	switch t.Op {
	case "bin":
		return mkBin(t.Aux, sub[0], sub[1], t.Typ)
	case "idx":
		return mkIdx(sub[0], sub[1], t.Typ)
	case "at":
		return mkAt(sub[0], sub[1], t.Typ)
	}
	n := mkT(t.Op, t.Aux, t.Typ, sub...)
	n.Fn = t.Fn
	if o := own(t); o != "" {
		setOwn(n, o)
	}
	return n
}
