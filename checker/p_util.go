package main

import (
	"strings"

	"golang.org/x/tools/go/ssa"
)

// elemIndex: t is an element of arr (as read); its index.
func elemIndex(t, arr *Term) *Term {
	if t == nil {
		return nil
	}
	if t.Op == "init" && t.Sub[0].Op == "idx" && sameT(t.Sub[0].Sub[0], arr) {
		return t.Sub[0].Sub[1]
	}
	if t.Op == "at" && sameT(t.Sub[0], arr) {
		return t.Sub[1]
	}
	return nil
}

// loopSyms are the loop variables a term depends on.
func loopSyms(t *Term) []*Term {
	var r []*Term
	t.walk(func(x *Term) bool {
		if x.Op == "sym" && x.Sym != nil && x.Sym.Kind == "loop" && x.Sym.First != nil {
			r = append(r, x)
		}
		return true
	})
	return r
}

// stepOf: the loop variable changes by one constant in every iteration.
func stepOf(p *Term) (step int64, ok bool) {
	a := &Arith{}
	konst := func(x, y *Term) (int64, bool) {
		if x == nil || y == nil {
			return 0, false
		}
		l := a.lin(x).add(a.lin(y), -1)
		for _, c := range l.c {
			if c != 0 {
				return 0, false
			}
		}
		return l.k, true
	}
	if len(p.Sym.Nexts) == 0 {
		return 0, false
	}
	for i, n := range p.Sym.Nexts {
		k, good := konst(n, p)
		if !good || i > 0 && k != step {
			return 0, false
		}
		step = k
	}
	k, good := konst(p.Sym.First, p.Sym.Init)
	return step, good && k == step
}

// swept is what one path does to the elements of an array: the indices it handles, with their events' positions.
type swept struct {
	o   *Outcome
	idx []*Term
	at  []int
	n   *Term // the number of elements
}

func anyLoop(o *Outcome) int { return lastLoop(o) }

func lastLoop(o *Outcome) int {
	for i := len(o.S.events) - 1; i >= 0; i-- {
		if o.S.events[i].Kind == "loop" {
			return i
		}
	}
	return -1
}

// covers decides whether every returning path handles every index from 0 to n-1: the first iteration handles one
// end, every further iteration the next index, and the loop is left only when none remain. It returns the first
// path on which that is not shown.
func covers(paths []*swept) (bad *Outcome, why string) {
	// the loops that handle elements, on some path
	handles := map[ssa.Instruction]bool{}
	for _, p := range paths {
		if l := lastLoop(p.o); l >= 0 && p.o.Kind == "loop" {
			for i, x := range p.idx {
				if p.at[i] > l && len(loopSyms(x)) > 0 {
					handles[p.o.S.events[l].Instr] = true
				}
			}
		}
	}
	lastLoop := func(o *Outcome) int {
		for i := len(o.S.events) - 1; i >= 0; i-- {
			if ev := o.S.events[i]; ev.Kind == "loop" && (len(handles) == 0 || handles[ev.Instr]) {
				return i
			}
		}
		return -1
	}
	// what a generic iteration handles
	var gen []*Term
	for _, p := range paths {
		if p.o.Kind != "loop" {
			continue
		}
		l := lastLoop(p.o)
		if len(handles) > 0 && !handles[p.o.S.events[anyLoop(p.o)].Instr] {
			continue // a loop of some other purpose, before or after
		}
		var g *Term
		for i, x := range p.idx {
			if p.at[i] > l && len(loopSyms(x)) > 0 {
				g = x
			}
		}
		if g == nil {
			return p.o, "an iteration skips its element"
		}
		gen = append(gen, g)
	}
	for _, p := range paths {
		if p.o.Kind != "return" {
			continue
		}
		ar := p.o.S.arith()
		l := lastLoop(p.o)
		var pre []*Term
		for i, x := range p.idx {
			if l < 0 || p.at[i] < l {
				pre = append(pre, x)
			}
		}
		k := int64(len(pre))
		asc, desc := true, true
		for i, x := range pre {
			if n, ok := x.intVal(); !ok || n != int64(i) {
				asc = false
			}
			if !ar.le(x, p.n, -int64(i)-1) || !ar.le(p.n, x, int64(i)+1) {
				desc = false
			}
		}
		if l < 0 {
			if (asc || desc) && ar.le(p.n, tInt(k), 0) {
				continue
			}
			return p.o, "it may return before all elements have been handled"
		}
		done := false
		for _, g := range gen {
			sy := loopSyms(g)
			if len(sy) != 1 {
				continue
			}
			v := sy[0]
			step, ok := stepOf(v)
			if !ok {
				continue
			}
			used := false
			for _, f := range p.o.S.facts {
				used = used || f.T.mentions(v)
			}
			if !used {
				continue
			}
			first := subst(g, map[*Term]*Term{v: v.Sym.First})
			gl := ar.lin(g)
			c := gl.c[v]
			switch {
			case asc && c*step == 1 && ar.le(first, tInt(k), 0) && ar.le(tInt(k), first, 0) && ar.le(p.n, g, 0):
				done = true
			case desc && c*step == -1 && ar.le(first, p.n, -k-1) && ar.le(p.n, first, k+1) && ar.le(g, tInt(-1), 0):
				done = true
			}
		}
		if !done {
			return p.o, "the loop is not shown to handle every element"
		}
	}
	return nil, ""
}

func hasPre(s string, ps ...string) bool {
	for _, p := range ps {
		if strings.HasPrefix(s, p) {
			return true
		}
	}
	return false
}

// recordContents notes what byte slices handed to calls contain.
func recordContents(e *Engine, s *State, ev *Event) {
	if ev.Kind != "repocall" && ev.Kind != "call" && ev.Kind != "dyncall" {
		return
	}
	for _, a := range ev.Args {
		if v := e.content(s, a); v != nil && v != a {
			if ev.Mem == nil {
				ev.Mem = map[*Term]*Term{}
			}
			ev.Mem[a] = v
		}
	}
}

func contentAt(ev *Event, i int) *Term {
	if v := ev.Mem[ev.Args[i]]; v != nil {
		return v
	}
	return ev.Args[i]
}
