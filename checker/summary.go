package main

import (
	"fmt"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Shared holds what the runs of one analysis have in common: the summaries of the functions that are analysed on
// their own instead of being inlined (functional approach to interprocedural analysis, one summary per function
// and set of locks held at its entry).
type Shared struct {
	sums  map[string]*Summary
	order []*Summary
	size  map[*ssa.Function]int
}

// Summary is the result of analysing a function with certain locks held at its entry.
type Summary struct {
	Fn       *ssa.Function
	Locks    []Held
	Outs     []*Outcome
	Params   []*Term
	CanPanic bool
	Neutral  bool // leaves the locks as it found them, on every way out
	busy     bool
	Err      error
}

func newShared() *Shared {
	return &Shared{sums: map[string]*Summary{}, size: map[*ssa.Function]int{}}
}

// subst replaces terms inside a term.
func subst(t *Term, m map[*Term]*Term) *Term {
	if t == nil {
		return nil
	}
	if r, ok := m[t]; ok {
		return r
	}
	if len(t.Sub) == 0 || t.Op == "sym" || t.Op == "obj" {
		return t
	}
	sub := make([]*Term, len(t.Sub))
	ch := false
	for i, s := range t.Sub {
		sub[i] = subst(s, m)
		if sub[i] != s {
			ch = true
		}
	}
	if !ch {
		return t
	}
	n := mkT(t.Op, t.Aux, t.Typ, sub...)
	n.Fn = t.Fn
	if o := own(t); o != "" {
		setOwn(n, o)
	}
	return n
}

func lockSig(ls []Held) string {
	var r []string
	for _, h := range ls {
		r = append(r, fmt.Sprintf("%d/%v", h.Key.id, h.Read))
	}
	sort.Strings(r)
	return strings.Join(r, ",")
}

// bigFn: is the function worth a summary of its own?
func (e *Engine) bigFn(fn *ssa.Function) bool {
	if e.CutSize == 0 || e.Shared == nil {
		return false
	}
	if n, ok := e.Shared.size[fn]; ok {
		return n > e.CutSize
	}
	// a cheap bound first: functions without branches are small
	e.Shared.size[fn] = e.CutSize + 1 // a function that calls itself is not unrolled
	sub := newEngine(e.P)
	sub.MaxPaths = e.CutSize + 1
	sub.Shared, sub.CutSize, sub.Cut = e.Shared, e.CutSize, e.Cut
	sub.measuring = true
	sub.MergeLoops = e.MergeLoops
	sub.Root = fn
	outs := sub.Run(fn)
	n := len(outs)
	if sub.Err != nil {
		n = e.CutSize + 1
	}
	e.Shared.size[fn] = n
	return n > e.CutSize
}

// summary analyses fn with the caller's locks, seen from inside.
func (e *Engine) summary(fn *ssa.Function, args []*Term, locks []Held) *Summary {
	params := paramTerms(fn)
	m := map[*Term]*Term{}
	for i, p := range params {
		if i < len(args) && args[i] != nil && !args[i].isConst() {
			m[args[i]] = p
		}
	}
	var in []Held
	for _, h := range locks {
		g := h
		g.Key = subst(h.Key, m)
		in = append(in, g)
	}
	k := fmt.Sprintf("%p|%s", fn, lockSig(in))
	if s, ok := e.Shared.sums[k]; ok {
		return s
	}
	s := &Summary{Fn: fn, Locks: in, Params: params, Neutral: true, busy: true}
	e.Shared.sums[k] = s
	e.Shared.order = append(e.Shared.order, s)
	sub := *e
	sub.Outs = nil
	sub.spawn = nil
	sub.loopReg = nil
	st := newState()
	st.locks = in
	sub.inSummary = true
	s.Outs = sub.RunFrom(fn, params, nil, st)
	s.Err = sub.Err
	want := lockSig(in)
	for _, o := range s.Outs {
		if o.Kind == "panic" {
			s.CanPanic = true
		}
		if o.Kind != "loop" && lockSig(o.S.locks) != want {
			s.Neutral = false
		}
	}
	s.busy = false
	return s
}

// walkEvents visits each event of the outcomes once, goroutine bodies included.
func walkEvents(outs []*Outcome, f func(*Event)) {
	seen := map[*Event]bool{}
	var rec func(outs []*Outcome)
	rec = func(outs []*Outcome) {
		for _, o := range outs {
			for _, ev := range o.S.events {
				if seen[ev] {
					continue
				}
				seen[ev] = true
				f(ev)
				if ev.Body != nil {
					rec(ev.Body)
				}
			}
		}
	}
	rec(outs)
}

// released counts on how many ways out the i-th lock held at entry is no longer held.
func (s *Summary) released(i int) (rel, all int) {
	h := s.Locks[i]
	for _, o := range s.Outs {
		if o.Kind == "loop" {
			continue
		}
		all++
		held := false
		for _, g := range o.S.locks {
			if g.Key == h.Key && g.Ev == h.Ev {
				held = true
			}
		}
		if !held {
			rel++
		}
	}
	return
}

// releases: may fn, or anything it calls, release a mutex? Calls of values count when some function value of the
// package releases one.
func (p *Prog) releases(fn *ssa.Function) bool {
	if p.relTab == nil {
		p.relTab = map[*ssa.Function]bool{}
	}
	seen := map[*ssa.Function]bool{}
	var rec func(f *ssa.Function) bool
	rec = func(f *ssa.Function) bool {
		if f == nil || seen[f] {
			return false
		}
		seen[f] = true
		if r, ok := p.relTab[f]; ok {
			return r
		}
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				var ops [10]*ssa.Value
				for _, o := range in.Operands(ops[:0]) {
					switch g := (*o).(type) {
					case *ssa.Function:
						if n := g.RelString(nil); strings.HasSuffix(n, "nlock") || strings.HasSuffix(n, "nlock$bound") {
							return true
						}
						if rec(p.fnBody(g)) {
							return true
						}
					}
				}
				if ci, ok := in.(ssa.CallInstruction); ok && ci.Common().IsInvoke() && strings.HasSuffix(ci.Common().Method.Name(), "nlock") {
					return true
				}
			}
		}
		return false
	}
	r := rec(fn)
	p.relTab[fn] = r
	return r
}
