package main

import (
	"go/token"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// ---------- C07: the consistent-hash ring ----------

const ringT = "hashmap.Consistenthash"

// sliceBase: the array a slice term is a window on, and where the window starts.
func sliceBase(t *Term) (*Term, *Term) {
	lo := tZero
	for t.Op == "slice" {
		lo = mkBin("+", lo, t.Sub[1], nil)
		t = t.Sub[0]
	}
	return t, lo
}

// elemOf: t is the element number i (in the window's numbering) of the slice.
func elemOf(t, sl *Term) *Term {
	for t.Op == "conv" && len(t.Sub) == 1 {
		t = t.Sub[0]
	}
	if i := elemIndex(t, sl); i != nil {
		return i
	}
	b, lo := sliceBase(sl)
	if lo == tZero {
		return elemIndex(t, b)
	}
	return nil
}

// ascending: the comparison puts smaller elements first.
func ascending(m *mapSim, ev *Event) bool {
	a, b, r := ev.Args[1], ev.Args[2], ev.Args[3]
	if strings.HasPrefix(ev.Fn, "sort.") {
		neg := false
		for r.Op == "not" {
			r, neg = r.Sub[0], !neg
		}
		if r.Op == "bin" && r.Aux == "<" {
			x, y := elemOf(r.Sub[0], ev.Args[0]), elemOf(r.Sub[1], ev.Args[0])
			return !neg && x == a && y == b || neg && x == b && y == a
		}
		// a constant answer on a path whose facts imply it
		if t := m.truth(r); t >= 0 {
			for _, f := range m.o.S.facts {
				if f.T.Op == "bin" && f.T.Aux == "<" {
					x, y := elemOf(f.T.Sub[0], ev.Args[0]), elemOf(f.T.Sub[1], ev.Args[0])
					if x == a && y == b && b2i(f.Truth != neg) == t || x == b && y == a && f.Truth && t == 0 {
						return true
					}
				}
			}
		}
		return false
	}
	return r.Op == "app" && strings.HasPrefix(r.Aux, "cmp.Compare") && len(r.Sub) == 2 && r.Sub[0] == a && r.Sub[1] == b
}

// pureOf: the term is computed from the given terms and constants alone; the first thing it depends on besides.
func pureOf(t *Term, ok func(*Term) bool) (bad *Term) {
	var rec func(*Term) *Term
	seen := map[*Term]bool{}
	rec = func(x *Term) *Term {
		if x == nil || seen[x] || ok(x) {
			return nil
		}
		seen[x] = true
		switch x.Op {
		case "const", "fn":
			return nil
		case "sym":
			if x.Sym != nil && x.Sym.Kind == "loop" && x.Sym.Init != nil {
				for _, d := range append([]*Term{x.Sym.Init, x.Sym.First}, x.Sym.Nexts...) {
					if b := rec(d); b != nil {
						return b
					}
				}
				return nil
			}
			return x
		case "obj", "param", "global":
			return x
		case "init":
			return x
		case "app":
			if strings.Contains(x.Aux, "maphash") || strings.Contains(x.Aux, "rand") || strings.Contains(x.Aux, "time.") {
				return x
			}
		}
		for _, s := range x.Sub {
			if b := rec(s); b != nil {
				return b
			}
		}
		return nil
	}
	return rec(t)
}

func c07(c *Ctx) {
	c.rule("node: whenever the ring has points, a lookup answers with the entry of the point table under one of the ring's points, and it reports that there is none only when there are no points")
	c.rule("safe: every index of a lookup lies inside the ring's points")
	c.rule("deterministic: which point answers is computed from the key, the points and constants alone; a node's points are computed from the node and the replica's number alone")
	c.rule("sorted: every operation that changes the points leaves them sorted in ascending order, and every search asks for the first point not below (or above) a hash")
	c.rule("together: every point put in the ring is entered in the point table for the node added, which is entered in the node table, and only a node that is not in it yet is added")
	c.rule("removed: removing a node visits every point, deletes exactly the points of that node, keeps every other point exactly once, and takes the node out of the node table")
	c.rule("next: the nodes after a key's are found by going once round the ring from the point after the key's; each is another node than the key's own and is given once")
	recv := func(f *ssa.Function) *Term { return paramTerms(f)[0] }
	isKeys := func(t *Term) bool { return isField(t, ringT, "keys") }
	_ = recv
	nl, nm := 0, 0
	for _, f := range c.methods("hashmap", "Consistenthash") {
		if !token.IsExported(f.Name()) {
			continue
		}
		rs := f.Signature.Results()
		if rs.Len() == 2 {
			nl++
			c.ringLookup(f, isKeys)
		} else if rs.Len() == 0 {
			nm++
			c.ringChange(f, isKeys)
		}
	}
	if nl < 3 || nm < 2 {
		c.fail("%d lookups and %d changes of the ring found", nl, nm)
	}
}

// keysLen: the length of the ring's points.
func keysLen(t *Term) bool {
	return t.Op == "len" && isField(t.Sub[0], ringT, "keys")
}

func (c *Ctx) checkFaults(e *Engine, f *ssa.Function, rule string, skip func(why string) bool) {
	seen := map[ssa.Instruction]bool{}
	e.OnInstr = func(e *Engine, s *State, fr *Frame, in ssa.Instruction) {
		why := e.fault(s, fr, in)
		switch in.(type) {
		case *ssa.IndexAddr, *ssa.Index, *ssa.Slice, *ssa.MakeSlice, *ssa.Lookup:
			if !seen[in] {
				c.ob("bounds")
			}
		}
		if why == "" || skip != nil && skip(why) {
			return
		}
		if !seen[in] {
			seen[in] = true
			ev := s.event(e, "fault", why, nil, in)
			c.viol(rule, f, ev, &Outcome{Kind: "panic", S: s}, "it may panic: %s", why)
		}
		e.unfault(s, in)
	}
}

func (c *Ctx) ringLookup(f *ssa.Function, isKeys func(*Term) bool) {
	e := c.engine()
	e.NoPanic = true
	c.checkFaults(e, f, "safe", func(why string) bool { return strings.HasPrefix(why, "type assertion") })
	list := f.Signature.Results().At(0).Type().String() != "int64"
	key := paramTerms(f)[1]
	det := func(x *Term) bool {
		if x == key || isKeys(x) || x.Op == "init" && x.Sub[0].Op == "idx" && isKeys(x.Sub[0].Sub[0]) {
			return true
		}
		return x.Op == "sym" && x.Sym != nil && x.Sym.Ev != nil && (x.Sym.Ev.Fn == "sort.Search" || x.Sym.Ev.Fn == "slices.BinarySearch")
	}
	var gens []*Term
	for _, o := range c.run(e, f) {
		m := &mapSim{o: o}
		if o.Kind != "return" && o.Kind != "loop" {
			continue
		}
		c.ob("lookups")
		// the points asked for
		var loads []*Event
		for _, ev := range o.S.events {
			switch ev.Kind {
			case "smap":
				if !strings.HasPrefix(ev.Fn, "Load") || ev.Fn != "Load" {
					if ev.Fn != "Range" {
						c.viol("node", f, ev, o, "a lookup changes the point table")
					}
					continue
				}
				loads = append(loads, ev)
				i := pointIndex(ev.Args[1], isKeys)
				if i == nil {
					c.viol("node", f, ev, o, "%s is not a point of the ring", ev.Args[1])
				} else if bad := pureOf(i, func(x *Term) bool { return det(x) || keysLen(x) }); bad != nil {
					c.viol("deterministic", f, ev, o, "which point is asked for depends on %s", bad)
				}
			case "call":
				if ev.Fn == "slices.BinarySearch" {
					if !isKeys(ev.Args[0]) || pureOf(ev.Args[1], det) != nil {
						c.viol("sorted", f, ev, o, "it searches %s for %s", ev.Args[0], ev.Args[1])
					}
				}
			case "predret":
				c.ob("searches")
				if !keysLen(ev.Args[2]) || !c.monotone(m, ev, isKeys, det) {
					c.viol("sorted", f, ev, o, "the search does not ask for the first point not below a hash of the key: %s of %s", ev.Args[3], ev.Args[2])
				}
			}
		}
		if o.Kind == "loop" {
			if list {
				gens = append(gens, c.nextLoop(f, o, loads, isKeys)...)
			}
			continue
		}
		empty := false
		for _, fa := range o.S.facts {
			if fa.T.Op == "bin" && (fa.T.Aux == "==" || fa.T.Aux == "<") {
				for _, x := range fa.T.Sub {
					if keysLen(x) && o.S.arith().le(x, tZero, 0) {
						empty = true
					}
				}
			}
		}
		ok := o.Ret[1]
		if empty {
			if m.truth(ok) != 0 {
				c.viol("node", f, nil, o, "the ring is empty and it reports %s", ok)
			}
			continue
		}
		if len(loads) == 0 {
			c.viol("node", f, nil, o, "it answers without asking for a point")
			continue
		}
		first := loads[0]
		if list {
			c.nextNodes(f, o, loads)
			if got := first.Res.Sub[1]; ok != got && (m.truth(ok) < 0 || m.truth(ok) != m.truth(got)) {
				c.viol("node", f, nil, o, "it reports %s", ok)
			}
			continue
		}
		first = loads[len(loads)-1]
		node, got := first.Res.Sub[0], first.Res.Sub[1]
		switch {
		case m.truth(got) == 0:
			if m.truth(ok) != 0 {
				c.viol("node", f, first, o, "the point has no node and it reports %s", ok)
			}
		case ok != got && m.truth(ok) != 1:
			c.viol("node", f, first, o, "the point has a node and it reports %s", ok)
		case m.truth(mkBin("==", node, tNil, nil)) == 1:
		case o.Ret[0] != node:
			c.viol("node", f, first, o, "the point's node is %s and it answers %s", node, o.Ret[0])
		}
	}
	if list && len(gens) == 0 {
		c.viol("next", f, nil, nil, "it does not go round the ring")
	}
}

// pointIndex: the term is one of the ring's points; its index.
func pointIndex(t *Term, isKeys func(*Term) bool) *Term {
	for t.Op == "conv" && len(t.Sub) == 1 {
		t = t.Sub[0]
	}
	if t.Op == "init" && t.Sub[0].Op == "idx" && isKeys(t.Sub[0].Sub[0]) {
		return t.Sub[0].Sub[1]
	}
	return nil
}

// monotone: the predicate is keys[i] >= h (or > h) for a hash of the key.
func (c *Ctx) monotone(m *mapSim, ev *Event, isKeys, det func(*Term) bool) bool {
	good := func(r *Term, truth bool) bool {
		for r.Op == "not" {
			r, truth = r.Sub[0], !truth
		}
		if r.Op != "bin" || r.Aux != "<" {
			return false
		}
		a, b := r.Sub[0], r.Sub[1]
		if !truth { // !(a < b)
			return pointIndex(a, isKeys) == ev.Args[1] && pureOf(b, det) == nil
		}
		return pointIndex(b, isKeys) == ev.Args[1] && pureOf(a, det) == nil
	}
	r := ev.Args[3]
	if t := m.truth(r); t >= 0 {
		for _, f := range m.o.S.facts {
			if good(f.T, f.Truth == (t == 1)) {
				return true
			}
		}
	}
	return good(r, true)
}

// nextNodes: each node given is found at a point, differs from the key's own and was not given before.
func (c *Ctx) nextNodes(f *ssa.Function, o *Outcome, loads []*Event) {
	if len(loads) == 0 {
		return
	}
	own := loads[0].Res.Sub[0]
	m := &mapSim{o: o}
	zero := func(l *Event) bool { return m.truth(mkBin("==", l.Res.Sub[0], tNil, nil)) == 1 }
	if m.truth(loads[0].Res.Sub[1]) == 0 || zero(loads[0]) {
		return // impossible: every point has a node
	}
	for _, ev := range o.S.events {
		if ev.Kind != "append" || ev.Res == nil {
			continue
		}
		var elems []*Term
		if ev.Res.Op == "append" && ev.Res.Sub[1].Op == "list" {
			elems = ev.Res.Sub[1].Sub
		} else {
			c.viol("next", f, ev, o, "it gives %s", ev.Args[1])
		}
		for _, n := range elems {
			c.ob("next nodes")
			from, skip := false, false
			for _, l := range loads {
				if l.Res.Sub[0] == n && m.truth(l.Res.Sub[1]) == 1 {
					from = true
				}
				if zero(l) {
					skip = true
				}
			}
			if skip {
				continue
			}
			if !from {
				c.viol("next", f, ev, o, "%s is not the node of a point", n)
				continue
			}
			if m.truth(mkBin("==", own, n, nil)) != 0 {
				c.viol("next", f, ev, o, "it may give the key's own node")
			}
			fresh, noted := false, false
			for _, x := range o.S.events {
				if x.Kind == "mapget" && x.Args[1] == n && x.N < ev.N && m.truth(x.Res.Sub[1]) == 0 {
					fresh = true
				}
				if x.Kind == "mapset" && x.Args[1] == n {
					noted = true
				}
				if x.Kind == "pure" && strings.HasPrefix(x.Fn, "slices.Contains") && x.Args[1] == n && m.truth(x.Res) == 0 {
					fresh, noted = true, true
				}
			}
			if !fresh || !noted {
				c.viol("next", f, ev, o, "it may give the node %s twice", n)
			}
		}
	}
}

// nextLoop: one step further round the ring in every iteration.
func (c *Ctx) nextLoop(f *ssa.Function, o *Outcome, loads []*Event, isKeys func(*Term) bool) (r []*Term) {
	c.nextNodes(f, o, loads)
	l := lastLoop(o)
	for _, ev := range loads {
		if ev.N < o.S.events[l].N {
			continue
		}
		i := pointIndex(ev.Args[1], isKeys)
		if i == nil {
			continue
		}
		ar := o.S.arith()
		good := false
		from := pointIndex(loads[0].Args[1], isKeys)
		sum := i
		mod := i.Op == "bin" && i.Aux == "%" && keysLen(i.Sub[1])
		if mod {
			sum = i.Sub[0]
		}
		for _, v := range loopSyms(i) {
			// the number of the step, counted from the key's own point
			if step, ok := stepOf(v); ok && step == 1 && from != nil {
				if d := v.Sym.Init; d != nil && ar.le(tZero, d, 0) && ar.le(d, tInt(1), 0) && stepsOn(sum, v, from) {
					good = true
				}
			}
			// or an index that is itself carried round
			if mod && len(v.Sym.Nexts) > 0 && v.Sym.Nexts[0] == i {
				good = true
			}
		}
		if !good {
			c.viol("next", f, ev, o, "the iteration asks for the point number %s, which is not one step on", i)
		}
		r = append(r, i)
	}
	return
}

// stepsOn: sum is from + v, or that less one time round the ring.
func stepsOn(sum, v, from *Term) bool {
	a := &Arith{}
	if from.Op == "bin" && from.Aux == "%" && keysLen(from.Sub[1]) && stepsOn(sum, v, from.Sub[0]) {
		return true
	}
	l := a.lin(sum).add(a.lin(v), -1).add(a.lin(from), -1)
	if l.bad || l.k != 0 {
		return false
	}
	for t, k := range l.c {
		if k != 0 && !(keysLen(t) && (k == 1 || k == -1)) {
			return false
		}
	}
	return true
}

func (c *Ctx) ringChange(f *ssa.Function, isKeys func(*Term) bool) {
	e := c.engine()
	e.NoPanic, e.MultiIter = true, true
	outs := c.run(e, f)
	adds := false
	for _, o := range outs {
		for _, ev := range o.S.events {
			if ev.Kind == "smap" && isSet(ev) {
				adds = true
			}
		}
	}
	keyp := paramTerms(f)[1]
	for _, o := range outs {
		if o.Kind != "return" && o.Kind != "loop" {
			continue
		}
		m := &mapSim{o: o}
		skip := false
		for _, fa := range o.S.facts {
			if fa.Truth && fa.T.Op == "bin" && fa.T.Aux == "==" && fa.T.Sub[0] == tNil && fa.T.Sub[1].Op == "sym" {
				switch ev := fa.T.Sub[1].Sym.Ev; {
				case strings.HasPrefix(fa.T.Sub[1].String(), "pool:Get"), ev != nil && (ev.Kind == "pool" || ev.Kind == "smap" && ev.Fn == "Range" || ev.Kind == "iterate-next"):
					skip = true // pools give objects, the table holds numbers
				}
			}
		}
		if skip {
			continue
		}
		c.ob("changes")
		// stores to the points, and sorting
		lastStore, lastSort := -1, -1
		var stored *Term
		var sorted *Event
		var appended []*Term // points that went in, with their events
		appAt := map[*Term]int{}
		for i, ev := range o.S.events {
			switch ev.Kind {
			case "store":
				if ev.Args[0].Op == "fld" && ev.Args[0].Aux == "keys" && shortKey(own(ev.Args[0])) == ringT {
					lastStore, stored = i, ev.Args[1]
					for t := ev.Args[1]; t.Op == "append"; t = t.Sub[0] {
						for _, h := range listOf(t.Sub[1]) {
							if _, ok := appAt[h]; !ok {
								appended = append(appended, h)
								appAt[h] = i
							}
						}
					}
				}
			case "sort":
				lastSort, sorted = i, ev
			case "lessret":
				c.ob("comparisons")
				if !ascending(m, ev) {
					c.viol("sorted", f, ev, o, "the points are sorted by %s", ev.Args[3])
				}
			}
		}
		if o.Kind == "return" && lastStore >= 0 {
			switch {
			case sorted == nil || lastSort < lastStore && sorted.Args[0] != stored:
				c.viol("sorted", f, o.S.events[lastStore], o, "the points are changed and not sorted afterwards")
			case sorted.Args[0] != stored && !(sorted.Args[0].Op == "sym" && sorted.Args[0].Sym.Kind == "loop") && !(sorted.Args[0].Op == "sym" && sorted.Args[0].Sym.Kind == "iterstate") && !isKeys(sorted.Args[0]):
				c.viol("sorted", f, sorted, o, "%s is sorted instead of the points", sorted.Args[0])
			case strings.HasPrefix(sorted.Fn, "sort.") && len(sorted.Args) == 1:
				c.viol("sorted", f, sorted, o, "the order of the sort is not understood")
			}
		}
		if adds {
			c.ringAdd(f, o, m, appended, appAt)
		} else if o.Kind == "return" {
			c.ringDel(f, o, m, keyp, stored)
		}
	}
}

func listOf(t *Term) []*Term {
	if t.Op == "list" {
		return t.Sub
	}
	return []*Term{t}
}

func isSet(ev *Event) bool { return ev.Fn == "Swap" || ev.Fn == "Store" || ev.Fn == "LoadOrStore" }

func (c *Ctx) ringAdd(f *ssa.Function, o *Outcome, m *mapSim, appended []*Term, appAt map[*Term]int) {
	sets := map[*Term]*Event{}
	for _, ev := range o.S.events {
		if ev.Kind == "smap" && isSet(ev) {
			h, node := ev.Args[1], ev.Args[2]
			for node.Op == "conv" && len(node.Sub) == 1 {
				node = node.Sub[0]
			}
			sets[h] = ev
			c.ob("points")
			if _, ok := appAt[h]; !ok {
				c.viol("together", f, ev, o, "a point is entered in the table that is not put in the ring")
			}
			entered, absent := false, false
			for _, x := range o.S.events {
				if x.Kind == "mapset" && x.Args[1] == node && x.N < ev.N || x.Kind == "mapset" && x.Args[1] == node {
					entered = true
				}
				if x.Kind == "mapget" && x.Args[1] == node && x.N < ev.N && m.truth(x.Res.Sub[1]) == 0 {
					absent = true
				}
			}
			if !entered {
				c.viol("together", f, ev, o, "points of %s are entered, but not the node", node)
			}
			if !absent {
				c.viol("together", f, ev, o, "points of %s are entered although it may be in the ring already", node)
			}
			bad := pureOf(h, func(x *Term) bool {
				return x == node || strings.HasPrefix(x.String(), "pool:Get")
			})
			if bad != nil {
				c.viol("deterministic", f, ev, o, "a point of %s depends on %s", node, bad)
			}
			if !h.mentions(node) {
				c.viol("deterministic", f, ev, o, "the points of a node do not depend on it")
			}
		}
		if ev.Kind == "smap" && strings.Contains(ev.Fn, "Delete") || ev.Kind == "mapdel" {
			c.viol("together", f, ev, o, "adding nodes deletes something")
		}
	}
	for _, h := range appended {
		if sets[h] == nil {
			c.viol("together", f, o.S.events[appAt[h]], o, "the point %s is put in the ring and not in the table", h)
		}
	}
	for _, fa := range o.S.facts {
		if strings.Contains(fa.T.String(), "sort.S") {
			continue // about the elements a sort compares
		}
		fa.T.walk(func(x *Term) bool {
			if keysLen(x) {
				c.viol("deterministic", f, nil, o, "what is added depends on the number of points: %s", fa.T)
				return false
			}
			return true
		})
	}
	// a node that is new gets its points: entering it without looking at the replicas loses it
	for _, ev := range o.S.events {
		if ev.Kind == "mapset" && o.Kind == "return" {
			n := ev.Args[1]
			any := false
			for _, s := range sets {
				if s.Args[2] == n || s.Args[2].mentions(n) {
					any = true
				}
			}
			few := false
			for _, fa := range o.S.facts {
				if fa.T.Op == "bin" && fa.T.Aux == "<" && fa.T.Sub[0] == tZero && !fa.Truth && isField(fa.T.Sub[1], ringT, "replicas") {
					few = true
				}
			}
			if !any && !few {
				c.viol("together", f, ev, o, "%s is entered as a node without points", n)
			}
		}
	}
}

func (c *Ctx) ringDel(f *ssa.Function, o *Outcome, m *mapSim, key *Term, stored *Term) {
	var appended []*Term
	present := -1
	removed := false
	for _, ev := range o.S.events {
		if ev.Kind == "mapget" && ev.Args[1] == key && present < 0 {
			present = m.truth(ev.Res.Sub[1])
		}
		if ev.Kind == "mapdel" {
			if ev.Args[1] != key {
				c.viol("removed", f, ev, o, "%s is taken out instead of the node", ev.Args[1])
			}
			removed = true
		}
		if ev.Kind == "mapset" {
			c.viol("removed", f, ev, o, "removing enters a node")
		}
	}
	changed := false
	visited := false
	for _, ev := range o.S.events {
		if ev.Kind == "append" && ev.Res != nil && ev.Res.Op == "append" {
			appended = append(appended, listOf(ev.Res.Sub[1])...)
		}
		if ev.Kind == "store" && ev.Args[0].Op == "fld" && ev.Args[0].Aux == "keys" || ev.Kind == "smap" && strings.Contains(ev.Fn, "Delete") {
			changed = true
		}
		if ev.Kind == "smap" && (ev.Fn == "Range" || ev.Fn == "Load") || ev.Kind == "maprange" {
			visited = true
		}
	}
	if present == 0 {
		if changed {
			c.viol("removed", f, nil, o, "the node is not in the ring and its points change")
		}
		return
	}
	if !removed {
		c.viol("removed", f, nil, o, "the node stays in the node table")
	}
	if !visited {
		for _, fa := range o.S.facts {
			if fa.T.Op == "bin" && fa.T.Aux == "<" && !fa.Truth && keysLen(fa.T.Sub[1]) {
				visited = true // there were none
			}
		}
		if !visited {
			c.viol("removed", f, nil, o, "the node's points are left")
		}
	}
	base := stored
	for base != nil && (base.Op == "append" || base.Op == "sym" && base.Sym.Init != nil) {
		if base.Op == "append" {
			base = base.Sub[0]
		} else {
			base = base.Sym.Init
		}
	}
	if base == nil || !o.S.arith().le(mkLen(base), tZero, 0) {
		c.viol("removed", f, nil, o, "the points kept are not put in an empty list, but added to %v", base)
	}
	visit := func(at *Event, k, v *Term) {
		if m.truth(mkBin("==", v, tNil, nil)) == 1 {
			return // the node of a point is a number
		}
		c.ob("points visited")
		deleted, kept := false, 0
		for _, ev := range o.S.events {
			if ev.Kind == "smap" && strings.Contains(ev.Fn, "Delete") && ev.Args[1] == k {
				deleted = true
			}
		}
		for _, h := range appended {
			if h == k {
				kept++
			}
		}
		switch m.truth(mkBin("==", key, v, nil)) {
		case 1:
			if !deleted || kept > 0 {
				c.viol("removed", f, at, o, "a point of the node is deleted: %v, kept: %v", deleted, kept > 0)
			}
		case 0:
			if deleted || kept != 1 {
				c.viol("removed", f, at, o, "a point of another node is deleted: %v, kept %d times", deleted, kept)
			}
		default:
			c.viol("removed", f, at, o, "a point is visited without looking at whose it is")
		}
	}
	for _, ev := range o.S.events {
		switch {
		case ev.Kind == "smap" && ev.Fn == "Load" && m.truth(ev.Res.Sub[1]) == 1:
			visit(ev, ev.Args[1], ev.Res.Sub[0])
		case ev.Kind == "iterret" && m.truth(ev.Args[0]) != 1:
			c.viol("removed", f, ev, o, "it may stop before all points have been visited")
		case ev.Kind == "smap" && ev.Fn == "Range" || ev.Kind == "iterate-next":
			ran := false
			for _, x := range o.S.events {
				if x.Kind == "iterret" && x.N > ev.N {
					ran = true
				}
			}
			if ran {
				visit(ev, ev.Res.Sub[0], ev.Res.Sub[1])
			}
		}
	}
}

func init() {
	checks["C07"] = checkDef{c07, "path-sensitive analysis of the ring's operations with value numbering and a linear domain: index bounds, data dependence of the point chosen, sortedness as a typestate, and the joint updates of points, point table and node table"}
}
