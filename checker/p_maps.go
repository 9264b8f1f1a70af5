package main

import (
	"fmt"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// The maps are checked against one invariant: the index and the order list of a container describe the same set of
// entries (each list element is indexed under the key it records, and nothing else is), the counter and every other
// measure equal its size, and the size is at most the capacity. Every operation is shown, path by path, to preserve
// the invariant and to have the effect on the abstract map that its name promises.

// norm removes the moment at which memory was read: two reads of one place are one place.
func norm(t *Term) *Term {
	if t == nil || len(t.Sub) == 0 || t.Op == "obj" {
		return t
	}
	sub := make([]*Term, len(t.Sub))
	ch := false
	for i, x := range t.Sub {
		sub[i] = norm(x)
		ch = ch || sub[i] != x
	}
	aux := t.Aux
	if t.Op == "init" {
		aux = "0"
	}
	if !ch && aux == t.Aux {
		return t
	}
	n := mkT(t.Op, aux, t.Typ, sub...)
	n.Fn = t.Fn
	if o := own(t); o != "" {
		setOwn(n, o)
	}
	return n
}

func sameT(a, b *Term) bool { return a == b || norm(a) == norm(b) }

// idxOp is an operation on an index (Go map, sync.Map, LRU cache, B-tree).
type idxOp struct {
	kind     string // get set del clear
	m        *Term  // normalised
	key, val *Term
	ok       *Term // was the key present before (nil: the operation does not tell)
	prev     *Term
	atomic   bool
	ev       *Event
	at       int
	has      int // presence before the operation: 1, 0, -1
	absent   *Term
}

type listOp struct {
	fn   string
	list *Term
	elem *Term
	val  map[string]*Term // fields of a pushed entry
	ev   *Event
	at   int
}

type mapSim struct {
	c    *Ctx
	fn   *ssa.Function
	o    *Outcome
	idx  []*idxOp
	lst  []*listOp
	last int // index of the last loop event, -1
}

// entryFields are the fields of an entry about to be published.
func entryFields(s *State, v *Term) map[string]*Term {
	r := map[string]*Term{}
	if v.Op == "struct" && v.Typ != nil {
		if st, ok := v.Typ.Underlying().(*types.Struct); ok {
			for i := 0; i < st.NumFields() && i < len(v.Sub); i++ {
				r[st.Field(i).Name()] = v.Sub[i]
			}
		}
		return r
	}
	for a, x := range s.mem {
		if a.Op == "fld" && a.Sub[0] == v {
			r[a.Aux] = x
		}
	}
	if v.Op == "obj" && v.Typ != nil {
		if pt, ok := v.Typ.Underlying().(*types.Pointer); ok {
			if st, ok := pt.Elem().Underlying().(*types.Struct); ok {
				for i := 0; i < st.NumFields(); i++ {
					if _, ok := r[st.Field(i).Name()]; !ok {
						r[st.Field(i).Name()] = zeroTerm(st.Field(i).Type())
					}
				}
			}
		}
	}
	return r
}

func mapEngine(c *Ctx) *Engine {
	e := c.engine()
	e.NoPanic = true
	e.OnEvent = func(e *Engine, s *State, ev *Event) {
		if ev.Kind == "list" && (strings.HasPrefix(ev.Fn, "Push") || strings.HasPrefix(ev.Fn, "Insert")) && len(ev.Args) > 1 {
			ev.Mem = map[*Term]*Term{}
			for f, v := range entryFields(s, ev.Args[1]) {
				ev.Mem[tStr(f)] = v
			}
		}
		if ev.Kind == "call" && strings.HasPrefix(ev.Fn, "(*github.com/google/btree.BTree") && len(ev.Args) > 1 {
			ev.Mem = map[*Term]*Term{}
			for f, v := range entryFields(s, ev.Args[1]) {
				ev.Mem[tStr(f)] = v
			}
		}
	}
	return e
}

// place: the field or value a map operand stands for.
func place(t *Term) *Term { return norm(t) }

func simulate(c *Ctx, fn *ssa.Function, o *Outcome) *mapSim {
	m := &mapSim{c: c, fn: fn, o: o, last: -1}
	for i, ev := range o.S.events {
		x := &idxOp{ev: ev, at: i, has: -1}
		if len(ev.Args) > 0 && ev.Args[0] != nil {
			x.m = place(ev.Args[0])
		}
		res := func(n int) *Term {
			if ev.Res != nil && ev.Res.Op == "tuple" && n < len(ev.Res.Sub) {
				return ev.Res.Sub[n]
			}
			if n == 0 {
				return ev.Res
			}
			return nil
		}
		switch ev.Kind {
		case "loop":
			m.last = i
			continue
		case "mapget":
			x.kind, x.key, x.prev, x.ok = "get", ev.Args[1], res(0), res(1)
		case "mapset":
			x.kind, x.key, x.val = "set", ev.Args[1], ev.Args[2]
		case "mapdel":
			x.kind, x.key = "del", ev.Args[1]
		case "mapclear":
			x.kind = "clear"
		case "store":
			a, v := ev.Args[0], ev.Args[1]
			if a.Op == "fld" && v.Op == "obj" && v.Obj.Kind == "map" && ev.Note != "private" {
				x.kind, x.m = "clear", norm(mkT("init", "0", v.Typ, a))
			}
		case "smap":
			x.atomic = true
			if len(ev.Args) > 1 {
				x.key = ev.Args[1]
			}
			switch ev.Fn {
			case "Load":
				x.kind, x.prev, x.ok = "get", res(0), res(1)
			case "Store":
				x.kind, x.val = "set", ev.Args[2]
			case "Swap":
				x.kind, x.val, x.prev, x.ok = "set", ev.Args[2], res(0), res(1)
			case "LoadOrStore":
				x.kind, x.val, x.prev, x.ok = "los", ev.Args[2], res(0), res(1)
			case "LoadAndDelete":
				x.kind, x.prev, x.ok = "del", res(0), res(1)
			case "Delete":
				x.kind = "del"
			case "Clear":
				x.kind = "clear"
			case "CompareAndDelete", "CompareAndSwap":
				x.kind = "cas"
			}
		case "call":
			switch {
			case strings.HasPrefix(ev.Fn, "(*github.com/golang/groupcache/lru.Cache)."):
				if len(ev.Args) > 1 {
					x.key = ev.Args[1]
				}
				switch callMethod(ev.Fn) {
				case "Get":
					x.kind, x.prev, x.ok = "get", res(0), res(1)
				case "Add":
					x.kind, x.val = "set", ev.Args[2]
				case "Remove":
					x.kind = "del"
				case "RemoveOldest":
					x.kind = "evict"
				case "Clear":
					x.kind = "clear"
				}
			case strings.HasPrefix(ev.Fn, "(*github.com/google/btree.BTree"):
				if len(ev.Args) > 1 {
					x.key = ev.Args[1]
				}
				if ev.Mem != nil {
					var fs []string
					for f := range ev.Mem {
						fs = append(fs, f.Aux)
					}
					sort.Strings(fs)
				}
				switch callMethod(ev.Fn) {
				case "Get":
					x.kind, x.prev = "get", ev.Res
				case "Has":
					x.kind, x.ok = "get", ev.Res
				case "ReplaceOrInsert":
					x.kind, x.prev = "set", ev.Res
				case "Delete":
					x.kind, x.prev = "del", ev.Res
				case "Clear":
					x.kind = "clear"
				case "DeleteMin", "DeleteMax":
					x.kind = "evict"
				}
				if x.prev != nil {
					x.absent = mkBin("==", x.prev, tNil, nil)
				}
			}
		case "list":
			l := &listOp{fn: ev.Fn, ev: ev, at: i}
			if len(ev.Args) > 0 {
				l.list = norm(ev.Args[0])
			}
			switch {
			case strings.HasPrefix(ev.Fn, "Push"), strings.HasPrefix(ev.Fn, "Insert"):
				l.elem = ev.Res
				l.val = map[string]*Term{}
				for f, v := range ev.Mem {
					l.val[unq(f.Aux)] = v
				}
			case ev.Fn == "Remove" || strings.HasPrefix(ev.Fn, "MoveTo"):
				l.elem = ev.Args[1]
			case ev.Fn == "Front" || ev.Fn == "Back":
				l.elem = ev.Res
			}
			m.lst = append(m.lst, l)
			continue
		}
		if x.kind != "" {
			x.has = m.presence(x)
			m.idx = append(m.idx, x)
		}
	}
	return m
}

// truth of a condition at the end of the path.
func (m *mapSim) truth(t *Term) int {
	if t == nil {
		return -1
	}
	neg := false
	for t.Op == "not" {
		t, neg = t.Sub[0], !neg
	}
	r := -1
	if t == tTrue {
		r = 1
	} else if t == tFalse {
		r = 0
	} else if v, ok := m.o.S.fset[t]; ok {
		r = 0
		if v {
			r = 1
		}
	} else if t.Op == "bin" {
		switch (&Engine{}).decide(m.o.S, t) {
		case 1:
			r = 1
		case 0:
			r = 0
		}
	}
	if r >= 0 && neg {
		r = 1 - r
	}
	return r
}

// together: do two events happen in one exclusive critical section?
func together(a, b *Event) bool {
	for _, h := range a.Locks {
		for _, g := range b.Locks {
			if h.Ev == g.Ev && h.Key == g.Key && !h.Read && !g.Read {
				return true
			}
		}
	}
	return false
}

// presence of the operation's key before it: from its own result, or from earlier operations on the same key in
// the same critical section.
func (m *mapSim) presence(x *idxOp) int {
	if x.ok != nil {
		if r := m.truth(x.ok); r >= 0 {
			return r
		}
	}
	if x.absent != nil {
		if r := m.truth(x.absent); r >= 0 {
			return 1 - r
		}
	}
	if x.key == nil {
		return -1
	}
	for i := len(m.idx) - 1; i >= 0; i-- {
		y := m.idx[i]
		if y.m != x.m {
			continue
		}
		if y.kind == "clear" {
			return 0
		}
		if y.key == nil || y.key != x.key {
			continue
		}
		if !together(x.ev, y.ev) {
			return -1
		}
		switch y.kind {
		case "set", "los":
			return 1
		case "del":
			return 0
		case "get":
			if y.has == 1 && m.last > y.at {
				return -1
			}
			return y.has
		}
	}
	return -1
}

func isInit(t *Term) bool { return t.Op == "init" }

// entryOf: elem.Value as read, or the entry pushed on this path.
func entryOf(t *Term) *Term {
	if isInit(t) && t.Sub[0].Op == "fld" && t.Sub[0].Aux == "Value" && strings.HasPrefix(own(t.Sub[0]), "container/list") {
		return t.Sub[0].Sub[0]
	}
	return nil
}

// fieldOfElem: is t field f of the entry an element holds? Returns the element and the field.
func fieldOfElem(t *Term) (elem *Term, field string) {
	if isInit(t) && t.Sub[0].Op == "fld" {
		if e := entryOf(t.Sub[0].Sub[0]); e != nil {
			return e, t.Sub[0].Aux
		}
	}
	if t.Op == "f" {
		if e := entryOf(t.Sub[0]); e != nil {
			return e, t.Aux
		}
	}
	return nil, ""
}

// container describes one of the map types.
type container struct {
	pkg, typ string
	key      string // the name of the key field of its entries, "" when it keeps none
	val      string
	front    int // where new entries go: 1 front, 0 back, -1 not seen
	capF     string
	counter  string
	segs     bool
	linked   bool // index values are list elements
	tree     bool
}

func (k *container) name() string { return k.pkg + "." + k.typ }

type mapRun struct {
	fn   *ssa.Function
	name string
	sims []*mapSim
}

type mapCheck struct {
	c    *Ctx
	k    *container
	runs []*mapRun
	inj  int
}

func (c *Ctx) mapChecks(only ...string) []*mapCheck {
	var out []*mapCheck
	for _, k := range []*container{
		{pkg: "hashmap", typ: "MapL"}, {pkg: "hashmap", typ: "Map"}, {pkg: "hashmap", typ: "LimitMap"}, {pkg: "hashmap", typ: "LimitHashMap"},
		{pkg: "hashmap", typ: "LinkedHashMap"}, {pkg: "hashmap", typ: "TreeMap"}, {pkg: "cache", typ: "LruCache"},
	} {
		mc := &mapCheck{c: c, k: k}
		k.front = -1
		k.tree = k.typ == "TreeMap"
		for _, f := range c.methods(k.pkg, k.typ) {
			outs := c.run(mapEngine(c), f)
			r := &mapRun{fn: f, name: f.Name()}
			for _, o := range outs {
				if o.Kind == "panic" {
					continue
				}
				r.sims = append(r.sims, simulate(c, f, o))
			}
			mc.runs = append(mc.runs, r)
		}
		mc.learn()
		out = append(out, mc)
	}
	return out
}

// learn finds the roles of the fields: which field of an entry records its key and which its value, at which end
// entries are added, and which field counts.
func (mc *mapCheck) learn() {
	var kf, vf map[string]bool
	for _, r := range mc.runs {
		var vp *Term
		if ps := paramTerms(r.fn); len(ps) == 3 {
			vp = ps[2]
		}
		for _, s := range r.sims {
			for _, l := range s.lst {
				if !strings.HasPrefix(l.fn, "Push") {
					continue
				}
				mc.k.linked = true
				if l.fn == "PushFront" {
					mc.k.front = 1
				} else if mc.k.front < 0 {
					mc.k.front = 0
				}
				for _, x := range s.idx {
					if (x.kind == "set" || x.kind == "los") && x.val == l.elem {
						k2, v2 := map[string]bool{}, map[string]bool{}
						for f, v := range l.val {
							if v == x.key && (kf == nil || kf[f]) {
								k2[f] = true
							}
							if v == vp && vp != nil && (vf == nil || vf[f]) {
								v2[f] = true
							}
						}
						kf, vf = k2, v2
					}
				}
			}
			for _, x := range s.idx { // B-tree items
				if x.kind == "set" && x.ev.Mem != nil && vp != nil {
					for f, v := range x.ev.Mem {
						if v == paramTerms(r.fn)[1] {
							mc.k.key = unq(f.Aux)
						}
						if v == vp {
							mc.k.val = unq(f.Aux)
						}
					}
				}
			}
			for _, ev := range s.o.S.events {
				if a := counterOf(mc, ev); a != "" {
					mc.k.counter = a
				}
				for _, a := range ev.Args {
					if a != nil && a.Op == "fld" && a.Aux == "segments" {
						mc.k.segs = true
					}
				}
			}
		}
	}
	pick := func(m map[string]bool) string {
		var ks []string
		for k := range m {
			ks = append(ks, k)
		}
		sort.Strings(ks)
		if len(ks) == 0 {
			return ""
		}
		return ks[0]
	}
	if mc.k.linked {
		mc.k.key, mc.k.val = pick(kf), pick(vf)
	}
}

// counterOf: the event changes an integer field of the container itself; its name.
func counterOf(mc *mapCheck, ev *Event) string {
	var a *Term
	switch ev.Kind {
	case "store":
		if ev.Note == "private" {
			return ""
		}
		a = ev.Args[0]
	case "atomic":
		if ev.Fn == "load" {
			return ""
		}
		a = ev.Args[0]
	default:
		return ""
	}
	if a.Op != "fld" || shortKey(own(a)) != mc.k.name() {
		return ""
	}
	if pt, ok := a.Typ.Underlying().(*types.Pointer); ok {
		if b, ok := pt.Elem().Underlying().(*types.Basic); ok && b.Info()&types.IsInteger != 0 {
			return a.Aux
		}
		if strings.HasPrefix(typeKey(pt.Elem()), "sync/atomic.Int") {
			return a.Aux
		}
	}
	return ""
}

func (mc *mapCheck) viol(rule string, s *mapSim, ev *Event, f string, a ...any) {
	mc.c.viol(rule, s.fn, ev, s.o, f, a...)
}

// removed: is the element taken out of the list on this path after event index at?
func (s *mapSim) removedAfter(elem *Term, at int) *listOp {
	for _, l := range s.lst {
		if l.at > at && l.fn == "Remove" && l.elem == elem {
			return l
		}
		if l.at > at && l.fn == "Init" {
			return l
		}
	}
	return nil
}

// sameKey: the keys of two index operations are the same, as terms or because one is recorded in the entry the
// other is about.
func (mc *mapCheck) keyOfElem(s *mapSim, k, elem *Term) bool {
	if e, f := fieldOfElem(k); e != nil && f == mc.k.key && sameT(e, elem) {
		return true
	}
	for _, l := range s.lst {
		if l.elem == elem && l.val != nil && l.val[mc.k.key] == k {
			return true
		}
	}
	return false
}

// structure checks that index and list still describe one set of entries.
func (mc *mapCheck) structure(s *mapSim) {
	k := mc.k
	// the last word on each key
	final := func(x *idxOp) bool {
		for _, y := range s.idx {
			if y.at > x.at && y.m == x.m && (y.kind == "clear" || (y.kind == "set" || y.kind == "del") && y.key == x.key) {
				return false
			}
		}
		return true
	}
	for _, l := range s.lst {
		switch {
		case strings.HasPrefix(l.fn, "Push") || strings.HasPrefix(l.fn, "Insert"):
			mc.c.ob("entries added")
			if s.removedAfter(l.elem, l.at) != nil {
				continue
			}
			hit := false
			for _, x := range s.idx {
				if (x.kind == "set" || x.kind == "los" && x.has == 0) && x.val == l.elem && final(x) {
					if l.val[k.key] == x.key {
						hit = true
					} else {
						mc.viol("entry-key", s, l.ev, "the entry is indexed under %s but records the key %s: evicting it would delete another key", x.key, l.val[k.key])
						hit = true
					}
				}
			}
			if !hit {
				mc.viol("indexed", s, l.ev, "an entry is added to the order list and not to the index")
			}
			if l.fn == "PushFront" && k.front == 0 || l.fn == "PushBack" && k.front == 1 || strings.HasPrefix(l.fn, "Insert") {
				mc.viol("order", s, l.ev, "entries are added at both ends of the order list")
			}
		case strings.HasPrefix(l.fn, "MoveTo"):
			mc.c.ob("moves")
			if l.fn == "MoveToFront" && k.front == 0 || l.fn == "MoveToBack" && k.front == 1 || !strings.HasSuffix(l.fn, "Front") && !strings.HasSuffix(l.fn, "Back") {
				mc.viol("order", s, l.ev, "an entry that is used is moved to the old end of the order, where it is evicted next")
			}
		case l.fn == "Remove":
			mc.c.ob("entries removed")
			hit := false
			for _, x := range s.idx {
				switch x.kind {
				case "clear":
					hit = hit || x.at > l.at
				case "del":
					if mc.keyOfElem(s, x.key, l.elem) && final(x) {
						hit = true
					}
					if x.prev == l.elem && x.has != 0 {
						hit = true
					}
					for _, y := range s.idx {
						if y.key == x.key && y.m == x.m && y.prev == l.elem && y.has == 1 && final(x) {
							hit = true
						}
					}
				case "set":
					if x.prev == l.elem && x.has == 1 {
						hit = true
					}
					for _, y := range s.idx {
						if y.kind == "get" && y.key == x.key && y.m == x.m && y.prev == l.elem && y.has == 1 && y.at < x.at {
							hit = true
						}
					}
				}
			}
			if !hit {
				mc.viol("unindexed", s, l.ev, "an element is removed from the order list and its key stays in the index")
			}
		case l.fn == "Init":
			mc.c.ob("clears")
			hit := false
			for _, x := range s.idx {
				if x.kind == "clear" {
					hit = true
				}
			}
			if !hit {
				mc.viol("unindexed", s, l.ev, "the order list is emptied and the index is not")
			}
		}
	}
	for _, x := range s.idx {
		switch x.kind {
		case "set", "los":
			mc.c.ob("keys set")
			if x.kind == "los" && x.has == 1 || !k.linked {
				continue
			}
			var l *listOp
			for _, y := range s.lst {
				if y.elem == x.val && strings.HasPrefix(y.fn, "Push") {
					l = y
				}
			}
			if l == nil {
				if x.has == 1 {
					ok := false
					for _, y := range s.idx {
						if y.kind == "get" && y.key == x.key && y.prev == x.val {
							ok = true // the same element again
						}
					}
					if ok {
						continue
					}
				}
				mc.viol("listed", s, x.ev, "a key is indexed without an entry of the order list")
				continue
			}
			// the entry the key had before goes
			if x.has != 0 && final(x) {
				gone := false
				for _, y := range s.lst {
					if y.fn != "Remove" {
						continue
					}
					if y.elem == x.prev {
						gone = true
					}
					for _, z := range s.idx {
						if z.kind == "get" && z.key == x.key && z.prev == y.elem && z.at < x.at {
							gone = true
						}
					}
				}
				if !gone && x.prev != nil && s.truth(mkBin("==", x.prev, tNil, nil)) == 1 {
					gone = true // never a nil element
				}
				if !gone {
					mc.viol("replaced", s, x.ev, "the key may be present, and the entry it had stays in the order list")
				}
			}
		case "del":
			mc.c.ob("keys deleted")
			if !k.linked || x.has == 0 {
				continue
			}
			gone := false
			for _, y := range s.lst {
				if y.fn != "Remove" {
					continue
				}
				if mc.keyOfElem(s, x.key, y.elem) || x.prev != nil && x.prev == y.elem {
					gone = true
				}
				for _, z := range s.idx {
					if z.kind == "get" && z.key == x.key && z.prev == y.elem {
						gone = true
					}
				}
			}
			if !gone {
				mc.viol("delisted", s, x.ev, "a key is deleted from the index and its entry stays in the order list")
			}
		case "clear":
			if k.linked {
				hit := false
				for _, y := range s.lst {
					if y.fn == "Init" {
						hit = true
					}
				}
				for _, ev := range s.o.S.events {
					if ev.Kind == "store" && ev.Args[0].Op == "fld" && ev.Args[1].Op == "obj" && strings.Contains(typeKey(ev.Args[1].Typ), "container/list.List") {
						hit = true
					}
				}
				if !hit {
					mc.viol("delisted", s, x.ev, "the index is emptied and the order list is not")
				}
			}
		case "cas":
			mc.viol("effect", s, x.ev, "%s is not an operation the containers' invariant is known for", x.ev.Fn)
		}
	}
}

// delta is the change of the number of keys after the first n events; ok is false when it is not determined.
func (s *mapSim) delta(from, to int) (d int, ok bool, why *idxOp) {
	ok = true
	for _, x := range s.idx {
		if x.at < from || x.at >= to {
			continue
		}
		switch x.kind {
		case "set", "los":
			switch x.has {
			case 0:
				d++
			case -1:
				ok, why = false, x
			}
		case "del":
			switch s.hasForDelete(x) {
			case 1:
				d--
			case -1:
				ok, why = false, x
			}
		}
	}
	return
}

// hasForDelete: a key read from an entry found in the order list is present, by the invariant.
func (s *mapSim) hasForDelete(x *idxOp) int {
	if x.has >= 0 {
		return x.has
	}
	if e, _ := fieldOfElem(x.key); e != nil {
		for _, l := range s.lst {
			if (l.fn == "Front" || l.fn == "Back") && sameT(l.elem, e) {
				if s.truth(mkBin("==", l.elem, tNil, nil)) != 1 {
					return 1
				}
			}
		}
	}
	return -1
}

func (s *mapSim) clears() *idxOp {
	for _, x := range s.idx {
		if x.kind == "clear" {
			return x
		}
	}
	return nil
}

func (mc *mapCheck) run(name string) *mapRun {
	for _, r := range mc.runs {
		if r.name == name {
			return r
		}
	}
	return nil
}

// ---------- C04 ----------

func c04(c *Ctx) {
	c.rule("bound: on every path of an operation that may add an entry, size before + entries added - entries removed <= capacity, given the invariant and a capacity of at least 1")
	c.rule("victim: an entry removed to make room comes from the end of the order opposite to the one entries are added at, only when the container is full, and never on a path on which the key is present")
	c.rule("order, indexed, unindexed, listed, delisted, replaced, entry-key: index and order list describe one set of entries after every operation, and entries are added and moved to one end only")
	c.rule("capacity: constructors keep the capacity they are given; of several segments, each holds at least one entry and together they hold no more than the capacity")
	n := 0
	for _, mc := range c.mapChecks() {
		switch mc.k.typ {
		case "LimitMap", "LimitHashMap", "LinkedHashMap":
		case "LruCache":
			mc.lruCap()
			continue
		default:
			continue
		}
		mc.capacity()
		for _, r := range mc.runs {
			for _, s := range r.sims {
				mc.structure(s)
				mc.bound(s)
			}
		}
		n++
		if mc.k.key == "" {
			c.fail("%s: no field of its entries records the key", mc.k.name())
		}
	}
	if n != 3 {
		c.fail("%d bounded maps found", n)
	}
}

// lruCap: the cache is given the number of entries asked for.
func (mc *mapCheck) lruCap() {
	f := mc.c.pub("cache", "", "NewLruCache")
	if f == nil {
		return
	}
	for _, o := range mc.c.run(mc.c.engine(), f) {
		n := 0
		for _, ev := range o.S.events {
			if ev.Fn == "github.com/golang/groupcache/lru.New" {
				n++
				mc.c.ob("capacities")
				if ev.Args[0] != paramTerms(f)[0] && (&Engine{}).decide(o.S, mkBin("<", paramTerms(f)[0], tInt(1), nil)) != 1 {
					mc.c.viol("capacity", f, ev, o, "the cache is made for %s entries instead of %s", ev.Args[0], paramTerms(f)[0])
				}
			}
		}
		if o.Kind == "return" && n != 1 {
			mc.c.viol("capacity", f, nil, o, "no bounded cache is made")
		}
	}
	for _, r := range mc.runs {
		for _, s := range r.sims {
			for _, x := range s.idx {
				if x.kind == "evict" {
					mc.viol("victim", s, x.ev, "an entry is evicted although the cache makes room by itself")
				}
			}
		}
	}
}

// capacity finds the field that bounds the container in its constructors, and checks what they put in it.
func (mc *mapCheck) capacity() {
	c, k := mc.c, mc.k
	for _, f := range c.entryPoints(k.pkg) {
		if f.Signature.Recv() != nil || f.Signature.Results().Len() != 1 || shortKey(typeKey(f.Signature.Results().At(0).Type())) != k.name() {
			continue
		}
		ps := paramTerms(f)
		e := c.engine()
		e.NoPanic = true
		for _, o := range c.run(e, f) {
			if o.Kind != "return" {
				continue
			}
			st, ok := deref(f.Signature.Results().At(0).Type()).Underlying().(*types.Struct)
			if !ok {
				c.fail("%s is not a structure", k.name())
				return
			}
			ar := o.S.arith()
			var segN *Term
			ints := map[string]*Term{}
			for i := 0; i < st.NumFields(); i++ {
				fa := mkFld(o.Ret[0], st.Field(i).Name(), types.NewPointer(st.Field(i).Type()))
				v := e.load(o.S, fa, st.Field(i).Type())
				if b, ok := st.Field(i).Type().Underlying().(*types.Basic); ok && b.Info()&types.IsInteger != 0 {
					ints[st.Field(i).Name()] = v
				}
				if _, ok := st.Field(i).Type().Underlying().(*types.Slice); ok {
					segN = mkLen(v)
				}
			}
			p := ps[0]
			if len(ps) > 0 {
				ar.assume(mkBin("<", p, tInt(1), nil), false)
			}
			if len(ps) > 1 {
				ar.assume(mkBin("<", ps[1], tInt(1), nil), false)
			}
			if ar.contradictory() {
				continue
			}
			c.ob("capacities")
			used := mc.capFields()
			if len(used) == 0 {
				c.viol("capacity", f, nil, o, "no operation of %s compares its size with a field", k.name())
				return
			}
			for _, name := range used {
				v := ints[name]
				if v == nil {
					c.viol("capacity", f, nil, o, "%s is bounded by %s, which is not a number", k.name(), name)
					continue
				}
				k.capF = name
				if segN == nil {
					if v != p && !(ar.le(v, p, 0) && ar.le(tInt(1), v, 0)) {
						c.viol("capacity", f, nil, o, "%s.%s is %s, not the capacity asked for", k.name(), name, v)
					}
					continue
				}
				// each of segN segments holds v entries
				if !ar.le(tInt(1), v, 0) {
					c.viol("capacity", f, nil, o, "a segment may hold %s < 1 entries by this bound, and then holds one all the same", v)
				}
				total := false
				if v.Op == "bin" && v.Aux == "/" && ar.le(v.Sub[0], p, 0) && (v.Sub[1] == segN || ar.le(v.Sub[1], segN, 0) && ar.le(segN, v.Sub[1], 0)) {
					total = true
				}
				if n, ok := v.intVal(); ok {
					g := newLin(0).add(ar.lin(segN), n).add(ar.lin(p), -1)
					total = total || ar.proves(g)
				}
				if n, ok := segN.intVal(); ok {
					g := newLin(0).add(ar.lin(v), n).add(ar.lin(p), -1)
					total = total || ar.proves(g)
				}
				if v == p && ar.le(segN, tInt(1), 0) {
					total = true
				}
				if !total {
					c.viol("capacity", f, nil, o, "%s segments of %s entries may hold more than %s", segN, v, p)
				}
			}
		}
	}
}

// capFields: the fields of the container the size is compared with.
func (mc *mapCheck) capFields() []string {
	in := map[string]bool{}
	for _, r := range mc.runs {
		for _, s := range r.sims {
			pushes := false
			for _, l := range s.lst {
				pushes = pushes || strings.HasPrefix(l.fn, "Push")
			}
			if !pushes {
				continue
			}
			for _, f := range s.o.S.facts {
				f.T.walk(func(t *Term) bool {
					if t.Op == "init" && t.Sub[0].Op == "fld" && shortKey(own(t.Sub[0])) == mc.k.name() && t.Sub[0].Aux != mc.k.counter && intLike(t) && f.T.Op == "bin" {
						if thisStable(mc.c.P, t.Sub[0]) {
							top := f.T.Sub[0] == t || f.T.Sub[1] == t
							if !top {
								for _, x := range f.T.Sub {
									for _, y := range x.Sub {
										top = top || y == t && x.Op == "bin" && (x.Aux == "+" || x.Aux == "-")
									}
								}
							}
							if top {
								in[t.Sub[0].Aux] = true
							}
						}
					}
					return true
				})
			}
		}
	}
	var r []string
	for f := range in {
		r = append(r, f)
	}
	sort.Strings(r)
	return r
}

func thisStable(p *Prog, a *Term) bool { return p.stable(own(a), a.Aux) }

// sizes builds the linear facts of a path: every measure of the container equals the size at that point.
func (mc *mapCheck) sizes(s *mapSim) (ar *Arith, size func(at int) Lin, end Lin, ok bool) {
	ar = s.o.S.arith()
	k := mc.k
	s0 := mkT("param", "size before", types.Typ[types.Int])
	var cap *Term
	find := func(t *Term) {
		t.walk(func(t *Term) bool {
			if t.Op == "init" && t.Sub[0].Op == "fld" && t.Sub[0].Aux == k.capF && shortKey(own(t.Sub[0])) == k.name() {
				cap = t
			}
			return true
		})
	}
	for _, f := range s.o.S.facts {
		find(f.T)
	}
	for _, ev := range s.o.S.events {
		for _, a := range ev.Args {
			if a != nil {
				find(a)
			}
		}
	}
	if cap == nil {
		cap = mkT("param", "capacity", types.Typ[types.Int])
	}
	le := func(x Lin, y Lin) { ar.cons = append(ar.cons, x.add(y, -1)) }
	one := func(t *Term) Lin { return ar.lin(t) }
	le(newLin(0), one(s0))
	le(one(s0), one(cap))
	le(newLin(1), one(cap))
	// base changes at loops
	type seg struct {
		at   int
		base Lin
	}
	segs := []seg{{0, one(s0)}}
	ok = true
	size = func(at int) Lin {
		b := segs[0]
		for _, x := range segs {
			if x.at <= at {
				b = x
			}
		}
		d, det, _ := s.delta(b.at, at)
		if !det {
			ok = false
		}
		return b.base.add(newLin(int64(d)), 1)
	}
	for i, ev := range s.o.S.events {
		switch {
		case ev.Kind == "loop":
			prev := size(i)
			b := mkT("param", fmt.Sprint("size at loop ", i), types.Typ[types.Int])
			le(newLin(0), one(b))
			le(one(b), prev) // loop bodies are shown not to add (rule bound, at their ends)
			segs = append(segs, seg{i, one(b)})
		case ev.Kind == "maplen" && mc.mine(ev):
			x := size(i)
			le(one(ev.Res), x)
			le(x, one(ev.Res))
		case ev.Kind == "list" && ev.Fn == "Len":
			// the list may be ahead of the index within the operation
			x := size(i).add(newLin(int64(s.listAhead(i))), 1)
			le(one(ev.Res), x)
			le(x, one(ev.Res))
		case ev.Kind == "load" && ev.Args[0].Op == "fld" && ev.Args[0].Aux == k.counter && shortKey(own(ev.Args[0])) == k.name() && ev.Res != nil && ev.Res.Op == "init":
			x := size(segStart(segs[len(segs)-1].at, i))
			le(one(ev.Res), x)
			le(x, one(ev.Res))
		case ev.Kind == "list" && (ev.Fn == "Front" || ev.Fn == "Back"):
			x := size(i).add(newLin(int64(s.listAhead(i))), 1)
			switch s.truth(mkBin("==", ev.Res, tNil, nil)) {
			case 1:
				le(x, newLin(0))
			case 0:
				le(newLin(1), x)
			}
		}
	}
	end = size(len(s.o.S.events))
	return
}

func segStart(a, i int) int {
	// the counter is only written by this operation under its lock: its loaded initial value is the size at the
	// start of the critical section
	return a
}

func (mc *mapCheck) mine(ev *Event) bool { return true }

// listAhead: entries pushed to, less entries removed from, the list before the index was told.
func (s *mapSim) listAhead(at int) int {
	n := 0
	for _, l := range s.lst {
		if l.at >= at || l.at < s.lastBefore(at) {
			continue
		}
		switch {
		case strings.HasPrefix(l.fn, "Push"):
			n++
		case l.fn == "Remove":
			n--
		}
	}
	d, _, _ := s.delta(s.lastBefore(at), at)
	return n - d
}

func (s *mapSim) lastBefore(at int) int {
	r := 0
	for i, ev := range s.o.S.events {
		if i < at && ev.Kind == "loop" {
			r = i
		}
	}
	return r
}

func (mc *mapCheck) bound(s *mapSim) {
	adds := false
	for _, l := range s.lst {
		adds = adds || strings.HasPrefix(l.fn, "Push")
	}
	var evict []*listOp
	for _, l := range s.lst {
		if l.fn != "Remove" {
			continue
		}
		for _, g := range s.lst {
			if (g.fn == "Front" || g.fn == "Back") && sameT(g.elem, l.elem) {
				evict = append(evict, l)
				mc.c.ob("evictions")
				if g.fn == "Front" && mc.k.front == 1 || g.fn == "Back" && mc.k.front == 0 {
					mc.viol("victim", s, l.ev, "the newest entry is evicted instead of the oldest")
				}
			}
		}
	}
	if !adds && len(evict) == 0 {
		return
	}
	if s.clears() != nil {
		return
	}
	ar, size, end, ok := mc.sizes(s)
	if ar.contradictory() {
		return // cannot happen while the invariant holds
	}
	// was the key there? then nothing may be evicted
	for _, l := range evict {
		for _, x := range s.idx {
			if (x.kind == "set" || x.kind == "get" || x.kind == "los") && x.has == 1 && x.key == mc.keyParam(s) {
				mc.viol("victim", s, l.ev, "an entry is evicted although the key is present")
			}
		}
		// full: the size without the new entry has reached the capacity
		before := size(s.lastBefore(l.at))
		cap := mc.capTerm(s)
		if cap == nil || !ar.proves(ar.lin(cap).add(before, -1)) {
			if !ar.contradictory() {
				mc.viol("victim", s, l.ev, "an entry is evicted although the container is not shown to be full")
			}
		}
	}
	if s.o.Kind == "loop" {
		from := s.lastBefore(len(s.o.S.events))
		if d, det, _ := s.delta(from, len(s.o.S.events)); !det || d > 0 {
			mc.viol("bound", s, nil, "a loop may go on adding entries")
		}
		return
	}
	mc.c.ob("bounds")
	if !ok {
		_, _, why := s.delta(0, len(s.o.S.events))
		var ev *Event
		if why != nil {
			ev = why.ev
		}
		mc.viol("bound", s, ev, "whether the key is present is not known here, so the size is not kept")
		return
	}
	cap := mc.capTerm(s)
	if cap == nil {
		cap = mkT("param", "capacity", types.Typ[types.Int])
	}
	if !ar.proves(end.add(ar.lin(cap), -1)) {
		mc.viol("bound", s, nil, "after this path the container may hold more entries than its capacity")
	}
}

func (mc *mapCheck) keyParam(s *mapSim) *Term {
	for _, x := range s.idx {
		if x.kind == "set" || x.kind == "los" {
			return x.key
		}
	}
	return nil
}

func (mc *mapCheck) capTerm(s *mapSim) *Term {
	var cap *Term
	find := func(t *Term) {
		t.walk(func(t *Term) bool {
			if t.Op == "init" && t.Sub[0].Op == "fld" && t.Sub[0].Aux == mc.k.capF && shortKey(own(t.Sub[0])) == mc.k.name() {
				cap = t
			}
			return true
		})
	}
	for _, f := range s.o.S.facts {
		find(f.T)
	}
	for _, ev := range s.o.S.events {
		if ev.Kind == "load" && ev.Res != nil {
			find(ev.Res)
		}
	}
	return cap
}

func init() {
	checks["C04"] = checkDef{c04, "path-sensitive abstract interpretation of every operation of the bounded maps against the invariant 'index and order list describe one set of entries, no larger than the capacity', with linear arithmetic for the sizes"}
}
