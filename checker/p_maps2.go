package main

import (
	"fmt"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// ---------- C05: exact keys ----------

func retN(o *Outcome, n int) *Term {
	if n < len(o.Ret) {
		return o.Ret[n]
	}
	return nil
}

// keyTerm is the key an index operation is about: for a B-tree, the key field of the item it is given.
func (mc *mapCheck) keyTerm(x *idxOp) *Term {
	if mc.k.tree && x.ev.Mem != nil {
		for f, v := range x.ev.Mem {
			if unq(f.Aux) == mc.k.key {
				return v
			}
		}
	}
	return x.key
}

// answers: is the operation about the parameter kp?
func (mc *mapCheck) answers(s *mapSim, x *idxOp, kp *Term) bool {
	k := mc.keyTerm(x)
	return k != nil && (k == kp || k.mentions(kp)) && mc.exact(s, k, kp)
}

// exact: does the key form tell different keys apart?
func (mc *mapCheck) exact(s *mapSim, k, kp *Term) bool {
	if k == kp {
		return true
	}
	if k.Op == "struct" && len(k.Sub) > 0 { // a composite holding the key itself
		for _, x := range k.Sub {
			if x == kp {
				return true
			}
		}
	}
	if mc.hashOf(k, kp) && mc.nonString(s, kp) {
		return mc.injective()
	}
	return false
}

func (mc *mapCheck) hashOf(k, kp *Term) bool {
	return k.Op == "app" && strings.HasPrefix(k.Aux, "field:") && len(k.Sub) > 0 && k.Sub[len(k.Sub)-1] == kp
}

func (mc *mapCheck) nonString(s *mapSim, kp *Term) bool {
	for _, f := range s.o.S.facts {
		if !f.Truth && f.T.Op == "isa" && f.T.Aux == "string" && f.T.Sub[0] == kp {
			return true
		}
	}
	return false
}

func (mc *mapCheck) injective() bool {
	if mc.inj == 0 {
		mc.inj = 1
		if !mc.hashes(true) {
			mc.inj = -1
		}
	}
	return mc.inj == 1
}

// hashes examines the hash functions the constructors install: each must be a function of its argument alone, and
// for keys other than strings one-to-one.
func (mc *mapCheck) hashes(report bool) bool {
	c, k := mc.c, mc.k
	good := true
	seen := map[*ssa.Function]map[string]bool{}
	for _, f := range c.entryPoints(k.pkg) {
		if f.Signature.Recv() != nil || f.Signature.Results().Len() != 1 || shortKey(typeKey(f.Signature.Results().At(0).Type())) != k.name() {
			continue
		}
		e := c.engine()
		e.NoPanic = true
		for _, o := range e.Run(f) {
			if o.Kind != "return" {
				continue
			}
			st, ok := deref(f.Signature.Results().At(0).Type()).Underlying().(*types.Struct)
			if !ok {
				return false
			}
			cls := ""
			for _, ft := range o.S.facts {
				if ft.Truth && ft.T.Op == "isa" {
					cls = ft.T.Aux
				}
			}
			for i := 0; i < st.NumFields(); i++ {
				if _, ok := st.Field(i).Type().Underlying().(*types.Signature); !ok {
					continue
				}
				v := e.load(o.S, mkFld(o.Ret[0], st.Field(i).Name(), types.NewPointer(st.Field(i).Type())), st.Field(i).Type())
				if v.Fn == nil || len(v.Fn.Params) == 0 {
					if report {
						c.viol("hash", f, nil, o, "the hash function for %s keys is %s", cls, v)
					}
					good = false
					continue
				}
				if seen[v.Fn] == nil {
					seen[v.Fn] = map[string]bool{}
				}
				if seen[v.Fn][cls] {
					continue
				}
				seen[v.Fn][cls] = true
				c.ob("hash functions")
				ps := paramTerms(v.Fn)
				kp := ps[len(ps)-1]
				for _, ho := range c.run(mapEngine(c), v.Fn) {
					if ho.Kind != "return" || !feasibleFor(ho, kp, cls) {
						continue
					}
					if !pureIn(ho.Ret[0], kp, v.Sub) {
						if report {
							c.viol("hash", v.Fn, nil, ho, "the hash %s of a key is not a function of the key alone", ho.Ret[0])
						}
						good = false
					}
					if cls != "string" && !oneToOne(ho.Ret[0], kp, cls) {
						if report {
							c.viol("hash", v.Fn, nil, ho, "different %s keys may have the hash %s, under which they are stored", cls, ho.Ret[0])
						}
						good = false
					}
				}
			}
		}
	}
	return good
}

// feasibleFor: may the path be taken for keys of the class?
func feasibleFor(o *Outcome, kp *Term, cls string) bool {
	for _, f := range o.S.facts {
		if f.T.Op == "isa" && f.T.Sub[0] == kp && cls != "" && (f.T.Aux == cls) != f.Truth {
			return false
		}
	}
	return true
}

func pureIn(t, kp *Term, caps []*Term) bool {
	ok := true
	t.walk(func(x *Term) bool {
		switch x.Op {
		case "sym", "init", "obj", "global":
			ok = false
		}
		return true
	})
	return ok
}

func oneToOne(t, kp *Term, cls string) bool {
	if t == kp {
		return true
	}
	switch {
	case t.Op == "conv" && len(t.Sub) == 1:
		switch t.Aux {
		case "u64", "i64", "uint64", "int64", "uint", "int", "uintptr":
			return cls != "float64" && cls != "float32" && oneToOne(t.Sub[0], kp, cls)
		case "f64", "float64":
			return (cls == "float64" || cls == "float32") && oneToOne(t.Sub[0], kp, cls)
		case "f32", "float32":
			return cls == "float32" && oneToOne(t.Sub[0], kp, cls)
		}
		b := map[string]int{"i8": 8, "u8": 8, "i16": 16, "u16": 16, "i32": 32, "u32": 32}[t.Aux]
		w := map[string]int{"int8": 8, "uint8": 8, "int16": 16, "uint16": 16, "int32": 32, "uint32": 32}[cls]
		return b > 0 && w > 0 && w <= b && oneToOne(t.Sub[0], kp, cls)
	case t.Op == "app" && t.Aux == "math.Float64bits":
		x := t.Sub[0]
		return (cls == "float64" || cls == "float32") && oneToOne(x, kp, cls)
	case t.Op == "app" && t.Aux == "math.Float32bits":
		return cls == "float32" && oneToOne(t.Sub[0], kp, cls)
	case t.Op == "bin" && (t.Aux == "+" || t.Aux == "^" || t.Aux == "-"):
		if t.Sub[0].isConst() {
			return oneToOne(t.Sub[1], kp, cls)
		}
		if t.Sub[1].isConst() {
			return oneToOne(t.Sub[0], kp, cls)
		}
	}
	return false
}

// valueOf: t is the value recorded for what an index lookup gave (prev), read in this path.
func (mc *mapCheck) valueOf(t, prev *Term) bool {
	if t == nil || prev == nil {
		return false
	}
	k := mc.k
	if k.linked {
		e, f := fieldOfElem(t)
		return e != nil && f == k.val && sameT(e, prev)
	}
	if k.tree {
		return isInit(t) && t.Sub[0].Op == "fld" && t.Sub[0].Aux == k.val && sameT(t.Sub[0].Sub[0], prev) || t.Op == "f" && t.Aux == k.val && sameT(t.Sub[0], prev) || t.Op == "fld" && t.Aux == k.val && sameT(t.Sub[0], prev)
	}
	return sameT(t, prev)
}

// givesValue: the result is the recorded value, or the zero value where the recorded one is shown to be nil.
func (mc *mapCheck) givesValue(s *mapSim, t, prev *Term) bool {
	if mc.valueOf(t, prev) {
		return true
	}
	for _, f := range s.o.S.facts {
		if f.T.Op == "isa" && !f.Truth && mc.valueOf(f.T.Sub[0], prev) {
			return isZeroT(t)
		}
		if f.T.Op == "bin" && f.T.Aux == "==" && f.Truth && (f.T.Sub[0] == tNil && (mc.valueOf(f.T.Sub[1], prev) || f.T.Sub[1] == prev || entryOf(f.T.Sub[1]) == prev && prev != nil)) {
			return isZeroT(t)
		}
	}
	return false
}

func isZeroT(t *Term) bool {
	return t != nil && (t.Op == "zero" || t == tNil || t == tZero || t == tFalse || t == tStr("") || t.Op == "param" && t.Aux == "zero" || t.String() == "zero")
}

// tellsPresence: the boolean result says whether the key was present before the operation.
func (s *mapSim) tellsPresence(r *Term, x *idxOp) bool {
	if r == nil {
		return false
	}
	if x.ok != nil && r == x.ok {
		return true
	}
	if x.absent != nil && (r == mkNot(x.absent)) {
		return true
	}
	h := x.has
	switch s.truth(r) {
	case 1:
		return h == 1
	case 0:
		return h == 0
	}
	return false
}

type keyForm struct {
	form string
	s    *mapSim
	ev   *Event
}

func (mc *mapCheck) exactKeys() {
	c := mc.c
	var K = mkT("param", "KEY", nil)
	forms := map[string]map[string]keyForm{} // class -> key form
	places := map[string]keyForm{}
	for _, r := range mc.runs {
		ps := paramTerms(r.fn)
		if len(ps) < 2 {
			continue
		}
		kp := ps[1]
		if _, sl := kp.Typ.Underlying().(*types.Slice); sl {
			continue
		}
		if _, fn := kp.Typ.Underlying().(*types.Signature); fn {
			continue
		}
		for _, s := range r.sims {
			for _, x := range s.idx {
				k := mc.keyTerm(x)
				if k == nil || !k.mentions(kp) {
					continue
				}
				if e, _ := fieldOfElem(k); e != nil {
					continue
				}
				m := map[*Term]*Term{kp: K}
				kf := norm(subst(k, m))
				cls := "any"
				for _, f := range s.o.S.facts {
					if f.T.Op == "isa" && f.T.Aux == "string" && f.T.Sub[0] == kp {
						cls = "other keys"
						if f.Truth {
							cls = "string"
						}
					}
				}
				if forms[cls] == nil {
					forms[cls] = map[string]keyForm{}
				}
				forms[cls][kf.String()] = keyForm{kf.String(), s, x.ev}
				pl := norm(subst(x.m, m)).String()
				if _, ok := places[pl]; !ok {
					places[pl] = keyForm{pl, s, x.ev}
				}
			}
		}
	}
	for _, cls := range []string{"string", "other keys"} {
		all := map[string]keyForm{}
		for f, v := range forms[cls] {
			all[f] = v
		}
		for f, v := range forms["any"] {
			all[f] = v
		}
		var fs []string
		for f := range all {
			fs = append(fs, f)
		}
		sort.Strings(fs)
		c.ob("key forms")
		if len(fs) > 1 {
			v := all[fs[1]]
			mc.viol("key-form", v.s, v.ev, "operations identify one key in different ways (%s): what one stores another does not find", strings.Join(fs, " and "))
		}
	}
	var pl []string
	for p := range places {
		pl = append(pl, p)
	}
	sort.Strings(pl)
	c.ob("key places")
	if len(pl) > 1 {
		v := places[pl[1]]
		mc.viol("key-place", v.s, v.ev, "operations look for one key in different places (%s)", strings.Join(pl, " and "))
	}
}

// stored: what the path leaves stored for the key, as a description of the problem, or "".
func (mc *mapCheck) stores(s *mapSim, kp, vp *Term) string {
	k := mc.k
	var last *idxOp
	for _, x := range s.idx {
		if (x.kind == "set" || x.kind == "los" && x.has != 1 || x.kind == "del") && mc.answers(s, x, kp) {
			last = x
		}
		if x.kind == "clear" {
			last = x
		}
	}
	if last != nil {
		if last.kind == "del" || last.kind == "clear" {
			return "it leaves the key deleted"
		}
		if mc.carries(s, last, vp) {
			// and it is not changed afterwards
			return ""
		}
		return fmt.Sprintf("it stores %s instead of the value given", last.val)
	}
	// in place: the entry found under the key is given the value
	for i := len(s.o.S.events) - 1; i >= 0; i-- {
		ev := s.o.S.events[i]
		if ev.Kind != "store" || ev.Args[0].Op != "fld" {
			continue
		}
		a := ev.Args[0]
		var elem *Term
		if k.linked && a.Aux == k.val {
			elem = entryOf(a.Sub[0])
		}
		whole := false
		if k.linked && a.Aux == "Value" && strings.HasPrefix(own(a), "container/list") {
			elem, whole = a.Sub[0], true
		}
		if elem == nil {
			continue
		}
		for _, x := range s.idx {
			if x.kind == "get" && mc.answers(s, x, kp) && sameT(x.prev, elem) && x.has == 1 && together(x.ev, ev) {
				if whole {
					f := entryFields(s.o.S, ev.Args[1])
					if f[k.val] == vp && (f[k.key] == kp || f[k.key] == x.key) {
						return ""
					}
				} else if ev.Args[1] == vp {
					return ""
				}
				return fmt.Sprintf("it stores %s instead of the value given", ev.Args[1])
			}
		}
	}
	return "it stores nothing for the key"
}

// carries: the index operation leaves the value for the key.
func (mc *mapCheck) carries(s *mapSim, x *idxOp, vp *Term) bool {
	k := mc.k
	if k.tree {
		if x.ev.Mem == nil {
			return false
		}
		return x.ev.Mem[tStr(k.val)] == vp
	}
	if k.linked {
		for _, l := range s.lst {
			if strings.HasPrefix(l.fn, "Push") && l.elem == x.val && l.val[k.val] == vp {
				return s.removedAfter(l.elem, l.at) == nil
			}
		}
		// the element found under the key, indexed again
		return false
	}
	return x.val == vp
}

// mutations of the index or of entries on a path.
func (mc *mapCheck) mutates(s *mapSim) *Event {
	for _, x := range s.idx {
		switch x.kind {
		case "set", "del", "clear", "evict", "cas":
			return x.ev
		case "los":
			if x.has != 1 {
				return x.ev
			}
		}
	}
	for _, l := range s.lst {
		if l.fn == "Remove" || l.fn == "Init" || hasPre(l.fn, "Push", "Insert") {
			return l.ev
		}
	}
	for _, ev := range s.o.S.events {
		if ev.Kind == "store" && ev.Note != "private" && ev.Args[0].Op == "fld" && (entryOf(ev.Args[0].Sub[0]) != nil || ev.Args[0].Aux == "Value" && strings.HasPrefix(own(ev.Args[0]), "container/list")) {
			return ev
		}
	}
	return nil
}

func c05(c *Ctx) {
	c.rule("key-form: every operation of a container identifies a key in the same way, and in one that tells different keys apart (the key itself, or a one-to-one function of it)")
	c.rule("key-place: every operation of a container looks for one key in the same place, which is a function of the key alone")
	c.rule("lookup: on every path of a lookup the boolean result is the presence of the key asked for, the value is the one recorded for it, and nothing is changed")
	c.rule("store: on every path of an insertion the given value is what is recorded for the given key at the end, and the previous value and flag are those found in the same atomic step")
	c.rule("keep: load-or-store leaves an existing value and returns it with true, and otherwise stores the given one and returns it with false, in one atomic step")
	c.rule("delete: on every path of a deletion the key given is deleted or shown absent, the result is its presence, and no other key is touched")
	c.assume = append(c.assume, "keys can be compared (an uncomparable key panics in the runtime's map)", "sync.Map, container/list, groupcache/lru and google/btree behave as documented")
	n := 0
	for _, mc := range c.mapChecks() {
		mc.exactKeys()
		if mc.k.typ == "LimitHashMap" {
			mc.injective()
		}
		for _, r := range mc.runs {
			mc.keyOp(r)
		}
		n++
	}
	if n != 7 {
		c.fail("%d containers found", n)
	}
}

func (mc *mapCheck) keyOp(r *mapRun) {
	c := mc.c
	ps := paramTerms(r.fn)
	var kp, vp *Term
	if len(ps) > 1 {
		kp = ps[1]
	}
	if len(ps) > 2 {
		vp = ps[2]
	}
	lookup := func(s *mapSim) *idxOp {
		var g *idxOp
		for _, x := range s.idx {
			if x.kind == "get" && mc.answers(s, x, kp) {
				g = x
			}
		}
		return g
	}
	nilKey := func(s *mapSim) bool { return s.truth(mkBin("==", kp, tNil, nil)) == 1 }
	foreign := func(s *mapSim) {
		for _, x := range s.idx {
			if x.key == nil || x.kind == "get" || mc.answers(s, x, kp) {
				continue
			}
			if x.kind == "del" {
				if e, f := fieldOfElem(x.key); e != nil && f == mc.k.key {
					// eviction: from an end of the order
					ok := false
					for _, l := range s.lst {
						if (l.fn == "Front" || l.fn == "Back") && sameT(l.elem, e) && mc.run("Put") != nil && (r.name == "Put" || r.name == "LoadOrStore") {
							ok = true
						}
						if l.elem != nil && sameT(l.elem, e) {
							for _, g := range s.idx {
								if g.kind == "get" && mc.answers(s, g, kp) && sameT(g.prev, e) {
									ok = true // the key recorded by the entry found under the key
								}
							}
						}
					}
					if ok {
						continue
					}
				}
			}
			mc.viol("other-key", s, x.ev, "%s changes the entry of %s, which is not the key it was given", r.name, mc.keyTerm(x))
		}
	}
	switch r.name {
	case "Get", "Has", "Contains":
		for _, s := range r.sims {
			if s.o.Kind != "return" {
				continue
			}
			c.ob("lookups")
			if ev := mc.mutates(s); ev != nil {
				mc.viol("lookup", s, ev, "a lookup changes the container")
			}
			g := lookup(s)
			if g == nil {
				mc.viol("lookup", s, nil, "the key asked for is not looked up")
				continue
			}
			b := s.o.Ret[len(s.o.Ret)-1]
			if !s.tellsPresence(b, g) {
				mc.viol("lookup", s, nil, "the result %s does not tell whether the key is present", b)
				continue
			}
			if len(s.o.Ret) == 2 && g.has == 1 && !mc.givesValue(s, s.o.Ret[0], g.prev) {
				mc.viol("lookup", s, nil, "the value returned, %s, is not the one recorded for the key", s.o.Ret[0])
			}
			if len(s.o.Ret) == 2 && g.has == -1 && !mc.givesValue(s, s.o.Ret[0], g.prev) {
				mc.viol("lookup", s, nil, "the value returned, %s, is not the one recorded for the key", s.o.Ret[0])
			}
		}
	case "Put", "Add":
		for _, s := range r.sims {
			if s.o.Kind != "return" {
				continue
			}
			c.ob("insertions")
			foreign(s)
			if nilKey(s) && len(s.o.Ret) == 0 && mc.mutates(s) == nil {
				continue
			}
			if why := mc.stores(s, kp, vp); why != "" {
				mc.viol("store", s, nil, "%s", why)
				continue
			}
			if len(s.o.Ret) == 2 {
				mc.previous(s, kp, "store")
			}
		}
	case "LoadOrStore":
		for _, s := range r.sims {
			if s.o.Kind != "return" {
				continue
			}
			c.ob("load-or-stores")
			foreign(s)
			var g *idxOp
			for _, x := range s.idx {
				if (x.kind == "get" || x.kind == "los") && mc.answers(s, x, kp) {
					g = x
				}
			}
			if g == nil || g.has < 0 {
				mc.viol("keep", s, nil, "whether the key is present is not found out")
				continue
			}
			if !s.tellsPresence(retN(s.o, 1), g) {
				mc.viol("keep", s, nil, "the result %s does not tell whether the key was present", retN(s.o, 1))
			}
			if g.has == 1 {
				if !mc.givesValue(s, s.o.Ret[0], g.prev) {
					mc.viol("keep", s, nil, "the value returned, %s, is not the existing one", s.o.Ret[0])
				}
				if ev := mc.mutates(s); ev != nil {
					mc.viol("keep", s, ev, "an existing value is changed")
				}
				continue
			}
			if s.o.Ret[0] != vp && !(g.kind == "los" && sameT(s.o.Ret[0], g.prev)) {
				mc.viol("keep", s, nil, "the value returned, %s, is not the one stored", s.o.Ret[0])
			}
			if why := mc.stores(s, kp, vp); why != "" {
				mc.viol("keep", s, nil, "%s", why)
			}
			if g.kind == "get" {
				for _, x := range s.idx {
					if x.kind == "set" && mc.answers(s, x, kp) && !together(x.ev, g.ev) {
						mc.viol("keep", s, x.ev, "the key may have been stored by another goroutine since it was looked up")
					}
				}
			}
		}
	case "Del", "Delete", "Remove":
		for _, s := range r.sims {
			if s.o.Kind != "return" {
				continue
			}
			c.ob("deletions")
			foreign(s)
			var d, g *idxOp
			for _, x := range s.idx {
				if !mc.answers(s, x, kp) {
					continue
				}
				switch x.kind {
				case "del":
					d = x
				case "get":
					g = x
				case "set", "los":
					mc.viol("delete", s, x.ev, "a deletion stores the key")
				}
			}
			// the entry's own key, read from the entry found under the key
			for _, x := range s.idx {
				if x.kind == "del" && g != nil {
					if e, f := fieldOfElem(x.key); e != nil && f == mc.k.key && sameT(e, g.prev) {
						d = x
					}
				}
			}
			if d == nil && (g == nil || g.has != 0) {
				if !nilKey(s) {
					mc.viol("delete", s, nil, "the key is neither deleted nor shown to be absent")
				}
				continue
			}
			if len(s.o.Ret) == 1 && types.Identical(r.fn.Signature.Results().At(0).Type(), types.Typ[types.Bool]) {
				x := d
				if x == nil {
					x = g
				}
				if !s.tellsPresence(s.o.Ret[0], x) && (g == nil || d == nil || !together(g.ev, d.ev) || !s.tellsPresence(s.o.Ret[0], g)) {
					mc.viol("delete", s, x.ev, "the result %s does not tell whether the key was there when it was deleted", s.o.Ret[0])
				}
			}
		}
	case "RemoveMulti":
		mc.removeAll(r, kp)
	}
}

// previous: the two results of an insertion are the value and flag found in the same step.
func (mc *mapCheck) previous(s *mapSim, kp *Term, rule string) {
	var at *idxOp
	for _, x := range s.idx {
		if x.kind == "set" && mc.answers(s, x, kp) {
			at = x
		}
	}
	var src *idxOp
	if at != nil && at.prev != nil {
		src = at
	} else {
		for _, x := range s.idx {
			if x.kind == "get" && mc.answers(s, x, kp) && (at == nil || together(x.ev, at.ev)) {
				src = x
			}
		}
	}
	if src == nil {
		mc.viol(rule, s, nil, "the previous value is not read in the step that replaces it")
		return
	}
	b := s.o.Ret[1]
	if !s.tellsPresence(b, src) {
		mc.viol(rule, s, src.ev, "the result %s does not tell whether a value was replaced", b)
		return
	}
	if src.has != 0 && !mc.givesValue(s, s.o.Ret[0], src.prev) {
		mc.viol(rule, s, src.ev, "the previous value returned, %s, is not the one that was recorded", s.o.Ret[0])
	}
	if src.has == 0 && !isZeroT(s.o.Ret[0]) && !mc.valueOf(s.o.Ret[0], src.prev) {
		mc.viol(rule, s, src.ev, "a previous value %s is returned although there was none", s.o.Ret[0])
	}
}

func (mc *mapCheck) removeAll(r *mapRun, kp *Term) {
	var paths []*swept
	sim := map[*Outcome]*mapSim{}
	for _, s := range r.sims {
		p := &swept{o: s.o, n: mkLen(kp)}
		sim[s.o] = s
		for _, x := range s.idx {
			k := mc.keyTerm(x)
			i := elemIndex(k, kp)
			if i == nil {
				if e, f := fieldOfElem(k); x.kind == "del" && e != nil && f == mc.k.key {
					for _, g := range s.idx {
						if g.kind == "get" && sameT(g.prev, e) {
							i = elemIndex(mc.keyTerm(g), kp)
						}
					}
				}
			}
			if i == nil {
				if x.kind != "get" {
					mc.viol("other-key", s, x.ev, "RemoveMulti changes the entry of %s, which is not one of the keys it was given", k)
				}
				continue
			}
			switch {
			case x.kind == "del", x.kind == "get" && x.has == 0:
				if len(p.idx) == 0 || p.idx[len(p.idx)-1] != i {
					p.idx, p.at = append(p.idx, i), append(p.at, x.at)
				}
			case x.kind == "set" || x.kind == "los":
				mc.viol("delete", s, x.ev, "a deletion stores a key")
			}
		}
		mc.c.ob("deletions")
		paths = append(paths, p)
	}
	if o, why := covers(paths); o != nil {
		mc.viol("delete", sim[o], nil, "RemoveMulti does not delete all keys: %s", why)
	}
}

// ---------- C06: lengths ----------

// counterDelta: the change of the counter field over the last stretch of the path.
func (mc *mapCheck) counterDelta(s *mapSim, from int) (d int64, set *Term, ok bool) {
	var store, base *Event
	ok = true
	for i, ev := range s.o.S.events {
		if i < from || ev.Kind != "load" && counterOf(mc, ev) == "" || len(ev.Args) == 0 {
			continue
		}
		a := ev.Args[0]
		if a.Op != "fld" || a.Aux != mc.k.counter || shortKey(own(a)) != mc.k.name() {
			continue
		}
		switch ev.Kind {
		case "load":
			if base == nil {
				base = ev
			}
		case "store":
			store = ev
		case "atomic":
			switch ev.Fn {
			case "add":
				n, isN := ev.Args[1].intVal()
				if !isN {
					return 0, nil, false
				}
				d += n
			case "store":
				set, d = ev.Args[1], 0
			default:
				return 0, nil, false
			}
		}
	}
	if store != nil {
		v := store.Args[1]
		if _, isN := v.intVal(); isN {
			return 0, v, true
		}
		ar := &Arith{}
		l := ar.lin(v)
		var b *Term
		for t, c := range l.c {
			if c == 0 {
				continue
			}
			if b != nil || c != 1 {
				return 0, nil, false
			}
			b = t
		}
		if b == nil || !(b.Op == "sym" && b.Sym.Kind == "loop" || isInit(b) && b.Sub[0].Op == "fld" && b.Sub[0].Aux == mc.k.counter) {
			return 0, nil, false
		}
		d += l.k
	}
	return d, set, ok
}

func c06(c *Ctx) {
	c.rule("count: on every path of every operation the counter changes by the number of keys the path adds to the index less those it removes, presence being known from the same atomic step or critical section")
	c.rule("clear: clearing empties every index and list and sets the counter to zero")
	c.rule("length: the length reported is the counter, or the size of the index or of the order list that matches it, or their sum over all segments")
	c.rule("indexed, unindexed, listed, delisted, replaced, entry-key: where the length is that of the order list, list and index hold the same entries")
	n := 0
	for _, mc := range c.mapChecks() {
		ln := mc.run("Len")
		if ln == nil {
			continue
		}
		n++
		mc.measure(ln)
		for _, r := range mc.runs {
			for _, s := range r.sims {
				if mc.k.linked {
					mc.structure(s)
				}
				mc.counted(s)
			}
			if r.name == "Clear" {
				mc.cleared(r)
			}
		}
	}
	if n != 4 {
		c.fail("%d containers with a length found", n)
	}
}

func (mc *mapCheck) counted(s *mapSim) {
	if mc.k.counter == "" {
		return
	}
	if s.clears() != nil {
		return // rule clear
	}
	from := s.lastBefore(len(s.o.S.events))
	d, det, why := s.delta(from, len(s.o.S.events))
	cd, set, ok := mc.counterDelta(s, from)
	mc.c.ob("counter updates")
	if set != nil {
		mc.viol("count", s, nil, "the counter is set to %s although the container is not emptied", set)
		return
	}
	if !det {
		mc.viol("count", s, why.ev, "whether the key is present is not known in this step, so the counter cannot follow")
		return
	}
	if !ok || int64(d) != cd {
		// eviction from an empty list cannot happen while the invariant holds
		ar, _, _, _ := mc.sizes(s)
		if ar.contradictory() {
			return
		}
		if ok && mc.emptyAfterPush(s) {
			return
		}
		mc.viol("count", s, nil, "the number of keys changes by %d and the counter by %d", d, cd)
	}
}

// emptyAfterPush: the path finds the list empty after it has added an entry to it.
func (mc *mapCheck) emptyAfterPush(s *mapSim) bool {
	pushed := -1
	for _, l := range s.lst {
		switch {
		case strings.HasPrefix(l.fn, "Push"):
			pushed = l.at
		case l.fn == "Remove" || l.fn == "Init":
			pushed = -1
		case (l.fn == "Front" || l.fn == "Back") && pushed >= 0:
			if s.truth(mkBin("==", l.elem, tNil, nil)) == 1 {
				return true
			}
		}
	}
	return false
}

func (mc *mapCheck) segArr() *Term { return nil }

// segOf: the place belongs to one segment of the container; its index and the segments' slice.
func segOf(t *Term) (idx, arr *Term) {
	t.walk(func(x *Term) bool {
		if x.Op == "init" && x.Sub[0].Op == "idx" {
			b := x.Sub[0].Sub[0]
			if isInit(b) && b.Sub[0].Op == "fld" {
				idx, arr = x.Sub[0].Sub[1], b
			}
		}
		return true
	})
	return
}

func (mc *mapCheck) cleared(r *mapRun) {
	var paths []*swept
	sim := map[*Outcome]*mapSim{}
	seg := false
	for _, s := range r.sims {
		p := &swept{o: s.o}
		sim[s.o] = s
		for _, ev := range s.o.S.events {
			if ev.Kind == "load" && ev.Res != nil && isInit(ev.Res) && ev.Res.Sub[0].Op == "fld" && shortKey(own(ev.Res.Sub[0])) == mc.k.name() {
				if _, ok := ev.Res.Typ.Underlying().(*types.Slice); ok {
					p.n = mkLen(norm(ev.Res))
				}
			}
		}
		for _, x := range s.idx {
			if x.kind != "clear" {
				continue
			}
			if i, arr := segOf(x.m); i != nil {
				seg = true
				p.n = mkLen(arr)
				p.idx, p.at = append(p.idx, i), append(p.at, x.at)
			}
		}
		paths = append(paths, p)
	}
	for _, s := range r.sims {
		if s.o.Kind != "return" {
			continue
		}
		mc.c.ob("clearings")
		if !seg && s.clears() == nil {
			mc.viol("clear", s, nil, "the index is not emptied")
		}
		if mc.k.counter != "" {
			_, set, _ := mc.counterDelta(s, 0)
			if set != tZero {
				mc.viol("clear", s, nil, "the counter is not set to zero")
			}
		}
	}
	if seg {
		for _, p := range paths {
			if p.n == nil {
				p.n = mkT("param", "segments", types.Typ[types.Int])
			}
		}
		if o, why := covers(paths); o != nil {
			mc.viol("clear", sim[o], nil, "not every segment is emptied: %s", why)
		}
	}
}

// sizeTerm: t is the size of an index or order list (or the counter), read on this path; the event.
func (mc *mapCheck) sizeTerm(s *mapSim, t *Term) *Event {
	for t != nil && t.Op == "conv" && len(t.Sub) == 1 {
		t = t.Sub[0]
	}
	for _, ev := range s.o.S.events {
		if ev.Res != t {
			continue
		}
		switch {
		case ev.Kind == "maplen", ev.Kind == "list" && ev.Fn == "Len":
			return ev
		case (ev.Kind == "load" || ev.Kind == "atomic" && ev.Fn == "load") && mc.k.counter != "" && ev.Args[0].Op == "fld" && ev.Args[0].Aux == mc.k.counter:
			return ev
		case ev.Kind == "call" && callMethod(ev.Fn) == "Len":
			return ev
		}
	}
	return nil
}

func (mc *mapCheck) measure(r *mapRun) {
	c := mc.c
	var paths []*swept
	sim := map[*Outcome]*mapSim{}
	sum := false
	for _, s := range r.sims {
		sim[s.o] = s
		if ev := mc.mutates(s); ev != nil {
			mc.viol("length", s, ev, "asking for the length changes the container")
		}
		p := &swept{o: s.o, n: mkT("param", "segments", types.Typ[types.Int])}
		for i, ev := range s.o.S.events {
			if ev.Kind == "load" && ev.Res != nil && isInit(ev.Res) && ev.Res.Sub[0].Op == "fld" && shortKey(own(ev.Res.Sub[0])) == mc.k.name() {
				if _, ok := ev.Res.Typ.Underlying().(*types.Slice); ok {
					p.n = mkLen(norm(ev.Res))
					sum = true
				}
			}
			if ev.Kind == "maplen" || ev.Kind == "list" && ev.Fn == "Len" {
				if x, arr := segOf(norm(ev.Args[0])); x != nil {
					p.n = mkLen(arr)
					p.idx, p.at = append(p.idx, x), append(p.at, i)
				}
			}
		}
		paths = append(paths, p)
	}
	for _, s := range r.sims {
		if sum || s.o.Kind != "return" {
			continue
		}
		c.ob("lengths")
		if mc.sizeTerm(s, s.o.Ret[0]) == nil {
			mc.viol("length", s, nil, "the length reported is %s", s.o.Ret[0])
		}
	}
	if !sum {
		return
	}
	c.ob("lengths")
	if o, why := covers(paths); o != nil {
		mc.viol("length", sim[o], nil, "not every segment is counted: %s", why)
	}
	// the result adds up the sizes
	for _, p := range paths {
		if p.o.Kind != "return" {
			continue
		}
		s := sim[p.o]
		t := p.o.Ret[0]
		a := &Arith{}
		l := lastLoop(p.o)
		added := func(x *Term, base *Term) bool { // x = base + exactly one size
			d := a.lin(x)
			if base != nil {
				d = d.add(a.lin(base), -1)
			}
			n := 0
			for v, k := range d.c {
				if k == 0 {
					continue
				}
				if k != 1 || !mc.anySize(r, v) {
					return false
				}
				n++
			}
			return n == 1 && d.k == 0
		}
		good := false
		switch {
		case l < 0 && t == tZero && len(p.idx) == 0:
			good = true
		case l < 0:
			good = len(p.idx) == 1 && added(t, nil)
		default:
			if t.Op == "sym" && t.Sym.Kind == "loop" && t.Sym.First != nil && len(t.Sym.Nexts) > 0 && t.Sym.Init == tZero && added(t.Sym.First, t.Sym.Init) {
				good = true
				for _, n := range t.Sym.Nexts {
					good = good && added(n, t)
				}
			}
		}
		if !good {
			mc.viol("length", s, nil, "the length reported, %s, is not the sum of the segments' sizes", t)
		}
	}
}

func (mc *mapCheck) anySize(r *mapRun, t *Term) bool {
	for _, s := range r.sims {
		if mc.sizeTerm(s, t) != nil {
			return true
		}
	}
	return false
}

func init() {
	checks["C05"] = checkDef{c05, "path-sensitive abstract interpretation of every keyed operation of the maps and caches: value numbering relates each result and each update to the index entry of the very key given, in one atomic step"}
	checks["C06"] = checkDef{c06, "path-sensitive abstract interpretation of every operation of the maps that report a length: net effect on the index against net effect on the measure reported"}
}
