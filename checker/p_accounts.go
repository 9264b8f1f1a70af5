package main

import (
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// ---------- C17: the account store ----------

type acctCheck struct {
	c     *Ctx
	bean  *types.Named // the record with the categories
	user  *types.Named
	cats  map[string]bool
	write *ssa.Function // saves bytes in the key store
	lock  *Term
}

// tstruct: the type is an interface with the writer of a Thrift record, or a type parameter so constrained.
func hasMethodNamed(t types.Type, name string) bool {
	if tp, ok := t.(*types.TypeParam); ok {
		t = tp.Constraint()
	}
	it, ok := t.Underlying().(*types.Interface)
	if !ok {
		return false
	}
	for i := 0; i < it.NumMethods(); i++ {
		if it.Method(i).Name() == name {
			return true
		}
	}
	return false
}

// isEncoder: a function that turns a record into bytes; isDecoder: one that fills a record from bytes.
func isEncoder(f *ssa.Function) bool {
	if f == nil || f.Signature.Recv() != nil || f.Signature.Params().Len() != 1 || f.Signature.Results().Len() == 0 {
		return false
	}
	g := f
	if f.Origin() != nil {
		g = f.Origin()
	}
	return hasMethodNamed(g.Signature.Params().At(0).Type(), "Write") && isByteSlice(f.Signature.Results().At(0).Type())
}

func isDecoder(f *ssa.Function) bool {
	if f == nil || f.Signature.Recv() != nil || f.Signature.Params().Len() != 2 || f.Signature.Results().Len() == 0 {
		return false
	}
	g := f
	if f.Origin() != nil {
		g = f.Origin()
	}
	return isByteSlice(f.Signature.Params().At(0).Type()) && hasMethodNamed(g.Signature.Params().At(1).Type(), "Read")
}

func namedOf(t types.Type) *types.Named {
	if t == nil {
		return nil
	}
	if p, ok := t.Underlying().(*types.Pointer); ok {
		t = p.Elem()
	}
	n, _ := types.Unalias(t).(*types.Named)
	return n
}

func sameNamed(a, b *types.Named) bool {
	return a == b || a != nil && b != nil && typeKey(a) == typeKey(b)
}

func recvNamed(f *ssa.Function) *types.Named {
	if f.Signature.Recv() == nil {
		return nil
	}
	return namedOf(f.Signature.Recv().Type())
}

func c17(c *Ctx) {
	if c.load("") == nil {
		return
	}
	c.P = c.progs[""]
	thisProg = c.P
	c.rule("own: an operation on a category looks up, lists and changes that category only, and under the name given only; no other store is changed")
	c.rule("recorded: adding records the name, the hashed password and the kind given (or the value given), in a record made by the call; removing removes the name, if it is there")
	c.rule("hashed: the password reaches what is stored only through a digest")
	c.rule("saved: after the last change, before returning, the encoding of the whole store made since is written to the key store")
	c.rule("alone: a change and its save are within one uninterrupted hold of the store's lock, the same lock in every operation; every look at the store is under it")
	c.rule("answer: a lookup returns what the category holds under the name and whether it holds it; a listing has every name of the category once and nothing else")
	c.rule("load: loading replaces the store by what the key store holds, or by an empty one with every category ready, only when that cannot be read or decoded")
	mk := c.pub("keystore", "", "NewStoreAdmin")
	if mk == nil {
		return
	}
	n := namedOf(mk.Signature.Results().At(0).Type())
	if n == nil {
		c.fail("NewStoreAdmin returns no store")
		return
	}
	a := &acctCheck{c: c, cats: map[string]bool{}}
	if b := c.P.named("keystore", "KeyBean"); b != nil {
		a.bean = b
	}
	if a.bean == nil {
		c.fail("no record with the categories")
		return
	}
	st := a.bean.Underlying().(*types.Struct)
	for i := 0; i < st.NumFields(); i++ {
		m, ok := st.Field(i).Type().Underlying().(*types.Map)
		if !ok {
			continue
		}
		a.cats[st.Field(i).Name()] = true
		if u := namedOf(m.Elem()); u != nil {
			if _, ok := u.Underlying().(*types.Struct); ok {
				a.user = u
			}
		}
	}
	if open := c.pub("keystore", "", "LoadKeyStore"); open != nil {
		if ks := namedOf(open.Signature.Results().At(0).Type()); ks != nil {
			for i := 0; i < ks.NumMethods(); i++ {
				if f := c.P.SSA.FuncValue(ks.Method(i)); f != nil && ks.Method(i).Exported() && bytesParam(f) != nil {
					a.write = f
				}
			}
		}
	}
	if a.write == nil || a.user == nil || len(a.cats) == 0 {
		c.fail("the store, its records or its save are missing")
		return
	}
	ops := 0
	for i := 0; i < n.NumMethods(); i++ {
		m := n.Method(i)
		f := c.P.SSA.FuncValue(m)
		if f == nil || !m.Exported() || len(f.Blocks) == 0 {
			continue
		}
		cat := ""
		for k := range a.cats {
			if strings.Contains(m.Name(), k) && len(k) > len(cat) {
				cat = k
			}
		}
		ops++
		a.op(f, cat)
	}
	if ops < 8 {
		c.fail("%d operations found", ops)
	}
}

// category: the map is a category of the receiver's store: which.
func (a *acctCheck) category(m *Term) (cat string, mine bool) {
	m = stripConv(m)
	if m == nil || m.Op != "init" || m.Sub[0].Op != "fld" || own(m.Sub[0]) != typeKey(a.bean) {
		return "", false
	}
	b := stripConv(m.Sub[0].Sub[0])
	mine = b.Op == "init" && b.Sub[0].Op == "fld" && b.Sub[0].Sub[0].Op == "param" && strings.HasPrefix(b.Sub[0].Sub[0].Aux, "recv:")
	return m.Sub[0].Aux, mine
}

func (a *acctCheck) isStore(t *Term) bool {
	t = stripConvAll(t)
	return t != nil && t.Op == "init" && t.Sub[0].Op == "fld" && t.Sub[0].Sub[0].Op == "param" && strings.HasPrefix(t.Sub[0].Sub[0].Aux, "recv:") && t.Typ != nil && sameNamed(namedOf(t.Typ), a.bean)
}

func (a *acctCheck) engine() *Engine {
	e := a.c.engine()
	e.NoPanic = true
	e.Opaque = func(g *ssa.Function) bool {
		if !isRepoFn(g) {
			return false
		}
		if isEncoder(g) || isDecoder(g) {
			return pkgOf(g) != "keystore"
		}
		r := recvNamed(g)
		return r != nil && (r == a.bean && (g.Name() == "Write" || g.Name() == "Read") || r == a.user || r == recvNamed(a.write))
	}
	e.OnEvent = func(e *Engine, s *State, ev *Event) {
		if ev.Kind == "mapset" && len(ev.Args) == 3 && ev.Args[2].Op == "obj" {
			ev.Mem = map[*Term]*Term{}
			u := a.user.Underlying().(*types.Struct)
			for i := 0; i < u.NumFields(); i++ {
				ad := mkFld(ev.Args[2], u.Field(i).Name(), types.NewPointer(u.Field(i).Type()))
				setOwn(ad, typeKey(a.user))
				ev.Mem[tStr(u.Field(i).Name())] = e.load(s, ad, u.Field(i).Type())
			}
		}
	}
	return e
}

// maker: the call that produced the value.
func maker(t *Term) *Event {
	t = stripConvAll(t)
	if t == nil || t.Op != "sym" || t.Sym == nil {
		return nil
	}
	return t.Sym.Ev
}

// digested: the secret occurs in the value only under a digest.
func digested(t, secret *Term, depth int) (leaks, hashed bool) {
	if t == nil || depth > 12 {
		return t != nil, false
	}
	if t == secret {
		return true, false
	}
	if t.Op == "app" && hasPre(t.Aux, "sum") && mentions(t, secret) {
		return false, true
	}
	if ev := maker(t); ev != nil && t.Op == "sym" {
		crypt := hasPre(ev.Fn, "crypto/", "golang.org/x/crypto", "(*crypto/", "(hash.", "hash/") || strings.Contains(ev.Fn, "golang.org/x/crypto")
		for _, x := range ev.Args {
			l, h := digested(x, secret, depth+1)
			if crypt && (l || h) {
				return false, true
			}
			leaks, hashed = leaks || l, hashed || h
		}
		return
	}
	for _, x := range t.Sub {
		l, h := digested(x, secret, depth+1)
		leaks, hashed = leaks || l, hashed || h
	}
	return
}

func mentions(t, x *Term) bool {
	r := false
	t.walk(func(y *Term) bool {
		r = r || y == x
		return !r
	})
	return r
}

// encoded: the value is the encoding of the store, made after the event at n.
func (a *acctCheck) encoded(o *Outcome, v *Term, n int) bool {
	mk := maker(v)
	if mk == nil || mk.N < n {
		return false
	}
	if mk.Kind == "repocall" && isEncoder(mk.Uses) {
		return len(mk.Args) > 0 && a.isStore(mk.Args[0])
	}
	// written out by hand: the record's writer was given something made from the same buffer
	for _, ev := range o.S.events {
		if ev.Kind == "repocall" && ev.Uses != nil && recvNamed(ev.Uses) == a.bean && ev.Uses.Name() == "Write" && a.isStore(ev.Args[0]) && ev.N > n && ev.N < mk.N {
			for _, x := range ev.Args[1:] {
				if p := maker(x); p != nil {
					for _, y := range p.Args {
						for _, z := range mk.Args {
							if y == z {
								return true
							}
						}
					}
				}
			}
		}
	}
	return false
}

// under: the event is under the store's lock, one and the same everywhere.
func (a *acctCheck) under(ev *Event, excl bool) bool {
	for _, h := range ev.Locks {
		if excl && h.Read || h.Try {
			continue
		}
		k := h.Key
		if !mentionsRecv(k) {
			continue
		}
		if a.lock == nil {
			a.lock = k
		}
		if sameLockName(a.lock, k) {
			return true
		}
	}
	return false
}

func mentionsRecv(t *Term) bool {
	r := false
	t.walk(func(y *Term) bool {
		r = r || y.Op == "param" && strings.HasPrefix(y.Aux, "recv:")
		return !r
	})
	return r
}

func sameLockName(x, y *Term) bool { return x == y || x.String() == y.String() }

func (a *acctCheck) op(f *ssa.Function, cat string) {
	c := a.c
	e := a.engine()
	ps := paramTerms(f)
	name := f.Name()
	outs := c.run(e, f)
	var lists []*Outcome
	for _, o := range outs {
		if o.Kind != "return" && o.Kind != "loop" {
			continue
		}
		c.ob("paths")
		s := o.S
		var last *Event
		var gets, sets, dels []*Event
		for _, ev := range s.events {
			switch ev.Kind {
			case "load":
				// the receiver's reference to the store is read under the lock
				if ad := ev.Args[0]; ad.Op == "fld" && ad.Sub[0] == ps[0] && ev.Res != nil && ev.Res.Typ != nil && sameNamed(namedOf(ev.Res.Typ), a.bean) {
					c.ob("looks at the store")
					if !a.under(ev, false) {
						c.viol("alone", f, ev, o, "the store is looked at without its lock")
					}
				}
			case "store":
				ad := ev.Args[0]
				if ad.Op == "fld" && ad.Sub[0] == ps[0] && ev.Note != "private" && ev.Args[1].Typ != nil {
					if cat != "" {
						c.viol("own", f, ev, o, "the store itself is replaced")
					} else if !a.under(ev, true) {
						c.viol("alone", f, ev, o, "the store is replaced without its lock")
					}
				}
				if ad.Op == "fld" && own(ad) == typeKey(a.user) && ad.Sub[0].Op != "obj" {
					c.viol("own", f, ev, o, "a record already in the store is changed")
				}
				if ad.Op == "fld" && own(ad) == typeKey(a.bean) && ad.Sub[0].Op != "obj" {
					c.viol("own", f, ev, o, "the category %s is replaced", ad.Aux)
				}
			case "mapset", "mapdel", "mapclear", "mapget", "maprange", "maplen":
				k, mine := a.category(ev.Args[0])
				if k == "" {
					// another map: only if made by the call
					if ev.Args[0].Op != "obj" && (ev.Kind == "mapset" || ev.Kind == "mapdel" || ev.Kind == "mapclear") {
						c.viol("own", f, ev, o, "changes %s", ev.Args[0])
					}
					continue
				}
				c.ob("uses of a category")
				change := ev.Kind == "mapset" || ev.Kind == "mapdel" || ev.Kind == "mapclear"
				if !a.under(ev, change) {
					c.viol("alone", f, ev, o, "the category is used without the store's lock")
				}
				if ev.Kind == "maplen" {
					continue
				}
				if !mine || k != cat {
					c.viol("own", f, ev, o, "%s of the category %s in an operation on %q", ev.Kind, k, cat)
					continue
				}
				if ev.Kind != "maprange" && ev.Kind != "mapclear" && (len(ps) < 2 || ev.Args[1] != ps[1]) {
					c.viol("own", f, ev, o, "%s under %s, not under the name given", ev.Kind, ev.Args[1])
				}
				switch ev.Kind {
				case "mapget":
					gets = append(gets, ev)
				case "mapset":
					sets = append(sets, ev)
				case "mapdel":
					dels = append(dels, ev)
				case "mapclear":
					c.viol("own", f, ev, o, "the whole category is emptied")
				}
				if change && !(ev.Kind == "mapdel" && a.absent(s, gets)) {
					last = ev
				}
			}
		}
		if o.Kind == "loop" {
			lists = append(lists, o)
			continue
		}
		// saved
		if last != nil {
			c.ob("changes")
			ok, lone := false, false
			for _, ev := range s.events {
				if ev.Kind == "repocall" && ev.Uses == a.write && ev.N > last.N && len(ev.Args) == 2 && a.encoded(o, ev.Args[1], last.N) {
					ok = true
					for _, x := range append(append([]*Event(nil), sets...), dels...) {
						lone = sameHold(s.events, x, ev)
					}
				}
			}
			if !ok {
				c.viol("saved", f, last, o, "returns without the changed store having been written to the key store")
			} else if !lone {
				c.viol("alone", f, last, o, "the change and its save are not under one hold of the store's lock")
			}
		}
		switch {
		case cat == "":
			a.loading(f, e, o)
		case strings.HasPrefix(name, "Put"):
			if len(sets) == 0 {
				c.viol("recorded", f, nil, o, "nothing is recorded")
			}
			if len(dels) > 0 && len(sets) > 0 && dels[len(dels)-1].N > sets[len(sets)-1].N {
				c.viol("recorded", f, dels[len(dels)-1], o, "what was recorded is removed")
			}
			for _, ev := range sets {
				a.record(f, o, ev, ps)
			}
		case strings.HasPrefix(name, "Del"):
			if len(sets) > 0 {
				c.viol("recorded", f, sets[0], o, "removing records something")
			}
			if len(dels) == 0 {
				absent := a.absent(s, gets)
				for _, ev := range s.events {
					if ev.Kind == "maplen" && s.arith().le(ev.Res, tZero, 0) {
						if k, mine := a.category(ev.Args[0]); mine && k == cat {
							absent = true
						}
					}
				}
				if !absent {
					c.viol("recorded", f, nil, o, "the name is not removed")
				}
			}
		case strings.HasPrefix(name, "Get"):
			if len(sets)+len(dels) > 0 {
				c.viol("own", f, last, o, "a lookup changes the store")
			}
			ok := false
			for _, g := range gets {
				v := callRes(g, 0)
				if v == nil {
					v = g.Res
				}
				if len(o.Ret) > 0 && stripConv(o.Ret[0]) == v {
					ok = len(o.Ret) == 1 || o.Ret[1] == callRes(g, 1) || s.truth(o.Ret[1]) == s.truth(callRes(g, 1)) && s.truth(o.Ret[1]) >= 0
				}
				if p := callRes(g, 1); p != nil && s.truth(p) == 0 && len(o.Ret) == 2 && s.truth(o.Ret[1]) == 0 {
					ok = true
				}
			}
			if !ok {
				c.viol("answer", f, nil, o, "returns %s, which is not what the category holds under the name", o.Ret)
			}
		default:
			if len(sets)+len(dels) > 0 {
				c.viol("own", f, last, o, "a listing changes the store")
			}
			lists = append(lists, o)
		}
	}
	if cat != "" && !strings.HasPrefix(name, "Put") && !strings.HasPrefix(name, "Del") && !strings.HasPrefix(name, "Get") {
		for _, o := range lists {
			a.listing(f, o, cat)
		}
	}
}

// absent: a lookup showed that the name is not there.
func (a *acctCheck) absent(s *State, gets []*Event) bool {
	for _, g := range gets {
		if g.Res != nil && g.Res.Op == "tuple" && s.truth(g.Res.Sub[1]) == 0 {
			return true
		}
		if r := callRes(g, 0); r != nil && s.truth(mkBin("==", tNil, r, nil)) == 1 && sameNamed(namedOf(r.Typ), a.user) {
			return true
		}
	}
	return false
}

// record: what adding stores.
func (a *acctCheck) record(f *ssa.Function, o *Outcome, ev *Event, ps []*Term) {
	c := a.c
	v := ev.Args[2]
	c.ob("records stored")
	if v.Op != "obj" {
		if len(ps) == 3 && v == ps[2] && !sameNamed(namedOf(v.Typ), a.user) {
			return
		}
		c.viol("recorded", f, ev, o, "stores %s, not the value given", v)
		return
	}
	u := a.user.Underlying().(*types.Struct)
	// the parameters after the name, by type: the password and the kind
	var secret, kind *Term
	for _, p := range ps[2:] {
		if b, ok := p.Typ.Underlying().(*types.Basic); ok && b.Info()&types.IsString != 0 {
			secret = p
		} else {
			kind = p
		}
	}
	for i := 0; i < u.NumFields(); i++ {
		n := u.Field(i).Name()
		x := ev.Mem[tStr(n)]
		if x == nil {
			c.viol("recorded", f, ev, o, "the field %s is not known", n)
			continue
		}
		if secret != nil {
			leaks, hashed := digested(x, secret, 0)
			if leaks {
				c.viol("hashed", f, ev, o, "the field %s holds the password itself, as %s", n, x)
				continue
			}
			if hashed {
				if !strings.EqualFold(n, "pwd") && !strings.Contains(strings.ToLower(n), "pass") {
					c.viol("recorded", f, ev, o, "the password is stored in the field %s", n)
				}
				continue
			}
		}
		switch {
		case x == ps[1] && strings.EqualFold(n, "name"):
		case kind != nil && stripConvAll(x) == kind && strings.EqualFold(n, "type"):
		default:
			c.viol("recorded", f, ev, o, "the field %s is %s", n, x)
		}
	}
}

// listing: every name of the category goes into the result once, and nothing else does.
func (a *acctCheck) listing(f *ssa.Function, o *Outcome, cat string) {
	c := a.c
	s := o.S
	keys := map[*Term]bool{}
	var order []*Term
	all := false
	for _, ev := range s.events {
		switch ev.Kind {
		case "next":
			if k, mine := a.category(ev.Args[1]); mine && k == cat && ev.Res.Op == "tuple" && s.truth(ev.Res.Sub[0]) == 1 {
				keys[ev.Res.Sub[1]] = true
				order = append(order, ev.Res.Sub[1])
			}
			if ev.Res.Op == "tuple" && s.truth(ev.Res.Sub[0]) == 0 {
				all = true
			}
		case "call", "pure":
			if hasPre(ev.Fn, "maps.Keys", "golang.org/x/exp/maps.Keys") && len(ev.Args) == 1 {
				if k, mine := a.category(ev.Args[0]); mine && k == cat {
					keys[ev.Res] = true
					all = true
				}
			}
		}
	}
	// every key met goes in
	for _, k := range order {
		n := 0
		for _, ev := range s.events {
			switch ev.Kind {
			case "append":
				if ev.Res != nil && ev.Res.Op == "append" {
					for _, x := range ev.Res.Sub[1:] {
						if l, ok := elemsOf(x); ok {
							for _, y := range l {
								if y == k {
									n++
								}
							}
						}
					}
				}
			case "store":
				if ev.Args[1] == k && ev.Args[0].Op == "idx" && !(ev.Args[0].Sub[0].Op == "obj" && ev.Args[0].Sub[0].Obj.Kind == "alloc") {
					n++
				}
			}
		}
		c.ob("names listed")
		if n != 1 {
			c.viol("answer", f, nil, o, "a name of the category is put in the list %d times", n)
		}
	}
	if o.Kind != "return" {
		return
	}
	empty := false
	for _, ev := range s.events {
		if ev.Kind == "maplen" && s.arith().le(ev.Res, tZero, 0) {
			empty = true
		}
	}
	if !all && !empty {
		c.viol("answer", f, nil, o, "the listing may stop before every name was met")
	}
	if len(o.Ret) == 0 {
		return
	}
	if why := a.listed(o, o.Ret[0], keys, 0); why != "" {
		c.viol("answer", f, nil, o, "the listing returns %s", why)
	}
}

// listed: the list is made of the names only.
func (a *acctCheck) listed(o *Outcome, t *Term, keys map[*Term]bool, depth int) string {
	t = stripConv(t)
	if depth > 8 || t == nil {
		return "something unknown"
	}
	if keys[t] || t == tNil {
		return ""
	}
	switch t.Op {
	case "list":
		for _, x := range t.Sub {
			if !keys[x] {
				return x.String() + ", which is not a name of the category"
			}
		}
		return ""
	case "append":
		for _, x := range t.Sub {
			if w := a.listed(o, x, keys, depth+1); w != "" {
				return w
			}
		}
		return ""
	case "slice":
		if isNilOrEmpty(o.S, t) {
			return ""
		}
		return a.listed(o, t.Sub[0], keys, depth+1)
	case "obj":
		if n, ok := t.Obj.Len.intVal(); ok && n == 0 || len(keys) == 0 {
			return ""
		}
		// filled by index: as long as the category
		for _, ev := range o.S.events {
			if ev.Kind == "maplen" && t.Obj.Len == ev.Res {
				return ""
			}
		}
		return "a list that is not of the names"
	case "sym":
		if t.Sym.Kind == "loop" && t.Sym.First != nil {
			for _, x := range append([]*Term{t.Sym.Init, t.Sym.First}, t.Sym.Nexts...) {
				x = subst(x, map[*Term]*Term{t: tNil})
				if p := t.Sym.Prev; p != nil {
					x = subst(x, map[*Term]*Term{p: tNil})
				}
				if w := a.listed(o, x, nextKeys(o, x, keys), depth+1); w != "" {
					return w
				}
			}
			return ""
		}
		if ev := t.Sym.Ev; ev != nil && hasPre(ev.Fn, "slices.Collect", "slices.Sorted", "slices.AppendSeq", "slices.Clone") {
			for _, x := range ev.Args {
				if w := a.listed(o, x, keys, depth+1); w != "" {
					return w
				}
			}
			return ""
		}
	case "app":
		if hasPre(t.Aux, "slices.Collect", "slices.Sorted", "slices.AppendSeq", "slices.Clone") {
			for _, x := range t.Sub {
				if w := a.listed(o, x, keys, depth+1); w != "" {
					return w
				}
			}
			return ""
		}
	}
	return t.String()
}

// nextKeys adds the keys met in iterations of other paths of the loop (their symbols are of the same kind).
func nextKeys(o *Outcome, t *Term, keys map[*Term]bool) map[*Term]bool {
	r := map[*Term]bool{}
	for k := range keys {
		r[k] = true
	}
	var rng *Term
	for _, ev := range o.S.events {
		if ev.Kind == "next" && ev.Res.Op == "tuple" {
			rng = ev.Args[1]
		}
	}
	t.walk(func(x *Term) bool {
		if x.Op == "sym" && x.Sym.Ev != nil && x.Sym.Ev.Kind == "next" && x.Sym.Ev.Args[1] == rng && x.Sym.Ev.Res.Sub[1] == x {
			r[x] = true
		}
		return true
	})
	return r
}

// loading: what the store is replaced by.
func (a *acctCheck) loading(f *ssa.Function, e *Engine, o *Outcome) {
	c := a.c
	s := o.S
	var put *Event
	var val *Term
	for _, ev := range s.events {
		if ev.Kind == "store" && ev.Args[0].Op == "fld" && ev.Args[0].Sub[0] == e.Params[0] && ev.Args[1].Typ != nil && sameNamed(namedOf(ev.Args[1].Typ), a.bean) {
			put, val = ev, stripConvAll(ev.Args[1])
		}
	}
	if put == nil {
		return
	}
	c.ob("loads")
	var read, dec *Event
	for _, ev := range s.events {
		if ev.Kind != "repocall" || ev.Uses == nil {
			continue
		}
		if recvNamed(ev.Uses) == recvNamed(a.write) && callRes(ev, 0) != nil && isByteSlice(callRes(ev, 0).Typ) {
			read = ev
		}
		if isDecoder(ev.Uses) && read != nil && ev.Args[0] == callRes(read, 0) {
			dec = ev
		}
		if recvNamed(ev.Uses) == a.bean && ev.Uses.Name() == "Read" {
			dec = ev
		}
	}
	if read == nil {
		c.viol("load", f, put, o, "the store is replaced without the key store having been read")
		return
	}
	lastRes := func(ev *Event) *Term {
		if ev == nil || ev.Res == nil {
			return nil
		}
		if ev.Res.Op == "tuple" {
			return ev.Res.Sub[len(ev.Res.Sub)-1]
		}
		return ev.Res
	}
	if dec != nil && (val == stripConvAll(callRes(dec, 0)) || len(dec.Args) > 1 && val == stripConvAll(dec.Args[1]) || val == stripConvAll(dec.Args[0])) {
		if s.nilErr(lastRes(read)) != 1 {
			c.viol("load", f, put, o, "what was decoded is taken although reading may have failed")
		}
		if s.nilErr(lastRes(dec)) != 1 {
			c.viol("load", f, put, o, "what was decoded is taken although decoding may have failed")
		}
		return
	}
	// a new store
	if val.Op != "obj" {
		c.viol("load", f, put, o, "the store becomes %s", val)
		return
	}
	if s.nilErr(lastRes(read)) != 0 && (dec == nil || s.nilErr(lastRes(dec)) != 0) {
		c.viol("load", f, put, o, "a new store replaces one that could be read")
	}
	st := a.bean.Underlying().(*types.Struct)
	for i := 0; i < st.NumFields(); i++ {
		if !a.cats[st.Field(i).Name()] {
			continue
		}
		ad := mkFld(val, st.Field(i).Name(), types.NewPointer(st.Field(i).Type()))
		setOwn(ad, typeKey(a.bean))
		v := e.load(s, ad, st.Field(i).Type())
		c.ob("categories made ready")
		if v.Op != "obj" {
			c.viol("load", f, put, o, "the category %s of the new store is %s", st.Field(i).Name(), v)
		}
	}
}

func init() {
	checks["C17"] = checkDef{c17, "Every path of every operation of the account store: which category and which name its map operations touch, where the parameters flow in the record stored (through a digest for the password), and that the last change is followed, within the same hold of the store's lock, by a write of the store's encoding made since"}
}
