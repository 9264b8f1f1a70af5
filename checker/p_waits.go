package main

import (
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// ---------- C08: keyed locks ----------

// stableForm: a term that has one value for a given key at all times: no unknowns, no mutable memory.
func (c *Ctx) stableForm(t *Term) (bad *Term) {
	t.walk(func(x *Term) bool {
		switch x.Op {
		case "sym", "obj":
			bad = x
		case "init":
			a := x.Sub[0]
			switch {
			case a.Op == "fld" && c.P.stable(own(a), a.Aux):
			case a.Op == "global" || a.Op == "idx":
			case a.Op == "fld" && !isRepoKey(own(a)):
			default:
				bad = x
			}
		}
		return bad == nil
	})
	return
}

// within: on this path 0 <= i < n for every n >= 1.
func within(o *Outcome, i, n *Term) bool {
	ar := o.S.arith()
	ar.assume(mkBin("<", n, tInt(1), nil), false)
	if ar.le(tZero, i, 0) && ar.le(i, n, -1) {
		return true
	}
	strip := func(t *Term) *Term {
		for t.Op == "conv" && len(t.Sub) == 1 && strings.HasSuffix(t.Aux, "64") || t.Op == "conv" && len(t.Sub) == 1 && (t.Aux == "int" || t.Aux == "uint") {
			t = t.Sub[0]
		}
		return t
	}
	x := strip(i)
	return x.Op == "bin" && x.Aux == "%" && isUnsigned(x.Typ) && sameT(strip(x.Sub[1]), strip(n))
}

// modulus: the number the index is reduced by.
func modulus(i *Term) *Term {
	var n *Term
	i.walk(func(x *Term) bool {
		if x.Op == "bin" && x.Aux == "%" && n == nil {
			n = x.Sub[1]
		}
		return n == nil
	})
	for n != nil && n.Op == "conv" && len(n.Sub) == 1 {
		n = n.Sub[0]
	}
	return n
}

var lockKinds = map[string]string{"Lock": "lock", "RLock": "rlock", "Unlock": "unlock", "RUnlock": "runlock", "TryLock": "lock", "TryRLock": "rlock"}

func c08(c *Ctx) {
	c.rule("one-lock: in every operation of a keyed lock the mutex operated on is the same function of the key, built from unchanging parts only")
	c.rule("exists: its index lies in the range of mutexes the constructor makes, for every key and every positive number of mutexes, and the constructor makes a new mutex for every index in that range")
	c.rule("mode: every path operates on exactly one mutex exactly once, in the mode the operation is named for; a failed try operates on none")
	c.rule("returned: the mutex returned is the one acquired, and the flag tells whether it was")
	K := mkT("param", "KEY", nil)
	for _, typ := range []string{"Numlock", "Strlock"} {
		forms := map[string][]string{}
		type use struct {
			fn  *ssa.Function
			o   *Outcome
			ev  *Event
			sub *Term
		}
		var uses []use
		n := 0
		for _, f := range c.methods("lock", typ) {
			want, ok := lockKinds[f.Name()]
			if !ok || len(f.Params) != 2 {
				continue
			}
			n++
			e := c.engine()
			e.NoPanic = true
			set := map[string]bool{}
			for _, o := range c.run(e, f) {
				if o.Kind != "return" || missing(o) {
					continue
				}
				c.ob("lock operations")
				var ops []*Event
				for _, ev := range o.S.events {
					switch ev.Kind {
					case "lock", "rlock", "unlock", "runlock", "tryfail":
						ops = append(ops, ev)
					}
				}
				if len(ops) != 1 {
					c.viol("mode", f, nil, o, "%d mutex operations instead of one", len(ops))
					continue
				}
				ev := ops[0]
				try := strings.HasPrefix(f.Name(), "Try")
				acquired := true
				switch {
				case ev.Kind == "tryfail":
					acquired = false
					if !try || ev.Fn != f.Name() {
						c.viol("mode", f, ev, o, "%s tries with %s", f.Name(), ev.Fn)
					}
				case ev.Kind != want:
					c.viol("mode", f, ev, o, "%s uses the mutex in the mode %s", f.Name(), ev.Kind)
				case try && (len(ev.Instr.String()) > 0 && !c.isTry(ev)):
					c.viol("mode", f, ev, o, "%s may wait for the mutex", f.Name())
				}
				L := ev.Args[0]
				kp := paramTerms(f)[1]
				form := norm(subst(L, map[*Term]*Term{kp: K}))
				if bad := c.stableForm(form); bad != nil {
					c.viol("one-lock", f, ev, o, "the mutex depends on %s, which may be different from one call to the next", bad)
				}
				if !form.mentions(K) {
					// one mutex for all keys is correct, if coarse
				}
				set[form.String()] = true
				uses = append(uses, use{f, o, ev, L})
				rs := f.Signature.Results()
				if rs.Len() > 0 && acquired && !sameT(o.Ret[0], L) {
					c.viol("returned", f, ev, o, "the mutex returned, %s, is not the one acquired", o.Ret[0])
				}
				if rs.Len() > 1 {
					if t := (&mapSim{o: o}).truth(o.Ret[1]); t != b2i(acquired) {
						c.viol("returned", f, ev, o, "the flag is %s when the mutex was acquired: %v", o.Ret[1], acquired)
					}
				}
			}
			for s := range set {
				forms[f.Name()] = append(forms[f.Name()], s)
			}
			sort.Strings(forms[f.Name()])
		}
		if n == 0 {
			c.fail("%s has no lock operations", typ)
			continue
		}
		names := map[string]string{}
		for m, s := range forms {
			names[strings.Join(s, " or ")] = m
		}
		if len(names) > 1 {
			var all []string
			for s, m := range names {
				all = append(all, m+": "+s)
			}
			sort.Strings(all)
			c.viol("one-lock", uses[0].fn, nil, nil, "operations of %s find different mutexes for one key: %s", typ, strings.Join(all, "; "))
		}
		// the range
		var num *Term // the field that holds the number
		for _, u := range uses {
			i, n := lockIndex(u.sub)
			if i == nil {
				if bad := c.stableForm(norm(u.sub)); bad == nil {
					continue
				}
				c.viol("exists", u.fn, u.ev, u.o, "how the mutex %s is found is not understood", u.sub)
				continue
			}
			if n == nil {
				n = modulus(i)
			}
			if n == nil || !within(u.o, i, n) {
				c.viol("exists", u.fn, u.ev, u.o, "for some keys the index %s is not that of a mutex", i)
				continue
			}
			num = n
		}
		if num != nil {
			c.filled(typ, num)
		}
	}
}

func b2i(b bool) int {
	if b {
		return 1
	}
	return 0
}

func (c *Ctx) isTry(ev *Event) bool {
	ci, ok := ev.Instr.(ssa.CallInstruction)
	if !ok {
		return false
	}
	f := ci.Common().StaticCallee()
	return f != nil && strings.HasPrefix(f.Name(), "Try")
}

// missing: the path assumes that the table has no mutex at the index, which rule exists excludes.
func missing(o *Outcome) bool {
	for _, f := range o.S.facts {
		if f.T.Op == "app" && f.T.Aux == "frozenok" && !f.Truth {
			return true
		}
		if f.T.Op == "bin" && f.T.Aux == "==" && f.Truth && f.T.Sub[0] == tNil && f.T.Sub[1].Op == "app" && f.T.Sub[1].Aux == "frozen" {
			return true
		}
	}
	return false
}

// lockIndex: the index under which the mutex is kept, and, for a slice, its length.
func lockIndex(l *Term) (i, n *Term) {
	switch {
	case l.Op == "app" && l.Aux == "frozen":
		return l.Sub[1], nil
	case l.Op == "idx":
		return l.Sub[1], mkLen(l.Sub[0])
	case isInit(l) && l.Sub[0].Op == "idx":
		return l.Sub[0].Sub[1], mkLen(l.Sub[0].Sub[0])
	case l.Op == "fld":
		return lockIndex(l.Sub[0])
	}
	return nil, nil
}

// filled: the constructors put a new mutex at every index from 0 to the number they record.
func (c *Ctx) filled(typ string, num *Term) {
	for _, f := range c.entryPoints("lock") {
		if f.Signature.Recv() != nil || f.Signature.Results().Len() != 1 || shortKey(typeKey(f.Signature.Results().At(0).Type())) != "lock."+typ {
			continue
		}
		e := c.engine()
		e.NoPanic = true
		outs := c.run(e, f)
		var paths []*swept
		// the value of the number at the end of the constructor
		final := map[*Outcome]*Term{}
		for _, o := range outs {
			if o.Kind == "return" {
				final[o] = c.valueIn(e, o, num, o.Ret[0])
			}
		}
		var any *Term
		for _, v := range final {
			any = v
		}
		for _, o := range outs {
			n := final[o]
			if n == nil {
				n = any
			}
			if n == nil {
				continue
			}
			p := &swept{o: o, n: n}
			made := map[*Term]bool{}
			for i, ev := range o.S.events {
				var ix, v *Term
				switch {
				case ev.Kind == "smap" && (ev.Fn == "Swap" || ev.Fn == "Store" || ev.Fn == "LoadOrStore"):
					ix, v = ev.Args[1], ev.Args[2]
				case ev.Kind == "mapset":
					ix, v = ev.Args[1], ev.Args[2]
				case ev.Kind == "store" && ev.Args[0].Op == "idx" && strings.Contains(typeKey(ev.Args[1].Typ), "Mutex"):
					ix, v = ev.Args[0].Sub[1], ev.Args[1]
				default:
					continue
				}
				for ix.Op == "conv" && len(ix.Sub) == 1 {
					ix = ix.Sub[0]
				}
				c.ob("mutexes made")
				if v.Op != "obj" || made[v] {
					c.viol("exists", f, ev, o, "the mutex put at %s is %s, not a new one", ix, v)
				}
				made[v] = true
				p.idx, p.at = append(p.idx, ix), append(p.at, i)
			}
			paths = append(paths, p)
		}
		if num.Op == "len" {
			// a slice of mutexes by value needs no filling
			if sl := num.Sub[0]; sl.Typ != nil {
				if s, ok := sl.Typ.Underlying().(*types.Slice); ok {
					if _, ptr := s.Elem().Underlying().(*types.Pointer); !ptr {
						continue
					}
				}
			}
		}
		if o, why := covers(paths); o != nil {
			c.viol("exists", f, nil, o, "not every index has a mutex: %s", why)
		}
	}
}

// valueIn is the value of a term over a method's receiver in the object a constructor returns.
func (c *Ctx) valueIn(e *Engine, o *Outcome, t, obj *Term) *Term {
	switch t.Op {
	case "init":
		a := t.Sub[0]
		if a.Op == "fld" {
			var base *Term
			if a.Sub[0].Op == "param" {
				base = obj
			} else {
				base = c.valueIn(e, o, a.Sub[0], obj)
			}
			if base == nil {
				return nil
			}
			na := mkFld(base, a.Aux, a.Typ)
			setOwn(na, own(a))
			var ft types.Type
			if pt, ok := a.Typ.Underlying().(*types.Pointer); ok {
				ft = pt.Elem()
			}
			return e.load(o.S, na, ft)
		}
	case "len":
		if v := c.valueIn(e, o, t.Sub[0], obj); v != nil {
			return mkLen(v)
		}
	case "param":
		return obj
	}
	return nil
}

// ---------- C10: the limit lock ----------

func chanOps(o *Outcome) (sends, recvs []*Event) {
	for _, ev := range o.S.events {
		switch {
		case ev.Kind == "send", ev.Kind == "select" && ev.Note == "send":
			sends = append(sends, ev)
		case ev.Kind == "recv", ev.Kind == "select" && ev.Note == "recv":
			recvs = append(recvs, ev)
		}
	}
	return
}

func isField(t *Term, owner, name string) bool {
	return isInit(t) && t.Sub[0].Op == "fld" && shortKey(own(t.Sub[0])) == owner && (name == "" || t.Sub[0].Aux == name)
}

// timerOf: the channel fires after the duration.
func timerOf(ch *Term) *Term {
	if ch.Op == "app" && ch.Aux == "time.After" {
		return ch.Sub[0]
	}
	if isInit(ch) && ch.Sub[0].Op == "fld" && ch.Sub[0].Aux == "C" && ch.Sub[0].Sub[0].Op == "app" && ch.Sub[0].Sub[0].Aux == "time.NewTimer" {
		return ch.Sub[0].Sub[0].Sub[0]
	}
	return nil
}

func c10(c *Ctx) {
	const T = "lock.LimitLock"
	c.rule("place: on every path of Lock, one place is taken from the channel of places exactly when it returns no error; Unlock gives back exactly one; both use the same channel")
	c.rule("counted: the acquisition counter rises by one exactly when a place was taken, the release counter by one exactly when one was given back; the concurrency reported is their difference and the count reported the acquisition counter")
	c.rule("timeout: an acquisition that takes no place waited for the configured timeout on a timer, and the wait for a place is part of the same select")
	c.rule("limit: the channel of places is made with exactly the limit as its capacity")
	lock, unlock := c.pub("lock", "LimitLock", "Lock"), c.pub("lock", "LimitLock", "Unlock")
	ctor := c.pub("lock", "", "NewLimitLock")
	if lock == nil || unlock == nil || ctor == nil {
		return
	}
	var place, acq, rel *Term
	adds := func(fn *ssa.Function, o *Outcome) map[string]int64 {
		r := map[string]int64{}
		for _, ev := range o.S.events {
			if ev.Kind == "atomic" && ev.Fn == "add" && ev.Args[0].Op == "fld" {
				n, ok := ev.Args[1].intVal()
				if !ok {
					c.viol("counted", fn, ev, o, "a counter changes by %s", ev.Args[1])
				}
				r[ev.Args[0].Aux] += n
			} else if ev.Kind == "atomic" && ev.Fn != "load" || ev.Kind == "store" && ev.Note != "private" && ev.Args[0].Op == "fld" && shortKey(own(ev.Args[0])) == T {
				c.viol("counted", fn, ev, o, "a field of the lock is overwritten")
			}
		}
		return r
	}
	isPlace := func(ch *Term) bool {
		if !isField(norm(ch), T, "") {
			return false
		}
		return place == nil || norm(ch) == place
	}
	e := c.engine()
	e.NoPanic = true
	for _, o := range c.run(e, lock) {
		if o.Kind != "return" {
			if o.Kind == "loop" {
				c.viol("place", lock, nil, o, "an acquisition may be repeated")
			}
			continue
		}
		c.ob("acquisitions")
		sends, recvs := chanOps(o)
		okRet := (&mapSim{o: o}).truth(mkBin("==", o.Ret[0], tNil, nil)) == 1
		errRet := (&mapSim{o: o}).truth(mkBin("==", o.Ret[0], tNil, nil)) == 0
		if !okRet && !errRet {
			c.viol("place", lock, nil, o, "whether it reports an error is not determined: %s", o.Ret[0])
			continue
		}
		for _, s := range sends {
			if isPlace(s.Args[0]) {
				place = norm(s.Args[0])
			} else {
				c.viol("place", lock, s, o, "%s is not the channel of places", s.Args[0])
			}
			if s.Kind == "send" && len(sends) > 0 {
				c.viol("timeout", lock, s, o, "it waits for a place without a timeout")
			}
		}
		for _, r := range recvs {
			if isField(norm(r.Args[0]), T, "") {
				c.viol("place", lock, r, o, "an acquisition gives back a place")
			}
		}
		if okRet && len(sends) != 1 || errRet && len(sends) != 0 {
			c.viol("place", lock, nil, o, "%d places are taken although it reports %s", len(sends), o.Ret[0])
		}
		ad := adds(lock, o)
		total := int64(0)
		for f, n := range ad {
			total += n
			if n != 0 {
				acq = tStr(f)
			}
		}
		if total != int64(len(sends)) || okRet && len(ad) != 1 {
			c.viol("counted", lock, nil, o, "the acquisition counter rises by %d and %d places are taken", total, len(sends))
		}
		if errRet {
			waited := false
			for _, r := range recvs {
				if d := timerOf(r.Args[0]); d != nil && isField(norm(d), T, "") && r.Kind == "select" {
					for _, cs := range r.Args[1:] {
						if isField(norm(cs), T, "") {
							waited = true
						}
					}
				}
			}
			if !waited {
				c.viol("timeout", lock, nil, o, "it reports a timeout without having waited for it")
			}
		}
	}
	for _, o := range c.run(e, unlock) {
		if o.Kind != "return" {
			c.viol("place", unlock, nil, o, "a release may be repeated")
			continue
		}
		c.ob("releases")
		sends, recvs := chanOps(o)
		if len(sends) != 0 || len(recvs) != 1 || place == nil || norm(recvs[0].Args[0]) != place {
			c.viol("place", unlock, nil, o, "it gives back %d places and takes %d", len(recvs), len(sends))
		}
		ad := adds(unlock, o)
		for f, n := range ad {
			if n == 0 {
				continue
			}
			rel = tStr(f)
			if n != 1 {
				c.viol("counted", unlock, nil, o, "the release counter rises by %d", n)
			}
		}
		if len(ad) != 1 {
			c.viol("counted", unlock, nil, o, "the release is not counted")
		}
	}
	if acq == nil || rel == nil {
		c.viol("counted", lock, nil, nil, "acquisitions or releases are not counted")
		return
	}
	if acq == rel {
		c.viol("counted", unlock, nil, nil, "acquisitions and releases are counted in one counter")
	}
	reads := func(name string) {
		f := c.pub("lock", "LimitLock", name)
		if f == nil {
			return
		}
		for _, o := range c.run(e, f) {
			c.ob("reports")
			of := map[*Term]string{}
			for _, ev := range o.S.events {
				if ev.Res != nil && (ev.Kind == "atomic" && ev.Fn == "load" || ev.Kind == "load") && ev.Args[0].Op == "fld" {
					of[ev.Res] = ev.Args[0].Aux
				}
			}
			l := (&Arith{}).lin(o.Ret[0])
			got := map[string]int64{}
			for t, k := range l.c {
				got[of[t]] += k
			}
			if l.k != 0 {
				got["constant"] = l.k
			}
			want := map[string]int64{unq(acq.Aux): 1}
			if name == "Cc" {
				want[unq(rel.Aux)] = -1
			}
			same := true
			for k, v := range want {
				same = same && got[k] == v
			}
			for k, v := range got {
				same = same && want[k] == v
			}
			if !same {
				c.viol("counted", f, nil, o, "it reports %s", o.Ret[0])
			}
		}
	}
	reads("Cc")
	reads("LockCount")
	for _, o := range c.run(e, ctor) {
		if o.Kind != "return" {
			continue
		}
		c.ob("limits")
		ps := paramTerms(ctor)
		st := deref(ctor.Signature.Results().At(0).Type()).Underlying().(*types.Struct)
		for i := 0; i < st.NumFields(); i++ {
			v := e.load(o.S, mkFld(o.Ret[0], st.Field(i).Name(), types.NewPointer(st.Field(i).Type())), st.Field(i).Type())
			if place != nil && st.Field(i).Name() == place.Sub[0].Aux {
				if v.Op != "obj" || v.Obj.Kind != "chan" || v.Obj.Cap != ps[0] {
					c.viol("limit", ctor, nil, o, "the channel of places is %s with capacity %v, not the limit", v, v.Obj)
				}
			}
			if strings.HasSuffix(typeKey(st.Field(i).Type()), "time.Duration") && v != ps[1] {
				c.viol("timeout", ctor, nil, o, "the timeout is %s instead of the one configured", v)
			}
		}
	}
}

// ---------- C09: waiters ----------

func (c *Ctx) waitEngine() *Engine {
	e := c.engine()
	e.Opaque = func(f *ssa.Function) bool {
		return pkgOf(f) == "cache" || pkgOf(f) == "util" && f.Name() != "Int64ToBytes"
	}
	return e
}

// paramLike finds the parameter of a type.
func paramLike(f *ssa.Function, ok func(types.Type) bool) *Term {
	for i, p := range paramTerms(f) {
		if i == 0 && f.Signature.Recv() != nil {
			continue
		}
		if ok(p.Typ) {
			return p
		}
	}
	return nil
}

func typeIs(s string) func(types.Type) bool {
	return func(t types.Type) bool { return types.TypeString(t, nil) == s }
}

// regMap: the map in which waiters of the type are registered: the channel-valued one operated on with the id.
func regOp(ev *Event, id *Term) (kind string, ch, ok *Term) {
	if ev.Kind != "smap" || len(ev.Args) < 2 || ev.Args[1] != id {
		return
	}
	r := func(n int) *Term {
		if ev.Res != nil && ev.Res.Op == "tuple" {
			return ev.Res.Sub[n]
		}
		return nil
	}
	switch ev.Fn {
	case "Load":
		return "get", r(0), r(1)
	case "Store", "Swap":
		return "set", ev.Args[2], r(1)
	case "LoadOrStore":
		return "los", r(0), r(1)
	case "Delete":
		return "del", nil, nil
	case "LoadAndDelete":
		return "del", r(0), r(1)
	case "CompareAndDelete":
		return "del", ev.Args[2], nil
	}
	return "other", nil, nil
}

func c09(c *Ctx) {
	c.rule("registered: before it blocks, a waiter has its channel in the table under its id; a channel shared between callers is looked up and created in one critical section")
	c.rule("outcome: a wait that received from its channel returns that value without error or cancel flag; one ended by its timer, which runs only for a positive timeout and for exactly that timeout, returns an error without cancel flag; one ended by its context returns the cancel flag")
	c.rule("listens: every blocking select of a wait listens to its channel, to a timer exactly when the timeout is positive, and to the context when it is given one, and a wait given a context never blocks without listening to it")
	c.rule("forgotten: however a wait ends, its id has been deleted from the table, after the last time it was put there")
	c.rule("delivered: a put for an id in the table deletes the id, then sends the given value on that channel exactly once, then closes it; it sends nothing else and never closes before sending")
	c.rule("buffered: every channel put in a table has room for at least one value, so the putter does not block")
	c.rule("contained: no wait, put or close panics in its caller")
	c.rule("announced: a wait that announces itself to a wait group does so once, after it is registered and before it blocks")
	n := 0
	for _, typ := range []string{"Await", "FastAwait"} {
		for _, f := range c.methods("lock", typ) {
			id := paramLike(f, typeIs("int64"))
			if id == nil {
				continue
			}
			switch f.Name() {
			case "Wait", "WaitWithCancel", "SyncWait":
				c.waits(f, id)
				n++
			case "CloseAndPut", "Close":
				c.puts(f, id)
				n++
			case "Get":
				c.gets(f, id)
				n++
			case "Has":
				c.hases(f, id)
				n++
			}
		}
		c.marks(typ)
	}
	if n < 9 {
		c.fail("only %d operations of the waiters found", n)
	}
}

// impossible: the path assumes a nil channel in the table, where only new channels are put.
func nilChan(o *Outcome, id *Term) bool {
	for _, ev := range o.S.events {
		if k, ch, ok := regOp(ev, id); (k == "get" || k == "los") && ch != nil && ok != nil {
			if t, known := o.S.factOf(ok); known && t {
				if v, known := o.S.factOf(mkBin("==", ch, tNil, nil)); known && v {
					return true
				}
			}
		}
	}
	return false
}

func (c *Ctx) chanCaps(f *ssa.Function, o *Outcome, id *Term) {
	for _, ev := range o.S.events {
		k, ch, _ := regOp(ev, id)
		if k != "set" && k != "los" {
			continue
		}
		if k == "los" {
			ch = ev.Args[2]
		}
		c.ob("channels")
		if ch.Op != "obj" || ch.Obj.Kind != "chan" {
			c.viol("registered", f, ev, o, "%s is put in the table, not a new channel", ch)
			continue
		}
		n := ch.Obj.Cap
		if n == nil || !o.S.arith().le(tInt(1), n, 0) {
			c.viol("buffered", f, ev, o, "the channel put in the table has capacity %s: its putter may block for ever", n)
		}
	}
}

func (c *Ctx) gets(f *ssa.Function, id *Term) {
	for _, o := range c.run(c.waitEngine(), f) {
		if o.Kind != "return" || nilChan(o, id) {
			continue
		}
		c.ob("lookups")
		c.chanCaps(f, o, id)
		c.shared(f, o, id)
		good := false
		for _, ev := range o.S.events {
			k, ch, _ := regOp(ev, id)
			if (k == "get" || k == "set" || k == "los") && ch == o.Ret[0] {
				good = true
			}
		}
		if !good {
			c.viol("registered", f, nil, o, "the channel returned, %s, is not the one in the table", o.Ret[0])
		}
	}
}

// shared: looking up and creating is one step.
func (c *Ctx) shared(f *ssa.Function, o *Outcome, id *Term) {
	var get *Event
	for _, ev := range o.S.events {
		k, _, ok := regOp(ev, id)
		switch k {
		case "get":
			if t, known := o.S.factOf(ok); known && !t {
				get = ev
			}
		case "set":
			if get != nil && !together(get, ev) {
				c.viol("registered", f, ev, o, "another caller may have put its channel under the id since it was looked up")
			}
		}
	}
}

func (c *Ctx) hases(f *ssa.Function, id *Term) {
	for _, o := range c.run(c.waitEngine(), f) {
		if o.Kind != "return" {
			continue
		}
		good := false
		for _, ev := range o.S.events {
			if k, _, ok := regOp(ev, id); k == "get" && (ok == o.Ret[0] || (&mapSim{o: o}).truth(ok) >= 0 && (&mapSim{o: o}).truth(ok) == (&mapSim{o: o}).truth(o.Ret[0])) {
				good = true
			}
		}
		if !good {
			c.viol("registered", f, nil, o, "it reports %s, not whether the id is in the table", o.Ret[0])
		}
	}
}

func (c *Ctx) waits(f *ssa.Function, id *Term) {
	timeout := paramLike(f, typeIs("time.Duration"))
	ctx := paramLike(f, typeIs("context.Context"))
	wg := paramLike(f, func(t types.Type) bool { return types.TypeString(t, nil) == "*sync.WaitGroup" })
	if timeout == nil {
		c.fail("%s takes no timeout", fnName(f))
		return
	}
	isDone := func(ch *Term) bool {
		return ctx != nil && ch.Op == "app" && strings.Contains(ch.Aux, "context.Context.Done") && ch.mentions(ctx)
	}
	rs := f.Signature.Results()
	for _, o := range c.run(c.waitEngine(), f) {
		if nilChan(o, id) {
			continue
		}
		m := &mapSim{o: o}
		if o.Kind == "panic" {
			c.viol("contained", f, nil, o, "the wait may panic in its caller (%v)", panicKind(o))
			continue
		}
		if o.Kind != "return" {
			continue
		}
		c.ob("waits")
		c.chanCaps(f, o, id)
		c.shared(f, o, id)
		var reg *Term
		regAt, delAt, blockAt := -1, -1, -1
		var block *Event
		var dones []int
		recovered := false
		for i, ev := range o.S.events {
			switch k, ch, ok := regOp(ev, id); k {
			case "get":
				if m.truth(ok) == 1 {
					reg, regAt = ch, i
				}
			case "set", "los":
				reg, regAt = ch, i
			case "del":
				delAt = i
			}
			if ev.Kind == "recover" {
				recovered = true
			}
			if ev.Kind == "call" && ev.Fn == "(*sync.WaitGroup).Done" && len(ev.Args) > 0 && ev.Args[0] == wg {
				dones = append(dones, i)
			}
			if ev.Kind == "recv" || ev.Kind == "select" && ev.Fn == "blocking" {
				if ev.Kind == "recv" || ev.Note == "recv" {
					if block != nil {
						c.viol("outcome", f, ev, o, "it goes on waiting after it has received")
					}
					block, blockAt = ev, i
				}
			}
		}
		if reg == nil {
			if recovered {
				continue // it failed before it was registered
			}
			c.viol("registered", f, nil, o, "the waiter is not registered")
			continue
		}
		if delAt < regAt {
			c.viol("forgotten", f, nil, o, "the id is left in the table")
		}
		if block == nil {
			if !recovered {
				c.viol("outcome", f, nil, o, "it returns without having waited")
			}
			continue
		}
		if regAt > blockAt {
			c.viol("registered", f, block, o, "it waits before its channel is in the table")
		}
		if wg != nil {
			switch m.truth(mkBin("==", wg, tNil, nil)) {
			case 0:
				if len(dones) != 1 || dones[0] < regAt || dones[0] > blockAt {
					c.viol("announced", f, nil, o, "it announces itself %d times, or before it is registered, or after it has waited", len(dones))
				}
			case -1:
				if len(dones) == 0 {
					c.viol("announced", f, nil, o, "it does not announce itself")
				} else if dones[0] < regAt || dones[0] > blockAt {
					c.viol("announced", f, nil, o, "it announces itself before it is registered or after it has waited")
				}
			}
		}
		// what it listened to
		cases := block.Args
		if block.Kind == "select" {
			cases = block.Args[1:]
		}
		mine, timed, cancel := false, false, false
		pos := m.truth(mkBin("<", tZero, timeout, nil))
		for _, ch := range cases {
			switch {
			case ch == reg:
				mine = true
			case isDone(ch):
				cancel = true
			case timerOf(ch) != nil:
				timed = true
				if timerOf(ch) != timeout {
					c.viol("outcome", f, block, o, "the timer runs for %s instead of the timeout", timerOf(ch))
				}
			case ch == tNil:
			default:
				c.viol("listens", f, block, o, "it listens to %s", ch)
			}
		}
		if !mine {
			c.viol("listens", f, block, o, "it does not listen to its channel")
		}
		if pos == 1 && !timed {
			c.viol("listens", f, block, o, "a positive timeout has no effect")
		}
		if timed && pos != 1 {
			c.viol("listens", f, block, o, "a timeout that is not positive ends the wait")
		}
		if ctx != nil && !cancel {
			c.viol("listens", f, block, o, "cancelling the context does not end this wait")
		}
		// how it ended
		got := block.Args[0]
		err := o.Ret[len(o.Ret)-1]
		var flag *Term
		if rs.Len() == 3 {
			flag = o.Ret[1]
		}
		isNil := m.truth(mkBin("==", err, tNil, nil))
		if recovered && isNil == 0 && err.mentions2("recovered") {
			isNil = 2 // a panic after the wait was reported instead
		}
		switch {
		case isDone(got):
			if flag == nil || m.truth(flag) != 1 {
				c.viol("outcome", f, block, o, "the context was cancelled and the cancel flag returned is %v", flag)
			}
		case timerOf(got) != nil:
			if isNil == 1 || isNil == -1 {
				c.viol("outcome", f, block, o, "the wait timed out and returns the error %s", err)
			}
			if flag != nil && m.truth(flag) != 0 {
				c.viol("outcome", f, block, o, "the wait timed out and returns the cancel flag %s", flag)
			}
		case got == reg:
			if isNil == 2 {
				break
			}
			if isNil != 1 || o.Ret[0] != block.Res || flag != nil && m.truth(flag) != 0 {
				// a closed channel may be told apart
				if !(isNil == 0 && closedSeen(o, block)) {
					c.viol("outcome", f, block, o, "the value was received and %v is returned", o.Ret)
				}
			}
		}
	}
}

// mentions2: does the term involve a symbol of the kind?
func (t *Term) mentions2(kind string) bool {
	for a := range ancestors(t) {
		if a.Op == "sym" && a.Sym != nil && (a.Sym.Kind == kind || strings.HasPrefix(a.Sym.Name, kind)) {
			return true
		}
	}
	return false
}

func closedSeen(o *Outcome, block *Event) bool {
	for _, f := range o.S.facts {
		if f.T.Op == "sym" && f.T.Sym.Kind == "recvok" && f.T.Sym.Ev == block && !f.Truth {
			return true
		}
	}
	return false
}

func panicKind(o *Outcome) string {
	for i := len(o.S.events) - 1; i >= 0; i-- {
		if o.S.events[i].Kind == "panic" || o.S.events[i].Kind == "fault" {
			return o.S.events[i].Fn
		}
	}
	return ""
}

func (c *Ctx) puts(f *ssa.Function, id *Term) {
	put := f.Name() == "CloseAndPut"
	var v *Term
	if ps := paramTerms(f); put {
		v = ps[len(ps)-1]
	}
	locked := false
	for _, g := range c.methods("lock", recvName(f)) {
		if g.Name() == "Get" {
			locked = true
		}
	}
	for _, o := range c.run(c.waitEngine(), f) {
		if nilChan(o, id) {
			continue
		}
		m := &mapSim{o: o}
		if o.Kind == "panic" {
			c.viol("contained", f, nil, o, "it may panic in its caller (%v)", panicKind(o))
			continue
		}
		if o.Kind != "return" {
			continue
		}
		c.ob("puts")
		var found *Event
		var ch *Term
		var sends, closes, dels []int
		recovered := -1
		for i, ev := range o.S.events {
			switch k, x, ok := regOp(ev, id); k {
			case "get", "del":
				if k == "del" {
					dels = append(dels, i)
				}
				if ok != nil && m.truth(ok) == 1 && x != nil && (k == "del" && ch == nil || k == "get") {
					found, ch = ev, x
				} else if k == "get" && m.truth(ok) == 0 {
					found, ch = nil, nil
				}
			case "set", "los":
				c.viol("delivered", f, ev, o, "it puts a channel in the table")
			}
			switch ev.Kind {
			case "send", "select":
				if ev.Kind == "select" && ev.Note != "send" {
					continue
				}
				sends = append(sends, i)
			case "close":
				closes = append(closes, i)
			case "recover":
				if recovered < 0 {
					recovered = i
				}
			}
		}
		used := false
		for _, s := range append(append([]int{}, sends...), closes...) {
			used = true
			if a := o.S.events[s].Args[0]; a != ch {
				c.viol("delivered", f, o.S.events[s], o, "%s is not the channel found under the id", a)
			}
		}
		if ch == nil {
			continue
		}
		// a lookup whose channel is not used: only its presence was asked for
		_ = used
		if recovered >= 0 {
			continue // the channel was closed meanwhile: reported
		}
		if found.Kind == "smap" && found.Fn == "Load" && len(dels) == 0 && len(sends) == 0 && len(closes) == 0 {
			// presence only, and then it was gone
			again := false
			for _, ev := range o.S.events {
				if k, _, ok := regOp(ev, id); k == "get" && m.truth(ok) == 0 {
					again = true
				}
			}
			if again {
				continue
			}
		}
		if put {
			switch {
			case len(sends) != 1:
				c.viol("delivered", f, nil, o, "the waiter is there and %d values are sent to it", len(sends))
			case sentVal(o.S.events[sends[0]]) != v:
				c.viol("delivered", f, o.S.events[sends[0]], o, "%s is sent instead of the value given", sentVal(o.S.events[sends[0]]))
			}
		} else if len(sends) != 0 {
			c.viol("delivered", f, nil, o, "closing sends a value")
		}
		if len(closes) != 1 {
			c.viol("delivered", f, nil, o, "the channel is closed %d times", len(closes))
		}
		if len(dels) == 0 {
			c.viol("forgotten", f, nil, o, "the id is left in the table")
			continue
		}
		for _, s := range sends {
			if len(closes) > 0 && closes[0] < s {
				c.viol("delivered", f, o.S.events[s], o, "the channel is closed before the value is sent")
			}
			if dels[len(dels)-1] > s {
				c.viol("delivered", f, o.S.events[dels[len(dels)-1]], o, "the id is deleted after the value is sent: by then it may belong to the next waiter")
			}
			if locked && !together(found, o.S.events[s]) {
				c.viol("delivered", f, o.S.events[s], o, "another caller may complete the same wait at the same time")
			}
		}
		for _, s := range closes {
			if dels[len(dels)-1] > s {
				c.viol("delivered", f, o.S.events[dels[len(dels)-1]], o, "the id is deleted after the channel is closed: by then it may belong to the next waiter")
			}
		}
	}
}

func sentVal(ev *Event) *Term { return ev.Args[1] }

func recvName(f *ssa.Function) string {
	t := f.Signature.Recv().Type()
	if p, ok := t.(*types.Pointer); ok {
		t = p.Elem()
	}
	if n, ok := t.(*types.Named); ok {
		return n.Obj().Name()
	}
	return ""
}

// marks: the filter of finished ids is asked about the same bytes it is told.
func (c *Ctx) marks(typ string) {
	K := mkT("param", "ID", nil)
	forms := map[string]map[string]*ssa.Function{}
	for _, f := range c.methods("lock", typ) {
		id := paramLike(f, typeIs("int64"))
		if id == nil {
			continue
		}
		e := c.waitEngine()
		e.OnEvent = recordContents
		for _, o := range c.run(e, f) {
			for _, ev := range o.S.events {
				if ev.Kind != "repocall" || !strings.Contains(ev.Fn, "cache.BloomFilter") || len(ev.Args) < 2 {
					continue
				}
				a := norm(subst(contentAt(ev, 1), map[*Term]*Term{id: K}))
				if forms[a.String()] == nil {
					forms[a.String()] = map[string]*ssa.Function{}
				}
				forms[a.String()][callMethod(ev.Fn)] = f
			}
		}
	}
	if len(forms) > 1 {
		var fs []string
		var at *ssa.Function
		for s, m := range forms {
			fs = append(fs, s)
			for _, f := range m {
				at = f
			}
		}
		sort.Strings(fs)
		c.viol("forgotten", at, nil, nil, "finished ids are recorded and asked for as different bytes: %s", strings.Join(fs, " and "))
	}
}

func init() {
	checks["C08"] = checkDef{c08, "path-sensitive value-numbering analysis of the keyed locks: the mutex each operation reaches as a function of the key, its range, its mode, and an inductive argument over the constructors' loops that every index has its own mutex"}
	checks["C09"] = checkDef{c09, "path-sensitive typestate analysis of waits and puts: registration, blocking, outcome, deletion, send and close in every order and on every panicking path"}
	checks["C10"] = checkDef{c10, "path-sensitive effect counting over the limit lock's operations: channel operations and counter changes on every path"}
}
