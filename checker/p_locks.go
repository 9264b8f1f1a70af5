package main

import (
	"fmt"
	"sort"
	"strings"

	"go/types"

	"golang.org/x/tools/go/ssa"
)

// isThriftFn: generated record (de)serialisation; it works on the record it is given and takes no locks.
func isThriftFn(f *ssa.Function) bool {
	for i := 0; i < f.Signature.Params().Len(); i++ {
		if strings.HasSuffix(typeKey(f.Signature.Params().At(i).Type()), "thrift.TProtocol") {
			return true
		}
	}
	return false
}

// recordMethod: a method of a serialised record. Records are plain values without locks; the stores that share
// them protect them, and are checked at their own uses.
func recordMethod(f *ssa.Function) bool {
	if f.Signature.Recv() == nil {
		return false
	}
	t := f.Signature.Recv().Type()
	ms := f.Prog.MethodSets.MethodSet(t)
	for i := 0; i < ms.Len(); i++ {
		if sg, ok := ms.At(i).Obj().Type().(*types.Signature); ok && ms.At(i).Obj().Name() == "Write" {
			for j := 0; j < sg.Params().Len(); j++ {
				if strings.HasSuffix(typeKey(sg.Params().At(j).Type()), "thrift.TProtocol") {
					return true
				}
			}
		}
	}
	return false
}

func (c *Ctx) lockEngine(sh *Shared) *Engine {
	e := c.engine()
	e.GoBodies = true
	e.Shared = sh
	e.CutSize = 10
	e.MergeLoops = true
	e.Cut = isThriftFn
	return e
}

// access is one use of state that may be shared.
// thisProg is the program whose accesses are being classified.
var thisProg *Prog

type access struct {
	loc    string
	write  bool
	atomic bool
	ev     *Event
	locks  map[string]bool // name -> held exclusively
	fn     *ssa.Function
	pos    string
}

var unsafeTypes = map[string]bool{
	"container/list.List": true, "container/list.Element": true, "github.com/google/btree.BTree": true, "github.com/google/btree.BTreeG": true,
	"github.com/golang/groupcache/lru.Cache": true, "bytes.Buffer": true, "strings.Builder": true, "math/rand.Rand": true, "container/ring.Ring": true, "container/heap.Interface": true,
	"bufio.Writer": true, "bufio.Reader": true,
}

var readMethods = map[string]bool{"Get": true, "Has": true, "Len": true, "Ascend": true, "AscendGreaterOrEqual": true, "AscendLessThan": true, "AscendRange": true, "Descend": true, "DescendGreaterThan": true, "DescendLessOrEqual": true, "DescendRange": true,
	"Min": true, "Max": true, "Front": true, "Back": true, "Next": true, "Prev": true, "String": true, "Bytes": true, "Cap": true, "Value": true}

func callMethod(fn string) string { return fn[strings.LastIndex(fn, ".")+1:] }

// nearField is the innermost field (of a type of this repository) on an address.
func nearField(t *Term) *Term {
	for d := 0; t != nil && d < 60; d++ {
		if t.Op == "fld" && isRepoKey(own(t)) {
			return t
		}
		if t.Op == "sym" && t.Sym != nil && len(t.Sym.Deps) > 0 {
			t = t.Sym.Deps[0]
			continue
		}
		if len(t.Sub) == 0 {
			return nil
		}
		t = t.Sub[0]
	}
	return nil
}

func shortKey(k string) string { return strings.TrimPrefix(strings.TrimPrefix(k, modPath), "/") }

// accessOf classifies an event; nil when it touches no shared state in scope.
func accessesOf(ev *Event, inScope func(owner string) bool) []*access {
	var out []*access
	stableLock := func(a *Term) bool { return thisProg == nil || a.Op != "fld" || thisProg.stable(own(a), a.Aux) }
	add := func(t *Term, suffix string, write, atomic bool) {
		r := t
		anc := ancestors(t)
		for a := range anc {
			if a.Op == "sym" && a.Sym != nil && (a.Sym.Kind == "recv" || a.Sym.Kind == "pool") {
				return
			}
		}
		// objects handed over through channels or pools belong to whoever has them
		for d := 0; d < 60 && r != nil; d++ {
			if r.Op == "sym" && r.Sym != nil {
				switch r.Sym.Kind {
				case "recv", "pool":
					return
				}
				if len(r.Sym.Deps) == 0 {
					break
				}
				r = r.Sym.Deps[0]
				continue
			}
			if len(r.Sub) == 0 {
				break
			}
			r = r.Sub[0]
		}
		loc := ""
		if r != nil && r.Op == "global" {
			loc = "var " + r.Aux
		}
		if f := nearField(t); f != nil {
			if !inScope(own(f)) {
				return
			}
			loc = shortKey(own(f)) + "." + f.Aux
			if r != nil && r.Op == "obj" && !strings.Contains(r.Obj.Kind, "alloc") {
				return
			}
		} else if loc == "" {
			return
		}
		a := &access{loc: loc + suffix, write: write, atomic: atomic, ev: ev, locks: map[string]bool{}}
		if len(ev.Stack) > 0 {
			a.fn = ev.Stack[len(ev.Stack)-1]
		}
		for _, h := range ev.Locks {
			k := h.Key
			name := ""
			for k.Op == "init" && stableLock(k.Sub[0]) {
				k = k.Sub[0]
			}
			switch k.Op {
			case "fld":
				if anc[k.Sub[0]] {
					name = shortKey(own(k)) + "." + k.Aux
				}
			case "global":
				name = "var " + k.Aux
			}
			if name != "" {
				a.locks[name] = a.locks[name] || !h.Read
			}
		}
		out = append(out, a)
	}
	if ev.Note == "private" || len(ev.Stack) > 0 && recordMethod(ev.Stack[0]) {
		return nil
	}
	switch ev.Kind {
	case "load", "store":
		a := ev.Args[0]
		suf := ""
		switch {
		case a.Op == "idx":
			suf = "[]"
			if a.Sub[0].Op == "fld" {
				suf = "" // element of an array field
			}
		case a.Op == "fld" && !isRepoKey(own(a)):
			suf = "→" + shortKey(own(a)) + "." + a.Aux
		}
		add(a, suf, ev.Kind == "store", false)
	case "atomic":
		add(ev.Args[0], "", ev.Fn != "load", true)
	case "mapget", "maplen", "maprange":
		add(ev.Args[0], "{}", false, false)
	case "next":
		if len(ev.Args) > 1 {
			add(ev.Args[1], "{}", false, false)
		}
	case "mapset", "mapdel", "mapclear":
		add(ev.Args[0], "{}", true, false)
	case "sort":
		add(ev.Args[0], "[]", true, false)
	case "list":
		for i, x := range ev.Args {
			if i == 0 || x.Op != "const" {
				if i == 0 {
					add(x, "(list)", !readMethods[ev.Fn], false)
				}
			}
		}
	case "call", "pure", "iterate":
		if len(ev.Args) == 0 || ev.Args[0] == nil {
			return nil
		}
		x := ev.Args[0]
		k := ""
		if x.Typ != nil {
			k = typeKey(x.Typ)
		}
		m := callMethod(ev.Fn)
		switch {
		case unsafeTypes[k] && strings.HasPrefix(ev.Fn, "(*"):
			w := !readMethods[m]
			if strings.Contains(k, "lru.Cache") && m == "Get" {
				w = true
			}
			add(x, "("+m[:0]+"contents)", w, false)
		case strings.HasPrefix(ev.Fn, "invoke hash."):
			add(x, "(contents)", true, false)
		}
	}
	return out
}

// raceCheck: every two uses of one location that may run at the same time have a lock in common or are both atomic.
func (c *Ctx) raceCheck(pkgs []string, inScope func(string) bool, exempt map[string]string) {
	thisProg = c.P
	sh := newShared()
	by := map[string][]*access{}
	dedup := map[string]bool{}
	collect := func(outs []*Outcome) {
		far := map[*Event]bool{}
		for _, o := range outs {
			for _, f := range o.S.facts {
				if f.Truth && f.T.Op == "bin" && f.T.Aux == "==" && (f.T.Sub[0].Aux == maxU64 || f.T.Sub[1].Aux == maxU64) {
					// only after 2^64 increments
					for _, ev := range o.S.events {
						if ev.Kind == "store" || ev.Kind == "load" {
							if nf := ev.NF; nf <= len(o.S.facts) && hasFact(o.S.facts[:nf], f) {
								far[ev] = true
							}
						}
					}
				}
			}
		}
		walkEvents(outs, func(ev *Event) {
			if far[ev] && ev.Kind == "store" {
				return
			}
			for _, a := range accessesOf(ev, inScope) {
				a.pos = c.P.pos(ev.Pos)
				var ls []string
				for l, x := range a.locks {
					ls = append(ls, fmt.Sprint(l, x))
				}
				sort.Strings(ls)
				k := fmt.Sprint(a.loc, a.write, a.atomic, a.pos, ls)
				if dedup[k] {
					continue
				}
				dedup[k] = true
				by[a.loc] = append(by[a.loc], a)
			}
		})
	}
	done := map[*ssa.Function]bool{}
	var gos []*ssa.Function
	for _, f := range c.entryPoints(pkgs...) {
		if isThriftFn(f) || recordMethod(f) {
			continue
		}
		e := c.lockEngine(sh)
		outs := c.run(e, f)
		collect(outs)
		walkEvents(outs, func(ev *Event) {
			if ev.Kind == "go" && ev.Uses != nil && ev.Body == nil && !done[ev.Uses] {
				done[ev.Uses] = true
				gos = append(gos, ev.Uses)
			}
		})
	}
	for i := 0; i < len(gos); i++ { // bodies of goroutines started without a lock
		e := c.lockEngine(sh)
		outs := c.run(e, gos[i])
		collect(outs)
		walkEvents(outs, func(ev *Event) {
			if ev.Kind == "go" && ev.Uses != nil && ev.Body == nil && !done[ev.Uses] {
				done[ev.Uses] = true
				gos = append(gos, ev.Uses)
			}
		})
	}
	for _, s := range sh.order {
		if s.Err != nil {
			c.fail("%s: %v", fnName(s.Fn), s.Err)
		}
		c.account(s.Fn, s.Outs)
		collect(s.Outs)
	}
	var locs []string
	for l := range by {
		locs = append(locs, l)
	}
	sort.Strings(locs)
	for _, l := range locs {
		as := by[l]
		writes, reads := 0, 0
		for _, a := range as {
			if a.write {
				writes++
			}
			if !a.write || !constStore(a.ev) {
				reads++
			}
		}
		if reads == 0 && writes > 0 {
			c.sample("%s is only ever set to constants and never read", l)
			continue
		}
		c.counts["locations"]++
		c.counts["accesses"] += len(as)
		if writes == 0 {
			continue
		}
		c.sample("%s: %d accesses, %d writes", l, len(as), writes)
		if why, ok := exempt[l]; ok {
			c.sample("%s is exempt: %s", l, why)
			continue
		}
		for i, a := range as {
			for _, b := range as[i:] {
				if !a.write && !b.write || a.atomic && b.atomic {
					continue
				}
				c.counts["conflicting pairs"]++
				ok := false
				for n, ex := range a.locks {
					ey, has := b.locks[n]
					if has && (ex || !a.write) && (ey || !b.write) && (ex || ey) {
						ok = true
					}
				}
				if !ok {
					w, o := a, b
					if !w.write {
						w, o = b, a
					}
					c.viol("common-lock", w.fn, w.ev, nil, "%s is written here with %s and %s at %s (%s) with %s: no lock in common protects the two", l, lockList(w), map[bool]string{true: "written", false: "read"}[o.write], o.pos, fnName(o.fn), lockList(o))
				}
			}
		}
	}
}

// constStore: a plain store of a constant.
func constStore(ev *Event) bool {
	return ev.Kind == "store" && len(ev.Args) > 1 && ev.Args[1].isConst()
}

func lockList(a *access) string {
	if a.atomic {
		return "an atomic operation"
	}
	if len(a.locks) == 0 {
		return "no lock of its owner"
	}
	var r []string
	for l, ex := range a.locks {
		if ex {
			r = append(r, l)
		} else {
			r = append(r, l+" (shared)")
		}
	}
	sort.Strings(r)
	return strings.Join(r, ",")
}

func init() {
	checks["C01"] = checkDef{func(c *Ctx) {
		c.rule("common-lock: for every pair of accesses to one location (field, map contents, list, tree, cache or slice elements) of a shared object, at least one a write, either both are atomic or a mutex belonging to the same object is held at both, exclusively at the write")
		c.raceCheck([]string{"hashmap", "cache", "keystore"}, func(o string) bool {
			k := shortKey(o)
			return strings.HasPrefix(k, "hashmap.") || strings.HasPrefix(k, "cache.") || strings.HasPrefix(k, "keystore.")
		}, iterExempt)
	}, "path-sensitive lockset analysis (dataflow over SSA, callees inlined or summarised per set of held locks) of every exported operation of the containers and stores"}
	checks["C03"] = checkDef{func(c *Ctx) {
		c.rule("common-lock, over the fields of the locks, waiters, pools, files, maps, sockets and generators")
		c.raceCheck([]string{"lock", "pool/gopool", "pool/buffer", "fastio", "mmap", "websocket", "uuid", "gosignal", "hashmap", "cache"}, func(o string) bool { return true }, iterExempt)
	}, "path-sensitive lockset and atomicity analysis"}
	checks["C02"] = checkDef{c02, "path-sensitive typestate analysis of every mutex"}
}

const maxU64 = "18446744073709551615"

func hasFact(fs []Fact, f Fact) bool {
	for _, g := range fs {
		if g == f {
			return true
		}
	}
	return false
}

var iterExempt = map[string]string{
	"hashmap.LinkedHashMapIterator.current": "an iterator is the cursor of one goroutine; the map it walks is what is shared",
}

// lockAPI: the operations whose purpose is to hand a lock to the caller or take it back.
func lockAPI(f *ssa.Function) bool {
	if pkgOf(f) != "lock" || f.Signature.Recv() == nil {
		return false
	}
	switch shortKey(typeKey(f.Signature.Recv().Type())) {
	case "lock.Numlock", "lock.Strlock", "lock.LimitLock":
		return true
	}
	return false
}

func c02(c *Ctx) {
	c.rule("released: on every way out of an exported operation or goroutine body (return, panic of a callback, of an unhashable key, of a closed channel, of an index, slice bound, division or type assertion not shown to be safe, explicit panic) the locks held are those held on entry")
	c.rule("not-held: a lock is released only by a path that holds it, in the mode it is held in")
	c.rule("reentrant: a path does not lock again a mutex it holds")
	c.rule("handed-over: a goroutine that is given a lock releases it on every way out")
	sh := newShared()
	pk := map[string]bool{}
	for _, f := range c.P.Funcs {
		if usesLocks(f) {
			pk[pkgOf(f)] = true
		}
	}
	done := map[*ssa.Function]bool{}
	check := func(fn *ssa.Function, entry []Held, outs []*Outcome, api bool) {
		want := lockSig(entry)
		for _, o := range outs {
			if o.Kind != "loop" {
				c.ob("ways out")
				if !api && lockSig(o.S.locks) != want {
					extra, gone := diffLocks(entry, o.S.locks)
					how := o.Kind
					var at *Event
					if o.Kind == "panic" && o.P != nil {
						how = "panic (" + o.P.Kind + ")"
						at = o.P.Ev
					}
					for _, h := range extra {
						if at == nil {
							at = h.Ev
						}
						c.viol("released", fn, h.Ev, o, "%s leaves %s locked on the way out by %s", fnName(fn), h.Key, how)
					}
					for _, h := range gone {
						c.viol("not-held", fn, nil, o, "%s releases %s, which its caller holds, on the way out by %s", fnName(fn), h.Key, how)
					}
				}
			}
			for _, ev := range o.S.events {
				switch ev.Kind {
				case "lock", "rlock":
					c.counts["acquisitions on paths"]++
					if ev.Note == "reentrant" {
						for _, h := range ev.Locks {
							if h.Key == ev.Args[0] && (ev.Kind == "lock" || !h.Read) {
								c.viol("reentrant", fn, ev, o, "%s is locked again by the path that holds it", ev.Args[0])
							}
						}
					}
				case "unlock", "runlock":
					c.counts["releases on paths"]++
					if ev.Note != "" && !api {
						c.viol("not-held", fn, ev, o, "%s is released in a way it is not held (%s)", ev.Args[0], ev.Note)
					}
				case "go":
					if strings.HasPrefix(ev.Note, "mixed:") {
						c.viol("handed-over", fn, ev, o, "the goroutine releases %s on some of its ways out only", ev.Note[6:])
					}
				}
			}
		}
	}
	var pkgs []string
	for p := range pk {
		pkgs = append(pkgs, p)
	}
	sort.Strings(pkgs)
	c.counts["packages with locks"] = len(pkgs)
	var gos []*ssa.Function
	note := func(outs []*Outcome) {
		walkEvents(outs, func(ev *Event) {
			if ev.Kind == "go" && ev.Uses != nil && ev.Body == nil && !done[ev.Uses] {
				done[ev.Uses] = true
				gos = append(gos, ev.Uses)
			}
		})
	}
	for _, f := range c.entryPoints(pkgs...) {
		if isThriftFn(f) {
			continue
		}
		e := c.lockEngine(sh)
		e.Faults = true
		outs := c.run(e, f)
		check(f, nil, outs, lockAPI(f))
		note(outs)
	}
	for i := 0; i < len(gos); i++ {
		e := c.lockEngine(sh)
		e.Faults = true
		outs := c.run(e, gos[i])
		check(gos[i], nil, outs, false)
		note(outs)
	}
	for _, s := range sh.order {
		if s.Err != nil {
			c.fail("%s: %v", fnName(s.Fn), s.Err)
		}
		c.account(s.Fn, s.Outs)
		given := s.Locks
		if !s.Neutral { // a goroutine body that releases what it was given, or a helper that was inlined instead
			check(s.Fn, nil, onlyEvents(s.Outs), true)
			continue
		}
		check(s.Fn, given, s.Outs, false)
	}
	if c.counts["acquisitions on paths"] < 50 {
		c.fail("only %d acquisitions found", c.counts["acquisitions on paths"])
	}
}

func onlyEvents(outs []*Outcome) []*Outcome {
	return outs
}

func diffLocks(a, b []Held) (extra, gone []Held) {
	use := make([]bool, len(a))
	for _, h := range b {
		hit := false
		for i, g := range a {
			if !use[i] && g.Key == h.Key && g.Read == h.Read {
				use[i], hit = true, true
				break
			}
		}
		if !hit {
			extra = append(extra, h)
		}
	}
	for i, g := range a {
		if !use[i] {
			gone = append(gone, g)
		}
	}
	return
}

func usesLocks(f *ssa.Function) bool {
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			if ci, ok := in.(ssa.CallInstruction); ok {
				n := calleeName(ci.Common(), nil)
				if sc := ci.Common().StaticCallee(); sc != nil {
					n = sc.RelString(nil)
				}
				if strings.Contains(n, "Mutex)") || strings.Contains(n, "sync.Locker") {
					return true
				}
			}
		}
	}
	return false
}
