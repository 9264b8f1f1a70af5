package main

import (
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// ---------- C11: goroutine pool ----------

type poolCheck struct {
	c       *Ctx
	pool    *types.Named
	submit  *ssa.Function
	worker  *types.Named // what the idle queue holds
	queue   string       // the pool's channel of functions
	idle    string       // the pool's channel of workers
	task    string       // a worker's channel of functions
	rec     map[*ssa.Function]bool
	started map[*ssa.Function]bool // with go
	roots   []*ssa.Function
	outs    map[*ssa.Function][]*Outcome
	runs    map[*ssa.Function]bool // goroutines that take functions from their worker's channel
	serves  map[*ssa.Function]bool // functions that take from the pool's queue
	pending string                 // functions in the queue
	busy    map[string]bool        // counted up when handed to a worker, down by the worker
	min     string                 // workers that stay
	cmp     map[string]bool        // a worker's fields that decide whether it stays
	caps    map[string]bool        // fields that are the room among the idle
	bounds  map[string]bool        // fields that hold no more than a limit given
	flags   map[string][]flagTest  // why a worker is not taken back
	stops   bool                   // a worker may end when the pool is closed
}

type flagTest struct {
	val *Term
	eq  bool // refused when the flag has the value, or when it has not
}

func init() {
	checks["C11"] = checkDef{checkGoPool, "every function of the goroutine pool is followed on every path: what becomes of each function value, who takes it from where it was put, how the counters go with it"}
}

func funcChan(t types.Type) bool {
	if t == nil {
		return false
	}
	ch, ok := t.Underlying().(*types.Chan)
	return ok && plainFunc(ch.Elem())
}

// plainFunc: func().
func plainFunc(t types.Type) bool {
	if t == nil {
		return false
	}
	s, ok := t.Underlying().(*types.Signature)
	return ok && s.Params().Len() == 0 && s.Results().Len() == 0 && s.Recv() == nil
}

func structOf(n *types.Named) *types.Struct {
	if n == nil {
		return nil
	}
	st, _ := n.Underlying().(*types.Struct)
	return st
}

func checkGoPool(c *Ctx) {
	if c.load("") == nil {
		return
	}
	c.P = c.progs[""]
	thisProg = c.P
	w := &poolCheck{c: c, outs: map[*ssa.Function][]*Outcome{}, runs: map[*ssa.Function]bool{}, serves: map[*ssa.Function]bool{}, busy: map[string]bool{}, caps: map[string]bool{}, cmp: map[string]bool{}, bounds: map[string]bool{}, flags: map[string][]flagTest{}}
	c.rule("once: every function handed in or taken from a channel is, on every path, run once, started as a goroutine once, or put into one channel once")
	c.rule("served: a function put into the queue is counted, and then the dispatcher's lock is tried and a dispatcher started with it; whoever gives the lock back looks at the count afterwards and starts another if functions are left")
	c.rule("counted: a function taken from the queue is counted off once, one handed to a worker counted once and counted off once, after it ran")
	c.rule("handed: the worker given a function is one that waits for it or one started for it, its channel has room, and when the pool was closed meanwhile the function is taken back if the worker left it")
	c.rule("worker: after a function returned or panicked the worker goes back to the idle and goes on waiting, unless there are enough or the pool is closed; a worker that ends when the pool is closed looks at its channel a last time")
	c.rule("stop: whatever makes workers stay away from the idle also wakes those that wait for one")
	c.rule("limit: a worker is started only when a count is within one of the limits")
	c.rule("room: the queue holds at least one function and at least one worker stays")
	c.rule("panics: no operation of the pool and no goroutine of it panics, and no channel it sends on is closed")
	if !w.anchors() {
		return
	}
	w.findRoots()
	for _, f := range w.roots {
		e := c.engine()
		e.PanicAll, e.MaxPaths = true, 400000
		e.Opaque = func(g *ssa.Function) bool { return w.rec[g] }
		w.outs[f] = c.run(e, f)
	}
	w.learn()
	w.learnFlags()
	for _, f := range w.roots {
		for _, o := range w.outs[f] {
			if w.infeasible(o) {
				continue
			}
			c.ob("paths of the pool")
			if o.Kind == "panic" {
				w.panics(f, o)
			}
			w.once(f, o)
			w.counts(f, o)
			w.handed(f, o)
			w.waits(f, o)
			if w.runs[f] {
				w.work(f, o)
			}
			w.served(f, o)
			w.stop(f, o)
			w.limit(f, o)
		}
	}
	w.room()
}

func (w *poolCheck) anchors() bool {
	c := w.c
	const pkg = "pool/gopool"
	w.submit = c.pub(pkg, "GoPool", "Go")
	w.pool = c.P.named(pkg, "GoPool")
	if w.submit == nil || w.pool == nil {
		return false
	}
	st := structOf(w.pool)
	for i := 0; st != nil && i < st.NumFields(); i++ {
		f := st.Field(i)
		if funcChan(f.Type()) {
			w.queue = f.Name()
		} else if ch, ok := f.Type().Underlying().(*types.Chan); ok {
			if n := namedOf(ch.Elem()); n != nil && isPtrTo(ch.Elem()) != nil {
				if ws := structOf(n); ws != nil {
					for j := 0; j < ws.NumFields(); j++ {
						if funcChan(ws.Field(j).Type()) {
							w.worker, w.idle, w.task = n, f.Name(), ws.Field(j).Name()
						}
					}
				}
			}
		}
	}
	if w.queue == "" || w.worker == nil {
		c.fail("the pool's queue of functions and its queue of workers are not found")
		return false
	}
	return true
}

// findRoots: the exported functions, what is started as a goroutine, and what calls itself.
func (w *poolCheck) findRoots() {
	c := w.c
	w.rec, w.started = map[*ssa.Function]bool{}, map[*ssa.Function]bool{}
	calls := map[*ssa.Function][]*ssa.Function{}
	var fns []*ssa.Function
	for _, f := range c.P.Funcs {
		if pkgOf(f) == "pool/gopool" && len(f.Blocks) > 0 {
			fns = append(fns, f)
		}
	}
	for _, f := range fns {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				ci, ok := in.(ssa.CallInstruction)
				if !ok {
					continue
				}
				g := ci.Common().StaticCallee()
				if g == nil || len(g.Blocks) == 0 || pkgOf(g) != "pool/gopool" {
					continue
				}
				if _, isGo := in.(*ssa.Go); isGo {
					w.started[g] = true
				} else {
					calls[f] = append(calls[f], g)
				}
			}
		}
		for _, a := range f.AnonFuncs {
			calls[f] = append(calls[f], a)
		}
	}
	for _, f := range fns {
		seen := map[*ssa.Function]bool{}
		var visit func(g *ssa.Function)
		visit = func(g *ssa.Function) {
			for _, h := range calls[g] {
				if h == f && f.Parent() == nil && g != nil {
					w.rec[f] = true
				}
				if !seen[h] {
					seen[h] = true
					visit(h)
				}
			}
		}
		visit(f)
	}
	// of functions that call one another, one is enough
	for _, f := range fns {
		// a closure may be started by what it was handed to
		if f.Parent() != nil && plainFunc(f.Signature) && w.handedOn(f) {
			w.started[f] = true
		}
	}
	in := map[*ssa.Function]bool{}
	add := func(f *ssa.Function) {
		if !in[f] {
			in[f] = true
			w.roots = append(w.roots, f)
		}
	}
	for _, f := range c.entryPoints("pool/gopool") {
		add(f)
	}
	for _, f := range fns {
		if w.started[f] || w.rec[f] {
			add(f)
		}
	}
}

// handedOn: the closure is put into a channel.
func (w *poolCheck) handedOn(f *ssa.Function) bool {
	for _, b := range f.Parent().Blocks {
		for _, in := range b.Instrs {
			switch x := in.(type) {
			case *ssa.Send:
				if mc, ok := x.X.(*ssa.MakeClosure); ok && mc.Fn == ssa.Value(f) {
					return true
				}
			case *ssa.Go:
				if mc, ok := x.Call.Value.(*ssa.MakeClosure); ok && mc.Fn == ssa.Value(f) {
					return true
				}
			}
		}
	}
	return false
}

// fieldOf: the address of a field of the type; whose it is.
func memberOf(a *Term, n *types.Named) (of *Term, name string) {
	if a == nil || a.Op != "fld" || namedOf(a.Sub[0].Typ) != n && own(a) != typeKey(n) {
		return nil, ""
	}
	return a.Sub[0], a.Aux
}

// chanRole: which of the pool's channels the term is, and for a worker's channel whose.
func (w *poolCheck) chanRole(o *Outcome, ch *Term) (role string, of *Term) {
	var look func(a *Term) (string, *Term)
	look = func(a *Term) (string, *Term) {
		if p, name := memberOf(a, w.pool); p != nil {
			switch name {
			case w.queue:
				return "queue", p
			case w.idle:
				return "idle", p
			}
		}
		if p, name := memberOf(a, w.worker); p != nil && name == w.task {
			return "task", p
		}
		return "", nil
	}
	ch = stripConv(ch)
	if ch.Op == "init" {
		if r, p := look(ch.Sub[0]); r != "" {
			return r, p
		}
	}
	if ch.Op == "obj" {
		for a, v := range o.S.mem {
			if stripConv(v) == ch {
				if r, p := look(a); r != "" {
					return r, p
				}
			}
		}
	}
	// read again later
	for _, ev := range o.S.events {
		if ev.Kind == "load" && ev.Res == ch {
			if r, p := look(ev.Args[0]); r != "" {
				return r, p
			}
		}
	}
	return "", nil
}

// taken: what the event receives, and from which channel.
func taken(ev *Event) (v, ch *Term) {
	switch {
	case ev.Kind == "recv":
		return callRes(ev, 0), ev.Args[0]
	case ev.Kind == "select" && ev.Note == "recv":
		return ev.Res, ev.Args[0]
	}
	return nil, nil
}

// put: what the event sends, and into which channel.
func given(ev *Event) (v, ch *Term) {
	if ev.Kind == "send" || ev.Kind == "select" && ev.Note == "send" {
		return ev.Args[1], ev.Args[0]
	}
	return nil, nil
}

// counter: the event changes a counter of the pool by a constant.
func (w *poolCheck) counter(ev *Event) (name string, by int64) {
	if ev.Kind != "atomic" || ev.Fn != "add" || len(ev.Args) < 2 {
		return "", 0
	}
	_, name = memberOf(ev.Args[0], w.pool)
	k, ok := ev.Args[1].intVal()
	if name == "" || !ok {
		return "", 0
	}
	return name, k
}

// stopped: the event shows that the pool is closed: a channel that carries neither functions nor workers is ready, or
// the context has an error.
func (w *poolCheck) stopped(o *Outcome, ev *Event) bool {
	if v, ch := taken(ev); ch != nil && ev.Kind == "select" && v != nil {
		if r, _ := w.chanRole(o, ch); r == "" && !funcChan(ch.Typ) {
			return true
		}
	}
	return isCtxErr(ev) && o.S.nilErr(callRes(ev, 0)) == 0
}

func isCtxErr(ev *Event) bool {
	return (ev.Kind == "call" || ev.Kind == "pure") && strings.HasSuffix(ev.Fn, "context.Context.Err")
}

func lastLoopEv(o *Outcome) int {
	l := -1
	for i, ev := range o.S.events {
		if ev.Kind == "loop" {
			l = i
		}
	}
	return l
}

// infeasible: a sync.Once that was made on the path did not run its function the first time, or a worker taken from the
// idle is nil: only workers themselves are put there.
func (w *poolCheck) infeasible(o *Outcome) bool {
	first := map[*Term]bool{}
	for i, ev := range o.S.events {
		if v, ch := taken(ev); ch != nil && v != nil && v.Typ != nil && namedOf(v.Typ) == w.worker && o.S.nilErr(v) == 1 {
			return true
		}
		if ev.Kind != "once" || first[ev.Args[0]] {
			continue
		}
		first[ev.Args[0]] = true
		if r := ev.Args[0].root(); r.Op != "obj" || r.Obj.Kind != "alloc" {
			continue
		}
		if i+1 < len(o.S.events) && o.S.events[i+1].Kind == "once" && o.S.events[i+1].Fn == "skip" {
			return true
		}
	}
	return false
}

// learn: the roles of goroutines, counters and flags.
func (w *poolCheck) learn() {
	c := w.c
	all := func(f func(r *ssa.Function, o *Outcome, i int, ev *Event)) {
		for _, r := range w.roots {
			for _, o := range w.outs[r] {
				if w.infeasible(o) {
					continue
				}
				for i, ev := range o.S.events {
					f(r, o, i, ev)
				}
			}
		}
	}
	all(func(r *ssa.Function, o *Outcome, i int, ev *Event) {
		if _, ch := taken(ev); ch != nil && w.started[r] {
			if role, of := w.chanRole(o, ch); role == "task" && of.Op == "param" {
				w.runs[r] = true
			}
		}
	})
	all(func(r *ssa.Function, o *Outcome, i int, ev *Event) {
		if _, ch := taken(ev); ch != nil && !w.runs[r] {
			if role, _ := w.chanRole(o, ch); role == "queue" {
				w.serves[r] = true
			}
		}
	})
	for range w.roots {
		all(func(r *ssa.Function, o *Outcome, i int, ev *Event) {
			if ev.Kind == "repocall" && w.serves[ev.Uses] {
				w.serves[r] = true
			}
		})
	}
	up, down := map[string]bool{}, map[string]bool{}
	all(func(r *ssa.Function, o *Outcome, i int, ev *Event) {
		if name, by := w.counter(ev); name != "" {
			if by == 1 {
				up[name] = true
			}
			if by == -1 {
				down[name] = true
			}
			if by == 1 && r == w.submit {
				w.pending = name
			}
		}
		if w.runs[r] && w.stopped(o, ev) {
			w.stops = true
		}
	})
	for n := range up {
		if down[n] && n != w.pending {
			w.busy[n] = true
		}
	}
	if len(w.runs) == 0 || len(w.serves) == 0 {
		c.fail("no goroutine takes functions from a worker's channel or from the queue")
	}
	// the constructors
	for _, f := range w.roots {
		for _, o := range w.outs[f] {
			if p := w.made(o); p != nil {
				w.construct(f, o, p)
			}
		}
	}
	for n, is := range w.caps {
		if is && n != w.pending && !w.busy[n] && (w.min == "" || n < w.min) {
			w.min = n
		}
	}
}

// made: the pool the path returns and made itself.
func (w *poolCheck) made(o *Outcome) *Term {
	if o.Kind != "return" {
		return nil
	}
	for _, r := range o.Ret {
		if r != nil && r.Op == "obj" && r.Typ != nil && namedOf(r.Typ) == w.pool {
			return r
		}
	}
	return nil
}

func (w *poolCheck) construct(f *ssa.Function, o *Outcome, p *Term) {
	var idleCap *Term
	for a, v := range o.S.mem {
		if of, name := memberOf(a, w.pool); of == p && name == w.idle && v.Op == "obj" && v.Obj.Cap != nil {
			idleCap = stripConv(v.Obj.Cap)
		}
	}
	for a, v := range o.S.mem {
		of, name := memberOf(a, w.pool)
		if of != p || !intLike(v) {
			continue
		}
		if idleCap != nil {
			if is, had := w.caps[name]; !had || is {
				w.caps[name] = stripConv(v) == idleCap
			}
		}
		ok := true
		for _, l := range leaves(v) {
			if k, isInt := l.intVal(); !(l.Op == "param" || isInt && k <= 1 && k != 0) {
				ok = false
			}
		}
		if was, had := w.bounds[name]; ok && (!had || was) {
			w.bounds[name] = true
		} else {
			w.bounds[name] = false
		}
	}
}

func leaves(t *Term) []*Term {
	t = stripConv(t)
	if t.Op == "app" || t.Op == "ite" {
		var r []*Term
		for _, s := range t.Sub {
			r = append(r, leaves(s)...)
		}
		return r
	}
	return []*Term{t}
}

// ---------- the rules ----------

func (w *poolCheck) panics(f *ssa.Function, o *Outcome) {
	c := w.c
	c.ob("panics followed")
	if o.P != nil && o.P.Ev != nil && o.P.Ev.Kind == "dyncall" && !w.runs[f] && !w.serves[f] && f.Parent() != nil {
		return // a goroutine started for the function alone
	}
	if o.P != nil && o.P.Ev != nil && o.P.Ev.Kind == "dyncall" && types.TypeString(o.P.Ev.Args[0].Typ, nil) == "context.CancelFunc" {
		return // does not panic
	}
	c.viol("panics", f, evOf(o), o, "%s may panic", fnName(f))
}

func evOf(o *Outcome) *Event {
	if o.P != nil {
		return o.P.Ev
	}
	return nil
}

// once: what becomes of every function value.
func (w *poolCheck) once(f *ssa.Function, o *Outcome) {
	c := w.c
	type tok struct {
		at   int
		ev   *Event
		used int
		kind string
		last *Event
	}
	toks := map[*Term]*tok{}
	var order []*Term
	born := func(v *Term, i int, ev *Event, kind string) {
		if v == nil || v == tNil || o.S.nilErr(v) == 1 {
			return
		}
		if toks[v] == nil {
			toks[v] = &tok{at: i, ev: ev, kind: kind}
			order = append(order, v)
		}
	}
	for i, p := range paramTerms(f) {
		if plainFunc(f.Params[i].Type()) {
			born(p, -1, nil, "handed in")
		}
	}
	for _, p := range f.FreeVars {
		t := p.Type()
		if el := isPtrTo(t); el != nil {
			t = el
		}
		if plainFunc(t) {
			for _, v := range w.freeVals(o, p) {
				born(v, -1, nil, "captured")
			}
		}
	}
	uses := func(t *Term, v *Term) bool {
		t = stripConv(t)
		return t == v || t.Op == "closure" && mentionsIn(o, t, v)
	}
	use := func(v *Term, ev *Event) {
		toks[v].used++
		if toks[v].used > 1 {
			c.viol("once", f, ev, o, "a function %s is run or passed on more than once (before at %s)", toks[v].kind, c.P.pos(toks[v].last.Pos))
		}
		toks[v].last = ev
	}
	loop := lastLoopEv(o)
	for i, ev := range o.S.events {
		for _, v := range order {
			switch ev.Kind {
			case "dyncall":
				if uses(ev.Args[0], v) {
					use(v, ev)
				}
			case "go", "repocall":
				for _, a := range ev.Args {
					if uses(a, v) {
						use(v, ev)
					}
				}
			case "call":
				for _, a := range ev.Args {
					if uses(a, v) && strings.HasSuffix(ev.Fn, "AfterFunc") {
						use(v, ev)
					}
				}
			case "loop":
				for _, sy := range ev.Loop.syms {
					if sy != nil && sy.Sym != nil && sy.Sym.First == v && plainFunc(sy.Typ) {
						use(v, ev)
					}
				}
			}
			if x, ch := given(ev); ch != nil && uses(x, v) {
				use(v, ev)
				if r, _ := w.chanRole(o, ch); r == "" {
					c.viol("once", f, ev, o, "a function is put into %s, which is not one of the pool's channels", ch)
				}
			}
		}
		if v, ch := taken(ev); ch != nil && v != nil && plainFunc(v.Typ) {
			c.ob("functions taken from a channel")
			born(v, i, ev, "taken at "+c.P.pos(ev.Pos))
		}
		if ev.Kind == "loop" {
			for _, sy := range ev.Loop.syms {
				if sy != nil && sy.Sym != nil && plainFunc(sy.Typ) {
					born(sy, i, ev, "carried round the loop")
				}
			}
		}
	}
	for _, v := range order {
		t := toks[v]
		c.ob("functions followed")
		if t.used > 0 {
			continue
		}
		if o.Kind == "loop" {
			if t.at < loop {
				continue // later iterations
			}
			carried := false
			for _, sy := range o.S.events[loop].Loop.syms {
				if sy != nil && sy.Sym != nil {
					for _, n := range sy.Sym.Nexts {
						carried = carried || n == v
					}
				}
			}
			if carried {
				continue
			}
		}
		if o.Kind == "return" && returned(o, v) {
			continue
		}
		c.viol("once", f, t.ev, o, "a function %s is neither run nor passed on", t.kind)
	}
}

func returned(o *Outcome, v *Term) bool {
	for _, r := range o.Ret {
		if r == v {
			return true
		}
	}
	return false
}

// freeVals: the values of a captured variable.
func (w *poolCheck) freeVals(o *Outcome, p *ssa.FreeVar) (r []*Term) {
	for _, ev := range o.S.events {
		if ev.Kind == "load" && ev.Res != nil && plainFunc(ev.Res.Typ) && ev.Args[0].root() == mkT("param", "free:"+p.Name(), p.Type()) {
			return []*Term{ev.Res}
		}
		if (ev.Kind == "dyncall" || ev.Kind == "go") && ev.Args[0].root() == mkT("param", "free:"+p.Name(), p.Type()) {
			return []*Term{ev.Args[0]}
		}
	}
	return nil
}

// mentionsIn: the closure captured the value, or a variable that holds it.
func mentionsIn(o *Outcome, t, v *Term) bool {
	found := false
	t.walk(func(x *Term) bool {
		if x == v || o.S.mem[x] == v {
			found = true
		}
		return !found
	})
	return found
}

// diffs: takings from the queue and countings-off, and handings-over and countings.
func (w *poolCheck) counts(f *ssa.Function, o *Outcome) {
	c := w.c
	if f == w.submit || w.runs[f] {
		return
	}
	pend, busy := 0, map[string]int{}
	lp, lb := 0, map[string]int{}
	stop := false
	var last *Event
	for _, ev := range o.S.events {
		if w.stopped(o, ev) {
			stop = true
		}
		if _, ch := taken(ev); ch != nil {
			if r, _ := w.chanRole(o, ch); r == "queue" {
				pend++
				last = ev
				c.ob("functions taken from the queue")
			}
		}
		if _, ch := given(ev); ch != nil {
			switch r, _ := w.chanRole(o, ch); r {
			case "task":
				for n := range w.busy {
					busy[n]--
				}
				last = ev
			case "queue":
				pend--
			}
		}
		if n, by := w.counter(ev); n != "" {
			if n == w.pending {
				pend += int(by)
			} else if w.busy[n] {
				busy[n] += int(by)
			}
		}
		if ev.Kind == "loop" {
			lp = pend
			lb = map[string]int{}
			for n, k := range busy {
				lb[n] = k
			}
		}
	}
	if o.Kind != "loop" {
		lp, lb = 0, map[string]int{}
	}
	if pend != lp && o.Kind != "panic" {
		c.viol("counted", f, last, o, "the count of waiting functions does not go with the functions taken from the queue (%+d)", lp-pend)
	}
	for n := range w.busy {
		if busy[n] != lb[n] && !stop && o.Kind != "panic" {
			c.viol("counted", f, last, o, "the count %s does not go with the functions handed to workers (%+d)", n, busy[n]-lb[n])
		}
	}
}

// handed: giving a worker a function.
func (w *poolCheck) handed(f *ssa.Function, o *Outcome) {
	c := w.c
	for i, ev := range o.S.events {
		_, ch := given(ev)
		if ch == nil {
			continue
		}
		role, of := w.chanRole(o, ch)
		if role != "task" {
			continue
		}
		c.ob("functions handed to a worker")
		// where the worker is from
		var got, started, once *Event
		for j, x := range o.S.events {
			if v, cc := taken(x); cc != nil && v == of && j < i {
				if r, _ := w.chanRole(o, cc); r == "idle" {
					got = x
				}
			}
			if x.Kind == "once" && x.Fn != "skip" && x.Args[0].root() == of.root() && fieldHolder(x.Args[0]) == of {
				once = x
			}
			if x.Kind == "go" && w.runs[x.Uses] && len(x.Args) > 1 && x.Args[1] == of {
				if started != nil {
					c.viol("handed", f, x, o, "the worker is started twice")
				}
				started = x
				if got != nil && (once == nil || once.N > x.N) {
					c.viol("handed", f, x, o, "a worker taken from the idle is started again")
				}
			}
		}
		fresh := of.Op == "obj" && of.Obj.Kind == "alloc"
		switch {
		case fresh && started == nil:
			c.viol("handed", f, ev, o, "a function is given to a new worker that is not started")
			continue
		case !fresh && got == nil:
			c.viol("handed", f, ev, o, "a function is given to a worker that is neither new nor taken from the idle")
			continue
		case fresh && started.N > ev.N && ev.Kind == "send":
			if v := stripConv(ch); v.Op != "obj" || v.Obj.Cap == nil || !o.S.arith().le(tInt(1), v.Obj.Cap, 0) {
				c.viol("handed", f, ev, o, "a function is given to a worker before it is started, and its channel has no room")
			}
		}
		if ev.Kind == "select" && ev.Fn == "nonblocking" {
			continue
		}
		if w.stops {
			c.ob("hand-overs that may race with closing")
			seen := false
			for _, x := range o.S.events[i+1:] {
				switch {
				case isCtxErr(x) && o.S.nilErr(callRes(x, 0)) == 1:
					seen = true
				case x.Kind == "select" && x.Fn == "nonblocking":
					for _, a := range x.Args {
						if r, of2 := w.chanRole(o, a); r == "task" && of2 == of {
							seen = true
						}
					}
					if x.Note == "default" && len(x.Args) == 1 {
						if r, _ := w.chanRole(o, x.Args[0]); r == "" {
							seen = true
						}
					}
				}
			}
			if !seen {
				c.viol("handed", f, ev, o, "a worker that left because the pool was closed keeps the function given to it: nobody takes it back")
			}
		}
	}
}

func fieldHolder(a *Term) *Term {
	if a.Op == "fld" {
		return a.Sub[0]
	}
	return nil
}

// waits: waiting for an idle worker with a function in hand.
func (w *poolCheck) waits(f *ssa.Function, o *Outcome) {
	c := w.c
	for _, ev := range o.S.events {
		var chs []*Term
		switch {
		case ev.Kind == "recv":
			chs = ev.Args[:1]
		case ev.Kind == "select" && ev.Fn == "blocking" && ev.Note == "recv":
			chs = ev.Args[1:]
		default:
			continue
		}
		idle, other := false, false
		for _, ch := range chs {
			switch r, _ := w.chanRole(o, ch); r {
			case "idle":
				idle = true
			case "":
				other = true
			}
		}
		if idle {
			c.ob("waits for an idle worker")
			if !other && len(w.flags) > 0 {
				c.viol("stop", f, ev, o, "an idle worker is waited for even if none comes back because the pool was closed")
			}
		}
	}
}

// work: what a worker does after each function.
func (w *poolCheck) work(f *ssa.Function, o *Outcome) {
	c := w.c
	var self *Term
	stop, look := false, false
	type runT struct {
		ev       *Event
		stop     bool
		pub      *Event
		cont     *Event
		refused  bool
		counted  map[string]int
		received bool
	}
	var rs []*runT
	var cur *runT
	for _, ev := range o.S.events {
		if v, ch := taken(ev); ch != nil && v != nil {
			if r, of := w.chanRole(o, ch); r == "task" {
				self = of
				if cur != nil && cur.cont == nil {
					cur.cont = ev
				}
			}
		}
		if ev.Kind == "loop" && cur != nil {
			cur.cont = ev
		}
		if w.stopped(o, ev) {
			stop = true
			if ev.Kind == "select" {
				look = true // it was among the idle
			}
		}
		if ev.Kind == "select" && ev.Fn == "nonblocking" && stop {
			for _, a := range ev.Args {
				if r, _ := w.chanRole(o, a); r == "task" {
					look = false
				}
			}
		}
		if ev.Kind == "dyncall" && len(ev.Args) == 1 && plainFunc(ev.Args[0].Typ) {
			cur = &runT{ev: ev, stop: stop, counted: map[string]int{}}
			rs = append(rs, cur)
			continue
		}
		if n, by := w.counter(ev); n != "" && w.busy[n] {
			if cur == nil {
				c.viol("counted", f, ev, o, "a worker is counted off before the function has run")
				return
			}
			cur.counted[n] += int(by)
		}
		if v, ch := given(ev); ch != nil {
			if r, _ := w.chanRole(o, ch); r == "idle" {
				if cur == nil {
					c.viol("worker", f, ev, o, "a worker is idle twice")
					return
				}
				if self != nil && v != self {
					c.viol("worker", f, ev, o, "another worker is put among the idle")
				}
				cur.pub = ev
			}
		}
		if ev.Kind == "go" && w.runs[ev.Uses] && cur != nil && len(ev.Args) > 1 && (self == nil || ev.Args[1] == self) {
			if cur.cont != nil {
				c.viol("worker", f, ev, o, "a worker is started again while it goes on")
			}
			cur.cont = ev
		}
	}
	if look && o.Kind == "return" {
		c.viol("worker", f, nil, o, "a worker ends when the pool is closed without a last look at its channel")
	}
	for i, r := range rs {
		c.ob("runs followed")
		lastRun := i == len(rs)-1
		if o.Kind == "loop" && lastRun && r.cont == nil {
			r.cont = r.ev // goes round
		}
		if r.stop || o.Kind == "panic" {
			continue
		}
		for n := range w.busy {
			if r.counted[n] != -1 {
				c.viol("counted", f, r.ev, o, "after a function ran, the count %s is changed by %+d", n, r.counted[n])
			}
		}
		switch {
		case r.pub != nil && r.cont == nil:
			c.viol("worker", f, r.pub, o, "the worker is put among the idle and ends")
		case r.pub == nil && r.cont != nil:
			c.viol("worker", f, r.cont, o, "the worker waits without being among the idle: nobody gives it anything")
		case r.pub != nil:
			if self != nil && !w.stays(o, self, true) {
				c.viol("worker", f, r.pub, o, "a worker beyond those that stay is put among the idle")
			}
		case !w.stays(o, self, false) && !w.refused(o, r.ev):
			c.viol("worker", f, r.ev, o, "a worker that should stay ends")
		}
	}
}

// stays: the worker's number is known to be within those that stay, or beyond.
func (w *poolCheck) stays(o *Outcome, self *Term, within bool) bool {
	if self == nil || w.min == "" {
		return false
	}
	ar := o.S.arith()
	var nums, mins []*Term
	for _, fc := range o.S.facts {
		fc.T.walk(func(x *Term) bool {
			if x.Op == "init" {
				if of, _ := memberOf(x.Sub[0], w.worker); of == self {
					nums = append(nums, x)
				}
				if _, n := memberOf(x.Sub[0], w.pool); n == w.min {
					mins = append(mins, x)
				}
			}
			return true
		})
	}
	for _, n := range nums {
		for _, m := range mins {
			if within && ar.le(n, m, 0) || !within && ar.le(m, n, -1) {
				return true
			}
		}
	}
	return false
}

// refused: a flag was found set after the run, which is remembered.
func (w *poolCheck) refused(o *Outcome, run *Event) bool {
	for _, ev := range o.S.events[run.N+1:] {
		if isCtxErr(ev) && o.S.nilErr(callRes(ev, 0)) == 0 || w.stopped(o, ev) {
			return true
		}
		if _, ok := w.flagOf(o, ev); ok {
			return true
		}
	}
	return false
}

// flagOf: the test of a flag of the pool, and what was found.
func (w *poolCheck) flagOf(o *Outcome, ev *Event) (name string, ok bool) {
	if ev.Kind != "atomic" || len(ev.Args) == 0 {
		return "", false
	}
	_, name = memberOf(ev.Args[0], w.pool)
	if name == "" || name == w.pending || w.busy[name] {
		return "", false
	}
	return name, ev.Fn == "cas" && ev.Note == "lost" || ev.Fn == "load"
}

// learnFlags: why workers are not taken back.
func (w *poolCheck) learnFlags() {
	for f := range w.runs {
		for _, o := range w.outs[f] {
			pub := false
			var at *Event
			for _, ev := range o.S.events {
				if ev.Kind == "dyncall" && len(ev.Args) == 1 {
					at, pub = ev, false
				}
				if _, ch := given(ev); ch != nil {
					if r, _ := w.chanRole(o, ch); r == "idle" {
						pub = true
					}
				}
			}
			if at == nil || pub || o.Kind != "return" {
				continue
			}
			for _, ev := range o.S.events[at.N:] {
				name, ok := w.flagOf(o, ev)
				if !ok {
					continue
				}
				switch ev.Fn {
				case "cas":
					w.flags[name] = append(w.flags[name], flagTest{ev.Args[1], false})
				case "load":
					switch o.S.truth(ev.Res) {
					case 1:
						w.flags[name] = append(w.flags[name], flagTest{tTrue, true})
					case 0:
						w.flags[name] = append(w.flags[name], flagTest{tFalse, true})
					default:
						for _, fc := range o.S.facts {
							if fc.T.Op == "bin" && fc.T.Aux == "==" && (fc.T.Sub[0] == ev.Res || fc.T.Sub[1] == ev.Res) {
								v := fc.T.Sub[0]
								if v == ev.Res {
									v = fc.T.Sub[1]
								}
								w.flags[name] = append(w.flags[name], flagTest{v, fc.Truth})
							}
						}
					}
				}
			}
		}
	}
}

// stop: setting a flag that keeps workers from coming back.
func (w *poolCheck) stop(f *ssa.Function, o *Outcome) {
	c := w.c
	for _, ev := range o.S.events {
		if ev.Kind != "atomic" {
			continue
		}
		_, name := memberOf(ev.Args[0], w.pool)
		tests := w.flags[name]
		if len(tests) == 0 {
			continue
		}
		var v *Term
		switch {
		case ev.Fn == "store" || ev.Fn == "swap":
			v = ev.Args[1]
		case ev.Fn == "cas" && ev.Note != "lost" && ev.Args[1] != ev.Args[2]:
			v = ev.Args[2]
		default:
			continue
		}
		refuse := false
		for _, t := range tests {
			if t.eq == (t.val == v) || v.Op != "const" {
				refuse = true
			}
		}
		if !refuse {
			continue
		}
		c.ob("settings of the flag that keeps workers away")
		signal := false
		for _, x := range o.S.events {
			if x.Kind == "dyncall" && x.Args[0].Op == "init" {
				if p, _ := memberOf(x.Args[0].Sub[0], w.pool); p != nil {
					signal = true
				}
			}
			if x.Kind == "close" {
				signal = true
			}
		}
		if !signal {
			c.viol("stop", f, ev, o, "workers are kept from coming back, but those that wait for one are not told")
		}
	}
	for _, ev := range o.S.events {
		if ev.Kind == "close" {
			c.ob("channels closed")
			if r, _ := w.chanRole(o, ev.Args[0]); r != "" {
				c.viol("panics", f, ev, o, "a channel that others send on is closed")
			}
		}
	}
}

// served: the dispatcher's lock.
func (w *poolCheck) served(f *ssa.Function, o *Outcome) {
	c := w.c
	if o.Kind == "loop" {
		return
	}
	n := len(o.S.events)
	isLock := func(ev *Event) bool {
		p, _ := memberOf(lockField(ev.Args[0]), w.pool)
		return p != nil
	}
	// tried: from the event on the lock is tried, and with it a dispatcher started
	tried := func(from int) bool {
		for i := from; i < n; i++ {
			ev := o.S.events[i]
			switch {
			case ev.Kind == "tryfail" && isLock(ev):
				return true
			case ev.Kind == "lock" && isLock(ev):
				for _, x := range o.S.events[i:] {
					if x.Kind == "go" && x.Uses != nil && w.serves[x.Uses] {
						return true
					}
					if x.Kind == "unlock" {
						break
					}
				}
			}
		}
		return false
	}
	sent, counted := -1, -1
	for i, ev := range o.S.events {
		if _, ch := given(ev); ch != nil {
			if r, _ := w.chanRole(o, ch); r == "queue" {
				sent = i
			}
		}
		if nm, by := w.counter(ev); nm == w.pending && by == 1 {
			counted = i
		}
	}
	if sent >= 0 {
		c.ob("functions put into the queue")
		if counted < 0 {
			c.viol("served", f, o.S.events[sent], o, "a function is put into the queue without being counted")
		} else if !tried(max(sent, counted) + 1) {
			c.viol("served", f, o.S.events[sent], o, "after the function was put into the queue and counted, no dispatcher is seen to")
		}
	}
	for i, ev := range o.S.events {
		if ev.Kind == "go" && ev.Uses != nil && w.serves[ev.Uses] && i > 0 {
			held := false
			for _, h := range ev.Locks {
				p, _ := memberOf(lockField(h.Key), w.pool)
				held = held || p != nil
			}
			if held && !w.releases(ev.Uses) {
				c.viol("served", f, ev, o, "the dispatcher started with the lock never gives it back")
			}
		}
		if !w.serves[f] || ev.Kind != "select" || ev.Note != "recv" || !w.stopped(o, ev) {
			continue
		}
		from := false
		for _, a := range ev.Args[1:] {
			if r, _ := w.chanRole(o, a); r == "queue" {
				from = true
			}
		}
		if !from {
			continue
		}
		c.ob("dispatchers that find the pool closed")
		again := false
		for _, x := range o.S.events[i+1:] {
			if x.Kind == "select" || x.Kind == "recv" {
				for _, a := range x.Args {
					if r, _ := w.chanRole(o, a); r == "queue" {
						again = true
					}
				}
			}
		}
		if !again {
			c.viol("served", f, ev, o, "when the pool is closed, the functions in the queue are left there")
		}
	}
	un := -1
	for i, ev := range o.S.events {
		if ev.Kind == "unlock" && isLock(ev) {
			un = i
		}
	}
	if un >= 0 {
		c.ob("releases of the dispatcher's lock")
		looked := false
		for _, ev := range o.S.events[un+1:] {
			if ev.Kind == "atomic" && (ev.Fn == "load" || ev.Fn == "add") {
				if _, nm := memberOf(ev.Args[0], w.pool); nm == w.pending && ev.Res != nil && o.S.arith().le(ev.Res, tZero, 0) {
					looked = true
				}
			}
		}
		if !looked && !tried(un+1) && o.Kind != "panic" {
			c.viol("served", f, o.S.events[un], o, "the dispatcher's lock is given back, and a function that came in meanwhile is left waiting")
		}
	}
	if w.serves[f] {
		for _, ev := range o.S.events {
			if ev.Kind == "dyncall" && len(ev.Args) == 1 && plainFunc(ev.Args[0].Typ) && ev.Args[0].Op != "init" {
				c.viol("served", f, ev, o, "the dispatcher runs a function itself, and the others wait for it")
			}
		}
	}
}

// releases: the goroutine gives the pool's lock back on every way out.
func (w *poolCheck) releases(f *ssa.Function) bool {
	for _, o := range w.outs[f] {
		if o.Kind == "loop" {
			continue
		}
		un := false
		for _, ev := range o.S.events {
			if ev.Kind == "unlock" {
				p, _ := memberOf(lockField(ev.Args[0]), w.pool)
				un = un || p != nil
			}
		}
		if !un {
			return false
		}
	}
	return true
}

func lockField(a *Term) *Term {
	if a.Op == "init" {
		return a.Sub[0]
	}
	return a
}

// limit: starting workers.
func (w *poolCheck) limit(f *ssa.Function, o *Outcome) {
	c := w.c
	ar := o.S.arith()
	for i, ev := range o.S.events {
		if ev.Kind != "go" || !w.runs[ev.Uses] || len(ev.Args) < 2 {
			continue
		}
		t := ev.Args[1]
		if t.Op != "obj" || t.Obj.Kind != "alloc" {
			continue // a worker that is there already
		}
		c.ob("workers started")
		ok := false
		for _, x := range o.S.events[:i] {
			if n, by := w.counter(x); n == "" || by != 1 || n == w.pending || x.Res == nil {
				continue
			}
			for _, fc := range o.S.facts {
				fc.T.walk(func(y *Term) bool {
					if y.Op == "init" {
						if _, n := memberOf(y.Sub[0], w.pool); n != "" && w.bounds[n] && ar.le(x.Res, y, 0) {
							ok = true
						}
					}
					return !ok
				})
			}
		}
		if !ok {
			c.viol("limit", f, ev, o, "a worker is started without a count having been found within a limit")
		}
		// its number decides whether it stays
		st := structOf(w.worker)
		for k := 0; k < st.NumFields(); k++ {
			name := st.Field(k).Name()
			if b, ok := st.Field(k).Type().Underlying().(*types.Basic); !ok || b.Info()&types.IsInteger == 0 || !w.compared(name) {
				continue
			}
			v := tZero
			for a, x := range o.S.mem {
				if of, n := memberOf(a, w.worker); of == t && n == name {
					v = x
				}
			}
			num := false
			for _, x := range o.S.events[:i] {
				if n, by := w.counter(x); n != "" && by == 1 && !w.busy[n] && n != w.pending && x.Res == stripConv(v) {
					num = true
				}
			}
			if !num {
				c.viol("limit", f, ev, o, "the worker's number %s is not its own", v)
			}
		}
	}
}

// compared: the worker's field decides whether it stays.
func (w *poolCheck) compared(name string) (r bool) {
	if r, ok := w.cmp[name]; ok {
		return r
	}
	defer func() { w.cmp[name] = r }()
	for f := range w.runs {
		for _, o := range w.outs[f] {
			for _, fc := range o.S.facts {
				hit := false
				fc.T.walk(func(x *Term) bool {
					if x.Op == "init" {
						if _, n := memberOf(x.Sub[0], w.worker); n == name {
							hit = true
						}
					}
					return !hit
				})
				if hit {
					return true
				}
			}
		}
	}
	return false
}

// room: what the constructors make.
func (w *poolCheck) room() {
	c := w.c
	n := 0
	for _, f := range w.roots {
		for _, o := range w.outs[f] {
			p := w.made(o)
			if p == nil {
				continue
			}
			n++
			ar := o.S.arith()
			c.ob("pools made")
			q := false
			min := w.min == ""
			for a, v := range o.S.mem {
				of, name := memberOf(a, w.pool)
				if of != p {
					continue
				}
				if name == w.queue && v.Op == "obj" && v.Obj.Cap != nil && ar.le(tInt(1), v.Obj.Cap, 0) {
					q = true
				}
				if name == w.min && ar.le(tInt(1), v, 0) {
					min = true
				}
			}
			if !q {
				c.viol("room", f, nil, o, "the queue may have no room for a function, which is put there before anybody takes it")
			}
			if !min {
				c.viol("room", f, nil, o, "no worker may stay, and a function waits for one for ever")
			}
		}
	}
	if n == 0 {
		c.fail("nothing makes a pool")
	}
}
