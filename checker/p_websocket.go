package main

import (
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// ---------- C25: WebSocket client ----------

const wsPkg = "golang.org/x/net/websocket."

func isReceive(ev *Event) bool {
	return ev.Kind == "call" && (ev.Fn == "("+wsPkg+"Codec).Receive" || ev.Fn == "(*"+wsPkg+"Conn).Read")
}

// isFrame: the call sends one whole frame, whatever else is being sent.
func isFrame(ev *Event) bool {
	return ev.Kind == "call" && (ev.Fn == "("+wsPkg+"Codec).Send" || ev.Fn == "(*"+wsPkg+"Conn).Write")
}

func isConnClose(ev *Event) bool {
	return ev.Kind == "call" && ev.Fn == "(*"+wsPkg+"Conn).Close"
}

func isDial(ev *Event) bool {
	return ev.Kind == "call" && hasPre(ev.Fn, wsPkg+"Dial", wsPkg+"NewClient", "(*"+wsPkg+"Config).DialContext")
}

// fieldLoad: t was read from a field of that name.
func fieldLoad(t *Term, name string) bool {
	for t != nil && t.Op == "conv" && len(t.Sub) == 1 {
		t = t.Sub[0]
	}
	return t != nil && t.Op == "init" && t.Sub[0].Op == "fld" && t.Sub[0].Aux == name
}

// handed: how often the function kept in a field is called after event n of the path, directly, in a goroutine, or
// by one the path starts.
func handed(o *Outcome, n int, name string) (min, max int, evs []*Event) {
	for i, ev := range o.S.events {
		if i <= n {
			continue
		}
		switch {
		case (ev.Kind == "dyncall" || ev.Kind == "go") && len(ev.Args) > 0 && fieldLoad(ev.Args[0], name):
			min++
			max++
			evs = append(evs, ev)
		case ev.Kind == "go" && len(ev.Body) > 0:
			lo, hi := -1, 0
			for _, b := range ev.Body {
				if b.Kind != "return" {
					continue
				}
				l, h, es := handed(b, ev.N, name)
				if lo < 0 || l < lo {
					lo = l
				}
				if h > hi {
					hi = h
				}
				evs = append(evs, es...)
			}
			if lo > 0 {
				min += lo
			}
			max += hi
		}
	}
	return
}

// lacks: on this path the field holds no function.
func lacks(o *Outcome, name string) bool {
	for _, f := range o.S.facts {
		if f.Truth && f.T.Op == "bin" && f.T.Aux == "==" && f.T.Sub[0] == tNil && fieldLoad(f.T.Sub[1], name) {
			return true
		}
	}
	return false
}

type wsCheck struct {
	c      *Ctx
	e      *Engine
	fields map[string]string // what a function of the configuration is: handler of messages, errors, closing
	errFld string            // the field that remembers why the connection ended
	sticky bool              // it is never cleared
	sends  bool              // sends look at it
}

// errStore: the path stores something in the remembered error.
func (w *wsCheck) errStore(ev *Event) bool {
	return ev.Kind == "store" && len(ev.Args) > 1 && ev.Args[0].Op == "fld" && ev.Args[0].Aux == w.errFld && (ev.Args[1] == tNil || ev.Args[1].Typ != nil && isErr(ev.Args[1].Typ))
}

func (w *wsCheck) errLoad(t *Term) bool {
	return t != nil && t.Typ != nil && isErr(t.Typ) && fieldLoad(t, w.errFld)
}

// nonNil: the error is not nil here.
func (w *wsCheck) nonNil(o *Outcome, v *Term, at int) bool {
	if v == nil {
		return false
	}
	if isMadeErr(v) || o.S.nilErr(v) == 0 {
		return true
	}
	return w.errLoad(v) && w.ended(o, at)
}

// ended: the remembered error is known to be set by event n of the path.
func (w *wsCheck) ended(o *Outcome, n int) bool {
	if !w.sticky {
		return false
	}
	for i, ev := range o.S.events {
		if i > n {
			break
		}
		if w.errStore(ev) && (isMadeErr(ev.Args[1]) || o.S.nilErr(ev.Args[1]) == 0) {
			return true
		}
		if ev.Kind == "load" && w.errLoad(ev.Res) && o.S.nilErr(ev.Res) == 0 {
			return true
		}
	}
	return false
}

func c25(c *Ctx) {
	if c.load("") == nil {
		return
	}
	c.P = c.progs[""]
	thisProg = c.P
	c.rule("certificates: wherever the server is dialled with certificates configured and TLS possible, the TLS configuration verifies, against a pool into which every configured certificate was put, and each was read and accepted")
	c.rule("address: the address dialled is the one configured, parsed, and its scheme is left to the dialer to refuse or is ws or wss")
	c.rule("connect: a handler is returned exactly when dialling succeeded, with that connection and one goroutine that receives from it; an error otherwise")
	c.rule("deliver: every message received without error is handed to the message handler exactly once, with its data")
	c.rule("end: the receiving goroutine ends only after a receive failed or the connection was closed on this side, closes the connection, and calls the error handler once with an error that is not nil and the close handler once; nothing else calls them")
	c.rule("send: a send that reports success sent exactly the given bytes in one frame on the connection, by a call that sends whole frames or under a lock, and a failure is reported")
	c.rule("close: closing closes the connection on every path")
	var sends, news, closes, rest []*ssa.Function
	for _, f := range c.entryPoints("websocket") {
		sig := f.Signature
		res := sig.Results()
		switch {
		case sig.Recv() == nil && res.Len() == 2 && isErr(res.At(1).Type()):
			news = append(news, f)
		case sig.Recv() != nil && bytesParam(f) != nil && res.Len() == 1 && isErr(res.At(0).Type()):
			sends = append(sends, f)
		case sig.Recv() != nil && f.Name() == "Close":
			closes = append(closes, f)
		default:
			rest = append(rest, f)
		}
	}
	if len(news) == 0 || len(sends) == 0 || len(closes) == 0 {
		c.fail("the WebSocket client has no constructor, send or close")
		return
	}
	w := &wsCheck{c: c, sticky: true}
	// the field for the error: the one of type error in what the constructor returns
	if pt, ok := news[0].Signature.Results().At(0).Type().Underlying().(*types.Pointer); ok {
		if st, ok := pt.Elem().Underlying().(*types.Struct); ok {
			for i := 0; i < st.NumFields(); i++ {
				if isErr(st.Field(i).Type()) {
					w.errFld = st.Field(i).Name()
				}
			}
		}
	}
	run := func(f *ssa.Function, goes bool) []*Outcome {
		e := c.engine()
		e.GoAlways = goes
		w.e = e
		if goes {
			e.OnEvent, e.PreCall = w.snapshot, w.snapshot
		}
		return c.run(e, f)
	}
	outs := map[*ssa.Function][]*Outcome{}
	for _, f := range append(append(append([]*ssa.Function(nil), closes...), sends...), rest...) {
		outs[f] = run(f, false)
	}
	for _, f := range news {
		outs[f] = run(f, true)
	}
	// is the remembered error ever cleared?
	var sticks func(os []*Outcome, n int)
	sticks = func(os []*Outcome, n int) {
		for _, o := range os {
			for i, ev := range o.S.events {
				if i <= n {
					continue
				}
				if w.errStore(ev) && !w.nonNil(o, ev.Args[1], i) {
					w.sticky = false
				}
				if ev.Kind == "go" {
					sticks(ev.Body, ev.N)
				}
			}
		}
	}
	for _, os := range outs {
		sticks(os, -1)
	}
	for f, os := range outs {
		for _, o := range os {
			for _, h := range []string{"OnError", "OnClose"} {
				for _, ev := range o.S.events {
					if ev.Kind == "dyncall" && len(ev.Args) > 0 && fieldLoad(ev.Args[0], h) {
						c.viol("end", f, ev, o, "%s is called here as well as by the receiving goroutine", h)
					}
				}
			}
		}
	}
	for _, f := range sends {
		for _, o := range outs[f] {
			w.send(f, o)
		}
	}
	for _, f := range closes {
		for _, o := range outs[f] {
			w.close(f, o)
		}
	}
	for _, f := range news {
		w.connect(f, outs[f])
	}
}

// snapshot keeps what the check needs to know of memory at a call.
func (w *wsCheck) snapshot(e *Engine, s *State, ev *Event) {
	keep := func(k *Term, v *Term) {
		if ev.Mem == nil {
			ev.Mem = map[*Term]*Term{}
		}
		ev.Mem[k] = v
	}
	var field func(obj *Term, depth int)
	field = func(obj *Term, depth int) {
		if obj == nil || obj.Typ == nil || depth > 2 {
			return
		}
		pt, ok := obj.Typ.Underlying().(*types.Pointer)
		if !ok {
			return
		}
		st, ok := pt.Elem().Underlying().(*types.Struct)
		if !ok {
			return
		}
		for i := 0; i < st.NumFields(); i++ {
			fd := st.Field(i)
			switch fd.Name() {
			case "Location", "TlsConfig", "RootCAs", "InsecureSkipVerify", "conn":
			default:
				if depth > 0 {
					continue
				}
			}
			a := mkFld(obj, fd.Name(), types.NewPointer(fd.Type()))
			v, ok := s.mem[a]
			if !ok {
				if x := s.mem[obj]; x != nil && x.Op == "struct" && i < len(x.Sub) {
					v = x.Sub[i]
				} else if s.private(obj) {
					v = zeroTerm(fd.Type())
				}
			}
			if v != nil {
				keep(a, v)
				field(v, depth+1)
			}
		}
	}
	switch {
	case isDial(ev) && ev.Mem == nil:
		for _, a := range ev.Args {
			field(a, 0)
		}
	case ev.Kind == "go":
		for _, a := range ev.Args {
			field(a, 0)
		}
	}
}

func memField(ev *Event, obj *Term, name string) *Term {
	for k, v := range ev.Mem {
		if k.Op == "fld" && k.Sub[0] == obj && k.Aux == name {
			return v
		}
	}
	return nil
}

func (w *wsCheck) connect(f *ssa.Function, outs []*Outcome) {
	c := w.c
	// how the certificates of each list get into a pool
	type sweep struct {
		pool *Term
		sw   []*swept
		bad  *Outcome
		why  string
	}
	lists := map[*Term]map[*Term]*sweep{} // list, pool
	get := func(l, p *Term) *sweep {
		if lists[l] == nil {
			lists[l] = map[*Term]*sweep{}
		}
		if lists[l][p] == nil {
			lists[l][p] = &sweep{pool: p}
		}
		return lists[l][p]
	}
	elemOf := func(t *Term) (l, i *Term) {
		if t != nil && t.Op == "init" && t.Sub[0].Op == "idx" {
			return t.Sub[0].Sub[0], t.Sub[0].Sub[1]
		}
		if t != nil && t.Op == "at" {
			return t.Sub[0], t.Sub[1]
		}
		return nil, nil
	}
	dialOf := map[*Outcome]*Event{}
	for _, o := range outs {
		var dial *Event
		for _, ev := range o.S.events {
			if isDial(ev) {
				dial = ev
			}
		}
		dialOf[o] = dial
		if o.Kind != "loop" && dial == nil {
			continue
		}
		type pl struct{ l, p *Term }
		got := map[pl]*swept{}
		for i, ev := range o.S.events {
			if ev.Kind != "call" || ev.Fn != "(*crypto/x509.CertPool).AppendCertsFromPEM" {
				continue
			}
			src := ev.Args[1]
			var rd *Event
			if x, _ := madeBy(src); x != nil && x.Fn == "os.ReadFile" {
				rd = x
				src = x.Args[0]
			}
			l, idx := elemOf(src)
			if l == nil {
				c.viol("certificates", f, ev, o, "what is put into the pool is not a configured certificate: %s", clip(ev.Args[1].String()))
				continue
			}
			k := pl{l, ev.Args[0]}
			if got[k] == nil {
				got[k] = &swept{o: o, n: mkLen(l)}
			}
			got[k].idx = append(got[k].idx, idx)
			got[k].at = append(got[k].at, i)
			c.ob("certificates followed")
			if rd != nil && o.S.nilErr(lastOf(rd)) != 1 {
				c.viol("certificates", f, ev, o, "a certificate file that cannot be read is not an error")
			}
			if o.S.truth(ev.Res) != 1 {
				c.viol("certificates", f, ev, o, "a certificate that cannot be used is not an error")
			}
		}
		for k, sw := range got {
			x := get(k.l, k.p)
			x.sw = append(x.sw, sw)
		}
		if o.Kind == "loop" {
			// an iteration over the certificates that adds none
			l := lastLoop(o)
			for i, ev := range o.S.events {
				if i > l && ev.Kind == "call" && ev.Fn == "os.ReadFile" {
					if ls, idx := elemOf(ev.Args[0]); ls != nil && len(loopSyms(idx)) > 0 {
						added := false
						for j := i; j < len(o.S.events); j++ {
							added = added || o.S.events[j].Kind == "call" && strings.HasSuffix(o.S.events[j].Fn, ".AppendCertsFromPEM")
						}
						if !added {
							c.viol("certificates", f, ev, o, "a configured certificate is passed over")
						}
					}
				}
			}
		}
	}
	// covered: on this path every element of the list went into the pool
	covered := func(o *Outcome, l, p *Term) string {
		x := lists[l][p]
		if x == nil {
			x = &sweep{}
		}
		mine := false
		var sw []*swept
		for _, q := range x.sw {
			if q.o.Kind == "loop" || q.o == o {
				sw = append(sw, q)
			}
			mine = mine || q.o == o
		}
		if !mine {
			sw = append(sw, &swept{o: &Outcome{Kind: "return", S: o.S}, n: mkLen(l)})
			if !o.S.arith().le(mkLen(l), tZero, 0) {
				return "no configured certificate goes into the pool"
			}
			return ""
		}
		for i, q := range sw {
			if q.o == o && o.Kind != "return" {
				sw[i] = &swept{o: &Outcome{Kind: "return", S: o.S}, idx: q.idx, at: q.at, n: q.n}
			}
		}
		_, why := covers(sw)
		return why
	}
	for _, o := range outs {
		dial := dialOf[o]
		if o.Kind == "return" {
			c.ob("ways to connect")
			wh, er := o.Ret[0], o.Ret[1]
			ok := wh != tNil && o.S.truth(mkBin("==", wh, tNil, nil)) != 1
			switch {
			case !ok && (o.S.nilErr(er) == 1):
				if dial == nil || o.S.truth(mkBin("==", dialResult(dial), tNil, nil)) != 1 {
					c.viol("connect", f, dial, o, "no handler and no error")
				}
				continue
			case ok && dial == nil:
				c.viol("connect", f, nil, o, "a handler is returned without dialling")
				continue
			case ok:
				if o.S.nilErr(lastOf(dial)) != 1 {
					c.viol("connect", f, dial, o, "a handler is returned although dialling may have failed")
				}
				if o.S.nilErr(er) != 1 {
					c.viol("connect", f, dial, o, "a handler is returned with an error")
				}
			}
			if ok {
				n := 0
				for _, ev := range o.S.events {
					if ev.Kind != "go" {
						continue
					}
					rec := false
					for _, b := range ev.Body {
						for _, x := range b.S.events {
							rec = rec || x.N > ev.N && isReceive(x)
						}
					}
					if rec {
						n++
						w.receiver(f, o, ev, dial, wh)
					}
				}
				if n != 1 {
					c.viol("connect", f, dial, o, "%d goroutines receive from the connection, not one", n)
				}
			}
		}
		if dial == nil {
			continue
		}
		// the address
		if len(dial.Args) == 0 {
			continue
		}
		cf := dial.Args[len(dial.Args)-1]
		if hasPre(dial.Fn, wsPkg+"DialConfig", "(*"+wsPkg+"Config)") {
			if !hasPre(dial.Fn, wsPkg+"DialConfig") {
				cf = dial.Args[0]
			}
			loc := memField(dial, cf, "Location")
			x, er := madeBy(loc)
			if x == nil || !hasPre(x.Fn, "net/url.Parse") || !fieldLoad(x.Args[0], "Url") {
				c.viol("address", f, dial, o, "the address dialled is not the one configured")
			} else if er != nil && o.S.nilErr(er) != 1 {
				c.viol("address", f, dial, o, "an address that cannot be parsed is dialled")
			}
			c.ob("addresses dialled")
			w.tls(f, o, dial, memField(dial, cf, "TlsConfig"), covered)
		} else {
			c.viol("certificates", f, dial, o, "the server is dialled by %s, without the configured certificates", short(dial.Fn))
		}
	}
}

func dialResult(dial *Event) *Term {
	if dial.Res != nil && dial.Res.Op == "tuple" {
		return dial.Res.Sub[0]
	}
	return dial.Res
}

func (w *wsCheck) tls(f *ssa.Function, o *Outcome, dial *Event, tc *Term, covered func(o *Outcome, l, p *Term) string) {
	c := w.c
	s := o.S
	// plain ws?
	for _, ft := range s.facts {
		if ft.T.Op == "app" && strings.HasSuffix(ft.T.Aux, "HasPrefix") && fieldLoad(ft.T.Sub[0], "Url") {
			p := ft.T.Sub[1].Aux
			switch {
			case ft.Truth && hasPre(strings.Trim(p, `"`), "ws:"):
				return
			}
		}
		if ft.Truth && ft.T.Op == "bin" && ft.T.Aux == "==" && (ft.T.Sub[0] == tStr("ws") || ft.T.Sub[1] == tStr("ws")) {
			return // the scheme is ws
		}
	}
	// which certificates are configured?
	var lists []*Term
	for _, ev := range s.events {
		if ev.Kind == "load" && ev.Res != nil && ev.Res.Typ != nil && (fieldLoad(ev.Res, "CertFiles") || fieldLoad(ev.Res, "CertBytes")) {
			dup := false
			for _, l := range lists {
				dup = dup || l == ev.Res
			}
			if !dup {
				lists = append(lists, ev.Res)
			}
		}
	}
	none := func(l *Term) bool {
		return s.truth(mkBin("==", l, tNil, nil)) == 1 || s.arith().le(mkLen(l), tZero, 0)
	}
	files, bytes := false, false
	conf := false
	for _, l := range lists {
		if fieldLoad(l, "CertFiles") {
			files = true
		} else {
			bytes = true
		}
		conf = conf || !none(l)
	}
	if !conf && (!files || !bytes) {
		// an empty list, and the other not looked at: nothing may be accepted then
		if v := memField(dial, tc, "InsecureSkipVerify"); tc == nil || tc == tNil || v != tFalse || memField(dial, tc, "RootCAs") == tNil {
			c.viol("certificates", f, dial, o, "the server may be dialled without looking at the configured certificates")
		}
		return
	}
	if !conf {
		c.ob("without certificates")
		return
	}
	c.ob("with certificates")
	if tc == nil || tc == tNil {
		c.viol("certificates", f, dial, o, "certificates are configured and no TLS configuration is used")
		return
	}
	if v := memField(dial, tc, "InsecureSkipVerify"); v != tFalse {
		c.viol("certificates", f, dial, o, "certificates are configured and the server's is not verified")
		return
	}
	pool := memField(dial, tc, "RootCAs")
	if x, _ := madeBy(pool); x == nil || x.Fn != "crypto/x509.NewCertPool" {
		what := "nothing"
		if pool != nil {
			what = clip(pool.String())
		}
		c.viol("certificates", f, dial, o, "the server's certificate is verified against %s, not the configured certificates", what)
		return
	}
	why := ""
	for _, l := range lists {
		if none(l) {
			continue
		}
		if why = covered(o, l, pool); why == "" {
			return
		}
	}
	c.viol("certificates", f, dial, o, "not every configured certificate is put into the pool: %s", why)
}

// receiver is the goroutine that receives.
func (w *wsCheck) receiver(f *ssa.Function, o *Outcome, g, dial *Event, wh *Term) {
	c := w.c
	for _, a := range g.Args {
		if v := memField(g, a, "conn"); v != nil && v != dialResult(dial) {
			c.viol("connect", f, g, o, "the handler's connection is not the one dialled")
		}
	}
	rf := f
	if g.Uses != nil {
		rf = g.Uses
	}
	for _, b := range g.Body {
		s := b.S
		var evs []*Event
		for _, ev := range s.events {
			if ev.N > g.N {
				evs = append(evs, ev)
			}
		}
		c.ob("ways of receiving")
		var last *Event
		failed := false
		for _, ev := range evs {
			if !isReceive(ev) {
				continue
			}
			last = ev
			er := lastOf(ev)
			if s.nilErr(er) == 0 {
				failed = true
				continue
			}
			// delivered exactly once
			next := len(s.events)
			for _, x := range evs {
				if x.N > ev.N && isReceive(x) {
					next = x.N
					break
				}
			}
			n := 0
			for _, x := range evs {
				if x.N <= ev.N || x.N >= next {
					continue
				}
				if (x.Kind == "dyncall" || x.Kind == "go") && len(x.Args) > 0 && fieldLoad(x.Args[0], "OnMessage") {
					n++
					w.message(rf, b, ev, x)
				} else if x.Kind == "go" && len(x.Body) > 0 {
					m := -1
					for _, y := range x.Body {
						_, _, es := handed(y, x.N, "OnMessage")
						if m < 0 || len(es) < m {
							m = len(es)
						}
						for _, z := range es {
							w.message(rf, y, ev, z)
						}
					}
					n += m
				}
			}
			if n == 0 && (lacks(b, "OnMessage") || w.empty(b, ev, next)) {
				continue
			}
			if n == 0 && b.Kind == "return" && next == len(s.events) && s.nilErr(er) != 1 {
				continue // not looked at yet
			}
			if n != 1 {
				c.viol("deliver", rf, ev, b, "a message received is handed to the message handler %d times", n)
			}
		}
		if b.Kind != "return" {
			if b.Kind == "loop" && failed {
				c.viol("end", rf, last, b, "it goes on receiving after a receive failed")
			}
			if b.Kind == "panic" {
				c.viol("end", rf, last, b, "it may panic")
			}
			continue
		}
		if !failed && !w.ended(b, len(s.events)) {
			c.viol("end", rf, last, b, "it stops receiving although the connection has not ended")
			continue
		}
		// how it ends
		_, _, ers := handed(b, g.N, "OnError")
		lo, hi, _ := handed(b, g.N, "OnError")
		if hi > 1 || lo == 0 && !lacks(b, "OnError") {
			c.viol("end", rf, last, b, "the error handler is called between %d and %d times, not once", lo, hi)
		}
		for _, ev := range ers {
			var v *Term
			for _, a := range ev.Args[1:] {
				if a == tNil || a != nil && a.Typ != nil && isErr(a.Typ) {
					v = a
				}
			}
			if !w.nonNil(b, v, ev.N) {
				c.viol("end", rf, ev, b, "the error handler may get a nil error")
			}
		}
		lo, hi, _ = handed(b, g.N, "OnClose")
		if hi > 1 || lo == 0 && !lacks(b, "OnClose") {
			c.viol("end", rf, last, b, "the close handler is called between %d and %d times, not once", lo, hi)
		}
		closed := false
		for _, ev := range evs {
			closed = closed || isConnClose(ev)
		}
		if !closed && !lacks(b, "conn") && s.truth(mkBin("==", dialResult(dial), tNil, nil)) != 1 {
			c.viol("end", rf, last, b, "the connection is not closed when it ends, so that later sends may succeed")
		}
	}
}

// message: what the message handler is given is what was received.
func (w *wsCheck) message(f *ssa.Function, o *Outcome, rec, call *Event) {
	into := rec.Args[len(rec.Args)-1]
	w.c.ob("messages delivered")
	for _, a := range call.Args[1:] {
		if a == nil || a.Typ == nil || !isByteSlice(a.Typ) {
			continue
		}
		for a.Op == "conv" && len(a.Sub) == 1 {
			a = a.Sub[0]
		}
		if a.Op == "init" && a.Sub[0].root() == into.root() {
			return
		}
		if sameT(a, into) {
			return
		}
		src := a
		a.walk(func(x *Term) bool {
			if x.Op == "init" && x.Sub[0].root() == into.root() {
				src = nil
			}
			return true
		})
		if src == nil && a.Op == "concat" {
			return
		}
		w.c.viol("deliver", f, call, o, "the message handler gets %s, not what was received", clip(a.String()))
		return
	}
	w.c.viol("deliver", f, call, o, "the message handler does not get what was received")
}

// empty: nothing was received, as the path knows: the data is nil.
func (w *wsCheck) empty(o *Outcome, rec *Event, next int) bool {
	into := rec.Args[len(rec.Args)-1]
	for _, ft := range o.S.facts {
		if ft.Truth && ft.T.Op == "bin" && ft.T.Aux == "==" && ft.T.Sub[0] == tNil {
			v := ft.T.Sub[1]
			if v.Op == "init" && v.Sub[0] == into && v.Typ != nil && isByteSlice(v.Typ) {
				return true
			}
		}
	}
	return false
}

func (w *wsCheck) send(f *ssa.Function, o *Outcome) {
	c := w.c
	if o.Kind == "loop" {
		for _, ev := range o.S.events {
			if isFrame(ev) {
				c.viol("send", f, ev, o, "one message is sent as several frames")
			}
		}
		return
	}
	if o.Kind != "return" {
		c.viol("send", f, nil, o, "it may %s", o.Kind)
		return
	}
	c.ob("ways to send")
	bs := paramTerms(f)[bytesIndex(f)]
	var sent []*Event
	for _, ev := range o.S.events {
		if isFrame(ev) {
			sent = append(sent, ev)
			arg := ev.Args[len(ev.Args)-1]
			for arg.Op == "conv" && len(arg.Sub) == 1 {
				arg = arg.Sub[0]
			}
			if arg != bs && flat(w.e.content(o.S, arg)) != bs {
				c.viol("send", f, ev, o, "what is sent is %s, not the bytes given", clip(arg.String()))
			}
			if len(sent) > 1 {
				c.viol("send", f, ev, o, "one message is sent as several frames")
			}
			continue
		}
		if ev.Kind == "call" && (hasPre(ev.Fn, "(*"+wsPkg+"Conn).NewFrameWriter") || strings.Contains(ev.Fn, "frameWriter")) {
			held := false
			for _, h := range ev.Locks {
				held = held || !h.Read
			}
			if !held {
				c.viol("send", f, ev, o, "a frame is written without a lock, so that frames may mix")
			}
			sent = append(sent, ev)
		}
	}
	r := o.Ret[0]
	if o.S.nilErr(r) == 0 || isMadeErr(r) || w.nonNil(o, r, len(o.S.events)) {
		return
	}
	if len(sent) == 0 {
		c.viol("send", f, nil, o, "it may report success without sending")
		return
	}
	er := lastOf(sent[0])
	if r != er && o.S.nilErr(er) != 1 {
		c.viol("send", f, sent[0], o, "a send that failed may be reported as a success")
	}
}

func (w *wsCheck) close(f *ssa.Function, o *Outcome) {
	if o.Kind != "return" {
		w.c.viol("close", f, nil, o, "it may %s", o.Kind)
		return
	}
	w.c.ob("ways to close")
	for _, ev := range o.S.events {
		if isConnClose(ev) {
			return
		}
	}
	if lacks(o, "conn") || w.ended(o, len(o.S.events)) && w.wasEnded(o) {
		return
	}
	w.c.viol("close", f, nil, o, "the connection is left open")
}

// wasEnded: the path found the connection ended already.
func (w *wsCheck) wasEnded(o *Outcome) bool {
	for _, ev := range o.S.events {
		if w.errStore(ev) {
			return false
		}
		if ev.Kind == "load" && w.errLoad(ev.Res) && o.S.nilErr(ev.Res) == 0 {
			return true
		}
	}
	return false
}

func init() {
	checks["C25"] = checkDef{c25, "path-sensitive analysis of connecting, the receiving goroutine, sending and closing: value flow of the certificates into the TLS configuration, typestate of the connection, exactly-once calls of the handlers"}
}

func bytesIndex(f *ssa.Function) int {
	for i, p := range f.Params {
		if isByteSlice(p.Type()) {
			return i
		}
	}
	return -1
}
