package main

import (
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// ---------- C26: HTTP posts ----------

func isStrMap(t types.Type) bool {
	m, ok := t.Underlying().(*types.Map)
	return ok && isStringy(m.Key()) && isStringy(m.Elem())
}

func c26(c *Ctx) {
	if c.load("") == nil {
		return
	}
	c.P = c.progs[""]
	thisProg = c.P
	c.rule("request: wherever the request is performed it was made with method POST, the given address and the given body, every given header set on it and the given cookie added to it, and none of that undone")
	c.rule("answer: wherever the post can succeed, what it returns is everything read from the response body")
	c.rule("reported: an error making the request, performing it or reading the answer is returned, and nothing else is an error")
	c.rule("closed: the response body is closed on every path, after it was read")
	c.rule("leak: a transport made for one post keeps no connection")
	n := 0
	for _, f := range c.entryPoints("httpclient") {
		sig := f.Signature
		if sig.Results().Len() != 2 || !isErr(sig.Results().At(1).Type()) || !isByteSlice(sig.Results().At(0).Type()) || bytesParam(f) == nil {
			continue
		}
		n++
		c.post(f)
	}
	if n == 0 {
		c.fail("no function posts")
	}
}

func (c *Ctx) post(f *ssa.Function) {
	var bs, url, header, cookie *Term
	for i, p := range f.Params {
		t := paramTerms(f)[i]
		switch {
		case isByteSlice(p.Type()):
			bs = t
		case isStringy(p.Type()):
			url = t
		case isStrMap(p.Type()):
			header = t
		case typeKey(p.Type()) == "net/http.Cookie":
			cookie = t
		}
	}
	e := c.engine()
	for _, o := range c.run(e, f) {
		if o.Kind == "return" || o.Kind == "loop" {
			c.postPath(f, e, o, bs, url, header, cookie)
		}
	}
}

func lastOf(ev *Event) *Term {
	if ev.Res != nil && ev.Res.Op == "tuple" {
		return ev.Res.Sub[len(ev.Res.Sub)-1]
	}
	return ev.Res
}

func (c *Ctx) postPath(f *ssa.Function, e *Engine, o *Outcome, bs, url, header, cookie *Term) {
	s := o.S
	evs := s.events
	var req, do, rd *Event
	var reqT, body *Term
	closed := -1
	readAt := -1
	cookieAt := -1
	ranged, exhausted := false, false
	var pend *Event // a header taken from the map and not set yet
	type get struct{ k *Term }
	var gets []*Term
	setAny := false
	at := func(ev *Event, r, m string, a ...any) { c.viol(r, f, ev, o, m, a...) }
	isHdr := func(t *Term) bool {
		return t != nil && t.Op == "init" && t.Sub[0].Op == "fld" && t.Sub[0].Aux == "Header" && t.Sub[0].Sub[0] == reqT
	}
	for i, ev := range evs {
		switch {
		case ev.Kind == "call" && hasPre(ev.Fn, "net/http.NewRequest"):
			args := ev.Args
			if strings.HasSuffix(ev.Fn, "WithContext") {
				args = args[1:]
			}
			req, reqT = ev, ev.Res.Sub[0]
			c.ob("requests made")
			if args[0] != tStr("POST") {
				at(ev, "request", "the method is %s, not POST", clip(args[0].String()))
			}
			if url != nil && args[1] != url {
				at(ev, "request", "the request goes to %s, not to the given address", clip(args[1].String()))
			}
			switch b := args[2]; {
			case b == tNil || b.Op == "init" && b.Sub[0].Op == "global" && strings.HasSuffix(b.Sub[0].Aux, "NoBody"):
				if a := e.arith(s); bs != nil && !a.le(mkLen(bs), tZero, 0) && s.truth(mkBin("==", bs, tNil, nil)) != 1 {
					at(ev, "request", "the request is made without the body although the body may not be empty")
				}
			default:
				src := flat(c.srcAt(o, i, b))
				if src == nil || src != bs {
					at(ev, "request", "the body of the request is not exactly what was given")
				}
			}
		case reqT != nil && ev.Kind == "store" && len(ev.Args) > 0 && ev.Args[0].Op == "fld" && ev.Args[0].Sub[0] == reqT:
			switch ev.Args[0].Aux {
			case "Body", "Method", "URL", "ContentLength", "GetBody":
				at(ev, "request", "%s of the request is changed after it was made", ev.Args[0].Aux)
			case "Header":
				if setAny || cookieAt >= 0 {
					at(ev, "request", "the headers already set are thrown away")
				}
			}
		case ev.Kind == "call" && strings.HasPrefix(ev.Fn, "(net/http.Header).") && len(ev.Args) > 1 && isHdr(ev.Args[0]):
			m := ev.Fn[strings.LastIndex(ev.Fn, ".")+1:]
			switch m {
			case "Get", "Values":
				gets = append(gets, ev.Args[1])
			case "Set", "Add":
				if pend != nil && ev.Args[1] == pend.Res.Sub[1] && ev.Args[2] == pend.Res.Sub[2] {
					pend = nil
					setAny = true
					c.ob("headers set")
					if cookieAt >= 0 && m == "Set" {
						at(ev, "request", "a header set after the cookie was added can replace the cookie")
					}
					continue
				}
				if !setAny && !ranged && cookieAt < 0 || m == "Add" {
					continue // a default, before the given headers
				}
				ok := false
				for _, g := range gets {
					ok = ok || g == ev.Args[1]
				}
				if !ok && header != nil {
					at(ev, "request", "a header that was given can be replaced by another value")
				}
			case "Del":
				if setAny || cookieAt >= 0 {
					at(ev, "request", "a header that was given can be deleted again")
				}
			}
		case ev.Kind == "mapset" && reqT != nil && len(ev.Args) > 0 && isHdr(ev.Args[0]):
			at(ev, "request", "a header is stored without its canonical name")
		case ev.Kind == "next" && header != nil && len(ev.Args) > 1 && ev.Args[1] == header:
			ranged = true
			if pend != nil {
				at(pend, "request", "a given header is not set")
				pend = nil
			}
			if ev.Res != nil && ev.Res.Op == "tuple" {
				if t, known := s.factOf(ev.Res.Sub[0]); known {
					exhausted = !t
					if t {
						pend = ev
					}
				}
			}
		case ev.Kind == "call" && strings.HasSuffix(ev.Fn, "http.Request).AddCookie") && len(ev.Args) == 2 && ev.Args[0] == reqT:
			if ev.Args[1] == cookie {
				cookieAt = i
			}
		case ev.Kind == "call" && (strings.HasSuffix(ev.Fn, "http.Client).Do") || strings.HasSuffix(ev.Fn, ".RoundTrip")) && len(ev.Args) == 2:
			if do != nil {
				at(ev, "request", "the request is performed more than once")
			}
			do = ev
			c.ob("requests performed")
			if ev.Args[1] != reqT {
				at(ev, "request", "what is performed is not the request that was made")
			}
			if pend != nil {
				at(pend, "request", "a given header is not set")
				pend = nil
			}
			if header != nil && !(ranged && exhausted) && !c.emptyMap(e, s, header) && s.truth(mkBin("==", header, tNil, nil)) != 1 {
				at(ev, "request", "the request is performed before every given header is set")
			}
			if cookie != nil && cookieAt < 0 && s.truth(mkBin("==", cookie, tNil, nil)) != 1 {
				at(ev, "request", "the request is performed without the given cookie")
			}
			c.transportOf(f, e, o, ev)
			if ev.Res != nil && ev.Res.Op == "tuple" {
				body = ev.Res.Sub[0]
			}
		case ev.Kind == "call" && body != nil && len(ev.Args) > 0 && isBodyOf(ev.Args[0], body):
			switch {
			case strings.HasSuffix(ev.Fn, ".Close"):
				if closed < 0 {
					closed = i
				}
			case hasPre(ev.Fn, "io.ReadAll", "io/ioutil.ReadAll"):
				rd, readAt = ev, i
			}
		case ev.Kind == "call" && body != nil && len(ev.Args) > 1 && isBodyOf(ev.Args[1], body) && (hasPre(ev.Fn, "io.Copy") || strings.HasSuffix(ev.Fn, ".ReadFrom")):
			rd, readAt = ev, i
		}
	}
	if o.Kind != "return" {
		if pend != nil {
			at(pend, "request", "a given header is not set")
		}
		return
	}
	er := o.Ret[1]
	failed := isMadeErr(er) || s.nilErr(er) == 0
	for _, ev := range []*Event{req, do, rd} {
		if ev == nil {
			continue
		}
		x := lastOf(ev)
		c.ob("errors returned")
		if !failed && er != x && s.nilErr(x) != 1 {
			at(ev, "reported", "an error of %s is not returned", ev.Fn)
		}
	}
	if do != nil && s.nilErr(lastOf(do)) != 0 {
		c.ob("bodies closed")
		if closed < 0 {
			at(do, "closed", "the response body is not closed")
		} else if readAt > closed {
			at(rd, "closed", "the response body is read after it was closed")
		}
	}
	if failed {
		if !failedCall(s) {
			at(lastCallEv(o), "reported", "an error is returned although nothing failed")
		}
		return
	}
	c.ob("answers")
	if do == nil {
		at(lastCallEv(o), "answer", "success is possible without performing the request")
		return
	}
	if rd == nil {
		at(do, "answer", "success is possible without reading the answer")
		return
	}
	v := c.theStream(e, s, o.Ret[0])
	if v == nil || v.Op != "app" || v.Aux != "drained" || v.Sub[1] != lastOf(rd) {
		at(rd, "answer", "what is returned is not the whole answer")
		return
	}
	if src := v.Sub[0]; src.Op != "app" || src.Aux != "source" || !isBodyOf(src.Sub[0], body) {
		at(rd, "answer", "what is returned is not the whole answer")
	}
}

// emptyMap: on this path a map was found empty.
func (c *Ctx) emptyMap(e *Engine, s *State, m *Term) bool {
	a := e.arith(s)
	if a.le(mkLen(m), tZero, 0) {
		return true
	}
	for _, ev := range s.events {
		if ev.Kind == "maplen" && ev.Args[0] == m && ev.Res != nil && a.le(ev.Res, tZero, 0) {
			return true
		}
	}
	return false
}

func isBodyOf(t, resp *Term) bool {
	return t != nil && t.Op == "init" && t.Sub[0].Op == "fld" && t.Sub[0].Aux == "Body" && t.Sub[0].Sub[0] == resp
}

// srcAt is what a reader was made of.
func (c *Ctx) srcAt(o *Outcome, i int, r *Term) *Term {
	for _, ev := range o.S.events[:i] {
		if ev.Kind == "call" && ev.Res == r && hasPre(ev.Fn, "bytes.NewReader", "bytes.NewBuffer", "strings.NewReader") {
			return flat(ev.Args[0])
		}
	}
	if r.Op == "obj" && isBuffer(r) {
		if v := o.S.mem[mkFld(r, "#stream", nil)]; v != nil {
			return v
		}
	}
	return nil
}

// transportOf: the connections of a transport made here end with the post.
func (c *Ctx) transportOf(f *ssa.Function, e *Engine, o *Outcome, do *Event) {
	s := o.S
	cl := do.Args[0]
	tr := cl
	if !strings.HasSuffix(do.Fn, ".RoundTrip") {
		tr = s.mem[mkFld(cl, "Transport", nil)]
	}
	if v := s.mem[cl]; tr == nil && v != nil && v.Op == "struct" && len(v.Sub) > 0 {
		tr = v.Sub[0]
	}
	if tr == nil || tr.Op != "obj" || typeKey(tr.Typ) != "net/http.Transport" {
		return // shared with other posts, or the default
	}
	c.ob("transports")
	if s.mem[mkFld(tr, "DisableKeepAlives", nil)] == tTrue {
		return
	}
	for _, ev := range s.events {
		if ev.Kind == "call" && strings.HasSuffix(ev.Fn, ".CloseIdleConnections") && (ev.Args[0] == tr || ev.Args[0] == cl) && ev.N > do.N {
			return
		}
	}
	if s.nilErr(lastOf(do)) == 0 {
		return
	}
	c.viol("leak", f, do, o, "the transport made for this post keeps its connection open after it")
}

func init() {
	checks["C26"] = checkDef{c26, "path-sensitive typestate and value analysis of the HTTP post: the request made, the headers set while the header map is swept, the cookie, the errors returned, the body read and closed, the transport's connections"}
}
