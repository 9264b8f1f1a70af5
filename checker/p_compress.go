package main

import (
	"fmt"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// ---------- compress writers and readers by value ----------

// zipKind names the format of a package's streams: "zlib", "gzip", "flate"...
func zipKind(name string) (kind, fn string) {
	i := strings.LastIndex(name, ".")
	if i < 0 {
		return
	}
	pkg, fn := name[:i], name[i+1:]
	for _, k := range []string{"zlib", "gzip", "flate", "zstd", "lzw", "bzip2", "snappy", "s2"} {
		if strings.HasSuffix(pkg, "/"+k) && strings.Contains(pkg, "/") {
			return k, fn
		}
	}
	return "", fn
}

func isBuffer(o *Term) bool {
	if o == nil || o.Op != "obj" && o.Op != "fld" || o.Typ == nil {
		return false
	}
	k := typeKey(o.Typ)
	return k == "bytes.Buffer" || k == "strings.Builder"
}

// setStream gives a buffer its whole content; the buffer's own fields carry it when the buffer is copied.
func (e *Engine) setStream(s *State, o, v *Term) {
	s.mem[mkFld(o, "#stream", nil)] = v
	e.carryStream(s, o)
}

func (e *Engine) carryStream(s *State, o *Term) {
	if isBuffer(o) && typeKey(o.Typ) == "bytes.Buffer" && o.root().Op == "obj" {
		if v := s.mem[mkFld(o, "#stream", nil)]; v != nil {
			s.mem[o] = mkT("app", "bufstate", deref(o.Typ), v)
		}
	}
}

// source is what can still be read from a reader, if it is known.
func (e *Engine) source(s *State, r *Term) *Term {
	if v, ok := s.mem[mkFld(r, "#src", nil)]; ok {
		return v
	}
	if isBuffer(r) {
		if v := e.stream(s, r); v != nil {
			return e.asStream(v)
		}
	}
	v := mkT("app", "source", nil, r, tInt(int64(s.epoch)))
	s.mem[mkFld(r, "#src", nil)] = v
	return v
}

func (e *Engine) zipModel(s *State, in ssa.Instruction, name string, args []*Term, c *ssa.CallCommon) (*Term, bool) {
	res := c.Signature().Results()
	note := func() *Event { return s.event(e, "call", name, args, in) }
	k, fn := zipKind(name)
	if k != "" && len(args) > 0 && (fn == "NewWriter" || fn == "NewWriterLevel") && k != "snappy" && k != "s2" && k != "zstd" {
		ev := note()
		o := mkObj("zip:"+k, res.At(0).Type(), in)
		s.mem[mkFld(o, "#stream", nil)] = tStr("")
		s.mem[mkFld(o, "#dst", nil)] = args[0]
		ev.Res = o
		r := o
		if res.Len() == 2 {
			er := mkSym("call", res.At(1).Type())
			er.Sym.Ev, er.Sym.Idx = ev, 1
			er.Sym.Name = shortCall(ev) + "#1'" + itoa(er.id)
			r = mk("tuple", "", o, er)
			ev.Res = r
		}
		e.fire(s, ev)
		return r, true
	}
	if k != "" && len(args) > 0 && fn == "NewReader" && k != "s2" && k != "snappy" && k != "zstd" {
		ev := note()
		src := e.source(s, args[0])
		r := e.fresh(s, ev, res, args)
		rd := r
		if r.Op == "tuple" {
			rd = r.Sub[0]
		}
		s.mem[mkFld(rd, "#src", nil)] = mkT("app", "un"+k, nil, src)
		e.fire(s, ev)
		return r, true
	}
	switch name {
	case "bytes.NewReader", "strings.NewReader":
		ev := note()
		r := e.fresh(s, ev, res, args)
		s.mem[mkFld(r, "#src", nil)] = e.asStream(e.content(s, args[0]))
		e.fire(s, ev)
		return r, true
	case "io.NopCloser":
		ev := note()
		r := e.fresh(s, ev, res, args)
		s.mem[mkFld(r, "#src", nil)] = e.source(s, args[0])
		e.fire(s, ev)
		return r, true
	case "io.Copy", "io.CopyBuffer", "(*bytes.Buffer).ReadFrom":
		if isBuffer(args[0]) || args[0].Op == "obj" && strings.HasPrefix(args[0].Obj.Kind, "zip:") {
			ev := note()
			src := e.source(s, args[1])
			r := e.fresh(s, ev, res, args)
			s.mem[mkFld(args[1], "#src", nil)] = mkSym("rest", nil)
			if isBuffer(args[1]) {
				e.smashStream(s, args[1])
			}
			d := mkT("app", "drained", nil, src, r.Sub[1])
			e.appendStream(s, args[0], d)
			e.feed(s, args[0])
			s.know(mkBin("<", r.Sub[0], tZero, nil), false)
			e.fire(s, ev)
			return r, true
		}
	case "io.ReadAll", "io/ioutil.ReadAll":
		ev := note()
		src := e.source(s, args[0])
		r := e.fresh(s, ev, res, args)
		s.mem[mkFld(args[0], "#src", nil)] = mkSym("rest", nil)
		v := mkT("app", "drained", res.At(0).Type(), src, r.Sub[1])
		ev.Res = mk("tuple", "", v, r.Sub[1])
		e.fire(s, ev)
		return ev.Res, true
	}
	if len(args) == 0 {
		return nil, false
	}
	o := args[0]
	if o.Op == "obj" && strings.HasPrefix(o.Obj.Kind, "zip:") && strings.Contains(name, ").") || o.Op == "obj" && strings.HasPrefix(o.Obj.Kind, "zip:") && strings.HasPrefix(name, "invoke ") {
		ev := note()
		switch fn {
		case "Write":
			e.appendStream(s, o, e.content(s, args[1]))
			e.feed(s, o)
			r := e.fresh(s, ev, res, args)
			s.know(mkBin("<", r.Sub[0], tZero, nil), false)
			s.know(mkBin("<", mkLen(args[1]), r.Sub[0], nil), false)
			e.fire(s, ev)
			return r, true
		case "Flush":
			e.feed(s, o)
		case "Close":
			e.closeZip(s, o)
		default:
			s.mem[mkFld(o, "#dst", nil)] = mkSym("dst", nil)
			e.smashStream(s, o)
		}
		e.fire(s, ev)
		return e.fresh(s, ev, res, args), true
	}
	if _, ok := s.mem[mkFld(o, "#src", nil)]; ok && (fn == "Read" || fn == "Multistream" || fn == "Reset" || fn == "WriteTo" || fn == "ReadByte" || fn == "Seek") {
		s.mem[mkFld(o, "#src", nil)] = mkSym("rest", nil)
	}
	return nil, false
}

// feed: bytes given to a compressor reach its destination at some point before it is closed.
func (e *Engine) feed(s *State, w *Term) {
	if w.Op != "obj" || !strings.HasPrefix(w.Obj.Kind, "zip:") {
		return
	}
	dst := s.mem[mkFld(w, "#dst", nil)]
	if dst == nil || !isBuffer(dst) {
		return
	}
	bk, pk := mkFld(w, "#base", nil), mkFld(w, "#part", nil)
	cur := e.stream(s, dst)
	if s.mem[bk] == nil || cur == nil || cur != s.mem[pk] {
		if s.mem[bk] != nil || cur == nil { // written by someone else in between
			cur = mkSym("stream", nil)
		}
		s.mem[bk] = cur
	}
	p := mk("stream", "", s.mem[bk], mkSym("partial", nil))
	s.mem[pk] = p
	e.setStream(s, dst, p)
}

func (e *Engine) closeZip(s *State, w *Term) {
	ck := mkFld(w, "#closed", nil)
	if s.mem[ck] != nil {
		return
	}
	s.mem[ck] = tTrue
	e.feed(s, w)
	dst := s.mem[mkFld(w, "#dst", nil)]
	if dst == nil || !isBuffer(dst) {
		return
	}
	in := e.stream(s, w)
	if in == nil {
		in = mkSym("stream", nil)
	}
	v := mkT("app", "zip"+strings.TrimPrefix(w.Obj.Kind, "zip"), nil, in)
	if b := s.mem[mkFld(w, "#base", nil)]; b != nil && b != tStr("") {
		e.setStream(s, dst, mk("stream", "", b, v))
	} else {
		e.setStream(s, dst, v)
	}
}

// ---------- C15: compression ----------

// the formats of this package's pairs, by the name of the function
func formatOf(fn string) (kind string, un bool) {
	l := strings.ToLower(fn)
	for _, k := range []string{"zlib", "gzip", "snappy", "zstd"} {
		if strings.Contains(l, k) {
			kind = k
		}
	}
	un = strings.HasPrefix(l, "un") || strings.Contains(l, "decode") || strings.Contains(l, "decompress")
	return
}

func bytesParam(f *ssa.Function) (p *ssa.Parameter) {
	for _, q := range f.Params {
		if isByteSlice(q.Type()) {
			if p != nil {
				return nil
			}
			p = q
		}
	}
	return
}

func isByteResult(t types.Type) bool {
	return isByteSlice(t) || typeKey(t) == "bytes.Buffer"
}

func c15(c *Ctx) {
	if c.load("") == nil {
		return
	}
	c.P = c.progs[""]
	thisProg = c.P
	c.rule("whole: wherever a compressor can succeed, what it returns is the finished stream - its writer closed first - of the whole input, once, in the format its name promises")
	c.rule("drained: wherever a decompressor can succeed, what it returns is everything read up to the end of the stream of the whole input")
	c.rule("reported: an error met while decompressing is returned")
	n := 0
	for _, f := range c.entryPoints("util", "compress") {
		kind, un := formatOf(f.Name())
		sig := f.Signature
		if kind == "" || sig.Recv() != nil || sig.Results().Len() == 0 || !isByteResult(sig.Results().At(0).Type()) {
			continue
		}
		p := bytesParam(f)
		if p == nil {
			continue
		}
		n++
		c.compression(f, p, kind, un)
	}
	if n == 0 {
		c.fail("no compression functions")
	}
}

// theStream is the content of a returned slice or buffer.
func (c *Ctx) theStream(e *Engine, s *State, t *Term) *Term {
	for t != nil {
		switch {
		case t.Op == "app" && t.Aux == "bufstate":
			t = t.Sub[0]
		case t.Op == "struct" && t.Typ != nil && typeKey(t.Typ) == "bytes.Buffer":
			return tStr("")
		case t.Op == "conv" || t.Op == "stream" && t.Sub[0] == tStr("") || t.Op == "app" && t.Aux == "bufbytes" || t.Op == "append" && (t.Sub[0] == tNil || mkLen(t.Sub[0]) == tZero):
			n := flat(t)
			if n == t {
				return t
			}
			t = n
		case t.Op == "obj" && t.Obj.Kind != "slice":
			if v := e.stream(s, t); v != nil {
				t = v
				continue
			}
			return t
		case t.Op == "slice" && t.Sub[1] == tZero && sameLen(t):
			t = t.Sub[0]
		default:
			if x := e.content(s, t); x != t {
				t = x
				continue
			}
			return t
		}
	}
	return t
}

func sameLen(t *Term) bool {
	return len(t.Sub) > 2 && t.Sub[2] == mkLen(t.Sub[0])
}

func (c *Ctx) compression(f *ssa.Function, p *ssa.Parameter, kind string, un bool) {
	e := c.engine()
	outs := c.run(e, f)
	errIdx := -1
	if r := f.Signature.Results(); r.Len() > 1 && isErr(r.At(r.Len()-1).Type()) {
		errIdx = r.Len() - 1
	}
	var in *Term
	for i, q := range f.Params {
		if q == p {
			in = paramTerms(f)[i]
		}
	}
	for _, o := range outs {
		if o.Kind == "panic" {
			continue
		}
		s := o.S
		if un {
			c.readsWritten(f, o, e)
		}
		if o.Kind != "return" {
			continue
		}
		var er *Term
		if errIdx >= 0 {
			er = o.Ret[errIdx]
		}
		failed := er != nil && (isMadeErr(er) || s.nilErr(er) == 0)
		if un {
			// what went wrong is returned
			for i, ev := range o.S.events {
				if ev.Kind != "call" && ev.Kind != "pure" {
					continue
				}
				_, fn := zipKind(ev.Fn)
				b := false
				switch {
				case fn == "NewReader" && ev.Kind == "call", fn == "Copy", fn == "CopyBuffer", fn == "ReadFrom", fn == "ReadAll", fn == "Decode", fn == "DecodeAll", fn == "Read":
					b = true
				}
				if !b || ev.Res == nil || ev.Res.Op != "tuple" || len(ev.Res.Sub) != 2 {
					continue
				}
				x := ev.Res.Sub[1]
				if er == nil || failed || er == x || s.nilErr(x) == 1 {
					continue
				}
				if fn == "Read" && eofKnown(s, x) {
					continue
				}
				if fn == "Read" && laterRead(o, i, ev.Args[0]) && s.nilErr(x) != 0 {
					continue
				}
				c.ob("errors of the reader returned")
				c.viol("reported", f, ev, o, "an error from %s is not returned: a damaged stream looks like a complete one", ev.Fn)
			}
		}
		if failed || er != nil && eofKnown(s, er) {
			// a failure has a cause
			cause := failedCall(s)
			if !cause && (!un || !e.arith(s).le(mkLen(in), tZero, 5)) && !otherParam(s, f, p) {
				c.ob("failures have causes")
				c.viol("whole", f, lastCallEv(o), o, "an error is returned although nothing failed")
			}
			continue
		}
		v := c.theStream(e, s, o.Ret[0])
		if un {
			c.ob("whole streams read")
			if why := c.unzipped(e, o, v, in, kind, er); why != "" {
				c.viol("drained", f, lastCallEv(o), o, "%s", why)
			}
			continue
		}
		// a writer that failed leaves no success: its error is the one returned
		c.ob("finished streams")
		if why := c.zipped(o, v, in, kind, er); why != "" {
			c.viol("whole", f, lastCallEv(o), o, "%s", why)
		}
	}
}

// failedCall: a call on this path is known to have returned an error.
func failedCall(s *State) bool {
	for _, ev := range s.events {
		if ev.Res == nil || ev.Kind != "call" && ev.Kind != "pure" {
			continue
		}
		x := ev.Res
		if x.Op == "tuple" {
			x = x.Sub[len(x.Sub)-1]
		}
		if x.Typ != nil && isErr(x.Typ) && s.nilErr(x) == 0 && !eofKnown(s, x) {
			return true
		}
	}
	return false
}

// otherParam: the path depends on a parameter that is not the data.
func otherParam(s *State, f *ssa.Function, p *ssa.Parameter) bool {
	for i, q := range f.Params {
		if q == p {
			continue
		}
		for _, ft := range s.facts {
			if ft.T.mentions(paramTerms(f)[i]) {
				return true
			}
		}
	}
	return false
}

func lastCallEv(o *Outcome) *Event {
	for i := len(o.S.events) - 1; i >= 0; i-- {
		if o.S.events[i].Kind == "call" {
			return o.S.events[i]
		}
	}
	return nil
}

func eofKnown(s *State, x *Term) bool {
	for _, f := range s.facts {
		k := f.T
		if f.Truth && k.Op == "bin" && k.Aux == "==" && len(k.Sub) == 2 {
			if k.Sub[0] == x && isEOF(k.Sub[1]) || k.Sub[1] == x && isEOF(k.Sub[0]) {
				return true
			}
		}
		if f.Truth && k.Op == "app" && k.Aux == "errors.Is" && k.Sub[0] == x && isEOF(k.Sub[1]) {
			return true
		}
	}
	return false
}

func isEOF(t *Term) bool {
	return t != nil && (strings.HasSuffix(t.String(), "io.EOF") || t.Op == "init" && t.Sub[0].Op == "global" && t.Sub[0].Aux == "io.EOF")
}

func laterRead(o *Outcome, i int, r *Term) bool {
	for _, ev := range o.S.events[i+1:] {
		if ev.Kind == "call" && strings.HasSuffix(ev.Fn, ".Read") && len(ev.Args) > 0 && ev.Args[0] == r {
			return true
		}
	}
	return false
}

// zipped: is v the finished stream of the input?
func (c *Ctx) zipped(o *Outcome, v, in *Term, kind string, er *Term) string {
	if v == nil || v == tStr("") {
		return "what is returned was taken before anything was written to it"
	}
	if v.Op == "app" && len(v.Sub) > 0 {
		if v.Aux == "zip:"+kind {
			if flat(v.Sub[0]) == in || flat(v.Sub[0]).Op == "app" && flat(v.Sub[0]).Aux == "drained" && flat(v.Sub[0]).Sub[0] == in {
				return ""
			}
			return fmt.Sprintf("the stream returned is not that of the whole input: %s", clip(v.Sub[0].String()))
		}
		if k, fn := zipKind(appName(v)); k == kind || k == "s2" && fn == "EncodeSnappy" && kind == "snappy" {
			switch {
			case fn == "Encode" || fn == "EncodeSnappy":
				if len(v.Sub) == 2 && flat(v.Sub[1]) == in {
					return ""
				}
				return "not the whole input is encoded"
			}
		}
		if strings.HasPrefix(v.Aux, "zip:") {
			return "the stream is in the format " + v.Aux[4:] + ", not " + kind
		}
	}
	// the result of a one-call encoder
	if v.Sym != nil && v.Sym.Ev != nil {
		ev := v.Sym.Ev
		k, fn := zipKind(ev.Fn)
		if i := strings.LastIndex(ev.Fn, ")."); i > 0 {
			k, _ = zipKind(strings.TrimPrefix(ev.Fn[1:i], "*"))
			fn = ev.Fn[i+2:]
		}
		switch {
		case (fn == "Encode" || fn == "EncodeSnappy" && k == "s2") && (k == kind || k == "s2" && kind == "snappy" && fn == "EncodeSnappy"):
			if sameBytes(ev.Args[1], in) {
				return ""
			}
			return "not the whole input is encoded"
		case fn == "EncodeAll" && k == kind:
			if !sameBytes(ev.Args[1], in) {
				return "not the whole input is encoded"
			}
			if d := ev.Args[2]; d != tNil && mkLen(d) != tZero {
				return "the stream follows bytes that were already in the destination"
			}
			if w := c.plainOptions(o, ev.Args[0]); w != "" {
				return w
			}
			return ""
		}
	}
	if strings.Contains(v.String(), "partial#") {
		return "what is returned was taken before the writer was closed"
	}
	return fmt.Sprintf("on a path that can succeed what is returned is not a finished %s stream: %s", kind, clip(v.String()))
}

func appName(t *Term) string {
	n := t.Aux
	if i := strings.IndexByte(n, '#'); i > 0 {
		n = n[:i]
	}
	return n
}

func sameBytes(a, b *Term) bool { return flat(a) == b }

func clip(s string) string {
	s = strings.ReplaceAll(s, "github.com/donnie4w/gofer/", "")
	if len(s) > 120 {
		s = s[:120] + "..."
	}
	return s
}

// plainOptions: the encoder or decoder is made with options that change speed and memory only.
func (c *Ctx) plainOptions(o *Outcome, coder *Term) string {
	for _, ev := range o.S.events {
		if ev.Kind != "call" && ev.Kind != "pure" {
			continue
		}
		k, fn := zipKind(ev.Fn)
		if k != "zstd" {
			continue
		}
		switch fn {
		case "NewWriter", "NewReader", "WithEncoderLevel", "WithEncoderConcurrency", "WithEncoderCRC", "WithZeroFrames", "WithLowerEncoderMem", "WithDecoderConcurrency", "WithDecoderLowmem", "EncodeAll", "DecodeAll", "Close", "WithSingleSegment", "WithNoEntropyCompression", "WithAllLitEntropyCompression", "EncoderLevelFromZstd", "WithWindowSize", "WithEncoderPadding", "WithDecodeBuffersBelow":
		default:
			if strings.HasPrefix(fn, "With") || strings.HasPrefix(fn, "Ignore") {
				return "the option " + fn + " makes streams of some inputs unreadable, or damage to them unseen"
			}
		}
	}
	return ""
}

// unzipped: is v all that the stream of the input holds?
func (c *Ctx) unzipped(e *Engine, o *Outcome, v, in *Term, kind string, er *Term) string {
	s := o.S
	if v == nil {
		return "what is returned was taken before the stream was read"
	}
	if v.Op == "app" && v.Aux == "drained" {
		x := v.Sub[1]
		if s.nilErr(x) != 1 && er != x {
			return "reading to the end may have failed, and success is reported"
		}
		v = v.Sub[0]
		if v.Op == "app" && v.Aux == "un"+kind {
			if flat(v.Sub[0]) == in {
				return c.madeOK(o, in)
			}
			return "not the whole input is decompressed: " + clip(v.Sub[0].String())
		}
		return fmt.Sprintf("what is read to the end is not the %s stream of the input: %s", kind, clip(v.String()))
	}
	// the result of a one-call decoder
	if v.Sym != nil && v.Sym.Ev != nil {
		ev := v.Sym.Ev
		k, fn := zipKind(ev.Fn)
		if i := strings.LastIndex(ev.Fn, ")."); i > 0 {
			k, _ = zipKind(strings.TrimPrefix(ev.Fn[1:i], "*"))
			fn = ev.Fn[i+2:]
		}
		if v.Sym.Idx == 0 && (k == kind || k == "s2" && kind == "snappy") && (fn == "Decode" || fn == "DecodeAll") {
			src, dst := ev.Args[1], ev.Args[0]
			if fn == "DecodeAll" {
				dst = ev.Args[2]
				if d := dst; d != tNil && mkLen(d) != tZero {
					return "the output follows bytes that were already in the destination"
				}
				if w := c.plainOptions(o, ev.Args[0]); w != "" {
					return w
				}
			}
			if !sameBytes(src, in) {
				return "not the whole input is decoded"
			}
			x := ev.Res.Sub[1]
			if er == nil || er == x || s.nilErr(x) == 1 {
				return c.madeOK(o, in)
			}
			return "decoding may have failed, and success is reported"
		}
	}
	if er == nil {
		// no error result: nothing is the report of damage
		if v == tNil {
			for _, ev := range o.S.events {
				if _, fn := zipKind(ev.Fn); (fn == "Decode" || fn == "DecodeAll") && ev.Res != nil && ev.Res.Op == "tuple" && s.nilErr(ev.Res.Sub[1]) == 0 {
					return ""
				}
			}
		}
		return "what is returned is not the result of the decoder: " + clip(v.String())
	}
	// a loop of reads: the last one says that the stream has ended, and every one is kept (readsWritten)
	last := -1
	for i, ev := range o.S.events {
		if ev.Kind == "call" && strings.HasSuffix(ev.Fn, ".Read") && len(ev.Args) == 2 {
			last = i
		}
	}
	if last < 0 {
		return fmt.Sprintf("on a path that can succeed the %s stream has not been read: %s", kind, clip(v.String()))
	}
	ev := o.S.events[last]
	if !eofKnown(s, ev.Res.Sub[1]) {
		return "the reading stops before the end of the stream is reported"
	}
	src := (*Term)(nil)
	for _, e2 := range o.S.events {
		if k, fn := zipKind(e2.Fn); e2.Kind == "call" && fn == "NewReader" && k == kind && e2.Res != nil && e2.Res.Op == "tuple" && e2.Res.Sub[0] == ev.Args[0] {
			src = e2.Args[0]
		}
	}
	if src == nil {
		return "what is read is not the " + kind + " stream of the input"
	}
	for _, e2 := range o.S.events {
		if e2.Kind == "call" && e2.Res == src && hasPre(e2.Fn, "bytes.NewBuffer", "bytes.NewReader") && sameBytes(e2.Args[0], in) {
			return c.madeOK(o, in)
		}
	}
	return "what is read is not the whole input"
}

// madeOK: the reader was made without an error.
func (c *Ctx) madeOK(o *Outcome, in *Term) string {
	for _, ev := range o.S.events {
		if _, fn := zipKind(ev.Fn); ev.Kind == "call" && fn == "NewReader" && ev.Res != nil && ev.Res.Op == "tuple" && len(ev.Res.Sub) == 2 {
			if k, _ := zipKind(ev.Fn); k == "" {
				continue
			}
			if o.S.nilErr(ev.Res.Sub[1]) != 1 {
				return "the reader may not have been made, and success is reported"
			}
			if k, _ := zipKind(ev.Fn); k == "zstd" {
				if w := c.plainOptions(o, nil); w != "" {
					return w
				}
			}
		}
	}
	return ""
}

// readsWritten: what a read loop reads is kept, all of it and nothing else.
func (c *Ctx) readsWritten(f *ssa.Function, o *Outcome, e *Engine) {
	if o.Kind != "return" && o.Kind != "loop" {
		return
	}
	var pend *Event
	for _, ev := range o.S.events {
		if ev.Kind != "call" {
			continue
		}
		if strings.HasSuffix(ev.Fn, ".Read") && len(ev.Args) == 2 && ev.Res != nil && ev.Res.Op == "tuple" {
			if pend != nil && !zeroRead(o.S, pend) {
				break
			}
			pend = ev
			continue
		}
		if pend == nil || !strings.HasSuffix(ev.Fn, "Buffer).Write") && !strings.HasSuffix(ev.Fn, "Builder).Write") {
			continue
		}
		c.ob("reads kept")
		w := ev.Args[1]
		b := pend.Args[1]
		if whole(w, b, pend.Res.Sub[0]) {
			pend = nil
			continue
		}
		c.viol("drained", f, ev, o, "what is kept is not exactly what was read: %s", clip(w.String()))
		return
	}
	if pend != nil && !zeroRead(o.S, pend) {
		if o.Kind == "return" && len(o.Ret) > 1 && (o.S.nilErr(o.Ret[len(o.Ret)-1]) == 0 || isMadeErr(o.Ret[len(o.Ret)-1])) {
			return
		}
		c.ob("reads kept")
		c.viol("drained", f, pend, o, "bytes that were read are not kept")
	}
}

func zeroRead(s *State, ev *Event) bool {
	n := ev.Res.Sub[0]
	return n == tZero || s.arith().le(n, tZero, 0)
}

// whole: w is the first n bytes of b.
func whole(w, b, n *Term) bool {
	lo, base := tZero, b
	if b.Op == "slice" {
		base, lo = b.Sub[0], b.Sub[1]
	}
	return w.Op == "slice" && w.Sub[0] == base && w.Sub[1] == lo && lo == tZero && w.Sub[2] == n || w == base && mkLen(base) == n
}

func init() {
	checks["C15"] = checkDef{c15, "path-sensitive value analysis of the compressors and decompressors: compress writers and readers are modelled as the stream of bytes given to them, and the returned bytes are compared with the finished stream of the whole input"}
}
