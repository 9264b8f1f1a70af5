package main

import (
	"crypto/rsa"
	"crypto/x509"
	"encoding/pem"
	"fmt"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// ---------- C30: encryption and decryption agree ----------

// aesUse is what one direction of a block cipher works with.
type aesUse struct {
	fn            *ssa.Function
	cipher, mode  string
	key, iv       *Term
	keyStr, ivStr string
}

type rsaUse struct {
	fn      *ssa.Function
	scheme  string
	parse   map[string]bool
	literal map[string]bool // keys written in the source
	params  string          // hash, label and other arguments
}

func c30(c *Ctx) {
	if c.load("") == nil {
		return
	}
	c.P = c.progs[""]
	thisProg = c.P
	c.rule("derivation: both directions make the cipher from the same bytes of the password, and start from the same IV")
	c.rule("padding: what is encrypted is the whole message followed by k bytes of value k, 1 <= k <= block size, a whole number of blocks; exactly the number the last byte tells is removed, and only what cannot be such a ciphertext is refused")
	c.rule("scheme: the RSA directions use matching schemes and the key formats of a matching pair, also for the keys in the source")
	c.rule("whole: the whole message or ciphertext is used and the whole result returned")
	c.rule("reported: a step that fails makes the operation fail")
	n := 0
	fs := c.entryPoints("keystore")
	byName := map[string]*ssa.Function{}
	for _, f := range fs {
		byName[short(f.String())] = f
	}
	for _, f := range fs {
		nm := short(f.String())
		if !strings.Contains(f.Name(), "Encrypt") {
			continue
		}
		i := strings.LastIndex(nm, "Encrypt")
		g := byName[nm[:i]+"Decrypt"+nm[i+7:]]
		if g == nil {
			continue
		}
		a1, r1 := c.encrypts(f, true)
		a2, r2 := c.encrypts(g, false)
		switch {
		case a1 != nil && a2 != nil:
			n++
			c.ob("cipher pairs")
			m := map[*Term]*Term{}
			for i, p := range paramTerms(f) {
				if q := paramTerms(g); i < len(q) {
					m[p] = q[i]
				}
			}
			switch {
			case a1.cipher != a2.cipher:
				c.viol("derivation", g, nil, nil, "one direction uses the cipher %s, the other %s", a1.cipher, a2.cipher)
			case a1.mode != a2.mode:
				c.viol("derivation", g, nil, nil, "one direction uses the mode %s, the other %s", a1.mode, a2.mode)
			case subst(a1.key, m) != a2.key:
				c.viol("derivation", g, nil, nil, "the cipher key is made differently: %s and %s", clip(a1.key.String()), clip(a2.key.String()))
			case subst(a1.iv, m) != a2.iv:
				c.viol("derivation", g, nil, nil, "the IV is made differently: %s and %s", clip(a1.iv.String()), clip(a2.iv.String()))
			}
		case r1 != nil && r2 != nil:
			n++
			c.rsaPair(r1, r2)
		default:
			c.viol("derivation", f, nil, nil, "%s and %s do not use ciphers of one kind", nm, short(g.String()))
		}
	}
	if n == 0 {
		c.fail("no pair of encryption and decryption")
	}
}

// encrypts analyses one direction.
func (c *Ctx) encrypts(f *ssa.Function, enc bool) (a *aesUse, r *rsaUse) {
	e := c.engine()
	e.OnEvent = recordContents
	msg := (*Term)(nil)
	for i, p := range f.Params {
		if isByteSlice(p.Type()) && msg == nil {
			msg = paramTerms(f)[i]
		}
	}
	for _, o := range c.run(e, f) {
		if o.Kind != "return" {
			continue
		}
		if len(o.Ret) != 2 {
			continue
		}
		s := o.S
		er := o.Ret[1]
		failed := isMadeErr(er) || s.nilErr(er) == 0
		var mk, md, cr, rs *Event
		var blk int64
		for _, ev := range s.events {
			if ev.Kind != "call" {
				continue
			}
			switch {
			case ev.Fn == "crypto/aes.NewCipher" || ev.Fn == "crypto/des.NewCipher" || ev.Fn == "crypto/des.NewTripleDESCipher":
				mk = ev
				blk = 16
				if strings.Contains(ev.Fn, "des") {
					blk = 8
				}
			case hasPre(ev.Fn, "crypto/cipher.New"):
				md = ev
			case strings.HasSuffix(ev.Fn, ".CryptBlocks"):
				cr = ev
			case hasPre(ev.Fn, "crypto/rsa.Encrypt", "crypto/rsa.Decrypt"):
				rs = ev
			}
		}
		at := func(ev *Event, rule, m string, x ...any) { c.viol(rule, f, ev, o, m, x...) }
		if mk != nil && md != nil && !failed {
			u := &aesUse{fn: f, cipher: mk.Fn, key: contentAt(mk, 0), iv: contentAt(md, len(md.Args)-1)}
			u.mode = strings.TrimSuffix(strings.TrimSuffix(md.Fn, "Encrypter"), "Decrypter")
			if !strings.HasSuffix(md.Fn, map[bool]string{true: "Encrypter", false: "Decrypter"}[enc]) {
				at(md, "derivation", "%s is used in the wrong direction", md.Fn)
			}
			if md.Args[0] != mk.Res.Sub[0] {
				at(md, "derivation", "the mode does not use the cipher that was made from the key")
			}
			if a != nil && (a.key != u.key || a.iv != u.iv || a.mode != u.mode || a.cipher != u.cipher) {
				at(md, "derivation", "the cipher, its key or IV depend on more than the password")
			}
			a = u
		}
		if rs != nil {
			if r == nil {
				r = &rsaUse{fn: f, parse: map[string]bool{}, literal: map[string]bool{}}
			}
			c.rsaPath(f, o, r, rs, msg, failed, er, at)
			continue
		}
		if failed {
			if mk != nil && s.nilErr(lastOf(mk)) == 1 && !enc && cr == nil || cr != nil && !enc {
				c.ob("refusals")
				if why := c.refuses(e, o, cr, msg, blk); why != "" {
					at(lastCallEv(o), "padding", "%s", why)
				}
			} else if mk != nil && s.nilErr(lastOf(mk)) == 1 && enc {
				at(lastCallEv(o), "reported", "an error is returned although nothing failed")
			} else if mk == nil && !failedCall(s) {
				for _, ft := range s.facts {
					if msg != nil && ft.T.mentions(msg) {
						at(lastCallEv(o), "whole", "some messages are refused")
						break
					}
				}
			}
			continue
		}
		if mk == nil {
			at(lastCallEv(o), "whole", "success is possible without the cipher")
			continue
		}
		if er != lastOf(mk) && s.nilErr(lastOf(mk)) != 1 {
			at(mk, "reported", "an error of %s is not returned", mk.Fn)
		}
		if md == nil || cr == nil || cr.Args[0] != md.Res {
			at(lastCallEv(o), "whole", "success is possible without the cipher")
			continue
		}
		dst, src := cr.Args[1], cr.Args[2]
		if enc {
			c.ob("paddings")
			if why := c.padded(e, o, cr, msg, blk); why != "" {
				at(cr, "padding", "%s", why)
				continue
			}
			if !wholeOf(e, s, o.Ret[0], dst, mkLen(src)) {
				at(cr, "whole", "what is returned is not the whole ciphertext: %s", clip(o.Ret[0].String()))
			}
			continue
		}
		c.ob("paddings removed")
		if src != msg {
			at(cr, "whole", "not the whole ciphertext is decrypted")
			continue
		}
		if why := c.unpadded(e, o, dst, msg, blk); why != "" {
			at(cr, "padding", "%s", why)
		}
	}
	return
}

// wholeOf: t is all n bytes written to dst.
func wholeOf(e *Engine, s *State, t, dst, n *Term) bool {
	t = flatCopy(t)
	if t == dst {
		return true
	}
	tb, tl, th := window(t)
	db, dl, _ := window(dst)
	if tb != db {
		return false
	}
	A := e.arith(s)
	return A.same(tl, dl) && A.same(mkBin("-", th, tl, nil), n)
}

func window(t *Term) (base, lo, hi *Term) {
	if t.Op == "slice" {
		return t.Sub[0], t.Sub[1], t.Sub[2]
	}
	return t, tZero, mkLen(t)
}

// flatCopy looks through complete copies.
func flatCopy(t *Term) *Term {
	for t.Op == "append" && len(t.Sub) == 2 && (t.Sub[0] == tNil || mkLen(t.Sub[0]) == tZero && t.Sub[0].Op != "obj") {
		t = t.Sub[1]
	}
	return t
}

// padded: the plaintext is the message and its padding.
func (c *Ctx) padded(e *Engine, o *Outcome, cr *Event, msg *Term, blk int64) string {
	s := o.S
	A := e.arith(s)
	src := cr.Args[2]
	n := mkBin("-", mkLen(src), mkLen(msg), nil) // the number of bytes added
	if v := cr.Mem[src]; v != nil && src.Op != "append" {
		src = v
	}
	var k *Term
	val := func(b *Term) *Term { // the value of a padding byte
		for b.Op == "conv" && len(b.Sub) == 1 {
			b = b.Sub[0]
		}
		return b
	}
	ps := e.parts(s, src)
	for len(ps) > 0 && mkLen(ps[0]) == tZero {
		ps = ps[1:]
	}
	switch {
	case len(ps) == 2 && ps[0] == msg && ps[1].Op == "app" && ps[1].Aux == "bytes.Repeat":
		b := e.parts(s, ps[1].Sub[0])
		if len(b) != 1 || b[0].Op != "list" {
			return "what follows the message is not bytes of one value"
		}
		k, n = val(b[0].Sub[0]), ps[1].Sub[1]
	default:
		// a buffer the message was copied to and the rest of which was filled
		base, lo, hi := window(cr.Args[2])
		if base.Op != "obj" || lo != tZero {
			return "what is encrypted is not the message followed by its padding: " + clip(src.String())
		}
		n = mkBin("-", hi, mkLen(msg), nil)
		copied := false
		for _, ev := range s.events {
			if ev.N >= cr.N {
				break
			}
			if ev.Kind == "copy" && ev.Args[1] == msg {
				b2, l2, h2 := window(ev.Args[0])
				if b2 == base && l2 == tZero && A.le(mkLen(msg), h2, 0) {
					copied = true
				}
			}
		}
		if !copied {
			return "what is encrypted is not the message followed by its padding: " + clip(src.String())
		}
		var why string
		if k, why = c.padLoop(e, o, cr, base, mkLen(msg), hi); why != "" {
			return why
		}
	}
	if k == nil || !A.same(k, n) {
		return "the padding bytes do not tell how many there are"
	}
	if !A.le(tInt(1), n, 0) {
		return "the padding can be empty"
	}
	if !A.le(n, tInt(blk), 0) {
		return "the padding can be longer than a block"
	}
	rem := mkBin("%", mkLen(msg), tInt(blk), nil)
	sum := mkBin("+", n, rem, nil)
	if !A.same(sum, tInt(blk)) && !A.same(mkBin("+", n, mkBin("&", mkLen(msg), tInt(blk-1), nil), nil), tInt(blk)) {
		return "message and padding are not a whole number of blocks"
	}
	return ""
}

// padLoop: a loop gives every byte of base from lo to hi one value.
func (c *Ctx) padLoop(e *Engine, o *Outcome, before *Event, base, lo, hi *Term) (val *Term, why string) {
	A := e.arith(o.S)
	strip := func(b *Term) *Term {
		for b.Op == "conv" && len(b.Sub) == 1 {
			b = b.Sub[0]
		}
		return b
	}
	first := false
	for _, ev := range o.S.events {
		if ev.N >= before.N {
			break
		}
		if ev.Kind != "store" || ev.Args[0].Op != "idx" || ev.Args[0].Sub[0] != base {
			continue
		}
		v := strip(ev.Args[1])
		if val != nil && val != v {
			return nil, "the padding bytes differ"
		}
		val = v
		i := ev.Args[0].Sub[1]
		ls := loopSyms(i)
		if len(ls) == 0 {
			if A.same(i, lo) {
				first = true
			}
			continue
		}
	}
	if val == nil || !first {
		return nil, "what follows the message is not its padding"
	}
	// the loop ends when the counter reaches the end
	for _, ev := range o.S.events {
		if ev.Kind == "loop" && ev.N < before.N {
			return val, ""
		}
	}
	if A.le(hi, mkBin("+", lo, tInt(1), nil), 0) {
		return val, ""
	}
	return nil, "not every byte after the message is padding"
}

// padByte is the last byte of what was decrypted, as the path reads it.
func padByte(e *Engine, o *Outcome, dst, n *Term) *Term {
	A := e.arith(o.S)
	base, lo, _ := window(dst)
	var r *Term
	see := func(x *Term) bool {
		if (x.Op == "init" && x.Sub[0].Op == "idx" || x.Op == "at") && r == nil {
			a := x
			if x.Op == "init" {
				a = x.Sub[0]
			}
			if (a.Sub[0] == base || a.Sub[0] == dst) && A.same(mkBin("-", a.Sub[1], lo, nil), mkBin("-", n, tInt(1), nil)) {
				r = x
			}
		}
		return true
	}
	for _, f := range o.S.facts {
		f.T.walk(see)
	}
	for _, t := range o.Ret {
		if t != nil {
			t.walk(see)
		}
	}
	return r
}

func (c *Ctx) unpadded(e *Engine, o *Outcome, dst, msg *Term, blk int64) string {
	s := o.S
	A := e.arith(s)
	n := mkLen(msg)
	_, dl, dh := window(dst)
	if !A.le(n, mkBin("-", dh, dl, nil), 0) {
		return "the buffer may be shorter than the ciphertext"
	}
	p := padByte(e, o, dst, n)
	if p == nil {
		return "the padding is not taken from the last byte"
	}
	t := flatCopy(o.Ret[0])
	tb, tl, th := window(t)
	if db, _, _ := window(dst); tb != db || !A.same(tl, dl) {
		return "what is returned does not begin where the message does"
	}
	if !A.same(mkBin("-", th, tl, nil), mkBin("-", n, p, nil)) && !A.same(mkBin("-", th, tl, nil), mkBin("-", n, mk("conv", "int", p), nil)) {
		return "not exactly the padding is removed: " + clip(th.String())
	}
	if !A.le(tInt(1), p, 0) || !A.le(p, tInt(blk), 0) {
		return "padding that cannot be right is removed"
	}
	return ""
}

// refuses: does a failing path refuse what the other direction makes?
func (c *Ctx) refuses(e *Engine, o *Outcome, cr *Event, msg *Term, blk int64) string {
	s := o.S
	n := mkLen(msg)
	rem := mkBin("%", n, tInt(blk), nil)
	if t, ok := s.factOf(mkBin("==", tZero, rem, nil)); ok && !t {
		return ""
	}
	A := e.arith(s)
	A.assume(mkBin("<", n, tInt(blk), nil), false)
	A.assume(mkBin("==", rem, tZero, nil), true)
	if A.contradictory() {
		return ""
	}
	if cr != nil {
		base, _, _ := window(cr.Args[1])
		p := padByte(e, o, cr.Args[1], n)
		other := false
		for _, f := range s.facts {
			f.T.walk(func(x *Term) bool {
				if (x.Op == "idx" || x.Op == "at") && x.Sub[0] == base && len(loopSyms(x.Sub[1])) > 0 {
					other = true
				}
				return true
			})
		}
		if other {
			return ""
		}
		if p != nil {
			A.assume(mkBin("<", p, tInt(1), nil), false)
			A.assume(mkBin("<", tInt(blk), p, nil), false)
			if A.contradictory() {
				return ""
			}
			if t, ok := s.factOf(mkBin("==", tZero, p, nil)); ok && t {
				return ""
			}
		}
	}
	return "a ciphertext that the other direction makes is refused"
}

// ---------- RSA ----------

func (c *Ctx) rsaPath(f *ssa.Function, o *Outcome, r *rsaUse, rs *Event, msg *Term, failed bool, er *Term, at func(*Event, string, string, ...any)) {
	s := o.S
	c.ob("rsa operations")
	i := strings.Index(rs.Fn, "rsa.")
	name := rs.Fn[i+4:]
	sch := strings.TrimPrefix(strings.TrimPrefix(name, "Encrypt"), "Decrypt")
	if r.scheme != "" && r.scheme != sch {
		at(rs, "scheme", "the padding scheme is not always the same")
	}
	r.scheme = sch
	var key, text *Term
	prm := ""
	for k, a := range rs.Args {
		switch {
		case a == msg:
			text = a
		case isNil(a) && hasPre(name, "DecryptPKCS1v15") && k == 0 || isNil(a) && hasPre(name, "DecryptOAEP") && k == 1:
			// decryption needs no randomness
		case a.Sym != nil && a.Sym.Ev != nil && hasPre(a.Sym.Ev.Fn, "crypto/x509.Parse") || mentionsParse(a) != nil:
			key = a
		case a.Op == "init" && a.Sub[0].Op == "global" && strings.HasSuffix(a.Sub[0].Aux, "rand.Reader"):
		case strings.Contains(a.String(), "rand.Reader"):
		default:
			prm += " " + stableName(a)
		}
	}
	if text == nil {
		at(rs, "whole", "the operation is not on the whole message")
		prm = ""
	}
	if r.params != "" && r.params != prm {
		at(rs, "scheme", "the label or hash is not always the same")
	}
	r.params = prm
	if key == nil {
		at(rs, "scheme", "the key is not one that was parsed")
		return
	}
	pe := mentionsParse(key)
	r.parse[pe.Fn] = true
	if s.nilErr(lastOf(pe)) != 1 {
		at(pe, "reported", "the key is used although it may not have been parsed")
	}
	// the key's text: the parameter, the file named, or the key in the source
	var src *Term
	if b := pe.Args[0]; b.Op == "init" && b.Sub[0].Op == "fld" && b.Sub[0].Aux == "Bytes" {
		if blk := b.Sub[0].Sub[0]; blk.Sym != nil && blk.Sym.Ev != nil && blk.Sym.Ev.Fn == "encoding/pem.Decode" && blk.Sym.Idx == 0 {
			src = flat(contentAt(blk.Sym.Ev, 0))
		}
	}
	if src == nil {
		at(pe, "scheme", "what is parsed is not the decoded key")
		return
	}
	var path, keyBytes *Term
	for i, p := range f.Params {
		t := paramTerms(f)[i]
		if isStringy(p.Type()) {
			path = t
		} else if isByteSlice(p.Type()) && t != msg {
			keyBytes = t
		}
	}
	lit := literalOf(c, src)
	switch {
	case keyBytes != nil:
		if src != keyBytes {
			at(pe, "scheme", "the key used is not the whole key given")
		}
	case path != nil && lit != "":
		r.literal[lit] = true
		if s.truth(mkBin("==", path, tStr(""), nil)) != 1 {
			at(pe, "scheme", "the key in the source is used although a key file may have been given")
		}
	case path != nil:
		ev := (*Event)(nil)
		if src.Sym != nil {
			ev = src.Sym.Ev
		}
		if ev == nil || !hasPre(ev.Fn, "os.ReadFile", "io/ioutil.ReadFile") || ev.Args[0] != path {
			at(pe, "scheme", "the key used is not that of the file given")
		} else if s.nilErr(lastOf(ev)) != 1 {
			at(ev, "reported", "the key file is used although it may not have been read")
		}
	}
	x := lastOf(rs)
	if !failed && er != x && s.nilErr(x) != 1 {
		at(rs, "reported", "an error of %s is not returned", rs.Fn)
	}
	if failed {
		if s.nilErr(x) != 0 && er != x && !failedCall(s) {
			at(rs, "reported", "an error is returned although nothing failed")
		}
		return
	}
	if flatCopy(o.Ret[0]) != rs.Res.Sub[0] {
		at(rs, "whole", "what is returned is not the whole result")
	}
}

func mentionsParse(t *Term) (ev *Event) {
	t.walk(func(x *Term) bool {
		if x.Sym != nil && x.Sym.Ev != nil && hasPre(x.Sym.Ev.Fn, "crypto/x509.Parse") && x.Sym.Idx == 0 && ev == nil {
			ev = x.Sym.Ev
		}
		return true
	})
	return
}

// stableName names an argument without what differs from path to path.
func stableName(t *Term) string {
	if t.Op == "obj" && t.Obj != nil {
		return t.Obj.Kind
	}
	return t.String()
}

// literalOf is the text of a constant, or of a variable that is never written.
func literalOf(c *Ctx, t *Term) string {
	if t.Op == "const" && strings.HasPrefix(t.Aux, "\"") {
		return unq(t.Aux)
	}
	if t.Op == "init" && t.Sub[0].Op == "global" {
		if g := c.P.global(t.Sub[0].Aux); g != nil {
			if k, ok := c.P.initOf(g).(*ssa.Const); ok {
				if x := constTerm(k); x.Op == "const" && strings.HasPrefix(x.Aux, "\"") {
					return unq(x.Aux)
				}
			}
		}
	}
	return ""
}

func parseLiteral(text, fn string) (*rsa.PublicKey, string) {
	b, _ := pem.Decode([]byte(text))
	if b == nil {
		return nil, "the key in the source is not PEM encoded"
	}
	var k any
	var err error
	switch strings.TrimPrefix(fn, "crypto/x509.") {
	case "ParsePKIXPublicKey":
		k, err = x509.ParsePKIXPublicKey(b.Bytes)
	case "ParsePKCS1PublicKey":
		k, err = x509.ParsePKCS1PublicKey(b.Bytes)
	case "ParsePKCS1PrivateKey":
		k, err = x509.ParsePKCS1PrivateKey(b.Bytes)
	case "ParsePKCS8PrivateKey":
		k, err = x509.ParsePKCS8PrivateKey(b.Bytes)
	default:
		return nil, fn + " does not parse RSA keys"
	}
	if err != nil {
		return nil, "the key in the source is not in the format of " + fn
	}
	switch k := k.(type) {
	case *rsa.PublicKey:
		return k, ""
	case *rsa.PrivateKey:
		return &k.PublicKey, ""
	}
	return nil, "the key in the source is not an RSA key"
}

func (c *Ctx) rsaPair(enc, dec *rsaUse) {
	c.ob("rsa pairs")
	if enc.scheme != dec.scheme {
		base := func(s string) string { return strings.TrimSuffix(s, "SessionKey") }
		if base(enc.scheme) != base(dec.scheme) {
			c.viol("scheme", dec.fn, nil, nil, "one direction uses %s, the other %s", enc.scheme, dec.scheme)
		}
	}
	if enc.params != dec.params {
		c.viol("scheme", dec.fn, nil, nil, "the label or hash differ: %s and %s", enc.params, dec.params)
	}
	var pub, prv *rsa.PublicKey
	get := func(u *rsaUse) (k *rsa.PublicKey) {
		for l := range u.literal {
			ok := ""
			for p := range u.parse {
				x, why := parseLiteral(l, p)
				if x == nil {
					ok = why
					continue
				}
				k = x
			}
			c.ob("keys in the source")
			if k == nil {
				c.viol("scheme", u.fn, nil, nil, "%s", ok)
			}
		}
		return
	}
	pub, prv = get(enc), get(dec)
	if pub != nil && prv != nil && !pub.Equal(prv) {
		c.viol("scheme", dec.fn, nil, nil, "the two keys in the source are not a pair")
	}
	// the formats: what parses the public half and what parses the private half
	pairs := map[string]string{"ParsePKIXPublicKey": "ParsePKCS1PrivateKey ParsePKCS8PrivateKey", "ParsePKCS1PublicKey": "ParsePKCS1PrivateKey"}
	for p := range enc.parse {
		for q := range dec.parse {
			pn, qn := strings.TrimPrefix(p, "crypto/x509."), strings.TrimPrefix(q, "crypto/x509.")
			if !strings.Contains(pairs[pn], qn) {
				c.viol("scheme", dec.fn, nil, nil, "%s", fmt.Sprintf("%s does not read the other half of a key that %s reads", qn, pn))
			}
		}
	}
}

func init() {
	checks["C30"] = checkDef{c30, "path-sensitive value analysis of both directions of every encryption pair: the bytes the cipher key and IV are made of are compared as terms, padding and its removal are decided by linear arithmetic over the lengths, the RSA schemes and key formats are compared and the keys in the source are parsed"}
}
