package main

import (
	"fmt"
	"go/types"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// ---------- C16: integers, base 58 and UUID text ----------

// Bit is where one bit of a value comes from: bit I of V, a constant (V nil, I 0 or 1), or unknown (I -1).
type Bit struct {
	V *Term
	I int
}

var bitUnknown = Bit{nil, -1}

func (b Bit) String() string {
	if b.V == nil {
		return strconv.Itoa(b.I)
	}
	return fmt.Sprintf("%s.%d", b.V, b.I)
}

func intWidth(t types.Type) (w int, unsigned, ok bool) {
	if t == nil {
		return 64, false, false
	}
	b, isB := t.Underlying().(*types.Basic)
	if !isB || b.Info()&types.IsInteger == 0 {
		return 64, false, false
	}
	sz, u := intSize(b)
	return sz * 8, u, true
}

// bitOf is the origin of bit k of t, for values made with shifts, masks, conversions and sums of disjoint parts.
func bitOf(t *Term, k int) Bit { return bitAt(t, k, 0) }

type bitKey struct {
	t *Term
	k int
}

var bitMemo = map[bitKey]Bit{}

func bitAt(t *Term, k, d int) Bit {
	if k < 0 {
		return Bit{nil, 0}
	}
	if k > 63 || d > 60 {
		return bitUnknown
	}
	if b, ok := bitMemo[bitKey{t, k}]; ok {
		return b
	}
	b := bitOnce(t, k, d)
	bitMemo[bitKey{t, k}] = b
	return b
}

func bitOnce(t *Term, k, d int) Bit {
	if t.isConst() {
		if n, ok := t.intVal(); ok {
			return Bit{nil, int(uint64(n) >> uint(k) & 1)}
		}
		if n, err := strconv.ParseUint(t.Aux, 0, 64); err == nil {
			return Bit{nil, int(n >> uint(k) & 1)}
		}
		return bitUnknown
	}
	w, uns, typed := intWidth(t.Typ)
	if typed && k >= w {
		if uns {
			return Bit{nil, 0}
		}
		return bitUnknown // copies of the sign
	}
	zero := func(b Bit) bool { return b == Bit{nil, 0} }
	one := func(b Bit) bool { return b == Bit{nil, 1} }
	switch t.Op {
	case "conv":
		if len(t.Sub) == 1 && (strings.HasPrefix(t.Aux, "u") || strings.HasPrefix(t.Aux, "i")) {
			if n, err := strconv.Atoi(t.Aux[1:]); err == nil {
				if k >= n {
					if t.Aux[0] == 'u' {
						return Bit{nil, 0}
					}
					return bitUnknown
				}
				return bitAt(t.Sub[0], k, d+1)
			}
		}
	case "bin":
		x, y := t.Sub[0], t.Sub[1]
		if (t.Aux == "<<" || t.Aux == ">>" || t.Aux == "*" || t.Aux == "/" || t.Aux == "%") && !y.isConst() && !(t.Aux == "*" && x.isConst()) {
			return bitUnknown
		}
		switch t.Aux {
		case "<<":
			n, ok := y.intVal()
			if !ok || n < 0 || n > 64 {
				return bitUnknown
			}
			return bitAt(x, k-int(n), d+1)
		case ">>":
			n, ok := y.intVal()
			if !ok || n < 0 || n > 64 {
				return bitUnknown
			}
			xw, xu, xt := intWidth(x.Typ)
			if xt && k+int(n) >= xw {
				if xu {
					return Bit{nil, 0}
				}
				return bitUnknown
			}
			return bitAt(x, k+int(n), d+1)
		case "*":
			if x.isConst() {
				x, y = y, x
			}
			if n, ok := y.intVal(); ok && n > 0 && n&(n-1) == 0 {
				for n > 1 {
					n >>= 1
					k--
				}
				return bitAt(x, k, d+1)
			}
			return bitUnknown
		case "/":
			if n, ok := y.intVal(); ok && n > 0 && n&(n-1) == 0 {
				if _, xu, xt := intWidth(x.Typ); xt && xu {
					for n > 1 {
						n >>= 1
						k++
					}
					return bitAt(x, k, d+1)
				}
			}
			return bitUnknown
		case "%":
			if n, ok := y.intVal(); ok && n > 0 && n&(n-1) == 0 {
				if _, xu, xt := intWidth(x.Typ); xt && xu {
					if int64(1)<<uint(k) < n {
						return bitAt(x, k, d+1)
					}
					return Bit{nil, 0}
				}
			}
			return bitUnknown
		case "|", "^", "&", "+", "&^":
			if t.Aux == "+" {
				// a sum of parts that share no bit is their union
				for i := 0; i < w && i < 64; i++ {
					a, b := bitAt(x, i, d+1), bitAt(y, i, d+1)
					if !zero(a) && !zero(b) {
						return Bit{t, k}
					}
				}
			}
			a, b := bitAt(x, k, d+1), bitAt(y, k, d+1)
			switch t.Aux {
			case "|", "+":
				switch {
				case zero(a):
					return b
				case zero(b):
					return a
				case one(a) || one(b):
					return Bit{nil, 1}
				case a == b:
					return a
				}
			case "^":
				switch {
				case zero(a):
					return b
				case zero(b):
					return a
				}
			case "&":
				switch {
				case zero(a) || zero(b):
					return Bit{nil, 0}
				case one(a):
					return b
				case one(b):
					return a
				case a == b:
					return a
				}
			case "&^":
				switch {
				case zero(a) || one(b):
					return Bit{nil, 0}
				case zero(b):
					return a
				}
			}
			return bitUnknown
		}
		return bitUnknown
	}
	return Bit{t, k}
}

// elemsOf are the elements of a byte sequence of known length.
func (e *Engine) elemsOf(s *State, t *Term) ([]*Term, bool) {
	if t == nil {
		return nil, false
	}
	bt := types.Typ[types.Byte]
	c := e.content(s, t)
	switch c.Op {
	case "const":
		if c == tNil {
			return nil, true
		}
		if strings.HasPrefix(c.Aux, "\"") {
			var r []*Term
			for _, b := range []byte(unq(c.Aux)) {
				r = append(r, tInt(int64(b)))
			}
			return r, true
		}
	case "list":
		return c.Sub, true
	case "append", "stream", "concat":
		if len(c.Sub) == 2 {
			a, ok1 := e.elemsOf(s, c.Sub[0])
			b, ok2 := e.elemsOf(s, c.Sub[1])
			return append(append([]*Term{}, a...), b...), ok1 && ok2
		}
	case "app":
		if c.Aux == "bufbytes" {
			return e.elemsOf(s, c.Sub[0])
		}
		if c.Aux == "encoding/hex.EncodeToString" && len(c.Sub) == 1 {
			el, ok := e.elemsOf(s, c.Sub[0])
			var r []*Term
			for _, b := range el {
				r = append(r, mkT("app", "hexhi", bt, b), mkT("app", "hexlo", bt, b))
			}
			return r, ok
		}
		if c.Aux == "fmt.Sprintf" && len(c.Sub) == 2 {
			return e.sprinted(s, c.Sub[0], c.Sub[1])
		}
	case "conv":
		if (c.Aux == "bytes" || c.Aux == "string") && len(c.Sub) == 1 {
			return e.elemsOf(s, c.Sub[0])
		}
	case "slice":
		if b := c.Sub[0]; b.Op == "app" || b.Op == "concat" || b.Op == "conv" {
			el, ok := e.elemsOf(s, b)
			lo, ok1 := c.Sub[1].intVal()
			hi, ok2 := c.Sub[2].intVal()
			if c.Sub[2].Op == "none" {
				hi, ok2 = int64(len(el)), true
			}
			if ok && ok1 && ok2 && lo >= 0 && lo <= hi && hi <= int64(len(el)) {
				return el[lo:hi], true
			}
		}
	case "arr":
		if i := strings.IndexByte(c.Aux, ':'); i >= 0 {
			n, _ := strconv.Atoi(c.Aux[i+1:])
			var r []*Term
			for k := 0; k < n; k++ {
				r = append(r, e.load(s, mkIdx(c.Sub[0], tInt(int64(k)), types.NewPointer(bt)), bt))
			}
			return r, true
		}
	}
	if n, ok := mkLen(c).intVal(); ok && n >= 0 && n <= 64 {
		var r []*Term
		for k := int64(0); k < n; k++ {
			if c.Op == "slice" || c.Op == "obj" {
				r = append(r, e.load(s, mkIdx(c, tInt(k), types.NewPointer(bt)), bt))
			} else {
				r = append(r, mkAt(c, tInt(k), bt))
			}
		}
		return r, true
	}
	return nil, false
}

// sprinted are the characters of a formatted text, for %x of bytes and %s.
func (e *Engine) sprinted(s *State, format, args *Term) ([]*Term, bool) {
	l := e.content(s, args)
	if !format.isConst() || !strings.HasPrefix(format.Aux, "\"") || l.Op != "list" {
		return nil, false
	}
	fm := unq(format.Aux)
	var r []*Term
	n := 0
	for i := 0; i < len(fm); i++ {
		if fm[i] != '%' {
			r = append(r, tInt(int64(fm[i])))
			continue
		}
		j := i + 1
		for j < len(fm) && fm[j] >= '0' && fm[j] <= '9' {
			j++
		}
		if j >= len(fm) || n >= len(l.Sub) {
			return nil, false
		}
		a, flag := l.Sub[n], fm[i+1:j]
		n++
		i = j
		hexOf := func(b *Term) {
			r = append(r, mkT("app", "hexhi", types.Typ[types.Byte], b), mkT("app", "hexlo", types.Typ[types.Byte], b))
		}
		if w, u, ok := intWidth(a.Typ); ok && a.Typ != nil {
			if fm[j] != 'x' || flag != "02" || w != 8 || !u {
				return nil, false
			}
			hexOf(a)
			continue
		}
		if flag != "" {
			return nil, false
		}
		el, ok := e.elemsOf(s, a)
		if !ok {
			return nil, false
		}
		for _, b := range el {
			switch fm[j] {
			case 'x':
				hexOf(b)
			case 's':
				r = append(r, b)
			default:
				return nil, false
			}
		}
	}
	return r, n == len(l.Sub)
}

// sameByte: b holds bits lo..lo+7 of v.
func sameByte(b, v *Term, lo int) bool {
	for j := 0; j < 8; j++ {
		if (bitOf(b, j) != Bit{v, lo + j}) {
			return false
		}
	}
	return true
}

// bigEndian: el are the bytes of v, highest first.
func bigEndianOf(el []*Term, v *Term, w int) (int, bool) {
	if len(el) != w/8 {
		return -1, false
	}
	for i, b := range el {
		if !sameByte(b, v, 8*(len(el)-1-i)) {
			return i, false
		}
	}
	return 0, true
}

func c16(c *Ctx) {
	if c.load("") == nil {
		return
	}
	c.P = c.progs[""]
	thisProg = c.P
	c.rule("encode: the bytes returned for an integer are its bits, most significant byte first (origin of every bit)")
	c.rule("decode: the value returned for as many bytes as the integer has is those bytes, most significant first (origin of every bit)")
	c.rule("array: every integer of the slice is encoded or decoded at its own place, most significant byte first")
	c.rule("base58: repeated division by the number of letters, the remainder's letter appended and the letters reversed; decoding multiplies and adds each letter's position, in order, and rejects unknown letters and overflow, and nothing else; the letters are distinct and never written")
	c.rule("uuid: the text is the hexadecimal form of all bytes in order, and parsing decodes exactly those digits into all bytes, rejecting other lengths, separators and digits")
	for _, w := range []int{64, 32, 16} {
		c.intEncode(w)
		c.intDecode(w)
	}
	c.arrayCodec()
	c.base58()
	c.uuidText()
}

func (c *Ctx) intEncode(w int) {
	f := c.pub("util", "", fmt.Sprintf("Int%dToBytes", w))
	if f == nil {
		return
	}
	e := c.engine()
	outs := c.run(e, f)
	for _, o := range outs {
		if o.Kind != "return" {
			c.viol("encode", f, nil, o, "it may %s", o.Kind)
			continue
		}
		c.ob("encoded values")
		el, ok := e.elemsOf(o.S, o.Ret[0])
		if !ok {
			c.viol("encode", f, nil, o, "the bytes returned are not determined: %s", o.Ret[0])
			continue
		}
		if len(el) != w/8 {
			c.viol("encode", f, nil, o, "it returns %d bytes for %d bits", len(el), w)
			continue
		}
		if i, ok := bigEndianOf(el, e.Params[0], w); !ok {
			c.viol("encode", f, nil, o, "byte %d is %s, not bits %d to %d of the integer", i, el[i], w-8*i-8, w-8*i-1)
		}
	}
}

// decodeInto runs a decoder on a slice of n unknown bytes.
func (c *Ctx) decodeInto(e *Engine, f *ssa.Function, n int) ([]*Outcome, []*Term) {
	var el []*Term
	for i := 0; i < n; i++ {
		x := mkSym("byte", types.Typ[types.Byte])
		x.Sym.Name = fmt.Sprintf("b%d", i)
		el = append(el, x)
	}
	a := mkT("list", "", types.NewSlice(types.Typ[types.Byte]), el...)
	outs := e.RunFrom(f, []*Term{a}, nil, newState())
	if e.Err != nil {
		c.fail("%s: %v", fnName(f), e.Err)
	}
	c.account(f, outs)
	return outs, el
}

func (c *Ctx) intDecode(w int) {
	f := c.pub("util", "", fmt.Sprintf("BytesToInt%d", w))
	if f == nil {
		return
	}
	e := c.engine()
	outs, el := c.decodeInto(e, f, w/8)
	for _, o := range outs {
		if o.Kind != "return" {
			c.viol("decode", f, nil, o, "it may %s on %d bytes", o.Kind, w/8)
			continue
		}
		c.ob("decoded values")
		for k := 0; k < w; k++ {
			want := Bit{el[len(el)-1-k/8], k % 8}
			if got := bitOf(o.Ret[0], k); got != want {
				c.viol("decode", f, nil, o, "bit %d of the result is %s, not bit %d of byte %d", k, got, k%8, len(el)-1-k/8)
				break
			}
		}
	}
	// fewer bytes are the low bytes of the integer
	for n := 0; n < w/8; n++ {
		e := c.engine()
		outs, el := c.decodeInto(e, f, n)
		for _, o := range outs {
			c.ob("decoded values")
			if o.Kind != "return" {
				c.viol("decode", f, nil, o, "it may %s on %d bytes", o.Kind, n)
				continue
			}
			for k := 0; k < w; k++ {
				want := Bit{nil, 0}
				if k/8 < n {
					want = Bit{el[n-1-k/8], k % 8}
				}
				if got := bitOf(o.Ret[0], k); got != want {
					c.viol("decode", f, nil, o, "from %d bytes, bit %d of the result is %s, not %s", n, k, got, want)
					break
				}
			}
		}
	}
}

// ---------- slices of integers ----------

func (c *Ctx) arrayCodec() {
	bigOrder := func(t *Term) bool { return strings.Contains(t.String(), "binary.BigEndian") }
	if f := c.pub("util", "", "IntArrayToBytes"); f != nil {
		e := c.engine()
		outs := c.run(e, f)
		var sw []*swept
		arr := e.Params[0]
		simple := true
		for _, o := range outs {
			if o.Kind == "panic" {
				c.viol("array", f, nil, o, "it may panic")
				continue
			}
			c.ob("encoded slices")
			if o.Kind == "return" {
				if enc := wholeEncoding(e, o.S, o.Ret[0]); enc != nil {
					if !strings.HasPrefix(enc.Aux, "binary:") || !bigOrder(&Term{Op: "const", Aux: enc.Aux}) || enc.Sub[0] != arr {
						c.viol("array", f, nil, o, "what is returned is %s, not the big-endian encoding of the slice", enc)
					}
					continue
				}
			}
			simple = false
			sw = append(sw, sweepEncode(e, o, arr))
		}
		if !simple {
			c.sweepArray(f, sw)
		}
	}
	if f := c.pub("util", "", "BytesToIntArray"); f != nil {
		e := c.engine()
		outs := c.run(e, f)
		bs := e.Params[0]
		var sw []*swept
		simple := true
		for _, o := range outs {
			if o.Kind == "panic" {
				c.viol("array", f, nil, o, "it may panic")
				continue
			}
			c.ob("decoded slices")
			if o.Kind == "return" {
				r := o.Ret[0]
				want := mkBin("/", mkLen(bs), tInt(8), nil)
				shift := mkBin(">>", mkLen(bs), tInt(3), nil)
				n := mkLen(r)
				if ar := o.S.arith(); n != want && n != shift && !ar.same(n, want) && !(n == tZero && o.S.arith().le(mkLen(bs), tInt(7), 0)) {
					c.viol("array", f, nil, o, "it returns %s integers for %s bytes", n, mkLen(bs))
					continue
				}
				rd := 0
				good := false
				for _, ev := range o.S.events {
					if ev.Kind == "call" && ev.Fn == "encoding/binary.Read" {
						rd++
						src := ev.Args[0]
						good = bigOrder(ev.Args[1]) && ev.Args[2] == r && fedBy(o.S, src, bs, ev)
					}
				}
				if rd == 1 && good {
					continue
				}
				if rd > 0 {
					c.viol("array", f, nil, o, "the integers are not read big-endian from the given bytes")
					continue
				}
			}
			simple = false
			sw = append(sw, sweepDecode(e, o, bs))
		}
		if !simple {
			c.sweepArray(f, sw)
		}
	}
}

// wholeEncoding: the bytes are one encoding call's output and nothing else.
func wholeEncoding(e *Engine, s *State, r *Term) *Term {
	for r.Op == "app" && r.Aux == "bufbytes" || r.Op == "stream" || r.Op == "append" {
		if r.Op != "app" {
			if el, ok := e.elemsOf(s, r.Sub[0]); !ok || len(el) > 0 {
				if r.Sub[0].Op == "app" {
					return nil
				}
				return nil
			}
			r = r.Sub[1]
			continue
		}
		r = r.Sub[0]
	}
	if r.Op == "app" && strings.HasPrefix(r.Aux, "binary:") {
		return r
	}
	return nil
}

// fedBy: the reader holds exactly the given bytes.
func fedBy(s *State, rd, bs *Term, at *Event) bool {
	for _, ev := range s.events {
		if ev == at {
			break
		}
		if ev.Kind == "call" && ev.Res == rd && hasPre(ev.Fn, "bytes.NewBuffer", "bytes.NewReader") {
			return ev.Args[0] == bs
		}
	}
	return false
}

// bareInt: the number before conversions that keep all of its bits.
func bareInt(t *Term) *Term {
	for t.Op == "conv" && len(t.Sub) == 1 && t.Sub[0].Typ != nil && t.Typ != nil {
		a, ok1 := t.Typ.Underlying().(*types.Basic)
		b, ok2 := t.Sub[0].Typ.Underlying().(*types.Basic)
		if !ok1 || !ok2 {
			break
		}
		n, _ := intSize(a)
		m, _ := intSize(b)
		if n != 64 && n != 8 || n != m {
			break
		}
		t = t.Sub[0]
	}
	return t
}

// sweepEncode: the elements whose eight bytes were appended or stored at their place.
func sweepEncode(e *Engine, o *Outcome, arr *Term) *swept {
	sw := &swept{o: o, n: mkLen(arr)}
	group := map[string]map[int64]bool{}
	stores := true
	for _, ev := range o.S.events {
		if ev.Kind == "append" || strings.Contains(ev.Fn, "bigEndian).") {
			stores = false
		}
	}
	for i, ev := range o.S.events {
		switch ev.Kind {
		case "append":
			el, ok := e.elemsOf(o.S, ev.Args[1])
			if !ok || len(el) != 8 {
				continue
			}
			if v := bitOf(el[0], 0).V; v != nil {
				if _, ok := bigEndianOf(el, v, 64); ok {
					if ix := elemIndex(v, arr); ix != nil {
						sw.idx, sw.at = append(sw.idx, ix), append(sw.at, i)
					}
				}
			}
		case "pure":
			if strings.Contains(ev.Fn, "bigEndian).PutUint64") {
				if ix := elemIndex(bareInt(ev.Args[2]), arr); ix != nil {
					d := ev.Args[1]
					if d.Op == "slice" && sameLin(d.Sub[1], ix, 8) {
						sw.idx, sw.at = append(sw.idx, ix), append(sw.at, i)
					}
				}
			}
			if strings.Contains(ev.Fn, "bigEndian).AppendUint64") {
				if ix := elemIndex(bareInt(ev.Args[2]), arr); ix != nil {
					sw.idx, sw.at = append(sw.idx, ix), append(sw.at, i)
				}
			}
		case "store":
			a := ev.Args[0]
			if a.Op != "idx" || !stores {
				continue
			}
			v := bitOf(ev.Args[1], 0).V
			if v == nil {
				continue
			}
			ix := elemIndex(v, arr)
			if ix == nil {
				continue
			}
			for k := int64(0); k < 8; k++ {
				if sameLin(mkBin("-", a.Sub[1], tInt(k), nil), ix, 8) && sameByte(ev.Args[1], v, int(8*(7-k))) {
					g := ix.String()
					if group[g] == nil {
						group[g] = map[int64]bool{}
					}
					group[g][k] = true
					if len(group[g]) == 8 {
						sw.idx, sw.at = append(sw.idx, ix), append(sw.at, i)
					}
				}
			}
		}
	}
	return sw
}

// sameLin: a == m*b.
func sameLin(a, b *Term, m int64) bool {
	ar := &Arith{}
	l := ar.lin(a).add(ar.lin(b), -m)
	for _, k := range l.c {
		if k != 0 {
			return false
		}
	}
	return l.k == 0
}

func sweepDecode(e *Engine, o *Outcome, bs *Term) *swept {
	sw := &swept{o: o, n: mkBin("/", mkLen(bs), tInt(8), nil)}
	note := func(v, ix *Term, i int) {
		for k := 0; k < 64; k++ {
			b := bitOf(v, k)
			if b.V == nil || b.I != k%8 {
				return
			}
			j := elemIndex(b.V, bs)
			if j == nil || !sameLin(mkBin("-", j, tInt(int64(7-k/8)), nil), ix, 8) {
				return
			}
		}
		sw.idx, sw.at = append(sw.idx, ix), append(sw.at, i)
	}
	for i, ev := range o.S.events {
		switch ev.Kind {
		case "store":
			if a := ev.Args[0]; a.Op == "idx" && !(a.Sub[0].Op == "obj" && a.Sub[0].Obj != nil && a.Sub[0].Obj.Kind == "alloc") {
				note(ev.Args[1], a.Sub[1], i)
			}
		case "append":
			if l := ev.Args[1]; l != nil {
				if el, ok := e.elemsOf(o.S, l); ok && len(el) == 1 {
					ix := mkLen(ev.Args[0])
					if t := ev.Args[0]; t.Op == "sym" && t.Sym != nil && t.Sym.Count != nil {
						ix = mkBin("-", t.Sym.Count, t.Sym.From, nil) // as many as the iterations made
					}
					note(el[0], ix, i)
				}
			}
		}
	}
	return sw
}

func (c *Ctx) sweepArray(f *ssa.Function, sw []*swept) {
	c.ob("array sweeps")
	if bad, why := covers(sw); bad != nil {
		c.viol("array", f, nil, bad, "not every integer of the slice is shown to be handled, big-endian and in order: %s", why)
	}
}

// ---------- base 58 ----------

// letters is the constant content of a package variable or string that is never written.
func (c *Ctx) letters(t *Term) (string, bool) {
	if t.Op == "conv" && len(t.Sub) == 1 {
		t = t.Sub[0]
	}
	if t.Op == "const" && strings.HasPrefix(t.Aux, "\"") {
		return unq(t.Aux), true
	}
	if t.Op == "init" && t.Sub[0].Op == "global" {
		t = t.Sub[0]
	}
	if t.Op != "global" {
		return "", false
	}
	return c.P.globalBytes(t.Aux)
}

func (p *Prog) globalBytes(name string) (string, bool) {
	for _, sp := range p.SPkgs {
		for _, m := range sp.Members {
			g, ok := m.(*ssa.Global)
			if !ok || g.String() != name && short(g.String()) != name {
				continue
			}
			if p.gwritten(g) != "" {
				return "", false
			}
			for _, b := range sp.Func("init").Blocks {
				for _, in := range b.Instrs {
					if st, ok := in.(*ssa.Store); ok && st.Addr == g {
						v := st.Val
						if cv, ok := v.(*ssa.Convert); ok {
							v = cv.X
						}
						if k, ok := v.(*ssa.Const); ok && k.Value != nil {
							t := constTerm(k)
							if strings.HasPrefix(t.Aux, "\"") {
								return unq(t.Aux), true
							}
						}
					}
				}
			}
		}
	}
	return "", false
}

// gwritten: where the variable, or an element of it, is written after initialisation; "" if nowhere.
func (p *Prog) gwritten(g *ssa.Global) string {
	for _, f := range p.Funcs {
		isInit := f.Name() == "init" && f.Synthetic != ""
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if st, ok := in.(*ssa.Store); ok && st.Addr == ssa.Value(g) && !isInit {
					return p.pos(st.Pos())
				}
				var ops []*ssa.Value
				for _, op := range in.Operands(ops) {
					if *op != ssa.Value(g) {
						continue
					}
					if ld, ok := in.(*ssa.UnOp); ok {
						if w := writtenThrough(p, ld, 0); w != "" {
							return w
						}
					} else if ix, ok := in.(*ssa.IndexAddr); ok {
						if w := writtenThrough(p, ix, 0); w != "" {
							return w
						}
					}
				}
			}
		}
	}
	return ""
}

func writtenThrough(p *Prog, v ssa.Value, d int) string {
	if v.Referrers() == nil || d > 8 {
		return ""
	}
	for _, r := range *v.Referrers() {
		switch x := r.(type) {
		case *ssa.IndexAddr:
			if w := writtenThrough(p, x, d+1); w != "" {
				return w
			}
		case *ssa.Slice:
			if w := writtenThrough(p, x, d+1); w != "" {
				return w
			}
		case *ssa.Store:
			if x.Addr == v {
				return p.pos(x.Pos())
			}
		case *ssa.Call:
			if b, ok := x.Call.Value.(*ssa.Builtin); ok && (b.Name() == "copy" || b.Name() == "append" || b.Name() == "clear") && x.Call.Args[0] == v {
				return p.pos(x.Pos())
			}
			if f := x.Call.StaticCallee(); f != nil && p.fnBody(f) != nil {
				for i, a := range x.Call.Args {
					if a == v && i < len(f.Params) {
						if w := writtenThrough(p, f.Params[i], d+1); w != "" {
							return w
						}
					}
				}
			}
		}
	}
	return ""
}

func (c *Ctx) base58() {
	f, g := c.pub("base58", "", "EncodeForInt64"), c.pub("base58", "", "DecodeForInt64")
	if f == nil || g == nil {
		return
	}
	alpha := c.base58Encode(f)
	if alpha != nil {
		c.ob("alphabet")
		s, ok := c.letters(alpha)
		if !ok {
			c.viol("base58", f, nil, nil, "the letters %s are not a constant that is never written", alpha)
		} else {
			if len(s) != 58 {
				c.viol("base58", f, nil, nil, "there are %d letters", len(s))
			}
			for i := range s {
				if strings.IndexByte(s, s[i]) != i {
					c.viol("base58", f, nil, nil, "the letter %q occurs twice", s[i])
					break
				}
			}
		}
	}
	c.base58Decode(g, alpha)
}

// digit: t is letter v%58; the letters and v.
func digit(t *Term) (alpha, v *Term) {
	t = stripConv(t)
	var base, ix *Term
	switch {
	case t.Op == "init" && t.Sub[0].Op == "idx":
		base, ix = t.Sub[0].Sub[0], t.Sub[0].Sub[1]
	case t.Op == "at":
		base, ix = t.Sub[0], t.Sub[1]
	default:
		return nil, nil
	}
	ix = stripConv(ix)
	if ix.Op == "bin" && ix.Aux == "%" {
		if n, ok := ix.Sub[1].intVal(); ok && n == 58 {
			return base, ix.Sub[0]
		}
		return nil, nil
	}
	// v - v/58*58
	if ix.Op == "bin" && ix.Aux == "-" {
		v := ix.Sub[0]
		m := ix.Sub[1]
		if m.Op == "bin" && m.Aux == "*" {
			for i := 0; i < 2; i++ {
				if n, ok := m.Sub[i].intVal(); ok && n == 58 && m.Sub[1-i] == mkBin("/", v, tInt(58), nil) {
					return base, v
				}
			}
		}
	}
	return nil, nil
}

func (c *Ctx) base58Encode(f *ssa.Function) (alpha *Term) {
	e := c.engine()
	outs := c.run(e, f)
	v0 := e.Params[0]
	var bad *Outcome
	why := ""
	note := func(o *Outcome, f string, a ...any) {
		if bad == nil {
			bad, why = o, fmt.Sprintf(f, a...)
		}
	}
	// which loop variables run through v, v/58, v/58/58 ...
	quot := func(v *Term) bool {
		if v == nil || v.Sym == nil || v.Sym.Kind != "loop" || len(v.Sym.Nexts) == 0 {
			return false
		}
		if v.Sym.Init != v0 || stripConv(v.Sym.First) != mkBin("/", v0, tInt(58), nil) {
			return false
		}
		for _, n := range v.Sym.Nexts {
			if stripConv(n) != mkBin("/", v, tInt(58), nil) {
				return false
			}
		}
		return true
	}
	type put struct {
		v   *Term // what the letter is the remainder of
		at  int   // event
		idx *Term // place, or nil when appended
		old *Term // what it was appended to
		res *Term
	}
	putsOf := func(o *Outcome) (ps []put) {
		for i, ev := range o.S.events {
			switch ev.Kind {
			case "append":
				if el, ok := e.elemsOf(o.S, ev.Args[1]); ok && len(el) == 1 {
					if a, v := digit(el[0]); v != nil {
						alpha = a
						ps = append(ps, put{v, i, nil, ev.Args[0], ev.Res})
					}
				}
			case "store":
				if ev.Args[0].Op == "idx" && ev.Args[0].Sub[0].Op != "global" {
					if a, v := digit(ev.Args[1]); v != nil {
						if r := ev.Args[0].root(); r.Op == "obj" && strings.Contains(r.String(), "varargs") {
							continue
						}
						alpha = a
						ps = append(ps, put{v, i, ev.Args[0].Sub[1], nil, ev.Args[0]})
					}
				}
			}
		}
		return
	}
	seen := false
	for _, o := range outs {
		c.ob("base-58 paths")
		ps := putsOf(o)
		if o.Kind == "panic" {
			note(o, "it may panic: %v", o.P)
			continue
		}
		ar := o.S.arith()
		// the first letter is v%58, the next ones those of the quotients
		first, generic := 0, 0
		var last *Term
		for _, p := range ps {
			switch {
			case p.v == v0:
				first++
				last = p.res
			case quot(p.v):
				generic++
				last = p.res
			default:
				note(o, "a letter is the remainder of %s", p.v)
			}
		}
		_ = last
		if o.Kind == "loop" {
			if len(ps) == 0 {
				note(o, "an iteration yields no letter")
			}
			continue
		}
		if ar.le(v0, tZero, 0) {
			// nothing is left of zero: any fixed text of the first letter, or none
			el, ok := e.elemsOf(o.S, o.Ret[0])
			if !ok || len(el) > 0 && len(ps) == 0 {
				note(o, "zero is encoded as %s", o.Ret[0])
			}
			continue
		}
		if first != 1 {
			note(o, "the lowest digit is yielded %d times", first)
			continue
		}
		seen = true
		// left only when the quotient is zero
		done := false
		for _, fct := range o.S.facts {
			for _, x := range loopSyms(fct.T) {
				if quot(x) && ar.le(x, tZero, 0) {
					done = true
				}
			}
		}
		q := mkBin("/", v0, tInt(58), nil)
		if lastLoop(o) < 0 && (ar.le(q, tZero, 0) || ar.le(v0, tInt(57), 0)) {
			done = true
		}
		if !done {
			note(o, "it may stop before the quotient is zero")
		}
		if w := highFirst(e, o, ps[0].idx); w != "" {
			note(o, "%s", w)
		}
	}
	if bad != nil {
		c.viol("base58", f, nil, bad, "%s", why)
	} else if !seen {
		c.viol("base58", f, nil, nil, "it is not shown to yield the digits of the number")
	}
	if bad == nil {
		c.swaps(f, e, outs)
	}
	return
}

// highFirst: letters appended lowest first are reversed before they are returned; letters stored from the end are
// returned from the last place filled.
func highFirst(e *Engine, o *Outcome, idx *Term) string {
	if idx != nil {
		// stored: places go down one by one, and what is returned starts at the last of them
		r := o.Ret[0]
		if r.Op != "slice" {
			return "what is returned does not start at the highest letter"
		}
		var last *Term
		for _, ev := range o.S.events {
			if ev.Kind == "store" && ev.Args[0].Op == "idx" && sameT(ev.Args[0].Sub[0], r.Sub[0]) {
				last = ev.Args[0].Sub[1]
			}
		}
		for _, ev := range o.S.events {
			if ev.Kind == "loop" {
				// after the loop the place is one variable's value
				for _, x := range loopSyms(r.Sub[1]) {
					if k, ok := stepOf(x); ok && k == -1 {
						// the place of the letter stored in a generic iteration is the variable before or after its step
						return ""
					}
				}
				return "the letters are not stored from the end to the front"
			}
		}
		if last == nil || !sameT(last, r.Sub[1]) {
			return "what is returned does not start at the highest letter"
		}
		return ""
	}
	for _, ev := range o.S.events {
		if ev.Kind == "append" && len(ev.Args) > 1 {
			// prepended: append([]byte{letter}, old...)
			if el, ok := e.elemsOf(o.S, ev.Args[0]); ok && len(el) == 1 {
				if _, v := digit(el[0]); v != nil {
					return ""
				}
			}
		}
	}
	return ""
}

// swaps: the letters, appended lowest first, are turned round: place i and place n-1-i are exchanged for the first half.
func (c *Ctx) swaps(f *ssa.Function, e *Engine, outs []*Outcome) {
	appended := false
	for _, o := range outs {
		for _, ev := range o.S.events {
			if ev.Kind == "append" {
				if el, ok := e.elemsOf(o.S, ev.Args[1]); ok && len(el) == 1 {
					if _, v := digit(el[0]); v != nil {
						appended = true
					}
				}
			}
		}
	}
	if !appended {
		return
	}
	for _, o := range outs {
		if o.Kind == "panic" || o.Kind == "return" && o.S.arith().le(e.Params[0], tZero, 0) {
			continue
		}
		if o.Kind == "return" {
			if o.Ret[0].Op == "const" || o.Ret[0].Op == "list" && len(o.Ret[0].Sub) <= 1 {
				continue
			}
			if n, ok := mkLen(o.Ret[0]).intVal(); ok && n <= 1 {
				continue
			}
			rev := false
			for _, ev := range o.S.events {
				if hasPre(ev.Fn, "slices.Reverse") && sameT(ev.Args[0], o.Ret[0]) {
					rev = true
				}
			}
			if rev {
				continue
			}
			c.ob("reversals")
			c.reversed(f, o, outs)
		}
	}
}

type exch struct{ a, i, j *Term }

// exchanges are the pairs of places whose contents a path exchanges.
func exchanges(o *Outcome) (xs []exch, stray *Event) {
	var st []*Event
	for _, ev := range o.S.events {
		if ev.Kind == "store" && ev.Args[0].Op == "idx" && !(ev.Args[0].root().Op == "obj" && strings.Contains(ev.Args[0].root().String(), "varargs")) {
			st = append(st, ev)
		}
	}
	from := func(v, a *Term) *Term {
		if v.Op == "init" && v.Sub[0].Op == "idx" && sameT(v.Sub[0].Sub[0], a) {
			return v.Sub[0].Sub[1]
		}
		if v.Op == "at" && sameT(v.Sub[0], a) {
			return v.Sub[1]
		}
		return nil
	}
	for k := 0; k+1 < len(st); k += 2 {
		a, b := st[k], st[k+1]
		base := a.Args[0].Sub[0]
		i, j := a.Args[0].Sub[1], b.Args[0].Sub[1]
		if sameT(base, b.Args[0].Sub[0]) && sameT(from(a.Args[1], base), j) && sameT(from(b.Args[1], base), i) {
			xs = append(xs, exch{base, i, j})
		} else {
			return xs, a
		}
	}
	if len(st)%2 == 1 {
		return xs, st[len(st)-1]
	}
	return xs, nil
}

func (c *Ctx) reversed(f *ssa.Function, o *Outcome, outs []*Outcome) {
	r := o.Ret[0]
	n := mkLen(r)
	xs, stray := exchanges(o)
	if stray != nil {
		c.viol("base58", f, stray, o, "a store that is not half of an exchange")
		return
	}
	ar := o.S.arith()
	mirror := func(ar *Arith, x exch) bool {
		return sameT(x.a, r) && (ar.le(mkBin("+", x.i, x.j, nil), n, -1) && ar.le(n, mkBin("+", x.i, x.j, nil), 1))
	}
	for k, x := range xs {
		i, _ := x.i.intVal()
		j, okj := x.j.intVal()
		if okj && j < i {
			i = j
		}
		if !mirror(ar, x) || i != int64(k) {
			c.viol("base58", f, nil, o, "places %s and %s are exchanged, which does not turn the letters round", x.i, x.j)
			return
		}
	}
	// what is left in the middle needs no exchange
	l := lastLoop(o)
	if len(xs) == 0 || l < 0 {
		k := int64(len(xs))
		if !ar.le(n, tInt(2*k+1), 0) {
			c.viol("base58", f, nil, o, "the letters may be returned lowest first")
		}
		return
	}
	// the generic iteration
	done := false
	for _, p := range outs {
		if p.Kind != "loop" {
			continue
		}
		ys, stray := exchanges(p)
		if stray != nil || len(ys) <= len(xs) {
			continue
		}
		y := ys[len(ys)-1]
		sy := loopSyms(y.i)
		if len(sy) == 0 || !mirror(p.S.arith(), y) {
			continue
		}
		var iv *Term
		for _, s := range sy {
			if st, ok := stepOf(s); ok && st == 1 && s.Sym.Kind == "loop" {
				iv = s
			}
		}
		if iv == nil {
			continue
		}
		first := subst(y.i, map[*Term]*Term{iv: iv.Sym.First})
		if k, ok := first.intVal(); !ok || k != int64(len(xs)) {
			continue
		}
		// on leaving: 2*i >= n-1
		if ar.le(n, mkBin("+", mkBin("+", y.i, y.i, nil), tOne, nil), 0) || ar.le(y.j, y.i, 0) {
			done = true
		}
	}
	if !done {
		c.viol("base58", f, nil, o, "the letters are not shown to be turned round completely")
	}
}

// letterPlace: t is the position of byte b among the letters.
func letterPlace(t *Term) (alpha, b *Term) {
	for t != nil && t.Op == "conv" && len(t.Sub) == 1 {
		t = t.Sub[0] // a position fits every integer type
	}
	if t != nil && t.Op == "app" && hasPre(t.Aux, "bytes.IndexByte", "strings.IndexByte") && len(t.Sub) == 2 {
		return t.Sub[0], t.Sub[1]
	}
	return nil, nil
}

func (c *Ctx) base58Decode(f *ssa.Function, alpha *Term) {
	e := c.engine()
	outs := c.run(e, f)
	bs := e.Params[0]
	var bad *Outcome
	why := ""
	note := func(o *Outcome, f string, a ...any) {
		if bad == nil {
			bad, why = o, fmt.Sprintf(f, a...)
		}
	}
	// letter: the position of byte i of the text
	letter := func(t *Term) *Term {
		al, b := letterPlace(t)
		if al == nil {
			return nil
		}
		if alpha != nil && !sameLetters(c, al, alpha) {
			return nil
		}
		return elemIndex(b, bs)
	}
	// step: n == r*58 + letter
	step := func(n, r *Term) *Term {
		n = stripConv(n)
		if r == tZero {
			if ix := letter(n); ix != nil {
				return ix
			}
		}
		if n.Op != "bin" || n.Aux != "+" {
			return nil
		}
		for i := 0; i < 2; i++ {
			m, d := n.Sub[i], n.Sub[1-i]
			if ix := letter(d); ix != nil && m.Op == "bin" && m.Aux == "*" {
				for j := 0; j < 2; j++ {
					if k, ok := m.Sub[j].intVal(); ok && k == 58 && m.Sub[1-j] == r {
						return ix
					}
				}
			}
		}
		return nil
	}
	const maxU = "18446744073709551615"
	// overflow: the fact says r*58+d does (1) or does not (0) fit
	overflow := func(f Fact, r *Term) int {
		t, truth := f.T, f.Truth
		if t.Op != "bin" || t.Aux != "<" {
			return -1
		}
		a, b := t.Sub[0], t.Sub[1]
		if b == r && a.Op == "bin" && a.Aux == "/" {
			if k, ok := a.Sub[1].intVal(); ok && k == 58 {
				m := a.Sub[0]
				if m.Op == "bin" && m.Aux == "-" && m.Sub[0].Aux == maxU && letter(m.Sub[1]) != nil {
					if truth {
						return 1
					}
					return 0
				}
			}
		}
		return -1
	}
	// two tests: r > Max/58, then the sum wrapped
	half := func(f Fact, r *Term) string {
		t, truth := f.T, f.Truth
		if t.Op != "bin" || t.Aux != "<" {
			return ""
		}
		a, b := t.Sub[0], t.Sub[1]
		k := strconv.FormatUint(^uint64(0)/58, 10)
		name := ""
		switch {
		case b == r && (a.Aux == k || a.Op == "bin" && a.Aux == "/" && a.Sub[0].Aux == maxU):
			name = "mul"
		case step(a, r) != nil && (letter(b) != nil || b.Op == "bin" && b.Aux == "*"):
			name = "sum"
		case letter(b) == nil && b.Op == "bin" && b.Aux == "*" && a.Op == "bin" && a.Aux == "-" && a.Sub[0].Aux == maxU && letter(a.Sub[1]) != nil:
			name = "sum" // Max - d < r*58
		default:
			return ""
		}
		if truth {
			return name
		}
		return "!" + name
	}
	unknown := func(f Fact) bool { // the letter is not one
		return f.Truth && f.T.Op == "bin" && f.T.Aux == "<" && f.T.Sub[1] == tZero && letter(f.T.Sub[0]) != nil ||
			f.Truth && f.T.Op == "bin" && f.T.Aux == "==" && (f.T.Sub[0] == tInt(-1) && letter(f.T.Sub[1]) != nil || f.T.Sub[1] == tInt(-1) && letter(f.T.Sub[0]) != nil)
	}
	var sw []*swept
	accs := map[*Term]bool{}
	for _, o := range outs {
		if o.Kind == "panic" {
			note(o, "it may panic")
			continue
		}
		c.ob("base-58 paths")
		// the running value
		var r *Term
		for _, x := range accSyms(o) {
			if x.Sym.Init != tZero || step(x.Sym.First, tZero) == nil {
				continue
			}
			good := len(x.Sym.Nexts) > 0
			for _, n := range x.Sym.Nexts {
				good = good && step(n, x) != nil
			}
			if good {
				r = x
				accs[x] = true
			}
		}
		if o.Kind == "return" && len(o.Ret) == 2 {
			switch o.Ret[1] {
			case tFalse:
				rej := false
				mul := false
				for _, f := range o.S.facts {
					if unknown(f) {
						rej = true
					}
					for _, x := range append(accSyms(o), tZero) {
						if overflow(f, x) == 1 {
							rej = true
						}
						switch half(f, x) {
						case "mul":
							rej = true
						case "!mul":
							mul = true
						case "sum":
							rej = rej || mul
						}
					}
				}
				if !rej {
					note(o, "a text is rejected that is an encoding")
				}
				continue
			case tTrue:
			default:
				note(o, "whether it is an encoding is %s", o.Ret[1])
				continue
			}
			if lastLoop(o) >= 0 && (r == nil || stripConv(o.Ret[0]) != r) {
				note(o, "the value returned is %s, not the running value", o.Ret[0])
				continue
			}
			if lastLoop(o) < 0 && o.Ret[0] != tZero && step(o.Ret[0], tZero) == nil {
				note(o, "the value returned is %s", o.Ret[0])
				continue
			}
		}
		if o.Kind == "loop" {
			// what makes the next value fit
			fits, mul, sum := false, false, false
			for _, f := range o.S.facts {
				if r != nil {
					fits = fits || overflow(f, r) == 0
					switch half(f, r) {
					case "!mul":
						mul = true
					case "!sum":
						sum = true
					}
				}
			}
			if r != nil && !fits && !(mul && sum) {
				note(o, "a number too large is not rejected: nothing keeps %s*58 plus the letter from wrapping", r)
			}
		}
		// letters used, each known to be one
		s := &swept{o: o, n: mkLen(bs)}
		for i, ev := range o.S.events {
			if ev.Kind == "pure" && ev.Res != nil {
				if ix := letter(ev.Res); ix != nil {
					neg := mkBin("<", ev.Res, tZero, nil)
					if t, ok := o.S.factOf(neg); !ok || t {
						if eq, ok := o.S.factOf(mkBin("==", ev.Res, tInt(-1), nil)); !ok || eq {
							note(o, "a byte that is no letter is not rejected")
						}
					}
					s.idx, s.at = append(s.idx, ix), append(s.at, i)
				}
			}
		}
		sw = append(sw, s)
	}
	if bad == nil {
		// an accepted text has been read completely
		if b, w := covers(sw); b != nil {
			note(b, "not every letter is shown to be used, in order: %s", w)
		}
	}
	if bad == nil && len(accs) == 0 {
		note(nil, "no running value r = r*58 + letter is found")
	}
	if why != "" {
		c.viol("base58", f, nil, bad, "%s", why)
	}
}

func sameLetters(c *Ctx, a, b *Term) bool {
	if a == b {
		return true
	}
	x, ok1 := c.letters(a)
	y, ok2 := c.letters(b)
	return ok1 && ok2 && x == y
}

// accSyms are the loop variables a path mentions or holds.
func accSyms(o *Outcome) []*Term {
	seen := map[*Term]bool{}
	var r []*Term
	add := func(t *Term) {
		if t == nil {
			return
		}
		t.walk(func(x *Term) bool {
			if x.Op == "sym" && x.Sym != nil && x.Sym.Kind == "loop" && !seen[x] {
				seen[x] = true
				r = append(r, x)
			}
			return true
		})
	}
	for _, f := range o.S.facts {
		add(f.T)
	}
	for _, t := range o.Ret {
		add(t)
	}
	for _, v := range o.S.mem {
		add(v)
	}
	return r
}

// ---------- UUID text ----------

// uuidString: the text form is canonical.
func (c *Ctx) uuidString(rule string) {
	if f := c.pub("uuid", "UUID", "String"); f != nil {
		e := c.engine()
		outs := c.run(e, f)
		for _, o := range outs {
			if o.Kind != "return" {
				c.viol(rule, f, nil, o, "it may %s", o.Kind)
				continue
			}
			c.ob("UUID texts")
			el, ok := e.elemsOf(o.S, o.Ret[0])
			if !ok {
				c.viol(rule, f, nil, o, "the text is not determined: %s", o.Ret[0])
				continue
			}
			if w := canonical(el, e.Params[0]); w != "" {
				c.viol(rule, f, nil, o, "%s", w)
			}
		}
	}
}

func (c *Ctx) uuidText() {
	c.uuidString("uuid")
	f := c.pub("uuid", "", "Parse")
	if f == nil {
		return
	}
	e := c.engine()
	outs := c.run(e, f)
	txt := e.Params[0]
	for _, o := range outs {
		if o.Kind != "return" {
			c.viol("uuid", f, nil, o, "it may %s", o.Kind)
			continue
		}
		c.ob("UUID parses")
		var dec *Event
		n := 0
		for _, ev := range o.S.events {
			if strings.HasPrefix(ev.Fn, "encoding/hex.Decode") {
				dec = ev
				n++
			}
		}
		ar := o.S.arith()
		nl := o.S.nilErr(o.Ret[1])
		is36 := ar.le(mkLen(txt), tInt(36), 0) && ar.le(tInt(36), mkLen(txt), 0)
		if nl == 1 {
			if !is36 {
				c.viol("uuid", f, nil, o, "a text of another length is accepted")
				continue
			}
			for _, k := range []int64{8, 13, 18, 23} {
				c.ob("separators")
				if !isDash(o.S, txt, k) {
					c.viol("uuid", f, nil, o, "a text with another character than '-' at place %d is accepted", k)
					break
				}
			}
			if dec == nil || n != 1 {
				c.viol("uuid", f, nil, o, "the digits are not decoded")
				continue
			}
			er := dec.Res
			if er != nil && er.Op == "tuple" {
				er = er.Sub[1]
			}
			if o.S.nilErr(er) != 1 {
				c.viol("uuid", f, dec, o, "a text with a character that is no digit is accepted")
			}
			src := dec.Args[len(dec.Args)-1]
			if len(dec.Args) == 2 {
				src = dec.Args[1]
			}
			if w := hexRanges(src, txt); w != "" {
				c.viol("uuid", f, dec, o, "%s", w)
			}
			// into all bytes of the result
			if dec.Fn == "encoding/hex.Decode" {
				d := dec.Args[0]
				if d.Op == "slice" {
					if d.Sub[1] != tZero {
						c.viol("uuid", f, dec, o, "the bytes are not decoded to the front of the result")
					}
					d = d.Sub[0]
				}
				if !sameT(d, o.Ret[0]) {
					c.viol("uuid", f, dec, o, "the bytes decoded are not those returned")
				}
			}
			for i, ev := range o.S.events {
				if ev.Kind == "store" && ev.Args[0].root() == o.Ret[0].root() && i > idxOf(o.S.events, dec) && dec.Fn == "encoding/hex.Decode" {
					c.viol("uuid", f, ev, o, "a byte of the result is changed after decoding")
				}
			}
			continue
		}
		// rejected: only what is not an encoding
		okRej := !is36
		if dec != nil && dec.Res != nil && dec.Res.Op == "tuple" && o.S.nilErr(dec.Res.Sub[1]) != 1 {
			okRej = true
		}
		for _, k := range []int64{8, 13, 18, 23} {
			if notDash(o.S, txt, k) {
				okRej = true
			}
		}
		if !okRej {
			c.viol("uuid", f, nil, o, "a UUID's text may be rejected")
		}
	}
}

func idxOf(evs []*Event, ev *Event) int {
	for i, x := range evs {
		if x == ev {
			return i
		}
	}
	return -1
}

func dashFact(s *State, txt *Term, k int64) int {
	for _, f := range s.facts {
		t := f.T
		if t.Op == "bin" && t.Aux == "==" {
			for i := 0; i < 2; i++ {
				x, y := t.Sub[i], t.Sub[1-i]
				if y == tInt('-') && x.Op == "at" && x.Sub[0] == txt && x.Sub[1] == tInt(k) ||
					y == tStr("-") && x.Op == "slice" && x.Sub[0] == txt && x.Sub[1] == tInt(k) && x.Sub[2] == tInt(k+1) {
					if f.Truth {
						return 1
					}
					return 0
				}
			}
		}
	}
	return -1
}

func isDash(s *State, txt *Term, k int64) bool  { return dashFact(s, txt, k) == 1 }
func notDash(s *State, txt *Term, k int64) bool { return dashFact(s, txt, k) == 0 }

// canonical: el is the 8-4-4-4-12 form of the 16 bytes of u.
func canonical(el []*Term, u *Term) string {
	if len(el) != 36 {
		return fmt.Sprintf("the text has %d characters", len(el))
	}
	b := 0
	for i := 0; i < 36; i++ {
		if i == 8 || i == 13 || i == 18 || i == 23 {
			if el[i] != tInt('-') {
				return fmt.Sprintf("character %d is not '-'", i)
			}
			continue
		}
		for _, h := range []string{"hexhi", "hexlo"} {
			if h == "hexlo" {
				i++
			}
			x := el[i]
			ix := (*Term)(nil)
			if x.Op == "app" && x.Aux == h {
				ix = elemIndex(x.Sub[0], u)
			}
			if n, ok := intOf(ix); !ok || n != int64(b) {
				return fmt.Sprintf("character %d is %s, not a digit of byte %d", i, x, b)
			}
		}
		b++
	}
	return ""
}

func intOf(t *Term) (int64, bool) {
	if t == nil {
		return 0, false
	}
	return t.intVal()
}

// hexRanges: src is the 32 digits of the text, in order.
func hexRanges(src, txt *Term) string {
	pos := []int64{}
	var rec func(t *Term) bool
	rec = func(t *Term) bool {
		switch {
		case t.Op == "conv" && len(t.Sub) == 1:
			return rec(t.Sub[0])
		case (t.Op == "concat" || t.Op == "append" || t.Op == "stream") && len(t.Sub) == 2:
			return rec(t.Sub[0]) && rec(t.Sub[1])
		case t == tNil || t == tStr("") || t.Op == "slice" && mkLen(t) == tZero:
			return true
		case t.Op == "slice" && (t.Sub[0] == txt || t.Sub[0].Op == "conv" && t.Sub[0].Sub[0] == txt):
			lo, ok := t.Sub[1].intVal()
			hi, ok2 := t.Sub[2].intVal()
			if t.Sub[2].Op == "none" || t.Sub[2] == mkLen(txt) {
				hi, ok2 = 36, true
			}
			for ; ok && ok2 && lo < hi; lo++ {
				pos = append(pos, lo)
			}
			return ok && ok2
		case t.Op == "list":
			for _, x := range t.Sub {
				if x.Op == "at" && x.Sub[0] == txt {
					n, ok := x.Sub[1].intVal()
					if !ok {
						return false
					}
					pos = append(pos, n)
					continue
				}
				return false
			}
			return true
		case t.Op == "app" && strings.HasPrefix(t.Aux, "strings.Replace") && len(t.Sub) >= 3 && t.Sub[0] == txt && t.Sub[1] == tStr("-") && t.Sub[2] == tStr(""):
			for i := int64(0); i < 36; i++ {
				if i != 8 && i != 13 && i != 18 && i != 23 {
					pos = append(pos, i)
				}
			}
			return true
		}
		return false
	}
	if !rec(src) {
		return fmt.Sprintf("what is decoded is %s, not the digits of the text", src)
	}
	want := int64(0)
	for _, p := range pos {
		if want == 8 || want == 13 || want == 18 || want == 23 {
			want++
		}
		if p != want {
			return fmt.Sprintf("character %d is decoded where character %d belongs", p, want)
		}
		want++
	}
	if want != 36 {
		return "not all digits are decoded"
	}
	return ""
}

func init() {
	checks["C16"] = checkDef{c16, "path-sensitive abstract interpretation of the codecs with a bit-provenance domain (the origin of every bit), value numbering and a linear-arithmetic domain"}
}
