package main

import (
	"fmt"
	"go/constant"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// ---------- C31: digests ----------

// flat is a byte stream as one term: a single piece is the piece itself.
func flat(t *Term) *Term {
	for t != nil {
		switch {
		case t.Op == "conv" && (t.Aux == "bytes" || t.Aux == "string") && len(t.Sub) == 1:
			t = t.Sub[0]
		case t.Op == "append" && (t.Sub[0] == tNil || mkLen(t.Sub[0]) == tZero):
			t = t.Sub[1]
		case t.Op == "stream" && (t.Sub[0] == tStr("") || t.Sub[0] == tNil):
			t = t.Sub[1]
		case t.Op == "app" && t.Aux == "bufbytes":
			t = t.Sub[0]
		default:
			return t
		}
	}
	return t
}

// sumOf: t is a digest; its kind and the bytes digested.
func (c *Ctx) sumOf(e *Engine, s *State, t *Term) (kind string, src *Term) {
	t = flat(t)
	if t == nil {
		return "", nil
	}
	if t.Op == "slice" || t.Op == "obj" {
		if x := e.content(s, t); x != t {
			return c.sumOf(e, s, x)
		}
	}
	if t.Op == "slice" && t.Sub[1] == tZero {
		if v := s.mem[t.Sub[0]]; v != nil {
			return c.sumOf(e, s, v)
		}
	}
	if t.Op == "list" && len(t.Sub) > 0 && t.Sub[0].Op == "at" {
		x := t.Sub[0].Sub[0]
		for i, el := range t.Sub {
			if el.Op != "at" || el.Sub[0] != x || el.Sub[1] != tInt(int64(i)) {
				return "", nil
			}
		}
		k, v := c.sumOf(e, s, x)
		if n, ok := hashLen[k]; ok && n != int64(len(t.Sub)) {
			return "", nil
		}
		return k, v
	}
	if t.Op == "stream" {
		return "", nil
	}
	if t.Op != "app" || len(t.Sub) == 0 {
		return "", nil
	}
	for _, p := range []string{"sum:", "sum32:", "sum64:"} {
		if strings.HasPrefix(t.Aux, p) {
			return t.Aux[len(p):], flat(t.Sub[0])
		}
	}
	switch t.Aux {
	case "hash/crc32.ChecksumIEEE":
		return "hash/crc32.NewIEEE", flat(t.Sub[0])
	case "hash/crc32.Update", "hash/crc64.Update":
		if t.Sub[0] == tZero {
			return strings.Replace(t.Aux, "Update", "Checksum", 1) + "(" + c.tableOf(t.Sub[1]) + ")", flat(t.Sub[2])
		}
	case "hash/crc32.Checksum", "hash/crc64.Checksum":
		return t.Aux + "(" + c.tableOf(t.Sub[1]) + ")", flat(t.Sub[0])
	}
	return "", nil
}

// tableOf names a checksum table.
func (c *Ctx) tableOf(t *Term) string {
	if t.Op == "app" && strings.HasSuffix(t.Aux, ".MakeTable") {
		return t.Sub[0].Aux
	}
	if t.Op == "init" && t.Sub[0].Op == "global" {
		n := t.Sub[0].Aux
		if n == "hash/crc32.IEEETable" {
			return "3988292384"
		}
		if g := c.P.global(n); g != nil && c.P.gwritten(g) == "" {
			if v := c.P.initOf(g); v != nil {
				if call, ok := v.(*ssa.Call); ok && len(call.Call.Args) == 1 && call.Call.StaticCallee() != nil && call.Call.StaticCallee().Name() == "MakeTable" {
					if k, ok := call.Call.Args[0].(*ssa.Const); ok {
						return constTerm(k).Aux
					}
				}
			}
		}
	}
	return "?"
}

func (p *Prog) global(name string) *ssa.Global {
	for _, sp := range p.SPkgs {
		for _, m := range sp.Members {
			if g, ok := m.(*ssa.Global); ok && (g.String() == name || short(g.String()) == name) {
				return g
			}
		}
	}
	return nil
}

// initOf is the value a package variable is given when the program starts.
func (p *Prog) initOf(g *ssa.Global) (v ssa.Value) {
	f := g.Pkg.Func("init")
	if f == nil {
		return nil
	}
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			if st, ok := in.(*ssa.Store); ok && st.Addr == ssa.Value(g) {
				v = st.Val
			}
		}
	}
	return
}

// globalInts are the elements of a table that is never written.
func (p *Prog) globalInts(name string) ([]int64, bool) {
	g := p.global(name)
	if g == nil || p.gwritten(g) != "" && !strings.HasSuffix(p.gwritten(g), "#init") {
		return nil, false
	}
	f := g.Pkg.Func("init")
	var base ssa.Value = g
	if v := p.initOf(g); v != nil {
		switch x := v.(type) {
		case *ssa.Slice:
			base = x.X
		case *ssa.UnOp:
			base = x.X
		default:
			return nil, false
		}
	}
	m := map[int64]int64{}
	max := int64(-1)
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			st, ok := in.(*ssa.Store)
			if !ok {
				continue
			}
			ix, ok := st.Addr.(*ssa.IndexAddr)
			if !ok || ix.X != base {
				continue
			}
			i, ok1 := ix.Index.(*ssa.Const)
			v, ok2 := st.Val.(*ssa.Const)
			if !ok1 || !ok2 || v.Value == nil || v.Value.Kind() != constant.Int {
				return nil, false
			}
			n, _ := constant.Int64Val(v.Value)
			m[i.Int64()] = n
			if i.Int64() > max {
				max = i.Int64()
			}
		}
	}
	r := make([]int64, max+1)
	for i, v := range m {
		r[i] = v
	}
	return r, len(m) > 0
}

type digestFn struct {
	name  string
	kinds []string
	hex   bool
}

func c31(c *Ctx) {
	if c.load("") == nil {
		return
	}
	c.P = c.progs[""]
	thisProg = c.P
	c.rule("digest: every path returns the named function of exactly the argument's bytes (value numbering of the bytes given to the digest)")
	c.rule("text: the text form is the upper-case hexadecimal of that digest")
	c.rule("crc8: the checksum starts at zero and replaces itself by table[checksum ^ byte] for every byte in order; the table is the complete one of the polynomial 0x07 and is never written")
	c.rule("hash64: the same bytes always give the same value: a fixed function under a seed that is never changed")
	fns := []digestFn{
		{"MD5", []string{"crypto/md5.New"}, false},
		{"Md5Str", []string{"crypto/md5.New"}, true},
		{"SHA1", []string{"crypto/sha1.New"}, false},
		{"Sha1Str", []string{"crypto/sha1.New"}, true},
		{"CRC32", []string{"hash/crc32.NewIEEE", "hash/crc32.Checksum(3988292384)"}, false},
		{"CRC64", []string{"hash/crc64.Checksum(14514072000185962306)"}, false},
		{"FNVHash32", []string{"hash/fnv.New32a"}, false},
		{"FNVHash64", []string{"hash/fnv.New64a"}, false},
		{"Blake2b", []string{"golang.org/x/crypto/blake2b.New256"}, false},
	}
	for _, d := range fns {
		f := c.pub("util", "", d.name)
		if f == nil {
			continue
		}
		e := c.engine()
		outs := c.run(e, f)
		in := e.Params[0]
		good := false
		var fold []*Outcome
		for _, o := range outs {
			if o.Kind == "panic" {
				c.viol("digest", f, nil, o, "it may panic")
				continue
			}
			if o.Kind == "loop" || o.Kind == "return" && strings.HasPrefix(d.name, "FNV") && !strings.Contains(o.Ret[0].String(), "sum") {
				fold = append(fold, o)
				continue
			}
			if er := errOf(f, o); er != nil && o.S.nilErr(er) != 1 {
				if isMadeErr(er) || er.Op == "sym" {
					continue // reported, not a digest
				}
			}
			c.ob("digests")
			r := o.Ret[0]
			if d.hex {
				x, w := upperHex(e, o.S, r)
				if w != "" {
					c.viol("text", f, nil, o, "%s", w)
					continue
				}
				r = x
			}
			k, src := c.sumOf(e, o.S, r)
			ok := false
			for _, w := range d.kinds {
				ok = ok || w == k
			}
			if !ok {
				if k == "" {
					k = "(" + r.String() + ")"
				}
				c.viol("digest", f, nil, o, "what is returned is %s of %s, not %s", k, src, d.kinds[0])
				continue
			}
			if src != in {
				c.viol("digest", f, nil, o, "what is digested is %s, not the argument", src)
				continue
			}
			good = true
		}
		if len(fold) > 0 {
			if w := fnvFold(d.name, e, fold); w != "" {
				c.viol("digest", f, nil, fold[0], "%s", w)
			} else {
				good = true
			}
		}
		if !good && len(c.viols) == 0 {
			c.viol("digest", f, nil, nil, "no path returns the digest")
		}
	}
	c.crc8()
	c.hash64()
}

// upperHex: t is the upper-case hexadecimal of something.
func upperHex(e *Engine, s *State, t *Term) (*Term, string) {
	up := false
	for {
		t = flat(t)
		switch {
		case t.Op == "app" && (t.Aux == "strings.ToUpper" || t.Aux == "bytes.ToUpper"):
			up = true
			t = t.Sub[0]
			continue
		case t.Op == "app" && t.Aux == "encoding/hex.EncodeToString":
			if !up {
				return nil, "the hexadecimal digits are lower-case"
			}
			return t.Sub[0], ""
		case t.Op == "sym" && t.Sym != nil && t.Sym.Ev != nil && t.Sym.Ev.Fn == "fmt.Sprintf":
			ev := t.Sym.Ev
			if ev.Args[0] != tStr("%X") && !(up && ev.Args[0] == tStr("%x")) {
				return nil, fmt.Sprintf("the digest is formatted with %s", ev.Args[0])
			}
			l := e.content(s, ev.Args[1])
			if l.Op == "list" && len(l.Sub) == 1 {
				return l.Sub[0], ""
			}
			return nil, "what is formatted is not determined"
		case t.Op == "app" && t.Aux == "fmt.Sprintf" && len(t.Sub) == 2:
			if t.Sub[0] != tStr("%X") && !(up && t.Sub[0] == tStr("%x")) {
				return nil, fmt.Sprintf("the digest is formatted with %s", t.Sub[0])
			}
			if l := t.Sub[1]; l.Op == "list" && len(l.Sub) == 1 {
				return l.Sub[0], ""
			}
			return nil, "what is formatted is not determined"
		case t.Op == "list":
			// digit by digit
			var sub []*Term
			for i := 0; i+1 < len(t.Sub); i += 2 {
				a, b := t.Sub[i], t.Sub[i+1]
				if a.Op == "app" && b.Op == "app" && a.Aux == "hexhi" && b.Aux == "hexlo" && a.Sub[0] == b.Sub[0] {
					sub = append(sub, a.Sub[0])
					continue
				}
				return nil, "the text is not the hexadecimal of the digest"
			}
			if !up {
				return nil, "the hexadecimal digits are lower-case"
			}
			return mkT("list", "", nil, sub...), ""
		}
		return nil, fmt.Sprintf("the text is %s, not the upper-case hexadecimal of the digest", t)
	}
}

// foldOver decides that every path returns the fold of step over the bytes of in, starting at zero value v0.
// step(n, r) gives the index of the byte that takes r to n, or nil.
func foldOver(outs []*Outcome, in *Term, isInit func(*Term) bool, step func(n, r *Term) *Term) string {
	var sw []*swept
	for _, o := range outs {
		if o.Kind == "panic" {
			return "it may panic"
		}
		s := &swept{o: o, n: mkLen(in)}
		for i, ev := range o.S.events {
			if ev.Kind == "load" && ev.Args[0].Op == "idx" && sameT(ev.Args[0].Sub[0], in) {
				s.idx, s.at = append(s.idx, ev.Args[0].Sub[1]), append(s.at, i)
			}
		}
		sw = append(sw, s)
		if o.Kind != "return" {
			continue
		}
		r := stripConv(o.Ret[0])
		if lastLoop(o) < 0 {
			// nothing or one byte
			if isInit(r) {
				if !o.S.arith().le(mkLen(in), tZero, 0) {
					return "the start value is returned although bytes remain"
				}
				continue
			}
			return fmt.Sprintf("%s is returned", r)
		}
		if r.Sym == nil || r.Sym.Kind != "loop" || r.Sym.Init == nil || !isInit(r.Sym.Init) {
			return fmt.Sprintf("%s is returned, not the running value", r)
		}
		ix := step(r.Sym.First, r.Sym.Init)
		if ix == nil || ix != tZero {
			return fmt.Sprintf("the first step gives %s", r.Sym.First)
		}
		for _, n := range r.Sym.Nexts {
			if step(n, r) == nil {
				return fmt.Sprintf("a step takes %s to %s", r, n)
			}
		}
		if len(r.Sym.Nexts) == 0 {
			return "no step is seen"
		}
	}
	if bad, why := covers(sw); bad != nil {
		return "not every byte is shown to be used, in order: " + why
	}
	return ""
}

func fnvFold(name string, e *Engine, outs []*Outcome) string {
	off, prime := "2166136261", "16777619"
	if strings.HasSuffix(name, "64") {
		off, prime = "14695981039346656037", "1099511628211"
	}
	in := e.Params[0]
	return foldOver(outs, in, func(t *Term) bool { return t.Aux == off && t.isConst() }, func(n, r *Term) *Term {
		n = stripConv(n)
		if n.Op != "bin" || n.Aux != "*" {
			return nil
		}
		for i := 0; i < 2; i++ {
			if n.Sub[i].Aux == prime && n.Sub[1-i].Op == "bin" && n.Sub[1-i].Aux == "^" {
				x := n.Sub[1-i]
				for j := 0; j < 2; j++ {
					if x.Sub[j] == r {
						return elemIndex(stripConv(x.Sub[1-j]), in)
					}
				}
			}
		}
		return nil
	})
}

func (c *Ctx) crc8() {
	f := c.pub("util", "", "CRC8")
	if f == nil {
		return
	}
	e := c.engine()
	outs := c.run(e, f)
	in := e.Params[0]
	var tab *Term
	c.ob("crc8")
	w := foldOver(outs, in, func(t *Term) bool { return t == tZero }, func(n, r *Term) *Term {
		n = stripConv(n)
		var base, ix *Term
		switch {
		case n.Op == "init" && n.Sub[0].Op == "idx":
			base, ix = n.Sub[0].Sub[0], n.Sub[0].Sub[1]
		case n.Op == "at":
			base, ix = n.Sub[0], n.Sub[1]
		default:
			return nil
		}
		if base.Op == "init" {
			base = base.Sub[0]
		}
		if base.Op != "global" {
			return nil
		}
		if tab != nil && tab != base {
			return nil
		}
		tab = base
		ix = stripConv(ix)
		if r == tZero {
			if j := elemIndex(ix, in); j != nil {
				return j
			}
		}
		if ix.Op == "bin" && ix.Aux == "^" {
			for j := 0; j < 2; j++ {
				if stripConv(ix.Sub[j]) == r {
					return elemIndex(stripConv(ix.Sub[1-j]), in)
				}
			}
		}
		return nil
	})
	if w != "" {
		c.viol("crc8", f, nil, nil, "%s", w)
		return
	}
	tb, ok := c.P.globalInts(tab.Aux)
	if !ok || len(tb) != 256 {
		c.viol("crc8", f, nil, nil, "the table %s is not 256 constants that are never written", tab)
		return
	}
	for i := range tb {
		c.ob("table entries")
		v := byte(i)
		for k := 0; k < 8; k++ {
			if v&0x80 != 0 {
				v = v<<1 ^ 7
			} else {
				v <<= 1
			}
		}
		if tb[i] != int64(v) {
			c.viol("crc8", f, nil, nil, "entry %d of the table is %d, not %s", i, tb[i], strconv.Itoa(int(v)))
			return
		}
	}
}

func (c *Ctx) hash64() {
	f := c.pub("util", "", "Hash64")
	if f == nil {
		return
	}
	e := c.engine()
	outs := c.run(e, f)
	in := e.Params[0]
	for _, o := range outs {
		if o.Kind != "return" {
			c.viol("hash64", f, nil, o, "it may %s", o.Kind)
			continue
		}
		c.ob("digests")
		r := flat(o.Ret[0])
		if k, src := c.sumOf(e, o.S, r); k != "" && src == in {
			continue
		}
		if r.Op == "app" && r.Aux == "hash/maphash.Bytes" && flat(r.Sub[1]) == in && r.Sub[0].Op == "init" && r.Sub[0].Sub[0].Op == "global" {
			if g := c.P.global(r.Sub[0].Sub[0].Aux); g != nil {
				if w := c.P.gwritten(g); w != "" {
					c.viol("hash64", f, nil, o, "the seed is changed at %s", w)
				}
				continue
			}
		}
		c.viol("hash64", f, nil, o, "what is returned is %s, not a fixed function of the bytes", r)
	}
}

func init() {
	checks["C31"] = checkDef{c31, "path-sensitive value numbering of the bytes given to each digest; fold analysis of the CRC-8 loop and its constant table"}
}
