package main

import (
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// resolve finds the repository function a call runs, if it is known.
func (e *Engine) resolve(s *State, f *Term, args []*Term, c *ssa.CallCommon) (*ssa.Function, []*Term) {
	if c.IsInvoke() {
		t := args[0]
		if t.Typ != nil {
			if m := e.P.methodOf(t.Typ, c.Method.Name()); m != nil {
				return m, nil
			}
		}
		// an interface of the repository with one implementation
		if k := typeKey(c.Value.Type()); isRepoKey(k) {
			it, _ := c.Value.Type().Underlying().(*types.Interface)
			var hit []*types.Named
			for _, n := range e.P.impl["*"] {
				if _, isI := n.Underlying().(*types.Interface); isI || it == nil || n.TypeParams().Len() > 0 {
					continue
				}
				if types.Implements(types.NewPointer(n), it) {
					hit = append(hit, n)
				}
			}
			// prefer implementations of the interface's own package that are not wrappers of it
			if len(hit) > 1 {
				var best []*types.Named
				for _, n := range hit {
					if !holdsIface(n, c.Value.Type()) {
						best = append(best, n)
					}
				}
				hit = best
			}
			if len(hit) == 1 {
				if m := e.P.method(hit[0], c.Method.Name()); m != nil {
					return e.P.fnBody(m), nil
				}
			}
		}
		return nil, nil
	}
	if f != nil && f.Fn != nil {
		if b := e.P.fnBody(f.Fn); b != nil {
			return b, f.Sub
		}
	}
	return nil, nil
}

func holdsIface(n *types.Named, it types.Type) bool {
	st, ok := n.Underlying().(*types.Struct)
	if !ok {
		return false
	}
	for i := 0; i < st.NumFields(); i++ {
		if types.Identical(st.Field(i).Type(), it) {
			return true
		}
	}
	return false
}

// methodOf finds a repository method of a concrete type.
func (p *Prog) methodOf(t types.Type, name string) *ssa.Function {
	t = types.Unalias(t)
	if pt, ok := t.(*types.Pointer); ok {
		t = types.Unalias(pt.Elem())
	}
	n, ok := t.(*types.Named)
	if !ok || n.Obj().Pkg() == nil || p.SPkgs[n.Obj().Pkg().Path()] == nil {
		return nil
	}
	if _, isI := n.Underlying().(*types.Interface); isI {
		return nil
	}
	return p.fnBody(p.method(n.Origin(), name))
}

func (e *Engine) invoke(s *State, in ssa.Instruction, f *Term, args []*Term, c *ssa.CallCommon, bind ssa.Value, isDef bool) []*State {
	if _, ok := c.Value.(*ssa.Builtin); ok {
		return e.builtin(s, in, c.Value.(*ssa.Builtin).Name(), args, c, bind, isDef)
	}
	fn, binds := e.resolve(s, f, args, c)
	if fn != nil && e.Shared != nil && len(binds) == 0 && len(fn.FreeVars) == 0 && (e.Cut != nil && e.Cut(fn) || e.bigFn(fn)) {
		if n := len(fn.Params); n < len(args) {
			args = args[len(args)-n:]
		}
		neutral, canPanic := true, false
		if !e.measuring {
			sum := e.summary(fn, args, s.locks)
			neutral, canPanic = sum.Neutral, sum.CanPanic
		}
		if neutral {
			ev := s.event(e, "repocall", fnName(fn), args, in)
			ev.Uses = fn
			e.fire(s, ev)
			var next []*State
			if canPanic {
				next = e.maybePanic(s, ev, true, "panic in "+fnName(fn))
			}
			for _, a := range args {
				e.escape(s, a)
			}
			res := e.fresh(s, ev, c.Signature().Results(), args)
			e.bump(s)
			for _, a := range args {
				e.smash(s, a, ev)
			}
			return append(next, e.bindRes(s, bind, isDef, res)...)
		}
	}
	if fn != nil && (e.Opaque == nil || !e.Opaque(fn)) {
		n := 0
		for _, fr := range s.frames {
			if fr.fn == fn {
				n++
			}
		}
		if n < 2 && len(s.frames) < e.MaxDepth {
			if n := len(fn.Params); n < len(args) {
				args = args[len(args)-n:]
			}
			nf := newFrame(fn, args, binds)
			nf.isDef = isDef
			nf.bind = bind
			s.frames = append(s.frames, nf)
			return []*State{s}
		}
	}
	if fn != nil { // opaque repository call
		ev := s.event(e, "repocall", fnName(fn), args, in)
		ev.Uses = fn
		e.fire(s, ev)
		var next []*State
		if e.ExtPanics {
			next = e.maybePanic(s, ev, true, "panic in "+fnName(fn))
		}
		res := e.fresh(s, ev, c.Signature().Results(), args)
		e.bump(s)
		for _, a := range args {
			e.smash(s, a, ev)
		}
		return append(next, e.bindRes(s, bind, isDef, res)...)
	}
	name := calleeName(c, f)
	if name == "dynamic" || name == "?" {
		if r, ok := e.fieldFunc(s, f, args, c); ok {
			return e.bindRes(s, bind, isDef, r)
		}
		ev := s.event(e, "dyncall", "", append([]*Term{f}, args...), in)
		e.fire(s, ev)
		var next []*State
		if p := e.maybePanic(s, ev, true, "panic in a callback"); p != nil {
			next = p
		}
		for _, a := range args {
			e.escape(s, a)
		}
		e.bump(s)
		for _, a := range args {
			e.smash(s, a, ev)
		}
		res := e.fresh(s, ev, c.Signature().Results(), args)
		return append(next, e.bindRes(s, bind, isDef, res)...)
	}
	return e.external(s, in, name, args, c, bind, isDef)
}

// fieldFunc evaluates a call of a function kept in a field that only ever holds pure functions of the repository.
func (e *Engine) fieldFunc(s *State, f *Term, args []*Term, c *ssa.CallCommon) (*Term, bool) {
	if f == nil || f.Op != "init" || f.Sub[0].Op != "fld" {
		return nil, false
	}
	a := f.Sub[0]
	if !e.P.stable(own(a), a.Aux) || !isRepoKey(own(a)) {
		return nil, false
	}
	k := own(a) + "." + a.Aux
	st := e.P.stores[k]
	if len(st) == 0 {
		return nil, false
	}
	for _, v := range st {
		if !e.P.pureFuncs(v, 0) {
			return nil, false
		}
	}
	var as []*Term
	as = append(as, a.Sub[0])
	for _, x := range args {
		as = append(as, e.content(s, x))
	}
	res := c.Signature().Results()
	if res.Len() != 1 {
		return nil, false
	}
	return mkT("app", "field:"+k, res.At(0).Type(), as...), true
}

func (p *Prog) pureFuncs(v ssa.Value, d int) bool {
	if d > 6 {
		return false
	}
	switch x := v.(type) {
	case *ssa.Phi:
		for _, e := range x.Edges {
			if e == v {
				continue
			}
			if !p.pureFuncs(e, d+1) {
				return false
			}
		}
		return true
	case *ssa.MakeClosure:
		return len(x.Bindings) == 0 && p.pureFn(x.Fn.(*ssa.Function), d)
	case *ssa.Function:
		return p.pureFn(x, d)
	case *ssa.ChangeType:
		return p.pureFuncs(x.X, d+1)
	case *ssa.Const:
		return x.IsNil()
	case *ssa.Call:
		// a helper that picks one of several functions
		if f := p.fnBody(x.Call.StaticCallee()); f != nil {
			n := 0
			for _, b := range f.Blocks {
				for _, in := range b.Instrs {
					if r, ok := in.(*ssa.Return); ok && len(r.Results) == 1 {
						n++
						if !p.pureFuncs(r.Results[0], d+1) {
							return false
						}
					}
				}
			}
			return n > 0
		}
	case *ssa.UnOp:
		if al, ok := x.X.(*ssa.Alloc); ok && al.Referrers() != nil {
			for _, r := range *al.Referrers() {
				if st, ok := r.(*ssa.Store); ok && st.Addr == al && !p.pureFuncs(st.Val, d+1) {
					return false
				}
			}
			return true
		}
	}
	return false
}

// pureFn: no stores to anything but its own locals, and only pure calls.
func (p *Prog) pureFn(f *ssa.Function, d int) bool {
	if d > 6 || len(f.Blocks) == 0 {
		return false
	}
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			switch x := in.(type) {
			case *ssa.Store:
				if !baseAlloc(x.Addr) {
					return false
				}
			case *ssa.MapUpdate, *ssa.Send, *ssa.Go, *ssa.Select, *ssa.Defer:
				return false
			case *ssa.UnOp:
				if g, ok := x.X.(*ssa.Global); ok && !p.constGlobal(g) {
					return false
				}
			case *ssa.Call:
				c := x.Common()
				if _, ok := c.Value.(*ssa.Builtin); ok {
					continue
				}
				if c.IsInvoke() {
					if strings.HasPrefix(typeKey(c.Value.Type()), "hash.") {
						continue
					}
					return false
				}
				cf := c.StaticCallee()
				if cf == nil {
					return false
				}
				if b := p.fnBody(cf); b != nil {
					if !p.pureFn(b, d+1) {
						return false
					}
					continue
				}
				n := cf.RelString(nil)
				if !isPure(n) && hashCtor(n) == "" {
					return false
				}
			}
		}
	}
	return true
}

// constGlobal: a package variable never written outside initialisation.
func (p *Prog) constGlobal(g *ssa.Global) bool {
	if g.Pkg == nil || p.SPkgs[g.Pkg.Pkg.Path()] == nil {
		return true
	}
	for _, f := range p.Funcs {
		if f.Pkg != g.Pkg || f.Name() == "init" {
			continue
		}
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if st, ok := in.(*ssa.Store); ok && st.Addr == g {
					return false
				}
			}
		}
	}
	return true
}

// fresh makes the unknown results of a call.
func (e *Engine) fresh(s *State, ev *Event, res *types.Tuple, deps []*Term) *Term {
	if res.Len() == 0 {
		return nil
	}
	var out []*Term
	for i := 0; i < res.Len(); i++ {
		t := mkSym("call", res.At(i).Type())
		t.Sym.Ev, t.Sym.Idx, t.Sym.Deps = ev, i, deps
		t.Sym.Name = shortCall(ev) + "#" + itoa(i) + "'" + itoa(t.id)
		out = append(out, t)
	}
	ev.Res = out[0]
	if len(out) > 1 {
		ev.Res = mk("tuple", "", out...)
	}
	if e.OnResult != nil {
		e.OnResult(e, s, ev)
	}
	return ev.Res
}

func shortCall(ev *Event) string {
	n := ev.Fn
	if i := strings.LastIndex(n, "/"); i >= 0 {
		n = n[i+1:]
	}
	return ev.Kind + ":" + n
}

func (e *Engine) builtin(s *State, in ssa.Instruction, name string, args []*Term, c *ssa.CallCommon, bind ssa.Value, isDef bool) []*State {
	done := func(r *Term) []*State { return e.bindRes(s, bind, isDef, r) }
	switch name {
	case "len":
		if len(c.Args) == 1 {
			switch c.Args[0].Type().Underlying().(type) {
			case *types.Map:
				m := args[0]
				if m.Op == "obj" && s.mapver[m] == 0 && s.private(m) {
					return done(tZero)
				}
				r := mkT("len", "map@"+itoa(s.mapver[m])+"."+itoa(s.epoch), c.Signature().Results().At(0).Type(), m)
				ev := s.event(e, "maplen", "", args, in)
				ev.Res = r
				e.fire(s, ev)
				return done(r)
			case *types.Chan:
				t := mkSym("chanlen", types.Typ[types.Int])
				t.Sym.Deps = args
				s.know(mkBin("<", t, tZero, nil), false)
				return done(t)
			}
			if p, ok := c.Args[0].Type().Underlying().(*types.Pointer); ok {
				if a, ok := p.Elem().Underlying().(*types.Array); ok {
					return done(tInt(a.Len()))
				}
			}
			if a, ok := c.Args[0].Type().Underlying().(*types.Array); ok {
				return done(tInt(a.Len()))
			}
		}
		return done(mkLen(args[0]))
	case "cap":
		if p, ok := c.Args[0].Type().Underlying().(*types.Pointer); ok {
			if a, ok := p.Elem().Underlying().(*types.Array); ok {
				return done(tInt(a.Len()))
			}
		}
		return done(mkCap(args[0]))
	case "append":
		ev := s.event(e, "append", "", args, in)
		x := args[0]
		y := tNil
		if len(args) > 1 {
			y = e.content(s, args[1])
		}
		r := x
		if y != tNil && mkLen(y) != tZero {
			r = mkT("append", "", c.Signature().Results().At(0).Type(), x, y)
		}
		ev.Res = r
		e.fire(s, ev)
		return done(r)
	case "copy":
		ev := s.event(e, "copy", "", args, in)
		r := e.copyModel(s, args[0], args[1], ev)
		ev.Res = r
		e.fire(s, ev)
		return done(r)
	case "delete":
		m, k := args[0], args[1]
		ev := s.event(e, "mapdel", "", args, in)
		e.fire(s, ev)
		var next []*State
		if len(c.Args) == 2 && keyPanics(c.Args[1]) != "" && (k.Typ == nil || termKeyPanics(k)) {
			next = e.maybePanic(s, ev, true, "unhashable map key")
		}
		s.mapver[m]++
		s.maps[m] = map[*Term][2]*Term{k: {zeroTerm(c.Args[0].Type().Underlying().(*types.Map).Elem()), tFalse}}
		return append(next, done(nil)...)
	case "clear":
		m := args[0]
		ev := s.event(e, "mapclear", "", args, in)
		e.fire(s, ev)
		s.mapver[m]++
		s.maps[m] = map[*Term][2]*Term{}
		return done(nil)
	case "close":
		ev := s.event(e, "close", "", args, in)
		e.fire(s, ev)
		next := e.maybePanic(s, ev, !e.ownedChan(args[0], c.Args[0].Type()), "close of closed channel")
		return append(next, done(nil)...)
	case "recover":
		var t *Term = tNil
		fr := s.top()
		if e.Recovering && len(s.frames) == 1 && s.panic == nil {
			t = mkSym("recovered", types.NewInterfaceType(nil, nil))
			t.Sym.Ev = s.event(e, "recover", "a panic of the caller", nil, in)
			s.know(mkBin("==", t, tNil, nil), false)
			return done(t)
		}
		if s.panic != nil && fr.isDef && len(s.frames) >= 2 && s.frames[len(s.frames)-2].unw == 1 {
			ev := s.event(e, "recover", s.panic.Kind, nil, in)
			t = mkSym("recovered", types.NewInterfaceType(nil, nil))
			t.Sym.Ev = ev
			s.know(mkBin("==", t, tNil, nil), false)
			s.panic = nil
			e.fire(s, ev)
		}
		return done(t)
	case "min", "max":
		if len(args) == 2 {
			a, b := args[0], args[1]
			switch e.decide(s, mkBin("<", a, b, nil)) {
			case 1:
				if name == "min" {
					return done(a)
				}
				return done(b)
			case 0:
				if name == "min" {
					return done(b)
				}
				return done(a)
			}
			s2 := s.clone()
			s.forks++
			s2.forks++
			s.know(mkBin("<", a, b, nil), true)
			s2.know(mkBin("<", a, b, nil), false)
			x, y := a, b
			if name == "max" {
				x, y = b, a
			}
			n := e.bindRes(s2, bind, isDef, y)
			return append(n, e.bindRes(s, bind, isDef, x)...)
		}
	case "print", "println":
		return done(nil)
	case "ssa:wrapnilchk":
		return done(args[0])
	case "real", "imag", "complex":
	}
	ev := s.event(e, "call", "builtin "+name, args, in)
	return done(e.fresh(s, ev, c.Signature().Results(), args))
}

func (e *Engine) copyModel(s *State, dst, src *Term, ev *Event) *Term {
	n := mkSym("copied", types.Typ[types.Int])
	n.Sym.Ev, n.Sym.Deps = ev, []*Term{dst, src}
	ld, ls := mkLen(dst), mkLen(src)
	if a, ok := ld.intVal(); ok {
		if b, ok := ls.intVal(); ok {
			if b < a {
				a = b
			}
			n = tInt(a)
			c := e.content(s, src)
			if a <= 64 {
				base, lo := dst, int64(0)
				if dst.Op == "slice" {
					base = dst.Sub[0]
					if l, ok := dst.Sub[1].intVal(); ok {
						lo = l
					} else {
						base = nil
					}
				}
				if base != nil {
					for i := int64(0); i < a; i++ {
						var v *Term
						switch c.Op {
						case "list":
							v = c.Sub[i]
						case "arr":
							v = e.load(s, mkIdx(c.Sub[0], tInt(i), nil), types.Typ[types.Byte])
						default:
							v = mkAt(c, tInt(i), types.Typ[types.Byte])
						}
						ia := mkIdx(base, tInt(lo+i), types.NewPointer(types.Typ[types.Byte]))
						e.store(s, ia, v, types.Typ[types.Byte])
					}
					return n
				}
			}
			e.smash(s, dst, ev)
			return n
		}
	}
	if n.Op == "sym" {
		s.know(mkBin("<", n, tZero, nil), false)
		s.know(mkBin("<", ld, n, nil), false)
		s.know(mkBin("<", ls, n, nil), false)
		ar := e.arith(s)
		if ar.le(ls, ld, 0) {
			s.know(mkBin("==", n, ls, nil), true)
		} else if ar.le(ld, ls, 0) {
			s.know(mkBin("==", n, ld, nil), true)
		}
	}
	if ld, ok := ld.intVal(); ok && ld <= 64 && dst.Op == "slice" && s.private(dst) {
		if lo, ok := dst.Sub[1].intVal(); ok {
			bt := types.Typ[types.Byte]
			c := e.content(s, src)
			base := dst.Sub[0]
			var vs []*Term
			for i := int64(0); i < ld; i++ {
				prev := e.load(s, mkIdx(base, tInt(lo+i), types.NewPointer(bt)), bt)
				vs = append(vs, mkT("app", "copiedover", bt, c, tInt(i), prev))
			}
			for i, v := range vs {
				e.store(s, mkIdx(base, tInt(lo+int64(i)), types.NewPointer(bt)), v, bt)
			}
			return n
		}
	}
	e.smash(s, dst, ev)
	// a copy into a whole fresh slice of the same length is the source's content
	if r := dst; r.Op == "obj" && r.Obj.Kind == "slice" && ld == ls {
		s.mem[mkFld(r, "#stream", nil)] = e.content(s, src)
	}
	return n
}

var purePkgs = []string{"strings.", "strconv.", "math.", "math/bits.", "unicode.", "unicode/utf8.", "path.", "path/filepath.", "bytes.", "slices.", "encoding/binary.", "cmp."}
var pureFns = map[string]bool{
	"hash/crc32.ChecksumIEEE": true, "hash/crc32.Checksum": true, "hash/crc32.MakeTable": true,
	"hash/crc64.Checksum": true, "hash/crc64.MakeTable": true, "hash/crc64.Update": true, "hash/crc32.Update": true,
	"hash/maphash.Bytes": true, "hash/maphash.String": true,
	"encoding/hex.EncodeToString": true, "encoding/hex.DecodedLen": true, "encoding/hex.EncodedLen": true,
	"fmt.Sprint": true, "fmt.Sprintf": true, "fmt.Sprintln": true,
	"golang.org/x/sys/unix.Getpagesize": true, "os.Getpagesize": true, "os.IsExist": true, "os.IsNotExist": true,
	"errors.Is": true, "io/fs.FileMode.Perm": true, "(io/fs.FileMode).Perm": true,
	"invoke context.Context.Done": true, "time.Duration.Seconds": true,
	"invoke io/fs.FileInfo.Size": true, "invoke io/fs.FileInfo.Mode": true, "invoke os.FileInfo.Size": true, "invoke os.FileInfo.Mode": true,
	"(*golang.org/x/exp/mmap.ReaderAt).Len": true, "invoke crypto/cipher.Block.BlockSize": true,
	"(golang.org/x/sys/unix.Errno).Error": true, "(*os.File).Fd": true, "(*os.File).Name": true,
	"github.com/golang/snappy.Encode": true, "(*crypto/rsa.PublicKey).Size": true,
}
var impureFns = map[string]bool{
	"bytes.NewBuffer": true, "bytes.NewReader": true, "bytes.NewBufferString": true, "strings.NewReader": true, "slices.Sort": true, "slices.SortFunc": true, "slices.Reverse": true,
	"encoding/binary.Write": true, "encoding/binary.Read": true, "slices.SortStableFunc": true, "math.Float64frombits": false,
	"encoding/binary.PutUvarint": true, "encoding/binary.PutVarint": true, "bytes.Map": true, "strings.NewReplacer": true,
}

func isPure(n string) bool {
	if impureFns[n] {
		return false
	}
	if pureFns[n] {
		return true
	}
	for _, p := range purePkgs {
		if strings.HasPrefix(n, p) && !strings.HasPrefix(n, p+"(") {
			return true
		}
	}
	return false
}

// hashCtor names the digest a constructor makes.
func hashCtor(n string) string {
	switch n {
	case "crypto/md5.New", "crypto/sha1.New", "crypto/sha256.New", "crypto/sha256.New224", "crypto/sha512.New", "hash/fnv.New32", "hash/fnv.New32a", "hash/fnv.New64", "hash/fnv.New64a", "hash/fnv.New128", "hash/fnv.New128a",
		"golang.org/x/crypto/blake2b.New256", "golang.org/x/crypto/blake2b.New512", "golang.org/x/crypto/blake2b.New384", "hash/crc32.NewIEEE", "hash/crc32.New", "hash/crc64.New", "hash/adler32.New":
		return n
	}
	return ""
}

var hashSum = map[string]string{
	"crypto/md5.Sum": "crypto/md5.New", "crypto/sha1.Sum": "crypto/sha1.New", "crypto/sha256.Sum256": "crypto/sha256.New", "crypto/sha256.Sum224": "crypto/sha256.New224",
	"crypto/sha512.Sum512": "crypto/sha512.New", "golang.org/x/crypto/blake2b.Sum256": "golang.org/x/crypto/blake2b.New256", "golang.org/x/crypto/blake2b.Sum512": "golang.org/x/crypto/blake2b.New512",
}

var hashLen = map[string]int64{"crypto/md5.New": 16, "crypto/sha1.New": 20, "crypto/sha256.New": 32, "crypto/sha256.New224": 28, "crypto/sha512.New": 64, "hash/fnv.New64a": 8, "hash/fnv.New64": 8, "hash/fnv.New32": 4, "hash/fnv.New32a": 4, "hash/fnv.New128a": 16, "hash/fnv.New128": 16,
	"golang.org/x/crypto/blake2b.New256": 32, "golang.org/x/crypto/blake2b.New512": 64}

// readOnly says that an external function only reads the contents of its slice and pointer arguments.
func readOnly(n string) bool {
	i := strings.LastIndex(n, ".")
	switch n[i+1:] {
	case "Write", "WriteString", "WriteAt", "WriteByte", "Errorf", "Sprintf", "Sprint", "New", "Checksum", "Encode", "EncodeAll", "Marshal", "Rename", "OpenFile", "Stat", "Bytes", "String", "Len", "Cap", "AppendCertsFromPEM", "NewReader", "NewBuffer", "ParsePKIXPublicKey", "ParsePKCS1PrivateKey", "EncryptPKCS1v15", "DecryptPKCS1v15", "NewCipher", "NewCBCEncrypter", "NewCBCDecrypter", "Send", "Println", "Printf", "Print", "Unmap", "Flush", "Close", "Repeat", "Equal", "Compare", "IndexByte", "Sleep", "NewWriter", "NewWriterLevel", "NewRequest", "Do", "After", "NewTimer", "Stop":
		return true
	}
	return isPure(n)
}

// frozen: is the map at this address only filled while its owner is being made?
func (e *Engine) frozen(m *Term) bool {
	if m.Op == "fld" && m.Sub[0].Op == "init" && m.Sub[0].Sub[0].Op == "fld" {
		f := m.Sub[0].Sub[0]
		return e.P.frozenField(own(f) + "." + f.Aux)
	}
	if m.Op == "fld" {
		return e.P.frozenField(own(m) + "." + m.Aux)
	}
	return false
}

var frozenTab map[string]bool

var mutators = map[string]bool{"Put": true, "Del": true, "Delete": true, "Store": true, "Swap": true, "LoadOrStore": true, "LoadAndDelete": true, "Clear": true, "CompareAndSwap": true, "CompareAndDelete": true, "Remove": true}
var readers = map[string]bool{"Get": true, "Has": true, "Load": true, "Range": true, "Len": true, "Contains": true}

func (p *Prog) frozenField(k string) bool {
	if !isRepoKey(k) {
		return false
	}
	if frozenTab == nil {
		frozenTab = map[string]bool{} // true: changed outside construction
		for _, f := range p.Funcs {
			for _, b := range f.Blocks {
				for _, in := range b.Instrs {
					fa, ok := in.(*ssa.FieldAddr)
					if !ok || fa.Referrers() == nil || baseAlloc(fa.X) {
						continue
					}
					key := fieldKey(fa)
					note := func(v ssa.Value, refs *[]ssa.Instruction) {
						for _, r := range *refs {
							switch y := r.(type) {
							case *ssa.UnOp, *ssa.DebugRef, *ssa.BinOp, *ssa.FieldAddr:
							case ssa.CallInstruction:
								c := y.Common()
								cf := c.StaticCallee()
								if cf == nil || len(c.Args) == 0 || c.Args[0] != v || !readers[cf.Name()] {
									frozenTab[key] = true
								}
							default:
								frozenTab[key] = true
							}
						}
					}
					note(fa, fa.Referrers())
					for _, r := range *fa.Referrers() {
						if u, ok := r.(*ssa.UnOp); ok && u.Referrers() != nil {
							note(u, u.Referrers())
						}
					}
				}
			}
		}
	}
	return !frozenTab[k]
}

func (e *Engine) external(s *State, in ssa.Instruction, name string, args []*Term, c *ssa.CallCommon, bind ssa.Value, isDef bool) []*State {
	done := func(r *Term) []*State { return e.bindRes(s, bind, isDef, r) }
	res := c.Signature().Results()
	rt := func(i int) types.Type { return res.At(i).Type() }
	call := func(kind, fn string) *Event {
		ev := s.event(e, kind, fn, args, in)
		return ev
	}
	sym := func(kind string, ev *Event, i int, t types.Type) *Term {
		x := mkSym(kind, t)
		x.Sym.Ev, x.Sym.Idx, x.Sym.Deps = ev, i, args
		x.Sym.Name = shortCall(ev) + "#" + itoa(i) + "'" + itoa(x.id)
		return x
	}
	if strings.HasPrefix(name, "(*sync.") || strings.HasPrefix(name, "invoke sync.Locker.") {
		m := name[strings.LastIndex(name, ".")+1:]
		typ := name
		switch {
		case strings.Contains(typ, "Mutex)") || strings.Contains(typ, "Locker"):
			return e.lockOp(s, in, m, args[0], bind, isDef)
		case strings.Contains(typ, "sync.Map)"):
			return e.smapOp(s, in, m, args, c, bind, isDef)
		case strings.Contains(typ, "sync.Once)") && m == "Do":
			ev := call("once", m)
			e.fire(s, ev)
			s2 := s.clone()
			s.forks++
			s2.forks++
			s2.event(e, "once", "skip", args[:1], in)
			n := e.bindRes(s2, bind, isDef, nil)
			return append(n, e.callback(s, in, args[1], nil, bind, isDef, func(e *Engine, s *State, ret []*Term) []*State {
				return e.bindRes(s, bind, isDef, nil)
			})...)
		case strings.Contains(typ, "sync.Pool)"):
			ev := call("pool", m)
			if m == "Get" {
				r := sym("pool", ev, 0, rt(0))
				ev.Res = r
				e.fire(s, ev)
				return done(r)
			}
			e.escape(s, args[1])
			e.fire(s, ev)
			return done(nil)
		}
		ev := call("call", name)
		e.fire(s, ev)
		return done(e.fresh(s, ev, res, args))
	}
	if strings.HasPrefix(name, "sync/atomic.") || strings.HasPrefix(name, "(*sync/atomic.") {
		return e.atomicOp(s, in, name, args, c, bind, isDef)
	}
	if strings.HasPrefix(name, "(*container/list.") || strings.HasPrefix(name, "container/list.") {
		return e.listOp(s, in, name, args, c, bind, isDef)
	}
	switch name {
	case "errors.New", "fmt.Errorf":
		ev := call("call", name)
		r := sym("err", ev, 0, rt(0))
		s.know(mkBin("==", r, tNil, nil), false)
		ev.Res = r
		e.fire(s, ev)
		return done(r)
	case "sort.Search":
		ev := call("call", name)
		r := sym("search", ev, 0, rt(0))
		s.know(mkBin("<", r, tZero, nil), false)
		s.know(mkBin("<", args[0], r, nil), false)
		ev.Res = r
		e.fire(s, ev)
		// the predicate, asked about any index it may be asked about
		i := sym("probe", ev, 0, types.Typ[types.Int])
		s2 := s.clone()
		s.forks++
		s2.forks++
		n := e.bindRes(s2, bind, isDef, r)
		s.know(mkBin("<", i, tZero, nil), false)
		s.know(mkBin("<", i, args[0], nil), true)
		return append(n, e.callback(s, in, args[1], []*Term{i}, bind, isDef, func(e *Engine, s *State, ret []*Term) []*State {
			e.fire(s, s.event(e, "predret", name, append([]*Term{r, i, args[0]}, ret...), in))
			return e.bindRes(s, bind, isDef, r)
		})...)
	case "slices.BinarySearch":
		ev := call("call", name)
		r, ok := sym("search", ev, 0, types.Typ[types.Int]), sym("found", ev, 1, types.Typ[types.Bool])
		s.know(mkBin("<", r, tZero, nil), false)
		s.know(mkBin("<", mkLen(args[0]), r, nil), false)
		ev.Res = mk("tuple", "", r, ok)
		e.fire(s, ev)
		return done(ev.Res)
	case "sort.Slice", "sort.SliceStable", "slices.Sort", "sort.Sort", "slices.SortFunc", "sort.Stable", "slices.SortStableFunc":
		ev := call("sort", name)
		e.fire(s, ev)
		e.smash(s, args[0], ev)
		if len(args) == 2 {
			// the comparison, asked about any two elements
			s2 := s.clone()
			s.forks++
			s2.forks++
			n := e.bindRes(s2, bind, isDef, nil)
			var cb []*Term
			for k := 0; k < 2; k++ {
				if strings.HasPrefix(name, "sort.") {
					i := sym("probe", ev, k, types.Typ[types.Int])
					s.know(mkBin("<", i, tZero, nil), false)
					s.know(mkBin("<", i, mkLen(args[0]), nil), true)
					cb = append(cb, i)
				} else {
					cb = append(cb, sym("probe", ev, k, nil))
				}
			}
			return append(n, e.callback(s, in, args[1], cb, bind, isDef, func(e *Engine, s *State, ret []*Term) []*State {
				e.fire(s, s.event(e, "lessret", name, append(append([]*Term{args[0]}, cb...), ret...), in))
				return e.bindRes(s, bind, isDef, nil)
			})...)
		}
		return done(nil)
	case "time.NewTimer", "time.After", "time.AfterFunc":
		ev := call("call", name)
		r := mkT("app", name, rt(0), args[0], tInt(int64(ev.N)))
		ev.Res = r
		s.know(mkBin("==", r, tNil, nil), false)
		e.fire(s, ev)
		return done(r)
	case "bytes.NewBuffer", "bytes.NewBufferString":
		ev := call("call", name)
		o := mkObj("alloc", rt(0), in)
		s.over[o] = 1
		s.mem[mkFld(o, "#stream", nil)] = args[0]
		ev.Res = o
		e.fire(s, ev)
		return done(o)
	case "hash/maphash.MakeSeed":
		ev := call("call", name)
		return done(e.fresh(s, ev, res, args))
	case "encoding/binary.Write":
		// into an in-memory buffer: the encoding of the value follows what was written before
		if args[0].Op == "obj" && args[0].Typ != nil && typeKey(args[0].Typ) == "bytes.Buffer" {
			ev := call("call", name)
			e.appendStream(s, args[0], mkT("app", "binary:"+args[1].String(), nil, args[2]))
			e.fire(s, ev)
			return done(e.fresh(s, ev, res, args))
		}
	case "encoding/hex.Encode", "encoding/hex.Decode":
		ev := call("call", name)
		e.fire(s, ev)
		// the text of each byte, in place
		src := e.content(s, args[1])
		e.hexModel(s, args[0], src, args[1], name, ev)
		return done(e.fresh(s, ev, res, args))
	}
	if r, ok := e.endian(s, in, name, args, res); ok {
		ev := call("pure", name)
		ev.Res = r
		e.fire(s, ev)
		return done(r)
	}
	if hc := hashCtor(name); hc != "" {
		ev := call("call", name)
		o := mkObj("hash:"+hc, rt(0), in)
		s.mem[mkFld(o, "#stream", nil)] = tStr("")
		for _, a := range args {
			if a != tNil {
				s.mem[mkFld(o, "#key", nil)] = a
			}
		}
		ev.Res = o
		e.fire(s, ev)
		if res.Len() == 2 {
			er := sym("call", ev, 1, rt(1))
			return done(mk("tuple", "", o, er))
		}
		return done(o)
	}
	if hs, ok := hashSum[name]; ok {
		ev := call("call", name)
		ev.Res = mkT("app", "sum:"+hs, rt(0), e.asStream(e.content(s, args[0])))
		e.fire(s, ev)
		return done(ev.Res)
	}
	if name == "errors.Join" && len(args) == 1 {
		if n, ok := mkLen(args[0]).intVal(); ok && n <= 8 {
			var as []*Term
			known := 1
			for i := int64(0); i < n; i++ {
				et := res.At(0).Type()
				x := e.load(s, mkIdx(args[0], tInt(i), types.NewPointer(et)), et)
				if x == tNil {
					continue
				}
				as = append(as, x)
				switch s.nilErr(x) {
				case 0:
					known = 0
				case -1:
					if known == 1 {
						known = -1
					}
				}
			}
			ev := call("pure", name)
			r := tNil
			if known != 1 {
				r = mkT("app", "errors.Join", res.At(0).Type(), as...)
			}
			if known == 0 {
				s.know(mkBin("==", r, tNil, types.Typ[types.Bool]), false)
			}
			ev.Res = r
			e.fire(s, ev)
			return done(r)
		}
	}
	if r, ok := e.zipModel(s, in, name, args, c); ok {
		return done(r)
	}
	if len(args) > 0 {
		if r, ok := e.streamOp(s, in, name, args, c); ok {
			return done(r)
		}
	}
	if isPure(name) {
		var as []*Term
		for _, a := range args {
			x := e.content(s, a)
			if x.Op == "list" && strings.HasPrefix(name, "fmt.") {
				// the values to format, as they are now
				var sub []*Term
				for _, y := range x.Sub {
					if y.Op == "slice" && y.Typ != nil && isByteSlice(y.Typ) {
						y = e.content(s, y)
					}
					sub = append(sub, y)
				}
				x = mkList(sub, x.Typ)
			}
			as = append(as, x)
		}
		ev := call("pure", name)
		r := e.pureApp(s, name, as, res)
		ev.Res = r
		e.fire(s, ev)
		return done(r)
	}
	if strings.HasPrefix(name, "(*github.com/google/btree.BTree") && callbackArg(c) >= 0 || strings.HasSuffix(name, ".Range") && callbackArg(c) >= 0 {
		ev := call("iterate", name)
		e.fire(s, ev)
		ci := callbackArg(c)
		if c.IsInvoke() {
			ci++
		}
		fnT := args[ci]
		sig := c.Args[callbackArg(c)].Type().Underlying().(*types.Signature)
		var cbArgs []*Term
		for i := 0; i < sig.Params().Len(); i++ {
			cbArgs = append(cbArgs, sym("iter", ev, i, sig.Params().At(i).Type()))
		}
		ev.Res = mk("tuple", "", cbArgs...)
		s2 := s.clone()
		s.forks++
		s2.forks++
		n := e.bindRes(s2, bind, isDef, nil)
		return append(n, e.eachCall(s, in, name, ev, fnT, cbArgs, bind, isDef)...)
	}
	ev := call("call", name)
	r := e.fresh(s, ev, res, args)
	if c.IsInvoke() {
		ev.Note = "invoke"
	}
	var next []*State
	if mayPanicExt(name) || e.ExtPanics {
		next = e.maybePanic(s, ev, true, "panic in "+name)
	}
	if keyed := lruKey(name); keyed && len(args) > 1 && termKeyPanics(args[1]) {
		next = append(next, e.maybePanic(s, ev, true, "unhashable cache key")...)
	}
	if e.PreCall != nil {
		e.PreCall(e, s, ev)
	}
	if !readOnly(name) {
		for _, a := range args {
			e.smash(s, a, ev)
		}
	}
	e.ioFacts(s, name, args, ev)
	e.fire(s, ev)
	return append(next, e.bindRes(s, bind, isDef, r)...)
}

func lruKey(n string) bool {
	return strings.HasPrefix(n, "(*github.com/golang/groupcache/lru.Cache).")
}

func mayPanicExt(n string) bool {
	return strings.HasSuffix(n, ".CryptBlocks")
}

func callbackArg(c *ssa.CallCommon) int {
	for i, a := range c.Args {
		if _, ok := a.Type().Underlying().(*types.Signature); ok {
			return i
		}
	}
	return -1
}

// ioFacts: what the documentation promises of counts.
func (e *Engine) ioFacts(s *State, name string, args []*Term, ev *Event) {
	m := name[strings.LastIndex(name, ".")+1:]
	switch m {
	case "Read", "Write", "ReadAt", "WriteAt", "ReadFull":
		if ev.Res != nil && ev.Res.Op == "tuple" && len(args) > 1 {
			n := ev.Res.Sub[0]
			s.know(mkBin("<", n, tZero, nil), false)
			s.know(mkBin("<", mkLen(args[1]), n, nil), false)
		}
	case "IndexByte", "Index":
		if ev.Res != nil {
			s.know(mkBin("<", ev.Res, tInt(-1), nil), false)
			s.know(mkBin("<", ev.Res, mkLen(args[0]), nil), true)
		}
	}
}

func (e *Engine) pureApp(s *State, name string, as []*Term, res *types.Tuple) *Term {
	mkr := func(i int) *Term {
		a := name
		if res.Len() > 1 {
			a += "#" + itoa(i)
		}
		return mkT("app", a, res.At(i).Type(), as...)
	}
	if strings.HasSuffix(name, ".BlockSize") && len(as) == 1 && as[0].Sym != nil && as[0].Sym.Ev != nil {
		switch ev := as[0].Sym.Ev; {
		case ev.Fn == "crypto/aes.NewCipher":
			return tInt(16)
		case hasPre(ev.Fn, "crypto/des.New"):
			return tInt(8)
		case hasPre(ev.Fn, "crypto/cipher.NewCBC") && len(ev.Args) > 0 && ev.Args[0].Sym != nil && ev.Args[0].Sym.Ev != nil && ev.Args[0].Sym.Ev.Fn == "crypto/aes.NewCipher":
			return tInt(16)
		}
	}
	switch name {
	case "bytes.Clone", "slices.Clone":
		if len(as) == 1 {
			return mkT("append", "", res.At(0).Type(), tNil, as[0])
		}
	case "bytes.IndexByte", "strings.IndexByte", "bytes.Index", "strings.Index":
		r := mkr(0)
		s.know(mkBin("<", r, tInt(-1), nil), false)
		s.know(mkBin("<", r, mkLen(as[0]), nil), true)
		return r
	case "encoding/hex.EncodeToString":
		return mkr(0)
	}
	if res.Len() == 0 {
		return nil
	}
	if res.Len() == 1 {
		r := mkr(0)
		if name == "os.Getpagesize" || strings.HasSuffix(name, "unix.Getpagesize") || strings.HasSuffix(name, ".BlockSize") {
			s.know(mkBin("<", tZero, r, nil), true)
			if strings.HasSuffix(name, ".BlockSize") {
				s.know(mkBin("<", r, tInt(256), nil), true)
			}
		}
		if strings.HasSuffix(name, ".Size") || strings.HasSuffix(name, ".Len") {
			s.know(mkBin("<", r, tZero, nil), false)
		}
		return r
	}
	var sub []*Term
	for i := 0; i < res.Len(); i++ {
		sub = append(sub, mkr(i))
	}
	return mk("tuple", "", sub...)
}

// asStream is the canonical form of a byte sequence whatever the type it came in.
func (e *Engine) asStream(t *Term) *Term {
	if t.Op == "conv" && (t.Aux == "bytes" || t.Aux == "string") {
		return t.Sub[0]
	}
	return t
}

func (e *Engine) appendStream(s *State, o *Term, p *Term) {
	k := mkFld(o, "#stream", nil)
	cur, ok := s.mem[k]
	if !ok {
		if r := o.root(); r.Op == "obj" && s.over[r] == 0 {
			cur = tStr("")
		} else {
			cur = mk("init", "stream"+itoa(s.epoch), o)
		}
	}
	p = e.asStream(p)
	if cur != tStr("") {
		p = mk("stream", "", cur, p)
	}
	e.setStream(s, o, p)
}

func (e *Engine) stream(s *State, o *Term) *Term {
	if v, ok := s.mem[mkFld(o, "#stream", nil)]; ok {
		return v
	}
	if r := o.root(); r.Op == "obj" && s.over[r] == 0 {
		return tStr("")
	}
	return nil
}

// streamOp models the digests and in-memory buffers as the sequence of bytes given to them.
func (e *Engine) streamOp(s *State, in ssa.Instruction, name string, args []*Term, c *ssa.CallCommon) (*Term, bool) {
	o := args[0]
	i := strings.LastIndex(name, ".")
	if i < 0 {
		return nil, false
	}
	m := name[i+1:]
	res := c.Signature().Results()
	isHash := o.Op == "obj" && strings.HasPrefix(o.Obj.Kind, "hash:")
	isBuf := strings.HasPrefix(name, "(*bytes.Buffer).") || strings.HasPrefix(name, "(*strings.Builder).")
	if !isHash && !isBuf {
		if o.Op == "obj" && o.Typ != nil && strings.HasPrefix(name, "invoke ") {
			k := typeKey(o.Typ)
			isBuf = k == "bytes.Buffer" || k == "strings.Builder"
		}
		if !isBuf {
			return nil, false
		}
	}
	ev := s.event(e, "call", name, args, in)
	defer e.fire(s, ev)
	mkres := func(r ...*Term) (*Term, bool) {
		if len(r) == 1 {
			ev.Res = r[0]
			return r[0], true
		}
		ev.Res = mk("tuple", "", r...)
		return ev.Res, true
	}
	switch m {
	case "Write", "WriteString":
		e.appendStream(s, o, e.content(s, args[1]))
		return mkres(mkLen(args[1]), tNil)
	case "WriteByte":
		e.appendStream(s, o, mkT("list", "", nil, args[1]))
		return mkres(tNil)
	case "Reset":
		e.setStream(s, o, tStr(""))
		return mkres(tNil)
	case "Len":
		if st := e.stream(s, o); st != nil {
			return mkres(mkLen(st))
		}
	}
	if isHash {
		k := strings.TrimPrefix(o.Obj.Kind, "hash:")
		st := e.stream(s, o)
		if st == nil {
			st = mkSym("stream", nil)
		}
		if _, keyed := s.mem[mkFld(o, "#key", nil)]; keyed {
			k = "keyed " + k
		}
		switch m {
		case "Sum":
			v := mkT("app", "sum:"+k, res.At(0).Type(), st)
			if args[1] != tNil {
				return mkres(mkT("append", "", res.At(0).Type(), args[1], v))
			}
			return mkres(v)
		case "Sum64", "Sum32":
			return mkres(mkT("app", strings.ToLower(m)+":"+k, res.At(0).Type(), st))
		case "Size", "BlockSize":
			if m == "Size" {
				if n, ok := hashLen[k]; ok {
					return mkres(tInt(n))
				}
			}
		}
	}
	if isBuf {
		switch m {
		case "Bytes", "String":
			if st := e.stream(s, o); st != nil {
				if m == "String" {
					return mkres(mkT("conv", "string", res.At(0).Type(), st))
				}
				return mkres(mkT("app", "bufbytes", res.At(0).Type(), st, o))
			}
		}
		e.smashStream(s, o)
	}
	r := e.fresh(s, ev, res, args)
	return r, true
}

func (e *Engine) smashStream(s *State, o *Term) {
	e.setStream(s, o, mkSym("stream", nil))
}

func (e *Engine) hexModel(s *State, dst, src, srcT *Term, name string, ev *Event) {
	base, lo := dst, int64(0)
	if dst.Op == "slice" {
		l, ok := dst.Sub[1].intVal()
		if !ok {
			e.smash(s, dst, ev)
			return
		}
		base, lo = dst.Sub[0], l
	}
	n, ok := mkLen(srcT).intVal()
	if !ok || n > 64 {
		e.smash(s, dst, ev)
		return
	}
	get := func(i int64) *Term {
		switch src.Op {
		case "list":
			return src.Sub[i]
		case "arr":
			return e.load(s, mkIdx(src.Sub[0], tInt(i), nil), types.Typ[types.Byte])
		}
		return mkAt(src, tInt(i), types.Typ[types.Byte])
	}
	bt := types.Typ[types.Byte]
	if strings.HasSuffix(name, "Encode") {
		for i := int64(0); i < n; i++ {
			b := get(i)
			e.store(s, mkIdx(base, tInt(lo+2*i), types.NewPointer(bt)), mkT("app", "hexhi", bt, b), bt)
			e.store(s, mkIdx(base, tInt(lo+2*i+1), types.NewPointer(bt)), mkT("app", "hexlo", bt, b), bt)
		}
		return
	}
	for i := int64(0); i < n/2; i++ {
		e.store(s, mkIdx(base, tInt(lo+i), types.NewPointer(bt)), mkT("app", "unhex", bt, get(2*i), get(2*i+1)), bt)
	}
}

// callback runs a function value given to a library function, when it is a function of the repository.
func (e *Engine) callback(s *State, in ssa.Instruction, f *Term, args []*Term, bind ssa.Value, isDef bool, cont func(e *Engine, s *State, ret []*Term) []*State) []*State {
	if f.Fn != nil {
		if b := e.P.fnBody(f.Fn); b != nil && len(s.frames) < e.MaxDepth {
			nf := newFrame(b, args, f.Sub)
			nf.cont = cont
			s.frames = append(s.frames, nf)
			return []*State{s}
		}
	}
	ev := s.event(e, "dyncall", "", append([]*Term{f}, args...), in)
	e.fire(s, ev)
	next := e.maybePanic(s, ev, true, "panic in a callback")
	e.bump(s)
	var ret []*Term
	if f.Typ != nil {
		if sg, ok := f.Typ.Underlying().(*types.Signature); ok {
			if r := e.fresh(s, ev, sg.Results(), args); r != nil {
				if r.Op == "tuple" {
					ret = r.Sub
				} else {
					ret = []*Term{r}
				}
			}
		}
	}
	return append(next, cont(e, s, ret)...)
}

// eachCall runs an iteration's callback for a generic entry. With MultiIter, a callback that changes what it closes
// over is run a second time, with those variables unknown.
func (e *Engine) eachCall(s *State, in ssa.Instruction, name string, ev *Event, f *Term, args []*Term, bind ssa.Value, isDef bool) []*State {
	before := map[*Term]*Term{}
	if e.MultiIter {
		for a, v := range s.mem {
			before[a] = v
		}
	}
	return e.callback(s, in, f, args, bind, isDef, func(e *Engine, s *State, ret []*Term) []*State {
		r := s.event(e, "iterret", name, ret, in)
		e.fire(s, r)
		var again []*State
		if e.MultiIter {
			var changed []*Term
			for a, v := range s.mem {
				if old, ok := before[a]; ok && old != v {
					changed = append(changed, a)
				}
			}
			if len(changed) > 0 {
				sort.Slice(changed, func(i, j int) bool { return changed[i].id < changed[j].id })
				s2 := s.clone()
				s.forks++
				s2.forks++
				for _, a := range changed {
					t := mkSym("iterstate", before[a].Typ)
					t.Sym.Ev, t.Sym.Init = ev, before[a]
					s2.mem[a] = t
				}
				ev2 := s2.event(e, "iterate-next", name, nil, in)
				var args2 []*Term
				for i, a := range args {
					t := mkSym("iter", a.Typ)
					t.Sym.Ev, t.Sym.Idx, t.Sym.Deps = ev2, i, a.Sym.Deps
					args2 = append(args2, t)
				}
				ev2.Res = mk("tuple", "", args2...)
				again = e.callback(s2, in, f, args2, bind, isDef, func(e *Engine, s *State, ret []*Term) []*State {
					r := s.event(e, "iterret", name, ret, in)
					e.fire(s, r)
					return e.bindRes(s, bind, isDef, nil)
				})
			}
		}
		return append(again, e.bindRes(s, bind, isDef, nil)...)
	})
}

func (e *Engine) lockOp(s *State, in ssa.Instruction, m string, key *Term, bind ssa.Value, isDef bool) []*State {
	acquire := func(s *State, read, try bool) *Event {
		k := "lock"
		if read {
			k = "rlock"
		}
		ev := s.event(e, k, "", []*Term{key}, in)
		for _, h := range s.locks {
			if h.Key == key && !try {
				ev.Note = "reentrant"
			}
		}
		s.locks = append(s.locks[:len(s.locks):len(s.locks)], Held{Key: key, Read: read, Try: try, Ev: ev})
		e.fire(s, ev)
		e.bump(s)
		return ev
	}
	switch m {
	case "Lock", "RLock":
		acquire(s, m == "RLock", false)
		return e.bindRes(s, bind, isDef, nil)
	case "TryLock", "TryRLock":
		for _, h := range s.locks {
			if h.Key == key && !(h.Read && m == "TryRLock") { // held by this path: fails
				ev := s.event(e, "tryfail", m, []*Term{key}, in)
				e.fire(s, ev)
				return e.bindRes(s, bind, isDef, tFalse)
			}
		}
		s2 := s.clone()
		s.forks++
		s2.forks++
		ev := s2.event(e, "tryfail", m, []*Term{key}, in)
		e.fire(s2, ev)
		n := e.bindRes(s2, bind, isDef, tFalse)
		acquire(s, m == "TryRLock", true)
		return append(n, e.bindRes(s, bind, isDef, tTrue)...)
	case "Unlock", "RUnlock":
		read := m == "RUnlock"
		k := "unlock"
		if read {
			k = "runlock"
		}
		ev := s.event(e, k, "", []*Term{key}, in)
		ev.Note = "notheld"
		for i := len(s.locks) - 1; i >= 0; i-- {
			if s.locks[i].Key == key && s.locks[i].Read == read {
				l := append([]Held(nil), s.locks[:i]...)
				s.locks = append(l, s.locks[i+1:]...)
				ev.Note = ""
				break
			}
		}
		if ev.Note == "notheld" {
			for _, h := range s.locks {
				if h.Key == key {
					ev.Note = "wrongmode"
				}
			}
		}
		e.fire(s, ev)
		return e.bindRes(s, bind, isDef, nil)
	}
	ev := s.event(e, "call", "lock."+m, []*Term{key}, in)
	r := mkSym("call", nil)
	r.Sym.Ev = ev
	return e.bindRes(s, bind, isDef, r)
}

// atomicOp: kinds load, store, add, swap, cas, and, or.
func (e *Engine) atomicOp(s *State, in ssa.Instruction, name string, args []*Term, c *ssa.CallCommon, bind ssa.Value, isDef bool) []*State {
	m := name[strings.LastIndex(name, ".")+1:]
	op := "?"
	switch {
	case strings.HasPrefix(m, "CompareAndSwap"):
		op = "cas"
	case strings.HasPrefix(m, "Add"):
		op = "add"
	case strings.HasPrefix(m, "Load"):
		op = "load"
	case strings.HasPrefix(m, "Store"):
		op = "store"
	case strings.HasPrefix(m, "Swap"):
		op = "swap"
	case strings.HasPrefix(m, "And"):
		op = "and"
	case strings.HasPrefix(m, "Or"):
		op = "or"
	}
	ev := s.event(e, "atomic", op, args, in)
	res := c.Signature().Results()
	addr := args[0]
	cell := addr
	if strings.HasPrefix(name, "(*") {
		cell = mkFld(addr, "#v", nil)
	}
	if s.private(addr) {
		var t types.Type = types.Typ[types.Int64]
		if res.Len() == 1 {
			t = res.At(0).Type()
		} else if len(args) > 1 && args[1].Typ != nil {
			t = args[1].Typ
		}
		cur, ok := s.mem[cell]
		if !ok {
			cur = zeroTerm(t)
		}
		switch op {
		case "load":
			ev.Res = cur
			return e.bindRes(s, bind, isDef, cur)
		case "store":
			s.mem[cell] = args[1]
			return e.bindRes(s, bind, isDef, nil)
		case "add":
			s.mem[cell] = mkBin("+", cur, args[1], t)
			ev.Res = s.mem[cell]
			return e.bindRes(s, bind, isDef, s.mem[cell])
		}
	}
	r := e.fresh(s, ev, res, []*Term{addr})
	if r != nil && r.Sym != nil {
		r.Sym.Kind = "atomic"
	}
	e.fire(s, ev)
	if op == "cas" && bind != nil && len(args) == 3 {
		// the two outcomes
		s2 := s.clone()
		s.forks++
		s2.forks++
		s.know(r, true)
		s2.know(r, false)
		s.events[len(s.events)-1] = withNote(ev, "won")
		s2.events = append(s2.events[:len(s2.events)-1:len(s2.events)-1], withNote(ev, "lost"))
		n := e.bindRes(s2, bind, isDef, tFalse)
		return append(n, e.bindRes(s, bind, isDef, tTrue)...)
	}
	return e.bindRes(s, bind, isDef, r)
}

func withNote(ev *Event, n string) *Event {
	c := *ev
	c.Note = n
	return &c
}

func (e *Engine) smapOp(s *State, in ssa.Instruction, m string, args []*Term, c *ssa.CallCommon, bind ssa.Value, isDef bool) []*State {
	ev := s.event(e, "smap", m, args, in)
	res := c.Signature().Results()
	mp := args[0]
	var next []*State
	if len(args) > 1 && m != "Range" && termKeyPanics(args[1]) {
		next = e.maybePanic(s, ev, true, "unhashable map key")
	}
	if len(args) > 2 && !s.private(mp) {
		e.escape(s, args[len(args)-1])
	}
	switch m {
	case "Load":
		if e.frozen(mp) {
			v := mkT("app", "frozen", nil, mp, args[1])
			ok := mkT("app", "frozenok", types.Typ[types.Bool], mp, args[1])
			ev.Res = mk("tuple", "", v, ok)
			e.fire(s, ev)
			return append(next, e.bindRes(s, bind, isDef, ev.Res)...)
		}
	case "Range":
		e.fire(s, ev)
		sig := c.Args[1].Type().Underlying().(*types.Signature)
		var cb []*Term
		for i := 0; i < 2; i++ {
			t := mkSym("iter", sig.Params().At(i).Type())
			t.Sym.Ev, t.Sym.Idx, t.Sym.Deps = ev, i, []*Term{mp}
			cb = append(cb, t)
		}
		ev.Res = mk("tuple", "", cb...)
		s2 := s.clone()
		s.forks++
		s2.forks++
		n := e.bindRes(s2, bind, isDef, nil)
		return append(n, e.eachCall(s, in, "(*sync.Map).Range", ev, args[1], cb, bind, isDef)...)
	}
	r := e.fresh(s, ev, res, args)
	e.fire(s, ev)
	return append(next, e.bindRes(s, bind, isDef, r)...)
}

func (e *Engine) listOp(s *State, in ssa.Instruction, name string, args []*Term, c *ssa.CallCommon, bind ssa.Value, isDef bool) []*State {
	m := name[strings.LastIndex(name, ".")+1:]
	ev := s.event(e, "list", m, args, in)
	res := c.Signature().Results()
	var r *Term
	elemVal := func(el *Term) *Term {
		a := mkFld(el, "Value", nil)
		setOwn(a, "container/list.Element")
		return a
	}
	switch m {
	case "New":
		r = mkObj("alloc", res.At(0).Type(), in)
	case "PushFront", "PushBack":
		r = mkObj("alloc", res.At(0).Type(), in)
		r.Aux += ":elem"
		s.mem[elemVal(r)] = args[1]
		e.escape(s, args[1])
		s.escaped[r] = true
	case "InsertBefore", "InsertAfter":
		r = mkObj("alloc", res.At(0).Type(), in)
		s.mem[elemVal(r)] = args[1]
		e.escape(s, args[1])
		s.escaped[r] = true
	case "Remove":
		r = e.load(s, elemVal(args[1]), types.NewInterfaceType(nil, nil))
	case "Init":
		r = args[0]
	default:
		r = e.fresh(s, ev, res, args)
		if m == "Len" && r != nil {
			s.know(mkBin("<", r, tZero, nil), false)
		}
	}
	ev.Res = r
	e.fire(s, ev)
	return e.bindRes(s, bind, isDef, r)
}

// ownedChan: a channel that came inside a received message and is closed at one place only is closed once: every
// message is received once.
func (e *Engine) ownedChan(ch *Term, t types.Type) bool {
	ct, ok := t.Underlying().(*types.Chan)
	if !ok || e.P.closeN[chanKey(ct.Elem())] != 1 {
		return false
	}
	for a := range ancestors(ch) {
		if a.Op == "sym" && a.Sym != nil && a.Sym.Kind == "recv" {
			return true
		}
	}
	return false
}

// endian models the fixed-width integer encodings byte by byte.
func (e *Engine) endian(s *State, in ssa.Instruction, name string, args []*Term, res *types.Tuple) (*Term, bool) {
	big := strings.HasPrefix(name, "(encoding/binary.bigEndian).")
	if !big && !strings.HasPrefix(name, "(encoding/binary.littleEndian).") {
		return nil, false
	}
	m := name[strings.LastIndex(name, ".")+1:]
	w := int64(0)
	for _, x := range []int64{16, 32, 64} {
		if strings.HasSuffix(m, "nt"+itoa(int(x))) {
			w = x
		}
	}
	if w == 0 {
		return nil, false
	}
	n := w / 8
	at := func(i int64) int64 { // the shift of byte i
		if big {
			return 8 * (n - 1 - i)
		}
		return 8 * i
	}
	bt := types.Typ[types.Byte]
	wide := map[int64]types.Type{16: types.Typ[types.Uint16], 32: types.Typ[types.Uint32], 64: types.Typ[types.Uint64]}[w]
	bytesOf := func(v *Term) (r []*Term) {
		for i := int64(0); i < n; i++ {
			x := v
			if k := at(i); k > 0 {
				x = mkBin(">>", v, tInt(k), wide)
			}
			r = append(r, e.convert(s, x, wide, bt))
		}
		return
	}
	switch {
	case strings.HasPrefix(m, "Put") && len(args) == 3:
		for i, b := range bytesOf(args[2]) {
			e.store(s, mkIdx(args[1], tInt(int64(i)), types.NewPointer(bt)), b, bt)
		}
		return nil, true
	case strings.HasPrefix(m, "Append") && len(args) == 3:
		return mkT("append", "", res.At(0).Type(), args[1], mkT("list", "", args[1].Typ, bytesOf(args[2])...)), true
	case strings.HasPrefix(m, "Uint") && len(args) == 2:
		c := e.content(s, args[1])
		var r *Term
		for i := int64(0); i < n; i++ {
			var b *Term
			switch {
			case c.Op == "list" && int(i) < len(c.Sub):
				b = c.Sub[i]
			case c.Op == "list":
				return nil, false
			default:
				b = e.load(s, mkIdx(args[1], tInt(i), types.NewPointer(bt)), bt)
			}
			if k := at(i); k > 0 {
				b = mkBin("<<", b, tInt(k), wide)
			}
			if r == nil {
				r = b
			} else {
				r = mkBin("|", r, b, wide)
			}
		}
		return r, true
	}
	return nil, false
}
