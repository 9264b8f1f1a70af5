package main

import (
	"fmt"
	"go/constant"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Term is a hash-consed symbolic name of a value (value numbering across a path).
type Term struct {
	Op  string
	Aux string
	Sub []*Term
	id  int
	key string

	Typ types.Type // informative
	Fn  *ssa.Function
	Sym *SymInfo
	Obj *ObjInfo
}

// SymInfo tells where an unknown value comes from.
type SymInfo struct {
	Kind  string // "call","recv","loop","mapget","ok","havoc","atomic","next","dyn"
	Ev    *Event
	Idx   int   // result index
	Init  *Term // loop phis: value before the loop
	There *Term // map entries that are never nil: whether it is there, which is whether it is not nil
	Next  *Term // loop phis: value after one iteration (in terms of an earlier value)
	Prev  *Term // loop phis: the symbol Next is expressed in (nil: Init)
	First *Term // loop phis: value after the first iteration
	Elem  *Term // slices grown by one element in every iteration: the element, in terms of Count
	Count *Term // the loop variable that counts the iterations, from From
	From  *Term
	Nexts []*Term // loop phis: values after a generic iteration, one per path, in terms of the symbol
	Name  string
	Deps  []*Term
}

// ObjInfo describes an object allocated on the path.
type ObjInfo struct {
	Kind string // "alloc","slice","map","chan"
	Len  *Term
	Cap  *Term
	Elem types.Type
	Pos  ssa.Instruction
	Fn   *ssa.Function
}

var termTab = map[string]*Term{}
var termN int
var symN int

func mk(op, aux string, sub ...*Term) *Term {
	var b strings.Builder
	b.WriteString(op)
	b.WriteByte('|')
	b.WriteString(aux)
	for _, s := range sub {
		fmt.Fprintf(&b, "|%d", s.id)
	}
	k := b.String()
	if t, ok := termTab[k]; ok {
		return t
	}
	termN++
	t := &Term{Op: op, Aux: aux, Sub: sub, id: termN, key: k}
	termTab[k] = t
	return t
}

func mkT(op, aux string, typ types.Type, sub ...*Term) *Term {
	t := mk(op, aux, sub...)
	if t.Typ == nil {
		t.Typ = typ
	}
	return t
}

func mkSym(kind string, typ types.Type) *Term {
	symN++
	t := mk("sym", fmt.Sprintf("%s#%d", kind, symN))
	t.Typ = typ
	t.Sym = &SymInfo{Kind: kind}
	return t
}

func mkObj(kind string, typ types.Type, in ssa.Instruction) *Term {
	symN++
	t := mk("obj", fmt.Sprintf("%s#%d", kind, symN))
	t.Typ = typ
	t.Obj = &ObjInfo{Kind: kind, Pos: in}
	if in != nil {
		t.Obj.Fn = in.Parent()
	}
	return t
}

var (
	tNil   = mk("const", "nil")
	tTrue  = mk("const", "true")
	tFalse = mk("const", "false")
	tZero  = mk("const", "0")
	tOne   = mk("const", "1")
	tNone  = mk("none", "")
	tZeroV = mk("const", "zero") // zero value of a type parameter
)

func tInt(n int64) *Term  { return mk("const", fmt.Sprint(n)) }
func tStr(s string) *Term { return mk("const", fmt.Sprintf("%q", s)) }
func tBool(b bool) *Term {
	if b {
		return tTrue
	}
	return tFalse
}

func (t *Term) isConst() bool { return t.Op == "const" }
func (t *Term) intVal() (int64, bool) {
	if t.Op != "const" {
		return 0, false
	}
	v := constant.MakeFromLiteral(t.Aux, intTok, 0)
	if v.Kind() == constant.Int {
		n, ok := constant.Int64Val(v)
		return n, ok
	}
	if strings.HasPrefix(t.Aux, "-") {
		v = constant.MakeFromLiteral(t.Aux[1:], intTok, 0)
		if v.Kind() == constant.Int {
			n, ok := constant.Int64Val(v)
			return -n, ok
		}
	}
	return 0, false
}

func constTerm(c *ssa.Const) *Term {
	if c.Value == nil {
		return zeroTerm(c.Type())
	}
	return constVal(c.Value, c.Type())
}

func constVal(v constant.Value, typ types.Type) *Term {
	switch v.Kind() {
	case constant.Bool:
		return tBool(constant.BoolVal(v))
	case constant.String:
		return tStr(constant.StringVal(v))
	case constant.Int:
		t := mk("const", v.ExactString())
		return t
	case constant.Float:
		if b, ok := typ.Underlying().(*types.Basic); ok && b.Info()&types.IsInteger != 0 {
			return mk("const", constant.ToInt(v).ExactString())
		}
		return mk("const", "f:"+v.ExactString())
	}
	return mk("const", v.Kind().String()+":"+v.ExactString())
}

// zeroTerm is the zero value of a type.
func zeroTerm(t types.Type) *Term {
	if _, ok := t.(*types.TypeParam); ok {
		return tZeroV
	}
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch {
		case u.Info()&types.IsBoolean != 0:
			return tFalse
		case u.Info()&types.IsString != 0:
			return tStr("")
		case u.Info()&types.IsInteger != 0:
			return tZero
		case u.Info()&types.IsNumeric != 0:
			return mk("const", "f:0")
		}
		return tNil
	case *types.Struct:
		var sub []*Term
		for i := 0; i < u.NumFields(); i++ {
			sub = append(sub, zeroTerm(u.Field(i).Type()))
		}
		return mkStruct(t, sub)
	case *types.Array:
		return mkT("zeroarr", types.TypeString(t, nil), t)
	case *types.Tuple:
		var sub []*Term
		for i := 0; i < u.Len(); i++ {
			sub = append(sub, zeroTerm(u.At(i).Type()))
		}
		return mk("tuple", "", sub...)
	case *types.Interface:
		if t != types.Type(u) {
			if _, ok := t.(*types.TypeParam); ok {
				return tZeroV
			}
		}
	}
	return tNil
}

func mkStruct(t types.Type, sub []*Term) *Term {
	return mkT("struct", types.TypeString(t, nil), t, sub...)
}

func structFieldName(t types.Type, i int) string {
	if p, ok := t.Underlying().(*types.Pointer); ok {
		t = p.Elem()
	}
	return t.Underlying().(*types.Struct).Field(i).Name()
}

func mkFld(addr *Term, name string, typ types.Type) *Term { return mkT("fld", name, typ, addr) }

func mkLen(x *Term) *Term {
	switch x.Op {
	case "const":
		if x == tNil {
			return tZero
		}
		if strings.HasPrefix(x.Aux, "\"") {
			return tInt(int64(len(unq(x.Aux))))
		}
	case "obj":
		if x.Obj != nil && x.Obj.Kind == "slice" && x.Obj.Len != nil {
			return x.Obj.Len
		}
	case "slice": // base lo hi
		lo, hi := x.Sub[1], x.Sub[2]
		if hi.Op == "none" {
			hi = mkBaseLen(x.Sub[0])
		}
		return mkBin("-", hi, lo, nil)
	case "conv":
		if (x.Aux == "bytes" || x.Aux == "string") && len(x.Sub) == 1 {
			return mkLen(x.Sub[0])
		}
	case "bytes":
		return tInt(int64(len(x.Sub)))
	case "append":
		return mkBin("+", mkLen(x.Sub[0]), mkLen(x.Sub[1]), nil)
	case "list":
		return tInt(int64(len(x.Sub)))
	case "concat":
		return mkBin("+", mkLen(x.Sub[0]), mkLen(x.Sub[1]), nil)
	case "app":
		if x.Aux == "bytes.Repeat" && len(x.Sub) == 2 {
			if n, ok := mkLen(x.Sub[0]).intVal(); ok && n == 1 {
				return x.Sub[1]
			}
		}
		if strings.HasPrefix(x.Aux, "sum:") {
			if n, ok := hashLen[strings.TrimPrefix(x.Aux[4:], "keyed ")]; ok {
				return tInt(n)
			}
		}
	}
	return mk("len", "", x)
}

// mkBaseLen is the length of what a slice expression slices: an array address or a slice or string value.
func mkBaseLen(b *Term) *Term {
	if b.Typ != nil {
		if p, ok := b.Typ.Underlying().(*types.Pointer); ok {
			if a, ok := p.Elem().Underlying().(*types.Array); ok {
				return tInt(a.Len())
			}
		}
	}
	return mkLen(b)
}

func mkCap(x *Term) *Term {
	switch x.Op {
	case "obj":
		if x.Obj != nil && x.Obj.Kind == "slice" && x.Obj.Cap != nil {
			return x.Obj.Cap
		}
	case "slice":
		return mkBin("-", mkBaseCap(x.Sub[0]), x.Sub[1], nil)
	}
	if x == tNil {
		return tZero
	}
	return mk("cap", "", x)
}

func mkBaseCap(b *Term) *Term {
	if b.Typ != nil {
		if p, ok := b.Typ.Underlying().(*types.Pointer); ok {
			if a, ok := p.Elem().Underlying().(*types.Array); ok {
				return tInt(a.Len())
			}
		}
	}
	return mkCap(b)
}

func mkSlice(base, lo, hi *Term, typ types.Type) *Term {
	if lo == nil || lo.Op == "none" {
		lo = tZero
	}
	if hi == nil {
		hi = tNone
	}
	if base.Op == "const" && base != tNil && hi.Op == "const" || base.Op == "const" && base != tNil && hi.Op == "none" {
		s := unq(base.Aux)
		l, ok1 := lo.intVal()
		h, ok2 := hi.intVal()
		if hi.Op == "none" {
			h, ok2 = int64(len(s)), true
		}
		if ok1 && ok2 && 0 <= l && l <= h && h <= int64(len(s)) {
			return tStr(s[l:h])
		}
	}
	// [:len] and [0:] of a slice or string are the value itself; not of an array address
	isArr := false
	if base.Typ != nil {
		if p, ok := base.Typ.Underlying().(*types.Pointer); ok {
			_, isArr = p.Elem().Underlying().(*types.Array)
		}
	}
	if !isArr && lo == tZero && (hi.Op == "none" || hi == mkLen(base)) {
		return base
	}
	if isArr && hi.Op == "none" {
		hi = mkBaseLen(base)
	}
	if base.Op == "slice" { // slice of slice
		if hi.Op == "none" {
			hi = base.Sub[2]
		} else {
			hi = mkBin("+", base.Sub[1], hi, nil)
		}
		lo = mkBin("+", base.Sub[1], lo, nil)
		return mkSlice(base.Sub[0], lo, hi, typ)
	}
	return mkT("slice", "", typ, base, lo, hi)
}

func mkIdx(base, i *Term, typ types.Type) *Term {
	if base.Op == "slice" {
		return mkIdx(base.Sub[0], mkBin("+", base.Sub[1], i, nil), typ)
	}
	return mkT("idx", "", typ, base, i)
}

// mkAt is an element of a string or array value.
func mkAt(x, i *Term, typ types.Type) *Term {
	if x.Op == "conv" && x.Aux == "string" || x.Op == "conv" && x.Aux == "bytes" {
		x = x.Sub[0]
	}
	if x.Op == "slice" {
		return mkAt(x.Sub[0], mkBin("+", x.Sub[1], i, nil), typ)
	}
	if x.Op == "const" && x != tNil {
		if n, ok := i.intVal(); ok {
			if s := unq(x.Aux); n >= 0 && int(n) < len(s) {
				return tInt(int64(s[n]))
			}
		}
	}
	if x.Op == "list" {
		if n, ok := i.intVal(); ok && n >= 0 && int(n) < len(x.Sub) {
			return x.Sub[n]
		}
	}
	return mkT("at", "", typ, x, i)
}

func isStringy(t types.Type) bool {
	if t == nil {
		return false
	}
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsString != 0
}

// ordered lists the operand ids so commutative operations are canonical.
// mkBinF is mkBin for operands that may be floating-point numbers, for which x == x and !(a < b) == (b <= a) do not hold.
func mkBinF(op string, a, b *Term, typ, operand types.Type) *Term {
	if !floaty(operand) {
		return mkBin(op, a, b, typ)
	}
	switch op {
	case "<=":
		return mkT("bin", "<=", typ, a, b)
	case ">=":
		return mkT("bin", "<=", typ, b, a)
	case "==", "!=":
		if a == b && a.Op != "const" {
			t := mkT("bin", "==", typ, a, b)
			if op == "!=" {
				return mkNot(t)
			}
			return t
		}
	}
	return mkBin(op, a, b, typ)
}

// floaty: values of the type may be floating-point numbers that are ordered.
func floaty(t types.Type) bool {
	switch u := t.(type) {
	case *types.TypeParam:
		it, ok := u.Constraint().Underlying().(*types.Interface)
		if !ok || it.IsMethodSet() || it.IsComparable() && it.NumEmbeddeds() == 0 {
			return false
		}
		for i := 0; i < it.NumEmbeddeds(); i++ {
			if un, ok := it.EmbeddedType(i).(*types.Union); ok {
				for j := 0; j < un.Len(); j++ {
					if floaty(un.Term(j).Type()) {
						return true
					}
				}
			}
		}
		return false
	}
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsFloat != 0
}

func mkBin(op string, a, b *Term, typ types.Type) *Term {
	if op == "+" && (isStringy(typ) || a.Op == "const" && strings.HasPrefix(a.Aux, "\"") || b.Op == "const" && strings.HasPrefix(b.Aux, "\"")) {
		if a.Op == "const" && b.Op == "const" {
			return tStr(unq(a.Aux) + unq(b.Aux))
		}
		if a == tStr("") {
			return b
		}
		if b == tStr("") {
			return a
		}
		return mkT("concat", "", typ, a, b)
	}
	switch op {
	case "==":
		if a == tNil && b.Sym != nil && b.Sym.There != nil {
			return mkNot(b.Sym.There)
		}
		if b == tNil && a.Sym != nil && a.Sym.There != nil {
			return mkNot(a.Sym.There)
		}
	case "!=":
		return mkNot(mkBin("==", a, b, typ))
	case ">":
		return mkBin("<", b, a, typ)
	case "<=":
		return mkNot(mkBin("<", b, a, typ))
	case ">=":
		return mkNot(mkBin("<", a, b, typ))
	}
	x, okx := a.intVal()
	y, oky := b.intVal()
	if okx && oky {
		switch op {
		case "+":
			return tInt(x + y)
		case "-":
			return tInt(x - y)
		case "*":
			return tInt(x * y)
		case "/":
			if y != 0 {
				return tInt(x / y)
			}
		case "%":
			if y != 0 {
				return tInt(x % y)
			}
		case "<<":
			if y >= 0 && y < 63 && x < 1<<20 {
				return tInt(x << uint(y))
			}
		case ">>":
			if y >= 0 && y < 64 {
				return tInt(x >> uint(y))
			}
		case "&":
			return tInt(x & y)
		case "|":
			return tInt(x | y)
		case "^":
			return tInt(x ^ y)
		case "&^":
			return tInt(x &^ y)
		case "==":
			return tBool(x == y)
		case "<":
			return tBool(x < y)
		}
	}
	switch op {
	case "==":
		if a == b && !isFloat(typ) {
			return tTrue
		}
		if a.Op == "const" && b.Op == "const" && a != tZeroV && b != tZeroV {
			return tBool(a == b)
		}
		if a == tTrue {
			return b
		}
		if b == tTrue {
			return a
		}
		if a == tFalse {
			return mkNot(b)
		}
		if b == tFalse {
			return mkNot(a)
		}
		if a.id > b.id {
			a, b = b, a
		}
	case "+", "*", "&", "|", "^":
		if op == "+" {
			if okx && x == 0 {
				return b
			}
			if oky && y == 0 {
				return a
			}
			// (p + c1) + c2
			if oky && a.Op == "bin" && a.Aux == "+" {
				if z, ok := a.Sub[1].intVal(); ok {
					return mkBin("+", a.Sub[0], tInt(z+y), typ)
				}
				if z, ok := a.Sub[0].intVal(); ok {
					return mkBin("+", a.Sub[1], tInt(z+y), typ)
				}
			}
		}
		if op == "*" {
			if okx && x == 1 {
				return b
			}
			if oky && y == 1 {
				return a
			}
		}
		if op == "|" || op == "^" {
			if okx && x == 0 {
				return b
			}
			if oky && y == 0 {
				return a
			}
		}
		if a.id > b.id {
			a, b = b, a
		}
	case "-":
		if a == b {
			return tZero
		}
		if oky && y == 0 {
			return a
		}
		if oky {
			return mkBin("+", a, tInt(-y), typ)
		}
		if a.Op == "bin" && a.Aux == "+" { // (x+y)-y
			if a.Sub[0] == b {
				return a.Sub[1]
			}
			if a.Sub[1] == b {
				return a.Sub[0]
			}
		}
	case ">>", "<<":
		if oky && y == 0 {
			return a
		}
	case "<":
		if a == b {
			return tFalse
		}
	}
	return mkT("bin", op, typ, a, b)
}

func isFloat(t types.Type) bool {
	if t == nil {
		return false
	}
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsFloat != 0
}

func mkNot(t *Term) *Term {
	switch {
	case t == tTrue:
		return tFalse
	case t == tFalse:
		return tTrue
	case t.Op == "not":
		return t.Sub[0]
	}
	return mk("not", "", t)
}

func unq(s string) string {
	v := constant.MakeFromLiteral(s, strTok, 0)
	if v.Kind() == constant.String {
		return constant.StringVal(v)
	}
	return s
}

// String renders a term for reports.
func (t *Term) String() string { return t.str(0) }
func (t *Term) str(d int) string {
	if t == nil {
		return "?"
	}
	if d > 8 {
		return "…"
	}
	s := func(i int) string { return t.Sub[i].str(d + 1) }
	switch t.Op {
	case "const":
		return t.Aux
	case "param":
		return t.Aux
	case "sym":
		if t.Sym != nil && t.Sym.Name != "" {
			return t.Sym.Name
		}
		return t.Aux
	case "obj":
		return "new:" + t.Aux
	case "global":
		return t.Aux
	case "fld":
		return s(0) + "." + t.Aux
	case "idx", "at":
		return s(0) + "[" + s(1) + "]"
	case "init":
		return s(0)
	case "f":
		return s(0) + "." + t.Aux
	case "bin":
		return "(" + s(0) + " " + t.Aux + " " + s(1) + ")"
	case "not":
		return "!" + s(0)
	case "len", "cap":
		return t.Op + "(" + s(0) + ")"
	case "slice":
		h := ""
		if t.Sub[2].Op != "none" {
			h = s(2)
		}
		return s(0) + "[" + s(1) + ":" + h + "]"
	}
	var p []string
	for i := range t.Sub {
		p = append(p, s(i))
	}
	return t.Op + ":" + t.Aux + "(" + strings.Join(p, ",") + ")"
}

// root walks an access path to what it starts from.
func (t *Term) root() *Term {
	for {
		switch t.Op {
		case "fld", "idx", "init", "f", "at", "slice", "ext", "conv":
			if len(t.Sub) == 0 {
				return t
			}
			t = t.Sub[0]
		case "sym":
			return t
		default:
			return t
		}
	}
}

// walk visits all subterms (once each).
func (t *Term) walk(f func(*Term) bool) {
	seen := map[*Term]bool{}
	var rec func(*Term)
	rec = func(x *Term) {
		if x == nil || seen[x] {
			return
		}
		seen[x] = true
		if !f(x) {
			return
		}
		for _, s := range x.Sub {
			rec(s)
		}
	}
	rec(t)
}

// deps: does t mention x, looking through symbols to the calls that made them?
func (t *Term) mentions(x *Term) bool {
	found := false
	seen := map[*Term]bool{}
	var rec func(*Term, int)
	rec = func(y *Term, d int) {
		if y == nil || found || seen[y] || d > 40 {
			return
		}
		seen[y] = true
		if y == x {
			found = true
			return
		}
		for _, s := range y.Sub {
			rec(s, d+1)
		}
		if y.Sym != nil {
			for _, s := range y.Sym.Deps {
				rec(s, d+1)
			}
			rec(y.Sym.Init, d+1)
			rec(y.Sym.Next, d+1)
		}
	}
	rec(t, 0)
	return found
}

// roots: everything an access path depends on, through symbols.
func (t *Term) roots() map[*Term]bool {
	out := map[*Term]bool{}
	seen := map[*Term]bool{}
	var rec func(*Term, int)
	rec = func(y *Term, d int) {
		if y == nil || seen[y] || d > 40 {
			return
		}
		seen[y] = true
		switch y.Op {
		case "param", "global", "obj":
			out[y] = true
		}
		for _, s := range y.Sub {
			rec(s, d+1)
		}
		if y.Sym != nil {
			for _, s := range y.Sym.Deps {
				rec(s, d+1)
			}
			rec(y.Sym.Init, d+1)
			rec(y.Sym.Next, d+1)
		}
	}
	rec(t, 0)
	return out
}

func sortedTerms(m map[*Term]bool) []*Term {
	var r []*Term
	for t := range m {
		r = append(r, t)
	}
	sort.Slice(r, func(i, j int) bool { return r[i].id < r[j].id })
	return r
}
