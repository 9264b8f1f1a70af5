package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// ---------- C20: the caller's byte slices ----------

// alias follows one byte slice given by a caller through the program: for every value, the access paths by which
// the memory of the slice is reached from it ("" is the slice itself, "*" a dereference, ".f" a field, "[]" an
// element). It does not depend on the order of statements.
type alias struct {
	p     *Prog
	c     *Ctx
	root  *ssa.Function
	param *ssa.Parameter
	paths map[ssa.Value]map[string]bool
	fns   map[*ssa.Function]bool
	rets  map[*ssa.Function][]map[string]bool
	ch    bool
	gl    map[*ssa.Global]bool
	capd  map[ssa.Value]bool // slices limited to their length: appending copies
	keep  bool               // the result may be built on the slice
	fill  bool               // the slice is there to be filled
}

const maxPath = 8

func segs(p string) int {
	return strings.Count(p, "*") + strings.Count(p, ".") + strings.Count(p, "[") + strings.Count(p, "#")
}

func (a *alias) enter(f *ssa.Function) {
	if !a.fns[f] {
		a.fns[f] = true
		a.ch = true
	}
}

// add notes that the slice is reached from v by path q.
func (a *alias) add(v ssa.Value, q string) {
	if v == nil || segs(q) > maxPath {
		return
	}
	switch v.(type) {
	case *ssa.Const, *ssa.Function, *ssa.Builtin:
		return
	}
	m := a.paths[v]
	if m == nil {
		m = map[string]bool{}
		a.paths[v] = m
	}
	if m[q] {
		return
	}
	m[q] = true
	a.ch = true
	// what is stored through an address is reached from what the address was taken of
	switch x := v.(type) {
	case *ssa.FieldAddr:
		if strings.HasPrefix(q, "*") {
			a.add(x.X, "*."+structFieldName(x.X.Type(), x.Field)+q[1:])
		}
	case *ssa.IndexAddr:
		if strings.HasPrefix(q, "*") {
			if _, ok := x.X.Type().Underlying().(*types.Pointer); ok {
				a.add(x.X, "*[]"+q[1:])
			} else {
				a.add(x.X, "[]"+q[1:])
			}
		}
	case *ssa.UnOp:
		if x.Op == token.MUL && q != "" {
			a.add(x.X, "*"+q)
		}
	case *ssa.ChangeType:
		a.add(x.X, q)
	case *ssa.MakeInterface:
		if q != "" {
			a.add(x.X, q)
		}
	case *ssa.TypeAssert:
		if !x.CommaOk && q != "" {
			a.add(x.X, q)
		}
	case *ssa.Phi:
		if strings.HasPrefix(q, "*") {
			for _, e := range x.Edges {
				a.add(e, q)
			}
		}
	case *ssa.Slice:
		if strings.HasPrefix(q, "[]") {
			if _, ok := x.X.Type().Underlying().(*types.Pointer); ok {
				a.add(x.X, "*"+q)
			} else {
				a.add(x.X, q)
			}
		}
	case *ssa.FreeVar:
		for i, fv := range x.Parent().FreeVars {
			if fv == x {
				for _, b := range a.bindings(x.Parent(), i) {
					a.add(b, q)
				}
			}
		}
	}
}

func (a *alias) bindings(f *ssa.Function, i int) (r []ssa.Value) {
	if f.Parent() == nil {
		return
	}
	for _, b := range f.Parent().Blocks {
		for _, in := range b.Instrs {
			if mc, ok := in.(*ssa.MakeClosure); ok && mc.Fn == f {
				r = append(r, mc.Bindings[i])
			}
		}
	}
	return
}

func (a *alias) has(v ssa.Value, q string) bool { return a.paths[v][q] }

func (a *alias) any(v ssa.Value) bool { return len(a.paths[v]) > 0 }

// below are the paths of v that go on after pre.
func (a *alias) below(v ssa.Value, pre string) (r []string) {
	for q := range a.paths[v] {
		if strings.HasPrefix(q, pre) {
			r = append(r, q[len(pre):])
		}
	}
	sort.Strings(r)
	return
}

func (a *alias) copyAll(to, from ssa.Value) {
	for _, q := range a.below(from, "") {
		a.add(to, q)
	}
}

// callees are the functions of the repository a call may run.
func (a *alias) callees(c *ssa.CallCommon) []*ssa.Function {
	if c.IsInvoke() {
		return a.p.implementers(c)
	}
	if f := c.StaticCallee(); f != nil {
		if g := a.p.fnBody(f); g != nil {
			return []*ssa.Function{g}
		}
		return nil
	}
	return nil
}

// implementers are the methods of the repository an interface call may run.
func (p *Prog) implementers(c *ssa.CallCommon) (r []*ssa.Function) {
	it, ok := c.Value.Type().Underlying().(*types.Interface)
	if !ok {
		return nil
	}
	if n, ok := types.Unalias(c.Value.Type()).(*types.Named); ok && (n.Obj().Pkg() == nil || p.SPkgs[n.Obj().Pkg().Path()] == nil) {
		return nil // an interface of code outside is implemented outside, too
	}
	if _, ok := c.Value.Type().(*types.TypeParam); ok {
		return nil
	}
	for _, sp := range p.SPkgs {
		for _, m := range sp.Members {
			t, ok := m.(*ssa.Type)
			if !ok {
				continue
			}
			n, ok := t.Type().(*types.Named)
			if !ok || n.TypeParams().Len() > 0 {
				continue
			}
			if types.Implements(n, it) || types.Implements(types.NewPointer(n), it) {
				if f := p.method(n, c.Method.Name()); f != nil {
					r = append(r, f)
				}
			}
		}
	}
	return
}

// extName is what code outside is called; index 0 of args is the receiver of a method.
func extName(c *ssa.CallCommon) (name string, method bool, args []ssa.Value) {
	args = c.Args
	switch {
	case c.IsInvoke():
		return "invoke " + typeKey(c.Value.Type()) + "." + c.Method.Name(), true, append([]ssa.Value{c.Value}, c.Args...)
	case c.StaticCallee() != nil:
		return c.StaticCallee().String(), c.StaticCallee().Signature.Recv() != nil, args
	}
	if b, ok := c.Value.(*ssa.Builtin); ok {
		return "builtin " + b.Name(), false, args
	}
	return "", false, args
}

// transfer is the effect of one instruction on who reaches the slice.
func (a *alias) transfer(in ssa.Instruction) {
	switch x := in.(type) {
	case *ssa.Store:
		for _, q := range a.below(x.Val, "") {
			a.add(x.Addr, "*"+q)
		}
	case *ssa.FieldAddr:
		for _, q := range a.below(x.X, "*."+structFieldName(x.X.Type(), x.Field)) {
			if q == "" || !isIdentByte(q[0]) {
				a.add(x, "*"+q)
			}
		}
	case *ssa.Field:
		for _, q := range a.below(x.X, "."+structFieldName(x.X.Type(), x.Field)) {
			if q == "" || !isIdentByte(q[0]) {
				a.add(x, q)
			}
		}
	case *ssa.IndexAddr:
		if a.has(x.X, "") {
			a.add(x, "@") // an address within the slice
		}
		pre := "[]"
		if _, ok := x.X.Type().Underlying().(*types.Pointer); ok {
			pre = "*[]"
		}
		for _, q := range a.below(x.X, pre) {
			a.add(x, "*"+q)
		}
	case *ssa.Index:
		for _, q := range a.below(x.X, "[]") {
			a.add(x, q)
		}
	case *ssa.Lookup:
		for _, q := range a.below(x.X, "[]") {
			a.add(x, q)
		}
	case *ssa.UnOp:
		if x.Op == token.MUL {
			for _, q := range a.below(x.X, "*") {
				a.add(x, q)
			}
		}
	case *ssa.Phi:
		for _, e := range x.Edges {
			a.copyAll(x, e)
		}
	case *ssa.ChangeType:
		a.copyAll(x, x.X)
	case *ssa.ChangeInterface:
		a.copyAll(x, x.X)
	case *ssa.MakeInterface:
		a.copyAll(x, x.X)
	case *ssa.TypeAssert:
		a.copyAll(x, x.X)
	case *ssa.Extract:
		if call, ok := x.Tuple.(*ssa.Call); ok {
			for _, q := range a.below(call, fmt.Sprintf("#%d", x.Index)) {
				a.add(x, q)
			}
		} else if x.Index == 0 {
			a.copyAll(x, x.Tuple)
		}
	case *ssa.Slice:
		if _, ok := x.X.Type().Underlying().(*types.Pointer); ok {
			for _, q := range a.below(x.X, "*") {
				a.add(x, q)
			}
		} else {
			a.copyAll(x, x.X)
		}
		if x.Max != nil && x.High != nil && (x.Max == x.High || sameConst(x.Max, x.High) || bothLen(x.Max, x.High)) {
			a.capd[x] = true
		}
	case *ssa.SliceToArrayPointer:
		if a.has(x.X, "") {
			a.add(x, "@")
		}
	case *ssa.Convert:
		// between pointers and unsafe pointers
		if a.has(x.X, "@") && ptrLike(x.Type()) {
			a.add(x, "@")
		}
	case *ssa.MakeClosure:
		f, _ := x.Fn.(*ssa.Function)
		if f == nil {
			return
		}
		for i, b := range x.Bindings {
			if a.any(b) {
				a.enter(f)
				a.copyAll(f.FreeVars[i], b)
				for _, q := range a.below(b, "") {
					a.add(x, "&"+q)
				}
			}
		}
	case *ssa.Return:
		f := x.Parent()
		if a.rets[f] == nil {
			a.rets[f] = make([]map[string]bool, len(x.Results))
		}
		for i, r := range x.Results {
			for q := range a.paths[r] {
				if a.rets[f][i] == nil {
					a.rets[f][i] = map[string]bool{}
				}
				if !a.rets[f][i][q] {
					a.rets[f][i][q] = true
					a.ch = true
				}
			}
		}
	case ssa.CallInstruction:
		a.call(x)
	}
}

func isIdentByte(b byte) bool {
	return b == '_' || b >= '0' && b <= '9' || b >= 'a' && b <= 'z' || b >= 'A' && b <= 'Z'
}

func ptrLike(t types.Type) bool {
	switch u := t.Underlying().(type) {
	case *types.Pointer:
		return true
	case *types.Basic:
		return u.Kind() == types.UnsafePointer || u.Kind() == types.Uintptr
	}
	return false
}

func sameConst(x, y ssa.Value) bool {
	a, ok := x.(*ssa.Const)
	b, ok2 := y.(*ssa.Const)
	return ok && ok2 && a.Value != nil && b.Value != nil && a.Value.ExactString() == b.Value.ExactString()
}

func bothLen(x, y ssa.Value) bool {
	f := func(v ssa.Value) ssa.Value {
		if c, ok := v.(*ssa.Call); ok {
			if b, ok := c.Call.Value.(*ssa.Builtin); ok && b.Name() == "len" {
				return c.Call.Args[0]
			}
		}
		return nil
	}
	return f(x) != nil && f(x) == f(y)
}

func (a *alias) call(ci ssa.CallInstruction) {
	c := ci.Common()
	val, _ := ci.(*ssa.Call)
	res := func(i int, q string) {
		if val == nil {
			return
		}
		if c.Signature().Results().Len() > 1 {
			a.add(val, fmt.Sprintf("#%d%s", i, q))
		} else {
			a.add(val, q)
		}
	}
	if mc, ok := c.Value.(*ssa.MakeClosure); ok && !c.IsInvoke() {
		if f, _ := mc.Fn.(*ssa.Function); f != nil {
			a.bind(f, c.Args, res)
			return
		}
	}
	fs := a.callees(c)
	args := c.Args
	if c.IsInvoke() {
		args = append([]ssa.Value{c.Value}, args...)
	}
	for _, f := range fs {
		a.bind(f, args, res)
	}
	if len(fs) > 0 {
		return
	}
	name, method, args := extName(c)
	m := name[strings.LastIndex(name, ".")+1:]
	switch {
	case name == "builtin append":
		if a.capd[args[0]] && a.has(args[0], "") {
			break // copied
		}
		a.copyAll(val, args[0])
		if len(args) > 1 {
			for _, q := range a.below(args[1], "[]") {
				res(0, "[]"+q)
			}
		}
	case name == "builtin SliceData" || name == "builtin StringData":
		if a.has(args[0], "") {
			res(0, "@")
		}
	case name == "builtin Slice" || name == "builtin String":
		if a.has(args[0], "@") {
			res(0, "")
		}
	case name == "builtin Add":
		if a.has(args[0], "@") {
			res(0, "@")
		}
	case hasPre(name, "bytes.NewBuffer", "bytes.NewReader"):
		if a.has(args[0], "") {
			res(0, "*#buf")
		}
	case hasPre(name, "(*bytes.Buffer).") && (m == "Bytes" || m == "Next" || m == "AvailableBuffer"):
		if a.has(args[0], "*#buf") {
			res(0, "")
		}
	case hasPre(name, "bytes.Trim", "bytes.CutPrefix", "bytes.CutSuffix", "slices.Clip", "slices.Grow", "slices.Delete", "slices.Insert", "slices.Compact", "bytes.Replace#none"):
		if a.has(args[0], "") {
			res(0, "")
		}
		if name == "slices.Clip" && val != nil {
			a.capd[val] = true
		}
	case name == "bytes.Cut":
		if a.has(args[0], "") {
			res(0, "")
			res(1, "")
		}
	case hasPre(name, "bytes.Split", "bytes.Fields"):
		if a.has(args[0], "") {
			res(0, "[]")
		}
	case method && val != nil && c.Signature().Results().Len() > 0 && ptrLikeOrIface(c.Signature().Results().At(0).Type()) && false:
	}
	// what is built around a reader or buffer on the slice reaches it
	if val != nil && (strings.Contains(m, "New") || hasPre(m, "Multi", "Tee", "Limit", "NopCloser")) {
		for _, x := range args {
			for _, q := range a.below(x, "") {
				if q != "" && q != "@" && segs(q) < 4 {
					res(0, "*."+q)
				}
			}
		}
	}
}

func ptrLikeOrIface(t types.Type) bool {
	switch t.Underlying().(type) {
	case *types.Pointer, *types.Interface:
		return true
	}
	return false
}

// bind connects the arguments of a call with the parameters of a function of the repository, both ways.
func (a *alias) bind(f *ssa.Function, args []ssa.Value, res func(int, string)) {
	if len(f.Blocks) == 0 || len(args) > len(f.Params) {
		return
	}
	n := false
	for i, x := range args {
		if a.any(x) {
			n = true
			a.enter(f)
			a.copyAll(f.Params[i], x)
		}
		for _, q := range a.below(f.Params[i], "") {
			if strings.HasPrefix(q, "*") || strings.HasPrefix(q, "[]") {
				a.add(x, q)
			}
		}
	}
	if !n && !a.fns[f] {
		// a closure that captured it
		for _, fv := range f.FreeVars {
			if a.any(fv) {
				a.enter(f)
			}
		}
	}
	for i, m := range a.rets[f] {
		var qs []string
		for q := range m {
			qs = append(qs, q)
		}
		sort.Strings(qs)
		for _, q := range qs {
			res(i, q)
		}
	}
}

func (a *alias) solve() {
	a.add(a.param, "")
	if sl, ok := a.param.Type().Underlying().(*types.Slice); ok && isByteSlice(sl.Elem()) {
		delete(a.paths[a.param], "")
		a.paths[a.param]["[]"] = true
	}
	a.enter(a.root)
	for n := 0; n < 60; n++ {
		a.ch = false
		for _, f := range a.sorted() {
			for _, b := range f.Blocks {
				for _, in := range b.Instrs {
					a.transfer(in)
				}
			}
		}
		if !a.ch {
			return
		}
	}
	a.c.fail("C20: %s does not settle", fnName(a.root))
}

func (a *alias) sorted() (r []*ssa.Function) {
	for f := range a.fns {
		r = append(r, f)
	}
	sort.Slice(r, func(i, j int) bool { return r[i].String() < r[j].String() })
	return
}

// writes: which arguments code outside writes to, by its name; nil for none.
func extWrites(name string, method bool, args []ssa.Value) (r []ssa.Value) {
	m := name[strings.LastIndex(name, ".")+1:]
	k := 0
	if method {
		k = 1
	}
	arg := func(i int) {
		if k+i < len(args) {
			r = append(r, args[k+i])
		}
	}
	switch {
	case name == "builtin copy" || name == "builtin clear":
		arg(0)
	case strings.HasPrefix(name, "builtin"):
	case name == "io.ReadFull" || name == "io.ReadAtLeast":
		arg(1)
	case m == "Read" || m == "ReadAt" || m == "CopyBuffer":
		for i := k; i < len(args); i++ {
			r = append(r, args[i])
		}
	case strings.HasPrefix(m, "Append") && !strings.Contains(m, "Certs"):
		arg(0)
	case strings.HasPrefix(m, "Put") && strings.Contains(name, "encoding/binary"):
		arg(0)
	case m == "Sum" && method || m == "Seal" || m == "Open" && strings.Contains(name, "cipher"):
		arg(0)
	case m == "CryptBlocks" || m == "XORKeyStream" || m == "XORBytes" || (m == "Encrypt" || m == "Decrypt") && strings.Contains(name, "cipher"):
		arg(0)
	case m == "EncodeRune":
		arg(0)
	case (m == "Encode" || m == "Decode") && hasPre(strings.TrimLeft(name, "(*"), "encoding/hex", "encoding/base64", "encoding/base32", "encoding/ascii85", "github.com/golang/snappy", "github.com/klauspost/compress/s"):
		arg(0)
	case m == "EncodeAll" || m == "DecodeAll":
		arg(1)
	case hasPre(name, "slices.Reverse", "slices.Sort", "slices.Delete", "slices.Insert", "slices.Replace", "slices.Compact", "sort.", "math/rand.Shuffle"):
		arg(0)
	case strings.HasSuffix(m, "Session") || m == "DecryptPKCS1v15SessionKey":
		arg(len(args) - k - 1)
	}
	return
}

var keepers = []string{"PushBack", "PushFront", "InsertBefore", "InsertAfter", "Store", "LoadOrStore", "Swap", "CompareAndSwap", "Put", "Add", "ReplaceOrInsert", "WithValue", "SetFinalizer"}

// report says what is done with the slice that must not be.
func (a *alias) report(viol func(rule string, f *ssa.Function, in ssa.Instruction, msg string)) {
	for _, f := range a.sorted() {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				a.look(f, in, viol)
			}
		}
	}
	if a.keep {
		return
	}
	for _, p := range a.root.Params {
		if p != a.param {
			for _, q := range a.below(p, "") {
				if in := a.storer(p); in != nil {
					viol("kept", in.Parent(), in, "the slice is kept in "+p.Name()+strings.TrimPrefix(q, "*"))
				} else {
					viol("kept", a.root, nil, "the slice is kept in "+p.Name()+strings.TrimPrefix(q, "*"))
				}
				break
			}
		}
	}
	for i, m := range a.rets[a.root] {
		for q := range m {
			if q != "" && q != "@" && !strings.HasPrefix(q, "&") && !strings.Contains(q, "#buf") {
				viol("kept", a.root, nil, fmt.Sprintf("result %d keeps the slice", i))
			}
		}
	}
}

// storer is a store that puts the slice somewhere that outlives the call.
func (a *alias) storer(p *ssa.Parameter) ssa.Instruction {
	for _, f := range a.sorted() {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				st, ok := in.(*ssa.Store)
				if !ok || !a.any(st.Val) {
					continue
				}
				if fa, ok := st.Addr.(*ssa.FieldAddr); ok {
					if _, isAlloc := fa.X.(*ssa.Alloc); !isAlloc {
						return in
					}
				}
			}
		}
	}
	return nil
}

func (a *alias) look(f *ssa.Function, in ssa.Instruction, viol func(rule string, f *ssa.Function, in ssa.Instruction, msg string)) {
	write := func(what string) {
		if !a.fill {
			viol("modified", f, in, what)
		}
	}
	switch x := in.(type) {
	case *ssa.Store:
		a.c.ob("stores")
		if a.has(x.Addr, "@") {
			write("an element of the caller's slice is assigned")
		}
		if g, ok := x.Addr.(*ssa.Global); ok && a.any(x.Val) {
			viol("kept", f, in, "the caller's slice is kept in "+short(g.String()))
		}
	case *ssa.MapUpdate:
		if a.any(x.Key) || a.any(x.Value) {
			if !a.localMap(x.Map) {
				viol("kept", f, in, "the caller's slice is kept in a map")
			}
		}
	case *ssa.Send:
		a.c.ob("sends")
		if a.any(x.X) && !a.waited(in) {
			viol("kept", f, in, "the caller's slice is sent to another goroutine and the call may return before it was used")
		}
	case *ssa.Select:
		for _, st := range x.States {
			if st.Dir == types.SendOnly && a.any(st.Send) && !a.waited(in) {
				viol("kept", f, in, "the caller's slice is sent to another goroutine and the call may return before it was used")
			}
		}
	case *ssa.Go:
		a.c.ob("goroutines")
		hit := false
		for _, y := range append([]ssa.Value{x.Call.Value}, x.Call.Args...) {
			hit = hit || a.any(y)
		}
		if hit && !a.waited(in) {
			viol("kept", f, in, "the caller's slice is used by a goroutine and the call may return before it is done")
		}
	}
	ci, ok := in.(ssa.CallInstruction)
	if !ok {
		return
	}
	c := ci.Common()
	if _, isGo := in.(*ssa.Go); isGo {
		return
	}
	if len(a.callees(c)) > 0 {
		return
	}
	name, method, args := extName(c)
	if name == "" {
		return
	}
	a.c.ob("calls outside")
	m := name[strings.LastIndex(name, ".")+1:]
	if name == "builtin append" {
		if a.has(args[0], "") && !a.capd[args[0]] && len(args) > 1 && !isNilConst(args[1]) {
			write("what is appended to the caller's slice may be written into its spare capacity")
		}
		return
	}
	for _, w := range extWrites(name, method, args) {
		if a.has(w, "") || a.has(w, "@") {
			write(short(name) + " writes into the caller's slice")
		}
	}
	if hasPre(name, "(*bytes.Buffer).") && hasPre(m, "Write", "ReadFrom", "Truncate#") && len(args) > 0 && a.has(args[0], "*#buf") {
		write("a buffer on the caller's slice is written to")
	}
	if sig := c.Signature(); sig != nil && !c.IsInvoke() {
		for i := 0; i < sig.Params().Len(); i++ {
			k := i
			if method {
				k++
			}
			if k >= len(args) || !a.has(args[k], "*#buf") {
				continue
			}
			if it, ok := sig.Params().At(i).Type().Underlying().(*types.Interface); ok {
				for j := 0; j < it.NumMethods(); j++ {
					if it.Method(j).Name() == "Write" {
						write("a buffer on the caller's slice is given to " + short(name) + " to write to")
					}
				}
			}
		}
	}
	if hasPre(name, "(*bytes.Buffer).") && hasPre(m, "WriteTo") {
		return
	}
	if method {
		for _, k := range keepers {
			if m != k || strings.Contains(name, "WaitGroup") || strings.Contains(name, "big.Int") {
				continue
			}
			for _, y := range args[1:] {
				if a.any(y) && !a.waited(in) {
					viol("kept", f, in, "the caller's slice is kept by "+short(name))
				}
			}
		}
	}
}

func isNilConst(v ssa.Value) bool {
	k, ok := v.(*ssa.Const)
	return ok && k.Value == nil
}

// localMap: a map made in the function that does not leave it.
func (a *alias) localMap(m ssa.Value) bool {
	mm, ok := m.(*ssa.MakeMap)
	if !ok {
		return false
	}
	for _, r := range *mm.Referrers() {
		switch r.(type) {
		case *ssa.MapUpdate, *ssa.Lookup, *ssa.Range, *ssa.DebugRef:
		case *ssa.Call:
			if c := r.(*ssa.Call); c.Call.StaticCallee() != nil {
				return false
			}
		default:
			return false
		}
	}
	return true
}

// waited: from the instruction on, no return is reached without waiting for somebody.
func (a *alias) waited(from ssa.Instruction) bool { return a.waitedIn(from, 0) }

// callersWait: whoever hands the slice to the function waits after that.
func (a *alias) callersWait(f *ssa.Function, depth int) bool {
	if f == a.root || depth > 4 {
		return false
	}
	n := 0
	for _, g := range a.sorted() {
		for _, b := range g.Blocks {
			for _, in := range b.Instrs {
				ci, ok := in.(ssa.CallInstruction)
				if !ok {
					continue
				}
				for _, h := range a.callees(ci.Common()) {
					if h != f {
						continue
					}
					if _, ok := in.(*ssa.Call); !ok || !a.waitedIn(in, depth+1) {
						return false
					}
					n++
				}
			}
		}
	}
	return n > 0
}

func (a *alias) waitedIn(from ssa.Instruction, depth int) bool {
	f := from.Parent()
	seen := map[string]bool{}
	var ok func(b *ssa.BasicBlock, at int, env boolEnv) bool
	ok = func(b *ssa.BasicBlock, at int, env boolEnv) bool {
		for i := at; i < len(b.Instrs); i++ {
			switch x := b.Instrs[i].(type) {
			case *ssa.UnOp:
				if x.Op == token.ARROW && a.doneChan(x.X) {
					return true
				}
			case *ssa.Call:
				n, _, _ := extName(&x.Call)
				if strings.HasSuffix(n, ".Wait") {
					return true
				}
				for _, g := range a.callees(&x.Call) {
					if a.waits(g, map[*ssa.Function]bool{}) {
						return true
					}
				}
			case *ssa.Select:
				if x.Blocking && len(x.States) == 1 && x.States[0].Dir == types.RecvOnly && a.doneChan(x.States[0].Chan) {
					return true
				}
			case *ssa.Return:
				return a.callersWait(f, depth)
			}
		}
		for i, s := range b.Succs {
			if a.afterRecv(b, s) {
				continue
			}
			if ifi, isIf := b.Instrs[len(b.Instrs)-1].(*ssa.If); isIf {
				if v, known := env.value(ifi.Cond); known && v != (i == 0) {
					continue
				}
			}
			next := env.enter(b, s)
			key := fmt.Sprint(s.Index, next)
			if seen[key] {
				continue
			}
			seen[key] = true
			if !ok(s, 0, next) {
				return false
			}
		}
		return true
	}
	for i, in := range from.Block().Instrs {
		if in == from {
			_ = f
			return ok(from.Block(), i+1, boolEnv{})
		}
	}
	return false
}

// waits: the function waits on every way to its return.
func (a *alias) waits(f *ssa.Function, seen map[*ssa.Function]bool) bool {
	if seen[f] || len(f.Blocks) == 0 {
		return false
	}
	seen[f] = true
	// a function that waits has a receive at all
	any := false
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			switch x := in.(type) {
			case *ssa.UnOp:
				any = any || x.Op == token.ARROW
			case *ssa.Select:
				any = true
			}
		}
	}
	return any && a.waited(f.Blocks[0].Instrs[0])
}

// doneChan: a channel on which the completion may be signalled: not a timer.
func (a *alias) doneChan(v ssa.Value) bool {
	if c, ok := v.(*ssa.Call); ok {
		n, _, _ := extName(&c.Call)
		if strings.HasPrefix(n, "time.") || strings.HasSuffix(n, ").Done") {
			return false
		}
	}
	if u, ok := v.(*ssa.UnOp); ok {
		if fa, ok := u.X.(*ssa.FieldAddr); ok && strings.HasPrefix(typeKey(fa.X.Type()), "time.") {
			return false
		}
	}
	return true
}

// afterRecv: the edge is taken only when a select received from a channel.
func (a *alias) afterRecv(b, s *ssa.BasicBlock) bool {
	i, ok := b.Instrs[len(b.Instrs)-1].(*ssa.If)
	if !ok || len(b.Succs) != 2 || b.Succs[0] != s || b.Succs[0] == b.Succs[1] {
		return false
	}
	bo, ok := i.Cond.(*ssa.BinOp)
	if !ok || bo.Op != token.EQL {
		return false
	}
	ex, ok := bo.X.(*ssa.Extract)
	k, ok2 := bo.Y.(*ssa.Const)
	if !ok || !ok2 || ex.Index != 0 {
		return false
	}
	sel, ok := ex.Tuple.(*ssa.Select)
	if !ok || int(k.Int64()) >= len(sel.States) {
		return false
	}
	st := sel.States[k.Int64()]
	return st.Dir == types.RecvOnly && a.doneChan(st.Chan)
}

func c20(c *Ctx) {
	if c.load("") == nil {
		return
	}
	c.P = c.progs[""]
	thisProg = c.P
	c.rule("modified: nothing reached from an exported operation assigns to, copies into, appends to or hands to code outside that writes to it, the memory of a byte slice the operation was given, except where the slice is there to be filled")
	c.rule("kept: no operation stores a byte slice it was given, or anything through which it is reached, where it outlives the call, or hands it to another goroutine without waiting for it, except where a buffer is built on it")
	n := 0
	var fs []*ssa.Function
	for _, f := range c.P.Funcs {
		if f.Parent() == nil && f.Object() != nil && f.Object().Exported() && f.Synthetic == "" && !isTestOnly(f) {
			fs = append(fs, f)
		}
	}
	sort.Slice(fs, func(i, j int) bool { return fs[i].String() < fs[j].String() })
	for _, f := range fs {
		for _, p := range f.Params {
			if f.Signature.Recv() != nil && p == f.Params[0] {
				continue
			}
			sl, ok := p.Type().Underlying().(*types.Slice)
			if !ok || !isByteSlice(p.Type()) && !isByteSlice(sl.Elem()) {
				continue
			}
			n++
			c.slice(f, p)
		}
	}
	if n == 0 {
		c.fail("no operation takes a byte slice")
	}
}

func isTestOnly(f *ssa.Function) bool { return false }

func (c *Ctx) slice(f *ssa.Function, p *ssa.Parameter) {
	a := &alias{p: c.P, c: c, root: f, param: p, paths: map[ssa.Value]map[string]bool{}, fns: map[*ssa.Function]bool{}, rets: map[*ssa.Function][]map[string]bool{}, capd: map[ssa.Value]bool{}}
	a.fill = fillsSlice(f)
	a.keep = buildsOn(f)
	c.ob("slices followed")
	a.solve()
	for _, g := range a.sorted() {
		c.fns[fnName(g)] = true
	}
	a.report(func(rule string, g *ssa.Function, in ssa.Instruction, msg string) {
		ev := &Event{Pos: g.Pos()}
		if in != nil {
			ev.Pos = in.Pos()
			for i := 0; !ev.Pos.IsValid() && i < 3; i++ {
				for _, o := range in.Operands(nil) {
					if *o != nil && (*o).Pos().IsValid() {
						ev.Pos = (*o).Pos()
					}
				}
			}
		}
		c.viol(rule, f, ev, nil, "%s (%s): %s", p.Name(), fnName(g), msg)
	})
}

// fillsSlice: the operation is there to fill the slice it is given: it reads.
func fillsSlice(f *ssa.Function) bool {
	n := f.Name()
	r := f.Signature.Results()
	return strings.HasPrefix(n, "Read") && f.Signature.Recv() != nil && r.Len() >= 1 && isInt(r.At(0).Type())
}

func isInt(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsInteger != 0
}

// buildsOn: the operation makes a buffer on the slice it is given.
func buildsOn(f *ssa.Function) bool {
	r := f.Signature.Results()
	if f.Signature.Recv() != nil || r.Len() == 0 {
		return false
	}
	return strings.HasPrefix(f.Name(), "New") && strings.HasSuffix(typeKey(r.At(0).Type()), ".Buffer")
}

func init() {
	checks["C20"] = checkDef{c20, "interprocedural field-sensitive alias analysis of every byte slice given to an exported operation: every store, append, copy, send, goroutine and call outside that reaches its memory"}
}

// boolEnv are the flags (boolean phis) whose values are known on the way taken, by name.
type boolEnv map[string]bool

func (n boolEnv) value(v ssa.Value) (bool, bool) {
	switch x := v.(type) {
	case *ssa.Const:
		if x.Value != nil && x.Value.Kind() == constant.Bool {
			return constant.BoolVal(x.Value), true
		}
	case *ssa.UnOp:
		if x.Op == token.NOT {
			b, ok := n.value(x.X)
			return !b, ok
		}
	case *ssa.Phi:
		b, ok := n[x.Name()]
		return b, ok
	}
	return false, false
}

func (n boolEnv) enter(from, to *ssa.BasicBlock) boolEnv {
	r := boolEnv{}
	for k, v := range n {
		r[k] = v
	}
	for i, p := range to.Preds {
		if p != from {
			continue
		}
		for _, in := range to.Instrs {
			ph, ok := in.(*ssa.Phi)
			if !ok {
				break
			}
			if b, ok := n.value(ph.Edges[i]); ok {
				r[ph.Name()] = b
			} else {
				delete(r, ph.Name())
			}
		}
		break
	}
	return r
}
