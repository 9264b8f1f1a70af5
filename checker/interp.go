package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"os"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Event is something observable a path does.
type Event struct {
	Kind  string
	Fn    string
	Args  []*Term
	Res   *Term
	Instr ssa.Instruction
	Pos   token.Pos
	Locks []Held
	Stack []*ssa.Function
	Note  string
	N     int // index on its path
	NF    int // number of facts known at that moment
	Epoch int
	Uses  *ssa.Function
	Mem   map[*Term]*Term // snapshot, where a check asks for it
	Body  []*Outcome      // for "go": outcomes of the goroutine, when explored
	Loop  *loopInfo       // for "loop": what became unknown
}

type Held struct {
	Key   *Term
	Read  bool
	Try   bool
	Ev    *Event
	Defer bool
}

type Fact struct {
	T     *Term
	Truth bool
}

type PanicInfo struct {
	Kind string
	Ev   *Event
	Val  *Term
}

type Deferred struct {
	instr *ssa.Defer
	fn    *Term
	args  []*Term
}

type loopInfo struct {
	id    int
	mark  int // number of terms when the loop was entered
	cells map[*Term]*Term
	hmem  map[*Term]*Term // memory when a generic iteration begins
	over  map[*Term]int
	esc   map[*Term]bool
	arr   int
	iter  int
	forks int
	mem   map[*Term]*Term
	phis  map[*ssa.Phi]*Term
	syms  map[*ssa.Phi]*Term
	locks []Held
	facts int
}

type Frame struct {
	fn     *ssa.Function
	env    map[ssa.Value]*Term
	block  *ssa.BasicBlock
	pred   *ssa.BasicBlock
	pc     int
	defers []Deferred
	isDef  bool // called by the deferred-call machinery
	unw    int  // 0 none, 1 panicking, 2 recovered, 3 RunDefers
	bind   ssa.Value
	loops  map[*ssa.BasicBlock]*loopInfo
	cont   func(e *Engine, s *State, ret []*Term) []*State
	ghost  bool
}

type State struct {
	frames  []*Frame
	mem     map[*Term]*Term
	epoch   int
	over    map[*Term]int // contents of these objects became unknown (version)
	escaped map[*Term]bool
	shared  map[*Term]bool // escaped, and others have run since
	facts   []Fact
	fset    map[*Term]bool
	locks   []Held
	events  []*Event
	panic   *PanicInfo
	forks   int
	steps   int
	maps    map[*Term]map[*Term][2]*Term // known lookups
	mapver  map[*Term]int
	hidden  int
	tags    map[string]int
}

type Outcome struct {
	S    *State
	Kind string // "return","panic","loop","exit"
	Ret  []*Term
	P    *PanicInfo
	Root *ssa.Function
}

type Engine struct {
	P        *Prog
	Root     *ssa.Function
	Outs     []*Outcome
	MaxPaths int
	MaxDepth int
	Err      error
	Warn     []string

	// configuration
	NoPanic     bool // do not explore panics of unknown callees
	Recovering  bool // the function explored is a deferred call, and there is a panic
	ExtPanics   bool // explore panics of every call outside the repository
	PanicAll    bool // explore panics of unknown callees even where nothing is deferred and no lock is held
	Opaque      func(*ssa.Function) bool
	Hook        func(e *Engine, s *State, in ssa.Instruction, kind string, ts []*Term)
	MultiIter   bool // run iteration callbacks twice when they keep state
	OnEvent     func(e *Engine, s *State, ev *Event)
	OnResult    func(e *Engine, s *State, ev *Event) // the unknown result of a call has been made
	PreCall     func(e *Engine, s *State, ev *Event) // before a call of code outside changes memory
	OnLoopEnd   func(e *Engine, s *State, li *loopInfo, h *ssa.BasicBlock)
	GoBodies    bool // explore goroutine bodies at the go statement when a lock is held
	GoAlways    bool
	spawn       []*ssa.Function
	work        []*State
	paths       int
	UserCalls   bool
	NoOpaqueSum bool
	Params      []*Term

	NilFaults bool                  // with Faults: nil dereferences and the preconditions of external calls too
	Faults    bool                  // bounds, division and assertion panics that are not excluded are explored where a lock or deferred call would notice
	ArithOf   func(s *State) *Arith // another arithmetic than the default one, which does not wrap
	Before    func(e *Engine, s *State, fr *Frame, in ssa.Instruction)
	OnInstr   func(e *Engine, s *State, fr *Frame, in ssa.Instruction)
	Shared    *Shared
	CutSize   int                      // callees with more ways through than this get a summary of their own
	Cut       func(*ssa.Function) bool // callees that get a summary whatever their size
	measuring bool
	inSummary bool

	// MergeLoops joins the paths that come round a loop: what any of them changed is unknown in the next iteration.
	MergeLoops bool
	varies     map[string]bool // cells that some path round a loop changes
	again      bool            // such a cell was found where it was taken to be unchanged
	loopReg    map[string]map[string]bool
}

var loopN int

func newEngine(p *Prog) *Engine {
	return &Engine{P: p, MaxPaths: 60000, MaxDepth: 14}
}

func newState() *State {
	return &State{mem: map[*Term]*Term{}, over: map[*Term]int{}, escaped: map[*Term]bool{}, fset: map[*Term]bool{}, maps: map[*Term]map[*Term][2]*Term{}, mapver: map[*Term]int{}}
}

func (s *State) clone() *State {
	n := *s
	n.frames = make([]*Frame, len(s.frames))
	for i, f := range s.frames {
		g := *f
		g.env = make(map[ssa.Value]*Term, len(f.env))
		for k, v := range f.env {
			g.env[k] = v
		}
		g.defers = append([]Deferred(nil), f.defers...)
		g.loops = make(map[*ssa.BasicBlock]*loopInfo, len(f.loops))
		for k, v := range f.loops {
			w := *v
			g.loops[k] = &w
		}
		n.frames[i] = &g
	}
	n.mem = make(map[*Term]*Term, len(s.mem))
	for k, v := range s.mem {
		n.mem[k] = v
	}
	n.over = make(map[*Term]int, len(s.over))
	for k, v := range s.over {
		n.over[k] = v
	}
	n.escaped = make(map[*Term]bool, len(s.escaped))
	for k, v := range s.escaped {
		n.escaped[k] = v
	}
	if s.shared != nil {
		n.shared = make(map[*Term]bool, len(s.shared))
		for k, v := range s.shared {
			n.shared[k] = v
		}
	}
	n.fset = make(map[*Term]bool, len(s.fset))
	for k, v := range s.fset {
		n.fset[k] = v
	}
	n.maps = make(map[*Term]map[*Term][2]*Term, len(s.maps))
	for k, v := range s.maps {
		w := make(map[*Term][2]*Term, len(v))
		for a, b := range v {
			w[a] = b
		}
		n.maps[k] = w
	}
	n.mapver = make(map[*Term]int, len(s.mapver))
	for k, v := range s.mapver {
		n.mapver[k] = v
	}
	if s.tags != nil {
		n.tags = map[string]int{}
		for k, v := range s.tags {
			n.tags[k] = v
		}
	}
	n.facts = s.facts[:len(s.facts):len(s.facts)]
	n.locks = s.locks[:len(s.locks):len(s.locks)]
	n.events = s.events[:len(s.events):len(s.events)]
	return &n
}

func (s *State) top() *Frame { return s.frames[len(s.frames)-1] }

func (s *State) stack() []*ssa.Function {
	r := make([]*ssa.Function, 0, len(s.frames))
	for _, f := range s.frames {
		r = append(r, f.fn)
	}
	return r
}

func (s *State) event(e *Engine, kind, fn string, args []*Term, in ssa.Instruction) *Event {
	ev := &Event{Kind: kind, Fn: fn, Args: args, Instr: in, Locks: s.locks[:len(s.locks):len(s.locks)], Stack: s.stack(), N: len(s.events), NF: len(s.facts), Epoch: s.epoch}
	if in != nil {
		ev.Pos = in.Pos()
		if !ev.Pos.IsValid() {
			for i := len(s.frames) - 1; i >= 0 && !ev.Pos.IsValid(); i-- {
				f := s.frames[i]
				if f.block != nil && f.pc < len(f.block.Instrs) {
					ev.Pos = f.block.Instrs[f.pc].Pos()
				}
			}
		}
	}
	s.events = append(s.events, ev)
	return ev
}

func (e *Engine) fire(s *State, ev *Event) {
	if e.OnEvent != nil {
		e.OnEvent(e, s, ev)
	}
}

// ---------- memory ----------

func (s *State) private(t *Term) bool {
	r := t.root()
	return r.Op == "obj" && !s.escaped[r]
}

func (e *Engine) load(s *State, addr *Term, typ types.Type) *Term {
	if v, ok := s.mem[addr]; ok {
		return v
	}
	if st, ok := typ.Underlying().(*types.Struct); ok && st.NumFields() > 0 && st.NumFields() <= 24 {
		if _, isTP := typ.(*types.TypeParam); !isTP && (!opaqueStruct(typ) || s.hasFields(addr)) {
			var sub []*Term
			for i := 0; i < st.NumFields(); i++ {
				fa := mkFld(addr, st.Field(i).Name(), types.NewPointer(st.Field(i).Type()))
				setOwn(fa, typeKey(typ))
				sub = append(sub, e.load(s, fa, st.Field(i).Type()))
			}
			return mkStruct(typ, sub)
		}
	}
	root := addr.root()
	if at, ok := typ.Underlying().(*types.Array); ok && at.Len() <= 64 && root.Op == "obj" {
		// an array whose elements were stored one by one
		for a := range s.mem {
			if a.Op == "idx" && a.Sub[0] == addr {
				var sub []*Term
				for i := int64(0); i < at.Len(); i++ {
					sub = append(sub, e.load(s, mkIdx(addr, tInt(i), types.NewPointer(at.Elem())), at.Elem()))
				}
				return mkT("list", "", typ, sub...)
			}
		}
	}
	if root.Op == "obj" && s.over[root] == 0 {
		if k := root.Obj.Kind; (k == "alloc" || k == "slice") && (!s.shared[root] || e.stableAddr(addr)) {
			if !e.symbolicStore(s, addr) {
				return e.zeroAt(addr, root, typ)
			}
		}
	}
	if v := grownElem(s, addr); v != nil {
		return v
	}
	ep := s.epoch
	if e.stableAddr(addr) {
		ep = 0
	}
	if s.private(addr) {
		ep = 0
	}
	aux := fmt.Sprintf("%d", ep)
	if v := s.over[root]; v > 0 && root.Op == "obj" {
		aux = fmt.Sprintf("%d.v%d", ep, v)
	}
	t := mkT("init", aux, typ, addr)
	s.mem[addr] = t
	return t
}

// hasFields: fields of this struct were stored one by one.
func (s *State) hasFields(addr *Term) bool {
	for a := range s.mem {
		if a.Op == "fld" && a.Sub[0] == addr && !strings.HasPrefix(a.Aux, "#") {
			return true
		}
	}
	return false
}

func allZero(v *Term) bool {
	for _, x := range v.Sub {
		if x != tNil && x != tZero && x != tFalse && x != tStr("") && x != tZeroV {
			return false
		}
	}
	return true
}

// symbolicStore: was something stored at an unknown index that may be this element?
func (e *Engine) symbolicStore(s *State, addr *Term) bool {
	if addr.Op != "idx" {
		for addr.Op == "fld" {
			addr = addr.Sub[0]
		}
		if addr.Op != "idx" {
			return false
		}
	}
	for a := range s.mem {
		if a.Op == "idx" && a.Sub[0] == addr.Sub[0] && a != addr {
			if !a.Sub[1].isConst() || !addr.Sub[1].isConst() {
				return true
			}
		}
	}
	return false
}

func (e *Engine) zeroAt(addr, root *Term, typ types.Type) *Term { return zeroTerm(typ) }

func opaqueStruct(t types.Type) bool {
	k := typeKey(t)
	return !isRepoKey(k) && strings.Contains(k, ".") && !strings.HasPrefix(k, "struct")
}

var ownTab = map[*Term]string{}

func setOwn(t *Term, own string) {
	if _, ok := ownTab[t]; !ok {
		ownTab[t] = own
	}
}

func own(t *Term) string { return ownTab[t] }

func (e *Engine) stableAddr(a *Term) bool {
	switch a.Op {
	case "fld":
		return e.P.stable(own(a), a.Aux) && (a.Sub[0].Op != "idx" || e.stableAddr(a.Sub[0]) || true)
	case "global":
		return true
	case "idx":
		// an element of an array field is as stable as the field
		if a.Sub[0].Op == "fld" {
			return e.stableAddr(a.Sub[0])
		}
	}
	return false
}

func (e *Engine) store(s *State, addr, val *Term, typ types.Type) {
	if st, ok := typ.Underlying().(*types.Struct); ok && (!opaqueStruct(typ) || val.Op == "struct" && len(val.Sub) == st.NumFields() && !allZero(val)) {
		delete(s.mem, addr)
		if _, isTP := typ.(*types.TypeParam); !isTP {
			for i := 0; i < st.NumFields(); i++ {
				fa := mkFld(addr, st.Field(i).Name(), types.NewPointer(st.Field(i).Type()))
				setOwn(fa, typeKey(typ))
				e.store(s, fa, fieldVal(val, i, st), st.Field(i).Type())
			}
			return
		}
	}
	if addr.Op == "idx" && !addr.Sub[1].isConst() {
		for a := range s.mem {
			if a.Op == "idx" && a.Sub[0] == addr.Sub[0] && a != addr {
				delete(s.mem, a)
			}
		}
		if r := addr.root(); r.Op == "obj" {
			// other elements are unknown from here on
		}
	}
	// storing an array value
	if at, ok := typ.Underlying().(*types.Array); ok {
		for i := int64(0); i < at.Len() && i < 64; i++ {
			ia := mkIdx(addr, tInt(i), types.NewPointer(at.Elem()))
			if val.Op == "zeroarr" {
				s.mem[ia] = zeroTerm(at.Elem())
			} else if val.Op == "list" && int(i) < len(val.Sub) {
				s.mem[ia] = val.Sub[i]
			} else {
				s.mem[ia] = mkAt(val, tInt(i), at.Elem())
			}
		}
		s.mem[addr] = val
		return
	}
	if addr.Op == "idx" {
		delete(s.mem, addr.Sub[0]) // a cached whole-array value
	}
	if _, ok := typ.Underlying().(*types.Struct); ok {
		for a := range s.mem {
			if a.Op == "fld" && a.Sub[0] == addr {
				delete(s.mem, a)
			}
		}
	}
	s.mem[addr] = val
	if val.Op == "app" && val.Aux == "bufstate" {
		s.mem[mkFld(addr, "#stream", nil)] = val.Sub[0]
	}
	if !s.private(addr) {
		e.escape(s, val)
	}
}

func fieldVal(v *Term, i int, st *types.Struct) *Term {
	if v.Op == "struct" && i < len(v.Sub) {
		return v.Sub[i]
	}
	return mkT("f", st.Field(i).Name(), st.Field(i).Type(), v)
}

// escape marks the objects reachable from val as visible to others.
func (e *Engine) escape(s *State, val *Term) {
	if val == nil {
		return
	}
	r := val.root()
	switch r.Op {
	case "obj":
		if s.escaped[r] {
			return
		}
		s.escaped[r] = true
		var vs []*Term
		for a, v := range s.mem {
			if a.root() == r {
				vs = append(vs, v)
			}
		}
		for _, v := range vs {
			e.escape(s, v)
		}
	case "closure", "struct", "tuple", "append", "list":
		for _, x := range r.Sub {
			e.escape(s, x)
		}
	}
}

// bump forgets what is known of shared memory that others may have changed.
func (e *Engine) bump(s *State) {
	s.epoch++
	for r := range s.escaped {
		if !s.shared[r] {
			if s.shared == nil {
				s.shared = map[*Term]bool{}
			}
			s.shared[r] = true
		}
	}
	for a := range s.mem {
		if s.private(a) || e.stableAddr(a) {
			continue
		}
		delete(s.mem, a)
	}
	for m := range s.maps {
		if !s.private(m) {
			delete(s.maps, m)
			s.mapver[m]++
		}
	}
	for m := range s.mapver {
		if !s.private(m) {
			s.mapver[m]++
		}
	}
}

// smash forgets the contents of the object behind t.
func (e *Engine) smash(s *State, t *Term, ev *Event) {
	r := t.root()
	if r.Op == "append" {
		r = r.Sub[0].root()
	}
	if r.Op == "sym" && r.Sym != nil && r.Sym.Count != nil {
		r.Sym.Elem, r.Sym.Count = nil, nil // its elements are no longer those it was made of
	}
	if r.Op != "obj" {
		return
	}
	s.over[r]++
	for a := range s.mem {
		if a.root() == r {
			delete(s.mem, a)
		}
	}
}

// content is what a byte slice or other slice holds now, when that is known.
func (e *Engine) content(s *State, t *Term) *Term {
	if t == nil {
		return t
	}
	switch t.Op {
	case "slice":
		b, lo, hi := t.Sub[0], t.Sub[1], t.Sub[2]
		if b.Op == "obj" || b.Op == "fld" || b.Op == "global" {
			l, ok1 := lo.intVal()
			h, ok2 := hi.intVal()
			if ok1 && ok2 && h-l <= 64 && h >= l && b.Typ != nil {
				if pt, ok := b.Typ.Underlying().(*types.Pointer); ok {
					if at, ok := pt.Elem().Underlying().(*types.Array); ok {
						var sub []*Term
						for i := l; i < h; i++ {
							sub = append(sub, e.load(s, mkIdx(b, tInt(i), types.NewPointer(at.Elem())), at.Elem()))
						}
						return mkList(sub, t.Typ)
					}
				}
			}
		}
	case "obj":
		if t.Obj.Kind == "slice" {
			if n, ok := t.Obj.Len.intVal(); ok && n <= 64 && n >= 0 {
				var sub []*Term
				for i := int64(0); i < n; i++ {
					sub = append(sub, e.load(s, mkIdx(t, tInt(i), types.NewPointer(t.Obj.Elem)), t.Obj.Elem))
				}
				return mkList(sub, t.Typ)
			}
		}
		if v, ok := s.mem[mkFld(t, "#stream", nil)]; ok {
			return v
		}
	}
	return t
}

// mkList is a sequence of known elements; 8 bytes that are the elements of one value collapse to that value.
func mkList(sub []*Term, typ types.Type) *Term {
	if len(sub) > 0 && sub[0].Op == "init" && sub[0].Sub[0].Op == "idx" {
		base, ep := sub[0].Sub[0].Sub[0], sub[0].Aux
		all := true
		for i, x := range sub {
			if x.Op != "init" || x.Aux != ep || x.Sub[0].Op != "idx" || x.Sub[0].Sub[0] != base || x.Sub[0].Sub[1] != tInt(int64(i)) {
				all = false
				break
			}
		}
		if all {
			return mkT("arr", fmt.Sprintf("%s:%d", ep, len(sub)), typ, base)
		}
	}
	return mkT("list", "", typ, sub...)
}

// ---------- facts ----------

func (s *State) know(t *Term, truth bool) {
	for t.Op == "not" {
		t, truth = t.Sub[0], !truth
	}
	if t.isConst() {
		return
	}
	if _, ok := s.fset[t]; ok {
		return
	}
	s.fset[t] = truth
	s.facts = append(s.facts, Fact{t, truth})
}

// arith is the linear domain of a state.
func (e *Engine) arith(s *State) *Arith {
	if e.ArithOf != nil {
		return e.ArithOf(s)
	}
	return s.arith()
}

func (s *State) arith() *Arith {
	a := &Arith{}
	for _, f := range s.facts {
		a.assume(f.T, f.Truth)
	}
	return a
}

func nonnil(t *Term) bool {
	switch t.Op {
	case "obj", "closure", "fn", "fld", "idx", "struct", "global", "conv", "bytes", "list", "concat":
		return true
	case "slice":
		return t.Sub[0] != tNil && nonnil(t.Sub[0])
	case "append":
		for _, x := range t.Sub[1:] {
			if n, ok := mkLen(x).intVal(); ok && n > 0 {
				return true
			}
		}
		return nonnil(t.Sub[0])
	case "const":
		return t != tNil && t != tZeroV
	case "bin", "len", "cap", "not":
		return true
	}
	if t.Typ != nil {
		if _, ok := t.Typ.(*types.TypeParam); ok {
			return false
		}
		switch t.Typ.Underlying().(type) {
		case *types.Basic, *types.Struct, *types.Array:
			return true
		}
	}
	return false
}

// decide evaluates a condition: 1 true, 0 false, -1 unknown.
func (e *Engine) decide(s *State, t *Term) int {
	neg := false
	for t.Op == "not" {
		t, neg = t.Sub[0], !neg
	}
	r := e.decide1(s, t)
	if r >= 0 && neg {
		r = 1 - r
	}
	return r
}

func (e *Engine) decide1(s *State, t *Term) int {
	switch t {
	case tTrue:
		return 1
	case tFalse:
		return 0
	}
	if v, ok := s.fset[t]; ok {
		if v {
			return 1
		}
		return 0
	}
	if t.Op != "bin" {
		return -1
	}
	a, b := t.Sub[0], t.Sub[1]
	switch t.Aux {
	case "==":
		if a == tNil && nonnil(b) || b == tNil && nonnil(a) {
			return 0
		}
		if a.Op == "obj" && b.Op == "obj" && a != b {
			return 0
		}
		if isStringy(a.Typ) || isStringy(b.Typ) {
			return -1
		}
		if intLike(a) && intLike(b) {
			ar := e.arith(s)
			le, ge := ar.le(a, b, 0), ar.le(b, a, 0)
			if le && ge {
				return 1
			}
			if ar.le(a, b, -1) || ar.le(b, a, -1) {
				return 0
			}
		}
	case "<":
		if isFloatTerm(a) || isFloatTerm(b) || isStringy(a.Typ) {
			return -1
		}
		ar := e.arith(s)
		if ar.le(a, b, -1) {
			return 1
		}
		if ar.le(b, a, 0) {
			return 0
		}
	}
	return -1
}

// ---------- running ----------

// Run explores every path of root from a state with symbolic parameters.
func (e *Engine) Run(root *ssa.Function) []*Outcome {
	s := newState()
	return e.RunFrom(root, nil, nil, s)
}

func paramTerms(fn *ssa.Function) []*Term {
	var args []*Term
	for i, p := range fn.Params {
		n := p.Name()
		if n == "" || n == "_" {
			n = fmt.Sprintf("arg%d", i)
		}
		t := mkT("param", n, p.Type())
		if i == 0 && fn.Signature.Recv() != nil {
			t = mkT("param", "recv:"+typeKey(p.Type()), p.Type())
		} else {
			// parameters of different functions with one name are different terms only when types differ
			t = mkT("param", n+":"+types.TypeString(p.Type(), func(*types.Package) string { return "" }), p.Type())
		}
		args = append(args, t)
	}
	return args
}

func (e *Engine) RunFrom(root *ssa.Function, args []*Term, binds []*Term, s *State) []*Outcome {
	e.Root = root
	e.Outs = nil
	if args == nil {
		args = paramTerms(root)
	}
	e.Params = args
	for i, fv := range root.FreeVars {
		if i < len(binds) {
			continue
		}
		binds = append(binds, mkT("param", "free:"+fv.Name(), fv.Type()))
	}
	s.frames = append(s.frames, newFrame(root, args, binds))
	s0 := s.clone()
	for round := 0; ; round++ {
		e.again = false
		e.work = []*State{s}
		for len(e.work) > 0 {
			if e.Err != nil {
				return e.Outs
			}
			s := e.work[len(e.work)-1]
			e.work = e.work[:len(e.work)-1]
			next := e.step(s)
			e.work = append(e.work, next...)
			if len(e.Outs) > e.MaxPaths {
				e.Err = fmt.Errorf("more than %d paths in %s", e.MaxPaths, fnName(root))
			}
		}
		if !e.again || round == 3 {
			return e.Outs
		}
		if os.Getenv("GC_MISS") != "" {
			for k := range e.varies {
				fmt.Fprintln(os.Stderr, "AGAIN", fnName(root), k)
			}
		}
		e.Outs = nil
		s = s0.clone()
	}
}

// loopKey and cellKey name a loop and a memory cell alike in every run of the analysis.
func loopKey(fr *Frame, h *ssa.BasicBlock) string {
	return fnName(fr.fn) + ":" + itoa(h.Index) + ":"
}

func cellKey(a *Term) string {
	switch a.Op {
	case "fld":
		if k := cellKey(a.Sub[0]); k != "" {
			return k + "." + a.Aux
		}
	case "init":
		if k := cellKey(a.Sub[0]); k != "" {
			return k + "*"
		}
	case "idx":
		if n, ok := a.Sub[1].intVal(); ok {
			if k := cellKey(a.Sub[0]); k != "" {
				return k + "[" + itoa(int(n)) + "]"
			}
		}
	case "param", "global":
		return a.Aux
	case "obj":
		if a.Obj.Pos != nil && a.Obj.Fn != nil {
			if v, ok := a.Obj.Pos.(ssa.Value); ok {
				return fnName(a.Obj.Fn) + "/" + v.Name()
			}
		}
	}
	return ""
}

func newFrame(fn *ssa.Function, args, binds []*Term) *Frame {
	f := &Frame{fn: fn, env: map[ssa.Value]*Term{}, block: fn.Blocks[0], loops: map[*ssa.BasicBlock]*loopInfo{}}
	for i, p := range fn.Params {
		if i < len(args) {
			f.env[p] = args[i]
		} else {
			f.env[p] = mkSym("arg", p.Type())
		}
	}
	for i, v := range fn.FreeVars {
		if i < len(binds) {
			f.env[v] = binds[i]
		} else {
			f.env[v] = mkSym("free", v.Type())
		}
	}
	return f
}

func (e *Engine) out(s *State, kind string, ret []*Term) {
	e.Outs = append(e.Outs, &Outcome{S: s, Kind: kind, Ret: ret, P: s.panic, Root: e.Root})
}

// val evaluates an operand.
func (e *Engine) val(s *State, v ssa.Value) *Term {
	switch x := v.(type) {
	case *ssa.Const:
		t := constTerm(x)
		return t
	case *ssa.Global:
		pk := ""
		if x.Pkg != nil {
			pk = short(x.Pkg.Pkg.Path()) + "."
		}
		return mkT("global", pk+x.Name(), x.Type())
	case *ssa.Function:
		t := mkT("fn", x.RelString(nil), x.Type())
		t.Fn = x
		return t
	case *ssa.Builtin:
		return mkT("builtin", x.Name(), x.Type())
	}
	if t, ok := s.top().env[v]; ok {
		return t
	}
	t := mkSym("undef", v.Type())
	s.top().env[v] = t
	return t
}

func (e *Engine) step(s *State) []*State {
	for {
		s.steps++
		if s.steps > 400000 {
			e.Err = fmt.Errorf("path too long in %s", fnName(e.Root))
			return nil
		}
		if len(s.frames) == 0 {
			return nil
		}
		fr := s.top()
		if fr.pc >= len(fr.block.Instrs) {
			e.Err = fmt.Errorf("fell off block in %s", fnName(fr.fn))
			return nil
		}
		in := fr.block.Instrs[fr.pc]
		if debugTrace {
			fmt.Fprintf(os.Stderr, "%*s%s b%d.%d %s\n", len(s.frames)*2, "", fr.fn.Name(), fr.block.Index, fr.pc, in)
		}
		var extra []*State
		if e.Before != nil {
			e.Before(e, s, fr, in)
		}
		if e.Faults {
			why := ""
			if e.NilFaults {
				why = e.allFaults(s, fr, in)
			} else {
				why = e.fault(s, fr, in)
			}
			if why != "" {
				if len(s.locks) > 0 || s.anyDefer() {
					s2 := s.clone()
					s2.forks++
					var args []*Term
					if x, ok := in.(*ssa.IndexAddr); ok {
						args = []*Term{e.val(s, x.X), e.val(s, x.Index)}
					}
					ev := s2.event(e, "fault", why, args, in)
					extra = e.raise(s2, &PanicInfo{Kind: why, Ev: ev})
				}
				e.unfault(s, in)
			}
		}
		if e.OnInstr != nil {
			e.OnInstr(e, s, fr, in)
		}
		next, done := e.exec(s, fr, in)
		if done {
			return append(extra, next...)
		}
		if extra != nil {
			return append(extra, s)
		}
	}
}

var debugTrace = false

// variesInLoop: some way round the loop gives the phi another value.
func variesInLoop(ph *ssa.Phi) bool {
	h := ph.Block()
	seen := map[ssa.Value]bool{ph: true}
	var same func(v ssa.Value) bool
	same = func(v ssa.Value) bool {
		if seen[v] {
			return true
		}
		q, ok := v.(*ssa.Phi)
		if !ok {
			return false
		}
		seen[v] = true
		for _, x := range q.Edges {
			if !same(x) {
				return false
			}
		}
		return true
	}
	for i, p := range h.Preds {
		if h.Dominates(p) && !same(ph.Edges[i]) {
			return true
		}
	}
	return false
}

// jump moves to a successor block, handling phis and loops. It reports false when the path ends.
func (e *Engine) jump(s *State, fr *Frame, to *ssa.BasicBlock) bool {
	from := fr.block
	var phis []*ssa.Phi
	for _, in := range to.Instrs {
		if ph, ok := in.(*ssa.Phi); ok {
			phis = append(phis, ph)
		} else {
			break
		}
	}
	pi := -1
	for i, p := range to.Preds {
		if p == from {
			pi = i
		}
	}
	vals := make([]*Term, len(phis))
	for i, ph := range phis {
		vals[i] = e.val(s, ph.Edges[pi])
	}
	set := func() {
		for i, ph := range phis {
			fr.env[ph] = vals[i]
		}
		fr.pred, fr.block, fr.pc = from, to, len(phis)
	}
	var flag *ssa.Phi
	if to.Dominates(from) { // back edge
		li := fr.loops[to]
		if li == nil {
			li = &loopInfo{}
			fr.loops[to] = li
		}
		if i, on := flagPhi(to, phis); i >= 0 {
			// a loop that goes on while a flag is set: the ways that leave it by the flag are followed as they are, and
			// in a further iteration the flag is set
			off := tFalse
			if !on {
				off = tTrue
			}
			switch v := vals[i]; {
			case v == off:
				set()
				return true
			case v != tTrue && v != tFalse && v.Op != "const":
				switch s.truth(v) {
				case 1:
					vals[i] = tTrue
				case 0:
					vals[i] = tFalse
				default:
					s2 := s.clone()
					s.forks++
					s2.forks++
					s2.know(v, !on)
					f2 := s2.top()
					for j, ph := range phis {
						f2.env[ph] = vals[j]
					}
					f2.env[phis[i]] = off
					f2.pred, f2.block, f2.pc = from, to, len(phis)
					e.work = append(e.work, s2)
					s.know(v, on)
					vals[i] = tTrue
					if !on {
						vals[i] = tFalse
					}
				}
				if vals[i] == off {
					set()
					return true
				}
			}
			flag = phis[i]
		}
		if li.arr == 0 && (s.forks == li.forks && li.iter < 300 || e.smallTrip(s, to)) && constProgress(phis, vals, fr) {
			li.iter++
			set()
			return true
		}
		if li.arr == 0 {
			nl := *li
			li = &nl
			fr.loops[to] = li
			li.arr = 1
			li.syms = map[*ssa.Phi]*Term{}
			ev := s.event(e, "loop", "", nil, to.Instrs[0])
			ev.Note = fmt.Sprint("b", to.Index)
			ev.Loop = li
			ch := map[string]bool{}
			if e.MergeLoops {
				for o, v := range s.over {
					if li.over[o] != v && allocBefore(li, o) {
						ch[fmt.Sprint("over", o.id)] = true
					}
				}
				for o := range s.escaped {
					if !li.esc[o] && allocBefore(li, o) {
						ch[fmt.Sprint("esc", o.id)] = true
					}
				}
			}
			for i, ph := range phis {
				old := fr.env[ph]
				if vals[i] == old && !variesInLoop(ph) || ph == flag {
					continue
				}
				if ptrSlice(ph.Type()) && vals[i].Op == "append" && old != nil && vals[i].Sub[0] == old {
					continue // a local list of records: the first iteration's record stands for all of them
				}
				sy := mkSym("loop", ph.Type())
				sy.Sym.Init, sy.Sym.Next, sy.Sym.Prev = li.phis[ph], vals[i], old
				sy.Sym.First = vals[i]
				sy.Sym.Name = loopName(ph) + "'" + itoa(sy.id)
				e.inductionFacts(s, sy, li.phis[ph], ph)
				e.latchFacts(s, sy, ph)
				e.boundFacts(s, sy, li.phis[ph], ph)
				for _, q := range phis[:i] {
					if z := li.syms[q]; z != nil {
						twinFacts(s, z, li.phis[q], q, sy, li.phis[ph], ph)
					}
				}
				li.syms[ph] = sy
				vals[i] = sy
				ch[fmt.Sprint("phi", i)] = true
			}
			grownFacts(s, li, phis)
			// memory changed by the first iteration is unknown in the next ones
			for a, v := range s.mem {
				o, had := li.mem[a]
				if had && o == v && !(e.varies != nil && e.varies[loopKey(fr, to)+cellKey(a)]) {
					continue
				}
				if !had {
					if v.Op == "init" {
						continue
					}
					if r := a.root(); r.Op == "obj" && r.Obj.Pos != nil && !allocBefore(li, r) {
						continue // the object is new in this iteration
					}
				}
				if _, exact := li.mem[a]; !exact && ptrSlice(v.Typ) {
					continue // a local list of records: the first iteration's record stands for all of them
				}
				sy := mkSym("loop", v.Typ)
				if had {
					sy.Sym.Init = o
				} else if r := a.root(); r.Op == "obj" && s.over[r] == 0 && (r.Obj.Kind == "alloc" || r.Obj.Kind == "slice") && a.Typ != nil {
					if pt, ok := a.Typ.Underlying().(*types.Pointer); ok {
						sy.Sym.Init = zeroTerm(pt.Elem())
					}
				}
				sy.Sym.Next = v
				sy.Sym.First = v
				if li.cells == nil {
					li.cells = map[*Term]*Term{}
				}
				li.cells[a] = sy
				s.mem[a] = sy
				ch[fmt.Sprint("mem", a.id)] = true
			}
			if e.MergeLoops {
				key := fmt.Sprint(li.id, "|", lockSig(s.locks))
				if e.loopReg == nil {
					e.loopReg = map[string]map[string]bool{}
				}
				reg, have := e.loopReg[key]
				sub := have
				for k := range ch {
					if !reg[k] {
						sub = false
					}
				}
				if sub {
					e.out(s, "loop", nil)
					return false
				}
				if reg == nil {
					reg = map[string]bool{}
					e.loopReg[key] = reg
				}
				for k := range ch {
					reg[k] = true
				}
				if li.facts < len(s.facts) {
					s.facts = s.facts[:li.facts:li.facts]
					s.fset = map[*Term]bool{}
					for _, f := range s.facts {
						s.fset[f.T] = f.Truth
					}
				}
			}
			for m := range s.maps {
				delete(s.maps, m)
				s.mapver[m]++
			}
			li.locks = s.locks
			li.hmem = map[*Term]*Term{}
			for a, v := range s.mem {
				li.hmem[a] = v
			}
			set()
			return true
		}
		// a generic iteration has been completed
		if !e.MergeLoops {
			for a, v := range s.mem {
				if li.cells[a] != nil {
					continue
				}
				h, had := li.hmem[a]
				if had && h == v || !had && v.Op == "init" || ptrSlice(v.Typ) {
					continue
				}
				if r := a.root(); !had && r.Op == "obj" && r.Obj.Pos != nil && !allocBefore(li, r) {
					continue
				}
				// another path round the loop changes what this one left alone: known when the analysis starts over
				if k := cellKey(a); k != "" {
					k = loopKey(fr, to) + k
					if !e.varies[k] {
						if e.varies == nil {
							e.varies = map[string]bool{}
						}
						e.varies[k] = true
						e.again = true
					}
				}
			}
		}
		for i, ph := range phis {
			if sy := li.syms[ph]; sy != nil && sy.Sym != nil {
				e.grown(s, sy, vals[i], li.mark)
				sy.Sym.Next = vals[i]
				sy.Sym.Prev = sy
				sy.Sym.Nexts = append(sy.Sym.Nexts, vals[i])
			}
		}
		for a, sy := range li.cells {
			if v := s.mem[a]; v != nil {
				sy.Sym.Next, sy.Sym.Prev = v, sy
				sy.Sym.Nexts = append(sy.Sym.Nexts, v)
			}
		}
		if e.OnLoopEnd != nil {
			e.OnLoopEnd(e, s, li, to)
		}
		e.out(s, "loop", nil)
		return false
	}
	if isLoopHeader(to) {
		loopN++
		li := &loopInfo{id: loopN, mark: termN, forks: s.forks, mem: map[*Term]*Term{}, phis: map[*ssa.Phi]*Term{}, facts: len(s.facts)}
		if e.MergeLoops {
			li.over, li.esc = map[*Term]int{}, map[*Term]bool{}
			for o, v := range s.over {
				li.over[o] = v
			}
			for o, v := range s.escaped {
				li.esc[o] = v
			}
		}
		for a, v := range s.mem {
			li.mem[a] = v
		}
		for i, ph := range phis {
			li.phis[ph] = vals[i]
		}
		fr.loops[to] = li
	}
	set()
	return true
}

// smallTrip: the loop's test compares with a small constant, so that it can be followed to its end.
func (e *Engine) smallTrip(s *State, h *ssa.BasicBlock) bool {
	i, ok := h.Instrs[len(h.Instrs)-1].(*ssa.If)
	if !ok {
		return false
	}
	b, ok := i.Cond.(*ssa.BinOp)
	if !ok || b.Op != token.LSS {
		return false
	}
	if c, ok := b.Y.(*ssa.Const); ok {
		return c.Value != nil && c.Value.Kind() == constant.Int && c.Int64() <= 8
	}
	if c, ok := b.Y.(*ssa.Call); ok && c.Call.Value.Name() == "len" {
		if t := s.top().env[b.Y]; t != nil {
			n, ok := t.intVal()
			return ok && n <= 8
		}
	}
	return false
}

// ptrSlice: a slice of pointers.
func ptrSlice(t types.Type) bool {
	if t == nil {
		return false
	}
	sl, ok := t.Underlying().(*types.Slice)
	if !ok {
		return false
	}
	_, ok = sl.Elem().Underlying().(*types.Pointer)
	return ok
}

// allocBefore: the object existed when the loop was entered.
func allocBefore(li *loopInfo, r *Term) bool { return r.id <= li.mark }

// flagPhi: the loop goes on exactly while a variable that is changed in it is true, or false.
func flagPhi(h *ssa.BasicBlock, phis []*ssa.Phi) (i int, on bool) {
	br, ok := h.Instrs[len(h.Instrs)-1].(*ssa.If)
	if !ok {
		return -1, false
	}
	c, on := br.Cond, true
	if n, ok := c.(*ssa.UnOp); ok && n.Op == token.NOT {
		c, on = n.X, false
	}
	for i, ph := range phis {
		if c != ssa.Value(ph) {
			continue
		}
		a, b := inLoop(h, h.Succs[0]), inLoop(h, h.Succs[1])
		if a == b {
			return -1, false
		}
		return i, on == a
	}
	return -1, false
}

// inLoop: the block can go back to the head of the loop.
func inLoop(h, b *ssa.BasicBlock) bool {
	seen := map[*ssa.BasicBlock]bool{}
	var rec func(b *ssa.BasicBlock) bool
	rec = func(b *ssa.BasicBlock) bool {
		if b == h {
			return true
		}
		if seen[b] || !h.Dominates(b) {
			return false
		}
		seen[b] = true
		for _, x := range b.Succs {
			if rec(x) {
				return true
			}
		}
		return false
	}
	return rec(b)
}

func loopName(ph *ssa.Phi) string {
	if ph.Comment != "" {
		return ph.Comment
	}
	return ph.Name()
}

func isLoopHeader(b *ssa.BasicBlock) bool {
	for _, p := range b.Preds {
		if b.Dominates(p) {
			return true
		}
	}
	return false
}

func constProgress(phis []*ssa.Phi, vals []*Term, fr *Frame) bool {
	for i, ph := range phis {
		if _, ok := vals[i].intVal(); ok && vals[i] != fr.env[ph] {
			return true
		}
	}
	return false
}

// inductionFacts: a variable that only ever grows from its start stays at or above it.
func (e *Engine) inductionFacts(s *State, sy, init *Term, ph *ssa.Phi) {
	if init == nil || !intLike(init) {
		return
	}
	st := phiSteps(ph)
	if st.other || st.up == st.down {
		return
	}
	if st.up {
		s.know(mkBin("<", sy, init, nil), false)
	} else {
		s.know(mkBin("<", init, sy, nil), false)
	}
	if st.exact {
		sy.Sym.Idx = int(st.k)
	}
}

// latchFacts: when every way back to the head of the loop is taken only if the variable's next value compares in one way
// with a value fixed before the loop, the variable does so in every iteration but the first.
func (e *Engine) latchFacts(s *State, sy *Term, ph *ssa.Phi) {
	h := ph.Block()
	var op token.Token
	var other ssa.Value
	var left, truth bool
	for i, p := range h.Preds {
		if !h.Dominates(p) {
			continue
		}
		br, ok := p.Instrs[len(p.Instrs)-1].(*ssa.If)
		if !ok || p.Succs[0] == p.Succs[1] {
			return
		}
		b, ok := br.Cond.(*ssa.BinOp)
		if !ok {
			return
		}
		switch b.Op {
		case token.LSS, token.LEQ, token.GTR, token.GEQ, token.EQL, token.NEQ:
		default:
			return
		}
		y, l := b.Y, true
		if b.X != ph.Edges[i] {
			if b.Y != ph.Edges[i] {
				return
			}
			y, l = b.X, false
		}
		if in, ok := y.(ssa.Instruction); ok && (in.Block() == h || !in.Block().Dominates(h)) {
			return
		}
		t := p.Succs[0] == h
		if other != nil && (other != y || op != b.Op || left != l || truth != t) {
			return
		}
		op, other, left, truth = b.Op, y, l, t
	}
	if other == nil {
		return
	}
	if y := e.val(s, other); left {
		s.know(mkBin(op.String(), sy, y, nil), truth)
	} else {
		s.know(mkBin(op.String(), y, sy, nil), truth)
	}
}

// twinFacts relates two loop variables that change by the same or by opposite constants in every iteration.
func twinFacts(s *State, x, x0 *Term, p *ssa.Phi, y, y0 *Term, q *ssa.Phi) {
	if x0 == nil || y0 == nil || !intLike(x0) || !intLike(y0) {
		return
	}
	a, b := phiSteps(p), phiSteps(q)
	if !a.exact || !b.exact || a.other || b.other {
		return
	}
	switch {
	case a.k == b.k:
		s.know(mkBin("==", mkBin("-", x, y, nil), mkBin("-", x0, y0, nil), nil), true)
	case a.k == -b.k:
		s.know(mkBin("==", mkBin("+", x, y, nil), mkBin("+", x0, y0, nil), nil), true)
	}
}

// steps is how a loop variable may change in one iteration: by constants only, up or down, and whether it is always
// the same constant.
type steps struct {
	up, down, other, exact bool
	k                      int64
}

func phiSteps(ph *ssa.Phi) (st steps) {
	st.exact = true
	first := true
	seen := map[ssa.Value]bool{}
	var rec func(v ssa.Value, d int64, n int)
	rec = func(v ssa.Value, d int64, n int) {
		if v == ssa.Value(ph) {
			if d > 0 {
				st.up = true
			}
			if d < 0 {
				st.down = true
			}
			if !first && d != st.k {
				st.exact = false
			}
			first, st.k = false, d
			return
		}
		if n > 20 {
			st.other = true
			return
		}
		switch x := v.(type) {
		case *ssa.BinOp:
			if x.Op == token.ADD || x.Op == token.SUB {
				if c, ok := x.Y.(*ssa.Const); ok && c.Value != nil && c.Value.Kind() == constant.Int {
					k := c.Int64()
					if x.Op == token.SUB {
						k = -k
					}
					if k > 0 {
						st.up = true
					} else if k < 0 {
						st.down = true
					}
					rec(x.X, d+k, n+1)
					return
				}
				if c, ok := x.X.(*ssa.Const); ok && x.Op == token.ADD && c.Value != nil && c.Value.Kind() == constant.Int {
					if k := c.Int64(); k > 0 {
						st.up = true
					} else if k < 0 {
						st.down = true
					}
					rec(x.Y, d+c.Int64(), n+1)
					return
				}
			}
		case *ssa.Phi:
			if seen[x] {
				st.exact = false
				return
			}
			seen[x] = true
			for _, ed := range x.Edges {
				rec(ed, d, n+1)
			}
			return
		}
		st.other = true
	}
	b := ph.Block()
	for i, ed := range ph.Edges {
		if b.Dominates(b.Preds[i]) {
			rec(ed, 0, 0)
		}
	}
	return
}

// raise starts panicking in the top frame.
func (e *Engine) raise(s *State, p *PanicInfo) []*State {
	s.panic = p
	for len(s.frames) > 0 {
		fr := s.top()
		fr.unw = 1
		if len(fr.defers) > 0 {
			return e.contDefers(s)
		}
		s.frames = s.frames[:len(s.frames)-1]
	}
	e.out(s, "panic", nil)
	return nil
}

// contDefers runs the next deferred call of the top frame, or moves on.
func (e *Engine) contDefers(s *State) []*State {
	fr := s.top()
	if fr.unw == 1 && s.panic == nil {
		fr.unw = 2
	}
	if n := len(fr.defers); n > 0 {
		d := fr.defers[n-1]
		fr.defers = fr.defers[:n-1]
		return e.invoke(s, d.instr, d.fn, d.args, d.instr.Common(), nil, true)
	}
	switch fr.unw {
	case 1:
		s.frames = s.frames[:len(s.frames)-1]
		if len(s.frames) == 0 {
			e.out(s, "panic", nil)
			return nil
		}
		// the caller may itself be a deferred call being run
		return e.raise(s, s.panic)
	case 2:
		fr.unw = 0
		if fr.fn.Recover != nil {
			fr.pred, fr.block, fr.pc = nil, fr.fn.Recover, 0
			return []*State{s}
		}
		var ret []*Term
		res := fr.fn.Signature.Results()
		for i := 0; i < res.Len(); i++ {
			ret = append(ret, zeroTerm(res.At(i).Type()))
		}
		return e.doReturn(s, ret)
	case 3:
		fr.unw = 0
		fr.pc++
		return []*State{s}
	}
	e.Err = fmt.Errorf("defer machinery in %s", fnName(fr.fn))
	return nil
}

func (e *Engine) doReturn(s *State, ret []*Term) []*State {
	fr := s.top()
	s.frames = s.frames[:len(s.frames)-1]
	if fr.cont != nil {
		return fr.cont(e, s, ret)
	}
	if len(s.frames) == 0 {
		e.out(s, "return", ret)
		return nil
	}
	if fr.isDef {
		return e.contDefers(s)
	}
	c := s.top()
	if fr.bind != nil {
		if len(ret) == 1 {
			c.env[fr.bind] = ret[0]
		} else {
			c.env[fr.bind] = mk("tuple", "", ret...)
		}
	}
	c.pc++
	return []*State{s}
}

// bindRes gives a modelled call its result and moves on.
func (e *Engine) bindRes(s *State, bind ssa.Value, isDef bool, res *Term) []*State {
	if isDef {
		return e.contDefers(s)
	}
	fr := s.top()
	if bind != nil && res != nil {
		fr.env[bind] = res
	}
	fr.pc++
	return []*State{s}
}

func (e *Engine) hook(s *State, in ssa.Instruction, kind string, ts ...*Term) {
	if e.Hook != nil {
		e.Hook(e, s, in, kind, ts)
	}
}

// exec runs one instruction. done means the caller takes next as the successors.
func (e *Engine) exec(s *State, fr *Frame, in ssa.Instruction) (next []*State, done bool) {
	set := func(v ssa.Value, t *Term) {
		if t.Typ == nil && !t.isConst() {
			t.Typ = v.Type()
		}
		fr.env[v] = t
		fr.pc++
	}
	switch x := in.(type) {
	case *ssa.DebugRef:
		fr.pc++
	case *ssa.Alloc:
		o := mkObj("alloc", x.Type(), x)
		if x.Comment != "" {
			o.Aux += ":" + x.Comment
		}
		set(x, o)
	case *ssa.Phi:
		fr.pc++
	case *ssa.UnOp:
		return e.unop(s, fr, x)
	case *ssa.BinOp:
		a, b := e.val(s, x.X), e.val(s, x.Y)
		if x.Op == token.QUO || x.Op == token.REM {
			if bt, ok := x.Type().Underlying().(*types.Basic); ok && bt.Info()&types.IsInteger != 0 {
				e.hook(s, in, "div", a, b)
			}
		}
		if x.Op == token.SHL || x.Op == token.SHR {
			if bt, ok := x.Y.Type().Underlying().(*types.Basic); ok && bt.Info()&types.IsUnsigned == 0 && bt.Kind() != types.UntypedInt {
				e.hook(s, in, "shift", a, b)
			}
		}
		t := mkBinF(x.Op.String(), a, b, x.Type(), x.X.Type())
		if v, ok := t.intVal(); ok {
			t = wrapConst(v, x.Type())
		}
		set(x, t)
	case *ssa.FieldAddr:
		b := e.val(s, x.X)
		e.hook(s, in, "deref", b)
		t := mkFld(b, structFieldName(x.X.Type(), x.Field), x.Type())
		setOwn(t, typeKey(x.X.Type()))
		set(x, t)
	case *ssa.Field:
		v := e.val(s, x.X)
		st := x.X.Type().Underlying().(*types.Struct)
		set(x, fieldVal(v, x.Field, st))
	case *ssa.IndexAddr:
		b, i := e.val(s, x.X), e.val(s, x.Index)
		e.hook(s, in, "index", b, i)
		if b.Op == "list" {
			set(x, mkT("elemaddr", "", x.Type(), b, i))
			break
		}
		set(x, mkIdx(b, i, x.Type()))
	case *ssa.Index:
		v, i := e.val(s, x.X), e.val(s, x.Index)
		e.hook(s, in, "index", v, i)
		set(x, mkAt(v, i, x.Type()))
	case *ssa.Lookup:
		return e.lookup(s, fr, x)
	case *ssa.Slice:
		b := e.val(s, x.X)
		lo, hi := tNone, tNone
		if x.Low != nil {
			lo = e.val(s, x.Low)
		}
		if x.High != nil {
			hi = e.val(s, x.High)
		}
		e.hook(s, in, "slice", b, lo, hi)
		set(x, mkSlice(b, lo, hi, x.Type()))
	case *ssa.ChangeType:
		t := e.val(s, x.X)
		set(x, t)
	case *ssa.ChangeInterface:
		set(x, e.val(s, x.X))
	case *ssa.MakeInterface:
		t := e.val(s, x.X)
		if t.Typ == nil && !t.isConst() {
			t.Typ = x.X.Type()
		}
		set(x, t)
	case *ssa.Convert:
		set(x, e.convert(s, e.val(s, x.X), x.X.Type(), x.Type()))
	case *ssa.MultiConvert:
		set(x, e.convert(s, e.val(s, x.X), x.X.Type(), x.Type()))
	case *ssa.SliceToArrayPointer:
		set(x, mkT("app", "slice2arr", x.Type(), e.val(s, x.X)))
	case *ssa.MakeClosure:
		fn := x.Fn.(*ssa.Function)
		var b []*Term
		for _, v := range x.Bindings {
			b = append(b, e.val(s, v))
		}
		t := mkT("closure", fn.RelString(nil)+fmt.Sprint(fn.Pos()), x.Type(), b...)
		t.Fn = fn
		set(x, t)
	case *ssa.MakeMap:
		set(x, mkObj("map", x.Type(), x))
	case *ssa.MakeChan:
		o := mkObj("chan", x.Type(), x)
		o.Obj.Cap = e.val(s, x.Size)
		e.hook(s, in, "makechan", o.Obj.Cap)
		s.event(e, "makechan", "", []*Term{o, o.Obj.Cap}, in)
		set(x, o)
	case *ssa.MakeSlice:
		o := mkObj("slice", x.Type(), x)
		o.Obj.Len, o.Obj.Cap = e.val(s, x.Len), e.val(s, x.Cap)
		if st, ok := x.Type().Underlying().(*types.Slice); ok {
			o.Obj.Elem = st.Elem()
		}
		e.hook(s, in, "makeslice", o.Obj.Len, o.Obj.Cap)
		set(x, o)
	case *ssa.Range:
		v := e.val(s, x.X)
		t := mkSym("range", x.Type())
		t.Sym.Deps = []*Term{v}
		if _, ok := x.X.Type().Underlying().(*types.Map); ok {
			ev := s.event(e, "maprange", "", []*Term{v}, in)
			e.fire(s, ev)
		}
		set(x, t)
	case *ssa.Next:
		it := e.val(s, x.Iter)
		tt := x.Type().(*types.Tuple)
		ok := mkSym("next", tt.At(0).Type())
		k, v := mkSym("nextk", tt.At(1).Type()), mkSym("nextv", tt.At(2).Type())
		k.Sym.Deps, v.Sym.Deps, ok.Sym.Deps = []*Term{it}, []*Term{it}, []*Term{it}
		ev := s.event(e, "next", "", []*Term{it}, in)
		ev.Res = mk("tuple", "", ok, k, v)
		for i, t := range []*Term{ok, k, v} {
			t.Sym.Ev, t.Sym.Idx = ev, i
		}
		if it.Sym != nil && len(it.Sym.Deps) == 1 && !x.IsString {
			m := it.Sym.Deps[0]
			ev.Args = append(ev.Args, m)
			e.fire(s, ev)
			if mt := mapOf(m.Typ); mt != nil {
				if b, ok3 := mt.Key().Underlying().(*types.Basic); ok3 && b.Info()&(types.IsString|types.IsInteger|types.IsBoolean) != 0 {
					// until the map changes, looking the key up gives the value
					k.Typ, v.Typ = mt.Key(), mt.Elem()
					if s.maps[m] == nil {
						s.maps[m] = map[*Term][2]*Term{}
					}
					s.maps[m][k] = [2]*Term{v, ok}
				}
			}
		}
		set(x, ev.Res)
	case *ssa.Extract:
		t := e.val(s, x.Tuple)
		if t.Op == "tuple" && x.Index < len(t.Sub) {
			set(x, t.Sub[x.Index])
		} else {
			set(x, mkT("ext", itoa(x.Index), x.Type(), t))
		}
	case *ssa.TypeAssert:
		t := e.val(s, x.X)
		if x.CommaOk {
			ok := mkT("isa", types.TypeString(x.AssertedType, nil), types.Typ[types.Bool], t)
			if t == tNil {
				ok = tFalse
			} else if t.Op == "sym" && t.Sym != nil && t.Sym.Kind == "pool" {
				// a pool holds objects of one type
				ok = mkNot(mkBin("==", t, tNil, types.Typ[types.Bool]))
			} else if e.ofType(t, x.AssertedType) {
				ok = mkNot(mkBin("==", t, tNil, types.Typ[types.Bool]))
			}
			switch e.decide(s, ok) {
			case 1:
				set(x, mk("tuple", "", t, tTrue))
			case 0:
				set(x, mk("tuple", "", zeroTerm(x.AssertedType), tFalse))
			default:
				s2 := s.clone()
				s.forks++
				s2.forks++
				s.know(ok, true)
				s2.know(ok, false)
				fr.env[x] = mk("tuple", "", t, tTrue)
				fr.pc++
				f2 := s2.top()
				f2.env[x] = mk("tuple", "", zeroTerm(x.AssertedType), tFalse)
				f2.pc++
				return []*State{s2, s}, true
			}
		} else {
			e.hook(s, in, "typeassert", t)
			set(x, t)
		}
	case *ssa.Store:
		a, v := e.val(s, x.Addr), e.val(s, x.Val)
		e.hook(s, in, "deref", a)
		if !s.private(a) || a.Op == "idx" {
			ev := s.event(e, "store", "", []*Term{a, v}, in)
			if s.private(a) {
				ev.Note = "private"
			}
			e.fire(s, ev)
		}
		e.store(s, a, v, x.Val.Type())
		fr.pc++
	case *ssa.MapUpdate:
		m, k, v := e.val(s, x.Map), e.val(s, x.Key), e.val(s, x.Value)
		ev := s.event(e, "mapset", "", []*Term{m, k, v}, in)
		ev.Note = keyPanics(x.Key)
		e.fire(s, ev)
		if !s.private(m) {
			e.escape(s, v)
		}
		if p := e.maybePanic(s, ev, keyPanics(x.Key) != "", "unhashable map key"); p != nil {
			next = append(next, p...)
		}
		s.mapver[m]++
		s.maps[m] = map[*Term][2]*Term{k: {v, tTrue}}
		fr.pc++
		if next != nil {
			return append(next, s), true
		}
	case *ssa.Send:
		c, v := e.val(s, x.Chan), e.val(s, x.X)
		ev := s.event(e, "send", "", []*Term{c, v}, in)
		e.fire(s, ev)
		e.escape(s, v)
		if p := e.maybePanic(s, ev, e.mayBeClosed(s, x.Chan.Type(), c), "send on closed channel"); p != nil {
			next = append(next, p...)
		}
		e.bump(s)
		fr.pc++
		if next != nil {
			return append(next, s), true
		}
	case *ssa.Select:
		return e.sel(s, fr, x)
	case *ssa.If:
		c := e.val(s, x.Cond)
		switch e.decide(s, c) {
		case 1:
			if !e.jump(s, fr, fr.block.Succs[0]) {
				return nil, true
			}
		case 0:
			if !e.jump(s, fr, fr.block.Succs[1]) {
				return nil, true
			}
		default:
			s2 := s.clone()
			s.forks++
			s2.forks++
			s.know(c, true)
			s2.know(c, false)
			if e.jump(s2, s2.top(), fr.block.Succs[1]) {
				next = append(next, s2)
			}
			if e.jump(s, fr, fr.block.Succs[0]) {
				next = append(next, s)
			}
			return next, true
		}
	case *ssa.Jump:
		if !e.jump(s, fr, fr.block.Succs[0]) {
			return nil, true
		}
	case *ssa.Return:
		var ret []*Term
		for _, r := range x.Results {
			ret = append(ret, e.val(s, r))
		}
		return e.doReturn(s, ret), true
	case *ssa.RunDefers:
		fr.unw = 3
		return e.contDefers(s), true
	case *ssa.Panic:
		ev := s.event(e, "panic", "", []*Term{e.val(s, x.X)}, in)
		e.fire(s, ev)
		return e.raise(s, &PanicInfo{Kind: "explicit panic", Ev: ev, Val: e.val(s, x.X)}), true
	case *ssa.Defer:
		f, args := e.callee(s, x.Common())
		fr.defers = append(fr.defers, Deferred{x, f, args})
		fr.pc++
	case *ssa.Go:
		return e.goStmt(s, fr, x)
	case *ssa.Call:
		f, args := e.callee(s, x.Common())
		return e.invoke(s, x, f, args, x.Common(), x, false), true
	default:
		e.Err = fmt.Errorf("instruction %T in %s", in, fnName(fr.fn))
		return nil, true
	}
	return nil, false
}

// callee evaluates what is called: a function, closure, builtin or a value; for interface calls the receiver is args[0].
func (e *Engine) callee(s *State, c *ssa.CallCommon) (f *Term, args []*Term) {
	if c.IsInvoke() {
		args = append(args, e.val(s, c.Value))
	} else {
		f = e.val(s, c.Value)
	}
	for _, a := range c.Args {
		t := e.val(s, a)
		if t.Typ == nil && !t.isConst() {
			t.Typ = a.Type()
		}
		args = append(args, t)
	}
	return
}

func wrapConst(v int64, t types.Type) *Term {
	b, ok := t.Underlying().(*types.Basic)
	if !ok || b.Info()&types.IsInteger == 0 {
		return tInt(v)
	}
	size, uns := intSize(b)
	if size == 8 {
		return tInt(v)
	}
	bits := uint(size * 8)
	v &= 1<<bits - 1
	if !uns && v>>(bits-1) == 1 {
		v -= 1 << bits
	}
	return tInt(v)
}

func (e *Engine) convert(s *State, t *Term, from, to types.Type) *Term {
	fu, tu := from.Underlying(), to.Underlying()
	fb, fok := fu.(*types.Basic)
	tb, tok := tu.(*types.Basic)
	if fok && tok {
		if fb.Info()&types.IsInteger != 0 && tb.Info()&types.IsInteger != 0 {
			if v, ok := t.intVal(); ok {
				if v >= 0 || tb.Info()&types.IsUnsigned == 0 {
					return wrapConst(v, to)
				}
			}
			if lossless(fb, tb) {
				return t
			}
			if t.Op == "conv" && len(t.Sub) == 1 && t.Sub[0].Typ != nil {
				// uint64(int64(x)) of the same size
				if ib, ok := t.Sub[0].Typ.Underlying().(*types.Basic); ok && ib.Info()&types.IsInteger != 0 {
					is, iu := intSize(ib)
					fs, _ := intSize(fb)
					ts, tu := intSize(tb)
					if fs >= ts && is >= fs {
						return e.convert(s, t.Sub[0], t.Sub[0].Typ, to)
					}
					if is == ts && iu == tu && fs == is {
						return t.Sub[0]
					}
				}
			}
			if sz, uns := intSize(tb); true {
				n := "i"
				if uns {
					n = "u"
				}
				return mkT("conv", n+itoa(sz*8), tb, t)
			}
		}
		if fb.Info()&types.IsString != 0 && tb.Info()&types.IsString != 0 {
			return t
		}
		return mkT("conv", types.TypeString(to, nil), to, t)
	}
	if fok && fb.Info()&types.IsString != 0 {
		if !byteElems(tu) {
			return mkT("app", "runes", to, t)
		}
		if t.Op == "conv" && t.Aux == "string" {
			return mkT("conv", "bytes", to, t.Sub[0])
		}
		return mkT("conv", "bytes", to, t)
	}
	if tok && tb.Info()&types.IsString != 0 {
		if !byteElems(fu) {
			return mkT("app", "text", to, t)
		}
		if t.Op == "conv" && t.Aux == "bytes" {
			if len(t.Sub) == 1 && isStringTerm(t.Sub[0]) {
				return t.Sub[0]
			}
		}
		c := e.content(s, t)
		if c == tNil {
			return tStr("")
		}
		return mkT("conv", "string", to, c)
	}
	if _, ok := from.(*types.TypeParam); ok {
		return t
	}
	if _, ok := to.(*types.TypeParam); ok {
		return t
	}
	if types.Identical(fu, tu) {
		return t
	}
	return mkT("conv", types.TypeString(to, nil), to, t)
}

// byteElems: a slice of bytes.
func byteElems(t types.Type) bool {
	sl, ok := t.(*types.Slice)
	if !ok {
		return true
	}
	b, ok := sl.Elem().Underlying().(*types.Basic)
	return !ok || b.Kind() == types.Uint8
}

func isStringTerm(t *Term) bool {
	return isStringy(t.Typ) || t.Op == "const" && strings.HasPrefix(t.Aux, "\"") || t.Op == "concat"
}

func (e *Engine) unop(s *State, fr *Frame, x *ssa.UnOp) ([]*State, bool) {
	v := e.val(s, x.X)
	set := func(t *Term) {
		if t.Typ == nil && !t.isConst() {
			t.Typ = x.Type()
		}
		fr.env[x] = t
		fr.pc++
	}
	switch x.Op {
	case token.MUL:
		e.hook(s, x, "deref", v)
		if v.Op == "elemaddr" {
			set(mkAt(v.Sub[0], v.Sub[1], x.Type()))
			return nil, false
		}
		t := e.load(s, v, x.Type())
		if !s.private(v) {
			ev := s.event(e, "load", "", []*Term{v}, x)
			ev.Res = t
			e.fire(s, ev)
		}
		if g, ok := x.X.(*ssa.Global); ok && e.P.errVar(g) {
			s.know(mkBin("==", t, tNil, nil), false)
		}
		set(t)
	case token.NOT:
		set(mkNot(v))
	case token.SUB:
		if n, ok := v.intVal(); ok {
			set(tInt(-n))
		} else {
			set(mkT("un", "-", x.Type(), v))
		}
	case token.XOR:
		set(mkT("un", "^", x.Type(), v))
	case token.ARROW:
		ev := s.event(e, "recv", "", []*Term{v}, x)
		if x.CommaOk {
			tt := x.Type().(*types.Tuple)
			r := mkSym("recv", tt.At(0).Type())
			ok := mkSym("recvok", tt.At(1).Type())
			r.Sym.Ev, ok.Sym.Ev, ok.Sym.Idx = ev, ev, 1
			r.Sym.Deps, ok.Sym.Deps = []*Term{v}, []*Term{v}
			if !e.mayBeClosed(s, x.X.Type(), v) {
				s.know(ok, true)
				ok = tTrue
			}
			ev.Res = mk("tuple", "", r, ok)
		} else {
			r := mkSym("recv", x.Type())
			r.Sym.Ev = ev
			r.Sym.Deps = []*Term{v}
			ev.Res = r
		}
		e.fire(s, ev)
		e.bump(s)
		set(ev.Res)
	}
	return nil, false
}

func keyPanics(k ssa.Value) string {
	if mi, ok := k.(*ssa.MakeInterface); ok {
		return keyTypePanics(mi.X.Type())
	}
	return keyTypePanics(k.Type())
}

func keyTypePanics(t types.Type) string {
	if tp, ok := t.(*types.TypeParam); ok {
		if c, ok := tp.Constraint().Underlying().(*types.Interface); ok {
			if onlyBasic(c) {
				return ""
			}
		}
		return "unhashable"
	}
	if _, ok := t.Underlying().(*types.Interface); ok {
		return "unhashable"
	}
	return ""
}

func onlyBasic(c *types.Interface) bool {
	for i := 0; i < c.NumEmbeddeds(); i++ {
		switch u := c.EmbeddedType(i).(type) {
		case *types.Union:
			return true
		default:
			if ci, ok := u.Underlying().(*types.Interface); ok && onlyBasic(ci) {
				return true
			}
			if _, ok := u.Underlying().(*types.Basic); ok {
				return true
			}
		}
	}
	return false
}

func termKeyPanics(t *Term) bool {
	if t == nil || t.isConst() || t.Typ == nil {
		return false
	}
	return keyTypePanics(t.Typ) != ""
}

func (e *Engine) lookup(s *State, fr *Frame, x *ssa.Lookup) ([]*State, bool) {
	m, k := e.val(s, x.X), e.val(s, x.Index)
	if _, ok := x.X.Type().Underlying().(*types.Map); !ok { // string
		e.hook(s, x, "index", m, k)
		fr.env[x] = mkAt(m, k, x.Type())
		fr.pc++
		return nil, false
	}
	ev := s.event(e, "mapget", "", []*Term{m, k}, x)
	e.fire(s, ev)
	var next []*State
	if !termKeyPanics(k) && k.Typ != nil {
		// hashable
	} else if p := e.maybePanic(s, ev, keyPanics(x.Index) != "", "unhashable map key"); p != nil {
		next = append(next, p...)
	}
	v, ok := e.mapget(s, m, k, x.X.Type().Underlying().(*types.Map).Elem(), ev)
	if x.CommaOk {
		ev.Res = mk("tuple", "", v, ok)
		fr.env[x] = ev.Res
	} else {
		ev.Res = mk("tuple", "", v, ok)
		fr.env[x] = v
	}
	fr.pc++
	if next != nil {
		return append(next, s), true
	}
	return nil, false
}

func mapOf(t types.Type) *types.Map {
	if t == nil {
		return nil
	}
	m, _ := t.Underlying().(*types.Map)
	return m
}

func (e *Engine) mapget(s *State, m, k *Term, vt types.Type, ev *Event) (v, ok *Term) {
	if c, has := s.maps[m][k]; has {
		return c[0], c[1]
	}
	if m.Op == "obj" && s.mapver[m] == 0 && s.private(m) {
		return zeroTerm(vt), tFalse
	}
	v = mkSym("mapget", vt)
	ok = mkSym("mapok", types.Typ[types.Bool])
	v.Sym.Ev, ok.Sym.Ev, ok.Sym.Idx = ev, ev, 1
	if e.P != nil && e.P.neverNil(vt) {
		v.Sym.There = ok
	}
	v.Sym.Deps, ok.Sym.Deps = []*Term{m, k}, []*Term{m, k}
	if s.maps[m] == nil {
		s.maps[m] = map[*Term][2]*Term{}
	}
	s.maps[m][k] = [2]*Term{v, ok}
	return
}

func (e *Engine) mayBeClosed(s *State, t types.Type, c *Term) bool {
	ch, ok := t.Underlying().(*types.Chan)
	if !ok {
		return true
	}
	if !isRepoChan(c) {
		return true
	}
	return e.P.closedT[chanKey(ch.Elem())]
}

// isRepoChan: channels that come out of library calls (timers, contexts) are the library's business.
func isRepoChan(c *Term) bool {
	if c.Op == "app" || c.Op == "sym" && c.Sym != nil && c.Sym.Kind == "call" {
		return false
	}
	return true
}

// maybePanic forks a panicking state when the operation may panic and anyone would notice.
func (e *Engine) maybePanic(s *State, ev *Event, may bool, why string) []*State {
	if !may || e.NoPanic {
		return nil
	}
	if !e.PanicAll && len(s.locks) == 0 && !s.anyDefer() {
		return nil
	}
	s2 := s.clone()
	s2.forks++
	return e.raise(s2, &PanicInfo{Kind: why, Ev: ev})
}

func (s *State) anyDefer() bool {
	for _, f := range s.frames {
		if len(f.defers) > 0 {
			return true
		}
	}
	return false
}

func (e *Engine) sel(s *State, fr *Frame, x *ssa.Select) ([]*State, bool) {
	var next []*State
	n := len(x.States)
	total := n
	if !x.Blocking {
		total++
	}
	for i := 0; i < total; i++ {
		s2 := s
		if i < total-1 {
			s2 = s.clone()
		}
		s2.forks++
		f2 := s2.top()
		res := []*Term{tInt(int64(i)), tTrue}
		if i == n {
			res[0], res[1] = tInt(-1), tFalse
		}
		var cs []*Term
		for _, st := range x.States {
			cs = append(cs, e.val(s2, st.Chan))
		}
		ev := s2.event(e, "select", "", cs, x)
		ev.Note = "default"
		if !x.Blocking {
			ev.Fn = "nonblocking"
		} else {
			ev.Fn = "blocking"
		}
		dead := false
		for j, st := range x.States {
			if st.Dir != types.RecvOnly {
				continue
			}
			et := st.Chan.Type().Underlying().(*types.Chan).Elem()
			if j == i {
				r := mkSym("recv", et)
				r.Sym.Ev = ev
				r.Sym.Deps = []*Term{cs[j]}
				if e.mayBeClosed(s2, st.Chan.Type(), cs[j]) {
					ok := mkSym("recvok", types.Typ[types.Bool])
					ok.Sym.Ev = ev
					res[1] = ok
				}
				res = append(res, r)
				ev.Res = r
			} else {
				res = append(res, zeroTerm(et))
			}
		}
		if i < n {
			st := x.States[i]
			if cs[i] == tNil {
				dead = true // a nil channel is never ready
			}
			if st.Dir == types.SendOnly {
				v := e.val(s2, st.Send)
				ev.Note = "send"
				ev.Args = append([]*Term{cs[i], v}, cs...)
				e.escape(s2, v)
				if !dead && e.mayBeClosed(s2, st.Chan.Type(), cs[i]) {
					next = append(next, e.maybePanic(s2, ev, true, "send on closed channel")...)
				}
			} else {
				ev.Note = "recv"
				ev.Args = append([]*Term{cs[i]}, cs...)
			}
		}
		if dead {
			continue
		}
		e.fire(s2, ev)
		e.bump(s2)
		f2.env[x] = mk("tuple", "", res...)
		f2.pc++
		next = append(next, s2)
	}
	return next, true
}

func (e *Engine) goStmt(s *State, fr *Frame, x *ssa.Go) ([]*State, bool) {
	f, args := e.callee(s, x.Common())
	ev := s.event(e, "go", calleeName(x.Common(), f), args, x)
	if f != nil {
		ev.Args = append([]*Term{f}, args...)
	}
	e.fire(s, ev)
	fn, binds := e.resolve(s, f, args, x.Common())
	ev.Uses = fn
	if fn != nil && e.GoBodies && !e.P.releases(fn) {
		// the goroutine keeps nothing of what is held here: it is analysed on its own
	} else if fn != nil && e.Shared != nil && !e.measuring && len(fn.FreeVars) == 0 && (e.GoAlways || e.GoBodies && len(s.locks) > 0) {
		sum := e.summary(fn, args, s.locks)
		if sum.busy {
			ev.Note = "recursive"
			s.locks = nil
		} else {
			var keep, given []Held
			for i, h := range s.locks {
				rel, all := sum.released(i)
				if rel == 0 {
					keep = append(keep, h)
					continue
				}
				if rel < all {
					ev.Note = "mixed:" + h.Key.String()
				}
				given = append(given, h)
			}
			if len(keep) > 0 {
				e.summary(fn, args, given)
			}
			s.locks = keep
		}
		ev.Body = []*Outcome{}
	} else if fn != nil && (e.GoAlways || e.GoBodies && len(s.locks) > 0) {
		for _, q := range e.spawn {
			if q == fn {
				// coinduction: the goroutine is being explored; assume it does with the lock what is being checked
				ev.Note = "recursive"
				s.locks = nil
				fr.pc++
				return nil, false
			}
		}
		sub := *e
		sub.spawn = append(append([]*ssa.Function(nil), e.spawn...), fn)
		sub.Outs = nil
		s2 := s.clone()
		s2.frames = nil
		s2.panic = nil
		for _, a := range args {
			e.escape(s2, a)
		}
		outs := sub.RunFrom(fn, args, binds, s2)
		if sub.Err != nil {
			e.Err = sub.Err
		}
		// a lock the goroutine releases on every way out was handed to it
		var keep, given []Held
		for _, h := range s.locks {
			rel, all := 0, 0
			for _, o := range outs {
				if o.Kind == "loop" {
					continue
				}
				all++
				held := false
				for _, g := range o.S.locks {
					if g.Key == h.Key && g.Ev == h.Ev {
						held = true
					}
				}
				if !held {
					rel++
				}
			}
			if rel == 0 {
				keep = append(keep, h)
				continue
			}
			if rel < all {
				ev.Note = "mixed:" + h.Key.String()
			}
			given = append(given, h)
		}
		if len(keep) > 0 { // what the spawner keeps does not protect the goroutine
			sub.Outs, sub.Err = nil, nil
			s3 := s.clone()
			s3.frames, s3.panic = nil, nil
			s3.locks = given
			for _, a := range args {
				e.escape(s3, a)
			}
			outs = sub.RunFrom(fn, args, binds, s3)
			if sub.Err != nil {
				e.Err = sub.Err
			}
		}
		ev.Body = outs
		s.locks = keep
	}
	e.escape(s, f)
	for _, a := range args {
		e.escape(s, a)
	}
	fr.pc++
	return nil, false
}

func calleeName(c *ssa.CallCommon, f *Term) string {
	if c.IsInvoke() {
		return "invoke " + typeKey(c.Value.Type()) + "." + c.Method.Name()
	}
	if f == nil {
		return "?"
	}
	if f.Fn != nil {
		g := f.Fn
		if o := g.Origin(); o != nil {
			g = o
		}
		return g.RelString(nil)
	}
	if f.Op == "builtin" {
		return "builtin " + f.Aux
	}
	return "dynamic"
}
