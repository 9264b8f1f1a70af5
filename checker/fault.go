package main

import (
	"go/token"
	"go/types"

	"golang.org/x/tools/go/ssa"
)

// fault says why an instruction may panic in this state, or "" when it is shown not to (or is of a kind that is
// not examined). Bounds come from the branch conditions passed and the linear relations they imply.
func (e *Engine) fault(s *State, fr *Frame, in ssa.Instruction) string {
	inRange := func(i, n *Term) bool {
		ar := e.arith(s)
		return ar.le(tZero, i, 0) && ar.le(i, n, -1)
	}
	switch x := in.(type) {
	case *ssa.IndexAddr:
		b, i := e.val(s, x.X), e.val(s, x.Index)
		n := mkBaseLen(b)
		if pt, ok := x.X.Type().Underlying().(*types.Pointer); ok {
			if at, ok := pt.Elem().Underlying().(*types.Array); ok {
				n = tInt(at.Len())
				if isUint8(x.Index.Type()) && at.Len() >= 256 {
					return ""
				}
			}
		}
		if k := thisProg.tableLen(x.X); k > 0 {
			n = tInt(k)
			if isUint8(x.Index.Type()) && k >= 256 {
				return ""
			}
		}
		if !inRange(i, n) {
			return "index " + i.String() + " may be outside " + b.String()
		}
	case *ssa.Index:
		b, i := e.val(s, x.X), e.val(s, x.Index)
		n := mkLen(b)
		if at, ok := x.X.Type().Underlying().(*types.Array); ok {
			n = tInt(at.Len())
			if isUint8(x.Index.Type()) && at.Len() >= 256 {
				return ""
			}
		}
		if !inRange(i, n) {
			return "index " + i.String() + " may be outside " + b.String()
		}
	case *ssa.Lookup:
		if _, ok := x.X.Type().Underlying().(*types.Map); !ok {
			b, i := e.val(s, x.X), e.val(s, x.Index)
			if !inRange(i, mkLen(b)) {
				return "index " + i.String() + " may be outside " + b.String()
			}
		}
	case *ssa.Slice:
		b := e.val(s, x.X)
		n, limit := mkBaseLen(b), mkBaseCap(b)
		if isStringy(x.X.Type()) {
			limit = n
		}
		lo, hi := tZero, n
		if x.Low != nil {
			lo = e.val(s, x.Low)
		}
		if x.High != nil {
			hi = e.val(s, x.High)
		}
		if x.Low == nil && x.High == nil {
			return ""
		}
		ar := e.arith(s)
		okHi := hi == n || ar.le(hi, n, 0) || ar.le(hi, limit, 0)
		if !ar.le(tZero, lo, 0) || !ar.le(lo, hi, 0) || !okHi {
			return "slice bounds " + lo.String() + ":" + hi.String() + " may be outside " + b.String()
		}
	case *ssa.BinOp:
		if x.Op == token.QUO || x.Op == token.REM {
			if bt, ok := x.Type().Underlying().(*types.Basic); ok && bt.Info()&types.IsInteger != 0 {
				d := e.val(s, x.Y)
				if e.decide(s, mkBin("==", d, tZero, nil)) != 0 {
					return "division by " + d.String() + " that may be zero"
				}
			}
		}
		if x.Op == token.SHL || x.Op == token.SHR {
			if bt, ok := x.Y.Type().Underlying().(*types.Basic); ok && bt.Info()&types.IsUnsigned == 0 {
				d := e.val(s, x.Y)
				if e.decide(s, mkBin("<", d, tZero, nil)) != 0 {
					return "shift by " + d.String() + " that may be negative"
				}
			}
		}
	case *ssa.TypeAssert:
		if !x.CommaOk {
			t := e.val(s, x.X)
			if t.Typ != nil && types.Identical(t.Typ, x.AssertedType) {
				return ""
			}
			if tp, ok := t.Typ.(*types.TypeParam); ok && types.Identical(tp, x.AssertedType) {
				return ""
			}
			if e.decide(s, mkT("isa", types.TypeString(x.AssertedType, nil), types.Typ[types.Bool], t)) == 1 {
				return ""
			}
			return "type assertion on " + t.String()
		}
	case *ssa.MakeSlice:
		n, c := e.val(s, x.Len), e.val(s, x.Cap)
		ar := e.arith(s)
		if !ar.le(tZero, n, 0) || !ar.le(n, c, 0) {
			return "slice of length " + n.String() + " that may be negative"
		}
	case *ssa.MakeChan:
		n := e.val(s, x.Size)
		if !e.arith(s).le(tZero, n, 0) {
			return "channel of size " + n.String() + " that may be negative"
		}
	case *ssa.SliceToArrayPointer:
		if pt, ok := x.Type().Underlying().(*types.Pointer); ok {
			if at, ok := pt.Elem().Underlying().(*types.Array); ok {
				if !e.arith(s).le(tInt(at.Len()), mkLen(e.val(s, x.X)), 0) {
					return "conversion of a slice that may be too short"
				}
			}
		}
	}
	return ""
}

// allFaults: bounds, nilness and what calls outside the repository need.
func (e *Engine) allFaults(s *State, fr *Frame, in ssa.Instruction) string {
	if why := e.fault(s, fr, in); why != "" {
		return why
	}
	if why := e.nilFault(s, fr, in); why != "" {
		return why
	}
	return e.callFault(s, fr, in)
}

// nilFault: is the address dereferenced here possibly nil? Only values that a call, a lookup or a comparison on
// the path shows may be nil are considered.
func (e *Engine) nilFault(s *State, fr *Frame, in ssa.Instruction) string {
	var p *Term
	switch x := in.(type) {
	case *ssa.UnOp:
		if x.Op != token.MUL {
			return ""
		}
		p = e.val(s, x.X)
	case *ssa.FieldAddr:
		p = e.val(s, x.X)
	case *ssa.Store:
		p = e.val(s, x.Addr)
	default:
		return ""
	}
	if p == tNil {
		return "nil is dereferenced"
	}
	if nonnil(p) {
		return ""
	}
	switch e.decide(s, mkBin("==", p, tNil, nil)) {
	case 0:
		return ""
	case 1:
		return "nil is dereferenced"
	}
	if p.Op == "sym" && p.Sym != nil {
		switch p.Sym.Kind {
		case "mapget", "call":
			if _, er := madeBy(p); er != nil && s.nilErr(er) == 1 {
				return ""
			}
			return p.String() + " may be nil"
		}
	}
	return ""
}

// unfault records what is known once an instruction has not panicked.
func (e *Engine) unfault(s *State, in ssa.Instruction) {
	inRange := func(i, n *Term) {
		if intLike(i) && intLike(n) {
			s.know(mkBin("<", i, tZero, nil), false)
			s.know(mkBin("<", i, n, nil), true)
		}
	}
	switch x := in.(type) {
	case *ssa.BinOp:
		if x.Op == token.QUO || x.Op == token.REM {
			s.know(mkBin("==", e.val(s, x.Y), tZero, nil), false)
		}
	case *ssa.IndexAddr:
		b := e.val(s, x.X)
		n := mkBaseLen(b)
		if pt, ok := x.X.Type().Underlying().(*types.Pointer); ok {
			if at, ok := pt.Elem().Underlying().(*types.Array); ok {
				n = tInt(at.Len())
			}
		}
		inRange(e.val(s, x.Index), n)
	case *ssa.Lookup:
		if _, ok := x.X.Type().Underlying().(*types.Map); !ok {
			inRange(e.val(s, x.Index), mkLen(e.val(s, x.X)))
		}
	case *ssa.TypeAssert:
		s.know(mkT("isa", types.TypeString(x.AssertedType, nil), types.Typ[types.Bool], e.val(s, x.X)), true)
	}
}

func isUint8(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Kind() == types.Uint8
}

// tableLen: the length of a slice that is a package variable, given a literal and never written after; or -1.
func (p *Prog) tableLen(v ssa.Value) int64 {
	u, ok := v.(*ssa.UnOp)
	if !ok || u.Op != token.MUL || p == nil {
		return -1
	}
	g, ok := u.X.(*ssa.Global)
	if !ok || g.Pkg == nil || p.SPkgs[g.Pkg.Pkg.Path()] == nil || !p.constGlobal(g) {
		return -1
	}
	sl, ok := p.initOf(g).(*ssa.Slice)
	if !ok || sl.Low != nil || sl.High != nil {
		return -1
	}
	if pt, ok := sl.X.Type().Underlying().(*types.Pointer); ok {
		if at, ok := pt.Elem().Underlying().(*types.Array); ok {
			return at.Len()
		}
	}
	return -1
}
