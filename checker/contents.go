package main

// What the containers of the module hold, found by looking at everything that is put into them.

import (
	"go/token"
	"go/types"
	"regexp"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// smapField: the field a sync.Map is (or is reached through), or nil.
func smapField(v ssa.Value) *types.Var {
	if u, ok := v.(*ssa.UnOp); ok && u.Op == token.MUL {
		v = u.X
	}
	fa, ok := v.(*ssa.FieldAddr)
	if !ok {
		return nil
	}
	t := fa.X.Type()
	if p, ok := t.Underlying().(*types.Pointer); ok {
		t = p.Elem()
	}
	st, ok := t.Underlying().(*types.Struct)
	if !ok {
		return nil
	}
	return st.Field(fa.Field).Origin()
}

const btreePre = "(*github.com/google/btree.BTree)."

var tparamRe = regexp.MustCompile(`\[[^\]]*\]`)

// contentType: a name for a type under which different methods of one generic type know it.
func contentType(t types.Type) string {
	if tp, ok := t.(*types.TypeParam); ok {
		return "$" + itoa(tp.Index())
	}
	if p, ok := t.(*types.Pointer); ok {
		return "*" + contentType(p.Elem())
	}
	return tparamRe.ReplaceAllString(types.TypeString(t, nil), "")
}

func smapMethod(c *ssa.CallCommon) string {
	f := c.StaticCallee()
	if f == nil || !strings.HasPrefix(f.String(), "(*sync.Map).") {
		return ""
	}
	return f.Name()
}

// smapHolds: every key (idx 0) or value (idx 1) ever put into the sync.Map of the field has the type given.
func (p *Prog) smapHolds(fv *types.Var, idx int, t types.Type) bool {
	if p.smapC == nil {
		p.smapC = map[*types.Var][2]map[string]bool{}
		put := func(fv *types.Var, i int, v ssa.Value) {
			k := "?"
			if mi, ok := v.(*ssa.MakeInterface); ok {
				k = contentType(mi.X.Type())
			} else if ct, ok := v.(*ssa.ChangeType); ok {
				if tp, ok := ct.X.Type().(*types.TypeParam); ok {
					k = contentType(tp)
				}
			}
			c := p.smapC[fv]
			if c[i] == nil {
				c[i] = map[string]bool{}
			}
			c[i][k] = true
			p.smapC[fv] = c
		}
		for _, f := range p.Funcs {
			for _, b := range f.Blocks {
				for _, in := range b.Instrs {
					ci, ok := in.(ssa.CallInstruction)
					if !ok {
						continue
					}
					c := ci.Common()
					if f := c.StaticCallee(); f != nil && strings.HasPrefix(f.String(), btreePre) {
						if f.Name() == "ReplaceOrInsert" {
							put(smapField(c.Args[0]), 1, c.Args[1])
						}
						continue
					}
					m := smapMethod(c)
					if m == "" {
						// a sync.Map that is handed on may be filled anywhere
						for _, a := range c.Args {
							if fv := smapField(a); fv != nil && (strings.HasSuffix(a.Type().String(), "sync.Map") || strings.HasSuffix(a.Type().String(), "btree.BTree")) {
								put(fv, 0, nil)
								put(fv, 1, nil)
							}
						}
						continue
					}
					fv := smapField(c.Args[0])
					switch m {
					case "Store", "Swap", "LoadOrStore":
						put(fv, 0, c.Args[1])
						put(fv, 1, c.Args[2])
					case "CompareAndSwap":
						put(fv, 0, c.Args[1])
						put(fv, 1, c.Args[3])
					}
				}
			}
		}
	}
	if u := p.smapC[nil]; u[0] != nil {
		return false // something is put into a map that is not known
	}
	c := p.smapC[fv][idx]
	return fv != nil && len(c) == 1 && c[contentType(t)]
}

// ofType: the asserted type is that of everything the value can be, nil aside.
func (e *Engine) ofType(t *Term, typ types.Type) bool {
	if t.Op == "sym" && t.Sym != nil && t.Sym.Ev != nil && t.Sym.Ev.Kind == "call" && strings.HasPrefix(t.Sym.Ev.Fn, btreePre) && e.P != nil {
		// the items a tree gives back
		ci, ok := t.Sym.Ev.Instr.(ssa.CallInstruction)
		return ok && len(ci.Common().Args) > 0 && e.P.smapHolds(smapField(ci.Common().Args[0]), 1, typ)
	}
	if t.Op != "sym" || t.Sym == nil || t.Sym.Ev == nil || t.Sym.Ev.Kind != "smap" && t.Sym.Ev.Kind != "iterate-next" || e.P == nil {
		return false
	}
	ci, ok := t.Sym.Ev.Instr.(ssa.CallInstruction)
	if !ok || smapMethod(ci.Common()) == "" {
		return false
	}
	idx := 1
	if smapMethod(ci.Common()) == "Range" {
		idx = t.Sym.Idx
	} else if t.Sym.Idx != 0 {
		return false
	}
	return e.P.smapHolds(smapField(ci.Common().Args[0]), idx, typ)
}

// neverNil: no map of the module with elements of this type is ever given a nil one.
func (p *Prog) neverNil(elem types.Type) bool {
	if _, ok := elem.Underlying().(*types.Pointer); !ok {
		return false
	}
	if p.nilElem == nil {
		p.nilElem = map[string]bool{}
		for _, f := range p.Funcs {
			for _, b := range f.Blocks {
				for _, in := range b.Instrs {
					if mu, ok := in.(*ssa.MapUpdate); ok && !notNil(mu.Value, 0) {
						p.nilElem[contentType(mu.Value.Type())] = true
					}
				}
			}
		}
	}
	return !p.nilElem[contentType(elem)]
}

// notNil: the pointer cannot be nil, whatever happens.
func notNil(v ssa.Value, depth int) bool {
	if depth > 4 {
		return false
	}
	switch x := v.(type) {
	case *ssa.Alloc, *ssa.FieldAddr, *ssa.IndexAddr, *ssa.Global:
		return true
	case *ssa.Phi:
		for _, e := range x.Edges {
			if !notNil(e, depth+1) {
				return false
			}
		}
		return true
	case *ssa.Call:
		f := x.Call.StaticCallee()
		if f == nil {
			return false
		}
		switch f.String() {
		case "(*container/list.List).PushFront", "(*container/list.List).PushBack":
			return true
		}
		if len(f.Blocks) == 0 || f.Signature.Results().Len() != 1 {
			return false
		}
		for _, b := range f.Blocks {
			if r, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return); ok && !notNil(r.Results[0], depth+1) {
				return false
			}
		}
		return true
	}
	return false
}
