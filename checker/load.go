package main

import (
	"fmt"
	"go/token"
	"go/types"
	"os"
	"path/filepath"
	"sort"
	"strings"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

const modPath = "github.com/donnie4w/gofer"

// Prog is the resolved program under analysis.
type Prog struct {
	errVars map[*ssa.Global]bool
	relTab  map[*ssa.Function]bool
	Repo    string
	Fset    *token.FileSet
	SSA     *ssa.Program
	Pkgs    map[string]*packages.Package // by path
	SPkgs   map[string]*ssa.Package
	Funcs   []*ssa.Function // all repo functions with bodies, including closures
	inRepo  map[*ssa.Function]bool
	unst    map[string]string // field key -> where it is written outside construction
	closeN  map[string]int    // how many close() calls there are for channels of an element type
	closedT map[string]bool   // channel element types that some close() closes
	stores  map[string][]ssa.Value
	goos    string
	usedPut map[string]bool // field keys whose map content changes outside construction
	impl    map[string][]*types.Named
	smapC   map[*types.Var][2]map[string]bool // what is put into each sync.Map
	nilElem map[string]bool                   // element types of maps that may be given nil
}

func load(repo, goos string, patterns ...string) (*Prog, error) {
	verif := os.Getenv("VERIF_ROOT")
	tmp, err := os.MkdirTemp("", "gofercheck")
	if err != nil {
		return nil, err
	}
	defer os.RemoveAll(tmp)
	gm, err := os.ReadFile(filepath.Join(repo, "go.mod"))
	if err != nil {
		return nil, err
	}
	extra := fmt.Sprintf("\nreplace github.com/donnie4w/ico => %s/stubs/ico\nreplace github.com/chai2010/webp => %s/stubs/webp\n", verif, verif)
	if err := os.WriteFile(tmp+"/m.mod", append(gm, extra...), 0644); err != nil {
		return nil, err
	}
	gs, err := os.ReadFile(filepath.Join(verif, "checker", "gofer.sum"))
	if err != nil {
		return nil, err
	}
	if err := os.WriteFile(tmp+"/m.sum", gs, 0644); err != nil {
		return nil, err
	}
	env := append(os.Environ(), "CGO_ENABLED=0", "GOFLAGS=-mod=mod -modfile="+tmp+"/m.mod", "GOPROXY=off", "GOTOOLCHAIN=local", "GOSUMDB=off", "GOWORK=off")
	if goos != "" {
		env = append(env, "GOOS="+goos, "GOARCH=amd64")
	}
	fset := token.NewFileSet()
	cfg := &packages.Config{
		Mode: packages.NeedName | packages.NeedFiles | packages.NeedCompiledGoFiles | packages.NeedImports | packages.NeedDeps | packages.NeedTypes | packages.NeedSyntax | packages.NeedTypesInfo | packages.NeedTypesSizes | packages.NeedModule,
		Dir:  repo, Env: env, Fset: fset,
	}
	if len(patterns) == 0 {
		patterns = []string{"./..."}
	}
	pkgs, err := packages.Load(cfg, patterns...)
	if err != nil {
		return nil, err
	}
	p := &Prog{Repo: repo, Fset: fset, Pkgs: map[string]*packages.Package{}, SPkgs: map[string]*ssa.Package{}, inRepo: map[*ssa.Function]bool{},
		unst: map[string]string{}, closedT: map[string]bool{}, closeN: map[string]int{}, stores: map[string][]ssa.Value{}, goos: goos, usedPut: map[string]bool{}, impl: map[string][]*types.Named{}}
	sort.Slice(pkgs, func(i, j int) bool { return pkgs[i].PkgPath < pkgs[j].PkgPath })
	for _, q := range pkgs {
		if len(q.Errors) > 0 {
			return nil, fmt.Errorf("package %s does not type-check: %v", q.PkgPath, q.Errors[0])
		}
		p.Pkgs[q.PkgPath] = q
	}
	prog, sp := ssautil.Packages(pkgs, ssa.BuilderMode(0))
	p.SSA = prog
	for i, q := range sp {
		if q == nil {
			return nil, fmt.Errorf("no SSA for %s", pkgs[i].PkgPath)
		}
		q.Build()
		p.SPkgs[pkgs[i].PkgPath] = q
	}
	p.collect()
	p.prepass()
	return p, nil
}

func short(path string) string {
	return strings.TrimPrefix(strings.TrimPrefix(path, modPath), "/")
}

// collect gathers every function of the repository, generic origins included.
func (p *Prog) collect() {
	seen := map[*ssa.Function]bool{}
	var add func(f *ssa.Function)
	add = func(f *ssa.Function) {
		if f == nil || seen[f] {
			return
		}
		seen[f] = true
		if o := f.Origin(); o != nil && o != f {
			add(o)
			return
		}
		if len(f.Blocks) == 0 {
			return
		}
		p.Funcs = append(p.Funcs, f)
		p.inRepo[f] = true
		for _, a := range f.AnonFuncs {
			add(a)
		}
	}
	var paths []string
	for k := range p.SPkgs {
		paths = append(paths, k)
	}
	sort.Strings(paths)
	for _, k := range paths {
		sp := p.SPkgs[k]
		var names []string
		for n := range sp.Members {
			names = append(names, n)
		}
		sort.Strings(names)
		for _, n := range names {
			switch m := sp.Members[n].(type) {
			case *ssa.Function:
				add(m)
			case *ssa.Type:
				nt, ok := m.Type().(*types.Named)
				if !ok {
					continue
				}
				for i := 0; i < nt.NumMethods(); i++ {
					add(p.SSA.FuncValue(nt.Method(i)))
				}
			}
		}
	}
}

// fnBody is the function whose body runs when f is called: its generic origin, if it is an instance.
func (p *Prog) fnBody(f *ssa.Function) *ssa.Function {
	if f == nil {
		return nil
	}
	if o := f.Origin(); o != nil {
		f = o
	}
	if len(f.Blocks) == 0 {
		return nil
	}
	if p.inRepo[f] {
		return f
	}
	if f.Parent() != nil && p.inRepo[f.Parent()] {
		return f
	}
	// bound-method and method-expression wrappers of repository methods
	if f.Synthetic != "" && f.Object() != nil && f.Object().Pkg() != nil && p.SPkgs[f.Object().Pkg().Path()] != nil {
		return f
	}
	return nil
}

func typeKey(t types.Type) string {
	if pt, ok := t.(*types.Pointer); ok {
		t = pt.Elem()
	}
	if pt, ok := t.Underlying().(*types.Pointer); ok {
		t = pt.Elem()
	}
	t = types.Unalias(t)
	if n, ok := t.(*types.Named); ok {
		o := n.Origin().Obj()
		if o.Pkg() == nil {
			return o.Name()
		}
		return o.Pkg().Path() + "." + o.Name()
	}
	return types.TypeString(t, nil)
}

func isRepoKey(k string) bool { return strings.HasPrefix(k, modPath) }

func fieldKey(fa *ssa.FieldAddr) string {
	return typeKey(fa.X.Type()) + "." + structFieldName(fa.X.Type(), fa.Field)
}

// baseAlloc: is the address rooted in an allocation of this very function?
func baseAlloc(v ssa.Value) bool {
	for {
		switch x := v.(type) {
		case *ssa.Alloc:
			return true
		case *ssa.FieldAddr:
			v = x.X
		case *ssa.IndexAddr:
			v = x.X
		case *ssa.MakeSlice:
			return true
		case *ssa.Slice:
			v = x.X
		case *ssa.UnOp:
			// a pointer kept in a local variable that only ever holds one allocation (named results)
			al, ok := x.X.(*ssa.Alloc)
			if !ok {
				return false
			}
			if al.Referrers() == nil {
				return false
			}
			n := 0
			for _, r := range *al.Referrers() {
				if st, ok := r.(*ssa.Store); ok && st.Addr == al {
					n++
					if _, ok := st.Val.(*ssa.Alloc); !ok {
						return false
					}
				}
			}
			return n > 0
		case *ssa.Phi:
			for _, e := range x.Edges {
				if _, ok := e.(*ssa.Alloc); !ok {
					if c, ok := e.(*ssa.Const); !ok || !c.IsNil() {
						return false
					}
				}
			}
			return true
		default:
			return false
		}
	}
}

// fieldOf walks to the struct field an address is (part of).
func fieldOf(v ssa.Value) *ssa.FieldAddr {
	for {
		switch x := v.(type) {
		case *ssa.FieldAddr:
			return x
		case *ssa.IndexAddr:
			v = x.X
		default:
			return nil
		}
	}
}

// prepass finds the fields written outside construction, the channel types that are ever closed, and what is
// stored into function-valued fields.
func (p *Prog) prepass() {
	for _, f := range p.Funcs {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				switch x := in.(type) {
				case *ssa.Store:
					if fa := fieldOf(x.Addr); fa != nil {
						k := fieldKey(fa)
						p.stores[k] = append(p.stores[k], x.Val)
						if !baseAlloc(fa.X) {
							p.unst[k] = p.pos(x.Pos())
						}
					} else if !baseAlloc(x.Addr) {
						// *p = struct value
						if st, ok := deref(x.Addr.Type()).Underlying().(*types.Struct); ok {
							for i := 0; i < st.NumFields(); i++ {
								p.unst[typeKey(deref(x.Addr.Type()))+"."+st.Field(i).Name()] = p.pos(x.Pos())
							}
						}
					}
				case *ssa.FieldAddr:
					if x.Referrers() == nil {
						continue
					}
					for _, r := range *x.Referrers() {
						switch y := r.(type) {
						case *ssa.Store:
							if y.Val == x {
								p.unst[fieldKey(x)] = p.pos(y.Pos())
							}
						case *ssa.UnOp, *ssa.FieldAddr, *ssa.IndexAddr, *ssa.DebugRef:
						case ssa.CallInstruction:
							c := y.Common()
							if b, ok := c.Value.(*ssa.Builtin); ok && b.Name() == "len" {
								continue
							}
							if isBasicField(x) {
								p.unst[fieldKey(x)] = p.pos(y.Pos())
							}
						case *ssa.Slice:
						default:
							if isBasicField(x) {
								p.unst[fieldKey(x)] = p.pos(r.Pos())
							}
						}
					}
				case ssa.CallInstruction:
					c := x.Common()
					if b, ok := c.Value.(*ssa.Builtin); ok && b.Name() == "close" && len(c.Args) == 1 {
						if ch, ok := c.Args[0].Type().Underlying().(*types.Chan); ok {
							p.closedT[chanKey(ch.Elem())] = true
							p.closeN[chanKey(ch.Elem())]++
						}
					}
				}
			}
		}
	}
	for k, sp := range p.SPkgs {
		_ = k
		for _, m := range sp.Members {
			if t, ok := m.(*ssa.Type); ok {
				if n, ok := t.Type().(*types.Named); ok {
					p.impl["*"] = append(p.impl["*"], n)
				}
			}
		}
	}
	sort.Slice(p.impl["*"], func(i, j int) bool { return p.impl["*"][i].String() < p.impl["*"][j].String() })
}

func chanKey(t types.Type) string {
	if _, ok := t.(*types.TypeParam); ok {
		return "T"
	}
	return typeKey(t) + "|" + types.TypeString(t, nil)
}

func isBasicField(fa *ssa.FieldAddr) bool {
	_, ok := deref(fa.Type()).Underlying().(*types.Basic)
	return ok
}

func deref(t types.Type) types.Type {
	if p, ok := t.Underlying().(*types.Pointer); ok {
		return p.Elem()
	}
	return t
}

func (p *Prog) pos(ps token.Pos) string {
	if !ps.IsValid() {
		return "?"
	}
	q := p.Fset.Position(ps)
	if r, err := filepath.Rel(p.Repo, q.Filename); err == nil && !strings.HasPrefix(r, "..") {
		return fmt.Sprintf("%s:%d", r, q.Line)
	}
	return fmt.Sprintf("%s:%d", q.Filename, q.Line)
}

func (p *Prog) stable(own, field string) bool {
	k := own + "." + field
	if !isRepoKey(own) {
		return true
	}
	_, bad := p.unst[k]
	return !bad
}

// fn finds a package-level function by package (short path) and name.
func (p *Prog) fn(pkg, name string) *ssa.Function {
	sp := p.SPkgs[modPath+"/"+pkg]
	if sp == nil {
		return nil
	}
	return sp.Func(name)
}

// named finds a named type.
func (p *Prog) named(pkg, name string) *types.Named {
	sp := p.SPkgs[modPath+"/"+pkg]
	if sp == nil {
		return nil
	}
	t := sp.Type(name)
	if t == nil {
		return nil
	}
	n, _ := t.Type().(*types.Named)
	return n
}

// method finds a method of a named type by name.
func (p *Prog) method(n *types.Named, name string) *ssa.Function {
	if n == nil {
		return nil
	}
	for i := 0; i < n.NumMethods(); i++ {
		if n.Method(i).Name() == name {
			return p.SSA.FuncValue(n.Method(i))
		}
	}
	return nil
}

func (p *Prog) m(pkg, typ, name string) *ssa.Function { return p.method(p.named(pkg, typ), name) }

func fnName(f *ssa.Function) string {
	if f == nil {
		return "?"
	}
	s := f.RelString(nil)
	return strings.ReplaceAll(s, modPath+"/", "")
}
