package main

import (
	"encoding/json"
	"fmt"
	"os"
	"path/filepath"
	"sort"
	"strings"
	"time"

	"go/types"

	"golang.org/x/tools/go/ssa"
)

// Viol is one construct that breaks a rule.
type Viol struct {
	Rule string
	Site string // function
	Pos  string
	Msg  string
	Path []string
}

// Ctx is one run of one check.
type Ctx struct {
	P       *Prog
	Repo    string
	Prop    string
	Tier    string
	GOOS    string // the build looked at where a check asks for none in particular
	viols   []Viol
	seen    map[string]bool
	counts  map[string]int
	rules   []string
	fns     map[string]bool
	samples []string
	failed  []string // reasons no answer could be given
	progs   map[string]*Prog
	assume  []string
}

func newCtx(repo, prop, tier string) *Ctx {
	return &Ctx{Repo: repo, Prop: prop, Tier: tier, seen: map[string]bool{}, counts: map[string]int{}, fns: map[string]bool{}, progs: map[string]*Prog{}}
}

func (c *Ctx) load(goos string) *Prog {
	if goos == "" {
		goos = c.GOOS
	}
	if p := c.progs[goos]; p != nil {
		return p
	}
	p, err := load(c.Repo, goos)
	if err != nil {
		c.fail("loading /repo for GOOS=%q: %v", goos, err)
		return nil
	}
	c.progs[goos] = p
	return p
}

func (c *Ctx) fail(f string, a ...any) { c.failed = append(c.failed, fmt.Sprintf(f, a...)) }

// ob counts obligations examined under a heading.
func (c *Ctx) ob(kind string) { c.counts[kind]++ }

func (c *Ctx) rule(r string) {
	for _, x := range c.rules {
		if x == r {
			return
		}
	}
	c.rules = append(c.rules, r)
}

func (c *Ctx) sample(f string, a ...any) {
	if len(c.samples) < 12 {
		c.samples = append(c.samples, fmt.Sprintf(f, a...))
	}
}

func (c *Ctx) viol(rule string, fn *ssa.Function, ev *Event, path *Outcome, f string, a ...any) {
	site := "?"
	if fn != nil {
		site = fnName(fn)
	}
	pos := ""
	if ev != nil {
		pos = c.P.pos(ev.Pos)
	} else if fn != nil {
		pos = c.P.pos(fn.Pos())
	}
	msg := fmt.Sprintf(f, a...)
	k := rule + "|" + site + "|" + pos + "|" + msg
	if path != nil {
		k = rule + "|" + site + "|" + pos
	}
	if c.seen[k] {
		return
	}
	c.seen[k] = true
	v := Viol{Rule: rule, Site: site, Pos: pos, Msg: msg}
	if path != nil {
		v.Path = c.render(path)
	}
	c.viols = append(c.viols, v)
}

func (c *Ctx) render(o *Outcome) []string {
	var r []string
	for _, f := range o.S.facts {
		r = append(r, fmt.Sprintf("when %s is %v", f.T, f.Truth))
	}
	for _, ev := range o.S.events {
		if len(r) > 160 {
			r = append(r, "...")
			break
		}
		r = append(r, fmt.Sprintf("%s: %s %s %v -> %v %s", c.P.pos(ev.Pos), ev.Kind, ev.Fn, ev.Args, ev.Res, ev.Note))
	}
	r = append(r, fmt.Sprintf("%s %v", o.Kind, o.Ret))
	return r
}

func (c *Ctx) engine() *Engine {
	e := newEngine(c.P)
	return e
}

// run explores fn and accounts for it.
func (c *Ctx) run(e *Engine, fn *ssa.Function) []*Outcome {
	if fn == nil {
		return nil
	}
	t0 := time.Now()
	outs := e.Run(fn)
	if d := time.Since(t0); d > time.Second && os.Getenv("GC_TIME") != "" {
		fmt.Fprintln(os.Stderr, fnName(fn), len(outs), d)
	}
	if e.Err != nil {
		c.fail("%s: %v", fnName(fn), e.Err)
	}
	c.account(fn, outs)
	return outs
}

func (c *Ctx) account(fn *ssa.Function, outs []*Outcome) {
	c.fns[fnName(fn)] = true
	c.counts["paths"] += len(outs)
	for _, o := range outs {
		for _, ev := range o.S.events {
			for _, f := range ev.Stack {
				c.fns[fnName(f)] = true
			}
		}
	}
}

// pub finds an exported function or method; its absence means the property's anchor is gone.
func (c *Ctx) pub(pkg, typ, name string) *ssa.Function {
	var f *ssa.Function
	if typ == "" {
		f = c.P.fn(pkg, name)
	} else {
		f = c.P.m(pkg, typ, name)
	}
	if f == nil || len(f.Blocks) == 0 {
		c.fail("%s.%s.%s is gone", pkg, typ, name)
		return nil
	}
	return f
}

// methods lists the exported methods with bodies of a named type.
func (c *Ctx) methods(pkg, typ string) []*ssa.Function {
	n := c.P.named(pkg, typ)
	if n == nil {
		c.fail("type %s.%s is gone", pkg, typ)
		return nil
	}
	var r []*ssa.Function
	for i := 0; i < n.NumMethods(); i++ {
		m := n.Method(i)
		if !m.Exported() {
			continue
		}
		if f := c.P.SSA.FuncValue(m); f != nil && len(f.Blocks) > 0 {
			r = append(r, f)
		}
	}
	return r
}

func pkgOf(f *ssa.Function) string {
	for f.Parent() != nil {
		f = f.Parent()
	}
	if f.Pkg != nil {
		return short(f.Pkg.Pkg.Path())
	}
	if f.Object() != nil && f.Object().Pkg() != nil {
		return short(f.Object().Pkg().Path())
	}
	return ""
}

// roots of packages: the functions others can call, and the bodies of goroutines.
func (c *Ctx) entryPoints(pkgs ...string) []*ssa.Function {
	in := map[string]bool{}
	for _, p := range pkgs {
		in[p] = true
	}
	var r []*ssa.Function
	for _, f := range c.P.Funcs {
		if f.Parent() != nil || f.Object() == nil || !f.Object().Exported() || !in[pkgOf(f)] || f.Synthetic != "" {
			continue
		}
		r = append(r, f)
	}
	sort.Slice(r, func(i, j int) bool { return fnName(r[i]) < fnName(r[j]) })
	return r
}

// ---------- output ----------

type knownFinding struct{ prop, rule, site string }

func readKnown(path string) []knownFinding {
	b, err := os.ReadFile(path)
	if err != nil {
		return nil
	}
	var r []knownFinding
	for _, l := range strings.Split(string(b), "\n") {
		l = strings.TrimSpace(l)
		if !strings.HasPrefix(l, "known:") {
			continue
		}
		k := knownFinding{}
		for _, w := range strings.Fields(l) {
			switch {
			case strings.HasPrefix(w, "property="):
				k.prop = w[9:]
			case strings.HasPrefix(w, "rule="):
				k.rule = w[5:]
			case strings.HasPrefix(w, "site="):
				k.site = w[5:]
			}
		}
		if k.prop != "" && k.rule != "" && k.site != "" {
			r = append(r, k)
		}
	}
	return r
}

func (c *Ctx) finish(verif, explain string, seed int, t0 time.Time) int {
	known := readKnown(filepath.Join(verif, "known-findings.txt"))
	var bad []Viol
	for _, v := range c.viols {
		hit := false
		for _, k := range known {
			if k.prop == c.Prop && k.rule == v.Rule && k.site == v.Site {
				fmt.Printf("KNOWN-FINDING: property=%s %s: %s (%s)\n", c.Prop, v.Site, v.Msg, v.Pos)
				hit = true
			}
		}
		if !hit {
			bad = append(bad, v)
		}
	}
	ev := filepath.Join(verif, "evidence")
	os.MkdirAll(filepath.Join(ev, "replay"), 0755)
	var fns []string
	for f := range c.fns {
		fns = append(fns, f)
	}
	sort.Strings(fns)
	total := 0
	for k, n := range c.counts {
		if k != "paths" {
			total += n
		}
	}
	cov := map[string]any{
		"explanation":         explain,
		"rules":               c.rules,
		"functions":           fns,
		"functions_analysed":  len(fns),
		"paths":               c.counts["paths"],
		"obligations":         total,
		"discharged":          total - len(c.viols),
		"obligations_by_kind": c.counts,
		"samples":             c.samples,
		"source":              c.Repo,
	}
	if total < len(c.viols) {
		cov["discharged"] = 0
	}
	if len(c.failed) > 0 {
		cov["no_answer"] = c.failed
	}
	if len(bad) > 0 {
		cov["violations"] = bad
	}
	doc := map[string]any{"property": c.Prop, "tier": c.Tier, "seed": seed, "level": "other", "coverage": cov, "assumptions": c.assume, "wall_s": time.Since(t0).Seconds(), "violations": len(bad)}
	if c.assume == nil {
		delete(doc, "assumptions")
	}
	b, _ := json.MarshalIndent(doc, "", " ")
	if err := os.WriteFile(filepath.Join(ev, c.Prop+".json"), append(b, '\n'), 0644); err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	if len(bad) > 0 {
		for i, v := range bad {
			rp := filepath.Join(ev, "replay", fmt.Sprintf("%s-%d.txt", c.Prop, i+1))
			txt := fmt.Sprintf("property %s\nrule %s\nfunction %s\nat %s\n%s\n\n%s\n", c.Prop, v.Rule, v.Site, v.Pos, v.Msg, strings.Join(v.Path, "\n"))
			os.WriteFile(rp, []byte(txt), 0644)
			fmt.Printf("VIOLATION property=%s replay=%s\n", c.Prop, rp)
			fmt.Printf("  [%s] %s (%s): %s\n", v.Rule, v.Site, v.Pos, v.Msg)
			if i >= 19 {
				break
			}
		}
		return 1
	}
	if len(c.failed) > 0 {
		for _, f := range c.failed {
			fmt.Fprintf(os.Stderr, "no answer: %s\n", f)
		}
		return 2
	}
	fmt.Printf("%s: holds; %d functions, %d paths, %d obligations, %.1fs\n", c.Prop, len(fns), c.counts["paths"], total, time.Since(t0).Seconds())
	return 0
}

// ---------- helpers on terms and paths ----------

// ancestors: all terms an access path goes through, symbols' origins included.
func ancestors(t *Term) map[*Term]bool {
	out := map[*Term]bool{}
	var rec func(*Term, int)
	rec = func(y *Term, d int) {
		if y == nil || out[y] || d > 40 {
			return
		}
		out[y] = true
		for _, s := range y.Sub {
			rec(s, d+1)
		}
		if y.Sym != nil {
			for _, s := range y.Sym.Deps {
				rec(s, d+1)
			}
			rec(y.Sym.Init, d+1)
			rec(y.Sym.Next, d+1)
		}
	}
	rec(t, 0)
	return out
}

func isErr(t types.Type) bool { return types.TypeString(t, nil) == "error" }

func (s *State) factOf(t *Term) (truth, known bool) {
	neg := false
	for t.Op == "not" {
		t, neg = t.Sub[0], !neg
	}
	v, ok := s.fset[t]
	return v != neg, ok
}
