package main

import (
	"flag"
	"fmt"
	"os"
	"sort"
	"strings"
	"time"
)

type checkDef struct {
	run     func(c *Ctx)
	explain string
}

var checks = map[string]checkDef{}

func main() {
	prop := flag.String("prop", "", "property to decide")
	repo := flag.String("repo", "/repo", "source tree")
	tier := flag.String("tier", "quick", "")
	dbg := flag.String("debug", "", "print the paths of one function")
	trace := flag.Bool("trace", false, "")
	cut := flag.Int("cut", 0, "")
	list := flag.Bool("list", false, "")
	flag.Parse()
	debugTrace = *trace
	verif := os.Getenv("VERIF_ROOT")
	if verif == "" {
		verif = "/verif"
		os.Setenv("VERIF_ROOT", verif)
	}
	if *list {
		var ids []string
		for k := range checks {
			ids = append(ids, k)
		}
		sort.Strings(ids)
		fmt.Println(strings.Join(ids, "\n"))
		return
	}
	if *dbg != "" {
		debugFn(*repo, *dbg, *cut)
		return
	}
	ids := strings.Split(*prop, ",")
	if *prop == "all" {
		ids = nil
		for k := range checks {
			ids = append(ids, k)
		}
		sort.Strings(ids)
	}
	seed := 1
	fmt.Sscan(os.Getenv("VERIF_SEED"), &seed)
	rc := 0
	for _, id := range ids {
		d, ok := checks[id]
		if !ok {
			fmt.Fprintf(os.Stderr, "no check %q\n", id)
			os.Exit(2)
		}
		t0 := time.Now()
		c := newCtx(*repo, id, *tier)
		c.P = c.load("")
		if c.P != nil {
			d.run(c)
		}
		if *tier == "thorough" {
			// The other builds of the same source: their platform files are analysed as well.
			for _, goos := range []string{"windows", "solaris", "darwin"} {
				if c.progs[goos] != nil {
					continue // the check looks at every build itself
				}
				c.GOOS = goos
				if c.P = c.load(""); c.P != nil {
					d.run(c)
				}
				c.assume = append(c.assume, "GOOS="+goos+" analysed as well")
			}
		}
		if r := c.finish(verif, d.explain, seed, t0); r > rc {
			rc = r
		}
	}
	os.Exit(rc)
}

func debugFn(repo, name string, cut int) {
	p, err := load(repo, os.Getenv("DBG_GOOS"))
	if err != nil {
		fmt.Println(err)
		os.Exit(2)
	}
	for _, f := range p.Funcs {
		if fnName(f) != name && name != "*" {
			continue
		}
		if name == "*" && (f.Object() == nil || !f.Object().Exported()) {
			continue
		}
		e := newEngine(p)
		e.GoBodies = true
		if cut > 0 {
			e.Shared, e.CutSize, e.MergeLoops = newShared(), cut, true
		}
		t0 := time.Now()
		outs := e.Run(f)
		k := map[string]int{}
		for _, o := range outs {
			k[o.Kind]++
		}
		fmt.Println(fnName(f), len(outs), k, e.Err, time.Since(t0).Milliseconds())
		if name == "*" {
			continue
		}
		for i, o := range outs {
			fmt.Println(" --", i, o.Kind, o.Ret)
			for _, f := range o.S.facts {
				fmt.Println("     fact", f.Truth, f.T)
			}
			for _, ev := range o.S.events {
				fmt.Println("     ", ev.Kind, ev.Fn, ev.Args, "->", ev.Res, ev.Note, p.pos(ev.Pos), len(ev.Locks))
			}
		}
	}
}
