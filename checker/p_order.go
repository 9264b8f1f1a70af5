package main

import (
	"strings"

	"golang.org/x/tools/go/ssa"
)

// ---------- C28: ordered iteration ----------

// orderCase is one way two keys can relate.
type orderCase struct {
	name       string
	lt, eq, gt bool // a<b, a==b, a>b by the operators
	aN, bN     bool // not a number
}

var orderCases = []orderCase{
	{"smaller", true, false, false, false, false},
	{"equal", false, true, false, false, false},
	{"larger", false, false, true, false, false},
	{"NaN and a number", false, false, false, true, false},
	{"a number and NaN", false, false, false, false, true},
	{"NaN and NaN", false, false, false, true, true},
}

// less is the total order wanted: NaN before all numbers.
func (k orderCase) less() bool { return k.lt || k.aN && !k.bN }
func (k orderCase) cmp() int64 {
	switch {
	case k.less():
		return -1
	case k.eq || k.aN && k.bN:
		return 0
	}
	return 1
}

// evalOrder evaluates a comparison of a and b in one case: 1, 0, or -1 if it depends on anything else.
func evalOrder(t, a, b *Term, k orderCase) int {
	swap := orderCase{k.name, k.gt, k.eq, k.lt, k.bN, k.aN}
	same := func(x, y *Term) (orderCase, bool) {
		switch {
		case x == a && y == b:
			return k, true
		case x == b && y == a:
			return swap, true
		case x == a && y == a:
			return orderCase{"", false, !k.aN, false, k.aN, k.aN}, true
		case x == b && y == b:
			return orderCase{"", false, !k.bN, false, k.bN, k.bN}, true
		}
		return orderCase{}, false
	}
	num := func(t *Term) (int64, bool) {
		if n, ok := t.intVal(); ok {
			return n, true
		}
		if t.Op == "app" && strings.HasPrefix(t.Aux, "cmp.Compare") && len(t.Sub) == 2 {
			if c, ok := same(t.Sub[0], t.Sub[1]); ok {
				return c.cmp(), true
			}
		}
		return 0, false
	}
	switch t.Op {
	case "const":
		switch t.Aux {
		case "true":
			return 1
		case "false":
			return 0
		}
	case "not":
		if v := evalOrder(t.Sub[0], a, b, k); v >= 0 {
			return 1 - v
		}
	case "app":
		if strings.HasPrefix(t.Aux, "cmp.Less") && len(t.Sub) == 2 {
			if c, ok := same(t.Sub[0], t.Sub[1]); ok {
				return b2i(c.less())
			}
		}
	case "bin":
		if c, ok := same(t.Sub[0], t.Sub[1]); ok {
			switch t.Aux {
			case "<":
				return b2i(c.lt)
			case "==":
				return b2i(c.eq)
			case "<=":
				return b2i(c.lt || c.eq)
			}
		}
		x, ok1 := num(t.Sub[0])
		y, ok2 := num(t.Sub[1])
		if ok1 && ok2 {
			switch t.Aux {
			case "<":
				return b2i(x < y)
			case "==":
				return b2i(x == y)
			case "<=":
				return b2i(x <= y)
			}
		}
	}
	if t == tTrue {
		return 1
	}
	if t == tFalse {
		return 0
	}
	return -1
}

func c28(c *Ctx) {
	c.rule("order: the comparison the tree is kept in is the total order of the keys, for smaller, equal, larger and not-a-number keys alike, and depends on nothing but the two keys")
	c.rule("direction: ascending iteration is the tree's ascending iteration over all entries, descending its descending iteration, exactly one on every path")
	c.rule("own-entry: in every iteration of a map each entry's own key and value are passed to the callback, exactly once")
	c.rule("stop: what the callback answers decides whether the iteration goes on, and nothing else does")
	for _, f := range c.P.Funcs {
		if pkgOf(f) != "hashmap" || f.Name() != "Less" || f.Signature.Recv() == nil || f.Synthetic != "" || len(f.Params) != 2 || !strings.HasSuffix(typeKey(f.Params[1].Type()), "btree.Item") {
			continue
		}
		c.lessRule(f)
	}
	n := 0
	for _, name := range []string{"Ascend", "Descend"} {
		if f := c.pub("hashmap", "TreeMap", name); f != nil {
			n++
			c.iteration(f, "(*github.com/google/btree.BTree)."+name)
		}
	}
	for _, typ := range []string{"Map", "MapL"} {
		if f := c.pub("hashmap", typ, "Range"); f != nil {
			n++
			c.iteration(f, "(*sync.Map).Range")
		}
	}
	if n < 4 {
		c.fail("iterations not found")
	}
	if c.counts["comparisons"] == 0 {
		c.fail("no comparison of tree entries found")
	}
}

func fieldName(t *Term) string {
	if isInit(t) {
		return t.Sub[0].Aux
	}
	return t.Aux
}

func (c *Ctx) lessRule(f *ssa.Function) {
	e := c.engine()
	e.NoPanic = true
	outs := c.run(e, f)
	ps := paramTerms(f)
	// the two keys: the same field of both sides
	var a, b *Term
	pick := func(t *Term) {
		t.walk(func(x *Term) bool {
			if x.Op == "f" || isInit(x) && x.Sub[0].Op == "fld" {
				if x.mentions(ps[0]) {
					a = x
				} else if x.mentions(ps[1]) {
					b = x
				}
				return false
			}
			return true
		})
	}
	for _, o := range outs {
		for _, r := range o.Ret {
			pick(r)
		}
		for _, fa := range o.S.facts {
			pick(fa.T)
		}
	}
	if a == nil || b == nil || fieldName(a) != fieldName(b) {
		c.viol("order", f, nil, nil, "the comparison does not compare one field of both entries")
		return
	}
	for _, k := range orderCases {
		c.ob("comparisons")
		seen := false
		for _, o := range outs {
			if o.Kind != "return" {
				continue
			}
			on := true
			for _, fa := range o.S.facts {
				v := evalOrder(fa.T, a, b, k)
				if v >= 0 && (v == 1) != fa.Truth || fa.T.Op == "isa" && !fa.Truth {
					on = false // or not an entry of the tree
				}
			}
			if !on {
				continue
			}
			seen = true
			switch v := evalOrder(o.Ret[0], a, b, k); {
			case v < 0:
				c.viol("order", f, nil, o, "the result %s does not follow from the keys alone", o.Ret[0])
			case (v == 1) != k.less():
				c.viol("order", f, nil, o, "for %s the comparison answers %v", k.name, v == 1)
			}
		}
		if !seen {
			c.viol("order", f, nil, nil, "for %s the comparison has no answer", k.name)
		}
	}
}

func (c *Ctx) iteration(f *ssa.Function, want string) {
	e := c.engine()
	e.MultiIter = true
	cb := paramTerms(f)[1]
	for _, o := range c.run(e, f) {
		if o.Kind == "loop" {
			c.viol("direction", f, nil, o, "the iteration may be repeated")
			continue
		}
		if o.Kind != "return" {
			continue
		}
		c.ob("iterations")
		m := &mapSim{o: o}
		n := 0
		var item *Event
		var called *Event
		for _, ev := range o.S.events {
			switch {
			case ev.Kind == "iterate" || ev.Kind == "smap" && ev.Fn == "Range" || ev.Kind == "iterate-next":
				if ev.Kind != "iterate-next" {
					n++
					fn := ev.Fn
					if ev.Kind == "smap" {
						fn = "(*sync.Map).Range"
					}
					if fn != want {
						c.viol("direction", f, ev, o, "it iterates with %s", fn)
					}
				}
				item, called = ev, nil
			case ev.Kind == "dyncall" && ev.Args[0] == cb:
				if item == nil {
					c.viol("own-entry", f, ev, o, "the callback is called outside the iteration")
					continue
				}
				if called != nil {
					c.viol("own-entry", f, ev, o, "the callback is called again for the same entry")
				}
				called = ev
				it := item.Res.Sub
				if len(ev.Args) != 3 || !ownKey(m, ev.Args[1], it, 0) || !ownKey(m, ev.Args[2], it, 1) {
					c.viol("own-entry", f, ev, o, "the callback is called with %v", ev.Args[1:])
				}
			case ev.Kind == "iterret":
				c.ob("entries visited")
				if called == nil {
					c.viol("own-entry", f, ev, o, "the callback is not called for an entry")
				} else if ev.Args[0] != called.Res {
					a, r := m.truth(ev.Args[0]), m.truth(called.Res)
					if a < 0 || a != r {
						c.viol("stop", f, ev, o, "the iteration goes on if %s, whatever the callback answered", ev.Args[0])
					}
				}
				item, called = nil, nil
			}
		}
		if n != 1 {
			c.viol("direction", f, nil, o, "it goes through the entries %d times", n)
		}
	}
}

// ownKey: the argument is the entry's key (i=0) or value (i=1).
func ownKey(m *mapSim, a *Term, it []*Term, i int) bool {
	for a.Op == "conv" && len(a.Sub) == 1 {
		a = a.Sub[0]
	}
	if len(it) == 2 {
		if a == it[i] {
			return true
		}
		return i == 1 && isZeroT(a) && m.truth(mkBin("==", it[1], tNil, nil)) == 1
	}
	if len(it) != 1 || !a.mentions(it[0]) {
		return false
	}
	for j, nm := range []string{"Key", "Value"} {
		if strings.EqualFold(fieldName(a), nm) {
			return j == i
		}
	}
	return false
}

func init() {
	checks["C28"] = checkDef{c28, "path-sensitive analysis of the iterations with value numbering, and a case evaluation of the comparison over every relation two keys can have"}
}
