package main

import (
	"go/token"
	"go/types"
	"math"
	"math/bits"
	"sort"
)

const intTok = token.INT
const strTok = token.STRING

// Lin is a linear form: sum coef*atom + k. A constraint Lin means Lin <= 0.
type Lin struct {
	c   map[*Term]int64
	k   int64
	bad bool // a coefficient does not fit: nothing is known
}

func newLin(k int64) Lin { return Lin{c: map[*Term]int64{}, k: k} }

func (l Lin) add(o Lin, f int64) Lin {
	r := newLin(0)
	r.bad = l.bad || o.bad
	r.k = addMul(l.k, f, o.k, &r.bad)
	for t, c := range l.c {
		r.c[t] = c
	}
	for t, c := range o.c {
		r.c[t] = addMul(r.c[t], f, c, &r.bad)
		if r.c[t] == 0 {
			delete(r.c, t)
		}
	}
	return r
}

// addMul is x + f*c.
func addMul(x, f, c int64, bad *bool) int64 {
	const lim = 1 << 31
	if (f >= lim || f <= -lim) && c != 0 && c != 1 && c != -1 || (c >= lim || c <= -lim) && f != 0 && f != 1 && f != -1 {
		// the product may not fit
		hi, lo := bits.Mul64(absU(f), absU(c))
		if hi != 0 || lo > 1<<62 {
			*bad = true
			return x
		}
	}
	if f == math.MinInt64 || c == math.MinInt64 {
		if f != 0 && c != 0 {
			*bad = true
		}
		return x
	}
	m := f * c
	r := x + m
	if m > 0 && r < x || m < 0 && r > x {
		*bad = true
	}
	return r
}

func absU(x int64) uint64 {
	if x < 0 {
		return uint64(-x)
	}
	return uint64(x)
}

// Arith is the relational (polyhedral) part of the abstract domain: it decides whether the branch conditions
// passed on a path imply a linear inequality.
type Arith struct {
	cons  []Lin
	diseq [][2]*Term
	// opaque, when set, says that a sum of these terms may wrap around and must not be treated as linear
	opaque func(*Term) bool
	// settle, when set, looks at a term before it is used in a question
	settle func(*Term)
}

func lossless(from, to types.Type) bool {
	f, ok1 := from.Underlying().(*types.Basic)
	t, ok2 := to.Underlying().(*types.Basic)
	if !ok1 || !ok2 || f.Info()&types.IsInteger == 0 || t.Info()&types.IsInteger == 0 {
		return false
	}
	fs, fu := intSize(f)
	ts, tu := intSize(t)
	if fu == tu {
		return ts >= fs
	}
	return fu && !tu && ts > fs
}

func intSize(b *types.Basic) (size int, unsigned bool) {
	unsigned = b.Info()&types.IsUnsigned != 0
	switch b.Kind() {
	case types.Int8, types.Uint8:
		return 1, unsigned
	case types.Int16, types.Uint16:
		return 2, unsigned
	case types.Int32, types.Uint32:
		return 4, unsigned
	}
	return 8, unsigned
}

func isUnsigned(t types.Type) bool {
	if t == nil {
		return false
	}
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsUnsigned != 0
}

func (a *Arith) lin(t *Term) Lin {
	if n, ok := t.intVal(); ok {
		return newLin(n)
	}
	if t.Op == "bin" && (a.opaque == nil || !a.opaque(t)) {
		switch t.Aux {
		case "+":
			return a.lin(t.Sub[0]).add(a.lin(t.Sub[1]), 1)
		case "-":
			if !isUnsigned(t.Typ) {
				return a.lin(t.Sub[0]).add(a.lin(t.Sub[1]), -1)
			}
		case "*":
			if n, ok := t.Sub[0].intVal(); ok {
				return newLin(0).add(a.lin(t.Sub[1]), n)
			}
			if n, ok := t.Sub[1].intVal(); ok {
				return newLin(0).add(a.lin(t.Sub[0]), n)
			}
		case "<<":
			if n, ok := t.Sub[1].intVal(); ok && n >= 0 && n < 32 {
				return newLin(0).add(a.lin(t.Sub[0]), 1<<uint(n))
			}
		}
	}
	if t.Op == "un" && t.Aux == "-" {
		return newLin(0).add(a.lin(t.Sub[0]), -1)
	}
	if t.Op == "conv" && len(t.Sub) == 1 && (t.Sub[0].Op == "len" || t.Sub[0].Op == "cap") {
		if _, ok := t.Typ.(*types.Basic); ok {
			if s, _ := intSize(t.Typ.(*types.Basic)); s == 8 {
				return a.lin(t.Sub[0])
			}
		}
	}
	r := newLin(0)
	r.c[t] = 1
	return r
}

// assume adds the fact that the boolean term has the given truth.
func (a *Arith) assume(t *Term, truth bool) {
	for t.Op == "not" {
		t, truth = t.Sub[0], !truth
	}
	if t.Op != "bin" {
		return
	}
	x, y := t.Sub[0], t.Sub[1]
	switch t.Aux {
	case "<":
		if isFloatTerm(x) || isFloatTerm(y) || isStringy(x.Typ) {
			return
		}
		if truth {
			a.cons = append(a.cons, a.lin(x).add(a.lin(y), -1).add(newLin(1), 1))
		} else {
			a.cons = append(a.cons, a.lin(y).add(a.lin(x), -1))
		}
	case "==":
		if !intLike(x) || !intLike(y) {
			return
		}
		if truth {
			d := a.lin(x).add(a.lin(y), -1)
			a.cons = append(a.cons, d, newLin(0).add(d, -1))
		} else {
			a.diseq = append(a.diseq, [2]*Term{x, y})
		}
	}
}

func isFloatTerm(t *Term) bool {
	return isFloat(t.Typ) || t.Op == "const" && len(t.Aux) > 1 && t.Aux[:2] == "f:"
}

func intLike(t *Term) bool {
	if _, ok := t.intVal(); ok {
		return true
	}
	switch t.Op {
	case "len", "cap":
		return true
	case "bin":
		return t.Aux != "==" && t.Aux != "<"
	case "const":
		return false
	}
	if t.Typ == nil {
		return false
	}
	b, ok := t.Typ.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsInteger != 0
}

// axioms adds what is known of the atoms themselves.
func (a *Arith) axioms(cons []Lin, extra ...Lin) []Lin {
	seen := map[*Term]bool{}
	work := []*Term{}
	note := func(l Lin) {
		for t := range l.c {
			if !seen[t] {
				seen[t] = true
				work = append(work, t)
			}
		}
	}
	for _, l := range cons {
		note(l)
	}
	for _, l := range extra {
		note(l)
	}
	out := append([]Lin(nil), cons...)
	put := func(l Lin) { out = append(out, l); note(l) }
	le := func(x, y Lin, k int64) { put(x.add(y, -1).add(newLin(k), 1)) } // x - y + k <= 0
	sort.Slice(work, func(i, j int) bool { return work[i].id < work[j].id })
	again := map[*Term]bool{}
	for n := 0; n < len(work) && n < 200; n++ {
		t := work[n]
		one := newLin(0)
		one.c[t] = 1
		switch {
		case t.Op == "len":
			le(newLin(0), one, 0)
		case t.Op == "cap":
			le(newLin(0), one, 0)
			le(a.lin(mkLen(t.Sub[0])), one, 0)
		case isUnsigned(t.Typ):
			le(newLin(0), one, 0)
			if b, ok := t.Typ.Underlying().(*types.Basic); ok && b.Kind() == types.Uint8 {
				le(one, newLin(255), 0)
			}
		}
		if t.Op == "bin" {
			x, y := t.Sub[0], t.Sub[1]
			switch t.Aux {
			case "%":
				lx, ly := a.lin(x), a.lin(y)
				pos := isUnsigned(t.Typ) || nonneg(x) || a.provesRaw(out, newLin(0).add(lx, -1)) // 0 <= x
				if a.provesRaw(out, newLin(1).add(ly, -1)) {                                     // 1 <= y
					le(one, ly, 1)
					if pos {
						le(newLin(0), one, 0)
						le(one, lx, 0)
						// a positive multiple is not less than what it is a multiple of
						if a.provesRaw(out, newLin(1).add(lx, -1)) && a.provesRaw(out, one) {
							le(ly, lx, 0)
						}
					} else {
						le(newLin(0).add(ly, -1), one, 1) // -y < r
					}
				}
			case "/":
				lx, ly := a.lin(x), a.lin(y)
				pos := isUnsigned(t.Typ) || nonneg(x) || a.provesRaw(out, newLin(0).add(lx, -1))
				if pos && a.provesRaw(out, newLin(1).add(ly, -1)) {
					le(newLin(0), one, 0)
					le(one, lx, 0)
					if c, ok := y.intVal(); ok {
						le(newLin(0).add(one, c), lx, 0)
						le(lx, newLin(0).add(one, c), -(c - 1))
					} else if a.provesRaw(out, ly.add(lx, -1)) { // y <= x
						le(newLin(1), one, 0)
					}
				}
			case "*":
				// y * (x/y) is the largest multiple of y not above x
				for i := range t.Sub {
					q, d := t.Sub[i], t.Sub[1-i]
					if q.Op == "bin" && q.Aux == "/" && q.Sub[1] == d {
						lx, ly := a.lin(q.Sub[0]), a.lin(d)
						if (isUnsigned(q.Typ) || a.provesRaw(out, newLin(0).add(lx, -1))) && a.provesRaw(out, newLin(1).add(ly, -1)) {
							le(newLin(0), one, 0)
							le(one, lx, 0)
							le(lx.add(ly, -1), one, 1)
						}
					}
				}
			case "&^":
				lx := a.lin(x)
				if isUnsigned(t.Typ) || a.provesRaw(out, newLin(0).add(lx, -1)) {
					le(newLin(0), one, 0)
					le(one, lx, 0)
				}
			case "&":
				for _, o := range []*Term{x, y} {
					if c, ok := o.intVal(); ok && c >= 0 {
						le(newLin(0), one, 0)
						le(one, newLin(c), 0)
					}
				}
			case ">>":
				if n, ok := y.intVal(); ok && n >= 0 && n < 40 {
					// rounding down, for negative numbers too
					lx, k := a.lin(x), int64(1)<<uint(n)
					le(newLin(0).add(one, k), lx, 0)
					le(lx, newLin(0).add(one, k), -(k - 1))
				}
				if isUnsigned(t.Typ) || a.provesRaw(out, newLin(0).add(a.lin(x), -1)) {
					le(newLin(0), one, 0)
					le(one, a.lin(x), 0)
				}
			}
		}
		if t.Op == "conv" && len(t.Sub) == 1 && t.Typ != nil && intType(t.Sub[0]) != nil {
			// an integer conversion keeps the value when it fits
			fb, ok1 := intType(t.Sub[0]).Underlying().(*types.Basic)
			tb, ok2 := t.Typ.Underlying().(*types.Basic)
			if ok1 && ok2 && fb.Info()&types.IsInteger != 0 && tb.Info()&types.IsInteger != 0 {
				in := a.lin(t.Sub[0])
				keep := lossless(fb, tb)
				fs, fu := intSize(fb)
				ts, tu := intSize(tb)
				if !keep && !fu && tu && ts >= fs {
					keep = a.provesRaw(out, newLin(0).add(in, -1))
				}
				if !keep && fu && !tu && ts >= fs {
					// fits when bounded by something that is a signed length or constant
					keep = a.smallUpper(out, t.Sub[0])
				}
				if keep {
					d := one.add(in, -1)
					put(d)
					put(newLin(0).add(d, -1))
				} else if !again[t] {
					// once more, when what is known of its parts is in
					again[t] = true
					k := len(work)
					note(in)
					if len(work) > k {
						work = append(work, t)
					}
				}
			}
		}
	}
	return out
}

// nonneg: a length, or a sum of such.
func nonneg(t *Term) bool {
	switch t.Op {
	case "len", "cap":
		return true
	case "const":
		n, ok := t.intVal()
		return ok && n >= 0
	}
	return false
}

// smallUpper: u is an unsigned value known to fit the signed type of the same size.
func (a *Arith) smallUpper(cons []Lin, u *Term) bool {
	if u.Op == "bin" && u.Aux == "%" {
		d := u.Sub[1]
		if d.Op == "conv" && len(d.Sub) == 1 && d.Sub[0].Typ != nil && !isUnsigned(d.Sub[0].Typ) {
			return true // modulus came from a signed value
		}
		if n, ok := d.intVal(); ok && n > 0 {
			return true
		}
	}
	if u.Op == "bin" && (u.Aux == "/" || u.Aux == ">>") {
		if n, ok := u.Sub[1].intVal(); ok && n >= 2 || ok && u.Aux == ">>" && n >= 1 {
			return true
		}
	}
	if u.Op == "bin" && u.Aux == "&" {
		for _, s := range u.Sub {
			if n, ok := s.intVal(); ok && n >= 0 {
				return true
			}
		}
	}
	return false
}

func gcd(a, b int64) int64 {
	if a < 0 {
		a = -a
	}
	if b < 0 {
		b = -b
	}
	for b != 0 {
		a, b = b, a%b
	}
	return a
}

func (l Lin) norm() Lin {
	var g int64
	for _, c := range l.c {
		g = gcd(g, c)
	}
	if g <= 1 || l.bad {
		return l
	}
	r := newLin(0)
	for t, c := range l.c {
		r.c[t] = c / g
	}
	// sum + k <= 0  =>  sum/g <= floor(-k/g)
	k := -l.k
	q := k / g
	if k%g != 0 && k < 0 {
		q--
	}
	r.k = -q
	return r
}

// provesRaw: do the constraints imply goal <= 0? (Fourier-Motzkin on the relevant part.)
func (a *Arith) provesRaw(cons []Lin, goal Lin) bool {
	if goal.bad {
		return false
	}
	if len(goal.c) == 0 {
		return goal.k <= 0
	}
	neg := newLin(1).add(goal, -1) // goal >= 1
	return infeasible(append(append([]Lin(nil), cons...), neg), goal)
}

func infeasible(cons []Lin, goal Lin) bool {
	ok := cons[:0:0]
	for _, l := range cons {
		if !l.bad {
			ok = append(ok, l)
		}
	}
	cons = ok
	// relevance
	rel := map[*Term]bool{}
	for t := range goal.c {
		rel[t] = true
	}
	use := make([]bool, len(cons))
	for ch := true; ch; {
		ch = false
		for i, l := range cons {
			if use[i] {
				continue
			}
			hit := len(l.c) == 0
			for t := range l.c {
				if rel[t] {
					hit = true
				}
			}
			if hit {
				use[i] = true
				ch = true
				for t := range l.c {
					rel[t] = true
				}
			}
		}
	}
	var cs []Lin
	for i, l := range cons {
		if use[i] {
			cs = append(cs, l.norm())
		}
	}
	for {
		// contradiction?
		vars := map[*Term][2]int{}
		for _, l := range cs {
			if len(l.c) == 0 && l.k > 0 {
				return true
			}
			for t, c := range l.c {
				v := vars[t]
				if c > 0 {
					v[0]++
				} else {
					v[1]++
				}
				vars[t] = v
			}
		}
		if len(vars) == 0 {
			return false
		}
		var best *Term
		bc := 1 << 30
		for t, v := range vars {
			n := v[0]*v[1] - v[0] - v[1]
			if n < bc || n == bc && t.id < best.id {
				best, bc = t, n
			}
		}
		var pos, negs, rest []Lin
		for _, l := range cs {
			switch c := l.c[best]; {
			case c > 0:
				pos = append(pos, l)
			case c < 0:
				negs = append(negs, l)
			default:
				rest = append(rest, l)
			}
		}
		for _, p := range pos {
			for _, q := range negs {
				cp, cq := p.c[best], -q.c[best]
				r := newLin(0).add(p, cq).add(q, cp)
				delete(r.c, best)
				r = r.norm()
				if len(r.c) == 0 && r.k <= 0 {
					continue
				}
				if r.bad || big(r) {
					continue
				}
				rest = append(rest, r)
			}
		}
		cs = dedup(rest)
		if len(cs) > 600 {
			return false
		}
	}
}

func big(l Lin) bool {
	const m = 1 << 50
	if l.k > m || l.k < -m {
		// keep: constants may be large, but products must not overflow
		if l.k > 1<<62 || l.k < -(1<<62) {
			return true
		}
	}
	for _, c := range l.c {
		if c > 1<<20 || c < -(1<<20) {
			return true
		}
	}
	return false
}

func dedup(cs []Lin) []Lin {
	seen := map[string]int{}
	var out []Lin
	for _, l := range cs {
		var ts []*Term
		for t := range l.c {
			ts = append(ts, t)
		}
		sort.Slice(ts, func(i, j int) bool { return ts[i].id < ts[j].id })
		k := ""
		for _, t := range ts {
			k += itoa(t.id) + ":" + itoa(int(l.c[t])) + ","
		}
		if i, ok := seen[k]; ok {
			if l.k > out[i].k {
				out[i] = l
			}
			continue
		}
		seen[k] = len(out)
		out = append(out, l)
	}
	return out
}

// proves decides goal <= 0 using the constraints, the axioms of the atoms and the disequalities.
func (a *Arith) proves(goal Lin) bool {
	cons := a.axioms(a.cons, goal)
	for round := 0; round < 3; round++ {
		if a.provesRaw(cons, goal) {
			return true
		}
		ch := false
		for _, d := range a.diseq {
			x, y := a.lin(d[0]), a.lin(d[1])
			df := x.add(y, -1)
			if a.provesRaw(cons, df) { // x <= y and x != y
				n := df.add(newLin(1), 1)
				if !a.provesRaw(cons, n) {
					cons = append(cons, n)
					ch = true
				}
			} else if nd := newLin(0).add(df, -1); a.provesRaw(cons, nd) {
				n := nd.add(newLin(1), 1)
				if !a.provesRaw(cons, n) {
					cons = append(cons, n)
					ch = true
				}
			}
		}
		if !ch {
			return false
		}
		cons = a.axioms(cons, goal)
	}
	return a.provesRaw(cons, goal)
}

// le decides x <= y + k.
func (a *Arith) le(x, y *Term, k int64) bool {
	if a.settle != nil {
		a.settle(x)
		a.settle(y)
	}
	return a.proves(a.lin(x).add(a.lin(y), -1).add(newLin(-k), 1))
}

// contradictory: can the collected facts not hold together?
func (a *Arith) contradictory() bool { return a.proves(newLin(1)) || a.infeasibleAll() }

func (a *Arith) infeasibleAll() bool {
	cons := a.axioms(a.cons)
	all := newLin(0)
	for _, l := range cons {
		for t := range l.c {
			all.c[t] = 1
		}
	}
	return infeasible(cons, all)
}

func itoa(n int) string {
	if n == 0 {
		return "0"
	}
	s := ""
	neg := n < 0
	if neg {
		n = -n
	}
	for n > 0 {
		s = string(rune('0'+n%10)) + s
		n /= 10
	}
	if neg {
		s = "-" + s
	}
	return s
}

// exactArith is the linear domain over Go's wrapping integers: a sum or product counts as linear only where the
// facts show that it cannot wrap around. small says which values are known to be far from the ends of the integers;
// limits are such values that others may be compared with.
func exactArith(facts []Fact, small func(*Term) bool, limits []*Term) *Arith {
	const far = 1 << 50
	ok, near := map[*Term]bool{}, map[*Term]bool{}
	var a *Arith
	build := func() {
		a = &Arith{opaque: func(t *Term) bool { return t.Aux != "%" && t.Aux != "/" && !ok[t] }}
		for _, f := range facts {
			a.assume(f.T, f.Truth)
		}
	}
	var bounded func(t *Term) bool
	bounded = func(t *Term) bool {
		if n, isC := t.intVal(); isC {
			return n < far && n > -far
		}
		if small(t) {
			return true
		}
		if t.Op == "conv" && len(t.Sub) == 1 && t.Typ != nil && intType(t.Sub[0]) != nil {
			f, ok1 := intType(t.Sub[0]).Underlying().(*types.Basic)
			d, ok2 := t.Typ.Underlying().(*types.Basic)
			if ok1 && ok2 && f.Info()&types.IsInteger != 0 && d.Info()&types.IsInteger != 0 {
				fs, fu := intSize(f)
				ds, du := intSize(d)
				if ds >= fs && fu == du && bounded(t.Sub[0]) {
					return true
				}
				if ds == 8 && fs == 8 && bounded(t.Sub[0]) && a.proves(newLin(0).add(a.lin(t.Sub[0]), -1)) {
					return true
				}
			}
		}
		if near[t] {
			return true
		}
		l := a.lin(t)
		if !a.proves(newLin(-far).add(l, -1)) {
			return false
		}
		for _, u := range limits {
			if a.proves(l.add(a.lin(u), -1).add(newLin(-far), 1)) {
				return true
			}
		}
		return a.proves(l.add(newLin(-far), 1))
	}
	changed := false
	settle := func(t *Term) {
		var rec func(*Term)
		seen := map[*Term]bool{}
		rec = func(t *Term) {
			if t == nil || seen[t] {
				return
			}
			seen[t] = true
			for _, x := range t.Sub {
				rec(x)
			}
			if t.Op != "bin" || ok[t] || t.Typ != nil && isFloat(t.Typ) {
				return
			}
			switch t.Aux {
			case "+", "-":
				x, y := t.Sub[0], t.Sub[1]
				good := bounded(x) && bounded(y) && (t.Aux == "+" || !isUnsigned(t.Typ))
				near[t] = good
				if !good && t.Aux == "+" {
					// a sum with a small number that is not below its other part has not wrapped around
					for i := range t.Sub {
						if bounded(t.Sub[i]) && a.proves(newLin(0).add(a.lin(t.Sub[i]), -1)) && a.proves(a.lin(t.Sub[1-i]).add(a.lin(t), -1)) {
							good = true
						}
					}
				}
				if good {
					ok[t], changed = true, true
				}
			case "*":
				for i := range t.Sub {
					if n, isC := t.Sub[i].intVal(); isC && n > -1024 && n < 1024 && bounded(t.Sub[1-i]) {
						ok[t], near[t], changed = true, true, true
					}
				}
				// y * (x/y) is not above x
			}
		}
		rec(t)
	}
	build()
	for round := 0; round < 6; round++ {
		changed = false
		for _, f := range facts {
			settle(f.T)
		}
		if !changed {
			break
		}
		build()
	}
	a.settle = settle
	return a
}

// intType is the type of an integer term; lengths, and what is made of them without a type of its own, are ints.
func intType(t *Term) types.Type {
	if t.Typ != nil {
		return t.Typ
	}
	switch t.Op {
	case "len", "cap":
		return types.Typ[types.Int]
	case "bin":
		if t.Aux != "+" && t.Aux != "-" {
			return nil
		}
		var r types.Type
		for _, x := range t.Sub {
			if x.isConst() {
				continue
			}
			k := intType(x)
			if k == nil || isUnsigned(k) {
				return nil
			}
			r = k
		}
		return r
	}
	return nil
}
