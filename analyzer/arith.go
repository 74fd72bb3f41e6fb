package main

import (
	"math/big"
	"sort"
)

// Linear integer constraints and Fourier–Motzkin elimination: the numeric
// abstract domain (polyhedra) of the analysis. A constraint is Σ coef·atom + c <= 0.

type lin struct {
	coef map[*Term]*big.Int
	c    *big.Int
}

func newLin() *lin { return &lin{coef: map[*Term]*big.Int{}, c: new(big.Int)} }

func (l *lin) add(o *lin, k *big.Int) {
	for t, v := range o.coef {
		x := l.coef[t]
		if x == nil {
			x = new(big.Int)
		} else {
			x = new(big.Int).Set(x)
		}
		x.Add(x, new(big.Int).Mul(v, k))
		if x.Sign() == 0 {
			delete(l.coef, t)
		} else {
			l.coef[t] = x
		}
	}
	l.c = new(big.Int).Add(l.c, new(big.Int).Mul(o.c, k))
}

func linearize(t *Term) *lin {
	l := newLin()
	linInto(l, t, big.NewInt(1))
	return l
}

func linInto(l *lin, t *Term, k *big.Int) {
	if t.op == OpConst && t.cv != nil {
		if b, ok := new(big.Int).SetString(t.cv.ExactString(), 10); ok {
			l.c = new(big.Int).Add(l.c, new(big.Int).Mul(b, k))
			return
		}
	}
	switch t.op {
	case OpAdd:
		linInto(l, t.args[0], k)
		linInto(l, t.args[1], k)
		return
	case OpSub:
		linInto(l, t.args[0], k)
		linInto(l, t.args[1], new(big.Int).Neg(k))
		return
	case OpMul:
		for i := 0; i < 2; i++ {
			if c, ok := t.args[i].intVal(); ok {
				linInto(l, t.args[1-i], new(big.Int).Mul(k, big.NewInt(c)))
				return
			}
		}
	case OpLen:
		if n := mkLen(t.args[0]); n != t {
			linInto(l, n, k)
			return
		}
	case OpConvert:
		// widening conversions between integer types preserve the value
		if isIntType(t.typ) && isIntType(t.args[0].typ) && !isUnsigned(t.args[0].typ) && !isUnsigned(t.typ) {
			linInto(l, t.args[0], k)
			return
		}
	}
	l.add(&lin{coef: map[*Term]*big.Int{t: big.NewInt(1)}, c: new(big.Int)}, k)
}

// factLins turns an integer fact into constraints (nil if not linear integer).
func factLins(atom *Term, val bool) []*lin {
	switch atom.op {
	case OpLt:
		if !intish(atom.args[0]) || !intish(atom.args[1]) {
			return nil
		}
		a, b := linearize(atom.args[0]), linearize(atom.args[1])
		if val { // a < b : a-b+1 <= 0
			a.add(b, big.NewInt(-1))
			a.c = new(big.Int).Add(a.c, big.NewInt(1))
			return []*lin{a}
		}
		b.add(a, big.NewInt(-1)) // b <= a
		return []*lin{b}
	case OpEq:
		if !val || !intish(atom.args[0]) || !intish(atom.args[1]) {
			return nil
		}
		a, b := linearize(atom.args[0]), linearize(atom.args[1])
		n := linearize(atom.args[1])
		n.add(linearize(atom.args[0]), big.NewInt(-1))
		a.add(b, big.NewInt(-1))
		return []*lin{a, n}
	}
	return nil
}

func intish(t *Term) bool {
	switch t.op {
	case OpLen, OpCap:
		return true
	}
	return isIntType(t.typ)
}

// implicit constraints of an atom
func implicit(t *Term) []*lin {
	var out []*lin
	neg := func(x *Term) {
		l := newLin()
		l.coef[x] = big.NewInt(-1)
		out = append(out, l)
	}
	switch {
	case t.op == OpLen, t.op == OpCap:
		neg(t)
		// len <= cap
		if t.op == OpLen {
			c := mk(OpCap, tInt, "", t.args[0])
			l := newLin()
			l.coef[t] = big.NewInt(1)
			l.coef[c] = big.NewInt(-1)
			out = append(out, l)
		}
		// lengths fit an int
		l := newLin()
		l.coef[t] = big.NewInt(1)
		l.c = new(big.Int).Neg(maxInt)
		out = append(out, l)
	case isUnsigned(t.typ):
		neg(t)
	case t.op == OpArith && (t.aux == "/" || t.aux == ">>") && len(t.args) == 2 && isIntType(t.typ):
		// q = x / c: |x - c*q| <= c-1
		c, ok := t.args[1].intVal()
		if t.aux == ">>" {
			if ok = ok && c >= 0 && c < 30; ok {
				c = 1 << uint(c)
			}
		}
		if ok && c > 0 {
			x := linearize(t.args[0])
			q := &lin{coef: map[*Term]*big.Int{t: big.NewInt(1)}, c: new(big.Int)}
			a := newLin()
			a.add(x, big.NewInt(1))
			a.add(q, big.NewInt(-c))
			a.c = new(big.Int).Sub(a.c, big.NewInt(c-1))
			b := newLin()
			b.add(x, big.NewInt(-1))
			b.add(q, big.NewInt(c))
			b.c = new(big.Int).Sub(b.c, big.NewInt(c-1))
			out = append(out, a, b)
		}
	case t.op == OpArith && t.aux == "%" && len(t.args) == 2 && isIntType(t.typ):
		if c, ok := t.args[1].intVal(); ok && c > 0 {
			for _, k := range []int64{1, -1} {
				l := newLin()
				l.coef[t] = big.NewInt(k)
				l.c = big.NewInt(-(c - 1))
				out = append(out, l)
			}
		}
	case isIntType(t.typ):
		l := newLin()
		l.coef[t] = big.NewInt(1)
		l.c = new(big.Int).Neg(maxInt)
		m := newLin()
		m.coef[t] = big.NewInt(-1)
		m.c = new(big.Int).Sub(new(big.Int).Neg(maxInt), big.NewInt(1))
		out = append(out, l, m)
	}
	return out
}

var maxInt = new(big.Int).SetUint64(1<<63 - 1)

// unsat reports whether the constraints have no rational solution. It gives
// up (false) when elimination grows beyond a bound.
func unsat(cs []*lin) bool {
	work := cs
	for {
		// constants
		var rest []*lin
		for _, l := range work {
			if len(l.coef) == 0 {
				if l.c.Sign() > 0 {
					return true
				}
				continue
			}
			rest = append(rest, l)
		}
		if len(rest) == 0 {
			return false
		}
		// choose the variable with the fewest products
		type pn struct{ p, n int }
		cnt := map[*Term]*pn{}
		for _, l := range rest {
			for t, v := range l.coef {
				if cnt[t] == nil {
					cnt[t] = &pn{}
				}
				if v.Sign() > 0 {
					cnt[t].p++
				} else {
					cnt[t].n++
				}
			}
		}
		var best *Term
		bs := 1 << 30
		var ts []*Term
		for t := range cnt {
			ts = append(ts, t)
		}
		sort.Slice(ts, func(i, j int) bool { return ts[i].id < ts[j].id })
		for _, t := range ts {
			c := cnt[t]
			if s := c.p * c.n; s < bs {
				bs, best = s, t
			}
		}
		var pos, ng, next []*lin
		for _, l := range rest {
			v := l.coef[best]
			switch {
			case v == nil:
				next = append(next, l)
			case v.Sign() > 0:
				pos = append(pos, l)
			default:
				ng = append(ng, l)
			}
		}
		if len(pos)*len(ng) > 4000 {
			return false
		}
		for _, p := range pos {
			for _, n := range ng {
				r := newLin()
				r.add(p, new(big.Int).Neg(n.coef[best]))
				r.add(n, p.coef[best])
				next = append(next, r)
			}
		}
		work = dedupLins(next)
		if len(work) > 3000 {
			return false
		}
	}
}

func dedupLins(ls []*lin) []*lin {
	seen := map[string]*lin{}
	var keys []string
	for _, l := range ls {
		var ids []*Term
		for t := range l.coef {
			ids = append(ids, t)
		}
		sort.Slice(ids, func(i, j int) bool { return ids[i].id < ids[j].id })
		g := new(big.Int)
		for _, t := range ids {
			g.GCD(nil, nil, g, new(big.Int).Abs(l.coef[t]))
		}
		if g.Sign() > 0 && g.Cmp(big.NewInt(1)) != 0 {
			n := newLin()
			for t, v := range l.coef {
				n.coef[t] = new(big.Int).Quo(v, g)
			}
			// Σ + c/g <= 0 over integers: round up
			q, m := new(big.Int).QuoRem(l.c, g, new(big.Int))
			if m.Sign() > 0 {
				q.Add(q, big.NewInt(1))
			}
			n.c = q
			l = n
		}
		k := ""
		for _, t := range ids {
			k += l.coef[t].String() + "*" + itoa(t.id) + "+"
		}
		if o, ok := seen[k]; ok {
			if l.c.Cmp(o.c) > 0 {
				seen[k] = l
			}
			continue
		}
		seen[k] = l
		keys = append(keys, k)
	}
	out := make([]*lin, 0, len(keys))
	for _, k := range keys {
		out = append(out, seen[k])
	}
	return out
}

func itoa(n int) string { return big.NewInt(int64(n)).String() }

// relevant collects the integer facts of the state connected to the given atoms.
func (st *State) relevantLins(seedLins []*lin) []*lin {
	type fl struct {
		ls []*lin
		at map[*Term]bool
	}
	var all []fl
	for atom, val := range st.facts {
		ls := st.e.factLinsCached(atom, val)
		if len(ls) == 0 {
			continue
		}
		at := map[*Term]bool{}
		for _, l := range ls {
			for t := range l.coef {
				at[t] = true
			}
		}
		all = append(all, fl{ls, at})
	}
	atoms := map[*Term]bool{}
	for _, l := range seedLins {
		for t := range l.coef {
			atoms[t] = true
		}
	}
	used := make([]bool, len(all))
	out := append([]*lin(nil), seedLins...)
	impl := map[*Term]bool{}
	for ch := true; ch; {
		ch = false
		for t := range atoms {
			if !impl[t] {
				impl[t] = true
				for _, l := range implicit(t) {
					out = append(out, l)
					for x := range l.coef {
						if !atoms[x] {
							atoms[x] = true
							ch = true
						}
					}
				}
			}
		}
		for i, f := range all {
			if used[i] {
				continue
			}
			hit := false
			for t := range f.at {
				if atoms[t] {
					hit = true
					break
				}
			}
			if hit {
				used[i] = true
				ch = true
				out = append(out, f.ls...)
				for t := range f.at {
					atoms[t] = true
				}
			}
		}
	}
	// a quotient of a non-negative number is rounded down
	var divs []*Term
	for t := range atoms {
		if t.op == OpArith && (t.aux == "/" || t.aux == "%") && len(t.args) == 2 && isIntType(t.typ) {
			if c, ok := t.args[1].intVal(); ok && c > 0 {
				divs = append(divs, t)
			}
		}
	}
	for _, t := range divs {
		c, _ := t.args[1].intVal()
		x := linearize(t.args[0])
		neg := newLin()
		neg.add(x, big.NewInt(1))
		neg.c = new(big.Int).Add(neg.c, big.NewInt(1))
		if len(x.coef) > 0 && !unsat(dedupLins(append(append([]*lin(nil), out...), neg))) {
			continue
		}
		q := newLin()
		if t.aux == "/" {
			q.add(x, big.NewInt(-1))
			q.add(&lin{coef: map[*Term]*big.Int{t: big.NewInt(1)}, c: new(big.Int)}, big.NewInt(c))
		} else {
			q.coef[t] = big.NewInt(-1)
		}
		out = append(out, q)
	}
	return out
}

// proveLe proves a <= b from the integer facts of the state.
func (st *State) proveLe(a, b *Term) bool {
	if a == b {
		return true
	}
	// refute b < a
	l := linearize(b)
	l.add(linearize(a), big.NewInt(-1))
	l.c = new(big.Int).Add(l.c, big.NewInt(1))
	if len(l.coef) == 0 {
		return l.c.Sign() > 0
	}
	base := st.relevantLins([]*lin{l})
	if unsat(dedupLins(base)) {
		return true
	}
	// integers known to differ: one is smaller
	at := map[*Term]bool{}
	for _, x := range base {
		for t := range x.coef {
			at[t] = true
		}
	}
	n := 0
next:
	for f, v := range st.facts {
		if v || f.op != OpEq || !intish(f.args[0]) || !intish(f.args[1]) {
			continue
		}
		lo := linearize(f.args[0])
		lo.add(linearize(f.args[1]), big.NewInt(-1)) // x - y
		for t := range lo.coef {
			if !at[t] {
				continue next
			}
		}
		if n++; n > 6 {
			break
		}
		hi := newLin()
		hi.add(lo, big.NewInt(-1))
		lo.c = new(big.Int).Add(lo.c, big.NewInt(1)) // x < y
		hi.c = new(big.Int).Add(hi.c, big.NewInt(1)) // y < x
		if unsat(dedupLins(append(append([]*lin(nil), base...), lo))) && unsat(dedupLins(append(append([]*lin(nil), base...), hi))) {
			return true
		}
	}
	return false
}

func (st *State) proveLt(a, b *Term) bool { return st.proveLe(mkAdd(a, mkInt(1)), b) }
func (st *State) proveEqInt(a, b *Term) bool {
	return a == b || st.proveLe(a, b) && st.proveLe(b, a)
}

// intInfeasible reports whether adding the fact makes the integer facts contradictory.
func (st *State) intInfeasible(atom *Term, val bool) bool {
	ls := st.e.factLinsCached(atom, val)
	if len(ls) == 0 {
		// a != b: infeasible iff a == b is provable
		if atom.op == OpEq && !val && intish(atom.args[0]) && intish(atom.args[1]) {
			return st.proveEqInt(atom.args[0], atom.args[1])
		}
		return false
	}
	return unsat(dedupLins(st.relevantLins(ls)))
}
