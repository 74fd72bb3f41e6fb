package main

import (
	"fmt"
	"go/types"

	"golang.org/x/tools/go/ssa"
)

// hitSlices lists the module's named slice types of hits that can be sorted.
func hitSlices(c *Ctx) []*types.Named {
	var out []*types.Named
	for _, rel := range sortedKeys(c.P.Pkgs) {
		pk := c.P.Pkgs[rel]
		for _, n := range pk.Types.Scope().Names() {
			tn, ok := pk.Types.Scope().Lookup(n).(*types.TypeName)
			if !ok || tn.IsAlias() {
				continue
			}
			t, ok := tn.Type().(*types.Named)
			if !ok || !isHits(t.Underlying()) {
				continue
			}
			if c.P.sliceMethod(t, "Less") != nil {
				out = append(out, t)
			}
		}
	}
	return out
}

// sliceMethod finds the declared method of a named type.
func (p *Program) sliceMethod(t *types.Named, name string) *ssa.Function {
	for i := 0; i < t.NumMethods(); i++ {
		if t.Method(i).Name() == name {
			return p.Prog.FuncValue(t.Method(i))
		}
	}
	return nil
}

// scoresOf gives the score vector of the element at idx of a slice of hits.
func scoresOf(st *State, docs, idx *Term, elem types.Type) *Term {
	base, t := mkIndexAddr(docs, idx, elem), elem
	for d := 0; d < 3; d++ {
		s, ok := t.Underlying().(*types.Struct)
		if !ok {
			return nil
		}
		if i := fieldIdx(t, "Scores"); i >= 0 {
			return st.load(mkFieldAddr(base, t, i), s.Field(i).Type())
		}
		next := -1
		for i := 0; i < s.NumFields(); i++ {
			if s.Field(i).Embedded() {
				next = i
			}
		}
		if next < 0 {
			return nil
		}
		base, t = mkFieldAddr(base, t, next), s.Field(next).Type()
	}
	return nil
}

// vectorOrder decides, from what is known on the path, how vector a compares
// with vector b in the lexicographic order.
type vectorOrder struct{ a, b *Term }

// comp: t is component k of one of the vectors.
func (v vectorOrder) comp(st *State, t *Term) (which int, k *Term) {
	base, k, ok := elemLoad(t)
	if !ok {
		return 0, nil
	}
	root, lo, _ := st.window(base)
	switch {
	case root == v.a:
		return 1, mkAdd(lo, k)
	case root == v.b:
		return 2, mkAdd(lo, k)
	}
	return 0, nil
}

// less: the fact says (or, if not, denies) x[k] < y[k]; dir 1 for a[k] < b[k], 2 for b[k] < a[k], 3 for equality.
func (v vectorOrder) atom(st *State, f *Term) (dir int, k *Term) {
	if f.op != OpLt && f.op != OpEq {
		return 0, nil
	}
	w1, k1 := v.comp(st, f.args[0])
	w2, k2 := v.comp(st, f.args[1])
	if w1 == 0 || w2 == 0 || w1 == w2 || k1 != k2 && !st.proveEqInt(k1, k2) {
		return 0, nil
	}
	if f.op == OpEq {
		return 3, k1
	}
	return w1, k1
}

// equalSpans gives the indices at which the vectors are known to agree.
func (v vectorOrder) equalSpans(st *State) []span {
	var out []span
	collect := func(facts map[*Term]bool, at func(k *Term) (span, bool)) {
		ge, le := map[*Term]bool{}, map[*Term]bool{}
		eq := map[*Term]bool{}
		for f, val := range facts {
			d, k := v.atom(st, f)
			switch {
			case d == 3 && val:
				eq[k] = true
			case d == 1 && !val:
				ge[k] = true
			case d == 2 && !val:
				le[k] = true
			}
		}
		for k := range ge {
			if le[k] {
				eq[k] = true
			}
		}
		for k := range eq {
			if s, ok := at(k); ok {
				out = append(out, s)
			}
		}
	}
	collect(st.facts, func(k *Term) (span, bool) { return span{k, k}, true })
	for _, fa := range st.forall {
		collect(fa.facts, func(k *Term) (span, bool) { return st.loopSpan(fa, k) })
	}
	return out
}

// greater: a is proved to come lexicographically after b (dir 2) or before (dir 1)
// in value: dir 2 means b < a.
func (v vectorOrder) strict(st *State, dir int) bool {
	eq := v.equalSpans(st)
	for f, val := range st.facts {
		if d, k := v.atom(st, f); val && d == dir && st.covered(eq, mkInt(0), k) && st.proveLe(mkInt(0), k) {
			return true
		}
	}
	// different, and not the other way round
	for f, val := range st.facts {
		d, k := v.atom(st, f)
		if val || d != 3-dir {
			continue
		}
		for g, val2 := range st.facts {
			d2, k2 := v.atom(st, g)
			if !val2 && d2 == 3 && (k == k2 || st.proveEqInt(k, k2)) && st.covered(eq, mkInt(0), k) && st.proveLe(mkInt(0), k) {
				return true
			}
		}
	}
	small, big := v.b, v.a
	if dir == 1 {
		small, big = v.a, v.b
	}
	return st.proveLt(mkLen(small), mkLen(big)) && st.covered(eq, mkInt(0), mkLen(small))
}

func (v vectorOrder) equal(st *State) bool {
	return st.proveEqInt(mkLen(v.a), mkLen(v.b)) && st.covered(v.equalSpans(st), mkInt(0), mkLen(v.a))
}

// notGreater: a is proved to be lexicographically at most b.
func (v vectorOrder) notGreater(st *State) bool {
	if v.strict(st, 1) || v.equal(st) {
		return true
	}
	// a prefix of b, or equal to it
	return st.proveLe(mkLen(v.a), mkLen(v.b)) && st.covered(v.equalSpans(st), mkInt(0), mkLen(v.a))
}

// sortLog remembers what was sorted last.
type sortLog struct {
	docs *Term
	rev  bool
}

func (r *sortLog) Key() string {
	if r.docs == nil {
		return ""
	}
	return fmt.Sprint(r.docs.id, r.rev)
}
func (r *sortLog) Clone() Client { n := *r; return &n }

func init() {
	register("C13", "Comparator analysis: on every path of every Less of a sortable slice of hits, the answer true is proved to be given only when the first vector is lexicographically greater (all earlier components equal, by facts that hold for every completed loop iteration, and the deciding component or the length larger), and false only when it is not; the components compared are in range and belong to the two documents asked about. Swap is proved to exchange exactly the two elements and Len to be the number of hits, so the library sort permutes. Each ranking step and each merge is proved to sort exactly the hits it returns, in reverse exactly when asked for.",
		func(c *Ctx) {
			hs := hitSlices(c)
			if len(hs) < 2 {
				c.violate("C13:types", "", "", "the sortable slices of full and of id-only hits were not found", nil)
			}
			for _, t := range hs {
				elem := t.Underlying().(*types.Slice).Elem()
				name := structTypeName(t)
				less, swap, length := c.P.sliceMethod(t, "Less"), c.P.sliceMethod(t, "Swap"), c.P.sliceMethod(t, "Len")
				for _, m := range []struct {
					f *ssa.Function
					n string
				}{{less, "Less"}, {swap, "Swap"}, {length, "Len"}} {
					if m.f == nil {
						c.violate("C13:method:"+name+"."+m.n, "", "", "the method "+m.n+" of "+name+" was not found", nil)
					}
				}
				if less == nil || swap == nil || length == nil {
					continue
				}
				// Less
				e := NewEngine(c.P)
				order := func(st *State) vectorOrder {
					a := st.stack[0].args
					return vectorOrder{scoresOf(st, a[0], a[1], elem), scoresOf(st, a[0], a[2], elem)}
				}
				e.Hooks.Index = func(st *State, base, idx *Term, ins ssa.Instruction) {
					v := order(st)
					root, lo, _ := st.window(base)
					if root != v.a && root != v.b {
						return
					}
					k := mkAdd(lo, idx)
					ok := st.proveLe(mkInt(0), k) && st.proveLt(k, mkLen(root))
					c.ob("component-in-range", fmt.Sprintf("%s at %s", name, e.pos(insPos(ins))), ok)
					if !ok {
						st.report("C13:range:"+name, ins, "component %v of a score vector may be out of range", k)
					}
				}
				e.Hooks.Return = func(st *State, fn *ssa.Function, res []*Term, ins ssa.Instruction) {
					v := order(st)
					if v.a == nil || v.b == nil {
						st.report("C13:scores:"+name, ins, "hits have no score vector")
						return
					}
					for _, ans := range []bool{true, false} {
						s := st.clone()
						if !s.assume(res[0], ans) {
							continue
						}
						one := s.truth(mkEq(s.stack[0].args[1], s.stack[0].args[2])) == 1
						ok := ans && v.strict(s, 2) || !ans && (one || v.notGreater(s))
						c.ob("lexicographic-answer", fmt.Sprintf("%s at %s: %v", name, e.pos(insPos(ins)), ans), ok)
						if !ok {
							st.report(fmt.Sprintf("C13:order:%s:%v", name, ans), ins, "Less may answer %v although the score vectors are not in that order", ans)
						}
					}
				}
				c.runRoots(e, []*ssa.Function{less}, nil)
				// Swap
				e2 := NewEngine(c.P)
				e2.Hooks.Store = func(st *State, loc, val *Term, ins ssa.Instruction) {
					a := st.stack[0].args
					r := rootOf(loc)
					if isLocalRoot(r) {
						return
					}
					x := loc
					for x.op == OpFieldAddr {
						x = x.args[0]
					}
					ok := x.op == OpIndexAddr && x.args[0] == a[0] && (x.args[1] == a[1] || x.args[1] == a[2])
					c.ob("swap-touches-only-the-two", name, ok)
					if !ok {
						st.report("C13:swap:"+name, ins, "Swap writes %v, which is neither of the two elements", loc)
					}
				}
				e2.Hooks.Return = func(st *State, fn *ssa.Function, res []*Term, ins ssa.Instruction) {
					a := st.stack[0].args
					b := st.client.(*swapSt)
					i, j := st.load(mkIndexAddr(a[0], a[1], elem), elem), st.load(mkIndexAddr(a[0], a[2], elem), elem)
					ok := i == b.j && j == b.i
					c.ob("swap-exchanges", name, ok)
					if !ok {
						st.report("C13:swap:"+name, ins, "Swap does not exchange the two elements: they end up as %v and %v", i, j)
					}
				}
				c.runRoots(e2, []*ssa.Function{swap}, func(st *State, fn *ssa.Function) {
					a := st.stack[0].args
					st.addFact(mkEq(a[1], a[2]), false)
					st.client = &swapSt{st.load(mkIndexAddr(a[0], a[1], elem), elem), st.load(mkIndexAddr(a[0], a[2], elem), elem)}
				})
				// Len
				e3 := NewEngine(c.P)
				e3.Hooks.Return = func(st *State, fn *ssa.Function, res []*Term, ins ssa.Instruction) {
					ok := st.proveEqInt(res[0], mkLen(st.stack[0].args[0]))
					c.ob("len-is-number-of-hits", name, ok)
					if !ok {
						st.report("C13:len:"+name, ins, "Len answers %v instead of the number of hits", res[0])
					}
				}
				c.runRoots(e3, []*ssa.Function{length}, nil)
			}
			c.need("lexicographic-answer", 1)
			c.need("component-in-range", 1)
			c.need("swap-exchanges", 1)
			c.need("len-is-number-of-hits", 1)

			// what is sorted, and how
			sorting := func(e *Engine) {
				e.Stable = stableOptions
				e.Hooks.Called = func(st *State, ci *CallInfo, res *Term) {
					switch ci.Name {
					case "sort.Sort", "sort.Stable":
						x, rev := unwrapIface(ci.Args[0]), false
						for r := st.reverseOf(x); r != nil; r = st.reverseOf(x) {
							x, rev = unwrapIface(r), !rev
						}
						st.client = &sortLog{x, rev}
					case "sort.Reverse":
						st.facts[markTerm("reverse", res, ci.Args[0])] = true
					}
				}
				e.Hooks.Store = func(st *State, loc, val *Term, ins ssa.Instruction) {
					if s := st.client.(*sortLog); s.docs != nil && rootOf(loc) == rootOf(s.docs) && loc.op != OpAlloc {
						st.client = &sortLog{}
					}
				}
			}
			check := func(st *State, fn *ssa.Function, docs, rev *Term, ins ssa.Instruction) {
				root, _, _ := st.window(docs)
				root = unwrapIface(root)
				if st.proveLe(mkLen(root), mkInt(1)) {
					return
				}
				s := st.client.(*sortLog)
				bad := ""
				if s.docs == nil || unwrapIface(s.docs) != root {
					bad = "the hits returned are not sorted"
				} else {
					for _, r := range []bool{true, false} {
						if st.clone().assume(rev, r) && s.rev != r {
							bad = fmt.Sprintf("the hits are sorted in the wrong direction when ReverseOrder is %v", r)
						}
					}
				}
				c.ob("sorted-as-asked", fmt.Sprintf("%s at %s", fnName(fn), c.P.pos(insPos(ins))), bad == "")
				if bad != "" {
					st.report("C13:sorted:"+fnName(fn), ins, "%s", bad)
				}
			}
			for _, name := range []string{"Rank", "RankDocs", "RankDocID"} {
				rk := c.P.fn("(*core.Ranker)." + name)
				if rk == nil {
					if name == "Rank" {
						c.mustFn("(*core.Ranker).Rank")
					}
					continue
				}
				oi, bi := paramOf(rk, "types.RankOpts"), boolParam(rk)
				if oi < 0 || bi < 0 {
					c.violateFn("C13:signature:"+name, rk, "the ranking step no longer takes ranking options and the count-only flag")
					continue
				}
				e := NewEngine(c.P)
				e.Guard = coreGuard
				sorting(e)
				e.Hooks.Return = func(st *State, fn *ssa.Function, res []*Term, ins ssa.Instruction) {
					if st.holds(st.stack[0].args[bi], true) || len(res) == 0 {
						return
					}
					check(st, fn, res[0], rankOptsField(st, st.stack[0].args[oi], rk.Params[oi].Type(), "ReverseOrder"), ins)
				}
				c.runRoots(e, []*ssa.Function{rk}, func(st *State, fn *ssa.Function) { st.client = &sortLog{} })
			}
			n := 0
			for _, fn := range c.P.methodsOf("riot", "Engine") {
				oi, qi := paramOf(fn, "types.RankOpts"), paramOf(fn, "types.SearchReq")
				if oi < 0 || qi < 0 || fn.Signature.Results().Len() != 1 || !namedIs(fn.Signature.Results().At(0).Type(), "types.SearchResp") {
					continue
				}
				n++
				e := NewEngine(c.P)
				sorting(e)
				e.Hooks.Return = func(st *State, f *ssa.Function, res []*Term, ins ssa.Instruction) {
					q, qt := st.stack[0].args[qi], fn.Params[qi].Type()
					if st.holds(rankOptsField(st, q, qt, "CountDocsOnly"), true) || st.holds(rankOptsField(st, q, qt, "Orderless"), true) {
						return
					}
					rt := fn.Signature.Results().At(0).Type()
					di := fieldIdx(rt, "Docs")
					if di < 0 {
						return
					}
					check(st, f, mkField(res[0], rt, di), rankOptsField(st, st.stack[0].args[oi], fn.Params[oi].Type(), "ReverseOrder"), ins)
				}
				c.runRoots(e, []*ssa.Function{fn}, func(st *State, fn *ssa.Function) { st.client = &sortLog{} })
			}
			if n < 2 {
				c.violate("C13:merge", "", "", "the functions that merge the shards' results (SearchReq, RankOpts -> SearchResp) were not found", nil)
			}
			c.need("sorted-as-asked", 1)
		}, "no score component is NaN", "sort.Sort, sort.Stable and sort.Reverse do what they document")
}

// reverseOf: x is the result of sort.Reverse applied to the value returned.
func (st *State) reverseOf(x *Term) *Term {
	for f, v := range st.facts {
		if v && f.op == OpCall && f.aux == "@reverse" && f.args[0] == x {
			return f.args[1]
		}
	}
	return nil
}

// swapSt: the two elements before the exchange.
type swapSt struct{ i, j *Term }

func (s *swapSt) Key() string   { return fmt.Sprint(s.i.id, s.j.id) }
func (s *swapSt) Clone() Client { return s }
