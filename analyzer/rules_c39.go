package main

import (
	"fmt"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// lookupBounds decides that the lookups never index or slice out of range.
func lookupBounds(c *Ctx) {
	lk, lg := lookupRoots(c)
	if lk == nil || lg == nil {
		return
	}
	r := &c08{c: c}
	l := newLookups(c)
	e := l.e
	// int slice -> slice of posting lists whose entries it points to
	ptrs, prevPtrs := map[*Term]*Term{}, map[*Term]*Term{}
	// loops counting the tokens that have positions: counter phi -> (table, pointers, index, ok)
	type counter struct {
		tab, ptr, idx *Term
		ok            bool
	}
	counts, prevCounts := map[string]map[*Term]*counter{}, map[string]map[*Term]*counter{}
	neg, prevNeg := map[string]bool{}, map[string]bool{} // loops that may take the walk's slot below 0
	start := e.PassStart
	e.PassStart = func() {
		start()
		prevPtrs, ptrs = ptrs, map[*Term]*Term{}
		prevNeg, neg = neg, map[string]bool{}
		prevCounts, counts = counts, map[string]map[*Term]*counter{}
	}
	slot0 := func(p *Term) *Term { return mkIndexAddr(p, mkInt(0), tInt) }
	// slot 0 of p is known not to be negative
	slot0ok := func(st *State, p *Term) bool {
		return st.marked("slot0", p) || st.proveLe(mkInt(0), st.load(slot0(p), tInt))
	}
	prevBranch := e.Hooks.Branch
	e.Hooks.Branch = func(st *State, cond *Term, v bool, ins ssa.Instruction) {
		if prevBranch != nil {
			prevBranch(st, cond, v, ins)
		}
		for p := range prevPtrs {
			if contains(cond, slot0(p)) && st.proveLe(mkInt(0), st.load(slot0(p), tInt)) {
				st.mark("slot0", p)
			}
		}
	}
	e.Hooks.LoopEnter = func(st *State, fr *Frame, h *ssa.BasicBlock) {
		if !prevNeg[e.loopKey(fr, h)] {
			return // the loop does not lower the slot
		}
		for f := range st.facts {
			if f.op == OpCall && f.aux == "@slot0" {
				delete(st.facts, f)
			}
		}
	}
	var inRange func(st *State, list, idx *Term) bool
	inRange = func(st *State, list, idx *Term) bool {
		ids := st.load(mkFieldAddr(list, c.P.typeOf("core", "KeywordIndices"), fieldIdx(c.P.typeOf("core", "KeywordIndices"), "docIds")), types.NewSlice(tString))
		n := mkLen(ids)
		if idx == mkSub(n, mkInt(1)) || idx == mkInt(0) {
			return true // lists are never empty
		}
		if st.proveLe(mkInt(0), idx) && st.proveLt(idx, n) {
			return true
		}
		if isPos(idx) && idx.args[0] == list && idx.args[2] == mkInt(0) {
			f := mk(OpCall, tBool, "@found:"+idx.aux[len("@pos:"):], idx.args...)
			if st.holds(f, true) {
				return inRange(st, list, idx.args[3])
			}
		}
		if x := mkAdd(idx, mkInt(1)); isPos(x) && x.args[0] == list && x.args[2] == mkInt(0) && st.proveLe(mkInt(0), idx) {
			return inRange(st, list, x.args[3])
		}
		if pb, i, ok := elemLoad(idx); ok {
			if tb, j, ok := elemLoad(list); ok && i == j && prevPtrs[pb] == tb {
				if st.proveLe(mkInt(1), i) {
					return true
				}
				return slot0ok(st, pb) || i == mkInt(0) && st.proveLe(mkInt(0), idx)
			}
		}
		return false
	}
	prevCall := e.Hooks.Call
	e.Hooks.Call = func(st *State, ci *CallInfo) (bool, *Term) {
		if ci.Fn != nil && e.Opaque(ci.Fn) {
			// token proximity: at least one token, and each has a position in the document
			var tab, ptr, toks *Term
			for _, a := range ci.Args {
				s, ok := a.typ.Underlying().(*types.Slice)
				switch {
				case !ok:
				case isStringType(s.Elem()):
					toks = a
				case isIntType(s.Elem()):
					ptr = a
				case namedIs(s.Elem(), "core.KeywordIndices"):
					tab = a
				}
			}
			ok := false
			if tab != nil && ptr != nil && toks != nil {
				root, lo, hi := sliceParts(tab)
				n := mkLen(toks)
				some := st.proveLe(mkInt(1), n)
				all := false
				nonEmpty := func(f *Term, v bool) (t, p, i *Term, is bool) {
					// 0 < len(t[i].locations[p[i]])
					if f.op == OpEq && !v && f.args[1] == mkInt(0) || f.op == OpLt && v && f.args[0] == mkInt(0) {
						for _, a := range f.args {
							if a.op != OpLen {
								continue
							}
							if b, ix, k := elemLoad(a.args[0]); k && loadsField(b, fLocs) {
								if tb, ti, k := elemLoad(b.args[0].args[0]); k {
									if pb, pi, k := elemLoad(ix); k && ti == pi {
										return tb, pb, ti, true
									}
								}
							}
						}
					}
					return nil, nil, nil, false
				}
				for _, fa := range st.forall {
					for f, v := range fa.facts {
						if t, p, i, k := nonEmpty(f, v); k && t == root && p == ptr {
							if sp, k := st.loopSpan(fa, i); k && st.covered([]span{sp}, mkInt(0), n) {
								all = true
							}
						}
					}
					for ph, ct := range prevCounts[fa.ctx] {
						if !ct.ok || ct.tab != root || ct.ptr != ptr {
							continue
						}
						for k, p := range fa.phi {
							if p != ph || !st.proveLe(fa.init[k], mkInt(0)) || !st.proveLe(n, ph) {
								continue
							}
							// counted n times over exactly the n tokens
							if sp, k2 := st.loopSpan(fa, ct.idx); k2 && st.proveEqInt(sp.from, mkInt(0)) && st.proveLe(mkAdd(sp.to, mkInt(1)), n) {
								all = true
							}
						}
					}
				}
				ok = lo == mkInt(0) && st.proveEqInt(hi, n) && some && all
			}
			c.ob("proximity-precondition", fmt.Sprintf("%s called at %s", fnName(ci.Fn), e.pos(insPos(ci.Instr))), ok)
			if !ok {
				st.report("C39:proximity:"+fnName(ci.Instr.Parent()), ci.Instr, "positions are combined by %s although it is not established that there is a token and that every token has a position in the document", ci.Fn.Name())
			}
			return false, nil
		}
		ok, res := prevCall(st, ci)
		if ok {
			f := res.args[1]
			list := f.args[0]
			if tb, i, is := elemLoad(list); is {
				if pb, j, is := elemLoad(f.args[3]); is && i == j {
					ptrs[pb] = tb
				}
			}
			okR := f.args[2] == mkInt(0) && inRange(st, list, f.args[3])
			c.ob("search-range", fmt.Sprintf("%s at %s: %v", fnName(ci.Instr.Parent()), e.pos(insPos(ci.Instr)), f.args[3]), okR)
			if !okR {
				st.report("C39:search:"+fnName(ci.Instr.Parent()), ci.Instr, "the posting list is searched up to %v, which is not established to be one of its entries", f.args[3])
			}
		}
		return ok, res
	}
	prevStore := e.Hooks.Store
	e.Hooks.Store = func(st *State, loc, val *Term, ins ssa.Instruction) {
		prevStore(st, loc, val, ins)
		if loc.op != OpIndexAddr || prevPtrs[loc.args[0]] == nil {
			return
		}
		p, i := loc.args[0], loc.args[1]
		ok := inRange(st, mk(OpLoad, listPtr(c), "", mkIndexAddr(prevPtrs[p], i, nil)), val)
		if !ok {
			// the list as loaded on this path
			lt := mkIndexAddr(prevPtrs[p], i, nil)
			for a := range st.mem {
				if a == lt {
					ok = inRange(st, st.mem[a], val)
				}
			}
		}
		if i == mkInt(0) {
			// the walk's own position may step below 0, where the walk ends
			if ok || st.proveLe(mkInt(0), val) {
				st.mark("slot0", p)
			} else {
				delete(st.facts, markTerm("slot0", p))
				for _, f := range st.stack {
					for h := range f.loops {
						neg[e.loopKey(f, h)] = true
					}
				}
			}
			visit(val, func(t *Term) {
				if t.op == OpLoad && t.args[0] == loc && val == mkSub(t, mkInt(1)) {
					ok = true
				}
			})
			if !ok && st.proveLe(mkInt(-1), val) {
				for x := range st.facts { // a counter walking down the list
					if x.op == OpLt && contains(x, val) {
						ok = true
					}
				}
			}
		}
		c.ob("pointer-stays-in-list", fmt.Sprintf("%s at %s: %v", fnName(ins.Parent()), e.pos(insPos(ins)), val), ok)
		if !ok {
			st.report("C39:pointer:"+fnName(ins.Parent()), ins, "the pointer into a posting list is set to %v, which is not established to be one of its entries", val)
		}
	}
	typeIs := func(st *State, name string) bool {
		k := mkInt(r.constVal(name))
		for f, v := range st.facts {
			if v && f.op == OpEq && loadsField(f.args[0], "types.IndexerOpts.IndexType") && f.args[1] == k {
				return true
			}
		}
		return false
	}
	e.Hooks.Index = func(st *State, base, idx *Term, ins ssa.Instruction) {
		if base.op == OpAlloc {
			return // arrays of constant size indexed by constants
		}
		var ok bool
		what := base.String()
		switch {
		case loadsField(base, fDocIds):
			ok = inRange(st, base.args[0].args[0], idx)
			what = "the posting list's ids"
		case loadsField(base, fLocs):
			ok = typeIs(st, "LocsIndex") && inRange(st, base.args[0].args[0], idx)
			what = "the posting list's positions (present in a position index only)"
		case loadsField(base, fFreqs):
			ok = typeIs(st, "FrequenciesIndex") && inRange(st, base.args[0].args[0], idx)
			what = "the posting list's frequencies (present in a frequency index only)"
		default:
			ok = st.proveLe(mkInt(0), idx) && st.proveLt(idx, mkLen(base))
		}
		c.ob("index-in-range", fmt.Sprintf("%s at %s: %v", fnName(ins.Parent()), e.pos(insPos(ins)), idx), ok)
		if !ok {
			st.report("C39:range:"+fnName(ins.Parent())+":"+short(base), ins, "index %v of %s may be out of range", idx, what)
		}
	}
	e.Hooks.Slice = func(st *State, base, lo, hi *Term, ins ssa.Instruction) {
		if base.op == OpAlloc {
			return
		}
		ok := st.proveLe(mkInt(0), lo) && st.proveLe(lo, hi) && st.proveLe(hi, mkLen(base))
		c.ob("slice-in-range", fmt.Sprintf("%s at %s: [%v:%v]", fnName(ins.Parent()), e.pos(insPos(ins)), lo, hi), ok)
		if !ok {
			st.report("C39:slice:"+fnName(ins.Parent()), ins, "slice bounds [%v:%v] may be out of range", lo, hi)
		}
	}
	l.onBackedge = func(st *State, fr *Frame, h *ssa.BasicBlock, phis, vals []*Term) {
		key := e.loopKey(fr, h)
		for k, p := range phis {
			if !isIntType(p.typ) || vals[k] == p {
				continue
			}
			if counts[key] == nil {
				counts[key] = map[*Term]*counter{}
			}
			ct := counts[key][p]
			var tab, ptr, idx *Term
			ok := false
			if mkSub(vals[k], p) == mkInt(1) {
				for f, v := range st.facts {
					if f.op == OpEq && !v && f.args[1] == mkInt(0) || f.op == OpLt && v && f.args[0] == mkInt(0) {
						for _, a := range f.args {
							if a.op != OpLen {
								continue
							}
							if b, ix, is := elemLoad(a.args[0]); is && loadsField(b, fLocs) {
								if tb, ti, is := elemLoad(b.args[0].args[0]); is {
									if pb, pi, is := elemLoad(ix); is && ti == pi && iteratesWith(ti, phis) {
										tab, ptr, idx, ok = tb, pb, ti, true
									}
								}
							}
						}
					}
				}
			}
			switch {
			case ct == nil:
				counts[key][p] = &counter{tab, ptr, idx, ok}
			case ct.tab != tab || ct.ptr != ptr || ct.idx != idx:
				ct.ok = false
			}
		}
	}
	scs := []*scenario{{root: lk, count: -1}}
	for _, cl := range [][3]clause{{clFlag, clOff, clOff}, {clExpr, clExpr, clExpr}, {clFlag, clFlag, clFlag}, {clOff, clFlag, clExpr}, {clOff, clOff, clFlag}} {
		scs = append(scs, &scenario{root: lg, logic: true, must: cl[0], should: cl[1], not_: cl[2], count: 0})
	}
	runLookupsWith(l, scs, func(l *lookups, st *State, sc *scenario, fn *ssa.Function, res []*Term, ins ssa.Instruction) {})
	c.need("index-in-range", 3)
	c.need("slice-in-range", 1)
	c.need("search-range", 1)
	c.need("proximity-precondition", 1)
}

func iteratesWith(t *Term, phis []*Term) bool {
	for _, p := range phis {
		if contains(t, p) {
			return true
		}
	}
	return false
}

func short(t *Term) string {
	s := t.String()
	s = strings.ReplaceAll(s, " ", "")
	if len(s) > 40 {
		s = s[:40]
	}
	return s
}

func listPtr(c *Ctx) types.Type { return types.NewPointer(c.P.typeOf("core", "KeywordIndices")) }

func init() {
	register("C39", "Index and slice bounds analysis over the lookups (plain and logic), with linear arithmetic over lengths and inductive loop invariants: every index and slice expression reached is proved in range; pointers into posting lists are shown to stay entries of their list by an invariant on every store; positions and frequencies are only read for the index type that keeps them; the token proximity computation is entered only with at least one token, each having a position in the document.",
		func(c *Ctx) { searchContract(c, true); lookupBounds(c) },
		"posting lists are non-empty and parallel (C08)", "the dynamic programme over the positions of the tokens stays within its own tables")
}
