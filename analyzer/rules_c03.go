package main

import (
	"fmt"
	"go/types"

	"golang.org/x/tools/go/ssa"
)

// searchContract decides the contract of the binary search in a posting list
// sorted by id: (pos, true) only if the entry at pos has the id, (pos, false)
// only if every entry of the range before pos is smaller and every one from
// pos on is larger; start <= pos <= end+1; no access outside the list.
func searchContract(c *Ctx, bounds bool) {
	kt := c.P.typeOf("core", "KeywordIndices")
	di := fieldIdx(kt, "docIds")
	n := 0
	for _, fn := range c.P.pkgFns("core") {
		if !isSearchIndex(fn) {
			continue
		}
		n++
		e := coreEngine(c)
		type sub struct{ list, doc, start, end, ids *Term }
		subs := map[*Term]*sub{}
		subj := func(st *State) *sub { return subs[st.stack[0].args[0]] }
		// indices known to hold smaller ids (lows) and larger ids (highs)
		edges := func(st *State) (lows, highs, weakHi, differ []*Term) {
			s := subj(st)
			if s == nil {
				return
			}
			lows = append(lows, mkSub(s.start, mkInt(1)))
			highs = append(highs, mkAdd(s.end, mkInt(1)))
			for f, v := range st.facts {
				switch {
				case f.op == OpLt || f.op == OpEq:
					for k := 0; k < 2; k++ {
						b, i, ok := elemLoad(f.args[k])
						if !ok || b != s.ids || f.args[1-k] != s.doc {
							continue
						}
						el := f.args[k]
						if st.holds(mkLt(el, s.doc), true) {
							lows = append(lows, i)
						}
						if st.holds(mkLt(s.doc, el), true) {
							highs = append(highs, i)
						} else if st.holds(mkLt(el, s.doc), false) {
							weakHi = append(weakHi, i)
						}
						if f.op == OpEq && !v {
							differ = append(differ, i)
						}
					}
				case v && f.op == OpCall && f.aux == "@below":
					lows = append(lows, mkSub(f.args[0], mkInt(1)))
				case v && f.op == OpCall && f.aux == "@above":
					highs = append(highs, f.args[0])
				case v && f.op == OpCall && f.aux == "@atleast":
					weakHi = append(weakHi, f.args[0])
				}
			}
			return
		}
		below := func(st *State, x *Term) bool {
			lows, _, _, _ := edges(st)
			for _, a := range lows {
				if st.proveLe(mkSub(x, mkInt(1)), a) {
					return true
				}
			}
			return false
		}
		above := func(st *State, x *Term) bool {
			_, highs, weak, differ := edges(st)
			for _, b := range highs {
				if st.proveLe(b, x) {
					return true
				}
			}
			for _, b := range weak {
				if !st.proveLe(b, x) {
					continue
				}
				for _, d := range differ {
					if st.proveEqInt(d, b) {
						return true
					}
				}
			}
			return false
		}
		atLeast := func(st *State, x *Term) bool {
			_, highs, weak, _ := edges(st)
			for _, b := range append(highs, weak...) {
				if st.proveLe(b, x) {
					return true
				}
			}
			return false
		}
		e.Eval = func(st *State, t *Term) bool {
			switch t.aux {
			case "@below":
				return below(st, t.args[0])
			case "@above":
				return above(st, t.args[0])
			case "@atleast":
				return atLeast(st, t.args[0])
			}
			return false
		}
		e.Invariants = func(st *State, fr *Frame, h *ssa.BasicBlock, phis map[*ssa.Phi]*Term) []*Term {
			var out []*Term
			for _, p := range phis {
				if isIntType(p.typ) {
					out = append(out, markTerm("below", p), markTerm("above", p), markTerm("atleast", p))
				}
			}
			return out
		}
		e.Hooks.Index = func(st *State, base, idx *Term, ins ssa.Instruction) {
			s := subj(st)
			if s == nil || !bounds {
				return
			}
			ok := st.proveLe(mkInt(0), idx) && st.proveLt(idx, mkLen(base))
			c.ob("index-in-range", fmt.Sprintf("%s at %s: %v", fnName(ins.Parent()), e.pos(insPos(ins)), idx), ok)
			if !ok {
				st.report(c.ID+":range:"+fnName(ins.Parent()), ins, "index %v may lie outside the posting list", idx)
			}
		}
		e.Hooks.Return = func(st *State, fn *ssa.Function, res []*Term, ins ssa.Instruction) {
			s := subj(st)
			pos := res[0]
			site := fnName(fn) + " return at " + e.pos(insPos(ins))
			for _, want := range []bool{true, false} {
				w := st.clone()
				if !w.assume(res[1], want) {
					continue
				}
				rng := w.proveLe(s.start, pos) && w.proveLe(pos, mkAdd(s.end, mkInt(1)))
				c.ob("search-position-in-range", site, rng)
				if !rng {
					st.report(c.ID+":pos:"+fnName(fn), ins, "the position %v returned by %s may lie outside start..end+1", pos, fn.Name())
				}
				if want {
					ok := false
					for f, v := range w.facts {
						if !v || f.op != OpEq {
							continue
						}
						for k := 0; k < 2; k++ {
							if b, i, is := elemLoad(f.args[k]); is && b == s.ids && f.args[1-k] == s.doc && w.proveEqInt(i, pos) {
								ok = true
							}
						}
					}
					c.ob("search-found-is-there", site, ok)
					if !ok {
						st.report(c.ID+":found:"+fnName(fn), ins, "%s reports the document found, but the entry at the returned position is not established to be that document", fn.Name())
					}
				} else {
					ok := below(w, pos) && above(w, pos)
					c.ob("search-absent-is-absent", site, ok)
					if !ok {
						st.report(c.ID+":absent:"+fnName(fn), ins, "%s reports the document absent, but it is not established that every entry before the returned position is smaller and every later one larger", fn.Name())
					}
				}
			}
		}
		c.run(e, func() []*State {
			var out []*State
			for k := 0; k < 2; k++ {
				args := make([]*Term, len(fn.Params))
				args[0] = mk(OpParam, fn.Params[0].Type(), fnName(fn)+"§"+itoa(k))
				st := e.newState(fn, args)
				st.top().ctx += "§" + itoa(k)
				s := &sub{}
				for i, p := range fn.Params {
					t := st.stack[0].args[i]
					switch {
					case namedIs(p.Type(), "core.KeywordIndices"):
						s.list = t
					case isStringType(p.Type()):
						s.doc = t
					case isIntType(p.Type()):
						if s.start == nil {
							s.start = t
						} else {
							s.end = t
						}
					}
				}
				s.ids = st.load(mkFieldAddr(s.list, kt, di), types.NewSlice(tString))
				subs[args[0]] = s
				st.assume(mkLt(s.start, mkInt(0)), false)
				if k == 0 { // a non-empty range of the list
					st.assume(mkLt(s.end, s.start), false)
					st.assume(mkLt(s.end, mkLen(s.ids)), true)
				} else { // the empty range at its end
					st.assume(mkEq(s.start, mkLen(s.ids)), true)
					st.assume(mkEq(s.end, mkSub(s.start, mkInt(1))), true)
				}
				out = append(out, st)
			}
			return out
		})
	}
	c.ob("posting-list-search", "functions searching a posting list", n > 0)
	if n == 0 {
		c.violate(c.ID+":anchor:search", "", "", "no posting list search function (list, start, end, id) -> (position, found) found in core", nil)
	}
	c.need("search-found-is-there", 1)
	c.need("search-absent-is-absent", 1)
}

func init() {
	register("C03", "Path-sensitive dataflow over the plain lookup (helpers inlined) plus a contract analysis of the posting-list search. Soundness: every returned document was found in every token's and label's list. Completeness: the driving keyword's list is walked from its last entry down by one each iteration; each iteration that does not emit its document must have established docIds lacks it, a search of some other keyword's list without success, or docsState not live; the loop is left only below index 0 or after a failed search at position 0; the bound kept per other keyword only moves to a found position or just below a failed one; returns before the walk only for an empty index, a keyword without list, or no keyword. The search itself is shown to report a position and presence correctly for every sorted list by inductive loop invariants.",
		func(c *Ctx) {
			searchContract(c, false)
			plainSound(c)
			plainComplete(c)
		}, "posting lists are sorted by id and non-empty (C08, C10 keep them so)")
}

func plainSound(c *Ctx) {
	lk, _ := lookupRoots(c)
	if lk == nil {
		return
	}
	runLookups(c, []*scenario{{root: lk}}, needMark("has-every-keyword", "", func(sc *scenario) []string { return []string{"all"} }))
	c.need("has-every-keyword", 1)
}

// driver is the walk over the first keyword's posting list.
type driver struct {
	cands map[*Term]bool // the documents examined, one term per iteration
}

func plainComplete(c *Ctx) {
	lk, _ := lookupRoots(c)
	if lk == nil {
		return
	}
	l := newLookups(c)
	e := l.e
	drivers, prevDrivers := map[string]*driver{}, map[string]*driver{}
	ptrs, prevPtrs := map[*Term]*Term{}, map[*Term]*Term{} // int slice -> table slice it points into
	start := e.PassStart
	e.PassStart = func() {
		start()
		prevDrivers, drivers = drivers, map[string]*driver{}
		prevPtrs, ptrs = ptrs, map[*Term]*Term{}
	}
	// the loop whose iteration is going on
	innermost := func(st *State) (*Frame, *ssa.BasicBlock) {
		for i := len(st.stack) - 1; i >= 0; i-- {
			f := st.stack[i]
			li := e.loopsIn(f.fn)
			var best *ssa.BasicBlock
			for h, body := range li.body {
				if body[f.block] && (best == nil || len(body) < len(li.body[best])) {
					best = h
				}
			}
			if best != nil {
				return f, best
			}
		}
		return nil, nil
	}
	listOf := func(d *Term) (list, idx *Term) { // document d is entry idx of list
		b, i, ok := elemLoad(d)
		if !ok || !loadsField(b, fDocIds) {
			return nil, nil
		}
		return b.args[0].args[0], i
	}
	prevAppend := e.Hooks.Append
	e.Hooks.Append = func(st *State, base *Term, elems []*Term, res *Term, typ types.Type, ins ssa.Instruction) {
		prevAppend(st, base, elems, res, typ, ins)
		if !types.Identical(typ.Underlying().(*types.Slice).Elem(), l.idxdT) {
			return
		}
		for _, x := range elems {
			d := mkField(x, l.idxdT, l.docF)
			for _, y := range st.equals(d) {
				if li, _ := listOf(y); li != nil {
					if f, h := innermost(st); f != nil {
						k := e.loopKey(f, h)
						if drivers[k] == nil {
							drivers[k] = &driver{cands: map[*Term]bool{}}
						}
						drivers[k].cands[y] = true
					}
					st.mark("emitted", y)
				}
			}
		}
	}
	prevCall := e.Hooks.Call
	e.Hooks.Call = func(st *State, ci *CallInfo) (bool, *Term) {
		ok, res := prevCall(st, ci)
		if ok {
			f := res.args[1]
			if tb, i, is := elemLoad(f.args[0]); is {
				if pb, j, is := elemLoad(f.args[3]); is && i == j {
					ptrs[pb] = tb
				}
			}
		}
		return ok, res
	}
	// stores to the pointers used as upper bounds
	prevStore := e.Hooks.Store
	e.Hooks.Store = func(st *State, loc, val *Term, ins ssa.Instruction) {
		prevStore(st, loc, val, ins)
		if loc.op != OpIndexAddr || prevPtrs[loc.args[0]] == nil {
			return
		}
		tab, i := prevPtrs[loc.args[0]], loc.args[1]
		if i == mkInt(0) {
			return // the driver's own position: decided at the back edge
		}
		// positions of other lists must not be mixed up with the driver's
		other := st.proveLe(mkInt(1), i)
		ok := false
		why := ""
		list := mkIndexAddr(tab, i, nil)
		isList := func(t *Term) bool { return t.op == OpLoad && t.args[0] == list }
		// last entry
		v := mkAdd(val, mkInt(1))
		if v.op == OpLen && loadsField(v.args[0], fDocIds) && isList(v.args[0].args[0].args[0]) {
			ok = true
		}
		visit(val, func(t *Term) {
			if !isPos(t) || !isList(t.args[0]) {
				return
			}
			found := mk(OpCall, tBool, "@found:"+t.aux[len("@pos:"):], t.args...)
			if !other {
				return
			}
			if val == t && st.holds(found, true) {
				ok = true
			}
			// below a failed search nothing later can be above it
			if val == mkSub(t, mkInt(1)) && st.holds(found, false) && st.proveLe(mkInt(0), val) {
				ok = true
			}
		})
		if !ok {
			why = fmt.Sprintf("the search bound of another keyword is set to %v", val)
		}
		c.ob("bound-moves-soundly", fmt.Sprintf("%s at %s: %v", fnName(ins.Parent()), e.pos(insPos(ins)), val), ok)
		if !ok {
			st.report("C03:bound:"+fnName(ins.Parent()), ins, "%s, which is not the end of its list, a found position, or just below a failed one", why)
		}
	}
	dropOK := func(st *State, sc *scenario, d *Term) bool {
		eq := map[*Term]bool{}
		for _, x := range st.equals(d) {
			eq[x] = true
		}
		for f, v := range st.facts {
			switch {
			case f.op == OpMapOk && !v && eq[f.args[1]]:
				if f.args[0] == sc.docIds && st.holds(mkEq(sc.docIds, mkNil()), false) {
					return true
				}
				if loadsField(f.args[0], fDocsState) {
					return true
				}
			case f.op == OpMapOk && v && eq[f.args[1]] && loadsField(f.args[0], fDocsState):
				if st.holds(mkEq(mk(OpMapVal, tInt, f.aux, f.args[0], f.args[1]), mkInt(0)), false) {
					return true
				}
			case isFound(f) && !v && eq[f.args[1]] && f.args[2] == mkInt(0):
				// searched in some keyword's list from its start up to the bound
				if tb, i, ok := elemLoad(f.args[0]); ok {
					if pb, j, ok := elemLoad(f.args[3]); ok && i == j && prevPtrs[pb] == tb || l.fullRange(st, f) {
						return true
					}
				}
			}
		}
		return false
	}
	// the position of the walk: idx is a counter or a memory cell
	e.Hooks.LoopPre = func(st *State, fr *Frame, h *ssa.BasicBlock, phis, vals []*Term) {
		dr := prevDrivers[e.loopKey(fr, h)]
		if dr == nil {
			return
		}
		for d := range dr.cands {
			list, idx := listOf(d)
			ids := d.args[0].args[0]
			at := fr.prev.Instrs[len(fr.prev.Instrs)-1]
			want := mkSub(mkLen(ids), mkInt(1))
			// the value is the last index, or a slot filled so for every list
			isEnd := func(v *Term) bool {
				if st.proveEqInt(v, want) {
					return true
				}
				pb, j, is := elemLoad(v)
				tb, ti, is2 := elemLoad(list)
				if !is || !is2 || j != ti {
					return false
				}
				for _, fa := range st.forall {
					for f, fv := range fa.facts {
						if !fv || f.op != OpCall || f.aux != "@stored" || f.args[0] != pb {
							continue
						}
						sp, k := st.loopSpan(fa, f.args[1])
						if !k || !st.covered([]span{sp}, j, mkAdd(j, mkInt(1))) {
							continue
						}
						x := mkAdd(f.args[2], mkInt(1))
						if x.op == OpLen && loadsField(x.args[0], fDocIds) {
							if b2, i2, k := elemLoad(x.args[0].args[0].args[0]); k && b2 == tb && i2 == f.args[1] {
								return true
							}
						}
					}
				}
				return false
			}
			ok := false
			for i, p := range phis {
				if idx == p {
					ok = isEnd(vals[i])
				}
			}
			if idx.op == OpLoad {
				ok = isEnd(st.load(idx.args[0], tInt))
			}
			c.ob("walk-starts-at-the-end", fmt.Sprintf("%s at %s", fnName(fr.fn), e.pos(insPos(at))), ok)
			if !ok {
				st.report("C03:start:"+fnName(fr.fn), at, "the walk over the driving keyword's list is not established to start at its last entry")
			}
		}
	}
	l.onBackedge = func(st *State, fr *Frame, h *ssa.BasicBlock, phis, vals []*Term) {
		dr := prevDrivers[e.loopKey(fr, h)]
		if dr == nil {
			return
		}
		sc := l.scenOf(st)
		at := fr.prev.Instrs[len(fr.prev.Instrs)-1]
		if len(dr.cands) != 1 {
			st.report("C03:driver:"+fnName(fr.fn), at, "the iterations do not all examine one document of one list")
			return
		}
		for d := range dr.cands {
			_, idx := listOf(d)
			em := st.marked("emitted", d)
			ok := em || dropOK(st, sc, d)
			c.ob("drop-justified", fmt.Sprintf("%s iteration ending at %s (emitted=%v)", fnName(fr.fn), e.pos(insPos(at)), em), ok)
			if !ok {
				st.report("C03:drop:"+fnName(fr.fn), at, "a document of the driving keyword is dropped although it is not established to be excluded by docIds, missing under another keyword, or not live")
			}
			step := (*Term)(nil)
			for i, p := range phis {
				if idx == p {
					step = mkSub(vals[i], p)
				}
			}
			if idx.op == OpLoad {
				// stores elsewhere in the slice do not concern this slot (rule above)
				now := st.load(idx.args[0], tInt)
				step = mkSub(now, idx)
				visit(now, func(t *Term) {
					if t.op == OpLoad && t.args[0] == idx.args[0] {
						step = mkSub(now, t)
					}
				})
			}
			okS := step == mkInt(-1)
			c.ob("walk-steps-by-one", fmt.Sprintf("%s iteration ending at %s", fnName(fr.fn), e.pos(insPos(at))), okS)
			if !okS {
				st.report("C03:step:"+fnName(fr.fn), at, "the walk over the driving keyword's list does not move down by exactly one entry per iteration (%v)", step)
			}
		}
	}
	l.onReturn = func(st *State, sc *scenario, fn *ssa.Function, res []*Term, ins ssa.Instruction) {
		why := ""
		// after or inside the walk
		for _, fa := range st.forall {
			dr := prevDrivers[fa.ctx]
			if dr == nil {
				continue
			}
			for d := range dr.cands {
				_, idx := listOf(d)
				if st.proveLt(idx, mkInt(0)) {
					why = "walk finished"
				}
				for f, v := range st.facts {
					if isFound(f) && !v && f.args[1] == d && f.args[2] == mkInt(0) && st.proveEqInt(posOf(f), mkInt(0)) {
						why = "every entry of another keyword is larger"
					}
				}
			}
			if why == "" {
				why = "-"
			}
		}
		if why == "" {
			for f, v := range st.facts {
				switch {
				case f.op == OpMapOk && !v && loadsField(f.args[0], fTable):
					if b, _, ok := elemLoad(f.args[1]); ok && l.isList(st, b, &kwList{a: sc.tokens, b: sc.labels}) {
						why = "a keyword has no list"
					}
				case f.op == OpEq && v && (loadsField(f.args[0], fNumDocs) && f.args[1] == mkInt(0)):
					why = "empty index"
				}
			}
			if st.proveLe(mkAdd(mkLen(sc.tokens), mkLen(sc.labels)), mkInt(0)) {
				why = "no keyword"
			}
		}
		ok := why != "" && why != "-"
		c.ob("return-justified", fmt.Sprintf("%s return at %s: %s", fnName(fn), e.pos(insPos(ins)), why), ok)
		if !ok {
			st.report("C03:return:"+fnName(fn), ins, "the lookup returns although documents of the driving keyword may remain unexamined")
		}
	}
	runLookupsWith(l, []*scenario{{root: lk, count: 0}}, func(l *lookups, st *State, sc *scenario, fn *ssa.Function, res []*Term, ins ssa.Instruction) {
		l.onReturn(st, sc, fn, res, ins)
	})
	c.need("drop-justified", 1)
	c.need("walk-steps-by-one", 1)
	c.need("walk-starts-at-the-end", 1)
	c.need("bound-moves-soundly", 1)
	c.need("return-justified", 1)
}
