package main

import (
	"fmt"
	"go/types"

	"golang.org/x/tools/go/ssa"
)

// walk is what is known of a loop that puts one value per token in a list.
type walk struct {
	idx                                      *Term
	ok, from0, fromN, up, down, within, grow bool
}

// walks follows such loops over the passes.
type walks struct {
	e         *Engine
	cur, prev map[*Term]*walk
	st0, pst0 map[string]map[*Term]*Term
}

func (w *walks) start() {
	w.prev, w.cur = w.cur, map[*Term]*walk{}
	w.pst0, w.st0 = w.st0, map[string]map[*Term]*Term{}
}

func (w *walks) pre(fr *Frame, h *ssa.BasicBlock, phis, vals []*Term) {
	k := w.e.loopKey(fr, h)
	m := w.st0[k]
	if m == nil {
		m = map[*Term]*Term{}
		w.st0[k] = m
	}
	for i, p := range phis {
		if old, ok := m[p]; ok && old != vals[i] {
			m[p] = nil
		} else {
			m[p] = vals[i]
		}
	}
}

// step notes one iteration that puts a value in list at idx (nil: puts nothing).
func (w *walks) step(st *State, fr *Frame, h *ssa.BasicBlock, phis, vals []*Term, list, idx, n *Term, ok, grow bool) {
	x := walk{idx: idx, ok: ok, grow: grow, from0: true, fromN: true, up: true, down: true, within: true}
	if idx != nil {
		next, first := map[*Term]*Term{}, map[*Term]*Term{}
		for i, p := range phis {
			next[p] = vals[i]
			if s := w.pst0[w.e.loopKey(fr, h)][p]; s != nil {
				first[p] = s
			}
		}
		d, f := mkSub(subst(idx, next), idx), subst(idx, first)
		x.up, x.down = d == mkInt(1), d == mkInt(-1)
		x.from0, x.fromN = f == mkInt(0), f == mkSub(n, mkInt(1))
		x.within = st.proveLt(idx, n)
	}
	o := w.cur[list]
	if o == nil {
		w.cur[list] = &x
		return
	}
	if o.idx == nil {
		o.idx = x.idx
	}
	o.ok = o.ok && x.ok && (x.idx == nil || o.idx == x.idx) && o.grow == x.grow
	o.up, o.down, o.from0, o.fromN, o.within = o.up && x.up, o.down && x.down, o.from0 && x.from0, o.fromN && x.fromN, o.within && x.within
}

// full: the list has its own value for each of the n tokens.
func (w *walks) full(st *State, list, n *Term) (bool, string) {
	o := w.prev[list]
	switch {
	case o == nil:
		return false, "it is not filled by a loop over the tokens"
	case !o.ok || o.idx == nil:
		return false, "some iteration puts nothing, or not the token's own positions, in its place"
	case o.up && o.from0 && o.within && (st.holds(mkLt(o.idx, n), false) || st.proveLe(n, o.idx)):
		return true, ""
	case !o.grow && o.down && o.fromN && (st.holds(mkLt(o.idx, mkInt(0)), true) || st.proveLt(o.idx, mkInt(0))):
		return true, ""
	}
	return false, "the loop does not visit every token"
}

// puts: what this iteration puts in lists of type elem, by index or by append.
func puts(st *State, phis, vals []*Term, elem func(types.Type) bool, f func(list, idx, val *Term, grow bool)) {
	for x, v := range st.facts {
		if !v || x.op != OpCall || x.aux != "@put" || len(x.args) != 3 {
			continue
		}
		for _, p := range phis {
			if contains(x.args[1], p) {
				f(x.args[0], x.args[1], x.args[2], false)
				break
			}
		}
	}
	for i, p := range phis {
		s, ok := p.typ.Underlying().(*types.Slice)
		if !ok || !elem(s.Elem()) || vals[i].op != OpAppend || vals[i].args[0] != p || len(vals[i].args) != 2 {
			continue
		}
		f(p, nil, vals[i].args[1], true)
	}
}

func init() {
	register("C47", "Provenance analysis of the positions of hits: in the function that computes the nearest positions, every place of the result is filled, for each token, with one of that token's own positions in the document (same list, same place kept for it); in the lookup, a hit's snippet positions and proximity are the two results of one such call for the query's tokens and lists, its token positions are, for each token, that token's position list of the document; both loops visit every token; a hit without positions occurs only on an index without positions or where some token has none.", func(c *Ctx) {
		intElem := func(t types.Type) bool { return isIntType(t) }
		listElem := func(t types.Type) bool {
			s, ok := t.Underlying().(*types.Slice)
			return ok && isIntType(s.Elem())
		}
		bad := func(st *State, key string, ins ssa.Instruction, f string, a ...any) {
			st.report("C47:"+key+":"+fnName(ins.Parent()), ins, f, a...)
		}
		l := newLookups(c)
		near := l.e.Opaque
		// ---- the function that chooses positions
		var roots []*ssa.Function
		for _, fn := range c.P.pkgFns("core") {
			if fn.Parent() == nil && near(fn) {
				roots = append(roots, fn)
			}
		}
		if len(roots) > 0 {
			e := NewEngine(c.P)
			e.Guard = coreGuard
			w := &walks{e: e}
			e.PassStart = w.start
			tokensOf := func(st *State) *Term {
				for _, a := range st.stack[0].args {
					if s, ok := a.typ.Underlying().(*types.Slice); ok && isStringType(s.Elem()) {
						return a
					}
				}
				return nil
			}
			e.Hooks.Store = func(st *State, loc, val *Term, ins ssa.Instruction) {
				if loc.op == OpIndexAddr && isLocalRoot(rootOf(loc)) {
					st.mark("put", loc.args[0], loc.args[1], val)
				}
			}
			e.Hooks.LoopPre = func(st *State, fr *Frame, h *ssa.BasicBlock, phis, vals []*Term) { w.pre(fr, h, phis, vals) }
			// own: val is a position of the token at idx
			own := func(st *State, val, idx *Term) (*Term, bool) {
				b, _, ok := elemLoad(val) // locations[pos][cursor]
				if !ok {
					return nil, false
				}
				li, pos := listEntry(b, "locations")
				if li == nil {
					return nil, false
				}
				tab, i, ok := listAt(li)
				if !ok || tab.op != OpParam && (tab.op != OpSlice || tab.args[0].op != OpParam) {
					return nil, false
				}
				pb, pi, ok := elemLoad(pos)
				return i, ok && pi == i && pb.op == OpParam && (idx == nil || i == idx)
			}
			e.Hooks.Backedge = func(st *State, fr *Frame, h *ssa.BasicBlock, phis, vals []*Term) {
				tk := tokensOf(st)
				if tk == nil {
					return
				}
				did := map[*Term]bool{}
				puts(st, phis, vals, intElem, func(list, idx, val *Term, grow bool) {
					i, ok := own(st, val, idx)
					if idx == nil {
						idx = i
					}
					if did[list] = true; idx != nil {
						w.step(st, fr, h, phis, vals, list, idx, mkLen(tk), ok, grow)
					} else {
						w.step(st, fr, h, phis, vals, list, nil, mkLen(tk), false, grow)
					}
					c.ob("position-of-its-token", fmt.Sprintf("%s at %s", fnName(fr.fn), e.pos(insPos(fr.prev.Instrs[len(fr.prev.Instrs)-1]))), true)
				})
				missed(st, w, fr, h, phis, did, func(list *Term) {
					w.step(st, fr, h, phis, vals, list, nil, mkLen(tk), false, false)
				})
			}
			e.Hooks.Return = func(st *State, fn *ssa.Function, res []*Term, ins ssa.Instruction) {
				tk := tokensOf(st)
				if len(res) != 2 || tk == nil {
					return
				}
				ok, why := w.full(st, res[1], mkLen(tk))
				if ok && !w.prev[res[1]].grow && mkLen(res[1]) != mkLen(tk) {
					ok, why = false, "it has another length"
				}
				c.ob("a-position-for-every-token", fnName(fn)+" at "+e.pos(insPos(ins)), ok)
				if !ok && e.pass > 1 {
					bad(st, "snippet", ins, "the positions returned are not one position of each token of the query: %s", why)
				}
				e.changed = e.changed || e.pass < 2
			}
			c.runRoots(e, roots, nil)
			c.need("a-position-for-every-token", 1)
		}
		// ---- the lookup
		e := l.e
		pl := &tokenLists{e: e}
		w := &walks{e: e}
		calls := map[*Term][]*Term{}
		pass := e.PassStart
		e.PassStart = func() { pass(); pl.start(); w.start() }
		store := e.Hooks.Store
		e.Hooks.Store = func(st *State, loc, val *Term, ins ssa.Instruction) {
			store(st, loc, val, ins)
			if loc.op == OpIndexAddr && isLocalRoot(rootOf(loc)) && val.typ != nil && listElem(val.typ) {
				st.mark("put", loc.args[0], loc.args[1], val)
			}
		}
		e.Hooks.Called = func(st *State, ci *CallInfo, res *Term) {
			if ci.Fn != nil && near(ci.Fn) && res != nil && res.op == OpTuple && len(res.args) == 2 {
				calls[res.args[0]] = ci.Args
				calls[res.args[1]] = ci.Args
				st.mark("near", res.args[0], res.args[1])
			}
		}
		e.Hooks.LoopPre = func(st *State, fr *Frame, h *ssa.BasicBlock, phis, vals []*Term) { w.pre(fr, h, phis, vals) }
		// own: val is the position list of the token at idx
		own := func(val *Term) (*Term, bool) {
			li, pos := listEntry(val, "locations")
			if li == nil {
				return nil, false
			}
			_, i, ok := listAt(li)
			_, pi, ok2 := elemLoad(pos)
			return i, ok && ok2 && pi == i
		}
		l.onBackedge = func(st *State, fr *Frame, h *ssa.BasicBlock, phis, vals []*Term) {
			for i, p := range phis {
				if isIntType(p.typ) || isBoolType(p.typ) {
					pl.count(st, p, vals[i])
				}
			}
			n := mkLen(st.stack[0].args[1])
			did := map[*Term]bool{}
			puts(st, phis, vals, listElem, func(list, idx, val *Term, grow bool) {
				i, ok := own(val)
				if idx == nil {
					idx = i
				}
				if idx == nil {
					return
				}
				did[list] = true
				w.step(st, fr, h, phis, vals, list, idx, n, ok && i == idx, grow)
			})
			missed(st, w, fr, h, phis, did, func(list *Term) {
				w.step(st, fr, h, phis, vals, list, nil, n, false, false)
			})
		}
		app := e.Hooks.Append
		e.Hooks.Append = func(st *State, base *Term, elems []*Term, res *Term, typ types.Type, ins ssa.Instruction) {
			app(st, base, elems, res, typ, ins)
			if !types.Identical(typ.Underlying().(*types.Slice).Elem(), l.idxdT) {
				return
			}
			tokens := st.stack[0].args[1]
			n := mkLen(tokens)
			for _, x := range elems {
				get := func(name string) *Term {
					if i := fieldIdx(l.idxdT, name); i >= 0 {
						return plainValue(mkField(x, l.idxdT, i))
					}
					return nil
				}
				prox, snip, locs := get("TokenProximity"), get("TokenSnippetLocs"), get("TokenLocs")
				if prox == nil || snip == nil || locs == nil {
					continue
				}
				site := fnName(ins.Parent()) + " at " + e.pos(insPos(ins))
				if (snip.isNil() || snip.isZeroValue()) && (locs.isNil() || locs.isZeroValue()) && prox.isZeroValue() {
					is, kn := pl.indexType(st, "LocsIndex")
					ok := kn && !is || is && pl.someTokenUnlocated(st)
					c.ob("no-positions-only-without-them", site, ok)
					if !ok {
						bad(st, "none", ins, "a hit has no positions although the index may store positions for all tokens")
					}
					continue
				}
				args := calls[snip]
				ok := args != nil && st.marked("near", prox, snip)
				if ok {
					hasTok := false
					for _, a := range args {
						hasTok = hasTok || a == tokens
						if s, isS := a.typ.Underlying().(*types.Slice); isS && !isStringType(s.Elem()) && !isIntType(s.Elem()) {
							// the lists of the tokens, from the first on
							if a.op == OpSlice && a.args[1] != mkInt(0) {
								ok = false
							}
						}
					}
					ok = ok && hasTok
				}
				c.ob("proximity-and-snippet-together", site, ok)
				if !ok && e.pass > 1 {
					bad(st, "near", ins, "the proximity and snippet positions of a hit are %v and %v, not the two results of one computation for the query's tokens", prox, snip)
				}
				okL, why := w.full(st, locs, n)
				if okL && !w.prev[locs].grow && mkLen(locs) != n {
					okL, why = false, "it has another length"
				}
				c.ob("own-position-lists", site, okL)
				if !okL && e.pass > 1 {
					bad(st, "locs", ins, "the token positions of a hit are not the position list of each token: %s", why)
				}
				e.changed = e.changed || e.pass < 2
			}
		}
		runLookupsWith(l, lookupScenarios(c, 0, false, false)[:1], func(l *lookups, st *State, sc *scenario, fn *ssa.Function, res []*Term, ins ssa.Instruction) {})
		c.need("no-positions-only-without-them", 1)
		c.need("proximity-and-snippet-together", 1)
		c.need("own-position-lists", 1)
	}, "the lists of the query's table are those of its tokens, each place kept is that of the hit (C03), and a document's position list is its own (C08)")
}

// missed calls f for the lists other iterations of the loop fill and this one does not.
func missed(st *State, w *walks, fr *Frame, h *ssa.BasicBlock, phis []*Term, did map[*Term]bool, f func(list *Term)) {
	for list, o := range w.prev {
		if did[list] || o.idx == nil {
			continue
		}
		for _, p := range phis {
			if contains(o.idx, p) {
				f(list)
				break
			}
		}
	}
}
