package main

import (
	"fmt"
	"go/types"
	"maps"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// collected: a document an iteration has put in a list without looking whether
// it is there already.
type collected struct {
	base, doc *Term
	from      [][2]*Term // the lists and places the document was read at
	at        ssa.Instruction
}

type uniqueLog struct {
	got  []collected
	keys []*Term // documents entered in a local set of those seen
	news []*Term // documents just entered in it that were no keys before
}

func (l *uniqueLog) Key() string {
	s := ""
	for _, g := range l.got {
		s += fmt.Sprint(g.base.id, ":", g.doc.id, ";")
	}
	return s + fmt.Sprint(ids(l.keys), ids(l.news))
}

func (l *uniqueLog) Clone() Client {
	return &uniqueLog{got: l.got[:len(l.got):len(l.got)], keys: cp(l.keys), news: cp(l.news)}
}

func init() {
	register("C45", "Distinctness analysis of the lookup operations for every query form: each document put in an answer (or in a list an answer is made from) is either shown to differ from every element already there (the path has compared it with all of them, or it was not a key of a local set that is given each document put in), or it is read from one list without repetitions - a posting list (C03) or a list built by these rules - at a place that moves strictly in one direction from iteration to iteration, at most one document per iteration, into a list that was empty when the loop began.",
		func(c *Ctx) {
			l := newLookups(c)
			e := l.e
			e.KeepCells = true
			log := func(st *State) *uniqueLog {
				if x, ok := st.client.(*uniqueLog); ok {
					return x
				}
				x := &uniqueLog{}
				st.client = x
				return x
			}
			walks, prevWalks := map[string]bool{}, map[string]bool{}           // append site and loop -> strictly moving
			sets, prevSets := map[string]bool{}, map[string]bool{}             // append site -> the set seen is kept up to date
			empty, prevEmpty := map[string]bool{}, map[string]bool{}           // loop and list -> starts empty
			places, prevPlaces := map[string][2]*Term{}, map[string][2]*Term{} // loop -> the place its documents are read at
			ways, prevWays := map[string]bool{}, map[string]bool{}             // loop and direction: it moves that way
			turns, prevTurns := map[string]bool{}, map[string]bool{}           // loop -> the other iterations move the same way
			why := map[string]string{}
			and := func(m map[string]bool, k string, v bool) {
				if old, ok := m[k]; ok {
					v = v && old
				}
				m[k] = v
			}
			pass := e.PassStart
			e.PassStart = func() {
				pass()
				prevWalks, walks = walks, map[string]bool{}
				prevSets, sets = sets, map[string]bool{}
				prevEmpty, empty = empty, map[string]bool{}
				prevPlaces, places = places, map[string][2]*Term{}
				prevWays, ways = ways, map[string]bool{}
				prevTurns, turns = turns, map[string]bool{}
				why = map[string]string{}
			}
			e.PassEnd = func() bool {
				same := func(a, b map[string]bool) bool {
					if len(a) != len(b) {
						return false
					}
					for k, v := range a {
						if w, ok := b[k]; !ok || v != w {
							return false
						}
					}
					return true
				}
				return same(walks, prevWalks) && same(sets, prevSets) && same(empty, prevEmpty) && same(ways, prevWays) && same(turns, prevTurns) && maps.Equal(places, prevPlaces)
			}
			// compared: the path has found d different from every element of list
			compared := func(st *State, list, d *Term, doc bool) bool {
				var spans []span
				eqs := map[*Term]bool{}
				for _, x := range st.equals(d) {
					eqs[x] = true
				}
				for _, fa := range st.forall {
					for f, v := range fa.facts {
						if v || f.op != OpEq {
							continue
						}
						for i := 0; i < 2; i++ {
							if !eqs[f.args[1-i]] {
								continue
							}
							el := f.args[i]
							if doc {
								if el.op == OpField {
									el = el.args[0]
								}
								if el.op == OpLoad && el.args[0].op == OpFieldAddr && el.args[0].args[0].op == OpIndexAddr {
									ia := el.args[0].args[0]
									if ia.args[0] == list {
										if sp, ok := st.loopSpan(fa, ia.args[1]); ok {
											spans = append(spans, sp)
										}
									}
									continue
								}
							}
							if b, ix, ok := elemLoad(el); ok && b == list {
								if sp, ok := st.loopSpan(fa, ix); ok {
									spans = append(spans, sp)
								}
							}
						}
					}
				}
				return len(spans) > 0 && st.covered(spans, mkInt(0), mkLen(list))
			}
			// unseen: d is no key of a local set of strings
			unseen := func(st *State, d *Term) *Term {
				eqs := map[*Term]bool{}
				for _, x := range st.equals(d) {
					eqs[x] = true
				}
				for f, v := range st.facts {
					if (f.op == OpMapOk || f.op == OpMapVal) && !v && eqs[f.args[1]] && isLocalRoot(rootOf(f.args[0])) && !madeInLoop(st, rootOf(f.args[0])) {
						return f.args[0]
					}
				}
				return nil
			}
			// entered: d was no key of such a set and has been made one for this
			entered := func(st *State, d *Term) bool {
				lg := log(st)
				for i, k := range lg.news {
					if st.same(k, d) {
						lg.news = append(cp(lg.news[:i]), lg.news[i+1:]...)
						return true
					}
				}
				return false
			}
			site := func(ins ssa.Instruction, key string) string { return fnName(ins.Parent()) + e.instrID(ins) + "@" + key }
			add := e.Hooks.Append
			e.Hooks.Append = func(st *State, base *Term, elems []*Term, res *Term, typ types.Type, ins ssa.Instruction) {
				el := typ.Underlying().(*types.Slice).Elem()
				isDoc := types.Identical(el, l.idxdT)
				if !isDoc && !isStringType(el) {
					add(st, base, elems, res, typ, ins)
					return
				}
				for n, x := range elems {
					d := x
					if isDoc {
						d = mkField(x, l.idxdT, l.docF)
					}
					mark := "distinct"
					if !isDoc {
						mark = "differ"
					}
					ok := len(elems) == 1 && st.proveLe(mkLen(base), mkInt(0)) || n == 0 && len(elems) == 1 && compared(st, base, d, isDoc)
					inSet := len(elems) == 1 && (unseen(st, d) != nil || entered(st, d))
					if !ok && inSet && prevSets[site(ins, "set")] {
						ok = true
					}
					if !ok {
						g := collected{base: base, doc: d, at: ins}
						for _, y := range st.equals(d) {
							b, ix, is := elemLoad(y)
							if !is {
								continue
							}
							if loadsField(b, fDocIds) || st.marked("differ", y) {
								g.from = append(g.from, [2]*Term{b, ix})
							}
						}
						lg := log(st)
						lg.got = append(lg.got, g)
						for i := len(st.stack) - 1; i >= 0 && !ok; i-- {
							for h := range st.stack[i].loops {
								k := e.loopKey(st.stack[i], h)
								turned, other := prevTurns[k]
								ok = ok || len(elems) == 1 && prevWalks[site(ins, k)] && (turned || !other)
							}
						}
					} else if inSet {
						lg := log(st)
						lg.got = append(lg.got, collected{base: base, doc: d, at: ins})
					}
					if ok {
						st.mark(mark, d)
					}
				}
				add(st, base, elems, res, typ, ins)
			}
			mw := e.Hooks.MapWrite
			e.Hooks.MapWrite = func(st *State, m, k, v *Term, ins ssa.Instruction) {
				mw(st, m, k, v, ins)
				if isLocalRoot(rootOf(m)) && isStringType(k.typ) && (v == nil || v.op != OpConst || v == mkBool(true)) {
					lg := log(st)
					if unseen(st, k) == m {
						lg.news = append(cp(lg.news), k)
					}
					lg.keys = append(lg.keys, k)
				}
			}
			e.Hooks.LoopPre = func(st *State, fr *Frame, h *ssa.BasicBlock, phis, vals []*Term) {
				k := e.loopKey(fr, h)
				for i, p := range phis {
					if isSliceType(p.typ) {
						and(empty, k+"|"+itoa(p.id), st.proveLe(mkLen(vals[i]), mkInt(0)))
					}
				}
				log(st).news = nil
			}
			back := e.Hooks.Backedge
			e.Hooks.Backedge = func(st *State, fr *Frame, h *ssa.BasicBlock, phis, vals []*Term) {
				if back != nil {
					back(st, fr, h, phis, vals)
				}
				k := e.loopKey(fr, h)
				lg := log(st)
				id := fr.ctx + "@loop" + itoa(h.Index)
				if f, ok := prevPlaces[k]; ok && len(lg.got) == 0 {
					n, known := moves(st, id, f[0], f[1], phis, vals)
					and(turns, k, known && (n == 0 || !prevWays[k+sign(-n)]))
				}
				for _, g := range lg.got {
					// an entry of the set made for it in the same iteration
					for _, x := range lg.keys {
						if st.same(x, g.doc) {
							and(sets, site(g.at, "set"), true)
						}
					}
					msg := ""
					switch {
					case len(lg.got) != 1:
						msg = "more than one document is put in the list in one iteration"
					case len(g.from) == 0:
						msg = fmt.Sprintf("%v is not an element of a list without repetitions", g.doc)
					default:
						acc := -1
						for i, p := range phis {
							if p == g.base && vals[i].op == OpAppend && vals[i].args[0] == p {
								acc = i
							}
						}
						if acc < 0 {
							msg = "the list grown in the iteration is not the one carried to the next"
						} else if !prevEmpty[k+"|"+itoa(phis[acc].id)] {
							msg = "the list is not empty when the loop begins and the documents in it are not compared"
						} else {
							msg = "the place read does not move strictly in one direction"
							for _, f := range g.from {
								if n, _ := moves(st, id, f[0], f[1], phis, vals); n != 0 {
									msg = ""
									if p, ok := places[k]; ok && p != f {
										msg = "documents are read at different places"
										continue
									}
									places[k] = f
									ways[k+sign(n)] = true
									if ways[k+sign(-n)] {
										msg = "the place read moves in both directions"
									}
									break
								}
							}
						}
					}
					and(walks, site(g.at, k), msg == "")
					if msg != "" {
						why[site(g.at, "")] = msg
					}
				}
				for _, x := range lg.got {
					// without an entry the set is of no use
					found := false
					for _, y := range lg.keys {
						found = found || st.same(y, x.doc)
					}
					if !found {
						and(sets, site(x.at, "set"), false)
					}
				}
				lg.got, lg.keys, lg.news = nil, nil, nil
			}
			runLookupsWith(l, lookupScenarios(c, 0, false, false), func(l *lookups, st *State, sc *scenario, fn *ssa.Function, res []*Term, ins ssa.Instruction) {
				have, top := l.docFacts(res[0])
				if top {
					return
				}
				at := fmt.Sprintf("%s %s: documents returned at %s", fnName(fn), sc.tag(), st.e.pos(insPos(ins)))
				c.ob("distinct", at, have["distinct"])
				if !have["distinct"] {
					reason := ""
					for _, k := range sortedKeys(why) {
						if !strings.Contains(reason, why[k]) {
							reason += "; " + why[k]
						}
					}
					st.report(fmt.Sprintf("C45:distinct:%s:%s", fnName(fn), sc.name()), ins, "%s (query form %s) may return a document twice%s", fn.Name(), sc.name(), reason)
				}
			})
			c.need("distinct", 1)
		}, "no posting list holds a document twice (C03)", "the count equals the number of documents collected (C05)")
}

// madeInLoop: an object is created anew in every iteration of a loop the path is or was in.
func madeInLoop(st *State, r *Term) bool {
	ins, ok := r.obj.(ssa.Instruction)
	if !ok {
		return true
	}
	for _, fr := range st.stack {
		if fr.fn != ins.Parent() {
			continue
		}
		for h := range fr.loops {
			if st.e.loopsIn(fr.fn).body[h][ins.Block()] {
				return true
			}
		}
	}
	return false
}

// moves: by how much the place idx of list the iteration read at lies from the
// one the next iteration reads at (0: not a constant, or the list is another one).
func moves(st *State, loop string, list, idx *Term, phis, vals []*Term) (n int64, known bool) {
	for _, p := range phis {
		if contains(list, p) {
			return 0, false
		}
	}
	if idx.op == OpLoad && idx.aux == loop {
		return mkSub(st.load(idx.args[0], idx.typ), idx).intVal()
	}
	any := false
	for i, p := range phis {
		if !contains(idx, p) {
			continue
		}
		step, ok := mkSub(vals[i], p).intVal()
		c, lin := slope(loop, idx, p, phis)
		if !ok || !lin || any {
			return 0, false
		}
		n, any = c*step, true
	}
	return n, any
}

// slope: t is c*p plus terms with the same value in every iteration.
func slope(loop string, t, p *Term, phis []*Term) (c int64, ok bool) {
	switch {
	case t == p:
		return 1, true
	case t.op == OpAdd || t.op == OpSub:
		a, ok1 := slope(loop, t.args[0], p, phis)
		b, ok2 := slope(loop, t.args[1], p, phis)
		if t.op == OpSub {
			b = -b
		}
		return a + b, ok1 && ok2
	}
	return 0, fixedIn(loop, t, phis)
}

// fixedIn: a term has the same value in every iteration of the loop.
func fixedIn(loop string, t *Term, phis []*Term) bool {
	if t.op == OpConst {
		return true
	}
	switch t.op {
	case OpAdd, OpSub, OpLen, OpParam, OpPhi, OpLoad, OpFieldAddr, OpIndexAddr, OpField, OpIndex:
	default:
		return isLocalRoot(t)
	}
	if t.aux == loop {
		return false
	}
	for _, p := range phis {
		if t == p {
			return false
		}
	}
	for _, a := range t.args {
		if a != nil && !fixedIn(loop, a, phis) {
			return false
		}
	}
	return true
}

func sign(n int64) string {
	if n < 0 {
		return "-"
	}
	return "+"
}
