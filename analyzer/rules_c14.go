package main

import (
	"fmt"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

const rkLock = "core.Ranker.lock"

// hitSt follows one iteration of a ranking loop.
type hitSt struct {
	sec    int
	reads  map[string]int // ranker map + key -> critical section it was read in
	hits   []*Term
	scores map[*Term][2]*Term // result of a Score call -> document and fields scored
}

func (h *hitSt) Key() string {
	s := fmt.Sprint(h.sec, ids(h.hits))
	for _, k := range sortedKeys(h.reads) {
		s += fmt.Sprint(k, h.reads[k])
	}
	return s
}
func (h *hitSt) Clone() Client {
	n := *h
	n.reads = map[string]int{}
	for k, v := range h.reads {
		n.reads[k] = v
	}
	n.hits = cp(h.hits)
	n.scores = map[*Term][2]*Term{}
	for k, v := range h.scores {
		n.scores[k] = v
	}
	return &n
}
func newHitSt() *hitSt { return &hitSt{reads: map[string]int{}, scores: map[*Term][2]*Term{}} }

// rankerMap names the ranker table a map value is.
func rankerMap(m *Term) string {
	if m != nil && m.op == OpLoad && m.args[0].op == OpFieldAddr && strings.HasPrefix(m.args[0].aux, rkLock+".") {
		return m.args[0].aux[len(rkLock)+1:]
	}
	return ""
}

// hitFields flattens a hit into its fields.
func hitFields(t *Term) map[string]*Term {
	out := map[string]*Term{}
	var walk func(t *Term, typ types.Type)
	walk = func(t *Term, typ types.Type) {
		s, ok := typ.Underlying().(*types.Struct)
		if !ok {
			return
		}
		for i := 0; i < s.NumFields(); i++ {
			f := mkField(t, typ, i)
			if s.Field(i).Embedded() {
				walk(f, s.Field(i).Type())
				continue
			}
			out[s.Field(i).Name()] = f
		}
	}
	walk(t, t.typ)
	return out
}

// fieldOfElem: t is the given field of the element of a slice; the address of the element.
func fieldOfElem(t *Term, aux string) *Term {
	if !loadsField(t, aux) {
		return nil
	}
	if t.op == OpLoad {
		return t.args[0].args[0]
	}
	x := t.args[0]
	if x.op == OpLoad {
		return x.args[0]
	}
	return nil
}

func init() {
	register("C14", "Field-provenance analysis of the hits: every hit built in the ranker or in the lookup workers takes its id and its positions from one and the same looked-up document; in the ranker that document is known to be registered, the score is the criterion's for that document with the fields stored under its id, is not empty, and fields, content and attributes are those stored under its id, all read in one critical section. Every iteration that builds no hit is justified: the document is not registered or its score is empty, and the iterations cover the whole list. Adding is proved to store everything under the document's own id, and removing to delete that id from every table adding may have stored it in.",
		func(c *Ctx) {
			rt := c.P.typeOf("core", "Ranker")
			if rt == nil {
				c.violate("anchor:core.Ranker", "", "", "the ranker was not found", nil)
				return
			}
			idx := fieldIdx(rt, "idOnly")
			idOnly := func(st *State) *Term {
				if idx < 0 {
					return mkBool(false)
				}
				return st.load(mkFieldAddr(st.stack[0].args[0], rt, idx), tBool)
			}
			// ---- what adding stores
			type key struct {
				m    string
				only bool
			}
			stored := map[key]bool{}
			if fn := c.mustFn("(*core.Ranker).AddDoc"); fn != nil && len(fn.Params) >= 3 {
				e := NewEngine(c.P)
				e.Guard = coreGuard
				e.Hooks.MapWrite = func(st *State, m, k, v *Term, ins ssa.Instruction) {
					name := rankerMap(m)
					if name == "" {
						return
					}
					a := st.stack[0].args
					ok := k == a[1]
					for _, only := range []bool{true, false} {
						if st.clone().assume(idOnly(st), only) {
							stored[key{name, only}] = true
						}
					}
					why := fmt.Sprintf("%s is stored under %v instead of the document's own id", name, k)
					if ok {
						want := ""
						switch name {
						case "fields":
							ok, want = v == a[2], "the fields given"
						case "docs":
							ok, want = v == mkBool(true), "true"
						case "content":
							ok, want = restArg(v, a, 0), "the content given"
						case "attri":
							ok, want = restArg(v, a, 1), "the attributes given"
						}
						why = fmt.Sprintf("%v is stored in %s instead of %s", v, name, want)
					}
					c.ob("stored-under-own-id", fmt.Sprintf("%s at %s: %s", fnName(ins.Parent()), e.pos(insPos(ins)), name), ok)
					if !ok {
						st.report("C14:add:"+name, ins, "%s", why)
					}
				}
				e.Hooks.Return = func(st *State, fn *ssa.Function, res []*Term, ins ssa.Instruction) {
					a := st.stack[0].args
					miss := ""
					for _, name := range []string{"docs", "fields", "content", "attri"} {
						if name == "content" || name == "attri" {
							if len(a) < 4 || !st.holds(idOnly(st), false) {
								continue
							}
							n := int64(1)
							if name == "attri" {
								n = 2
							}
							if !st.proveLe(mkInt(n), mkLen(a[3])) {
								continue
							}
						}
						if !st.marked("stored", mkStr(name)) {
							miss = name
						}
					}
					c.ob("everything-stored", fnName(fn)+" at "+e.pos(insPos(ins)), miss == "")
					if miss != "" {
						st.report("C14:notstored:"+miss, ins, "adding a document may leave its %s unstored", miss)
					}
				}
				mw := e.Hooks.MapWrite
				e.Hooks.MapWrite = func(st *State, m, k, v *Term, ins ssa.Instruction) {
					mw(st, m, k, v, ins)
					if n := rankerMap(m); n != "" {
						st.mark("stored", mkStr(n))
					}
				}
				c.runRoots(e, []*ssa.Function{fn}, nil)
			}
			c.need("stored-under-own-id", 1)
			// ---- what removing forgets
			if fn := c.mustFn("(*core.Ranker).RemoveDoc"); fn != nil {
				e := NewEngine(c.P)
				e.Guard = coreGuard
				e.Hooks.MapDelete = func(st *State, m, k *Term, ins ssa.Instruction) {
					if n := rankerMap(m); n != "" {
						ok := k == st.stack[0].args[1]
						c.ob("only-own-data-deleted", fmt.Sprintf("%s at %s: %s", fnName(ins.Parent()), e.pos(insPos(ins)), n), ok)
						if !ok {
							st.report("C14:remove:"+n, ins, "%v is removed from %s, not the document asked for", k, n)
							return
						}
						st.mark("deleted", mkStr(n))
					}
				}
				e.Hooks.Return = func(st *State, fn *ssa.Function, res []*Term, ins ssa.Instruction) {
					for k := range stored {
						s := st.clone()
						if !s.assume(idOnly(st), k.only) {
							continue
						}
						ok := s.marked("deleted", mkStr(k.m))
						c.ob("removal-erases-what-adding-stores", fmt.Sprintf("%s, id-only %v", k.m, k.only), ok)
						if !ok {
							st.report("C14:forget:"+k.m, ins, "removing a document leaves its entry in %s (id-only: %v)", k.m, k.only)
						}
					}
				}
				c.runRoots(e, []*ssa.Function{fn}, nil)
			}
			c.need("removal-erases-what-adding-stores", 1)

			// ---- hits
			built := func(e *Engine, ranked func(st *State) bool) {
				log := func(st *State) *hitSt { return st.client.(*hitSt) }
				// which loops build hits from which elements
				type hitLoop struct {
					fn        *ssa.Function
					base, idx *Term
				}
				loops, prev := map[string]hitLoop{}, map[string]hitLoop{}
				e.PassStart = func() { prev, loops = loops, map[string]hitLoop{} }
				note := func(st *State, id *Term) {
					el := hitBase(id)
					if el == nil || el.op != OpIndexAddr {
						return
					}
					for i := len(st.stack) - 1; i >= 0; i-- {
						fr := st.stack[i]
						for h, ent := range fr.loops {
							for _, p := range ent.phis {
								if contains(el.args[1], p) {
									loops[e.loopKey(fr, h)] = hitLoop{fr.fn, el.args[0], el.args[1]}
								}
							}
						}
					}
				}
				all := func(st *State, fn *ssa.Function, ins ssa.Instruction) {
					has, ok := false, false
					for k, l := range prev {
						if l.fn != fn {
							continue
						}
						has = true
						root, lo, hi := sliceParts(l.base)
						if st.proveLe(mkLen(l.base), mkInt(0)) {
							ok = true
						}
						for _, fa := range st.forall {
							if fa.ctx != k || lo != mkInt(0) || hi != mkLen(root) {
								continue
							}
							if sp, k := st.loopSpan(fa, l.idx); k && st.covered([]span{sp}, mkInt(0), mkLen(l.base)) {
								ok = true
							}
						}
					}
					if has {
						c.ob("every-document-gets-its-turn", fmt.Sprintf("%s at %s", fnName(fn), e.pos(insPos(ins))), ok)
						if !ok {
							st.report("C14:all:"+fnName(fn), ins, "not every document of the list is turned into a hit or dropped for a reason")
						}
					}
				}
				e.Hooks.Exit = func(st *State, fn *ssa.Function, args, res []*Term, ins ssa.Instruction) { all(st, fn, ins) }
				e.Hooks.Return = func(st *State, fn *ssa.Function, res []*Term, ins ssa.Instruction) { all(st, fn, ins) }
				e.Hooks.Lock = func(st *State, key string, lock *Term, write bool, ins ssa.Instruction) {
					if key == rkLock {
						log(st).sec++
					}
				}
				e.Hooks.MapRead = func(st *State, m, k *Term, ins ssa.Instruction) {
					if n := rankerMap(m); n != "" {
						log(st).reads[n+itoa(k.id)] = log(st).sec
					}
				}
				e.Hooks.Called = func(st *State, ci *CallInfo, res *Term) {
					if ci.Call.IsInvoke() && ci.Call.Method.Name() == "Score" && len(ci.Args) >= 2 {
						a := ci.Args[len(ci.Args)-2:]
						log(st).scores[res] = [2]*Term{a[0], a[1]}
					}
				}
				e.Hooks.Append = func(st *State, base *Term, elems []*Term, res *Term, typ types.Type, ins ssa.Instruction) {
					for _, el := range elems {
						if el.typ == nil || !namedIs(el.typ, "types.ScoredDoc") && !namedIs(el.typ, "types.ScoredID") {
							continue
						}
						l := log(st)
						f := hitFields(el)
						site := fmt.Sprintf("%s at %s", fnName(ins.Parent()), e.pos(insPos(ins)))
						bad := ""
						id := f["DocId"]
						from := fieldOfElem(id, "types.IndexedDoc.DocId")
						whole := id != nil && (loadsField(id, "types.ScoredID.DocId"))
						switch {
						case whole:
							// a hit passed on: all fields from the same hit
							src := hitBase(id)
							l.hits = append(l.hits, id)
							note(st, id)
							for n, v := range f {
								if src == nil || hitBase(v) != src || !strings.HasSuffix(auxOf(v), "."+n) {
									bad = n + " of the hit passed on is not its own"
								}
							}
						case from == nil:
							bad = fmt.Sprintf("the id of the hit is %v, not that of a document that was looked up", id)
						default:
							l.hits = append(l.hits, id)
							note(st, id)
							for _, n := range []string{"TokenSnippetLocs", "TokenLocs"} {
								if fieldOfElem(f[n], "types.IndexedDoc."+n) != from {
									bad = n + " of the hit is not that of its document"
								}
							}
							if bad != "" || !ranked(st) {
								break
							}
							own := func(v *Term, m string) bool {
								return v != nil && v.op == OpMapVal && rankerMap(v.args[0]) == m && v.args[1] == id || v != nil && st.isZero(v) && st.absent(m, id)
							}
							sec, seen := l.reads["docs"+itoa(id.id)]
							sc, ok := l.scores[f["Scores"]]
							switch {
							case !st.registered(id) || !seen:
								bad = "the document is not known to be registered with the ranker"
							case !ok:
								bad = "the scores are not the result of the scoring criterion"
							case !isElemStruct(sc[0], from):
								bad = "the scores are those of another document"
							case !own(sc[1], "fields"):
								bad = "the document is scored with fields that are not its own"
							case !st.proveLe(mkInt(1), mkLen(f["Scores"])):
								bad = "the score may be empty"
							}
							need := []string{"fields"}
							for _, n := range [][2]string{{"Fields", "fields"}, {"Content", "content"}, {"Attri", "attri"}} {
								v, has := f[n[0]]
								if !has || bad != "" {
									continue
								}
								if !own(v, n[1]) {
									bad = n[0] + " of the hit is not what is stored under its id"
								}
								need = append(need, n[1])
							}
							for _, m := range need {
								if s, k := l.reads[m+itoa(id.id)]; bad == "" && (!k || s != sec) {
									bad = m + " is read in another critical section than the one that found the document: it may have been removed or replaced in between"
								}
							}
						}
						c.ob("hit-is-its-own-document's", site, bad == "")
						if bad != "" {
							st.report("C14:hit:"+fnName(ins.Parent()), ins, "%s", bad)
						}
					}
				}
				e.Hooks.LoopPre = func(st *State, fr *Frame, h *ssa.BasicBlock, phis, vals []*Term) {
					l := newHitSt()
					st.client = l
				}
				e.Hooks.Backedge = func(st *State, fr *Frame, h *ssa.BasicBlock, phis, vals []*Term) {
					defer func() { st.client = newHitSt() }()
					// loops that build hits: some phi is a slice of hits
					is := false
					for _, p := range phis {
						is = is || isHits(p.typ) && e.appendsFrom(st, p)
					}
					if !is {
						return
					}
					at := fr.prev.Instrs[len(fr.prev.Instrs)-1]
					l := log(st)
					ok := len(l.hits) == 1
					if !ok && len(l.hits) == 0 && ranked(st) {
						// not registered, or no score
						for f, v := range st.facts {
							if !v && f.op == OpMapOk && rankerMap(f.args[0]) == "docs" && fieldOfElem(f.args[1], "types.IndexedDoc.DocId") != nil {
								ok = true
							}
						}
						for s := range l.scores {
							if st.proveLe(mkLen(s), mkInt(0)) {
								ok = true
							}
						}
					}
					c.ob("hit-or-justified", fmt.Sprintf("%s at %s: %d hits", fnName(fr.fn), e.pos(insPos(at)), len(l.hits)), ok)
					if !ok {
						st.report("C14:lost:"+fnName(fr.fn), at, "an iteration yields %d hits although its document may be registered and scored", len(l.hits))
					}
				}
			}
			n := 0
			for _, name := range []string{"Rank", "RankDocs", "RankDocID"} {
				rk := c.P.fn("(*core.Ranker)." + name)
				if rk == nil {
					if name == "Rank" {
						c.mustFn("(*core.Ranker).Rank")
					}
					continue
				}
				n++
				bi := boolParam(rk)
				if bi < 0 {
					continue
				}
				e := NewEngine(c.P)
				e.Guard = coreGuard
				e.Stable = stableOptions
				built(e, func(st *State) bool { return true })
				c.runRoots(e, []*ssa.Function{rk}, func(st *State, fn *ssa.Function) {
					st.client = newHitSt()
					st.addFact(st.stack[0].args[bi], false)
				})
			}
			// the workers' own hits (orderless searches), and the merged ones
			isLookup := func(f *ssa.Function) bool { return fnName(f) == "(*core.Indexer).Lookup" }
			e := NewEngine(c.P)
			e.Opaque = isLookup
			built(e, func(st *State) bool { return false })
			var roots []*ssa.Function
			for _, f := range c.goRoots("riot") {
				if reaches(f, isLookup) {
					roots = append(roots, f)
				}
			}
			if len(roots) == 0 {
				c.violate("C14:workers", "", "", "no worker that looks documents up was found", nil)
			}
			for _, fn := range c.P.methodsOf("riot", "Engine") {
				oi, qi := paramOf(fn, "types.RankOpts"), paramOf(fn, "types.SearchReq")
				if oi >= 0 && qi >= 0 {
					roots = append(roots, fn)
				}
			}
			c.runRoots(e, roots, func(st *State, fn *ssa.Function) { st.client = newHitSt() })
			c.need("hit-is-its-own-document's", 1)
			c.need("hit-or-justified", 1)
			c.need("every-document-gets-its-turn", 1)
		})
}

// restArg: v is the n-th of the optional arguments (asserted to a type or not).
func restArg(v *Term, a []*Term, n int64) bool {
	if len(a) < 4 {
		return false
	}
	found := false
	visit(v, func(x *Term) {
		if x.op == OpIndexAddr && x.args[0] == a[3] && x.args[1] == mkInt(n) {
			found = true
		}
	})
	return found
}

func auxOf(t *Term) string {
	if t.op == OpLoad && t.args[0].op == OpFieldAddr {
		return t.args[0].aux
	}
	return t.aux
}

// hitBase: the hit a field value is read from.
func hitBase(t *Term) *Term {
	for t != nil {
		switch {
		case t.op == OpLoad && t.args[0].op == OpFieldAddr:
			t = t.args[0]
		case t.op == OpFieldAddr, t.op == OpField:
			t = t.args[0]
		case t.op == OpLoad && t.args[0].op == OpIndexAddr:
			return t.args[0]
		default:
			return t
		}
	}
	return nil
}

// isElemStruct: t is the (whole) element at address el.
func isElemStruct(t, el *Term) bool {
	if t.op == OpLoad {
		return t.args[0] == el
	}
	if t.op == OpStruct {
		for _, a := range t.args {
			if hitBase(a) != el {
				return false
			}
		}
		return len(t.args) > 0
	}
	return false
}

// registered: id is known to be in the ranker's table of documents.
func (st *State) registered(id *Term) bool {
	for f, v := range st.facts {
		if v && f.op == OpMapOk && rankerMap(f.args[0]) == "docs" && f.args[1] == id {
			return true
		}
		if v && f.op == OpMapVal && rankerMap(f.args[0]) == "docs" && f.args[1] == id {
			return true // the entry is true
		}
	}
	return false
}

func (st *State) isZero(v *Term) bool { return v.typ != nil && v == zeroOf(v.typ) }

// absent: the table is known to have no entry for id.
func (st *State) absent(m string, id *Term) bool {
	for f, v := range st.facts {
		if !v && f.op == OpMapOk && rankerMap(f.args[0]) == m && f.args[1] == id {
			return true
		}
	}
	return false
}

// appendsFrom: some value of the loop variable is built by appending to it.
func (e *Engine) appendsFrom(st *State, p *Term) bool {
	for v := range e.prev.phiIn[p] {
		if v.op == OpAppend && st.baseList(v) == p {
			return true
		}
	}
	return false
}
