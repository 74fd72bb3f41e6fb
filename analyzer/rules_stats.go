package main

import (
	"fmt"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

const (
	fTotalLen = "core.Indexer.totalTokenLen"
	fDocLens  = "core.Indexer.docTokenLens"
)

// statEntry is one event of the length bookkeeping, with the loops it is an
// iteration of.
type statEntry struct {
	kind string // "delta", "want" (expected delta), "lens" (length recorded), "drop" (length forgotten), "live", "gone"
	neg  bool
	k    *Term // document
	t    *Term // amount
	in   map[string]bool
	ins  ssa.Instruction
}

type statLog struct {
	es    []statEntry
	alias []*Term // terms standing for the running total
}

func (l *statLog) Key() string {
	var b strings.Builder
	for _, e := range l.es {
		fmt.Fprint(&b, e.kind, e.neg, termID(e.k), termID(e.t), len(e.in), ";")
	}
	fmt.Fprint(&b, ids(l.alias))
	return b.String()
}

func termID(t *Term) int {
	if t == nil {
		return -1
	}
	return t.id
}

func (l *statLog) Clone() Client {
	n := &statLog{es: append([]statEntry(nil), l.es...), alias: cp(l.alias)}
	return n
}

func (st *State) activeLoops() map[string]bool {
	r := map[string]bool{}
	for _, f := range st.stack {
		for h := range f.loops {
			r[st.e.loopKey(f, h)] = true
		}
	}
	return r
}

func plainValue(t *Term) *Term {
	for t.op == OpConvert {
		t = t.args[0]
	}
	return t
}

// addends splits a sum into its signed parts.
func addends(t *Term, neg bool, out *[]statEntry) {
	t = plainValue(t)
	if t.op == OpArith && len(t.args) == 2 && (t.aux == "+" || t.aux == "-") {
		addends(t.args[0], neg, out)
		addends(t.args[1], neg != (t.aux == "-"), out)
		return
	}
	if t.isZeroValue() {
		return
	}
	*out = append(*out, statEntry{kind: "delta", neg: neg, t: t})
}

func (t *Term) isZeroValue() bool {
	if t.op == OpZero {
		return true
	}
	if n, ok := t.intVal(); ok {
		return n == 0
	}
	return t.op == OpConst && t.String() == "0"
}

func init() {
	register("C46", "Balance analysis of the corpus length statistics over every exported Indexer operation: per loop iteration and per operation, the changes of the total token length must match, one to one, the lengths recorded for documents (added) and forgotten (the recorded length at that point, subtracted); a document made live must have its own token length recorded in the same iteration (or none if its length is not positive), a length is recorded only for a document made live, and the removal of a document from the index forgets its length.",
		func(c *Ctx) {
			e := coreEngine(c)
			e.Opaque = newLookups(c).e.Opaque
			e.Hooks.Call = searchIndexModel
			e.Coarse = false
			log := func(st *State) *statLog { return st.client.(*statLog) }
			bad := func(st *State, key string, ins ssa.Instruction, f string, a ...any) {
				st.report("C46:"+key+":"+fnName(ins.Parent()), ins, f, a...)
			}
			add := func(st *State, en statEntry) {
				en.in = st.activeLoops()
				log(st).es = append(log(st).es, en)
			}
			isAlias := func(st *State, t *Term) bool {
				for _, a := range log(st).alias {
					if a == t {
						return true
					}
				}
				return false
			}
			isTotal := func(st *State, t *Term) bool { return loadsField(t, fTotalLen) || isAlias(st, t) }
			// running totals kept in a variable and changed by a loop
			changed, prevChanged := map[*Term]bool{}, map[*Term]bool{}
			e.PassStart = func() { changed, prevChanged = map[*Term]bool{}, changed }
			// change turns a new value of the running total into entries; false if it is not the total plus or minus lengths
			change := func(st *State, val *Term, prev *Term, ins ssa.Instruction) bool {
				var now, was []statEntry
				addends(val, false, &now)
				addends(prev, false, &was)
				for _, w := range was {
					found := -1
					for i, n := range now {
						if n.neg == w.neg && (n.t == w.t || isTotal(st, w.t) && isAlias(st, n.t)) {
							found = i
							break
						}
					}
					if found < 0 {
						return false
					}
					now = append(now[:found:found], now[found+1:]...)
				}
				for _, n := range now {
					if isTotal(st, n.t) {
						return false
					}
					n.ins = ins
					add(st, n)
				}
				return true
			}
			tokenLen := func(st *State, doc *Term) *Term {
				dt := ptrElem(doc.typ)
				fi := fieldIdx(dt, "TokenLen")
				if fi < 0 {
					return nil
				}
				return st.load(mkFieldAddr(doc, dt, fi), dt.Underlying().(*types.Struct).Field(fi).Type())
			}
			e.Hooks.Store = func(st *State, loc, val *Term, ins ssa.Instruction) {
				if loc.op != OpFieldAddr {
					return
				}
				switch loc.aux {
				case fTotalLen:
					prev := st.load(loc, val.typ)
					var parts []statEntry
					addends(val, false, &parts)
					for _, p := range parts {
						if !p.neg && isAlias(st, p.t) {
							st.mark("stored", p.t)
						}
					}
					ok := change(st, val, prev, ins)
					c.ob("total-changed-by-lengths", fnName(ins.Parent())+" at "+e.pos(insPos(ins)), ok)
					if !ok {
						bad(st, "total", ins, "the total token length is set to %v, which is not its present value plus or minus document lengths", val)
					}
				case fDocLens:
					bad(st, "replaced", ins, "the table of document lengths is replaced")
				}
			}
			e.Hooks.MapWrite = func(st *State, m, k, v *Term, ins ssa.Instruction) {
				switch {
				case loadsField(m, fDocLens):
					if !plainValue(v).isZeroValue() {
						add(st, statEntry{kind: "want", t: plainValue(v), k: k, ins: ins})
					}
					add(st, statEntry{kind: "lens", t: plainValue(v), k: k, ins: ins})
				case loadsField(m, fDocsState):
					if n, ok := v.intVal(); ok && n == 0 {
						add(st, statEntry{kind: "live", k: k, ins: ins})
					}
				}
			}
			e.Hooks.MapDelete = func(st *State, m, k *Term, ins ssa.Instruction) {
				switch {
				case loadsField(m, fDocLens):
					vt := m.typ.Underlying().(*types.Map).Elem()
					v, ok := st.mapLookup(m, k, vt)
					if p, kn := st.eval(ok); !(kn && !p) {
						add(st, statEntry{kind: "want", neg: true, t: plainValue(v), k: k, ins: ins})
					}
					add(st, statEntry{kind: "drop", k: k, ins: ins})
				case loadsField(m, fDocsState):
					if fromCache(k, fRmCache) {
						add(st, statEntry{kind: "gone", k: k, ins: ins})
					}
				}
			}
			// absent: no length is recorded for the document
			absent := func(st *State, k *Term) bool {
				recv := st.stack[0].args[0]
				dt := ptrElem(recv.typ)
				fi := fieldIdx(dt, "docTokenLens")
				if fi < 0 {
					return false
				}
				ft := dt.Underlying().(*types.Struct).Field(fi).Type()
				m := st.load(mkFieldAddr(recv, dt, fi), ft)
				_, ok := st.mapLookup(m, k, ft.Underlying().(*types.Map).Elem())
				p, kn := st.eval(ok)
				return kn && !p
			}
			notPositive := func(st *State, t *Term) bool {
				for f, v := range st.facts {
					if len(f.args) != 2 {
						continue
					}
					a, b := plainValue(f.args[0]), plainValue(f.args[1])
					switch {
					case f.op == OpEq && v && (st.same(a, t) && b.isZeroValue() || st.same(b, t) && a.isZeroValue()):
						return true
					case f.op == OpLt && !v && a.isZeroValue() && st.same(b, t): // !(0 < t)
						return true
					case f.op == OpLt && v && b.isZeroValue() && st.same(a, t): // t < 0
						return true
					}
				}
				return false
			}
			settle := func(st *State, es []statEntry, where string, ins ssa.Instruction) {
				if len(es) == 0 {
					return
				}
				pick := func(kind string) (r []statEntry) {
					for _, x := range es {
						if x.kind == kind {
							r = append(r, x)
						}
					}
					return
				}
				site := fmt.Sprintf("%s at %s (%s)", fnName(st.top().fn), e.pos(insPos(ins)), where)
				has := func(es []statEntry, k *Term) *statEntry {
					for i := range es {
						if st.same(es[i].k, k) {
							return &es[i]
						}
					}
					return nil
				}
				deltas, want := pick("delta"), pick("want")
				for _, w := range want {
					found := -1
					for i, d := range deltas {
						if d.neg == w.neg && st.same(d.t, w.t) {
							found = i
							break
						}
					}
					c.ob("total-follows-lengths", site, found >= 0)
					if found < 0 {
						s := "recorded for a document but not added to"
						if w.neg {
							s = "forgotten for a document but not subtracted from"
						}
						bad(st, "unbalanced", w.ins, "the length %v is %s the total token length by the end of this %s", w.t, s, where)
						continue
					}
					deltas = append(deltas[:found:found], deltas[found+1:]...)
				}
				for _, d := range deltas {
					c.ob("total-follows-lengths", site, false)
					s := "added to"
					if d.neg {
						s = "subtracted from"
					}
					bad(st, "stray", d.ins, "%v is %s the total token length although no such length is recorded or forgotten for a document in this %s", d.t, s, where)
				}
				live, lens, gone, drop := pick("live"), pick("lens"), pick("gone"), pick("drop")
				for _, l := range live {
					doc := docOf(l.k)
					if doc == nil {
						continue
					}
					tl := tokenLen(st, doc)
					if tl == nil {
						continue
					}
					x := has(lens, l.k)
					ok := x != nil && st.same(x.t, plainValue(tl)) || x == nil && notPositive(st, plainValue(tl))
					c.ob("live-document-has-its-length", site, ok)
					if !ok {
						if x != nil {
							bad(st, "length", x.ins, "the length recorded for a document made live is %v, not its token length", x.t)
						} else {
							bad(st, "nolength", l.ins, "a document is made live without recording its token length")
						}
					}
				}
				for _, l := range lens {
					ok := has(live, l.k) != nil
					c.ob("length-of-a-live-document", site, ok)
					if !ok {
						bad(st, "orphan", l.ins, "a length is recorded for a document that is not made live here: it stays in the statistics without being in the index")
					}
				}
				for _, g := range gone {
					ok := has(drop, g.k) != nil || absent(st, g.k)
					c.ob("removed-document-loses-its-length", site, ok)
					if !ok {
						bad(st, "kept", g.ins, "a document is removed from the index but its length is kept in the statistics")
					}
				}
				for _, d := range drop {
					ok := has(gone, d.k) != nil
					c.ob("length-forgotten-only-on-removal", site, ok)
					if !ok {
						bad(st, "dropped", d.ins, "the length of a document is forgotten although the document is not removed from the index here")
					}
				}
			}
			e.Hooks.LoopPre = func(st *State, fr *Frame, h *ssa.BasicBlock, phis, vals []*Term) {
				for i, p := range phis {
					if v := plainValue(vals[i]); isTotal(st, v) {
						log(st).alias = append(log(st).alias, p)
					}
				}
			}
			e.Hooks.Backedge = func(st *State, fr *Frame, h *ssa.BasicBlock, phis, vals []*Term) {
				at := fr.prev.Instrs[len(fr.prev.Instrs)-1]
				l := log(st)
				for i, p := range phis {
					for _, a := range l.alias {
						if a != p || vals[i] == p {
							continue
						}
						if changed[p] = true; !prevChanged[p] {
							e.changed = true
						}
						if !change(st, vals[i], p, at) {
							bad(st, "total", at, "the running total token length becomes %v, which is not its present value plus or minus document lengths", vals[i])
						}
					}
				}
				key := e.loopKey(fr, h)
				var mine, rest []statEntry
				for _, x := range l.es {
					if x.in[key] {
						mine = append(mine, x)
					} else {
						rest = append(rest, x)
					}
				}
				l.es = rest
				settle(st, mine, "iteration", at)
			}
			e.Hooks.Return = func(st *State, fn *ssa.Function, res []*Term, ins ssa.Instruction) {
				es := log(st).es
				log(st).es = nil
				for _, a := range log(st).alias {
					if !prevChanged[a] {
						continue
					}
					ok := st.marked("stored", a)
					c.ob("running-total-stored-back", fnName(fn)+" at "+e.pos(insPos(ins)), ok)
					if !ok {
						bad(st, "lost", ins, "a running total token length is changed but not stored back by the end of the operation")
					}
				}
				settle(st, es, "operation", ins)
			}
			var roots []*ssa.Function
			for _, fn := range exportedOps(c, "core", "Indexer") {
				switch fn.Name() {
				case "Init", "Lookup", "LogicLookup":
					continue
				}
				roots = append(roots, fn)
			}
			sort.Slice(roots, func(i, j int) bool { return roots[i].String() < roots[j].String() })
			c.runRoots(e, roots, func(st *State, fn *ssa.Function) { st.client = &statLog{} })
			c.need("total-changed-by-lengths", 1)
			c.need("total-follows-lengths", 1)
			c.need("live-document-has-its-length", 1)
			c.need("removed-document-loses-its-length", 1)
		}, "the initial tables are empty (Init)", "the document states make legal transitions (C09), so a document made live has no length recorded before", "token lengths are not negative", "the removal cache holds each document once between two flushes (C09)")
}
