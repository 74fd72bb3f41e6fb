package main

import (
	"fmt"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// lifeLog is what happened to document states since the last check point.
type lifeLog struct {
	live   []*Term // became live
	queued []*Term // live -> pending removal
	killed []*Term // pending add -> pending removal
	enq    []*Term // put in the removal cache
	clear  []*Term // state of a document pending removal cleared
	batch  []*Term // documents put in a batch to insert
	count  int     // change of the document count
	inc    int     // change of the removal cache's fill count
}

func (l *lifeLog) Key() string {
	return fmt.Sprint(ids(l.live), ids(l.queued), ids(l.killed), ids(l.enq), ids(l.clear), ids(l.batch), l.count, l.inc)
}
func ids(ts []*Term) (out []int) {
	for _, t := range ts {
		out = append(out, t.id)
	}
	return
}
func cp(ts []*Term) []*Term { return append([]*Term(nil), ts...) }
func (l *lifeLog) Clone() Client {
	n := *l
	n.live, n.queued, n.killed, n.enq, n.clear = cp(l.live), cp(l.queued), cp(l.killed), cp(l.enq), cp(l.clear)
	n.batch = cp(l.batch)
	return &n
}

const (
	fNumDocs  = "core.Indexer.numDocs"
	fRmCache  = "core.Indexer.removeCacheLock.removeCache"
	fRmPtr    = "core.Indexer.removeCacheLock.removeCachePointer"
	fAddCache = "core.Indexer.addCacheLock.addCache"
	fAddPtr   = "core.Indexer.addCacheLock.addCachePointer"
)

// priorState: what is known of a document's state: absent and the possible values.
func priorState(st *State, m, k *Term) (mayAbsent bool, vals []int64, desc string) {
	val, ok := st.mapLookup(m, k, tInt)
	present, known := st.eval(ok)
	mayAbsent = !known || !present
	if !known || present {
		for _, v := range []int64{0, 1, 2} {
			e, kn := st.eval(mkEq(val, mkInt(v)))
			if !kn || e {
				vals = append(vals, v)
			}
		}
	}
	if mayAbsent {
		desc = "absent"
	}
	for _, v := range vals {
		if desc != "" {
			desc += " or "
		}
		desc += [...]string{"live", "pending removal", "being added"}[v]
	}
	return
}

// fromCache: t is an element of a buffer copied from the given cache field, or
// of a slice parameter of the operation.
func fromCache(t *Term, field string) bool {
	b, _, ok := elemLoad(t)
	if !ok {
		return false
	}
	return bufferOf(b, field)
}

func bufferOf(b *Term, field string) bool {
	found := false
	visit(b, func(x *Term) {
		if loadsField(x, field) {
			found = true
		}
		if x.op == OpParam {
			if p, ok := x.typ.Underlying().(*types.Pointer); ok {
				if s, ok := p.Elem().Underlying().(*types.Slice); ok && isStringType(s.Elem()) {
					found = true
				}
			}
		}
	})
	return found
}

func init() {
	register("C09", "Typestate analysis of the document states over every exported Indexer operation: at each write to docsState the previous state known on the path must allow the transition (live from absent/being-added, pending-removal from live or being-added, being-added from absent, cleared from pending-removal or by the removal pass); per iteration and per operation the document count must change by exactly +1 per document made live and -1 per live document queued, every live document queued must be put in the removal cache, every document of an added batch must become live, be superseded by the next one of the same id, or be cleared; HasDoc answers exactly for state live.",
		func(c *Ctx) {
			e := coreEngine(c)
			e.Opaque = newLookups(c).e.Opaque
			e.Hooks.Call = searchIndexModel
			e.Coarse = false
			log := func(st *State) *lifeLog { return st.client.(*lifeLog) }
			addLoops, prevLoops := map[string]*Term{}, map[string]*Term{}
			e.PassStart = func() { prevLoops, addLoops = addLoops, map[string]*Term{} }
			bad := func(st *State, key string, ins ssa.Instruction, f string, a ...any) {
				st.report("C09:"+key+":"+fnName(ins.Parent()), ins, f, a...)
			}
			e.Hooks.MapWrite = func(st *State, m, k, v *Term, ins ssa.Instruction) {
				if !loadsField(m, fDocsState) {
					return
				}
				mayAbs, vals, desc := priorState(st, m, k)
				n, isC := v.intVal()
				site := fmt.Sprintf("%s at %s: %s -> %v", fnName(ins.Parent()), e.pos(insPos(ins)), desc, v)
				has := func(x int64) bool {
					for _, y := range vals {
						if x == y {
							return true
						}
					}
					return false
				}
				ok := true
				l := log(st)
				switch {
				case !isC || n < 0 || n > 2:
					ok = false
				case n == 0:
					// a document known to be live is re-inserted only if it was removed first
					ok = !has(1)
					l.live = append(l.live, k)
					// remember the loop whose iterations add one document each
					if docOf(k) != nil {
						for i := len(st.stack) - 1; i >= 0; i-- {
							f := st.stack[i]
							for h, ent := range f.loops {
								for _, p := range ent.phis {
									if b, ix, okE := elemLoad(k.args[0].args[0]); okE && contains(ix, p) {
										_ = b
										addLoops[e.loopKey(f, h)] = ix
									}
								}
							}
						}
					}
				case n == 1:
					ok = !mayAbs && !has(1) && len(vals) == 1
					if ok && vals[0] == 0 {
						l.queued = append(l.queued, k)
					} else if ok {
						l.killed = append(l.killed, k)
					}
				case n == 2:
					ok = mayAbs && len(vals) == 0
				}
				c.ob("legal-transition", site, ok)
				if !ok {
					bad(st, "transition:"+v.String(), ins, "document state set to %v although it may be %s here", v, desc)
				}
			}
			e.Hooks.MapDelete = func(st *State, m, k *Term, ins ssa.Instruction) {
				if !loadsField(m, fDocsState) {
					return
				}
				mayAbs, vals, desc := priorState(st, m, k)
				ok := !mayAbs && len(vals) == 1 && vals[0] == 1 || fromCache(k, fRmCache)
				log(st).clear = append(log(st).clear, k)
				c.ob("legal-transition", fmt.Sprintf("%s at %s: %s -> absent", fnName(ins.Parent()), e.pos(insPos(ins)), desc), ok)
				if !ok {
					bad(st, "forget", ins, "the state of a document is forgotten although it may be %s and is not removed from the index here", desc)
				}
			}
			e.Hooks.Store = func(st *State, loc, val *Term, ins ssa.Instruction) {
				if loc.op != OpFieldAddr {
					return
				}
				switch loc.aux {
				case fNumDocs:
					d, ok := mkSub(val, st.load(loc, val.typ)).intVal()
					if !ok {
						bad(st, "count", ins, "the document count is set to %v", val)
						return
					}
					if d > 1<<40 {
						d -= 1 << 62
						d -= 1 << 62
						d -= 1 << 62
						d -= 1 << 62
					}
					log(st).count += int(d)
				case fRmPtr:
					if d, ok := mkSub(val, st.load(loc, val.typ)).intVal(); ok {
						log(st).inc += int(d)
					}
				case fRmCache:
					v := val
					if v.op == OpAppend {
						log(st).enq = append(log(st).enq, v.args[1:]...)
					}
				case fDocsState:
					bad(st, "replaced", ins, "the table of document states is replaced")
				}
			}
			settle := func(st *State, where string, ins ssa.Instruction) {
				l := log(st)
				site := fmt.Sprintf("%s at %s (%s): %d live, %d queued, %d withdrawn, %d enqueued, count %+d", fnName(st.top().fn), e.pos(insPos(ins)), where, len(l.live), len(l.queued), len(l.killed), len(l.enq), l.count)
				if len(l.live)+len(l.queued)+len(l.killed)+len(l.enq) > 0 || l.count != 0 {
					ok := l.count == len(l.live)-len(l.queued)
					c.ob("count-follows-states", site, ok)
					if !ok {
						bad(st, "count", ins, "by the end of this %s %d documents became live and %d were queued for removal, but the document count changed by %+d", where, len(l.live), len(l.queued), l.count)
					}
					for _, k := range l.queued {
						in := false
						for _, x := range l.enq {
							in = in || st.same(x, k)
						}
						ok := in && l.inc >= len(l.enq)
						c.ob("queued-is-enqueued", site, ok)
						if !ok {
							bad(st, "enqueue", ins, "a live document is marked for removal but not put in the removal cache: it never leaves the index")
						}
					}
					for _, k := range l.enq {
						in := false
						for _, x := range l.queued {
							in = in || st.same(x, k)
						}
						c.ob("enqueued-is-queued", site, in)
						if !in {
							bad(st, "enqueued", ins, "a document is put in the removal cache although it is not marked for removal here")
						}
					}
				}
			}
			e.Hooks.LoopPre = func(st *State, fr *Frame, h *ssa.BasicBlock, phis, vals []*Term) {
				settle(st, "straight part", fr.prev.Instrs[len(fr.prev.Instrs)-1])
				st.client = &lifeLog{}
			}
			e.Hooks.Backedge = func(st *State, fr *Frame, h *ssa.BasicBlock, phis, vals []*Term) {
				at := fr.prev.Instrs[len(fr.prev.Instrs)-1]
				settle(st, "iteration", at)
				if ix := prevLoops[e.loopKey(fr, h)]; ix != nil {
					l := log(st)
					elemAt := func(t *Term) (*Term, *Term) { // buffer and index of the document t is the id of
						if d := docOf(t); d != nil {
							if b, i, ok := elemLoad(d); ok {
								return b, i
							}
						}
						return nil, nil
					}
					ok := false
					for _, t := range append(cp(l.live), l.clear...) {
						_, i := elemAt(t)
						ok = ok || i == ix
					}
					if !ok {
						// superseded: the next document of the batch has the same id
						for f, v := range st.facts {
							if !v || f.op != OpEq {
								continue
							}
							b1, i1 := elemAt(f.args[0])
							b2, i2 := elemAt(f.args[1])
							if b1 == nil || b1 != b2 {
								continue
							}
							if i2 == ix {
								i1, i2 = i2, i1
							}
							if i1 == ix && mkSub(i2, i1) == mkInt(1) && st.proveLt(i2, mkLen(b1)) {
								ok = true
							}
						}
					}
					c.ob("added-superseded-or-cleared", fmt.Sprintf("%s at %s", fnName(fr.fn), e.pos(insPos(at))), ok)
					if !ok {
						bad(st, "lost", at, "a document of the batch is neither made live, nor superseded by the next one of the same id, nor its pending removal cleared: it is lost or blocked for ever")
					}
				}
				for _, d := range log(st).batch {
					m := e.docsStateTerm(st)
					dt := ptrElem(d.typ)
					fi := fieldIdx(dt, "DocId")
					if m == nil || fi < 0 {
						continue
					}
					id := st.load(mkFieldAddr(d, dt, fi), dt.Underlying().(*types.Struct).Field(fi).Type())
					mayAbs, vals, desc := priorState(st, m, id)
					ok := !mayAbs && len(vals) == 1 && vals[0] == 2
					c.ob("batched-is-being-added", fmt.Sprintf("%s at %s: %s", fnName(fr.fn), e.pos(insPos(at)), desc), ok)
					if !ok {
						bad(st, "batched", at, "a document goes into the batch to insert although its state may be %s: it must be recorded as being added, or a removal before its insertion is lost", desc)
					}
				}
				st.client = &lifeLog{}
			}
			e.Hooks.Append = func(st *State, base *Term, elems []*Term, res *Term, typ types.Type, ins ssa.Instruction) {
				if held, w := st.holdsLock(lockTable); !held || !w {
					return
				}
				for _, el := range elems {
					if pt, ok := el.typ.(*types.Pointer); ok && namedIs(pt.Elem(), "types.DocIndex") {
						log(st).batch = append(log(st).batch, el)
					}
				}
			}
			e.Hooks.Return = func(st *State, fn *ssa.Function, res []*Term, ins ssa.Instruction) {
				settle(st, "operation", ins)
				s := fn.Signature
				if s.Params().Len() >= 1 && isStringType(s.Params().At(0).Type()) {
					doc := st.stack[0].args[1]
					m := e.docsStateTerm(st)
					if fn.Name() == "HasDoc" && len(res) == 1 && m != nil {
						ok := false
						if b, kn := st.eval(res[0]); kn {
							// the answer must follow from what was looked up
							okT, v0 := false, true
							for f, v := range st.facts {
								if f.op == OpMapOk && loadsField(f.args[0], fDocsState) && f.args[1] == doc {
									okT = v
									val := mk(OpMapVal, tInt, f.aux, f.args[0], f.args[1])
									x, k2 := st.eval(mkEq(val, mkInt(0)))
									v0 = !k2 || x
									if !k2 && v {
										okT = !b // undecided
									}
								}
							}
							ok = b == (okT && v0)
						} else {
							r := res[0]
							if r.op == OpEq {
								x, y := r.args[0], r.args[1]
								if y.op == OpMapVal {
									x, y = y, x
								}
								if n, isC := y.intVal(); isC && n == 0 && x.op == OpMapVal && loadsField(x.args[0], fDocsState) && x.args[1] == doc {
									ok = st.holds(mk(OpMapOk, tBool, x.aux, x.args[0], x.args[1]), true)
								}
							}
						}
						c.ob("has-doc-iff-live", fnName(fn)+" at "+e.pos(insPos(ins)), ok)
						if !ok {
							bad(st, "hasdoc", ins, "HasDoc answers %v, which is not whether the document is live", res[0])
						}
					}
					if strings.HasPrefix(fn.Name(), "RemoveDocToCache") {
						seen := st.marked("examined", doc)
						// the id "0" is reserved: it stands for no document, only for a flush
						if !st.holds(mkEq(doc, mkStr("0")), true) {
							c.ob("removal-examines-document", fnName(fn)+" at "+e.pos(insPos(ins)), seen)
							if !seen {
								bad(st, "ignored", ins, "removing a document has no effect on some path: its state is not even looked at")
							}
						}
					}
				}
			}
			e.Hooks.MapRead = func(st *State, m, k *Term, ins ssa.Instruction) {
				if loadsField(m, fDocsState) {
					st.mark("examined", k)
				}
			}
			// a pending removal of a live or withdrawn document must be recorded
			e.Hooks.Unlock = func(st *State, key string, lock *Term, write, held bool, ins ssa.Instruction) {
				fn := st.stack[0].fn
				if key != lockTable || fn.Name() != "RemoveDocToCache" || len(st.stack) > 1 {
					return
				}
				doc := st.stack[0].args[1]
				if !st.marked("examined", doc) {
					return
				}
				m := e.docsStateTerm(st)
				if m == nil {
					return
				}
				mayAbs, vals, desc := priorState(st, m, doc)
				ok := true
				for _, v := range vals {
					ok = ok && v == 1
				}
				_ = mayAbs
				c.ob("removal-recorded", fnName(fn)+" at "+e.pos(insPos(ins))+": "+desc, ok)
				if !ok {
					bad(st, "removal", ins, "after a removal the document may still be %s", desc)
				}
			}
			var roots []*ssa.Function
			for _, fn := range exportedOps(c, "core", "Indexer") {
				switch fn.Name() {
				case "Init", "Lookup", "LogicLookup":
					continue
				}
				roots = append(roots, fn)
			}
			c.runRoots(e, roots, func(st *State, fn *ssa.Function) { st.client = &lifeLog{} })
			c.need("legal-transition", 1)
			c.need("count-follows-states", 1)
			c.need("queued-is-enqueued", 1)
			c.need("added-superseded-or-cleared", 1)
			c.need("batched-is-being-added", 1)
			c.need("has-doc-iff-live", 1)
			c.need("removal-recorded", 1)
		}, "batches handed to AddDocs are sorted by id, the last version of an id last (established by C10)", "the initial tables are empty (Init)", "the document id \"0\" is reserved for flushing, as documented")
}

// docsStateTerm: the current table of document states of the operation's receiver.
func (e *Engine) docsStateTerm(st *State) *Term {
	ix := e.P.typeOf("core", "Indexer")
	recv := st.stack[0].args[0]
	if ix == nil || !namedIs(recv.typ, "core.Indexer") {
		return nil
	}
	ti := fieldIdx(ix, "tableLock")
	if ti < 0 {
		return nil
	}
	tl := ix.Underlying().(*types.Struct).Field(ti).Type()
	di := fieldIdx(tl, "docsState")
	if di < 0 {
		return nil
	}
	return st.load(mkFieldAddr(mkFieldAddr(recv, ix, ti), tl, di), tl.Underlying().(*types.Struct).Field(di).Type())
}
