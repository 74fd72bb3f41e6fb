package main

import (
	"fmt"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// batchLog follows the documents from the pending-add buffer into a batch.
type batchLog struct {
	read   []*Term // indices of the buffer read in this iteration
	places []place // where this iteration put a document
	filled *Term   // slots of the buffer filled from the front since the partition (after a copy)
	copied []*Term // lists copied back into the buffer
	stable *Term   // what was sorted stably last
	sorted bool
	flush  *Term // result of the removal flush
	left   *Term // fill count when the buffer's lock was released
}

type place struct {
	doc, pos *Term // pos nil: appended to list
	list     *Term
}

func (l *batchLog) Key() string {
	s := fmt.Sprint(ids(l.read), ids(l.copied), l.sorted)
	for _, p := range l.places {
		s += fmt.Sprint(p.doc.id)
		if p.pos != nil {
			s += fmt.Sprint("@", p.pos.id)
		} else {
			s += fmt.Sprint("+", p.list.id)
		}
	}
	for _, t := range []*Term{l.filled, l.stable, l.flush, l.left} {
		if t != nil {
			s += fmt.Sprint(";", t.id)
		}
	}
	return s
}
func (l *batchLog) Clone() Client {
	n := *l
	n.read, n.copied = cp(l.read), cp(l.copied)
	n.places = append([]place(nil), l.places...)
	return &n
}

// bufferElem: loc or value addresses an element of the pending-add buffer.
func bufferElemAddr(loc *Term) (idx *Term, ok bool) {
	if loc.op != OpIndexAddr {
		return nil, false
	}
	root, lo := loc.args[0], mkInt(0)
	for root.op == OpSlice && root.args[0].op != OpAlloc {
		lo = mkAdd(lo, root.args[1])
		root = root.args[0]
	}
	if !isAddBuffer(root) {
		return nil, false
	}
	return mkAdd(lo, loc.args[1]), true
}

// isAddBuffer: t is the pending-add buffer, maybe with a document added behind the others.
func isAddBuffer(t *Term) bool {
	for t != nil && (t.op == OpSlice && t.args[0].op != OpAlloc || t.op == OpAppend) {
		t = t.args[0]
	}
	return loadsField(t, fAddCache)
}

func bufferElem(t *Term) (idx *Term, ok bool) {
	if t.op != OpLoad {
		return nil, false
	}
	return bufferElemAddr(t.args[0])
}

// elemOf: the element type of a slice value.
func elemOf(t *Term) types.Type {
	if t.typ != nil {
		if s, ok := t.typ.Underlying().(*types.Slice); ok {
			return s.Elem()
		}
	}
	return tBool
}

func isDocPtr(t types.Type) bool {
	p, ok := t.Underlying().(*types.Pointer)
	return ok && namedIs(p.Elem(), "types.DocIndex")
}

func init() {
	register("C10", "Order-preservation analysis of the pending-add buffer: a document is buffered behind the earlier ones; when a batch is formed every buffered document is placed exactly once per iteration, either at the next slot of a front part (and then its state is pending removal) or at the end of one list (and then its state is being added), so versions of one id stay together in order; the list is put back right behind the front part and nothing else writes the buffer; the batch is a window [p, fill count) with p the end of the front part (or 0 once the removals were flushed) and p is what stays buffered; the batch is sorted stably by id and nothing else before insertion; and a document is inserted only if it is the last of its batch or the next one has another id. The sort's Less and Swap are proved to compare and exchange exactly by id.",
		func(c *Ctx) {
			e := coreEngine(c)
			e.Opaque = newLookups(c).e.Opaque
			e.Hooks.Call = searchIndexModel
			log := func(st *State) *batchLog { return st.client.(*batchLog) }
			bad := func(st *State, key string, ins ssa.Instruction, f string, a ...any) {
				st.report("C10:"+key+":"+fnName(ins.Parent()), ins, f, a...)
			}
			// per loop: loops that partition the buffer; slots used; insertion loops
			part, prevPart := map[string]bool{}, map[string]bool{}
			cursor, prevCursor := map[string]*Term{}, map[string]*Term{} // element looked at
			front, prevFront := map[*Term]bool{}, map[*Term]bool{}
			lists, prevLists := map[*Term]bool{}, map[*Term]bool{}
			ins9, prevIns := map[string]*Term{}, map[string]*Term{}
			e.PassStart = func() {
				prevPart, part = part, map[string]bool{}
				prevCursor, cursor = cursor, map[string]*Term{}
				prevFront, front = front, map[*Term]bool{}
				prevLists, lists = lists, map[*Term]bool{}
				prevIns, ins9 = ins9, map[string]*Term{}
			}
			loopsOf := func(st *State, x *Term, f func(key string, fr *Frame)) {
				for i := len(st.stack) - 1; i >= 0; i-- {
					fr := st.stack[i]
					for h, ent := range fr.loops {
						for _, p := range ent.phis {
							if contains(x, p) {
								f(e.loopKey(fr, h), fr)
							}
						}
					}
				}
			}
			e.Hooks.Load = func(st *State, loc, val *Term, ins ssa.Instruction) {
				if i, ok := bufferElemAddr(loc); ok {
					l := log(st)
					for _, x := range l.read {
						if x == i {
							return
						}
					}
					l.read = append(l.read, i)
				}
			}
			e.Hooks.Store = func(st *State, loc, val *Term, ins ssa.Instruction) {
				if loc.op == OpFieldAddr && loc.aux == fAddCache {
					if st.stack[0].fn.Name() == "Init" {
						return
					}
					// the buffer itself: only a document added behind the others
					v, ok := val, false
					if v.op == OpAppend && len(v.args) == 2 {
						root, lo, hi := st.window(v.args[0])
						ok = isAddBuffer(root) && lo == mkInt(0) && st.isFill(hi)
					} else {
						root, lo, _ := st.window(v)
						ok = isAddBuffer(root) && lo == mkInt(0)
					}
					c.ob("buffered-behind-the-others", fnName(ins.Parent())+" at "+e.pos(insPos(ins)), ok)
					if !ok {
						bad(st, "buffer", ins, "the pending-add buffer is replaced by %v", val)
					}
					return
				}
				if loc.op == OpFieldAddr && loc.aux == fAddPtr {
					return
				}
				i, ok := bufferElemAddr(loc)
				if !ok {
					return
				}
				l := log(st)
				if _, isElem := bufferElem(val); !isElem && val.op == OpParam {
					ok := st.isFill(i)
					c.ob("buffered-behind-the-others", fnName(ins.Parent())+" at "+e.pos(insPos(ins)), ok)
					if !ok {
						bad(st, "buffer", ins, "a new document is put at slot %v of the buffer instead of behind the others", i)
					}
					return
				}
				l.places = append(l.places, place{doc: val, pos: i})
				if j, ok := bufferElem(val); ok {
					loopsOf(st, j, func(k string, fr *Frame) { part[k] = true })
				} else {
					bad(st, "place", ins, "slot %v of the pending-add buffer is overwritten with %v, which is not a buffered document", i, val)
				}
			}
			e.Hooks.Append = func(st *State, base *Term, elems []*Term, res *Term, typ types.Type, ins ssa.Instruction) {
				for _, el := range elems {
					if el.typ == nil || !isDocPtr(el.typ) {
						continue
					}
					if j, ok := bufferElem(el); ok {
						log(st).places = append(log(st).places, place{doc: el, list: base})
						loopsOf(st, j, func(k string, fr *Frame) { part[k] = true })
					}
				}
			}
			e.Hooks.LoopPre = func(st *State, fr *Frame, h *ssa.BasicBlock, phis, vals []*Term) {
				l := log(st)
				l.read, l.places = nil, nil
			}
			e.Hooks.Backedge = func(st *State, fr *Frame, h *ssa.BasicBlock, phis, vals []*Term) {
				at := fr.prev.Instrs[len(fr.prev.Instrs)-1]
				l := log(st)
				key := e.loopKey(fr, h)
				if prevPart[key] {
					// which element is this iteration's?
					var cur *Term
					for _, i := range l.read {
						for _, p := range phis {
							if contains(i, p) && cur == nil {
								cur = i
							}
						}
					}
					step := func(x *Term) (*Term, bool) { // change of a loop variable in this iteration
						for k, p := range phis {
							if p == x {
								return mkSub(vals[k], p), true
							}
						}
						return nil, false
					}
					msg := ""
					cursor[key] = cur
					switch {
					case cur == nil:
						msg = "an iteration of the partition looks at no buffered document"
					case len(l.places) != 1:
						msg = fmt.Sprintf("a buffered document is placed %d times in one iteration", len(l.places))
					default:
						p := l.places[0]
						if j, ok := bufferElem(p.doc); !ok || j != cur {
							msg = fmt.Sprintf("the document placed is %v, not the one of this iteration", p.doc)
							break
						}
						m := e.docsStateTerm(st)
						dt := ptrElem(p.doc.typ)
						fi := fieldIdx(dt, "DocId")
						if m == nil || fi < 0 {
							msg = "document states not found"
							break
						}
						id := st.load(mkFieldAddr(p.doc, dt, fi), tString)
						mayAbs, vs, desc := priorState(st, m, id)
						if p.pos != nil {
							front[p.pos] = true
							d, isPhi := step(p.pos)
							switch {
							case !isPhi || d != mkInt(1):
								msg = fmt.Sprintf("the slot %v a document is kept at does not advance by one", p.pos)
							case !st.proveLe(p.pos, cur):
								msg = "a slot not yet looked at may be overwritten"
							case mayAbs || len(vs) != 1 || vs[0] != 1:
								msg = "a document is kept back although its state may be " + desc + ": another version of it may be inserted before it"
							}
						} else {
							lists[p.list] = true
							if mayAbs || len(vs) != 1 || vs[0] != 2 {
								msg = "a document goes into the batch although its state may be " + desc + ": an earlier version of it may be kept back and inserted later"
							}
							for f := range prevFront {
								if d, isPhi := step(f); isPhi && d != mkInt(0) {
									msg = "the front part grows although no document was kept"
								}
							}
						}
					}
					where := "nowhere"
					if len(l.places) > 0 && l.places[0].pos != nil {
						where = "kept in front"
					} else if len(l.places) > 0 {
						where = "listed for insertion"
					}
					c.ob("placed-once-in-order", fmt.Sprintf("%s at %s: %s", fnName(fr.fn), e.pos(insPos(at)), where), msg == "")
					if msg != "" {
						bad(st, "place", at, "%s", msg)
					}
				}
				if ix := prevIns[key]; ix != nil {
					if k := st.insertedIn(ix); k != nil {
						b, _, _ := elemLoad(docOf(k))
						s := st.clone()
						ok := !s.assume(mkLt(mkAdd(ix, mkInt(1)), mkLen(b)), true)
						if !ok {
							nd := s.load(mkIndexAddr(b, mkAdd(ix, mkInt(1)), docOf(k).typ), docOf(k).typ)
							dt := ptrElem(nd.typ)
							next := s.load(mkFieldAddr(nd, dt, fieldIdx(dt, "DocId")), tString)
							ok = s.holds(mkEq(k, next), false) || s.proveLe(mkLen(b), mkAdd(ix, mkInt(1)))
						}
						c.ob("only-last-version-inserted", fmt.Sprintf("%s at %s", fnName(fr.fn), e.pos(insPos(at))), ok)
						if !ok {
							bad(st, "version", at, "a document is inserted although the next one of the batch may be a later version of it")
						}
					}
				}
				l.read, l.places = nil, nil
			}
			e.Hooks.MapWrite = func(st *State, m, k, v *Term, ins ssa.Instruction) {
				if !loadsField(m, fDocsState) || v != mkInt(0) || docOf(k) == nil {
					return
				}
				if b, ix, ok := elemLoad(docOf(k)); ok && b != nil {
					loopsOf(st, ix, func(key string, fr *Frame) { ins9[key] = ix })
					st.mark("inserted", k, ix)
				}
			}
			e.Hooks.Copy = func(st *State, dst, src *Term, ins ssa.Instruction) {
				root, lo, hi := st.window(dst)
				if !isAddBuffer(root) {
					if lo == mkInt(0) && hi == mkLen(root) && isDocPtr(elemOf(root)) && st.proveEqInt(mkLen(src), mkLen(root)) {
						st.mark("copyof", root, src)
					}
					return
				}
				l := log(st)
				ok := prevLists[src] || prevLists[st.baseList(src)]
				why := fmt.Sprintf("%v is copied into the pending-add buffer, which is not the list of documents to insert", src)
				if ok {
					ok = prevFront[lo] || l.filled != nil && st.proveEqInt(lo, l.filled)
					why = fmt.Sprintf("the documents to insert are put back at %v, not right behind the ones kept", lo)
				}
				if ok {
					// every iteration places one document, so front and list together
					// are as long as the part of the buffer that was looked at
					ok = false
					why = "not every buffered document is partitioned, or more documents than there are slots are put back"
					n := st.fillCount()
					for _, fa := range st.forall {
						cur := prevCursor[fa.ctx]
						if cur == nil || n == nil {
							continue
						}
						empty := true
						for i, p := range fa.phi {
							switch {
							case prevFront[p]:
								empty = empty && fa.init[i] == mkInt(0)
							case prevLists[p]:
								empty = empty && st.proveLe(mkLen(fa.init[i]), mkInt(0))
							}
						}
						sp, k := st.loopSpan(fa, cur)
						if k && empty && st.covered([]span{sp}, mkInt(0), n) && st.proveLe(sp.to, mkSub(n, mkInt(1))) && st.proveLe(n, hi) {
							ok = true
						}
					}
				}
				c.ob("list-put-back-behind-front", fnName(ins.Parent())+" at "+e.pos(insPos(ins)), ok)
				if !ok {
					bad(st, "copy", ins, "%s", why)
				}
				l.filled = mkAdd(lo, mkLen(src))
				l.copied = append(l.copied, src)
			}
			e.Hooks.Called = func(st *State, ci *CallInfo, res *Term) {
				if strings.HasPrefix(ci.Name, "sort.") && len(ci.Args) > 0 {
					x := unwrapIface(ci.Args[0])
					l := log(st)
					l.stable, l.sorted = x, ci.Name == "sort.Stable" && namedIs(ci.Args[0].args[0].typ, "types.DocsIndex")
				}
			}
			e.LockedFact = func(st *State, key string, lock *Term) {
				for _, b := range buffers {
					if key == b.lock {
						b.assume(st, lock)
					}
				}
			}
			e.Hooks.Unlock = func(st *State, key string, lock *Term, write, held bool, ins ssa.Instruction) {
				if key == buffers[0].lock && len(st.stack) == 1 {
					log(st).left = st.fillCount()
				}
			}
			inner := e.Hooks.Call
			isAdd := func(fn *ssa.Function) bool { return fn != nil && fnName(fn) == "(*core.Indexer).AddDocs" }
			isRm := func(fn *ssa.Function) bool { return fn != nil && fnName(fn) == "(*core.Indexer).RemoveDocToCache" }
			e.Hooks.Exit = func(st *State, fn *ssa.Function, args, res []*Term, ins ssa.Instruction) {
				if isRm(fn) && len(res) == 1 {
					log(st).flush = res[0]
				}
			}
			e.Hooks.Call = func(st *State, ci *CallInfo) (bool, *Term) {
				if !isAdd(ci.Fn) {
					return inner(st, ci)
				}
				l := log(st)
				dt := ptrElem(ci.Fn.Params[1].Type())
				batch := st.load(ci.Args[1], dt)
				msg := ""
				if unwrapIface(batch) != l.stable || !l.sorted {
					msg = "the batch is inserted without having been sorted stably by id just before: the last version of a document may come before an earlier one"
				}
				c.ob("batch-sorted-stably", fnName(ci.Instr.Parent())+" at "+e.pos(insPos(ci.Instr)), msg == "")
				if msg != "" {
					bad(st, "sort", ci.Instr, "%s", msg)
				}
				for f, v := range st.facts {
					if v && f.op == OpCall && f.aux == "@copyof" && f.args[0] == unwrapIface(batch) {
						batch = f.args[1]
						break
					}
				}
				root, lo, hi := st.window(batch)
				msg = ""
				switch {
				case prevLists[root] || prevLists[st.baseList(root)]:
					// the list itself
				case !isAddBuffer(root):
					msg = fmt.Sprintf("the batch is %v, not taken from the pending-add buffer", root)
				case !prevFront[lo] && lo != mkInt(0):
					msg = fmt.Sprintf("the batch starts at %v, not behind the documents kept", lo)
				case lo == mkInt(0) && len(prevFront) > 0 && !st.noneKept(prevFront) && (l.flush == nil || !st.holds(l.flush, true)):
					msg = "documents whose removal was not flushed yet are in the batch"
				case len(l.copied) == 0 && len(prevFront) > 0:
					msg = "the documents to insert were not put back behind the ones kept"
				}
				if msg == "" && isAddBuffer(root) {
					n := l.left
					if n == nil {
						n = st.fillCount()
					}
					if n == nil || !st.proveEqInt(n, lo) {
						msg = fmt.Sprintf("%v documents stay buffered although the batch starts at %v", n, lo)
					} else if !st.wasFill(hi) {
						msg = fmt.Sprintf("the batch ends at %v, not with the last buffered document", hi)
					}
				}
				c.ob("batch-is-the-rest", fnName(ci.Instr.Parent())+" at "+e.pos(insPos(ci.Instr)), msg == "")
				if msg != "" {
					bad(st, "batch", ci.Instr, "%s", msg)
				}
				return false, nil
			}
			var roots []*ssa.Function
			for _, fn := range exportedOps(c, "core", "Indexer") {
				switch fn.Name() {
				case "Init", "Lookup", "LogicLookup", "HasDoc":
					continue
				}
				roots = append(roots, fn)
			}
			c.runRoots(e, roots, func(st *State, fn *ssa.Function) { st.client = &batchLog{} })
			c.need("buffered-behind-the-others", 1)
			c.need("placed-once-in-order", 1)
			c.need("list-put-back-behind-front", 1)
			c.need("batch-sorted-stably", 1)
			c.need("batch-is-the-rest", 1)
			c.need("only-last-version-inserted", 1)
			byIDOrder(c, "DocsIndex")
			byIDOrder(c, "DocsId")
		}, "sort.Stable does what it documents", "the fill count is within the buffer (established by C11)", "one goroutine adds documents to a shard's index, as the engine does")
}

// isFill: t is the fill count of the pending-add buffer.
func (st *State) isFill(t *Term) bool {
	n := st.fillCount()
	return n != nil && st.proveEqInt(t, n)
}

// wasFill: t is a fill count of the pending-add buffer (now or before).
func (st *State) wasFill(t *Term) bool {
	if loadsField(t, fAddPtr) {
		return true
	}
	found := false
	visit(t, func(x *Term) { found = found || loadsField(x, fAddPtr) })
	return found
}

func (st *State) fillCount() *Term {
	ix := st.e.P.typeOf("core", "Indexer")
	recv := st.stack[0].args[0]
	ai := fieldIdx(ix, "addCacheLock")
	if ai < 0 || !namedIs(recv.typ, "core.Indexer") {
		return nil
	}
	at := ix.Underlying().(*types.Struct).Field(ai).Type()
	pi := fieldIdx(at, "addCachePointer")
	if pi < 0 {
		return nil
	}
	return st.load(mkFieldAddr(mkFieldAddr(recv, ix, ai), at, pi), tInt)
}

// baseList: the list a value is built from by appending.
func (st *State) baseList(t *Term) *Term {
	for t != nil && (t.op == OpAppend || t.op == OpConvert) {
		t = t.args[0]
	}
	return t
}

// noneKept: on this path no document is kept in the front part.
func (st *State) noneKept(front map[*Term]bool) bool {
	for f := range front {
		if st.proveLe(f, mkInt(0)) {
			return true
		}
	}
	return false
}

// insertedIn: the id of the document at index ix that was made live.
func (st *State) insertedIn(ix *Term) *Term {
	for f, v := range st.facts {
		if v && f.op == OpCall && f.aux == "@inserted" && f.args[1] == ix {
			return f.args[0]
		}
	}
	return nil
}

// byIDOrder proves that a sortable slice is ordered by document id and that
// Swap exchanges two elements.
func byIDOrder(c *Ctx, name string) {
	t, _ := c.P.typeOf("types", name).(*types.Named)
	if t == nil {
		c.violate("anchor:types."+name, "", "", "the type types."+name+" was not found", nil)
		return
	}
	elem := t.Underlying().(*types.Slice).Elem()
	id := func(st *State, docs, i *Term) *Term {
		v := st.load(mkIndexAddr(docs, i, elem), elem)
		if dt := ptrElem(elem); dt != nil {
			if fi := fieldIdx(dt, "DocId"); fi >= 0 {
				return st.load(mkFieldAddr(v, dt, fi), tString)
			}
			return nil
		}
		return v
	}
	if f := c.P.sliceMethod(t, "Less"); f != nil {
		e := NewEngine(c.P)
		e.Hooks.Return = func(st *State, fn *ssa.Function, res []*Term, ins ssa.Instruction) {
			a := st.stack[0].args
			x, y := id(st, a[0], a[1]), id(st, a[0], a[2])
			if st.truth(mkEq(a[1], a[2])) == 1 {
				y = x
			}
			ok := x != nil
			for _, ans := range []bool{true, false} {
				s := st.clone()
				if s.assume(res[0], ans) && (x == nil || !s.holds(mkLt(x, y), ans)) {
					ok = false
				}
			}
			c.ob("ordered-by-id", "types."+name, ok)
			if !ok {
				st.report("C10:less:"+name, ins, "Less answers %v, which is not whether the first id is smaller", res[0])
			}
		}
		c.runRoots(e, []*ssa.Function{f}, nil)
	}
	c.need("ordered-by-id", 1)
	if f := c.P.sliceMethod(t, "Swap"); f != nil {
		e := NewEngine(c.P)
		e.Hooks.Return = func(st *State, fn *ssa.Function, res []*Term, ins ssa.Instruction) {
			a := st.stack[0].args
			b := st.client.(*swapSt)
			i, j := st.load(mkIndexAddr(a[0], a[1], elem), elem), st.load(mkIndexAddr(a[0], a[2], elem), elem)
			ok := i == b.j && j == b.i
			c.ob("swap-exchanges", "types."+name, ok)
			if !ok {
				st.report("C10:swap:"+name, ins, "Swap does not exchange the two elements")
			}
		}
		c.runRoots(e, []*ssa.Function{f}, func(st *State, fn *ssa.Function) {
			a := st.stack[0].args
			st.addFact(mkEq(a[1], a[2]), false)
			st.client = &swapSt{st.load(mkIndexAddr(a[0], a[1], elem), elem), st.load(mkIndexAddr(a[0], a[2], elem), elem)}
		})
	}
	c.need("swap-exchanges", 1)
}
