package main

import (
	"fmt"
	"go/types"

	"golang.org/x/tools/go/ssa"
)

// buffer is one of the indexer's pending buffers and its fill count.
type buffer struct{ lock, ptr, buf string }

var buffers = []buffer{
	{"core.Indexer.addCacheLock", "addCachePointer", "addCache"},
	{"core.Indexer.removeCacheLock", "removeCachePointer", "removeCache"},
}

// loads gives the current fill count and buffer of the lock at address lk.
func (b buffer) loads(st *State, lk *Term) (n, buf *Term) {
	// the lock is the embedded mutex of the struct that holds the buffer
	s := lk
	for s.op == OpFieldAddr && s.aux != b.lock {
		s = s.args[0]
	}
	if s.op != OpFieldAddr {
		return nil, nil
	}
	t := s.typ.Underlying().(*types.Pointer).Elem()
	i, j := fieldIdx(t, b.ptr), fieldIdx(t, b.buf)
	if i < 0 || j < 0 {
		return nil, nil
	}
	us := t.Underlying().(*types.Struct)
	return st.load(mkFieldAddr(s, t, i), us.Field(i).Type()), st.load(mkFieldAddr(s, t, j), us.Field(j).Type())
}

func (b buffer) holds(st *State, lk *Term) bool {
	n, buf := b.loads(st, lk)
	return n != nil && st.proveLe(mkInt(0), n) && st.proveLe(n, mkLen(buf))
}

func (b buffer) assume(st *State, lk *Term) {
	if n, buf := b.loads(st, lk); n != nil {
		st.addFact(mkLt(n, mkInt(0)), false)
		st.addFact(mkLt(mkLen(buf), n), false)
	}
}

func init() {
	register("C11", "Interval analysis with lock invariants: 0 <= fill count <= len(buffer) is assumed for the pending-add and the pending-removal buffer when their lock is taken and must be proved (linear arithmetic) whenever it is released, at every loop boundary in between, and after Init; under it every index and slice of a buffer, of a batch, or of anything else in the buffering operations is proved in range, for every buffer size.",
		func(c *Ctx) {
			e := coreEngine(c)
			e.Opaque = newLookups(c).e.Opaque
			e.Hooks.Call = searchIndexModel
			e.LockedFact = func(st *State, key string, lock *Term) {
				for _, b := range buffers {
					if key == b.lock {
						b.assume(st, lock)
					}
				}
			}
			inv := func(st *State, b buffer, lock *Term, where string, ins ssa.Instruction) {
				ok := b.holds(st, lock)
				c.ob("fill-count-within-buffer", fmt.Sprintf("%s %s at %s", b.buf, where, e.pos(insPos(ins))), ok)
				if !ok {
					n, buf := b.loads(st, lock)
					st.report("C11:inv:"+b.buf+":"+fnName(ins.Parent()), ins, "%s: the fill count %v of %s is not established to be within its length %v", where, n, b.buf, mkLen(buf))
				}
			}
			e.Hooks.Unlock = func(st *State, key string, lock *Term, write, held bool, ins ssa.Instruction) {
				for _, b := range buffers {
					if key == b.lock && held {
						inv(st, b, lock, "at release", ins)
					}
				}
			}
			each := func(st *State, f func(b buffer, lock *Term)) {
				for _, h := range st.locks {
					for _, b := range buffers {
						if h.key == b.lock {
							f(b, h.lock)
						}
					}
				}
			}
			e.Hooks.LoopPre = func(st *State, fr *Frame, h *ssa.BasicBlock, phis, vals []*Term) {
				at := fr.prev.Instrs[len(fr.prev.Instrs)-1]
				each(st, func(b buffer, lock *Term) { inv(st, b, lock, "before the loop", at) })
			}
			e.Hooks.LoopEnter = func(st *State, fr *Frame, h *ssa.BasicBlock) {
				each(st, func(b buffer, lock *Term) { b.assume(st, lock) })
			}
			e.Hooks.Backedge = func(st *State, fr *Frame, h *ssa.BasicBlock, phis, vals []*Term) {
				at := fr.prev.Instrs[len(fr.prev.Instrs)-1]
				each(st, func(b buffer, lock *Term) { inv(st, b, lock, "after the iteration", at) })
			}
			ours := func(st *State, base *Term) bool {
				switch guardedRoot(st, base, 0) {
				case buffers[0].lock, buffers[1].lock:
					return true
				case lockTable:
					return false // posting lists: C08, C39
				}
				if base.op == OpAlloc {
					return false
				}
				s, ok := base.typ.Underlying().(*types.Slice)
				return ok && (isStringType(s.Elem()) || namedIs(s.Elem(), "types.DocIndex"))
			}
			e.Hooks.Index = func(st *State, base, idx *Term, ins ssa.Instruction) {
				if !ours(st, base) {
					return
				}
				ok := st.proveLe(mkInt(0), idx) && st.proveLt(idx, mkLen(base))
				c.ob("index-in-range", fmt.Sprintf("%s at %s: %v", fnName(ins.Parent()), e.pos(insPos(ins)), idx), ok)
				if !ok {
					st.report("C11:range:"+fnName(ins.Parent()), ins, "index %v of %v may be out of range", idx, base)
				}
			}
			e.Hooks.Slice = func(st *State, base, lo, hi *Term, ins ssa.Instruction) {
				if !ours(st, base) {
					return
				}
				ok := st.proveLe(mkInt(0), lo) && st.proveLe(lo, hi) && st.proveLe(hi, mkLen(base))
				if !ok && st.proveLe(mkInt(0), lo) && st.proveLe(lo, hi) && st.proveLe(hi, mk(OpCap, tInt, "", base)) {
					ok = true
				}
				c.ob("slice-in-range", fmt.Sprintf("%s at %s: [%v:%v]", fnName(ins.Parent()), e.pos(insPos(ins)), lo, hi), ok)
				if !ok {
					st.report("C11:slice:"+fnName(ins.Parent()), ins, "slice bounds [%v:%v] of %v may be out of range", lo, hi, base)
				}
			}
			var roots []*ssa.Function
			for _, fn := range exportedOps(c, "core", "Indexer") {
				switch fn.Name() {
				case "Init", "Lookup", "LogicLookup", "HasDoc":
					continue
				}
				roots = append(roots, fn)
			}
			c.runRoots(e, roots, nil)
			// Init leaves the buffers empty
			if fn := c.mustFn("(*core.Indexer).Init"); fn != nil {
				e2 := coreEngine(c)
				e2.Hooks.Return = func(st *State, fn *ssa.Function, res []*Term, ins ssa.Instruction) {
					ix := c.P.typeOf("core", "Indexer")
					for _, b := range buffers {
						fi := fieldIdx(ix, b.lock[len("core.Indexer."):])
						if fi < 0 {
							continue
						}
						n, buf := b.loads(st, mkFieldAddr(st.stack[0].args[0], ix, fi))
						ok := n != nil && (n == mkInt(0) || n.op == OpLoad || st.proveLe(n, mkLen(buf)))
						c.ob("init-empty", b.buf, ok)
						if !ok {
							st.report("C11:init:"+b.buf, ins, "Init leaves %s with fill count %v", b.buf, n)
						}
					}
				}
				c.runRoots(e2, []*ssa.Function{fn}, nil)
			}
			c.need("fill-count-within-buffer", 2)
			c.need("index-in-range", 1)
			c.need("slice-in-range", 1)
		}, "the fill counts start at the zero value (a new Indexer)")
}
