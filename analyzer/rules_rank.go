package main

import (
	"fmt"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// unwrapIface strips interface and named-type conversions.
func unwrapIface(t *Term) *Term {
	for t != nil && (t.op == OpMakeIface || t.op == OpConvert) {
		t = t.args[0]
	}
	return t
}

// window splits a value into the slice it is cut from and the cut [lo, hi).
func (st *State) window(t *Term) (root, lo, hi *Term) {
	t = unwrapIface(t)
	if t.op == OpAppendAll && len(t.args) == 2 && st.proveLe(mkLen(t.args[0]), mkInt(0)) {
		return st.window(t.args[1]) // a copy
	}
	if t.op == OpSlice && t.args[0].op != OpAlloc {
		r, l, h := st.window(t.args[0])
		_ = h
		return r, mkAdd(l, t.args[1]), mkAdd(l, t.args[2])
	}
	return t, mkInt(0), mkLen(t)
}

// windowCases proves that [lo, hi) is the window of n results that offset and
// max ask for, case by case.
func windowCases(st *State, n, lo, hi, off, max *Term) (string, bool) {
	zero := mkInt(0)
	type cs struct {
		name  string
		conds []*Term
		vals  []bool
		lo    *Term
	}
	offs := []cs{
		{"offset<=0", []*Term{mkLt(zero, off)}, []bool{false}, zero},
		{"0<offset<=n", []*Term{mkLt(zero, off), mkLt(n, off)}, []bool{true, false}, off},
		{"offset>n", []*Term{mkLt(zero, off), mkLt(n, off)}, []bool{true, true}, n},
	}
	for _, o := range offs {
		maxs := []cs{
			{"max<=0", []*Term{mkLt(zero, max)}, []bool{false}, n},
			{"0<max<=rest", []*Term{mkLt(zero, max), mkLt(mkSub(n, o.lo), max)}, []bool{true, false}, mkAdd(o.lo, max)},
			{"max>rest", []*Term{mkLt(zero, max), mkLt(mkSub(n, o.lo), max)}, []bool{true, true}, n},
		}
		for _, m := range maxs {
			s := st.clone()
			ok := true
			for i, c := range append(append([]*Term(nil), o.conds...), m.conds...) {
				v := append(append([]bool(nil), o.vals...), m.vals...)[i]
				if ok && !s.assume(c, v) {
					ok = false
				}
			}
			if !ok {
				continue // this case does not arise on this path
			}
			if s.proveLe(mkInt(1), mkInt(0)) {
				continue // contradictory
			}
			if !s.proveEqInt(lo, o.lo) || !s.proveEqInt(hi, m.lo) {
				return o.name + ", " + m.name, false
			}
		}
	}
	return "", true
}

// userInts: sums of values that depend on the caller's offset and max are
// computed as machine integers.
func wrapsUserInts(st *State, a, b, r *Term) bool {
	user := false
	for _, t := range []*Term{a, b} {
		visit(t, func(x *Term) {
			switch x.aux {
			case "types.RankOpts.OutputOffset", "types.RankOpts.MaxOutputs":
				user = true
			}
			if x.op == OpArith && strings.HasPrefix(x.aux, "wrapped") {
				user = true
			}
		})
	}
	return user
}

// rankOptsField gives a field of a RankOpts value or variable.
func rankOptsField(st *State, v *Term, typ types.Type, name string) *Term {
	if p, ok := typ.Underlying().(*types.Pointer); ok {
		el := p.Elem()
		i := fieldIdx(el, name)
		if i < 0 {
			return nil
		}
		return st.load(mkFieldAddr(v, el, i), el.Underlying().(*types.Struct).Field(i).Type())
	}
	i := fieldIdx(typ, name)
	if i < 0 {
		return nil
	}
	return mkField(v, typ, i)
}

func paramOf(fn *ssa.Function, name string) int {
	for i, p := range fn.Params {
		if namedIs(p.Type(), name) {
			return i
		}
	}
	return -1
}

func boolParam(fn *ssa.Function) int {
	for i, p := range fn.Params {
		if b, ok := p.Type().Underlying().(*types.Basic); ok && b.Kind() == types.Bool {
			return i
		}
	}
	return -1
}

func init() {
	register("C12", "Exact-window analysis: for the per-shard ranking step and for both merge functions every returned path is split into the nine cases of offset (<=0, within, beyond) and max (<=0, within the rest, beyond); in each feasible case the bounds of the returned slice are proved equal (linear arithmetic over unbounded hit counts) to the window asked for, and every slice expression on the way is proved in range. Sums of user-supplied values are computed as machine integers: the overflow case is a path of its own. The request forwarded to a shard is proved to start at 0 and to ask for at least offset+max hits, or all.",
		func(c *Ctx) {
			check := func(st *State, fn *ssa.Function, docs, off, max *Term, ins ssa.Instruction) {
				root, lo, hi := st.window(docs)
				n := mkLen(root)
				cas, ok := windowCases(st, n, lo, hi, off, max)
				c.ob("exact-window", fmt.Sprintf("%s at %s: [%v:%v]", fnName(fn), c.P.pos(insPos(ins)), lo, hi), ok)
				if !ok {
					st.report("C12:window:"+fnName(fn), ins, "case %s: the window returned is [%v:%v] of the %v hits, not the one asked for", cas, lo, hi, n)
				}
			}
			slices := func(e *Engine) {
				e.Wraps = wrapsUserInts
				e.Hooks.Slice = func(st *State, base, lo, hi *Term, ins ssa.Instruction) {
					if !isHits(base.typ) {
						return
					}
					ok := st.proveLe(mkInt(0), lo) && st.proveLe(lo, hi) && (st.proveLe(hi, mkLen(base)) || st.proveLe(hi, mk(OpCap, tInt, "", base)))
					c.ob("slice-in-range", fmt.Sprintf("%s at %s: [%v:%v]", fnName(ins.Parent()), e.pos(insPos(ins)), lo, hi), ok)
					if !ok {
						st.report("C12:range:"+fnName(ins.Parent()), ins, "slice bounds [%v:%v] of %v may be out of range", lo, hi, base)
					}
				}
			}
			// per shard
			for _, name := range []string{"Rank", "RankDocs", "RankDocID"} {
				rk := c.P.fn("(*core.Ranker)." + name)
				if rk == nil {
					if name == "Rank" {
						c.mustFn("(*core.Ranker).Rank")
					}
					continue
				}
				oi, bi := paramOf(rk, "types.RankOpts"), boolParam(rk)
				if oi < 0 || bi < 0 {
					c.violateFn("C12:signature:"+name, rk, "the ranking step no longer takes ranking options and the count-only flag")
					continue
				}
				e := NewEngine(c.P)
				e.Guard = coreGuard
				e.Stable = stableOptions
				slices(e)
				e.Hooks.Return = func(st *State, fn *ssa.Function, res []*Term, ins ssa.Instruction) {
					if st.holds(st.stack[0].args[bi], true) || len(res) == 0 {
						return
					}
					o, ot := st.stack[0].args[oi], rk.Params[oi].Type()
					check(st, fn, res[0], rankOptsField(st, o, ot, "OutputOffset"), rankOptsField(st, o, ot, "MaxOutputs"), ins)
				}
				c.runRoots(e, []*ssa.Function{rk}, nil)
			}
			// merged
			n := 0
			for _, fn := range c.P.methodsOf("riot", "Engine") {
				oi, qi := paramOf(fn, "types.RankOpts"), paramOf(fn, "types.SearchReq")
				if oi < 0 || qi < 0 || fn.Signature.Results().Len() != 1 || !namedIs(fn.Signature.Results().At(0).Type(), "types.SearchResp") {
					continue
				}
				n++
				e := NewEngine(c.P)
				slices(e)
				e.Hooks.Return = func(st *State, f *ssa.Function, res []*Term, ins ssa.Instruction) {
					q, qt := st.stack[0].args[qi], fn.Params[qi].Type()
					if st.holds(rankOptsField(st, q, qt, "CountDocsOnly"), true) || st.holds(rankOptsField(st, q, qt, "Orderless"), true) {
						return
					}
					rt := fn.Signature.Results().At(0).Type()
					di := fieldIdx(rt, "Docs")
					if di < 0 {
						return
					}
					o, ot := st.stack[0].args[oi], fn.Params[oi].Type()
					check(st, f, mkField(res[0], rt, di), rankOptsField(st, o, ot, "OutputOffset"), rankOptsField(st, o, ot, "MaxOutputs"), ins)
				}
				c.runRoots(e, []*ssa.Function{fn}, nil)
			}
			if n < 2 {
				c.violate("C12:merge", "", "", "the functions that merge the shards' results (SearchReq, RankOpts -> SearchResp) were not found", nil)
			}
			// forwarded request
			calls := 0
			isRank := func(f *ssa.Function) bool { return fnName(f) == "(*core.Ranker).Rank" }
			for _, fn := range c.goRoots("riot") {
				if !reaches(fn, isRank) {
					continue
				}
				e := NewEngine(c.P)
				slices(e)
				e.Hooks.Call = func(st *State, ci *CallInfo) (bool, *Term) {
					if ci.Fn == nil || !isRank(ci.Fn) {
						return false, nil
					}
					var recv *Term
					var ot types.Type
					var opts *Term
					for i, p := range ci.Fn.Params {
						if namedIs(p.Type(), "types.RankOpts") {
							opts, ot = ci.Args[i], p.Type()
						}
					}
					if opts == nil {
						return false, nil
					}
					off, max := rankOptsField(st, opts, ot, "OutputOffset"), rankOptsField(st, opts, ot, "MaxOutputs")
					recv = st.client.(*recvLog).last
					if recv == nil {
						st.report("C12:forward:"+fnName(fn), ci.Instr, "the ranking request does not come from the shard's queue")
						return false, nil
					}
					oi := fieldIdx(recv.typ, "options")
					if oi < 0 {
						st.report("C12:forward:"+fnName(fn), ci.Instr, "the ranking request carries no options")
						return false, nil
					}
					o0 := mkField(recv, recv.typ, oi)
					o0t := recv.typ.Underlying().(*types.Struct).Field(oi).Type()
					off0, max0 := rankOptsField(st, o0, o0t, "OutputOffset"), rankOptsField(st, o0, o0t, "MaxOutputs")
					calls++
					bad := ""
					if !st.proveLe(off, mkInt(0)) {
						bad = fmt.Sprintf("the shard is asked to start at %v instead of 0", off)
					}
					for _, k := range []struct {
						o, m bool
						name string
						want *Term
					}{{false, false, "offset<=0, max<=0", nil}, {true, false, "offset>0, max<=0", nil}, {false, true, "offset<=0, max>0", max0}, {true, true, "offset>0, max>0", mkAdd(off0, max0)}} {
						s := st.clone()
						if !s.assume(mkLt(mkInt(0), off0), k.o) || !s.assume(mkLt(mkInt(0), max0), k.m) {
							continue
						}
						if s.proveLe(max, mkInt(0)) || k.want != nil && s.proveLe(k.want, max) {
							continue
						}
						bad = fmt.Sprintf("case %s: the shard is asked for %v hits, too few for the window after merging", k.name, max)
					}
					c.ob("shard-asked-for-enough", fnName(fn)+" at "+e.pos(insPos(ci.Instr)), bad == "")
					if bad != "" {
						st.report("C12:forward:"+fnName(fn), ci.Instr, "%s", bad)
					}
					return false, nil
				}
				e.Opaque = isRank
				e.Hooks.Recv = func(st *State, ch, v *Term, ins ssa.Instruction) {
					if fieldIdx(v.typ, "options") >= 0 {
						st.client = &recvLog{last: v}
					}
				}
				c.runRoots(e, []*ssa.Function{fn}, func(st *State, f *ssa.Function) { st.client = &recvLog{} })
			}
			if calls == 0 {
				c.violate("C12:forward", "", "", "no worker that asks a shard to rank was found", nil)
			}
			c.need("exact-window", 1)
			c.need("slice-in-range", 1)
			c.need("shard-asked-for-enough", 1)
		}, "hit counts fit in an int")
}

// recvLog remembers the last request received.
type recvLog struct{ last *Term }

func (r *recvLog) Key() string {
	if r.last == nil {
		return ""
	}
	return itoa(r.last.id)
}
func (r *recvLog) Clone() Client { n := *r; return &n }

// isHits: a slice of results.
func isHits(t types.Type) bool {
	if t == nil {
		return false
	}
	s, ok := t.Underlying().(*types.Slice)
	return ok && (namedIs(s.Elem(), "types.ScoredDoc") || namedIs(s.Elem(), "types.ScoredID"))
}
