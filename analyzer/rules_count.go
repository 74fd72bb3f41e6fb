package main

import (
	"fmt"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// twin runs of the same function with a boolean parameter false (§0) and
// true (§1); terms of the second are mapped onto those of the first.
type canonizer struct{ memo map[*Term]*Term }

func (c *canonizer) term(t *Term) *Term {
	if t == nil {
		return nil
	}
	if r, ok := c.memo[t]; ok {
		return r
	}
	args := make([]*Term, len(t.args))
	ch := false
	for i, a := range t.args {
		args[i] = c.term(a)
		ch = ch || args[i] != a
	}
	r := t
	aux := strings.ReplaceAll(t.aux, "§1", "§0")
	if ch || aux != t.aux {
		switch t.op {
		case OpEq:
			r = mkEq(args[0], args[1])
		default:
			r = mk(t.op, t.typ, aux, args...)
			if r.obj == nil {
				r.obj = t.obj
			}
		}
	}
	c.memo[t] = r
	return r
}

type countPath struct {
	facts map[*Term]bool
	delta map[*Term]*Term // int phi -> change over the iteration
	pos   string
	fn    string
	trace []string
	res   *Term
}

func compatible(a, b *countPath) bool {
	x, y := a.facts, b.facts
	if len(x) > len(y) {
		x, y = y, x
	}
	for t, v := range x {
		if w, ok := y[t]; ok && w != v {
			return false
		}
	}
	return true
}

// countTwin decides, for one root, that the count equals the number of
// elements collected, and is the same in count-only mode.
func countTwin(c *Ctx, e *Engine, root *ssa.Function, setup func(mode int) (*State, *Term), name string) {
	var loops [2]map[string][]*countPath
	var rets [2][]*countPath
	cz := &canonizer{memo: map[*Term]*Term{}}
	modes := map[*Term]int{}
	flags := map[*Term]bool{}
	mode := func(st *State) int { return modes[st.stack[0].args[0]] }
	snap := func(st *State, ins ssa.Instruction) *countPath {
		p := &countPath{facts: map[*Term]bool{}, delta: map[*Term]*Term{}, pos: st.e.pos(insPos(ins)), trace: nil}
		for t, v := range st.facts {
			if !flags[t] && !strings.HasPrefix(t.aux, "@") { // the mode itself, and a rule's own marks
				p.facts[cz.term(t)] = v
			}
		}
		return p
	}
	prevBack := e.Hooks.Backedge
	e.Hooks.Backedge = func(st *State, fr *Frame, h *ssa.BasicBlock, phis, vals []*Term) {
		if prevBack != nil {
			prevBack(st, fr, h, phis, vals)
		}
		ints := false
		for _, p := range phis {
			ints = ints || isIntType(p.typ)
		}
		if !ints {
			return
		}
		var at ssa.Instruction
		if len(fr.prev.Instrs) > 0 {
			at = fr.prev.Instrs[len(fr.prev.Instrs)-1]
		}
		p := snap(st, at)
		p.fn = fnName(fr.fn)
		for i, ph := range phis {
			if isIntType(ph.typ) {
				p.delta[cz.term(ph)] = mkSub(cz.term(vals[i]), cz.term(ph))
			}
		}
		p.trace = st.tracePath()
		k := strings.ReplaceAll(e.loopKey(fr, h), "§1", "§0")
		loops[mode(st)][k] = append(loops[mode(st)][k], p)
	}
	e.Hooks.Return = func(st *State, fn *ssa.Function, res []*Term, ins ssa.Instruction) {
		m := mode(st)
		docs, n := res[0], res[1]
		for docs.op == OpMakeIface || docs.op == OpConvert {
			docs = docs.args[0]
		}
		all := docs
		for all.op == OpSlice && all.args[0].op != OpAlloc {
			all = all.args[0]
		}
		site := fmt.Sprintf("%s %s return at %s, count-only=%v", fnName(fn), name, e.pos(insPos(ins)), m == 1)
		if m == 0 {
			ok := st.proveEqInt(mkLen(all), n)
			c.ob("count-equals-hits", site, ok)
			if !ok {
				st.report("C05:equal:"+fnName(fn)+":"+name, ins, "the count returned by %s is not established to be the number of documents collected", fn.Name())
			}
		} else {
			ok := st.proveLe(mkLen(docs), mkInt(0))
			c.ob("count-only-returns-none", site, ok)
			if !ok {
				st.report("C05:none:"+fnName(fn)+":"+name, ins, "%s may return documents in count-only mode", fn.Name())
			}
		}
		p := snap(st, ins)
		p.res = cz.term(n)
		p.fn = fnName(fn)
		p.trace = st.tracePath()
		rets[m] = append(rets[m], p)
	}
	start := e.PassStart
	e.PassStart = func() {
		loops = [2]map[string][]*countPath{{}, {}}
		rets = [2][]*countPath{}
		if start != nil {
			start()
		}
	}
	c.run(e, func() []*State {
		var sts []*State
		for m := 0; m < 2; m++ {
			st, b := setup(m)
			modes[st.stack[0].args[0]] = m
			st.assume(b, m == 1)
			flags[b] = true
			sts = append(sts, st)
		}
		return sts
	})
	e.PassStart = start
	// the same iterations count in both modes
	for _, k := range sortedKeys(loops[0]) {
		for ph := range loops[0][k][0].delta {
			site := name + " " + loops[0][k][0].fn + ": " + ph.String()
			bad := false
			for _, a := range loops[0][k] {
				for _, b := range loops[1][k] {
					if a.delta[ph] != b.delta[ph] && compatible(a, b) {
						bad = true
						c.violate("C05:mode:"+fnName(root)+":"+name, a.pos, a.fn,
							fmt.Sprintf("an iteration counts differently in count-only mode: %v changes by %v when documents are returned and by %v in count-only mode (other path ends at %s)", ph, a.delta[ph], b.delta[ph], b.pos),
							append(append([]string{"-- returning:"}, a.trace...), append([]string{"-- count-only:"}, b.trace...)...))
						break
					}
				}
				if bad {
					break
				}
			}
			c.ob("same-count-per-iteration", site, !bad)
		}
		if len(loops[1][k]) == 0 {
			c.note("loop %s is not reached in count-only mode", k)
		}
	}
	for _, a := range rets[0] {
		for _, b := range rets[1] {
			if compatible(a, b) {
				ok := a.res == b.res
				c.ob("same-count-returned", name+" "+a.fn+" "+a.pos+" / "+b.pos, ok)
				if !ok {
					c.violate("C05:ret:"+fnName(root)+":"+name, a.pos, a.fn, fmt.Sprintf("the count returned differs in count-only mode: %v and %v", a.res, b.res),
						append(append([]string{"-- returning:"}, a.trace...), append([]string{"-- count-only:"}, b.trace...)...))
				}
			}
		}
	}
}

func init() {
	register("C05", "Relational path analysis: every lookup form and the ranking step are explored with countDocsOnly false and true. False: the returned count is proved (linear arithmetic with inductive loop invariants) equal to the number of collected documents. True: nothing is returned. Every pair of iterations (and of returns) of the two modes whose path conditions are compatible must change the count equally.",
		func(c *Ctx) {
			lk, lg := lookupRoots(c)
			var scs []*scenario
			if lk != nil {
				scs = append(scs, &scenario{root: lk, count: -1})
			}
			if lg != nil {
				for _, cl := range [][3]clause{{clFlag, clFlag, clFlag}, {clExpr, clOff, clOff}, {clOff, clFlag, clOff}, {clOff, clExpr, clExpr}, {clOff, clOff, clFlag}} {
					scs = append(scs, &scenario{root: lg, logic: true, must: cl[0], should: cl[1], not_: cl[2], count: -1})
				}
			}
			for _, sc := range scs {
				l := newLookups(c)
				sc := sc
				countTwin(c, l.e, sc.root, func(m int) (*State, *Term) {
					s2 := *sc
					st := l.start(&s2, sc.tag()+"§"+itoa(m))
					return st, s2.countOnly
				}, sc.tag())
			}
			if rk := c.mustFn("(*core.Ranker).Rank"); rk != nil {
				for _, idOnly := range []bool{true, false} {
					e := NewEngine(c.P)
					e.Guard = coreGuard
					e.Stable = stableOptions
					countTwin(c, e, rk, func(m int) (*State, *Term) {
						args := make([]*Term, len(rk.Params))
						args[0] = mk(OpParam, rk.Params[0].Type(), "ranker§"+itoa(m))
						st := e.newState(rk, args)
						st.top().ctx += "§" + itoa(m)
						var b *Term
						for i, p := range rk.Params {
							if bt, ok := p.Type().Underlying().(*types.Basic); ok && bt.Kind() == types.Bool {
								b = st.stack[0].args[i]
							}
						}
						rt := c.P.typeOf("core", "Ranker")
						if i := fieldIdx(rt, "idOnly"); i >= 0 {
							st.assume(st.load(mkFieldAddr(args[0], rt, i), tBool), idOnly)
						}
						return st, b
					}, fmt.Sprintf("idOnly=%v", idOnly))
				}
			}
			c.need("count-equals-hits", 3)
			c.need("count-only-returns-none", 3)
			c.need("same-count-per-iteration", 2)
		})
}

// stableOptions: fields set once by Init and constant afterwards.
func stableOptions(loc *Term) bool {
	if loc.op != OpFieldAddr {
		return false
	}
	switch loc.aux {
	case "core.Indexer.initialized", "core.Ranker.initialized", "core.Ranker.idOnly":
		return true
	}
	return strings.HasPrefix(loc.aux, "types.IndexerOpts.") || strings.HasPrefix(loc.aux, "core.Indexer.initOptions")
}
