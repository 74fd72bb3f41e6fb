package main

import (
	"fmt"
	"os"

	"golang.org/x/tools/go/ssa"
)

func lookupRoots(c *Ctx) (lookup, logic *ssa.Function) {
	return c.mustFn("(*core.Indexer).Lookup"), c.mustFn("(*core.Indexer).LogicLookup")
}

// lookupScenarios enumerates the query forms.
func lookupScenarios(c *Ctx, count int, ids bool, full bool) []*scenario {
	lk, lg := lookupRoots(c)
	if o := os.Getenv("ONE"); o != "" {
		if o[0] == 'L' {
			lg = lk
			o = o[1:]
		}
		return []*scenario{{root: lg, logic: true, must: clause(o[0] - '0'), should: clause(o[1] - '0'), not_: clause(o[2] - '0'), count: count, idsGiven: ids}}
	}
	var out []*scenario
	add := func(sc scenario) {
		sc.count, sc.idsGiven = count, ids
		out = append(out, &sc)
	}
	if lk != nil {
		add(scenario{root: lk})
	}
	cls := []clause{clOff, clFlag, clExpr}
	if full {
		cls = append(cls, clBoth)
	}
	for _, root := range []*ssa.Function{lg, lk} {
		if root == nil {
			continue
		}
		for _, m := range cls {
			for _, s := range cls {
				for _, n := range cls {
					if m == clOff && s == clOff && n == clOff {
						continue
					}
					add(scenario{root: root, logic: true, must: m, should: s, not_: n})
				}
			}
		}
	}
	return out
}

func (sc *scenario) tag() string {
	if !sc.logic {
		return "plain"
	}
	return fmt.Sprintf("m%ds%dn%d", sc.must, sc.should, sc.not_)
}

// runLookups explores all scenarios and calls check for every return.
func runLookups(c *Ctx, scs []*scenario, check func(l *lookups, st *State, sc *scenario, fn *ssa.Function, res []*Term, ins ssa.Instruction)) *lookups {
	return runLookupsWith(newLookups(c), scs, check)
}

func runLookupsWith(l *lookups, scs []*scenario, check func(l *lookups, st *State, sc *scenario, fn *ssa.Function, res []*Term, ins ssa.Instruction)) *lookups {
	c := l.c
	l.e.Hooks.Return = func(st *State, fn *ssa.Function, res []*Term, ins ssa.Instruction) {
		sc := l.scenOf(st)
		if sc == nil || len(res) != 2 {
			return
		}
		check(l, st, sc, fn, res, ins)
	}
	c.run(l.e, func() []*State {
		l.scen = map[*Term]*scenario{}
		var sts []*State
		for _, sc := range scs {
			sts = append(sts, l.start(sc, sc.tag()))
		}
		return sts
	})
	return l
}

func needMark(kind, what string, names func(sc *scenario) []string) func(l *lookups, st *State, sc *scenario, fn *ssa.Function, res []*Term, ins ssa.Instruction) {
	return func(l *lookups, st *State, sc *scenario, fn *ssa.Function, res []*Term, ins ssa.Instruction) {
		have, top := l.docFacts(res[0])
		if top {
			return
		}
		for _, n := range names(sc) {
			site := fmt.Sprintf("%s %s: every document returned at %s: %s", fnName(fn), sc.tag(), st.e.pos(insPos(ins)), n)
			l.c.ob(kind, site, have[n])
			if !have[n] {
				if dbg {
					fmt.Println(sc.tag(), n, res[0])
					f, _ := l.e.elemFacts(res[0], map[*Term]bool{})
					dumpFacts(f)
				}
				st.report(fmt.Sprintf("%s:%s:%s:%s", l.c.ID, n, fnName(fn), sc.name()), ins,
					"a document returned by %s (query form %s) is not established to be %s", fn.Name(), sc.name(), map[string]string{
						"live":   "live (in docsState with state 0, checked in the critical section that builds the answer)",
						"ids":    "a key of the given docIds",
						"all":    "in the posting list of every token and label",
						"must":   "in the posting list of every must keyword",
						"should": "in the posting list of some should keyword",
						"notin":  "absent from the posting list of every not-in keyword",
					}[n])
			}
		}
	}
}

func init() {
	register("C01", "Path-sensitive symbolic dataflow over the SSA of the lookup operations, with helpers inlined, for every query form: every element of the returned slice must carry the established facts docsState[id] present and equal to 0, of the docsState version current under the held table lock when the element is put in the answer.",
		func(c *Ctx) {
			runLookups(c, lookupScenarios(c, 0, false, false), needMark("live-at-return", "", func(sc *scenario) []string { return []string{"live"} }))
			c.need("live-at-return", 6)
		}, "docsState holds only 0, 1 or 2 (established by C09)", "every indexer lock class stands for the lock of one indexer")
	register("C02", "The same exploration with a non-nil docIds: every element of the returned slice must carry the fact that docIds has it as a key; the boolean values of docIds must not be branched on.",
		func(c *Ctx) {
			check := needMark("restricted-at-return", "", func(sc *scenario) []string { return []string{"ids"} })
			l := newLookups(c)
			prev := l.e.Hooks.Branch
			l.e.Hooks.Branch = func(st *State, cond *Term, v bool, ins ssa.Instruction) {
				prev(st, cond, v, ins)
				sc := l.scenOf(st)
				if sc == nil || sc.docIds == nil {
					return
				}
				visit(cond, func(t *Term) {
					if t.op == OpMapVal && t.args[0] == sc.docIds {
						st.report("C02:value:"+fnName(ins.Parent()), ins, "the search branches on the boolean value stored in docIds; only the presence of a key may matter")
					}
				})
			}
			runLookupsWith(l, lookupScenarios(c, 0, true, false), check)
			c.need("restricted-at-return", 6)
		})
	register("C04", "The same exploration for every combination of inactive/flagged/own-keyword must, should and not-in clauses: every returned element must be found in the posting lists of all keywords of the must list (which list: decided per combination), in one of the should list, and searched for over the full range without success in all of the not-in list; universally quantified loop facts are generalised from the loop's back edges.",
		func(c *Ctx) {
			var scs []*scenario
			for _, sc := range lookupScenarios(c, 0, false, true) {
				if sc.logic && (sc.must != clOff || sc.should != clOff) {
					scs = append(scs, sc)
				}
			}
			runLookups(c, scs, needMark("clause-at-return", "", func(sc *scenario) []string { return []string{"must", "should", "notin"} }))
			c.need("clause-at-return", 13)
		})
}
