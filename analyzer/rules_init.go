package main

import (
	"fmt"
	"go/constant"
	"go/types"

	"golang.org/x/tools/go/ssa"
)

// initGuards: the component types, the operations that must refuse to work
// before initialisation, and the ones that must not be used after it.
var initGuards = []struct {
	rel, typ string
	ops      []string
	once     []string
}{
	{"core", "Indexer", []string{"AddDocToCache", "AddDocs", "RemoveDocToCache", "RemoveDocs", "Lookup"}, []string{"Init"}},
	{"core", "Ranker", []string{"AddDoc", "RemoveDoc", "Rank"}, []string{"Init"}},
	{"riot", "Engine", []string{"Index", "IndexDoc", "RemoveDoc", "Search", "SearchDoc", "SearchID", "Flush", "FlushIndex", "Close"}, []string{"Init", "WithGse"}},
}

func init() {
	register("C15", "Guard-dominance analysis by scenario: every operation that feeds or queries the index, the ranker or the engine is explored with the component assumed not initialised; on every path the program is proved to stop with a message (log.Fatal or panic) before anything is written, locked, sent, received or started and before the operation returns. Init (and choosing a segmenter) is explored likewise with the component assumed initialised. Init is proved to leave the component marked as initialised on every path, and no code anywhere unmarks it.",
		func(c *Ctx) {
			for _, g := range initGuards {
				t := c.P.typeOf(g.rel, g.typ)
				fi := -1
				if t != nil {
					fi = fieldIdx(t, "initialized")
				}
				if fi < 0 {
					c.violate("anchor:"+g.rel+"."+g.typ+".initialized", "", "", "the mark of initialisation of "+g.rel+"."+g.typ+" was not found", nil)
					continue
				}
				full := "(*" + g.rel + "." + g.typ + ")."
				check := func(fn *ssa.Function, val bool, what string) {
					e := NewEngine(c.P)
					e.Guard = coreGuard
					name := fnName(fn)
					stopped, done := 0, false
					bad := func(st *State, key string, ins ssa.Instruction, f string, a ...any) {
						done = true
						st.report("C15:"+key+":"+name, ins, f, a...)
						st.stop = true
					}
					effect := func(st *State, what2 string, ins ssa.Instruction) {
						bad(st, "effect", ins, "%s: %s before the program is stopped", what, what2)
					}
					e.Hooks.Fatal = func(st *State, how string, ins ssa.Instruction) {
						stopped++
						silent := how == "os.Exit" || how == "syscall.Exit" || how == "runtime.Goexit"
						c.ob("refused-with-message", fmt.Sprintf("%s (%s) at %s by %s", name, what, e.pos(insPos(ins)), how), !silent)
						if silent {
							bad(st, "silent", ins, "%s: the program is stopped without a message", what)
						}
					}
					e.Hooks.Return = func(st *State, f *ssa.Function, res []*Term, ins ssa.Instruction) {
						c.ob("refused-with-message", name+" ("+what+") at "+e.pos(insPos(ins)), false)
						bad(st, "served", ins, "%s: the operation is carried out instead of being refused", what)
					}
					e.Hooks.Store = func(st *State, loc, v *Term, ins ssa.Instruction) {
						if !isLocalRoot(rootOf(loc)) {
							effect(st, fmt.Sprintf("%v is written", loc), ins)
						}
					}
					e.Hooks.MapWrite = func(st *State, m, k, v *Term, ins ssa.Instruction) {
						if m.op != OpMake {
							effect(st, fmt.Sprintf("%v is written", m), ins)
						}
					}
					e.Hooks.MapDelete = func(st *State, m, k *Term, ins ssa.Instruction) { effect(st, fmt.Sprintf("%v is changed", m), ins) }
					e.Hooks.Lock = func(st *State, key string, lock *Term, write bool, ins ssa.Instruction) {
						effect(st, "the lock "+key+" is taken", ins)
					}
					e.Hooks.Send = func(st *State, ch, v *Term, ins ssa.Instruction) {
						effect(st, fmt.Sprintf("something is sent on %v", ch), ins)
					}
					e.Hooks.Recv = func(st *State, ch, v *Term, ins ssa.Instruction) {
						effect(st, fmt.Sprintf("%v is received from", ch), ins)
					}
					e.Hooks.Go = func(st *State, ci *CallInfo) { effect(st, "a goroutine is started", ci.Instr) }
					e.Hooks.Call = func(st *State, ci *CallInfo) (bool, *Term) {
						if len(ci.Name) > 12 && ci.Name[:12] == "sync/atomic." && ci.Name[12:16] != "Load" {
							effect(st, "a counter is changed", ci.Instr)
						}
						return false, nil
					}
					c.runRoots(e, []*ssa.Function{fn}, func(st *State, fn *ssa.Function) {
						r := st.stack[0].args[0]
						v := st.load(mkFieldAddr(r, t, fi), tBool)
						st.addFact(v, val)
					})
					if stopped == 0 && !done {
						c.violateFn("C15:unguarded:"+name, fn, "%s: no path stops the program", what)
					}
				}
				for _, op := range g.ops {
					if fn := c.mustFn(full + op); fn != nil {
						check(fn, false, "not initialised")
					}
				}
				for _, op := range g.once {
					if fn := c.mustFn(full + op); fn != nil {
						check(fn, true, "already initialised")
					}
				}
				// Init leaves the mark
				if fn := c.mustFn(full + "Init"); fn != nil {
					marked(c, fn, g.rel+"."+g.typ)
				}
				// nobody takes it away
				ok := true
				for _, rel := range sortedKeys(c.P.Pkgs) {
					for _, f := range c.P.pkgFns(rel) {
						for _, b := range f.Blocks {
							for _, ins := range b.Instrs {
								s, isS := ins.(*ssa.Store)
								if !isS {
									continue
								}
								fa, isF := s.Addr.(*ssa.FieldAddr)
								if !isF || fa.Field != fi || !namedIs(fa.X.Type(), g.rel+"."+g.typ) {
									continue
								}
								cv, isC := s.Val.(*ssa.Const)
								if !isC || cv.Value == nil || cv.Value.Kind() != constant.Bool || !constant.BoolVal(cv.Value) {
									ok = false
									c.violateAt("C15:unmarked:"+fnName(f), ins, "the mark of initialisation of %s.%s is set to %v", g.rel, g.typ, s.Val)
								}
							}
						}
					}
				}
				c.ob("mark-is-never-taken-away", g.rel+"."+g.typ, ok)
			}
			c.need("refused-with-message", 6)
			c.need("init-leaves-mark", 1)
			c.need("mark-is-never-taken-away", 1)
		}, "a component is initialised before it is shared between goroutines")
}

// marked: every path through fn that returns passes a store of true to the
// receiver's mark (a must analysis over the control-flow graph, calls into the
// module included).
func marked(c *Ctx, fn *ssa.Function, typ string) {
	seen := map[*ssa.Function]int{}
	var must func(f *ssa.Function) bool
	must = func(f *ssa.Function) bool {
		if v, ok := seen[f]; ok {
			return v == 1
		}
		seen[f] = 0
		if len(f.Blocks) == 0 {
			return false
		}
		sets := func(b *ssa.BasicBlock) bool {
			for _, ins := range b.Instrs {
				switch x := ins.(type) {
				case *ssa.Store:
					if fa, ok := x.Addr.(*ssa.FieldAddr); ok && ssaFieldName(fa) == "initialized" && namedIs(fa.X.Type(), typ) {
						return true
					}
				case *ssa.Call:
					if g := x.Call.StaticCallee(); g != nil && inModule(g) && must(g) {
						return true
					}
					if g := x.Call.StaticCallee(); g != nil && fatalFn(g.String()) {
						return true
					}
				case *ssa.Panic:
					return true
				}
			}
			return false
		}
		// a block is done if it sets the mark, or all its successors are
		var reach func(b *ssa.BasicBlock, vis map[*ssa.BasicBlock]bool) bool // an unmarked return is reachable
		reach = func(b *ssa.BasicBlock, vis map[*ssa.BasicBlock]bool) bool {
			if vis[b] {
				return false
			}
			vis[b] = true
			if sets(b) {
				return false
			}
			if len(b.Succs) == 0 {
				_, isRet := b.Instrs[len(b.Instrs)-1].(*ssa.Return)
				return isRet
			}
			for _, s := range b.Succs {
				if reach(s, vis) {
					return true
				}
			}
			return false
		}
		if !reach(f.Blocks[0], map[*ssa.BasicBlock]bool{}) {
			seen[f] = 1
			return true
		}
		return false
	}
	ok := must(fn)
	c.ob("init-leaves-mark", fnName(fn), ok)
	if !ok {
		c.violateFn("C15:mark:"+fnName(fn), fn, "initialisation may end without marking the component as initialised")
	}
}

func ssaFieldName(fa *ssa.FieldAddr) string {
	if t := ptrElem(fa.X.Type()); t != nil {
		if s, ok := t.Underlying().(*types.Struct); ok {
			return s.Field(fa.Field).Name()
		}
	}
	return ""
}
