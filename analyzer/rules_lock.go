package main

import (
	"fmt"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// exportedOps lists the exported operations of a type, in source order.
func exportedOps(c *Ctx, rel, name string) []*ssa.Function {
	var out []*ssa.Function
	for _, fn := range c.P.methodsOf(rel, name) {
		if isExported(fn) {
			out = append(out, fn)
		}
	}
	if len(out) == 0 {
		c.violate("anchor:"+rel+"."+name, "", "", "type "+rel+"."+name+" has no exported operation to decide the property on", nil)
	}
	return out
}

// guardedRoot: the guard of the memory a slice or map value refers to.
func guardedRoot(st *State, t *Term, d int) string {
	if t == nil || d > 8 {
		return ""
	}
	switch t.op {
	case OpLoad:
		if t.args[0].op == OpFieldAddr || t.args[0].op == OpGlobal {
			switch t.typ.Underlying().(type) {
			case *types.Slice, *types.Map:
				if r := rootOf(t.args[0]); isLocalRoot(r) && !st.escaped[r] {
					return ""
				}
				return st.e.guardOf(st.classOf(t.args[0]))
			}
		}
	case OpSlice, OpAppend, OpAppendAll, OpMakeIface, OpConvert:
		return guardedRoot(st, t.args[0], d+1)
	case OpPhi:
		for x := range st.e.prev.phiIn[t] {
			if x != t {
				if g := guardedRoot(st, x, d+1); g != "" {
					return g
				}
			}
		}
	case OpAlloc:
		// a local variable holding such a value, passed by address
		if v, ok := st.mem[t]; ok {
			return guardedRoot(st, v, d+1)
		}
	}
	return ""
}

// reachGuarded: a value handed out of the component refers to guarded memory.
func reachGuarded(st *State, t *Term, d int) string {
	if t == nil || d > 8 {
		return ""
	}
	if g := guardedRoot(st, t, 0); g != "" {
		return g
	}
	switch t.op {
	case OpStruct, OpAppend, OpAppendAll, OpTuple, OpMakeIface, OpConvert:
		for _, a := range t.args {
			if g := reachGuarded(st, a, d+1); g != "" {
				return g
			}
		}
	case OpPhi:
		for x := range st.e.prev.phiIn[t] {
			if x != t {
				if g := reachGuarded(st, x, d+2); g != "" {
					return g
				}
			}
		}
	}
	return ""
}

// accessGuard: the lock that protects a memory location.
func accessGuard(st *State, loc *Term) (guard, what string) {
	if r := rootOf(loc); isLocalRoot(r) && !st.escaped[r] {
		// private object; but an element of a shared buffer kept in it is shared
		for l := loc; l.op == OpFieldAddr || l.op == OpIndexAddr; l = l.args[0] {
			if l.op == OpIndexAddr {
				if g := guardedRoot(st, l.args[0], 0); g != "" {
					return g, "an element of " + l.args[0].String()
				}
			}
		}
		return "", ""
	}
	for l := loc; l.op == OpFieldAddr || l.op == OpIndexAddr; l = l.args[0] {
		if l.op == OpIndexAddr {
			if g := guardedRoot(st, l.args[0], 0); g != "" {
				return g, "an element of " + l.args[0].String()
			}
			return "", ""
		}
		if g := st.e.guardOf("f:" + l.aux); g != "" {
			return g, l.aux
		}
		if g := st.e.guardOf("f:" + l.aux + "."); g != "" && l == loc {
			return g, l.aux
		}
	}
	return "", ""
}

// initOps: functions that run before a component is shared.
func isInitFn(name string) bool { return strings.HasSuffix(name, ").Init") }

type lockRules struct {
	c *Ctx
	e *Engine
}

func coreEngine(c *Ctx) *Engine {
	e := NewEngine(c.P)
	e.Guard = coreGuard
	e.Stable = stableOptions
	e.Domain = func(t *Term) ([]int64, bool) {
		if t.op == OpMapVal && loadsField(t.args[0], fDocsState) {
			return []int64{0, 1, 2}, true
		}
		if loadsField(t, "types.IndexerOpts.IndexType") {
			return []int64{0, 1, 2}, true
		}
		return nil, false
	}
	return e
}

// lockRootsRun explores every exported operation of the index and the ranker;
// functions they start as goroutines become operations of their own.
func lockRootsRun(c *Ctx, e *Engine) {
	e.Coarse = true
	var roots []*ssa.Function
	for _, t := range []string{"Indexer", "Ranker"} {
		for _, fn := range exportedOps(c, "core", t) {
			if fn.Name() != "Init" {
				roots = append(roots, fn)
			}
		}
	}
	seen := map[*ssa.Function]bool{}
	for _, r := range roots {
		seen[r] = true
	}
	var more []*ssa.Function
	e.Hooks.Go = func(st *State, ci *CallInfo) {
		if ci.Fn == nil || len(ci.Fn.Blocks) == 0 {
			st.report(c.ID+":go:"+fnName(st.top().fn), ci.Instr, "a goroutine of unknown function is started")
			return
		}
		if inModule(ci.Fn) && !seen[ci.Fn] {
			seen[ci.Fn] = true
			more = append(more, ci.Fn)
		}
	}
	for len(roots) > 0 {
		for _, r := range roots {
			c.ob("operation-explored", fnName(r), true)
		}
		c.runRoots(e, roots, nil)
		roots, more = more, nil
	}
}

func init() {
	register("C06", "Lockset dataflow over every exported operation of Indexer and Ranker (helpers inlined, deferred unlocks modelled, each operation an entry point with no lock held): at every read or write of a guarded field, map, buffer or buffer element the protecting lock must be held (exclusively for writes); slices and maps taken from guarded fields are followed into locals, calls and results, so use after release is an access without the lock; unguarded fields and globals must not be written at all outside Init.",
		func(c *Ctx) {
			e := coreEngine(c)
			check := func(st *State, guard, what string, write bool, ins ssa.Instruction) {
				if guard == "" {
					return
				}
				held, wr := st.holdsLock(guard)
				ok := held && (wr || !write)
				mode := "read"
				if write {
					mode = "write"
				}
				site := fmt.Sprintf("%s of %s at %s under %s", mode, what, e.pos(insPos(ins)), guard)
				c.ob("access-under-lock", site, ok)
				if !ok {
					how := "without holding " + guard
					if held {
						how = "holding " + guard + " only for reading"
					}
					st.report("C06:"+mode+":"+guard+":"+fnName(ins.Parent())+":"+e.pos(insPos(ins)), ins, "%s of %s %s", mode, what, how)
				}
			}
			loc := func(st *State, l *Term, write bool, ins ssa.Instruction) {
				g, what := accessGuard(st, l)
				check(st, g, what, write, ins)
				if write && g == "" {
					r := rootOf(l)
					if isLocalRoot(r) {
						return
					}
					if l.op == OpGlobal {
						st.report("C06:global:"+l.aux, ins, "an operation writes the package variable %s", l.aux)
					}
					for x := l; x.op == OpFieldAddr; x = x.args[0] {
						if strings.HasPrefix(x.aux, "core.Indexer.") || strings.HasPrefix(x.aux, "core.Ranker.") || strings.HasPrefix(x.aux, "types.IndexerOpts.") {
							st.report("C06:unguarded:"+x.aux, ins, "field %s is written outside Init and no lock protects it", x.aux)
							break
						}
					}
				}
			}
			mp := func(st *State, m *Term, write bool, ins ssa.Instruction) {
				if g := guardedRoot(st, m, 0); g != "" {
					check(st, g, m.String(), write, ins)
				}
			}
			e.Hooks.Load = func(st *State, l, v *Term, ins ssa.Instruction) { loc(st, l, false, ins) }
			e.Hooks.Store = func(st *State, l, v *Term, ins ssa.Instruction) { loc(st, l, true, ins) }
			e.Hooks.MapRead = func(st *State, m, k *Term, ins ssa.Instruction) { mp(st, m, false, ins) }
			e.Hooks.MapRange = func(st *State, m *Term, ins ssa.Instruction) { mp(st, m, false, ins) }
			e.Hooks.MapWrite = func(st *State, m, k, v *Term, ins ssa.Instruction) { mp(st, m, true, ins) }
			e.Hooks.MapDelete = func(st *State, m, k *Term, ins ssa.Instruction) { mp(st, m, true, ins) }
			e.Hooks.Copy = func(st *State, d, s *Term, ins ssa.Instruction) { mp(st, d, true, ins); mp(st, s, false, ins) }
			e.Hooks.Append = func(st *State, b *Term, els []*Term, res *Term, typ types.Type, ins ssa.Instruction) {
				mp(st, b, true, ins)
			}
			e.Hooks.AppendAll = func(st *State, b, o, res *Term, typ types.Type, ins ssa.Instruction) {
				mp(st, b, true, ins)
				mp(st, o, false, ins)
			}
			e.Hooks.Called = func(st *State, ci *CallInfo, res *Term) {
				for _, a := range ci.Args {
					mp(st, a, strings.HasPrefix(ci.Name, "sort."), ci.Instr)
				}
			}
			e.Hooks.Return = func(st *State, fn *ssa.Function, res []*Term, ins ssa.Instruction) {
				for _, r := range res {
					g := reachGuarded(st, r, 0)
					c.ob("nothing-guarded-returned", fnName(fn)+" at "+e.pos(insPos(ins)), g == "")
					if g != "" {
						st.report("C06:returned:"+fnName(fn), ins, "%s returns a reference to memory protected by %s", fn.Name(), g)
					}
				}
			}
			lockRootsRun(c, e)
			c.need("access-under-lock", 13)
			c.need("operation-explored", 3)
		}, "constructors (Init) run before a component is shared", "the lock of the same object is meant: each component owns its locks")

	register("C07", "Typestate and lock-order analysis over every path of every exported operation of Indexer and Ranker (helpers inlined, deferred calls run at returns): no lock is taken while already held, each unlock matches a held lock in its mode, none is held at a return or around a loop iteration, the relation held-before-acquired over all operations is acyclic, and no channel operation, sleep, wait or scoring call happens while one is held.",
		func(c *Ctx) {
			e := coreEngine(c)
			edges := map[string]map[string]string{}
			e.PassStart = func() { edges = map[string]map[string]string{} }
			blocked := func(st *State, what string, ins ssa.Instruction) {
				ok := len(st.locks) == 0
				c.ob("no-blocking-under-lock", what+" at "+e.pos(insPos(ins)), ok)
				if !ok {
					st.report("C07:block:"+what+":"+fnName(ins.Parent()), ins, "%s while %s is held", what, st.locks[0].key)
				}
			}
			e.Hooks.Lock = func(st *State, key string, lock *Term, write bool, ins ssa.Instruction) {
				site := key + " at " + e.pos(insPos(ins))
				again := ""
				for _, h := range st.locks {
					if h.key == key {
						again = e.pos(h.pos)
						continue
					}
					if edges[h.key] == nil {
						edges[h.key] = map[string]string{}
					}
					if _, ok := edges[h.key][key]; !ok {
						edges[h.key][key] = e.pos(insPos(ins)) + " in " + fnName(ins.Parent())
					}
				}
				c.ob("not-relocked", site, again == "")
				if again != "" {
					st.report("C07:relock:"+key+":"+fnName(ins.Parent()), ins, "%s is acquired while already held (since %s)", key, again)
				}
			}
			e.Hooks.Unlock = func(st *State, key string, lock *Term, write, held bool, ins ssa.Instruction) {
				c.ob("unlock-matches", key+" at "+e.pos(insPos(ins)), held)
				if !held {
					mode := "for reading"
					if write {
						mode = "exclusively"
					}
					st.report("C07:unlock:"+key+":"+fnName(ins.Parent()), ins, "%s is released but not held %s on this path", key, mode)
				}
			}
			e.Hooks.Return = func(st *State, fn *ssa.Function, res []*Term, ins ssa.Instruction) {
				ok := len(st.locks) == 0
				c.ob("released-at-return", fnName(fn)+" at "+e.pos(insPos(ins)), ok)
				for _, h := range st.locks {
					st.report("C07:leak:"+h.key+":"+fnName(fn), ins, "%s returns with %s held (since %s)", fn.Name(), h.key, e.pos(h.pos))
				}
			}
			e.Hooks.Backedge = func(st *State, fr *Frame, h *ssa.BasicBlock, phis, vals []*Term) {
				for _, l := range st.locks {
					n := 0
					for _, k := range st.locks {
						if k.key == l.key {
							n++
						}
					}
					if n > 1 {
						st.report("C07:loop:"+l.key+":"+fnName(fr.fn), fr.prev.Instrs[len(fr.prev.Instrs)-1], "an iteration ends with %s held twice", l.key)
					}
				}
			}
			e.Hooks.Send = func(st *State, ch, v *Term, ins ssa.Instruction) { blocked(st, "channel send", ins) }
			e.Hooks.Recv = func(st *State, ch, v *Term, ins ssa.Instruction) { blocked(st, "channel receive", ins) }
			e.Hooks.Select = func(st *State, ins *ssa.Select, chosen int) { blocked(st, "select", ins) }
			e.Hooks.Called = func(st *State, ci *CallInfo, res *Term) {
				switch {
				case strings.HasPrefix(ci.Name, "time.Sleep"), ci.Name == "(*sync.WaitGroup).Wait", ci.Name == "(*sync.Cond).Wait":
					blocked(st, ci.Name, ci.Instr)
				case ci.Invoke && ci.Call.Method.Name() == "Score" || ci.Name == "dynamic":
					blocked(st, "user-supplied scoring code", ci.Instr)
				case strings.HasPrefix(ci.Name, "(*sync."):
					st.report("C07:sync:"+ci.Name, ci.Instr, "%s is a lock operation this analysis does not model", ci.Name)
				}
			}
			lockRootsRun(c, e)
			// acyclic order
			var keys []string
			for k := range edges {
				keys = append(keys, k)
			}
			sort.Strings(keys)
			state := map[string]int{}
			var stack []string
			var dfs func(k string)
			dfs = func(k string) {
				state[k] = 1
				stack = append(stack, k)
				for _, n := range sortedKeys(edges[k]) {
					cyc := state[n] == 1
					c.ob("global-lock-order", k+" before "+n+" ("+edges[k][n]+")", !cyc)
					if cyc {
						var tr []string
						for i := len(stack) - 1; i >= 0; i-- {
							tr = append([]string{stack[i]}, tr...)
							if stack[i] == n {
								break
							}
						}
						for i := range tr {
							tr[i] += " held while acquiring " + append(tr, n)[i+1][:] + ""
						}
						c.violate("C07:order:"+k+":"+n, strings.Fields(edges[k][n])[0], "", fmt.Sprintf("lock order cycle: %s is acquired while %s is held (%s), and elsewhere %s before %s", n, k, edges[k][n], n, k), tr)
					} else if state[n] == 0 {
						dfs(n)
					}
				}
				stack = stack[:len(stack)-1]
				state[k] = 2
			}
			for _, k := range keys {
				if state[k] == 0 {
					dfs(k)
				}
			}
			c.need("not-relocked", 3)
			c.need("released-at-return", 3)
			c.need("unlock-matches", 3)
			c.need("no-blocking-under-lock", 1)
			c.need("global-lock-order", 1)
		}, "lock operations of other packages (atomic maps, loggers) do not take these locks")
}
