package main

import (
	"fmt"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// flowEv is one communication event of a path.
type flowEv struct {
	kind string // recv, send, call, atomic, load, loop, select, go, alloc, enter, exit, store
	name string // call: function; add, load: counter field; loop: loop key
	ch   *Term
	val  *Term
	args []*Term
	objs []*Term // what pointer arguments pointed to before the call
	phis []*Term
	init []*Term
	at   ssa.Instruction
}

func (ev *flowEv) key() string {
	s := ev.kind + ":" + ev.name
	if ev.ch != nil {
		s += "," + itoa(ev.ch.id)
	}
	if ev.val != nil {
		s += "," + itoa(ev.val.id)
	}
	for _, a := range ev.args {
		if a != nil {
			s += "," + itoa(a.id)
		}
	}
	return s
}

// flowSt is the sequence of events of a path; loops appear as one event each,
// their iterations are summarised in flow.iters.
type flowSt struct{ evs []*flowEv }

func (f *flowSt) Key() string {
	var b strings.Builder
	for _, ev := range f.evs {
		b.WriteString(ev.key())
		b.WriteByte(';')
	}
	return b.String()
}
func (f *flowSt) Clone() Client {
	return &flowSt{evs: f.evs[:len(f.evs):len(f.evs)]}
}

// flowIter is one explored iteration of a loop.
type flowIter struct {
	facts map[*Term]bool
	evs   []*flowEv
	phis  []*Term
	vals  []*Term
	st    *State
	pos   string
}

// growth: how a list was extended.
type growth struct {
	base  *Term
	elems []*Term
	other *Term
}

type flow struct {
	c           *Ctx
	e           *Engine
	iters, next map[string][]*flowIter
	pending     map[ssa.Instruction][]*Term
	objs        map[ssa.Instruction][]*Term
	printed     map[*Term][]*Term // results of fmt.Sprintf and the like: what was formatted
	// also record: allocations of these types, calls of closures, writes to the engine's lists
	keepAlloc func(t types.Type) bool
	onCall    func(st *State, ci *CallInfo) (bool, *Term) // models a call
	closures  bool
	building  bool // the engine is being initialised
	stores    bool
	grown     map[*Term]growth
	keep      func(name string) bool // other calls to record
	// an iteration of a loop has ended
	onIter func(st *State, key string, it *flowIter, ins ssa.Instruction)
	// the explored function returns
	onReturn func(st *State, fn *ssa.Function, res []*Term, evs []*flowEv, ins ssa.Instruction)
}

func flowEvs(st *State) []*flowEv {
	if f, ok := st.client.(*flowSt); ok {
		return f.evs
	}
	return nil
}

func (f *flow) add(st *State, ev *flowEv) {
	cl, ok := st.client.(*flowSt)
	if !ok {
		return
	}
	n := &flowSt{evs: append(cl.evs[:len(cl.evs):len(cl.evs)], ev)}
	st.client = n
}

// counterField: the engine counter an address belongs to.
func counterField(a *Term) string {
	for a != nil && a.op == OpFieldAddr {
		if strings.HasPrefix(a.aux, "riot.Engine.") {
			return strings.TrimPrefix(a.aux, "riot.Engine.")
		}
		a = a.args[0]
	}
	return ""
}

func newFlow(c *Ctx, opaque func(*ssa.Function) bool) *flow {
	f := &flow{c: c, pending: map[ssa.Instruction][]*Term{}, printed: map[*Term][]*Term{}, objs: map[ssa.Instruction][]*Term{}, grown: map[*Term]growth{}, iters: map[string][]*flowIter{}, next: map[string][]*flowIter{}}
	e := NewEngine(c.P)
	f.e = e
	e.GoInline = true
	e.Stable = func(loc *Term) bool { return stableOptions(loc) || stableEngine(loc) }
	e.Opaque = opaque
	e.Hooks.Recv = func(st *State, ch, v *Term, ins ssa.Instruction) {
		f.add(st, &flowEv{kind: "recv", ch: ch, val: v, at: ins})
	}
	e.Hooks.Send = func(st *State, ch, v *Term, ins ssa.Instruction) {
		f.add(st, &flowEv{kind: "send", ch: ch, val: v, at: ins})
	}
	e.Hooks.Select = func(st *State, ins *ssa.Select, k int) {
		// a case without data of interest
		f.add(st, &flowEv{kind: "select", name: itoa(k), at: ins})
	}
	e.Hooks.Go = func(st *State, ci *CallInfo) {
		name := ci.Name
		if ci.Fn != nil {
			name = fnName(ci.Fn)
		}
		f.add(st, &flowEv{kind: "go", name: name, args: ci.Args, at: ci.Instr})
	}
	e.Hooks.Alloc = func(st *State, t *Term, x *ssa.Alloc) {
		if f.keepAlloc != nil && f.keepAlloc(x.Type().Underlying().(*types.Pointer).Elem()) {
			f.add(st, &flowEv{kind: "alloc", val: t, at: x})
		}
	}
	e.Hooks.Enter = func(st *State, fn *ssa.Function, args []*Term) {
		if f.closures && fn.Parent() != nil && len(st.stack) > 1 {
			f.add(st, &flowEv{kind: "enter", name: fnName(fn), args: args, at: st.stack[len(st.stack)-2].block.Instrs[0]})
		}
	}
	e.Hooks.Exit = func(st *State, fn *ssa.Function, args, res []*Term, ins ssa.Instruction) {
		if f.closures && fn.Parent() != nil {
			f.add(st, &flowEv{kind: "exit", name: fnName(fn), args: res, at: ins})
		}
	}
	e.Hooks.Store = func(st *State, loc, val *Term, ins ssa.Instruction) {
		if f.stores && (stableEngine(loc) || loc.op == OpIndexAddr && loc.args[0].op == OpMake) && len(st.stack) > 0 {
			f.add(st, &flowEv{kind: "store", ch: loc, val: val, at: ins})
		}
	}
	e.Hooks.Call = func(st *State, ci *CallInfo) (bool, *Term) {
		if op, addr, args, ok := atomicOp(ci); ok {
			if k := counterField(addr); k != "" && op == "Load" {
				v := mk(OpHavoc, ci.Result, st.siteID(ci.Instr)+"/atomic")
				f.add(st, &flowEv{kind: "load", name: k, val: v, at: ci.Instr})
				return true, v
			} else if k != "" {
				f.add(st, &flowEv{kind: "atomic", name: k + ":" + op, args: args, at: ci.Instr})
			}
		}
		// optional parameters are read before the call may change them
		args := append([]*Term(nil), ci.Args...)
		f.pending[ci.Instr] = args
		if strings.HasSuffix(ci.Name, ".Encode") {
			objs := make([]*Term, len(args))
			for i, a := range args {
				if x := unwrapIface(a); x.op == OpAlloc {
					if t := x.typ.Underlying().(*types.Pointer).Elem(); structOf(t) != nil {
						objs[i] = st.load(x, t)
					}
				}
			}
			f.objs[ci.Instr] = objs
		}
		if strings.HasPrefix(ci.Name, "fmt.Sprint") && pureFn(ci.Name) && ci.Result != nil {
			f.printed[mk(OpCall, ci.Result, ci.Name, ci.Args...)] = variadic(st, ci.Args[len(ci.Args)-1])
		}
		for i, a := range args {
			if a.op == OpSlice && a.args[0].op == OpAlloc && sliceElem(a.typ) != nil {
				args[i] = st.load(mkIndexAddr(a.args[0], mkInt(0), sliceElem(a.typ)), sliceElem(a.typ))
			}
		}
		if f.onCall != nil {
			return f.onCall(st, ci)
		}
		return false, nil
	}
	e.Hooks.Called = func(st *State, ci *CallInfo, res *Term) {
		name := ci.Name
		if ci.Fn != nil {
			name = fnName(ci.Fn)
		}
		if ci.Call != nil && ci.Call.IsInvoke() && structTypeName(ci.Call.Value.Type()) == "store.Store" {
			f.add(st, &flowEv{kind: "call", name: "store." + ci.Call.Method.Name(), val: res, args: f.pending[ci.Instr], objs: f.objs[ci.Instr], at: ci.Instr})
			return
		}
		if ci.Fn != nil && coreWork(ci.Fn) || f.keep != nil && f.keep(name) {
			f.add(st, &flowEv{kind: "call", name: name, val: res, args: f.pending[ci.Instr], objs: f.objs[ci.Instr], at: ci.Instr})
		}
	}
	e.Hooks.LoopPre = func(st *State, fr *Frame, h *ssa.BasicBlock, phis, vals []*Term) {
		f.add(st, &flowEv{kind: "loop", name: e.loopKey(fr, h), phis: phis, init: vals})
	}
	e.Hooks.Backedge = func(st *State, fr *Frame, h *ssa.BasicBlock, phis, vals []*Term) {
		key := e.loopKey(fr, h)
		evs := flowEvs(st)
		i := len(evs) - 1
		for i >= 0 && !(evs[i].kind == "loop" && evs[i].name == key) {
			i--
		}
		if i < 0 {
			return
		}
		var at ssa.Instruction
		if len(fr.prev.Instrs) > 0 {
			at = fr.prev.Instrs[len(fr.prev.Instrs)-1]
		}
		facts := map[*Term]bool{}
		for t, v := range st.facts {
			facts[t] = v
		}
		it := &flowIter{facts: facts, evs: evs[i+1:], phis: phis, vals: vals, st: st, pos: e.pos(insPos(at))}
		f.next[key] = append(f.next[key], it)
		if f.onIter != nil {
			f.onIter(st, key, it, at)
		}
		st.client = &flowSt{evs: evs[: i+1 : i+1]}
	}
	e.Hooks.Return = func(st *State, fn *ssa.Function, res []*Term, ins ssa.Instruction) {
		if f.onReturn != nil {
			f.onReturn(st, fn, res, flowEvs(st), ins)
		}
	}
	e.Hooks.Append = func(st *State, base *Term, es []*Term, res *Term, typ types.Type, ins ssa.Instruction) {
		f.grown[res] = growth{base: base, elems: es}
	}
	e.Hooks.AppendAll = func(st *State, base, other, res *Term, typ types.Type, ins ssa.Instruction) {
		f.grown[res] = growth{base: base, other: other}
	}
	e.PassEnd = func() bool {
		// the iterations the pass relied on are those it found
		if len(f.next) != len(f.iters) {
			return false
		}
		for k, its := range f.next {
			if iterSig(its) != iterSig(f.iters[k]) {
				return false
			}
		}
		return true
	}
	e.PassStart = func() {
		f.iters, f.next = f.next, map[string][]*flowIter{}
	}
	return f
}

func iterSig(its []*flowIter) string {
	var out []string
	for _, it := range its {
		var s []string
		for t, v := range it.facts {
			s = append(s, fmt.Sprint(t.id, v))
		}
		sort.Strings(s)
		for _, ev := range it.evs {
			s = append(s, ev.key())
		}
		for _, v := range it.vals {
			s = append(s, itoa(v.id))
		}
		out = append(out, strings.Join(s, ";"))
	}
	sort.Strings(out)
	return strings.Join(out, "\n")
}

// run explores the roots.
func (f *flow) run(roots []*ssa.Function, setup func(st *State, fn *ssa.Function)) {
	f.c.runRoots(f.e, roots, func(st *State, fn *ssa.Function) {
		st.client = &flowSt{}
		if fn.Signature.Recv() != nil && namedIs(fn.Signature.Recv().Type(), "riot.Engine") && !f.building {
			engineFacts(f.c, st, st.stack[0].args[0])
		}
		if setup != nil {
			setup(st, fn)
		}
	})
}

// stableEngine: structure of the engine fixed by Init (C26).
func stableEngine(loc *Term) bool {
	for l := loc; l != nil && (l.op == OpFieldAddr || l.op == OpLoad || l.op == OpIndexAddr); l = l.args[0] {
		if l.op == OpFieldAddr && strings.HasPrefix(l.aux, "riot.Engine.") {
			return true
		}
	}
	return false
}

// engineFacts: what initialisation establishes (checked by C27).
func engineFacts(c *Ctx, st *State, eng *Term) {
	for _, l := range engineLists(c) {
		n := st.engineOpt(c, eng, l.size)
		lst := st.engineField(c, eng, l.field)
		if n != nil && lst != nil {
			st.assume(mkEq(mkLen(lst), n), true)
		}
	}
	for _, o := range []string{"NumShards", "StoreShards"} {
		if n := st.engineOpt(c, eng, o); n != nil {
			st.assume(mkLt(mkInt(0), n), true)
		}
	}
}

type engineList struct{ field, size string }

// engineLists: the per-shard lists of the engine.
func engineLists(c *Ctx) []engineList {
	var out []engineList
	t := c.P.typeOf("riot", "Engine")
	if t == nil {
		return nil
	}
	s := structOf(t)
	for i := 0; i < s.NumFields(); i++ {
		if !isSliceType(s.Field(i).Type()) {
			continue
		}
		n := s.Field(i).Name()
		sz := "NumShards"
		if strings.HasPrefix(n, "store") || strings.HasPrefix(n, "dbs") {
			sz = "StoreShards"
		}
		out = append(out, engineList{n, sz})
	}
	return out
}

// engineField is the current value of a field of the engine.
func (st *State) engineField(c *Ctx, eng *Term, name string) *Term {
	t := c.P.typeOf("riot", "Engine")
	i := fieldIdx(t, name)
	if i < 0 {
		return nil
	}
	return st.load(mkFieldAddr(eng, t, i), structOf(t).Field(i).Type())
}

// engineOpt is the current value of one of the engine's options.
func (st *State) engineOpt(c *Ctx, eng *Term, name string) *Term {
	t := c.P.typeOf("riot", "Engine")
	i := fieldIdx(t, "initOptions")
	if i < 0 {
		return nil
	}
	ot := structOf(t).Field(i).Type()
	j := fieldIdx(ot, name)
	if j < 0 {
		return nil
	}
	return st.load(mkFieldAddr(mkFieldAddr(eng, t, i), ot, j), structOf(ot).Field(j).Type())
}

func dumpFlow(evs []*flowEv) {
	for _, ev := range evs {
		fmt.Println("   ", ev.kind, ev.name, ev.ch, ev.val, ev.args, ev.phis, ev.init)
	}
}

func structOf(t types.Type) *types.Struct {
	if p, ok := t.Underlying().(*types.Pointer); ok {
		t = p.Elem()
	}
	s, _ := t.Underlying().(*types.Struct)
	return s
}

func isSliceType(t types.Type) bool { _, ok := t.Underlying().(*types.Slice); return ok }

// recs lists the explored iterations of a completed loop that the path may
// have gone through.
func (f *flow) recs(st *State, ev *flowEv) []*flowIter {
	var out []*flowIter
next:
	for _, it := range f.iters[ev.name] {
		own := map[*Term]bool{}
		for _, p := range ev.phis {
			own[p] = true
		}
		for _, p := range it.phis {
			own[p] = true
		}
		for _, x := range it.evs {
			if x.val != nil && x.kind != "send" {
				own[x.val] = true
			}
			for _, p := range x.phis {
				own[p] = true
			}
		}
		for t, v := range it.facts {
			w, ok := st.facts[t]
			if !ok || v == w {
				continue
			}
			local := false
			visit(t, func(x *Term) {
				if own[x] || x.op == OpHavoc {
					local = true
				}
			})
			if !local {
				continue next
			}
		}
		out = append(out, it)
	}
	return out
}

// async: a goroutine started among the events.
func (f *flow) async(st *State, evs []*flowEv) ssa.Instruction {
	for _, ev := range evs {
		switch ev.kind {
		case "go":
			return ev.at
		case "loop":
			for _, it := range f.recs(st, ev) {
				if at := f.async(it.st, it.evs); at != nil {
					return at
				}
			}
		}
	}
	return nil
}

// split calls do for every way the open conditions may hold.
func (st *State) split(conds []*Term, do func(st *State)) {
	for _, t := range conds {
		if t == nil || st.truth(t) >= 0 {
			continue
		}
		for _, v := range []bool{true, false} {
			s := st.clone()
			if s.assume(t, v) {
				s.split(conds, do)
			}
		}
		return
	}
	do(st)
}

// iterations: the number of iterations the loop completed (nil if unknown),
// from a variable that every iteration moves by one.
func (f *flow) iterations(ev *flowEv, recs []*flowIter) (n *Term, phi, init *Term, step int64) {
	for i, p := range ev.phis {
		if !isIntType(p.typ) || len(recs) == 0 {
			continue
		}
		step = 0
		for _, it := range recs {
			if i >= len(it.phis) || it.phis[i] != p {
				step = 0
				break
			}
			d := mkSub(it.vals[i], p)
			s := int64(0)
			if d == mkInt(1) {
				s = 1
			} else if d == mkInt(-1) {
				s = -1
			}
			if s == 0 || step != 0 && s != step {
				step = 0
				break
			}
			step = s
		}
		switch step {
		case 1:
			return mkSub(p, ev.init[i]), p, ev.init[i], 1
		case -1:
			return mkSub(ev.init[i], p), p, ev.init[i], -1
		}
	}
	return nil, nil, nil, 0
}

// coversAll: index expression idx (over the loop's variable) runs over exactly
// 0..n-1 in the completed iterations.
func (f *flow) coversAll(st *State, ev *flowEv, recs []*flowIter, idx, n *Term) bool {
	cnt, phi, init, step := f.iterations(ev, recs)
	if cnt == nil || !st.proveEqInt(cnt, n) {
		return false
	}
	return f.spans(st, idx, phi, init, step, n)
}

func (f *flow) spans(st *State, idx, phi, init *Term, step int64, n *Term) bool {
	dir := step
	c := mkSub(idx, phi)
	var first *Term
	if !contains(c, phi) {
		first = mkAdd(init, c)
	} else if c = mkAdd(idx, phi); !contains(c, phi) {
		first = mkSub(c, init)
		dir = -step
	} else {
		return false
	}
	if dir > 0 {
		return st.proveEqInt(first, mkInt(0))
	}
	return st.proveEqInt(first, mkSub(n, mkInt(1)))
}

// shardElem splits an element of an engine list: field name and index.
func shardElem(t *Term) (list string, idx *Term) {
	if t == nil || t.op != OpLoad && t.op != OpIndexAddr {
		return "", nil
	}
	a := t
	if a.op == OpLoad {
		a = a.args[0]
	}
	if a.op != OpIndexAddr {
		return "", nil
	}
	l := a.args[0]
	if l.op == OpLoad && l.args[0].op == OpFieldAddr && strings.HasPrefix(l.args[0].aux, "riot.Engine.") {
		return strings.TrimPrefix(l.args[0].aux, "riot.Engine."), a.args[1]
	}
	return "", nil
}

// chanField: the only channel field of a message type (-1 if none).
func chanField(t types.Type) int {
	if t == nil {
		return -1
	}
	s, ok := t.Underlying().(*types.Struct)
	if !ok {
		return -1
	}
	r := -1
	for i := 0; i < s.NumFields(); i++ {
		if _, ok := s.Field(i).Type().Underlying().(*types.Chan); ok {
			if r >= 0 {
				return -1
			}
			r = i
		}
	}
	return r
}

func chanElem(t types.Type) types.Type {
	if c, ok := t.Underlying().(*types.Chan); ok {
		return c.Elem()
	}
	return nil
}

// variadic: the elements of the slice made for optional arguments.
func variadic(st *State, a *Term) []*Term {
	if a == nil || a.op != OpSlice || a.args[0].op != OpAlloc {
		return nil
	}
	arr, ok := a.args[0].typ.Underlying().(*types.Pointer)
	if !ok {
		return nil
	}
	t, ok := arr.Elem().Underlying().(*types.Array)
	if !ok {
		return nil
	}
	var out []*Term
	for i := int64(0); i < t.Len(); i++ {
		out = append(out, st.load(mkIndexAddr(a.args[0], mkInt(i), t.Elem()), t.Elem()))
	}
	return out
}
