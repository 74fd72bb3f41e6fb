package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// CallInfo describes one call reached on a path.
type CallInfo struct {
	Name   string // full name of the callee, or type.method for interface calls, or "dynamic"
	Fn     *ssa.Function
	FnTerm *Term
	Args   []*Term
	Instr  ssa.Instruction
	Call   *ssa.CallCommon
	Invoke bool
	Result types.Type
	Defer  bool
	Go     bool
}

// Hooks are the events a rule listens to. All are optional.
type Hooks struct {
	Load      func(st *State, loc, val *Term, ins ssa.Instruction)
	Store     func(st *State, loc, val *Term, ins ssa.Instruction)
	Alloc     func(st *State, t *Term, ins *ssa.Alloc)
	MapRead   func(st *State, m, k *Term, ins ssa.Instruction)
	MapWrite  func(st *State, m, k, v *Term, ins ssa.Instruction)
	MapDelete func(st *State, m, k *Term, ins ssa.Instruction)
	MapRange  func(st *State, m *Term, ins ssa.Instruction)
	Append    func(st *State, base *Term, elems []*Term, res *Term, typ types.Type, ins ssa.Instruction)
	AppendAll func(st *State, base, other, res *Term, typ types.Type, ins ssa.Instruction)
	Copy      func(st *State, dst, src *Term, ins ssa.Instruction)
	// Call may handle the call itself by returning handled=true and a result.
	Call      func(st *State, c *CallInfo) (handled bool, res *Term)
	Called    func(st *State, c *CallInfo, res *Term) // after an opaque call
	Enter     func(st *State, fn *ssa.Function, args []*Term)
	Exit      func(st *State, fn *ssa.Function, args, res []*Term, ins ssa.Instruction) // inlined function returns
	Send      func(st *State, ch, v *Term, ins ssa.Instruction)
	Recv      func(st *State, ch, v *Term, ins ssa.Instruction)
	Select    func(st *State, ins *ssa.Select, chosen int)
	Go        func(st *State, c *CallInfo)
	Return    func(st *State, fn *ssa.Function, res []*Term, ins ssa.Instruction) // root returns
	LoopEnter func(st *State, fr *Frame, header *ssa.BasicBlock)
	// Backedge: an iteration of the loop ends; phis hold vals in the next one.
	Backedge func(st *State, fr *Frame, header *ssa.BasicBlock, phis, vals []*Term)
	// LoopPre: a loop is about to be entered with the given initial values (before its effects are applied).
	LoopPre   func(st *State, fr *Frame, header *ssa.BasicBlock, phis, vals []*Term)
	PassStart func()
	PassEnd   func() bool // after a pass: what it relied on from the previous one still holds
	Slice     func(st *State, base, lo, hi *Term, ins ssa.Instruction)
	Index     func(st *State, base, idx *Term, ins ssa.Instruction)
	Assert    func(st *State, x *Term, typ types.Type, commaOk bool, ins ssa.Instruction)
	Deref     func(st *State, ptr *Term, ins ssa.Instruction)
	Lock      func(st *State, key string, lock *Term, write bool, ins ssa.Instruction)
	Unlock    func(st *State, key string, lock *Term, write bool, held bool, ins ssa.Instruction)
	Fatal     func(st *State, name string, ins ssa.Instruction)
	Arith     func(st *State, op token.Token, a, b, res *Term, ins ssa.Instruction)
	Branch    func(st *State, cond *Term, val bool, ins ssa.Instruction)
}

type loopTab struct {
	seeded  bool
	cands   map[*Term]bool // assumed invariants: atom -> value
	back    map[*Term]bool // facts holding at every back edge (current pass)
	hasBack bool
	steps   map[*Term]map[*Term]bool // phi -> back values
}

type tables struct {
	phiIn    map[*Term]map[*Term]bool
	appends  map[*Term][]map[*Term]bool // append term -> per element templates
	elemSt   map[*Term]map[*Term]bool   // make term -> templates of stored elements
	mapKeys  map[*Term]map[*Term]bool   // make(map) -> templates of keys
	loopBack map[string]map[*Term]bool
	steps    map[string]map[*Term]map[*Term]bool
}

func newTables() *tables {
	return &tables{map[*Term]map[*Term]bool{}, map[*Term][]map[*Term]bool{}, map[*Term]map[*Term]bool{}, map[*Term]map[*Term]bool{},
		map[string]map[*Term]bool{}, map[string]map[*Term]map[*Term]bool{}}
}

type Report struct {
	Key   string
	Msg   string
	Pos   string
	Fn    string
	Trace []string
}

type Engine struct {
	P *Program
	Hooks
	Opaque      func(fn *ssa.Function) bool
	Domain      func(t *Term) ([]int64, bool)
	Guard       func(class string) string
	Stable      func(loc *Term) bool
	nonNilHook  func(st *State, t *Term) bool
	MultiCall   func(name string) (once, known bool) // closure argument of an opaque callee: called at most once?
	Invariants  func(st *State, fr *Frame, header *ssa.BasicBlock, phis map[*ssa.Phi]*Term) []*Term
	LockedFact  func(st *State, key string, lock *Term) // facts assumed after acquiring
	Eval        func(st *State, t *Term) bool           // decides a rule's own facts (terms named @...)
	ForceInline func(fn *ssa.Function) bool
	// KeepCells: local cells with a constant index that a loop's body leaves alone keep their value
	KeepCells bool
	deadCells map[string]bool
	// GoInline: explore the body of a started goroutine in place.
	GoInline bool

	loops    map[string]*loopTab
	tabCount map[string]int
	// Wraps: this sum or difference is to be computed as machine integers do
	Wraps   func(st *State, a, b, r *Term) bool
	prev    *tables
	cur     *tables
	changed bool
	pass    int
	MaxPass int
	MaxPath int
	// Coarse: at joins forget what is not needed to follow branches on values still in use.
	Coarse bool

	reports map[string]*Report
	work    []*State
	seen    map[string]bool

	// statistics
	Paths, Steps, MaxDepth int
	Fns                    map[string]bool
	Undecided              []string

	flins   map[*Term][2][]*lin
	iid     map[ssa.Instruction]string
	linfo   map[*ssa.Function]*loopsOf
	effs    map[*ssa.Function]*effects
	guards  map[string]string
	liveTab map[livePoint][]ssa.Value
	liveFn  map[*ssa.Function]map[*ssa.BasicBlock]map[ssa.Value]bool
}

func NewEngine(p *Program) *Engine {
	return &Engine{P: p, loops: map[string]*loopTab{}, tabCount: map[string]int{}, prev: newTables(), cur: newTables(), reports: map[string]*Report{},
		Fns: map[string]bool{}, flins: map[*Term][2][]*lin{}, iid: map[ssa.Instruction]string{},
		linfo: map[*ssa.Function]*loopsOf{}, effs: map[*ssa.Function]*effects{}, guards: map[string]string{}, liveTab: map[livePoint][]ssa.Value{}, liveFn: map[*ssa.Function]map[*ssa.BasicBlock]map[ssa.Value]bool{}, MaxPass: 12, MaxPath: 400000}
}

func (e *Engine) factLinsCached(atom *Term, val bool) []*lin {
	c, ok := e.flins[atom]
	if !ok {
		c = [2][]*lin{factLins(atom, false), factLins(atom, true)}
		e.flins[atom] = c
	}
	if val {
		return c[1]
	}
	return c[0]
}

func (e *Engine) guardOf(class string) string {
	if e.Guard == nil {
		return ""
	}
	if g, ok := e.guards[class]; ok {
		return g
	}
	g := e.Guard(class)
	e.guards[class] = g
	return g
}

func (e *Engine) stableLoad(loc *Term) bool { return e.Stable != nil && e.Stable(loc) }

func (e *Engine) instrID(ins ssa.Instruction) string {
	if s, ok := e.iid[ins]; ok {
		return s
	}
	b := ins.Block()
	s := "?"
	for i, x := range b.Instrs {
		if x == ins {
			s = fmt.Sprintf("%s.b%d.%d", b.Parent().Name(), b.Index, i)
		}
	}
	e.iid[ins] = s
	return s
}

func (e *Engine) pos(p token.Pos) string {
	if !p.IsValid() {
		return "-"
	}
	return posStr(e.P.Fset.Position(p))
}

func insPos(ins ssa.Instruction) token.Pos {
	if ins == nil {
		return token.NoPos
	}
	if p := ins.Pos(); p.IsValid() {
		return p
	}
	// nearest preceding instruction with a position
	b := ins.Block()
	if b == nil {
		return token.NoPos
	}
	last := token.NoPos
	for _, x := range b.Instrs {
		if x.Pos().IsValid() {
			last = x.Pos()
		}
		if x == ins && last.IsValid() {
			break
		}
	}
	if last.IsValid() {
		return last
	}
	return b.Parent().Pos()
}

// report records a violation found on the current path.
func (st *State) report(key string, ins ssa.Instruction, format string, a ...any) {
	e := st.e
	if _, ok := e.reports[key]; ok {
		return
	}
	fn := ""
	if ins != nil {
		fn = fnName(ins.Parent())
	}
	e.reports[key] = &Report{Key: key, Msg: fmt.Sprintf(format, a...), Pos: e.pos(insPos(ins)), Fn: fn, Trace: st.tracePath()}
}

// ---- natural loops

type loopsOf struct {
	body map[*ssa.BasicBlock]map[*ssa.BasicBlock]bool // header -> blocks
	in   map[*ssa.BasicBlock][]*ssa.BasicBlock        // block -> headers of enclosing loops
}

func (e *Engine) loopsIn(fn *ssa.Function) *loopsOf {
	if l, ok := e.linfo[fn]; ok {
		return l
	}
	l := &loopsOf{map[*ssa.BasicBlock]map[*ssa.BasicBlock]bool{}, map[*ssa.BasicBlock][]*ssa.BasicBlock{}}
	for _, b := range fn.Blocks {
		for _, h := range b.Succs {
			if h.Dominates(b) {
				if l.body[h] == nil {
					l.body[h] = map[*ssa.BasicBlock]bool{h: true}
				}
				var w []*ssa.BasicBlock
				if !l.body[h][b] {
					l.body[h][b] = true
					w = append(w, b)
				}
				for len(w) > 0 {
					x := w[len(w)-1]
					w = w[:len(w)-1]
					for _, p := range x.Preds {
						if !l.body[h][p] {
							l.body[h][p] = true
							w = append(w, p)
						}
					}
				}
			}
		}
	}
	for h, bs := range l.body {
		for b := range bs {
			l.in[b] = append(l.in[b], h)
		}
	}
	e.linfo[fn] = l
	return l
}

// ---- effect summaries (what a loop body or callee may write)

type effects struct {
	classes map[string]bool
	allocs  map[ssa.Value]bool
	all     bool
	locks   map[string]bool
}

func newEffects() *effects {
	return &effects{classes: map[string]bool{}, allocs: map[ssa.Value]bool{}, locks: map[string]bool{}}
}

func (e *Engine) staticClass(addr ssa.Value) (string, ssa.Value) {
	switch a := addr.(type) {
	case *ssa.FieldAddr:
		pt := a.X.Type().Underlying().(*types.Pointer).Elem()
		_, root := e.staticClass(a.X)
		return "f:" + structTypeName(pt) + "." + pt.Underlying().(*types.Struct).Field(a.Field).Name(), root
	case *ssa.IndexAddr:
		el := a.Type().Underlying().(*types.Pointer).Elem()
		var root ssa.Value
		if _, ok := a.X.Type().Underlying().(*types.Pointer); ok {
			_, root = e.staticClass(a.X)
		}
		return "e:" + types.TypeString(el, nil), root
	case *ssa.Global:
		return "g:" + globalName(a), nil
	case *ssa.Alloc:
		return "alloc", a
	case *ssa.FreeVar:
		return "free", a
	}
	if p, ok := addr.Type().Underlying().(*types.Pointer); ok {
		return "d:" + types.TypeString(p.Elem(), nil), nil
	}
	return "d:?", nil
}

func globalName(g *ssa.Global) string {
	p := strings.TrimPrefix(g.Pkg.Pkg.Path(), modPath+"/")
	return p + "." + g.Name()
}

func (e *Engine) addStructClasses(ef *effects, typ types.Type) {
	if expandStruct(typ) {
		s := typ.Underlying().(*types.Struct)
		for i := 0; i < s.NumFields(); i++ {
			ef.classes["f:"+structTypeName(typ)+"."+s.Field(i).Name()] = true
			e.addStructClasses(ef, s.Field(i).Type())
		}
	}
}

func staticMapClass(m ssa.Value) string {
	if u, ok := m.(*ssa.UnOp); ok && u.Op == token.MUL {
		switch a := u.X.(type) {
		case *ssa.FieldAddr:
			pt := a.X.Type().Underlying().(*types.Pointer).Elem()
			return "m:" + structTypeName(pt) + "." + pt.Underlying().(*types.Struct).Field(a.Field).Name()
		case *ssa.Global:
			return "m:" + globalName(a)
		}
	}
	return "M:" + m.Type().String()
}

// mapEffect: the contents of map m are written.
func mapEffect(m ssa.Value, ef *effects) {
	if mm, ok := m.(*ssa.MakeMap); ok {
		ef.allocs[mm] = true
		return
	}
	ef.classes[staticMapClass(m)] = true
}

func (e *Engine) instrEffects(ins ssa.Instruction, ef *effects, seen map[*ssa.Function]bool) {
	switch x := ins.(type) {
	case *ssa.Store:
		c, root := e.staticClass(x.Addr)
		if root != nil {
			ef.allocs[root] = true
		}
		if c != "alloc" && c != "free" {
			ef.classes[c] = true
		}
		e.addStructClasses(ef, x.Val.Type())
	case *ssa.MapUpdate:
		mapEffect(x.Map, ef)
	case *ssa.Call:
		e.callEffects(&x.Call, ef, seen)
	case *ssa.Defer:
		e.callEffects(&x.Call, ef, seen)
	case *ssa.Go:
		e.callEffects(&x.Call, ef, seen)
	case *ssa.Select, *ssa.Send:
	}
}

func (e *Engine) callEffects(c *ssa.CallCommon, ef *effects, seen map[*ssa.Function]bool) {
	if b, ok := c.Value.(*ssa.Builtin); ok {
		switch b.Name() {
		case "delete":
			mapEffect(c.Args[0], ef)
		case "copy", "append":
			if s, ok := c.Args[0].Type().Underlying().(*types.Slice); ok {
				ef.classes["e:"+types.TypeString(s.Elem(), nil)] = true
				e.addStructClasses(ef, s.Elem())
			}
		}
		return
	}
	// closures passed or called
	for _, a := range append([]ssa.Value{c.Value}, c.Args...) {
		if mc, ok := a.(*ssa.MakeClosure); ok {
			sub := e.fnEffects(mc.Fn.(*ssa.Function), seen)
			mergeEffects(ef, sub)
			for i, fv := range mc.Fn.(*ssa.Function).FreeVars {
				if sub.allocs[fv] {
					ef.allocs[mc.Bindings[i]] = true
				}
			}
		}
	}
	fn := c.StaticCallee()
	if fn != nil && len(fn.Blocks) > 0 && inModule(fn) {
		sub := e.fnEffects(fn, seen)
		mergeEffects(ef, sub)
		// a pointer to a local passed to a callee that writes through it
		for i, a := range c.Args {
			if i < len(fn.Params) {
				if _, ok := a.Type().Underlying().(*types.Pointer); ok {
					if _, r := e.staticClass(a); r != nil {
						ef.allocs[r] = true
					}
				}
			}
		}
		return
	}
	if fn == nil {
		if c.IsInvoke() || true {
			// unknown code: closure values held in locals of this module are
			// analysed where they are created; treat as arbitrary effect
			if mc := closureOf(c.Value); mc != nil {
				sub := e.fnEffects(mc.Fn.(*ssa.Function), seen)
				mergeEffects(ef, sub)
				for i, fv := range mc.Fn.(*ssa.Function).FreeVars {
					if sub.allocs[fv] {
						ef.allocs[mc.Bindings[i]] = true
					}
				}
				return
			}
			if c.IsInvoke() && quietInvoke(c) {
				return
			}
			ef.all = true
		}
		return
	}
	// external function: writes through its arguments
	name := fn.String()
	if strings.HasPrefix(name, "(*sync.") {
		if strings.HasSuffix(name, "Lock") {
			if k := staticLockKey(e, c.Args[0]); k != "" {
				ef.locks[k] = true
			}
		}
		return
	}
	if quietFn(name) {
		return
	}
	for _, a := range c.Args {
		v := a
		for {
			if mi, ok := v.(*ssa.MakeInterface); ok {
				v = mi.X
				continue
			}
			if ct, ok := v.(*ssa.ChangeType); ok {
				v = ct.X
				continue
			}
			break
		}
		switch u := v.Type().Underlying().(type) {
		case *types.Slice:
			ef.classes["e:"+types.TypeString(u.Elem(), nil)] = true
			e.addStructClasses(ef, u.Elem())
		case *types.Map:
			mapEffect(v, ef)
		case *types.Pointer:
			c, r := e.staticClass(v)
			if r != nil {
				ef.allocs[r] = true
			}
			if c != "alloc" && c != "free" {
				ef.classes[c] = true
			}
			e.addStructClasses(ef, u.Elem())
		}
	}
}

func closureOf(v ssa.Value) *ssa.MakeClosure {
	switch x := v.(type) {
	case *ssa.MakeClosure:
		return x
	case *ssa.UnOp:
		// closure stored in a local once
		if a, ok := x.X.(*ssa.Alloc); ok {
			var mc *ssa.MakeClosure
			for _, r := range *a.Referrers() {
				if s, ok := r.(*ssa.Store); ok && s.Addr == a {
					m, ok := s.Val.(*ssa.MakeClosure)
					if !ok || mc != nil {
						return nil
					}
					mc = m
				}
			}
			return mc
		}
	}
	return nil
}

func quietInvoke(c *ssa.CallCommon) bool {
	n := c.Method.Name()
	return n == "Error" || n == "String"
}

func staticLockKey(e *Engine, v ssa.Value) string {
	switch a := v.(type) {
	case *ssa.FieldAddr:
		pt := a.X.Type().Underlying().(*types.Pointer).Elem()
		f := pt.Underlying().(*types.Struct).Field(a.Field)
		if f.Embedded() {
			return structTypeName(pt)
		}
		return structTypeName(pt) + "." + f.Name()
	case *ssa.Global:
		return globalName(a)
	}
	return ""
}

func mergeEffects(a, b *effects) {
	for c := range b.classes {
		a.classes[c] = true
	}
	for c := range b.locks {
		a.locks[c] = true
	}
	for v := range b.allocs {
		if _, ok := v.(*ssa.FreeVar); !ok {
			a.allocs[v] = true
		}
	}
	a.all = a.all || b.all
}

func (e *Engine) fnEffects(fn *ssa.Function, seen map[*ssa.Function]bool) *effects {
	if ef, ok := e.effs[fn]; ok {
		return ef
	}
	if seen[fn] {
		return newEffects()
	}
	seen[fn] = true
	ef := newEffects()
	for _, b := range fn.Blocks {
		for _, ins := range b.Instrs {
			if s, ok := ins.(*ssa.Store); ok {
				// private memory of the callee
				if _, root := e.staticClass(s.Addr); root != nil {
					if a, ok := root.(*ssa.Alloc); ok && !e.leaks(a) {
						continue
					}
				}
			}
			e.instrEffects(ins, ef, seen)
		}
	}
	delete(seen, fn)
	if len(seen) == 0 {
		e.effs[fn] = ef
	}
	return ef
}

// ---- running

// Run explores every path of the roots until the inferred invariants are
// stable, then leaves the reports of the last pass.
func (e *Engine) Run(roots []*ssa.Function, setup func(st *State, fn *ssa.Function)) {
	e.RunWith(func() []*State {
		var sts []*State
		for _, fn := range roots {
			st := e.newState(fn, nil)
			if setup != nil {
				setup(st, fn)
			}
			sts = append(sts, st)
		}
		return sts
	})
}

func (e *Engine) RunWith(mkStates func() []*State) {
	for e.pass = 0; ; e.pass++ {
		e.reports = map[string]*Report{}
		e.changed = false
		e.cur = newTables()
		e.seen = map[string]bool{}
		e.Paths, e.Steps = 0, 0
		e.Undecided = nil
		if e.PassStart != nil {
			e.PassStart()
		}
		for _, st := range mkStates() {
			e.work = append(e.work, st)
			e.drain()
		}
		if !tablesEqual(e.prev, e.cur) || e.PassEnd != nil && !e.PassEnd() {
			e.changed = true
		}
		e.prev = e.cur
		if !e.changed {
			break
		}
		if e.pass >= e.MaxPass {
			e.Undecided = append(e.Undecided, "loop invariants did not stabilise")
			break
		}
	}
}

func (e *Engine) drain() {
	for len(e.work) > 0 {
		st := e.work[len(e.work)-1]
		e.work = e.work[:len(e.work)-1]
		e.runPath(st)
		e.Paths++
		if e.Paths > e.MaxPath {
			e.Undecided = append(e.Undecided, "path budget exhausted")
			e.work = nil
			return
		}
	}
}

func factsEqual(a, b map[*Term]bool) bool {
	if len(a) != len(b) || (a == nil) != (b == nil) {
		return false
	}
	for k, v := range a {
		if w, ok := b[k]; !ok || w != v {
			return false
		}
	}
	return true
}

func tablesEqual(a, b *tables) bool {
	if len(a.phiIn) != len(b.phiIn) || len(a.appends) != len(b.appends) || len(a.elemSt) != len(b.elemSt) ||
		len(a.mapKeys) != len(b.mapKeys) || len(a.loopBack) != len(b.loopBack) {
		return false
	}
	for k, v := range a.phiIn {
		if !factsEqual(v, b.phiIn[k]) {
			return false
		}
	}
	for k, v := range a.appends {
		w := b.appends[k]
		if len(v) != len(w) {
			return false
		}
		for i := range v {
			if !factsEqual(v[i], w[i]) {
				return false
			}
		}
	}
	for k, v := range a.elemSt {
		if !factsEqual(v, b.elemSt[k]) {
			return false
		}
	}
	for k, v := range a.mapKeys {
		if !factsEqual(v, b.mapKeys[k]) {
			return false
		}
	}
	for k, v := range a.loopBack {
		if !factsEqual(v, b.loopBack[k]) {
			return false
		}
	}
	for k, v := range a.steps {
		for p, s := range v {
			if !factsEqual(s, b.steps[k][p]) {
				return false
			}
		}
	}
	return true
}

func (e *Engine) newState(fn *ssa.Function, args []*Term) *State {
	st := &State{e: e, mem: map[*Term]*Term{}, ver: map[string]string{}, guardVer: map[string]string{}, allVer: "0",
		facts: map[*Term]bool{}, escaped: map[*Term]bool{}}
	f := &Frame{fn: fn, block: fn.Blocks[0], env: map[ssa.Value]*Term{}, ctx: fnName(fn), loops: map[*ssa.BasicBlock]*loopEntry{}}
	for i, p := range fn.Params {
		if args != nil && args[i] != nil {
			f.env[p] = args[i]
		} else {
			f.env[p] = mk(OpParam, p.Type(), fnName(fn)+"."+p.Name())
		}
		f.args = append(f.args, f.env[p])
	}
	for _, p := range fn.FreeVars {
		f.env[p] = mk(OpParam, p.Type(), fnName(fn)+".free."+p.Name())
	}
	st.stack = []*Frame{f}
	e.Fns[fnName(fn)] = true
	if e.Hooks.Enter != nil {
		e.Hooks.Enter(st, fn, f.args)
	}
	return st
}

func (st *State) val(v ssa.Value) *Term {
	switch x := v.(type) {
	case *ssa.Const:
		if x.Value == nil {
			return zeroOf(x.Type())
		}
		return mkConst(x.Value, x.Type())
	case *ssa.Global:
		return mk(OpGlobal, x.Type(), globalName(x))
	case *ssa.Function:
		t := mk(OpFunc, x.Type(), x.String())
		t.obj = x
		return t
	case *ssa.Builtin:
		return mk(OpBuiltin, x.Type(), x.Name())
	}
	f := st.top()
	if t, ok := f.env[v]; ok {
		return t
	}
	return mk(OpHavoc, v.Type(), "undef:"+f.ctx+":"+v.Name())
}

func (e *Engine) runPath(st *State) {
	for {
		f := st.top()
		if f.pc >= len(f.block.Instrs) {
			return
		}
		ins := f.block.Instrs[f.pc]
		e.Steps++
		if !e.step(st, ins) || st.stop {
			return
		}
	}
}

func (e *Engine) push(st *State) { e.work = append(e.work, st) }

// jump moves the top frame to block b; false ends the path.
func (e *Engine) jump(st *State, b *ssa.BasicBlock) bool {
	f := st.top()
	from := f.block
	li := e.loopsIn(f.fn)
	// phi values
	idx := -1
	for i, p := range b.Preds {
		if p == from {
			idx = i
		}
	}
	var phis []*ssa.Phi
	var vals []*Term
	for _, ins := range b.Instrs {
		p, ok := ins.(*ssa.Phi)
		if !ok {
			break
		}
		phis = append(phis, p)
		vals = append(vals, st.val(p.Edges[idx]))
	}
	f.prev, f.block, f.pc = from, b, len(phis)
	// leaving loops
	for h := range f.loops {
		if !li.body[h][b] {
			delete(f.loops, h)
		}
	}
	if body := li.body[b]; body != nil {
		if body[from] {
			return e.backedge(st, f, b, phis, vals)
		}
		return e.enterLoop(st, f, b, phis, vals)
	}
	for i, p := range phis {
		f.env[p] = vals[i]
	}
	if len(b.Preds) > 1 {
		return !e.dup(st)
	}
	return true
}

// dup prunes a path that reaches a join in a state already explored.
func (e *Engine) dup(st *State) bool {
	if e.Coarse {
		e.coarsen(st)
	}
	k := st.key()
	if e.seen[k] {
		return true
	}
	e.seen[k] = true
	return false
}

// coarsen drops (soundly: facts and remembered contents of shared memory are
// only ever lost) what distinguishes paths without mattering later on.
func (e *Engine) coarsen(st *State) {
	keep := map[*Term]bool{}
	for _, f := range st.stack {
		for _, v := range e.live(f) {
			if t, ok := f.env[v]; ok {
				for t.op == OpNot {
					t = t.args[0]
				}
				keep[t] = true
			}
		}
	}
	for t := range st.facts {
		if keep[t] {
			continue
		}
		fixed := true
		visit(t, func(x *Term) {
			switch x.op {
			case OpParam, OpConst, OpEq, OpLt, OpNot, OpFieldAddr, OpField, OpLen:
			case OpLoad:
				fixed = fixed && x.aux == "stable"
			default:
				fixed = false
			}
		})
		if !fixed {
			delete(st.facts, t)
		}
	}
	st.forall = nil
	for l := range st.mem {
		if r := rootOf(l); !isLocalRoot(r) || st.escaped[r] {
			delete(st.mem, l)
		}
	}
}

func (st *State) key() string {
	var b strings.Builder
	for _, f := range st.stack {
		fmt.Fprintf(&b, "%s:%d:%d|", f.ctx, f.block.Index, f.pc)
		live := st.e.live(f)
		for _, v := range live {
			if t, ok := f.env[v]; ok {
				fmt.Fprintf(&b, "%d,", t.id)
			}
		}
		fmt.Fprintf(&b, "d%d", len(f.defers))
		for h, l := range f.loops {
			fmt.Fprintf(&b, "h%d:%p", h.Index, l)
		}
	}
	b.WriteString(st.heldKeys())
	if st.client != nil {
		b.WriteString(st.client.Key())
	}
	var ids []int
	for t, v := range st.facts {
		n := t.id * 2
		if v {
			n++
		}
		ids = append(ids, n)
	}
	sort.Ints(ids)
	fmt.Fprint(&b, ids)
	ids = ids[:0]
	for l, v := range st.mem {
		ids = append(ids, l.id*1000003+v.id)
	}
	sort.Ints(ids)
	fmt.Fprint(&b, ids)
	for _, fa := range st.forall {
		fmt.Fprintf(&b, "%p,", fa)
	}
	b.WriteString(st.allVer)
	var vs []string
	for c, v := range st.ver {
		vs = append(vs, c+"="+v)
	}
	for c, v := range st.guardVer {
		vs = append(vs, "g:"+c+"="+v)
	}
	sort.Strings(vs)
	for _, v := range vs {
		b.WriteString(v)
	}
	return b.String()
}

// live: the values of the frame that later instructions may still use, in a
// fixed order.
func (e *Engine) live(f *Frame) []ssa.Value {
	return e.liveAt(f.block, f.pc)
}

type livePoint struct {
	b  *ssa.BasicBlock
	pc int
}

func (e *Engine) liveAt(b *ssa.BasicBlock, pc int) []ssa.Value {
	k := livePoint{b, pc}
	if l, ok := e.liveTab[k]; ok {
		return l
	}
	out := e.liveOut(b.Parent())[b]
	set := cloneMap(out)
	for i := len(b.Instrs) - 1; i >= pc; i-- {
		ins := b.Instrs[i]
		if v, ok := ins.(ssa.Value); ok {
			delete(set, v)
		}
		if _, ok := ins.(*ssa.Phi); ok {
			continue
		}
		addOperands(ins, set)
	}
	vs := make([]ssa.Value, 0, len(set))
	for v := range set {
		vs = append(vs, v)
	}
	sort.Slice(vs, func(i, j int) bool { return vs[i].Name() < vs[j].Name() })
	e.liveTab[k] = vs
	return vs
}

func addOperands(ins ssa.Instruction, set map[ssa.Value]bool) {
	var ops [16]*ssa.Value
	for _, o := range ins.Operands(ops[:0]) {
		if *o == nil {
			continue
		}
		switch (*o).(type) {
		case *ssa.Parameter, *ssa.FreeVar, ssa.Instruction:
			set[*o] = true
		}
	}
}

func (e *Engine) liveOut(fn *ssa.Function) map[*ssa.BasicBlock]map[ssa.Value]bool {
	if l, ok := e.liveFn[fn]; ok {
		return l
	}
	out := map[*ssa.BasicBlock]map[ssa.Value]bool{}
	inn := map[*ssa.BasicBlock]map[ssa.Value]bool{}
	for _, b := range fn.Blocks {
		out[b], inn[b] = map[ssa.Value]bool{}, map[ssa.Value]bool{}
	}
	for ch := true; ch; {
		ch = false
		for i := len(fn.Blocks) - 1; i >= 0; i-- {
			b := fn.Blocks[i]
			o := out[b]
			n0 := len(o)
			for _, s := range b.Succs {
				for v := range inn[s] {
					o[v] = true
				}
				for pi, p := range s.Preds {
					if p != b {
						continue
					}
					for _, ins := range s.Instrs {
						ph, ok := ins.(*ssa.Phi)
						if !ok {
							break
						}
						switch ph.Edges[pi].(type) {
						case *ssa.Parameter, *ssa.FreeVar, ssa.Instruction:
							o[ph.Edges[pi]] = true
						}
					}
				}
			}
			set := cloneMap(o)
			for j := len(b.Instrs) - 1; j >= 0; j-- {
				ins := b.Instrs[j]
				if v, ok := ins.(ssa.Value); ok {
					delete(set, v)
				}
				if _, ok := ins.(*ssa.Phi); ok {
					continue
				}
				addOperands(ins, set)
			}
			if len(set) != len(inn[b]) || len(o) != n0 {
				ch = true
			}
			inn[b] = set
		}
	}
	e.liveFn[fn] = out
	return out
}

func (e *Engine) loopKey(f *Frame, h *ssa.BasicBlock) string { return f.ctx + "|" + itoa(h.Index) }

func (e *Engine) enterLoop(st *State, f *Frame, h *ssa.BasicBlock, phis []*ssa.Phi, vals []*Term) bool {
	if e.Coarse {
		e.coarsen(st)
	}
	key := e.loopKey(f, h)
	ent := &loopEntry{seen: map[string]bool{}, phis: map[*ssa.Phi]*Term{}, inits: map[*ssa.Phi]*Term{}}
	m := map[*Term]*Term{}
	for i, p := range phis {
		name := p.Comment
		if name == "" {
			name = p.Name()
		}
		t := mk(OpPhi, p.Type(), f.ctx+"|"+itoa(h.Index)+"|"+p.Name()+"/"+name)
		t.obj = p
		ent.phis[p], ent.inits[p] = t, vals[i]
		m[t] = vals[i]
		e.phiIncoming(t, vals[i])
	}
	if e.LoopPre != nil {
		var pts []*Term
		for _, p := range phis {
			pts = append(pts, ent.phis[p])
		}
		e.LoopPre(st, f, h, pts, vals)
	}
	// effects of the body
	ef := newEffects()
	for b := range e.loopsIn(f.fn).body[h] {
		for _, ins := range b.Instrs {
			e.instrEffects(ins, ef, map[*ssa.Function]bool{})
		}
	}
	id := f.ctx + "@loop" + itoa(h.Index)
	cells := e.constCells(st)
	e.applyEffects(st, f, ef, id)
	for l, v := range cells {
		if _, left := st.mem[l]; !left && !e.deadCells[key+itoa(l.id)] {
			st.mem[l] = v
			if ent.cells == nil {
				ent.cells = map[*Term]*Term{}
			}
			ent.cells[l] = v
		}
	}

	// candidate invariants, per set of outer bounds the counters are compared with
	cs, bounds := e.candidates(st, f, h, phis, vals, ent)
	ent.tab = key + "#" + bounds
	tab := e.loops[ent.tab]
	if tab == nil {
		if e.tabCount[key] >= 12 {
			ent.tab = key
			tab = e.loops[key]
		} else {
			e.tabCount[key]++
		}
		if tab == nil {
			tab = &loopTab{cands: map[*Term]bool{}}
			e.loops[ent.tab] = tab
		}
	}
	if !tab.seeded {
		tab.seeded = true
		for _, c := range cs {
			if _, dup := tab.cands[c.atom]; !dup && st.holds(subst(c.atom, m), c.val) {
				tab.cands[c.atom] = c.val
			}
		}
	}
	for c, v := range tab.cands {
		if !st.holds(subst(c, m), v) {
			delete(tab.cands, c)
			e.changed = true
		}
	}
	for _, p := range phis {
		f.env[p] = ent.phis[p]
	}
	for c, v := range tab.cands {
		st.facts[c] = v
	}
	if bf := e.prev.loopBack[key]; bf != nil {
		fa := &ForAll{ctx: key, facts: bf}
		for _, p := range phis {
			fa.phi = append(fa.phi, ent.phis[p])
			fa.init = append(fa.init, ent.inits[p])
			var step *Term
			if s := e.prev.steps[key][ent.phis[p]]; len(s) == 1 {
				for x := range s {
					step = x
				}
			}
			fa.step = append(fa.step, step)
		}
		st.forall = append(st.forall, fa)
	}
	f.loops = cloneMap(f.loops)
	f.loops[h] = ent
	if e.LoopEnter != nil {
		e.LoopEnter(st, f, h)
	}
	ck := st.heldKeys()
	if st.client != nil {
		ck += "|" + st.client.Key()
	}
	ent.seen[ck] = true
	ent.snapshot = st.clone()
	return true
}

func (e *Engine) phiIncoming(phi, v *Term) {
	if v == phi {
		return
	}
	s := e.cur.phiIn[phi]
	if s == nil {
		s = map[*Term]bool{}
		e.cur.phiIn[phi] = s
	}
	s[v] = true
}

// constCells: integers at constant places of private slices and arrays.
func (e *Engine) constCells(st *State) map[*Term]*Term {
	if !e.KeepCells {
		return nil
	}
	out := map[*Term]*Term{}
	for l, v := range st.mem {
		if l.op != OpIndexAddr || v.typ == nil || !isIntType(v.typ) {
			continue
		}
		if _, ok := l.args[1].intVal(); ok && isLocalRoot(rootOf(l)) && !st.escaped[rootOf(l)] {
			out[l] = v
		}
	}
	return out
}

// untouched: a module function that is not looked into does not write to
// the private object r.
func (e *Engine) untouched(st *State, ci *CallInfo, r *Term) bool {
	for _, v := range st.mem {
		if holds(v, r) {
			return false
		}
	}
	if ci.Call == nil || len(ci.Args) != len(ci.Fn.Params) || len(ci.Fn.FreeVars) > 0 {
		return false
	}
	for i, a := range ci.Args {
		if !contains(a, r) {
			continue
		}
		if rootOf(a) != r || writesParam(ci.Fn.Params[i], 4) {
			return false
		}
	}
	return true
}

// holds: the value may give access to the object r.
func holds(v, r *Term) bool {
	if v == r {
		return true
	}
	if v.op == OpLoad || v.op == OpLen {
		return false // what is read out of r is not r
	}
	if v.typ != nil {
		if _, basic := v.typ.Underlying().(*types.Basic); basic {
			return false
		}
	}
	for _, a := range v.args {
		if a != nil && holds(a, r) {
			return true
		}
	}
	return false
}

// writesParam: the function of a slice parameter may write its elements, or keep or pass it on.
func writesParam(p ssa.Value, depth int) bool {
	if depth == 0 {
		return true
	}
	if s, ok := p.Type().Underlying().(*types.Slice); !ok || !isIntType(s.Elem()) {
		return true
	}
	vals, vars := map[ssa.Value]bool{}, map[ssa.Value]bool{}
	bad := false
	var val, hold func(v ssa.Value)
	val = func(v ssa.Value) {
		if vals[v] {
			return
		}
		vals[v] = true
		for _, r := range *v.Referrers() {
			switch x := r.(type) {
			case *ssa.Phi, *ssa.Slice, *ssa.ChangeType:
				val(x.(ssa.Value))
			case *ssa.DebugRef, *ssa.Range:
			case *ssa.IndexAddr:
				for _, y := range *x.Referrers() {
					if u, ok := y.(*ssa.UnOp); !ok || u.Op != token.MUL {
						bad = true
					}
				}
			case *ssa.Store:
				if a, ok := x.Addr.(*ssa.Alloc); ok && x.Val == v {
					hold(a)
				} else {
					bad = true
				}
			case *ssa.Call:
				if b, ok := x.Call.Value.(*ssa.Builtin); ok {
					switch b.Name() {
					case "len", "cap":
						continue
					case "append", "copy":
						if x.Call.Args[0] != v {
							continue
						}
					}
					bad = true
					continue
				}
				g := x.Call.StaticCallee()
				if g == nil || !inModule(g) || len(g.Blocks) == 0 || len(g.FreeVars) > 0 {
					bad = true
					continue
				}
				for i, a := range x.Call.Args {
					if a == v && writesParam(g.Params[i], depth-1) {
						bad = true
					}
				}
			default:
				bad = true
			}
		}
	}
	hold = func(a ssa.Value) {
		if vars[a] {
			return
		}
		vars[a] = true
		for _, r := range *a.Referrers() {
			switch x := r.(type) {
			case *ssa.Store:
				if x.Addr != a {
					bad = true
				}
			case *ssa.UnOp:
				val(x)
			case *ssa.DebugRef:
			case *ssa.MakeClosure:
				for i, b := range x.Bindings {
					if b == a {
						hold(x.Fn.(*ssa.Function).FreeVars[i])
					}
				}
			default:
				bad = true
			}
		}
	}
	val(p)
	return bad
}

func (e *Engine) applyEffects(st *State, f *Frame, ef *effects, id string) {
	if ef.all {
		st.havocAll(id)
	}
	for l := range ef.locks {
		st.havocGuard(l, id)
	}
	for c := range ef.classes {
		if strings.HasPrefix(c, "M:") {
			t := c[2:]
			for l := range st.mem {
				if l.op == OpMapCell && l.args[0].typ != nil && l.args[0].typ.String() == t {
					st.ver[mapClass(l.args[0])] = id
					delete(st.mem, l)
				}
			}
			// versions of every map class of this type: maps made locally
			st.ver["m:type:"+t] = id
			for v := range f.env {
				if _, ok := v.Type().Underlying().(*types.Map); ok && v.Type().String() == t {
					st.ver[mapClass(f.env[v])] = id
				}
			}
			continue
		}
		st.ver[c] = id
		for l := range st.mem {
			if st.classOf(l) != c {
				continue
			}
			r := rootOf(l)
			if isLocalRoot(r) && !st.escaped[r] {
				// private memory is only written through its own allocation
				if a, ok := r.obj.(*ssa.Alloc); ok && !e.leaks(a) && !ef.allocs[a] {
					continue
				}
			}
			delete(st.mem, l)
		}
	}
	for a := range ef.allocs {
		var root *Term
		if t, ok := f.env[a]; ok {
			root = rootOf(t)
			if root.op == OpMake {
				st.ver[mapClass(root)] = id
			}
		}
		for l := range st.mem {
			r := rootOf(l)
			if l.op == OpMapCell {
				r = l.args[0]
			}
			if r == root && root != nil || r.obj != nil && r.obj == a {
				delete(st.mem, l)
				st.ver[st.classOf(l)] = id
			}
		}
	}
}

// leaks reports whether the address of an allocation is used other than by
// direct loads, stores, field and element addressing.
func (e *Engine) leaks(a *ssa.Alloc) bool {
	var use func(v ssa.Value) bool
	use = func(v ssa.Value) bool {
		for _, r := range *v.Referrers() {
			switch x := r.(type) {
			case *ssa.Store:
				if x.Addr != v {
					return true
				}
			case *ssa.UnOp, *ssa.DebugRef:
			case *ssa.FieldAddr:
				if use(x) {
					return true
				}
			case *ssa.IndexAddr:
				if use(x) {
					return true
				}
			default:
				return true
			}
		}
		return false
	}
	return use(a)
}

type cand struct {
	atom *Term
	val  bool
}

func (e *Engine) candidates(st *State, f *Frame, h *ssa.BasicBlock, phis []*ssa.Phi, vals []*Term, ent *loopEntry) ([]cand, string) {
	var out []cand
	var bounds []string
	seenB := map[*Term]bool{}
	add := func(t *Term, v bool) {
		for t.op == OpNot {
			t, v = t.args[0], !v
		}
		if !t.isConst() {
			out = append(out, cand{t, v})
		}
	}
	var ints []*ssa.Phi
	for _, p := range phis {
		if isIntType(p.Type()) {
			ints = append(ints, p)
		}
	}
	for _, p := range ints {
		t, i := ent.phis[p], ent.inits[p]
		add(mkLt(t, i), false)
		add(mkLt(i, t), false)
		for _, q := range ints {
			if p != q {
				add(mkLt(ent.phis[q], t), false) // p <= q
				if d := mkSub(i, ent.inits[q]); d.isConst() && d != mkInt(0) {
					add(mkLt(mkAdd(ent.phis[q], d), t), false) // p - q does not grow
				}
			}
		}
	}
	// lengths that move with a counter
	for _, q := range phis {
		if _, ok := q.Type().Underlying().(*types.Slice); !ok {
			continue
		}
		lt, li := mkLen(ent.phis[q]), mkLen(ent.inits[q])
		add(mkLt(lt, li), false)
		add(mkLt(li, lt), false)
		for _, p := range ints {
			d := mkSub(li, ent.inits[p])
			if _, isC := d.intVal(); isC {
				x := mkAdd(ent.phis[p], d)
				add(mkLt(lt, x), false)
				add(mkLt(x, lt), false)
			}
		}
	}
	// upper bounds from conditions inside the loop that compare a counter
	li := e.loopsIn(f.fn)
	for b := range li.body[h] {
		for _, ins := range b.Instrs {
			bo, ok := ins.(*ssa.BinOp)
			if !ok {
				continue
			}
			switch bo.Op {
			case token.LSS, token.LEQ, token.GTR, token.GEQ, token.NEQ, token.EQL:
			default:
				continue
			}
			for _, pr := range [][2]ssa.Value{{bo.X, bo.Y}, {bo.Y, bo.X}} {
				if !isIntType(pr[0].Type()) {
					continue
				}
				bound := e.outerValue(st, f, h, pr[1])
				if bound == nil {
					continue
				}
				if !bound.isConst() && !seenB[bound] {
					seenB[bound] = true
					bounds = append(bounds, itoa(bound.id))
				}
				for _, p := range ints {
					t := ent.phis[p]
					add(mkLt(bound, t), false)                  // p <= bound
					add(mkLt(t, bound), true)                   // p < bound
					add(mkLt(mkAdd(bound, mkInt(1)), t), false) // p <= bound+1
					add(mkLt(t, bound), false)                  // p >= bound
					add(mkLt(t, mkSub(bound, mkInt(1))), false) // p >= bound-1
				}
			}
		}
	}
	// generalise facts that hold on entry
	for _, p := range phis {
		i := ent.inits[p]
		if i.isConst() {
			continue
		}
		for atom, v := range st.facts {
			if contains(atom, i) {
				add(subst(atom, map[*Term]*Term{i: ent.phis[p]}), v)
			}
		}
	}
	if e.Invariants != nil {
		for _, c := range e.Invariants(st, f, h, ent.phis) {
			add(c, true)
		}
	}
	sort.Strings(bounds)
	return out, strings.Join(bounds, ",")
}

// outerValue evaluates v if it does not depend on the loop (values defined
// before it, constants, len of such, and loads of unmodified fields).
func (e *Engine) outerValue(st *State, f *Frame, h *ssa.BasicBlock, v ssa.Value) *Term {
	body := e.loopsIn(f.fn).body[h]
	var ev func(v ssa.Value, d int) *Term
	ev = func(v ssa.Value, d int) *Term {
		if d > 6 {
			return nil
		}
		switch x := v.(type) {
		case *ssa.Const:
			return st.val(x)
		case *ssa.Parameter, *ssa.FreeVar, *ssa.Global:
			return st.val(x)
		case ssa.Instruction:
			if !body[x.Block()] {
				if t, ok := f.env[v]; ok {
					return t
				}
				return nil
			}
		}
		switch x := v.(type) {
		case *ssa.FieldAddr:
			if b := ev(x.X, d+1); b != nil {
				return mkFieldAddr(b, x.X.Type().Underlying().(*types.Pointer).Elem(), x.Field)
			}
		case *ssa.UnOp:
			if x.Op == token.MUL {
				if b := ev(x.X, d+1); b != nil && !expandStruct(x.Type()) {
					return st.load(b, x.Type())
				}
			}
		case *ssa.Call:
			if b, ok := x.Call.Value.(*ssa.Builtin); ok && b.Name() == "len" {
				if a := ev(x.Call.Args[0], d+1); a != nil {
					return mkLen(a)
				}
			}
		case *ssa.BinOp:
			a, b := ev(x.X, d+1), ev(x.Y, d+1)
			if a != nil && b != nil {
				switch x.Op {
				case token.ADD:
					return mkAdd(a, b)
				case token.SUB:
					return mkSub(a, b)
				}
			}
		}
		return nil
	}
	return ev(v, 0)
}

func (e *Engine) backedge(st *State, f *Frame, h *ssa.BasicBlock, phis []*ssa.Phi, vals []*Term) bool {
	key := e.loopKey(f, h)
	ent := f.loops[h]
	if ent == nil || e.loops[ent.tab] == nil {
		return false
	}
	tab := e.loops[ent.tab]
	m := map[*Term]*Term{}
	tracked := map[*Term]bool{}
	for i, p := range phis {
		t := ent.phis[p]
		m[t] = vals[i]
		tracked[t] = true
		e.phiIncoming(t, vals[i])
		if e.cur.steps[key] == nil {
			e.cur.steps[key] = map[*Term]map[*Term]bool{}
		}
		if e.cur.steps[key][t] == nil {
			e.cur.steps[key][t] = map[*Term]bool{}
		}
		e.cur.steps[key][t][vals[i]] = true
	}
	for c, v := range tab.cands {
		if !st.holds(subst(c, m), v) {
			delete(tab.cands, c)
			e.changed = true
		}
	}
	for l, v := range ent.cells {
		if w := st.load(l, v.typ); w != v && !st.proveEqInt(v, w) {
			if e.deadCells == nil {
				e.deadCells = map[string]bool{}
			}
			e.deadCells[key+itoa(l.id)] = true
			e.changed = true
		}
	}
	// facts of the finished iteration
	its := cloneMap(tracked)
	for t := range st.facts {
		visit(t, func(x *Term) {
			if (x.op == OpRangeKey || x.op == OpRangeVal) && strings.HasPrefix(x.aux, f.ctx+"|"+itoa(h.Index)+"|") {
				its[x] = true
			}
		})
	}
	bf := map[*Term]bool{}
	for t, v := range st.facts {
		if containsAny(t, its) {
			if _, isCand := tab.cands[t]; !isCand {
				bf[t] = v
			}
		}
	}
	if old, ok := e.cur.loopBack[key]; ok {
		for t, v := range old {
			if w, ok := bf[t]; !ok || w != v {
				delete(old, t)
			}
		}
	} else {
		e.cur.loopBack[key] = bf
	}
	if e.Backedge != nil {
		// phi symbols of the iteration are still in scope for the hook
		var pts []*Term
		for _, p := range phis {
			pts = append(pts, ent.phis[p])
		}
		e.Backedge(st, f, h, pts, vals)
	}
	ck := st.heldKeys()
	if st.client != nil {
		ck += "|" + st.client.Key()
	}
	if !ent.seen[ck] && len(ent.seen) < 12 {
		ent.seen[ck] = true
		n := ent.snapshot.clone()
		n.locks = append([]Held(nil), st.locks...)
		if st.client != nil {
			n.client = st.client.Clone()
		}
		n.top().loops[h] = ent
		e.push(n)
	} else if !ent.seen[ck] {
		e.Undecided = append(e.Undecided, "too many states around loop "+key)
	}
	return false
}

// ---- container webs

var hole = &Term{op: OpHole, aux: "_", id: -1}

func holeField(i int) *Term { return mk(OpHole, tInt, "."+itoa(i)) }

// templates collects the facts that mention an element, with the element abstracted.
func (st *State) templates(el *Term) map[*Term]bool {
	out := map[*Term]bool{}
	m := map[*Term]*Term{}
	h := mk(OpHole, tInt, "_")
	addDef := func(x, hh *Term) {
		switch x.op {
		case OpMapVal, OpLoad, OpField, OpParam, OpCall, OpExtract, OpRangeKey, OpRangeVal:
			out[mkEq(hh, x)] = true
		}
	}
	if el.op == OpStruct {
		for i, a := range el.args {
			if a.op != OpConst && m[a] == nil {
				m[a] = holeField(i)
				addDef(a, holeField(i))
			}
		}
	} else if el.op != OpConst {
		m[el] = h
		addDef(el, h)
	}
	keys := map[*Term]bool{}
	for k := range m {
		keys[k] = true
	}
	if len(keys) == 0 {
		return out
	}
	for atom, v := range st.facts {
		if containsAny(atom, keys) {
			out[subst(atom, m)] = v
		}
	}
	return out
}

func meet(a, b map[*Term]bool) map[*Term]bool {
	if a == nil {
		return b
	}
	for t, v := range a {
		if w, ok := b[t]; !ok || w != v {
			delete(a, t)
		}
	}
	return a
}

func (st *State) recordAppend(res *Term, elems []*Term) {
	cur := st.e.cur.appends
	var ts []map[*Term]bool
	for _, el := range elems {
		ts = append(ts, st.templates(el))
	}
	if old, ok := cur[res]; ok {
		for i := range ts {
			old[i] = meet(old[i], ts[i])
		}
		return
	}
	cur[res] = ts
}

func (st *State) recordElemStore(base, val *Term) {
	c := st.e.cur.elemSt
	if old, ok := c[base]; ok {
		c[base] = meet(old, st.templates(val))
	} else {
		c[base] = st.templates(val)
	}
}

func (st *State) recordMapKey(m, k *Term) {
	c := st.e.cur.mapKeys
	if old, ok := c[m]; ok {
		c[m] = meet(old, st.templates(k))
	} else {
		c[m] = st.templates(k)
	}
}

// elemFacts returns the facts every element of the slice satisfies; top
// means there are no elements (or only ones already accounted for).
func (e *Engine) elemFacts(s *Term, seen map[*Term]bool) (facts map[*Term]bool, top bool) {
	if seen[s] {
		return nil, true
	}
	seen[s] = true
	switch s.op {
	case OpConst:
		return nil, true
	case OpMake:
		if f, ok := e.prev.elemSt[s]; ok {
			return cloneMap(f), false
		}
		if n, ok := mkLen(s).intVal(); ok && n == 0 {
			return nil, true
		}
		return map[*Term]bool{}, false
	case OpSlice, OpConvert:
		if n, ok := mkLen(s).intVal(); ok && n == 0 {
			return nil, true
		}
		if s.args[0].op == OpAlloc {
			return map[*Term]bool{}, false
		}
		return e.elemFacts(s.args[0], seen)
	case OpAppend:
		f, top := e.elemFacts(s.args[0], seen)
		for _, t := range e.prev.appends[s] {
			if top {
				f, top = cloneMap(t), false
			} else {
				f = meet(f, t)
			}
		}
		if _, ok := e.prev.appends[s]; !ok {
			return map[*Term]bool{}, false
		}
		return f, top
	case OpAppendAll:
		f, top := e.elemFacts(s.args[0], seen)
		g, top2 := e.elemFacts(s.args[1], seen)
		if top {
			return g, top2
		}
		if top2 {
			return f, top
		}
		return meet(f, g), false
	case OpPhi:
		var f map[*Term]bool
		top := true
		ins, ok := e.prev.phiIn[s]
		if !ok {
			return map[*Term]bool{}, false
		}
		for x := range ins {
			g, t := e.elemFacts(x, seen)
			if t {
				continue
			}
			if top {
				f, top = g, false
			} else {
				f = meet(f, g)
			}
		}
		return f, top
	}
	return map[*Term]bool{}, false
}

func (e *Engine) instantiateElem(st *State, s, el *Term) {
	f, top := e.elemFacts(s, map[*Term]bool{})
	if top || len(f) == 0 {
		return
	}
	m := map[*Term]*Term{mk(OpHole, tInt, "_"): el}
	for t, v := range f {
		if st.varies(t) {
			continue
		}
		a := subst(t, m)
		if !hasHole(a) {
			st.addFact(a, v)
		}
	}
}

// instantiateElemField gives the facts of field i of a struct element.
func (e *Engine) instantiateElemField(st *State, s *Term, fields []*Term) {
	f, top := e.elemFacts(s, map[*Term]bool{})
	if top || len(f) == 0 {
		return
	}
	m := map[*Term]*Term{}
	for i, x := range fields {
		m[holeField(i)] = x
	}
	for t, v := range f {
		if st.varies(t) {
			continue
		}
		a := subst(t, m)
		if !hasHole(a) {
			st.addFact(a, v)
		}
	}
}

// varies: the term may have another value in an earlier iteration of a loop
// the path is in.
func (st *State) varies(t *Term) bool {
	r := false
	visit(t, func(x *Term) {
		if r {
			return
		}
		switch x.op {
		case OpPhi, OpLoad, OpMapVal, OpMapOk:
		case OpCall, OpAlloc, OpMake, OpRecv, OpRangeKey, OpRangeVal:
			if ins, ok := x.obj.(ssa.Instruction); ok && ins.Parent() != nil {
				for _, f := range st.stack {
					if f.fn == ins.Parent() {
						for h := range f.loops {
							r = r || st.e.loopsIn(f.fn).body[h][ins.Block()]
						}
					}
				}
			}
			return
		default:
			return
		}
		for _, f := range st.stack {
			for h, l := range f.loops {
				if x.op != OpPhi {
					r = r || x.aux == f.ctx+"@loop"+itoa(h.Index)
					continue
				}
				for _, p := range l.phis {
					r = r || p == x
				}
			}
		}
	})
	return r
}

func hasHole(t *Term) bool {
	r := false
	visit(t, func(x *Term) {
		if x.op == OpHole {
			r = true
		}
	})
	return r
}

func (st *State) addFact(a *Term, v bool) {
	for a.op == OpNot {
		a, v = a.args[0], !v
	}
	if a.isConst() {
		return
	}
	if _, ok := st.facts[a]; !ok {
		st.facts[a] = v
	}
}

func (e *Engine) mapKeyFacts(st *State, m, k *Term) {
	f, ok := e.prev.mapKeys[m]
	if !ok {
		return
	}
	sm := map[*Term]*Term{mk(OpHole, tInt, "_"): k}
	for t, v := range f {
		if st.varies(t) {
			continue
		}
		a := subst(t, sm)
		if !hasHole(a) {
			st.addFact(a, v)
		}
	}
}

// ---- instructions

func (e *Engine) bind(st *State, ins ssa.Instruction, v *Term) {
	if val, ok := ins.(ssa.Value); ok {
		st.top().env[val] = v
	}
}

func (e *Engine) fork(st *State, cond *Term, ins ssa.Instruction, then func(st *State, v bool) bool) bool {
	if v, ok := st.eval(cond); ok {
		if e.Hooks.Branch != nil {
			e.Hooks.Branch(st, cond, v, ins)
		}
		return then(st, v)
	}
	o := st.clone()
	if o.assume(cond, false) {
		o.note(insPos(ins), "not "+cond.String())
		if e.Hooks.Branch != nil {
			e.Hooks.Branch(o, cond, false, ins)
		}
		if then(o, false) {
			e.push(o)
		}
	}
	if !st.assume(cond, true) {
		return false
	}
	st.note(insPos(ins), cond.String())
	if e.Hooks.Branch != nil {
		e.Hooks.Branch(st, cond, true, ins)
	}
	return then(st, true)
}

// intMax stands for the largest int, whatever its width.
func intMax() *Term { return mk(OpParam, tInt, "maxint") }
func intMin() *Term { return mkSub(mkInt(-1), intMax()) }

// wrap gives the sum or difference of machine integers: the exact result if it
// is representable, otherwise a value of the opposite sign.
func (e *Engine) wrap(st *State, x *ssa.BinOp, a, b, r *Term) bool {
	st.addFact(mkLt(intMax(), mkInt(1<<31-1)), false)
	for _, t := range []*Term{a, b} {
		st.intRange(t)
		visit(t, func(u *Term) {
			if u.typ != nil && isIntType(u.typ) && u.op != OpConst {
				switch u.op {
				case OpLoad, OpField, OpLen, OpParam, OpPhi, OpHavoc:
					st.intRange(u)
				}
			}
		})
	}
	return e.fork(st, mkLt(intMax(), r), x, func(s *State, over bool) bool {
		if over {
			w := mk(OpArith, x.Type(), "wrapped"+x.Op.String(), a, b)
			s.addFact(mkLt(w, mkInt(0)), true)
			e.bind(s, x, w)
			return true
		}
		return e.fork(s, mkLt(r, intMin()), x, func(s *State, under bool) bool {
			if under {
				w := mk(OpArith, x.Type(), "wrapped"+x.Op.String(), a, b)
				s.addFact(mkLt(w, mkInt(0)), false)
				e.bind(s, x, w)
			} else {
				e.bind(s, x, r)
			}
			return true
		})
	})
}

func (st *State) intRange(t *Term) {
	if t == intMax() {
		return
	}
	st.addFact(mkLt(intMax(), t), false)
	st.addFact(mkLt(t, intMin()), false)
}

func (e *Engine) step(st *State, ins ssa.Instruction) bool {
	f := st.top()
	f.pc++
	switch x := ins.(type) {
	case *ssa.Phi, *ssa.DebugRef:
	case *ssa.Alloc:
		t := mk(OpAlloc, x.Type(), f.ctx+"@"+e.instrID(x)+"/"+x.Comment)
		t.obj = x
		// fresh object: forget the previous instance of this site
		for l := range st.mem {
			if rootOf(l) == t {
				delete(st.mem, l)
			}
		}
		delete(st.escaped, t)
		if e.Hooks.Alloc != nil {
			e.Hooks.Alloc(st, t, x)
		}
		el := x.Type().Underlying().(*types.Pointer).Elem()
		if _, isArr := el.Underlying().(*types.Array); !isArr {
			st.store(t, zeroOf(el), el, x)
		}
		e.bind(st, x, t)
	case *ssa.BinOp:
		a, b := st.val(x.X), st.val(x.Y)
		r := e.binop(st, x.Op, a, b, x.Type(), x.X.Type())
		if e.Arith != nil {
			e.Arith(st, x.Op, a, b, r, x)
		}
		if (x.Op == token.ADD || x.Op == token.SUB) && e.Wraps != nil && e.Wraps(st, a, b, r) {
			return e.wrap(st, x, a, b, r)
		}
		e.bind(st, x, r)
	case *ssa.UnOp:
		return e.unop(st, x)
	case *ssa.ChangeType:
		e.bind(st, x, st.val(x.X))
	case *ssa.ChangeInterface:
		e.bind(st, x, st.val(x.X))
	case *ssa.SliceToArrayPointer, *ssa.MultiConvert:
		e.bind(st, x, mk(OpHavoc, x.(ssa.Value).Type(), st.siteID(x)))
	case *ssa.Convert:
		v := st.val(x.X)
		if v.op == OpConst && v.cv != nil {
			if b, ok := x.Type().Underlying().(*types.Basic); ok && (isIntType(x.Type()) && v.cv.Kind() == constant.Int || b.Info()&types.IsFloat != 0) {
				if b.Info()&types.IsFloat != 0 {
					e.bind(st, x, mkConst(constant.ToFloat(v.cv), x.Type()))
				} else {
					e.bind(st, x, mkConst(v.cv, x.Type()))
				}
				return true
			}
		}
		if types.Identical(x.X.Type().Underlying(), x.Type().Underlying()) {
			e.bind(st, x, v)
		} else {
			e.bind(st, x, mk(OpConvert, x.Type(), x.Type().String(), v))
		}
	case *ssa.MakeInterface:
		e.bind(st, x, mk(OpMakeIface, x.X.Type(), types.TypeString(x.X.Type(), nil), st.val(x.X)))
	case *ssa.MakeClosure:
		var bs []*Term
		for _, b := range x.Bindings {
			bs = append(bs, st.val(b))
		}
		t := mk(OpClosure, x.Type(), x.Fn.String(), bs...)
		t.obj = x.Fn.(*ssa.Function)
		e.bind(st, x, t)
	case *ssa.MakeSlice:
		t := mk(OpMake, x.Type(), st.siteID(x)+"/makeslice", st.val(x.Len), st.val(x.Cap))
		t.obj = x
		e.forgetRoot(st, t)
		e.bind(st, x, t)
	case *ssa.MakeMap:
		t := mk(OpMake, x.Type(), st.siteID(x)+"/makemap")
		t.obj = x
		e.forgetRoot(st, t)
		st.ver[mapClass(t)] = st.siteID(x)
		e.bind(st, x, t)
	case *ssa.MakeChan:
		t := mk(OpMake, x.Type(), st.siteID(x)+"/makechan", st.val(x.Size))
		t.obj = x
		e.bind(st, x, t)
	case *ssa.FieldAddr:
		p := st.val(x.X)
		if e.Deref != nil {
			e.Deref(st, p, x)
		}
		e.bind(st, x, mkFieldAddr(p, x.X.Type().Underlying().(*types.Pointer).Elem(), x.Field))
	case *ssa.Field:
		e.bind(st, x, mkField(st.val(x.X), x.X.Type(), x.Field))
	case *ssa.IndexAddr:
		base, idx := st.val(x.X), st.val(x.Index)
		if e.Hooks.Index != nil {
			e.Hooks.Index(st, base, idx, x)
		}
		e.bind(st, x, mkIndexAddr(base, idx, x.Type().Underlying().(*types.Pointer).Elem()))
	case *ssa.Index:
		base, idx := st.val(x.X), st.val(x.Index)
		if e.Hooks.Index != nil {
			e.Hooks.Index(st, base, idx, x)
		}
		e.bind(st, x, mk(OpIndex, x.Type(), "", base, idx))
	case *ssa.Slice:
		return e.slice(st, x)
	case *ssa.Store:
		loc, v := st.val(x.Addr), st.val(x.Val)
		if e.Hooks.Deref != nil {
			e.Hooks.Deref(st, loc, x)
		}
		if e.Hooks.Store != nil {
			e.Hooks.Store(st, loc, v, x)
		}
		if loc.op == OpIndexAddr {
			b := loc.args[0]
			if b.op == OpMake {
				st.recordElemStore(b, v)
			}
		}
		st.store(loc, v, x.Val.Type(), x)
	case *ssa.Lookup:
		return e.lookup(st, x)
	case *ssa.MapUpdate:
		m, k, v := st.val(x.Map), st.val(x.Key), st.val(x.Value)
		if e.Hooks.MapWrite != nil {
			e.Hooks.MapWrite(st, m, k, v, x)
		}
		if m.op == OpMake {
			st.recordMapKey(m, k)
		}
		st.mapStore(m, k, v, x)
	case *ssa.Range:
		m := st.val(x.X)
		if e.Hooks.MapRange != nil {
			if _, ok := x.X.Type().Underlying().(*types.Map); ok {
				e.Hooks.MapRange(st, m, x)
			}
		}
		e.bind(st, x, mk(OpRange, x.Type(), st.siteID(x), m))
	case *ssa.Next:
		return e.next(st, x)
	case *ssa.TypeAssert:
		e.typeAssert(st, x)
	case *ssa.Extract:
		t := st.val(x.Tuple)
		e.bind(st, x, e.extract(t, x.Index, x.Type()))
	case *ssa.Send:
		ch, v := st.val(x.Chan), st.val(x.X)
		if e.Hooks.Send != nil {
			e.Hooks.Send(st, ch, v, x)
		}
		st.escape(v)
	case *ssa.Select:
		return e.selectStmt(st, x)
	case *ssa.Jump:
		return e.jump(st, f.block.Succs[0])
	case *ssa.If:
		c := st.val(x.Cond)
		succ := f.block.Succs
		return e.fork(st, c, x, func(s *State, v bool) bool {
			if v {
				return e.jump(s, succ[0])
			}
			return e.jump(s, succ[1])
		})
	case *ssa.Panic:
		if e.Hooks.Fatal != nil {
			e.Hooks.Fatal(st, "panic", x)
		}
		return false
	case *ssa.Call:
		return e.call(st, x, &x.Call, x.Type())
	case *ssa.Go:
		ci := e.callInfo(st, x, &x.Call, nil)
		ci.Go = true
		if e.Hooks.Go != nil {
			e.Hooks.Go(st, ci)
		}
		for _, a := range ci.Args {
			st.escape(a)
		}
		if ci.FnTerm != nil {
			st.escape(ci.FnTerm)
		}
		if e.GoInline {
			return e.doCall(st, x, &x.Call, ci.FnTerm, ci.Args, nil, nil)
		}
	case *ssa.Defer:
		ci := e.callInfo(st, x, &x.Call, nil)
		f.defers = append(append([]deferred(nil), f.defers...), deferred{call: &x.Call, fn: ci.FnTerm, args: ci.Args, ins: x})
	case *ssa.RunDefers:
		if len(f.defers) > 0 {
			d := f.defers[len(f.defers)-1]
			f.defers = f.defers[:len(f.defers)-1]
			f.pc-- // come back for the next one
			return e.doCall(st, d.ins, d.call, d.fn, d.args, nil, nil)
		}
	case *ssa.Return:
		var res []*Term
		for _, r := range x.Results {
			res = append(res, st.val(r))
		}
		return e.ret(st, res, x)
	default:
		e.Undecided = append(e.Undecided, fmt.Sprintf("unmodelled instruction %T at %s", ins, e.pos(ins.Pos())))
		if v, ok := ins.(ssa.Value); ok {
			e.bind(st, ins, mk(OpHavoc, v.Type(), st.siteID(ins)))
		}
	}
	return true
}

func (e *Engine) forgetRoot(st *State, t *Term) {
	for l := range st.mem {
		if rootOf(l) == t || l.op == OpMapCell && l.args[0] == t {
			delete(st.mem, l)
		}
	}
	delete(st.escaped, t)
}

func (e *Engine) ret(st *State, res []*Term, ins ssa.Instruction) bool {
	f := st.top()
	if len(st.stack) == 1 {
		if e.Hooks.Return != nil {
			e.Hooks.Return(st, f.fn, res, ins)
		}
		return false
	}
	if e.Hooks.Exit != nil {
		e.Hooks.Exit(st, f.fn, f.args, res, ins)
	}
	st.stack = st.stack[:len(st.stack)-1]
	if f.onReturn != nil {
		return f.onReturn(st, res)
	}
	if f.result != nil {
		st.top().env[f.result] = tupleOf(res, f.result.Type())
	}
	return !e.dup(st)
}

func tupleOf(res []*Term, typ types.Type) *Term {
	if len(res) == 1 {
		return res[0]
	}
	return mk(OpTuple, typ, "", res...)
}

func (e *Engine) extract(t *Term, i int, typ types.Type) *Term {
	if t.op == OpTuple {
		return t.args[i]
	}
	return mk(OpExtract, typ, itoa(i), t)
}

func (e *Engine) binop(st *State, op token.Token, a, b *Term, typ, opTyp types.Type) *Term {
	switch op {
	case token.EQL:
		return mkEq(a, b)
	case token.NEQ:
		return mkNot(mkEq(a, b))
	case token.LSS:
		return mkLt(a, b)
	case token.GTR:
		return mkLt(b, a)
	case token.LEQ:
		return mkNot(mkLt(b, a))
	case token.GEQ:
		return mkNot(mkLt(a, b))
	}
	if isStringType(opTyp) && op == token.ADD {
		return mk(OpConcat, typ, "", a, b)
	}
	if isIntType(opTyp) {
		switch op {
		case token.ADD:
			return mkAdd(a, b)
		case token.SUB:
			return mkSub(a, b)
		case token.MUL:
			if x, ok := a.intVal(); ok {
				if y, ok := b.intVal(); ok {
					return mkInt(x * y)
				}
				if x == 1 {
					return b
				}
			}
			if y, ok := b.intVal(); ok && y == 1 {
				return a
			}
			if a.id > b.id {
				a, b = b, a
			}
			return mk(OpMul, typ, "", a, b)
		}
	}
	return mk(OpArith, typ, op.String(), a, b)
}

func (e *Engine) unop(st *State, x *ssa.UnOp) bool {
	v := st.val(x.X)
	switch x.Op {
	case token.NOT:
		e.bind(st, x, mkNot(v))
	case token.SUB:
		if n, ok := v.intVal(); ok {
			e.bind(st, x, mkInt(-n))
		} else if isIntType(x.Type()) {
			e.bind(st, x, mkSub(mkInt(0), v))
		} else {
			e.bind(st, x, mk(OpArith, x.Type(), "neg", v))
		}
	case token.MUL:
		if e.Hooks.Deref != nil {
			e.Hooks.Deref(st, v, x)
		}
		r := st.load(v, x.Type())
		if b := v; expandStruct(x.Type()) && b.op == OpIndexAddr && r.op == OpStruct {
			e.instantiateElemField(st, b.args[0], r.args)
		}
		if v.op == OpFieldAddr && v.args[0].op == OpIndexAddr {
			// field of a struct element
			st.elemField(v)
		}
		if e.Hooks.Load != nil {
			e.Hooks.Load(st, v, r, x)
		}
		e.bind(st, x, r)
	case token.ARROW:
		if x.CommaOk {
			tt := x.Type().(*types.Tuple)
			val := mk(OpRecv, tt.At(0).Type(), st.siteID(x)+"/recv", v)
			okT := mk(OpHavoc, tBool, st.siteID(x)+"/recvok")
			if e.Hooks.Recv != nil {
				e.Hooks.Recv(st, v, val, x)
			}
			e.bind(st, x, mk(OpTuple, x.Type(), "", val, okT))
			return true
		}
		r := mk(OpRecv, x.Type(), st.siteID(x)+"/recv", v)
		if e.Hooks.Recv != nil {
			e.Hooks.Recv(st, v, r, x)
		}
		e.bind(st, x, r)
	default:
		e.bind(st, x, mk(OpArith, x.Type(), x.Op.String(), v))
	}
	return true
}

// elemField instantiates element facts for a struct element read field by field.
func (st *State) elemField(loc *Term) {
	ia := loc.args[0]
	el := ia.typ.Underlying().(*types.Pointer).Elem()
	s, ok := el.Underlying().(*types.Struct)
	if !ok || !expandStruct(el) {
		return
	}
	fs := make([]*Term, s.NumFields())
	for i := range fs {
		fs[i] = st.load(mkFieldAddr(ia, el, i), s.Field(i).Type())
	}
	st.e.instantiateElemField(st, ia.args[0], fs)
}

func (e *Engine) slice(st *State, x *ssa.Slice) bool {
	base := st.val(x.X)
	lo := mkInt(0)
	if x.Low != nil {
		lo = st.val(x.Low)
	}
	var hi *Term
	if pt, ok := x.X.Type().Underlying().(*types.Pointer); ok {
		if at, ok := pt.Elem().Underlying().(*types.Array); ok {
			hi = mkInt(at.Len())
		}
	}
	if x.High != nil {
		hi = st.val(x.High)
	} else if hi == nil {
		hi = mkLen(base)
	}
	if e.Hooks.Slice != nil {
		e.Hooks.Slice(st, base, lo, hi, x)
	}
	t := mkSliceTerm(x.Type(), base, lo, hi)
	e.bind(st, x, t)
	return true
}

func mkSliceTerm(typ types.Type, base, lo, hi *Term) *Term {
	if base.op == OpSlice {
		lo, hi = mkAdd(base.args[1], lo), mkAdd(base.args[1], hi)
		base = base.args[0]
	}
	if n, ok := lo.intVal(); ok && n == 0 && hi == mkLen(base) && base.op != OpAlloc {
		return base
	}
	return mk(OpSlice, typ, "", base, lo, hi)
}

func (st *State) mapLookup(m, k *Term, vt types.Type) (val, ok *Term) {
	if m.isNil() {
		return zeroOf(vt), mkBool(false)
	}
	cell := mk(OpMapCell, vt, "", m, k)
	if v, has := st.mem[cell]; has {
		if v.op == OpAbsent {
			return zeroOf(vt), mkBool(false)
		}
		return v, mkBool(true)
	}
	ver := st.version(mapClass(m))
	val = mk(OpMapVal, vt, ver, m, k)
	ok = mk(OpMapOk, tBool, ver, m, k)
	if b, known := st.eval(ok); known && !b {
		return zeroOf(vt), mkBool(false)
	}
	return val, ok
}

func (st *State) mapStore(m, k, v *Term, ins ssa.Instruction) {
	cell := mk(OpMapCell, v.typ, "", m, k)
	st.invalidate(mapClass(m), st.siteID(ins), cell)
	st.mem[cell] = v
	if !isLocalRoot(m) || st.escaped[m] {
		st.escape(v)
	}
}

func (e *Engine) lookup(st *State, x *ssa.Lookup) bool {
	m, k := st.val(x.X), st.val(x.Index)
	if _, ok := x.X.Type().Underlying().(*types.Map); !ok {
		e.bind(st, x, mk(OpIndex, x.Type(), "", m, k))
		return true
	}
	if e.Hooks.MapRead != nil {
		e.Hooks.MapRead(st, m, k, x)
	}
	vt := x.X.Type().Underlying().(*types.Map).Elem()
	v, ok := st.mapLookup(m, k, vt)
	if x.CommaOk {
		// an absent key yields the zero value
		e.bind(st, x, mk(OpTuple, x.Type(), "", v, ok))
	} else {
		e.bind(st, x, v)
	}
	return true
}

func (e *Engine) next(st *State, x *ssa.Next) bool {
	f := st.top()
	it := st.val(x.Iter)
	var m *Term
	if it.op == OpRange {
		m = it.args[0]
	}
	tt := x.Type().(*types.Tuple)
	hdr := x.Block().Index
	name := f.ctx + "|" + itoa(hdr) + "|" + e.instrID(x)
	okT := mk(OpRangeOk, tBool, name)
	delete(st.facts, okT)
	return e.fork(st, okT, x, func(s *State, v bool) bool {
		delete(s.facts, okT)
		if !v {
			s.top().env[x] = mk(OpTuple, x.Type(), "", mkBool(false), mkNil(), mkNil())
			return true
		}
		k := mk(OpRangeKey, tt.At(1).Type(), name+"/key")
		var val *Term
		if m != nil && !x.IsString {
			mt := m.typ
			if mt != nil {
				if mtt, ok := mt.Underlying().(*types.Map); ok {
					if mtt.Key() != nil {
						k = mk(OpRangeKey, mtt.Key(), name+"/key")
					}
					ver := s.version(mapClass(m))
					okk := mk(OpMapOk, tBool, ver, m, k)
					s.addFact(okk, true)
					val = mk(OpMapVal, mtt.Elem(), ver, m, k)
					e.mapKeyFacts(s, m, k)
				}
			}
		}
		if val == nil {
			val = mk(OpRangeVal, tt.At(2).Type(), name+"/val")
		}
		s.top().env[x] = mk(OpTuple, x.Type(), "", mkBool(true), k, val)
		return true
	})
}

func (e *Engine) typeAssert(st *State, x *ssa.TypeAssert) {
	v := st.val(x.X)
	if e.Hooks.Assert != nil {
		e.Hooks.Assert(st, v, x.AssertedType, x.CommaOk, x)
	}
	var r, ok *Term
	if v.op == OpMakeIface && types.Identical(v.typ, x.AssertedType) {
		r, ok = v.args[0], mkBool(true)
	} else if v.op == OpMakeIface && !types.IsInterface(x.AssertedType) {
		r, ok = zeroOf(x.AssertedType), mkBool(false)
	} else if types.IsInterface(x.AssertedType) && v.op == OpMakeIface {
		r, ok = v, mk(OpAssertOk, tBool, x.AssertedType.String(), v)
	} else {
		r = mk(OpAssert, x.AssertedType, x.AssertedType.String(), v)
		ok = mk(OpAssertOk, tBool, x.AssertedType.String(), v)
	}
	if x.CommaOk {
		e.bind(st, x, mk(OpTuple, x.Type(), "", r, ok))
	} else {
		e.bind(st, x, r)
	}
}

func (e *Engine) selectStmt(st *State, x *ssa.Select) bool {
	n := len(x.States)
	try := func(s *State, i int) bool {
		tt := x.Type().(*types.Tuple)
		res := make([]*Term, tt.Len())
		res[0] = mkInt(int64(i))
		res[1] = mk(OpHavoc, tBool, s.siteID(x)+"/selok")
		j := 2
		for k, c := range x.States {
			if c.Dir == types.RecvOnly {
				ch := s.val(c.Chan)
				el := tt.At(j).Type()
				if k == i {
					v := mk(OpRecv, el, s.siteID(x)+"/sel"+itoa(k), ch)
					if e.Hooks.Recv != nil {
						e.Hooks.Recv(s, ch, v, x)
					}
					res[j] = v
				} else {
					res[j] = zeroOf(el)
				}
				j++
			} else if k == i {
				if e.Hooks.Send != nil {
					e.Hooks.Send(s, s.val(c.Chan), s.val(c.Send), x)
				}
			}
		}
		s.note(insPos(x), fmt.Sprintf("select case %d", i))
		if e.Hooks.Select != nil {
			e.Hooks.Select(s, x, i)
		}
		s.top().env[x] = mk(OpTuple, x.Type(), "", res...)
		return true
	}
	if !x.Blocking {
		o := st.clone()
		if try(o, -1) {
			e.push(o)
		}
	}
	for i := 1; i < n; i++ {
		o := st.clone()
		if try(o, i) {
			e.push(o)
		}
	}
	if n == 0 {
		return false
	}
	return try(st, 0)
}

// ---- calls

func (e *Engine) callInfo(st *State, ins ssa.Instruction, c *ssa.CallCommon, res types.Type) *CallInfo {
	ci := &CallInfo{Instr: ins, Call: c, Result: res}
	if c.IsInvoke() {
		ci.Invoke = true
		recv := st.val(c.Value)
		ci.Args = append(ci.Args, recv)
		ci.Name = types.TypeString(c.Value.Type(), nil) + "." + c.Method.Name()
		// devirtualise a known dynamic type
		if recv.op == OpMakeIface {
			if sel := e.P.Prog.MethodSets.MethodSet(recv.typ).Lookup(c.Method.Pkg(), c.Method.Name()); sel != nil {
				if fn := e.P.Prog.MethodValue(sel); fn != nil {
					ci.Fn = fn
					ci.Args[0] = recv.args[0]
					ci.Name = fn.String()
					ci.Invoke = false
				}
			}
		}
	} else if fn := c.StaticCallee(); fn != nil {
		ci.Fn = fn
		ci.Name = fn.String()
		if mc, ok := c.Value.(*ssa.MakeClosure); ok {
			ci.FnTerm = st.val(mc)
		}
	} else if b, ok := c.Value.(*ssa.Builtin); ok {
		ci.Name = "builtin." + b.Name()
	} else {
		t := st.val(c.Value)
		ci.FnTerm = t
		switch t.op {
		case OpFunc, OpClosure:
			ci.Fn = t.obj.(*ssa.Function)
			ci.Name = ci.Fn.String()
		default:
			ci.Name = "dynamic"
		}
	}
	for _, a := range c.Args {
		ci.Args = append(ci.Args, st.val(a))
	}
	return ci
}

func inModule(fn *ssa.Function) bool {
	p := fn.Pkg
	if p == nil {
		if fn.Parent() != nil {
			return inModule(fn.Parent())
		}
		if o := fn.Object(); o != nil && o.Pkg() != nil {
			return strings.HasPrefix(o.Pkg().Path(), modPath)
		}
		if fn.Signature.Recv() != nil {
			t := fn.Signature.Recv().Type()
			if pt, ok := t.(*types.Pointer); ok {
				t = pt.Elem()
			}
			if n, ok := t.(*types.Named); ok && n.Obj().Pkg() != nil {
				return strings.HasPrefix(n.Obj().Pkg().Path(), modPath)
			}
		}
		return false
	}
	return p.Pkg.Path() == modPath || strings.HasPrefix(p.Pkg.Path(), modPath+"/")
}

func (e *Engine) call(st *State, ins ssa.Instruction, c *ssa.CallCommon, res types.Type) bool {
	return e.doCall(st, ins, c, nil, nil, res, ins)
}

// doCall performs a call; fnT/args are given for deferred calls.
func (e *Engine) doCall(st *State, ins ssa.Instruction, c *ssa.CallCommon, fnT *Term, args []*Term, res types.Type, bindTo ssa.Instruction) bool {
	var ci *CallInfo
	if args != nil || fnT != nil || bindTo == nil {
		ci = &CallInfo{Instr: ins, Call: c, Args: args, FnTerm: fnT, Defer: true}
		if fn := c.StaticCallee(); fn != nil {
			ci.Fn, ci.Name = fn, fn.String()
		} else if c.IsInvoke() {
			ci.Invoke = true
			ci.Name = types.TypeString(c.Value.Type(), nil) + "." + c.Method.Name()
		} else if b, ok := c.Value.(*ssa.Builtin); ok {
			ci.Name = "builtin." + b.Name()
		} else if fnT != nil && (fnT.op == OpFunc || fnT.op == OpClosure) {
			ci.Fn = fnT.obj.(*ssa.Function)
			ci.Name = ci.Fn.String()
		} else {
			ci.Name = "dynamic"
		}
		if c.Signature().Results().Len() > 0 {
			ci.Result = c.Signature().Results()
			if c.Signature().Results().Len() == 1 {
				ci.Result = c.Signature().Results().At(0).Type()
			}
		}
	} else {
		ci = e.callInfo(st, ins, c, res)
	}
	bind := func(v *Term) {
		if bindTo != nil {
			e.bind(st, bindTo, v)
		}
	}
	if strings.HasPrefix(ci.Name, "builtin.") {
		v, cont := e.builtin(st, ci)
		if v != nil {
			bind(v)
		}
		return cont
	}
	if e.Hooks.Call != nil {
		if h, v := e.Hooks.Call(st, ci); h {
			if v == nil {
				v = e.freshResult(st, ci)
			}
			bind(v)
			return true
		}
	}
	switch e.intrinsic(st, ci) {
	case intrDone:
		return true
	case intrEnd:
		return false
	}
	if ci.Name == "strings.Compare" && bindTo != nil {
		return e.compare(st, ci, bindTo)
	}
	if v := e.model(st, ci); v != nil {
		bind(v)
		return true
	}
	if ci.Fn != nil && len(ci.Fn.Blocks) > 0 && (inModule(ci.Fn)) && (e.Opaque == nil || !e.Opaque(ci.Fn)) {
		rec := 0
		for _, f := range st.stack {
			if f.fn == ci.Fn {
				rec++
			}
		}
		if rec == 0 && len(st.stack) < 16 {
			e.enter(st, ci, bindTo)
			return true
		}
		if rec > 0 {
			st.havocAll(st.siteID(ins))
		}
	}
	return e.opaqueCall(st, ci, bindTo)
}

// compare: -1, 0 or 1 with what each says about the operands.
func (e *Engine) compare(st *State, ci *CallInfo, bindTo ssa.Instruction) bool {
	a, b := ci.Args[0], ci.Args[1]
	for _, r := range []int64{-1, 0, 1} {
		s := st.clone()
		if s.assume(mkEq(a, b), r == 0) && s.assume(mkLt(a, b), r < 0) && s.assume(mkLt(b, a), r > 0) {
			e.bind(s, bindTo, mkInt(r))
			e.push(s)
		}
	}
	return false
}

func (e *Engine) enter(st *State, ci *CallInfo, bindTo ssa.Instruction) *Frame {
	fn := ci.Fn
	e.Fns[fnName(fn)] = true
	cur := st.top()
	f := &Frame{fn: fn, block: fn.Blocks[0], env: map[ssa.Value]*Term{}, ctx: cur.ctx + ">" + e.instrID(ci.Instr) + ">" + fn.Name(),
		loops: map[*ssa.BasicBlock]*loopEntry{}}
	if bindTo != nil {
		if v, ok := bindTo.(ssa.Value); ok {
			f.result = v
		}
	}
	for i, p := range fn.Params {
		if i < len(ci.Args) {
			f.env[p] = ci.Args[i]
			f.args = append(f.args, ci.Args[i])
		}
	}
	if ci.FnTerm != nil && ci.FnTerm.op == OpClosure {
		for i, fv := range fn.FreeVars {
			f.env[fv] = ci.FnTerm.args[i]
		}
	}
	st.stack = append(st.stack, f)
	if len(st.stack) > e.MaxDepth {
		e.MaxDepth = len(st.stack)
	}
	if e.Hooks.Enter != nil {
		e.Hooks.Enter(st, fn, f.args)
	}
	return f
}

func (e *Engine) freshResult(st *State, ci *CallInfo) *Term {
	if ci.Result == nil {
		return mkNil()
	}
	aux := ci.Name
	if !pureFn(ci.Name) {
		aux += "#" + st.siteID(ci.Instr)
	}
	t := mk(OpCall, ci.Result, aux, ci.Args...)
	if ci.Instr != nil && !pureFn(ci.Name) {
		t.obj = ci.Instr
	}
	if tt, ok := ci.Result.(*types.Tuple); ok {
		if tt.Len() == 0 {
			return mkNil()
		}
		var rs []*Term
		for i := 0; i < tt.Len(); i++ {
			rs = append(rs, mk(OpExtract, tt.At(i).Type(), itoa(i), t))
		}
		return mk(OpTuple, ci.Result, "", rs...)
	}
	return t
}

func (e *Engine) opaqueCall(st *State, ci *CallInfo, bindTo ssa.Instruction) bool {
	id := st.siteID(ci.Instr)
	// closures handed to other code are explored in place
	for i, a := range ci.Args {
		x := a
		for x.op == OpConvert {
			x = x.args[0]
		}
		if (x.op == OpClosure || x.op == OpFunc) && x.obj != nil {
			fn := x.obj.(*ssa.Function)
			if len(fn.Blocks) > 0 && inModule(fn) {
				return e.closureArg(st, ci, i, x, fn, bindTo)
			}
		}
	}
	e.finishOpaque(st, ci, id, bindTo, nil)
	return true
}

func (e *Engine) finishOpaque(st *State, ci *CallInfo, id string, bindTo ssa.Instruction, closureRes []*Term) *Term {
	if !quietFn(ci.Name) {
		unknown := ci.Fn == nil && !(ci.Call.IsInvoke() && quietInvoke(ci.Call))
		if unknown {
			st.havocAll(id)
		}
		if ci.Fn != nil && inModule(ci.Fn) && len(ci.Fn.Blocks) > 0 {
			// opaque module function: apply its effect summary
			cells := e.constCells(st)
			e.applyEffects(st, st.top(), e.fnEffects(ci.Fn, map[*ssa.Function]bool{}), id)
			for l, v := range cells {
				_, left := st.mem[l]
				if !left && e.untouched(st, ci, rootOf(l)) {
					st.mem[l] = v
				}
			}
		}
		for _, a := range ci.Args {
			if a.op == OpClosure && e.onlyCalls(ci.Name) {
				continue // what the closure itself writes was applied when it was explored
			}
			if r := rootOf(a); e.KeepCells && ci.Fn != nil && inModule(ci.Fn) && len(ci.Fn.Blocks) > 0 && isLocalRoot(r) && e.untouched(st, ci, r) {
				continue
			}
			st.havocReach(a, id)
		}
	}
	v := e.freshResult(st, ci)
	if ci.Name == "sort.Search" && v != nil {
		st.addFact(mkLt(v, mkInt(0)), false)
		st.addFact(mkLt(ci.Args[0], v), false)
	}
	if e.Hooks.Called != nil {
		e.Hooks.Called(st, ci, v)
	}
	if bindTo != nil {
		e.bind(st, bindTo, v)
	}
	return v
}

// onlyCalls: the callee does nothing with a callback but call it before it returns.
func (e *Engine) onlyCalls(name string) bool {
	if strings.HasPrefix(name, "sort.") || strings.HasPrefix(name, "strings.") || strings.HasPrefix(name, "slices.") {
		return true
	}
	if e.MultiCall != nil {
		_, known := e.MultiCall(name)
		return known
	}
	return false
}

// closureArg explores a closure passed to code outside the module: not called
// at all, or called (any number of times unless the callee is known to call it once).
func (e *Engine) closureArg(st *State, ci *CallInfo, argi int, cl *Term, fn *ssa.Function, bindTo ssa.Instruction) bool {
	id := st.siteID(ci.Instr)
	once := false
	if e.MultiCall != nil {
		if o, known := e.MultiCall(ci.Name); known {
			once = o
		}
	}
	// not called
	skip := st.clone()
	skip.note(insPos(ci.Instr), "callback not invoked by "+ci.Name)
	v := e.finishOpaque(skip, ci, id, bindTo, nil)
	if once && v != nil && ci.Result != nil && isErrorType(ci.Result) {
		skip.addFact(mkEq(v, mkNil()), false) // it failed before it got there
	}
	if !once {
		// effects of earlier calls
		ef := e.fnEffects(fn, map[*ssa.Function]bool{})
		ef2 := newEffects()
		mergeEffects(ef2, ef)
		e.applyEffects(st, st.top(), ef2, id+"cb")
		for i, fv := range fn.FreeVars {
			if ef.allocs[fv] && i < len(cl.args) {
				r := rootOf(cl.args[i])
				for l := range st.mem {
					if rootOf(l) == r {
						delete(st.mem, l)
						st.ver[st.classOf(l)] = id + "cb"
					}
				}
			}
		}
	}
	e.push(skip)
	sub := &CallInfo{Name: fn.String(), Fn: fn, FnTerm: cl, Instr: ci.Instr, Call: ci.Call}
	for i, p := range fn.Params {
		sub.Args = append(sub.Args, mk(OpParam, p.Type(), id+">"+fn.Name()+"."+p.Name()+itoa(i)))
	}
	if ci.Name == "sort.Search" {
		// called with 0 <= i < n only
		st.addFact(mkLt(sub.Args[0], mkInt(0)), false)
		st.addFact(mkLt(sub.Args[0], ci.Args[0]), true)
	}
	f := e.enter(st, sub, nil)
	ci2 := *ci
	f.onReturn = func(s *State, res []*Term) bool {
		if e.Hooks.Called == nil && bindTo == nil {
			e.finishOpaque(s, &ci2, id, nil, res)
			return true
		}
		e.finishOpaqueCB(s, &ci2, id, bindTo, res, once)
		return true
	}
	return true
}

// finishOpaqueCB continues after a callback: when the callee is a
// transaction-like function whose error result passes on the callback's
// error, the result is that error (if non-nil) or an error of its own.
func (e *Engine) finishOpaqueCB(st *State, ci *CallInfo, id string, bindTo ssa.Instruction, res []*Term, once bool) {
	if once && len(res) == 1 && ci.Result != nil && isErrorType(ci.Result) && bindTo != nil {
		r := res[0]
		nilT := mkEq(r, mkNil())
		o := st.clone()
		if st.assume(nilT, false) {
			e.bind(st, bindTo, r)
			if e.Hooks.Called != nil {
				e.Hooks.Called(st, ci, r)
			}
		}
		if v, ok := o.eval(nilT); !ok || v {
			if o.assume(nilT, true) {
				e.finishOpaque(o, ci, id, bindTo, res)
				e.push(o)
			}
		}
		if v, ok := st.eval(nilT); ok && v {
			// the callback always succeeded: this copy is infeasible
			st.stack = st.stack[:1]
			st.top().pc = len(st.top().block.Instrs)
		}
		return
	}
	e.finishOpaque(st, ci, id, bindTo, res)
}

func isErrorType(t types.Type) bool {
	return t != nil && types.Identical(t, types.Universe.Lookup("error").Type())
}

func (e *Engine) builtin(st *State, ci *CallInfo) (*Term, bool) {
	a := ci.Args
	switch ci.Name {
	case "builtin.len":
		if _, ok := ci.Call.Args[0].Type().Underlying().(*types.Map); ok {
			return mk(OpCall, tInt, "maplen:"+st.version(mapClass(a[0])), a[0]), true
		}
		if _, ok := ci.Call.Args[0].Type().Underlying().(*types.Chan); ok {
			return mk(OpHavoc, tInt, st.siteID(ci.Instr)), true
		}
		return mkLen(a[0]), true
	case "builtin.cap":
		if a[0].op == OpMake && len(a[0].args) > 1 {
			return a[0].args[1], true
		}
		return mk(OpCap, tInt, "", a[0]), true
	case "builtin.append":
		return e.appendCall(st, ci), true
	case "builtin.copy":
		if e.Hooks.Copy != nil {
			e.Hooks.Copy(st, a[0], a[1], ci.Instr)
		}
		if s, ok := ci.Call.Args[0].Type().Underlying().(*types.Slice); ok {
			id := st.siteID(ci.Instr)
			r := rootOf(a[0])
			st.ver["e:"+types.TypeString(s.Elem(), nil)] = id
			for l := range st.mem {
				if l.op == OpIndexAddr || l.op == OpFieldAddr && rootOf(l) != l {
					rl := rootOf(l)
					if inElem(l) && (rl == r || !(isLocalRoot(r) && !st.escaped[r]) && !(isLocalRoot(rl) && !st.escaped[rl])) {
						delete(st.mem, l)
					}
				}
			}
		}
		return mk(OpHavoc, tInt, st.siteID(ci.Instr)), true
	case "builtin.delete":
		if e.Hooks.MapDelete != nil {
			e.Hooks.MapDelete(st, a[0], a[1], ci.Instr)
		}
		vt := ci.Call.Args[0].Type().Underlying().(*types.Map).Elem()
		cell := mk(OpMapCell, vt, "", a[0], a[1])
		st.invalidate(mapClass(a[0]), st.siteID(ci.Instr), cell)
		st.mem[cell] = mk(OpAbsent, nil, "")
		return nil, true
	case "builtin.print", "builtin.println", "builtin.close":
		return nil, true
	case "builtin.recover":
		return mk(OpHavoc, ci.Result, st.siteID(ci.Instr)), true
	case "builtin.ssa:wrapnilchk":
		return a[0], true
	case "builtin.min", "builtin.max":
		return mk(OpHavoc, ci.Result, st.siteID(ci.Instr)), true
	}
	if ci.Result != nil {
		return mk(OpHavoc, ci.Result, st.siteID(ci.Instr)), true
	}
	return nil, true
}

func inElem(l *Term) bool {
	for l.op == OpFieldAddr || l.op == OpIndexAddr {
		if l.op == OpIndexAddr {
			return true
		}
		l = l.args[0]
	}
	return false
}

func (e *Engine) appendCall(st *State, ci *CallInfo) *Term {
	base, other := ci.Args[0], ci.Args[1]
	typ := ci.Call.Args[0].Type()
	sl, _ := typ.Underlying().(*types.Slice)
	// append writes behind the base's length; forget what may share it
	if base.op == OpSlice && sl != nil {
		id := st.siteID(ci.Instr)
		r := rootOf(base)
		if !isLocalRoot(r) || st.escaped[r] {
			st.invalidate("e:"+types.TypeString(sl.Elem(), nil), id, nil)
		} else {
			for l := range st.mem {
				if rootOf(l) == r && inElem(l) {
					delete(st.mem, l)
				}
			}
		}
	}
	if other.op == OpSlice && other.args[0].op == OpAlloc {
		if at, ok := other.args[0].typ.Underlying().(*types.Pointer).Elem().Underlying().(*types.Array); ok {
			var els []*Term
			for i := int64(0); i < at.Len(); i++ {
				els = append(els, st.load(mkIndexAddr(other.args[0], mkInt(i), at.Elem()), at.Elem()))
			}
			res := mk(OpAppend, typ, "", append([]*Term{base}, els...)...)
			if e.Hooks.Append != nil {
				e.Hooks.Append(st, base, els, res, typ, ci.Instr)
			}
			st.recordAppend(res, els)
			return res
		}
	}
	if other.isNil() {
		return base
	}
	res := mk(OpAppendAll, typ, "", base, other)
	if e.Hooks.AppendAll != nil {
		e.Hooks.AppendAll(st, base, other, res, typ, ci.Instr)
	}
	return res
}
