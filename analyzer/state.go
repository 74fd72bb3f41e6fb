package main

import (
	"fmt"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Client is rule-specific path state (a typestate). Key must identify it:
// loop bodies are re-explored when it changes around the loop.
type Client interface {
	Key() string
	Clone() Client
}

type Held struct {
	key   string // lock class, e.g. core.Indexer.tableLock
	lock  *Term  // the mutex location
	write bool
	pos   token.Pos
}

type deferred struct {
	call *ssa.CallCommon
	fn   *Term
	args []*Term
	ins  ssa.Instruction
}

type loopEntry struct {
	tab      string // key of its candidate table
	snapshot *State
	seen     map[string]bool
	phis     map[*ssa.Phi]*Term
	inits    map[*ssa.Phi]*Term
	cells    map[*Term]*Term // cells kept over the loop (KeepCells)
}

type Frame struct {
	fn     *ssa.Function
	block  *ssa.BasicBlock
	prev   *ssa.BasicBlock
	pc     int
	env    map[ssa.Value]*Term
	defers []deferred
	result ssa.Value // value in the caller that receives the result
	ctx    string
	loops  map[*ssa.BasicBlock]*loopEntry
	// onReturn, when set, replaces the default "bind result in caller".
	onReturn func(st *State, res []*Term) bool // false: path ends
	running  bool                              // running deferred calls
	args     []*Term
}

type ForAll struct {
	ctx   string // ctx|header
	phi   []*Term
	init  []*Term
	step  []*Term // back-edge values (all equal) or nil
	facts map[*Term]bool
}

type traceNode struct {
	prev *traceNode
	pos  token.Pos
	txt  string
}

type State struct {
	e        *Engine
	stack    []*Frame
	mem      map[*Term]*Term
	ver      map[string]string
	guardVer map[string]string
	allVer   string
	facts    map[*Term]bool
	forall   []*ForAll
	locks    []Held
	escaped  map[*Term]bool
	client   Client
	trace    *traceNode
	depthGo  int
	shared   bool
	stop     bool // a rule has seen all it needs of this path
}

func (st *State) top() *Frame { return st.stack[len(st.stack)-1] }

func cloneMap[K comparable, V any](m map[K]V) map[K]V {
	r := make(map[K]V, len(m)+4)
	for k, v := range m {
		r[k] = v
	}
	return r
}

func (st *State) clone() *State {
	n := &State{e: st.e, allVer: st.allVer, trace: st.trace, depthGo: st.depthGo}
	n.stack = make([]*Frame, len(st.stack))
	for i, f := range st.stack {
		g := *f
		g.env = cloneMap(f.env)
		g.defers = append([]deferred(nil), f.defers...)
		g.loops = cloneMap(f.loops)
		n.stack[i] = &g
	}
	n.mem = cloneMap(st.mem)
	n.ver = cloneMap(st.ver)
	n.guardVer = cloneMap(st.guardVer)
	n.facts = cloneMap(st.facts)
	n.forall = append([]*ForAll(nil), st.forall...)
	n.locks = append([]Held(nil), st.locks...)
	n.escaped = cloneMap(st.escaped)
	if st.client != nil {
		n.client = st.client.Clone()
	}
	return n
}

func (st *State) note(pos token.Pos, txt string) {
	st.trace = &traceNode{prev: st.trace, pos: pos, txt: txt}
}

func (st *State) tracePath() []string {
	var out []string
	for n := st.trace; n != nil; n = n.prev {
		out = append(out, st.e.pos(n.pos)+" "+n.txt)
	}
	for i, j := 0, len(out)-1; i < j; i, j = i+1, j-1 {
		out[i], out[j] = out[j], out[i]
	}
	if len(out) > 60 {
		out = append(out[:10:10], out[len(out)-50:]...)
	}
	return out
}

// ---- memory classes and versions

func (st *State) classOf(loc *Term) string {
	switch loc.op {
	case OpFieldAddr:
		return "f:" + loc.aux
	case OpIndexAddr:
		return "e:" + types.TypeString(loc.typ.Underlying().(*types.Pointer).Elem(), nil)
	case OpGlobal:
		return "g:" + loc.aux
	case OpAlloc:
		return "a:" + loc.aux
	case OpMapCell:
		return mapClass(loc.args[0])
	}
	if p, ok := loc.typ.Underlying().(*types.Pointer); ok {
		return "d:" + types.TypeString(p.Elem(), nil)
	}
	return "d:?"
}

// mapClass names the contents of a map by where the map itself is kept.
func mapClass(m *Term) string {
	switch m.op {
	case OpLoad:
		l := m.args[0]
		if l.op == OpFieldAddr {
			return "m:" + l.aux
		}
		if l.op == OpGlobal {
			return "m:" + l.aux
		}
	case OpMake:
		return "m:make:" + m.aux
	case OpParam:
		return "m:param:" + m.aux
	case OpField:
		return "m:" + m.aux
	}
	if m.typ != nil {
		return "m:type:" + m.typ.String()
	}
	return "m:?"
}

func (st *State) version(class string) string {
	if v, ok := st.ver[class]; ok {
		return v
	}
	if g := st.e.guardOf(class); g != "" {
		if v, ok := st.guardVer[g]; ok {
			return v
		}
	}
	return st.allVer
}

func isLocalRoot(r *Term) bool { return r.op == OpAlloc || r.op == OpMake }

func (st *State) mayAlias(a, b *Term) bool {
	if a == b {
		return true
	}
	ra, rb := rootOf(a), rootOf(b)
	if ra != rb {
		la, lb := isLocalRoot(ra), isLocalRoot(rb)
		if la && lb {
			return false
		}
		if la && !st.escaped[ra] || lb && !st.escaped[rb] {
			return false
		}
	}
	if a.op != b.op {
		return true
	}
	switch a.op {
	case OpFieldAddr:
		if a.aux != b.aux {
			return false
		}
		if a.args[0] == b.args[0] {
			return true
		}
		if v, ok := st.facts[mkEq(a.args[0], b.args[0])]; ok && !v {
			return false
		}
		return st.mayAlias(a.args[0], b.args[0])
	case OpIndexAddr:
		if a.args[0] == b.args[0] {
			x, okx := a.args[1].intVal()
			y, oky := b.args[1].intVal()
			if okx && oky {
				return x == y
			}
			if t, ok := st.eval(mkEq(a.args[1], b.args[1])); ok && !t {
				return false
			}
		}
	case OpMapCell:
		if a.args[0] == b.args[0] {
			if v, ok := st.eval(mkEq(a.args[1], b.args[1])); ok && !v {
				return false
			}
		}
	}
	return true
}

func (st *State) siteID(ins ssa.Instruction) string {
	f := st.top()
	return f.ctx + "@" + st.e.instrID(ins)
}

// invalidate forgets everything of a class that may alias loc (nil: everything of the class).
func (st *State) invalidate(class, verID string, loc *Term) {
	st.ver[class] = verID
	for l := range st.mem {
		if st.classOf(l) != class {
			continue
		}
		if loc == nil {
			if r := rootOf(l); isLocalRoot(r) && !st.escaped[r] {
				continue
			}
		}
		if loc == nil || st.mayAlias(l, loc) {
			delete(st.mem, l)
		}
	}
}

func (st *State) store(loc, val *Term, typ types.Type, ins ssa.Instruction) {
	if expandStruct(typ) {
		s := typ.Underlying().(*types.Struct)
		for i := 0; i < s.NumFields(); i++ {
			st.store(mkFieldAddr(loc, typ, i), mkField(val, typ, i), s.Field(i).Type(), ins)
		}
		return
	}
	c := st.classOf(loc)
	id := st.siteID(ins)
	if isLocalRoot(rootOf(loc)) && !st.escaped[rootOf(loc)] {
		// private memory: strong update, no version change for others
		for l := range st.mem {
			if l != loc && rootOf(l) == rootOf(loc) && st.classOf(l) == c && st.mayAlias(l, loc) {
				delete(st.mem, l)
			}
		}
	} else {
		st.invalidate(c, id, loc)
		if !isLocalRoot(rootOf(loc)) || st.escaped[rootOf(loc)] {
			st.escape(val)
		}
	}
	st.mem[loc] = val
}

func (st *State) load(loc *Term, typ types.Type) *Term {
	if expandStruct(typ) {
		s := typ.Underlying().(*types.Struct)
		fs := make([]*Term, s.NumFields())
		for i := range fs {
			fs[i] = st.load(mkFieldAddr(loc, typ, i), s.Field(i).Type())
		}
		return mkStruct(typ, fs)
	}
	if v, ok := st.mem[loc]; ok {
		return v
	}
	// address of a field of a struct value held in an element, etc.
	t := mk(OpLoad, typ, st.version(st.classOf(loc)), loc)
	if st.e.stableLoad(loc) {
		t = mk(OpLoad, typ, "stable", loc)
	}
	st.mem[loc] = t
	if loc.op == OpIndexAddr {
		st.e.instantiateElem(st, loc.args[0], t)
	}
	return t
}

// escape marks local objects reachable from v as visible to other code.
func (st *State) escape(v *Term) {
	if v == nil {
		return
	}
	visit(v, func(t *Term) {
		if isLocalRoot(t) && !st.escaped[t] {
			st.escaped[t] = true
			for l, x := range st.mem {
				if rootOf(l) == t {
					st.escape(x)
				}
			}
		}
	})
}

// havocReach forgets what code outside the analysed program may change
// through v (pointers, slices, maps).
func (st *State) havocReach(v *Term, id string) {
	if v == nil {
		return
	}
	st.escape(v)
	roots := map[*Term]bool{}
	visit(v, func(t *Term) {
		if isLocalRoot(t) {
			roots[t] = true
		}
	})
	for l := range st.mem {
		if roots[rootOf(l)] {
			delete(st.mem, l)
			st.ver[st.classOf(l)] = id
		}
	}
	x := v
	for x.op == OpMakeIface || x.op == OpConvert {
		x = x.args[0]
	}
	if x.typ == nil {
		return
	}
	switch u := x.typ.Underlying().(type) {
	case *types.Slice:
		st.invalidate("e:"+types.TypeString(u.Elem(), nil), id, nil)
	case *types.Map:
		st.invalidate(mapClass(x), id, nil)
	case *types.Pointer:
		if expandStruct(u.Elem()) {
			n := structTypeName(u.Elem()) + "."
			for l := range st.mem {
				if l.op == OpFieldAddr && strings.HasPrefix(l.aux, n) && st.mayAliasBase(l, x) {
					delete(st.mem, l)
					st.ver[st.classOf(l)] = id
				}
			}
			s := u.Elem().Underlying().(*types.Struct)
			for i := 0; i < s.NumFields(); i++ {
				st.ver["f:"+n+s.Field(i).Name()] = id
			}
		} else if !isLocalRoot(x) {
			st.invalidate(st.classOf(x), id, x)
		}
	}
}

func (st *State) mayAliasBase(l, p *Term) bool {
	return st.mayAlias(l.args[0], p) || l.args[0] == p
}

func (st *State) havocAll(id string) {
	for l := range st.mem {
		r := rootOf(l)
		if isLocalRoot(r) && !st.escaped[r] {
			continue
		}
		if st.e.stableLoad(l) {
			continue
		}
		delete(st.mem, l)
	}
	for c := range st.ver {
		delete(st.ver, c)
	}
	for c := range st.guardVer {
		delete(st.guardVer, c)
	}
	st.allVer = id
}

// havocGuard forgets everything protected by the lock class g.
func (st *State) havocGuard(g, id string) {
	for l := range st.mem {
		r := rootOf(l)
		if isLocalRoot(r) && !st.escaped[r] {
			continue
		}
		if st.e.guardOf(st.classOf(l)) == g || st.guardedElem(l, g) {
			delete(st.mem, l)
		}
	}
	for c := range st.ver {
		if st.e.guardOf(c) == g {
			delete(st.ver, c)
		}
	}
	st.guardVer[g] = id
}

// guardedElem: an element of a slice that was loaded from a guarded field.
func (st *State) guardedElem(l *Term, g string) bool {
	if l.op != OpIndexAddr {
		return false
	}
	b := l.args[0]
	return b.op == OpLoad && st.e.guardOf(st.classOf(b.args[0])) == g
}

// ---- facts

// eval decides a boolean term under the facts of the state.
func (st *State) eval(t *Term) (bool, bool) {
	if b, ok := t.boolVal(); ok {
		return b, true
	}
	if t.op == OpNot {
		v, ok := st.eval(t.args[0])
		return !v, ok
	}
	if v, ok := st.facts[t]; ok {
		return v, true
	}
	if t.op == OpCall && st.e.Eval != nil && strings.HasPrefix(t.aux, "@") {
		if st.e.Eval(st, t) {
			return true, true
		}
	}
	switch t.op {
	case OpEq:
		a, b := t.args[0], t.args[1]
		if v, ok := st.facts[mkLt(a, b)]; ok && v {
			return false, true
		}
		if v, ok := st.facts[mkLt(b, a)]; ok && v {
			return false, true
		}
		if b.isNil() {
			if st.knownNonNil(a) {
				return false, true
			}
			if a.typ != nil {
				if _, ok := a.typ.Underlying().(*types.Slice); ok && st.proveLt(mkInt(0), mkLen(a)) {
					return false, true
				}
			}
		}
		if b.isConst() {
			// equal to a different constant
			for f, v := range st.facts {
				if v && f.op == OpEq && f.args[0] == a && f.args[1].isConst() {
					if r, ok := mkEq(f.args[1], b).boolVal(); ok {
						return r, true
					}
				}
			}
			if vals, ok := st.finite(a); ok {
				if n, isInt := b.intVal(); isInt {
					hit := false
					for _, x := range vals {
						if x == n {
							hit = true
						}
					}
					if !hit {
						return false, true
					}
					if len(vals) == 1 {
						return true, true
					}
				}
			}
		}
	case OpLt:
		a, b := t.args[0], t.args[1]
		if a == mkInt(0) && b.op == OpLen {
			if v, ok := st.facts[mkEq(b, a)]; ok {
				return !v, true
			}
		}
		if v, ok := st.facts[mkLt(b, a)]; ok && v {
			return false, true
		}
		if v, ok := st.facts[mkEq(a, b)]; ok && v {
			return false, true
		}
		if v, ok := st.facts[mkLt(b, a)]; ok && !v {
			if w, ok := st.facts[mkEq(a, b)]; ok && !w {
				return true, true
			}
		}
		if vals, ok := st.finite(a); ok {
			if n, isInt := b.intVal(); isInt {
				yes, no := 0, 0
				for _, x := range vals {
					if x < n {
						yes++
					} else {
						no++
					}
				}
				if no == 0 {
					return true, true
				}
				if yes == 0 {
					return false, true
				}
			}
		}
	}
	if (t.op == OpLt || t.op == OpEq) && intish(t.args[0]) && intish(t.args[1]) {
		if st.intInfeasible(t, true) {
			return false, true
		}
		if st.intInfeasible(t, false) {
			return true, true
		}
	}
	return false, false
}

func (st *State) knownNonNil(a *Term) bool {
	if nonNil(a) {
		return true
	}
	if v, ok := st.facts[mkEq(a, mkNil())]; ok {
		return !v
	}
	return st.e.nonNilHook != nil && st.e.nonNilHook(st, a)
}

// finite returns the possible values of a term with a declared finite domain.
func (st *State) finite(t *Term) ([]int64, bool) {
	if st.e.Domain == nil {
		return nil, false
	}
	dom, ok := st.e.Domain(t)
	if !ok {
		return nil, false
	}
	var out []int64
	for _, n := range dom {
		okv := true
		c := mkInt(n)
		for f, v := range st.facts {
			if f.op != OpEq && f.op != OpLt {
				continue
			}
			var r *Term
			switch {
			case f.args[0] == t && f.args[1].isConst():
				if f.op == OpEq {
					r = mkEq(c, f.args[1])
				} else {
					r = mkLt(c, f.args[1])
				}
			case f.args[1] == t && f.args[0].isConst() && f.op == OpLt:
				r = mkLt(f.args[0], c)
			default:
				continue
			}
			if b, ok := r.boolVal(); ok && b != v {
				okv = false
				break
			}
		}
		if okv {
			out = append(out, n)
		}
	}
	return out, true
}

// assume adds cond == val; false means the path is infeasible.
func (st *State) assume(cond *Term, val bool) bool {
	for cond.op == OpNot {
		cond, val = cond.args[0], !val
	}
	if v, ok := st.eval(cond); ok {
		if v == val {
			if _, has := st.facts[cond]; !has && !cond.isConst() {
				st.facts[cond] = val
			}
		}
		return v == val
	}
	st.facts[cond] = val
	if cond.op == OpEq && !val || cond.op == OpLt {
		if vals, ok := st.finite(cond.args[0]); ok && len(vals) == 0 {
			return false
		}
	}
	return true
}

// holds reports whether cond is known to have the value val.
func (st *State) holds(cond *Term, val bool) bool {
	v, ok := st.eval(cond)
	return ok && v == val
}

// equals lists the terms known equal to t, t included.
func (st *State) equals(t *Term) []*Term {
	out := []*Term{t}
	seen := map[*Term]bool{t: true}
	for i := 0; i < len(out); i++ {
		x := out[i]
		for f, v := range st.facts {
			if !v || f.op != OpEq {
				continue
			}
			for k := 0; k < 2; k++ {
				if f.args[k] == x && !seen[f.args[1-k]] {
					seen[f.args[1-k]] = true
					out = append(out, f.args[1-k])
				}
			}
		}
	}
	return out
}

func (st *State) heldKeys() string {
	var s []string
	for _, h := range st.locks {
		s = append(s, fmt.Sprintf("%s:%v:%d", h.key, h.write, h.lock.id))
	}
	sort.Strings(s)
	return strings.Join(s, ",")
}

func (st *State) holdsLock(key string) (held, write bool) {
	for _, h := range st.locks {
		if h.key == key {
			held = true
			write = write || h.write
		}
	}
	return
}
