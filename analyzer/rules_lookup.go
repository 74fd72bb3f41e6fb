package main

import (
	"fmt"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

const (
	fTable     = "core.Indexer.tableLock.table"
	fDocsState = "core.Indexer.tableLock.docsState"
	fDocIds    = "core.KeywordIndices.docIds"
	lockTable  = "core.Indexer.tableLock"
)

// isSearchIndex recognises the binary search in a posting list by its type.
func isSearchIndex(fn *ssa.Function) bool {
	if fn == nil || !inModule(fn) {
		return false
	}
	s := fn.Signature
	if s.Results().Len() != 2 || !isIntType(s.Results().At(0).Type()) || !types.Identical(s.Results().At(1).Type().Underlying(), types.Typ[types.Bool]) {
		return false
	}
	list, str, ints := 0, 0, 0
	for i := 0; i < s.Params().Len(); i++ {
		t := s.Params().At(i).Type()
		switch {
		case namedIs(t, "core.KeywordIndices"):
			list++
		case isStringType(t):
			str++
		case isIntType(t):
			ints++
		}
	}
	return list == 1 && str == 1 && ints == 2
}

// searchIndexModel abstracts the binary search by its contract (which C03's
// contract rule establishes from the function's own body).
func searchIndexModel(st *State, c *CallInfo) (bool, *Term) {
	if !isSearchIndex(c.Fn) {
		return false, nil
	}
	var list, doc *Term
	var rng []*Term
	for i, p := range c.Fn.Params {
		if i >= len(c.Args) {
			break
		}
		switch {
		case namedIs(p.Type(), "core.KeywordIndices"):
			list = c.Args[i]
		case isStringType(p.Type()):
			doc = c.Args[i]
		case isIntType(p.Type()):
			rng = append(rng, c.Args[i])
		}
	}
	ver := st.version("f:" + fDocIds)
	pos := mk(OpCall, tInt, "@pos:"+ver, list, doc, rng[0], rng[1])
	found := mk(OpCall, tBool, "@found:"+ver, list, doc, rng[0], rng[1])
	st.addFact(mkLt(pos, rng[0]), false)
	st.addFact(mkLt(mkAdd(rng[1], mkInt(1)), pos), false)
	return true, mk(OpTuple, c.Result, "", pos, found)
}

func isFound(t *Term) bool { return t.op == OpCall && strings.HasPrefix(t.aux, "@found:") }
func isPos(t *Term) bool   { return t.op == OpCall && strings.HasPrefix(t.aux, "@pos:") }

// posOf gives the position term that goes with a found term.
func posOf(f *Term) *Term {
	return mk(OpCall, tInt, "@pos:"+strings.TrimPrefix(f.aux, "@found:"), f.args...)
}

type gather struct {
	list *Term // the keyword list walked
	idx  *Term // index expression of the keyword in the iteration
	all  bool  // every iteration pushes
	ok   bool
}

type lookups struct {
	c     *Ctx
	e     *Engine
	docF  int
	idxdT types.Type
	// gathers by loop key and table term
	gath, prevGath map[string]map[*Term]*gather
	scen           map[*Term]*scenario
	onReturn       func(st *State, sc *scenario, fn *ssa.Function, res []*Term, ins ssa.Instruction)
	onBackedge     func(st *State, fr *Frame, h *ssa.BasicBlock, phis, vals []*Term)
	cands          map[*Term]bool // candidate documents of previous pass
}

// clause activity in a scenario
type clause int

const (
	clOff clause = iota
	clFlag
	clExpr
	clBoth
)

type scenario struct {
	root               *ssa.Function
	logic              bool
	must, should, not_ clause
	docIds             *Term
	logicT             *Term
	lm, ls, ln         *kwList // keyword list of each clause (nil: inactive)
	tokens, labels     *Term
	countOnly          *Term
	count              int // -1 unknown, 0 false, 1 true
	idsGiven           bool
}

// kwList is the keyword list of a clause: a given term, or the concatenation
// of the query's tokens and labels.
type kwList struct{ t, a, b *Term }

func (l *lookups) isList(st *State, t *Term, k *kwList) bool {
	if t == nil {
		return false
	}
	if k.t != nil {
		return t == k.t
	}
	return l.isConcat(st, t, k.a, k.b)
}

func (sc *scenario) name() string {
	if !sc.logic {
		return "plain"
	}
	switch {
	case sc.must != clOff:
		return "must"
	case sc.should != clOff:
		return "should"
	}
	return "notin"
}

func newLookups(c *Ctx) *lookups {
	l := &lookups{c: c, scen: map[*Term]*scenario{}}
	l.idxdT = c.P.typeOf("types", "IndexedDoc")
	l.docF = fieldIdx(l.idxdT, "DocId")
	e := NewEngine(c.P)
	l.e = e
	e.Guard = coreGuard
	e.Opaque = func(fn *ssa.Function) bool {
		// score computation over positions: its result is no part of these properties
		s := fn.Signature
		if fn.Pkg == nil || !strings.HasSuffix(fn.Pkg.Pkg.Path(), "/core") || s.Results().Len() != 2 {
			return false
		}
		_, sl := s.Results().At(1).Type().Underlying().(*types.Slice)
		return isIntType(s.Results().At(0).Type()) && sl
	}
	e.Domain = func(t *Term) ([]int64, bool) {
		if t.op == OpMapVal && loadsField(t.args[0], fDocsState) {
			return []int64{0, 1, 2}, true
		}
		if loadsField(t, "types.IndexerOpts.IndexType") {
			return []int64{0, 1, 2}, true
		}
		return nil, false
	}
	e.Stable = func(loc *Term) bool {
		return loc.op == OpFieldAddr && (strings.HasPrefix(loc.aux, "types.IndexerOpts.") || loc.aux == "core.Indexer.initialized")
	}
	e.Hooks.Call = searchIndexModel
	e.Hooks.Branch = func(st *State, cond *Term, v bool, ins ssa.Instruction) {
		for cond.op == OpNot {
			cond, v = cond.args[0], !v
		}
		if isFound(cond) && v {
			st.addFact(mkLt(cond.args[3], posOf(cond)), false)
		}
	}
	e.Hooks.Copy = func(st *State, dst, src *Term, ins ssa.Instruction) {
		r, lo, _ := sliceParts(dst)
		st.mark("copied", r, lo, src)
	}
	e.Hooks.Store = func(st *State, loc, val *Term, ins ssa.Instruction) {
		if loc.op == OpIndexAddr && isLocalRoot(rootOf(loc)) {
			st.mark("stored", loc.args[0], loc.args[1], val)
		}
	}
	e.PassStart = func() {
		l.prevGath, l.gath = l.gath, map[string]map[*Term]*gather{}
	}
	e.Hooks.Backedge = func(st *State, fr *Frame, h *ssa.BasicBlock, phis, vals []*Term) {
		l.gatherLoop(st, fr, h, phis, vals)
		if l.onBackedge != nil {
			l.onBackedge(st, fr, h, phis, vals)
		}
	}
	e.Hooks.Append = func(st *State, base *Term, elems []*Term, res *Term, typ types.Type, ins ssa.Instruction) {
		el := typ.Underlying().(*types.Slice).Elem()
		for _, x := range elems {
			switch {
			case types.Identical(el, l.idxdT):
				d := mkField(x, l.idxdT, l.docF)
				l.derive(st, d)
				l.now(st, d)
			case isStringType(el):
				l.derive(st, x)
			}
			if dbg && len(l.scen) == 1 {
				fmt.Println("append", e.pass, st.e.pos(insPos(ins)), x)
				dumpFacts(st.facts)
				for _, fa := range st.forall {
					fmt.Println("  forall", fa.ctx, fa.init, fa.step)
					dumpFacts(fa.facts)
					for t, g := range l.prevGath[fa.ctx] {
						fmt.Println("    gather", t, g.list, g.idx, g.all, g.ok)
					}
				}
			}
		}
	}
	e.Hooks.MapWrite = func(st *State, m, k, v *Term, ins ssa.Instruction) {
		if isStringType(k.typ) && isLocalRoot(rootOf(m)) {
			l.derive(st, k)
		}
	}
	return l
}

func (l *lookups) scenOf(st *State) *scenario {
	return l.scen[st.stack[0].args[0]]
}

// isKeywordOf: t is table[kw] for an element kw of list; gives the element index.
func keywordElem(t *Term) (list, idx *Term, kw *Term, ok bool) {
	if t.op == OpMapVal && loadsField(t.args[0], fTable) {
		b, i, k := elemLoad(t.args[1])
		if k {
			return b, i, t.args[1], true
		}
	}
	return nil, nil, nil, false
}

// gatherLoop recognises loops that collect the posting lists of a list of keywords.
func (l *lookups) gatherLoop(st *State, fr *Frame, h *ssa.BasicBlock, phis, vals []*Term) {
	key := l.e.loopKey(fr, h)
	m := l.gath[key]
	if m == nil {
		m = map[*Term]*gather{}
		l.gath[key] = m
	}
	merge := func(tab *Term, list, idx *Term, pushed, ok bool) {
		g := m[tab]
		if g == nil {
			m[tab] = &gather{list: list, idx: idx, all: pushed, ok: ok}
			return
		}
		if g.list != list || g.idx != idx || !ok {
			g.ok = false
		}
		if !pushed {
			g.all = false
		}
	}
	isTab := func(t types.Type) bool {
		s, ok := t.Underlying().(*types.Slice)
		return ok && namedIs(s.Elem(), "core.KeywordIndices")
	}
	pushedKw := func(v *Term) (list, idx *Term, ok bool) {
		for _, x := range st.equals(v) {
			if li, i, _, k := keywordElem(x); k {
				// the entry must really be in the table
				mo := mk(OpMapOk, tBool, x.aux, x.args[0], x.args[1])
				if st.holds(mo, true) {
					return li, i, true
				}
			}
		}
		return nil, nil, false
	}
	var missing [][2]*Term
	for f, v := range st.facts {
		if !v && f.op == OpMapOk && loadsField(f.args[0], fTable) {
			if b, i, k := elemLoad(f.args[1]); k {
				missing = append(missing, [2]*Term{b, i})
			}
		}
	}
	inIter := func(i *Term) bool {
		for _, p := range phis {
			if contains(i, p) {
				return true
			}
		}
		return false
	}
	for k, p := range phis {
		if !isTab(p.typ) {
			continue
		}
		v := vals[k]
		switch {
		case v.op == OpAppend && v.args[0] == p && len(v.args) == 2:
			list, idx, ok := pushedKw(v.args[1])
			merge(p, list, idx, true, ok && inIter(idx))
		case v == p:
			done := false
			for _, mi := range missing {
				if inIter(mi[1]) {
					merge(p, mi[0], mi[1], false, true)
					done = true
					break
				}
			}
			if !done {
				merge(p, nil, nil, false, false)
			}
		default:
			merge(p, nil, nil, false, false)
		}
	}
	// tables filled by index
	for f, v := range st.facts {
		if v && f.op == OpCall && f.aux == "@stored" && isTab(f.args[0].typ) && inIter(f.args[1]) {
			list, idx, ok := pushedKw(f.args[2])
			merge(f.args[0], list, f.args[1], true, ok && idx == f.args[1])
		}
	}
}

// collects: table t holds the posting list of every keyword of list
// (all: every keyword; otherwise every keyword that has one).
func (l *lookups) collects(st *State, t *Term, k *kwList, all bool) bool {
	root, lo, hi := sliceParts(t)
	if lo != mkInt(0) || hi != mkLen(root) {
		return false
	}
	for _, fa := range st.forall {
		g := l.prevGath[fa.ctx][root]
		if g == nil || !g.ok || all && !g.all || !l.isList(st, g.list, k) {
			continue
		}
		list := g.list
		sp, ok := st.loopSpan(fa, g.idx)
		if !ok || !st.covered([]span{sp}, mkInt(0), mkLen(list)) {
			continue
		}
		if root.op == OpPhi {
			// starts empty
			for i, p := range fa.phi {
				if p == root && st.proveLe(mkLen(fa.init[i]), mkInt(0)) {
					return true
				}
			}
			continue
		}
		if st.proveLe(mkLen(root), mkLen(list)) {
			return true
		}
	}
	return k.t != nil && st.proveLe(mkLen(k.t), mkInt(0))
}

// inList: doc is known to be in the posting list.
func (l *lookups) foundFacts(st *State, doc *Term, want bool) []*Term {
	var out []*Term
	for f, v := range st.facts {
		if v == want && isFound(f) && st.same(f.args[1], doc) {
			out = append(out, f)
		}
	}
	return out
}

// allIn: for every list in t, doc was found there (or, with want false, found absent).
func (l *lookups) allIn(st *State, t, doc *Term, want bool) bool {
	root, lo, hi := sliceParts(t)
	if st.proveLe(hi, lo) {
		return true
	}
	var spans []span
	eqs := st.equals(doc)
	isDoc := map[*Term]bool{}
	for _, d := range eqs {
		isDoc[d] = true
	}
	for _, fa := range st.forall {
		for f, v := range fa.facts {
			if v != want || !isFound(f) || !isDoc[f.args[1]] {
				continue
			}
			if !want && !l.fullRange(st, f) {
				continue
			}
			b, i, ok := elemLoad(f.args[0])
			if !ok || b != root {
				continue
			}
			if sp, ok := st.loopSpan(fa, i); ok {
				spans = append(spans, sp)
			}
		}
	}
	for f, v := range st.facts {
		if v != want || !isFound(f) || !isDoc[f.args[1]] || !want && !l.fullRange(st, f) {
			continue
		}
		if b, i, ok := elemLoad(f.args[0]); ok && b == root {
			spans = append(spans, span{i, i})
		}
	}
	if want {
		for _, d := range eqs {
			if b, _, ok := elemLoad(d); ok && loadsField(b, fDocIds) {
				list := b.args[0].args[0]
				if bb, i, ok := elemLoad(list); ok && bb == root {
					spans = append(spans, span{i, i})
				}
			}
		}
	}
	return st.covered(spans, lo, hi)
}

// fullRange: the search covered the whole list (start 0, end len-1).
func (l *lookups) fullRange(st *State, f *Term) bool {
	if f.args[2] != mkInt(0) {
		return false
	}
	ids := mk(OpLoad, types.NewSlice(tString), strings.TrimPrefix(f.aux, "@found:"), mkFieldAddr(f.args[0], l.c.P.typeOf("core", "KeywordIndices"), fieldIdx(l.c.P.typeOf("core", "KeywordIndices"), "docIds")))
	return f.args[3] == mkSub(mkLen(ids), mkInt(1))
}

// derive records what is known about a document on this path, under names
// that survive being put into a slice.
func (l *lookups) derive(st *State, doc *Term) {
	sc := l.scenOf(st)
	if sc == nil {
		return
	}
	ver := st.version("m:" + fDocsState)
	held, _ := st.holdsLock(lockTable)
	eqs := st.equals(doc)
	isDoc := map[*Term]bool{}
	for _, d := range eqs {
		isDoc[d] = true
	}
	// live
	for f, v := range st.facts {
		if !v || f.op != OpMapOk || !isDoc[f.args[1]] {
			continue
		}
		if loadsField(f.args[0], fDocsState) && f.aux == ver && held {
			if st.holds(mkEq(mk(OpMapVal, tInt, f.aux, f.args[0], f.args[1]), mkInt(0)), true) {
				st.mark("live:"+ver, doc)
			}
		}
		if sc.docIds != nil && f.args[0] == sc.docIds {
			st.mark("ids", doc)
		}
	}
	if !sc.logic {
		if l.plainAll(st, sc, doc) {
			st.mark("all", doc)
		}
		return
	}
	if sc.lm == nil {
		st.mark("must", doc)
	} else {
		for t := range l.tables(st) {
			if dbg {
				fmt.Println("DERIVE", t, l.collects(st, t, sc.lm, true), l.allIn(st, t, doc, true))
			}
			if l.collects(st, t, sc.lm, true) && l.allIn(st, t, doc, true) {
				st.mark("must", doc)
				break
			}
		}
	}
	if sc.ls == nil {
		st.mark("should", doc)
	} else if l.someIn(st, sc.ls, doc) {
		st.mark("should", doc)
	}
	if sc.ln == nil {
		st.mark("notin", doc)
	} else {
		for t := range l.tables(st) {
			if l.collects(st, t, sc.ln, false) && l.allIn(st, t, doc, false) {
				st.mark("notin", doc)
				break
			}
		}
	}
}

// tables lists the gathered tables visible on this path.
func (l *lookups) tables(st *State) map[*Term]bool {
	out := map[*Term]bool{}
	for _, fa := range st.forall {
		for t := range l.prevGath[fa.ctx] {
			out[t] = true
		}
	}
	return out
}

// someIn: doc is in the posting list of some keyword of list.
func (l *lookups) someIn(st *State, k *kwList, doc *Term) bool {
	var lists []*Term
	for _, f := range l.foundFacts(st, doc, true) {
		lists = append(lists, f.args[0])
	}
	for _, d := range st.equals(doc) {
		if b, _, ok := elemLoad(d); ok && loadsField(b, fDocIds) {
			lists = append(lists, b.args[0].args[0])
		}
	}
	for _, x := range lists {
		for _, y := range st.equals(x) {
			if li, _, _, ok := keywordElem(y); ok && l.isList(st, li, k) {
				return true
			}
		}
	}
	return false
}

// plainAll: doc is in the posting list of every token and label.
func (l *lookups) plainAll(st *State, sc *scenario, doc *Term) bool {
	k := &kwList{a: sc.tokens, b: sc.labels}
	for t := range l.tables(st) {
		if l.collects(st, t, k, true) && l.allIn(st, t, doc, true) {
			return true
		}
	}
	return false
}

// isConcat: list holds exactly the elements of a followed by those of b.
func (l *lookups) isConcat(st *State, list, a, b *Term) bool {
	if list.op == OpMake {
		return st.marked("copied", list, mkInt(0), a) && st.marked("copied", list, mkLen(a), b) &&
			st.proveEqInt(mkLen(list), mkAdd(mkLen(a), mkLen(b)))
	}
	// append(append(empty, a...), b...)
	var parts []*Term
	x := list
	for x.op == OpAppendAll {
		parts = append([]*Term{x.args[1]}, parts...)
		x = x.args[0]
	}
	if !st.proveLe(mkLen(x), mkInt(0)) {
		if x != a {
			return false
		}
		parts = append([]*Term{a}, parts...)
	}
	return len(parts) == 2 && parts[0] == a && parts[1] == b
}

// now records that what is known about the document is known at the moment
// it is put in the answer.
func (l *lookups) now(st *State, doc *Term) {
	ver := st.version("m:" + fDocsState)
	held, _ := st.holdsLock(lockTable)
	for _, d := range st.equals(doc) {
		if held && st.marked("live:"+ver, d) {
			st.mark("live", doc)
		}
		for _, n := range []string{"ids", "all", "must", "should", "notin"} {
			if st.marked(n, d) {
				st.mark(n, doc)
			}
		}
	}
}

// docFacts gives the marks that hold for every document of the answer; top
// if it has none.
func (l *lookups) docFacts(s *Term) (map[string]bool, bool) {
	f, top := l.e.elemFacts(s, map[*Term]bool{})
	out := map[string]bool{}
	h := holeField(l.docF)
	for a, v := range f {
		if v && a.op == OpCall && strings.HasPrefix(a.aux, "@") && len(a.args) == 1 && a.args[0] == h {
			out[a.aux[1:]] = true
		}
	}
	return out, top
}

// param finds the root's parameter by type/position.
func paramTerm(st *State, fn *ssa.Function, match func(p *ssa.Parameter) bool) *Term {
	for i, p := range fn.Params {
		if match(p) {
			return st.stack[0].args[i]
		}
	}
	return nil
}

// start prepares the initial state of a scenario. Each scenario gets its own
// receiver term so that its terms do not mix with others'.
func (l *lookups) start(sc *scenario, tag string) *State {
	fn := sc.root
	args := make([]*Term, len(fn.Params))
	args[0] = mk(OpParam, fn.Params[0].Type(), fnName(fn)+"."+fn.Params[0].Name()+"/"+tag)
	st := l.e.newState(fn, args)
	st.top().ctx = fnName(fn) + "/" + tag
	l.scen[args[0]] = sc
	var strs []*Term
	for i, p := range fn.Params {
		t := st.stack[0].args[i]
		switch u := p.Type().Underlying().(type) {
		case *types.Map:
			sc.docIds = t
		case *types.Basic:
			if u.Kind() == types.Bool {
				sc.countOnly = t
			}
		case *types.Slice:
			if isStringType(u.Elem()) {
				strs = append(strs, t)
			}
			if namedIs(u.Elem(), "types.Logic") {
				if !sc.logic {
					st.assume(mkEq(mkLen(t), mkInt(0)), true)
				} else {
					st.assume(mkLt(mkInt(0), mkLen(t)), true)
					sc.logicT = t
				}
			}
		case *types.Struct:
			if namedIs(p.Type(), "types.Logic") {
				sc.logicT = t
			}
		}
	}
	if sc.count >= 0 {
		st.assume(sc.countOnly, sc.count == 1)
	}
	if sc.idsGiven {
		st.assume(mkEq(sc.docIds, mkNil()), false)
	}
	if len(strs) == 2 {
		sc.tokens, sc.labels = strs[0], strs[1]
	}
	if sc.logic {
		lt := l.c.P.typeOf("types", "Logic")
		et := l.c.P.typeOf("types", "Expr")
		get := func(name string) *Term {
			i := fieldIdx(lt, name)
			if i < 0 {
				return nil
			}
			if _, ok := sc.logicT.typ.Underlying().(*types.Slice); ok {
				s := lt.Underlying().(*types.Struct)
				return st.load(mkFieldAddr(mkIndexAddr(sc.logicT, mkInt(0), lt), lt, i), s.Field(i).Type())
			}
			return mkField(sc.logicT, lt, i)
		}
		expr := get("Expr")
		own := &kwList{a: sc.tokens, b: sc.labels}
		ownLen := (*Term)(nil)
		if len(strs) == 1 {
			own = &kwList{t: strs[0]}
			ownLen = mkLen(strs[0])
		} else {
			ownLen = mkAdd(mkLen(sc.tokens), mkLen(sc.labels))
		}
		set := func(cl clause, name string) *kwList {
			flag := get(name)
			list := mkField(expr, et, fieldIdx(et, name))
			st.assume(flag, cl == clFlag || cl == clBoth)
			st.assume(mkLt(mkInt(0), mkLen(list)), cl == clExpr || cl == clBoth)
			st.assume(mkEq(mkLen(list), mkInt(0)), cl == clOff || cl == clFlag)
			switch cl {
			case clFlag:
				st.assume(mkLt(mkInt(0), ownLen), true)
				return own
			case clExpr, clBoth:
				return &kwList{t: list}
			}
			return nil
		}
		sc.lm = set(sc.must, "Must")
		sc.ls = set(sc.should, "Should")
		sc.ln = set(sc.not_, "NotIn")
	}
	return st
}
