package main

import (
	"fmt"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// isTokenMap: token -> positions.
func isTokenMap(t types.Type) bool {
	m, ok := t.Underlying().(*types.Map)
	if !ok || !isStringType(m.Key()) {
		return false
	}
	s, ok := m.Elem().Underlying().(*types.Slice)
	return ok && isIntType(s.Elem())
}

const stopFn = "(*riot.StopTokens).IsStopToken"

// stopWord: the term for "word is in the engine's stop list".
func stopWord(word *Term) *Term { return mk(OpCall, tBool, "@stopword", word) }

// segmented: the value comes from the segmenter library.
func fromSegmenter(t *Term) bool {
	found := false
	visit(t, func(x *Term) {
		if x.op == OpCall && strings.Contains(x.aux, "go-ego/gse") {
			found = true
		}
	})
	return found
}

func init() {
	register("C29", "Filter-dominance analysis. The segmentation worker is explored with every segmentation mode and helper inlined; each write into a token map, and each keyword put into an index document, must have a key that the path has tested not to be in the engine's stop list, or that is a key of another (checked) token map, or lie on a path where the engine runs without a segmenter, when no list is in force. Every such write in the package is visited. The query side: every word that the segmenter yields and that Segment or Tokens return was tested likewise. The list itself: the test is membership of its argument, initialisation stores every non-empty line of the file, nothing is ever removed, and the engine loads the configured file before any worker starts.",
		func(c *Ctx) {
			kw := c.P.typeOf("types", "KeywordIndex")
			ti := -1
			if kw != nil {
				ti = fieldIdx(kw, "Text")
			}
			if ti < 0 {
				c.violate("C29:anchor", "", "types.KeywordIndex", "undecided: the keyword entry type is gone", nil)
				return
			}
			// instructions that put words into an index document
			sites := map[ssa.Instruction]bool{}
			holder := map[*ssa.Function]bool{}
			for _, f := range c.P.pkgFns("riot") {
				for _, b := range f.Blocks {
					for _, ins := range b.Instrs {
						switch x := ins.(type) {
						case *ssa.MapUpdate:
							if isTokenMap(x.Map.Type()) {
								sites[x] = false
								holder[f] = true
							}
						case *ssa.Store:
							if namedIs(x.Val.Type(), "types.KeywordIndex") {
								holder[f] = true
							}
							if k, _, _, _ := fieldKey(x.Addr); k == "types.KeywordIndex.Text" {
								holder[f] = true
							}
						}
					}
				}
			}
			has := func(g *ssa.Function) bool {
				return holder[g] || reaches(g, func(h *ssa.Function) bool { return holder[h] })
			}
			newStop := func(opaque func(*ssa.Function) bool) *flow {
				f := newFlow(c, opaque)
				f.onCall = func(st *State, ci *CallInfo) (bool, *Term) {
					if ci.Fn == nil || fnName(ci.Fn) != stopFn || len(ci.Args) != 2 {
						return false, nil
					}
					if !isField(ci.Args[0], "stopTokens") {
						return false, nil // another list
					}
					return true, stopWord(ci.Args[1])
				}
				return f
			}
			clean := func(st *State, k *Term) bool {
				if k.op == OpConvert && isStringType(k.typ) && isStringType(k.args[0].typ) {
					k = k.args[0]
				}
				for t, v := range st.facts { // a key of a checked map
					if v && t.op == OpMapOk && t.args[1] == k && isTokenMap(t.args[0].typ) {
						return true
					}
				}
				if st.knownFalse(stopWord(k)) {
					return true
				}
				for _, fr := range st.stack {
					if len(fr.args) > 0 && fr.args[0].typ != nil && namedIs(fr.args[0].typ, "riot.Engine") {
						if o := st.engineOpt(c, fr.args[0], "NotUseGse"); o != nil && st.truth(o) == 1 {
							return true
						}
					}
				}
				return false
			}
			hook := func(f *flow) {
				e := f.e
				e.Hooks.MapWrite = func(st *State, m, k, v *Term, ins ssa.Instruction) {
					if !isTokenMap(m.typ) {
						return
					}
					sites[ins] = true
					ok := clean(st, k)
					c.ob("token", fmt.Sprintf("%s in %s", e.pos(insPos(ins)), fnName(ins.Parent())), ok)
					if !ok {
						st.report("C29:token:"+fnName(ins.Parent()), ins, "%s becomes a keyword of the document although it may be a stop word", short(k))
					}
				}
				keyword := func(st *State, v *Term, ins ssa.Instruction) {
					ok := clean(st, v)
					c.ob("keyword", fmt.Sprintf("%s in %s", e.pos(insPos(ins)), fnName(ins.Parent())), ok)
					if !ok {
						st.report("C29:keyword:"+fnName(ins.Parent()), ins, "%s is indexed although it may be a stop word", short(v))
					}
				}
				e.Hooks.Store = func(st *State, loc, val *Term, ins ssa.Instruction) {
					if loc.op == OpFieldAddr && strings.HasSuffix(loc.aux, "types.KeywordIndex.Text") && val.op != OpConst {
						keyword(st, val, ins)
					}
					if val.typ != nil && namedIs(val.typ, "types.KeywordIndex") && val.op != OpConst {
						if _, isPtr := val.typ.Underlying().(*types.Pointer); !isPtr {
							if w := mkField(val, kw, ti); w.op != OpConst {
								keyword(st, w, ins)
							}
						}
					}
				}
				e.Hooks.Append = func(st *State, base *Term, es []*Term, res *Term, typ types.Type, ins ssa.Instruction) {
					for _, x := range es {
						if x.typ != nil && namedIs(x.typ, "types.KeywordIndex") {
							keyword(st, mkField(x, kw, ti), ins)
						}
					}
				}
			}
			f := newStop(func(g *ssa.Function) bool {
				return relOf(g) != "riot" || !has(g) && !strings.HasPrefix(fnName(g), "(*riot.StopTokens).")
			})
			hook(f)
			var roots []*ssa.Function
			for _, g := range c.goRoots("riot") {
				if has(g) {
					roots = append(roots, g)
				}
			}
			if len(roots) == 0 {
				c.violate("C29:anchor:worker", "", "riot", "undecided: no worker builds index documents", nil)
			}
			f.run(roots, nil)
			// writes outside the worker
			var rest []*ssa.Function
			dup := map[*ssa.Function]bool{}
			for ins, seen := range sites {
				g := ins.Parent()
				for g.Parent() != nil {
					g = g.Parent()
				}
				if !seen && !dup[g] {
					dup[g] = true
					rest = append(rest, g)
				}
			}
			if len(rest) > 0 {
				g := newStop(func(g *ssa.Function) bool { return !has(g) })
				hook(g)
				g.run(rest, nil)
			}
			for ins, seen := range sites {
				if !seen {
					c.violateAt("C29:unvisited:"+fnName(ins.Parent()), ins, "undecided: no explored path reaches this write into a token map")
				}
			}
			c.need("token", 1)
			c.need("keyword", 1)

			// queries
			q := newStop(func(g *ssa.Function) bool { return relOf(g) != "riot" || fnName(g) == stopFn })
			qe := q.e
			qe.Hooks.Append = func(st *State, base *Term, es []*Term, res *Term, typ types.Type, ins ssa.Instruction) {
				for _, x := range es {
					if x.typ == nil || !isStringType(x.typ) || !fromSegmenter(x) {
						continue
					}
					ok := st.knownFalse(stopWord(x))
					c.ob("query-word", fmt.Sprintf("%s in %s", qe.pos(insPos(ins)), fnName(ins.Parent())), ok)
					if !ok {
						st.report("C29:query:"+fnName(ins.Parent()), ins, "a word of the query that may be a stop word is searched")
					}
				}
			}
			raw := func(st *State, l *Term, ins ssa.Instruction) {
				if l != nil && l.typ != nil && isSliceType(l.typ) && (l.op == OpCall || l.op == OpSlice || l.op == OpExtract) && fromSegmenter(l) {
					c.ob("query-word", fmt.Sprintf("%s in %s", qe.pos(insPos(ins)), fnName(ins.Parent())), false)
					st.report("C29:query:"+fnName(ins.Parent()), ins, "the segmenter's words are searched without leaving out stop words")
				}
			}
			qe.Hooks.AppendAll = func(st *State, base, other, res *Term, typ types.Type, ins ssa.Instruction) {
				raw(st, other, ins)
				raw(st, base, ins)
			}
			q.onReturn = func(st *State, fn *ssa.Function, res []*Term, evs []*flowEv, ins ssa.Instruction) {
				for _, r := range res {
					raw(st, r, ins)
				}
			}
			var qs []*ssa.Function
			for _, n := range []string{"(*riot.Engine).Segment", "(*riot.Engine).Tokens"} {
				if fn := c.mustFn(n); fn != nil {
					qs = append(qs, fn)
				}
			}
			q.run(qs, nil)
			c.need("query-word", 1)
			c.stopList()
		},
		"the stop list file is readable and its lines fit the scanner's buffer", "query words the caller gives explicitly (Tokens, Labels) are his own choice")
}

// stopList: the list holds every line of the file, the test is membership, and
// the engine loads it.
func (c *Ctx) stopList() {
	test, load := c.mustFn(stopFn), c.mustFn("(*riot.StopTokens).Init")
	if test == nil || load == nil {
		return
	}
	e := NewEngine(c.P)
	e.Opaque = func(g *ssa.Function) bool { return relOf(g) != "riot" }
	isList := func(m *Term) bool {
		return m.op == OpLoad && m.args[0].op == OpFieldAddr && strings.HasPrefix(m.args[0].aux, "riot.StopTokens.")
	}
	e.Hooks.Return = func(st *State, fn *ssa.Function, res []*Term, ins ssa.Instruction) {
		if fn != test {
			return
		}
		word := st.stack[0].args[1]
		r := res[0]
		ok := false
		var member *Term
		visit(r, func(x *Term) {
			if x.op == OpMapOk && x.args[1] == word && isList(x.args[0]) {
				member = x
			}
		})
		for t := range st.facts {
			if t.op == OpMapOk && t.args[1] == word && isList(t.args[0]) {
				member = t
			}
		}
		if member != nil {
			ok = r == member || st.truth(member) >= 0 && st.truth(r) == st.truth(member) || len(st.equals(r)) > 0 && r == member
		}
		c.ob("membership", e.pos(insPos(ins)), ok)
		if !ok {
			st.report("C29:membership", ins, "the stop-word test is not membership of the word in the list")
		}
	}
	c.runRoots(e, []*ssa.Function{test}, nil)
	// writers of the list
	for _, f := range c.P.pkgFns("riot") {
		for _, b := range f.Blocks {
			for _, ins := range b.Instrs {
				switch x := ins.(type) {
				case *ssa.Store:
					if k, _, _, _ := fieldKey(x.Addr); strings.HasPrefix(k, "riot.StopTokens.") && f != load {
						c.violateAt("C29:list:"+fnName(f), ins, "the stop list is replaced outside its initialisation")
					}
				case *ssa.Call:
					if bi, ok := x.Call.Value.(*ssa.Builtin); ok && (bi.Name() == "delete" || bi.Name() == "clear") && fromStopList(x.Call.Args[0]) {
						c.violateAt("C29:list:"+fnName(f), ins, "words are removed from the stop list")
					}
				}
			}
		}
	}
	// loading
	l := newFlow(c, func(g *ssa.Function) bool { return relOf(g) != "riot" })
	l.keep = func(n string) bool { return strings.HasPrefix(n, "(*bufio.") }
	l.e.Hooks.MapWrite = func(st *State, m, k, v *Term, ins ssa.Instruction) {
		l.add(st, &flowEv{kind: "word", ch: m, val: k, at: ins})
	}
	isText := func(n string) bool { return strings.HasSuffix(n, ".Text") || strings.HasSuffix(n, ".ReadString") }
	nread := 0
	l.onIter = func(st *State, key string, it *flowIter, ins ssa.Instruction) {
		var text *Term
		for _, ev := range it.evs {
			if ev.kind == "call" && isText(ev.name) {
				text = ev.val
			}
		}
		if text == nil {
			return
		}
		nread++
		stored := false
		for _, ev := range it.evs {
			if ev.kind == "word" && ev.val == text {
				stored = true
			}
		}
		empty := st.truth(mkEq(text, mkStr(""))) == 1 || st.truth(mkEq(mkLen(text), mkInt(0))) == 1
		ok := stored || empty
		c.ob("list-line", l.e.pos(insPos(ins)), ok)
		if !ok {
			st.report("C29:line", ins, "a line of the stop word file is not put into the list")
		}
	}
	l.onReturn = func(st *State, fn *ssa.Function, res []*Term, evs []*flowEv, ins ssa.Instruction) {
		if len(st.stack[0].args) < 2 {
			return
		}
		ended, skipped := false, false
		for i, ev := range evs {
			if ev.kind != "call" || !strings.HasSuffix(ev.name, ".Scan") {
				continue
			}
			if st.knownFalse(ev.val) {
				ended = true
				continue
			}
			stored := false
			for _, x := range evs[i:] {
				stored = stored || x.kind == "word"
			}
			skipped = skipped || !stored
		}
		none := st.truth(mkEq(st.stack[0].args[1], mkStr(""))) == 1
		ok := none || ended && !skipped
		c.ob("list-complete", l.e.pos(insPos(ins)), ok)
		if !ok {
			st.report("C29:partial", ins, "loading skips lines or may end before the last line of the stop word file")
		}
	}
	l.run([]*ssa.Function{load}, nil)
	c.need("list-line", 1)
	c.need("list-complete", 1)
	// the engine loads the configured file
	if init := c.mustFn("(*riot.Engine).Init"); init != nil {
		f := newBuildFlow(c)
		f.keep = func(n string) bool { return n == "(*riot.StopTokens).Init" }
		op := f.e.Opaque
		f.e.Opaque = func(g *ssa.Function) bool { return strings.HasPrefix(fnName(g), "(*riot.StopTokens).") || op(g) }
		f.onReturn = func(st *State, fn *ssa.Function, res []*Term, evs []*flowEv, ins ssa.Instruction) {
			eng := st.stack[0].args[0]
			off := st.engineOpt(c, eng, "NotUseGse")
			file := st.engineOpt(c, eng, "StopTokenFile")
			st.split([]*Term{off}, func(st *State) {
				at, start := -1, len(evs)
				for i, ev := range evs {
					if ev.kind == "call" && ev.name == "(*riot.StopTokens).Init" && isField(ev.args[0], "stopTokens") && st.same(ev.args[1], file) {
						at = i
					}
					if start == len(evs) && c.startsWorker(f, st, ev) {
						start = i
					}
				}
				ok := st.knownTrue(off) || at >= 0 && at < start
				c.ob("list-loaded", f.e.pos(insPos(ins)), ok)
				if !ok {
					st.report("C29:load", ins, "the configured stop word file is not loaded before the workers start")
				}
			})
		}
		f.run([]*ssa.Function{init}, nil)
		c.need("list-loaded", 1)
	}
}

// startsWorker: the event (or an iteration of the loop) starts a goroutine.
func (c *Ctx) startsWorker(f *flow, st *State, ev *flowEv) bool {
	if ev.kind == "go" {
		return true
	}
	if ev.kind == "loop" {
		for _, it := range f.recs(st, ev) {
			for _, x := range it.evs {
				if c.startsWorker(f, it.st, x) {
					return true
				}
			}
		}
	}
	return false
}

func fromStopList(v ssa.Value) bool {
	u, ok := v.(*ssa.UnOp)
	if !ok {
		return false
	}
	k, _, _, _ := fieldKey(u.X)
	return strings.HasPrefix(k, "riot.StopTokens.")
}
