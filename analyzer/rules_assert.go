package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// unchecked type assertions of a function.
func uncheckedIn(fn *ssa.Function) []*ssa.TypeAssert {
	var out []*ssa.TypeAssert
	for _, b := range fn.Blocks {
		for _, ins := range b.Instrs {
			if x, ok := ins.(*ssa.TypeAssert); ok && !x.CommaOk {
				out = append(out, x)
			}
		}
	}
	return out
}

func generated(fn *ssa.Function) bool {
	return fn.Pkg != nil && strings.HasSuffix(fn.Pkg.Pkg.Path(), "riot-pb")
}

// reachable: functions of the module reachable from the roots by static calls,
// interface calls (any implementation in the module), closures and function values.
func (c *Ctx) reachable(roots []*ssa.Function) map[*ssa.Function]bool {
	impl := map[string][]*ssa.Function{}
	for _, f := range c.P.Fns {
		if f.Signature.Recv() != nil {
			impl[f.Name()] = append(impl[f.Name()], f)
		}
	}
	seen := map[*ssa.Function]bool{}
	var walk func(f *ssa.Function)
	walk = func(f *ssa.Function) {
		if f == nil || seen[f] || !inModule(f) {
			return
		}
		seen[f] = true
		for _, b := range f.Blocks {
			for _, ins := range b.Instrs {
				if ci, ok := ins.(ssa.CallInstruction); ok && ci.Common().IsInvoke() {
					cc := ci.Common()
					if it, ok := cc.Value.Type().Underlying().(*types.Interface); ok {
						for _, g := range impl[cc.Method.Name()] {
							rt := g.Signature.Recv().Type()
							if types.Implements(rt, it) || types.Implements(types.NewPointer(rt), it) {
								walk(g)
							}
						}
					}
				}
				for _, op := range ins.Operands(nil) {
					if g, ok := (*op).(*ssa.Function); ok {
						walk(g)
					}
				}
			}
		}
		for _, a := range f.AnonFuncs {
			walk(a)
		}
	}
	for _, r := range roots {
		walk(r)
	}
	return seen
}

func isZeroConst(v ssa.Value) bool {
	k, ok := v.(*ssa.Const)
	return ok && k.Value != nil && k.Value.Kind() == constant.Int && k.Int64() == 0
}

// callable from outside the package: no parameter needs an unexported type.
func callable(f *ssa.Function) bool {
	var hidden func(t types.Type) bool
	hidden = func(t types.Type) bool {
		switch x := t.(type) {
		case *types.Named:
			return x.Obj().Pkg() != nil && strings.HasPrefix(x.Obj().Pkg().Path(), modPath) && !x.Obj().Exported()
		case *types.Pointer:
			return hidden(x.Elem())
		case *types.Slice:
			return hidden(x.Elem())
		case *types.Chan:
			return hidden(x.Elem())
		case *types.Map:
			return hidden(x.Key()) || hidden(x.Elem())
		}
		return false
	}
	p := f.Signature.Params()
	for i := 0; i < p.Len(); i++ {
		if hidden(p.At(i).Type()) {
			return false
		}
	}
	return true
}

// sameDyn removes the wrapping of a value that keeps its dynamic type.
func sameDyn(t *Term) *Term {
	for t != nil && t.op == OpConvert && isIface(t.typ) {
		t = t.args[0]
	}
	return t
}

func init() {
	register("C30", "Dynamic-type provenance analysis. Every unchecked type assertion (no comma-ok) in a function reachable from the engine's methods, its workers or a network handler is visited on every path by the path-sensitive interpreter; it is accepted only if the operand is known on that path to be a value of exactly that type: converted from it on the path, or the non-nil payload of a shard reply while the engine's IDOnly option is known, the payload's type for each setting being established by exploring every sender of replies, the ranker's Rank for each setting of its own flag, and the initialisation that hands the engine's option to every ranker. Assertions on any other value (attributes, fields, results whose type depends on options) are violations.",
		func(c *Ctx) {
			roots := c.serviceRoots()
			scope := c.reachable(roots)
			sites := map[ssa.Instruction]bool{}
			holder := map[*ssa.Function]bool{}
			for f := range scope {
				if generated(f) {
					continue
				}
				c.fns[fnName(f)] = true
				for _, x := range uncheckedIn(f) {
					sites[x] = false
					holder[f] = true
				}
			}
			c.note("%d functions reachable, %d unchecked assertions", len(scope), len(sites))
			byIDs, okRank := c.rankTypes()
			has := func(g *ssa.Function) bool {
				return holder[g] || reaches(g, func(h *ssa.Function) bool { return holder[h] })
			}
			comm := communicates(c)
			check := func(f *flow, st *State, x *Term, typ types.Type, ins ssa.Instruction) {
				if _, ok := sites[ins]; !ok {
					return
				}
				sites[ins] = true
				site := f.e.pos(insPos(ins))
				x = sameDyn(x)
				ok := false
				why := fmt.Sprintf("unchecked conversion to %s of a value that is not known to be one", typ)
				switch {
				case st.truth(mk(OpAssertOk, tBool, typ.String(), x)) == 1:
					ok = true // tested on the way
				case x.op == OpMakeIface:
					if types.IsInterface(typ) {
						ok = types.Implements(x.typ, typ.Underlying().(*types.Interface))
					} else {
						ok = types.Identical(x.typ, typ)
					}
				case replyPayload(x) && okRank:
					id := st.idOnlyOption(c)
					tr := -1
					if id != nil {
						tr = st.truth(id)
					}
					switch {
					case st.isNilTerm(x) != 0:
						why = "unchecked conversion of a shard's reply that may hold no result"
					case tr < 0:
						why = "unchecked conversion of a shard's reply although the IDOnly option is not known here"
					case !types.Identical(byIDs[tr == 1], typ):
						why = fmt.Sprintf("a shard's reply is converted to %s, but the ranker returns %s when IDOnly is %v", typ, byIDs[tr == 1], tr == 1)
					default:
						ok = true
					}
				}
				c.ob("assertion", site, ok)
				if !ok {
					st.report("C30:assert:"+fnName(ins.Parent()), ins, "%s", why)
				}
			}
			// engine and workers
			engine := newFlow(c, func(g *ssa.Function) bool {
				return !has(g) && (coreWork(g) || !comm(g) && !leaf(g) || !c.gathers(g))
			})
			engine.e.Hooks.Assert = func(st *State, x *Term, typ types.Type, commaOk bool, ins ssa.Instruction) {
				if !commaOk {
					check(engine, st, x, typ, ins)
				}
			}
			var er, nr []*ssa.Function
			for _, r := range roots {
				if !has(r) && !holder[r] {
					continue
				}
				if relOf(r) == "riot" {
					er = append(er, r)
				} else {
					nr = append(nr, r)
				}
			}
			engine.run(er, nil)
			c.replies(byIDs, okRank)
			// network handlers: results and attributes only through checked conversions
			net := newFlow(c, func(g *ssa.Function) bool {
				rel := relOf(g)
				return !strings.HasPrefix(rel, "net") || generated(g)
			})
			net.e.Hooks.Assert = func(st *State, x *Term, typ types.Type, commaOk bool, ins ssa.Instruction) {
				if !commaOk {
					check(net, st, x, typ, ins)
				}
			}
			net.run(nr, nil)
			// what no exploration reached on a path from a root: on its own
			rest := map[*ssa.Function]bool{}
			var rr []*ssa.Function
			for ins, seen := range sites {
				f := ins.Parent()
				for f.Parent() != nil {
					f = f.Parent()
				}
				if !seen && !rest[f] {
					rest[f] = true
					rr = append(rr, f)
				}
			}
			if len(rr) > 0 {
				alone := newFlow(c, func(g *ssa.Function) bool { return !has(g) })
				alone.e.Hooks.Assert = func(st *State, x *Term, typ types.Type, commaOk bool, ins ssa.Instruction) {
					if !commaOk {
						check(alone, st, x, typ, ins)
					}
				}
				alone.run(rr, nil)
			}
			for ins, seen := range sites {
				if !seen {
					c.violateAt("C30:unvisited:"+fnName(ins.Parent()), ins, "undecided: no explored path reaches this unchecked conversion")
				}
			}
			n := 0
			for range scope {
				n++
			}
			c.ob("functions-in-scope", "reachable functions", n > 100)
			c.need("functions-in-scope", 1)
		},
		"user code (scoring criteria) does not itself assert types", "options are fixed once initialised (C26)")
}

// serviceRoots: the engine's methods, its workers and the network front-ends.
func (c *Ctx) serviceRoots() []*ssa.Function {
	var roots []*ssa.Function
	seen := map[*ssa.Function]bool{}
	for _, f := range c.P.Fns {
		if f.Pkg == nil || f.Parent() != nil || generated(f) || len(f.Blocks) == 0 {
			continue
		}
		rel := relOf(f)
		if rel != "riot" && !strings.HasPrefix(rel, "net") {
			continue
		}
		if rel == "riot" && (f.Signature.Recv() == nil || !namedIs(f.Signature.Recv().Type(), "riot.Engine")) {
			continue // construction from a configuration
		}
		if rel != "riot" || isExported(f) && callable(f) {
			roots = append(roots, f)
			seen[f] = true
		}
	}
	for _, g := range c.goRoots("riot") {
		if !seen[g] {
			seen[g] = true
			roots = append(roots, g)
		}
	}
	return roots
}

// gathers: the function receives shard replies or calls one that does.
func (c *Ctx) gathers(g *ssa.Function) bool {
	isG := func(f *ssa.Function) bool {
		for _, b := range f.Blocks {
			for _, ins := range b.Instrs {
				switch x := ins.(type) {
				case *ssa.UnOp:
					if x.Op.String() == "<-" {
						return true
					}
				case *ssa.Select:
					return true
				}
			}
		}
		return false
	}
	return isG(g) || reaches(g, isG)
}

// replyPayload: the dynamically typed field of a received message.
func replyPayload(x *Term) bool {
	return x != nil && x.op == OpField && isIface(x.typ) && x.args[0].op == OpRecv && isMsg(x.args[0].typ)
}

// idOnlyOption: the engine's IDOnly option on the path.
func (st *State) idOnlyOption(c *Ctx) *Term {
	if len(st.stack) == 0 || len(st.stack[0].args) == 0 {
		return nil
	}
	return st.engineOpt(c, st.stack[0].args[0], "IDOnly")
}

// rankTypes: the dynamic type of the ranker's results for each setting of its flag.
func (c *Ctx) rankTypes() (map[bool]types.Type, bool) {
	out := map[bool]types.Type{}
	fn := c.mustFn("(*core.Ranker).Rank")
	if fn == nil {
		return out, false
	}
	ok := true
	rt := c.P.typeOf("core", "Ranker")
	flag := fieldIdx(rt, "idOnly")
	if flag < 0 {
		c.violateFn("C30:undecided:flag", fn, "undecided: the ranker has no idOnly flag")
		return out, false
	}
	e := NewEngine(c.P)
	e.Opaque = func(g *ssa.Function) bool { return true }
	e.Stable = func(loc *Term) bool { return loc.op == OpFieldAddr && loc.aux == "core.Ranker.idOnly" }
	e.Hooks.Return = func(st *State, f *ssa.Function, res []*Term, ins ssa.Instruction) {
		v := sameDyn(res[0])
		if v.isNil() {
			return
		}
		id := st.load(mkFieldAddr(st.stack[0].args[0], rt, flag), structOf(rt).Field(flag).Type())
		tr := st.truth(id)
		good := v.op == OpMakeIface && tr >= 0
		if good {
			if old := out[tr == 1]; old != nil && !types.Identical(old, v.typ) {
				good = false
			}
			out[tr == 1] = v.typ
		}
		c.ob("rank-type", e.pos(insPos(ins)), good)
		if !good {
			ok = false
			st.report("C30:rank:"+fnName(f), ins, "the type of the ranker's results is not determined by its idOnly flag")
		}
	}
	c.runRoots(e, []*ssa.Function{fn}, nil)
	// the flag is the engine's option
	for _, f := range c.P.Fns {
		for _, b := range f.Blocks {
			for _, ins := range b.Instrs {
				s, isS := ins.(*ssa.Store)
				if !isS {
					continue
				}
				fa, isF := s.Addr.(*ssa.FieldAddr)
				if !isF {
					continue
				}
				if k, _, _, _ := fieldKey(fa); k != "core.Ranker.idOnly" {
					continue
				}
				v := s.Val
				for {
					if u, ok := v.(*ssa.UnOp); ok && u.Op == token.MUL {
						v = u.X
					} else if ia, ok := v.(*ssa.IndexAddr); ok && isZeroConst(ia.Index) {
						v = ia.X
					} else {
						break
					}
				}
				p, isP := v.(*ssa.Parameter)
				good := fnName(f) == "(*core.Ranker).Init" && isP && len(f.Params) == 2 && p == f.Params[1]
				c.ob("rank-flag", fnName(f), good)
				if !good {
					ok = false
					c.violateAt("C30:flag:"+fnName(f), ins, "the ranker's idOnly flag is set to something other than what initialisation was given")
				}
			}
		}
	}
	if init := c.mustFn("(*riot.Engine).Init"); init != nil {
		f := newBuildFlow(c)
		model := f.onCall
		f.onCall = func(st *State, ci *CallInfo) (bool, *Term) {
			if ci.Fn == nil || fnName(ci.Fn) != "(*core.Ranker).Init" || len(ci.Args) < 2 {
				return model(st, ci)
			}
			a := ci.Args[1]
			if a.op == OpSlice {
				if l := variadic(st, a); len(l) == 1 {
					a = l[0]
				}
			}
			opt := st.engineOpt(c, st.stack[0].args[0], "IDOnly")
			good := opt != nil && (a == opt || st.truth(opt) >= 0 && st.truth(opt) == st.truth(a))
			c.ob("rank-init", f.e.pos(insPos(ci.Instr)), good)
			if !good {
				ok = false
				st.report("C30:init", ci.Instr, "a ranker is initialised with an idOnly flag other than the engine's IDOnly option")
			}
			return false, nil
		}
		f.run([]*ssa.Function{init}, nil)
		c.need("rank-init", 1)
	}
	c.need("rank-type", 1)
	if out[true] == nil || out[false] == nil {
		ok = false
		c.violateFn("C30:undecided:rank", fn, "undecided: no result of the ranker was found for one setting of its flag")
	}
	return out, ok
}

// replies: every reply a worker sends carries no result or what the ranker
// returned, or a value of the same type as the ranker's.
func (c *Ctx) replies(byIDs map[bool]types.Type, okRank bool) {
	comm := communicates(c)
	f := newFlow(c, func(g *ssa.Function) bool { return coreWork(g) || !comm(g) && !leaf(g) })
	e := f.e
	e.Hooks.Send = func(st *State, ch, v *Term, ins ssa.Instruction) {
		if v.typ == nil || !isMsg(v.typ) || isSearchMsg(v.typ) {
			return
		}
		s := structOf(v.typ)
		if chanName(ch) != "" {
			return // a request
		}
		for i := 0; i < s.NumFields(); i++ {
			if !isIface(s.Field(i).Type()) {
				continue
			}
			d := sameDyn(mkField(v, v.typ, i))
			ok := false
			switch {
			case d.isNil() || d == zeroOf(s.Field(i).Type()):
				ok = true
			case d.op == OpMakeIface:
				id := st.idOnlyOption(c)
				tr := -1
				if id != nil {
					tr = st.truth(id)
				}
				ok = okRank && (tr >= 0 && types.Identical(byIDs[tr == 1], d.typ))
			default:
				ok = rankResult(d)
			}
			c.ob("reply-type", e.pos(insPos(ins)), ok)
			if !ok {
				st.report("C30:reply:"+fnName(ins.Parent()), ins, "a reply carries a result whose type does not follow from the IDOnly option")
			}
		}
	}
	var roots []*ssa.Function
	for _, g := range c.goRoots("riot") {
		if g.Signature.Recv() != nil {
			roots = append(roots, g)
		}
	}
	f.run(roots, nil)
	c.need("reply-type", 1)
}

func rankResult(d *Term) bool {
	if d.op == OpExtract || d.op == OpField {
		d = d.args[0]
	}
	return d.op == OpCall && strings.HasPrefix(d.aux, "(*core.Ranker).Rank") || d.op == OpCall && strings.Contains(d.aux, "core.Ranker).Rank#")
}
