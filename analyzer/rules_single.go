package main

import (
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func isEngineType(t types.Type) bool {
	n, ok := types.Unalias(t).(*types.Named)
	return ok && structTypeName(n) == "riot.Engine"
}

func holdsEngine(t types.Type) bool {
	switch x := t.Underlying().(type) {
	case *types.Array:
		return isEngineType(x.Elem()) || holdsEngine(x.Elem())
	case *types.Struct:
		if isEngineType(t) {
			return true
		}
		for i := 0; i < x.NumFields(); i++ {
			if isEngineType(x.Field(i).Type()) || holdsEngine(x.Field(i).Type()) {
				return true
			}
		}
	}
	return false
}

// instances: the engines a pointer may refer to, by name; "" stands for one
// that cannot be told.
func (c *Ctx) instances(v ssa.Value, seen map[ssa.Value]bool, add func(name string, at ssa.Value)) {
	if seen[v] {
		return
	}
	seen[v] = true
	stores := func(match func(a ssa.Value) bool) int {
		n := 0
		for _, f := range append(c.initFns(), c.P.Fns...) {
			for _, b := range f.Blocks {
				for _, ins := range b.Instrs {
					if s, ok := ins.(*ssa.Store); ok && match(s.Addr) {
						n++
						c.instances(s.Val, seen, add)
					}
				}
			}
		}
		return n
	}
	switch x := v.(type) {
	case *ssa.Global:
		add("variable "+globalName(x), x)
	case *ssa.FieldAddr:
		if isEngineType(ptrElem(x.Type())) {
			k, _, _, _ := fieldKey(x)
			add("field "+k, x)
			return
		}
		add("", x)
	case *ssa.Alloc:
		fn := x.Parent()
		if fn.Synthetic != "" && fn.Name() == "init" {
			add("engine made at "+c.P.pos(x.Pos()), x)
			return
		}
		add("engine made in "+fnName(fn), x)
	case *ssa.Phi:
		for _, e := range x.Edges {
			c.instances(e, seen, add)
		}
	case *ssa.ChangeType:
		c.instances(x.X, seen, add)
	case *ssa.Const:
		// nil: no engine
	case *ssa.MakeInterface:
		c.instances(x.X, seen, add)
	case *ssa.ChangeInterface:
		c.instances(x.X, seen, add)
	case *ssa.TypeAssert:
		c.instances(x.X, seen, add)
	case *ssa.UnOp:
		if x.Op != token.MUL {
			add("", x)
			return
		}
		switch a := x.X.(type) {
		case *ssa.Global:
			if stores(func(v ssa.Value) bool { return v == a }) == 0 {
				add("", x)
			}
		case *ssa.FieldAddr:
			k, _, _, _ := fieldKey(a)
			stores(func(v ssa.Value) bool {
				fa, ok := v.(*ssa.FieldAddr)
				if !ok {
					return false
				}
				k2, _, _, _ := fieldKey(fa)
				return k2 == k
			})
		case *ssa.Alloc:
			stores(func(v ssa.Value) bool { return v == a })
		case *ssa.FreeVar:
			c.freeVar(a, seen, add, true)
		default:
			add("", x)
		}
	case *ssa.FreeVar:
		c.freeVar(x, seen, add, false)
	case *ssa.Parameter:
		fn := x.Parent()
		i := 0
		for i < len(fn.Params) && fn.Params[i] != x {
			i++
		}
		for _, f := range append(c.initFns(), c.P.Fns...) {
			for _, ci := range callsIn(f) {
				if cc := ci.Common(); cc.StaticCallee() == fn && i < len(cc.Args) {
					c.instances(cc.Args[i], seen, add)
				}
			}
		}
	case *ssa.Call:
		g := x.Call.StaticCallee()
		if g == nil || !inModule(g) {
			add("", x)
			return
		}
		if !strings.HasPrefix(relOf(g), "net") {
			add("engine returned by "+fnName(g)+" in "+fnName(x.Parent()), x)
			return
		}
		for _, r := range returnsOf(g) {
			c.instances(r.Results[0], seen, add)
		}
	case *ssa.Extract:
		if cl, ok := x.Tuple.(*ssa.Call); ok {
			if g := cl.Call.StaticCallee(); g != nil && inModule(g) {
				for _, r := range returnsOf(g) {
					c.instances(r.Results[x.Index], seen, add)
				}
				return
			}
		}
		add("", x)
	default:
		add("", v)
	}
}

func (c *Ctx) freeVar(x *ssa.FreeVar, seen map[ssa.Value]bool, add func(string, ssa.Value), content bool) {
	fn := x.Parent()
	i := 0
	for i < len(fn.FreeVars) && fn.FreeVars[i] != x {
		i++
	}
	for _, f := range c.P.Fns {
		for _, b := range f.Blocks {
			for _, ins := range b.Instrs {
				m, ok := ins.(*ssa.MakeClosure)
				if !ok || m.Fn != fn {
					continue
				}
				if !content {
					c.instances(m.Bindings[i], seen, add)
					continue
				}
				if a, ok := m.Bindings[i].(*ssa.Alloc); ok {
					for _, r := range *a.Referrers() {
						if s, ok := r.(*ssa.Store); ok && s.Addr == a {
							c.instances(s.Val, seen, add)
						}
					}
				} else {
					add("", x)
				}
			}
		}
	}
}

// initFns: the package initialisers.
func (c *Ctx) initFns() []*ssa.Function {
	var out []*ssa.Function
	for _, rel := range sortedKeys(c.P.SSA) {
		if f := c.P.SSA[rel].Func("init"); f != nil {
			out = append(out, f)
		}
	}
	return out
}

func init() {
	register("C33", "Instance provenance analysis. Every receiver of an engine method called in the network packages is resolved, through package variables and all their assignments, struct fields, locals, closures, parameters and helper results, to the engines it may denote; all of them together must denote one instance, a package variable or one made once by a package initialiser. No engine value is copied anywhere in the module (no load, assignment, parameter, result or conversion of an Engine that is not a pointer), and some front-end initialises the instance.",
		func(c *Ctx) {
			type use struct {
				site ssa.Instruction
				fn   *ssa.Function
			}
			found := map[string][]use{}
			inits := map[string]bool{}
			for _, f := range append(c.initFns(), c.P.Fns...) {
				rel := relOf(f)
				if generated(f) {
					continue
				}
				net := strings.HasPrefix(rel, "net")
				if !net && rel != "riot" && rel != "engine" {
					continue
				}
				c.fns[fnName(f)] = true
				for _, b := range f.Blocks {
					for _, ins := range b.Instrs {
						// copies
						if u, ok := ins.(*ssa.UnOp); ok && u.Op == token.MUL && (isEngineType(u.Type()) || net && holdsEngine(u.Type())) {
							c.ob("no-copy", c.P.pos(u.Pos()), false)
							c.violateAt("C33:copy:"+fnName(f), ins, "an engine is copied: what is done on the copy is not seen by the others")
						}
						if s, ok := ins.(*ssa.Store); ok && isEngineType(s.Val.Type()) {
							once := f.Synthetic != "" && f.Name() == "init"
							if _, zero := s.Val.(*ssa.Const); !zero || !once {
								if a, local := s.Addr.(*ssa.Alloc); !zero || !local || !a.Heap {
									c.ob("no-copy", c.P.pos(s.Pos()), false)
									c.violateAt("C33:overwrite:"+fnName(f), ins, "an engine is overwritten or copied")
								}
							}
						}
						if m, ok := ins.(*ssa.MakeClosure); ok && net && len(m.Bindings) == 1 && namedIs(m.Bindings[0].Type(), "riot.Engine") && strings.HasSuffix(m.Fn.Name(), "$bound") {
							c.resolve(m.Bindings[0], f, ins, func(n string) { found[n] = append(found[n], use{ins, f}) })
						}
						ci, ok := ins.(ssa.CallInstruction)
						if !ok || !net {
							continue
						}
						cc := ci.Common()
						g := cc.StaticCallee()
						if g == nil || g.Signature.Recv() == nil || !namedIs(g.Signature.Recv().Type(), "riot.Engine") || len(cc.Args) == 0 {
							if cc.IsInvoke() && engineIface(cc.Value.Type(), c) {
								c.resolve(cc.Value, f, ins, func(n string) { found[n] = append(found[n], use{ins, f}) })
							}
							continue
						}
						c.resolve(cc.Args[0], f, ins, func(n string) {
							found[n] = append(found[n], use{ins, f})
							if g.Name() == "Init" {
								inits[n] = true
							}
						})
					}
				}
			}
			c.ob("no-copy", "all functions of the engine and network packages", true)
			main := ""
			for _, n := range sortedKeys(found) {
				if inits[n] && (main == "" || len(found[n]) > len(found[main])) {
					main = n
				}
			}
			if main == "" {
				c.violate("C33:init", "", "net", "no front-end initialises the engine the handlers use", nil)
			}
			for _, n := range sortedKeys(found) {
				for _, u := range found[n] {
					c.ob("one-instance", c.P.pos(u.site.Pos())+" "+fnName(u.fn), n == main)
				}
				if n != main {
					u := found[n][0]
					c.violateAt("C33:other:"+fnName(u.fn)+":"+n, u.site, "an operation works on %s, while the engine that is initialised is %s", n, main)
				}
				if strings.HasPrefix(n, "engine made in ") || strings.HasPrefix(n, "engine returned by ") {
					u := found[n][0]
					if !strings.Contains(n, " in init") && !strings.Contains(n, ".init") {
						c.violateAt("C33:fresh:"+fnName(u.fn), u.site, "an operation works on an %s: not one shared instance", n)
					}
				}
			}
			c.need("one-instance", 1)
		})
}

// engineIface: a dynamic call that may be on an engine.
func engineIface(t types.Type, c *Ctx) bool {
	it, ok := t.Underlying().(*types.Interface)
	e := c.P.typeOf("riot", "Engine")
	return ok && it.NumMethods() > 0 && e != nil && types.Implements(types.NewPointer(e), it)
}

func (c *Ctx) resolve(v ssa.Value, f *ssa.Function, ins ssa.Instruction, add func(string)) {
	n := 0
	c.instances(v, map[ssa.Value]bool{}, func(name string, at ssa.Value) {
		n++
		if name == "" {
			name = "an engine that cannot be told (" + at.Name() + " in " + fnName(at.Parent()) + ")"
		}
		add(name)
	})
	if n == 0 && !isExported(f) {
		return
	}
	if n == 0 {
		add("an engine handed in by a caller")
	}
}
