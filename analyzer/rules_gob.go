package main

import (
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// dynTypes: the concrete types a value of interface type may hold; open is set
// if it (also) comes from a caller outside the module or from a source that
// keeps whatever was stored before.
func (c *Ctx) dynTypes(v ssa.Value, seen map[ssa.Value]bool) (out []dynType, open bool) {
	if seen[v] {
		return nil, false
	}
	seen[v] = true
	switch x := v.(type) {
	case *ssa.MakeInterface:
		return []dynType{{x.X.Type(), x}}, false
	case *ssa.ChangeInterface:
		return c.dynTypes(x.X, seen)
	case *ssa.Phi:
		for _, e := range x.Edges {
			o, op := c.dynTypes(e, seen)
			out, open = append(out, o...), open || op
		}
		return
	case *ssa.Const:
		return nil, false
	case *ssa.Parameter:
		fn := x.Parent()
		i := 0
		for i < len(fn.Params) && fn.Params[i] != x {
			i++
		}
		for _, f := range c.P.Fns {
			for _, ci := range callsIn(f) {
				if cc := ci.Common(); cc.StaticCallee() == fn && i < len(cc.Args) {
					o, op := c.dynTypes(cc.Args[i], seen)
					out, open = append(out, o...), open || op
				}
			}
		}
		return out, open || isExported(fn)
	case *ssa.Call:
		g := x.Call.StaticCallee()
		if g == nil || !inModule(g) {
			return nil, true
		}
		for _, r := range returnsOf(g) {
			o, op := c.dynTypes(r.Results[0], seen)
			out, open = append(out, o...), open || op
		}
		return
	case *ssa.Extract:
		if cl, ok := x.Tuple.(*ssa.Call); ok {
			if g := cl.Call.StaticCallee(); g != nil && inModule(g) {
				for _, r := range returnsOf(g) {
					o, op := c.dynTypes(r.Results[x.Index], seen)
					out, open = append(out, o...), open || op
				}
				return
			}
		}
		return nil, true
	case *ssa.UnOp:
		// a local variable
		if a, ok := x.X.(*ssa.Alloc); ok {
			for _, ref := range *a.Referrers() {
				if s, ok := ref.(*ssa.Store); ok && s.Addr == a {
					o, op := c.dynTypes(s.Val, seen)
					out, open = append(out, o...), open || op
				}
			}
			return
		}
		return nil, true
	}
	return nil, true
}

type dynType struct {
	t  types.Type
	at ssa.Instruction
}

func returnsOf(f *ssa.Function) []*ssa.Return {
	var out []*ssa.Return
	for _, b := range f.Blocks {
		if len(b.Instrs) > 0 {
			if r, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return); ok {
				out = append(out, r)
			}
		}
	}
	return out
}

// everyPath: block b is on every path of its function from entry to a return.
func everyPath(b *ssa.BasicBlock) bool {
	fn := b.Parent()
	if fn.Blocks[0] == b {
		return true
	}
	seen := map[*ssa.BasicBlock]bool{b: true}
	if fn.Synthetic != "" && fn.Name() == "init" && len(fn.Blocks[0].Succs) == 2 {
		seen[fn.Blocks[0].Succs[0]] = true // initialised before
	}
	var walk func(x *ssa.BasicBlock) bool
	walk = func(x *ssa.BasicBlock) bool {
		if seen[x] {
			return true
		}
		seen[x] = true
		if len(x.Succs) == 0 {
			_, panics := x.Instrs[len(x.Instrs)-1].(*ssa.Panic)
			return panics
		}
		for _, s := range x.Succs {
			if !walk(s) {
				return false
			}
		}
		return true
	}
	return walk(fn.Blocks[0])
}

// registrations: the types a function registers with gob on every path.
func registrations(fn *ssa.Function, seen map[*ssa.Function]bool, add func(t types.Type)) {
	if seen[fn] {
		return
	}
	seen[fn] = true
	for _, ci := range callsIn(fn) {
		call, ok := ci.(*ssa.Call)
		if !ok || call.Call.StaticCallee() == nil {
			continue
		}
		g := call.Call.StaticCallee()
		switch n := g.String(); {
		case n == "encoding/gob.Register" || n == "encoding/gob.RegisterName":
			a := call.Call.Args[len(call.Call.Args)-1]
			if m, ok := a.(*ssa.MakeInterface); ok {
				if everyPath(call.Block()) {
					add(m.X.Type())
				}
				continue
			}
			for _, m := range listed(a) {
				if everyPath(m.Block()) {
					add(m.X.Type())
				}
			}
		case inModule(g):
			if everyPath(call.Block()) {
				registrations(g, seen, add)
			}
		}
	}
}

// listed: a is the current element of a range over a literal list.
func listed(a ssa.Value) []*ssa.MakeInterface {
	u, ok := a.(*ssa.UnOp)
	if !ok {
		return nil
	}
	ia, ok := u.X.(*ssa.IndexAddr)
	if !ok {
		return nil
	}
	v := ia.X
	if s, ok := v.(*ssa.Slice); ok {
		v = s.X
	}
	al, ok := v.(*ssa.Alloc)
	if !ok {
		return nil
	}
	var out []*ssa.MakeInterface
	for _, r := range *al.Referrers() {
		if x, ok := r.(*ssa.IndexAddr); ok && x != ia {
			for _, rr := range *x.Referrers() {
				if s, ok := rr.(*ssa.Store); ok {
					if m, ok := s.Val.(*ssa.MakeInterface); ok {
						out = append(out, m)
					}
				}
			}
		}
	}
	return out
}

// preRegistered: the types encoding/gob registers itself.
func preRegistered(t types.Type) bool {
	if t != types.Unalias(t) {
		t = types.Unalias(t)
	}
	if s, ok := t.(*types.Slice); ok {
		t = types.Unalias(s.Elem())
	}
	b, ok := t.(*types.Basic)
	return ok && b.Kind() != types.UnsafePointer && b.Kind() != types.Invalid
}

// gobFields: why a value of the type cannot be encoded, "" if it can.
func gobFields(t types.Type) string {
	for {
		p, ok := t.Underlying().(*types.Pointer)
		if !ok {
			break
		}
		t = p.Elem()
	}
	ms := types.NewMethodSet(types.NewPointer(t))
	for _, n := range []string{"GobEncode", "MarshalBinary"} {
		if ms.Lookup(nil, n) != nil {
			return ""
		}
	}
	switch u := t.Underlying().(type) {
	case *types.Chan, *types.Signature:
		return "it is a channel or function"
	case *types.Struct:
		for i := 0; i < u.NumFields(); i++ {
			f := u.Field(i)
			switch f.Type().Underlying().(type) {
			case *types.Chan, *types.Signature:
				continue
			}
			if f.Exported() {
				return ""
			}
		}
		return "it has no exported field"
	}
	return ""
}

func init() {
	register("C31", "Registration coverage analysis. Every store into an interface-typed field of a document (DocData and every struct type stored inside one) is resolved to the concrete types it may receive, through conversions, joins, locals, parameters of internal callers and results of helpers; each such type must be one the serializer knows by itself or be registered, as exactly that type, by code that runs on every path of the initialisers of the storing package or of a package it imports (registrations inside conditionals do not count), and must have something to encode.",
		func(c *Ctx) {
			doc := c.P.typeOf("types", "DocData")
			if doc == nil {
				c.violate("C31:anchor", "", "types.DocData", "undecided: the document type is gone", nil)
				return
			}
			// struct types inside a document
			inDoc := map[string]bool{}
			var grow func(t types.Type)
			grow = func(t types.Type) {
				switch x := t.Underlying().(type) {
				case *types.Pointer:
					grow(x.Elem())
				case *types.Slice:
					grow(x.Elem())
				case *types.Array:
					grow(x.Elem())
				case *types.Map:
					grow(x.Key())
					grow(x.Elem())
				case *types.Struct:
					n := structTypeName(t)
					if inDoc[n] {
						return
					}
					inDoc[n] = true
					for i := 0; i < x.NumFields(); i++ {
						grow(x.Field(i).Type())
					}
				}
			}
			grow(doc)
			// registrations per package
			regs := map[string][]types.Type{}
			for path, pk := range c.P.SSA {
				if f := pk.Func("init"); f != nil {
					registrations(f, map[*ssa.Function]bool{}, func(t types.Type) { regs[path] = append(regs[path], t) })
				}
			}
			known := func(pkg *types.Package, t types.Type) bool {
				seen := map[string]bool{}
				var walk func(p *types.Package) bool
				walk = func(p *types.Package) bool {
					if seen[p.Path()] || !strings.HasPrefix(p.Path(), modPath) {
						return false
					}
					seen[p.Path()] = true
					rel := strings.TrimPrefix(strings.TrimPrefix(p.Path(), modPath), "/")
					if rel == "" {
						rel = "riot"
					}
					for _, r := range regs[rel] {
						if types.Identical(r, t) {
							return true
						}
					}
					for _, q := range p.Imports() {
						if walk(q) {
							return true
						}
					}
					return false
				}
				return walk(pkg)
			}
			scope := c.reachable(c.serviceRoots())
			done := map[string]bool{}
			for again := true; again; {
				again = false
				for _, f := range c.P.Fns {
					if f.Pkg == nil || generated(f) || !scope[f] {
						continue
					}
					for _, b := range f.Blocks {
						for _, ins := range b.Instrs {
							s, ok := ins.(*ssa.Store)
							if !ok || !isIface(s.Val.Type()) {
								continue
							}
							fa, ok := s.Addr.(*ssa.FieldAddr)
							if !ok || !inDoc[structTypeName(ptrElem(fa.X.Type()))] {
								continue
							}
							key, _, _, _ := fieldKey(fa)
							site := c.P.pos(ins.Pos()) + " " + key
							if done[site] {
								continue
							}
							done[site] = true
							c.fns[fnName(f)] = true
							ts, open := c.dynTypes(s.Val, map[ssa.Value]bool{})
							c.ob("document-field", site, true)
							if open {
								c.note("%s: may hold what a caller stored", site)
							}
							for _, d := range ts {
								if inMod(d.t) {
									n := len(inDoc)
									grow(d.t)
									again = again || len(inDoc) != n
								}
								good := preRegistered(d.t) || known(f.Pkg.Pkg, d.t)
								why := ""
								if good {
									why = gobFields(d.t)
									good = why == ""
								}
								c.ob("registered", site+" "+d.t.String(), good)
								if !good {
									if why != "" {
										c.violateAt("C31:encode:"+fnName(f)+":"+key, ins, "a document's field receives a value of type %s, which cannot be stored: %s", d.t, why)
									} else {
										c.violateAt("C31:type:"+fnName(f)+":"+key, ins, "a document's field receives a value of type %s, which is not registered with the serializer: the document cannot be stored", d.t)
									}
								}
							}
						}
					}
				}
			}
			c.need("registered", 1)
		},
		"documents built by users of the engine hold types the user registered")
}

func inMod(t types.Type) bool {
	if p, ok := t.(*types.Pointer); ok {
		t = p.Elem()
	}
	n, ok := types.Unalias(t).(*types.Named)
	return ok && n.Obj().Pkg() != nil && strings.HasPrefix(n.Obj().Pkg().Path(), modPath)
}
