package main

import (
	"fmt"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// fieldKey names a struct field accessed through an address (empty if the
// address is not a field of a module struct or a module variable).
func fieldKey(addr ssa.Value) (key string, f *types.Var, st *types.Struct, idx int) {
	switch x := addr.(type) {
	case *ssa.FieldAddr:
		pt, ok := x.X.Type().Underlying().(*types.Pointer)
		if !ok {
			return
		}
		s := pt.Elem().Underlying().(*types.Struct)
		return structTypeName(pt.Elem()) + "." + s.Field(x.Field).Name(), s.Field(x.Field), s, x.Field
	case *ssa.Global:
		if strings.HasPrefix(x.Pkg.Pkg.Path(), modPath) {
			return globalName(x), nil, nil, -1
		}
	}
	return
}

// initPhase: functions that run only while the engine is being initialised.
func initPhase(c *Ctx) map[*ssa.Function]bool {
	fns := c.P.pkgFns("riot")
	entry := map[*ssa.Function]bool{}
	for _, n := range []string{"(*riot.Engine).Init", "(*riot.Engine).WithGse"} {
		if f := c.P.fn(n); f != nil {
			entry[f] = true
		}
	}
	callers := map[*ssa.Function]map[*ssa.Function]bool{}
	taken := map[*ssa.Function]bool{} // used as a value or as a goroutine
	for _, f := range fns {
		var ops [16]*ssa.Value
		for _, b := range f.Blocks {
			for _, ins := range b.Instrs {
				ci, isCall := ins.(ssa.CallInstruction)
				if isCall {
					if g := ci.Common().StaticCallee(); g != nil {
						if _, isGo := ins.(*ssa.Go); isGo {
							taken[g] = true
						} else {
							if callers[g] == nil {
								callers[g] = map[*ssa.Function]bool{}
							}
							callers[g][f] = true
						}
					}
				}
				for i, op := range ins.Operands(ops[:0]) {
					if fn, ok := (*op).(*ssa.Function); ok && !(isCall && i == 0) {
						taken[fn] = true
					}
				}
			}
		}
	}
	in := map[*ssa.Function]bool{}
	for _, f := range fns {
		in[f] = entry[f] || len(callers[f]) > 0 && !taken[f]
	}
	for ch := true; ch; {
		ch = false
		for _, f := range fns {
			if !in[f] || entry[f] {
				continue
			}
			for g := range callers[f] {
				if !in[g] {
					in[f] = false
					ch = true
					break
				}
			}
		}
	}
	return in
}

// engineField: the field of the engine (or of the tables it holds by value)
// that an address or value leads to, through elements, nested structs and pointers.
func engineField(v ssa.Value, seen map[ssa.Value]bool) string {
	if seen[v] {
		return ""
	}
	seen[v] = true
	switch x := v.(type) {
	case *ssa.FieldAddr:
		if pt, ok := x.X.Type().Underlying().(*types.Pointer); ok {
			n := structTypeName(pt.Elem())
			if n == "riot.Engine" || n == "riot.StopTokens" {
				if freshEngine(x.X) {
					return ""
				}
				return n + "." + pt.Elem().Underlying().(*types.Struct).Field(x.Field).Name()
			}
			if strings.HasPrefix(n, "core.") {
				return "" // the index and the ranker look after themselves
			}
		}
		return engineField(x.X, seen)
	case *ssa.IndexAddr:
		return engineField(x.X, seen)
	case *ssa.UnOp:
		if x.Op.String() == "*" {
			return engineField(x.X, seen)
		}
	case *ssa.Slice:
		return engineField(x.X, seen)
	case *ssa.Field:
		return engineField(x.X, seen)
	case *ssa.ChangeType:
		return engineField(x.X, seen)
	case *ssa.Phi:
		for _, e := range x.Edges {
			if s := engineField(e, seen); s != "" {
				return s
			}
		}
	case *ssa.Alloc:
		// a copy: what was copied into it matters only for references
		return ""
	case *ssa.Global:
		if strings.HasPrefix(x.Pkg.Pkg.Path(), modPath) && x.Pkg.Pkg.Path() == modPath {
			return globalName(x)
		}
	}
	return ""
}

// freshEngine: the engine was created in the same function and is still being put together.
func freshEngine(v ssa.Value) bool {
	switch x := v.(type) {
	case *ssa.Alloc:
		return true
	case *ssa.UnOp:
		if a, ok := x.X.(*ssa.Alloc); ok && a.Referrers() != nil {
			for _, r := range *a.Referrers() {
				if s, ok := r.(*ssa.Store); ok && s.Addr == a && !freshEngine(s.Val) {
					return false
				}
			}
			return true
		}
	}
	return false
}

// mutating names of methods of types of other packages.
func mutatingName(n string) bool {
	for _, p := range []string{"Load", "Read", "Init", "Add", "Remove", "Set", "Update", "Delete", "Reset", "Calc", "Empty", "Append", "Insert"} {
		if strings.HasPrefix(n, p) {
			return true
		}
	}
	return false
}

// handsOn: the instruction passes the address v on inside the module without
// reading or writing behind it.
func handsOn(ins ssa.Instruction, v ssa.Value) bool {
	switch x := ins.(type) {
	case *ssa.Store:
		return x.Val == v && x.Addr != v
	case *ssa.Phi, *ssa.MakeClosure, *ssa.Return, *ssa.ChangeType:
		return true
	case ssa.CallInstruction:
		cc := x.Common()
		if staticAtomic(cc) {
			return false
		}
		if _, ok := cc.Value.(*ssa.Builtin); ok {
			return false
		}
		g := cc.StaticCallee()
		return g != nil && inModule(g)
	}
	return false
}

func init() {
	register("C25", "Effect analysis over the whole module: every struct field and package variable that is operated on by sync/atomic anywhere is found; every other access to it (plain read, write, taking its value, copying its struct) is refused. Integer fields of the engine that are never used atomically must be written during initialisation only. Layout: every 64-bit field used through sync/atomic functions has an offset divisible by 8 in its struct under the 32-bit layouts (386, arm, mips), and structs that hold such a struct by value keep that alignment.",
		func(c *Ctx) {
			type fld struct {
				f   *types.Var
				st  *types.Struct
				idx int
				w64 bool
				nm  string
			}
			atomicFields := map[string]*fld{}
			all := []*ssa.Function{}
			rels := sortedKeys(c.P.Pkgs)
			for _, rel := range rels {
				all = append(all, c.P.pkgFns(rel)...)
			}
			for _, f := range all {
				for _, ci := range callsIn(f) {
					cc := ci.Common()
					if !staticAtomic(cc) || len(cc.Args) == 0 {
						continue
					}
					if k, fv, s, i := fieldKey(cc.Args[0]); k != "" {
						name := cc.StaticCallee().Name()
						fn := cc.StaticCallee().Signature.Recv() == nil
						if atomicFields[k] == nil {
							atomicFields[k] = &fld{fv, s, i, false, k}
						}
						if fn && strings.HasSuffix(name, "64") {
							atomicFields[k].w64 = true
						}
						c.ob("atomic-access", k+" at "+c.P.pos(insPos(ci)), true)
					}
				}
			}
			// Counters whose address is handed on: what it is handed to must be
			// used through sync/atomic, wherever it arrives.
			escaped := map[string]bool{} // pointer types
			for _, f := range all {
				var ops [16]*ssa.Value
				for _, b := range f.Blocks {
					for _, ins := range b.Instrs {
						for _, op := range ins.Operands(ops[:0]) {
							if *op == nil || !handsOn(ins, *op) {
								continue
							}
							k, fv, s, i := fieldKey(*op)
							if k == "" || fv == nil || !isIntType(fv.Type()) || atomicFields[k] == nil && !strings.HasPrefix(k, "riot.Engine.") {
								continue
							}
							if atomicFields[k] == nil {
								atomicFields[k] = &fld{fv, s, i, false, k}
							}
							if bt, ok := fv.Type().Underlying().(*types.Basic); ok && (bt.Kind() == types.Uint64 || bt.Kind() == types.Int64) {
								atomicFields[k].w64 = true
							}
							escaped[fv.Type().String()] = true
						}
					}
				}
			}
			owner := map[*types.Struct]string{} // structs holding atomic fields
			for _, k := range sortedKeys(atomicFields) {
				if s := atomicFields[k].st; s != nil {
					owner[s] = k[:strings.LastIndex(k, ".")]
				}
			}
			phase := initPhase(c)
			for _, f := range all {
				c.fns[fnName(f)] = true
				var ops [16]*ssa.Value
				for _, b := range f.Blocks {
					for _, ins := range b.Instrs {
						// copying a struct that holds counters
						if u, ok := ins.(*ssa.UnOp); ok && u.Op.String() == "*" {
							if s, ok := u.Type().Underlying().(*types.Struct); ok && owner[s] != "" {
								if _, local := u.X.(*ssa.Alloc); !local {
									c.violateAt("C25:copy:"+owner[s]+":"+fnName(f), ins, "%s is copied together with its counters, without sync/atomic", owner[s])
								}
							}
						}
						// through a pointer that may be a counter's address
						var addr ssa.Value
						switch x := ins.(type) {
						case *ssa.UnOp:
							if x.Op.String() == "*" {
								addr = x.X
							}
						case *ssa.Store:
							addr = x.Addr
						}
						if addr != nil && len(escaped) > 0 {
							switch addr.(type) {
							case *ssa.FieldAddr, *ssa.Alloc, *ssa.Global, *ssa.IndexAddr, *ssa.FreeVar:
							default:
								if el := ptrElem(addr.Type()); el != nil && escaped[el.String()] {
									c.ob("atomic-access", "through a pointer at "+c.P.pos(insPos(ins)), false)
									c.violateAt("C25:plain-pointer:"+fnName(f), ins, "the address of a shared counter may arrive here and is used without sync/atomic")
								}
							}
						}
						for _, op := range ins.Operands(ops[:0]) {
							if *op == nil {
								continue
							}
							k, fv, _, _ := fieldKey(*op)
							if k == "" {
								continue
							}
							if handsOn(ins, *op) {
								continue
							}
							if atomicFields[k] == nil {
								// other integer fields of the engine
								if fv != nil && strings.HasPrefix(k, "riot.Engine.") && isIntType(fv.Type()) {
									if s, ok := ins.(*ssa.Store); ok && s.Addr == *op && !phase[f] && !freshEngine((*op).(*ssa.FieldAddr).X) {
										c.ob("plain-counter-write", k+" at "+c.P.pos(insPos(ins)), false)
										c.violateAt("C25:plain:"+k+":"+fnName(f), ins, "%s is written while the engine runs, without sync/atomic", k)
									}
								}
								continue
							}
							switch x := ins.(type) {
							case *ssa.DebugRef:
								continue
							case ssa.CallInstruction:
								if staticAtomic(x.Common()) {
									continue
								}
							case *ssa.FieldAddr:
								continue // a field of a struct-typed atomic
							}
							c.ob("atomic-access", k+" at "+c.P.pos(insPos(ins)), false)
							c.violateAt("C25:plain:"+k+":"+fnName(f), ins, "%s is a shared counter and is accessed here without sync/atomic", k)
						}
					}
				}
			}
			n := 0
			for _, arch := range []string{"386", "arm", "mips"} {
				sz := types.SizesFor("gc", arch)
				for _, k := range sortedKeys(atomicFields) {
					a := atomicFields[k]
					if !a.w64 || a.st == nil {
						continue
					}
					n++
					var fs []*types.Var
					for i := 0; i < a.st.NumFields(); i++ {
						fs = append(fs, a.st.Field(i))
					}
					off := sz.Offsetsof(fs)[a.idx]
					ok := off%8 == 0
					c.ob("64-bit-alignment", fmt.Sprintf("%s at offset %d on %s", k, off, arch), ok)
					if !ok {
						c.violate("C25:align:"+k, c.P.pos(a.f.Pos()), "", fmt.Sprintf("%s is at offset %d of its struct on %s: 64-bit atomic operations on it fault there", k, off, arch), nil)
					}
				}
				// structs that hold one by value
				for _, rel := range rels {
					sc := c.P.Pkgs[rel].Types.Scope()
					for _, nm := range sc.Names() {
						tn, ok := sc.Lookup(nm).(*types.TypeName)
						if !ok {
							continue
						}
						s, ok := tn.Type().Underlying().(*types.Struct)
						if !ok {
							continue
						}
						var fs []*types.Var
						for i := 0; i < s.NumFields(); i++ {
							fs = append(fs, s.Field(i))
						}
						for i, fv := range fs {
							fsT, ok := fv.Type().Underlying().(*types.Struct)
							if !ok || owner[fsT] == "" {
								continue
							}
							w := false
							for _, k := range sortedKeys(atomicFields) {
								w = w || atomicFields[k].st == fsT && atomicFields[k].w64
							}
							if !w {
								continue
							}
							off := sz.Offsetsof(fs)[i]
							ok = off%8 == 0
							c.ob("64-bit-alignment", fmt.Sprintf("%s.%s.%s at offset %d on %s", rel, nm, fv.Name(), off, arch), ok)
							if !ok {
								c.violate("C25:align:"+rel+"."+nm, c.P.pos(fv.Pos()), "", fmt.Sprintf("%s holds %s at offset %d on %s: its 64-bit counters are misaligned there", nm, owner[fsT], off, arch), nil)
							}
						}
					}
				}
			}
			c.need("atomic-access", 6)
			c.need("64-bit-alignment", 3)
			c.note("%d fields and variables used atomically in %d functions", len(atomicFields), len(all))
		}, "structs holding counters are allocated on their own (the first word of an allocation is 64-bit aligned)")

	register("C26", "Effect analysis of the engine package: functions are split into the initialisation phase (Init, WithGse and what only they call) and everything else (operations, workers, closures). Outside the initialisation phase no instruction may write a field of the engine or of its stop list other than the atomic counters, an element of its shard lists, channels or databases, an option (also through the option pointers), or a variable of the package; nor call a loading or modifying method on a part of the engine held by value.",
		func(c *Ctx) {
			if c.P.typeOf("riot", "Engine") == nil {
				c.violate("anchor:riot.Engine", "", "", "the engine was not found", nil)
				return
			}
			phase := initPhase(c)
			fns := c.P.pkgFns("riot")
			sort.Slice(fns, func(i, j int) bool { return fnName(fns[i]) < fnName(fns[j]) })
			reads := 0
			for _, f := range fns {
				if f.Name() == "init" || strings.HasPrefix(f.Name(), "init#") || f.Synthetic != "" {
					continue
				}
				c.fns[fnName(f)] = true
				bad := false
				report := func(ins ssa.Instruction, what, how string) {
					if phase[f] {
						c.ob("structure-written-in-initialisation", fmt.Sprintf("%s in %s at %s", what, fnName(f), c.P.pos(insPos(ins))), true)
						return
					}
					bad = true
					c.violateAt("C26:"+fnName(f)+":"+what, ins, "%s is %s by %s, which runs after initialisation", what, how, fnName(f))
				}
				for _, b := range f.Blocks {
					for _, ins := range b.Instrs {
						switch x := ins.(type) {
						case *ssa.UnOp:
							if x.Op.String() == "*" {
								if s := engineField(x.X, map[ssa.Value]bool{}); strings.HasPrefix(s, "riot.Engine.") {
									reads++
								}
							}
						case *ssa.Store:
							if s := engineField(x.Addr, map[ssa.Value]bool{}); s != "" {
								report(ins, s, "written")
							} else if pt, ok := x.Addr.Type().Underlying().(*types.Pointer); ok && structTypeName(pt.Elem()) == "riot.Engine" {
								if !freshEngine(x.Addr) {
									report(ins, "the whole engine", "overwritten")
								}
							}
						case *ssa.MapUpdate:
							if s := engineField(x.Map, map[ssa.Value]bool{}); s != "" {
								report(ins, s, "modified")
							}
						case ssa.CallInstruction:
							cc := x.Common()
							if bi, ok := cc.Value.(*ssa.Builtin); ok {
								switch bi.Name() {
								case "delete", "copy", "clear":
									if s := engineField(cc.Args[0], map[ssa.Value]bool{}); s != "" {
										report(ins, s, "modified")
									}
								case "append":
									// appending in place may write behind the shared list
									if s := engineField(cc.Args[0], map[ssa.Value]bool{}); s != "" {
										report(ins, s, "appended to")
									}
								}
								continue
							}
							g := cc.StaticCallee()
							if g == nil || len(cc.Args) == 0 || g.Signature.Recv() == nil {
								continue
							}
							if staticAtomic(cc) {
								continue
							}
							if _, isPtr := g.Signature.Recv().Type().Underlying().(*types.Pointer); !isPtr {
								continue
							}
							s := engineField(cc.Args[0], map[ssa.Value]bool{})
							if s == "" {
								continue
							}
							if inModule(g) && structTypeName(ptrElem(cc.Args[0].Type())) == "riot.StopTokens" {
								continue // analysed itself
							}
							if mutatingName(g.Name()) && !strings.HasPrefix(structTypeName(ptrElem(cc.Args[0].Type())), "core.") ||
								inModule(g) && g.Name() == "Init" {
								report(ins, s, "modified through "+g.Name())
							}
						}
					}
				}
				if !phase[f] {
					c.ob("operation-leaves-structure-alone", fnName(f), !bad)
				}
			}
			c.need("structure-written-in-initialisation", 3)
			c.need("operation-leaves-structure-alone", 5)
			c.note("%d functions of the initialisation phase, %d reads of engine structure", len(phaseList(phase)), reads)
		}, "the exported construction helpers (Indexer, Ranker, InitStore, CheckMem, Store) are called by Init only", "methods of other packages whose names do not suggest modification do not modify their receiver")
}

func phaseList(m map[*ssa.Function]bool) []string {
	var out []string
	for f, ok := range m {
		if ok {
			out = append(out, fnName(f))
		}
	}
	sort.Strings(out)
	return out
}
