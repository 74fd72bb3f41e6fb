package main

import (
	"fmt"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// handlers: the functions of the network packages that serve a request, and
// which parameter is the request.
func (c *Ctx) handlers() (fns []*ssa.Function, param map[*ssa.Function]int) {
	param = map[*ssa.Function]int{}
	var ifaces []*types.Interface
	for rel, pk := range c.P.Pkgs {
		if !strings.HasPrefix(rel, "net") && !strings.HasSuffix(rel, "riot-pb") {
			continue
		}
		sc := pk.Types.Scope()
		for _, n := range sc.Names() {
			if it, ok := sc.Lookup(n).Type().Underlying().(*types.Interface); ok && strings.HasSuffix(n, "Server") && it.NumMethods() > 0 {
				ifaces = append(ifaces, it)
			}
		}
	}
	helper := c.onlyCalled()
	for _, f := range c.P.Fns {
		rel := relOf(f)
		if !strings.HasPrefix(rel, "net") || helper[f] || generated(f) || f.Parent() != nil || len(f.Blocks) == 0 {
			continue
		}
		for i, p := range f.Params {
			if namedIs(p.Type(), "net/http.Request") || strings.HasSuffix(p.Type().String(), "*net/http.Request") {
				param[f] = i
				fns = append(fns, f)
				break
			}
		}
		if r := f.Signature.Recv(); r != nil {
			for _, it := range ifaces {
				if !types.Implements(r.Type(), it) && !types.Implements(types.NewPointer(r.Type()), it) {
					continue
				}
				for j := 0; j < it.NumMethods(); j++ {
					if it.Method(j).Name() != f.Name() {
						continue
					}
					for i, p := range f.Params {
						if i > 0 && isMessage(p.Type()) {
							if _, dup := param[f]; !dup {
								param[f] = i
								fns = append(fns, f)
							}
						}
					}
				}
			}
		}
	}
	return
}

// onlyCalled: the unexported functions (no methods) that the module calls and never uses as a
// value: they run as parts of their callers only.
func (c *Ctx) onlyCalled() map[*ssa.Function]bool {
	called, used := map[*ssa.Function]bool{}, map[*ssa.Function]bool{}
	for _, f := range c.P.Fns {
		for _, b := range f.Blocks {
			for _, ins := range b.Instrs {
				var callee *ssa.Value
				if ci, ok := ins.(ssa.CallInstruction); ok && !ci.Common().IsInvoke() {
					callee = &ci.Common().Value
					if g, ok := (*callee).(*ssa.Function); ok {
						if _, plain := ins.(*ssa.Call); plain {
							called[g] = true
						} else {
							used[g] = true
						}
					}
				}
				for _, o := range ins.Operands(nil) {
					if g, ok := (*o).(*ssa.Function); ok && o != callee {
						used[g] = true
					}
				}
			}
		}
	}
	r := map[*ssa.Function]bool{}
	for f := range called {
		if o := f.Object(); o != nil && !o.Exported() && f.Signature.Recv() == nil && !used[f] {
			r[f] = true
		}
	}
	return r
}

// isMessage: pointer to a generated message.
func isMessage(t types.Type) bool {
	p, ok := t.Underlying().(*types.Pointer)
	if !ok {
		return false
	}
	n, ok := types.Unalias(p.Elem()).(*types.Named)
	return ok && n.Obj().Pkg() != nil && strings.HasSuffix(n.Obj().Pkg().Path(), "riot-pb")
}

// derivedFrom: t is (part of) the request.
func derivedFrom(t, req *Term) bool {
	for t != nil {
		if t == req {
			return true
		}
		switch t.op {
		case OpLoad, OpFieldAddr, OpIndexAddr, OpField, OpIndex, OpMapVal, OpMapCell, OpConvert, OpSlice, OpExtract:
			if len(t.args) == 0 {
				return false
			}
			t = t.args[0]
		case OpCall:
			// the request's own accessors
			if strings.Contains(t.aux, "riot") {
				return false
			}
			if len(t.args) == 0 {
				return false
			}
			t = t.args[0]
		case OpRangeVal, OpRangeKey:
			if len(t.args) == 0 {
				return false
			}
			t = t.args[0]
		default:
			return false
		}
	}
	return false
}

func init() {
	register("C32", "Nil-dereference dataflow analysis. Every method of a type that implements a generated server interface, and every HTTP handler of the network packages, is explored with all helpers and generated accessors inlined, from an arbitrary well-formed request. Each dereference of a message-typed field of the request must be reached only on paths that established the field is present; each index or slice of a repeated field, string or parameter list of the request must be within its length, and each write into a map of the request must be into a map known to exist.",
		func(c *Ctx) {
			roots, param := c.handlers()
			f := newFlow(c, func(g *ssa.Function) bool { return !strings.HasPrefix(relOf(g), "net") })
			e := f.e
			e.Stable = func(loc *Term) bool {
				root := loc
				for root.op == OpLoad || root.op == OpFieldAddr || root.op == OpIndexAddr {
					root = root.args[0]
				}
				return root.op == OpParam && isMessage(root.typ)
			}
			request := func(st *State) *Term {
				fr := st.stack[0]
				if i, ok := param[fr.fn]; ok && i < len(fr.args) {
					return fr.args[i]
				}
				return nil
			}
			e.Hooks.Deref = func(st *State, ptr *Term, ins ssa.Instruction) {
				req := request(st)
				if req == nil || ptr.op == OpFieldAddr || ptr.op == OpIndexAddr || ptr == req || !isMessage(ptr.typ) && !optionalHTTP(ptr) || !derivedFrom(ptr, req) {
					return
				}
				if ptr.op == OpLoad && ptr.args[0].op == OpIndexAddr || ptr.op == OpRangeVal {
					return // elements of repeated fields are always present
				}
				ok := st.isNilTerm(ptr) == 0
				c.ob("presence", fmt.Sprintf("%s in %s", e.pos(insPos(ins)), fnName(st.stack[0].fn)), ok)
				if !ok {
					st.report("C32:nil:"+fnName(ins.Parent())+":"+short(ptr), ins, "%s of the request is dereferenced although the request may omit it", short(ptr))
				}
			}
			e.Hooks.Index = func(st *State, base, idx *Term, ins ssa.Instruction) {
				req := request(st)
				if req == nil || base.op == OpAlloc || base.op == OpIndexAddr || !derivedFrom(base, req) {
					return
				}
				if _, isMap := base.typ.Underlying().(*types.Map); isMap {
					return
				}
				ok := st.proveLe(mkInt(0), idx) && st.proveLt(idx, mkLen(base))
				c.ob("element-present", fmt.Sprintf("%s in %s", e.pos(insPos(ins)), fnName(st.stack[0].fn)), ok)
				if !ok {
					st.report("C32:index:"+fnName(ins.Parent())+":"+short(base), ins, "element %v of %s of the request is used although the request may hold fewer", idx, short(base))
				}
			}
			e.Hooks.Slice = func(st *State, base, lo, hi *Term, ins ssa.Instruction) {
				req := request(st)
				if req == nil || base.op == OpAlloc || !derivedFrom(base, req) {
					return
				}
				ok := st.proveLe(mkInt(0), lo) && st.proveLe(lo, hi) && st.proveLe(hi, mkLen(base))
				c.ob("element-present", fmt.Sprintf("%s in %s", e.pos(insPos(ins)), fnName(st.stack[0].fn)), ok)
				if !ok {
					st.report("C32:slice:"+fnName(ins.Parent())+":"+short(base), ins, "a slice of %s of the request may be out of range", short(base))
				}
			}
			e.Hooks.MapWrite = func(st *State, m, k, v *Term, ins ssa.Instruction) {
				req := request(st)
				if req == nil || !derivedFrom(m, req) {
					return
				}
				ok := st.isNilTerm(m) == 0
				c.ob("map-present", fmt.Sprintf("%s in %s", e.pos(insPos(ins)), fnName(st.stack[0].fn)), ok)
				if !ok {
					st.report("C32:map:"+fnName(ins.Parent())+":"+short(m), ins, "a map of the request is written although the request may omit it")
				}
			}
			e.Hooks.Fatal = func(st *State, name string, ins ssa.Instruction) {
				if request(st) != nil {
					c.ob("no-exit", fmt.Sprintf("%s in %s", e.pos(insPos(ins)), fnName(st.stack[0].fn)), false)
					st.report("C32:exit:"+fnName(ins.Parent()), ins, "serving a request can stop the server (%s)", name)
				}
			}
			f.onReturn = func(st *State, fn *ssa.Function, res []*Term, evs []*flowEv, ins ssa.Instruction) {
				c.ob("handler-explored", fnName(fn), true)
			}
			f.run(roots, func(st *State, fn *ssa.Function) {
				st.assume(mkEq(st.stack[0].args[param[fn]], mkNil()), false)
			})
			if len(roots) == 0 {
				c.violate("C32:anchor", "", "net", "undecided: no request handlers found", nil)
			}
			c.note("%d handlers", len(roots))
			c.need("handler-explored", 1)
		},
		"messages are decoded by the protobuf library: repeated message fields hold no nil elements and the request itself is present")
}

// optionalHTTP: parts of an HTTP request that may be absent.
func optionalHTTP(p *Term) bool {
	if p.op != OpLoad || p.args[0].op != OpFieldAddr {
		return false
	}
	n := p.args[0].aux
	for _, k := range []string{".MultipartForm", ".TLS", ".Response"} {
		if strings.HasPrefix(n, "net/http.Request") && strings.HasSuffix(n, k) {
			return true
		}
	}
	return false
}
