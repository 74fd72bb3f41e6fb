package main

import (
	"fmt"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// atomicOp splits a call of sync/atomic into operation, address and operands.
func atomicOp(ci *CallInfo) (op string, addr *Term, args []*Term, ok bool) {
	n := ci.Name
	if strings.HasPrefix(n, "sync/atomic.") {
		n = strings.TrimPrefix(n, "sync/atomic.")
	} else if i := strings.Index(n, ")."); strings.HasPrefix(n, "(*sync/atomic.") && i > 0 {
		n = n[i+2:]
	} else {
		return "", nil, nil, false
	}
	for _, o := range []string{"Load", "Store", "Add", "Swap", "CompareAndSwap", "And", "Or"} {
		if strings.HasPrefix(n, o) && len(ci.Args) > 0 {
			return o, ci.Args[0], ci.Args[1:], true
		}
	}
	return "", nil, nil, false
}

// staticAtomic: the call is an operation of sync/atomic.
func staticAtomic(c *ssa.CallCommon) bool {
	f := c.StaticCallee()
	if f == nil {
		return false
	}
	if f.Pkg != nil && f.Pkg.Pkg.Path() == "sync/atomic" {
		return true
	}
	return strings.HasPrefix(f.String(), "(*sync/atomic.")
}

// globalOf: the package variable an address lies in.
func globalOf(v ssa.Value) *ssa.Global {
	for {
		switch x := v.(type) {
		case *ssa.Global:
			return x
		case *ssa.FieldAddr:
			v = x.X
		case *ssa.IndexAddr:
			v = x.X
		case *ssa.ChangeType:
			v = x.X
		default:
			return nil
		}
	}
}

func execRun(name string) bool {
	if !strings.HasPrefix(name, "(*os/exec.Cmd).") {
		return name == "syscall.Exec" || name == "syscall.ForkExec" || name == "os.StartProcess" || name == "syscall.StartProcess"
	}
	switch strings.TrimPrefix(name, "(*os/exec.Cmd).") {
	case "Run", "Start", "Output", "CombinedOutput":
		return true
	}
	return false
}

func execMade(name string) (prog, args int, ok bool) {
	switch name {
	case "os/exec.Command":
		return 0, 1, true
	case "os/exec.CommandContext":
		return 1, 2, true
	case "syscall.Exec", "syscall.ForkExec", "syscall.StartProcess", "os.StartProcess":
		return 0, 1, true
	}
	return 0, 0, false
}

// entries lists the functions of a package that nothing in the package calls
// or that other packages can call, and that satisfy want transitively.
func (c *Ctx) entries(rel string, want func(*ssa.Function) bool) []*ssa.Function {
	called := map[*ssa.Function]bool{}
	for _, f := range c.P.pkgFns(rel) {
		for _, ci := range callsIn(f) {
			if g := ci.Common().StaticCallee(); g != nil && g != f {
				called[g] = true
			}
		}
	}
	var out []*ssa.Function
	for _, f := range c.P.pkgFns(rel) {
		if f.Parent() != nil || f.Synthetic != "" || f.Name() == "init" {
			continue
		}
		if (isExported(f) || !called[f]) && reaches(f, want) {
			out = append(out, f)
		}
	}
	return out
}

// beatSt follows one round of the monitor.
type beatSt struct {
	beat    bool
	r, err  *Term
	adds    int
	loads   []*Term // values read from the counter since it was last changed
	reset   bool
	restart bool
	where   ssa.Instruction
}

func (b *beatSt) Key() string {
	s := fmt.Sprint(b.beat, b.adds, b.reset, b.restart)
	for _, t := range b.loads {
		s += fmt.Sprint(",", t.id)
	}
	return s
}
func (b *beatSt) Clone() Client {
	n := *b
	n.loads = append([]*Term(nil), b.loads...)
	return &n
}

func init() {
	const hb = "net/heartb"
	register("C37", "Two parts. Effect analysis: the package variables of the heartbeat monitor that are changed after start-up are found, and every single access to them in the package must be an operation of sync/atomic. Path analysis of every entry point (goroutines explored in place), with a typestate per round: a heartbeat whose call failed or whose answer is not 1 raises the counter exactly once by one, a good one never; the counter is only ever reset to zero, once per program launch and never otherwise; the monitor launches only on paths where a value read from the counter is known to exceed 3.",
		func(c *Ctx) {
			if c.P.Pkgs[hb] == nil {
				c.violate("anchor:"+hb, "", "", "package net/heartb not found", nil)
				return
			}
			fns := c.P.pkgFns(hb)
			// ---- shared counters and how they are accessed
			changed := map[*ssa.Global]bool{}
			safe := func(t types.Type) bool {
				return strings.HasPrefix(types.TypeString(t, nil), "sync.")
			}
			for _, f := range fns {
				if f.Name() == "init" {
					continue
				}
				for _, b := range f.Blocks {
					for _, ins := range b.Instrs {
						switch x := ins.(type) {
						case *ssa.Store:
							if g := globalOf(x.Addr); g != nil && !safe(g.Type().(*types.Pointer).Elem()) {
								changed[g] = true
							}
						case ssa.CallInstruction:
							if staticAtomic(x.Common()) && len(x.Common().Args) > 0 {
								if g := globalOf(x.Common().Args[0]); g != nil {
									changed[g] = true
								}
							}
						}
					}
				}
			}
			for _, f := range fns {
				if f.Name() == "init" {
					continue
				}
				var ops [16]*ssa.Value
				for _, b := range f.Blocks {
					for _, ins := range b.Instrs {
						for _, op := range ins.Operands(ops[:0]) {
							if *op == nil {
								continue
							}
							g := globalOf(*op)
							if g == nil || !changed[g] {
								continue
							}
							switch x := ins.(type) {
							case *ssa.FieldAddr, *ssa.IndexAddr, *ssa.ChangeType, *ssa.DebugRef:
								continue
							case ssa.CallInstruction:
								if staticAtomic(x.Common()) {
									c.ob("counter-access-is-atomic", fmt.Sprintf("%s in %s: %s", globalName(g), fnName(f), c.P.pos(insPos(ins))), true)
									continue
								}
							}
							c.ob("counter-access-is-atomic", fmt.Sprintf("%s in %s: %s", globalName(g), fnName(f), c.P.pos(insPos(ins))), false)
							c.violateAt("C37:plain:"+globalName(g)+":"+fnName(f), ins, "%s is shared between the monitor and the HTTP endpoints and is accessed without sync/atomic", globalName(g))
						}
					}
				}
			}
			c.need("counter-access-is-atomic", 1)

			// ---- rounds of the monitor
			want := func(f *ssa.Function) bool {
				n := fnNameOf(f)
				return execRun(n) || strings.HasSuffix(n, ").HeartBeat") || isHbAtomic(f)
			}
			wantRoot := func(f *ssa.Function) bool {
				if want(f) {
					return true
				}
				for _, ci := range callsIn(f) {
					if cc := ci.Common(); cc.IsInvoke() && cc.Method.Name() == "HeartBeat" || staticAtomic(cc) {
						return true
					}
				}
				return false
			}
			e := NewEngine(c.P)
			e.GoInline = true
			e.Opaque = func(f *ssa.Function) bool {
				return f.Pkg != nil && f.Pkg != c.P.Prog.Package(c.P.Pkgs[hb].Types) && !strings.HasPrefix(f.Name(), "Get")
			}
			get := func(st *State) *beatSt { return st.client.(*beatSt) }
			counter := func(t *Term) bool {
				r := rootOf(t)
				return r.op == OpGlobal && strings.HasPrefix(r.aux, hb+".")
			}
			var settle func(st *State, ins ssa.Instruction)
			settle = func(st *State, ins ssa.Instruction) {
				b := get(st)
				site := fnName(ins.Parent())
				if b.beat {
					bad := func(set func(n *State) bool, want int, what string) {
						n := st.clone()
						if !set(n) {
							return
						}
						ok := b.adds == want
						c.ob("count-follows-heartbeat", site+": "+what, ok)
						if !ok {
							st.report("C37:count:"+what, b.where, "after a heartbeat that %s the failure count is raised %d times instead of %d", what, b.adds, want)
						}
					}
					res := func(n *State) (*Term, bool) {
						t := ptrElem(b.r.typ)
						i := fieldIdx(t, "Result")
						if i < 0 {
							return nil, false
						}
						return n.load(mkFieldAddr(b.r, t, i), t.Underlying().(*types.Struct).Field(i).Type()), true
					}
					bad(func(n *State) bool { return n.assume(mkEq(b.err, mkNil()), false) }, 1, "failed")
					bad(func(n *State) bool {
						if !n.assume(mkEq(b.err, mkNil()), true) || !n.assume(mkEq(b.r, mkNil()), false) {
							return false
						}
						v, ok := res(n)
						return ok && n.assume(mkEq(v, mkInt(1)), false)
					}, 1, "answered wrongly")
					bad(func(n *State) bool {
						if !n.assume(mkEq(b.err, mkNil()), true) || !n.assume(mkEq(b.r, mkNil()), false) {
							return false
						}
						v, ok := res(n)
						return ok && n.assume(mkEq(v, mkInt(1)), true)
					}, 0, "was good")
				} else if b.adds > 0 {
					st.report("C37:raised:"+site, b.where, "the failure count is raised without a heartbeat")
				}
				if b.restart || b.reset {
					ok := b.restart == b.reset
					c.ob("reset-with-launch", site, ok)
					if !ok && b.restart {
						st.report("C37:noreset:"+site, b.where, "a program is launched without resetting the failure count")
					} else if !ok {
						st.report("C37:reset:"+site, b.where, "the failure count is reset although nothing is launched")
					}
				}
				*b = beatSt{loads: b.loads}
			}
			monitors := map[*ssa.Function]bool{}
			e.Hooks.Call = func(st *State, ci *CallInfo) (bool, *Term) {
				b := get(st)
				isBeat := ci.Call.IsInvoke() && ci.Call.Method.Name() == "HeartBeat" || strings.HasSuffix(ci.Name, ").HeartBeat")
				if isBeat {
					settle(st, ci.Instr)
					b = get(st)
					res := e.freshResult(st, ci)
					if res.op == OpTuple && len(res.args) == 2 {
						b.beat, b.r, b.err, b.where = true, res.args[0], res.args[1], ci.Instr
					} else {
						st.report("C37:beat", ci.Instr, "the heartbeat's answer could not be identified")
					}
					monitors[st.stack[0].fn] = true
					return true, res
				}
				if op, addr, args, ok := atomicOp(ci); ok && counter(addr) {
					switch op {
					case "Load":
						res := mk(OpHavoc, ci.Result, st.siteID(ci.Instr)+"/count")
						b.loads = append(b.loads, res)
						return true, res
					case "Add":
						d, known := args[0].intVal()
						c.ob("count-changes-by-one", fnName(ci.Instr.Parent()), known && d == 1)
						if !known || d != 1 {
							st.report("C37:step:"+fnName(ci.Instr.Parent()), ci.Instr, "the failure count changes by %v instead of 1", args[0])
						}
						b.adds++
						if !b.beat {
							b.where = ci.Instr
						}
						res := mk(OpHavoc, ci.Result, st.siteID(ci.Instr)+"/count")
						b.loads = []*Term{res}
						return true, res
					case "Store", "Swap":
						if v, known := args[0].intVal(); !known || v != 0 {
							st.report("C37:set:"+fnName(ci.Instr.Parent()), ci.Instr, "the failure count is set to %v", args[0])
						}
						b.reset = true
						if !b.beat {
							b.where = ci.Instr
						}
						if op == "Swap" {
							res := mk(OpHavoc, ci.Result, st.siteID(ci.Instr)+"/count")
							b.loads = append(b.loads, res)
							return true, res
						}
						return true, mkNil()
					case "CompareAndSwap":
						if v, known := args[1].intVal(); !known || v != 0 {
							st.report("C37:set:"+fnName(ci.Instr.Parent()), ci.Instr, "the failure count is set to %v", args[1])
						}
						return false, nil
					}
				}
				if execRun(ci.Name) {
					if !b.reset && !strings.HasSuffix(ci.Name, ".Start") {
						c.ob("reset-with-launch", fnName(st.stack[0].fn), false)
						st.report("C37:late:"+fnName(st.stack[0].fn), ci.Instr, "the failure count is not reset before the program is run to its end")
					}
					b.restart = true
					if !b.beat {
						b.where = ci.Instr
					}
					if reachesBeat(st.stack[0].fn) {
						ok := false
						for _, v := range b.loads {
							if st.proveLe(mkInt(4), v) {
								ok = true
							}
						}
						c.ob("launch-after-more-than-three-failures", fnName(ci.Instr.Parent())+" from "+fnName(st.stack[0].fn), ok)
						if !ok {
							st.report("C37:early:"+fnName(st.stack[0].fn), ci.Instr, "the monitor launches a program on a path where the failure count is not known to exceed 3")
						}
					}
				}
				return false, nil
			}
			e.Hooks.Backedge = func(st *State, fr *Frame, h *ssa.BasicBlock, phis, vals []*Term) {
				if e.loopHas(fr.fn, h, func(f *ssa.Function) bool { return wantRoot(f) }) {
					settle(st, h.Instrs[len(h.Instrs)-1])
				}
				get(st).loads = nil
			}
			e.Hooks.Return = func(st *State, fn *ssa.Function, res []*Term, ins ssa.Instruction) { settle(st, ins) }
			roots := c.entries(hb, wantRoot)
			c.runRoots(e, roots, func(st *State, fn *ssa.Function) { st.client = &beatSt{} })
			c.need("count-follows-heartbeat", 1)
			c.need("launch-after-more-than-three-failures", 1)
			c.need("reset-with-launch", 1)
			c.note("%d entry points, %d of them monitor loops", len(roots), len(monitors))
		}, "the counter's value cannot change between the test of a value read and the launch in a way that matters: only the monitor raises it")

	register("C36", "Taint analysis along all paths of every entry point that can launch a program: whatever contains a request (an HTTP request or a remote-call message) or was stored from one is tainted; at every place a command is built or its fields are set, the program must be untainted, the argument list must not itself be derived from tainted data, and when the program is a command interpreter (or a launcher of other programs) or is not a constant no argument may be tainted. Entry points that cannot launch anything are counted.",
		func(c *Ctx) {
			launches := func(f *ssa.Function) bool {
				n := fnNameOf(f)
				_, _, mk := execMade(n)
				return mk || execRun(n)
			}
			reqType := func(t types.Type) bool {
				if p, ok := t.(*types.Pointer); ok {
					t = p.Elem()
				}
				n, ok := t.(*types.Named)
				if !ok || n.Obj().Pkg() == nil {
					return false
				}
				path := n.Obj().Pkg().Path()
				return path == "net/http" && n.Obj().Name() == "Request" || path == "net/url" && n.Obj().Name() == "Values" ||
					strings.HasSuffix(path, "/riot-pb") || strings.HasSuffix(path, "riot_pb")
			}
			stored := map[string]bool{} // classes of memory that received request data
			store := map[string]bool{}
			fromReq := map[*Term]bool{} // results of calls that were handed request data
			type part struct {
				base  *Term
				elems []*Term
			}
			grown := map[*Term]part{}
			busy := map[*Term]bool{}
			var tainted func(st *State, t *Term) bool
			tainted = func(st *State, t *Term) bool {
				bad := false
				if t == nil {
					return false
				}
				visit(t, func(x *Term) {
					if fromReq[x] {
						bad = true
					}
					if p, ok := grown[x]; ok && !bad {
						for _, y := range append([]*Term{p.base}, p.elems...) {
							if y != x && tainted(st, y) {
								bad = true
							}
						}
					}
					switch x.op {
					case OpAlloc, OpMake:
						if busy[x] {
							return
						}
						busy[x] = true
						for l, v := range st.mem {
							if !bad && rootOf(l) == x && tainted(st, v) {
								bad = true
							}
						}
						delete(busy, x)
					case OpParam:
						if x.typ != nil && reqType(x.typ) {
							bad = true
						}
					case OpGlobal:
						if stored["g:"+x.aux] {
							bad = true
						}
					case OpFieldAddr:
						if stored["f:"+x.aux] {
							bad = true
						}
					}
				})
				return bad
			}
			shells := map[string]bool{}
			for _, s := range strings.Fields("sh bash zsh dash ksh ash csh tcsh fish busybox cmd cmd.exe powershell powershell.exe pwsh env xargs sudo su nohup time nice timeout setsid ssh eval python python3 perl ruby node awk find watch script expect") {
				shells[s] = true
			}
			constStr := func(t *Term) (string, bool) {
				if t != nil && t.isConst() && t.cv != nil && isStringType(t.typ) {
					s := t.cv.String()
					return strings.Trim(s, "\""), true
				}
				return "", false
			}
			e := NewEngine(c.P)
			e.GoInline = true
			e.Coarse = true
			handlers := 0
			check := func(st *State, ins ssa.Instruction, prog *Term, args []*Term, whole *Term) {
				site := fmt.Sprintf("%s from %s", fnName(ins.Parent()), fnName(st.stack[0].fn))
				ok := true
				bad := func(key, format string, a ...any) {
					ok = false
					st.report("C36:"+key+":"+fnName(ins.Parent()), ins, format, a...)
				}
				if tainted(st, prog) {
					bad("program", "request data is used as the name of the program to run")
				}
				if whole != nil && tainted(st, whole) {
					bad("list", "the argument list itself is made from request data")
				}
				name, known := constStr(prog)
				base := name[strings.LastIndex(name, "/")+1:]
				for _, a := range args {
					if tainted(st, a) && (shells[base] || !known) {
						bad("shell", "request data is handed to %v, which interprets it or may do so", prog)
					}
				}
				c.ob("no-request-data-interpreted", site, ok)
			}
			var elems func(st *State, t *Term) (list []*Term, whole *Term)
			elems = func(st *State, t *Term) (list []*Term, whole *Term) {
				if p, ok := grown[t]; ok {
					list, whole = elems(st, p.base)
					return append(append([]*Term(nil), list...), p.elems...), whole
				}
				if t == nil || t.isNil() {
					return nil, nil
				}
				// a literal list: a local array filled element by element
				b := t
				if b.op == OpSlice {
					b = b.args[0]
				}
				if b.op == OpAlloc {
					any := false
					for l, v := range st.mem {
						if l.op == OpIndexAddr && l.args[0] == b {
							list = append(list, v)
							any = true
						}
					}
					if any {
						return list, nil
					}
				}
				return nil, t
			}
			e.Hooks.Call = func(st *State, ci *CallInfo) (bool, *Term) {
				if p, a, ok := execMade(ci.Name); ok && len(ci.Args) > a {
					list, whole := elems(st, ci.Args[a])
					if whole != nil && !tainted(st, whole) {
						whole = nil
					}
					check(st, ci.Instr, ci.Args[p], list, whole)
				}
				return false, nil
			}
			e.Hooks.Called = func(st *State, ci *CallInfo, res *Term) {
				if res == nil || res.isConst() {
					return
				}
				for _, a := range ci.Args {
					if tainted(st, a) {
						fromReq[res] = true
						if res.op == OpTuple {
							for _, x := range res.args {
								fromReq[x] = true
							}
						}
						return
					}
				}
			}
			e.Hooks.Append = func(st *State, base *Term, es []*Term, res *Term, typ types.Type, ins ssa.Instruction) {
				grown[res] = part{base, es}
			}
			e.Hooks.AppendAll = func(st *State, base, other, res *Term, typ types.Type, ins ssa.Instruction) {
				list, whole := elems(st, other)
				if whole != nil {
					list = append(list, whole)
				}
				grown[res] = part{base, list}
			}
			e.Hooks.Store = func(st *State, loc, val *Term, ins ssa.Instruction) {
				if loc.op == OpFieldAddr && strings.HasPrefix(loc.aux, "os/exec.Cmd.") {
					switch loc.aux {
					case "os/exec.Cmd.Path":
						check(st, ins, val, nil, nil)
					case "os/exec.Cmd.Args":
						list, whole := elems(st, val)
						check(st, ins, mkNil(), list, whole)
					case "os/exec.Cmd.Env":
						if tainted(st, val) {
							st.report("C36:env:"+fnName(ins.Parent()), ins, "request data sets the environment of a program")
						}
					}
				}
				if tainted(st, val) && !isLocalRoot(rootOf(loc)) {
					if cl := st.classOf(loc); strings.HasPrefix(cl, "g:") || strings.HasPrefix(cl, "f:") {
						if !store[cl] {
							store[cl] = true
						}
					}
				}
			}
			e.PassStart = func() {
				for k := range store {
					if !stored[k] {
						stored[k] = true
						e.changed = true
					}
				}
			}
			var roots []*ssa.Function
			for _, rel := range sortedKeys(c.P.Pkgs) {
				hs := 0
				sinks := false
				for _, f := range c.P.pkgFns(rel) {
					if f.Parent() != nil || f.Synthetic != "" {
						continue
					}
					h := false
					for _, p := range f.Params {
						if reqType(p.Type()) {
							h = true
						}
					}
					if h {
						hs++
					}
					if reaches(f, launches) {
						sinks = true
					} else if h {
						c.ob("handler-launches-nothing", fnName(f), true)
					}
				}
				handlers += hs
				if !sinks {
					continue
				}
				roots = append(roots, c.entries(rel, launches)...)
				// handlers that launch nothing may still leave data behind for those that do
				for _, f := range c.P.pkgFns(rel) {
					if f.Parent() == nil && f.Synthetic == "" && !reaches(f, launches) {
						for _, p := range f.Params {
							if reqType(p.Type()) {
								roots = append(roots, f)
								break
							}
						}
					}
				}
			}
			e.Opaque = func(f *ssa.Function) bool { return f.Pkg != nil && strings.HasSuffix(f.Pkg.Pkg.Path(), "/riot-pb") }
			c.runRoots(e, roots, nil)
			c.need("no-request-data-interpreted", 1)
			c.need("handler-launches-nothing", 1)
			c.note("%d functions take a request; %d entry points of packages that can launch programs explored", handlers, len(roots))
		}, "results of unknown calls carry the data of their arguments")
}

func fnNameOf(f *ssa.Function) string { return f.String() }

func isHbAtomic(f *ssa.Function) bool { return f.Pkg != nil && f.Pkg.Pkg.Path() == "sync/atomic" }

// reachesBeat: the function sends heartbeats.
func reachesBeat(fn *ssa.Function) bool {
	has := func(f *ssa.Function) bool {
		for _, ci := range callsIn(f) {
			if cc := ci.Common(); cc.IsInvoke() && cc.Method.Name() == "HeartBeat" {
				return true
			}
			if g := ci.Common().StaticCallee(); g != nil && strings.HasSuffix(g.String(), ").HeartBeat") {
				return true
			}
		}
		return false
	}
	return has(fn) || reaches(fn, has)
}

// loopHas: the loop's body (or what it calls) contains something wanted.
func (e *Engine) loopHas(fn *ssa.Function, h *ssa.BasicBlock, want func(*ssa.Function) bool) bool {
	for b := range e.loopsIn(fn).body[h] {
		for _, ins := range b.Instrs {
			ci, ok := ins.(ssa.CallInstruction)
			if !ok {
				continue
			}
			if cc := ci.Common(); cc.IsInvoke() && cc.Method.Name() == "HeartBeat" {
				return true
			}
			if g := ci.Common().StaticCallee(); g != nil && (want(g) || inModule(g) && reaches(g, want)) {
				return true
			}
		}
	}
	return false
}
