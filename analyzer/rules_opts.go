package main

import (
	"fmt"
	"go/constant"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// libOfStore names the storage library behind a store type.
func libOfStore(t types.Type) string {
	if p, ok := t.(*types.Pointer); ok {
		t = p.Elem()
	}
	s, ok := t.Underlying().(*types.Struct)
	if !ok {
		return ""
	}
	for i := 0; i < s.NumFields(); i++ {
		if l := dbLib(s.Field(i).Type().String()); l != "" {
			return l
		}
	}
	return ""
}

// wholePath: the value names the path x itself: x, x cleaned up, or options
// made from it; not a part of it or something joined to it.
func (st *State) wholePath(t, x *Term, depth int) bool {
	if t == x {
		return true
	}
	if depth > 6 {
		return false
	}
	if x.contained(t) {
		switch t.op {
		case OpSlice, OpConcat, OpIndex, OpLen:
			return false
		}
		if strings.HasSuffix(t.aux, "filepath.Join") || strings.HasSuffix(t.aux, "path.Join") {
			return false
		}
		for _, a := range t.args {
			if st.wholePath(a, x, depth+1) {
				return true
			}
		}
		return false
	}
	roots := map[*Term]bool{}
	visit(t, func(y *Term) {
		if y.op == OpAlloc {
			roots[y] = true
		}
	})
	for l, v := range st.mem {
		if roots[rootOf(l)] && st.wholePath(v, x, depth+1) {
			return true
		}
	}
	return false
}

func (x *Term) contained(t *Term) bool { return contains(t, x) }

// registryEntries reads the initial contents of a map-valued global from the
// package's initialisation code.
func registryEntries(p *Program, rel, global string) map[string]*ssa.Function {
	out := map[string]*ssa.Function{}
	if f := p.initOf(rel); f != nil {
		for _, b := range f.Blocks {
			for _, ins := range b.Instrs {
				mu, ok := ins.(*ssa.MapUpdate)
				if !ok {
					continue
				}
				k, ok1 := mu.Key.(*ssa.Const)
				v := mu.Value
				for {
					if ct, ok := v.(*ssa.ChangeType); ok {
						v = ct.X
						continue
					}
					break
				}
				fn, ok2 := v.(*ssa.Function)
				if ok1 && ok2 && k.Value != nil && k.Value.Kind() == constant.String {
					out[constant.StringVal(k.Value)] = fn
				}
			}
		}
	}
	return out
}

func init() {
	documented := map[string]string{"ldb": "leveldb", "bg": "badger", "bolt": "bbolt"}
	const envName = "Riot_Store_Engine"
	register("C21", "Decision rule on opening a store: on every path the engine that is opened is proved to be the one named (case by case: a non-empty explicit name, else a non-empty environment value, else the default), whatever registry or switch maps names to openers; its results are returned unchanged and it is given the path asked for; without an opener of that name the result is an error. Each opener is proved to open its own library at the given path, each documented name is registered for its own backend, and registering stores exactly the given function under the given name.",
		func(c *Ctx) {
			needStores(c)
			openers := map[*ssa.Function]bool{}
			for _, f := range storeOpeners(c) {
				openers[f] = true
			}
			// what each opener opens
			opens := map[*ssa.Function]string{}
			runStore(c, storeOpeners(c), &storeRule{
				ret: func(st *State, s *storeSt, fn *ssa.Function, res []*Term, ins ssa.Instruction) {
					if st.holds(mkEq(res[1], mkNil()), false) {
						return
					}
					lib, bad := "", ""
					for _, o := range s.ops {
						if o.kind != "open" {
							continue
						}
						l := strings.Trim(o.val.String(), `"`)
						if lib != "" && lib != l {
							bad = "two different databases are opened"
						}
						lib = l
						if !st.wholePath(o.key, st.stack[0].args[0], 0) {
							bad = fmt.Sprintf("the database is opened at %v, not at the path given", o.key)
						}
					}
					r := unwrapIface(res[0])
					own := ""
					if r.typ != nil {
						own = libOfStore(r.typ)
					}
					switch {
					case bad != "":
					case lib == "":
						bad = "no database is opened"
					case own != lib:
						bad = fmt.Sprintf("a %s database is opened for a %v", lib, r.typ)
					}
					c.ob("opener-opens-own-database-at-path", fnName(fn), bad == "")
					if bad != "" {
						st.report("C21:opener:"+fnName(fn), ins, "%s", bad)
					}
					opens[fn] = lib
				},
			})
			c.need("opener-opens-own-database-at-path", 1)
			// names
			reg := registryEntries(c.P, "store", "supportedStore")
			for name, lib := range documented {
				fn := reg[name]
				if fn == nil {
					continue // it may be in a switch: decided below
				}
				ok := opens[fn] == lib
				c.ob("name-registered-for-own-backend", name+" -> "+fnName(fn), ok)
				if !ok {
					c.violateFn("C21:name:"+name, fn, "the name %q is registered for %s, which opens %q instead of %q", name, fnName(fn), opens[fn], lib)
				}
			}
			// RegisterStore
			if f := c.P.fn("store.RegisterStore"); f != nil {
				e := NewEngine(c.P)
				e.Hooks.MapWrite = func(st *State, m, k, v *Term, ins ssa.Instruction) {
					a := st.stack[0].args
					ok := len(a) == 2 && k == a[0] && v == a[1]
					c.ob("register-stores-given-pair", fnName(f), ok)
					if !ok {
						st.report("C21:register", ins, "registering stores %v under %v instead of the given function under the given name", v, k)
					}
				}
				c.runRoots(e, []*ssa.Function{f}, nil)
				c.need("register-stores-given-pair", 1)
			}
			// OpenStore
			open := c.mustFn("store.OpenStore")
			if open == nil || len(open.Params) != 2 {
				return
			}
			def := ""
			if o, ok := c.P.pkgConst("store", "DefaultStore"); ok {
				def = o
			} else {
				c.violate("anchor:DefaultStore", "", "", "the constant DefaultStore was not found", nil)
			}
			var regTerm func(t *Term) bool
			regTerm = func(t *Term) bool {
				return t.op == OpLoad && t.args[0].op == OpGlobal
			}
			e := NewEngine(c.P)
			e.Opaque = func(fn *ssa.Function) bool { return openers[fn] }
			e.Hooks.Called = func(st *State, ci *CallInfo, res *Term) {
				s := st.client.(*storeSt)
				switch {
				case ci.Fn != nil && openers[ci.Fn]:
					s.ops = append(s.ops, storeOp{kind: "opener", key: mk(OpFunc, nil, fnName(ci.Fn)), val: arg(ci, 0), res: res.args[0], err: res.args[1], ins: ci.Instr})
				case ci.Fn == nil && !ci.Call.IsInvoke() && res.op == OpTuple && len(res.args) == 2:
					s.ops = append(s.ops, storeOp{kind: "dyn", key: ci.FnTerm, val: arg(ci, 0), res: res.args[0], err: res.args[1], ins: ci.Instr})
				case ci.Name == "os.Getenv":
					s.ops = append(s.ops, storeOp{kind: "env", key: ci.Args[0], res: res})
				case ci.Name == "os.LookupEnv":
					s.ops = append(s.ops, storeOp{kind: "env", key: ci.Args[0], res: res.args[0]})
				}
			}
			e.Hooks.Return = func(st *State, fn *ssa.Function, res []*Term, ins ssa.Instruction) {
				s := st.client.(*storeSt)
				path, args := st.stack[0].args[0], st.stack[0].args[1]
				n := mkLen(args)
				first := s.cur
				var env *Term
				var calls []storeOp
				for _, o := range s.ops {
					switch o.kind {
					case "env":
						if o.key == mkStr(envName) {
							env = o.res
						}
					default:
						calls = append(calls, o)
					}
				}
				empty := mkStr("")
				type kase struct {
					name  string
					conds []*Term
					vals  []bool
					want  *Term
				}
				var ks []kase
				ks = append(ks, kase{"explicit name", []*Term{mkLt(mkInt(0), n), mkEq(first, empty)}, []bool{true, false}, first})
				for _, none := range []kase{{conds: []*Term{mkLt(mkInt(0), n)}, vals: []bool{false}}, {conds: []*Term{mkLt(mkInt(0), n), mkEq(first, empty)}, vals: []bool{true, true}}} {
					if env == nil {
						ks = append(ks, kase{"no explicit name", none.conds, none.vals, nil})
						continue
					}
					ks = append(ks, kase{"named by the environment", append(append([]*Term(nil), none.conds...), mkEq(env, empty)), append(append([]bool(nil), none.vals...), false), env})
					ks = append(ks, kase{"default", append(append([]*Term(nil), none.conds...), mkEq(env, empty)), append(append([]bool(nil), none.vals...), true), mkStr(def)})
				}
				for _, k := range ks {
					x := st.clone()
					feasible := true
					for i := range k.conds {
						feasible = feasible && x.assume(k.conds[i], k.vals[i])
					}
					if !feasible {
						continue
					}
					bad := ""
					switch {
					case k.want == nil:
						bad = "the environment (" + envName + ") is not consulted"
					case len(calls) > 1:
						bad = "more than one engine is opened"
					case len(calls) == 0:
						// no engine of that name
						if !x.holds(mkEq(res[1], mkNil()), false) {
							bad = "no engine is opened and no error is returned"
						} else if !x.unregistered(k.want, regTerm) {
							// the wanted name must be one that is not supported
							bad = "an error is returned although the engine named may be supported"
						}
					default:
						o := calls[0]
						switch {
						case o.val != path:
							bad = fmt.Sprintf("the store is opened at %v instead of the path given", o.val)
						case res[0] != o.res || res[1] != o.err:
							bad = "what opening the engine returned is not what is handed back"
						case o.kind == "dyn":
							key := o.key
							for key.op == OpConvert {
								key = key.args[0]
							}
							if key.op != OpMapVal || !x.same(key.args[1], k.want) && !x.holds(mkEq(key.args[1], k.want), true) {
								bad = fmt.Sprintf("the engine opened is %v, not the one named %v", key, k.want)
							}
						default:
							okName := false
							for _, v := range x.equals(k.want) {
								if v.isConst() && v.cv != nil && v.cv.Kind() == constant.String {
									lib := documented[constant.StringVal(v.cv)]
									for f, l := range opens {
										if fnName(f) == o.key.aux && l == lib {
											okName = true
										}
									}
								}
							}
							if !okName {
								bad = fmt.Sprintf("the engine opened by %s is not known to be the one named %v", o.key.aux, k.want)
							}
						}
					}
					c.ob("named-engine-opened", k.name+" at "+c.P.pos(insPos(ins)), bad == "")
					if bad != "" {
						st.report("C21:open:"+strings.ReplaceAll(k.name, " ", "-"), ins, "%s: %s", k.name, bad)
					}
				}
			}
			c.runRoots(e, []*ssa.Function{open}, func(st *State, fn *ssa.Function) {
				s := newStoreSt()
				s.cur = st.load(mkIndexAddr(st.stack[0].args[1], mkInt(0), types.Typ[types.String]), types.Typ[types.String])
				st.client = s
			})
			c.need("named-engine-opened", 1)
		})

	register("C22", "Case analysis of option initialisation: for every option and every path, if the option had its zero value on entry it is proved to hold its own default on exit (a default's value is read off the package's initialisation code), and if it had another value it is proved unchanged; options without a default stay as they were. The options the engine keeps are proved to be the initialised ones, with the dictionary and the store folder filled in only when needed and unset.",
		func(c *Ctx) {
			optionDefaults(c)
		})
}

// unregistered: on this path name is known to be none of the supported ones.
func (st *State) unregistered(name *Term, reg func(*Term) bool) bool {
	for f, v := range st.facts {
		if v {
			continue
		}
		if f.op == OpMapOk && reg(f.args[0]) && (st.same(f.args[1], name) || st.holds(mkEq(f.args[1], name), true)) {
			return true
		}
		// or its entry is nil
	}
	for f, v := range st.facts {
		if v && f.op == OpEq && f.args[1].isNil() && f.args[0].op == OpMapVal && reg(f.args[0].args[0]) && (st.same(f.args[0].args[1], name) || st.holds(mkEq(f.args[0].args[1], name), true)) {
			return true
		}
	}
	// a switch over the documented names
	n := 0
	for _, d := range []string{"ldb", "bg", "bolt"} {
		if st.holds(mkEq(name, mkStr(d)), false) {
			n++
		}
	}
	return n == 3
}

// pkgConst gives the value of a package's string constant.
func (p *Program) pkgConst(rel, name string) (string, bool) {
	if pk := p.Pkgs[rel]; pk != nil {
		if o, ok := pk.Types.Scope().Lookup(name).(*types.Const); ok && o.Val().Kind() == constant.String {
			return constant.StringVal(o.Val()), true
		}
	}
	return "", false
}

// ownDefaults: what an unset option becomes (anything not listed has no default).
var ownDefaults = map[string]string{
	"EngineOpts.NumGseThreads":     "runtime.NumCPU()",
	"EngineOpts.NumShards":         "8",
	"EngineOpts.IndexerBufLen":     "runtime.NumCPU()",
	"EngineOpts.NumIndexerThreads": "runtime.NumCPU()",
	"EngineOpts.RankerBufLen":      "runtime.NumCPU()",
	"EngineOpts.NumRankerThreads":  "runtime.NumCPU()",
	"EngineOpts.StoreShards":       "8",
	"EngineOpts.IndexerOpts":       "&IndexerOpts{BM25Parameters:&BM25Parameters{B:0.75 K1:2} IndexType:1}",
	"EngineOpts.DefRankOpts":       "&RankOpts{ScoringCriteria:RankByBM25{}}",
	"IndexerOpts.BM25Parameters":   "&BM25Parameters{B:0.75 K1:2}",
	"RankOpts.ScoringCriteria":     "RankByBM25{}",
	"IndexerOpts.DocCacheSize":     "300000",
}

// initTab holds what a package's initialisation code stores into its globals.
type initTab struct {
	vals    map[string]ssa.Value // global or global.field -> value
	globals map[string]*ssa.Global
}

func (p *Program) initOf(rel string) *ssa.Function {
	pk := p.Pkgs[rel]
	if pk == nil {
		return nil
	}
	sp := p.Prog.Package(pk.Types)
	if sp == nil {
		return nil
	}
	return sp.Func("init")
}

func initStores(p *Program, rel string) *initTab {
	t := &initTab{vals: map[string]ssa.Value{}, globals: map[string]*ssa.Global{}}
	f := p.initOf(rel)
	if f == nil {
		return t
	}
	for _, m := range f.Pkg.Members {
		if g, ok := m.(*ssa.Global); ok {
			t.globals[globalName(g)] = g
		}
	}
	for _, b := range f.Blocks {
		for _, ins := range b.Instrs {
			st, ok := ins.(*ssa.Store)
			if !ok {
				continue
			}
			switch a := st.Addr.(type) {
			case *ssa.Global:
				t.vals[globalName(a)] = st.Val
			case *ssa.FieldAddr:
				if g, ok := a.X.(*ssa.Global); ok {
					s := ptrElem(g.Type()).Underlying().(*types.Struct)
					t.vals[globalName(g)+"."+s.Field(a.Field).Name()] = st.Val
				}
			}
		}
	}
	return t
}

func constStr(v constant.Value) string {
	if v == nil {
		return "nil"
	}
	if f, ok := constant.Float64Val(constant.ToFloat(v)); ok && (v.Kind() == constant.Float || v.Kind() == constant.Int) {
		return fmt.Sprint(f)
	}
	return v.ExactString()
}

// describeSSA renders an initial value.
func (t *initTab) describeSSA(v ssa.Value) string {
	switch x := v.(type) {
	case *ssa.Const:
		if x.Value == nil {
			if _, ok := x.Type().Underlying().(*types.Struct); ok {
				return shortType(x.Type()) + "{}"
			}
		}
		return constStr(x.Value)
	case *ssa.Call:
		if f := x.Call.StaticCallee(); f != nil {
			return f.String() + "()"
		}
	case *ssa.MakeInterface:
		return t.describeSSA(x.X)
	case *ssa.Convert:
		return t.describeSSA(x.X)
	case *ssa.ChangeType:
		return t.describeSSA(x.X)
	case *ssa.Global:
		return "&" + t.describeGlobal(x)
	case *ssa.UnOp:
		if g, ok := x.X.(*ssa.Global); ok {
			return t.describeGlobal(g)
		}
		if a, ok := x.X.(*ssa.Alloc); ok {
			if s, ok := ptrElem(a.Type()).Underlying().(*types.Struct); ok {
				var fs []string
				for f, v := range allocFields(a) {
					if d := t.describeSSA(v); d != "0" && d != "nil" && d != "false" && d != `""` {
						fs = append(fs, s.Field(f).Name()+":"+d)
					}
				}
				sort.Strings(fs)
				return shortType(ptrElem(a.Type())) + "{" + strings.Join(fs, " ") + "}"
			}
		}
	}
	return "?" + v.String()
}

// allocFields: what is stored into the fields of a local before it is copied.
func allocFields(a *ssa.Alloc) map[int]ssa.Value {
	out := map[int]ssa.Value{}
	for _, r := range *a.Referrers() {
		if fa, ok := r.(*ssa.FieldAddr); ok {
			for _, q := range *fa.Referrers() {
				if st, ok := q.(*ssa.Store); ok && st.Addr == fa {
					out[fa.Field] = st.Val
				}
			}
		}
	}
	return out
}

func shortType(t types.Type) string {
	n := structTypeName(t)
	return n[strings.LastIndex(n, ".")+1:]
}

func (t *initTab) describeGlobal(g *ssa.Global) string {
	el := ptrElem(g.Type())
	if s, ok := el.Underlying().(*types.Struct); ok {
		if v, ok := t.vals[globalName(g)]; ok {
			return t.describeSSA(v)
		}
		var fs []string
		for i := 0; i < s.NumFields(); i++ {
			if v, ok := t.vals[globalName(g)+"."+s.Field(i).Name()]; ok {
				d := t.describeSSA(v)
				if d != "0" && d != "nil" && d != "false" && d != `""` {
					fs = append(fs, s.Field(i).Name()+":"+d)
				}
			}
		}
		sort.Strings(fs)
		return shortType(el) + "{" + strings.Join(fs, " ") + "}"
	}
	if v, ok := t.vals[globalName(g)]; ok {
		return t.describeSSA(v)
	}
	return "0"
}

// describe renders a value of a path.
func (t *initTab) describe(st *State, v *Term, d int) string {
	if d > 6 {
		return "..."
	}
	for v.op == OpConvert || v.op == OpMakeIface {
		v = v.args[0]
	}
	switch v.op {
	case OpConst:
		return constStr(v.cv)
	case OpCall:
		n := v.aux
		if i := strings.IndexByte(n, '#'); i >= 0 {
			n = n[:i]
		}
		return n + "()"
	case OpGlobal:
		if g := t.globals[v.aux]; g != nil {
			return "&" + t.describeGlobal(g)
		}
	case OpLoad:
		l := v.args[0]
		if l.op == OpGlobal {
			if g := t.globals[l.aux]; g != nil {
				return t.describeGlobal(g)
			}
		}
		if l.op == OpFieldAddr && l.args[0].op == OpGlobal {
			if g := t.globals[l.args[0].aux]; g != nil {
				s := ptrElem(g.Type()).Underlying().(*types.Struct)
				if iv, ok := t.vals[globalName(g)+"."+s.Field(l.obj.(int)).Name()]; ok {
					return t.describeSSA(iv)
				}
				if whole, ok := t.vals[globalName(g)].(*ssa.UnOp); ok {
					if a, ok := whole.X.(*ssa.Alloc); ok {
						if iv := allocFields(a)[l.obj.(int)]; iv != nil {
							return t.describeSSA(iv)
						}
					}
				}
				return "0"
			}
		}
	case OpZero:
		if s, ok := v.typ.Underlying().(*types.Struct); ok && s.NumFields() == 0 {
			return shortType(v.typ) + "{}"
		}
	case OpStruct:
		s := v.typ.Underlying().(*types.Struct)
		var fs []string
		for i := 0; i < s.NumFields() && i < len(v.args); i++ {
			d := t.describe(st, v.args[i], d+1)
			if d != "0" && d != "nil" && d != "false" && d != `""` {
				fs = append(fs, s.Field(i).Name()+":"+d)
			}
		}
		sort.Strings(fs)
		return shortType(v.typ) + "{" + strings.Join(fs, " ") + "}"
	case OpAlloc:
		if el := ptrElem(v.typ); el != nil {
			if _, ok := el.Underlying().(*types.Struct); ok {
				return "&" + t.describe(st, st.load(v, el), d+1)
			}
		}
	}
	return "?" + v.String()
}

// optionCheck compares options on entry and on exit.
type optionCheck struct {
	c    *Ctx
	tab  *initTab
	kind string
	fn   string
}

func (o *optionCheck) field(st *State, typ types.Type, i int, before, after *Term, ins ssa.Instruction) {
	s := typ.Underlying().(*types.Struct)
	f := s.Field(i)
	name := shortType(typ) + "." + f.Name()
	zero := zeroOf(f.Type())
	want, hasDef := ownDefaults[name]
	if name == "IndexerOpts.BM25Parameters" && strings.Contains(o.fn, "IndexerOpts") {
		hasDef = false // the engine's options fill this one in
	}
	bad := ""
	set := st.clone()
	isZero := mkEq(before, zero)
	if set.assume(isZero, false) && after != before && !set.same(after, before) && !set.holds(mkEq(after, before), true) {
		bad = fmt.Sprintf("an option the user set is replaced by %v", after)
	}
	unset := st.clone()
	if bad == "" && unset.assume(isZero, true) {
		switch {
		case hasDef:
			got := o.tab.describe(unset, after, 0)
			if got != want {
				bad = fmt.Sprintf("an option left unset becomes %s instead of its default %s", got, want)
			}
		case after != before && !unset.same(after, zero) && !unset.holds(mkEq(after, zero), true):
			if f.Name() != "GseDict" && f.Name() != "StoreFolder" {
				o.c.note("option %s also gets a default", name)
			}
		}
	}
	o.c.ob(o.kind, name+" in "+o.fn, bad == "")
	if bad != "" {
		st.report("C22:"+name+":"+o.fn, ins, "%s: %s", name, bad)
	}
}

// nested checks the fields of the options a pointer option points to.
func (o *optionCheck) nested(st *State, typ types.Type, before, after *Term, beforeField func(i int) *Term, ins ssa.Instruction) {
	el := ptrElem(typ)
	s, ok := el.Underlying().(*types.Struct)
	if !ok {
		return
	}
	x := st.clone()
	if !x.assume(mkEq(before, mkNil()), false) {
		return
	}
	for i := 0; i < s.NumFields(); i++ {
		o.field(x, el, i, beforeField(i), x.load(mkFieldAddr(after, el, i), s.Field(i).Type()), ins)
	}
}

type optClient struct {
	before map[string]*Term
}

func (o *optClient) Key() string   { return "" }
func (o *optClient) Clone() Client { return o }

func optionDefaults(c *Ctx) {
	tab := initStores(c.P, "types")
	for _, tn := range []string{"EngineOpts", "IndexerOpts"} {
		fn := c.mustFn("(*types." + tn + ").Init")
		if fn == nil {
			continue
		}
		typ := c.P.typeOf("types", tn)
		s := typ.Underlying().(*types.Struct)
		e := NewEngine(c.P)
		e.Hooks.Return = func(st *State, f *ssa.Function, res []*Term, ins ssa.Instruction) {
			o := &optionCheck{c: c, tab: tab, kind: "default-iff-unset", fn: fnName(f)}
			bf := st.client.(*optClient).before
			recv := st.stack[0].args[0]
			for i := 0; i < s.NumFields(); i++ {
				name := s.Field(i).Name()
				after := st.load(mkFieldAddr(recv, typ, i), s.Field(i).Type())
				o.field(st, typ, i, bf[name], after, ins)
				if p := ptrElem(s.Field(i).Type()); p != nil && bf[name+".0"] != nil {
					// an empty table counts as unset in the engine's options
					if shortType(p) == "IndexerOpts" {
						sub := *o
						sub.nestedOnly(st, s.Field(i).Type(), bf, name, after, ins, "DocCacheSize")
						continue
					}
					o.nested(st, s.Field(i).Type(), bf[name], after, func(j int) *Term { return bf[name+"."+itoa(j)] }, ins)
				}
			}
		}
		c.runRoots(e, []*ssa.Function{fn}, func(st *State, f *ssa.Function) {
			bf := map[string]*Term{}
			recv := st.stack[0].args[0]
			for i := 0; i < s.NumFields(); i++ {
				v := st.load(mkFieldAddr(recv, typ, i), s.Field(i).Type())
				bf[s.Field(i).Name()] = v
				if el := ptrElem(s.Field(i).Type()); el != nil {
					if ns, ok := el.Underlying().(*types.Struct); ok {
						for j := 0; j < ns.NumFields(); j++ {
							bf[s.Field(i).Name()+"."+itoa(j)] = st.load(mkFieldAddr(v, el, j), ns.Field(j).Type())
						}
					}
				}
			}
			st.client = &optClient{before: bf}
		})
	}
	c.need("default-iff-unset", 8)

	// the options the engine keeps
	fn := c.mustFn("(*riot.Engine).Init")
	if fn == nil {
		return
	}
	pi := paramOf(fn, "types.EngineOpts")
	if pi < 0 {
		c.violateFn("C22:Engine.Init", fn, "Engine.Init no longer takes the engine's options")
		return
	}
	typ := c.P.typeOf("types", "EngineOpts")
	s := typ.Underlying().(*types.Struct)
	defPath, _ := c.P.pkgConst("riot", "DefaultPath")
	e := NewEngine(c.P)
	about := func(f *ssa.Function) bool {
		for _, p := range f.Params {
			if namedIs(p.Type(), "types.EngineOpts") {
				return true
			}
		}
		return false
	}
	e.Opaque = func(f *ssa.Function) bool { return !about(f) }
	kept := 0
	initialised := func(i int) *Term { return mk(OpParam, s.Field(i).Type(), "initialised "+s.Field(i).Name()) }
	e.Hooks.Call = func(st *State, ci *CallInfo) (bool, *Term) {
		if ci.Fn == nil || fnName(ci.Fn) != "(*types.EngineOpts).Init" {
			return false, nil
		}
		// decided above: unset options with a default get it, nothing else changes
		for i := 0; i < s.NumFields(); i++ {
			if _, ok := ownDefaults["EngineOpts."+s.Field(i).Name()]; ok {
				st.store(mkFieldAddr(ci.Args[0], typ, i), initialised(i), s.Field(i).Type(), ci.Instr)
			}
		}
		return true, nil
	}
	e.Hooks.Store = func(st *State, loc, val *Term, ins ssa.Instruction) {
		if loc.op != OpFieldAddr || loc.aux != "riot.Engine.initOptions" {
			return
		}
		kept++
		arg := st.stack[0].args[pi]
		opt := func(i int) *Term { return mkField(arg, typ, i) }
		o := &optionCheck{c: c, tab: tab, kind: "engine-keeps-initialised-options", fn: "(*riot.Engine).Init"}
		fi := func(n string) *Term { return opt(fieldIdx(typ, n)) }
		loaded := st.load(mkFieldAddr(st.stack[0].args[0], ptrElem(fn.Params[0].Type()), fieldIdx(ptrElem(fn.Params[0].Type()), "loaded")), types.Typ[types.Bool])
		for i := 0; i < s.NumFields(); i++ {
			before, after := opt(i), mkField(val, typ, i)
			if _, ok := ownDefaults["EngineOpts."+s.Field(i).Name()]; ok {
				good := after == initialised(i)
				c.ob(o.kind, "EngineOpts."+s.Field(i).Name()+" in "+o.fn, good)
				if !good {
					st.report("C22:engine:"+s.Field(i).Name(), ins, "the engine keeps %v for %s instead of the initialised option", after, s.Field(i).Name())
				}
				continue
			}
			o.field(st, typ, i, before, after, ins)
			type rule struct {
				conds []*Term
				vals  []bool
				want  *Term
			}
			var rs []rule
			switch s.Field(i).Name() {
			case "StoreFolder":
				use := fi("UseStore")
				em := mkEq(before, mkStr(""))
				rs = append(rs, rule{[]*Term{em, use}, []bool{true, true}, mkStr(defPath)})
			case "GseDict":
				em := mkEq(before, mkStr(""))
				not := fi("NotUseGse")
				rs = append(rs, rule{[]*Term{em, not, loaded}, []bool{true, false, false}, mkStr("zh")})
				rs = append(rs, rule{[]*Term{em, not}, []bool{true, true}, mkStr("")})
				rs = append(rs, rule{[]*Term{em, loaded}, []bool{true, true}, mkStr("")})
			}
			for _, r := range rs {
				x := st.clone()
				ok := true
				for k := range r.conds {
					ok = ok && x.assume(r.conds[k], r.vals[k])
				}
				if !ok {
					continue
				}
				good := after == r.want || x.holds(mkEq(after, r.want), true)
				c.ob("folder-and-dictionary", s.Field(i).Name()+" "+r.want.String(), good)
				if !good {
					st.report("C22:engine:"+s.Field(i).Name(), ins, "%s is %v where it must be %v", s.Field(i).Name(), after, r.want)
				}
			}
		}
		st.stop = true
	}
	c.runRoots(e, []*ssa.Function{fn}, nil)
	if kept == 0 {
		c.violateFn("C22:engine:kept", fn, "Engine.Init does not keep the options")
	}
	c.need("engine-keeps-initialised-options", 5)
	c.need("folder-and-dictionary", 1)
}

// nestedOnly is nested, except that one option is filled in elsewhere.
func (o *optionCheck) nestedOnly(st *State, typ types.Type, bf map[string]*Term, name string, after *Term, ins ssa.Instruction, skip string) {
	el := ptrElem(typ)
	s := el.Underlying().(*types.Struct)
	x := st.clone()
	if !x.assume(mkEq(bf[name], mkNil()), false) {
		return
	}
	for i := 0; i < s.NumFields(); i++ {
		if s.Field(i).Name() == skip {
			b, a := bf[name+"."+itoa(i)], x.load(mkFieldAddr(after, el, i), s.Field(i).Type())
			if a != b && !x.same(a, b) {
				st.report("C22:"+shortType(el)+"."+skip, ins, "%s is replaced", skip)
			}
			continue
		}
		o.field(x, el, i, bf[name+"."+itoa(i)], x.load(mkFieldAddr(after, el, i), s.Field(i).Type()), ins)
	}
}
