package main

import (
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// bare strips conversions that keep a shard number intact (at least 32 bits).
func bare(t *Term) (*Term, bool) {
	ok := true
	for t != nil && t.op == OpConvert {
		if b, isB := t.typ.Underlying().(*types.Basic); isB && b.Info()&types.IsInteger != 0 {
			switch b.Kind() {
			case types.Int8, types.Int16, types.Uint8, types.Uint16:
				ok = false
			}
		}
		t = t.args[0]
	}
	return t, ok
}

func bareOf(t *Term) *Term { b, _ := bare(t); return b }

// below: the unsigned (or provably bounded) value is in [0, n).
func (st *State) below(idx, n *Term) bool {
	t, wide := bare(idx)
	if t == nil || n == nil || !wide {
		return false
	}
	isN := func(x *Term) bool {
		b, w := bare(x)
		return b != nil && w && (b == n || st.proveEqInt(b, n))
	}
	if t.op == OpArith && t.aux == "%" && isUnsigned(t.args[0].typ) && isN(t.args[1]) {
		return true
	}
	// h - h/n*n
	if t.op == OpSub && isUnsigned(t.typ) && t.args[1].op == OpMul {
		m := t.args[1]
		for i := 0; i < 2; i++ {
			q, d := m.args[i], m.args[1-i]
			if q.op == OpArith && q.aux == "/" && q.args[0] == t.args[0] && isN(q.args[1]) && isN(d) {
				return true
			}
		}
	}
	return st.proveLe(mkInt(0), t) && st.proveLt(t, n)
}

// canon prints a value with id as placeholder, so that the same function of the
// id prints the same anywhere; other inputs than the options make it not ok.
func (f *flow) canon(t *Term, holes map[*Term]string) (string, bool) {
	if t == nil {
		return "nil", false
	}
	if h, ok := holes[t]; ok {
		return h, true
	}
	ok := true
	sub := func(as []*Term) string {
		var ss []string
		for _, a := range as {
			s, k := f.canon(a, holes)
			ok = ok && k
			ss = append(ss, s)
		}
		return strings.Join(ss, ",")
	}
	switch t.op {
	case OpConst:
		return t.String(), true
	case OpConvert:
		if b, isB := t.typ.Underlying().(*types.Basic); isB && b.Info()&types.IsInteger != 0 {
			if _, wide := bare(t); wide {
				return f.canon(t.args[0], holes)
			}
		}
		if isIface(t.typ) {
			return f.canon(t.args[0], holes)
		}
		return "(" + types.TypeString(t.typ, nil) + ")(" + sub(t.args) + ")", ok
	case OpMakeIface:
		return f.canon(t.args[0], holes)
	case OpCall:
		n := t.aux
		if i := strings.Index(n, "#"); i >= 0 {
			return n[:i], false
		}
		if as, known := f.printed[t]; known {
			return n + "(" + sub(append(append([]*Term(nil), t.args[:len(t.args)-1]...), as...)) + ")", ok
		}
		return n + "(" + sub(t.args) + ")", ok
	case OpLoad:
		if a := t.args[0]; a.op == OpFieldAddr {
			p := a.aux
			for b := a.args[0]; ; b = b.args[0] {
				if b.op != OpFieldAddr {
					break
				}
				p = b.aux + "/" + p
			}
			if strings.HasPrefix(p, "riot.Engine.") {
				return p, true
			}
		}
		return t.String(), false
	case OpParam:
		return t.aux, strings.HasPrefix(t.aux, "options.")
	case OpLen:
		return "len(" + sub(t.args) + ")", ok
	case OpAdd, OpMul, OpEq:
		a, k1 := f.canon(t.args[0], holes)
		b, k2 := f.canon(t.args[1], holes)
		if t.op != OpAdd && b < a {
			a, b = b, a
		}
		return "(" + a + opNames[t.op] + b + ")", k1 && k2
	case OpSub, OpArith, OpConcat, OpExtract, OpLt, OpNot:
		return "(" + opNames[t.op] + t.aux + ":" + sub(t.args) + ")", ok
	}
	return t.String(), false
}

// allEvs lists the events of a path and of the iterations of its loops.
func (f *flow) allEvs(st *State, evs []*flowEv, do func(st *State, ev *flowEv)) {
	for _, ev := range evs {
		do(st, ev)
		if ev.kind == "loop" {
			for _, it := range f.recs(st, ev) {
				f.allEvs(it.st, it.evs, do)
			}
		}
	}
}

func listSize(c *Ctx, list string) string {
	for _, l := range engineLists(c) {
		if l.field == list {
			return l.size
		}
	}
	return ""
}

func shardable(g *ssa.Function) bool {
	r := g.Signature.Results()
	if r.Len() != 1 || !isIntType(r.At(0).Type()) || len(g.Blocks) == 0 {
		return false
	}
	for _, b := range g.Blocks {
		for _, s := range b.Succs {
			if s.Dominates(b) {
				return false
			}
		}
	}
	return true
}

func init() {
	register("C27", "Provenance analysis of shard numbers. Every channel, database, index and ranker of a per-shard list that an entry point, worker or helper touches is an element whose index is followed to its origin: the store shard chosen when saving, deleting and looking up must be the same expression of the document id and the number of store shards alone (compared after inlining helpers), and provably below the number of shards (unsigned remainder); the index shard is below the number of index shards and the document's ranking data go to the same shard; every worker serves the index, ranker and database of the very shard whose queue it reads. Initialisation: per-shard lists get one element per shard, every queue is created, every shard gets its workers, and a shard's database path is the same expression of the shard number at every opening.",
		func(c *Ctx) {
			w := newWorkFlow(c)
			e := w.e
			op := e.Opaque
			e.Opaque = func(g *ssa.Function) bool { return op(g) && (coreWork(g) || !shardable(g)) }
			bad := func(st *State, key string, at ssa.Instruction, format string, a ...any) {
				st.report("C27:"+key+":"+fnName(st.stack[0].fn), at, format, a...)
			}
			type use struct {
				at ssa.Instruction
			}
			hashes := map[string]map[string]use{}
			start := e.PassStart
			e.PassStart = func() { start(); hashes = map[string]map[string]use{} }
			place := func(st *State, idx, id *Term, at ssa.Instruction, what string) {
				n := st.engineOpt(c, st.stack[0].args[0], "StoreShards")
				ok := true
				if !st.below(idx, n) {
					ok = false
					bad(st, "range", at, "%s: the store shard is not shown to be below the number of store shards", what)
				}
				h, fine := w.canon(bareOf(idx), map[*Term]string{id: "ID"})
				if !fine || !strings.Contains(h, "ID") {
					ok = false
					bad(st, "function", at, "%s: the store shard does not depend on the document id alone: %s", what, h)
				} else {
					if hashes[h] == nil {
						hashes[h] = map[string]use{}
					}
					hashes[h][fnName(st.stack[0].fn)+" "+what] = use{at}
				}
				c.ob("store-shard", fnName(st.stack[0].fn)+": "+what, ok)
			}
			look := func(st *State, evs []*flowEv, ins ssa.Instruction) {
				// a per-shard worker stays on its shard
				var own *Term
				for _, ev := range evs {
					if ev.kind == "recv" {
						if l, i := shardElem(ev.ch); l != "" && i != nil && isMsg(ev.val.typ) {
							own = bareOf(i)
						}
					}
				}
				w.allEvs(st, evs, func(s *State, ev *flowEv) {
					var l string
					var i *Term
					switch {
					case ev.kind == "send":
						l, i = shardElem(ev.ch)
					case ev.kind == "call" && len(ev.args) > 0:
						l, i = shardElem(ev.args[0])
					}
					if l == "" {
						return
					}
					if own != nil {
						ok := bareOf(i) == own || s.proveEqInt(bareOf(i), own)
						c.ob("worker-shard", fnName(st.stack[0].fn)+": "+ev.kind+" "+l, ok)
						if !ok {
							bad(st, "worker", ev.at, "a worker of one shard works on %s of another", l)
						}
					}
				})
			}
			w.onIter0 = look
			w.message = func(st *State, r *flowEv, evs []*flowEv, ins ssa.Instruction) {
				if l, _ := shardElem(r.ch); l != "" {
					return
				}
				// a document on its way to its index shard
				n := st.engineOpt(c, st.stack[0].args[0], "NumShards")
				evs = w.unrolled(st, evs, n)
				docs := w.sendsTo(evs, addDoc)
				ranks := w.sendsTo(evs, addRank)
				var shard *Term
				for _, s := range docs {
					if st.isNilTerm(msgField(s.val, isDocPtr)) == 1 {
						continue
					}
					_, shard = shardElem(s.ch)
					ok := st.below(shard, n)
					c.ob("index-shard", fnName(st.stack[0].fn), ok)
					if !ok {
						bad(st, "index-range", s.at, "the index shard is not shown to be below the number of shards")
					}
				}
				for _, s := range ranks {
					_, i := shardElem(s.ch)
					ok := shard != nil && (bareOf(i) == bareOf(shard) || st.proveEqInt(bareOf(i), bareOf(shard)))
					c.ob("index-shard", "ranking data", ok)
					if !ok {
						bad(st, "rank-shard", s.at, "a document's ranking data do not go to the shard of its index data")
					}
				}
			}
			w.request = func(st *State, fn *ssa.Function, evs []*flowEv, ins ssa.Instruction) {
				if fn.Parent() != nil || !isExported(fn) {
					return
				}
				w.allEvs(st, evs, func(s *State, ev *flowEv) {
					switch ev.kind {
					case "send":
						l, i := shardElem(ev.ch)
						if listSize(c, l) != "StoreShards" || ev.val == nil {
							return
						}
						what := "saving"
						if s.truth(msgField(ev.val, isBoolType)) == 1 {
							what = "deleting"
						}
						place(s, i, msgField(ev.val, isStringType), ev.at, what)
					case "call":
						if len(ev.args) < 2 || !strings.HasPrefix(ev.name, "store.") {
							return
						}
						l, i := shardElem(ev.args[0])
						if listSize(c, l) != "StoreShards" || !isByteSlice(ev.args[1].typ) {
							return
						}
						place(s, i, bareOf(ev.args[1]), ev.at, "looking up")
					}
				})
			}
			roots := c.goRoots("riot")
			have := map[*ssa.Function]bool{}
			for _, f := range roots {
				have[f] = true
			}
			comm := communicates(c)
			phase := initPhase(c)
			for _, f := range c.P.methodsOf("riot", "Engine") {
				if isExported(f) && comm(f) && !have[f] && !phase[f] && !isSearch(f) && f.Name() != "FlushIndex" && f.Name() != "Close" && f.Name() != "Flush" {
					roots = append(roots, f)
				}
			}
			w.run(roots, nil)
			if len(hashes) > 1 {
				for _, h := range sortedKeys(hashes) {
					for _, k := range sortedKeys(hashes[h]) {
						u := hashes[h][k]
						c.violateAt("C27:differs:"+k, u.at, "the store shard is chosen as %s here, and differently elsewhere", h)
					}
				}
			}
			c.note("store shard: %s", strings.Join(sortedKeys(hashes), " | "))
			c.need("store-shard", 1)
			c.need("worker-shard", 1)
			c.need("index-shard", 1)
			c.started()
			c.need("shard-list", 2)
			c.need("shard-worker", 1)
		}, "the value of murmur.Sum32 depends on its argument alone", "options are only set during initialisation (C26) and shard numbers are positive (C22)")
}

func isByteSlice(t types.Type) bool {
	s, ok := t.Underlying().(*types.Slice)
	if !ok {
		return false
	}
	b, ok := s.Elem().Underlying().(*types.Basic)
	return ok && b.Kind() == types.Uint8
}

// newBuildFlow explores initialisation.
func newBuildFlow(c *Ctx) *flow {
	f := newFlow(c, nil)
	e := f.e
	comm := communicates(c)
	e.Opaque = func(g *ssa.Function) bool { return coreWork(g) || !comm(g) && !leaf(g) && !c.writesEngine(g) }
	e.GoInline = false
	f.stores = true
	f.building = true
	f.onCall = func(st *State, ci *CallInfo) (bool, *Term) {
		// the options fill in their own defaults (C22): new values
		if ci.Fn == nil || fnName(ci.Fn) != "(*types.EngineOpts).Init" || len(ci.Args) == 0 {
			return false, nil
		}
		t := ci.Args[0].typ.Underlying().(*types.Pointer).Elem()
		s := structOf(t)
		for i := 0; i < s.NumFields(); i++ {
			v := mk(OpParam, s.Field(i).Type(), "options."+s.Field(i).Name())
			st.store(mkFieldAddr(ci.Args[0], t, i), v, s.Field(i).Type(), ci.Instr)
			if n := s.Field(i).Name(); n == "NumShards" || n == "StoreShards" {
				st.assume(mkLt(mkInt(0), v), true)
			}
		}
		return true, mkNil()
	}
	return f
}

// started: what initialisation leaves behind.
func (c *Ctx) started() {
	fn := c.mustFn("(*riot.Engine).Init")
	if fn == nil {
		return
	}
	f := newBuildFlow(c)
	e := f.e
	lists := engineLists(c)
	e.Hooks.Load = func(st *State, loc, val *Term, ins ssa.Instruction) {
		if val.op != OpLoad && val.op != OpHavoc {
			return
		}
		for _, l := range lists {
			if isField(loc, l.field) {
				n := st.engineOpt(c, st.stack[0].args[0], l.size)
				if made, _ := f.established(c, st, flowEvs(st), l, n); made {
					st.assume(mkEq(mkLen(val), n), true)
				}
			}
		}
	}
	// workers: which list they read, which parameter is the shard
	f.onReturn = func(st *State, fn *ssa.Function, res []*Term, evs []*flowEv, ins ssa.Instruction) {
		eng := st.stack[0].args[0]
		use := st.engineOpt(c, eng, "UseStore")
		st.split([]*Term{use}, func(st *State) {
			fail := func(key string, format string, a ...any) { st.report("C27:init:"+key, ins, format, a...) }
			for _, l := range lists {
				if l.size == "StoreShards" && st.knownFalse(use) {
					continue
				}
				n := st.engineOpt(c, eng, l.size)
				ok := true
				made, filled := f.established(c, st, evs, l, n)
				if !made {
					ok = false
					fail("list:"+l.field, "%s is not shown to get one element per shard (%s)", l.field, l.size)
				}
				if !filled {
					ok = false
					fail("fill:"+l.field, "not every shard's element of %s is created and initialised", l.field)
				}
				c.ob("shard-list", l.field, ok)
			}
			// workers
			for _, g := range c.goRoots("riot") {
				k, list := c.workerOf(g)
				if k < 0 {
					continue
				}
				size := listSize(c, list)
				if size == "StoreShards" && st.knownFalse(use) {
					continue
				}
				n := st.engineOpt(c, eng, size)
				started, once := false, true
				for _, ev := range evs {
					if ev.kind == "go" && ev.name == fnName(g) {
						once = false
					}
					if ev.kind != "loop" {
						continue
					}
					recs := f.recs(st, ev)
					var idx *Term
					have, inner := 0, 0
					same := true
					for _, it := range recs {
						got, nested := 0, 0
						note := func(a *Term) {
							if idx != nil && idx != a {
								same = false
							}
							idx = a
						}
						for _, x := range it.evs {
							if x.kind == "go" && x.name == fnName(g) {
								got++
								note(x.args[k])
							}
							if x.kind == "loop" {
								for _, jt := range f.recs(it.st, x) {
									for _, y := range jt.evs {
										if y.kind == "go" && y.name == fnName(g) {
											nested++
											note(y.args[k])
										}
									}
								}
							}
						}
						if got == 1 {
							have++
						}
						if got > 1 {
							once = false
						}
						if nested > 0 {
							inner++
						}
					}
					if have+inner == 0 {
						continue
					}
					if inner > 0 {
						once = false
					}
					if started {
						once = false
					}
					started = same && idx != nil && (have == len(recs) || inner > 0) && f.coversAll(st, ev, recs, idx, n)
				}
				c.ob("shard-worker", fnName(g), started)
				if !started {
					fail("worker:"+fnName(g), "%s is not started for every shard", fnName(g))
				}
				if (size == "StoreShards" || c.ordered(g)) && started && !once {
					fail("single:"+fnName(g), "%s may be started more than once for a shard: its requests would be carried out out of order", fnName(g))
				}
			}
			// database paths
			paths := map[string]bool{}
			f.allEvs(st, evs, func(s *State, ev *flowEv) {
				if ev.kind != "call" || !strings.HasSuffix(ev.name, ".OpenStore") {
					return
				}
				var idx *Term
				visit(ev.args[0], func(t *Term) {
					if t.op == OpPhi {
						idx = t
					}
				})
				if idx == nil {
					for _, a := range f.printed[ev.args[0]] {
						visit(a, func(t *Term) {
							if t.op == OpPhi {
								idx = t
							}
						})
					}
				}
				h, fine := f.canon(ev.args[0], map[*Term]string{idx: "SHARD"})
				ok := idx != nil && fine && strings.Contains(h, "SHARD")
				c.ob("database-path", "open", ok)
				if !ok {
					s.report("C27:init:path", ev.at, "the path of a shard's database is not an expression of the shard number and the options alone: %s", h)
				}
				paths[h] = true
			})
			if len(paths) > 1 {
				fail("path-differs", "a shard's database is opened under different paths: %s", strings.Join(sortedKeys(paths), " | "))
			}
		})
	}
	f.run([]*ssa.Function{fn}, func(st *State, fn *ssa.Function) {})
}

// established: a per-shard list has one element per shard, and each is initialised.
func (f *flow) established(c *Ctx, st *State, evs []*flowEv, l engineList, n *Term) (made, filled bool) {
	var el types.Type
	if t := c.P.typeOf("riot", "Engine"); t != nil {
		el = sliceElem(structOf(t).Field(fieldIdx(t, l.field)).Type())
	}
	var val *Term
	mine := func(loc *Term) *Term {
		if loc.op != OpIndexAddr {
			return nil
		}
		if k, i := shardElem(loc); k == l.field || val != nil && loc.args[0] == val {
			if k == "" {
				i = loc.args[1]
			}
			return i
		}
		return nil
	}
	for _, ev := range evs {
		switch ev.kind {
		case "store":
			if isField(ev.ch, l.field) {
				made = ev.val.op == OpMake && st.proveEqInt(mkLen(ev.val), n)
				filled = false
				val = ev.val
			}
		case "loop":
			recs := f.recs(st, ev)
			grow, put := 0, 0
			var idx *Term
			bad := false
			for _, it := range recs {
				for _, x := range it.evs {
					if x.kind == "call" && strings.HasSuffix(x.name, ").Init") && len(x.args) > 0 && x.args[0].op == OpIndexAddr && el != nil && namedIs(x.args[0].typ, structTypeName(el)) {
						put++
						if idx != nil && idx != x.args[0].args[1] {
							bad = true
						}
						idx = x.args[0].args[1]
					}
					if x.kind != "store" {
						continue
					}
					if isField(x.ch, l.field) {
						g, known := f.grown[x.val]
						if known && len(g.elems) == 1 && fieldLoad(g.base, l.field) {
							grow++
						} else {
							bad = true
						}
					} else if i := mine(x.ch); i != nil {
						put++
						if idx != nil && idx != i {
							bad = true
						}
						idx = i
						if x.val.isNil() {
							bad = true
						}
					}
				}
			}
			if grow > 0 {
				cnt, _, _, _ := f.iterations(ev, recs)
				made = !bad && grow == len(recs) && cnt != nil && st.proveEqInt(cnt, n)
			}
			if put > 0 {
				filled = !bad && put == len(recs) && f.coversAll(st, ev, recs, idx, n)
			}
		}
	}
	return
}

// ordered: worker whose work on documents must keep the order of the queue.
func (c *Ctx) ordered(g *ssa.Function) bool {
	return reaches(g, func(h *ssa.Function) bool {
		switch fnName(h) {
		case addDoc, delDoc, addRank, delRank:
			return true
		}
		return false
	})
}

// workerOf: the parameter of a worker that selects the element of a per-shard list, and the list.
func (c *Ctx) workerOf(g *ssa.Function) (int, string) {
	for _, b := range g.Blocks {
		for _, ins := range b.Instrs {
			ia, ok := ins.(*ssa.IndexAddr)
			if !ok {
				continue
			}
			ld, ok := ia.X.(*ssa.UnOp)
			if !ok || ld.Op != token.MUL {
				continue
			}
			fa, ok := ld.X.(*ssa.FieldAddr)
			if !ok || !namedIs(fa.X.Type(), "riot.Engine") {
				continue
			}
			name := structOf(fa.X.Type()).Field(fa.Field).Name()
			if listSize(c, name) == "" {
				continue
			}
			v := ia.Index
			for {
				if cv, ok := v.(*ssa.Convert); ok {
					v = cv.X
					continue
				}
				break
			}
			for i, p := range g.Params {
				if v == p {
					return i, name
				}
			}
		}
	}
	return -1, ""
}

// writesEngine: the function writes fields of the engine, itself or through a function that it
// calls.
func (c *Ctx) writesEngine(g *ssa.Function) bool {
	seen := map[*ssa.Function]bool{}
	var writes func(g *ssa.Function) bool
	writes = func(g *ssa.Function) bool {
		if seen[g] || !inModule(g) {
			return false
		}
		seen[g] = true
		if c.writesEngineItself(g) {
			return true
		}
		for _, b := range g.Blocks {
			for _, ins := range b.Instrs {
				if ci, ok := ins.(*ssa.Call); ok {
					if h := ci.Call.StaticCallee(); h != nil && writes(h) {
						return true
					}
				}
			}
		}
		return false
	}
	return writes(g)
}

func (c *Ctx) writesEngineItself(g *ssa.Function) bool {
	for _, b := range g.Blocks {
		for _, ins := range b.Instrs {
			if s, ok := ins.(*ssa.Store); ok {
				for v := s.Addr; ; {
					switch x := v.(type) {
					case *ssa.FieldAddr:
						if namedIs(x.X.Type(), "riot.Engine") {
							return true
						}
						v = x.X
						continue
					case *ssa.IndexAddr:
						v = x.X
						continue
					case *ssa.UnOp:
						v = x.X
						continue
					}
					break
				}
			}
		}
	}
	return false
}

func isField(loc *Term, name string) bool {
	return loc.op == OpFieldAddr && loc.aux == "riot.Engine."+name
}

func fieldLoad(v *Term, name string) bool {
	return v != nil && v.op == OpLoad && isField(v.args[0], name) || v != nil && v.op == OpHavoc
}
