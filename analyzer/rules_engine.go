package main

import (
	"fmt"
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// coreWork: the operations of the index, the ranker and the store.
func coreWork(f *ssa.Function) bool {
	n := fnName(f)
	return strings.HasPrefix(n, "(*core.") || strings.HasPrefix(n, "(core.") || strings.HasPrefix(n, "core.") || strings.HasPrefix(n, "store.") || strings.HasPrefix(n, "(*store.")
}

// communicates: the function (or what it calls) sends, receives, counts, starts
// goroutines or works on the index, the rankers or the databases.
func communicates(c *Ctx) func(*ssa.Function) bool {
	memo := map[*ssa.Function]bool{}
	var has func(f *ssa.Function) bool
	has = func(f *ssa.Function) bool {
		if r, ok := memo[f]; ok {
			return r
		}
		memo[f] = false
		r := false
		for _, b := range f.Blocks {
			for _, ins := range b.Instrs {
				switch x := ins.(type) {
				case *ssa.Send, *ssa.Select, *ssa.Go:
					r = true
				case *ssa.UnOp:
					r = r || x.Op == token.ARROW
				case ssa.CallInstruction:
					cc := x.Common()
					if staticAtomic(cc) {
						r = true
					}
					if cc.IsInvoke() && strings.HasPrefix(structTypeName(cc.Value.Type()), "store.") {
						r = true
					}
					if g := cc.StaticCallee(); g != nil && inModule(g) && (coreWork(g) || has(g)) {
						r = true
					}
				case *ssa.MakeClosure:
					r = r || has(x.Fn.(*ssa.Function))
				}
			}
		}
		memo[f] = r
		return r
	}
	return has
}

// leaf: a small helper without loops, explored where it is called.
func leaf(g *ssa.Function) bool { return leafAt(g, 4) }

func leafAt(g *ssa.Function, depth int) bool {
	if depth == 0 {
		return false
	}
	if r := relOf(g); r != "riot" && r != "utils" || len(g.Blocks) == 0 || len(g.Blocks) > 12 || g.Recover != nil {
		return false
	}
	for _, b := range g.Blocks {
		for _, s := range b.Succs {
			if s.Dominates(b) {
				return false
			}
		}
		for _, ins := range b.Instrs {
			ci, ok := ins.(ssa.CallInstruction)
			if !ok {
				continue
			}
			if h := ci.Common().StaticCallee(); h != nil && inModule(h) && (!leafAt(h, depth-1)) {
				return false
			}
		}
	}
	return true
}

// isSearchMsg: a message that asks for a reply on the channel it carries.
func isSearchMsg(t types.Type) bool {
	if t == nil || !strings.HasPrefix(structTypeName(t), "riot.") {
		return false
	}
	_, ok := t.Underlying().(*types.Struct)
	return ok && chanField(t) >= 0
}

func replyChan(v *Term, t types.Type) *Term { return mkField(v, t, chanField(t)) }

// fieldByName finds a field, also inside embedded structs.
func fieldByName(v *Term, t types.Type, name string) *Term {
	if i := fieldIdx(t, name); i >= 0 {
		return mkField(v, t, i)
	}
	s := structOf(t)
	for i := 0; s != nil && i < s.NumFields(); i++ {
		if s.Field(i).Embedded() {
			if r := fieldByName(mkField(v, t, i), s.Field(i).Type(), name); r != nil {
				return r
			}
		}
	}
	return nil
}

// fieldOfType: the only field of v with the wanted kind of type.
func fieldOfType(v *Term, t types.Type, want func(types.Type) bool) *Term {
	s, ok := t.Underlying().(*types.Struct)
	if !ok {
		return nil
	}
	r := -1
	for i := 0; i < s.NumFields(); i++ {
		if want(s.Field(i).Type()) {
			if r >= 0 {
				return nil
			}
			r = i
		}
	}
	if r < 0 {
		return nil
	}
	return mkField(v, t, r)
}

func isIface(t types.Type) bool { _, ok := t.Underlying().(*types.Interface); return ok }

func resultOf(call *Term, i int, t types.Type) *Term {
	if call == nil {
		return nil
	}
	if call.op == OpTuple {
		return call.args[i]
	}
	return call
}

// searchFields: which field of the first search message carries what.
type searchFields map[int]string

func init() {
	register("C23", "Typestate analysis of every message loop of the engine and of Search with all helpers inlined. Workers: on every path from receiving a message that carries a reply channel to the next receive, exactly one reply is sent on that very channel or exactly one message carrying that very channel is handed on; the reply counts what the index or the ranker returned for this message. Search: the reply channel can hold one reply per shard, exactly one lookup is sent to every shard (symbolic iteration count and index coverage), with the search's own parameters, exactly one reply per shard is received unless the deadline case of the select was taken, in which case the result says so; every received count and every received hit is added to the result.",
		func(c *Ctx) {
			comm := communicates(c)
			hits := func(fn *ssa.Function) bool {
				for _, v := range []*types.Tuple{fn.Signature.Params(), fn.Signature.Results()} {
					for i := 0; i < v.Len(); i++ {
						if isHits(v.At(i).Type()) {
							return true
						}
					}
				}
				return false
			}
			f := newFlow(c, func(g *ssa.Function) bool { return coreWork(g) || !comm(g) && !leaf(g) && !hits(g) })
			e := f.e
			lookupArgs := map[int]map[int]bool{} // Lookup parameter -> message field
			var msgType types.Type

			// one message of a worker has been dealt with
			settle := func(st *State, evs []*flowEv, ins ssa.Instruction) {
				for i, r := range evs {
					if r.kind != "recv" || r.val == nil || !isSearchMsg(r.val.typ) {
						continue
					}
					own := replyChan(r.val, r.val.typ)
					n := 0
					site := fmt.Sprintf("%s until %s", fnName(r.at.Parent()), e.pos(insPos(ins)))
					bad := func(key string, at ssa.Instruction, format string, a ...any) {
						st.report("C23:"+key+":"+fnName(st.stack[0].fn), at, format, a...)
					}
					var look, rank *flowEv
					okReply := true
					var scan func(evs []*flowEv, inLoop bool)
					scan = func(evs []*flowEv, inLoop bool) {
						for _, ev := range evs {
							switch ev.kind {
							case "loop":
								for _, it := range f.recs(st, ev) {
									scan(it.evs, true)
								}
							case "call":
								switch ev.name {
								case "(*core.Indexer).Lookup":
									look = ev
								case "(*core.Ranker).Rank":
									rank = ev
								}
							case "send":
								if ev.val == nil {
									continue
								}
								handOn := isSearchMsg(ev.val.typ)
								reply := chanField(r.val.typ) >= 0 && ev.ch.typ != nil && types.Identical(chanElem(ev.ch.typ), chanElem(own.typ))
								if !handOn && !reply {
									continue
								}
								if inLoop {
									bad("loop", ev.at, "a reply or a handed-on request is sent in a loop: not exactly once per request")
									okReply = false
								}
								n++
								dest := ev.ch
								if handOn {
									dest = replyChan(ev.val, ev.val.typ)
								}
								if !st.same(dest, own) {
									okReply = false
									bad("channel", ev.at, "the reply goes to %v, not to the reply channel of the request being served", dest)
								}
								// what the reply says
								var docs, cnt *Term
								switch {
								case rank != nil:
									docs, cnt = resultOf(rank.val, 0, nil), resultOf(rank.val, 1, nil)
								case look != nil:
									docs, cnt = resultOf(look.val, 0, nil), resultOf(look.val, 1, nil)
								default:
									okReply = false
									bad("work", ev.at, "the request is answered or handed on before the index or the ranker was asked")
									continue
								}
								if handOn {
									d := fieldOfType(ev.val, ev.val.typ, isSliceType)
									if d == nil || !st.same(d, docs) {
										okReply = false
										bad("handed", ev.at, "the documents handed on are not those the index returned for this request")
									}
									continue
								}
								rn := fieldOfType(ev.val, ev.val.typ, isIntType)
								rd := fieldOfType(ev.val, ev.val.typ, isIface)
								if rn == nil || rd == nil {
									continue
								}
								same := st.proveEqInt(rn, cnt)
								if !same && rank == nil && st.knownFalse(mkMsgBool(r.val, look)) {
									same = st.proveEqInt(rn, mkLen(docs))
								}
								if !same {
									okReply = false
									bad("count", ev.at, "the count in the reply (%v) is not the number of documents found for this request", rn)
								}
								// the hits: none left out
								if rank != nil {
									if !st.same(unwrapIface(rd), unwrapIface(docs)) {
										okReply = false
										bad("hits", ev.at, "the hits in the reply are not those the ranker returned for this request")
									}
								} else if !st.proveLe(mkLen(docs), mkLen(unwrapIface(rd))) && !(st.proveLe(mkLen(docs), mkInt(0))) && !st.knownTrue(mkMsgBool(r.val, look)) {
									okReply = false
									bad("hits", ev.at, "the reply may hold fewer hits than the index found for this request")
								}
							}
						}
					}
					scan(evs[i+1:], false)
					if n != 1 {
						okReply = false
						what := "never answers nor hands on"
						if n > 1 {
							what = fmt.Sprintf("answers or hands on %d times", n)
						}
						bad("once", ins, "on this path the worker %s a request it received", what)
					}
					if rank != nil {
						d := fieldOfType(r.val, r.val.typ, isSliceType)
						if d == nil || len(rank.args) < 2 || !st.same(rank.args[1], d) {
							okReply = false
							bad("ranked", rank.at, "the ranker is not given the documents of this request")
						}
					}
					if look != nil {
						for k, a := range look.args {
							if k == 0 {
								continue
							}
							fi := -1
							if a.op == OpField && a.args[0] == r.val {
								fi, _ = a.obj.(int)
							}
							if lookupArgs[k] == nil {
								lookupArgs[k] = map[int]bool{}
							}
							lookupArgs[k][fi] = true
						}
						msgType = r.val.typ
					}
					c.ob("one-reply-per-request", site, okReply)
				}
			}
			f.onIter = func(st *State, key string, it *flowIter, ins ssa.Instruction) { settle(st, it.evs, ins) }
			f.onReturn = func(st *State, fn *ssa.Function, res []*Term, evs []*flowEv, ins ssa.Instruction) {
				for t, v := range st.facts {
					if !v && strings.HasSuffix(t.aux, "/recvok") {
						return // the queue was closed
					}
				}
				settle(st, evs, ins)
			}
			f.run(c.goRoots("riot"), nil)

			// the searcher
			f2 := newFlow(c, func(g *ssa.Function) bool { return coreWork(g) || !comm(g) && !leaf(g) && !hits(g) })
			e = f2.e
			sent := searchFields{}
			f2.onReturn = func(st *State, fn *ssa.Function, res []*Term, evs []*flowEv, ins ssa.Instruction) {
				c.searchReturn(f2, st, fn, res, evs, ins, sent)
			}
			if fn := c.mustFn("(*riot.Engine).Search"); fn != nil {
				f2.run([]*ssa.Function{fn}, nil)
			}
			// the parameters arrive where they belong
			want := []string{1: "the search's keywords", 2: "Labels", 3: "DocIds", 4: "CountDocsOnly", 5: "Logic"}
			for k := 1; k < len(want); k++ {
				ok := len(lookupArgs[k]) == 1
				got := "nothing known"
				for fi := range lookupArgs[k] {
					s, has := sent[fi]
					if has {
						got = s
					}
					ok = ok && has && s == want[k]
				}
				c.ob("lookup-gets-the-search's-parameters", fmt.Sprintf("Lookup parameter %d is %s", k, want[k]), ok)
				if !ok {
					fn := c.P.fn("(*riot.Engine).Search")
					if fn != nil {
						c.violateFn(fmt.Sprintf("C23:params:%d", k), fn, "parameter %d of the index lookup should be %s of the search, but it gets: %s", k, want[k], got)
					}
				}
			}
			_ = msgType
			c.need("one-reply-per-request", 1)
			c.need("one-lookup-per-shard", 1)
			c.need("one-reply-awaited-per-shard", 1)
			c.need("replies-never-block", 1)
			c.need("every-reply-counted", 1)
			c.need("every-hit-collected", 1)
			c.need("lookup-gets-the-search's-parameters", 1)
		}, "the number of shards is positive (C22) and the per-shard lists have one element per shard (C27)")
}

// mkMsgBool: the message field handed to Lookup as its count-only flag.
func mkMsgBool(msg *Term, look *flowEv) *Term {
	if look == nil {
		return nil
	}
	for _, a := range look.args {
		if bt, ok := a.typ.Underlying().(*types.Basic); ok && bt.Kind() == types.Bool {
			return a
		}
	}
	return nil
}

func (st *State) knownFalse(t *Term) bool {
	return t != nil && (t == mkBool(false) || st.holds(t, false))
}
func (st *State) knownTrue(t *Term) bool { return t != nil && (t == mkBool(true) || st.holds(t, true)) }

func sliceElem(t types.Type) types.Type {
	if s, ok := t.Underlying().(*types.Slice); ok {
		return s.Elem()
	}
	return nil
}

// searchReturn decides what Search did on one path.
func (c *Ctx) searchReturn(f *flow, st *State, fn *ssa.Function, res []*Term, evs []*flowEv, ins ssa.Instruction, sent searchFields) {
	eng := st.stack[0].args[0]
	n := st.engineOpt(c, eng, "NumShards")
	qi := paramOf(fn, "types.SearchReq")
	if n == nil || qi < 0 {
		return
	}
	req, reqT := st.stack[0].args[qi], fn.Params[qi].Type()
	site := e0(f, ins)
	bad := func(key string, at ssa.Instruction, format string, a ...any) {
		st.report("C23:"+key, at, format, a...)
	}
	// lookups
	var mk *Term
	okSend := true
	groups := 0
	sendOne := func(ev *flowEv) {
		ch := replyChan(ev.val, ev.val.typ)
		if mk != nil && mk != ch {
			okSend = false
			bad("own-channel", ev.at, "the lookups of one search carry different reply channels")
		}
		mk = ch
		s := structOf(ev.val.typ)
		for i := 0; i < s.NumFields(); i++ {
			v := mkField(ev.val, ev.val.typ, i)
			name := ""
			if v.op == OpField && v.args[0] == req {
				name = structOf(reqT).Field(v.obj.(int)).Name()
			}
			if out := fieldByName(res[0], fn.Signature.Results().At(0).Type(), "Tokens"); out != nil && out == v && name == "" {
				name = "the search's keywords"
			}
			if old, had := sent[i]; had && old != name {
				name = ""
			}
			sent[i] = name
		}
	}
	for _, ev := range evs {
		switch {
		case ev.kind == "send" && isSearchMsg(ev.val.typ):
			okSend = false
			bad("lookups", ev.at, "a lookup is sent outside the loop over the shards: not exactly one per shard")
			sendOne(ev)
		case ev.kind == "loop":
			recs := f.recs(st, ev)
			any := false
			for _, it := range recs {
				for _, x := range it.evs {
					any = any || x.kind == "send" && isSearchMsg(x.val.typ)
				}
			}
			if !any {
				continue
			}
			groups++
			for _, it := range recs {
				k := 0
				for _, x := range it.evs {
					if x.kind == "send" && isSearchMsg(x.val.typ) {
						k++
						sendOne(x)
						_, idx := shardElem(x.ch)
						if idx == nil || !f.coversAll(st, ev, recs, idx, n) {
							okSend = false
							bad("lookups", x.at, "the loop does not send exactly one lookup to each of the shards")
						}
					}
				}
				if k != 1 {
					okSend = false
					bad("lookups", ins, "an iteration of the loop over the shards (ending at %s) sends %d lookups", it.pos, k)
				}
			}
		}
	}
	if groups != 1 {
		okSend = false
		bad("lookups", ins, "the shards are asked by %d loops: not exactly one lookup per shard", groups)
	}
	c.ob("one-lookup-per-shard", site, okSend)
	if mk == nil || mk.op != OpMake || len(mk.args) != 1 {
		bad("own-channel", ins, "the reply channel is not created by the search itself")
		return
	}
	capOK := st.proveLe(n, mk.args[0])
	c.ob("replies-never-block", site, capOK)
	if !capOK {
		bad("capacity", ins, "the reply channel may hold fewer replies than there are shards: workers block when the search has given up")
	}
	// replies
	resT := fn.Signature.Results().At(0).Type()
	numDocs, timeout, docs := fieldByName(res[0], resT, "NumDocs"), fieldByName(res[0], resT, "Timeout"), fieldByName(res[0], resT, "Docs")
	total := mkInt(0)
	known, short := true, false
	var last ssa.Instruction = ins
	countOnly := fieldByName(req, reqT, "CountDocsOnly")
	okCount, okDocs, okTime := true, true, true
	counted := mkInt(0) // variables that sum the counts
	var lists []*Term
	var shortFlags []func() bool
	isRecv := func(x *flowEv) bool { return x.kind == "recv" && x.ch == mk }
	for _, ev := range evs {
		if isRecv(ev) {
			total = mkAdd(total, mkInt(1))
			known = false // its contents are not followed
			last = ev.at
		}
		if ev.kind != "loop" {
			continue
		}
		recs := f.recs(st, ev)
		any := false
		for _, it := range recs {
			for _, x := range it.evs {
				any = any || isRecv(x)
			}
		}
		if !any {
			continue
		}
		cnt, _, _, _ := f.iterations(ev, recs)
		if cnt == nil {
			known = false
			continue
		}
		total = mkAdd(total, cnt)
		cand := map[int]bool{}  // phis that may sum the counts
		lcand := map[int]bool{} // phis that may collect the hits
		fcand := map[int]bool{} // phis that may say that the search was cut short
		for i, p := range ev.phis {
			switch {
			case isIntType(p.typ):
				cand[i] = true
			case isHits(p.typ):
				lcand[i] = true
			case isBoolType(p.typ):
				fcand[i] = true
			}
		}
		for _, it := range recs {
			var v *Term
			k := 0
			for _, x := range it.evs {
				if isRecv(x) {
					k++
					v = x.val
					last = x.at
				}
				if x.kind == "loop" {
					for _, it2 := range f.recs(it.st, x) {
						for _, y := range it2.evs {
							if isRecv(y) {
								k = 99
							}
						}
					}
				}
			}
			if k > 1 {
				known = false
				bad("replies", last, "one iteration may wait for more than one reply")
			}
			if k == 0 {
				short = true
			}
			s := it.st
			for i, p := range ev.phis {
				d := mkSub(it.vals[i], p)
				switch {
				case cand[i]:
					if k == 0 && d != mkInt(0) || k == 1 && !numOf(v, d) {
						delete(cand, i)
					}
				case lcand[i]:
					if !f.collected(s, it, p, it.vals[i], v, k, countOnly) {
						delete(lcand, i)
					}
				case fcand[i]:
					x := it.vals[i]
					if k == 0 && !s.knownTrue(x) || k == 1 && x != p && !s.same(x, p) {
						delete(fcand, i)
					}
				}
			}
		}
		if len(cand) == 0 {
			okCount = false
		}
		// the result contains one of the candidates
		pick := (*Term)(nil)
		for i, p := range ev.phis {
			if cand[i] && numDocs != nil && (contains(numDocs, p) || pick == nil) {
				pick = mkSub(p, ev.init[i])
				if contains(numDocs, p) {
					break
				}
			}
		}
		if pick != nil {
			counted = mkAdd(counted, pick)
		}
		for i, p := range ev.phis {
			if lcand[i] {
				lists = append(lists, p)
			}
		}
		if timeout != nil {
			ev := ev
			shortFlags = append(shortFlags, func() bool {
				for i, p := range ev.phis {
					if fcand[i] && timeout == p && st.knownFalse(ev.init[i]) {
						return true
					}
				}
				return false
			})
		}
	}
	full := known && st.proveEqInt(total, n)
	recvOK := full && !short
	if !recvOK {
		// allowed if the result says so
		switch {
		case st.knownTrue(timeout):
			recvOK = true
		case full && len(shortFlags) > 0:
			recvOK = true
			for _, g := range shortFlags {
				recvOK = recvOK && g()
			}
		}
		if !recvOK {
			if short {
				bad("replies", last, "a reply that did not arrive in time is not reported as a timeout on every path")
			} else {
				bad("replies", last, "the search does not wait for exactly one reply per shard")
			}
		}
	} else if st.knownTrue(timeout) {
		okTime = false
		bad("timeout", ins, "a complete search is reported as cut short")
	}
	c.ob("one-reply-awaited-per-shard", site, recvOK && okTime)
	if numDocs == nil || !st.proveEqInt(numDocs, counted) {
		okCount = false
	}
	c.ob("every-reply-counted", site, okCount)
	if !okCount {
		bad("sum", last, "the reported number of documents is not the sum of the shards' counts")
	}
	if !st.knownTrue(countOnly) {
		okDocs = false
		if docs != nil {
			root, _, _ := st.window(docs)
			for _, p := range lists {
				okDocs = okDocs || st.same(root, p)
			}
		}
		c.ob("every-hit-collected", site, okDocs)
		if !okDocs {
			bad("hits-lost", last, "the returned hits are not established to be all hits of all replies")
		}
	}
}

func e0(f *flow, ins ssa.Instruction) string { return f.e.pos(insPos(ins)) }

func isBoolType(t types.Type) bool {
	bt, ok := t.Underlying().(*types.Basic)
	return ok && bt.Info()&types.IsBoolean != 0
}

// numOf: d is the count carried by reply v.
func numOf(v, d *Term) bool {
	w := fieldOfType(v, v.typ, isIntType)
	return w != nil && w == d
}

// collected: the list val is list p plus the hits of reply v.
func (f *flow) collected(st *State, it *flowIter, p, val, v *Term, k int, countOnly *Term) bool {
	if k == 0 {
		return st.same(val, p)
	}
	docs := fieldOfType(v, v.typ, isIface)
	if docs == nil {
		return false
	}
	if val == p || st.same(val, p) {
		return st.knownTrue(countOnly) || st.holds(mkEq(docs, mkNil()), true)
	}
	isDocs := func(t *Term) bool {
		for t != nil && (t.op == OpAssert || t.op == OpMakeIface || t.op == OpConvert || t.op == OpExtract) {
			t = t.args[0]
		}
		return t == docs
	}
	if g, ok := f.grown[val]; ok && g.other != nil {
		return g.base == p && isDocs(g.other)
	}
	for _, ev := range it.evs {
		if ev.kind != "loop" {
			continue
		}
		for i, q := range ev.phis {
			if q != val {
				continue
			}
			if ev.init[i] != p {
				return false
			}
			recs := f.recs(st, ev)
			if len(recs) == 0 {
				return false
			}
			for _, r := range recs {
				g, ok := f.grown[r.vals[i]]
				if !ok || g.base != q || len(g.elems) != 1 {
					return false
				}
				// the element appended is element idx of the hits
				var idx, list *Term
				visit(g.elems[0], func(x *Term) {
					if x.op == OpIndexAddr && isDocs(x.args[0]) && idx == nil {
						list, idx = x.args[0], x.args[1]
					}
				})
				if idx == nil || !f.coversAll(st, ev, recs, idx, mkLen(list)) {
					return false
				}
			}
			return true
		}
	}
	return false
}
