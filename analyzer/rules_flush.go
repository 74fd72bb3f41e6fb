package main

import (
	"fmt"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

const (
	addDoc     = "(*core.Indexer).AddDocToCache"
	delDoc     = "(*core.Indexer).RemoveDocToCache"
	addRank    = "(*core.Ranker).AddDoc"
	delRank    = "(*core.Ranker).RemoveDoc"
	storeWrite = "store.Set"
	storeErase = "store.Delete"
)

// workFlow explores the engine's message loops and entry points.
type workFlow struct {
	*flow
	roles   map[string]map[string]bool // channel list -> work done by its receiver
	pend    map[string]map[string]bool
	single  map[*flowIter]bool
	onIter0 func(st *State, evs []*flowEv, ins ssa.Instruction)
	// what each rule wants to know
	message func(st *State, recv *flowEv, evs []*flowEv, ins ssa.Instruction)
	request func(st *State, fn *ssa.Function, evs []*flowEv, ins ssa.Instruction)
}

func newWorkFlow(c *Ctx) *workFlow {
	comm := communicates(c)
	w := &workFlow{flow: newFlow(c, func(g *ssa.Function) bool { return coreWork(g) || !comm(g) && !leaf(g) }), roles: map[string]map[string]bool{}, single: map[*flowIter]bool{}}
	w.keep = func(n string) bool {
		return strings.HasPrefix(n, "(*encoding/gob.") || strings.HasPrefix(n, "log.") || strings.HasPrefix(n, "(*log.")
	}
	settle := func(st *State, evs []*flowEv, ins ssa.Instruction) {
		for i, r := range evs {
			if r.kind != "recv" || r.val == nil || isSearchMsg(r.val.typ) || !isMsg(r.val.typ) {
				continue
			}
			l := chanName(r.ch)
			if l == "" {
				continue
			}
			for _, ev := range evs[i+1:] {
				if ev.kind == "call" {
					if w.pend[l] == nil {
						w.pend[l] = map[string]bool{}
					}
					w.pend[l][ev.name] = true
				}
			}
			if w.message != nil {
				w.message(st, r, evs[i+1:], ins)
			}
		}
	}
	w.onIter = func(st *State, key string, it *flowIter, ins ssa.Instruction) {
		settle(st, it.evs, ins)
		if w.onIter0 != nil {
			w.onIter0(st, it.evs, ins)
		}
	}
	w.onReturn = func(st *State, fn *ssa.Function, res []*Term, evs []*flowEv, ins ssa.Instruction) {
		for t, v := range st.facts {
			if !v && strings.HasSuffix(t.aux, "/recvok") {
				return // the queue was closed
			}
		}
		settle(st, evs, ins)
		if w.request != nil {
			w.request(st, fn, evs, ins)
		}
	}
	start := w.e.PassStart
	w.e.PassStart = func() {
		start()
		if len(w.pend) > 0 {
			w.roles = w.pend
		}
		w.pend = map[string]map[string]bool{}
	}
	return w
}

// roleOf: the work done by the receiver of a channel.
func (w *workFlow) roleOf(ch *Term) string {
	l := chanName(ch)
	for _, r := range []string{addDoc, delDoc, addRank, delRank} {
		if w.roles[l][r] {
			return r
		}
	}
	if w.roles[l][storeWrite] || w.roles[l][storeErase] {
		return "store"
	}
	return ""
}

func isMsg(t types.Type) bool {
	_, ok := t.Underlying().(*types.Struct)
	return ok && strings.HasPrefix(structTypeName(t), "riot.")
}

// chanName: the engine field a channel (or list of channels) comes from.
func chanName(ch *Term) string {
	if l, _ := shardElem(ch); l != "" {
		return l
	}
	if ch != nil && ch.op == OpLoad && ch.args[0].op == OpFieldAddr && strings.HasPrefix(ch.args[0].aux, "riot.Engine.") {
		return strings.TrimPrefix(ch.args[0].aux, "riot.Engine.")
	}
	return ""
}

// msgField: the only field of a message of the wanted kind.
func msgField(v *Term, want func(types.Type) bool) *Term {
	if v == nil || v.typ == nil {
		return nil
	}
	return fieldOfType(v, v.typ, want)
}

// truth of a condition on a path: 1, 0, or -1 if open.
func (st *State) truth(t *Term) int {
	switch {
	case st.knownTrue(t):
		return 1
	case st.knownFalse(t):
		return 0
	}
	return -1
}

func (st *State) isNilTerm(t *Term) int {
	if t == nil {
		return -1
	}
	if t.isNil() {
		return 1
	}
	if t.op == OpAlloc {
		return 0
	}
	return st.truth(mkEq(t, mkNil()))
}

func reserved(st *State, id *Term) int { return st.truth(mkEq(id, mkStr("0"))) }

// countAdds: increments of a counter by one among the events (loops excluded);
// bad is set if it is changed in any other way.
func (w *workFlow) countAdds(st *State, evs []*flowEv, name string) (n, firstAt int, bad bool) {
	firstAt = -1
	for i, ev := range evs {
		switch ev.kind {
		case "atomic":
			if strings.HasPrefix(ev.name, name+":") {
				if ev.name != name+":Add" || len(ev.args) == 0 || ev.args[0] == nil || !isOne(ev.args[0]) {
					bad = true
				}
				n++
				if firstAt < 0 {
					firstAt = i
				}
			}
		case "loop":
			for _, it := range w.recs(st, ev) {
				if k, _, b := w.countAdds(it.st, it.evs, name); k > 0 || b {
					bad = true
				}
			}
		}
	}
	return
}

func isOne(t *Term) bool {
	v, ok := t.intVal()
	return ok && v == 1
}

// fanout: what a loop over the shards sends on channels of a role.
type fanout struct {
	ev     *flowEv
	sends  []*flowEv // one per iteration path that sends
	except *Term     // the shard left out
	ok     bool      // exactly one message to every other shard
}

func (w *workFlow) fanouts(st *State, evs []*flowEv, role string, n *Term) []fanout {
	var out []fanout
	for _, ev := range evs {
		if ev.kind != "loop" {
			continue
		}
		recs := w.recs(st, ev)
		fo := fanout{ev: ev, ok: true}
		none := []*flowIter{}
		var idx *Term
		for _, it := range recs {
			k := 0
			for _, x := range it.evs {
				if w.single[it] {
					break // counted as a send of its own
				}
				if x.kind == "send" && w.roleOf(x.ch) == role {
					k++
					fo.sends = append(fo.sends, x)
					_, i := shardElem(x.ch)
					if i == nil || idx != nil && i != idx {
						fo.ok = false
					} else {
						idx = i
					}
				}
			}
			if k > 1 {
				fo.ok = false
			}
			if k == 0 {
				none = append(none, it)
			}
		}
		if len(fo.sends) == 0 {
			continue
		}
		if idx == nil || !w.coversAll(st, ev, recs, idx, n) {
			fo.ok = false
		}
		for _, it := range none {
			var s *Term
			for t, v := range it.facts {
				if v && t.op == OpEq {
					if t.args[0] == idx {
						s = t.args[1]
					} else if t.args[1] == idx {
						s = t.args[0]
					}
				}
			}
			if s == nil || fo.except != nil && fo.except != s {
				fo.ok = false
			}
			fo.except = s
		}
		out = append(out, fo)
	}
	return out
}

// unrolled: where a loop over all shards treats one of them apart (i == s), the
// sends of that one iteration stand as sends to the shard s.
func (w *workFlow) unrolled(st *State, evs []*flowEv, n *Term) []*flowEv {
	var out []*flowEv
	for _, ev := range evs {
		if ev.kind == "loop" {
			out = append(out, w.apart(st, ev, n)...)
		}
		out = append(out, ev)
	}
	return out
}

func (w *workFlow) apart(st *State, ev *flowEv, n *Term) []*flowEv {
	recs := w.recs(st, ev)
	var one *flowIter
	var s, idx *Term
	for _, it := range recs {
		for t, v := range it.facts {
			if !v || t.op != OpEq {
				continue
			}
			for i := 0; i < 2; i++ {
				phi, x := t.args[i], t.args[1-i]
				own := false
				for _, p := range it.phis {
					own = own || contains(phi, p)
				}
				for _, p := range it.phis {
					own = own && !contains(x, p)
				}
				if !own || !st.below(x, n) || !w.coversAll(st, ev, recs, phi, n) {
					continue
				}
				if one != nil && (one != it || s != x) {
					return nil
				}
				one, s, idx = it, x, phi
			}
		}
	}
	if one == nil {
		return nil
	}
	apart := mkEq(idx, s)
	for _, it := range recs {
		if v, ok := it.facts[apart]; it != one && (!ok || v) {
			return nil
		}
	}
	var out []*flowEv
	for _, x := range one.evs {
		if x.kind != "send" {
			continue
		}
		_, i := shardElem(x.ch)
		if i == nil || i != s && i != idx {
			return nil
		}
		y := *x
		y.ch = subst(x.ch, map[*Term]*Term{idx: s})
		out = append(out, &y)
	}
	w.single[one] = true
	return out
}

func (w *workFlow) sendsTo(evs []*flowEv, role string) []*flowEv {
	var out []*flowEv
	for _, ev := range evs {
		if ev.kind == "send" && w.roleOf(ev.ch) == role {
			out = append(out, ev)
		}
	}
	return out
}

func init() {
	register("C24", "Conservation analysis of requests and completions. Request side: every exported entry point (and recovery) is explored to its end; the request counters are raised exactly once per document, removal and forced update accepted, before it is queued. In between: each message a worker receives is passed on exactly as often as it must be (one shard for a document, every shard for a removal or forced update, proved by symbolic iteration count and index coverage). Completion side: on every path a worker raises exactly the completion counters the message calls for, once, after the work on that message's own data. Flush: on every exit path the matching counters were compared equal, completions read before requests, first for all work and, after the forced update, for the forced updates.",
		func(c *Ctx) {
			w := newWorkFlow(c)
			e := w.e
			bad := func(st *State, key string, at ssa.Instruction, format string, a ...any) {
				st.report("C24:"+key+":"+fnName(st.stack[0].fn), at, format, a...)
			}
			type want struct {
				counter string
				n       int // 1, 0, or -1: open on this path
				why     string
			}
			done := []string{"numDocsIndexed", "numDocsRemoved", "numRankersAdded", "numRankersRemoved", "numDocsStored", "numStoreRemoved", "numDocsForceUpdated"}
			w.message = func(st *State, r *flowEv, evs []*flowEv, ins ssa.Instruction) {
				if fnName(st.stack[0].fn) == "(*riot.Engine).Init" {
					return
				}
				site := fmt.Sprintf("%s until %s", fnName(r.at.Parent()), e.pos(insPos(ins)))
				ok := true
				fail := func(key string, at ssa.Instruction, format string, a ...any) {
					ok = false
					bad(st, key, at, format, a...)
				}
				if at := w.async(st, evs); at != nil {
					fail("async", at, "a request is carried out by another goroutine: it may be counted as completed before it is")
				}
				role := w.roleOf(r.ch)
				workAt := func(name string) (int, *flowEv) {
					at, n := -1, (*flowEv)(nil)
					for i, ev := range evs {
						if ev.kind == "call" && ev.name == name {
							if n != nil {
								fail("twice", ev.at, "%s is done twice for one request", name)
							}
							at, n = i, ev
						}
						if ev.kind == "loop" {
							for _, it := range w.recs(st, ev) {
								for _, x := range it.evs {
									if x.kind == "call" && x.name == name {
										fail("twice", x.at, "%s is done in a loop for one request", name)
									}
								}
							}
						}
					}
					return at, n
				}
				own := func(t *Term) bool { return t != nil && contains(t, r.val) }
				complete := func(at int, ws ...want) {
					exp := map[string]int{}
					for _, x := range ws {
						exp[x.counter] = x.n
					}
					for _, k := range done {
						n, first, b := w.countAdds(st, evs, k)
						if b {
							fail("amount", ins, "%s is not raised by exactly one per request", k)
							continue
						}
						x, known := exp[k]
						switch {
						case known && x < 0:
							fail("open", ins, "%s: the worker does not tell apart whether the request calls for it", k)
						case n != x:
							fail("completion", ins, "%s is raised %d times for a request that calls for %d", k, n, x)
						case n > 0 && first < at:
							fail("early", evs[first].at, "%s is raised before the work is done", k)
						}
					}
				}
				switch role {
				case addDoc:
					at, call := workAt(addDoc)
					if call == nil {
						fail("dropped", ins, "a request to index is received but not carried out on this path")
						break
					}
					if !own(call.args[1]) || !own(call.args[2]) {
						fail("data", call.at, "the index is given something else than the document of the request")
					}
					doc := st.isNilTerm(call.args[1])
					if doc >= 0 {
						doc = 1 - doc
					}
					complete(at, want{"numDocsIndexed", doc, ""}, want{"numDocsForceUpdated", st.truth(call.args[2]), ""})
				case delDoc:
					at, call := workAt(delDoc)
					if call == nil {
						fail("dropped", ins, "a request to remove is received but not carried out on this path")
						break
					}
					if !own(call.args[1]) || !own(call.args[2]) {
						fail("data", call.at, "the index is told to remove something else than the document of the request")
					}
					id := reserved(st, call.args[1])
					if id >= 0 {
						id = 1 - id
					}
					complete(at, want{"numDocsRemoved", id, ""}, want{"numDocsForceUpdated", st.truth(call.args[2]), ""})
				case addRank, delRank:
					k := map[string]string{addRank: "numRankersAdded", delRank: "numRankersRemoved"}[role]
					at, call := workAt(role)
					if call == nil {
						fail("dropped", ins, "a request is received but not carried out on this path")
						break
					}
					if !own(call.args[1]) {
						fail("data", call.at, "the ranker is given something else than the document of the request")
					}
					complete(at, want{k, 1, ""})
				case "store":
					sa, set := workAt(storeWrite)
					da, del := workAt(storeErase)
					rm := msgField(r.val, isBoolType)
					switch {
					case set != nil && del != nil:
						fail("both", set.at, "one request both stores and deletes")
					case del != nil:
						if rm != nil && !st.knownTrue(rm) {
							fail("data", del.at, "a stored document is deleted though the request does not ask for it")
						}
						complete(da, want{"numStoreRemoved", 1, ""})
					case set != nil:
						if rm != nil && !st.knownFalse(rm) {
							fail("data", set.at, "a document is stored though the request asks for its removal")
						}
						complete(sa, want{"numDocsStored", 1, ""})
					default:
						// only if the document could not be encoded
						enc := false
						for _, ev := range evs {
							if ev.kind == "call" && strings.HasSuffix(ev.name, ".Encode") && ev.val != nil && st.isNilTerm(ev.val) == 0 {
								enc = true
							}
						}
						if !enc || rm != nil && !st.knownFalse(rm) {
							fail("dropped", ins, "a request to the store is received but not carried out on this path")
						}
						complete(-1, want{"numDocsStored", 1, ""})
					}
				default:
					id, force := msgField(r.val, isStringType), msgField(r.val, isBoolType)
					if id == nil || force == nil || namedFieldOf(r.val.typ, "types.DocData") < 0 {
						return // a queue of another kind
					}
					// the segmenters
					st.split([]*Term{force, mkEq(id, mkStr("0"))}, func(s *State) {
						c.segmented(w, s, r, evs, ins, fail)
					})
				}
				c.ob("request-completed-once", site, ok)
			}
			w.request = func(st *State, fn *ssa.Function, evs []*flowEv, ins ssa.Instruction) {
				if fnName(fn) == "(*riot.Engine).Flush" {
					c.flushed(w, st, evs, ins)
				}
				if fn.Parent() != nil || !isExported(fn) && !strings.Contains(fn.Name(), "storeInit") {
					return
				}
				c.accepted(w, st, fn, evs, ins)
			}
			roots := c.goRoots("riot")
			have := map[*ssa.Function]bool{}
			for _, f := range roots {
				have[f] = true
			}
			comm := communicates(c)
			phase := initPhase(c)
			for _, f := range c.P.methodsOf("riot", "Engine") {
				if isExported(f) && comm(f) && !have[f] && !phase[f] && !isSearch(f) && f.Name() != "FlushIndex" && f.Name() != "Close" {
					roots = append(roots, f)
				}
			}
			w.run(roots, nil)
			c.need("request-completed-once", 2)
			c.need("request-accepted", 1)
			c.need("flush-waits", 2)
		}, "counters do not wrap around", "the number of shards is positive (C22) and the per-shard lists have one element per shard (C27)")
}

func isSearch(f *ssa.Function) bool {
	for i := 0; i < f.Signature.Params().Len(); i++ {
		if namedIs(f.Signature.Params().At(i).Type(), "types.SearchReq") {
			return true
		}
	}
	return false
}

func namedFieldOf(t types.Type, name string) int {
	s := structOf(t)
	for i := 0; s != nil && i < s.NumFields(); i++ {
		if namedIs(s.Field(i).Type(), name) {
			return i
		}
	}
	return -1
}

// segmented: a document has gone through a segmenter.
func (c *Ctx) segmented(w *workFlow, st *State, r *flowEv, evs []*flowEv, ins ssa.Instruction, fail func(string, ssa.Instruction, string, ...any)) {
	n := st.engineOpt(c, st.stack[0].args[0], "NumShards")
	id := msgField(r.val, isStringType)
	force := msgField(r.val, isBoolType)
	if n == nil || id == nil || force == nil {
		return
	}
	res := reserved(st, id)
	evs = w.unrolled(st, evs, n)
	direct := w.sendsTo(evs, addDoc)
	fans := w.fanouts(st, evs, addDoc, n)
	ranks := w.sendsTo(evs, addRank)
	if len(w.fanouts(st, evs, addRank, n)) > 0 {
		fail("ranked", ins, "a document is handed to the rankers in a loop")
	}
	if res < 0 {
		fail("open", ins, "the segmenter does not tell the reserved document id apart on this path")
		return
	}
	docs := 0
	forced := []*Term{} // shards told directly to update
	for _, s := range direct {
		_, i := shardElem(s.ch)
		d := msgField(s.val, isDocPtr)
		f := msgField(s.val, isBoolType)
		if st.isNilTerm(d) != 1 {
			docs++
			if st.isNilTerm(d) < 0 {
				fail("doc", s.at, "it is open whether a document is sent to the index")
			}
		}
		switch tr := st.truth(f); {
		case f == force || tr == 1 && st.knownTrue(force):
			forced = append(forced, i)
		case tr == 0:
		case tr == 1:
			fail("force", s.at, "a forced update is sent that nobody asked for")
		default:
			fail("force", s.at, "it is open whether a forced update is sent")
		}
	}
	all, except := 0, (*Term)(nil)
	for _, fo := range fans {
		for _, s := range fo.sends {
			if st.isNilTerm(msgField(s.val, isDocPtr)) != 1 {
				fail("doc", s.at, "a document is sent to more than one shard")
			}
			f := msgField(s.val, isBoolType)
			if f != force && st.truth(f) != 1 {
				fail("force", s.at, "a message without document and without forced update is sent to the shards")
			}
		}
		if !fo.ok {
			fail("fanout", fo.sends[0].at, "the forced update does not go to every shard exactly once")
		}
		all++
		except = fo.except
	}
	wantDoc := 1 - res
	if docs != wantDoc {
		fail("doc", ins, "a document accepted for indexing is sent to the index %d times on this path", docs)
	}
	if len(ranks) != wantDoc {
		fail("rank", ins, "a document accepted for indexing is sent to the rankers %d times on this path", len(ranks))
	}
	for _, s := range ranks {
		f := msgField(s.val, isStringType)
		if rid := stringFields(s.val); len(rid) > 0 {
			f = nil
			for _, x := range rid {
				if x == id {
					f = x
				}
			}
		}
		if f != id {
			fail("rank", s.at, "the rankers are given another document id than the request's")
		}
	}
	switch st.truth(force) {
	case 1:
		switch {
		case all == 1 && except == nil && len(forced) == 0:
		case all == 1 && except != nil && len(forced) == 1 && st.same(forced[0], except):
		default:
			fail("fanout", ins, "a forced update does not reach every shard exactly once on this path")
		}
	case 0:
		if all != 0 {
			fail("fanout", ins, "a forced update is sent that nobody asked for")
		}
	default:
		fail("open", ins, "the segmenter does not tell apart whether an update is forced")
	}
}

func stringFields(v *Term) []*Term {
	s := structOf(v.typ)
	var out []*Term
	for i := 0; s != nil && i < s.NumFields(); i++ {
		if isStringType(s.Field(i).Type()) {
			out = append(out, mkField(v, v.typ, i))
		}
	}
	return out
}

// accepted: an entry point returns; what it queued must match what it counted.
func (c *Ctx) accepted(w *workFlow, st *State, fn *ssa.Function, evs []*flowEv, ins ssa.Instruction) {
	n := st.engineOpt(c, st.stack[0].args[0], "NumShards")
	if n == nil {
		return
	}
	conds := []*Term{st.engineOpt(c, st.stack[0].args[0], "UseStore")}
	w.requests(st, evs, func(v *Term) {
		if id := msgField(v, isStringType); id != nil {
			conds = append(conds, mkEq(id, mkStr("0")))
		}
		if f := msgField(v, isBoolType); f != nil {
			conds = append(conds, f)
		}
	})
	st.split(conds, func(s *State) { c.acceptedCase(w, s, fn, n, evs, ins) })
}

// requests: the messages sent to the segmenters and removers.
func (w *workFlow) requests(st *State, evs []*flowEv, do func(v *Term)) {
	for _, ev := range evs {
		switch ev.kind {
		case "send":
			if r := w.roleOf(ev.ch); ev.val != nil && (r == delDoc || r == "" && namedFieldOf(ev.val.typ, "types.DocData") >= 0) {
				do(ev.val)
			}
		case "loop":
			for _, it := range w.recs(st, ev) {
				w.requests(it.st, it.evs, do)
			}
		}
	}
}

func (c *Ctx) acceptedCase(w *workFlow, st *State, fn *ssa.Function, n *Term, evs []*flowEv, ins ssa.Instruction) {
	ok := true
	fail := func(key string, at ssa.Instruction, format string, a ...any) {
		ok = false
		st.report("C24:"+key+":"+fnName(fn), at, format, a...)
	}
	docs, forces, removals := 0, 0, 0
	firstSend := len(evs)
	seen := false
	open := false
	add := func(k *int, tr int, at ssa.Instruction, what string) {
		if tr < 0 {
			open = true
			fail("open", at, "%s: it is open on this path whether the request counts", what)
		}
		if tr > 0 {
			*k++
		}
	}
	for i, ev := range evs {
		if ev.kind == "send" && ev.val != nil && namedFieldOf(ev.val.typ, "types.DocData") >= 0 && w.roleOf(ev.ch) == "" && chanName(ev.ch) != "" {
			// to the segmenters
			seen = true
			if i < firstSend {
				firstSend = i
			}
			id := msgField(ev.val, isStringType)
			res := reserved(st, id)
			if res >= 0 {
				res = 1 - res
			}
			add(&docs, res, ev.at, "document")
			add(&forces, st.truth(msgField(ev.val, isBoolType)), ev.at, "forced update")
		}
	}
	fans := w.fanouts(st, evs, delDoc, n)
	for _, fo := range fans {
		seen = true
		if !fo.ok || fo.except != nil {
			fail("fanout", fo.sends[0].at, "a removal does not go to every shard exactly once")
		}
		s := fo.sends[0]
		for i, ev := range evs {
			if ev == fo.ev && i < firstSend {
				firstSend = i
			}
		}
		id := msgField(s.val, isStringType)
		f := msgField(s.val, isBoolType)
		for _, x := range fo.sends {
			if msgField(x.val, isStringType) != id || msgField(x.val, isBoolType) != f {
				fail("fanout", x.at, "the shards are told to remove different things")
			}
		}
		res := reserved(st, id)
		if res >= 0 {
			res = 1 - res
		}
		before := removals
		add(&removals, res, s.at, "removal")
		add(&forces, st.truth(f), s.at, "forced update")
		rank := 0
		for _, g := range w.fanouts(st, evs, delRank, n) {
			if !g.ok || g.except != nil {
				fail("fanout", g.sends[0].at, "a removal does not reach the ranker of every shard exactly once")
			}
			for _, x := range g.sends {
				if msgField(x.val, isStringType) != id {
					fail("data", x.at, "the rankers are told to remove another document than the index")
				}
			}
			rank++
		}
		if rank != removals-before {
			fail("fanout", s.at, "%d removals are sent to the rankers of all shards where %d are due", rank, removals-before)
		}
	}
	if d := w.sendsTo(evs, delDoc); len(d) > 0 {
		fail("fanout", d[0].at, "a removal is sent to a single shard")
	}
	if d := w.sendsTo(evs, delRank); len(d) > 0 || len(fans) == 0 && len(w.fanouts(st, evs, delRank, n)) > 0 {
		fail("fanout", ins, "a removal is sent to the rankers without the index")
	}
	// storage
	use := st.truth(st.engineOpt(c, st.stack[0].args[0], "UseStore"))
	saves, erases := 0, 0
	for _, s := range w.sendsTo(evs, "store") {
		seen = true
		rm := msgField(s.val, isBoolType)
		switch st.truth(rm) {
		case 1:
			erases++
		case 0:
			saves++
		default:
			fail("open", s.at, "it is open whether the store is told to save or to delete")
		}
	}
	for _, g := range w.fanouts(st, evs, "store", n) {
		fail("store", g.sends[0].at, "storage requests are sent in a loop")
	}
	if fnName(fn) == "(*riot.Engine).Flush" && (docs > 0 || removals > 0 || saves > 0 || erases > 0) {
		fail("flush", ins, "Flush indexes, removes or stores a document of its own")
	}
	if seen {
		if at := w.async(st, evs); at != nil {
			fail("async", at, "a request is queued by another goroutine, it may not be counted when the call returns")
		}
	}
	if seen && isExported(fn) && fnName(fn) != "(*riot.Engine).Flush" {
		if use < 0 && (docs > 0 || removals > 0) {
			fail("open", ins, "it is open on this path whether persistence is on")
		}
		wd, we := 0, 0
		if use == 1 {
			wd, we = docs, removals
		}
		if saves != wd || erases != we {
			fail("store", ins, "the store is sent %d documents and %d removals where %d and %d are due", saves, erases, wd, we)
		}
	}
	if !open {
		for _, x := range []struct {
			k string
			n int
		}{{"numIndexingReqs", docs}, {"numForceUpdatingReqs", forces}, {"numRemovingReqs", removals}} {
			got, first, b := w.countAdds(st, evs, x.k)
			switch {
			case b:
				fail("amount", ins, "%s is not raised by exactly one per request", x.k)
			case got != x.n:
				fail("counted", ins, "%s is raised %d times on a path that queues %d such requests", x.k, got, x.n)
			case got > 0 && first > firstSend:
				fail("late", evs[first].at, "%s is raised only after the request was queued", x.k)
			}
		}
	}
	if seen {
		c.ob("request-accepted", fnName(fn)+" until "+w.e.pos(insPos(ins)), ok)
	}
}

// flushed: Flush returns.
func (c *Ctx) flushed(w *workFlow, st *State, evs []*flowEv, ins ssa.Instruction) {
	eng := st.stack[0].args[0]
	n := st.engineOpt(c, eng, "NumShards")
	use := st.truth(st.engineOpt(c, eng, "UseStore"))
	fail := func(key string, at ssa.Instruction, format string, a ...any) {
		st.report("C24:flush:"+key, at, format, a...)
	}
	cut := -1
	for i, ev := range evs {
		if ev.kind == "atomic" && ev.name == "numForceUpdatingReqs:Add" && cut < 0 {
			cut = i
		}
	}
	if cut < 0 {
		fail("force", ins, "Flush returns without a forced update")
		c.ob("flush-waits", "forced update", false)
		return
	}
	last := func(evs []*flowEv) []*flowEv {
		s := 0
		for i, ev := range evs {
			if ev.kind == "loop" {
				s = i + 1
			}
		}
		return evs[s:]
	}
	pre, post := last(evs[:cut]), last(evs[cut+1:])
	type pair struct {
		seg       []*flowEv
		req, done string
		perShard  bool
		store     bool
	}
	for _, p := range []pair{
		{pre, "numIndexingReqs", "numDocsIndexed", false, false},
		{pre, "numRemovingReqs", "numDocsRemoved", true, false},
		{pre, "numIndexingReqs", "numRankersAdded", false, false},
		{pre, "numRemovingReqs", "numRankersRemoved", true, false},
		{pre, "numIndexingReqs", "numDocsStored", false, true},
		{pre, "numRemovingReqs", "numStoreRemoved", false, true},
		{post, "numForceUpdatingReqs", "numDocsForceUpdated", true, false},
	} {
		if p.store && use == 0 {
			continue
		}
		compared, ordered := false, false
		for i, d := range p.seg {
			if d.kind != "load" || d.name != p.done {
				continue
			}
			for j, r := range p.seg {
				if r.kind != "load" || r.name != p.req {
					continue
				}
				if st.matched(r.val, d.val, n, p.perShard) {
					compared = true
					ordered = ordered || i < j
				}
			}
		}
		site := p.done + " of " + p.req + ", until " + w.e.pos(insPos(ins))
		c.ob("flush-waits", site, compared && ordered)
		switch {
		case !compared:
			fail("pair:"+p.done, ins, "Flush may return before %s has reached %s", p.done, p.req)
		case !ordered:
			fail("order:"+p.done, ins, "Flush reads %s before %s: the completion of a later request may stand in for an earlier one", p.req, p.done)
		}
	}
}

// matched: on this path req (times the number of shards) was found equal to
// (or not above) done.
func (st *State) matched(req, done, n *Term, perShard bool) bool {
	isReq := func(t *Term) bool {
		if !perShard {
			return t == req
		}
		if t.op != OpMul || len(t.args) != 2 {
			return false
		}
		for i := 0; i < 2; i++ {
			o := t.args[1-i]
			for o.op == OpConvert {
				o = o.args[0]
			}
			if t.args[i] == req && (o == n || st.proveEqInt(o, n)) {
				return true
			}
		}
		return false
	}
	for t, v := range st.facts {
		switch {
		case t.op == OpEq && v:
			if t.args[0] == done && isReq(t.args[1]) || t.args[1] == done && isReq(t.args[0]) {
				return true
			}
		case t.op == OpLt && !v: // !(done < req)
			if t.args[0] == done && isReq(t.args[1]) {
				return true
			}
		}
	}
	return false
}
