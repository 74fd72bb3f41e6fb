package main

import (
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// sameValue: t is the value v (of a struct type, field by field).
func (st *State) sameValue(t, v *Term, typ types.Type) bool {
	t = unwrapIface(t)
	if t == nil || v == nil {
		return false
	}
	if t == v || st.same(t, v) {
		return true
	}
	s := structOf(typ)
	if _, isPtr := typ.Underlying().(*types.Pointer); isPtr || s == nil {
		return false
	}
	if t.op != OpStruct || len(t.args) != s.NumFields() {
		return t == v
	}
	for i, a := range t.args {
		f := mkField(v, typ, i)
		if v.op == OpStruct && len(v.args) == len(t.args) {
			f = v.args[i]
		}
		if a != f && !st.sameValue(a, f, s.Field(i).Type()) {
			return false
		}
	}
	return true
}

// serialises: the function itself encodes, decodes or logs.
func serialises(g *ssa.Function) bool {
	return g.Pkg != nil && (g.Pkg.Pkg.Path() == "encoding/gob" || g.Pkg.Pkg.Path() == "log")
}

func errOf(ev *flowEv) *Term {
	v := ev.val
	if v == nil {
		return nil
	}
	if v.op == OpTuple {
		v = v.args[len(v.args)-1]
	}
	return v
}

func isLog(ev *flowEv) bool {
	return ev.kind == "call" && (strings.HasPrefix(ev.name, "log.") || strings.HasPrefix(ev.name, "(*log."))
}

// reported: an error that may have occurred was written to the log.
func (st *State) reported(evs []*flowEv, i int) bool {
	e := errOf(evs[i])
	if e == nil || st.isNilTerm(e) == 1 {
		return true
	}
	for _, ev := range evs[i+1:] {
		if isLog(ev) {
			return true
		}
	}
	return false
}

func dataField(v *Term) *Term {
	if v == nil || v.typ == nil {
		return nil
	}
	i := namedFieldOf(v.typ, "types.DocData")
	if i < 0 {
		return nil
	}
	return mkField(v, v.typ, i)
}

func init() {
	register("C28", "Dataflow and ordering analysis of persistence. Saving: an accepted document goes to the store queue with the same id and the same data, field by field, as it goes to the index; the worker serialises exactly that message's data into a buffer of its own (allocated or reset after the message was taken) and stores the buffer's content under the message's id; removals travel through the same queue and delete exactly the message's id; both are done by the worker itself, not by another goroutine. Recovery: every record's value is decoded into a fresh document and, if that succeeded, handed to the indexing path once, with the record's key as id and every field of the decoded document; a bad record does not end the scan; start-up waits for the scan of every shard before the databases are closed and counts the recovered documents as stored. Errors: every error of a database operation or of (de)serialisation is found nil or written to the log. Closing: Flush comes first, then every database is closed.",
		func(c *Ctx) {
			w := newWorkFlow(c)
			e := w.e
			w.closures = true
			opq := e.Opaque
			e.Opaque = func(g *ssa.Function) bool { return opq(g) && (coreWork(g) || !reaches(g, serialises)) }
			keep := w.keep
			w.keep = func(n string) bool {
				return keep(n) || strings.HasPrefix(n, "(*bytes.Buffer).") || strings.HasPrefix(n, "bytes.NewBuffer") || strings.HasPrefix(n, "encoding/gob.New")
			}
			w.keepAlloc = func(t types.Type) bool {
				n := structTypeName(t)
				return n == "bytes.Buffer" || n == "types.DocData"
			}
			bad := func(st *State, key string, at ssa.Instruction, format string, a ...any) {
				st.report("C28:"+key+":"+fnName(st.stack[0].fn), at, format, a...)
			}
			errors := func(st *State, evs []*flowEv) {
				for i, ev := range evs {
					if ev.kind != "call" {
						continue
					}
					switch ev.name {
					case "store.Set", "store.Delete", "store.ForEach", "store.Close", "(*encoding/gob.Encoder).Encode", "(*encoding/gob.Decoder).Decode":
					default:
						continue
					}
					ok := st.reported(evs, i)
					c.ob("error-reported", fnName(st.stack[0].fn)+": "+ev.name, ok)
					if !ok {
						bad(st, "error", ev.at, "an error of %s may go unnoticed: it is neither found nil nor written to the log", ev.name)
					}
				}
			}
			w.message = func(st *State, r *flowEv, evs []*flowEv, ins ssa.Instruction) {
				if w.roleOf(r.ch) != "store" {
					return
				}
				id, data := msgField(r.val, isStringType), dataField(r.val)
				if at := w.async(st, evs); at != nil {
					bad(st, "async", at, "storage work is handed to another goroutine: the order of operations on a document is lost")
				}
				errors(st, evs)
				for i, ev := range evs {
					if ev.kind != "call" {
						continue
					}
					switch ev.name {
					case storeErase:
						ok := id != nil && len(ev.args) > 1 && bareOf(ev.args[1]) == id
						c.ob("stored-removal", "deletes the message's id", ok)
						if !ok {
							bad(st, "key", ev.at, "the record deleted is not the one of the message's document id")
						}
					case storeWrite:
						ok := true
						if id == nil || len(ev.args) < 3 || bareOf(ev.args[1]) != id {
							ok = false
							bad(st, "key", ev.at, "the document is not stored under its own id")
						}
						if !w.serialised(st, evs[:i], ev.args[2], data, func(format string, a ...any) { bad(st, "value", ev.at, format, a...) }) {
							ok = false
						}
						c.ob("stored-document", "key and value", ok)
					}
				}
			}
			w.request = func(st *State, fn *ssa.Function, evs []*flowEv, ins ssa.Instruction) {
				scan := -1
				for i, ev := range evs {
					if ev.kind == "call" && ev.name == "store.ForEach" {
						scan = i
					}
				}
				if isExported(fn) {
					c.queued(w, st, fn, evs, ins)
					return
				}
				if scan >= 0 {
					errors(st, evs)
					c.recovered(w, st, fn, evs, scan, ins)
				}
			}
			roots := c.goRoots("riot")
			have := map[*ssa.Function]bool{}
			for _, f := range roots {
				have[f] = true
			}
			comm := communicates(c)
			phase := initPhase(c)
			for _, f := range c.P.methodsOf("riot", "Engine") {
				if isExported(f) && comm(f) && !have[f] && !phase[f] && !isSearch(f) && f.Name() != "FlushIndex" && f.Name() != "Close" && f.Name() != "Flush" {
					roots = append(roots, f)
				}
			}
			w.run(roots, nil)
			// closing
			cl := newFlow(c, nil)
			op := e.Opaque
			cl.e.Opaque = func(g *ssa.Function) bool { return op(g) || g.Name() == "Flush" }
			cl.keep = func(n string) bool { return w.keep(n) || n == "(*riot.Engine).Flush" }
			cl.onIter = func(st *State, key string, it *flowIter, ins ssa.Instruction) { errors(st, it.evs) }
			cl.onReturn = func(st *State, fn *ssa.Function, res []*Term, evs []*flowEv, ins ssa.Instruction) {
				c.closed(cl, st, evs, ins)
			}
			if f := c.mustFn("(*riot.Engine).Close"); f != nil {
				cl.run([]*ssa.Function{f}, nil)
			}
			c.recoveryAwaited()
			c.need("stored-document", 1)
			c.need("stored-removal", 1)
			c.need("queued", 1)
			c.need("recovered", 1)
			c.need("error-reported", 1)
			c.need("closed", 1)
			c.need("recovery-awaited", 1)
		}, "encoding/gob decodes what it encoded", "the database keeps what it was given (C13-C19)", "store queues are first in, first out and have one worker per shard (C27)")
}

// serialised: value is the content of a buffer that holds exactly the encoding of data.
func (w *workFlow) serialised(st *State, evs []*flowEv, value, data *Term, fail func(string, ...any)) bool {
	var buf *Term
	for _, ev := range evs {
		if ev.kind == "call" && ev.val != nil && ev.val == value && ev.name == "(*bytes.Buffer).Bytes" {
			buf = ev.args[0]
		}
	}
	if buf == nil {
		fail("the value stored is not the content of a serialisation buffer")
		return false
	}
	var enc *Term
	fresh, encoded := false, 0
	for _, ev := range evs {
		switch {
		case ev.kind == "alloc" && ev.val == buf:
			fresh = true
		case ev.kind != "call":
		case strings.HasPrefix(ev.name, "bytes.NewBuffer") && ev.val == buf:
			fresh = len(ev.args) > 0 && (ev.args[0].isNil() || st.proveLe(mkLen(ev.args[0]), mkInt(0)))
		case strings.HasPrefix(ev.name, "(*bytes.Buffer).") && len(ev.args) > 0 && ev.args[0] == buf:
			switch strings.TrimPrefix(ev.name, "(*bytes.Buffer).") {
			case "Reset":
				fresh, encoded = true, 0
			case "Bytes", "Len", "Cap", "String", "Grow":
			default:
				fail("the serialisation buffer is changed otherwise")
				return false
			}
		case ev.name == "encoding/gob.NewEncoder" && len(ev.args) > 0 && unwrapIface(ev.args[0]) == buf:
			if enc != nil {
				fail("two encoders write into the buffer")
				return false
			}
			enc = ev.val
		case ev.name == "(*encoding/gob.Encoder).Encode" && len(ev.args) > 1 && ev.args[0] == enc:
			encoded++
			v := ev.args[1]
			if len(ev.objs) > 1 && ev.objs[1] != nil {
				v = ev.objs[1]
			}
			if !st.sameValue(v, data, data.typ) {
				fail("what is stored is not exactly the data of the request")
				return false
			}
			if st.isNilTerm(errOf(ev)) != 1 {
				fail("a document is stored though its serialisation may have failed")
				return false
			}
		}
	}
	switch {
	case !fresh:
		fail("the serialisation buffer may still hold an earlier document")
	case enc == nil:
		fail("the document is written by an encoder that outlives the request")
	case encoded != 1:
		fail("the document is serialised %d times", encoded)
	default:
		return true
	}
	return false
}

// queued: what an entry point sends to storage is what it sends to the index.
func (c *Ctx) queued(w *workFlow, st *State, fn *ssa.Function, evs []*flowEv, ins ssa.Instruction) {
	n := st.engineOpt(c, st.stack[0].args[0], "NumShards")
	for _, s := range w.sendsTo(evs, "store") {
		ok := true
		fail := func(key, format string, a ...any) {
			ok = false
			st.report("C28:"+key+":"+fnName(fn), s.at, format, a...)
		}
		if at := w.async(st, evs); at != nil {
			fail("queue-async", "a storage request is queued by another goroutine: the caller's order is lost")
		}
		id := msgField(s.val, isStringType)
		matched := false
		if st.truth(msgField(s.val, isBoolType)) == 1 {
			for _, fo := range w.fanouts(st, evs, delDoc, n) {
				if len(fo.sends) > 0 && msgField(fo.sends[0].val, isStringType) == id {
					matched = true
				}
			}
			if !matched {
				fail("queue-remove", "storage is told to delete another document than the index")
			}
		} else {
			for _, ev := range evs {
				if ev.kind != "send" || ev == s || ev.val == nil || w.roleOf(ev.ch) != "" {
					continue
				}
				d := dataField(ev.val)
				if d == nil {
					continue
				}
				matched = true
				if msgField(ev.val, isStringType) != id {
					fail("queue-id", "storage is given another document id than the index")
				}
				if !st.sameValue(dataField(s.val), d, d.typ) {
					fail("queue-data", "storage is given other data than the index")
				}
			}
			if !matched {
				fail("queue-save", "storage is told to save a document that is not indexed")
			}
		}
		c.ob("queued", fnName(fn)+" until "+w.e.pos(insPos(ins)), ok)
	}
}

// recovered: the scan of one database has ended.
func (c *Ctx) recovered(w *workFlow, st *State, fn *ssa.Function, evs []*flowEv, scan int, ins ssa.Instruction) {
	ok := true
	fail := func(key string, at ssa.Instruction, format string, a ...any) {
		ok = false
		st.report("C28:recovery-"+key+":"+fnName(fn), at, format, a...)
	}
	_, idx := shardElem(evs[scan].args[0])
	mine := false
	for _, p := range st.stack[0].args {
		if idx != nil && bareOf(idx) == p {
			mine = true
		}
	}
	if !mine {
		fail("shard", evs[scan].at, "the recovery of one shard scans another shard's database")
	}
	var rec *flowEv
	var dec *flowEv
	var doc, reader *Term
	fresh := false
	sent := 0
	for i, ev := range evs {
		switch {
		case ev.kind == "enter" && i < scan && len(ev.args) >= 2 && isByteSlice(ev.args[len(ev.args)-1].typ):
			rec, dec, doc, reader, fresh, sent = ev, nil, nil, nil, false, 0
		case rec == nil:
		case ev.kind == "alloc" && namedIs(ev.val.typ, "types.DocData"):
			doc = ev.val
			if dec == nil {
				fresh = true
			}
		case ev.kind == "call" && ev.name == "encoding/gob.NewDecoder":
			reader = unwrapIface(ev.args[0])
		case ev.kind == "call" && ev.name == "(*encoding/gob.Decoder).Decode":
			if dec != nil {
				fail("decode", ev.at, "a record is decoded twice")
			}
			dec = ev
			d := unwrapIface(ev.args[1])
			k, v := rec.args[len(rec.args)-2], rec.args[len(rec.args)-1]
			_ = k
			if reader == nil || reader.op != OpCall || !strings.HasPrefix(reader.aux, "bytes.New") || len(reader.args) == 0 || reader.args[0] != v {
				fail("decode", ev.at, "what is decoded is not the value of the record")
			}
			found := false
			for _, x := range evs[:i] {
				if x.kind == "alloc" && x.val == d {
					found = false
					for _, y := range evs[:i] {
						if y == rec {
							found = true
						}
						if y == x {
							break
						}
					}
				}
			}
			if !found {
				fail("stale", ev.at, "records are decoded into a document that is not fresh: fields of an earlier one remain")
			}
			doc = d
		case ev.kind == "send" && dataField(ev.val) != nil && w.roleOf(ev.ch) == "":
			sent++
			k := rec.args[len(rec.args)-2]
			if bareOf(msgField(ev.val, isStringType)) != k {
				fail("id", ev.at, "a stored document is not recovered under its own id")
			}
			d := dataField(ev.val)
			if doc == nil || !fromObject(st, d, doc) {
				fail("data", ev.at, "a stored document is not recovered with all of its data")
			}
			if dec == nil || st.isNilTerm(errOf(dec)) != 1 {
				fail("failed", ev.at, "a record is indexed though decoding it may have failed")
			}
		case ev.kind == "exit" && ev.name == rec.name:
			if len(ev.args) != 1 || !ev.args[0].isNil() {
				if len(ev.args) != 1 || st.isNilTerm(ev.args[0]) != 1 {
					fail("stop", ev.at, "one bad record ends the recovery")
				}
			}
			if dec == nil {
				fail("decode", ev.at, "a record is passed over")
			} else if st.isNilTerm(errOf(dec)) == 1 && sent != 1 {
				fail("lost", ev.at, "a stored document is indexed %d times during recovery", sent)
			}
			rec = nil
		}
	}
	_ = fresh
	if at := w.async(st, evs); at != nil {
		fail("async", at, "recovery is handed to another goroutine: its end is reported too early")
	}
	// the end of the scan is reported once
	n := 0
	for i, ev := range evs {
		if ev.kind == "send" && chanName(ev.ch) != "" && dataField(ev.val) == nil {
			n++
			if i < scan {
				fail("early", ev.at, "the end of the recovery is reported before the scan")
			}
		}
	}
	if n != 1 {
		fail("signal", ins, "the end of the recovery is reported %d times", n)
	}
	c.ob("recovered", fnName(fn)+" until "+w.e.pos(insPos(ins)), ok)
}

// fromObject: the value is the content of the object, field by field.
func fromObject(st *State, v, obj *Term) bool {
	v = unwrapIface(v)
	if v == nil {
		return false
	}
	if v.op == OpLoad && v.args[0] == obj {
		return true
	}
	t := obj.typ.Underlying().(*types.Pointer).Elem()
	s := structOf(t)
	if s == nil || v.op != OpStruct || len(v.args) != s.NumFields() {
		return false
	}
	for i, a := range v.args {
		want := st.load(mkFieldAddr(obj, t, i), s.Field(i).Type())
		if a != want && !(a.op == OpLoad && a.args[0] == mkFieldAddr(obj, t, i)) {
			return false
		}
		if a.op == OpConst || a.op == OpZero {
			return false // overwritten
		}
	}
	return true
}

// closed: Close returns.
func (c *Ctx) closed(f *flow, st *State, evs []*flowEv, ins ssa.Instruction) {
	eng := st.stack[0].args[0]
	fail := func(key, format string, a ...any) { st.report("C28:close:"+key, ins, format, a...) }
	flush, ok := -1, true
	for i, ev := range evs {
		if ev.kind == "call" && ev.name == "(*riot.Engine).Flush" && flush < 0 {
			flush = i
		}
	}
	if flush < 0 {
		ok = false
		fail("flush", "Close does not wait for queued work")
	}
	use := st.engineOpt(c, eng, "UseStore")
	st.split([]*Term{use}, func(st *State) {
		if !st.knownTrue(use) {
			return
		}
		n := st.engineOpt(c, eng, "StoreShards")
		all := false
		for i, ev := range evs {
			if ev.kind != "loop" {
				continue
			}
			recs := f.recs(st, ev)
			k := 0
			var idx *Term
			same := true
			for _, it := range recs {
				m := 0
				for _, x := range it.evs {
					if x.kind == "call" && x.name == "store.Close" {
						m++
						_, j := shardElem(x.args[0])
						if j == nil || idx != nil && idx != j {
							same = false
						}
						idx = j
					}
				}
				if m == 1 {
					k++
				}
			}
			if k > 0 && i < flush {
				fail("early", "databases are closed before the queued work is done")
				ok = false
			}
			if k > 0 && k == len(recs) && same && idx != nil && f.coversAll(st, ev, recs, idx, n) {
				all = true
			}
		}
		if !all {
			ok = false
			fail("all", "Close does not close every database")
		}
	})
	c.ob("closed", "until "+f.e.pos(insPos(ins)), ok)
}

// recoveryAwaited: initialisation waits for the recovery of every shard.
func (c *Ctx) recoveryAwaited() {
	fn := c.mustFn("(*riot.Engine).Init")
	if fn == nil {
		return
	}
	f := newBuildFlow(c)
	f.onReturn = func(st *State, fn *ssa.Function, res []*Term, evs []*flowEv, ins ssa.Instruction) {
		eng := st.stack[0].args[0]
		use := st.engineOpt(c, eng, "UseStore")
		st.split([]*Term{use}, func(st *State) {
			if !st.knownTrue(use) {
				return
			}
			ok := true
			fail := func(key, format string, a ...any) {
				ok = false
				st.report("C28:init:"+key, ins, format, a...)
			}
			n := st.engineOpt(c, eng, "StoreShards")
			started, awaited, counted, closed := -1, -1, -1, -1
			for i, ev := range evs {
				switch ev.kind {
				case "atomic":
					if !strings.HasPrefix(ev.name, "numDocsStored:") {
						break
					}
					fine := ev.name == "numDocsStored:Add" && counted < 0 && awaited >= 0
					from := false
					for _, x := range evs[:i] {
						if x.kind == "load" && x.name == "numIndexingReqs" && len(ev.args) > 0 && x.val == ev.args[0] {
							from = true
						}
					}
					if !fine || !from {
						fail("count", "the recovered documents are not counted as stored exactly once: a flush would wait for them or miss others")
					}
					counted = i
				case "loop":
					recs := f.recs(st, ev)
					got, scans, shut := 0, false, false
					for _, it := range recs {
						k := 0
						for _, x := range it.evs {
							switch {
							case x.kind == "recv" && chanName(x.ch) != "" || x.kind == "recv" && x.ch != nil && x.ch.op == OpMake:
								k++
							case x.kind == "go" && c.scans(x.name):
								scans = true
							case x.kind == "call" && x.name == "store.Close":
								shut = true
							}
						}
						if k == 1 {
							got++
						}
					}
					if scans {
						started = i
					}
					if shut && closed < 0 {
						closed = i
					}
					if got > 0 && got == len(recs) {
						if cnt, _, _, _ := f.iterations(ev, recs); cnt != nil && st.proveEqInt(cnt, n) {
							awaited = i
						}
					}
				}
			}
			switch {
			case started < 0:
				fail("scan", "stored documents are not recovered at start-up")
			case awaited < started:
				fail("wait", "start-up does not wait for the recovery of every shard")
			case closed >= 0 && closed < awaited:
				fail("closed", "databases are closed while their recovery may be running")
			case counted < 0:
				fail("count", "the recovered documents are not counted as stored: a flush would never end")
			}
			c.ob("recovery-awaited", "until "+f.e.pos(insPos(ins)), ok)
		})
	}
	f.run([]*ssa.Function{fn}, nil)
}

// scans: the named function reads a whole database.
func (c *Ctx) scans(name string) bool {
	fn := c.P.fn(name)
	if fn == nil {
		return false
	}
	for _, ci := range callsIn(fn) {
		if cc := ci.Common(); cc.IsInvoke() && cc.Method.Name() == "ForEach" {
			return true
		}
	}
	return false
}
