package main

import (
	"fmt"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

const (
	fFreqs = "core.KeywordIndices.frequencies"
	fLocs  = "core.KeywordIndices.locations"
)

var postingFields = []string{fDocIds, fFreqs, fLocs}

func isPostingField(aux string) bool { return aux == fDocIds || aux == fFreqs || aux == fLocs }

// listOp is one structural operation on a posting list.
type listOp struct {
	kind string // grow, shift, set, move, cut, new, push, other
	a, b *Term
	val  *Term
}

func (o listOp) shape() string {
	s := o.kind
	if o.a != nil {
		s += "@" + itoa(o.a.id)
	}
	if o.b != nil {
		s += "," + itoa(o.b.id)
	}
	return s
}

// opLog records, per posting list (the KeywordIndices it belongs to) and
// field, the operations since the lists were last known to be parallel.
type opLog struct {
	ops     map[*Term]map[string][]listOp
	dropped map[*Term]bool // keyword-table entries deleted
}

func newOpLog() *opLog {
	return &opLog{ops: map[*Term]map[string][]listOp{}, dropped: map[*Term]bool{}}
}

func (l *opLog) Key() string {
	var parts []string
	for ti, m := range l.ops {
		for f, os := range m {
			s := itoa(ti.id) + f
			for _, o := range os {
				s += ";" + o.shape()
			}
			parts = append(parts, s)
		}
	}
	for t := range l.dropped {
		parts = append(parts, "x"+itoa(t.id))
	}
	if len(parts) > 1 {
		sortStrings(parts)
	}
	return strings.Join(parts, "|")
}

func (l *opLog) Clone() Client {
	n := newOpLog()
	for ti, m := range l.ops {
		mm := map[string][]listOp{}
		for f, os := range m {
			mm[f] = append([]listOp(nil), os...)
		}
		n.ops[ti] = mm
	}
	for t := range l.dropped {
		n.dropped[t] = true
	}
	return n
}

func (l *opLog) add(ti *Term, field string, o listOp) {
	if l.ops[ti] == nil {
		l.ops[ti] = map[string][]listOp{}
	}
	l.ops[ti][field] = append(l.ops[ti][field], o)
}

// postingList recognises a value of a posting-list field: the list's owner and field.
func postingList(t *Term) (ti *Term, field string, ok bool) {
	if t.op == OpLoad && t.args[0].op == OpFieldAddr && isPostingField(t.args[0].aux) {
		return t.args[0].args[0], t.args[0].aux, true
	}
	return nil, "", false
}

// postingPart: t is list[lo:hi] of a posting list (or the list itself), possibly grown by appends.
func postingPart(t *Term) (ti *Term, field string, lo, hi *Term, ok bool) {
	if ti, f, ok := postingList(t); ok {
		return ti, f, nil, nil, true
	}
	if t.op == OpSlice && t.args[0].op != OpAlloc {
		b := t.args[0]
		for b.op == OpAppend {
			b = b.args[0]
		}
		if ti, f, ok := postingList(b); ok {
			lo, hi := t.args[1], t.args[2]
			if hi == mkLen(t.args[0]) {
				hi = nil
			}
			if lo == mkInt(0) {
				lo = nil
			}
			return ti, f, lo, hi, true
		}
	}
	return nil, "", nil, nil, false
}

// oneElem: a slice literal of one element.
func oneElem(st *State, t *Term) (*Term, bool) {
	if t.op == OpSlice && t.args[0].op == OpAlloc {
		if at, ok := ptrElem(t.args[0].typ).Underlying().(*types.Array); ok && at.Len() == 1 {
			return st.load(mkIndexAddr(t.args[0], mkInt(0), at.Elem()), at.Elem()), true
		}
	}
	if t.op == OpAppend && len(t.args) == 2 && st.proveLe(mkLen(t.args[0]), mkInt(0)) {
		return t.args[1], true
	}
	return nil, false
}

// normalise folds the idioms of an insertion into one operation.
func normalise(os []listOp) []listOp {
	var out []listOp
	for i := 0; i < len(os); i++ {
		if os[i].kind == "grow" && i+2 < len(os) && os[i+1].kind == "shift" && os[i+2].kind == "set" && os[i+1].a == os[i+2].a {
			out = append(out, listOp{kind: "insert", a: os[i+2].a, val: os[i+2].val})
			i += 2
			continue
		}
		out = append(out, os[i])
	}
	return out
}

func shapes(os []listOp) string {
	var s []string
	for _, o := range os {
		s = append(s, o.kind+show(o.a)+show(o.b))
	}
	if len(s) == 0 {
		return "no operation"
	}
	return strings.Join(s, "; ")
}

func show(t *Term) string {
	if t == nil {
		return ""
	}
	return " " + t.String()
}

func sameShape(a, b []listOp) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i].kind != b[i].kind || a[i].a != b[i].a || a[i].b != b[i].b || a[i].kind == "other" {
			return false
		}
	}
	return true
}

type c08 struct {
	c    *Ctx
	e    *Engine
	mode map[*Term]int64 // receiver -> index type
	cuts map[[2]*Term]bool
	prev map[[2]*Term]bool
	dels map[string]bool
}

// sync checks that the lists were changed alike since the last check.
func (r *c08) sync(st *State, where string, ins ssa.Instruction) {
	l := st.client.(*opLog)
	comp := map[int64]string{0: "", 1: fFreqs, 2: fLocs}
	// IndexType values: see types.indexer options
	mode := r.mode[st.stack[0].args[0]]
	act := comp[r.compOf(mode)]
	for ti, m := range l.ops {
		ids := normalise(m[fDocIds])
		site := fmt.Sprintf("%s at %s (index type %d): %s", fnName(st.top().fn), r.e.pos(insPos(ins)), mode, shapes(ids))
		for _, f := range []string{fFreqs, fLocs} {
			os := normalise(m[f])
			if f != act {
				if len(os) > 0 && mode != -1 {
					r.c.ob("inactive-list-untouched", site+" "+f, false)
					st.report(fmt.Sprintf("C08:inactive:%s:%s", f, fnName(ins.Parent())), ins, "with index type %d the list %s is changed (%s) although it is not kept for this type", mode, f, shapes(os))
				}
				continue
			}
			ok := sameShape(ids, os)
			r.c.ob("parallel-change", site, ok)
			if !ok {
				st.report(fmt.Sprintf("C08:parallel:%s:%s", f, fnName(ins.Parent())), ins, "at the end of this %s the ids of a posting list changed by [%s] but its %s by [%s]: entries no longer belong together", where, shapes(ids), f[strings.LastIndex(f, ".")+1:], shapes(os))
			}
			if ok {
				for i := range ids {
					r.values(st, ti, ids[i], os[i], f, ins)
				}
			}
		}
		if act == "" {
			r.c.ob("parallel-change", site, true)
		}
		for _, o := range ids {
			if o.kind == "insert" || o.kind == "new" {
				r.insertion(st, ti, o, ins)
			}
			if o.kind == "other" {
				st.report("C08:op:"+fnName(ins.Parent()), ins, "the ids of a posting list are changed by an operation that is not an insertion, a move or a removal")
			}
			if o.kind == "cut" {
				r.emptyDropped(st, ti, ins)
			}
		}
	}
	st.client = newOpLog()
}

func (r *c08) compOf(mode int64) int64 {
	switch mode {
	case r.constVal("FrequenciesIndex"):
		return 1
	case r.constVal("LocsIndex"):
		return 2
	}
	return 0
}

func (r *c08) constVal(name string) int64 {
	for _, p := range r.c.P.Prog.AllPackages() {
		if p.Pkg.Path() == modPath+"/types" {
			if k, ok := p.Pkg.Scope().Lookup(name).(*types.Const); ok {
				if v, ok := mkConst(k.Val(), k.Type()).intVal(); ok {
					return v
				}
			}
		}
	}
	return -99
}

// docOf: t is the id of an indexed document; its DocIndex.
func docOf(t *Term) *Term {
	if loadsField(t, "types.DocIndex.DocId") {
		if t.op == OpLoad {
			return t.args[0].args[0]
		}
		return t.args[0]
	}
	return nil
}

// kwOf: t is the given field of a keyword of a document; the keyword's
// document and index in it.
func kwOf(t *Term, field string) (doc, idx *Term) {
	if !loadsField(t, "types.KeywordIndex."+field) {
		return nil, nil
	}
	x := t.args[0]
	if t.op == OpLoad {
		x = x.args[0]
	}
	if x.op == OpLoad {
		x = x.args[0]
	}
	if x.op == OpIndexAddr && loadsField(x.args[0], "types.DocIndex.Keywords") {
		k := x.args[0]
		d := k.args[0]
		if k.op == OpLoad {
			d = d.args[0]
		}
		return d, x.args[1]
	}
	return nil, nil
}

func (r *c08) values(st *State, ti *Term, id, co listOp, f string, ins ssa.Instruction) {
	switch id.kind {
	case "insert", "new":
	default:
		return
	}
	doc := docOf(id.val)
	name := "Frequency"
	if f == fLocs {
		name = "Starts"
	}
	d2, k := kwOf(co.val, name)
	site := fmt.Sprintf("%s at %s: (%v, %v)", fnName(ins.Parent()), r.e.pos(insPos(ins)), id.val, co.val)
	ok := doc != nil && doc == d2
	why := fmt.Sprintf("the added entry pairs id %v with %v: not the same document's", id.val, co.val)
	if ok {
		kw := r.keywordOf(st, ti)
		d3, k3 := (*Term)(nil), (*Term)(nil)
		if kw != nil {
			d3, k3 = kwOf(kw, "Text")
		}
		if d3 != d2 || k3 != k {
			ok = false
			why = fmt.Sprintf("the %s added belong to another keyword than the one whose posting list is changed (%v)", name, kw)
		}
	}
	r.c.ob("entry-belongs-to-document-and-keyword", site, ok)
	if !ok {
		st.report("C08:value:"+f+":"+fnName(ins.Parent()), ins, "%s", why)
	}
}

// keywordOf: the keyword under which a posting list is kept.
func (r *c08) keywordOf(st *State, ti *Term) *Term {
	for _, x := range st.equals(ti) {
		if x.op == OpMapVal && loadsField(x.args[0], fTable) {
			return x.args[1]
		}
		if x.op == OpRangeVal {
			return x
		}
	}
	for l, v := range st.mem {
		if l.op == OpMapCell && v == ti && loadsField(l.args[0], fTable) {
			return l.args[1]
		}
	}
	return nil
}

// insertion: the position is the one the search gives for this document in this list.
func (r *c08) insertion(st *State, ti *Term, o listOp, ins ssa.Instruction) {
	doc := docOf(o.val)
	site := fmt.Sprintf("%s at %s: %s %v", fnName(ins.Parent()), r.e.pos(insPos(ins)), o.kind, o.val)
	ok, why := true, ""
	switch {
	case doc == nil:
		ok, why = false, fmt.Sprintf("the id added, %v, is not the document's own id", o.val)
	case o.kind == "new":
		// a fresh list must be entered under the keyword
		if r.keywordOf(st, ti) == nil {
			ok, why = false, "the new posting list is not entered in the index under its keyword"
		}
	default:
		p := o.a
		if !isPos(p) || !st.same(p.args[0], ti) || p.args[1] != o.val {
			ok, why = false, fmt.Sprintf("the id is inserted at %v, which is not where it is searched in this list: the list does not stay ordered", p)
			break
		}
		ki := r.c.P.typeOf("core", "KeywordIndices")
		full := mkSub(mkLen(mk(OpLoad, types.NewSlice(tString), strings.TrimPrefix(p.aux, "@pos:"), mkFieldAddr(p.args[0], ki, fieldIdx(ki, "docIds")))), mkInt(1))
		if p.args[3] != full {
			ok, why = false, fmt.Sprintf("the search for the insertion point ends at %v, not at the end of the list", p.args[3])
			break
		}
		s := p.args[2]
		if s != mkInt(0) && !(s.op == OpMapVal && s.args[0].op == OpMake && s.args[1] == r.keywordOf(st, ti)) {
			ok, why = false, fmt.Sprintf("the search for the insertion point starts at %v, which may lie behind it", s)
		}
	}
	r.c.ob("inserted-where-it-sorts", site, ok)
	if !ok {
		st.report("C08:insert:"+fnName(ins.Parent()), ins, "%s", why)
	}
}

// emptyDropped: after entries were cut the list is not empty or its keyword was dropped.
func (r *c08) emptyDropped(st *State, ti *Term, ins ssa.Instruction) {
	ki := r.c.P.typeOf("core", "KeywordIndices")
	l := st.client.(*opLog)
	ids := st.load(mkFieldAddr(ti, ki, fieldIdx(ki, "docIds")), types.NewSlice(tString))
	kw := r.keywordOf(st, ti)
	dropped := false
	for k := range l.dropped {
		if k == kw || kw != nil && kw.op == OpRangeVal && k.op == OpRangeKey && k.aux == kw.aux && k.args[0] == kw.args[0] {
			dropped = true
		}
	}
	nonEmpty := st.proveLt(mkInt(0), mkLen(ids)) || st.holds(mkEq(mkLen(ids), mkInt(0)), false)
	ok := dropped || nonEmpty
	r.c.ob("empty-keyword-dropped", fmt.Sprintf("%s at %s", fnName(ins.Parent()), r.e.pos(insPos(ins))), ok)
	if !ok {
		st.report("C08:empty:"+fnName(ins.Parent()), ins, "after entries were removed the keyword stays in the index although its posting list may be empty")
	}
}

func sortStrings(s []string) {
	for i := 1; i < len(s); i++ {
		for j := i; j > 0 && s[j] < s[j-1]; j-- {
			s[j], s[j-1] = s[j-1], s[j]
		}
	}
}

func init() {
	register("C08", "Operation-log dataflow: every exported Indexer operation is explored once per index type with the structural operations (grow, shift, set, move, cut, new) performed on the three lists of each posting list logged symbolically; at each loop iteration's end and each return the log of the ids and of the list kept for that index type must be the same sequence at the same positions, inserted values must be fields of the same document and keyword, insertion points must come from the search for that id in that list, entries may be skipped only where they equal the id to remove, and a cut list must be non-empty or dropped.",
		func(c *Ctx) {
			r := &c08{c: c, mode: map[*Term]int64{}, cuts: map[[2]*Term]bool{}}
			e := coreEngine(c)
			r.e = e
			lk := newLookups(c)
			e.Opaque = lk.e.Opaque
			log := func(st *State) *opLog { return st.client.(*opLog) }
			e.PassStart = func() { r.prev, r.cuts = r.cuts, map[[2]*Term]bool{} }
			e.Hooks.Call = searchIndexModel
			e.Hooks.Append = func(st *State, base *Term, elems []*Term, res *Term, typ types.Type, ins ssa.Instruction) {
				// a local list rebuilt from entries of a posting list
				for _, x := range elems {
					if b, i, ok := elemLoad(x); ok {
						if ti, f, ok := postingList(b); ok {
							if _, _, _, _, isPart := postingPart(base); !isPart {
								log(st).add(ti, f, listOp{kind: "push", a: i})
							}
						}
					}
				}
			}
			e.Hooks.Copy = func(st *State, dst, src *Term, ins ssa.Instruction) {
				ti, f, lo, hi, ok := postingPart(dst)
				if !ok {
					return
				}
				t2, f2, lo2, hi2, ok2 := postingPart(src)
				if ok2 && t2 == ti && f2 == f && lo != nil && hi == nil && hi2 == nil {
					from := lo2
					if from == nil {
						from = mkInt(0)
					}
					if mkSub(lo, from) == mkInt(1) {
						log(st).add(ti, f, listOp{kind: "shift", a: from})
						return
					}
				}
				log(st).add(ti, f, listOp{kind: "other", a: lo, b: hi})
			}
			e.Hooks.Store = func(st *State, loc, val *Term, ins ssa.Instruction) {
				if loc.op == OpIndexAddr {
					b := loc.args[0]
					for b.op == OpAppend {
						b = b.args[0]
					}
					ti, f, ok := postingList(b)
					if !ok {
						return
					}
					i := loc.args[1]
					if b2, j, ok := elemLoad(val); ok {
						for b2.op == OpAppend {
							b2 = b2.args[0]
						}
						if t2, f2, ok := postingList(b2); ok && t2 == ti {
							if f2 == f {
								log(st).add(ti, f, listOp{kind: "move", a: i, b: j})
								return
							}
						}
					}
					log(st).add(ti, f, listOp{kind: "set", a: i, val: val})
					return
				}
				if loc.op != OpFieldAddr || !isPostingField(loc.aux) {
					return
				}
				ti, f := loc.args[0], loc.aux
				if v, ok := oneElem(st, val); ok {
					log(st).add(ti, f, listOp{kind: "new", val: v})
					return
				}
				switch val.op {
				case OpAppend:
					if t2, f2, lo, hi, ok := postingPart(val.args[0]); ok && t2 == ti && f2 == f && len(val.args) == 2 && lo == nil && hi == nil {
						log(st).add(ti, f, listOp{kind: "grow"})
						return
					}
				case OpAppendAll:
					t2, f2, lo, hi, ok := postingPart(val.args[0])
					o := val.args[1]
					if ok && t2 == ti && f2 == f && lo == nil && hi != nil {
						if t3, f3, lo3, hi3, ok3 := postingPart(o); ok3 && t3 == ti && f3 == f && hi3 == nil && lo3 != nil {
							r.cuts[[2]*Term{hi, lo3}] = true
							log(st).add(ti, f, listOp{kind: "cut", a: hi, b: lo3})
							return
						}
						if o.op == OpAppendAll {
							if v, ok := oneElem(st, o.args[0]); ok {
								if t3, f3, lo3, hi3, ok3 := postingPart(o.args[1]); ok3 && t3 == ti && f3 == f && hi3 == nil && (lo3 == hi || lo3 == nil && hi == mkInt(0)) {
									log(st).add(ti, f, listOp{kind: "insert", a: hi, val: v})
									return
								}
							}
						}
					}
				case OpSlice:
					if t2, f2, lo, hi, ok := postingPart(val); ok && t2 == ti && f2 == f && lo == nil {
						log(st).add(ti, f, listOp{kind: "cut", a: hi})
						return
					}
				case OpPhi:
					log(st).add(ti, f, listOp{kind: "cut"})
					return
				}
				log(st).add(ti, f, listOp{kind: "other"})
			}
			e.Hooks.MapDelete = func(st *State, m, k *Term, ins ssa.Instruction) {
				if !loadsField(m, fTable) {
					return
				}
				log(st).dropped[k] = true
				// only an empty list may be dropped
				ki := c.P.typeOf("core", "KeywordIndices")
				vals := []*Term{mk(OpMapVal, types.NewPointer(ki), st.version("m:"+fTable), m, k)}
				if k.op == OpRangeKey {
					vals = append(vals, mk(OpRangeVal, types.NewPointer(ki), k.aux, k.args...))
				}
				ok := false
				for _, v := range vals {
					ids := st.load(mkFieldAddr(v, ki, fieldIdx(ki, "docIds")), types.NewSlice(tString))
					ok = ok || st.proveLe(mkLen(ids), mkInt(0))
				}
				c.ob("only-empty-keyword-dropped", fnName(ins.Parent())+" at "+e.pos(insPos(ins)), ok)
				if !ok {
					st.report("C08:drop:"+fnName(ins.Parent()), ins, "a keyword is dropped from the index although its posting list may not be empty")
				}
			}
			e.Hooks.MapWrite = func(st *State, m, k, v *Term, ins ssa.Instruction) {
				if loadsField(m, fTable) {
					ti := v
					ok := isLocalRoot(rootOf(ti)) && len(log(st).ops[ti][fDocIds]) > 0
					c.ob("new-keyword-has-entry", fnName(ins.Parent())+" at "+e.pos(insPos(ins)), ok)
					if !ok {
						st.report("C08:newkey:"+fnName(ins.Parent()), ins, "a keyword is entered in the index with a posting list that has no entry")
					}
				}
				if m.op == OpMake && isIntType(v.typ) && isPos(v) {
					same := false
					for _, x := range st.equals(v.args[0]) {
						same = same || x.op == OpMapVal && x.args[1] == k
					}
					if !same {
						st.report("C08:start:"+fnName(ins.Parent()), ins, "the remembered search start of one keyword is taken from another keyword's list")
					}
				} else if m.op == OpMake && isIntType(v.typ) {
					if b, ok := v.intVal(); !ok || b != 0 {
						st.report("C08:start:"+fnName(ins.Parent()), ins, "the remembered search start %v is not a position found in the keyword's list", v)
					}
				}
			}
			e.Hooks.Backedge = func(st *State, fr *Frame, h *ssa.BasicBlock, phis, vals []*Term) {
				at := fr.prev.Instrs[len(fr.prev.Instrs)-1]
				r.scan(st, fr, phis, vals, at)
				r.sync(st, "iteration", at)
			}
			e.Hooks.LoopPre = func(st *State, fr *Frame, h *ssa.BasicBlock, phis, vals []*Term) {
				r.sync(st, "straight part", fr.prev.Instrs[len(fr.prev.Instrs)-1])
			}
			e.Hooks.Return = func(st *State, fn *ssa.Function, res []*Term, ins ssa.Instruction) {
				r.sync(st, "operation", ins)
			}
			var roots []*ssa.Function
			for _, fn := range exportedOps(c, "core", "Indexer") {
				switch fn.Name() {
				case "Init", "Lookup", "LogicLookup": // lookups only hold the lock for reading (C06)
					continue
				}
				roots = append(roots, fn)
			}
			io := c.P.typeOf("types", "IndexerOpts")
			ix := c.P.typeOf("core", "Indexer")
			c.run(e, func() []*State {
				var sts []*State
				for _, fn := range roots {
					for t := int64(0); t < 3; t++ {
						args := make([]*Term, len(fn.Params))
						args[0] = mk(OpParam, fn.Params[0].Type(), fmt.Sprintf("%s.indexer/type%d", fnName(fn), t))
						st := e.newState(fn, args)
						st.top().ctx = fmt.Sprintf("%s/type%d", fnName(fn), t)
						st.client = newOpLog()
						r.mode[args[0]] = t
						loc := mkFieldAddr(mkFieldAddr(args[0], ix, fieldIdx(ix, "initOptions")), io, fieldIdx(io, "IndexType"))
						st.assume(mkEq(st.load(loc, tInt), mkInt(t)), true)
						sts = append(sts, st)
					}
				}
				return sts
			})
			c.need("parallel-change", 1)
			c.need("entry-belongs-to-document-and-keyword", 1)
			c.need("inserted-where-it-sorts", 1)
			c.need("empty-keyword-dropped", 1)
			c.need("only-empty-keyword-dropped", 1)
			c.need("entry-kept-or-removed", 1)
		}, "documents handed to AddDocs are in ascending id order (established by C10 for the operations that do so)", "a document lists a keyword once")
}

// scan checks the removal pass: with entries [a,b) to be cut, an iteration may
// advance b alone only past an entry equal to the id to remove, and both
// together only past an entry that is kept, moved down and known to be smaller.
func (r *c08) scan(st *State, fr *Frame, phis, vals []*Term, at ssa.Instruction) {
	val := func(p *Term) *Term {
		for i, x := range phis {
			if x == p {
				return vals[i]
			}
		}
		return nil
	}
	for ab := range r.prev {
		a, b := ab[0], ab[1]
		va, vb := val(a), val(b)
		if va == nil || vb == nil {
			continue
		}
		da, oka := mkSub(va, a).intVal()
		db, okb := mkSub(vb, b).intVal()
		isEntry := func(t *Term) bool {
			base, i, ok := elemLoad(t)
			if !ok || i != b {
				return false
			}
			_, f, ok := postingList(base)
			return ok && f == fDocIds
		}
		equal, smaller := false, false
		for f, v := range st.facts {
			if f.op == OpEq && v && (isEntry(f.args[0]) || isEntry(f.args[1])) {
				equal = true
			}
			if f.op == OpLt && v && isEntry(f.args[0]) && !isEntry(f.args[1]) {
				smaller = true
			}
			if f.op == OpEq && !v && (isEntry(f.args[0]) || isEntry(f.args[1])) {
				smaller = smaller || false
			}
		}
		site := fmt.Sprintf("%s at %s: kept %v, scanned %v", fnName(fr.fn), r.e.pos(insPos(at)), mkSub(va, a), mkSub(vb, b))
		ok, why := true, ""
		switch {
		case !oka || !okb || da < 0 || db < 0 || da > 1 || db > 1 || da > db:
			ok, why = false, "the scan does not advance entry by entry"
		case da == 0 && db == 1:
			ok, why = equal, "an entry is removed although it is not known to be the document to remove"
		case da == 1 && db == 1:
			moved := false
			l := st.client.(*opLog)
			for _, m := range l.ops {
				for _, o := range m[fDocIds] {
					moved = moved || o.kind == "move" && o.a == a && o.b == b
				}
			}
			ok, why = smaller, "an entry is kept although it may be the document to remove"
			if ok && !moved && !st.holds(mkEq(a, b), true) {
				ok, why = false, "an entry that is kept is not moved down over the removed ones"
			}
		}
		r.c.ob("entry-kept-or-removed", site, ok)
		if !ok {
			st.report("C08:scan:"+fnName(fr.fn), at, "%s", why)
		}
	}
}
