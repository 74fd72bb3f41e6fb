package main

import (
	"fmt"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// dbOp is a call into one of the storage libraries.
type dbOp struct {
	lib  string // badger, bbolt, leveldb
	typ  string // receiver type name, "" for functions
	meth string
}

func dbLib(path string) string {
	switch {
	case strings.Contains(path, "badger"):
		return "badger"
	case strings.Contains(path, "bbolt") || strings.Contains(path, "boltdb"):
		return "bbolt"
	case strings.Contains(path, "goleveldb"):
		return "leveldb"
	}
	return ""
}

// dbCall recognises a call into a storage library (anything outside the
// module and the standard library counts, named or not).
func dbCall(ci *CallInfo) (dbOp, bool) {
	var pkg *types.Package
	var recv types.Type
	name := ""
	switch {
	case ci.Fn != nil:
		if inModule(ci.Fn) {
			return dbOp{}, false
		}
		name = ci.Fn.Name()
		if o := ci.Fn.Object(); o != nil {
			pkg = o.Pkg()
		}
		if r := ci.Fn.Signature.Recv(); r != nil {
			recv = r.Type()
		}
	case ci.Call != nil && ci.Call.IsInvoke():
		name = ci.Call.Method.Name()
		pkg = ci.Call.Method.Pkg()
		recv = ci.Call.Value.Type()
	}
	if pkg == nil || !strings.Contains(strings.Split(pkg.Path(), "/")[0], ".") {
		return dbOp{}, false
	}
	op := dbOp{lib: dbLib(pkg.Path()), meth: name}
	if recv != nil {
		if p, ok := recv.(*types.Pointer); ok {
			recv = p.Elem()
		}
		if n, ok := recv.(*types.Named); ok {
			op.typ = n.Obj().Name()
		}
	}
	return op, true
}

func (o dbOp) String() string {
	if o.typ != "" {
		return o.lib + "." + o.typ + "." + o.meth
	}
	return o.lib + "." + o.meth
}

func (o dbOp) release() bool {
	switch o.meth {
	case "Close", "Release", "Rollback", "Discard":
		return true
	}
	return false
}

// errorOf picks the error component of a call's result.
func errorOf(ci *CallInfo, res *Term) *Term {
	if res == nil || ci.Result == nil {
		return nil
	}
	if isErrorType(ci.Result) {
		return res
	}
	if tt, ok := ci.Result.(*types.Tuple); ok && res.op == OpTuple {
		for i := 0; i < tt.Len(); i++ {
			if isErrorType(tt.At(i).Type()) {
				return res.args[i]
			}
		}
	}
	return nil
}

func valueOf(ci *CallInfo, res *Term) *Term {
	if res != nil && res.op == OpTuple {
		return res.args[0]
	}
	return res
}

// storeSt is the path state of the storage rules.
type storeSt struct {
	errs    []*Term // errors reported by the database on this path
	pending map[*Term]string
	open    map[*Term]string // iterators, transactions, handles not yet released
	txn     map[*Term]bool   // transactions: writable?
	nextVal bool             // the next callback gets the current entry's value
	nextOf  *Term            // the item whose value it is
	nextTxn int              // the next callback gets a transaction: 1 read, 2 write
	ops     []storeOp
	items   map[*Term]*Term // badger item -> key it was looked up by (nil: from an iterator)
	cur     *Term           // cursor being iterated
	lib     string
	pos     int // 0 fresh 1 at an unvisited position 2 visited
	valid   *Term
	keys    map[*Term]bool
	vals    map[*Term]bool
	isItem  map[*Term]bool
	checked bool // leveldb: Error() consulted since the last move
	vErr    *Term
	whole   bool // the library's own ForEach was given the visitor
	copies  map[*Term]*Term
	bolt    *Term
}

type storeOp struct {
	kind string // write, delete, read, has, dyn
	key  *Term
	val  *Term
	res  *Term
	err  *Term
	txn  *Term
	ins  ssa.Instruction
}

func newStoreSt() *storeSt {
	return &storeSt{pending: map[*Term]string{}, open: map[*Term]string{}, txn: map[*Term]bool{}, items: map[*Term]*Term{}, keys: map[*Term]bool{}, vals: map[*Term]bool{}, isItem: map[*Term]bool{}, copies: map[*Term]*Term{}}
}

func termSetKey[V any](m map[*Term]V) string {
	var ids []string
	for t := range m {
		ids = append(ids, fmt.Sprint(t.id, "=", m[t]))
	}
	sort.Strings(ids)
	return strings.Join(ids, ",")
}

func tid(t *Term) string {
	if t == nil {
		return "-"
	}
	return itoa(t.id)
}

func (s *storeSt) Key() string {
	var b strings.Builder
	for _, e := range s.errs {
		b.WriteString(tid(e) + ",")
	}
	b.WriteString("|" + termSetKey(s.pending) + "|" + termSetKey(s.open) + "|" + termSetKey(s.txn) + "|" + itoa(s.nextTxn) + fmt.Sprint(s.nextVal) + "|")
	for _, o := range s.ops {
		b.WriteString(o.kind + tid(o.key) + "," + tid(o.val) + "," + tid(o.res) + "," + tid(o.err) + ";")
	}
	fmt.Fprintf(&b, "|%s|%s|%d|%s|%s|%s|%s|%v|%s|%v", tid(s.cur), s.lib, s.pos, tid(s.valid), termSetKey(s.keys), termSetKey(s.vals), termSetKey(s.isItem), s.checked, tid(s.vErr), s.whole)
	b.WriteString("|" + termSetKey(s.copies) + termSetKey(s.items))
	return b.String()
}

func (s *storeSt) Clone() Client {
	n := *s
	n.errs = append([]*Term(nil), s.errs...)
	n.ops = append([]storeOp(nil), s.ops...)
	n.pending, n.open, n.txn, n.items = cloneMap(s.pending), cloneMap(s.open), cloneMap(s.txn), cloneMap(s.items)
	n.keys, n.vals, n.isItem, n.copies = cloneMap(s.keys), cloneMap(s.vals), cloneMap(s.isItem), cloneMap(s.copies)
	return &n
}

// storeTypes: the types of the store package that implement store.Store.
func storeTypes(c *Ctx) []*types.Named {
	it := c.P.typeOf("store", "Store")
	if it == nil {
		return nil
	}
	iface, ok := it.Underlying().(*types.Interface)
	if !ok {
		return nil
	}
	var out []*types.Named
	seen := map[string]bool{}
	for _, f := range c.P.pkgFns("store") {
		r := f.Signature.Recv()
		if r == nil {
			continue
		}
		t := r.Type()
		if types.Implements(t, iface) || types.Implements(types.NewPointer(t), iface) {
			if p, ok := t.(*types.Pointer); ok {
				t = p.Elem()
			}
			if n, ok := t.(*types.Named); ok && !seen[n.Obj().Name()] {
				seen[n.Obj().Name()] = true
				out = append(out, n)
			}
		}
	}
	sort.Slice(out, func(i, j int) bool { return out[i].Obj().Name() < out[j].Obj().Name() })
	return out
}

// openers: functions of the store package of type func(string) (Store, error).
func storeOpeners(c *Ctx) []*ssa.Function {
	var out []*ssa.Function
	for _, f := range c.P.pkgFns("store") {
		s := f.Signature
		if s.Recv() != nil || f.Parent() != nil || s.Params().Len() != 1 || s.Results().Len() != 2 || s.Variadic() {
			continue
		}
		if !isStringType(s.Params().At(0).Type()) || !namedIs(s.Results().At(0).Type(), "store.Store") || !isErrorType(s.Results().At(1).Type()) {
			continue
		}
		out = append(out, f)
	}
	return out
}

// storeRule is what one property asks of the events.
type storeRule struct {
	ret      func(st *State, s *storeSt, fn *ssa.Function, res []*Term, ins ssa.Instruction)
	visitor  func(st *State, s *storeSt, ci *CallInfo, k, v *Term)
	move     func(st *State, s *storeSt, op dbOp, ci *CallInfo)
	backedge func(st *State, s *storeSt, phis, vals []*Term, ins ssa.Instruction)
	fatal    func(st *State, name string, ins ssa.Instruction)
	bucket   func(st *State, name *Term, ins ssa.Instruction)
	dynamic  bool
}

// copied strips what only copies bytes; fresh tells whether a copy was made.
func (st *State) copied(t *Term) (src *Term, fresh bool) {
	s, _ := st.client.(*storeSt)
	for t != nil {
		switch {
		case t.op == OpConvert:
			if len(t.args) == 1 && isStringType(t.typ) != isStringType(t.args[0].typ) && t.args[0].typ != nil {
				fresh = true
			}
			t = t.args[0]
			continue
		case t.op == OpAppendAll && len(t.args) == 2 && st.proveLe(mkLen(t.args[0]), mkInt(0)) && !sharedBase(t.args[0]):
			fresh = true
			t = t.args[1]
			continue
		case t.op == OpCall && (strings.HasPrefix(t.aux, "bytes.Clone") || strings.HasPrefix(t.aux, "slices.Clone")) && len(t.args) == 1:
			fresh = true
			t = t.args[0]
			continue
		case s != nil && s.copies[t] != nil:
			fresh = true
			t = s.copies[t]
			continue
		case t.op == OpSlice && len(t.args) >= 3 && t.args[1] == mkInt(0) && st.proveEqInt(t.args[2], mkLen(t.args[0])):
			t = t.args[0]
			continue
		}
		break
	}
	return t, fresh
}

func sharedBase(t *Term) bool {
	for t.op == OpSlice || t.op == OpConvert {
		t = t.args[0]
	}
	return !(t.op == OpMake || t.op == OpAlloc || t.op == OpConst || t.op == OpZero)
}

// runStore explores the storage code and hands the events to a rule.
func runStore(c *Ctx, roots []*ssa.Function, r *storeRule) {
	e := NewEngine(c.P)
	e.MultiCall = func(name string) (bool, bool) {
		switch {
		case dbLib(name) == "":
			return false, false
		case strings.HasSuffix(name, ".Update"), strings.HasSuffix(name, ".View"), strings.HasSuffix(name, ".Batch"):
			return true, true
		case strings.HasSuffix(name, "badger.Item).Value"):
			return true, true
		}
		return false, false
	}
	e.nonNilHook = func(st *State, t *Term) bool {
		// the libraries' error values
		return t.op == OpLoad && t.args[0].op == OpGlobal && t.typ != nil && isErrorType(t.typ) && dbLib(t.args[0].aux) != ""
	}
	e.Hooks.Copy = func(st *State, dst, src *Term, ins ssa.Instruction) {
		if st.proveEqInt(mkLen(dst), mkLen(src)) && (dst.op == OpMake || dst.op == OpSlice && dst.args[0].op == OpMake) {
			st.client.(*storeSt).copies[dst] = src
		}
	}
	e.Hooks.Call = func(st *State, ci *CallInfo) (bool, *Term) {
		s := st.client.(*storeSt)
		op, ok := dbCall(ci)
		if !ok {
			return false, nil
		}
		switch {
		case op.meth == "Update" || op.meth == "Batch":
			s.nextTxn = 2
		case op.meth == "View":
			s.nextTxn = 1
		case op.typ == "Item" && op.meth == "Value":
			s.nextVal = true
			s.nextOf = arg(ci, 0)
		case op.lib == "bbolt" && op.typ == "Bucket" && op.meth == "ForEach":
			if len(ci.Args) == 2 && isVisitor(st, ci.Args[1]) {
				s.whole = true
			}
		}
		return false, nil
	}
	e.Hooks.Enter = func(st *State, fn *ssa.Function, args []*Term) {
		s, ok := st.client.(*storeSt)
		if ok && s.nextTxn > 0 && len(args) == 1 && args[0].op == OpParam {
			s.txn[args[0]] = s.nextTxn == 2
			s.nextTxn = 0
		}
		if ok && s.nextVal && len(args) == 1 && args[0].op == OpParam {
			if s.isItem[s.nextOf] {
				s.vals[args[0]] = true
			} else {
				s.ops = append(s.ops, storeOp{kind: "itemval", key: s.nextOf, res: args[0]})
			}
			s.nextVal, s.nextOf = false, nil
		}
	}
	e.Hooks.Called = func(st *State, ci *CallInfo, res *Term) {
		s := st.client.(*storeSt)
		if ci.Fn == nil && !ci.Call.IsInvoke() {
			// a visitor, or an opener taken from the table
			if isVisitor(st, ci.FnTerm) {
				var k, v *Term
				if len(ci.Args) == 2 {
					k, v = ci.Args[0], ci.Args[1]
				}
				if r.visitor != nil {
					r.visitor(st, s, ci, k, v)
				}
				s.pos = 2
				s.vErr = errorOf(ci, res)
				return
			}
			if r.dynamic {
				if er := errorOf(ci, res); er != nil {
					s.errs = append(s.errs, er)
				}
			}
			s.ops = append(s.ops, storeOp{kind: "dyn", key: ci.FnTerm, val: arg(ci, 0), res: valueOf(ci, res), err: errorOf(ci, res), ins: ci.Instr})
			return
		}
		op, ok := dbCall(ci)
		if !ok {
			return
		}
		er := errorOf(ci, res)
		rootIsClose := st.stack[0].fn.Name() == "Close"
		if er != nil && (!op.release() || rootIsClose) {
			s.errs = append(s.errs, er)
		}
		v := valueOf(ci, res)
		if v == er {
			v = nil
		}
		switch op.meth {
		case "NewIterator", "NewIteratorWithOptions", "GetSnapshot", "OpenTransaction", "Begin", "NewTransaction", "NewKeyIterator":
			if v != nil {
				s.open[v] = op.String()
			}
			switch op.meth {
			case "NewTransaction", "Begin":
				w := arg(ci, 1)
				s.txn[v] = w != nil && st.holds(w, true)
			case "OpenTransaction":
				s.txn[v] = true
			case "NewIterator", "NewKeyIterator", "NewIteratorWithOptions":
				s.startCursor(op.lib, v)
			}
		case "Open", "OpenFile", "OpenManaged", "Recover", "RecoverFile":
			if op.typ == "" && v != nil {
				s.open[v] = op.String()
				s.pending[v] = "db"
				s.ops = append(s.ops, storeOp{kind: "open", key: arg(ci, 0), val: mkStr(op.lib), res: v, err: er, ins: ci.Instr})
			}
		case "Close", "Release", "Rollback", "Commit", "Discard":
			if a := arg(ci, 0); a != nil {
				delete(s.open, a)
				if op.meth == "Close" {
					s.ops = append(s.ops, storeOp{kind: "close", key: a, ins: ci.Instr})
				}
				if op.meth == "Commit" {
					s.ops = append(s.ops, storeOp{kind: "commit", txn: a, err: er, ins: ci.Instr})
				}
			}
		case "Cursor":
			if op.lib == "bbolt" {
				s.startCursor(op.lib, v)
			}
		case "First", "Rewind", "Next", "Prev", "Last", "Seek":
			a := arg(ci, 0)
			if s.cur == nil || a != s.cur {
				break
			}
			if r.move != nil {
				r.move(st, s, op, ci)
			}
			s.pos = 1
			s.checked = false
			s.keys, s.vals, s.isItem = map[*Term]bool{}, map[*Term]bool{}, map[*Term]bool{}
			s.valid = nil
			switch op.lib {
			case "leveldb":
				s.valid = res
			case "bbolt":
				if res.op == OpTuple {
					s.valid = mkNot(mkEq(res.args[0], mkNil()))
					s.keys[res.args[0]], s.vals[res.args[1]] = true, true
				}
			}
		case "Valid":
			if s.cur != nil && arg(ci, 0) == s.cur {
				s.valid = res
			}
		case "Error":
			if s.cur != nil && arg(ci, 0) == s.cur {
				s.checked = true
			}
		case "Item":
			if s.cur != nil && arg(ci, 0) == s.cur {
				s.isItem[res] = true
				s.items[res] = nil
			}
		case "Key", "KeyCopy":
			if a := arg(ci, 0); a != nil && (a == s.cur || s.isItem[a]) {
				s.keys[res] = true
			}
		case "Value", "ValueCopy":
			if a := arg(ci, 0); a != nil && (a == s.cur || s.isItem[a]) {
				if v != nil {
					s.vals[v] = true
				}
			}
			if a := arg(ci, 0); a != nil && op.meth == "ValueCopy" && v != nil {
				s.ops = append(s.ops, storeOp{kind: "itemcopy", key: a, val: arg(ci, 1), res: v, err: er, ins: ci.Instr})
			}
		case "Get":
			s.ops = append(s.ops, storeOp{kind: "read", key: arg(ci, 1), res: v, err: er, txn: arg(ci, 0), ins: ci.Instr})
		case "Has":
			s.ops = append(s.ops, storeOp{kind: "has", key: arg(ci, 1), res: v, err: er, txn: arg(ci, 0), ins: ci.Instr})
		case "Set", "Put":
			s.ops = append(s.ops, storeOp{kind: "write", key: arg(ci, 1), val: arg(ci, 2), err: er, txn: arg(ci, 0), ins: ci.Instr})
		case "Delete":
			s.ops = append(s.ops, storeOp{kind: "delete", key: arg(ci, 1), err: er, txn: arg(ci, 0), ins: ci.Instr})
		case "Bucket", "CreateBucketIfNotExists", "CreateBucket":
			if op.lib == "bbolt" && r.bucket != nil {
				r.bucket(st, arg(ci, 1), ci.Instr)
			}
			if t := arg(ci, 0); t != nil && v != nil {
				if w, ok := s.txn[t]; ok {
					s.txn[v] = w
				}
			}
		case "SetEntry", "SetWithTTL", "SetWithDiscard", "SetWithMeta", "Write", "DropAll", "DropPrefix", "DeleteBucket", "SetSequence", "Flush":
			s.ops = append(s.ops, storeOp{kind: "other", key: arg(ci, 1), err: er, txn: arg(ci, 0), ins: ci.Instr})
		}
	}
	e.Hooks.LoopPre = func(st *State, f *Frame, h *ssa.BasicBlock, phis, vals []*Term) {
		st.client.(*storeSt).rename(st, phis, vals)
	}
	e.Hooks.LoopEnter = func(st *State, f *Frame, h *ssa.BasicBlock) {
		// an error carried around the loop must not be forgotten
		s := st.client.(*storeSt)
		for p, t := range f.loops[h].phis {
			if isErrorType(p.Type()) {
				s.errs = append(s.errs, t)
			}
		}
		sort.Slice(s.errs, func(i, j int) bool { return s.errs[i].id < s.errs[j].id })
	}
	e.Hooks.Backedge = func(st *State, f *Frame, h *ssa.BasicBlock, phis, vals []*Term) {
		s := st.client.(*storeSt)
		var ins ssa.Instruction
		if n := len(h.Instrs); n > 0 {
			ins = h.Instrs[n-1]
		}
		if r.backedge != nil {
			r.backedge(st, s, phis, vals, ins)
		}
		s.rename(st, phis, vals)
		// errors of this iteration are known nil or carried on (checked by the rule)
		s.errs = nil
		for _, p := range phis {
			if isErrorType(p.typ) {
				s.errs = append(s.errs, p)
			}
		}
		if ent := f.loops[h]; ent != nil && ent.snapshot != nil {
			for _, x := range ent.snapshot.client.(*storeSt).errs {
				dup := false
				for _, y := range s.errs {
					dup = dup || x == y
				}
				if !dup {
					s.errs = append(s.errs, x)
				}
			}
		}
		sort.Slice(s.errs, func(i, j int) bool { return s.errs[i].id < s.errs[j].id })
		s.vErr = nil
		s.copies = map[*Term]*Term{}
		// value copies of items are not needed across iterations
		var ops []storeOp
		for _, o := range s.ops {
			if o.kind != "itemcopy" {
				ops = append(ops, o)
			}
		}
		s.ops = ops
		s.items = map[*Term]*Term{}
	}
	e.Hooks.Fatal = func(st *State, name string, ins ssa.Instruction) {
		if r.fatal != nil {
			r.fatal(st, name, ins)
		}
	}
	e.Hooks.Return = func(st *State, fn *ssa.Function, res []*Term, ins ssa.Instruction) {
		// only a lookup reports that a key is absent
		s := st.client.(*storeSt)
		for _, e := range s.errs {
			lookup := false
			for _, o := range s.ops {
				lookup = lookup || o.kind == "read" && o.err == e
			}
			if !lookup && st.notFoundCase(e) == 1 {
				return
			}
		}
		if r.ret != nil {
			r.ret(st, st.client.(*storeSt), fn, res, ins)
		}
	}
	c.runRoots(e, roots, func(st *State, fn *ssa.Function) { st.client = newStoreSt() })
}

func arg(ci *CallInfo, i int) *Term {
	if i < len(ci.Args) {
		return ci.Args[i]
	}
	return nil
}

// isVisitor: the function value handed to the operation under analysis.
func isVisitor(st *State, t *Term) bool {
	if t == nil {
		return false
	}
	for t.op == OpConvert {
		t = t.args[0]
	}
	root := st.stack[0]
	for i, p := range root.fn.Params {
		if i < len(root.args) && root.args[i] == t {
			_, ok := p.Type().Underlying().(*types.Signature)
			return ok
		}
	}
	return false
}

func (s *storeSt) startCursor(lib string, v *Term) {
	s.cur, s.lib, s.pos, s.valid, s.checked = v, lib, 0, nil, false
	s.keys, s.vals, s.isItem = map[*Term]bool{}, map[*Term]bool{}, map[*Term]bool{}
}

// rename follows the cursor's terms into the loop's variables.
func (s *storeSt) rename(st *State, phis, vals []*Term) {
	sub := func(set map[*Term]bool) map[*Term]bool {
		out := map[*Term]bool{}
		for i := range phis {
			if set[vals[i]] {
				out[phis[i]] = true
			}
		}
		return out
	}
	valid := (*Term)(nil)
	for i := range phis {
		if s.valid == vals[i] && s.valid != nil {
			valid = phis[i]
		}
		if s.lib == "bbolt" && s.keys[vals[i]] {
			valid = mkNot(mkEq(phis[i], mkNil()))
		}
	}
	s.keys, s.vals, s.isItem = sub(s.keys), sub(s.vals), sub(s.isItem)
	s.valid = valid
}

// notFoundCase: is e on this path the library's "no such key" error?
// 1 yes, 0 no, -1 not decided.
func (st *State) notFoundCase(e *Term) int {
	nf := func(t *Term) bool {
		return t.op == OpLoad && t.args[0].op == OpGlobal && (strings.HasSuffix(t.args[0].aux, "ErrKeyNotFound") || strings.HasSuffix(t.args[0].aux, "ErrNotFound"))
	}
	if st.holds(mkEq(e, mkNil()), true) {
		return 0
	}
	for f, v := range st.facts {
		switch {
		case f.op == OpEq && (f.args[0] == e && nf(f.args[1]) || f.args[1] == e && nf(f.args[0])):
		case f.op == OpCall && strings.HasPrefix(f.aux, "errors.Is") && len(f.args) == 2 && f.args[0] == e && nf(f.args[1]):
		default:
			continue
		}
		if v {
			return 1
		}
		return 0
	}
	return -1
}

func storeRoots(c *Ctx, names ...string) []*ssa.Function {
	var roots []*ssa.Function
	for _, t := range storeTypes(c) {
		for _, n := range names {
			f := c.P.fn("(*store." + t.Obj().Name() + ")." + n)
			if f == nil {
				f = c.P.fn("(store." + t.Obj().Name() + ")." + n)
			}
			if f == nil {
				c.violate("anchor:"+t.Obj().Name()+"."+n, "", "", "storage operation "+t.Obj().Name()+"."+n+" not found", nil)
				continue
			}
			roots = append(roots, f)
		}
	}
	return roots
}

var storeOps = []string{"Set", "Get", "Delete", "Has", "ForEach", "Close"}

// needStores: the documented backends are there.
func needStores(c *Ctx) {
	if n := len(storeTypes(c)); n < 3 {
		c.violate("anchor:backends", "", "", fmt.Sprintf("found %d of the 3 storage backends", n), nil)
	}
}

// errResult is the error among a root's results.
func errResult(fn *ssa.Function, res []*Term) *Term {
	rs := fn.Signature.Results()
	for i := 0; i < rs.Len(); i++ {
		if isErrorType(rs.At(i).Type()) && i < len(res) {
			return res[i]
		}
	}
	return nil
}

func init() {
	register("C16", "Error-propagation analysis of every storage backend: every call into a storage library that reports an error raises an obligation on every path on which it may be non-nil: the operation's own error result is then proved non-nil (a \"no such key\" error may become a plain absence only in the existence check). Transaction callbacks are followed into and out of the library's Update/View; an iterator's own error must have been consulted after its last move before success is reported; errors of a loop iteration must be known nil or carried into the next one. Process-ending calls on these paths are violations.",
		func(c *Ctx) {
			needStores(c)
			roots := append(storeRoots(c, storeOps...), storeOpeners(c)...)
			if f := c.mustFn("store.OpenStore"); f != nil {
				roots = append(roots, f)
			}
			swallowed := func(st *State, s *storeSt, e *Term, res *Term, has bool) bool {
				x := st.clone()
				if !x.assume(mkEq(e, mkNil()), false) {
					return false
				}
				if has && x.notFoundCase(e) == 1 {
					return false
				}
				return res == nil || !x.holds(mkEq(res, mkNil()), false)
			}
			runStore(c, roots, &storeRule{
				dynamic: true,
				ret: func(st *State, s *storeSt, fn *ssa.Function, res []*Term, ins ssa.Instruction) {
					er := errResult(fn, res)
					for _, e := range s.errs {
						bad := swallowed(st, s, e, er, fn.Name() == "Has")
						c.ob("error-reaches-caller", fmt.Sprintf("%s: %v", fnName(fn), e), !bad)
						if bad {
							st.report("C16:swallowed:"+fnName(fn), ins, "an error reported by the database (%v) is not returned to the caller", e)
						}
					}
					if s.cur != nil && s.lib == "leveldb" {
						ok := s.checked || er != nil && st.holds(mkEq(er, mkNil()), false)
						c.ob("iterator-error-consulted", fnName(fn), ok)
						if !ok {
							st.report("C16:iterator:"+fnName(fn), ins, "success is reported without consulting the iterator's own error")
						}
					}
				},
				backedge: func(st *State, s *storeSt, phis, vals []*Term, ins ssa.Instruction) {
					all := s.errs
					if s.vErr != nil {
						all = append(append([]*Term(nil), all...), s.vErr)
					}
					for _, e := range all {
						carried := e.op == OpPhi
						for _, v := range vals {
							carried = carried || v == e
						}
						ok := carried || st.holds(mkEq(e, mkNil()), true)
						c.ob("error-not-dropped-by-loop", e.String(), ok)
						if !ok {
							st.report("C16:loop:"+fnName(st.stack[0].fn), ins, "the iteration goes on although %v may be an error", e)
						}
					}
				},
				fatal: func(st *State, name string, ins ssa.Instruction) {
					c.ob("no-exit", name, false)
					st.report("C16:fatal:"+fnName(st.stack[0].fn), ins, "the storage code ends the process (%s) instead of returning the error", name)
				},
			})
			for _, f := range roots {
				c.ob("no-exit", fnName(f), true)
			}
			c.need("error-reaches-caller", 5)
		}, "only a lookup reports the libraries' \"no such key\" error", "a transaction function of the storage libraries returns the callback's error and returns nil only after running the callback")

	register("C17", "Dataflow rule on every storage backend: on every path that may report success, Set performs exactly one library write, with exactly its own key and value arguments (copies allowed), in a writable transaction that is committed; Delete exactly one deletion of its own key; Get and Has look up exactly their own key; what Get hands back is that lookup's value in memory of its own (bytes that belong to a transaction must have been copied); all operations of the bbolt backend use one and the same bucket.",
		func(c *Ctx) {
			needStores(c)
			roots := append(storeRoots(c, storeOps...), storeOpeners(c)...)
			buckets := map[string]ssa.Instruction{}
			rule := &storeRule{
				bucket: func(st *State, name *Term, ins ssa.Instruction) {
					n := "?"
					if name != nil {
						n = name.String()
						if name.op == OpLoad && name.args[0].op == OpGlobal {
							n = name.args[0].aux
						}
						if src, _ := st.copied(name); src != nil && src.isConst() {
							n = src.String()
						}
					}
					if _, ok := buckets[n]; !ok {
						buckets[n] = ins
					}
				},
				ret: func(st *State, s *storeSt, fn *ssa.Function, res []*Term, ins ssa.Instruction) {
					root := st.stack[0]
					er := errResult(fn, res)
					if er != nil && st.holds(mkEq(er, mkNil()), false) {
						return
					}
					var k, v *Term
					if len(root.args) > 1 {
						k = root.args[1]
					}
					if len(root.args) > 2 {
						v = root.args[2]
					}
					exact := func(got, want *Term) bool {
						src, _ := st.copied(got)
						return got != nil && (src == want || got == want)
					}
					own := func(o storeOp) bool {
						// the handle used is the backend's own
						t := o.txn
						if t == nil {
							return false
						}
						if _, ok := s.txn[t]; ok {
							return true
						}
						return contains(t, root.args[0]) || containsTxn(t, s)
					}
					changes := 0
					bad := ""
					var rd []storeOp
					committed := false
					for _, o := range s.ops {
						switch o.kind {
						case "write", "delete", "other":
							changes++
							want := map[string]string{"Set": "write", "Delete": "delete"}[fn.Name()]
							if o.kind != want {
								bad = "a " + o.kind + " operation on the database that is not this operation's task"
							} else if !exact(o.key, k) {
								bad = fmt.Sprintf("the database key %v is not the key given", o.key)
							} else if o.kind == "write" && !exact(o.val, v) {
								bad = fmt.Sprintf("the bytes stored, %v, are not the value given", o.val)
							} else if !own(o) {
								bad = "the operation is not performed on the backend's own database"
							} else if w, ok := s.txn[o.txn]; ok && !w {
								bad = "the transaction is read-only"
							}
						case "read", "has":
							rd = append(rd, o)
						case "commit":
							committed = true
						}
					}
					switch fn.Name() {
					case "Set", "Delete":
						if bad == "" && changes != 1 {
							bad = fmt.Sprintf("success may be reported after %d operations on the database instead of one", changes)
						}
						for _, o := range s.ops {
							if (o.kind == "write" || o.kind == "delete") && o.txn != nil && o.txn.op != OpParam && bad == "" && !committed {
								if _, ok := s.txn[o.txn]; ok {
									base := o.txn
									for base.op == OpCall && len(base.args) > 0 && base.args[0] != nil {
										base = base.args[0]
										if base.op == OpParam {
											break
										}
									}
									if base.op != OpParam {
										bad = "the transaction is never committed"
									}
								}
							}
						}
						c.ob("writes-exactly", fnName(fn), bad == "")
					case "Get", "Has":
						if bad == "" && changes > 0 {
							bad = "a read changes the database"
						}
						if len(rd) == 0 && bad == "" {
							bad = "success may be reported without looking anything up"
						}
						for _, o := range rd {
							if !exact(o.key, k) && bad == "" {
								bad = fmt.Sprintf("the key looked up, %v, is not the key given", o.key)
							}
							if !own(o) && bad == "" {
								bad = "the lookup is not made in the backend's own database"
							}
						}
						c.ob("reads-exactly", fnName(fn), bad == "")
						if fn.Name() == "Get" && bad == "" {
							bad = ownBytes(st, s, rd, res[0])
							c.ob("bytes-own-copy", fnName(fn), bad == "")
						}
					default:
						if changes > 0 && fn.Signature.Recv() != nil && bad == "" {
							bad = "the operation changes the database"
						}
						if bad != "" && fn.Signature.Recv() == nil {
							bad = ""
						}
					}
					if bad != "" {
						st.report("C17:"+fnName(fn), ins, "%s", bad)
					}
				},
			}
			runStore(c, roots, rule)
			names := sortedKeys(buckets)
			c.ob("one-bucket", strings.Join(names, ", "), len(names) <= 1)
			if len(names) > 1 {
				c.violateAt("C17:bucket", buckets[names[1]], "the operations of one backend use different buckets: %s", strings.Join(names, ", "))
			}
			for _, n := range names {
				if n == "?" {
					c.violateAt("C17:bucket", buckets[n], "the bucket used could not be determined")
				}
			}
			c.need("writes-exactly", 1)
			c.need("reads-exactly", 1)
			c.need("bytes-own-copy", 1)
			c.need("one-bucket", 1)
		}, "leveldb's DB.Get and badger's ValueCopy return bytes of the caller's own; bbolt's Bucket.Get returns bytes that belong to the transaction (library documentation)")

	register("C18", "Typestate on handles: every iterator, snapshot or manual transaction a backend opens is in the released state (Close, Release, Commit, Discard or Rollback, called or deferred) on every path that leaves the operation; a database opened by an opener that may return an error has been closed on that path, and on success it is the handle kept in the returned store; each backend's Close closes its database on every path.",
		func(c *Ctx) {
			needStores(c)
			roots := append(storeRoots(c, storeOps...), storeOpeners(c)...)
			runStore(c, roots, &storeRule{
				ret: func(st *State, s *storeSt, fn *ssa.Function, res []*Term, ins ssa.Instruction) {
					er := errResult(fn, res)
					for _, o := range s.ops {
						if o.kind != "open" {
							continue
						}
						h := o.res
						if o.err != nil && st.holds(mkEq(o.err, mkNil()), false) {
							delete(s.open, h)
							continue // it was not opened
						}
						_, stillOpen := s.open[h]
						kept := handleKept(st, res[0], h)
						ok := true
						why := ""
						if er == nil || !st.holds(mkEq(er, mkNil()), true) {
							// may report an error
							x := st.clone()
							if er == nil || x.assume(mkEq(er, mkNil()), false) {
								if o.err != nil && er == o.err {
									// only fails if opening failed
								} else if stillOpen {
									ok, why = false, "the database stays open although opening the store fails"
								}
							}
						}
						if ok && (er == nil || !st.holds(mkEq(er, mkNil()), false)) {
							if !kept {
								ok, why = false, "the opened database is not the one the returned store keeps"
							} else if !stillOpen {
								ok, why = false, "the returned store keeps a closed database"
							}
						}
						c.ob("opened-database-kept-or-closed", fnName(fn)+" "+o.val.String(), ok)
						if !ok {
							st.report("C18:open:"+fnName(fn), ins, "%s", why)
						}
						delete(s.open, h)
					}
					for t, what := range s.open {
						_ = t
						c.ob("released", fnName(fn)+" "+what, false)
						st.report("C18:leak:"+fnName(fn), ins, "what %s opened is not released on this path", what)
					}
					if len(s.open) == 0 {
						c.ob("released", fnName(fn)+" leaves nothing open", true)
					}
					if fn.Name() == "Close" && fn.Signature.Recv() != nil {
						n := 0
						for _, o := range s.ops {
							if o.kind == "close" && contains(o.key, st.stack[0].args[0]) {
								n++
							}
						}
						c.ob("close-closes", fnName(fn), n >= 1)
						if n == 0 {
							st.report("C18:close:"+fnName(fn), ins, "closing the store does not close its database on this path")
						}
					}
				},
			})
			c.need("released", 3)
			c.need("close-closes", 1)
			c.need("opened-database-kept-or-closed", 1)
		})

	register("C19", "Typestate on cursors: iteration starts with a move to the first entry; the visitor is called only at a position known to be valid, with the key and the value of that very position, at most once per position; the cursor moves on only from a visited position (so no entry is skipped) and only while the visitor has not failed; success is returned only when the cursor is known to be exhausted, and a visitor error is returned as it is.",
		func(c *Ctx) {
			needStores(c)
			roots := storeRoots(c, "ForEach")
			runStore(c, roots, &storeRule{
				move: func(st *State, s *storeSt, op dbOp, ci *CallInfo) {
					bad := ""
					switch op.meth {
					case "First", "Rewind":
						if s.pos != 0 {
							bad = "the iteration starts over"
						}
					case "Next":
						switch {
						case s.pos == 0 && op.lib != "leveldb":
							bad = "the first entry is never visited: the cursor is moved on before it was placed"
						case s.pos == 1 && s.valid != nil && st.holds(s.valid, false):
						case s.pos == 1:
							bad = "an entry is skipped: the cursor moves on from a position that was not visited"
						case s.pos == 2 && s.vErr != nil && !st.holds(mkEq(s.vErr, mkNil()), true):
							bad = "the iteration goes on although the visitor may have failed"
						}
					default:
						bad = "the cursor is moved by " + op.meth + ", so entries may be skipped or repeated"
					}
					c.ob("cursor-move", fnName(st.stack[0].fn)+" "+op.String()+" at "+c.P.pos(insPos(ci.Instr)), bad == "")
					if bad != "" {
						st.report("C19:move:"+fnName(st.stack[0].fn), ci.Instr, "%s", bad)
					}
				},
				visitor: func(st *State, s *storeSt, ci *CallInfo, k, v *Term) {
					bad := ""
					ks, _ := st.copied(k)
					vs, _ := st.copied(v)
					switch {
					case s.cur == nil:
						bad = "the visitor is called without a cursor"
					case s.pos == 2:
						bad = "the visitor is called twice for one entry"
					case s.pos == 0:
						bad = "the visitor is called before the cursor was placed"
					case s.valid == nil || !st.holds(s.valid, true):
						bad = "the visitor is called at a position that may be past the end"
					case !s.keys[ks] && !s.keys[k]:
						bad = fmt.Sprintf("the key handed to the visitor, %v, is not that of the current entry", k)
					case !s.vals[vs] && !s.vals[v]:
						bad = fmt.Sprintf("the value handed to the visitor, %v, is not that of the current entry", v)
					}
					c.ob("visit", fnName(st.stack[0].fn)+" at "+c.P.pos(insPos(ci.Instr)), bad == "")
					if bad != "" {
						st.report("C19:visit:"+fnName(st.stack[0].fn), ci.Instr, "%s", bad)
					}
				},
				backedge: func(st *State, s *storeSt, phis, vals []*Term, ins ssa.Instruction) {
					if s.vErr == nil || st.holds(mkEq(s.vErr, mkNil()), true) {
						return
					}
					for _, v := range vals {
						if v == s.vErr {
							return
						}
					}
					st.report("C19:stop:"+fnName(st.stack[0].fn), ins, "the iteration goes on although the visitor may have failed")
				},
				ret: func(st *State, s *storeSt, fn *ssa.Function, res []*Term, ins ssa.Instruction) {
					er := errResult(fn, res)
					bad := ""
					x := st.clone()
					if s.vErr != nil && x.assume(mkEq(s.vErr, mkNil()), false) {
						if !(er == s.vErr || x.same(er, s.vErr)) {
							bad = "the visitor's error is not what is returned"
						}
					}
					y := st.clone()
					if bad == "" && !s.whole && y.assume(mkEq(er, mkNil()), true) {
						// success
						done := s.cur != nil && s.pos == 1 && s.valid != nil && y.holds(s.valid, false)
						if !done && !(s.vErr != nil && er == s.vErr && !y.holds(mkEq(s.vErr, mkNil()), true)) {
							bad = "success is reported before the last entry was visited"
						}
					}
					c.ob("complete", fnName(fn)+" at "+c.P.pos(insPos(ins)), bad == "")
					if bad != "" {
						st.report("C19:return:"+fnName(fn), ins, "%s", bad)
					}
				},
			})
			c.need("complete", 1)
			c.need("visit", 1)
			c.need("cursor-move", 1)
		}, "the storage libraries' cursors visit entries in key order, each once (library contract)")

	register("C20", "Case analysis of each backend's existence check over the outcomes of the library's lookup (present, absent, failed): for each outcome that a path does not exclude, the answer returned is proved to be (true, nil), (false, nil) or a non-nil error.",
		func(c *Ctx) {
			needStores(c)
			roots := storeRoots(c, "Has")
			cases := map[string]bool{}
			runStore(c, roots, &storeRule{
				ret: func(st *State, s *storeSt, fn *ssa.Function, res []*Term, ins ssa.Instruction) {
					if len(res) != 2 {
						return
					}
					var op *storeOp
					for i := range s.ops {
						if s.ops[i].kind == "read" || s.ops[i].kind == "has" {
							op = &s.ops[i]
						}
					}
					fail := func(outcome, why string) {
						c.ob("existence-answer", fnName(fn)+" "+outcome, false)
						st.report("C20:"+outcome+":"+fnName(fn), ins, "%s", why)
					}
					ok := func(outcome string) {
						cases[fnName(fn)+" "+outcome] = true
						c.ob("existence-answer", fnName(fn)+" "+outcome, true)
					}
					isNil := mkEq(res[1], mkNil())
					if op == nil {
						if !st.holds(isNil, false) {
							fail("nolookup", "the check may answer without looking the key up")
						}
						return
					}
					try := func(outcome string, conds []*Term, vals []bool, want string) {
						x := st.clone()
						for i, t := range conds {
							if !x.assume(t, vals[i]) {
								return
							}
						}
						switch want {
						case "true", "false":
							// another step of the check may fail
							for _, e := range s.errs {
								if e != op.err && !(op.err != nil && x.same(e, op.err)) {
									if !x.assume(mkEq(e, mkNil()), true) {
										return
									}
								}
							}
							if !x.holds(isNil, true) || !x.holds(res[0], want == "true") {
								fail(outcome, fmt.Sprintf("for a key that is %s the check does not answer (%s, nil)", outcome, want))
								return
							}
						case "error":
							if !x.holds(isNil, false) {
								fail(outcome, "a failed lookup is not answered with an error")
								return
							}
						}
						ok(outcome)
					}
					var errNil *Term
					if op.err != nil {
						errNil = mkEq(op.err, mkNil())
					}
					if op.kind == "has" && op.err != nil {
						try("present", []*Term{errNil, op.res}, []bool{true, true}, "true")
						try("absent", []*Term{errNil, op.res}, []bool{true, false}, "false")
						try("failed", []*Term{errNil}, []bool{false}, "error")
						return
					}
					if op.err != nil {
						nf := st.notFoundCase(op.err)
						if nf != 1 {
							try("present", []*Term{errNil}, []bool{true}, "true")
						}
						if nf != 0 && !st.holds(errNil, true) {
							try("absent", []*Term{errNil}, []bool{false}, "false")
						}
						if nf != 1 {
							try("failed", []*Term{errNil}, []bool{false}, "error")
						}
						return
					}
					valNil := mkEq(op.res, mkNil())
					try("present", []*Term{valNil}, []bool{false}, "true")
					try("absent", []*Term{valNil}, []bool{true}, "false")
					for _, e := range s.errs {
						try("failed", []*Term{mkEq(e, mkNil())}, []bool{false}, "error")
					}
				},
			})
			for _, f := range roots {
				for _, o := range []string{"present", "absent", "failed"} {
					if !cases[fnName(f)+" "+o] && len(c.viol) == 0 {
						c.violateFn("C20:case:"+o+":"+fnName(f), f, "no path of the existence check answers for a key that is %s", o)
					}
				}
			}
			c.need("existence-answer", 3)
		}, "leveldb's Has answers (false, nil) for an absent key; badger reports ErrKeyNotFound; bbolt's Bucket.Get returns nil exactly for an absent key (library documentation)")
}

func containsTxn(t *Term, s *storeSt) bool {
	for x := range s.txn {
		if contains(t, x) {
			return true
		}
	}
	return false
}

// ownBytes: the bytes handed back are the looked-up value in memory of their own.
func ownBytes(st *State, s *storeSt, rd []storeOp, r *Term) string {
	src, fresh := st.copied(r)
	for _, o := range rd {
		if o.err == nil {
			// bbolt: bytes of the transaction
			if src == o.res && src != nil {
				if !fresh {
					return "the bytes handed back belong to the transaction, which has ended"
				}
				return ""
			}
			if (src == nil || src.isNil() || src.op == OpZero || st.holds(mkEq(r, mkNil()), true)) && st.holds(mkEq(o.res, mkNil()), true) {
				return ""
			}
			continue
		}
		if src == o.res {
			if o.res != nil && o.res.typ != nil {
				if _, ok := o.res.typ.Underlying().(*types.Slice); ok {
					return "" // leveldb: the library returns a copy
				}
			}
		}
		for _, cp := range s.ops {
			if cp.kind == "itemval" && cp.key == o.res && cp.res == src {
				if !fresh {
					return "the bytes handed back belong to the transaction, which has ended"
				}
				return ""
			}
			if cp.kind == "itemcopy" && cp.key == o.res && cp.res == src {
				if cp.val == nil || cp.val.isNil() || cp.val.op == OpZero || !sharedBase(cp.val) {
					return ""
				}
				return "the bytes handed back are in a buffer that is shared with other calls"
			}
		}
	}
	return fmt.Sprintf("what is handed back, %v, is not the value looked up", r)
}

// handleKept: the store returned keeps the handle.
func handleKept(st *State, r, h *Term) bool {
	r = unwrapIface(r)
	if contains(r, h) {
		return true
	}
	for l, v := range st.mem {
		if v == h && rootOf(l) == rootOf(r) {
			return true
		}
	}
	if r.typ != nil {
		el := ptrElem(r.typ)
		if el != nil {
			if s, ok := el.Underlying().(*types.Struct); ok {
				for i := 0; i < s.NumFields(); i++ {
					if st.load(mkFieldAddr(r, el, i), s.Field(i).Type()) == h {
						return true
					}
				}
			}
		}
	}
	return false
}
