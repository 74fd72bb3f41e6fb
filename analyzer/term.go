package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Op is the kind of a symbolic term. Terms are hash-consed: two terms built
// from equal parts are the same pointer.
type Op uint8

const (
	OpConst Op = iota
	OpParam
	OpGlobal
	OpFunc
	OpClosure
	OpBuiltin
	OpAlloc
	OpFieldAddr
	OpIndexAddr
	OpField
	OpIndex
	OpLoad
	OpMapCell
	OpMapVal
	OpMapOk
	OpCall
	OpExtract
	OpAdd
	OpSub
	OpMul
	OpArith // other arithmetic, aux = operator
	OpLt
	OpEq
	OpNot
	OpLen
	OpCap
	OpSlice
	OpAppend
	OpAppendAll // append(base, other...)
	OpMake
	OpMakeIface
	OpConvert
	OpPhi
	OpRangeKey
	OpRangeVal
	OpRangeOk
	OpRange
	OpRecv
	OpAssert
	OpAssertOk
	OpStruct
	OpTuple
	OpHavoc
	OpHole
	OpConcat // string +
	OpAbsent
	OpZero
)

var opNames = map[Op]string{OpConst: "const", OpParam: "param", OpGlobal: "global", OpFunc: "func", OpClosure: "closure",
	OpBuiltin: "builtin", OpAlloc: "alloc", OpFieldAddr: "&.", OpIndexAddr: "&[]", OpField: ".", OpIndex: "[]", OpLoad: "load",
	OpMapCell: "mapcell", OpMapVal: "mapval", OpMapOk: "mapok", OpCall: "call", OpExtract: "extract", OpAdd: "+", OpSub: "-",
	OpMul: "*", OpArith: "arith", OpLt: "<", OpEq: "==", OpNot: "!", OpLen: "len", OpCap: "cap", OpSlice: "slice", OpAppend: "append",
	OpAppendAll: "append...", OpMake: "make", OpMakeIface: "iface", OpConvert: "convert", OpPhi: "phi", OpRangeKey: "rangekey",
	OpRangeVal: "rangeval", OpRangeOk: "rangeok", OpRange: "range", OpRecv: "recv", OpAssert: "assert", OpAssertOk: "assertok",
	OpStruct: "struct", OpTuple: "tuple", OpHavoc: "havoc", OpHole: "hole", OpConcat: "concat", OpAbsent: "absent", OpZero: "zero"}

type Term struct {
	op   Op
	args []*Term
	aux  string
	typ  types.Type
	id   int
	cv   constant.Value
	obj  any
}

type Interner struct {
	tab map[string]*Term
	n   int
}

var in = &Interner{tab: map[string]*Term{}}

func mk(op Op, typ types.Type, aux string, args ...*Term) *Term {
	var b strings.Builder
	fmt.Fprintf(&b, "%d|%s|", op, aux)
	for _, a := range args {
		fmt.Fprintf(&b, "%d,", a.id)
	}
	switch op {
	case OpConst, OpConvert, OpAssert, OpAssertOk, OpMakeIface, OpZero, OpHole:
		if typ != nil {
			b.WriteString(typ.String())
		}
	}
	k := b.String()
	if t, ok := in.tab[k]; ok {
		return t
	}
	in.n++
	t := &Term{op: op, args: args, aux: aux, typ: typ, id: in.n}
	in.tab[k] = t
	return t
}

func (t *Term) String() string { return t.str(0) }

func (t *Term) str(d int) string {
	if t == nil {
		return "<nil>"
	}
	if d > 8 {
		return "…"
	}
	a := func(i int) string { return t.args[i].str(d + 1) }
	switch t.op {
	case OpConst:
		return t.aux
	case OpParam, OpGlobal, OpFunc:
		return t.aux
	case OpFieldAddr, OpField:
		return a(0) + "." + fieldName(t)
	case OpIndexAddr, OpIndex:
		return a(0) + "[" + a(1) + "]"
	case OpLoad:
		return "*" + a(0)
	case OpAdd, OpSub, OpMul, OpLt, OpEq, OpConcat:
		return "(" + a(0) + opNames[t.op] + a(1) + ")"
	case OpNot:
		return "!" + a(0)
	case OpMapVal:
		return a(0) + "[" + a(1) + "]"
	case OpMapOk:
		return "has(" + a(0) + "," + a(1) + ")"
	}
	var s []string
	for i := range t.args {
		s = append(s, a(i))
	}
	aux := t.aux
	if t.op == OpPhi || t.op == OpAlloc || t.op == OpMake || t.op == OpRangeKey || t.op == OpRangeVal || t.op == OpHavoc || t.op == OpRecv {
		if i := strings.LastIndex(aux, "/"); i >= 0 {
			aux = aux[i+1:]
		}
		return opNames[t.op] + "<" + aux + ">"
	}
	return opNames[t.op] + ":" + aux + "(" + strings.Join(s, ", ") + ")"
}

func fieldName(t *Term) string {
	if i := strings.LastIndex(t.aux, "."); i >= 0 {
		return t.aux[i+1:]
	}
	return t.aux
}

// ---- constants

var (
	tBool   = types.Typ[types.Bool]
	tInt    = types.Typ[types.Int]
	tString = types.Typ[types.String]
)

func mkConst(v constant.Value, typ types.Type) *Term {
	aux := "nil"
	if v != nil {
		aux = v.ExactString()
	}
	tt := typ
	if v != nil {
		// Named basic types compare by value: keep only the underlying basic type.
		if b, ok := typ.Underlying().(*types.Basic); ok {
			switch {
			case b.Info()&types.IsInteger != 0:
				tt = tInt
			case b.Info()&types.IsBoolean != 0:
				tt = tBool
			case b.Info()&types.IsString != 0:
				tt = tString
			}
		}
	} else {
		tt = types.Typ[types.UntypedNil]
		if _, ok := typ.Underlying().(*types.Basic); ok {
			tt = typ
		}
	}
	t := mk(OpConst, tt, aux)
	t.cv = v
	return t
}

func mkInt(n int64) *Term   { return mkConst(constant.MakeInt64(n), tInt) }
func mkBool(b bool) *Term   { return mkConst(constant.MakeBool(b), tBool) }
func mkStr(s string) *Term  { return mkConst(constant.MakeString(s), tString) }
func mkNil() *Term          { return mkConst(nil, types.Typ[types.UntypedNil]) }
func (t *Term) isNil() bool { return t.op == OpConst && t.cv == nil }
func (t *Term) isConst() bool {
	return t.op == OpConst
}
func (t *Term) boolVal() (bool, bool) {
	if t.op == OpConst && t.cv != nil && t.cv.Kind() == constant.Bool {
		return constant.BoolVal(t.cv), true
	}
	return false, false
}
func (t *Term) intVal() (int64, bool) {
	if t.op == OpConst && t.cv != nil && t.cv.Kind() == constant.Int {
		return constant.Int64Val(t.cv)
	}
	return 0, false
}

func isIntType(t types.Type) bool {
	if t == nil {
		return false
	}
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsInteger != 0
}
func isUnsigned(t types.Type) bool {
	if t == nil {
		return false
	}
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsUnsigned != 0
}
func isStringType(t types.Type) bool {
	if t == nil {
		return false
	}
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsString != 0
}

// zeroOf builds the zero value of a type; module structs are expanded field by field.
func zeroOf(typ types.Type) *Term {
	switch u := typ.Underlying().(type) {
	case *types.Basic:
		switch {
		case u.Info()&types.IsBoolean != 0:
			return mkBool(false)
		case u.Info()&types.IsString != 0:
			return mkStr("")
		case u.Info()&types.IsInteger != 0:
			return mkInt(0)
		case u.Info()&types.IsNumeric != 0:
			return mkConst(constant.MakeInt64(0), typ)
		}
		return mk(OpZero, typ, typ.String())
	case *types.Struct:
		if expandStruct(typ) {
			var fs []*Term
			for i := 0; i < u.NumFields(); i++ {
				fs = append(fs, zeroOf(u.Field(i).Type()))
			}
			return mkStruct(typ, fs)
		}
		return mk(OpZero, typ, typ.String())
	case *types.Array:
		return mk(OpZero, typ, typ.String())
	}
	return mkNil()
}

// expandStruct says whether values of the struct type are modelled field by field.
func expandStruct(typ types.Type) bool {
	st, ok := typ.Underlying().(*types.Struct)
	if !ok || st.NumFields() > 40 {
		return false
	}
	if n, ok := typ.(*types.Named); ok {
		return n.Obj().Pkg() != nil && strings.HasPrefix(n.Obj().Pkg().Path(), modPath)
	}
	if a, ok := typ.(*types.Alias); ok {
		return expandStruct(types.Unalias(a))
	}
	return true
}

func mkStruct(typ types.Type, fs []*Term) *Term {
	// eta: Struct(x.0, ..., x.n) = x
	if len(fs) > 0 && fs[0].op == OpField {
		x := fs[0].args[0]
		ok := true
		for i, f := range fs {
			if f.op != OpField || f.args[0] != x || f.obj.(int) != i {
				ok = false
				break
			}
		}
		if ok && x.typ != nil && types.Identical(x.typ, typ) {
			return x
		}
	}
	return mk(OpStruct, typ, typ.String(), fs...)
}

func structTypeName(typ types.Type) string {
	typ = types.Unalias(typ)
	if n, ok := typ.(*types.Named); ok {
		if n.Obj().Pkg() != nil {
			p := n.Obj().Pkg().Path()
			p = strings.TrimPrefix(p, modPath+"/")
			if p == modPath {
				p = "riot"
			}
			return p + "." + n.Obj().Name()
		}
		return n.Obj().Name()
	}
	if n, ok := anonNames[typ.Underlying()]; ok {
		return n
	}
	return typ.String()
}

// anonNames gives anonymous struct types of named struct fields a readable
// name such as core.Indexer.tableLock; filled by the loader.
var anonNames = map[types.Type]string{}

func mkField(x *Term, styp types.Type, i int) *Term {
	st := styp.Underlying().(*types.Struct)
	if x.op == OpStruct && len(x.args) == st.NumFields() {
		return x.args[i]
	}
	if x.op == OpZero {
		return zeroOf(st.Field(i).Type())
	}
	t := mk(OpField, st.Field(i).Type(), structTypeName(styp)+"."+st.Field(i).Name(), x)
	t.obj = i
	return t
}

func mkFieldAddr(base *Term, styp types.Type, i int) *Term {
	st := styp.Underlying().(*types.Struct)
	t := mk(OpFieldAddr, types.NewPointer(st.Field(i).Type()), structTypeName(styp)+"."+st.Field(i).Name(), base)
	t.obj = i
	return t
}

func mkIndexAddr(base, idx *Term, elem types.Type) *Term {
	// Normalise indexing of a re-sliced slice: s[lo:][i] is s[lo+i].
	for base.op == OpSlice && base.args[1] != nil {
		lo := base.args[1]
		idx = mkAdd(lo, idx)
		base = base.args[0]
	}
	return mk(OpIndexAddr, types.NewPointer(elem), "", base, idx)
}

// ---- arithmetic and booleans

func mkAdd(a, b *Term) *Term {
	if x, ok := a.intVal(); ok {
		if y, ok := b.intVal(); ok {
			return mkInt(x + y)
		}
		a, b = b, a
	}
	if y, ok := b.intVal(); ok {
		if y == 0 {
			return a
		}
		if a.op == OpAdd {
			if x, ok := a.args[1].intVal(); ok {
				return mkAdd(a.args[0], mkInt(x+y))
			}
		}
		return mk(OpAdd, a.typ, "", a, b)
	}
	if a.op == OpSub && a.args[1] == b {
		return a.args[0]
	}
	if b.op == OpSub && b.args[1] == a {
		return b.args[0]
	}
	if a.id > b.id {
		a, b = b, a
	}
	return mk(OpAdd, a.typ, "", a, b)
}

func mkSub(a, b *Term) *Term {
	if y, ok := b.intVal(); ok {
		return mkAdd(a, mkInt(-y))
	}
	if a == b {
		return mkInt(0)
	}
	if a.op == OpAdd {
		if y, ok := a.args[1].intVal(); ok {
			return mkAdd(mkSub(a.args[0], b), mkInt(y))
		}
		if a.args[0] == b {
			return a.args[1]
		}
		if a.args[1] == b {
			return a.args[0]
		}
	}
	if b.op == OpAdd {
		if y, ok := b.args[1].intVal(); ok {
			return mkAdd(mkSub(a, b.args[0]), mkInt(-y))
		}
	}
	return mk(OpSub, a.typ, "", a, b)
}

func mkNot(t *Term) *Term {
	if b, ok := t.boolVal(); ok {
		return mkBool(!b)
	}
	if t.op == OpNot {
		return t.args[0]
	}
	return mk(OpNot, tBool, "", t)
}

func mkLt(a, b *Term) *Term {
	if a == b {
		return mkBool(false)
	}
	if a.op == OpConst && b.op == OpConst && a.cv != nil && b.cv != nil && a.cv.Kind() == b.cv.Kind() {
		return mkBool(constant.Compare(a.cv, token.LSS, b.cv))
	}
	return mk(OpLt, tBool, "", a, b)
}

func nonNil(t *Term) bool {
	switch t.op {
	case OpAlloc, OpFieldAddr, OpIndexAddr, OpMake, OpMakeIface, OpClosure, OpFunc, OpGlobal, OpAppend:
		return true
	case OpCall:
		return t.aux == "errors.New" || strings.HasPrefix(t.aux, "errors.New#") || strings.HasPrefix(t.aux, "fmt.Errorf")
	}
	return false
}

func mkEq(a, b *Term) *Term {
	if a == b {
		return mkBool(true)
	}
	if a.op == OpConst && b.op != OpConst {
		a, b = b, a
	}
	if b.op == OpConst {
		if a.op == OpConst {
			if a.cv == nil || b.cv == nil {
				return mkBool(a.cv == nil && b.cv == nil)
			}
			if a.cv.Kind() == b.cv.Kind() {
				return mkBool(constant.Compare(a.cv, token.EQL, b.cv))
			}
			return mk(OpEq, tBool, "", a, b)
		}
		if v, ok := b.boolVal(); ok {
			if v {
				return a
			}
			return mkNot(a)
		}
		if b.isNil() && nonNil(a) {
			return mkBool(false)
		}
		// string(x) == "" is len(x) == 0 for byte slices and strings.
		if b.cv != nil && b.cv.Kind() == constant.String && constant.StringVal(b.cv) == "" {
			x := a
			if x.op == OpConvert && x.args[0].typ != nil {
				x = x.args[0]
			}
			return mkEq(mkLen(x), mkInt(0))
		}
		if b.cv != nil && b.cv.Kind() == constant.Int {
			if a.op == OpAdd {
				if c, ok := a.args[1].intVal(); ok {
					if n, ok := b.intVal(); ok {
						return mkEq(a.args[0], mkInt(n-c))
					}
				}
			}
		}
		return mk(OpEq, tBool, "", a, b)
	}
	if a.id > b.id {
		a, b = b, a
	}
	return mk(OpEq, tBool, "", a, b)
}

func mkLen(x *Term) *Term {
	switch x.op {
	case OpConst:
		if x.cv == nil {
			return mkInt(0)
		}
		if x.cv.Kind() == constant.String {
			return mkInt(int64(len(constant.StringVal(x.cv))))
		}
	case OpAppend:
		return mkAdd(mkLen(x.args[0]), mkInt(int64(len(x.args)-1)))
	case OpAppendAll:
		return mkAdd(mkLen(x.args[0]), mkLen(x.args[1]))
	case OpSlice:
		return mkSub(x.args[2], x.args[1])
	case OpMake:
		if len(x.args) > 0 {
			return x.args[0]
		}
	case OpConvert:
		if x.args[0].typ != nil && isBytesOrString(x.args[0].typ) && isBytesOrString(x.typ) {
			return mkLen(x.args[0])
		}
	case OpZero:
		if at, ok := x.typ.Underlying().(*types.Array); ok {
			return mkInt(at.Len())
		}
	}
	return mk(OpLen, tInt, "", x)
}

func isBytesOrString(t types.Type) bool {
	if isStringType(t) {
		return true
	}
	s, ok := t.Underlying().(*types.Slice)
	if !ok {
		return false
	}
	b, ok := s.Elem().Underlying().(*types.Basic)
	return ok && b.Kind() == types.Uint8
}

// ---- substitution and containment

func contains(t, x *Term) bool {
	seen := map[*Term]bool{}
	var w func(t *Term) bool
	w = func(t *Term) bool {
		if t == x {
			return true
		}
		if seen[t] {
			return false
		}
		seen[t] = true
		for _, a := range t.args {
			if a != nil && w(a) {
				return true
			}
		}
		return false
	}
	return w(t)
}

func containsAny(t *Term, xs map[*Term]bool) bool {
	seen := map[*Term]bool{}
	var w func(t *Term) bool
	w = func(t *Term) bool {
		if xs[t] {
			return true
		}
		if seen[t] {
			return false
		}
		seen[t] = true
		for _, a := range t.args {
			if a != nil && w(a) {
				return true
			}
		}
		return false
	}
	return w(t)
}

func visit(t *Term, f func(*Term)) {
	seen := map[*Term]bool{}
	var w func(t *Term)
	w = func(t *Term) {
		if t == nil || seen[t] {
			return
		}
		seen[t] = true
		f(t)
		for _, a := range t.args {
			w(a)
		}
	}
	w(t)
}

// subst rebuilds t with the replacements of m, re-simplifying on the way up.
func subst(t *Term, m map[*Term]*Term) *Term {
	memo := map[*Term]*Term{}
	var w func(t *Term) *Term
	w = func(t *Term) *Term {
		if r, ok := m[t]; ok {
			return r
		}
		if len(t.args) == 0 {
			return t
		}
		if r, ok := memo[t]; ok {
			return r
		}
		args := make([]*Term, len(t.args))
		ch := false
		for i, a := range t.args {
			args[i] = w(a)
			if args[i] != a {
				ch = true
			}
		}
		r := t
		if ch {
			r = rebuild(t, args)
		}
		memo[t] = r
		return r
	}
	return w(t)
}

func rebuild(t *Term, args []*Term) *Term {
	switch t.op {
	case OpAdd:
		return mkAdd(args[0], args[1])
	case OpSub:
		return mkSub(args[0], args[1])
	case OpLt:
		return mkLt(args[0], args[1])
	case OpEq:
		return mkEq(args[0], args[1])
	case OpNot:
		return mkNot(args[0])
	case OpLen:
		return mkLen(args[0])
	case OpIndexAddr:
		return mkIndexAddr(args[0], args[1], t.typ.Underlying().(*types.Pointer).Elem())
	case OpField:
		if args[0].op == OpStruct {
			return args[0].args[t.obj.(int)]
		}
	}
	r := mk(t.op, t.typ, t.aux, args...)
	if r.obj == nil {
		r.obj = t.obj
	}
	if r.cv == nil {
		r.cv = t.cv
	}
	return r
}

// rootOf strips field and index steps from a location.
func rootOf(loc *Term) *Term {
	for loc.op == OpFieldAddr || loc.op == OpIndexAddr || loc.op == OpSlice {
		loc = loc.args[0]
	}
	return loc
}

func posStr(p token.Position) string {
	f := p.Filename
	f = strings.TrimPrefix(f, repoDir+"/")
	return fmt.Sprintf("%s:%d", f, p.Line)
}

func fnName(f *ssa.Function) string {
	if f == nil {
		return "?"
	}
	s := f.String()
	s = strings.ReplaceAll(s, modPath+"/", "")
	s = strings.ReplaceAll(s, modPath, "riot")
	return s
}
