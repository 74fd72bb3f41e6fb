package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// fref is one step of the way to a value: a field of a message.
type fref struct {
	owner *types.Named
	name  string
}

type fpath []fref

func (p fpath) String() string {
	var b []string
	for i, r := range p {
		if i == 0 {
			b = append(b, r.owner.Obj().Name())
		}
		b = append(b, r.name)
	}
	return strings.Join(b, ".")
}

func (p fpath) last() fref { return p[len(p)-1] }

// fctx is the call a helper is looked at through.
type fctx struct {
	fn   *ssa.Function
	call *ssa.CallCommon
	up   *fctx
}

// fields finds the message fields that values come from.
type fields struct {
	c       *Ctx
	callers map[*ssa.Function][]*ssa.CallCommon
	helper  map[*ssa.Function]bool
}

func newFields(c *Ctx) *fields {
	f := &fields{c: c, callers: map[*ssa.Function][]*ssa.CallCommon{}, helper: c.onlyCalled()}
	for _, g := range c.P.Fns {
		for _, b := range g.Blocks {
			for _, ins := range b.Instrs {
				if ci, ok := ins.(ssa.CallInstruction); ok {
					if h := ci.Common().StaticCallee(); h != nil {
						f.callers[h] = append(f.callers[h], ci.Common())
					}
				}
			}
		}
	}
	return f
}

func namedStruct(t types.Type) (*types.Named, *types.Struct) {
	t = types.Unalias(t)
	if p, ok := t.Underlying().(*types.Pointer); ok {
		t = types.Unalias(p.Elem())
	}
	n, ok := t.(*types.Named)
	if !ok {
		return nil, nil
	}
	s, _ := n.Underlying().(*types.Struct)
	return n, s
}

func fieldOf(s *types.Struct, name string) *types.Var {
	for i := 0; s != nil && i < s.NumFields(); i++ {
		if s.Field(i).Name() == name {
			return s.Field(i)
		}
	}
	return nil
}

// holdsStruct: values of the type are, or are made of, structs (or anything).
func holdsStruct(t types.Type) bool {
	switch x := t.Underlying().(type) {
	case *types.Struct, *types.Interface:
		return true
	case *types.Pointer:
		return holdsStruct(x.Elem())
	case *types.Slice:
		return holdsStruct(x.Elem())
	case *types.Array:
		return holdsStruct(x.Elem())
	}
	return false
}

// otherName: what the field is called on the other side, where the names differ.
var otherName = map[string]string{"SearchReq.Text": "Query", "Text.Id": "DocId"}

type fseen struct {
	v  ssa.Value
	cx *fctx
}

// from lists the ways to the fields that v may hold.
func (f *fields) from(v ssa.Value, cx *fctx, seen map[fseen]bool) (out []fpath) {
	k := fseen{v, cx}
	if v == nil || seen[k] {
		return nil
	}
	seen[k] = true
	defer delete(seen, k)
	step := func(x ssa.Value, i int) {
		n, s := namedStruct(x.Type())
		if n == nil || s == nil {
			if st := structOf(x.Type()); st != nil {
				out = append(out, f.from(x, cx, seen)...)
			}
			return
		}
		r := fref{n, s.Field(i).Name()}
		base := f.from(x, cx, seen)
		if len(base) == 0 {
			base = []fpath{nil}
		}
		for _, b := range base {
			if len(b) > 4 {
				continue
			}
			out = append(out, append(append(fpath{}, b...), r))
		}
	}
	stores := func(a ssa.Value, top bool) {
		var visit func(a ssa.Value)
		visit = func(a ssa.Value) {
			if a.Referrers() == nil {
				return
			}
			for _, r := range *a.Referrers() {
				switch x := r.(type) {
				case *ssa.Store:
					if x.Addr == a {
						out = append(out, f.from(x.Val, cx, seen)...)
					}
				case *ssa.FieldAddr:
					visit(x)
				case *ssa.IndexAddr:
					if x.X == a {
						visit(x)
					}
				case *ssa.MapUpdate:
					if x.Map == a {
						out = append(out, f.from(x.Value, cx, seen)...)
						out = append(out, f.from(x.Key, cx, seen)...)
					}
				}
			}
		}
		visit(a)
	}
	switch x := v.(type) {
	case *ssa.Parameter:
		fn := x.Parent()
		idx := -1
		for i, p := range fn.Params {
			if p == x {
				idx = i
			}
		}
		if cx != nil && cx.fn == fn {
			return f.from(cx.call.Args[idx], cx.up, seen)
		}
		if f.helper[fn] {
			for _, cc := range f.callers[fn] {
				out = append(out, f.from(cc.Args[idx], nil, seen)...)
			}
		}
	case *ssa.Phi:
		for _, e := range x.Edges {
			out = append(out, f.from(e, cx, seen)...)
		}
	case *ssa.Convert:
		return f.from(x.X, cx, seen)
	case *ssa.ChangeType:
		return f.from(x.X, cx, seen)
	case *ssa.MakeInterface:
		return f.from(x.X, cx, seen)
	case *ssa.TypeAssert:
		return f.from(x.X, cx, seen)
	case *ssa.Extract:
		if _, ok := x.Tuple.(*ssa.TypeAssert); ok && x.Index == 1 {
			return nil
		}
		if call, ok := x.Tuple.(*ssa.Call); ok {
			return f.result(call, x.Index, cx, seen)
		}
		return f.from(x.Tuple, cx, seen)
	case *ssa.Next:
		return f.from(x.Iter, cx, seen)
	case *ssa.Range:
		return f.from(x.X, cx, seen)
	case *ssa.Slice:
		return f.from(x.X, cx, seen)
	case *ssa.Index:
		return f.from(x.X, cx, seen)
	case *ssa.IndexAddr:
		return f.from(x.X, cx, seen)
	case *ssa.Lookup:
		return f.from(x.X, cx, seen)
	case *ssa.Field:
		step(x.X, x.Field)
	case *ssa.FieldAddr:
		if a, ok := x.X.(*ssa.Alloc); ok && f.filled(a, x.Field, cx, seen, &out) {
			return out
		}
		step(x.X, x.Field)
	case *ssa.UnOp:
		if x.Op == token.MUL {
			return f.from(x.X, cx, seen)
		}
	case *ssa.Alloc, *ssa.MakeMap, *ssa.MakeSlice:
		stores(x, true)
	case *ssa.Call:
		return f.result(x, 0, cx, seen)
	}
	return out
}

// filled: the field of a local struct that the function itself fills: what is stored there.
func (f *fields) filled(a *ssa.Alloc, field int, cx *fctx, seen map[fseen]bool, out *[]fpath) bool {
	any := false
	for _, r := range *a.Referrers() {
		switch x := r.(type) {
		case *ssa.FieldAddr:
			if x.Field != field {
				continue
			}
			for _, r2 := range *x.Referrers() {
				if s, ok := r2.(*ssa.Store); ok && s.Addr == x {
					any = true
					*out = append(*out, f.from(s.Val, cx, seen)...)
				}
			}
		}
	}
	return any
}

func (f *fields) result(call *ssa.Call, idx int, cx *fctx, seen map[fseen]bool) (out []fpath) {
	cc := &call.Call
	if b, ok := cc.Value.(*ssa.Builtin); ok {
		if b.Name() == "append" {
			for _, a := range cc.Args {
				out = append(out, f.from(a, cx, seen)...)
			}
		}
		return out
	}
	g := cc.StaticCallee()
	if g == nil {
		return nil
	}
	if strings.HasPrefix(g.Name(), "Get") && len(cc.Args) == 1 && g.Signature.Recv() != nil {
		n, s := namedStruct(g.Signature.Recv().Type())
		if n != nil && fieldOf(s, g.Name()[3:]) != nil && generated(g) {
			base := f.from(cc.Args[0], cx, seen)
			if len(base) == 0 {
				base = []fpath{nil}
			}
			for _, b := range base {
				out = append(out, append(append(fpath{}, b...), fref{n, g.Name()[3:]}))
			}
			return out
		}
	}
	if !inModule(g) || !strings.HasPrefix(relOf(g), "net") {
		// a library's rendering of a field is still the field (strconv, strings, ...)
		if !inModule(g) && g.Pkg != nil && (g.Pkg.Pkg.Path() == "strconv" || g.Pkg.Pkg.Path() == "strings" || g.Pkg.Pkg.Path() == "fmt") {
			for _, a := range cc.Args {
				out = append(out, f.from(a, cx, seen)...)
			}
		}
		return out
	}
	depth := 0
	for p := cx; p != nil; p = p.up {
		if p.fn == g {
			return nil
		}
		depth++
	}
	if depth > 6 {
		return nil
	}
	in := &fctx{g, cc, cx}
	for _, b := range g.Blocks {
		if r, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return); ok && idx < len(r.Results) {
			out = append(out, f.from(r.Results[idx], in, seen)...)
		}
	}
	return out
}

// listLoop: how an index runs over its list; "" when from the first to the last, or when the loop
// is of another form.
func listLoop(ix *ssa.IndexAddr) string {
	cint := func(v ssa.Value) (int64, bool) {
		c, ok := v.(*ssa.Const)
		if !ok || c.Value == nil || c.Value.Kind() != constant.Int {
			return 0, false
		}
		return c.Int64(), true
	}
	idx := ix.Index
	off := int64(0)
	phi, ok := idx.(*ssa.Phi)
	if b, ok2 := idx.(*ssa.BinOp); ok2 && b.Op == token.ADD {
		if n, isC := cint(b.Y); isC {
			if p, isP := b.X.(*ssa.Phi); isP {
				phi, ok, off = p, true, n
			}
		}
	}
	if !ok || len(phi.Edges) < 2 {
		return ""
	}
	down, starts, steps := false, false, false
	for _, e := range phi.Edges {
		if n, isC := cint(e); isC {
			starts = true
			if n+off != 0 {
				return fmt.Sprintf("starts at element %d", n+off)
			}
			continue
		}
		b, isB := e.(*ssa.BinOp)
		if !isB || b.X != ssa.Value(phi) {
			continue
		}
		if n, isC := cint(b.Y); isC {
			if b.Op == token.SUB {
				down = true
			} else if b.Op == token.ADD {
				steps = true
				if n != 1 {
					return fmt.Sprintf("advances by %d", n)
				}
			}
		}
	}
	if down || !starts || !steps {
		return ""
	}
	// the bound
	isLen := func(v ssa.Value) bool {
		c, ok := v.(*ssa.Call)
		if !ok {
			return false
		}
		b, ok := c.Call.Value.(*ssa.Builtin)
		return ok && b.Name() == "len"
	}
	for _, v := range []ssa.Value{phi, idx} {
		for _, r := range *v.Referrers() {
			b, isB := r.(*ssa.BinOp)
			if !isB {
				continue
			}
			o, op := b.Y, b.Op
			if b.Y == v {
				o = b.X
				switch op {
				case token.LSS:
					op = token.GTR
				case token.GTR:
					op = token.LSS
				case token.LEQ:
					op = token.GEQ
				case token.GEQ:
					op = token.LEQ
				}
			}
			if op != token.LSS && op != token.GEQ && op != token.NEQ {
				continue
			}
			if s, isS := o.(*ssa.BinOp); isS && s.Op == token.SUB && isLen(s.X) {
				return "stops before the last element"
			}
		}
	}
	return ""
}

func init() {
	register("C35", "Field-correspondence analysis. In the network layer, every value stored in a field of a document, query or message type is traced back (through conversions, getters, loops, helpers, literals and list building) to the fields it comes from: a field with a namesake on the other side gets its namesake, and no other field; a value built from a message carries every field that both types have; arguments of engine operations come from the fields they are named after; every handler reaches its engine operation.", func(c *Ctx) {
		f := newFields(c)
		target := map[string]bool{"types.DocData": true, "types.TokenData": true, "types.Attri": true, "types.Logic": true, "types.Expr": true, "types.SearchReq": true, "types.RankOpts": true, "net/com.SearchArgs": true}
		isPb := func(n *types.Named) bool {
			return n.Obj().Pkg() != nil && strings.HasSuffix(n.Obj().Pkg().Path(), "riot-pb")
		}
		// names of messages that are parts of messages, on both sides
		count, part := map[string]map[*types.Named]bool{}, map[string]bool{}
		for rel, pk := range c.P.Pkgs {
			if rel != "types" && !strings.HasSuffix(rel, "riot-pb") {
				continue
			}
			for _, n := range pk.Types.Scope().Names() {
				tn, ok := pk.Types.Scope().Lookup(n).(*types.TypeName)
				if !ok {
					continue
				}
				nt, s := namedStruct(tn.Type())
				if s == nil {
					continue
				}
				if count[n] == nil {
					count[n] = map[*types.Named]bool{}
				}
				count[n][nt] = true
				for i := 0; i < s.NumFields(); i++ {
					t := s.Field(i).Type()
					if sl, ok := t.Underlying().(*types.Slice); ok {
						t = sl.Elem()
					}
					if m, ms := namedStruct(t); ms != nil {
						part[m.Obj().Name()] = true
					}
				}
			}
		}
		nested := func(n string) bool { return part[n] && len(count[n]) > 1 }
		type lit struct {
			a  ssa.Value
			fn *ssa.Function
		}
		got := map[lit]map[string][]fpath{}
		where := map[lit]*types.Named{}
		pairs := map[string]bool{}
		key := func(fn *ssa.Function, n *types.Named, fld string) string {
			return "C35:field:" + fnName(fn) + ":" + n.Obj().Name() + "." + fld
		}
		base := func(v ssa.Value) ssa.Value {
			for {
				if u, ok := v.(*ssa.UnOp); ok {
					v = u.X
					continue
				}
				return v
			}
		}
		for _, fn := range c.P.Fns {
			rel := relOf(fn)
			if !strings.HasPrefix(rel, "net") || generated(fn) || strings.HasSuffix(rel, "riot-pb") {
				continue
			}
			c.fns[fnName(fn)] = true
			for _, b := range fn.Blocks {
				for _, ins := range b.Instrs {
					switch x := ins.(type) {
					case *ssa.Store:
						fa, ok := x.Addr.(*ssa.FieldAddr)
						if !ok {
							continue
						}
						n, s := namedStruct(fa.X.Type())
						if n == nil || !isPb(n) && !target[structTypeName(n)] {
							continue
						}
						name := s.Field(fa.Field).Name()
						ps := f.from(x.Val, nil, map[fseen]bool{})
						l := lit{base(fa.X), fn}
						if got[l] == nil {
							got[l] = map[string][]fpath{}
							where[l] = n
						}
						got[l][name] = append(got[l][name], ps...)
						deep := holdsStruct(s.Field(fa.Field).Type())
						for _, p := range ps {
							lr := p.last()
							_, ls := namedStruct(lr.owner)
							good := lr.name == name
							if deep {
								for _, r := range p {
									good = good || r.name == name || r.owner.Obj().Name() == name
								}
							}
							if good && !deep && nested(n.Obj().Name()) && part[lr.owner.Obj().Name()] {
								good = lr.owner.Obj().Name() == n.Obj().Name()
							}
							if w := otherName[n.Obj().Name()+"."+name]; !good && w != "" {
								good = lr.name == w
							} else if !good && lr.name != name && fieldOf(ls, name) == nil && fieldOf(s, lr.name) == nil {
								good = true // neither has a namesake on the other side
							}
							c.ob("field", fmt.Sprintf("%s.%s from %s in %s", n.Obj().Name(), name, p, fnName(fn)), good)
							if !good {
								c.violateAt(key(fn, n, name), ins, "%s.%s gets the value of %s", n.Obj().Name(), name, p)
							}
						}
					case *ssa.IndexAddr:
						for _, p := range f.from(x.X, nil, map[fseen]bool{}) {
							if n := p.last().owner; !isPb(n) && !strings.HasSuffix(n.Obj().Pkg().Path(), "types") {
								continue
							}
							bad := listLoop(x)
							c.ob("list", fmt.Sprintf("elements of %s in %s", p, fnName(fn)), bad == "")
							if bad != "" {
								c.violateAt("C35:list:"+fnName(fn)+":"+p.String(), ins, "the walk over %s %s", p, bad)
							}
							break
						}
					case ssa.CallInstruction:
						cc := x.Common()
						g := cc.StaticCallee()
						if g == nil || relOf(g) != "net/com" && (g.Signature.Recv() == nil || !namedIs(g.Signature.Recv().Type(), "riot.Engine")) {
							continue
						}
						for i, p := range g.Params {
							if i >= len(cc.Args) || i == 0 && g.Signature.Recv() != nil || holdsStruct(p.Type()) {
								continue
							}
							for _, q := range f.from(cc.Args[i], nil, map[fseen]bool{}) {
								lr := q.last()
								if target[structTypeName(lr.owner)] || isPb(lr.owner) {
									good := strings.EqualFold(lr.name, p.Name())
									if !good {
										_, ls := namedStruct(lr.owner)
										has := false
										for j := 0; j < ls.NumFields(); j++ {
											has = has || strings.EqualFold(ls.Field(j).Name(), p.Name())
										}
										good = !has
									}
									c.ob("argument", fmt.Sprintf("%s of %s from %s in %s", p.Name(), fnName(g), q, fnName(fn)), good)
									if !good {
										c.violateAt("C35:argument:"+fnName(fn)+":"+p.Name(), ins, "the argument %s of %s is %s", p.Name(), fnName(g), q)
									}
								}
							}
						}
					}
				}
			}
		}
		for l, flds := range got {
			n := where[l]
			_, s := namedStruct(n)
			srcs := map[*types.Named]bool{}
			for _, ps := range flds {
				for _, p := range ps {
					srcs[p.last().owner] = true
					if len(p) > 1 { // elements and parts: the message they are in
						srcs[p[0].owner] = true
					}
				}
			}
			for src := range srcs {
				_, ss := namedStruct(src)
				direct := false
				for name, ps := range flds {
					for _, p := range ps {
						if p.last().owner == src && p.last().name == name {
							direct = true
						}
					}
				}
				if !direct || src == n {
					continue
				}
				pairs[src.Obj().Name()+">"+n.Obj().Name()] = true
				if !isPb(src) && !target[structTypeName(src)] && structTypeName(src) != "types.ScoredDoc" && structTypeName(src) != "net/grpc.Doc" {
					continue
				}
				for i := 0; i < ss.NumFields(); i++ {
					name := ss.Field(i).Name()
					if name == "Fields" || strings.HasPrefix(name, "XXX_") || fieldOf(s, name) == nil {
						continue
					}
					ok := len(flds[name]) > 0
					c.ob("carried", fmt.Sprintf("%s.%s to %s in %s", src.Obj().Name(), name, n.Obj().Name(), fnName(l.fn)), ok)
					if !ok {
						c.violateFn("C35:carried:"+fnName(l.fn)+":"+n.Obj().Name()+"."+name, l.fn, "%s of %s is not carried over to %s", name, src.Obj().Name(), n.Obj().Name())
					}
				}
			}
		}
		for _, p := range []string{"SearchReq.Text", "Text.Id"} {
			for l, flds := range got {
				if n := where[l]; p == "Text.Id" && isPb(n) && n.Obj().Name() == "Text" || p == "SearchReq.Text" && !isPb(n) && n.Obj().Name() == "SearchReq" {
					ok := len(flds[p[strings.Index(p, ".")+1:]]) > 0
					c.ob("carried", otherName[p]+" to "+p+" in "+fnName(l.fn), ok)
					if !ok {
						c.violateFn("C35:carried:"+fnName(l.fn)+":"+p, l.fn, "%s is not carried over to %s", otherName[p], p)
					}
				}
			}
		}
		for _, p := range []string{"DocReq>DocData", "TokenData>TokenData", "Attri>Attri", "SearchReq>SearchArgs", "SearchArgs>SearchReq", "SearchArgs>RankOpts", "Logic>Logic", "Expr>Expr", "ScoredDoc>Text", "Doc>DocReq"} {
			c.ob("pair", p, pairs[p])
			if !pairs[p] {
				c.violate("C35:pair:"+p, "", p, "no code carries the fields of one to the other", nil)
			}
		}
		c.need("field", 20)
		c.need("carried", 20)
		c.need("argument", 2)
		c.need("list", 2)
		// handlers reach their operation
		ops := map[string][]string{"DocInx": {"(*riot.Engine).Index"}, "Delete": {"(*riot.Engine).RemoveDoc"}, "Search": {"(*riot.Engine).Search", "Greeter"}}
		roots, _ := c.handlers()
		for _, h := range roots {
			want := ops[h.Name()]
			if h.Signature.Recv() == nil || want == nil {
				continue
			}
			ok := reachesAny(h, func(cc *ssa.CallCommon) bool {
				if cc.IsInvoke() {
					return len(want) > 1 && cc.Method.Name() == "Search"
				}
				g := cc.StaticCallee()
				return g != nil && fnName(g) == want[0]
			})
			c.ob("operation", fnName(h), ok)
			if !ok {
				c.violateFn("C35:operation:"+fnName(h), h, "the handler does not reach %s", want[0])
			}
		}
		c.need("operation", 3)
	}, "remote document Fields are opaque bytes and not compared", "loops of other forms than an index that counts up are taken to visit the whole list")
}

// reachesAny: a call that is wanted is reached from fn by static calls, closures and goroutines.
func reachesAny(fn *ssa.Function, want func(*ssa.CallCommon) bool) bool {
	seen := map[*ssa.Function]bool{}
	var walk func(*ssa.Function) bool
	walk = func(g *ssa.Function) bool {
		if seen[g] {
			return false
		}
		seen[g] = true
		for _, b := range g.Blocks {
			for _, ins := range b.Instrs {
				if ci, ok := ins.(ssa.CallInstruction); ok {
					if want(ci.Common()) {
						return true
					}
					if h := ci.Common().StaticCallee(); h != nil && inModule(h) && walk(h) {
						return true
					}
				}
				if m, ok := ins.(*ssa.MakeClosure); ok && walk(m.Fn.(*ssa.Function)) {
					return true
				}
			}
		}
		return false
	}
	return walk(fn)
}
