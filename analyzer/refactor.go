//go:build refactor

package main

// refactor rewrites a copy of the repository without changing its behaviour, to
// try the checks on code written differently:
//
//	riotcheck refactor KIND PKG|all [lo hi]
//
// applies the sites lo..hi of a kind (all by default; nested sites innermost
// first) to RIOT_REPO and prints how many there are.

import (
	"fmt"
	"go/ast"
	"go/constant"
	"go/token"
	"go/types"
	"os"
	"sort"
	"strconv"
	"strings"

	"golang.org/x/tools/go/packages"
)

func init() { subcommands["refactor"] = refactorMain }

type rfEdit struct {
	from, to int
	text     string
}

type rfSite struct {
	file  string
	from  int
	to    int
	edits []rfEdit
	where string
}

type rfFile struct {
	r    *rf
	f    *ast.File
	name string
	src  []byte
	base int
	up   map[ast.Node]ast.Node
}

type rf struct {
	p     *Program
	pk    *packages.Package
	kind  string
	sites []rfSite
	n     int
}

func (x *rfFile) off(p token.Pos) int        { return x.r.p.Fset.Position(p).Offset }
func (x *rfFile) text(n ast.Node) string     { return string(x.src[x.off(n.Pos()):x.off(n.End())]) }
func (x *rfFile) span(a, b token.Pos) string { return string(x.src[x.off(a):x.off(b)]) }
func (x *rfFile) site(n ast.Node, edits ...rfEdit) {
	from, to := x.off(n.Pos()), x.off(n.End())
	x.r.sites = append(x.r.sites, rfSite{x.name, from, to, edits, x.r.p.pos(n.Pos())})
}
func (x *rfFile) swap(n ast.Node, text string) {
	x.site(n, rfEdit{x.off(n.Pos()), x.off(n.End()), text})
}
func (x *rfFile) fresh(s string) string { x.r.n++; return s + "Rf" + strconv.Itoa(x.r.n) }
func (x *rfFile) body(b *ast.BlockStmt) string {
	return string(x.src[x.off(b.Lbrace)+1 : x.off(b.Rbrace)])
}

// hasJump: a break, continue or goto that leaves n, or any return.
func hasJump(n ast.Node, brk, cont, ret bool) bool {
	found := false
	var walk func(n ast.Node, brk, cont bool)
	walk = func(n ast.Node, brk, cont bool) {
		ast.Inspect(n, func(m ast.Node) bool {
			if m == nil || found || m == n {
				return !found
			}
			switch s := m.(type) {
			case *ast.FuncLit:
				return false
			case *ast.ForStmt, *ast.RangeStmt:
				walk(m, false, false)
				return false
			case *ast.SwitchStmt, *ast.TypeSwitchStmt, *ast.SelectStmt:
				walk(m, false, cont)
				return false
			case *ast.BranchStmt:
				if s.Label != nil || s.Tok == token.GOTO || s.Tok == token.FALLTHROUGH {
					found = true
				}
				if s.Tok == token.BREAK && brk || s.Tok == token.CONTINUE && cont {
					found = true
				}
			case *ast.ReturnStmt:
				found = found || ret
			case *ast.LabeledStmt:
				found = true
			}
			return true
		})
	}
	switch n.(type) {
	case *ast.ForStmt, *ast.RangeStmt:
		walk(n, false, false)
	case *ast.SwitchStmt, *ast.TypeSwitchStmt, *ast.SelectStmt:
		walk(n, false, cont)
	default:
		walk(n, brk, cont)
	}
	return found
}

func (x *rfFile) enclosing(n ast.Node) *ast.FuncDecl {
	for m := n; m != nil; m = x.up[m] {
		if d, ok := m.(*ast.FuncDecl); ok {
			return d
		}
	}
	return nil
}

// inBlock: the statement stands in a list of statements.
func (x *rfFile) inBlock(n ast.Node) bool {
	switch x.up[n].(type) {
	case *ast.BlockStmt, *ast.CaseClause, *ast.CommClause:
		return true
	}
	return false
}

func (x *rfFile) isConst(e ast.Expr) bool {
	tv, ok := x.r.pk.TypesInfo.Types[e]
	return !ok || tv.Value != nil && tv.Value.Kind() != constant.Unknown || tv.IsNil() || tv.IsType() || tv.IsBuiltin()
}

func (x *rfFile) typ(e ast.Expr) types.Type { return x.r.pk.TypesInfo.TypeOf(e) }

func (x *rfFile) assigned(b ast.Node, o types.Object) bool {
	found := false
	info := x.r.pk.TypesInfo
	root := func(e ast.Expr) *ast.Ident {
		for {
			switch v := e.(type) {
			case *ast.Ident:
				return v
			case *ast.SelectorExpr:
				if _, ok := info.TypeOf(v.X).Underlying().(*types.Struct); !ok {
					return nil
				}
				e = v.X
			case *ast.IndexExpr:
				if _, ok := info.TypeOf(v.X).Underlying().(*types.Array); !ok {
					return nil
				}
				e = v.X
			case *ast.ParenExpr:
				e = v.X
			default:
				return nil
			}
		}
	}
	is := func(e ast.Expr) bool {
		id := root(e)
		return id != nil && (info.Uses[id] == o || info.Defs[id] == o)
	}
	ast.Inspect(b, func(n ast.Node) bool {
		switch s := n.(type) {
		case *ast.AssignStmt:
			for _, l := range s.Lhs {
				if is(l) {
					found = true
				}
			}
		case *ast.IncDecStmt:
			found = found || is(s.X)
		case *ast.RangeStmt:
			if s.Key != nil && is(s.Key) || s.Value != nil && is(s.Value) {
				found = true
			}
		}
		return true
	})
	return found
}

// taken: the address of a variable is taken (also implicitly), or a closure uses it.
func (x *rfFile) taken(b ast.Node, o types.Object) bool {
	found := false
	info := x.r.pk.TypesInfo
	uses := func(e ast.Node) bool {
		u := false
		ast.Inspect(e, func(n ast.Node) bool {
			if id, ok := n.(*ast.Ident); ok && info.Uses[id] == o {
				u = true
			}
			return true
		})
		return u
	}
	ast.Inspect(b, func(n ast.Node) bool {
		switch s := n.(type) {
		case *ast.UnaryExpr:
			if s.Op == token.AND && uses(s.X) {
				found = true
			}
		case *ast.FuncLit:
			found = found || uses(s)
		case *ast.SliceExpr:
			if _, ok := info.TypeOf(s.X).Underlying().(*types.Array); ok && uses(s.X) {
				found = true
			}
		case *ast.SelectorExpr:
			if sel := info.Selections[s]; sel != nil && sel.Kind() == types.MethodVal {
				if sig, ok := sel.Obj().Type().(*types.Signature); ok && sig.Recv() != nil {
					if _, ptr := sig.Recv().Type().(*types.Pointer); ptr {
						if _, isP := info.TypeOf(s.X).Underlying().(*types.Pointer); !isP && uses(s.X) {
							found = true
						}
					}
				}
			}
		}
		return true
	})
	return found
}

func (x *rfFile) typeText(t types.Type) (string, bool) {
	ok := true
	s := types.TypeString(t, func(p *types.Package) string {
		if p == x.r.pk.Types {
			return ""
		}
		for _, im := range x.f.Imports {
			path, _ := strconv.Unquote(im.Path.Value)
			if path == p.Path() {
				if im.Name != nil {
					return im.Name.Name
				}
				return p.Name()
			}
		}
		ok = false
		return p.Name()
	})
	if strings.Contains(s, "struct{") || strings.Contains(s, "untyped") {
		ok = false
	}
	return s, ok
}

func (x *rfFile) extract(b *ast.BlockStmt, at ast.Node) {
	d := x.enclosing(b)
	if d == nil || len(b.List) == 0 || hasJump(b, true, true, true) {
		return
	}
	bad := false
	ast.Inspect(b, func(n ast.Node) bool {
		switch n.(type) {
		case *ast.FuncLit, *ast.DeferStmt:
			bad = true
		}
		return true
	})
	for m := ast.Node(b); m != d && m != nil; m = x.up[m] {
		if _, ok := m.(*ast.FuncLit); ok {
			bad = true
		}
	}
	if bad {
		return
	}
	info := x.r.pk.TypesInfo
	seen := map[types.Object]bool{}
	var objs []types.Object
	ast.Inspect(b, func(n ast.Node) bool {
		id, ok := n.(*ast.Ident)
		if !ok {
			return true
		}
		o, ok := info.Uses[id].(*types.Var)
		if !ok || o.IsField() || seen[o] || o.Pos() < d.Pos() || o.Pos() > d.End() {
			return true
		}
		if o.Pos() >= b.Pos() && o.Pos() < b.End() {
			return true
		}
		seen[o] = true
		objs = append(objs, o)
		return true
	})
	var recv types.Object
	if d.Recv != nil && len(d.Recv.List) == 1 && len(d.Recv.List[0].Names) == 1 {
		recv = info.Defs[d.Recv.List[0].Names[0]]
	}
	var params, args, res, rets []string
	useRecv := false
	for _, o := range objs {
		if x.taken(d.Body, o) && o != recv {
			return
		}
		if o == recv {
			if x.assigned(b, o) {
				return
			}
			useRecv = true
			continue
		}
		t, ok := x.typeText(o.Type())
		if !ok || strings.Contains(t, "sync.") {
			return
		}
		if st, isS := o.Type().Underlying().(*types.Struct); isS && st.NumFields() > 12 {
			return
		}
		params = append(params, o.Name()+" "+t)
		args = append(args, o.Name())
		if x.assigned(b, o) {
			res = append(res, t)
			rets = append(rets, o.Name())
		}
	}
	name := x.fresh("part" + strings.ToUpper(d.Name.Name[:1]) + d.Name.Name[1:])
	call, head := name, "func "+name
	if useRecv {
		call = recv.Name() + "." + name
		head = "func (" + x.text(d.Recv.List[0]) + ") " + name
	}
	call += "(" + strings.Join(args, ", ") + ")"
	if len(rets) > 0 {
		call = strings.Join(rets, ", ") + " = " + call
	}
	head += "(" + strings.Join(params, ", ") + ")"
	tail := ""
	if len(res) > 0 {
		head += " (" + strings.Join(res, ", ") + ")"
		tail = "\nreturn " + strings.Join(rets, ", ") + "\n"
	}
	x.site(at, rfEdit{x.off(b.Lbrace) + 1, x.off(b.Rbrace), "\n" + call + "\n"},
		rfEdit{x.off(d.End()), x.off(d.End()), "\n\n" + head + " {" + x.body(b) + tail + "}\n"})
}

func (x *rfFile) visit(n ast.Node) {
	info := x.r.pk.TypesInfo
	switch x.r.kind {
	case "extract-if":
		if s, ok := n.(*ast.IfStmt); ok && x.enclosing(n) != nil {
			x.extract(s.Body, s)
		}
	case "extract-loop":
		switch s := n.(type) {
		case *ast.ForStmt:
			x.extract(s.Body, s)
		case *ast.RangeStmt:
			x.extract(s.Body, s)
		}
	case "invert":
		if s, ok := n.(*ast.IfStmt); ok && s.Else != nil {
			if e, ok := s.Else.(*ast.BlockStmt); ok {
				init := ""
				if s.Init != nil {
					init = x.text(s.Init) + "; "
				}
				x.swap(s, "if "+init+"!("+x.text(s.Cond)+") "+x.text(e)+" else "+x.text(s.Body))
			}
		}
	case "break":
		if s, ok := n.(*ast.ForStmt); ok && s.Cond != nil {
			init, post := "", ""
			if s.Init != nil {
				init = x.text(s.Init)
			}
			if s.Post != nil {
				post = x.text(s.Post)
			}
			x.swap(s, "for "+init+"; ; "+post+" {\nif !("+x.text(s.Cond)+") {\nbreak\n}\n"+x.body(s.Body)+"}")
		}
	case "guard":
		s, ok := n.(*ast.IfStmt)
		if !ok || s.Else != nil || s.Init != nil {
			return
		}
		blk, ok := x.up[s].(*ast.BlockStmt)
		if !ok || blk.List[len(blk.List)-1] != ast.Stmt(s) {
			return
		}
		word := ""
		switch p := x.up[blk].(type) {
		case *ast.ForStmt, *ast.RangeStmt:
			word = "continue"
		case *ast.FuncDecl:
			if p.Type.Results == nil {
				word = "return"
			}
		}
		if word != "" {
			x.swap(s, "if !("+x.text(s.Cond)+") {\n"+word+"\n}\n"+x.body(s.Body))
		}
	case "nest":
		if s, ok := n.(*ast.IfStmt); ok && s.Else == nil {
			if c, ok := s.Cond.(*ast.BinaryExpr); ok && c.Op == token.LAND {
				init := ""
				if s.Init != nil {
					init = x.text(s.Init) + "; "
				}
				x.swap(s, "if "+init+x.text(c.X)+" {\nif "+x.text(c.Y)+" "+x.text(s.Body)+"\n}")
			}
		}
	case "flip":
		if c, ok := n.(*ast.BinaryExpr); ok {
			op := map[token.Token]string{token.LSS: ">", token.GTR: "<", token.LEQ: ">=", token.GEQ: "<=", token.EQL: "==", token.NEQ: "!="}[c.Op]
			if op != "" && !x.calls(c) {
				x.swap(c, x.text(c.Y)+" "+op+" "+x.text(c.X))
			}
		}
	case "negate": // a < b on integers: !(a >= b)
		if c, ok := n.(*ast.BinaryExpr); ok {
			op := map[token.Token]string{token.LSS: ">=", token.GTR: "<=", token.LEQ: ">", token.GEQ: "<", token.EQL: "!=", token.NEQ: "=="}[c.Op]
			if b, ok := x.typ(c.X).Underlying().(*types.Basic); ok && op != "" && b.Info()&types.IsInteger != 0 {
				x.swap(c, "!("+x.text(c.X)+" "+op+" "+x.text(c.Y)+")")
			}
		}
	case "demorgan":
		if c, ok := n.(*ast.BinaryExpr); ok && (c.Op == token.LAND || c.Op == token.LOR) {
			op := "||"
			if c.Op == token.LOR {
				op = "&&"
			}
			x.swap(c, "!(!("+x.text(c.X)+") "+op+" !("+x.text(c.Y)+"))")
		}
	case "cond":
		if s, ok := n.(*ast.IfStmt); ok && s.Init == nil && x.inBlock(s) {
			if _, id := s.Cond.(*ast.Ident); !id {
				v := x.fresh("cond")
				x.site(s, rfEdit{x.off(s.Pos()), x.off(s.Pos()), v + " := " + x.text(s.Cond) + "\n"}, rfEdit{x.off(s.Cond.Pos()), x.off(s.Cond.End()), v})
			}
		}
	case "init": // if x := e; c {} -> { x := e; if c {} }
		if s, ok := n.(*ast.IfStmt); ok && s.Init != nil && x.inBlock(s) {
			x.swap(s, "{\n"+x.text(s.Init)+"\nif "+x.span(s.Cond.Pos(), s.End())+"\n}")
		}
	case "args":
		var call *ast.CallExpr
		switch s := n.(type) {
		case *ast.ExprStmt:
			call, _ = s.X.(*ast.CallExpr)
		case *ast.AssignStmt:
			if len(s.Rhs) == 1 {
				call, _ = s.Rhs[0].(*ast.CallExpr)
			}
		}
		if call == nil || !x.inBlock(n) {
			return
		}
		if tv := info.Types[call.Fun]; tv.IsType() || tv.IsBuiltin() {
			return
		}
		if a, ok := n.(*ast.AssignStmt); ok {
			for _, l := range a.Lhs {
				if _, ok := l.(*ast.Ident); !ok {
					return
				}
			}
		}
		sig, ok := x.typ(call.Fun).(*types.Signature)
		if !ok || sig.Variadic() {
			return
		}
		var es []rfEdit
		pre := ""
		for _, a := range call.Args {
			if _, lit := a.(*ast.FuncLit); lit || x.isConst(a) || x.typ(a) == nil {
				continue
			}
			if _, multi := x.typ(a).(*types.Tuple); multi {
				return
			}
			v := x.fresh("arg")
			pre += v + " := " + x.text(a) + "\n"
			es = append(es, rfEdit{x.off(a.Pos()), x.off(a.End()), v})
		}
		if pre != "" {
			x.site(n, append([]rfEdit{{x.off(n.Pos()), x.off(n.Pos()), pre}}, es...)...)
		}
	case "result":
		s, ok := n.(*ast.ReturnStmt)
		if !ok || len(s.Results) == 0 || !x.inBlock(s) {
			return
		}
		var es []rfEdit
		pre := ""
		for _, a := range s.Results {
			if x.isConst(a) || x.typ(a) == nil {
				continue
			}
			if _, multi := x.typ(a).(*types.Tuple); multi {
				return
			}
			v := x.fresh("res")
			pre += v + " := " + x.text(a) + "\n"
			es = append(es, rfEdit{x.off(a.Pos()), x.off(a.End()), v})
		}
		if pre != "" {
			x.site(n, append([]rfEdit{{x.off(n.Pos()), x.off(n.Pos()), pre}}, es...)...)
		}
	case "switch":
		s, ok := n.(*ast.IfStmt)
		if !ok || s.Else == nil || s.Init != nil || hasJump(s, true, false, false) {
			return
		}
		if p, ok := x.up[s].(*ast.IfStmt); ok && p.Else == ast.Stmt(s) {
			return
		}
		out := "switch {\n"
		for e := ast.Stmt(s); e != nil; {
			switch b := e.(type) {
			case *ast.IfStmt:
				if b.Init != nil {
					return
				}
				out += "case " + x.text(b.Cond) + ":\n" + x.body(b.Body) + "\n"
				e = b.Else
			case *ast.BlockStmt:
				out += "default:\n" + x.body(b) + "\n"
				e = nil
			}
		}
		x.swap(s, out+"}")
	case "index": // range -> index loop
		s, ok := n.(*ast.RangeStmt)
		if !ok || s.Tok != token.DEFINE {
			return
		}
		if _, ok := x.typ(s.X).Underlying().(*types.Slice); !ok {
			return
		}
		if id, ok := s.X.(*ast.Ident); ok {
			if o := info.Uses[id]; o == nil || x.assigned(s.Body, o) || x.taken(s.Body, o) {
				return
			}
		} else {
			return
		}
		i, ok := s.Key.(*ast.Ident)
		name := ""
		if !ok || i.Name == "_" {
			name = x.fresh("i")
		} else {
			name = i.Name
			if x.assigned(s.Body, info.Defs[i]) || x.taken(s.Body, info.Defs[i]) {
				return
			}
		}
		val := ""
		if v, ok := s.Value.(*ast.Ident); ok && v.Name != "_" {
			if x.taken(s.Body, info.Defs[v]) {
				return
			}
			val = v.Name + " := " + x.text(s.X) + "[" + name + "]\n"
		}
		x.swap(s, "for "+name+" := 0; "+name+" < len("+x.text(s.X)+"); "+name+"++ {\n"+val+x.body(s.Body)+"}")
	case "range": // index loop -> range
		s, ok := n.(*ast.ForStmt)
		if !ok || s.Init == nil || s.Cond == nil || s.Post == nil {
			return
		}
		init, ok1 := s.Init.(*ast.AssignStmt)
		c, ok2 := s.Cond.(*ast.BinaryExpr)
		post, ok3 := s.Post.(*ast.IncDecStmt)
		if !ok1 || !ok2 || !ok3 || init.Tok != token.DEFINE || len(init.Lhs) != 1 || x.text(init.Rhs[0]) != "0" || c.Op != token.LSS || post.Tok != token.INC {
			return
		}
		id, ok := init.Lhs[0].(*ast.Ident)
		call, ok2 := c.Y.(*ast.CallExpr)
		if !ok || !ok2 || x.text(call.Fun) != "len" || x.text(c.X) != id.Name || x.text(post.X) != id.Name {
			return
		}
		sl, ok := call.Args[0].(*ast.Ident)
		if !ok || x.assigned(s.Body, info.Uses[sl]) || x.taken(s.Body, info.Uses[sl]) || x.assigned(s.Body, info.Defs[id]) || x.taken(s.Body, info.Defs[id]) {
			return
		}
		x.swap(s, "for "+id.Name+" := range "+sl.Name+" "+x.text(s.Body))
	case "wrap": // the body moves to a function of its own
		d, ok := n.(*ast.FuncDecl)
		if !ok || d.Body == nil || d.Name.Name == "init" || d.Name.Name == "main" {
			return
		}
		if d.Recv != nil && len(d.Recv.List[0].Names) == 0 {
			return
		}
		var args []string
		for i, f := range d.Type.Params.List {
			if len(f.Names) == 0 {
				return
			}
			for _, nm := range f.Names {
				if nm.Name == "_" {
					return
				}
				a := nm.Name
				if _, dots := f.Type.(*ast.Ellipsis); dots && i == len(d.Type.Params.List)-1 {
					a += "..."
				}
				args = append(args, a)
			}
		}
		name := "do" + strings.ToUpper(d.Name.Name[:1]) + d.Name.Name[1:] + "Rf"
		call := name + "(" + strings.Join(args, ", ") + ")"
		recv := ""
		if d.Recv != nil {
			call = d.Recv.List[0].Names[0].Name + "." + call
			recv = "(" + x.text(d.Recv.List[0]) + ") "
		}
		if d.Type.Results != nil {
			call = "return " + call
		}
		sig := x.span(d.Type.Params.Pos(), d.Body.Pos())
		x.site(d, rfEdit{x.off(d.Body.Lbrace) + 1, x.off(d.Body.Rbrace), "\n" + call + "\n"},
			rfEdit{x.off(d.End()), x.off(d.End()), "\n\nfunc " + recv + name + sig + x.text(d.Body) + "\n"})
	case "lit": // x := T{a: 1} -> var x T; x.a = 1
		s, ok := n.(*ast.AssignStmt)
		if !ok || s.Tok != token.DEFINE || len(s.Lhs) != 1 || !x.inBlock(s) {
			return
		}
		c, ok := s.Rhs[0].(*ast.CompositeLit)
		if !ok {
			return
		}
		if _, ok := x.typ(c).Underlying().(*types.Struct); !ok {
			return
		}
		out := "var " + x.text(s.Lhs[0]) + " " + x.text(c.Type) + "\n"
		for _, e := range c.Elts {
			kv, ok := e.(*ast.KeyValueExpr)
			if !ok {
				return
			}
			out += x.text(s.Lhs[0]) + "." + x.text(kv.Key) + " = " + x.text(kv.Value) + "\n"
		}
		x.swap(s, out)
	case "hoist": // len(x) of a loop condition into a variable when x is not touched by the body
		s, ok := n.(*ast.ForStmt)
		if !ok || s.Cond == nil || !x.inBlock(s) {
			return
		}
		c, ok := s.Cond.(*ast.BinaryExpr)
		if !ok {
			return
		}
		call, ok := c.Y.(*ast.CallExpr)
		if !ok || x.text(call.Fun) != "len" {
			return
		}
		id, ok := call.Args[0].(*ast.Ident)
		if !ok || x.assigned(s, info.Uses[id]) || x.taken(s, info.Uses[id]) {
			return
		}
		v := x.fresh("n")
		x.site(s, rfEdit{x.off(s.Pos()), x.off(s.Pos()), v + " := " + x.text(call) + "\n"}, rfEdit{x.off(call.Pos()), x.off(call.End()), v})
	case "sel": // a value read through a pointer chain twice in a row of statements: not attempted
	case "else": // if c { ...; return } rest -> if c {...; return} else { rest }
		s, ok := n.(*ast.IfStmt)
		if !ok || s.Else != nil || len(s.Body.List) == 0 {
			return
		}
		if _, ok := s.Body.List[len(s.Body.List)-1].(*ast.ReturnStmt); !ok {
			return
		}
		blk, ok := x.up[s].(*ast.BlockStmt)
		if !ok {
			return
		}
		d, ok := x.up[blk].(*ast.FuncDecl)
		if !ok || d.Type.Results != nil && (len(d.Type.Results.List) == 0) {
			return
		}
		last := blk.List[len(blk.List)-1]
		if last == ast.Stmt(s) {
			return
		}
		if d.Type.Results != nil {
			if _, ok := last.(*ast.ReturnStmt); !ok {
				return
			}
		}
		x.site(&rfSpan{s.Pos(), last.End()}, rfEdit{x.off(s.End()), x.off(s.End()), " else {"}, rfEdit{x.off(last.End()), x.off(last.End()), "\n}"})
	case "local": // locals renamed
		d, ok := n.(*ast.FuncDecl)
		if !ok || d.Body == nil {
			return
		}
		var es []rfEdit
		ast.Inspect(d, func(m ast.Node) bool {
			id, ok := m.(*ast.Ident)
			if !ok {
				return true
			}
			o := info.Defs[id]
			if o == nil {
				o = info.Uses[id]
			}
			v, ok := o.(*types.Var)
			if !ok || v.IsField() || v.Pos() < d.Pos() || v.Pos() > d.End() || id.Name == "_" {
				return true
			}
			es = append(es, rfEdit{x.off(id.End()), x.off(id.End()), "Q"})
			return true
		})
		if len(es) > 0 {
			x.site(d, es...)
		}
	}
}

type rfSpan struct{ a, b token.Pos }

func (s *rfSpan) Pos() token.Pos { return s.a }
func (s *rfSpan) End() token.Pos { return s.b }

func (x *rfFile) calls(n ast.Node) bool {
	c := false
	ast.Inspect(n, func(m ast.Node) bool {
		if call, ok := m.(*ast.CallExpr); ok {
			if tv := x.r.pk.TypesInfo.Types[call.Fun]; !tv.IsType() && !tv.IsBuiltin() {
				c = true
			}
		}
		if u, ok := m.(*ast.UnaryExpr); ok && u.Op == token.ARROW {
			c = true
		}
		return true
	})
	return c
}

func refactorMain(args []string) int {
	if len(args) < 2 {
		fmt.Fprintln(os.Stderr, "usage: refactor KIND PKG|all [lo hi]")
		return 2
	}
	p, err := Load("")
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	r := &rf{p: p, kind: args[0]}
	srcs := map[string][]byte{}
	var rels []string
	for rel := range p.Pkgs {
		if args[1] == "all" || rel == args[1] || strings.HasSuffix(args[1], "...") && strings.HasPrefix(rel, strings.TrimSuffix(args[1], "...")) {
			rels = append(rels, rel)
		}
	}
	sort.Strings(rels)
	for _, rel := range rels {
		r.pk = p.Pkgs[rel]
		for i, f := range r.pk.Syntax {
			name := r.pk.CompiledGoFiles[i]
			if strings.HasSuffix(name, "_test.go") || strings.HasSuffix(name, ".pb.go") {
				continue
			}
			b, err := os.ReadFile(name)
			if err != nil {
				continue
			}
			srcs[name] = b
			x := &rfFile{r: r, f: f, name: name, src: b, up: map[ast.Node]ast.Node{}}
			var stack []ast.Node
			ast.Inspect(f, func(n ast.Node) bool {
				if n == nil {
					stack = stack[:len(stack)-1]
					return true
				}
				if len(stack) > 0 {
					x.up[n] = stack[len(stack)-1]
				}
				stack = append(stack, n)
				return true
			})
			ast.Inspect(f, func(n ast.Node) bool {
				if n != nil {
					x.visit(n)
				}
				return true
			})
		}
	}
	lo, hi := 0, len(r.sites)
	if len(args) > 3 {
		lo, _ = strconv.Atoi(args[2])
		hi, _ = strconv.Atoi(args[3])
	}
	pick := append([]rfSite(nil), r.sites[lo:min(hi, len(r.sites))]...)
	sort.SliceStable(pick, func(i, j int) bool { return pick[i].to-pick[i].from < pick[j].to-pick[j].from })
	used := map[string][][2]int{}
	edits := map[string][]rfEdit{}
	n := 0
next:
	for _, s := range pick {
		for _, e := range s.edits {
			for _, u := range used[s.file] {
				if e.from < u[1] && u[0] < e.to {
					continue next
				}
			}
			if e.from == e.to {
				for _, u := range used[s.file] {
					if e.from > u[0] && e.from < u[1] {
						continue next
					}
				}
			}
		}
		n++
		for _, u := range s.edits {
			edits[s.file] = append(edits[s.file], u)
		}
		used[s.file] = append(used[s.file], [2]int{s.from, s.to})
		if os.Getenv("V") != "" {
			fmt.Println(s.where)
		}
	}
	for f, es := range edits {
		sort.SliceStable(es, func(i, j int) bool {
			if es[i].from != es[j].from {
				return es[i].from < es[j].from
			}
			return es[i].to < es[j].to
		})
		var out []byte
		at := 0
		for _, e := range es {
			out = append(out, srcs[f][at:e.from]...)
			out = append(out, e.text...)
			at = e.to
		}
		out = append(out, srcs[f][at:]...)
		os.WriteFile(f, out, 0o644)
	}
	fmt.Println("sites", len(r.sites), "applied", n)
	return 0
}
