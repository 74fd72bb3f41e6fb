package main

import (
	"fmt"
	"go/token"
	"go/types"
	"os"
	"path/filepath"
	"sort"
	"strings"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

const modPath = "github.com/go-ego/riot"

var (
	repoDir  = "/repo"
	verifDir = "/verif"
)

type Program struct {
	Prog *ssa.Program
	Fset *token.FileSet
	Pkgs map[string]*packages.Package
	SSA  map[string]*ssa.Package
	Fns  []*ssa.Function // every function of the module with a body, closures included
	errs []string
	NFn  int
}

// analysed packages: everything of the module except the network-less
// benchmark and testdata programs.
var rootPatterns = []string{".", "./core/...", "./engine/...", "./geo/...", "./store/...", "./types/...", "./utils/...", "./net/...", "./data/..."}

// Load type-checks /repo's current working tree and builds its SSA form.
// Dependencies are type-checked from their sources.
func Load(arch string) (*Program, error) {
	tmp, err := os.MkdirTemp("", "riotcheck")
	if err != nil {
		return nil, err
	}
	defer os.RemoveAll(tmp)
	gm, err := os.ReadFile(filepath.Join(repoDir, "go.mod"))
	if err != nil {
		return nil, err
	}
	gs, _ := os.ReadFile(filepath.Join(repoDir, "go.sum"))
	txt := string(gm) + "\nreplace github.com/go-vgo/gt/info => " + filepath.Join(verifDir, "stubs/gtinfo") + "\n"
	os.WriteFile(filepath.Join(tmp, "riot.mod"), []byte(txt), 0o644)
	os.WriteFile(filepath.Join(tmp, "riot.sum"), gs, 0o644)
	env := []string{}
	for _, v := range os.Environ() {
		if !strings.HasPrefix(v, "GOFLAGS=") {
			env = append(env, v)
		}
	}
	env = append(env, "GOFLAGS=-mod=readonly -modfile="+filepath.Join(tmp, "riot.mod"), "GOPROXY=off", "GOTOOLCHAIN=local", "CGO_ENABLED=0", "GOOS=linux", "GO111MODULE=on", "GOWORK=off")
	if arch != "" {
		env = append(env, "GOARCH="+arch)
	}
	fset := token.NewFileSet()
	cfg := &packages.Config{
		Mode: packages.NeedName | packages.NeedFiles | packages.NeedCompiledGoFiles | packages.NeedImports | packages.NeedDeps |
			packages.NeedTypes | packages.NeedSyntax | packages.NeedTypesInfo | packages.NeedTypesSizes | packages.NeedModule,
		Dir: repoDir, Env: env, Fset: fset,
	}
	pkgs, err := packages.Load(cfg, rootPatterns...)
	if err != nil {
		return nil, err
	}
	p := &Program{Fset: fset, Pkgs: map[string]*packages.Package{}, SSA: map[string]*ssa.Package{}}
	for _, pk := range pkgs {
		for _, e := range pk.Errors {
			p.errs = append(p.errs, e.Error())
		}
	}
	if len(p.errs) > 0 {
		return p, fmt.Errorf("type errors: %s", strings.Join(p.errs[:min(3, len(p.errs))], "; "))
	}
	prog, spkgs := ssautil.Packages(pkgs, ssa.InstantiateGenerics)
	p.Prog = prog
	for i, pk := range pkgs {
		rel := strings.TrimPrefix(strings.TrimPrefix(pk.PkgPath, modPath), "/")
		if rel == "" {
			rel = "riot"
		}
		p.Pkgs[rel] = pk
		if spkgs[i] == nil {
			return p, fmt.Errorf("no SSA for %s", pk.PkgPath)
		}
		p.SSA[rel] = spkgs[i]
		nameAnon(pk.Types)
	}
	prog.Build()
	for fn := range ssautil.AllFunctions(prog) {
		if inModule(fn) && len(fn.Blocks) > 0 && fn.Synthetic == "" {
			p.Fns = append(p.Fns, fn)
		}
	}
	sort.Slice(p.Fns, func(i, j int) bool {
		if p.Fns[i].Pos() != p.Fns[j].Pos() {
			a, b := fset.Position(p.Fns[i].Pos()), fset.Position(p.Fns[j].Pos())
			if a.Filename != b.Filename {
				return a.Filename < b.Filename
			}
			return a.Offset < b.Offset
		}
		return p.Fns[i].String() < p.Fns[j].String()
	})
	return p, nil
}

// nameAnon gives anonymous struct types used as fields a stable name.
func nameAnon(pkg *types.Package) {
	rel := strings.TrimPrefix(pkg.Path(), modPath+"/")
	var walk func(name string, t types.Type)
	walk = func(name string, t types.Type) {
		s, ok := t.(*types.Struct)
		if !ok {
			return
		}
		for i := 0; i < s.NumFields(); i++ {
			ft := s.Field(i).Type()
			if fs, ok := ft.(*types.Struct); ok {
				if _, done := anonNames[fs]; !done {
					anonNames[fs] = name + "." + s.Field(i).Name()
					walk(name+"."+s.Field(i).Name(), fs)
				}
			}
		}
	}
	for _, n := range pkg.Scope().Names() {
		if tn, ok := pkg.Scope().Lookup(n).(*types.TypeName); ok {
			walk(rel+"."+n, tn.Type().Underlying())
		}
	}
}

// fn finds a module function by its display name, e.g. (*core.Indexer).Lookup or core.foo or riot.foo.
func (p *Program) fn(name string) *ssa.Function {
	for _, f := range p.Fns {
		if fnName(f) == name {
			return f
		}
	}
	return nil
}

// methodsOf lists the declared methods of a named type (pkg rel path, type name).
func (p *Program) methodsOf(rel, typ string) []*ssa.Function {
	var out []*ssa.Function
	for _, f := range p.Fns {
		if f.Parent() != nil || f.Signature.Recv() == nil {
			continue
		}
		t := f.Signature.Recv().Type()
		if pt, ok := t.(*types.Pointer); ok {
			t = pt.Elem()
		}
		if structTypeName(t) == rel+"."+typ {
			out = append(out, f)
		}
	}
	return out
}

func (p *Program) pkgFns(rel string) []*ssa.Function {
	var out []*ssa.Function
	want := modPath
	if rel != "riot" {
		want += "/" + rel
	}
	for _, f := range p.Fns {
		if f.Pkg != nil && f.Pkg.Pkg.Path() == want {
			out = append(out, f)
		}
	}
	return out
}

func (p *Program) pos(t token.Pos) string { return posStr(p.Fset.Position(t)) }

// typeOf finds a named type of the module.
func (p *Program) typeOf(rel, name string) types.Type {
	pk := p.Pkgs[rel]
	if pk == nil {
		return nil
	}
	o := pk.Types.Scope().Lookup(name)
	if o == nil {
		return nil
	}
	return o.Type()
}

// relOf: the package of a function, relative to the module ("riot" for the root).
func relOf(f *ssa.Function) string {
	for f.Parent() != nil {
		f = f.Parent()
	}
	var path string
	if f.Pkg != nil {
		path = f.Pkg.Pkg.Path()
	} else if o := f.Object(); o != nil && o.Pkg() != nil {
		path = o.Pkg().Path()
	}
	if path == modPath {
		return "riot"
	}
	return strings.TrimPrefix(path, modPath+"/")
}
