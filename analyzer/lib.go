package main

import (
	"fmt"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// ---- helpers shared by the rules

// loadsField reports whether t is the value of the struct field named aux.
func loadsField(t *Term, aux string) bool {
	if t == nil {
		return false
	}
	switch t.op {
	case OpLoad:
		return t.args[0].op == OpFieldAddr && t.args[0].aux == aux
	case OpField:
		return t.aux == aux
	}
	return false
}

// elemLoad splits the value of a slice element into slice and index.
func elemLoad(t *Term) (base, idx *Term, ok bool) {
	if t.op == OpLoad && t.args[0].op == OpIndexAddr {
		return t.args[0].args[0], t.args[0].args[1], true
	}
	return nil, nil, false
}

// sliceParts gives the underlying slice and the window [lo, hi) of a term.
func sliceParts(t *Term) (root, lo, hi *Term) {
	if t.op == OpSlice && t.args[0].op != OpAlloc {
		return t.args[0], t.args[1], t.args[2]
	}
	return t, mkInt(0), mkLen(t)
}

// addMark adds a rule's own fact about some terms.
func (st *State) mark(name string, args ...*Term) { st.facts[markTerm(name, args...)] = true }

func markTerm(name string, args ...*Term) *Term { return mk(OpCall, tBool, "@"+name, args...) }

func (st *State) marked(name string, args ...*Term) bool { return st.facts[markTerm(name, args...)] }

// isFieldIdx finds the index of a struct field by name (-1 if absent).
func fieldIdx(t types.Type, name string) int {
	if t == nil {
		return -1
	}
	s, ok := t.Underlying().(*types.Struct)
	if !ok {
		return -1
	}
	for i := 0; i < s.NumFields(); i++ {
		if s.Field(i).Name() == name {
			return i
		}
	}
	return -1
}

func ptrElem(t types.Type) types.Type {
	if p, ok := t.Underlying().(*types.Pointer); ok {
		return p.Elem()
	}
	return nil
}

// namedIs: t (or what it points to) is the named type rel.name of the module.
func namedIs(t types.Type, name string) bool {
	if p, ok := t.(*types.Pointer); ok {
		t = p.Elem()
	}
	return structTypeName(t) == name
}

// span is a run of indices [from, to] for which something is known.
type span struct{ from, to *Term }

// loopSpan gives the indices for which the completed iterations of fa
// establish a fact about index idx (an expression phi + c): [from, to].
func (st *State) loopSpan(fa *ForAll, idx *Term) (span, bool) {
	for i, p := range fa.phi {
		if !contains(idx, p) {
			continue
		}
		c := mkSub(idx, p)
		if contains(c, p) {
			return span{}, false
		}
		if fa.step[i] == nil {
			return span{}, false
		}
		first := mkAdd(fa.init[i], c)
		switch mkSub(fa.step[i], p) {
		case mkInt(1):
			return span{first, mkSub(mkAdd(p, c), mkInt(1))}, true
		case mkInt(-1):
			return span{mkAdd(mkAdd(p, c), mkInt(1)), first}, true
		}
		return span{}, false
	}
	return span{}, false
}

// covered: the union of the spans contains every index in [lo, hi).
func (st *State) covered(spans []span, lo, hi *Term) bool {
	cur := lo
	if dbg {
		fmt.Println("COVER", lo, hi)
		for _, s := range spans {
			fmt.Println("   ", s.from, s.to, st.proveLe(s.from, cur), st.proveLe(cur, s.to), st.proveLe(mkSub(hi, mkInt(1)), s.to))
		}
	}
	for n := 0; n <= len(spans); n++ {
		if st.proveLe(hi, cur) {
			return true
		}
		next := (*Term)(nil)
		for _, s := range spans {
			if st.proveLe(s.from, cur) && st.proveLe(cur, s.to) {
				next = mkAdd(s.to, mkInt(1))
				break
			}
		}
		if next == nil {
			// an empty span may still reach the end
			for _, s := range spans {
				if st.proveLe(s.from, cur) && st.proveLe(mkSub(hi, mkInt(1)), s.to) {
					return true
				}
			}
			return false
		}
		cur = next
	}
	return st.proveLe(hi, cur)
}

// sameTerm: the two terms are equal on this path.
func (st *State) same(a, b *Term) bool {
	if a == b {
		return true
	}
	for _, x := range st.equals(a) {
		if x == b {
			return true
		}
	}
	return false
}

func sortedKeys[V any](m map[string]V) []string {
	out := make([]string, 0, len(m))
	for k := range m {
		out = append(out, k)
	}
	sort.Strings(out)
	return out
}

func isExported(fn *ssa.Function) bool {
	o := fn.Object()
	return o != nil && o.Exported()
}

// guardTable: which lock class protects which memory classes of the index and ranker.
func coreGuard(class string) string {
	if len(class) < 2 {
		return ""
	}
	c := class[2:]
	switch {
	case strings.HasPrefix(c, "core.Indexer.addCacheLock."):
		return "core.Indexer.addCacheLock"
	case strings.HasPrefix(c, "core.Indexer.removeCacheLock."):
		return "core.Indexer.removeCacheLock"
	case strings.HasPrefix(c, "core.Indexer.tableLock."), strings.HasPrefix(c, "core.KeywordIndices."):
		return "core.Indexer.tableLock"
	case c == "core.Indexer.numDocs", c == "core.Indexer.totalTokenLen", c == "core.Indexer.docTokenLens":
		return "core.Indexer.tableLock"
	case strings.HasPrefix(c, "core.Ranker.lock."):
		return "core.Ranker.lock"
	}
	return ""
}

// goRoots lists the functions of a package that are started as goroutines.
func (c *Ctx) goRoots(rel string) []*ssa.Function {
	seen := map[*ssa.Function]bool{}
	var out []*ssa.Function
	for _, f := range c.P.pkgFns(rel) {
		for _, ci := range callsIn(f) {
			if g, ok := ci.(*ssa.Go); ok {
				if fn := g.Call.StaticCallee(); fn != nil && inModule(fn) && !seen[fn] {
					seen[fn] = true
					out = append(out, fn)
				}
			}
		}
	}
	return out
}

// reaches: fn calls (directly or through module functions) a function that satisfies want.
func reaches(fn *ssa.Function, want func(*ssa.Function) bool) bool {
	seen := map[*ssa.Function]bool{}
	var walk func(f *ssa.Function) bool
	walk = func(f *ssa.Function) bool {
		if seen[f] {
			return false
		}
		seen[f] = true
		for _, ci := range callsIn(f) {
			if _, isGo := ci.(*ssa.Go); isGo {
				continue
			}
			g := ci.Common().StaticCallee()
			if g == nil {
				continue
			}
			if want(g) || inModule(g) && walk(g) {
				return true
			}
		}
		for _, a := range f.AnonFuncs {
			if walk(a) {
				return true
			}
		}
		return false
	}
	return walk(fn)
}
