package main

import (
	"go/constant"
	"go/types"
)

// listAt: t is an element of a list of posting lists.
func listAt(t *Term) (tab, idx *Term, ok bool) {
	if t.typ == nil || ptrElem(t.typ) == nil || !namedIs(ptrElem(t.typ), "core.KeywordIndices") {
		return nil, nil, false
	}
	return elemLoad(t)
}

// listField: t = list.f; the posting list.
func listField(t *Term, f string) *Term {
	if t.op == OpLoad && t.args[0].op == OpFieldAddr && t.args[0].aux == "core.KeywordIndices."+f {
		return t.args[0].args[0]
	}
	return nil
}

// listEntry: t = list.f[pos].
func listEntry(t *Term, f string) (list, pos *Term) {
	if b, i, ok := elemLoad(t); ok {
		return listField(b, f), i
	}
	return nil, nil
}

// tokenLists is what the score rules know of the posting lists of a query's tokens.
type tokenLists struct {
	e *Engine
	// variables that count the tokens with positions, or are false once one has none
	counts, prev map[*Term]bool
}

func (l *tokenLists) start() { l.prev, l.counts = l.counts, map[*Term]bool{} }

func (l *tokenLists) indexType(st *State, name string) (is, known bool) {
	var ty *Term
	for f := range st.facts {
		visit(f, func(x *Term) {
			if loadsField(x, "types.IndexerOpts.IndexType") {
				ty = x
			}
		})
	}
	pk := l.e.P.Pkgs["types"]
	if ty == nil || pk == nil {
		return false, false
	}
	o, ok := pk.Types.Scope().Lookup(name).(*types.Const)
	if !ok {
		return false, false
	}
	n, ok := constant.Int64Val(constant.ToInt(o.Val()))
	if !ok {
		return false, false
	}
	return st.eval(mkEq(ty, mkInt(n)))
}

// positions: t is the number of positions of a document for a keyword.
func (l *tokenLists) positions(t *Term) bool {
	if t.op != OpLen {
		return false
	}
	li, _ := listEntry(t.args[0], "locations")
	if li == nil {
		return false
	}
	_, _, ok := listAt(li)
	return ok
}

// located: what the path knows of the positions looked at in this iteration.
func (l *tokenLists) located(st *State) (some, none bool) {
	for f, v := range st.facts {
		if len(f.args) != 2 || f.op != OpEq && f.op != OpLt {
			continue
		}
		x, y := f.args[0], f.args[1]
		switch {
		case f.op == OpEq && (l.positions(x) && y == mkInt(0) || l.positions(y) && x == mkInt(0)):
			some, none = some || !v, none || v
		case f.op == OpLt && l.positions(y) && x == mkInt(0):
			some, none = some || v, none || !v
		case f.op == OpLt && l.positions(x) && y == mkInt(1):
			some, none = some || !v, none || v
		}
	}
	return
}

// count notes how an iteration changes a variable that may count the tokens with positions.
func (l *tokenLists) count(st *State, p, v *Term) {
	some, none := l.located(st)
	ok := false
	switch {
	case isIntType(p.typ):
		ok = v == p && none && !some || v == mkAdd(p, mkInt(1)) && some && !none
	case isBoolType(p.typ):
		b, isB := v.boolVal()
		ok = v == p && (some && !none || st.holds(p, false)) || isB && !b && (none && !some || st.holds(p, false))
	}
	if old, has := l.counts[p]; has {
		ok = ok && old
	}
	l.counts[p] = ok
}

// someTokenUnlocated: the document has no positions for some token (a label), or there is no token.
func (l *tokenLists) someTokenUnlocated(st *State) bool {
	n := mkLen(st.stack[0].args[1])
	if st.holds(mkEq(n, mkInt(0)), true) || st.holds(mkLt(mkInt(0), n), false) {
		return true
	}
	for f, v := range st.facts {
		switch {
		case l.prev[f] && isBoolType(f.typ) && !v:
			return true
		case f.op == OpEq && !v && (l.prev[f.args[0]] && f.args[1] == n || l.prev[f.args[1]] && f.args[0] == n):
			return true
		case f.op == OpLt && v && l.prev[f.args[0]] && f.args[1] == n:
			return true
		}
	}
	_, none := l.located(st)
	return none
}
