package main

import (
	"fmt"
	"go/constant"
	"go/types"
	"math"
	"math/big"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// ---- rational normal form of a real-valued expression
//
// A value computed with floating-point operations is read as the real number
// the operations stand for: sums, products and quotients of atoms. Two
// expressions are equal when they are equal as rational functions.

// poly: monomial (sorted atom names joined by *) -> coefficient.
type poly map[string]*big.Rat

type ratio struct{ num, den poly }

func polyConst(r *big.Rat) poly {
	if r.Sign() == 0 {
		return poly{}
	}
	return poly{"": r}
}

func (p poly) add(q poly, k int64) poly {
	r := poly{}
	for m, c := range p {
		r[m] = new(big.Rat).Set(c)
	}
	for m, c := range q {
		x := new(big.Rat).Mul(c, big.NewRat(k, 1))
		if o := r[m]; o != nil {
			x.Add(x, o)
		}
		if x.Sign() == 0 {
			delete(r, m)
		} else {
			r[m] = x
		}
	}
	return r
}

func (p poly) mul(q poly) poly {
	r := poly{}
	for m, c := range p {
		for n, d := range q {
			var parts []string
			if m != "" {
				parts = append(parts, strings.Split(m, "*")...)
			}
			if n != "" {
				parts = append(parts, strings.Split(n, "*")...)
			}
			sort.Strings(parts)
			r = r.add(poly{strings.Join(parts, "*"): new(big.Rat).Mul(c, d)}, 1)
		}
	}
	return r
}

func (p poly) String() string {
	var ks []string
	for m := range p {
		ks = append(ks, m)
	}
	sort.Strings(ks)
	var b strings.Builder
	for i, m := range ks {
		if i > 0 {
			b.WriteString(" + ")
		}
		b.WriteString(p[m].RatString())
		if m != "" {
			b.WriteString("*" + m)
		}
	}
	if len(ks) == 0 {
		return "0"
	}
	return b.String()
}

func ratConst(n int64) ratio { return ratio{polyConst(big.NewRat(n, 1)), polyConst(big.NewRat(1, 1))} }
func ratAtom(s string) ratio {
	return ratio{poly{s: big.NewRat(1, 1)}, polyConst(big.NewRat(1, 1))}
}
func (a ratio) add(b ratio, k int64) ratio {
	return ratio{a.num.mul(b.den).add(b.num.mul(a.den), k), a.den.mul(b.den)}
}
func (a ratio) mul(b ratio) ratio { return ratio{a.num.mul(b.num), a.den.mul(b.den)} }
func (a ratio) div(b ratio) ratio { return ratio{a.num.mul(b.den), a.den.mul(b.num)} }
func (a ratio) eq(b ratio) bool {
	return len(a.num.mul(b.den).add(b.num.mul(a.den), -1)) == 0
}
func (a ratio) String() string {
	if len(a.den) == 1 && a.den[""] != nil && a.den[""].Cmp(big.NewRat(1, 1)) == 0 {
		return "(" + a.num.String() + ")"
	}
	return "(" + a.num.String() + ")/(" + a.den.String() + ")"
}

func isIntegerType(t types.Type) bool {
	if t == nil {
		return false
	}
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsInteger != 0
}

func isFloatType(t types.Type) bool {
	if t == nil {
		return false
	}
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsFloat != 0
}

// isReal: t is a floating-point value.
func isReal(t *Term) bool {
	if t.op == OpArith && len(t.args) == 2 {
		return isReal(t.args[0]) || isReal(t.args[1])
	}
	return isFloatType(t.typ)
}

// realForms reads terms as real expressions; atoms are named by name, and the
// arguments of logarithms are compared as rational functions.
type realForms struct {
	name func(*Term) string
	logs []ratio
}

func (r *realForms) ln(x ratio) ratio {
	for i, y := range r.logs {
		if x.eq(y) {
			return ratAtom("ln" + itoa(i))
		}
	}
	r.logs = append(r.logs, x)
	return ratAtom("ln" + itoa(len(r.logs)-1))
}

func (r *realForms) of(t *Term) ratio {
	if t.op == OpConst && t.cv != nil && (t.cv.Kind() == constant.Int || t.cv.Kind() == constant.Float) {
		f, _ := constant.Float64Val(constant.ToFloat(t.cv))
		if math.Abs(f-math.Ln2) < 1e-6 {
			return ratAtom("ln2")
		}
		if x := new(big.Rat); x.SetFloat64(f) != nil {
			return ratio{polyConst(x), polyConst(big.NewRat(1, 1))}
		}
	}
	switch {
	case t.op == OpConvert && (isFloatType(t.typ) || isIntegerType(t.typ) && isIntegerType(t.args[0].typ)): // a change of precision, or an integer made a real
		return r.of(t.args[0])
	case t.op == OpZero:
		return ratConst(0)
	case t.op == OpAdd && len(t.args) == 2:
		return r.of(t.args[0]).add(r.of(t.args[1]), 1)
	case t.op == OpSub && len(t.args) == 2:
		return r.of(t.args[0]).add(r.of(t.args[1]), -1)
	case t.op == OpArith && len(t.args) == 2 && isReal(t):
		a, b := r.of(t.args[0]), r.of(t.args[1])
		switch t.aux {
		case "+":
			return a.add(b, 1)
		case "-":
			return a.add(b, -1)
		case "*":
			return a.mul(b)
		case "/":
			if len(b.num) > 0 {
				return a.div(b)
			}
		}
	case t.op == OpCall && len(t.args) == 1:
		switch t.aux {
		case "math.Log2":
			return r.ln(r.of(t.args[0])).div(ratAtom("ln2"))
		case "math.Log":
			return r.ln(r.of(t.args[0]))
		case "math.Log1p":
			return r.ln(r.of(t.args[0]).add(ratConst(1), 1))
		}
	}
	return ratAtom(r.name(t))
}

// bmLoop is what is known of a loop that sums up a score.
type bmLoop struct {
	idx, tab, doc *Term // index and list of the posting lists visited, document whose length is used
	ok            bool
	from0, step1  bool
	within        bool // no iteration is past the last token
}

func init() {
	register("C40", "Value numbering of the score computation over every plain query: the BM25 value put in each hit is followed to the loop that sums it up; the term each iteration adds is brought to a normal form (a rational function over the quantities read, rounding aside) and compared with the documented formula idf*TF*(k1+1)/(TF+k1*(1-b+b*D/L)), idf = log2(N/n+1), with TF, n, D, L, N, k1 and b traced to the fields that hold them, for the same keyword and the hit's own id; a keyword is left out only when its frequency, its posting list, the average length or the parameters are known to be nothing; the loop visits every token once; a hit without a score occurs only with an index that stores no frequencies, or where a token of the query has no positions in the document of a position index (a label).", func(c *Ctx) {
		l := newLookups(c)
		e := l.e
		bmF := fieldIdx(l.idxdT, "BM25")
		if bmF < 0 {
			return // no rule can hold: the obligations below stay unmet
		}
		pl := &tokenLists{e: e}
		loops, prevLoops := map[*Term]*bmLoop{}, map[*Term]*bmLoop{}
		starts, prevStarts := map[*Term]map[*Term]*Term{}, map[*Term]map[*Term]*Term{} // accumulator -> values of the loop's variables on entry
		zero, prevZero := map[*Term]bool{}, map[*Term]bool{}                           // accumulator starts at 0
		pass := e.PassStart
		e.PassStart = func() {
			pass()
			prevLoops, loops = loops, map[*Term]*bmLoop{}
			prevStarts, starts = starts, map[*Term]map[*Term]*Term{}
			prevZero, zero = zero, map[*Term]bool{}
			pl.start()
		}
		bad := func(st *State, key string, ins ssa.Instruction, f string, a ...any) {
			st.report("C40:"+key+":"+fnName(ins.Parent()), ins, f, a...)
		}
		forms := func(st *State, acc *Term, info *bmLoop) *realForms {
			r := &realForms{}
			use := func(list *Term) bool {
				tab, idx, ok := listAt(list)
				if !ok || info.idx != nil && (info.idx != idx || info.tab != tab) {
					return false
				}
				info.idx, info.tab = idx, tab
				return true
			}
			at := func(pos *Term) bool { // the place kept for that keyword
				_, i, ok := elemLoad(pos)
				return ok && i == info.idx
			}
			r.name = func(t *Term) string {
				switch {
				case t == acc:
					return "SUM"
				case loadsField(t, "types.BM25Parameters.K1"):
					return "k1"
				case loadsField(t, "types.BM25Parameters.B"):
					return "b"
				case loadsField(t, fTotalLen):
					return "T"
				case loadsField(t, fNumDocs):
					return "N"
				case t.op == OpMapVal && loadsField(t.args[0], fDocLens):
					if info.doc == nil || info.doc == t.args[1] {
						info.doc = t.args[1]
						return "D"
					}
				case t.op == OpLen:
					if li := listField(t.args[0], "docIds"); li != nil && use(li) {
						return "n"
					}
					if li, p := listEntry(t.args[0], "locations"); li != nil && use(li) && at(p) {
						return "fl"
					}
				default:
					if li, p := listEntry(t, "frequencies"); li != nil && use(li) && at(p) {
						return "ff"
					}
				}
				return "x" + itoa(t.id)
			}
			return r
		}
		a := ratAtom
		formula := func(r *realForms, f string, d ratio) ratio {
			idf := r.ln(a("N").div(a("n")).add(ratConst(1), 1)).div(a("ln2"))
			avg := a("T").div(a("N"))
			den := a(f).add(a("k1").mul(ratConst(1).add(a("b"), -1).add(a("b").mul(d).div(avg), 1)), 1)
			return idf.mul(a(f)).mul(a("k1").add(ratConst(1), 1)).div(den)
		}
		nothing := func(st *State, r *realForms) bool {
			small := []ratio{a("fl"), a("ff"), a("n"), a("T"), a("T").div(a("N"))}
			isSmall := func(t *Term) bool {
				x := r.of(t)
				for _, s := range small {
					if x.eq(s) {
						return true
					}
				}
				return false
			}
			for f, v := range st.facts {
				if len(f.args) != 2 {
					continue
				}
				x, y := f.args[0], f.args[1]
				switch {
				case f.op == OpEq && v && (loadsField(x, "types.IndexerOpts.BM25Parameters") && y.isNil() || loadsField(y, "types.IndexerOpts.BM25Parameters") && x.isNil()):
					return true
				case f.op == OpEq && v && (plainValue(y).isZeroValue() && isSmall(x) || plainValue(x).isZeroValue() && isSmall(y)):
					return true
				case f.op == OpLt && !v && plainValue(x).isZeroValue() && isSmall(y): // !(0 < y)
					return true
				case f.op == OpLt && v && isSmall(x) && (plainValue(y).isZeroValue() || y == mkInt(1)): // x < 0, x < 1
					return x.typ == nil || !isReal(x) || plainValue(y).isZeroValue()
				}
			}
			return false
		}
		e.Hooks.LoopPre = func(st *State, fr *Frame, h *ssa.BasicBlock, phis, vals []*Term) {
			for i, p := range phis {
				if !isFloatType(p.typ) {
					continue
				}
				z := plainValue(vals[i]).isZeroValue()
				if old, ok := zero[p]; ok {
					z = z && old
				}
				zero[p] = z
				m := starts[p]
				if m == nil {
					m = map[*Term]*Term{}
					starts[p] = m
				}
				for j, q := range phis {
					if old, ok := m[q]; ok && old != vals[j] {
						m[q] = nil
					} else {
						m[q] = vals[j]
					}
				}
			}
		}
		l.onBackedge = func(st *State, fr *Frame, h *ssa.BasicBlock, phis, vals []*Term) {
			at := fr.prev.Instrs[len(fr.prev.Instrs)-1]
			for i, p := range phis {
				if !isFloatType(p.typ) {
					pl.count(st, p, vals[i])
					continue
				}
				var seen bmLoop
				r := forms(st, p, &seen)
				delta := r.of(vals[i]).add(a("SUM"), -1)
				ok := false
				if len(delta.num) == 0 {
					ok = nothing(st, r)
				} else {
					for _, f := range []string{"fl", "ff"} {
						want := "LocsIndex"
						if f == "ff" {
							want = "FrequenciesIndex"
						}
						is, kn := pl.indexType(st, want)
						if !(is && kn) {
							continue
						}
						ok = ok || delta.eq(formula(r, f, a("D")))
						if seen.doc == nil {
							for g, v := range st.facts {
								if g.op == OpMapOk && !v && loadsField(g.args[0], fDocLens) && delta.eq(formula(r, f, ratConst(0))) {
									ok, seen.doc = true, g.args[1]
								}
							}
						}
					}
				}
				c.ob("term-is-the-formula", fmt.Sprintf("%s at %s: %v", fnName(fr.fn), e.pos(insPos(at)), p), ok)
				if !ok && prevLoops[p] != nil {
					if len(delta.num) == 0 {
						bad(st, "skipped", at, "a keyword is left out of the relevance score although its frequency, its posting list, the average length and the parameters may all be there")
					} else {
						bad(st, "formula", at, "a keyword changes the relevance score by %v, which is not the documented BM25 term", delta)
					}
				}
				seen.ok, seen.from0, seen.step1, seen.within = ok, true, true, true
				if seen.idx != nil {
					seen.within = st.proveLt(seen.idx, mkLen(st.stack[0].args[1]))
					sub := func(val func(j int) *Term) *Term {
						m := map[*Term]*Term{}
						for j, q := range phis {
							if v := val(j); v != nil {
								m[q] = v
							}
						}
						return subst(seen.idx, m)
					}
					seen.step1 = mkSub(sub(func(j int) *Term { return vals[j] }), seen.idx) == mkInt(1)
					seen.from0 = sub(func(j int) *Term { return prevStarts[p][phis[j]] }) == mkInt(0)
				}
				if o := loops[p]; o != nil {
					o.ok = o.ok && ok
					o.from0, o.step1, o.within = o.from0 && seen.from0, o.step1 && seen.step1, o.within && seen.within
					if o.idx == nil {
						o.idx, o.tab = seen.idx, seen.tab
					} else if seen.idx != nil && seen.idx != o.idx {
						o.ok = false
					}
					if o.doc == nil {
						o.doc = seen.doc
					} else if seen.doc != nil && seen.doc != o.doc {
						o.ok = false
					}
				} else {
					x := seen
					loops[p] = &x
				}
			}
		}
		app := e.Hooks.Append
		e.Hooks.Append = func(st *State, base *Term, elems []*Term, res *Term, typ types.Type, ins ssa.Instruction) {
			app(st, base, elems, res, typ, ins)
			if !types.Identical(typ.Underlying().(*types.Slice).Elem(), l.idxdT) {
				return
			}
			for _, x := range elems {
				v := plainValue(mkField(x, l.idxdT, bmF))
				site := fmt.Sprintf("%s at %s: %v", fnName(ins.Parent()), e.pos(insPos(ins)), v)
				if v.isZeroValue() {
					a, k1 := pl.indexType(st, "LocsIndex")
					b, k2 := pl.indexType(st, "FrequenciesIndex")
					ok := k1 && k2 && (!a && !b || a && pl.someTokenUnlocated(st))
					c.ob("no-score-only-without-frequencies", site, ok)
					if !ok {
						bad(st, "none", ins, "a hit has no relevance score although the index may store what it is computed from")
					}
					continue
				}
				info := prevLoops[v]
				if info == nil {
					if e.pass > 1 {
						c.ob("score-is-a-sum", site, false)
						bad(st, "sum", ins, "the relevance score of a hit is %v, not a sum over the keywords of the query", v)
					}
					e.changed = e.changed || e.pass < 3
					continue
				}
				d := mkField(x, l.idxdT, l.docF)
				ok := info.ok && info.doc != nil && st.same(info.doc, d)
				c.ob("score-of-this-document", site, ok)
				if !ok {
					bad(st, "document", ins, "the relevance score of a hit is not shown to be computed with the documented formula and the length of the document itself")
				}
				// every token, once, from 0
				n := mkLen(st.stack[0].args[1])
				full := info.idx != nil && info.from0 && info.step1 && info.within && prevZero[v] && (st.holds(mkLt(info.idx, n), false) || st.proveLe(n, info.idx))
				c.ob("sum-over-all-tokens", site, full)
				if !full {
					bad(st, "range", ins, "the relevance score of a hit is not the sum over exactly the tokens of the query (starting at 0: %v, index from 0: %v, step 1: %v, tokens only: %v)", prevZero[v], info.from0, info.step1, info.within)
				}
			}
		}
		runLookupsWith(l, lookupScenarios(c, 0, false, false)[:1], func(l *lookups, st *State, sc *scenario, fn *ssa.Function, res []*Term, ins ssa.Instruction) {})
		c.need("term-is-the-formula", 1)
		c.need("no-score-only-without-frequencies", 1)
		c.need("score-of-this-document", 1)
		c.need("sum-over-all-tokens", 1)
	}, "rounding of floating-point operations is ignored: expressions are compared as real numbers", "the posting lists of the tokens come first in the query's table and each pointer is at the hit (C03)", "the recorded lengths are right (C46)")
}
