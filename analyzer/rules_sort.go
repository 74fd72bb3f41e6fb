package main

import (
	"fmt"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// permSt follows what a function does to the elements of one slice since they
// last were a rearrangement of the input.
type permSt struct {
	base  *Term // slice written to (nil: nothing pending)
	log   []permWrite
	reads map[*Term]permRead
	first *State // the state before the first write
	hole  *permHole
}

type permWrite struct{ idx, val *Term }
type permRead struct {
	base, idx *Term
	at        int // writes that had happened
}

// permHole: the slot idx holds a leftover in place of the missing element val.
type permHole struct {
	base, idx, val *Term
	key            string
}

func (p *permSt) Key() string {
	s := ""
	if p.base != nil {
		s = fmt.Sprint(p.base.id)
	}
	for _, w := range p.log {
		s += fmt.Sprint("w", w.idx.id, ",", w.val.id)
	}
	if p.hole != nil {
		s += fmt.Sprint("h", p.hole.idx.id, ",", p.hole.val.id)
	}
	return s
}
func (p *permSt) Clone() Client {
	n := *p
	n.log = append([]permWrite(nil), p.log...)
	n.reads = map[*Term]permRead{}
	for k, v := range p.reads {
		n.reads[k] = v
	}
	return &n
}
func (p *permSt) settle() {
	p.base, p.log, p.first, p.hole = nil, nil, nil, nil
	p.reads = map[*Term]permRead{}
}

// partitions calls f for every way the terms can be equal or different that
// the path allows; class maps each term to its representative.
func partitions(s *State, ts []*Term, f func(s *State, class map[*Term]*Term) bool) bool {
	var rec func(s *State, i int, class map[*Term]*Term, reps []*Term) bool
	rec = func(s *State, i int, class map[*Term]*Term, reps []*Term) bool {
		if i == len(ts) {
			return f(s, class)
		}
		for _, r := range reps {
			n := s.clone()
			if !n.assume(mkEq(ts[i], r), true) {
				continue
			}
			class[ts[i]] = r
			ok := rec(n, i+1, class, reps)
			delete(class, ts[i])
			if !ok {
				return false
			}
		}
		n := s.clone()
		for _, r := range reps {
			if ts[i] == r || !n.assume(mkEq(ts[i], r), false) {
				return true // always equal to an earlier one
			}
		}
		class[ts[i]] = ts[i]
		ok := rec(n, i+1, class, append(append([]*Term(nil), reps...), ts[i]))
		delete(class, ts[i])
		return ok
	}
	return rec(s, 0, map[*Term]*Term{}, nil)
}

// balanced: the slice holds the same elements as before; slot (when given)
// may hold anything, provided the hole it replaces is accounted for.
func (p *permSt) balanced(st *State, slot *Term, from *Term) bool {
	set := map[*Term]bool{}
	var ts []*Term
	add := func(t *Term) {
		if t != nil && !set[t] {
			set[t] = true
			ts = append(ts, t)
		}
	}
	for _, w := range p.log {
		add(w.idx)
		if r, ok := p.reads[w.val]; ok {
			add(r.idx)
		}
	}
	if p.hole != nil {
		add(p.hole.idx)
	}
	add(slot)
	add(from)
	if len(ts) > 6 {
		return false
	}
	return partitions(st, ts, func(s *State, class map[*Term]*Term) bool {
		tok := func(c *Term) string {
			if p.hole != nil && class[p.hole.idx] == c {
				return "junk"
			}
			return fmt.Sprint("a", c.id)
		}
		cont := map[*Term]string{}
		for _, c := range class {
			if class[c] == c {
				cont[c] = tok(c)
			}
		}
		hist := []map[*Term]string{{}}
		snap := func() {
			m := map[*Term]string{}
			for k, v := range cont {
				m[k] = v
			}
			hist = append(hist, m)
		}
		hist = nil
		snap()
		value := func(v *Term) string {
			if p.hole != nil && v == p.hole.val {
				return "missing"
			}
			if r, ok := p.reads[v]; ok && r.base == p.base && class[r.idx] != nil && r.at < len(hist) {
				return hist[r.at][class[r.idx]]
			}
			return "?" + fmt.Sprint(v.id)
		}
		for _, w := range p.log {
			cont[class[w.idx]] = value(w.val)
			snap()
		}
		n := map[string]int{}
		for c, v := range cont {
			if slot != nil && class[slot] == c {
				v = "slot"
			}
			n[v]++
			init := tok(c)
			if init == "junk" {
				if slot != nil {
					init = "slot"
				} else {
					init = "missing"
				}
			} else if from != nil && class[from] == c {
				init = "slot"
			}
			n[init]--
		}
		for _, k := range n {
			if k != 0 {
				return false
			}
		}
		return true
	})
}

func intSlice(t types.Type) bool {
	s, ok := t.Underlying().(*types.Slice)
	return ok && isIntType(s.Elem())
}

func intSliceParam(fn *ssa.Function) bool {
	for _, p := range fn.Params {
		if intSlice(p.Type()) {
			return true
		}
	}
	return false
}

// runPerm decides one function; it returns the reports.
func runPerm(c *Ctx, fn *ssa.Function, opaque map[*ssa.Function]bool, final bool) bool {
	e := NewEngine(c.P)
	e.Coarse = true
	e.Opaque = func(f *ssa.Function) bool { return opaque[f] }
	get := func(st *State) *permSt { return st.client.(*permSt) }
	type hint struct {
		phi *Term
	}
	hints := map[string]hint{}
	sites := map[string]bool{}
	split := func(loc *Term) (base, idx *Term, ok bool) {
		if loc.op != OpIndexAddr || loc.args[0].typ == nil {
			return nil, nil, false
		}
		b := loc.args[0]
		if isLocalRoot(rootOf(b)) {
			return nil, nil, false
		}
		if !intSlice(b.typ) {
			return nil, nil, false
		}
		r, lo, _ := sliceParts(b)
		return r, mkAdd(lo, loc.args[1]), true
	}
	boundary := func(st *State, ins ssa.Instruction, what string) {
		p := get(st)
		if p.base == nil && p.hole == nil {
			return
		}
		if p.balanced(st, nil, nil) {
			p.settle()
			return
		}
		st.report("C38:"+fnName(ins.Parent())+":unbalanced", ins, "%s while the elements are not a rearrangement of the input: one element was overwritten without being kept", what)
	}
	e.Hooks.Load = func(st *State, loc, val *Term, ins ssa.Instruction) {
		if b, i, ok := split(loc); ok {
			p := get(st)
			if _, had := p.reads[val]; !had {
				p.reads[val] = permRead{b, i, len(p.log)}
			}
		}
	}
	e.Hooks.Store = func(st *State, loc, val *Term, ins ssa.Instruction) {
		b, i, ok := split(loc)
		if !ok {
			return
		}
		p := get(st)
		sites[e.pos(insPos(ins))+" "+fnName(ins.Parent())] = true
		if p.base == nil && p.hole != nil {
			p.base = p.hole.base
		}
		if p.base != nil && p.base != b {
			boundary(st, ins, "another slice is written")
		}
		p.base = b
		p.log = append(p.log, permWrite{i, val})
		if len(p.log) > 1 && p.balanced(st, nil, nil) {
			p.settle()
		}
	}
	loopID := func(fr *Frame, h *ssa.BasicBlock) string { return e.loopKey(fr, h) }
	type pre struct{ base, idx, val *Term }
	pres := map[string]pre{}
	e.Hooks.LoopPre = func(st *State, fr *Frame, h *ssa.BasicBlock, phis, vals []*Term) {
		boundary(st, h.Instrs[0], "a loop starts")
		hn, ok := hints[loopID(fr, h)]
		if !ok {
			return
		}
		for i, ph := range phis {
			if ph != hn.phi {
				continue
			}
			for _, prm := range fr.fn.Params {
				if intSlice(prm.Type()) {
					b, lo, _ := sliceParts(fr.env[prm])
					el := prm.Type().Underlying().(*types.Slice).Elem()
					pres[loopID(fr, h)] = pre{b, ph, st.load(mkIndexAddr(b, mkAdd(lo, vals[i]), el), el)}
				}
			}
		}
	}
	e.Hooks.LoopEnter = func(st *State, fr *Frame, h *ssa.BasicBlock) {
		p := get(st)
		p.settle()
		if pr, ok := pres[loopID(fr, h)]; ok {
			p.hole = &permHole{pr.base, pr.idx, pr.val, loopID(fr, h)}
		}
	}
	e.Hooks.Backedge = func(st *State, fr *Frame, h *ssa.BasicBlock, phis, vals []*Term) {
		p := get(st)
		key := loopID(fr, h)
		ins := h.Instrs[0]
		if hn, ok := hints[key]; ok {
			for i, ph := range phis {
				if ph == hn.phi {
					if p.hole != nil && p.hole.key == key && p.balanced(st, vals[i], nil) {
						p.settle()
						p.hole = &permHole{pres[key].base, ph, pres[key].val, key}
						return
					}
				}
			}
		} else if p.base != nil && !p.balanced(st, nil, nil) && p.hole == nil {
			for i, ph := range phis {
				if isIntType(ph.typ) && p.balanced(st, vals[i], ph) {
					hints[key] = hint{ph}
					e.changed = true
					return
				}
			}
		}
		boundary(st, ins, "an iteration ends")
	}
	e.Hooks.Return = func(st *State, f *ssa.Function, res []*Term, ins ssa.Instruction) {
		boundary(st, ins, "the function returns")
	}
	passes := func(ci *CallInfo) bool {
		for _, a := range ci.Args {
			if a.typ != nil && intSlice(a.typ) && !isLocalRoot(rootOf(a)) {
				return true
			}
		}
		return false
	}
	harmless := func(name string) bool {
		return pureFn(name) || strings.HasPrefix(name, "sort.") || strings.HasPrefix(name, "slices.Sort") || name == "slices.Reverse" || strings.HasPrefix(name, "fmt.") || strings.HasPrefix(name, "log.")
	}
	e.Hooks.Called = func(st *State, ci *CallInfo, res *Term) {
		if passes(ci) && !(ci.Fn != nil && opaque[ci.Fn]) && !harmless(ci.Name) {
			st.report("C38:"+fnName(ci.Instr.Parent())+":handed:"+ci.Name, ci.Instr, "the slice is handed to %s, which is not known to only rearrange it", ci.Name)
		}
	}
	e.Hooks.Call = func(st *State, ci *CallInfo) (bool, *Term) {
		if passes(ci) && ci.Fn != nil && opaque[ci.Fn] {
			boundary(st, ci.Instr, "another sort step is called")
		}
		return false, nil
	}
	e.Hooks.Go = func(st *State, ci *CallInfo) {
		if passes(ci) && !(ci.Fn != nil && opaque[ci.Fn]) {
			st.report("C38:"+fnName(ci.Instr.Parent())+":go", ci.Instr, "the slice is handed to a goroutine")
		}
	}
	e.Hooks.Copy = func(st *State, dst, src *Term, ins ssa.Instruction) {
		if dst.typ != nil && intSlice(dst.typ) && !isLocalRoot(rootOf(dst)) {
			st.report("C38:"+fnName(ins.Parent())+":copy", ins, "elements are overwritten by copying %v over %v", src, dst)
		}
	}
	e.Hooks.AppendAll = func(st *State, base, other, res *Term, typ types.Type, ins ssa.Instruction) {
		if intSlice(typ) && base.op == OpSlice && !isLocalRoot(rootOf(base)) {
			st.report("C38:"+fnName(ins.Parent())+":append", ins, "elements are overwritten by appending to a part of the slice")
		}
	}
	e.Hooks.Append = func(st *State, base *Term, elems []*Term, res *Term, typ types.Type, ins ssa.Instruction) {
		if intSlice(typ) && base.op == OpSlice && !isLocalRoot(rootOf(base)) {
			st.report("C38:"+fnName(ins.Parent())+":append", ins, "elements are overwritten by appending to a part of the slice")
		}
	}
	mk := func() []*State {
		st := e.newState(fn, nil)
		st.client = &permSt{reads: map[*Term]permRead{}}
		return []*State{st}
	}
	start := e.PassStart
	e.PassStart = func() {
		pres = map[string]pre{}
		sites = map[string]bool{}
		if start != nil {
			start()
		}
	}
	if !final {
		e.RunWith(mk)
		if len(e.reports) > 0 || len(e.Undecided) > 0 {
			return false
		}
		for f := range e.Fns {
			c.fns[f] = true
		}
		c.paths += e.Paths
		c.steps += e.Steps
	} else {
		c.run(e, mk)
	}
	for _, s := range sortedKeys(sites) {
		c.ob("element-write-is-part-of-an-exchange", s, len(e.reports) == 0)
	}
	c.ob("function-rearranges-only", fnName(fn), len(e.reports) == 0)
	return len(e.reports) == 0
}

func init() {
	register("C38", "Permutation analysis of the integer sort helpers: for each helper, bottom-up over the call graph, every write to an element of the given slice is logged together with where the written value was read; at each call, loop boundary and return the writes since the last settled point must rearrange the elements touched, for every way their indices may coincide on the path (loops that shift a gap along are followed with the gap's position as invariant). Copying, appending into the slice, or handing it to unknown code is refused.",
		func(c *Ctx) {
			sliceFns := func(f *ssa.Function) bool { return inModule(f) && intSliceParam(f) }
			var roots []*ssa.Function
			for _, f := range c.P.pkgFns("core") {
				if !isExported(f) || f.Signature.Recv() != nil || f.Synthetic != "" {
					continue
				}
				for _, p := range f.Params {
					if s, ok := p.Type().Underlying().(*types.Slice); ok && types.TypeString(s.Elem(), nil) == "uint64" {
						roots = append(roots, f)
						break
					}
				}
			}
			// bottom-up over the call graph
			var order []*ssa.Function
			mark := map[*ssa.Function]int{}
			cyc := map[*ssa.Function]bool{}
			var walk func(f *ssa.Function)
			walk = func(f *ssa.Function) {
				mark[f] = 1
				for _, ci := range callsIn(f) {
					g := ci.Common().StaticCallee()
					if g == nil || !sliceFns(g) {
						continue
					}
					if mark[g] == 1 {
						cyc[g] = true
					}
					if mark[g] == 0 {
						walk(g)
					}
				}
				mark[f] = 2
				order = append(order, f)
			}
			isRoot := map[*ssa.Function]bool{}
			for _, r := range roots {
				isRoot[r] = true
				if mark[r] == 0 {
					walk(r)
				}
			}
			good := map[*ssa.Function]bool{}
			for _, f := range order {
				good[f] = cyc[f]
			}
			for _, f := range order {
				good[f] = runPerm(c, f, good, isRoot[f] || cyc[f]) || cyc[f]
			}
			c.need("function-rearranges-only", 1)
			c.need("element-write-is-part-of-an-exchange", 1)
			c.note("%d helpers reachable from %d exported functions", len(order), len(roots))
		}, "sort.* and slices.Sort* only rearrange what they sort")
}
