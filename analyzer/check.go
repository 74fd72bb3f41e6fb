package main

import (
	"encoding/json"
	"fmt"
	"os"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
	"time"

	"golang.org/x/tools/go/ssa"
)

// Ctx is one run of one check.
type Ctx struct {
	P    *Program
	ID   string
	Tier string

	obs     map[string]*obCount // obligations by kind
	kinds   []string
	viol    map[string]*Report
	fns     map[string]bool
	paths   int
	steps   int
	notes   []string
	assume  []string
	explain string
}

type obCount struct {
	Kind     string   `json:"rule"`
	Total    int      `json:"obligations"`
	OK       int      `json:"discharged"`
	Samples  []string `json:"samples"`
	seen     map[string]bool
	distinct map[string]bool
}

// ob counts one obligation (deduplicated by site) of a rule; a failing one is
// only counted here, the caller reports it.
func (c *Ctx) ob(kind, site string, ok bool) {
	o := c.obs[kind]
	if o == nil {
		o = &obCount{Kind: kind, seen: map[string]bool{}, distinct: map[string]bool{}}
		c.obs[kind] = o
		c.kinds = append(c.kinds, kind)
	}
	prev, had := o.seen[site]
	if had {
		if prev && !ok {
			o.seen[site] = false
			o.OK--
		}
		return
	}
	o.seen[site] = ok
	o.Total++
	if ok {
		o.OK++
	}
	if len(o.Samples) < 4 {
		o.Samples = append(o.Samples, site)
	}
}

func (c *Ctx) count(kind string) int {
	if o := c.obs[kind]; o != nil {
		return o.Total
	}
	return 0
}

// need makes sure a rule found at least n instances: a rule whose subject
// disappeared decides nothing.
func (c *Ctx) need(kind string, n int) {
	if c.count(kind) < n {
		c.violate("anchor:"+kind, "", "", fmt.Sprintf("rule %q found %d of at least %d instances to decide: its subject is missing from the source", kind, c.count(kind), n), nil)
	}
}

func (c *Ctx) violate(key, pos, fn, msg string, trace []string) {
	if _, ok := c.viol[key]; ok {
		return
	}
	c.viol[key] = &Report{Key: key, Pos: pos, Fn: fn, Msg: msg, Trace: trace}
}

func (c *Ctx) violateAt(key string, ins ssa.Instruction, format string, a ...any) {
	fn := ""
	if ins != nil {
		fn = fnName(ins.Parent())
	}
	c.violate(key, c.P.pos(insPos(ins)), fn, fmt.Sprintf(format, a...), nil)
}

func (c *Ctx) violateFn(key string, fn *ssa.Function, format string, a ...any) {
	c.violate(key, c.P.pos(fn.Pos()), fnName(fn), fmt.Sprintf(format, a...), nil)
}

// run explores with an engine; obligations of unfinished passes are dropped.
func (c *Ctx) run(e *Engine, mkStates func() []*State) {
	saved, kinds := c.obs, c.kinds
	start := e.PassStart
	e.PassStart = func() {
		c.obs, c.kinds = map[string]*obCount{}, nil
		if start != nil {
			start()
		}
	}
	e.RunWith(mkStates)
	e.PassStart = start
	got, order := c.obs, c.kinds
	c.obs, c.kinds = saved, kinds
	for _, k := range order {
		for _, s := range sortedKeys(got[k].seen) {
			c.ob(k, s, got[k].seen[s])
		}
	}
	c.collect(e)
}

// runRoots explores the given functions.
func (c *Ctx) runRoots(e *Engine, roots []*ssa.Function, setup func(st *State, fn *ssa.Function)) {
	c.run(e, func() []*State {
		var sts []*State
		for _, fn := range roots {
			if fn == nil {
				continue
			}
			st := e.newState(fn, nil)
			if setup != nil {
				setup(st, fn)
			}
			sts = append(sts, st)
		}
		return sts
	})
}

// collect takes over what an engine found.
func (c *Ctx) collect(e *Engine) {
	keys := make([]string, 0, len(e.reports))
	for k := range e.reports {
		keys = append(keys, k)
	}
	sort.Strings(keys)
	for _, k := range keys {
		if _, ok := c.viol[k]; !ok {
			c.viol[k] = e.reports[k]
		}
	}
	for _, u := range e.Undecided {
		c.violate("undecided:"+u, "", "", "the analysis could not decide: "+u, nil)
	}
	for f := range e.Fns {
		c.fns[f] = true
	}
	c.paths += e.Paths
	c.steps += e.Steps
}

func (c *Ctx) mustFn(name string) *ssa.Function {
	f := c.P.fn(name)
	if f == nil {
		c.violate("anchor:"+name, "", name, "exported operation "+name+" not found: nothing to decide the property on", nil)
	}
	return f
}

func (c *Ctx) note(format string, a ...any) { c.notes = append(c.notes, fmt.Sprintf(format, a...)) }

type checkDef struct {
	run     func(c *Ctx)
	explain string
	assume  []string
}

var checks = map[string]*checkDef{}

func register(id, explain string, run func(c *Ctx), assume ...string) {
	checks[id] = &checkDef{run: run, explain: explain, assume: assume}
}

type known struct{ property, key, what string }

func readKnown() []known {
	b, err := os.ReadFile(filepath.Join(verifDir, "known-findings.txt"))
	if err != nil {
		return nil
	}
	var out []known
	for _, l := range strings.Split(string(b), "\n") {
		if !strings.HasPrefix(l, "known: ") {
			continue
		}
		var k known
		rest := strings.TrimPrefix(l, "known: ")
		for _, p := range []struct {
			pre string
			dst *string
		}{{"property=", &k.property}, {"key=", &k.key}} {
			rest = strings.TrimPrefix(strings.TrimSpace(rest), p.pre)
			i := strings.IndexByte(rest, ' ')
			if i < 0 {
				i = len(rest)
			}
			*p.dst = rest[:i]
			rest = rest[i:]
		}
		k.what = strings.TrimSpace(rest)
		out = append(out, k)
	}
	return out
}

// runCheck runs one check and returns its exit code.
func runCheck(id, tier string, load func(arch string) (*Program, error)) int {
	t0 := time.Now()
	def := checks[id]
	if def == nil {
		fmt.Fprintln(os.Stderr, "no such check:", id)
		return 2
	}
	all := map[string]*Report{}
	var last *Ctx
	archs := []string{""}
	if tier == "thorough" {
		archs = append(archs, "386", "arm64")
	}
	var cs []*Ctx
	for _, arch := range archs {
		p, err := load(arch)
		if err != nil {
			fmt.Fprintln(os.Stderr, "cannot analyse /repo:", err)
			return 2
		}
		c := &Ctx{P: p, ID: id, Tier: tier, obs: map[string]*obCount{}, viol: map[string]*Report{}, fns: map[string]bool{}}
		func() {
			defer func() {
				if os.Getenv("RC_PANIC") != "" {
					return
				}
				if r := recover(); r != nil {
					c.violate("internal", "", "", fmt.Sprintf("the analysis could not decide: internal error: %v", r), nil)
				}
			}()
			def.run(c)
		}()
		for k, r := range c.viol {
			if _, ok := all[k]; !ok {
				all[k] = r
			}
		}
		cs = append(cs, c)
		last = c
	}
	kn := readKnown()
	keys := make([]string, 0, len(all))
	for k := range all {
		keys = append(keys, k)
	}
	sort.Strings(keys)
	bad := 0
	rdir := filepath.Join(verifDir, "evidence", "replay")
	os.MkdirAll(rdir, 0o755)
	olds, _ := filepath.Glob(filepath.Join(rdir, id+"-*.txt"))
	for _, f := range olds {
		os.Remove(f)
	}
	for _, k := range keys {
		r := all[k]
		isKnown := false
		for _, kf := range kn {
			if kf.property == id && kf.key == k {
				fmt.Printf("KNOWN-FINDING: property=%s %s\n", id, kf.what)
				isKnown = true
			}
		}
		if isKnown {
			continue
		}
		bad++
		path := filepath.Join("evidence", "replay", id+"-"+strconv.Itoa(bad)+".txt")
		var b strings.Builder
		fmt.Fprintf(&b, "property %s\nrule key: %s\nat: %s (%s)\n%s\n", id, r.Key, r.Pos, r.Fn, r.Msg)
		if len(r.Trace) > 0 {
			b.WriteString("\npath:\n")
			for _, t := range r.Trace {
				b.WriteString("  " + t + "\n")
			}
		}
		os.WriteFile(filepath.Join(verifDir, path), []byte(b.String()), 0o644)
		fmt.Printf("%s: %s: %s [%s]\n", r.Pos, r.Fn, r.Msg, r.Key)
		fmt.Printf("VIOLATION property=%s replay=%s\n", id, path)
	}
	writeEvidence(id, tier, def, cs, last, bad, time.Since(t0))
	if bad > 0 {
		return 1
	}
	tot, okn := 0, 0
	for _, o := range last.obs {
		tot += o.Total
		okn += o.OK
	}
	fmt.Printf("ok %s: %d obligations, %d discharged, %d functions, %d paths, %.1fs\n", id, tot, okn, len(last.fns), last.paths, time.Since(t0).Seconds())
	return 0
}

func writeEvidence(id, tier string, def *checkDef, cs []*Ctx, last *Ctx, bad int, wall time.Duration) {
	seed, _ := strconv.Atoi(os.Getenv("VERIF_SEED"))
	tot, okn, paths, steps := 0, 0, 0, 0
	var rules []*obCount
	for _, k := range last.kinds {
		rules = append(rules, last.obs[k])
	}
	for _, c := range cs {
		for _, o := range c.obs {
			tot += o.Total
			okn += o.OK
		}
		paths += c.paths
		steps += c.steps
	}
	fns := make([]string, 0, len(last.fns))
	for f := range last.fns {
		fns = append(fns, f)
	}
	sort.Strings(fns)
	builds := []string{"linux/amd64"}
	if len(cs) > 1 {
		builds = append(builds, "linux/386", "linux/arm64")
	}
	cov := map[string]any{
		"explanation":            def.explain,
		"obligations":            tot,
		"discharged":             okn,
		"rules":                  rules,
		"functions_analysed":     len(fns),
		"functions":              fns,
		"symbolic_paths":         paths,
		"instructions_evaluated": steps,
		"module_functions":       len(last.P.Fns),
		"builds_analysed":        builds,
	}
	if len(last.notes) > 0 {
		cov["notes"] = last.notes
	}
	ev := map[string]any{
		"property": id, "tier": tier, "seed": seed, "level": "other",
		"coverage": cov, "wall_s": float64(int(wall.Seconds()*100)) / 100, "violations": bad,
		"assumptions": append([]string{"one process, Go memory model; unsafe, reflection and assembly in the module's own code are not used",
			"third-party packages behave as their documentation says"}, def.assume...),
	}
	b, _ := json.MarshalIndent(ev, "", " ")
	os.MkdirAll(filepath.Join(verifDir, "evidence"), 0o755)
	os.WriteFile(filepath.Join(verifDir, "evidence", id+".json"), append(b, '\n'), 0o644)
}
