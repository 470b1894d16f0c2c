package main

import (
	"encoding/json"
	"flag"
	"fmt"
	"os"
	"os/exec"
	"sort"
	"strings"
	"sync"
	"time"

	"golang.org/x/tools/go/ssa"
)

type FuncResult struct {
	Name      string       `json:"function"`
	Status    string       `json:"status"` // proved, failed, undecided, vacuous, trusted
	Reason    string       `json:"reason,omitempty"`
	Goals     []GoalReport `json:"obligations"`
	Discharge int          `json:"discharged"`
	Total     int          `json:"total"`
	Invs      int          `json:"invariants"`
	InvChecks int          `json:"invariant_obligations"`
	Used      []string     `json:"contracts_used,omitempty"`
	Inlined   []string     `json:"inlined,omitempty"`
	Trusted   []string     `json:"trusted,omitempty"`
	Ms        int64        `json:"ms"`
	Returns   int          `json:"returns"`
}

type GoalReport struct {
	Kind    string   `json:"kind"`
	Label   string   `json:"label"`
	Props   []string `json:"props,omitempty"`
	Pos     string   `json:"pos,omitempty"`
	Ok      bool     `json:"ok"`
	Backend string   `json:"backend,omitempty"`
	Status  string   `json:"status,omitempty"`
	Count   int      `json:"count"`
	Output  string   `json:"output,omitempty"`
}

func newExec(P *Program, S *Specs, fn *ssa.Function, sp *FuncSpec) *Exec {
	return &Exec{prog: P, specs: S, fn: fn, spec: sp, allocs: map[*T]bool{}, used: map[string]bool{}, trust: map[string]bool{}, inl: map[string]bool{}}
}

func (x *Exec) verify(sol *Solver, only string) (res *FuncResult) {
	t0 := time.Now()
	res = &FuncResult{Name: specName(x.fn)}
	if x.fn.Pkg != nil {
		sol.pkg = x.fn.Pkg.Pkg.Name()
	}
	finish := func() {
		res.Ms = time.Since(t0).Milliseconds()
		res.Used = keysOf(x.used)
		res.Inlined = keysOf(x.inl)
		res.Trusted = keysOf(x.trust)
	}
	defer func() {
		if r := recover(); r != nil {
			if u, ok := r.(unsupported); ok {
				res.Status, res.Reason = "undecided", u.msg
				finish()
				return
			}
			panic(r)
		}
	}()
	st := newState()
	var args []Value
	for i, p := range x.fn.Params {
		n := p.Name()
		if i < len(x.spec.params) {
			n = x.spec.params[i]
		}
		args = append(args, st.freshVal(p.Type(), "in."+n))
	}
	x.rootB = x.paramBinds(x.spec, x.fn, args)
	var binds []Value
	for i, p := range x.fn.FreeVars {
		n := p.Name()
		if j := len(x.fn.Params) + i; j < len(x.spec.params) {
			n = x.spec.params[j]
		}
		v := st.freshVal(p.Type(), "in."+n)
		binds = append(binds, v)
		x.rootB[n] = TV{v, p.Type()}
	}
	x.safe = x.spec.safe
	ctx := &Ctx{x: x, st: st, old: st, binds: x.rootB, pkg: x.spec.pkg}
	for _, r := range x.spec.requires {
		st.assume(ctx.boolean(r.e))
	}
	x.init = st.clone()
	items := (&Ctx{x: x, st: x.init, old: x.init, binds: x.rootB, pkg: x.spec.pkg}).modItems(x.spec.modifies)
	if len(items) > 0 {
		x.modOK = func(key string, loc *T) *T {
			var cs []*T
			for _, it := range items {
				if it.key == key {
					cs = append(cs, it.matches(loc))
				}
			}
			return Or(cs...)
		}
	}
	// the frame holds for the body when it is inlined as the root
	rets := x.runRoot(st, args, binds)
	res.Returns = len(rets)
	var retFacts []*Fact
	for ri, r := range rets {
		post := &Ctx{x: x, st: r.st, old: x.init, binds: bindResults(x.rootB, x.spec, x.fn, tupleOf(r.vs)), pkg: x.spec.pkg}
		for _, e := range x.spec.ensures {
			g := post.boolean(e.e)
			x.goals = append(x.goals, &Goal{fn: specName(x.fn), kind: "ensures", label: clauseName(e), props: e.props, pos: fmt.Sprintf("return %d", ri+1), facts: r.st.facts, goal: g})
		}
		retFacts = append(retFacts, r.st.facts)
	}
	res.InvChecks = 0
	tm := time.Now()
	phase := func(n string) {
		if os.Getenv("GOCV_CANDS") != "" {
			fmt.Fprintf(os.Stderr, "phase %s: %v\n", n, time.Since(tm))
		}
		tm = time.Now()
	}
	var real []*Goal
	for _, g := range x.goals {
		if g.cand == nil {
			real = append(real, g)
		}
	}
	// candidates that need a large budget are first given up; only if the obligations
	// do not go through without them they get it
	sol.houdini(x.goals, 4000000, 3, false)
	phase("houdini")
	sol.solve(real, 800000, 20)
	phase("solve")
	open := false
	for _, g := range real {
		open = open || !g.ok
	}
	gaveUp := false
	fast := os.Getenv("GOCV_FAST") != ""
	for _, c := range x.cands {
		gaveUp = gaveUp || (!c.alive && c.user)
	}
	if open && gaveUp && !fast {
		sol.retry(real, 6000000, 5)
		open = false
		for _, g := range real {
			open = open || !g.ok
		}
		phase("retry")
	}
	if open && gaveUp && !fast {
		for _, c := range x.cands {
			c.alive = true
		}
		sol.houdini(x.goals, 12000000, 20, true)
		phase("houdini")
		sol.solve(real, 800000, 20)
		phase("solve")
	}
	for _, c := range x.cands {
		if os.Getenv("GOCV_CANDS") != "" && c.user {
			fmt.Fprintf(os.Stderr, "user candidate alive=%v %s\n", c.alive, c.desc)
		}
		if c.alive {
			res.Invs++
		}
	}
	for _, g := range x.goals {
		if g.cand != nil && g.cand.alive {
			res.InvChecks++
		}
	}
	sol.retry(real, 60000000, 40)
	phase("retry")
	// vacuity
	var vac []*Goal
	for _, f := range retFacts {
		vac = append(vac, &Goal{kind: "vacuity", facts: f, goal: tFalse})
	}
	sol.solve(vac, 2000000, 10)
	phase("vacuity")
	nv := 0
	for _, g := range vac {
		if g.ok {
			nv++
		}
	}
	failed := 0
	agg := map[string]int{}
	for _, g := range real {
		res.Total++
		if g.ok {
			res.Discharge++
		} else {
			failed++
		}
		k := fmt.Sprintf("%s|%s|%v|%v", g.kind, g.label, g.ok, g.backend)
		if g.kind != "ensures" {
			k += g.pos
		}
		if i, ok := agg[k]; ok {
			res.Goals[i].Count++
			continue
		}
		agg[k] = len(res.Goals)
		gr := GoalReport{Kind: g.kind, Label: g.label, Props: g.props, Pos: g.pos, Ok: g.ok, Backend: g.backend, Count: 1}
		if !g.ok {
			gr.Status = g.status
			gr.Output = g.out
		}
		res.Goals = append(res.Goals, gr)
	}
	res.Status = "proved"
	if failed > 0 {
		res.Status = "failed"
	} else if len(vac) > 0 && nv == len(vac) {
		res.Status, res.Reason = "vacuous", "the assumptions are contradictory at every return"
	} else if res.Total == 0 {
		res.Status, res.Reason = "vacuous", "no obligations"
	}
	finish()
	return res
}

func (x *Exec) runRoot(st *State, args, binds []Value) []retState {
	return x.inline(st, x.fn, args, binds)
}

func keysOf(m map[string]bool) []string {
	var out []string
	for k := range m {
		out = append(out, k)
	}
	sort.Strings(out)
	return out
}

// axioms and lemmas
func buildAxioms(P *Program, S *Specs, sol *Solver) (lemmas []*Goal, err error) {
	defer func() {
		if r := recover(); r != nil {
			if u, ok := r.(unsupported); ok {
				err = fmt.Errorf("axiom: %s", u.msg)
				return
			}
			panic(r)
		}
	}()
	for _, a := range S.axioms {
		x := &Exec{prog: P, specs: S, allocs: map[*T]bool{}, used: map[string]bool{}, trust: map[string]bool{}, inl: map[string]bool{}, inSpec: 1}
		st := newState()
		var mems []*T
		st.anyMem = &mems
		t := (&Ctx{x: x, st: st, old: st, binds: map[string]TV{}, pkg: a.pkg}).boolean(a.e)
		if len(mems) > 0 {
			// an axiom about memory holds in every memory
			if t.op != "forall" || len(t.pats) == 0 {
				unsup("%s: an axiom about memory needs a trigger", a.name)
			}
			t = Quant("forall", append(append([]*T{}, t.bvs...), mems...), t.args[0], t.pats)
			sol.local[t] = a.pkg
		}
		if a.lem {
			lemmas = append(lemmas, &Goal{kind: "lemma", label: a.name, goal: t})
			var ax []*T
			ax = append(ax, sol.axioms...)
			_ = ax
			g := lemmas[len(lemmas)-1]
			sol.solve([]*Goal{g}, 20000000, 30)
		}
		sol.axioms = append(sol.axioms, t)
	}
	return lemmas, nil
}

func main() {
	dir := flag.String("repo", "/repo", "repository")
	cdir := flag.String("contracts", "/verif/contracts", "contract files")
	fnFlag := flag.String("func", "", "verify only these functions (comma separated)")
	prop := flag.String("prop", "", "verify what a property needs")
	outp := flag.String("out", "", "write the JSON report here")
	list := flag.String("list", "", "list functions of a package")
	dumpf := flag.String("ssa", "", "dump SSA of a function")
	verbose := flag.Bool("v", false, "verbose")
	flag.Parse()
	repoDir = *dir
	t0 := time.Now()
	P, err := loadProgram(*dir)
	if err != nil {
		fmt.Fprintln(os.Stderr, "load:", err)
		os.Exit(3)
	}
	if *list != "" {
		var ns []string
		for n, f := range P.byName {
			if strings.HasPrefix(n, *list+".") && isRepoFn(f) {
				ns = append(ns, n)
			}
		}
		sort.Strings(ns)
		fmt.Println(strings.Join(ns, "\n"))
		return
	}
	if *dumpf != "" {
		for _, n := range strings.Split(*dumpf, ",") {
			if f := P.byName[n]; f != nil {
				f.WriteTo(os.Stdout)
			}
		}
		return
	}
	S, err := parseSpecs(P, *cdir)
	if err != nil {
		fmt.Fprintln(os.Stderr, "contracts:", err)
		os.Exit(3)
	}
	sol := newSolver()
	lemmas, err := buildAxioms(P, S, sol)
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(3)
	}
	var names []string
	seen := map[string]bool{}
	addN := func(n string) {
		if !seen[n] {
			seen[n] = true
			names = append(names, n)
		}
	}
	switch {
	case *fnFlag != "":
		for _, n := range strings.Split(*fnFlag, ",") {
			addN(n)
		}
	case *prop != "":
		if p := S.props[*prop]; p != nil {
			for _, n := range p.targets {
				addN(n)
			}
		}
		for _, n := range S.order {
			if S.funcs[n].props[*prop] {
				addN(n)
			}
		}
	default:
		for _, n := range S.order {
			addN(n)
		}
	}
	type Report struct {
		Property string        `json:"property,omitempty"`
		Funcs    []*FuncResult `json:"functions"`
		Lemmas   []GoalReport  `json:"lemmas,omitempty"`
		Axioms   []string      `json:"axioms,omitempty"`
		Queries  int           `json:"queries"`
		SolverMs int64         `json:"solver_ms"`
		WallMs   int64         `json:"wall_ms"`
		LoadMs   int64         `json:"load_ms"`
		Missing  []string      `json:"missing,omitempty"`
	}
	var workers func(n string) *FuncResult
	rep := &Report{Property: *prop, LoadMs: time.Since(t0).Milliseconds()}
	for _, l := range lemmas {
		rep.Lemmas = append(rep.Lemmas, GoalReport{Kind: "lemma", Label: l.label, Ok: l.ok, Backend: l.backend, Status: l.status, Count: 1})
	}
	for _, a := range S.axioms {
		if !a.lem {
			rep.Axioms = append(rep.Axioms, a.name+": "+a.src)
		}
	}
	// Every function is verified in a process of its own: what it takes to
	// prove it does not depend on what was verified before.
	if *fnFlag == "" {
		type slot struct {
			done chan struct{}
			rep  *Report
			err  error
		}
		self, err := os.Executable()
		if err != nil {
			fmt.Fprintln(os.Stderr, err)
			os.Exit(3)
		}
		slots := map[string]*slot{}
		sem := make(chan bool, 3)
		var mu sync.Mutex
		tmp, err := os.MkdirTemp("", "gocv")
		if err != nil {
			fmt.Fprintln(os.Stderr, err)
			os.Exit(3)
		}
		defer os.RemoveAll(tmp)
		own := func(n string) bool {
			sp := S.funcs[n]
			return sp != nil && !(sp.trusted || sp.inline && len(sp.ensures) == 0 || sp.opaque) && P.byName[n] != nil && S.forFunc(P.byName[n]) != nil
		}
		var start func(n string)
		start = func(n string) {
			mu.Lock()
			defer mu.Unlock()
			if slots[n] != nil || !own(n) {
				return
			}
			sl := &slot{done: make(chan struct{})}
			slots[n] = sl
			out := fmt.Sprintf("%s/%d.json", tmp, len(slots))
			go func() {
				defer close(sl.done)
				sem <- true
				defer func() { <-sem }()
				cmd := exec.Command(self, "-repo", *dir, "-contracts", *cdir, "-func", n, "-prop", *prop, "-out", out)
				cmd.Stderr = os.Stderr
				if sl.err = cmd.Run(); sl.err != nil {
					return
				}
				b, err := os.ReadFile(out)
				if err != nil {
					sl.err = err
					return
				}
				sl.rep = &Report{}
				sl.err = json.Unmarshal(b, sl.rep)
				if sl.err == nil && len(sl.rep.Funcs) == 1 {
					for _, u := range sl.rep.Funcs[0].Used {
						start(u)
					}
				}
			}()
		}
		for _, n := range names {
			start(n)
		}
		workers = func(n string) *FuncResult {
			mu.Lock()
			sl := slots[n]
			mu.Unlock()
			if sl == nil {
				return nil
			}
			<-sl.done
			if sl.err != nil || len(sl.rep.Funcs) != 1 {
				return &FuncResult{Name: n, Status: "undecided", Reason: fmt.Sprintf("verifier ended: %v", sl.err)}
			}
			sol.queries += sl.rep.Queries
			sol.ms += sl.rep.SolverMs
			return sl.rep.Funcs[0]
		}
	}
	for i := 0; i < len(names); i++ {
		n := names[i]
		sp := S.funcs[n]
		fn := P.byName[n]
		if sp == nil {
			rep.Funcs = append(rep.Funcs, &FuncResult{Name: n, Status: "undecided", Reason: "no contract"})
			continue
		}
		if sp.trusted || sp.inline && len(sp.ensures) == 0 || sp.opaque {
			if sp.trusted {
				rep.Funcs = append(rep.Funcs, &FuncResult{Name: n, Status: "trusted"})
			}
			continue
		}
		if fn == nil {
			rep.Funcs = append(rep.Funcs, &FuncResult{Name: n, Status: "undecided", Reason: "function not found in the current source"})
			continue
		}
		if S.forFunc(fn) == nil {
			rep.Funcs = append(rep.Funcs, &FuncResult{Name: n, Status: "undecided", Reason: "signature no longer matches the contract"})
			continue
		}
		var r *FuncResult
		if workers != nil {
			r = workers(n)
		}
		if r == nil {
			r = newExec(P, S, fn, sp).verify(sol, *prop)
		}
		rep.Funcs = append(rep.Funcs, r)
		if *verbose || *fnFlag != "" {
			fmt.Printf("%-10s %-45s %d/%d invs=%d rets=%d %dms %s\n", r.Status, r.Name, r.Discharge, r.Total, r.Invs, r.Returns, r.Ms, r.Reason)
			for _, g := range r.Goals {
				if !g.Ok {
					fmt.Printf("    FAIL %s %s @%s x%d %s\n", g.Kind, g.Label, g.Pos, g.Count, g.Status)
				}
			}
		}
		if *fnFlag == "" {
			for _, u := range r.Used {
				addN(u)
			}
		}
	}
	rep.Queries, rep.SolverMs, rep.WallMs = sol.queries, sol.ms, time.Since(t0).Milliseconds()
	if *outp != "" {
		b, _ := json.MarshalIndent(rep, "", " ")
		if err := os.WriteFile(*outp, b, 0644); err != nil {
			fmt.Fprintln(os.Stderr, err)
			os.Exit(3)
		}
	}
	if *verbose {
		fmt.Printf("queries %d solver %d ms wall %d ms\n", rep.Queries, rep.SolverMs, rep.WallMs)
	}
}
