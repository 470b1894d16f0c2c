package main

import (
	"bytes"
	"context"
	"fmt"
	"os"
	"os/exec"
	"sort"
	"strings"
	"sync"
	"sync/atomic"
	"time"
)

const prelude = `(set-option :print-success false)
(set-option :auto_config false)
(set-option :smt.mbqi false)
(set-option :smt.case_split 3)
(set-option :smt.delay_units true)
(set-option :smt.qi.eager_threshold 30)
(declare-sort F 0)
(declare-sort Str 0)
(declare-sort Addr 0)
(declare-sort Fn 0)
(declare-datatypes ((Slc 0)) (((mkS (sbase Addr) (soff Int) (slen Int) (scap Int)))))
(declare-datatypes ((Iface 0)) (((mkI (ity Int) (iad Addr)))))
(declare-datatypes ((K2 0)) (((mkK2 (k2a Int) (k2b Int)))))
(declare-datatypes ((K3 0)) (((mkK3 (k3a Int) (k3b Int) (k3c Int)))))
(declare-datatypes ((K4 0)) (((mkK4 (k4a Int) (k4b Int) (k4c Int) (k4d Int)))))
(declare-datatypes ((K6 0)) (((mkK6 (k6a Int) (k6b Int) (k6c Int) (k6d Int) (k6e Int) (k6f Int)))))
(declare-fun elem (Addr Int) Addr)
(declare-fun fld (Addr Int) Addr)
(declare-fun ebase (Addr) Addr)
(declare-fun eidx (Addr) Int)
(declare-fun fbase (Addr) Addr)
(declare-fun fidx (Addr) Int)
(declare-fun kind (Addr) Int)
(declare-fun born (Addr) Int)
(declare-fun null () Addr)
(declare-fun rk (F) Real)
(declare-fun fnan (F) Bool)
(declare-fun rkinf () Real)
(assert (= (born null) (- 1)))
(assert (= (kind null) 3))
(assert (forall ((b Addr) (i Int)) (! (and (= (ebase (elem b i)) b) (= (eidx (elem b i)) i) (= (kind (elem b i)) 1) (= (born (elem b i)) (born b))) :pattern ((elem b i)))))
(assert (forall ((b Addr) (i Int)) (! (and (= (fbase (fld b i)) b) (= (fidx (fld b i)) i) (= (kind (fld b i)) 2) (= (born (fld b i)) (born b))) :pattern ((fld b i)))))
(assert (forall ((a Addr)) (! (=> (= (kind a) 1) (= a (elem (ebase a) (eidx a)))) :pattern ((ebase a)))))
(assert (forall ((a Addr)) (! (=> (= (kind a) 2) (= a (fld (fbase a) (fidx a)))) :pattern ((fbase a)))))
(define-fun flt ((a F) (b F)) Bool (and (not (fnan a)) (not (fnan b)) (< (rk a) (rk b))))
(define-fun fle ((a F) (b F)) Bool (and (not (fnan a)) (not (fnan b)) (<= (rk a) (rk b))))
(define-fun feq ((a F) (b F)) Bool (and (not (fnan a)) (not (fnan b)) (= (rk a) (rk b))))
`

// theory facts that depend on which symbols occur
func theoryFacts(decls string) string {
	var sb strings.Builder
	has := func(n string) bool { return strings.Contains(decls, "(declare-fun "+n+" ") }
	var fcs, strs, fns, objs []string
	for _, ln := range strings.Split(decls, "\n") {
		if !strings.HasPrefix(ln, "(declare-fun ") {
			continue
		}
		n := strings.Fields(ln)[1]
		switch {
		case strings.HasPrefix(n, "f!"):
			fcs = append(fcs, n)
		case strings.HasPrefix(n, "str!"):
			strs = append(strs, n)
		case strings.HasPrefix(n, "fn!"):
			fns = append(fns, n)
		case strings.HasPrefix(n, "glob!"):
			objs = append(objs, n)
		}
	}
	if len(fcs) > 0 {
		sb.WriteString("(assert (> rkinf 1000000000000000000000000000000.0))\n")
	}
	for _, n := range fcs {
		for _, f := range fconstFacts(n) {
			sb.WriteString("(assert " + f + ")\n")
		}
	}
	dist := func(ns []string) {
		if len(ns) > 1 {
			sb.WriteString("(assert (distinct " + strings.Join(ns, " ") + "))\n")
		}
	}
	dist(strs)
	dist(fns)
	dist(objs)
	for _, o := range objs {
		sb.WriteString("(assert (and (= (born " + o + ") (- 1)) (= (kind " + o + ") 0)))\n")
	}
	if has("fadd") {
		sb.WriteString("(assert (forall ((a F) (b F)) (! (= (fadd a b) (fadd b a)) :pattern ((fadd a b)))))\n")
	}
	if has("fmul") {
		sb.WriteString("(assert (forall ((a F) (b F)) (! (= (fmul a b) (fmul b a)) :pattern ((fmul a b)))))\n")
	}
	if has("intquo") {
		sb.WriteString("(assert (forall ((a Int) (b Int)) (! (=> (and (<= 0 a) (< 0 b)) (and (<= 0 (intquo a b)) (<= (intquo a b) a) (= (= (intquo a b) 0) (< a b)))) :pattern ((intquo a b)))))\n")
	}
	if has("intrem") {
		sb.WriteString("(assert (forall ((a Int) (b Int)) (! (=> (and (<= 0 a) (< 0 b)) (and (<= 0 (intrem a b)) (<= (intrem a b) a) (< (intrem a b) b))) :pattern ((intrem a b)))))\n")
	}
	if has("i2f") {
		sb.WriteString("(assert (forall ((a Int)) (! (and (not (fnan (i2f a))) (=> (and (< (- 9007199254740992) a) (< a 9007199254740992)) (= (rk (i2f a)) (to_real a)))) :pattern ((i2f a)))))\n")
	}
	for _, s := range []string{"Int", "Bool", "F", "Str"} {
		if has("box." + s) {
			if !has("unbox." + s) {
				sb.WriteString("(declare-fun unbox." + s + " (Addr) " + s + ")\n")
			}
			sb.WriteString("(assert (forall ((v " + s + ")) (! (and (= (unbox." + s + " (box." + s + " v)) v) (= (born (box." + s + " v)) (- 1))) :pattern ((box." + s + " v)))))\n")
		}
	}
	for _, s := range []string{"Int", "Bool", "F", "Str", "Addr", "Iface"} {
		if has("occurs!" + s) {
			v := "(x " + s + ") (b Addr) (o Int) (l Int) (m (Array Addr " + s + "))"
			oc := "(occurs!" + s + " x b o l m)"
			ix := "(occidx!" + s + " x b o l m)"
			sb.WriteString("(declare-fun occidx!" + s + " (" + s + " Addr Int Int (Array Addr " + s + ")) Int)\n")
			sb.WriteString("(assert (forall (" + v + ") (! (=> " + oc + " (and (<= o " + ix + ") (< " + ix + " (+ o l)) (= (select m (elem b " + ix + ")) x))) :pattern (" + oc + "))))\n")
			sb.WriteString("(assert (forall (" + v + " (j Int)) (! (=> (and (<= o j) (< j (+ o l)) (= (select m (elem b j)) x)) " + oc + ") :pattern (" + oc + " (elem b j)))))\n")
		}
	}
	for _, k := range []string{"Int", "Str", "Addr", "F", "K2", "K3", "K4", "K6", "Fn", "Iface"} {
		n := "mapsize." + k
		if has(n) {
			sb.WriteString("(assert (= (" + n + " ((as const (Array " + k + " Bool)) false)) 0))\n")
		}
	}
	return sb.String()
}

// ---------------------------------------------------------------------------
// Triggers
// ---------------------------------------------------------------------------

type anKey struct {
	t   *T
	pos bool
}

var anMemo = map[anKey]*T{}
var anMu sync.Mutex

func hasQuant(t *T) bool {
	if v, ok := hqMemo[t]; ok {
		return v
	}
	r := t.op == "forall" || t.op == "exists"
	if !r {
		for _, a := range t.args {
			if hasQuant(a) {
				r = true
				break
			}
		}
	}
	hqMemo[t] = r
	return r
}

var hqMemo = map[*T]bool{}

func anch(t *T, pos bool) *T {
	if !hasQuant(t) {
		return t
	}
	k := anKey{t, pos}
	if v, ok := anMemo[k]; ok {
		return v
	}
	var r *T
	switch t.op {
	case "and", "or":
		var as []*T
		for _, a := range t.args {
			as = append(as, anch(a, pos))
		}
		if t.op == "and" {
			r = And(as...)
		} else {
			r = Or(as...)
		}
	case "not":
		r = Not(anch(t.args[0], !pos))
	case "=>":
		r = Implies(anch(t.args[0], !pos), anch(t.args[1], pos))
	case "ite":
		if t.sort == sBool {
			c := t.args[0]
			if hasQuant(c) {
				r = And(Implies(anch(c, !pos), anch(t.args[1], pos)), Or(anch(c, pos), anch(t.args[2], pos)))
			} else {
				r = Ite(c, anch(t.args[1], pos), anch(t.args[2], pos))
			}
		} else {
			r = t
		}
	case "=":
		if t.args[0].sort == sBool {
			a, b := t.args[0], t.args[1]
			r = And(Implies(anch(a, !pos), anch(b, pos)), Implies(anch(b, !pos), anch(a, pos)))
		} else {
			r = t
			for i := 0; i < 2; i++ {
				// x = ite(c, a, b) with a quantified condition
				if e, x := t.args[i], t.args[1-i]; e.op == "ite" && hasQuant(e.args[0]) {
					r = And(Implies(anch(e.args[0], !pos), anch(Eq(x, e.args[1]), pos)), Or(anch(e.args[0], pos), anch(Eq(x, e.args[2]), pos)))
					break
				}
			}
		}
	case "forall", "exists":
		body := anch(t.args[0], pos)
		universal := (t.op == "forall") == pos
		if len(t.pats) > 0 {
			r = Quant(t.op, t.bvs, body, t.pats)
		} else if !universal {
			r = Quant(t.op, t.bvs, body, nil)
		} else {
			r = triggered(t.op, t.bvs, body)
		}
	default:
		r = t
	}
	anMemo[k] = r
	return r
}

// linear: e = bv + rest with rest free of bv
func linear(e, bv *T) (*T, bool) {
	if e == bv {
		return Int(0), true
	}
	if !e.fvars[bv] {
		return nil, false
	}
	switch e.op {
	case "+":
		a, b := e.args[0], e.args[1]
		if a.fvars[bv] && !b.fvars[bv] {
			r, ok := linear(a, bv)
			if !ok {
				return nil, false
			}
			return Add(r, b), true
		}
		if b.fvars[bv] && !a.fvars[bv] {
			r, ok := linear(b, bv)
			if !ok {
				return nil, false
			}
			return Add(r, a), true
		}
	case "-":
		a, b := e.args[0], e.args[1]
		if a.fvars[bv] && !b.fvars[bv] {
			r, ok := linear(a, bv)
			if !ok {
				return nil, false
			}
			return Sub(r, b), true
		}
	}
	return nil, false
}

func subterms(t *T, f func(t *T)) {
	seen := map[*T]bool{}
	var w func(t *T)
	w = func(t *T) {
		if seen[t] {
			return
		}
		seen[t] = true
		f(t)
		for _, a := range t.args {
			w(a)
		}
	}
	w(t)
}

func onlyBound(t *T, bvs []*T) bool {
	// free variables of t are all visible outside (i.e. not bound deeper): any
	// variable of t must be one of bvs or a variable bound outside; deeper bound
	// variables are excluded by the caller through `deep`.
	return true
}

func triggered(q string, bvs []*T, body *T) *T {
	// variables bound deeper inside the body must not occur in patterns
	deep := map[*T]bool{}
	subterms(body, func(t *T) {
		for _, b := range t.bvs {
			deep[b] = true
		}
	})
	noDeep := func(t *T) bool {
		for v := range t.fvars {
			if deep[v] {
				return false
			}
		}
		return true
	}
	comb := And
	if q == "exists" {
		comb = Or
	}
	if len(bvs) == 1 && bvs[0].sort == sInt {
		bv := bvs[0]
		type group struct {
			base *T
			rest *T // without its integer constant
			cs   []int64
		}
		var groups []*group
		subterms(body, func(t *T) {
			if t.op != "elem" || !t.fvars[bv] || !noDeep(t) || t.args[0].fvars[bv] {
				return
			}
			rest, ok := linear(t.args[1], bv)
			if !ok {
				return
			}
			r, c := splitConst(rest)
			if r == nil {
				r = Int(0)
			}
			for _, g := range groups {
				if g.base == t.args[0] && g.rest == r {
					for _, d := range g.cs {
						if d == c {
							return
						}
					}
					g.cs = append(g.cs, c)
					return
				}
			}
			groups = append(groups, &group{t.args[0], r, []int64{c}})
		})
		sort.SliceStable(groups, func(i, j int) bool { return groups[i].base.id < groups[j].base.id })
		if len(groups) > 4 {
			groups = groups[:4]
		}
		var vs []*T
		for _, g := range groups {
			sort.Slice(g.cs, func(i, j int) bool { return g.cs[i] < g.cs[j] })
			c0 := g.cs[0]
			j := boundVar(sInt)
			// i = j - rest - c0
			nb := subst(body, bv, Sub(j, Add(g.rest, Int(c0))))
			pat := []*T{elemOf(g.base, j)}
			vars := []*T{j}
			guard := tTrue
			if len(g.cs) > 1 && len(g.cs) <= 3 {
				for _, c := range g.cs[1:] {
					k := boundVar(sInt)
					from := elemOf(g.base, Add(j, Int(c-c0)))
					nb = replaceTerm(nb, from, elemOf(g.base, k))
					guard = And(guard, Eq(k, Add(j, Int(c-c0))))
					pat = append(pat, elemOf(g.base, k))
					vars = append(vars, k)
				}
			}
			if q == "forall" {
				nb = Implies(guard, nb)
			} else {
				nb = And(guard, nb)
			}
			vs = append(vs, Quant(q, vars, nb, [][]*T{pat}))
		}
		if len(vs) > 0 {
			return comb(vs...)
		}
	}
	// applications that mention the variables directly
	okPat := func(t *T) bool {
		ok := true
		subterms(t, func(s *T) {
			if !s.free {
				return
			}
			switch s.op {
			case "+", "-", "*", "ite", "and", "or", "not", "=>", "=", "<", "<=", "forall", "exists", "div", "mod", "flt", "fle", "feq", "asconst:", "store", "to_real":
				ok = false
			}
		})
		return ok && noDeep(t)
	}
	var single []*T
	var partial []*T
	subterms(body, func(t *T) {
		if len(t.args) == 0 || !t.free {
			return
		}
		n := 0
		for _, b := range bvs {
			if t.fvars[b] {
				n++
			}
		}
		if n == 0 || !okPat(t) {
			return
		}
		if strings.HasPrefix(t.op, "mkK") || t.op == "mkS" || t.op == "mkI" {
			return
		}
		if n == len(bvs) {
			single = append(single, t)
		} else {
			partial = append(partial, t)
		}
	})
	minimal := func(ts []*T) []*T {
		var out []*T
		for _, t := range ts {
			sub := false
			subterms(t, func(s *T) {
				if s == t {
					return
				}
				for _, u := range ts {
					if u == s {
						sub = true
					}
				}
			})
			if !sub {
				out = append(out, t)
			}
		}
		sort.SliceStable(out, func(i, j int) bool { return out[i].id < out[j].id })
		return out
	}
	if len(single) > 0 {
		ms := minimal(single)
		if len(ms) > 4 {
			ms = ms[:4]
		}
		var pats [][]*T
		for _, m := range ms {
			pats = append(pats, []*T{m})
		}
		return Quant(q, bvs, body, pats)
	}
	// greedy multi-pattern
	var pat []*T
	covered := map[*T]bool{}
	ps := minimal(partial)
	for _, p := range ps {
		nw := false
		for _, b := range bvs {
			if p.fvars[b] && !covered[b] {
				nw = true
			}
		}
		if nw {
			pat = append(pat, p)
			for _, b := range bvs {
				if p.fvars[b] {
					covered[b] = true
				}
			}
		}
	}
	if len(covered) == len(bvs) && len(pat) > 0 {
		return Quant(q, bvs, body, [][]*T{pat})
	}
	return Quant(q, bvs, body, nil)
}

func replaceTerm(t, from, to *T) *T {
	memo := map[*T]*T{}
	var w func(t *T) *T
	w = func(t *T) *T {
		if t == from {
			return to
		}
		if r, ok := memo[t]; ok {
			return r
		}
		if len(t.args) == 0 {
			return t
		}
		ch := false
		as := make([]*T, len(t.args))
		for i, a := range t.args {
			as[i] = w(a)
			if as[i] != a {
				ch = true
			}
		}
		r := t
		if t.op == "forall" || t.op == "exists" {
			var pats [][]*T
			for _, p := range t.pats {
				var q []*T
				for _, a := range p {
					n := w(a)
					if n != a {
						ch = true
					}
					q = append(q, n)
				}
				pats = append(pats, q)
			}
			if ch {
				r = Quant(t.op, t.bvs, as[0], pats)
			}
		} else if ch {
			r = rebuild(t, as)
		}
		memo[t] = r
		return r
	}
	return w(t)
}

// ---------------------------------------------------------------------------
// Discharging
// ---------------------------------------------------------------------------

type Solver struct {
	axioms  []*T
	local   map[*T]string // axioms about memory: used where their package is verified
	pkg     string
	sem     chan struct{}
	mu      sync.Mutex
	queries int
	ms      int64
	byTool  map[string]int
	dump    string
	unknown int
	dumped  int64
}

func newSolver() *Solver {
	n := 8
	return &Solver{sem: make(chan struct{}, n), byTool: map[string]int{}, dump: os.Getenv("GOCV_DUMP"), local: map[*T]string{}}
}

type group struct {
	facts *Fact
	goals []*Goal
}

func groupGoals(gs []*Goal) []*group {
	var out []*group
	ix := map[*Fact]*group{}
	for _, g := range gs {
		k := ix[g.facts]
		if k == nil || len(k.goals) >= 24 {
			k = &group{facts: g.facts}
			ix[g.facts] = k
			out = append(out, k)
		}
		k.goals = append(k.goals, g)
	}
	return out
}

type job struct {
	script  []byte
	goals   []*Goal
	timeout int
}

// render must run single threaded (hash-consing)
func (s *Solver) render(g *group, rlimit int, conj bool) *job {
	facts := g.facts.list(true)
	var as []*T
	n := 0
	seen := map[*T]bool{}
	addF := func(t *T) {
		if t == tTrue || seen[t] {
			return
		}
		seen[t] = true
		as = append(as, anch(t, true))
		n++
	}
	for _, a := range s.relevant(facts, g) {
		addF(a)
	}
	for _, f := range facts {
		addF(f)
	}
	if conj {
		var cs []*T
		for _, q := range g.goals {
			cs = append(cs, q.goal)
		}
		as = append(as, anch(Not(And(cs...)), true))
	} else {
		for _, q := range g.goals {
			as = append(as, anch(skolemNot(q.goal), true))
		}
	}
	if ds := definitions(as); len(ds) > 0 {
		for i, d := range ds {
			ds[i] = anch(d, true)
		}
		as = append(ds, as...)
		n += len(ds)
	}
	as, eqs := namePatterns(as)
	as = append(eqs, as...)
	n += len(eqs)
	decls, defs, lines := renderAssertions(as)
	var b bytes.Buffer
	b.WriteString(prelude)
	b.WriteString(decls)
	b.WriteString(theoryFacts(decls))
	b.WriteString(defs)
	for _, l := range lines[:n] {
		b.WriteString("(assert " + l + ")\n")
	}
	fmt.Fprintf(&b, "(set-option :rlimit %d)\n", rlimit)
	for _, l := range lines[n:] {
		b.WriteString("(push)\n(assert " + l + ")\n(check-sat)\n(pop)\n")
	}
	return &job{script: b.Bytes(), goals: g.goals}
}

var z3bin = "z3-new"

func runZ3(bin string, script []byte, secs int) ([]string, string, int64) {
	return runZ3ctx(context.Background(), bin, script, secs)
}

func runZ3ctx(par context.Context, bin string, script []byte, secs int) ([]string, string, int64) {
	ctx, cancel := context.WithTimeout(par, time.Duration(secs)*time.Second)
	defer cancel()
	t0 := time.Now()
	var cmd *exec.Cmd
	if strings.HasPrefix(bin, "cvc5") {
		cmd = exec.CommandContext(ctx, "cvc5", "--lang=smt2", "--incremental", "--rlimit-per=2000000", "-")
	} else {
		cmd = exec.CommandContext(ctx, bin, "-smt2", "-in", "memory_max_size=3000")
	}
	cmd.Stdin = bytes.NewReader(script)
	out, _ := cmd.CombinedOutput()
	ms := time.Since(t0).Milliseconds()
	var res []string
	for _, l := range strings.Split(string(out), "\n") {
		l = strings.TrimSpace(l)
		switch l {
		case "sat", "unsat", "unknown":
			res = append(res, l)
		}
	}
	return res, string(out), ms
}

var debugErr = os.Getenv("GOCV_DEBUG") != ""

func (s *Solver) runJobs(jobs []*job, secs int) {
	var wg sync.WaitGroup
	for ji, j := range jobs {
		wg.Add(1)
		go func(ji int, j *job) {
			defer wg.Done()
			s.sem <- struct{}{}
			defer func() { <-s.sem }()
			res, out, ms := runZ3(z3bin, j.script, secs)
			s.mu.Lock()
			s.ms += ms
			s.queries += len(j.goals)
			if s.dump != "" {
				os.WriteFile(fmt.Sprintf("%s/q%05d.smt2", s.dump, s.queries), j.script, 0644)
			}
			s.mu.Unlock()
			if strings.Contains(out, "(error") {
				if debugErr {
					fmt.Fprintln(os.Stderr, "SOLVER ERROR:", firstErr(out))
				}
			}
			for i, g := range j.goals {
				g.ms += ms / int64(len(j.goals))
				if i < len(res) && res[i] == "unsat" && !strings.Contains(out, "(error \"line") {
					g.ok, g.backend, g.status = true, z3bin, "unsat"
				} else {
					g.ok = false
					if i < len(res) {
						g.status = res[i]
					} else {
						g.status = "no answer"
					}
					g.out = trunc(out, 400)
				}
			}
		}(ji, j)
	}
	wg.Wait()
}

func firstErr(out string) string {
	for _, l := range strings.Split(out, "\n") {
		if strings.Contains(l, "(error") {
			return l
		}
	}
	return ""
}

func trunc(s string, n int) string {
	if len(s) > n {
		return s[:n]
	}
	return s
}

func (s *Solver) solve(gs []*Goal, rlimit int, secs int) {
	var todo []*Goal
	for _, g := range gs {
		g.ok = false
		if g.goal == tTrue {
			g.ok, g.backend, g.status = true, "simplifier", "unsat"
			continue
		}
		if knownFact(g.facts, g.goal) {
			g.ok, g.backend, g.status = true, "simplifier", "unsat"
			continue
		}
		todo = append(todo, g)
	}
	var jobs []*job
	gs2 := groupGoals(todo)
	for _, g := range gs2 {
		// spread a large group over the cores
		n := (8 + len(gs2) - 1) / len(gs2)
		if k := (len(g.goals) + 2) / 3; n > k {
			n = k
		}
		for i := 0; i < n; i++ {
			c := &group{facts: g.facts}
			for j := i; j < len(g.goals); j += n {
				c.goals = append(c.goals, g.goals[j])
			}
			jobs = append(jobs, s.render(c, rlimit, false))
		}
	}
	s.runJobs(jobs, secs)
}

func knownFact(f *Fact, t *T) bool {
	n := 0
	for ; f != nil && n < 4000; f = f.parent {
		if f.t == t && (f.cand == nil || f.cand.alive) {
			return true
		}
		n++
	}
	return false
}

// portfolio: goals that failed are given to several solver configurations at
// once; the first proof wins.
func (s *Solver) retry(gs []*Goal, rlimit, secs int) {
	var todo []*Goal
	var scripts [][]byte
	for _, g := range gs {
		if !g.ok {
			todo = append(todo, g)
			scripts = append(scripts, s.render(&group{facts: g.facts, goals: []*Goal{g}}, rlimit, false).script)
		}
	}
	type cfg struct {
		name, bin string
		alt       bool
	}
	cfgs := []cfg{{z3bin, z3bin, false}, {z3bin + " (no relevancy)", z3bin, true}, {z3bin + " (defaults)", z3bin, true}, {"z3 4.8", "z3", true}}
	var wg sync.WaitGroup
	for i, g := range todo {
		ctx, cancel := context.WithCancel(context.Background())
		var mu sync.Mutex
		left := len(cfgs)
		for _, c := range cfgs {
			wg.Add(1)
			go func(i int, g *Goal, sc []byte, c cfg) {
				defer wg.Done()
				defer func() {
					mu.Lock()
					left--
					if left == 0 {
						cancel()
					}
					mu.Unlock()
				}()
				s.sem <- struct{}{}
				defer func() { <-s.sem }()
				if ctx.Err() != nil {
					return
				}
				if c.alt {
					if strings.Contains(c.name, "relevancy") {
						sc = append([]byte("(set-option :smt.relevancy 0)\n"), sc...)
					}
					sc = bytes.Replace(sc, []byte("(set-option :smt.case_split 3)\n(set-option :smt.delay_units true)\n(set-option :smt.qi.eager_threshold 30)\n"), nil, 1)
				}
				if s.dump != "" {
					os.WriteFile(fmt.Sprintf("%s/r%d-%d-%s.smt2", s.dump, atomic.AddInt64(&s.dumped, 1), i, strings.ReplaceAll(c.name, " ", "")), append([]byte("; "+g.describe()+"\n"), sc...), 0o644)
				}
				res, out, ms := runZ3ctx(ctx, c.bin, sc, secs)
				s.mu.Lock()
				s.ms += ms
				s.mu.Unlock()
				mu.Lock()
				defer mu.Unlock()
				if len(res) == 1 && res[0] == "unsat" && !strings.Contains(out, "(error \"line") {
					if !g.ok {
						g.ok, g.backend, g.status = true, c.name, "unsat"
					}
					cancel()
				} else if !g.ok && len(res) == 1 {
					g.status = res[0]
					g.out = trunc(out, 400)
				}
			}(i, g, scripts[i], c)
		}
	}
	wg.Wait()
}

func candsOf(f *Fact, memo map[*Fact]map[*Cand]bool) map[*Cand]bool {
	out := map[*Cand]bool{}
	for ; f != nil; f = f.parent {
		if f.cand != nil {
			out[f.cand] = true
		}
	}
	return out
}

// houdini drops candidate invariants until the rest is inductive.
func (s *Solver) houdini(goals []*Goal, rl, secs int, full bool) int {
	var inits, keeps []*Goal
	for _, g := range goals {
		if g.cand == nil {
			continue
		}
		if g.kind == "inv-init" {
			inits = append(inits, g)
		} else {
			keeps = append(keeps, g)
		}
	}
	rounds := 0
	deps := map[*Fact]map[*Cand]bool{}
	for _, g := range goals {
		if _, ok := deps[g.facts]; !ok {
			deps[g.facts] = candsOf(g.facts, nil)
		}
	}
	all := append(append([]*Goal{}, inits...), keeps...)
	pending := all
	for {
		rounds++
		var chk []*Goal
		for _, g := range pending {
			if g.cand.alive {
				chk = append(chk, g)
			}
		}
		if len(chk) == 0 {
			return rounds
		}
		t0 := time.Now()
		s.solve(chk, 1000000, 20)
		if os.Getenv("GOCV_CANDS") != "" {
			fmt.Fprintf(os.Stderr, "round %d: %d checks %v\n", rounds, len(chk), time.Since(t0))
		}
		// the inferred candidates are dropped first; a user candidate is judged (with a
		// larger budget) only against the surviving ones
		var again []*Goal
		junk := false
		// an instance of a clause that fails where another instance of the clause holds
		// is most likely for the wrong variables
		failing, rival := map[*Cand]bool{}, map[string]bool{}
		for _, g := range chk {
			if !g.ok {
				failing[g.cand] = true
			}
		}
		if !full {
			for _, g := range all {
				if g.cand.user && g.cand.alive && !failing[g.cand] {
					rival[g.cand.grp] = true
				}
			}
		}
		for _, g := range chk {
			if !g.ok && g.cand.user && !rival[g.cand.grp] {
				again = append(again, g)
			} else if !g.ok {
				junk = true
			}
		}
		if !junk && len(again) > 0 {
			t0 := time.Now()
			s.retry(again, rl, secs)
			if os.Getenv("GOCV_CANDS") != "" {
				fmt.Fprintf(os.Stderr, "retry %d: %v\n", len(again), time.Since(t0))
			}
		}
		dropped := map[*Cand]bool{}
		for _, g := range chk {
			if !g.ok && g.cand.alive && (!junk || !g.cand.user || rival[g.cand.grp]) {
				g.cand.alive = false
				dropped[g.cand] = true
				if os.Getenv("GOCV_CANDS") != "" {
					fmt.Fprintf(os.Stderr, "  drop [%s] %s at %s (%s)\n", g.kind, g.cand.desc, g.pos, g.status)
				}
			}
		}
		if len(dropped) == 0 {
			return rounds
		}
		pending = nil
		for _, g := range all {
			if !g.cand.alive {
				continue
			}
			for d := range dropped {
				if deps[g.facts][d] {
					pending = append(pending, g)
					break
				}
			}
		}
		if junk {
			in := map[*Goal]bool{}
			for _, g := range pending {
				in[g] = true
			}
			for _, g := range again {
				if !in[g] {
					pending = append(pending, g)
				}
			}
		}
	}
}

// relevant: the axioms about logic functions the query is about
func (s *Solver) relevant(facts []*T, g *group) []*T {
	have := map[string]bool{}
	seen := map[*T]bool{}
	var walk func(t *T)
	walk = func(t *T) {
		if seen[t] {
			return
		}
		seen[t] = true
		if strings.HasPrefix(t.op, "lg!") {
			have[t.op] = true
		}
		if d := namedDefs[t.op]; d != nil {
			walk(d.body)
		}
		for _, a := range t.args {
			walk(a)
		}
	}
	for _, f := range facts {
		walk(f)
	}
	for _, q := range g.goals {
		walk(q.goal)
	}
	used := make([]bool, len(s.axioms))
	for again := true; again; {
		again = false
		for i, a := range s.axioms {
			if used[i] {
				continue
			}
			if s.local[a] != "" && s.local[a] != s.pkg {
				continue
			}
			syms := logicSyms(a)
			take := len(syms) == 0
			for _, y := range syms {
				take = take || have[y]
			}
			if take {
				used[i], again = true, true
				walk(a)
			}
		}
	}
	var out []*T
	for i, a := range s.axioms {
		if used[i] {
			out = append(out, a)
		}
	}
	return out
}

func logicSyms(t *T) []string {
	var out []string
	subterms(t, func(u *T) {
		if strings.HasPrefix(u.op, "lg!") {
			out = append(out, u.op)
		}
	})
	return out
}

// describe names a goal in dumped queries
func (g *Goal) describe() string {
	d := g.kind + " " + g.pos + " " + g.label
	if g.cand != nil {
		d += " " + g.cand.desc
	}
	return strings.ReplaceAll(d, "\n", " ")
}

// skolemNot negates a goal, with its outer universal variables as constants
func skolemNot(g *T) *T {
	k := 0
	var w func(t *T) *T
	w = func(t *T) *T {
		switch t.op {
		case "forall":
			b := t.args[0]
			for _, v := range t.bvs {
				k++
				b = replaceTerm(b, v, constSym(fmt.Sprintf("sk!%s!%d", cleanName(v.sort), k), v.sort))
			}
			return w(b)
		case "=>":
			return And(t.args[0], w(t.args[1]))
		}
		return Not(t)
	}
	return w(g)
}

// namePatterns gives names to the ground terms in patterns that the solver would rewrite
// (a select from a store becomes a conditional, which no pattern may contain)
func namePatterns(as []*T) ([]*T, []*T) {
	var eqs []*T
	named := map[*T]*T{}
	interp := func(t *T) bool {
		f := false
		subterms(t, func(s *T) {
			if s.op == "store" || s.op == "ite" {
				f = true
			}
		})
		return f
	}
	name := func(t *T) *T {
		if c := named[t]; c != nil {
			return c
		}
		c := constSym(fmt.Sprintf("pt!%s!%d", cleanName(t.sort), len(named)), t.sort)
		named[t] = c
		eqs = append(eqs, Eq(c, t))
		return c
	}
	var pat func(t *T) *T
	pat = func(t *T) *T {
		if !interp(t) {
			return t
		}
		if !t.free {
			return name(t)
		}
		if len(t.args) == 0 || t.op == "forall" || t.op == "exists" {
			return t
		}
		args := make([]*T, len(t.args))
		for i, a := range t.args {
			args[i] = pat(a)
		}
		return mk(t.op, t.sort, args...)
	}
	memo := map[*T]*T{}
	var w func(t *T) *T
	w = func(t *T) *T {
		if !hasQuant(t) {
			return t
		}
		if r, ok := memo[t]; ok {
			return r
		}
		args := make([]*T, len(t.args))
		ch := false
		for i, a := range t.args {
			args[i] = w(a)
			ch = ch || args[i] != a
		}
		r := t
		if t.op == "forall" || t.op == "exists" {
			var pats [][]*T
			for _, p := range t.pats {
				var q []*T
				for _, a := range p {
					n := pat(a)
					ch = ch || n != a
					q = append(q, n)
				}
				pats = append(pats, q)
			}
			if ch {
				r = Quant(t.op, t.bvs, args[0], pats)
			}
		} else if ch {
			r = rebuild(t, args)
		}
		memo[t] = r
		return r
	}
	out := make([]*T, len(as))
	for i, a := range as {
		out[i] = w(a)
	}
	return out, eqs
}
