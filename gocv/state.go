package main

import (
	"fmt"
	"go/types"
	"sort"

	"golang.org/x/tools/go/ssa"
)

type Cand struct {
	id    int
	desc  string
	user  bool
	grp   string // the clause and the loop it is instantiated for
	alive bool
	eval  func(st *State) *T
}

type Fact struct {
	parent *Fact
	t      *T
	cand   *Cand
	depth  int
}

type State struct {
	anyMem   *[]*T // memories stand for any memory (axioms)
	facts    *Fact
	factSet  map[*T]bool // facts known (for syntactic pruning); shared copy-on-fork is too costly, kept per state
	env      map[ssa.Value]Value
	cells    map[*T]Value
	cellType map[*T]types.Type // shared
	escaped  map[*T]bool
	mem      map[string]*T
	ghost    map[string]Value
	now      *T
	path     []*T // branch conditions since the start of a spec evaluation
	dead     bool
}

func newState() *State {
	return &State{
		factSet: map[*T]bool{}, env: map[ssa.Value]Value{}, cells: map[*T]Value{}, cellType: map[*T]types.Type{},
		escaped: map[*T]bool{}, mem: map[string]*T{}, ghost: map[string]Value{}, now: Int(0),
	}
}

func (st *State) clone() *State {
	n := &State{facts: st.facts, now: st.now, cellType: st.cellType}
	n.factSet = make(map[*T]bool, len(st.factSet))
	for k := range st.factSet {
		n.factSet[k] = true
	}
	n.env = make(map[ssa.Value]Value, len(st.env))
	for k, v := range st.env {
		n.env[k] = v
	}
	n.cells = make(map[*T]Value, len(st.cells))
	for k, v := range st.cells {
		n.cells[k] = v
	}
	n.escaped = make(map[*T]bool, len(st.escaped))
	for k := range st.escaped {
		n.escaped[k] = true
	}
	n.mem = make(map[string]*T, len(st.mem))
	for k, v := range st.mem {
		n.mem[k] = v
	}
	n.ghost = make(map[string]Value, len(st.ghost))
	for k, v := range st.ghost {
		n.ghost[k] = v
	}
	n.path = append([]*T{}, st.path...)
	return n
}

func (st *State) assume(t *T) { st.assumeC(t, nil) }

func (st *State) assumeC(t *T, c *Cand) {
	if t == tTrue {
		return
	}
	if t.op == "and" && c == nil {
		for _, a := range t.args {
			st.assumeC(a, nil)
		}
		return
	}
	if c == nil {
		if st.factSet[t] {
			return
		}
		st.factSet[t] = true
	}
	d := 0
	if st.facts != nil {
		d = st.facts.depth + 1
	}
	if t.free {
		panic(fmt.Sprintf("fact with free variable: %s", t))
	}
	st.facts = &Fact{st.facts, t, c, d}
}

// branch assumes a branch condition; false if it is contradicted syntactically.
func (st *State) branch(c *T) bool {
	if c == tFalse {
		return false
	}
	if st.factSet[Not(c)] {
		return false
	}
	st.path = append(st.path, c)
	if !c.free {
		st.assume(c)
	}
	return true
}

func (f *Fact) list(alive bool) []*T {
	var out []*T
	for ; f != nil; f = f.parent {
		if f.cand != nil && !f.cand.alive {
			continue
		}
		out = append(out, f.t)
	}
	for i, j := 0, len(out)-1; i < j; i, j = i+1, j-1 {
		out[i], out[j] = out[j], out[i]
	}
	return out
}

func commonAncestor(fs []*Fact) *Fact {
	cur := append([]*Fact{}, fs...)
	for {
		same := true
		var minD = 1 << 60
		for _, f := range cur {
			if f != cur[0] {
				same = false
			}
			d := -1
			if f != nil {
				d = f.depth
			}
			if d < minD {
				minD = d
			}
		}
		if same {
			return cur[0]
		}
		if minD < 0 {
			return nil
		}
		for i, f := range cur {
			for f != nil && f.depth > minD {
				f = f.parent
			}
			cur[i] = f
		}
		// all at the same depth now; if they differ step one up
		same = true
		for _, f := range cur {
			if f != cur[0] {
				same = false
			}
		}
		if !same {
			for i, f := range cur {
				if f != nil {
					cur[i] = f.parent
				}
			}
		}
	}
}

// mergeStates joins states that reached the same point. extra lists further
// values per state to be merged (call results).
func mergeStates(sts []*State, extra [][]Value, extraT []types.Type) (*State, []Value) {
	if len(sts) == 1 {
		if extra == nil {
			return sts[0], nil
		}
		return sts[0], extra[0]
	}
	// cells that escaped in one state escape in all
	for {
		n := 0
		for _, s := range sts {
			n += len(s.escaped)
		}
		for _, s := range sts {
			for _, r := range sortedTerms(s.escaped) {
				for _, o := range sts {
					if _, ok := o.cells[r]; ok {
						o.escapeAddr(r)
					}
				}
			}
		}
		// differing values that mention cells
		for _, k := range sortedEnv(sts[0].env) {
			// a value some branch lacks is dropped below: nothing can use it
			differ, kept := false, true
			for _, s := range sts[1:] {
				v, ok := s.env[k]
				if !ok {
					kept = false
				} else if !sameVal(v, sts[0].env[k]) {
					differ = true
				}
			}
			if differ && kept {
				for _, s := range sts {
					if v, ok := s.env[k]; ok {
						s.escape(v)
					}
				}
			}
		}
		for _, r := range sortedTerms(sts[0].cells) {
			v0, live := sts[0].cells[r]
			if !live {
				continue
			}
			differ := false
			for _, s := range sts[1:] {
				v, ok := s.cells[r]
				if !ok || !sameVal(v, v0) {
					differ = true
				}
			}
			if differ {
				for _, s := range sts {
					if v, ok := s.cells[r]; ok {
						s.escape(v)
					}
				}
			}
		}
		for i := range extra {
			for j := range extra[i] {
				if !sameVal(extra[i][j], extra[0][j]) {
					for i2 := range extra {
						sts[i2].escape(extra[i2][j])
					}
				}
			}
		}
		m := 0
		for _, s := range sts {
			m += len(s.escaped)
		}
		if m == n {
			break
		}
	}
	fs := make([]*Fact, len(sts))
	for i, s := range sts {
		fs[i] = s.facts
	}
	anc := commonAncestor(fs)
	n := newState()
	n.cellType = sts[0].cellType
	n.facts = anc
	for k := range sts[0].factSet {
		all := true
		for _, s := range sts[1:] {
			if !s.factSet[k] {
				all = false
				break
			}
		}
		if all {
			n.factSet[k] = true
		}
	}
	for _, s := range sts {
		for r := range s.escaped {
			n.escaped[r] = true
		}
	}
	// selectors
	sel := make([]*T, len(sts))
	for i := range sts {
		sel[i] = freshConst("via", sBool)
	}
	n.assume(Or(sel...))
	// facts shared by all suffixes
	inAnc := map[*T]bool{}
	for f := anc; f != nil; f = f.parent {
		if f.cand == nil {
			inAnc[f.t] = true
		}
	}
	var shared []*T
	for f := sts[0].facts; f != anc; f = f.parent {
		if f.cand == nil && n.factSet[f.t] && !inAnc[f.t] {
			inAnc[f.t] = true
			shared = append(shared, f.t)
		}
	}
	for i := len(shared) - 1; i >= 0; i-- {
		n.forceAssume(shared[i], nil)
	}
	// suffix facts
	for i, s := range sts {
		var suf []*Fact
		for f := s.facts; f != anc; f = f.parent {
			suf = append(suf, f)
		}
		for j := len(suf) - 1; j >= 0; j-- {
			f := suf[j]
			if f.cand == nil && inAnc[f.t] {
				continue
			}
			n.forceAssume(Implies(sel[i], f.t), f.cand)
		}
	}
	mergeVal := func(vs []Value, t types.Type, hint string) Value {
		same := true
		for _, v := range vs[1:] {
			if !sameVal(v, vs[0]) {
				same = false
			}
		}
		if same {
			return vs[0]
		}
		nv := mergedShape(vs[0], hint)
		for i, v := range vs {
			n.assume(Implies(sel[i], eqVal(nv, v)))
		}
		return nv
	}
	// env
	var keys []ssa.Value
	for k := range sts[0].env {
		keys = append(keys, k)
	}
	sort.Slice(keys, func(i, j int) bool { return valOrder(keys[i]) < valOrder(keys[j]) })
	for _, k := range keys {
		var vs []Value
		ok := true
		for _, s := range sts {
			v, has := s.env[k]
			if !has {
				ok = false
				break
			}
			vs = append(vs, v)
		}
		if ok {
			if mergeable(vs) {
				n.env[k] = mergeVal(vs, k.Type(), k.Name())
			}
		}
	}
	var roots []*T
	for r := range sts[0].cells {
		roots = append(roots, r)
	}
	sort.Slice(roots, func(i, j int) bool { return roots[i].id < roots[j].id })
	for _, r := range roots {
		var vs []Value
		ok := true
		for _, s := range sts {
			v, has := s.cells[r]
			if !has {
				ok = false
				break
			}
			vs = append(vs, v)
		}
		if ok {
			n.cells[r] = mergeVal(vs, n.cellType[r], "cell")
		}
	}
	// memories
	mk := map[string]bool{}
	for _, s := range sts {
		for k := range s.mem {
			mk[k] = true
		}
	}
	var mks []string
	for k := range mk {
		mks = append(mks, k)
	}
	sort.Strings(mks)
	for _, k := range mks {
		var vs []Value
		for _, s := range sts {
			vs = append(vs, s.memOf(k, memSorts[k]))
		}
		n.mem[k] = mergeVal(vs, nil, "M!"+k).(*T)
	}
	gk := map[string]bool{}
	for _, s := range sts {
		for k := range s.ghost {
			gk[k] = true
		}
	}
	var gks []string
	for k := range gk {
		gks = append(gks, k)
	}
	sort.Strings(gks)
	for _, k := range gks {
		var vs []Value
		ok := true
		for _, s := range sts {
			v, has := s.ghost[k]
			if !has {
				ok = false
				break
			}
			vs = append(vs, v)
		}
		if ok {
			n.ghost[k] = mergeVal(vs, nil, k)
		}
	}
	nows := []Value{}
	for _, s := range sts {
		nows = append(nows, s.now)
	}
	n.now = mergeVal(nows, nil, "now").(*T)
	var ex []Value
	if extra != nil {
		for j := range extra[0] {
			var vs []Value
			for i := range extra {
				vs = append(vs, extra[i][j])
			}
			ex = append(ex, mergeVal(vs, nil, "ret"))
		}
	}
	// path conditions: disjunction
	var alts []*T
	for _, s := range sts {
		alts = append(alts, And(s.path...))
	}
	n.path = []*T{Or(alts...)}
	return n, ex
}

func (st *State) forceAssume(t *T, c *Cand) {
	if t == tTrue {
		return
	}
	d := 0
	if st.facts != nil {
		d = st.facts.depth + 1
	}
	st.facts = &Fact{st.facts, t, c, d}
}

func mergeable(vs []Value) bool {
	for _, v := range vs {
		switch v.(type) {
		case *T, *Agg:
		default:
			for _, w := range vs {
				if w != v {
					return false
				}
			}
			return true
		}
	}
	return shapeEq(vs)
}

func shapeEq(vs []Value) bool {
	for _, v := range vs[1:] {
		if !shape2(vs[0], v) {
			return false
		}
	}
	return true
}
func shape2(a, b Value) bool {
	switch x := a.(type) {
	case *T:
		y, ok := b.(*T)
		return ok && x.sort == y.sort
	case *Agg:
		y, ok := b.(*Agg)
		if !ok || len(x.es) != len(y.es) {
			return false
		}
		for i := range x.es {
			if !shape2(x.es[i], y.es[i]) {
				return false
			}
		}
		return true
	}
	return a == b
}

func mergedShape(v Value, hint string) Value {
	switch x := v.(type) {
	case *T:
		if x.sort == sSlc {
			return mkSlc(freshConst(hint+".base", sAddr), freshConst(hint+".off", sInt), freshConst(hint+".len", sInt), freshConst(hint+".cap", sInt))
		}
		return freshConst(hint, x.sort)
	case *Agg:
		o := &Agg{}
		for i, e := range x.es {
			o.es = append(o.es, mergedShape(e, fmt.Sprintf("%s.%d", hint, i)))
		}
		return o
	}
	return v
}

var fnNum = map[*ssa.Function]map[ssa.Value]int{}

// valOrder numbers the values of a function in program order.
func valOrder(v ssa.Value) int {
	fn := v.Parent()
	if fn == nil {
		return -1
	}
	m := fnNum[fn]
	if m == nil {
		m = map[ssa.Value]int{}
		for _, p := range fn.Params {
			m[p] = len(m)
		}
		for _, p := range fn.FreeVars {
			m[p] = len(m)
		}
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				if w, ok := in.(ssa.Value); ok {
					m[w] = len(m)
				}
			}
		}
		fnNum[fn] = m
	}
	return m[v]
}

func sortedEnv(m map[ssa.Value]Value) []ssa.Value {
	var keys []ssa.Value
	for k := range m {
		keys = append(keys, k)
	}
	sort.Slice(keys, func(i, j int) bool { return valOrder(keys[i]) < valOrder(keys[j]) })
	return keys
}

func sortedTerms[V any](m map[*T]V) []*T {
	var keys []*T
	for k := range m {
		keys = append(keys, k)
	}
	sort.Slice(keys, func(i, j int) bool { return keys[i].id < keys[j].id })
	return keys
}

func sortedStr[V any](m map[string]V) []string {
	var keys []string
	for k := range m {
		keys = append(keys, k)
	}
	sort.Strings(keys)
	return keys
}
