package main

import (
	"fmt"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type Goal struct {
	fn    string // function under verification
	kind  string // ensures, requires, inv-init, inv-keep, frame, safety, panic, reach
	label string
	props []string
	pos   string
	facts *Fact
	goal  *T
	cand  *Cand // candidate this goal checks

	ok      bool
	backend string
	ms      int64
	status  string
	out     string
}

type Exec struct {
	prog   *Program
	specs  *Specs
	fn     *ssa.Function // root function under verification
	spec   *FuncSpec
	goals  []*Goal
	cands  []*Cand
	candID int
	depth  int
	stack  []*ssa.Function
	inSpec int // >0: evaluating a specification expression
	allocs map[*T]bool
	init   *State // state at entry (for old)
	rootB  map[string]TV
	modOK  func(key string, loc *T) *T // allowed writes of the root function
	used   map[string]bool             // contracts used at call sites
	trust  map[string]bool             // trusted / opaque callees
	inl    map[string]bool             // inlined functions
	iters  int
	notes  []string
	safe   bool
}

type mapIter struct {
	id  int
	m   *T
	mt  *types.Map
	key string
}

type Frame struct {
	fn    *ssa.Function
	rpo   []*ssa.BasicBlock
	rpoIx map[*ssa.BasicBlock]int
	loops map[*ssa.BasicBlock]*Loop // by header
	inner map[*ssa.BasicBlock]*Loop // innermost loop of a block
	spec  *FuncSpec
	args  []Value
	binds map[string]TV
	entry *State
	id    int
}

type Loop struct {
	header *ssa.BasicBlock
	blocks map[*ssa.BasicBlock]bool
	parent *Loop
	ord    int
}

type edgeState struct {
	from, to *ssa.BasicBlock
	st       *State
}

type retState struct {
	st *State
	vs []Value
}

var frameSeq = 0

func (x *Exec) newFrame(fn *ssa.Function) *Frame {
	frameSeq++
	fr := &Frame{fn: fn, rpoIx: map[*ssa.BasicBlock]int{}, loops: map[*ssa.BasicBlock]*Loop{}, inner: map[*ssa.BasicBlock]*Loop{}, id: frameSeq}
	seen := map[*ssa.BasicBlock]bool{}
	var post []*ssa.BasicBlock
	var dfs func(b *ssa.BasicBlock)
	dfs = func(b *ssa.BasicBlock) {
		seen[b] = true
		for _, s := range b.Succs {
			if !seen[s] {
				dfs(s)
			}
		}
		post = append(post, b)
	}
	dfs(fn.Blocks[0])
	for i := len(post) - 1; i >= 0; i-- {
		fr.rpoIx[post[i]] = len(fr.rpo)
		fr.rpo = append(fr.rpo, post[i])
	}
	for _, b := range fr.rpo {
		for _, s := range b.Succs {
			if fr.rpoIx[s] <= fr.rpoIx[b] { // retreating edge
				if !s.Dominates(b) {
					unsup("irreducible loop in %s", fn)
				}
				L := fr.loops[s]
				if L == nil {
					L = &Loop{header: s, blocks: map[*ssa.BasicBlock]bool{s: true}}
					fr.loops[s] = L
				}
				// natural loop body
				work := []*ssa.BasicBlock{b}
				for len(work) > 0 {
					c := work[len(work)-1]
					work = work[:len(work)-1]
					if L.blocks[c] {
						continue
					}
					L.blocks[c] = true
					for _, p := range c.Preds {
						if seen[p] {
							work = append(work, p)
						}
					}
				}
			}
		}
	}
	var ls []*Loop
	for _, b := range fr.rpo {
		if L := fr.loops[b]; L != nil {
			L.ord = len(ls)
			ls = append(ls, L)
		}
	}
	sort.SliceStable(ls, func(i, j int) bool { return len(ls[i].blocks) > len(ls[j].blocks) })
	for _, L := range ls {
		L.parent = fr.inner[L.header]
		for b := range L.blocks {
			fr.inner[b] = L
		}
	}
	return fr
}

func (x *Exec) pos(p token.Pos) string {
	if !p.IsValid() {
		return ""
	}
	ps := x.prog.prog.Fset.Position(p)
	f := ps.Filename
	f = strings.TrimPrefix(f, repoDir+"/")
	return fmt.Sprintf("%s:%d", f, ps.Line)
}

func (x *Exec) goal(st *State, kind, label string, props []string, pos string, g *T) {
	if g == tTrue && kind != "ensures" {
		return
	}
	if x.inSpec > 0 {
		return
	}
	x.goals = append(x.goals, &Goal{fn: specName(x.fn), kind: kind, label: label, props: props, pos: pos, facts: st.facts, goal: g})
}

// frameCheck: a write to (key,loc) under condition c is allowed.
func (x *Exec) frameCheck(st *State, key string, loc *T, c *T) {
	if x.inSpec > 0 {
		unsup("write in specification")
	}
	if x.allocs[rootOf(loc)] {
		return
	}
	ok := Le(Int(0), bornOf(rootOf(loc)))
	if x.modOK != nil {
		m := x.modOK(key, loc)
		if m == tTrue {
			return
		}
		ok = Or(ok, m)
	}
	x.goal(st, "frame", "only permitted memory is written ("+key+")", nil, "", Implies(c, ok))
}

// call executes fn on args, inlining its body; it returns the states at its returns.
func (x *Exec) inline(st *State, fn *ssa.Function, args []Value, binds []Value) []retState {
	if len(fn.Blocks) == 0 {
		unsup("no body: %s", fn)
	}
	for _, f := range x.stack {
		if f == fn {
			unsup("recursive inlining of %s", fn)
		}
	}
	if len(x.stack) > 24 {
		unsup("inlining too deep at %s", fn)
	}
	x.stack = append(x.stack, fn)
	defer func() { x.stack = x.stack[:len(x.stack)-1] }()
	caller := st.env
	st.env = map[ssa.Value]Value{}
	for i, p := range fn.Params {
		st.env[p] = args[i]
	}
	for i, p := range fn.FreeVars {
		st.env[p] = binds[i]
	}
	fr := x.newFrame(fn)
	fr.args = args
	if x.inSpec == 0 {
		fr.spec = x.specs.forFunc(fn)
		fr.entry = st.clone()
		fr.binds = x.paramBinds(fr.spec, fn, args)
	}
	rets := x.runBody(fr, st)
	for i := range rets {
		env := caller
		if i > 0 {
			env = make(map[ssa.Value]Value, len(caller))
			for k, v := range caller {
				env[k] = v
			}
		}
		rets[i].st.env = env
	}
	return rets
}

func (x *Exec) runBody(fr *Frame, st *State) []retState {
	var rets []retState
	x.runRegion(fr, nil, fr.fn.Blocks[0], []edgeState{{nil, fr.fn.Blocks[0], st}}, func(e edgeState) {
		unsup("edge out of function body")
	}, func(e edgeState) { unsup("back edge to entry block") }, &rets)
	return rets
}

const mergeLimit = 5

// runRegion executes the blocks of loop L (or the whole function) starting at
// `start`. Edges leaving the region go to exit, edges to L's header to back.
func (x *Exec) runRegion(fr *Frame, L *Loop, start *ssa.BasicBlock, in []edgeState, exit, back func(edgeState), rets *[]retState) {
	pending := map[*ssa.BasicBlock][]edgeState{start: in}
	emit := func(e edgeState) {
		if e.st.dead {
			return
		}
		if L != nil && e.to == L.header {
			back(e)
		} else if L != nil && !L.blocks[e.to] {
			exit(e)
		} else {
			pending[e.to] = append(pending[e.to], e)
		}
	}
	for _, b := range fr.rpo {
		es := pending[b]
		if len(es) == 0 {
			continue
		}
		delete(pending, b)
		if inner := fr.loops[b]; inner != nil && inner != L {
			if x.inSpec > 0 {
				unsup("loop in specification function %s", fr.fn)
			}
			var sts []*State
			for _, e := range es {
				x.phis(e)
				sts = append(sts, e.st)
			}
			st, _ := mergeStates(sts, nil, nil)
			x.runLoop(fr, inner, st, emit, rets)
			continue
		}
		var sts []*State
		for _, e := range es {
			if !(L != nil && b == L.header) {
				x.phis(e)
			}
			sts = append(sts, e.st)
		}
		if x.inSpec == 0 && len(sts) > mergeLimit {
			m, _ := mergeStates(sts, nil, nil)
			sts = []*State{m}
		}
		x.runBlock(fr, b, sts, emit, rets)
	}
}

// phis evaluates the phi nodes of e.to along the edge.
func (x *Exec) phis(e edgeState) {
	if e.from == nil {
		return
	}
	idx := -1
	for i, p := range e.to.Preds {
		if p == e.from {
			idx = i
		}
	}
	var vals []Value
	var phs []*ssa.Phi
	for _, in := range e.to.Instrs {
		ph, ok := in.(*ssa.Phi)
		if !ok {
			break
		}
		phs = append(phs, ph)
		vals = append(vals, x.val(e.st, ph.Edges[idx]))
	}
	for i, ph := range phs {
		e.st.env[ph] = vals[i]
	}
}

func (x *Exec) val(st *State, v ssa.Value) Value {
	switch c := v.(type) {
	case *ssa.Const:
		return constVal(c)
	case *ssa.Function:
		return fnConst(c)
	case *ssa.Global:
		return globalAddr(c)
	case *ssa.Builtin:
		return nil
	}
	r, ok := st.env[v]
	if !ok {
		unsup("value %s (%T) undefined in %s", v.Name(), v, v.Parent())
	}
	return r
}

func globalAddr(g *ssa.Global) *T {
	t := constSym("glob!"+cleanName(g.Pkg.Pkg.Name()+"."+g.Name()), sAddr)
	return t
}

func (x *Exec) runBlock(fr *Frame, b *ssa.BasicBlock, sts []*State, emit func(edgeState), rets *[]retState) {
	instrs := b.Instrs
	for i, in := range instrs {
		if len(sts) == 0 {
			return
		}
		switch t := in.(type) {
		case *ssa.Phi, *ssa.DebugRef:
			continue
		case *ssa.Jump:
			for _, st := range sts {
				emit(edgeState{b, b.Succs[0], st})
			}
			return
		case *ssa.If:
			for _, st := range sts {
				c := x.val(st, t.Cond).(*T)
				var s2 *State
				if c != tTrue {
					s2 = st.clone()
				}
				if st.branch(c) {
					emit(edgeState{b, b.Succs[0], st})
				}
				if s2 != nil && s2.branch(Not(c)) {
					emit(edgeState{b, b.Succs[1], s2})
				}
			}
			return
		case *ssa.Return:
			for _, st := range sts {
				var vs []Value
				for _, r := range t.Results {
					vs = append(vs, x.val(st, r))
				}
				*rets = append(*rets, retState{st, vs})
			}
			return
		case *ssa.Panic:
			for _, st := range sts {
				if x.spec != nil && x.spec.mayPanic {
					continue
				}
				x.goal(st, "panic", "explicit panic is unreachable", nil, x.pos(t.Pos()), tFalse)
			}
			return
		}
		var out []*State
		for _, st := range sts {
			out = append(out, x.step(fr, st, in)...)
		}
		if len(out) > 24 && x.inSpec == 0 {
			m, _ := mergeStates(out, nil, nil)
			out = []*State{m}
		}
		sts = out
		_ = i
	}
}

func (x *Exec) one(st *State, in ssa.Value, v Value) []*State {
	st.env[in] = v
	return []*State{st}
}

func (x *Exec) safety(st *State, what string, pos token.Pos, c *T) {
	if c == tTrue {
		return
	}
	if x.inSpec > 0 {
		return
	}
	if x.safe {
		x.goal(st, "safety", what, nil, x.pos(pos), c)
	}
	if !c.free {
		st.assume(c) // execution only continues when it holds
	}
}

func (x *Exec) alloc(st *State, hint string) *T {
	a := freshConst("obj."+hint, sAddr)
	x.allocs[a] = true
	st.assume(Eq(bornOf(a), st.now))
	st.assume(Eq(mk("kind", sInt, a), Int(0)))
	st.now = Add(st.now, Int(1))
	return a
}

func (x *Exec) step(fr *Frame, st *State, in ssa.Instruction) []*State {
	switch t := in.(type) {
	case *ssa.Alloc:
		et := t.Type().Underlying().(*types.Pointer).Elem()
		a := x.alloc(st, t.Comment)
		st.cells[a] = zeroVal(et)
		st.cellType[a] = et
		return x.one(st, t, a)

	case *ssa.UnOp:
		switch t.Op {
		case token.MUL:
			p := x.val(st, t.X).(*T)
			x.safety(st, "nil dereference", t.Pos(), Not(Eq(rootOf(p), tNull)))
			if g, ok := t.X.(*ssa.Global); ok {
				if v := x.globalVal(st, g); v != nil {
					return x.one(st, t, v)
				}
			}
			return x.one(st, t, st.load(t.Type(), p))
		case token.NOT:
			return x.one(st, t, Not(x.val(st, t.X).(*T)))
		case token.SUB:
			v := x.val(st, t.X).(*T)
			if v.sort == sF {
				return x.one(st, t, App("fneg", sF, v))
			}
			return x.one(st, t, Sub(Int(0), v))
		}
		unsup("unary %s", t.Op)

	case *ssa.BinOp:
		return x.one(st, t, binop(t.Op, t.X.Type(), x.val(st, t.X), x.val(st, t.Y)))

	case *ssa.FieldAddr:
		p := x.val(st, t.X).(*T)
		x.safety(st, "nil dereference", t.Pos(), Not(Eq(rootOf(p), tNull)))
		stt := t.X.Type().Underlying().(*types.Pointer).Elem()
		a := fldOf(p, t.Field)
		ft := under(stt).(*types.Struct).Field(t.Field).Type()
		if isLeaf(ft) && !specialField(ft) {
			leafPtr[a] = leafField{stt, t.Field}
		}
		return x.one(st, t, a)

	case *ssa.Field:
		return x.one(st, t, x.val(st, t.X).(*Agg).es[t.Field])

	case *ssa.IndexAddr:
		i := x.val(st, t.Index).(*T)
		b := x.val(st, t.X).(*T)
		switch u := t.X.Type().Underlying().(type) {
		case *types.Slice:
			x.safety(st, "index in range", t.Pos(), And(Le(Int(0), i), Lt(i, slen(b))))
			return x.one(st, t, elemOf(sbase(b), Add(soff(b), i)))
		case *types.Pointer:
			n := under(u.Elem()).(*types.Array).Len()
			x.safety(st, "index in range", t.Pos(), And(Le(Int(0), i), Lt(i, Int(n))))
			return x.one(st, t, elemOf(b, i))
		}
		unsup("IndexAddr %s", t.X.Type())

	case *ssa.Index:
		i := x.val(st, t.Index).(*T)
		if ag, ok := x.val(st, t.X).(*Agg); ok {
			return x.one(st, t, aggRead(ag, []*T{i}))
		}
		unsup("Index %s", t.X.Type())

	case *ssa.Store:
		p := x.val(st, t.Addr).(*T)
		x.safety(st, "nil dereference", t.Pos(), Not(Eq(rootOf(p), tNull)))
		et := t.Addr.Type().Underlying().(*types.Pointer).Elem()
		x.store(st, et, p, x.val(st, t.Val))
		return []*State{st}

	case *ssa.Extract:
		tu, ok := x.val(st, t.Tuple).(*Agg)
		if !ok {
			unsup("extract from %T", x.val(st, t.Tuple))
		}
		return x.one(st, t, tu.es[t.Index])

	case *ssa.ChangeType:
		return x.one(st, t, x.val(st, t.X))

	case *ssa.Convert:
		return x.one(st, t, convert(t.X.Type(), t.Type(), x.val(st, t.X), x, st))

	case *ssa.ChangeInterface:
		return x.one(st, t, x.val(st, t.X))

	case *ssa.MakeInterface:
		return x.one(st, t, x.makeIface(st, t.X.Type(), x.val(st, t.X)))

	case *ssa.TypeAssert:
		return x.typeAssert(st, t)

	case *ssa.MakeClosure:
		c := &Closure{fn: t.Fn.(*ssa.Function)}
		for _, b := range t.Bindings {
			c.binds = append(c.binds, x.val(st, b))
		}
		f := freshConst("closure."+t.Fn.Name(), sFn)
		knownFn[f] = c
		st.assume(Not(Eq(f, nilFn)))
		return x.one(st, t, f)

	case *ssa.MakeSlice:
		n := x.val(st, t.Len).(*T)
		c := x.val(st, t.Cap).(*T)
		x.safety(st, "make: length and capacity in range", t.Pos(), And(Le(Int(0), n), Le(n, c)))
		b := x.alloc(st, "slice")
		et := t.Type().Underlying().(*types.Slice).Elem()
		if k, ok := n.isInt(); ok && k == 0 {
		} else {
			x.zeroElems(st, et, b, Int(0), n)
		}
		return x.one(st, t, mkSlc(b, Int(0), n, c))

	case *ssa.MakeMap:
		return x.one(st, t, x.makeMap(st, t.Type()))

	case *ssa.MapUpdate:
		m := x.val(st, t.Map).(*T)
		mt := t.Map.Type().Underlying().(*types.Map)
		x.mapStore(st, mt, m, x.val(st, t.Key), x.val(st, t.Value))
		return []*State{st}

	case *ssa.Lookup:
		mt, ok := t.X.Type().Underlying().(*types.Map)
		if !ok {
			unsup("string index")
		}
		m := x.val(st, t.X).(*T)
		k := encKey(mt.Key(), x.val(st, t.Index))
		d := x.mapDom(st, mt, m, k)
		v := iteVal(d, x.mapVal(st, mt, m, k), zeroVal(mt.Elem()))
		if t.CommaOk {
			return x.one(st, t, &Agg{es: []Value{v, d}})
		}
		return x.one(st, t, v)

	case *ssa.Range:
		mt, ok := t.X.Type().Underlying().(*types.Map)
		if !ok {
			unsup("range over %s", t.X.Type())
		}
		x.iters++
		it := &mapIter{id: x.iters, m: x.val(st, t.X).(*T), mt: mt, key: fmt.Sprintf("visited:%d", x.iters)}
		ks := keySort(mt.Key())
		st.ghost[it.key] = mk("asconst:", sArr(ks, sBool), tFalse)
		st.env[t] = it
		return []*State{st}

	case *ssa.Next:
		it, ok := x.val(st, t.Iter).(*mapIter)
		if !ok {
			unsup("iterator")
		}
		vis := st.ghost[it.key].(*T)
		dom := Select(st.memOf(domKey(it.mt), sArr(keySort(it.mt.Key()), sBool)), it.m)
		okv := freshConst("more", sBool)
		kv := st.freshVal(it.mt.Key(), "key")
		k := encKey(it.mt.Key(), kv)
		st.assume(Implies(okv, And(Select(dom, k), Not(Select(vis, k)), Not(Eq(it.m, tNull)))))
		bv := boundVar(keySort(it.mt.Key()))
		st.assume(Implies(Not(okv), Or(Eq(it.m, tNull), Quant("forall", []*T{bv}, Implies(Select(dom, bv), Select(vis, bv)), [][]*T{{Select(dom, bv)}}))))
		nv := freshConst("visited", vis.sort)
		st.assume(Eq(nv, Ite(okv, Store(vis, k, tTrue), vis)))
		st.ghost[it.key] = nv
		vv := x.mapVal(st, it.mt, it.m, k)
		return x.one(st, t, &Agg{es: []Value{okv, kv, vv}})

	case *ssa.Slice:
		return x.slice(st, t)

	case *ssa.Call:
		return x.callInstr(fr, st, t, t.Common())

	case *ssa.Defer:
		if c := t.Call.StaticCallee(); c != nil && c.Pkg != nil && c.Pkg.Pkg.Path() == "sync" {
			return []*State{st}
		}
		if x.spec != nil && x.spec.ignoreSync {
			return []*State{st}
		}
		unsup("defer")
	case *ssa.RunDefers:
		return []*State{st}
	case *ssa.Send:
		if x.spec != nil && x.spec.sendGhost != "" {
			ch := x.val(st, t.Chan).(*T)
			_ = ch
			v := x.val(st, t.X)
			st.escape(v)
			vt := v.(*T)
			g, ok := st.ghost["sent"].(*T)
			if !ok {
				g = mk("asconst:", sArr(vt.sort, sBool), tFalse)
			}
			n := freshConst("sent", g.sort)
			st.assume(Eq(n, Store(g, vt, tTrue)))
			st.ghost["sent"] = n
			return []*State{st}
		}
		unsup("channel send")
	case *ssa.Go:
		unsup("go statement")
	}
	unsup("instruction %T", in)
	return nil
}

func (x *Exec) zeroElems(st *State, et types.Type, b, lo, hi *T) {
	eachLeafQ(et, b, func(key, srt string, ft types.Type, loc func(*T) *T) {
		j := boundVar(sInt)
		m := st.memOf(key, srt)
		sel := Select(m, loc(j))
		st.assume(Quant("forall", []*T{j}, Implies(And(Le(lo, j), Lt(j, hi)), Eq(sel, zeroVal(ft).(*T))), [][]*T{{sel}}))
	})
}

// eachLeafQ enumerates the leaf cells of element j of an array at base b.
func eachLeafQ(et types.Type, b *T, f func(key, srt string, ft types.Type, loc func(*T) *T)) {
	probe := boundVar(sInt)
	eachLeaf(et, elemOf(b, probe), nil, func(ft types.Type, key string, loc *T, _ Value) {
		memKeySort(key, leafSort(ft))
		f(key, leafSort(ft), ft, func(j *T) *T { return subst(loc, probe, j) })
	})
}

func subst(t, v, by *T) *T {
	if t == v {
		return by
	}
	if !t.fvars[v] {
		return t
	}
	args := make([]*T, len(t.args))
	for i, a := range t.args {
		args[i] = subst(a, v, by)
	}
	if t.op == "forall" || t.op == "exists" {
		var pats [][]*T
		for _, p := range t.pats {
			var q []*T
			for _, a := range p {
				q = append(q, subst(a, v, by))
			}
			pats = append(pats, q)
		}
		return Quant(t.op, t.bvs, args[0], pats)
	}
	return rebuild(t, args)
}

func rebuild(t *T, args []*T) *T {
	switch t.op {
	case "+":
		return Add(args[0], args[1])
	case "-":
		return Sub(args[0], args[1])
	case "and":
		return And(args...)
	case "or":
		return Or(args...)
	case "not":
		return Not(args[0])
	case "=>":
		return Implies(args[0], args[1])
	case "=":
		return Eq(args[0], args[1])
	case "ite":
		return Ite(args[0], args[1], args[2])
	case "<":
		return Lt(args[0], args[1])
	case "<=":
		return Le(args[0], args[1])
	case "select":
		return Select(args[0], args[1])
	}
	return mk(t.op, t.sort, args...)
}

func binop(op token.Token, t types.Type, a, b Value) Value {
	switch op {
	case token.EQL:
		return goEq(t, a, b)
	case token.NEQ:
		return Not(goEq(t, a, b))
	}
	x, y := a.(*T), b.(*T)
	if x.sort == sF {
		switch op {
		case token.LSS:
			return mk("flt", sBool, x, y)
		case token.LEQ:
			return mk("fle", sBool, x, y)
		case token.GTR:
			return mk("flt", sBool, y, x)
		case token.GEQ:
			return mk("fle", sBool, y, x)
		case token.ADD:
			return App("fadd", sF, x, y)
		case token.SUB:
			return App("fsub", sF, x, y)
		case token.MUL:
			return App("fmul", sF, x, y)
		case token.QUO:
			return App("fdiv", sF, x, y)
		}
		unsup("float op %s", op)
	}
	if x.sort == sStr {
		switch op {
		case token.ADD:
			return App("sconcat", sStr, x, y)
		case token.LSS:
			return App("sless", sBool, x, y)
		}
		unsup("string op %s", op)
	}
	if x.sort == sBool {
		switch op {
		case token.AND, token.LAND:
			return And(x, y)
		case token.OR, token.LOR:
			return Or(x, y)
		case token.XOR:
			return Not(Eq(x, y))
		}
	}
	switch op {
	case token.ADD:
		return Add(x, y)
	case token.SUB:
		return Sub(x, y)
	case token.MUL:
		return Mul(x, y)
	case token.QUO:
		// truncated division; exact for a non-negative dividend, else via ite
		q := mk("div", sInt, x, y)
		if c, ok := y.isInt(); ok && c > 0 {
			return Ite(Le(Int(0), x), q, Sub(Int(0), mk("div", sInt, Sub(Int(0), x), y)))
		}
		return App("intquo", sInt, x, y)
	case token.REM:
		if c, ok := y.isInt(); ok && c > 0 {
			return Ite(Le(Int(0), x), mk("mod", sInt, x, y), Sub(Int(0), mk("mod", sInt, Sub(Int(0), x), y)))
		}
		return App("intrem", sInt, x, y)
	case token.LSS:
		return Lt(x, y)
	case token.LEQ:
		return Le(x, y)
	case token.GTR:
		return Lt(y, x)
	case token.GEQ:
		return Le(y, x)
	case token.AND, token.OR, token.XOR, token.SHL, token.SHR, token.AND_NOT:
		return App("bit"+map[token.Token]string{token.AND: "and", token.OR: "or", token.XOR: "xor", token.SHL: "shl", token.SHR: "shr", token.AND_NOT: "andnot"}[op], sInt, x, y)
	}
	unsup("int op %s", op)
	return nil
}

func convert(from, to types.Type, v Value, x *Exec, st *State) Value {
	t, ok := v.(*T)
	if !ok {
		return v
	}
	f, g := t.sort, leafSort(to)
	switch {
	case f == g:
		return v
	case f == sInt && g == sF:
		return App("i2f", sF, t)
	case f == sF && g == sInt:
		return App("f2i", sInt, t)
	case f == sStr && g == sSlc, f == sSlc && g == sStr, f == sInt && g == sStr:
		x.trust["string conversion"] = true
		if g == sSlc {
			r := st.freshVal(to, "bytes").(*T)
			st.assume(Eq(App("bytes2str", sStr, r), t))
			return r
		}
		return App("conv2str", sStr, t)
	}
	unsup("conversion %s to %s", from, to)
	return nil
}

func (x *Exec) makeIface(st *State, t types.Type, v Value) *T {
	id := typeID(t)
	if l, ok := v.(*T); ok {
		switch l.sort {
		case sAddr:
			return mkIface(id, l)
		case sIface:
			return l
		case sInt, sBool, sF, sStr:
			return mkIface(id, App("box."+l.sort, sAddr, l))
		}
	}
	if x.inSpec > 0 {
		unsup("boxing in specification")
	}
	a := x.alloc(st, "box")
	st.escape(v)
	eachLeaf(t, a, v, func(ft types.Type, key string, loc *T, v Value) {
		st.assume(Eq(Select(st.memOf(key, leafSort(ft)), loc), v.(*T)))
	})
	return mkIface(id, a)
}

func (x *Exec) unbox(st *State, t types.Type, v *T) Value {
	if isLeaf(t) {
		switch s := leafSort(t); s {
		case sAddr:
			return iadOf(v)
		case sInt, sBool, sF, sStr:
			return App("unbox."+s, s, iadOf(v))
		}
	}
	return st.load(t, iadOf(v))
}

func (x *Exec) typeAssert(st *State, t *ssa.TypeAssert) []*State {
	v := x.val(st, t.X).(*T)
	if types.IsInterface(t.AssertedType) {
		if t.CommaOk {
			ok := App("implements", sBool, ityOf(v), typeID(t.AssertedType))
			return x.one(st, t, &Agg{es: []Value{iteVal(ok, v, nilIface), ok}})
		}
		st.assume(Not(Eq(ityOf(v), Int(0))))
		return x.one(st, t, v)
	}
	ok := Eq(ityOf(v), typeID(t.AssertedType))
	if t.CommaOk {
		return x.one(st, t, &Agg{es: []Value{iteVal(ok, x.unbox(st, t.AssertedType, v), zeroVal(t.AssertedType)), ok}})
	}
	x.safety(st, "type assertion", t.Pos(), ok)
	return x.one(st, t, x.unbox(st, t.AssertedType, v))
}

// ---------------------------------------------------------------------------
// maps
// ---------------------------------------------------------------------------

func keySort(t types.Type) string {
	if isLeaf(t) {
		return leafSort(t)
	}
	if a, ok := under(t).(*types.Array); ok && leafSort(a.Elem()) == sInt {
		switch a.Len() {
		case 2, 3, 4, 6:
			return fmt.Sprintf("K%d", a.Len())
		}
	}
	unsup("map key %s", t)
	return ""
}

func encKey(t types.Type, v Value) *T {
	if l, ok := v.(*T); ok {
		return l
	}
	var as []*T
	for _, e := range v.(*Agg).es {
		as = append(as, e.(*T))
	}
	s := keySort(t)
	builtinOps["mk"+s] = true
	return mk("mk"+s, s, as...)
}

func domKey(mt *types.Map) string { return "dom:" + shortType(mt) }

type mapLeaf struct {
	key string
	t   types.Type
}

func mapLeaves(mt *types.Map) []mapLeaf {
	var out []mapLeaf
	var walk func(t types.Type, p string)
	walk = func(t types.Type, p string) {
		switch u := under(t).(type) {
		case *types.Struct:
			for i := 0; i < u.NumFields(); i++ {
				walk(u.Field(i).Type(), fmt.Sprintf("%s.%d", p, i))
			}
			return
		case *types.Array:
			for i := int64(0); i < u.Len(); i++ {
				walk(u.Elem(), fmt.Sprintf("%s.%d", p, i))
			}
			return
		}
		out = append(out, mapLeaf{"val:" + shortType(mt) + p, t})
	}
	walk(mt.Elem(), "")
	return out
}

func (x *Exec) mapDom(st *State, mt *types.Map, m, k *T) *T {
	d := st.memOf(domKey(mt), sArr(keySort(mt.Key()), sBool))
	return And(Not(Eq(m, tNull)), Select(Select(d, m), k))
}

func (x *Exec) mapVal(st *State, mt *types.Map, m, k *T) Value {
	ls := mapLeaves(mt)
	i := 0
	var build func(t types.Type) Value
	build = func(t types.Type) Value {
		switch u := under(t).(type) {
		case *types.Struct:
			a := &Agg{}
			for j := 0; j < u.NumFields(); j++ {
				a.es = append(a.es, build(u.Field(j).Type()))
			}
			return a
		case *types.Array:
			a := &Agg{}
			for j := int64(0); j < u.Len(); j++ {
				a.es = append(a.es, build(u.Elem()))
			}
			return a
		}
		l := ls[i]
		i++
		v := Select(Select(st.memOf(l.key, sArr(keySort(mt.Key()), leafSort(l.t))), m), k)
		if !v.free {
			d := st.memOf(domKey(mt), sArr(keySort(mt.Key()), sBool))
			st.assume(Implies(And(Not(Eq(m, tNull)), Select(Select(d, m), k)), wfTerm(l.t, v, st.now)))
		}
		return v
	}
	return build(mt.Elem())
}

func (x *Exec) mapStore(st *State, mt *types.Map, m *T, kv, v Value) {
	st.escape(kv)
	st.escape(v)
	k := encKey(mt.Key(), kv)
	ks := keySort(mt.Key())
	dk := domKey(mt)
	x.frameCheck(st, dk, m, tTrue)
	d := st.memOf(dk, sArr(ks, sBool))
	st.setMem(dk, Store(d, m, Store(Select(d, m), k, tTrue)))
	ls := mapLeaves(mt)
	i := 0
	var walk func(v Value)
	walk = func(v Value) {
		if a, ok := v.(*Agg); ok {
			for _, e := range a.es {
				walk(e)
			}
			return
		}
		l := ls[i]
		i++
		h := st.memOf(l.key, sArr(ks, leafSort(l.t)))
		st.setMem(l.key, Store(h, m, Store(Select(h, m), k, v.(*T))))
	}
	walk(v)
}

func (x *Exec) mapDelete(st *State, mt *types.Map, m *T, kv Value) {
	k := encKey(mt.Key(), kv)
	dk := domKey(mt)
	x.frameCheck(st, dk, m, tTrue)
	d := st.memOf(dk, sArr(keySort(mt.Key()), sBool))
	st.setMem(dk, Store(d, m, Store(Select(d, m), k, tFalse)))
}

func (x *Exec) makeMap(st *State, t types.Type) *T {
	mt := t.Underlying().(*types.Map)
	a := x.alloc(st, "map")
	ks := keySort(mt.Key())
	d := st.memOf(domKey(mt), sArr(ks, sBool))
	st.assume(Eq(Select(d, a), mk("asconst:", sArr(ks, sBool), tFalse)))
	return a
}

func (x *Exec) mapLen(st *State, mt *types.Map, m *T) *T {
	ks := keySort(mt.Key())
	d := Select(st.memOf(domKey(mt), sArr(ks, sBool)), m)
	n := App("mapsize."+ks, sInt, d)
	if n.free {
		return Ite(Eq(m, tNull), Int(0), n)
	}
	bv := boundVar(ks)
	st.assume(Le(Int(0), n))
	st.assume(Implies(Eq(n, Int(0)), Quant("forall", []*T{bv}, Not(Select(d, bv)), [][]*T{{Select(d, bv)}})))
	w := freshConst("witness", ks)
	st.assume(Implies(Lt(Int(0), n), Select(d, w)))
	return Ite(Eq(m, tNull), Int(0), n)
}

// ---------------------------------------------------------------------------
// slices
// ---------------------------------------------------------------------------

func (x *Exec) slice(st *State, t *ssa.Slice) []*State {
	get := func(v ssa.Value, def *T) *T {
		if v == nil {
			return def
		}
		return x.val(st, v).(*T)
	}
	b := x.val(st, t.X).(*T)
	switch u := t.X.Type().Underlying().(type) {
	case *types.Slice:
		lo := get(t.Low, Int(0))
		hi := get(t.High, slen(b))
		mx := get(t.Max, scap(b))
		x.safety(st, "slice bounds in range", t.Pos(), And(Le(Int(0), lo), Le(lo, hi), Le(hi, mx), Le(mx, scap(b))))
		return x.one(st, t, mkSlc(sbase(b), Add(soff(b), lo), Sub(hi, lo), Sub(mx, lo)))
	case *types.Pointer:
		n := Int(under(u.Elem()).(*types.Array).Len())
		lo := get(t.Low, Int(0))
		hi := get(t.High, n)
		mx := get(t.Max, n)
		x.safety(st, "slice bounds in range", t.Pos(), And(Le(Int(0), lo), Le(lo, hi), Le(hi, mx), Le(mx, n)))
		st.escapeAddr(b)
		return x.one(st, t, mkSlc(b, lo, Sub(hi, lo), Sub(mx, lo)))
	}
	unsup("slice of %s", t.X.Type())
	return nil
}

// appendBoth examines growing and not growing as separate paths where the contract asks for it.
func (x *Exec) appendBoth(st *State, et types.Type, s, more *T, known []Value) []callRes {
	_, lit := scap(s).isInt()
	if x.spec == nil || !x.spec.forkAppend || lit || x.inSpec > 0 {
		return []callRes{{st, x.appendSlice(st, et, s, more, known, nil)}}
	}
	n := Int(int64(len(known)))
	if known == nil {
		n = slen(more)
	}
	fits := Le(Add(slen(s), n), scap(s))
	var out []callRes
	for _, grow := range []bool{false, true} {
		b := st.clone()
		c, in := fits, tTrue
		if grow {
			c, in = Not(fits), tFalse
		}
		if b.branch(c) {
			out = append(out, callRes{b, x.appendSlice(b, et, s, more, known, in)})
		}
	}
	return out
}

// appendSlice models append(s, more...): in place when capacity allows, else a
// fresh array. New memories are constrained, not branched on.
func (x *Exec) appendSlice(st *State, et types.Type, s, more *T, known []Value, how *T) *T {
	var n *T
	if known != nil {
		n = Int(int64(len(known)))
		for _, v := range known {
			st.escape(v)
		}
	} else {
		n = slen(more)
	}
	inpl := freshConst("inplace", sBool)
	newLen := Add(slen(s), n)
	if cp, ok := scap(s).isInt(); ok && cp == 0 {
		if k, ok := n.isInt(); ok && k > 0 {
			inpl = tFalse
		}
	}
	if cp, ok := scap(s).isInt(); ok {
		if k, ok := newLen.isInt(); ok && k > cp {
			inpl = tFalse
		}
	}
	if how != nil {
		inpl = how
	} else if inpl != tFalse {
		st.assume(Eq(inpl, Le(newLen, scap(s))))
	}
	g := x.alloc(st, "grown")
	gc := freshConst("gcap", sInt)
	st.assume(Le(newLen, gc))
	var nb, no, nc *T
	if inpl == tFalse {
		nb, no, nc = g, Int(0), gc
	} else if inpl == tTrue {
		nb, no, nc = sbase(s), soff(s), scap(s)
	} else {
		nb = freshConst("app.base", sAddr)
		no = freshConst("app.off", sInt)
		nc = freshConst("app.cap", sInt)
		st.assume(Implies(inpl, And(Eq(nb, sbase(s)), Eq(no, soff(s)), Eq(nc, scap(s)))))
		st.assume(Implies(Not(inpl), And(Eq(nb, g), Eq(no, Int(0)), Eq(nc, gc))))
	}
	res := mkSlc(nb, no, newLen, nc)
	// frame: in-place writes beyond len
	wroteSomething := Lt(Int(0), n)
	if x.inSpec > 0 {
		unsup("append in specification")
	}
	kvs := known
	eachLeafQ(et, nb, func(key, srt string, ft types.Type, loc func(*T) *T) {
		m := st.memOf(key, srt)
		// copy of the old content (trivial in place)
		if l, ok := slen(s).isInt(); !(ok && l == 0) && inpl != tTrue {
			j := boundVar(sInt)
			src := replaceBase(loc(Add(Sub(j, no), soff(s))), nb, sbase(s))
			st.assume(Quant("forall", []*T{j}, Implies(And(Le(no, j), Lt(j, Add(no, slen(s)))),
				Eq(Select(m, loc(j)), Select(m, src))), [][]*T{{Select(m, loc(j))}}))
			// the same, seen from the source
			i := boundVar(sInt)
			dst := loc(Add(Sub(i, soff(s)), no))
			src2 := replaceBase(loc(i), nb, sbase(s))
			st.assume(Quant("forall", []*T{i}, Implies(And(Le(soff(s), i), Lt(i, Add(soff(s), slen(s)))),
				Eq(Select(m, dst), Select(m, src2))), [][]*T{{Select(m, src2)}}))
			if l, ok := slen(s).isInt(); ok && l <= 4 {
				for q := int64(0); q < l; q++ {
					st.assume(Eq(Select(m, loc(Add(no, Int(q)))), Select(m, replaceBase(loc(Add(soff(s), Int(q))), nb, sbase(s)))))
				}
			}
		}
		if inpl != tFalse && !x.allocs[rootOf(sbase(s))] {
			x.frameCheck(st, key, loc(Add(no, slen(s))), And(inpl, wroteSomething))
		}
	})
	if known != nil {
		for i, v := range kvs {
			eachLeaf(et, elemOf(nb, Add(Add(no, slen(s)), Int(int64(i)))), v, func(ft types.Type, key string, loc *T, v Value) {
				m := st.memOf(key, leafSort(ft))
				nm := freshConst("M!"+key, m.sort)
				st.assume(Eq(nm, mk("store", m.sort, m, loc, v.(*T))))
				st.setMem(key, nm)
			})
		}
		return res
	}
	// append(s, t...): constrained new memory
	eachLeafQ(et, nb, func(key, srt string, ft types.Type, loc func(*T) *T) {
		m := st.memOf(key, srt)
		nm := freshConst("M!"+key, m.sort)
		j := boundVar(sInt)
		lo := Add(no, slen(s))
		src := replaceBase(loc(Add(Sub(j, lo), soff(more))), nb, sbase(more))
		st.assume(Quant("forall", []*T{j}, Implies(And(Le(lo, j), Lt(j, Add(lo, n))),
			Eq(Select(nm, loc(j)), Select(m, src))), [][]*T{{Select(nm, loc(j))}}))
		i := boundVar(sInt)
		src2 := replaceBase(loc(i), nb, sbase(more))
		st.assume(Quant("forall", []*T{i}, Implies(And(Le(soff(more), i), Lt(i, Add(soff(more), n))),
			Eq(Select(nm, loc(Add(Sub(i, soff(more)), lo))), Select(m, src2))), [][]*T{{Select(m, src2)}}))
		a := boundVar(sAddr)
		st.assume(Quant("forall", []*T{a}, Or(inRange(a, loc, nb, lo, Add(lo, n)), Eq(Select(nm, a), Select(m, a))), [][]*T{{Select(nm, a)}}))
		// old elements seen through the new array
		st.setMem(key, nm)
	})
	return res
}

// inRange: address a is loc(j) for some lo<=j<hi; expressed with inverse functions
func inRange(a *T, loc func(*T) *T, base, lo, hi *T) *T {
	// peel the projection path of loc
	probe := boundVar(sInt)
	p := loc(probe)
	var conds []*T
	cur := a
	for p.op == "fld" || (p.op == "elem" && !(p.args[1] == probe)) {
		if p.op == "fld" {
			conds = append(conds, Eq(mk("kind", sInt, cur), Int(2)), Eq(mk("fidx", sInt, cur), p.args[1]))
			cur = mk("fbase", sAddr, cur)
		} else {
			conds = append(conds, Eq(mk("kind", sInt, cur), Int(1)), Eq(mk("eidx", sInt, cur), p.args[1]))
			cur = mk("ebase", sAddr, cur)
		}
		p = p.args[0]
	}
	idx := mk("eidx", sInt, cur)
	conds = append(conds, Eq(mk("kind", sInt, cur), Int(1)), Eq(mk("ebase", sAddr, cur), base), Le(lo, idx), Lt(idx, hi))
	return And(conds...)
}

func replaceBase(loc, from, to *T) *T {
	switch loc.op {
	case "fld":
		return mk("fld", sAddr, replaceBase(loc.args[0], from, to), loc.args[1])
	case "elem":
		if loc.args[0] == from {
			return mk("elem", sAddr, to, loc.args[1])
		}
		return mk("elem", sAddr, replaceBase(loc.args[0], from, to), loc.args[1])
	}
	return loc
}

func (x *Exec) copySlice(st *State, et types.Type, dst, src *T) *T {
	n := Ite(Le(slen(dst), slen(src)), slen(dst), slen(src))
	nn := freshConst("ncopy", sInt)
	st.assume(Eq(nn, n))
	eachLeafQ(et, sbase(dst), func(key, srt string, ft types.Type, loc func(*T) *T) {
		m := st.memOf(key, srt)
		if !x.allocs[rootOf(sbase(dst))] {
			x.frameCheck(st, key, loc(soff(dst)), Lt(Int(0), nn))
		}
		nm := freshConst("M!"+key, m.sort)
		j := boundVar(sInt)
		s := replaceBase(loc(Add(Sub(j, soff(dst)), soff(src))), sbase(dst), sbase(src))
		st.assume(Quant("forall", []*T{j}, Implies(And(Le(soff(dst), j), Lt(j, Add(soff(dst), nn))),
			Eq(Select(nm, loc(j)), Select(m, s))), [][]*T{{Select(nm, loc(j))}}))
		i := boundVar(sInt)
		s2 := replaceBase(loc(i), sbase(dst), sbase(src))
		st.assume(Quant("forall", []*T{i}, Implies(And(Le(soff(src), i), Lt(i, Add(soff(src), nn))),
			Eq(Select(nm, loc(Add(Sub(i, soff(src)), soff(dst)))), Select(m, s2))), [][]*T{{Select(m, s2)}}))
		a := boundVar(sAddr)
		st.assume(Quant("forall", []*T{a}, Or(inRange(a, loc, sbase(dst), soff(dst), Add(soff(dst), nn)), Eq(Select(nm, a), Select(m, a))), [][]*T{{Select(nm, a)}}))
		st.setMem(key, nm)
	})
	return nn
}
