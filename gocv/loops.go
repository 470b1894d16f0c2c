package main

import (
	"fmt"
	"go/token"
	"go/types"
	"sort"
	"unicode"

	"golang.org/x/tools/go/ssa"
)

type loopVar struct {
	name string
	t    types.Type
	get  func(st *State) Value // nil when absent
	phi  bool
}

func definedOutside(v ssa.Value, L *Loop) bool {
	switch v.(type) {
	case *ssa.Const, *ssa.Parameter, *ssa.FreeVar, *ssa.Global, *ssa.Function, *ssa.Builtin:
		return true
	}
	if in, ok := v.(ssa.Instruction); ok {
		return !L.blocks[in.Block()]
	}
	return false
}

// pureEval re-evaluates a side-effect free expression in another state.
func (x *Exec) pureEval(st *State, v ssa.Value, L *Loop, depth int) (res Value) {
	if depth > 6 {
		return nil
	}
	if definedOutside(v, L) {
		switch v.(type) {
		case *ssa.Const, *ssa.Function, *ssa.Global:
			return x.val(st, v)
		}
		if r, ok := st.env[v]; ok {
			return r
		}
		return nil
	}
	switch t := v.(type) {
	case *ssa.Phi:
		if t.Block() == L.header {
			return st.env[t]
		}
	case *ssa.BinOp:
		a, b := x.pureEval(st, t.X, L, depth+1), x.pureEval(st, t.Y, L, depth+1)
		if a == nil || b == nil {
			return nil
		}
		switch t.Op {
		case token.ADD, token.SUB, token.MUL:
			return binop(t.Op, t.X.Type(), a, b)
		}
	case *ssa.Call:
		if b, ok := t.Call.Value.(*ssa.Builtin); ok && b.Name() == "len" {
			if _, sl := under(t.Call.Args[0].Type()).(*types.Slice); sl {
				a := x.pureEval(st, t.Call.Args[0], L, depth+1)
				if a == nil {
					return nil
				}
				return slen(a.(*T))
			}
		}
	case *ssa.FieldAddr:
		a := x.pureEval(st, t.X, L, depth+1)
		if a == nil {
			return nil
		}
		stt := t.X.Type().Underlying().(*types.Pointer).Elem()
		ad := fldOf(a.(*T), t.Field)
		ft := under(stt).(*types.Struct).Field(t.Field).Type()
		if isLeaf(ft) && !specialField(ft) {
			leafPtr[ad] = leafField{stt, t.Field}
		}
		return ad
	case *ssa.UnOp:
		if t.Op == token.MUL {
			a := x.pureEval(st, t.X, L, depth+1)
			if a == nil {
				return nil
			}
			if g, ok := t.X.(*ssa.Global); ok {
				if v := x.globalVal(st, g); v != nil {
					return v
				}
			}
			return st.load(t.Type(), a.(*T))
		}
	}
	return nil
}

func (x *Exec) newCand(desc string, user bool, eval func(st *State) *T) *Cand {
	x.candID++
	c := &Cand{id: x.candID, desc: desc, user: user, alive: true}
	c.eval = func(st *State) (r *T) {
		defer func() {
			if e := recover(); e != nil {
				if u, ok := e.(unsupported); ok {
					_ = u
					r = nil
					return
				}
				panic(e)
			}
		}()
		return eval(st)
	}
	return c
}

func (x *Exec) runLoop(fr *Frame, L *Loop, ent *State, emit func(edgeState), rets *[]retState) {
	iterKey := fmt.Sprintf("iter:%d:%d", fr.id, L.ord)
	var phis []*ssa.Phi
	for _, in := range L.header.Instrs {
		if ph, ok := in.(*ssa.Phi); ok {
			phis = append(phis, ph)
		} else {
			break
		}
	}
	isT := func(v Value) bool {
		switch v.(type) {
		case *T, *Agg:
			return true
		}
		return false
	}
	for _, ph := range phis {
		if v, ok := ent.env[ph]; ok && isT(v) {
			ent.escape(v)
		}
	}
	modMem := map[string]bool{}
	modCell := map[*T]bool{}
	modGhost := map[string]bool{}
	ent.ghost[iterKey] = Int(0)
	modGhost[iterKey] = true
	depthGuard := 0
	for {
		depthGuard++
		if depthGuard > 40 {
			unsup("loop analysis does not stabilise")
		}
		ng, nc, ncid := len(x.goals), len(x.cands), x.candID
		nr := len(*rets)
		h := ent.clone()
		// time
		nn := freshConst("now", sInt)
		h.assume(Le(ent.now, nn))
		h.now = nn
		for _, ph := range phis {
			if v, ok := ent.env[ph]; ok && isT(v) {
				if sameInvariant(ph, L) {
					continue
				}
				h.env[ph] = h.freshVal(ph.Type(), phName(ph))
			}
		}
		var mroots []*T
		for r := range modCell {
			mroots = append(mroots, r)
		}
		sort.Slice(mroots, func(i, j int) bool { return mroots[i].id < mroots[j].id })
		for _, r := range mroots {
			h.cells[r] = h.freshVal(h.cellType[r], "cell."+r.op)
		}
		var mk []string
		for k := range modMem {
			mk = append(mk, k)
		}
		sort.Strings(mk)
		for _, k := range mk {
			m := h.memOf(k, memSorts[k])
			h.setMem(k, freshConst("M!"+k, m.sort))
		}
		var gk []string
		for k := range modGhost {
			gk = append(gk, k)
		}
		sort.Strings(gk)
		for _, k := range gk {
			if g, ok := h.ghost[k].(*T); ok {
				h.ghost[k] = freshConst(k, g.sort)
			}
		}
		h.assume(Le(Int(0), h.ghost[iterKey].(*T)))
		hs := h.clone()

		// candidates
		cands := x.loopCands(fr, L, ent, h, phis, modMem, mroots, iterKey)
		for _, c := range cands {
			e := c.eval(ent)
			t := c.eval(h)
			if e == nil || t == nil {
				c.alive = false
				continue
			}
			x.cands = append(x.cands, c)
			if e != tTrue {
				x.goals = append(x.goals, &Goal{fn: specName(x.fn), kind: "inv-init", label: c.desc, pos: x.loopPos(L), facts: ent.facts, goal: e, cand: c})
			}
			if !t.free {
				h.assumeC(t, c)
			}
		}
		// body
		var backs, exits []edgeState
		x.runRegion(fr, L, L.header, []edgeState{{nil, L.header, h}}, func(e edgeState) { exits = append(exits, e) },
			func(e edgeState) { backs = append(backs, e) }, rets)
		redo := false
		for _, b := range backs {
			for _, r := range sortedTerms(hs.cells) {
				if _, ok := b.st.cells[r]; !ok {
					if _, still := ent.cells[r]; still {
						ent.escapeAddr(r)
						delete(modCell, r)
						redo = true
					}
				}
			}
		}
		if !redo {
			for _, b := range backs {
				x.phis(b)
				for _, ph := range phis {
					if v := b.st.env[ph]; v != nil && isT(v) {
						b.st.escape(v)
					}
				}
				for _, r := range sortedTerms(hs.cells) {
					if _, ok := b.st.cells[r]; !ok {
						if _, still := ent.cells[r]; still {
							ent.escapeAddr(r)
							delete(modCell, r)
							redo = true
						}
						continue
					}
					if !sameVal(b.st.cells[r], hs.cells[r]) && !modCell[r] {
						modCell[r] = true
						redo = true
					}
					if modCell[r] {
						ent.escape(ent.cells[r])
						b.st.escape(b.st.cells[r])
						for _, r2 := range sortedTerms(hs.cells) {
							if _, ok := b.st.cells[r2]; !ok {
								if _, still := ent.cells[r2]; still {
									ent.escapeAddr(r2)
									delete(modCell, r2)
									redo = true
								}
							}
						}
					}
				}
				for k, m := range b.st.mem {
					if hm, ok := hs.mem[k]; ok {
						if hm != m && !modMem[k] {
							modMem[k] = true
							redo = true
						}
					} else if m != constSym("M0!"+cleanName(k), m.sort) && !modMem[k] {
						modMem[k] = true
						redo = true
					}
				}
				for k, g := range b.st.ghost {
					hg, ok := hs.ghost[k]
					if ok && !sameVal(hg, g) && !modGhost[k] {
						modGhost[k] = true
						redo = true
					}
					if !ok && k == "sent" {
						gt := g.(*T)
						ent.ghost[k] = mkAsConst(gt.sort)
						redo = true
					}
				}
			}
		}
		if redo {
			x.goals = x.goals[:ng]
			x.cands = x.cands[:nc]
			x.candID = ncid
			*rets = (*rets)[:nr]
			continue
		}
		for _, b := range backs {
			b.st.ghost[iterKey] = Add(hs.ghost[iterKey].(*T), Int(1))
			for _, c := range cands {
				if !c.alive {
					continue
				}
				t := c.eval(b.st)
				if t == nil {
					c.alive = false
					continue
				}
				if t != tTrue {
					x.goals = append(x.goals, &Goal{fn: specName(x.fn), kind: "inv-keep", label: c.desc, pos: x.loopPos(L), facts: b.st.facts, goal: t, cand: c})
				}
			}
		}
		for _, e := range exits {
			emit(e)
		}
		return
	}
}

func mkAsConst(s string) *T { return mk("asconst:", s, tFalse) }

func (x *Exec) loopPos(L *Loop) string {
	for _, in := range L.header.Instrs {
		if in.Pos().IsValid() {
			return x.pos(in.Pos())
		}
	}
	for _, b := range L.header.Parent().Blocks {
		if L.blocks[b] {
			for _, in := range b.Instrs {
				if in.Pos().IsValid() {
					return x.pos(in.Pos())
				}
			}
		}
	}
	return ""
}

func phName(ph *ssa.Phi) string {
	if ph.Comment != "" {
		return ph.Comment
	}
	return ph.Name()
}

func sameInvariant(ph *ssa.Phi, L *Loop) bool { return false }

func usesPhi(v ssa.Value, ph *ssa.Phi, L *Loop, d int) bool {
	if v == ph {
		return true
	}
	if d > 3 || definedOutside(v, L) {
		return false
	}
	switch t := v.(type) {
	case *ssa.BinOp:
		return usesPhi(t.X, ph, L, d+1) || usesPhi(t.Y, ph, L, d+1)
	}
	return false
}

func (x *Exec) loopCands(fr *Frame, L *Loop, ent, h *State, phis []*ssa.Phi, modMem map[string]bool, mroots []*T, iterKey string) []*Cand {
	var out []*Cand
	add := func(desc string, f func(st *State) *T) { out = append(out, x.newCand(desc, false, f)) }
	entNow := ent.now
	iter := func(st *State) *T { return st.ghost[iterKey].(*T) }

	var vars []loopVar
	for _, ph := range phis {
		ph := ph
		if _, ok := ent.env[ph].(*mapIter); ok {
			continue
		}
		if ent.env[ph] == nil {
			continue
		}
		vars = append(vars, loopVar{phName(ph), ph.Type(), func(st *State) Value { return st.env[ph] }, true})
	}
	for _, r := range mroots {
		r := r
		vars = append(vars, loopVar{"cell", ent.cellType[r], func(st *State) Value { return st.cells[r] }, true})
	}
	// leaves of loop variables
	type leafVar struct {
		name string
		t    types.Type
		get  func(st *State) *T
	}
	var leaves []leafVar
	for _, v := range vars {
		v := v
		var walk func(t types.Type, path []int, name string)
		walk = func(t types.Type, path []int, name string) {
			switch u := under(t).(type) {
			case *types.Struct:
				for i := 0; i < u.NumFields(); i++ {
					walk(u.Field(i).Type(), append(append([]int{}, path...), i), name+"."+u.Field(i).Name())
				}
				return
			case *types.Array:
				return
			}
			leaves = append(leaves, leafVar{name, t, func(st *State) *T {
				w := v.get(st)
				for _, p := range path {
					w = w.(*Agg).es[p]
				}
				return w.(*T)
			}})
		}
		walk(v.t, nil, v.name)
	}
	// comparisons in the loop
	var cmps []*ssa.BinOp
	for _, b := range fr.rpo {
		if !L.blocks[b] || fr.inner[b] != L {
			continue
		}
		for _, in := range b.Instrs {
			if bo, ok := in.(*ssa.BinOp); ok {
				switch bo.Op {
				case token.LSS, token.LEQ, token.GTR, token.GEQ, token.EQL, token.NEQ:
					if b, ok := under(bo.X.Type()).(*types.Basic); ok && b.Info()&types.IsInteger != 0 {
						cmps = append(cmps, bo)
					}
				}
			}
		}
	}
	for _, lv := range leaves {
		lv := lv
		e0 := lv.get(ent)
		switch e0.sort {
		case sInt:
			add(lv.name+" >= entry", func(st *State) *T { return Le(e0, lv.get(st)) })
			add(lv.name+" <= entry", func(st *State) *T { return Le(lv.get(st), e0) })
			add(lv.name+" = entry+iter", func(st *State) *T { return Eq(lv.get(st), Add(e0, iter(st))) })
			add(lv.name+" = entry-iter", func(st *State) *T { return Eq(lv.get(st), Sub(e0, iter(st))) })
			add(lv.name+" <= entry+iter", func(st *State) *T { return Le(lv.get(st), Add(e0, iter(st))) })
		case sSlc:
			add(lv.name+" base unchanged", func(st *State) *T { return Eq(sbase(lv.get(st)), sbase(e0)) })
			add(lv.name+" off unchanged", func(st *State) *T { return Eq(soff(lv.get(st)), soff(e0)) })
			add(lv.name+" cap unchanged", func(st *State) *T { return Eq(scap(lv.get(st)), scap(e0)) })
			add(lv.name+" off = 0", func(st *State) *T { return Eq(soff(lv.get(st)), Int(0)) })
			add(lv.name+" base fresh", func(st *State) *T { return Le(Int(0), bornOf(sbase(lv.get(st)))) })
			add(lv.name+" base fresh or nil", func(st *State) *T {
				return Or(Le(Int(0), bornOf(sbase(lv.get(st)))), Eq(scap(lv.get(st)), Int(0)))
			})
			add(lv.name+" base new in loop or unchanged", func(st *State) *T {
				return Or(Le(entNow, bornOf(sbase(lv.get(st)))), Eq(sbase(lv.get(st)), sbase(e0)))
			})
			add(lv.name+" base non-nil", func(st *State) *T { return Not(Eq(sbase(lv.get(st)), tNull)) })
			add(lv.name+" len >= entry len", func(st *State) *T { return Le(slen(e0), slen(lv.get(st))) })
			add(lv.name+" len <= entry len", func(st *State) *T { return Le(slen(lv.get(st)), slen(e0)) })
			add(lv.name+" len = entry len+iter", func(st *State) *T { return Eq(slen(lv.get(st)), Add(slen(e0), iter(st))) })
			add(lv.name+" len <= entry len+iter", func(st *State) *T { return Le(slen(lv.get(st)), Add(slen(e0), iter(st))) })
		case sAddr:
			add(lv.name+" fresh", func(st *State) *T { return Le(Int(0), bornOf(lv.get(st))) })
			add(lv.name+" non-nil", func(st *State) *T { return Not(Eq(lv.get(st), tNull)) })
			add(lv.name+" unchanged", func(st *State) *T { return Eq(lv.get(st), e0) })
		case sBool, sF, sStr, sFn:
			add(lv.name+" unchanged", func(st *State) *T { return Eq(lv.get(st), e0) })
		case sIface:
			add(lv.name+" unchanged", func(st *State) *T { return eqLeaf(lv.get(st), e0) })
		}
	}
	seen := map[string]bool{}
	for _, ph := range phis {
		ph := ph
		if b, ok := under(ph.Type()).(*types.Basic); !ok || b.Info()&types.IsInteger == 0 {
			continue
		}
		for _, cm := range cmps {
			for side := 0; side < 2; side++ {
				a, b := cm.X, cm.Y
				if side == 1 {
					a, b = b, a
				}
				if !usesPhi(a, ph, L, 0) {
					continue
				}
				if _, isC := b.(*ssa.Const); isC {
					// compare with entry handled above; still useful for bounds
				}
				bb := b
				ev := func(st *State) *T {
					v := x.pureEval(st, bb, L, 0)
					if v == nil {
						unsup("not pure")
					}
					return v.(*T)
				}
				k := fmt.Sprintf("%s|%s", ph.Name(), bb.Name())
				if seen[k] {
					continue
				}
				seen[k] = true
				get := func(st *State) *T { return st.env[ph].(*T) }
				add(phName(ph)+" <= bound", func(st *State) *T { return Le(get(st), ev(st)) })
				add(phName(ph)+" < bound", func(st *State) *T { return Lt(get(st), ev(st)) })
				add(phName(ph)+" >= bound", func(st *State) *T { return Le(ev(st), get(st)) })
				add(phName(ph)+" >= bound-1", func(st *State) *T { return Le(Sub(ev(st), Int(1)), get(st)) })
				add(phName(ph)+" <= bound+1", func(st *State) *T { return Le(get(st), Add(ev(st), Int(1))) })
			}
		}
	}
	// slices with different arrays
	var slLeaves []leafVar
	for _, lv := range leaves {
		if lv.get(ent).sort == sSlc {
			slLeaves = append(slLeaves, lv)
		}
	}
	var invSl []leafVar
	var keys []ssa.Value
	for k := range ent.env {
		keys = append(keys, k)
	}
	sort.Slice(keys, func(i, j int) bool { return valOrder(keys[i]) < valOrder(keys[j]) })
	for _, k := range keys {
		k := k
		if k.Parent() != fr.fn || !definedOutside(k, L) {
			continue
		}
		if v, ok := ent.env[k].(*T); ok && v.sort == sSlc {
			invSl = append(invSl, leafVar{k.Name(), k.Type(), func(st *State) *T { return v }})
		}
	}
	if len(invSl) > 6 {
		invSl = invSl[:6]
	}
	for i, a := range slLeaves {
		a := a
		for _, b := range append(append([]leafVar{}, slLeaves[i+1:]...), invSl...) {
			b := b
			if !types.Identical(under(a.t), under(b.t)) {
				continue
			}
			add(a.name+","+b.name+" arrays differ", func(st *State) *T {
				return Or(Not(Eq(sbase(a.get(st)), sbase(b.get(st)))), Eq(sbase(a.get(st)), tNull))
			})
		}
	}
	// memory frames
	var mk []string
	for k := range modMem {
		mk = append(mk, k)
	}
	sort.Strings(mk)
	for _, k := range mk {
		k := k
		m0 := ent.memOf(k, memSorts[k])
		mi := x.init.memOf(k, memSorts[k])
		frame := func(old *T, guard func(a *T) *T) func(st *State) *T {
			return func(st *State) *T {
				m := st.memOf(k, memSorts[k])
				if m == old {
					return tTrue
				}
				a := boundVar(sAddr)
				return Quant("forall", []*T{a}, Implies(guard(a), Eq(Select(m, a), Select(old, a))), [][]*T{{Select(m, a)}})
			}
		}
		add("only memory allocated in the loop is written: "+k, frame(m0, func(a *T) *T { return Lt(bornOf(a), entNow) }))
		add("caller memory unchanged: "+k, frame(mi, func(a *T) *T { return Lt(bornOf(a), Int(0)) }))
		if x.modOK != nil {
			add("caller memory unchanged except modifies: "+k, frame(mi, func(a *T) *T {
				return And(Lt(bornOf(a), Int(0)), Not(x.modOK(k, a)))
			}))
		}
		// frame relative to the arrays/objects held at loop entry
		for _, lv := range slLeaves {
			lv := lv
			et := under(lv.t).(*types.Slice).Elem()
			s0 := lv.get(ent)
			if sbase(s0) == tNull {
				continue
			}
			eachLeafQ(et, sbase(s0), func(key, srt string, ft types.Type, loc func(*T) *T) {
				if key != k {
					return
				}
				add("elements of "+lv.name+" at entry unchanged: "+k, func(st *State) *T {
					m := st.memOf(k, memSorts[k])
					j := boundVar(sInt)
					return Quant("forall", []*T{j}, Implies(And(Le(soff(s0), j), Lt(j, Add(soff(s0), slen(s0)))),
						Eq(Select(m, loc(j)), Select(m0, loc(j)))), [][]*T{{Select(m, loc(j))}})
				})
			})
		}
		for _, lv := range invSl {
			lv := lv
			et := under(lv.t).(*types.Slice).Elem()
			s0 := lv.get(ent)
			if sbase(s0) == tNull {
				continue
			}
			eachLeafQ(et, sbase(s0), func(key, srt string, ft types.Type, loc func(*T) *T) {
				if key != k {
					return
				}
				add("elements of "+lv.name+" unchanged: "+k, func(st *State) *T {
					m := st.memOf(k, memSorts[k])
					j := boundVar(sInt)
					return Quant("forall", []*T{j}, Implies(And(Le(soff(s0), j), Lt(j, Add(soff(s0), slen(s0)))),
						Eq(Select(m, loc(j)), Select(m0, loc(j)))), [][]*T{{Select(m, loc(j))}})
				})
			})
		}
	}
	// user invariants
	type src struct {
		sp    *FuncSpec
		binds map[string]TV
		old   *State
		root  bool
	}
	var srcs []src
	if x.spec != nil && len(x.spec.invs) > 0 {
		srcs = append(srcs, src{x.spec, x.rootB, x.init, true})
	}
	if fr.spec != nil && fr.spec != x.spec && len(fr.spec.invs) > 0 {
		srcs = append(srcs, src{fr.spec, fr.binds, fr.entry, false})
	}
	if len(srcs) > 0 {
		// values usable for invariant binders
		var pool []loopVar
		pool = append(pool, vars...)
		for _, k := range keys {
			k := k
			if k.Parent() != fr.fn || !definedOutside(k, L) {
				continue
			}
			switch ent.env[k].(type) {
			case *T, *Agg:
			default:
				continue
			}
			switch k.(type) {
			case *ssa.FieldAddr, *ssa.IndexAddr, *ssa.Alloc:
				if _, ok := under(k.Type()).(*types.Pointer); ok {
					if _, isA := k.(*ssa.Alloc); !isA {
						continue
					}
				}
			}
			v := ent.env[k]
			pool = append(pool, loopVar{k.Name(), k.Type(), func(st *State) Value { return v }, false})
		}
		var roots []*T
		for r := range ent.cells {
			roots = append(roots, r)
		}
		sort.Slice(roots, func(i, j int) bool { return roots[i].id < roots[j].id })
		for _, r := range roots {
			r := r
			mod := false
			for _, m := range mroots {
				if m == r {
					mod = true
				}
			}
			if !mod {
				pool = append(pool, loopVar{"cell", ent.cellType[r], func(st *State) Value { return st.cells[r] }, false})
			}
		}
		for _, s := range srcs {
			s := s
			for _, cl := range s.sp.invs {
				cl := cl
				var combos [][]loopVar
				var rec func(i int, cur []loopVar)
				rec = func(i int, cur []loopVar) {
					if len(combos) > 48 {
						return
					}
					if i == len(cl.vars) {
						anyPhi := len(cl.vars) == 0
						for _, c := range cur {
							_, isMap := under(c.t).(*types.Map)
							anyPhi = anyPhi || c.phi || isMap
						}
						if anyPhi {
							combos = append(combos, append([]loopVar{}, cur...))
						}
						return
					}
					vt := x.specs.resolveType(cl.vars[i].typ, s.sp.pkg)
					// a capital: only what the loop changes
					changing := unicode.IsUpper(rune(cl.vars[i].name[0]))
					for _, p := range pool {
						if changing && !p.phi {
							continue
						}
						if types.Identical(types.Unalias(p.t), vt) {
							dup := false
							for _, c := range cur {
								if c.name == p.name && c.phi == p.phi {
									dup = dup || c.name != "cell"
								}
							}
							if !dup {
								rec(i+1, append(cur, p))
							}
						}
					}
				}
				rec(0, nil)
				for _, co := range combos {
					co := co
					var ns []string
					for _, c := range co {
						ns = append(ns, c.name)
					}
					c := x.newCand(fmt.Sprintf("inv %s %v", clauseName(cl), ns), true, func(st *State) *T {
						ctx := &Ctx{x: x, st: st, old: s.old, binds: map[string]TV{}, pkg: s.sp.pkg, iter: iter(st)}
						for k, v := range s.binds {
							ctx.binds[k] = v
						}
						for i, v := range co {
							w := v.get(st)
							if w == nil {
								unsup("absent")
							}
							ctx.binds[cl.vars[i].name] = TV{w, v.t}
						}
						ctx.vis = func(m *T) *T {
							var best *mapIter
							for k, v := range st.env {
								if it, ok := v.(*mapIter); ok && it.m == m && k.Parent() == fr.fn {
									if best == nil || it.id > best.id {
										best = it
									}
								}
							}
							if best == nil {
								unsup("no iteration over this map")
							}
							return st.ghost[best.key].(*T)
						}
						return ctx.boolean(cl.e)
					})
					c.grp = fmt.Sprintf("%p %p", cl.e, L)
					for _, v := range co {
						if _, basic := under(v.t).(*types.Basic); !basic {
							c.grp += " " + v.name
						}
					}
					out = append(out, c)
				}
			}
		}
	}
	return out
}
