package main

import (
	"fmt"
	"go/ast"
	"go/token"
	"go/types"
	"os"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type callRes struct {
	st *State
	v  Value
}

func tupleOf(vs []Value) Value {
	switch len(vs) {
	case 0:
		return nil
	case 1:
		return vs[0]
	}
	return &Agg{es: vs}
}

func (x *Exec) callInstr(fr *Frame, st *State, in ssa.Value, c *ssa.CallCommon) []*State {
	var res []callRes
	switch {
	case c.IsInvoke():
		recv := x.val(st, c.Value).(*T)
		x.safety(st, "nil interface call", c.Pos(), Not(Eq(ityOf(recv), Int(0))))
		args := x.argVals(st, c.Args)
		for _, a := range args {
			st.escape(a)
		}
		if fn, r := x.dynMethod(st, recv, c.Method); fn != nil {
			res = x.callStatic(st, fn, append([]Value{r}, args...), nil, c.Pos())
			break
		}
		v := x.ifaceCall(c.Value.Type(), c.Method.Name(), c.Method.Type().(*types.Signature), recv, args, st)
		res = []callRes{{st, v}}
	default:
		if b, ok := c.Value.(*ssa.Builtin); ok {
			res = x.builtin(st, b, c)
			break
		}
		args := x.argVals(st, c.Args)
		if fn := c.StaticCallee(); fn != nil {
			var binds []Value
			if len(fn.FreeVars) > 0 {
				k := knownFn[x.val(st, c.Value).(*T)]
				binds = k.binds
			}
			res = x.callStatic(st, fn, args, binds, c.Pos())
			break
		}
		f := x.val(st, c.Value).(*T)
		if k, ok := knownFn[f]; ok {
			res = x.callStatic(st, k.fn, args, k.binds, c.Pos())
			break
		}
		for _, a := range args {
			st.escape(a)
		}
		sig := c.Signature()
		x.trust["function value of type "+sigName(sig)+": deterministic, reads only, writes nothing"] = true
		v := x.ufCall("call!"+cleanName(sigName(sig)), append([]Value{f}, args...), sig.Results(), st, true)
		if len(args) == 1 {
			x.rangeFact(st, f, sig, args[0], v)
		}
		res = []callRes{{st, v}}
	}
	if len(res) > mergeLimit && x.inSpec == 0 {
		res = x.mergeRes(res)
	}
	var out []*State
	for _, r := range res {
		if r.v != nil {
			r.st.env[in] = r.v
		}
		out = append(out, r.st)
	}
	return out
}

func (x *Exec) mergeRes(res []callRes) []callRes {
	var sts []*State
	var ex [][]Value
	for _, r := range res {
		sts = append(sts, r.st)
		if r.v == nil {
			ex = append(ex, []Value{})
		} else {
			ex = append(ex, []Value{r.v})
		}
	}
	m, vs := mergeStates(sts, ex, nil)
	if len(vs) == 0 {
		return []callRes{{m, nil}}
	}
	return []callRes{{m, vs[0]}}
}

func (x *Exec) argVals(st *State, as []ssa.Value) []Value {
	var out []Value
	for _, a := range as {
		out = append(out, x.val(st, a))
	}
	return out
}

func hasLoop(fn *ssa.Function) bool {
	for _, b := range fn.Blocks {
		for _, s := range b.Succs {
			if s.Dominates(b) {
				return true
			}
		}
	}
	return false
}

func (x *Exec) callStatic(st *State, fn *ssa.Function, args, binds []Value, pos token.Pos) []callRes {
	sp := x.specs.forFunc(fn)
	if sp.hasContract() {
		if x.inSpec == 0 {
			return []callRes{x.contractCall(st, fn, sp, args, pos)}
		}
		if sp.pure {
			return []callRes{{st, x.ufCall("pure!"+cleanName(specName(fn)), args, fn.Signature.Results(), st, true)}}
		}
	}
	if isRepoFn(fn) || sp != nil && sp.inline || fn.Parent() != nil {
		if x.inSpec == 0 {
			x.inl[specName(fn)] = true
		}
		return x.inlineRes(st, fn, args, binds)
	}
	// dependency
	pk := fnPkg(fn)
	if pk != nil && strings.Contains(pk.Path(), "intdxdt") && len(fn.Blocks) > 0 && len(fn.Blocks) <= 14 && !hasLoop(fn) && !(sp != nil && (sp.trusted || sp.opaque)) {
		if r, ok := x.tryInline(st, fn, args, binds); ok {
			if x.inSpec == 0 {
				x.inl[specName(fn)+" (dependency)"] = true
			}
			return r
		}
	}
	return []callRes{{st, x.opaque(st, fn, args)}}
}

// dynMethod: the method an interface call runs when the dynamic type is known
func (x *Exec) dynMethod(st *State, recv *T, m *types.Func) (*ssa.Function, Value) {
	ty := ityOf(recv)
	k, ok := ty.isInt()
	if !ok || recv.op != "mkI" {
		return nil, nil
	}
	t := typeByID[k]
	if t == nil || types.IsInterface(t) {
		return nil, nil
	}
	ms := x.prog.prog.MethodSets.MethodSet(t)
	sel := ms.Lookup(m.Pkg(), m.Name())
	if sel == nil {
		return nil, nil
	}
	fn := x.prog.prog.MethodValue(sel)
	if fn == nil || fn.Synthetic != "" {
		return nil, nil
	}
	return fn, x.unbox(st, t, recv)
}

// pureDep: packages of pure computations (no state behind their objects)
func pureDep(path string) bool {
	for _, p := range []string{"intdxdt/geom", "intdxdt/mbr", "intdxdt/math", "intdxdt/vect", "intdxdt/side", "intdxdt/cmp", "intdxdt/robust"} {
		if strings.Contains(path, p) {
			return true
		}
	}
	switch path {
	case "sync", "math", "strings", "strconv", "errors", "fmt", "path/filepath", "unicode", "bytes", "time":
		return true
	}
	return false
}

// writes: the function, or one it calls directly, writes memory it did not allocate
func (x *Exec) writes(fn *ssa.Function, seen map[*ssa.Function]bool) bool {
	if seen[fn] {
		return false
	}
	seen[fn] = true
	local := func(v ssa.Value) bool {
		for {
			switch t := v.(type) {
			case *ssa.FieldAddr:
				v = t.X
				continue
			case *ssa.IndexAddr:
				if _, ok := t.X.Type().Underlying().(*types.Slice); ok {
					_, mk := t.X.(*ssa.MakeSlice)
					return mk
				}
				v = t.X
				continue
			case *ssa.Alloc:
				return true
			}
			return false
		}
	}
	for _, b := range fn.Blocks {
		for _, in := range b.Instrs {
			switch t := in.(type) {
			case *ssa.Store:
				if !local(t.Addr) {
					return true
				}
			case *ssa.MapUpdate:
				return true
			case ssa.CallInstruction:
				if c := t.Common().StaticCallee(); c != nil && c.Pkg != nil && strings.Contains(c.Pkg.Pkg.Path(), "intdxdt") && x.writes(c, seen) {
					return true
				}
			}
		}
	}
	return false
}

func (x *Exec) opaque(st *State, fn *ssa.Function, args []Value) Value {
	pk := fnPkg(fn)
	if x.writes(fn, map[*ssa.Function]bool{}) {
		if sp := x.specs.forFunc(fn); sp == nil || !sp.opaque {
			unsup("call of %s, which may write memory and has no contract", specName(fn))
		}
	}
	if pk == nil || !pureDep(pk.Path()) {
		unsup("call of %s, which has no contract", specName(fn))
	}
	if rc := fn.Signature.Recv(); rc != nil && strings.Contains(pk.Path(), "intdxdt/geom") {
		if _, ok := under(rc.Type()).(*types.Pointer); ok {
			// the same function whether it is called directly or through an interface
			if x.inSpec == 0 {
				for _, a := range args {
					st.escape(a)
				}
			}
			return x.ifaceCall(rc.Type(), fn.Name(), fn.Signature, mkIface(typeID(rc.Type()), args[0].(*T)), args[1:], st)
		}
	}
	if x.inSpec == 0 {
		for _, a := range args {
			st.escape(a)
		}
		x.trust[specName(fn)+": external, terminates, writes no program memory, results arbitrary (scalar results depend only on the arguments)"] = true
	}
	return x.ufCall("ext!"+cleanName(specName(fn)), args, fn.Signature.Results(), st, x.inSpec > 0)
}

func (x *Exec) inlineRes(st *State, fn *ssa.Function, args, binds []Value) []callRes {
	rets := x.inline(st, fn, args, binds)
	var out []callRes
	for _, r := range rets {
		out = append(out, callRes{r.st, tupleOf(r.vs)})
	}
	return out
}

func (x *Exec) tryInline(st *State, fn *ssa.Function, args, binds []Value) (res []callRes, ok bool) {
	work := st.clone()
	ng, nc := len(x.goals), len(x.cands)
	stk := len(x.stack)
	spec := x.inSpec
	defer func() {
		if r := recover(); r != nil {
			if _, is := r.(unsupported); !is {
				panic(r)
			}
			if debugErr {
				fmt.Fprintf(os.Stderr, "not inlined: %s: %v\n", specName(fn), r)
			}
			x.goals = x.goals[:ng]
			x.cands = x.cands[:nc]
			x.stack = x.stack[:stk]
			x.inSpec = spec
			res, ok = nil, false
		}
	}()
	return x.inlineRes(work, fn, args, binds), true
}

// specCall evaluates a loop-free function in a specification.
func (x *Exec) specCall(st *State, fn *ssa.Function, args, binds []Value) Value {
	x.inSpec++
	defer func() { x.inSpec-- }()
	work := st.clone()
	work.path = nil
	res := x.callStatic(work, fn, args, binds, token.NoPos)
	if len(res) == 0 {
		unsup("specification call of %s does not return", fn)
	}
	v := res[len(res)-1].v
	for i := len(res) - 2; i >= 0; i-- {
		v = iteVal(And(res[i].st.path...), res[i].v, v)
	}
	return v
}

func flatArgs(args []Value) []*T {
	var out []*T
	for _, a := range args {
		if a == nil {
			continue
		}
		for _, t := range flatten(a) {
			switch t.sort {
			case sSlc:
				out = append(out, sbase(t), soff(t), slen(t))
			case sIface:
				out = append(out, ityOf(t), iadOf(t))
			default:
				out = append(out, t)
			}
		}
	}
	return out
}

// ufCall: results of an unknown deterministic function.
func (x *Exec) ufCall(name string, args []Value, rt *types.Tuple, st *State, pure bool) Value {
	fa := flatArgs(args)
	n := 0
	var build func(t types.Type) Value
	build = func(t types.Type) Value {
		switch u := under(t).(type) {
		case *types.Struct:
			a := &Agg{}
			for i := 0; i < u.NumFields(); i++ {
				a.es = append(a.es, build(u.Field(i).Type()))
			}
			return a
		case *types.Array:
			a := &Agg{}
			for i := int64(0); i < u.Len() && u.Len() <= 64; i++ {
				a.es = append(a.es, build(u.Elem()))
			}
			return a
		}
		s := leafSort(t)
		scalar := s == sInt || s == sBool || s == sF || s == sStr
		n++
		if scalar || pure {
			v := App(fmt.Sprintf("%s!%d", name, n), s, fa...)
			if !v.free {
				if s == sSlc {
					st.assume(wfTerm(t, v, st.now))
				} else {
					st.wf(t, v)
				}
			}
			return v
		}
		if x.inSpec == 0 {
			// possibly fresh memory
			nn := freshConst("now", sInt)
			st.assume(Le(st.now, nn))
			st.now = nn
		}
		return st.freshVal(t, "res."+name)
	}
	var vs []Value
	for i := 0; i < rt.Len(); i++ {
		vs = append(vs, build(rt.At(i).Type()))
	}
	return tupleOf(vs)
}

func (x *Exec) ifaceCall(t types.Type, name string, sig *types.Signature, recv *T, args []Value, st *State) Value {
	x.trust["interface method "+name+sigName(sig)+": deterministic, reads only"] = true
	return x.ufCall("m!"+name+"!"+cleanName(sigName(sig)), append([]Value{recv}, args...), sig.Results(), st, true)
}

// ---------------------------------------------------------------------------
// Contracts
// ---------------------------------------------------------------------------

func (x *Exec) paramBinds(sp *FuncSpec, fn *ssa.Function, args []Value) map[string]TV {
	b := map[string]TV{}
	for i, p := range fn.Params {
		n := p.Name()
		if sp != nil && i < len(sp.params) {
			n = sp.params[i]
		}
		if n != "_" && i < len(args) {
			b[n] = TV{args[i], p.Type()}
		}
	}
	return b
}

func bindResults(b map[string]TV, sp *FuncSpec, fn *ssa.Function, v Value) map[string]TV {
	n := make(map[string]TV, len(b)+2)
	for k, t := range b {
		n[k] = t
	}
	rs := fn.Signature.Results()
	for i := 0; i < rs.Len(); i++ {
		name := fmt.Sprintf("r%d", i)
		if i < len(sp.results) {
			name = sp.results[i]
		} else if rs.Len() == 1 {
			name = "result"
		}
		var rv Value
		if rs.Len() == 1 {
			rv = v
		} else {
			rv = v.(*Agg).es[i]
		}
		n[name] = TV{rv, rs.At(i).Type()}
	}
	return n
}

type modItem struct {
	key, srt string
	single   *T
	match    func(a *T) *T
	whole    bool
}

func (c *Ctx) modItems(cls []*Clause) []modItem {
	var out []modItem
	for _, cl := range cls {
		es := []ast.Expr{cl.e}
		for _, e := range es {
			out = append(out, c.modExpr(e)...)
		}
	}
	return out
}

func (c *Ctx) modExpr(e ast.Expr) []modItem {
	var out []modItem
	if call, ok := e.(*ast.CallExpr); ok {
		if id, ok := call.Fun.(*ast.Ident); ok {
			switch id.Name {
			case "elems":
				v := c.eval(call.Args[0])
				s := v.v.(*T)
				lo, hi := Int(0), slen(s)
				if len(call.Args) == 3 {
					lo, hi = c.term(call.Args[1]), c.term(call.Args[2])
				}
				et := under(v.t).(*types.Slice).Elem()
				eachLeafQ(et, sbase(s), func(key, srt string, ft types.Type, loc func(*T) *T) {
					out = append(out, modItem{key: key, srt: srt, match: func(a *T) *T {
						return inRange(a, loc, sbase(s), Add(soff(s), lo), Add(soff(s), hi))
					}})
				})
				return out
			case "mapof":
				v := c.eval(call.Args[0])
				mt := under(v.t).(*types.Map)
				m := v.v.(*T)
				ks := keySort(mt.Key())
				out = append(out, modItem{key: domKey(mt), srt: sArr(ks, sBool), single: m})
				for _, l := range mapLeaves(mt) {
					out = append(out, modItem{key: l.key, srt: sArr(ks, leafSort(l.t)), single: m})
				}
				return out
			case "anyfield":
				// anyfield(pkg.Type, field): that field of every object
				ty := c.x.specs.typeOf(call.Args[0], c.pkg)
				st := under(ty).(*types.Struct)
				for i := 0; i < st.NumFields(); i++ {
					if st.Field(i).Name() == call.Args[1].(*ast.Ident).Name {
						eachLeafField(ty, i, func(key, srt string) {
							out = append(out, modItem{key: key, srt: srt, whole: true})
						})
					}
				}
				return out
			case "anyelem":
				ty := c.x.specs.typeOf(call.Args[0], c.pkg)
				eachLeafQ(ty, tNull, func(key, srt string, _ types.Type, _ func(*T) *T) {
					out = append(out, modItem{key: key, srt: srt, whole: true})
				})
				return out
			}
		}
	}
	a, t := c.addr(e)
	if lf, ok := leafPtr[a]; ok && isLeaf(t) {
		key, loc := leafLoc(lf.st, lf.idx, a.args[0])
		return []modItem{{key: key, srt: leafSort(t), single: loc}}
	}
	eachLeaf(t, a, nil, func(ft types.Type, key string, loc *T, _ Value) {
		out = append(out, modItem{key: key, srt: leafSort(ft), single: loc})
	})
	return out
}

func eachLeafField(ty types.Type, i int, f func(key, srt string)) {
	ft := under(ty).(*types.Struct).Field(i).Type()
	a := boundVar(sAddr)
	if isLeaf(ft) {
		key, _ := leafLoc(ty, i, a)
		f(key, leafSort(ft))
		return
	}
	eachLeaf(ft, fldOf(a, i), nil, func(lt types.Type, key string, _ *T, _ Value) { f(key, leafSort(lt)) })
}

func (m modItem) matches(a *T) *T {
	if m.whole {
		return tTrue
	}
	if m.single != nil {
		return Eq(a, m.single)
	}
	return m.match(a)
}

func (x *Exec) contractCall(st *State, fn *ssa.Function, sp *FuncSpec, args []Value, pos token.Pos) callRes {
	x.used[sp.name] = true
	for _, a := range args {
		if a != nil {
			st.escape(a)
		}
	}
	binds := x.paramBinds(sp, fn, args)
	pre := &Ctx{x: x, st: st, old: st, binds: binds, pkg: sp.pkg}
	for _, r := range sp.requires {
		g := pre.boolean(r.e)
		x.goal(st, "requires", sp.name+": "+clauseName(r), r.props, x.pos(pos), g)
		st.assume(g)
	}
	old := st.clone()
	pre.old = old
	// memory
	items := (&Ctx{x: x, st: old, old: old, binds: binds, pkg: sp.pkg}).modItems(sp.modifies)
	byKey := map[string][]modItem{}
	var keys []string
	for _, it := range items {
		if byKey[it.key] == nil {
			keys = append(keys, it.key)
		}
		byKey[it.key] = append(byKey[it.key], it)
	}
	for _, k := range keys {
		m := st.memOf(k, byKey[k][0].srt)
		all := true
		for _, it := range byKey[k] {
			if it.single == nil {
				all = false
			}
			switch {
			case it.single != nil:
				x.frameCheck(st, k, it.single, tTrue)
			case it.whole:
				x.frameAll(st, k)
			default:
				a := freshConst("loc", sAddr)
				x.frameCheck(st, k, a, it.match(a))
			}
		}
		_, vs := arrParts(m.sort)
		if all {
			for _, it := range byKey[k] {
				m = Store(m, it.single, freshConst("mod", vs))
			}
			st.setMem(k, m)
			continue
		}
		nm := freshConst("M!"+k, m.sort)
		a := boundVar(sAddr)
		var ms []*T
		for _, it := range byKey[k] {
			ms = append(ms, it.matches(a))
		}
		st.assume(Quant("forall", []*T{a}, Or(append(ms, Eq(Select(nm, a), Select(m, a)))...), [][]*T{{Select(nm, a)}}))
		st.setMem(k, nm)
	}
	nn := freshConst("now", sInt)
	st.assume(Le(st.now, nn))
	st.now = nn
	var v Value
	if sp.pure {
		v = x.ufCall("pure!"+cleanName(specName(fn)), args, fn.Signature.Results(), st, true)
	} else {
		rs := fn.Signature.Results()
		var vs []Value
		for i := 0; i < rs.Len(); i++ {
			vs = append(vs, st.freshVal(rs.At(i).Type(), "ret."+fn.Name()))
		}
		v = tupleOf(vs)
	}
	post := &Ctx{x: x, st: st, old: old, binds: bindResults(binds, sp, fn, v), pkg: sp.pkg}
	for _, e := range sp.ensures {
		st.assume(post.boolean(e.e))
	}
	return callRes{st, v}
}

func (x *Exec) frameAll(st *State, key string) {
	if x.modOK != nil && x.modOK(key, freshConst("anyloc", sAddr)) == tTrue {
		return
	}
	a := freshConst("loc", sAddr)
	x.frameCheck(st, key, a, tTrue)
}

func clauseName(c *Clause) string {
	if c.label != "" {
		return c.label
	}
	s := c.src
	if len(s) > 90 {
		s = s[:90] + "..."
	}
	return s
}

// ---------------------------------------------------------------------------
// Builtins
// ---------------------------------------------------------------------------

func (x *Exec) builtin(st *State, b *ssa.Builtin, c *ssa.CallCommon) []callRes {
	arg := func(i int) Value { return x.val(st, c.Args[i]) }
	one := func(v Value) []callRes { return []callRes{{st, v}} }
	switch b.Name() {
	case "len":
		switch u := under(c.Args[0].Type()).(type) {
		case *types.Slice:
			return one(slen(arg(0).(*T)))
		case *types.Map:
			return one(x.mapLen(st, u, arg(0).(*T)))
		case *types.Basic:
			v := App("strlen", sInt, arg(0).(*T))
			if !v.free {
				st.assume(Le(Int(0), v))
			}
			return one(v)
		case *types.Array:
			return one(Int(u.Len()))
		case *types.Pointer:
			return one(Int(under(u.Elem()).(*types.Array).Len()))
		case *types.Chan:
			return one(freshConst("chanlen", sInt))
		}
	case "cap":
		switch under(c.Args[0].Type()).(type) {
		case *types.Slice:
			return one(scap(arg(0).(*T)))
		}
	case "append":
		s := arg(0).(*T)
		et := under(c.Args[0].Type()).(*types.Slice).Elem()
		if _, isStr := under(c.Args[1].Type()).(*types.Basic); isStr {
			x.trust["append of string bytes"] = true
			r := st.freshVal(c.Args[0].Type(), "bytes").(*T)
			return one(r)
		}
		more := arg(1).(*T)
		st.escapeAddr(sbase(s))
		st.escapeAddr(sbase(more))
		if n, ok := slen(more).isInt(); ok && n == 0 {
			return one(s)
		}
		if n, ok := slen(more).isInt(); ok && n <= 4 {
			var known []Value
			for i := int64(0); i < n; i++ {
				known = append(known, st.load(et, elemOf(sbase(more), Add(soff(more), Int(i)))))
			}
			return x.appendBoth(st, et, s, nil, known)
		}
		return x.appendBoth(st, et, s, more, nil)
	case "copy":
		if _, isStr := under(c.Args[1].Type()).(*types.Basic); isStr {
			unsup("copy from string")
		}
		et := under(c.Args[0].Type()).(*types.Slice).Elem()
		d, s := arg(0).(*T), arg(1).(*T)
		st.escapeAddr(sbase(d))
		st.escapeAddr(sbase(s))
		return one(x.copySlice(st, et, d, s))
	case "delete":
		mt := under(c.Args[0].Type()).(*types.Map)
		x.mapDelete(st, mt, arg(0).(*T), arg(1))
		return one(nil)
	case "min", "max":
		v := arg(0).(*T)
		for i := 1; i < len(c.Args); i++ {
			w := arg(i).(*T)
			if v.sort != sInt {
				unsup("min/max of floats")
			}
			lt := Le(v, w)
			if b.Name() == "max" {
				lt = Le(w, v)
			}
			v = Ite(lt, v, w)
		}
		return one(v)
	case "print", "println":
		return one(nil)
	case "ssa:wrapnilchk":
		return one(arg(0))
	case "recover":
		return one(nilIface)
	case "close":
		x.trust["channel close"] = true
		return one(nil)
	case "clear":
		mt, ok := under(c.Args[0].Type()).(*types.Map)
		if ok {
			m := arg(0).(*T)
			dk := domKey(mt)
			x.frameCheck(st, dk, m, tTrue)
			ds := sArr(keySort(mt.Key()), sBool)
			st.setMem(dk, Store(st.memOf(dk, ds), m, mk("asconst:", ds, tFalse)))
			return one(nil)
		}
	}
	unsup("builtin %s", b.Name())
	return nil
}
