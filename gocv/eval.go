package main

import (
	"fmt"
	"go/ast"
	"go/constant"
	"go/parser"
	"go/token"
	"go/types"
	"math/big"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type Ctx struct {
	x      *Exec
	st     *State
	old    *State
	binds  map[string]TV
	pkg    string
	iter   *T
	vis    func(m *T) *T // visited set of a map iteration
	strict bool
	depth  int
}

func (c *Ctx) with(name string, v TV) *Ctx {
	n := *c
	n.binds = make(map[string]TV, len(c.binds)+1)
	for k, b := range c.binds {
		n.binds[k] = b
	}
	n.binds[name] = v
	return &n
}

func (c *Ctx) boolean(e ast.Expr) *T {
	v := c.eval(e)
	t, ok := v.v.(*T)
	if !ok || t.sort != sBool {
		unsup("specification expression is not boolean")
	}
	return t
}

func (c *Ctx) term(e ast.Expr) *T {
	t, ok := c.eval(e).v.(*T)
	if !ok {
		unsup("specification expression is not a leaf")
	}
	return t
}

var tInt = types.Typ[types.Int]
var tBoolT = types.Typ[types.Bool]
var tF64 = types.Typ[types.Float64]

func boundVal(t types.Type) (Value, []*T) {
	switch u := under(t).(type) {
	case *types.Struct:
		a := &Agg{}
		var bs []*T
		for i := 0; i < u.NumFields(); i++ {
			v, b := boundVal(u.Field(i).Type())
			a.es = append(a.es, v)
			bs = append(bs, b...)
		}
		return a, bs
	case *types.Array:
		a := &Agg{}
		var bs []*T
		for i := int64(0); i < u.Len(); i++ {
			v, b := boundVal(u.Elem())
			a.es = append(a.es, v)
			bs = append(bs, b...)
		}
		return a, bs
	}
	b := boundVar(leafSort(t))
	return b, []*T{b}
}

func (c *Ctx) logicSort(src string, pkg string) (string, types.Type) {
	src = strings.TrimSpace(src)
	switch src {
	case "real":
		return sReal, nil
	case "addr":
		return sAddr, nil
	}
	t := c.x.specs.resolveType(src, pkg)
	return leafSort(t), t
}

func flatten(v Value) []*T {
	switch a := v.(type) {
	case *T:
		return []*T{a}
	case *Agg:
		var out []*T
		for _, e := range a.es {
			out = append(out, flatten(e)...)
		}
		return out
	}
	unsup("flatten %T", v)
	return nil
}

func (c *Ctx) eval(e ast.Expr) TV {
	switch t := e.(type) {
	case *ast.ParenExpr:
		return c.eval(t.X)
	case *ast.BasicLit:
		switch t.Kind {
		case token.INT:
			n, err := strconv.ParseInt(t.Value, 0, 64)
			if err != nil {
				unsup("literal %s", t.Value)
			}
			return TV{Int(n), tInt}
		case token.FLOAT:
			f, _ := strconv.ParseFloat(t.Value, 64)
			return TV{fconst(f), tF64}
		case token.STRING:
			s, _ := strconv.Unquote(t.Value)
			return TV{strConst(s), types.Typ[types.String]}
		}
	case *ast.Ident:
		return c.ident(t)
	case *ast.UnaryExpr:
		switch t.Op {
		case token.NOT:
			return TV{Not(c.boolean(t.X)), tBoolT}
		case token.SUB:
			v := c.eval(t.X)
			if v.v.(*T).sort == sF {
				return TV{App("fneg", sF, v.v.(*T)), v.t}
			}
			return TV{Sub(Int(0), v.v.(*T)), v.t}
		case token.AND:
			a, at := c.addr(t.X)
			return TV{a, types.NewPointer(at)}
		}
	case *ast.StarExpr:
		v := c.eval(t.X)
		et := under(v.t).(*types.Pointer).Elem()
		return TV{c.st.load(et, v.v.(*T)), et}
	case *ast.BinaryExpr:
		return c.binary(t)
	case *ast.SelectorExpr:
		return c.selector(t)
	case *ast.IndexExpr:
		return c.index(t)
	case *ast.SliceExpr:
		v := c.eval(t.X)
		s := v.v.(*T)
		lo, hi := Int(0), slen(s)
		if t.Low != nil {
			lo = c.term(t.Low)
		}
		if t.High != nil {
			hi = c.term(t.High)
		}
		return TV{mkSlc(sbase(s), Add(soff(s), lo), Sub(hi, lo), Sub(scap(s), lo)), v.t}
	case *ast.CallExpr:
		return c.call(t)
	case *ast.CompositeLit:
		ty := c.x.specs.typeOf(t.Type, c.pkg)
		st, ok := under(ty).(*types.Struct)
		if !ok {
			unsup("composite literal %s", ty)
		}
		z := zeroVal(ty).(*Agg)
		o := &Agg{es: append([]Value{}, z.es...)}
		for i, el := range t.Elts {
			if kv, ok := el.(*ast.KeyValueExpr); ok {
				n := kv.Key.(*ast.Ident).Name
				for j := 0; j < st.NumFields(); j++ {
					if st.Field(j).Name() == n {
						o.es[j] = c.eval(kv.Value).v
					}
				}
			} else {
				o.es[i] = c.eval(el).v
			}
		}
		return TV{o, ty}
	}
	unsup("specification expression %T", e)
	return TV{}
}

func (c *Ctx) ident(t *ast.Ident) TV {
	if v, ok := c.binds[t.Name]; ok {
		return v
	}
	switch t.Name {
	case "true":
		return TV{tTrue, tBoolT}
	case "false":
		return TV{tFalse, tBoolT}
	case "nil":
		return TV{tNull, nil}
	case "iter":
		if c.iter == nil {
			unsup("iter outside loop")
		}
		return TV{c.iter, tInt}
	}
	if p := c.x.prog.pkgs[c.pkg]; p != nil {
		if v, ok := c.pkgMember(p, t.Name); ok {
			return v
		}
	}
	unsup("unknown name %s in specification", t.Name)
	return TV{}
}

func (c *Ctx) pkgMember(p *ssa.Package, name string) (TV, bool) {
	switch m := p.Members[name].(type) {
	case *ssa.NamedConst:
		v := m.Value
		if b, ok := v.Type().(*types.Basic); ok && b.Info()&types.IsUntyped != 0 {
			switch v.Value.Kind() {
			case constant.Int:
				n, _ := constant.Int64Val(v.Value)
				return TV{Int(n), tInt}, true
			case constant.Float:
				f, _ := constant.Float64Val(v.Value)
				return TV{fconst(f), tF64}, true
			case constant.String:
				return TV{strConst(constant.StringVal(v.Value)), types.Typ[types.String]}, true
			case constant.Bool:
				return TV{Bool(constant.BoolVal(v.Value)), tBoolT}, true
			}
		}
		return TV{constVal(v), v.Type()}, true
	case *ssa.Global:
		et := m.Type().(*types.Pointer).Elem()
		if v := c.x.globalVal(c.st, m); v != nil {
			return TV{v, et}, true
		}
		return TV{c.st.load(et, globalAddr(m)), et}, true
	case *ssa.Function:
		return TV{fnConst(m), m.Signature}, true
	}
	return TV{}, false
}

// field finds field `name` of struct type t, through embedding.
func findField(t types.Type, name string) []int {
	type q struct {
		t    types.Type
		path []int
	}
	work := []q{{t, nil}}
	seen := map[types.Type]bool{}
	for len(work) > 0 {
		var next []q
		for _, w := range work {
			u := under(w.t)
			if p, ok := u.(*types.Pointer); ok {
				u = under(p.Elem())
			}
			st, ok := u.(*types.Struct)
			if !ok || seen[st] {
				continue
			}
			seen[st] = true
			for i := 0; i < st.NumFields(); i++ {
				p := append(append([]int{}, w.path...), i)
				if st.Field(i).Name() == name {
					return p
				}
				if st.Field(i).Embedded() {
					next = append(next, q{st.Field(i).Type(), p})
				}
			}
		}
		work = next
	}
	return nil
}

func (c *Ctx) step(v TV, i int) TV {
	if p, ok := under(v.t).(*types.Pointer); ok {
		st := p.Elem()
		ft := under(st).(*types.Struct).Field(i).Type()
		a := v.v.(*T)
		if _, ok := c.st.cells[rootOf(a)]; ok {
			return TV{c.st.cellRead(fldOf(a, i)), ft}
		}
		return TV{c.st.loadField(st, i, a), ft}
	}
	st := under(v.t).(*types.Struct)
	ag, ok := v.v.(*Agg)
	if !ok {
		unsup("field of non-struct value")
	}
	return TV{ag.es[i], st.Field(i).Type()}
}

func (c *Ctx) selector(t *ast.SelectorExpr) TV {
	if id, ok := t.X.(*ast.Ident); ok {
		if _, bound := c.binds[id.Name]; !bound {
			if p := c.x.prog.pkgs[id.Name]; p != nil {
				if v, ok := c.pkgMember(p, t.Sel.Name); ok {
					return v
				}
			}
		}
	}
	v := c.eval(t.X)
	if v.t == nil {
		unsup("field %s of untyped value", t.Sel.Name)
	}
	path := findField(v.t, t.Sel.Name)
	if path == nil {
		unsup("no field %s in %s", t.Sel.Name, v.t)
	}
	for _, i := range path {
		v = c.step(v, i)
	}
	return v
}

// addr evaluates an lvalue to its address.
func (c *Ctx) addr(e ast.Expr) (*T, types.Type) {
	switch t := e.(type) {
	case *ast.ParenExpr:
		return c.addr(t.X)
	case *ast.StarExpr:
		v := c.eval(t.X)
		return v.v.(*T), under(v.t).(*types.Pointer).Elem()
	case *ast.SelectorExpr:
		if id, ok := t.X.(*ast.Ident); ok {
			if _, bound := c.binds[id.Name]; !bound {
				if p := c.x.prog.pkgs[id.Name]; p != nil {
					if g, ok := p.Members[t.Sel.Name].(*ssa.Global); ok {
						return globalAddr(g), g.Type().(*types.Pointer).Elem()
					}
				}
			}
		}
		var v TV
		if c.isPtrExpr(t.X) {
			v = c.eval(t.X)
		} else {
			a, at := c.addr(t.X)
			v = TV{a, types.NewPointer(at)}
		}
		path := findField(v.t, t.Sel.Name)
		if path == nil {
			unsup("no field %s in %s", t.Sel.Name, v.t)
		}
		for k, i := range path {
			pt, ok := under(v.t).(*types.Pointer)
			if !ok {
				unsup("address of field")
			}
			stt := pt.Elem()
			ft := under(stt).(*types.Struct).Field(i).Type()
			a := fldOf(v.v.(*T), i)
			if k == len(path)-1 {
				if isLeaf(ft) && !specialField(ft) {
					leafPtr[a] = leafField{stt, i}
				}
				return a, ft
			}
			if _, isP := under(ft).(*types.Pointer); isP {
				v = c.step(v, i)
			} else {
				v = TV{a, types.NewPointer(ft)}
			}
		}
	case *ast.IndexExpr:
		v := c.eval(t.X)
		i := c.term(t.Index)
		if sl, ok := under(v.t).(*types.Slice); ok {
			s := v.v.(*T)
			return elemOf(sbase(s), Add(soff(s), i)), sl.Elem()
		}
	}
	unsup("cannot take address in specification")
	return nil, nil
}

func (c *Ctx) tryAddr(e ast.Expr) (a *T, ok bool) {
	defer func() {
		if r := recover(); r != nil {
			if _, u := r.(unsupported); !u {
				panic(r)
			}
			a, ok = nil, false
		}
	}()
	a, _ = c.addr(e)
	return a, true
}

func (c *Ctx) isPtrExpr(e ast.Expr) bool {
	ok := false
	func() {
		defer func() {
			if r := recover(); r != nil {
				if _, u := r.(unsupported); !u {
					panic(r)
				}
			}
		}()
		v := c.eval(e)
		if v.t != nil {
			_, ok = under(v.t).(*types.Pointer)
		}
	}()
	return ok
}

func (c *Ctx) index(t *ast.IndexExpr) TV {
	v := c.eval(t.X)
	if v.t != nil {
		if p, ok := under(v.t).(*types.Pointer); ok {
			if _, ok := under(p.Elem()).(*types.Array); ok {
				v = TV{c.st.load(p.Elem(), v.v.(*T)), p.Elem()}
			}
		}
	}
	if v.t == nil {
		// logical array
		a := v.v.(*T)
		return TV{Select(a, c.term(t.Index)), nil}
	}
	switch u := under(v.t).(type) {
	case *types.Slice:
		s := v.v.(*T)
		i := c.term(t.Index)
		return TV{c.st.load(u.Elem(), elemOf(sbase(s), Add(soff(s), i))), u.Elem()}
	case *types.Array:
		return TV{aggRead(v.v, []*T{c.term(t.Index)}), u.Elem()}
	case *types.Map:
		k := encKey(u.Key(), c.eval(t.Index).v)
		m := v.v.(*T)
		return TV{iteVal(c.x.mapDom(c.st, u, m, k), c.x.mapVal(c.st, u, m, k), zeroVal(u.Elem())), u.Elem()}
	}
	unsup("index of %s", v.t)
	return TV{}
}

func (c *Ctx) numeric(a, b TV) (TV, TV) {
	x, ok1 := a.v.(*T)
	y, ok2 := b.v.(*T)
	if !ok1 || !ok2 {
		return a, b
	}
	conv := func(t *T, s string) *T {
		if n, ok := t.isInt(); ok {
			if s == sF {
				return fconst(float64(n))
			}
			if s == sReal {
				return Real(new(big.Rat).SetInt64(n))
			}
		}
		if s == sReal && t.sort == sInt {
			return mk("to_real", sReal, t)
		}
		return t
	}
	if x.sort == sInt && (y.sort == sF || y.sort == sReal) {
		return TV{conv(x, y.sort), b.t}, b
	}
	if y.sort == sInt && (x.sort == sF || x.sort == sReal) {
		return a, TV{conv(y, x.sort), a.t}
	}
	return a, b
}

func (c *Ctx) binary(t *ast.BinaryExpr) TV {
	switch t.Op {
	case token.LAND:
		return TV{And(c.boolean(t.X), c.boolean(t.Y)), tBoolT}
	case token.LOR:
		return TV{Or(c.boolean(t.X), c.boolean(t.Y)), tBoolT}
	}
	a, b := c.eval(t.X), c.eval(t.Y)
	a, b = c.numeric(a, b)
	if t.Op == token.EQL || t.Op == token.NEQ {
		var q *T
		// nil
		if a.t == nil && a.v == Value(tNull) && b.t != nil {
			a, b = b, a
		}
		if b.t == nil && b.v == Value(tNull) && a.t != nil {
			q = isNil(a.v.(*T))
		} else if a.t == nil || b.t == nil {
			x, ok1 := a.v.(*T)
			y, ok2 := b.v.(*T)
			if !ok1 || !ok2 || x.sort != y.sort {
				unsup("comparison in specification")
			}
			q = Eq(x, y)
		} else {
			if !shape2(a.v, b.v) {
				unsup("comparison of different shapes in specification: %s, %s", a.t, b.t)
			}
			q = goEq(a.t, a.v, b.v)
			if _, isSl := under(a.t).(*types.Slice); isSl {
				q = eqVal(a.v, b.v)
			}
		}
		if t.Op == token.NEQ {
			q = Not(q)
		}
		return TV{q, tBoolT}
	}
	x, ok1 := a.v.(*T)
	y, ok2 := b.v.(*T)
	if !ok1 || !ok2 {
		unsup("operator %s on aggregates", t.Op)
	}
	if x.sort == sReal {
		if y.sort != sReal {
			unsup("real op")
		}
		switch t.Op {
		case token.LSS:
			return TV{mk("<", sBool, x, y), tBoolT}
		case token.LEQ:
			return TV{mk("<=", sBool, x, y), tBoolT}
		case token.GTR:
			return TV{mk("<", sBool, y, x), tBoolT}
		case token.GEQ:
			return TV{mk("<=", sBool, y, x), tBoolT}
		case token.ADD:
			return TV{mk("+", sReal, x, y), nil}
		case token.SUB:
			return TV{mk("-", sReal, x, y), nil}
		case token.MUL:
			return TV{mk("*", sReal, x, y), nil}
		}
	}
	if x.sort != y.sort {
		unsup("operator %s on %s and %s", t.Op, x.sort, y.sort)
	}
	r := binop(t.Op, a.t, x, y)
	switch t.Op {
	case token.LSS, token.LEQ, token.GTR, token.GEQ:
		return TV{r, tBoolT}
	}
	return TV{r, a.t}
}

func isNil(t *T) *T {
	switch t.sort {
	case sSlc:
		return Eq(sbase(t), tNull)
	case sIface:
		return Eq(ityOf(t), Int(0))
	case sFn:
		return Eq(t, nilFn)
	}
	return Eq(t, tNull)
}

func (c *Ctx) call(t *ast.CallExpr) TV {
	x := c.x
	if id, ok := t.Fun.(*ast.Ident); ok {
		if b, bound := c.binds[id.Name]; bound {
			return c.callValue(b, t.Args)
		}
		switch id.Name {
		case "forall", "exists":
			v := t.Args[0].(*ast.Ident).Name
			lo, hi := c.term(t.Args[1]), c.term(t.Args[2])
			bv := boundVar(sInt)
			body := c.with(v, TV{bv, tInt}).boolean(t.Args[3])
			g := And(Le(lo, bv), Lt(bv, hi))
			if id.Name == "forall" {
				return TV{Quant("forall", []*T{bv}, Implies(g, body), nil), tBoolT}
			}
			return TV{Quant("exists", []*T{bv}, And(g, body), nil), tBoolT}
		case "every", "any":
			// every(e, s, body), any(e, s, body): of the elements e of the slice s
			v := t.Args[0].(*ast.Ident).Name
			sv := c.eval(t.Args[1])
			sl := sv.v.(*T)
			et := under(sv.t).(*types.Slice).Elem()
			bv := boundVar(sInt)
			body := c.with(v, TV{c.st.load(et, elemOf(sbase(sl), bv)), et}).boolean(t.Args[2])
			g := And(Le(soff(sl), bv), Lt(bv, Add(soff(sl), slen(sl))))
			if id.Name == "every" {
				return TV{Quant("forall", []*T{bv}, Implies(g, body), nil), tBoolT}
			}
			return TV{Quant("exists", []*T{bv}, And(g, body), nil), tBoolT}
		case "all", "some":
			v := t.Args[0].(*ast.Ident).Name
			var ty types.Type
			var val Value
			var bs []*T
			if tid, ok := t.Args[1].(*ast.Ident); ok && tid.Name == "addr" {
				b := boundVar(sAddr)
				val, bs = b, []*T{b}
			} else {
				ty = x.specs.typeOf(t.Args[1], c.pkg)
				val, bs = boundVal(ty)
			}
			body := c.with(v, TV{val, ty}).boolean(t.Args[2])
			q := "forall"
			if id.Name == "some" {
				q = "exists"
			}
			return TV{Quant(q, bs, body, nil), tBoolT}
		case "each":
			// each(x, T, y, U, ..., trig(t, ...), body)
			cc := c
			var bs []*T
			i := 0
			for ; i+1 < len(t.Args); i += 2 {
				id, ok := t.Args[i].(*ast.Ident)
				if !ok {
					break
				}
				if tid, ok := t.Args[i+1].(*ast.Ident); ok && tid.Name == "addr" {
					b := boundVar(sAddr)
					bs = append(bs, b)
					cc = cc.with(id.Name, TV{b, nil})
					continue
				}
				ty := x.specs.typeOf(t.Args[i+1], c.pkg)
				val, b := boundVal(ty)
				bs = append(bs, b...)
				cc = cc.with(id.Name, TV{val, ty})
			}
			var pat []*T
			for _, e := range t.Args[i].(*ast.CallExpr).Args {
				pat = append(pat, flatten(cc.eval(e).v)[0])
			}
			return TV{Quant("forall", bs, cc.boolean(t.Args[i+1]), [][]*T{pat}), tBoolT}
		case "sliceof":
			b, o, l := c.term(t.Args[0]), c.term(t.Args[1]), c.term(t.Args[2])
			return TV{mkSlc(b, o, l, l), types.NewSlice(tInt)}
		case "rangecall":
			// the value of a function of coordinates at the consecutive points i..j of the given points
			f := c.eval(t.Args[0])
			sig, ok := under(f.t).(*types.Signature)
			if !ok {
				unsup("rangecall of a non-function")
			}
			return c.finishCall(sig, rangeCall(x, f.v.(*T), sig, c.term(t.Args[1]), c.term(t.Args[2]), c.term(t.Args[3]), c.st))
		case "imp":
			return TV{Implies(c.boolean(t.Args[0]), c.boolean(t.Args[1])), tBoolT}
		case "iff":
			return TV{Eq(c.boolean(t.Args[0]), c.boolean(t.Args[1])), tBoolT}
		case "ite":
			a, b := c.eval(t.Args[1]), c.eval(t.Args[2])
			a, b = c.numeric(a, b)
			return TV{iteVal(c.boolean(t.Args[0]), a.v, b.v), a.t}
		case "let":
			return c.with(t.Args[0].(*ast.Ident).Name, c.eval(t.Args[1])).eval(t.Args[2])
		case "old":
			n := *c
			n.st = c.old
			return n.eval(t.Args[0])
		case "fresh":
			v := c.eval(t.Args[0])
			a := addrOfVal(v.v)
			return TV{And(Le(c.old.now, bornOf(a)), Lt(bornOf(a), c.st.now)), tBoolT}
		case "preexisting":
			v := c.eval(t.Args[0])
			return TV{Lt(bornOf(addrOfVal(v.v)), c.old.now), tBoolT}
		case "same":
			a, b := c.eval(t.Args[0]), c.eval(t.Args[1])
			if !shape2(a.v, b.v) {
				unsup("same of different shapes")
			}
			return TV{eqVal(a.v, b.v), tBoolT}
		case "sameptr":
			return TV{Eq(addrOfVal(c.eval(t.Args[0]).v), addrOfVal(c.eval(t.Args[1]).v)), tBoolT}
		case "isnil":
			return TV{isNil(c.term(t.Args[0])), tBoolT}
		case "len":
			v := c.eval(t.Args[0])
			switch u := under(v.t).(type) {
			case *types.Slice:
				return TV{slen(v.v.(*T)), tInt}
			case *types.Array:
				return TV{Int(u.Len()), tInt}
			case *types.Map:
				return TV{x.mapLen(c.st, u, v.v.(*T)), tInt}
			case *types.Basic:
				return TV{App("strlen", sInt, v.v.(*T)), tInt}
			}
			unsup("len of %s", v.t)
		case "cap":
			return TV{scap(c.term(t.Args[0])), tInt}
		case "off":
			return TV{soff(c.term(t.Args[0])), tInt}
		case "base":
			return TV{sbase(c.term(t.Args[0])), nil}
		case "born":
			return TV{bornOf(addrOfVal(c.eval(t.Args[0]).v)), tInt}
		case "now":
			return TV{c.st.now, tInt}
		case "rk":
			return TV{mk("rk", sReal, c.term(t.Args[0])), nil}
		case "isnan":
			return TV{mk("fnan", sBool, c.term(t.Args[0])), tBoolT}
		case "has":
			m := c.eval(t.Args[0])
			mt := under(m.t).(*types.Map)
			return TV{x.mapDom(c.st, mt, m.v.(*T), encKey(mt.Key(), c.eval(t.Args[1]).v)), tBoolT}
		case "at":
			// at(m, k): the value stored under k, where has(m, k)
			m := c.eval(t.Args[0])
			mt := under(m.t).(*types.Map)
			return TV{x.mapVal(c.st, mt, m.v.(*T), encKey(mt.Key(), c.eval(t.Args[1]).v)), mt.Elem()}
		case "visited":
			m := c.eval(t.Args[0])
			mt := under(m.t).(*types.Map)
			if c.vis == nil {
				unsup("visited outside a map loop")
			}
			return TV{Select(c.vis(m.v.(*T)), encKey(mt.Key(), c.eval(t.Args[1]).v)), tBoolT}
		case "occurs":
			// occurs(x, s): x is an element of s
			xv := c.term(t.Args[0])
			sv := c.eval(t.Args[1])
			sl := sv.v.(*T)
			et := under(sv.t).(*types.Slice).Elem()
			if !isLeaf(et) || leafSort(et) != xv.sort {
				unsup("occurs: element type %s", et)
			}
			return TV{App("occurs!"+xv.sort, sBool, xv, sbase(sl), soff(sl), slen(sl), c.st.memOf(elKey(et), xv.sort)), tBoolT}
		case "sent":
			v := c.term(t.Args[0])
			g, ok := c.st.ghost["sent"].(*T)
			if !ok {
				return TV{tFalse, tBoolT}
			}
			return TV{Select(g, v), tBoolT}
		case "typeis":
			v := c.term(t.Args[0])
			ty := x.specs.typeOf(t.Args[1], c.pkg)
			return TV{Eq(ityOf(v), typeID(ty)), tBoolT}
		case "as":
			v := c.term(t.Args[0])
			ty := x.specs.typeOf(t.Args[1], c.pkg)
			return TV{x.unbox(c.st, ty, v), ty}
		case "iface":
			v := c.eval(t.Args[0])
			return TV{x.makeIface(c.st, v.t, v.v), types.NewInterfaceType(nil, nil)}
		}
		if p := x.specs.preds[id.Name]; p != nil {
			if len(p.params) != len(t.Args) {
				unsup("pred %s: %d arguments", p.name, len(t.Args))
			}
			if c.depth > 20 {
				unsup("pred recursion")
			}
			n := *c
			n.binds = map[string]TV{}
			n.pkg = p.pkg
			n.depth++
			for i, a := range t.Args {
				v := c.eval(a)
				if v.t != nil && p.params[i].typ != "real" && p.params[i].typ != "addr" {
					pt := x.specs.resolveType(p.params[i].typ, p.pkg)
					if leafSort(pt) == leafSort(v.t) {
						v.t = pt
					}
					if tt, ok := v.v.(*T); ok {
						if k, isI := tt.isInt(); isI && leafSort(pt) == sF {
							v = TV{fconst(float64(k)), pt}
						}
					}
				}
				n.binds[p.params[i].name] = v
			}
			if p.named {
				return n.namedPred(p)
			}
			// specification macros are evaluated in the state of the caller
			return n.eval(p.body)
		}
		if l := x.specs.logics[id.Name]; l != nil {
			return c.logic(l, t.Args)
		}
		if p := x.prog.pkgs[c.pkg]; p != nil {
			if f, ok := p.Members[id.Name].(*ssa.Function); ok {
				return c.callFn(f, c.args(t.Args))
			}
		}
		if ty := x.specs.tryType(id, c.pkg); ty != nil {
			v := c.eval(t.Args[0])
			return TV{convert(v.t, ty, v.v, x, c.st), ty}
		}
		unsup("unknown function %s in specification", id.Name)
	}
	if sel, ok := t.Fun.(*ast.SelectorExpr); ok {
		if id, ok := sel.X.(*ast.Ident); ok {
			if _, bound := c.binds[id.Name]; !bound {
				if p := x.prog.pkgs[id.Name]; p != nil {
					if f, ok := p.Members[sel.Sel.Name].(*ssa.Function); ok {
						return c.callFn(f, c.args(t.Args))
					}
					if ty := x.specs.tryType(sel, c.pkg); ty != nil {
						v := c.eval(t.Args[0])
						return TV{v.v, ty}
					}
				}
			}
		}
		recv := c.eval(sel.X)
		if recv.t == nil {
			unsup("method of untyped value")
		}
		if findField(recv.t, sel.Sel.Name) != nil {
			return c.callValue(c.selector(sel), t.Args)
		}
		return c.method(recv, sel, t.Args)
	}
	if ty := x.specs.tryType(t.Fun, c.pkg); ty != nil && len(t.Args) == 1 {
		v := c.eval(t.Args[0])
		return TV{v.v, ty}
	}
	return c.callValue(c.eval(t.Fun), t.Args)
}

func addrOfVal(v Value) *T {
	t, ok := v.(*T)
	if !ok {
		unsup("address of aggregate value")
	}
	switch t.sort {
	case sSlc:
		return sbase(t)
	case sIface:
		return iadOf(t)
	case sAddr:
		return t
	}
	unsup("no address in a %s", t.sort)
	return nil
}

// namedDefs: the definitions of named predicates, by symbol.
type namedDef struct {
	formals []*T
	body    *T
}

var namedDefs = map[string]*namedDef{}
var namedSyms = map[string]string{}

// namedPred: a predicate kept as an atom with a defining axiom. One symbol per
// definition: the body evaluated over formal arguments in the current state.
func (c *Ctx) namedPred(p *Pred) TV {
	var actual, formals []*T
	for i, q := range p.params {
		tt, ok := c.binds[q.name].v.(*T)
		if !ok {
			unsup("pred %s: aggregate argument %s", p.name, q.name)
		}
		if len(p.formals) <= i {
			p.formals = append(p.formals, map[string]*T{})
		}
		f := p.formals[i][tt.sort]
		if f == nil {
			f = boundVar(tt.sort)
			p.formals[i][tt.sort] = f
		}
		actual, formals = append(actual, tt), append(formals, f)
		c.binds[q.name] = TV{f, c.binds[q.name].t}
	}
	b, ok := c.eval(p.body).v.(*T)
	if !ok || b.sort != sBool {
		unsup("pred %s: named predicates are boolean", p.name)
	}
	for v := range b.fvars {
		own := false
		for _, f := range formals {
			own = own || f == v
		}
		if !own {
			unsup("pred %s: depends on more than its arguments", p.name)
		}
	}
	if b == tTrue || b == tFalse {
		return TV{b, tBoolT}
	}
	// definitions equal up to the names of bound variables share a symbol
	named := map[*T]string{}
	subterms(b, func(t *T) {
		if !t.free && len(t.args) > 0 && t.op != "forall" && t.op != "exists" {
			named[t] = fmt.Sprintf("#%d", t.id)
		}
	})
	var sb strings.Builder
	b.print(&sb, named)
	k := p.name + " " + sb.String()
	sym := namedSyms[k]
	if sym == "" {
		sym = fmt.Sprintf("P!%s!%d", p.name, len(namedSyms))
		namedSyms[k] = sym
		namedDefs[sym] = &namedDef{formals, b}
	}
	return TV{App(sym, sBool, actual...), tBoolT}
}

// definitions of the named predicates that occur in ts, and in those definitions
func definitions(ts []*T) []*T {
	var out []*T
	seen := map[*T]bool{}
	done := map[string]bool{}
	var walk func(t *T)
	walk = func(t *T) {
		if seen[t] {
			return
		}
		seen[t] = true
		for _, a := range t.args {
			walk(a)
		}
		for _, p := range t.pats {
			for _, a := range p {
				walk(a)
			}
		}
		if d := namedDefs[t.op]; d != nil && !done[t.op] {
			done[t.op] = true
			var fs []*T
			for _, f := range d.formals {
				fs = append(fs, f)
			}
			h := App(t.op, sBool, fs...)
			def := And(Implies(h, d.body), Implies(d.body, h))
			if len(fs) > 0 {
				def = Quant("forall", fs, def, [][]*T{{h}})
			}
			out = append(out, def)
			walk(d.body)
		}
	}
	for _, t := range ts {
		walk(t)
	}
	return out
}

func (c *Ctx) args(as []ast.Expr) []Value {
	var out []Value
	for _, a := range as {
		out = append(out, c.eval(a).v)
	}
	return out
}

func (c *Ctx) logic(l *Logic, as []ast.Expr) TV {
	if len(as) != len(l.params) {
		unsup("logic %s: %d arguments", l.name, len(as))
	}
	var args []*T
	for i, a := range as {
		v := c.eval(a)
		s, ty := c.logicSort(l.params[i].typ, l.pkg)
		if s == sF {
			v, _ = c.numeric(v, TV{fconst(0), tF64})
		}
		if s != "" {
			tt, ok := v.v.(*T)
			if !ok || tt.sort != s {
				unsup("logic %s: argument %d has the wrong sort", l.name, i)
			}
			if s == sSlc {
				// a slice is identified by its array and extent
				args = append(args, sbase(tt), soff(tt), slen(tt))
				continue
			}
			if s == sIface {
				args = append(args, ityOf(tt), iadOf(tt))
				continue
			}
			args = append(args, tt)
			continue
		}
		_ = ty
		args = append(args, flatten(v.v)...)
	}
	for _, r := range l.reads {
		key, srt := c.readKey(r, l)
		args = append(args, c.st.memOf(key, srt))
	}
	rs, rt := c.logicSort(l.res, l.pkg)
	if rs == "" {
		unsup("logic %s: result", l.name)
	}
	if rs == sSlc || rs == sIface {
		return TV{App("lg!"+l.name, rs, args...), rt}
	}
	return TV{App("lg!"+l.name, rs, args...), rt}
}

// readKey: the memory named in a reads list, a field (pkg.Type.field) or the cells of a type
func (c *Ctx) readKey(r string, l *Logic) (string, string) {
	r = strings.TrimSpace(r)
	if i := strings.LastIndex(r, "."); i > 0 {
		if e, err := parser.ParseExpr(r[:i]); err == nil {
			if t := c.x.specs.tryType(e, l.pkg); t != nil {
				if s, ok := under(t).(*types.Struct); ok {
					for k := 0; k < s.NumFields(); k++ {
						if s.Field(k).Name() == r[i+1:] {
							key, _ := leafLoc(t, k, tNull)
							return key, leafSort(s.Field(k).Type())
						}
					}
				}
			}
		}
	}
	if e, err := parser.ParseExpr(r); err == nil {
		if t := c.x.specs.tryType(e, l.pkg); t != nil && isLeaf(t) {
			return elKey(t), leafSort(t)
		}
	}
	unsup("logic %s reads unknown memory %s", l.name, r)
	return "", ""
}

func rangeCall(x *Exec, f *T, sig *types.Signature, pts, i, j *T, st *State) Value {
	return x.ufCall("callrng!"+cleanName(sigName(sig)), []Value{f, pts, i, j}, sig.Results(), st, true)
}

// rangeFact: a function of coordinates depends on the sequence of points only, so its
// value at consecutive indices is the value at that range.
func (x *Exec) rangeFact(st *State, f *T, sig *types.Signature, arg, res Value) {
	ps := sig.Params()
	if ps.Len() != 1 || types.TypeString(ps.At(0).Type(), func(p *types.Package) string { return p.Name() }) != "geom.Coords" {
		return
	}
	ag := arg.(*Agg)
	pts, idx := ag.es[0].(*T), ag.es[1].(*T)
	at := func(k *T) *T { return st.load(tInt, elemOf(sbase(idx), Add(soff(idx), k))).(*T) }
	a := at(Int(0))
	rv := rangeCall(x, f, sig, pts, a, Add(a, Sub(slen(idx), Int(1))), st)
	k := freshConst("k", sInt)
	st.assume(Or(Le(slen(idx), Int(0)), And(Le(Int(0), k), Lt(k, slen(idx)), Not(Eq(at(k), Add(a, k)))), eqVal(res, rv)))
}

func (c *Ctx) callValue(f TV, as []ast.Expr) TV {
	sig, ok := under(f.t).(*types.Signature)
	if !ok {
		unsup("call of non-function in specification")
	}
	args := c.args(as)
	ft := f.v.(*T)
	if k, ok := knownFn[ft]; ok {
		return c.finishCall(k.fn.Signature, c.x.specCall(c.st, k.fn, args, k.binds))
	}
	return c.finishCall(sig, c.x.ufCall("call!"+cleanName(sigName(sig)), append([]Value{ft}, args...), sig.Results(), c.st, true))
}

func sigName(sig *types.Signature) string {
	return types.TypeString(types.NewSignatureType(nil, nil, nil, stripNames(sig.Params()), stripNames(sig.Results()), sig.Variadic()), func(p *types.Package) string { return p.Name() })
}

func stripNames(t *types.Tuple) *types.Tuple {
	var vs []*types.Var
	for i := 0; i < t.Len(); i++ {
		vs = append(vs, types.NewVar(0, nil, "", types.Unalias(t.At(i).Type())))
	}
	return types.NewTuple(vs...)
}

func (c *Ctx) finishCall(sig *types.Signature, v Value) TV {
	switch sig.Results().Len() {
	case 1:
		return TV{v, sig.Results().At(0).Type()}
	default:
		// a tuple behaves as a struct with fields r0, r1, ...
		var fs []*types.Var
		for i := 0; i < sig.Results().Len(); i++ {
			fs = append(fs, types.NewField(0, nil, fmt.Sprintf("r%d", i), sig.Results().At(i).Type(), false))
		}
		return TV{v, types.NewStruct(fs, nil)}
	}
}

func (c *Ctx) callFn(f *ssa.Function, args []Value) TV {
	return c.finishCall(f.Signature, c.x.specCall(c.st, f, args, nil))
}

func (c *Ctx) method(recv TV, sel *ast.SelectorExpr, as []ast.Expr) TV {
	name := sel.Sel.Name
	args := c.args(as)
	if _, ok := under(recv.t).(*types.Interface); ok {
		ms := types.NewMethodSet(recv.t)
		for i := 0; i < ms.Len(); i++ {
			if ms.At(i).Obj().Name() == name {
				sig := ms.At(i).Type().(*types.Signature)
				if fn, r := c.x.dynMethod(c.st, recv.v.(*T), ms.At(i).Obj().(*types.Func)); fn != nil {
					return c.callFn(fn, append([]Value{r}, args...))
				}
				return c.finishCall(sig, c.x.ifaceCall(recv.t, name, sig, recv.v.(*T), args, c.st))
			}
		}
		unsup("no method %s", name)
	}
	// walk embedded fields to the declaring type
	cur := recv
	for d := 0; d < 5; d++ {
		bt := cur.t
		ptr := false
		if p, ok := under(bt).(*types.Pointer); ok {
			bt, ptr = p.Elem(), true
		}
		if n, ok := types.Unalias(bt).(*types.Named); ok {
			for i := 0; i < n.NumMethods(); i++ {
				m := n.Method(i)
				if m.Name() != name {
					continue
				}
				fn := c.x.prog.prog.FuncValue(m)
				if fn == nil {
					unsup("method %s", name)
				}
				_, wantPtr := m.Type().(*types.Signature).Recv().Type().(*types.Pointer)
				r := cur.v
				if wantPtr && !ptr {
					if a, ok := c.tryAddr(sel.X); ok && d == 0 {
						r = a
					} else {
						// a ghost copy holds the receiver
						a := freshConst("ghost", sAddr)
						st := c.st.clone()
						st.cells[a] = cur.v
						st.cellType[a] = cur.t
						return c.finishCall(fn.Signature, c.x.specCall(st, fn, append([]Value{a}, args...), nil))
					}
				} else if !wantPtr && ptr {
					r = c.st.load(bt, cur.v.(*T))
				}
				return c.callFn(fn, append([]Value{r}, args...))
			}
		}
		// descend into an embedded struct having the method
		st, ok := under(bt).(*types.Struct)
		if !ok {
			break
		}
		found := false
		for i := 0; i < st.NumFields() && !found; i++ {
			f := st.Field(i)
			if !f.Embedded() {
				continue
			}
			ms := types.NewMethodSet(types.NewPointer(f.Type()))
			if _, isP := f.Type().(*types.Pointer); isP {
				ms = types.NewMethodSet(f.Type())
			}
			for k := 0; k < ms.Len(); k++ {
				if ms.At(k).Obj().Name() == name {
					if ptr {
						if _, isP := under(f.Type()).(*types.Pointer); isP {
							cur = c.step(cur, i)
						} else {
							cur = TV{fldOf(cur.v.(*T), i), types.NewPointer(f.Type())}
						}
					} else {
						cur = c.step(cur, i)
					}
					found = true
					break
				}
			}
		}
		if !found {
			break
		}
	}
	unsup("no method %s on %s", name, recv.t)
	return TV{}
}
