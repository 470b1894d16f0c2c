package main

import (
	"fmt"
	"go/constant"
	"go/types"
	"math"
	"math/big"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// ---------------------------------------------------------------------------
// Symbolic values.  A leaf Go value (number, string, pointer, slice, map,
// interface, function) is one term; structs, arrays and tuples are aggregates.
// ---------------------------------------------------------------------------

type Value interface{}

type Agg struct { // struct, array or tuple
	es []Value
}

type Closure struct {
	fn    *ssa.Function
	binds []Value
}

// function values known to be a particular function
var knownFn = map[*T]*Closure{}

// addresses that denote a leaf field of a struct
type leafField struct {
	st  types.Type
	idx int
}

var leafPtr = map[*T]leafField{}

type unsupported struct{ msg string }

func unsup(f string, a ...interface{}) { panic(unsupported{fmt.Sprintf(f, a...)}) }

func under(t types.Type) types.Type { return types.Unalias(t).Underlying() }

func leafSort(t types.Type) string {
	switch u := under(t).(type) {
	case *types.Basic:
		switch {
		case u.Info()&types.IsInteger != 0:
			return sInt
		case u.Info()&types.IsBoolean != 0:
			return sBool
		case u.Info()&types.IsFloat != 0:
			return sF
		case u.Info()&types.IsString != 0:
			return sStr
		case u.Kind() == types.UnsafePointer:
			return sAddr
		case u.Kind() == types.UntypedNil:
			return sAddr
		}
		unsup("basic type %s", t)
	case *types.Pointer, *types.Map, *types.Chan:
		return sAddr
	case *types.Slice:
		return sSlc
	case *types.Interface:
		return sIface
	case *types.Signature:
		return sFn
	case *types.Struct, *types.Array, *types.Tuple:
		return ""
	case *types.TypeParam:
		unsup("type parameter %s", t)
	}
	unsup("type %s", t)
	return ""
}

// memory key of a leaf cell that is not a struct field
func elKey(t types.Type) string {
	switch u := under(t).(type) {
	case *types.Basic:
		switch leafSort(t) {
		case sInt:
			return "el:" + u.Name()
		}
		return "el:" + u.Name()
	case *types.Pointer:
		return "el:*" + shortType(u.Elem())
	case *types.Interface:
		return "el:iface"
	case *types.Signature:
		return "el:func"
	case *types.Slice:
		return "el:[]" + shortType(u.Elem())
	case *types.Map:
		return "el:map"
	case *types.Chan:
		return "el:chan"
	}
	unsup("elKey %s", t)
	return ""
}

func shortType(t types.Type) string {
	return types.TypeString(types.Unalias(t), func(p *types.Package) string { return p.Name() })
}

func specialField(ft types.Type) bool {
	n, ok := types.Unalias(ft).(*types.Named)
	if !ok {
		return false
	}
	switch n.Underlying().(type) {
	case *types.Struct, *types.Interface, *types.Array:
		return false
	}
	return n.NumMethods() > 0
}

func fieldKey(st types.Type, i int) string {
	s := under(st).(*types.Struct)
	return shortType(st) + "." + s.Field(i).Name()
}

// memSort of key: recorded on first use
var memSorts = map[string]string{}

func sbase(t *T) *T {
	if t.op == "mkS" {
		return t.args[0]
	}
	return mk("sbase", sAddr, t)
}
func soff(t *T) *T {
	if t.op == "mkS" {
		return t.args[1]
	}
	return mk("soff", sInt, t)
}
func slen(t *T) *T {
	if t.op == "mkS" {
		return t.args[2]
	}
	return mk("slen", sInt, t)
}
func scap(t *T) *T {
	if t.op == "mkS" {
		return t.args[3]
	}
	return mk("scap", sInt, t)
}
func mkSlc(b, o, l, c *T) *T {
	if b.op == "sbase" && o.op == "soff" && l.op == "slen" && c.op == "scap" &&
		b.args[0] == o.args[0] && b.args[0] == l.args[0] && b.args[0] == c.args[0] {
		return b.args[0]
	}
	return mk("mkS", sSlc, b, o, l, c)
}

var nilSlc = mk("mkS", sSlc, tNull, Int(0), Int(0), Int(0))

func mkIface(ty, ad *T) *T { return mk("mkI", sIface, ty, ad) }
func ityOf(t *T) *T {
	if t.op == "mkI" {
		return t.args[0]
	}
	return mk("ity", sInt, t)
}
func iadOf(t *T) *T {
	if t.op == "mkI" {
		return t.args[1]
	}
	return mk("iad", sAddr, t)
}

var nilIface = mkIface(Int(0), tNull)
var nilFn = constSym("fn!nil", sFn)

func elemOf(b, i *T) *T { return mk("elem", sAddr, b, i) }
func fldOf(b *T, i int) *T {
	return mk("fld", sAddr, b, Int(int64(i)))
}
func bornOf(a *T) *T { return mk("born", sInt, a) }

var typeIDs = map[string]int64{}
var typeByID = map[int64]types.Type{}

func typeID(t types.Type) *T {
	k := types.TypeString(types.Unalias(t), nil)
	if id, ok := typeIDs[k]; ok {
		return Int(id)
	}
	id := int64(len(typeIDs) + 1)
	typeIDs[k] = id
	typeByID[id] = t
	return Int(id)
}

func fconst(f float64) *T {
	name := fmt.Sprintf("f!%x", math.Float64bits(f))
	return constSym(name, sF)
}

func fconstFacts(name string) []string {
	var bits uint64
	fmt.Sscanf(name, "f!%x", &bits)
	f := math.Float64frombits(bits)
	if math.IsNaN(f) {
		return []string{"(fnan " + name + ")"}
	}
	if math.IsInf(f, 1) {
		return []string{"(not (fnan " + name + "))", "(= (rk " + name + ") rkinf)"}
	}
	if math.IsInf(f, -1) {
		return []string{"(not (fnan " + name + "))", "(= (rk " + name + ") (- rkinf))"}
	}
	r := new(big.Rat)
	r.SetFloat64(f)
	return []string{"(not (fnan " + name + "))", "(= (rk " + name + ") " + Real(r).String() + ")"}
}

func strConst(s string) *T {
	name := "str!" + fmt.Sprintf("%x", s)
	return constSym(name, sStr)
}

func fnConst(f *ssa.Function) *T {
	t := constSym("fn!"+cleanName(f.String()), sFn)
	if _, ok := knownFn[t]; !ok {
		knownFn[t] = &Closure{fn: f}
	}
	return t
}

func zeroVal(t types.Type) Value {
	switch u := under(t).(type) {
	case *types.Struct:
		a := &Agg{}
		for i := 0; i < u.NumFields(); i++ {
			a.es = append(a.es, zeroVal(u.Field(i).Type()))
		}
		return a
	case *types.Array:
		if u.Len() > 64 {
			unsup("array of %d", u.Len())
		}
		a := &Agg{}
		for i := int64(0); i < u.Len(); i++ {
			a.es = append(a.es, zeroVal(u.Elem()))
		}
		return a
	case *types.Tuple:
		a := &Agg{}
		for i := 0; i < u.Len(); i++ {
			a.es = append(a.es, zeroVal(u.At(i).Type()))
		}
		return a
	}
	switch leafSort(t) {
	case sInt:
		return Int(0)
	case sBool:
		return tFalse
	case sF:
		return fconst(0)
	case sStr:
		return strConst("")
	case sAddr:
		return tNull
	case sSlc:
		return nilSlc
	case sIface:
		return nilIface
	case sFn:
		return nilFn
	}
	panic("zeroVal")
}

func constVal(c *ssa.Const) Value {
	if c.Value == nil {
		return zeroVal(c.Type())
	}
	switch leafSort(c.Type()) {
	case sInt:
		if c.Value.Kind() == constant.Float {
			f, _ := constant.Float64Val(c.Value)
			return Int(int64(f))
		}
		n, ok := constant.Int64Val(constant.ToInt(c.Value))
		if !ok {
			unsup("integer constant %s", c)
		}
		return Int(n)
	case sBool:
		return Bool(constant.BoolVal(c.Value))
	case sF:
		f, _ := constant.Float64Val(c.Value)
		return fconst(f)
	case sStr:
		return strConst(constant.StringVal(c.Value))
	case sIface:
		unsup("interface constant")
	}
	unsup("constant %s", c)
	return nil
}

// freshVal makes an arbitrary value of a Go type; facts about its well-
// formedness are added to st.
func (st *State) freshVal(t types.Type, hint string) Value {
	switch u := under(t).(type) {
	case *types.Struct:
		a := &Agg{}
		for i := 0; i < u.NumFields(); i++ {
			a.es = append(a.es, st.freshVal(u.Field(i).Type(), hint+"."+u.Field(i).Name()))
		}
		return a
	case *types.Array:
		if u.Len() > 64 {
			unsup("array of %d", u.Len())
		}
		a := &Agg{}
		for i := int64(0); i < u.Len(); i++ {
			a.es = append(a.es, st.freshVal(u.Elem(), fmt.Sprintf("%s.%d", hint, i)))
		}
		return a
	case *types.Tuple:
		a := &Agg{}
		for i := 0; i < u.Len(); i++ {
			a.es = append(a.es, st.freshVal(u.At(i).Type(), fmt.Sprintf("%s.%d", hint, i)))
		}
		return a
	}
	c := freshConst(hint, leafSort(t))
	if c.sort == sSlc {
		// destructure at once so that bases are plain constants
		c = mkSlc(freshConst(hint+".base", sAddr), freshConst(hint+".off", sInt), freshConst(hint+".len", sInt), freshConst(hint+".cap", sInt))
	}
	st.wf(t, c)
	return c
}

// wfTerm is the well-formedness of a leaf value at time `now`.
func wfTerm(t types.Type, v *T, now *T) *T {
	switch v.sort {
	case sSlc:
		return And(Le(Int(0), soff(v)), Le(Int(0), slen(v)), Le(slen(v), scap(v)), Lt(bornOf(sbase(v)), now),
			Implies(Eq(sbase(v), tNull), Eq(scap(v), Int(0))))
	case sAddr:
		return Lt(bornOf(v), now)
	case sIface:
		return Lt(bornOf(iadOf(v)), now)
	case sInt:
		if b, ok := under(t).(*types.Basic); ok && b.Info()&types.IsUnsigned != 0 {
			return Le(Int(0), v)
		}
	}
	return tTrue
}

func (st *State) wf(t types.Type, v *T) { st.assume(wfTerm(t, v, st.now)) }

// ---------------------------------------------------------------------------
// Memory
// ---------------------------------------------------------------------------

func memKeySort(key, srt string) {
	if old, ok := memSorts[key]; ok && old != srt {
		unsup("memory %s used at sorts %s and %s", key, old, srt)
	}
	memSorts[key] = srt
}

func (st *State) memOf(key, srt string) *T {
	memKeySort(key, srt)
	if m, ok := st.mem[key]; ok {
		return m
	}
	var m *T
	if st.anyMem != nil {
		m = boundVar(sArr(sAddr, srt))
		*st.anyMem = append(*st.anyMem, m)
	} else {
		m = constSym("M0!"+cleanName(key), sArr(sAddr, srt))
	}
	st.mem[key] = m
	return m
}

// leafLoc gives the memory key and index address of leaf field i of struct st at address a.
func leafLoc(stt types.Type, i int, a *T) (string, *T) {
	ft := under(stt).(*types.Struct).Field(i).Type()
	if specialField(ft) {
		return elKey(ft), fldOf(a, i)
	}
	return fieldKey(stt, i), a
}

func isLeaf(t types.Type) bool { return leafSort(t) != "" }

// rootOf strips fld/elem wrappers.
func rootOf(a *T) *T {
	for a.op == "fld" || a.op == "elem" {
		a = a.args[0]
	}
	return a
}

func (st *State) load(t types.Type, a *T) Value {
	if _, ok := st.cells[rootOf(a)]; ok {
		return st.cellRead(a)
	}
	if lf, ok := leafPtr[a]; ok && isLeaf(t) {
		key, loc := leafLoc(lf.st, lf.idx, a.args[0])
		return st.loadLeaf(t, key, loc)
	}
	return st.loadHeap(t, a)
}

func (st *State) loadLeaf(t types.Type, key string, loc *T) *T {
	m := st.memOf(key, leafSort(t))
	v := Select(m, loc)
	if !v.free {
		st.assume(wfTerm(t, v, st.now))
		if strings.HasPrefix(m.op, "M0!") && (v.sort == sSlc || v.sort == sAddr) && strings.HasPrefix(rootOf(loc).op, "in.") {
			// what the caller's memory held on entry was there on entry
			st.assume(wfTerm(t, v, Int(0)))
		}
	}
	return v
}

func (st *State) loadHeap(t types.Type, a *T) Value {
	switch u := under(t).(type) {
	case *types.Struct:
		agg := &Agg{}
		for i := 0; i < u.NumFields(); i++ {
			agg.es = append(agg.es, st.loadField(t, i, a))
		}
		return agg
	case *types.Array:
		if u.Len() > 64 {
			unsup("array of %d", u.Len())
		}
		agg := &Agg{}
		for i := int64(0); i < u.Len(); i++ {
			agg.es = append(agg.es, st.loadHeap(u.Elem(), elemOf(a, Int(i))))
		}
		return agg
	}
	return st.loadLeaf(t, elKey(t), a)
}

func (st *State) loadField(stt types.Type, i int, a *T) Value {
	ft := under(stt).(*types.Struct).Field(i).Type()
	if isLeaf(ft) {
		key, loc := leafLoc(stt, i, a)
		return st.loadLeaf(ft, key, loc)
	}
	return st.loadHeap(ft, fldOf(a, i))
}

// eachLeaf enumerates the leaf locations of a value of type t at address a.
func eachLeaf(t types.Type, a *T, v Value, f func(ft types.Type, key string, loc *T, v Value)) {
	var at func(i int) Value = func(i int) Value {
		if v == nil {
			return nil
		}
		return v.(*Agg).es[i]
	}
	switch u := under(t).(type) {
	case *types.Struct:
		for i := 0; i < u.NumFields(); i++ {
			ft := u.Field(i).Type()
			if isLeaf(ft) {
				key, loc := leafLoc(t, i, a)
				f(ft, key, loc, at(i))
			} else {
				eachLeaf(ft, fldOf(a, i), at(i), f)
			}
		}
		return
	case *types.Array:
		if u.Len() > 64 {
			unsup("array of %d", u.Len())
		}
		for i := int64(0); i < u.Len(); i++ {
			eachLeaf(u.Elem(), elemOf(a, Int(i)), at(int(i)), f)
		}
		return
	}
	f(t, elKey(t), a, v)
}

// store writes v at address a, generating the frame obligation through x.
func (x *Exec) store(st *State, t types.Type, a *T, v Value) {
	if _, ok := st.cells[rootOf(a)]; ok {
		st.cellWrite(a, v)
		return
	}
	if lf, ok := leafPtr[a]; ok && isLeaf(t) {
		key, loc := leafLoc(lf.st, lf.idx, a.args[0])
		x.writeLeaf(st, t, key, loc, v)
		return
	}
	eachLeaf(t, a, v, func(ft types.Type, key string, loc *T, v Value) { x.writeLeaf(st, ft, key, loc, v) })
}

func (x *Exec) writeLeaf(st *State, t types.Type, key string, loc *T, v Value) {
	st.escape(v)
	x.frameCheck(st, key, loc, tTrue)
	m := st.memOf(key, leafSort(t))
	st.setMem(key, Store(m, loc, v.(*T)))
}

func (st *State) setMem(key string, m *T) { st.mem[key] = m }

// ---------------------------------------------------------------------------
// Local cells
// ---------------------------------------------------------------------------

func pathOf(a *T) (root *T, path []*T) {
	for a.op == "fld" || a.op == "elem" {
		path = append([]*T{a.args[1]}, path...)
		a = a.args[0]
	}
	return a, path
}

func (st *State) cellRead(a *T) Value {
	r, path := pathOf(a)
	return aggRead(st.cells[r], path)
}

func aggRead(v Value, path []*T) Value {
	for pi, p := range path {
		ag, ok := v.(*Agg)
		if !ok {
			unsup("path into leaf")
		}
		if n, ok := p.isInt(); ok {
			if n < 0 || int(n) >= len(ag.es) {
				unsup("constant index out of range")
			}
			v = ag.es[n]
			continue
		}
		// symbolic index
		var out Value
		for i := len(ag.es) - 1; i >= 0; i-- {
			e := aggRead(ag.es[i], path[pi+1:])
			if out == nil {
				out = e
			} else {
				out = iteVal(Eq(p, Int(int64(i))), e, out)
			}
		}
		return out
	}
	return v
}

func iteVal(c *T, a, b Value) Value {
	if c == tTrue {
		return a
	}
	if c == tFalse {
		return b
	}
	switch x := a.(type) {
	case *T:
		return Ite(c, x, b.(*T))
	case *Agg:
		o := &Agg{}
		for i := range x.es {
			o.es = append(o.es, iteVal(c, x.es[i], b.(*Agg).es[i]))
		}
		return o
	}
	panic("iteVal")
}

func aggWrite(v Value, path []*T, nv Value) Value {
	if len(path) == 0 {
		return nv
	}
	ag := v.(*Agg)
	o := &Agg{es: append([]Value{}, ag.es...)}
	if n, ok := path[0].isInt(); ok {
		if n < 0 || int(n) >= len(ag.es) {
			unsup("constant index out of range")
		}
		o.es[n] = aggWrite(ag.es[n], path[1:], nv)
		return o
	}
	for i := range o.es {
		o.es[i] = iteVal(Eq(path[0], Int(int64(i))), aggWrite(ag.es[i], path[1:], nv), ag.es[i])
	}
	return o
}

func (st *State) cellWrite(a *T, nv Value) {
	r, path := pathOf(a)
	st.cells[r] = aggWrite(st.cells[r], path, nv)
}

// escape makes every local cell reachable from v live in the heap.
func (st *State) escape(v Value) {
	switch x := v.(type) {
	case *Agg:
		for _, e := range x.es {
			st.escape(e)
		}
	case *T:
		switch x.sort {
		case sAddr:
			st.escapeAddr(x)
		case sSlc:
			st.escapeAddr(sbase(x))
		case sIface:
			st.escapeAddr(iadOf(x))
		case sFn:
			if c, ok := knownFn[x]; ok {
				for _, b := range c.binds {
					st.escape(b)
				}
			}
		}
	}
}

func (st *State) escapeAddr(a *T) {
	if a.op == "ite" {
		st.escapeAddr(a.args[1])
		st.escapeAddr(a.args[2])
		return
	}
	if _, ok := leafPtr[a]; ok {
		if _, local := st.cells[rootOf(a)]; !local {
			unsup("pointer to a leaf field escapes: %s", a)
		}
	}
	r := rootOf(a)
	if v, ok := st.cells[r]; ok {
		t := st.cellType[r]
		delete(st.cells, r)
		st.escaped[r] = true
		st.escape(v)
		eachLeaf(t, r, v, func(ft types.Type, key string, loc *T, v Value) {
			st.assume(Eq(Select(st.memOf(key, leafSort(ft)), loc), v.(*T)))
		})
		if _, ok := leafPtr[a]; ok {
			unsup("pointer to a leaf field escapes: %s", a)
		}
	}
}

// sameVal: structural equality of symbolic values
func sameVal(a, b Value) bool {
	if a == nil || b == nil {
		return a == b
	}
	switch x := a.(type) {
	case *T:
		y, ok := b.(*T)
		return ok && x == y
	case *Agg:
		y, ok := b.(*Agg)
		if !ok || len(x.es) != len(y.es) {
			return false
		}
		if x == y {
			return true
		}
		for i := range x.es {
			if !sameVal(x.es[i], y.es[i]) {
				return false
			}
		}
		return true
	case *mapIter:
		y, ok := b.(*mapIter)
		return ok && x == y
	}
	return a == b
}

// eqVal: equality term of two values of the same shape
func eqVal(a, b Value) *T {
	switch x := a.(type) {
	case *T:
		return eqLeaf(x, b.(*T))
	case *Agg:
		var cs []*T
		for i := range x.es {
			cs = append(cs, eqVal(x.es[i], b.(*Agg).es[i]))
		}
		return And(cs...)
	}
	panic("eqVal")
}

func eqLeaf(a, b *T) *T {
	if a.sort == sSlc {
		if a == b {
			return tTrue
		}
		return And(Eq(sbase(a), sbase(b)), Eq(soff(a), soff(b)), Eq(slen(a), slen(b)), Eq(scap(a), scap(b)))
	}
	if a.sort == sIface {
		if a == b {
			return tTrue
		}
		return And(Eq(ityOf(a), ityOf(b)), Eq(iadOf(a), iadOf(b)))
	}
	return Eq(a, b)
}

// goEq: Go's == on values of type t
func goEq(t types.Type, a, b Value) *T {
	switch u := under(t).(type) {
	case *types.Struct:
		var cs []*T
		for i := 0; i < u.NumFields(); i++ {
			cs = append(cs, goEq(u.Field(i).Type(), a.(*Agg).es[i], b.(*Agg).es[i]))
		}
		return And(cs...)
	case *types.Array:
		var cs []*T
		for i := range a.(*Agg).es {
			cs = append(cs, goEq(u.Elem(), a.(*Agg).es[i], b.(*Agg).es[i]))
		}
		return And(cs...)
	}
	x, y := a.(*T), b.(*T)
	switch x.sort {
	case sF:
		return mk("feq", sBool, x, y)
	case sSlc: // only comparison with nil is legal Go
		return Eq(sbase(x), sbase(y))
	case sIface:
		if x == nilIface {
			return Eq(ityOf(y), Int(0))
		}
		if y == nilIface {
			return Eq(ityOf(x), Int(0))
		}
		return eqLeaf(x, y)
	}
	return Eq(x, y)
}

func isPkg(p *types.Package, suffix string) bool {
	return p != nil && strings.HasSuffix(p.Path(), suffix)
}
