package main

import (
	"fmt"
	"math/big"
	"sort"
	"strconv"
	"strings"
)

// ---------------------------------------------------------------------------
// Terms: hash-consed first order terms, printed as SMT-LIB 2.
// ---------------------------------------------------------------------------

const (
	sInt   = "Int"
	sBool  = "Bool"
	sReal  = "Real"
	sF     = "F"
	sStr   = "Str"
	sAddr  = "Addr"
	sIface = "Iface"
	sFn    = "Fn"
	sSlc   = "Slc"
)

func sArr(k, v string) string { return "(Array " + k + " " + v + ")" }

func arrParts(s string) (string, string) {
	// "(Array K V)"
	in := s[len("(Array ") : len(s)-1]
	d := 0
	for i := 0; i < len(in); i++ {
		switch in[i] {
		case '(':
			d++
		case ')':
			d--
		case ' ':
			if d == 0 {
				return in[:i], in[i+1:]
			}
		}
	}
	panic("bad array sort " + s)
}

type T struct {
	op    string
	args  []*T
	sort  string
	id    int
	bvs   []*T   // bound variables of a quantifier
	pats  [][]*T // patterns of a quantifier
	free  bool   // contains a bound variable (free in it)
	fvars map[*T]bool
	size  int
}

var termTab = map[string]*T{}
var termSeq = 0

// declared symbols: name -> signature
type Sig struct {
	args []string
	res  string
}

var sigs = map[string]Sig{}
var sigOrder []string

// symbols interpreted by the solver or by the prelude
var builtinOps = map[string]bool{}

func init() {
	for _, s := range strings.Fields("and or not => = ite + - * div mod < <= > >= select store forall exists distinct to_real true false " +
		"elem fld born kind ebase eidx fbase fidx null mkI ity iad mkS sbase soff slen scap rk fnan flt fle feq") {
		builtinOps[s] = true
	}
}

func mk(op, srt string, args ...*T) *T {
	var sb strings.Builder
	sb.WriteString(op)
	sb.WriteByte('|')
	sb.WriteString(srt)
	for _, a := range args {
		sb.WriteByte('|')
		sb.WriteString(strconv.Itoa(a.id))
	}
	k := sb.String()
	if t, ok := termTab[k]; ok {
		return t
	}
	termSeq++
	t := &T{op: op, args: args, sort: srt, id: termSeq, size: 1}
	for _, a := range args {
		t.size += a.size
		if len(a.fvars) > 0 {
			if t.fvars == nil {
				t.fvars = map[*T]bool{}
			}
			for v := range a.fvars {
				t.fvars[v] = true
			}
		}
	}
	if t.size > 1<<40 {
		t.size = 1 << 40
	}
	t.free = len(t.fvars) > 0
	termTab[k] = t
	return t
}

func declare(name string, args []string, res string) {
	if old, ok := sigs[name]; ok {
		if old.res != res || len(old.args) != len(args) {
			panic(fmt.Sprintf("symbol %s redeclared: %v -> %s vs %v -> %s", name, old.args, old.res, args, res))
		}
		for i := range args {
			if args[i] != old.args[i] {
				panic(fmt.Sprintf("symbol %s redeclared: %v vs %v", name, old.args, args))
			}
		}
		return
	}
	sigs[name] = Sig{args, res}
	sigOrder = append(sigOrder, name)
}

var symSeq = map[string]int{}

func cleanName(s string) string {
	var sb strings.Builder
	for _, c := range s {
		if c >= 'a' && c <= 'z' || c >= 'A' && c <= 'Z' || c >= '0' && c <= '9' || c == '_' || c == '.' || c == '$' || c == '!' {
			sb.WriteRune(c)
		} else {
			sb.WriteByte('_')
		}
	}
	if sb.Len() == 0 {
		return "v"
	}
	return sb.String()
}

// freshConst makes a new uninterpreted constant.
func freshConst(hint, srt string) *T {
	hint = cleanName(hint)
	symSeq[hint]++
	n := fmt.Sprintf("%s@%d", hint, symSeq[hint])
	declare(n, nil, srt)
	return mk(n, srt)
}

func constSym(name, srt string) *T {
	declare(name, nil, srt)
	return mk(name, srt)
}

// App applies an uninterpreted function.
func App(name, srt string, args ...*T) *T {
	if !builtinOps[name] {
		as := make([]string, len(args))
		for i, a := range args {
			as[i] = a.sort
		}
		declare(name, as, srt)
	}
	return mk(name, srt, args...)
}

var bvSeq = 0

func boundVar(srt string) *T {
	bvSeq++
	t := mk(fmt.Sprintf("?b%d", bvSeq), srt)
	t.free = true
	t.fvars = map[*T]bool{t: true}
	return t
}

var tTrue = mk("true", sBool)
var tFalse = mk("false", sBool)
var tNull = mk("null", sAddr)

func Bool(b bool) *T {
	if b {
		return tTrue
	}
	return tFalse
}

func Int(n int64) *T { return mk("#"+strconv.FormatInt(n, 10), sInt) }
func (t *T) isInt() (int64, bool) {
	if strings.HasPrefix(t.op, "#") {
		n, err := strconv.ParseInt(t.op[1:], 10, 64)
		return n, err == nil
	}
	return 0, false
}

func Real(r *big.Rat) *T { return mk("%"+r.RatString(), sReal) }

func And(ts ...*T) *T {
	var out []*T
	seen := map[*T]bool{}
	var add func(t *T) bool
	add = func(t *T) bool {
		if t == tTrue || seen[t] {
			return true
		}
		if t == tFalse {
			return false
		}
		if t.op == "and" {
			for _, a := range t.args {
				if !add(a) {
					return false
				}
			}
			return true
		}
		seen[t] = true
		out = append(out, t)
		return true
	}
	for _, t := range ts {
		if !add(t) {
			return tFalse
		}
	}
	for _, t := range out {
		if seen[Not(t)] {
			return tFalse
		}
	}
	if len(out) == 0 {
		return tTrue
	}
	if len(out) == 1 {
		return out[0]
	}
	return mk("and", sBool, out...)
}

func Or(ts ...*T) *T {
	var out []*T
	seen := map[*T]bool{}
	for _, t := range ts {
		if t == tTrue {
			return tTrue
		}
		if t == tFalse || seen[t] {
			continue
		}
		if t.op == "or" {
			for _, a := range t.args {
				if !seen[a] {
					seen[a] = true
					out = append(out, a)
				}
			}
			continue
		}
		seen[t] = true
		out = append(out, t)
	}
	for _, t := range out {
		if seen[Not(t)] {
			return tTrue
		}
	}
	if len(out) == 0 {
		return tFalse
	}
	if len(out) == 1 {
		return out[0]
	}
	return mk("or", sBool, out...)
}

func Not(t *T) *T {
	switch t.op {
	case "true":
		return tFalse
	case "false":
		return tTrue
	case "not":
		return t.args[0]
	}
	return mk("not", sBool, t)
}

func Implies(a, b *T) *T {
	if a == tTrue {
		return b
	}
	if a == tFalse || b == tTrue || a == b {
		return tTrue
	}
	if b == tFalse {
		return Not(a)
	}
	return mk("=>", sBool, a, b)
}

func Iff(a, b *T) *T { return Eq(a, b) }

func Eq(a, b *T) *T {
	if a == b {
		return tTrue
	}
	if a.sort != b.sort {
		panic(fmt.Sprintf("Eq sorts: %s:%s vs %s:%s", a, a.sort, b, b.sort))
	}
	x, ok1 := a.isInt()
	y, ok2 := b.isInt()
	if ok1 && ok2 {
		return Bool(x == y)
	}
	if a.sort == sBool {
		if a == tTrue {
			return b
		}
		if b == tTrue {
			return a
		}
		if a == tFalse {
			return Not(b)
		}
		if b == tFalse {
			return Not(a)
		}
	}
	if a.op == "mkS" && b.op == "mkS" || a.op == "mkI" && b.op == "mkI" {
		var cs []*T
		for i := range a.args {
			cs = append(cs, Eq(a.args[i], b.args[i]))
		}
		return And(cs...)
	}
	if strings.HasPrefix(a.op, "str!") && strings.HasPrefix(b.op, "str!") {
		return tFalse // distinct literals
	}
	if a.id > b.id {
		a, b = b, a
	}
	return mk("=", sBool, a, b)
}

func Ite(c, a, b *T) *T {
	if c == tTrue || a == b {
		return a
	}
	if c == tFalse {
		return b
	}
	if a.sort == sBool {
		if a == tTrue && b == tFalse {
			return c
		}
		if a == tFalse && b == tTrue {
			return Not(c)
		}
		if a == tTrue {
			return Or(c, b)
		}
		if a == tFalse {
			return And(Not(c), b)
		}
		if b == tTrue {
			return Or(Not(c), a)
		}
		if b == tFalse {
			return And(c, a)
		}
	}
	return mk("ite", a.sort, c, a, b)
}

func Add(a, b *T) *T {
	x, ok1 := a.isInt()
	y, ok2 := b.isInt()
	if ok1 && ok2 {
		return Int(x + y)
	}
	if ok1 && x == 0 {
		return b
	}
	if ok2 && y == 0 {
		return a
	}
	if ok1 {
		a, b = b, a
		x, y, ok1, ok2 = y, x, ok2, ok1
	}
	// (p + c1) + c2
	if ok2 && a.op == "+" {
		if z, ok := a.args[1].isInt(); ok {
			return Add(a.args[0], Int(z+y))
		}
	}
	if a.op == "-" && a.args[1] == b { // (p - b) + b
		return a.args[0]
	}
	if b.op == "-" && b.args[1] == a { // a + (p - a)
		return b.args[0]
	}
	// (p + c) + q  ->  (p + q) + c
	if a.op == "+" {
		if z, ok := a.args[1].isInt(); ok {
			return Add(Add(a.args[0], b), Int(z))
		}
	}
	if b.op == "+" {
		if z, ok := b.args[1].isInt(); ok {
			return Add(Add(a, b.args[0]), Int(z))
		}
	}
	return mk("+", sInt, a, b)
}

func Sub(a, b *T) *T {
	y, ok2 := b.isInt()
	if ok2 {
		return Add(a, Int(-y))
	}
	if a == b {
		return Int(0)
	}
	if a.op == "+" {
		if a.args[1] == b {
			return a.args[0]
		}
		if a.args[0] == b {
			return a.args[1]
		}
		if z, ok := a.args[1].isInt(); ok {
			return Add(Sub(a.args[0], b), Int(z))
		}
	}
	if b.op == "+" {
		if z, ok := b.args[1].isInt(); ok {
			return Add(Sub(a, b.args[0]), Int(-z))
		}
	}
	return mk("-", sInt, a, b)
}

func Mul(a, b *T) *T {
	x, ok1 := a.isInt()
	y, ok2 := b.isInt()
	if ok1 && ok2 {
		return Int(x * y)
	}
	if ok1 {
		a, b = b, a
		y, ok2 = x, ok1
	}
	if ok2 && y == 1 {
		return a
	}
	if ok2 && y == 0 {
		return Int(0)
	}
	return mk("*", sInt, a, b)
}

func Lt(a, b *T) *T {
	x, ok1 := a.isInt()
	y, ok2 := b.isInt()
	if ok1 && ok2 {
		return Bool(x < y)
	}
	if a == b {
		return tFalse
	}
	return mk("<", sBool, a, b)
}
func Le(a, b *T) *T {
	x, ok1 := a.isInt()
	y, ok2 := b.isInt()
	if ok1 && ok2 {
		return Bool(x <= y)
	}
	if a == b {
		return tTrue
	}
	return mk("<=", sBool, a, b)
}

func Select(m, i *T) *T {
	_, v := arrParts(m.sort)
	for m.op == "store" {
		if m.args[1] == i {
			return m.args[2]
		}
		if definitelyDistinct(m.args[1], i) {
			m = m.args[0]
			continue
		}
		break
	}
	return mk("select", v, m, i)
}

func Store(m, i, v *T) *T {
	if m.op == "store" && m.args[1] == i {
		m = m.args[0]
	}
	if v.op == "select" && v.args[0] == m && v.args[1] == i {
		return m
	}
	return mk("store", m.sort, m, i, v)
}

func definitelyDistinct(a, b *T) bool {
	x, ok1 := a.isInt()
	y, ok2 := b.isInt()
	if ok1 && ok2 {
		return x != y
	}
	if a.sort == sInt {
		// same base plus different constants
		ba, ca := splitConst(a)
		bb, cb := splitConst(b)
		return ba == bb && ca != cb
	}
	if a.op == "elem" && b.op == "elem" && a.args[0] == b.args[0] {
		return definitelyDistinct(a.args[1], b.args[1])
	}
	return false
}

func splitConst(a *T) (*T, int64) {
	if a.op == "+" {
		if z, ok := a.args[1].isInt(); ok {
			return a.args[0], z
		}
	}
	if z, ok := a.isInt(); ok {
		return nil, z
	}
	return a, 0
}

// Forall builds a universally quantified formula; pats may be nil.
func Quant(q string, bvs []*T, body *T, pats [][]*T) *T {
	used := false
	for _, v := range bvs {
		if body.fvars[v] {
			used = true
		}
	}
	if !used || body == tTrue || body == tFalse {
		return body
	}
	var sb strings.Builder
	sb.WriteString(q)
	for _, v := range bvs {
		fmt.Fprintf(&sb, "|%d", v.id)
	}
	fmt.Fprintf(&sb, "||%d||", body.id)
	for _, p := range pats {
		for _, t := range p {
			fmt.Fprintf(&sb, "|%d", t.id)
		}
		sb.WriteByte(';')
	}
	k := sb.String()
	if t, ok := termTab[k]; ok {
		return t
	}
	termSeq++
	t := &T{op: q, args: []*T{body}, sort: sBool, id: termSeq, bvs: bvs, pats: pats, size: body.size + 2}
	for v := range body.fvars {
		own := false
		for _, b := range bvs {
			if b == v {
				own = true
			}
		}
		if !own {
			if t.fvars == nil {
				t.fvars = map[*T]bool{}
			}
			t.fvars[v] = true
		}
	}
	t.free = len(t.fvars) > 0
	termTab[k] = t
	return t
}

func (t *T) String() string {
	var sb strings.Builder
	t.print(&sb, nil)
	return sb.String()
}

func (t *T) print(sb *strings.Builder, named map[*T]string) {
	if n, ok := named[t]; ok {
		sb.WriteString(n)
		return
	}
	t.printTop(sb, named)
}

func symb(op string) string {
	return op
}

func (t *T) printTop(sb *strings.Builder, named map[*T]string) {
	if strings.HasPrefix(t.op, "#") {
		n := t.op[1:]
		if n[0] == '-' {
			sb.WriteString("(- " + n[1:] + ")")
		} else {
			sb.WriteString(n)
		}
		return
	}
	if strings.HasPrefix(t.op, "%") {
		r, _ := new(big.Rat).SetString(t.op[1:])
		neg := r.Sign() < 0
		if neg {
			r = new(big.Rat).Neg(r)
			sb.WriteString("(- ")
		}
		if r.IsInt() {
			sb.WriteString(r.Num().String() + ".0")
		} else {
			sb.WriteString("(/ " + r.Num().String() + ".0 " + r.Denom().String() + ".0)")
		}
		if neg {
			sb.WriteString(")")
		}
		return
	}
	if t.op == "forall" || t.op == "exists" {
		// bound variables are named by the nesting below them: equal formulas
		// print the same wherever they stand, and the solver shares them
		h := qheight(t)
		outer := map[*T]string{}
		for i, v := range t.bvs {
			outer[v] = bvNames[v]
			bvNames[v] = fmt.Sprintf("?q%d.%d", h, i)
		}
		defer func() {
			for v, n := range outer {
				if n == "" {
					delete(bvNames, v)
				} else {
					bvNames[v] = n
				}
			}
		}()
		sb.WriteString("(" + t.op + " (")
		for _, v := range t.bvs {
			sb.WriteString("(" + bvNames[v] + " " + v.sort + ")")
		}
		sb.WriteString(") ")
		if len(t.pats) > 0 {
			sb.WriteString("(! ")
		}
		t.args[0].print(sb, named)
		if len(t.pats) > 0 {
			for _, p := range t.pats {
				sb.WriteString(" :pattern (")
				for i, x := range p {
					if i > 0 {
						sb.WriteByte(' ')
					}
					x.print(sb, named)
				}
				sb.WriteString(")")
			}
			sb.WriteString(")")
		}
		sb.WriteString(")")
		return
	}
	if strings.HasPrefix(t.op, "asconst:") {
		sb.WriteString("((as const " + t.sort + ") ")
		t.args[0].print(sb, named)
		sb.WriteString(")")
		return
	}
	if len(t.args) == 0 {
		if n := bvNames[t]; n != "" {
			sb.WriteString(n)
			return
		}
		sb.WriteString(symb(t.op))
		return
	}
	sb.WriteString("(" + symb(t.op))
	for _, a := range t.args {
		sb.WriteByte(' ')
		a.print(sb, named)
	}
	sb.WriteByte(')')
}

var bvNames = map[*T]string{}
var qheights = map[*T]int{}

// qheight is the number of quantifiers nested in t, at most.
func qheight(t *T) int {
	if h, ok := qheights[t]; ok {
		return h
	}
	h := 0
	for _, a := range t.args {
		h = max(h, qheight(a))
	}
	for _, p := range t.pats {
		for _, a := range p {
			h = max(h, qheight(a))
		}
	}
	if t.op == "forall" || t.op == "exists" {
		h++
	}
	qheights[t] = h
	return h
}

// script renders assertions with shared subterms named.
func renderAssertions(asserts []*T) (decls, defs string, lines []string) {
	refs := map[*T]int{}
	syms := map[string]bool{}
	var order []*T
	var walk func(t *T)
	walk = func(t *T) {
		refs[t]++
		if refs[t] > 1 {
			return
		}
		if _, ok := sigs[t.op]; ok {
			syms[t.op] = true
		}
		for _, a := range t.args {
			walk(a)
		}
		for _, p := range t.pats {
			for _, a := range p {
				walk(a)
			}
		}
		order = append(order, t)
	}
	for _, a := range asserts {
		walk(a)
	}
	named := map[*T]string{}
	var sb strings.Builder
	for _, t := range order {
		if refs[t] > 1 && len(t.args) > 0 && !t.free && t.size > 6 && t.op != "forall" && t.op != "exists" {
			var b strings.Builder
			t.printTop(&b, named)
			n := fmt.Sprintf("d!%d", t.id)
			fmt.Fprintf(&sb, "(define-fun %s () %s %s)\n", n, t.sort, b.String())
			named[t] = n
		}
	}
	for _, a := range asserts {
		var b strings.Builder
		a.print(&b, named)
		lines = append(lines, b.String())
	}
	var names []string
	for n := range syms {
		names = append(names, n)
	}
	sort.Strings(names)
	var db strings.Builder
	for _, n := range names {
		s := sigs[n]
		fmt.Fprintf(&db, "(declare-fun %s (%s) %s)\n", symb(n), strings.Join(s.args, " "), s.res)
	}
	return db.String(), sb.String(), lines
}
