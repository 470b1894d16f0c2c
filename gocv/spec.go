package main

import (
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"go/types"
	"os"
	"path/filepath"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type TV struct {
	v Value
	t types.Type // nil for purely logical values
}

type Clause struct {
	kind  string // requires ensures inv modifies
	props []string
	label string
	src   string
	e     ast.Expr
	vars  []Param // inv binders
	where string
}

type Param struct {
	name string
	typ  string
}

type FuncSpec struct {
	name       string
	pkg        string
	params     []string
	results    []string
	requires   []*Clause
	ensures    []*Clause
	invs       []*Clause
	modifies   []*Clause
	trusted    bool // body not verified
	pure       bool // result is a function of the arguments
	opaque     bool // a dependency whose body is not looked into
	inline     bool // callers use the body, not the contract
	safe       bool
	mayPanic   bool
	ignoreSync bool
	forkAppend bool // an append that may or may not grow its array is examined in both ways
	sendGhost  string
	where      string
	props      map[string]bool
}

func (s *FuncSpec) hasContract() bool {
	return s != nil && !s.inline && (len(s.ensures)+len(s.requires)+len(s.modifies) > 0 || s.trusted || s.pure)
}

type Logic struct {
	name   string
	params []Param
	res    string
	pkg    string
	reads  []string
}

type Pred struct {
	name    string
	params  []Param
	body    ast.Expr
	pkg     string
	where   string
	named   bool // kept as an atom
	formals []map[string]*T
}

type Axiom struct {
	name string
	e    ast.Expr
	pkg  string
	vars []Param
	lem  bool
	hyps []ast.Expr
	src  string
}

type Property struct {
	id      string
	targets []string
}

type Specs struct {
	prog   *Program
	funcs  map[string]*FuncSpec
	order  []string
	logics map[string]*Logic
	preds  map[string]*Pred
	axioms []*Axiom
	props  map[string]*Property
	files  []string
}

func (s *Specs) forFunc(fn *ssa.Function) *FuncSpec {
	if fn == nil {
		return nil
	}
	sp := s.funcs[specName(fn)]
	if sp == nil {
		return nil
	}
	// arity must agree, otherwise the contract does not describe this function
	if len(sp.params) != len(fn.Params)+len(fn.FreeVars) && len(sp.params) != len(fn.Params) {
		if len(sp.params) > 0 || len(fn.Params) > 0 {
			return nil
		}
	}
	if len(sp.results) != fn.Signature.Results().Len() {
		if len(sp.results) > 0 {
			return nil
		}
	}
	return sp
}

func parseSpecs(prog *Program, dir string) (*Specs, error) {
	S := &Specs{prog: prog, funcs: map[string]*FuncSpec{}, logics: map[string]*Logic{}, preds: map[string]*Pred{}, props: map[string]*Property{}}
	files, _ := filepath.Glob(filepath.Join(dir, "*.spec"))
	sort.Strings(files)
	for _, f := range files {
		S.files = append(S.files, f)
		if err := S.parseFile(f); err != nil {
			return nil, err
		}
	}
	return S, nil
}

var clauseKw = map[string]bool{"package": true, "func": true, "logic": true, "axiom": true, "lemma": true, "pred": true, "named": true, "property": true,
	"requires": true, "ensures": true, "inv": true, "modifies": true, "safe": true, "trusted": true, "pure": true, "inline": true, "opaque": true,
	"maypanic": true, "ignoresync": true, "sends": true, "forkappend": true}

func (S *Specs) parseFile(path string) error {
	data, err := os.ReadFile(path)
	if err != nil {
		return err
	}
	type stmt struct {
		kw, text, where string
	}
	var stmts []stmt
	for i, ln := range strings.Split(string(data), "\n") {
		if k := strings.Index(ln, "#"); k >= 0 {
			ln = ln[:k]
		}
		ln = strings.TrimSpace(ln)
		if ln == "" {
			continue
		}
		w := ln
		if k := strings.IndexAny(ln, " \t"); k >= 0 {
			w = ln[:k]
		}
		if clauseKw[w] {
			stmts = append(stmts, stmt{w, strings.TrimSpace(ln[len(w):]), fmt.Sprintf("%s:%d", filepath.Base(path), i+1)})
		} else if len(stmts) > 0 {
			stmts[len(stmts)-1].text += " " + ln
		} else {
			return fmt.Errorf("%s:%d: stray text", path, i+1)
		}
	}
	pkg := ""
	var cur *FuncSpec
	for _, s := range stmts {
		fail := func(f string, a ...interface{}) error {
			return fmt.Errorf("%s: %s", s.where, fmt.Sprintf(f, a...))
		}
		switch s.kw {
		case "package":
			pkg = s.text
		case "property":
			fs := strings.Fields(strings.ReplaceAll(s.text, ":", " "))
			p := S.props[fs[0]]
			if p == nil {
				p = &Property{id: fs[0]}
				S.props[fs[0]] = p
			}
			p.targets = append(p.targets, fs[1:]...)
		case "func":
			name, rest := s.text, ""
			if k := strings.Index(s.text, "("); k >= 0 {
				name, rest = strings.TrimSpace(s.text[:k]), s.text[k:]
			}
			if !strings.Contains(name, ".") || S.prog.pkgs[strings.SplitN(name, ".", 2)[0]] == nil {
				name = pkg + "." + name
			}
			cur = &FuncSpec{name: name, pkg: pkg, where: s.where, props: map[string]bool{}}
			if rest != "" {
				ps, rs, err := splitBinders(rest)
				if err != nil {
					return fail("%v", err)
				}
				cur.params, cur.results = ps, rs
			}
			if S.funcs[name] != nil {
				return fail("duplicate contract for %s", name)
			}
			S.funcs[name] = cur
			S.order = append(S.order, name)
		case "logic":
			// name(a T, b U) R [reads k1, k2]
			txt := s.text
			var reads []string
			if k := strings.Index(txt, " reads "); k >= 0 {
				for _, r := range strings.Split(txt[k+7:], ",") {
					reads = append(reads, strings.TrimSpace(r))
				}
				txt = txt[:k]
			}
			name, ps, rest, err := parseHead(txt)
			if err != nil {
				return fail("%v", err)
			}
			S.logics[name] = &Logic{name: name, params: ps, res: strings.TrimSpace(rest), pkg: pkg, reads: reads}
		case "pred", "named":
			name, ps, rest, err := parseHead(s.text)
			if err != nil {
				return fail("%v", err)
			}
			rest = strings.TrimSpace(rest)
			if k := strings.Index(rest, "="); k >= 0 {
				rest = rest[k+1:]
			}
			e, err := parseExpr(rest)
			if err != nil {
				return fail("%v", err)
			}
			if S.preds[name] != nil {
				return fail("duplicate pred %s", name)
			}
			S.preds[name] = &Pred{name: name, params: ps, body: e, pkg: pkg, where: s.where, named: s.kw == "named"}
		case "axiom", "lemma":
			k := strings.Index(s.text, ":")
			if k < 0 {
				return fail("axiom needs a name")
			}
			e, err := parseExpr(s.text[k+1:])
			if err != nil {
				return fail("%v", err)
			}
			S.axioms = append(S.axioms, &Axiom{name: strings.TrimSpace(s.text[:k]), e: e, pkg: pkg, lem: s.kw == "lemma", src: strings.TrimSpace(s.text[k+1:])})
		case "safe", "trusted", "pure", "inline", "opaque", "maypanic", "ignoresync", "sends", "forkappend":
			if cur == nil {
				return fail("%s outside func", s.kw)
			}
			switch s.kw {
			case "safe":
				cur.safe = true
			case "trusted":
				cur.trusted = true
			case "pure":
				cur.pure = true
			case "opaque":
				cur.opaque = true
			case "inline":
				cur.inline = true
			case "maypanic":
				cur.mayPanic = true
			case "ignoresync":
				cur.ignoreSync = true
			case "forkappend":
				cur.forkAppend = true
			case "sends":
				cur.sendGhost = "sent"
			}
		case "requires", "ensures", "inv", "modifies":
			if cur == nil {
				return fail("%s outside func", s.kw)
			}
			c := &Clause{kind: s.kw, where: s.where}
			txt := s.text
			if strings.HasPrefix(txt, "[") {
				k := strings.Index(txt, "]")
				for _, p := range strings.Split(txt[1:k], ",") {
					p = strings.TrimSpace(p)
					c.props = append(c.props, p)
					cur.props[p] = true
				}
				txt = strings.TrimSpace(txt[k+1:])
			}
			if s.kw == "inv" && strings.HasPrefix(txt, "(") {
				k := matchParen(txt)
				inner := txt[1:k]
				if ps, ok := tryParams(inner); ok && k+1 < len(txt) {
					c.vars = ps
					txt = strings.TrimSpace(txt[k+1:])
				}
			}
			if k := strings.Index(txt, ":"); k > 0 && !strings.ContainsAny(txt[:k], "()[]{}&|=<>!") && !strings.HasPrefix(txt[k:], ":=") {
				c.label = strings.TrimSpace(txt[:k])
				txt = txt[k+1:]
			}
			c.src = strings.TrimSpace(txt)
			e, err := parseExpr(txt)
			if err != nil {
				return fail("%v in %q", err, txt)
			}
			c.e = e
			switch s.kw {
			case "requires":
				cur.requires = append(cur.requires, c)
			case "ensures":
				cur.ensures = append(cur.ensures, c)
			case "inv":
				cur.invs = append(cur.invs, c)
			case "modifies":
				cur.modifies = append(cur.modifies, c)
			}
		}
	}
	return nil
}

func parseExpr(s string) (ast.Expr, error) { return parser.ParseExpr(s) }

func matchParen(s string) int {
	d := 0
	for i := 0; i < len(s); i++ {
		switch s[i] {
		case '(':
			d++
		case ')':
			d--
			if d == 0 {
				return i
			}
		}
	}
	return len(s) - 1
}

// "(a, b) (r, s)"
func splitBinders(s string) (ps, rs []string, err error) {
	names := func(t string) []string {
		var out []string
		for _, f := range strings.Split(t, ",") {
			f = strings.TrimSpace(f)
			if f != "" {
				out = append(out, f)
			}
		}
		return out
	}
	k := matchParen(s)
	ps = names(s[1:k])
	rest := strings.TrimSpace(s[k+1:])
	if rest != "" {
		if rest[0] == '(' {
			rs = names(rest[1:matchParen(rest)])
		} else {
			rs = []string{rest}
		}
	}
	return
}

func parseHead(s string) (string, []Param, string, error) {
	k := strings.Index(s, "(")
	if k < 0 {
		return "", nil, "", fmt.Errorf("missing (")
	}
	name := strings.TrimSpace(s[:k])
	e := k + matchParen(s[k:])
	ps, ok := tryParams(s[k+1 : e])
	if !ok {
		return "", nil, "", fmt.Errorf("bad parameters %q", s[k:e+1])
	}
	return name, ps, s[e+1:], nil
}

func tryParams(s string) ([]Param, bool) {
	s = strings.TrimSpace(s)
	if s == "" {
		return nil, true
	}
	fs := token.NewFileSet()
	f, err := parser.ParseFile(fs, "", "package p\nfunc f("+s+") {}", 0)
	if err != nil {
		return nil, false
	}
	var out []Param
	src := "package p\nfunc f(" + s + ") {}"
	for _, p := range f.Decls[0].(*ast.FuncDecl).Type.Params.List {
		t := src[p.Type.Pos()-1 : p.Type.End()-1]
		if len(p.Names) == 0 {
			return nil, false
		}
		for _, n := range p.Names {
			out = append(out, Param{n.Name, t})
		}
	}
	return out, true
}

// ---------------------------------------------------------------------------
// Types in specifications
// ---------------------------------------------------------------------------

func (S *Specs) resolveType(src string, pkg string) types.Type {
	e, err := parser.ParseExpr(src)
	if err != nil {
		unsup("spec type %q: %v", src, err)
	}
	return S.typeOf(e, pkg)
}

func (S *Specs) typeOf(e ast.Expr, pkg string) types.Type {
	t := S.tryType(e, pkg)
	if t == nil {
		unsup("unknown type in specification")
	}
	return t
}

func (S *Specs) tryType(e ast.Expr, pkg string) types.Type {
	switch t := e.(type) {
	case *ast.Ident:
		if o := types.Universe.Lookup(t.Name); o != nil {
			if tn, ok := o.(*types.TypeName); ok {
				return tn.Type()
			}
		}
		if p := S.prog.pkgs[pkg]; p != nil {
			if tn, ok := p.Pkg.Scope().Lookup(t.Name).(*types.TypeName); ok {
				return tn.Type()
			}
		}
		return nil
	case *ast.SelectorExpr:
		if id, ok := t.X.(*ast.Ident); ok {
			if p := S.prog.pkgs[id.Name]; p != nil {
				if tn, ok := p.Pkg.Scope().Lookup(t.Sel.Name).(*types.TypeName); ok {
					return tn.Type()
				}
			}
		}
		return nil
	case *ast.StarExpr:
		if u := S.tryType(t.X, pkg); u != nil {
			return types.NewPointer(u)
		}
		return nil
	case *ast.ArrayType:
		u := S.tryType(t.Elt, pkg)
		if u == nil {
			return nil
		}
		if t.Len == nil {
			return types.NewSlice(u)
		}
		if b, ok := t.Len.(*ast.BasicLit); ok {
			var n int64
			fmt.Sscanf(b.Value, "%d", &n)
			return types.NewArray(u, n)
		}
		return nil
	case *ast.StructType:
		if len(t.Fields.List) == 0 {
			return types.NewStruct(nil, nil)
		}
		return nil
	case *ast.MapType:
		k, v := S.tryType(t.Key, pkg), S.tryType(t.Value, pkg)
		if k == nil || v == nil {
			return nil
		}
		return types.NewMap(k, v)
	case *ast.InterfaceType:
		return types.NewInterfaceType(nil, nil)
	case *ast.FuncType:
		tup := func(l *ast.FieldList) *types.Tuple {
			var vs []*types.Var
			if l != nil {
				for _, f := range l.List {
					n := len(f.Names)
					if n == 0 {
						n = 1
					}
					u := S.typeOf(f.Type, pkg)
					for ; n > 0; n-- {
						vs = append(vs, types.NewVar(0, nil, "", u))
					}
				}
			}
			return types.NewTuple(vs...)
		}
		return types.NewSignatureType(nil, nil, nil, tup(t.Params), tup(t.Results), false)
	case *ast.ParenExpr:
		return S.tryType(t.X, pkg)
	}
	return nil
}
