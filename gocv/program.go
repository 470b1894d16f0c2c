package main

import (
	"fmt"
	"go/types"
	"os"
	"sort"
	"strings"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

var repoDir = "/repo"
var repoModule = "github.com/TopoSimplify/plugin"

type Program struct {
	prog   *ssa.Program
	pkgs   map[string]*ssa.Package // by short name; repo packages win
	all    []*ssa.Package
	byName map[string]*ssa.Function
}

func loadProgram(dir string) (*Program, error) {
	cfg := &packages.Config{
		Mode: packages.NeedName | packages.NeedFiles | packages.NeedImports | packages.NeedDeps |
			packages.NeedTypes | packages.NeedSyntax | packages.NeedTypesInfo | packages.NeedTypesSizes | packages.NeedModule,
		Dir: dir,
		Env: append(os.Environ(), "GOFLAGS=-mod=readonly", "GOPROXY=off"),
	}
	pats := []string{}
	out, err := goListPackages(dir)
	if err != nil {
		return nil, err
	}
	for _, p := range out {
		if strings.HasSuffix(p, "/constdp/app") || strings.Contains(p, "/example") {
			continue
		}
		pats = append(pats, p)
	}
	ps, err := packages.Load(cfg, pats...)
	if err != nil {
		return nil, err
	}
	for _, p := range ps {
		if len(p.Errors) > 0 {
			return nil, fmt.Errorf("package %s: %v", p.PkgPath, p.Errors[0])
		}
	}
	prog, _ := ssautil.AllPackages(ps, ssa.InstantiateGenerics)
	prog.Build()
	P := &Program{prog: prog, pkgs: map[string]*ssa.Package{}, byName: map[string]*ssa.Function{}}
	for _, p := range prog.AllPackages() {
		P.all = append(P.all, p)
	}
	sort.Slice(P.all, func(i, j int) bool { return P.all[i].Pkg.Path() < P.all[j].Pkg.Path() })
	rank := func(p *ssa.Package) int {
		switch {
		case isRepoPath(p.Pkg.Path()):
			return 0
		case strings.Contains(p.Pkg.Path(), "intdxdt"):
			return 1
		case !strings.Contains(p.Pkg.Path(), "internal") && !strings.Contains(p.Pkg.Path(), "vendor") && !strings.Contains(p.Pkg.Path(), "."):
			return 2
		}
		return 3
	}
	for _, p := range P.all {
		n := p.Pkg.Name()
		if old, ok := P.pkgs[n]; !ok || rank(p) < rank(old) {
			P.pkgs[n] = p
		}
	}
	for fn := range ssautil.AllFunctions(prog) {
		if fn.Synthetic != "" && fn.Pkg == nil {
			continue
		}
		n := specName(fn)
		if old, ok := P.byName[n]; ok && old != fn {
			// prefer repository code
			if old.Pkg != nil && isRepoPath(old.Pkg.Pkg.Path()) {
				continue
			}
			if fn.Pkg != nil && old.Pkg != nil && rank(fn.Pkg) > rank(old.Pkg) {
				continue
			}
		}
		P.byName[n] = fn
	}
	return P, nil
}

func goListPackages(dir string) ([]string, error) {
	cfg := &packages.Config{Mode: packages.NeedName, Dir: dir, Env: append(os.Environ(), "GOFLAGS=-mod=readonly", "GOPROXY=off")}
	ps, err := packages.Load(cfg, "./...")
	if err != nil {
		return nil, err
	}
	var out []string
	for _, p := range ps {
		out = append(out, p.PkgPath)
	}
	return out, nil
}

func isRepoPath(p string) bool { return p == repoModule || strings.HasPrefix(p, repoModule+"/") }

func isRepoFn(fn *ssa.Function) bool {
	for fn.Parent() != nil {
		fn = fn.Parent()
	}
	if fn.Pkg != nil {
		return isRepoPath(fn.Pkg.Pkg.Path())
	}
	if o := fn.Object(); o != nil && o.Pkg() != nil {
		return isRepoPath(o.Pkg().Path())
	}
	return false
}

func fnPkg(fn *ssa.Function) *types.Package {
	for fn.Parent() != nil {
		fn = fn.Parent()
	}
	if fn.Pkg != nil {
		return fn.Pkg.Pkg
	}
	if o := fn.Object(); o != nil {
		return o.Pkg()
	}
	return nil
}

// specName: pkg.Func, pkg.Type.Method, pkg.Func$1
func specName(fn *ssa.Function) string {
	if fn.Parent() != nil {
		n := fn.Name()
		p := specName(fn.Parent())
		if i := strings.LastIndex(n, "$"); i >= 0 {
			return p + n[i:]
		}
		return p + "$" + n
	}
	pkg := ""
	if p := fnPkg(fn); p != nil {
		pkg = p.Name() + "."
	}
	if r := fn.Signature.Recv(); r != nil {
		t := r.Type()
		if p, ok := types.Unalias(t).(*types.Pointer); ok {
			t = p.Elem()
		}
		if n, ok := types.Unalias(t).(*types.Named); ok {
			return pkg + n.Obj().Name() + "." + fn.Name()
		}
		return pkg + "?." + fn.Name()
	}
	return pkg + fn.Name()
}

// globalVal: the value of a package variable assigned once, by its initialiser,
// to a constant or a function.
func (x *Exec) globalVal(st *State, g *ssa.Global) Value {
	v, ok := x.prog.constGlobal(g)
	if !ok {
		return nil
	}
	switch c := v.(type) {
	case *ssa.Const:
		return constVal(c)
	case *ssa.Function:
		return fnConst(c)
	}
	return nil
}

var constGlobals map[*ssa.Global]ssa.Value

func (p *Program) constGlobal(g *ssa.Global) (ssa.Value, bool) {
	if constGlobals == nil {
		constGlobals = map[*ssa.Global]ssa.Value{}
		bad := map[*ssa.Global]bool{}
		for fn := range ssautil.AllFunctions(p.prog) {
			if pk := fnPkg(fn); pk == nil || !(isRepoPath(pk.Path()) || strings.Contains(pk.Path(), "intdxdt")) {
				continue
			}
			for _, b := range fn.Blocks {
				for _, in := range b.Instrs {
					if s, ok := in.(*ssa.Store); ok {
						if gg, ok := s.Addr.(*ssa.Global); ok {
							if _, dup := constGlobals[gg]; dup {
								bad[gg] = true
							}
							constGlobals[gg] = s.Val
							if !(fn.Name() == "init" && fn.Synthetic != "") {
								bad[gg] = true
							}
						}
						continue
					}
					for _, op := range in.Operands(nil) {
						if gg, ok := (*op).(*ssa.Global); ok {
							if u, ok := in.(*ssa.UnOp); ok && u.X == gg {
								continue
							}
							bad[gg] = true // address taken
						}
					}
				}
			}
		}
		for g := range bad {
			delete(constGlobals, g)
		}
	}
	v, ok := constGlobals[g]
	return v, ok
}
