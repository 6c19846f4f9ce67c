package main

import (
	"fmt"
	"go/token"
	"go/types"
	"os"
	"sort"
	"strings"
	"sync"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

const modPath = "github.com/kunitsucom/ddlctl"

// Prog is the loaded program.
type Prog struct {
	fset *token.FileSet
	prog *ssa.Program
	pkgs map[string]*ssa.Package // by import path
	tpkg map[string]*types.Package
	mu   sync.Mutex
	fns  map[string]*ssa.Function // by canonical name
	impl map[string][]types.Type  // interface type string -> implementing concrete types
}

// Load type-checks and builds SSA for the given import paths from /repo's working tree.
func Load(repo string, patterns []string) (*Prog, error) {
	env := append(os.Environ(), "GOFLAGS=-mod=mod", "GOPROXY=off", "GOTOOLCHAIN=local", "GOWORK=off")
	cfg := &packages.Config{
		Mode: packages.NeedName | packages.NeedFiles | packages.NeedCompiledGoFiles | packages.NeedImports |
			packages.NeedTypes | packages.NeedTypesSizes | packages.NeedSyntax | packages.NeedTypesInfo | packages.NeedModule,
		Dir: repo, Env: env, Tests: false,
	}
	pkgs, err := packages.Load(cfg, patterns...)
	if err != nil {
		return nil, err
	}
	for _, p := range pkgs {
		for _, e := range p.Errors {
			return nil, fmt.Errorf("%s: %v", p.PkgPath, e)
		}
		if p.Types == nil || len(p.Syntax) == 0 {
			return nil, fmt.Errorf("no syntax for %s", p.PkgPath)
		}
	}
	sp, ss := ssautil.Packages(pkgs, ssa.InstantiateGenerics)
	sp.Build()
	pr := &Prog{fset: pkgs[0].Fset, prog: sp, pkgs: map[string]*ssa.Package{}, tpkg: map[string]*types.Package{}, fns: map[string]*ssa.Function{}, impl: map[string][]types.Type{}}
	for i, p := range pkgs {
		pr.pkgs[p.PkgPath] = ss[i]
		pr.tpkg[p.PkgPath] = p.Types
	}
	for fn := range ssautil.AllFunctions(sp) {
		if fn.Blocks == nil {
			continue
		}
		pr.fns[fnName(fn)] = fn
	}
	return pr, nil
}

// fnName gives pkgpath.Func or pkgpath.(*T).Method, origin name for generics.
func fnName(fn *ssa.Function) string {
	if o := fn.Origin(); o != nil {
		fn = o
	}
	if fn.Parent() != nil {
		return fnName(fn.Parent()) + "$" + fn.Name()
	}
	pkg := ""
	if fn.Pkg != nil {
		pkg = fn.Pkg.Pkg.Path()
	} else if obj := fn.Object(); obj != nil && obj.Pkg() != nil {
		pkg = obj.Pkg().Path()
	}
	if recv := fn.Signature.Recv(); recv != nil {
		t := recv.Type()
		star := ""
		if p, ok := t.(*types.Pointer); ok {
			star = "*"
			t = p.Elem()
		}
		n := "?"
		if nt, ok := types.Unalias(t).(*types.Named); ok {
			n = nt.Obj().Name()
			if nt.Obj().Pkg() != nil {
				pkg = nt.Obj().Pkg().Path()
			}
		}
		return fmt.Sprintf("%s.(%s%s).%s", pkg, star, n, fn.Name())
	}
	return pkg + "." + fn.Name()
}

// pkgPattern is the import path of a package of a spec: below the module, or of a dependency when written with its host.
func pkgPattern(p string) string {
	if first, _, _ := strings.Cut(p, "/"); strings.Contains(first, ".") {
		return p
	}
	return modPath + "/" + p
}

func shortName(full string) string {
	return strings.TrimPrefix(strings.TrimPrefix(full, modPath+"/pkg/"), modPath+"/")
}

func typeKey(t types.Type) string {
	t = types.Unalias(t)
	if i, ok := t.(*types.Interface); ok && i.NumMethods() == 0 && i.NumEmbeddeds() == 0 {
		return "interface{}"
	}
	return types.TypeString(t, func(p *types.Package) string { return p.Path() })
}

// implementors of an interface among the loaded packages' named types (pointer or value).
func (pr *Prog) implementors(it types.Type) []types.Type {
	k := typeKey(it)
	pr.mu.Lock()
	defer pr.mu.Unlock()
	if r, ok := pr.impl[k]; ok {
		return r
	}
	iface := it.Underlying().(*types.Interface)
	var out []types.Type
	var home *types.Package
	if n, ok := types.Unalias(it).(*types.Named); ok {
		home = n.Obj().Pkg()
	}
	var paths []string
	for p := range pr.tpkg {
		paths = append(paths, p)
	}
	sort.Strings(paths)
	for _, p := range paths {
		tp := pr.tpkg[p]
		if home != nil && tp.Path() != home.Path() && strings.HasPrefix(home.Path(), modPath+"/pkg/ddl/") {
			continue
		}
		sc := tp.Scope()
		for _, n := range sc.Names() {
			tn, ok := sc.Lookup(n).(*types.TypeName)
			if !ok || tn.IsAlias() {
				continue
			}
			T := tn.Type()
			if _, isI := T.Underlying().(*types.Interface); isI {
				continue
			}
			if nt, ok := T.(*types.Named); ok && nt.TypeParams().Len() > 0 {
				continue
			}
			if types.Implements(T, iface) {
				out = append(out, T)
			} else if types.Implements(types.NewPointer(T), iface) {
				out = append(out, types.NewPointer(T))
			}
		}
	}
	pr.impl[k] = out
	return out
}

func (pr *Prog) typeNamed(path, name string) types.Type {
	if p := pr.prog.ImportedPackage(path); p != nil {
		if t := p.Type(name); t != nil {
			return t.Type()
		}
	}
	panic(unsupported{"type " + path + "." + name + " is not loaded"})
}

// reaches reports whether calls of a may lead to a call of b (static calls).
func (pr *Prog) reaches(a, b *ssa.Function) bool {
	seen := map[*ssa.Function]bool{}
	var f func(x *ssa.Function) bool
	f = func(x *ssa.Function) bool {
		if x == b {
			return true
		}
		if x == nil || seen[x] {
			return false
		}
		seen[x] = true
		for _, bl := range x.Blocks {
			for _, in := range bl.Instrs {
				for _, op := range in.Operands(nil) {
					if fn, ok := (*op).(*ssa.Function); ok && f(fn) {
						return true
					}
				}
			}
		}
		return false
	}
	return f(a)
}
