// Package chk decides properties of maxnikulin/burl from its source.
package chk

import (
	"fmt"
	"go/ast"
	"go/token"
	"go/types"
	"os"
	"path/filepath"
	"sort"
	"strings"

	"burlcheck/eng"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

// Program is the loaded repository.
type Program struct {
	Repo string
	Pkgs []*packages.Package
	Prog *ssa.Program
	All  map[*ssa.Function]bool
	Fset *token.FileSet
	Mod  string
	ByID map[string]*packages.Package

	graph *CallGraph
	named []types.Type
}

// Load type checks the repository and builds its SSA form.
func Load(repo string, overlay map[string][]byte) (*Program, error) {
	env := append(os.Environ(), "CGO_ENABLED=0", "GOPROXY=off", "GOFLAGS=-mod=mod -buildvcs=false", "GOTOOLCHAIN=local", "GO111MODULE=on", "GOWORK=off")
	cfg := &packages.Config{Mode: packages.LoadAllSyntax | packages.NeedModule, Dir: repo, Env: env, Overlay: overlay}
	pkgs, err := packages.Load(cfg, "./...")
	if err != nil {
		return nil, err
	}
	p := &Program{Repo: repo, Pkgs: pkgs, ByID: map[string]*packages.Package{}}
	var errs []string
	packages.Visit(pkgs, nil, func(x *packages.Package) {
		for _, e := range x.Errors {
			errs = append(errs, e.Error())
		}
	})
	if len(errs) > 0 {
		if len(errs) > 5 {
			errs = errs[:5]
		}
		return nil, fmt.Errorf("repository does not type check: %s", strings.Join(errs, "; "))
	}
	for _, x := range pkgs {
		p.ByID[x.PkgPath] = x
		if x.Module != nil {
			p.Mod = x.Module.Path
		}
	}
	if p.Mod == "" || len(pkgs) == 0 {
		return nil, fmt.Errorf("no packages in %s", repo)
	}
	prog, sp := ssautil.Packages(pkgs, ssa.InstantiateGenerics)
	for _, x := range sp {
		if x != nil {
			x.Build()
		}
	}
	p.Prog = prog
	p.Fset = prog.Fset
	p.All = ssautil.AllFunctions(prog)
	return p, nil
}

func (p *Program) InModule(x *types.Package) bool {
	return x != nil && (x.Path() == p.Mod || strings.HasPrefix(x.Path(), p.Mod+"/"))
}

// Pkg is the SSA package with the path relative to the module.
func (p *Program) Pkg(rel string) *ssa.Package {
	x := p.ByID[p.Mod+"/"+rel]
	if x == nil {
		return nil
	}
	return p.Prog.Package(x.Types)
}

// Func finds a package function.
func (p *Program) Func(rel, name string) *ssa.Function {
	if x := p.Pkg(rel); x != nil {
		return x.Func(name)
	}
	return nil
}

// Type finds a named type.
func (p *Program) Type(rel, name string) types.Type {
	x := p.ByID[p.Mod+"/"+rel]
	if x == nil {
		return nil
	}
	if tn, ok := x.Types.Scope().Lookup(name).(*types.TypeName); ok {
		return tn.Type()
	}
	return nil
}

// hasMethod: the type has an exported method of the name.
func (p *Program) hasMethod(T types.Type, name string) bool {
	return p.Prog.MethodSets.MethodSet(T).Lookup(nil, name) != nil
}

// Method finds a method of a named type or of a pointer to it.
func (p *Program) Method(T types.Type, name string) *ssa.Function {
	if T == nil {
		return nil
	}
	for _, x := range []types.Type{types.NewPointer(T), T} {
		ms := p.Prog.MethodSets.MethodSet(x)
		for i := 0; i < ms.Len(); i++ {
			if ms.At(i).Obj().Name() == name {
				return p.Prog.MethodValue(ms.At(i))
			}
		}
	}
	return nil
}

// ModuleFuncs lists source functions of the module, sorted by position.
func (p *Program) ModuleFuncs() []*ssa.Function {
	var l []*ssa.Function
	for f := range p.All {
		if len(f.Blocks) == 0 {
			continue
		}
		if pk := fnPkg(f); pk != nil && p.InModule(pk) {
			l = append(l, f)
		}
	}
	sort.Slice(l, func(i, j int) bool {
		if l[i].String() != l[j].String() {
			return l[i].String() < l[j].String()
		}
		return l[i].Pos() < l[j].Pos()
	})
	return l
}

func fnPkg(f *ssa.Function) *types.Package {
	for f.Parent() != nil {
		f = f.Parent()
	}
	if f.Pkg != nil {
		return f.Pkg.Pkg
	}
	if o := f.Object(); o != nil {
		return o.Pkg()
	}
	return nil
}

// Pos formats a position relative to the repository.
func (p *Program) Pos(pos token.Pos) string {
	if !pos.IsValid() {
		return "?"
	}
	q := p.Fset.Position(pos)
	f := q.Filename
	if r, err := filepath.Rel(p.Repo, f); err == nil && !strings.HasPrefix(r, "..") {
		f = r
	}
	return fmt.Sprintf("%s:%d", f, q.Line)
}

// NewEngine creates an interpreter for the program.
func (p *Program) NewEngine() *eng.Engine {
	return eng.New(p.Prog, p.InModule, p.All)
}

func relName(p *Program, f *ssa.Function) string {
	return strings.ReplaceAll(f.String(), p.Mod+"/", "")
}

// FileOf returns syntax of the file containing pos.
func (p *Program) FileOf(pos token.Pos) *ast.File {
	for _, x := range p.Pkgs {
		for _, f := range x.Syntax {
			if f.FileStart <= pos && pos <= f.FileEnd {
				return f
			}
		}
	}
	return nil
}
