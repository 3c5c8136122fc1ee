package main

import (
	"fmt"
	"go/types"
	"os"
	"path/filepath"
	"sort"
	"strings"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

const modPath = "github.com/kisom/psignify"

// World is the loaded program.
type World struct {
	dir  string
	prog *ssa.Program
	pkgs []*ssa.Package
	by   map[string]*ssa.Package
	tpk  map[string]*types.Package
	init map[string]*State
}

func load(dir string) (*World, error) {
	// a copy of go.mod and go.sum, so that loading leaves those of the
	// repository as they are
	tmp, err := os.MkdirTemp("", "checker")
	if err != nil {
		return nil, err
	}
	defer os.RemoveAll(tmp)
	for _, f := range []string{"go.mod", "go.sum"} {
		if b, err := os.ReadFile(filepath.Join(dir, f)); err == nil {
			if err := os.WriteFile(filepath.Join(tmp, f), b, 0644); err != nil {
				return nil, err
			}
		}
	}
	cfg := &packages.Config{Mode: packages.LoadAllSyntax, Dir: dir,
		BuildFlags: []string{"-modfile=" + filepath.Join(tmp, "go.mod")},
		Env:        append(os.Environ(), "GOFLAGS=-mod=mod", "GOSUMDB=off", "GOPROXY=off", "GOWORK=off")}
	ps, err := packages.Load(cfg, "./...")
	if err != nil {
		return nil, err
	}
	var errs []string
	tpk := map[string]*types.Package{}
	packages.Visit(ps, nil, func(p *packages.Package) {
		if p.Types != nil {
			tpk[p.PkgPath] = p.Types
		}
		for _, e := range p.Errors {
			if strings.HasPrefix(p.PkgPath, modPath) {
				errs = append(errs, e.Error())
			}
		}
	})
	if len(errs) > 0 {
		return nil, fmt.Errorf("%s", strings.Join(errs, "; "))
	}
	prog, pkgs := ssautil.Packages(ps, ssa.InstantiateGenerics)
	prog.Build()
	w := &World{dir: dir, prog: prog, pkgs: pkgs, by: map[string]*ssa.Package{}, tpk: tpk}
	for _, p := range pkgs {
		if p != nil {
			w.by[p.Pkg.Path()] = p
		}
	}
	for _, p := range prog.AllPackages() {
		if w.by[p.Pkg.Path()] == nil {
			w.by[p.Pkg.Path()] = p
		}
	}
	return w, nil
}

func (w *World) typ(pkg, name string) types.Type {
	p := w.tpk[pkg]
	if p == nil {
		return nil
	}
	o := p.Scope().Lookup(name)
	if o == nil {
		return nil
	}
	return o.Type()
}

func (w *World) global(pkg, name string) *ssa.Global {
	p := w.by[pkg]
	if p == nil {
		return nil
	}
	g, _ := p.Members[name].(*ssa.Global)
	return g
}

// fn finds a function of the repository: "signify.Verify",
// "(*signify.Private).ToBox".
func (w *World) fn(name string) *ssa.Function {
	if strings.HasPrefix(name, "(*") {
		i := strings.Index(name, ")")
		tn := name[2:i]
		j := strings.LastIndex(tn, ".")
		p := w.by[pkgPath(tn[:j])]
		if p == nil {
			return nil
		}
		o := p.Pkg.Scope().Lookup(tn[j+1:])
		if o == nil {
			return nil
		}
		return w.prog.LookupMethod(types.NewPointer(o.Type()), p.Pkg, name[i+2:])
	}
	j := strings.LastIndex(name, ".")
	p := w.by[pkgPath(name[:j])]
	if p == nil {
		return nil
	}
	return p.Func(name[j+1:])
}

func pkgPath(short string) string {
	switch short {
	case "main":
		return modPath + "/cmd/psignify"
	case "edwards25519":
		return modPath + "/signify/internal/edwards25519"
	}
	return modPath + "/" + short
}

// allFns lists the functions of the repository that have a body.
func (w *World) allFns() []*ssa.Function {
	var r []*ssa.Function
	for f := range ssautil.AllFunctions(w.prog) {
		if len(f.Blocks) == 0 {
			continue
		}
		p := pkgOf(f)
		if p == nil || p.Path() != modPath && !strings.HasPrefix(p.Path(), modPath+"/") {
			continue
		}
		r = append(r, f)
	}
	sort.Slice(r, func(i, j int) bool { return r[i].String() < r[j].String() })
	return r
}

// method finds a method of t, or nil.
func (w *World) method(t types.Type, pkg *types.Package, name string) *ssa.Function {
	if isFake(t) {
		return nil
	}
	sel := w.prog.MethodSets.MethodSet(t).Lookup(pkg, name)
	if sel == nil {
		return nil
	}
	return w.prog.MethodValue(sel)
}
