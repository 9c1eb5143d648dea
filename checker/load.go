package main

import (
	"fmt"
	"go/token"
	"go/types"
	"os"
	"sort"
	"strings"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

// Program is the type-checked, SSA-built repository.
type Program struct {
	refs    map[*ssa.Function][]*ssa.Function
	bySig   map[string][]*ssa.Function
	prog    *ssa.Program
	pkgs    []*packages.Package
	ssaPkgs []*ssa.Package
	fset    *token.FileSet
	root    string
	funcs   []*ssa.Function // all functions of the repository, sorted by position
	inRepo  map[*ssa.Package]bool
	lines   int
}

func loadProgram(dir string) (*Program, error) {
	env := []string{}
	for _, e := range os.Environ() {
		if strings.HasPrefix(e, "GOFLAGS=") {
			continue
		}
		env = append(env, e)
	}
	env = append(env, "GOFLAGS=-mod=readonly", "GOPROXY=off", "GOTOOLCHAIN=local", "GOWORK=off")
	cfg := &packages.Config{
		Dir: dir,
		Mode: packages.NeedName | packages.NeedFiles | packages.NeedCompiledGoFiles | packages.NeedImports |
			packages.NeedTypes | packages.NeedSyntax | packages.NeedTypesInfo | packages.NeedTypesSizes | packages.NeedModule,
		Env: env,
	}
	pkgs, err := packages.Load(cfg, "./...")
	if err != nil {
		return nil, err
	}
	var use []*packages.Package
	for _, p := range pkgs {
		if strings.HasSuffix(p.PkgPath, "/integration") {
			continue // test package with no code of its own
		}
		for _, e := range p.Errors {
			return nil, fmt.Errorf("%s: %v", p.PkgPath, e)
		}
		if len(p.CompiledGoFiles) == 0 {
			continue
		}
		use = append(use, p)
	}
	if len(use) == 0 {
		return nil, fmt.Errorf("no packages in %s", dir)
	}
	prog, sp := ssautil.Packages(use, ssa.InstantiateGenerics)
	prog.Build()
	P := &Program{prog: prog, pkgs: use, ssaPkgs: sp, fset: prog.Fset, root: dir, inRepo: map[*ssa.Package]bool{}}
	for _, p := range sp {
		if p == nil {
			return nil, fmt.Errorf("package without SSA form")
		}
		P.inRepo[p] = true
	}
	for f := range ssautil.AllFunctions(prog) {
		if f.Blocks != nil {
			P.funcs = append(P.funcs, f)
		}
	}
	sort.Slice(P.funcs, func(i, j int) bool {
		a, b := P.funcs[i], P.funcs[j]
		if a.Pos() != b.Pos() {
			return a.Pos() < b.Pos()
		}
		return a.RelString(nil) < b.RelString(nil)
	})
	return P, nil
}

func (P *Program) pos(p token.Pos) string {
	if !p.IsValid() {
		return "?"
	}
	q := P.fset.Position(p)
	f := strings.TrimPrefix(q.Filename, P.root+"/")
	return fmt.Sprintf("%s:%d", f, q.Line)
}

func instrPos(in ssa.Instruction) token.Pos {
	if in == nil {
		return token.NoPos
	}
	p := in.Pos()
	if p.IsValid() {
		return p
	}
	if n, ok := in.(*ssa.Next); ok && n.Iter.Pos().IsValid() {
		return n.Iter.Pos()
	}
	// the closest instruction with a position in the same block
	b := in.Block()
	if b == nil {
		return token.NoPos
	}
	best := token.NoPos
	for _, x := range b.Instrs {
		if x.Pos().IsValid() {
			best = x.Pos()
		}
		if x == in && best.IsValid() {
			return best
		}
	}
	if best.IsValid() {
		return best
	}
	return in.Parent().Pos()
}

func (P *Program) isRepoFn(f *ssa.Function) bool { return f != nil && f.Blocks != nil }

func (P *Program) named(pkgSuffix, name string) types.Type {
	for _, p := range P.ssaPkgs {
		if strings.HasSuffix(p.Pkg.Path(), pkgSuffix) {
			if o := p.Pkg.Scope().Lookup(name); o != nil {
				return o.Type()
			}
		}
	}
	return nil
}

func (P *Program) ownPkg(p *types.Package) bool {
	for _, q := range P.ssaPkgs {
		if q.Pkg == p {
			return true
		}
	}
	return false
}
