package main

import (
	"fmt"
	"go/token"
	"go/types"
	"os"
	"path/filepath"
	"sort"
	"strings"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

const modPath = "vimagination.zapto.org/limage"

// Prog is the type-checked program, built from the current working tree.
type Prog struct {
	repo  string
	fset  *token.FileSet
	prog  *ssa.Program
	pkgs  map[string]*ssa.Package // repo packages and the standard packages they import
	tpkgs map[string]*packages.Package
	all   map[*ssa.Function]bool
	src   []*ssa.Function // functions with a body in the repository
	files []string
}

func load(repo, stubs string) (*Prog, error) {
	dir, err := os.MkdirTemp("", "limcheck")
	if err != nil {
		return nil, err
	}
	defer os.RemoveAll(dir)
	mod, err := os.ReadFile(filepath.Join(repo, "go.mod"))
	if err != nil {
		return nil, err
	}
	m := string(mod)
	for _, s := range []string{"byteio", "memio", "parser"} {
		m += fmt.Sprintf("\nreplace vimagination.zapto.org/%s => %s\n", s, filepath.Join(stubs, s))
	}
	mf := filepath.Join(dir, "go.mod")
	if err := os.WriteFile(mf, []byte(m), 0o644); err != nil {
		return nil, err
	}
	if err := os.WriteFile(filepath.Join(dir, "go.sum"), nil, 0o644); err != nil {
		return nil, err
	}
	fset := token.NewFileSet()
	cfg := &packages.Config{
		Mode:       packages.LoadAllSyntax | packages.NeedModule,
		Dir:        repo,
		Fset:       fset,
		Env:        append(os.Environ(), "GOFLAGS=-mod=mod", "GOPROXY=off", "GOSUMDB=off", "GOTOOLCHAIN=local", "GOWORK=off", "CGO_ENABLED=0"),
		BuildFlags: []string{"-modfile=" + mf},
	}
	ps, err := packages.Load(cfg, "./...")
	if err != nil {
		return nil, err
	}
	p := &Prog{repo: repo, fset: fset, pkgs: map[string]*ssa.Package{}, tpkgs: map[string]*packages.Package{}}
	var errs []string
	packages.Visit(ps, nil, func(q *packages.Package) {
		for _, e := range q.Errors {
			errs = append(errs, e.Error())
		}
		p.tpkgs[q.PkgPath] = q
	})
	if len(errs) > 0 {
		return nil, fmt.Errorf("type-check: %s", strings.Join(errs, "; "))
	}
	p.prog, _ = ssautil.AllPackages(ps, ssa.InstantiateGenerics)
	p.prog.Build()
	for _, sp := range p.prog.AllPackages() {
		p.pkgs[sp.Pkg.Path()] = sp
	}
	p.all = ssautil.AllFunctions(p.prog)
	for f := range p.all {
		if f.Blocks != nil && p.inRepo(f) && f.Synthetic == "" {
			p.src = append(p.src, f)
		}
	}
	sort.Slice(p.src, func(i, j int) bool { return p.src[i].Pos() < p.src[j].Pos() })
	for _, q := range ps {
		p.files = append(p.files, q.GoFiles...)
	}
	sort.Strings(p.files)
	return p, nil
}

func pkgPathOf(f *ssa.Function) string {
	for g := f; g != nil; g = g.Parent() {
		if g.Pkg != nil {
			return g.Pkg.Pkg.Path()
		}
		if g.Object() != nil && g.Object().Pkg() != nil {
			return g.Object().Pkg().Path()
		}
		if o := g.Origin(); o != nil && o.Pkg != nil {
			return o.Pkg.Pkg.Path()
		}
	}
	return ""
}

func isRepoPath(p string) bool { return p == modPath || strings.HasPrefix(p, modPath+"/") }

func (p *Prog) inRepo(f *ssa.Function) bool { return isRepoPath(pkgPathOf(f)) }

// pkg gives a repository package by its path below the module.
func (p *Prog) pkg(rel string) *ssa.Package {
	if rel == "" {
		return p.pkgs[modPath]
	}
	return p.pkgs[modPath+"/"+rel]
}

// fn looks a package-level function up.
func (p *Prog) fn(rel, name string) *ssa.Function {
	if sp := p.pkg(rel); sp != nil {
		return sp.Func(name)
	}
	return nil
}

func (p *Prog) named(rel, name string) *types.Named {
	sp := p.pkg(rel)
	if sp == nil {
		sp = p.pkgs[rel]
	}
	if sp == nil {
		return nil
	}
	t := sp.Type(name)
	if t == nil {
		return nil
	}
	n, _ := types.Unalias(t.Type()).(*types.Named)
	return n
}

// method looks a method of a type up, through pointers and embedding.
func (p *Prog) method(t types.Type, name string) *ssa.Function {
	if t == nil {
		return nil
	}
	var pk *types.Package
	if n, ok := types.Unalias(t).(*types.Named); ok {
		pk = n.Obj().Pkg()
	} else if pt, ok := types.Unalias(t).(*types.Pointer); ok {
		if n, ok := types.Unalias(pt.Elem()).(*types.Named); ok {
			pk = n.Obj().Pkg()
		}
	}
	ms := p.prog.MethodSets.MethodSet(t)
	sel := ms.Lookup(pk, name)
	if sel == nil {
		return nil
	}
	return p.prog.MethodValue(sel)
}

func (p *Prog) pos(ps token.Pos) string {
	if !ps.IsValid() {
		return "?"
	}
	q := p.fset.Position(ps)
	f := q.Filename
	if r, err := filepath.Rel(p.repo, f); err == nil && !strings.HasPrefix(r, "..") {
		f = r
	}
	return fmt.Sprintf("%s:%d", f, q.Line)
}

func fnName(f *ssa.Function) string {
	if f == nil {
		return "?"
	}
	return strings.ReplaceAll(f.String(), modPath, "limage")
}
