package main

import (
	"fmt"
	"go/token"
	"go/types"
	"os"
	"path/filepath"
	"sort"
	"strings"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

// Prog is the type-checked program and its SSA form.
type Prog struct {
	dir   string
	fset  *token.FileSet
	pkg   *packages.Package
	pkgs  []*packages.Package
	prog  *ssa.Program
	ssa   *ssa.Package
	funcs []*ssa.Function // all source functions and methods of the package, with closures
	tags  string
}

func repoDir() string {
	if d := os.Getenv("RADIX_REPO"); d != "" {
		return d
	}
	return "/repo"
}

func loadProg(dir, tags, goarch string) (*Prog, error) {
	cfg := &packages.Config{
		Dir:  dir,
		Mode: packages.NeedName | packages.NeedFiles | packages.NeedCompiledGoFiles | packages.NeedImports | packages.NeedTypes | packages.NeedTypesSizes | packages.NeedSyntax | packages.NeedTypesInfo | packages.NeedModule,
		Env:  append(os.Environ(), "GOFLAGS=-mod=mod", "GOPROXY=off", "GOWORK=off", "GO111MODULE=on", "GOTOOLCHAIN=local"),
	}
	if tags != "" {
		cfg.BuildFlags = []string{"-tags=" + tags}
	}
	if goarch != "" {
		cfg.Env = append(cfg.Env, "GOARCH="+goarch, "CGO_ENABLED=0")
	}
	pkgs, err := packages.Load(cfg, "./...")
	if err != nil {
		return nil, err
	}
	for _, q := range pkgs {
		if q.Name == "radix" && len(q.Errors) == 0 {
			if cfg.Overlay = canonOverlay(q); cfg.Overlay != nil {
				// without the overlay if it has made two names clash
				if l, err := packages.Load(cfg, "./..."); err == nil && typeErrors(l) == 0 {
					pkgs = l
				}
			}
		}
	}
	p := &Prog{dir: dir, pkgs: pkgs, tags: tags}
	for _, q := range pkgs {
		if len(q.Errors) > 0 {
			return nil, fmt.Errorf("type-check: %v", q.Errors[0])
		}
		if q.Name == "radix" {
			p.pkg = q
		}
	}
	if p.pkg == nil {
		return nil, fmt.Errorf("package radix not found")
	}
	p.fset = p.pkg.Fset
	prog, sp := ssautil.Packages([]*packages.Package{p.pkg}, 0)
	prog.Build()
	p.prog, p.ssa = prog, sp[0]
	for fn := range ssautil.AllFunctions(prog) {
		if fn.Pkg == p.ssa && fn.Synthetic == "" {
			p.funcs = append(p.funcs, fn)
		}
	}
	sort.Slice(p.funcs, func(i, j int) bool { return p.funcs[i].Pos() < p.funcs[j].Pos() })
	return p, nil
}

func typeErrors(pkgs []*packages.Package) (n int) {
	for _, q := range pkgs {
		n += len(q.Errors)
	}
	return
}

func (p *Prog) pos(ps token.Pos) string {
	if !ps.IsValid() {
		return "-"
	}
	q := p.fset.Position(ps)
	return fmt.Sprintf("%s:%d", filepath.Base(q.Filename), q.Line)
}

// method finds a method of a named type of the package
func (p *Prog) method(typ, name string) *ssa.Function {
	obj := p.pkg.Types.Scope().Lookup(typ)
	if obj == nil {
		return nil
	}
	n, ok := obj.Type().(*types.Named)
	if !ok {
		return nil
	}
	for _, t := range []types.Type{types.NewPointer(n), n} {
		ms := types.NewMethodSet(t)
		if sel := ms.Lookup(p.pkg.Types, name); sel != nil {
			if f := p.prog.MethodValue(sel); f != nil {
				return f
			}
		}
	}
	return nil
}

func (p *Prog) fn(name string) *ssa.Function { return p.ssa.Func(name) }

func (p *Prog) named(name string) *types.Named {
	obj := p.pkg.Types.Scope().Lookup(name)
	if obj == nil {
		return nil
	}
	n, _ := obj.Type().(*types.Named)
	return n
}

func fieldIndex(n types.Type, name string) int {
	if p, ok := n.Underlying().(*types.Pointer); ok {
		n = p.Elem()
	}
	st, ok := n.Underlying().(*types.Struct)
	if !ok {
		return -1
	}
	for i := 0; i < st.NumFields(); i++ {
		if st.Field(i).Name() == name {
			return i
		}
	}
	return -1
}

func fnName(f *ssa.Function) string {
	if f == nil {
		return "?"
	}
	s := f.RelString(f.Pkg.Pkg)
	return strings.TrimPrefix(s, "(*radix.")
}
