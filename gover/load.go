package main

import (
	"fmt"
	"go/types"
	"os"
	"path/filepath"
	"strings"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

type Prog struct {
	prog  *ssa.Program
	pkgs  []*ssa.Package
	funcs map[string]*ssa.Function // key -> function with body
	named map[string]*types.Named  // "tensor.TensorMat"
	paths map[string]bool
}

func loadProg(repo string) (*Prog, error) {
	tmp, err := os.MkdirTemp("", "gover-mod")
	if err != nil {
		return nil, err
	}
	defer os.RemoveAll(tmp)
	for _, f := range []string{"go.mod", "go.sum"} {
		d, err := os.ReadFile(filepath.Join(repo, f))
		if err != nil {
			return nil, err
		}
		os.WriteFile(filepath.Join(tmp, f), d, 0644)
	}
	cfg := &packages.Config{Mode: packages.LoadAllSyntax, Dir: repo,
		Env: append(os.Environ(), "GOFLAGS=-mod=mod -modfile="+filepath.Join(tmp, "go.mod"), "GOPROXY=off")}
	ps, err := packages.Load(cfg, "./...")
	if err != nil {
		return nil, err
	}
	for _, p := range ps {
		for _, er := range p.Errors {
			return nil, fmt.Errorf("%s: %v", p.PkgPath, er)
		}
	}
	prog, pkgs := ssautil.Packages(ps, ssa.BuilderMode(0))
	prog.Build()
	pr := &Prog{prog: prog, pkgs: pkgs, funcs: map[string]*ssa.Function{}, named: map[string]*types.Named{}, paths: map[string]bool{}}
	for _, p := range pkgs {
		pr.paths[p.Pkg.Path()] = true
		for n, m := range p.Members {
			switch m := m.(type) {
			case *ssa.Function:
				pr.funcs[p.Pkg.Name()+"."+n] = m
			case *ssa.Type:
				nt, ok := m.Type().(*types.Named)
				if !ok {
					continue
				}
				nt = nt.Origin()
				pr.named[p.Pkg.Name()+"."+n] = nt
				for i := 0; i < nt.NumMethods(); i++ {
					mo := nt.Method(i)
					f := prog.FuncValue(mo)
					if f == nil {
						continue
					}
					pr.funcs[methodKey(mo)] = f
				}
			}
		}
	}
	return pr, nil
}

func methodKey(mo *types.Func) string {
	sig := mo.Type().(*types.Signature)
	rt := sig.Recv().Type()
	star := ""
	if p, ok := rt.(*types.Pointer); ok {
		star = "*"
		rt = p.Elem()
	}
	n, ok := rt.(*types.Named)
	if !ok {
		return mo.FullName()
	}
	return n.Obj().Pkg().Name() + ".(" + star + n.Obj().Name() + ")." + mo.Name()
}

func (p *Prog) inRepo(f *ssa.Function) bool {
	if f.Pkg != nil {
		return p.paths[f.Pkg.Pkg.Path()]
	}
	if o := f.Object(); o != nil && o.Pkg() != nil {
		return p.paths[o.Pkg().Path()]
	}
	if f.Parent() != nil {
		return p.inRepo(f.Parent())
	}
	return false
}

func origin(f *ssa.Function) *ssa.Function {
	if o := f.Origin(); o != nil {
		return o
	}
	return f
}

func (p *Prog) funcKey(f *ssa.Function) string {
	f = origin(f)
	if o, ok := f.Object().(*types.Func); ok {
		o = o.Origin()
		if o.Type().(*types.Signature).Recv() != nil {
			return methodKey(o)
		}
		return o.Pkg().Name() + "." + o.Name()
	}
	return f.String()
}

func posOf(f *ssa.Function, p *Prog) string {
	ps := p.prog.Fset.Position(f.Pos())
	return fmt.Sprintf("%s:%d", strings.TrimPrefix(ps.Filename, "/repo/"), ps.Line)
}
