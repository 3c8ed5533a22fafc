package main

import (
	"fmt"
	"go/ast"
	"os"
	"sort"
	"strings"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

type loaded struct {
	prog  *ssa.Program
	roots []*ssa.Package
	repo  []*ssa.Package // in dependency order
	pkgs  []*packages.Package
}

func load(dir string, patterns []string, repoMod string, overlay map[string][]byte) (*loaded, error) {
	cfg := &packages.Config{
		Mode: packages.NeedName | packages.NeedFiles | packages.NeedCompiledGoFiles | packages.NeedImports | packages.NeedDeps |
			packages.NeedTypes | packages.NeedSyntax | packages.NeedTypesInfo | packages.NeedTypesSizes | packages.NeedModule,
		Dir:     dir,
		Overlay: overlay,
		Env:     append(os.Environ(), "GOFLAGS=-mod=mod", "GOPROXY=off", "GOSUMDB=off", "CGO_ENABLED=0"),
	}
	pkgs, err := packages.Load(cfg, patterns...)
	if err != nil {
		return nil, err
	}
	var errs []string
	packages.Visit(pkgs, nil, func(p *packages.Package) {
		for _, e := range p.Errors {
			errs = append(errs, e.Error())
		}
	})
	if len(errs) > 0 {
		return nil, fmt.Errorf("load errors:\n%s", strings.Join(errs, "\n"))
	}
	prog, roots := ssautil.AllPackages(pkgs, ssa.InstantiateGenerics)
	prog.Build()
	l := &loaded{prog: prog, roots: roots, pkgs: pkgs}
	packages.Visit(pkgs, nil, func(p *packages.Package) {
		sp := prog.Package(p.Types)
		if sp != nil && (p.PkgPath == repoMod || strings.HasPrefix(p.PkgPath, repoMod+"/") || strings.HasPrefix(p.PkgPath, "vharness")) {
			l.repo = append(l.repo, sp)
		}
	})
	return l, nil
}

type harness struct {
	fn   *ssa.Function
	name string
	doc  string
	opts map[string]string
}

// harnesses finds functions H_... in the root packages, with options given in
// doc-comment lines "vrf:key=value".
func (l *loaded) harnesses() []harness {
	var r []harness
	for i, p := range l.roots {
		docs := map[string]string{}
		for _, f := range l.pkgs[i].Syntax {
			for _, d := range f.Decls {
				if fd, ok := d.(*ast.FuncDecl); ok && fd.Doc != nil {
					docs[fd.Name.Name] = fd.Doc.Text()
				}
			}
		}
		for n, m := range p.Members {
			fn, ok := m.(*ssa.Function)
			if !ok || !strings.HasPrefix(n, "H") || fn.Signature.Params().Len() != 0 || fn.Signature.Recv() != nil {
				continue
			}
			if len(n) < 2 || n[1] != '_' {
				continue
			}
			h := harness{fn: fn, name: n, doc: docs[n], opts: map[string]string{}}
			for _, ln := range strings.Split(docs[n], "\n") {
				ln = strings.TrimSpace(ln)
				if strings.HasPrefix(ln, "vrf:") {
					kv := strings.SplitN(ln[4:], "=", 2)
					if len(kv) == 2 {
						h.opts[kv[0]] = kv[1]
					} else {
						h.opts[kv[0]] = "1"
					}
				}
			}
			r = append(r, h)
		}
	}
	sort.Slice(r, func(i, j int) bool { return r[i].name < r[j].name })
	return r
}
