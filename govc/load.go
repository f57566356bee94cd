package main

// Loading and type-checking of /repo's current source with the standard
// library only: dependencies are imported from the export data that
// `go list -export` leaves in the build cache, the packages under
// verification are type-checked from source.

import (
	"bytes"
	"encoding/json"
	"fmt"
	"go/ast"
	"go/importer"
	"go/parser"
	"go/token"
	"go/types"
	"io"
	"os"
	"os/exec"
	"path/filepath"
	"strings"
)

type Pkg struct {
	Path, Dir string
	Files     []*ast.File
	Types     *types.Package
	Info      *types.Info
}

type World struct {
	fset *token.FileSet
	pkgs map[string]*Pkg // by import path
	repo string
}

type listPkg struct {
	ImportPath, Dir, Export string
	GoFiles                 []string
	Standard                bool
}

func goTool() string {
	for _, p := range []string{"/opt/veriftools/go1.27.3/bin/go"} {
		if _, err := os.Stat(p); err == nil {
			return p
		}
	}
	return "go"
}

func goEnv() []string {
	return append(os.Environ(), "GOFLAGS=-mod=mod", "GOTOOLCHAIN=local", "GOPROXY=off", "GOWORK=off")
}

func loadWorld(repo string, paths []string) (*World, error) {
	args := append([]string{"list", "-export", "-deps", "-json=ImportPath,Dir,Export,GoFiles,Standard"}, paths...)
	cmd := exec.Command(goTool(), args...)
	cmd.Dir = repo
	cmd.Env = goEnv()
	var errb bytes.Buffer
	cmd.Stderr = &errb
	out, err := cmd.Output()
	if err != nil {
		return nil, fmt.Errorf("go list: %v: %s", err, errb.String())
	}
	var order []listPkg
	exports := map[string]string{}
	dec := json.NewDecoder(bytes.NewReader(out))
	for {
		var lp listPkg
		if err := dec.Decode(&lp); err == io.EOF {
			break
		} else if err != nil {
			return nil, err
		}
		exports[lp.ImportPath] = lp.Export
		order = append(order, lp)
	}
	w := &World{fset: token.NewFileSet(), pkgs: map[string]*Pkg{}, repo: repo}
	gc := importer.ForCompiler(w.fset, "gc", func(path string) (io.ReadCloser, error) {
		f, ok := exports[path]
		if !ok || f == "" {
			return nil, fmt.Errorf("no export data for %s", path)
		}
		return os.Open(f)
	})
	imp := importerFunc(func(path string) (*types.Package, error) {
		if p, ok := w.pkgs[path]; ok {
			return p.Types, nil
		}
		return gc.Import(path)
	})
	for _, lp := range order {
		if lp.Standard || !strings.HasPrefix(lp.ImportPath, "github.com/CAU-CPSS/logument") {
			continue
		}
		p := &Pkg{Path: lp.ImportPath, Dir: lp.Dir}
		for _, f := range lp.GoFiles {
			af, err := parser.ParseFile(w.fset, filepath.Join(lp.Dir, f), nil, parser.ParseComments|parser.SkipObjectResolution)
			if err != nil {
				return nil, err
			}
			p.Files = append(p.Files, af)
		}
		p.Info = &types.Info{
			Types: map[ast.Expr]types.TypeAndValue{}, Defs: map[*ast.Ident]types.Object{},
			Uses: map[*ast.Ident]types.Object{}, Selections: map[*ast.SelectorExpr]*types.Selection{},
			Implicits: map[ast.Node]types.Object{}, Instances: map[*ast.Ident]types.Instance{},
			Scopes: map[ast.Node]*types.Scope{},
		}
		conf := types.Config{Importer: imp}
		tp, err := conf.Check(lp.ImportPath, w.fset, p.Files, p.Info)
		if err != nil {
			return nil, fmt.Errorf("type check %s: %v", lp.ImportPath, err)
		}
		p.Types = tp
		w.pkgs[lp.ImportPath] = p
	}
	return w, nil
}

type importerFunc func(string) (*types.Package, error)

func (f importerFunc) Import(p string) (*types.Package, error) { return f(p) }
