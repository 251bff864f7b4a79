package main

import (
	"bytes"
	"encoding/json"
	"fmt"
	"go/ast"
	"go/importer"
	"go/parser"
	"go/token"
	"go/types"
	"io"
	"os"
	"os/exec"
	"path/filepath"
	"strings"
)

// Package is the analysed package with its functions.
type Package struct {
	fset  *token.FileSet
	files []*ast.File
	info  *types.Info
	pkg   *types.Package
	funcs map[string]*ast.FuncDecl // "Name" or "Type.Name"
	objs  map[*types.Func]string
	deps  map[string]*types.Package
}

func loadPackage(repo, rel string) (*Package, error) {
	cmd := exec.Command("bash", "-c", ". /opt/vp/env.sh >/dev/null 2>&1; exec go list -export -deps -json=ImportPath,Export,GoFiles,Dir ./"+rel)
	cmd.Dir = repo
	var errb bytes.Buffer
	cmd.Stderr = &errb
	out, err := cmd.Output()
	if err != nil {
		return nil, fmt.Errorf("go list: %v\n%s", err, errb.String())
	}
	type lp struct {
		ImportPath, Export, Dir string
		GoFiles                 []string
	}
	exports := map[string]string{}
	var target lp
	dec := json.NewDecoder(bytes.NewReader(out))
	for {
		var p lp
		if err := dec.Decode(&p); err == io.EOF {
			break
		} else if err != nil {
			return nil, err
		}
		exports[p.ImportPath] = p.Export
		target = p
	}
	fset := token.NewFileSet()
	P := &Package{fset: fset, funcs: map[string]*ast.FuncDecl{}, objs: map[*types.Func]string{}}
	for _, f := range target.GoFiles {
		af, err := parser.ParseFile(fset, filepath.Join(target.Dir, f), nil, parser.ParseComments)
		if err != nil {
			return nil, err
		}
		P.files = append(P.files, af)
	}
	imp := importer.ForCompiler(fset, "gc", func(path string) (io.ReadCloser, error) {
		f, ok := exports[path]
		if !ok {
			return nil, fmt.Errorf("no export data for %s", path)
		}
		return os.Open(f)
	})
	P.info = &types.Info{Types: map[ast.Expr]types.TypeAndValue{}, Defs: map[*ast.Ident]types.Object{}, Uses: map[*ast.Ident]types.Object{},
		Selections: map[*ast.SelectorExpr]*types.Selection{}, Implicits: map[ast.Node]types.Object{}, Scopes: map[ast.Node]*types.Scope{}}
	conf := types.Config{Importer: imp}
	pkg, err := conf.Check(target.ImportPath, fset, P.files, P.info)
	if err != nil {
		return nil, err
	}
	P.pkg = pkg
	P.deps = map[string]*types.Package{}
	var walk func(p *types.Package)
	walk = func(p *types.Package) {
		if P.deps[p.Path()] != nil {
			return
		}
		P.deps[p.Path()] = p
		for _, i := range p.Imports() {
			walk(i)
		}
	}
	walk(pkg)
	for _, f := range P.files {
		for _, d := range f.Decls {
			if fd, ok := d.(*ast.FuncDecl); ok {
				obj := P.info.Defs[fd.Name].(*types.Func)
				n := funcKey(obj)
				P.funcs[n] = fd
				P.objs[obj] = n
			}
		}
	}
	return P, nil
}

func recvTypeName(t types.Type) string {
	if p, ok := t.(*types.Pointer); ok {
		t = p.Elem()
	}
	if a, ok := t.(*types.Alias); ok {
		t = types.Unalias(a)
	}
	if n, ok := t.(*types.Named); ok {
		return n.Obj().Name()
	}
	return t.String()
}

// funcKey names a function: Name, Type.Name for the analysed package; pkg.Name, pkg.Type.Name otherwise.
func funcKey(f *types.Func) string {
	n := f.Name()
	sig := f.Type().(*types.Signature)
	if r := sig.Recv(); r != nil {
		n = recvTypeName(r.Type()) + "." + n
	}
	if f.Pkg() != nil && !isTargetPkg(f.Pkg()) {
		n = f.Pkg().Name() + "." + n
	}
	return n
}

var targetPath string

func isTargetPkg(p *types.Package) bool {
	return strings.HasSuffix(p.Path(), "goselect/featselect")
}
