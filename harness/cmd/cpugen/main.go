// cpugen copies the files of a package as they are selected for a target, makes
// a program of them that runs here, and prints overlay entries for it: routines
// without a body are given one that calls fake_NAME, which the driver defines.
package main

import (
	"bytes"
	"flag"
	"fmt"
	"go/ast"
	"go/build"
	"go/format"
	"go/parser"
	"go/token"
	"os"
	"path/filepath"
	"strings"
)

func main() {
	dir := flag.String("dir", "", "package")
	out := flag.String("out", "", "directory for the copies")
	at := flag.String("at", "", "directory where the program appears")
	goos := flag.String("os", "linux", "")
	arch := flag.String("arch", "", "")
	only := flag.String("only", "", "copy only this file")
	imports := flag.String("imports", "", "old=new,...")
	drivers := flag.String("drivers", "", "files to add, separated by commas")
	as := flag.String("as", "", "fake_as converts results")
	flag.Parse()
	ctx := build.Default
	ctx.GOOS, ctx.GOARCH, ctx.CgoEnabled = *goos, *arch, false
	ctx.BuildTags = nil
	p, err := ctx.ImportDir(*dir, 0)
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(1)
	}
	os.MkdirAll(*out, 0o755)
	fset := token.NewFileSet()
	for i, name := range p.GoFiles {
		if *only != "" && name != *only {
			continue
		}
		f, err := parser.ParseFile(fset, filepath.Join(*dir, name), nil, 0)
		if err != nil {
			fmt.Fprintln(os.Stderr, err)
			os.Exit(1)
		}
		f.Name.Name = "main"
		for _, im := range f.Imports {
			for _, kv := range strings.Split(*imports, ",") {
				if a, b, ok := strings.Cut(kv, "="); ok && im.Path.Value == `"`+a+`"` {
					im.Path.Value = `"` + b + `"`
					if im.Name == nil {
						im.Name = ast.NewIdent(filepath.Base(a))
					}
				}
			}
		}
		for _, d := range f.Decls {
			fd, ok := d.(*ast.FuncDecl)
			if !ok || fd.Body != nil {
				continue
			}
			call := &ast.CallExpr{Fun: ast.NewIdent("fake_" + fd.Name.Name)}
			for _, a := range fd.Type.Params.List {
				for _, n := range a.Names {
					call.Args = append(call.Args, ast.NewIdent(n.Name))
				}
			}
			ret := ast.Expr(call)
			if r := fd.Type.Results; r != nil && len(r.List) == 1 && len(r.List[0].Names) < 2 {
				if _, plain := r.List[0].Type.(*ast.Ident); plain && *as != "" {
					ret = &ast.CallExpr{Fun: &ast.IndexExpr{X: ast.NewIdent("fake_as"), Index: r.List[0].Type}, Args: []ast.Expr{call}}
				}
			}
			fd.Body = &ast.BlockStmt{List: []ast.Stmt{&ast.ReturnStmt{Results: []ast.Expr{ret}}}}
			if fd.Type.Results == nil {
				fd.Body.List[0] = &ast.ExprStmt{X: call}
			}
		}
		var b bytes.Buffer
		b.WriteString("//go:build go1.21\n\n")
		if err := format.Node(&b, fset, f); err != nil {
			fmt.Fprintln(os.Stderr, err)
			os.Exit(1)
		}
		n := fmt.Sprintf("src%d.go", i)
		if err := os.WriteFile(filepath.Join(*out, n), b.Bytes(), 0o644); err != nil {
			fmt.Fprintln(os.Stderr, err)
			os.Exit(1)
		}
		fmt.Printf("%s/%s=%s/%s\n", *at, n, *out, n)
	}
	var ds []*ast.File
	own := map[string]bool{}
	for _, d := range strings.Split(*drivers, ",") {
		if d == "" {
			continue
		}
		f, err := parser.ParseFile(fset, d, nil, parser.ParseComments)
		if err != nil {
			fmt.Fprintln(os.Stderr, err)
			os.Exit(1)
		}
		for _, d := range f.Decls {
			switch d := d.(type) {
			case *ast.FuncDecl:
				if n := d.Name.Name; d.Recv == nil && n != "main" && n != "init" && !strings.HasPrefix(n, "fake_") {
					own[n] = true
				}
			case *ast.GenDecl:
				for _, sp := range d.Specs {
					switch sp := sp.(type) {
					case *ast.ValueSpec:
						for _, n := range sp.Names {
							own[n.Name] = true
						}
					case *ast.TypeSpec:
						own[sp.Name.Name] = true
					}
				}
			}
		}
		ds = append(ds, f)
	}
	// The names of the driver must not collide with those of the package.
	for i, f := range ds {
		keep := map[*ast.Ident]bool{}
		ast.Inspect(f, func(n ast.Node) bool {
			switch n := n.(type) {
			case *ast.SelectorExpr:
				keep[n.Sel] = true
			case *ast.FuncDecl:
				keep[n.Name] = n.Recv != nil
			case *ast.StructType:
				for _, fl := range n.Fields.List {
					for _, id := range fl.Names {
						keep[id] = true
					}
				}
			case *ast.Ident:
				if own[n.Name] && !keep[n] {
					n.Name = "verif_" + n.Name
				}
			}
			return true
		})
		var b bytes.Buffer
		if err := format.Node(&b, fset, f); err != nil {
			fmt.Fprintln(os.Stderr, err)
			os.Exit(1)
		}
		n := fmt.Sprintf("driver%d.go", i)
		if err := os.WriteFile(filepath.Join(*out, n), b.Bytes(), 0o644); err != nil {
			fmt.Fprintln(os.Stderr, err)
			os.Exit(1)
		}
		fmt.Printf("%s/%s=%s/%s\n", *at, n, *out, n)
	}
}
