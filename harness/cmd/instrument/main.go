// instrument rewrites the Go files of one package directory (as selected for the
// target platform) into an output directory: imports are redirected, a
// scheduling point is inserted before every statement, init functions become
// callable again and package variables resettable. The text is otherwise left
// alone. It prints the overlay entries.
package main

import (
	"bytes"
	"flag"
	"fmt"
	"go/ast"
	"go/build"
	"go/parser"
	"go/token"
	"go/types"
	"os"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
)

type edit struct {
	off  int
	del  int
	text string
	ord  int
}

func main() {
	dir := flag.String("dir", "", "package directory")
	out := flag.String("out", "", "output directory")
	imports := flag.String("imports", "", "from=to,... import redirections")
	gateMode := flag.String("gates", "", "insert scheduling points: all (every statement) or sync (statements with channel operations or go)")
	reset := flag.Bool("reset", false, "make init functions and variables resettable")
	mainName := flag.String("main", "", "rename func main")
	flag.Parse()
	redir := map[string]string{}
	for _, kv := range strings.Split(*imports, ",") {
		if k, v, ok := strings.Cut(kv, "="); ok {
			redir[k] = v
		}
	}
	ents, err := os.ReadDir(*dir)
	check(err)
	ctx := build.Default
	gates := new(bool)
	*gates = *gateMode != ""
	var pkg string
	maps := mapRanges(*dir, &ctx)
	inits, files, nmap := 0, 0, 0
	var resets []string
	os.MkdirAll(*out, 0o755)
	for _, e := range ents {
		name := e.Name()
		if !strings.HasSuffix(name, ".go") || strings.HasSuffix(name, "_test.go") {
			continue
		}
		if ok, err := ctx.MatchFile(*dir, name); err != nil || !ok {
			continue
		}
		path := filepath.Join(*dir, name)
		src, err := os.ReadFile(path)
		check(err)
		fset := token.NewFileSet()
		f, err := parser.ParseFile(fset, path, src, parser.ParseComments)
		check(err)
		if pkg == "" {
			pkg = f.Name.Name
		}
		var eds []edit
		off := func(p token.Pos) int { return fset.Position(p).Offset }
		add := func(o, del int, text string) { eds = append(eds, edit{o, del, text, len(eds)}) }
		if *gates {
			add(off(f.Name.End()), 0, `; import vgatep "verif/harness/gate"`)
		}
		for _, im := range f.Imports {
			p, _ := strconv.Unquote(im.Path.Value)
			to, ok := redir[p]
			if !ok {
				continue
			}
			text := strconv.Quote(to)
			if im.Name == nil {
				text = filepath.Base(p) + " " + text
			}
			add(off(im.Path.Pos()), len(im.Path.Value), text)
		}
		stmts := func(list []ast.Stmt) {
			for _, s := range list {
				switch s.(type) {
				case *ast.CaseClause, *ast.CommClause, *ast.EmptyStmt:
					continue
				}
				if *gateMode == "all" || syncs(s) {
					add(off(s.Pos()), 0, "vgatep.P(); ")
				}
			}
		}
		if *gates {
			for _, d := range f.Decls {
				fd, ok := d.(*ast.FuncDecl)
				if !ok {
					continue
				}
				if fd.Body == nil || fd.Name.Name == "init" && fd.Recv == nil {
					continue
				}
				labelled := map[ast.Stmt]bool{}
				ast.Inspect(fd.Body, func(n ast.Node) bool {
					switch n := n.(type) {
					case *ast.LabeledStmt:
						labelled[n.Stmt] = true
					case *ast.RangeStmt:
						m, ok := maps[name+":"+strconv.Itoa(off(n.Pos()))]
						if !ok || labelled[n] {
							break
						}
						// Iterate in an order the explorer chooses.
						nmap++
						k, v := fmt.Sprintf("verifK%d", nmap), fmt.Sprintf("verifV%d", nmap)
						x := string(src[off(n.X.Pos()):off(n.X.End())])
						var decl, set string
						for i, e := range []ast.Expr{n.Key, n.Value} {
							if e == nil {
								continue
							}
							id := string(src[off(e.Pos()):off(e.End())])
							if id == "_" {
								continue
							}
							if n.Tok == token.DEFINE {
								decl += fmt.Sprintf("var %s %s; ", id, []string{m.key, m.val}[i])
							}
							set += fmt.Sprintf("%s = %s; ", id, []string{k + ".(" + m.key + ")", v}[i])
						}
						add(off(n.Pos()), 0, "{ "+decl)
						add(off(n.For)+3, off(n.Body.Lbrace)-off(n.For)-3, fmt.Sprintf(" _, %s := range vgatep.Keys(%s) ", k, x))
						add(off(n.Body.Lbrace)+1, 0, fmt.Sprintf(" %s, verifOK := %s[%s.(%s)]; _ = %s; if !verifOK { continue }; %s", v, x, k, m.key, v, set))
						add(off(n.End()), 0, " }")
					case *ast.BlockStmt:
						stmts(n.List)
					case *ast.CaseClause:
						stmts(n.Body)
					case *ast.CommClause:
						stmts(n.Body)
					}
					return true
				})
			}
		}
		// tail holds what is appended to the file.
		var tail, snaps strings.Builder
		files++
		fmt.Fprintf(&tail, "\n\nfunc verifResetFile%d() {\n", files)
		for _, d := range f.Decls {
			switch d := d.(type) {
			case *ast.FuncDecl:
				if d.Recv == nil && d.Name.Name == "init" && *reset {
					inits++
					add(off(d.Name.Pos()), 4, fmt.Sprintf("verifInit%d", inits))
					resets = append(resets, fmt.Sprintf("verifInit%d", inits))
				}
				if d.Recv == nil && d.Name.Name == "main" && *mainName != "" {
					add(off(d.Name.Pos()), 4, *mainName)
				}
			case *ast.GenDecl:
				if d.Tok == token.VAR {
					for _, s := range d.Specs {
						vs := s.(*ast.ValueSpec)
						for i, n := range vs.Names {
							if n.Name == "_" {
								continue
							}
							// Initialisers that compute something are evaluated again.
							if len(vs.Values) == len(vs.Names) && computes(vs.Values[i]) {
								fmt.Fprintf(&tail, "\t%s = %s\n", n.Name, src[off(vs.Values[i].Pos()):off(vs.Values[i].End())])
								continue
							}
							fmt.Fprintf(&snaps, "var verifSnap_%s = %s\n", n.Name, n.Name)
							fmt.Fprintf(&tail, "\t%s = verifSnap_%s\n", n.Name, n.Name)
						}
					}
				}
			}
		}
		sort.Slice(eds, func(i, j int) bool {
			if eds[i].off != eds[j].off {
				return eds[i].off < eds[j].off
			}
			return eds[i].ord < eds[j].ord
		})
		var b bytes.Buffer
		last := 0
		for _, e := range eds {
			b.Write(src[last:e.off])
			b.WriteString(e.text)
			last = e.off + e.del
		}
		b.Write(src[last:])
		if *gates {
			b.WriteString("\n\nvar _ = vgatep.P\n")
		}
		if *reset {
			b.WriteString(tail.String() + "}\n\n" + snaps.String())
		}
		o := filepath.Join(*out, name)
		check(os.WriteFile(o, b.Bytes(), 0o644))
		fmt.Printf("%s=%s\n", path, o)
	}
	if *reset {
		var b strings.Builder
		fmt.Fprintf(&b, "package %s\n\n// verifReset puts the package back into its state at program start.\nfunc verifReset() {\n", pkg)
		for i := 1; i <= files; i++ {
			fmt.Fprintf(&b, "\tverifResetFile%d()\n", i)
		}
		for _, r := range resets {
			fmt.Fprintf(&b, "\t%s()\n", r)
		}
		b.WriteString("}\n\n// VerifReset is for helpers outside the package.\nfunc VerifReset() { verifReset() }\n")
		o := filepath.Join(*out, "verif_reset.go")
		check(os.WriteFile(o, []byte(b.String()), 0o644))
		fmt.Printf("%s=%s\n", filepath.Join(*dir, "verif_reset.go"), o)
	}
}

// syncs tells whether the statement itself (not the blocks inside) synchronises.
func syncs(s ast.Stmt) bool {
	if _, ok := s.(*ast.SelectStmt); ok {
		return true
	}
	r := false
	ast.Inspect(s, func(n ast.Node) bool {
		switch n := n.(type) {
		case *ast.BlockStmt, *ast.FuncLit:
			return false
		case *ast.SendStmt, *ast.GoStmt, *ast.SelectStmt:
			r = true
		case *ast.UnaryExpr:
			r = r || n.Op == token.ARROW
		case *ast.CallExpr:
			if id, ok := n.Fun.(*ast.Ident); ok && id.Name == "close" {
				r = true
			}
		}
		return true
	})
	return r
}

type mapType struct{ key, val string }

type noImports struct{}

func (noImports) Import(path string) (*types.Package, error) {
	p := types.NewPackage(path, filepath.Base(path))
	p.MarkComplete()
	return p, nil
}

// mapRanges finds the range statements over maps ("file:offset"), as far as the
// package's own declarations tell.
func mapRanges(dir string, ctx *build.Context) map[string]mapType {
	fset := token.NewFileSet()
	var files []*ast.File
	ents, _ := os.ReadDir(dir)
	for _, e := range ents {
		if !strings.HasSuffix(e.Name(), ".go") || strings.HasSuffix(e.Name(), "_test.go") {
			continue
		}
		if ok, err := ctx.MatchFile(dir, e.Name()); err != nil || !ok {
			continue
		}
		if f, err := parser.ParseFile(fset, filepath.Join(dir, e.Name()), nil, 0); err == nil {
			files = append(files, f)
		}
	}
	info := &types.Info{Types: map[ast.Expr]types.TypeAndValue{}}
	cfg := types.Config{Error: func(error) {}, Importer: noImports{}, FakeImportC: true}
	pkg, _ := cfg.Check("p", fset, files, info)
	r := map[string]mapType{}
	for _, f := range files {
		ast.Inspect(f, func(n ast.Node) bool {
			rs, ok := n.(*ast.RangeStmt)
			if !ok {
				return true
			}
			switch rs.X.(type) {
			case *ast.Ident, *ast.SelectorExpr:
			default:
				return true
			}
			tv, ok := info.Types[rs.X]
			if !ok || tv.Type == nil {
				return true
			}
			m, ok := tv.Type.Underlying().(*types.Map)
			if !ok {
				return true
			}
			q := func(p *types.Package) string {
				if p == pkg {
					return ""
				}
				return p.Name()
			}
			mt := mapType{types.TypeString(m.Key(), q), types.TypeString(m.Elem(), q)}
			if strings.Contains(mt.key+mt.val, "invalid type") {
				return true
			}
			pos := fset.Position(rs.Pos())
			r[filepath.Base(pos.Filename)+":"+strconv.Itoa(pos.Offset)] = mt
			return true
		})
	}
	return r
}

// computes tells whether an initialiser calls something of the package or makes
// data that a run may change; calls into flag, errors, regexp, fmt are not repeated.
func computes(e ast.Expr) bool {
	r := false
	ast.Inspect(e, func(n ast.Node) bool {
		switch n := n.(type) {
		case *ast.CompositeLit:
			r = true
		case *ast.CallExpr:
			if s, ok := n.Fun.(*ast.SelectorExpr); ok {
				if id, ok := s.X.(*ast.Ident); ok {
					switch id.Name {
					case "flag", "errors", "regexp", "fmt":
						return false
					}
				}
			}
			r = true
		}
		return true
	})
	return r
}

func check(err error) {
	if err != nil {
		fmt.Fprintln(os.Stderr, "instrument:", err)
		os.Exit(1)
	}
}
