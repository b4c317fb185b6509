// emugen prints overlay entries (PATH=SOURCE) under which package dsp is
// compiled for the host with the source files of another architecture, its
// assembly routines being executed by verif/harness/armemu.
package main

import (
	"bytes"
	"flag"
	"fmt"
	"go/ast"
	"go/build"
	"go/parser"
	"go/printer"
	"go/token"
	"log"
	"os"
	"path/filepath"
	"sort"
	"strings"
)

var (
	dir  = flag.String("dir", "", "package directory")
	out  = flag.String("out", "", "directory for rewritten sources")
	arch = flag.String("arch", "", "architecture whose sources are taken")
	host = flag.String("host", "", "architecture compiled for")
)

func matches(ctx *build.Context, name string) bool {
	ok, err := ctx.MatchFile(*dir, name)
	return err == nil && ok
}

func main() {
	flag.Parse()
	log.SetFlags(0)
	tc, hc := build.Default, build.Default
	tc.GOOS, tc.GOARCH, tc.CgoEnabled = "linux", *arch, false
	hc.GOOS, hc.GOARCH, hc.CgoEnabled = "linux", *host, false
	es, err := os.ReadDir(*dir)
	if err != nil {
		log.Fatal(err)
	}
	if err := os.MkdirAll(*out, 0o755); err != nil {
		log.Fatal(err)
	}
	var names []string
	for _, e := range es {
		names = append(names, e.Name())
	}
	sort.Strings(names)
	for _, n := range names {
		p := filepath.Join(*dir, n)
		switch {
		case strings.HasSuffix(n, ".s"):
			if matches(&hc, n) {
				fmt.Printf("%s=\n", p)
			}
		case strings.HasSuffix(n, "_test.go") || !strings.HasSuffix(n, ".go"):
		case matches(&tc, n):
			src, changed, err := rewrite(p)
			if err != nil {
				log.Fatal(err)
			}
			onHost := matches(&hc, n)
			if onHost && !changed {
				continue
			}
			o := filepath.Join(*out, n)
			key := p
			if !onHost {
				key = filepath.Join(*dir, "emu"+strings.ReplaceAll(strings.TrimSuffix(n, ".go"), "_", "")+".go")
				src = unconstrained(src)
				o = filepath.Join(*out, filepath.Base(key))
			}
			if err := os.WriteFile(o, src, 0o644); err != nil {
				log.Fatal(err)
			}
			fmt.Printf("%s=%s\n", key, o)
		case matches(&hc, n):
			fmt.Printf("%s=\n", p)
		}
	}
}

// unconstrained drops build constraints.
func unconstrained(src []byte) []byte {
	var b bytes.Buffer
	pkg := false
	for _, l := range strings.SplitAfter(string(src), "\n") {
		pkg = pkg || strings.HasPrefix(l, "package ")
		if !pkg && (strings.HasPrefix(l, "//go:build") || strings.HasPrefix(l, "// +build")) {
			continue
		}
		b.WriteString(l)
	}
	return b.Bytes()
}

// rewrite gives functions without a body one that calls the emulator.
func rewrite(path string) ([]byte, bool, error) {
	fset := token.NewFileSet()
	src, err := os.ReadFile(path)
	if err != nil {
		return nil, false, err
	}
	f, err := parser.ParseFile(fset, path, src, parser.ParseComments)
	if err != nil {
		return nil, false, err
	}
	type edit struct {
		from, to int
		text     string
	}
	var edits []edit
	off := func(p token.Pos) int { return fset.Position(p).Offset }
	for _, d := range f.Decls {
		fd, ok := d.(*ast.FuncDecl)
		if !ok || fd.Body != nil || fd.Recv != nil {
			continue
		}
		text, err := function(fset, fd)
		if err != nil {
			return nil, false, fmt.Errorf("%s: %v", fset.Position(fd.Pos()), err)
		}
		from := off(fd.Pos())
		if fd.Doc != nil {
			for _, c := range fd.Doc.List {
				if strings.HasPrefix(c.Text, "//go:") {
					edits = append(edits, edit{off(c.Pos()), off(c.End()), ""})
				}
			}
		}
		edits = append(edits, edit{from, off(fd.End()), text})
	}
	if len(edits) == 0 {
		return src, false, nil
	}
	var b bytes.Buffer
	at := 0
	sort.Slice(edits, func(i, j int) bool { return edits[i].from < edits[j].from })
	nameEnd := off(f.Name.End())
	b.Write(src[:nameEnd])
	b.WriteString("; import verifemu \"verif/harness/armemu\"; import verifunsafe \"unsafe\"")
	at = nameEnd
	for _, e := range edits {
		b.Write(src[at:e.from])
		b.WriteString(e.text)
		at = e.to
	}
	b.Write(src[at:])
	return b.Bytes(), true, nil
}

func function(fset *token.FileSet, fd *ast.FuncDecl) (string, error) {
	show := func(n ast.Node) string {
		var b bytes.Buffer
		printer.Fprint(&b, fset, n)
		return b.String()
	}
	var params, fields, vals, results, rets []string
	k := 0
	for _, p := range fd.Type.Params.List {
		t := show(p.Type)
		n := len(p.Names)
		if n == 0 {
			n = 1
		}
		for j := 0; j < n; j++ {
			params = append(params, fmt.Sprintf("a%d %s", k, t))
			fields = append(fields, fmt.Sprintf("a%d %s", k, t))
			vals = append(vals, fmt.Sprintf("f.a%d = a%d", k, k))
			k++
		}
	}
	fields = append(fields, "_ [0]uintptr")
	k = 0
	if fd.Type.Results != nil {
		for _, p := range fd.Type.Results.List {
			t := show(p.Type)
			n := len(p.Names)
			if n == 0 {
				n = 1
			}
			for j := 0; j < n; j++ {
				fields = append(fields, fmt.Sprintf("r%d %s", k, t))
				results = append(results, t)
				rets = append(rets, fmt.Sprintf("f.r%d", k))
				k++
			}
		}
	}
	r := fmt.Sprintf("func %s(%s) (%s) { var f struct { %s }; %s; verifemu.Call(%q, verifunsafe.Pointer(&f), verifunsafe.Sizeof(f))",
		fd.Name.Name, strings.Join(params, ", "), strings.Join(results, ", "), strings.Join(fields, "; "), strings.Join(vals, "; "), fd.Name.Name)
	if len(rets) > 0 {
		r += "; return " + strings.Join(rets, ", ")
	}
	return r + " }", nil
}
