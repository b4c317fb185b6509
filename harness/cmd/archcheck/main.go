// Decides C28: every exported function links on every supported platform, and
// the whole exploration of the dsp packages holds when compiled for each
// architecture that can execute here.
package main

import (
	"bytes"
	"encoding/json"
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"os"
	"os/exec"
	"path/filepath"
	"regexp"
	"sort"
	"strings"
	"sync"

	"verif/harness/mc"
)

type platform struct{ os, arch string }

var platforms = []platform{{"linux", "amd64"}, {"linux", "386"}, {"linux", "arm"}, {"linux", "arm64"}, {"windows", "amd64"}}

const module = "github.com/samuel/go-dsp"

func repoDir() string {
	if s := os.Getenv("VERIF_REPO_DIR"); s != "" {
		return s
	}
	return "/repo"
}

func goCmd(p platform, args ...string) *exec.Cmd {
	c := exec.Command("go", args...)
	c.Dir = os.Getenv("VERIF_HARNESS")
	c.Env = append(os.Environ(), "GOOS="+p.os, "GOARCH="+p.arch, "CGO_ENABLED=0")
	return c
}

type listed struct {
	ImportPath, Name, Dir string
	GoFiles               []string
	DepsErrors            []struct{ Err string }
}

func packages(p platform) ([]listed, error) {
	c := goCmd(p, "list", "-e", "-deps=false", "-json=ImportPath,Name,Dir,GoFiles,DepsErrors", module+"/...")
	var eb bytes.Buffer
	c.Stderr = &eb
	out, err := c.Output()
	if err != nil {
		return nil, fmt.Errorf("go list: %v %s", err, eb.String())
	}
	var r []listed
	d := json.NewDecoder(bytes.NewReader(out))
	for d.More() {
		var l listed
		if err := d.Decode(&l); err != nil {
			return nil, err
		}
		if l.Name == "main" || l.Name == "" || strings.Contains(l.ImportPath, "/internal/") || len(l.GoFiles) == 0 {
			continue
		}
		r = append(r, l)
	}
	sort.Slice(r, func(i, j int) bool { return r[i].ImportPath < r[j].ImportPath })
	return r, nil
}

// exported lists expressions naming every exported function, method and variable.
func exported(l listed) (exprs []string, err error) {
	fset := token.NewFileSet()
	for _, f := range l.GoFiles {
		af, err := parser.ParseFile(fset, filepath.Join(l.Dir, f), nil, 0)
		if err != nil {
			return nil, err
		}
		for _, d := range af.Decls {
			switch d := d.(type) {
			case *ast.FuncDecl:
				if !d.Name.IsExported() || d.Type.TypeParams != nil {
					continue
				}
				if d.Recv == nil {
					exprs = append(exprs, l.Name+"."+d.Name.Name)
					continue
				}
				t := d.Recv.List[0].Type
				ptr := ""
				if s, ok := t.(*ast.StarExpr); ok {
					t, ptr = s.X, "*"
				}
				if id, ok := t.(*ast.Ident); ok && id.IsExported() {
					exprs = append(exprs, "("+ptr+l.Name+"."+id.Name+")."+d.Name.Name)
				}
			case *ast.GenDecl:
				if d.Tok != token.VAR {
					continue
				}
				for _, s := range d.Specs {
					for _, n := range s.(*ast.ValueSpec).Names {
						if n.IsExported() {
							exprs = append(exprs, "&"+l.Name+"."+n.Name)
						}
					}
				}
			}
		}
	}
	sort.Strings(exprs)
	return exprs, nil
}

var gobuild sync.Mutex

var reloc = regexp.MustCompile(`relocation target ([^ ]+) not defined`)

func link(c *mc.Ctx, p platform) error {
	dir, err := os.MkdirTemp("", "link")
	if err != nil {
		return err
	}
	defer os.RemoveAll(dir)
	return program(c, p, dir, nil)
}

// program builds dir/x, which uses everything exported.
func program(c *mc.Ctx, p platform, dir string, want func(importPath string) bool, args ...string) error {
	pk, err := packages(p)
	if err != nil {
		return err
	}
	if len(pk) < 3 {
		return fmt.Errorf("only %d packages found", len(pk))
	}
	var b strings.Builder
	b.WriteString("package main\n\nimport (\n")
	total := 0
	var body strings.Builder
	for _, l := range pk {
		if want != nil && !want(l.ImportPath) {
			continue
		}
		ex, err := exported(l)
		if err != nil {
			return mc.V("link:"+p.os+"/"+p.arch, "%s/%s: %v", p.os, p.arch, err)
		}
		if len(ex) == 0 {
			continue
		}
		fmt.Fprintf(&b, "\t%s %q\n", l.Name, l.ImportPath)
		for _, e := range ex {
			fmt.Fprintf(&body, "\t%s,\n", e)
		}
		total += len(ex)
		c.Sample("%s/%s: %s and %d more of %s", p.os, p.arch, ex[len(ex)-1], len(ex)-1, l.ImportPath)
	}
	b.WriteString(")\n\nvar Sink = []interface{}{\n" + body.String() + "}\n\nfunc main() {\n\tfor _, x := range Sink {\n\t\tprintln(x)\n\t}\n}\n")
	src := filepath.Join(dir, "main.go")
	if err := os.WriteFile(src, []byte(b.String()), 0o644); err != nil {
		return err
	}
	args = append(append([]string{"build"}, args...), "-o", filepath.Join(dir, "x"), src)
	out, err := goCmd(p, args...).CombinedOutput()
	c.Evals += int64(total)
	c.Nontrivial += int64(total)
	if err != nil {
		missing := map[string]bool{}
		for _, m := range reloc.FindAllStringSubmatch(string(out), -1) {
			missing[m[1]] = true
		}
		var ms []string
		for m := range missing {
			ms = append(ms, m)
		}
		sort.Strings(ms)
		msg := string(out)
		if len(msg) > 800 {
			msg = msg[:800]
		}
		return mc.V("link:"+p.os+"/"+p.arch, "a program using all %d exported functions does not build for %s/%s; undefined: %v\n%s", total, p.os, p.arch, ms, msg)
	}
	return nil
}

// rerun runs one check's exploration compiled for an architecture.
func rerun(c *mc.Ctx, arch, id string) error {
	prog := "dspcheck"
	switch {
	case id == "C16":
		prog = "dtmfcheck"
	case id >= "C17":
		prog = "ax25check"
	}
	bin := filepath.Join(os.Getenv("VERIF_ARCH_BINS"), prog+"-"+arch)
	if _, err := os.Stat(bin); err != nil && emulated[arch] != "" {
		c.Incomplete()
		c.Add("reruns_without_verdict", 1)
		return nil
	} else if err != nil {
		return mc.V("build:"+arch, "the packages link for %s but the exploration does not build: %v", arch, err)
	}
	cmd := exec.Command(bin, "-check", id)
	if emulated[arch] != "" {
		elf, err := image(arch)
		if err != nil {
			c.Incomplete()
			c.Add("reruns_without_verdict", 1)
			fmt.Fprintf(os.Stderr, "no %s image: %v\n", arch, err)
			return nil
		}
		cmd.Env = append(os.Environ(), "VERIF_EMU_ELF="+elf, "VERIF_NO_HUGE=1", "VERIF_TIER=quick")
		if os.Getenv("VERIF_TIER") == "thorough" {
			cmd.Env = append(cmd.Env, "VERIF_EMU_FULL=1")
		}
	} else if arch == "amd64" {
		// the thorough amd64 exploration is those checks themselves, and the
		// families of gigabyte slices are theirs alone
		cmd.Env = append(os.Environ(), "VERIF_TIER=quick", "VERIF_NO_HUGE=1")
	}
	return mc.Rerun(c, cmd, id, arch)
}

// Architectures whose assembly is executed by a processor model, with the
// address the program is linked for.
var emulated = map[string]string{"arm": "0x02010000", "arm64": "0x20010000"}

var (
	images   = map[string]string{}
	imageErr = map[string]error{}
)

// image builds the program whose code is executed.
func image(arch string) (string, error) {
	if err, ok := imageErr[arch]; ok {
		return images[arch], err
	}
	dir, err := os.MkdirTemp(os.Getenv("VERIF_ARCH_BINS"), "image")
	if err == nil {
		err = program(&mc.Ctx{}, platform{"linux", arch}, dir, func(p string) bool { return p == module+"/dsp" }, "-ldflags=-T "+emulated[arch])
	}
	images[arch], imageErr[arch] = filepath.Join(dir, "x"), err
	return images[arch], err
}

func families(t mc.Tier) []*mc.Family {
	ids := []string{"C01", "C02", "C03", "C04", "C05", "C06", "C07", "C08", "C09", "C10", "C11", "C12", "C13", "C14", "C15", "C16", "C17", "C18", "C19", "C20"}
	fs := []*mc.Family{{Name: "link", N: len(platforms), Chunk: 1, Run: func(c *mc.Ctx, i int) error { return link(c, platforms[i]) }}}
	for _, a := range []string{"arm64", "arm"} {
		fs = append(fs, &mc.Family{Name: "run " + a, N: 9, Serial: true, Run: func(c *mc.Ctx, i int) error { return rerun(c, a, ids[i]) }})
	}
	for _, a := range []string{"386", "amd64"} {
		fs = append(fs, &mc.Family{Name: "run " + a, N: len(ids), Serial: true, Run: func(c *mc.Ctx, i int) error { return rerun(c, a, ids[i]) }})
	}
	return fs
}

func main() {
	mc.Register(&mc.Check{ID: "C28", Level: "exploration",
		Rule:        "one evaluation is one exported function, method or variable linked for one platform, or one evaluation of the explorations of C01-C20 compiled for amd64 or 386 and executed here, or of those of C01-C09 compiled with the arm or arm64 sources, their assembly executed by an interpreter of the machine code. Non-trivial as those checks define it.",
		Assumptions: []string{"arm and arm64 machine code is executed by an interpreter (harness/armemu), not by a processor; the arithmetic of 32-bit Advanced SIMD is taken to keep denormals"},
		Families:    families})
	mc.Main()
}
