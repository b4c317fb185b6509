//go:build go1.21

// Explorer for the processor feature detection: every option string within the
// bounds on the real processor, in this process and (a part of them) in fresh
// processes, for amd64 and 386; and every combination of identification
// registers on a simulated processor.
package main

import (
	"encoding/json"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"reflect"
	"runtime"
	"sort"
	"strings"
	"sync/atomic"
	"syscall"
	"unsafe"

	"github.com/samuel/go-dsp/dsp/internal/cpu"
	"verif/harness/cpuid"
	"verif/harness/mc"
)

// regs is a processor as its identification instructions show it.
type regs struct {
	maxID, ecx1, edx1, ebx7, xcr0 uint32
	maxExt                        uint32
	brand                         [48]byte
	illegal                       string
}

func (r *regs) cpuid(a, c uint32) (uint32, uint32, uint32, uint32) {
	switch {
	case a == 0:
		return r.maxID, 0x756e6547, 0x6c65746e, 0x49656e69
	case a == 1 && r.maxID >= 1:
		return 0x000506e3, 0x00100800, r.ecx1, r.edx1
	case a == 7 && c == 0 && r.maxID >= 7:
		return 0, r.ebx7, ^r.ebx7, ^r.ebx7
	case a == 0x80000000:
		return r.maxExt, 0, 0, 0
	case a >= 0x80000002 && a <= 0x80000004 && r.maxExt >= a:
		k := int(a-0x80000002) * 16
		w := func(o int) uint32 {
			return uint32(r.brand[k+o]) | uint32(r.brand[k+o+1])<<8 | uint32(r.brand[k+o+2])<<16 | uint32(r.brand[k+o+3])<<24
		}
		return w(0), w(4), w(8), w(12)
	}
	return ^uint32(0), ^uint32(0), ^uint32(0), ^uint32(0)
}

func (r *regs) xgetbv() (uint32, uint32) {
	if r.ecx1>>27&1 == 0 {
		r.illegal = "XGETBV executed although the operating system did not enable it (illegal instruction)"
	}
	return r.xcr0, 0
}

// name of the struct field, name of the option ("" = none)
type feat struct{ field, opt string }

var feats = []feat{
	{"HasAES", "aes"}, {"HasADX", "adx"}, {"HasAVX", "avx"}, {"HasAVX2", "avx2"}, {"HasBMI1", "bmi1"},
	{"HasBMI2", "bmi2"}, {"HasERMS", "erms"}, {"HasFMA", "fma"}, {"HasOSXSAVE", ""}, {"HasPCLMULQDQ", "pclmulqdq"},
	{"HasPOPCNT", "popcnt"}, {"HasSSE2", "sse2"}, {"HasSSE3", "sse3"}, {"HasSSSE3", "ssse3"}, {"HasSSE41", "sse41"}, {"HasSSE42", "sse42"},
}

const nf = 16

type set uint32

var featPtr [nf]*bool

func init() {
	v := reflect.ValueOf(&cpu.X86).Elem()
	for i, f := range feats {
		fv := v.FieldByName(f.field)
		if fv.IsValid() && fv.Kind() == reflect.Bool {
			featPtr[i] = (*bool)(unsafe.Pointer(fv.Addr().Pointer()))
		}
	}
}

// The sixteen flags are read through the exported variable.
func read() set {
	var s set
	for i, p := range featPtr {
		if p != nil && *p {
			s |= 1 << i
		}
	}
	return s
}

func clear() {
	for _, p := range featPtr {
		if p != nil {
			*p = false
		}
	}
}

func (s set) String() string {
	var o []string
	for i, f := range feats {
		if s>>i&1 == 1 {
			o = append(o, f.field[3:])
		}
	}
	return "{" + strings.Join(o, " ") + "}"
}

func fidx(field string) int {
	for i, f := range feats {
		if f.field == field {
			return i
		}
	}
	panic(field)
}

var bitsOf = func() (b struct{ aes, adx, avx, avx2, bmi1, bmi2, erms, fma, osx, pcl, pop, sse2, sse3, ssse3, sse41, sse42 set }) {
	g := func(n string) set { return 1 << fidx("Has"+n) }
	b.aes, b.adx, b.avx, b.avx2, b.bmi1, b.bmi2, b.erms, b.fma = g("AES"), g("ADX"), g("AVX"), g("AVX2"), g("BMI1"), g("BMI2"), g("ERMS"), g("FMA")
	b.osx, b.pcl, b.pop, b.sse2, b.sse3, b.ssse3, b.sse41, b.sse42 = g("OSXSAVE"), g("PCLMULQDQ"), g("POPCNT"), g("SSE2"), g("SSE3"), g("SSSE3"), g("SSE41"), g("SSE42")
	return
}()

// has is the architecture manuals' definition of each feature.
func (r *regs) has() set {
	var s set
	bit := func(w uint32, n uint, f set) {
		if w>>n&1 == 1 {
			s |= f
		}
	}
	if r.maxID < 1 {
		return 0
	}
	b := &bitsOf
	bit(r.edx1, 26, b.sse2)
	bit(r.ecx1, 0, b.sse3)
	bit(r.ecx1, 1, b.pcl)
	bit(r.ecx1, 9, b.ssse3)
	bit(r.ecx1, 19, b.sse41)
	bit(r.ecx1, 20, b.sse42)
	bit(r.ecx1, 23, b.pop)
	bit(r.ecx1, 25, b.aes)
	bit(r.ecx1, 27, b.osx)
	ymm := false
	if s&b.osx != 0 {
		bit(r.ecx1, 12, b.fma)
		ymm = r.xcr0&6 == 6
	}
	if ymm {
		bit(r.ecx1, 28, b.avx)
	}
	if r.maxID >= 7 {
		bit(r.ebx7, 3, b.bmi1)
		bit(r.ebx7, 8, b.bmi2)
		bit(r.ebx7, 9, b.erms)
		bit(r.ebx7, 19, b.adx)
		if ymm {
			bit(r.ebx7, 5, b.avx2)
		}
	}
	return s
}

func (r *regs) name() string {
	if r.maxExt < 0x80000004 {
		return ""
	}
	s := string(r.brand[:])
	s = strings.TrimLeft(s, " ")
	if k := strings.IndexByte(s, 0); k >= 0 {
		s = s[:k]
	}
	return s
}

var realRegs = func() regs {
	var r regs
	r.maxID, _, _, _ = cpuid.CPUID(0, 0)
	if r.maxID >= 1 {
		_, _, r.ecx1, r.edx1 = cpuid.CPUID(1, 0)
	}
	if r.maxID >= 7 {
		_, r.ebx7, _, _ = cpuid.CPUID(7, 0)
	}
	if r.ecx1>>27&1 == 1 {
		r.xcr0, _ = cpuid.XGETBV0()
	}
	r.maxExt, _, _, _ = cpuid.CPUID(0x80000000, 0)
	if r.maxExt >= 0x80000004 {
		for k := 0; k < 3; k++ {
			a, b, c, d := cpuid.CPUID(0x80000002+uint32(k), 0)
			for j, w := range []uint32{a, b, c, d} {
				for m := 0; m < 4; m++ {
					r.brand[k*16+j*4+m] = byte(w >> (8 * m))
				}
			}
		}
	}
	return r
}()

// apply is the reference for the option string: the last well-formed entry
// naming a feature (or all) decides; off removes the feature unless it is
// required; on adds nothing.
func apply(has set, env string, required set) set {
	off := set(0)
	for _, f := range strings.Split(env, ",") {
		rest, ok := strings.CutPrefix(f, "cpu.")
		if !ok {
			continue
		}
		key, val, ok := strings.Cut(rest, "=")
		if !ok || (val != "on" && val != "off") {
			continue
		}
		for i, ft := range feats {
			if ft.opt != "" && (ft.opt == key || key == "all") {
				if val == "off" {
					off |= 1 << i
				} else {
					off &^= 1 << i
				}
			}
		}
	}
	return has &^ (off &^ required)
}

func required() set {
	if runtime.GOARCH == "amd64" {
		return bitsOf.sse2
	}
	return 0
}

// fresh runs one option string in a fresh process.
func fresh(env string) (set, error) {
	exe, _ := os.Executable()
	cmd := exec.Command(exe, "-probe")
	cmd.Env = append(os.Environ(), "VERIF_PROBE="+env)
	b, err := cmd.Output()
	if err != nil {
		return 0, fmt.Errorf("process with options %q failed: %v", env, err)
	}
	var s set
	_, err = fmt.Sscan(string(b), (*uint32)(&s))
	return s, err
}

var forceFresh atomic.Bool

func checkEnv(c *mc.Ctx, env string, useFresh bool) error {
	want := apply(realRegs.has(), env, required())
	c.Evals++
	c.Transitions++
	if want != realRegs.has() {
		c.Nontrivial++
	}
	if !useFresh && !forceFresh.Load() {
		cpu.Initialize(env)
		if read() == want {
			return nil
		}
	}
	got, err := fresh(env)
	c.Add("fresh_processes", 1)
	if err != nil {
		return err
	}
	if got == want {
		if !useFresh {
			// Only differs when the package is initialised repeatedly: not what users do.
			forceFresh.Store(true)
		}
		return nil
	}
	return mc.V("options", "%s, options %q: reported %v, expected %v (processor has %v)", runtime.GOARCH, env, got, want, realRegs.has())
}

func entries() []string {
	var e []string
	for _, f := range feats {
		n := f.opt
		if n == "" {
			n = "osxsave"
		}
		e = append(e, "cpu."+n+"=on", "cpu."+n+"=off")
	}
	return append(e, "cpu.all=on", "cpu.all=off",
		"", "cpu.", "cpu", "cpu.=", "cpu.=off", "cpu.avx", "cpu.avx=", "cpu.avx=OFF", "cpu.AVX=off", "cpu.avx=offf", "cpu.avx=of", "cpu.avx=off=on",
		"cpu.avx=on=off", "cpu.sse=off", "cpu.sse4=off", "cpu.al=off", "cpu.alll=off", "cpux.avx=off", "xcpu.avx=off", "gctrace=1", "=off", " cpu.avx=off", "cpu.avx =off", "cpu.avx= off", "cpu.avx2x=off", "all=off")
}

func quietStderr() func() {
	save, err := syscall.Dup(2)
	if err != nil {
		return func() {}
	}
	n, err := os.OpenFile("/dev/null", os.O_WRONLY, 0)
	if err != nil {
		return func() {}
	}
	syscall.Dup3(int(n.Fd()), 2, 0)
	n.Close()
	return func() { syscall.Dup3(save, 2, 0); syscall.Close(save) }
}

func seqFamily(name string, es []string, depth int, useFresh bool) *mc.Family {
	total, pow := 0, 1
	for d := 0; d <= depth; d++ {
		total += pow
		pow *= len(es)
	}
	const per = 64
	return &mc.Family{Name: name, N: (total + per - 1) / per, Serial: !useFresh, Run: func(c *mc.Ctx, i int) error {
		if !useFresh {
			defer quietStderr()()
		}
		for k := i * per; k < (i+1)*per && k < total; k++ {
			x, n, d := k, 1, 0
			for x >= n {
				x -= n
				n *= len(es)
				d++
			}
			p := make([]string, d)
			for j := range p {
				p[j] = es[x%len(es)]
				x /= len(es)
			}
			env := strings.Join(p, ",")
			if c.WantSample() && d == depth {
				c.Sample("%q", env)
			}
			if err := checkEnv(c, env, useFresh); err != nil {
				return err
			}
		}
		return nil
	}}
}

// all strings of a length over an alphabet of characters, as they are and after a prefix
func stringFamily(prefixes []string, alpha string, maxLen int) *mc.Family {
	return &mc.Family{Name: "character strings", N: len(prefixes) * len(alpha), Serial: true, Run: func(c *mc.Ctx, i int) error {
		defer quietStderr()()
		pre := prefixes[i/len(alpha)]
		buf := []byte{alpha[i%len(alpha)]}
		var rec func() error
		rec = func() error {
			if err := checkEnv(c, pre+string(buf), false); err != nil {
				return err
			}
			if len(buf) == maxLen {
				return nil
			}
			for k := 0; k < len(alpha); k++ {
				buf = append(buf, alpha[k])
				if err := rec(); err != nil {
					return err
				}
				buf = buf[:len(buf)-1]
			}
			return nil
		}
		return rec()
	}}
}

type auxResult struct {
	Evals, Nontrivial int64
	Viols             []string
	Samples           []string
}

// runAux runs another binary of this explorer (simulated processor or 386).
func runAux(name, env string) *mc.Family {
	return &mc.Family{Name: name, N: 1, Serial: true, Run: func(c *mc.Ctx, i int) error {
		bin := os.Getenv(env)
		if bin == "" {
			c.Add("unavailable_"+strings.ReplaceAll(name, " ", "_"), 1)
			c.Incomplete()
			return nil
		}
		cmd := exec.Command(bin, "-aux")
		b, err := cmd.Output()
		if err != nil {
			return mc.V("aux", "%s: the initialisation crashed: %v", name, err)
		}
		var r auxResult
		if err := json.Unmarshal(b, &r); err != nil {
			return mc.V("aux", "%s: no result: %v", name, err)
		}
		c.Evals += r.Evals
		c.Transitions += r.Evals
		c.Nontrivial += r.Nontrivial
		for _, s := range r.Samples {
			c.Sample("%s", s)
		}
		if len(r.Viols) > 0 {
			return mc.V("aux", "%s: %s", name, r.Viols[0])
		}
		return nil
	}}
}

// compileFamily reports the systems the package no longer compiles for.
func compileFamily() *mc.Family {
	dir := os.Getenv("VERIF_CC")
	es, _ := os.ReadDir(dir)
	return &mc.Family{Name: "compiles for every system", N: len(es), Serial: true, Run: func(c *mc.Ctx, i int) error {
		c.Evals++
		b, err := os.ReadFile(filepath.Join(dir, es[i].Name()))
		if err != nil {
			return err
		}
		if log := string(b); log != "ok\n" && strings.Contains(log, "internal/cpu/") {
			return mc.V("compile", "the detection does not compile for %s: %s", es[i].Name(), strings.TrimSpace(log))
		}
		return nil
	}}
}

func families(t mc.Tier) []*mc.Family {
	es := entries()
	small := []string{"cpu.avx=off", "cpu.avx=on", "cpu.sse41=off", "cpu.all=off", "cpu.all=on", "cpu.sse2=off", "cpu.sse2=on", "cpu.fma=off", "cpu.avx", "cpu.bogus=off"}
	fs := []*mc.Family{
		seqFamily("option strings, fresh process each", es, t.Pick(1, 2), true),
		seqFamily("option strings of up to three entries", es, 3, false),
		seqFamily("longer option strings over interacting entries", small, t.Pick(5, 7), false),
		stringFamily([]string{"", "cpu.", "cpu.avx", "cpu.avx=", "cpu.avx=o", "cpu.avx=off", "cpu.avx=off,", "cpu.avx=off,cpu.", "cpu.avx=off,cpu.avx=o", "cpu.sse2=off"}, "cpu.ax=,onf2 ", t.Pick(4, 5)),
		{Name: "processor name", N: 1, Serial: true, Run: func(c *mc.Ctx, i int) error {
			c.Evals++
			cpu.Initialize("")
			if n := cpu.Name(); n != realRegs.name() {
				return mc.V("name", "name %q, expected %q", n, realRegs.name())
			}
			return nil
		}},
		runAux("simulated processors", "VERIF_AUX_FAKE"),
		dispatchFamily(),
		neonFamily(t.Thorough),
		compileFamily(),
	}
	for _, o := range []string{"linux/arm64", "android/arm64", "freebsd/arm64", "darwin/arm64", "linux/arm", "linux/mips64le", "linux/ppc64le", "linux/s390x"} {
		fs = append(fs, runAux(o+" processors", "VERIF_AUX_"+strings.ToUpper(strings.ReplaceAll(o, "/", "_"))))
	}
	if runtime.GOARCH == "amd64" {
		fs = append(fs, runAux("386 program", "VERIF_AUX_386"), runAux("386 simulated processors", "VERIF_AUX_386_FAKE"))
	}
	return fs
}

// dispatchFamily starts a program that uses the DSP package on simulated
// processors and looks at the code paths the package has selected.
func dispatchFamily() *mc.Family {
	bin := os.Getenv("VERIF_AUX_DISPATCH")
	b := &bitsOf
	flags := []struct {
		name string
		need set
	}{{"SSE2", b.sse2}, {"SSE4", b.sse41}, {"AVX2", b.avx2}}
	return &mc.Family{Name: "code paths selected on simulated processors", N: 256, Run: func(c *mc.Ctx, i int) error {
		if bin == "" {
			c.Add("unavailable_dispatch", 1)
			c.Incomplete()
			return nil
		}
		bit := func(k int) uint32 { return uint32(i >> k & 1) }
		g := regs{maxID: 1 + 6*bit(0), edx1: bit(1) << 26, ecx1: bit(2)<<19 | bit(3)<<27 | bit(4)<<28, ebx7: bit(5) << 5, xcr0: 1 + 2*bit(6) + 4*bit(7)}
		cmd := exec.Command(bin)
		cmd.Env = append(os.Environ(), fmt.Sprintf("VERIF_REGS=%x,%x,%x,%x,%x", g.maxID, g.ecx1, g.edx1, g.ebx7, g.xcr0))
		out, err := cmd.Output()
		if err != nil {
			return mc.V("dispatch", "on a processor with %v the program does not start: %v", g.has(), err)
		}
		var use [3]bool
		if _, err := fmt.Sscan(string(out), &use[0], &use[1], &use[2]); err != nil {
			return fmt.Errorf("dispatch program: %q: %v", out, err)
		}
		c.Evals++
		c.Transitions++
		has := g.has()
		if has != 0 {
			c.Nontrivial++
		}
		for k, f := range flags {
			if use[k] && has&f.need == 0 {
				return mc.V("dispatch", "on a processor (or system) with only %v the %s code paths are selected", has, f.name)
			}
		}
		return nil
	}}
}

func simulate(thorough bool) (r auxResult) {
	bad := func(f string, a ...any) {
		if len(r.Viols) < 5 {
			r.Viols = append(r.Viols, runtime.GOARCH+": "+fmt.Sprintf(f, a...))
		}
	}
	eb := []uint{0, 1, 9, 12, 19, 20, 23, 25, 27, 28}
	bb := []uint{3, 5, 8, 9, 19}
	spread := func(v int, pos []uint, junk uint32) uint32 {
		var w, m uint32
		for i, p := range pos {
			m |= 1 << p
			if v>>i&1 == 1 {
				w |= 1 << p
			}
		}
		return w | junk&^m
	}
	one := func(g *regs, env string) {
		clear()
		g.illegal = ""
		setRegs(g)
		cpu.Initialize(env)
		got := read()
		want := apply(g.has(), env, required())
		r.Evals++
		if want != 0 {
			r.Nontrivial++
		}
		if got != want {
			bad("processor with max leaf %d, leaf1 ecx %#x edx %#x, leaf7 ebx %#x, xcr0 %#x, options %q: reported %v, expected %v", g.maxID, g.ecx1, g.edx1, g.ebx7, g.xcr0, env, got, want)
		} else if g.illegal != "" {
			bad("processor with leaf1 ecx %#x: %s", g.ecx1, g.illegal)
		}
	}
	for _, junk := range []uint32{0, ^uint32(0)} {
		for _, id := range []uint32{0, 1, 2, 6, 7, 13, 0x80000000} {
			for e := 0; e < 1<<len(eb); e++ {
				for d := 0; d < 2; d++ {
					for x := 0; x < 8; x++ {
						for b := 0; b < 1<<len(bb); b++ {
							if !thorough && b != 0 && b != 31 && (e*8+x+b)%4 != 0 {
								continue
							}
							g := regs{maxID: id, ecx1: spread(e, eb, junk), edx1: spread(d, []uint{26}, junk), ebx7: spread(b, bb, junk), xcr0: uint32(x) | junk&^7, maxExt: 0x80000008}
							one(&g, "")
						}
					}
				}
			}
		}
	}
	// options on processors lacking features
	es := entries()
	var envs []string
	for _, a := range es {
		envs = append(envs, a)
		for _, b := range es {
			envs = append(envs, a+","+b)
		}
	}
	for _, env := range envs {
		for k := 0; k < 18; k++ {
			g := regs{maxID: 7, ecx1: spread(1023, eb, 0), edx1: 1 << 26, ebx7: spread(31, bb, 0), xcr0: 7, maxExt: 0x80000008}
			switch {
			case k < 10:
				g.ecx1 &^= 1 << eb[k]
			case k < 15:
				g.ebx7 &^= 1 << bb[k-10]
			case k == 15:
				g.xcr0 = 1
			case k == 16:
				g.edx1, g.ecx1, g.ebx7 = 0, 0, 0
			}
			one(&g, env)
		}
	}
	// names
	for _, ext := range []uint32{0, 0x80000000, 0x80000003, 0x80000004, 0x80000005, 0x80000008} {
		for lead := 0; lead <= 48; lead++ {
			for end := lead; end <= 48; end++ {
				for _, after := range []byte{0, 'X'} {
					g := regs{maxID: 7, maxExt: ext}
					for k := range g.brand {
						switch {
						case k < lead:
							g.brand[k] = ' '
						case k < end:
							g.brand[k] = byte('A' + k%57)
						case k == end:
							g.brand[k] = 0
						default:
							g.brand[k] = after
						}
					}
					setRegs(&g)
					cpu.Initialize("")
					r.Evals++
					if n := cpu.Name(); n != g.name() {
						bad("name %q, expected %q (extended leaves up to %#x)", n, g.name(), ext)
					}
				}
			}
		}
	}
	return r
}

func main() {
	for _, a := range os.Args[1:] {
		switch a {
		case "-probe":
			cpu.Initialize(os.Getenv("VERIF_PROBE"))
			fmt.Println(uint32(read()))
			return
		case "-aux":
			undo := quietStderr()
			var r auxResult
			if isFake {
				r = simulate(os.Getenv("VERIF_TIER") == "thorough")
			} else {
				c := &mc.Ctx{}
				for _, f := range []*mc.Family{seqFamily("a", entries(), 2, false)} {
					for i := 0; i < f.N; i++ {
						if err := mc.RunCase(f, c, i); err != nil {
							r.Viols = append(r.Viols, err.Error())
							break
						}
					}
				}
				r.Evals, r.Nontrivial = c.Evals, c.Nontrivial
				cpu.Initialize("")
				if n := cpu.Name(); n != realRegs.name() {
					r.Viols = append(r.Viols, fmt.Sprintf("name %q, expected %q", n, realRegs.name()))
				}
			}
			sort.Strings(r.Samples)
			undo()
			b, _ := json.Marshal(r)
			os.Stdout.Write(b)
			return
		}
	}
	mc.Register(&mc.Check{ID: "C31", Level: "exploration",
		Rule:        "one evaluation is one initialisation of the real package: either an option string on this processor or a combination of identification registers on a simulated one; the sixteen flags are compared with the architecture's definition of each feature and a reference for the option string. Non-trivial when an option changes the flags, or the simulated processor has a feature.",
		Assumptions: []string{"when several entries name one feature the last one decides", "FMA needs OSXSAVE only, as the code documents", "the simulated processor replaces the two assembly routines; the assembly itself is compared with the harness's own on the real processor"},
		Families:    families})
	mc.Main()
}
