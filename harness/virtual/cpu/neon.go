//go:build go1.21

package main

import (
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"strings"

	"verif/harness/mc"
)

// neonFamily starts the selection of the ARM code paths on descriptions of
// processors as the Linux kernel gives them.
func neonFamily(thorough bool) *mc.Family {
	bin := os.Getenv("VERIF_AUX_NEON")
	v6 := strings.Fields("swp half thumb fastmult vfp edsp java tls")
	v7 := strings.Fields("half thumb fastmult vfp edsp thumbee vfpv3 tls vfpv4 idiva idivt vfpd32 lpae evtstrm")
	v8 := strings.Fields("fp evtstrm aes pmull sha1 sha2 crc32 cpuid")
	type feats struct {
		list []string
		neon bool
	}
	var fl []feats
	for _, base := range [][]string{v6, v7, v8, {}, {"vfp"}} {
		fl = append(fl, feats{base, false})
		for _, t := range []string{"neon", "asimd"} {
			for k := 0; k <= len(base); k++ {
				l := append(append(append([]string{}, base[:k]...), t), base[k:]...)
				fl = append(fl, feats{l, true})
			}
		}
	}
	hardware := []string{"", "BCM2708", "BCM2709", "BCM2835", "Allwinner sun4i/sun5i Families", "NEON board"}
	cores := []int{1, 2, 4, 8}
	// 0: every core with all lines (new kernels), 1: one summary (old ones)
	text := func(f feats, format, cores int, hw string) string {
		var s strings.Builder
		feat := "Features\t: " + strings.Join(f.list, " ") + " \n"
		if format == 1 {
			s.WriteString("Processor\t: ARMv7 Processor rev 2 (v7l)\n")
			for k := 0; k < cores; k++ {
				fmt.Fprintf(&s, "processor\t: %d\nBogoMIPS\t: 1992.29\n\n", k)
			}
			s.WriteString(feat)
			s.WriteString("CPU implementer\t: 0x41\nCPU architecture: 7\nCPU variant\t: 0x3\nCPU part\t: 0xc08\nCPU revision\t: 2\n\n")
		} else {
			for k := 0; k < cores; k++ {
				fmt.Fprintf(&s, "processor\t: %d\nmodel name\t: ARMv6-compatible neon-less processor rev 7 (v6l)\nBogoMIPS\t: 697.95\n%sCPU implementer\t: 0x41\nCPU architecture: 7\nCPU variant\t: 0x0\nCPU part\t: 0xb76\nCPU revision\t: 7\n\n", k, feat)
			}
		}
		if hw != "" {
			fmt.Fprintf(&s, "Hardware\t: %s\n", hw)
		}
		s.WriteString("Revision\t: 000e\nSerial\t\t: 00000000neon0000\n")
		return s.String()
	}
	vec := []struct {
		set bool
		v   string
		is  int // 1: on, 0: off, -1: no opinion
	}{{false, "", -1}, {true, "", -1}, {true, "1", 1}, {true, "0", 0}, {true, "true", 1}, {true, "false", 0}, {true, "yes", -1}}
	type cse struct {
		f             feats
		fo, co, hw, v int
		read          int
	}
	var cs []cse
	for i, f := range fl {
		for fo := 0; fo < 2; fo++ {
			for co := range cores {
				for hw := range hardware {
					for v := range vec {
						n := i + fo + co + hw + v
						if !thorough && v > 0 && n%5 != 0 || !thorough && co > 0 && n%3 != 0 {
							continue
						}
						cs = append(cs, cse{f, fo, co, hw, v, []int{0, 1, 7, 512}[n%4]})
					}
				}
			}
		}
	}
	extra := []string{"-missing-", "", "\n", "neon\n", "model name: neon asimd\n", "Features", "CPU Features\t: neon\n"}
	return &mc.Family{Name: "code paths selected from ARM processor descriptions", N: len(cs) + len(extra), Run: func(c *mc.Ctx, i int) error {
		if bin == "" {
			c.Add("unavailable_neon", 1)
			c.Incomplete()
			return nil
		}
		dir, err := os.MkdirTemp("", "verif-cpuinfo")
		if err != nil {
			return err
		}
		defer os.RemoveAll(dir)
		path := filepath.Join(dir, "cpuinfo")
		cmd := exec.Command(bin)
		var env []string
		for _, e := range os.Environ() {
			if !strings.HasPrefix(e, "ARMVECTOR=") {
				env = append(env, e)
			}
		}
		env = append(env, "VERIF_CPUINFO="+path)
		neon, vector := false, false
		txt := ""
		if i < len(extra) {
			if txt = extra[i]; i > 0 {
				os.WriteFile(path, []byte(txt), 0o600)
			}
		} else {
			x := cs[i-len(extra)]
			txt = text(x.f, x.fo, cores[x.co], hardware[x.hw])
			os.WriteFile(path, []byte(txt), 0o600)
			env = append(env, fmt.Sprintf("VERIF_CPUINFO_READ=%d", x.read))
			neon = x.f.neon
			vector = !neon && hardware[x.hw] == "BCM2708"
			v := vec[x.v]
			if v.set {
				env = append(env, "ARMVECTOR="+v.v)
			}
			if v.is >= 0 {
				vector = v.is == 1
			} else if strings.Index(txt, "Hardware") > 1900 {
				vector = false // that far nobody looks; such systems do not exist
				if !neon && hardware[x.hw] == "BCM2708" {
					return nil
				}
			}
			if strings.Index(txt, "Features")+len(strings.Join(x.f.list, " ")) > 1900 {
				return nil
			}
		}
		cmd.Env = env
		out, err := cmd.Output()
		if err != nil {
			return mc.V("neon", "the program does not start with the processor description %q: %v", txt, err)
		}
		var gn, gv bool
		if _, err := fmt.Sscan(string(out), &gn, &gv); err != nil {
			return fmt.Errorf("selection program: %q: %v", out, err)
		}
		c.Evals++
		c.Transitions++
		if neon || vector {
			c.Nontrivial++
		}
		if gn != neon {
			return mc.V("neon", "NEON code paths selected: %v, with the processor description %q", gn, txt)
		}
		if gv != vector {
			return mc.V("neon", "VFP vector code paths selected: %v, with the processor description %q and %v", gv, txt, env[len(env)-1])
		}
		return nil
	}}
}
