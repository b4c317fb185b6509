//go:build !verifemu

package main

import (
	"os"
	"strings"
)

// dispatchConfigs lists the configurations this machine can execute: the
// package's own default and every combination of usable switches.
func dispatchConfigs() []dispatchCfg {
	b, _ := os.ReadFile("/proc/cpuinfo")
	flags := map[string]bool{}
	for _, l := range strings.Split(string(b), "\n") {
		if strings.HasPrefix(l, "flags") {
			for _, f := range strings.Fields(l[strings.IndexByte(l, ':')+1:]) {
				flags[f] = true
			}
			break
		}
	}
	cs := []dispatchCfg{defaultCfg}
	add := func(c dispatchCfg) {
		for _, x := range cs {
			if x.sse4 == c.sse4 && x.sse2 == c.sse2 && x.avx2 == c.avx2 {
				return
			}
		}
		cs = append(cs, c)
	}
	add(dispatchCfg{"scalar", false, false, false})
	add(dispatchCfg{"sse2", false, true, false})
	if flags["sse4_1"] {
		add(dispatchCfg{"sse4", true, true, false})
		if flags["avx2"] {
			add(dispatchCfg{"avx2", true, true, true})
		}
	}
	return cs
}
