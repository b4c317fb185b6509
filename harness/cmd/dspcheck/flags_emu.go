//go:build verifemu

package main

import (
	"os"

	_ "github.com/samuel/go-dsp/dsp"

	"verif/harness/armemu"
)

// The assembly of ARM or ARM64 is executed by armemu; the switches are those of
// its image.
const emulated = true

// light: fewer alignments and repetitions.
var light = os.Getenv("VERIF_EMU_FULL") == ""

type dispatchCfg struct {
	name         string
	neon, vector bool
}

var defaultCfg = dispatchCfg{"default", false, false}

func (d dispatchCfg) set() {
	armemu.SetFlag("HaveNEON", d.neon)
	armemu.SetFlag("UseVector", d.vector)
}

func dispatchConfigs() []dispatchCfg {
	cs := []dispatchCfg{{"scalar", false, false}}
	neon, vector := armemu.SetFlag("HaveNEON", false), armemu.SetFlag("UseVector", false)
	all := !light
	if vector && (all || !neon) {
		cs = append(cs, dispatchCfg{"vector", false, true})
	}
	if neon && (all || !vector) {
		cs = append(cs, dispatchCfg{"neon", true, false})
	}
	if neon && vector {
		cs = append(cs, dispatchCfg{"neon+vector", true, true})
	}
	return cs
}
