//go:build !verifemu

package main

import (
	_ "unsafe"

	_ "github.com/samuel/go-dsp/dsp"
)

// The CPU dispatch switches of the package, reached by link name so that every
// dispatch configuration can be enumerated. If a switch does not exist (other
// architecture, renamed), the name links to an unused variable and enumerating
// it is merely redundant.

//go:linkname useSSE4 github.com/samuel/go-dsp/dsp.useSSE4
var useSSE4 bool

//go:linkname useAVX2 github.com/samuel/go-dsp/dsp.useAVX2
var useAVX2 bool

//go:linkname useSSE2 github.com/samuel/go-dsp/dsp.useSSE2
var useSSE2 bool

// emulated: assembly is executed by a processor model.
const emulated, light = false, false

// dispatchCfg is one configuration of the switches.
type dispatchCfg struct {
	name             string
	sse4, sse2, avx2 bool
}

var defaultCfg = dispatchCfg{"default", useSSE4, useSSE2, useAVX2}

func (d dispatchCfg) set() { useSSE4, useSSE2, useAVX2 = d.sse4, d.sse2, d.avx2 }
