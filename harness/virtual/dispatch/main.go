//go:build go1.21

// Prints which code paths the package selects on the simulated processor given
// by VERIF_REGS, one line per processor.
package main

import (
	"fmt"
	_ "unsafe"

	_ "github.com/samuel/go-dsp/dsp"
)

//go:linkname useSSE4 github.com/samuel/go-dsp/dsp.useSSE4
var useSSE4 bool

//go:linkname useAVX2 github.com/samuel/go-dsp/dsp.useAVX2
var useAVX2 bool

//go:linkname useSSE2 github.com/samuel/go-dsp/dsp.useSSE2
var useSSE2 bool

func main() { fmt.Println(useSSE2, useSSE4, useAVX2) }
