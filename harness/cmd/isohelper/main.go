//go:build verifiso

// isohelper is built with the instrumented libraries (tools/build.sh).
package main

import (
	"github.com/samuel/go-dsp/borip"
	"github.com/samuel/go-dsp/dsp"
	"github.com/samuel/go-dsp/dsp/ax25"
	"github.com/samuel/go-dsp/dsp/dtmf"
	"verif/harness/isodrv"
)

func main() {
	isodrv.Main(func() {
		dsp.VerifReset()
		dtmf.VerifReset()
		ax25.VerifReset()
		borip.VerifReset()
	})
}
