//go:build fakecpu && go1.21

package main

import "github.com/samuel/go-dsp/dsp/internal/cpu"

const isFake = true

func setRegs(r *regs) {
	cpu.VerifCpuid = r.cpuid
	cpu.VerifXgetbv = r.xgetbv
}
