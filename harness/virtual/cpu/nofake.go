//go:build !fakecpu

package main

const isFake = false

func setRegs(r *regs) {}
