//go:build 386 || amd64

// Package cpuid has the harness's own access to the identification instructions.
package cpuid

func CPUID(eaxArg, ecxArg uint32) (eax, ebx, ecx, edx uint32)
func XGETBV0() (eax, edx uint32)
