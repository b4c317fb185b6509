// Generated pass-through of package runtime, except for what this package simulates.

package vruntime

import "runtime"

type (
	BlockProfileRecord = runtime.BlockProfileRecord
	Cleanup            = runtime.Cleanup
	Error              = runtime.Error
	Frame              = runtime.Frame
	Frames             = runtime.Frames
	Func               = runtime.Func
	MemProfileRecord   = runtime.MemProfileRecord
	MemStats           = runtime.MemStats
	PanicNilError      = runtime.PanicNilError
	Pinner             = runtime.Pinner
	StackRecord        = runtime.StackRecord
	TypeAssertionError = runtime.TypeAssertionError
)

const (
	Compiler = runtime.Compiler
	GOARCH   = runtime.GOARCH
	GOOS     = runtime.GOOS
)

var (
	BlockProfile            = runtime.BlockProfile
	Breakpoint              = runtime.Breakpoint
	CPUProfile              = runtime.CPUProfile
	Caller                  = runtime.Caller
	Callers                 = runtime.Callers
	CallersFrames           = runtime.CallersFrames
	FuncForPC               = runtime.FuncForPC
	GC                      = runtime.GC
	GOROOT                  = runtime.GOROOT
	Goexit                  = runtime.Goexit
	GoroutineProfile        = runtime.GoroutineProfile
	KeepAlive               = runtime.KeepAlive
	MemProfile              = runtime.MemProfile
	MemProfileRate          = runtime.MemProfileRate
	MutexProfile            = runtime.MutexProfile
	NumCPU                  = runtime.NumCPU
	NumCgoCall              = runtime.NumCgoCall
	NumGoroutine            = runtime.NumGoroutine
	ReadMemStats            = runtime.ReadMemStats
	ReadTrace               = runtime.ReadTrace
	SetBlockProfileRate     = runtime.SetBlockProfileRate
	SetCPUProfileRate       = runtime.SetCPUProfileRate
	SetCgoTraceback         = runtime.SetCgoTraceback
	SetFinalizer            = runtime.SetFinalizer
	SetMutexProfileFraction = runtime.SetMutexProfileFraction
	Stack                   = runtime.Stack
	StartTrace              = runtime.StartTrace
	StopTrace               = runtime.StopTrace
	ThreadCreateProfile     = runtime.ThreadCreateProfile
	Version                 = runtime.Version
)
