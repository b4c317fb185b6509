// Package vruntime is package runtime without the calls that would change the
// explorer's own scheduling.
package vruntime

import "verif/harness/gate"

func GOMAXPROCS(n int) int { return 1 }
func Gosched()             { gate.Yield("gosched") }
func LockOSThread()        {}
func UnlockOSThread()      {}
