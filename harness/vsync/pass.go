// Generated pass-through of package sync, except for what this package simulates.

package vsync

import "sync"

var (
	NewCond = sync.NewCond
)

type (
	Cond      = sync.Cond
	Locker    = sync.Locker
	Map       = sync.Map
	WaitGroup = sync.WaitGroup
)
