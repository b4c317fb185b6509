// Package vsync replaces the locks of package sync by locks whose waiters are
// blocked on channels, which the controlled scheduler can see, with a scheduling
// point before every acquisition.
package vsync

import (
	"sync"

	"verif/harness/gate"
)

// Mutex as sync.Mutex.
type Mutex struct {
	mu     sync.Mutex
	locked bool
	wait   chan struct{}
}

func (m *Mutex) Lock() {
	gate.At("lock")
	m.mu.Lock()
	for m.locked {
		if m.wait == nil {
			m.wait = make(chan struct{})
		}
		w := m.wait
		m.mu.Unlock()
		<-w
		gate.At("relock")
		m.mu.Lock()
	}
	m.locked = true
	m.mu.Unlock()
}

func (m *Mutex) TryLock() bool {
	m.mu.Lock()
	defer m.mu.Unlock()
	if m.locked {
		return false
	}
	m.locked = true
	return true
}

func (m *Mutex) Unlock() {
	m.mu.Lock()
	if !m.locked {
		m.mu.Unlock()
		if gate.Aborting() {
			return
		}
		panic("sync: unlock of unlocked mutex")
	}
	m.locked = false
	if m.wait != nil {
		close(m.wait)
		m.wait = nil
	}
	m.mu.Unlock()
}

// RWMutex as sync.RWMutex.
type RWMutex struct {
	mu      sync.Mutex
	writer  bool
	readers int
	wait    chan struct{}
}

func (m *RWMutex) block() {
	if m.wait == nil {
		m.wait = make(chan struct{})
	}
	w := m.wait
	m.mu.Unlock()
	<-w
	gate.At("relock")
	m.mu.Lock()
}

func (m *RWMutex) wake() {
	if m.wait != nil {
		close(m.wait)
		m.wait = nil
	}
}

func (m *RWMutex) Lock() {
	gate.At("lock")
	m.mu.Lock()
	for m.writer || m.readers > 0 {
		m.block()
	}
	m.writer = true
	m.mu.Unlock()
}

func (m *RWMutex) TryLock() bool {
	m.mu.Lock()
	defer m.mu.Unlock()
	if m.writer || m.readers > 0 {
		return false
	}
	m.writer = true
	return true
}

func (m *RWMutex) Unlock() {
	m.mu.Lock()
	if !m.writer {
		m.mu.Unlock()
		if gate.Aborting() {
			return
		}
		panic("sync: Unlock of unlocked RWMutex")
	}
	m.writer = false
	m.wake()
	m.mu.Unlock()
}

func (m *RWMutex) RLock() {
	gate.At("rlock")
	m.mu.Lock()
	for m.writer {
		m.block()
	}
	m.readers++
	m.mu.Unlock()
}

func (m *RWMutex) TryRLock() bool {
	m.mu.Lock()
	defer m.mu.Unlock()
	if m.writer {
		return false
	}
	m.readers++
	return true
}

func (m *RWMutex) RUnlock() {
	m.mu.Lock()
	if m.readers == 0 {
		m.mu.Unlock()
		if gate.Aborting() {
			return
		}
		panic("sync: RUnlock of unlocked RWMutex")
	}
	m.readers--
	if m.readers == 0 {
		m.wake()
	}
	m.mu.Unlock()
}

type rlocker RWMutex

func (r *rlocker) Lock()   { (*RWMutex)(r).RLock() }
func (r *rlocker) Unlock() { (*RWMutex)(r).RUnlock() }

// RLocker as sync.RWMutex.RLocker.
func (m *RWMutex) RLocker() Locker { return (*rlocker)(m) }

// Once as sync.Once.
type Once struct {
	m    Mutex
	done bool
}

func (o *Once) Do(f func()) {
	o.m.Lock()
	defer o.m.Unlock()
	if !o.done {
		defer func() { o.done = true }()
		f()
	}
}

// OnceFunc as sync.OnceFunc (without re-panicking).
func OnceFunc(f func()) func() {
	var o Once
	return func() { o.Do(f) }
}

// Pool as sync.Pool, but what was put last is got first.
type Pool struct {
	New func() any
	mu  sync.Mutex
	x   []any
}

func (p *Pool) Get() any {
	gate.At("pool get")
	p.mu.Lock()
	if n := len(p.x); n > 0 {
		x := p.x[n-1]
		p.x = p.x[:n-1]
		p.mu.Unlock()
		return x
	}
	p.mu.Unlock()
	if p.New != nil {
		return p.New()
	}
	return nil
}

func (p *Pool) Put(x any) {
	gate.At("pool put")
	if x == nil {
		return
	}
	p.mu.Lock()
	p.x = append(p.x, x)
	p.mu.Unlock()
}

// OnceValue as sync.OnceValue (without re-panicking).
func OnceValue[T any](f func() T) func() T {
	var o Once
	var v T
	return func() T {
		o.Do(func() { v = f() })
		return v
	}
}

// OnceValues as sync.OnceValues (without re-panicking).
func OnceValues[T, U any](f func() (T, U)) func() (T, U) {
	var o Once
	var v T
	var u U
	return func() (T, U) {
		o.Do(func() { v, u = f() })
		return v, u
	}
}
