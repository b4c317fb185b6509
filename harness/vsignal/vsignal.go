// Package vsignal replaces os/signal: the explorer decides when a signal comes.
package vsignal

import (
	"context"
	"os"
)

type reg struct {
	ch   chan<- os.Signal
	sigs []os.Signal
}

var (
	regs    []reg
	ignored []os.Signal
)

// Start forgets everything.
func Start() { regs, ignored = nil, nil }

// Deliver sends a signal like the runtime: without waiting. It returns whether
// the process survives it.
func Deliver(sig os.Signal) bool {
	found := has(ignored, sig, false)
	for _, r := range regs {
		if has(r.sigs, sig, true) {
			found = true
			select {
			case r.ch <- sig:
			default:
			}
		}
	}
	return found
}

func has(sigs []os.Signal, sig os.Signal, all bool) bool {
	for _, s := range sigs {
		if s == sig {
			return true
		}
	}
	return all && len(sigs) == 0
}

func Notify(c chan<- os.Signal, sig ...os.Signal) {
	regs = append(regs, reg{c, append([]os.Signal(nil), sig...)})
}

func Ignore(sig ...os.Signal) {
	if len(sig) == 0 {
		sig = []os.Signal{os.Interrupt}
	}
	Reset(sig...)
	ignored = append(ignored, sig...)
}

func Ignored(sig os.Signal) bool { return has(ignored, sig, false) }

func Reset(sig ...os.Signal) {
	ignored = without(ignored, sig)
	var keep []reg
	for _, r := range regs {
		if len(sig) == 0 {
			continue
		}
		if len(r.sigs) == 0 {
			r.sigs = []os.Signal{os.Interrupt}
		}
		if r.sigs = without(r.sigs, sig); len(r.sigs) > 0 {
			keep = append(keep, r)
		}
	}
	regs = keep
}

func without(sigs, drop []os.Signal) []os.Signal {
	var keep []os.Signal
	for _, s := range sigs {
		if !has(drop, s, true) {
			keep = append(keep, s)
		}
	}
	return keep
}

func Stop(c chan<- os.Signal) {
	var keep []reg
	for _, r := range regs {
		if r.ch != c {
			keep = append(keep, r)
		}
	}
	regs = keep
}

// NotifyContext as signal.NotifyContext.
func NotifyContext(parent context.Context, sig ...os.Signal) (context.Context, context.CancelFunc) {
	ctx, cancel := context.WithCancel(parent)
	ch := make(chan os.Signal, 1)
	Notify(ch, sig...)
	go func() {
		select {
		case <-ch:
			cancel()
		case <-ctx.Done():
		}
	}()
	return ctx, func() { cancel(); Stop(ch) }
}
