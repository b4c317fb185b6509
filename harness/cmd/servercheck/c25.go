package main

import (
	"fmt"
	"time"

	"github.com/samuel/go-rtlsdr/rtl"
	"verif/harness/mc"
)

// Ways a client ends: with nothing owed to it, or in the middle of a request.
var leave = [][]A{
	{act("close")},
	{act("reset")},
	{act("send", "DEVICE -\n"), act("close")},
	{act("send", "DEVICE -\n"), act("reset")},
	{act("send", "DEVICE -\nGO\n"), act("reset")},
	{act("send", "DEVICE !\nDEVICE -\nGO\nDEVICE -\n"), act("close")},
	{act("send", "DEVICE -\nGO\nDEVI"), act("closewrite")},
}

func c25(t mc.Tier) []*mc.Family {
	lim := 100 * time.Second
	two := []DC{devA, devB}
	word := func(k int, w []int, end []A) C {
		a := []A{act("connect"), dest(k)}
		for _, x := range w {
			a = append(a, act("req", reqs[x]))
		}
		return C{Acts: append(a, end...)}
	}
	// One client: every sequence of the operations on devices.
	ops := []string{"DEVICE -", "DEVICE !", "GO", "STOP"}
	ow := words(4, 1, t.Pick(5, 7))
	one := family("C25", "one client, all sequences", len(ow), lim, func(i int) []item {
		var it []item
		for k, devs := range [][]DC{{devA}, two, {devA, {Name: ""}, devC}} {
			if k > 0 && len(ow[i]) > 4 {
				continue
			}
			a := []A{act("connect")}
			for _, x := range ow[i] {
				a = append(a, act("req", ops[x]))
			}
			b := 0
			if len(ow[i]) <= 4 {
				b = 1
			}
			for e, end := range leave[:2] {
				if e == 1 && len(ow[i]) > 4 {
					continue
				}
				s := &S{Devs: devs, MapOrder: i % 2, Clients: []C{{Acts: cat(a, end)}}}
				it = append(it, item{s, binSync, 0, b})
			}
		}
		return it
	})
	// Two clients, one or two devices, every way of leaving.
	sel := [][]int{{0}, {0, 3}, {0, 0}, {0, 1}, {3, 0}, {0, 1, 0}, {0, 3, 0}}
	ns, nl := len(sel), len(leave)
	twoC := family("C25", "two clients selecting, releasing, leaving", ns*ns*nl*nl, lim, func(i int) []item {
		p, q := sel[i%ns], sel[i/ns%ns]
		e, f := leave[i/ns/ns%nl], leave[i/ns/ns/nl]
		if len(q) > len(p) || len(q)+len(p) > t.Pick(4, 5) {
			return nil
		}
		var it []item
		for d, devs := range [][]DC{{devA}, two} {
			s := &S{Devs: devs, MapOrder: (i + d) % 2, Clients: []C{word(0, p, e), word(1, q, f)}}
			b := 1
			if len(p)+len(q) <= t.Pick(3, 4) && d == 0 && i/ns/ns%nl <= t.Pick(1, 6) {
				b = 2
			}
			it = append(it, item{s, binSync, 0, b})
			if d == 0 || t.Thorough {
				it = append(it, bases(s, binSync, 1, 1, 2)...)
			}
		}
		return it
	})
	// Three clients.
	sel3 := [][]int{{0}, {0, 1}, {0, 3}, {0, 0}}
	three := family("C25", "three clients", 64*3, lim, func(i int) []item {
		k := i / 3
		p, q, r := sel3[k%4], sel3[k/4%4], sel3[k/16]
		if k%4 < k/4%4 || k/4%4 < k/16 {
			return nil
		}
		devs := [][]DC{{devA}, two, {devA, devB, devC}}[i%3]
		s := &S{Devs: devs, MapOrder: i % 4, Clients: []C{word(0, p, leave[0]), word(1, q, leave[1]), word(2, r, leave[0])}}
		b := t.Pick(1, 2)
		if len(p)+len(q)+len(r) <= t.Pick(3, 4) {
			b = 2
		}
		return bases(s, binSync, b, 0, 1, 2)
	})
	// Devices that cannot be opened, fail to close, fail when configured.
	var fails []item
	for _, op := range []string{"Open", "Close", "SetCenterFreq", "SetSampleRate", "SetAGCMode", "GetTunerGains", "GetXtalFreq", "ResetBuffer", "ReadAsync", "CancelAsync"} {
		for nth := 0; nth <= 2; nth++ {
			for d, devs := range [][]DC{{devA}, two, two} {
				for _, w := range [][2][]int{{{0, 1, 0}, {0}}, {{0, 0}, {0, 1}}, {{0, 3, 0}, {0}}} {
					s := &S{Devs: devs, MapOrder: d, Failures: []rtl.Failure{{Dev: d % 2, Op: op, Nth: nth}}, Clients: []C{word(0, w[0], leave[0]), word(1, w[1], leave[1])}}
					fails = append(fails, bases(s, binSync, t.Pick(1, 2), 0)...)
					if t.Thorough {
						fails = append(fails, bases(s, binSync, 1, 1, 2)...)
					}
				}
			}
		}
	}
	// The same at every statement, and with the race detector.
	st := [][2][]int{{{0}, {0}}, {{0, 3}, {0}}, {{0, 0}, {0}}, {{0, 1}, {0}}, {{0, 1}, {0, 1}}}
	stm := family("C25", "two clients, at every statement", len(st)*nl*2, lim, func(i int) []item {
		w := st[i%len(st)]
		e := leave[i/len(st)%nl]
		devs := [][]DC{{devA}, two}[i/len(st)/nl]
		s := &S{Devs: devs, Clients: []C{word(0, w[0], e), word(1, w[1], leave[0])}}
		var it []item
		b := 1
		if t.Thorough && len(w[0])+len(w[1]) == 2 {
			b = 2
		}
		it = append(it, item{s, binAll, 0, b})
		it = append(it, bases(s, binAll, 1, 1, 2)...)
		it = append(it, bases(s, binRace, 1, 0, 2)...)
		return it
	})
	// The hand-over: a client leaves while another waits for the device.
	var over []item
	for e := range leave {
		for _, pre := range [][]string{{"DEVICE -"}, {"DEVICE -", "GO"}} {
			for k := 1; k <= 3; k++ {
				b := []A{act("connect"), dest(1)}
				for j := 0; j < k; j++ {
					b = append(b, act("req", "DEVICE -"))
				}
				b = append(b, act("req", "GO"), act("close"))
				s := &S{Devs: []DC{devA}, Clients: []C{{Acts: cat([]A{act("connect"), dest(0)}, req(pre...), leave[e])}, {Acts: b}}}
				bd := 2
				if k > 1 && !t.Thorough {
					bd = 1
				}
				over = append(over, item{s, binSync, 0, bd}, item{s, binSync, 2, 1}, item{s, binSync, 1, 1})
			}
		}
	}
	// Long lives: many owners one after another, and many at once.
	var lives []item
	long := t.Pick(700, 4000)
	for e := range leave {
		for _, w := range sel {
			for d, devs := range [][]DC{{devA}, two} {
				var a []A
				for k := 0; k < long/2; k++ {
					a = append(a, word(0, w, leave[e]).Acts...)
				}
				lives = append(lives, item{&S{Devs: devs, MapOrder: e % 2, Long: true, Extra: d == 1, Clients: []C{{Acts: a}}}, binSync, e % 3, 0})
				var b []A
				for k := 0; k < long/2; k++ {
					b = append(b, word(1, sel[(k+e)%ns], leave[k%nl]).Acts...)
				}
				lives = append(lives, item{&S{Devs: devs, MapOrder: d, Long: true, Clients: []C{{Acts: a}, {Acts: b}}}, binSync, 2, 0})
			}
		}
	}
	for _, op := range []string{"Open", "Close", "ResetBuffer", "ReadAsync", "GetTunerGains"} {
		for _, nth := range []int{0, 1, 2, 255, 256, 257} {
			var a []A
			for k := 0; k < long/2; k++ {
				a = append(a, word(0, sel[k%ns], leave[k%nl]).Acts...)
			}
			lives = append(lives, item{&S{Devs: two, Failures: []rtl.Failure{{Dev: nth % 2, Op: op, Nth: nth}}, Long: true, Clients: []C{{Acts: a}}}, binSync, 0, 0})
		}
	}
	for n := 4; n <= t.Pick(40, 120); n += t.Pick(6, 4) {
		var devs []DC
		for k := 0; k < n; k++ {
			x := devA
			x.Name = fmt.Sprintf("device %d of %d", k, n)
			devs = append(devs, x)
		}
		var cs []C
		for k := 0; k < n+3; k++ {
			cs = append(cs, word(k, sel[k%ns], leave[k%2]))
		}
		for _, b := range bases(&S{Devs: devs, MapOrder: n, Long: true, Clients: cs}, binSync, 0) {
			lives = append(lives, b)
		}
	}
	// Owners that are silent for long while others ask for the device.
	var idle []item
	for _, d := range []string{"90s", "31m", "26h", "1000h"} {
		w := act("idle", d)
		for e := range leave[:3] {
			for _, g := range [][]string{{"DEVICE -"}, {"DEVICE -", "GO"}, {"DEVICE -", "GO", "STOP"}, {"DEVICE -", "DEVICE !", "DEVICE -"}} {
				a := C{Acts: cat([]A{act("connect"), dest(0)}, req(g...), []A{w}, req("DEVICE"), []A{w}, req("FREQ"), leave[e])}
				b := C{Acts: cat([]A{act("connect"), dest(1)}, req("DEVICE -"), []A{w}, req("DEVICE -", "GO"), []A{w, w}, req("DEVICE -"), leave[0])}
				for k, devs := range [][]DC{{devA}, two} {
					idle = append(idle, bases(&S{Devs: devs, MapOrder: k, Clients: []C{a, b}}, binSync, 1, 0)...)
					idle = append(idle, bases(&S{Devs: devs, MapOrder: k, Sizes: [][]int{{8}}, Ends: []bool{true}, Clients: []C{a, b}}, binSync, 0)...)
				}
			}
		}
	}
	return []*mc.Family{list("C25", "long silences", lim, idle), list("C25", "long lives", lim, lives), one, list("C25", "failing devices", lim, fails), list("C25", "hand-over", lim, over), three, stm, twoC}
}

func init() {
	mc.Register(&mc.Check{ID: "C25", Level: "model_checking", Rule: serverRule, Assumptions: serverAssume, Families: c25})
}
