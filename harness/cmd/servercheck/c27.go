package main

import (
	"time"

	"github.com/samuel/go-rtlsdr/rtl"
	"verif/harness/mc"
)

// calls of the real client
var calls = []string{
	"select -", "go", "stop", "freq 100000123", "freq?", "rate 2400000", "rate?", "gain -40", "gain?",
	"dest 10.2.0.9:77", "dest?", "antenna RX2", "antenna?", "select !", "device",
	"freq 99500000.5", "rate 1000001", "gain 500", "gain 30.4", "rate 16777217", "freq 33554435", "dest nowhere", "freq 2200000000", "rate 3200000",
}

func c27(t mc.Tier) []*mc.Family {
	lim := 100 * time.Second
	call := func(s string) A { return act("call", s) }
	seq := func(p ...string) C {
		a := []A{call("dial")}
		for _, k := range p {
			a = append(a, call(k))
		}
		return C{Acts: append(a, call("close"))}
	}
	name := func(w []int) []string {
		var s []string
		for _, k := range w {
			s = append(s, calls[k])
		}
		return s
	}
	n := len(calls)
	w3 := words(n, 1, 3)
	all := family("C27", "all sequences of calls", len(w3), lim, func(i int) []item {
		p := name(w3[i])
		var it []item
		for k, devs := range devSets {
			if len(p) == 3 && k > 0 && !t.Thorough && k > 2 {
				break
			}
			if len(p) <= 2 {
				it = append(it, item{&S{Devs: devs, Clients: []C{seq(p...)}}, binSync, 0, 0})
			}
			it = append(it, item{&S{Devs: devs, Clients: []C{seq(append([]string{"select -"}, p...)...)}}, binSync, 0, 0})
		}
		if len(p) == 3 && t.Thorough {
			for _, l := range []string{"go", "stop", "freq?", "rate?", "gain?", "dest?", "device"} {
				it = append(it, item{&S{Devs: []DC{devA}, Clients: []C{seq(append(append([]string{"select -"}, p...), l)...)}}, binSync, 0, 0})
			}
		}
		return it
	})
	// Deep sequences of setting and asking the same value, all schedules.
	groups := [][]string{
		{"select -", "go", "stop", "select !"},
		{"freq 100000123", "freq?", "rate 2400000", "rate?"},
		{"gain -40", "gain?", "gain 179.9", "device"},
		{"dest 10.2.0.9:77", "dest?", "go", "stop"},
		{"freq 4294967295", "freq?", "rate 2147483647", "rate?"},
		{"freq 2147483649", "freq?", "rate 19999999", "rate?"},
	}
	gw := words(4, 2, t.Pick(5, 6))
	deep := family("C27", "deep sequences of related calls", len(gw)*len(groups), lim, func(i int) []item {
		g := groups[i%len(groups)]
		p := []string{"select -"}
		for _, k := range gw[i/len(groups)] {
			p = append(p, g[k])
		}
		b := 1
		if len(p) > 6 {
			b = 0
		}
		return []item{{&S{Devs: []DC{devA}, Clients: []C{seq(p...)}}, binSync, 0, b}}
	})
	// Devices that refuse.
	ops := []string{"Open", "SetCenterFreq", "GetCenterFreq", "SetSampleRate", "GetSampleRate", "SetTunerGain", "GetTunerGain", "GetTunerGains", "GetXtalFreq", "SetAGCMode", "ResetBuffer", "Close"}
	fl := [][]string{
		{"select -", "freq 100000123", "freq?", "rate 2400000", "rate?", "gain -40", "gain?", "go", "stop", "go", "select !", "device"},
		{"select -", "device", "select -", "device", "freq 5000000", "freq?", "select -", "device"},
		{"select -", "freq 1e8", "freq 2e8", "freq?", "rate 1e6", "rate 2e6", "rate?", "gain 70", "gain 190", "gain?"},
	}
	var fails []item
	for _, op := range ops {
		for nth := 0; nth <= 3; nth++ {
			for _, l := range fl {
				for k, devs := range [][]DC{{devA}, {devB, devA}} {
					for udp := 0; udp <= 1; udp++ {
						fails = append(fails, item{&S{Devs: devs, MapOrder: k, Failures: []rtl.Failure{{Dev: 0, Op: op, Nth: nth}}, FailUDP: udp, Clients: []C{seq(l...)}}, binSync, 0, t.Pick(1, 2)})
					}
				}
			}
		}
	}
	// Samples: buffers of all kinds through the client's packet reader.
	const pk = 8192
	alpha := []int{2, 6, pk - 2, pk, pk + 2, 2*pk + 510}
	sw := words(len(alpha), 1, t.Pick(4, 5))
	samples := family("C27", "samples", len(sw), lim, func(i int) []item {
		var s []int
		np := 0
		for _, k := range sw[i] {
			s = append(s, alpha[k])
			np += (alpha[k] + pk - 1) / pk
		}
		acts := []A{call("dial"), call("select -"), call("go"), act("pkts", np), call("stop"), call("go"), act("pkts", 2), call("select -"), call("close")}
		return []item{{&S{Devs: []DC{devA}, Sizes: [][]int{s, {4}}, Data: true, Clients: []C{{Acts: acts}}}, binSync, 0, 0}}
	})
	var wrap []item
	for _, k := range []int{257, 65537, 66000} {
		acts := []A{call("dial"), call("select -"), call("go"), act("pkts", k), call("stop"), call("close")}
		wrap = append(wrap, item{&S{Devs: []DC{devA}, Sizes: [][]int{{2}}, Data: true, Clients: []C{{Acts: acts}}}, binSync, 0, 0})
	}
	// Long lives: short sequences over and over.
	var lives []item
	long := t.Pick(300, 1500)
	for _, g := range append(groups, []string{"select -", "antenna RX2", "antenna?", "dest nowhere"}, []string{"freq 99500000.5", "freq?", "rate 1000001", "rate?"}) {
		for _, w := range words(4, 1, 3) {
			p := []string{"select -"}
			for len(p) < long {
				for _, k := range w {
					p = append(p, g[k])
				}
			}
			lives = append(lives, item{&S{Devs: []DC{devA}, Long: true, Clients: []C{seq(p...)}}, binSync, 0, 0})
		}
	}
	for _, l := range fl {
		for _, devs := range devSets {
			var a []A
			for k := 0; k < long/5; k++ {
				a = append(a, seq(l...).Acts...)
			}
			lives = append(lives, item{&S{Devs: devs, Long: true, Clients: []C{{Acts: a}}}, binSync, 0, 0})
		}
	}
	// Two clients of the same server, the library's own and another one.
	var two []item
	for _, p := range [][]string{{"select -", "go", "stop"}, {"select -", "freq 1e8", "freq?", "go", "select !"}, {"select -", "select -", "device"}} {
		for _, q := range [][]string{{"DEVICE -"}, {"DEVICE -", "GO"}, {"DEVICE -", "FREQ 2e8", "DEVICE !"}} {
			for _, devs := range [][]DC{{devA}, {devA, devB}} {
				s := &S{Devs: devs, Clients: []C{seq(p...), client(cat([]A{dest(1)}, req(q...))...)}}
				two = append(two, bases(s, binSync, 2, 0, 2)...)
				if t.Thorough {
					two = append(two, bases(s, binSync, 3, 1)...)
				}
			}
		}
	}
	return []*mc.Family{list("C27", "long lives", lim, lives), list("C27", "devices that refuse", lim, fails), samples, list("C27", "many packets", lim, wrap), deep, list("C27", "another client", lim, two), all}
}

func init() {
	mc.Register(&mc.Check{ID: "C27", Level: "model_checking", Rule: serverRule, Assumptions: serverAssume, Families: c27})
}
