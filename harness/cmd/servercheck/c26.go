package main

import (
	"net"
	"strings"
	"time"

	"verif/harness/mc"
)

func c26(t mc.Tier) []*mc.Family {
	lim := 100 * time.Second
	const pk = 8192 // octets of the device per datagram
	pkts := func(sizes ...int) int {
		n := 0
		for _, s := range sizes {
			n += (s + pk - 1) / pk
		}
		return n
	}
	one := func(sizes []int, end bool) *S {
		n := pkts(sizes...)
		acts := []A{act("req", "DEVICE -"), act("req", "GO"), act("pkts", n)}
		if !end {
			acts = append(acts, act("req", "STOP"))
		}
		s := &S{Devs: []DC{devA}, Sizes: [][]int{sizes}, Ends: []bool{end}, Data: true, Clients: []C{client(acts...)}}
		return s
	}
	// Every buffer size.
	var sizes []int
	seen := map[int]bool{}
	add := func(n int) {
		if n > 0 && !seen[n] {
			seen[n] = true
			sizes = append(sizes, n)
		}
	}
	for n := 1; n <= t.Pick(2*pk+64, 6*pk); n++ {
		if n%2 == 1 && !t.Thorough && n > 600 && (n+300)%pk > 600 && n%7 > 0 {
			continue
		}
		add(n)
	}
	for k := 1; k <= t.Pick(9, 40); k++ {
		for d := -t.Pick(8, 64); d <= t.Pick(8, 64); d++ {
			add(k*pk + d)
		}
	}
	const per = 64
	buf := family("C26", "all buffer sizes", (len(sizes)+per-1)/per, lim, func(i int) []item {
		var it []item
		for k := i * per; k < len(sizes) && k < (i+1)*per; k++ {
			it = append(it, item{one(sizes[k:k+1], true), binSync, 0, 0})
		}
		return it
	})
	// Sequences of buffers.
	alpha := []int{2, 5, pk - 2, pk, pk + 1, pk + 2, 2 * pk, 2*pk + 510, 4*pk - 1}
	sw := words(len(alpha), 2, t.Pick(4, 5))
	seq := family("C26", "sequences of buffers", len(sw), lim, func(i int) []item {
		var s []int
		for _, k := range sw[i] {
			s = append(s, alpha[k])
		}
		return []item{{one(s, true), binSync, 0, 0}, {one(s, false), binSync, 0, 0}}
	})
	// Sequence numbers through the wrap-around.
	var wr []item
	for _, n := range []int{255, 256, 257, 511, 513, 32767, 32769, 65534, 65535, 65536, 65537, 66000, 131080} {
		if n > 70000 && !t.Thorough {
			continue
		}
		acts := []A{act("req", "DEVICE -"), act("req", "GO"), act("pkts", n), act("req", "STOP"), act("req", "GO"), act("pkts", 3), act("req", "STOP")}
		s := &S{Devs: []DC{devA}, Sizes: [][]int{{2}, {4}}, Data: true, Clients: []C{client(acts...)}}
		wr = append(wr, item{s, binSync, 0, 0})
	}
	wr = append(wr, item{one([]int{pk * t.Pick(300, 1000)}, true), binSync, 0, 0})
	// Restarts and changes of the destination between streams.
	type hist []A
	pre := []hist{
		{},
		{act("req", "DEST 10.7.7.7:7000")},
		{act("req", "DEST 10.7.7.7:7000"), act("req", "DEST nowhere")},
		{act("req", "DEVICE -")},
		{act("req", "DEVICE !"), act("req", "DEVICE -")},
		{act("req", "FREQ 99000000"), act("req", "RATE 250000"), act("req", "GAIN 71")},
	}
	round := func(h hist, p, k int, how []A) []A {
		return cat([]A(h), []A{act("req", "GO"), act("pkts", k)}, how)
	}
	hows := [][]A{req("STOP"), req("STOP", "STOP"), req("DEVICE -"), {act("send", "GO\nGO\nSTOP\n"), act("recv")}}
	restart := family("C26", "restarted streams", len(pre)*len(pre)*len(hows)*2, lim, func(i int) []item {
		a := round(pre[i%len(pre)], 0, 2, hows[i/len(pre)/len(pre)%len(hows)])
		b := round(pre[i/len(pre)%len(pre)], 1, 3, hows[0])
		sz := [][][]int{{{6, 10, pk + 2, 4}, {8, 4, pk, 2}}, {{2}, {pk + 2, 2}}}[i/len(pre)/len(pre)/len(hows)]
		s := &S{Devs: []DC{devA}, Sizes: sz, Clients: []C{client(cat(req("DEVICE -"), a, b)...)}}
		it := bases(s, binSync, t.Pick(1, 2), 0)
		if t.Thorough {
			it = append(it, bases(s, binSync, 2, 2)...)
		}
		return it
	})
	// Long lives: streams over and over.
	var lives []item
	long := t.Pick(300, 1500)
	for h := range pre {
		for w := range hows {
			var a, b, other []A
			for k := 0; k < long; k++ {
				other = append(other, round(nil, k, 1+k%4, hows[(w+k)%len(hows)])...)
				a = append(a, round(pre[h], k, 1+k%3, hows[w])...)
				b = append(b, round(pre[(h+k)%len(pre)], k, 1+k%2, hows[(w+k/7)%len(hows)])...)
			}
			for _, x := range [][]A{a, b} {
				x = cat(req("DEVICE -"), x)
				lives = append(lives, item{&S{Devs: []DC{devA}, Sizes: [][]int{{6, 2}, {8, 4, pk, 2}, {2}}, Long: true, Clients: []C{client(x...)}}, binSync, 0, 0})
				lives = append(lives, item{&S{Devs: []DC{devA, devC}, Sizes: [][]int{{6, 2}, {2}}, Extra: true, InFlight: 1, Long: true, Clients: []C{client(x...), client(cat([]A{dest(3), act("req", "DEVICE -")}, other)...)}}, binSync, 2, 0})
			}
		}
	}
	// When the stream is stopped: every schedule of starting and stopping.
	var stops []item
	for _, sz := range [][]int{{4}, {pk + 4}, {2, pk + 2, 3 * pk}, {3*pk + 6}} {
		for _, x := range []bool{false, true} {
			for fl := 0; fl <= 2; fl++ {
				for _, end := range [][]A{{act("req", "STOP"), act("close")}, {act("close")}, {act("reset")}, {act("send", "STOP\nGO\nSTOP\n"), act("recv"), act("close")}} {
					for wait := 0; wait <= 2; wait += 2 {
						a := []A{act("connect"), act("req", "DEVICE -"), act("req", "GO")}
						if wait > 0 {
							a = append(a, act("pkts", wait))
						}
						s := &S{Devs: []DC{devA}, Sizes: [][]int{sz, {2}}, Extra: x, InFlight: fl, Clients: []C{{Acts: cat(a, end)}}}
						stops = append(stops, item{s, binSync, 0, t.Pick(2, 3)})
						if wait == 0 && fl < 2 {
							stops = append(stops, item{s, binAll, 0, 1})
							if t.Thorough {
								stops = append(stops, item{s, binAll, 2, 2})
							}
						}
					}
				}
			}
		}
	}
	// Two streams at the same time.
	var both []item
	for _, sz := range [][][]int{{{6}, {10}}, {{pk + 2, 2}, {pk - 2, 4, pk}}, {{2, 4, 6, 8}, {2*pk + 6}}} {
		for _, n := range []int{1, 2, 3} {
			mk := func(k int) C {
				return client(dest(k), act("req", "DEVICE -"), act("req", "GO"), act("pkts", n), act("req", "STOP"))
			}
			s := &S{Devs: []DC{devA, devB}, Sizes: sz, Clients: []C{mk(0), mk(1)}}
			both = append(both, bases(s, binSync, t.Pick(1, 2), 0, 2)...)
			both = append(both, bases(s, binSync, 1, 1)...)
			both = append(both, bases(s, binAll, 1, 0, 2)...)
			both = append(both, bases(s, binRace, 1, 2)...)
			s3 := &S{Devs: []DC{devA, devB, devC}, Sizes: sz, MapOrder: 1, Clients: []C{mk(0), mk(1), mk(2)}}
			both = append(both, bases(s3, binSync, 1, 0, 2)...)
		}
	}
	// Where the clients come from and where their streams go.
	homes := []string{"", "10.9.8.7", "fe80::1%eth0", "fe80::1%eth1", "2001:db8::7", "::1", "127.0.0.1"}
	away := [][]A{{}, req("DEST"), req("DEST [2001:db8::9]:5"), req("DEST [fe80::1%eth0]:28888"), req("DEST nowhere"), req("DEST 10.9.8.7:28888", "DEST"), {act("close"), act("connect")}}
	toF := family("C26", "addresses of the clients", len(homes)*len(homes), lim, func(i int) []item {
		var it []item
		a, b := homes[i%len(homes)], homes[i/len(homes)]
		if a == b {
			return nil
		}
		for _, x := range away {
			for _, y := range away[:t.Pick(2, len(away))] {
				mk := func(h string, w []A) C {
					c := client(cat(w, req("DEVICE -", "GO"), []A{act("pkts", 2)}, req("STOP"))...)
					c.Addr = h
					return c
				}
				s := &S{Devs: []DC{devA, devB}, Sizes: [][]int{{6, 2}, {4, 2}, {2}}, Clients: []C{mk(a, x), mk(b, y)}}
				if x := destOf(a, x); x == destOf(b, y) || x == "" {
					continue
				}
				it = append(it, bases(s, binSync, t.Pick(0, 1), 0, 1)...)
			}
		}
		return it
	})
	// The network refuses some of the datagrams.
	rw := [][]int{{1}, {2}, {3}, {1, 2}, {2, 3}, {1, 3}, {1, 2, 3}, {1, 2, 3, 4, 5, 6, 7, 8, 9}, {2, 4, 6, 8}}
	refuse := family("C26", "refused datagrams", len(rw)*8, lim, func(i int) []item {
		sz := [][]int{{2}, {6, 2}, {pk, 4}, {pk + 2, 2, pk - 2}, {3*pk + 4, 2}, {2 * pk}, {8, 8, 8}, {5 * pk}}[i/len(rw)]
		end := one(sz, true)
		end.Refuse = rw[i%len(rw)]
		a := act("pkts", pkts(sz...)+2)
		s := &S{Devs: []DC{devA}, Sizes: [][]int{sz}, Refuse: end.Refuse, Clients: []C{client(cat(req("DEVICE -", "GO"), []A{a}, req("STOP", "GO"), []A{a}, req("STOP"))...)}}
		return append(bases(end, binSync, 1, 0), bases(s, binSync, 1, 0, 2)...)
	})
	return []*mc.Family{toF, refuse, list("C26", "long lives", lim, lives), list("C26", "sequence numbers", lim, wr), buf, seq, restart, list("C26", "stopping", lim, stops), list("C26", "several streams", lim, both)}
}

// destOf is the destination of a client from home that does acts.
func destOf(home string, acts []A) string {
	if home == "" {
		home = "10.0.0.1"
	}
	d := net.JoinHostPort(home, "28888")
	for _, a := range acts {
		if f := strings.Fields(a.Arg); len(f) == 2 && f[0] == "DEST" && f[1] != "nowhere" {
			d = f[1]
		}
	}
	return d
}

func init() {
	mc.Register(&mc.Check{ID: "C26", Level: "model_checking", Rule: serverRule, Assumptions: serverAssume, Families: c26})
}
