package main

import (
	"fmt"
	"strings"
	"time"

	"github.com/samuel/go-rtlsdr/rtl"
	"verif/harness/mc"
)

const serverRule = "one evaluation is one complete schedule of the real server (its real goroutines, channels, selects and timers) against scripted clients and simulated devices, under a controlled scheduler; the default schedulers (ascending, descending, round robin) are combined with every set of up to the bound of deviations at every scheduling point. States counts the scheduling decisions taken plus the schedules, transitions the scheduling steps. Afterwards every answer is judged by a sequential model, everything sent is compared with what the devices delivered, and new clients must find every device usable."

var serverAssume = []string{
	"the network, the operating system's signals, package sync's locks and the RTL-SDR library (which is not available offline) are replaced at build time by simulations; channels, selects, goroutines and timers are the real ones",
	"scheduling points are at every operation of these simulations and at every statement with a channel operation or go statement; in the statement families at every statement. Memory is sequentially consistent in between; data races are looked for by the race detector on the same schedules",
	"schedules are complete up to the stated number of deviations from three deterministic default schedulers",
	"time passes only when nothing else can happen",
	"requests are lines of at most 4096 octets, destinations are literal addresses, device names are unique"}

// requests of the single client exploration
var reqs = []string{
	"DEVICE -", "GO", "STOP", "DEVICE !", // the core comes first
	"FREQ 100000123", "FREQ", "RATE 2400000", "RATE", "GAIN -40", "GAIN", "DEST 10.2.0.9:77", "DEST",
	"ANTENNA RX2", "ANTENNA", "DEVICE", "DEVICE nonsense", "HEADER ON", "FREQ abc", "RATE x", "GAIN ", "DEST nowhere",
	"go", "JUNK 1 2", "stop now", "freq 99.5e6", "DEVICE  -", "GAIN 500.7", "DEST 1.2.3.4:99999", "-", "OK",
	"FREQ 2200000000", "RATE 3200000", "GAIN 40",
}

var devSets = [][]DC{{devA}, {devB, devC}, {devD}, {}, {{Name: ""}, devA}}

func c24(t mc.Tier) []*mc.Family {
	lim := 60 * time.Second
	nr := len(reqs)
	// All sequences of requests of one client on the default schedule.
	w2 := words(nr, 1, 2)
	seqs := family("C24", "one client, all request sequences", len(w2)*len(devSets), lim, func(i int) []item {
		devs := devSets[i%len(devSets)]
		p := w2[i/len(devSets)]
		last := 1
		if len(p) == 2 && (t.Thorough || i%len(devSets) == 0) {
			last = nr
		}
		var it []item
		for x := -1; x < last-1; x++ {
			a := []A{act("req", reqs[0])}
			if i%2 == 1 {
				a = nil
			}
			for _, k := range p {
				a = append(a, act("req", reqs[k]))
			}
			if x >= 0 {
				a = append(a, act("req", reqs[x]))
			}
			it = append(it, item{&S{Devs: devs, Clients: []C{client(a...)}}, binSync, 0, 0})
		}
		return it
	})
	core := words(4, 3, t.Pick(5, 7))
	deep := family("C24", "one client, all sequences of selecting, starting, stopping and releasing", len(core), lim, func(i int) []item {
		var a, b []A
		for _, k := range core[i] {
			a = append(a, act("req", reqs[k]))
			b = append(b, act("req", reqs[k]))
			if k == 1 {
				b = append(b, act("req", "FREQ"), act("req", "RATE"))
			}
		}
		bound := 1
		if len(core[i]) > 5 {
			bound = 0
		}
		s := &S{Devs: []DC{devA}, Clients: []C{client(a...)}}
		e := &S{Devs: []DC{devA}, Sizes: [][]int{{8, 8}, {}}, Ends: []bool{true, true}, Clients: []C{client(b...)}}
		return []item{{s, binSync, 0, bound}, {e, binSync, 0, bound}}
	})
	// Starting, stopping, leaving against the stream of the device.
	steps := [][]A{{act("req", "GO")}, {act("req", "STOP")}, {act("req", "DEVICE -")}, {act("req", "DEVICE !")}, {act("send", "GO\nSTOP\n")}, {act("send", "STOP\nGO\n")}}
	ends := [][]A{{act("close")}, {act("reset")}, {act("send", "GO\n"), act("close")}, {act("send", "STOP\n"), act("close")}, {act("send", "GO\n"), act("reset")}, {act("send", "DEVICE !\nDEVICE -\nGO\n"), act("close")}, {act("send", "GO\nST"), act("closewrite")}}
	streams := []func(*S){
		func(s *S) {},
		func(s *S) { s.Extra = true },
		func(s *S) { s.InFlight = 2 },
		func(s *S) { s.Sizes, s.Ends = [][]int{{8}}, []bool{true} },
		func(s *S) { s.Sizes, s.Ends, s.Extra = [][]int{{}, {8, 8}}, []bool{true, false}, true },
	}
	sw := words(len(steps), 1, t.Pick(2, 3))
	race := func(bin string, bound, depth int) func(i int) []item {
		return func(i int) []item {
			p := sw[i%len(sw)]
			e := i / len(sw)
			var it []item
			if len(p) > depth {
				return nil
			}
			for _, m := range streams {
				a := cat([]A{act("connect")}, req("DEVICE -", "GO"))
				for _, k := range p {
					a = append(a, steps[k]...)
				}
				a = append(a, ends[e]...)
				s := &S{Devs: []DC{devA}, Clients: []C{{Acts: a}}}
				m(s)
				b := bound
				if bound == 2 && len(p) == 3 {
					b = 1
				}
				it = append(it, item{s, bin, 0, b})
				if len(p) == 1 || t.Thorough {
					it = append(it, item{s, bin, 2, 1})
				}
			}
			return it
		}
	}
	n := len(sw) * len(ends)
	stop := family("C24", "stream end races at operations", n, lim, race(binSync, 2, 3))
	stmts := family("C24", "stream end races at statements", n, lim, race(binAll, 1, t.Pick(1, 2)))
	races := family("C24", "stream end data races", n, lim, race(binRace, 1, t.Pick(1, 2)))
	// Two clients.
	cw := words(4, 1, 3)
	pairs := family("C24", "two clients, all short sequences", len(cw)*len(cw), lim, func(i int) []item {
		p, q := cw[i%len(cw)], cw[i/len(cw)]
		if len(p) < len(q) || len(p)+len(q) > t.Pick(5, 6) {
			return nil
		}
		mk := func(k int, w []int) C {
			a := []A{dest(k)}
			for _, x := range w {
				a = append(a, act("req", reqs[x]))
			}
			return client(a...)
		}
		s := &S{Devs: []DC{devA}, Clients: []C{mk(0, p), mk(1, q)}}
		return bases(s, binSync, 1, 0, 2)
	})
	hot := [][]string{{"DEVICE -", "GO", "STOP"}, {"DEVICE -", "GO"}, {"DEVICE -", "DEVICE -", "GO"}, {"DEVICE -", "GO", "DEVICE -"}, {"DEVICE -", "DEVICE !", "GO"}, {"DEVICE -"}}
	hotF := family("C24", "two clients, every pair of deviations", len(hot)*len(hot), lim, func(i int) []item {
		s := &S{Devs: []DC{devA}, Clients: []C{client(cat([]A{dest(0)}, req(hot[i%len(hot)]...))...), client(cat([]A{dest(1)}, req(hot[i/len(hot)]...))...)}}
		bound := 2
		if !t.Thorough && i%len(hot) > i/len(hot) {
			bound = 1
		}
		it := bases(s, binSync, bound, 0)
		it = append(it, bases(s, binRace, 1, 2)...)
		if t.Thorough {
			it = append(it, bases(s, binSync, 2, 1, 2)...)
			it = append(it, bases(s, binAll, 1, 0)...)
		}
		return it
	})
	// How requests arrive.
	lists := [][]string{
		{"DEVICE -", "FREQ 100000123", "FREQ", "GO", "STOP", "DEVICE !"},
		{"DEVICE -", "GO", "DEVICE -", "GO"},
		{"JUNK", "DEST", "DEST 10.2.0.9:77", "GO", "DEVICE -", "GO", "GO"},
	}
	type arr struct {
		text string
		cut  int
		mode int
	}
	var arrs []arr
	for _, l := range lists {
		for _, eol := range []string{"\n", "\r\n", "\n\n", " \n"} {
			text := strings.Join(l, eol) + eol
			step := t.Pick(3, 1)
			for cut := 0; cut <= len(text); cut += step {
				for mode := 0; mode < 6; mode++ {
					if mode > 2 && eol != "\n" {
						continue
					}
					arrs = append(arrs, arr{text, cut, mode})
				}
			}
		}
	}
	arrive := family("C24", "how requests arrive", len(arrs), lim, func(i int) []item {
		x := arrs[i]
		a := []A{act("connect")}
		switch x.mode {
		case 0: // in two parts
			a = append(a, act("send", x.text[:x.cut]), act("send", x.text[x.cut:]), act("recv"), act("close"))
		case 1: // only the first part, then the end
			a = append(a, act("send", x.text[:x.cut]), act("closewrite"))
		case 2: // only the first part, then gone
			a = append(a, act("send", x.text[:x.cut]), act("reset"))
		case 3: // without waiting for the greeting, in small reads
			a[0] = act("open")
			a = append(a, act("chunk", x.cut%5+1), act("send", x.text), act("closewrite"))
		case 4:
			a = append(a, act("send", x.text[:x.cut]), act("close"))
		case 5: // octet by octet around the cut
			lo, hi := max(0, x.cut-3), min(len(x.text), x.cut+3)
			a = append(a, act("send", x.text[:lo]))
			for k := lo; k < hi; k++ {
				a = append(a, act("send", x.text[k:k+1]))
			}
			a = append(a, act("send", x.text[hi:]), act("recv"), act("close"))
		}
		s := &S{Devs: []DC{devA}, Clients: []C{{Acts: a}}}
		b := 0
		if x.mode == 0 || x.mode == 2 || x.mode == 4 {
			b = 1
		}
		return []item{{s, binSync, 0, b}}
	})
	// Failing devices.
	ops := []string{"Open", "SetCenterFreq", "GetCenterFreq", "SetSampleRate", "GetSampleRate", "SetTunerGain", "GetTunerGain", "GetTunerGains", "GetXtalFreq", "SetAGCMode", "ResetBuffer", "ReadAsync", "Close"}
	fl := [][]string{
		{"DEVICE -", "FREQ 100000123", "FREQ", "RATE 2400000", "RATE", "GAIN -40", "GAIN", "GO", "STOP", "GO", "GO", "DEVICE !"},
		{"DEVICE -", "GO", "DEVICE -", "GO", "STOP", "FREQ", "RATE"},
		{"DEVICE -", "DEVICE -", "DEVICE -", "GO", "STOP"},
	}
	var fails []item
	for _, op := range ops {
		for nth := 0; nth <= 3; nth++ {
			for _, l := range fl {
				for _, devs := range [][]DC{{devA}, {devB, devA}} {
					for _, udp := range []int{0, 1} {
						s := &S{Devs: devs, Failures: []rtl.Failure{{Dev: 0, Op: op, Nth: nth}}, FailUDP: udp, Clients: []C{client(req(l...)...)}}
						fails = append(fails, item{s, binSync, 0, t.Pick(1, 2)})
					}
				}
			}
		}
	}
	failF := list("C24", "failing devices and sockets", lim, fails)
	// Failing accepts, many connections, odd octets.
	var misc []item
	for k := 1; k <= 3; k++ {
		misc = append(misc, item{&S{Devs: []DC{devA}, Clients: []C{{Acts: []A{act("accept-fail", k), act("connect"), act("req", "DEVICE -"), act("accept-fail", 1), act("close"), act("connect"), act("req", "DEVICE -"), act("close")}}}}, binSync, 0, 2})
		var cs []C
		for j := 0; j < 3; j++ {
			cs = append(cs, client(req("FREQ", "DEST", "JUNK")[:k]...))
		}
		misc = append(misc, bases(&S{Devs: []DC{devA}, Clients: cs}, binSync, 1)...)
	}
	for _, b := range []string{"\x00", "\x00\n", "\xff\xfe\n", "\t\n", "   \n", "\r\n", "GO\x00\n", "DEVICE\t-\n", strings.Repeat("A", 4000) + "\n", strings.Repeat("A ", 1900) + "\n", "FREQ " + strings.Repeat("9", 400) + "\n", "FREQ -1\nFREQ\n", "RATE -1\nRATE\n", "GAIN 1e300\nGAIN\n", "FREQ NaN\n", "FREQ Inf\n", "FREQ 0x10\n", "RATE 1e308\n", "GO GO GO\n", "DEST :\n", "DEST ::1\n", "DEST [::1]:5\nDEST\n", "DEST 1.2.3.4\nDEST\n", "DEST :0\n", "DEVICE ! !\n", "DEVICE - -\n", "%s%n\n", "FREQ %d\n", "DEVICE |\n"} {
		for _, pre := range []string{"", "DEVICE -\n", "DEVICE -\nGO\n"} {
			misc = append(misc, item{&S{Devs: []DC{devA}, Clients: []C{{Acts: []A{act("connect"), act("send", pre+b), act("closewrite")}}}}, binSync, 0, 1})
		}
	}
	for _, n := range []int{4095, 4096, 4097, 5000, 9000} {
		// too long a line may end the connection but nothing else
		misc = append(misc, item{&S{Devs: []DC{devA}, Clients: []C{{Acts: []A{act("connect"), act("req", "DEVICE -"), act("send", strings.Repeat("x", n)), act("reset")}}}}, binSync, 0, 1})
	}
	for _, n := range []int{4080, 4090, 4093, 4095, 4096, 4097, 8191, 8192, 8193, 65536, 70000} {
		for _, rest := range []string{"", "FREQ 99000000", " FREQ 99000000", "DEVICE !", "GO", "STOP", "DEST"} {
			for _, pre := range [][]A{{}, req("DEVICE -")} {
				misc = append(misc, item{&S{Devs: []DC{devA}, Clients: []C{client(cat(pre, []A{act("long", fmt.Sprint(n, " ", rest))})...)}}, binSync, 0, 1})
			}
		}
	}
	for k := 0; k < 4; k++ {
		misc = append(misc, item{&S{Devs: []DC{devA}, Clients: []C{{Acts: []A{act("open"), act([]string{"close", "reset", "closewrite", "close"}[k])}}, client(req("DEVICE -", "GO")...)}}, binSync, 0, 2})
	}
	miscF := list("C24", "odd octets, failing accepts, many connections", lim, misc)
	// Long lives: short sequences over and over, on one connection or on one each.
	var lives []item
	lw := words(4, 1, t.Pick(3, 4))
	long := t.Pick(1200, 6000)
	for _, w := range lw {
		var l []string
		for len(l) < long {
			for _, k := range w {
				l = append(l, reqs[k])
			}
		}
		lives = append(lives, item{&S{Devs: []DC{devA}, Long: true, Clients: []C{client(req(l...)...)}}, binSync, 0, 0})
		if t.Thorough || len(w) < 3 {
			lives = append(lives, item{&S{Devs: []DC{devA}, Long: true, Extra: true, Sizes: [][]int{{8, 8}}, Ends: []bool{true}, Clients: []C{client(cat(req("DEVICE -"), req(l...))...)}}, binSync, 2, 0})
		}
		var a []A
		for k := 0; k < long/2; k++ {
			a = append(a, act("connect"))
			for _, x := range w {
				a = append(a, act("req", reqs[x]))
			}
			a = append(a, act([]string{"close", "reset", "close", "closewrite"}[(k+len(w))%4]))
		}
		lives = append(lives, item{&S{Devs: []DC{devA}, Long: true, Clients: []C{{Acts: a}}}, binSync, 0, 0})
	}
	for _, l := range reqs {
		a := req("DEVICE -", "GO")
		for k := 0; k < long; k++ {
			a = append(a, act("req", l))
		}
		lives = append(lives, item{&S{Devs: []DC{devA}, Long: true, Clients: []C{client(a...)}}, binSync, 0, 0})
	}
	for _, op := range []string{"Open", "ResetBuffer", "ReadAsync", "Close", "SetCenterFreq", "GetTunerGains"} {
		a := []A{}
		for k := 0; k < long/3; k++ {
			a = append(a, req("DEVICE -", "GO", "STOP", "GO")...)
		}
		for _, udp := range []int{0, long} {
			lives = append(lives, item{&S{Devs: []DC{devA}, Long: true, FailUDP: udp, Failures: []rtl.Failure{{Dev: 0, Op: op}}, Clients: []C{client(a...)}}, binSync, 0, 0})
		}
	}
	for _, k := range []int{8, 32, 48, t.Pick(300, 1100)} { // at once
		for _, l := range [][]string{{"DEVICE -"}, {"DEVICE -", "GO"}, {"DEVICE -", "GO", "STOP"}} {
			var cs []C
			for j := 0; j < k; j++ {
				cs = append(cs, client(cat([]A{dest(j)}, req(l...))...))
			}
			lives = append(lives, bases(&S{Devs: []DC{devA, devB}, Long: true, Clients: cs}, binSync, 0)...)
			for j := range cs { // and all of them stay
				cs[j] = client(cat([]A{dest(j)}, req(l...), []A{act("meet")}, req("FREQ", "GO", "DEVICE -"))...)
			}
			lives = append(lives, bases(&S{Devs: []DC{devA, devB}, Long: true, Clients: cs}, binSync, 0, 2)...)
		}
	}
	// Interrupted.
	var intr []item
	for _, l := range [][]string{nil, {"DEVICE -"}, {"DEVICE -", "GO"}, {"DEVICE -", "GO", "STOP"}} {
		for _, e := range [][]A{{act("interrupt")}, {act("interrupt"), act("interrupt")}, {act("send", "GO\n"), act("interrupt")}, {act("close"), act("interrupt")}, {act("send", "DEVICE -\nGO\n"), act("interrupt"), act("close")}} {
			s := &S{Devs: []DC{devA}, Clients: []C{{Acts: cat([]A{act("connect")}, req(l...), e)}}}
			intr = append(intr, bases(s, binSync, 1)...)
			s2 := &S{Devs: []DC{devA}, Clients: []C{{Acts: cat([]A{act("connect")}, req(l...), e)}, client(req("DEVICE -", "GO")...)}}
			intr = append(intr, bases(s2, binSync, 1, 0, 2)...)
		}
	}
	for k := 0; k <= 2; k++ {
		intr = append(intr, bases(&S{Devs: []DC{devA}, Clients: []C{{Acts: []A{act("accept-fail", k), act("interrupt")}}}}, binSync, 2)...)
	}
	// Clients that are silent for long, with and without a device and a stream.
	var idle []item
	for _, d := range []string{"2s", "90s", "31m", "26h", "1000h"} {
		w := act("idle", d)
		for _, a := range [][]A{
			cat([]A{w}, req("FREQ", "DEST"), []A{w}, req("JUNK")),
			cat(req("DEVICE -"), []A{w}, req("FREQ 100000123", "FREQ", "GO"), []A{w}, req("STOP", "RATE"), []A{w}, req("GO")),
			cat(req("DEVICE -", "GO", "STOP"), []A{w, w}, req("GO", "GAIN", "DEVICE !"), []A{w}, req("DEVICE -", "GO")),
			{act("send", "DEVICE -\nFR"), w, act("send", "EQ\n"), act("recv"), w, act("req", "GO")},
		} {
			for k, sz := range [][][]int{{{8}}, {{8, 8, 8}}, {{8}, {}}} {
				idle = append(idle, bases(&S{Devs: []DC{devA}, Sizes: sz, Ends: []bool{k > 0, k > 0}, Extra: k == 1, Clients: []C{client(a...)}}, binSync, 1, 0, 2)...)
			}
			idle = append(idle, bases(&S{Devs: []DC{devA}, Clients: []C{client(a...), client(req("DEVICE -", "GO", "STOP")...)}}, binSync, 0)...)
		}
	}
	idleF := list("C24", "long silences", lim, idle)
	// No client has to wait for what another one does next: each of two or three
	// clients goes on only when the others have got their answers.
	var turn []item
	mw := words(4, 0, 2)
	for x, p := range mw {
		for y, q := range mw {
			mk := func(k int, w, v []int) C {
				a := []A{dest(k)}
				for _, x := range w {
					a = append(a, act("req", reqs[x]))
				}
				a = append(a, act("meet"))
				for _, x := range v {
					a = append(a, act("req", reqs[x]))
				}
				return client(append(a, act("meet"))...)
			}
			for _, devs := range [][]DC{{devA}, {devA, devB}} {
				s := &S{Devs: devs, Clients: []C{mk(0, p, q), mk(1, q, p)}}
				turn = append(turn, bases(s, binSync, t.Pick(0, 1), 0, 2)...)
				if x <= y && len(p)+len(q) > 1 {
					s := &S{Devs: devs, Extra: true, Clients: []C{mk(0, p, q), mk(1, q, q), mk(2, q, p)}}
					turn = append(turn, bases(s, binSync, 0)...)
				}
			}
			if len(p) > 0 && len(q) > 0 { // the other one goes away for a while, or for good
				a := mk(0, p, q)
				b := C{Acts: cat([]A{act("open"), act("meet"), act("greet")}, req("DEVICE -", "GO"), []A{act("meet"), act("reset")})}
				turn = append(turn, bases(&S{Devs: []DC{devA}, Clients: []C{a, b}}, binSync, 1, 0, 2)...)
				b = C{Acts: cat([]A{act("connect"), act("send", "DEVICE -\nG"), act("meet"), act("send", "O\n"), act("recv"), act("meet"), act("close")})}
				turn = append(turn, bases(&S{Devs: []DC{devA}, Clients: []C{a, b}}, binSync, 1, 0, 2)...)
			}
		}
	}
	fs := []*mc.Family{list("C24", "nobody waits for another", lim, turn), idleF, list("C24", "interrupted", lim, intr), list("C24", "long lives", lim, lives), arrive, failF, miscF, stop, races, hotF, seqs, deep, stmts, pairs}
	return fs
}

func init() {
	mc.Register(&mc.Check{ID: "C24", Level: "model_checking", Rule: serverRule, Assumptions: serverAssume, Families: c24})
	_ = fmt.Sprint
}
