package main

import (
	"fmt"
	"net"
	"strings"
	"sync"

	"github.com/samuel/go-dsp/borip"
	"verif/harness/mc"
)

type table struct {
	mu  sync.Mutex
	n   int
	con map[string]*conn
	err map[string]error
}

func newTable() *table { return &table{con: map[string]*conn{}, err: map[string]error{}} }

func (t *table) put(c *conn, err error) string {
	t.mu.Lock()
	defer t.mu.Unlock()
	t.n++
	a := fmt.Sprintf("10.0.0.2:%d", t.n)
	t.con[a], t.err[a] = c, err
	return a
}
func (t *table) del(a string) {
	t.mu.Lock()
	defer t.mu.Unlock()
	delete(t.con, a)
	delete(t.err, a)
}
func (t *table) get(network, a string) (net.Conn, error) {
	t.mu.Lock()
	defer t.mu.Unlock()
	if err := t.err[a]; err != nil {
		return nil, err
	}
	if t.con[a] == nil {
		return nil, fmt.Errorf("unexpected dial to %q %q", network, a)
	}
	return t.con[a], nil
}

// operations of the state exploration
const (
	oSelect = iota
	oRelease
	oGo
	oStop
	oFreq
	oRate
	nOps
)

var opNames = []string{"SelectDevice(a)", "SelectDevice(!)", "Go", "Stop", "Frequency", "SetRate"}

// answers: ok, failure, nonsense, another command's answer, empty line, lost, lost within the line, write failure
const nAns = 8

var ansNames = []string{"success", "failure", "malformed", "for another command", "empty line", "connection lost", "lost within the line", "request not sent"}

func answerFor(op, a int) answer {
	cmd := []string{"DEVICE", "DEVICE", "GO", "STOP", "FREQ", "RATE"}[op]
	ok := []string{"DEVICE " + goodDevices[2], "DEVICE -", "GO OK", "STOP OK", "FREQ 100", "RATE OK 5"}[op]
	fail := []string{"DEVICE - no such device", "DEVICE - cannot", "GO RUNNING", "STOP STOPPED", "FREQ -", "RATE FAIL"}[op]
	switch a {
	case 0:
		return answer{text: ok + "\n"}
	case 1:
		return answer{text: fail + "\n"}
	case 2:
		if op == oSelect {
			return answer{text: cmd + " a|1|x|3\n"}
		}
		return answer{text: cmd + "\n"}
	case 3:
		other := "STOP OK\n"
		if op == oStop {
			other = "GO OK\n"
		}
		return answer{text: other}
	case 4:
		return answer{text: "\n"}
	case 5:
		return answer{lost: true}
	case 6:
		return answer{text: ok[:len(ok)-1], lost: true}
	}
	return answer{wfail: true}
}

func apply(b *borip.BorIP, op int) error {
	var err error
	switch op {
	case oSelect:
		_, err = b.SelectDevice("a")
	case oRelease:
		_, err = b.SelectDevice("!")
	case oGo:
		err = b.Go()
	case oStop:
		err = b.Stop()
	case oFreq:
		_, err = b.Frequency()
	case oRate:
		_, err = b.SetRate(5)
	}
	return err
}

var opLine = []string{"DEVICE a", "DEVICE !", "GO", "STOP", "FREQ", "RATE 5"}

// tri is a model value that an observation may resolve.
type step struct{ op, ans int }

func (s step) String() string { return opNames[s.op] + " (" + ansNames[s.ans] + ")" }

// history runs steps, then Close with the answers given for its requests.
func history(c *mc.Ctx, steps []step, closeAns [2]int) error {
	return historyOn(c, &conn{}, steps, closeAns)
}

func historyOn(c *mc.Ctx, s *conn, steps []step, closeAns [2]int) error {
	s.greeting = "DEVICE -\n"
	b, err := dial(s, nil)
	if err != nil {
		return mc.V("dial", "Dial fails with %v although the server greets", err)
	}
	c.Evals++
	c.Traces++
	running, device, anyDevice := false, false, false
	dead := false
	for n, st := range steps {
		a := answerFor(st.op, st.ans)
		for len(s.answers) < len(s.lines) {
			s.answers = append(s.answers, answer{})
		}
		s.answers = append(s.answers[:len(s.lines)], a)
		before := len(s.lines)
		err := apply(b, st.op)
		c.Transitions++
		c.States++
		answered := !dead && st.ans < 5
		good := answered && st.ans == 0
		if st.ans == 7 || st.ans == 5 || st.ans == 6 {
			dead = true
		}
		if good != (err == nil) {
			return mc.V("result", "%v: step %d returned %v", steps, n, err)
		}
		if !dead && (len(s.lines) != before+1 || s.lines[before] != opLine[st.op]) {
			return mc.V("request", "%v: step %d sent %q", steps, n, s.lines[before:])
		}
		if answered {
			switch st.op {
			case oSelect:
				device = good
				anyDevice = false
			case oRelease:
				if good {
					device, anyDevice = false, false
				} else {
					// The server refused to release (or was not understood): the
					// last answered selection did not succeed.
					device, anyDevice = false, false
				}
			case oGo:
				running = running || good
			case oStop:
				running = running && !good
			}
		}
		if d := b.Device(); !anyDevice && (d != nil) != device {
			return mc.V("device", "%v: after step %d Device() is %v although the last answered selection %s", steps, n, d, map[bool]string{true: "succeeded", false: "did not succeed"}[device])
		}
	}
	before := len(s.lines)
	// Script the close.
	var want []string
	if running {
		want = append(want, "STOP")
	}
	if device {
		want = append(want, "DEVICE !")
	}
	for len(s.answers) < len(s.lines) {
		s.answers = append(s.answers, answer{})
	}
	s.answers = s.answers[:len(s.lines)]
	must := len(want)
	for k, w := range want {
		op := oStop
		if w == "DEVICE !" {
			op = oRelease
		}
		s.answers = append(s.answers, answerFor(op, closeAns[k]))
		if must == len(want) && (closeAns[k] >= 5) {
			must = k + 1
			if closeAns[k] == 7 {
				must = k
			}
		}
	}
	if dead {
		must = 0
	}
	b.Close()
	c.Transitions++
	got := s.lines[before:]
	what := ""
	if s.closed == 0 || len(got) > 0 || len(want) > 0 || s.wbuf != "" || len(s.late) > 0 {
		what = fmt.Sprintf("%v, then Close", steps)
	}
	if s.closed == 0 {
		return mc.V("leak", "%s (answers %s, %s): the connection is not closed", what, ansNames[closeAns[0]], ansNames[closeAns[1]])
	}
	if s.wbuf != "" && !s.wbroken {
		return mc.V("close", "%s sent an incomplete %q", what, s.wbuf)
	}
	if len(s.late) > 0 {
		return mc.V("close", "%s sent %q after closing the connection", what, s.late)
	}
	if len(got) > len(want) || len(got) < must || strings.Join(got, "\n") != strings.Join(want[:min(len(got), len(want))], "\n") {
		return mc.V("close", "%s (answers %s, %s) sent %q, not %q", what, ansNames[closeAns[0]], ansNames[closeAns[1]], got, want)
	}
	if len(want) > 0 {
		c.Nontrivial++
	}
	return nil
}

func stateFamilies(t mc.Tier) []*mc.Family {
	depth := t.Pick(4, 5)
	sym := nOps * nAns
	// A history whose connection died continues only in a few ways.
	hist := &mc.Family{Name: "all operation and answer sequences", N: sym * sym, Run: func(c *mc.Ctx, i int) error {
		var rec func(st []step, dead int) error
		rec = func(st []step, dead int) error {
			closes := [][2]int{{0, 0}, {1, 0}, {0, 1}, {2, 2}, {5, 5}}
			if len(st) < depth {
				closes = nil
				for a := 0; a < nAns; a++ {
					for b := 0; b < nAns; b++ {
						closes = append(closes, [2]int{a, b})
					}
				}
			}
			for _, cl := range closes {
				if err := history(c, st, cl); err != nil {
					return err
				}
				if dead > 0 {
					break
				}
			}
			if len(st) >= depth {
				return nil
			}
			for x := 0; x < sym; x++ {
				s := step{x % nOps, x / nOps}
				if len(st) >= 3 && (s.op >= oFreq || s.ans == 3 || s.ans == 4) {
					continue
				}
				if dead > 0 && s.ans != 0 {
					continue
				}
				d := dead
				if s.ans >= 5 {
					d++
				}
				if err := rec(append(st[:len(st):len(st)], s), d); err != nil {
					return err
				}
			}
			return nil
		}
		a, b := i%sym, i/sym
		first, second := step{a % nOps, a / nOps}, step{b % nOps, b / nOps}
		d := 0
		if first.ans >= 5 {
			d++
		}
		if b == 0 {
			for x := 0; x < 64; x++ {
				if err := history(c, []step{first}, [2]int{x % 8, x / 8}); err != nil {
					return err
				}
			}
			if a == 0 {
				if err := history(c, nil, [2]int{}); err != nil {
					return err
				}
			}
		}
		if d > 0 && second.ans != 0 {
			return nil
		}
		if second.ans >= 5 {
			d++
		}
		if c.WantSample() {
			c.Sample("%v, %v and all continuations", first, second)
		}
		return rec([]step{first, second}, d)
	}}
	// Connection set-up.
	greet := []string{"DEVICE -\n", "DEVICE -\r\n", "", "D", "DEVICE -", "\n", "hello\n", "DEVICE x|1\n", strings.Repeat("x", 5000), strings.Repeat("x", 5000) + "\n", "\x00\n", "DEVICE - - -\n"}
	setup := &mc.Family{Name: "connection set-up", N: len(greet) * 12, Run: func(c *mc.Ctx, i int) error {
		g := greet[i%len(greet)]
		s := &conn{greeting: g, chunk: i / len(greet)}
		b, err := dial(s, nil)
		c.Evals++
		c.Nontrivial++
		c.States++
		c.Traces++
		if err == nil && b == nil || err != nil && b != nil {
			return mc.V("dial", "greeted %q, Dial returns %v, %v", g, b, err)
		}
		if strings.HasPrefix(g, "DEVICE -\n") && err != nil {
			return mc.V("dial", "Dial fails with %v although the server greets %q", err, g)
		}
		if !strings.Contains(g, "\n") && err == nil {
			return mc.V("dial", "Dial succeeds although the connection ends with the greeting %q", g)
		}
		if err != nil && s.closed == 0 {
			return mc.V("leak", "Dial greeted with %q fails with %v and leaves the connection open", g, err)
		}
		if err == nil && s.closed != 0 {
			return mc.V("dial", "Dial greeted with %q closes the connection it returns", g)
		}
		if len(s.lines) > 0 || s.wbuf != "" {
			return mc.V("dial", "Dial sent %q %q", s.lines, s.wbuf)
		}
		if err == nil {
			if b.Device() != nil {
				return mc.V("device", "a new client reports a device")
			}
			b.Close()
			if s.closed == 0 {
				return mc.V("leak", "Close leaves the connection open")
			}
			if len(s.lines) > 0 {
				return mc.V("close", "closing a new client sends %q", s.lines)
			}
		}
		if _, err := dial(nil, errDialed); err == nil {
			return mc.V("dial", "Dial succeeds although no connection is made")
		}
		return nil
	}}
	// Long histories: every cycle of up to three steps (success, refusal,
	// nonsense), gone round many times.
	cyc := &mc.Family{Name: "long cyclic histories", N: (nOps * 3) * (nOps * 3), Run: func(c *mc.Ctx, i int) error {
		sym := nOps * 3
		mk := func(x int) step { return step{x % nOps, x / nOps} }
		run := func(cycle []step, rounds int) error {
			var st []step
			for len(st) < rounds*len(cycle) {
				st = append(st, cycle[len(st)%len(cycle)])
			}
			for cut := 0; cut < len(cycle); cut++ {
				if err := history(c, st[:len(st)-cut], [2]int{}); err != nil {
					v := err.(*mc.Viol)
					return mc.V(v.Key, "the cycle %v gone round %d times: ...%s", cycle, rounds, v.What[max(0, len(v.What)-300):])
				}
			}
			return nil
		}
		a, b := mk(i%sym), mk(i/sym)
		if i%sym == i/sym {
			if err := run([]step{a}, t.Pick(2000, 70000)); err != nil {
				return err
			}
		}
		if err := run([]step{a, b}, 150); err != nil {
			return err
		}
		for x := 0; x < sym; x++ {
			if err := run([]step{a, b, mk(x)}, 20); err != nil {
				return err
			}
		}
		return nil
	}}
	// Every kind of connection loss, dial failure and greeting loss.
	kinds := &mc.Family{Name: "every kind of connection loss", N: len(sockErrs) * nOps, Run: func(c *mc.Ctx, i int) error {
		e, op := sockErrs[i%len(sockErrs)], i/len(sockErrs)
		for _, lossAt := range []int{5, 6, 7} {
			for pre := 0; pre < nOps*nOps; pre++ {
				for _, together := range []bool{false, true} {
					st := []step{{pre % nOps, 0}, {pre / nOps, 0}, {op, lossAt}}
					for n := 0; n < 2; n++ {
						if err := historyOn(c, &conn{rerr: e, werr: e, together: together}, st[n:], [2]int{}); err != nil {
							v := err.(*mc.Viol)
							return mc.V(v.Key, "connection ends with %v: %s", e, v.What)
						}
						if err := historyOn(c, &conn{rerr: e, werr: e, together: together}, st[n:2], [2]int{lossAt, lossAt}); err != nil {
							v := err.(*mc.Viol)
							return mc.V(v.Key, "connection ends with %v: %s", e, v.What)
						}
					}
				}
			}
		}
		if op > 0 {
			return nil
		}
		if b, err := dial(nil, e); err == nil || b != nil {
			return mc.V("dial", "Dial succeeds although no connection is made (%v)", e)
		}
		for n := 0; n < len("DEVICE -\n"); n++ {
			for _, together := range []bool{false, true} {
				s := &conn{greeting: "DEVICE -\n"[:n], rerr: e, together: together, broken: true}
				b, err := dial(s, nil)
				c.Evals++
				if err == nil || b != nil {
					return mc.V("dial", "Dial succeeds although the connection ends with %v after %q", e, s.greeting)
				}
				if s.closed == 0 {
					return mc.V("leak", "Dial greeted with %q and then %v leaves the connection open", s.greeting, e)
				}
			}
		}
		return nil
	}}
	return []*mc.Family{setup, kinds, cyc, hist}
}
