package serverdrv

import (
	"fmt"
	"math"
	"net"
	"os"
	"runtime"
	"strconv"
	"strings"
	"sync"
	"testing/synctest"
	"time"

	"github.com/samuel/go-rtlsdr/rtl"
	"verif/harness/gate"
	"verif/harness/vnet"
	"verif/harness/vsignal"
)

// violation of one property.
type violation struct{ prop, key, what string }

func (v *violation) Error() string { return v.what }

func viol(prop, key, f string, a ...any) *violation {
	return &violation{prop, key, fmt.Sprintf(f, a...)}
}

// reqRec is one request and what came back, with what was observable then.
type reqRec struct {
	line       string
	start, end int
	resp       string
	got        bool
	busy       []bool // per device: unavailable at some moment of the request (when its response came)
	open       []bool
	piped      bool // sent before the previous one was answered
	batch      bool // answered together with the previous one
}

// actor is one scripted client.
type actor struct {
	id       int
	name     string
	script   []Act
	cli, srv *vnet.StreamConn
	buf      string
	eof      bool
	reqs     []*reqRec
	conns    []*conn
	cur      *conn
	doing    string
	done     bool
	real     *realClient
	addr     string
	bad      *violation
	met      int
}

// conn is the history of one connection of an actor.
type conn struct {
	cli, srv *vnet.StreamConn
	greeting string
	greeted  bool
	reqs     []*reqRec
	pending  int // index of the first unanswered request
	extra    []string
	closed   int // clock when the client ended it
	brutal   bool
	drained  bool // the client read until the server closed it
	partial  bool
	cut      bool // the server ended it while the client awaited an answer
	consumed int  // octets of the lines taken
	last     int  // clock at which the previous line was written
}

type run struct {
	sc     *Scenario
	w      *rtl.World
	n      *vnet.Net
	actors []*actor
	mu     sync.Mutex
	wait   map[string]*pktWait
	sent   map[string]int
	base   map[string]int // datagrams before the last start
	stats  *Response
	// the server's main function returned; somebody interrupted it
	exited, interrupted bool
	ctl                 *gate.Ctl
	first               int // goroutines before the first client
	meets               map[int]*meeting
}

// meeting is where the clients that have it in their scripts await each other.
type meeting struct {
	n  int
	ch chan struct{}
}

// meet is the k-th meeting of a client.
func (r *run) meet(k int) chan struct{} {
	r.mu.Lock()
	defer r.mu.Unlock()
	if r.meets == nil {
		r.meets = map[int]*meeting{}
	}
	m := r.meets[k]
	if m == nil {
		m = &meeting{ch: make(chan struct{})}
		for _, c := range r.sc.Clients {
			n := 0
			for _, s := range c.Acts {
				if s.Op == "meet" {
					n++
				}
			}
			if n > k {
				m.n++
			}
		}
		r.meets[k] = m
	}
	m.n--
	if m.n == 0 {
		close(m.ch)
	}
	return m.ch
}

type pktWait struct {
	n  int
	ch chan struct{}
}

const port = "28888"

func (r *run) setup(c *gate.Ctl, serverMain, reset func()) {
	r.n = vnet.New()
	vnet.Use(r.n)
	r.n.FailUDP(r.sc.FailUDP)
	r.n.RefuseUDP(r.sc.Refuse)
	vsignal.Start()
	r.ctl = c
	gate.MapOrder = r.sc.MapOrder
	gate.MaxSteps = 20000
	if r.sc.Data || r.sc.Long {
		gate.MaxSteps = 2000000
	}
	r.w = rtl.NewWorld(r.sc.Devs)
	r.w.Failures = r.sc.Failures
	r.w.Extra, r.w.InFlight = r.sc.Extra, r.sc.InFlight
	r.w.Sizes = func(d, n int) ([]int, bool) {
		if len(r.sc.Sizes) == 0 {
			return []int{8}, false
		}
		k := n - 1
		if k >= len(r.sc.Sizes) {
			k = len(r.sc.Sizes) - 1
		}
		end := false
		if k < len(r.sc.Ends) {
			end = r.sc.Ends[k]
		}
		return r.sc.Sizes[k], end
	}
	rtl.W = r.w
	vnet.Progress = r.w.Progress
	vnet.Clock = r.w.Tick
	vnet.Arrive = r.arrive
	r.wait, r.sent, r.base = map[string]*pktWait{}, map[string]int{}, map[string]int{}
	go func() {
		gate.Name("server")
		reset()
		serverMain()
		gate.Log("the server's main function returned")
		r.mu.Lock()
		r.exited = true
		c.Halt = r.interrupted // the process ends here
		r.mu.Unlock()
	}()
}

func (r *run) arrive(u *vnet.UDPConn) {
	r.mu.Lock()
	defer r.mu.Unlock()
	d := u.Remote.String()
	r.sent[d]++
	r.stats.Packets++
	if w := r.wait[d]; w != nil && r.sent[d]-r.base[d] >= w.n {
		close(w.ch)
		delete(r.wait, d)
	}
}

// act is the body of one client goroutine.
func (a *actor) run(r *run) {
	for _, s := range a.script {
		a.doing = strings.TrimSpace(s.Op + " " + s.Arg)
		gate.At(a.name + ": " + a.doing)
		gate.Log("%s: %s", a.name, a.doing)
		a.step(r, s)
		if a.bad != nil {
			break
		}
	}
	a.done = true
}

func (a *actor) step(r *run, s Act) {
	switch s.Op {
	case "connect", "open":
		cli, srv, err := r.n.ConnectFrom(a.from(), "10.0.0.2:"+port)
		if err != nil {
			a.bad = viol("C24", "refused", "%s cannot connect: %v", a.name, err)
			return
		}
		cli.Quiet, cli.Resume = true, true
		a.cur = &conn{cli: cli, srv: srv}
		a.conns = append(a.conns, a.cur)
		a.buf, a.eof = "", false
		if s.Op == "connect" {
			a.greet(r)
		}
	case "greet":
		a.greet(r)
	case "chunk":
		a.cur.srv.MaxRead, _ = strconv.Atoi(s.Arg)
	case "accept-fail":
		n, _ := strconv.Atoi(s.Arg)
		r.n.FailAccepts(port, n)
	case "req", "send":
		text := s.Arg
		if s.Op == "req" {
			text += "\n"
		}
		c := a.cur
		t := r.w.Tick()
		full := text
		if c.partial {
			last := c.reqs[len(c.reqs)-1]
			full = last.line + text
			c.reqs = c.reqs[:len(c.reqs)-1]
			c.partial = false
		}
		parts := strings.Split(full, "\n")
		for k, l := range parts {
			if k == len(parts)-1 {
				if l != "" {
					c.reqs = append(c.reqs, &reqRec{line: l, start: t})
					c.partial = true
				}
				break
			}
			l = strings.TrimSpace(l)
			if l == "" {
				continue
			}
			c.reqs = append(c.reqs, &reqRec{line: l, start: t, piped: c.pending < len(c.reqs)})
		}
		if strings.HasPrefix(strings.ToUpper(text), "GO") {
			a.markStart(r)
		}
		c.cli.Write([]byte(text))
		if s.Op == "req" {
			a.recv(r)
		}
	case "long":
		n, rest, _ := strings.Cut(s.Arg, " ")
		k, _ := strconv.Atoi(n)
		a.cur.cli.Write([]byte(strings.Repeat("x", k) + rest + "\n"))
		if l, ok := a.line(r); !ok {
			a.cur.closed = r.w.Tick()
		} else if !strings.HasSuffix(l, "UNKNOWN") && !strings.HasSuffix(l, "FAIL") || strings.HasPrefix(l, "DEVICE") {
			a.bad = viol("C24", "long line", "%s: a line of %d letters and %q is answered %q", a.name, k, rest, l)
		}
	case "recv":
		a.recv(r)
	case "pkts":
		n, _ := strconv.Atoi(s.Arg)
		d := a.dest()
		r.mu.Lock()
		if r.sent[d]-r.base[d] >= n {
			r.mu.Unlock()
			return
		}
		w := &pktWait{n, make(chan struct{})}
		r.wait[d] = w
		r.mu.Unlock()
		<-w.ch
		gate.At(a.name + ": datagrams came")
	case "mark":
		a.markStart(r)
	case "close":
		a.cur.closed = r.w.Tick()
		a.cur.cli.Close()
	case "reset":
		a.cur.closed = r.w.Tick()
		a.cur.brutal = true
		a.cur.cli.Reset()
		a.cur.cli.Close()
	case "closewrite":
		a.cur.closed = r.w.Tick()
		a.cur.drained = true
		a.cur.cli.CloseWrite()
		for {
			l, ok := a.line(r)
			if !ok {
				break
			}
			a.answer(r, l)
		}
		a.cur.cli.Close()
	case "interrupt":
		r.mu.Lock()
		r.interrupted = true
		r.mu.Unlock()
		if !vsignal.Deliver(os.Interrupt) {
			// nobody handles it: the operating system ends the process
			r.mu.Lock()
			r.exited, r.ctl.Halt = true, true
			r.mu.Unlock()
		}
	case "idle":
		d, err := time.ParseDuration(s.Arg)
		if err != nil {
			panic(err)
		}
		gate.Idle(d)
	case "meet":
		ch := r.meet(a.met)
		a.met++
		<-ch
		gate.At(a.name + ": all are here")
	case "call":
		a.call(r, s.Arg)
	default:
		panic("unknown step " + s.Op)
	}
}

func (a *actor) markStart(r *run) {
	r.mu.Lock()
	r.base[a.dest()] = r.sent[a.dest()]
	r.mu.Unlock()
}

// from is the address of the actor, home the destination it has not asked for.
func (a *actor) from() *net.TCPAddr {
	ip, zone, _ := strings.Cut(a.addr, "%")
	if ip == "" {
		ip = "10.0.0.1"
	}
	return &net.TCPAddr{IP: net.ParseIP(ip), Zone: zone}
}

func (a *actor) home() string {
	f := a.from()
	return (&net.UDPAddr{IP: f.IP, Zone: f.Zone, Port: 28888}).String()
}

// dest is where the actor's datagrams go: the last destination it asked for.
func (a *actor) dest() string {
	d := a.home()
	if a.real != nil {
		if a.real.dest != "" {
			return a.real.dest
		}
		return d
	}
	for _, q := range a.cur.reqs {
		if f := strings.Split(q.line, " "); strings.EqualFold(f[0], "DEST") && len(f) > 1 {
			if u, err := vnet.ResolveUDPAddr("udp", f[1]); err == nil {
				d = u.String()
			}
		}
	}
	return d
}

func (a *actor) greet(r *run) {
	l, ok := a.line(r)
	if !ok {
		return
	}
	a.answer(r, l)
}

// line reads one line; false at the end of the connection.
func (a *actor) line(r *run) (string, bool) {
	for {
		if l, rest, ok := strings.Cut(a.buf, "\n"); ok {
			a.buf = rest
			a.cur.consumed += len(l) + 1
			return strings.TrimSuffix(l, "\r"), true
		}
		if a.eof {
			return "", false
		}
		b := make([]byte, 4096)
		n, err := a.cur.cli.Read(b)
		a.buf += string(b[:n])
		if err != nil {
			a.eof = true
		}
	}
}

func (a *actor) recv(r *run) {
	c := a.cur
	for c.pending < len(c.reqs) && !(c.partial && c.pending == len(c.reqs)-1) {
		l, ok := a.line(r)
		if !ok {
			c.cut = c.closed == 0
			return
		}
		a.answer(r, l)
	}
}

func (a *actor) answer(r *run, l string) {
	c := a.cur
	prev := c.last
	c.last = 0
	for _, m := range c.srv.Marks() {
		if m.Offset >= c.consumed {
			c.last = m.Clock
			break
		}
	}
	if !c.greeted {
		c.greeting, c.greeted = l, true
		return
	}
	gate.Log("%s: got %q", a.name, l)
	if c.pending >= len(c.reqs) || c.partial && c.pending == len(c.reqs)-1 {
		c.extra = append(c.extra, l)
		return
	}
	q := c.reqs[c.pending]
	c.pending++
	q.resp, q.got = l, true
	q.end = r.w.Tick()
	if prev > q.start {
		// its turn came when the previous request had been answered
		q.start, q.batch = prev, prev == c.last
	}
	if c.pending < len(c.reqs) && !(c.partial && c.pending == len(c.reqs)-1) {
		q.end = c.last // the next one was already waiting
	}
	r.stats.Requests++
	r.w.Do(func() {
		for d := range r.sc.Devs {
			q.busy = append(q.busy, r.w.BusyAfter(d, q.start))
			q.open = append(q.open, r.w.Open(d))
		}
	})
}

// execute is one run under the controller; it returns every violation found.
func execute(c *gate.Ctl, sc *Scenario, stats *Response, serverMain, reset func()) (vs []*violation, outcome string) {
	r := &run{sc: sc, stats: stats}
	c.Quiet = true
	r.setup(c, serverMain, reset)
	synctest.Wait()
	stop := func() {
		c.Stop(func() {
			r.n.CloseAll()
			r.w.Abandon()
			for _, a := range r.actors {
				for _, cn := range a.conns {
					cn.cli.Reset()
				}
				if a.real != nil {
					a.real.reset()
				}
			}
			r.mu.Lock()
			for k, w := range r.wait {
				close(w.ch)
				delete(r.wait, k)
			}
			for k, m := range r.meets {
				if m.n > 0 {
					close(m.ch)
				}
				delete(r.meets, k)
			}
			r.mu.Unlock()
			vsignal.Deliver(os.Interrupt)
		})
	}
	defer stop()
	if !c.Loop(nil) {
		return append(vs, viol("", "start", "the server does not settle after its start")), ""
	}
	if !r.n.Listening(port) {
		return append(vs, viol("", "start", "the server does not listen on port %s after its start", port)), ""
	}
	c.Quiet = false
	r.first = runtime.NumGoroutine()
	for k := range sc.Clients {
		a := &actor{id: k, name: fmt.Sprintf("client %d", k), script: sc.Clients[k].Acts, addr: sc.Clients[k].Addr}
		r.actors = append(r.actors, a)
		go func() { gate.Name(a.name); a.run(r) }()
		synctest.Wait()
	}
	settled := c.Loop(r.waiting)
	c.Quiet = true
	var o strings.Builder
	for _, a := range r.actors {
		for _, cn := range a.conns {
			for _, q := range cn.reqs {
				o.WriteString(q.resp)
				o.WriteByte('\n')
			}
		}
		if a.real != nil {
			o.WriteString(a.real.outcome())
		}
	}
	outcome = o.String()
	vs = append(vs, r.world()...)
	for _, a := range r.actors {
		if a.bad != nil {
			vs = append(vs, a.bad)
		}
	}
	r.mu.Lock()
	exited, interrupted := r.exited, r.interrupted
	r.mu.Unlock()
	if exited != interrupted {
		if exited {
			return append(vs, viol("C24", "exit", "the server ended")), outcome
		}
		return append(vs, viol("C24", "interrupt", "the server does not end when it is interrupted")), outcome
	}
	if interrupted {
		return vs, outcome
	}
	if !settled {
		return append(vs, viol("", "livelock", "the server does not settle: %d steps", c.Steps)), outcome
	}
	for _, a := range r.actors {
		if a.done {
			continue
		}
		if strings.HasPrefix(a.doing, "pkts") {
			vs = append(vs, viol("C26", "missing", "%s waits forever for datagrams (%s) that the device's data fill", a.name, a.doing))
		} else {
			vs = append(vs, viol("", "wedge", "%s waits forever: %q is not finished", a.name, a.doing))
		}
		return vs, outcome
	}
	for _, a := range r.actors {
		vs = append(vs, r.judge(a)...)
	}
	if len(vs) == 0 { // what was sent is judged by what the answers told
		vs = append(vs, r.packets()...)
	}
	vs = append(vs, r.returned("after all clients left")...)
	if len(vs) > 0 {
		return vs, outcome
	}
	vs = append(vs, r.probe(c)...)
	return vs, outcome
}

func (r *run) waiting() bool {
	for _, a := range r.actors {
		if !a.done {
			return true
		}
	}
	busy := false
	r.w.Do(func() {
		for d := range r.sc.Devs {
			busy = busy || r.w.Open(d)
		}
	})
	return busy
}

func (r *run) world() []*violation {
	var vs []*violation
	for _, v := range r.w.Violations() {
		vs = append(vs, viol("C25", "device", "%s", v))
	}
	return vs
}

// returned: nothing is left behind.
func (r *run) returned(when string) []*violation {
	var vs []*violation
	r.w.Do(func() {
		for d := range r.sc.Devs {
			if r.w.Open(d) {
				vs = append(vs, viol("C25", "kept", "%s device %d is still open", when, d))
			}
		}
		for _, s := range r.w.Streams {
			if s.End == 0 {
				vs = append(vs, viol("C25", "streaming", "%s stream %d of device %d is still running", when, s.N, s.Dev))
			}
		}
	})
	for _, u := range r.n.UDP() {
		if _, _, closed, _ := u.Snapshot(); !closed {
			vs = append(vs, viol("C24", "socket", "%s the socket to %s is still open", when, u.Remote))
		}
	}
	for _, a := range r.actors {
		for k, cn := range a.conns {
			if !cn.srv.Closed() {
				vs = append(vs, viol("C24", "connection", "%s the server has not closed connection %d of %s", when, k, a.name))
			}
		}
	}
	return vs
}

// probe: new clients get every device and a stream from it.
func (r *run) probe(c *gate.Ctl) []*violation {
	r.w.Do(func() {
		r.w.NoFail = true
		r.w.Sizes = func(int, int) ([]int, bool) { return []int{16}, false }
	})
	r.n.FailUDP(0)
	r.n.RefuseUDP(nil)
	first := len(r.actors)
	uniq := map[string]bool{}
	for _, d := range r.sc.Devs {
		if d.Name != "" {
			uniq[d.Name] = true
		}
	}
	for k := 0; k < len(uniq); k++ {
		a := &actor{id: first + k, name: fmt.Sprintf("probe %d", k)}
		a.script = []Act{{"connect", ""}, {"req", fmt.Sprintf("DEST 10.9.9.9:%d", 5000+k)}, {"req", "DEVICE -"}, {"req", "GO"}, {"pkts", "2"}, {"req", "STOP"}}
		r.actors = append(r.actors, a)
		go a.run(r)
		synctest.Wait()
	}
	if !c.Loop(r.waiting) {
		return []*violation{viol("", "livelock", "the server does not settle when new clients come: %d steps", c.Steps)}
	}
	var vs []*violation
	for _, a := range r.actors[first:] {
		if !a.done {
			return append(vs, viol("", "wedge", "afterwards a new client waits forever at %q", a.doing))
		}
		q := a.cur.reqs
		for k, ok := range map[int]func(string) bool{
			1: func(s string) bool { return strings.HasPrefix(s, "DEVICE ") && !strings.HasPrefix(s, "DEVICE -") },
			2: func(s string) bool { return s == "GO OK" },
			3: func(s string) bool { return s == "STOP OK" },
		} {
			if !ok(q[k].resp) {
				p := "C24"
				if k == 1 {
					p = "C25"
				}
				return append(vs, viol(p, "unusable", "afterwards a new client's %q is answered %q", q[k].line, q[k].resp))
			}
		}
	}
	for _, a := range r.actors[first:] {
		a.done = false
		a.script = []Act{{"close", ""}}
		go a.run(r)
		synctest.Wait()
	}
	c.Loop(r.waiting)
	if r.sc.Long {
		// Nothing piles up: what is over leaves no goroutine behind. (A few may
		// be kept, for example one per device.)
		c.Loop(func() bool { return true })
		if n := runtime.NumGoroutine() - r.first; n > 16+4*len(r.sc.Devs) {
			return append(vs, viol("C24", "leak", "after the last client left %d goroutines of the server remain", n))
		}
	}
	if r.exited {
		return append(vs, viol("C24", "exit", "the server ended when new clients came"))
	}
	vs = append(vs, r.world()...)
	vs = append(vs, r.returned("after the last client left")...)
	return vs
}

func near(a, b float64) bool {
	return a == b || math.Abs(a-b) <= 1e-6+1e-9*math.Abs(b)
}
