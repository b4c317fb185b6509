package serverdrv

import (
	"fmt"
	"math"
	"net"
	"strconv"
	"strings"
	"time"

	"github.com/samuel/go-dsp/borip"
	"github.com/samuel/go-rtlsdr/rtl"
	"verif/harness/gate"
	"verif/harness/vnet"
)

// realClient is an actor that uses the repository's own client.
type realClient struct {
	b     *borip.BorIP
	cli   *vnet.StreamConn
	srv   *vnet.StreamConn
	dest  string
	calls []*callRec
}

type callRec struct {
	op, arg    string
	vals       []any
	err        error
	start, end int
	busy       []bool
}

func (k *realClient) outcome() string {
	var s strings.Builder
	for _, c := range k.calls {
		fmt.Fprintln(&s, c.op, c.arg, c.vals, c.err)
	}
	return s.String()
}

func (k *realClient) reset() {
	if k.cli != nil {
		k.cli.Reset()
	}
}

// call: "dial", "select -", "freq 100e6", "freq?" ...
func (a *actor) call(r *run, arg string) {
	op, x, _ := strings.Cut(arg, " ")
	if a.real == nil {
		a.real = &realClient{}
	}
	k := a.real
	c := &callRec{op: op, arg: x, start: r.w.Tick()}
	k.calls = append(k.calls, c)
	f, _ := strconv.ParseFloat(x, 64)
	switch op {
	case "dial":
		cli, srv, err := r.n.ConnectFrom(a.from(), "10.0.0.2:"+port)
		if err != nil {
			c.err = err
			break
		}
		cli.Quiet, cli.Resume = true, true
		k.cli, k.srv = cli, srv
		a.conns = append(a.conns, &conn{cli: cli, srv: srv})
		vnet.DialHook = func(string, string) (net.Conn, error) { return cli, nil }
		k.b, c.err = borip.Dial("10.0.0.2:" + port)
	case "close":
		k.b.Close()
	case "select":
		var d *borip.Device
		d, c.err = k.b.SelectDevice(x)
		c.vals = []any{d}
	case "device":
		c.vals = []any{k.b.Device()}
	case "freq":
		w, x, y, z, err := k.b.SetFrequency(f)
		c.vals, c.err = []any{w, x, y, z}, err
	case "freq?":
		v, err := k.b.Frequency()
		c.vals, c.err = []any{v}, err
	case "rate":
		v, err := k.b.SetRate(f)
		c.vals, c.err = []any{v}, err
	case "rate?":
		v, err := k.b.Rate()
		c.vals, c.err = []any{v}, err
	case "gain":
		c.err = k.b.SetGain(f)
	case "gain?":
		v, err := k.b.Gain()
		c.vals, c.err = []any{v}, err
	case "antenna":
		c.err = k.b.SetAntenna(x)
	case "antenna?":
		v, err := k.b.Antenna()
		c.vals, c.err = []any{v}, err
	case "dest":
		v, err := k.b.SetDestination(x)
		c.vals, c.err = []any{v}, err
		if err == nil {
			k.dest = v
		}
	case "dest?":
		v, err := k.b.Destination()
		c.vals, c.err = []any{v}, err
	case "go":
		a.markStart(r)
		c.err = k.b.Go()
	case "stop":
		c.err = k.b.Stop()
	default:
		panic("unknown call " + op)
	}
	c.end = r.w.Tick()
	r.stats.Requests++
	r.w.Do(func() {
		for d := range r.sc.Devs {
			c.busy = append(c.busy, r.w.BusyAfter(d, c.start))
		}
	})
	gate.Log("%s: %s returned %v, %v", a.name, arg, c.vals, c.err)
}

// judgeReal: the client's view is the server's view (C27).
func (r *run) judgeReal(a *actor) (vs []*violation) {
	k := a.real
	dev, running := -1, (*rtl.Stream)(nil)
	var freq, rate, gain int64 = -1, -1, 0
	gainKnown := false
	dest := a.home()
	var descr *borip.Device
	for n, c := range k.calls {
		bad := func(f string, x ...any) []*violation {
			return append(vs, viol("C27", "call "+c.op, "%s: call %d of %s: returned %v, %v: %s", a.name, n, callNames(k.calls), c.vals, c.err, fmt.Sprintf(f, x...)))
		}
		ev := r.events(c.start, c.end)
		needDev := false
		switch c.op {
		case "freq", "freq?", "rate", "rate?", "gain", "gain?", "antenna", "antenna?", "go":
			needDev = true
		}
		if needDev && dev < 0 {
			if c.err == nil {
				return bad("no device is selected")
			}
			continue
		}
		anyErr := false
		for _, e := range ev {
			if e.Dev == dev && e.Err {
				anyErr = true
			}
		}
		num := func(i int) float64 {
			if i < len(c.vals) {
				if v, ok := c.vals[i].(float64); ok {
					return v
				}
			}
			return math.NaN()
		}
		f, ferr := strconv.ParseFloat(c.arg, 64)
		_ = ferr
		switch c.op {
		case "dial":
			if c.err != nil {
				return bad("the server accepts connections")
			}
		case "select":
			if c.arg == "!" {
				if c.err != nil {
					return bad("the device is released")
				}
				dev, running, descr = -1, nil, nil
				break
			}
			if c.err != nil {
				own := dev
				dev, running, descr = -1, nil, nil
				for d := range r.sc.Devs {
					ok := d != own && c.busy[d]
					for _, e := range ev {
						ok = ok || e.Dev == d && e.Op == "Open"
					}
					if !ok {
						return bad("device %d was free", d)
					}
				}
				break
			}
			d, _ := c.vals[0].(*borip.Device)
			if d == nil {
				return bad("a device was selected")
			}
			dev, running, descr = -1, nil, d
			for x, cfg := range r.sc.Devs {
				for _, e := range ev {
					if e.Dev == x && e.Op == "Open" && !e.Err && cfg.Name == d.Name {
						dev = x
					}
				}
			}
			if dev < 0 {
				return bad("the device named was not opened")
			}
			cfg := r.sc.Devs[dev]
			lo, hi, step := 0.0, 1.0, 1.0
			if n := len(cfg.Gains); n > 0 {
				lo, hi = float64(cfg.Gains[0]), float64(cfg.Gains[n-1])
				if n > 1 {
					step = float64(cfg.Gains[1] - cfg.Gains[0])
				}
			}
			gainsFailed := failed(ev, dev, "GetTunerGains")
			if !gainsFailed && (d.MinGain != lo || d.MaxGain != hi || d.GainStep != step) {
				return bad("the gains are %v", cfg.Gains)
			}
			if !failed(ev, dev, "GetXtalFreq") && d.FPGAFreq != float64(cfg.Xtal) || d.SamplesPerPacket != 4096 {
				return bad("the tuner frequency is %v", cfg.Xtal)
			}
			st := int64(r.w.Devs[dev].Config().Step)
			freq, rate, gainKnown = defFreq-defFreq%st, defRate-defRate%st, false
			if failed(ev, dev, "SetCenterFreq") {
				freq = -1
			}
			if failed(ev, dev, "SetSampleRate") {
				rate = -1
			}
		case "device":
			d, _ := c.vals[0].(*borip.Device)
			if (d != nil) != (descr != nil) || d != nil && d.Name != descr.Name {
				return bad("the selected device is %v", descr)
			}
		case "freq":
			if anyErr {
				if c.err == nil {
					return bad("the device refused")
				}
				freq = -1
				break
			}
			st := int64(r.w.Devs[dev].Config().Step)
			freq = int64(f) - int64(f)%st
			if c.err != nil || !near(num(0), f) || !near(num(1), float64(freq)) || num(2) != 0 || num(3) != 0 {
				return bad("the device was set to %d", freq)
			}
		case "freq?":
			if anyErr != (c.err != nil) || c.err == nil && freq >= 0 && num(0) != float64(freq) {
				return bad("the device's frequency is %d", freq)
			}
		case "rate":
			if anyErr {
				if c.err == nil {
					return bad("the device refused")
				}
				rate = -1
				break
			}
			st := int64(r.w.Devs[dev].Config().Step)
			rate = int64(f) - int64(f)%st
			if c.err != nil || num(0) != float64(rate) {
				return bad("the device was set to %d", rate)
			}
		case "rate?":
			if anyErr != (c.err != nil) || c.err == nil && rate >= 0 && num(0) != float64(rate) {
				return bad("the device's rate is %d", rate)
			}
		case "gain":
			if anyErr {
				if c.err == nil {
					return bad("the device refused")
				}
				gainKnown = false
				break
			}
			gain, gainKnown = rtl.Closest(r.sc.Devs[dev].Gains, int(f)), true
			if c.err != nil {
				return bad("the device was set to %d", gain)
			}
		case "gain?":
			if anyErr != (c.err != nil) || c.err == nil && gainKnown && num(0) != float64(gain) {
				return bad("the device's gain is %d", gain)
			}
		case "antenna":
			if c.err != nil {
				return bad("the antenna was set")
			}
		case "antenna?":
			if c.err != nil || len(descr.ValidAntennas) != 1 || c.vals[0] != descr.ValidAntennas[0] {
				return bad("the only antenna is %v", descr.ValidAntennas)
			}
		case "dest":
			u, err := vnet.ResolveUDPAddr("udp", c.arg)
			if err != nil {
				if c.err == nil {
					return bad("this is no address")
				}
				break
			}
			dest = u.String()
			if c.err != nil || c.vals[0] != dest {
				return bad("the destination was set to %s", dest)
			}
		case "dest?":
			if c.err != nil || c.vals[0] != dest {
				return bad("the destination is %s", dest)
			}
		case "go":
			var st *rtl.Stream
			for _, s := range r.w.Streams {
				if s.Dev == dev && s.Start > c.start && s.Start < c.end {
					st = s
				}
			}
			if st != nil {
				if c.err != nil && !anyErr {
					return bad("the stream was started")
				}
				running = st
				st.Dest = dest
				break
			}
			if c.err == nil {
				return bad("no stream was started")
			}
			if (running == nil || running.End != 0 && running.End < c.start) && !anyErr && r.sc.FailUDP == 0 {
				return bad("the server could have started a stream")
			}
		case "stop":
			if running == nil || running.End != 0 && running.End < c.start {
				if c.err == nil {
					return bad("no stream was running")
				}
				break
			}
			if c.err != nil {
				if running.ByDevice && running.EndBegin < c.end {
					running = nil
					break
				}
				return bad("the stream was stopped")
			}
			running.Stopped = c.end
			running = nil
		case "close":
			dev, running = -1, nil
		}
	}
	return append(vs, r.samples(a)...)
}

func callNames(cs []*callRec) string {
	var s []string
	for _, c := range cs {
		s = append(s, strings.TrimSpace(c.op+" "+c.arg))
	}
	return "[" + strings.Join(s, "; ") + "]"
}

// recorded is a packet connection that delivers what was sent.
type recorded struct{ p [][]byte }

func (c *recorded) ReadFrom(b []byte) (int, net.Addr, error) {
	if len(c.p) == 0 {
		return 0, nil, net.ErrClosed
	}
	n := copy(b, c.p[0])
	c.p = c.p[1:]
	return n, &net.UDPAddr{}, nil
}
func (c *recorded) WriteTo([]byte, net.Addr) (int, error) { return 0, net.ErrClosed }
func (c *recorded) Close() error                          { return nil }
func (c *recorded) LocalAddr() net.Addr                   { return &net.UDPAddr{} }
func (c *recorded) SetDeadline(time.Time) error           { return nil }
func (c *recorded) SetReadDeadline(time.Time) error       { return nil }
func (c *recorded) SetWriteDeadline(time.Time) error      { return nil }

// samples reads all datagrams with the client's packet reader and compares them
// with what the device produced.
func (r *run) samples(a *actor) (vs []*violation) {
	for _, u := range r.n.UDP() {
		ps, _, _, _ := u.Snapshot()
		mine := false
		for _, s := range r.w.Streams {
			mine = mine || s.Dest == u.Remote.String()
		}
		for _, o := range r.actors {
			mine = mine && (o == a || o.real != nil || len(o.conns) == 0 || o.dest() != u.Remote.String())
		}
		if len(ps) == 0 || !mine {
			continue
		}
		var got []complex128
		rd := borip.NewPacketReader(&recorded{p: append([][]byte(nil), ps...)}, true)
		buf := make([]complex128, 1000)
		idx, packets := -1, 0
		for {
			n, err := rd.ReadSamples(buf)
			if err != nil {
				break
			}
			got = append(got, buf[:n]...)
			if h := rd.Header(); int(h.Idx) != idx {
				if idx = (idx + 1) & 0xffff; int(h.Idx) != idx {
					return append(vs, viol("C27", "index", "the packet reader reports packet %d after %d", h.Idx, idx-1))
				}
				packets++
				if (h.Flags&borip.FlagStreamStart != 0) != (packets == 1) {
					return append(vs, viol("C27", "start", "the packet reader reports flags %#x for packet %d", h.Flags, idx))
				}
			}
		}
		// which stream of which device
		var best *rtl.Stream
		for _, s := range r.w.Streams {
			total := 0
			for _, n := range s.Delivered {
				total += n
			}
			if s.Dest == u.Remote.String() && match(s, got) == len(got) && (total+1)/2 >= len(got) {
				best = s
			}
		}
		if best == nil {
			where := "no stream"
			for _, s := range r.w.Streams {
				where += fmt.Sprintf("; stream %d of device %d to %s agrees for %d samples", s.N, s.Dev, s.Dest, match(s, got))
			}
			return append(vs, viol("C27", "samples", "the %d samples read from the datagrams to %s are those of %s", len(got), u.Remote, where))
		}
	}
	return vs
}

// match counts the samples that are the stream's, re-centred: the octet 128 is
// zero, the 16-bit value is the octet's distance from it scaled by 256 (plus the
// replicated octet).
func match(s *rtl.Stream, got []complex128) int {
	for k, g := range got {
		if g != complex(wide(rtl.Byte(s.Dev, s.N, 2*k)), wide(rtl.Byte(s.Dev, s.N, 2*k+1))) {
			return k
		}
	}
	return len(got)
}

func wide(b byte) float64 { return float64(int16(uint16(b-128) * 0x101)) }
