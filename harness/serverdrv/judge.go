package serverdrv

import (
	"fmt"
	"strconv"
	"strings"

	"github.com/samuel/go-dsp/borip"
	"github.com/samuel/go-rtlsdr/rtl"
	"verif/harness/vnet"
)

var _ = borip.FlagNone

// model is what a client may know of the server's state, from the answers.
type model struct {
	dev    int // -1 none, -2 unknown
	stream *rtl.Stream
	dest   string
	freq   int64 // -1 unknown
	rate   int64
	gain   int64
	gainOK bool
}

const (
	defFreq = 144100000
	defRate = 1000000
)

// events of the world within a window.
func (r *run) events(from, to int) []rtl.Event {
	var e []rtl.Event
	r.w.Do(func() {
		for _, x := range r.w.Events {
			if x.Clock > from && x.Clock < to {
				e = append(e, x)
			}
		}
	})
	return e
}

func failed(ev []rtl.Event, dev int, ops ...string) bool {
	for _, e := range ev {
		if e.Dev != dev || !e.Err {
			continue
		}
		for _, o := range ops {
			if e.Op == o {
				return true
			}
		}
	}
	return false
}

// judge checks one client's answers against the model.
func (r *run) judge(a *actor) (vs []*violation) {
	if a.real != nil {
		return r.judgeReal(a)
	}
	for _, c := range a.conns {
		if v := r.judgeConn(a, c); v != nil {
			return append(vs, v)
		}
	}
	return nil
}

func (r *run) judgeConn(a *actor, c *conn) *violation {
	if c.greeted && c.greeting != "DEVICE -" {
		return viol("C24", "greeting", "%s is greeted with %q", a.name, c.greeting)
	}
	if len(c.extra) > 0 {
		return viol("C24", "extra", "%s received %q beyond the answers to its requests %v", a.name, c.extra, lines(c.reqs))
	}
	m := &model{dev: -1, dest: a.home(), freq: -1, rate: -1}
	for k, q := range c.reqs {
		last := k == len(c.reqs)-1
		if q.batch {
			return nil // answered in one write: what happened for which is not known
		}
		if !q.got {
			if c.cut {
				return viol("C24", "cut", "%s: the server ended the connection although the client awaited the answer to request %q (number %d of %q)", a.name, q.line, k, lines(c.reqs))
			}
			if c.brutal || c.closed > 0 && q.end == 0 && c.pending <= k && !c.drained || last && c.partial {
				return nil
			}
			return viol("C24", "unanswered", "%s: request %q (number %d of %q) was not answered before the connection ended", a.name, q.line, k, lines(c.reqs))
		}
		if v := r.judgeReq(m, q); v != nil {
			v.what = fmt.Sprintf("%s: request %d of %q: %s", a.name, k, lines(c.reqs), v.what)
			return v
		}
	}
	return nil
}

func lines(qs []*reqRec) []string {
	var s []string
	for _, q := range qs {
		s = append(s, q.line)
	}
	return s
}

func (r *run) judgeReq(m *model, q *reqRec) *violation {
	f := strings.Split(q.line, " ")
	cmd, args := strings.ToUpper(f[0]), f[1:]
	w := strings.Split(q.resp, " ")
	lie := func(f string, a ...any) *violation {
		return viol("C24", "untrue "+cmd, "answered %q %s", q.resp, fmt.Sprintf(f, a...))
	}
	if w[0] != cmd {
		return viol("C24", "mismatch", "answered %q, which is not an answer to it", q.resp)
	}
	if len(w) < 2 || w[1] == "" {
		return viol("C24", "empty", "answered %q, without a result", q.resp)
	}
	ev := r.events(q.start, q.end)
	rest := strings.Join(w[1:], " ")
	odd := false // arguments whose reading is not documented
	for _, x := range args {
		odd = odd || x == "" || strings.ContainsAny(x, "\t\r\x00")
	}
	switch cmd {
	case "FREQ", "RATE", "GAIN", "ANTENNA":
		if m.dev == -1 {
			if w[1] != "DEVICE" {
				return lie("although no device is selected")
			}
			return nil
		}
		if w[1] == "DEVICE" {
			if m.dev == -2 {
				return nil
			}
			return lie("although a device is selected")
		}
		if odd || m.dev == -2 {
			m.freq, m.rate, m.gainOK = -1, -1, false
			return nil
		}
		if cmd == "ANTENNA" {
			if len(args) > 0 {
				if w[1] != "OK" {
					return lie("")
				}
			} else if w[1] != "default" {
				return lie("the antenna the device description names is %q", "default")
			}
			return nil
		}
		set, get := "SetCenterFreq", "GetCenterFreq"
		val, known := m.freq, m.freq >= 0
		if cmd == "RATE" {
			set, get = "SetSampleRate", "GetSampleRate"
			val, known = m.rate, m.rate >= 0
		} else if cmd == "GAIN" {
			set, get = "SetTunerGain", "GetTunerGain"
			val, known = m.gain, m.gainOK
		}
		if len(args) == 0 {
			if failed(ev, m.dev, get) {
				if w[1] != "-" && w[1] != "FAIL" {
					return lie("although the device did not tell")
				}
				return nil
			}
			x, err := strconv.ParseFloat(rest, 64)
			if err != nil {
				return lie("which is not a number")
			}
			if known && !near(x, float64(val)) {
				return lie("the device's value is %d", val)
			}
			return nil
		}
		x, err := strconv.ParseFloat(args[0], 64)
		if err != nil || x != x {
			if err != nil && w[1] != "FAIL" {
				return lie("although the argument is not a number")
			}
			if err == nil {
				m.freq, m.rate, m.gainOK = -1, -1, false
			}
			return nil
		}
		if x < -1e9 || x > 4e9 || x < 0 && cmd != "GAIN" {
			// beyond what the device's interface can carry
			m.freq, m.rate, m.gainOK = -1, -1, false
			return nil
		}
		if failed(ev, m.dev, set) {
			if w[1] != "FAIL" {
				return lie("although the device refused")
			}
			return nil
		}
		cfg := r.w.Devs[m.dev].Config()
		switch cmd {
		case "FREQ":
			val = int64(x) - int64(x)%int64(cfg.Step)
			m.freq = val
		case "RATE":
			val = int64(x) - int64(x)%int64(cfg.Step)
			m.rate = val
		case "GAIN":
			val = rtl.Closest(cfg.Gains, int(x))
			m.gain, m.gainOK = val, true
		}
		if failed(ev, m.dev, get) {
			if w[1] != "FAIL" && w[1] != "OK" {
				return lie("")
			}
			return nil
		}
		if w[1] != "OK" {
			return lie("although the device accepted")
		}
		num := func(k int) (float64, bool) {
			if k >= len(w) {
				return 0, false
			}
			v, err := strconv.ParseFloat(w[k], 64)
			return v, err == nil
		}
		switch cmd {
		case "FREQ":
			t, ok1 := num(2)
			act, ok2 := num(3)
			if !ok1 || !ok2 || !near(t, x) && abs(t-x) > 1 || !near(act, float64(val)) {
				return lie("the target is %v, the device's frequency %d", x, val)
			}
		case "RATE":
			if v, ok := num(2); !ok || !near(v, float64(val)) {
				return lie("the device's rate is %d", val)
			}
		case "GAIN":
			if len(w) > 2 {
				if v, ok := num(2); !ok || !near(v, float64(val)) {
					return lie("the device's gain is %d", val)
				}
			}
		}
		return nil
	case "DEST":
		if len(args) == 0 {
			if m.dest == "" {
				return nil
			}
			if u, err := vnet.ResolveUDPAddr("udp", rest); err != nil || u.String() != m.dest {
				return lie("the destination is %s", m.dest)
			}
			return nil
		}
		if odd {
			m.dest = ""
			return nil
		}
		u, err := vnet.ResolveUDPAddr("udp", args[0])
		if err != nil {
			if w[1] != "FAIL" {
				return lie("although %q is no address", args[0])
			}
			return nil
		}
		if w[1] != "OK" {
			return lie("although %q is an address", args[0])
		}
		m.dest = u.String()
		if len(w) > 2 {
			if v, err := vnet.ResolveUDPAddr("udp", strings.Join(w[2:], " ")); err != nil || v.String() != m.dest {
				return lie("the destination is %s", m.dest)
			}
		}
		return nil
	case "GO":
		var started []*rtl.Stream
		r.w.Do(func() {
			for _, s := range r.w.Streams {
				if m.dev >= 0 && s.Dev == m.dev && s.Start > q.start && s.Start < q.end {
					started = append(started, s)
				}
			}
		})
		switch w[1] {
		case "OK":
			if m.dev == -1 {
				return lie("although no device is selected")
			}
			if len(started) != 1 {
				return lie("although %d streams were started", len(started))
			}
			if s := m.stream; s != nil && (s.End == 0 || s.End > q.end) && !(s.ByDevice && s.EndBegin < q.end) {
				return lie("although the stream was running")
			}
			m.stream = started[0]
			m.stream.Dest = m.dest
		case "RUNNING":
			if m.stream == nil || m.stream.End != 0 && m.stream.End < q.start {
				return lie("although no stream was running")
			}
		case "DEVICE":
			if m.dev >= 0 {
				return lie("although a device is selected")
			}
		case "FAIL":
			if m.dev >= 0 && !failed(ev, m.dev, "ResetBuffer", "ReadAsync") && r.sc.FailUDP == 0 {
				return lie("although nothing failed")
			}
			if m.stream != nil && m.stream.End == 0 {
				return lie("although the stream was running")
			}
			if len(started) > 0 && !failed(ev, m.dev, "ReadAsync") {
				return lie("although a stream was started")
			}
		default:
			return lie("")
		}
		return nil
	case "STOP":
		switch w[1] {
		case "OK":
			if m.stream == nil || m.stream.End != 0 && m.stream.End < q.start {
				return lie("although no stream was running")
			}
			m.stream.Stopped = q.end
			m.stream = nil
		case "STOPPED":
			if s := m.stream; s != nil && !(s.ByDevice && s.EndBegin < q.end) {
				return lie("although the stream was running")
			}
			m.stream = nil
		default:
			return lie("")
		}
		return nil
	case "DEVICE":
		hint := "-"
		if len(args) > 0 {
			hint = args[0]
		}
		if hint == "!" {
			if rest != "-" {
				return viol("C25", "release", "the release is answered %q", q.resp)
			}
			return r.released(m, q, ev, true)
		}
		if w[1] == "-" {
			if hint != "-" {
				// an unknown hint: whether the device is kept is open
				if len(w) < 3 {
					return lie("without a reason")
				}
				if m.dev >= 0 {
					if !q.open[m.dev] {
						m.dev, m.stream = -1, nil
					}
				}
				return nil
			}
			own := m.dev
			if v := r.released(m, q, ev, false); v != nil {
				return v
			}
			// Every device must have been unavailable at some moment.
			for d, cfg := range r.sc.Devs {
				if cfg.Name == "" || shadowed(r.sc.Devs, d) {
					continue
				}
				ok := false
				for _, e := range ev {
					if e.Dev == d && e.Op == "Open" {
						ok = true // refused by the device, or taken by another client
					}
				}
				if d != own && q.busy[d] {
					ok = true
				}
				if !ok {
					return viol("C25", "refused", "answered %q although device %d was free all the time", q.resp, d)
				}
			}
			return nil
		}
		p := strings.Split(rest, "|")
		if len(p) < 7 {
			return viol("C25", "description", "answered %q, which describes no device", q.resp)
		}
		if v := r.released(m, q, ev, false); v != nil {
			return v
		}
		var dev = -1
		for d, cfg := range r.sc.Devs {
			if cfg.Name == p[0] {
				for _, e := range ev {
					if e.Dev == d && e.Op == "Open" && !e.Err {
						dev = d
					}
				}
			}
		}
		if dev < 0 {
			return viol("C25", "not opened", "answered %q but no such device was opened for it", q.resp)
		}
		if hint != "-" && hint != p[0] && !strings.Contains(p[0], hint) {
			m.dev = -2
		}
		// What an earlier owner did with the device in the same window is not this
		// client's: the last one to open it is.
		for k := len(ev) - 1; k >= 0; k-- {
			if ev[k].Dev == dev && ev[k].Op == "Open" && !ev[k].Err {
				ev = ev[k:]
				break
			}
		}
		cfg := r.sc.Devs[dev]
		var v [5]float64
		for k := range v {
			var err error
			if v[k], err = strconv.ParseFloat(p[1+k], 64); err != nil {
				return viol("C24", "description", "answered %q: %q is not a number", q.resp, p[1+k])
			}
		}
		if n := len(cfg.Gains); n > 0 && !failed(ev, dev, "GetTunerGains") {
			if v[0] != float64(cfg.Gains[0]) || v[1] != float64(cfg.Gains[n-1]) || n > 1 && v[2] != float64(cfg.Gains[1]-cfg.Gains[0]) {
				return viol("C24", "gains", "answered %q, the gains are %v", q.resp, cfg.Gains)
			}
		}
		if x := float64(cfg.Xtal); failed(ev, dev, "GetXtalFreq") {
			x = 0
			if v[3] != 0 {
				return viol("C24", "tuner frequency", "answered %q although the tuner frequency is unknown", q.resp)
			}
		} else if v[3] != x {
			return viol("C24", "tuner frequency", "answered %q, the tuner frequency is %v", q.resp, x)
		}
		if v[4] != 4096 {
			return viol("C26", "packet size", "answered %q, the packets hold up to 4096 samples", q.resp)
		}
		m.dev = dev
		m.stream = nil
		st := int64(r.w.Devs[dev].Config().Step)
		m.freq, m.rate, m.gainOK = defFreq-defFreq%st, defRate-defRate%st, false
		if failed(ev, dev, "SetCenterFreq") {
			m.freq = -1
		}
		if failed(ev, dev, "SetSampleRate") {
			m.rate = -1
		}
		return nil
	}
	if w[1] != "UNKNOWN" {
		if cmd == "HEADER" && w[1] == "OK" {
			return nil
		}
		return lie("although there is no such command")
	}
	return nil
}

// released checks that what the client owned was given back during the request.
func (r *run) released(m *model, q *reqRec, ev []rtl.Event, strict bool) *violation {
	own := m.dev
	st := m.stream
	m.dev, m.stream = -1, nil
	if own < 0 {
		return nil
	}
	closed := 0
	for _, e := range ev {
		if e.Dev == own && e.Op == "Close" {
			closed = e.Clock
		}
	}
	if closed == 0 {
		return viol("C25", "not released", "answered %q without closing the device the client had", q.resp)
	}
	if st != nil {
		if st.End == 0 || st.End > q.end {
			return viol("C25", "not stopped", "answered %q while the stream of the device the client had was still running", q.resp)
		}
		st.Stopped = q.end
	}
	return nil
}

// shadowed devices share their name with a later one.
func shadowed(devs []rtl.Config, d int) bool {
	for k := d + 1; k < len(devs); k++ {
		if devs[k].Name == devs[d].Name {
			return true
		}
	}
	return false
}

func abs(x float64) float64 {
	if x < 0 {
		return -x
	}
	return x
}

// packets checks everything sent against what the devices delivered (C26).
func (r *run) packets() (vs []*violation) {
	type sent struct {
		data  []byte
		stamp int
	}
	to := map[string][]sent{}
	var order []string
	for _, u := range r.n.UDP() {
		p, st, _, late := u.Snapshot()
		if late > 0 {
			vs = append(vs, viol("C26", "late", "%d datagrams were sent on a closed socket", late))
		}
		d := u.Remote.String()
		if _, ok := to[d]; !ok {
			order = append(order, d)
		}
		for k := range p {
			to[d] = append(to[d], sent{p[k], st[k]})
		}
	}
	streams := map[string][]*rtl.Stream{}
	unknown := false
	r.w.Do(func() {
		for _, s := range r.w.Streams {
			if s.Dest == "" {
				unknown = true
				continue
			}
			streams[s.Dest] = append(streams[s.Dest], s)
		}
	})
	if unknown {
		// A start whose answer the client did not see: the destination is that of
		// the only client that owned the device.
		r.attribute(streams)
	}
	for _, d := range order {
		ps := to[d]
		// by time of sending
		for i := 1; i < len(ps); i++ {
			for j := i; j > 0 && ps[j].stamp < ps[j-1].stamp; j-- {
				ps[j], ps[j-1] = ps[j-1], ps[j]
			}
		}
		ss := streams[d]
		k := 0
		for _, s := range ss {
			if s.Lost {
				return vs
			}
			want := 0
			for _, n := range s.Delivered {
				want += n
			}
			max := want
			for _, n := range s.RefusedSizes {
				max += n
			}
			pos := 0
			for seq := 0; k < len(ps); seq++ {
				p := ps[k].data
				if seq > 0 && len(p) > 0 && p[0]&0x10 != 0 {
					break // the next stream
				}
				if pos >= want && ps[k].stamp > s.End && s.End > 0 {
					break
				}
				where := fmt.Sprintf("datagram %d to %s (number %d of stream %d of device %d)", k, d, seq, s.N, s.Dev)
				if len(p) < 4 {
					return append(vs, viol("C26", "header", "%s has only %d octets", where, len(p)))
				}
				if (p[0]&0x10 != 0) != (seq == 0) {
					return append(vs, viol("C26", "start flag", "%s has the flags %#x", where, p[0]))
				}
				if got := int(p[2]) | int(p[3])<<8; got != seq&0xffff {
					return append(vs, viol("C26", "sequence", "%s is numbered %d, not %d", where, got, seq&0xffff))
				}
				pl := p[4:]
				if len(pl) > 4096*4 {
					return append(vs, viol("C26", "size", "%s holds %d octets of samples", where, len(pl)))
				}
				if len(pl) == 0 || len(pl)%2 != 0 {
					return append(vs, viol("C26", "size", "%s holds %d octets of samples", where, len(pl)))
				}
				for j := 0; j < len(pl); j += 2 {
					b := rtl.Byte(s.Dev, s.N, pos)
					if v := b - 128; pl[j] != v || pl[j+1] != v {
						return append(vs, viol("C26", "data", "%s: octets %d %d are %#x %#x; octet %d of the device is %#x, that is %#x %#x", where, j, j+1, pl[j], pl[j+1], pos, b, v, v))
					}
					pos++
				}
				if pos > max {
					return append(vs, viol("C26", "too much", "%s: %d octets sent, the device delivered %d", where, pos, max))
				}
				if ps[k].stamp < s.Start || s.End > 0 && ps[k].stamp > s.End || s.Stopped > 0 && ps[k].stamp > s.Stopped {
					return append(vs, viol("C26", "time", "%s was sent outside its stream (%d, started %d, ended %d)", where, ps[k].stamp, s.Start, s.End))
				}
				k++
			}
			if pos < want {
				return append(vs, viol("C26", "lost", "stream %d of device %d to %s: %d octets sent of %d delivered", s.N, s.Dev, d, pos, want))
			}
		}
		if k < len(ps) {
			return append(vs, viol("C26", "stray", "%d datagrams to %s belong to no stream (%d streams)", len(ps)-k, d, len(ss)))
		}
	}
	for d, ss := range streams {
		if _, ok := to[d]; ok {
			continue
		}
		for _, s := range ss {
			if len(s.Delivered) > 0 && !s.Lost {
				return append(vs, viol("C26", "lost", "stream %d of device %d: nothing was sent to %s", s.N, s.Dev, d))
			}
		}
	}
	return vs
}

// attribute finds the destinations of the streams whose start was not answered:
// they are those of the clients whose last unanswered requests contain GO.
func (r *run) attribute(streams map[string][]*rtl.Stream) {
	var cands []string
	for _, a := range r.actors {
		if a.real != nil {
			continue
		}
		for _, c := range a.conns {
			d := a.home()
			go_ := false
			for k, q := range c.reqs {
				f := strings.Split(q.line, " ")
				if k >= c.pending && strings.EqualFold(f[0], "GO") {
					go_ = true
				}
				if strings.EqualFold(f[0], "DEST") && len(f) > 1 {
					if u, err := vnet.ResolveUDPAddr("udp", f[1]); err == nil {
						d = u.String()
					}
				}
			}
			if go_ {
				cands = append(cands, d)
			}
		}
	}
	r.w.Do(func() {
		for _, s := range r.w.Streams {
			if s.Dest != "" {
				continue
			}
			if len(cands) == 1 {
				s.Dest = cands[0]
				streams[s.Dest] = append(streams[s.Dest], s)
			} else {
				s.Dest = "?"
				s.Lost = true
				for _, d := range cands {
					streams[d] = append(streams[d], s)
				}
			}
		}
	})
}
