package main

import (
	"errors"
	"fmt"
	"io"
	"math"
	"net"
	"reflect"
	"strconv"
	"strings"
	"time"

	"github.com/samuel/go-dsp/borip"
	"verif/harness/mc"
	"verif/harness/vnet"
)

// conn is a scripted, synchronous server end: every complete line written gets
// the next scripted answer; reads find what has been answered, or the end.
type conn struct {
	greeting string
	answers  []answer
	lines    []string // complete request lines received
	late     []string // lines written after the client closed
	wbuf     string
	rbuf     string
	chunk    int // octets per Read (0: all)
	broken   bool
	wbroken  bool
	closed   int
	afterEOF int
	rerr     error // what reading yields at the end (nil: io.EOF)
	together bool  // the last octets come together with that error
	werr     error // what a failing write yields (nil: errWrite)
}

// answer to one request.
type answer struct {
	text  string
	lost  bool // the connection ends after text
	wfail bool // the write of the request itself fails
}

type addr struct{}

func (addr) Network() string { return "tcp" }
func (addr) String() string  { return "10.0.0.2:28888" }

var (
	errWrite  = errors.New("scripted broken pipe")
	errDialed = errors.New("scripted dial failure")
)

func (c *conn) Read(b []byte) (int, error) {
	if c.closed > 0 {
		return 0, net.ErrClosed
	}
	if c.rbuf == "" {
		c.afterEOF++
		return 0, c.endErr()
	}
	n := len(b)
	if c.chunk > 0 && n > c.chunk {
		n = c.chunk
	}
	n = copy(b[:n], c.rbuf)
	c.rbuf = c.rbuf[n:]
	if c.rbuf == "" && c.together && c.broken {
		return n, c.endErr()
	}
	return n, nil
}

func (c *conn) endErr() error {
	if c.rerr != nil {
		return c.rerr
	}
	return io.EOF
}

func (c *conn) Write(b []byte) (int, error) {
	if c.closed > 0 {
		c.late = append(c.late, string(b))
		return 0, net.ErrClosed
	}
	if c.wbroken {
		return 0, errWrite
	}
	if k := len(c.lines); k < len(c.answers) && c.answers[k].wfail {
		c.wbroken, c.broken = true, true
		if c.werr != nil {
			return 0, c.werr
		}
		return 0, errWrite
	}
	c.wbuf += string(b)
	for {
		l, rest, ok := strings.Cut(c.wbuf, "\n")
		if !ok {
			return len(b), nil
		}
		c.wbuf = rest
		k := len(c.lines)
		c.lines = append(c.lines, strings.TrimSuffix(l, "\r"))
		if c.broken {
			continue
		}
		if k >= len(c.answers) {
			c.broken = true
			continue
		}
		c.rbuf += c.answers[k].text
		if c.answers[k].lost {
			c.broken = true
		}
	}
}
func (c *conn) Close() error                     { c.closed++; return nil }
func (c *conn) LocalAddr() net.Addr              { return addr{} }
func (c *conn) RemoteAddr() net.Addr             { return addr{} }
func (c *conn) SetDeadline(time.Time) error      { return nil }
func (c *conn) SetReadDeadline(time.Time) error  { return nil }
func (c *conn) SetWriteDeadline(time.Time) error { return nil }

// The hook is process wide and Dial is called from several workers at once:
// the scripted connection is looked up by the address.
var dialled = newTable()

func dial(c *conn, err error) (*borip.BorIP, error) {
	a := dialled.put(c, err)
	defer dialled.del(a)
	if c != nil {
		c.rbuf = c.greeting
	}
	return borip.Dial(a)
}

func init() {
	vnet.DialHook = func(network, address string) (net.Conn, error) { return dialled.get(network, address) }
}

// call is one client method: how to invoke it and what an answer means.
type call struct {
	name string
	cmd  string
	arg  string // expected argument ("" none)
	num  bool   // the argument is a number, any plain decimal notation
	do   func(b *borip.BorIP) ([]any, error)
	kind int
	min  int // values a successful set answer must carry
}

const (
	kSet     = iota // CMD OK [values] / CMD FAIL reason
	kQuery          // CMD value
	kDevice         // DEVICE description / DEVICE - reason
	kRelease        // DEVICE -
)

func setCalls(f float64) []call {
	s := strconv.FormatFloat(f, 'f', -1, 64)
	return []call{
		{"SetFrequency", "FREQ", s, true, func(b *borip.BorIP) ([]any, error) {
			w, x, y, z, err := b.SetFrequency(f)
			return []any{w, x, y, z}, err
		}, kSet, 0},
		{"SetRate", "RATE", s, true, func(b *borip.BorIP) ([]any, error) { r, err := b.SetRate(f); return []any{r}, err }, kSet, 1},
		{"SetGain", "GAIN", s, true, func(b *borip.BorIP) ([]any, error) { return nil, b.SetGain(f) }, kSet, 0},
	}
}

func otherCalls() []call {
	return []call{
		{"SetAntenna", "ANTENNA", "RX2", false, func(b *borip.BorIP) ([]any, error) { return nil, b.SetAntenna("RX2") }, kSet, 0},
		{"SetDestination", "DEST", "10.1.2.3:777", false, func(b *borip.BorIP) ([]any, error) {
			r, err := b.SetDestination("10.1.2.3:777")
			return []any{r}, err
		}, kSet, 1},
		{"SetHeaderEnabled(true)", "HEADER", "ON", false, func(b *borip.BorIP) ([]any, error) { return nil, b.SetHeaderEnabled(true) }, kSet, 0},
		{"SetHeaderEnabled(false)", "HEADER", "OFF", false, func(b *borip.BorIP) ([]any, error) { return nil, b.SetHeaderEnabled(false) }, kSet, 0},
		{"Go", "GO", "", false, func(b *borip.BorIP) ([]any, error) { return nil, b.Go() }, kSet, 0},
		{"Stop", "STOP", "", false, func(b *borip.BorIP) ([]any, error) { return nil, b.Stop() }, kSet, 0},
		{"Frequency", "FREQ", "", false, func(b *borip.BorIP) ([]any, error) { r, err := b.Frequency(); return []any{r}, err }, kQuery, 1},
		{"Antenna", "ANTENNA", "", false, func(b *borip.BorIP) ([]any, error) { r, err := b.Antenna(); return []any{r}, err }, kQuery, 1},
		{"Rate", "RATE", "", false, func(b *borip.BorIP) ([]any, error) { r, err := b.Rate(); return []any{r}, err }, kQuery, 1},
		{"Gain", "GAIN", "", false, func(b *borip.BorIP) ([]any, error) { r, err := b.Gain(); return []any{r}, err }, kQuery, 1},
		{"Destination", "DEST", "", false, func(b *borip.BorIP) ([]any, error) { r, err := b.Destination(); return []any{r}, err }, kQuery, 1},
		{"HeaderEnabled", "HEADER", "", false, func(b *borip.BorIP) ([]any, error) { r, err := b.HeaderEnabled(); return []any{r}, err }, kQuery, 1},
		{"SelectDevice", "DEVICE", "rtl 2832", false, func(b *borip.BorIP) ([]any, error) {
			d, err := b.SelectDevice("rtl 2832")
			return []any{d}, err
		}, kDevice, 0},
		{"SelectDevice(-)", "DEVICE", "-", false, func(b *borip.BorIP) ([]any, error) {
			d, err := b.SelectDevice("-")
			return []any{d}, err
		}, kDevice, 0},
		{"SelectDevice(!)", "DEVICE", "!", false, func(b *borip.BorIP) ([]any, error) {
			d, err := b.SelectDevice("!")
			return []any{d}, err
		}, kRelease, 0},
	}
}

// meaning of an answer line for a call.
type meaning struct {
	sure   bool // false: only "no panic" is required
	ok     bool
	vals   []any
	reason []string // words the error must contain
}

func num(s string) (float64, bool) {
	f, err := strconv.ParseFloat(s, 64)
	return f, err == nil
}

// understand is the reference reading of an answer (without its line end).
func understand(k *call, text string) meaning {
	if strings.Contains(text, "  ") || strings.ContainsAny(text, "\t\r\v\f\u00a0") || strings.HasPrefix(text, " ") {
		return meaning{} // more than one separator: the protocol has none such
	}
	text = strings.TrimRight(text, " ")
	w := strings.Split(text, " ")
	bad := meaning{sure: true}
	if len(w) < 2 || w[0] != k.cmd {
		return bad
	}
	fail := meaning{sure: true, reason: w[1:]}
	rest := strings.Join(w[1:], " ")
	switch k.kind {
	case kSet:
		if w[1] != "OK" {
			return fail
		}
		v := w[2:]
		switch k.name {
		case "SetFrequency":
			vals := []any{0.0, 0.0, 0.0, 0.0}
			if len(v) > 0 && len(v) < 4 || len(v) > 4 {
				for _, s := range v {
					if _, ok := num(s); !ok {
						return meaning{}
					}
				}
				for i := range v {
					if i < 4 {
						vals[i], _ = num(v[i])
					}
				}
				return meaning{sure: len(v) > 4, ok: true, vals: vals}
			}
			for i := range v {
				f, ok := num(v[i])
				if !ok {
					return bad
				}
				vals[i] = f
			}
			if len(v) == 0 {
				return meaning{} // whether the values may be missing is not documented
			}
			return meaning{sure: true, ok: true, vals: vals}
		case "SetRate":
			if len(v) == 0 {
				return bad
			}
			f, ok := num(v[0])
			if !ok {
				return bad
			}
			return meaning{sure: len(v) == 1, ok: true, vals: []any{f}}
		case "SetDestination":
			if len(v) == 0 {
				return bad
			}
			return meaning{sure: len(v) == 1, ok: true, vals: []any{v[0]}}
		}
		return meaning{sure: len(v) == 0, ok: true}
	case kQuery:
		switch w[1] {
		case "-", "FAIL", "UNKNOWN", "DEVICE":
			return fail
		}
		switch k.name {
		case "Antenna", "Destination":
			return meaning{sure: len(w) == 2, ok: true, vals: []any{rest}}
		case "HeaderEnabled":
			if rest == "ON" || rest == "OFF" {
				return meaning{sure: true, ok: true, vals: []any{rest == "ON"}}
			}
			return bad
		}
		f, ok := num(w[1])
		if !ok {
			return bad
		}
		if len(w) > 2 {
			return meaning{}
		}
		return meaning{sure: true, ok: true, vals: []any{f}}
	case kDevice, kRelease:
		if w[1] == "-" {
			if len(w) == 2 {
				if k.kind == kRelease {
					return meaning{sure: true, ok: true, vals: []any{(*borip.Device)(nil)}}
				}
				return meaning{} // no reason given: an error or no device
			}
			return meaning{sure: true, reason: w[2:]}
		}
		if strings.HasPrefix(w[1], "-") {
			return meaning{}
		}
		p := strings.Split(rest, "|")
		if len(p) < 7 {
			return bad
		}
		d := &borip.Device{Name: p[0], ValidAntennas: strings.Split(p[6], ",")}
		for i, f := range []*float64{&d.MinGain, &d.MaxGain, &d.GainStep, &d.FPGAFreq} {
			var ok bool
			if *f, ok = num(p[1+i]); !ok {
				return bad
			}
		}
		n, err := strconv.ParseInt(p[5], 10, 32)
		if err != nil {
			return bad
		}
		d.SamplesPerPacket = int(n)
		if len(p) > 7 {
			d.Serial = p[7]
		}
		return meaning{sure: len(p) <= 8 && p[0] != "", ok: true, vals: []any{d}}
	}
	panic("kind")
}

func show(v []any) string {
	var s []string
	for _, x := range v {
		if d, ok := x.(*borip.Device); ok && d != nil {
			s = append(s, fmt.Sprintf("%+v", *d))
		} else {
			s = append(s, fmt.Sprint(x))
		}
	}
	return strings.Join(s, ", ")
}

func same(a, b any) bool {
	x, ok1 := a.(float64)
	y, ok2 := b.(float64)
	if ok1 && ok2 && math.IsNaN(x) && math.IsNaN(y) {
		return true
	}
	return reflect.DeepEqual(a, b)
}

// checkRequest: exactly one well-formed line.
func checkRequest(k *call, lines []string, left string) error {
	if len(lines) != 1 || left != "" {
		return mc.V("request", "%s sent %q (and an incomplete %q), not one line", k.name, lines, left)
	}
	want := k.cmd
	if k.arg != "" {
		want += " " + k.arg
	}
	if lines[0] == want {
		return nil
	}
	if k.num {
		if a, ok := strings.CutPrefix(lines[0], k.cmd+" "); ok && strings.Trim(a, "-0123456789.") == "" {
			x, ok1 := num(a)
			y, _ := num(k.arg)
			if ok1 && x == y {
				return nil
			}
		}
	}
	return mc.V("request", "%s sent %q, not %q", k.name, lines[0], want)
}

// exchange runs one call on a fresh connection.
func exchange(c *mc.Ctx, k *call, a answer, chunk int) error {
	return exchangeOn(c, k, a, &conn{greeting: "DEVICE -\n", chunk: chunk})
}

func exchangeOn(c *mc.Ctx, k *call, a answer, s *conn) error {
	s.answers = []answer{a}
	b, err := dial(s, nil)
	if err != nil {
		return mc.V("dial", "Dial fails with %v although the server greets", err)
	}
	vals, err := k.do(b)
	c.Evals++
	c.Transitions++
	c.States++
	c.Traces++
	what := fmt.Sprintf("%s answered %q", k.name, a.text)
	if a.wfail {
		what = k.name + " whose request cannot be sent"
		if err == nil {
			return mc.V("lost", "%s reports success", what)
		}
		return nil
	}
	if e := checkRequest(k, s.lines, s.wbuf); e != nil {
		return e
	}
	line, complete := strings.CutSuffix(a.text, "\n")
	line = strings.TrimSuffix(line, "\r")
	if !complete {
		if err == nil {
			return mc.V("lost", "%s (connection lost within the line) reports success: %s", what, show(vals))
		}
		return nil
	}
	m := understand(k, line)
	if !m.sure {
		if err == nil && m.ok {
			// Undecided whether it is an error; if not, the values must be those sent.
			for i := range m.vals {
				if !same(m.vals[i], vals[i]) {
					return mc.V("value", "%s returned %s, not %s", what, show(vals), show(m.vals))
				}
			}
		}
		c.Add("answers_open", 1)
		return nil
	}
	c.Nontrivial++
	if !m.ok {
		if err == nil {
			return mc.V("accepted", "%s reports success: %s", what, show(vals))
		}
		for _, w := range m.reason {
			if !strings.Contains(err.Error(), w) {
				return mc.V("reason", "%s: the error %q does not carry the server's %q", what, err, w)
			}
		}
		return nil
	}
	if err != nil {
		return mc.V("rejected", "%s fails with %v", what, err)
	}
	for i := range m.vals {
		if !same(m.vals[i], vals[i]) {
			return mc.V("value", "%s returned %s, not %s", what, show(vals), show(m.vals))
		}
	}
	return nil
}

var goodDevices = []string{
	"Terratec NOXON (rev 3)|-5.000000|30.000000|1.000000|3200000.000000|16256|(Default)|Terratec NOXON (rev 3)",
	"Terratec NOXON (rev 3)|-5.000000|30.000000|1.000000|3200000.000000|16256|(Default)",
	"USRP|0|115|1.5|64000000|4096|TX/RX,RX2|0x1234",
	"a|0|0|0|0|0|",
	"a b  c|1e3|-1.5e-3|0.1|1e9|1|x|",
	"-minus|1|2|3|4|5|x|y",
}

func responseTokens(cmd string) []string {
	t := []string{"OK", "FAIL", "UNKNOWN", "DEVICE", "-", "ON", "OFF", "123.5", "-7", "1e6", "abc", "NaN", "10.1.2.3:777", "RUNNING", "", "\t", cmd, goodDevices[2], "a|b|c", "1|2|3|4|5|6", "x|1|2|3|4|5|6", "x|1|2|3|4|5.5|6|7", "|||||||", "x|1|2|3|4|5|6|7|8"}
	return t
}

func clientFamilies(t mc.Tier) []*mc.Family {
	calls := append(setCalls(100.5e6), otherCalls()...)
	firsts := []string{"", "FREQ", "RATE", "GAIN", "ANTENNA", "DEST", "HEADER", "GO", "STOP", "DEVICE", "OK", "freq", "FREQX", "-"}
	depth := t.Pick(3, 4)
	ntok := len(responseTokens(""))
	seq := &mc.Family{Name: "all answers of up to four words to every call", N: len(calls) * len(firsts) * ntok, Run: func(c *mc.Ctx, i int) error {
		k := &calls[i%len(calls)]
		i /= len(calls)
		first := firsts[i%len(firsts)]
		i /= len(firsts)
		toks := responseTokens(k.cmd)
		var rec func(text string, d int) error
		rec = func(text string, d int) error {
			for _, end := range []string{"\n", "\r\n", ""} {
				if err := exchange(c, k, answer{text: text + end, lost: end == ""}, 0); err != nil {
					return err
				}
			}
			if d == depth {
				return nil
			}
			for _, w := range toks {
				if err := rec(text+" "+w, d+1); err != nil {
					return err
				}
			}
			return nil
		}
		if i == 0 {
			if err := exchange(c, k, answer{text: first + "\n"}, 0); err != nil {
				return err
			}
			c.Sample("%s answered %q...", k.name, first)
		}
		if first != k.cmd && depth > 3 {
			return rec(first+" "+toks[i], 2)
		}
		return rec(first+" "+toks[i], 1)
	}}
	// Every truncation and every read split of realistic answers.
	good := func(k *call) []string {
		switch k.kind {
		case kSet:
			r := []string{k.cmd + " FAIL some longer reason", k.cmd + " DEVICE", k.cmd + " UNKNOWN"}
			switch k.name {
			case "SetFrequency":
				return append(r, "FREQ OK 100500000.000000 100499999.5 0.000000 -12.25")
			case "SetRate":
				return append(r, "RATE OK 2400000.000000")
			case "SetDestination":
				return append(r, "DEST OK 10.1.2.3:777")
			}
			return append(r, k.cmd+" OK")
		case kQuery:
			r := []string{k.cmd + " -", k.cmd + " DEVICE", k.cmd + " UNKNOWN"}
			switch k.name {
			case "Antenna":
				return append(r, "ANTENNA RX2", "ANTENNA (Default)")
			case "Destination":
				return append(r, "DEST 10.1.2.3:28888", "DEST [::1]:4")
			case "HeaderEnabled":
				return append(r, "HEADER ON", "HEADER OFF")
			}
			return append(r, k.cmd+" 100500000.25", k.cmd+" -3.5", k.cmd+" 0", k.cmd+" 1e+06")
		case kRelease:
			return []string{"DEVICE -", "DEVICE - no such device"}
		}
		r := []string{"DEVICE -", "DEVICE - no such device"}
		for _, d := range goodDevices {
			r = append(r, "DEVICE "+d)
		}
		return r
	}
	trunc := &mc.Family{Name: "every truncation and read split of proper answers", N: len(calls), Run: func(c *mc.Ctx, i int) error {
		k := &calls[i]
		if err := exchange(c, k, answer{wfail: true}, 0); err != nil {
			return err
		}
		for _, g := range good(k) {
			for _, end := range []string{"\n", "\r\n"} {
				full := g + end
				for n := 0; n <= len(full); n++ {
					if err := exchange(c, k, answer{text: full[:n], lost: n < len(full)}, 0); err != nil {
						return err
					}
				}
				for n := 1; n <= len(full); n++ {
					if err := exchange(c, k, answer{text: full}, n); err != nil {
						return err
					}
				}
				// Every octet replaced by each of a few others.
				for n := 0; n < len(g); n++ {
					for _, x := range []byte{' ', '|', '-', '0', 'A', ',', 0, 0xff, '.'} {
						if g[n] == x {
							continue
						}
						b := []byte(full)
						b[n] = x
						if err := exchange(c, k, answer{text: string(b)}, 0); err != nil {
							return err
						}
					}
				}
			}
		}
		for _, long := range []int{4000, 4095, 4096, 4097, 70000} {
			if err := exchange(c, k, answer{text: k.cmd + " " + strings.Repeat("x", long) + "\n"}, 0); err != nil {
				return err
			}
		}
		return nil
	}}
	// Every kind of connection loss at every point of the answer.
	loss := &mc.Family{Name: "every kind of connection loss", N: len(calls), Run: func(c *mc.Ctx, i int) error {
		k := &calls[i]
		for _, e := range sockErrs {
			for _, chunk := range []int{0, 1, 7} {
				for _, g := range good(k) {
					full := g + "\r\n"
					for n := 0; n <= len(full); n++ {
						for _, together := range []bool{false, true} {
							s := &conn{greeting: "DEVICE -\n", chunk: chunk, rerr: e, together: together}
							if err := exchangeOn(c, k, answer{text: full[:n], lost: true}, s); err != nil {
								v := err.(*mc.Viol)
								return mc.V(v.Key, "connection ends with %v: %s", e, v.What)
							}
						}
					}
				}
			}
			s := &conn{greeting: "DEVICE -\n", werr: e}
			if err := exchangeOn(c, k, answer{wfail: true}, s); err != nil {
				return err
			}
		}
		return nil
	}}
	// Many exchanges on one connection.
	longSeq := &mc.Family{Name: "thousands of calls on one connection", N: len(calls), Run: func(c *mc.Ctx, i int) error {
		var ks []*call
		var as []string
		for n := 0; n < t.Pick(3000, 70000); n++ {
			k := &calls[(n+i)%len(calls)]
			if n/len(calls)%3 == 1 {
				k = &calls[i]
			}
			g := good(k)
			ks, as = append(ks, k), append(as, g[(n*n/7+i)%len(g)])
		}
		return chain(c, ks, as)
	}}
	// Device descriptions: all combinations of field values.
	names := []string{"x", "RTL 2832 (rev 1)", "", "-x", "a/b"}
	nums := []string{"0", "-5.000000", "1e300", "30.25", "abc", "", "0x1p4", "1,5", " 3"}
	spp := []string{"0", "16256", "-1", "2147483647", "2147483648", "1.0", "", "abc"}
	ants := []string{"", "(Default)", "A,B", "A,,B", "TX/RX,RX2,J1"}
	ser := []string{"\x00", "", "s", "serial with spaces", "a|b"}
	rad := []int{len(names), len(nums), len(nums), len(nums), len(nums), len(spp), len(ants), len(ser)}
	total := 1
	for _, r := range rad {
		total *= r
	}
	step := t.Pick(9*9, 1)
	descr := &mc.Family{Name: "all device descriptions", N: total / 9 / 9 / 9, Run: func(c *mc.Ctx, i int) error {
		k := &calls[len(calls)-3]
		for j := 0; j < 9*9*9; j++ {
			// quick: the number fields vary one or two at a time
			x := i*729 + j
			ix := make([]int, len(rad))
			for q, r := range rad {
				ix[q] = x % r
				x /= r
			}
			if step > 1 {
				nz := 0
				for _, q := range []int{1, 2, 3, 4} {
					if ix[q] > 1 {
						nz++
					}
				}
				if nz > 1 {
					continue
				}
			}
			d := names[ix[0]] + "|" + nums[ix[1]] + "|" + nums[ix[2]] + "|" + nums[ix[3]] + "|" + nums[ix[4]] + "|" + spp[ix[5]] + "|" + ants[ix[6]]
			if s := ser[ix[7]]; s != "\x00" {
				d += "|" + s
			}
			if err := exchange(c, k, answer{text: "DEVICE " + d + "\n"}, 0); err != nil {
				return err
			}
		}
		return nil
	}}
	// Arguments.
	fl := []float64{0, 1, -1, 0.1, -0.25, 1e-7, 123456789.123456, 2.4e6, 3.2e6, 1e9, 2.4e9, 1420405751.768, 1e15, 1e16, 9007199254740993, 1e21, 1e22, 1e100, math.MaxFloat64, math.SmallestNonzeroFloat64, 1.0 / 3, 49.6, 32768, 1e6 + 0.5, 87.9e6}
	for m := 1; m < 1000; m *= 3 {
		for e := -12; e <= 12; e++ {
			fl = append(fl, float64(m)*math.Pow(10, float64(e)), -float64(m)*math.Pow(2, float64(e)))
		}
	}
	args := &mc.Family{Name: "argument values", N: len(fl), Run: func(c *mc.Ctx, i int) error {
		for _, k := range setCalls(fl[i]) {
			for _, tail := range []string{" OK", " OK 12", " FAIL"} {
				if err := exchange(c, &k, answer{text: k.cmd + tail + "\n"}, 0); err != nil {
					return err
				}
			}
			// What the server reports must come back exactly.
			s := strconv.FormatFloat(fl[i], 'g', -1, 64)
			a := " OK " + s
			if k.cmd == "FREQ" {
				a += " 1 " + s + " " + s
			}
			if err := exchange(c, &k, answer{text: k.cmd + a + "\n"}, 0); err != nil {
				return err
			}
		}
		for _, k := range otherCalls() {
			switch k.name {
			case "Frequency", "Rate", "Gain":
				for _, f := range []byte{'f', 'g', 'e'} {
					if err := exchange(c, &k, answer{text: k.cmd + " " + strconv.FormatFloat(fl[i], f, -1, 64) + "\n"}, 0); err != nil {
						return err
					}
				}
			}
		}
		for _, s := range []string{"x", "two words", "!", "-", "10.0.0.1", "[::1]:1234", "RTL2838 (rev 1)", "a|b", strings.Repeat("long", 2000)} {
			for _, k := range []call{
				{"SetAntenna", "ANTENNA", s, false, func(b *borip.BorIP) ([]any, error) { return nil, b.SetAntenna(s) }, kSet, 0},
				{"SetDestination", "DEST", s, false, func(b *borip.BorIP) ([]any, error) { r, err := b.SetDestination(s); return []any{r}, err }, kSet, 1},
				{"SelectDevice", "DEVICE", s, false, func(b *borip.BorIP) ([]any, error) { r, err := b.SelectDevice(s); return []any{r}, err }, kDevice, 0},
			} {
				if i > 0 {
					break
				}
				for _, a := range []string{" OK 1.2.3.4:5", " FAIL x", " " + goodDevices[0]} {
					if err := exchange(c, &k, answer{text: k.cmd + a + "\n"}, 0); err != nil {
						return err
					}
				}
			}
		}
		return nil
	}}
	// Several calls on one connection, each answer in any state.
	pair := &mc.Family{Name: "every ordered pair and triple of calls on one connection", N: len(calls) * len(calls), Run: func(c *mc.Ctx, i int) error {
		a, b := &calls[i%len(calls)], &calls[i/len(calls)]
		for x := range good(a) {
			for y := range good(b) {
				if err := chain(c, []*call{a, b, a}, []string{good(a)[x], good(b)[y], good(a)[(x+1)%len(good(a))]}); err != nil {
					return err
				}
			}
		}
		return nil
	}}
	return []*mc.Family{trunc, loss, args, pair, longSeq, descr, seq}
}

// chain runs proper answers in sequence.
func chain(c *mc.Ctx, ks []*call, as []string) error {
	s := &conn{greeting: "DEVICE -\n", chunk: 5}
	for _, a := range as {
		s.answers = append(s.answers, answer{text: a + "\n"})
	}
	b, err := dial(s, nil)
	if err != nil {
		return mc.V("dial", "Dial fails with %v although the server greets", err)
	}
	c.Evals++
	c.Traces++
	for n, k := range ks {
		vals, err := k.do(b)
		c.Transitions++
		c.States++
		if len(s.lines) != n+1 {
			return mc.V("request", "%s sent %q", k.name, s.lines[n:])
		}
		if e := checkRequest(k, s.lines[n:], s.wbuf); e != nil {
			return e
		}
		m := understand(k, as[n])
		if !m.sure {
			continue
		}
		c.Nontrivial++
		if m.ok != (err == nil) {
			return mc.V("sequence", "calls %v answered %q: the last returned %v, %v", names(ks[max(0, n-5):n+1]), as[max(0, n-5):n+1], show(vals), err)
		}
		for i := range m.vals {
			if m.ok && !same(m.vals[i], vals[i]) {
				return mc.V("sequence", "calls %v answered %q: the last returned %v, not %v", names(ks[max(0, n-5):n+1]), as[max(0, n-5):n+1], show(vals), show(m.vals))
			}
		}
	}
	return nil
}

func names(ks []*call) []string {
	var r []string
	for _, k := range ks {
		r = append(r, k.name)
	}
	return r
}
