// Package rtl stands in for the RTL-SDR library: devices whose behaviour the
// explorer chooses and whose use it observes.
package rtl

import (
	"errors"
	"fmt"
	"sync"

	"verif/harness/gate"
)

// Config describes a device.
type Config struct {
	Name  string
	Gains []int
	Xtal  uint // tuner frequency
	Step  uint // frequencies and rates are rounded down to multiples
}

// Failure makes the Nth call (from 1) of an operation on a device fail; Nth 0 all.
type Failure struct {
	Dev int
	Op  string
	Nth int
}

// Event is one call of the library.
type Event struct {
	Clock int
	Dev   int
	Op    string
	Err   bool
	Goid  uint64
}

// Stream is one ReadAsync.
type Stream struct {
	Dev, N       int
	Start        int
	EndBegin     int // clock when the device began to end it by itself (0 = never)
	End          int // clock when it was over (0 = running)
	ByDevice     bool
	Delivered    []int // sizes of the buffers the callback took
	Refused      int   // callbacks that returned true
	RefusedSizes []int
	Dest         string // for the explorer: where it goes
	Stopped      int    // for the explorer: when its stop was answered
	Lost         bool   // for the explorer: destination unknown
	inCallback   bool
	wait         chan struct{}
}

type dev struct {
	cfg                  Config
	open                 bool
	gen                  int
	freq, rate           uint
	gain                 int
	calls                map[string]int
	stream               *Stream
	streams              int
	ReleaseGoid          uint64 // goroutine still on its way out after Close
	FreeSince, BusyUntil int
}

// World is the hardware of one run.
type World struct {
	mu       sync.Mutex
	Devs     []*dev
	Failures []Failure
	NoFail   bool
	Events   []Event
	Streams  []*Stream
	Viol     []string
	clock    int
	// Sizes of the buffers of stream n; after them EndAfter tells whether the
	// device ends the stream; otherwise the last size repeats.
	Sizes    func(dev, n int) (sizes []int, end bool)
	Extra    bool // the library calls the callback with nil after it returned true
	InFlight int  // buffers still delivered after the callback returned true
}

// W is the world of the process.
var W = &World{}

// NewWorld makes a world.
func NewWorld(cfg []Config) *World {
	w := &World{}
	for _, c := range cfg {
		if c.Step == 0 {
			c.Step = 1
		}
		w.Devs = append(w.Devs, &dev{cfg: c, calls: map[string]int{}})
	}
	return w
}

// Tick advances and returns the clock.
func (w *World) Tick() int {
	w.mu.Lock()
	defer w.mu.Unlock()
	w.clock++
	return w.clock
}

func (w *World) viol(f string, a ...any) { w.Viol = append(w.Viol, fmt.Sprintf(f, a...)) }

// Violations so far.
func (w *World) Violations() []string {
	w.mu.Lock()
	defer w.mu.Unlock()
	return append([]string(nil), w.Viol...)
}

// Do runs f with the world locked.
func (w *World) Do(f func()) {
	w.mu.Lock()
	defer w.mu.Unlock()
	f()
}

// Abandon lets everybody who waits for the end of a stream go on: the run is
// being torn down.
func (w *World) Abandon() {
	w.mu.Lock()
	defer w.mu.Unlock()
	for _, d := range w.Devs {
		if s := d.stream; s != nil && s.wait != nil {
			close(s.wait)
			s.wait = nil
		}
	}
}

// The following are for use inside Do.

func (w *World) Open(d int) bool        { return w.Devs[d].open }
func (w *World) Freq(d int) uint        { return w.Devs[d].freq }
func (w *World) Rate(d int) uint        { return w.Devs[d].rate }
func (w *World) Gain(d int) int         { return w.Devs[d].gain }
func (w *World) Cfg(d int) Config       { return w.Devs[d].cfg }
func (w *World) StreamOf(d int) *Stream { return w.Devs[d].stream }

// BusyAfter tells whether device d was open, being opened or on its way back at
// some moment at or after the clock value.
func (w *World) BusyAfter(d, clock int) bool {
	x := w.Devs[d]
	return x.open || x.ReleaseGoid != 0 || x.BusyUntil >= clock
}

// Progress is told when a goroutine visibly finished a request or its connection.
func (w *World) Progress(goid uint64) {
	w.mu.Lock()
	defer w.mu.Unlock()
	for _, d := range w.Devs {
		if d.ReleaseGoid == goid && goid != 0 {
			d.ReleaseGoid = 0
			w.clock++
			d.BusyUntil = w.clock
		}
	}
}

// Device is an open device.
type Device struct {
	w   *World
	i   int
	gen int
}

var errFail = errors.New("rtl: simulated failure")

// op records a call; it returns an error when this call is to fail.
func (w *World) op(i int, op string) error {
	d := w.Devs[i]
	d.calls[op]++
	w.clock++
	var err error
	if !w.NoFail {
		for _, f := range w.Failures {
			if f.Dev == i && f.Op == op && (f.Nth == 0 || f.Nth == d.calls[op]) {
				err = errFail
			}
		}
	}
	w.Events = append(w.Events, Event{w.clock, i, op, err != nil, gate.GoID()})
	gate.Log("device %d: %s err=%v", i, op, err)
	return err
}

// begin is the prologue of every method.
func (v *Device) begin(op string) (*dev, error) {
	gate.At("device " + op)
	v.w.mu.Lock()
	d := v.w.Devs[v.i]
	if v.gen != d.gen || !d.open {
		v.w.viol("%s called on device %d after it was closed", op, v.i)
		return d, errFail
	}
	return d, v.w.op(v.i, op)
}

func (v *Device) end() { v.w.mu.Unlock() }

func GetDeviceCount() int { return len(W.Devs) }

func GetDeviceName(i int) string {
	if i < 0 || i >= len(W.Devs) {
		return ""
	}
	return W.Devs[i].cfg.Name
}

func Open(i int) (*Device, error) {
	gate.At("device Open")
	w := W
	w.mu.Lock()
	defer w.mu.Unlock()
	if i < 0 || i >= len(w.Devs) {
		return nil, errFail
	}
	d := w.Devs[i]
	if d.open {
		w.viol("device %d opened while it is already open: two owners", i)
		return nil, errFail
	}
	if err := w.op(i, "Open"); err != nil {
		d.BusyUntil = w.clock
		return nil, err
	}
	d.open = true
	d.gen++
	return &Device{w, i, d.gen}, nil
}

// Close returns the device. Like the real library it first waits for a running
// stream to end.
func (v *Device) Close() error {
	d, err := v.begin("Close")
	if v.gen != d.gen || !d.open {
		v.end()
		return errFail
	}
	for d.stream != nil {
		ch := make(chan struct{})
		d.stream.wait = ch
		v.end()
		<-ch
		gate.At("device Close continues")
		v.w.mu.Lock()
	}
	d.open = false
	d.ReleaseGoid = gate.GoID()
	v.end()
	return err
}

func (v *Device) SetCenterFreq(f uint) error {
	d, err := v.begin("SetCenterFreq")
	defer v.end()
	if err == nil {
		d.freq = f - f%d.cfg.Step
	}
	return err
}

func (v *Device) GetCenterFreq() (uint, error) {
	d, err := v.begin("GetCenterFreq")
	defer v.end()
	return d.freq, err
}

func (v *Device) SetSampleRate(f uint) error {
	d, err := v.begin("SetSampleRate")
	defer v.end()
	if err == nil {
		d.rate = f - f%d.cfg.Step
	}
	return err
}

func (v *Device) GetSampleRate() (int, error) {
	d, err := v.begin("GetSampleRate")
	defer v.end()
	return int(d.rate), err
}

func (v *Device) SetTunerGain(g int) error {
	d, err := v.begin("SetTunerGain")
	defer v.end()
	if err == nil {
		d.gain = int(Closest(d.cfg.Gains, g))
	}
	return err
}

// Closest gain the tuner has.
func Closest(gains []int, g int) int64 {
	r := g
	for i, x := range gains {
		if i == 0 || abs(x-g) < abs(r-g) {
			r = x
		}
	}
	return int64(r)
}

// Config of the device.
func (d *dev) Config() Config { return d.cfg }

func abs(x int) int {
	if x < 0 {
		return -x
	}
	return x
}

func (v *Device) GetTunerGain() (int, error) {
	d, err := v.begin("GetTunerGain")
	defer v.end()
	return d.gain, err
}

func (v *Device) GetTunerGains() ([]int, error) {
	d, err := v.begin("GetTunerGains")
	defer v.end()
	if err != nil {
		return nil, err
	}
	return append([]int(nil), d.cfg.Gains...), nil
}

func (v *Device) GetXtalFreq() (rtlFreq, tunerFreq uint, err error) {
	d, err := v.begin("GetXtalFreq")
	defer v.end()
	if err != nil {
		return 12345, 54321, err
	}
	return 28800000, d.cfg.Xtal, nil
}

func (v *Device) SetAGCMode(bool) error {
	_, err := v.begin("SetAGCMode")
	defer v.end()
	return err
}

func (v *Device) SetTunerGainMode(bool) error {
	_, err := v.begin("SetTunerGainMode")
	defer v.end()
	return err
}

func (v *Device) ResetBuffer() error {
	_, err := v.begin("ResetBuffer")
	defer v.end()
	return err
}

func (v *Device) CancelAsync() error {
	_, err := v.begin("CancelAsync")
	defer v.end()
	return err
}

// Byte k of the data device d delivers in its stream n.
func Byte(d, n, k int) byte {
	x := uint32(k)*2654435761 + uint32(n)*40503 + uint32(d)*977
	return byte(x>>24) ^ byte(k)
}

// ReadAsync starts delivering samples to cb from another goroutine, until cb
// returns true or the device fails; a nil buffer marks the end.
func (v *Device) ReadAsync(nBuffers, bufferSize int, cb func([]byte) bool) error {
	d, err := v.begin("ReadAsync")
	if v.gen != d.gen || !d.open {
		v.end()
		return errFail
	}
	// A stream that is already ending is waited for.
	for d.stream != nil && (d.stream.inCallback || d.stream.Refused > 0 || d.stream.ByDevice) {
		ch := make(chan struct{})
		d.stream.wait = ch
		v.end()
		<-ch
		gate.At("device ReadAsync continues")
		v.w.mu.Lock()
	}
	if d.stream != nil {
		v.w.viol("stream started on device %d while another one is running", v.i)
		v.end()
		return errFail
	}
	w := v.w
	d.streams++
	w.clock++
	s := &Stream{Dev: v.i, N: d.streams, Start: w.clock}
	d.stream = s
	w.Streams = append(w.Streams, s)
	sizes, end := []int{8}, false
	if w.Sizes != nil {
		sizes, end = w.Sizes(v.i, s.N)
	}
	failed := err != nil
	v.end()
	go func() {
		pos, refused := 0, 0
		var scratch []byte
		call := func(b []byte) bool {
			w.mu.Lock()
			s.inCallback = true
			w.mu.Unlock()
			r := cb(b)
			w.mu.Lock()
			s.inCallback = false
			if r && b != nil {
				s.Refused++
				s.RefusedSizes = append(s.RefusedSizes, len(b))
			}
			if s.wait != nil && !r {
				close(s.wait)
				s.wait = nil
			}
			w.mu.Unlock()
			return r
		}
		finish := func() {
			w.mu.Lock()
			w.clock++
			s.End = w.clock
			d.stream = nil
			if s.wait != nil {
				close(s.wait)
				s.wait = nil
			}
			w.mu.Unlock()
		}
		for k := 0; ; k++ {
			gate.Yield(fmt.Sprintf("device %d delivers", s.Dev))
			if failed || k >= len(sizes) && end {
				w.mu.Lock()
				w.clock++
				s.EndBegin, s.ByDevice = w.clock, true
				w.mu.Unlock()
				gate.Log("device %d: stream %d ends by itself", s.Dev, s.N)
				call(nil)
				finish()
				return
			}
			n := sizes[len(sizes)-1]
			if k < len(sizes) {
				n = sizes[k]
			}
			if cap(scratch) < n {
				scratch = make([]byte, n)
			}
			buf := scratch[:n]
			for j := range buf {
				buf[j] = Byte(s.Dev, s.N, pos+j)
			}
			pos += n
			r := call(buf)
			for j := range buf {
				buf[j] = 0xAA // the library reuses its buffers
			}
			if r || refused > 0 {
				refused++
				if refused <= w.InFlight {
					pos -= n
					continue
				}
				if w.Extra {
					call(nil)
				}
				gate.Log("device %d: stream %d stopped", s.Dev, s.N)
				finish()
				return
			}
			s.Delivered = append(s.Delivered, n)
		}
	}()
	return nil
}

// ReadAsyncUsingSync is the same to its users.
func (v *Device) ReadAsyncUsingSync(nBuffers, bufferSize int, cb func([]byte) bool) error {
	return v.ReadAsync(nBuffers, bufferSize, cb)
}
