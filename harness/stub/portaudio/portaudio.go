// Package portaudio stands in for the sound card library, which is not available
// here: a recording described by VERIF_PA is what the card delivers.
package portaudio

import (
	"encoding/json"
	"errors"
	"fmt"
	"math"
	"os"
	"time"

	"verif/harness/vsignal"
)

// Seg is a key (-1: silence) held for some time.
type Seg struct {
	Key int
	Sec float64
}

// Script is what the card does.
type Script struct {
	Segs       []Seg
	Amp, Phase float64
	Interrupt  int    // the user interrupts while this block is awaited; 0: at the end of the recording
	Fail       string // the operation that fails
	FailAt     int    // the read that fails
	Log        string // what the program does goes here
}

var (
	script Script
	inited int
)

func load() {
	if script.Log != "" {
		return
	}
	b, err := os.ReadFile(os.Getenv("VERIF_PA"))
	if err == nil {
		err = json.Unmarshal(b, &script)
	}
	if err != nil {
		panic(err)
	}
}

func note(f string, a ...interface{}) {
	load()
	l, err := os.OpenFile(script.Log, os.O_APPEND|os.O_CREATE|os.O_WRONLY, 0o600)
	if err != nil {
		panic(err)
	}
	fmt.Fprintf(l, f+"\n", a...)
	l.Close()
}

func op(name string) error {
	load()
	note("%s", name)
	if script.Fail == name {
		return errors.New(name + " failed")
	}
	return nil
}

func Initialize() error {
	err := op("Initialize")
	if err == nil {
		inited++
	}
	return err
}

func Terminate() error {
	if inited == 0 {
		note("misuse: Terminate of a library that is not initialised")
	}
	inited--
	return op("Terminate")
}

// Stream is an open sound card.
type Stream struct {
	rate           float64
	buf            interface{}
	frames         int
	blocks, at     int
	running, close bool
}

// StreamInfo describes a stream.
type StreamInfo struct {
	InputLatency, OutputLatency time.Duration
	SampleRate                  float64
}

func OpenDefaultStream(in, out int, rate float64, frames int, args ...interface{}) (*Stream, error) {
	if inited == 0 {
		note("misuse: a stream of a library that is not initialised")
	}
	if err := op("Open"); err != nil {
		return nil, err
	}
	if in != 1 || out != 0 || len(args) != 1 || frames < 0 || rate < 1000 {
		return nil, errors.New("unsupported stream")
	}
	s := &Stream{rate: rate, buf: args[0], frames: frames}
	if n := s.len(); n < 0 || frames != 0 && frames != n {
		return nil, errors.New("the buffer does not fit")
	}
	return s, nil
}

func (s *Stream) len() int {
	switch b := s.buf.(type) {
	case []float32:
		return len(b)
	case []int16:
		return len(b)
	case [][]float32:
		if len(b) == 1 {
			return len(b[0])
		}
	}
	return -1
}

func (s *Stream) Info() *StreamInfo { return &StreamInfo{1e7, 0, s.rate} }

func (s *Stream) Time() time.Duration {
	return time.Duration(float64(s.at) / s.rate * 1e9)
}

func (s *Stream) CpuLoad() float64 { return 0 }

func (s *Stream) use(what string) {
	if s.close {
		note("misuse: %s of a closed stream", what)
	}
}

func (s *Stream) Start() error {
	s.use("Start")
	if err := op("Start"); err != nil {
		return err
	}
	s.running = true
	return nil
}

func (s *Stream) Stop() error {
	s.use("Stop")
	s.running = false
	return op("Stop")
}

func (s *Stream) Abort() error { return s.Stop() }

func (s *Stream) Close() error {
	s.use("Close")
	s.running, s.close = false, true
	return op("Close")
}

var (
	low  = []float64{697, 770, 852, 941}
	high = []float64{1209, 1336, 1477, 1633}
)

func (s *Stream) sample(i int) (v float64, more bool) {
	t := float64(i) / s.rate
	for _, g := range script.Segs {
		if t < g.Sec {
			if g.Key < 0 {
				return 0, true
			}
			return script.Amp * (math.Sin(2*math.Pi*low[g.Key/4]*t+script.Phase) + math.Sin(2*math.Pi*high[g.Key%4]*t+2*script.Phase)), true
		}
		t -= g.Sec
	}
	return 0, false
}

func (s *Stream) Read() error {
	s.use("Read")
	if !s.running {
		note("misuse: Read of a stream that is not started")
		return errors.New("stream is not started")
	}
	s.blocks++
	if script.Fail == "Read" && s.blocks == script.FailAt {
		note("Read failed")
		return errors.New("Read failed")
	}
	more := true
	n := s.len()
	for i := 0; i < n; i++ {
		var v float64
		v, more = s.sample(s.at)
		s.at++
		switch b := s.buf.(type) {
		case []float32:
			b[i] = float32(v)
		case []int16:
			b[i] = int16(math.Round(v * 32767))
		case [][]float32:
			b[0][i] = float32(v)
		}
	}
	if script.Interrupt == s.blocks || script.Interrupt == 0 && !more {
		note("interrupt at %d of %d", s.at, n)
		if !vsignal.Deliver(os.Interrupt) {
			os.Exit(130)
		}
	}
	if s.blocks > 1<<20 {
		note("misuse: reading on after the interrupt")
		os.Exit(3)
	}
	return nil
}
