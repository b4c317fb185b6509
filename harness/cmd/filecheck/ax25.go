package main

// C32: an AX.25 receiver made of the libraries, on recordings of Bell 202
// signals: examples/ax25.go if it compiles, or else cmd/rxtool, its repaired copy.

import (
	"encoding/hex"
	"fmt"
	"math"
	"os"
	"regexp"
	"strings"

	"verif/harness/mc"
)

var (
	axTool = os.Getenv("VERIF_AX25")
	axLog  = os.Getenv("VERIF_AX25_LOG") // what the compiler said
)

const (
	axRate = 44100
	baud   = 1200
	axBlk  = 8 // octets the tool reads at a time
)

type addr struct {
	call string
	id   int
}

func (a addr) String() string { return fmt.Sprintf("%s-%d", a.call, a.id) }

// packet is a frame as sent.
type packet struct {
	dst, src addr
	reps     []addr
	ctl      []byte // control field, and protocol id
	info     []byte
	damage   int // bit that is inverted after the check sequence was made, plus one
}

func (p packet) octets() []byte {
	var b []byte
	put := func(a addr, c byte, last bool) {
		for i := 0; i < 6; i++ {
			ch := byte(' ')
			if i < len(a.call) {
				ch = a.call[i]
			}
			b = append(b, ch<<1)
		}
		v := byte(a.id)<<1 | 0x60 | c<<7
		if last {
			v |= 1
		}
		b = append(b, v)
	}
	put(p.dst, 1, false)
	put(p.src, 0, len(p.reps) == 0)
	for i, r := range p.reps {
		put(r, 0, i == len(p.reps)-1)
	}
	b = append(append(b, p.ctl...), p.info...)
	crc := uint16(0xffff)
	for _, v := range b {
		for k := 0; k < 8; k++ {
			bit := uint16(v>>k&1) ^ crc&1
			crc >>= 1
			if bit == 1 {
				crc ^= 0x8408
			}
		}
	}
	crc = ^crc
	b = append(b, byte(crc), byte(crc>>8))
	if p.damage > 0 {
		d := (p.damage - 1) % (8 * len(b))
		b[d/8] ^= 1 << (d % 8)
	}
	return b
}

// print is what the tool says about it.
func (p packet) print() string {
	s := p.src.String() + " to " + p.dst.String()
	for i, r := range p.reps {
		if s += ","; i == 0 {
			s = s[:len(s)-1] + " via "
		}
		s += r.String()
	}
	return s + "\n" + hex.Dump(p.info)
}

var flagBits = []byte{0, 1, 1, 1, 1, 1, 1, 0}

func flags(n int) []byte {
	var b []byte
	for ; n > 0; n-- {
		b = append(b, flagBits...)
	}
	return b
}

// stuffed bits of the packet, without flags.
func (p packet) bits() []byte {
	var out []byte
	ones := 0
	for _, v := range p.octets() {
		for k := 0; k < 8; k++ {
			x := v >> k & 1
			out = append(out, x)
			if ones++; x == 0 {
				ones = 0
			} else if ones == 5 {
				out = append(out, 0)
				ones = 0
			}
		}
	}
	return out
}

// signal describes how bits become sound.
type signal struct {
	amp, phase, offset float64 // offset: where in the first bit the first sample lies
	lead               int     // samples of silence first
	mark               bool    // the tone the line is at before the first bit
}

// sound appends the tones of the bits (a zero changes the tone).
func sound(pcm []int16, bits []byte, s signal) []int16 {
	ph := s.phase
	mark := s.mark
	cur := -1
	for i := 0; ; i++ {
		k := int((float64(i) + s.offset*axRate/baud) * baud / axRate)
		if k >= len(bits) {
			return pcm
		}
		for ; cur < k; cur++ {
			if bits[cur+1] == 0 {
				mark = !mark
			}
		}
		f := 2200.0
		if mark {
			f = 1200
		}
		ph += 2 * math.Pi * f / axRate
		pcm = append(pcm, int16(math.Round(32767*s.amp*math.Sin(ph))))
	}
}

func octets(pcm []int16) []byte {
	for len(pcm)%(axBlk/2) != 0 {
		pcm = append(pcm, 0)
	}
	b := make([]byte, 0, 2*len(pcm))
	for _, v := range pcm {
		b = append(b, byte(v), byte(uint16(v)>>8))
	}
	return b
}

func silence(pcm []int16, n int) []int16 { return append(pcm, make([]int16, n)...) }

func pattern(kind, n int) []byte {
	b := make([]byte, n)
	for i := range b {
		switch kind {
		case 0:
			b[i] = "the quick brown fox jumps over the lazy dog 0123456789 "[i%55]
		case 1:
			b[i] = 0xff
		case 2:
			b[i] = 0
		case 3:
			b[i] = byte(i)
		case 4:
			b[i] = 0x7e
		case 5:
			b[i] = byte(255 - i*7)
		case 6:
			b[i] = 0x55
		case 7:
			b[i] = []byte{0xf8, 0x01, 0x3f, 0x80}[i%4]
		}
	}
	return b
}

var (
	ui     = []byte{3, 0xf0}
	plainP = packet{dst: addr{"APRS", 0}, src: addr{"N0CALL", 1}, ctl: ui, info: []byte("hello")}
	viaP   = packet{dst: addr{"CQ", 15}, src: addr{"W1AW", 7}, reps: []addr{{"RELAY", 0}, {"WIDE2", 2}}, ctl: ui, info: pattern(3, 40)}
)

func axWant(ps ...packet) string {
	s := ""
	for _, p := range ps {
		s += p.print()
	}
	return s
}

// axFile and axPipe run the tool and compare.
func axFile(c *mc.Ctx, data []byte, stdin bool, want, how string, a ...any) error {
	r, err := file(data, stdin)
	if err != nil {
		return err
	}
	count(c, 1)
	if c.WantSample() {
		c.Sample("%d octets from a file: printed %q", len(data), brief2(r.out))
	}
	return r.check([]string{want}, how, a...)
}

func brief2(s string) string {
	if len(s) > 200 {
		return s[:200] + "..."
	}
	return s
}

func axPipe(c *mc.Ctx, data []byte, cuts []int, dash bool, want []string, how string, a ...any) error {
	r, err := pipe(data, cuts, dash)
	if err != nil {
		return err
	}
	count(c, len(cuts)+1)
	return r.check(want, "%s, read up to %s", fmt.Sprintf(how, a...), brief(cuts))
}

const compileKey = "examples/ax25.go passes []int to NewGoertzel"

func axFamilies(t mc.Tier) []*mc.Family {
	tool = axTool
	if _, err := os.Stat(axTool); err != nil {
		tool = os.Getenv("VERIF_RX")
	}
	compiles := &mc.Family{Name: "examples/ax25.go compiles", N: 1, Run: func(c *mc.Ctx, i int) error {
		c.Add("programs compiled", 1)
		if _, err := os.Stat(axTool); err == nil {
			return nil
		}
		b, _ := os.ReadFile(axLog)
		log := strings.TrimSpace(string(b))
		// The defect is one call; the second message is its consequence.
		known := []string{
			`ax25\.go:\d+:\d+: cannot use .*\[\]int.* as \[\]uint64 value in argument to dsp\.NewGoertzel$`,
			`ax25\.go:\d+:\d+: cannot use .*\[\]float32.* as \[\]float64 value in argument to .*\.Feed$`,
		}
		rest := log
		for _, re := range known {
			rest = regexp.MustCompile(`(?m)^\S*`+re).ReplaceAllString(rest, "")
		}
		if rest != log && !strings.Contains(rest, ".go:") {
			return c.Known(compileKey, "examples/ax25.go does not compile: %s", log)
		}
		return mc.V("build", "the receiver does not compile: %s", log)
	}}
	// Every frame, from a file, from standard input and through a pipe.
	type rec struct {
		p packet
		s signal
	}
	var recs []rec
	phases := []float64{0, 0.8, 1.6, 2.4, 3.2, 4, 4.8, 5.6}
	offs := []float64{0, 0.25, 0.5, 0.75}
	amps := []float64{1, 0.5, 0.75}
	n := 0
	add := func(p packet) {
		recs = append(recs, rec{p, signal{amps[n%3], phases[n%8], offs[n/8%4], []int{0, 1, 2, 3, 40, 777}[n%6], n%2 == 0}})
		n++
	}
	for kind := 0; kind < 8; kind++ {
		for _, l := range []int{0, 1, 2, 15, 16, 17, 33, 100, 200, 256, 494} {
			p := plainP
			p.info = pattern(kind, l)
			add(p)
		}
	}
	for id := 0; id < 16; id++ {
		add(packet{dst: addr{"AB"[:id%2+1], id}, src: addr{"XYZ123"[:1+id%6], 15 - id}, ctl: ui, info: pattern(0, id)})
	}
	for r := 0; r <= 8; r++ {
		p := plainP
		for k := 0; k < r; k++ {
			p.reps = append(p.reps, addr{"RPT" + string(rune('A'+k)), (k * 5) % 16})
		}
		add(p)
	}
	for _, ctl := range [][]byte{{0x00, 0xf0}, {0x54, 0xcf}, {0x13, 0xcc}, {0xfe, 0x06}} {
		p := viaP
		p.ctl = ctl
		add(p)
	}
	for _, ctl := range []byte{0x2f, 0x3f, 0x43, 0x0f, 0x63, 0x73, 0x01, 0x31, 0xe5, 0x09} { // no information
		p := plainP
		p.ctl, p.info = []byte{ctl}, nil
		add(p)
	}
	for v := 0; v < 256; v += t.Pick(5, 1) {
		p := plainP
		p.info = []byte{byte(v), byte(v * 3), byte(v ^ 0xff)}
		add(p)
	}
	frames := &mc.Family{Name: "frames", N: len(recs), Run: func(c *mc.Ctx, i int) error {
		x := recs[i]
		bits := append(append(flags(2+i%5), x.p.bits()...), flags(2)...)
		data := octets(silence(sound(silence(nil, x.s.lead), bits, x.s), 400))
		how := "a recording of a frame from %s to %s via %v with %d octets of information, signal %+v"
		a := []any{x.p.src, x.p.dst, x.p.reps, len(x.p.info), x.s}
		want := axWant(x.p)
		if err := axFile(c, data, false, want, how, a...); err != nil {
			return err
		}
		if err := axFile(c, data, true, want, how+", on standard input", a...); err != nil {
			return err
		}
		return axPipe(c, data, nil, i%2 == 0, []string{want}, how, a...)
	}}
	// Every phase, timing, level and lead of one frame.
	sig := []signal{}
	for a := range t.Pick(5, 9) {
		for p := range t.Pick(12, 32) {
			for o := range t.Pick(8, 20) {
				for _, l := range []int{0, 1, 2, 3, 17, 36, 5000} {
					sig = append(sig, signal{0.5 + 0.5*float64(a)/float64(t.Pick(4, 8)), 2 * math.Pi * float64(p) / float64(t.Pick(12, 32)), float64(o) / float64(t.Pick(8, 20)), l, (a+p+o)%2 == 0})
				}
			}
		}
	}
	signals := &mc.Family{Name: "phases, timings and levels", N: len(sig), Run: func(c *mc.Ctx, i int) error {
		s := sig[i]
		bits := append(append(flags(2+i%3), plainP.bits()...), flags(1+i%2)...)
		data := octets(silence(sound(silence(nil, s.lead), bits, s), 300))
		return axFile(c, data, i%2 == 0, axWant(plainP), "a recording of one frame, signal %+v", s)
	}}
	// Sequences: frames, shared flags, idle flags, breaks, damaged frames.
	bad := viaP
	bad.damage = 101
	seq := []struct {
		name  string
		bits  []byte
		gap   int
		print string
	}{
		{"frame", append(plainP.bits(), flagBits...), 0, plainP.print()},
		{"frame via repeaters", append(viaP.bits(), flagBits...), 0, viaP.print()},
		{"damaged frame", append(bad.bits(), flagBits...), 0, ""},
		{"idle flags", flags(7), 0, ""},
		{"break", nil, 3000, ""},
		{"aborted frame", append(append(append([]byte{}, plainP.bits()[:150]...), 1, 1, 1, 1, 1, 1, 1, 1, 0), flags(2)...), 0, ""},
	}
	depth := t.Pick(4, 5)
	ns := 1
	for k := 0; k < depth; k++ {
		ns *= len(seq)
	}
	seqs := &mc.Family{Name: "sequences", N: ns, Run: func(c *mc.Ctx, i int) error {
		s := signal{0.6, phases[i%8], offs[i/8%4], 0, i%2 == 0}
		bits := flags(2)
		var pcm []int16
		want := ""
		var names []string
		for k, x := 0, i; k < depth; k, x = k+1, x/len(seq) {
			e := seq[x%len(seq)]
			names = append(names, e.name)
			if e.gap > 0 {
				pcm = silence(sound(pcm, bits, s), e.gap+i%5)
				bits = flags(2)
				continue
			}
			bits = append(bits, e.bits...)
			want += e.print
		}
		data := octets(silence(sound(pcm, bits, s), 300))
		return axFile(c, data, i%2 == 1, want, "a recording of %s", strings.Join(names, ", "))
	}}
	// Every damaged bit of a frame.
	short := plainP
	short.info = []byte("hi")
	damaged := &mc.Family{Name: "damaged frames", N: 8 * len(short.octets()), Run: func(c *mc.Ctx, i int) error {
		p := short
		p.damage = i + 1
		bits := append(append(append(append(flags(3), p.bits()...), flags(1)...), short.bits()...), flags(2)...)
		data := octets(silence(sound(nil, bits, signal{amp: 0.8, phase: 1}), 300))
		return axFile(c, data, i%2 == 1, axWant(short), "a recording of a frame with bit %d inverted and of a good one", i)
	}}
	// How the input arrives.
	cutBits := append(append(flags(2), short.bits()...), flags(2)...)
	cutData := octets(silence(sound(nil, cutBits, signal{amp: 0.9, phase: 0.4}), 300))
	cutWant := []string{axWant(short)}
	const what = "a recording of one frame (%d octets)"
	stride := t.Pick(3, 1)
	oneCut := &mc.Family{Name: "one short read anywhere", N: len(cutData) / stride, Run: func(c *mc.Ctx, i int) error {
		return axPipe(c, cutData, []int{i * stride}, i%2 == 1, cutWant, what, len(cutData))
	}}
	consts := &mc.Family{Name: "reads of constant size", N: t.Pick(40, 200), Run: func(c *mc.Ctx, i int) error {
		var cuts []int
		for p := i + 1; p < len(cutData); p += i + 1 {
			cuts = append(cuts, p)
		}
		return axPipe(c, cutData, cuts, false, cutWant, what, len(cutData))
	}}
	places := []int{0, 8000, len(cutData)/2&^7 - 8, len(cutData) - 64}
	two := &mc.Family{Name: "two short reads", N: 24 * 24 * len(places), Run: func(c *mc.Ctx, i int) error {
		p := places[i/576]
		return axPipe(c, cutData, []int{p + i%24, p + i%24 + 1 + i/24%24}, false, cutWant, what, len(cutData))
	}}
	// Every end: nothing before the closing flag, the frame soon after it.
	body := len(flags(2)) + len(short.bits())
	at := func(bit float64) int { return int(bit*axRate/baud) * 2 }
	first, last := at(float64(body+7)), at(float64(body+8+4))
	ends := &mc.Family{Name: "every end of the input", N: t.Pick(last-first+2000, len(cutData)), Run: func(c *mc.Ctx, i int) error {
		e := min(i+t.Pick(first-1000, 1), len(cutData))
		var want []string
		if e < last {
			want = append(want, "")
		}
		if e > first {
			want = append(want, cutWant[0])
		}
		if err := axPipe(c, cutData[:e], []int{e - 1 - i%9}, false, want, "the first %d octets of a recording of one frame", e); err != nil {
			return err
		}
		r, err := file(cutData[:e], false)
		if err != nil {
			return err
		}
		count(c, 1)
		return r.check(want, "a file with the first %d octets of a recording of one frame", e)
	}}
	return []*mc.Family{compiles, frames, seqs, damaged, ends, oneCut, consts, two, signals}
}

func init() {
	mc.Register(&mc.Check{ID: "C32", Level: "model_checking",
		Rule:        "one evaluation is one complete run of the real receiver on one recording with one way of splitting it into reads; states and transitions count the reads. The expected output is known from how the recording was made.",
		Assumptions: []string{"the signal has at least half of the full level (the receiver has a squelch), no noise, at least two flags before the first frame and keeps its timing", "the samples of a partial last block may count or not"},
		Families:    axFamilies})
}
