// filecheck decides C30: the real file decoder tool, with every way its input
// can be split into reads.
package main

import (
	"bytes"
	"fmt"
	"math"
	"os"
	"os/exec"
	"slices"
	"strings"
	"syscall"
	"time"
	"unsafe"

	"github.com/samuel/go-dsp/dsp/dtmf"

	"verif/harness/mc"
)

func main() { mc.Main() }

// tool is the program under test.
var tool = os.Getenv("VERIF_DTMF")

const (
	rate = 8000
	win  = 51      // samples a block advances
	blk  = 2 * win // octets of it

	chunk = 320 * blk // less than the pipe holds
)

var (
	low    = []float64{697, 770, 852, 941}
	high   = []float64{1209, 1336, 1477, 1633}
	keypad = "123A456B789C*0#D"
)

// seg is a key held for some samples (key -1: silence).
type seg struct{ key, n int }

// render makes the octets of a recording.
func render(segs []seg, amp, phase float64) []byte {
	var b []byte
	for _, s := range segs {
		for i := 0; i < s.n; i++ {
			v := 0.0
			if s.key >= 0 {
				t := float64(i) / rate
				v = amp * (math.Sin(2*math.Pi*low[s.key/4]*t+phase) + math.Sin(2*math.Pi*high[s.key%4]*t+2*phase))
			}
			x := int16(math.Round(v * 32767))
			b = append(b, byte(x), byte(uint16(x)>>8))
		}
	}
	return b
}

// recording of keys, each held for hold and followed by gap samples.
func recording(keys []int, hold, gap, lead int, amp, phase float64) ([]byte, string) {
	segs := []seg{{-1, lead}}
	want := ""
	for _, k := range keys {
		segs = append(segs, seg{k, hold}, seg{-1, gap})
		want += keypad[k : k+1]
	}
	return render(segs, amp, phase), want + "\n"
}

// pending octets in the pipe.
func pending(f *os.File) int {
	var n int32
	syscall.Syscall(syscall.SYS_IOCTL, f.Fd(), 0x541B, uintptr(unsafe.Pointer(&n)))
	return int(n)
}

type result struct {
	out  string
	code int
	err  string
}

func wait(cmd *exec.Cmd, out, errb *bytes.Buffer) chan result {
	ch := make(chan result, 1)
	go func() {
		cmd.Wait()
		ch <- result{out.String(), cmd.ProcessState.ExitCode(), errb.String()}
	}()
	return ch
}

// pipe feeds the tool through a pipe so that no read crosses a cut: the octets
// after a cut are written only when all before it were read.
func pipe(data []byte, cuts []int, dash bool) (result, error) {
	r, w, err := os.Pipe()
	if err != nil {
		return result{}, err
	}
	defer r.Close()
	var args []string
	if dash {
		args = []string{"-"}
	}
	cmd := exec.Command(tool, args...)
	var out, errb bytes.Buffer
	cmd.Stdin, cmd.Stdout, cmd.Stderr = r, &out, &errb
	if err := cmd.Start(); err != nil {
		return result{}, err
	}
	ch := wait(cmd, &out, &errb)
	limit := time.Now().Add(60 * time.Second)
	pos := 0
	for _, c := range append(append([]int(nil), cuts...), len(data)) {
		if c <= pos {
			continue
		}
		for pos < c {
			k := min(c, pos+chunk)
			w.Write(data[pos:k])
			pos = k
			for spin := 0; pending(r) > 0; spin++ {
				if spin > 2000 {
					time.Sleep(20 * time.Microsecond)
				}
				if spin%64 == 63 {
					select {
					case res := <-ch: // it ended without reading everything
						w.Close()
						return res, nil
					default:
					}
					if time.Now().After(limit) {
						cmd.Process.Kill()
						w.Close()
						<-ch
						return result{}, fmt.Errorf("the tool does not read its input")
					}
				}
			}
		}
	}
	w.Close()
	select {
	case res := <-ch:
		return res, nil
	case <-time.After(60 * time.Second):
		cmd.Process.Kill()
		<-ch
		return result{}, mc.V("hang", "the tool does not end at the end of its input (%d octets, cuts %v)", len(data), brief(cuts))
	}
}

// file gives the tool a file; stdin tells how.
func file(data []byte, stdin bool) (result, error) {
	f, err := os.CreateTemp("", "verif-dtmf")
	if err != nil {
		return result{}, err
	}
	defer os.Remove(f.Name())
	defer f.Close()
	f.Write(data)
	cmd := exec.Command(tool)
	if stdin {
		f.Seek(0, 0)
		cmd.Stdin = f
	} else {
		cmd.Args = append(cmd.Args, f.Name())
	}
	var out, errb bytes.Buffer
	cmd.Stdout, cmd.Stderr = &out, &errb
	if err := cmd.Start(); err != nil {
		return result{}, err
	}
	ch := wait(cmd, &out, &errb)
	select {
	case res := <-ch:
		return res, nil
	case <-time.After(60 * time.Second):
		cmd.Process.Kill()
		<-ch
		return result{}, mc.V("hang", "the tool does not end at the end of the file of %d octets", len(data))
	}
}

func brief(c []int) string {
	s := fmt.Sprint(c)
	if len(s) > 200 {
		s = s[:200] + "..."
	}
	return s
}

// stale is what the tool with the known defect prints: it takes every read for
// a whole block, whatever was there in the buffer before.
func stale(data []byte, cuts []int) string {
	dt := dtmf.NewStandard(rate, 205)
	samples := make([]float32, 205)
	buf := make([]byte, blk)
	last, n, pos := -1, 0, 0
	out := ""
	for _, c := range append(append([]int(nil), cuts...), len(data)) {
		for pos < c {
			pos += copy(buf, data[pos:c])
			copy(samples, samples[win:])
			for i := 0; i < blk; i += 2 {
				samples[len(samples)-win+i/2] = float32(int16(buf[i])|int16(buf[i+1])<<8) / 32768
			}
			if k, t := dt.Feed(samples); k == last && t > 0 {
				if n++; n == 9 {
					out += keypad[k : k+1]
				}
			} else {
				last, n = k, 0
			}
		}
	}
	return out
}

// shortReads tells whether reads that end at the cuts, and at the end, leave
// one of them short of a block.
func shortReads(n int, cuts []int) bool {
	pos := 0
	for _, c := range append(append([]int(nil), cuts...), n) {
		if c > pos {
			if (c-pos)%blk != 0 {
				return true
			}
			pos = c
		}
	}
	return false
}

const knownKey = "stale samples after a short read"

// judge is check, but for the known defect: exactly what it prints, where a
// read was short.
func (r result) judge(c *mc.Ctx, data []byte, cuts []int, want []string, how string, a ...any) error {
	err := r.check(want, how, a...)
	if err == nil || r.code != 0 || !shortReads(len(data), cuts) {
		return err
	}
	if strings.TrimRight(r.out, "\n") != stale(data, cuts) {
		return err
	}
	return c.Known(knownKey, "%s", err)
}

func (r result) check(want []string, how string, a ...any) error {
	how = fmt.Sprintf(how, a...)
	if r.code != 0 {
		return mc.V("exit", "%s: the tool ended with status %d: %s", how, r.code, strings.TrimSpace(r.err))
	}
	for _, w := range want {
		if strings.TrimRight(r.out, "\n") == strings.TrimRight(w, "\n") {
			return nil
		}
	}
	return mc.V("output", "%s: the tool printed %q, not %q", how, r.out, want[0])
}

func count(c *mc.Ctx, n int) {
	c.Evals++
	c.Traces++
	c.Nontrivial++
	c.States += int64(n)
	c.Transitions += int64(n)
}

// every runs the recording over a pipe with the cuts.
func every(c *mc.Ctx, data []byte, want string, cuts []int, dash bool) error {
	r, err := pipe(data, cuts, dash)
	if err != nil {
		return err
	}
	count(c, len(cuts)+1)
	if c.WantSample() {
		c.Sample("%d octets, read up to %s: printed %q", len(data), brief(cuts), r.out)
	}
	return r.judge(c, data, cuts, []string{want}, "a recording of the keys %q (%d octets), the reads end at %s", strings.TrimSpace(want), len(data), brief(cuts))
}

func families(t mc.Tier) []*mc.Family {
	if _, err := os.Stat(tool); err != nil {
		panic("the tool was not built: " + err.Error())
	}
	// The keys themselves, from files.
	type rec struct {
		keys            []int
		hold, gap, lead int
		amp, phase      float64
	}
	var recs []rec
	lens := [][3]int{{16 * win, 6 * win, 0}, {20*win + 17, 8*win + 5, 3}, {40*win + 1, 7 * win, 2*win + 25}}
	for a := -1; a < 16; a++ {
		for b := 0; b < 16; b++ {
			for k, l := range lens {
				ks := []int{a, b}
				if a < 0 {
					ks = ks[1:]
				}
				recs = append(recs, rec{ks, l[0], l[1], l[2], []float64{0.45, 0.1, 0.02}[k], []float64{0, 1, 2.5}[k]})
			}
		}
	}
	for i := 0; i < 16*t.Pick(4, 16); i++ {
		a, b := i%16, (i/16*5+i)%16
		recs = append(recs, rec{[]int{a, a, b}, 18 * win, 7 * win, 11, 0.3, 0.7}, rec{[]int{a, b, a, a}, 17*win + 9, 6*win + 50, 0, 0.2, 1.9})
	}
	all := make([]int, 16)
	for k := range all {
		all[k] = k
	}
	recs = append(recs, rec{all, 17 * win, 6 * win, 0, 0.4, 0.3}, rec{append(all, all...), 300 * win, 6 * win, 0, 0.4, 0.3}, rec{nil, 0, 0, 0, 0, 0}, rec{nil, 0, 0, 30 * win, 0, 0})
	keys := &mc.Family{Name: "keys", N: len(recs), Run: func(c *mc.Ctx, i int) error {
		x := recs[i]
		data, want := recording(x.keys, x.hold, x.gap, x.lead, x.amp, x.phase)
		data = data[:len(data)-len(data)%blk]
		how := "a recording of the keys %q held for %d samples with %d between (%d octets), %s"
		r, err := file(data, false)
		if err != nil {
			return err
		}
		count(c, 1)
		c.Sample("%q from a file: printed %q", want, r.out)
		if err := r.check([]string{want}, how, want, x.hold, x.gap, len(data), "from a file"); err != nil {
			return err
		}
		if r, err = file(data, true); err != nil {
			return err
		}
		count(c, 1)
		if err := r.check([]string{want}, how, want, x.hold, x.gap, len(data), "from standard input"); err != nil {
			return err
		}
		return every(c, data, want, nil, i%2 == 0)
	}}
	// One cut anywhere.
	data, want := recording([]int{0, 3, 3}, 16*win+20, 6*win, 7, 0.4, 0.5)
	data = data[:len(data)-len(data)%blk]
	oneCut := &mc.Family{Name: "one short read anywhere", N: len(data), Run: func(c *mc.Ctx, i int) error {
		return every(c, data, want, []int{i}, i%2 == 1)
	}}
	// Two cuts: every pair within a few blocks, at several places.
	places := []int{0, 9 * blk, 10 * blk, 11 * blk, 16 * blk, 25 * blk, len(data) - 3*blk}
	span := t.Pick(blk+4, 2*blk+4)
	step := t.Pick(3, 1)
	if t.Thorough {
		for p := blk; p < len(data)-3*blk; p += 5 * blk {
			places = append(places, p+1)
		}
	}
	per := 0
	var pairs [][2]int
	for a := 0; a < blk; a += step {
		for b := a + 1; b <= a+span && b < 3*blk; b += step {
			pairs = append(pairs, [2]int{a, b})
			per++
		}
	}
	two := &mc.Family{Name: "two short reads", N: len(pairs) * len(places), Run: func(c *mc.Ctx, i int) error {
		p := places[i%len(places)]
		x := pairs[i/len(places)]
		return every(c, data, want, []int{p + x[0], p + x[1]}, false)
	}}
	// Reads of constant sizes and of repeating patterns.
	consts := &mc.Family{Name: "reads of constant size", N: t.Pick(310, 1200), Run: func(c *mc.Ctx, i int) error {
		var cuts []int
		for p := i + 1; p < len(data); p += i + 1 {
			cuts = append(cuts, p)
		}
		return every(c, data, want, cuts, false)
	}}
	alpha := []int{1, 2, 3, 51, 101, 102, 103, 204}
	depth := t.Pick(3, 4)
	n := 1
	for k := 0; k < depth; k++ {
		n *= len(alpha)
	}
	patterns := &mc.Family{Name: "repeating patterns of reads", N: n, Run: func(c *mc.Ctx, i int) error {
		var w []int
		for k, x := 0, i; k < depth; k++ {
			w = append(w, alpha[x%len(alpha)])
			x /= len(alpha)
		}
		var cuts []int
		for p, k := 0, 0; ; k++ {
			if p += w[k%depth]; p >= len(data) {
				break
			}
			cuts = append(cuts, p)
		}
		return every(c, data, want, cuts, false)
	}}
	// Every end of the input.
	tdata, _ := recording([]int{5, 12}, 16*win+20, 6*win, 7, 0.4, 0.5)
	cache := make([]map[int]string, 64)
	whole := func(c *mc.Ctx, d []byte, key int) (string, error) {
		m := cache[c.Worker]
		if m == nil {
			m = map[int]string{}
			cache[c.Worker] = m
		}
		if s, ok := m[key]; ok {
			return s, nil
		}
		r, err := file(d, false)
		if err != nil {
			return "", err
		}
		if r.code != 0 {
			return "", r.check(nil, "a file of %d octets", len(d))
		}
		m[key] = r.out
		return r.out, nil
	}
	ends := &mc.Family{Name: "every end of the input", N: len(tdata) + 1, Run: func(c *mc.Ctx, i int) error {
		d := tdata[:i]
		full := i - i%blk
		a, err := whole(c, d[:full], full)
		if err != nil {
			return err
		}
		allowed := []string{a}
		if full < i {
			// The samples of the partial block count, or they do not.
			pad := make([]byte, full+blk)
			copy(pad, d[:i-i%2])
			r, err := file(pad, false)
			if err != nil {
				return err
			}
			allowed = append(allowed, r.out)
		}
		how := "the first %d octets of a recording of the keys \"6*\", %s"
		r, err := file(d, false)
		if err != nil {
			return err
		}
		count(c, 1)
		if err := r.judge(c, d, nil, allowed, how, i, "from a file"); err != nil {
			return err
		}
		from := r.out
		if !slices.ContainsFunc(allowed, func(w string) bool { return r.check([]string{w}, "") == nil }) {
			from = allowed[0] // the known defect
		}
		var cuts []int
		switch i % 3 {
		case 1:
			cuts = []int{full}
		case 2:
			cuts = []int{full - 1, full + 1}
		}
		for _, cs := range [][]int{nil, cuts, {i - 1}} {
			r, err := pipe(d, cs, false)
			if err != nil {
				return err
			}
			count(c, len(cs)+1)
			if err := r.judge(c, d, cs, []string{from}, how, i, "through a pipe with reads up to "+brief(cs)); err != nil {
				return err
			}
		}
		return nil
	}}
	// A partial block never makes up a key, whatever its samples are.
	var tails []int
	for n := 1; n < blk; n++ {
		tails = append(tails, n)
	}
	tail := &mc.Family{Name: "partial blocks after a key", N: len(tails) * 16, Run: func(c *mc.Ctx, i int) error {
		n, k := tails[i%len(tails)], i/len(tails)
		d, w := recording([]int{k}, 20*win, 6*win, 0, 0.4, 0.1*float64(k))
		d = d[:len(d)-len(d)%blk]
		x := render([]seg{{(k + 5) % 16, win}}, 0.4, 0.3)
		d = append(d, x[:n]...)
		return every(c, d, w, nil, false)
	}}
	return []*mc.Family{keys, oneCut, ends, tail, consts, patterns, two}
}

func init() {
	mc.Register(&mc.Check{ID: "C30", Level: "model_checking",
		Rule:        "one evaluation is one complete run of the real tool on one recording with one way of splitting it into reads, enforced by writing the octets after a cut only when the pipe is empty; states and transitions count the reads so enforced. The expected output is known from how the recording was made.",
		Assumptions: []string{"keys are held for at least sixteen blocks and separated by at least six blocks of silence", "the samples of a partial last block may count or not, but the same way however they arrive"},
		Families:    families})
}
