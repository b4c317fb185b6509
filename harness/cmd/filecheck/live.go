package main

import (
	"bytes"
	"encoding/json"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"strings"
	"time"

	"verif/harness/mc"
	"verif/harness/stub/portaudio"
)

// C33: the live tool on a simulated sound card.

var live = os.Getenv("VERIF_LIVE")

// liveRun runs the tool; err is about the run itself.
func liveRun(s portaudio.Script) (r result, log []string, err error) {
	dir, err := os.MkdirTemp("", "verif-live")
	if err != nil {
		return r, nil, err
	}
	defer os.RemoveAll(dir)
	s.Log = filepath.Join(dir, "log")
	b, _ := json.Marshal(s)
	p := filepath.Join(dir, "script")
	if err := os.WriteFile(p, b, 0o600); err != nil {
		return r, nil, err
	}
	cmd := exec.Command(live)
	cmd.Env = append(os.Environ(), "VERIF_PA="+p)
	var out, errb bytes.Buffer
	cmd.Stdout, cmd.Stderr = &out, &errb
	if err := cmd.Start(); err != nil {
		return r, nil, err
	}
	ch := wait(cmd, &out, &errb)
	select {
	case r = <-ch:
	case <-time.After(60 * time.Second):
		cmd.Process.Kill()
		<-ch
		return r, nil, mc.V("hang", "the tool does not end: %s", describe(s))
	}
	l, _ := os.ReadFile(s.Log)
	return r, strings.Split(strings.TrimSpace(string(l)), "\n"), nil
}

func describe(s portaudio.Script) string {
	var o []string
	for _, g := range s.Segs {
		k := "silence"
		if g.Key >= 0 {
			k = keypad[g.Key : g.Key+1]
		}
		o = append(o, fmt.Sprintf("%s %.4fs", k, g.Sec))
	}
	t := strings.Join(o, ", ")
	if len(t) > 300 {
		t = t[:300] + "..."
	}
	t += fmt.Sprintf(", amplitude %g", s.Amp)
	if s.Interrupt > 0 {
		t += fmt.Sprintf(", interrupted at block %d", s.Interrupt)
	}
	if s.Fail != "" {
		t += fmt.Sprintf(", %s fails", s.Fail)
	}
	return t
}

// liveOne runs the script; must are the keys that have to be printed, may those
// that can be as well, in this order.
func liveOne(c *mc.Ctx, s portaudio.Script, must, may string) error {
	r, log, err := liveRun(s)
	if err != nil {
		return err
	}
	c.Evals++
	c.Traces++
	c.Nontrivial++
	c.States++
	c.Transitions += int64(len(log))
	how := describe(s)
	for _, l := range log {
		if strings.HasPrefix(l, "misuse") {
			return mc.V("misuse", "%s: %s (%v)", how, l, log)
		}
	}
	if r.code != 0 {
		return mc.V("exit", "%s: the tool ended with status %d: %s", how, r.code, strings.TrimSpace(r.err))
	}
	out := strings.TrimRight(r.out, "\n")
	out = strings.TrimSpace(out[strings.LastIndex(out, "\n")+1:])
	if strings.HasPrefix(out, "&{") {
		out = "" // no line of keys
	}
	if c.WantSample() {
		c.Sample("%s: printed %q", how, out)
	}
	if !strings.HasPrefix(out, must) || !strings.HasPrefix(must+may, out) {
		w := must
		if may != "" {
			w += " and perhaps " + may
		}
		return mc.V("output", "%s: the tool printed %q, not %q", how, out, w)
	}
	// The sound card is given back.
	inited := 0
	for _, l := range log {
		switch l {
		case "Initialize":
			inited++
		case "Terminate":
			inited--
		}
	}
	if inited > 0 {
		return mc.V("kept", "%s: the sound card is not given back: %v", how, log)
	}
	return nil
}

func liveFamilies(t mc.Tier) []*mc.Family {
	if _, err := os.Stat(live); err != nil {
		panic("the tool was not built: " + err.Error())
	}
	mk := func(keys []int, hold, gap, lead, amp, phase float64) (portaudio.Script, string) {
		s := portaudio.Script{Amp: amp, Phase: phase}
		if lead > 0 {
			s.Segs = append(s.Segs, portaudio.Seg{Key: -1, Sec: lead})
		}
		w := ""
		for _, k := range keys {
			s.Segs = append(s.Segs, portaudio.Seg{Key: k, Sec: hold}, portaudio.Seg{Key: -1, Sec: gap})
			w += keypad[k : k+1]
		}
		return s, w
	}
	type rec struct {
		keys            []int
		hold, gap, lead float64
		amp, phase      float64
	}
	var recs []rec
	for a := -1; a < 16; a++ {
		for b := 0; b < 16; b++ {
			for k, l := range [][3]float64{{0.12, 0.05, 0}, {0.15, 0.06, 0.001}, {0.3, 0.05, 0.0137}} {
				ks := []int{a, b}
				if a < 0 {
					ks = ks[1:]
				}
				recs = append(recs, rec{ks, l[0], l[1], l[2], []float64{0.45, 0.1, 0.001}[k], []float64{0, 1, 2.5}[k]})
			}
		}
	}
	for i := 0; i < 16*t.Pick(2, 16); i++ {
		a, b := i%16, (i/16*5+i)%16
		recs = append(recs, rec{[]int{a, a, b, a}, 0.13, 0.05, 0.002, 0.3, 0.7})
	}
	// All sequences of three keys; of four over those that share a tone.
	for i := 0; i < 16*16*16; i++ {
		recs = append(recs, rec{[]int{i & 15, i >> 4 & 15, i >> 8}, 0.118, 0.047, float64(i%11) * 0.0011, []float64{0.45, 0.02}[i%2], float64(i%7) * 0.9})
	}
	near := []int{0, 1, 4, 5, 10, 15}
	for i := 0; i < t.Pick(1, 2)*6*6*6*6/2; i++ {
		recs = append(recs, rec{[]int{near[i%6], near[i/6%6], near[i/36%6], near[i/216]}, 0.118, 0.047, float64(i%13) * 0.0009, 0.3, float64(i%5) * 1.2})
	}
	all := make([]int, 16)
	for k := range all {
		all[k] = k
	}
	recs = append(recs, rec{append(all, all...), 0.14, 0.05, 0, 0.4, 0.3}, rec{[]int{7}, 10, 0.05, 0, 0.4, 0.3}, rec{[]int{7, 7, 0}, 3, 1, 1, 0.4, 0.3}, rec{nil, 0, 0, 1, 0, 0})
	// Every hold and every distance of two presses, in steps of a fraction of a block.
	for i := 0; i < t.Pick(60, 600); i++ {
		d := float64(i) * 0.0011 / float64(t.Pick(1, 10))
		recs = append(recs, rec{[]int{i % 16, i % 16, (i + 3) % 16}, 0.115 + d, 0.045, 0, 0.4, 0.1}, rec{[]int{i % 16, i % 16, (i + 7) % 16}, 0.12, 0.045 + d, d, 0.4, 0.1})
	}
	keys := &mc.Family{Name: "keys", N: len(recs), Run: func(c *mc.Ctx, i int) error {
		x := recs[i]
		s, w := mk(x.keys, x.hold, x.gap, x.lead, x.amp, x.phase)
		return liveOne(c, s, w, "")
	}}
	// The user interrupts at every block.
	is, iw := mk([]int{5, 5, 14}, 0.13, 0.06, 0.02, 0.4, 0.3)
	const blocks = 90
	intr := &mc.Family{Name: "interrupted at every block", N: blocks, Run: func(c *mc.Ctx, i int) error {
		s := is
		s.Interrupt = i + 1
		// what the recording has played by then
		_, log, err := liveRun(s)
		if err != nil {
			return err
		}
		at := 0
		for _, l := range log {
			fmt.Sscanf(l, "interrupt at %d", &at)
		}
		sec := float64(at) / 44100
		must, may := "", ""
		pos := 0.0
		k := 0
		for _, g := range s.Segs {
			if g.Key >= 0 {
				switch {
				case sec >= pos+g.Sec+0.03:
					must += iw[k : k+1]
				case sec > pos+0.03:
					may += iw[k : k+1]
				}
				k++
			}
			pos += g.Sec
		}
		return liveOne(c, s, must, may)
	}}
	// What fails ends the tool, and what was opened is not used any more.
	ops := []string{"Initialize", "Open", "Start", "Read"}
	fails := &mc.Family{Name: "failing sound cards", N: 3 * t.Pick(8, 60), Run: func(c *mc.Ctx, i int) error {
		s := is
		s.Fail, s.FailAt = ops[min(i, 3)], max(1, i-2)
		r, log, err := liveRun(s)
		if err != nil {
			return err
		}
		c.Evals++
		c.States++
		c.Transitions += int64(len(log))
		for _, l := range log {
			if strings.HasPrefix(l, "misuse") {
				return mc.V("misuse", "%s: %s (%v)", describe(s), l, log)
			}
		}
		if s.Fail != "Read" && r.code == 0 {
			return mc.V("exit", "%s: the tool ended with success", describe(s))
		}
		return nil
	}}
	return []*mc.Family{keys, intr, fails}
}

func init() {
	mc.Register(&mc.Check{ID: "C33", Level: "model_checking",
		Rule:        "one evaluation is one complete run of the real tool on a simulated sound card; transitions count its calls of the sound library. The expected keys are known from how the sound was made.",
		Assumptions: []string{"the sound library is replaced by a simulation that delivers what is asked for", "keys are held for at least 115 ms and separated by at least 45 ms of silence"},
		Families:    liveFamilies})
}
