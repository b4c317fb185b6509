package main

import (
	"fmt"
	"math"
	"math/cmplx"

	"github.com/samuel/go-dsp/dsp"
	"github.com/samuel/go-dsp/dsp/dtmf"
	"verif/harness/mc"
)

func main() {
	mc.Also386()
	mc.Main()
}

func init() {
	mc.Register(&mc.Check{ID: "C16", Level: "model_checking",
		Rule:        "one evaluation is one call of Feed on the real decoder within an enumerated call history, compared with a direct evaluation of the windowed Fourier sums; a state is a distinct history prefix, a transition one Feed; every history is a trace validated against the implementation. Non-trivial when the block is not silent.",
		Assumptions: []string{"powers within 1e-4 of the largest count as ties", "bins exactly half way between two may round either way"},
		Families:    families})
}

type geom struct {
	low, high   []uint64
	rate, block int
	win         int // 0 nil, 1 hamming, 2 blackman, 3 rectangular, 4 standard constructor, 5 ramp
}

func (g geom) String() string {
	return fmt.Sprintf("{%v x %v, rate %d, block %d, window %d}", g.low, g.high, g.rate, g.block, g.win)
}

func winf(k int) func([]float32) {
	switch k {
	case 1:
		return dsp.HammingWindowF32
	case 2:
		return dsp.BlackmanWindowF32
	case 3:
		return func(w []float32) {
			for k := range w {
				w[k] = 1
			}
		}
	case 5:
		return func(w []float32) {
			for k := range w {
				w[k] = float32(k+1) / float32(len(w))
			}
		}
	}
	return nil
}

func (g geom) make() *dtmf.DTMF {
	if g.win == 4 {
		return dtmf.NewStandard(g.rate, g.block)
	}
	return dtmf.New(g.low, g.high, g.rate, g.block, winf(g.win))
}

func (g geom) window() []float64 {
	w := make([]float64, g.block)
	kind := g.win
	if g.block == 1 && (kind == 0 || kind == 4) {
		kind = 1 // the value of a window of length one is not specified: use the library's
	}
	switch {
	case kind == 2 || kind == 3 || kind == 5 || g.block == 1:
		f := make([]float32, g.block)
		winf(kind)(f)
		for k := range w {
			w[k] = float64(f[k])
		}
	default:
		for k := range w {
			w[k] = 1
			if g.block > 1 {
				w[k] = 0.53836 - 0.46164*math.Cos(2*math.Pi*float64(k)/float64(g.block-1))
			}
		}
	}
	return w
}

// powers of the windowed, zero padded block at the bins nearest the frequencies.
func (g geom) powers(w []float64, x []float32, fs []uint64) [][2]float64 {
	r := make([][2]float64, len(fs))
	for i, f := range fs {
		num, rt := uint64(g.block)*f, uint64(g.rate)
		k := num / rt
		ks := [2]uint64{k, k}
		switch rem := num % rt; {
		case 2*rem > rt:
			ks = [2]uint64{k + 1, k + 1}
		case 2*rem == rt:
			ks = [2]uint64{k, k + 1}
		}
		for q, k := range ks {
			var s complex128
			rot := cmplx.Exp(complex(0, -2*math.Pi*float64(k)/float64(g.block)))
			ph := complex(1, 0)
			for m, v := range x {
				if m >= g.block {
					break
				}
				if m%64 == 0 {
					ph = cmplx.Exp(complex(0, -2*math.Pi*float64(uint64(m)*k%uint64(g.block))/float64(g.block)))
				}
				s += complex(float64(v)*w[m], 0) * ph
				ph *= rot
			}
			r[i][q] = real(s)*real(s) + imag(s)*imag(s)
		}
	}
	return r
}

func (g geom) verify(w []float64, x []float32, key int, pw float32, what string) error {
	nl, nh := len(g.low), len(g.high)
	if key < 0 || key >= nl*nh {
		return mc.V("range", "%v %s: key %d out of range", g, what, key)
	}
	l1 := 0.0
	for m, v := range x {
		if m < g.block {
			l1 += math.Abs(float64(v) * w[m])
		}
	}
	abs := 1e-11 * l1 * l1 * float64(g.block)
	check := func(fs []uint64, idx int, name string) (lo, hi float64, err error) {
		p := g.powers(w, x, fs)
		best := 0.0 // surely reached by some tone
		for _, q := range p {
			best = math.Max(best, math.Min(q[0], q[1]))
		}
		got := math.Max(p[idx][0], p[idx][1])
		if got < best*(1-1e-4)-abs {
			return 0, 0, mc.V("strongest", "%v %s: %s %d chosen with power %v, but the largest is %v (all %v)", g, what, name, idx, got, best, p)
		}
		return math.Min(p[idx][0], p[idx][1]), got, nil
	}
	l0, l1p, err := check(g.low, key/nh, "row")
	if err != nil {
		return err
	}
	h0, h1p, err := check(g.high, key%nh, "column")
	if err != nil {
		return err
	}
	lo, hi := math.Min(l0, h0), math.Min(l1p, h1p)
	if v := float64(pw); !(v >= lo*(1-1e-4)-abs-1e-37 && v <= hi*(1+1e-4)+abs+1e-37) {
		return mc.V("power", "%v %s: power %v returned, want %v", g, what, pw, lo)
	}
	return nil
}

func tone(n, rate int, f1, f2 uint64, a1, a2, p1, p2 float64) []float32 {
	x := make([]float32, n)
	for k := range x {
		x[k] = float32(a1*math.Sin(2*math.Pi*float64(f1)*float64(k)/float64(rate)+p1) + a2*math.Sin(2*math.Pi*float64(f2)*float64(k)/float64(rate)+p2))
	}
	return x
}

func feed(c *mc.Ctx, g geom, w []float64, d *dtmf.DTMF, x []float32, what func() string) (int, error) {
	in := make([]float32, len(x), len(x)+3)
	copy(in, x)
	k, p := d.Feed(in)
	c.Evals++
	c.Transitions++
	for i := range x {
		if in[i] != x[i] && !(in[i] != in[i] && x[i] != x[i]) {
			return 0, mc.V("modified", "%v %s: the caller's sample %d was changed from %v to %v", g, what(), i, x[i], in[i])
		}
	}
	if err := g.verify(w, x, k, p, what()); err != nil {
		return 0, err
	}
	return k, nil
}

func families(t mc.Tier) []*mc.Family {
	std := func(rate, block int) geom { return geom{dtmf.StdLowFreq, dtmf.StdHighFreq, rate, block, 4} }
	geoms := []geom{std(8000, 205), std(8000, 204), std(8000, 400), std(11025, 282), std(16000, 410), std(22050, 565), std(44100, 1130), std(48000, 1230)}
	phases := t.Pick(8, 24)
	amps := []float64{1e-12, 1e-7, 1e-4, 0.02, 0.5, 1, 300, 32768, 1e8}
	twists := []float64{1, 0.5, 2}
	keys := &mc.Family{Name: "keys", N: len(geoms) * 16 * phases, Run: func(c *mc.Ctx, i int) error {
		g := geoms[i%len(geoms)]
		i /= len(geoms)
		key, ph := i%16, i/16
		w := g.window()
		for p2 := 0; p2 < phases; p2++ {
			for _, a := range amps {
				for _, tw := range twists {
					x := tone(g.block+7, g.rate, g.low[key/4], g.high[key%4], a, a*tw, 2*math.Pi*float64(ph)/float64(phases), 2*math.Pi*float64(p2)/float64(phases))
					for _, n := range []int{g.block, g.block + 7} {
						if n != g.block && (p2+ph)%4 != 0 {
							continue
						}
						c.Nontrivial++
						c.States++
						c.Traces++
						what := func() string {
							return fmt.Sprintf("key %c amplitude %v twist %v phases %d,%d/%d, %d samples", dtmf.Keypad[key], a, tw, ph, p2, phases, n)
						}
						k, err := feed(c, g, w, g.make(), x[:n], what)
						if err != nil {
							return err
						}
						if k != key {
							return mc.V("key", "%v %s: decoded as %c", g, what(), dtmf.Keypad[k])
						}
					}
				}
			}
		}
		if c.WantSample() {
			c.Sample("%v key %c", g, dtmf.Keypad[key])
		}
		return nil
	}}
	// Histories of blocks on one decoder and, alternately, a second one.
	g8 := std(8000, 205)
	blocks := [][]float32{
		tone(205, 8000, 697, 1209, 0.5, 0.5, 0, 0),
		tone(205, 8000, 941, 1633, 100, 100, 1, 2),
		make([]float32, 205),
		tone(100, 8000, 852, 1477, 0.3, 0.2, 0.5, 0.1),
		{},
		{0.7},
		tone(500, 8000, 770, 1336, 0.01, 0.01, 0, 0),
		tone(205, 8000, 770, 1000, 0.4, 0.9, 0.2, 2),
	}
	odd := geom{[]uint64{500, 900, 300}, []uint64{2000, 1500}, 8000, 64, 5}
	depth := t.Pick(4, 5)
	n := 1
	for k := 0; k < depth; k++ {
		n *= len(blocks)
	}
	hist := &mc.Family{Name: "histories", N: n, Run: func(c *mc.Ctx, i int) error {
		for gi, g := range []geom{g8, odd} {
			w := g.window()
			d, e := g.make(), g.make()
			ops := make([]int, depth)
			v := i
			for k := range ops {
				ops[k] = v % len(blocks)
				v /= len(blocks)
				what := func() string { return fmt.Sprintf("after blocks %v", ops[:k+1]) }
				if _, err := feed(c, g, w, d, blocks[ops[k]], what); err != nil {
					return err
				}
				if k%2 == gi {
					if _, err := feed(c, g, w, e, blocks[(ops[k]+3)%len(blocks)], what); err != nil {
						return err
					}
				}
				c.States++
			}
			c.Traces++
			c.Nontrivial++
		}
		return nil
	}}
	// Long use: thousands of blocks through one decoder, with blocks that have
	// no meaningful answer (not a number, infinite, overflowing) in between.
	nan, inf := float32(math.NaN()), float32(math.Inf(1))
	fill := func(v float32, n int) []float32 {
		x := make([]float32, n)
		for k := range x {
			x[k] = v
		}
		return x
	}
	poison := [][]float32{fill(nan, 205), fill(inf, 205), fill(3e38, 205), {nan}, {1, 2, -inf}, fill(-3e38, 100)}
	long := &mc.Family{Name: "long histories", N: 16, Run: func(c *mc.Ctx, i int) error {
		for _, g := range []geom{g8, odd} {
			w := g.window()
			d := g.make()
			for n := 0; n < t.Pick(3000, 70000); n++ {
				if i >= 8 && n%7 == i%7 {
					d.Feed(append([]float32(nil), poison[n/7%len(poison)]...))
				}
				if _, err := feed(c, g, w, d, blocks[(n*(i+1)+n/8)%len(blocks)], func() string { return fmt.Sprintf("as block %d of history %d", n, i) }); err != nil {
					return err
				}
				c.States++
			}
			c.Traces++
			c.Nontrivial++
		}
		return nil
	}}
	after := &mc.Family{Name: "after blocks without an answer", N: len(poison) * len(poison), Run: func(c *mc.Ctx, i int) error {
		for _, g := range []geom{g8, odd} {
			w := g.window()
			for b := range blocks {
				d := g.make()
				for _, p := range []int{i % len(poison), i / len(poison)} {
					d.Feed(append([]float32(nil), poison[p]...))
				}
				if _, err := feed(c, g, w, d, blocks[b], func() string { return fmt.Sprintf("after the meaningless blocks %d, %d", i%len(poison), i/len(poison)) }); err != nil {
					return err
				}
				if _, err := feed(c, g, w, d, blocks[(b+3)%len(blocks)], func() string { return "and the block after that" }); err != nil {
					return err
				}
				c.States += 2
				c.Traces++
				c.Nontrivial++
			}
		}
		return nil
	}}
	// Tone sets and windows of other shapes; a single tone at every position.
	var gs []geom
	sets := [][]uint64{{1000}, {500, 1000}, {2000, 400, 1200}, {300, 600, 900, 1200, 1500}, {700, 701, 3999}, dtmf.StdHighFreq}
	for _, l := range sets {
		for _, h := range sets {
			for win := 0; win < 6; win++ {
				for _, b := range []int{1, 2, 7, 33, 80, 100} {
					if win == 4 {
						continue
					}
					gs = append(gs, geom{l, h, 8000, b, win})
				}
			}
		}
	}
	custom := &mc.Family{Name: "custom", N: len(gs), Run: func(c *mc.Ctx, i int) error {
		g := gs[i]
		w := g.window()
		d := g.make()
		for li, lf := range g.low {
			for hi, hf := range g.high {
				for _, a := range []float64{0.001, 1} {
					x := tone(g.block, g.rate, lf, hf, a, a, 0.3, 1.1)
					if _, err := feed(c, g, w, d, x, func() string { return fmt.Sprintf("tones %d,%d", li, hi) }); err != nil {
						return err
					}
					c.Nontrivial++
					c.States++
				}
			}
		}
		// impulses at every position, prefixes of every length
		for k := 0; k < g.block; k++ {
			x := make([]float32, g.block)
			x[k] = 3
			if _, err := feed(c, g, w, d, x, func() string { return fmt.Sprintf("impulse at %d", k) }); err != nil {
				return err
			}
			if _, err := feed(c, g, w, d, tone(k, g.rate, g.low[0], g.high[0], 1, 0.5, 0, 1), func() string { return fmt.Sprintf("short block of %d", k) }); err != nil {
				return err
			}
			c.States += 2
		}
		c.Traces++
		return nil
	}}
	// Tones at 0, a quarter and half of the rate, where powers are exactly zero:
	// all blocks over a few values.
	var ax []geom
	for _, b := range []int{2, 4, 8} {
		for _, s := range [][2][]uint64{{{0}, {4000}}, {{4000}, {0}}, {{2000}, {0, 4000}}, {{0, 2000}, {4000}}, {{4000, 0}, {2000}}} {
			ax = append(ax, geom{s[0], s[1], 8000, b, 3})
		}
	}
	axis := &mc.Family{Name: "exactly silent tones", N: len(ax) * 729, Run: func(c *mc.Ctx, i int) error {
		g := ax[i%len(ax)]
		i /= len(ax)
		d, w := g.make(), g.window()
		for hi := 0; hi < 9; hi++ {
			x := make([]float32, g.block)
			v := i*9 + hi
			for k := range x {
				x[k] = float32(v%3-1) * 0.75
				v /= 3
			}
			if v != 0 {
				continue // shorter blocks need fewer
			}
			if _, err := feed(c, g, w, d, x, func() string { return fmt.Sprintf("block %v", x) }); err != nil {
				return err
			}
			c.States++
		}
		c.Traces++
		c.Nontrivial++
		return nil
	}}
	keypad := &mc.Family{Name: "keypad", N: 1, Serial: true, Run: func(c *mc.Ctx, i int) error {
		want := "123A456B789C*0#D"
		if string(dtmf.Keypad) != want {
			return mc.V("keypad", "Keypad is %q, want %q", string(dtmf.Keypad), want)
		}
		lo, hi := []uint64{697, 770, 852, 941}, []uint64{1209, 1336, 1477, 1633}
		if fmt.Sprint(dtmf.StdLowFreq) != fmt.Sprint(lo) || fmt.Sprint(dtmf.StdHighFreq) != fmt.Sprint(hi) {
			return mc.V("keypad", "standard frequencies are %v %v", dtmf.StdLowFreq, dtmf.StdHighFreq)
		}
		c.Evals++
		return nil
	}}
	return []*mc.Family{keypad, keys, hist, after, long, custom, axis}
}
