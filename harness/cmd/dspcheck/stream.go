package main

import (
	"fmt"
	"math"
	"math/bits"
	"math/cmplx"

	"github.com/samuel/go-dsp/dsp"
	"verif/harness/mc"
)

// cuts turns a composition mask of a stream of n samples into call lengths:
// bit k set means a new call starts after sample k.
func cuts(n, mask int) []int {
	var ls []int
	l := 0
	for k := 0; k < n; k++ {
		l++
		if k == n-1 || mask>>k&1 == 1 {
			ls = append(ls, l)
			l = 0
		}
	}
	return ls
}

const histRule = "one evaluation is one complete call history (a stream cut into calls in one particular way, or one operation sequence) run on fresh instances of the real code, every output compared with a reference evaluated over the whole stream; a state is a distinct (history prefix) node of the exploration, a transition is one call on the real code; every history is also a trace validated against the implementation because the implementation itself is executed."

func init() {
	mc.Register(&mc.Check{ID: "C07", Level: "model_checking", Rule: histRule,
		Assumptions: []string{"sample magnitudes between 1e-6 and 1e6", "output at least as long as the input"},
		Families:    func(t mc.Tier) []*mc.Family { return append(fmFamilies(t), middleDemod(t)...) }})
	mc.Register(&mc.Check{ID: "C08", Level: "model_checking", Rule: histRule,
		Assumptions: []string{"integer samples small enough for exact float32 sums", "0 < slow <= fast and a positive decimation factor"},
		Families:    func(t mc.Tier) []*mc.Family { return append(decimFamilies(t), middleDown(t)...) }})
	mc.Register(&mc.Check{ID: "C09", Level: "exploration",
		Rule:        "one evaluation is one call on one buffer (length, contents from a complete alphabet enumeration, placement), compared element by element; non-trivial when the buffer is not empty; all distinct.",
		Assumptions: []string{"buffers of a multiple of four samples"},
		Families:    func(t mc.Tier) []*mc.Family { return append(rotFamilies(t), middleRotate(t)...) }})
}

func fmAlphabet() []complex64 {
	var a []complex64
	a = append(a, 0)
	for k := 0; k < 8; k++ {
		m := []float64{1, 0.01, 250}[k%3]
		z := cmplx.Rect(m, float64(k)*math.Pi/4+0.05)
		a = append(a, complex64(z))
	}
	a = append(a, 1, -1, complex(0, 1), complex(0, -3))
	return a
}

// fmExpect compares one demodulated value.
func fmExpect(got float32, cur, pre complex64) error {
	p := complex128(cur) * cmplx.Conj(complex128(pre))
	g := float64(got)
	if p == 0 {
		if g != 0 {
			return fmt.Errorf("got %v for a zero product, want 0", got)
		}
		return nil
	}
	if math.IsNaN(g) || math.Abs(g) > math.Pi+1e-4 {
		return fmt.Errorf("got %v", got)
	}
	if d := angDist(g, cmplx.Phase(p)); d > 0.011 {
		return fmt.Errorf("got %v, want %v", got, cmplx.Phase(p))
	}
	return nil
}

func fmRun(c *mc.Ctx, stream []complex64, lens []int, spare int) error {
	fi := &dsp.FMDemodFilter{}
	pos := 0
	var pre complex64
	for ci, l := range lens {
		in := append([]complex64{}, stream[pos:pos+l]...)
		out := make([]float32, l+spare)
		for k := range out {
			out[k] = 77
		}
		n := fi.Demodulate(in, out)
		c.Transitions++
		if n != l {
			return mc.V("count", "call %d of lengths %v returned %d for %d samples", ci, lens, n, l)
		}
		for k := 0; k < l; k++ {
			if in[k] != stream[pos+k] {
				return mc.V("input", "call lengths %v: input sample %d modified", lens, pos+k)
			}
			if err := fmExpect(out[k], stream[pos+k], pre); err != nil {
				return mc.V("value", "stream %v cut into calls of %v: sample %d: %v", stream, lens, pos+k, err)
			}
			pre = stream[pos+k]
		}
		for k := l; k < l+spare; k++ {
			if out[k] != 77 {
				return mc.V("beyond", "call lengths %v: output beyond the input length modified", lens)
			}
		}
		pos += l
	}
	c.Evals++
	c.Traces++
	return nil
}

// bigChunks are call lengths around the sizes that fast paths begin at.
var bigChunks = func() []int {
	var l []int
	for k := 5; k <= 13; k++ {
		for d := -1; d <= 1; d++ {
			l = append(l, 1<<k+d)
		}
	}
	for _, n := range []int{100, 1000, 3000, 10000, 48000, 65535, 65536, 65537, 70001} {
		l = append(l, n)
	}
	return l
}()

// callPattern puts calls of n samples among others.
func callPattern(n, k int) []int {
	switch k {
	case 0:
		return []int{n}
	case 1:
		return []int{1, n, 1, n}
	case 2:
		return []int{n, n, n}
	case 3:
		return []int{3, 0, n, 2, n - 1, 5}
	}
	return []int{n, 7, n + 1, 0, 31}
}

func total(lens []int) int {
	n := 0
	for _, l := range lens {
		n += l
	}
	return n
}

func fmFamilies(t mc.Tier) []*mc.Family {
	alpha := fmAlphabet()
	na := len(alpha)
	L := t.Pick(5, 6)
	n := 1
	for k := 0; k < L; k++ {
		n *= na
	}
	fams := []*mc.Family{{Name: "sequences", N: n, Run: func(c *mc.Ctx, i int) error {
		s := make([]complex64, L)
		for k := range s {
			s[k] = alpha[i%na]
			i /= na
		}
		for mask := 0; mask < 1<<(L-1); mask++ {
			if err := fmRun(c, s, cuts(L, mask), mask%3); err != nil {
				return err
			}
			c.States++
		}
		if c.WantSample() {
			c.Sample("stream %v in all %d compositions", s, 1<<(L-1))
		}
		return nil
	}}}
	CL := t.Pick(15, 18)
	mk := func(seed, n int) []complex64 {
		s := make([]complex64, n)
		for k := range s {
			s[k] = complex64(cmplx.Rect(1+float64(mix(k+seed)%1000)/100, float64(mix(k*3+seed)%6283)/1000))
		}
		return s
	}
	fams = append(fams, &mc.Family{Name: "compositions", N: 1 << (CL - 1), Run: func(c *mc.Ctx, i int) error {
		s := mk(i, CL)
		lens := cuts(CL, i)
		if err := fmRun(c, s, lens, 0); err != nil {
			return err
		}
		// with empty calls everywhere
		var le []int
		for _, l := range lens {
			le = append(le, 0, l)
		}
		le = append(le, 0)
		c.States += 2
		return fmRun(c, s, le, 1)
	}})
	fams = append(fams, &mc.Family{Name: "chunk-sizes", N: t.Pick(300, 1200), Run: func(c *mc.Ctx, i int) error {
		s := mk(i, 1500)
		var lens []int
		for rem := len(s); rem > 0; {
			l := i + 1
			if l > rem {
				l = rem
			}
			lens = append(lens, l)
			rem -= l
		}
		c.States++
		return fmRun(c, s, lens, i%5)
	}})
	// Large calls, also between small ones, and a long stream.
	fams = append(fams, &mc.Family{Name: "large-calls", N: len(bigChunks) * 5, Run: func(c *mc.Ctx, i int) error {
		lens := callPattern(bigChunks[i%len(bigChunks)], i/len(bigChunks))
		c.States++
		return fmRun(c, mk(i, total(lens)), lens, i%3)
	}})
	// A sample that is not a number, infinite or enormous is wrong only in the two
	// outputs it takes part in.
	fams = append(fams, &mc.Family{Name: "meaningless-samples", N: len(poisonC) * 24, Run: func(c *mc.Ctx, i int) error {
		z, at := poisonC[i%len(poisonC)], i/len(poisonC)
		s := mk(i, 26)
		s[at] = z
		for l := 1; l <= 26; l++ {
			fi := &dsp.FMDemodFilter{}
			out := make([]float32, len(s))
			for p := 0; p < len(s); p += l {
				e := min(p+l, len(s))
				fi.Demodulate(append([]complex64(nil), s[p:e]...), out[p:e])
				c.Transitions++
			}
			var pre complex64
			for k, v := range s {
				if k != at && k != at+1 {
					if err := fmExpect(out[k], v, pre); err != nil {
						return mc.V("poison", "sample %d of the stream is %v, calls of %d: output %d: %v", at, z, l, k, err)
					}
				}
				pre = v
			}
			c.Evals++
			c.Traces++
			c.States++
		}
		return nil
	}})
	// Single pair discriminators on a grid of directions.
	D := t.Pick(256, 1024)
	fams = append(fams, &mc.Family{Name: "pairs", N: D, Run: func(c *mc.Ctx, i int) error {
		for k := 0; k < D; k++ {
			for _, ma := range []float64{1, 1e-5, 1e5} {
				for _, mb := range []float64{1, 3e-5, 2e5} {
					a := cmplx.Rect(ma, float64(i)*2*math.Pi/float64(D))
					b := cmplx.Rect(mb, float64(k)*2*math.Pi/float64(D)+0.001)
					a32, b32 := complex64(a), complex64(b)
					if err := fmExpect(dsp.PolarDiscriminator32(a32, b32), a32, b32); err != nil {
						return mc.V("polar32", "PolarDiscriminator32(%v, %v): %v", a32, b32, err)
					}
					if g := dsp.PolarDiscriminator(a, b); !(angDist(g, cmplx.Phase(a*cmplx.Conj(b))) < 1e-9) || math.Abs(g) > math.Pi+1e-9 {
						return mc.V("polar", "PolarDiscriminator(%v, %v) = %v", a, b, dsp.PolarDiscriminator(a, b))
					}
					c.Evals += 2
					c.Transitions += 2
					c.States++
				}
			}
		}
		if cj := dsp.Conj32(complex(float32(i), float32(i)+1)); cj != complex(float32(i), -float32(i)-1) {
			return mc.V("conj", "Conj32 = %v", cj)
		}
		return nil
	}})
	return fams
}

// poisonC are samples no result involving them is meaningful.
var poisonC = func() []complex64 {
	nan, inf := float32(math.NaN()), float32(math.Inf(1))
	return []complex64{complex(nan, 0), complex(0, nan), complex(nan, nan), complex(inf, 1), complex(1, -inf), complex(-inf, inf), complex(3e38, 3e38), complex(-3e38, 1e-40), complex(1e-40, 0)}
}()

// ---- decimators ----

func cdecRun(c *mc.Ctx, D int, stream []complex64, lens []int) error {
	fi := &dsp.LowPassDownsampleComplexFilter{Downsample: D}
	var got []complex64
	pos := 0
	for ci, l := range lens {
		buf := make([]complex64, l, l+2)
		copy(buf, stream[pos:])
		out := fi.Filter(buf)
		c.Transitions++
		if len(out) > l || (len(out) > 0 && &out[0] != &buf[0]) {
			return mc.V("placement", "D=%d calls %v: call %d returned %d samples not at the start of its buffer of %d", D, lens, ci, len(out), l)
		}
		got = append(got, out...)
		pos += l
		if len(got) != pos/D {
			return mc.V("count", "D=%d calls %v: %d outputs after %d inputs, want %d", D, lens, len(got), pos, pos/D)
		}
	}
	for g := range got {
		var sum complex128
		for _, v := range stream[g*D : (g+1)*D] {
			sum += complex128(v)
		}
		if complex128(got[g]) != sum {
			return mc.V("value", "D=%d calls %v: output %d is %v, want %v", D, lens, g, got[g], sum)
		}
	}
	c.Evals++
	c.Traces++
	c.States++
	return nil
}

// groups is floor(n*slow/fast).
func groups(n, slow, fast int) int {
	hi, lo := bits.Mul64(uint64(n), uint64(slow))
	q, _ := bits.Div64(hi, lo, uint64(fast))
	return int(q)
}

func rdecRun(c *mc.Ctx, slow, fast int, stream []float32, lens []int) error {
	fi := &dsp.LowPassDownsampleRationalFilter{Slow: slow, Fast: fast}
	var got []float32
	pos := 0
	for ci, l := range lens {
		buf := make([]float32, l, l+2)
		copy(buf, stream[pos:])
		out := fi.Filter(buf)
		c.Transitions++
		if len(out) > l || (len(out) > 0 && &out[0] != &buf[0]) {
			return mc.V("placement", "%d/%d calls %v: call %d returned %d samples not at the start of its buffer of %d", slow, fast, lens, ci, len(out), l)
		}
		got = append(got, out...)
		pos += l
		if w := groups(pos, slow, fast); len(got) != w {
			return mc.V("count", "%d/%d calls %v: %d outputs after %d inputs, want %d", slow, fast, lens, len(got), pos, w)
		}
	}
	g := 0
	sum := 0.0
	for k, v := range stream[:pos] {
		sum += float64(v)
		if groups(k+1, slow, fast) > g {
			w := sum * float64(slow) / float64(fast)
			if math.Abs(float64(got[g])-w) > 1e-6*math.Abs(w) {
				return mc.V("value", "%d/%d calls %v: output %d is %v, want %v", slow, fast, lens, g, got[g], w)
			}
			g++
			sum = 0
		}
	}
	c.Evals++
	c.Traces++
	c.States++
	return nil
}

func decimFamilies(t mc.Tier) []*mc.Family {
	CL := t.Pick(14, 17)
	cs := make([]complex64, CL)
	rs := make([]float32, CL)
	for k := range cs {
		cs[k] = complex(float32(int(1)<<k), -float32(int(1)<<(CL-1-k))*3)
		rs[k] = float32(int(1) << k)
	}
	withEmpty := func(lens []int, i int) []int {
		var le []int
		for k, l := range lens {
			if (i>>k)&1 == 0 {
				le = append(le, 0)
			}
			le = append(le, l)
		}
		return append(le, 0)
	}
	var ratios [][2]int
	for f := 1; f <= 12; f++ {
		for s := 1; s <= f; s++ {
			ratios = append(ratios, [2]int{s, f})
		}
	}
	fams := []*mc.Family{
		{Name: "complex-compositions", N: 1 << (CL - 1), Run: func(c *mc.Ctx, i int) error {
			for D := 1; D <= 9; D++ {
				lens := cuts(CL, i)
				if err := cdecRun(c, D, cs, lens); err != nil {
					return err
				}
				if err := cdecRun(c, D, cs, withEmpty(lens, i)); err != nil {
					return err
				}
			}
			if i == 1000 {
				c.Sample("D=1..9, calls of %v", cuts(CL, i))
			}
			return nil
		}},
		{Name: "rational-compositions", N: 1 << (CL - 1), Run: func(c *mc.Ctx, i int) error {
			for _, r := range ratios {
				lens := cuts(CL, i)
				if err := rdecRun(c, r[0], r[1], rs, lens); err != nil {
					return err
				}
				if i%8 == 0 {
					if err := rdecRun(c, r[0], r[1], rs, withEmpty(lens, i)); err != nil {
						return err
					}
				}
			}
			if i == 777 {
				c.Sample("all ratios slow<=fast<=12, calls of %v", cuts(CL, i))
			}
			return nil
		}},
		{Name: "large-calls", N: len(bigChunks) * 5, Run: func(c *mc.Ctx, i int) error {
			lens := callPattern(bigChunks[i%len(bigChunks)], i/len(bigChunks))
			n := total(lens)
			lc := make([]complex64, n)
			lr := make([]float32, n)
			for k := range lc {
				lc[k] = complex(float32(k%13), -float32(k%17))
				lr[k] = float32(k % 251)
			}
			for _, D := range []int{1, 2, 3, 4, 7, 8, 16, 50, 1 + i, n, n + 1} {
				if err := cdecRun(c, D, lc, lens); err != nil {
					return err
				}
			}
			for _, r := range [][2]int{{1, 1}, {1, 2}, {2, 3}, {3, 7}, {44100, 48000}, {15, 16}, {1, 1 + i}, {1 + i, 3 + 2*i}} {
				if err := rdecRun(c, r[0], r[1], lr, lens); err != nil {
					return err
				}
			}
			return nil
		}},
		// A group's sum does not depend on the groups before it: not on a sample
		// in them that is not a number, infinite, or enormous (in rounding).
		{Name: "group-independence", N: 16 * 40, Run: func(c *mc.Ctx, i int) error {
			nan, inf := float32(math.NaN()), float32(math.Inf(1))
			bad := []float32{nan, inf, -inf, 3e38, -3e38, 1e30, 16777216, -1e10}
			n, at := 40, i/16
			l := []int{1, 2, 3, 4, 5, 7, 8, 9, 11, 13, 16, 17, 20, 32, 39, 40}[i%16]
			for _, b := range bad {
				lc := make([]complex64, n)
				lr := make([]float32, n)
				for k := range lc {
					lc[k] = complex(float32(k%13)+0.5, -float32(k%17))
					lr[k] = float32(k%29) + 0.25
				}
				lr[at] = b
				lc[at] = complex(b, 3)
				if at%2 == 1 {
					lc[at] = complex(3, b)
				}
				for _, D := range []int{1, 2, 3, 4, 5, 8, 10} {
					fi := &dsp.LowPassDownsampleComplexFilter{Downsample: D}
					var got []complex64
					for p := 0; p < n; p += l {
						got = append(got, fi.Filter(append([]complex64(nil), lc[p:min(p+l, n)]...))...)
						c.Transitions++
					}
					if len(got) != n/D {
						return mc.V("count", "D=%d, sample %d is %v: %d outputs for %d inputs", D, at, lc[at], len(got), n)
					}
					for g := range got {
						if g == at/D {
							continue
						}
						var w complex64
						for _, v := range lc[g*D : g*D+D] {
							w += v
						}
						if got[g] != w {
							return mc.V("poison", "D=%d, calls of %d, sample %d is %v: output %d of other samples is %v, want %v", D, l, at, lc[at], g, got[g], w)
						}
					}
					c.Evals++
				}
				for _, r := range [][2]int{{1, 1}, {1, 2}, {2, 3}, {3, 4}, {3, 7}, {1, 8}, {5, 6}} {
					fi := &dsp.LowPassDownsampleRationalFilter{Slow: r[0], Fast: r[1]}
					var got []float32
					for p := 0; p < n; p += l {
						got = append(got, fi.Filter(append([]float32(nil), lr[p:min(p+l, n)]...))...)
						c.Transitions++
					}
					if w := groups(n, r[0], r[1]); len(got) != w {
						return mc.V("count", "%d/%d, sample %d is %v: %d outputs, want %d", r[0], r[1], at, b, len(got), w)
					}
					g, sum, skip := 0, 0.0, false
					for k, v := range lr {
						skip = skip || k == at
						if k != at {
							sum += float64(v)
						}
						if groups(k+1, r[0], r[1]) > g {
							w := sum * float64(r[0]) / float64(r[1])
							if !skip && !(math.Abs(float64(got[g])-w) <= 1e-6*math.Abs(w)) {
								return mc.V("poison", "%d/%d, calls of %d, sample %d is %v: output %d of other samples is %v, want %v", r[0], r[1], l, at, b, g, got[g], w)
							}
							g++
							sum, skip = 0, false
						}
					}
					c.Evals++
				}
				c.Traces += 14
				c.States += 14
			}
			return nil
		}},
		// Sums of samples of any magnitude: times powers of two.
		{Name: "scales", N: 64, Run: func(c *mc.Ctx, i int) error {
			lens := cuts(CL, i*97%(1<<(CL-1)))
			for _, e := range scaleExps(false) {
				lc, lr := make([]complex64, CL), make([]float32, CL)
				for k := range lc {
					sg := float32(1 - 2*int(mix(k+i)%2))
					f := float32(math.Ldexp(1, e))
					lc[k], lr[k] = complex(sg*real(cs[k])*f, imag(cs[k])*f), sg*rs[k]*f
				}
				for D := 1; D <= 9; D++ {
					if err := cdecRun(c, D, lc, lens); err != nil {
						return err
					}
				}
				for _, r := range ratios {
					if err := rdecRun(c, r[0], r[1], lr, lens); err != nil {
						return err
					}
				}
			}
			return nil
		}},
		// Rates beyond 32 bits.
		{Name: "large-rates", N: 64, Run: func(c *mc.Ctx, i int) error {
			n := 200
			lr := make([]float32, n)
			lc := make([]complex64, n)
			for k := range lr {
				lr[k] = float32(k % 251)
				lc[k] = complex(float32(k%13), -float32(k%17))
			}
			var lens []int
			for rem := n; rem > 0; rem -= lens[len(lens)-1] {
				lens = append(lens, min(i+1, rem))
			}
			big := [][2]int{{1 << 20, 1<<20 + 1}, {2400000, 3200000}, {1<<24 - 1, 1 << 24}}
			if math.MaxInt>>32 > 0 {
				k := 32
				big = append(big, [2]int{1 << k, 1<<k + 1}, [2]int{1, 1 << k}, [2]int{1 << (k - 1), 1 << k}, [2]int{3 << k, 7 << k}, [2]int{1<<k + 5, 3 << k})
			}
			for _, r := range big {
				if err := rdecRun(c, r[0], r[1], lr, lens); err != nil {
					return err
				}
			}
			for _, D := range []int{1 << 20, math.MaxInt32, math.MaxInt} {
				if err := cdecRun(c, D, lc, lens); err != nil {
					return err
				}
			}
			return nil
		}},
		// Long streams in equal chunks, larger and unusual factors.
		{Name: "long", N: t.Pick(200, 800), Run: func(c *mc.Ctx, i int) error {
			n := 3000
			var lens []int
			for rem := n; rem > 0; {
				l := i + 1
				if l > rem {
					l = rem
				}
				lens = append(lens, l)
				rem -= l
			}
			lc := make([]complex64, n)
			lr := make([]float32, n)
			for k := range lc {
				lc[k] = complex(float32(k%251), -float32(k%17))
				lr[k] = float32(k % 251)
			}
			for _, D := range []int{1, 2, 3, 5, 10, 33, 64, 100, 1000, 2999, 3000, 3001} {
				if err := cdecRun(c, D, lc, lens); err != nil {
					return err
				}
			}
			for _, r := range [][2]int{{1, 1}, {1, 2}, {3, 7}, {44100, 48000}, {48000, 256000}, {8000, 8001}, {999, 1000}, {1, 3001}, {7, 3000}, {31, 32}} {
				if err := rdecRun(c, r[0], r[1], lr, lens); err != nil {
					return err
				}
			}
			return nil
		}},
	}
	return fams
}

// ---- rotators ----

func rotFamilies(t mc.Tier) []*mc.Family {
	cmul := []complex64{1, 1i, -1, -1i}
	negz := float32(math.Copysign(0, -1))
	inf := float32(math.Inf(1))
	alphaF := []float32{0, negz, 1, -2.5, 1e-45, 3.4e38, inf, -inf}
	alphaI := []int32{0, 1, -1, 5, math.MaxInt32, math.MinInt32, math.MinInt32 + 1, 0x1234567}
	checkF := func(c *mc.Ctx, in []complex64) error {
		b := localBufs(c, arenaLen)
		setF := func(off int) []complex64 {
			resetFast(b.in, 0, arenaLen)
			s := b.in.Data[off : off+8*len(in)]
			for k, v := range in {
				pf32(s[8*k:], real(v))
				pf32(s[8*k+4:], imag(v))
			}
			return sl[complex64](vw{a: b.in, off: off, n: len(in)})
		}
		for _, off := range []int{512, 516, len(b.in.Data) - 8*len(in), 0} {
			s := setF(off)
			r := (&dsp.Rotate90Filter{}).Filter(s)
			c.Evals++
			if len(in) > 0 {
				c.Nontrivial++
			}
			if len(r) != len(in) || (len(in) > 0 && &r[0] != &s[0]) {
				return mc.V("slice", "Rotate90Filter returned another slice (len %d for %d)", len(r), len(in))
			}
			for k, v := range in {
				re, im := real(v), imag(v)
				switch k % 4 {
				case 1:
					re, im = -im, re
				case 2:
					re, im = -re, -im
				case 3:
					re, im = im, -re
				}
				pf32(b.in.Gold[off+8*k:], re)
				pf32(b.in.Gold[off+8*k+4:], im)
				if real(r[k]) != re || imag(r[k]) != im {
					return mc.V("value", "Rotate90Filter: sample %d of %d (%v) became %v, want %v (times %v)", k, len(in), v, r[k], complex(re, im), cmul[k%4])
				}
				// signs of zeros are not part of the property
				copy(b.in.Gold[off+8*k:off+8*k+8], b.in.Data[off+8*k:off+8*k+8])
			}
			if k := b.in.Bad(); k >= 0 {
				repair(b.in)
				return mc.V("memory", "Rotate90Filter on %d samples changed memory at offset %+d", len(in), k-off)
			}
		}
		return nil
	}
	checkI := func(c *mc.Ctx, in []int32) error {
		b := localBufs(c, arenaLen)
		for _, off := range []int{512, 516, len(b.in.Data) - 4*len(in), 0} {
			resetFast(b.in, 0, arenaLen)
			s := sl[int32](vw{a: b.in, off: off, n: len(in)})
			copy(s, in)
			r := (&dsp.I32Rotate90Filter{}).Filter(s)
			c.Evals++
			if len(in) > 0 {
				c.Nontrivial++
			}
			if len(r) != len(in) || (len(in) > 0 && &r[0] != &s[0]) {
				return mc.V("slice", "I32Rotate90Filter returned another slice")
			}
			for k := 0; k < len(in)/2; k++ {
				re, im := in[2*k], in[2*k+1]
				switch k % 4 {
				case 1:
					re, im = -im, re
				case 2:
					re, im = -re, -im
				case 3:
					re, im = im, -re
				}
				if r[2*k] != re || r[2*k+1] != im {
					return mc.V("value", "I32Rotate90Filter: sample %d of %d (%d,%d) became (%d,%d), want (%d,%d)", k, len(in)/2, in[2*k], in[2*k+1], r[2*k], r[2*k+1], re, im)
				}
				le.PutUint32(b.in.Gold[off+8*k:], uint32(re))
				le.PutUint32(b.in.Gold[off+8*k+4:], uint32(im))
			}
			if k := b.in.Bad(); k >= 0 {
				repair(b.in)
				return mc.V("memory", "I32Rotate90Filter on %d values changed memory at offset %+d", len(in), k-off)
			}
		}
		return nil
	}
	na := len(alphaF)
	// One filter over several buffers, of any sizes.
	hist := func(lens []int) error {
		f, fi := &dsp.Rotate90Filter{}, &dsp.I32Rotate90Filter{}
		for step, n := range lens {
			s, v := make([]complex64, n, n+4), make([]int32, 2*n, 2*n+4)
			for k := range s {
				s[k] = complex(float32(mix(k+step)>>8)+1, -float32(mix(k*3+step)>>8)-1)
				v[2*k], v[2*k+1] = int32(mix(k+5*step)), int32(mix(k+step+7))
			}
			ws, wv := append([]complex64{}, s...), append([]int32{}, v...)
			rs, rv := f.Filter(s), fi.Filter(v)
			if len(rs) != n || len(rv) != 2*n || n > 0 && (&rs[0] != &s[0] || &rv[0] != &v[0]) {
				return mc.V("slice", "buffers of %v samples: buffer %d is not what is returned", lens, step)
			}
			for k := 0; k < n; k++ {
				z, re, im := ws[k], wv[2*k], wv[2*k+1]
				switch k % 4 {
				case 1:
					z, re, im = complex(-imag(z), real(z)), -im, re
				case 2:
					z, re, im = -z, -re, -im
				case 3:
					z, re, im = complex(imag(z), -real(z)), im, -re
				}
				if rs[k] != z {
					return mc.V("value", "Rotate90Filter over buffers of %v samples: sample %d of buffer %d (%v) became %v, want %v", lens, k, step, ws[k], rs[k], z)
				}
				if rv[2*k] != re || rv[2*k+1] != im {
					return mc.V("value", "I32Rotate90Filter over buffers of %v samples: sample %d of buffer %d (%d,%d) became (%d,%d), want (%d,%d)", lens, k, step, wv[2*k], wv[2*k+1], rv[2*k], rv[2*k+1], re, im)
				}
			}
		}
		return nil
	}
	sizes := []int{0, 4, 8, 12, 16, 20, 64, 132}
	ns, depth := 1, t.Pick(5, 7)
	for k := 0; k < depth; k++ {
		ns *= len(sizes)
	}
	return []*mc.Family{
		{Name: "histories", N: ns, Run: func(c *mc.Ctx, i int) error {
			lens := make([]int, depth)
			for k := range lens {
				lens[k] = sizes[i%len(sizes)]
				i /= len(sizes)
			}
			c.Evals++
			c.Nontrivial++
			return hist(lens)
		}},
		{Name: "large-buffers", N: len(bigChunks) * 5, Run: func(c *mc.Ctx, i int) error {
			lens := callPattern(bigChunks[i%len(bigChunks)], i/len(bigChunks))
			for k := range lens {
				lens[k] = (lens[k] + 3) &^ 3
			}
			c.Evals++
			c.Nontrivial++
			return hist(lens)
		}},
		{Name: "lengths", N: t.Pick(40, 120), Run: func(c *mc.Ctx, i int) error {
			n := 4 * i
			f := make([]complex64, n)
			v := make([]int32, 2*n)
			for k := range f {
				f[k] = complex(float32(k+1), -float32(k)*0.5-1)
				v[2*k], v[2*k+1] = int32(mix(k)), int32(mix(k+9))
			}
			if 8*n > arenaLen-600 {
				return nil
			}
			if err := checkF(c, f); err != nil {
				return err
			}
			return checkI(c, v)
		}},
		{Name: "alphabet", N: na * na * na * na, Run: func(c *mc.Ctx, i int) error {
			f := make([]complex64, 4)
			v := make([]int32, 8)
			for k := range f {
				a := i % na
				i /= na
				b := (a*3 + k) % na
				f[k] = complex(alphaF[a], alphaF[b])
				v[2*k], v[2*k+1] = alphaI[a], alphaI[b]
			}
			if err := checkF(c, f); err != nil {
				return err
			}
			if err := checkI(c, v); err != nil {
				return err
			}
			if c.WantSample() {
				c.Sample("%v and %v", f, v)
			}
			return nil
		}},
		{Name: "pairs", N: na * na * 4, Run: func(c *mc.Ctx, i int) error {
			pos := i % 4
			x, y := i/4%na, i/4/na
			for blocks := 1; blocks <= 5; blocks++ {
				for blk := 0; blk < blocks; blk++ {
					f := make([]complex64, 4*blocks)
					v := make([]int32, 8*blocks)
					f[4*blk+pos] = complex(alphaF[x], alphaF[y])
					v[8*blk+2*pos], v[8*blk+2*pos+1] = alphaI[x], alphaI[y]
					if err := checkF(c, f); err != nil {
						return err
					}
					if err := checkI(c, v); err != nil {
						return err
					}
				}
			}
			return nil
		}},
	}
}
