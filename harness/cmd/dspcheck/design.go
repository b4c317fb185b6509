package main

import (
	"fmt"
	"math"
	"math/cmplx"

	"github.com/samuel/go-dsp/dsp"
	"verif/harness/mc"
)

const pointRule = "one evaluation is one design, window or position from a completely enumerated grid, computed by the real code and compared with the documented formula; non-trivial when the expected value is not zero; all distinct."

func init() {
	mc.Register(&mc.Check{ID: "C11", Level: "exploration", Rule: pointRule,
		Assumptions: []string{"0.001 <= design frequency/sample rate <= 0.499, 0.001 <= Q <= 10000, shelf slope from 0.002 up to what the gain admits, gain within +-120 dB", "relative tolerance 1e-8"},
		Families:    biquadFamilies})
	mc.Register(&mc.Check{ID: "C14", Level: "exploration", Rule: pointRule,
		Assumptions: []string{"tolerance 1e-12 (float64), one unit in the last place (float32)"},
		Families:    windowFamilies})
	mc.Register(&mc.Check{ID: "C15", Level: "exploration", Rule: pointRule,
		Assumptions: []string{"finite samples and positions (for infinite positions only the absence of a panic)"},
		Families:    interpFamilies})
}

// analog is a prototype (n2 s^2 + n1 s + n0) / (d2 s^2 + d1 s + d0).
type analog struct{ n2, n1, n0, d2, d1, d0 float64 }

type design struct {
	name  string
	mk    func(fs, f0, p, g float64) *dsp.BiQuadFilter
	proto func(p, g float64) analog
	shelf bool
	gain  bool
}

func shelfQinv(a, s float64) float64 { return math.Sqrt((a+1/a)*(1/s-1) + 2) }

var designs = []design{
	{"NewLowPassBiQuadFilter", func(fs, f0, q, _ float64) *dsp.BiQuadFilter { return dsp.NewLowPassBiQuadFilter(fs, f0, q) },
		func(q, _ float64) analog { return analog{0, 0, 1, 1, 1 / q, 1} }, false, false},
	{"NewHighPassBiQuadFilter", func(fs, f0, q, _ float64) *dsp.BiQuadFilter { return dsp.NewHighPassBiQuadFilter(fs, f0, q) },
		func(q, _ float64) analog { return analog{1, 0, 0, 1, 1 / q, 1} }, false, false},
	{"NewBandPassConstantSkirtGainBiQuadFilter", func(fs, f0, q, _ float64) *dsp.BiQuadFilter {
		return dsp.NewBandPassConstantSkirtGainBiQuadFilter(fs, f0, q)
	}, func(q, _ float64) analog { return analog{0, 1, 0, 1, 1 / q, 1} }, false, false},
	{"NewBandPassConstantPeakGainBiQuadFilter", func(fs, f0, q, _ float64) *dsp.BiQuadFilter {
		return dsp.NewBandPassConstantPeakGainBiQuadFilter(fs, f0, q)
	}, func(q, _ float64) analog { return analog{0, 1 / q, 0, 1, 1 / q, 1} }, false, false},
	{"NotchBiQuadFilter", func(fs, f0, q, _ float64) *dsp.BiQuadFilter { return dsp.NotchBiQuadFilter(fs, f0, q) },
		func(q, _ float64) analog { return analog{1, 0, 1, 1, 1 / q, 1} }, false, false},
	{"AllPassBiQuadFilter", func(fs, f0, q, _ float64) *dsp.BiQuadFilter { return dsp.AllPassBiQuadFilter(fs, f0, q) },
		func(q, _ float64) analog { return analog{1, -1 / q, 1, 1, 1 / q, 1} }, false, false},
	{"PeakingEQBiQuadFilter", dsp.PeakingEQBiQuadFilter,
		func(q, g float64) analog { a := math.Pow(10, g/40); return analog{1, a / q, 1, 1, 1 / (a * q), 1} }, false, true},
	{"LowShelfBiQuadFilter", dsp.LowShelfBiQuadFilter, func(s, g float64) analog {
		a := math.Pow(10, g/40)
		m := math.Sqrt(a) * shelfQinv(a, s)
		return analog{a, a * m, a * a, a, m, 1}
	}, true, true},
	{"HighShelfBiQuadFilter", dsp.HighShelfBiQuadFilter, func(s, g float64) analog {
		a := math.Pow(10, g/40)
		m := math.Sqrt(a) * shelfQinv(a, s)
		return analog{a * a, a * m, a, 1, m, a}
	}, true, true},
}

// bilinear returns digital coefficients for the prototype with s=1 at w0.
func bilinear(p analog, w0 float64) (b, a [3]float64) {
	k := math.Tan(w0 / 2)
	f := func(x2, x1, x0 float64) [3]float64 {
		// x2 (1-z)^2 + x1 K (1-z^2) + x0 K^2 (1+z)^2, z = z^-1
		return [3]float64{x2 + x1*k + x0*k*k, 2 * (x0*k*k - x2), x2 - x1*k + x0*k*k}
	}
	b, a = f(p.n2, p.n1, p.n0), f(p.d2, p.d1, p.d0)
	d := a[0]
	for i := range b {
		b[i] /= d
		a[i] /= d
	}
	return
}

func biquadFamilies(t mc.Tier) []*mc.Family {
	ratios := []float64{0.001, 0.0021, 0.4999, 0.01, 0.03, 0.05, 0.1, 0.125, 1.0 / 6, 0.2, 0.25, 0.3, 1.0 / 3, 0.375, 0.4, 0.45, 0.48, 0.499}
	for k, n := 1, t.Pick(250, 2500); k < n; k++ {
		ratios = append(ratios, (float64(k)-0.15)*0.5/float64(n))
	}
	rates := []float64{1, 1e-3, 7.7, 8000, 44100, 48000, 192000, 2.4e6}
	qs := []float64{1e-3, 0.02, 0.1, 0.25, 0.5, 0.70710678118, 1, 1.5, 2, 5, 10, 50, 300, 1e4}
	slopes := []float64{0.002, 0.05, 0.1, 0.3, 0.5, 0.75, 0.9, 1, 1.2, 2, 8}
	gains := []float64{-120, -80, -48, -24, -12, -6, -3, -0.5, 0, 0.5, 3, 6, 12, 24, 48, 80, 120}
	type cs struct {
		d     int
		fs, r float64
	}
	var cases []cs
	for d := range designs {
		for _, fs := range rates {
			for _, r := range ratios {
				cases = append(cases, cs{d, fs, r})
			}
		}
	}
	return []*mc.Family{{Name: "designs", N: len(cases), Run: func(c *mc.Ctx, i int) error {
		d := designs[cases[i].d]
		fs := cases[i].fs
		f0 := fs * cases[i].r
		w0 := 2 * math.Pi * f0 / fs
		ps, gs := qs, []float64{0}
		if d.shelf {
			ps = slopes
		}
		if d.gain {
			gs = gains
		}
		for _, p := range ps {
			for _, g := range gs {
				if a := math.Pow(10, g/40); d.shelf && (a+1/a)*(1/p-1)+2 < 0.01 {
					continue // no such slope for this gain
				}
				f := d.mk(fs, f0, p, g)
				what := fmt.Sprintf("%s(rate %v, frequency %v, q/slope %v, gain %v)", d.name, fs, f0, p, g)
				c.Evals++
				c.Nontrivial++
				pr := d.proto(p, g)
				rb, ra := bilinear(pr, w0)
				B := [3]float64{f.B0 / f.A0, f.B1 / f.A0, f.B2 / f.A0}
				A := [3]float64{1, f.A1 / f.A0, f.A2 / f.A0}
				sc := math.Max(math.Abs(rb[0]), math.Max(math.Abs(rb[1]), math.Abs(rb[2])))
				for k := range B {
					if !(math.Abs(B[k]-rb[k]) <= 1e-9*sc && math.Abs(A[k]-ra[k]) <= 1e-9) {
						return mc.V("coefficients:"+d.name, "%s: normalised coefficients b=%v a=%v, the documented prototype gives b=%v a=%v", what, B, A, rb, ra)
					}
				}
				if !(math.Abs(A[2]) < 1 && math.Abs(A[1]) < 1+A[2]) {
					return mc.V("stable:"+d.name, "%s is not stable: a=%v", what, A)
				}
				// Response at a grid of frequencies, evaluated from the analog prototype.
				for k := 0; k <= 64; k++ {
					w := math.Pi * float64(k) / 64
					if k == 64 {
						w = w0
					}
					z1 := cmplx.Exp(complex(0, -w))
					num := complex(B[0], 0) + z1*(complex(B[1], 0)+z1*complex(B[2], 0))
					den := complex(A[0], 0) + z1*(complex(A[1], 0)+z1*complex(A[2], 0))
					s := complex(0, math.Tan(w/2)/math.Tan(w0/2))
					an := complex(pr.n2, 0)*s*s + complex(pr.n1, 0)*s + complex(pr.n0, 0)
					ad := complex(pr.d2, 0)*s*s + complex(pr.d1, 0)*s + complex(pr.d0, 0)
					want := an / ad
					got := num / den
					// (rounding of the coefficients shows where the denominator is small)
					if !(cmplx.Abs(got-want) <= 1e-6*(1+cmplx.Abs(want))+1e-14*(1+sc+cmplx.Abs(want))/cmplx.Abs(den)) {
						return mc.V("response:"+d.name, "%s: response at %v rad/sample is %v, documented %v", what, w, got, want)
					}
					c.Add("response_points", 1)
				}
				// Impulse response through the filter itself.
				const L = 40
				x := make([]complex128, L)
				x[0] = 1
				want := refFilter(rb[:], ra[:], x)
				in := make([]float64, L)
				in[0] = 1
				out := make([]float64, L)
				f.Filter(in, out)
				for k := range out {
					if !(math.Abs(out[k]-real(want[k])) <= 1e-7*(sc+1)*float64(k+1)) {
						return mc.V("impulse:"+d.name, "%s: impulse response sample %d is %v, want %v", what, k, out[k], real(want[k]))
					}
				}
				f32 := d.mk(fs, f0, p, g)
				in32, out32 := make([]float32, L), make([]float32, L)
				in32[0] = 1
				f32.FilterF32(in32, out32)
				for k := range out32 {
					if w := real(want[k]); !(math.Abs(float64(out32[k])-w) <= 1e-7*(sc+1)*float64(k+1)+1e-7*math.Abs(w)) {
						return mc.V("impulse:"+d.name, "%s: float32 impulse response sample %d is %v, want %v", what, k, out32[k], w)
					}
				}
				if c.WantSample() {
					c.Sample("%s", what)
				}
			}
		}
		return nil
	}}}
}

// ---- windows ----

type win struct {
	name string
	f64  func([]float64)
	f32  func([]float32)
	ref  func(n, N int) float64
	fc   []float64
	fc32 []float32
}

func cosWin(a ...float64) func(n, N int) float64 {
	return func(n, N int) float64 {
		v, s := 0.0, 1.0
		for k, c := range a {
			v += s * c * math.Cos(2*math.Pi*float64(k*n)/float64(N-1))
			s = -s
		}
		return v
	}
}

var windows = []win{
	{"Triangle", dsp.TriangleWindow, dsp.TriangleWindowF32, func(n, N int) float64 {
		return 1 - math.Abs((float64(n)-float64(N-1)/2)/(float64(N+1)/2))
	}, nil, nil},
	{"Hamming", dsp.HammingWindow, dsp.HammingWindowF32, cosWin(0.53836, 0.46164), dsp.HammingFreqCoeff, dsp.HammingFreqCoeff32},
	{"Hanning", dsp.HanningWindow, dsp.HanningWindowF32, cosWin(0.5, 0.5), dsp.HanningFreqCoeff, dsp.HanningFreqCoeff32},
	{"Blackman", dsp.BlackmanWindow, dsp.BlackmanWindowF32, cosWin(0.42, 0.5, 0.08), dsp.BlackmanFreqCoeff, dsp.BlackmanFreqCoeff32},
	{"Nuttall", dsp.NuttallWindow, dsp.NuttallWindowF32, cosWin(0.355768, 0.487396, 0.144232, 0.012604), nil, nil},
}

func windowFamilies(t mc.Tier) []*mc.Family {
	N := t.Pick(4200, 20000)
	extra := []int{8191, 8192, 16384, 44100, 65535, 65536, 65537, 1 << 17, 1<<20 + 1}
	checkLen := func(c *mc.Ctx, w win, n int) error {
		const pad = 3
		b64 := make([]float64, n+2*pad)
		b32 := make([]float32, n+2*pad)
		for k := range b64 {
			b64[k], b32[k] = 1234.5, 1234.5
		}
		o64, o32 := b64[pad:pad+n], b32[pad:pad+n]
		w.f64(o64)
		w.f32(o32)
		c.Evals += int64(2 * n)
		for k := 0; k < pad; k++ {
			if b64[k] != 1234.5 || b32[k] != 1234.5 || b64[pad+n+k] != 1234.5 || b32[pad+n+k] != 1234.5 {
				return mc.V("outside", "%s window of length %d wrote outside its slice", w.name, n)
			}
		}
		for k := 0; k < n; k++ {
			g := o64[k]
			if math.IsNaN(g) || math.IsInf(g, 0) || g > 1+1e-12 {
				return mc.V("finite", "%s window of length %d: element %d is %v", w.name, n, k, g)
			}
			if n > 1 {
				c.Nontrivial++
				if want := w.ref(k, n); math.Abs(g-want) > 1e-12 {
					return mc.V("value", "%s window of length %d: element %d is %v, want %v", w.name, n, k, g, want)
				}
				if s := o64[n-1-k]; math.Abs(g-s) > 1e-11 {
					return mc.V("symmetric", "%s window of length %d: element %d is %v, element %d is %v", w.name, n, k, g, n-1-k, s)
				}
			}
			if d := math.Abs(float64(o32[k]) - g); !(d <= 1.2e-7*math.Abs(g)+1e-9) {
				return mc.V("float32", "%s window of length %d: float32 element %d is %v, float64 %v", w.name, n, k, o32[k], g)
			}
		}
		return nil
	}
	return []*mc.Family{
		{Name: "lengths", N: N + 1 + len(extra), Run: func(c *mc.Ctx, i int) error {
			n := i
			if i > N {
				n = extra[i-N-1]
			}
			for _, w := range windows {
				if err := checkLen(c, w, n); err != nil {
					return err
				}
				if n == 0 {
					w.f64(nil)
					w.f32(nil)
				}
			}
			if i == 21 {
				c.Sample("every element of all five windows of length %d", n)
			}
			return nil
		}},
		{Name: "frequency-coefficients", N: t.Pick(64, 512), Run: func(c *mc.Ctx, i int) error {
			n := i + 2
			for _, w := range windows {
				if w.fc == nil {
					continue
				}
				if len(w.fc) != len(w.fc32) {
					return mc.V("fc32", "%s: %d and %d frequency coefficients", w.name, len(w.fc), len(w.fc32))
				}
				o := make([]float64, n+1)
				w.f64(o)
				for k := 0; k < n; k++ {
					var v complex128
					for q, cf := range w.fc {
						if math.Abs(float64(w.fc32[q])-cf) > 1e-7 {
							return mc.V("fc32", "%s: float32 frequency coefficient %d is %v, float64 %v", w.name, q, w.fc32[q], cf)
						}
						v += complex(cf, 0) * cmplx.Exp(complex(0, 2*math.Pi*float64((q-len(w.fc)/2)*k)/float64(n)))
					}
					c.Evals++
					c.Nontrivial++
					if cmplx.Abs(v-complex(o[k], 0)) > 1e-10 {
						return mc.V("fc", "%s frequency coefficients %v give %v at %d/%d, the window is %v", w.name, w.fc, v, k, n, o[k])
					}
				}
			}
			return nil
		}},
	}
}

// ---- interpolators ----

type interp struct {
	name   string
	f64    func([]float64, float64) float64
	f32    func([]float32, float32) float32
	lo, hi int // sample offsets used
	exact  bool
	linear bool
	kernel func(s func(int) float64, x float64) float64 // x is the fraction
}

var interps = []interp{
	{"Linear", dsp.Linear, dsp.LinearF32, 0, 1, true, true, func(s func(int) float64, x float64) float64 {
		return s(0) + x*(s(1)-s(0))
	}},
	{"Hermite4p3o", dsp.Hermite4p3o, dsp.Hermite4p3oF32, -1, 2, true, false, func(s func(int) float64, x float64) float64 {
		// cubic through s(0), s(1) with slopes (s(1)-s(-1))/2 and (s(2)-s(0))/2
		m0, m1 := (s(1)-s(-1))/2, (s(2)-s(0))/2
		return (2*x*x*x-3*x*x+1)*s(0) + (x*x*x-2*x*x+x)*m0 + (3*x*x-2*x*x*x)*s(1) + (x*x*x-x*x)*m1
	}},
	{"Optimal2x4p4o", dsp.Optimal2x4p4o, dsp.Optimal2x4p4oF32, -1, 2, false, false, func(s func(int) float64, x float64) float64 {
		e1, o1, e2, o2 := s(1)+s(0), s(1)-s(0), s(2)+s(-1), s(2)-s(-1)
		z := x - 0.5
		return (e1*0.45645918406487612 + e2*0.04354173901996461) + z*(o1*0.47236675362442071+o2*0.17686613581136501) +
			z*z*(e1*-0.253674794204558521+e2*0.25371918651882464) + z*z*z*(o1*-0.37917091811631082+o2*0.11952965967158000) +
			z*z*z*z*(e1*0.04252164479749607+e2*-0.04289144034653719)
	}},
	{"Optimal2x6p5o", dsp.Optimal2x6p5o, dsp.Optimal2x6p5oF32, -2, 3, false, false, func(s func(int) float64, x float64) float64 {
		e1, o1, e2, o2, e3, o3 := s(1)+s(0), s(1)-s(0), s(2)+s(-1), s(2)-s(-1), s(3)+s(-2), s(3)-s(-2)
		z := x - 0.5
		return (e1*0.40513396007145713 + e2*0.09251794438424393 + e3*0.00234806603570670) +
			z*(o1*0.28342806338906690+o2*0.21703277024054901+o3*0.01309294748731515) +
			z*z*(e1*-0.191337682540351941+e2*0.16187844487943592+e3*0.02946017143111912) +
			z*z*z*(o1*-0.16471626190554542+o2*-0.00154547203542499+o3*0.03399271444851909) +
			z*z*z*z*(e1*0.03845798729588149+e2*-0.05712936104242644+e3*0.01866750929921070) +
			z*z*z*z*z*(o1*0.04317950185225609+o2*-0.01802814255926417+o3*0.00152170021558204)
	}},
}

func (ip *interp) want(samples []float64, x float64) float64 {
	fl := math.Floor(x)
	if ip.linear && x < 0 {
		return 0
	}
	if fl+float64(ip.hi) < 0 || fl+float64(ip.lo) >= float64(len(samples)) {
		return 0
	}
	xi := int(fl)
	return ip.kernel(func(o int) float64 {
		if j := xi + o; j >= 0 && j < len(samples) {
			return samples[j]
		}
		return 0
	}, x-fl)
}

func (ip *interp) check(c *mc.Ctx, samples []float64, x float64) error {
	amp := 0.0
	for _, v := range samples {
		amp = math.Max(amp, math.Abs(v))
	}
	want := ip.want(samples, x)
	in := append(make([]float64, 0, len(samples)+2), samples...)
	spare := in[:len(in)+2]
	spare[len(in)], spare[len(in)+1] = 1e6, 1e6
	got := ip.f64(in, x)
	c.Evals += 2
	if want != 0 {
		c.Nontrivial += 2
	}
	if !(math.Abs(got-want) <= 1e-12*amp*8) {
		return mc.V("value:"+ip.name, "%s(%v, %v) = %v, want %v", ip.name, samples, x, got, want)
	}
	if ip.exact && x == math.Floor(x) && x >= 0 && x < float64(len(samples)) && got != samples[int(x)] {
		return mc.V("integer:"+ip.name, "%s(%v, %v) = %v, want the sample itself", ip.name, samples, x, got)
	}
	for k, v := range samples {
		if in[k] != v {
			return mc.V("input:"+ip.name, "%s modified its samples", ip.name)
		}
	}
	x32 := float32(x)
	if math.IsInf(float64(x32), 0) || amp > 1e37 || amp > 0 && amp < 1e-33 {
		return nil // beyond float32
	}
	s32 := append(make([]float32, 0, len(samples)+2), conv32(samples)...)
	sp := s32[:len(s32)+2]
	sp[len(s32)], sp[len(s32)+1] = 1e6, 1e6
	r := make([]float64, len(samples))
	for k := range r {
		r[k] = float64(s32[k])
	}
	want = ip.want(r, float64(x32))
	g32 := ip.f32(s32, x32)
	if !(math.Abs(float64(g32)-want) <= 3e-6*amp) {
		return mc.V("value:"+ip.name+"F32", "%sF32(%v, %v) = %v, want %v", ip.name, s32, x32, g32, want)
	}
	if ip.exact && float64(x32) == math.Floor(float64(x32)) && x32 >= 0 && float64(x32) < float64(len(samples)) && g32 != s32[int(x32)] {
		return mc.V("integer:"+ip.name+"F32", "%sF32(%v, %v) = %v, want the sample itself", ip.name, s32, x32, g32)
	}
	return nil
}

func interpFamilies(t mc.Tier) []*mc.Family {
	maxN := t.Pick(12, 17)
	steps := t.Pick(32, 128)
	grid := func(n, lo, hi, per int) []float64 {
		var xs []float64
		for k := lo * per; k <= hi*per; k++ {
			x := float64(k) / float64(per)
			xs = append(xs, x)
			if k%per == 0 {
				xs = append(xs, math.Nextafter(x, math.Inf(1)), math.Nextafter(x, math.Inf(-1)),
					float64(math.Nextafter32(float32(x), float32(math.Inf(1)))), float64(math.Nextafter32(float32(x), float32(math.Inf(-1)))))
			}
		}
		return xs
	}
	huge := []float64{255, 256, 257, 32768, 65535, 65536, 65537, 65540, 131073, 16777216, 16777218, 33554436, 4294967298, 4294967300, 8589934594, 1e5, 1e9, 2147483647, 2147483648, 2147483649, 4294967295, 4294967296, 4294967297, 9.2e18, 9223372036854775807, 9.3e18, 1.8446744073709552e19, 1e30, 3e38, 1e300, math.MaxFloat64, 1e-30, 5e-324, 1e-40, 0.1}
	return []*mc.Family{
		{Name: "impulses", N: (maxN + 1) * maxN, Run: func(c *mc.Ctx, i int) error {
			n, at := i/maxN, i%maxN
			if at >= n && at > 0 {
				return nil
			}
			s := make([]float64, n)
			if n > 0 {
				s[at] = 1.75
			}
			for ii := range interps {
				for _, x := range grid(n, -8, n+8, steps) {
					if err := interps[ii].check(c, s, x); err != nil {
						return err
					}
				}
			}
			return nil
		}},
		{Name: "sequences", N: 4 * 4 * 4 * 4 * 4 * 6, Run: func(c *mc.Ctx, i int) error {
			al := []float64{0, 1, -2, 0.625}
			n := i % 6
			i /= 6
			s := make([]float64, n)
			for k := range s {
				s[k] = al[i%4]
				i /= 4
			}
			for ii := range interps {
				for _, x := range grid(n, -4, n+4, 4) {
					if err := interps[ii].check(c, s, x); err != nil {
						return err
					}
				}
			}
			if c.WantSample() {
				c.Sample("samples %v at every quarter position", s)
			}
			return nil
		}},
		{Name: "extremes", N: len(huge) * 2 * 12, Run: func(c *mc.Ctx, i int) error {
			n := i / (2 * len(huge))
			x := huge[i%len(huge)]
			if i/len(huge)%2 == 1 {
				x = -x
			}
			s := make([]float64, n)
			for k := range s {
				s[k] = float64(k + 1)
			}
			for ii := range interps {
				ip := &interps[ii]
				if err := ip.check(c, s, x); err != nil {
					return err
				}
				// not a number: no answer, but no panic either
				ip.f64(s, math.NaN())
				ip.f32(conv32(s), float32(math.NaN()))
				for _, inf := range []int{1, -1} {
					ip.f64(s, math.Inf(inf))
					ip.f32(conv32(s), float32(math.Inf(inf)))
				}
				ip.f64(nil, x)
				ip.f32(nil, float32(x))
			}
			return nil
		}},
		// The interpolators are linear in the samples, of any magnitude.
		{Name: "scales", N: 200, Run: func(c *mc.Ctx, i int) error {
			n := i%9 + 1
			for _, e := range scaleExps(true) {
				s := make([]float64, n)
				for k := range s {
					s[k] = math.Ldexp(float64(int(mix(k+i)%200)-100)/16, e)
				}
				for ii := range interps {
					for _, x := range grid(n, -4, n+4, 4) {
						if err := interps[ii].check(c, s, x); err != nil {
							return err
						}
					}
				}
			}
			return nil
		}},
		// Long slices: every index, neighbours and the middle.
		{Name: "long", N: t.Pick(300, 1500), Run: func(c *mc.Ctx, i int) error {
			n := i + 10
			s := make([]float64, n)
			for k := range s {
				s[k] = float64(int(mix(k+n)%200)-100) / 16
			}
			for ii := range interps {
				for k := -3; k < n+3; k++ {
					for _, fr := range []float64{0, 0.375, 0.9375} {
						if err := interps[ii].check(c, s, float64(k)+fr); err != nil {
							return err
						}
					}
				}
			}
			return nil
		}},
	}
}
