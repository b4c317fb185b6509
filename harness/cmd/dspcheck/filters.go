package main

import (
	"fmt"
	"math"
	"math/cmplx"

	"github.com/samuel/go-dsp/dsp"
	"verif/harness/mc"
)

func init() {
	mc.Register(&mc.Check{ID: "C10", Level: "model_checking", Rule: histRule,
		Assumptions: []string{"finite samples and coefficients, output at least as long as the input, leading denominator coefficient not zero"},
		Families:    iirFamilies})
	mc.Register(&mc.Check{ID: "C12", Level: "model_checking", Rule: histRule,
		Assumptions: []string{"a frequency exactly half way between two bins may round either way", "tolerance 1e-9 (float64) or 2e-6 (float32 results) of the block's absolute sum, times the block length for the recursion's rounding"},
		Families:    goertzelFamilies})
	mc.Register(&mc.Check{ID: "C13", Level: "model_checking", Rule: histRule,
		Assumptions: []string{"streams of at most 6n samples: rounding errors of the undamped recursion grow with the stream, the tolerance grows with it"},
		Families:    sdftFamilies})
}

// inst is one filter instance of any type, fed with complex samples (real types
// use the real part).
type inst struct {
	entries int
	// feed processes in with entry point e, in place or not.
	feed func(e int, in []complex128, inplace bool) ([]complex128, error)
}

// fkind is a constructor of instances with its reference.
type fkind struct {
	name string
	tol  float64
	b, a []float64 // transfer function
	// make returns an instance, a function checking that the caller's
	// coefficients are unchanged and one overwriting them.
	mk func() (in inst, intact func() error, scribble func(), again func() inst)
}

// refFilter computes the difference equation directly over a whole stream.
func refFilter(b, a []float64, x []complex128) []complex128 {
	y := make([]complex128, len(x))
	for n := range x {
		var s complex128
		for k := range b {
			if n-k >= 0 {
				s += complex(b[k], 0) * x[n-k]
			}
		}
		for k := 1; k < len(a); k++ {
			if n-k >= 0 {
				s -= complex(a[k], 0) * y[n-k]
			}
		}
		y[n] = s / complex(a[0], 0)
	}
	return y
}

func runF[T any](to func(complex128) T, from func(T) complex128, same func(a, b T) bool, f func(in, out []T)) func(in []complex128, inplace bool) ([]complex128, error) {
	return func(in []complex128, inplace bool) ([]complex128, error) {
		ti := make([]T, len(in), len(in)+1)
		for k, v := range in {
			ti[k] = to(v)
		}
		var zero T
		var res []T
		if inplace {
			f(ti, ti)
			res = ti
		} else {
			out := make([]T, len(in)+2)
			sent := to(complex(123, 0))
			out[len(in)], out[len(in)+1] = sent, sent
			f(ti, out)
			for k, v := range in {
				if !same(ti[k], to(v)) {
					return nil, mc.V("input", "input sample %d modified by a call with a separate output", k)
				}
			}
			if !same(out[len(in)], sent) || !same(out[len(in)+1], sent) {
				return nil, mc.V("beyond", "output beyond the input length modified")
			}
			res = out[:len(in)]
		}
		_ = zero
		r := make([]complex128, len(res))
		for k, v := range res {
			r[k] = from(v)
		}
		return r, nil
	}
}

func f64of(c complex128) float64 { return real(c) }
func f32of(c complex128) float32 { return float32(real(c)) }
func c64of(c complex128) complex64 {
	return complex(float32(real(c)), float32(imag(c)))
}
func eqT[T comparable](a, b T) bool { return a == b }

func rF64(f func(in, out []float64)) func([]complex128, bool) ([]complex128, error) {
	return runF(f64of, func(v float64) complex128 { return complex(v, 0) }, eqT[float64], f)
}
func rF32(f func(in, out []float32)) func([]complex128, bool) ([]complex128, error) {
	return runF(f32of, func(v float32) complex128 { return complex(float64(v), 0) }, eqT[float32], f)
}
func rC64(f func(in, out []complex64)) func([]complex128, bool) ([]complex128, error) {
	return runF(c64of, func(v complex64) complex128 { return complex128(v) }, eqT[complex64], f)
}
func rC128(f func(in, out []complex128)) func([]complex128, bool) ([]complex128, error) {
	return runF(func(c complex128) complex128 { return c }, func(c complex128) complex128 { return c }, eqT[complex128], f)
}

type feeder = func([]complex128, bool) ([]complex128, error)

func one(f ...feeder) inst {
	return inst{entries: len(f), feed: func(e int, in []complex128, ip bool) ([]complex128, error) { return f[e%len(f)](in, ip) }}
}

func coefCheck[T float32 | float64](name string, got []T, want []float64) error {
	for k := range got {
		if float64(got[k]) != float64(T(want[k])) {
			return mc.V("caller-coefficients", "%s changed the caller's coefficients from %v to %v", name, want, got)
		}
	}
	return nil
}

func conv32(v []float64) []float32 {
	r := make([]float32, len(v))
	for k := range v {
		r[k] = float32(v[k])
	}
	return r
}

var coefSets = [][2][]float64{
	{{2}, {4}},
	{{0.5, 0.25}, {1, -0.5}},
	{{1, -2, 0.5}, {2, -0.5, 0.25}},
	{{0.25, 0.5, -1, 3}, {4, 1, -2, 0.5}},
	{{1, 0, 0, 0, 0.5}, {1, 0, 0, 0, -0.5}},
	{{0, 0, 1}, {-0.5, 0.125, 0}},
	{{1, 2, 3, 4, 5, 6}, {8, -1, 1, -2, 1, -0.5}},
}

func iirKinds() []fkind {
	var ks []fkind
	for ci, cs := range coefSets {
		b, a := cs[0], cs[1]
		ks = append(ks,
			fkind{name: fmt.Sprintf("IIRFilter#%d", ci), tol: 1e-11, b: b, a: a, mk: func() (inst, func() error, func(), func() inst) {
				cb, ca := append(make([]float64, 0, len(b)+3), b...), append(make([]float64, 0, len(a)+3), a...)
				f := dsp.NewIIRFilter(cb, ca)
				again := func() inst { return one(rF64(dsp.NewIIRFilter(cb, ca).Filter)) }
				return one(rF64(f.Filter)), func() error {
						if e := coefCheck("NewIIRFilter", cb, b); e != nil {
							return e
						}
						return coefCheck("NewIIRFilter", ca, a)
					}, func() {
						for k := range cb {
							cb[k], ca[k] = 99, -7
						}
					}, again
			}},
			fkind{name: fmt.Sprintf("ComplexIIRFilter#%d", ci), tol: 1e-11, b: b, a: a, mk: func() (inst, func() error, func(), func() inst) {
				cb, ca := append([]float64{}, b...), append([]float64{}, a...)
				f := dsp.NewComplexIIRFilter(cb, ca)
				again := func() inst { return one(rC128(dsp.NewComplexIIRFilter(cb, ca).Filter)) }
				return one(rC128(f.Filter)), func() error {
						if e := coefCheck("NewComplexIIRFilter", cb, b); e != nil {
							return e
						}
						return coefCheck("NewComplexIIRFilter", ca, a)
					}, func() {
						for k := range cb {
							cb[k], ca[k] = 99, -7
						}
					}, again
			}},
			fkind{name: fmt.Sprintf("ComplexIIRFilter32#%d", ci), tol: 1e-4, b: b, a: a, mk: func() (inst, func() error, func(), func() inst) {
				cb, ca := conv32(b), conv32(a)
				f := dsp.NewComplexIIRFilter32(cb, ca)
				again := func() inst { return one(rC64(dsp.NewComplexIIRFilter32(cb, ca).Filter)) }
				return one(rC64(f.Filter)), func() error {
						if e := coefCheck("NewComplexIIRFilter32", cb, b); e != nil {
							return e
						}
						return coefCheck("NewComplexIIRFilter32", ca, a)
					}, func() {
						for k := range cb {
							cb[k], ca[k] = 99, -7
						}
					}, again
			}})
		if len(b) == 3 {
			nf := func() *dsp.BiQuadFilter {
				return &dsp.BiQuadFilter{B0: b[0], B1: b[1], B2: b[2], A0: a[0], A1: a[1], A2: a[2]}
			}
			mi := func(f *dsp.BiQuadFilter) inst { return one(rF64(f.Filter), rF32(f.FilterF32)) }
			ks = append(ks, fkind{name: fmt.Sprintf("BiQuadFilter#%d", ci), tol: 1e-6, b: b, a: a, mk: func() (inst, func() error, func(), func() inst) {
				f := nf()
				return mi(f), func() error {
					if f.B0 != b[0] || f.B1 != b[1] || f.B2 != b[2] || f.A0 != a[0] || f.A1 != a[1] || f.A2 != a[2] {
						return mc.V("biquad-coefficients", "filtering changed the biquad's coefficients")
					}
					return nil
				}, func() {}, func() inst { return mi(nf()) }
			}})
		}
	}
	none := func() error { return nil }
	for _, a := range []float64{0, 0.5, 0.875, -0.25, 1} {
		ks = append(ks,
			fkind{name: fmt.Sprintf("DCFilter(%v)", a), tol: 1e-11, b: []float64{1, -1}, a: []float64{1, -a}, mk: func() (inst, func() error, func(), func() inst) {
				mi := func() inst {
					f := dsp.NewDCFilter(a)
					return one(rF64(f.Filter), rF64(func(in, out []float64) {
						for k := range in {
							out[k] = f.FilterOne(in[k])
						}
					}))
				}
				return mi(), none, func() {}, mi
			}},
			fkind{name: fmt.Sprintf("DCFilter32(%v)", a), tol: 1e-4, b: []float64{1, -1}, a: []float64{1, -a}, mk: func() (inst, func() error, func(), func() inst) {
				mi := func() inst {
					f := dsp.NewDCFilter32(float32(a))
					return one(rF32(f.Filter), rF32(func(in, out []float32) {
						for k := range in {
							out[k] = f.FilterOne(in[k])
						}
					}))
				}
				return mi(), none, func() {}, mi
			}})
	}
	return ks
}

func streamC(n, seed int) []complex128 {
	s := make([]complex128, n)
	for k := range s {
		s[k] = complex(float64(int(mix(k*2+seed)%33)-16)/8, float64(int(mix(k*5+seed+1)%33)-16)/8)
	}
	return s
}

func cmpStream(what string, got, want []complex128, tol float64, real1 bool) error {
	sc := 1.0
	for k := range want {
		w := want[k]
		if real1 {
			w = complex(real(w), 0)
		}
		sc = math.Max(sc, cmplx.Abs(w))
		if d := cmplx.Abs(got[k] - w); !(d <= tol*sc) {
			return fmt.Errorf("%s: output %d is %v, want %v", what, k, got[k], w)
		}
	}
	return nil
}

func isReal(name string) bool { return name[0] != 'C' }

func iirFamilies(t mc.Tier) []*mc.Family {
	kinds := iirKinds()
	// Operation sequences over two instances built from the same coefficients.
	// op: 0..5 feed instance op/3 with chunk length op%3 (0,1,2 -> 0,1,3) with the
	// entry point and placement given by the step parity; 6 overwrite the caller's
	// slices; 7 build a third instance from the slices and forget it.
	depth := t.Pick(5, 6)
	nops := 10
	nseq := 1
	for k := 0; k < depth; k++ {
		nseq *= nops
	}
	chunks := []int{0, 1, 3}
	seqs := &mc.Family{Name: "histories", N: nseq, Run: func(c *mc.Ctx, i int) error {
		ops := make([]int, depth)
		for k := range ops {
			ops[k] = i % nops
			i /= nops
		}
		for ki := range kinds {
			kd := &kinds[ki]
			a, intact, scribble, again := kd.mk()
			if err := intact(); err != nil {
				return err
			}
			b := again()
			insts := []inst{a, b}
			var xs, ys [2][]complex128
			scribbled := false
			for step, op := range ops {
				switch {
				case op < 6 || op >= 8:
					w, l, e := op/3, chunks[op%3], 0
					if op >= 8 {
						w, l, e = op-8, 2, 1
					}
					in := streamC(l, step*17+op)
					e += step
					y, err := insts[w].feed(e, in, (step+op)%2 == 0)
					if err != nil {
						return fmt.Errorf("%s, operations %v: %w", kd.name, ops, err)
					}
					c.Transitions++
					xs[w] = append(xs[w], in...)
					ys[w] = append(ys[w], y...)
				case op == 6:
					scribble()
					scribbled = true
				case op == 7:
					if !scribbled {
						again().feed(0, streamC(3, 1), false)
					}
				}
			}
			if !scribbled {
				if err := intact(); err != nil {
					return fmt.Errorf("operations %v: %w", ops, err)
				}
			}
			for w := range xs {
				if isReal(kd.name) {
					for k := range xs[w] {
						xs[w][k] = complex(real(xs[w][k]), 0)
					}
				}
				if err := cmpStream(fmt.Sprintf("%s instance %d after operations %v (0-2/3-5: feed 0,1,3 samples to instance 0/1, 8/9: feed 2 samples by the other entry point, 6: overwrite the caller's coefficient slices, 7: build another)", kd.name, w, ops), ys[w], refFilter(kd.b, kd.a, xs[w]), kd.tol, isReal(kd.name)); err != nil {
					return mc.V("history", "%v", err)
				}
			}
			c.Evals++
			c.Traces++
			c.States++
		}
		if c.WantSample() {
			c.Sample("operations %v on every filter type", ops)
		}
		return nil
	}}
	CL := t.Pick(12, 15)
	comps := &mc.Family{Name: "compositions", N: 1 << (CL - 1), Run: func(c *mc.Ctx, i int) error {
		for ki := range kinds {
			kd := &kinds[ki]
			for variant := 0; variant < 4; variant++ {
				a, _, _, _ := kd.mk()
				x := streamC(CL, i+variant)
				if isReal(kd.name) {
					for k := range x {
						x[k] = complex(real(x[k]), 0)
					}
				}
				var y []complex128
				p := 0
				for ci, l := range cuts(CL, i) {
					e := variant & 1
					if variant >= 2 {
						e = ci + variant
					}
					r, err := a.feed(e, x[p:p+l], (ci+variant)%2 == 0)
					if err != nil {
						return err
					}
					c.Transitions++
					y = append(y, r...)
					p += l
				}
				if err := cmpStream(fmt.Sprintf("%s fed in calls of %v (variant %d)", kd.name, cuts(CL, i), variant), y, refFilter(kd.b, kd.a, x), kd.tol, isReal(kd.name)); err != nil {
					return mc.V("composition", "%v", err)
				}
				c.Evals++
				c.Traces++
				c.States++
			}
		}
		return nil
	}}
	// All coefficient vectors over a small alphabet, order up to 2: pole at 0 and
	// integrators included; the same slice used for both polynomials.
	al := []float64{0, 1, -0.5, 0.25}
	lead := []float64{1, 2, -0.5}
	nb := len(al) * len(al) * len(al)
	na := len(lead) * len(al) * len(al)
	coefs := &mc.Family{Name: "coefficients", N: nb * na, Run: func(c *mc.Ctx, i int) error {
		bi, ai := i%nb, i/nb
		b := []float64{al[bi%4], al[bi/4%4], al[bi/16]}
		a := []float64{lead[ai%3], al[ai/3%4], al[ai/12]}
		x := streamC(9, i)
		xr := make([]complex128, len(x))
		for k := range x {
			xr[k] = complex(real(x[k]), 0)
		}
		for ord := 1; ord <= 3; ord++ {
			bb, aa := b[:ord:ord], a[:ord:ord]
			type r struct {
				n    string
				f    feeder
				real bool
				tol  float64
			}
			for _, q := range []r{
				{"NewIIRFilter", rF64(dsp.NewIIRFilter(append([]float64{}, bb...), append([]float64{}, aa...)).Filter), true, 1e-11},
				{"NewComplexIIRFilter", rC128(dsp.NewComplexIIRFilter(append([]float64{}, bb...), append([]float64{}, aa...)).Filter), false, 1e-11},
				{"NewComplexIIRFilter32", rC64(dsp.NewComplexIIRFilter32(conv32(bb), conv32(aa)).Filter), false, 1e-4},
			} {
				xx := x
				if q.real {
					xx = xr
				}
				y, err := q.f(xx, ord == 2)
				if err != nil {
					return err
				}
				c.Transitions++
				c.Evals++
				c.Traces++
				if err := cmpStream(fmt.Sprintf("%s(%v, %v)", q.n, bb, aa), y, refFilter(bb, aa, xx), q.tol, q.real); err != nil {
					return mc.V("coefficients", "%v", err)
				}
			}
			// one slice for both
			if aa[0] != 0 {
				s := append([]float64{}, aa...)
				y, err := rF64(dsp.NewIIRFilter(s, s).Filter)(xr, false)
				if err != nil {
					return err
				}
				if err := cmpStream(fmt.Sprintf("NewIIRFilter(s, s) with s=%v", aa), y, refFilter(aa, aa, xr), 1e-11, true); err != nil {
					return mc.V("shared-slice", "%v", err)
				}
				c.Evals++
			}
		}
		c.States++
		return nil
	}}
	long := &mc.Family{Name: "long-streams", N: t.Pick(120, 500), Run: func(c *mc.Ctx, i int) error {
		n := 1000
		for ki := range kinds {
			kd := &kinds[ki]
			if kd.tol > 1e-5 && kd.name[0] == 'C' && i%4 != 0 {
				continue
			}
			a, _, _, _ := kd.mk()
			x := streamC(n, i)
			if isReal(kd.name) {
				for k := range x {
					x[k] = complex(real(x[k]), 0)
				}
			}
			var y []complex128
			for p := 0; p < n; {
				l := i + 1
				if p+l > n {
					l = n - p
				}
				r, err := a.feed(p, x[p:p+l], p%2 == 0)
				if err != nil {
					return err
				}
				c.Transitions++
				y = append(y, r...)
				p += l
			}
			if err := cmpStream(fmt.Sprintf("%s fed %d samples in calls of %d", kd.name, n, i+1), y, refFilter(kd.b, kd.a, x), kd.tol*20, isReal(kd.name)); err != nil {
				return mc.V("long", "%v", err)
			}
			c.Evals++
			c.Traces++
		}
		c.States++
		return nil
	}}
	large := &mc.Family{Name: "large-calls", N: len(bigChunks) * len(kinds), Run: func(c *mc.Ctx, i int) error {
		kd := &kinds[i%len(kinds)]
		for pat := 0; pat < 5; pat++ {
			lens := callPattern(bigChunks[i/len(kinds)], pat)
			n := total(lens)
			if n > t.Pick(20000, 300000) {
				continue
			}
			a, _, _, _ := kd.mk()
			x := streamC(n, i+pat)
			if isReal(kd.name) {
				for k := range x {
					x[k] = complex(real(x[k]), 0)
				}
			}
			var y []complex128
			p := 0
			for k, l := range lens {
				r, err := a.feed(p, x[p:p+l], (k+pat)%2 == 0)
				if err != nil {
					return err
				}
				c.Transitions++
				y = append(y, r...)
				p += l
			}
			if err := cmpStream(fmt.Sprintf("%s fed %d samples in calls of %v", kd.name, n, lens), y, refFilter(kd.b, kd.a, x), kd.tol*20, isReal(kd.name)); err != nil {
				return mc.V("large", "%v", err)
			}
			c.Evals++
			c.Traces++
			c.States++
		}
		return nil
	}}
	// The filters are linear: streams scaled by any power of two, down to and up to
	// where the sample type ends, give the scaled output.
	scales := &mc.Family{Name: "scales", N: 24 * len(kinds), Run: func(c *mc.Ctx, i int) error {
		kd := &kinds[i%len(kinds)]
		i /= len(kinds)
		for _, e := range scaleExps(kd.tol < 1e-9) {
			a, _, _, _ := kd.mk()
			x := streamC(48, i)
			for k := range x {
				if i%3 == 1 && k != 2 {
					x[k] = 0 // an impulse
				}
				if i%3 == 2 && k > 16 {
					x[k] = 0 // silence after a while
				}
				if isReal(kd.name) {
					x[k] = complex(real(x[k]), 0)
				}
			}
			l := []int{1, 3, 7, 48}[i/3%4]
			var y []complex128
			for p := 0; p < len(x); p += l {
				in := append([]complex128(nil), x[p:min(p+l, len(x))]...)
				for k := range in {
					in[k] = scaleC(in[k], e)
				}
				r, err := a.feed(i/12+p, in, i%2 == 0)
				if err != nil {
					return err
				}
				c.Transitions++
				for _, v := range r {
					y = append(y, scaleC(v, -e))
				}
			}
			if err := cmpStream(fmt.Sprintf("%s fed a stream times 2^%d, outputs divided by it", kd.name, e), y, refFilter(kd.b, kd.a, x), kd.tol*20, isReal(kd.name)); err != nil {
				return mc.V("scale", "%v", err)
			}
			c.Evals++
			c.Traces++
			c.States++
		}
		return nil
	}}
	// Every order, fed in calls shorter and longer than it.
	orders := &mc.Family{Name: "orders", N: t.Pick(90, 300), Run: func(c *mc.Ctx, i int) error {
		n := i + 1
		b, a := make([]float64, n), make([]float64, n)
		for k := range b {
			b[k] = float64(int(mix(k+n*3)%17)-8) / 8
			a[k] = float64(int(mix(k*3+n)%17)-8) / 16 / float64(n)
		}
		a[0] = 2
		x := streamC(3*n+20, n)
		xr := make([]complex128, len(x))
		for k := range x {
			xr[k] = complex(real(x[k]), 0)
		}
		for kind := 0; kind < 3; kind++ {
			for _, l := range []int{1, 2, n - 1, n, n + 1, len(x)} {
				if l < 1 {
					continue
				}
				var f feeder
				name, xx, tol := "IIRFilter", x, 1e-11
				switch kind {
				case 0:
					f, xx = rF64(dsp.NewIIRFilter(append([]float64{}, b...), append([]float64{}, a...)).Filter), xr
				case 1:
					f, name = rC128(dsp.NewComplexIIRFilter(append([]float64{}, b...), append([]float64{}, a...)).Filter), "ComplexIIRFilter"
				case 2:
					f, name, tol = rC64(dsp.NewComplexIIRFilter32(conv32(b), conv32(a)).Filter), "ComplexIIRFilter32", 1e-4
				}
				var y []complex128
				for p := 0; p < len(x); p += l {
					r, err := f(xx[p:min(p+l, len(x))], (p+l)%2 == 0)
					if err != nil {
						return err
					}
					c.Transitions++
					y = append(y, r...)
				}
				if err := cmpStream(fmt.Sprintf("%s of %d coefficients, calls of %d", name, n, l), y, refFilter(b, a, xx), tol, kind == 0); err != nil {
					return mc.V("order", "%v", err)
				}
				c.Evals++
				c.Traces++
				c.States++
			}
		}
		return nil
	}}
	// Poles close to the unit circle: whatever is lost of the state between two
	// samples or calls is amplified. The tolerance is the bound on the rounding
	// errors of double precision: the sum of the response of the poles times the
	// roundings of one step.
	const RR, RT = 12, 12
	resonant := &mc.Family{Name: "resonant", N: RR * RT * 2, Run: func(c *mc.Ctx, i int) error {
		r := 1 - math.Ldexp(1, -(i%RR)-2)
		th := math.Pi * math.Ldexp(1, -(i/RR%RT)) * 0.93
		b, a := []float64{0.5, 0.25, -1}, []float64{1, -2 * r * math.Cos(th), r * r}
		if i/RR/RT == 1 {
			b, a = []float64{1, -1, 0}, []float64{1, -r, 0} // a single pole
		}
		n := t.Pick(3000, 20000)
		imp := make([]complex128, n)
		imp[0] = 1
		G := 0.0
		for _, h := range refFilter([]float64{1, 0, 0}, a, imp) {
			G += cmplx.Abs(h)
		}
		x := streamC(n, i)
		for k := range x {
			x[k] = complex(real(x[k]), 0)
		}
		want := refFilter(b, a, x)
		sc := 1.0
		for _, w := range want {
			sc = math.Max(sc, cmplx.Abs(w))
		}
		mk := func() (*dsp.BiQuadFilter, *dsp.IIRFilter, *dsp.ComplexIIRFilter) {
			return &dsp.BiQuadFilter{B0: b[0], B1: b[1], B2: b[2], A0: a[0], A1: a[1], A2: a[2]}, dsp.NewIIRFilter(b, a), dsp.NewComplexIIRFilter(b, a)
		}
		for kind := 0; kind < 5; kind++ {
			for _, l := range []int{1, 2, 7, 256, n} {
				bq, iir, ci := mk()
				fs, name := []feeder{rF64(bq.Filter)}, "BiQuadFilter.Filter"
				half := 0.0
				switch kind {
				case 1:
					fs, name, half = []feeder{rF32(bq.FilterF32)}, "BiQuadFilter.FilterF32", 6e-8
				case 2:
					fs, name, half = []feeder{rF32(bq.FilterF32), rF64(bq.Filter)}, "BiQuadFilter.FilterF32 and Filter in turn", 6e-8
				case 3:
					fs, name = []feeder{rF64(iir.Filter)}, "IIRFilter"
				case 4:
					fs, name = []feeder{rC128(ci.Filter)}, "ComplexIIRFilter"
				}
				at := 0
				for p, q := 0, 0; p < n; p, q = p+l, q+1 {
					y, err := fs[q%len(fs)](append([]complex128(nil), x[p:min(p+l, n)]...), q%2 == 0)
					if err != nil {
						return err
					}
					for _, v := range y {
						w := want[at]
						if d := cmplx.Abs(v - w); !(d <= 64*1.2e-16*G*sc+half*cmplx.Abs(w)*1.01) {
							return mc.V("resonant", "%s with b=%v a=%v fed in calls of %d: output %d is %v, want %v", name, b, a, l, at, v, w)
						}
						at++
					}
					c.Transitions++
				}
				c.Evals++
				c.Nontrivial++
				c.Traces++
				c.States++
			}
		}
		return nil
	}}
	return []*mc.Family{seqs, comps, coefs, scales, orders, resonant, long, large}
}

// scaleExps are the exponents of two by which streams are scaled.
func scaleExps(wide bool) []int {
	e := []int{-100, -80, -60, -50, -40, -30, -20, -10, 10, 20, 40, 60, 80, 100}
	if wide {
		e = append(e, -950, -700, -300, -150, 150, 300, 700, 950)
	}
	return e
}

func scaleC(v complex128, e int) complex128 {
	return complex(math.Ldexp(real(v), e), math.Ldexp(imag(v), e))
}

// ---- Goertzel ----

// gdet is one Goertzel detector of any of the three types.
type gdet struct {
	name    string
	f32     bool
	cplx    bool
	feed    func([]complex128) error
	reset   func()
	complex func() []complex128
	mag     func() []float64
}

func mkGoertzel(kind int, freqs []uint64, rate, block int) *gdet {
	switch kind {
	case 0:
		g := dsp.NewGoertzel(freqs, rate, block)
		return &gdet{name: "Goertzel", reset: g.Reset, mag: g.Magnitude, complex: g.Complex, feed: func(s []complex128) error {
			_, err := rF64(func(in, _ []float64) { g.Feed(in) })(s, false)
			return err
		}}
	case 1:
		g := dsp.NewGoertzel32(freqs, rate, block)
		return &gdet{name: "Goertzel32", f32: true, reset: g.Reset, mag: func() []float64 {
			r := make([]float64, len(freqs))
			for k, v := range g.Magnitude() {
				r[k] = float64(v)
			}
			return r
		}, complex: func() []complex128 {
			r := make([]complex128, len(freqs))
			for k, v := range g.Complex() {
				r[k] = complex128(v)
			}
			return r
		}, feed: func(s []complex128) error {
			_, err := rF32(func(in, _ []float32) { g.Feed(in) })(s, false)
			return err
		}}
	default:
		g := dsp.NewComplexGoertzel(freqs, rate, block)
		return &gdet{name: "ComplexGoertzel", cplx: true, reset: g.Reset, mag: g.Magnitude, complex: g.Complex, feed: func(s []complex128) error {
			_, err := rC128(func(in, _ []complex128) { g.Feed(in) })(s, false)
			return err
		}}
	}
}

// bins returns the acceptable nearest bins of f.
func bins(f uint64, rate, block int) []uint64 {
	num := uint64(block) * f
	r := uint64(rate)
	k := num / r
	rem := num % r
	switch {
	case 2*rem < r:
		return []uint64{k}
	case 2*rem > r:
		return []uint64{k + 1}
	}
	return []uint64{k, k + 1}
}

func dft(x []complex128, k uint64, n int) complex128 {
	var s complex128
	for m, v := range x {
		ph := (uint64(m) * k) % uint64(n)
		s += v * cmplx.Exp(complex(0, -2*math.Pi*float64(ph)/float64(n)))
	}
	return s
}

// verify compares the detector with the DFT of x, which may be shorter than the
// block (then only the magnitude is defined: zero padding) or a multiple of it.
func (g *gdet) verify(c *mc.Ctx, what string, x []complex128, freqs []uint64, rate, block int) error {
	var l1 float64
	xs := make([]complex128, len(x))
	for k, v := range x {
		if !g.cplx {
			v = complex(real(v), 0)
		}
		if g.f32 {
			v = complex(float64(float32(real(v))), 0)
		}
		xs[k] = v
		l1 += cmplx.Abs(v)
	}
	rel := 1e-13 * float64(block+8) * float64(block+8)
	if g.f32 {
		rel += 2e-6
	}
	tol := rel * l1
	z := g.complex()
	m := g.mag()
	if len(z) != len(freqs) || len(m) != len(freqs) {
		return mc.V("count", "%s: %d complex and %d magnitude results for %d frequencies", g.name, len(z), len(m), len(freqs))
	}
	for fi, f := range freqs {
		ok := false
		var want complex128
		for _, k := range bins(f, rate, block) {
			want = dft(xs, k, block)
			a := cmplx.Abs(want)
			// the state is at most q, the squared magnitude is a difference of its squares
			q := l1 * math.Min(float64(block+len(x)), 1.1/math.Abs(math.Sin(2*math.Pi*float64(k%uint64(block))/float64(block))))
			if math.Abs(m[fi]-a*a) <= 2*tol*(a+tol)+1e-14*q*q && (len(x)%block != 0 || cmplx.Abs(z[fi]-want) <= tol) {
				ok = true
				break
			}
		}
		if !ok {
			return mc.V("value", "%s rate %d block %d frequency %d, %s: complex %v magnitude %v, want %v and %v", g.name, rate, block, f, what, z[fi], m[fi], want, real(want)*real(want)+imag(want)*imag(want))
		}
	}
	return nil
}

func goertzelFamilies(t mc.Tier) []*mc.Family {
	// Geometry: every block length and every bin, plus off-bin frequencies.
	NB := t.Pick(80, 200)
	geo := &mc.Family{Name: "bins", N: NB * 3, Run: func(c *mc.Ctx, i int) error {
		kind, n := i%3, i/3+1
		rate := 1000 * n
		var freqs []uint64
		for k := 0; k <= n+1; k++ {
			freqs = append(freqs, uint64(1000*k), uint64(1000*k+499), uint64(1000*k+501))
		}
		for pat := 0; pat < 4; pat++ {
			x := streamC(n, n*7+pat)
			switch pat {
			case 1: // impulse
				for k := range x {
					x[k] = 0
				}
				x[n/2] = complex(1.5, -0.75)
			case 2: // constant
				for k := range x {
					x[k] = complex(1, 0.5)
				}
			case 3: // tone
				for k := range x {
					x[k] = cmplx.Rect(1, 2*math.Pi*float64(k)*float64(n/3)/float64(n)+0.3)
				}
			}
			g := mkGoertzel(kind, freqs, rate, n)
			if err := g.feed(x); err != nil {
				return err
			}
			c.Evals++
			c.Transitions++
			c.Traces++
			c.States++
			if err := g.verify(c, fmt.Sprintf("pattern %d in one call", pat), x, freqs, rate, n); err != nil {
				return err
			}
		}
		return nil
	}}
	rates := []int{1, 7, 8000, 11025, 22050, 44100, 48000, 65536, 192000, 2048000}
	blocks := []int{1, 2, 3, 8, 102, 205, 256, 411, 1000}
	grid := &mc.Family{Name: "rates", N: len(rates) * len(blocks) * 3, Run: func(c *mc.Ctx, i int) error {
		kind := i % 3
		i /= 3
		rate, n := rates[i%len(rates)], blocks[i/len(rates)]
		var freqs []uint64
		for _, f := range []uint64{0, 1, 50, 697, 770, 852, 941, 1209, 1336, 1477, 1633, 3999, 4000, 7999, 8000, 19000, 44100, uint64(rate), uint64(rate / 2), uint64(rate / 3), uint64(rate)*3 + 1} {
			if f <= 4*uint64(rate) { // beyond, rounding of the angle itself shows
				freqs = append(freqs, f)
			}
		}
		x := streamC(n, i)
		g := mkGoertzel(kind, freqs, rate, n)
		if err := g.feed(x); err != nil {
			return err
		}
		c.Evals++
		c.Transitions++
		c.Traces++
		c.States++
		return g.verify(c, "in one call", x, freqs, rate, n)
	}}
	// Histories: every operation sequence over {feed 0/1/2/3/rest, read, reset}.
	depth := t.Pick(7, 9)
	const nops = 6
	nseq := 1
	for k := 0; k < depth; k++ {
		nseq *= nops
	}
	hist := &mc.Family{Name: "histories", N: nseq, Run: func(c *mc.Ctx, i int) error {
		ops := make([]int, depth)
		for k := range ops {
			ops[k] = i % nops
			i /= nops
		}
		for kind := 0; kind < 3; kind++ {
			for _, n := range []int{4, 5} {
				freqs := []uint64{0, 100, 200, 333, 470, 510, 990}
				rate := 1000
				g := mkGoertzel(kind, freqs, rate, n)
				other := mkGoertzel(kind, freqs, rate, n)
				var cur, oth []complex128
				for step, op := range ops {
					switch op {
					case 0, 1, 2:
						in := streamC([]int{0, 1, 2}[op], step*13+op)
						if err := g.feed(in); err != nil {
							return err
						}
						c.Transitions++
						cur = append(cur, in...)
					case 3: // fill up to the end of a block
						in := streamC((n-len(cur)%n)%n, step*13+op)
						if err := g.feed(in); err != nil {
							return err
						}
						c.Transitions++
						cur = append(cur, in...)
						in = streamC(1, step)
						other.feed(in)
						oth = append(oth, in...)
					case 4:
						if err := g.verify(c, fmt.Sprintf("operations %v (0-2 feed that many, 3 fill the block, 4 read, 5 reset), step %d", ops, step), cur, freqs, rate, n); err != nil {
							return err
						}
					case 5:
						g.reset()
						cur = nil
					}
				}
				in := streamC((n-len(cur)%n)%n, 99)
				g.feed(in)
				cur = append(cur, in...)
				for r := 0; r < 2; r++ {
					if err := g.verify(c, fmt.Sprintf("operations %v (0-2 feed that many, 3 fill the block, 4 read, 5 reset), then the block filled, read %d", ops, r), cur, freqs, rate, n); err != nil {
						return err
					}
				}
				if err := other.verify(c, "second instance", oth, freqs, rate, n); err != nil {
					return err
				}
				c.Evals++
				c.Traces++
				c.States++
			}
		}
		if c.WantSample() {
			c.Sample("operations %v on all three detectors, blocks of 4 and 5", ops)
		}
		return nil
	}}
	CL := t.Pick(13, 17)
	comp := &mc.Family{Name: "compositions", N: 1 << (CL - 1), Run: func(c *mc.Ctx, i int) error {
		for kind := 0; kind < 3; kind++ {
			freqs := []uint64{0, 90, 181, 272, 500, 731, 909}
			g := mkGoertzel(kind, freqs, 1000, CL)
			for round := 0; round < 2; round++ {
				x := streamC(CL, i+round)
				p := 0
				for ci, l := range cuts(CL, i) {
					if err := g.feed(x[p : p+l]); err != nil {
						return err
					}
					c.Transitions++
					if (i+ci)%3 == 0 {
						g.mag()
						g.complex()
					}
					p += l
				}
				if err := g.verify(c, fmt.Sprintf("fed in calls of %v, round %d", cuts(CL, i), round), x, freqs, 1000, CL); err != nil {
					return err
				}
				g.reset()
				c.Evals++
				c.Traces++
				c.States++
			}
		}
		return nil
	}}
	// Larger blocks, fed in calls of every kind of length, many blocks in a row.
	lb := []int{100, 205, 256, 1024, 2000}
	large := &mc.Family{Name: "call-lengths", N: len(lb) * 3 * 40, Run: func(c *mc.Ctx, i int) error {
		kind, n := i%3, lb[i/3%len(lb)]
		k := i / 3 / len(lb)
		l := k + 1
		if k >= 20 {
			l = []int{31, 32, 33, 63, 64, 65, 100, 127, 128, 129, 200, 255, 256, 257, 500, 512, 999, 1000, 1024, 2000}[k-20]
		}
		if l > n {
			return nil
		}
		freqs := []uint64{0, 90, 181, 272, 500, 731, 909}
		g := mkGoertzel(kind, freqs, 1000, n)
		for round := 0; round < 3; round++ {
			x := streamC(n, i+round)
			for p := 0; p < n; p += l {
				if err := g.feed(x[p:min(p+l, n)]); err != nil {
					return err
				}
				c.Transitions++
			}
			c.Evals++
			c.Traces++
			c.States++
			if err := g.verify(c, fmt.Sprintf("fed in calls of %d, round %d", l, round), x, freqs, 1000, n); err != nil {
				return err
			}
			g.reset()
		}
		return nil
	}}
	many := &mc.Family{Name: "many-blocks", N: 9, Run: func(c *mc.Ctx, i int) error {
		freqs := []uint64{0, 90, 272, 909}
		n := []int{1, 3, 8}[i/3]
		g := mkGoertzel(i%3, freqs, 1000, n)
		for round := 0; round < t.Pick(70000, 300000); round++ {
			x := streamC(n, round)
			if err := g.feed(x); err != nil {
				return err
			}
			c.Transitions++
			c.States++
			if round%7 == 0 || round < 1000 {
				if err := g.verify(c, fmt.Sprintf("block %d since the beginning", round), x, freqs, 1000, n); err != nil {
					return err
				}
			}
			g.reset()
		}
		c.Evals++
		c.Traces++
		return nil
	}}
	// A reset forgets everything, also samples without a meaningful result.
	bad := []complex128{complex(math.NaN(), 0), complex(math.Inf(1), 1), complex(1, math.Inf(-1)), complex(1e30, -1e30), complex(3e38, 3e38)}
	reset := &mc.Family{Name: "reset-after-meaningless-samples", N: 3 * len(bad) * 20, Run: func(c *mc.Ctx, i int) error {
		kind, z := i%3, bad[i/3%len(bad)]
		fed := i / 3 / len(bad)
		freqs := []uint64{0, 90, 181, 272, 500, 731, 909}
		for _, n := range []int{4, 5, 8} {
			for read := 0; read < 2; read++ {
				g := mkGoertzel(kind, freqs, 1000, n)
				for k := 0; k < fed; k++ {
					x := streamC(1, k)
					if k == fed/2 {
						x[0] = z
					}
					g.feed(x)
				}
				if read == 1 {
					g.complex()
					g.mag()
				}
				g.reset()
				x := streamC(n, i)
				if err := g.feed(x); err != nil {
					return err
				}
				c.Evals++
				c.Transitions++
				c.Traces++
				c.States++
				if err := g.verify(c, fmt.Sprintf("after %d samples with %v among them and a reset", fed, z), x, freqs, 1000, n); err != nil {
					return err
				}
			}
		}
		return nil
	}}
	// The detectors are linear, the magnitude quadratic: scaled blocks, one after
	// another with a reset between them.
	scales := &mc.Family{Name: "scales", N: 3 * 40, Run: func(c *mc.Ctx, i int) error {
		kind, n := i%3, []int{1, 2, 3, 5, 8, 16, 50, 205}[i/3%8]
		i /= 24
		freqs := []uint64{0, 90, 181, 272, 500, 731, 909}
		g := mkGoertzel(kind, freqs, 1000, n)
		exps := []int{-44, -36, -30, -20, -10, 10, 20, 30, 40}
		if kind != 1 {
			exps = append(exps, -450, -300, -100, -60, 60, 100, 300, 450)
		}
		for k := range exps {
			e := exps[(k*7+i)%len(exps)]
			x := streamC(n, i+k)
			for j := range x {
				x[j] = scaleC(x[j], e)
				if i == 4 && j != n/2 {
					x[j] = 0
				}
			}
			if err := g.feed(x); err != nil {
				return err
			}
			c.Evals++
			c.Transitions++
			c.Traces++
			c.States++
			if err := g.verify(c, fmt.Sprintf("a block times 2^%d", e), x, freqs, 1000, n); err != nil {
				return err
			}
			g.reset()
		}
		return nil
	}}
	return []*mc.Family{geo, grid, hist, comp, reset, large, many, scales}
}

// ---- sliding DFT ----

func sdftFamilies(t mc.Tier) []*mc.Family {
	wins := [][]float64{nil, {1}, {2.5}, {1, 1}, {-0.25, 0.5, -0.25}, dsp.HammingFreqCoeff, dsp.BlackmanFreqCoeff, {1, 2, 3, 4}, {0, 0, 1, 0, 0, 0, -2}}
	N := t.Pick(33, 65)
	type geo struct{ n, k, w int }
	var gs []geo
	for n := 1; n <= N; n++ {
		for k := 0; k < n; k++ {
			for w := range wins {
				gs = append(gs, geo{n, k, w})
			}
		}
	}
	for _, n := range []int{50, 64, 100, 129, 256, 400} {
		for k := 0; k < n; k += 1 + n/130*7 {
			gs = append(gs, geo{n, k, (k * 5) % len(wins)})
		}
	}
	run := func(c *mc.Ctx, g geo, x []complex128) error {
		win := wins[g.w]
		var w64 []float64
		var w32 []float32
		for _, v := range win {
			w64 = append(w64, v)
			w32 = append(w32, float32(v))
		}
		s64 := dsp.NewSDFT(g.k, g.n, w64)
		s32 := dsp.NewSDFT32(g.k, g.n, w32)
		for k := range w64 {
			if w64[k] != win[k] || w32[k] != float32(win[k]) {
				return mc.V("caller-window", "the constructor changed the caller's window")
			}
			w64[k], w32[k] = 77, 77 // must not matter any more
		}
		ws := win
		if len(ws) == 0 {
			ws = []float64{1}
		}
		var wsum float64
		for _, v := range ws {
			wsum += math.Abs(v)
		}
		amp := 0.0
		for m := range x {
			amp = math.Max(amp, cmplx.Abs(x[m]))
			var want complex128
			for i, wv := range ws {
				bin := (((g.k - len(ws)/2 + i) % g.n) + g.n) % g.n
				var z complex128
				for q := 0; q < g.n; q++ {
					if j := m - g.n + 1 + q; j >= 0 {
						z += x[j] * cmplx.Exp(complex(0, -2*math.Pi*float64(bin*q%g.n)/float64(g.n)))
					}
				}
				want += complex(wv, 0) * z
			}
			sc := amp * wsum * float64(g.n) * float64(m+4)
			if y := s64.Filter(x[m]); !(cmplx.Abs(y-want) <= 1e-14*sc) {
				return mc.V("value64", "SDFT k=%d n=%d window %v: after sample %d of %v: %v, want %v", g.k, g.n, ws, m, x, y, want)
			}
			if amp > 1e33 || amp > 0 && amp < 1e-33 {
				c.Transitions++
				continue // beyond float32
			}
			if y := s32.Filter(complex64(x[m])); !(cmplx.Abs(complex128(y)-want) <= 1e-6*sc) {
				return mc.V("value32", "SDFT32 k=%d n=%d window %v: after sample %d of %v: %v, want %v", g.k, g.n, ws, m, x, y, want)
			}
			c.Transitions += 2
			c.States++
		}
		c.Evals++
		c.Traces++
		return nil
	}
	all := &mc.Family{Name: "geometry", N: len(gs), Run: func(c *mc.Ctx, i int) error {
		g := gs[i]
		// impulse then silence, constant, pseudo-random
		L := 3*g.n + 5
		for pat := 0; pat < 3; pat++ {
			x := streamC(L, i*3+pat)
			for k := range x {
				switch pat {
				case 1:
					x[k] = 0
					if k == 1 {
						x[k] = complex(1, -2)
					}
				case 2:
					x[k] = complex(2, 1)
				}
			}
			if err := run(c, g, x); err != nil {
				return err
			}
		}
		if c.WantSample() {
			c.Sample("n=%d k=%d window %v, three streams of %d samples", g.n, g.k, wins[g.w], L)
		}
		return nil
	}}
	// All input sequences over a small alphabet for small n.
	al := []complex128{0, 1, -1, complex(0.5, -2)}
	L := t.Pick(8, 10)
	ns := 1
	for k := 0; k < L; k++ {
		ns *= len(al)
	}
	seq := &mc.Family{Name: "sequences", N: ns, Run: func(c *mc.Ctx, i int) error {
		x := make([]complex128, L)
		for k := range x {
			x[k] = al[i%len(al)]
			i /= len(al)
		}
		for n := 1; n <= 4; n++ {
			for k := 0; k < n; k++ {
				for w := 0; w < 5; w++ {
					if err := run(c, geo{n, k, w}, x); err != nil {
						return err
					}
				}
			}
		}
		return nil
	}}
	// Long streams: the history wraps thousands of times.
	ln := []geo{{1, 0, 0}, {2, 1, 4}, {3, 1, 6}, {7, 3, 5}, {16, 5, 4}, {17, 16, 7}, {64, 0, 5}, {100, 99, 3}}
	long := &mc.Family{Name: "long-streams", N: len(ln), Run: func(c *mc.Ctx, i int) error {
		return run(c, ln[i], streamC(t.Pick(20000, 200000), i))
	}}
	scaled := &mc.Family{Name: "scales", N: t.Pick(20, 40) * len(wins), Run: func(c *mc.Ctx, i int) error {
		n, w := i/len(wins)+1, i%len(wins)
		for _, e := range scaleExps(true) {
			for k := 0; k < n; k += 1 + n/5 {
				x := streamC(2*n+4, i+k)
				for j := range x {
					x[j] = scaleC(x[j], e)
				}
				if err := run(c, geo{n, k, w}, x); err != nil {
					return err
				}
			}
		}
		return nil
	}}
	// Lengths of history up to and beyond what sixteen bits count, impulses at the
	// ends of the history and around powers of two.
	big := []int{1000, 4096, 32767, 32768, 32769, 65535, 65536, 65537, 70001}
	if t.Thorough {
		big = append(big, 131071, 131072, 131073, 200000, 1<<20+1)
	}
	huge := &mc.Family{Name: "long-histories", N: len(big) * 3, Run: func(c *mc.Ctx, i int) error {
		n, v := big[i/3], i%3
		k := []int{1, n / 3, n - 1}[v]
		win := wins[[]int{0, 4, 5}[v]]
		var w64 []float64
		var w32 []float32
		for _, x := range win {
			w64, w32 = append(w64, x), append(w32, float32(x))
		}
		s64, s32 := dsp.NewSDFT(k, n, w64), dsp.NewSDFT32(k, n, w32)
		ws := win
		if len(ws) == 0 {
			ws = []float64{1}
		}
		at := []int{0, 1, 7, 255, 256, 4095, 32767, 32768, 65534, 65535, 65536, 65537, n / 2, n - 1, n, n + 3, n + 65536}
		var pos []int
		for _, p := range at {
			dup := p < 0 || p >= 2*n+9
			for _, q := range pos {
				dup = dup || p == q
			}
			if !dup {
				pos = append(pos, p)
			}
		}
		amp := map[int]complex128{}
		for j, p := range pos {
			amp[p] = complex(float64(j%5)-2.5, float64(j%3)-1)
		}
		for m := 0; m < 2*n+9; m++ {
			y, z := s64.Filter(amp[m]), s32.Filter(complex64(amp[m]))
			c.Transitions += 2
			c.States++
			near := m < 64 || m%997 == 0
			for _, p := range pos {
				d := m - p
				near = near || d >= -1 && d <= 2 || d >= n-2 && d <= n+2
			}
			if !near {
				continue
			}
			var want complex128
			for j, wv := range ws {
				bin := (((k - len(ws)/2 + j) % n) + n) % n
				for _, p := range pos {
					if q := p - (m - n + 1); q >= 0 && p <= m {
						ph := float64(uint64(bin)*uint64(q)%uint64(n)) / float64(n)
						want += complex(wv, 0) * amp[p] * cmplx.Exp(complex(0, -2*math.Pi*ph))
					}
				}
			}
			if !(cmplx.Abs(y-want) <= 1e-13*float64(m+4)) {
				return mc.V("value64", "SDFT k=%d n=%d window %v, impulses at %v: after sample %d %v, want %v", k, n, ws, pos, m, y, want)
			}
			if !(cmplx.Abs(complex128(z)-want) <= 1e-5*(4+float64(m))) {
				return mc.V("value32", "SDFT32 k=%d n=%d window %v, impulses at %v: after sample %d %v, want %v", k, n, ws, pos, m, z, want)
			}
		}
		c.Evals++
		c.Traces++
		return nil
	}}
	return []*mc.Family{all, long, seq, scaled, huge}
}
