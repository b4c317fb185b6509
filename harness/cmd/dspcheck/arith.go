package main

import (
	"math"

	"github.com/samuel/go-dsp/dsp"
	"verif/harness/mc"
	"verif/harness/mem"
)

func init() {
	mc.Register(&mc.Check{ID: "C04", Level: "exploration", Rule: shapeRule + " Aliasing families: output is the very same slice as an input.",
		Assumptions: []string{"complex products and magnitudes are compared within 1e-6 relative to the modulus, everything else bit for bit", "partially overlapping slices are not covered"},
		Families: func(t mc.Tier) []*mc.Family {
			fams := aliasFamilies(t)
			fams = append(fams, arithValueFamilies(t)...)
			fams = append(fams, mulTriples(t)...)
			return append(fams, shapeFamilies(t, arithNames, judgeValues)...)
		}})
	mc.Register(&mc.Check{ID: "C05", Level: "exploration",
		Rule:        "every (length, position of the extreme, start alignment, dispatch configuration, sign pattern) is one evaluation; plus every tuple over a small alphabet for short lengths. Non-trivial when the slice has at least two different values. All distinct by construction.",
		Assumptions: []string{"no NaN among the samples"},
		Families:    maxFamilies})
}

// aliasFamilies: the output is the very slice of an input.
func aliasFamilies(t mc.Tier) []*mc.Family {
	var list []*op
	for _, o := range ops {
		if o.same {
			list = append(list, o)
		}
	}
	maxLen := t.Pick(140, 300)
	return eachConfig("alias", len(list)*(maxLen+1), func(c *mc.Ctx, i int) error {
		o := list[i%len(list)]
		n := i / len(list)
		a, m := mem.New(8192), mem.New(8192)
		defer a.Free()
		defer m.Free()
		for off := 0; off < 32; off += step(o.outAlign()) {
			for _, kind := range []string{"in=out", "in=out=mul", "out=mul"} {
				if kind != "in=out" && o.mulE != o.inE {
					continue
				}
				sc := o.scales[(n+off)%len(o.scales)]
				repair(a, m)
				setOperand(a, base+off, n*o.inE, fillF32, n+off)
				setOperand(m, base, n*o.inE, fillF32, n+7)
				nb := n * o.outE
				// expectation from disjoint copies
				x := append([]byte{}, a.Data[base+off:base+off+nb]...)
				want := append([]byte{}, x...)
				other := append([]byte{}, m.Data[base:base+n*max(o.mulE, 1)]...)
				same := vw{a: a, off: base + off, n: n}
				switch kind {
				case "in=out":
					o.ref(x, want, other, n, sc)
					o.call(same, same, vw{a: m, off: base, n: n}, sc)
				case "in=out=mul":
					o.ref(x, want, x, n, sc)
					o.call(same, same, same, sc)
				case "out=mul":
					inb := append([]byte{}, m.Data[base:base+n*o.inE]...)
					o.ref(inb, want, x, n, sc)
					o.call(vw{a: m, off: base, n: n}, same, same, sc)
				}
				got := a.Data[base+off : base+off+nb]
				ok := firstDiff(got, want) < 0
				if o.approx != nil {
					ok = o.approx(got, want)
				}
				c.Evals++
				if n > 0 {
					c.Nontrivial++
				}
				if !ok {
					return mc.V("alias:"+o.name, "%s with %s, length %d, start +%d, scale %g: result differs from separate slices (first byte %d)", o.name, kind, n, off, sc, firstDiff(got, want))
				}
			}
		}
		return nil
	})
}

// arithValueFamilies: an alphabet of special values pairwise in every lane.
func arithValueFamilies(t mc.Tier) []*mc.Family {
	alpha := []float32{0, float32(math.Copysign(0, -1)), 1, -1, 0.5, -3.25, 1e-45, -1e-45, 1.17549435e-38, 3.4e38, -3.4e38, float32(math.Inf(1)), float32(math.Inf(-1)), 16777216, 16777215, 1e10, 1.0000001}
	na := len(alpha)
	fams := eachConfig("special", na*na, func(c *mc.Ctx, i int) error {
		x, y := alpha[i/na], alpha[i%na]
		same := func(g, w float32) bool {
			return math.Float32bits(g) == math.Float32bits(w) || (g != g && w != w)
		}
		for _, n := range []int{1, 2, 5, 17, 33, 67, 130} {
			for pos := 0; pos < n; pos++ {
				in := make([]float32, n)
				out := make([]float32, n)
				for k := range in {
					in[k], out[k] = float32(k), 2
				}
				in[pos], out[pos] = x, y
				o2 := append([]float32{}, out...)
				dsp.VAddF32(in, o2)
				if w := y + x; !same(o2[pos], w) {
					return mc.V("special:VAddF32", "VAddF32: %v + %v at %d of %d gives %v", y, x, pos, n, o2[pos])
				}
				fresh(o2)
				dsp.VScaleF32(in, o2, y)
				if w := x * y; !same(o2[pos], w) {
					return mc.V("special:VScaleF32", "VScaleF32: %v * %v at %d of %d gives %v, want %v", x, y, pos, n, o2[pos], w)
				}
				cin := make([]complex64, n)
				cout := make([]complex64, n)
				mul := make([]float32, n)
				for k := range cin {
					cin[k], mul[k] = complex(float32(k), -1), 2
				}
				cin[pos], mul[pos] = complex(x, -x), y
				dsp.VMulC64xF32(cin, cout, mul)
				if !same(real(cout[pos]), x*y) || !same(imag(cout[pos]), -x*y) {
					return mc.V("special:VMulC64xF32", "VMulC64xF32: (%v,%v)*%v at %d of %d gives %v", x, -x, y, pos, n, cout[pos])
				}
				fresh(cout)
				dsp.VScaleC64(cin, cout, y)
				if !same(real(cout[pos]), x*y) || !same(imag(cout[pos]), -x*y) {
					return mc.V("special:VScaleC64", "VScaleC64: (%v,%v)*%v at %d of %d gives %v", x, -x, y, pos, n, cout[pos])
				}
				cin[pos] = complex(x, y)
				acc := make([]complex64, n)
				acc[pos] = complex(y, x)
				dsp.VAddC64(cin, acc)
				if !same(real(acc[pos]), y+x) || !same(imag(acc[pos]), x+y) {
					return mc.V("special:VAddC64", "VAddC64: (%v,%v)+(%v,%v) at %d of %d gives %v", y, x, x, y, pos, n, acc[pos])
				}
				// magnitude, where the squares are representable
				h := math.Hypot(float64(x), float64(y))
				if (h < 1e18 && h > 1e-15 || h == 0) && tame(x) && tame(y) {
					abs := make([]float32, n)
					dsp.VAbsC64(cin, abs)
					if math.Abs(float64(abs[pos])-h) > 1e-6*h {
						return mc.V("special:VAbsC64", "VAbsC64 of (%v,%v) at %d of %d gives %v, want %v", x, y, pos, n, abs[pos], h)
					}
				}
				// complex product, finite moderate values
				if tame(x) && tame(y) {
					m := make([]complex64, n)
					for k := range m {
						m[k] = complex(1, 1)
					}
					m[pos] = complex(-y, x)
					fresh(cout)
					dsp.VMulC64(cin, cout, m)
					wr := -float64(x)*float64(y) - float64(y)*float64(x)
					wi := float64(x)*float64(x) - float64(y)*float64(y)
					mod := float64(x)*float64(x) + float64(y)*float64(y)
					if math.Abs(float64(real(cout[pos]))-wr) > 1e-6*mod || math.Abs(float64(imag(cout[pos]))-wi) > 1e-6*mod {
						return mc.V("special:VMulC64", "VMulC64: (%v,%v)*(%v,%v) at %d of %d gives %v", x, y, -y, x, pos, n, cout[pos])
					}
					c.Evals++
				}
				c.Evals += 5
				c.Nontrivial += 5
			}
		}
		if i == 40 {
			c.Sample("operands %v and %v in every position of lengths 1..130 for all routines", x, y)
		}
		return nil
	})
	return fams
}

// fresh removes what an earlier call left in the output.
func fresh[T float32 | complex64](s []T) {
	for i := range s {
		s[i] = -77
	}
}

func tame(x float32) bool {
	a := math.Abs(float64(x))
	return a == 0 || (a > 1e-15 && a < 1e18)
}

// mulTriples: all mismatches of three operand lengths.
func mulTriples(t mc.Tier) []*mc.Family {
	L := t.Pick(20, 36)
	names := []string{"VMulC64", "VMulC64xF32"}
	return eachConfig("triples", len(names)*(L+1)*(L+1), func(c *mc.Ctx, i int) error {
		o := opByName(names[i%2])
		nIn, nOut := i/2%(L+1), i/2/(L+1)
		b := localBufs(c, arenaLen)
		for nMul := 0; nMul <= L; nMul++ {
			setOperand(b.in, base, nIn*8, fillF32, nIn)
			setOperand(b.mul, base, nMul*o.mulE, fillF32, nMul)
			if err := callAndJudge(o, judgeValues|judgeMemory, vw{a: b.in, off: base, n: nIn}, vw{a: b.out, off: base + 8, n: nOut}, vw{a: b.mul, off: base, n: nMul}, 1); err != nil {
				repair(b.in, b.out, b.mul)
				return err
			}
			c.Evals++
			if o.units(nIn, nOut, nMul) > 0 {
				c.Nontrivial++
			}
			repairSmall(b, 1024)
		}
		return nil
	})
}

func repairSmall(b *bufs, n int) {
	resetFast(b.in, base-64, base+n)
	resetFast(b.out, base-64, base+n)
	resetFast(b.mul, base-64, base+n)
}

func maxFamilies(t mc.Tier) []*mc.Family {
	var fams []*mc.Family
	inf := float32(math.Inf(1))
	maxN := t.Pick(140, 300)
	backgrounds := []struct {
		name string
		f    func(k int) float32
	}{
		{"rising", func(k int) float32 { return float32(k) }},
		{"falling", func(k int) float32 { return -float32(k) }},
		{"negative", func(k int) float32 { return -100 - float32(k%7) }},
		{"positive", func(k int) float32 { return 100 + float32(k%7) }},
		{"zero", func(k int) float32 { return 0 }},
		{"+inf", func(k int) float32 { return inf }},
		{"-inf", func(k int) float32 { return -inf }},
		{"mixed", func(k int) float32 { return float32(int32(mix(k)) >> 8) }},
		{"tiny", func(k int) float32 { return float32(k%5-2) * 1e-42 }},
	}
	fams = append(fams, eachConfig("position", (maxN+1)*len(backgrounds), func(c *mc.Ctx, i int) error {
		bg := backgrounds[i%len(backgrounds)]
		n := i / len(backgrounds)
		a := mem.New(2048)
		defer a.Free()
		for off := 0; off < 32; off += 4 {
			if light && off%20 != 0 {
				continue
			}
			s := mem.Slice[float32](a, 64+off, n, 0)
			for pos := -1; pos < n; pos++ {
				for _, ext := range []float32{1e30, -1e30, inf, -inf, 101.5, -101.5, 1e-41, -1e-41} {
					for k := range s {
						s[k] = bg.f(k)
					}
					if pos >= 0 {
						s[pos] = ext
					}
					wmax, wmin := -inf, inf
					for _, v := range s {
						if v > wmax {
							wmax = v
						}
						if v < wmin {
							wmin = v
						}
					}
					c.Evals += 2
					if n > 1 {
						c.Nontrivial += 2
					}
					if g := dsp.VMaxF32(s); g != wmax {
						return mc.V("max", "VMaxF32 of %d %s values with %v at %d (start +%d) = %v, want %v", n, bg.name, ext, pos, off, g, wmax)
					}
					if g := dsp.VMinF32(s); g != wmin {
						return mc.V("min", "VMinF32 of %d %s values with %v at %d (start +%d) = %v, want %v", n, bg.name, ext, pos, off, g, wmin)
					}
					if pos < 0 {
						break
					}
				}
			}
		}
		if n == 37 && bg.name == "rising" {
			c.Sample("length 37, rising background, 8 extremes at each of 37 positions, 8 alignments")
		}
		return nil
	})...)
	alpha := []float32{0, 1, -1, 2.5, -inf, inf, float32(math.Copysign(0, -1))}
	maxT := t.Pick(6, 8)
	total := 0
	pows := []int{1}
	for k := 1; k <= maxT; k++ {
		pows = append(pows, pows[k-1]*len(alpha))
		total += pows[k]
	}
	fams = append(fams, eachConfig("tuples", total, func(c *mc.Ctx, i int) error {
		k := 1
		for i >= pows[k] {
			i -= pows[k]
			k++
		}
		var arr [16]float32
		s := arr[:k]
		wmax, wmin := -inf, inf
		for p := range s {
			s[p] = alpha[i%len(alpha)]
			i /= len(alpha)
			if s[p] > wmax {
				wmax = s[p]
			}
			if s[p] < wmin {
				wmin = s[p]
			}
		}
		c.Evals += 2
		if wmax != wmin {
			c.Nontrivial += 2
		}
		if g := dsp.VMaxF32(s); g != wmax {
			return mc.V("max", "VMaxF32(%v) = %v", s, g)
		}
		if g := dsp.VMinF32(s); g != wmin {
			return mc.V("min", "VMinF32(%v) = %v", s, g)
		}
		return nil
	})...)
	// Long slices: extreme in the first/last and around every block boundary.
	var lens []int
	for k := 8; k <= t.Pick(14, 20); k++ {
		for d := -1; d <= 1; d++ {
			lens = append(lens, 1<<k+d)
		}
	}
	fams = append(fams, eachConfig("long", len(lens), func(c *mc.Ctx, i int) error {
		n := lens[i]
		s := make([]float32, n)
		for k := range s {
			s[k] = float32(k % 13)
		}
		for d := 0; d < 400; d++ {
			pos := d % 200
			if d >= 200 {
				pos = n - 1 - d%200
			}
			old := s[pos]
			s[pos] = 50
			if g := dsp.VMaxF32(s); g != 50 {
				return mc.V("max", "VMaxF32 of %d values misses the one at %d", n, pos)
			}
			s[pos] = -50
			if g := dsp.VMinF32(s); g != -50 {
				return mc.V("min", "VMinF32 of %d values misses the one at %d", n, pos)
			}
			s[pos] = old
			c.Evals += 2
			c.Nontrivial += 2
		}
		return nil
	})...)
	fams = append(fams, hugeMax(t)...)
	return fams
}
