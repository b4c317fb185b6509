package main

import (
	"math"
	"strconv"

	"github.com/samuel/go-dsp/dsp"
	"verif/harness/mc"
)

func init() {
	mc.Register(&mc.Check{ID: "C06", Level: "exploration",
		Rule:        "each evaluation is one call of one arctangent on one coordinate pair of the complete grid (slopes x magnitudes x octants x signs incl. signed zeros), compared with the double precision angle; every pair is distinct; non-trivial when neither coordinate is zero.",
		Assumptions: []string{"math.Atan2 as the true angle", "coordinates between grid points are not evaluated"},
		Families:    atanFamilies})
}

// angDist is the distance of two angles modulo 2*Pi.
func angDist(a, b float64) float64 {
	d := math.Mod(a-b, 2*math.Pi)
	if d < 0 {
		d += 2 * math.Pi
	}
	if d > math.Pi {
		d = 2*math.Pi - d
	}
	return d
}

type atanF struct {
	name  string
	f     func(y, x float32) float32
	bound float64
}

var atanFs = []atanF{
	{"FastAtan2", func(y, x float32) float32 { return dsp.FastAtan2(y, x) }, 0.011},
	{"FastAtan2_2", func(y, x float32) float32 { return dsp.FastAtan2_2(y, x) }, 0.005},
	{"FastPhase32", func(y, x float32) float32 { return dsp.FastPhase32(complex(x, y)) }, 0.011},
	{"Phase32", func(y, x float32) float32 { return dsp.Phase32(complex(x, y)) }, 1e-6},
}

func checkAtanF(c *mc.Ctx, y, x float32) error {
	want := math.Atan2(float64(y), float64(x))
	for k := range atanFs {
		a := &atanFs[k]
		got := float64(a.f(y, x))
		c.Evals++
		if x != 0 && y != 0 {
			c.Nontrivial++
		}
		if y == 0 && x == 0 {
			if got != 0 && a.name != "Phase32" {
				return mc.V("atan:"+a.name, "%s(%v, %v) = %v, want 0", a.name, y, x, got)
			}
			continue
		}
		if math.IsNaN(got) || math.IsInf(got, 0) || math.Abs(got) > math.Pi+1e-4 {
			return mc.V("atan:"+a.name, "%s(%v, %v) = %v is not an angle", a.name, y, x, got)
		}
		if d := angDist(got, want); !(d <= a.bound) {
			return mc.V("atan:"+a.name, "%s(%v, %v) = %v, true angle %v, error %.5f > %v", a.name, y, x, got, want, d, a.bound)
		}
		if math.Abs(got) > 2 && (got < 0) != (y < 0) && !(y == 0 && math.Signbit(float64(y))) {
			return mc.V("atan:"+a.name, "%s(%v, %v) = %v has the wrong sign", a.name, y, x, got)
		}
		if y != 0 {
			if neg := float64(a.f(-y, x)); math.Abs(neg+got) > 2e-6 {
				return mc.V("atan:"+a.name, "%s(%v, %v) = %v but %s(%v, %v) = %v", a.name, y, x, got, a.name, -y, x, neg)
			}
		}
	}
	return nil
}

func atanFamilies(t mc.Tier) []*mc.Family {
	grid := t.Pick(8192, 65536)
	var ratios []float64
	for i := 0; i <= grid; i++ {
		ratios = append(ratios, float64(i)/float64(grid))
	}
	for k := 1; k <= 24; k++ { // near the seams
		e := math.Ldexp(1, -k)
		ratios = append(ratios, e, 1-e, math.Tan(math.Pi/8)+e/4, math.Tan(math.Pi/8)-e/4)
	}
	for k := 8; k <= 80; k++ {
		ratios = append(ratios, math.Pow(10, -float64(k)))
	}
	zero := float32(0)
	negz := float32(math.Copysign(0, -1))
	mants := []float64{1, 1.1, 1.3717, 1.625, 1.9999}
	var exps []int
	for e := -49; e <= 122; e++ {
		exps = append(exps, e)
	}
	n := len(exps) * len(mants)
	fams := []*mc.Family{{Name: "float-grid", N: n, Run: func(c *mc.Ctx, i int) error {
		m := math.Ldexp(mants[i%len(mants)], exps[i/len(mants)])
		if m < 1e-15 || m > 1e37 {
			return nil
		}
		big := float32(m)
		for k, r := range ratios {
			if light && k%5 != i%5 {
				continue
			}
			small := float32(m * r)
			for s := 0; s < 8; s++ {
				y, x := big, small
				if s&4 != 0 {
					y, x = small, big
				}
				if s&1 != 0 {
					y = -y
				}
				if s&2 != 0 {
					x = -x
				}
				if err := checkAtanF(c, y, x); err != nil {
					return err
				}
			}
		}
		if i == 100 {
			c.Sample("magnitude %g: %d slopes in 8 octants", m, len(ratios))
		}
		return nil
	}},
		{Name: "float-ulp", N: 256, Run: func(c *mc.Ctx, i int) error {
			// one unit in the last place around the axes and diagonals
			b := float32(math.Ldexp(1+float64(i)/256, (i%100)-50))
			if b < 1e-15 {
				b *= 1e10
			}
			for _, o := range []float32{b, math.Nextafter32(b, 0), math.Nextafter32(b, 1e38), zero, negz, 1e-45, -1e-45, 1e-38, 1e-30, 1e-20, 1e-19, 1e-21} {
				for _, y := range []float32{b, -b} {
					for _, x := range []float32{o, -o} {
						if err := checkAtanF(c, y, x); err != nil {
							return err
						}
						if err := checkAtanF(c, x, y); err != nil {
							return err
						}
					}
				}
			}
			for _, p := range [][2]float32{{0, 0}, {negz, 0}, {0, negz}, {negz, negz}} {
				if err := checkAtanF(c, p[0], p[1]); err != nil {
					return err
				}
			}
			return nil
		}}}
	if emulated { // the rest is plain Go
		return fams
	}
	// Integers.
	R := t.Pick(600, 3000)
	fams = append(fams, &mc.Family{Name: "int-square", N: 2*R + 1, Run: func(c *mc.Ctx, i int) error {
		y := i - R
		for x := -R; x <= R; x++ {
			if err := checkAtanI(c, y, x); err != nil {
				return err
			}
		}
		if i == 10 {
			c.Sample("y=%d, x=-%d..%d", y, R, R)
		}
		return nil
	}})
	maxBits := 31
	if strconv.IntSize == 32 {
		maxBits = 17
	}
	var mags []int
	for k := 1; k <= maxBits; k++ {
		for _, d := range []int{-1, 0, 1} {
			if m := (1<<k - 1) + d; m > 0 && m <= 1<<maxBits {
				mags = append(mags, m)
			}
		}
		mags = append(mags, (1<<k)/3*2+1)
	}
	G := t.Pick(8000, 64000)
	fams = append(fams, &mc.Family{Name: "int-grid", N: len(mags), Run: func(c *mc.Ctx, i int) error {
		m := mags[i]
		for k := 0; k <= G; k++ {
			v := int(float64(m) * float64(k) / float64(G))
			for d := -1; d <= 1; d++ {
				w := v + d
				if w < 0 || w > m {
					continue
				}
				for s := 0; s < 8; s++ {
					y, x := m, w
					if s&4 != 0 {
						y, x = w, m
					}
					if s&1 != 0 {
						y = -y
					}
					if s&2 != 0 {
						x = -x
					}
					if err := checkAtanI(c, y, x); err != nil {
						return err
					}
				}
			}
		}
		return nil
	}})
	// Every entry of the lookup table: slopes k/256 in all octants.
	fams = append(fams, &mc.Family{Name: "table", N: 1024, Run: func(c *mc.Ctx, i int) error {
		for k := i * 130; k < (i+1)*130; k++ {
			for _, x := range []int{256, -256, 255, -257} {
				for _, y := range []int{k, -k} {
					if strconv.IntSize == 32 && k > 1<<17 {
						continue
					}
					if err := checkAtanI(c, y, x); err != nil {
						return err
					}
				}
			}
			for _, x := range []int{1, -1, 2, -2, 3} {
				for _, y := range []int{k, -k} {
					if strconv.IntSize == 32 && k > 1<<17 {
						continue
					}
					if err := checkAtanI(c, y, x); err != nil {
						return err
					}
				}
			}
		}
		return nil
	}})
	return fams
}

var atanIs = []struct {
	name  string
	f     func(y, x int) int
	bound float64
}{{"Atan2LUT", dsp.Atan2LUT, 0.005}, {"FastAtan2Fixed", dsp.FastAtan2Fixed, 0.08}}

func checkAtanI(c *mc.Ctx, y, x int) error {
	want := math.Atan2(float64(y), float64(x))
	for _, a := range atanIs {
		got := a.f(y, x)
		c.Evals++
		if x != 0 && y != 0 {
			c.Nontrivial++
		}
		if y == 0 && x == 0 {
			if got != 0 {
				return mc.V("atan:"+a.name, "%s(0,0) = %d", a.name, got)
			}
			continue
		}
		if got < -16384 || got > 16384 {
			return mc.V("atan:"+a.name, "%s(%d, %d) = %d is outside [-Pi, Pi]", a.name, y, x, got)
		}
		if d := angDist(float64(got)*math.Pi/16384, want); !(d <= a.bound) {
			return mc.V("atan:"+a.name, "%s(%d, %d) = %d (%.5f rad), true angle %.5f, error %.5f > %v", a.name, y, x, got, float64(got)*math.Pi/16384, want, d, a.bound)
		}
		if d := got; (d > 12000 || d < -12000) && (d < 0) != (y < 0) {
			return mc.V("atan:"+a.name, "%s(%d, %d) = %d has the wrong sign", a.name, y, x, got)
		}
	}
	return nil
}
