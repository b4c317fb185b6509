package main

import (
	"bytes"
	"fmt"
	"sync"
	"unsafe"

	"github.com/samuel/go-dsp/dsp"
	"verif/harness/mc"
	"verif/harness/mem"
)

// Slices that lie across the middle of the address space, where addresses
// compared as signed numbers change sign.
const (
	middle     = uintptr(1) << 31
	middleHalf = 8192
)

var middleLock sync.Mutex

func withMiddle(c *mc.Ctx, f func(a *mem.Arena) error) error {
	middleLock.Lock()
	defer middleLock.Unlock()
	a, err := mem.NewAt(middle-middleHalf, 2*middleHalf)
	if err != nil {
		c.Incomplete()
		c.Add("middle_not_mappable", 1)
		return nil
	}
	defer a.Unmap()
	return f(a)
}

func hugeFamilies(t mc.Tier, names []string, j judge) []*mc.Family {
	var fams []*mc.Family
	maxUnits := t.Pick(40, 130)
	for _, cfg := range dispatchConfigs() {
		fams = append(fams, &mc.Family{Name: "middle/" + cfg.name, N: len(names) * (maxUnits + 1), Chunk: 1,
			Setup: func() error { cfg.set(); return nil },
			Run: func(c *mc.Ctx, i int) error {
				o := opByName(names[i%len(names)])
				n := i / len(names)
				return withMiddle(c, func(a *mem.Arena) error { return middleShapes(c, o, j, a, n) })
			}})
	}
	return fams
}

// middleShapes places the input, the output or the multiplier of n units across
// the middle, at every unit.
func middleShapes(c *mc.Ctx, o *op, j judge, a *mem.Arena, n int) error {
	b := localBufs(c, arenaLen)
	for which := 0; which < 3; which++ {
		unit := []int{o.inPer * o.inE, o.outPer * o.outE, o.mulE}[which]
		if unit == 0 {
			continue
		}
		for k := 0; k <= n+1; k++ {
			in := vw{a: b.in, off: base, n: n * o.inPer}
			out := vw{a: b.out, off: base, n: n * o.outPer}
			mul := vw{a: b.mul, off: base, n: n}
			v := []*vw{&in, &out, &mul}[which]
			v.a, v.off = a, middleHalf-k*unit
			if k == n+1 { // on the far side
				v.off = middleHalf
			}
			for _, v := range []vw{in, out, mul} {
				resetFast(v.a, v.off-256, v.off+16*n+512)
			}
			setOperand(in.a, in.off, in.n*o.inE, o.fill, n)
			if o.mulE > 0 {
				setOperand(mul.a, mul.off, mul.n*o.mulE, fillF32, n*7)
			} else {
				mul = vw{}
			}
			if o.fillOut != nil {
				setOperand(out.a, out.off, out.n*o.outE, o.fillOut, n+777)
			}
			if err := callAndJudge(o, j, in, out, mul, o.scales[n%len(o.scales)]); err != nil {
				repair(b.in, b.out, b.mul)
				return fmt.Errorf("with %s across address %#x: %w", []string{"the input", "the output", "the multiplier"}[which], middle, err)
			}
			c.Evals++
			if n > 0 {
				c.Nontrivial++
			}
		}
	}
	repair(b.in, b.out, b.mul)
	return nil
}

func hugeMax(t mc.Tier) []*mc.Family {
	var fams []*mc.Family
	maxUnits := t.Pick(60, 130)
	for _, cfg := range dispatchConfigs() {
		fams = append(fams, &mc.Family{Name: "middle/" + cfg.name, N: maxUnits, Chunk: 1,
			Setup: func() error { cfg.set(); return nil },
			Run: func(c *mc.Ctx, i int) error {
				n := i + 1
				return withMiddle(c, func(a *mem.Arena) error {
					for k := 0; k <= n; k++ {
						s := mem.Slice[float32](a, middleHalf-4*k, n, 0)
						for p := range s {
							for q := range s {
								s[q] = float32(q % 5)
							}
							s[p] = 50
							g := dsp.VMaxF32(s)
							s[p] = -50
							h := dsp.VMinF32(s)
							c.Evals += 2
							c.Nontrivial += 2
							if g != 50 || h != -50 {
								return mc.V("middle", "VMaxF32 and VMinF32 of %d values from address %#x on, the extreme at %d: %v and %v", n, middle-uintptr(4*k), p, g, h)
							}
						}
					}
					return nil
				})
			}})
	}
	return fams
}

// middleSame runs f over a slice of n elements across the middle, at every
// element, and over the same elements elsewhere: the results have to agree.
func middleSame[T any](t mc.Tier, what string, mult int, fill func(s []T), f func(s []T) any) *mc.Family {
	maxUnits := t.Pick(72, 150)
	var z T
	sz := int(unsafe.Sizeof(z))
	return &mc.Family{Name: "middle/" + what, N: maxUnits / mult, Chunk: 1, Run: func(c *mc.Ctx, i int) error {
		n := (i + 1) * mult
		return withMiddle(c, func(a *mem.Arena) error {
			for k := 0; k <= n; k++ {
				s := mem.Slice[T](a, middleHalf-sz*k, n, 0)
				ref := make([]T, n)
				fill(s)
				fill(ref)
				want := fmt.Sprint(f(ref))
				got := fmt.Sprint(f(s))
				c.Evals++
				c.Nontrivial++
				raw := func(s []T) []byte { return unsafe.Slice((*byte)(unsafe.Pointer(&s[0])), len(s)*sz) }
				if got != want || !bytes.Equal(raw(s), raw(ref)) {
					return mc.V("middle", "%s over %d elements from address %#x on differs from what it does elsewhere: %.200s, want %.200s; elements %.200s, want %.200s", what, n, middle-uintptr(k*sz), got, want, fmt.Sprint(s), fmt.Sprint(ref))
				}
			}
			return nil
		})
	}}
}

func middleC64(s []complex64) {
	for k := range s {
		s[k] = complex(float32(k%17)-7.5, float32(k%11)-4.25)
	}
}

func middleDemod(t mc.Tier) []*mc.Family {
	return []*mc.Family{
		middleSame(t, "FMDemodFilter", 1, middleC64, func(s []complex64) any {
			out := make([]float32, len(s))
			var f dsp.FMDemodFilter
			n := f.Demodulate(s, out)
			return fmt.Sprint(n, out)
		}),
		middleSame(t, "FMDemodFilter output", 1, func(s []float32) {
			for k := range s {
				s[k] = -9
			}
		}, func(s []float32) any {
			in := make([]complex64, len(s))
			middleC64(in)
			var f dsp.FMDemodFilter
			return f.Demodulate(in, s)
		}),
	}
}

func middleDown(t mc.Tier) []*mc.Family {
	var fams []*mc.Family
	for _, d := range []int{1, 2, 3, 6} {
		fams = append(fams, middleSame(t, fmt.Sprintf("LowPassDownsampleComplexFilter by %d", d), 1, middleC64, func(s []complex64) any {
			f := &dsp.LowPassDownsampleComplexFilter{Downsample: d}
			return f.Filter(s)
		}))
	}
	for _, r := range [][2]int{{12, 12}, {24, 12}, {48, 12}, {240, 48}, {250, 44}} {
		fams = append(fams, middleSame(t, fmt.Sprintf("LowPassDownsampleRationalFilter from %d to %d", r[0], r[1]), 1, func(s []float32) {
			for k := range s {
				s[k] = float32(k%17) - 7.5
			}
		}, func(s []float32) any {
			f := &dsp.LowPassDownsampleRationalFilter{Fast: r[0], Slow: r[1]}
			return f.Filter(s)
		}))
	}
	return fams
}

func middleRotate(t mc.Tier) []*mc.Family {
	return []*mc.Family{
		middleSame(t, "Rotate90Filter", 4, middleC64, func(s []complex64) any { return (&dsp.Rotate90Filter{}).Filter(s) }),
		middleSame(t, "I32Rotate90Filter", 8, func(s []int32) {
			for k := range s {
				s[k] = int32(k*7919 - 40000)
			}
		}, func(s []int32) any { return (&dsp.I32Rotate90Filter{}).Filter(s) }),
	}
}
