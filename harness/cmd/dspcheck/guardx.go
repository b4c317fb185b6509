package main

import (
	"math"

	"github.com/samuel/go-dsp/dsp"
	"verif/harness/mc"
	"verif/harness/mem"
)

// extremeGuardFamilies: the read-only vector routines against unmapped pages.
func extremeGuardFamilies(t mc.Tier) []*mc.Family {
	return eachConfig("extreme-guard", t.Pick(200, 600), func(c *mc.Ctx, n int) error {
		a := mem.New(4096)
		defer a.Free()
		L := len(a.Data)
		for _, off := range []int{L - 4*n, 0, 256} {
			s := mem.Slice[float32](a, off, n, 0)
			for i := range s {
				s[i] = float32(i)
			}
			copy(a.Gold, a.Data)
			dsp.VMaxF32(s)
			dsp.VMinF32(s)
			c.Evals += 2
			if n > 0 {
				c.Nontrivial += 2
			}
			if k := a.Bad(); k >= 0 {
				return mc.V("write:VMaxF32", "maximum/minimum changed memory at %+d of a %d element slice", k-off, n)
			}
		}
		if n == 0 {
			if m := dsp.VMaxF32(nil); !math.IsInf(float64(m), -1) {
				return mc.V("nil:VMaxF32", "VMaxF32(nil) = %v", m)
			}
			if m := dsp.VMinF32(nil); !math.IsInf(float64(m), 1) {
				return mc.V("nil:VMinF32", "VMinF32(nil) = %v", m)
			}
		}
		return nil
	})
}
