package main

import (
	"bytes"
	"fmt"
	"os"

	"github.com/samuel/go-dsp/dsp"
	"verif/harness/mc"
	"verif/harness/mem"
)

// hugeFamilies: slices of several gigabytes of address space (a few megabytes
// of memory, mapped over and over), so that counters, offsets and casts that
// are too narrow show.
func hugeFamilies(t mc.Tier, names []string, j judge) []*mc.Family {
	type hcase struct {
		o *op
		n int
	}
	if os.Getenv("VERIF_NO_HUGE") != "" {
		return nil
	}
	var cases []hcase
	for _, name := range names {
		o := opByName(name)
		per := max(o.inPer*o.inE, o.outPer*o.outE, o.mulE)
		for _, bits := range hugeBits(t, j) {
			n := 1<<bits/per + 5
			cases = append(cases, hcase{o, n})
		}
		if t.Thorough {
			cases = append(cases, hcase{o, 1<<31 + 3}, hcase{o, 1<<32/max(o.inPer, o.outPer) + 3}, hcase{o, 1<<32 + 3})
		}
	}
	var fams []*mc.Family
	cfgs := dispatchConfigs()
	if !t.Thorough {
		cfgs = []dispatchCfg{cfgs[0], cfgs[len(cfgs)-1]}
	}
	for _, cfg := range cfgs {
		fams = append(fams, &mc.Family{Name: "huge/" + cfg.name, N: len(cases), Chunk: 1,
			Setup: func() error { cfg.set(); return nil },
			Run: func(c *mc.Ctx, i int) error {
				c.Evals++
				c.Nontrivial++
				return hugeCase(cases[i].o, j, cases[i].n)
			}})
	}
	return fams
}

func hugeBits(t mc.Tier, j judge) []uint {
	if t.Thorough {
		return []uint{28, 29, 30, 31, 32}
	}
	if j == judgeMemory {
		return []uint{29}
	}
	return []uint{28, 32}
}

// hugeCase runs o over n units. Every tile holds the same operand octets; the
// tiles start at a multiple of every unit's size.
func hugeCase(o *op, j judge, n int) error {
	const slack = 4096
	alloc := func(sz int) (*mem.Huge, vw) {
		h := mem.NewHuge(n*sz + slack)
		for _, b := range [][]byte{h.First, h.Mid, h.Last} {
			copy(b, canaries[:mem.Tile])
		}
		return h, vw{a: &h.Arena}
	}
	in, vin := alloc(o.inPer * o.inE)
	defer in.Free()
	out, vout := alloc(o.outPer * o.outE)
	defer out.Free()
	vin.n, vout.n = n*o.inPer, n*o.outPer
	// what a tile of units looks like
	iu, ou := o.inPer*o.inE, o.outPer*o.outE
	pu := mem.Tile / max(iu, ou, o.mulE) // units the pattern repeats after
	fill := func(h *mem.Huge, sz int, f func([]byte, int), k int) []byte {
		pat := make([]byte, pu*sz)
		f(pat, k)
		for _, b := range [][]byte{h.First, h.Mid, h.Last} {
			for p := 0; p < mem.Tile; p += len(pat) {
				copy(b[p:], pat)
			}
		}
		return pat
	}
	inPat := fill(in, iu, o.fill, 3)
	var vmul vw
	var mulPat []byte
	if o.mulE > 0 {
		var m *mem.Huge
		m, vmul = alloc(o.mulE)
		defer m.Free()
		vmul.n = n
		mulPat = fill(m, o.mulE, fillF32, 5)
	}
	want := make([]byte, pu*ou)
	if o.acc {
		copy(want, fill(out, ou, o.fillOut, 9))
	}
	end := n * ou
	last := end - (len(out.Data) - mem.Tile) // where the output ends in the last tile
	beyond := max(last, 0)
	tail := append([]byte(nil), out.Last[beyond:]...)
	sc := o.scales[0]
	o.ref(inPat, want, mulPat, pu, sc)
	o.call(vin, vout, vmul, sc)
	desc := func() string { return fmt.Sprintf("%s over %d units (%d octets in, %d out)", o.name, n, n*iu, end) }
	same := func(b []byte, where string) error {
		for p := 0; p < len(b); p += len(want) {
			k := min(len(want), len(b)-p)
			if !bytes.Equal(b[p:p+k], want[:k]) && (o.approx == nil || !o.approx(b[p:p+k], want[:k])) {
				d := firstDiff(b[p:p+k], want[:k])
				return mc.V("huge:"+o.name, "%s: octet %d of the %s 4 MiB of the output is %#x, not %#x", desc(), p+d, where, b[p+d], want[d])
			}
		}
		return nil
	}
	if j&judgeValues != 0 {
		if err := same(out.First, "first"); err != nil {
			return err
		}
		if !o.acc {
			if err := same(out.Mid, "middle"); err != nil {
				return err
			}
		}
		if err := same(out.Last[:beyond], "last"); err != nil {
			return err
		}
	}
	if j&judgeMemory != 0 {
		if !bytes.Equal(out.Last[beyond:], tail) {
			return mc.V("huge:"+o.name, "%s: octets beyond the output changed", desc())
		}
		for _, b := range [][]byte{in.First, in.Mid, in.Last} {
			for p := 0; p < mem.Tile; p += len(inPat) {
				if !bytes.Equal(b[p:p+len(inPat)], inPat) {
					return mc.V("huge:"+o.name, "%s: the input changed", desc())
				}
			}
		}
	}
	return nil
}

// hugeMax: the extreme at the start and the end of slices of gigabytes.
func hugeMax(t mc.Tier) []*mc.Family {
	if os.Getenv("VERIF_NO_HUGE") != "" {
		return nil
	}
	lens := []int{1<<26 + 5, 1<<30 + 5}
	if t.Thorough {
		lens = append(lens, 1<<29+9, 1<<31+6, 1<<32+7)
	}
	var fams []*mc.Family
	cfgs := dispatchConfigs()
	if !t.Thorough {
		cfgs = []dispatchCfg{cfgs[0], cfgs[len(cfgs)-1]}
	}
	for _, cfg := range cfgs {
		fams = append(fams, &mc.Family{Name: "huge/" + cfg.name, N: len(lens) * 6, Chunk: 1,
			Setup: func() error { cfg.set(); return nil },
			Run: func(c *mc.Ctx, i int) error {
				n := lens[i%len(lens)]
				h := mem.NewHuge(4 * n)
				defer h.Free()
				s := mem.Slice[float32](&h.Arena, 0, n, 0)
				for _, b := range [][]byte{h.First, h.Mid, h.Last} {
					for k := 0; k < mem.Tile; k += 4 {
						pf32(b[k:], float32(k%13))
					}
				}
				pos := []int{0, 3, 9, n - 1, n - 2, n - 7}[i/len(lens)]
				c.Evals += 2
				c.Nontrivial += 2
				s[pos] = 50
				if g := dsp.VMaxF32(s); g != 50 {
					return mc.V("max", "VMaxF32 of %d values misses the one at %d", n, pos)
				}
				s[pos] = -50
				if g := dsp.VMinF32(s); g != -50 {
					return mc.V("min", "VMinF32 of %d values misses the one at %d", n, pos)
				}
				return nil
			}})
	}
	return fams
}

func middleDemod(t mc.Tier) []*mc.Family  { return nil }
func middleDown(t mc.Tier) []*mc.Family   { return nil }
func middleRotate(t mc.Tier) []*mc.Family { return nil }
