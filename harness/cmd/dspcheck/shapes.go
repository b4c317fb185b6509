package main

import (
	"bytes"
	"fmt"

	"verif/harness/mc"
	"verif/harness/mem"
)

const (
	base     = 512 // offset of a slice inside its arena
	arenaLen = 4096
)

var canaries = func() []byte {
	b := make([]byte, 1<<25)
	for i := range b {
		b[i] = mem.Canary(i)
	}
	return b
}()

func resetFast(a *mem.Arena, lo, hi int) {
	if lo < 0 {
		lo = 0
	}
	if hi > len(a.Data) {
		hi = len(a.Data)
	}
	copy(a.Data[lo:hi], canaries[lo:hi])
	copy(a.Gold[lo:hi], canaries[lo:hi])
}

// judge decides what a shape run looks at.
type judge int

const (
	judgeValues judge = 1 << iota // converted elements
	judgeMemory                   // everything else
)

type bufs struct{ in, out, mul *mem.Arena }

func localBufs(c *mc.Ctx, n int) *bufs {
	if b, ok := c.Local.(*bufs); ok && len(b.in.Data) >= n {
		return b
	}
	b := &bufs{mem.New(n), mem.New(n), mem.New(n)}
	c.Local = b
	return b
}

// callAndJudge runs o once with the views prepared in arenas whose Data==Gold,
// computes the expectation into Gold and compares.
func callAndJudge(o *op, j judge, in, out, mul vw, scale float64) error {
	n := o.units(in.n, out.n, mul.n)
	inB := in.a.Gold[in.off : in.off+in.n*o.inE]
	outG := out.a.Gold[out.off : out.off+out.n*o.outE]
	var mulB []byte
	if o.mulE > 0 {
		mulB = mul.a.Gold[mul.off : mul.off+mul.n*o.mulE]
	}
	outBytes := n * o.outPer * o.outE
	o.ref(inB, outG, mulB, n, scale)
	o.call(in, out, mul, scale)
	desc := func() string {
		return fmt.Sprintf("%s(len in=%d at %d mod 64%s, len out=%d at %d mod 64%s, cap +%d/+%d%s, scale %g)", o.name, in.n, in.off%64, nilStr(in), out.n, out.off%64, nilStr(out), in.cap, out.cap, mulStr(o, mul), scale)
	}
	got := out.a.Data[out.off : out.off+outBytes]
	want := out.a.Gold[out.off : out.off+outBytes]
	if j&judgeValues != 0 {
		if o.approx == nil {
			if !bytes.Equal(got, want) {
				k := firstDiff(got, want)
				u := k / (o.outPer * o.outE)
				return mc.V("value:"+o.name, "%s: element %d of %d is % x, want % x", desc(), u, n, got[u*o.outPer*o.outE:][:o.outPer*o.outE], want[u*o.outPer*o.outE:][:o.outPer*o.outE])
			}
		} else if !o.approx(got, want) {
			for u := 0; u < n; u++ {
				g, w := got[u*o.outPer*o.outE:][:o.outPer*o.outE], want[u*o.outPer*o.outE:][:o.outPer*o.outE]
				if !o.approx(g, w) {
					return mc.V("value:"+o.name, "%s: element %d of %d is % x, want about % x", desc(), u, n, g, w)
				}
			}
		}
	}
	copy(want, got)
	if j&judgeMemory != 0 {
		if k := out.a.Bad(); k >= 0 {
			where := "beyond the output slice"
			if k >= out.off && k < out.off+out.n*o.outE {
				where = "in the output past the common length"
			} else if k < out.off {
				where = "before the output slice"
			}
			return mc.V("write:"+o.name, "%s: byte at output%+d changed (%s)", desc(), k-out.off, where)
		}
		if in.a != out.a {
			if k := in.a.Bad(); k >= 0 {
				return mc.V("write:"+o.name, "%s: input memory changed at input%+d", desc(), k-in.off)
			}
		}
		if o.mulE > 0 && mul.a != out.a && mul.a != in.a {
			if k := mul.a.Bad(); k >= 0 {
				return mc.V("write:"+o.name, "%s: multiplier memory changed at %+d", desc(), k-mul.off)
			}
		}
	}
	return nil
}

func nilStr(v vw) string {
	if v.isNil {
		return " (nil)"
	}
	return ""
}

func mulStr(o *op, m vw) string {
	if o.mulE == 0 {
		return ""
	}
	return fmt.Sprintf(", mul len %d at %d mod 64", m.n, m.off%64)
}

func firstDiff(a, b []byte) int {
	for i := range a {
		if a[i] != b[i] {
			return i
		}
	}
	return -1
}

// setInput writes operand contents.
func setOperand(a *mem.Arena, off, nbytes int, fill func([]byte, int), k int) {
	fill(a.Data[off:off+nbytes], k)
	copy(a.Gold[off:off+nbytes], a.Data[off:off+nbytes])
}

func prepOut(o *op, a *mem.Arena, off, nbytes, k int) {
	resetFast(a, off-64, off+nbytes+192)
	if o.fillOut != nil {
		setOperand(a, off, nbytes, o.fillOut, k+777)
	}
}

// repair puts an arena back to canaries after a failed case so that reruns start clean.
func repair(as ...*mem.Arena) {
	for _, a := range as {
		resetFast(a, 0, len(a.Data))
	}
}

// shapeFamilies enumerates lengths x alignments x placements for the given ops
// under every dispatch configuration.
func shapeFamilies(t mc.Tier, names []string, j judge) []*mc.Family {
	var fams []*mc.Family
	maxLen := t.Pick(72, 132)
	for _, cfg := range dispatchConfigs() {
		cfg := cfg
		list := make([]*op, len(names))
		for i, n := range names {
			list[i] = opByName(n)
		}
		// All pairs of lengths, all alignments.
		fams = append(fams, &mc.Family{
			Name: "shapes/" + cfg.name, N: len(list) * (maxLen + 1), Setup: func() error { cfg.set(); return nil }, Chunk: 1,
			Run: func(c *mc.Ctx, i int) error {
				o := list[i%len(list)]
				nIn := i / len(list)
				return pairShapes(c, o, j, nIn, maxLen)
			},
		})
		// Slices flush with unmapped pages, nil slices, spare capacity.
		fams = append(fams, &mc.Family{
			Name: "guard/" + cfg.name, N: len(list) * (maxLen + 1), Setup: func() error { cfg.set(); return nil }, Chunk: 1,
			Run: func(c *mc.Ctx, i int) error {
				o := list[i%len(list)]
				return guardShapes(c, o, j, i/len(list), maxLen)
			},
		})
		// Equal lengths, long.
		longs := longLengths(t)
		fams = append(fams, &mc.Family{
			Name: "long/" + cfg.name, N: len(list) * len(longs), Setup: func() error { cfg.set(); return nil },
			Run: func(c *mc.Ctx, i int) error {
				return longShape(c, list[i%len(list)], j, longs[i/len(list)])
			},
		})
	}
	fams = append(fams, hugeFamilies(t, names, j)...)
	fams = append(fams, &mc.Family{Name: "restore", N: 1, Serial: true, Run: func(c *mc.Ctx, i int) error { defaultCfg.set(); c.Evals++; return nil }})
	return fams
}

func longLengths(t mc.Tier) []int {
	var l []int
	for n := 73; n <= t.Pick(700, 2100); n++ {
		l = append(l, n)
	}
	for k := 11; k <= t.Pick(16, 20); k++ {
		for d := -2; d <= 2; d++ {
			l = append(l, 1<<k+d)
		}
	}
	return l
}

func step(al int) int {
	if al < 1 {
		return 1
	}
	return al
}

func pairShapes(c *mc.Ctx, o *op, j judge, nInUnits, maxLen int) error {
	b := localBufs(c, arenaLen)
	// Lengths are in elements of the wider side's unit so that mismatches by single elements occur.
	maxIn := maxLen * o.inPer
	nLo, nHi := nInUnits*o.inPer, nInUnits*o.inPer+o.inPer-1
	_ = maxIn
	inSpan, outSpan := 16, 16
	if o.outE >= 4 {
		outSpan = 32
	}
	if light { // no alignment beyond the element's matters there
		inSpan, outSpan = 4, 8
	}
	for nIn := nLo; nIn <= nHi; nIn++ {
		for inOff := 0; inOff < inSpan; inOff += step(o.inAlign()) {
			io := base + inOff
			resetFast(b.in, base-64, base+inOff+nIn*o.inE+192)
			setOperand(b.in, io, nIn*o.inE, o.fill, nIn*31+inOff)
			for nOutU := 0; nOutU <= maxLen; nOutU++ {
				// The interesting region is near equality and the extremes; all
				// mismatches are covered for the first alignment.
				if inOff != 0 && nOutU != 0 && abs(nOutU-nIn/o.inPer) > 3 && nOutU%8 > 1 {
					continue
				}
				for extra := 0; extra < o.outPer; extra++ {
					nOut := nOutU*o.outPer + extra
					for outOff := 0; outOff < outSpan; outOff += step(o.outAlign()) {
						oo := base + outOff
						sc := o.scales[(nIn+nOut+outOff)%len(o.scales)]
						var mul vw
						if o.mulE > 0 {
							nm := nIn + (nOut+outOff/4)%4 - 1
							if nm < 0 {
								nm = 0
							}
							mo := base + (outOff*3)%16/4*4
							resetFast(b.mul, base-64, base+16+nm*o.mulE+192)
							setOperand(b.mul, mo, nm*o.mulE, fillF32, nIn*7+outOff)
							mul = vw{a: b.mul, off: mo, n: nm}
						}
						prepOut(o, b.out, oo, nOut*o.outE, nOut)
						if err := callAndJudge(o, j, vw{a: b.in, off: io, n: nIn}, vw{a: b.out, off: oo, n: nOut}, mul, sc); err != nil {
							repair(b.in, b.out, b.mul)
							return err
						}
						c.Evals++
						if o.units(nIn, nOut, mul.n) > 0 || (o.mulE > 0 && nIn > 0 && nOut > 0) {
							c.Nontrivial++
						}
						if c.WantSample() && nIn == 37 && inOff == 3*step(o.inAlign())%16 && nOutU == 36 && outOff > 8 {
							c.Sample("%s len(in)=%d at +%d, len(out)=%d at +%d, scale %g: %d units as expected, surroundings intact", o.name, nIn, inOff, nOut, outOff, sc, o.units(nIn, nOut, mul.n))
						}
						resetFast(b.out, oo-64, oo+nOut*o.outE+192)
					}
				}
			}
			resetFast(b.in, base-64, base+inOff+nIn*o.inE+192)
		}
	}
	return nil
}

func abs(x int) int {
	if x < 0 {
		return -x
	}
	return x
}

func guardShapes(c *mc.Ctx, o *op, j judge, nInUnits, maxLen int) error {
	b := localBufs(c, arenaLen)
	L := len(b.in.Data)
	for nIn := nInUnits * o.inPer; nIn < (nInUnits+1)*o.inPer; nIn++ {
		for nOutU := 0; nOutU <= maxLen; nOutU++ {
			for extra := 0; extra < o.outPer; extra++ {
				nOut := nOutU*o.outPer + extra
				for mode := 0; mode < 8; mode++ {
					in := vw{a: b.in, n: nIn}
					out := vw{a: b.out, n: nOut}
					mul := vw{a: b.mul}
					if o.mulE > 0 {
						mul.n = nIn
						if mode%2 == 1 {
							mul.n = nOut
						}
					}
					switch {
					case mode < 2: // ends flush with the next page
						in.off, out.off, mul.off = L-nIn*o.inE, L-nOut*o.outE, L-mul.n*o.mulE
					case mode < 4: // starts flush
						in.off, out.off, mul.off = 0, 0, 0
					case mode == 4: // mixed
						in.off, out.off, mul.off = L-nIn*o.inE, 0, 0
					case mode == 5:
						in.off, out.off, mul.off = 0, L-nOut*o.outE, L-mul.n*o.mulE
					case mode == 6: // spare capacity
						in.off, out.off, mul.off = base, base, base
						in.cap, out.cap, mul.cap = 40, 40, 40
					case mode == 7: // nil where empty
						if nIn != 0 && nOut != 0 {
							continue
						}
						in.off, out.off, mul.off = base, base, base
						in.isNil, out.isNil, mul.isNil = nIn == 0, nOut == 0, mul.n == 0
					}
					setOperand(b.in, in.off, nIn*o.inE, o.fill, nIn)
					if o.mulE > 0 {
						setOperand(b.mul, mul.off, mul.n*o.mulE, fillF32, nIn*7)
					}
					if o.fillOut != nil {
						setOperand(b.out, out.off, nOut*o.outE, o.fillOut, nOut+777)
					}
					sc := o.scales[(nIn+nOut)%len(o.scales)]
					if err := callAndJudge(o, j, in, out, mul, sc); err != nil {
						repair(b.in, b.out, b.mul)
						return err
					}
					c.Evals++
					if o.units(nIn, nOut, mul.n) > 0 {
						c.Nontrivial++
					}
					resetFast(b.in, in.off, in.off+nIn*o.inE)
					resetFast(b.out, out.off, out.off+nOut*o.outE)
					if o.mulE > 0 {
						resetFast(b.mul, mul.off, mul.off+mul.n*o.mulE)
					}
				}
			}
		}
	}
	return nil
}

func longShape(c *mc.Ctx, o *op, j judge, n int) error {
	size := base + 64 + n*o.inPer*o.inE
	if s := base + 64 + n*o.outPer*o.outE; s > size {
		size = s
	}
	if s := base + 64 + n*o.mulE; s > size {
		size = s
	}
	in, out := mem.New(size+256), mem.New(size+256)
	defer in.Free()
	defer out.Free()
	var mulA *mem.Arena
	if o.mulE > 0 {
		mulA = mem.New(size + 256)
		defer mulA.Free()
	}
	span := 32
	if n > 4096 {
		span = 8
	}
	for off := 0; off < span; off += step(o.outAlign()) {
		io := base + off%16/step(o.inAlign())*step(o.inAlign())
		oo := base + off
		resetFast(in, base-64, len(in.Data))
		resetFast(out, base-64, len(out.Data))
		setOperand(in, io, n*o.inPer*o.inE, o.fill, n)
		prepOut(o, out, oo, n*o.outPer*o.outE, n)
		var mul vw
		if o.mulE > 0 {
			resetFast(mulA, base-64, len(mulA.Data))
			setOperand(mulA, base, n*o.mulE, fillF32, n+5)
			mul = vw{a: mulA, off: base, n: n}
		}
		if err := callAndJudge(o, j, vw{a: in, off: io, n: n * o.inPer}, vw{a: out, off: oo, n: n * o.outPer}, mul, o.scales[n%len(o.scales)]); err != nil {
			return err
		}
		c.Evals++
		c.Nontrivial++
	}
	return nil
}
