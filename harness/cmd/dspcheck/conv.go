package main

import (
	"math"

	"verif/harness/mc"
)

var convNames = []string{"Ui8toi16", "Ui8toi16b", "Ui8tof32", "I8tof32", "Ui8toc64", "I8toc64", "I16ToBLE", "I16bleToF64", "I16bleToF32", "I32bleToF32", "F32Tof32ble"}
var floatIntNames = []string{"F32toi16", "F32toi16ble", "C64toi8"}
var arithNames = []string{"VAddF32", "VAddC64", "VScaleF32", "VScaleC64", "VMulC64xF32", "VMulC64", "VAbsC64"}

const shapeRule = "every combination of input length, output length (per unit and per element), start alignment of each buffer, placement (middle, flush with an unmapped page on either side, spare capacity, nil) and CPU dispatch configuration is one evaluation on the real routine; it is non-trivial when at least one element is converted. All are distinct by construction. Value families: every input value at every lane and tail position."

func init() {
	mc.Register(&mc.Check{ID: "C01", Level: "exploration", Rule: shapeRule,
		Assumptions: []string{"bounded lengths as listed per family; arithmetic of the reference conversions in Go", "amd64 code of this machine; other architectures see C28"},
		Families: func(t mc.Tier) []*mc.Family {
			return append(convValueFamilies(t), shapeFamilies(t, convNames, judgeValues)...)
		}})
	mc.Register(&mc.Check{ID: "C02", Level: "exploration", Rule: shapeRule,
		Assumptions: []string{"reads outside a slice are seen when they reach the unmapped page next to it; lengths as listed per family"},
		Families: func(t mc.Tier) []*mc.Family {
			all := append(append(append([]string{}, convNames...), floatIntNames...), arithNames...)
			return append(shapeFamilies(t, all, judgeMemory), extremeGuardFamilies(t)...)
		}})
	mc.Register(&mc.Check{ID: "C03", Level: "exploration", Rule: shapeRule,
		Assumptions: []string{"products are those of float32 multiplication", "samples whose product is a finite number below 2^31 in magnitude"},
		Families: func(t mc.Tier) []*mc.Family {
			return append(floatIntFamilies(t), shapeFamilies(t, floatIntNames, judgeValues)...)
		}})
}

// eachConfig makes one family per dispatch configuration.
func eachConfig(name string, n int, run func(c *mc.Ctx, i int) error) []*mc.Family {
	var fams []*mc.Family
	for _, cfg := range dispatchConfigs() {
		cfg := cfg
		fams = append(fams, &mc.Family{Name: name + "/" + cfg.name, N: n, Setup: func() error { cfg.set(); return nil }, Run: run})
	}
	return fams
}

// runValues runs o with the given input bytes at the given element offset from a
// 64-byte boundary and judges values and memory.
func runValues(c *mc.Ctx, b *bufs, o *op, inBytes []byte, off int, scale float64) error {
	nIn := len(inBytes) / o.inE
	nOut := nIn / o.inPer * o.outPer
	io, oo := base+off%16/step(o.inAlign())*step(o.inAlign()), base+off*step(o.outAlign())%64
	b.in.Set(io, inBytes)
	prepOut(o, b.out, oo, nOut*o.outE, off)
	err := callAndJudge(o, judgeValues, vw{a: b.in, off: io, n: nIn}, vw{a: b.out, off: oo, n: nOut}, vw{}, scale)
	if err != nil {
		repair(b.in, b.out)
		return err
	}
	resetFast(b.out, oo-64, oo+nOut*o.outE+192)
	c.Evals++
	c.Nontrivial++
	return nil
}

func convValueFamilies(t mc.Tier) []*mc.Family {
	var fams []*mc.Family
	// 8-bit: every value at every position of every length.
	byteOps := []string{"Ui8toi16", "Ui8toi16b", "Ui8tof32", "I8tof32", "Ui8toc64", "I8toc64"}
	fams = append(fams, eachConfig("bytes", len(byteOps)*256, func(c *mc.Ctx, i int) error {
		o := opByName(byteOps[i%len(byteOps)])
		v0 := i / len(byteOps)
		b := localBufs(c, arenaLen)
		buf := make([]byte, 80*o.inPer)
		for n := 1; n <= t.Pick(72, 80); n++ {
			for k := range buf {
				buf[k] = byte(v0 + k)
			}
			for off := 0; off < 8; off++ {
				if err := runValues(c, b, o, buf[:n*o.inPer], off, 1); err != nil {
					return err
				}
			}
			// one odd value among a constant background, at each position
			if n <= 40 {
				for k := range buf {
					buf[k] = byte(v0 ^ 0x80)
				}
				for pos := 0; pos < n*o.inPer; pos++ {
					buf[pos] = byte(v0)
					if err := runValues(c, b, o, buf[:n*o.inPer], pos%4, 1); err != nil {
						return err
					}
					buf[pos] = byte(v0 ^ 0x80)
				}
			}
		}
		if v0 == 200 {
			c.Sample("%s: value %d at every position of every length 1..72", o.name, v0)
		}
		return nil
	})...)
	// 16-bit: every value at every lane and tail position.
	shortOps := []string{"I16ToBLE", "I16bleToF64", "I16bleToF32"}
	fams = append(fams, eachConfig("int16", len(shortOps)*256, func(c *mc.Ctx, i int) error {
		o := opByName(shortOps[i%len(shortOps)])
		hi := i / len(shortOps)
		b := localBufs(c, arenaLen)
		n := 33
		buf := make([]byte, 2*n)
		for lo := 0; lo < 256; lo++ {
			for k := 0; k < n; k++ {
				le.PutUint16(buf[2*k:], uint16((hi<<8|lo)+k*257))
			}
			for _, L := range []int{1, 2, 3, 4, 5, 6, 7, 8, 15, 16, 33} {
				for _, s := range o.scales {
					if err := runValues(c, b, o, buf[:2*L], lo%4, s); err != nil {
						return err
					}
				}
			}
			// rotate this value through all lanes
			if light && lo%8 != hi%8 {
				continue
			}
			for k := 0; k < n; k++ {
				le.PutUint16(buf[2*k:], uint16(hi<<8|lo))
				if err := runValues(c, b, o, buf, k%8, o.scales[k%len(o.scales)]); err != nil {
					return err
				}
			}
		}
		if hi == 128 {
			c.Sample("%s: values 0x8000..0x80ff in every lane of length 33 and every tail", o.name)
		}
		return nil
	})...)
	// 32-bit: boundary alphabet in every lane.
	var words []uint32
	for k := 0; k < 32; k++ {
		for d := -2; d <= 2; d++ {
			words = append(words, uint32(1)<<k+uint32(d), ^(uint32(1)<<k + uint32(d)))
		}
	}
	for e := 0; e < 256; e++ { // every exponent, several mantissas, both signs
		for _, m := range []uint32{0, 1, 0x400000, 0x7fffff, 0x2aaaaa} {
			words = append(words, uint32(e)<<23|m, 1<<31|uint32(e)<<23|m)
		}
	}
	wordOps := []string{"I32bleToF32", "F32Tof32ble"}
	fams = append(fams, eachConfig("words", len(wordOps)*len(words), func(c *mc.Ctx, i int) error {
		o := opByName(wordOps[i%len(wordOps)])
		w := words[i/len(wordOps)]
		b := localBufs(c, arenaLen)
		for n := 1; n <= 20; n++ {
			buf := make([]byte, 4*n)
			for pos := 0; pos < n; pos++ {
				for k := 0; k < n; k++ {
					le.PutUint32(buf[4*k:], mix(k+n))
				}
				le.PutUint32(buf[4*pos:], w)
				if o.name == "F32Tof32ble" {
					for k := 0; k < n; k++ { // keep quieting NaN conversions out: compare as bits but with quiet NaNs only
						x := le.Uint32(buf[4*k:])
						if math.IsNaN(float64(math.Float32frombits(x))) {
							le.PutUint32(buf[4*k:], x|0x400000)
						}
					}
				}
				if err := runValues(c, b, o, buf, pos%4, o.scales[pos%len(o.scales)]); err != nil {
					return err
				}
			}
		}
		return nil
	})...)
	return fams
}

// floatIntFamilies: boundary and out-of-range values, in every position, must
// convert like the same value alone.
func floatIntFamilies(t mc.Tier) []*mc.Family {
	var vals []float32
	add := func(v float64) {
		f := float32(v)
		vals = append(vals, f, -f, math.Nextafter32(f, float32(math.Inf(1))), math.Nextafter32(f, 0))
	}
	for v := 0; v <= 32768; v += t.Pick(29, 1) {
		add(float64(v))
		add(float64(v) + 0.5)
		add(float64(v) + 0.999)
	}
	for k := 0; k <= 30; k++ {
		for _, d := range []float64{-1, -0.5, 0, 0.5, 1, 1.5} {
			add(math.Ldexp(1, k) + d)
			add(math.Ldexp(1.37, k) + d)
		}
	}
	for _, v := range []float64{1e-45, 1e-30, 1e-10, 0.1, 0.9999999, 2147483520} {
		add(v)
	}
	// In-range values: exact truncation wherever they are.
	names := []string{"F32toi16", "F32toi16ble"}
	scales := []float64{1, 0.5, -1, 3, 1.0 / 3}
	fams := eachConfig("float16", len(names)*len(vals), func(c *mc.Ctx, i int) error {
		o := opByName(names[i%len(names)])
		v := vals[i/len(names)]
		b := localBufs(c, arenaLen)
		buf := make([]byte, 4*70)
		one := func(s float64, x float32) (uint16, error) {
			pf32(buf, x)
			b.in.Set(base, buf[:4])
			resetFast(b.out, base-64, base+128)
			o.call(vw{a: b.in, off: base, n: 1}, vw{a: b.out, off: base, n: 2 / o.outE}, vw{}, s)
			r := le.Uint16(b.out.Data[base:])
			resetFast(b.out, base-64, base+128)
			return r, nil
		}
		for _, s := range scales {
			p := v * float32(s)
			alone, _ := one(s, v)
			c.Evals++
			if !(math.Abs(float64(p)) < 2147483648) {
				continue
			}
			inRange := p > -32769 && p < 32768
			if inRange {
				if w := uint16(int16(int32(p))); w != alone {
					return mc.V("value:"+o.name, "%s(%v, scale %v) = %d, want %d", o.name, v, s, int16(alone), int16(w))
				}
				c.Nontrivial++
			}
			// Same value at each position of several lengths.
			lens := []int{2, 7, 16, 31, 32, 33, 47, 64, 65, 70}
			if light {
				lens = []int{7, 33}
			}
			for _, n := range lens {
				for _, bg := range []float32{0, 12.25} {
					for k := 0; k < n; k++ {
						pf32(buf[4*k:], bg)
					}
					poss := n
					for pos := 0; pos < poss; pos++ {
						if n > 16 && i%7 != pos%7 && t.Pick(1, 0) == 1 {
							continue
						}
						pf32(buf[4*pos:], v)
						b.in.Set(base, buf[:4*n])
						o.call(vw{a: b.in, off: base, n: n}, vw{a: b.out, off: base, n: n * 2 / o.outE}, vw{}, s)
						got := le.Uint16(b.out.Data[base+2*pos:])
						c.Evals++
						c.Nontrivial++
						if got != alone {
							repair(b.in, b.out)
							return mc.V("position:"+o.name, "%s: sample %v x scale %v converts to %d at index %d of %d but to %d alone", o.name, v, s, int16(got), pos, n, int16(alone))
						}
						pf32(buf[4*pos:], bg)
					}
				}
			}
			resetFast(b.out, base-64, base+512)
		}
		if i/len(names) == 4321 {
			c.Sample("%s: %v at every position of lengths 1..70 with 5 scales", o.name, v)
		}
		return nil
	})
	// Complex to signed bytes.
	var small []float32
	for v := -128; v <= 127; v++ {
		for _, f := range []float32{0, 0.25, 0.5, 0.75, 0.99} {
			x := float32(v)
			if v < 0 {
				x -= f
			} else {
				x += f
			}
			if x > -129 && x < 128 {
				small = append(small, x)
			}
		}
	}
	fams = append(fams, &mc.Family{Name: "c64toi8", N: len(small), Run: func(c *mc.Ctx, i int) error {
		o := opByName("C64toi8")
		b := localBufs(c, arenaLen)
		buf := make([]byte, 8*24)
		for n := 1; n <= 20; n++ {
			for pos := 0; pos < 2*n; pos++ {
				for k := 0; k < 2*n; k++ {
					pf32(buf[4*k:], float32(k%100)-50)
				}
				pf32(buf[4*pos:], small[i])
				if err := runValues(c, b, o, buf[:8*n], pos%3, 1); err != nil {
					return err
				}
			}
		}
		return nil
	}})
	return fams
}
