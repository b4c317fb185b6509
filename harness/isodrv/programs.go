// Package isodrv runs several users of the libraries in one process: each has its
// own instances and data; what each gets must be what it gets alone.
package isodrv

import (
	"fmt"
	"math"
	"net"
	"time"

	"github.com/samuel/go-dsp/borip"
	"github.com/samuel/go-dsp/dsp"
	"github.com/samuel/go-dsp/dsp/ax25"
	"github.com/samuel/go-dsp/dsp/dtmf"
)

// Hash collects results.
type Hash uint64

func (h *Hash) add(x uint64) {
	v := uint64(*h)
	for k := 0; k < 8; k++ {
		v = (v ^ (x & 0xff)) * 1099511628211
		x >>= 8
	}
	*h = Hash(v)
}

func (h *Hash) Int(x ...int) {
	for _, v := range x {
		h.add(uint64(v))
	}
}
func (h *Hash) F64(x ...float64) {
	for _, v := range x {
		h.add(math.Float64bits(v))
	}
}
func (h *Hash) F32(x ...float32) {
	for _, v := range x {
		h.add(uint64(math.Float32bits(v)))
	}
}
func (h *Hash) C64(x ...complex64) {
	for _, v := range x {
		h.F32(real(v), imag(v))
	}
}
func (h *Hash) C128(x ...complex128) {
	for _, v := range x {
		h.F64(real(v), imag(v))
	}
}
func (h *Hash) Bytes(x []byte) {
	h.add(uint64(len(x)))
	for _, v := range x {
		h.add(uint64(v))
	}
}
func (h *Hash) Str(s string) { h.Bytes([]byte(s)) }

// Program is one user: a sequence of calls on its own instances.
type Program struct {
	Kind, Name string
	New        func() []func(h *Hash)
}

// Programs in a fixed order.
var Programs []Program

func prog(kind, name string, f func() []func(h *Hash)) {
	Programs = append(Programs, Program{kind, kind + " " + name, f})
}

// deterministic data
func f64(n int, seed float64) []float64 {
	x := make([]float64, n)
	for k := range x {
		x[k] = math.Sin(seed+1.7*float64(k)) + 0.25*math.Cos(3*seed*float64(k))
	}
	return x
}
func f32(n int, seed float64) []float32 {
	x := make([]float32, n)
	for k, v := range f64(n, seed) {
		x[k] = float32(v)
	}
	return x
}
func c128(n int, seed float64) []complex128 {
	x := make([]complex128, n)
	a, b := f64(n, seed), f64(n, seed+9)
	for k := range x {
		x[k] = complex(a[k], b[k])
	}
	return x
}
func c64(n int, seed float64) []complex64 {
	x := make([]complex64, n)
	for k, v := range c128(n, seed) {
		x[k] = complex64(v)
	}
	return x
}
func octets(n int, seed float64) []byte {
	x := make([]byte, n)
	for k, v := range f64(n, seed) {
		x[k] = byte(int(v*90) + 128)
	}
	return x
}

type calls = []func(h *Hash)

func init() {
	filters()
	tones()
	pure()
	frames()
	packets()
}

func filters() {
	n := 0
	iir := func(name string, b, a []float64) {
		n++
		seed := float64(n)
		prog("IIRFilter", name, func() calls {
			f := dsp.NewIIRFilter(append([]float64(nil), b...), append([]float64(nil), a...))
			in, out := f64(8, seed), make([]float64, 8)
			return calls{func(h *Hash) { f.Filter(in[:3], out[:3]); h.F64(out[:3]...) }, func(h *Hash) { f.Filter(in[3:], out[3:]); h.F64(out...) }}
		})
		prog("ComplexIIRFilter", name, func() calls {
			f := dsp.NewComplexIIRFilter(append([]float64(nil), b...), append([]float64(nil), a...))
			in, out := c128(8, seed), make([]complex128, 8)
			return calls{func(h *Hash) { f.Filter(in[:3], out[:3]); h.C128(out[:3]...) }, func(h *Hash) { f.Filter(in[3:], out[3:]); h.C128(out...) }}
		})
		prog("ComplexIIRFilter32", name, func() calls {
			var b2, a2 []float32
			for _, v := range b {
				b2 = append(b2, float32(v))
			}
			for _, v := range a {
				a2 = append(a2, float32(v))
			}
			f := dsp.NewComplexIIRFilter32(b2, a2)
			in, out := c64(8, seed), make([]complex64, 8)
			return calls{func(h *Hash) { f.Filter(in[:3], out[:3]); h.C64(out[:3]...) }, func(h *Hash) { f.Filter(in[3:], out[3:]); h.C64(out...) }}
		})
	}
	iir("2/2", []float64{0.5, 0.25, 0.125}, []float64{1, -0.5, 0.25})
	iir("2/2 other b", []float64{0.25, -0.25, 0.5}, []float64{1, -0.5, 0.25})
	iir("2/2 other a", []float64{0.5, 0.25, 0.125}, []float64{2, 0.5, -0.25})
	iir("3/3", []float64{1, -1, 0.5, 0.25}, []float64{1, 0.1, 0.2, 0.3})
	bq := func(name string, mk func() *dsp.BiQuadFilter, seed float64) {
		prog("BiQuad", name, func() calls {
			f := mk()
			in, out := f64(6, seed), make([]float64, 6)
			in2, out2 := f32(4, seed), make([]float32, 4)
			return calls{func(h *Hash) { f.Filter(in[:2], out[:2]); h.F64(out[:2]...) }, func(h *Hash) { f.Filter(in[2:], out[2:]); h.F64(out...) }, func(h *Hash) { f.FilterF32(in2, out2); h.F32(out2...) }}
		})
	}
	bq("low pass", func() *dsp.BiQuadFilter { return dsp.NewLowPassBiQuadFilter(8000, 1000, 0.7) }, 1)
	bq("low pass other rate", func() *dsp.BiQuadFilter { return dsp.NewLowPassBiQuadFilter(9000, 1000, 0.7) }, 1)
	bq("low pass other cutoff", func() *dsp.BiQuadFilter { return dsp.NewLowPassBiQuadFilter(8000, 1100, 0.7) }, 1)
	bq("low pass other q", func() *dsp.BiQuadFilter { return dsp.NewLowPassBiQuadFilter(8000, 1000, 0.9) }, 1)
	bq("high pass", func() *dsp.BiQuadFilter { return dsp.NewHighPassBiQuadFilter(8000, 1000, 0.7) }, 1)
	bq("band pass skirt", func() *dsp.BiQuadFilter { return dsp.NewBandPassConstantSkirtGainBiQuadFilter(8000, 1000, 0.7) }, 1)
	bq("band pass peak", func() *dsp.BiQuadFilter { return dsp.NewBandPassConstantPeakGainBiQuadFilter(8000, 1000, 0.7) }, 1)
	bq("notch", func() *dsp.BiQuadFilter { return dsp.NotchBiQuadFilter(8000, 1000, 0.7) }, 1)
	bq("all pass", func() *dsp.BiQuadFilter { return dsp.AllPassBiQuadFilter(8000, 1000, 0.7) }, 1)
	bq("peaking", func() *dsp.BiQuadFilter { return dsp.PeakingEQBiQuadFilter(8000, 1000, 0.7, 6) }, 1)
	bq("peaking other gain", func() *dsp.BiQuadFilter { return dsp.PeakingEQBiQuadFilter(8000, 1000, 0.7, -3) }, 1)
	bq("low shelf", func() *dsp.BiQuadFilter { return dsp.LowShelfBiQuadFilter(8000, 1000, 0.7, 6) }, 1)
	bq("high shelf", func() *dsp.BiQuadFilter { return dsp.HighShelfBiQuadFilter(8000, 1000, 0.7, 6) }, 1)
	for _, a := range []float64{0.9, 0.5} {
		a := a
		prog("DCFilter", fmt.Sprint(a), func() calls {
			f := dsp.NewDCFilter(a)
			in, out := f64(6, a), make([]float64, 6)
			return calls{func(h *Hash) { f.Filter(in, out); h.F64(out...) }, func(h *Hash) { h.F64(f.FilterOne(0.5)) }, func(h *Hash) { f.Filter(in[:2], out[:2]); h.F64(out...) }}
		})
		prog("DCFilter32", fmt.Sprint(a), func() calls {
			f := dsp.NewDCFilter32(float32(a))
			in, out := f32(6, a), make([]float32, 6)
			return calls{func(h *Hash) { f.Filter(in, out); h.F32(out...) }, func(h *Hash) { h.F32(f.FilterOne(0.5)) }, func(h *Hash) { f.Filter(in[:2], out[:2]); h.F32(out...) }}
		})
	}
	for _, k := range []int{2, 3} {
		k := k
		prog("LowPassDownsampleComplexFilter", fmt.Sprint(k), func() calls {
			f := &dsp.LowPassDownsampleComplexFilter{Downsample: k}
			a, b := c64(7, 1), c64(9, 2)
			return calls{func(h *Hash) { h.C64(f.Filter(a)...) }, func(h *Hash) { h.C64(f.Filter(b)...) }}
		})
		prog("LowPassDownsampleRationalFilter", fmt.Sprint(k), func() calls {
			f := &dsp.LowPassDownsampleRationalFilter{Fast: 2*k + 1, Slow: k}
			a, b := f32(7, 1), f32(9, 2)
			return calls{func(h *Hash) { h.F32(f.Filter(a)...) }, func(h *Hash) { h.F32(f.Filter(b)...) }}
		})
		prog("FMDemodFilter", fmt.Sprint(k), func() calls {
			f := &dsp.FMDemodFilter{}
			a, b := c64(5, float64(k)), c64(6, 2*float64(k))
			out := make([]float32, 8)
			return calls{func(h *Hash) { n := f.Demodulate(a, out); h.F32(out[:n]...) }, func(h *Hash) { n := f.Demodulate(b, out); h.F32(out[:n]...) }}
		})
		prog("Rotate90", fmt.Sprint(k), func() calls {
			f, g := &dsp.Rotate90Filter{}, &dsp.I32Rotate90Filter{}
			a := c64(4*k, float64(k))
			b := []int32{1, 2, 3, 4, 5, 6, 7, 8, -1, -2, -3, -4, 9, 10, 11, int32(k)}
			return calls{func(h *Hash) { h.C64(f.Filter(a)...) }, func(h *Hash) {
				for _, v := range g.Filter(b) {
					h.Int(int(v))
				}
			}}
		})
	}
	sd := func(name string, k, n int, w []float64, seed float64) {
		prog("SDFT", name, func() calls {
			f := dsp.NewSDFT(k, n, append([]float64(nil), w...))
			x := c128(9, seed)
			var cs calls
			for j := 0; j < 3; j++ {
				p := x[3*j : 3*j+3]
				cs = append(cs, func(h *Hash) {
					for _, v := range p {
						h.C128(f.Filter(v))
					}
				})
			}
			return cs
		})
		prog("SDFT32", name, func() calls {
			var w2 []float32
			for _, v := range w {
				w2 = append(w2, float32(v))
			}
			f := dsp.NewSDFT32(k, n, w2)
			x := c64(9, seed)
			var cs calls
			for j := 0; j < 3; j++ {
				p := x[3*j : 3*j+3]
				cs = append(cs, func(h *Hash) {
					for _, v := range p {
						h.C64(f.Filter(v))
					}
				})
			}
			return cs
		})
	}
	sd("1/8", 1, 8, []float64{1}, 1)
	sd("2/8", 2, 8, []float64{1}, 1)
	sd("1/6", 1, 6, []float64{1}, 1)
	sd("1/8 window", 1, 8, []float64{0.5, -0.25}, 1)
	sd("1/8 window 2", 1, 8, []float64{0.42, 0.25}, 1)
}

func tones() {
	gz := func(name string, fr []uint64, rate, block int) {
		use := func(seed float64, feed func(x []float64), mag func(h *Hash), reset func()) calls {
			x := f64(block+3, seed)
			return calls{func(h *Hash) { feed(x[:3]); mag(h) }, func(h *Hash) { feed(x[3:]); mag(h) }, func(h *Hash) { reset(); feed(x[:4]); mag(h) }}
		}
		prog("Goertzel", name, func() calls {
			g := dsp.NewGoertzel(append([]uint64(nil), fr...), rate, block)
			return use(1, func(x []float64) { g.Feed(x) }, func(h *Hash) { h.F64(g.Magnitude()...); h.C128(g.Complex()...) }, g.Reset)
		})
		prog("Goertzel32", name, func() calls {
			g := dsp.NewGoertzel32(append([]uint64(nil), fr...), rate, block)
			return use(1, func(x []float64) {
				y := make([]float32, len(x))
				for k := range x {
					y[k] = float32(x[k])
				}
				g.Feed(y)
			}, func(h *Hash) { h.F32(g.Magnitude()...); h.C64(g.Complex()...) }, g.Reset)
		})
		prog("ComplexGoertzel", name, func() calls {
			g := dsp.NewComplexGoertzel(append([]uint64(nil), fr...), rate, block)
			return use(1, func(x []float64) {
				y := make([]complex128, len(x))
				for k := range x {
					y[k] = complex(x[k], -2*x[k])
				}
				g.Feed(y)
			}, func(h *Hash) { h.F64(g.Magnitude()...); h.C128(g.Complex()...) }, g.Reset)
		})
	}
	gz("one", []uint64{1000}, 8000, 8)
	gz("two", []uint64{1000, 2000}, 8000, 8)
	gz("other tones", []uint64{2000, 3000}, 8000, 8)
	gz("other rate", []uint64{1000, 2000}, 16000, 8)
	gz("other block", []uint64{1000, 2000}, 8000, 16)
	dt := func(name string, mk func() *dtmf.DTMF, n int) {
		prog("DTMF", name, func() calls {
			d := mk()
			a, b := f32(n, 1), f32(n, 4)
			feed := func(x []float32) func(h *Hash) {
				return func(h *Hash) { k, v := d.Feed(x); h.Int(k); h.F32(v) }
			}
			return calls{feed(a), feed(b), feed(a[:n/2])}
		})
	}
	lo, hi := []uint64{700, 900}, []uint64{1200, 1600}
	cp := func(x []uint64) []uint64 { return append([]uint64(nil), x...) }
	dt("hamming", func() *dtmf.DTMF { return dtmf.New(cp(lo), cp(hi), 8000, 12, dsp.HammingWindowF32) }, 12)
	dt("blackman", func() *dtmf.DTMF { return dtmf.New(cp(lo), cp(hi), 8000, 12, dsp.BlackmanWindowF32) }, 12)
	dt("no window", func() *dtmf.DTMF { return dtmf.New(cp(lo), cp(hi), 8000, 12, nil) }, 12)
	dt("other tones", func() *dtmf.DTMF {
		return dtmf.New([]uint64{500, 1000, 1500}, []uint64{2000, 2500}, 8000, 12, dsp.HammingWindowF32)
	}, 12)
	dt("other rate", func() *dtmf.DTMF { return dtmf.New(cp(lo), cp(hi), 6000, 12, dsp.HammingWindowF32) }, 12)
	dt("other block", func() *dtmf.DTMF { return dtmf.New(cp(lo), cp(hi), 8000, 16, dsp.HammingWindowF32) }, 16)
	dt("standard", func() *dtmf.DTMF { return dtmf.NewStandard(8000, 16) }, 16)
	dt("standard other rate", func() *dtmf.DTMF { return dtmf.NewStandard(11025, 16) }, 16)
}

func pure() {
	type w64 = func([]float64)
	type w32 = func([]float32)
	for _, x := range []struct {
		name string
		f    w64
		g    w32
	}{{"triangle", dsp.TriangleWindow, dsp.TriangleWindowF32}, {"hamming", dsp.HammingWindow, dsp.HammingWindowF32}, {"hanning", dsp.HanningWindow, dsp.HanningWindowF32}, {"blackman", dsp.BlackmanWindow, dsp.BlackmanWindowF32}, {"nuttall", dsp.NuttallWindow, dsp.NuttallWindowF32}} {
		x := x
		prog("Window", x.name, func() calls {
			var cs calls
			for _, n := range []int{5, 8, 5} {
				n := n
				cs = append(cs, func(h *Hash) {
					a, b := make([]float64, n), make([]float32, n)
					x.f(a)
					x.g(b)
					h.F64(a...)
					h.F32(b...)
				})
			}
			return cs
		})
	}
	for k := 1; k <= 2; k++ {
		s := float64(k)
		prog("interpolate", fmt.Sprint(k), func() calls {
			x, y := f64(8, s), f32(8, s)
			var cs calls
			for _, p := range []float64{2.25, 3.75} {
				p := p
				cs = append(cs, func(h *Hash) {
					h.F64(dsp.Linear(x, p), dsp.Hermite4p3o(x, p), dsp.Optimal2x4p4o(x, p), dsp.Optimal2x6p5o(x, p))
				}, func(h *Hash) {
					q := float32(p)
					h.F32(dsp.LinearF32(y, q), dsp.Hermite4p3oF32(y, q), dsp.Optimal2x4p4oF32(y, q), dsp.Optimal2x6p5oF32(y, q))
				})
			}
			return cs
		})
		prog("arctangent", fmt.Sprint(k), func() calls {
			x := f32(8, s)
			return calls{func(h *Hash) {
				for j := 0; j < 8; j += 2 {
					h.F32(dsp.FastAtan2(x[j], x[j+1]), dsp.FastAtan2_2(x[j], x[j+1]), dsp.FastPhase32(complex(x[j], x[j+1])), dsp.Phase32(complex(x[j], x[j+1])))
				}
			}, func(h *Hash) {
				for j := 0; j < 8; j += 2 {
					a, b := int(x[j]*10000), int(x[j+1]*10000)
					h.Int(dsp.Atan2LUT(a, b), dsp.FastAtan2Fixed(a, b))
				}
			}, func(h *Hash) {
				h.F64(dsp.PolarDiscriminator(complex(s, 1), complex(-1, s)))
				h.F32(dsp.PolarDiscriminator32(complex(float32(s), 1), complex(-1, float32(s))))
				h.C64(dsp.Conj32(complex(x[0], x[1])))
			}}
		})
		prog("convert", fmt.Sprint(k), func() calls {
			n := 18
			b := octets(n, s)
			i8 := make([]int8, n)
			for j := range i8 {
				i8[j] = int8(b[j])
			}
			f, c := f32(n, s), c64(n, s)
			i16 := make([]int16, n)
			o16, of32, ob, oc, o8 := make([]int16, n), make([]float32, n), make([]byte, 4*n), make([]complex64, n), make([]int8, 2*n)
			of64 := make([]float64, n)
			put := func(h *Hash) {
				for j := range o16 {
					h.Int(int(o16[j]))
				}
				for j := range o8 {
					h.Int(int(o8[j]))
				}
				h.F32(of32...)
				h.F64(of64...)
				h.Bytes(ob)
				h.C64(oc...)
			}
			return calls{func(h *Hash) { dsp.Ui8toi16(b, o16); dsp.Ui8toi16b(b, ob[:2*n]); dsp.Ui8tof32(b, of32); put(h) },
				func(h *Hash) { dsp.I8tof32(b, of32); dsp.Ui8toc64(b, oc); put(h); dsp.I8toc64(i8, oc); put(h) },
				func(h *Hash) {
					dsp.C64toi8(c, o8)
					dsp.F32toi16(f, i16, 1000)
					dsp.F32toi16ble(f, ob[:2*n], 1000)
					put(h)
				},
				func(h *Hash) {
					dsp.I16ToBLE(i16, ob[:2*n])
					dsp.I16bleToF64(b, of64, 0.5)
					dsp.I16bleToF32(b, of32, 0.5)
					put(h)
				},
				func(h *Hash) { dsp.I32bleToF32(b, of32, 0.5); dsp.F32Tof32ble(f, ob); put(h) }}
		})
		prog("vectors", fmt.Sprint(k), func() calls {
			n := 19
			a, b, m := c64(n, s), c64(n, s+1), f32(n, s)
			x, y := f32(n, s+2), make([]float32, n)
			return calls{func(h *Hash) { dsp.VMulC64xF32(a, b, m); h.C64(b...); dsp.VMulC64(a, b, a); h.C64(b...) },
				func(h *Hash) { dsp.VAddF32(x, y); dsp.VAddC64(a, b); h.C64(b...); h.F32(y...) },
				func(h *Hash) { dsp.VScaleC64(a, b, 0.5); dsp.VScaleF32(x, y, 3); h.C64(b...); h.F32(y...) },
				func(h *Hash) { dsp.VAbsC64(a, y); h.F32(y...); h.F32(dsp.VMaxF32(x), dsp.VMinF32(x)) }}
		})
	}
}

// crc of AX.25, bit by bit.
func crc(b []byte) uint16 {
	c := uint16(0xffff)
	for _, x := range b {
		for k := 0; k < 8; k++ {
			if (c^uint16(x>>k))&1 != 0 {
				c = c>>1 ^ 0x8408
			} else {
				c >>= 1
			}
		}
	}
	return ^c
}

// bits of one frame between flags.
func bits(o []byte) []int {
	c := crc(o)
	o = append(append([]byte(nil), o...), byte(c), byte(c>>8))
	var r []int
	flag := []int{0, 1, 1, 1, 1, 1, 1, 0}
	r = append(r, flag...)
	ones := 0
	for _, x := range o {
		for k := 0; k < 8; k++ {
			v := int(x >> k & 1)
			r = append(r, v)
			if v == 0 {
				ones = 0
			} else if ones++; ones == 5 {
				r = append(r, 0)
				ones = 0
			}
		}
	}
	return append(r, flag...)
}

func addr(call string, ssid byte, last bool) []byte {
	b := make([]byte, 7)
	for k := 0; k < 6; k++ {
		c := byte(' ')
		if k < len(call) {
			c = call[k]
		}
		b[k] = c << 1
	}
	b[6] = 0x60 | ssid<<1
	if last {
		b[6] |= 1
	}
	return b
}

func frames() {
	mk := func(name string, os ...[]byte) {
		prog("AX.25", name, func() calls {
			d := ax25.NewDecoder()
			var got []*ax25.Frame
			var cs calls
			show := func(h *Hash) {
				for _, f := range got {
					h.Str(fmt.Sprintf("%+v %s %s", *f, f.Source, f.Destination))
					h.Bytes(f.Info)
				}
			}
			for _, o := range os {
				bs := bits(o)
				for len(bs) > 0 {
					n := min(90, len(bs))
					p := bs[:n]
					bs = bs[n:]
					cs = append(cs, func(h *Hash) {
						for _, v := range p {
							if f := d.Feed(v); f != nil {
								got = append(got, f)
								h.Int(1)
							}
						}
					})
				}
			}
			return append(cs, show)
		})
	}
	ui := func(info string) []byte {
		return append(append(append(addr("APRS", 0, false), addr("N0CALL", 3, true)...), 0x03, 0xf0), info...)
	}
	mk("frame", ui("ab"))
	mk("other frame", ui("xyz"))
	mk("two frames", ui("1"), append(append(append(addr("Q", 1, false), addr("W", 2, false)...), addr("RELAY", 3, true)...), 0x3f))
	prog("AX.25 names", "all", func() calls {
		return calls{func(h *Hash) {
			for k := 0; k < 256; k++ {
				h.Str(ax25.PID(k).String())
			}
		}, func(h *Hash) {
			for k := 0; k < 8; k++ {
				h.Str(ax25.FrameType(k).String() + ax25.SupervisoryType(k).String() + ax25.UnnumberedType(k).String())
			}
		}}
	})
}

type recorded struct{ p [][]byte }

func (c *recorded) ReadFrom(b []byte) (int, net.Addr, error) {
	if len(c.p) == 0 {
		return 0, nil, net.ErrClosed
	}
	n := copy(b, c.p[0])
	c.p = c.p[1:]
	return n, &net.UDPAddr{}, nil
}
func (c *recorded) WriteTo([]byte, net.Addr) (int, error) { return 0, net.ErrClosed }
func (c *recorded) Close() error                          { return nil }
func (c *recorded) LocalAddr() net.Addr                   { return &net.UDPAddr{} }
func (c *recorded) SetDeadline(time.Time) error           { return nil }
func (c *recorded) SetReadDeadline(time.Time) error       { return nil }
func (c *recorded) SetWriteDeadline(time.Time) error      { return nil }

func packets() {
	for k := 1; k <= 2; k++ {
		s := float64(k)
		prog("PacketReader", fmt.Sprint(k), func() calls {
			c := &recorded{}
			for j := 0; j < 3; j++ {
				c.p = append(c.p, append([]byte{byte(0x10 * j), 0, byte(j), 0}, octets(4*(3+j), s+float64(j))...))
			}
			rd := borip.NewPacketReader(c, k == 1)
			buf := make([]complex128, 4)
			one := func(h *Hash) {
				n, err := rd.ReadSamples(buf)
				h.C128(buf[:n]...)
				h.Int(n, int(rd.Header().Idx), int(rd.Header().Flags))
				h.Str(fmt.Sprint(err))
			}
			return calls{one, one, one, one}
		})
	}
}
