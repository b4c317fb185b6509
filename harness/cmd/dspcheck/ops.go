package main

import (
	"encoding/binary"
	"math"

	"github.com/samuel/go-dsp/dsp"
	"verif/harness/mem"
)

// op describes one bulk routine by its effect on raw little-endian memory.
type op struct {
	name       string
	inE, outE  int // element sizes (= natural alignment)
	inPer      int // input elements per unit
	outPer     int // output elements per unit
	mulE       int // element size of a third operand, 0 if none
	acc        bool
	same       bool // input and output have the same element type (aliasing allowed)
	align      int  // natural alignment of float parts (4 for complex64)
	call       func(in, out, mul vw, scale float64)
	ref        func(in, out, mul []byte, n int, scale float64) // writes n units into out
	approx     func(got, want []byte) bool                     // nil: bit-exact
	fill       func(dst []byte, k int)                         // input filler
	fillOut    func(dst []byte, k int)
	scales     []float64
	claims     map[string]bool
	strictExtr bool
}

// vw is a view: n elements at byte offset off in arena a, spare capacity.
type vw struct {
	a           *mem.Arena
	off, n, cap int
	isNil       bool
}

func sl[T any](v vw) []T {
	if v.isNil {
		return nil
	}
	return mem.Slice[T](v.a, v.off, v.n, v.cap)
}

var le = binary.LittleEndian

func pf32(b []byte, f float32) { le.PutUint32(b, math.Float32bits(f)) }
func gf32(b []byte) float32    { return math.Float32frombits(le.Uint32(b)) }
func pf64(b []byte, f float64) { le.PutUint64(b, math.Float64bits(f)) }
func gf64(b []byte) float64    { return math.Float64frombits(le.Uint64(b)) }

func mix(k int) uint32 {
	x := uint32(k)*2654435761 + 0x9e3779b9
	x ^= x >> 15
	x *= 0x85ebca6b
	x ^= x >> 13
	return x
}

func fillBytes(dst []byte, k int) {
	for i := range dst {
		dst[i] = byte(mix(k + i))
	}
}

// fillF32 fills with in-range floats with fractions.
func fillF32(dst []byte, k int) {
	for i := 0; i+4 <= len(dst); i += 4 {
		v := float32(int32(mix(k+i/4))>>12) / 64
		if v == 0 {
			v = 1
		}
		pf32(dst[i:], v)
	}
}

func fillF32small(dst []byte, k int) {
	for i := 0; i+4 <= len(dst); i += 4 {
		pf32(dst[i:], float32(int32(mix(k+i/4))>>25)+0.25*float32(mix(k+i)%4))
	}
}

// close32 allows a few units in the last place plus an absolute share.
func close32(got, want []byte) bool {
	for i := 0; i+4 <= len(want); i += 4 {
		g, w := float64(gf32(got[i:])), float64(gf32(want[i:]))
		if g == w || (math.IsNaN(g) && math.IsNaN(w)) {
			continue
		}
		if !(math.Abs(g-w) <= 1e-6*math.Abs(w)) {
			return false
		}
	}
	return true
}

// closeCplx compares interleaved complex32 numbers relative to their modulus bound.
func closeCplx(got, want []byte) bool {
	for i := 0; i+8 <= len(want); i += 8 {
		gr, gi := float64(gf32(got[i:])), float64(gf32(got[i+4:]))
		wr, wi := float64(gf32(want[i:])), float64(gf32(want[i+4:]))
		m := math.Hypot(wr, wi)
		tol := 1e-6 * m
		if !(math.Abs(gr-wr) <= tol) || !(math.Abs(gi-wi) <= tol) {
			return false
		}
	}
	return true
}

func trunc16(v float32, scale float64) int16 { return int16(int32(v * float32(scale))) }

var ops = []*op{
	{name: "Ui8toi16", inE: 1, outE: 2, inPer: 1, outPer: 1,
		call: func(in, out, _ vw, _ float64) { dsp.Ui8toi16(sl[byte](in), sl[int16](out)) },
		ref:  refU8to16, fill: fillBytes},
	{name: "Ui8toi16b", inE: 1, outE: 1, inPer: 1, outPer: 2,
		call: func(in, out, _ vw, _ float64) { dsp.Ui8toi16b(sl[byte](in), sl[byte](out)) },
		ref:  refU8to16, fill: fillBytes},
	{name: "Ui8tof32", inE: 1, outE: 4, inPer: 1, outPer: 1,
		call: func(in, out, _ vw, _ float64) { dsp.Ui8tof32(sl[byte](in), sl[float32](out)) },
		ref:  refU8toF, fill: fillBytes},
	{name: "I8tof32", inE: 1, outE: 4, inPer: 1, outPer: 1,
		call: func(in, out, _ vw, _ float64) { dsp.I8tof32(sl[byte](in), sl[float32](out)) },
		ref:  refS8toF, fill: fillBytes},
	{name: "Ui8toc64", inE: 1, outE: 8, inPer: 2, outPer: 1, align: 4,
		call: func(in, out, _ vw, _ float64) { dsp.Ui8toc64(sl[byte](in), sl[complex64](out)) },
		ref:  func(in, out, m []byte, n int, s float64) { refU8toF(in, out, m, 2*n, s) }, fill: fillBytes},
	{name: "I8toc64", inE: 1, outE: 8, inPer: 2, outPer: 1, align: 4,
		call: func(in, out, _ vw, _ float64) { dsp.I8toc64(sl[int8](in), sl[complex64](out)) },
		ref:  func(in, out, m []byte, n int, s float64) { refS8toF(in, out, m, 2*n, s) }, fill: fillBytes},
	{name: "I16ToBLE", inE: 2, outE: 1, inPer: 1, outPer: 2,
		call: func(in, out, _ vw, _ float64) { dsp.I16ToBLE(sl[int16](in), sl[byte](out)) },
		ref:  func(in, out, _ []byte, n int, _ float64) { copy(out[:2*n], in[:2*n]) }, fill: fillBytes},
	{name: "I16bleToF64", inE: 1, outE: 8, inPer: 2, outPer: 1,
		call: func(in, out, _ vw, s float64) { dsp.I16bleToF64(sl[byte](in), sl[float64](out), s) },
		ref: func(in, out, _ []byte, n int, s float64) {
			for i := 0; i < n; i++ {
				pf64(out[8*i:], float64(int16(le.Uint16(in[2*i:])))*s)
			}
		}, fill: fillBytes, scales: []float64{1, 1.0 / 32768, -2.5, 0.1, 0, -1}},
	{name: "I16bleToF32", inE: 1, outE: 4, inPer: 2, outPer: 1,
		call: func(in, out, _ vw, s float64) { dsp.I16bleToF32(sl[byte](in), sl[float32](out), float32(s)) },
		ref: func(in, out, _ []byte, n int, s float64) {
			for i := 0; i < n; i++ {
				pf32(out[4*i:], float32(int16(le.Uint16(in[2*i:])))*float32(s))
			}
		}, fill: fillBytes, scales: []float64{1, 1.0 / 32768, -2.5, 0.1, 0, -1}},
	{name: "I32bleToF32", inE: 1, outE: 4, inPer: 4, outPer: 1,
		call: func(in, out, _ vw, s float64) { dsp.I32bleToF32(sl[byte](in), sl[float32](out), float32(s)) },
		ref: func(in, out, _ []byte, n int, s float64) {
			for i := 0; i < n; i++ {
				pf32(out[4*i:], float32(int32(le.Uint32(in[4*i:])))*float32(s))
			}
		}, approx: close32, fill: fillBytes, scales: []float64{1, 1.0 / 2147483648, -2.5, 0.1}},
	{name: "F32Tof32ble", inE: 4, outE: 1, inPer: 1, outPer: 4,
		call: func(in, out, _ vw, _ float64) { dsp.F32Tof32ble(sl[float32](in), sl[byte](out)) },
		ref:  func(in, out, _ []byte, n int, _ float64) { copy(out[:4*n], in[:4*n]) }, fill: fillF32},

	{name: "F32toi16", inE: 4, outE: 2, inPer: 1, outPer: 1,
		call: func(in, out, _ vw, s float64) { dsp.F32toi16(sl[float32](in), sl[int16](out), float32(s)) },
		ref:  refFto16, fill: fillF32, scales: []float64{1, 2.5, -0.75, 0, -1}},
	{name: "F32toi16ble", inE: 4, outE: 1, inPer: 1, outPer: 2,
		call: func(in, out, _ vw, s float64) { dsp.F32toi16ble(sl[float32](in), sl[byte](out), float32(s)) },
		ref:  refFto16, fill: fillF32, scales: []float64{1, 2.5, -0.75, 0, -1}},
	{name: "C64toi8", inE: 8, outE: 1, inPer: 1, outPer: 2, align: 4,
		call: func(in, out, _ vw, _ float64) { dsp.C64toi8(sl[complex64](in), sl[int8](out)) },
		ref: func(in, out, _ []byte, n int, _ float64) {
			for i := 0; i < 2*n; i++ {
				out[i] = byte(int8(gf32(in[4*i:])))
			}
		}, fill: fillF32small},

	{name: "VAddF32", inE: 4, outE: 4, inPer: 1, outPer: 1, acc: true, same: true,
		call: func(in, out, _ vw, _ float64) { dsp.VAddF32(sl[float32](in), sl[float32](out)) },
		ref:  refAdd, fill: fillF32, fillOut: fillF32},
	{name: "VAddC64", inE: 8, outE: 8, inPer: 1, outPer: 1, align: 4, acc: true, same: true,
		call: func(in, out, _ vw, _ float64) { dsp.VAddC64(sl[complex64](in), sl[complex64](out)) },
		ref:  func(in, out, m []byte, n int, s float64) { refAdd(in, out, m, 2*n, s) }, fill: fillF32, fillOut: fillF32},
	{name: "VScaleF32", inE: 4, outE: 4, inPer: 1, outPer: 1, same: true,
		call: func(in, out, _ vw, s float64) { dsp.VScaleF32(sl[float32](in), sl[float32](out), float32(s)) },
		ref:  refScale, fill: fillF32, scales: []float64{3, -0.1, 0, 1, -1, 1e-30, 1e36, 0.5, 2}},
	{name: "VScaleC64", inE: 8, outE: 8, inPer: 1, outPer: 1, align: 4, same: true,
		call: func(in, out, _ vw, s float64) { dsp.VScaleC64(sl[complex64](in), sl[complex64](out), float32(s)) },
		ref:  func(in, out, m []byte, n int, s float64) { refScale(in, out, m, 2*n, s) }, fill: fillF32, scales: []float64{3, -0.1, 0, 1, -1, 1e-30, 1e36, 0.5, 2}},
	{name: "VMulC64xF32", inE: 8, outE: 8, inPer: 1, outPer: 1, align: 4, mulE: 4, same: true,
		call: func(in, out, mul vw, _ float64) {
			dsp.VMulC64xF32(sl[complex64](in), sl[complex64](out), sl[float32](mul))
		},
		ref: func(in, out, m []byte, n int, s float64) {
			for i := 0; i < n; i++ {
				w := gf32(m[4*i:])
				re, im := gf32(in[8*i:])*w, gf32(in[8*i+4:])*w
				pf32(out[8*i:], re)
				pf32(out[8*i+4:], im)
			}
		}, fill: fillF32},
	{name: "VMulC64", inE: 8, outE: 8, inPer: 1, outPer: 1, align: 4, mulE: 8, same: true,
		call: func(in, out, mul vw, _ float64) {
			dsp.VMulC64(sl[complex64](in), sl[complex64](out), sl[complex64](mul))
		},
		ref: func(in, out, m []byte, n int, s float64) {
			for i := 0; i < n; i++ {
				a, b := float64(gf32(in[8*i:])), float64(gf32(in[8*i+4:]))
				c, d := float64(gf32(m[8*i:])), float64(gf32(m[8*i+4:]))
				pf32(out[8*i:], float32(a*c-b*d))
				pf32(out[8*i+4:], float32(a*d+b*c))
			}
		}, approx: closeCplx, fill: fillF32},
	{name: "VAbsC64", inE: 8, outE: 4, inPer: 1, outPer: 1, align: 4,
		call: func(in, out, _ vw, _ float64) { dsp.VAbsC64(sl[complex64](in), sl[float32](out)) },
		ref: func(in, out, m []byte, n int, s float64) {
			for i := 0; i < n; i++ {
				pf32(out[4*i:], float32(math.Hypot(float64(gf32(in[8*i:])), float64(gf32(in[8*i+4:])))))
			}
		}, approx: close32, fill: fillF32},
}

func refU8to16(in, out, _ []byte, n int, _ float64) {
	for i := 0; i < n; i++ {
		v := byte(int(in[i]) - 128)
		out[2*i], out[2*i+1] = v, v
	}
}

func refU8toF(in, out, _ []byte, n int, _ float64) {
	for i := 0; i < n; i++ {
		pf32(out[4*i:], float32(int(in[i])-128))
	}
}

func refS8toF(in, out, _ []byte, n int, _ float64) {
	for i := 0; i < n; i++ {
		pf32(out[4*i:], float32(int8(in[i])))
	}
}

func refFto16(in, out, _ []byte, n int, s float64) {
	for i := 0; i < n; i++ {
		le.PutUint16(out[2*i:], uint16(trunc16(gf32(in[4*i:]), s)))
	}
}

func refAdd(in, out, _ []byte, n int, _ float64) {
	for i := 0; i < n; i++ {
		pf32(out[4*i:], gf32(out[4*i:])+gf32(in[4*i:]))
	}
}

func refScale(in, out, _ []byte, n int, s float64) {
	for i := 0; i < n; i++ {
		pf32(out[4*i:], gf32(in[4*i:])*float32(s))
	}
}

func init() {
	for _, o := range ops {
		if o.align == 0 {
			o.align = 0 // element size
		}
		if len(o.scales) == 0 {
			o.scales = []float64{1}
		}
	}
}

func (o *op) inAlign() int {
	if o.inE == 8 && o.align == 4 {
		return 4
	}
	return o.inE
}

func (o *op) outAlign() int {
	if o.outE == 8 && o.align == 4 {
		return 4
	}
	if o.outE == 8 {
		return natural64
	}
	return o.outE
}

func (o *op) units(nIn, nOut, nMul int) int {
	n := nIn / o.inPer
	if m := nOut / o.outPer; m < n {
		n = m
	}
	if o.mulE > 0 && nMul < n {
		n = nMul
	}
	return n
}

func opByName(n string) *op {
	for _, o := range ops {
		if o.name == n {
			return o
		}
	}
	panic(n)
}
