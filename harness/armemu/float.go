package armemu

import "math"

func f32(b uint32) float32 { return math.Float32frombits(b) }
func b32(f float32) uint32 { return math.Float32bits(f) }
func f64(b uint64) float64 { return math.Float64frombits(b) }
func b64(f float64) uint64 { return math.Float64bits(f) }

func isNaN32(b uint32) bool { return b&0x7fffffff > 0x7f800000 }
func isNaN64(b uint64) bool { return b&^(1<<63) > 0x7ff0000000000000 }

// float operations, all correctly rounded.
func add32(a, b float32) float32 { return float32(a + b) }
func sub32(a, b float32) float32 { return float32(a - b) }
func mul32(a, b float32) float32 { return float32(a * b) }
func div32(a, b float32) float32 { return float32(a / b) }
func sqrt32(a float32) float32   { return float32(math.Sqrt(float64(a))) }

// fma32 rounds a*b+c once.
func fma32(a, b, c float32) float32 {
	p := float64(a) * float64(b) // exact
	cc := float64(c)
	s := p + cc
	if math.IsNaN(s) || math.IsInf(s, 0) {
		return float32(s)
	}
	// error of the sum (two-sum), then round to odd
	bb := s - p
	err := (p - (s - bb)) + (cc - bb)
	if err != 0 {
		u := math.Float64bits(s)
		if u&1 == 0 {
			if (err > 0) == (s > 0) {
				u++
			} else {
				u--
			}
			s = math.Float64frombits(u)
		}
	}
	return float32(s)
}

func toI32(f float64) uint32 {
	switch {
	case f != f:
		return 0
	case f >= 2147483648:
		return 0x7fffffff
	case f <= -2147483649:
		return 0x80000000
	}
	return uint32(int32(math.Trunc(f)))
}

func toU32(f float64) uint32 {
	switch {
	case f != f || f <= -1:
		return 0
	case f >= 4294967296:
		return 0xffffffff
	}
	return uint32(int64(math.Trunc(f)))
}

func toI64(f float64) uint64 {
	switch {
	case f != f:
		return 0
	case f >= 9223372036854775808:
		return 1<<63 - 1
	case f < -9223372036854775808:
		return 1 << 63
	}
	return uint64(int64(math.Trunc(f)))
}

func toU64(f float64) uint64 {
	switch {
	case f != f || f <= -1:
		return 0
	case f >= 18446744073709551616:
		return 1<<64 - 1
	case f >= 9223372036854775808:
		return uint64(int64(f-9223372036854775808)) + 1<<63
	}
	return uint64(int64(math.Trunc(f)))
}

// Advanced SIMD arithmetic of 32-bit ARM treats denormals as zero and has a
// single NaN.
// With Denormals set they are kept: what the routines would give on arithmetic
// with denormals.
var Denormals = true

func flush(b uint32) uint32 {
	if Denormals {
		return b
	}
	if b&0x7f800000 == 0 {
		return b & 0x80000000
	}
	return b
}

func neonOut(f float32) uint32 {
	b := b32(f)
	if isNaN32(b) {
		return 0x7fc00000
	}
	return flush(b)
}

func fmax32(a, b uint32) uint32 {
	x, y := f32(a), f32(b)
	switch {
	case isNaN32(a):
		return a | 0x400000
	case isNaN32(b):
		return b | 0x400000
	case x > y:
		return a
	case y > x:
		return b
	}
	return a & b // +0 if the zeros differ
}

func fmin32(a, b uint32) uint32 {
	x, y := f32(a), f32(b)
	switch {
	case isNaN32(a):
		return a | 0x400000
	case isNaN32(b):
		return b | 0x400000
	case x < y:
		return a
	case y < x:
		return b
	}
	return a | b
}
