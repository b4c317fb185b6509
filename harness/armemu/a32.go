package armemu

import (
	"math"
	"math/bits"
	"unsafe"
)

func ld8(a uint32) uint32  { return uint32(*(*uint8)(ptr(uintptr(a)))) }
func ld16(a uint32) uint32 { return uint32(*(*uint16)(ptr(uintptr(a)))) }
func ld32(a uint32) uint32 { return *(*uint32)(ptr(uintptr(a))) }
func st8(a, v uint32)      { *(*uint8)(ptr(uintptr(a))) = uint8(v) }
func st16(a, v uint32)     { *(*uint16)(ptr(uintptr(a))) = uint16(v) }
func st32(a, v uint32)     { *(*uint32)(ptr(uintptr(a))) = v }
func word(a uint32)        { aligned(uintptr(a), 4) }
func aligned(a, n uintptr) {
	if a%n != 0 {
		panic("emulator: alignment fault")
	}
}

var _ unsafe.Pointer

// reg reads a register as an operand; the program counter reads 8 ahead.
func (c *cpu) reg(i uint32) uint32 {
	if i == 15 {
		return uint32(c.pc) + 8
	}
	return c.r[i]
}

func (c *cpu) setReg(i, v uint32) {
	if i == 15 {
		c.next = uintptr(v &^ 3)
		return
	}
	c.r[i] = v
}

func (c *cpu) cond(k uint32) bool {
	switch k {
	case 0:
		return c.z
	case 1:
		return !c.z
	case 2:
		return c.c
	case 3:
		return !c.c
	case 4:
		return c.n
	case 5:
		return !c.n
	case 6:
		return c.v
	case 7:
		return !c.v
	case 8:
		return c.c && !c.z
	case 9:
		return !c.c || c.z
	case 10:
		return c.n == c.v
	case 11:
		return c.n != c.v
	case 12:
		return !c.z && c.n == c.v
	case 13:
		return c.z || c.n != c.v
	}
	return true
}

func decode32(i, pc uint32) step {
	k := i >> 28
	if k == 15 {
		return uncond32(i)
	}
	f := cond32(i, pc)
	if f == nil || k == 14 {
		return f
	}
	return func(c *cpu) {
		if c.cond(k) {
			f(c)
		}
	}
}

func cond32(i, pc uint32) step {
	switch i >> 25 & 7 {
	case 0:
		if i&0x90 == 0x90 {
			if i&0x60 == 0 {
				return mul32i(i)
			}
			return extra32(i)
		}
		if i&0x01900000 == 0x01000000 {
			return misc32(i)
		}
		return data32(i)
	case 1:
		if i&0x01900000 == 0x01000000 {
			switch i >> 20 & 0x1f {
			case 0x10, 0x14: // MOVW, MOVT
				d, v := i>>12&15, i>>4&0xf000|i&0xfff
				top := i>>20&0x1f == 0x14
				return func(c *cpu) {
					if top {
						c.setReg(d, c.r[d]&0xffff|v<<16)
					} else {
						c.setReg(d, v)
					}
				}
			case 0x12:
				if i&0xffff0 == 0xf0000>>4 || i&0x000fff00 == 0x0000f000 { // hints
					return func(*cpu) {}
				}
			}
			return nil
		}
		return data32(i)
	case 2:
		return mem32(i)
	case 3:
		if i&0x10 != 0 {
			return media32(i)
		}
		return mem32(i)
	case 4:
		return block32(i)
	case 5:
		t := pc + 8 + uint32(int32(i<<8)>>6)
		link := i&(1<<24) != 0
		return func(c *cpu) {
			if link {
				c.r[14] = uint32(c.pc) + 4
			}
			c.next = uintptr(t)
		}
	case 6, 7:
		return vfp32(i)
	}
	return nil
}

func shift(kind, n, v uint32, cin, imm bool) (uint32, bool) {
	if n == 0 && !imm {
		return v, cin
	}
	switch kind {
	case 0: // LSL
		switch {
		case n == 0:
			return v, cin
		case n < 32:
			return v << n, v>>(32-n)&1 != 0
		case n == 32:
			return 0, v&1 != 0
		}
		return 0, false
	case 1: // LSR
		if n == 0 {
			n = 32
		}
		switch {
		case n < 32:
			return v >> n, v>>(n-1)&1 != 0
		case n == 32:
			return 0, v>>31 != 0
		}
		return 0, false
	case 2: // ASR
		if n == 0 || n > 31 {
			n = 32
		}
		if n == 32 {
			s := uint32(int32(v) >> 31)
			return s, s != 0
		}
		return uint32(int32(v) >> n), v>>(n-1)&1 != 0
	}
	if n == 0 { // RRX
		r := v >> 1
		if cin {
			r |= 1 << 31
		}
		return r, v&1 != 0
	}
	n &= 31
	r := bits.RotateLeft32(v, -int(n))
	return r, r>>31 != 0
}

// operand2 of data processing and register offsets
func operand2(i uint32) func(c *cpu) (uint32, bool) {
	if i&(1<<25) != 0 && i>>25&7 == 1 {
		rot := i >> 8 & 15 * 2
		v := bits.RotateLeft32(i&0xff, -int(rot))
		return func(c *cpu) (uint32, bool) {
			if rot == 0 {
				return v, c.c
			}
			return v, v>>31 != 0
		}
	}
	return shifted(i)
}

func shifted(i uint32) func(c *cpu) (uint32, bool) {
	m, kind := i&15, i>>5&3
	if i&0x10 != 0 && i>>25&7 == 0 { // by register
		s := i >> 8 & 15
		return func(c *cpu) (uint32, bool) { return shift(kind, c.reg(s)&0xff, c.reg(m), c.c, false) }
	}
	n := i >> 7 & 31
	if n == 0 && kind == 0 {
		return func(c *cpu) (uint32, bool) { return c.reg(m), c.c }
	}
	return func(c *cpu) (uint32, bool) { return shift(kind, n, c.reg(m), c.c, true) }
}

func (c *cpu) addFlags(a, b uint32, cin uint32) uint32 {
	s := uint64(a) + uint64(b) + uint64(cin)
	r := uint32(s)
	c.n, c.z, c.c = r>>31 != 0, r == 0, s>>32 != 0
	c.v = (a^r)&(b^r)>>31 != 0
	return r
}

func data32(i uint32) step {
	op, sf := i>>21&15, i&(1<<20) != 0
	n, d := i>>16&15, i>>12&15
	o2 := operand2(i)
	if d == 15 && sf && (op < 8 || op > 11) {
		return nil
	}
	logic := func(f func(a, b uint32) uint32, store bool) step {
		return func(c *cpu) {
			b, co := o2(c)
			r := f(c.reg(n), b)
			if sf {
				c.n, c.z, c.c = r>>31 != 0, r == 0, co
			}
			if store {
				c.setReg(d, r)
			}
		}
	}
	arith := func(f func(a, b uint32, cin bool) (uint32, uint32, uint32), store bool) step {
		return func(c *cpu) {
			b, _ := o2(c)
			x, y, ci := f(c.reg(n), b, c.c)
			var r uint32
			if sf {
				r = c.addFlags(x, y, ci)
			} else {
				r = x + y + ci
			}
			if store {
				c.setReg(d, r)
			}
		}
	}
	b1 := func(b bool) uint32 {
		if b {
			return 1
		}
		return 0
	}
	switch op {
	case 0:
		return logic(func(a, b uint32) uint32 { return a & b }, true)
	case 1:
		return logic(func(a, b uint32) uint32 { return a ^ b }, true)
	case 2:
		return arith(func(a, b uint32, _ bool) (uint32, uint32, uint32) { return a, ^b, 1 }, true)
	case 3:
		return arith(func(a, b uint32, _ bool) (uint32, uint32, uint32) { return ^a, b, 1 }, true)
	case 4:
		return arith(func(a, b uint32, _ bool) (uint32, uint32, uint32) { return a, b, 0 }, true)
	case 5:
		return arith(func(a, b uint32, ci bool) (uint32, uint32, uint32) { return a, b, b1(ci) }, true)
	case 6:
		return arith(func(a, b uint32, ci bool) (uint32, uint32, uint32) { return a, ^b, b1(ci) }, true)
	case 7:
		return arith(func(a, b uint32, ci bool) (uint32, uint32, uint32) { return ^a, b, b1(ci) }, true)
	case 8:
		return logic(func(a, b uint32) uint32 { return a & b }, false)
	case 9:
		return logic(func(a, b uint32) uint32 { return a ^ b }, false)
	case 10:
		return arith(func(a, b uint32, _ bool) (uint32, uint32, uint32) { return a, ^b, 1 }, false)
	case 11:
		return arith(func(a, b uint32, _ bool) (uint32, uint32, uint32) { return a, b, 0 }, false)
	case 12:
		return logic(func(a, b uint32) uint32 { return a | b }, true)
	case 13:
		return logic(func(_, b uint32) uint32 { return b }, true)
	case 14:
		return logic(func(a, b uint32) uint32 { return a &^ b }, true)
	}
	return logic(func(_, b uint32) uint32 { return ^b }, true)
}

func misc32(i uint32) step {
	m, d := i&15, i>>12&15
	switch {
	case i&0x0ffffff0 == 0x012fff10: // BX
		return func(c *cpu) { c.next = uintptr(c.reg(m)) }
	case i&0x0ffffff0 == 0x012fff30: // BLX
		return func(c *cpu) {
			t := c.reg(m)
			c.r[14] = uint32(c.pc) + 4
			c.next = uintptr(t)
		}
	case i&0x0fff0ff0 == 0x016f0f10: // CLZ
		return func(c *cpu) { c.setReg(d, uint32(bits.LeadingZeros32(c.reg(m)))) }
	}
	return nil
}

func mul32i(i uint32) step {
	if i>>24&15 != 0 {
		return nil
	}
	d, n, s, m := i>>16&15, i>>12&15, i>>8&15, i&15
	if i&(1<<20) != 0 {
		return nil
	}
	switch i >> 21 & 7 {
	case 0:
		return func(c *cpu) { c.r[d] = c.r[m] * c.r[s] }
	case 1:
		return func(c *cpu) { c.r[d] = c.r[m]*c.r[s] + c.r[n] }
	case 3:
		return func(c *cpu) { c.r[d] = c.r[n] - c.r[m]*c.r[s] }
	case 4:
		return func(c *cpu) {
			p := uint64(c.r[m]) * uint64(c.r[s])
			c.r[n], c.r[d] = uint32(p), uint32(p>>32)
		}
	case 6:
		return func(c *cpu) {
			p := uint64(int64(int32(c.r[m])) * int64(int32(c.r[s])))
			c.r[n], c.r[d] = uint32(p), uint32(p>>32)
		}
	}
	return nil
}

// address computes the address of a load or store and writes it back.
func address(i uint32, off func(c *cpu) uint32) func(c *cpu) uint32 {
	n := i >> 16 & 15
	p, u, w := i&(1<<24) != 0, i&(1<<23) != 0, i&(1<<21) != 0
	return func(c *cpu) uint32 {
		o := off(c)
		if !u {
			o = -o
		}
		a := c.reg(n)
		if !p {
			c.r[n] = a + o
			return a
		}
		if w {
			c.r[n] = a + o
		}
		return a + o
	}
}

func mem32(i uint32) step {
	var off func(c *cpu) uint32
	if i&(1<<25) == 0 {
		v := i & 0xfff
		off = func(*cpu) uint32 { return v }
	} else {
		s := shifted(i)
		off = func(c *cpu) uint32 { v, _ := s(c); return v }
	}
	if i&(1<<24) == 0 && i&(1<<21) != 0 {
		return nil // unprivileged
	}
	a := address(i, off)
	d := i >> 12 & 15
	switch {
	case i&(1<<20) != 0 && i&(1<<22) != 0:
		return func(c *cpu) { c.setReg(d, ld8(a(c))) }
	case i&(1<<20) != 0:
		return func(c *cpu) { c.setReg(d, ld32(a(c))) }
	case i&(1<<22) != 0:
		return func(c *cpu) { v := c.reg(d); st8(a(c), v) }
	}
	return func(c *cpu) { v := c.reg(d); st32(a(c), v) }
}

func extra32(i uint32) step {
	var off func(c *cpu) uint32
	if i&(1<<22) != 0 {
		v := i>>4&0xf0 | i&15
		off = func(*cpu) uint32 { return v }
	} else {
		m := i & 15
		off = func(c *cpu) uint32 { return c.reg(m) }
	}
	a := address(i, off)
	d := i >> 12 & 15
	load := i&(1<<20) != 0
	switch i >> 5 & 3 {
	case 1:
		if load {
			return func(c *cpu) { c.setReg(d, ld16(a(c))) }
		}
		return func(c *cpu) { v := c.reg(d); st16(a(c), v) }
	case 2:
		if load {
			return func(c *cpu) { c.setReg(d, uint32(int32(int8(ld8(a(c)))))) }
		}
		return func(c *cpu) { // LDRD
			x := a(c)
			word(x)
			c.r[d], c.r[d+1] = ld32(x), ld32(x+4)
		}
	case 3:
		if load {
			return func(c *cpu) { c.setReg(d, uint32(int32(int16(ld16(a(c)))))) }
		}
		return func(c *cpu) { // STRD
			v, w := c.r[d], c.r[d+1]
			x := a(c)
			word(x)
			st32(x, v)
			st32(x+4, w)
		}
	}
	return nil
}

func media32(i uint32) step {
	n, d, m := i>>16&15, i>>12&15, i&15
	switch {
	case i&0x0ff00ff0 == 0x06500ff0: // USUB8
		return func(c *cpu) {
			a, b := c.r[n], c.r[m]
			var r uint32
			for k := 0; k < 32; k += 8 {
				r |= (a>>k - b>>k) & 0xff << k
			}
			c.r[d] = r
		}
	case i&0x0f8003f0 == 0x06800070: // sign and zero extensions
		rot := int(i >> 10 & 3 * 8)
		var ext func(v uint32) uint32
		switch i >> 20 & 7 {
		case 2:
			ext = func(v uint32) uint32 { return uint32(int32(int8(v))) }
		case 3:
			ext = func(v uint32) uint32 { return uint32(int32(int16(v))) }
		case 6:
			ext = func(v uint32) uint32 { return v & 0xff }
		case 7:
			ext = func(v uint32) uint32 { return v & 0xffff }
		default:
			return nil
		}
		return func(c *cpu) {
			v := ext(bits.RotateLeft32(c.r[m], -rot))
			if n != 15 {
				v += c.r[n]
			}
			c.r[d] = v
		}
	case i&0x0fff0ff0 == 0x06bf0f30: // REV
		return func(c *cpu) { c.r[d] = bits.ReverseBytes32(c.r[m]) }
	case i&0x0fff0ff0 == 0x06bf0fb0: // REV16
		return func(c *cpu) { v := c.r[m]; c.r[d] = v<<8&0xff00ff00 | v>>8&0x00ff00ff }
	case i&0x0fa00070 == 0x07a00050: // SBFX, UBFX
		lsb, w := i>>7&31, i>>16&31+1
		if i&(1<<22) != 0 {
			return func(c *cpu) { c.r[d] = c.r[m] << (32 - lsb - w) >> (32 - w) }
		}
		return func(c *cpu) { c.r[d] = uint32(int32(c.r[m]<<(32-lsb-w)) >> (32 - w)) }
	case i&0x0fe00070 == 0x07c00010: // BFI, BFC
		lsb, msb := i>>7&31, i>>16&31
		mask := uint32(1<<(msb-lsb+1)-1) << lsb
		return func(c *cpu) {
			v := uint32(0)
			if m != 15 {
				v = c.r[m] << lsb
			}
			c.r[d] = c.r[d]&^mask | v&mask
		}
	case i&0x0ff0f0f0 == 0x0710f010: // SDIV
		return func(c *cpu) {
			a, b := int32(c.r[m]), int32(c.r[i>>8&15])
			_ = a
			x := int32(c.r[m])
			switch {
			case b == 0:
				c.r[n] = 0
			case x == math.MinInt32 && b == -1:
				c.r[n] = 1 << 31
			default:
				c.r[n] = uint32(x / b)
			}
		}
	case i&0x0ff0f0f0 == 0x0730f010: // UDIV
		s := i >> 8 & 15
		return func(c *cpu) {
			if c.r[s] == 0 {
				c.r[n] = 0
			} else {
				c.r[n] = c.r[m] / c.r[s]
			}
		}
	}
	return nil
}

func block32(i uint32) step {
	if i&(1<<22) != 0 {
		return nil
	}
	n, list := i>>16&15, i&0xffff
	p, u, w, load := i&(1<<24) != 0, i&(1<<23) != 0, i&(1<<21) != 0, i&(1<<20) != 0
	cnt := uint32(bits.OnesCount32(list)) * 4
	return func(c *cpu) {
		a := c.r[n]
		end := a + cnt
		if !u {
			end = a - cnt
			a = end
			if !p {
				a += 4
			}
		} else if p {
			a += 4
		}
		word(a)
		if w && (!load || list>>n&1 == 0) {
			defer func() { c.r[n] = end }()
		}
		for k := uint32(0); k < 16; k++ {
			if list>>k&1 == 0 {
				continue
			}
			if load {
				c.setReg(k, ld32(a))
			} else {
				st32(a, c.reg(k))
			}
			a += 4
		}
	}
}

// sreg is the number of a single register from its four bit field and extra bit.
func sreg(i uint32, at, extra uint) uint32 { return i>>at&15<<1 | i>>extra&1 }

// dreg is the number of a double register.
func dreg(i uint32, at, extra uint) uint32 { return i>>at&15 | i>>extra&1<<4 }

func (c *cpu) getD(k uint32) uint64 { return uint64(c.s[2*k]) | uint64(c.s[2*k+1])<<32 }
func (c *cpu) setD(k uint32, v uint64) {
	c.s[2*k], c.s[2*k+1] = uint32(v), uint32(v>>32)
}

func vfp32(i uint32) step {
	if i>>24&15 == 15 || i>>9&7 != 5 { // coprocessors 10 and 11 only
		return nil
	}
	dp := i&(1<<8) != 0
	t := i >> 12 & 15
	switch {
	case i&0x0f000e10 == 0x0e000a00:
		return vfpData(i, dp)
	case i&0x0fe00f7f == 0x0e000a10: // core and single
		s := sreg(i, 16, 7)
		if i&(1<<20) != 0 {
			return func(c *cpu) { c.setReg(t, c.s[s]) }
		}
		return func(c *cpu) { c.s[s] = c.reg(t) }
	case i&0x0fd00f7f == 0x0e000b10: // VMOV.32 Dd[x], Rt
		s := dreg(i, 16, 7)*2 + i>>21&1
		return func(c *cpu) { c.s[s] = c.reg(t) }
	case i&0x0fd00f7f == 0x0e100b10:
		s := dreg(i, 16, 7)*2 + i>>21&1
		return func(c *cpu) { c.setReg(t, c.s[s]) }
	case i&0x0f900f5f == 0x0e800b10: // VDUP
		k, q := dreg(i, 16, 7)*2, i>>21&1
		var f func(v uint32) uint32
		switch i>>21&2 | i>>5&1 {
		case 2:
			f = func(v uint32) uint32 { return v & 0xff * 0x01010101 }
		case 1:
			f = func(v uint32) uint32 { return v & 0xffff * 0x10001 }
		case 0:
			f = func(v uint32) uint32 { return v }
		default:
			return nil
		}
		return func(c *cpu) {
			v := f(c.reg(t))
			for j := uint32(0); j < 2+2*q; j++ {
				c.s[k+j] = v
			}
		}
	case i&0x0fff0fff == 0x0ef10a10: // VMRS
		if t == 15 {
			return func(c *cpu) {
				f := c.fpscr
				c.n, c.z, c.c, c.v = f>>31&1 != 0, f>>30&1 != 0, f>>29&1 != 0, f>>28&1 != 0
			}
		}
		return func(c *cpu) { c.r[t] = c.fpscr }
	case i&0x0fff0fff == 0x0ee10a10: // VMSR
		return func(c *cpu) { c.fpscr = c.reg(t) }
	case i&0x0fe00fd0 == 0x0c400a10: // two core, two single
		s, t2 := sreg(i, 0, 5), i>>16&15
		if i&(1<<20) != 0 {
			return func(c *cpu) { c.r[t], c.r[t2] = c.s[s], c.s[s+1] }
		}
		return func(c *cpu) { c.s[s], c.s[s+1] = c.r[t], c.r[t2] }
	case i&0x0fe00fd0 == 0x0c400b10: // two core, one double
		s, t2 := dreg(i, 0, 5)*2, i>>16&15
		if i&(1<<20) != 0 {
			return func(c *cpu) { c.r[t], c.r[t2] = c.s[s], c.s[s+1] }
		}
		return func(c *cpu) { c.s[s], c.s[s+1] = c.r[t], c.r[t2] }
	}
	if i>>25&7 != 6 {
		return nil
	}
	n, load := i>>16&15, i&(1<<20) != 0
	var s, cnt uint32
	imm := i & 0xff
	if dp {
		s = dreg(i, 12, 22) * 2
		cnt = imm &^ 1
	} else {
		s = sreg(i, 12, 22)
		cnt = imm
	}
	p, u, w := i&(1<<24) != 0, i&(1<<23) != 0, i&(1<<21) != 0
	if p && !w { // VLDR, VSTR
		cnt = 1
		if dp {
			cnt = 2
		}
		off := imm * 4
		if !u {
			off = -off
		}
		return func(c *cpu) {
			a := c.reg(n) + off
			word(a)
			for k := uint32(0); k < cnt; k++ {
				if load {
					c.s[s+k] = ld32(a + 4*k)
				} else {
					st32(a+4*k, c.s[s+k])
				}
			}
		}
	}
	if p == u || s+cnt > 64 || cnt == 0 {
		return nil
	}
	return func(c *cpu) {
		a := c.reg(n)
		if !u {
			a -= imm * 4
		}
		word(a)
		if w {
			if u {
				c.r[n] = a + imm*4
			} else {
				c.r[n] = a
			}
		}
		for k := uint32(0); k < cnt; k++ {
			if load {
				c.s[s+k] = ld32(a + 4*k)
			} else {
				st32(a+4*k, c.s[s+k])
			}
		}
	}
}

func vfpImm(i uint32, dp bool) uint64 {
	v := i>>12&0xf0 | i&15
	s, b, r := uint64(v>>7), uint64(v>>6&1), uint64(v&0x3f)
	rep := func(n uint) uint64 {
		if b != 0 {
			return 1<<n - 1
		}
		return 0
	}
	if dp {
		return s<<63 | (b^1)<<62 | rep(8)<<54 | r<<48
	}
	return s<<31 | (b^1)<<30 | rep(5)<<25 | r<<19
}

func (c *cpu) cmpFlags(un, lt, eq bool) {
	c.fpscr &= 0x0fffffff
	switch {
	case un:
		c.fpscr |= 3 << 28
	case eq:
		c.fpscr |= 6 << 28
	case lt:
		c.fpscr |= 8 << 28
	default:
		c.fpscr |= 2 << 28
	}
}

func vfpData(i uint32, dp bool) step {
	op := i >> 20 & 8 >> 0 >> 0
	op = i>>23&1<<3 | i>>21&1<<2 | i>>20&1<<1 | i>>6&1
	if op < 14 {
		return vfpArith(i, dp, op)
	}
	if op == 14 {
		v := vfpImm(i, dp)
		if dp {
			d := dreg(i, 12, 22)
			return func(c *cpu) { c.setD(d, v) }
		}
		return vfpVector(i, func(d, _, _ uint32) uint32 { return uint32(v) })
	}
	n7 := i&0x80 != 0
	sd, sm := sreg(i, 12, 22), sreg(i, 0, 5)
	dd, dm := dreg(i, 12, 22), dreg(i, 0, 5)
	un := func(f func(uint32) uint32, g func(uint64) uint64) step {
		if dp {
			return func(c *cpu) { c.setD(dd, g(c.getD(dm))) }
		}
		return vfpVector(i, func(_, _, m uint32) uint32 { return f(m) })
	}
	switch i >> 16 & 15 {
	case 0:
		if !n7 {
			return un(func(v uint32) uint32 { return v }, func(v uint64) uint64 { return v })
		}
		return un(func(v uint32) uint32 { return v &^ (1 << 31) }, func(v uint64) uint64 { return v &^ (1 << 63) })
	case 1:
		if !n7 {
			return un(func(v uint32) uint32 { return v ^ 1<<31 }, func(v uint64) uint64 { return v ^ 1<<63 })
		}
		return un(func(v uint32) uint32 { return b32(sqrt32(f32(v))) }, func(v uint64) uint64 { return b64(math.Sqrt(f64(v))) })
	case 4, 5:
		zero := i>>16&1 != 0
		return func(c *cpu) {
			var a, b float64
			if dp {
				a = f64(c.getD(dd))
				if !zero {
					b = f64(c.getD(dm))
				}
			} else {
				a = float64(f32(c.s[sd]))
				if !zero {
					b = float64(f32(c.s[sm]))
				}
			}
			c.cmpFlags(a != a || b != b, a < b, a == b)
		}
	case 7:
		if !n7 {
			return nil
		}
		if dp { // double to single
			return func(c *cpu) { c.s[sd] = b32(float32(f64(c.getD(dm)))) }
		}
		return func(c *cpu) { c.setD(dd, b64(float64(f32(c.s[sm])))) }
	case 8: // integer to float
		return func(c *cpu) {
			v := float64(c.s[sm])
			if n7 {
				v = float64(int32(c.s[sm]))
			}
			switch {
			case dp:
				c.setD(dd, b64(v))
			case n7:
				c.s[sd] = b32(float32(int32(c.s[sm])))
			default:
				c.s[sd] = b32(float32(c.s[sm]))
			}
		}
	case 12, 13:
		signed := i>>16&1 != 0
		return func(c *cpu) {
			v := float64(f32(c.s[sm]))
			if dp {
				v = f64(c.getD(dm))
			}
			if !n7 { // round to nearest, the only mode in use
				v = math.RoundToEven(v)
			}
			if signed {
				c.s[sd] = toI32(v)
			} else {
				c.s[sd] = toU32(v)
			}
		}
	}
	return nil
}

// vfpVector applies f to single registers, repeatedly in short vector mode.
func vfpVector(i uint32, f func(d, n, m uint32) uint32) step {
	d, n, m := sreg(i, 12, 22), sreg(i, 16, 7), sreg(i, 0, 5)
	return func(c *cpu) {
		if c.fpscr&(7<<16) == 0 || d < 8 {
			c.s[d] = f(c.s[d], c.s[n], c.s[m])
			return
		}
		count, stride := c.fpscr>>16&7+1, uint32(1)
		if c.fpscr>>20&3 == 3 {
			stride = 2
		} else if c.fpscr>>20&3 != 0 {
			panic("emulator: unpredictable vector stride")
		}
		next := func(r uint32) uint32 { return r&^7 | (r+stride)&7 }
		d, n, m := d, n, m
		for k := uint32(0); k < count; k++ {
			c.s[d] = f(c.s[d], c.s[n], c.s[m])
			d, n = next(d), next(n)
			if m >= 8 {
				m = next(m)
			}
		}
	}
}

func vfpArith(i uint32, dp bool, op uint32) step {
	var f func(d, n, m float32) float32
	var g func(d, n, m float64) float64
	switch op {
	case 0:
		f = func(d, n, m float32) float32 { return add32(d, mul32(n, m)) }
		g = func(d, n, m float64) float64 { return d + float64(n*m) }
	case 1:
		f = func(d, n, m float32) float32 { return add32(d, -mul32(n, m)) }
		g = func(d, n, m float64) float64 { return d + -float64(n*m) }
	case 2: // VNMLS
		f = func(d, n, m float32) float32 { return add32(-d, mul32(n, m)) }
		g = func(d, n, m float64) float64 { return -d + float64(n*m) }
	case 3: // VNMLA
		f = func(d, n, m float32) float32 { return add32(-d, -mul32(n, m)) }
		g = func(d, n, m float64) float64 { return -d + -float64(n*m) }
	case 4:
		f = func(_, n, m float32) float32 { return mul32(n, m) }
		g = func(_, n, m float64) float64 { return n * m }
	case 5:
		f = func(_, n, m float32) float32 { return -mul32(n, m) }
		g = func(_, n, m float64) float64 { return -float64(n * m) }
	case 6:
		f = func(_, n, m float32) float32 { return add32(n, m) }
		g = func(_, n, m float64) float64 { return n + m }
	case 7:
		f = func(_, n, m float32) float32 { return sub32(n, m) }
		g = func(_, n, m float64) float64 { return n - m }
	case 8:
		f = func(_, n, m float32) float32 { return div32(n, m) }
		g = func(_, n, m float64) float64 { return n / m }
	case 10: // VFNMS
		f = func(d, n, m float32) float32 { return fma32(n, m, -d) }
		g = func(d, n, m float64) float64 { return math.FMA(n, m, -d) }
	case 11: // VFNMA
		f = func(d, n, m float32) float32 { return fma32(-n, m, -d) }
		g = func(d, n, m float64) float64 { return math.FMA(-n, m, -d) }
	case 12:
		f = func(d, n, m float32) float32 { return fma32(n, m, d) }
		g = func(d, n, m float64) float64 { return math.FMA(n, m, d) }
	case 13:
		f = func(d, n, m float32) float32 { return fma32(-n, m, d) }
		g = func(d, n, m float64) float64 { return math.FMA(-n, m, d) }
	default:
		return nil
	}
	if dp {
		d, n, m := dreg(i, 12, 22), dreg(i, 16, 7), dreg(i, 0, 5)
		return func(c *cpu) {
			if c.fpscr&(7<<16) != 0 {
				unsupported("vectors of doubles")
			}
			c.setD(d, b64(g(f64(c.getD(d)), f64(c.getD(n)), f64(c.getD(m)))))
		}
	}
	return vfpVector(i, func(d, n, m uint32) uint32 { return b32(f(f32(d), f32(n), f32(m))) })
}

// uncond32 decodes what has no condition: hints and Advanced SIMD.
func uncond32(i uint32) step {
	switch {
	case i&0xfd70f000 == 0xf550f000, i&0xff30f000 == 0xf510f000, i&0xfd70f010 == 0xf750f000: // PLD, PLDW
		return func(*cpu) {}
	case i&0xffffff00 == 0xf57ff000: // barriers
		return func(*cpu) {}
	case i>>25 == 0x79:
		return neonData(i)
	case i&0xff900000 == 0xf4000000:
		return neonMem(i)
	}
	return nil
}

func neonMem(i uint32) step {
	var regs uint32
	switch i >> 8 & 15 {
	case 7:
		regs = 1
	case 10:
		regs = 2
	case 6:
		regs = 3
	case 2:
		regs = 4
	default:
		return nil
	}
	load := i&(1<<21) != 0
	n, m, d := i>>16&15, i&15, dreg(i, 12, 22)
	if d+regs > 32 {
		return nil
	}
	align := uintptr(1) << (i >> 6 & 3)
	if i>>4&3 != 0 {
		align = 4 << (i >> 4 & 3)
	} else {
		align = 1 // elements may be unaligned
	}
	return func(c *cpu) {
		a := c.r[n]
		aligned(uintptr(a), align)
		for k := uint32(0); k < 2*regs; k++ {
			if load {
				c.s[2*d+k] = ld32(a + 4*k)
			} else {
				st32(a+4*k, c.s[2*d+k])
			}
		}
		switch m {
		case 15:
		case 13:
			c.r[n] = a + 8*regs
		default:
			c.r[n] = a + c.r[m]
		}
	}
}

// lane reads element k of the given size in the register file from word w on.
func (c *cpu) lane(w, size, k uint32) uint32 {
	b := k * size
	return c.s[w+b/32] >> (b % 32) & uint32(1<<size-1)
}

func (c *cpu) setLane(w, size, k, v uint32) {
	b := k * size
	mask := uint32(1<<size-1) << (b % 32)
	p := &c.s[w+b/32]
	*p = *p&^mask | v<<(b%32)&mask
}

func signExt(v, size uint32) uint32 { return uint32(int32(v<<(32-size)) >> (32 - size)) }

func neonData(i uint32) step {
	u := i&(1<<24) != 0
	d, n, m := dreg(i, 12, 22), dreg(i, 16, 7), dreg(i, 0, 5)
	q := i&0x40 != 0
	words := uint32(2)
	if q {
		words = 4
	}
	size := i >> 20 & 3
	if i&(1<<23) == 0 { // three registers of the same length
		var f func(d, a, b uint32) uint32
		fop := func(g func(x, y float32) float32) func(d, a, b uint32) uint32 {
			return func(_, a, b uint32) uint32 { return neonOut(g(f32(flush(a)), f32(flush(b)))) }
		}
		max := func(_, a, b uint32) uint32 {
			a, b = flush(a), flush(b)
			if isNaN32(a) || isNaN32(b) {
				return 0x7fc00000
			}
			return fmax32(a, b)
		}
		min := func(_, a, b uint32) uint32 {
			a, b = flush(a), flush(b)
			if isNaN32(a) || isNaN32(b) {
				return 0x7fc00000
			}
			return fmin32(a, b)
		}
		pair := false
		switch i >> 8 & 15 {
		case 13:
			switch {
			case i&0x10 == 0 && !u && size == 0:
				f = fop(add32)
			case i&0x10 == 0 && !u && size == 2:
				f = fop(sub32)
			case i&0x10 == 0 && u && size == 0:
				f, pair = fop(add32), true
			case i&0x10 != 0 && u && size == 0:
				f = fop(mul32)
			case i&0x10 != 0 && !u && size == 0, i&0x10 != 0 && !u && size == 2:
				sub := size == 2
				f = func(d, a, b uint32) uint32 {
					p := neonOut(mul32(f32(flush(a)), f32(flush(b))))
					if sub {
						p ^= 1 << 31
					}
					return neonOut(add32(f32(flush(d)), f32(p)))
				}
			}
		case 15:
			if i&0x10 == 0 && size&1 == 0 {
				f, pair = max, u
				if size == 2 {
					f = min
				}
			}
		case 1:
			if i&0x10 != 0 {
				switch {
				case !u && size == 0:
					f = func(_, a, b uint32) uint32 { return a & b }
				case !u && size == 1:
					f = func(_, a, b uint32) uint32 { return a &^ b }
				case !u && size == 2:
					f = func(_, a, b uint32) uint32 { return a | b }
				case u && size == 0:
					f = func(_, a, b uint32) uint32 { return a ^ b }
				}
			}
		case 8:
			if i&0x10 == 0 && size < 3 {
				es := uint32(8) << size
				return func(c *cpu) {
					for k := uint32(0); k < words*32/es; k++ {
						a, b := c.lane(2*n, es, k), c.lane(2*m, es, k)
						if u {
							b = -b
						}
						c.setLane(2*d, es, k, a+b)
					}
				}
			}
		}
		if f == nil || (q && (d|n|m)&1 != 0) {
			return nil
		}
		if pair {
			if q {
				return nil
			}
			return func(c *cpu) {
				x := f(0, c.s[2*n], c.s[2*n+1])
				y := f(0, c.s[2*m], c.s[2*m+1])
				c.s[2*d], c.s[2*d+1] = x, y
			}
		}
		return func(c *cpu) {
			for k := uint32(0); k < words; k++ {
				c.s[2*d+k] = f(c.s[2*d+k], c.s[2*n+k], c.s[2*m+k])
			}
		}
	}
	if i&0x10 == 0 && size != 3 {
		if i&0x40 == 0 { // different lengths
			op := i >> 8 & 15
			if op > 3 || d&1 != 0 {
				return nil
			}
			es := uint32(8) << size
			if es == 32 {
				return nil
			}
			wide := op&1 != 0
			return func(c *cpu) {
				var out [8]uint32
				cnt := 64 / es
				for k := uint32(0); k < cnt; k++ {
					b := c.lane(2*m, es, k)
					var a uint32
					if wide {
						a = c.lane(2*n, 2*es, k)
					} else {
						a = c.lane(2*n, es, k)
					}
					if !u {
						b = signExt(b, es)
						if !wide {
							a = signExt(a, es)
						}
					}
					if op >= 2 {
						b = -b
					}
					out[k] = a + b
				}
				for k := uint32(0); k < cnt; k++ {
					c.setLane(2*d, 2*es, k, out[k])
				}
			}
		}
		// by scalar
		if i>>8&15 == 9 && size == 2 { // VMUL.F32
			words := uint32(2)
			if u {
				words = 4
			}
			sc := (i&15)*2 + i>>5&1
			return func(c *cpu) {
				s := f32(flush(c.s[sc]))
				for k := uint32(0); k < words; k++ {
					c.s[2*d+k] = neonOut(mul32(f32(flush(c.s[2*n+k])), s))
				}
			}
		}
		return nil
	}
	if i&0x10 != 0 && i&0x80 == 0 { // shifts by an immediate
		if i>>8&15 == 10 && i&0x40 == 0 && d&1 == 0 { // VSHLL, VMOVL
			imm := i >> 16 & 63
			var es uint32
			switch {
			case imm>>5 == 1:
				return vshll32(d, m, imm-32, u)
			case imm>>4 == 1:
				es = 16
			case imm>>3 == 1:
				es = 8
			default:
				return nil
			}
			sh := imm - es
			return func(c *cpu) {
				var out [8]uint32
				for k := uint32(0); k < 64/es; k++ {
					v := c.lane(2*m, es, k)
					if !u {
						v = signExt(v, es)
					}
					out[k] = v << sh
				}
				for k := uint32(0); k < 64/es; k++ {
					c.setLane(2*d, 2*es, k, out[k])
				}
			}
		}
		return nil
	}
	if u && size == 3 && i&0x800 == 0 && i&0x10 == 0 { // two registers
		sz := i >> 18 & 3
		switch i>>12&0x30 | i>>7&15 {
		case 0x3c, 0x3d, 0x3e, 0x3f:
			if sz != 2 {
				return nil
			}
			op := i >> 7 & 3
			return func(c *cpu) {
				for k := uint32(0); k < words; k++ {
					v := c.s[2*m+k]
					switch op {
					case 0:
						v = b32(float32(int32(v)))
					case 1:
						v = b32(float32(v))
					case 2:
						v = toI32(float64(f32(flush(v))))
					case 3:
						v = toU32(float64(f32(flush(v))))
					}
					c.s[2*d+k] = v
				}
			}
		}
	}
	return nil
}

func vshll32(d, m, sh uint32, u bool) step {
	return func(c *cpu) {
		for k := uint32(1); k != ^uint32(0); k-- {
			v := uint64(int64(int32(c.s[2*m+k])))
			if u {
				v = uint64(c.s[2*m+k])
			}
			c.setD(d+k, v<<sh)
		}
	}
}
