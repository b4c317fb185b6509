package armemu

import (
	"math"
	"math/bits"
	"unsafe"
)

// rx reads a general register; number 31 is zero.
func (c *cpu) rx(i uint32, w bool) uint64 {
	if i == 31 {
		return 0
	}
	if !w {
		return uint64(uint32(c.x[i]))
	}
	return c.x[i]
}

func (c *cpu) wx(i uint32, w bool, v uint64) {
	if i == 31 {
		return
	}
	if !w {
		v = uint64(uint32(v))
	}
	c.x[i] = v
}

// rsp and wsp: number 31 is the stack pointer.
func (c *cpu) rsp(i uint32, w bool) uint64 {
	if !w {
		return uint64(uint32(c.x[i]))
	}
	return c.x[i]
}

func (c *cpu) wsp(i uint32, w bool, v uint64) {
	if !w {
		v = uint64(uint32(v))
	}
	c.x[i] = v
}

func sext(v uint64, n uint) uint64 { return uint64(int64(v<<(64-n)) >> (64 - n)) }

func (c *cpu) adds64(a, b, cin uint64, w bool) uint64 {
	if !w {
		a, b = uint64(uint32(a)), uint64(uint32(b))
		s := a + b + cin
		r := uint64(uint32(s))
		c.n, c.z, c.c = r>>31 != 0, r == 0, s>>32 != 0
		c.v = (a^r)&(b^r)>>31&1 != 0
		return r
	}
	r, co := bits.Add64(a, b, cin)
	c.n, c.z, c.c = r>>63 != 0, r == 0, co != 0
	c.v = (a^r)&(b^r)>>63 != 0
	return r
}

func (c *cpu) logicFlags(r uint64, w bool) {
	if !w {
		r = uint64(uint32(r))
		c.n = r>>31 != 0
	} else {
		c.n = r>>63 != 0
	}
	c.z, c.c, c.v = r == 0, false, false
}

func shift64(v uint64, kind, n uint32, w bool) uint64 {
	if !w {
		x := uint32(v)
		n &= 31
		switch kind {
		case 0:
			return uint64(x << n)
		case 1:
			return uint64(x >> n)
		case 2:
			return uint64(uint32(int32(x) >> n))
		}
		return uint64(bits.RotateLeft32(x, -int(n)))
	}
	n &= 63
	switch kind {
	case 0:
		return v << n
	case 1:
		return v >> n
	case 2:
		return uint64(int64(v) >> n)
	}
	return bits.RotateLeft64(v, -int(n))
}

func extend64(v uint64, opt, sh uint32) uint64 {
	switch opt {
	case 0:
		v = uint64(uint8(v))
	case 1:
		v = uint64(uint16(v))
	case 2:
		v = uint64(uint32(v))
	case 4:
		v = sext(v, 8)
	case 5:
		v = sext(v, 16)
	case 6:
		v = sext(v, 32)
	}
	return v << sh
}

// bitmasks decodes the immediate of logical and bitfield instructions.
func bitmasks(n, imms, immr uint32, logical bool) (wmask, tmask uint64, ok bool) {
	l := 31 - bits.LeadingZeros32(n<<6|^imms&63)
	if l < 1 {
		return 0, 0, false
	}
	levels := uint32(1)<<uint(l) - 1
	if logical && imms&levels == levels {
		return 0, 0, false
	}
	s, r := imms&levels, immr&levels
	diff := (s - r) & levels
	size := uint(1) << uint(l)
	ones := func(k uint32) uint64 {
		if k >= 64 {
			return ^uint64(0)
		}
		return 1<<k - 1
	}
	welem, telem := ones(s+1), ones(diff+1)
	if r != 0 {
		m := ones(uint32(size))
		welem = (welem>>r | welem<<(uint32(size)-r)) & m
	}
	for k := uint(0); k < 64; k += size {
		wmask |= welem << k
		tmask |= telem << k
	}
	return wmask, tmask, true
}

func decode64(i uint32, pc uint64) step {
	switch i >> 25 & 15 {
	case 8, 9:
		return imm64(i, pc)
	case 10, 11:
		return branch64(i, pc)
	case 4, 6, 12, 14:
		return mem64(i, pc)
	case 5, 13:
		return reg64(i)
	case 7, 15:
		return fp64(i)
	}
	return nil
}

func imm64(i uint32, pc uint64) step {
	w := i>>31 != 0
	d, n := i&31, i>>5&31
	switch i >> 23 & 7 {
	case 0, 1: // ADR, ADRP
		v := sext(uint64(i>>5&0x7ffff<<2|i>>29&3), 21)
		if w {
			v = pc&^0xfff + v<<12
		} else {
			v = pc + v
		}
		return func(c *cpu) { c.wx(d, true, v) }
	case 2: // ADD, SUB
		v := uint64(i >> 10 & 0xfff)
		if i>>22&1 != 0 {
			v <<= 12
		}
		sub, flags := i>>30&1 != 0, i>>29&1 != 0
		switch {
		case flags && sub:
			return func(c *cpu) { c.wx(d, w, c.adds64(c.rsp(n, w), ^v, 1, w)) }
		case flags:
			return func(c *cpu) { c.wx(d, w, c.adds64(c.rsp(n, w), v, 0, w)) }
		case sub:
			return func(c *cpu) { c.wsp(d, w, c.rsp(n, w)-v) }
		}
		return func(c *cpu) { c.wsp(d, w, c.rsp(n, w)+v) }
	case 4: // logical
		if !w && i>>22&1 != 0 {
			return nil
		}
		v, _, ok := bitmasks(i>>22&1, i>>10&63, i>>16&63, true)
		if !ok {
			return nil
		}
		switch i >> 29 & 3 {
		case 0:
			return func(c *cpu) { c.wsp(d, w, c.rx(n, w)&v) }
		case 1:
			return func(c *cpu) { c.wsp(d, w, c.rx(n, w)|v) }
		case 2:
			return func(c *cpu) { c.wsp(d, w, c.rx(n, w)^v) }
		}
		return func(c *cpu) {
			r := c.rx(n, w) & v
			c.logicFlags(r, w)
			c.wx(d, w, r)
		}
	case 5: // move wide
		sh := i >> 21 & 3 * 16
		if !w && sh > 16 {
			return nil
		}
		v := uint64(i>>5&0xffff) << sh
		switch i >> 29 & 3 {
		case 0:
			return func(c *cpu) { c.wx(d, w, ^v) }
		case 2:
			return func(c *cpu) { c.wx(d, w, v) }
		case 3:
			m := uint64(0xffff) << sh
			return func(c *cpu) { c.wx(d, w, c.rx(d, w)&^m|v) }
		}
	case 6: // bitfield
		if (i>>22&1 != 0) != w {
			return nil
		}
		r, s := i>>16&63, i>>10&63
		if !w && (r > 31 || s > 31) {
			return nil
		}
		wm, tm, ok := bitmasks(i>>22&1, s, r, false)
		if !ok {
			return nil
		}
		op := i >> 29 & 3
		if op == 3 {
			return nil
		}
		return func(c *cpu) {
			src := c.rx(n, w)
			var dst uint64
			if op == 1 {
				dst = c.rx(d, w)
			}
			bot := dst&^wm | shift64(src, 3, r, w)&wm
			top := dst
			if op == 0 {
				top = uint64(-int64(src >> s & 1))
			}
			c.wx(d, w, top&^tm|bot&tm)
		}
	case 7: // EXTR
		m, s := i>>16&31, i>>10&63
		if i>>29&3 != 0 || i>>21&1 != 0 || (i>>22&1 != 0) != w || !w && s > 31 {
			return nil
		}
		return func(c *cpu) {
			hi, lo := c.rx(n, w), c.rx(m, w)
			switch {
			case s == 0:
				c.wx(d, w, lo)
			case w:
				c.wx(d, w, lo>>s|hi<<(64-s))
			default:
				c.wx(d, w, lo>>s|hi<<(32-s))
			}
		}
	}
	return nil
}

func branch64(i uint32, pc uint64) step {
	switch {
	case i>>26&31 == 5: // B, BL
		t := uintptr(pc + sext(uint64(i&0x3ffffff), 26)<<2)
		if i>>31 != 0 {
			return func(c *cpu) { c.x[30] = uint64(c.pc) + 4; c.next = t }
		}
		return func(c *cpu) { c.next = t }
	case i>>24 == 0x54 && i&16 == 0:
		t, k := uintptr(pc+sext(uint64(i>>5&0x7ffff), 19)<<2), i&15
		return func(c *cpu) {
			if c.cond(k) {
				c.next = t
			}
		}
	case i>>25&63 == 0x1a: // CBZ, CBNZ
		t, n, w, nz := uintptr(pc+sext(uint64(i>>5&0x7ffff), 19)<<2), i&31, i>>31 != 0, i>>24&1 != 0
		return func(c *cpu) {
			if (c.rx(n, w) != 0) == nz {
				c.next = t
			}
		}
	case i>>25&63 == 0x1b: // TBZ, TBNZ
		t, n, b, nz := uintptr(pc+sext(uint64(i>>5&0x3fff), 14)<<2), i&31, i>>31<<5|i>>19&31, i>>24&1 != 0
		return func(c *cpu) {
			if (c.rx(n, true)>>b&1 != 0) == nz {
				c.next = t
			}
		}
	case i&0xff9ffc1f == 0xd61f0000&0xff9ffc1f && i>>23&1 == 0: // BR, BLR, RET
		n := i >> 5 & 31
		switch i >> 21 & 3 {
		case 0, 2:
			return func(c *cpu) { c.next = uintptr(c.rx(n, true)) }
		case 1:
			return func(c *cpu) {
				t := c.rx(n, true)
				c.x[30] = uint64(c.pc) + 4
				c.next = uintptr(t)
			}
		}
	case i&0xfffff01f == 0xd503201f: // hints
		return func(*cpu) {}
	case i&0xfffff01f == 0xd503301f: // barriers
		return func(*cpu) {}
	}
	return nil
}

func l8(a uint64) uint64  { return uint64(*(*uint8)(ptr(uintptr(a)))) }
func l16(a uint64) uint64 { return uint64(*(*uint16)(ptr(uintptr(a)))) }
func l32(a uint64) uint64 { return uint64(*(*uint32)(ptr(uintptr(a)))) }
func l64(a uint64) uint64 { return *(*uint64)(ptr(uintptr(a))) }
func s8(a, v uint64)      { *(*uint8)(ptr(uintptr(a))) = uint8(v) }
func s16(a, v uint64)     { *(*uint16)(ptr(uintptr(a))) = uint16(v) }
func s32(a, v uint64)     { *(*uint32)(ptr(uintptr(a))) = uint32(v) }
func s64(a, v uint64)     { *(*uint64)(ptr(uintptr(a))) = v }
func ldN(a uint64, lg uint32) uint64 {
	switch lg {
	case 0:
		return l8(a)
	case 1:
		return l16(a)
	case 2:
		return l32(a)
	}
	return l64(a)
}

func stN(a uint64, lg uint32, v uint64) {
	switch lg {
	case 0:
		s8(a, v)
	case 1:
		s16(a, v)
	case 2:
		s32(a, v)
	default:
		s64(a, v)
	}
}

var _ unsafe.Pointer

func (c *cpu) loadV(t uint32, a uint64, lg uint32) {
	if lg == 4 {
		c.q[t] = [2]uint64{l64(a), l64(a + 8)}
		return
	}
	c.q[t] = [2]uint64{ldN(a, lg), 0}
}

func (c *cpu) storeV(t uint32, a uint64, lg uint32) {
	if lg == 4 {
		s64(a, c.q[t][0])
		s64(a+8, c.q[t][1])
		return
	}
	stN(a, lg, c.q[t][0])
}

// access builds the transfer of one register.
// size and opc are as in the instruction.
func access(t uint32, vec bool, size, opc uint32) func(c *cpu, a uint64) {
	if vec {
		lg := size
		if opc&2 != 0 {
			if size != 0 {
				return nil
			}
			lg = 4
		}
		if opc&1 != 0 {
			return func(c *cpu, a uint64) { c.loadV(t, a, lg) }
		}
		return func(c *cpu, a uint64) { c.storeV(t, a, lg) }
	}
	switch opc {
	case 0:
		return func(c *cpu, a uint64) { stN(a, size, c.rx(t, true)) }
	case 1:
		return func(c *cpu, a uint64) { c.wx(t, true, ldN(a, size)) }
	case 2:
		if size == 3 { // PRFM
			return func(*cpu, uint64) {}
		}
		return func(c *cpu, a uint64) { c.wx(t, true, sext(ldN(a, size), 8<<size)) }
	}
	if size >= 2 {
		return nil
	}
	return func(c *cpu, a uint64) { c.wx(t, false, sext(ldN(a, size), 8<<size)) }
}

func mem64(i uint32, pc uint64) step {
	t, n := i&31, i>>5&31
	vec := i>>26&1 != 0
	switch {
	case i>>27&7 == 3 && i>>24&1 == 0 && i>>25&1 == 0: // literal
		a := pc + sext(uint64(i>>5&0x7ffff), 19)<<2
		opc := i >> 30
		if vec {
			if opc == 3 {
				return nil
			}
			return func(c *cpu) { c.loadV(t, a, opc+2) }
		}
		switch opc {
		case 0:
			return func(c *cpu) { c.wx(t, false, l32(a)) }
		case 1:
			return func(c *cpu) { c.wx(t, true, l64(a)) }
		case 2:
			return func(c *cpu) { c.wx(t, true, sext(l32(a), 32)) }
		}
		return func(*cpu) {}
	case i>>27&7 == 5: // pairs
		opc, mode, ld := i>>30, i>>23&7&3, i>>22&1 != 0
		if i>>25&1 != 0 {
			return nil
		}
		t2 := i >> 10 & 31
		var lg uint32
		var signed bool
		if vec {
			lg = opc + 2
			if opc == 3 {
				return nil
			}
		} else {
			switch opc {
			case 0:
				lg = 2
			case 1:
				lg, signed = 2, true
				if !ld {
					return nil
				}
			case 2:
				lg = 3
			default:
				return nil
			}
		}
		off := sext(uint64(i>>15&127), 7) << lg
		sz := uint64(1) << lg
		return func(c *cpu) {
			a := c.x[n]
			if mode != 1 {
				a += off
			}
			switch {
			case vec && ld:
				c.loadV(t, a, lg)
				c.loadV(t2, a+sz, lg)
			case vec:
				c.storeV(t, a, lg)
				c.storeV(t2, a+sz, lg)
			case ld:
				v, v2 := ldN(a, lg), ldN(a+sz, lg)
				if signed {
					v, v2 = sext(v, 32), sext(v2, 32)
				}
				c.wx(t, true, v)
				c.wx(t2, true, v2)
			default:
				stN(a, lg, c.rx(t, true))
				stN(a+sz, lg, c.rx(t2, true))
			}
			if mode&1 != 0 {
				if mode == 1 {
					a += off
				}
				c.x[n] = a
			}
		}
	case i>>27&7 == 7:
		size, opc := i>>30, i>>22&3
		do := access(t, vec, size, opc)
		if do == nil {
			return nil
		}
		lg := size
		if vec && opc&2 != 0 {
			lg = 4
		}
		if i>>24&1 != 0 { // unsigned offset
			off := uint64(i>>10&0xfff) << lg
			return func(c *cpu) { do(c, c.x[n]+off) }
		}
		if i>>21&1 == 0 {
			off := sext(uint64(i>>12&0x1ff), 9)
			switch i >> 10 & 3 {
			case 0:
				return func(c *cpu) { do(c, c.x[n]+off) }
			case 1:
				return func(c *cpu) {
					a := c.x[n]
					do(c, a)
					c.x[n] = a + off
				}
			case 3:
				return func(c *cpu) {
					a := c.x[n] + off
					do(c, a)
					c.x[n] = a
				}
			}
			return nil
		}
		if i>>10&3 != 2 {
			return nil
		}
		m, opt := i>>16&31, i>>13&7
		if opt&2 == 0 {
			return nil
		}
		var sh uint32
		if i>>12&1 != 0 {
			sh = lg
		}
		return func(c *cpu) { do(c, c.x[n]+extend64(c.rx(m, true), opt, sh)) }
	case i>>24&0xbf == 0x0c || i>>24&0xbf == 0x0c|0x0: // LD1/ST1 multiple
		if i>>31 != 0 || i>>21&1 != 0 {
			return nil
		}
		var regs uint32
		switch i >> 12 & 15 {
		case 7:
			regs = 1
		case 10:
			regs = 2
		case 6:
			regs = 3
		case 2:
			regs = 4
		default:
			return nil
		}
		lg := uint32(3) + i>>30&1
		ld, post, m := i>>22&1 != 0, i>>23&1 != 0, i>>16&31
		if !post && m != 0 {
			return nil
		}
		return func(c *cpu) {
			a := c.x[n]
			inc := uint64(regs) << lg
			if post && m != 31 {
				inc = c.x[m]
			}
			for k := uint32(0); k < regs; k++ {
				if ld {
					c.loadV((t+k)&31, a, lg)
				} else {
					c.storeV((t+k)&31, a, lg)
				}
				a += 1 << lg
			}
			if post {
				c.x[n] += inc
			}
		}
	}
	return nil
}

func reg64(i uint32) step {
	w := i>>31 != 0
	d, n, m := i&31, i>>5&31, i>>16&31
	switch {
	case i>>24&31 == 0x0a: // logical shifted
		kind, sh, inv := i>>22&3, i>>10&63, i>>21&1 != 0
		if !w && sh > 31 {
			return nil
		}
		op := i >> 29 & 3
		return func(c *cpu) {
			b := shift64(c.rx(m, w), kind, sh, w)
			if inv {
				b = ^b
			}
			a := c.rx(n, w)
			switch op {
			case 0:
				a &= b
			case 1:
				a |= b
			case 2:
				a ^= b
			case 3:
				a &= b
				c.logicFlags(a, w)
			}
			c.wx(d, w, a)
		}
	case i>>24&31 == 0x0b:
		sub, flags := i>>30&1 != 0, i>>29&1 != 0
		if i>>21&1 != 0 { // extended
			opt, sh := i>>13&7, i>>10&7
			if sh > 4 || i>>22&3 != 0 {
				return nil
			}
			return func(c *cpu) {
				a, b := c.rsp(n, w), extend64(c.rx(m, true), opt, sh)
				switch {
				case sub && flags:
					c.wx(d, w, c.adds64(a, ^b, 1, w))
				case flags:
					c.wx(d, w, c.adds64(a, b, 0, w))
				case sub:
					c.wsp(d, w, a-b)
				default:
					c.wsp(d, w, a+b)
				}
			}
		}
		kind, sh := i>>22&3, i>>10&63
		if kind == 3 || !w && sh > 31 {
			return nil
		}
		return func(c *cpu) {
			a, b := c.rx(n, w), shift64(c.rx(m, w), kind, sh, w)
			switch {
			case sub && flags:
				c.wx(d, w, c.adds64(a, ^b, 1, w))
			case flags:
				c.wx(d, w, c.adds64(a, b, 0, w))
			case sub:
				c.wx(d, w, a-b)
			default:
				c.wx(d, w, a+b)
			}
		}
	case i>>21&0xff == 0xd0 && i>>10&63 == 0: // ADC, SBC
		sub, flags := i>>30&1 != 0, i>>29&1 != 0
		return func(c *cpu) {
			a, b := c.rx(n, w), c.rx(m, w)
			var ci uint64
			if c.c {
				ci = 1
			}
			if sub {
				b = ^b
			}
			if flags {
				c.wx(d, w, c.adds64(a, b, ci, w))
			} else {
				c.wx(d, w, a+b+ci)
			}
		}
	case i>>21&0xff == 0xd2 && i>>29&1 != 0 && i>>10&1 == 0 && i>>4&1 == 0: // CCMN, CCMP
		k, nz, imm, cmp := i>>12&15, i&15, i>>11&1 != 0, i>>30&1 != 0
		return func(c *cpu) {
			if !c.cond(k) {
				c.n, c.z, c.c, c.v = nz>>3&1 != 0, nz>>2&1 != 0, nz>>1&1 != 0, nz&1 != 0
				return
			}
			b := uint64(m)
			if !imm {
				b = c.rx(m, w)
			}
			if cmp {
				c.adds64(c.rx(n, w), ^b, 1, w)
			} else {
				c.adds64(c.rx(n, w), b, 0, w)
			}
		}
	case i>>21&0xff == 0xd4 && i>>29&1 == 0 && i>>11&1 == 0: // CSEL…
		k, inv, inc := i>>12&15, i>>30&1 != 0, i>>10&1 != 0
		return func(c *cpu) {
			if c.cond(k) {
				c.wx(d, w, c.rx(n, w))
				return
			}
			b := c.rx(m, w)
			if inv {
				b = ^b
			}
			if inc {
				b++
			}
			c.wx(d, w, b)
		}
	case i>>21&0x3ff == 0x0d6: // two sources
		switch i >> 10 & 63 {
		case 2:
			return func(c *cpu) {
				a, b := c.rx(n, w), c.rx(m, w)
				if b == 0 {
					c.wx(d, w, 0)
				} else {
					c.wx(d, w, a/b)
				}
			}
		case 3:
			return func(c *cpu) {
				a, b := c.rx(n, w), c.rx(m, w)
				if !w {
					a, b = sext(a, 32), sext(b, 32)
				}
				switch {
				case b == 0:
					c.wx(d, w, 0)
				case b == ^uint64(0):
					c.wx(d, w, -a)
				default:
					c.wx(d, w, uint64(int64(a)/int64(b)))
				}
			}
		case 8, 9, 10, 11:
			kind := i >> 10 & 3
			return func(c *cpu) { c.wx(d, w, shift64(c.rx(n, w), kind, uint32(c.rx(m, w)), w)) }
		}
	case i>>21&0x3ff == 0x2d6 && m == 0: // one source
		switch i >> 10 & 63 {
		case 0:
			return func(c *cpu) {
				v := bits.Reverse64(c.rx(n, w))
				if !w {
					v >>= 32
				}
				c.wx(d, w, v)
			}
		case 1:
			return func(c *cpu) {
				v := c.rx(n, w)
				c.wx(d, w, v>>8&0x00ff00ff00ff00ff|v&0x00ff00ff00ff00ff<<8)
			}
		case 2:
			return func(c *cpu) {
				v := bits.ReverseBytes64(c.rx(n, w))
				if w { // REV32
					v = bits.RotateLeft64(v, 32)
				} else {
					v >>= 32
				}
				c.wx(d, w, v)
			}
		case 3:
			if w {
				return func(c *cpu) { c.wx(d, w, bits.ReverseBytes64(c.rx(n, w))) }
			}
		case 4:
			return func(c *cpu) {
				v := uint64(bits.LeadingZeros64(c.rx(n, w)))
				if !w {
					v -= 32
				}
				c.wx(d, w, v)
			}
		}
	case i>>24&31 == 0x1b && i>>29&3 == 0: // multiply-add
		a, neg := i>>10&31, i>>15&1 != 0
		op := i >> 21 & 7
		if op != 0 && !w {
			return nil
		}
		switch op {
		case 0, 1, 5:
			return func(c *cpu) {
				x, y := c.rx(n, w), c.rx(m, w)
				switch op {
				case 1:
					x, y = sext(x, 32), sext(y, 32)
				case 5:
					x, y = uint64(uint32(x)), uint64(uint32(y))
				}
				p := x * y
				if neg {
					p = -p
				}
				c.wx(d, w, c.rx(a, w)+p)
			}
		case 2, 6:
			return func(c *cpu) {
				x, y := c.rx(n, w), c.rx(m, w)
				hi, _ := bits.Mul64(x, y)
				if op == 2 {
					if int64(x) < 0 {
						hi -= y
					}
					if int64(y) < 0 {
						hi -= x
					}
				}
				c.wx(d, w, hi)
			}
		}
	}
	return nil
}

func (c *cpu) v32(n uint32) float32 { return f32(uint32(c.q[n][0])) }
func (c *cpu) v64(n uint32) float64 { return f64(c.q[n][0]) }
func (c *cpu) set32(d uint32, f float32) {
	c.q[d] = [2]uint64{uint64(b32(f)), 0}
}
func (c *cpu) set64(d uint32, f float64) { c.q[d] = [2]uint64{b64(f), 0} }

func (c *cpu) fpFlags(a, b float64) {
	switch {
	case a != a || b != b:
		c.n, c.z, c.c, c.v = false, false, true, true
	case a == b:
		c.n, c.z, c.c, c.v = false, true, true, false
	case a < b:
		c.n, c.z, c.c, c.v = true, false, false, false
	default:
		c.n, c.z, c.c, c.v = false, false, true, false
	}
}

func fmax64(a, b float64) float64 {
	if a != a {
		return a
	}
	if b != b {
		return b
	}
	return math.Max(a, b)
}

func fmin64(a, b float64) float64 {
	if a != a {
		return a
	}
	if b != b {
		return b
	}
	return math.Min(a, b)
}

func fpImm(i uint32) (float32, float64) {
	b := i >> 13 & 255
	e := b >> 4 & 7
	exp := int(e&3) + 1
	if e&4 != 0 {
		exp -= 4
	}
	f := float64(16+b&15) / 16
	f = (16 + float64(b&15)) / 16
	f = math.Ldexp(f, exp)
	if b>>7 != 0 {
		f = -f
	}
	return float32(f), f
}

func fp64(i uint32) step {
	if i>>28&1 == 0 || i>>30&1 != 0 && i>>28&5 == 5 {
		return simd64(i)
	}
	d, n, m := i&31, i>>5&31, i>>16&31
	if i>>24&0x5f == 0x1f && i>>31 == 0 { // FMADD…
		a := i >> 10 & 31
		// o1: negate the addend; o0 differs from o1: negate the product.
		o1, o0 := i>>21&1 != 0, i>>15&1 != 0
		negP, negA := o1 != o0, o1
		switch i >> 22 & 3 {
		case 0:
			return func(c *cpu) {
				x, y, z := c.v32(n), c.v32(m), c.v32(a)
				if negP {
					x = -x
				}
				if negA {
					z = -z
				}
				c.set32(d, fma32(x, y, z))
			}
		case 1:
			return func(c *cpu) {
				x, y, z := c.v64(n), c.v64(m), c.v64(a)
				if negP {
					x = -x
				}
				if negA {
					z = -z
				}
				c.set64(d, math.FMA(x, y, z))
			}
		}
		return nil
	}
	if i>>24&0x5f != 0x1e || i>>21&1 == 0 {
		return nil
	}
	typ := i >> 22 & 3
	if i>>10&63 == 0 { // conversions with general registers
		w := i>>31 != 0
		rmode, op := i>>19&3, i>>16&7
		switch {
		case op == 2 || op == 3: // SCVTF, UCVTF
			if rmode != 0 || typ > 1 {
				return nil
			}
			return func(c *cpu) {
				v := c.rx(n, w)
				if op == 2 {
					if !w {
						v = sext(v, 32)
					}
					if typ == 0 {
						c.set32(d, float32(int64(v)))
					} else {
						c.set64(d, float64(int64(v)))
					}
					return
				}
				if typ == 0 {
					c.set32(d, float32(v))
				} else {
					c.set64(d, float64(v))
				}
			}
		case op == 0 || op == 1 || op == 4 || op == 5: // FCVT*
			if typ > 1 || op >= 4 && rmode != 0 {
				return nil
			}
			return func(c *cpu) {
				var f float64
				if typ == 0 {
					f = float64(c.v32(n))
				} else {
					f = c.v64(n)
				}
				switch {
				case op >= 4:
					f = math.Round(f)
				case rmode == 0:
					f = math.RoundToEven(f)
				case rmode == 1:
					f = math.Ceil(f)
				case rmode == 2:
					f = math.Floor(f)
				}
				var v uint64
				switch {
				case op&1 == 0 && w:
					v = toI64(f)
				case op&1 == 0:
					v = uint64(toI32(f))
				case w:
					v = toU64(f)
				default:
					v = uint64(toU32(f))
				}
				c.wx(d, w, v)
			}
		case op == 6 && rmode == 0 && (!w && typ == 0 || w && typ == 1): // FMOV to general
			return func(c *cpu) { c.wx(d, w, c.q[n][0]) }
		case op == 7 && rmode == 0 && (!w && typ == 0 || w && typ == 1):
			return func(c *cpu) { c.q[d] = [2]uint64{c.rx(n, w), 0} }
		case op == 6 && rmode == 1 && w && typ == 2:
			return func(c *cpu) { c.wx(d, true, c.q[n][1]) }
		case op == 7 && rmode == 1 && w && typ == 2:
			return func(c *cpu) { c.q[d][1] = c.rx(n, true) }
		}
		return nil
	}
	if i>>31 != 0 || typ > 1 {
		return nil
	}
	dbl := typ == 1
	switch {
	case i>>10&3 == 2: // two sources
		op := i >> 12 & 15
		if op > 8 {
			return nil
		}
		if dbl {
			return func(c *cpu) {
				x, y := c.v64(n), c.v64(m)
				var r float64
				switch op {
				case 0:
					r = x * y
				case 1:
					r = x / y
				case 2:
					r = x + y
				case 3:
					r = x - y
				case 4:
					r = fmax64(x, y)
				case 5:
					r = fmin64(x, y)
				case 6: // FMAXNM
					switch {
					case x != x:
						r = y
					case y != y:
						r = x
					default:
						r = fmax64(x, y)
					}
				case 7:
					switch {
					case x != x:
						r = y
					case y != y:
						r = x
					default:
						r = fmin64(x, y)
					}
				case 8:
					r = -(x * y)
				}
				c.set64(d, r)
			}
		}
		return func(c *cpu) {
			x, y := c.v32(n), c.v32(m)
			var r float32
			switch op {
			case 0:
				r = mul32(x, y)
			case 1:
				r = div32(x, y)
			case 2:
				r = add32(x, y)
			case 3:
				r = sub32(x, y)
			case 4:
				r = f32(fmax32(b32(x), b32(y)))
			case 5:
				r = f32(fmin32(b32(x), b32(y)))
			case 6, 7:
				switch {
				case x != x:
					r = y
				case y != y:
					r = x
				case op == 6:
					r = f32(fmax32(b32(x), b32(y)))
				default:
					r = f32(fmin32(b32(x), b32(y)))
				}
			case 8:
				r = -mul32(x, y)
			}
			c.set32(d, r)
		}
	case i>>10&3 == 3: // FCSEL
		k := i >> 12 & 15
		return func(c *cpu) {
			r := m
			if c.cond(k) {
				r = n
			}
			v := c.q[r][0]
			if !dbl {
				v = uint64(uint32(v))
			}
			c.q[d] = [2]uint64{v, 0}
		}
	case i>>10&3 == 1: // FCCMP
		k, nz := i>>12&15, i&15
		return func(c *cpu) {
			if !c.cond(k) {
				c.n, c.z, c.c, c.v = nz>>3&1 != 0, nz>>2&1 != 0, nz>>1&1 != 0, nz&1 != 0
				return
			}
			if dbl {
				c.fpFlags(c.v64(n), c.v64(m))
			} else {
				c.fpFlags(float64(c.v32(n)), float64(c.v32(m)))
			}
		}
	case i>>10&15 == 8: // FCMP
		if i&7 != 0 || i>>14&3 != 0 {
			return nil
		}
		zero := i>>3&1 != 0
		return func(c *cpu) {
			var a, b float64
			if dbl {
				a, b = c.v64(n), c.v64(m)
			} else {
				a, b = float64(c.v32(n)), float64(c.v32(m))
			}
			if zero {
				b = 0
			}
			c.fpFlags(a, b)
		}
	case i>>10&7 == 4: // FMOV immediate
		if n != 0 {
			return nil
		}
		s, f := fpImm(i)
		if dbl {
			return func(c *cpu) { c.set64(d, f) }
		}
		return func(c *cpu) { c.set32(d, s) }
	case i>>10&31 == 16: // one source
		op := i >> 15 & 63
		switch op {
		case 0, 1, 2:
			return func(c *cpu) {
				v := c.q[n][0]
				sign := uint64(1) << 63
				if !dbl {
					v, sign = uint64(uint32(v)), 1<<31
				}
				switch op {
				case 1:
					v &^= sign
				case 2:
					v ^= sign
				}
				c.q[d] = [2]uint64{v, 0}
			}
		case 3:
			if dbl {
				return func(c *cpu) { c.set64(d, math.Sqrt(c.v64(n))) }
			}
			return func(c *cpu) { c.set32(d, sqrt32(c.v32(n))) }
		case 4:
			if dbl {
				return func(c *cpu) { c.set32(d, float32(c.v64(n))) }
			}
		case 5:
			if !dbl {
				return func(c *cpu) { c.set64(d, float64(c.v32(n))) }
			}
		case 8, 9, 10, 11, 12, 14, 15:
			round := func(f float64) float64 {
				switch op {
				case 9:
					return math.Ceil(f)
				case 10:
					return math.Floor(f)
				case 11:
					return math.Trunc(f)
				case 12:
					return math.Round(f)
				}
				return math.RoundToEven(f)
			}
			if dbl {
				return func(c *cpu) { c.set64(d, round(c.v64(n))) }
			}
			return func(c *cpu) { c.set32(d, float32(round(float64(c.v32(n))))) }
		}
	}
	return nil
}

// Lanes of a vector register.
func (c *cpu) vlane(n, lg, k uint32) uint64 {
	per := uint32(8) >> lg
	v := c.q[n][k/per] >> (k % per * (8 << lg))
	if lg == 3 {
		return v
	}
	return v & (1<<(8<<lg) - 1)
}

func setLane(q *[2]uint64, lg, k uint32, v uint64) {
	per := uint32(8) >> lg
	sh := k % per * (8 << lg)
	m := ^uint64(0)
	if lg < 3 {
		m = 1<<(8<<lg) - 1
	}
	q[k/per] = q[k/per]&^(m<<sh) | v&m<<sh
}

// lanes applies an operation lane by lane.
func lanes(d, lg, count uint32, f func(c *cpu, k uint32) uint64) step {
	return func(c *cpu) {
		var r [2]uint64
		for k := uint32(0); k < count; k++ {
			setLane(&r, lg, k, f(c, k))
		}
		c.q[d] = r
	}
}

func fpLane(op string, lg uint32, a, b uint64) uint64 {
	if lg == 3 {
		x, y := f64(a), f64(b)
		switch op {
		case "add":
			return b64(x + y)
		case "sub":
			return b64(x - y)
		case "mul":
			return b64(x * y)
		case "div":
			return b64(x / y)
		case "max":
			return b64(fmax64(x, y))
		}
		return b64(fmin64(x, y))
	}
	x, y := f32(uint32(a)), f32(uint32(b))
	switch op {
	case "add":
		return uint64(b32(add32(x, y)))
	case "sub":
		return uint64(b32(sub32(x, y)))
	case "mul":
		return uint64(b32(mul32(x, y)))
	case "div":
		return uint64(b32(div32(x, y)))
	case "max":
		return uint64(fmax32(uint32(a), uint32(b)))
	}
	return uint64(fmin32(uint32(a), uint32(b)))
}

func simd64(i uint32) step {
	d, n, m := i&31, i>>5&31, i>>16&31
	full, u := i>>30&1, i>>29&1 != 0
	size := i >> 22 & 3
	if i>>31 != 0 {
		return nil
	}
	vector := i>>28&1 == 0
	switch {
	case vector && i>>24&31 == 14 && i>>21&1 == 1 && i>>10&1 == 1: // three same
		op := i >> 11 & 31
		count := uint32(8) << full >> size
		get := func(c *cpu, k uint32) (uint64, uint64) { return c.vlane(n, size, k), c.vlane(m, size, k) }
		cmp := func(b bool) uint64 {
			if b {
				return ^uint64(0)
			}
			return 0
		}
		switch {
		case op == 3: // logical
			count = 1 + full
			k3 := size
			if u {
				if k3 != 0 && k3 <= 3 {
					return lanes(d, 3, count, func(c *cpu, k uint32) uint64 {
						a, b, e := c.vlane(n, 3, k), c.vlane(m, 3, k), c.vlane(d, 3, k)
						switch k3 {
						case 1:
							return a&e | b&^e
						case 2:
							return e&^b | a&b
						}
						return e&b | a&^b
					})
				}
				return lanes(d, 3, count, func(c *cpu, k uint32) uint64 { return c.vlane(n, 3, k) ^ c.vlane(m, 3, k) })
			}
			return lanes(d, 3, count, func(c *cpu, k uint32) uint64 {
				a, b := c.vlane(n, 3, k), c.vlane(m, 3, k)
				switch k3 {
				case 0:
					return a & b
				case 1:
					return a &^ b
				case 2:
					return a | b
				}
				return a | ^b
			})
		case op == 16:
			return lanes(d, size, count, func(c *cpu, k uint32) uint64 {
				a, b := get(c, k)
				if u {
					return a - b
				}
				return a + b
			})
		case op == 17 && u:
			return lanes(d, size, count, func(c *cpu, k uint32) uint64 { a, b := get(c, k); return cmp(a == b) })
		case op == 6 || op == 7:
			return lanes(d, size, count, func(c *cpu, k uint32) uint64 {
				a, b := get(c, k)
				if u {
					return cmp(a > b || op == 7 && a == b)
				}
				x, y := int64(sext(a, 8<<size)), int64(sext(b, 8<<size))
				return cmp(x > y || op == 7 && x == y)
			})
		case op == 12 || op == 13:
			return lanes(d, size, count, func(c *cpu, k uint32) uint64 {
				a, b := get(c, k)
				less := a < b
				if !u {
					less = int64(sext(a, 8<<size)) < int64(sext(b, 8<<size))
				}
				if less == (op == 12) {
					return b
				}
				return a
			})
		case op == 19 && !u && size < 3:
			return lanes(d, size, count, func(c *cpu, k uint32) uint64 { a, b := get(c, k); return a * b })
		case op >= 24:
			lg := 2 + size&1
			if lg == 3 && full == 0 {
				return nil
			}
			count = uint32(8) << full >> lg
			hi := size&2 != 0
			var name string
			switch {
			case op == 26 && !u && !hi:
				name = "add"
			case op == 26 && !u && hi:
				name = "sub"
			case op == 27 && u && !hi:
				name = "mul"
			case op == 31 && u && !hi:
				name = "div"
			case op == 30 && !u && !hi:
				name = "max"
			case op == 30 && !u && hi:
				name = "min"
			case op == 25 && !u: // FMLA, FMLS
				return lanes(d, lg, count, func(c *cpu, k uint32) uint64 {
					a, b, e := c.vlane(n, lg, k), c.vlane(m, lg, k), c.vlane(d, lg, k)
					return fmaLane(lg, a, b, e, hi)
				})
			case (op == 30 || op == 26) && u && !hi: // FMAXP, FADDP
				nm := "add"
				if op == 30 {
					nm = "max"
				}
				return pairLanes(d, n, m, lg, count, nm)
			case op == 30 && u && hi:
				return pairLanes(d, n, m, lg, count, "min")
			default:
				return nil
			}
			return lanes(d, lg, count, func(c *cpu, k uint32) uint64 {
				return fpLane(name, lg, c.vlane(n, lg, k), c.vlane(m, lg, k))
			})
		}
	case vector && i>>24&31 == 15 && i>>10&1 == 0: // by element
		lg := 2 + size&1
		if size < 2 {
			return nil
		}
		if lg == 3 && full == 0 {
			return nil
		}
		idx := i>>11&1<<1 | i>>21&1
		if lg == 3 {
			idx = i >> 11 & 1
		}
		count := uint32(8) << full >> lg
		op := i >> 12 & 15
		switch {
		case op == 9 && !u:
			return lanes(d, lg, count, func(c *cpu, k uint32) uint64 {
				return fpLane("mul", lg, c.vlane(n, lg, k), c.vlane(m, lg, idx))
			})
		case (op == 1 || op == 5) && !u:
			return lanes(d, lg, count, func(c *cpu, k uint32) uint64 {
				return fmaLane(lg, c.vlane(n, lg, k), c.vlane(m, lg, idx), c.vlane(d, lg, k), op == 5)
			})
		}
	case vector && i>>24&31 == 15 && i>>10&1 == 1 && i>>19&15 != 0: // shift by immediate
		immh := i >> 19 & 15
		lg := uint32(31 - bits.LeadingZeros32(immh))
		imm := i >> 16 & 127
		esize := uint32(8) << lg
		op := i >> 11 & 31
		count := uint32(8) << full >> lg
		switch {
		case op == 0: // SSHR, USHR
			sh := 2*esize - imm
			return lanes(d, lg, count, func(c *cpu, k uint32) uint64 {
				v := c.vlane(n, lg, k)
				if u {
					if sh >= 64 {
						return 0
					}
					return v >> sh
				}
				return uint64(int64(sext(v, uint(esize))) >> sh)
			})
		case op == 10 && !u:
			sh := imm - esize
			return lanes(d, lg, count, func(c *cpu, k uint32) uint64 { return c.vlane(n, lg, k) << sh })
		case op == 16 && !u: // SHRN
			if lg > 2 {
				return nil
			}
			sh := 2*esize - imm
			count = 8 >> lg
			return func(c *cpu) {
				var r [2]uint64
				if full != 0 {
					r[0] = c.q[d][0]
				}
				for k := uint32(0); k < count; k++ {
					setLane(&r, lg, k+count*full, c.vlane(n, lg+1, k)>>sh)
				}
				c.q[d] = r
			}
		case op == 20: // SSHLL, USHLL
			if lg > 2 {
				return nil
			}
			sh := imm - esize
			count = 8 >> lg
			return lanes(d, lg+1, count, func(c *cpu, k uint32) uint64 {
				v := c.vlane(n, lg, k+count*full)
				if !u {
					v = sext(v, uint(esize))
				}
				return v << sh
			})
		case op == 28 && (lg == 2 || lg == 3): // SCVTF, UCVTF fixed point
			fb := int(2*esize - imm)
			return lanes(d, lg, count, func(c *cpu, k uint32) uint64 {
				v := c.vlane(n, lg, k)
				if lg == 2 {
					x := float64(int32(v))
					if u {
						x = float64(uint32(v))
					}
					return uint64(b32(float32(math.Ldexp(x, -fb))))
				}
				x := float64(int64(v))
				if u {
					x = float64(v)
				}
				return b64(math.Ldexp(x, -fb))
			})
		}
	case vector && i>>24&31 == 15 && i>>19&15 == 0 && i>>10&3 == 1: // MOVI
		op, cm := i>>29&1, i>>12&15
		v := uint64(i>>16&7<<5 | i>>5&31)
		rep := func(v uint64, w uint) uint64 {
			for ; w < 64; w *= 2 {
				v |= v << w
			}
			return v
		}
		switch {
		case cm&9 == 0 || cm&9 == 1&0: // 32-bit shifted
			v = rep(v<<(cm>>1&3*8), 32)
		case cm&0xd == 8:
			v = rep(v<<(cm>>1&1*8), 16)
		case cm == 14 && op == 0:
			v = rep(v, 8)
		case cm == 14:
			var r uint64
			for k := uint(0); k < 8; k++ {
				if v>>k&1 != 0 {
					r |= 0xff << (8 * k)
				}
			}
			v = r
		case cm == 15 && op == 0:
			s, _ := fpImm(uint32(v) << 13)
			v = rep(uint64(b32(s)), 32)
		case cm == 15 && full != 0:
			_, f := fpImm(uint32(v) << 13)
			v = b64(f)
		default:
			return nil
		}
		if op == 1 && cm < 14 {
			v = ^v
		}
		r := [2]uint64{v, v}
		if full == 0 {
			r[1] = 0
		}
		return func(c *cpu) { c.q[d] = r }
	case vector && i>>24&31 == 14 && i>>17&31 == 16 && i>>10&3 == 2: // two-register misc
		op := i >> 12 & 31
		lg := 2 + size&1
		count := uint32(8) << full >> lg
		if op >= 12 && lg == 3 && full == 0 {
			return nil
		}
		switch {
		case op == 29 && size < 2: // SCVTF, UCVTF
			return lanes(d, lg, count, func(c *cpu, k uint32) uint64 {
				v := c.vlane(n, lg, k)
				switch {
				case lg == 2 && u:
					return uint64(b32(float32(uint32(v))))
				case lg == 2:
					return uint64(b32(float32(int32(v))))
				case u:
					return b64(float64(v))
				}
				return b64(float64(int64(v)))
			})
		case op == 27 && size >= 2: // FCVTZS, FCVTZU
			return lanes(d, lg, count, func(c *cpu, k uint32) uint64 {
				v := c.vlane(n, lg, k)
				f := f64(v)
				if lg == 2 {
					f = float64(f32(uint32(v)))
				}
				switch {
				case lg == 2 && u:
					return uint64(toU32(f))
				case lg == 2:
					return uint64(toI32(f))
				case u:
					return toU64(f)
				}
				return toI64(f)
			})
		case op == 15 && size >= 2: // FABS, FNEG
			return lanes(d, lg, count, func(c *cpu, k uint32) uint64 {
				v := c.vlane(n, lg, k)
				sign := uint64(1) << (8<<lg - 1)
				if u {
					return v ^ sign
				}
				return v &^ sign
			})
		case op == 31 && u && size >= 2: // FSQRT
			return lanes(d, lg, count, func(c *cpu, k uint32) uint64 {
				v := c.vlane(n, lg, k)
				if lg == 2 {
					return uint64(b32(sqrt32(f32(uint32(v)))))
				}
				return b64(math.Sqrt(f64(v)))
			})
		case op == 18 && !u && size < 3: // XTN
			cnt := uint32(8) >> size
			return func(c *cpu) {
				var r [2]uint64
				if full != 0 {
					r[0] = c.q[d][0]
				}
				for k := uint32(0); k < cnt; k++ {
					setLane(&r, size, k+cnt*full, c.vlane(n, size+1, k))
				}
				c.q[d] = r
			}
		case op == 0 && !u || op == 1 && !u || op == 0 && u: // REV64, REV16, REV32
			grp := uint32(8)
			if op == 1 {
				grp = 2
			} else if u {
				grp = 4
			}
			per := grp >> size
			if per < 2 {
				return nil
			}
			return lanes(d, size, uint32(8)<<full>>size, func(c *cpu, k uint32) uint64 {
				return c.vlane(n, size, k/per*per+per-1-k%per)
			})
		case op == 11: // ABS, NEG
			return lanes(d, size, uint32(8)<<full>>size, func(c *cpu, k uint32) uint64 {
				v := sext(c.vlane(n, size, k), 8<<size)
				if u || int64(v) < 0 {
					v = -v
				}
				return v
			})
		}
	case vector && i>>24&31 == 14 && i>>17&31 == 24 && i>>10&3 == 2: // across lanes
		op := i >> 12 & 31
		if op == 15 && u && full != 0 && size&1 == 0 {
			name := "max"
			if size&2 != 0 {
				name = "min"
			}
			return func(c *cpu) {
				r := fpLane(name, 2, fpLane(name, 2, c.vlane(n, 2, 0), c.vlane(n, 2, 1)), fpLane(name, 2, c.vlane(n, 2, 2), c.vlane(n, 2, 3)))
				c.q[d] = [2]uint64{r, 0}
			}
		}
		if op == 27 && !u { // ADDV
			return func(c *cpu) {
				var s uint64
				for k := uint32(0); k < uint32(8)<<full>>size; k++ {
					s += c.vlane(n, size, k)
				}
				var r [2]uint64
				setLane(&r, size, 0, s)
				c.q[d] = r
			}
		}
	case vector && i>>21&0x1ff == 0x70 && i>>15&1 == 0 && i>>10&1 == 1: // copies
		imm5, imm4 := i>>16&31, i>>11&15
		lg := uint32(bits.TrailingZeros32(imm5))
		if lg > 3 {
			return nil
		}
		idx := imm5 >> (lg + 1)
		count := uint32(8) << full >> lg
		switch {
		case u:
			src := imm4 >> lg
			if full == 0 {
				return nil
			}
			return func(c *cpu) { setLane(&c.q[d], lg, idx, c.vlane(n, lg, src)) }
		case imm4 == 0: // DUP element
			return lanes(d, lg, count, func(c *cpu, k uint32) uint64 { return c.vlane(n, lg, idx) })
		case imm4 == 1:
			return lanes(d, lg, count, func(c *cpu, k uint32) uint64 { return c.rx(n, true) })
		case imm4 == 3:
			return func(c *cpu) { setLane(&c.q[d], lg, idx, c.rx(n, true)) }
		case imm4 == 5:
			return func(c *cpu) { c.wx(d, full != 0, sext(c.vlane(n, lg, idx), 8<<lg)) }
		case imm4 == 7:
			return func(c *cpu) { c.wx(d, true, c.vlane(n, lg, idx)) }
		}
	case vector && i>>24&63 == 14 && i>>21&1 == 0 && i>>15&1 == 0 && i>>10&3 == 2: // ZIP, UZP, TRN
		op := i >> 12 & 7
		count := uint32(8) << full >> size
		if size == 3 && full == 0 {
			return nil
		}
		second := op >> 2
		switch op & 3 {
		case 1: // UZP
			return lanes(d, size, count, func(c *cpu, k uint32) uint64 {
				j := 2*k + second
				if j < count {
					return c.vlane(n, size, j)
				}
				return c.vlane(m, size, j-count)
			})
		case 2: // TRN
			return lanes(d, size, count, func(c *cpu, k uint32) uint64 {
				if k&1 == 0 {
					return c.vlane(n, size, k+second)
				}
				return c.vlane(m, size, k-1+second)
			})
		case 3: // ZIP
			return lanes(d, size, count, func(c *cpu, k uint32) uint64 {
				j := k/2 + second*count/2
				if k&1 == 0 {
					return c.vlane(n, size, j)
				}
				return c.vlane(m, size, j)
			})
		}
	case vector && i>>24&63 == 46 && i>>21&7 == 0 && i>>15&1 == 0 && i>>10&1 == 0: // EXT
		pos := i >> 11 & 15
		count := uint32(8) << full
		return lanes(d, 0, count, func(c *cpu, k uint32) uint64 {
			if k+pos < count {
				return c.vlane(n, 0, k+pos)
			}
			return c.vlane(m, 0, k+pos-count)
		})
	case !vector && i>>24&31 == 30 && i>>17&31 == 24 && i>>10&3 == 2: // scalar pairwise
		op := i >> 12 & 31
		lg := 2 + size&1
		name := ""
		switch {
		case op == 13 && u && size < 2:
			name = "add"
		case op == 15 && u && size < 2:
			name = "max"
		case op == 15 && u:
			name = "min"
		default:
			return nil
		}
		return func(c *cpu) {
			c.q[d] = [2]uint64{fpLane(name, lg, c.vlane(n, lg, 0), c.vlane(n, lg, 1)), 0}
		}
	case !vector && i>>21&0x7ff == 0x2f0 && i>>10&63 == 1: // DUP to scalar
		imm5 := i >> 16 & 31
		lg := uint32(bits.TrailingZeros32(imm5))
		if lg > 3 {
			return nil
		}
		idx := imm5 >> (lg + 1)
		return func(c *cpu) { c.q[d] = [2]uint64{c.vlane(n, lg, idx), 0} }
	case !vector && i>>24&31 == 30 && i>>17&31 == 16 && i>>10&3 == 2 && i>>12&31 == 29 && size < 2: // SCVTF scalar
		lg := 2 + size&1
		return func(c *cpu) {
			v := c.vlane(n, lg, 0)
			switch {
			case lg == 2 && u:
				c.set32(d, float32(uint32(v)))
			case lg == 2:
				c.set32(d, float32(int32(v)))
			case u:
				c.set64(d, float64(v))
			default:
				c.set64(d, float64(int64(v)))
			}
		}
	}
	return nil
}

func fmaLane(lg uint32, a, b, e uint64, neg bool) uint64 {
	if lg == 3 {
		x := f64(a)
		if neg {
			x = -x
		}
		return b64(math.FMA(x, f64(b), f64(e)))
	}
	x := f32(uint32(a))
	if neg {
		x = -x
	}
	return uint64(b32(fma32(x, f32(uint32(b)), f32(uint32(e)))))
}

func pairLanes(d, n, m, lg, count uint32, name string) step {
	return lanes(d, lg, count, func(c *cpu, k uint32) uint64 {
		r := n
		if 2*k >= count {
			r, k = m, k-count/2
		}
		return fpLane(name, lg, c.vlane(r, lg, 2*k), c.vlane(r, lg, 2*k+1))
	})
}
