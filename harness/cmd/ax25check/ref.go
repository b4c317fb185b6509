package main

import (
	"fmt"
	"reflect"

	"github.com/samuel/go-dsp/dsp/ax25"
)

// ---- independent reference: transmitter ----

// fcs is the CCITT check sequence, bit by bit.
func fcs(b []byte) uint16 {
	crc := uint16(0xffff)
	for _, v := range b {
		for k := 0; k < 8; k++ {
			x := (crc ^ uint16(v>>k)) & 1
			crc >>= 1
			if x == 1 {
				crc ^= 0x8408
			}
		}
	}
	return ^crc
}

func withFCS(b []byte) []byte {
	f := fcs(b)
	return append(append([]byte{}, b...), byte(f), byte(f>>8))
}

// rawBits are the bits of the octets, least significant first.
func rawBits(b []byte) []byte {
	r := make([]byte, 0, len(b)*8)
	for _, v := range b {
		for k := 0; k < 8; k++ {
			r = append(r, v>>k&1)
		}
	}
	return r
}

// stuff inserts a zero after five ones.
func stuff(bits []byte) []byte {
	r := make([]byte, 0, len(bits)+len(bits)/5)
	ones := 0
	for _, b := range bits {
		r = append(r, b)
		if b == 1 {
			ones++
			if ones == 5 {
				r = append(r, 0)
				ones = 0
			}
		} else {
			ones = 0
		}
	}
	return r
}

var flagBits = []byte{0, 1, 1, 1, 1, 1, 1, 0}

func send(octetsWithFCS []byte) []byte { return stuff(rawBits(octetsWithFCS)) }

func cat(parts ...[]byte) []byte {
	var r []byte
	for _, p := range parts {
		r = append(r, p...)
	}
	return r
}

// ---- independent reference: receiver over the whole stream ----

type delivery struct {
	at     int // index of the bit that completed the closing flag
	octets []byte
}

// deframe finds, over a complete recorded stream, the deliveries the property
// demands. Bits before the stream count as zeros.
func deframe(s []byte) []delivery {
	var ends []int // index one past each flag
	for i := 0; i+8 <= len(s); i++ {
		if s[i] == 0 && s[i+1] == 1 && s[i+2] == 1 && s[i+3] == 1 && s[i+4] == 1 && s[i+5] == 1 && s[i+6] == 1 && s[i+7] == 0 {
			ends = append(ends, i+8)
		}
	}
	var out []delivery
	for k := 1; k < len(ends); k++ {
		lo, hi := ends[k-1], ends[k]-8
		if hi <= lo {
			continue
		}
		o, ok := destuff(s[lo:hi])
		if !ok || len(o) > 512 || !completeHeader(o) {
			continue
		}
		n := len(o)
		if f := fcs(o[:n-2]); o[n-2] != byte(f) || o[n-1] != byte(f>>8) {
			continue
		}
		out = append(out, delivery{ends[k] - 1, o})
	}
	return out
}

func destuff(b []byte) ([]byte, bool) {
	var o []byte
	var cur byte
	n, ones := 0, 0
	for _, v := range b {
		if ones == 5 {
			if v == 1 {
				return nil, false // six ones that are no flag: abort
			}
			ones = 0
			continue
		}
		if v == 1 {
			ones++
			cur |= 1 << n
		} else {
			ones = 0
		}
		if n++; n == 8 {
			o = append(o, cur)
			cur, n = 0, 0
		}
	}
	return o, n == 0
}

// completeHeader: compressed frames need their 7 octet header and a control
// field, others two addresses and a control field, plus the check sequence.
func completeHeader(o []byte) bool {
	if len(o) < 10 {
		return false
	}
	return o[1]&1 == 1 || len(o) >= 17
}

// ---- reference parser ----

func call(b []byte) ax25.Address {
	s := ""
	for _, v := range b[:6] {
		if v>>1 == ' ' {
			break
		}
		s += string(rune(v >> 1))
	}
	return ax25.Address{Callsign: s, SSID: int(b[6]>>1) & 15}
}

// parse returns the frame the octets (with FCS) describe; det says whether the
// property determines the contents (address field properly terminated).
func parse(o []byte) (f ax25.Frame, det bool) {
	b := o[:len(o)-2]
	det = true
	if b[1]&1 == 1 {
		f.Command = b[1]&2 != 0
		bits := uint64(0)
		for _, v := range b[2:7] {
			bits = bits<<8 | uint64(v)
		}
		bits >>= 4 // 36 bits of callsign, then 4 bits of id
		s := ""
		for k := 5; k >= 0; k-- {
			if c := bits >> (6 * k) & 63; c != 0 {
				s += string(rune(c + 32))
			}
		}
		if s != "" {
			f.Destination = ax25.Address{Callsign: s, SSID: int(b[6] & 15)}
		}
		b = b[7:]
	} else {
		f.Destination = call(b)
		f.Source = call(b[7:])
		cd, cs := b[6]&0x80 != 0, b[13]&0x80 != 0
		f.V1 = cd == cs
		f.Command = cd && !cs
		end := 14
		for b[end-1]&1 == 0 {
			if len(b) < end+7+1 {
				return f, false
			}
			f.Repeaters = append(f.Repeaters, call(b[end:]))
			end += 7
		}
		b = b[end:]
	}
	c := b[0]
	f.PollFinal = c>>4&1 == 1
	info := false
	switch {
	case c&1 == 0:
		f.Type = ax25.IFrame
		f.SendSeq, f.RecvSeq = int(c>>1&7), int(c>>5&7)
		info = true
	case c&3 == 1:
		f.Type = ax25.SFrame
		f.SupervisoryType = ax25.SupervisoryType(c & 15)
		f.RecvSeq = int(c >> 5 & 7)
	default:
		f.Type = ax25.UFrame
		f.UnnumberedType = ax25.UnnumberedType(c &^ 0x10)
		info = c&^0x10 == 3
	}
	if info && len(b) > 1 {
		f.PID = ax25.PID(b[1])
		f.Info = append([]byte{}, b[2:]...)
	}
	// These carry information without a protocol id.
	if c&3 == 3 && (c&^0x10 == 0x87 || c&^0x10 == 0xaf || c&^0x10 == 0xe3) && len(b) > 1 {
		f.Info = append([]byte{}, b[1:]...)
	}
	return f, det
}

func sameFrame(a, b *ax25.Frame) bool {
	x, y := *a, *b
	if len(x.Info) == 0 && len(y.Info) == 0 {
		x.Info, y.Info = nil, nil
	}
	if len(x.Repeaters) == 0 && len(y.Repeaters) == 0 {
		x.Repeaters, y.Repeaters = nil, nil
	}
	return reflect.DeepEqual(x, y)
}

func show(f *ax25.Frame) string {
	if f == nil {
		return "nothing"
	}
	return fmt.Sprintf("%+v", *f)
}

// expected is the demanded decoder output per bit index.
type expected struct {
	at  int
	f   ax25.Frame
	det bool
}

func expect(s []byte) []expected {
	var out []expected
	for _, d := range deframe(s) {
		f, det := parse(d.octets)
		out = append(out, expected{d.at, f, det})
	}
	return out
}

func bitstr(s []byte) string {
	if len(s) > 400 {
		return bitstr(s[:200]) + "..." + bitstr(s[len(s)-200:])
	}
	r := make([]byte, len(s))
	for k, v := range s {
		r[k] = '0' + v
	}
	return string(r)
}

// run feeds the stream to a decoder and compares every bit's result.
func run(dec *ax25.AX25, s []byte, exp []expected) error {
	k := 0
	for i, b := range s {
		f := dec.Feed(int(b))
		if k < len(exp) && exp[k].at == i {
			if f == nil {
				return fmt.Errorf("bit %d closes a valid frame (%s) but nothing was returned; stream %s", i, show(&exp[k].f), bitstr(s))
			}
			if exp[k].det && !sameFrame(f, &exp[k].f) {
				return fmt.Errorf("bit %d returned %s, want %s; stream %s", i, show(f), show(&exp[k].f), bitstr(s))
			}
			k++
		} else if f != nil {
			return fmt.Errorf("bit %d returned a frame (%s) where no valid frame ends; stream %s", i, show(f), bitstr(s))
		}
	}
	return nil
}
