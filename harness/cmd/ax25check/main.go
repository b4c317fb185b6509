package main

import (
	"bytes"
	"fmt"
	"reflect"

	"github.com/samuel/go-dsp/dsp/ax25"
	"verif/harness/mc"
)

func main() {
	mc.Also386()
	mc.Main()
}

const streamRule = "one evaluation is one complete bit stream fed bit by bit to the real decoder, the result of every single Feed compared with a reference that deframes the recorded stream as a whole (search flags, remove stuffing, compute the check sequence bitwise); a state is one stream of the exploration tree, a transition one bit fed to the real decoder; every stream is a trace validated against the implementation."

func init() {
	mc.Register(
		&mc.Check{ID: "C17", Level: "model_checking", Rule: streamRule,
			Assumptions: []string{"bits are 0 or 1; the line is idle at zero before the stream", "for frames whose address field is not terminated only the delivery, not the content, is compared"},
			Families:    deframeFamilies},
		&mc.Check{ID: "C18", Level: "model_checking", Rule: streamRule + " An evaluation here is one error pattern applied to the frame content before bit stuffing.",
			Assumptions: []string{"errors change the content, which is then stuffed again: channel errors that create or destroy flags or stuffing are the subject of C17"},
			Families:    errorFamilies},
		&mc.Check{ID: "C19", Level: "model_checking", Rule: streamRule,
			Assumptions: []string{"callsigns contain no space except as padding", "the modulo-8 control field"},
			Families:    fieldFamilies},
		&mc.Check{ID: "C20", Level: "model_checking", Rule: streamRule + " Every returned frame is snapshotted at once and compared again after every following frame and at the end.",
			Families: ownFamilies})
}

func addr(callsign string, ssid int, high, last bool) []byte {
	b := make([]byte, 7)
	for k := range b[:6] {
		c := byte(' ')
		if k < len(callsign) {
			c = callsign[k]
		}
		b[k] = c << 1
	}
	b[6] = 0x60 | byte(ssid)<<1
	if high {
		b[6] |= 0x80
	}
	if last {
		b[6] |= 1
	}
	return b
}

// normal builds a frame body without FCS.
func normal(dst, src string, rep []string, ctl byte, rest ...byte) []byte {
	b := addr(dst, 1, true, false)
	b = append(b, addr(src, 2, false, len(rep) == 0)...)
	for k, r := range rep {
		b = append(b, addr(r, k&15, false, k == len(rep)-1)...)
	}
	b = append(b, ctl)
	return append(b, rest...)
}

// flexnet builds a compressed frame body without FCS.
func flexnet(qso uint16, cmd bool, call [6]byte, ssid byte, ctl byte, rest ...byte) []byte {
	b := []byte{byte(qso >> 6), byte(qso<<2) | 1}
	if cmd {
		b[1] |= 2
	}
	var bits uint64
	for _, c := range call {
		bits = bits<<6 | uint64(c&63)
	}
	bits = bits<<4 | uint64(ssid&15)
	for k := 4; k >= 0; k-- {
		b = append(b, byte(bits>>(8*k)))
	}
	b = append(b, ctl)
	return append(b, rest...)
}

type token struct {
	name string
	bits []byte
}

func fill(n int, seed byte) []byte {
	b := make([]byte, n)
	for k := range b {
		b[k] = byte(k)*7 + seed
	}
	return b
}

func tokens(full bool) []token {
	f1 := withFCS(normal("CQ", "N0CALL", nil, 0x03, 0xf0, 0xff, 0x7e, 0x1f))
	f2 := withFCS(flexnet(5, true, [6]byte{'A' - 32, 'B' - 32, '1' - 32, 0, 0, 0}, 3, 0x00))
	bad := append([]byte{}, f1...)
	bad[len(bad)-1] ^= 0x40
	max := withFCS(normal("MAX", "SIZE", nil, 0x03, append([]byte{0xf0}, fill(512-17-1, 3)...)...))
	over := withFCS(normal("OVER", "SIZE", nil, 0x03, append([]byte{0xf0}, fill(513-17-1, 3)...)...))
	runt := withFCS(normal("AB", "CD", nil, 0x03)[:14])
	frunt := withFCS(flexnet(1, false, [6]byte{1, 2, 3, 4, 5, 6}, 1, 0)[:7])
	ones := func(n int) []byte {
		b := make([]byte, n)
		for k := range b {
			b[k] = 1
		}
		return b
	}
	ts := []token{
		{"flag", flagBits},
		{"flag sharing its zero", flagBits[1:]},
		{"frame A", send(f1)},
		{"frame B (compressed)", send(f2)},
		{"frame A with a wrong check sequence", send(bad)},
		{"abort (seven ones)", ones(7)},
		{"one", ones(1)},
		{"zero", []byte{0}},
		{"frame A and one more bit", stuff(append(rawBits(f1), 1))},
		{"idle (15 ones)", ones(15)},
		{"first half of frame A", send(f1)[:len(send(f1))/2]},
		{"second half of frame A", send(f1)[len(send(f1))/2:]},
		{"header one octet short", send(runt)},
		{"compressed header one octet short", send(frunt)},
	}
	if full {
		ts = append(ts, token{"512 octet frame", send(max)}, token{"513 octet frame", send(over)},
			token{"frame A less one bit", stuff(rawBits(f1)[:len(rawBits(f1))-1])}, token{"frame B and seven bits", stuff(append(rawBits(f2), 0, 1, 1, 0, 1, 0, 0))},
			token{"empty octets", send([]byte{0, 0})})
	}
	return ts
}

func decide(c *mc.Ctx, key, what string, s []byte) error {
	exp := expect(s)
	c.Evals++
	c.States++
	c.Traces++
	c.Transitions += int64(len(s))
	if len(exp) > 0 {
		c.Nontrivial++
		c.Add("frames_expected", int64(len(exp)))
	}
	if err := run(ax25.NewDecoder(), s, exp); err != nil {
		return mc.V(key, "%s: %v", what, err)
	}
	return nil
}

func pow(b, e int) int {
	r := 1
	for ; e > 0; e-- {
		r *= b
	}
	return r
}

func deframeFamilies(t mc.Tier) []*mc.Family {
	small := tokens(false)
	full := tokens(true)
	// Sequences always start with a zero bit (line idle) and are closed by a flag.
	seqFam := func(name string, ts []token, depth int) *mc.Family {
		return &mc.Family{Name: name, N: pow(len(ts), depth), Run: func(c *mc.Ctx, i int) error {
			s := []byte{0}
			names := make([]string, depth)
			for k := range names {
				tk := ts[i%len(ts)]
				i /= len(ts)
				names[k] = tk.name
				s = append(s, tk.bits...)
			}
			s = append(s, flagBits...)
			s = append(s, small[2].bits...)
			s = append(s, flagBits...)
			if c.WantSample() {
				c.Sample("%q, flag, frame A, flag", names)
			}
			return decide(c, "tokens", fmt.Sprintf("%q, flag, frame A, flag", names), s)
		}}
	}
	core := []token{full[0], full[1], full[2], full[3], full[4], full[5], full[8]}
	fams := []*mc.Family{
		seqFam("tokens-all", full, t.Pick(4, 5)),
		seqFam("tokens-core", core, t.Pick(6, 7)),
	}
	// All bit strings before, between and inside frames.
	A, B := small[2].bits, small[3].bits
	nb := t.Pick(15, 20)
	fams = append(fams, &mc.Family{Name: "noise", N: 1 << (nb + 1), Run: func(c *mc.Ctx, i int) error {
		// i+1 encodes a bit string of length 0..nb
		v := i + 1
		var noise []byte
		for v > 1 {
			noise = append(noise, byte(v&1))
			v >>= 1
		}
		s1 := cat([]byte{0}, noise, flagBits, B, flagBits)
		if err := decide(c, "noise", "noise before the opening flag", s1); err != nil {
			return err
		}
		if len(noise) <= nb-3 {
			s2 := cat([]byte{0}, flagBits, B, flagBits, noise, flagBits, B, flagBits)
			if err := decide(c, "noise-between", "noise between two frames", s2); err != nil {
				return err
			}
		}
		if len(noise) <= nb-5 {
			s3 := cat([]byte{0}, flagBits, A[:17], noise, flagBits, B, flagBits)
			if err := decide(c, "noise-after-partial", "noise after part of a frame", s3); err != nil {
				return err
			}
			s4 := cat([]byte{0}, flagBits, B, noise, flagBits, A, flagBits)
			if err := decide(c, "noise-tail", "noise between a frame and its closing flag", s4); err != nil {
				return err
			}
		}
		return nil
	}})
	// Runs of one bit or of flags of every length before, inside and after frames.
	var runs []int
	for n := 0; n <= t.Pick(1100, 5000); n++ {
		runs = append(runs, n)
	}
	for k := 13; k <= t.Pick(17, 20); k++ {
		for d := -2; d <= 9; d++ {
			runs = append(runs, 1<<k+d)
		}
	}
	fams = append(fams, &mc.Family{Name: "runs", N: len(runs) * 3, Run: func(c *mc.Ctx, i int) error {
		n := runs[i/3]
		var run []byte
		what := []string{"zeros", "ones", "flags"}[i%3]
		switch i % 3 {
		case 0:
			run = make([]byte, n)
		case 1:
			run = cat(bytes.Repeat([]byte{1}, n), []byte{0})
		default:
			run = bytes.Repeat(flagBits, n/4)
		}
		for k, s := range [][]byte{
			cat([]byte{0}, run, flagBits, B, flagBits),
			cat([]byte{0}, run, A, flagBits, A, flagBits),
			cat([]byte{0}, flagBits, A, flagBits, run, flagBits, B, flagBits),
			cat([]byte{0}, flagBits, A[:50], run, flagBits, A, flagBits),
			cat([]byte{0}, flagBits, A, run, flagBits, B, flagBits),
			cat([]byte{0}, flagBits[1:], A, flagBits, run, B, flagBits, A, flagBits),
		} {
			if err := decide(c, "runs", fmt.Sprintf("a run of %d %s (way %d)", n, what, k), s); err != nil {
				return err
			}
		}
		return nil
	}})
	// Thousands of frames on one decoder: every pair of elements, repeated.
	fams = append(fams, &mc.Family{Name: "long-streams", N: len(full) * len(full), Run: func(c *mc.Ctx, i int) error {
		a, b := full[i%len(full)], full[i/len(full)]
		piece := cat(a.bits, flagBits, b.bits, flagBits)
		s := cat([]byte{0}, bytes.Repeat(piece, t.Pick(300, 3000)), A, flagBits, B, flagBits)
		return decide(c, "long", fmt.Sprintf("%q, flag, %q, flag, over and over, then frames A and B", a.name, b.name), s)
	}})
	fams = append(fams, &mc.Family{Name: "very-long-streams", N: 8, Run: func(c *mc.Ctx, i int) error {
		piece := cat(A, flagBits, B, flagBits, A[:i*9], flagBits)
		s := cat([]byte{0}, bytes.Repeat(piece, 35000))
		return decide(c, "long", "70000 frames", s)
	}})
	// Every single and double channel error (flip, insert, delete) in a two frame exchange.
	base := cat([]byte{0, 0}, flagBits, B, flagBits, A, flagBits, flagBits, B, flagBits)
	mut := func(s []byte, kind, at int) []byte {
		r := append([]byte{}, s...)
		switch kind {
		case 0:
			r[at] ^= 1
		case 1:
			r = append(r[:at], r[at+1:]...)
		case 2:
			r = append(r[:at], append([]byte{0}, s[at:]...)...)
		default:
			r = append(r[:at], append([]byte{1}, s[at:]...)...)
		}
		return r
	}
	tail := cat(flagBits, A, flagBits)
	fams = append(fams, &mc.Family{Name: "channel-errors", N: (len(base) - 2) * 4, Run: func(c *mc.Ctx, i int) error {
		k1, a1 := i%4, i/4+2
		m1 := mut(base, k1, a1)
		if err := decide(c, "channel", fmt.Sprintf("channel error %d at bit %d", k1, a1), cat(m1, tail)); err != nil {
			return err
		}
		step := 1
		if !t.Thorough {
			step = 3
		}
		for a2 := a1; a2 < len(m1); a2 += step {
			for k2 := 0; k2 < 4; k2++ {
				if err := decide(c, "channel2", fmt.Sprintf("channel errors %d at bit %d and %d at %d", k1, a1, k2, a2), cat(mut(m1, k2, a2), tail)); err != nil {
					return err
				}
			}
		}
		return nil
	}})
	// Every frame length from 0 octets to beyond the maximum, valid and misaligned.
	fams = append(fams, &mc.Family{Name: "lengths", N: 540, Run: func(c *mc.Ctx, i int) error {
		for _, comp := range []bool{false, true} {
			body := normal("LEN", "TEST", nil, 0x03, append([]byte{0xf0}, fill(600, byte(i))...)...)
			if comp {
				body = flexnet(9, false, [6]byte{33, 34, 35, 36, 37, 38}, 4, 0x03, append([]byte{0xf0}, fill(600, byte(i))...)...)
			}
			o := withFCS(body[:i])
			s := cat([]byte{0}, flagBits, send(o), flagBits, B, flagBits)
			if err := decide(c, "length", fmt.Sprintf("frame of %d octets with its check sequence", i+2), s); err != nil {
				return err
			}
			for x := 1; x < 8; x++ {
				for _, e := range []byte{0, 1, 0x55} {
					bits := rawBits(o)
					for k := 0; k < x; k++ {
						bits = append(bits, e>>k&1)
					}
					s := cat([]byte{0}, flagBits, stuff(bits), flagBits, B, flagBits)
					if err := decide(c, "misaligned", fmt.Sprintf("frame of %d octets and %d more bits", i+2, x), s); err != nil {
						return err
					}
				}
			}
		}
		return nil
	}})
	// A good frame is none with anything before or behind it between the flags,
	// however much that is.
	fams = append(fams, &mc.Family{Name: "surrounded", N: t.Pick(1100, 2400), Run: func(c *mc.Ctx, i int) error {
		good := [][]byte{
			withFCS(normal("CQ", "N0CALL", nil, 0x03, 0xf0, 0xff, 0x7e, 0x1f)),
			withFCS(flexnet(5, true, [6]byte{33, 34, 17, 0, 0, 0}, 3, 0x00)),
		}
		for _, g := range good {
			for _, seed := range []byte{1, byte(i)} {
				for _, x := range []int{0, 1, 3, 7} {
					j := rawBits(fill(i, seed))
					for k := 0; k < x; k++ {
						j = append(j, byte(k&1))
					}
					for k, bits := range [][]byte{cat(j, rawBits(g)), cat(rawBits(g), j), cat(rawBits(g), j, rawBits(g))} {
						s := cat([]byte{0}, flagBits, stuff(bits), flagBits, B, flagBits)
						if err := decide(c, "surrounded", fmt.Sprintf("%d octets and %d bits %s a good frame", i, x, []string{"before", "behind", "between good frames instead of"}[k]), s); err != nil {
							return err
						}
					}
				}
			}
		}
		return nil
	}})
	// Every pair of information octets (all stuffing patterns), each followed by a second frame.
	fams = append(fams, &mc.Family{Name: "octets", N: 65536, Run: func(c *mc.Ctx, i int) error {
		o := withFCS(normal("ST", "UFF", nil, 0x03, byte(i), byte(i>>8), byte(i>>4)))
		s := cat([]byte{0}, flagBits, send(o), flagBits[:7], flagBits[7:], B, flagBits)
		return decide(c, "octets", fmt.Sprintf("payload %02x %02x", byte(i), byte(i>>8)), s)
	}})
	// Unterminated address fields and arbitrary control bits with a good check sequence: deliver, never panic.
	fams = append(fams, &mc.Family{Name: "addresses", N: 80, Run: func(c *mc.Ctx, i int) error {
		for _, b := range []byte{0, 0xfe, 0x40, 0x7e, 0x1c} {
			body := make([]byte, i)
			for k := range body {
				body[k] = b
			}
			for _, end := range []int{-1, 6, 13, 20, 27, 34, 62, 69, 1} {
				bb := append([]byte{}, body...)
				if end >= 0 && end < len(bb) {
					bb[end] |= 1
				}
				s := cat([]byte{0}, flagBits, send(withFCS(bb)), flagBits, B, flagBits)
				if err := decide(c, "address", fmt.Sprintf("%d octets of %02x, address end at %d", i, b, end), s); err != nil {
					return err
				}
			}
		}
		return nil
	}})
	return fams
}

func errorFamilies(t mc.Tier) []*mc.Family {
	type base struct {
		name string
		o    []byte
	}
	mk := func(n int) base { // n octets with FCS, normal header
		return base{fmt.Sprintf("%d octets", n), withFCS(normal("ERR", "TEST", nil, 0x03, fill(n-17, 11)...))}
	}
	comp := base{"compressed 10 octets", withFCS(flexnet(7, true, [6]byte{33, 34, 17, 18, 0, 0}, 5, 0x11))}
	// send an altered frame followed by a good one; want only the good one.
	good := send(withFCS(flexnet(3, false, [6]byte{40, 41, 0, 0, 0, 0}, 1, 0x00)))
	tailBits := cat(flagBits, good, flagBits)
	try := func(c *mc.Ctx, b base, bits []byte, what func() string) error {
		dec := ax25.NewDecoder()
		c.Evals++
		c.Nontrivial++
		for _, v := range flagBits {
			dec.Feed(int(v))
		}
		st := stuff(bits)
		for i, v := range st {
			if f := dec.Feed(int(v)); f != nil {
				return mc.V("early", "%s, %s: a frame was returned at bit %d before the closing flag", b.name, what(), i)
			}
		}
		for i, v := range tailBits {
			f := dec.Feed(int(v))
			if i < len(tailBits)-1 && f != nil {
				return mc.V("accepted", "%s, %s: delivered as %s", b.name, what(), show(f))
			}
			if i == len(tailBits)-1 && f == nil {
				return mc.V("next", "%s, %s: the good frame after it was lost", b.name, what())
			}
		}
		c.Transitions += int64(len(st) + len(tailBits) + 8)
		c.States++
		c.Traces++
		return nil
	}
	flipper := func(b base) func(c *mc.Ctx, scratch []byte, pos ...int) error {
		raw := rawBits(b.o)
		return func(c *mc.Ctx, scratch []byte, pos ...int) error {
			copy(scratch, raw)
			for _, p := range pos {
				scratch[p] ^= 1
			}
			return try(c, b, scratch, func() string { return fmt.Sprintf("bits %v inverted", pos) })
		}
	}
	var fams []*mc.Family
	// The unaltered frame is delivered, for every length.
	fams = append(fams, &mc.Family{Name: "unaltered", N: 512 - 16, Run: func(c *mc.Ctx, i int) error {
		b := mk(i + 17)
		return decide(c, "unaltered", b.name, cat([]byte{0}, flagBits, send(b.o), flagBits))
	}})
	// 1, 2 and 3 bits at all positions of short frames.
	for _, b := range []base{comp, mk(17), mk(20)} {
		n := len(b.o) * 8
		fl := flipper(b)
		step := 1
		if !t.Thorough && n > 100 {
			step = 3
		}
		fams = append(fams, &mc.Family{Name: "up-to-3-bits/" + b.name, N: n, Run: func(c *mc.Ctx, i int) error {
			sc := make([]byte, n)
			if err := fl(c, sc, i); err != nil {
				return err
			}
			for j := i + 1; j < n; j++ {
				if err := fl(c, sc, i, j); err != nil {
					return err
				}
				for k := j + 1 + i%step; k < n; k += step {
					if err := fl(c, sc, i, j, k); err != nil {
						return err
					}
				}
			}
			return nil
		}})
	}
	// Singles and doubles in longer frames, up to the longest.
	for _, l := range []int{64, 256, 512} {
		b := mk(l)
		n := l * 8
		fl := flipper(b)
		fams = append(fams, &mc.Family{Name: fmt.Sprintf("long/%d octets", l), N: n, Run: func(c *mc.Ctx, i int) error {
			sc := make([]byte, n)
			if err := fl(c, sc, i); err != nil {
				return err
			}
			st := 1
			if l == 256 {
				st = t.Pick(97, 5)
			} else if l == 512 {
				st = t.Pick(487, 23)
			} else {
				st = t.Pick(3, 1)
			}
			for j := i + 1 + i%st; j < n; j += st {
				if err := fl(c, sc, i, j); err != nil {
					return err
				}
				if k := j + st/2 + 1; k < n && j%7 == 0 {
					if err := fl(c, sc, i, j, k); err != nil {
						return err
					}
				}
			}
			return nil
		}})
	}
	// All bursts of at most 16 bits at all positions of short frames.
	burst := func(b base, patStep int) *mc.Family {
		n := len(b.o) * 8
		fl := flipper(b)
		return &mc.Family{Name: "bursts/" + b.name, N: n, Run: func(c *mc.Ctx, i int) error {
			sc := make([]byte, n)
			// patterns starting with 1: odd 16 bit numbers
			for p := 1 + 2*(i%patStep); p < 65536; p += 2 * patStep {
				var pos []int
				ok := true
				for k := 0; k < 16; k++ {
					if p>>k&1 == 1 {
						if i+k >= n {
							ok = false
							break
						}
						pos = append(pos, i+k)
					}
				}
				if !ok {
					continue
				}
				if err := fl(c, sc, pos...); err != nil {
					return err
				}
			}
			return nil
		}}
	}
	fams = append(fams, burst(comp, 1), burst(mk(17), t.Pick(4, 1)), burst(mk(100), t.Pick(101, 3)))
	// Odd numbers of errors: 5 and 7 bits spread over the frame; all odd subsets of a 17 bit comb.
	b := mk(17)
	fl := flipper(b)
	fams = append(fams, &mc.Family{Name: "odd", N: 8, Run: func(c *mc.Ctx, i int) error {
		sc := make([]byte, 17*8)
		for m := 1; m < 1<<17; m++ {
			if !t.Thorough && m%4 != i%4 {
				continue
			}
			var pos []int
			for k := 0; k < 17; k++ {
				if m>>k&1 == 1 {
					pos = append(pos, k*8+i)
				}
			}
			if len(pos)%2 == 0 {
				continue
			}
			if err := fl(c, sc, pos...); err != nil {
				return err
			}
		}
		c.Sample("odd subsets of bit %d of all 17 octets", i)
		return nil
	}})
	return fams
}

func fieldFamilies(t mc.Tier) []*mc.Family {
	try := func(c *mc.Ctx, what string, body []byte) error {
		return decide(c, "fields", what, cat([]byte{0}, flagBits, send(withFCS(body)), flagBits))
	}
	var fams []*mc.Family
	// Every character at every callsign position and every length, in destination, source and repeaters.
	fams = append(fams, &mc.Family{Name: "callsigns", N: 128 * 6, Run: func(c *mc.Ctx, i int) error {
		ch, pos := byte(i%128), i/128
		if ch == ' ' {
			return nil
		}
		for l := pos + 1; l <= 6; l++ {
			cs := []byte("QWERTY"[:l])
			cs[pos] = ch
			for slot := 0; slot < 4; slot++ {
				n := [4]string{"DEST", "SOURCE", "REP1", "REP2"}
				n[slot] = string(cs)
				if err := try(c, fmt.Sprintf("callsign %q in position %d", cs, slot), normal(n[0], n[1], []string{n[2], n[3]}, 0x03, 0xf0, 'x')); err != nil {
					return err
				}
			}
		}
		return nil
	}})
	// Empty callsigns, all lengths together.
	fams = append(fams, &mc.Family{Name: "callsign-lengths", N: 7 * 7 * 7, Run: func(c *mc.Ctx, i int) error {
		f := func(k int) string { return "ABCDEF"[:k] }
		if err := try(c, "callsign lengths", normal(f(i%7), f(i/7%7), []string{f(i / 49)}, 0x03, 0xf0)); err != nil {
			return err
		}
		return try(c, "callsign lengths", normal(f(i%7), f(i/7%7), nil, 0x03, 0xf0))
	}})
	// All SSID octets of destination and source (command/response, reserved bits, ids).
	fams = append(fams, &mc.Family{Name: "ssids", N: 128 * 128, Run: func(c *mc.Ctx, i int) error {
		body := normal("DEST", "SRC", nil, 0x10)
		body[6] = byte(i%128) << 1
		body[13] = byte(i/128)<<1 | 1
		if i%5 == 0 {
			body[13] &^= 1
			body = append(body[:14], append(addr("RPT", i>>3&15, i&1 == 1, true), 0x10)...)
		}
		return try(c, fmt.Sprintf("SSID octets %02x %02x", body[6], body[13]), body)
	}})
	// Repeater count and ids.
	fams = append(fams, &mc.Family{Name: "repeaters", N: 9 * 16 * 4, Run: func(c *mc.Ctx, i int) error {
		n, id, v := i%9, i/9%16, i/144
		b := append(addr("DEST", 15, v&1 == 1, false), addr("SRC", 0, v&2 == 2, n == 0)...)
		for k := 0; k < n; k++ {
			b = append(b, addr(fmt.Sprintf("RPT%d", k), (id+k)%16, (v+k)&1 == 1, k == n-1)...)
		}
		for _, rest := range [][]byte{{0x03}, {0x03, 0xf0}, {0x03, 0xf0, 1}, {0x00, 0xcf, 'h', 'i'}, {0x11}, {0x03, 0xf0, 1, 2, 3, 4, 5, 6, 7, 8, 9}} {
			if err := try(c, fmt.Sprintf("%d repeaters, rest %x", n, rest), append(append([]byte{}, b...), rest...)); err != nil {
				return err
			}
		}
		return nil
	}})
	// All control octets, PIDs and information lengths.
	fams = append(fams, &mc.Family{Name: "control-pid", N: 65536, Run: func(c *mc.Ctx, i int) error {
		ctl, pid := byte(i), byte(i>>8)
		for _, info := range [][]byte{{}, {0x41}, {pid, ctl, 0xff, 0x00}} {
			if err := try(c, fmt.Sprintf("control %02x pid %02x info %x", ctl, pid, info), normal("A", "B", nil, ctl, append([]byte{pid}, info...)...)); err != nil {
				return err
			}
		}
		if pid == 0 {
			if err := try(c, fmt.Sprintf("control %02x alone", ctl), normal("A", "B", nil, ctl)); err != nil {
				return err
			}
		}
		if c.WantSample() {
			c.Sample("control %02x pid %02x", ctl, pid)
		}
		return nil
	}})
	fams = append(fams, &mc.Family{Name: "info-lengths", N: 512 - 17, Run: func(c *mc.Ctx, i int) error {
		for _, ctl := range []byte{0x00, 0x03, 0x13, 0xee} {
			if err := try(c, fmt.Sprintf("control %02x, %d octets of pid and information", ctl, i), normal("A", "B", nil, ctl, fill(i, byte(i))...)); err != nil {
				return err
			}
		}
		return nil
	}})
	// FlexNet: every pair of 6-bit characters in every pair of positions, all ids, both directions.
	fams = append(fams, &mc.Family{Name: "flexnet", N: 64 * 64, Run: func(c *mc.Ctx, i int) error {
		a, b := byte(i%64), byte(i/64)
		for p := 0; p < 6; p++ {
			for q := p + 1; q < 6; q++ {
				for _, bg := range []byte{0, 63, 21} {
					call := [6]byte{bg, bg, bg, bg, bg, bg}
					call[p], call[q] = a, b
					body := flexnet(uint16(i*7), (p+q+i)%2 == 0, call, byte(i+p), 0x03, 0xf0, 'f')
					if err := try(c, fmt.Sprintf("compressed callsign %v id %d", call, (i+p)&15), body); err != nil {
						return err
					}
				}
			}
		}
		return nil
	}})
	fams = append(fams, &mc.Family{Name: "flexnet-control", N: 65536, Run: func(c *mc.Ctx, i int) error {
		body := flexnet(uint16(i&0x3fff), i&1 == 1, [6]byte{33, 34, 0, 0, 0, 0}, byte(i), byte(i>>8), byte(i), 'z')
		if err := try(c, "compressed header, any control", body); err != nil {
			return err
		}
		return try(c, "compressed header, any control, no PID", body[:8])
	}})
	// The package's names stand for the codes of the protocol.
	fams = append(fams, &mc.Family{Name: "names", N: 256, Run: func(c *mc.Ctx, i int) error { return namesCase(c, byte(i)) }})
	return fams
}

var unnumbered = map[byte]struct {
	t    ax25.UnnumberedType
	name string
}{
	0x6f: {ax25.SABME, "SABME"}, 0x2f: {ax25.SABM, "SABM"}, 0x43: {ax25.DISC, "DISC"}, 0x0f: {ax25.DM, "DM"}, 0x63: {ax25.UA, "UA"},
	0x87: {ax25.FRMR, "FRMR"}, 0x03: {ax25.UI, "UI"}, 0xaf: {ax25.XID, "XID"}, 0xe3: {ax25.TEST, "TEST"},
}

var supervisory = map[byte]struct {
	t    ax25.SupervisoryType
	name string
}{0x1: {ax25.RR, "RR"}, 0x5: {ax25.RNR, "RNR"}, 0x9: {ax25.REJ, "REJ"}, 0xd: {ax25.SREJ, "SREJ"}}

var pids = map[byte]ax25.PID{
	0x01: ax25.ISO8208CCITTX25PLP, 0x06: ax25.CompressedTCPIP, 0x07: ax25.UncompressedTCPIP, 0x08: ax25.SegmentationFragment,
	0xc3: ax25.TEXNETDatagramProtocol, 0xc4: ax25.LinkQualityProtocol, 0xca: ax25.AppleTalk, 0xcb: ax25.AppletalkARP,
	0xcc: ax25.ARPAInternetProtocol, 0xcd: ax25.ARPAAddressResolution, 0xce: ax25.FlexNet, 0xcf: ax25.NETROM, 0xf0: ax25.NoLayer3Protocol,
}

// namesCase sends frames with the octet as control field and as protocol id and
// looks at the decoded fields only through the package's named constants.
func namesCase(c *mc.Ctx, v byte) error {
	get := func(ctl, pid byte) (*ax25.Frame, error) {
		c.Evals++
		c.States++
		c.Traces++
		c.Nontrivial++
		d := ax25.NewDecoder()
		var f *ax25.Frame
		for _, b := range cat([]byte{0}, flagBits, send(withFCS(normal("DEST", "SOURCE", []string{"RPT"}, ctl, pid, 'x'))), flagBits) {
			c.Transitions++
			if g := d.Feed(int(b)); g != nil {
				f = g
			}
		}
		if f == nil {
			return nil, mc.V("names", "the frame with control %02x, protocol id %02x is not decoded", ctl, pid)
		}
		return f, nil
	}
	f, err := get(v, 0xf0)
	if err != nil {
		return err
	}
	want, sub, is := ax25.IFrame, "", ""
	name := "I"
	switch v & 3 {
	case 1:
		want, name = ax25.SFrame, "S"
		s := supervisory[v&15]
		sub, is = s.name, f.SupervisoryType.String()
		if f.SupervisoryType != s.t {
			return mc.V("names", "control %02x is %s, decoded as the supervisory type %d (%s), the constant is %d", v, s.name, f.SupervisoryType, is, s.t)
		}
	case 3:
		want, name = ax25.UFrame, "U"
		s, ok := unnumbered[v&^0x10]
		if ok {
			sub, is = s.name, f.UnnumberedType.String()
			if f.UnnumberedType != s.t {
				return mc.V("names", "control %02x is %s, decoded as the unnumbered type %02x (%s), the constant is %02x", v, s.name, byte(f.UnnumberedType), is, byte(s.t))
			}
			if ax25.UnnumberedTypeName[f.UnnumberedType] != s.name {
				return mc.V("names", "control %02x is %s, UnnumberedTypeName calls it %q", v, s.name, ax25.UnnumberedTypeName[f.UnnumberedType])
			}
		} else {
			for _, s := range unnumbered {
				if f.UnnumberedType == s.t || f.UnnumberedType.String() == s.name {
					return mc.V("names", "control %02x has no name, decoded as %s", v, s.name)
				}
			}
		}
	}
	if f.Type != want || f.Type.String() != name {
		return mc.V("names", "control %02x is of type %s, decoded as type %d (%v)", v, name, f.Type, f.Type)
	}
	if sub != is {
		return mc.V("names", "control %02x is %s, its decoded type is called %q", v, sub, is)
	}
	f, err = get(0x03, v)
	if err != nil {
		return err
	}
	for code, p := range pids {
		if (f.PID == p) != (code == v) {
			return mc.V("names", "protocol id %02x decodes to %02x, the constant of protocol %02x is %02x", v, byte(f.PID), code, byte(p))
		}
		if (f.PID.String() == p.String()) != (code == v) {
			return mc.V("names", "protocol id %02x is called %q, like %02x", v, f.PID, code)
		}
	}
	if f.PID.String() == "" {
		return mc.V("names", "protocol id %02x is called nothing", v)
	}
	if got := f.Source.String() + " " + f.Destination.String() + " " + f.Repeaters[0].String(); got != fmt.Sprintf("SOURCE-%d DEST-%d RPT-%d", f.Source.SSID, f.Destination.SSID, f.Repeaters[0].SSID) {
		return mc.V("names", "addresses are called %q", got)
	}
	return nil
}

type snap struct {
	f    *ax25.Frame
	copy ax25.Frame
}

func deep(f *ax25.Frame) ax25.Frame {
	c := *f
	c.Info = append([]byte{}, f.Info...)
	c.Repeaters = append([]ax25.Address{}, f.Repeaters...)
	return c
}

func ownFamilies(t mc.Tier) []*mc.Family {
	fr := [][]byte{
		withFCS(normal("CQ", "N0CALL", []string{"R1", "R2"}, 0x03, 0xf0, 'h', 'e', 'l', 'l', 'o')),
		withFCS(normal("APRS", "W1AW", nil, 0x03, 0xf0, 'W', 'O', 'R', 'L', 'D', '!', '!', '!', '!', '!', '!', '!', '!', '!', '!', '!', '!', '!', '!', '!', '!')),
		withFCS(flexnet(5, true, [6]byte{33, 34, 35, 36, 37, 38}, 9, 0x00, 0xcf, 'f', 'l', 'e', 'x')),
		withFCS(normal("XX", "YY", []string{"Z1", "Z2", "Z3"}, 0x00, 0xcc, 1, 2, 3)),
		withFCS(normal("AA", "BB", nil, 0x31)),
	}
	ts := []token{{"flag", flagBits}}
	for k, f := range fr {
		ts = append(ts, token{fmt.Sprintf("frame %d and flag", k), cat(send(f), flagBits)})
	}
	bad := append([]byte{}, fr[1]...)
	bad[20] ^= 0xff
	ts = append(ts, token{"damaged frame and flag", cat(send(bad), flagBits)},
		token{"abort and flag", cat([]byte{1, 1, 1, 1, 1, 1, 1, 1}, flagBits)},
		token{"long frame and flag", cat(send(withFCS(normal("LL", "LL", nil, 0x03, append([]byte{0xf0}, fill(490, 9)...)...))), flagBits)})
	depth := t.Pick(5, 6)
	return []*mc.Family{
		{Name: "returned-frames", N: pow(len(ts), depth) * 2, Run: func(c *mc.Ctx, i int) error {
			scribble := i%2 == 1
			i /= 2
			s := cat([]byte{0}, flagBits)
			names := make([]string, depth)
			for k := range names {
				names[k] = ts[i%len(ts)].name
				s = append(s, ts[i%len(ts)].bits...)
				i /= len(ts)
			}
			exp := expect(s)
			dec := ax25.NewDecoder()
			var snaps []snap
			k := 0
			for bi, b := range s {
				f := dec.Feed(int(b))
				if f == nil {
					continue
				}
				if k >= len(exp) || exp[k].at != bi || !sameFrame(f, &exp[k].f) {
					return mc.V("decode", "%q: bit %d returned %s (frames returned before were overwritten: %v)", names, bi, show(f), scribble)
				}
				k++
				for _, sn := range snaps {
					if !sameFrame(sn.f, &sn.copy) {
						return mc.V("changed", "%q: a frame returned earlier changed from %s to %s", names, show(&sn.copy), show(sn.f))
					}
				}
				if scribble {
					for j := range f.Info {
						f.Info[j] = 0x5a
					}
					for j := range f.Repeaters {
						f.Repeaters[j].Callsign = "EVIL"
					}
					f.Info = append(f.Info, 1, 2, 3, 4, 5, 6, 7, 8)
					f.Repeaters = append(f.Repeaters, ax25.Address{Callsign: "EVIL"})
				}
				snaps = append(snaps, snap{f, deep(f)})
			}
			if k != len(exp) {
				return mc.V("missed", "%q: %d frames returned, want %d", names, k, len(exp))
			}
			// noise after the last frame overwrites the buffer
			for j := 0; j < 200; j++ {
				dec.Feed(j & 1)
			}
			for _, sn := range snaps {
				if !sameFrame(sn.f, &sn.copy) {
					return mc.V("changed", "%q: a frame returned earlier changed from %s to %s", names, show(&sn.copy), show(sn.f))
				}
			}
			c.Evals++
			c.States++
			c.Traces++
			c.Transitions += int64(len(s))
			if len(snaps) > 1 {
				c.Nontrivial++
			}
			if c.WantSample() {
				c.Sample("%q", names)
			}
			return nil
		}},
		// Thousands of frames kept: every pair of elements, repeated.
		{Name: "many-frames", N: len(ts) * len(ts) * 2, Run: func(c *mc.Ctx, i int) error {
			scribble := i%2 == 1
			i /= 2
			a, b := ts[i%len(ts)], ts[i/len(ts)]
			s := cat([]byte{0}, flagBits, bytes.Repeat(cat(a.bits, b.bits), t.Pick(400, 3000)))
			exp := expect(s)
			dec := ax25.NewDecoder()
			var snaps []snap
			k := 0
			for bi, bit := range s {
				f := dec.Feed(int(bit))
				if f == nil {
					continue
				}
				if k >= len(exp) || exp[k].at != bi || !sameFrame(f, &exp[k].f) {
					return mc.V("decode", "%q, %q repeated: frame %d is %s (frames returned before were overwritten: %v)", a.name, b.name, k, show(f), scribble)
				}
				k++
				if scribble {
					for j := range f.Info {
						f.Info[j] = 0x5a
					}
					for j := range f.Repeaters {
						f.Repeaters[j].Callsign = "EVIL"
					}
				}
				snaps = append(snaps, snap{f, deep(f)})
			}
			if k != len(exp) {
				return mc.V("missed", "%q, %q repeated: %d frames returned, want %d", a.name, b.name, k, len(exp))
			}
			for j, sn := range snaps {
				if !sameFrame(sn.f, &sn.copy) {
					return mc.V("changed", "%q, %q repeated: frame %d of %d changed later from %s to %s", a.name, b.name, j, k, show(&sn.copy), show(sn.f))
				}
			}
			c.Evals++
			c.States++
			c.Traces++
			c.Transitions += int64(len(s))
			if k > 0 {
				c.Nontrivial++
			}
			return nil
		}},
		// A hundred decoders at once, each on its own stream.
		{Name: "many-decoders", N: len(ts) * 8, Run: func(c *mc.Ctx, i int) error {
			const n = 100
			var ds [n]*ax25.AX25
			var ss [n][]byte
			var es [n][]expected
			var pos, got [n]int
			for k := range ds {
				ss[k] = cat([]byte{0}, make([]byte, k%11), flagBits, ts[(i+k)%len(ts)].bits, ts[(i+k*3)%len(ts)].bits, ts[(i/len(ts)+k)%len(ts)].bits)
				es[k] = expect(ss[k])
			}
			for k := range ds {
				ds[k] = ax25.NewDecoder()
			}
			for left := n; left > 0; {
				left = 0
				for k := range ds {
					for step := 0; step <= (k+i)%3 && pos[k] < len(ss[k]); step++ {
						f := ds[k].Feed(int(ss[k][pos[k]]))
						want := got[k] < len(es[k]) && es[k][got[k]].at == pos[k]
						if (f != nil) != want || want && !sameFrame(f, &es[k][got[k]].f) {
							return mc.V("interleaved", "%d decoders fed in turn: bit %d of decoder %d returned %s", n, pos[k], k, show(f))
						}
						if want {
							got[k]++
						}
						pos[k]++
						c.Transitions++
					}
					if pos[k] < len(ss[k]) {
						left++
					}
				}
			}
			c.Evals++
			c.States++
			c.Traces++
			return nil
		}},
		// Two and three decoders fed alternately: every pair of token streams, every
		// starting offset and every switching period.
		{Name: "interleaved", N: len(ts) * len(ts) * len(ts), Run: func(c *mc.Ctx, i int) error {
			n := len(ts)
			a := cat([]byte{0}, flagBits, ts[i%n].bits, ts[i/n%n].bits)
			b := cat([]byte{0}, flagBits, ts[i/n/n].bits, ts[i%n].bits)
			ea, eb := expect(a), expect(b)
			maxp := t.Pick(9, 17)
			for period := 1; period <= maxp; period++ {
				for off := 0; off < 16; off++ {
					da, db := ax25.NewDecoder(), ax25.NewDecoder()
					ia, ib, ka, kb := 0, 0, 0, 0
					step := func(d *ax25.AX25, s []byte, p, k *int, e []expected) error {
						if *p >= len(s) {
							return nil
						}
						f := d.Feed(int(s[*p]))
						want := *k < len(e) && e[*k].at == *p
						if (f != nil) != want || (want && !sameFrame(f, &e[*k].f)) {
							return mc.V("interleaved", "two decoders fed alternately (period %d, offset %d): bit %d returned %s", period, off, *p, show(f))
						}
						if want {
							*k++
						}
						*p++
						c.Transitions++
						return nil
					}
					for j := 0; j < off; j++ {
						if err := step(da, a, &ia, &ka, ea); err != nil {
							return err
						}
					}
					for turn := 0; ia < len(a) || ib < len(b); turn++ {
						for j := 0; j < period; j++ {
							var err error
							if turn%2 == 0 {
								err = step(db, b, &ib, &kb, eb)
							} else {
								err = step(da, a, &ia, &ka, ea)
							}
							if err != nil {
								return err
							}
						}
					}
					c.Evals++
					c.States++
					c.Traces++
				}
			}
			return nil
		}},
	}
}

var _ = reflect.DeepEqual
