package main

import (
	"encoding/binary"
	"errors"
	"fmt"
	"io"
	"net"
	"os"
	"syscall"
	"time"

	"github.com/samuel/go-dsp/borip"
	"verif/harness/mc"
)

var (
	errSock = errors.New("scripted socket error")
	errEnd  = errors.New("end of the script")
)

// netErr is an error as sockets return them.
type netErr struct{ timeout, temporary bool }

func (e *netErr) Error() string   { return fmt.Sprintf("scripted network error %v", *e) }
func (e *netErr) Timeout() bool   { return e.timeout }
func (e *netErr) Temporary() bool { return e.temporary }

// sockErrs are the errors a script can contain, as -1, -2, ...
var sockErrs = []error{
	errSock,
	os.ErrDeadlineExceeded,
	&net.OpError{Op: "read", Net: "udp", Err: &netErr{true, true}},
	&netErr{false, true},
	&net.OpError{Op: "read", Net: "udp", Err: syscall.ECONNREFUSED},
	syscall.EINTR,
	syscall.EAGAIN,
	io.EOF,
	io.ErrUnexpectedEOF,
	io.ErrShortBuffer,
	net.ErrClosed,
	borip.ErrShortPacket,
}

// event is one outcome of a socket read: a datagram or an error.
type event struct {
	data []byte
	err  error
}

// fakeConn hands out scripted events.
type fakeConn struct {
	ev   []event
	next int
}

func (f *fakeConn) ReadFrom(b []byte) (int, net.Addr, error) {
	a := &net.UDPAddr{IP: net.IPv4(127, 0, 0, 1), Port: 28888}
	if f.next >= len(f.ev) {
		return 0, nil, errEnd
	}
	e := f.ev[f.next]
	f.next++
	if e.err != nil {
		return 0, nil, e.err
	}
	return copy(b, e.data), a, nil
}
func (f *fakeConn) WriteTo([]byte, net.Addr) (int, error) { return 0, errSock }
func (f *fakeConn) Close() error                          { return nil }
func (f *fakeConn) LocalAddr() net.Addr                   { return &net.UDPAddr{} }
func (f *fakeConn) SetDeadline(time.Time) error           { return nil }
func (f *fakeConn) SetReadDeadline(time.Time) error       { return nil }
func (f *fakeConn) SetWriteDeadline(time.Time) error      { return nil }

// packetRun drives one reader over one script, checking every call.
type packetRun struct {
	rd      *borip.PacketReader
	conn    *fakeConn
	headers bool
	pending []complex128
	seed    uint32
	hdrOK   bool
	hdr     borip.PacketHeader
	buf     []complex128
}

func newPacketRun(headers bool) *packetRun {
	p := &packetRun{conn: &fakeConn{}, headers: headers}
	p.rd = borip.NewPacketReader(p.conn, headers)
	return p
}

const canary = complex(12345.5, -54321.5)

// script installs events; lengths < 0 are socket errors.
func (p *packetRun) script(lens []int) {
	p.conn.ev = p.conn.ev[:0]
	p.conn.next = 0
	for _, n := range lens {
		if n < 0 {
			p.conn.ev = append(p.conn.ev, event{err: sockErrs[-n-1]})
			continue
		}
		b := make([]byte, n)
		for k := range b {
			// all different within and between packets
			p.seed = p.seed*1664525 + 1013904223
			b[k] = byte(p.seed >> 23)
		}
		p.conn.ev = append(p.conn.ev, event{data: b})
	}
}

func payload(b []byte, headers bool) (s []complex128, h borip.PacketHeader, short bool) {
	if headers {
		if len(b) < 4 {
			return nil, h, true
		}
		h = borip.PacketHeader{Flags: b[0], Notification: b[1], Idx: binary.LittleEndian.Uint16(b[2:])}
		b = b[4:]
	}
	for len(b) >= 4 {
		s = append(s, complex(float64(int16(binary.LittleEndian.Uint16(b))), float64(int16(binary.LittleEndian.Uint16(b[2:])))))
		b = b[4:]
	}
	return s, h, false
}

// drain calls ReadSamples with the buffer sizes in turn until the script ends.
func (p *packetRun) drain(c *mc.Ctx, sizes []int) error {
	limit := 40 + 8*len(p.conn.ev) + 2*countSamples(p.conn.ev)
	for call := 0; ; call++ {
		if call > limit {
			return mc.V("stuck", "after %d calls the reader has not reached the end of the script", call)
		}
		m := sizes[call%len(sizes)]
		if cap(p.buf) < m+2 {
			p.buf = make([]complex128, m+2)
		}
		buf := p.buf[:m+2]
		for k := range buf {
			buf[k] = canary
		}
		from := p.conn.next
		had := len(p.pending)
		n, err := p.rd.ReadSamples(buf[:m:m])
		c.Transitions++
		done := p.conn.next
		var want error
		for k := from; k < done; k++ {
			e := p.conn.ev[k]
			if want != nil {
				return mc.V("swallowed error", "call %d read on after event %d, which must be reported", call, k-1)
			}
			if e.err != nil {
				want = e.err
				continue
			}
			s, h, short := payload(e.data, p.headers)
			if short {
				want = borip.ErrShortPacket
				p.hdrOK = false
				continue
			}
			p.pending = append(p.pending, s...)
			p.hdrOK, p.hdr = p.headers, h
		}
		switch {
		case n < 0 || n > m:
			return mc.V("count", "call %d with a buffer of %d returned n = %d", call, m, n)
		case buf[m] != canary || buf[m+1] != canary:
			return mc.V("overrun", "call %d wrote beyond the caller's buffer of %d", call, m)
		case n > len(p.pending):
			return mc.V("made up", "call %d returned %d samples, only %d are left in the packets received (buffer %d)", call, n, len(p.pending), m)
		}
		for k := 0; k < n; k++ {
			if buf[k] != p.pending[k] {
				return mc.V("sample", "call %d: sample %d is %v, the packets hold %v (buffer %d, n %d)", call, k, buf[k], p.pending[k], m, n)
			}
		}
		if p.hdrOK {
			if h := p.rd.Header(); h != p.hdr {
				return mc.V("header", "call %d: header %+v, the packet's is %+v", call, h, p.hdr)
			}
		}
		p.pending = p.pending[n:]
		if want == nil && err != nil && errors.Is(err, errEnd) && done == len(p.conn.ev) {
			if len(p.pending) > 0 {
				return mc.V("lost", "%d samples of the packets were never returned", len(p.pending))
			}
			return nil
		}
		switch {
		case want == nil && err != nil:
			return mc.V("spurious error", "call %d failed with %v although its datagrams were complete", call, err)
		case want != nil && !errors.Is(err, want):
			return mc.V("wrong error", "call %d returned %v, not %v", call, err, want)
		case err == nil && n == 0 && m > 0 && len(p.pending) > 0:
			return mc.V("no progress", "call %d returned no sample and no error with %d samples pending (buffer %d)", call, len(p.pending), m)
		case err == nil && n == 0 && m > 0 && had == 0 && done == from:
			return mc.V("no progress", "call %d returned nothing without reading the socket", call)
		}
	}
}

func countSamples(ev []event) int {
	n := 0
	for _, e := range ev {
		n += len(e.data) / 4
	}
	return n
}

// sizePatterns are all buffer size patterns up to the given length.
func sizePatterns(alpha []int, depth int) [][]int {
	var r [][]int
	var rec func(p []int)
	rec = func(p []int) {
		if len(p) > 0 {
			ok := false
			for _, s := range p {
				ok = ok || s > 0
			}
			if ok {
				r = append(r, append([]int(nil), p...))
			}
		}
		if len(p) == depth {
			return
		}
		for _, a := range alpha {
			rec(append(p, a))
		}
	}
	rec(nil)
	return r
}

func packetFamilies(t mc.Tier) []*mc.Family {
	small := []int{-1, 0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 19, 20, 21, 24}
	pats := sizePatterns([]int{1, 2, 3, 4, 0}, 3)
	depth := t.Pick(3, 4)
	nseq := 0
	for d, k := 1, len(small); d <= depth; d, k = d+1, k*len(small) {
		nseq += k
	}
	one := func(c *mc.Ctx, p *packetRun, lens, sizes []int) error {
		p.script(lens)
		c.Evals++
		c.Traces++
		c.States++
		if len(lens) > 0 {
			c.Nontrivial++
		}
		if err := p.drain(c, sizes); err != nil {
			v := err.(*mc.Viol)
			return mc.V(v.Key, "headers %v, datagrams of %v octets (negative: a socket error), buffers %v: %s", p.headers, lens, sizes, v.What)
		}
		return nil
	}
	seq := &mc.Family{Name: "all datagram/error sequences", N: 2 * nseq, Run: func(c *mc.Ctx, i int) error {
		p := newPacketRun(i&1 == 1)
		i >>= 1
		d, k := 1, len(small)
		for ; i >= k; d, k = d+1, k*len(small) {
			i -= k
		}
		lens := make([]int, d)
		for j := range lens {
			lens[j] = small[i%len(small)]
			i /= len(small)
		}
		if c.WantSample() {
			c.Sample("headers %v, datagrams %v with %d buffer size patterns", p.headers, lens, len(pats))
		}
		use := pats
		if d == 4 {
			use = pats[:30]
		}
		for _, s := range use {
			if err := one(c, p, lens, s); err != nil {
				return err
			}
		}
		return nil
	}}
	big := []int{4096*4 + 4, 4096 * 4, 65507, 65506, 65504, 65503, 1472, 1500, 8192, 16384, 16256*4 + 4, 4, 0, -1, 3}
	bufs := [][]int{{1 << 14}, {16376}, {16377}, {4096}, {4095}, {4097}, {1}, {7, 1000}, {16256}, {8192, 1}, {65536}, {0, 333}}
	bigF := &mc.Family{Name: "large datagrams", N: 2 * len(big) * len(big) * len(bufs), Run: func(c *mc.Ctx, i int) error {
		p := newPacketRun(i&1 == 1)
		i >>= 1
		s := bufs[i%len(bufs)]
		i /= len(bufs)
		return one(c, p, []int{big[i%len(big)], big[i/len(big)], 12, big[i%len(big)]}, s)
	}}
	long := &mc.Family{Name: "every datagram length", N: 2 * t.Pick(300, 2100), Run: func(c *mc.Ctx, i int) error {
		p := newPacketRun(i&1 == 1)
		n := i >> 1
		for b := 1; b <= n/4+2; b++ {
			if b > 40 && b < n/4-2 && b%t.Pick(17, 5) != 0 {
				continue
			}
			if err := one(c, p, []int{n, 8, n + 1}, []int{b}); err != nil {
				return err
			}
		}
		return nil
	}}
	values := &mc.Family{Name: "every sample and header value", N: 256, Run: func(c *mc.Ctx, i int) error {
		for _, headers := range []bool{true, false} {
			p := newPacketRun(headers)
			var b []byte
			for lo := 0; lo < 256; lo++ {
				x, y := uint16(i)<<8|uint16(lo), uint16(lo)<<8|uint16(i)
				b = append(b, byte(x), byte(x>>8), byte(y^0x5aa5), byte((y^0x5aa5)>>8))
			}
			for lo := 0; lo < 256; lo++ {
				h := []byte{byte(i), byte(lo), byte(lo), byte(i)}
				if lo&1 == 1 {
					h = []byte{byte(lo), byte(i), byte(i), byte(lo)}
				}
				if !headers {
					h = nil
				}
				d := append(append([]byte(nil), h...), b...)
				if headers && lo > 1 {
					d = d[:8]
				}
				p.conn.ev = []event{{data: d}}
				p.conn.next = 0
				c.Evals++
				c.Nontrivial++
				c.States++
				if err := p.drain(c, []int{1 << 10}); err != nil {
					v := err.(*mc.Viol)
					return mc.V(v.Key, "headers %v, first octets % x: %s", headers, d[:8], v.What)
				}
			}
		}
		return nil
	}}
	// Every kind of error before, between and after datagrams.
	kinds := &mc.Family{Name: "every kind of socket error", N: 2 * len(sockErrs) * len(sockErrs), Run: func(c *mc.Ctx, i int) error {
		a, b := -1-i/2%len(sockErrs), -1-i/2/len(sockErrs)
		for _, lens := range [][]int{{a}, {a, b}, {a, 12, b}, {12, a, b, 8}, {a, 3, b, 20}, {24, a, 0, b, 16}, {12, a, 12, b, 12}, {a, b, a, b, a, b, a, b, 12}} {
			for _, s := range pats[:40] {
				if err := one(c, newPacketRun(i&1 == 1), lens, s); err != nil {
					return err
				}
			}
		}
		return nil
	}}
	// More datagrams than the sequence number counts, far more octets than the
	// reader buffers, an error now and then.
	veryLong := &mc.Family{Name: "very long histories", N: 2 * 6, Run: func(c *mc.Ctx, i int) error {
		var lens []int
		for k := 0; k < t.Pick(70000, 300000); k++ {
			n := 4 * (k % 9 * (k % 9) % 9)
			switch {
			case k%4099 == 17:
				n = -1 - k%len(sockErrs)
			case k%1021 == 5:
				n = k % 4
			case k%13 == i:
				n += 3
			case k%9973 == 4:
				n = 65504
			}
			lens = append(lens, n)
		}
		p := newPacketRun(i&1 == 1)
		if err := one(c, p, lens, [][]int{{8}, {1 << 14}, {5, 3}, {1}, {7, 2, 64}, {333}}[i/2]); err != nil {
			v := err.(*mc.Viol)
			return mc.V(v.Key, "%d datagrams: ...%s", len(lens), v.What[max(0, len(v.What)-300):])
		}
		return nil
	}}
	// Long histories in one reader: sequence number wrap, many errors.
	history := &mc.Family{Name: "long histories", N: 2 * 12, Run: func(c *mc.Ctx, i int) error {
		p := newPacketRun(i&1 == 1)
		var lens []int
		for k := 0; k < t.Pick(400, 4000); k++ {
			lens = append(lens, small[(k*k+3*k+i*7)%len(small)])
		}
		return one(c, p, lens, pats[5+i*3])
	}}
	// The protocol's flags, by the names a user writes.
	flags := []struct {
		name string
		got  int
		want int
	}{
		{"FlagNone", borip.FlagNone, 0},
		{"FlagHardwareOverrun", borip.FlagHardwareOverrun, 1},
		{"FlagNetworkOverrun", borip.FlagNetworkOverrun, 2},
		{"FlagBufferOverrun", borip.FlagBufferOverrun, 4},
		{"FlagEmptyPayload", borip.FlagEmptyPayload, 8},
		{"FlagStreamStart", borip.FlagStreamStart, 16},
		{"FlagBufferUnderrun", borip.FlagBufferUnderrun, 64},
		{"FlagHardwareTimeout", borip.FlagHardwareTimeout, 128},
	}
	named := &mc.Family{Name: "named flags of every flag octet", N: 256, Run: func(c *mc.Ctx, i int) error {
		conn := &fakeConn{ev: []event{{data: []byte{byte(i), 0, 0, 0}}}}
		rd := borip.NewPacketReader(conn, true)
		if _, err := rd.ReadSamples(make([]complex128, 1)); err != nil {
			return mc.V("flags", "a packet without samples gives the error %v", err)
		}
		for _, f := range flags {
			c.Evals++
			got, want := int(rd.Header().Flags)&f.got != 0, i&f.want != 0
			if got != want || f.want == 0 && f.got != 0 {
				return mc.V("flags", "flag octet %#02x: Header().Flags & %s is %v, the protocol's bit is %v", i, f.name, got, want)
			}
		}
		c.Nontrivial++
		return nil
	}}
	// Numbers that repeat, skip, go back and wrap, with any flags, over equal,
	// silent and distinct contents: the reader has no opinion on them.
	idxs := []uint16{0, 1, 2, 3, 255, 256, 0x7fff, 0x8000, 0xfffe, 0xffff}
	fls := []byte{0, 0x10, 0x20, 0x08, 0x28, 1}
	nh := len(idxs) * len(fls)
	heads := &mc.Family{Name: "all sequences of sequence numbers and flags", N: nh * nh, Run: func(c *mc.Ctx, i int) error {
		p := newPacketRun(true)
		for j := 0; j < nh; j++ {
			hs := []int{i % nh, i / nh, j}
			for kind := 0; kind < 9; kind++ {
				p.conn.ev, p.conn.next = p.conn.ev[:0], 0
				for q, h := range hs {
					d := []byte{fls[h/len(idxs)], 0, byte(idxs[h%len(idxs)]), byte(idxs[h%len(idxs)] >> 8)}
					for k := 0; k < 4*((kind/3+q*(kind/3))%3+1-kind/6); k++ {
						d = append(d, []byte{0, 0x35, byte(k*29 + q*83 + 1)}[kind%3])
					}
					p.conn.ev = append(p.conn.ev, event{data: d})
				}
				c.Evals++
				c.Nontrivial++
				c.Traces++
				c.States++
				if err := p.drain(c, []int{1 + kind%2*63}); err != nil {
					v := err.(*mc.Viol)
					return mc.V(v.Key, "datagrams % x, % x, % x: %s", p.conn.ev[0].data, p.conn.ev[1].data, p.conn.ev[2].data, v.What)
				}
			}
		}
		return nil
	}}
	return []*mc.Family{seq, bigF, long, values, heads, kinds, named, history, veryLong}
}
