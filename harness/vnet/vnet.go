// Package vnet replaces package net by an in-memory network with a scheduling
// point before every operation, whose waiting goroutines are blocked on
// channels. Everything that is recorded is for the explorer's oracles.
package vnet

import (
	"bytes"
	"context"
	"errors"
	"io"
	"net"
	"os"
	"strconv"
	"sync"
	"time"

	"verif/harness/gate"
)

// Net is the network of one run.
type Net struct {
	mu        sync.Mutex
	listeners map[string]*listener
	udp       []*UDPConn
	closing   bool
	nextPort  int
	failDials int
	refuse    []int
}

var cur = New()

// New makes an empty network.
func New() *Net { return &Net{listeners: map[string]*listener{}, nextPort: 40000} }

// Use makes n the network of the process.
func Use(n *Net) { cur = n }

// DialHook, when set, makes every dialled connection.
var DialHook func(network, address string) (net.Conn, error)

func opErr(op, network string, err error) error { return &net.OpError{Op: op, Net: network, Err: err} }

var (
	errRefused = errors.New("connection refused")
	errClosed  = net.ErrClosed
	errReset   = errors.New("connection reset by peer")
	errPipe    = errors.New("broken pipe")
)

// Progress, when set, is told that the goroutine wrote to or closed an accepted
// connection.
var Progress func(goid uint64)

func (c *StreamConn) progress() {
	if c.Server && Progress != nil {
		Progress(gate.GoID())
	}
}

// half is one direction of a connection.
type half struct {
	mu    sync.Mutex
	buf   []byte
	eof   bool // writer closed
	gone  bool // reader closed
	reset bool
	wait  chan struct{}
}

func (h *half) wakeLocked() {
	if h.wait != nil {
		close(h.wait)
		h.wait = nil
	}
}

// StreamConn is one end of a connection.
type StreamConn struct {
	r, w          *half
	local, remote net.Addr
	mu            sync.Mutex
	closed        bool
	Server        bool   // accepted end
	Quiet         bool   // no scheduling points (the explorer's own end)
	MaxRead       int    // at most so many bytes per Read (0 = all)
	Resume        bool   // scheduling point only when a read goes on after waiting
	Written       []Mark // of an accepted end: what was written when
	offset        int
	rdead, wdead  time.Time
}

// Mark tells that the octets before Offset were written by the time Clock.
type Mark struct{ Offset, Clock int }

// Marks lists what was written when.
func (c *StreamConn) Marks() []Mark {
	c.w.mu.Lock()
	defer c.w.mu.Unlock()
	return c.Written
}

func (c *StreamConn) at(s string) {
	if !c.Quiet {
		gate.At(s)
	}
}

func (c *StreamConn) isClosed() bool {
	c.mu.Lock()
	defer c.mu.Unlock()
	return c.closed
}

// Closed tells whether this end was closed.
func (c *StreamConn) Closed() bool { return c.isClosed() }

// expired tells whether the deadline for reading or writing has passed, and when
// it comes.
func (c *StreamConn) expired(write bool) (bool, time.Time) {
	c.mu.Lock()
	defer c.mu.Unlock()
	t := c.rdead
	if write {
		t = c.wdead
	}
	return !t.IsZero() && !time.Now().Before(t), t
}

func (c *StreamConn) Read(b []byte) (int, error) {
	c.at("read")
	for {
		if c.isClosed() {
			return 0, opErr("read", "tcp", errClosed)
		}
		late, dead := c.expired(false)
		if late {
			return 0, opErr("read", "tcp", os.ErrDeadlineExceeded)
		}
		h := c.r
		h.mu.Lock()
		if len(h.buf) > 0 && !h.reset {
			n := len(b)
			if c.MaxRead > 0 && n > c.MaxRead {
				n = c.MaxRead
			}
			n = copy(b[:n], h.buf)
			h.buf = h.buf[n:]
			h.mu.Unlock()
			return n, nil
		}
		if h.reset {
			h.mu.Unlock()
			return 0, opErr("read", "tcp", errReset)
		}
		if h.eof {
			h.mu.Unlock()
			return 0, io.EOF
		}
		if len(b) == 0 {
			h.mu.Unlock()
			return 0, nil
		}
		if h.wait == nil {
			h.wait = make(chan struct{})
		}
		w := h.wait
		h.mu.Unlock()
		if dead.IsZero() {
			<-w
		} else {
			t := time.NewTimer(time.Until(dead))
			select {
			case <-w:
			case <-t.C:
			}
			t.Stop()
		}
		if c.Resume {
			gate.At("read continues")
		} else {
			c.at("read continues")
		}
	}
}

func (c *StreamConn) Write(b []byte) (int, error) {
	c.at("write")
	if c.isClosed() {
		return 0, opErr("write", "tcp", errClosed)
	}
	if late, _ := c.expired(true); late {
		return 0, opErr("write", "tcp", os.ErrDeadlineExceeded)
	}
	h := c.w
	h.mu.Lock()
	defer h.mu.Unlock()
	if h.gone || h.reset {
		return 0, opErr("write", "tcp", errPipe)
	}
	c.progress()
	if c.Server && Clock != nil {
		c.offset += len(b)
		c.Written = append(c.Written, Mark{c.offset, Clock()})
	}
	h.buf = append(h.buf, b...)
	h.wakeLocked()
	return len(b), nil
}

func (c *StreamConn) Close() error {
	c.at("close")
	c.mu.Lock()
	if c.closed {
		c.mu.Unlock()
		return opErr("close", "tcp", errClosed)
	}
	c.closed = true
	c.mu.Unlock()
	c.progress()
	c.w.mu.Lock()
	c.w.eof = true
	c.w.wakeLocked()
	c.w.mu.Unlock()
	c.r.mu.Lock()
	c.r.gone = true
	c.r.wakeLocked()
	c.r.mu.Unlock()
	return nil
}

// Reset breaks the connection in both directions.
func (c *StreamConn) Reset() {
	for _, h := range []*half{c.r, c.w} {
		h.mu.Lock()
		h.reset, h.buf = true, nil
		h.wakeLocked()
		h.mu.Unlock()
	}
}

// CloseWrite half-closes.
func (c *StreamConn) CloseWrite() error {
	c.w.mu.Lock()
	c.w.eof = true
	c.w.wakeLocked()
	c.w.mu.Unlock()
	return nil
}

func (c *StreamConn) LocalAddr() net.Addr  { return c.local }
func (c *StreamConn) RemoteAddr() net.Addr { return c.remote }
func (c *StreamConn) SetDeadline(t time.Time) error {
	c.SetWriteDeadline(t)
	return c.SetReadDeadline(t)
}

func (c *StreamConn) SetReadDeadline(t time.Time) error {
	c.mu.Lock()
	c.rdead = t
	c.mu.Unlock()
	c.r.mu.Lock()
	c.r.wakeLocked()
	c.r.mu.Unlock()
	return nil
}

func (c *StreamConn) SetWriteDeadline(t time.Time) error {
	c.mu.Lock()
	defer c.mu.Unlock()
	c.wdead = t
	return nil
}

func (c *StreamConn) SetNoDelay(bool) error   { return nil }
func (c *StreamConn) SetKeepAlive(bool) error { return nil }

type listener struct {
	n      *Net
	addr   *net.TCPAddr
	mu     sync.Mutex
	queue  []*StreamConn
	closed bool
	fail   int // coming Accept calls that fail
	wait   chan struct{}
}

func (l *listener) Accept() (net.Conn, error) {
	gate.At("accept")
	for {
		l.mu.Lock()
		if l.closed {
			l.mu.Unlock()
			if gate.Active() {
				gate.At("accept on a closed listener")
			}
			return nil, opErr("accept", "tcp", errClosed)
		}
		if l.fail > 0 {
			l.fail--
			l.mu.Unlock()
			return nil, opErr("accept", "tcp", errors.New("too many open files"))
		}
		if len(l.queue) > 0 {
			c := l.queue[0]
			l.queue = l.queue[1:]
			l.mu.Unlock()
			return c, nil
		}
		if l.wait == nil {
			l.wait = make(chan struct{})
		}
		w := l.wait
		l.mu.Unlock()
		<-w
		gate.At("accept continues")
	}
}

func (l *listener) wakeLocked() {
	if l.wait != nil {
		close(l.wait)
		l.wait = nil
	}
}

func (l *listener) Close() error {
	l.mu.Lock()
	l.closed = true
	l.wakeLocked()
	l.mu.Unlock()
	l.n.mu.Lock()
	delete(l.n.listeners, portOf(l.addr.String()))
	l.n.mu.Unlock()
	return nil
}

func (l *listener) Addr() net.Addr { return l.addr }

func portOf(addr string) string {
	_, p, err := net.SplitHostPort(addr)
	if err != nil {
		return addr
	}
	return p
}

// Listen as net.Listen.
func Listen(network, address string) (net.Listener, error) {
	a, err := net.ResolveTCPAddr("tcp", address)
	if err != nil {
		return nil, err
	}
	cur.mu.Lock()
	defer cur.mu.Unlock()
	p := portOf(address)
	if cur.listeners[p] != nil {
		return nil, opErr("listen", "tcp", errors.New("address already in use"))
	}
	l := &listener{n: cur, addr: a}
	cur.listeners[p] = l
	return l, nil
}

// ListenTCP as net.ListenTCP, but an interface.
func ListenTCP(network string, a *net.TCPAddr) (net.Listener, error) {
	return Listen(network, a.String())
}

// ListenConfig as net.ListenConfig.
type ListenConfig struct {
	KeepAlive time.Duration
}

func (*ListenConfig) Listen(_ context.Context, network, address string) (net.Listener, error) {
	return Listen(network, address)
}

// Pair makes a connection: the dialling end and the accepted one.
func (n *Net) Pair(address string) (cli, srv *StreamConn) {
	return n.pairFrom(&net.TCPAddr{IP: net.IPv4(10, 0, 0, 1)}, address)
}

func (n *Net) pairFrom(from *net.TCPAddr, address string) (cli, srv *StreamConn) {
	a, b := &half{}, &half{}
	n.nextPort++
	ca := &net.TCPAddr{IP: from.IP, Zone: from.Zone, Port: n.nextPort}
	sa, err := net.ResolveTCPAddr("tcp", address)
	if err != nil {
		sa = &net.TCPAddr{IP: net.IPv4(10, 0, 0, 2), Port: 28888}
	}
	return &StreamConn{r: a, w: b, local: ca, remote: sa}, &StreamConn{r: b, w: a, local: sa, remote: ca, Server: true}
}

// Connect dials without a scheduling point; the accepted end is returned too.
func (n *Net) Connect(address string) (cli, srv *StreamConn, err error) {
	return n.ConnectFrom(&net.TCPAddr{IP: net.IPv4(10, 0, 0, 1)}, address)
}

// ConnectFrom is Connect from an address.
func (n *Net) ConnectFrom(from *net.TCPAddr, address string) (cli, srv *StreamConn, err error) {
	n.mu.Lock()
	defer n.mu.Unlock()
	l := n.listeners[portOf(address)]
	if l == nil {
		return nil, nil, opErr("dial", "tcp", errRefused)
	}
	cli, srv = n.pairFrom(from, address)
	l.mu.Lock()
	l.queue = append(l.queue, srv)
	l.wakeLocked()
	l.mu.Unlock()
	return cli, srv, nil
}

// FailAccepts makes the next k Accept calls on the port fail.
func (n *Net) FailAccepts(port string, k int) {
	n.mu.Lock()
	defer n.mu.Unlock()
	if l := n.listeners[port]; l != nil {
		l.mu.Lock()
		l.fail += k
		l.wakeLocked()
		l.mu.Unlock()
	}
}

// Listening tells whether somebody listens on the port.
func (n *Net) Listening(port string) bool {
	n.mu.Lock()
	defer n.mu.Unlock()
	return n.listeners[port] != nil
}

// CloseAll closes the listeners, for the end of a run.
func (n *Net) CloseAll() {
	n.mu.Lock()
	ls := n.listeners
	n.listeners = map[string]*listener{}
	n.mu.Unlock()
	for _, l := range ls {
		l.mu.Lock()
		l.closed = true
		l.wakeLocked()
		l.mu.Unlock()
	}
}

// Dial as net.Dial.
func Dial(network, address string) (net.Conn, error) {
	if DialHook != nil {
		return DialHook(network, address)
	}
	gate.At("dial")
	c, _, err := cur.Connect(address)
	if err != nil {
		return nil, err
	}
	return c, nil
}

func DialTimeout(network, address string, _ time.Duration) (net.Conn, error) {
	return Dial(network, address)
}

func DialTCP(network string, _, raddr *net.TCPAddr) (net.Conn, error) {
	return Dial(network, raddr.String())
}

// Dialer as net.Dialer.
type Dialer struct {
	Timeout   time.Duration
	Deadline  time.Time
	KeepAlive time.Duration
}

func (*Dialer) Dial(network, address string) (net.Conn, error) { return Dial(network, address) }
func (*Dialer) DialContext(_ context.Context, network, address string) (net.Conn, error) {
	return Dial(network, address)
}

// ResolveUDPAddr resolves literals only: there is no name service.
func ResolveUDPAddr(network, address string) (*net.UDPAddr, error) {
	h, p, err := net.SplitHostPort(address)
	if err != nil {
		return nil, err
	}
	if n, err := strconv.Atoi(p); err == nil && (n < 0 || n > 65535) {
		return nil, &net.AddrError{Err: "invalid port", Addr: p}
	} else if err != nil {
		return nil, &net.AddrError{Err: "unknown port", Addr: p}
	}
	if h != "" && net.ParseIP(h) == nil && h != "localhost" {
		return nil, &net.DNSError{Err: "no such host", Name: h}
	}
	if h == "localhost" {
		address = "127.0.0.1:" + p
	}
	return net.ResolveUDPAddr(network, address)
}

// UDPConn is a connected datagram socket.
type UDPConn struct {
	Remote   *net.UDPAddr
	mu       sync.Mutex
	Packets  [][]byte
	Stamp    []int // value of Clock at each packet
	IsClosed bool
	Late     int // writes after closing
	refuse   []int
	refused  bool
	writes   int
}

// Clock, when set, numbers the packets.
var Clock func() int

// Arrive, when set, is told of every datagram sent.
var Arrive func(u *UDPConn)

// FailUDP makes the next k DialUDP calls fail.
func (n *Net) FailUDP(k int) {
	n.mu.Lock()
	n.failDials = k
	n.mu.Unlock()
}

// RefuseUDP makes the given writes (from 1) of every datagram socket opened from
// now on fail.
func (n *Net) RefuseUDP(writes []int) {
	n.mu.Lock()
	n.refuse = writes
	n.mu.Unlock()
}

// DialUDP as net.DialUDP.
func DialUDP(network string, laddr, raddr *net.UDPAddr) (*UDPConn, error) {
	gate.At("dial udp")
	if raddr == nil {
		return nil, opErr("dial", network, errors.New("missing address"))
	}
	if v4 := raddr.IP.To4() != nil; raddr.IP != nil && (network == "udp4" && !v4 || network == "udp6" && v4) {
		return nil, opErr("dial", network, errors.New("address of another family"))
	}
	cur.mu.Lock()
	defer cur.mu.Unlock()
	if cur.failDials > 0 {
		cur.failDials--
		return nil, opErr("dial", network, errors.New("network is unreachable"))
	}
	u := &UDPConn{Remote: raddr, refuse: cur.refuse}
	cur.udp = append(cur.udp, u)
	return u, nil
}

func (u *UDPConn) Write(b []byte) (int, error) {
	gate.At("send datagram")
	if Arrive != nil {
		defer Arrive(u)
	}
	u.mu.Lock()
	defer u.mu.Unlock()
	if u.IsClosed {
		u.Late++
		return 0, opErr("write", "udp", errClosed)
	}
	if u.refused && len(u.Packets) > 0 && bytes.Equal(u.Packets[len(u.Packets)-1], b) {
		// sent again
		u.Packets, u.Stamp = u.Packets[:len(u.Packets)-1], u.Stamp[:len(u.Stamp)-1]
	}
	u.refused = false
	u.Packets = append(u.Packets, append([]byte(nil), b...))
	u.writes++
	s := 0
	if Clock != nil {
		s = Clock()
	}
	u.Stamp = append(u.Stamp, s)
	for _, n := range u.refuse {
		if n == u.writes {
			u.refused = true
			return 0, opErr("write", "udp", errRefused)
		}
	}
	return len(b), nil
}

func (u *UDPConn) Close() error {
	gate.At("close datagram socket")
	u.mu.Lock()
	defer u.mu.Unlock()
	if u.IsClosed {
		return opErr("close", "udp", errClosed)
	}
	u.IsClosed = true
	return nil
}

func (u *UDPConn) LocalAddr() net.Addr                { return &net.UDPAddr{IP: net.IPv4(10, 0, 0, 2), Port: 1} }
func (u *UDPConn) RemoteAddr() net.Addr               { return u.Remote }
func (u *UDPConn) Read(b []byte) (int, error)         { return 0, opErr("read", "udp", errRefused) }
func (u *UDPConn) SetDeadline(t time.Time) error      { return nil }
func (u *UDPConn) SetReadDeadline(t time.Time) error  { return nil }
func (u *UDPConn) SetWriteDeadline(t time.Time) error { return nil }
func (u *UDPConn) SetWriteBuffer(int) error           { return nil }
func (u *UDPConn) SetReadBuffer(int) error            { return nil }

// UDP lists the datagram sockets opened so far.
func (n *Net) UDP() []*UDPConn {
	n.mu.Lock()
	defer n.mu.Unlock()
	return append([]*UDPConn(nil), n.udp...)
}

// Snapshot returns what was sent.
func (u *UDPConn) Snapshot() ([][]byte, []int, bool, int) {
	u.mu.Lock()
	defer u.mu.Unlock()
	return u.Packets, u.Stamp, u.IsClosed, u.Late
}
