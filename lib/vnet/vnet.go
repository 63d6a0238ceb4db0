// Package vnet replaces package net in instrumented sources: addresses that are
// registered with it are served by an in-memory network whose operations block
// on channels (durably, in a synctest bubble); everything else goes to net.
package vnet

import (
	"context"
	"io"
	"net"
	"os"
	"strings"
	"sync"
	"syscall"
	"time"

	"github.com/c2FmZQ/tlsproxy/internal/vsync"
)

// Net is an in-memory network.
type Net struct {
	mu        sync.Mutex
	listeners map[string]*listener
	// DialHook can make a dial fail.
	DialHook func(ctx context.Context, addr string) error
	port     int
	conns    []*VConn
	udp      map[string]*VUDP
	// UDPHook can drop datagrams.
	UDPHook func(src, dst *net.UDPAddr, b []byte) bool
	// Points selects the operations on the dialing/accepting side of the code
	// under test that are scheduling points.
	Points map[string]bool
	// Limit is the size of the buffer of each direction (0: unbounded).
	Limit int
}

var (
	netMu sync.Mutex
	curN  *Net
)

// Begin installs a new in-memory network.
func Begin() *Net {
	netMu.Lock()
	defer netMu.Unlock()
	curN = &Net{listeners: map[string]*listener{}, port: 40000, Points: map[string]bool{}}
	return curN
}

// End removes it.
func End() {
	netMu.Lock()
	defer netMu.Unlock()
	curN = nil
}

func current() *Net {
	netMu.Lock()
	defer netMu.Unlock()
	return curN
}

// Dialer is like net.Dialer.
type Dialer struct {
	Timeout         time.Duration
	Deadline        time.Time
	LocalAddr       net.Addr
	DualStack       bool
	FallbackDelay   time.Duration
	KeepAlive       time.Duration
	KeepAliveConfig net.KeepAliveConfig
	Resolver        *net.Resolver
	Cancel          <-chan struct{}
	Control         func(network, address string, c syscall.RawConn) error
	ControlContext  func(ctx context.Context, network, address string, c syscall.RawConn) error
}

func (d *Dialer) real() *net.Dialer {
	return &net.Dialer{Timeout: d.Timeout, Deadline: d.Deadline, LocalAddr: d.LocalAddr, FallbackDelay: d.FallbackDelay,
		KeepAlive: d.KeepAlive, KeepAliveConfig: d.KeepAliveConfig, Resolver: d.Resolver, Cancel: d.Cancel, Control: d.Control, ControlContext: d.ControlContext}
}

func (d *Dialer) Dial(network, addr string) (net.Conn, error) {
	return d.DialContext(context.Background(), network, addr)
}

func (d *Dialer) DialContext(ctx context.Context, network, addr string) (net.Conn, error) {
	n := current()
	if n == nil {
		return d.real().DialContext(ctx, network, addr)
	}
	if d.Timeout > 0 {
		var cancel context.CancelFunc
		ctx, cancel = context.WithTimeout(ctx, d.Timeout)
		defer cancel()
	}
	c, err := n.Dial(ctx, addr, "", true)
	if err != nil {
		return nil, &net.OpError{Op: "dial", Net: network, Err: err}
	}
	return c, nil
}

func Dial(network, addr string) (net.Conn, error) { return (&Dialer{}).Dial(network, addr) }

func DialTimeout(network, addr string, t time.Duration) (net.Conn, error) {
	return (&Dialer{Timeout: t}).Dial(network, addr)
}

type ListenConfig = net.ListenConfig

func Listen(network, addr string) (net.Listener, error) {
	n := current()
	if n == nil {
		return net.Listen(network, addr)
	}
	return n.Listen(addr, true)
}

type listener struct {
	n     *Net
	addr  *net.TCPAddr
	mu    sync.Mutex
	q     []*VConn
	wake  chan struct{}
	done  chan struct{}
	once  sync.Once
	sched bool
}

// Listen creates a listener; sched says that it belongs to the code under
// test.
func (n *Net) Listen(addr string, sched bool) (net.Listener, error) {
	a, err := net.ResolveTCPAddr("tcp", addr)
	if err != nil {
		return nil, err
	}
	n.mu.Lock()
	defer n.mu.Unlock()
	if a.Port == 0 {
		n.port++
		a.Port = n.port
	}
	l := &listener{n: n, addr: a, wake: make(chan struct{}, 1), done: make(chan struct{}), sched: sched}
	if n.listeners[a.String()] != nil {
		return nil, &net.OpError{Op: "listen", Err: syscall.EADDRINUSE}
	}
	n.listeners[a.String()] = l
	return l, nil
}

func (l *listener) Addr() net.Addr { return l.addr }

func (l *listener) Accept() (net.Conn, error) {
	for {
		select {
		case <-l.done:
			return nil, &net.OpError{Op: "accept", Net: "tcp", Addr: l.addr, Err: net.ErrClosed}
		default:
		}
		l.mu.Lock()
		if len(l.q) > 0 {
			c := l.q[0]
			l.q = l.q[1:]
			l.mu.Unlock()
			return c, nil
		}
		l.mu.Unlock()
		select {
		case <-l.wake:
		case <-l.done:
		}
	}
}

func (l *listener) Close() error {
	err := error(&net.OpError{Op: "close", Net: "tcp", Addr: l.addr, Err: net.ErrClosed})
	l.once.Do(func() {
		err = nil
		close(l.done)
		l.n.mu.Lock()
		delete(l.n.listeners, l.addr.String())
		l.n.mu.Unlock()
		l.mu.Lock()
		q := l.q
		l.q = nil
		l.mu.Unlock()
		for _, c := range q {
			c.Reset()
		}
	})
	return err
}

// Dial connects to a listener.
func (n *Net) Dial(ctx context.Context, addr, from string, sched bool) (*VConn, error) {
	if err := ctx.Err(); err != nil {
		return nil, err
	}
	if n.DialHook != nil && sched {
		if err := n.DialHook(ctx, addr); err != nil {
			return nil, err
		}
	}
	n.mu.Lock()
	l := n.listeners[addr]
	if l == nil {
		n.mu.Unlock()
		return nil, os.NewSyscallError("connect", syscall.ECONNREFUSED)
	}
	n.port++
	ip := net.IPv4(127, 0, 0, 1)
	if v4, ok := strings.CutPrefix(from, "4/"); ok {
		ip = net.ParseIP(v4).To4() // the short form
	} else if from != "" {
		ip = net.ParseIP(from)
	}
	la := &net.TCPAddr{IP: ip, Port: n.port}
	dst := l.addr.IP
	if ip.To4() == nil && dst.To4() != nil {
		// The listener is reachable with both families.
		dst = net.IPv6loopback
	}
	a, b := n.pair(la, &net.TCPAddr{IP: dst, Port: l.addr.Port})
	a.sched, b.sched = sched, l.sched
	n.mu.Unlock()
	l.mu.Lock()
	l.q = append(l.q, b)
	l.mu.Unlock()
	select {
	case l.wake <- struct{}{}:
	default:
	}
	return a, nil
}

// pair makes a connection. n.mu must be held.
func (n *Net) pair(a, b *net.TCPAddr) (*VConn, *VConn) {
	x, y := newHalf(n.Limit), newHalf(n.Limit)
	ca := &VConn{n: n, r: x, w: y, l: a, p: b}
	cb := &VConn{n: n, r: y, w: x, l: &net.TCPAddr{IP: b.IP, Port: b.Port}, p: &net.TCPAddr{IP: a.IP, Port: a.Port}}
	n.conns = append(n.conns, ca, cb)
	return ca, cb
}

// half is one direction of a connection.
type half struct {
	mu    sync.Mutex
	buf   []byte
	limit int
	fin   bool // the writer is done
	rst   bool
	gone  bool // the reader is gone
	shut  bool // the reader called CloseRead
	total int
	wait  []chan struct{}
}

func newHalf(limit int) *half { return &half{limit: limit} }

func (h *half) wake() {
	for _, ch := range h.wait {
		close(ch)
	}
	h.wait = nil
}

func (h *half) waiter() chan struct{} {
	ch := make(chan struct{})
	h.wait = append(h.wait, ch)
	return ch
}

// Conn is one end of an in-memory TCP connection.
type VConn struct {
	n     *Net
	r, w  *half
	l, p  *net.TCPAddr
	sched bool

	mu     sync.Mutex
	closed bool
	gate   chan struct{}
	gateN  int
	rdl    deadline
	wdl    deadline
}

type deadline struct {
	t  time.Time
	ch chan struct{} // closed when the deadline changes
}

func (c *VConn) op(op string, err error) error {
	if err == io.EOF {
		return err
	}
	return &net.OpError{Op: op, Net: "tcp", Source: c.l, Addr: c.p, Err: err}
}

func (c *VConn) point(op string) {
	if c.sched && c.n.Points[op] {
		vsync.Point(op)
	}
}

func (c *VConn) dl(d *deadline) (time.Time, chan struct{}) {
	c.mu.Lock()
	defer c.mu.Unlock()
	if d.ch == nil {
		d.ch = make(chan struct{})
	}
	return d.t, d.ch
}

// block waits for a change of the half, or of the deadline.
func (c *VConn) block(ch chan struct{}, d *deadline) error {
	t, chg := c.dl(d)
	if t.IsZero() {
		select {
		case <-ch:
		case <-chg:
		}
		return nil
	}
	left := time.Until(t)
	if left <= 0 {
		return os.ErrDeadlineExceeded
	}
	tm := time.NewTimer(left)
	defer tm.Stop()
	select {
	case <-ch:
	case <-chg:
	case <-tm.C:
		return os.ErrDeadlineExceeded
	}
	return nil
}

func (c *VConn) isClosed() bool {
	c.mu.Lock()
	defer c.mu.Unlock()
	return c.closed
}

func (c *VConn) expired(d *deadline) bool {
	t, _ := c.dl(d)
	return !t.IsZero() && !time.Now().Before(t)
}

func (c *VConn) Read(b []byte) (int, error) {
	c.point("Read")
	for {
		if c.isClosed() {
			return 0, c.op("read", net.ErrClosed)
		}
		if c.expired(&c.rdl) {
			return 0, c.op("read", os.ErrDeadlineExceeded)
		}
		h := c.r
		h.mu.Lock()
		switch {
		case h.gone:
			h.mu.Unlock()
			return 0, c.op("read", net.ErrClosed)
		case h.shut:
			h.mu.Unlock()
			return 0, io.EOF
		case len(b) == 0:
			h.mu.Unlock()
			return 0, nil
		case len(h.buf) > 0:
			n := copy(b, h.buf)
			h.buf = h.buf[n:]
			h.wake()
			h.mu.Unlock()
			return n, nil
		case h.rst:
			h.mu.Unlock()
			return 0, c.op("read", os.NewSyscallError("read", syscall.ECONNRESET))
		case h.fin:
			h.mu.Unlock()
			return 0, io.EOF
		}
		ch := h.waiter()
		h.mu.Unlock()
		if err := c.block(ch, &c.rdl); err != nil {
			return 0, c.op("read", err)
		}
	}
}

func (c *VConn) Write(b []byte) (int, error) {
	c.point("Write")
	if p := c.pass(b); len(p) < len(b) {
		n, err := c.write(p)
		if err != nil {
			return n, err
		}
		m, err := c.Write(b[n:])
		return n + m, err
	}
	return c.write(b)
}

func (c *VConn) write(b []byte) (int, error) {
	n := 0
	for {
		if c.isClosed() {
			return n, c.op("write", net.ErrClosed)
		}
		if c.expired(&c.wdl) {
			return n, c.op("write", os.ErrDeadlineExceeded)
		}
		h := c.w
		h.mu.Lock()
		switch {
		case h.fin:
			h.mu.Unlock()
			return n, c.op("write", os.NewSyscallError("write", syscall.EPIPE))
		case h.rst || h.gone:
			h.mu.Unlock()
			return n, c.op("write", os.NewSyscallError("write", syscall.ECONNRESET))
		}
		m := len(b) - n
		if h.limit > 0 {
			m = min(m, h.limit-len(h.buf))
		}
		if h.shut {
			m = len(b) - n // discarded
		} else {
			h.buf = append(h.buf, b[n:n+m]...)
		}
		h.total += m
		n += m
		if m > 0 {
			h.wake()
		}
		if n == len(b) {
			h.mu.Unlock()
			return n, nil
		}
		ch := h.waiter()
		h.mu.Unlock()
		if err := c.block(ch, &c.wdl); err != nil {
			return n, c.op("write", err)
		}
	}
}

// Close closes both directions. As with TCP, data that was received and not
// read makes it a reset.
func (c *VConn) Close() error {
	c.point("Close")
	c.mu.Lock()
	if c.closed {
		c.mu.Unlock()
		return c.op("close", net.ErrClosed)
	}
	c.closed = true
	c.mu.Unlock()
	c.shutdown(false)
	return nil
}

// Reset aborts the connection.
func (c *VConn) Reset() {
	c.mu.Lock()
	if c.closed {
		c.mu.Unlock()
		return
	}
	c.closed = true
	c.mu.Unlock()
	c.shutdown(true)
}

func (c *VConn) shutdown(rst bool) {
	c.r.mu.Lock()
	if len(c.r.buf) > 0 {
		rst = true
	}
	c.r.buf = nil
	c.r.gone = true
	c.r.wake()
	c.r.mu.Unlock()
	c.w.mu.Lock()
	c.w.fin = true
	if rst {
		c.w.rst = true
	}
	c.w.wake()
	c.w.mu.Unlock()
	c.chg(&c.rdl)
	c.chg(&c.wdl)
}

func (c *VConn) chg(d *deadline) {
	c.mu.Lock()
	defer c.mu.Unlock()
	if d.ch != nil {
		close(d.ch)
		d.ch = nil
	}
}

func (c *VConn) CloseWrite() error {
	c.point("CloseWrite")
	if c.isClosed() {
		return c.op("close", net.ErrClosed)
	}
	c.w.mu.Lock()
	defer c.w.mu.Unlock()
	if c.w.rst {
		return c.op("close", os.NewSyscallError("shutdown", syscall.ENOTCONN))
	}
	c.w.fin = true
	c.w.wake()
	return nil
}

func (c *VConn) CloseRead() error {
	c.point("CloseRead")
	if c.isClosed() {
		return c.op("close", net.ErrClosed)
	}
	c.r.mu.Lock()
	defer c.r.mu.Unlock()
	// After shutdown(SHUT_RD) Linux still delivers what arrives, and returns
	// EOF when there is nothing.
	if len(c.r.buf) == 0 {
		c.r.shut = true
	}
	c.r.wake()
	return nil
}

func (c *VConn) LocalAddr() net.Addr  { return c.l }
func (c *VConn) RemoteAddr() net.Addr { return c.p }

func (c *VConn) SetDeadline(t time.Time) error {
	c.SetReadDeadline(t)
	return c.SetWriteDeadline(t)
}

func (c *VConn) setDL(d *deadline, t time.Time) error {
	if c.isClosed() {
		return c.op("set", net.ErrClosed)
	}
	c.mu.Lock()
	d.t = t
	c.mu.Unlock()
	c.chg(d)
	return nil
}

func (c *VConn) SetReadDeadline(t time.Time) error  { return c.setDL(&c.rdl, t) }
func (c *VConn) SetWriteDeadline(t time.Time) error { return c.setDL(&c.wdl, t) }

// Closed says whether this end was closed.
func (c *VConn) Closed() bool { return c.isClosed() }

// PeerClosed says whether the other end finished writing (or is gone).
func (c *VConn) PeerClosed() (fin, rst, gone bool) {
	c.r.mu.Lock()
	fin, rst = c.r.fin, c.r.rst
	c.r.mu.Unlock()
	c.w.mu.Lock()
	gone = c.w.gone
	c.w.mu.Unlock()
	return
}

// Buffered returns the number of bytes waiting to be read at this end.
func (c *VConn) Buffered() int {
	c.r.mu.Lock()
	defer c.r.mu.Unlock()
	return len(c.r.buf)
}

// Open returns the ends, on the side of the code under test, that are not
// closed.
func (n *Net) Open() []*VConn {
	n.mu.Lock()
	defer n.mu.Unlock()
	var r []*VConn
	for _, c := range n.conns {
		if c.sched && !c.isClosed() {
			r = append(r, c)
		}
	}
	return r
}

// ResetAll aborts every connection.
func (n *Net) ResetAll() {
	n.mu.Lock()
	conns := n.conns
	n.mu.Unlock()
	for _, c := range conns {
		c.Reset()
	}
}

// Gate holds back what this end writes after n bytes, until the channel is
// closed. With n < 0, the first write goes through.
func (c *VConn) Gate(n int, ch chan struct{}) {
	c.mu.Lock()
	defer c.mu.Unlock()
	c.gateN, c.gate = n, ch
}

// pass waits for the gate. It returns the bytes that can be written now.
func (c *VConn) pass(b []byte) []byte {
	c.mu.Lock()
	g, n := c.gate, c.gateN
	if g == nil {
		c.mu.Unlock()
		return b
	}
	if n < 0 {
		c.gateN = 0
		c.mu.Unlock()
		return b
	}
	if n >= len(b) {
		c.gateN -= len(b)
		c.mu.Unlock()
		return b
	}
	c.gateN = 0
	c.mu.Unlock()
	if n > 0 {
		return b[:n]
	}
	<-g
	return b
}
