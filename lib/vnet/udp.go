package vnet

import (
	"net"
	"os"
	"sync"
	"syscall"
	"time"
)

// UDPDelay is the time that datagrams spend on the network.
const UDPDelay = time.Millisecond

// VUDP is a virtual UDP socket. Datagrams are neither lost nor reordered,
// unless the network's UDPHook says so.
type VUDP struct {
	n    *Net
	addr *net.UDPAddr
	// Code under test.
	sched bool

	mu     sync.Mutex
	q      []datagram
	closed bool
	rdl    time.Time
	chg    chan struct{} // closed when something changes
}

type datagram struct {
	due  time.Time
	from *net.UDPAddr
	b    []byte
}

// ListenUDP is like net.ListenUDP.
func ListenUDP(network string, laddr *net.UDPAddr) (net.PacketConn, error) {
	n := current()
	if n == nil {
		return net.ListenUDP(network, laddr)
	}
	return n.listenUDP(laddr, true)
}

// ListenUDP makes a socket for a client or an upstream server.
func (n *Net) ListenUDP(addr string) (*VUDP, error) {
	a, err := net.ResolveUDPAddr("udp", addr)
	if err != nil {
		return nil, err
	}
	return n.listenUDP(a, false)
}

// ListenUDPAddr makes a socket with the address as it is.
func (n *Net) ListenUDPAddr(addr *net.UDPAddr) (*VUDP, error) { return n.listenUDP(addr, false) }

// CloseUDP closes the socket with this address, if any.
func (n *Net) CloseUDP(addr string) {
	n.mu.Lock()
	c := n.udp[addr]
	n.mu.Unlock()
	if c != nil {
		c.Close()
	}
}

func (n *Net) listenUDP(laddr *net.UDPAddr, sched bool) (*VUDP, error) {
	a := &net.UDPAddr{IP: laddr.IP, Port: laddr.Port}
	n.mu.Lock()
	defer n.mu.Unlock()
	if a.Port == 0 {
		n.port++
		a.Port = n.port
	}
	if n.udp[a.String()] != nil {
		return nil, &net.OpError{Op: "listen", Net: "udp", Addr: a, Err: os.NewSyscallError("bind", syscall.EADDRINUSE)}
	}
	c := &VUDP{n: n, addr: a, sched: sched, chg: make(chan struct{})}
	if n.udp == nil {
		n.udp = map[string]*VUDP{}
	}
	n.udp[a.String()] = c
	return c, nil
}

func (c *VUDP) wake() {
	close(c.chg)
	c.chg = make(chan struct{})
}

func (c *VUDP) ReadFrom(b []byte) (int, net.Addr, error) {
	for {
		c.mu.Lock()
		if c.closed {
			c.mu.Unlock()
			return 0, nil, &net.OpError{Op: "read", Net: "udp", Source: c.addr, Err: net.ErrClosed}
		}
		if !c.rdl.IsZero() && !time.Now().Before(c.rdl) {
			c.mu.Unlock()
			return 0, nil, &net.OpError{Op: "read", Net: "udp", Source: c.addr, Err: os.ErrDeadlineExceeded}
		}
		dl := c.rdl
		if len(c.q) > 0 && time.Now().Before(c.q[0].due) {
			if dl.IsZero() || c.q[0].due.Before(dl) {
				dl = c.q[0].due
			}
		} else if len(c.q) > 0 {
			d := c.q[0]
			c.q = c.q[1:]
			c.mu.Unlock()
			return copy(b, d.b), d.from, nil
		}
		chg := c.chg
		c.mu.Unlock()
		if dl.IsZero() {
			<-chg
			continue
		}
		tm := time.NewTimer(time.Until(dl))
		select {
		case <-chg:
		case <-tm.C:
		}
		tm.Stop()
	}
}

func (c *VUDP) WriteTo(b []byte, addr net.Addr) (int, error) {
	c.mu.Lock()
	closed := c.closed
	c.mu.Unlock()
	if closed {
		return 0, &net.OpError{Op: "write", Net: "udp", Source: c.addr, Err: net.ErrClosed}
	}
	dst := addr.(*net.UDPAddr)
	if h := c.n.UDPHook; h != nil && h(c.addr, dst, b) {
		return len(b), nil
	}
	c.n.mu.Lock()
	d := c.n.udp[dst.String()]
	c.n.mu.Unlock()
	if d == nil {
		return len(b), nil
	}
	d.mu.Lock()
	defer d.mu.Unlock()
	if !d.closed {
		d.q = append(d.q, datagram{time.Now().Add(UDPDelay), c.addr, append([]byte(nil), b...)})
		d.wake()
	}
	return len(b), nil
}

func (c *VUDP) Close() error {
	c.n.mu.Lock()
	if c.n.udp[c.addr.String()] == c {
		delete(c.n.udp, c.addr.String())
	}
	c.n.mu.Unlock()
	c.mu.Lock()
	defer c.mu.Unlock()
	if c.closed {
		return &net.OpError{Op: "close", Net: "udp", Source: c.addr, Err: net.ErrClosed}
	}
	c.closed = true
	c.wake()
	return nil
}

func (c *VUDP) LocalAddr() net.Addr { return c.addr }

func (c *VUDP) SetDeadline(t time.Time) error { return c.SetReadDeadline(t) }

func (c *VUDP) SetReadDeadline(t time.Time) error {
	c.mu.Lock()
	defer c.mu.Unlock()
	c.rdl = t
	c.wake()
	return nil
}

func (c *VUDP) SetWriteDeadline(t time.Time) error { return nil }
