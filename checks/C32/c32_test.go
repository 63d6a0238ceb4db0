package proxy

import (
	"bufio"
	"bytes"
	"context"
	"encoding/binary"
	"fmt"
	"io"
	"net"
	"net/http"
	"slices"
	"strings"
	"sync"
	"testing"
	"time"

	"github.com/c2FmZQ/tlsproxy/internal/vnet"
	"github.com/c2FmZQ/tlsproxy/internal/vsched"
	"github.com/c2FmZQ/tlsproxy/internal/vx"
)

const (
	c32Name  = "ws.example.com"
	c32Other = "other.example.com"
	c32SSO   = "sso.example.com"
	c32Addr  = "10.0.0.9:99"
)

func c32Config(sso *BackendSSO, mode string) *Config {
	be := simHTTPBackend(c32Name, mode, map[string]string{"HTTP": "192.168.1.1:80"}[mode])
	be.SSO = sso
	cfg := simCfg(be, simHTTPBackend(c32Other, "HTTP", "192.168.1.1:80"), &Backend{ServerNames: []string{c32SSO}, Mode: "LOCAL"})
	if sso != nil {
		cfg.OIDCProviders = append(cfg.OIDCProviders, vxIDP("idpA", "example.com", "https://"+c32SSO+"/idpA"))
	}
	cfg.WebSockets = []*WebSocketConfig{{Endpoint: "https://" + c32Name + "/ws", Address: c32Addr}}
	return cfg
}

// c32Client is a WebSocket client.
type c32Client struct {
	c   *simConn
	wmu chan struct{}
	// quiet is that pings aren't answered.
	quiet bool

	mu     sync.Mutex
	got    []byte
	pongs  int
	closed bool  // there was a close frame
	end    error // of the connection
	bad    string
	sent   []byte
}

func c32Frame(fin bool, op byte, b []byte) []byte {
	h := []byte{op, 0x80}
	if fin {
		h[0] |= 0x80
	}
	switch {
	case len(b) < 126:
		h[1] |= byte(len(b))
	case len(b) < 65536:
		h[1] |= 126
		h = binary.BigEndian.AppendUint16(h, uint16(len(b)))
	default:
		h[1] |= 127
		h = binary.BigEndian.AppendUint64(h, uint64(len(b)))
	}
	mask := []byte{1, 2, 3, 4}
	h = append(h, mask...)
	for i, c := range b {
		h = append(h, c^mask[i%4])
	}
	return h
}

func (c *c32Client) frame(fin bool, op byte, b []byte) error {
	c.wmu <- struct{}{}
	defer func() { <-c.wmu }()
	_, err := c.c.tls.Write(c32Frame(fin, op, b))
	return err
}

func c32Pattern(who byte, from, n int) []byte {
	b := make([]byte, n)
	for i := range b {
		k := uint32(from+i)*2654435761 + uint32(who)*40503
		b[i] = byte(k >> 16)
	}
	return b
}

// send sends n bytes of a binary message.
func (c *c32Client) send(fin bool, op byte, n int) error {
	b := c32Pattern('c', len(c.sent), n)
	c.sent = append(c.sent, b...)
	return c.frame(fin, op, b)
}

// read reads frames until the end.
func (c *c32Client) read(slow time.Duration) {
	time.Sleep(slow)
	br := c.c.br
	one := func() error {
		var h [2]byte
		if _, err := io.ReadFull(br, h[:]); err != nil {
			return err
		}
		n := uint64(h[1] & 0x7f)
		switch n {
		case 126:
			var b [2]byte
			if _, err := io.ReadFull(br, b[:]); err != nil {
				return err
			}
			n = uint64(binary.BigEndian.Uint16(b[:]))
		case 127:
			var b [8]byte
			if _, err := io.ReadFull(br, b[:]); err != nil {
				return err
			}
			n = binary.BigEndian.Uint64(b[:])
		}
		b := make([]byte, n)
		m, err := io.ReadFull(br, b)
		c.mu.Lock()
		if op := h[0] & 15; op < 8 {
			c.got = append(c.got, b[:m]...)
			if op == 1 {
				c.bad = "text frame"
			}
		}
		c.mu.Unlock()
		if err != nil {
			return io.ErrUnexpectedEOF
		}
		switch h[0] & 15 {
		case 8:
			c.mu.Lock()
			c.closed = true
			c.mu.Unlock()
		case 9:
			if !c.quiet {
				go c.frame(true, 10, b)
			}
		case 10:
			c.mu.Lock()
			c.pongs++
			c.mu.Unlock()
		}
		return nil
	}
	for {
		if err := one(); err != nil {
			c.mu.Lock()
			c.end = err
			c.mu.Unlock()
			return
		}
	}
}

// c32Server is the TCP server.
type c32Server struct {
	raw  *vnet.VConn
	sent []byte

	mu  sync.Mutex
	got []byte
	end error
}

func (u *c32Server) send(n int) error {
	b := c32Pattern('u', len(u.sent), n)
	u.sent = append(u.sent, b...)
	_, err := u.raw.Write(b)
	return err
}

func (u *c32Server) read(slow time.Duration) {
	time.Sleep(slow)
	buf := make([]byte, 8192)
	for {
		n, err := u.raw.Read(buf)
		u.mu.Lock()
		u.got = append(u.got, buf[:n]...)
		if err != nil {
			u.end = err
			u.mu.Unlock()
			return
		}
		u.mu.Unlock()
	}
}

type c32Req struct {
	method, target, host string
	hdr                  []string
}

func c32Upgrade() c32Req {
	return c32Req{"GET", "/ws", c32Name, []string{"Connection: Upgrade", "Upgrade: websocket", "Sec-WebSocket-Version: 13", "Sec-WebSocket-Key: dGhlIHNhbXBsZSBub25jZQ=="}}
}

func (q c32Req) write(c *simConn) (*http.Response, error) {
	fmt.Fprintf(c.tls, "%s %s HTTP/1.1\r\nHost: %s\r\n%s\r\n\r\n", q.method, q.target, q.host, strings.Join(q.hdr, "\r\n"))
	if c.br == nil {
		c.br = bufio.NewReader(c.tls)
	}
	return http.ReadResponse(c.br, &http.Request{Method: q.method})
}

type c32Bridge struct {
	s *sim
	c *c32Client
	u *c32Server
}

func c32Open(x *vsched.X, slowC, slowU time.Duration) *c32Bridge {
	s := newSim(x, c32Config(nil, "LOCAL"))
	ch := make(chan *c32Server, 1)
	s.upstream(c32Addr, func(c *vnet.VConn) {
		u := &c32Server{raw: c}
		ch <- u
		u.read(slowU)
	})
	c, err := s.dial("c", c32Name, []string{"http/1.1"}, "192.0.2.1:0", nil)
	if err != nil {
		panic(err)
	}
	resp, err := c32Upgrade().write(c)
	if err != nil || resp.StatusCode != 101 {
		x.R.Violation("upgrade", "%s: no upgrade: %v %v", x.ID, resp, err)
		return nil
	}
	c.raw.SetDeadline(time.Time{})
	br := &c32Bridge{s: s, c: &c32Client{c: c, wmu: make(chan struct{}, 1)}}
	go br.c.read(slowC)
	br.u = <-ch
	return br
}

func (b *c32Bridge) state() (cg []byte, ce bool, ug []byte, ue error) {
	b.c.mu.Lock()
	cg, ce = b.c.got, b.c.closed || b.c.end != nil
	b.c.mu.Unlock()
	b.u.mu.Lock()
	ug, ue = b.u.got, b.u.end
	b.u.mu.Unlock()
	return
}

func (b *c32Bridge) quiet(x *vsched.X, what string) {
	r := x.R
	if o := b.s.openConns(); o != "" {
		r.Violation("left-open", "%s: after %s: the proxy still holds connections open: %s", x.ID, what, o)
	}
	if n := len(b.s.p.inConns.slice()); n > 0 {
		r.Violation("left-in", "%s: after %s: %d client connections are still tracked", x.ID, what, n)
	}
	if n := len(b.s.p.outConns.slice()); n > 0 {
		r.Violation("left-out", "%s: after %s: %d backend connections are still tracked", x.ID, what, n)
	}
	if b.s.panicked() {
		r.Violation("panic", "%s: after %s: the proxy recovered from a panic", x.ID, what)
	}
}

func c32Diff(got, want []byte) string {
	n := 0
	for n < len(got) && n < len(want) && got[n] == want[n] {
		n++
	}
	return fmt.Sprintf("%d bytes instead of %d, the first %d are right", len(got), len(want), n)
}

var c32Events = []string{"b0", "b1", "bN", "frag", "part", "text", "ping", "u1", "uN", "w", "W", "cclose", "ceof", "creset", "cbad", "uclose", "ureset", "ushut", "reload", "stop"}

// c32Run plays events with a pause after each.
func c32Run(x *vsched.X, seq []string) {
	r := x.R
	br := c32Open(x, 0, 0)
	if br == nil {
		return
	}
	settle := func() { time.Sleep(time.Millisecond) }
	settle()
	var toU, toC []byte
	dead, abrupt := false, false
	op := byte(2)
	pongs := 0
	var stopped chan struct{}
	for i, ev := range seq {
		what := strings.Join(seq[:i+1], " ")
		from, ufrom := len(br.c.sent), len(br.u.sent)
		data := func(f func()) {
			go f()
			settle()
		}
		switch ev {
		case "b0", "b1", "bN":
			n := map[string]int{"b0": 0, "b1": 1, "bN": 70000}[ev]
			data(func() { br.c.send(true, op, n) })
			op = 2
		case "frag":
			data(func() {
				br.c.send(false, op, 300)
				br.c.frame(true, 9, []byte("x"))
				br.c.send(false, 0, 0)
				br.c.send(true, 0, 5000)
			})
			pongs++
			op = 2
		case "part":
			// A message that continues later.
			data(func() { br.c.send(false, op, 200) })
			op = 0
		case "text":
			if op == 0 {
				return
			}
			data(func() { br.c.frame(true, 1, []byte("hello")) })
		case "ping":
			data(func() { br.c.frame(true, 9, []byte("hey")) })
			pongs++
		case "u1", "uN":
			n := map[string]int{"u1": 1, "uN": 50000}[ev]
			data(func() { br.u.send(n) })
		case "w":
			time.Sleep(13 * time.Second)
		case "W":
			time.Sleep(5 * time.Minute)
		case "cclose":
			br.c.frame(true, 8, []byte{3, 232})
			dead = true
		case "ceof":
			br.c.c.tls.Close()
			dead = true
		case "creset":
			br.c.c.raw.Reset()
			dead, abrupt = true, true
		case "cbad":
			br.c.frame(true, 15, []byte("x"))
			dead = true
		case "uclose":
			br.u.raw.Close()
			dead = true
		case "ushut":
			br.u.raw.CloseWrite()
			dead = true
		case "ureset":
			br.u.raw.Reset()
			dead, abrupt = true, true
		case "reload":
			if err := br.s.p.Reconfigure(c32Config(nil, "LOCAL")); err != nil {
				r.Violation("reload", "%s: %v", x.ID, err)
			}
		case "stop":
			stopped = make(chan struct{})
			go func() {
				defer close(stopped)
				ctx, cancel := context.WithTimeout(context.Background(), time.Second)
				defer cancel()
				br.s.p.Shutdown(ctx)
			}()
			time.Sleep(2 * time.Second)
			br.s.p.Stop()
			<-stopped
			time.Sleep(2 * time.Second)
			dead, abrupt = true, true
		}
		settle()
		r.Step(1)
		if !slices.Contains([]string{"text"}, ev) {
			toU = append(toU, br.c.sent[from:]...)
		}
		toC = append(toC, br.u.sent[ufrom:]...)
		cg, ce, ug, ue := br.state()
		if !bytes.Equal(ug, toU) {
			r.Violation("to-server:"+ev, "%s: after %s the server received %s", x.ID, what, c32Diff(ug, toU))
			return
		}
		if !bytes.Equal(cg, toC) {
			r.Violation("to-client:"+ev, "%s: after %s the client received %s", x.ID, what, c32Diff(cg, toC))
			return
		}
		if br.c.bad != "" {
			r.Violation("frame", "%s: after %s the client received a %s", x.ID, what, br.c.bad)
		}
		if dead {
			if !ce && ev != "ceof" && ev != "creset" {
				r.Violation("client-open:"+ev, "%s: after %s the client's connection isn't closed", x.ID, what)
			}
			if ue == nil || ue != io.EOF && !abrupt && ev != "uclose" {
				r.Violation("server-open:"+ev, "%s: after %s the server's connection isn't closed: %v", x.ID, what, ue)
			}
			break
		}
		if ce || ue != nil {
			r.Violation("closed:"+ev, "%s: after %s: closed without a reason (client %v %v, server %v)", x.ID, what, ce, br.c.end, ue)
			return
		}
		br.c.mu.Lock()
		n := br.c.pongs
		br.c.mu.Unlock()
		if n != pongs {
			r.Violation("pong", "%s: after %s: %d pongs instead of %d", x.ID, what, n, pongs)
		}
	}
	r.Outcome("%v", dead)
	if !dead {
		// The client goes away without a word.
		br.c.quiet = true
		time.Sleep(5 * time.Minute)
		br.quiet(x, strings.Join(seq, " ")+" and silence")
		return
	}
	time.Sleep(time.Second)
	br.c.c.raw.Close()
	br.u.raw.Close()
	time.Sleep(20 * time.Second)
	br.quiet(x, strings.Join(seq, " "))
}

func TestVX(t *testing.T) {
	r := vx.Start(t, "C32")
	defer r.Done()
	simInit(r, c32Name, c32Other, c32SSO)
	c32Policies(r)
	c32Slow(r)
	c32Races(r)
	c32Sequences(r)
}

func c32Sequences(r *vx.R) {
	depth := r.Pick(4, 5)
	r.Bound("sequence length", depth)
	for _, limit := range []int{0, 3000} {
		vx.Sequences(len(c32Events), 1, depth, func(ops []int) bool {
			var seq []string
			for i, o := range ops {
				seq = append(seq, c32Events[o])
				if o >= slices.Index(c32Events, "cclose") && c32Events[o] != "reload" && i < len(ops)-1 {
					return true
				}
				if i > 0 && (c32Events[o] == "w" || c32Events[o] == "W" || c32Events[o] == "reload") && c32Events[ops[i-1]] == c32Events[o] {
					return true
				}
			}
			// Others are prefixes of longer ones.
			last := c32Events[ops[len(ops)-1]]
			ends := slices.Index(c32Events, last) >= slices.Index(c32Events, "cclose") && last != "reload"
			if !ends && len(ops) < depth-1 {
				return true
			}
			if limit > 0 && len(ops) > depth-1 {
				return true
			}
			if !r.Thorough() && len(ops) == depth {
				for _, ev := range seq {
					if slices.Contains([]string{"b0", "w", "text", "u1", "cbad", "ushut"}, ev) {
						return true
					}
				}
			}
			id := fmt.Sprintf("seq/%d/%s", limit, strings.Join(seq, ","))
			if !r.Case(id) {
				return true
			}
			r.Exec()
			vsched.Bubble(r, id, func(x *vsched.X) {
				time.Sleep(250 * time.Microsecond)
				x.N.Limit = limit
				c32Run(x, seq)
			})
			return !r.Expired()
		})
	}
}

// c32Slow has ends that take their time to read.
func c32Slow(r *vx.R) {
	for _, slowC := range []time.Duration{0, 4 * time.Second} {
		for _, slowU := range []time.Duration{0, 4 * time.Second, 25 * time.Second, 3 * time.Minute} {
			for _, limit := range []int{0, 3000} {
				for _, end := range []string{"cclose", "ceof", "uclose", "ushut", "none"} {
					if (slowC > 0) == (slowU > 0) || slowU > 0 && end[0] == 'u' || slowC > 0 && end[0] == 'c' {
						continue
					}
					id := fmt.Sprintf("slow/%v/%v/%d/%s", slowC, slowU, limit, end)
					if !r.Case(id) {
						continue
					}
					r.Exec()
					vsched.Bubble(r, id, func(x *vsched.X) {
						time.Sleep(250 * time.Microsecond)
						x.N.Limit = limit
						br := c32Open(x, slowC, slowU)
						if br == nil {
							return
						}
						if slowU > 0 {
							br.c.send(true, 2, 1)
							br.c.send(true, 2, 60000)
							br.c.send(true, 2, 2)
						} else {
							br.u.send(1)
							br.u.send(60000)
							br.u.send(2)
						}
						switch end {
						case "cclose":
							br.c.frame(true, 8, []byte{3, 232})
						case "ceof":
							br.c.c.tls.Close()
						case "uclose":
							br.u.raw.Close()
						case "ushut":
							br.u.raw.CloseWrite()
						}
						time.Sleep(slowC + slowU + time.Second)
						cg, ce, ug, ue := br.state()
						r.Step(1)
						if slowU > 0 && !bytes.Equal(ug, br.c.sent) {
							r.Violation("slow-server:"+end, "%s: the server received %s", x.ID, c32Diff(ug, br.c.sent))
						}
						if slowC > 0 && !bytes.Equal(cg, br.u.sent) {
							r.Violation("slow-client:"+end, "%s: the client received %s", x.ID, c32Diff(cg, br.u.sent))
						}
						if end == "none" {
							if ce || ue != nil {
								r.Violation("slow-closed", "%s: closed without a reason", x.ID)
							}
							br.c.c.raw.Close()
						} else if end[0] == 'u' && !ce {
							r.Violation("slow-open", "%s: the client's connection isn't closed", x.ID)
						} else if end[0] == 'c' && ue == nil {
							r.Violation("slow-open", "%s: the server's connection isn't closed", x.ID)
						}
						time.Sleep(time.Second)
						br.c.c.raw.Close()
						br.u.raw.Close()
						time.Sleep(20 * time.Second)
						br.quiet(x, "all")
					})
				}
			}
		}
	}
}

// c32Races has both ends act at the same time.
func c32Races(r *vx.R) {
	dev := r.Pick(1, 2)
	r.Bound("deviations", dev)
	for _, cs := range []string{"", "s", "sSs", "sSx", "Sx", "x", "sr", "pSpx"} {
		for _, us := range []string{"", "s", "sSc", "c", "sSf", "sr"} {
			scn := fmt.Sprintf("race/%s-%s", cs, us)
			vsched.Explore(r, scn, vsched.Opts{Deviations: dev, Filter: simFilterCoarse}, func(x *vsched.X) func() {
				x.N.Limit = 3000
				x.N.Points = map[string]bool{"Read": true, "Write": true, "Close": true}
				br := c32Open(x, 0, 0)
				if br == nil {
					return func() {}
				}
				x.Go("client", func() {
					for _, ev := range cs {
						switch ev {
						case 's':
							br.c.send(true, 2, 7)
						case 'S':
							br.c.send(true, 2, 5000)
						case 'p':
							br.c.frame(true, 9, []byte("x"))
						case 'x':
							br.c.frame(true, 8, []byte{3, 232})
						case 'r':
							br.c.c.raw.Reset()
						}
					}
				})
				x.Go("server", func() {
					for _, ev := range us {
						switch ev {
						case 's':
							br.u.send(9)
						case 'S':
							br.u.send(6000)
						case 'c':
							br.u.raw.Close()
						case 'f':
							br.u.raw.CloseWrite()
						case 'r':
							br.u.raw.Reset()
						}
					}
				})
				return func() {
					time.Sleep(8 * time.Second)
					c32Judge(x, br, scn, cs, us)
				}
			})
		}
	}
}

func c32Judge(x *vsched.X, br *c32Bridge, scn, cs, us string) {
	r := x.R
	if len(x.Blocked) > 0 {
		r.Violation("blocked:"+scn, "%s: goroutines wait for a lock forever: %v", x.ID, x.Blocked)
	}
	cg, ce, ug, ue := br.state()
	cEnds, uEnds := strings.ContainsAny(cs, "xr"), strings.ContainsAny(us, "cfr")
	r.Outcome("%s %v %v", scn, ce, ue != nil)
	if !bytes.HasPrefix(br.u.sent, cg) {
		r.Violation("corrupt-client:"+scn, "%s: the client received %s", x.ID, c32Diff(cg, br.u.sent))
	}
	if !bytes.HasPrefix(br.c.sent, ug) {
		r.Violation("corrupt-server:"+scn, "%s: the server received %s", x.ID, c32Diff(ug, br.c.sent))
	}
	if !uEnds && !strings.Contains(cs, "r") && (us == "" || !cEnds) && !bytes.Equal(ug, br.c.sent) {
		r.Violation("lost-server:"+scn, "%s: the server received %s", x.ID, c32Diff(ug, br.c.sent))
	}
	if !cEnds && !strings.Contains(us, "r") && (cs == "" || !uEnds) && !bytes.Equal(cg, br.u.sent) {
		r.Violation("lost-client:"+scn, "%s: the client received %s", x.ID, c32Diff(cg, br.u.sent))
	}
	if cEnds || uEnds {
		if !ce && !strings.Contains(cs, "r") || ue == nil && !strings.ContainsAny(us, "cr") {
			r.Violation("open:"+scn, "%s: not closed: client %v, server %v", x.ID, ce, ue)
		}
	} else if ce || ue != nil {
		r.Violation("closed:"+scn, "%s: closed without a reason: client %v, server %v", x.ID, ce, ue)
	}
	br.c.c.raw.Close()
	br.u.raw.Close()
	time.Sleep(20 * time.Second)
	br.quiet(x, scn)
}

// c32Policies sends every kind of request.
func c32Policies(r *vx.R) {
	acl := []string{"u@example.com"}
	policies := map[string]*BackendSSO{
		"open":   nil,
		"login":  {Provider: "idpA"},
		"acl":    {Provider: "idpA", ACL: &acl},
		"paths":  {Provider: "idpA", ACL: &acl, Paths: []string{"/ws"}},
		"others": {Provider: "idpA", ACL: &acl, Paths: []string{"/private"}},
		"reauth": {Provider: "idpA", ACL: &acl, ForceReAuth: time.Hour},
		"nobody": {Provider: "idpA", ACL: &[]string{}},
	}
	type variant struct {
		name string
		ok   bool
		f    func(q *c32Req)
	}
	drop := func(q *c32Req, prefix string) {
		q.hdr = slices.DeleteFunc(q.hdr, func(s string) bool { return strings.HasPrefix(s, prefix) })
	}
	set := func(q *c32Req, name, v string) {
		drop(q, name+":")
		q.hdr = append(q.hdr, name+": "+v)
	}
	variants := []variant{
		{"good", true, func(q *c32Req) {}},
		{"query", true, func(q *c32Req) { q.target = "/ws?a=b" }},
		{"origin", true, func(q *c32Req) { set(q, "Origin", "https://"+c32Name) }},
		{"list", true, func(q *c32Req) { set(q, "Connection", "keep-alive, Upgrade") }},
		{"port", true, func(q *c32Req) { q.host += ":443" }},
		{"evil-origin", false, func(q *c32Req) { set(q, "Origin", "https://evil.com") }},
		{"other-origin", false, func(q *c32Req) { set(q, "Origin", "https://"+c32Other) }},
		{"null-origin", false, func(q *c32Req) { set(q, "Origin", "null") }},
		{"plain", false, func(q *c32Req) { drop(q, "Connection"); drop(q, "Upgrade"); drop(q, "Sec-") }},
		{"no-upgrade", false, func(q *c32Req) { drop(q, "Upgrade") }},
		{"no-connection", false, func(q *c32Req) { drop(q, "Connection") }},
		{"h2c", false, func(q *c32Req) { set(q, "Upgrade", "h2c") }},
		{"no-key", false, func(q *c32Req) { drop(q, "Sec-WebSocket-Key") }},
		{"version", false, func(q *c32Req) { set(q, "Sec-WebSocket-Version", "8") }},
		{"post", false, func(q *c32Req) { q.method = "POST"; set(q, "Content-Length", "0") }},
		{"head", false, func(q *c32Req) { q.method = "HEAD" }},
		{"connect", false, func(q *c32Req) { q.method = "CONNECT" }},
		{"slash", false, func(q *c32Req) { q.target = "/ws/" }},
		{"sub", false, func(q *c32Req) { q.target = "/ws/x" }},
		{"case", false, func(q *c32Req) { q.target = "/WS" }},
		{"unclean", false, func(q *c32Req) { q.target = "//ws" }},
		{"dots", false, func(q *c32Req) { q.target = "/x/../ws" }},
		{"host", false, func(q *c32Req) { q.host = c32Other }},
		{"unknown-host", false, func(q *c32Req) { q.host = "evil.com" }},
	}
	var names []string
	for k := range policies {
		names = append(names, k)
	}
	slices.Sort(names)
	for _, pn := range names {
		for _, mode := range []string{"LOCAL", "HTTP"} {
			for _, v := range variants {
				for _, user := range []string{"", "u@example.com", "x@example.com", "old", "forged"} {
					id := fmt.Sprintf("policy/%s/%s/%s/%s", pn, mode, v.name, user)
					if !r.Case(id) {
						continue
					}
					r.Exec()
					vsched.Bubble(r, id, func(x *vsched.X) {
						time.Sleep(time.Hour + 250*time.Millisecond)
						s := newSim(x, c32Config(policies[pn], mode))
						served := 0
						s.upstream(c32Addr, func(c *vnet.VConn) {
							served++
							io.Copy(io.Discard, c)
							c.Close()
						})
						s.upstream("192.168.1.1:80", func(c *vnet.VConn) {
							bufio.NewReader(c).ReadString('\n')
							io.WriteString(c, "HTTP/1.1 404 Not Found\r\nContent-Length: 0\r\nConnection: close\r\n\r\n")
							c.Close()
						})
						q := c32Upgrade()
						v.f(&q)
						if user != "" {
							cfg := c32Config(&BackendSSO{Provider: "idpA"}, mode)
							s2 := s
							_ = cfg
							email := user
							if user == "old" || user == "forged" {
								email = "u@example.com"
							}
							if be := s2.p.backends[beKey{serverName: c32Name}]; be.SSO != nil {
								rec := &simRec{h: http.Header{}}
								if err := be.SSO.cm.SetAuthTokenCookie(rec, "sub", email, "sid", c32Name, nil); err != nil {
									panic(err)
								}
								for _, ck := range (&http.Response{Header: rec.h}).Cookies() {
									val := ck.Value
									if user == "forged" {
										val = val[:len(val)-8] + "AAAAAAAA"
									}
									q.hdr = append(q.hdr, "Cookie: "+ck.Name+"="+val)
								}
								if user == "old" {
									time.Sleep(90 * time.Minute)
								}
							}
						}
						c, err := s.dial("c", c32Name, []string{"http/1.1"}, "192.0.2.1:0", nil)
						if err != nil {
							panic(err)
						}
						resp, err := q.write(c)
						time.Sleep(time.Second)
						st := 0
						if err == nil {
							st = resp.StatusCode
						}
						allowed := true
						switch pn {
						case "login":
							allowed = user != "" && user != "forged"
						case "acl", "paths":
							allowed = user == "u@example.com" || user == "old"
						case "reauth":
							allowed = user == "u@example.com" && v.name != "port"
						case "nobody":
							allowed = false
						}
						r.Step(1)
						r.Outcome("%s %v %d", v.name, allowed, st)
						if want := v.ok && allowed; (st == 101) != want || (served > 0) != want {
							r.Violation("policy:"+pn+":"+v.name, "%s: request %q %s by %q with policy %s (%s): status %d, %d connections to the server", x.ID, v.name, q.target, user, pn, mode, st, served)
						}
						if st >= 500 || st == 0 {
							r.Violation("error:"+v.name, "%s: %v %v", x.ID, st, err)
						}
						c.raw.Close()
						time.Sleep(20 * time.Second)
						if o := s.openConns(); o != "" {
							r.Violation("left-policy", "%s: left open: %s", x.ID, o)
						}
					})
				}
			}
		}
	}
	// Not with HTTP/2.
	for _, method := range []string{"GET", "CONNECT"} {
		id := "h2/" + method
		if !r.Case(id) {
			continue
		}
		r.Exec()
		vsched.Bubble(r, id, func(x *vsched.X) {
			s := newSim(x, c32Config(nil, "LOCAL"))
			served := 0
			s.upstream(c32Addr, func(c *vnet.VConn) {
				served++
				io.Copy(io.Discard, c)
				c.Close()
			})
			c, err := s.dial("c", c32Name, []string{"h2"}, "192.0.2.1:0", nil)
			if err != nil {
				panic(err)
			}
			cc, err := c.simH2()
			if err != nil {
				panic(err)
			}
			req, _ := http.NewRequest(method, "https://"+c32Name+"/ws", nil)
			resp, err := cc.RoundTrip(req)
			if err == nil {
				r.Outcome("h2 %d", resp.StatusCode)
				resp.Body.Close()
				if resp.StatusCode < 400 {
					r.Violation("h2", "%s: %d", x.ID, resp.StatusCode)
				}
			}
			if served > 0 {
				r.Violation("h2", "%s: the server got a connection", x.ID)
			}
			cc.Close()
			c.raw.Close()
			time.Sleep(5 * time.Second)
		})
	}
}

var _ net.Conn
