package proxy

import (
	"bytes"
	"context"
	"crypto/tls"
	"fmt"
	"io"
	"net"
	"net/http"
	"os"
	"regexp"
	"runtime"
	"slices"
	"strings"
	"sync"
	"sync/atomic"
	"testing"
	"time"

	"github.com/quic-go/quic-go"
	"github.com/quic-go/quic-go/http3"
	"golang.org/x/net/http2"

	"github.com/c2FmZQ/tlsproxy/internal/vnet"
	"github.com/c2FmZQ/tlsproxy/internal/vsched"
	"github.com/c2FmZQ/tlsproxy/internal/vx"
)

const (
	c20Host = "www.example.com"
	c20TCP  = "tcp.example.com"
)

// c20Conn is the life of one client connection.
type c20Conn struct {
	dial, get string
	body      string
	status    int
	c         *simConn
}

func (cc *c20Conn) String() string {
	s := "dial " + cc.dial
	if cc.get != "" {
		s += fmt.Sprintf(", get %s %d %q", cc.get, cc.status, cc.body)
	}
	return s
}

func (cc *c20Conn) open(s *sim, host string) bool {
	c, err := s.dial("c", host, []string{"http/1.1"}, "", nil)
	cc.dial = simErr(err)
	cc.c = c
	return err == nil
}

func (cc *c20Conn) request() {
	var err error
	cc.status, cc.body, err = cc.c.get(c20Host, "/")
	cc.get = simErr(err)
}

func (cc *c20Conn) run(s *sim, host string) {
	if cc.open(s, host) {
		cc.request()
		cc.c.raw.Close()
	}
}

type c20Up struct {
	started  atomic.Int32
	finished atomic.Int32
}

// handler says who it is. It takes d to do so.
func (u *c20Up) handler(id string, d time.Duration, gate chan struct{}) http.Handler {
	return http.HandlerFunc(func(w http.ResponseWriter, req *http.Request) {
		u.started.Add(1)
		defer u.finished.Add(1)
		io.WriteString(w, id[:1])
		w.(http.Flusher).Flush()
		if d > 0 {
			select {
			case <-time.After(d):
			case <-req.Context().Done():
				return
			}
		}
		if gate != nil {
			select {
			case <-gate:
			case <-req.Context().Done():
				return
			}
		}
		io.WriteString(w, id[1:])
	})
}

// c20Judge reports what is wrong in any case.
func c20Judge(x *vsched.X, s *sim, scn string, conns ...*c20Conn) {
	r := x.R
	if s.panicked() {
		r.Violation("panic:"+scn, "%s: the proxy recovered from a panic", x.ID)
	}
	if len(x.Stuck) > 0 {
		r.Violation("stuck:"+scn+strings.Join(x.Stuck, ","), "%s: %v never returns (lock waits: %v)", x.ID, x.Stuck, x.Blocked)
	}
	if len(x.Blocked) > 0 {
		r.Violation("blocked:"+scn, "%s: goroutines wait for a lock forever: %v", x.ID, x.Blocked)
	}
	for i, c := range conns {
		if c.dial == "HANG" || c.get == "HANG" {
			r.Violation("hang:"+scn, "%s: client %d waits forever (%s)", x.ID, i, c)
		}
	}
}

// c20Quiet checks that nothing is left of the clients' connections.
func c20Quiet(x *vsched.X, s *sim, scn string) {
	time.Sleep(5 * time.Minute)
	if n := len(s.p.inConns.slice()); n > 0 {
		x.R.Violation("left:"+scn, "%s: %d client connections are still in the tracker after they ended", x.ID, n)
	}
	if o := s.openConns(); o != "" {
		x.R.Violation("open:"+scn, "%s: the proxy still holds connections open: %s", x.ID, o)
	}
}

func TestVX(t *testing.T) {
	r := vx.Start(t, "C20")
	defer r.Done()
	simInit(r, c20Host, c20TCP)
	tcpBE := func() *Backend { return simHTTPBackend(c20TCP, ModeTLS, "10.0.0.9:99") }
	cfgA := func() *Config {
		return simCfg(simHTTPBackend(c20Host, ModeHTTP, "10.0.0.1:80"), simHTTPBackend(c20TCP, ModeTCP, "10.0.0.9:99"))
	}
	cfgB := func() *Config {
		return simCfg(simHTTPBackend(c20Host, ModeHTTP, "10.0.0.2:80"), simHTTPBackend(c20TCP, ModeTCP, "10.0.0.9:99"))
	}
	_ = tcpBE
	dev := r.Pick(2, 3)
	opts := vsched.Opts{Deviations: dev, Filter: simFilter}
	r.Bound("deviations from the default schedule", dev)

	start := func(x *vsched.X, d time.Duration) (*sim, *c20Up, *c20Up) {
		s := newSim(x, cfgA())
		a, b := &c20Up{}, &c20Up{}
		s.httpUpstream("10.0.0.1:80", a.handler("AAAA", d, nil))
		s.httpUpstream("10.0.0.2:80", b.handler("BBBB", d, nil))
		return s, a, b
	}
	// served checks the result of one request.
	served := func(x *vsched.X, scn string, c *c20Conn, ups ...*c20Up) {
		n := int32(0)
		for _, u := range ups {
			n += u.started.Load()
		}
		if n > 0 && (c.get != "ok" || c.status != 200 || (c.body != "AAAA" && c.body != "BBBB")) {
			r.Violation("cut:"+scn, "%s: a request that was being served was cut off: %s", x.ID, c)
		}
		if c.get == "ok" && (c.status != 200 || c.body != "AAAA" && c.body != "BBBB") {
			r.Violation("bad:"+scn, "%s: unexpected response: %s", x.ID, c)
		}
	}
	// after checks that new connections work with the new configuration.
	after := func(x *vsched.X, s *sim, scn, want string) {
		c := &c20Conn{}
		c.run(s, c20Host)
		if c.get != "ok" || c.body != want {
			r.Violation("after:"+scn, "%s: a connection opened after the change isn't served by the new configuration: %s", x.ID, c)
		}
	}
	refused := func(x *vsched.X, s *sim, scn string) {
		c := &c20Conn{}
		c.run(s, c20Host)
		if c.dial == "ok" || c.dial == "HANG" {
			r.Violation("accepts:"+scn, "%s: a connection opened after the shutdown isn't refused: %s", x.ID, c)
		}
		time.Sleep(time.Minute)
		if o := s.openConns(); o != "" {
			r.Violation("open:"+scn, "%s: connections are still open after the shutdown: %s", x.ID, o)
		}
	}

	for _, d := range []time.Duration{0, 5 * time.Second} {
		scn := fmt.Sprintf("connect-reload-%v", d)
		vsched.Explore(r, scn, opts, func(x *vsched.X) func() {
			s, a, b := start(x, d)
			c := &c20Conn{}
			x.Go("client", func() { c.run(s, c20Host) })
			x.Go("reload", func() { s.p.Reconfigure(cfgB()) })
			return func() {
				r.Outcome("%s: %s", scn, c)
				c20Judge(x, s, scn, c)
				served(x, scn, c, a, b)
				if len(x.Stuck) == 0 {
					after(x, s, scn, "BBBB")
				}
				c20Quiet(x, s, scn)
			}
		})
	}

	vsched.Explore(r, "keepalive-reload", opts, func(x *vsched.X) func() {
		s, a, _ := start(x, 0)
		c := &c20Conn{}
		c.open(s, c20Host)
		c.request()
		a.started.Store(0)
		x.Go("client", func() {
			c.request()
			c.c.raw.Close()
		})
		x.Go("reload", func() { s.p.Reconfigure(cfgB()) })
		return func() {
			r.Outcome("keepalive-reload: %s", c)
			c20Judge(x, s, "keepalive-reload", c)
			served(x, "keepalive-reload", c, a)
			after(x, s, "keepalive-reload", "BBBB")
			c20Quiet(x, s, "keepalive-reload")
		}
	})

	// A request in progress, two changes in a row.
	vsched.Explore(r, "inflight-reload", opts, func(x *vsched.X) func() {
		s := newSim(x, cfgA())
		a := &c20Up{}
		gate := make(chan struct{})
		s.httpUpstream("10.0.0.1:80", a.handler("AAAA", 0, gate))
		s.httpUpstream("10.0.0.2:80", a.handler("BBBB", 0, nil))
		c, c2 := &c20Conn{}, &c20Conn{}
		c.open(s, c20Host)
		go func() {
			c.request()
			c.c.raw.Close()
		}()
		for a.started.Load() == 0 {
			time.Sleep(time.Millisecond)
		}
		x.Go("reload", func() {
			s.p.Reconfigure(cfgB())
			s.p.Reconfigure(simCfg(simHTTPBackend(c20Host, ModeHTTP, "10.0.0.2:80")))
		})
		x.Go("upstream", func() { close(gate) })
		x.Go("client2", func() { c2.run(s, c20Host) })
		return func() {
			time.Sleep(time.Second)
			r.Outcome("inflight-reload: %s; %s", c, c2)
			c20Judge(x, s, "inflight-reload", c, c2)
			served(x, "inflight-reload", c, a)
			after(x, s, "inflight-reload", "BBBB")
			c20Quiet(x, s, "inflight-reload")
		}
	})

	// A graceful shutdown with a request that ends in time, or not.
	for _, d := range []time.Duration{10 * time.Second, time.Hour} {
		scn := fmt.Sprintf("inflight-shutdown-%v", d)
		grace := time.Minute
		vsched.Explore(r, scn, vsched.Opts{Deviations: dev, Filter: simFilter}, func(x *vsched.X) func() {
			s, a, _ := start(x, d)
			c := &c20Conn{}
			c.open(s, c20Host)
			t0 := time.Now()
			go func() {
				c.request()
				c.c.raw.Close()
			}()
			for a.started.Load() == 0 {
				time.Sleep(time.Millisecond)
			}
			var took time.Duration
			x.Go("shutdown", func() {
				ctx, cancel := context.WithTimeout(context.Background(), grace)
				defer cancel()
				s.p.Shutdown(ctx)
				took = time.Since(t0)
			})
			return func() {
				time.Sleep(time.Second)
				r.Outcome("%s: %s, shutdown took %v", scn, c, took.Truncate(10*time.Second))
				c20Judge(x, s, scn, c)
				if d < grace {
					served(x, scn, c, a)
					if took > d+10*time.Second {
						r.Violation("slow:"+scn, "%s: the last request ended after %v, but the shutdown took %v", x.ID, d, took)
					}
				} else {
					if took < grace-time.Second {
						r.Violation("early:"+scn, "%s: the shutdown returned after %v with a request in progress", x.ID, took)
					}
					if c.get == "" || c.get == "ok" {
						r.Violation("left:"+scn, "%s: the client of a request that didn't end in time: %s", x.ID, c)
					}
				}
				if took > grace+10*time.Second {
					r.Violation("late:"+scn, "%s: the shutdown took %v", x.ID, took)
				}
				refused(x, s, scn)
			}
		})
	}

	// The last request ends while the graceful shutdown begins.
	vsched.Explore(r, "ending-shutdown", opts, func(x *vsched.X) func() {
		s := newSim(x, cfgA())
		a := &c20Up{}
		gate := make(chan struct{})
		s.httpUpstream("10.0.0.1:80", a.handler("AAAA", 0, gate))
		c := &c20Conn{}
		c.open(s, c20Host)
		go func() {
			c.request()
			c.c.raw.Close()
		}()
		for a.started.Load() == 0 {
			time.Sleep(time.Millisecond)
		}
		t0 := time.Now()
		var took time.Duration
		x.Go("upstream", func() { close(gate) })
		x.Go("shutdown", func() {
			ctx, cancel := context.WithTimeout(context.Background(), time.Minute)
			defer cancel()
			s.p.Shutdown(ctx)
			took = time.Since(t0)
		})
		return func() {
			time.Sleep(time.Second)
			r.Outcome("ending-shutdown: %s, shutdown took %v", c, took.Truncate(10*time.Second))
			c20Judge(x, s, "ending-shutdown", c)
			served(x, "ending-shutdown", c, a)
			if took > 30*time.Second {
				r.Violation("slow:ending-shutdown", "%s: the last request ended at once, but the shutdown took %v", x.ID, took)
			}
			refused(x, s, "ending-shutdown")
		}
	})

	for _, how := range []string{"shutdown", "stop"} {
		scn := "connect-" + how
		vsched.Explore(r, scn, opts, func(x *vsched.X) func() {
			s, a, b := start(x, 0)
			c := &c20Conn{}
			x.Go("client", func() { c.run(s, c20Host) })
			x.Go("stop", func() {
				if how == "stop" {
					s.p.Stop()
					return
				}
				ctx, cancel := context.WithTimeout(context.Background(), time.Minute)
				defer cancel()
				s.p.Shutdown(ctx)
			})
			return func() {
				r.Outcome("%s: %s", scn, c)
				c20Judge(x, s, scn, c)
				if how == "shutdown" {
					served(x, scn, c, a, b)
				}
				refused(x, s, scn)
			}
		})
	}

	// Stop requests that come together.
	for _, hows := range [][]string{{"stop", "stop"}, {"shutdown", "stop"}, {"shutdown", "shutdown"}, {"ctx", "stop"}, {"ctx", "shutdown"}, {"reload", "shutdown"}} {
		scn := "stop2-" + strings.Join(hows, "-")
		vsched.Explore(r, scn, opts, func(x *vsched.X) func() {
			s, _, _ := start(x, 0)
			c := &c20Conn{}
			c.open(s, c20Host)
			c.request()
			for i, h := range hows {
				x.Go(fmt.Sprintf("%s%d", h, i), func() {
					switch h {
					case "stop":
						s.p.Stop()
					case "shutdown":
						ctx, cancel := context.WithTimeout(context.Background(), time.Minute)
						defer cancel()
						s.p.Shutdown(ctx)
					case "ctx":
						s.cancel()
					case "reload":
						s.p.Reconfigure(cfgB())
					}
				})
			}
			return func() {
				c20Judge(x, s, scn, c)
				r.Outcome("%s: client connection closed: %v", scn, c.c.closed())
				if !c.c.closed() {
					r.Violation("left:"+scn, "%s: the client's connection is still open", x.ID)
				}
				refused(x, s, scn)
			}
		})
	}

	// Two reloads and a client.
	vsched.Explore(r, "reload2", vsched.Opts{Deviations: dev, Filter: simFilterCoarse}, func(x *vsched.X) func() {
		s, a, b := start(x, 0)
		c := &c20Conn{}
		x.Go("client", func() { c.run(s, c20Host) })
		x.Go("reload1", func() { s.p.Reconfigure(cfgB()) })
		x.Go("reload2", func() { s.p.Reconfigure(simCfg(simHTTPBackend(c20Host, ModeHTTP, "10.0.0.2:80"))) })
		return func() {
			r.Outcome("reload2: %s", c)
			c20Judge(x, s, "reload2", c)
			served(x, "reload2", c, a, b)
			after(x, s, "reload2", "BBBB")
			c20Quiet(x, s, "reload2")
		}
	})

	c20Kinds(r)
	c20Pools(r)

	// A stream in progress, and a change that doesn't concern it.
	for _, mode := range []string{"established", "connecting"} {
		scn := "stream-reload-" + mode
		vsched.Explore(r, scn, opts, func(x *vsched.X) func() {
			s, _, _ := start(x, 0)
			var got bytes.Buffer
			s.upstream("10.0.0.9:99", func(c *vnet.VConn) {
				io.Copy(io.MultiWriter(&got, c), c)
				c.Close()
			})
			c := &c20Conn{}
			var echo []byte
			msg := "hello stream"
			talk := func(m string) bool {
				if _, err := io.WriteString(c.c.tls, m); err != nil {
					c.get = simErr(err)
					return false
				}
				b := make([]byte, len(m))
				n, err := io.ReadFull(c.c.br, b)
				echo = append(echo, b[:n]...)
				c.get = simErr(err)
				return err == nil
			}
			if mode == "established" {
				c.open(s, c20TCP)
				talk(msg)
			}
			x.Go("client", func() {
				if mode == "connecting" {
					if !c.open(s, c20TCP) {
						return
					}
					if !talk(msg) {
						return
					}
				}
				if talk("more") {
					c.c.tls.CloseWrite()
					b, err := io.ReadAll(c.c.br)
					echo = append(echo, b...)
					c.get = simErr(err)
				}
				c.c.raw.Close()
			})
			x.Go("reload", func() { s.p.Reconfigure(cfgB()) })
			return func() {
				time.Sleep(time.Second)
				r.Outcome("%s: %s; %q %q", scn, c, got.String(), echo)
				c20Judge(x, s, scn, c)
				if mode == "established" || c.get != "" {
					if c.get != "ok" || got.String() != msg+"more" || string(echo) != msg+"more" {
						r.Violation("cut:"+scn, "%s: the stream was cut off: %s, upstream got %q, client got %q", x.ID, c, got.String(), echo)
					}
				}
				c20Quiet(x, s, scn)
			}
		})
	}
}

// c20Pools checks that the idle connections to the upstreams don't outlive what
// they are for: the client with the proxy protocol, the backend otherwise.
func c20Pools(r *vx.R) {
	for _, mode := range []string{ModeHTTP, ModeHTTPS} {
		for _, proto := range []string{"http/1.1", "h2"} {
			for _, pp := range []string{"", "v2"} {
				for _, ev := range []string{"client", "reload", "shutdown", "stop"} {
					id := fmt.Sprintf("pools/%s/%s/%s/%s", mode, strings.ReplaceAll(proto, "/", ""), pp, ev)
					if !r.Case(id) {
						continue
					}
					r.Exec()
					r.Step(3)
					r.State("%s", id)
					vsched.Bubble(r, id, func(x *vsched.X) {
						be := func() *Backend {
							return &Backend{ServerNames: []string{c20Host}, Mode: mode, Addresses: []string{"10.0.0.1:80"}, BackendProto: vxPtr(proto), InsecureSkipVerify: true, ProxyProtocolVersion: pp}
						}
						s := newSim(x, simCfg(be()))
						h := http.HandlerFunc(func(w http.ResponseWriter, req *http.Request) { io.WriteString(w, "ok") })
						name := ""
						if mode == ModeHTTPS {
							name = c20Host
						}
						s.upstream("10.0.0.1:80", func(c *vnet.VConn) {
							if pp != "" {
								b := make([]byte, 16)
								if _, err := io.ReadFull(c, b); err != nil {
									return
								}
								io.ReadFull(c, make([]byte, int(b[14])<<8+int(b[15])))
							}
							s.webServe(c, simServerTLS(name), h)
						})
						var cs []*simConn
						for i := 0; i < 3; i++ {
							c, err := s.dial("c", c20Host, nil, "", nil)
							if err != nil {
								r.Violation("pool-dial", "%s: %v", id, err)
								return
							}
							cs = append(cs, c)
							if st, b, err := c.get(c20Host, "/"); st != 200 || b != "ok" {
								r.Violation("pool-get", "%s: %d %q %v", id, st, b, err)
								return
							}
						}
						switch ev {
						case "reload":
							cfg := simCfg(be())
							cfg.Backends[0].ForwardRateLimit = 12345
							s.p.Reconfigure(cfg)
						case "shutdown":
							ctx, cancel := context.WithTimeout(context.Background(), time.Minute)
							s.p.Shutdown(ctx)
							cancel()
						case "stop":
							s.p.Stop()
						}
						for _, c := range cs {
							c.tls.Close()
							c.raw.Close()
						}
						time.Sleep(5 * time.Minute)
						if o := s.openConns(); o != "" {
							r.Violation("pool:"+proto, "%s: with all clients gone, the proxy still holds connections open: %s", id, o)
						}
						r.Outcome("pool %s %s", proto, ev)
					})
				}
			}
		}
	}
}

// c20Own reports the goroutines that the proxy started in this bubble and that
// still run.
func c20Own() []string {
	buf := make([]byte, 1<<22)
	buf = buf[:runtime.Stack(buf, true)]
	var out []string
	var group string
	for i, g := range strings.Split(string(buf), "\n\n") {
		m := c20Group.FindString(strings.SplitN(g, "\n", 2)[0])
		if i == 0 {
			group = m
			continue
		}
		if m == "" || m != group {
			continue
		}
		l := strings.Split(strings.TrimSpace(g), "\n")
		if len(l) < 2 || !strings.HasPrefix(l[len(l)-2], "created by github.com/c2FmZQ/tlsproxy/proxy") {
			continue
		}
		if f := l[len(l)-1]; strings.Contains(f, "_test.go") || !strings.Contains(f, "/proxy/") {
			continue
		}
		out = append(out, strings.TrimSpace(l[len(l)-2]))
	}
	slices.Sort(out)
	return out
}

var c20Group = regexp.MustCompile(`synctest group \d+`)

// c20Kinds checks that what is being served runs to completion, for each kind
// of client, backend and event, and that nothing is left afterwards.
func c20Kinds(r *vx.R) {
	big := make([]byte, 6<<20) // more than the flow control windows
	for i := range big {
		big[i] = byte(i * 7 >> 3)
	}
	docRoot := simStuff.dir + "/docroot"
	os.MkdirAll(docRoot+"/pre", 0o700)
	for _, f := range []string{"/big.bin", "/pre/big.bin"} {
		if err := os.WriteFile(docRoot+f, big, 0o600); err != nil {
			panic(err)
		}
	}
	for _, client := range []string{"h1", "h2", "h3"} {
		for _, kind := range []string{"http", "https", "h2", "h3", "local", "static-override", "console"} {
			for _, ev := range []string{"reload", "reload2", "shutdown", "shutdown-late", "stop", "reload-shutdown"} {
				id := fmt.Sprintf("kinds/%s/%s/%s", client, kind, ev)
				if !r.Case(id) {
					continue
				}
				r.Exec()
				r.Step(3)
				r.State("%s", id)
				vsched.Bubble(r, id, func(x *vsched.X) { c20Kind(r, x, id, client, kind, ev, docRoot, big) })
			}
		}
	}
}

func c20Kind(r *vx.R, x *vsched.X, id, client, kind, ev, docRoot string, big []byte) {
	const addr = "10.0.0.1:443"
	config := func(n int) *Config {
		be := &Backend{ServerNames: []string{c20Host}, Mode: ModeHTTPS, Addresses: []string{addr}, InsecureSkipVerify: true, ForwardTimeout: time.Duration(20+n) * time.Second}
		switch kind {
		case "http":
			be.Mode = ModeHTTP
		case "https":
			be.BackendProto = vxPtr("http/1.1")
		case "h2", "h3":
			be.BackendProto = vxPtr(kind)
		case "local":
			be.Mode, be.Addresses, be.InsecureSkipVerify = ModeLocal, nil, false
			be.DocumentRoot = docRoot
		case "static-override":
			be.PathOverrides = []*PathOverride{{Paths: []string{"/pre/"}, DocumentRoot: docRoot}}
		case "console":
			be.Mode, be.Addresses, be.InsecureSkipVerify = ModeConsole, nil, false
		}
		if client == "h3" {
			be.ALPNProtos = &[]string{"h3"}
		}
		cfg := simCfg(be)
		cfg.EnableQUIC = vxPtr(client == "h3" || kind == "h3")
		return cfg
	}
	x.N.Limit = 64 << 10
	s := newSim(x, config(0))
	own := kind == "local" || kind == "static-override" || kind == "console"
	if !own && client == "h3" {
		// The proxy flushes under a lock. A flush that waits for the
		// peer's flow control would keep the clock from moving.
		big = big[:4000]
	}
	var body []byte
	started, gate := make(chan struct{}), make(chan struct{})
	once := sync.OnceFunc(func() { close(started) })
	h := http.HandlerFunc(func(w http.ResponseWriter, req *http.Request) {
		w.Write(big[:1000])
		w.(http.Flusher).Flush()
		once()
		select {
		case <-gate:
			w.Write(big[1000:])
		case <-req.Context().Done():
		}
	})
	path := "/"
	body = big
	switch kind {
	case "local":
		path = "/big.bin"
	case "static-override":
		path = "/pre/big.bin"
	case "console":
		body = nil
	case "h3":
		s.quicUpstream(addr, &tls.Config{NextProtos: []string{"h3"}, GetCertificate: simServerTLS(c20Host).GetCertificate}, simQUIC, func(k quic.Connection) {
			(&http3.Server{Handler: h}).ServeQUICConn(k)
		})
	case "http":
		s.httpUpstream(addr, h)
	default:
		s.upstream(addr, func(c *vnet.VConn) {
			tc := simServerTLS(c20Host).Clone()
			tc.NextProtos = []string{"http/1.1"}
			if kind == "h2" {
				tc.NextProtos = []string{"h2"}
			}
			t := tls.Server(c, tc)
			if err := t.Handshake(); err != nil {
				c.Close()
				return
			}
			if kind == "h2" {
				(&http2.Server{}).ServeConn(t, &http2.ServeConnOpts{Handler: h})
				return
			}
			(&http.Server{Handler: h}).Serve(&c20OneConn{conn: t})
		})
	}

	var resp *http.Response
	var err error
	req, _ := http.NewRequest("GET", "https://"+c20Host+path, nil)
	var done func()
	connect := func() (http.RoundTripper, func(), error) {
		switch client {
		case "h3":
			k, err := s.quicDial("", c20Host, []string{"h3"}, nil)
			if err != nil {
				return nil, nil, err
			}
			return (&http3.Transport{DisableCompression: true}).NewClientConn(k), func() { k.CloseWithError(0x100, "") }, nil
		case "h2":
			c, err := s.dial("c", c20Host, []string{"h2"}, "", nil)
			if err != nil {
				return nil, nil, err
			}
			cc, err := (&http2.Transport{DisableCompression: true}).NewClientConn(c.tls)
			if err != nil {
				return nil, nil, err
			}
			return cc, func() { cc.Close(); c.raw.Close() }, nil
		}
		c, err := s.dial("c", c20Host, []string{"http/1.1"}, "", nil)
		if err != nil {
			return nil, nil, err
		}
		tr := &http.Transport{DisableCompression: true, DialTLSContext: func(context.Context, string, string) (net.Conn, error) { return c.tls, nil }}
		return tr, func() { tr.CloseIdleConnections(); c.tls.Close(); c.raw.Close() }, nil
	}
	rt, done, err := connect()
	if err != nil {
		r.Violation("kinds-dial:"+client, "%s: %v", id, err)
		return
	}
	if resp, err = rt.RoundTrip(req); err != nil || resp.StatusCode != 200 {
		r.Violation("kinds-get:"+client+":"+kind, "%s: %v %v", id, resp, err)
		return
	}
	first := make([]byte, 1000)
	if n, err := io.ReadFull(resp.Body, first); err != nil && kind != "console" {
		r.Violation("kinds-get:"+client+":"+kind, "%s: after %d bytes: %v", id, n, err)
		return
	}
	if !own {
		<-started
	}
	const grace = time.Minute
	ended := make(chan time.Duration, 1)
	t0 := time.Now()
	go func() {
		switch ev {
		case "reload", "reload2":
			s.p.Reconfigure(config(1))
			if ev == "reload2" {
				s.p.Reconfigure(config(2))
			}
		case "reload-shutdown":
			s.p.Reconfigure(config(1))
			fallthrough
		case "shutdown", "shutdown-late":
			ctx, cancel := context.WithTimeout(context.Background(), grace)
			defer cancel()
			s.p.Shutdown(ctx)
		case "stop":
			s.p.Stop()
		}
		ended <- time.Since(t0)
	}()
	time.Sleep(20 * time.Second)
	stopped := !strings.HasPrefix(ev, "reload") || ev == "reload-shutdown"
	if kind != "console" && ev != "stop" && stopped {
		select {
		case d := <-ended:
			r.Violation("kinds-early:"+client+":"+kind, "%s: the shutdown returned after %v with a request in progress", id, d)
			ended <- d
		default:
		}
	}
	if ev == "shutdown-late" {
		time.Sleep(grace)
	}
	close(gate)
	t1 := time.Now()
	rest, err := io.ReadAll(resp.Body)
	resp.Body.Close()
	// The connection may stay open, idle.
	time.Sleep(time.Second)
	if kind != "console" {
		got := append(first, rest...)
		full := err == nil && bytes.Equal(got, body)
		switch ev {
		case "reload", "reload2", "shutdown", "reload-shutdown":
			if !full {
				r.Violation("kinds-cut:"+client+":"+kind+":"+ev, "%s: a request that was being served was cut off after %d bytes of %d: %v", id, len(got), len(body), err)
			}
		default:
			if err == nil && !full {
				r.Violation("kinds-short:"+client+":"+kind+":"+ev, "%s: the client received %d bytes of %d without an error", id, len(got), len(body))
			}
			// What fits in the buffers may still arrive.
			if full {
				r.Outcome("%s complete %s", ev, kind)
			}
		}
	}
	var took time.Duration
	if stopped {
		select {
		case took = <-ended:
		case <-time.After(2 * grace):
			r.Violation("kinds-hang:"+client+":"+kind, "%s: the %s doesn't return", id, ev)
			return
		}
		if ev != "stop" && ev != "shutdown-late" && took > t1.Sub(t0)+20*time.Second {
			r.Violation("kinds-slow:"+client+":"+kind, "%s: the last request ended after %v, but the shutdown took %v", id, t1.Sub(t0), took)
		}
		if took > grace+10*time.Second {
			r.Violation("kinds-late:"+client+":"+kind, "%s: the shutdown took %v", id, took)
		}
		if _, _, err := connect(); err == nil {
			r.Violation("kinds-accepts:"+client, "%s: a connection opened after the %s isn't refused", id, ev)
		}
	} else {
		// New connections are served by the new configuration.
		if s.p.cfg.Backends[0].ForwardTimeout == 20*time.Second {
			panic("not reloaded")
		}
		rt, done, err := connect()
		if err != nil {
			r.Violation("kinds-after:"+client, "%s: after the reload: %v", id, err)
		} else {
			resp, err := rt.RoundTrip(req)
			if err == nil {
				_, err = io.Copy(io.Discard, resp.Body)
				resp.Body.Close()
			}
			if err != nil {
				r.Violation("kinds-after:"+client, "%s: after the reload: %v", id, err)
			}
			done()
		}
	}
	done()
	r.Outcome("%s %s: took %v", client, ev, took.Truncate(10*time.Second))
	time.Sleep(5 * time.Minute)
	if !stopped {
		s.p.Stop()
		time.Sleep(5 * time.Minute)
	}
	if o := s.openConns(); o != "" {
		r.Violation("kinds-open:"+client+":"+kind, "%s: the proxy still holds connections open: %s", id, o)
	}
	if o := c20Own(); len(o) > 0 {
		r.Violation("kinds-left:"+client+":"+kind, "%s: goroutines are left: %v", id, o)
	}
	if s.panicked() {
		r.Violation("kinds-panic", "%s: the proxy panicked", id)
	}
}

// c20OneConn is a listener with one connection.
type c20OneConn struct {
	conn net.Conn
	mu   sync.Mutex
}

func (l *c20OneConn) Accept() (net.Conn, error) {
	l.mu.Lock()
	defer l.mu.Unlock()
	if c := l.conn; c != nil {
		l.conn = nil
		return c, nil
	}
	// The server goes on with the connection.
	return nil, io.EOF
}

func (l *c20OneConn) Close() error   { return nil }
func (l *c20OneConn) Addr() net.Addr { return &net.TCPAddr{} }
