package proxy

import (
	"fmt"
	"io"
	"net/http"
	"strings"
	"testing"
	"testing/synctest"
	"time"

	"github.com/c2FmZQ/tlsproxy/internal/vnet"
	"github.com/c2FmZQ/tlsproxy/internal/vsched"
	"github.com/c2FmZQ/tlsproxy/internal/vx"
)

const (
	c19HTTP = "http.example.com"
	c19TCP  = "tcp.example.com"
	c19Down = "down.example.com"
	c19Deny = "deny.example.com"
	c19Pass = "pass.example.com"
)

// c19Config makes the configurations; v makes them differ.
func c19Config(v, maxOpen int) *Config {
	cfg := simCfg(
		simHTTPBackend(c19HTTP, ModeHTTP, "10.0.0.1:80"),
		simHTTPBackend(c19TCP, ModeTCP, "10.0.0.2:80"),
		simHTTPBackend(c19Down, ModeTCP, "10.0.0.3:80"),
		simHTTPBackend(c19Pass, ModeTLSPassthrough, "10.0.0.4:443"),
		&Backend{ServerNames: []string{c19Deny}, Mode: ModeTCP, Addresses: []string{"10.0.0.2:80"}, DenyIPs: &[]string{"0.0.0.0/0"}},
	)
	cfg.MaxOpen = maxOpen
	if v%2 == 1 {
		cfg.Backends[0].ForwardRateLimit = 999
		// Connections from the clients to this backend aren't allowed anymore.
		cfg.Backends[1].DenyIPs = &[]string{"127.0.0.1/32"}
	}
	return cfg
}

type c19Client struct {
	st    string // "", tcp, tls, done
	kind  string
	c     *simConn
	up    *vnet.VConn
	limit bool
}

type c19World struct {
	r       *vx.R
	x       *vsched.X
	s       *sim
	max     int
	ncfg    int
	clients []*c19Client
	bes     map[*Backend]bool
	ups     chan *vnet.VConn
	hist    []string
	bad     bool
}

func c19New(x *vsched.X, maxOpen int) *c19World {
	w := &c19World{r: x.R, x: x, max: maxOpen, bes: map[*Backend]bool{}, ups: make(chan *vnet.VConn, 100)}
	w.s = newSim(x, c19Config(0, maxOpen))
	w.s.httpUpstream("10.0.0.1:80", http.HandlerFunc(func(rw http.ResponseWriter, req *http.Request) { io.WriteString(rw, "ok") }))
	w.s.upstream("10.0.0.2:80", func(c *vnet.VConn) { w.ups <- c })
	w.s.upstream("10.0.0.4:443", func(c *vnet.VConn) { w.ups <- c })
	w.note()
	return w
}

// note remembers the backends of the current configuration.
func (w *c19World) note() {
	for _, be := range w.s.p.cfg.Backends {
		w.bes[be] = true
	}
}

// open counts the connections of the proxy that aren't closed.
func (w *c19World) open() (in, out int) {
	for _, c := range w.x.N.Open() {
		if c.LocalAddr().String() == simAddr {
			in++
		} else {
			out++
		}
	}
	return
}

func (w *c19World) fail(key, f string, a ...any) {
	if !w.bad {
		w.r.Violation(key, "after [%s]: "+f, append([]any{strings.Join(w.hist, " ")}, a...)...)
	}
	w.bad = true
}

// check compares the records with the truth.
func (w *c19World) check() {
	w.r.Step(1)
	in, out := w.open()
	conns := w.s.p.inConns.slice()
	if len(conns) != in {
		w.fail("in", "%d client connections are open, the proxy has %d on record", in, len(conns))
	}
	if n := len(w.s.p.outConns.slice()); n != out {
		w.fail("out", "%d outgoing connections are open, the proxy has %d on record", out, n)
	}
	n := map[*Backend]int{}
	for _, c := range conns {
		if be := connBackend(c); be != nil {
			n[be]++
		}
	}
	for be := range w.bes {
		be.state.mu.Lock()
		v := be.state.inFlight
		be.state.mu.Unlock()
		if v != n[be] {
			w.fail("inflight", "%s has %d open connections, in-flight count is %d", be.ServerNames[0], n[be], v)
		}
	}
	served := 0
	for _, c := range w.clients {
		if c.st == "tls" && !c.c.closed() {
			served++
		}
	}
	if served > w.max {
		w.fail("limit", "%d clients are served, the limit is %d", served, w.max)
	}
	w.r.State(in, out, served, w.max)
}

// enabled lists what can happen to client c.
func (w *c19World) enabled(c *c19Client) []string {
	switch c.st {
	case "":
		return []string{"o", "h", "t", "p", "d", "u", "x"}
	case "tcp":
		return []string{"g", "s", "r", "t"}
	case "half":
		return []string{"r"}
	case "tls":
		switch c.kind {
		case "h":
			return []string{"q", "c", "r"}
		default:
			return []string{"w", "W", "c", "r"}
		}
	}
	return nil
}

var c19Names = map[string]string{"h": c19HTTP, "t": c19TCP, "p": c19Pass, "d": c19Down, "u": "unknown.example.com", "x": c19Deny}

// do makes ev happen to client c.
func (w *c19World) do(c *c19Client, ev string) {
	settle := func() { time.Sleep(10 * time.Millisecond); synctest.Wait() }
	in, _ := w.open()
	fresh := c.c == nil
	if fresh {
		cc, err := w.s.raw("c", "")
		if err != nil {
			w.fail("dial", "%v", err)
			return
		}
		c.c = cc
		c.st = "tcp"
	}
	switch ev {
	case "o":
		settle()
		// The connection is now waiting for a hello, or refused.
		c.limit = c.c.closed()
	case "g":
		c.c.raw.Write([]byte("GET / HTTP/1.1\r\n\r\n"))
		settle()
		c.st = "done"
		if !c.c.closed() {
			w.fail("garbage", "a connection that doesn't start with a hello isn't closed")
		}
	case "s":
		c.c.raw.Write([]byte{0x16, 3, 1, 2})
		c.st = "half"
	case "r":
		c.c.raw.Reset()
		c.st = "done"
	case "c":
		if c.c.tls != nil && c.kind != "p" {
			c.c.tls.Close()
		}
		c.c.raw.Close()
		c.st = "done"
	case "q":
		_, b, err := c.c.get(c19HTTP, "/")
		if err != nil && w.ncfg == 0 || err == nil && b != "ok" {
			w.fail("request", "request: %v %q", err, b)
		}
		if err != nil {
			c.st = "done"
			c.c.raw.Close()
		}
	case "w":
		if c.up != nil {
			c.up.Close()
		}
		c.st = "done"
	case "W":
		if c.up != nil {
			c.up.Reset()
		}
		c.st = "done"
	case "h", "t", "p", "d", "u", "x":
		if fresh {
			settle()
			c.limit = c.c.closed()
		}
		name := c19Names[ev]
		if ev == "p" {
			cl := simTLSConfig(name, nil, nil)
			go func() { c.c.handshake(cl) }()
			settle()
			select {
			case c.up = <-w.ups:
			default:
			}
			if c.up != nil && !c.c.closed() {
				c.st = "tls"
			} else {
				c.st = "done"
				if !c.limit {
					w.fail("pass", "passthrough connection refused")
				}
			}
			c.kind = ev
			break
		}
		var protos []string
		if ev == "h" {
			protos = []string{"http/1.1"}
		}
		err := c.c.handshake(simTLSConfig(name, protos, nil))
		settle()
		allowed := ev == "h" || ev == "t" && w.ncfg%2 == 0
		switch {
		case err == nil && allowed && !c.c.closed():
			c.st, c.kind = "tls", ev
			if ev == "t" {
				c.up = <-w.ups
			}
		case allowed && !c.limit:
			w.fail("refused", "the connection was refused: %v", err)
			c.st = "done"
		default:
			c.st = "done"
			if !c.c.closed() {
				w.fail("refuse", "a refused connection (%s) isn't closed: %v", ev, err)
			}
		}
	}
	if fresh {
		if c.limit && in+1 < w.max {
			w.fail("place", "a connection was refused with %d others, the limit is %d", in, w.max)
		}
		if !c.limit && in+1 > w.max {
			w.fail("limit", "a connection was accepted with %d others, the limit is %d", in, w.max)
		}
		if c.limit {
			c.st = "done"
		}
	}
	settle()
}

func (w *c19World) global(ev string) {
	switch ev {
	case "L":
		w.ncfg++
		w.s.p.Reconfigure(c19Config(w.ncfg, w.max))
		w.note()
		time.Sleep(10 * time.Millisecond)
	case "Z":
		time.Sleep(40 * time.Second)
	}
	synctest.Wait()
	for _, c := range w.clients {
		if c.st != "" && c.st != "done" && c.c.closed() {
			c.st = "done"
			c.c.raw.Close()
		}
	}
	synctest.Wait()
}

// run executes a history; it returns the events that can come next.
func c19Run(x *vsched.X, maxOpen, n int, hist []string) (next []string) {
	w := c19New(x, maxOpen)
	for i := 0; i < n; i++ {
		w.clients = append(w.clients, &c19Client{})
	}
	w.check()
	for _, h := range hist {
		w.hist = append(w.hist, h)
		if len(h) == 1 {
			w.global(h)
		} else {
			w.do(w.clients[int(h[0]-'0')], h[1:])
		}
		w.check()
		if w.bad {
			return nil
		}
	}
	used := false
	for i, c := range w.clients {
		for _, e := range w.enabled(c) {
			next = append(next, fmt.Sprintf("%d%s", i, e))
		}
		if c.st != "" {
			used = true
		}
		if c.st == "" {
			break // the others are the same
		}
	}
	if used {
		next = append(next, "L", "Z")
	}
	// The end of everything.
	for _, c := range w.clients {
		if c.c != nil {
			c.c.raw.Reset()
		}
		if c.up != nil {
			c.up.Reset()
		}
	}
	time.Sleep(3 * time.Minute)
	synctest.Wait()
	w.hist = append(w.hist, "end")
	w.check()
	if in, _ := w.open(); in != 0 {
		w.fail("left", "%d client connections are still open", in)
	}
	return next
}

func TestVX(t *testing.T) {
	r := vx.Start(t, "C19")
	defer r.Done()
	simInit(r, c19HTTP, c19TCP, c19Down, c19Deny, c19Pass)
	depth := r.Pick(4, 5)
	r.Bound("history length", depth)
	r.Bound("clients", 3)
	for _, maxOpen := range []int{2, 3, 10} {
		ncl := 3
		if maxOpen == 10 {
			ncl = 2
		}
		var rec func(hist []string, top bool)
		rec = func(hist []string, top bool) {
			id := fmt.Sprintf("hist/%d/%s", maxOpen, strings.Join(hist, " "))
			if r.Replaying() {
				v, ok := strings.CutPrefix(r.ReplayCase(), fmt.Sprintf("hist/%d/", maxOpen))
				if !ok {
					return
				}
				r.InGroup(r.ReplayCase())
				vsched.Bubble(r, id, func(x *vsched.X) { c19Run(x, maxOpen, ncl, strings.Fields(v)) })
				return
			}
			shard, nsh := r.Shard()
			var next []string
			r.InGroup(id)
			vsched.Bubble(r, id, func(x *vsched.X) { next = c19Run(x, maxOpen, ncl, hist) })
			if len(hist) == depth {
				return
			}
			for i, e := range next {
				if r.Expired() {
					return
				}
				// The work is shared at the second level.
				if len(hist) == 1 && (i+len(hist[0])+int(hist[0][len(hist[0])-1]))%nsh != shard {
					continue
				}
				rec(append(append([]string{}, hist...), e), false)
			}
		}
		rec(nil, true)
	}

	dev := r.Pick(2, 3)
	r.Bound("deviations from the default schedule", dev)
	type scn struct {
		name    string
		max     int
		threads func(x *vsched.X, w *c19World)
	}
	client := func(x *vsched.X, w *c19World, name, kind string, killer bool) {
		c := &c19Client{}
		w.clients = append(w.clients, c)
		x.Go(name, func() {
			cc, err := w.s.raw(name, "")
			if err != nil {
				return
			}
			c.c = cc
			protos := []string(nil)
			if kind == "h" {
				protos = []string{"http/1.1"}
			}
			if err := cc.handshake(simTLSConfig(c19Names[kind], protos, nil)); err != nil {
				cc.raw.Close()
				return
			}
			if kind == "h" {
				if _, _, err := cc.get(c19HTTP, "/"); err != nil {
					cc.raw.Close()
					return
				}
			}
			c.st = "tls"
			if !killer {
				return
			}
			cc.raw.Close()
		})
		if killer {
			x.Go(name+"-reset", func() {
				if c.c != nil {
					c.c.raw.Reset()
				}
			})
		}
	}
	reload := func(x *vsched.X, w *c19World) {
		x.Go("reload", func() {
			w.ncfg++
			w.s.p.Reconfigure(c19Config(w.ncfg, w.max))
		})
	}
	scns := []scn{
		{"http-reset", 10, func(x *vsched.X, w *c19World) { client(x, w, "c", "h", true) }},
		{"tcp-reset", 10, func(x *vsched.X, w *c19World) { client(x, w, "c", "t", true) }},
		{"down-reset", 10, func(x *vsched.X, w *c19World) { client(x, w, "c", "d", true) }},
		{"http-reload", 10, func(x *vsched.X, w *c19World) { client(x, w, "c", "h", false); reload(x, w) }},
		{"tcp-reload", 10, func(x *vsched.X, w *c19World) { client(x, w, "c", "t", false); reload(x, w) }},
		{"http-stop", 10, func(x *vsched.X, w *c19World) {
			client(x, w, "c", "h", false)
			x.Go("stop", func() { w.s.p.Stop() })
		}},
		{"limit2", 2, func(x *vsched.X, w *c19World) { client(x, w, "c", "t", false); client(x, w, "d", "t", false) }},
		{"limit3", 3, func(x *vsched.X, w *c19World) {
			client(x, w, "c", "t", false)
			client(x, w, "d", "h", false)
			client(x, w, "e", "t", true)
		}},
	}
	for _, sc := range scns {
		d := dev
		if sc.name == "limit3" {
			d--
		}
		vsched.Explore(r, sc.name, vsched.Opts{Deviations: d, Filter: simFilter}, func(x *vsched.X) func() {
			w := c19New(x, sc.max)
			w.hist = []string{sc.name}
			sc.threads(x, w)
			return func() {
				w.note()
				time.Sleep(10 * time.Millisecond)
				w.check()
				res := ""
				for _, c := range w.clients {
					res += " " + c.st
					if c.c != nil {
						c.c.raw.Reset()
					}
				}
				r.Outcome("%s:%s", sc.name, res)
				time.Sleep(3 * time.Minute)
				w.hist = append(w.hist, x.ID+" end")
				w.check()
				if in, _ := w.open(); in != 0 {
					w.fail("left", "%d client connections are still open", in)
				}
			}
		})
	}
}
