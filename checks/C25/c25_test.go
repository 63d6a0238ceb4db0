package proxy

import (
	"bufio"
	"crypto/tls"
	"fmt"
	"io"
	"net"
	"net/http"
	"strings"
	"sync"
	"testing"
	"time"

	"golang.org/x/net/http2"

	"github.com/c2FmZQ/tlsproxy/internal/vnet"
	"github.com/c2FmZQ/tlsproxy/internal/vsched"
	"github.com/c2FmZQ/tlsproxy/internal/vx"
)

var c25Proxies = []string{"127.0.0.1:443", "127.0.0.2:443", "127.0.0.3:443"}

// Hops: how the request gets from one backend to the next.
//
//	h1, h2: over HTTPS
//	po: over HTTPS, with a path override
//	tls: as a TLS stream, in mode TLS
//	mid: over HTTP to something that forwards it over TLS
var c25Kinds = []string{"h1", "h2", "po", "tls", "mid"}

// How the thing in the middle deals with Via.
var c25Mids = []string{"same", "append", "append tight", "append loose", "append comment", "line after", "line before"}

type c25Graph struct {
	n      int    // number of backends
	next   []int  // len n; n is the server
	kind   []int  // index in c25Kinds
	where  []int  // index in c25Proxies
	mid    string // one of c25Mids
	client string
}

func (g c25Graph) String() string {
	var s []string
	for i := range g.n {
		to := "S"
		if g.next[i] < g.n {
			to = string(rune('a' + g.next[i]))
		}
		s = append(s, fmt.Sprintf("%c@%d-%s-%s", 'a'+i, g.where[i], c25Kinds[g.kind[i]], to))
	}
	return strings.Join(s, " ") + " " + g.mid
}

func c25Name(i int) string { return fmt.Sprintf("%c.example.com", 'a'+i) }

// walk follows the request.
func (g c25Graph) walk() (loop, own bool, http int) {
	seen := map[int]bool{}
	at := map[int]bool{}
	cyclic := map[int]bool{}
	for i := 0; ; i = g.next[i] {
		if i == g.n {
			return false, own, http
		}
		if seen[i] {
			// The cycle.
			for !cyclic[i] {
				cyclic[i] = true
				i = g.next[i]
			}
			http = 0
			for i := range cyclic {
				if c25Kinds[g.kind[i]] != "tls" {
					http++
				}
			}
			return true, true, http
		}
		seen[i] = true
		if c25Kinds[g.kind[i]] == "tls" {
			continue
		}
		http++
		if at[g.where[i]] {
			own = true
		}
		at[g.where[i]] = true
	}
}

// host is what the backend expects in the Host header: the name of the first
// backend that looks at it.
func (g c25Graph) host(i int) string {
	for range g.n {
		if i == g.n {
			return "s.example.com"
		}
		if c25Kinds[g.kind[i]] != "tls" {
			return c25Name(i)
		}
		i = g.next[i]
	}
	return ""
}

// c25Middle forwards requests, one connection each.
func c25Middle(x *vsched.X, c *vnet.VConn, to, sni, how string) {
	defer c.Close()
	br := bufio.NewReader(c)
	var up *tls.Conn
	var ubr *bufio.Reader
	for {
		req, err := http.ReadRequest(br)
		if err != nil {
			if up != nil {
				up.Close()
			}
			return
		}
		if up == nil {
			raw, err := x.N.Dial(req.Context(), to, "", false)
			if err != nil {
				return
			}
			up = tls.Client(raw, simTLSConfig(sni, nil, nil))
			ubr = bufio.NewReader(up)
			defer up.Close()
		}
		via := req.Header["Via"]
		switch how {
		case "append", "append tight", "append loose", "append comment":
			sep := map[string]string{"append": ", ", "append tight": ",", "append loose": " ,\t", "append comment": " (first), "}[how]
			via = []string{strings.Join(via, ", ") + sep + "1.1 middle"}
		case "line after":
			via = append(via, "1.1 middle")
		case "line before":
			via = append([]string{"1.1 middle"}, via...)
		}
		fmt.Fprintf(up, "%s %s HTTP/1.1\r\nHost: %s\r\n", req.Method, req.URL.RequestURI(), req.Host)
		for _, v := range via {
			fmt.Fprintf(up, "Via: %s\r\n", v)
		}
		b, _ := io.ReadAll(req.Body)
		fmt.Fprintf(up, "Content-Length: %d\r\n\r\n%s", len(b), b)
		resp, err := http.ReadResponse(ubr, req)
		if err != nil {
			return
		}
		b, err = io.ReadAll(resp.Body)
		if err != nil {
			return
		}
		fmt.Fprintf(c, "HTTP/1.1 %d OK\r\nContent-Length: %d\r\n\r\n%s", resp.StatusCode, len(b), b)
	}
}

type c25Server struct {
	mu sync.Mutex
	n  int
}

func c25Run(x *vsched.X, g c25Graph) {
	r := x.R
	srv := &c25Server{}
	var sims []*sim
	for pi, addr := range c25Proxies {
		var bes []*Backend
		for i := range g.n {
			if g.where[i] != pi {
				continue
			}
			be := &Backend{ServerNames: []string{c25Name(i)}, InsecureSkipVerify: true}
			to, sni, mode, host := "10.0.0.1:443", "s.example.com", ModeHTTPS, "s.example.com"
			if g.next[i] < g.n {
				to, sni, host = c25Proxies[g.where[g.next[i]]], c25Name(g.next[i]), g.host(g.next[i])
			}
			hdr := map[string]string{"Host": host}
			switch k := c25Kinds[g.kind[i]]; k {
			case "h1", "h2":
				be.Mode, be.Addresses, be.ForwardServerName, be.ForwardHTTPHeaders = mode, []string{to}, sni, hdr
				be.BackendProto = vxPtr(map[string]string{"h1": "http/1.1", "h2": "h2"}[k])
			case "po":
				be.Mode, be.Addresses = ModeHTTP, []string{"10.0.0.9:80"}
				be.PathOverrides = []*PathOverride{{Paths: []string{"/po/"}, Mode: mode, Addresses: []string{to}, ForwardServerName: sni, ForwardHTTPHeaders: &hdr, InsecureSkipVerify: true}}
			case "tls":
				be.Mode, be.Addresses, be.ForwardServerName = ModeTLS, []string{to}, sni
				be.ALPNProtos = &[]string{"h2", "http/1.1"}
			case "mid":
				mid := fmt.Sprintf("10.0.1.%d:80", i)
				be.Mode, be.Addresses, be.ForwardHTTPHeaders = ModeHTTP, []string{mid}, hdr
				l, err := x.N.Listen(mid, false)
				if err != nil {
					panic(err)
				}
				x.Cleanup(func() { l.Close() })
				go func() {
					for {
						c, err := l.Accept()
						if err != nil {
							return
						}
						go c25Middle(x, c.(*vnet.VConn), to, sni, g.mid)
					}
				}()
			}
			bes = append(bes, be)
		}
		if len(bes) == 0 {
			continue
		}
		cfg := simCfg(bes...)
		cfg.TLSAddr = addr
		cfg.MaxOpen = 80
		sims = append(sims, newSim(x, cfg))
		sims[len(sims)-1].addr = addr
	}
	// The server.
	l, err := x.N.Listen("10.0.0.1:443", false)
	if err != nil {
		panic(err)
	}
	h := http.HandlerFunc(func(w http.ResponseWriter, req *http.Request) {
		srv.mu.Lock()
		srv.n++
		srv.mu.Unlock()
		b := "served " + strings.Join(req.Header["Via"], ", ")
		w.Header().Set("content-length", fmt.Sprint(len(b)))
		io.WriteString(w, b)
	})
	x.Cleanup(func() { l.Close() })
	go func() {
		for {
			c, err := l.Accept()
			if err != nil {
				return
			}
			go c25Serve(c, h)
		}
	}()

	loop, own, _ := g.walk()
	type hdr struct {
		desc string
		l    []string
	}
	hdrs := []hdr{
		{"none", nil}, {"via", []string{"Via: 1.1 other"}}, {"two vias", []string{"Via: 1.0 a, 1.1 b:443 (x)", "Via: 1.1 c"}},
		{"junk", []string{"Via: , ,,", "Via:", "Via: x"}}, {"many", []string{"Via: " + strings.Repeat("1.1 h, ", 100) + "1.1 h"}},
		{"connection", []string{"Connection: Via"}}, {"connection list", []string{"Via: 1.1 other", "Connection: close, via , x-y"}},
	}
	first := sims[0]
	for _, s := range sims {
		if s.addr == c25Proxies[g.where[0]] {
			first = s
		}
	}
	for _, proto := range []string{"http/1.1", "h2"} {
		for _, hd := range hdrs {
			if proto == "h2" && strings.HasPrefix(hd.desc, "connection") {
				continue
			}
			r.Exec()
			id := fmt.Sprintf("%s: client %s, headers %s", x.ID, proto, hd.desc)
			srv.mu.Lock()
			srv.n = 0
			srv.mu.Unlock()
			t0 := time.Now()
			st, body, err := c25Get(first, g, proto, hd.l)
			d := time.Since(t0)
			hops := strings.Count(body, ":443")
			r.Step(hops + 1)
			srv.mu.Lock()
			n := srv.n
			srv.mu.Unlock()
			key := fmt.Sprintf("%s/%s", hd.desc, strings.Join(strings.Fields(g.mid), "-"))
			switch {
			case n > 1:
				r.Violation("repeated:"+key, "%s: the request reached the server %d times", id, n)
			case simErr(err) == "HANG" || d > time.Minute:
				r.Violation("hang:"+key, "%s: no answer after %v (%v)", id, d, err)
			case loop && err != nil:
				r.Violation("loop-error:"+key, "%s: the connection failed: %v", id, err)
			case loop && (st < 400 || n > 0):
				r.Violation("loop-status:"+key, "%s: a loop was answered with %d %q", id, st, body)
			case loop && st != http.StatusLoopDetected:
				r.Violation("loop-late:"+key, "%s: the loop wasn't stopped by the proxy: %d %q", id, st, body)
			case loop && hops > 2*g.n:
				r.Violation("loop-hops:"+key, "%s: the loop was stopped after %d hops", id, hops)
			case !own && (err != nil || st != 200 || n != 1):
				r.Violation("stopped:"+key, "%s: a request that doesn't come back to a proxy was answered with %d %q (%v)", id, st, body, err)
			case n == 1 && st != 200:
				r.Violation("status:"+key, "%s: served, and answered with %d %q", id, st, body)
			}
			r.Outcome("loop=%v own=%v status=%d hops=%d", loop, own, st, hops)
		}
	}
}

func c25Serve(c net.Conn, h http.Handler) {
	tc := tls.Server(c, &tls.Config{GetCertificate: func(*tls.ClientHelloInfo) (*tls.Certificate, error) { return vxCM.GetCert("s.example.com") }, NextProtos: []string{"h2", "http/1.1"}})
	defer c.Close()
	if tc.Handshake() != nil {
		return
	}
	if tc.ConnectionState().NegotiatedProtocol == "h2" {
		(&http2.Server{}).ServeConn(tc, &http2.ServeConnOpts{Handler: h})
		return
	}
	br := bufio.NewReader(tc)
	for {
		req, err := http.ReadRequest(br)
		if err != nil {
			return
		}
		io.Copy(io.Discard, req.Body)
		w := &c25Rec{h: http.Header{}}
		h.ServeHTTP(w, req)
		fmt.Fprintf(tc, "HTTP/1.1 200 OK\r\nContent-Length: %d\r\n\r\n%s", len(w.b), w.b)
	}
}

type c25Rec struct {
	h http.Header
	b []byte
}

func (r *c25Rec) Header() http.Header         { return r.h }
func (r *c25Rec) Write(b []byte) (int, error) { r.b = append(r.b, b...); return len(b), nil }
func (r *c25Rec) WriteHeader(int)             {}

func c25Get(s *sim, g c25Graph, proto string, hdr []string) (int, string, error) {
	c, err := s.dial("c", c25Name(0), []string{proto}, "", nil)
	if err != nil {
		return 0, "", err
	}
	defer func() {
		c.tls.Close()
		c.raw.Close()
	}()
	host := g.host(0)
	var resp *http.Response
	if c.tls.ConnectionState().NegotiatedProtocol == "h2" {
		cc, err := (&http2.Transport{}).NewClientConn(c.tls)
		if err != nil {
			return 0, "", err
		}
		req, _ := http.NewRequest("GET", "https://"+host+"/po/x", nil)
		for _, l := range hdr {
			k, v, _ := strings.Cut(l, ":")
			req.Header.Add(k, strings.TrimSpace(v))
		}
		if resp, err = cc.RoundTrip(req); err != nil {
			return 0, "", err
		}
	} else {
		fmt.Fprintf(c.tls, "GET /po/x HTTP/1.1\r\nHost: %s\r\n", host)
		for _, l := range hdr {
			fmt.Fprintf(c.tls, "%s\r\n", l)
		}
		fmt.Fprintf(c.tls, "\r\n")
		if resp, err = http.ReadResponse(c.br, &http.Request{Method: "GET"}); err != nil {
			return 0, "", err
		}
	}
	b, err := io.ReadAll(resp.Body)
	resp.Body.Close()
	return resp.StatusCode, string(b), err
}

func TestVX(t *testing.T) {
	r := vx.Start(t, "C25")
	defer r.Done()
	simInit(r, c25Name(0), c25Name(1), c25Name(2), "s.example.com")

	var shapes [][]int
	for n := 1; n <= 3; n++ {
		// a -> b -> c, and the last one goes to the server or back.
		for last := 0; last <= n; last++ {
			var next []int
			for i := 1; i < n; i++ {
				next = append(next, i)
			}
			shapes = append(shapes, append(next, last))
		}
	}
	r.Bound("backends", 3)
	r.Bound("proxies", 3)
	for _, next := range shapes {
		n := len(next)
		vx.Product(append(c25Sizes(n, len(c25Kinds)), c25Sizes(n, len(c25Proxies))...), func(idx []int) bool {
			g := c25Graph{n: n, next: next, kind: idx[:n], where: idx[n:]}
			for i, w := range g.where {
				// The proxies are interchangeable.
				max := 0
				for _, v := range g.where[:i] {
					if v+1 > max {
						max = v + 1
					}
				}
				if w > max {
					return true
				}
			}
			mids := 0
			for _, k := range g.kind {
				if c25Kinds[k] == "mid" {
					mids++
				}
			}
			if loop, _, h := g.walk(); loop && h == 0 {
				return true // nothing ever looks at the request
			}
			if g.host(0) == "s.example.com" {
				return true
			}
			hows := c25Mids
			if mids == 0 {
				hows = hows[:1]
			} else if n == 3 && r.Pick(0, 1) == 0 {
				hows = []string{"append loose", "line after"}
			}
			for _, how := range hows {
				g.mid = how
				id := strings.ReplaceAll(g.String(), " ", "_")
				if !r.Case(id) {
					continue
				}
				r.State("%s", id)
				vsched.Bubble(r, id, func(x *vsched.X) { c25Run(x, g) })
			}
			return true
		})
	}
}

func c25Sizes(n, k int) []int {
	out := make([]int, n)
	for i := range out {
		out[i] = k
	}
	return out
}
