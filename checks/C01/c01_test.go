package proxy

import (
	"crypto/tls"
	"fmt"
	"net"
	"path/filepath"
	"slices"
	"strings"
	"testing"
	"time"

	"github.com/c2FmZQ/tlsproxy/internal/vx"
)

type c01BE struct {
	names []string
	alpn  []string
	nilA  bool
	mode  string
	id    string // expected greeting
}

const c01Up = 7

type c01 struct {
	r     *vx.R
	p     *vxProxy
	tcp   [c01Up]*vxGreeter
	pt    [c01Up]*vxGreeter
	http  [c01Up]*vxUpstream
	tlsg  [c01Up]*vxGreeter
	root  [c01Up]string
	tcpN  map[string]int // expected connections of each greeter
	serve map[string]bool
}

var c01ALPN = []struct {
	name   string
	protos []string
	isNil  bool
}{
	{"nil", []string{"h2", "http/1.1"}, true},
	{"h2", []string{"h2"}, false},
	{"h1", []string{"http/1.1"}, false},
	{"foo", []string{"foo"}, false},
	{"none", []string{}, false},
	{"foo,h2", []string{"foo", "h2"}, false},
	{"h3", []string{"h3"}, false},
	{"h3,h1", []string{"h3", "http/1.1"}, false},
}

var c01Hello = [][]string{
	nil, {"h2"}, {"http/1.1"}, {"foo"}, {"bar"}, {"h2", "http/1.1"}, {"http/1.1", "h2"}, {"bar", "h2"}, {"foo", "http/1.1"},
	{"acme-tls/1"}, {"h3"}, {"h3", "h2"}, {"bar", "foo", "http/1.1"},
	{"acme-tls/1", "h2"}, {"foo", "acme-tls/1"},
}

func (c *c01) backend(names []string, alpn int, mode string, up int) (*Backend, c01BE) {
	a := c01ALPN[alpn]
	be := &Backend{ServerNames: slices.Clone(names), Mode: mode}
	if !a.isNil {
		be.ALPNProtos = vxPtr(slices.Clone(a.protos))
	}
	m := c01BE{names: names, alpn: a.protos, nilA: a.isNil, mode: mode}
	switch mode {
	case "TCP":
		be.Addresses = []string{c.tcp[up].addr}
		m.id = c.tcp[up].name
	case "TLS":
		be.Addresses = []string{c.tlsg[up].addr}
		be.InsecureSkipVerify = true
		m.id = c.tlsg[up].name
	case "TLSPASSTHROUGH":
		be.Addresses = []string{c.pt[up].addr}
		m.id = c.pt[up].name
	case "HTTP":
		be.Addresses = []string{c.http[up].addr}
		m.id = c.http[up].name
	case "LOCAL":
		be.DocumentRoot = c.root[up]
		m.id = fmt.Sprintf("local%d", up)
	}
	return be, m
}

// c01Valid says whether a configuration is acceptable: the (name, protocol)
// pairs are unique, and only one backend per name can have no protocol.
func c01Valid(bes []c01BE) bool {
	seen := map[string]bool{}
	names := map[string]bool{}
	for _, b := range bes {
		for _, n := range b.names {
			if names[n] && len(b.alpn) == 0 {
				return false
			}
			names[n] = true
			for _, p := range b.alpn {
				if seen[n+"|"+p] {
					return false
				}
				seen[n+"|"+p] = true
			}
		}
	}
	return true
}

// probe opens one connection and judges it.
func (c *c01) probe(cfg string, bes []c01BE, def, sni string, protos []string) {
	r := c.r
	id := cfg + "/" + sni + "/" + strings.Join(protos, "+")
	r.Exec()
	r.Step(1)
	name := sni
	if name == "" {
		name = def
	}
	var cands []int
	for i, b := range bes {
		if name != "" && slices.Contains(b.names, name) {
			cands = append(cands, i)
		}
	}
	// Expected backend.
	exp, matched := -1, false
	for _, pr := range protos {
		for _, i := range cands {
			if slices.Contains(bes[i].alpn, pr) {
				exp, matched = i, true
				break
			}
		}
		if matched {
			break
		}
	}
	if exp < 0 && len(cands) > 0 {
		exp = cands[0]
	}

	raw, err := vxTCP(c.p.addr, "")
	if err != nil {
		r.Violation("dial", "%s: %v", id, err)
		return
	}
	defer raw.Close()
	raw.SetDeadline(time.Now().Add(20 * time.Second))
	conn := tls.Client(raw, &tls.Config{ServerName: sni, InsecureSkipVerify: true, NextProtos: protos})
	herr := conn.Handshake()
	got, gerr := "", error(nil)
	proto := ""
	if herr == nil {
		proto = conn.ConnectionState().NegotiatedProtocol
		got, gerr = c.ident(conn, proto, name, exp, bes)
	}
	desc := fmt.Sprintf("%s: handshake %v, protocol %q, reached %q (%v)", id, herr, proto, got, gerr)
	mode := ""
	if exp >= 0 {
		mode = bes[exp].mode
	}
	r.Outcome("%s exp=%v err=%s proto=%s", mode, exp >= 0, vxAlert(herr), proto)
	if got != "" {
		r.State(cfg, sni, proto, got)
	}
	reached := -1
	for i, b := range bes {
		if b.id == got {
			reached = i
		}
	}
	if got != "" && reached < 0 {
		r.Violation("unknown-backend", "%s", desc)
		return
	}
	if exp < 0 {
		if vxAlert(herr) != "unrecognized name" {
			r.Violation("unknown-name", "%s: expected an unrecognized-name alert", desc)
		}
		return
	}
	b := bes[exp]
	if reached >= 0 {
		if !slices.Contains(cands, reached) {
			r.Violation("wrong-name", "%s: backend of another server name", desc)
			return
		}
		if proto != "" && bes[reached].mode != "TLSPASSTHROUGH" && !slices.Contains(bes[reached].alpn, proto) {
			r.Violation("wrong-proto", "%s: backend of another protocol", desc)
			return
		}
		if proto == "h3" && bes[reached].mode != "TLSPASSTHROUGH" {
			r.Violation("h3-over-tcp", "%s", desc)
			return
		}
	}
	if len(protos) == 1 && protos[0] == "acme-tls/1" && sni != "" && b.mode != "TLSPASSTHROUGH" {
		if got != "" {
			r.Violation("acme-served", "%s: ACME challenge connection reached a backend", desc)
		}
		return
	}
	if slices.Contains(protos, "h3") {
		if got != "" {
			c.expect(reached, bes)
		}
		return
	}
	ok, refuse := true, false
	if b.mode != "TLSPASSTHROUGH" && len(protos) > 0 && len(b.alpn) > 0 && !matched {
		ok, refuse = false, true
		if slices.Contains(protos, "http/1.1") && slices.Contains(b.alpn, "h2") {
			ok = true // crypto/tls serves http/1.1 clients without ALPN
		}
		if slices.Equal(b.alpn, []string{"h3"}) {
			ok = true // nothing to negotiate over TCP
		}
	} else if b.mode == "TLSPASSTHROUGH" && len(protos) > 0 && !matched {
		refuse = true
	} else if (b.mode == "HTTP" || b.mode == "LOCAL") && proto == "foo" {
		refuse = true // not something that an HTTP server can talk
	}
	if got == "" {
		if !refuse {
			r.Violation("not-served", "%s: expected %s", desc, b.id)
		}
		return
	}
	if !ok {
		r.Violation("served-without-protocol", "%s", desc)
		return
	}
	if reached != exp {
		r.Violation("wrong-backend", "%s: expected %s", desc, b.id)
		return
	}
	if matched && b.mode != "TLSPASSTHROUGH" && proto == "" {
		r.Violation("no-negotiation", "%s", desc)
	}
	c.expect(reached, bes)
}

func (c *c01) expect(i int, bes []c01BE) {
	switch bes[i].mode {
	case "TCP", "TLS", "TLSPASSTHROUGH":
		c.tcpN[bes[i].id]++
	case "HTTP":
		c.tcpN[bes[i].id]++
	}
}

// ident finds out who is at the other end.
func (c *c01) ident(conn *tls.Conn, proto, name string, exp int, bes []c01BE) (string, error) {
	httpish := exp >= 0 && (bes[exp].mode == "HTTP" || bes[exp].mode == "LOCAL")
	if !httpish {
		// If an HTTP backend is reached by mistake it waits for a request.
		conn.SetDeadline(time.Now().Add(5 * time.Second))
		s, err := vxReadLine(conn)
		if v, ok := strings.CutPrefix(s, "up="); ok {
			return v, nil
		}
		if ne, ok := err.(net.Error); ok && ne.Timeout() {
			return "no greeting", err
		}
		return "", err
	}
	var body string
	if proto == "h2" {
		h, err := vxNewH2(conn)
		if err != nil {
			return "", err
		}
		resp, err := h.get("GET", name, "/")
		if err != nil {
			return "", err
		}
		body = string(resp.Body)
	} else {
		fmt.Fprintf(conn, "GET / HTTP/1.1\r\nHost: %s\r\nConnection: close\r\n\r\n", name)
		for {
			s, err := vxReadLine(conn)
			body = s
			if strings.HasPrefix(s, "up=") {
				break
			}
			if err != nil {
				return "", err
			}
		}
	}
	_, v, _ := strings.Cut(body, "up=")
	v, _, _ = strings.Cut(strings.TrimSpace(v), "\n")
	return v, nil
}

// settle compares what the upstreams saw with what they should have seen.
func (c *c01) settle(id string) {
	check := func(name string, n int, exact bool) {
		want := c.tcpN[name]
		if n != want {
			c.r.Violation("stray-connection", "%s: upstream %s received %d connections or requests, expected %d", id, name, n, want)
		}
	}
	for i := 0; i < c01Up; i++ {
		for _, g := range []*vxGreeter{c.tcp[i], c.pt[i], c.tlsg[i]} {
			check(g.name, g.numConns(), true)
			c.tcpN[g.name] = g.numConns()
		}
		check(c.http[i].name, len(c.http[i].take()), true)
		c.tcpN[c.http[i].name] = 0
	}
}

func (c *c01) install(id string, cfg *Config) bool {
	cfg.CacheDir = c.p.dir
	cfg.MaxOpen = 1000
	cfg.TLSAddr = "127.0.0.1:0"
	cfg.EnableQUIC = vxPtr(false)
	for _, be := range cfg.Backends {
		be.ForwardRateLimit = 1000000
	}
	if err := c.p.Reconfigure(cfg); err != nil {
		c.r.Violation("config-rejected", "%s: %v", id, err)
		return false
	}
	return true
}

func TestVX(t *testing.T) {
	r := vx.Start(t, "C01")
	defer r.Done()
	c := &c01{r: r, tcpN: map[string]int{}}
	vxInit(t)
	tc := vxCM.TLSConfig()
	tc.NextProtos = nil
	for i := 0; i < c01Up; i++ {
		c.tcp[i] = vxNewGreeter(t, fmt.Sprintf("tcp%d", i), nil)
		c.pt[i] = vxNewGreeter(t, fmt.Sprintf("pt%d", i), tc.Clone())
		c.tlsg[i] = vxNewGreeter(t, fmt.Sprintf("tls%d", i), tc.Clone())
		c.http[i] = vxNewUpstream(t, fmt.Sprintf("http%d", i), nil)
		c.root[i] = r.Scratch(fmt.Sprintf("root%d", i))
		vxWrite(t, filepath.Join(c.root[i], "index.html"), fmt.Sprintf("up=local%d\n", i))
	}
	c.p = vxStart(r, &Config{Backends: []*Backend{{ServerNames: []string{"init.example.com"}, Mode: "TCP", Addresses: []string{c.tcp[0].addr}}}})
	defer c.p.vxStop()

	names := [][]string{{"a.example.com"}, {"b.example.com"}, {"a.example.com", "b.example.com"}}
	modes := []string{"TCP", "HTTP", "TLSPASSTHROUGH", "LOCAL"}
	alpns := []int{0, 1, 2, 3, 4, 5, 6, 7}
	if r.Thorough() {
		modes = append(modes, "TLS")
	}
	r.Bound("server names", "2 configured + 1 unknown + none")
	r.Bound("modes", len(modes))
	r.Bound("ALPN sets", len(alpns))
	r.Bound("hello ALPN lists", len(c01Hello))

	// Part A: two backends, all name sets, ALPN sets and modes, in both orders.
	// The names are symmetric: the first backend has a, or both.
	type spec struct{ n, a, m int }
	var specs []spec
	for n := range names {
		for _, a := range alpns {
			for m := range modes {
				specs = append(specs, spec{n, a, m})
			}
		}
	}
	defs := []string{"", "a.example.com", "z.example.com", "b.example.com"}
	nconf := 0
	for i, s1 := range specs {
		if s1.n == 1 {
			continue
		}
		for j, s2 := range specs {
			if !r.Thorough() {
				// One odd mode or ALPN set per pair.
				odd := 0
				for _, s := range []spec{s1, s2} {
					if s.a == 5 || s.a == 7 {
						odd += 2
					}
					if s.a == 6 {
						odd++
					}
					if s.m >= 3 {
						odd++
					}
				}
				if odd > 1 {
					continue
				}
			}
			be1, m1 := c.backend(names[s1.n], s1.a, modes[s1.m], 0)
			be2, m2 := c.backend(names[s2.n], s2.a, modes[s2.m], 1)
			bes := []c01BE{m1, m2}
			if !c01Valid(bes) {
				continue
			}
			nconf++
			id := fmt.Sprintf("pair/%d-%d", i, j)
			if !r.Case(id) {
				continue
			}
			if r.Expired() {
				r.NotExhaustive("time")
				return
			}
			def := defs[nconf%len(defs)]
			if !c.install(id, &Config{DefaultServerName: def, Backends: []*Backend{be1, be2}}) {
				continue
			}
			for _, sni := range []string{"a.example.com", "b.example.com"} {
				for _, h := range c01Hello {
					if !r.Thorough() && len(h) > 1 && (j+len(h)+len(h[0]))%2 == 1 {
						continue
					}
					c.probe(id, bes, def, sni, h)
				}
			}
			for k, h := range c01Hello {
				if r.Thorough() || k%4 == nconf%4 {
					c.probe(id, bes, def, "", h)
					c.probe(id, bes, def, "u.example.com", h)
				}
			}
			for _, sni := range []string{"example.com", "x.a.example.com", "a.example.co"} {
				c.probe(id, bes, def, sni, c01Hello[nconf%len(c01Hello)])
			}
			c.settle(id)
		}
	}
	r.Bound("two-backend configurations", nconf)

	// Part B: three backends of the same name, in groups that share a
	// configuration.
	type grp struct {
		bes [3]spec
	}
	var groups []grp
	bmodes := 3
	var bspecs []spec
	for _, a := range alpns {
		for m := 0; m < bmodes; m++ {
			bspecs = append(bspecs, spec{0, a, m})
		}
	}
	vx.Product([]int{len(bspecs), len(bspecs), len(bspecs)}, func(ix []int) bool {
		g := grp{[3]spec{bspecs[ix[0]], bspecs[ix[1]], bspecs[ix[2]]}}
		var ms []c01BE
		for _, s := range g.bes {
			ms = append(ms, c01BE{names: names[0], alpn: c01ALPN[s.a].protos, mode: modes[s.m]})
		}
		if c01Valid(ms) {
			groups = append(groups, g)
		}
		return true
	})
	r.Bound("three-backend groups", len(groups))
	const per = 24
	for g0 := 0; g0 < len(groups); g0 += per {
		id := fmt.Sprintf("triple/%d", g0)
		if !r.Case(id) {
			continue
		}
		if r.Expired() {
			r.NotExhaustive("time")
			return
		}
		cfg := &Config{}
		var all []c01BE
		var grpNames []string
		for k := g0; k < min(g0+per, len(groups)); k++ {
			n := fmt.Sprintf("g%d.example.com", k-g0)
			grpNames = append(grpNames, n)
			for x, s := range groups[k].bes {
				be, m := c.backend([]string{n}, s.a, modes[s.m], (3*k+x)%c01Up)
				cfg.Backends = append(cfg.Backends, be)
				all = append(all, m)
			}
		}
		cfg.DefaultServerName = grpNames[len(grpNames)/2]
		if !c.install(id, cfg) {
			continue
		}
		for k, n := range grpNames {
			bes := all[3*k : 3*k+3]
			for _, h := range c01Hello {
				c.probe(id, bes, "", n, h)
			}
			if n == cfg.DefaultServerName {
				for _, h := range c01Hello {
					c.probe(id, bes, n, "", h)
				}
			}
		}
		c.settle(id)
	}

	// Part C: spellings of configured names.
	spell := []struct{ conf, sni string }{
		{"bücher.example.com", "xn--bcher-kva.example.com"},
		{"xn--bcher-kva.example.com", "xn--bcher-kva.example.com"},
		{"日本語.example.com", "xn--wgv71a119e.example.com"},
		{"xn--wgv71a119e.example.com", "xn--wgv71a119e.example.com"},
		{"a.bücher.example.com", "a.xn--bcher-kva.example.com"},
		{"faß.example.com", "xn--fa-hia.example.com"},
		{"Bücher.example.com", "xn--bcher-kva.example.com"},
	}
	for i, s := range spell {
		for _, mode := range modes {
			for _, d := range []string{"", "self", "ascii"} {
				id := fmt.Sprintf("spell/%d/%s/%s", i, mode, d)
				if !r.Case(id) {
					continue
				}
				be1, m1 := c.backend([]string{s.conf}, 0, mode, 0)
				m1.names = []string{s.sni}
				be2, m2 := c.backend([]string{"a.example.com"}, 0, mode, 1)
				bes := []c01BE{m2, m1}
				def := map[string]string{"": "", "self": s.conf, "ascii": s.sni}[d]
				edef := ""
				if def != "" {
					edef = s.sni
				}
				if !c.install(id, &Config{DefaultServerName: def, Backends: []*Backend{be2, be1}}) {
					continue
				}
				for _, h := range c01Hello {
					for _, sni := range []string{s.sni, "a.example.com", "", "b.example.com"} {
						c.probe(id, bes, edef, sni, h)
					}
				}
				c.settle(id)
			}
		}
	}
}
