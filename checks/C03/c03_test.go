package proxy

import (
	"context"
	"crypto/tls"
	"fmt"
	"io"
	"net"
	"net/http"
	"net/netip"
	"os"
	"strings"
	"testing"
	"time"

	"github.com/quic-go/quic-go"

	"github.com/c2FmZQ/tlsproxy/internal/vnet"
	"github.com/c2FmZQ/tlsproxy/internal/vsched"
	"github.com/c2FmZQ/tlsproxy/internal/vx"
)

const (
	c03Name  = "www.example.com"
	c03Other = "other.example.com"
)

var c03Rules = []string{
	"10.1.2.3/32", "10.1.2.2/31", "10.1.2.0/24", "10.0.0.0/8", "0.0.0.0/0", "192.168.7.9/16",
	"::ffff:10.1.2.3/128", "::ffff:10.1.2.0/120",
	"2001:db8::1/128", "2001:db8::/64", "::/0", "fe80::/10",
}

var c03Addrs = []string{
	"10.1.2.3", "10.1.2.2", "10.1.2.4", "10.1.3.3", "11.1.2.3", "192.168.0.1", "192.169.0.1", "127.0.0.1", "0.0.0.0", "255.255.255.255",
	"2001:db8::1", "2001:db8::2", "2001:db8:0:1::1", "fe80::1", "::1", "::", "2002:0a01:0203::1",
}

// c03Match is the reference: IPv4-mapped addresses are IPv4 addresses.
func c03Match(rules []string, addr string) bool {
	a := netip.MustParseAddr(addr).Unmap()
	for _, s := range rules {
		p := netip.MustParsePrefix(s)
		if p.Addr().Is4In6() && p.Bits() >= 96 {
			p = netip.PrefixFrom(p.Addr().Unmap(), p.Bits()-96)
		}
		if p.Masked().Contains(a) {
			return true
		}
	}
	return false
}

func c03Admit(allow, deny *[]string, addr string) bool {
	if deny != nil && c03Match(*deny, addr) {
		return false
	}
	return allow == nil || c03Match(*allow, addr)
}

func c03List(l *[]string) string {
	if l == nil {
		return "none"
	}
	return "[" + strings.Join(*l, " ") + "]"
}

// c03Lists returns the rule lists with up to n rules, in every order.
func c03Lists(pool []string, n int) []*[]string {
	out := []*[]string{nil, {}}
	var rec func(cur []string)
	rec = func(cur []string) {
		if len(cur) > 0 {
			c := append([]string(nil), cur...)
			out = append(out, &c)
		}
		if len(cur) == n {
			return
		}
	next:
		for _, p := range pool {
			for _, c := range cur {
				if c == p {
					continue next
				}
			}
			rec(append(cur, p))
		}
	}
	rec(nil)
	return out
}

// c03Direct compares the decision with the reference for every pair of lists.
func c03Direct(r *vx.R) {
	lists := c03Lists(c03Rules, r.Pick(2, 3))
	short := c03Lists(c03Rules, 1)
	if r.Pick(0, 1) == 1 {
		short = c03Lists(c03Rules, 2)
	}
	r.Bound("rule lists", len(lists))
	type form struct {
		desc string
		addr net.Addr
	}
	forms := map[string][]form{}
	for _, a := range c03Addrs {
		ip := net.ParseIP(a)
		fs := []form{{"tcp", &net.TCPAddr{IP: ip, Port: 1}}, {"udp", &net.UDPAddr{IP: ip, Port: 1}}}
		if v4 := ip.To4(); v4 != nil {
			fs = append(fs, form{"tcp4", &net.TCPAddr{IP: v4, Port: 1}}, form{"udp4", &net.UDPAddr{IP: v4, Port: 1}})
		} else {
			fs = append(fs, form{"zone", &net.TCPAddr{IP: ip, Port: 1, Zone: "eth0"}})
		}
		forms[a] = fs
	}
	one := func(allow, deny *[]string) {
		id := "rules/" + c03List(allow) + "/" + c03List(deny)
		if !r.Case(id) {
			return
		}
		be := &Backend{ServerNames: []string{c03Name}, Mode: ModeTCP, Addresses: []string{"127.0.0.1:1"}, AllowIPs: allow, DenyIPs: deny}
		cfg := &Config{CacheDir: simStuff.dir, Backends: []*Backend{be}}
		if err := cfg.Check(); err != nil {
			r.Violation("rejected", "%s: %v", id, err)
			return
		}
		r.State("%s", id)
		for _, a := range c03Addrs {
			want := c03Admit(allow, deny, a)
			for _, f := range forms[a] {
				r.Exec()
				got := be.checkIP(f.addr) == nil
				if got != want {
					r.Violation(fmt.Sprintf("decision:%v", got), "%s: allow=%s deny=%s client=%s (%s): admitted=%v, want %v", id, c03List(allow), c03List(deny), a, f.desc, got, want)
				}
				r.Outcome("decision %v", got)
			}
		}
	}
	for _, a := range lists {
		for _, d := range short {
			one(a, d)
			one(d, a)
		}
	}
}

// c03Serve says what a client gets.
func c03Serve(x *vsched.X, s *sim, mode string, sni string, protos []string, from, header string) (served string, err error) {
	c, err := s.raw("c", from)
	if err != nil {
		return "", err
	}
	defer c.raw.Close()
	if header != "" {
		c.raw.Write([]byte(header))
	}
	tc := simTLSConfig(sni, protos, nil)
	if sni == "" {
		tc.InsecureSkipVerify = true
	}
	if err := c.handshake(tc); err != nil {
		return "", err
	}
	switch mode {
	case ModeTCP, ModeTLS, ModeTLSPassthrough:
		c.tls.SetReadDeadline(time.Now().Add(10 * time.Second))
		b := make([]byte, 2)
		if _, err := io.ReadFull(c.tls, b); err != nil {
			return "", err
		}
		return string(b), nil
	}
	host := sni
	if host == "" {
		host = c03Name
	}
	code, body, err := c.get(host, "/file.txt")
	if err != nil {
		return "", err
	}
	return fmt.Sprintf("%d %s", code, body), nil
}

// c03ServeQUIC is the same over QUIC.
func c03ServeQUIC(s *sim, mode string, sni string, from string) (served string, err error) {
	proto := "h3"
	switch mode {
	case ModeTCP, ModeTLS, ModeQUIC:
		proto = "foo"
	}
	c, err := s.quicDial(from, sni, []string{proto}, nil)
	if err != nil {
		return "", err
	}
	defer c.CloseWithError(0, "bye")
	if proto == "foo" {
		return quicAsk(c, "hi", 2, 10*time.Second)
	}
	code, body, err := simH3Get(c, c03Name, "/file.txt")
	if err != nil {
		return "", err
	}
	return fmt.Sprintf("%d %s", code, body), nil
}

var c03Modes = []string{ModeTCP, ModeTLS, ModeTLSPassthrough, ModeHTTP, ModeHTTPS, "STATIC", ModeLocal, ModeConsole}

type c03Ups struct{ n int }

func c03Backend(mode, name, addr string) *Backend {
	be := &Backend{ServerNames: []string{name}, Mode: mode, Addresses: []string{addr}, InsecureSkipVerify: true}
	switch mode {
	case "STATIC":
		be.Mode = ModeHTTP
		be.Addresses = nil
		be.DocumentRoot = simStuff.dir + "/root"
	case ModeLocal:
		be.Addresses = nil
		be.DocumentRoot = simStuff.dir + "/root"
	case ModeConsole:
		be.Addresses = nil
	}
	return be
}

func c03Upstream(s *sim, mode, addr, greeting string, ups *c03Ups) {
	cert := &tls.Config{GetCertificate: func(h *tls.ClientHelloInfo) (*tls.Certificate, error) { return vxCM.GetCert(h.ServerName) }}
	switch mode {
	case ModeTCP, ModeTLS, ModeTLSPassthrough:
		s.upstream(addr, func(c *vnet.VConn) {
			ups.n++
			var conn net.Conn = c
			if mode != ModeTCP {
				conn = tls.Server(c, cert)
			}
			conn.Write([]byte(greeting))
			io.Copy(io.Discard, conn)
			conn.Close()
		})
	case ModeQUIC:
		cert.NextProtos = []string{"foo"}
		s.quicUpstream(addr, cert, simQUIC, func(c quic.Connection) {
			ups.n++
			for {
				st, err := c.AcceptStream(context.Background())
				if err != nil {
					return
				}
				st.Write([]byte(greeting))
				st.Close()
			}
		})
	case ModeHTTP:
		s.httpUpstream(addr, http.HandlerFunc(func(w http.ResponseWriter, req *http.Request) {
			ups.n++
			io.WriteString(w, greeting)
		}))
	case ModeHTTPS:
		l, err := s.x.N.Listen(addr, false)
		if err != nil {
			panic(err)
		}
		srv := &http.Server{Handler: http.HandlerFunc(func(w http.ResponseWriter, req *http.Request) {
			ups.n++
			io.WriteString(w, greeting)
		})}
		go srv.Serve(tls.NewListener(l, cert))
		s.x.Cleanup(func() { srv.Close() })
	}
}

func TestVX(t *testing.T) {
	r := vx.Start(t, "C03")
	defer r.Done()
	simInit(r, c03Name, c03Other)
	os.MkdirAll(simStuff.dir+"/root", 0o755)
	os.WriteFile(simStuff.dir+"/root/file.txt", []byte("ok"), 0o644)
	c03Direct(r)

	type rs struct{ allow, deny *[]string }
	l := func(s ...string) *[]string { return &s }
	rules := []rs{
		{nil, nil}, {l(), nil}, {nil, l()}, {l("10.0.0.0/8"), nil}, {nil, l("10.0.0.0/8")}, {l("10.0.0.0/8"), l("10.1.2.3/32")},
		{l("10.1.2.3/32"), l("10.0.0.0/8")}, {l("2001:db8::/64"), nil}, {nil, l("2001:db8::/64")}, {l("0.0.0.0/0"), l("127.0.0.0/8")},
		{l("::ffff:10.1.2.0/120", "2001:db8::1/128"), nil}, {nil, l("::ffff:10.1.2.0/120")}, {l("::/0"), nil}, {nil, l("::/0", "11.0.0.0/8")},
	}
	addrs := []string{"10.1.2.3", "4/10.1.2.3", "10.1.2.4", "11.1.2.3", "4/11.1.2.3", "127.0.0.1", "2001:db8::1", "2001:db8::2", "2001:db9::1"}
	judge := func(x *vsched.X, key, what string, admitted bool, out string, err error, n int, local bool) {
		served := strings.HasPrefix(out, "ok") || strings.HasPrefix(out, "200 ") || local && strings.HasPrefix(out, "404 ")
		switch {
		case !admitted && (out != "" || n > 0):
			r.Violation("serves-denied:"+key, "%s: %s: got %q, the backend was contacted %d times", x.ID, what, out, n)
		case !admitted && simErr(err) != "unrecognized name":
			r.Violation("no-alert:"+key, "%s: %s: refused with %v", x.ID, what, err)
		case admitted && !served:
			r.Violation("refuses-allowed:"+key, "%s: %s: got %q, %v", x.ID, what, out, err)
		}
		r.Outcome("%s: admitted=%v", key, admitted)
	}
	for _, mode := range c03Modes {
		for i, ru := range rules {
			id := fmt.Sprintf("mode/%s/%d", mode, i)
			if !r.Case(id) {
				continue
			}
			vsched.Bubble(r, id, func(x *vsched.X) {
				be := c03Backend(mode, c03Name, "10.9.9.9:99")
				be.AllowIPs, be.DenyIPs = ru.allow, ru.deny
				// Another backend, that admits everybody, on the same proxy.
				cfg := simCfg(be, c03Backend(mode, c03Other, "10.9.9.9:99"))
				cfg.DefaultServerName = c03Name
				cfg.AcceptProxyHeaderFrom = []string{"192.0.2.0/24", "2001:db8:ffff::/48"}
				s := newSim(x, cfg)
				ups := &c03Ups{}
				c03Upstream(s, mode, "10.9.9.9:99", "ok", ups)
				r.State("%s", id)
				protoLists := [][]string{nil, {"http/1.1"}, {"h2", "http/1.1"}}
				for _, a := range addrs {
					ip := strings.TrimPrefix(a, "4/")
					for _, sni := range []string{c03Name, ""} {
						for pi, protos := range protoLists {
							if mode != ModeTCP && mode != ModeTLS && mode != ModeTLSPassthrough && pi != 1 {
								continue
							}
							if sni == "" && mode == ModeTLSPassthrough {
								continue
							}
							r.Exec()
							r.Step(1)
							n0 := ups.n
							out, err := c03Serve(x, s, mode, sni, protos, a, "")
							judge(x, mode, fmt.Sprintf("allow=%s deny=%s client=%s sni=%q", c03List(ru.allow), c03List(ru.deny), a, sni), c03Admit(ru.allow, ru.deny, ip), out, err, ups.n-n0, mode == ModeConsole)
						}
					}
					// The address that a trusted peer announces is the
					// one that counts, and not its own.
					for _, hop := range []string{"192.0.2.7", "4/192.0.2.7", "2001:db8:ffff::7"} {
						fam := "TCP4"
						dst := "192.0.2.1"
						if strings.Contains(ip, ":") {
							fam, dst = "TCP6", "2001:db8::ffff"
						}
						h := fmt.Sprintf("PROXY %s %s %s 1000 443\r\n", fam, ip, dst)
						if strings.HasPrefix(a, "4/") {
							h = fmt.Sprintf("PROXY TCP6 ::ffff:%s ::ffff:%s 1000 443\r\n", ip, dst)
						}
						r.Exec()
						n0 := ups.n
						out, err := c03Serve(x, s, mode, c03Name, []string{"http/1.1"}, hop, h)
						judge(x, mode+" via PROXY", fmt.Sprintf("allow=%s deny=%s header=%q", c03List(ru.allow), c03List(ru.deny), h), c03Admit(ru.allow, ru.deny, ip), out, err, ups.n-n0, mode == ModeConsole)
					}
					r.Exec()
					out, err := c03Serve(x, s, mode, c03Other, []string{"http/1.1"}, a, "")
					judge(x, mode+" other", fmt.Sprintf("client=%s of a backend without rules", a), true, out, err, 0, mode == ModeConsole)
				}
				if s.panicked() {
					r.Violation("panic", "%s: the proxy recovered from a panic", x.ID)
				}
			})
		}
	}
	// The same over QUIC.
	for _, mode := range append([]string{ModeQUIC}, c03Modes...) {
		if mode == ModeTLSPassthrough {
			continue
		}
		for i, ru := range rules {
			id := fmt.Sprintf("quic/%s/%d", mode, i)
			if !r.Case(id) {
				continue
			}
			vsched.Bubble(r, id, func(x *vsched.X) {
				be := c03Backend(mode, c03Name, "10.9.9.9:99")
				be.AllowIPs, be.DenyIPs = ru.allow, ru.deny
				if mode == ModeTCP || mode == ModeTLS || mode == ModeQUIC {
					be.ALPNProtos = l("foo")
				}
				cfg := simCfg(be)
				cfg.EnableQUIC = vxPtr(true)
				cfg.DefaultServerName = c03Name
				s := newSim(x, cfg)
				ups := &c03Ups{}
				c03Upstream(s, mode, "10.9.9.9:99", "ok", ups)
				r.State("%s", id)
				for _, a := range addrs {
					ip := strings.TrimPrefix(a, "4/")
					for _, sni := range []string{c03Name, ""} {
						r.Exec()
						r.Step(1)
						n0 := ups.n
						out, err := c03ServeQUIC(s, mode, sni, a)
						admitted := c03Admit(ru.allow, ru.deny, ip)
						if !admitted && quicErr(err) == "closed access-denied" {
							err = tlsUnrecognizedName
						}
						judge(x, "QUIC "+mode, fmt.Sprintf("allow=%s deny=%s client=%s sni=%q", c03List(ru.allow), c03List(ru.deny), a, sni), admitted, out, err, ups.n-n0, mode == ModeConsole)
					}
				}
				if s.panicked() {
					r.Violation("panic", "%s: the proxy recovered from a panic", x.ID)
				}
			})
		}
	}
	// Two backends with one name: the rules of the one that serves count.
	for _, m1 := range []string{ModeTCP, ModeHTTP} {
		for _, m2 := range []string{ModeTCP, ModeHTTP} {
			for _, closed := range []int{0, 1, 2, 3} {
				id := fmt.Sprintf("two/%s/%s/%d", m1, m2, closed)
				if !r.Case(id) {
					continue
				}
				vsched.Bubble(r, id, func(x *vsched.X) {
					a, b := c03Backend(m1, c03Name, "10.9.9.1:99"), c03Backend(m2, c03Name, "10.9.9.2:99")
					a.ALPNProtos = l("foo", "http/1.1")
					b.ALPNProtos = l("bar")
					if m2 == ModeHTTP {
						b.ALPNProtos = l("h2")
					}
					if closed&1 != 0 {
						a.DenyIPs = l("10.0.0.0/8")
					}
					if closed&2 != 0 {
						b.AllowIPs = l("11.0.0.0/8")
					}
					s := newSim(x, simCfg(a, b))
					ua, ub := &c03Ups{}, &c03Ups{}
					c03Upstream(s, m1, "10.9.9.1:99", "ok", ua)
					c03Upstream(s, m2, "10.9.9.2:99", "ok", ub)
					for _, protos := range [][]string{{"http/1.1"}, {"foo"}, {"bar"}, {"h2"}, {"foo", "bar"}, {"bar", "foo"}, {"h2", "http/1.1"}, {"http/1.1", "h2"}, nil} {
						for _, from := range []string{"10.1.2.3", "11.1.2.3"} {
							r.Exec()
							na, nb := ua.n, ub.n
							c, err := s.dial("c", c03Name, protos, from, nil)
							if err == nil {
								c.raw.SetReadDeadline(time.Now().Add(5 * time.Second))
								fmt.Fprintf(c.tls, "GET / HTTP/1.1\r\nHost: %s\r\n\r\n", c03Name)
								c.tls.Read(make([]byte, 1))
								c.raw.Close()
								time.Sleep(time.Second)
							}
							if from == "10.1.2.3" {
								if closed&1 != 0 && ua.n > na || closed&2 != 0 && ub.n > nb {
									r.Violation("two", "%s: client %s with %v reached a backend that refuses it (%d, %d)", x.ID, from, protos, ua.n-na, ub.n-nb)
								}
							}
							r.Outcome("two: %v reached %v %v", protos, ua.n > na, ub.n > nb)
						}
					}
				})
			}
		}
	}
}
