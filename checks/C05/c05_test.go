package proxy

import (
	"crypto/tls"
	"crypto/x509"
	"crypto/x509/pkix"
	"fmt"
	"io"
	"net/http"
	"strings"
	"testing"
	"testing/synctest"
	"time"

	"github.com/c2FmZQ/tlsproxy/internal/vnet"
	"github.com/c2FmZQ/tlsproxy/internal/vsched"
	"github.com/c2FmZQ/tlsproxy/internal/vx"
)

const c05Name = "www.example.com"

// c05Policy is what a configuration says about the name.
type c05Policy struct {
	id    string
	gone  bool
	mode  string // default TCP
	deny  bool
	allow string // "", me, other
	ca    int    // 0: no client auth
	acl   string // "", alice, bob, empty
	proto string
}

var c05Policies = []c05Policy{
	{id: "open"},
	{id: "gone", gone: true},
	{id: "deny", deny: true},
	{id: "allowme", allow: "me"},
	{id: "allowother", allow: "other"},
	{id: "ca1", ca: 1},
	{id: "ca1alice", ca: 1, acl: "alice"},
	{id: "ca1bob", ca: 1, acl: "bob"},
	{id: "ca1nobody", ca: 1, acl: "empty"},
	{id: "ca2", ca: 2},
	{id: "ca2alice", ca: 2, acl: "alice"},
	{id: "http", mode: ModeHTTP},
	{id: "httpca1alice", mode: ModeHTTP, ca: 1, acl: "alice"},
	{id: "httpca1bob", mode: ModeHTTP, ca: 1, acl: "bob"},
	{id: "httpdeny", mode: ModeHTTP, deny: true},
	{id: "pass", mode: ModeTLSPassthrough},
	{id: "passdeny", mode: ModeTLSPassthrough, deny: true},
}

var (
	c05CA2   *vxCertManager
	c05Certs = map[string]*tls.Certificate{}
)

func (po c05Policy) m() string {
	if po.mode == "" {
		return ModeTCP
	}
	return po.mode
}

func (po c05Policy) backend() *Backend {
	be := simHTTPBackend(c05Name, po.m(), "10.0.0.1:80")
	if po.m() == ModeHTTP {
		be.Addresses = []string{"10.0.0.2:80"}
	}
	if po.m() == ModeTLSPassthrough {
		be.Addresses = []string{"10.0.0.3:443"}
	}
	if po.deny {
		be.DenyIPs = &[]string{"127.0.0.1/32"}
	}
	switch po.allow {
	case "me":
		be.AllowIPs = &[]string{"127.0.0.1/32"}
	case "other":
		be.AllowIPs = &[]string{"192.168.0.0/16"}
	}
	if po.ca > 0 {
		be.ClientAuth = &ClientAuth{RootCAs: []string{vxCM.RootCAPEM()}}
		if po.ca == 2 {
			be.ClientAuth.RootCAs = []string{c05CA2.RootCAPEM()}
		}
		switch po.acl {
		case "alice":
			be.ClientAuth.ACL = &[]string{"SUBJECT:CN=alice", "EMAIL:someone@example.com"}
		case "bob":
			be.ClientAuth.ACL = &[]string{"SUBJECT:CN=bob"}
		case "empty":
			be.ClientAuth.ACL = &[]string{}
		}
	}
	return be
}

func (po c05Policy) config() *Config {
	other := simHTTPBackend("other.example.com", ModeTCP, "10.0.0.1:80")
	if po.gone {
		return simCfg(other)
	}
	return simCfg(po.backend(), other)
}

// admits is the reference: would this configuration admit a connection with
// this certificate ("", alice, alice2 (from the other CA))?
func (po c05Policy) admits(cert string) bool {
	if po.gone || po.deny || po.allow == "other" {
		return false
	}
	if po.ca == 0 {
		return true
	}
	if cert == "" || cert == "alice" && po.ca != 1 || cert == "alice2" && po.ca != 2 {
		return false
	}
	return po.acl == "" || po.acl == "alice"
}

type c05Client struct {
	s    *sim
	c    *simConn
	mode string
	tc   *tls.Config
	hs   error
}

func c05Setup(x *vsched.X, old c05Policy) *sim {
	s := newSim(x, old.config())
	echo := func(c *vnet.VConn) {
		io.Copy(c, c)
		c.Close()
	}
	s.upstream("10.0.0.1:80", echo)
	s.httpUpstream("10.0.0.2:80", http.HandlerFunc(func(w http.ResponseWriter, req *http.Request) {
		io.WriteString(w, "start")
		w.(http.Flusher).Flush()
		if req.URL.Path == "/slow" {
			select {
			case <-time.After(time.Minute):
			case <-req.Context().Done():
				return
			}
		}
		io.WriteString(w, "end")
	}))
	tcert, err := vxCM.GetCert(c05Name)
	if err != nil {
		panic(err)
	}
	s.upstream("10.0.0.3:443", func(c *vnet.VConn) {
		echo2 := tls.Server(c, &tls.Config{Certificates: []tls.Certificate{*tcert}})
		io.Copy(echo2, echo2)
		c.Close()
	})
	return s
}

func c05TLS(cert, mode string) *tls.Config {
	tc := simTLSConfig(c05Name, nil, nil)
	if cert != "" {
		c := c05Certs[cert]
		tc.GetClientCertificate = func(*tls.CertificateRequestInfo) (*tls.Certificate, error) { return c, nil }
	}
	return tc
}

// works says whether the connection is usable.
func (c *c05Client) works() bool {
	if c.c == nil || c.c.tls == nil || c.hs != nil {
		return false
	}
	c.c.raw.SetDeadline(time.Now().Add(simPatience))
	if c.mode == ModeHTTP {
		st, b, err := c.c.get(c05Name, "/")
		return err == nil && st == 200 && b == "startend"
	}
	if _, err := io.WriteString(c.c.tls, "ping"); err != nil {
		return false
	}
	b := make([]byte, 4)
	_, err := io.ReadFull(c.c.br, b)
	return err == nil && string(b) == "ping"
}

// Where the connection is when the configuration changes.
var c05Phases = []string{"tcp", "partial", "hello", "established", "used", "busy"}

func c05Case(r *vx.R, x *vsched.X, old, next c05Policy, cert, phase string) {
	s := c05Setup(x, old)
	cl := &c05Client{s: s, mode: old.m(), tc: c05TLS(cert, old.m())}
	c, err := s.raw("c", "")
	if err != nil {
		panic(err)
	}
	cl.c = c
	r.Exec()
	settle := func() { time.Sleep(10 * time.Millisecond); synctest.Wait() }
	slow := make(chan string, 1)
	// hold stops what the client sends after n bytes.
	var release func()
	hold := func(n int) {
		gate := make(chan struct{})
		release = func() { close(gate) }
		c.raw.Gate(n, gate)
		done := make(chan struct{})
		go func() { cl.hs = c.handshake(cl.tc); close(done) }()
		settle()
		r1 := release
		release = func() {
			r1()
			<-done
		}
	}
	switch phase {
	case "tcp":
		release = func() { cl.hs = c.handshake(cl.tc) }
	case "partial":
		hold(20)
	case "hello":
		// The hello is sent, but not the client's last message.
		hold(-1)
	default:
		cl.hs = c.handshake(cl.tc)
		if cl.hs == nil && phase != "established" {
			cl.works()
		}
		if cl.hs == nil && phase == "busy" && cl.mode == ModeHTTP {
			go func() {
				_, b, err := c.get(c05Name, "/slow")
				slow <- b + " " + simErr(err)
			}()
			settle()
		}
	}
	settle()
	before := !c.closed()
	if err := s.p.Reconfigure(next.config()); err != nil {
		panic(err)
	}
	settle()
	if old.ca == 0 && cert != "" && !next.admits("") {
		// see below
	} else if !c.closed() && phase != "tcp" && phase != "partial" && phase != "hello" && old.id != next.id && !next.admits(cert) {
		r.Violation("stays:"+phase, "%s: the connection (certificate %q, %s) is still open with the new configuration", x.ID, cert, phase)
	}
	if release != nil {
		release()
		cl.mode = next.m()
		if phase == "hello" && old.m() == ModeHTTP {
			cl.mode = ModeHTTP
		}
	}
	res := ""
	if phase == "busy" && old.m() == ModeHTTP && cl.hs == nil {
		select {
		case res = <-slow:
		case <-time.After(2 * time.Minute):
			res = "HANG"
		}
	} else if cl.works() {
		res = "works"
	}
	if phase != "tcp" && phase != "partial" && old.ca == 0 {
		// The certificate wasn't requested.
		cert = ""
	}
	ok := res == "works" || strings.HasSuffix(res, " ok")
	r.Outcome("%s %v", phase, ok)
	r.State(old.id, next.id, cert, phase, ok)
	if ok && !next.admits(cert) {
		r.Violation("served:"+phase, "%s: the connection (certificate %q, %s) is served with the new configuration that doesn't admit it", x.ID, cert, phase)
	}
	want := next.admits(cert) && next.m() == old.m()
	switch phase {
	case "tcp", "partial":
		want = next.admits(cert)
	case "hello":
		want = want && old.admits(cert) && old.m() != ModeHTTP
	default:
		want = want && old.admits(cert)
		if phase != "busy" && old.m() == ModeHTTP {
			// Idle HTTP connections are closed.
			want = false
		}
	}
	if want && !ok {
		r.Violation("closed:"+phase, "%s: the connection (certificate %q, %s, open before: %v) doesn't work anymore with the new configuration that admits it: %v %q", x.ID, cert, phase, before, cl.hs, res)
	}
	if s.panicked() {
		r.Violation("panic", "%s: the proxy recovered from a panic", x.ID)
	}
}

func TestVX(t *testing.T) {
	r := vx.Start(t, "C05")
	defer r.Done()
	simInit(r, c05Name, "other.example.com")
	c05CA2 = vxNewCertManager("other-ca.example.com")
	cert := func(cm *vxCertManager) *tls.Certificate {
		return cm.issue("alice", func(c *x509.Certificate) {
			c.Subject = pkix.Name{CommonName: "alice"}
			c.ExtKeyUsage = []x509.ExtKeyUsage{x509.ExtKeyUsageClientAuth}
		})
	}
	c05Certs["alice"] = cert(vxCM)
	c05Certs["alice2"] = cert(c05CA2)

	// Every phase, without concurrency.
	for _, old := range c05Policies {
		for _, next := range c05Policies {
			for _, ct := range []string{"", "alice", "alice2"} {
				for _, ph := range c05Phases {
					if old.m() != ModeHTTP && ph == "busy" || old.m() == ModeTLSPassthrough && ph == "hello" {
						continue
					}
					if !old.admits(ct) && ph != "tcp" && ph != "partial" {
						continue
					}
					id := fmt.Sprintf("seq/%s/%s/%s/%s", old.id, next.id, ct, ph)
					if r.Case(id) {
						vsched.Bubble(r, id, func(x *vsched.X) { c05Case(r, x, old, next, ct, ph) })
					}
				}
			}
		}
	}

	// The change takes place while the connection is set up.
	dev := r.Pick(2, 3)
	r.Bound("deviations from the default schedule", dev)
	byID := map[string]c05Policy{}
	for _, po := range c05Policies {
		byID[po.id] = po
	}
	for _, tr := range []string{
		"open deny ", "open gone ", "open ca1alice ", "open ca1bob alice", "ca1alice ca1bob alice", "ca1alice ca2alice alice", "ca1 ca1nobody alice",
		"ca1bob ca1alice alice", "open open ", "ca1alice ca1alice alice", "allowme allowother ", "http httpca1alice ", "http httpdeny ", "httpca1alice httpca1bob alice", "pass passdeny ", "open http ",
	} {
		f := strings.Split(tr, " ")
		old, next, ct := byID[f[0]], byID[f[1]], f[2]
		scn := "conc-" + strings.Join(f, "-")
		vsched.Explore(r, scn, vsched.Opts{Deviations: dev, Filter: simFilter}, func(x *vsched.X) func() {
			s := c05Setup(x, old)
			cl := &c05Client{s: s, mode: old.m(), tc: c05TLS(ct, old.m())}
			first := false
			x.Go("client", func() {
				c, err := s.raw("c", "")
				if err != nil {
					return
				}
				cl.c = c
				cl.hs = c.handshake(cl.tc)
				x.Yield("established")
				first = cl.works()
			})
			x.Go("reload", func() {
				cfg := next.config()
				if old.id == next.id {
					cfg.Backends[0].ForwardRateLimit = 999
				}
				s.p.Reconfigure(cfg)
			})
			return func() {
				time.Sleep(10 * time.Millisecond)
				open := cl.c != nil && !cl.c.closed()
				works := cl.works()
				r.Outcome("%s: first %v, after %v", scn, first, works)
				if len(x.Stuck)+len(x.Blocked) > 0 {
					r.Violation("stuck", "%s: %v %v", x.ID, x.Stuck, x.Blocked)
				}
				if s.panicked() {
					r.Violation("panic", "%s: the proxy recovered from a panic", x.ID)
				}
				if works && !next.admits(ct) {
					r.Violation("served:conc", "%s: the connection (certificate %q) is served with the new configuration that doesn't admit it", x.ID, ct)
				} else if open && !works && !next.admits(ct) {
					r.Violation("stays:conc", "%s: the connection (certificate %q) is still open with the new configuration that doesn't admit it", x.ID, ct)
				}
				if !works && next.admits(ct) && old.admits(ct) && old.m() != ModeHTTP && next.m() == old.m() {
					r.Violation("closed:conc", "%s: the connection (certificate %q) that both configurations admit doesn't work: %v", x.ID, ct, cl.hs)
				}
			}
		})
	}
}
