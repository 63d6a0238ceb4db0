package proxy

import (
	"bufio"
	"context"
	"crypto"
	"crypto/ecdsa"
	"crypto/elliptic"
	"crypto/rand"
	"crypto/tls"
	"crypto/x509"
	"encoding/pem"
	"fmt"
	"io"
	"math/big"
	"net"
	"net/http"
	"os"
	"path/filepath"
	"runtime/debug"
	"slices"
	"strings"
	"sync"
	"testing"
	"time"

	"github.com/quic-go/quic-go"
	"github.com/quic-go/quic-go/http3"
	"golang.org/x/net/http2"

	"github.com/c2FmZQ/storage"
	mkc "github.com/c2FmZQ/storage/crypto"

	"github.com/c2FmZQ/tlsproxy/internal/vnet"
	"github.com/c2FmZQ/tlsproxy/internal/vsched"
	"github.com/c2FmZQ/tlsproxy/internal/vx"
	vos "github.com/c2FmZQ/tlsproxy/zzvx/vos"
)

const (
	c29Addr = "10.0.1.1:443"
	c29Up   = "up.example.com"
	c29IDN  = "bücher.example.com"
	c29Puny = "xn--bcher-kva.example.com"
)

// c29Cert is a server's certificate and what it proves.
type c29Cert struct {
	name    string
	tc      *tls.Certificate
	ca      string // the root that its chain ends with, or empty
	names   []string
	ips     []string
	bad     bool // unusable for whatever reason
	keybad  bool // not even the possession of the key
	from    time.Time
	to      time.Time
	revoked bool
}

type c29CA struct {
	key  crypto.Signer
	cert *x509.Certificate
	pem  string
}

var c29Serial = int64(1000)

func c29Make(ca *c29CA, mod func(c *x509.Certificate)) (*x509.Certificate, *ecdsa.PrivateKey) {
	key, err := ecdsa.GenerateKey(elliptic.P256(), rand.Reader)
	if err != nil {
		panic(err)
	}
	c29Serial++
	t := &x509.Certificate{
		SerialNumber: big.NewInt(c29Serial), NotBefore: vxLongAgo, NotAfter: vxFarAway,
		KeyUsage: x509.KeyUsageDigitalSignature, BasicConstraintsValid: true,
		ExtKeyUsage: []x509.ExtKeyUsage{x509.ExtKeyUsageServerAuth},
	}
	mod(t)
	parent, signer := t, crypto.Signer(key)
	if ca != nil {
		parent, signer = ca.cert, ca.key
	}
	b, err := x509.CreateCertificate(rand.Reader, t, parent, key.Public(), signer)
	if err != nil {
		panic(err)
	}
	c, err := x509.ParseCertificate(b)
	if err != nil {
		panic(err)
	}
	return c, key
}

func c29NewCA(ca *c29CA, name string) *c29CA {
	c, key := c29Make(ca, func(c *x509.Certificate) {
		c.Subject.CommonName = name
		c.IsCA, c.ExtKeyUsage = true, nil
		c.KeyUsage = x509.KeyUsageCertSign | x509.KeyUsageDigitalSignature
	})
	return &c29CA{key, c, string(pem.EncodeToMemory(&pem.Block{Type: "CERTIFICATE", Bytes: c.Raw}))}
}

var (
	c29CA1, c29CA2, c29Sys *c29CA
	c29Base                vos.Disk
	c29MK                  mkc.MasterKey
	c29PKI                 []*c29Cert
)

func c29Certs() (out []*c29Cert) {
	add := func(name, ca string, authority *c29CA, names []string, mod func(c *x509.Certificate)) *c29Cert {
		c, key := c29Make(authority, func(c *x509.Certificate) {
			c.DNSNames = names
			if mod != nil {
				mod(c)
			}
		})
		e := &c29Cert{name: name, ca: ca, names: names, tc: &tls.Certificate{Certificate: [][]byte{c.Raw}, PrivateKey: key, Leaf: c}, from: c.NotBefore, to: c.NotAfter}
		for _, ip := range c.IPAddresses {
			e.ips = append(e.ips, ip.String())
		}
		out = append(out, e)
		return e
	}
	up := []string{c29Up}
	add("ca1", "1", c29CA1, up, nil)
	add("ca2", "2", c29CA2, up, nil)
	add("sys", "sys", c29Sys, up, nil)
	add("self", "", nil, up, nil)
	add("other", "1", c29CA1, []string{"other.example.com"}, nil)
	add("both", "1", c29CA1, []string{"other.example.com", c29Up}, nil)
	add("wild", "1", c29CA1, []string{"*.example.com"}, nil)
	add("wild2", "1", c29CA1, []string{"*.up.example.com", "*.com"}, nil)
	add("parent", "1", c29CA1, []string{"example.com", "up.example", "x.up.example.com", "up.example.com.evil.org"}, nil)
	add("idn", "1", c29CA1, []string{c29Puny}, nil)
	add("www", "1", c29CA1, []string{"www.example.com", "b0.example.com"}, nil)
	add("noname", "1", c29CA1, nil, nil)
	add("cn", "1", c29CA1, nil, func(c *x509.Certificate) { c.Subject.CommonName = c29Up })
	add("cn2", "1", c29CA1, []string{"other.example.com"}, func(c *x509.Certificate) { c.Subject.CommonName = c29Up })
	add("ip", "1", c29CA1, nil, func(c *x509.Certificate) { c.IPAddresses = []net.IP{net.ParseIP("10.0.1.1")} })
	add("ip2", "1", c29CA1, nil, func(c *x509.Certificate) { c.IPAddresses = []net.IP{net.ParseIP("10.0.1.2")} })
	add("ipdns", "1", c29CA1, []string{"10.0.1.1"}, nil)
	add("expired", "1", c29CA1, up, func(c *x509.Certificate) { c.NotAfter = vxLongAgo.AddDate(1, 0, -1) })
	add("notyet", "1", c29CA1, up, func(c *x509.Certificate) { c.NotBefore = vxFarAway.AddDate(-1, 0, 0) })
	add("client", "1", c29CA1, up, func(c *x509.Certificate) { c.ExtKeyUsage = []x509.ExtKeyUsage{x509.ExtKeyUsageClientAuth} }).bad = true
	add("any", "1", c29CA1, up, func(c *x509.Certificate) { c.ExtKeyUsage = []x509.ExtKeyUsage{x509.ExtKeyUsageAny} })
	wrong := add("wrongkey", "1", c29CA1, up, nil)
	wrong.keybad = true
	_, k := c29Make(nil, func(*x509.Certificate) {})
	wrong.tc = &tls.Certificate{Certificate: wrong.tc.Certificate, PrivateKey: k}
	int1, int2 := c29NewCA(c29CA1, "int1"), c29NewCA(c29Sys, "int2")
	c := add("int1", "1", int1, up, nil)
	c.tc.Certificate = append(c.tc.Certificate, int1.cert.Raw)
	add("int1-missing", "1", int1, up, nil).bad = true
	c = add("int2", "sys", int2, up, nil)
	c.tc.Certificate = append(c.tc.Certificate, int2.cert.Raw, c29Sys.cert.Raw)
	fake := &c29CA{out[0].tc.PrivateKey.(*ecdsa.PrivateKey), out[0].tc.Leaf, ""}
	c = add("leafca", "", fake, up, nil)
	c.tc.Certificate = append(c.tc.Certificate, fake.cert.Raw)
	same := c29NewCA(nil, c29CA1.cert.Subject.CommonName)
	c = add("samename", "", same, up, nil)
	c.tc.Certificate = append(c.tc.Certificate, same.cert.Raw)
	// The proof of one, and the certificate of another.
	c = add("chain", "1", c29CA1, []string{"evil.example.com"}, nil)
	c.tc.Certificate = append(c.tc.Certificate, out[0].tc.Certificate[0])
	c = add("chain2", "", nil, up, nil)
	c.tc.Certificate = append(c.tc.Certificate, out[0].tc.Certificate[0], c29CA1.cert.Raw)
	return append(out, c29PKI...)
}

// c29Policy is how the upstream is verified.
type c29Policy struct {
	roots []string
	name  string
	skip  bool
}

func (p c29Policy) String() string {
	return fmt.Sprintf("roots %v name %q skip %v", p.roots, p.name, p.skip)
}

func (p c29Policy) rootCAs() (out []string) {
	for _, v := range p.roots {
		switch v {
		case "1":
			out = append(out, c29CA1.pem)
		case "2":
			out = append(out, c29CA2.pem)
		default:
			out = append(out, v)
		}
	}
	return
}

// accepts computes the verdict. It is unknown when any is true.
func (p c29Policy) accepts(c *c29Cert, now time.Time) (ok, any bool) {
	if c.keybad {
		return false, false
	}
	if p.skip {
		if c.revoked {
			return false, !slices.Contains(p.roots, "pki")
		}
		return true, false
	}
	roots := p.roots
	if len(roots) == 0 {
		roots = []string{"sys"}
	}
	if c.bad || c.revoked || !slices.Contains(roots, c.ca) || now.Before(c.from) || now.After(c.to) {
		return false, false
	}
	name := strings.ToLower(p.name)
	switch name {
	case "":
		return false, false
	case c29IDN:
		name = c29Puny
	}
	if net.ParseIP(name) != nil {
		return slices.Contains(c.ips, name), false
	}
	return slices.ContainsFunc(c.names, func(n string) bool {
		if strings.HasPrefix(n, "*.") {
			_, rest, _ := strings.Cut(name, ".")
			return rest == n[2:]
		}
		return n == name
	}), false
}

type c29Conn struct {
	vc   *vnet.VConn
	cert *c29Cert
	at   time.Time // when it was established, with that certificate
	data int
}

type c29World struct {
	r       *vx.R
	x       *vsched.X
	s       *sim
	id      string
	cert    *c29Cert
	version uint16
	mu      sync.Mutex
	conns   []*c29Conn
	quics   []quic.Connection
	revoked bool     // the local authority's
	served  *c29Conn // the connection of the last request
	clients map[string]*simConn
}

func (w *c29World) violation(key, f string, a ...any) {
	w.r.Violation(key, "%s: "+f, append([]any{w.id}, a...)...)
}

type c29Count struct {
	net.Conn
	br *bufio.Reader
}

func (c *c29Count) Read(b []byte) (int, error) { return c.br.Read(b) }

type c29Reader struct {
	net.Conn
	c *c29Conn
}

func (c *c29Reader) Read(b []byte) (int, error) {
	n, err := c.Conn.Read(b)
	if n > 0 {
		c.c.data += n
	}
	return n, err
}

func (w *c29World) upstream(vc *vnet.VConn) {
	defer vc.Close()
	cert := *w.cert
	c := &c29Conn{vc: vc, cert: &cert, at: time.Now()}
	w.mu.Lock()
	w.conns = append(w.conns, c)
	w.mu.Unlock()
	tc := &tls.Config{Certificates: []tls.Certificate{*c.cert.tc}, NextProtos: []string{"h2", "http/1.1"}, MinVersion: w.version, MaxVersion: w.version}
	tconn := tls.Server(vc, tc)
	if tconn.Handshake() != nil {
		return
	}
	rd := &c29Reader{tconn, c}
	conn := &c29Count{rd, bufio.NewReader(rd)}
	if tconn.ConnectionState().NegotiatedProtocol == "h2" {
		(&http2.Server{}).ServeConn(conn, &http2.ServeConnOpts{Handler: http.HandlerFunc(func(rw http.ResponseWriter, req *http.Request) {
			w.served = c
			io.WriteString(rw, "ok")
		})})
		return
	}
	if b, err := conn.br.Peek(4); err != nil {
		return
	} else if string(b) == "raw\n" {
		w.served = c
		io.WriteString(conn, "hi\n")
		return
	}
	for {
		req, err := http.ReadRequest(conn.br)
		if err != nil {
			return
		}
		io.Copy(io.Discard, req.Body)
		w.served = c
		io.WriteString(conn, "HTTP/1.1 200 OK\r\nContent-Length: 2\r\n\r\nok")
	}
}

// upstreamQUIC is the same over QUIC.
func (w *c29World) upstreamQUIC(k quic.Connection) {
	cert := *w.cert
	c := &c29Conn{cert: &cert, at: time.Now()}
	w.mu.Lock()
	w.conns = append(w.conns, c)
	w.quics = append(w.quics, k)
	w.mu.Unlock()
	if k.ConnectionState().TLS.NegotiatedProtocol == "h3" {
		srv := &http3.Server{Handler: http.HandlerFunc(func(rw http.ResponseWriter, req *http.Request) {
			c.data++
			w.served = c
			io.WriteString(rw, "ok")
		})}
		srv.ServeQUICConn(k)
		return
	}
	for {
		st, err := k.AcceptStream(context.Background())
		if err != nil {
			return
		}
		go func() {
			b := make([]byte, 4)
			n, _ := io.ReadFull(st, b)
			c.data += n
			if string(b) == "raw\n" {
				w.served = c
				io.WriteString(st, "hi\n")
			}
			st.Close()
		}()
	}
}

func (w *c29World) all() []*c29Conn {
	w.mu.Lock()
	defer w.mu.Unlock()
	return w.conns[:len(w.conns):len(w.conns)]
}

// hangup closes the upstream's connections.
func (w *c29World) hangup() {
	w.mu.Lock()
	conns, quics := w.conns, w.quics
	w.conns, w.quics = nil, nil
	w.mu.Unlock()
	for _, c := range conns {
		if c.vc != nil {
			c.vc.Close()
		}
	}
	for _, c := range quics {
		c.CloseWithError(0, "bye")
	}
	time.Sleep(100 * time.Millisecond)
}

func (w *c29World) drop() {
	for _, c := range w.clients {
		c.raw.Close()
	}
	w.clients = map[string]*simConn{}
}

func (w *c29World) start(cfg *Config) { w.s = newSim(w.x, cfg) }

// try says whether the client gets an answer from the upstream.
func (w *c29World) try(host, path, mode string) (served bool, why string) {
	w.served = nil
	if mode == "QQUIC" {
		k, err := w.s.quicDial("192.0.2.1", host, []string{"foo"}, nil)
		if err != nil {
			return false, quicErr(err)
		}
		defer k.CloseWithError(0, "bye")
		l, err := quicAsk(k, "raw\n", 3, 10*time.Second)
		return l == "hi\n", quicErr(err)
	}
	if mode == "TLS" || mode == "QUIC" {
		var protos []string
		if mode == "QUIC" {
			protos = []string{"foo"}
		}
		k, err := w.s.dial("client", host, protos, "192.0.2.1:0", nil)
		if err != nil {
			return false, simErr(err)
		}
		defer k.raw.Close()
		fmt.Fprintf(k.tls, "raw\n")
		l, err := bufio.NewReader(k.tls).ReadString('\n')
		if l != "" && l != "hi\n" {
			return false, fmt.Sprintf("%q", l)
		}
		return l == "hi\n", simErr(err)
	}
	k := w.clients[host]
	if k == nil {
		var err error
		if k, err = w.s.dial("client", host, []string{"http/1.1"}, "192.0.2.1:0", nil); err != nil {
			return false, simErr(err)
		}
		w.clients[host] = k
	}
	st, body, err := k.get(host, path)
	if err != nil {
		k.raw.Close()
		delete(w.clients, host)
		return false, simErr(err)
	}
	if st != 200 && st != 502 {
		return false, fmt.Sprintf("status %d", st)
	}
	return st == 200 && body == "ok", fmt.Sprint(st)
}

// accepts is the verdict for a mode: the name of a QUIC server without a
// configured name is its address.
func (w *c29World) accepts(mode string, p c29Policy, c *c29Cert, at time.Time) (ok, any bool) {
	ok, any = p.accepts(c, at)
	if !ok && p.name == "" && (strings.HasSuffix(mode, "QUIC") || strings.HasSuffix(mode, "h3")) {
		p.name = "10.0.1.1"
		k, a := p.accepts(c, at)
		return false, any || k || a
	}
	return ok, any
}

// judge tries, and compares the outcome with the verdict.
func (w *c29World) judge(host, path, mode string, p c29Policy) {
	conns := len(w.all())
	want, any := w.accepts(mode, p, w.cert, time.Now())
	got, why := w.try(host, path, mode)
	w.r.Step(1)
	w.r.Outcome(fmt.Sprintf("%s %v %v", mode, got, why))
	desc := fmt.Sprintf("%s%s %s, %v, upstream's certificate %q, TLS %x (%s)", host, path, mode, p, w.cert.name, w.version, why)
	if strings.Contains(why, "HANG") || strings.HasPrefix(why, "status") {
		w.violation("answer", "unexpected answer: %s", desc)
		return
	}
	if want && !got {
		w.violation("refused/"+mode, "an upstream that proved its name is refused: %s", desc)
	}
	if got && w.served == nil {
		w.violation("served/"+mode, "served without the upstream: %s", desc)
	}
	if w.served != nil {
		// Perhaps over an older connection, with another certificate.
		if ok, any := w.accepts(mode, p, w.served.cert, w.served.at); !ok && !any {
			w.violation("served/"+mode, "data is sent to an upstream that didn't prove its name: %s, the connection's certificate %q", desc, w.served.cert.name)
		}
	}
	for _, c := range w.all()[conns:] {
		if !want && !any && c.data > 0 {
			w.violation("leak/"+mode, "refused, but data was sent to the upstream: %s (%d bytes, connection of %v, now %v, %d connections)", desc, c.data, c.at, time.Now(), len(w.all()))
		}
	}
}

func c29Bubble(r *vx.R, id string, version uint16, cfg func() *Config, f func(w *c29World)) {
	vsched.Bubble(r, id, func(x *vsched.X) {
		if c29Base != nil {
			vos.Restore(c29Base)
		} else {
			vos.Reset()
		}
		time.Sleep(time.Hour + 250*time.Millisecond)
		store, mk := simStuff.store, simStuff.mk
		defer func() { simStuff.store, simStuff.mk = store, mk }()
		simStuff.store, simStuff.mk = storage.New("/cache", c29MK), c29MK
		w := &c29World{r: r, x: x, id: id, version: version, clients: map[string]*simConn{}}
		w.start(cfg())
		w.s.upstream(c29Addr, w.upstream)
		w.s.quicUpstream(c29Addr, &tls.Config{NextProtos: []string{"h3", "foo"}, GetCertificate: func(*tls.ClientHelloInfo) (*tls.Certificate, error) { return w.cert.tc, nil }}, simQUIC, w.upstreamQUIC)
		f(w)
		if w.s.panicked() {
			w.violation("panic", "the proxy panicked")
		}
	})
}

func c29Config(bes ...*Backend) *Config {
	cfg := simCfg(append(bes, &Backend{ServerNames: []string{"ca.example.com"}, Mode: "LOCAL"})...)
	cfg.EnableQUIC = vxPtr(slices.ContainsFunc(bes, func(be *Backend) bool {
		h3 := func(s *string) bool { return s != nil && *s == "h3" }
		return be.Mode == "QUIC" || h3(be.BackendProto) || slices.ContainsFunc(be.PathOverrides, func(po *PathOverride) bool { return h3(po.BackendProto) })
	}))
	cfg.PKI = []*ConfigPKI{{Name: "pki", Endpoint: "https://ca.example.com/certs"}}
	return cfg
}

func c29Name(i int) string { return fmt.Sprintf("b%d.example.com", i) }

func c29Backend(name, mode string, p c29Policy) *Backend {
	be := &Backend{ServerNames: []string{name}, Mode: mode, Addresses: []string{c29Addr}}
	switch mode {
	case "h2":
		be.Mode, be.BackendProto = "HTTPS", vxPtr("h2")
	case "HTTPS":
		be.BackendProto = vxPtr("http/1.1")
	case "TLS":
		be.ALPNProtos = &[]string{}
	case "QUIC", "QQUIC":
		be.Mode = "QUIC"
		be.ALPNProtos = &[]string{"foo"}
	case "h3":
		be.Mode, be.BackendProto = "HTTPS", vxPtr("h3")
	}
	be.ForwardRootCAs, be.ForwardServerName, be.InsecureSkipVerify = p.rootCAs(), p.name, p.skip
	return be
}

func c29Override(path string, kind string, p c29Policy) *PathOverride {
	po := &PathOverride{
		Paths: []string{path}, Addresses: []string{c29Addr}, Mode: "HTTPS", BackendProto: vxPtr("http/1.1"),
		ForwardRootCAs: p.rootCAs(), ForwardServerName: p.name, InsecureSkipVerify: p.skip,
	}
	switch kind {
	case "override/h2", "h2":
		po.BackendProto = vxPtr("h2")
	case "override/h3", "h3":
		po.BackendProto = vxPtr("h3")
	}
	return po
}

func TestVX(t *testing.T) {
	r := vx.Start(t, "C29")
	defer r.Done()
	// The system's authorities.
	c29Sys = c29NewCA(nil, "system")
	dir := r.Scratch("roots")
	os.MkdirAll(filepath.Join(dir, "certs"), 0o755)
	if err := os.WriteFile(filepath.Join(dir, "sys.pem"), []byte(c29Sys.pem), 0o644); err != nil {
		t.Fatal(err)
	}
	os.Setenv("SSL_CERT_FILE", filepath.Join(dir, "sys.pem"))
	os.Setenv("SSL_CERT_DIR", filepath.Join(dir, "certs"))
	c29CA1, c29CA2 = c29NewCA(nil, "ca1"), c29NewCA(nil, "ca2")

	var policies []c29Policy
	for _, roots := range [][]string{nil, {"1"}, {"2"}, {"pki"}, {"1", "pki"}, {"2", "1"}} {
		for _, name := range []string{c29Up, "", "other.example.com", "10.0.1.1", c29IDN, "UP.example.com"} {
			for _, skip := range []bool{false, true} {
				policies = append(policies, c29Policy{roots, name, skip})
			}
		}
	}
	names := []string{"ca.example.com", "www.example.com", "two.example.com"}
	for i := range policies {
		names = append(names, c29Name(i))
	}
	simInit(r, names...)
	vos.Reset()
	debug.SetGCPercent(2000)
	debug.SetMemoryLimit(1 << 30)
	var err error
	if c29MK, err = mkc.CreateAESMasterKeyForTest(); err != nil {
		t.Fatal(err)
	}
	r.InGroup("init")
	vsched.Bubble(r, "init", func(x *vsched.X) {
		time.Sleep(time.Hour)
		store, mk := simStuff.store, simStuff.mk
		defer func() { simStuff.store, simStuff.mk = store, mk }()
		simStuff.store, simStuff.mk = storage.New("/cache", c29MK), c29MK
		s := newSim(x, c29Config())
		for _, n := range []string{"pki", "pki-other", "pki-revoked"} {
			name := c29Up
			if n == "pki-other" {
				name = "other.example.com"
			}
			key, _ := ecdsa.GenerateKey(elliptic.P256(), rand.Reader)
			der, err := x509.CreateCertificateRequest(rand.Reader, &x509.CertificateRequest{DNSNames: []string{name}}, key)
			if err != nil {
				t.Fatal(err)
			}
			csr, _ := x509.ParseCertificateRequest(der)
			raw, err := s.p.pkis["pki"].IssueCertificate(csr)
			if err != nil {
				t.Fatal(err)
			}
			c, _ := x509.ParseCertificate(raw)
			c29PKI = append(c29PKI, &c29Cert{name: n, ca: "pki", names: []string{name}, tc: &tls.Certificate{Certificate: [][]byte{raw}, PrivateKey: key, Leaf: c}, from: c.NotBefore, to: c.NotAfter})
		}
		if err := s.p.pkis["pki"].RevokeCertificate(c29PKI[2].tc.Leaf.SerialNumber, 1); err != nil {
			t.Fatal(err)
		}
		c29PKI[2].revoked = true
	})
	c29Base = vos.Snapshot()
	certs := c29Certs()
	r.Bound("policies, certificates", fmt.Sprint(len(policies), len(certs)))
	n := 0
	for _, version := range []uint16{tls.VersionTLS12, tls.VersionTLS13} {
		for _, c := range certs {
			for _, kind := range []string{"HTTPS", "h2", "TLS", "override/skip", "override/strict", "override/http", "override/h2", "QUIC", "QQUIC", "h3", "override/h3"} {
				if version != tls.VersionTLS13 && (strings.HasSuffix(kind, "QUIC") || strings.HasSuffix(kind, "h3")) {
					continue
				}
				pre := fmt.Sprintf("matrix/%s/%s/%x", c.name, kind, version)
				n++
				if !r.Group(n, pre+"/") {
					continue
				}
				c29Bubble(r, pre, version, func() *Config {
					var bes []*Backend
					switch kind {
					case "HTTPS", "h2", "TLS", "QUIC", "QQUIC", "h3":
						for i, p := range policies {
							bes = append(bes, c29Backend(c29Name(i), kind, p))
						}
					default:
						parent := c29Backend("www.example.com", "HTTPS", c29Policy{[]string{"2"}, "nothing.example.com", kind != "override/strict"})
						if kind == "override/http" {
							parent = c29Backend("www.example.com", "HTTP", c29Policy{[]string{"1"}, c29Up, false})
						}
						for i, p := range policies {
							parent.PathOverrides = append(parent.PathOverrides, c29Override(fmt.Sprintf("/p%d/", i), kind, p))
						}
						bes = append(bes, parent)
					}
					return c29Config(bes...)
				}, func(w *c29World) {
					w.cert = c
					for i, p := range policies {
						w.id = fmt.Sprintf("%s/%d", pre, i)
						if !r.InGroup(w.id) {
							continue
						}
						r.Exec()
						host, path := c29Name(i), "/"
						mode := kind
						if strings.HasPrefix(kind, "override") {
							host, path = "www.example.com", fmt.Sprintf("/p%d/x", i)
						}
						w.judge(host, path, mode, p)
						w.hangup()
					}
				})
			}
		}
	}
	c29Histories(r, certs)
}

// c29Histories is about connections that could be reused.
func c29Histories(r *vx.R, certs []*c29Cert) {
	cert := func(name string) *c29Cert {
		for _, c := range certs {
			if c.name == name {
				return c
			}
		}
		panic(name)
	}
	a := c29Policy{[]string{"1", "pki"}, c29Up, false}
	b := c29Policy{[]string{"2"}, c29Up, false}
	other := c29Policy{[]string{"1"}, "other.example.com", false}
	skip := c29Policy{[]string{"2"}, c29Up, true}
	type target struct {
		host, path string
		p          c29Policy
	}
	targets := func(swapped bool) []target {
		pa, pb, pc := a, b, skip
		if swapped {
			pa, pb, pc = b, skip, a
		}
		return []target{
			{"www.example.com", "/", pa},
			{"www.example.com", "/b/", pb},
			{"www.example.com", "/s/", pc},
			{"www.example.com", "/o/", other},
			{"two.example.com", "/", pb},
		}
	}
	max := r.Pick(3, 4)
	r.Bound("history length", max)
	for _, mode := range []string{"HTTPS", "h2", "h3"} {
		for _, version := range []uint16{tls.VersionTLS13} {
			config := func(swapped bool) *Config {
				t := targets(swapped)
				www := c29Backend("www.example.com", mode, t[0].p)
				for _, v := range t[1:4] {
					www.PathOverrides = append(www.PathOverrides, c29Override(v.path, mode, v.p))
				}
				return c29Config(www, c29Backend("two.example.com", mode, t[4].p))
			}
			type op struct {
				name string
				f    func(w *c29World, swapped *bool)
			}
			reload := func(w *c29World, swapped bool) {
				if err := w.s.p.Reconfigure(config(swapped)); err != nil {
					w.violation("reload", "%v", err)
				}
				time.Sleep(time.Second)
				w.drop()
			}
			var ops []op
			for i, t := range targets(false) {
				ops = append(ops, op{fmt.Sprintf("get%d", i), func(w *c29World, swapped *bool) {
					w.judge(t.host, t.path, mode, targets(*swapped)[i].p)
				}})
			}
			for _, n := range []string{"ca1", "ca2", "both", "self", "pki"} {
				ops = append(ops, op{n, func(w *c29World, swapped *bool) {
					w.cert = cert(n)
					if n == "pki" {
						c := *w.cert
						c.revoked = w.revoked
						w.cert = &c
					}
				}})
			}
			ops = append(ops, op{"swap", func(w *c29World, swapped *bool) {
				*swapped = !*swapped
				reload(w, *swapped)
			}}, op{"revoke", func(w *c29World, swapped *bool) {
				c := cert("pki")
				if !w.revoked {
					w.s.p.pkis["pki"].RevokeCertificate(c.tc.Leaf.SerialNumber, 1)
				}
				w.revoked = true
				if w.cert.name == c.name {
					w.cert.revoked = true
				}
			}}, op{"wait", func(w *c29World, swapped *bool) { time.Sleep(11 * time.Second) }})
			vx.Sequences(len(ops), 1, max, func(seq []int) bool {
				var names []string
				for _, o := range seq {
					names = append(names, ops[o].name)
				}
				id := fmt.Sprintf("history/%s/%x/%s", mode, version, strings.Join(names, ","))
				if !r.Case(id) {
					return true
				}
				r.Exec()
				swapped := false
				c29Bubble(r, id, version, func() *Config { return config(false) }, func(w *c29World) {
					w.cert = cert("ca1")
					for _, o := range seq {
						ops[o].f(w, &swapped)
						r.Step(1)
					}
					for i, t := range targets(swapped) {
						w.judge(t.host, t.path, mode, targets(swapped)[i].p)
					}
				})
				return !r.Expired()
			})
		}
	}
}
