package proxy

import (
	"bufio"
	"context"
	"crypto"
	"crypto/ecdsa"
	"crypto/elliptic"
	"crypto/rand"
	"crypto/tls"
	"crypto/x509"
	"crypto/x509/pkix"
	"encoding/pem"
	"fmt"
	"io"
	"math/big"
	"net/http"
	"net/url"
	"runtime/debug"
	"slices"
	"strings"
	"testing"
	"time"

	"github.com/c2FmZQ/storage"
	mkc "github.com/c2FmZQ/storage/crypto"
	"github.com/quic-go/quic-go"

	"github.com/c2FmZQ/tlsproxy/internal/vnet"
	"github.com/c2FmZQ/tlsproxy/internal/vsched"
	"github.com/c2FmZQ/tlsproxy/internal/vx"
	vos "github.com/c2FmZQ/tlsproxy/zzvx/vos"
)

// c04Cert is a client's certificate and what it proves.
type c04Cert struct {
	name string
	tc   *tls.Certificate
	ca   string   // the root that its chain ends with, or empty
	ids  []string // its identities, as in access lists
	bad  bool     // unusable for whatever reason
	from time.Time
	to   time.Time
}

type c04CA struct {
	key  crypto.Signer
	cert *x509.Certificate
	pem  string
}

var c04Serial = int64(1000)

func c04Make(ca *c04CA, mod func(c *x509.Certificate)) (*x509.Certificate, *ecdsa.PrivateKey) {
	key, err := ecdsa.GenerateKey(elliptic.P256(), rand.Reader)
	if err != nil {
		panic(err)
	}
	c04Serial++
	t := &x509.Certificate{
		SerialNumber: big.NewInt(c04Serial), NotBefore: vxLongAgo, NotAfter: vxFarAway,
		KeyUsage: x509.KeyUsageDigitalSignature, BasicConstraintsValid: true,
		ExtKeyUsage: []x509.ExtKeyUsage{x509.ExtKeyUsageClientAuth},
	}
	mod(t)
	parent, signer := t, crypto.Signer(key)
	if ca != nil {
		parent, signer = ca.cert, ca.key
	}
	b, err := x509.CreateCertificate(rand.Reader, t, parent, key.Public(), signer)
	if err != nil {
		panic(err)
	}
	c, err := x509.ParseCertificate(b)
	if err != nil {
		panic(err)
	}
	return c, key
}

func c04NewCA(ca *c04CA, name string) *c04CA {
	c, key := c04Make(ca, func(c *x509.Certificate) {
		c.Subject.CommonName = name
		c.IsCA, c.ExtKeyUsage = true, nil
		c.KeyUsage = x509.KeyUsageCertSign | x509.KeyUsageDigitalSignature
	})
	return &c04CA{key, c, string(pem.EncodeToMemory(&pem.Block{Type: "CERTIFICATE", Bytes: c.Raw}))}
}

func c04URL(s string) []*url.URL {
	u, err := url.Parse(s)
	if err != nil {
		panic(err)
	}
	return []*url.URL{u}
}

const (
	c04URI   = "spiffe://example.com/bob"
	c04Email = "bob@example.com"
	c04DNS   = "bob.example.com"
)

var (
	c04CA1, c04CA2 *c04CA
	c04Base        vos.Disk
	c04MK          mkc.MasterKey
	c04PKI         []*c04Cert
	c04Short       time.Time
)

func c04Certs() (out []*c04Cert) {
	add := func(name, ca string, authority *c04CA, ids []string, mod func(c *x509.Certificate)) *c04Cert {
		c, key := c04Make(authority, mod)
		e := &c04Cert{name: name, ca: ca, ids: ids, tc: &tls.Certificate{Certificate: [][]byte{c.Raw}, PrivateKey: key, Leaf: c}, from: c.NotBefore, to: c.NotAfter}
		out = append(out, e)
		return e
	}
	sub := func(s string) []string { return []string{s, "SUBJECT:" + s} }
	all := func(c *x509.Certificate) {
		c.Subject.CommonName = "bob"
		c.DNSNames, c.EmailAddresses, c.URIs = []string{c04DNS}, []string{c04Email}, c04URL(c04URI)
	}
	allIDs := append(sub("CN=bob"), "DNS:"+c04DNS, "EMAIL:"+c04Email, "URI:"+c04URI)
	add("bob", "1", c04CA1, allIDs, all)
	add("bob2", "2", c04CA2, allIDs, all)
	add("subject", "1", c04CA1, sub("CN=bob"), func(c *x509.Certificate) { c.Subject.CommonName = "bob" })
	add("dns", "1", c04CA1, []string{"DNS:" + c04DNS}, func(c *x509.Certificate) { c.DNSNames = []string{c04DNS} })
	add("email", "1", c04CA1, []string{"EMAIL:" + c04Email}, func(c *x509.Certificate) { c.EmailAddresses = []string{c04Email} })
	add("uri", "1", c04CA1, []string{"URI:" + c04URI}, func(c *x509.Certificate) { c.URIs = c04URL(c04URI) })
	add("second", "1", c04CA1, append(sub("CN=eve"), "DNS:eve.example.com", "DNS:"+c04DNS, "EMAIL:"+c04Email), func(c *x509.Certificate) {
		c.Subject.CommonName = "eve"
		c.DNSNames, c.EmailAddresses = []string{"eve.example.com", c04DNS}, []string{"eve@example.com", c04Email}
	}).ids = append(sub("CN=eve"), "DNS:eve.example.com", "DNS:"+c04DNS, "EMAIL:eve@example.com", "EMAIL:"+c04Email)
	// Near misses.
	for _, s := range []string{"Bob", "bobby", "bo", "bob ", "eve", c04Email, c04DNS, "EMAIL:" + c04Email, "CN=bob", "bob,CN=bob", "SUBJECT:CN=bob"} {
		c := add("cn:"+strings.ReplaceAll(s, " ", "_"), "1", c04CA1, nil, func(c *x509.Certificate) { c.Subject.CommonName = s })
		v := s
		v = strings.ReplaceAll(v, ",", `\,`)
		v = strings.ReplaceAll(v, "=", `=`)
		if strings.HasSuffix(v, " ") {
			v = v[:len(v)-1] + `\ `
		}
		c.ids = sub("CN=" + v)
	}
	add("o", "1", c04CA1, sub("CN=bob,O=corp"), func(c *x509.Certificate) {
		c.Subject = pkix.Name{CommonName: "bob", Organization: []string{"corp"}}
	})
	add("o2", "1", c04CA1, sub("O=CN=bob"), func(c *x509.Certificate) { c.Subject = pkix.Name{Organization: []string{"CN=bob"}} })
	add("empty", "1", c04CA1, nil, func(c *x509.Certificate) {})
	for _, s := range []string{"BOB.example.com", "x." + c04DNS, "*.example.com", "bob.example.com.evil.org", "example.com"} {
		add("dns:"+s, "1", c04CA1, []string{"DNS:" + s}, func(c *x509.Certificate) { c.DNSNames = []string{s} })
	}
	for _, s := range []string{"Bob@example.com", "bob@EXAMPLE.com", "bob@example.com.evil.org", "xbob@example.com"} {
		add("email:"+s, "1", c04CA1, []string{"EMAIL:" + s}, func(c *x509.Certificate) { c.EmailAddresses = []string{s} })
	}
	for i, s := range []string{c04URI + "/", c04URI + "?x=1", "spiffe://EXAMPLE.com/bob", "spiffe://example.com/%62ob"} {
		add(fmt.Sprint("uri:", i), "1", c04CA1, []string{"URI:" + s}, func(c *x509.Certificate) { c.URIs = c04URL(s) })
	}
	add("expired", "1", c04CA1, allIDs, func(c *x509.Certificate) { all(c); c.NotAfter = vxLongAgo.AddDate(1, 0, -1) })
	add("notyet", "1", c04CA1, allIDs, func(c *x509.Certificate) { all(c); c.NotBefore = vxFarAway.AddDate(-1, 0, 0) })
	add("short", "1", c04CA1, allIDs, func(c *x509.Certificate) { all(c); c.NotAfter = c04Short })
	add("server", "1", c04CA1, allIDs, func(c *x509.Certificate) {
		all(c)
		c.ExtKeyUsage = []x509.ExtKeyUsage{x509.ExtKeyUsageServerAuth, x509.ExtKeyUsageEmailProtection}
	}).bad = true
	add("any", "1", c04CA1, allIDs, func(c *x509.Certificate) { all(c); c.ExtKeyUsage = []x509.ExtKeyUsage{x509.ExtKeyUsageAny} })
	add("self", "", nil, allIDs, all)
	wrong := add("wrongkey", "1", c04CA1, allIDs, all)
	wrong.bad = true
	_, k := c04Make(nil, all)
	wrong.tc.PrivateKey = k
	// Chains.
	int1, int2 := c04NewCA(c04CA1, "int1"), c04NewCA(c04CA2, "int2")
	fake := &c04CA{out[0].tc.PrivateKey.(*ecdsa.PrivateKey), out[0].tc.Leaf, ""}
	c := add("int1", "1", int1, allIDs, all)
	c.tc.Certificate = append(c.tc.Certificate, int1.cert.Raw)
	add("int1-missing", "1", int1, allIDs, all).bad = true
	c = add("int2", "2", int2, allIDs, all)
	c.tc.Certificate = append(c.tc.Certificate, int2.cert.Raw, c04CA2.cert.Raw)
	// A leaf that signs another one, and an authority with the same name.
	c = add("leafca", "", fake, allIDs, all)
	c.tc.Certificate = append(c.tc.Certificate, fake.cert.Raw)
	same := c04NewCA(nil, c04CA1.cert.Subject.CommonName)
	c = add("samename", "", same, allIDs, all)
	c.tc.Certificate = append(c.tc.Certificate, same.cert.Raw)
	// The proof of one, and the certificate of another.
	c = add("evechain", "1", c04CA1, sub("CN=eve"), func(c *x509.Certificate) { c.Subject.CommonName = "eve" })
	c.tc.Certificate = append(c.tc.Certificate, out[0].tc.Certificate[0])
	out = append(out, &c04Cert{name: "none", bad: true})
	return append(out, c04PKI...)
}

var c04ACLs = []*[]string{
	nil,
	{},
	{"SUBJECT:CN=bob"},
	{"CN=bob"},
	{"DNS:" + c04DNS},
	{"EMAIL:" + c04Email},
	{"URI:" + c04URI},
	{"", "SUBJECT:", "bob", c04DNS, c04Email, c04URI, "DNS:" + c04Email, "EMAIL:CN=bob", "URI:" + c04DNS, "SUBJECT:bob", "*", "EMAIL:@example.com", "EMAIL:*", "DNS:*.example.com.", "email:" + c04Email},
	{"SUBJECT:CN=nobody", "EMAIL:" + c04Email},
	{"CN=eve", "DNS:eve.example.com"},
	{`SUBJECT:CN=bob\,CN=bob`, "SUBJECT:CN=bob,O=corp"},
	{"DNS:*.example.com", "EMAIL:Bob@example.com", "URI:" + c04URI + "/"},
}

// admitted computes the verdict.
func (c *c04Cert) admitted(roots []string, acl *[]string, revoked map[*c04Cert]bool, now time.Time) bool {
	if c.bad || !slices.Contains(roots, c.ca) || revoked[c] || now.Before(c.from) || now.After(c.to) {
		return false
	}
	if acl == nil {
		return true
	}
	return slices.ContainsFunc(c.ids, func(id string) bool { return slices.Contains(*acl, id) })
}

var c04Modes = []string{"HTTP", "HTTPS", "TCP", "TLS", "LOCAL", "CONSOLE", "h2", "QTCP", "QUIC", "h3"}

func c04Roots(roots []string) (out []string) {
	for _, v := range roots {
		switch v {
		case "1":
			out = append(out, c04CA1.pem)
		case "2":
			out = append(out, c04CA2.pem)
		default:
			out = append(out, v)
		}
	}
	return
}

func c04Name(i int) string { return fmt.Sprintf("acl%d.example.com", i) }

func c04Backend(name, mode string, roots []string, acl *[]string) *Backend {
	addr := map[string]string{"HTTP": "10.0.0.1:80", "h2": "10.0.0.1:80", "HTTPS": "10.0.0.1:443", "TCP": "10.0.0.1:1", "TLS": "10.0.0.1:2"}[mode]
	m := mode
	switch mode {
	case "h2", "h3":
		m = "HTTP"
		addr = "10.0.0.1:80"
	case "QTCP":
		m = "TCP"
		addr = "10.0.0.1:1"
	case "QUIC":
		addr = "10.0.0.1:3"
	}
	be := simHTTPBackend(name, m, addr)
	if mode == "TCP" || mode == "TLS" {
		be.ALPNProtos = &[]string{}
	}
	if mode == "h3" {
		be.ALPNProtos = &[]string{"h3", "h2", "http/1.1"}
	}
	if mode == "QTCP" || mode == "QUIC" {
		be.ALPNProtos = &[]string{"foo"}
	}
	be.InsecureSkipVerify = true
	if mode == "LOCAL" {
		be.ExportJWKS = "/jwks"
	}
	be.ClientAuth = &ClientAuth{RootCAs: c04Roots(roots), ACL: acl}
	return be
}

func c04QUIC(mode string) bool { return mode == "QTCP" || mode == "QUIC" || mode == "h3" }

func c04Config(bes ...*Backend) *Config {
	quic := slices.ContainsFunc(bes, func(be *Backend) bool {
		return be.ALPNProtos != nil && (slices.Contains(*be.ALPNProtos, "foo") || slices.Contains(*be.ALPNProtos, "h3"))
	})
	cfg := simCfg(append(bes, &Backend{ServerNames: []string{"ca.example.com"}, Mode: "LOCAL"})...)
	cfg.EnableQUIC = vxPtr(quic)
	cfg.PKI = []*ConfigPKI{{Name: "pki", Endpoint: "https://ca.example.com/certs"}}
	return cfg
}

type c04World struct {
	r       *vx.R
	x       *vsched.X
	s       *sim
	id      string
	dials   int // upstream connections
	bytes   int // and bytes
	revoked map[*c04Cert]bool
	caches  map[string]tls.ClientSessionCache
}

func (w *c04World) violation(key, f string, a ...any) {
	w.r.Violation(key, "%s: "+f, append([]any{w.id}, a...)...)
}

func (w *c04World) start(cfg *Config) {
	w.s = newSim(w.x, cfg)
}

func (w *c04World) upstreams() {
	h := http.HandlerFunc(func(rw http.ResponseWriter, req *http.Request) {
		w.bytes++
		rw.Write([]byte("ok"))
	})
	count := func(f func(c *vnet.VConn)) func(c *vnet.VConn) {
		return func(c *vnet.VConn) {
			w.dials++
			f(c)
		}
	}
	echo := func(c io.ReadWriteCloser) {
		defer c.Close()
		io.WriteString(c, "hi\n")
		b := make([]byte, 100)
		for {
			n, err := c.Read(b)
			if err != nil {
				return
			}
			w.bytes += n
			c.Write(b[:n])
		}
	}
	tc := simServerTLS("up.example.com")
	w.s.upstream("10.0.0.1:80", count(func(c *vnet.VConn) { w.s.webServe(c, nil, h) }))
	w.s.upstream("10.0.0.1:443", count(func(c *vnet.VConn) { w.s.webServe(c, tc, h) }))
	w.s.upstream("10.0.0.1:1", count(func(c *vnet.VConn) { echo(c) }))
	qc := tc.Clone()
	qc.NextProtos = []string{"foo"}
	w.s.quicUpstream("10.0.0.1:3", qc, simQUIC, func(c quic.Connection) {
		w.dials++
		for {
			st, err := c.AcceptStream(context.Background())
			if err != nil {
				return
			}
			go echo(st)
		}
	})
	plain := tc.Clone()
	plain.NextProtos = nil
	w.s.upstream("10.0.0.1:2", count(func(c *vnet.VConn) {
		t := tls.Server(c, plain)
		if t.Handshake() != nil {
			c.Close()
			return
		}
		echo(t)
	}))
}

// try connects, and says whether the client is served.
func (w *c04World) try(name, mode string, c *c04Cert, version uint16, cache tls.ClientSessionCache) (served, resumed bool, why string) {
	if c04QUIC(mode) {
		return w.tryQUIC(name, mode, c, cache)
	}
	k, err := w.s.raw("client", "192.0.2.1:0")
	if err != nil {
		w.violation("dial", "%v", err)
		return
	}
	defer k.raw.Close()
	tc := simTLSConfig(name, nil, nil)
	tc.MinVersion, tc.MaxVersion = version, version
	tc.ClientSessionCache = cache
	if c.tc != nil {
		tc.GetClientCertificate = func(*tls.CertificateRequestInfo) (*tls.Certificate, error) { return c.tc, nil }
	}
	switch mode {
	case "h2":
		tc.NextProtos = []string{"h2"}
	case "HTTP", "HTTPS", "LOCAL", "CONSOLE":
		tc.NextProtos = []string{"http/1.1"}
	}
	if err := k.handshake(tc); err != nil {
		return false, false, simErr(err)
	}
	resumed = k.tls.ConnectionState().DidResume
	defer k.tls.Close()
	switch mode {
	case "TCP", "TLS":
		fmt.Fprintf(k.tls, "hello\n")
		br := bufio.NewReader(k.tls)
		l, err := br.ReadString('\n')
		if err == nil {
			var m string
			if m, err = br.ReadString('\n'); err == nil && l+m != "hi\nhello\n" {
				err = fmt.Errorf("unexpected data %q", l+m)
			}
		}
		if l == "" && simErr(err) != "HANG" {
			return false, resumed, simErr(err)
		}
		if err != nil {
			return false, resumed, "partial: " + simErr(err)
		}
		return true, resumed, ""
	case "h2":
		cc, err := k.simH2()
		if err != nil {
			return false, resumed, simErr(err)
		}
		req, _ := http.NewRequest("GET", "https://"+name+"/", nil)
		resp, err := cc.RoundTrip(req)
		if err != nil {
			return false, resumed, simErr(err)
		}
		b, _ := io.ReadAll(resp.Body)
		return resp.StatusCode == 200 && string(b) == "ok", resumed, fmt.Sprint(resp.StatusCode)
	}
	path := "/"
	if mode == "LOCAL" {
		path = "/jwks"
	}
	st, body, err := k.get(name, path)
	if err != nil {
		return false, resumed, simErr(err)
	}
	return st == 200 && (body == "ok" || mode == "LOCAL" || mode == "CONSOLE"), resumed, fmt.Sprint(st)
}

func (w *c04World) tryQUIC(name, mode string, c *c04Cert, cache tls.ClientSessionCache) (served, resumed bool, why string) {
	proto := "foo"
	if mode == "h3" {
		proto = "h3"
	}
	tc := simTLSConfig(name, []string{proto}, nil)
	tc.ClientSessionCache = cache
	if c.tc != nil {
		tc.GetClientCertificate = func(*tls.CertificateRequestInfo) (*tls.Certificate, error) { return c.tc, nil }
	}
	k, err := w.s.quicDialTLS("192.0.2.1", tc)
	if err != nil {
		return false, false, quicErr(err)
	}
	defer func() {
		k.CloseWithError(0, "bye")
		time.Sleep(10 * time.Millisecond)
	}()
	resumed = k.ConnectionState().TLS.DidResume
	if mode == "h3" {
		st, body, err := simH3Get(k, name, "/")
		if err != nil {
			return false, resumed, quicErr(err)
		}
		return st == 200 && body == "ok", resumed, fmt.Sprint(st)
	}
	got, err := quicAsk(k, "hello\n", len("hi\nhello\n"), 10*time.Second)
	if got == "" {
		return false, resumed, quicErr(err)
	}
	if got != "hi\nhello\n" {
		return false, resumed, fmt.Sprintf("partial: %q %s", got, quicErr(err))
	}
	return true, resumed, ""
}

// judge tries, and compares the outcome with the verdict.
func (w *c04World) judge(name, mode string, c *c04Cert, version uint16, cache tls.ClientSessionCache, roots []string, acl *[]string) bool {
	dials, bytes := w.dials, w.bytes
	want := c.admitted(roots, acl, w.revoked, time.Now())
	got, resumed, why := w.try(name, mode, c, version, cache)
	w.r.Step(1)
	w.r.Outcome(fmt.Sprintf("%v %v %s %v", mode, got, why, resumed))
	a := "any"
	if acl != nil {
		a = fmt.Sprintf("%q", *acl)
	}
	desc := fmt.Sprintf("certificate %q, %s backend, roots %v, ACL %s, TLS %x, resumed %v (%s)", c.name, mode, roots, a, version, resumed, why)
	if strings.Contains(why, "HANG") {
		w.violation("hang", "the client isn't answered: %s", desc)
	}
	switch {
	case got && !want:
		w.violation("served/"+mode, "served: %s", desc)
	case !got && want:
		w.violation("refused/"+mode, "not served: %s", desc)
	case !want && (w.dials > dials || w.bytes > bytes):
		w.violation("leak/"+mode, "refused, but reached the backend: %s", desc)
	}
	return resumed
}

func c04Bubble(r *vx.R, id string, cfg func() *Config, f func(w *c04World)) {
	vsched.Bubble(r, id, func(x *vsched.X) {
		if c04Base != nil {
			vos.Restore(c04Base)
		} else {
			vos.Reset()
		}
		time.Sleep(time.Hour + 250*time.Millisecond)
		store, mk := simStuff.store, simStuff.mk
		defer func() { simStuff.store, simStuff.mk = store, mk }()
		simStuff.store, simStuff.mk = storage.New("/cache", c04MK), c04MK
		w := &c04World{r: r, x: x, id: id, revoked: map[*c04Cert]bool{}, caches: map[string]tls.ClientSessionCache{}}
		w.start(cfg())
		w.upstreams()
		f(w)
		if w.s.panicked() {
			w.violation("panic", "the proxy panicked")
		}
	})
}

// revoke makes the local authority revoke c.
func (w *c04World) revoke(c *c04Cert) {
	if err := w.s.p.pkis["pki"].RevokeCertificate(c.tc.Leaf.SerialNumber, 1); err != nil {
		w.violation("revoke", "%v", err)
	}
	w.revoked[c] = true
}

func TestVX(t *testing.T) {
	r := vx.Start(t, "C04")
	defer r.Done()
	names := []string{"ca.example.com", "www.example.com", "up.example.com"}
	for i := range c04ACLs {
		names = append(names, c04Name(i))
	}
	simInit(r, names...)
	vos.Reset()
	debug.SetGCPercent(2000)
	debug.SetMemoryLimit(1 << 30)
	var err error
	if c04MK, err = mkc.CreateAESMasterKeyForTest(); err != nil {
		t.Fatal(err)
	}
	c04CA1, c04CA2 = c04NewCA(nil, "ca1"), c04NewCA(nil, "ca2")
	r.InGroup("init")
	c04Bubble(r, "init", func() *Config { return c04Config() }, func(w *c04World) {
		c04Short = time.Now().Add(30 * time.Minute).Truncate(time.Second)
		for _, n := range []string{"pki-bob", "pki-bob2", "pki-revoked"} {
			key, _ := ecdsa.GenerateKey(elliptic.P256(), rand.Reader)
			der, err := x509.CreateCertificateRequest(rand.Reader, &x509.CertificateRequest{EmailAddresses: []string{c04Email}}, key)
			if err != nil {
				t.Fatal(err)
			}
			csr, _ := x509.ParseCertificateRequest(der)
			raw, err := w.s.p.pkis["pki"].IssueCertificate(csr)
			if err != nil {
				t.Fatal(err)
			}
			c, _ := x509.ParseCertificate(raw)
			e := &c04Cert{name: n, ca: "pki", ids: []string{"EMAIL:" + c04Email}, tc: &tls.Certificate{Certificate: [][]byte{raw}, PrivateKey: key, Leaf: c}, from: c.NotBefore, to: c.NotAfter}
			if s := c.Subject.String(); s != "" {
				e.ids = append(e.ids, s, "SUBJECT:"+s)
			}
			c04PKI = append(c04PKI, e)
		}
		w.revoke(c04PKI[2])
	})
	c04Base = vos.Snapshot()
	c04PKI[2].bad = true
	certs := c04Certs()
	rootSets := [][]string{{"1"}, {"2"}, {"pki"}, {"1", "pki"}, {"1", "2", "pki"}, {}}
	r.Bound("roots, ACLs, certificates, modes, TLS versions", fmt.Sprint(len(rootSets), len(c04ACLs), len(certs), len(c04Modes), 2))
	versions := []uint16{tls.VersionTLS12, tls.VersionTLS13}
	n := 0
	for ri, roots := range rootSets {
		for _, mode := range c04Modes {
			for _, version := range versions {
				if c04QUIC(mode) && version != tls.VersionTLS13 {
					continue
				}
				pre := fmt.Sprintf("matrix/%d/%s/%x", ri, mode, version)
				n++
				if !r.Group(n, pre+"/") {
					continue
				}
				c04Bubble(r, pre, func() *Config {
					var bes []*Backend
					for i, acl := range c04ACLs {
						bes = append(bes, c04Backend(c04Name(i), mode, roots, acl))
					}
					return c04Config(bes...)
				}, func(w *c04World) {
					for i, acl := range c04ACLs {
						for _, c := range certs {
							if !r.Thorough() && (c04QUIC(mode) || mode == "LOCAL" || mode == "CONSOLE" || mode == "h2") && c.ca == "1" && strings.Contains(c.name, ":") {
								// Near misses of the names.
								continue
							}
							w.id = fmt.Sprintf("%s/%d/%s", pre, i, c.name)
							if !r.InGroup(w.id) {
								continue
							}
							r.Exec()
							w.judge(c04Name(i), mode, c, version, nil, roots, acl)
						}
					}
				})
			}
		}
	}
	c04Histories(r, certs)
}

// c04Histories is about the sessions of three clients.
func c04Histories(r *vx.R, certs []*c04Cert) {
	cert := func(name string) *c04Cert {
		for _, c := range certs {
			if c.name == name {
				return c
			}
		}
		panic(name)
	}
	clients := []*c04Cert{cert("pki-bob"), cert("short"), cert("bob2")}
	type state struct {
		roots []string
		acl   *[]string
	}
	base := state{[]string{"1", "2", "pki"}, &[]string{"EMAIL:" + c04Email}}
	type op struct {
		name string
		f    func(w *c04World, st *state)
	}
	const name = "www.example.com"
	max := r.Pick(3, 4)
	r.Bound("history length", max)
	for _, mode := range []string{"TCP", "HTTP", "QTCP", "h3"} {
		for _, version := range []uint16{tls.VersionTLS12, tls.VersionTLS13} {
			if c04QUIC(mode) && version != tls.VersionTLS13 {
				continue
			}
			config := func(st *state) *Config { return c04Config(c04Backend(name, mode, st.roots, st.acl)) }
			reload := func(w *c04World, st *state) {
				if err := w.s.p.Reconfigure(config(st)); err != nil {
					w.violation("reload", "%v", err)
				}
				time.Sleep(time.Second)
			}
			connect := func(w *c04World, st *state) {
				for _, c := range clients {
					for _, how := range []string{"new", "resume"} {
						if how == "new" || w.caches[c.name] == nil {
							w.caches[c.name] = tls.NewLRUClientSessionCache(4)
						}
						w.judge(name, mode, c, version, w.caches[c.name], st.roots, st.acl)
					}
				}
			}
			resume := func(w *c04World, st *state) {
				for _, c := range clients {
					if w.caches[c.name] == nil {
						continue
					}
					w.judge(name, mode, c, version, w.caches[c.name], st.roots, st.acl)
				}
			}
			ops := []op{
				{"connect", connect},
				{"resume", resume},
				{"revoke", func(w *c04World, st *state) {
					if !w.revoked[clients[0]] {
						w.revoke(clients[0])
					}
				}},
				{"expire", func(w *c04World, st *state) { time.Sleep(31 * time.Minute) }},
				{"reload", reload},
				{"acl", func(w *c04World, st *state) {
					if len(*st.acl) == 1 {
						st.acl = &[]string{}
					} else {
						st.acl = base.acl
					}
					reload(w, st)
				}},
				{"roots", func(w *c04World, st *state) {
					if len(st.roots) == 3 {
						st.roots = []string{"1"}
					} else {
						st.roots = base.roots
					}
					reload(w, st)
				}},
				{"restart", func(w *c04World, st *state) {
					w.s.p.Stop()
					w.s.cancel()
					w.x.N.CloseUDP(simAddr)
					time.Sleep(1100 * time.Millisecond)
					w.start(config(st))
				}},
			}
			vx.Sequences(len(ops), 1, max, func(seq []int) bool {
				var names []string
				for _, o := range seq {
					names = append(names, ops[o].name)
				}
				id := fmt.Sprintf("history/%s/%x/%s", mode, version, strings.Join(names, ","))
				if !r.Case(id) {
					return true
				}
				r.Exec()
				st := base
				c04Bubble(r, id, func() *Config { return config(&st) }, func(w *c04World) {
					connect(w, &st)
					for _, o := range seq {
						ops[o].f(w, &st)
						r.Step(1)
					}
					resume(w, &st)
					connect(w, &st)
				})
				return !r.Expired()
			})
		}
	}
}
