package proxy

import (
	"bytes"
	"crypto"
	"crypto/ecdsa"
	"crypto/ed25519"
	"crypto/elliptic"
	"crypto/rand"
	"crypto/rsa"
	"crypto/x509"
	"crypto/x509/pkix"
	"encoding/asn1"
	"encoding/json"
	"encoding/pem"
	"fmt"
	"html"
	"io"
	"net"
	"net/http"
	"net/url"
	"regexp"
	"runtime/debug"
	"slices"
	"strings"
	"testing"
	"time"

	"github.com/c2FmZQ/storage"
	mkc "github.com/c2FmZQ/storage/crypto"

	"github.com/c2FmZQ/tlsproxy/internal/vsched"
	"github.com/c2FmZQ/tlsproxy/internal/vx"
	vos "github.com/c2FmZQ/tlsproxy/zzvx/vos"
)

var c14Others = []string{"steve@example.com", "eve@example.co", "bob@example.com.au", "root@example.net"}

// Users whose names look like an administrator's.
var c14Near = []string{"admin@example.com.au", "xadmin@example.com", "Admin@example.com", "root@example.co", "root"}

var c14Users = []string{"", "bob@example.com", "eve@example.com", "admin@example.com"}

func c14Config() *Config {
	cfg := simCfg(
		&Backend{ServerNames: []string{"sso.example.com"}, Mode: "LOCAL"},
		&Backend{ServerNames: []string{"ca.example.com"}, Mode: "LOCAL", SSO: &BackendSSO{Provider: "idp"}},
	)
	cfg.OIDCProviders = []*ConfigOIDC{vxIDP("idp", "example.com", "https://sso.example.com/cb")}
	cfg.PKI = []*ConfigPKI{{
		Name: "ca", Endpoint: "https://ca.example.com/certs", Admins: []string{"admin@example.com", "root@example.com"},
		IssuingCertificateURLs: []string{"https://ca.example.com/ca.pem"},
		CRLDistributionPoints:  []string{"https://ca.example.com/crl"},
	}}
	return cfg
}

type c14CSR struct {
	name string
	body []byte
	// whether it is malformed
	bad bool
	// whether it must be granted
	ok  bool
	dns []string
	pub crypto.PublicKey
}

var c14Key *ecdsa.PrivateKey

func c14Make(name string, t *x509.CertificateRequest, key crypto.Signer) c14CSR {
	raw, err := x509.CreateCertificateRequest(rand.Reader, t, key)
	if err != nil {
		panic(err)
	}
	return c14CSR{name: name, body: c14PEM(raw), dns: t.DNSNames, pub: key.Public()}
}

func c14PEM(raw []byte) []byte {
	return pem.EncodeToMemory(&pem.Block{Type: "CERTIFICATE REQUEST", Bytes: raw})
}

func c14For(user string) c14CSR {
	c := c14Make("for", &x509.CertificateRequest{Subject: pkix.Name{CommonName: user}, EmailAddresses: []string{user}, DNSNames: []string{user[strings.Index(user, "@")+1:]}}, c14Key)
	c.ok = true
	return c
}

func c14CSRs() (out []c14CSR) {
	add := func(name string, t *x509.CertificateRequest) { out = append(out, c14Make(name, t, c14Key)) }
	name := func(cn string) pkix.Name { return pkix.Name{CommonName: cn} }
	add("plain", &x509.CertificateRequest{})
	out[0].ok = true
	for _, cn := range []string{"laptop", "eve@example.com", "admin@example.com", "eve@example.com::x", "::", "CN=eve@example.com", "a,CN=eve@example.com", "<script>alert(1)</script>", "bob@example.com"} {
		add("cn="+cn, &x509.CertificateRequest{Subject: name(cn)})
	}
	out[1].ok = true
	for i, csr := range out {
		// in ids
		out[i].name = strings.NewReplacer("/", "_", " ", "_").Replace(csr.name)
	}
	add("email", &x509.CertificateRequest{EmailAddresses: []string{"eve@example.com"}})
	add("emails", &x509.CertificateRequest{EmailAddresses: []string{"bob@example.com", "eve@example.com", "admin@example.com"}})
	add("dns", &x509.CertificateRequest{DNSNames: []string{"www.example.net"}})
	add("ip", &x509.CertificateRequest{IPAddresses: []net.IP{net.ParseIP("10.0.0.1")}})
	u, _ := url.Parse("spiffe://example.com/eve")
	add("uri", &x509.CertificateRequest{URIs: []*url.URL{u}})
	add("all", &x509.CertificateRequest{Subject: pkix.Name{CommonName: "x", Organization: []string{"O"}, OrganizationalUnit: []string{"admin"}, SerialNumber: "1"},
		EmailAddresses: []string{"eve@example.com"}, DNSNames: []string{"a.example.net"}, IPAddresses: []net.IP{net.ParseIP("::1")}, URIs: []*url.URL{u}})
	emailOID := asn1.ObjectIdentifier{1, 2, 840, 113549, 1, 9, 1}
	add("subjectemail", &x509.CertificateRequest{Subject: pkix.Name{CommonName: "x", ExtraNames: []pkix.AttributeTypeAndValue{{Type: emailOID, Value: "eve@example.com"}}}})
	add("twocn", &x509.CertificateRequest{Subject: pkix.Name{ExtraNames: []pkix.AttributeTypeAndValue{{Type: asn1.ObjectIdentifier{2, 5, 4, 3}, Value: "a"}, {Type: asn1.ObjectIdentifier{2, 5, 4, 3}, Value: "eve@example.com"}}}})
	ext := func(oid asn1.ObjectIdentifier, v any, crit bool) pkix.Extension {
		b, err := asn1.Marshal(v)
		if err != nil {
			panic(err)
		}
		return pkix.Extension{Id: oid, Critical: crit, Value: b}
	}
	bc := ext(asn1.ObjectIdentifier{2, 5, 29, 19}, struct {
		CA  bool `asn1:"optional"`
		Len int  `asn1:"optional,default:-1"`
	}{true, 3}, true)
	ku := ext(asn1.ObjectIdentifier{2, 5, 29, 15}, asn1.BitString{Bytes: []byte{0xff, 0x80}, BitLength: 9}, true)
	eku := ext(asn1.ObjectIdentifier{2, 5, 29, 37}, []asn1.ObjectIdentifier{{2, 5, 29, 37, 0}, {1, 3, 6, 1, 5, 5, 7, 3, 9}}, false)
	upn := ext(asn1.ObjectIdentifier{2, 5, 29, 17}, []any{asn1.RawValue{Class: 2, Tag: 0, IsCompound: true, Bytes: []byte("\x06\x0a\x2b\x06\x01\x04\x01\x82\x37\x14\x02\x03\xa0\x11\x0c\x0feve@example.com")}}, false)
	nc := pkix.Extension{Id: asn1.ObjectIdentifier{1, 3, 6, 1, 5, 5, 7, 48, 1, 5}}
	add("ca", &x509.CertificateRequest{ExtraExtensions: []pkix.Extension{bc}})
	add("ca+usages", &x509.CertificateRequest{ExtraExtensions: []pkix.Extension{bc, ku, eku}, DNSNames: []string{"ca.example.net"}})
	add("eku", &x509.CertificateRequest{ExtraExtensions: []pkix.Extension{eku}})
	add("upn", &x509.CertificateRequest{ExtraExtensions: []pkix.Extension{upn}})
	add("nocheck", &x509.CertificateRequest{ExtraExtensions: []pkix.Extension{nc}})
	rk, _ := rsa.GenerateKey(rand.Reader, 2048)
	out = append(out, c14Make("rsa", &x509.CertificateRequest{}, rk))
	_, ek, _ := ed25519.GenerateKey(rand.Reader)
	out = append(out, c14Make("ed25519", &x509.CertificateRequest{}, ek))
	// malformed ones
	bad := func(name string, b []byte) { out = append(out, c14CSR{name: name, body: b, bad: true}) }
	good, _ := pem.Decode(out[0].body)
	sig := slices.Clone(good.Bytes)
	sig[len(sig)-3] ^= 1
	bad("badsig", c14PEM(sig))
	// another key
	k2, _ := ecdsa.GenerateKey(elliptic.P256(), rand.Reader)
	p1, _ := x509.MarshalPKIXPublicKey(c14Key.Public())
	p2, _ := x509.MarshalPKIXPublicKey(k2.Public())
	bad("otherkey", c14PEM(bytes.Replace(slices.Clone(good.Bytes), p1, p2, 1)))
	bad("trailing", c14PEM(append(slices.Clone(good.Bytes), 5, 0)))
	bad("truncated", c14PEM(good.Bytes[:len(good.Bytes)-5]))
	bad("empty", nil)
	bad("emptypem", c14PEM(nil))
	bad("garbage", []byte("hello"))
	bad("der", good.Bytes)
	return out
}

type c14Resp struct {
	st   int
	body string
}

type c14World struct {
	r     *vx.R
	x     *vsched.X
	s     *sim
	id    string
	toks  map[string]string
	owner map[string]string // by serial number: an e-mail address, or ""
	rev   map[string]bool
	conn  map[string]*simConn
	csrs  []c14CSR
	bad   bool
}

func (w *c14World) violation(key, f string, a ...any) {
	w.bad = true
	w.r.Violation(key, "%s: "+f, append([]any{w.id}, a...)...)
}

func (w *c14World) start() {
	w.s = newSim(w.x, c14Config())
	w.conn = map[string]*simConn{}
	w.toks = map[string]string{}
	for _, u := range slices.Concat(c14Users[1:], c14Others, c14Near) {
		tok, err := w.s.p.tokenManager.CreateToken(vxSession("idp", "https://sso.example.com/", u, "sso.example.com", time.Now()), "")
		if err != nil {
			panic(err)
		}
		w.toks[u] = tok
	}
}

// do sends a request as a user.
func (w *c14World) do(user, method, path string, hdr http.Header, body []byte) c14Resp {
	for try := 0; ; try++ {
		c := w.conn[user]
		if c == nil {
			var err error
			if c, err = w.s.dial("user:"+user, "ca.example.com", nil, "192.0.2.1:0", nil); err != nil {
				w.violation("dial", "%v", err)
				return c14Resp{}
			}
			w.conn[user] = c
		}
		var b bytes.Buffer
		fmt.Fprintf(&b, "%s %s HTTP/1.1\r\nHost: ca.example.com\r\n", method, path)
		if user != "" {
			fmt.Fprintf(&b, "Cookie: TLSPROXYAUTH=%s\r\n", w.toks[user])
		}
		hdr.Write(&b)
		if body != nil || method != "GET" {
			fmt.Fprintf(&b, "Content-Length: %d\r\n", len(body))
		}
		b.WriteString("\r\n")
		b.Write(body)
		c.raw.SetDeadline(time.Now().Add(simPatience))
		var resp *http.Response
		_, err := c.tls.Write(b.Bytes())
		if err == nil {
			resp, err = http.ReadResponse(c.br, &http.Request{Method: method})
		}
		if err != nil {
			w.conn[user] = nil
			c.raw.Close()
			if try < 2 && simErr(err) != "HANG" {
				continue
			}
			w.violation("http", "%s %s: %v", method, path, err)
			return c14Resp{}
		}
		d, err := io.ReadAll(resp.Body)
		if err != nil || resp.Close {
			c.raw.Close()
			w.conn[user] = nil
		}
		return c14Resp{resp.StatusCode, string(d)}
	}
}

var c14SN = regexp.MustCompile(`[0-9a-f]{2}(:[0-9a-f]{2})+`)

func (w *c14World) list(status string) map[string]bool {
	resp := w.do("admin@example.com", "GET", "/certs?owner=all&status="+status, nil, nil)
	if resp.st != 200 {
		w.violation("list", "the list of certificates is not available: %d", resp.st)
	}
	if strings.Contains(resp.body, "<script>alert") {
		w.violation("escape", "the page has a name that is not escaped")
	}
	out := map[string]bool{}
	shown := map[string]bool{}
	for _, m := range c14SN.FindAllString(html.UnescapeString(resp.body), -1) {
		// The rest is keys.
		if n := (len(m) + 1) / 3; n < 12 || n > 20 {
			continue
		}
		if c14Shown[m] && !shown[m] {
			shown[m] = true
			continue
		}
		out[m] = true
	}
	return out
}

// diff reads the list of certificates, and returns the serial numbers of the
// new and newly revoked ones.
func (w *c14World) diff() (issued, revoked []string) {
	valid, rev := w.list("valid"), w.list("revoked")
	for sn := range w.owner {
		if w.rev[sn] && !rev[sn] || !w.rev[sn] && !rev[sn] && !valid[sn] {
			w.violation("lost", "certificate %s is gone", sn)
		}
		if !w.rev[sn] && rev[sn] {
			revoked = append(revoked, sn)
		}
	}
	for sn := range valid {
		if _, ok := w.owner[sn]; !ok {
			issued = append(issued, sn)
		}
	}
	for sn := range rev {
		if _, ok := w.owner[sn]; !ok {
			issued = append(issued, sn)
		}
	}
	for _, sn := range revoked {
		w.rev[sn] = true
	}
	return issued, revoked
}

// c14Shown has what looks like a serial number on the empty page.
var c14Shown map[string]bool

// c14Auth has the serial numbers of the authority and of its delegate.
var c14Auth []string

// cert checks a certificate that was issued to a user.
func (w *c14World) cert(user string, csr c14CSR, sn string) {
	dl := w.do(user, "GET", "/certs?get=downloadCert&sn="+sn, nil, nil)
	bl, _ := pem.Decode([]byte(dl.body))
	if dl.st != 200 || bl == nil {
		w.violation("download", "the certificate can't be downloaded: %d", dl.st)
		return
	}
	c, err := x509.ParseCertificate(bl.Bytes)
	if err != nil {
		w.violation("download", "%v", err)
		return
	}
	if !slices.Equal(c.EmailAddresses, []string{user}) {
		w.violation("identity", "%s obtained a certificate for %q", user, c.EmailAddresses)
	}
	if cn := c.Subject.CommonName; cn != user && !strings.HasPrefix(cn, user+"::") || len(c.Subject.Names) != 1 {
		w.violation("identity", "%s obtained a certificate for %q", user, c.Subject)
	}
	if len(c.IPAddresses)+len(c.URIs) > 0 {
		w.violation("identity", "%s obtained a certificate for %v %v", user, c.IPAddresses, c.URIs)
	}
	for _, n := range c.DNSNames {
		if !slices.Contains(csr.dns, n) {
			w.violation("identity", "%s obtained a certificate for %q", user, c.DNSNames)
		}
	}
	for _, e := range c.Extensions {
		switch e.Id.String() {
		case "2.5.29.14", "2.5.29.35", "2.5.29.15", "2.5.29.37", "2.5.29.19", "2.5.29.31", "1.3.6.1.5.5.7.1.1":
		case "2.5.29.17":
			var names []asn1.RawValue
			if _, err := asn1.Unmarshal(e.Value, &names); err != nil || len(names) != len(c.EmailAddresses)+len(c.DNSNames) {
				w.violation("identity", "%s obtained a certificate with %d names", user, len(names))
			}
		default:
			w.violation("extension", "%s obtained a certificate with extension %s", user, e.Id)
		}
	}
	if c.IsCA || c.KeyUsage&(x509.KeyUsageCertSign|x509.KeyUsageCRLSign) != 0 {
		w.violation("ca", "%s obtained the certificate of an authority", user)
	}
	if len(c.ExtKeyUsage) == 0 || len(c.UnknownExtKeyUsage) > 0 {
		w.violation("usage", "%s obtained a certificate for any usage", user)
	}
	for _, u := range c.ExtKeyUsage {
		if u != x509.ExtKeyUsageClientAuth && u != x509.ExtKeyUsageServerAuth {
			w.violation("usage", "%s obtained a certificate for usage %d", user, u)
		}
	}
	if p, ok := c.PublicKey.(interface{ Equal(crypto.PublicKey) bool }); !ok || !p.Equal(csr.pub) {
		w.violation("key", "%s obtained a certificate for another key", user)
	}
	if now := time.Now(); now.Before(c.NotBefore) || now.After(c.NotAfter) {
		w.violation("validity", "%s obtained a certificate valid from %s to %s", user, c.NotBefore, c.NotAfter)
	}
	ca := c14CA(w)
	if ca == nil {
		return
	}
	pool := x509.NewCertPool()
	pool.AddCert(ca)
	if _, err := c.Verify(x509.VerifyOptions{Roots: pool, CurrentTime: time.Now(), KeyUsages: []x509.ExtKeyUsage{x509.ExtKeyUsageAny}}); err != nil {
		w.violation("verify", "%s obtained a certificate that doesn't verify: %v", user, err)
	}
	if got := c14Hex(c.SerialNumber.Bytes()); got != sn {
		w.violation("serial", "certificate %s is listed as %s", got, sn)
	}
}

func c14Hex(b []byte) string {
	var s []string
	for _, v := range b {
		s = append(s, fmt.Sprintf("%02x", v))
	}
	return strings.Join(s, ":")
}

func c14CA(w *c14World) *x509.Certificate {
	resp := w.do("", "GET", "/ca.pem", nil, nil)
	bl, _ := pem.Decode([]byte(resp.body))
	if bl == nil {
		w.violation("ca", "the authority's certificate is not served: %d", resp.st)
		return nil
	}
	c, err := x509.ParseCertificate(bl.Bytes)
	if err != nil {
		w.violation("ca", "%v", err)
	}
	return c
}

func c14JSONOK(s string) bool {
	var v struct{ Result string }
	return json.Unmarshal([]byte(s), &v) == nil && v.Result == "ok"
}

// issue sends a request for a certificate and judges what it does.
func (w *c14World) issue(user, method, csrf, ct string, csr c14CSR) string {
	h := http.Header{}
	if csrf != "" {
		h.Set("X-Csrf-Check", csrf)
	}
	if ct != "" {
		h.Set("Content-Type", ct)
	}
	resp := w.do(user, method, "/certs?get=requestCert", h, csr.body)
	issued, revoked := w.diff()
	if len(revoked) > 0 {
		w.violation("issue/revoked", "a request for a certificate revoked %v", revoked)
	}
	for _, sn := range issued {
		w.owner[sn] = user
	}
	ok := method == "POST" && csrf == "1" && user != "" && !csr.bad
	if !ok && len(issued) > 0 {
		w.violation("issue/forbidden", "a certificate was issued")
	}
	if len(issued) > 1 {
		w.violation("issue/many", "%d certificates were issued", len(issued))
	}
	if ok && csr.ok && ct == "application/x-pem-file" && (len(issued) != 1 || resp.st != 200 || !c14JSONOK(resp.body)) {
		w.violation("issue/refused", "no certificate was issued: %d %s", resp.st, resp.body)
	}
	if len(issued) == 0 && c14JSONOK(resp.body) {
		w.violation("issue/lie", "no certificate was issued and the answer is ok")
	}
	for _, sn := range issued {
		w.cert(user, csr, sn)
	}
	if len(issued) == 1 {
		return issued[0]
	}
	return ""
}

// revoke sends a request to revoke a certificate and judges what it does.
func (w *c14World) revoke(user, method, csrf, query, body string, want string) {
	h := http.Header{}
	if csrf != "" {
		h.Set("X-Csrf-Check", csrf)
	}
	if body != "" {
		h.Set("Content-Type", "application/x-www-form-urlencoded")
	}
	resp := w.do(user, method, "/certs?get=revokeCert"+query, h, []byte(body))
	issued, revoked := w.diff()
	for _, sn := range issued {
		w.owner[sn] = user
		w.violation("revoke/issued", "a request to revoke a certificate issued one")
	}
	for _, sn := range revoked {
		switch {
		case method != "POST" || csrf != "1" || user == "":
			w.violation("revoke/forbidden", "a certificate of %q was revoked", w.owner[sn])
		case w.owner[sn] != user && user != "admin@example.com":
			w.violation("revoke/other", "%s revoked a certificate of %q", user, w.owner[sn])
		}
	}
	if want != "" && (!slices.Equal(revoked, []string{want}) || resp.st != 200 || !c14JSONOK(resp.body)) {
		w.violation("revoke/refused", "the certificate was not revoked: %d %s", resp.st, resp.body)
	}
	if len(revoked) == 0 && c14JSONOK(resp.body) {
		w.violation("revoke/lie", "no certificate was revoked and the answer is ok")
	}
}

var (
	c14Base vos.Disk
	c14MK   mkc.MasterKey
)

func c14Bubble(r *vx.R, id string, f func(w *c14World)) {
	vsched.Bubble(r, id, func(x *vsched.X) {
		vos.Restore(c14Base)
		time.Sleep(time.Hour + 250*time.Millisecond)
		store, mk := simStuff.store, simStuff.mk
		defer func() { simStuff.store, simStuff.mk = store, mk }()
		simStuff.store, simStuff.mk = storage.New("/cache", c14MK), c14MK
		w := &c14World{r: r, x: x, id: id, owner: map[string]string{}, rev: map[string]bool{}}
		for _, sn := range c14Auth {
			w.owner[sn] = "the authority"
		}
		w.start()
		f(w)
		if w.s.panicked() {
			w.violation("panic", "the proxy panicked")
		}
	})
}

func (w *c14World) own(user string, csr c14CSR) string {
	for sn, o := range w.owner {
		if o == user && !w.rev[sn] {
			return sn
		}
	}
	return w.issue(user, "POST", "1", "application/x-pem-file", csr)
}

func TestVX(t *testing.T) {
	r := vx.Start(t, "C14")
	defer r.Done()
	simInit(r, "sso.example.com", "ca.example.com")
	vos.Reset()
	debug.SetGCPercent(2000)
	debug.SetMemoryLimit(1 << 30)
	var err error
	if c14MK, err = mkc.CreateAESMasterKeyForTest(); err != nil {
		t.Fatal(err)
	}
	c14Key, _ = ecdsa.GenerateKey(elliptic.P256(), rand.Reader)
	csrs := c14CSRs()
	r.InGroup("init")
	vsched.Bubble(r, "init", func(x *vsched.X) {
		store, mk := simStuff.store, simStuff.mk
		defer func() { simStuff.store, simStuff.mk = store, mk }()
		simStuff.store, simStuff.mk = storage.New("/cache", c14MK), c14MK
		w := &c14World{r: r, x: x, id: "init", owner: map[string]string{}, rev: map[string]bool{}}
		w.start()
		w.do("", "GET", "/crl", nil, nil)
		// The authority's own certificates, and other things on the page.
		c14Shown = w.list("revoked")
		valid := w.list("valid")
		resp := w.do("", "GET", "/ca.pem", nil, nil)
		rest := []byte(resp.body)
		for {
			var bl *pem.Block
			if bl, rest = pem.Decode(rest); bl == nil {
				break
			}
			c, err := x509.ParseCertificate(bl.Bytes)
			if err != nil {
				t.Fatal(err)
			}
			sn := c14Hex(c.SerialNumber.Bytes())
			if !valid[sn] {
				t.Fatalf("certificates: %v", valid)
			}
			c14Auth = append(c14Auth, sn)
		}
		if len(c14Auth) != 2 {
			t.Fatalf("certificates: %v", c14Auth)
		}
	})
	c14Base = vos.Snapshot()
	methods := []string{"POST", "GET", "PUT", "HEAD", "DELETE"}
	csrf := []string{"1", "", "0", "true"}
	cts := []string{"application/x-pem-file", "", "application/x-www-form-urlencoded", "multipart/form-data; boundary=x"}
	r.Bound("users, methods, CSRF headers, content types, requests", fmt.Sprint(len(c14Users), len(methods), len(csrf), len(cts), len(csrs)))
	n := 0
	for _, user := range c14Users {
		for _, m := range methods {
			for _, x := range csrf {
				pre := "issue/" + user + "/" + m + "/" + x
				n++
				if !r.Group(n, pre+"/") {
					continue
				}
				c14Bubble(r, pre, func(w *c14World) {
					for _, ct := range cts {
						for i, csr := range csrs {
							w.id = pre + "/" + strings.NewReplacer(" ", "_", "/", "_").Replace(ct) + "/" + csr.name
							if !r.InGroup(w.id) {
								continue
							}
							r.Exec()
							w.issue(user, m, x, ct, csr)
							_ = i
							r.Step(1)
						}
					}
					r.Outcome(fmt.Sprintf("issue %s: %v", pre, len(w.owner) > 2))
				})
			}
		}
	}
	// own: one of the user's, other: of another user
	type target struct {
		name  string
		query func(own, other string) string
		body  func(own, other string) string
		want  int // 1: own, 2: other
	}
	none := func(string, string) string { return "" }
	q := func(f string) func(own, other string) string {
		return func(own, other string) string {
			return strings.NewReplacer("OWN", own, "OTHER", other, "CASN", c14Auth[0], "DELEGATE", c14Auth[1]).Replace(f)
		}
	}
	targets := []target{
		{"own", q("&sn=OWN"), none, 1},
		{"other", q("&sn=OTHER"), none, 2},
		{"ownbody", none, q("sn=OWN"), 1},
		{"otherbody", none, q("sn=OTHER"), 2},
		{"own+other", q("&sn=OWN&sn=OTHER"), none, 0},
		{"other+own", q("&sn=OTHER&sn=OWN"), none, 0},
		{"ownbody+other", q("&sn=OTHER"), q("sn=OWN"), 0},
		{"otherbody+own", q("&sn=OWN"), q("sn=OTHER"), 0},
		{"ca", q("&sn=CASN"), none, 0},
		{"delegate", q("&sn=DELEGATE"), none, 0},
		{"unknown", q("&sn=00:01"), none, 0},
		{"empty", q("&sn="), none, 0},
		{"absent", none, none, 0},
		{"upper", func(own, other string) string { return "&sn=" + strings.ToUpper(other) }, none, 0},
		{"bare", func(own, other string) string { return "&sn=" + strings.ReplaceAll(other, ":", "") }, none, 0},
		{"email", q("&sn=OTHER&email=eve@example.com&owner=all"), none, 2},
	}
	admins := []string{"", "&admin=1", "&admin=", "&admin=true&admin=1", "&Admin=1"}
	r.Bound("revocation targets, admin parameters", fmt.Sprint(len(targets), len(admins)))
	for _, user := range slices.Concat(c14Users, c14Near) {
		for _, m := range methods {
			for _, x := range csrf {
				pre := "revoke/" + user + "/" + m + "/" + x
				n++
				if !r.Group(n, pre+"/") {
					continue
				}
				c14Bubble(r, pre, func(w *c14World) {
					k := 0
					for _, adm := range admins {
						for _, tg := range targets {
							w.id = pre + "/" + adm + "/" + tg.name
							if !r.InGroup(w.id) {
								continue
							}
							r.Exec()
							me := user
							if me == "" {
								me = "eve@example.com"
							}
							// Somebody else's certificate, that mentions the user.
							other := "bob@example.com"
							if user == other {
								other = "eve@example.com"
							}
							if k%3 > 0 {
								other = c14Others[k%len(c14Others)]
							}
							k++
							o1, o2 := w.own(me, csrs[0]), w.own(other, c14For(me))
							want := ""
							if user != "" && m == "POST" && x == "1" {
								switch {
								case tg.want == 1:
									want = o1
								case tg.want == 2 && user == "admin@example.com" && adm == "&admin=1":
									want = o2
								}
							}
							w.revoke(user, m, x, adm+tg.query(o1, o2), tg.body(o1, o2), want)
							r.Step(1)
						}
					}
					// again
					for sn := range w.rev {
						w.revoke(user, m, x, "&admin=1&sn="+sn, "", "")
						break
					}
					r.Outcome(fmt.Sprintf("revoke %s: %v", pre, len(w.rev) > 0))
				})
			}
		}
	}
	c14Histories(r, csrs[0])
}

func c14Histories(r *vx.R, csr c14CSR) {
	oldest := func(w *c14World, order []string, owner string) string {
		for _, sn := range order {
			if w.owner[sn] == owner && !w.rev[sn] {
				return sn
			}
		}
		return ""
	}
	type op struct {
		name string
		f    func(w *c14World, order *[]string)
	}
	var ops []op
	for _, u := range []string{"bob@example.com", "eve@example.com"} {
		other := "bob@example.com"
		if u == other {
			other = "eve@example.com"
		}
		ops = append(ops,
			op{u[:3] + ":issue", func(w *c14World, order *[]string) {
				*order = append(*order, w.issue(u, "POST", "1", "application/x-pem-file", csr))
			}},
			op{u[:3] + ":revoke-own", func(w *c14World, order *[]string) {
				if sn := oldest(w, *order, u); sn != "" {
					w.revoke(u, "POST", "1", "&sn="+sn, "", sn)
				}
			}},
			op{u[:3] + ":revoke-other", func(w *c14World, order *[]string) {
				if sn := oldest(w, *order, other); sn != "" {
					w.revoke(u, "POST", "1", "&admin=1&sn="+sn, "", "")
				}
			}},
		)
	}
	ops = append(ops,
		op{"admin:revoke", func(w *c14World, order *[]string) {
			if sn := oldest(w, *order, "bob@example.com"); sn != "" {
				w.revoke("admin@example.com", "POST", "1", "&admin=1&sn="+sn, "", sn)
			}
		}},
		op{"reload", func(w *c14World, _ *[]string) {
			if err := w.s.p.Reconfigure(c14Config()); err != nil {
				w.violation("reload", "%v", err)
			}
			time.Sleep(time.Second)
			w.conn = map[string]*simConn{}
		}},
		op{"restart", func(w *c14World, _ *[]string) {
			w.s.p.Stop()
			w.s.cancel()
			time.Sleep(1100 * time.Millisecond)
			w.start()
		}},
	)
	max := r.Pick(3, 4)
	r.Bound("history length", max)
	vx.Sequences(len(ops), 1, max, func(seq []int) bool {
		var names []string
		for _, o := range seq {
			names = append(names, ops[o].name)
		}
		id := "history/" + strings.Join(names, ",")
		if !r.Case(id) {
			return true
		}
		r.Exec()
		c14Bubble(r, id, func(w *c14World) {
			var order []string
			for _, o := range seq {
				ops[o].f(w, &order)
				r.Step(1)
			}
			if i, rv := w.diff(); len(i)+len(rv) > 0 {
				w.violation("late", "certificates changed: %v %v", i, rv)
			}
		})
		return !r.Expired()
	})
}
