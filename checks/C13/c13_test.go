package proxy

import (
	"bytes"
	"context"
	"crypto"
	"crypto/ecdsa"
	"crypto/elliptic"
	"crypto/rand"
	"crypto/tls"
	"crypto/x509"
	"crypto/x509/pkix"
	"encoding/base64"
	"encoding/pem"
	"fmt"
	"html"
	"io"
	"math/big"
	"net/http"
	"net/http/httptest"
	"os"
	"regexp"
	"runtime/debug"
	"slices"
	"strconv"
	"strings"
	"testing"
	"time"

	"github.com/c2FmZQ/storage"
	mkc "github.com/c2FmZQ/storage/crypto"
	jwt "github.com/golang-jwt/jwt/v5"
	"golang.org/x/crypto/ocsp"

	"github.com/c2FmZQ/tlsproxy/internal/vnet"
	"github.com/c2FmZQ/tlsproxy/internal/vsched"
	"github.com/c2FmZQ/tlsproxy/internal/vsync"
	"github.com/c2FmZQ/tlsproxy/internal/vx"
	"github.com/c2FmZQ/tlsproxy/proxy/internal/pki"
	vos "github.com/c2FmZQ/tlsproxy/zzvx/vos"
)

const c13User = "bob@example.com"

func c13Cfg() *Config {
	return simCfg(
		&Backend{ServerNames: []string{"www.example.com"}, Mode: "TCP", Addresses: []string{"10.0.0.1:1"}, ClientAuth: &ClientAuth{RootCAs: []string{"ca"}}},
		&Backend{ServerNames: []string{"ca.example.com"}, Mode: "LOCAL"},
	)
}

func c13Config() *Config {
	cfg := c13Cfg()
	cfg.PKI = []*ConfigPKI{{
		Name: "ca", Endpoint: "https://ca.example.com/certs", Admins: []string{c13User},
		IssuingCertificateURLs: []string{"https://ca.example.com/ca.pem"},
		CRLDistributionPoints:  []string{"https://ca.example.com/crl"},
		OCSPServer:             []string{"https://ca.example.com/ocsp"},
	}}
	return cfg
}

// c13Cert is an issued certificate. revoked is 0 (no), 1 (yes), or 2 (tried).
type c13Cert struct {
	c       *x509.Certificate
	revoked int
}

type c13World struct {
	r     *vx.R
	id    string
	p     *Proxy
	prev  *pki.PKIManager
	certs []*c13Cert
	bad   bool
	seen  map[string]bool
	crlNo *big.Int
}

func (w *c13World) m() *pki.PKIManager { return w.p.pkis["ca"] }

func (w *c13World) violation(key, f string, a ...any) {
	if !w.bad {
		w.r.Violation(key, "%s: "+f, append([]any{w.id}, a...)...)
	}
	w.bad = true
}

var (
	c13CSR  *x509.CertificateRequest
	c13Key  *ecdsa.PrivateKey
	c13Base vos.Disk
	c13MK   mkc.MasterKey
	c13Two  []*x509.Certificate
)

func (w *c13World) start() bool {
	p := &Proxy{
		certManager:  vxCM,
		mk:           c13MK,
		store:        storage.New("/cache", c13MK),
		tokenManager: simStuff.tm,
		ocspCache:    simStuff.oc,
		bwLimits:     make(map[string]*bwLimit),
		inConns:      newConnTracker(),
		outConns:     newConnTracker(),
	}
	if err := p.Reconfigure(c13Config()); err != nil {
		w.violation("start", "the proxy doesn't start: %v", err)
		return false
	}
	w.p, w.prev = p, nil
	return true
}

func (w *c13World) stop() {
	if w.p != nil {
		for _, be := range w.p.backends {
			be.close(nil)
		}
		w.p = nil
	}
}

func (w *c13World) add(raw []byte) *c13Cert {
	c, err := x509.ParseCertificate(raw)
	if err != nil {
		w.violation("cert", "the certificate that was issued can't be parsed: %v", err)
		return nil
	}
	if w.seen == nil {
		w.seen = map[string]bool{}
	}
	k := c.SerialNumber.String()
	if w.seen[k] {
		w.violation("serial", "serial number %s was used twice", k)
	}
	w.seen[k] = true
	cc := &c13Cert{c: c}
	w.certs = append(w.certs, cc)
	return cc
}

func (w *c13World) issue() {
	raw, err := w.m().IssueCertificate(c13CSR)
	if err != nil {
		w.violation("issue", "no certificate can be issued: %v", err)
		return
	}
	w.add(raw)
}

func (w *c13World) revoke(m *pki.PKIManager, reason int) {
	for _, c := range w.certs {
		if c.revoked != 1 {
			if err := m.RevokeCertificate(c.c.SerialNumber, reason); err != nil {
				w.violation("revoke", "the certificate can't be revoked: %v", err)
				return
			}
			c.revoked = 1
			return
		}
	}
}

func c13Get(f http.HandlerFunc, method, url string, body []byte, ct string) (int, []byte) {
	req := httptest.NewRequest(method, url, bytes.NewReader(body))
	if ct != "" {
		req.Header.Set("content-type", ct)
	}
	req = req.WithContext(context.WithValue(req.Context(), authCtxKey, jwt.MapClaims{"email": c13User}))
	rec := httptest.NewRecorder()
	f(rec, req)
	return rec.Code, rec.Body.Bytes()
}

func c13PEM(b []byte, typ string) (out [][]byte) {
	for len(b) > 0 {
		var bl *pem.Block
		if bl, b = pem.Decode(b); bl == nil {
			return out
		}
		if bl.Type == typ {
			out = append(out, bl.Bytes)
		}
	}
	return out
}

// chain fetches the authority's certificates.
func (w *c13World) chain() (ca *x509.Certificate, others []*x509.Certificate) {
	st, b := c13Get(w.m().ServeCACert, "GET", "https://ca.example.com/ca.pem", nil, "")
	for _, raw := range c13PEM(b, "CERTIFICATE") {
		c, err := x509.ParseCertificate(raw)
		if err != nil {
			w.violation("ca", "the authority's certificate can't be parsed: %v", err)
			return nil, nil
		}
		if ca == nil {
			ca = c
		} else {
			others = append(others, c)
		}
	}
	if ca == nil || st != 200 {
		w.violation("ca", "the authority's certificate is not served: %d", st)
		return nil, nil
	}
	now := time.Now()
	if now.Before(ca.NotBefore.Truncate(time.Second)) || now.After(ca.NotAfter) || !ca.IsCA || ca.CheckSignatureFrom(ca) != nil {
		w.violation("ca", "the authority's certificate isn't valid")
	}
	return ca, others
}

func c13Valid(now time.Time, c, ca *x509.Certificate) error {
	if now.Before(c.NotBefore) || now.After(c.NotAfter) {
		return fmt.Errorf("the signer's certificate is valid from %s to %s", c.NotBefore, c.NotAfter)
	}
	if err := c.CheckSignatureFrom(ca); err != nil {
		return fmt.Errorf("the signer's certificate: %v", err)
	}
	return nil
}

// crl checks the revocation list.
func (w *c13World) crl() {
	for i := 0; i < 2; i++ {
		var raw []byte
		var embedded []*x509.Certificate
		if i == 0 {
			st, b := c13Get(w.m().ServeCRL, "GET", "https://ca.example.com/crl", nil, "")
			if st != 200 {
				w.violation("crl", "no revocation list: %d", st)
				return
			}
			raw = b
		} else {
			st, b := c13Get(w.m().ServeCRL, "GET", "https://ca.example.com/crl.pem", nil, "")
			l := c13PEM(b, "X509 CRL")
			if st != 200 || len(l) != 1 {
				w.violation("crl", "no revocation list: %d", st)
				return
			}
			raw = l[0]
			for _, c := range c13PEM(b, "CERTIFICATE") {
				if c, err := x509.ParseCertificate(c); err == nil {
					embedded = append(embedded, c)
				}
			}
			if len(embedded) == 0 {
				w.violation("crl", "no signer certificate")
			}
		}
		ca, others := w.chain()
		if ca == nil {
			return
		}
		if i == 1 {
			others = embedded
		}
		rl, err := x509.ParseRevocationList(raw)
		if err != nil {
			w.violation("crl", "the revocation list can't be parsed: %v", err)
			return
		}
		now := time.Now()
		if rl.ThisUpdate.After(now) || !rl.NextUpdate.After(now) {
			w.violation("crl/validity", "the revocation list served at %s is valid from %s to %s", now.UTC(), rl.ThisUpdate, rl.NextUpdate)
		}
		if rl.Number == nil || w.crlNo != nil && rl.Number.Cmp(w.crlNo) < 0 {
			w.violation("crl/number", "the revocation list's number went back to %v", rl.Number)
		}
		w.crlNo = rl.Number
		ok := false
		err = fmt.Errorf("none of the %d certificates served signs it", len(others))
		for _, s := range append([]*x509.Certificate{ca}, others...) {
			if rl.CheckSignatureFrom(s) == nil {
				if err = c13Valid(now, s, ca); err == nil {
					ok = true
					break
				}
			}
		}
		if !ok {
			w.violation("crl/signature", "the revocation list doesn't verify: %v", err)
		}
		listed := map[string]bool{}
		for _, e := range rl.RevokedCertificateEntries {
			k := e.SerialNumber.String()
			if listed[k] {
				w.violation("crl/twice", "the revocation list lists %s twice", k)
			}
			listed[k] = true
			if e.RevocationTime.After(now) {
				w.violation("crl/time", "revoked in the future: %s", e.RevocationTime)
			}
		}
		for j, c := range w.certs {
			in := listed[c.c.SerialNumber.String()]
			delete(listed, c.c.SerialNumber.String())
			if c.revoked == 1 && !in && now.Before(c.c.NotAfter) {
				w.violation("crl/missing", "certificate %d was revoked and the revocation list doesn't say so", j)
			}
			if c.revoked == 0 && in {
				w.violation("crl/extra", "certificate %d was not revoked and the revocation list says so", j)
			}
		}
		if len(listed) > 0 {
			w.violation("crl/unknown", "the revocation list lists other certificates: %v", listed)
		}
	}
}

func c13OCSPReq(serial *big.Int, ca *x509.Certificate) []byte {
	b, err := ocsp.CreateRequest(&x509.Certificate{SerialNumber: serial}, ca, &ocsp.RequestOptions{Hash: crypto.SHA1})
	if err != nil {
		panic(err)
	}
	return b
}

func c13OCSPPath(serial *big.Int, ca *x509.Certificate) string {
	e := base64.StdEncoding.EncodeToString(c13OCSPReq(serial, ca))
	return strings.NewReplacer("+", "%2B", "/", "%2F", "=", "%3D").Replace(e)
}

// c13Slashes returns serial numbers whose requests have special characters.
func c13Slashes(ca *x509.Certificate) (out []*big.Int) {
	for _, p := range []string{"%2F%2F", "%2F%2F%2F", "%2B", "%2B%2F", "%3D"} {
		for i := int64(0xfff0f0); i < 0xffffff; i++ {
			sn := new(big.Int).Lsh(big.NewInt(i), 24)
			sn.Add(sn, big.NewInt(i))
			if strings.Contains(c13OCSPPath(sn, ca), p) {
				out = append(out, sn)
				break
			}
		}
	}
	return out
}

func (w *c13World) ocsp1(serial *big.Int, ca, signed *x509.Certificate, how int) *ocsp.Response {
	b := c13OCSPReq(serial, ca)
	var st int
	var raw []byte
	switch how {
	case 0:
		st, raw = c13Get(w.m().ServeOCSP, "POST", "https://ca.example.com/ocsp", b, "application/ocsp-request")
	default:
		st, raw = c13Get(w.m().ServeOCSP, "GET", "https://ca.example.com/ocsp/"+c13OCSPPath(serial, ca), nil, "")
	}
	if st != 200 {
		w.violation("ocsp", "no OCSP answer: %d", st)
		return nil
	}
	resp, err := ocsp.ParseResponse(raw, signed)
	if err != nil {
		w.violation("ocsp/signature", "the OCSP answer doesn't verify: %v", err)
		return nil
	}
	now := time.Now()
	if resp.ThisUpdate.After(now) || !resp.NextUpdate.After(now) {
		w.violation("ocsp/validity", "the OCSP answer given at %s is valid from %s to %s", now.UTC(), resp.ThisUpdate, resp.NextUpdate)
	}
	if s := resp.Certificate; s != nil {
		if err := c13Valid(now, s, signed); err != nil {
			w.violation("ocsp/signature", "the OCSP answer doesn't verify: %v", err)
		}
		if !slices.Contains(s.ExtKeyUsage, x509.ExtKeyUsageOCSPSigning) {
			w.violation("ocsp/signature", "the OCSP answer's signer may not sign OCSP answers")
		}
	}
	if resp.SerialNumber.Cmp(serial) != 0 {
		w.violation("ocsp/serial", "the OCSP answer is for serial number %s", resp.SerialNumber)
	}
	return resp
}

var c13Other *x509.Certificate

// ocsp checks the OCSP answers.
func (w *c13World) ocsp() {
	ca, _ := w.chain()
	if ca == nil {
		return
	}
	for how := 0; how < 2; how++ {
		for i, c := range w.certs {
			resp := w.ocsp1(c.c.SerialNumber, ca, ca, how)
			if resp == nil {
				return
			}
			switch {
			case c.revoked == 1 && resp.Status != ocsp.Revoked:
				w.violation("ocsp/missing", "certificate %d was revoked and the OCSP answer is %d", i, resp.Status)
			case c.revoked == 0 && resp.Status != ocsp.Good:
				w.violation("ocsp/extra", "certificate %d was not revoked and the OCSP answer is %d", i, resp.Status)
			}
			if resp = w.ocsp1(c.c.SerialNumber, c13Other, ca, how); resp != nil && resp.Status != ocsp.Unknown {
				w.violation("ocsp/issuer", "the OCSP answer for another authority's certificate is %d", resp.Status)
			}
		}
		for _, sn := range []*big.Int{big.NewInt(4711), new(big.Int).Add(w.certs[0].c.SerialNumber, big.NewInt(1)), new(big.Int).Lsh(w.certs[0].c.SerialNumber, 8)} {
			if resp := w.ocsp1(sn, ca, ca, how); resp != nil && resp.Status == ocsp.Good {
				w.violation("ocsp/unknown", "the OCSP answer for an unknown serial number is good")
			}
		}
	}
}

var c13Row = regexp.MustCompile(`[0-9a-f]{2}(:[0-9a-f]{2}){12,20}`)

// lists checks IsRevoked and the certificate page.
func (w *c13World) lists() { w.list(0, len(w.certs)) }

func (w *c13World) list(from, to int) {
	now := time.Now()
	pages := map[string]string{}
	for _, st := range []string{"valid", "revoked"} {
		code, b := c13Get(w.m().ServeCertificateManagement, "GET", "https://ca.example.com/certs?owner=all&status="+st, nil, "")
		if code != 200 {
			w.violation("page", "no certificate page: %d", code)
			return
		}
		pages[st] = html.UnescapeString(string(b))
	}
	for i, c := range w.certs[:to] {
		if i < from {
			continue
		}
		if got := w.m().IsRevoked(c.c.SerialNumber); c.revoked < 2 && got != (c.revoked == 1) {
			w.violation("isrevoked", "certificate %d: revoked %v, the handshake decision says %v", i, c.revoked == 1, got)
		}
		sn := c13Hex(c.c.SerialNumber.Bytes())
		if c.revoked == 1 && !strings.Contains(pages["revoked"], sn) || c.revoked > 0 && c.revoked < 2 && strings.Contains(pages["valid"], sn) {
			w.violation("page/missing", "certificate %d was revoked and the certificate page doesn't say so", i)
		}
		if c.revoked == 0 && (strings.Contains(pages["revoked"], sn) || now.Before(c.c.NotAfter) && !strings.Contains(pages["valid"], sn)) {
			w.violation("page/extra", "certificate %d was not revoked and the certificate page says so", i)
		}
	}
}

func c13Hex(b []byte) string {
	var s []string
	for _, v := range b {
		s = append(s, fmt.Sprintf("%02x", v))
	}
	return strings.Join(s, ":")
}

func (w *c13World) final() {
	w.lists()
	w.ocsp()
	w.crl()
	w.lists()
}

type c13Op struct {
	name string
	f    func(w *c13World)
}

func c13Wait(d time.Duration) func(w *c13World) {
	return func(w *c13World) { time.Sleep(d) }
}

var c13Ops = []c13Op{
	{"revoke", func(w *c13World) { w.revoke(w.m(), pki.RevokeReasonUnspecified) }},
	{"crl", (*c13World).crl},
	{"ocsp", (*c13World).ocsp},
	{"reload", func(w *c13World) {
		w.prev = w.m()
		if err := w.p.Reconfigure(c13Config()); err != nil {
			w.violation("reload", "the reload failed: %v", err)
		}
	}},
	{"1s", c13Wait(1500 * time.Millisecond)},
	{"61m", c13Wait(61*time.Minute + 300*time.Millisecond)},
	// The in-progress request of before the reload.
	{"oldrevoke", func(w *c13World) {
		m := w.prev
		if m == nil {
			m = w.m()
		}
		w.revoke(m, pki.RevokeReasonKeyCompromise)
	}},
	{"oldcrl", func(w *c13World) {
		if w.prev != nil {
			w.prev.RevocationList()
		}
	}},
	{"issue", (*c13World).issue},
	{"restart", func(w *c13World) {
		w.stop()
		time.Sleep(1100 * time.Millisecond)
		w.start()
	}},
	{"40m", c13Wait(40*time.Minute + 300*time.Millisecond)},
	{"6d", c13Wait(6*24*time.Hour + 300*time.Millisecond)},
	// The proxy is restarted at least once every few years.
	{"6y", func(w *c13World) {
		w.stop()
		time.Sleep(6*365*24*time.Hour + 300*time.Millisecond)
		w.start()
	}},
	{"failed", func(w *c13World) {
		vos.Fail(func(kind, file string) bool { return kind == "rename" })
		// Temporary files are named after the clock.
		defer time.Sleep(time.Millisecond)
		defer vos.Fail(nil)
		for _, c := range w.certs {
			if c.revoked == 0 {
				if err := w.m().RevokeCertificate(c.c.SerialNumber, 1); err == nil {
					c.revoked = 1
				} else {
					c.revoked = 2
				}
				return
			}
		}
	}},
}

func (w *c13World) prepare() bool {
	vos.Restore(c13Base)
	if !w.start() {
		return false
	}
	for _, c := range c13Two {
		w.add(c.Raw)
	}
	return true
}

func c13Histories(r *vx.R) {
	n := len(c13Ops)
	full := r.Pick(3, 4)
	core := 6
	deep := r.Pick(4, 6)
	r.Bound("operations", n)
	r.Bound("history length", full)
	r.Bound("history length, main operations", deep)
	run := func(seq []int) {
		var id []string
		for _, o := range seq {
			id = append(id, c13Ops[o].name)
		}
		cid := "history/" + strings.Join(id, ",")
		if !r.Case(cid) {
			return
		}
		r.Exec()
		vsched.Bubble(r, cid, func(x *vsched.X) {
			w := &c13World{r: r, id: cid}
			time.Sleep(time.Hour + 250*time.Millisecond)
			if !w.prepare() {
				return
			}
			for _, o := range seq {
				if w.bad {
					break
				}
				c13Ops[o].f(w)
				r.Step(1)
			}
			if !w.bad {
				w.final()
			}
			w.stop()
			nrev := 0
			for _, c := range w.certs {
				if c.revoked == 1 {
					nrev++
				}
			}
			r.Outcome("histories with " + strconv.Itoa(nrev) + " revoked certificates")
		})
	}
	vx.Sequences(n, 0, full, func(seq []int) bool {
		run(seq)
		return !r.Expired()
	})
	vx.Sequences(core, full+1, deep, func(seq []int) bool {
		if slices.Contains(seq, 0) {
			run(seq)
		}
		return !r.Expired()
	})
}

func c13Races(r *vx.R) {
	type act struct {
		name string
		f    func(w *c13World)
	}
	acts := []act{
		{"revoke0", func(w *c13World) {
			if err := w.m().RevokeCertificate(w.certs[0].c.SerialNumber, 1); err != nil {
				w.violation("revoke", "the certificate can't be revoked: %v", err)
			}
			w.certs[0].revoked = 1
			w.list(0, 1)
		}},
		{"revoke1", func(w *c13World) {
			if err := w.m().RevokeCertificate(w.certs[1].c.SerialNumber, 1); err != nil {
				w.violation("revoke", "the certificate can't be revoked: %v", err)
			}
			w.certs[1].revoked = 1
			if !w.m().IsRevoked(w.certs[1].c.SerialNumber) {
				w.violation("isrevoked", "just revoked, and the handshake decision says no")
			}
		}},
		{"issue", func(w *c13World) {
			raw, err := w.m().IssueCertificate(c13CSR)
			if err != nil {
				w.violation("issue", "no certificate can be issued: %v", err)
				return
			}
			w.add(raw)
		}},
		{"crl", func(w *c13World) {
			st, b := c13Get(w.m().ServeCRL, "GET", "https://ca.example.com/crl", nil, "")
			if st != 200 {
				w.violation("crl", "no revocation list: %d %s", st, b)
			}
		}},
		{"ocsp", func(w *c13World) {
			ca, _ := w.m().CACert()
			for i := 0; i < 2; i++ {
				known := w.certs[0].revoked == 1
				resp := w.ocsp1(w.certs[0].c.SerialNumber, ca, ca, 0)
				if resp == nil {
					return
				}
				if known && resp.Status != ocsp.Revoked {
					w.violation("ocsp/missing", "revoked, and the OCSP answer is %d", resp.Status)
				}
			}
		}},
		{"reload", func(w *c13World) {
			if err := w.p.Reconfigure(c13Config()); err != nil {
				w.violation("reload", "the reload failed: %v", err)
			}
		}},
	}
	for i := range acts {
		for j := i; j < len(acts); j++ {
			for _, rotated := range []bool{false, true} {
				scn := fmt.Sprintf("race/%s+%s", acts[i].name, acts[j].name)
				if rotated {
					scn += "+rotation"
				}
				a, b := acts[i], acts[j]
				vsched.Explore(r, scn, vsched.Opts{Deviations: r.Pick(1, 2), Horizon: 20 * 24 * time.Hour}, func(x *vsched.X) func() {
					w := &c13World{r: r, id: x.ID}
					time.Sleep(time.Hour)
					w.prepare()
					if rotated {
						w.crl()
						time.Sleep(6 * 24 * time.Hour)
					}
					vos.Hook = func(kind, file string) { vsync.Yield("vos." + kind) }
					x.Go("a", func() { a.f(w) })
					x.Go("b", func() { b.f(w) })
					return func() {
						vos.Hook = nil
						if len(x.Stuck) > 0 {
							w.violation("stuck", "stuck: %v", x.Stuck)
						} else if !w.bad {
							w.final()
						}
						w.stop()
					}
				})
			}
		}
	}
}

func TestVX(t *testing.T) {
	r := vx.Start(t, "C13")
	defer r.Done()
	simInit(r, "www.example.com", "ca.example.com")
	vos.Reset()
	debug.SetGCPercent(2000)
	debug.SetMemoryLimit(1 << 30)
	var err error
	if c13MK, err = mkc.CreateAESMasterKeyForTest(); err != nil {
		t.Fatal(err)
	}
	if c13Key, err = ecdsa.GenerateKey(elliptic.P256(), rand.Reader); err != nil {
		t.Fatal(err)
	}
	raw, err := x509.CreateCertificateRequest(rand.Reader, &x509.CertificateRequest{Subject: pkix.Name{CommonName: c13User}, EmailAddresses: []string{c13User}}, c13Key)
	if err != nil {
		t.Fatal(err)
	}
	if c13CSR, err = x509.ParseCertificateRequest(raw); err != nil {
		t.Fatal(err)
	}
	r.InGroup("init")
	vsched.Bubble(r, "init", func(x *vsched.X) {
		w := &c13World{r: r, id: "init"}
		if !w.start() {
			return
		}
		for i := 0; i < 2; i++ {
			w.issue()
			c13Two = append(c13Two, w.certs[i].c)
		}
		other, err := pki.New(pki.Options{Name: "other", Store: storage.New("/other", c13MK)})
		if err != nil {
			panic(err)
		}
		c13Other, _ = other.CACert()
		w.stop()
	})
	c13Base = vos.Snapshot()
	c13Histories(r)
	if os.Getenv("C13_NORACE") == "" {
		c13Races(r)
	}
	c13Handshakes(r)
}

// c13Handshakes asks real handshakes.
func c13Handshakes(r *vx.R) {
	ops := []string{"revoke0", "revoke1", "reload", "restart", "1s"}
	max := r.Pick(3, 4)
	r.Bound("handshake history length", max)
	vx.Sequences(len(ops), 1, max, func(seq []int) bool {
		var names []string
		for _, o := range seq {
			names = append(names, ops[o])
		}
		id := "handshake/" + strings.Join(names, ",")
		if !r.Case(id) {
			return true
		}
		r.Exec()
		vsched.Bubble(r, id, func(x *vsched.X) {
			vos.Restore(c13Base)
			time.Sleep(time.Hour)
			store, mk := simStuff.store, simStuff.mk
			defer func() { simStuff.store, simStuff.mk = store, mk }()
			simStuff.store, simStuff.mk = storage.New("/cache", c13MK), c13MK
			s := newSim(x, c13Config())
			s.upstream("10.0.0.1:1", func(c *vnet.VConn) { c.Write([]byte("x")); io.Copy(io.Discard, c); c.Close() })
			rev := []bool{false, false}
			check := func() {
				for i, c := range c13Two {
					conn, err := s.dial("c"+strconv.Itoa(i), "www.example.com", nil, "192.0.2.1:0", &tls.Certificate{Certificate: [][]byte{c.Raw}, PrivateKey: c13Key})
					if err == nil {
						// The server's verdict comes with the first read.
						_, err = io.ReadFull(conn.tls, make([]byte, 1))
						conn.tls.Close()
					}
					if (err != nil) != rev[i] {
						r.Violation("handshake", "%s: certificate %d: revoked %v, the handshake: %v", id, i, rev[i], err)
					}
				}
			}
			for _, o := range seq {
				switch o {
				case 0, 1:
					if err := s.p.pkis["ca"].RevokeCertificate(c13Two[o].SerialNumber, 1); err != nil {
						r.Violation("revoke", "%s: can't be revoked: %v", id, err)
					}
					rev[o] = true
				case 2:
					if err := s.p.Reconfigure(c13Config()); err != nil {
						r.Violation("reload", "%s: the reload failed: %v", id, err)
					}
				case 3:
					s.p.Stop()
					s.cancel()
					time.Sleep(1100 * time.Millisecond)
					s = newSim(x, c13Config())
				case 4:
					time.Sleep(1100 * time.Millisecond)
				}
				r.Step(1)
			}
			check()
			web, err := s.dial("web", "ca.example.com", nil, "192.0.2.1:0", nil)
			if err != nil {
				r.Violation("web", "%s: %v", id, err)
				return
			}
			fetch := func(path string) []byte {
				st, body, err := web.get("ca.example.com", path)
				if err != nil || st != 200 {
					r.Violation("web", "%s: GET %s: %d %v", id, path, st, err)
				}
				return []byte(body)
			}
			ca, err := x509.ParseCertificate(c13PEM(fetch("/ca.pem"), "CERTIFICATE")[0])
			if err != nil {
				r.Violation("web", "%s: ca: %v", id, err)
				return
			}
			for i, c := range c13Two {
				resp, err := ocsp.ParseResponse(fetch("/ocsp/"+c13OCSPPath(c.SerialNumber, ca)), ca)
				if err != nil || (resp.Status == ocsp.Revoked) != rev[i] || resp.SerialNumber.Cmp(c.SerialNumber) != 0 {
					r.Violation("ocsp", "%s: certificate %d: revoked %v, OCSP says %+v %v", id, i, rev[i], resp, err)
				}
			}
			for _, sn := range c13Slashes(ca) {
				resp, err := ocsp.ParseResponse(fetch("/ocsp/"+c13OCSPPath(sn, ca)), ca)
				if err != nil || resp.Status == ocsp.Good || resp.SerialNumber.Cmp(sn) != 0 {
					r.Violation("ocsp", "%s: unknown certificate: OCSP says %+v %v", id, resp, err)
				}
			}
			rl, err := x509.ParseRevocationList(fetch("/crl"))
			if err != nil {
				r.Violation("crl", "%s: %v", id, err)
				return
			}
			for i, c := range c13Two {
				if slices.ContainsFunc(rl.RevokedCertificateEntries, func(e x509.RevocationListEntry) bool { return e.SerialNumber.Cmp(c.SerialNumber) == 0 }) != rev[i] {
					r.Violation("crl", "%s: certificate %d: revoked %v, the list says otherwise", id, i, rev[i])
				}
			}
			if s.panicked() {
				r.Violation("panic", "%s: the proxy panicked", id)
			}
		})
		return !r.Expired()
	})
}
