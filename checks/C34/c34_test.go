package proxy

import (
	"bytes"
	"context"
	"crypto/ecdsa"
	"crypto/elliptic"
	"crypto/rand"
	"crypto/x509"
	"crypto/x509/pkix"
	"errors"
	"fmt"
	"io"
	"log"
	"math/big"
	"net/http/httptest"
	"os"
	"runtime/debug"
	"slices"
	"strings"
	"testing"
	"testing/synctest"
	"time"

	"github.com/c2FmZQ/storage"
	jwt "github.com/golang-jwt/jwt/v5"
	"golang.org/x/crypto/acme/autocert"

	"github.com/c2FmZQ/tlsproxy/internal/vx"
	"github.com/c2FmZQ/tlsproxy/proxy/internal/ocspcache"
	"github.com/c2FmZQ/tlsproxy/proxy/internal/passkeys"
	"github.com/c2FmZQ/tlsproxy/proxy/internal/pki"
	"github.com/c2FmZQ/tlsproxy/proxy/internal/sshca"
	"github.com/c2FmZQ/tlsproxy/proxy/internal/tokenmanager"
	vos "github.com/c2FmZQ/tlsproxy/zzvx/vos"
)

const c34User = "bob@example.com"

func c34Cfg() *Config {
	return &Config{
		CacheDir:  "/cache",
		HTTPAddr:  "localhost:0",
		TLSAddr:   "localhost:0",
		AcceptTOS: true,
		OIDCProviders: []*ConfigOIDC{{
			Name: "oidc", AuthEndpoint: "https://idp.example.net/a", TokenEndpoint: "https://idp.example.net/t",
			RedirectURL: "https://login.example.com/cb", ClientID: "id", ClientSecret: "secret",
		}},
		PasskeyProviders: []*ConfigPasskey{{
			Name: "passkey", IdentityProvider: "oidc", Endpoint: "https://passkeys.example.com/passkey",
		}},
		PKI:                       []*ConfigPKI{{Name: "ca", Endpoint: "https://ca.example.com/certs", Admins: []string{c34User}}},
		SSHCertificateAuthorities: []*ConfigSSHCertificateAuthority{{Name: "ssh", PublicKeyEndpoint: "https://ssh.example.com/ca"}},
		Backends: []*Backend{
			{ServerNames: []string{"www.example.com"}, Mode: "HTTPS", Addresses: []string{"127.0.0.1:1"}, SSO: &BackendSSO{Provider: "passkey"}},
			{ServerNames: []string{"login.example.com", "passkeys.example.com", "ca.example.com", "ssh.example.com"}, Mode: "LOCAL"},
		},
	}
}

// c34State is what has been acknowledged.
type c34State struct {
	started bool
	tokens  []string
	ca, ssh string
	certs   map[string]bool
	keys    []string
	ac      map[string]string
}

func (s c34State) clone() c34State {
	n := s
	n.tokens = slices.Clone(s.tokens)
	n.keys = slices.Clone(s.keys)
	n.certs, n.ac = map[string]bool{}, map[string]string{}
	for k, v := range s.certs {
		n.certs[k] = v
	}
	for k, v := range s.ac {
		n.ac[k] = v
	}
	return n
}

var c34CSR *x509.CertificateRequest

func c34PK(p *Proxy) *passkeys.Manager {
	for _, be := range p.backends {
		if be.SSO != nil {
			return be.SSO.p.(*passkeys.Manager)
		}
	}
	return nil
}

func c34AC(p *Proxy) autocert.Cache { return p.certManager.(*autocert.Manager).Cache }

// c34Look reads everything back.
func c34Look(p *Proxy) (s c34State, err error) {
	m := p.pkis["ca"]
	ca, err := m.CACert()
	if err != nil {
		return s, err
	}
	s.ca = string(ca.Raw)
	s.certs = pki.VXSerials(m)
	for sn, rev := range s.certs {
		n, _ := new(big.Int).SetString(strings.ReplaceAll(sn, ":", ""), 16)
		if n == nil {
			return s, fmt.Errorf("serial %q", sn)
		}
		if m.IsRevoked(n) != rev {
			return s, fmt.Errorf("certificate %s: revoked=%v, IsRevoked=%v", sn, rev, !rev)
		}
	}
	ssh, err := sshca.New(sshca.Options{Name: "ssh", Store: p.store, ClaimsFromCtx: claimsFromCtx})
	if err != nil {
		return s, fmt.Errorf("ssh: %w", err)
	}
	rec := httptest.NewRecorder()
	ssh.ServePublicKey(rec, httptest.NewRequest("GET", "https://ssh.example.com/ca", nil))
	if rec.Code != 200 {
		return s, fmt.Errorf("ssh: %d", rec.Code)
	}
	s.ssh = rec.Body.String()
	s.keys = passkeys.VXKeys(c34PK(p), c34User)
	s.ac = map[string]string{}
	for _, k := range []string{"a", "b"} {
		v, err := c34AC(p).Get(context.Background(), k)
		if errors.Is(err, autocert.ErrCacheMiss) {
			continue
		}
		if err != nil {
			return s, fmt.Errorf("autocert: %w", err)
		}
		s.ac[k] = string(v)
	}
	return s, nil
}

type c34Step struct {
	name string
	f    func(p *Proxy, s *c34State) error
}

func c34Token(p *Proxy, s *c34State) error {
	for _, alg := range []string{"", "ES256", "RS256"} {
		tok, err := p.tokenManager.CreateToken(jwt.MapClaims{"exp": time.Now().Add(1000 * time.Hour).Unix()}, alg)
		if err != nil {
			return err
		}
		s.tokens = append(s.tokens, tok)
	}
	return nil
}

func c34FirstCert(s *c34State) string {
	var out []string
	for k, rev := range s.certs {
		if !rev {
			out = append(out, k)
		}
	}
	slices.Sort(out)
	if len(out) == 0 {
		return ""
	}
	return out[0]
}

var c34Steps = []c34Step{
	{"issue", func(p *Proxy, s *c34State) error {
		raw, err := p.pkis["ca"].IssueCertificate(c34CSR)
		if err != nil {
			return err
		}
		c, err := x509.ParseCertificate(raw)
		if err != nil {
			return err
		}
		s.certs[c34Serial(c)] = false
		return nil
	}},
	{"revoke", func(p *Proxy, s *c34State) error {
		sn := c34FirstCert(s)
		if sn == "" {
			return nil
		}
		n, _ := new(big.Int).SetString(strings.ReplaceAll(sn, ":", ""), 16)
		if err := p.pkis["ca"].RevokeCertificate(n, 1); err != nil {
			return err
		}
		s.certs[sn] = true
		return nil
	}},
	{"crl", func(p *Proxy, s *c34State) error {
		_, _, err := p.pkis["ca"].RevocationList()
		if err == nil {
			// The delegate certificate is one of them.
			for k, v := range pki.VXSerials(p.pkis["ca"]) {
				s.certs[k] = v
			}
		}
		return err
	}},
	{"addkey", func(p *Proxy, s *c34State) error {
		id, err := passkeys.VXAdd(c34PK(p), c34User)
		if err == nil {
			s.keys = append(s.keys, id)
		}
		return err
	}},
	{"delkey", func(p *Proxy, s *c34State) error {
		if len(s.keys) == 0 {
			return nil
		}
		err := passkeys.VXDelete(c34PK(p), c34User, s.keys[0])
		if err == nil {
			s.keys = s.keys[1:]
		}
		return err
	}},
	{"put", func(p *Proxy, s *c34State) error {
		v := fmt.Sprintf("value-%d", time.Now().UnixNano())
		err := c34AC(p).Put(context.Background(), "a", []byte(v))
		if err == nil {
			s.ac["a"] = v
		}
		return err
	}},
	{"del", func(p *Proxy, s *c34State) error {
		err := c34AC(p).Delete(context.Background(), "a")
		if err == nil {
			delete(s.ac, "a")
		}
		return err
	}},
	{"rotate", func(p *Proxy, s *c34State) error {
		time.Sleep(25 * time.Hour)
		if err := tokenmanager.VXRotate(p.tokenManager); err != nil && !errors.Is(err, storage.ErrRolledBack) {
			return err
		}
		return c34Token(p, s)
	}},
	{"flush", func(p *Proxy, s *c34State) error { return ocspcache.VXFlush(p.ocspCache) }},
}

func c34Serial(c *x509.Certificate) string {
	var b []string
	for _, x := range c.SerialNumber.Bytes() {
		b = append(b, fmt.Sprintf("%02x", x))
	}
	return strings.Join(b, ":")
}

// c34Check compares what there is now with what was acknowledged, when step
// (or "") was interrupted.
func c34Check(p *Proxy, old c34State, step string) (c34State, error) {
	now, err := c34Look(p)
	if err != nil {
		return now, err
	}
	now.started = true
	now.tokens = old.tokens
	if !old.started {
		return now, nil
	}
	for i, tok := range old.tokens {
		if _, err := p.tokenManager.ValidateToken(tok); err != nil {
			return now, fmt.Errorf("token %d doesn't verify any more: %v", i, err)
		}
	}
	if now.ca != old.ca {
		return now, errors.New("the certificate authority is another one")
	}
	if now.ssh != old.ssh {
		return now, errors.New("the ssh authority is another one")
	}
	extra := 0
	for sn, rev := range old.certs {
		got, ok := now.certs[sn]
		switch {
		case !ok:
			return now, errors.New("an issued certificate is forgotten")
		case rev && !got:
			return now, errors.New("a revocation is forgotten")
		case got && !rev:
			extra++
			if step != "revoke" {
				return now, errors.New("a certificate is revoked that was not")
			}
		}
	}
	for sn, rev := range now.certs {
		if _, ok := old.certs[sn]; !ok {
			extra++
			if step != "issue" && step != "crl" || rev {
				return now, errors.New("there is a certificate that was not issued")
			}
		}
	}
	if extra > 1 {
		return now, fmt.Errorf("%d certificates differ", extra)
	}
	extra = 0
	for _, k := range old.keys {
		if !slices.Contains(now.keys, k) {
			extra++
			if step != "delkey" {
				return now, errors.New("a passkey is forgotten")
			}
		}
	}
	for _, k := range now.keys {
		if !slices.Contains(old.keys, k) {
			extra++
			if step != "addkey" {
				return now, errors.New("there is a passkey that was not registered, or that was deleted")
			}
		}
	}
	if extra > 1 {
		return now, fmt.Errorf("%d passkeys differ", extra)
	}
	switch got, want := now.ac["a"], old.ac["a"]; {
	case got == want:
	case step == "put" && strings.HasPrefix(got, "value-"):
	case step == "del" && got == "":
	default:
		return now, fmt.Errorf("cached %q, want %q", got, want)
	}
	return now, nil
}

func c34Start(pass string) (p *Proxy, err error) {
	t0 := time.Now()
	p, err = New(c34Cfg(), []byte(pass))
	if p != nil {
		c34Proxies = append(c34Proxies, p)
	}
	if err == nil && time.Since(t0) > 30*time.Minute {
		err = fmt.Errorf("it took %v to start", time.Since(t0))
	}
	return p, err
}

var c34Proxies []*Proxy

// c34Bubble runs f in virtual time. What a proxy that doesn't start leaves
// behind is forgotten.
func c34Bubble(f func()) {
	done := false
	defer func() {
		if e := recover(); e != nil && !(done && strings.Contains(fmt.Sprint(e), "deadlock")) {
			panic(e)
		}
	}()
	synctest.Run(func() {
		f()
		for _, p := range c34Proxies {
			for _, be := range p.backends {
				be.close(nil)
			}
		}
		c34Proxies = nil
		done = true
	})
}

type c34Points struct {
	n    int
	torn []int
}

func TestVX(t *testing.T) {
	r := vx.Start(t, "C34")
	defer r.Done()
	if os.Getenv("VX_LOGS") == "" {
		log.SetOutput(io.Discard)
	}
	debug.SetGCPercent(2000)
	debug.SetMemoryLimit(1 << 30)
	key, err := ecdsa.GenerateKey(elliptic.P256(), rand.Reader)
	if err != nil {
		t.Fatal(err)
	}
	raw, err := x509.CreateCertificateRequest(rand.Reader, &x509.CertificateRequest{Subject: pkix.Name{CommonName: "bob"}, EmailAddresses: []string{c34User}}, key)
	if err != nil {
		t.Fatal(err)
	}
	if c34CSR, err = x509.ParseCertificateRequest(raw); err != nil {
		t.Fatal(err)
	}
	depth := r.Pick(2, 3)
	r.Bound("history length", depth)
	// The first start, then a start with data, then every history.
	c34Crashes(r, "first", nil, -1)
	c34Crashes(r, "restart", []int{0, 3, 5}, -1)
	c34Crashes(r, "restart-rotate", []int{0, 3, 5}, -2)
	vx.Sequences(len(c34Steps), 1, depth, func(seq []int) bool {
		var names []string
		for _, s := range seq {
			names = append(names, c34Steps[s].name)
		}
		c34Crashes(r, strings.Join(names, ","), seq[:len(seq)-1], seq[len(seq)-1])
		return true
	})
	c34Pass(r)
}

// c34Crashes stops the machine at every operation of the last step, after the
// others.
var c34Groups int

func c34Crashes(r *vx.R, name string, before []int, last int) {
	c34Groups++
	if last >= 0 && !r.Group(c34Groups, name+"/") {
		return
	}
	bubble := c34Bubble
	id := name + "/prepare"
	bad := func(key, f string, a ...any) { r.Violation(key, "%s: "+f, append([]any{id}, a...)...) }
	// Prepare.
	var disk vos.Disk
	var acked c34State
	var clock time.Time
	var ops []string
	ok := true
	r.InGroup(id)
	bubble(func() {
		vos.Reset()
		if last == -1 && before == nil {
			disk = vos.Snapshot()
		} else {
			p, err := c34Start("")
			if err != nil {
				bad("start", "%v", err)
				ok = false
				return
			}
			acked, err = c34Check(p, acked, "")
			if err != nil {
				bad("start", "%v", err)
				ok = false
				return
			}
			if err := c34Token(p, &acked); err != nil {
				bad("start", "%v", err)
				ok = false
				return
			}
			for _, s := range before {
				time.Sleep(time.Second)
				if err := c34Steps[s].f(p, &acked); err != nil {
					bad("step", "%s: %v", c34Steps[s].name, err)
					ok = false
					return
				}
			}
			disk = vos.Snapshot()
		}
		clock = time.Now().Add(time.Second)
	})
	if !ok {
		return
	}
	step := ""
	if last >= 0 {
		step = c34Steps[last].name
	}
	// attempt does the last step, from the disk as it is.
	attempt := func(crash, torn int) (s c34State, err error) {
		s = acked.clone()
		time.Sleep(clock.Sub(time.Now()))
		if last == -2 {
			time.Sleep(26 * time.Hour)
		}
		vos.Restore(disk)
		if last >= 0 {
			p, err := c34Start("")
			if err != nil {
				return s, err
			}
			vos.Crash(crash, torn)
			return s, c34Steps[last].f(p, &s)
		}
		vos.Crash(crash, torn)
		_, err = c34Start("")
		return s, err
	}
	bubble(func() {
		if _, err := attempt(-1, 0); err != nil {
			bad("step", "%v", err)
			ok = false
		}
		ops = vos.Ops()
	})
	if !ok {
		return
	}
	r.Outcome("%s %d operations", step, len(ops))
	points := func(ops []string) []c34Points {
		var out []c34Points
		for i, o := range ops {
			pt := c34Points{n: i, torn: []int{0}}
			if strings.HasPrefix(o, "write") {
				pt.torn = []int{0, 1, 2}
			}
			out = append(out, pt)
		}
		return out
	}
	for _, pt := range points(ops) {
		if last < 0 {
			if c34Groups++; !r.Group(c34Groups, name+"/") {
				continue
			}
		}
		for _, torn := range pt.torn {
			for lose := 0; lose < 3; lose++ {
				id = fmt.Sprintf("%s/%d/%d/%d", name, pt.n, torn, lose)
				if !r.InGroup(id) && !strings.HasPrefix(r.ReplayCase(), id+"/") {
					continue
				}
				r.Exec()
				var after vos.Disk
				var ops2 []string
				var when time.Time
				st := acked
				skip := false
				bubble(func() {
					s, err := attempt(pt.n, torn)
					if err == nil {
						// It didn't notice.
						st = s
					}
					if !vos.Crashed() {
						r.Outcome("no crash")
						skip = true
						return
					}
					if lose > 0 && !vos.Unsynced() {
						skip = true
						return
					}
					vos.Recover(lose)
					time.Sleep(time.Second)
					after = vos.Snapshot()
					when = time.Now().Add(time.Second)
					vos.Crash(-1, 0)
					r.Step(1)
					if !c34Recovered(r, id, st, step, true) {
						skip = true
					}
				})
				if skip {
					continue
				}
				// And once more while it starts again.
				if len(before) > 1 || last >= 0 && len(before) > 0 && !r.Thorough() {
					continue
				}
				bubble(func() {
					time.Sleep(time.Until(when))
					vos.Restore(after)
					vos.Crash(-1, 0)
					c34Start("")
					ops2 = vos.Ops()
				})
				for _, pt2 := range points(ops2) {
					if !r.Thorough() && step != "" && pt2.n%3 != 0 {
						continue
					}
					for _, torn2 := range pt2.torn {
						if torn2 > 0 && !r.Thorough() && torn2 != 1+pt.n%2 {
							continue
						}
						id = fmt.Sprintf("%s/%d/%d/%d/%d/%d", name, pt.n, torn, lose, pt2.n, torn2)
						if !r.InGroup(id) {
							continue
						}
						r.Exec()
						r.Step(1)
						bubble(func() {
							time.Sleep(time.Until(when))
							vos.Restore(after)
							vos.Crash(pt2.n, torn2)
							c34Start("")
							vos.Recover(1)
							time.Sleep(time.Second)
							c34Recovered(r, id, st, step, false)
						})
					}
				}
			}
		}
	}
}

// c34Recovered starts the proxy again, and sees whether everything is there
// and works.
func c34Recovered(r *vx.R, id string, st c34State, step string, all bool) bool {
	if len(vos.Files())%2 == 0 {
		// No need to wait for the locks.
		time.Sleep(12 * time.Minute)
	}
	p, err := c34Start("")
	if err != nil {
		r.Violation("restart", "%s: it doesn't start again: %v", id, err)
		return false
	}
	now, err := c34Check(p, st, step)
	if err != nil {
		r.Violation("lost", "%s: after the restart: %v", id, err)
		return false
	}
	r.State(step, st.started, len(now.certs)-len(st.certs), len(now.keys)-len(st.keys), len(now.ac)-len(st.ac))
	r.Outcome("recovered %s: %+d certificates, %+d passkeys, %+d cached", step, len(now.certs)-len(st.certs), len(now.keys)-len(st.keys), len(now.ac)-len(st.ac))
	now = now.clone()
	if !st.started {
		if err := c34Token(p, &now); err != nil {
			r.Violation("restart", "%s: %v", id, err)
			return false
		}
	}
	if !all {
		return true
	}
	for _, s := range c34Steps {
		if s.name == "crl" {
			continue
		}
		if err := s.f(p, &now); err != nil {
			r.Violation("stuck", "%s: after the restart, %s fails: %v", id, s.name, err)
			return false
		}
	}
	if p, err = c34Start(""); err != nil {
		r.Violation("restart", "%s: it doesn't start a second time: %v", id, err)
		return false
	}
	if _, err := c34Check(p, now, ""); err != nil {
		r.Violation("lost", "%s: after the second restart: %v", id, err)
		return false
	}
	return true
}

// c34Pass starts with wrong passphrases.
func c34Pass(r *vx.R) {
	right := "correct horse"
	var disk vos.Disk
	for i, wrong := range []string{"", "x", "correct hors", "correct horse ", "Correct horse"} {
		id := fmt.Sprintf("passphrase/%d", i)
		if !r.Case(id) {
			continue
		}
		r.Exec()
		r.Step(1)
		c34Bubble(func() {
			vos.Reset()
			if disk == nil {
				p, err := c34Start(right)
				if err != nil {
					r.Violation("passphrase", "%s: %v", id, err)
					return
				}
				_ = p
				disk = vos.Snapshot()
			}
			time.Sleep(time.Hour)
			vos.Restore(disk)
			if _, err := c34Start(wrong); err == nil {
				r.Violation("passphrase", "%s: the passphrase %q is accepted", id, wrong)
			}
			for f, was := range disk {
				if now := vos.Snapshot(); !bytes.Equal(vos.Data(now, f), vos.Data(disk, f)) {
					r.Violation("passphrase", "%s: %s is changed %v", id, f, was)
				}
			}
			p, err := c34Start(right)
			if err != nil {
				r.Violation("passphrase", "%s: it doesn't start any more: %v", id, err)
				return
			}
			if _, err := c34Look(p); err != nil {
				r.Violation("passphrase", "%s: %v", id, err)
			}
		})
	}
}
