package proxy

import (
	"bytes"
	"context"
	"crypto"
	"crypto/ecdsa"
	"crypto/elliptic"
	"crypto/rand"
	"crypto/rsa"
	"crypto/sha256"
	"crypto/x509"
	"crypto/x509/pkix"
	"encoding/base64"
	"encoding/json"
	"encoding/pem"
	"errors"
	"fmt"
	"io"
	"math/big"
	"net/http"
	"runtime/debug"
	"strings"
	"testing"
	"time"

	"github.com/c2FmZQ/storage"
	"github.com/c2FmZQ/storage/autocertcache"
	"golang.org/x/crypto/acme"
	"golang.org/x/crypto/acme/autocert"

	"github.com/c2FmZQ/tlsproxy/internal/vsched"
	"github.com/c2FmZQ/tlsproxy/internal/vx"
	vos "github.com/c2FmZQ/tlsproxy/zzvx/vos"
)

// c30Entry is an entry of the cache.
type c30Entry struct {
	key     string
	names   []string
	expired bool
	// other entries: token, garbage, nokey
	other string
	data  []byte
	der   []byte
	priv  crypto.Signer
}

const c30URL = "https://acme-v02.api.letsencrypt.org"

// c30CA is the authority.
type c30CA struct {
	t       testing.TB
	entries []*c30Entry
	account crypto.Signer
	answer  map[string]string // by cache key
	nonces  map[string]bool
	nonce   int
	asked   map[string]int // by cache key
	reasons map[string]int
	revoked map[string]bool
	bad     []string
}

func (ca *c30CA) problem(status int, typ, detail string) *http.Response {
	b, _ := json.Marshal(map[string]any{"type": "urn:ietf:params:acme:error:" + typ, "detail": detail, "status": status})
	return ca.respond(status, string(b), "application/problem+json")
}

func (ca *c30CA) respond(status int, body, typ string) *http.Response {
	ca.nonce++
	n := base64.RawURLEncoding.EncodeToString([]byte(fmt.Sprintf("nonce-%06d", ca.nonce)))
	ca.nonces[n] = true
	return &http.Response{StatusCode: status, ProtoMajor: 1, ProtoMinor: 1, Body: io.NopCloser(strings.NewReader(body)),
		Header: http.Header{"Content-Type": {typ}, "Replay-Nonce": {n}}, ContentLength: int64(len(body))}
}

type c30JWK struct {
	Kty, Crv, X, Y, N, E string
}

func (k *c30JWK) public() crypto.PublicKey {
	dec := func(s string) *big.Int {
		b, _ := base64.RawURLEncoding.DecodeString(s)
		return new(big.Int).SetBytes(b)
	}
	if k.Kty == "RSA" {
		return &rsa.PublicKey{N: dec(k.N), E: int(dec(k.E).Int64())}
	}
	return &ecdsa.PublicKey{Curve: elliptic.P256(), X: dec(k.X), Y: dec(k.Y)}
}

func (ca *c30CA) RoundTrip(req *http.Request) (*http.Response, error) {
	if err := req.Context().Err(); err != nil {
		return nil, err
	}
	var body []byte
	if req.Body != nil {
		body, _ = io.ReadAll(req.Body)
		req.Body.Close()
	}
	switch u := req.URL.String(); {
	case u == c30URL+"/directory":
		return ca.respond(200, `{"newNonce":"`+c30URL+`/nonce","newAccount":"`+c30URL+`/account","newOrder":"`+c30URL+`/order","revokeCert":"`+c30URL+`/revoke","keyChange":"`+c30URL+`/key"}`, "application/json"), nil
	case u == c30URL+"/nonce":
		return ca.respond(200, "", "text/plain"), nil
	case req.Method == "POST" && (u == c30URL+"/revoke" || u == c30URL+"/account"):
		var jws struct{ Protected, Payload, Signature string }
		if err := json.Unmarshal(body, &jws); err != nil {
			return ca.problem(400, "malformed", "not a JWS"), nil
		}
		ph, _ := base64.RawURLEncoding.DecodeString(jws.Protected)
		var hdr struct {
			Alg, Kid, Nonce, URL string
			JWK                  *c30JWK
		}
		if err := json.Unmarshal(ph, &hdr); err != nil || hdr.URL != u {
			return ca.problem(400, "malformed", "bad header"), nil
		}
		if !ca.nonces[hdr.Nonce] {
			return ca.problem(400, "badNonce", "bad nonce"), nil
		}
		delete(ca.nonces, hdr.Nonce)
		var pub crypto.PublicKey
		if hdr.JWK != nil {
			pub = hdr.JWK.public()
		} else {
			pub = ca.account.Public()
		}
		h := sha256.Sum256([]byte(jws.Protected + "." + jws.Payload))
		sig, _ := base64.RawURLEncoding.DecodeString(jws.Signature)
		ok := false
		switch pub := pub.(type) {
		case *ecdsa.PublicKey:
			if len(sig) == 64 {
				ok = ecdsa.Verify(pub, h[:], new(big.Int).SetBytes(sig[:32]), new(big.Int).SetBytes(sig[32:]))
			}
		case *rsa.PublicKey:
			ok = rsa.VerifyPKCS1v15(pub, crypto.SHA256, h[:], sig) == nil
		}
		if !ok {
			return ca.problem(400, "malformed", "bad signature"), nil
		}
		if u == c30URL+"/account" {
			resp := ca.respond(200, `{"status":"valid"}`, "application/json")
			resp.Header.Set("Location", c30URL+"/account/1")
			return resp, nil
		}
		pl, _ := base64.RawURLEncoding.DecodeString(jws.Payload)
		var msg struct {
			Certificate string
			Reason      int
		}
		if err := json.Unmarshal(pl, &msg); err != nil {
			return ca.problem(400, "malformed", "bad payload"), nil
		}
		der, _ := base64.RawURLEncoding.DecodeString(msg.Certificate)
		for _, e := range ca.entries {
			if e.der == nil || !bytes.Equal(e.der, der) {
				continue
			}
			ca.asked[e.key]++
			ca.reasons[e.key] = msg.Reason
			if e.other == "token" {
				return ca.problem(404, "unauthorized", "not one of ours"), nil
			}
			type eq interface{ Equal(crypto.PublicKey) bool }
			if !pub.(eq).Equal(e.priv.Public()) && !pub.(eq).Equal(ca.account.Public()) {
				ca.bad = append(ca.bad, "the request for "+e.key+" is signed with another key")
				return ca.problem(403, "unauthorized", "wrong key"), nil
			}
			switch ca.answer[e.key] {
			case "already":
				ca.revoked[e.key] = true
				return ca.problem(400, "alreadyRevoked", "already revoked"), nil
			case "denied":
				return ca.problem(403, "unauthorized", "no"), nil
			case "unreachable":
				return nil, errors.New("connection refused")
			case "busy":
				if ca.asked[e.key] < 3 {
					return ca.problem(503, "serverInternal", "later"), nil
				}
			}
			if ca.revoked[e.key] {
				return ca.problem(400, "alreadyRevoked", "already revoked"), nil
			}
			ca.revoked[e.key] = true
			return ca.respond(200, "", "text/plain"), nil
		}
		ca.bad = append(ca.bad, "a request for an unknown certificate")
		return ca.problem(404, "malformed", "unknown certificate"), nil
	}
	ca.bad = append(ca.bad, "unexpected request: "+req.Method+" "+req.URL.String())
	return ca.respond(404, "", "text/plain"), nil
}

func c30MakeEntry(t testing.TB, e *c30Entry, ca crypto.Signer, caCert *x509.Certificate, useRSA bool) *c30Entry {
	if e.other == "garbage" {
		e.data = []byte("garbage")
		return e
	}
	var err error
	var keyPEM []byte
	if useRSA {
		k, err := rsa.GenerateKey(rand.Reader, 2048)
		if err != nil {
			t.Fatal(err)
		}
		e.priv = k
		keyPEM = pem.EncodeToMemory(&pem.Block{Type: "RSA PRIVATE KEY", Bytes: x509.MarshalPKCS1PrivateKey(k)})
	} else {
		k, err := ecdsa.GenerateKey(elliptic.P256(), rand.Reader)
		if err != nil {
			t.Fatal(err)
		}
		e.priv = k
		b, _ := x509.MarshalECPrivateKey(k)
		keyPEM = pem.EncodeToMemory(&pem.Block{Type: "EC PRIVATE KEY", Bytes: b})
	}
	// The clock starts in 2000.
	tmpl := &x509.Certificate{SerialNumber: big.NewInt(int64(len(e.key)) + 1000), Subject: pkix.Name{CommonName: e.names[0]}, DNSNames: e.names,
		NotBefore: time.Date(1999, 11, 1, 0, 0, 0, 0, time.UTC), NotAfter: time.Date(2000, 3, 1, 0, 0, 0, 0, time.UTC)}
	if e.expired {
		tmpl.NotAfter = time.Date(1999, 12, 31, 0, 0, 0, 0, time.UTC)
	}
	parent, signer := caCert, ca
	if e.other == "token" {
		parent, signer = tmpl, e.priv
	}
	if e.der, err = x509.CreateCertificate(rand.Reader, tmpl, parent, e.priv.Public(), signer); err != nil {
		t.Fatal(err)
	}
	var buf bytes.Buffer
	if e.other != "nokey" {
		buf.Write(keyPEM)
	}
	pem.Encode(&buf, &pem.Block{Type: "CERTIFICATE", Bytes: e.der})
	if e.other != "token" {
		pem.Encode(&buf, &pem.Block{Type: "CERTIFICATE", Bytes: caCert.Raw})
	}
	e.data = buf.Bytes()
	return e
}

// c30Config is what is configured.
type c30Config struct {
	name string
	bes  [][]string
	alpn bool // several backends with the same name
	// which names, in the form they have in certificates, are served
	served []string
}

func TestVX(t *testing.T) {
	r := vx.Start(t, "C30")
	defer r.Done()
	simInit(r)
	debug.SetGCPercent(2000)
	debug.SetMemoryLimit(1 << 30)
	newKey := func() *ecdsa.PrivateKey {
		k, err := ecdsa.GenerateKey(elliptic.P256(), rand.Reader)
		if err != nil {
			t.Fatal(err)
		}
		return k
	}
	account, caKey := newKey(), newKey()
	ab, _ := x509.MarshalECPrivateKey(account)
	accountPEM := pem.EncodeToMemory(&pem.Block{Type: "EC PRIVATE KEY", Bytes: ab})
	caTmpl := &x509.Certificate{SerialNumber: big.NewInt(1), Subject: pkix.Name{CommonName: "authority"}, IsCA: true, BasicConstraintsValid: true,
		NotBefore: time.Date(1990, 1, 1, 0, 0, 0, 0, time.UTC), NotAfter: time.Date(2030, 1, 1, 0, 0, 0, 0, time.UTC)}
	cad, err := x509.CreateCertificate(rand.Reader, caTmpl, caTmpl, caKey.Public(), caKey)
	if err != nil {
		t.Fatal(err)
	}
	caCert, err := x509.ParseCertificate(cad)
	if err != nil {
		t.Fatal(err)
	}
	var all []*c30Entry
	for _, e := range []*c30Entry{
		{key: "a.example.com", names: []string{"a.example.com"}},
		{key: "a.example.com+rsa", names: []string{"a.example.com"}},
		{key: "b.example.com", names: []string{"b.example.com"}},
		{key: "xn--bcher-kva.example.com", names: []string{"xn--bcher-kva.example.com"}},
		{key: "c.example.com", names: []string{"c.example.com", "d.example.com"}},
		{key: "e.example.com", names: []string{"e.example.com"}, expired: true},
		{key: "aa.example.com+token", names: []string{"aa.example.com"}, other: "token"},
		{key: "aaa.example.com", other: "garbage"},
		{key: "aab.example.com", names: []string{"aab.example.com"}, other: "nokey"},
	} {
		all = append(all, c30MakeEntry(t, e, caKey, caCert, strings.HasSuffix(e.key, "+rsa")))
	}
	configs := []c30Config{
		{name: "none", bes: [][]string{{"zz.example.com"}}},
		{name: "a", bes: [][]string{{"a.example.com"}}, served: []string{"a.example.com"}},
		{name: "upper", bes: [][]string{{"A.Example.COM"}}, served: []string{"a.example.com"}},
		{name: "b", bes: [][]string{{"b.example.com"}}, served: []string{"b.example.com"}},
		{name: "second", bes: [][]string{{"zz.example.com"}, {"y.example.com", "b.example.com"}}, served: []string{"b.example.com"}},
		{name: "puny", bes: [][]string{{"xn--bcher-kva.example.com"}}, served: []string{"xn--bcher-kva.example.com"}},
		{name: "unicode", bes: [][]string{{"bücher.example.com"}}, served: []string{"xn--bcher-kva.example.com"}},
		{name: "unicode-upper", bes: [][]string{{"BÜCHER.example.com"}}, served: []string{"xn--bcher-kva.example.com"}},
		{name: "d", bes: [][]string{{"d.example.com"}}, served: []string{"d.example.com"}},
		{name: "parent", bes: [][]string{{"example.com", "x.a.example.com"}}},
		{name: "e", bes: [][]string{{"e.example.com"}}, served: []string{"e.example.com"}},
		{name: "alpn", bes: [][]string{{"a.example.com"}, {"a.example.com", "b.example.com"}}, alpn: true, served: []string{"a.example.com", "b.example.com"}},
	}
	answers := []string{"ok", "already", "denied", "unreachable", "busy"}
	has := func(l []string, s string) bool {
		for _, v := range l {
			if v == s {
				return true
			}
		}
		return false
	}

	type world struct {
		ca    *c30CA
		set   []*c30Entry
		store *storage.Storage
	}
	newWorld := func(set []*c30Entry, ans []string) *world {
		vos.Reset()
		vos.MkdirAll("/disk", 0700)
		w := &world{set: set, store: storage.New("/disk", simStuff.mk)}
		w.ca = &c30CA{t: t, entries: all, account: account, nonces: map[string]bool{}, asked: map[string]int{}, reasons: map[string]int{}, revoked: map[string]bool{}, answer: map[string]string{}}
		for i, e := range set {
			if i < len(ans) {
				w.ca.answer[e.key] = ans[i]
			}
		}
		entries := map[string]string{acmeAccountKey: base64.StdEncoding.EncodeToString(accountPEM), "abc+http-01": base64.StdEncoding.EncodeToString([]byte("token"))}
		for _, e := range set {
			entries[e.key] = base64.StdEncoding.EncodeToString(e.data)
		}
		if err := w.store.SaveDataFile("autocert", &struct{ Entries map[string]string }{entries}); err != nil {
			t.Fatal(err)
		}
		return w
	}
	// cache returns what is in the cache.
	cache := func(w *world) map[string]string {
		var cc struct{ Entries map[string]string }
		if err := w.store.ReadDataFile("autocert", &cc); err != nil {
			r.Violation("cache-lost", "the cache can't be read: %v", err)
		}
		return cc.Entries
	}
	newProxy := func(w *world, cfg c30Config, feature string) *Proxy {
		p := &Proxy{
			certManager:  &autocert.Manager{Prompt: autocert.AcceptTOS, Cache: autocertcache.New("autocert", w.store)},
			store:        w.store,
			mk:           simStuff.mk,
			tokenManager: simStuff.tm,
			ocspCache:    simStuff.oc,
			bwLimits:     make(map[string]*bwLimit),
			inConns:      newConnTracker(),
			outConns:     newConnTracker(),
		}
		var bes []*Backend
		for i, names := range cfg.bes {
			be := &Backend{ServerNames: append([]string(nil), names...), Mode: "HTTP", Addresses: []string{"192.168.0.1:80"}}
			if cfg.alpn {
				be.ALPNProtos = &[]string{"http/1.1"}
				if i == 1 {
					be.ALPNProtos = &[]string{"h2"}
				}
			}
			bes = append(bes, be)
		}
		c := simCfg(bes...)
		c.AcceptTOS = true
		switch feature {
		case "on":
			c.RevokeUnusedCertificates = vxPtr(true)
		case "off":
			c.RevokeUnusedCertificates = vxPtr(false)
		}
		if err := p.Reconfigure(c); err != nil {
			t.Fatal(err)
		}
		p.mk = nil
		return p
	}
	// run starts the proxy and stops it.
	run := func(w *world, cfg c30Config, feature string) {
		old := http.DefaultTransport
		http.DefaultTransport = w.ca
		defer func() { http.DefaultTransport = old }()
		p := newProxy(w, cfg, feature)
		ctx, cancel := context.WithCancel(context.Background())
		if err := p.Start(ctx); err != nil {
			t.Fatal(err)
		}
		time.Sleep(2 * time.Minute)
		p.Stop()
		cancel()
		time.Sleep(time.Second)
	}
	revokeAll := func(w *world, cfg c30Config, reason string) error {
		old := http.DefaultTransport
		http.DefaultTransport = w.ca
		defer func() { http.DefaultTransport = old }()
		return newProxy(w, cfg, "").RevokeAllCertificates(context.Background(), reason)
	}
	// check compares the cache and the requests with what they should be.
	check := func(id, step string, w *world, asked map[string]int, mustRevoke func(e *c30Entry) bool, nothing bool) {
		now := cache(w)
		want := 2
		for _, e := range w.set {
			_, in := now[e.key]
			if in && now[e.key] != base64.StdEncoding.EncodeToString(e.data) {
				r.Violation("changed", "%s: %s: the entry %s has changed", id, step, e.key)
			}
			if in {
				want++
			}
			n := w.ca.asked[e.key] - asked[e.key]
			must := !nothing && e.other == "" && mustRevoke(e)
			switch {
			case e.other == "token":
				// It may be forgotten if the name isn't served.
			case !must:
				if n > 0 || !in {
					r.Outcome("wrongly touched")
					r.Violation("wrongly-revoked", "%s: %s: %s must not be touched (revocations asked: %d, in the cache: %v)", id, step, e.key, n, in)
				} else {
					r.Outcome("kept")
				}
			case e.expired:
				if in {
					r.Outcome("expired, but kept")
					r.Violation("expired-kept", "%s: %s: %s is expired, but not forgotten", id, step, e.key)
				}
				r.Outcome("expired")
			case n == 0:
				r.Outcome("not asked")
				r.Violation("not-revoked", "%s: %s: the authority isn't asked to revoke %s (in the cache: %v)", id, step, e.key, in)
			case w.ca.revoked[e.key] && in:
				r.Outcome("revoked, but kept")
				r.Violation("not-forgotten", "%s: %s: %s is revoked, but not forgotten", id, step, e.key)
			case !w.ca.revoked[e.key] && !in:
				r.Outcome("forgotten")
				r.Violation("forgotten", "%s: %s: %s is forgotten, but not revoked", id, step, e.key)
			case in:
				r.Outcome("not revoked")
			default:
				r.Outcome("revoked")
			}
		}
		if _, ok := now[acmeAccountKey]; !ok {
			r.Violation("account", "%s: %s: the account key is lost", id, step)
		}
		if _, ok := now["abc+http-01"]; !ok {
			want--
		}
		if len(now) != want {
			r.Violation("extra", "%s: %s: %d entries in the cache, want %d", id, step, len(now), want)
		}
		for _, b := range w.ca.bad {
			r.Violation("request", "%s: %s: %s", id, step, b)
		}
	}
	counts := func(m map[string]int) map[string]int {
		out := map[string]int{}
		for k, v := range m {
			out[k] = v
		}
		return out
	}

	max := r.Pick(3, 4)
	r.Bound("cache entries", max)
	vx.Subsets(len(all), func(mask int) {
		var idx []int
		for i := range all {
			if mask&(1<<i) != 0 {
				idx = append(idx, i)
			}
		}
		if len(idx) > max {
			return
		}
		var set []*c30Entry
		revocable := 0
		// Entries with an answer come first.
		for _, i := range idx {
			if all[i].other == "" && !all[i].expired {
				set = append(set, all[i])
				revocable++
			}
		}
		for _, i := range idx {
			if all[i].other != "" || all[i].expired {
				set = append(set, all[i])
			}
		}
		sets := [][]string{nil}
		for i := 0; i < revocable; i++ {
			var next [][]string
			for _, s := range sets {
				for j, a := range answers {
					// Larger sets: without "already" and "busy".
					if len(idx) > 2 && (j == 1 || j == 4 || len(idx) > 3 && j == 3) {
						continue
					}
					next = append(next, append(s[:len(s):len(s)], a))
				}
			}
			sets = next
		}
		for _, ans := range sets {
			for ci, cfg := range configs {
				if len(idx) > 2 && !r.Thorough() && ci != 0 && ci != 2 && ci != 7 && ci != 11 {
					continue
				}
				features := []string{""}
				if len(idx) < 2 {
					features = []string{"", "on", "off"}
				} else if len(idx) == 2 && ci < 2 {
					features = []string{"", "off"}
				}
				for _, feature := range features {
					id := fmt.Sprintf("unused/%v/%s/%s/%s", strings.ReplaceAll(fmt.Sprint(idx), " ", "."), strings.Join(ans, "."), cfg.name, feature)
					if !r.Case(id) {
						continue
					}
					r.Exec()
					r.Step(2)
					vsched.Bubble(r, id, func(x *vsched.X) {
						w := newWorld(set, ans)
						must := func(e *c30Entry) bool {
							for _, n := range e.names {
								if has(cfg.served, n) {
									return false
								}
							}
							return true
						}
						run(w, cfg, feature)
						check(id, "run", w, map[string]int{}, must, feature == "off")
						// Again, with an authority that works. What is
						// forgotten stays so.
						w.ca.answer = map[string]string{}
						left := cache(w)
						asked := counts(w.ca.asked)
						var keep []*c30Entry
						for _, e := range w.set {
							if _, ok := left[e.key]; ok {
								keep = append(keep, e)
							} else if must(e) {
								continue
							}
						}
						w.set = keep
						run(w, cfg, feature)
						check(id, "repetition", w, asked, must, feature == "off")
						r.State(len(keep), len(cache(w)), cfg.name)
					})
				}
			}
			// All certificates.
			reasons := map[string]int{"keyCompromise": 1}
			if len(idx) < 2 {
				reasons = map[string]int{"keyCompromise": 1, "unspecified": 0, "superseded": 4, "cessationOfOperation": 5, "": -1, "removeFromCRL": -1, "KeyCompromise": -1}
			}
			for reason, code := range reasons {
				id := fmt.Sprintf("all/%v/%s/%s", strings.ReplaceAll(fmt.Sprint(idx), " ", "."), strings.Join(ans, "."), reason)
				if !r.Case(id) {
					continue
				}
				r.Exec()
				r.Step(2)
				vsched.Bubble(r, id, func(x *vsched.X) {
					w := newWorld(set, ans)
					fail := code < 0
					for _, a := range ans {
						if a == "denied" || a == "unreachable" {
							fail = true
						}
					}
					every := func(*c30Entry) bool { return true }
					err := revokeAll(w, configs[1], reason)
					if (err != nil) != fail {
						r.Violation("all-error", "%s: the error is: %v", id, err)
					}
					check(id, "run", w, map[string]int{}, every, code < 0)
					for k, v := range w.ca.reasons {
						if v != code {
							r.Violation("reason", "%s: %s is revoked with the reason %d", id, k, v)
						}
					}
					if code < 0 {
						return
					}
					w.ca.answer = map[string]string{}
					left := cache(w)
					asked := counts(w.ca.asked)
					var keep []*c30Entry
					for _, e := range w.set {
						if _, ok := left[e.key]; ok {
							keep = append(keep, e)
						}
					}
					w.set = keep
					if err := revokeAll(w, configs[1], reason); err != nil {
						r.Violation("all-error", "%s: repetition: the error is: %v", id, err)
					}
					check(id, "repetition", w, asked, every, false)
				})
			}
		}
	})
	// Crashes.
	crashSet := []*c30Entry{all[0], all[2], all[3], all[5]}
	for _, mode := range []string{"unused", "all"} {
		for n := 0; ; n++ {
			more := false
			for _, torn := range []int{0, 1, 2} {
				id := fmt.Sprintf("crash/%s/%d/%d", mode, n, torn)
				if !r.Case(id) {
					more = n < 40
					continue
				}
				r.Exec()
				vsched.Bubble(r, id, func(x *vsched.X) {
					w := newWorld(crashSet, nil)
					vos.Crash(n, torn)
					if mode == "unused" {
						run(w, configs[1], "")
					} else {
						revokeAll(w, configs[1], "superseded")
					}
					more = vos.Crashed() || more
					vos.Recover(0)
					time.Sleep(time.Hour)
					w.store = storage.New("/disk", simStuff.mk)
					now := cache(w)
					for _, e := range crashSet {
						if _, in := now[e.key]; !in && !e.expired && !w.ca.revoked[e.key] {
							r.Violation("crash-forgotten", "%s: %s is forgotten, but not revoked", id, e.key)
						}
					}
					if mode == "unused" {
						run(w, configs[1], "")
					} else if err := revokeAll(w, configs[1], "superseded"); err != nil {
						r.Violation("crash-error", "%s: the repetition fails: %v", id, err)
					}
					now = cache(w)
					for _, e := range crashSet {
						_, in := now[e.key]
						used := mode == "unused" && e.key == "a.example.com"
						if used != in || !e.expired && used == w.ca.revoked[e.key] {
							r.Outcome("wrong after a crash")
							r.Violation("crash", "%s: at the end, %s is in the cache: %v, revoked: %v", id, e.key, in, w.ca.revoked[e.key])
						}
					}
					r.Outcome("recovered")
				})
			}
			if !more {
				break
			}
		}
	}
	_ = acme.CRLReasonUnspecified
}
