package passkeys

import (
	"bytes"
	"context"
	"crypto"
	"crypto/ecdsa"
	"crypto/elliptic"
	"crypto/rand"
	"crypto/rsa"
	"crypto/sha256"
	"encoding/base64"
	"encoding/binary"
	"encoding/hex"
	"encoding/json"
	"fmt"
	"net/http"
	"net/http/httptest"
	"net/url"
	"runtime/debug"
	"strings"
	"testing"
	"time"

	"github.com/c2FmZQ/storage"
	stcrypto "github.com/c2FmZQ/storage/crypto"
	cbor "github.com/fxamacker/cbor/v2"
	jwt "github.com/golang-jwt/jwt/v5"

	"github.com/c2FmZQ/tlsproxy/internal/vsched"
	"github.com/c2FmZQ/tlsproxy/internal/vx"
	"github.com/c2FmZQ/tlsproxy/proxy/internal/cookiemanager"
	"github.com/c2FmZQ/tlsproxy/proxy/internal/idp"
	"github.com/c2FmZQ/tlsproxy/proxy/internal/tokenmanager"
	vos "github.com/c2FmZQ/tlsproxy/zzvx/vos"
)

const (
	c12Host     = "passkeys.example.com"
	c12Endpoint = "https://" + c12Host + "/passkey"
	c12Issuer   = "https://" + c12Host + "/"
	c12Other    = "https://login.example.com/"
	c12Manage   = "https://" + c12Host + "/.sso/passkeys"
	c12Page     = "https://www.example.com/page?a=b"
)

type c12Quiet struct{}

func (c12Quiet) Errorf(string, ...any) {}
func (c12Quiet) Record(string)         {}

type c12OtherIDP struct{}

func (c12OtherIDP) RequestLogin(w http.ResponseWriter, req *http.Request, u string, opts ...idp.Option) {
	http.Redirect(w, req, "https://idp.example.org/?"+url.QueryEscape(u), http.StatusFound)
}

// c12Key is a key of an authenticator.
type c12Key struct {
	name string
	id   []byte
	priv crypto.Signer
	cose []byte
	uid  []byte
}

func c12NewKey(r *vx.R, name string, useRSA bool) *c12Key {
	k := &c12Key{name: name, id: []byte("credential-" + name)}
	if useRSA {
		p, err := rsa.GenerateKey(rand.Reader, 2048)
		if err != nil {
			r.T.Fatal(err)
		}
		k.priv = p
		if k.cose, err = rs256CoseKey(p.PublicKey); err != nil {
			r.T.Fatal(err)
		}
		return k
	}
	p, err := ecdsa.GenerateKey(elliptic.P256(), rand.Reader)
	if err != nil {
		r.T.Fatal(err)
	}
	k.priv = p
	if k.cose, err = es256CoseKey(p.PublicKey); err != nil {
		r.T.Fatal(err)
	}
	return k
}

func c12AuthData(rp string, flags byte, count uint32, key *c12Key) []byte {
	h := sha256.Sum256([]byte(rp))
	var buf bytes.Buffer
	buf.Write(h[:])
	buf.WriteByte(flags)
	binary.Write(&buf, binary.BigEndian, count)
	if key != nil {
		buf.Write(make([]byte, 16))
		binary.Write(&buf, binary.BigEndian, uint16(len(key.id)))
		buf.Write(key.id)
		buf.Write(key.cose)
	}
	return buf.Bytes()
}

// c12Env is what all worlds share.
type c12Env struct {
	refresh time.Duration // the configured interval
	r       *vx.R
	mk      stcrypto.MasterKey
	tm      *tokenmanager.TokenManager
	cm      *cookiemanager.CookieManager
	cm2     *cookiemanager.CookieManager
	ocm     *cookiemanager.CookieManager
	disk    vos.Disk
	// two keys for each user
	keys [2][2]*c12Key
	rsa  *c12Key
	now  func() time.Time
}

type c12Browser struct {
	jar map[string]string
}

func (b *c12Browser) response(w *httptest.ResponseRecorder) (session string) {
	for _, c := range w.Result().Cookies() {
		if c.MaxAge < 0 {
			delete(b.jar, c.Name)
			continue
		}
		b.jar[c.Name] = c.Value
		if c.Name == "TLSPROXYAUTH" {
			session = c.Value
		}
	}
	return session
}

type c12World struct {
	*c12Env
	m, m2 *Manager // m2 is another provider that shares the keys
	acl   *[]string
	// A browser at the login page of each provider, to save time.
	browsers map[*Manager]c12Login
}

type c12Login struct {
	b     *c12Browser
	token string
}

type c12Ctx struct{}

func (e *c12Env) manager(cm *cookiemanager.CookieManager) *Manager {
	m, err := NewManager(Config{
		Store: storage.New("/disk", e.mk), RefreshInterval: e.refresh, Other: c12OtherIDP{}, Endpoint: c12Endpoint, EventRecorder: c12Quiet{},
		CookieManager: cm, OtherCookieManager: e.ocm, TokenManager: e.tm, Logger: c12Quiet{},
		ClaimsFromCtx: func(ctx context.Context) jwt.MapClaims {
			c, _ := ctx.Value(c12Ctx{}).(jwt.MapClaims)
			return c
		},
	})
	if err != nil {
		e.r.T.Fatal(err)
	}
	return m
}

func (e *c12Env) world() *c12World {
	vos.Reset()
	vos.Restore(e.disk)
	w := &c12World{c12Env: e}
	w.restart()
	return w
}

func (w *c12World) restart() {
	w.m = w.manager(w.cm)
	w.m2 = w.manager(w.cm2)
	w.m.SetACL(w.acl)
	w.m2.SetACL(w.acl)
}

func c12Email(u int) string { return fmt.Sprintf("user%d@example.com", u) }
func c12Sub(u int) string   { return fmt.Sprintf("sub%d", u) }

// otherSession is what the other identity provider says about a user.
func (e *c12Env) otherSession(u int) string {
	rec := httptest.NewRecorder()
	if err := e.ocm.SetAuthTokenCookie(rec, c12Sub(u), c12Email(u), "session", c12Host, map[string]any{"source": "idp"}); err != nil {
		e.r.T.Fatal(err)
	}
	return rec.Result().Cookies()[0].Value
}

// page opens the login page, and returns the redirect token. The browser must
// have a session with the other provider.
func (w *c12World) page(m *Manager, b *c12Browser) string {
	rec := httptest.NewRecorder()
	req := httptest.NewRequest("GET", "https://www.example.com/.sso/login", nil)
	m.RequestLogin(rec, req, c12Page)
	loc := rec.Header().Get("Location")
	rec = w.call(m, b, "GET", loc, nil, nil)
	b.response(rec)
	u, err := url.Parse(rec.Header().Get("Location"))
	if err != nil || u.Query().Get("redirect") == "" {
		w.r.Violation("login-page", "no login page: %d %s", rec.Code, rec.Header().Get("Location"))
		return ""
	}
	return u.Query().Get("redirect")
}

// call sends a request of a browser.
func (w *c12World) call(m *Manager, b *c12Browser, method, target string, hdr map[string]string, form url.Values) *httptest.ResponseRecorder {
	var req *http.Request
	if form != nil {
		req = httptest.NewRequest(method, target, strings.NewReader(form.Encode()))
		req.Header.Set("Content-Type", "application/x-www-form-urlencoded")
	} else {
		req = httptest.NewRequest(method, target, nil)
	}
	for k, v := range hdr {
		req.Header.Set(k, v)
	}
	for k, v := range b.jar {
		req.AddCookie(&http.Cookie{Name: k, Value: v})
	}
	rec := httptest.NewRecorder()
	defer func() {
		if p := recover(); p != nil {
			w.r.Outcome("panic")
			w.r.Note("a handler panics: %v", p)
			rec.Code = 500
		}
	}()
	if req.URL.Path == "/.sso/passkeys" {
		// What the proxy does before it calls ManageKeys.
		if tok, err := m.cfg.CookieManager.ValidateAuthTokenCookie(req); err == nil {
			req = req.WithContext(context.WithValue(req.Context(), c12Ctx{}, tok.Claims.(jwt.MapClaims)))
		}
		m.ManageKeys(rec, req)
	} else {
		m.HandleCallback(rec, req)
	}
	return rec
}

var c12CSRF = map[string]string{"X-Csrf-Check": "1"}

// assertionOptions asks for a challenge to log in.
func (w *c12World) assertionOptions(m *Manager, b *c12Browser, token, loginID string) *AssertionOptions {
	rec := w.call(m, b, "POST", c12Endpoint+"?get=AssertionOptions&redirect="+token, c12CSRF, url.Values{"loginId": {loginID}})
	var o AssertionOptions
	if err := json.Unmarshal(rec.Body.Bytes(), &o); err != nil || rec.Code != 200 || len(o.Challenge) < 16 {
		w.r.Violation("no-options", "no assertion options: %d %s", rec.Code, rec.Body)
		return nil
	}
	if o.UserVerification != "required" {
		w.r.Violation("verification", "user verification isn't required for logins")
	}
	return &o
}

func (w *c12World) attestationOptions(m *Manager, b *c12Browser, base string) *AttestationOptions {
	rec := w.call(m, b, "POST", base, c12CSRF, url.Values{})
	var o AttestationOptions
	if err := json.Unmarshal(rec.Body.Bytes(), &o); err != nil || rec.Code != 200 || len(o.Challenge) < 16 {
		return nil
	}
	return &o
}

type c12Assertion struct {
	typ, challenge, origin string
	rp                     string
	flags                  byte
	data                   string // "", short, trailing, changed
	key                    *c12Key
	id                     []byte
	handle                 []byte
	loginID                string
	sig                    string // "", empty, garbage, otherdata
}

func (a c12Assertion) args() string {
	cd, _ := json.Marshal(clientData{Type: a.typ, Challenge: a.challenge, Origin: a.origin})
	ad := c12AuthData(a.rp, a.flags, 1, nil)
	if a.data == "short" {
		ad = ad[:36]
	}
	h := sha256.Sum256(signedBytes(ad, cd))
	if a.sig == "otherdata" {
		h = sha256.Sum256(signedBytes(ad, []byte("{}")))
	}
	sig, err := a.key.priv.Sign(rand.Reader, h[:], crypto.SHA256)
	if err != nil {
		panic(err)
	}
	switch a.sig {
	case "empty":
		sig = nil
	case "garbage":
		sig = []byte{0x30, 0x06, 0x02, 0x01, 0x00, 0x02, 0x01, 0x00}
	}
	switch a.data {
	case "trailing":
		ad = append(ad, 1, 2, 3)
	case "changed":
		ad[36] ^= 1
	}
	b, _ := json.Marshal(map[string]any{"id": base64.RawURLEncoding.EncodeToString(a.id), "clientDataJSON": Bytes(cd), "authenticatorData": Bytes(ad),
		"signature": Bytes(sig), "userHandle": Bytes(a.handle), "loginId": a.loginID})
	return string(b)
}

func c12Challenge(c Bytes) string { return base64.RawURLEncoding.EncodeToString(c) }

// check sends an assertion, and returns the claims of the session.
func (w *c12World) check(m *Manager, b *c12Browser, token, args string) (*httptest.ResponseRecorder, jwt.MapClaims) {
	rec := w.call(m, b, "POST", c12Endpoint+"?get=Check&redirect="+token, c12CSRF, url.Values{"args": {args}})
	return rec, w.claims(m, b, rec)
}

// claims are those of the session that a response creates, if any.
func (w *c12World) claims(m *Manager, b *c12Browser, rec *httptest.ResponseRecorder) jwt.MapClaims {
	tok := b.response(rec)
	if tok == "" {
		return nil
	}
	req := httptest.NewRequest("GET", c12Page, nil)
	req.AddCookie(&http.Cookie{Name: "TLSPROXYAUTH", Value: tok})
	t, err := m.cfg.CookieManager.ValidateAuthTokenCookie(req)
	if err != nil {
		w.r.Violation("session-invalid", "the session is not valid: %v", err)
		return nil
	}
	return t.Claims.(jwt.MapClaims)
}

// session checks that the session is one of the user, with the key.
func c12Session(c jwt.MapClaims, u int, key *c12Key, page string) string {
	pu, _ := url.Parse(page)
	hh := sha256.Sum256([]byte(pu.Host))
	kh := sha256.Sum256(key.id)
	for k, v := range map[string]string{"sub": c12Sub(u), "email": c12Email(u), "hhash": hex.EncodeToString(hh[:]), "passkey_hash": hex.EncodeToString(kh[:])} {
		if c[k] != v {
			return fmt.Sprintf("the session has %s %q, want %q", k, c[k], v)
		}
	}
	return ""
}

// login is a good login.
func (w *c12World) login(m *Manager, b *c12Browser, u int, key *c12Key) (*httptest.ResponseRecorder, jwt.MapClaims, string) {
	var token string
	if l, ok := w.browsers[m]; ok {
		b, token = l.b, l.token
	} else {
		token = w.page(m, b)
		if w.browsers != nil {
			w.browsers[m] = c12Login{b, token}
		}
	}
	o := w.assertionOptions(m, b, token, "")
	if o == nil {
		return nil, nil, ""
	}
	args := c12Assertion{typ: "webauthn.get", challenge: c12Challenge(o.Challenge), origin: "https://" + c12Host, rp: c12Host, flags: 5,
		key: key, id: key.id, handle: key.uid}.args()
	rec, c := w.check(m, b, token, args)
	return rec, c, args
}

type c12Attestation struct {
	typ, challenge, origin string
	rp                     string
	flags                  byte
	key                    *c12Key
	data                   string
}

func (a c12Attestation) args() string {
	cd, _ := json.Marshal(clientData{Type: a.typ, Challenge: a.challenge, Origin: a.origin})
	ad := c12AuthData(a.rp, a.flags, 0, a.key)
	switch a.data {
	case "short":
		ad = ad[:36]
	case "cut":
		ad = ad[:60]
	case "nokey":
		ad = ad[:37]
	}
	ao, err := cbor.Marshal(attestation{Format: "none", RawAuthData: ad, AttStmt: cbor.RawMessage{0xa0}})
	if err != nil {
		panic(err)
	}
	if a.data == "garbage" {
		ao = []byte("garbage")
	}
	b, _ := json.Marshal(map[string]any{"clientDataJSON": Bytes(cd), "attestationObject": Bytes(ao), "transports": []string{"usb"}})
	return string(b)
}

// register adds the first key of a user, with a session of the other provider.
func (w *c12World) register(m *Manager, b *c12Browser, u int, key *c12Key) (*httptest.ResponseRecorder, jwt.MapClaims) {
	b.jar["TLSPROXYAUTH"] = w.otherSession(u)
	token := w.page(m, b)
	o := w.attestationOptions(m, b, c12Endpoint+"?get=AttestationOptions&redirect="+token)
	if o == nil {
		w.r.Violation("no-options", "no attestation options")
		return httptest.NewRecorder(), nil
	}
	key.uid = o.User.ID
	rec := w.call(m, b, "POST", c12Endpoint+"?get=AddKey&redirect="+token, c12CSRF, url.Values{"args": {
		c12Attestation{typ: "webauthn.create", challenge: c12Challenge(o.Challenge), origin: "https://" + c12Host, rp: c12Host, flags: 0x45, key: key}.args()}})
	return rec, w.claims(m, b, rec)
}

// addKey adds another key, with a session of this provider.
func (w *c12World) addKey(m *Manager, b *c12Browser, key *c12Key) *httptest.ResponseRecorder {
	o := w.attestationOptions(m, b, c12Manage+"?get=AttestationOptions")
	if o == nil {
		rec := httptest.NewRecorder()
		rec.Code = 500
		return rec
	}
	key.uid = o.User.ID
	return w.call(m, b, "POST", c12Manage+"?get=AddKey", c12CSRF, url.Values{"args": {
		c12Attestation{typ: "webauthn.create", challenge: c12Challenge(o.Challenge), origin: "https://" + c12Host, rp: c12Host, flags: 0x45, key: key}.args()}})
}

// session signs a user in for the management of keys.
func (w *c12World) manage(m *Manager, u int, key *c12Key) *c12Browser {
	rec := httptest.NewRecorder()
	h := sha256.Sum256(key.id)
	if err := m.cfg.CookieManager.SetAuthTokenCookie(rec, c12Sub(u), c12Email(u), "session", c12Host, map[string]any{"passkey_hash": hex.EncodeToString(h[:])}); err != nil {
		w.r.T.Fatal(err)
	}
	return &c12Browser{jar: map[string]string{"TLSPROXYAUTH": rec.Result().Cookies()[0].Value}}
}

func (w *c12World) deleteKey(m *Manager, b *c12Browser, key *c12Key) *httptest.ResponseRecorder {
	return w.call(m, b, "POST", c12Manage+"?get=DeleteKey", c12CSRF, url.Values{"id": {hex.EncodeToString(key.id)}})
}

func c12NewBrowser() *c12Browser { return &c12Browser{jar: map[string]string{}} }

func TestVX(t *testing.T) {
	r := vx.Start(t, "C12")
	defer r.Done()
	debug.SetGCPercent(2000)
	debug.SetMemoryLimit(1 << 30)
	mk, err := stcrypto.CreateAESMasterKeyForTest()
	if err != nil {
		t.Fatal(err)
	}
	e := &c12Env{r: r, mk: mk}
	for u := 0; u < 2; u++ {
		for k := 0; k < 2; k++ {
			e.keys[u][k] = c12NewKey(r, fmt.Sprintf("%d%d", u, k), false)
		}
	}
	e.rsa = c12NewKey(r, "rsa", true)
	// The token keys and the empty key file are made in a bubble: its clock is
	// the one of all worlds.
	vsched.Bubble(r, "setup", func(x *vsched.X) {
		vos.Reset()
		vos.MkdirAll("/disk", 0700)
		tm, err := tokenmanager.New(storage.New("/disk", mk), nil, c12Quiet{})
		if err != nil {
			t.Fatal(err)
		}
		e.tm = tm
		e.cm = cookiemanager.New(tm, "passkey", "example.com", c12Issuer)
		e.cm2 = cookiemanager.New(tm, "passkey2", "example.com", c12Issuer)
		e.ocm = cookiemanager.New(tm, "idp", "example.com", c12Other)
		e.manager(e.cm)
		e.disk = vos.Snapshot()
	})
	c12Assertions(e)
	c12Attestations(e)
	c12Sequences(e)
	c12Refresh(e)
	c12Races(e)
}

type c12Case struct {
	name    string
	verdict string // "", "?" or why it must be refused
	apply   func(a *c12Assertion, s *c12State)
}

// c12State is what an assertion is made from.
type c12State struct {
	w       *c12World
	b       *c12Browser
	token   string
	method  string
	hdr     map[string]string
	fresh   string // the challenge
	used    string
	expired string
	create  string // one for a registration
	other   string // another browser's
	handle  [2][]byte
	deleted *c12Key
}

func c12Assertions(e *c12Env) {
	r := e.r
	dims := [][]c12Case{
		{{"create", "wrong type", func(a *c12Assertion, s *c12State) { a.typ = "webauthn.create" }}, {"none", "wrong type", func(a *c12Assertion, s *c12State) { a.typ = "" }},
			{"case", "wrong type", func(a *c12Assertion, s *c12State) { a.typ = "WebAuthn.Get" }}},
		{{"used", "challenge used", func(a *c12Assertion, s *c12State) { a.challenge = s.used }}, {"expired", "challenge expired", func(a *c12Assertion, s *c12State) { a.challenge = s.expired }},
			{"unknown", "unknown challenge", func(a *c12Assertion, s *c12State) { a.challenge = "AAAA" }}, {"empty", "unknown challenge", func(a *c12Assertion, s *c12State) { a.challenge = "" }},
			{"create", "?", func(a *c12Assertion, s *c12State) { a.challenge = s.create }}, {"other", "?", func(a *c12Assertion, s *c12State) { a.challenge = s.other }},
			{"padded", "unknown challenge", func(a *c12Assertion, s *c12State) { a.challenge = s.fresh + "=" }}},
		{{"other", "wrong site", func(a *c12Assertion, s *c12State) { a.origin = "https://evil.example.org" }}, {"sub", "wrong site", func(a *c12Assertion, s *c12State) { a.origin = "https://evil." + c12Host }},
			{"http", "wrong site", func(a *c12Assertion, s *c12State) { a.origin = "http://" + c12Host }}, {"empty", "wrong site", func(a *c12Assertion, s *c12State) { a.origin = "" }}},
		{{"other", "wrong relying party", func(a *c12Assertion, s *c12State) { a.rp = "evil.example.org" }}, {"parent", "wrong relying party", func(a *c12Assertion, s *c12State) { a.rp = "example.com" }}},
		{{"noup", "no user presence", func(a *c12Assertion, s *c12State) { a.flags = 4 }}, {"nouv", "no user verification", func(a *c12Assertion, s *c12State) { a.flags = 1 }},
			{"none", "no user presence", func(a *c12Assertion, s *c12State) { a.flags = 0 }}, {"more", "", func(a *c12Assertion, s *c12State) { a.flags = 0x1d }},
			{"at", "?", func(a *c12Assertion, s *c12State) { a.flags = 0x45 }}},
		{{"short", "malformed", func(a *c12Assertion, s *c12State) { a.data = "short" }}, {"trailing", "invalid signature", func(a *c12Assertion, s *c12State) { a.data = "trailing" }},
			{"changed", "invalid signature", func(a *c12Assertion, s *c12State) { a.data = "changed" }}},
		{{"otherkey", "invalid signature", func(a *c12Assertion, s *c12State) { a.key = e.keys[1][0] }}, {"second", "invalid signature", func(a *c12Assertion, s *c12State) { a.key = e.keys[0][1] }},
			{"empty", "invalid signature", func(a *c12Assertion, s *c12State) { a.sig = "empty" }}, {"garbage", "invalid signature", func(a *c12Assertion, s *c12State) { a.sig = "garbage" }},
			{"otherdata", "invalid signature", func(a *c12Assertion, s *c12State) { a.sig = "otherdata" }}},
		{{"other", "another user's key", func(a *c12Assertion, s *c12State) { a.id = e.keys[1][0].id }}, {"unknown", "unknown key", func(a *c12Assertion, s *c12State) { a.id = []byte("x") }},
			{"empty", "unknown key", func(a *c12Assertion, s *c12State) { a.id = nil }},
			{"deleted", "deleted key", func(a *c12Assertion, s *c12State) { a.id, a.key = e.keys[1][1].id, e.keys[1][1] }}},
		{{"other", "another user's key", func(a *c12Assertion, s *c12State) { a.handle = s.handle[1] }}, {"unknown", "unknown user", func(a *c12Assertion, s *c12State) { a.handle = []byte("nobody") }},
			{"none", "unknown user", func(a *c12Assertion, s *c12State) { a.handle = nil }},
			{"loginid", "", func(a *c12Assertion, s *c12State) { a.handle, a.loginID = nil, c12Email(0) }},
			{"otherloginid", "another user's key", func(a *c12Assertion, s *c12State) { a.handle, a.loginID = nil, c12Email(1) }},
			{"unknownloginid", "unknown user", func(a *c12Assertion, s *c12State) { a.handle, a.loginID = nil, "nobody@example.com" }},
			{"bothids", "?", func(a *c12Assertion, s *c12State) { a.loginID = c12Email(1) }}},
		{{"get", "wrong method", func(a *c12Assertion, s *c12State) { s.method = "GET" }}, {"put", "wrong method", func(a *c12Assertion, s *c12State) { s.method = "PUT" }},
			{"nocsrf", "cross-site", func(a *c12Assertion, s *c12State) { s.hdr = nil }}, {"csrf", "cross-site", func(a *c12Assertion, s *c12State) { s.hdr = map[string]string{"X-Csrf-Check": "0"} }}},
		{{"notoken", "no redirect token", func(a *c12Assertion, s *c12State) { s.token = "" }}, {"garbage", "no redirect token", func(a *c12Assertion, s *c12State) { s.token = "garbage" }},
			{"stolen", "another browser's token", func(a *c12Assertion, s *c12State) { delete(s.b.jar, "__tlsproxySid"); delete(s.b.jar, "TLSPROXYSID") }},
			{"session", "no redirect token", func(a *c12Assertion, s *c12State) { s.token = e.otherSession(0) }}},
		{{"own", "", func(a *c12Assertion, s *c12State) { s.b.jar["TLSPROXYAUTH"] = e.otherSession(0) }}, {"other", "", func(a *c12Assertion, s *c12State) { s.b.jar["TLSPROXYAUTH"] = e.otherSession(1) }},
			{"garbage", "", func(a *c12Assertion, s *c12State) { s.b.jar["TLSPROXYAUTH"] = "garbage" }}},
	}
	max := r.Pick(2, 3)
	r.Bound("deviations of an assertion", max)
	run := func(id string, cs []c12Case) {
		if !r.Case(id) {
			return
		}
		r.Exec()
		r.Step(6)
		vsched.Bubble(r, id, func(x *vsched.X) {
			s := c12Setup(e)
			if s == nil {
				return
			}
			w := s.w
			a := c12Assertion{typ: "webauthn.get", challenge: s.fresh, origin: "https://" + c12Host, rp: c12Host, flags: 5, key: e.keys[0][0], id: e.keys[0][0].id, handle: s.handle[0]}
			why, may := "", false
			origin := ""
			for _, c := range cs {
				c.apply(&a, s)
				switch c.verdict {
				case "":
				case "?":
					may = true
				case "wrong site":
					origin = c.name
				default:
					why = c.verdict
				}
			}
			switch {
			case strings.Contains(id, "7deleted."):
				why = "deleted key"
			case len(cs) == 2 && strings.Contains(id, "6otherkey.7other.") || len(cs) == 2 && strings.Contains(id, "7other.8other.") || len(cs) == 2 && strings.Contains(id, "7other.8otherloginid."):
				why = "mixed users" // the third part is still wrong
			}
			args := a.args()
			rec := w.call(w.m, s.b, s.method, c12Endpoint+"?get=Check&redirect="+url.QueryEscape(s.token), s.hdr, url.Values{"args": {args}})
			c := w.claims(w.m, s.b, rec)
			r.State(why, may)
			u, key := 0, e.keys[0][0]
			if len(cs) == 3 && strings.Contains(id, "6otherkey.7other.8other") {
				why, may, u, key = "", true, 1, e.keys[1][0] // the other user's own
			}
			switch {
			case c != nil && why == "" && origin != "":
				r.Outcome("accepted with a wrong origin")
				r.Violation("assertion-origin-"+origin, "%s: a session was created although the assertion was made for the origin %q", id, a.origin)
			case c != nil && why != "":
				r.Outcome("wrongly accepted")
				r.Violation("accepted:"+why+"/"+cs[0].name, "%s: a session was created although: %s", id, why)
			case c == nil && why == "" && !may && origin == "":
				r.Outcome("wrongly refused")
				r.Violation("refused", "%s: refused: %d %s", id, rec.Code, bytes.TrimSpace(rec.Body.Bytes()))
			case c != nil:
				r.Outcome("accepted")
				if m := c12Session(c, u, key, c12Page); m != "" {
					r.Violation("session", "%s: %s", id, m)
				}
				if !strings.Contains(rec.Body.String(), `"redirect":"`+c12Page+`"`) {
					r.Violation("redirect", "%s: %s", id, rec.Body)
				}
			default:
				r.Outcome("refused: %s", why)
				if rec.Code < 400 {
					r.Violation("refusal-status", "%s: refused with status %d", id, rec.Code)
				}
			}
			// Not a second time.
			if _, c := w.check(w.m, s.b, s.token, args); c != nil && (rec.Code == 200 || s.fresh == "") {
				r.Violation("replayed", "%s: the same assertion creates another session", id)
			}
		})
	}
	run("assert/good", nil)
	var rec func(from int, id string, cs []c12Case)
	rec = func(from int, id string, cs []c12Case) {
		if len(cs) > 0 {
			run(id, cs)
		}
		if len(cs) == max {
			return
		}
		for d := from; d < len(dims); d++ {
			for _, c := range dims[d] {
				rec(d+1, fmt.Sprintf("%s%d%s.", id, d, c.name), append(cs[:len(cs):len(cs)], c))
			}
		}
	}
	rec(0, "assert/", nil)
}

// c12Setup has two users. The first one has two keys, the second one had two
// and deleted one.
func c12Setup(e *c12Env) *c12State {
	r := e.r
	w := e.world()
	s := &c12State{w: w, method: "POST", hdr: c12CSRF}
	for u := 0; u < 2; u++ {
		b := c12NewBrowser()
		rec, c := w.register(w.m, b, u, e.keys[u][0])
		if rec.Code != 200 || c == nil {
			r.Violation("register", "the first key can't be registered: %d %s", rec.Code, bytes.TrimSpace(rec.Body.Bytes()))
			return nil
		}
		if m := c12Session(c, u, e.keys[u][0], c12Page); m != "" {
			r.Violation("register-session", "%s", m)
		}
		mb := w.manage(w.m, u, e.keys[u][0])
		if rec := w.addKey(w.m, mb, e.keys[u][1]); rec.Code != 200 {
			r.Violation("add", "another key can't be added: %d %s", rec.Code, bytes.TrimSpace(rec.Body.Bytes()))
			return nil
		}
		s.handle[u] = append([]byte(nil), e.keys[u][0].uid...)
		if u == 1 {
			if rec := w.deleteKey(w.m, mb, e.keys[1][1]); rec.Code != 200 {
				r.Violation("delete", "a key can't be deleted: %d", rec.Code)
			}
		}
	}
	s.b = c12NewBrowser()
	s.token = w.page(w.m, s.b)
	if o := w.assertionOptions(w.m, s.b, s.token, ""); o != nil {
		s.expired = c12Challenge(o.Challenge)
	}
	time.Sleep(5*time.Minute + time.Millisecond)
	if o := w.assertionOptions(w.m, s.b, s.token, ""); o != nil {
		s.used = c12Challenge(o.Challenge)
		_, c := w.check(w.m, s.b, s.token, c12Assertion{typ: "webauthn.get", challenge: s.used, origin: "https://" + c12Host, rp: c12Host, flags: 5,
			key: e.keys[0][0], id: e.keys[0][0].id, handle: s.handle[0]}.args())
		if c == nil {
			r.Violation("refused", "a good login is refused")
			return nil
		}
		delete(s.b.jar, "TLSPROXYAUTH")
	}
	if o := w.assertionOptions(w.m, s.b, s.token, ""); o != nil {
		s.fresh = c12Challenge(o.Challenge)
	}
	b2 := c12NewBrowser()
	b2.jar["TLSPROXYAUTH"] = e.otherSession(0)
	t2 := w.page(w.m, b2)
	if o := w.assertionOptions(w.m, b2, t2, c12Email(0)); o != nil {
		s.other = c12Challenge(o.Challenge)
		if len(o.AllowCredentials) != 2 || !bytes.Equal(o.AllowCredentials[0].ID, e.keys[0][0].id) {
			r.Violation("credentials", "the options for a login have credentials %v", o.AllowCredentials)
		}
	}
	if o := w.attestationOptions(w.m, b2, c12Endpoint+"?get=AttestationOptions&redirect="+t2); o != nil {
		s.create = c12Challenge(o.Challenge)
	}
	time.Sleep(5*time.Minute - time.Millisecond)
	return s
}

func c12Attestations(e *c12Env) {
	r := e.r
	type state struct {
		w                               *c12World
		b                               *c12Browser
		token, optToken                 string
		method                          string
		hdr                             map[string]string
		fresh, used, expired, get, them string
	}
	type variant struct {
		name, verdict string
		apply         func(a *c12Attestation, s *state)
	}
	dims := [][]variant{
		{{"get", "wrong type", func(a *c12Attestation, s *state) { a.typ = "webauthn.get" }}, {"none", "wrong type", func(a *c12Attestation, s *state) { a.typ = "" }}},
		{{"used", "challenge used", func(a *c12Attestation, s *state) { a.challenge = s.used }}, {"expired", "challenge expired", func(a *c12Attestation, s *state) { a.challenge = s.expired }},
			{"unknown", "unknown challenge", func(a *c12Attestation, s *state) { a.challenge = "AAAA" }}, {"empty", "unknown challenge", func(a *c12Attestation, s *state) { a.challenge = "" }},
			{"get", "challenge for a login", func(a *c12Attestation, s *state) { a.challenge = s.get }}, {"other", "another user's challenge", func(a *c12Attestation, s *state) { a.challenge = s.them }}},
		{{"other", "wrong site", func(a *c12Attestation, s *state) { a.origin = "https://evil.example.org" }}, {"sub", "wrong site", func(a *c12Attestation, s *state) { a.origin = "https://evil." + c12Host }},
			{"http", "wrong site", func(a *c12Attestation, s *state) { a.origin = "http://" + c12Host }}, {"empty", "wrong site", func(a *c12Attestation, s *state) { a.origin = "" }}},
		{{"other", "wrong relying party", func(a *c12Attestation, s *state) { a.rp = "evil.example.org" }}, {"parent", "wrong relying party", func(a *c12Attestation, s *state) { a.rp = "example.com" }}},
		{{"noup", "no user presence", func(a *c12Attestation, s *state) { a.flags = 0x44 }}, {"nouv", "no user verification", func(a *c12Attestation, s *state) { a.flags = 0x41 }},
			{"noat", "no key", func(a *c12Attestation, s *state) { a.flags = 5 }}},
		{{"short", "malformed", func(a *c12Attestation, s *state) { a.data = "short" }}, {"cut", "malformed", func(a *c12Attestation, s *state) { a.data = "cut" }},
			{"nokey", "malformed", func(a *c12Attestation, s *state) { a.data = "nokey" }}, {"garbage", "malformed", func(a *c12Attestation, s *state) { a.data = "garbage" }}},
		{{"get", "wrong method", func(a *c12Attestation, s *state) { s.method = "GET" }}, {"nocsrf", "cross-site", func(a *c12Attestation, s *state) { s.hdr = nil }}},
		{{"none", "no session", func(a *c12Attestation, s *state) { delete(s.b.jar, "TLSPROXYAUTH") }}, {"garbage", "no session", func(a *c12Attestation, s *state) { s.b.jar["TLSPROXYAUTH"] = "garbage" }},
			{"other", "another user's session", func(a *c12Attestation, s *state) { s.b.jar["TLSPROXYAUTH"] = e.otherSession(1) }},
			{"othermanage", "another user's session", func(a *c12Attestation, s *state) {
				s.b.jar["TLSPROXYAUTH"] = s.w.manage(s.w.m, 1, e.keys[1][0]).jar["TLSPROXYAUTH"]
			}},
			{"old", "old session", func(a *c12Attestation, s *state) {}}},
		{{"rsa", "", func(a *c12Attestation, s *state) { a.key = e.rsa }}},
	}
	acls := map[string]*[]string{"none": nil, "empty": {}, "other": {"user1@example.com", "@example.org"}, "user": {"user0@example.com"}, "domain": {"@example.com"}, "prefix": {"user0@example.co", "example.com", "@xample.com", "@EXAMPLE.com"}}
	aclNames := []string{"none", "empty", "other", "user", "domain", "prefix"}
	max := r.Pick(2, 3)
	r.Bound("deviations of an attestation", max)
	// manage: another key is added, otherwise the first one; registered: the user has a key already.
	run := func(mode, acl, id string, vs []variant) {
		id = "attest/" + mode + "-" + acl + "/" + id
		if !r.Case(id) {
			return
		}
		r.Exec()
		r.Step(6)
		vsched.Bubble(r, id, func(x *vsched.X) {
			w := e.world()
			if mode != "first" {
				w.register(w.m, c12NewBrowser(), 0, e.keys[0][0])
			}
			w.register(w.m, c12NewBrowser(), 1, e.keys[1][0])
			w.acl = acls[acl]
			w.m.SetACL(w.acl)
			s := &state{w: w, b: c12NewBrowser(), method: "POST", hdr: c12CSRF}
			base := c12Manage + "?"
			options := func(b *c12Browser, token string) string {
				t := c12Manage + "?get=AttestationOptions"
				if mode != "manage" {
					t = c12Endpoint + "?get=AttestationOptions&redirect=" + token
				}
				if o := w.attestationOptions(w.m, b, t); o != nil {
					return c12Challenge(o.Challenge)
				}
				return ""
			}
			add := func(args string) *httptest.ResponseRecorder {
				t := base + "get=AddKey"
				if mode != "manage" {
					t += "&redirect=" + s.token
				}
				return w.call(w.m, s.b, s.method, t, s.hdr, url.Values{"args": {args}})
			}
			them := c12NewBrowser()
			if mode == "manage" {
				s.b = w.manage(w.m, 0, e.keys[0][0])
				them = w.manage(w.m, 1, e.keys[1][0])
			} else {
				base = c12Endpoint + "?"
				s.b.jar["TLSPROXYAUTH"] = e.otherSession(0)
				them.jar["TLSPROXYAUTH"] = e.otherSession(1)
				s.token = w.page(w.m, s.b)
			}
			themToken := w.page(w.m, them)
			s.expired = options(s.b, s.token)
			time.Sleep(5*time.Minute + time.Millisecond)
			s.them = options(them, themToken)
			s.used = options(s.b, s.token)
			bad := c12Attestation{typ: "webauthn.create", challenge: s.used, origin: "https://" + c12Host, rp: "evil.example.org", flags: 0x45, key: e.keys[0][1]}
			if rec := add(bad.args()); rec.Code < 400 {
				r.Violation("attest-accepted:wrong relying party", "%s: a key for another site is registered", id)
				return
			}
			s.fresh = options(s.b, s.token)
			gb := c12NewBrowser()
			if o := w.assertionOptions(w.m, gb, w.page(w.m, gb), ""); o != nil {
				s.get = c12Challenge(o.Challenge)
			}
			time.Sleep(5*time.Minute - 2*time.Second)
			a := c12Attestation{typ: "webauthn.create", challenge: s.fresh, origin: "https://" + c12Host, rp: c12Host, flags: 0x45, key: e.keys[0][1]}
			key := func() *c12Key { return a.key }
			why := ""
			for _, v := range vs {
				switch v.name {
				case "old":
					if mode == "manage" {
						time.Sleep(5 * time.Minute)
						s.fresh = options(s.b, s.token)
						if s.fresh != "" {
							// The options may be had with an old session, but not the key.
							a.challenge = s.fresh
						}
						why = v.verdict
					}
					continue
				}
				v.apply(&a, s)
				if v.verdict != "" {
					why = v.verdict
				}
			}
			switch {
			case mode == "registered":
				why = "a key is registered already"
			case mode == "first" && acl != "none" && acl != "user" && acl != "domain":
				why = "not on the access list"
			}
			rec := add(a.args())
			ok := rec.Code == 200 && strings.Contains(rec.Body.String(), `"ok"`)
			c := w.claims(w.m, s.b, rec)
			w.acl = nil
			r.State(mode, why)
			// Does the key work?
			works := false
			for _, u := range []int{0, 1} {
				k := *key()
				for h, m := range w.m.db.Handles {
					if m.Claims["email"] == c12Email(u) {
						k.uid, _ = base64.RawURLEncoding.DecodeString(h)
					}
				}
				if _, c, _ := w.login(w.m, c12NewBrowser(), u, &k); c != nil {
					works = true
					if u != 0 {
						r.Violation("attest-other-user", "%s: the key of one user works for another", id)
					}
				}
			}
			switch {
			case why != "" && (ok || works || c != nil):
				r.Outcome("wrongly registered")
				r.Violation("attest-accepted:"+why, "%s: a key was registered although: %s (status %d, works %v)", id, why, rec.Code, works)
			case why == "" && (!ok || !works):
				r.Outcome("wrongly refused")
				r.Violation("attest-refused", "%s: the key is refused: %d %s (works %v)", id, rec.Code, bytes.TrimSpace(rec.Body.Bytes()), works)
			case ok:
				r.Outcome("registered")
				if mode == "first" {
					if m := c12Session(c, 0, key(), c12Page); m != "" {
						r.Violation("attest-session", "%s: %s", id, m)
					}
				}
			default:
				r.Outcome("refused: %s", why)
			}
		})
	}
	for _, mode := range []string{"first", "registered", "manage"} {
		for _, acl := range aclNames {
			run(mode, acl, "good", nil)
			if acl != "none" && (acl != "user" || mode != "first") {
				continue
			}
			var rec func(from int, id string, vs []variant)
			rec = func(from int, id string, vs []variant) {
				if len(vs) > 0 {
					run(mode, acl, id, vs)
				}
				if len(vs) == max || mode == "registered" && len(vs) == 1 {
					return
				}
				for d := from; d < len(dims); d++ {
					for _, v := range dims[d] {
						rec(d+1, fmt.Sprintf("%s%d%s.", id, d, v.name), append(vs[:len(vs):len(vs)], v))
					}
				}
			}
			rec(0, "", nil)
		}
	}
}

// c12Sequences runs all sequences of operations of two users.
func c12Sequences(e *c12Env) {
	r := e.r
	// R: register the first key; A: add the second key with a session of the
	// first; B: add the first key with a session of the second; D: delete key
	// k with a session of the other one; F: the same when the disk fails; O:
	// another user tries to; L: log in; M: log in with the second provider; P:
	// replay the last assertion; T: wait; X: restart; H: log in with another
	// user's handle.
	type action struct {
		kind string
		u, k int
	}
	acts := []action{{"R", 0, 0}, {"R", 1, 0}, {"A", 0, 1}, {"B", 0, 0}, {"D", 0, 0}, {"D", 0, 1}, {"F", 0, 1}, {"O", 0, 0}, {"L", 0, 0}, {"L", 0, 1}, {"M", 0, 1}, {"N", 0, 1}, {"H", 0, 0}, {"P", 0, 0}, {"X", 0, 0}}
	depth := r.Pick(4, 5)
	r.Bound("sequence length", depth)
	vx.Sequences(len(acts), 1, depth, func(seq []int) bool {
		var sb strings.Builder
		sb.WriteString("seq/")
		for _, i := range seq {
			fmt.Fprintf(&sb, "%s%d%d.", acts[i].kind, acts[i].u, acts[i].k)
		}
		id := sb.String()
		if acts[seq[0]].kind != "R" && acts[seq[0]].kind != "A" {
			return true
		}
		// The end has logins, and a restart.
		if k := acts[seq[len(seq)-1]].kind; k == "L" || k == "X" {
			return true
		}
		if !r.Case(id) {
			return true
		}
		r.Exec()
		r.Step(len(seq))
		vsched.Bubble(r, id, func(x *vsched.X) {
			w := e.world()
			w.browsers = map[*Manager]c12Login{}
			// What may log in: yes, no, or either (after a failure).
			const (
				no = iota
				yes
				either
			)
			var state [2][2]int
			var handle [2][]byte
			known := func(u int) bool { return handle[u] != nil }
			// The sessions used to manage keys outlive them.
			probe := func(step string, u, k int, m *Manager) {
				key := *e.keys[u][k]
				key.uid = handle[u]
				if key.uid == nil {
					key.uid = []byte("none")
				}
				rec, c, _ := w.login(m, c12NewBrowser(), u, &key)
				if rec == nil {
					return
				}
				switch {
				case c != nil && state[u][k] == no:
					r.Outcome("wrong login")
					r.Violation("seq-login", "%s: %s: key %d%d isn't registered, but logs in", id, step, u, k)
				case c == nil && state[u][k] == yes:
					r.Outcome("wrong refusal")
					r.Violation("seq-refused", "%s: %s: key %d%d is refused: %d %s", id, step, u, k, rec.Code, bytes.TrimSpace(rec.Body.Bytes()))
				case c != nil:
					r.Outcome("login")
					if m := c12Session(c, u, e.keys[u][k], c12Page); m != "" {
						r.Violation("seq-session", "%s: %s: %s", id, step, m)
					}
				default:
					r.Outcome("no login")
				}
			}
			// In every sequence, the first user has a key, unless it starts with R.
			lastArgs := ""
			if acts[seq[0]].kind != "R" {
				w.register(w.m, c12NewBrowser(), 0, e.keys[0][0])
				handle[0] = append([]byte(nil), e.keys[0][0].uid...)
				state[0][0] = yes
			}
			for n, i := range seq {
				a := acts[i]
				step := fmt.Sprintf("step %d", n)
				// Temporary files are named after the time.
				time.Sleep(time.Second)
				u := a.u
				key := e.keys[u][a.k]
				other := e.keys[u][1-a.k]
				switch a.kind {
				case "R":
					rec, c := w.register(w.m, c12NewBrowser(), u, e.keys[u][0])
					ok := rec.Code == 200 && c != nil
					none := state[u][0] == no && state[u][1] == no
					some := state[u][0] == yes || state[u][1] == yes
					if ok && some {
						r.Violation("seq-registered-again", "%s: %s: a user with a key registers another without it", id, step)
					}
					if !ok && none {
						r.Violation("seq-not-registered", "%s: %s: the first key can't be registered: %d", id, step, rec.Code)
					}
					if ok {
						state[u][0] = yes
						handle[u] = append([]byte(nil), e.keys[u][0].uid...)
					}
				case "A", "B":
					if !known(u) {
						return
					}
					rec := w.addKey(w.m, w.manage(w.m, u, other), key)
					if rec.Code != 200 {
						r.Violation("seq-not-added", "%s: %s: a key can't be added: %d", id, step, rec.Code)
					} else if !bytes.Equal(key.uid, handle[u]) {
						r.Violation("seq-handle", "%s: %s: the user's handle changed", id, step)
					}
					state[u][a.k] = yes
				case "D", "F":
					if !known(u) {
						return
					}
					if a.kind == "F" {
						vos.Fail(func(kind, file string) bool { return kind == "write" && strings.Contains(file, "passkeys.tmp") })
					}
					rec := w.deleteKey(w.m, w.manage(w.m, u, other), key)
					vos.Fail(nil)
					time.Sleep(time.Second)
					switch {
					case rec.Code == 200:
						state[u][a.k] = no
					case a.kind == "D":
						r.Violation("seq-not-deleted", "%s: %s: a key can't be deleted: %d", id, step, rec.Code)
					case state[u][a.k] == yes:
						state[u][a.k] = either
					}
				case "O":
					// Another user, and the user with the same key.
					w.deleteKey(w.m, w.manage(w.m, 1, e.keys[1][0]), key)
					if rec := w.deleteKey(w.m, w.manage(w.m, u, key), key); rec.Code < 400 && state[u][a.k] == yes {
						r.Outcome("key deletes itself")
						state[u][a.k] = either
					}
				case "L":
					probe(step, u, a.k, w.m)
				case "M":
					probe(step, u, a.k, w.m2)
				case "N": // deletion with the second provider
					if !known(u) {
						return
					}
					if rec := w.deleteKey(w.m2, w.manage(w.m2, u, other), key); rec.Code == 200 {
						state[u][a.k] = no
					} else {
						r.Violation("seq-not-deleted", "%s: %s: a key can't be deleted: %d", id, step, rec.Code)
					}
				case "H":
					if !known(0) || !known(1) {
						return
					}
					k := *e.keys[0][0]
					k.uid = handle[1]
					if _, c, _ := w.login(w.m, c12NewBrowser(), 1, &k); c != nil {
						r.Violation("seq-handle-login", "%s: %s: a key logs in with another user's handle as %v", id, step, c["email"])
					}
				case "P":
					if !known(u) {
						return
					}
					if lastArgs == "" {
						k := *key
						k.uid = handle[u]
						_, c, args := w.login(w.m, c12NewBrowser(), u, &k)
						if c == nil {
							return
						}
						lastArgs = args
					}
					for _, m := range []*Manager{w.m, w.m2} {
						b := c12NewBrowser()
						if _, c := w.check(m, b, w.page(m, b), lastArgs); c != nil {
							r.Violation("seq-replay", "%s: %s: a replayed assertion logs in", id, step)
						}
					}
				case "X":
					w.restart()
				}
			}
			r.State(state)
			for u := range state {
				for k := range state[u] {
					probe("end", u, k, w.m)
				}
			}
			w.restart()
			for u := range state {
				for k := range state[u] {
					probe("after a restart", u, k, w.m)
				}
			}
		})
		return true
	})
}

// c12Refresh is about users who must sign in again with the other identity
// provider, every so often.
func c12Refresh(e *c12Env) {
	r := e.r
	defer func() { e.refresh = 0 }()
	// L: log in; S: log in with a new session of the other provider; K: with
	// the one of the registration; O: with a new one of another user; t, T:
	// wait; X: restart.
	const acts = "LSKOtTX"
	depth := r.Pick(4, 5)
	r.Bound("sequence length with a refresh interval", depth)
	for _, interval := range []time.Duration{0, time.Hour, 70 * time.Hour} {
		vx.Sequences(len(acts), 1, depth, func(seq []int) bool {
			name := ""
			for _, i := range seq {
				name += acts[i : i+1]
			}
			// The end is a login, and there are no restarts in a row.
			if strings.HasSuffix(name, "X") || strings.ContainsAny(name[len(name)-1:], "tT") || strings.Contains(name, "XX") {
				return true
			}
			id := fmt.Sprintf("refresh/%s/%s", interval, name)
			if !r.Case(id) {
				return true
			}
			r.Exec()
			r.Step(len(seq))
			e.refresh = interval
			vsched.Bubble(r, id, func(x *vsched.X) {
				w := e.world()
				start := time.Now()
				// When the user last signed in with the other provider, at
				// least and at most.
				lo, hi := start, start
				key := *e.keys[0][0]
				if rec, c := w.register(w.m, c12NewBrowser(), 0, &key); c == nil {
					r.Violation("refresh-register", "%s: the key can't be registered: %d", id, rec.Code)
					return
				}
				first := w.otherSession(0)
				for n := range name {
					b := c12NewBrowser()
					now := time.Now()
					switch name[n] {
					case 't':
						time.Sleep(40 * time.Minute)
						continue
					case 'T':
						time.Sleep(30 * time.Hour)
						continue
					case 'X':
						w.restart()
						continue
					case 'S':
						b.jar["TLSPROXYAUTH"] = w.otherSession(0)
						lo, hi = now, now
					case 'K':
						b.jar["TLSPROXYAUTH"] = first
						if now.Sub(start) < 20*time.Hour {
							lo = start
						}
					case 'O':
						b.jar["TLSPROXYAUTH"] = w.otherSession(1)
					}
					rec, c, _ := w.login(w.m, b, 0, &key)
					if rec == nil {
						r.Violation("refresh-options", "%s: no options", id)
						return
					}
					var result struct{ Result, URL string }
					json.Unmarshal(rec.Body.Bytes(), &result)
					// The clock of the sessions has seconds.
					must := interval > 0 && now.Sub(hi) > interval+2*time.Second
					may := interval > 0 && now.Sub(lo) > interval-2*time.Second
					switch {
					case must && c != nil:
						r.Outcome("stale login")
						r.Violation("refresh-stale", "%s: step %d: a session was created %s after the user signed in with the other provider", id, n, now.Sub(hi))
					case !may && c == nil:
						r.Outcome("wrong refresh")
						r.Violation("refresh-refused", "%s: step %d: refused %s after the user signed in: %d %s", id, n, now.Sub(lo), rec.Code, bytes.TrimSpace(rec.Body.Bytes()))
					case c != nil:
						r.Outcome("login")
						if m := c12Session(c, 0, &key, c12Page); m != "" {
							r.Violation("refresh-session", "%s: step %d: %s", id, n, m)
						}
					default:
						r.Outcome("refresh")
						if rec.Code != 200 || result.Result != "refresh" || !strings.HasPrefix(result.URL, c12Endpoint) {
							r.Violation("refresh-answer", "%s: step %d: the user isn't told to sign in again: %d %s", id, n, rec.Code, bytes.TrimSpace(rec.Body.Bytes()))
						}
					}
				}
			})
			return true
		})
	}
}

func c12Races(e *c12Env) {
	r := e.r
	type world struct {
		*c12World
		args, args2   string // assertions
		b, b2         *c12Browser
		token, token2 string
	}
	setup := func() *world {
		w := &world{c12World: e.world()}
		w.register(w.m, c12NewBrowser(), 0, e.keys[0][0])
		w.addKey(w.m, w.manage(w.m, 0, e.keys[0][0]), e.keys[0][1])
		w.restart() // both managers know them
		w.b, w.b2 = c12NewBrowser(), c12NewBrowser()
		w.token = w.page(w.m, w.b)
		w.token2 = w.page(w.m, w.b2)
		good := func(o *AssertionOptions, k *c12Key) string {
			return c12Assertion{typ: "webauthn.get", challenge: c12Challenge(o.Challenge), origin: "https://" + c12Host, rp: c12Host, flags: 5, key: k, id: k.id, handle: e.keys[0][0].uid}.args()
		}
		w.args = good(w.assertionOptions(w.m, w.b, w.token, ""), e.keys[0][0])
		w.args2 = good(w.assertionOptions(w.m, w.b2, w.token2, ""), e.keys[0][1])
		return w
	}
	works := func(w *world, k *c12Key) bool {
		w.restart()
		kk := *k
		kk.uid = e.keys[0][0].uid
		_, c, _ := w.login(w.m, c12NewBrowser(), 0, &kk)
		return c != nil
	}
	check := func(w *world, m *Manager, b *c12Browser, token, args string) func() *httptest.ResponseRecorder {
		return func() *httptest.ResponseRecorder {
			return w.call(m, b, "POST", c12Endpoint+"?get=Check&redirect="+token, c12CSRF, url.Values{"args": {args}})
		}
	}
	races := []struct {
		name string
		make func(w *world) ([]func() *httptest.ResponseRecorder, func(recs []*httptest.ResponseRecorder) string)
	}{
		{"same-assertion", func(w *world) ([]func() *httptest.ResponseRecorder, func([]*httptest.ResponseRecorder) string) {
			f := check(w, w.m, w.b, w.token, w.args)
			return []func() *httptest.ResponseRecorder{f, f, f}, func(recs []*httptest.ResponseRecorder) string {
				n := 0
				for _, rec := range recs {
					if c12NewBrowser().response(rec) != "" {
						n++
					}
				}
				if n != 1 {
					return fmt.Sprintf("%d sessions from one assertion", n)
				}
				return ""
			}
		}},
		{"two-logins", func(w *world) ([]func() *httptest.ResponseRecorder, func([]*httptest.ResponseRecorder) string) {
			return []func() *httptest.ResponseRecorder{check(w, w.m, w.b, w.token, w.args), check(w, w.m, w.b2, w.token2, w.args2)}, func(recs []*httptest.ResponseRecorder) string {
				for i, rec := range recs {
					c := w.claims(w.m, c12NewBrowser(), rec)
					if c == nil {
						return "a good login is refused"
					}
					if m := c12Session(c, 0, e.keys[0][i], c12Page); m != "" {
						return m
					}
				}
				return ""
			}
		}},
		{"login-delete", func(w *world) ([]func() *httptest.ResponseRecorder, func([]*httptest.ResponseRecorder) string) {
			return []func() *httptest.ResponseRecorder{check(w, w.m, w.b2, w.token2, w.args2),
					func() *httptest.ResponseRecorder {
						return w.deleteKey(w.m, w.manage(w.m, 0, e.keys[0][0]), e.keys[0][1])
					}},
				func(recs []*httptest.ResponseRecorder) string {
					if recs[1].Code != 200 {
						return "a key can't be deleted"
					}
					if works(w, e.keys[0][1]) {
						return "a deleted key logs in"
					}
					if !works(w, e.keys[0][0]) {
						return "the other key doesn't log in"
					}
					return ""
				}
		}},
		{"login-delete-two-providers", func(w *world) ([]func() *httptest.ResponseRecorder, func([]*httptest.ResponseRecorder) string) {
			return []func() *httptest.ResponseRecorder{check(w, w.m, w.b2, w.token2, w.args2),
					func() *httptest.ResponseRecorder {
						return w.deleteKey(w.m2, w.manage(w.m2, 0, e.keys[0][0]), e.keys[0][1])
					}},
				func(recs []*httptest.ResponseRecorder) string {
					if recs[1].Code != 200 {
						return "a key can't be deleted"
					}
					if works(w, e.keys[0][1]) {
						return "a deleted key logs in"
					}
					if !works(w, e.keys[0][0]) {
						return "the other key doesn't log in"
					}
					return ""
				}
		}},
		{"add-delete-two-providers", func(w *world) ([]func() *httptest.ResponseRecorder, func([]*httptest.ResponseRecorder) string) {
			return []func() *httptest.ResponseRecorder{
					func() *httptest.ResponseRecorder {
						return w.addKey(w.m, w.manage(w.m, 0, e.keys[0][0]), e.rsa)
					},
					func() *httptest.ResponseRecorder {
						return w.deleteKey(w.m2, w.manage(w.m2, 0, e.keys[0][0]), e.keys[0][1])
					}},
				func(recs []*httptest.ResponseRecorder) string {
					if recs[0].Code != 200 || recs[1].Code != 200 {
						return fmt.Sprintf("a key can't be added or deleted: %d %d", recs[0].Code, recs[1].Code)
					}
					if works(w, e.keys[0][1]) {
						return "a deleted key logs in"
					}
					if !works(w, e.rsa) {
						return "a new key doesn't log in"
					}
					return ""
				}
		}},
		{"first-first", func(w *world) ([]func() *httptest.ResponseRecorder, func([]*httptest.ResponseRecorder) string) {
			reg := func(k *c12Key) func() *httptest.ResponseRecorder {
				return func() *httptest.ResponseRecorder {
					rec, _ := w.register(w.m, c12NewBrowser(), 1, k)
					return rec
				}
			}
			k0, k1 := *e.keys[1][0], *e.keys[1][1]
			return []func() *httptest.ResponseRecorder{reg(&k0), reg(&k1)}, func(recs []*httptest.ResponseRecorder) string {
				n := 0
				for i, k := range []*c12Key{&k0, &k1} {
					w.restart()
					_, c, _ := w.login(w.m, c12NewBrowser(), 1, k)
					if (c != nil) != (recs[i].Code == 200) {
						return fmt.Sprintf("registration ends with status %d, but login succeeds: %v", recs[i].Code, c != nil)
					}
					if c != nil {
						n++
					}
				}
				if n != 1 {
					return fmt.Sprintf("%d first keys are registered", n)
				}
				return ""
			}
		}},
	}
	for _, rc := range races {
		vsched.Explore(r, "race/"+rc.name, vsched.Opts{Deviations: r.Pick(3, 4)}, func(x *vsched.X) func() {
			w := setup()
			calls, verdict := rc.make(w)
			recs := make([]*httptest.ResponseRecorder, len(calls))
			for i, f := range calls {
				i, f := i, f
				x.Go(fmt.Sprintf("call%d", i), func() { recs[i] = f() })
			}
			return func() {
				for i := range recs {
					if recs[i] == nil {
						r.Violation("race-stuck", "%s: call %d never ended", x.ID, i)
						return
					}
				}
				m := verdict(recs)
				if m != "" {
					r.Violation("race:"+rc.name, "%s: %s", x.ID, m)
				}
				r.Outcome("race %s", m)
			}
		})
	}
}
