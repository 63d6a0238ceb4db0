package saml_test

import (
	"bytes"
	"compress/flate"
	"crypto"
	"crypto/ecdsa"
	"crypto/elliptic"
	"crypto/rand"
	"crypto/sha256"
	"crypto/x509"
	"crypto/x509/pkix"
	"encoding/base64"
	"encoding/hex"
	"encoding/pem"
	"encoding/xml"
	"fmt"
	"io"
	"math/big"
	"net/http"
	"net/http/httptest"
	"net/url"
	"runtime/debug"
	"strings"
	"testing"
	"time"

	"github.com/beevik/etree"
	"github.com/c2FmZQ/storage"
	stcrypto "github.com/c2FmZQ/storage/crypto"
	jwt "github.com/golang-jwt/jwt/v5"
	dsig "github.com/russellhaering/goxmldsig"

	"github.com/c2FmZQ/tlsproxy/internal/vsched"
	"github.com/c2FmZQ/tlsproxy/internal/vx"
	"github.com/c2FmZQ/tlsproxy/proxy/internal/cookiemanager"
	"github.com/c2FmZQ/tlsproxy/proxy/internal/saml"
	"github.com/c2FmZQ/tlsproxy/proxy/internal/tokenmanager"
)

const (
	c16SSO    = "https://idp.example.org/sso?x=1"
	c16ACS    = "https://login.example.com:8443/saml/acs"
	c16Aud    = "https://login.example.com/"
	c16Entity = "tls&proxy"
	c16OK     = "urn:oasis:names:tc:SAML:2.0:status:Success"
)

type c16Quiet struct{}

func (c16Quiet) Errorf(string, ...any) {}
func (c16Quiet) Record(string)         {}

type c16Key struct {
	key  crypto.Signer
	cert *x509.Certificate
}

func c16NewKey(r *vx.R, name string) c16Key {
	k, err := ecdsa.GenerateKey(elliptic.P256(), rand.Reader)
	if err != nil {
		r.T.Fatal(err)
	}
	tmpl := &x509.Certificate{SerialNumber: big.NewInt(1), Subject: pkix.Name{CommonName: name},
		NotBefore: time.Date(1990, 1, 1, 0, 0, 0, 0, time.UTC), NotAfter: time.Date(2090, 1, 1, 0, 0, 0, 0, time.UTC)}
	der, err := x509.CreateCertificate(rand.Reader, tmpl, tmpl, k.Public(), k)
	if err != nil {
		r.T.Fatal(err)
	}
	cert, err := x509.ParseCertificate(der)
	if err != nil {
		r.T.Fatal(err)
	}
	return c16Key{k, cert}
}

func (k c16Key) pem() string {
	return string(pem.EncodeToMemory(&pem.Block{Type: "CERTIFICATE", Bytes: k.cert.Raw}))
}

type c16Env struct {
	r                 *vx.R
	tm                *tokenmanager.TokenManager
	idp, second, evil c16Key
}

// c16Browser keeps cookies.
type c16Browser struct {
	jar map[string]*http.Cookie
}

// response takes the cookies of a response, and returns the new session.
func (b *c16Browser) response(w *httptest.ResponseRecorder) (session string) {
	for _, c := range w.Result().Cookies() {
		if c.MaxAge < 0 {
			delete(b.jar, c.Name)
			continue
		}
		b.jar[c.Name] = c
		if c.Name == "TLSPROXYAUTH" {
			session = c.Value
		}
	}
	return session
}

// cookies adds the cookies that the browser sends.
func (b *c16Browser) cookies(req *http.Request, crossSitePost bool) {
	for k, v := range b.jar {
		if crossSitePost && (v.SameSite != http.SameSiteNoneMode || !v.Secure) {
			continue
		}
		req.AddCookie(&http.Cookie{Name: k, Value: v.Value})
	}
}

type c16Login struct {
	browser  int
	url      string
	id       string
	created  time.Time
	answered bool
	sessions int
	last     bool
}

type c16World struct {
	*c16Env
	p        *saml.Provider
	login    []*c16Login
	browsers []*c16Browser
}

func (e *c16Env) world(certs string) *c16World {
	w := &c16World{c16Env: e}
	p, err := saml.New(saml.Config{SSOURL: c16SSO, EntityID: c16Entity, Certs: certs, ACSURL: c16ACS},
		c16Quiet{}, cookiemanager.New(e.tm, "idp", "example.com", c16Aud))
	if err != nil {
		e.r.T.Fatal(err)
	}
	w.p = p
	w.browsers = []*c16Browser{{jar: map[string]*http.Cookie{}}, {jar: map[string]*http.Cookie{}}}
	return w
}

func (w *c16World) start(b int, u string) *c16Login {
	rec := httptest.NewRecorder()
	req := httptest.NewRequest("GET", "https://www.example.com/.sso/login", nil)
	w.browsers[b].cookies(req, false)
	w.p.RequestLogin(rec, req, u)
	w.browsers[b].response(rec)
	loc := rec.Header().Get("Location")
	l, err := url.Parse(loc)
	if err != nil || rec.Code != 302 || l.Host != "idp.example.org" || l.Path != "/sso" || l.Query().Get("x") != "1" {
		w.r.Violation("login-redirect", "the login is sent to %q (%d)", loc, rec.Code)
		return nil
	}
	raw, err := base64.StdEncoding.DecodeString(l.Query().Get("SAMLRequest"))
	if err != nil {
		w.r.Violation("login-request", "the SAML request can't be decoded: %v", err)
		return nil
	}
	doc, err := io.ReadAll(flate.NewReader(bytes.NewReader(raw)))
	if err != nil {
		w.r.Violation("login-request", "the SAML request can't be inflated: %v", err)
		return nil
	}
	var q struct {
		ID, Destination, AssertionConsumerServiceURL string     `xml:"-"`
		Attrs                                        []xml.Attr `xml:",any,attr"`
		Issuer                                       string     `xml:"urn:oasis:names:tc:SAML:2.0:assertion Issuer"`
	}
	d := etree.NewDocument()
	if err := d.ReadFromBytes(doc); err != nil || d.Root() == nil {
		w.r.Violation("login-request", "the SAML request isn't XML: %v", err)
		return nil
	}
	q.ID = d.Root().SelectAttrValue("ID", "")
	q.Destination = d.Root().SelectAttrValue("Destination", "")
	q.AssertionConsumerServiceURL = d.Root().SelectAttrValue("AssertionConsumerServiceURL", "")
	if is := d.Root().FindElement("./Issuer"); is != nil {
		q.Issuer = is.Text()
	}
	if q.ID == "" || q.Destination != c16SSO || q.AssertionConsumerServiceURL != c16ACS || q.Issuer != c16Entity {
		w.r.Violation("login-request", "the SAML request is %s", doc)
	}
	lg := &c16Login{browser: b, url: u, id: q.ID, created: time.Now(), last: true}
	for _, o := range w.login {
		if o.id == lg.id {
			w.r.Violation("state-reused", "two requests have the same ID")
		}
		if o.browser == b {
			o.last = false
		}
	}
	w.login = append(w.login, lg)
	return lg
}

func (w *c16World) request(b int, response string) *http.Request {
	req := httptest.NewRequest("POST", c16ACS, strings.NewReader(url.Values{"SAMLResponse": {response}, "RelayState": {"x"}}.Encode()))
	req.Header.Set("Content-Type", "application/x-www-form-urlencoded")
	req.Header.Set("Origin", "https://idp.example.org")
	w.browsers[b].cookies(req, true)
	return req
}

func (w *c16World) send(b int, doc []byte) (*httptest.ResponseRecorder, string) {
	return w.call(b, w.request(b, base64.StdEncoding.EncodeToString(doc)))
}

func (w *c16World) call(b int, req *http.Request) (*httptest.ResponseRecorder, string) {
	rec := httptest.NewRecorder()
	func() {
		defer func() {
			if p := recover(); p != nil {
				w.r.Outcome("panic")
				w.r.Note("the callback panics: %v", p)
				rec.Code = 500
			}
		}()
		w.p.HandleCallback(rec, req)
	}()
	return rec, w.browsers[b].response(rec)
}

// session checks that the session is the one of the login.
func (w *c16World) session(lg *c16Login, tok, name string, rec *httptest.ResponseRecorder) string {
	t, err := w.tm.ValidateToken(tok, jwt.WithIssuer(c16Aud), jwt.WithAudience(c16Aud))
	if err != nil {
		return fmt.Sprintf("the session is not valid: %v", err)
	}
	c := t.Claims.(jwt.MapClaims)
	u, _ := url.Parse(lg.url)
	hh := sha256.Sum256([]byte(u.Host))
	for k, v := range map[string]string{"sub": name, "email": name, "provider": "idp", "source": "https://idp.example.org/meta", "hhash": hex.EncodeToString(hh[:])} {
		if c[k] != v {
			return fmt.Sprintf("the session has %s %q, want %q", k, c[k], v)
		}
	}
	if n, ok := c["firstname"]; ok && n != "Bob" {
		return fmt.Sprintf("the session has firstname %q", n)
	}
	if exp, err := c.GetExpirationTime(); err != nil || exp == nil || exp.Sub(time.Now()) > 25*time.Hour {
		return "the session never expires"
	}
	if l := rec.Header().Get("Location"); rec.Code != 302 || l != lg.url {
		return fmt.Sprintf("the user is sent to %q (%d), want %q", l, rec.Code, lg.url)
	}
	return ""
}

// c16Spec is a response.
type c16Spec struct {
	signer    string // idp, second, evil, stolen, none, outer, nokey
	canon     string
	inresp    string
	recipient string
	audience  string
	notBefore string
	notAfter  string
	confAfter string
	name      string // as XML
	status    string
	attrs     string
	how       string
	id        string
}

var c16Canon = map[string]func() dsig.Canonicalizer{
	"exc":  func() dsig.Canonicalizer { return dsig.MakeC14N10ExclusiveCanonicalizerWithPrefixList("") },
	"excc": func() dsig.Canonicalizer { return dsig.MakeC14N10ExclusiveWithCommentsCanonicalizerWithPrefixList("") },
	"11":   func() dsig.Canonicalizer { return dsig.MakeC14N11Canonicalizer() },
	"10":   func() dsig.Canonicalizer { return dsig.MakeC14N10RecCanonicalizer() },
}

func (e *c16Env) sign(el *etree.Element, key c16Key, cert *x509.Certificate, canon string) *etree.Element {
	var certs [][]byte
	if cert != nil {
		certs = [][]byte{cert.Raw}
	}
	ctx, err := dsig.NewSigningContext(key.key, certs)
	if err != nil {
		e.r.T.Fatal(err)
	}
	ctx.Canonicalizer = c16Canon[canon]()
	out, err := ctx.SignEnveloped(el)
	if err != nil {
		e.r.T.Fatal(err)
	}
	if cert == nil {
		for _, k := range out.FindElements("./Signature/KeyInfo") {
			k.Parent().RemoveChild(k)
		}
	}
	return out
}

const (
	c16NSA = "urn:oasis:names:tc:SAML:2.0:assertion"
	c16NSP = "urn:oasis:names:tc:SAML:2.0:protocol"
)

func c16Attr(k, v string) string {
	if v == "absent" {
		return ""
	}
	return fmt.Sprintf(` %s="%s"`, k, v)
}

func c16Elem(k, v string) string {
	if v == "absent" {
		return ""
	}
	return fmt.Sprintf("<saml:%s>%s</saml:%s>", k, v, k)
}

// assertion makes an assertion, without signature.
func (s c16Spec) assertion() *etree.Element {
	id := s.id
	if id == "" {
		id = "_a1"
	}
	doc := etree.NewDocument()
	x := `<saml:Assertion xmlns:saml="` + c16NSA + `" ID="` + id + `" Version="2.0" IssueInstant="2000-01-01T00:00:00Z">` +
		`<saml:Issuer>https://idp.example.org/meta</saml:Issuer>` +
		`<saml:Subject>` + c16Elem("NameID", s.name) +
		`<saml:SubjectConfirmation Method="urn:oasis:names:tc:SAML:2.0:cm:bearer"><saml:SubjectConfirmationData` +
		c16Attr("InResponseTo", s.inresp) + c16Attr("Recipient", s.recipient) + c16Attr("NotOnOrAfter", s.confAfter) + `/></saml:SubjectConfirmation></saml:Subject>` +
		`<saml:Conditions` + c16Attr("NotBefore", s.notBefore) + c16Attr("NotOnOrAfter", s.notAfter) + `>`
	if s.audience != "absent" {
		x += `<saml:AudienceRestriction>` + c16Elem("Audience", s.audience) + `</saml:AudienceRestriction>`
	}
	x += `</saml:Conditions>` + s.attrs + `<saml:AuthnStatement AuthnInstant="2000-01-01T00:00:00Z"/></saml:Assertion>`
	if err := doc.ReadFromString(x); err != nil {
		panic(err)
	}
	return doc.Root()
}

func (e *c16Env) signed(s c16Spec) *etree.Element {
	a := s.assertion()
	switch s.signer {
	case "idp":
		a = e.sign(a, e.idp, e.idp.cert, s.canon)
	case "second":
		a = e.sign(a, e.second, e.second.cert, s.canon)
	case "nokey":
		a = e.sign(a, e.idp, nil, s.canon)
	case "evil":
		a = e.sign(a, e.evil, e.evil.cert, s.canon)
	case "stolen": // the provider's certificate, not its key
		a = e.sign(a, e.evil, e.idp.cert, s.canon)
	case "evilnokey":
		a = e.sign(a, e.evil, nil, s.canon)
	}
	doc := etree.NewDocument()
	doc.SetRoot(a)
	return e.reparse(doc).Root()
}

// response wraps assertions in a response.
func (e *c16Env) response(s c16Spec, assertions ...*etree.Element) *etree.Document {
	doc := etree.NewDocument()
	x := `<samlp:Response xmlns:samlp="` + c16NSP + `" ID="_r1" Version="2.0" Destination="` + c16ACS + `" IssueInstant="2000-01-01T00:00:00Z">` +
		`<saml:Issuer xmlns:saml="` + c16NSA + `">https://idp.example.org/meta</saml:Issuer>`
	switch s.status {
	case "absent":
	case "nested":
		x += `<samlp:Status><samlp:StatusCode Value="urn:oasis:names:tc:SAML:2.0:status:Responder"><samlp:StatusCode Value="` + c16OK + `"/></samlp:StatusCode></samlp:Status>`
	default:
		x += `<samlp:Status><samlp:StatusCode Value="` + s.status + `"/></samlp:Status>`
	}
	x += `</samlp:Response>`
	if err := doc.ReadFromString(x); err != nil {
		panic(err)
	}
	for _, a := range assertions {
		doc.Root().AddChild(a)
	}
	return e.reparse(doc)
}

// reparse makes sure that all parents are set.
func (e *c16Env) reparse(doc *etree.Document) *etree.Document {
	out := etree.NewDocument()
	if err := out.ReadFromBytes(e.bytes(doc)); err != nil {
		e.r.T.Fatal(err)
	}
	return out
}

func (e *c16Env) bytes(doc *etree.Document) []byte {
	b, err := doc.WriteToBytes()
	if err != nil {
		e.r.T.Fatal(err)
	}
	return b
}

func c16Good(id string) c16Spec {
	now := time.Now().UTC()
	return c16Spec{signer: "idp", canon: "exc", inresp: id, recipient: c16ACS, audience: c16Aud,
		notBefore: now.Add(-time.Minute).Format(time.RFC3339Nano), notAfter: now.Add(time.Hour).Format(time.RFC3339Nano),
		confAfter: now.Add(time.Hour).Format(time.RFC3339Nano), name: "bob@example.com", status: c16OK,
		attrs: `<saml:AttributeStatement><saml:Attribute Name="firstname"><saml:AttributeValue>Bob</saml:AttributeValue></saml:Attribute></saml:AttributeStatement>`}
}

func TestVX(t *testing.T) {
	r := vx.Start(t, "C16")
	defer r.Done()
	debug.SetGCPercent(2000)
	debug.SetMemoryLimit(1 << 30)
	mk, err := stcrypto.CreateAESMasterKeyForTest()
	if err != nil {
		t.Fatal(err)
	}
	tm, err := tokenmanager.New(storage.New(r.Scratch("store"), mk), nil, c16Quiet{})
	if err != nil {
		t.Fatal(err)
	}
	e := &c16Env{r: r, tm: tm, idp: c16NewKey(r, "idp"), second: c16NewKey(r, "second"), evil: c16NewKey(r, "evil")}
	c16Answers(e)
	c16Edits(e)
	c16Wrapping(e)
	c16Sequences(e)
	c16Races(e)
}

// A variant changes one dimension of a good response. The verdict is "" when
// it must still be accepted, "?" when it may be, or the reason for which it
// must be refused.
type c16Variant struct {
	name    string
	verdict string
	apply   func(s *c16Spec, w *c16World)
}

func c16Answers(e *c16Env) {
	r := e.r
	set := func(f func(s *c16Spec) *string, v string) func(*c16Spec, *c16World) {
		return func(s *c16Spec, w *c16World) { *f(s) = v }
	}
	at := func(f func(s *c16Spec) *string, d time.Duration) func(*c16Spec, *c16World) {
		return func(s *c16Spec, w *c16World) { *f(s) = time.Now().UTC().Add(d).Format(time.RFC3339Nano) }
	}
	signer := func(s *c16Spec) *string { return &s.signer }
	canon := func(s *c16Spec) *string { return &s.canon }
	inresp := func(s *c16Spec) *string { return &s.inresp }
	recipient := func(s *c16Spec) *string { return &s.recipient }
	audience := func(s *c16Spec) *string { return &s.audience }
	nb := func(s *c16Spec) *string { return &s.notBefore }
	na := func(s *c16Spec) *string { return &s.notAfter }
	ca := func(s *c16Spec) *string { return &s.confAfter }
	name := func(s *c16Spec) *string { return &s.name }
	status := func(s *c16Spec) *string { return &s.status }
	attrs := func(s *c16Spec) *string { return &s.attrs }
	how := func(s *c16Spec) *string { return &s.how }
	attr := func(k string) string {
		return `<saml:AttributeStatement><saml:Attribute Name="` + k + `"><saml:AttributeValue>admin@example.com</saml:AttributeValue></saml:Attribute></saml:AttributeStatement>`
	}
	dims := [][]c16Variant{
		{{"second", "", set(signer, "second")}, {"evil", "another signer", set(signer, "evil")}, {"stolen", "invalid signature", set(signer, "stolen")},
			{"unsigned", "no signature", set(signer, "none")}, {"outer", "?", set(signer, "outer")}, {"outerevil", "another signer", set(signer, "outerevil")},
			{"nokey", "?", set(signer, "nokey")}, {"evilnokey", "another signer", set(signer, "evilnokey")}},
		{{"excc", "", set(canon, "excc")}, {"c11", "", set(canon, "11")}, {"c10", "", set(canon, "10")}},
		{{"absent", "not for our request", set(inresp, "absent")}, {"empty", "not for our request", set(inresp, "")}, {"unknown", "not for our request", set(inresp, "0123456789abcdef01234567")},
			{"other", "for another browser", func(s *c16Spec, w *c16World) { s.inresp = w.login[1].id }},
			{"case", "not for our request", func(s *c16Spec, w *c16World) { s.inresp = strings.ToUpper(s.inresp) + "A" }},
			{"space", "not for our request", func(s *c16Spec, w *c16World) { s.inresp = s.inresp + " " }}},
		{{"absent", "not for this service", set(recipient, "absent")}, {"empty", "not for this service", set(recipient, "")}, {"other", "not for this service", set(recipient, "https://other.example.com/saml/acs")},
			{"suffix", "not for this service", set(recipient, c16ACS+"/x")}, {"prefix", "not for this service", set(recipient, c16ACS[:len(c16ACS)-1])}},
		{{"absent", "not for this audience", set(audience, "absent")}, {"empty", "not for this audience", set(audience, "")}, {"other", "not for this audience", set(audience, "https://other.example.com/")},
			{"suffix", "not for this audience", set(audience, c16Aud+"x")}, {"host", "not for this audience", set(audience, "https://login.example.com.evil.org/")},
			{"prefix", "not for this audience", set(audience, "https://login.example.co/")}},
		{{"now", "", at(nb, 0)}, {"future", "not valid yet", at(nb, time.Millisecond)}, {"tomorrow", "not valid yet", at(nb, 24*time.Hour)},
			{"absent", "?", set(nb, "absent")}, {"garbage", "time garbage", set(nb, "yesterday")},
			{"zone", "not valid yet", func(s *c16Spec, w *c16World) {
				s.notBefore = time.Now().Add(30 * time.Minute).In(time.FixedZone("x", -3600)).Format(time.RFC3339)
			}}},
		{{"soon", "", at(na, time.Millisecond)}, {"now", "expired", at(na, 0)}, {"past", "expired", at(na, -time.Millisecond)}, {"longago", "expired", at(na, -24*time.Hour)},
			{"absent", "?", set(na, "absent")}, {"garbage", "time garbage", set(na, "tomorrow")},
			{"zone", "expired", func(s *c16Spec, w *c16World) {
				s.notAfter = time.Now().Add(-30 * time.Minute).In(time.FixedZone("x", 3600)).Format(time.RFC3339)
			}}},
		{{"soon", "", at(ca, time.Millisecond)}, {"now", "expired", at(ca, 0)}, {"past", "expired", at(ca, -time.Millisecond)}, {"absent", "?", set(ca, "absent")}},
		{{"empty", "no name", set(name, "")}, {"absent", "no name", set(name, "absent")}, {"alice", "", set(name, "alice@example.com")},
			{"entity", "", set(name, "a&amp;b@example.com")}, {"cdata", "", set(name, "<![CDATA[bob@example.com]]>")},
			{"comment", "", set(name, "bob@example.com<!-- x -->.evil.org")}, {"comment0", "?", set(name, "<!-- x -->bob@example.com")}},
		{{"requester", "the status is a failure", set(status, "urn:oasis:names:tc:SAML:2.0:status:Requester")}, {"authnfailed", "the status is a failure", set(status, "urn:oasis:names:tc:SAML:2.0:status:AuthnFailed")},
			{"nested", "the status is a failure", set(status, "nested")}, {"absent", "?", set(status, "absent")}},
		{{"none", "", set(attrs, "")}, {"email", "", set(attrs, attr("email"))}, {"sub", "", set(attrs, attr("sub"))}, {"exp", "", set(attrs, attr("exp"))},
			{"hhash", "", set(attrs, attr("hhash"))}, {"provider", "", set(attrs, attr("provider"))}, {"aud", "", set(attrs, attr("aud"))}},
		{{"get", "wrong method", set(how, "get")}, {"query", "wrong method", set(how, "query")}, {"base64", "garbage", set(how, "base64")}, {"truncated", "garbage", set(how, "truncated")},
			{"empty", "garbage", set(how, "empty")}, {"twice", "", set(how, "twice")}, {"put", "wrong method", set(how, "put")}},
		{{"late", "", set(how, "late")}, {"toolate", "the request is too old", set(how, "toolate")}, {"otherbrowser", "for another browser", set(how, "otherbrowser")}},
	}
	max := r.Pick(2, 3)
	r.Bound("deviations of a response", max)
	run := func(id string, vs []c16Variant) {
		if strings.Contains(id, "2other.") && strings.Contains(id, "12otherbrowser.") {
			return // the other browser's own login
		}
		if !r.Case(id) {
			return
		}
		r.Exec()
		r.Step(3)
		vsched.Bubble(r, id, func(xx *vsched.X) {
			w := e.world(e.idp.pem() + e.second.pem())
			l := w.start(0, "https://www.example.com/page?a=b&c=%2F")
			o := w.start(1, "https://other.example.com/other")
			if l == nil || o == nil {
				return
			}
			hows := map[string]bool{}
			for _, v := range vs {
				var s c16Spec
				v.apply(&s, w)
				hows[s.how] = true
			}
			switch {
			case hows["late"]:
				time.Sleep(5*time.Minute - time.Millisecond)
			case hows["toolate"]:
				time.Sleep(5*time.Minute + time.Millisecond)
			}
			s := c16Good(l.id)
			why, may := "", false
			for _, v := range vs {
				v.apply(&s, w)
				switch v.verdict {
				case "":
				case "?":
					may = true
				default:
					why = v.verdict
				}
			}
			a := e.signed(s)
			doc := e.response(s, a)
			if s.signer == "outer" || s.signer == "outerevil" {
				k := e.idp
				if s.signer != "outer" {
					k = e.evil
				}
				doc.SetRoot(e.sign(doc.Root(), k, k.cert, s.canon))
			}
			b := e.bytes(doc)
			enc := base64.StdEncoding.EncodeToString(b)
			br := 0
			if hows["otherbrowser"] {
				br = 1
			}
			switch {
			case hows["base64"]:
				enc = "@@" + enc
			case hows["truncated"]:
				enc = base64.StdEncoding.EncodeToString(b[:len(b)/2])
			case hows["empty"]:
				enc = ""
			}
			req := w.request(br, enc)
			switch {
			case hows["get"]:
				req.Method = "GET"
				req.URL.RawQuery = url.Values{"SAMLResponse": {enc}}.Encode()
			case hows["query"]:
				q := httptest.NewRequest("POST", c16ACS+"?"+url.Values{"SAMLResponse": {enc}}.Encode(), nil)
				w.browsers[br].cookies(q, true)
				req = q
			case hows["put"]:
				req.Method = "PUT"
			}
			rec, tok := w.call(br, req)
			// The name as a receiver of the signed bytes must read it: without comments.
			name := map[string]string{"a&amp;b@example.com": "a&b@example.com", "<![CDATA[bob@example.com]]>": "bob@example.com",
				"bob@example.com<!-- x -->.evil.org": "bob@example.com.evil.org", "<!-- x -->bob@example.com": "bob@example.com"}[s.name]
			if name == "" {
				name = s.name
			}
			r.State(why, may, s.canon)
			c16Verdict(w, id, why, may, l, tok, name, rec)
			if tok == "" {
				return
			}
			// It can't be used again, by the same browser or the other.
			for i := 0; i < 2; i++ {
				w.browsers[i].jar["x"] = &http.Cookie{}
				delete(w.browsers[i].jar, "x")
				if _, tok := w.send(i, b); tok != "" {
					r.Violation("replayed", "%s: the same response creates another session", id)
				}
			}
		})
	}
	run("answer/good", nil)
	var rec func(from int, id string, vs []c16Variant)
	rec = func(from int, id string, vs []c16Variant) {
		if len(vs) > 0 {
			run(id, vs)
		}
		if len(vs) == max {
			return
		}
		for d := from; d < len(dims); d++ {
			for _, v := range dims[d] {
				rec(d+1, fmt.Sprintf("%s%d%s.", id, d, v.name), append(vs[:len(vs):len(vs)], v))
			}
		}
	}
	rec(0, "answer/", nil)
	// The same with a provider that has only one certificate, which may sign without naming it.
	for _, signer := range []string{"idp", "nokey", "second", "evil", "stolen", "evilnokey", "none"} {
		for _, canon := range []string{"exc", "excc", "11", "10"} {
			id := "answer/onecert-" + signer + "-" + canon
			if !r.Case(id) {
				continue
			}
			r.Exec()
			vsched.Bubble(r, id, func(xx *vsched.X) {
				w := e.world(e.idp.pem())
				l := w.start(0, "https://www.example.com/")
				if l == nil {
					return
				}
				s := c16Good(l.id)
				s.signer, s.canon = signer, canon
				why := ""
				if signer != "idp" && signer != "nokey" {
					why = "another signer"
				}
				recd, tok := w.send(0, e.bytes(e.response(s, e.signed(s))))
				c16Verdict(w, id, why, signer == "nokey", l, tok, s.name, recd)
			})
		}
	}
}

func c16Verdict(w *c16World, id, why string, may bool, l *c16Login, tok, name string, rec *httptest.ResponseRecorder) {
	r := w.r
	switch {
	case why != "" && tok != "":
		r.Outcome("wrongly accepted")
		r.Violation("accepted:"+why, "%s: a session was created although: %s", id, why)
	case why == "" && !may && tok == "":
		r.Outcome("wrongly refused")
		r.Violation("refused", "%s: the login was refused: %d %s", id, rec.Code, bytes.TrimSpace(rec.Body.Bytes()))
	case tok != "":
		r.Outcome("accepted")
		l.sessions++
		if m := w.session(l, tok, name, rec); m != "" {
			r.Violation("session", "%s: %s", id, m)
		}
	default:
		r.Outcome("refused: %s", why)
		if rec.Code < 400 {
			r.Violation("refusal-status", "%s: refused with status %d", id, rec.Code)
		}
	}
}

// walk lists all elements in document order.
func c16Walk(el *etree.Element) []*etree.Element {
	out := []*etree.Element{el}
	for _, c := range el.ChildElements() {
		out = append(out, c16Walk(c)...)
	}
	return out
}

// c16Edits changes signed responses.
func c16Edits(e *c16Env) {
	r := e.r
	now := func(d time.Duration) string { return time.Now().UTC().Add(d).Format(time.RFC3339Nano) }
	bases := []struct {
		name  string
		apply func(s *c16Spec, w *c16World)
	}{
		{"good", func(s *c16Spec, w *c16World) {}},
		{"expired", func(s *c16Spec, w *c16World) { s.notAfter, s.confAfter = now(-time.Hour), now(-time.Hour) }},
		{"early", func(s *c16Spec, w *c16World) { s.notBefore = now(time.Hour) }},
		{"recipient", func(s *c16Spec, w *c16World) { s.recipient = "https://other.example.com/acs" }},
		{"audience", func(s *c16Spec, w *c16World) { s.audience = "https://other.example.com/" }},
		{"request", func(s *c16Spec, w *c16World) { s.inresp = "_other" }},
		{"signer", func(s *c16Spec, w *c16World) { s.signer = "evil" }},
		{"unsigned", func(s *c16Spec, w *c16World) { s.signer = "none" }},
		{"failed", func(s *c16Spec, w *c16World) { s.status = "urn:oasis:names:tc:SAML:2.0:status:Requester" }},
	}
	type edit struct {
		name string
		f    func(doc, good *etree.Document) bool // false if it can't be done
	}
	// The edits are found on a sample, which has the same shape as all others.
	sample := c16Good("0123456789abcdef01234567")
	els := c16Walk(e.response(sample, e.signed(sample)).Root())
	el := func(doc *etree.Document, i int) *etree.Element {
		if l := c16Walk(doc.Root()); i < len(l) {
			return l[i]
		}
		return nil
	}
	var edits []edit
	status := map[string]bool{}
	add := func(name string, f func(doc, good *etree.Document) bool) {
		edits = append(edits, edit{name, f})
		if strings.Contains(name, "Status") && !strings.Contains(name, "Authn") {
			status[name] = true
		}
	}
	text := func(f func(el, good *etree.Element) bool, i int) func(doc, good *etree.Document) bool {
		return func(doc, good *etree.Document) bool {
			x := el(doc, i)
			return x != nil && f(x, el(good, i))
		}
	}
	for i, x := range els {
		n := fmt.Sprintf("%d%s", i, x.Tag)
		if i > 0 {
			add("del-"+n, text(func(x, g *etree.Element) bool {
				if x.Parent() == nil {
					return false
				}
				x.Parent().RemoveChild(x)
				return true
			}, i))
			add("dup-"+n, text(func(x, g *etree.Element) bool {
				if x.Parent() == nil {
					return false
				}
				x.Parent().InsertChildAt(x.Index(), x.Copy())
				return true
			}, i))
			add("dupgood-"+n, text(func(x, g *etree.Element) bool {
				if x.Parent() == nil || g == nil {
					return false
				}
				x.Parent().InsertChildAt(x.Index(), g.Copy())
				return true
			}, i))
			add("good-"+n, text(func(x, g *etree.Element) bool {
				if x.Parent() == nil || g == nil {
					return false
				}
				p, j := x.Parent(), x.Index()
				p.InsertChildAt(j, g.Copy())
				p.RemoveChild(x)
				return true
			}, i))
		}
		add("tag-"+n, text(func(x, g *etree.Element) bool { x.Tag = "X" + x.Tag; return true }, i))
		add("ns-"+n, text(func(x, g *etree.Element) bool { x.CreateAttr("xmlns:"+x.Space, "urn:x"); return true }, i))
		add("text-"+n, text(func(x, g *etree.Element) bool { x.SetText("admin@example.com"); return true }, i))
		add("pretext-"+n, text(func(x, g *etree.Element) bool { x.InsertChildAt(0, etree.NewText("admin@example.com")); return true }, i))
		add("addtext-"+n, text(func(x, g *etree.Element) bool { x.AddChild(etree.NewText("x")); return true }, i))
		add("comment-"+n, text(func(x, g *etree.Element) bool {
			t := x.Text()
			if len(t) < 4 {
				x.InsertChildAt(0, etree.NewComment("x"))
				return true
			}
			x.RemoveChildAt(0)
			x.InsertChildAt(0, etree.NewText(t[:4]))
			x.InsertChildAt(1, etree.NewComment("x"))
			x.InsertChildAt(2, etree.NewText(t[4:]))
			return true
		}, i))
		add("procinst-"+n, text(func(x, g *etree.Element) bool {
			t := x.Text()
			if len(t) < 4 {
				return false
			}
			x.RemoveChildAt(0)
			x.InsertChildAt(0, etree.NewText(t[:4]))
			x.InsertChildAt(1, etree.NewProcInst("x", "y"))
			x.InsertChildAt(2, etree.NewText(t[4:]))
			return true
		}, i))
		add("attr-"+n, text(func(x, g *etree.Element) bool { x.CreateAttr("ID", "_a1"); return true }, i))
		for j, a := range x.Attr {
			j := j
			m := fmt.Sprintf("%s@%s", n, a.Key)
			add("delattr-"+m, text(func(x, g *etree.Element) bool {
				if j >= len(x.Attr) {
					return false
				}
				x.Attr = append(x.Attr[:j:j], x.Attr[j+1:]...)
				return true
			}, i))
			add("setattr-"+m, text(func(x, g *etree.Element) bool {
				if j >= len(x.Attr) {
					return false
				}
				x.Attr[j].Value = "x" + x.Attr[j].Value
				return true
			}, i))
		}
		for k, y := range els {
			if k == i || i == 0 {
				continue
			}
			i, k := i, k
			for _, at := range []string{"first", "last"} {
				at := at
				add(fmt.Sprintf("move-%s-%s-%d%s", n, at, k, y.Tag), func(doc, good *etree.Document) bool {
					x, y := el(doc, i), el(doc, k)
					if x == nil || y == nil {
						return false
					}
					for p := y; p != nil; p = p.Parent() {
						if p == x {
							return false
						}
					}
					x.Parent().RemoveChild(x)
					if at == "first" {
						y.InsertChildAt(0, x)
					} else {
						y.AddChild(x)
					}
					return true
				})
			}
		}
	}
	// What a good assertion says, elsewhere in the response.
	for _, at := range []string{"first", "last"} {
		for _, in := range []string{"root", "extensions", "evidence"} {
			add("says-"+at+"-"+in, func(doc, good *etree.Document) bool {
				x := good.Root().FindElement("./Assertion")
				if x == nil {
					return false
				}
				x = x.Copy()
				switch in {
				case "root":
					// Only its parts.
					for i, c := range x.ChildElements() {
						if at == "first" {
							doc.Root().InsertChildAt(i, c.Copy())
						} else {
							doc.Root().AddChild(c.Copy())
						}
					}
					return true
				case "extensions":
					y := etree.NewElement("Extensions")
					y.AddChild(x)
					x = y
				case "evidence":
					x.Tag = "Evidence"
				}
				if at == "first" {
					doc.Root().InsertChildAt(0, x)
				} else {
					doc.Root().AddChild(x)
				}
				return true
			})
		}
	}
	r.Bound("edits of a response", len(edits))
	run := func(canon string, base int, eds ...edit) {
		id := "edit/" + canon + "-" + bases[base].name
		for _, ed := range eds {
			id += "/" + ed.name
		}
		if !r.Case(id) {
			return
		}
		r.Exec()
		r.Step(2)
		vsched.Bubble(r, id, func(xx *vsched.X) {
			w := e.world(e.idp.pem() + e.second.pem())
			l := w.start(0, "https://www.example.com/page")
			if l == nil {
				return
			}
			s := c16Good(l.id)
			s.canon = canon
			good := s
			good.signer = "none"
			bases[base].apply(&s, w)
			doc := e.response(s, e.signed(s))
			gd := e.response(good, e.sign(good.assertion(), e.evil, e.evil.cert, canon))
			for _, ed := range eds {
				if !ed.f(doc, gd) {
					r.Outcome("edit impossible")
					return
				}
			}
			rec, tok := w.send(0, e.bytes(doc))
			r.State(canon, base, tok != "")
			if tok == "" {
				r.Outcome("edit refused")
				return
			}
			r.Outcome("edit accepted")
			edited := false
			for _, ed := range eds {
				edited = edited || status[ed.name]
			}
			if base != 0 && !(bases[base].name == "failed" && edited) {
				r.Violation("edit-accepted:"+bases[base].name, "%s: a session was created", id)
			}
			if m := w.session(l, tok, "bob@example.com", rec); m != "" {
				r.Violation("edit-session", "%s: %s", id, m)
			}
		})
	}
	for _, canon := range []string{"exc", "excc", "11", "10"} {
		for base := range bases {
			if base > 0 && canon != "exc" && canon != "11" {
				continue
			}
			for _, ed := range edits {
				if base > 0 && !r.Thorough() && strings.HasPrefix(ed.name, "move-") && (canon != "11" || bases[base].name != "unsigned" && bases[base].name != "expired") {
					continue
				}
				run(canon, base, ed)
			}
		}
	}
	if r.Thorough() {
		for _, base := range []int{0, 1, 7} {
			for _, a := range edits {
				if strings.HasPrefix(a.name, "move-") {
					continue
				}
				for _, b := range edits {
					run("11", base, a, b)
				}
			}
		}
	}
}

// c16Wrapping combines the signed assertion with a forged one.
func c16Wrapping(e *c16Env) {
	r := e.r
	n := 0
	ids := []string{"_a1", "_evil", ""}
	// Where the forged one is, relative to the signed one.
	places := []string{"before", "after", "outside", "inside-first", "inside-last", "insignature", "inobject", "wrapped", "decoy"}
	// Where the signature goes.
	sigs := []string{"signed", "forged", "both", "root", "forged-and-root"}
	tags := []string{"saml:Assertion", "Assertion", "samlp:Assertion", "x:Assertion", "saml:Evidence"}
	for _, canon := range []string{"exc", "excc", "11", "10"} {
		for _, eid := range ids {
			for _, place := range places {
				for _, sg := range sigs {
					for _, tag := range tags {
						for _, uri := range []string{"as is", "empty"} {
							id := fmt.Sprintf("wrap/%s/%s-%s-%s-%s-%s", canon, eid, place, sg, tag, strings.ReplaceAll(uri, " ", ""))
							n++
							if !r.Case(id) {
								continue
							}
							r.Exec()
							r.Step(2)
							vsched.Bubble(r, id, func(xx *vsched.X) {
								w := e.world(e.idp.pem() + e.second.pem())
								l := w.start(0, "https://www.example.com/page")
								if l == nil {
									return
								}
								s := c16Good(l.id)
								s.canon = canon
								signed := e.signed(s)
								fs := s
								fs.name = "admin@example.com"
								forged := fs.assertion()
								if eid == "" {
									forged.RemoveAttr("ID")
								} else {
									forged.CreateAttr("ID", eid)
								}
								if i := strings.IndexByte(tag, ':'); i >= 0 {
									forged.Space, forged.Tag = tag[:i], tag[i+1:]
									if forged.Space != "saml" {
										forged.CreateAttr("xmlns:"+forged.Space, c16NSA)
									}
								} else {
									forged.Space, forged.Tag = "", tag
									forged.CreateAttr("xmlns", c16NSA)
								}
								sig := signed.FindElement("./Signature")
								sigCopy := func() *etree.Element {
									c := sig.Copy()
									if uri == "empty" {
										c.FindElement("./SignedInfo/Reference").CreateAttr("URI", "")
									}
									return c
								}
								doc := e.response(s)
								root := doc.Root()
								switch sg {
								case "signed":
								case "forged":
									forged.AddChild(sigCopy())
									signed.RemoveChild(sig)
								case "both":
									forged.AddChild(sigCopy())
								case "root":
									root.AddChild(sigCopy())
									signed.RemoveChild(sig)
								case "forged-and-root":
									root.AddChild(sigCopy())
									forged.AddChild(sigCopy())
									signed.RemoveChild(sig)
								}
								object := func(in *etree.Element) *etree.Element {
									s := in.FindElement("./Signature")
									if s == nil {
										s = in.FindElement("//Signature")
									}
									if s == nil {
										s = in
									}
									o := etree.NewElement("Object")
									o.Space = "ds"
									s.AddChild(o)
									return o
								}
								switch place {
								case "before":
									root.AddChild(forged)
									root.AddChild(signed)
								case "after":
									root.AddChild(signed)
									root.AddChild(forged)
								case "outside": // the forged one around the signed one
									forged.AddChild(signed)
									root.AddChild(forged)
								case "inside-first":
									signed.InsertChildAt(0, forged)
									root.AddChild(signed)
								case "inside-last":
									signed.AddChild(forged)
									root.AddChild(signed)
								case "insignature": // the signed one in the signature of the forged one
									root.AddChild(forged)
									if s := forged.FindElement("./Signature"); s != nil {
										s.AddChild(signed)
									} else {
										forged.AddChild(signed)
									}
								case "inobject":
									root.AddChild(forged)
									object(forged).AddChild(signed)
								case "wrapped":
									x := etree.NewElement("Extensions")
									x.AddChild(signed)
									root.InsertChildAt(0, x)
									root.AddChild(forged)
								case "decoy":
									x := etree.NewElement("Extensions")
									x.AddChild(forged)
									root.InsertChildAt(0, x)
									root.AddChild(signed)
								}
								rec, tok := w.send(0, e.bytes(doc))
								r.State(place, sg, tok != "")
								if tok == "" {
									r.Outcome("wrapping refused")
									return
								}
								r.Outcome("wrapping: the signed one is used")
								if m := w.session(l, tok, "bob@example.com", rec); m != "" {
									r.Violation("wrapping", "%s: %s", id, m)
								}
							})
						}
					}
				}
			}
		}
	}
	r.Bound("wrappings", n)
}

// c16Sequences runs all sequences of steps of two browsers.
func c16Sequences(e *c16Env) {
	r := e.r
	type action struct {
		kind string
		b, s int
	}
	acts := []action{{"L", 0, 0}, {"L", 1, 0}}
	for b := 0; b < 2; b++ {
		for s := 0; s < 3; s++ { // logins 0..1, unknown
			acts = append(acts, action{"C", b, s})
		}
	}
	// An invalid answer for a login.
	acts = append(acts, action{"X", 0, 0}, action{"X", 1, 0}, action{"T-", 0, 0}, action{"T+", 0, 0})
	urls := []string{"https://www.example.com/a?x=1#f", "https://b.example.com/%2e/b"}
	depth := r.Pick(5, 6)
	r.Bound("sequence length", depth)
	vx.Sequences(len(acts), 2, depth, func(seq []int) bool {
		n, cb := 0, 0
		var sb strings.Builder
		sb.WriteString("seq/")
		for _, i := range seq {
			a := acts[i]
			switch a.kind {
			case "L":
				n++
			case "C", "X":
				cb++
				if a.s < 2 && a.s >= n {
					return true
				}
			}
			fmt.Fprintf(&sb, "%s%d%d.", a.kind, a.b, a.s)
		}
		if n == 0 || n > 2 || acts[seq[0]].kind != "L" || cb == 0 || acts[seq[len(seq)-1]].kind != "C" {
			return true
		}
		id := sb.String()
		if !r.Case(id) {
			return true
		}
		r.Exec()
		r.Step(len(seq))
		vsched.Bubble(r, id, func(xx *vsched.X) {
			w := e.world(e.idp.pem())
			docs := map[int][]byte{}
			for _, i := range seq {
				a := acts[i]
				switch a.kind {
				case "L":
					if w.start(a.b, urls[len(w.login)]) == nil {
						return
					}
					s := c16Good(w.login[len(w.login)-1].id)
					docs[len(w.login)-1] = e.bytes(e.response(s, e.signed(s)))
				case "T-":
					time.Sleep(4*time.Minute + 58*time.Second)
				case "T+":
					time.Sleep(3 * time.Second)
				case "X":
					s := c16Good(w.login[a.s].id)
					s.signer = "evil"
					_, tok := w.send(a.b, e.bytes(e.response(s, e.signed(s))))
					if tok != "" {
						r.Violation("accepted:another signer", "%s: accepted an answer from another signer", id)
						return
					}
					// Whoever sends garbage may have to start again, others not.
					for _, o := range w.login {
						if o.browser == a.b {
							o.answered = true
						}
					}
				case "C":
					var lg *c16Login
					doc := docs[a.s]
					if a.s < 2 {
						lg = w.login[a.s]
					} else {
						s := c16Good("0123456789abcdef01234567")
						doc = e.bytes(e.response(s, e.signed(s)))
					}
					rec, tok := w.send(a.b, doc)
					why, may := "", false
					switch {
					case lg == nil:
						why = "its request is unknown"
					case lg.sessions > 0:
						why = "its request was answered before"
					case lg.browser != a.b:
						why = "another browser made the request"
					case time.Since(lg.created) > 5*time.Minute:
						why = "the request is too old"
					case lg.answered || !lg.last:
						may = true
					}
					for _, o := range w.login {
						if o == lg || o.browser == a.b {
							o.answered = true
						}
					}
					r.State(why, may, len(w.login))
					if lg == nil {
						lg = w.login[0]
					}
					c16Verdict(w, id, why, may, lg, tok, "bob@example.com", rec)
				}
			}
		})
		return true
	})
}

func c16Races(e *c16Env) {
	r := e.r
	races := []struct {
		name  string
		calls [][2]int // browser, login; login -1 starts a new one
	}{
		{"same-2", [][2]int{{0, 0}, {0, 0}}},
		{"same-3", [][2]int{{0, 0}, {0, 0}, {0, 0}}},
		{"stolen", [][2]int{{0, 0}, {1, 0}}},
		{"two-browsers", [][2]int{{0, 0}, {1, 1}}},
		{"two-browsers-twice", [][2]int{{0, 0}, {1, 1}, {0, 0}, {1, 1}}},
		{"callback-login", [][2]int{{0, 0}, {1, -1}, {0, 0}}},
	}
	for _, rc := range races {
		id := "race/" + rc.name
		vsched.Explore(r, id, vsched.Opts{Deviations: r.Pick(3, 4)}, func(x *vsched.X) func() {
			w := e.world(e.idp.pem())
			w.start(0, "https://www.example.com/0")
			w.start(1, "https://www.example.com/1")
			if len(w.login) < 2 {
				return nil
			}
			recs := make([]*httptest.ResponseRecorder, len(rc.calls))
			for i, c := range rc.calls {
				i, c := i, c
				if c[1] < 0 {
					req := httptest.NewRequest("GET", "https://www.example.com/.sso/login", nil)
					x.Go(fmt.Sprintf("login%d", i), func() {
						rec := httptest.NewRecorder()
						w.p.RequestLogin(rec, req, "https://www.example.com/2")
						recs[i] = rec
					})
					continue
				}
				s := c16Good(w.login[c[1]].id)
				req := w.request(c[0], base64.StdEncoding.EncodeToString(e.bytes(e.response(s, e.signed(s)))))
				x.Go(fmt.Sprintf("callback%d", i), func() {
					rec := httptest.NewRecorder()
					w.p.HandleCallback(rec, req)
					recs[i] = rec
				})
			}
			return func() {
				got := map[int]int{}
				for i, c := range rc.calls {
					if recs[i] == nil {
						r.Violation("race-stuck", "%s: call %d never ended", id, i)
						return
					}
					if c[1] < 0 {
						if recs[i].Code != 302 {
							r.Violation("race-login", "%s: login failed with %d", id, recs[i].Code)
						}
						continue
					}
					b := &c16Browser{jar: map[string]*http.Cookie{}}
					tok := b.response(recs[i])
					if tok == "" {
						continue
					}
					lg := w.login[c[1]]
					if lg.browser != c[0] {
						r.Violation("race-stolen", "%s: another browser got the session", x.ID)
					}
					if m := w.session(lg, tok, "bob@example.com", recs[i]); m != "" {
						r.Violation("race-session", "%s: %s", x.ID, m)
					}
					got[c[1]]++
				}
				for l := 0; l < 2; l++ {
					want := 0
					stolen := false
					for _, c := range rc.calls {
						if c[1] == l && w.login[l].browser == c[0] {
							want = 1
						} else if c[1] == l {
							stolen = true
						}
					}
					r.Outcome("race sessions %d", got[l])
					if got[l] > want || got[l] < want && !stolen {
						r.Violation(fmt.Sprintf("race-sessions-%d", got[l]), "%s: %d sessions for login %d, want %d", x.ID, got[l], l, want)
					}
				}
			}
		})
	}
}
