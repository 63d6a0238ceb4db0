package oidc_test

import (
	"bytes"
	"crypto/rand"
	"crypto/sha256"
	"encoding/base64"
	"encoding/hex"
	"encoding/json"
	"errors"
	"fmt"
	"io"
	"net/http"
	"net/http/httptest"
	"net/url"
	"strings"
	"testing"
	"time"

	"github.com/c2FmZQ/storage"
	"github.com/c2FmZQ/storage/crypto"
	jwt "github.com/golang-jwt/jwt/v5"

	"github.com/c2FmZQ/tlsproxy/internal/vsched"
	"github.com/c2FmZQ/tlsproxy/internal/vsync"
	"github.com/c2FmZQ/tlsproxy/internal/vx"
	"github.com/c2FmZQ/tlsproxy/proxy/internal/cookiemanager"
	"github.com/c2FmZQ/tlsproxy/proxy/internal/oidc"
	"github.com/c2FmZQ/tlsproxy/proxy/internal/tokenmanager"
)

const (
	c10Auth     = "https://idp.example.org/auth"
	c10Token    = "https://idp.example.org/token"
	c10UserInfo = "https://idp.example.org/userinfo"
	c10Redirect = "https://login.example.com/callback"
	c10Client   = "client&id"
	c10Secret   = "s3cr3t+/&="
	c10Issuer   = "https://login.example.com/"
)

type c10Quiet struct{}

func (c10Quiet) Errorf(string, ...any) {}
func (c10Quiet) Record(string)         {}

func c10TM(r *vx.R) *tokenmanager.TokenManager {
	mk, err := crypto.CreateAESMasterKeyForTest()
	if err != nil {
		r.T.Fatal(err)
	}
	tm, err := tokenmanager.New(storage.New(r.Scratch("store"), mk), nil, c10Quiet{})
	if err != nil {
		r.T.Fatal(err)
	}
	return tm
}

// answer is what the provider says about the user.
type c10Answer struct {
	email    string // "" for none
	verified string // "", true, false
	hd       string
	nonce    string // own, none, bogus, other
	sub      string
	fail     string // "", error, json, notjwt, noinfo, status
}

type c10Code struct {
	nonce, challenge string
}

// c10IDP is the identity provider.
type c10IDP struct {
	pkce     bool
	userinfo bool
	answer   c10Answer
	codes    map[string]c10Code
	other    string // the nonce of another request
	asked    []url.Values
	yield    bool
}

func (i *c10IDP) RoundTrip(req *http.Request) (*http.Response, error) {
	if i.yield {
		vsync.Yield("provider")
	}
	reply := func(code int, body string) (*http.Response, error) {
		return &http.Response{StatusCode: code, Status: fmt.Sprint(code), Header: http.Header{"Content-Type": {"application/json"}},
			Body: io.NopCloser(strings.NewReader(body)), Request: req, ProtoMajor: 1, ProtoMinor: 1}, nil
	}
	a := i.answer
	claims := jwt.MapClaims{"iss": "https://idp.example.org", "aud": c10Client, "name": "N"}
	set := func(k, v string) {
		if v != "" {
			claims[k] = v
		}
	}
	set("email", a.email)
	set("hd", a.hd)
	set("sub", a.sub)
	if a.verified != "" {
		claims["email_verified"] = a.verified == "true"
	}
	switch req.URL.String() {
	case c10Token:
		b, _ := io.ReadAll(req.Body)
		form, err := url.ParseQuery(string(b))
		if err != nil || req.Method != "POST" {
			return reply(400, `{"error":"invalid_request"}`)
		}
		i.asked = append(i.asked, form)
		code, ok := i.codes[form.Get("code")]
		vh := sha256.Sum256([]byte(form.Get("code_verifier")))
		if !ok || form.Get("client_id") != c10Client || form.Get("client_secret") != c10Secret || form.Get("redirect_uri") != c10Redirect || form.Get("grant_type") != "authorization_code" {
			return reply(400, `{"error":"invalid_grant"}`)
		}
		if i.pkce && base64.RawURLEncoding.EncodeToString(vh[:]) != code.challenge {
			return reply(400, `{"error":"invalid_grant"}`)
		}
		switch a.fail {
		case "error":
			return nil, errors.New("connection reset")
		case "json":
			return reply(200, `{"access_token":"at","id_token":"e`)
		case "notjwt":
			return reply(200, `{"access_token":"at","id_token":"e30.e30"}`)
		case "status":
			return reply(500, `{"error":"server_error"}`)
		}
		out := map[string]any{"access_token": "at-" + form.Get("code"), "token_type": "Bearer"}
		if !i.userinfo {
			switch a.nonce {
			case "own":
				claims["nonce"] = code.nonce
			case "bogus":
				claims["nonce"] = "00"
			case "other":
				claims["nonce"] = i.other
			}
			t, err := jwt.NewWithClaims(jwt.SigningMethodHS256, claims).SignedString([]byte("key"))
			if err != nil {
				panic(err)
			}
			out["id_token"] = t
		}
		body, _ := json.Marshal(out)
		return reply(200, string(body))
	case c10UserInfo:
		if !i.userinfo || !strings.HasPrefix(req.Header.Get("Authorization"), "Bearer at-") {
			return reply(401, `{}`)
		}
		body, _ := json.Marshal(claims)
		return reply(200, string(body))
	}
	return reply(404, "")
}

// c10Browser keeps cookies.
type c10Browser struct {
	jar   map[string]string
	nonce string // the name of the last cookie of a login
}

func (b *c10Browser) request(u string) *http.Request {
	req := httptest.NewRequest("GET", u, nil)
	for k, v := range b.jar {
		req.AddCookie(&http.Cookie{Name: k, Value: v})
	}
	return req
}

// response takes the cookies of a response, and returns the new session.
func (b *c10Browser) response(w *httptest.ResponseRecorder) (session string) {
	for _, c := range w.Result().Cookies() {
		if c.MaxAge < 0 {
			delete(b.jar, c.Name)
			continue
		}
		b.jar[c.Name] = c.Value
		if strings.HasPrefix(c.Name, "TLSPROXYNONCE") {
			b.nonce = c.Name
		}
		if c.Name == "TLSPROXYAUTH" {
			session = c.Value
		}
	}
	return session
}

type c10World struct {
	r   *vx.R
	tm  *tokenmanager.TokenManager
	p   *oidc.ProviderClient
	idp *c10IDP
	// the logins in progress
	login    []*c10Login
	browsers []*c10Browser
	now      func() time.Time
}

type c10Login struct {
	browser   int
	url       string
	state     string
	nonce     string
	challenge string
	code      string
	created   time.Time
	answered  bool // a callback was processed for it
	sessions  int
	last      bool // it is the last one that its browser started
}

func c10New(r *vx.R, tm *tokenmanager.TokenManager, hd string, userinfo, pkce bool) *c10World {
	w := &c10World{r: r, tm: tm, idp: &c10IDP{pkce: pkce, userinfo: userinfo, codes: map[string]c10Code{}, answer: c10Answer{
		email: "u@example.com", verified: "true", hd: "example.com", nonce: "own", sub: "subject"}}}
	cfg := oidc.Config{AuthEndpoint: c10Auth, TokenEndpoint: c10Token, RedirectURL: c10Redirect, ClientID: c10Client, ClientSecret: c10Secret, HostedDomain: hd}
	if userinfo {
		cfg.UserinfoEndpoint = c10UserInfo
	}
	p, err := oidc.New(cfg, c10Quiet{}, cookiemanager.New(tm, "idp", "example.com", c10Issuer))
	if err != nil {
		r.T.Fatal(err)
	}
	w.p = p
	http.DefaultTransport = w.idp
	w.browsers = []*c10Browser{{jar: map[string]string{}}, {jar: map[string]string{}}}
	return w
}

func (w *c10World) start(b int, u string) *c10Login {
	rec := httptest.NewRecorder()
	w.p.RequestLogin(rec, w.browsers[b].request("https://www.example.com/.sso/login"), u)
	return w.started(b, u, rec)
}

func (w *c10World) started(b int, u string, rec *httptest.ResponseRecorder) *c10Login {
	w.browsers[b].response(rec)
	l, err := url.Parse(rec.Header().Get("Location"))
	if err != nil || rec.Code != 302 || !strings.HasPrefix(l.String(), c10Auth+"?") {
		w.r.Violation("login-redirect", "the login is sent to %q (%d)", rec.Header().Get("Location"), rec.Code)
		return nil
	}
	q := l.Query()
	for k, v := range map[string]string{"response_type": "code", "client_id": c10Client, "redirect_uri": c10Redirect, "code_challenge_method": "S256"} {
		if q.Get(k) != v || len(q[k]) != 1 {
			w.r.Violation("login-params", "parameter %s of the authorization request is %q, want %q", k, q[k], v)
		}
	}
	if q.Get("state") == "" || q.Get("nonce") == "" {
		w.r.Violation("login-params", "the authorization request has no state or nonce")
	}
	lg := &c10Login{browser: b, url: u, state: q.Get("state"), nonce: q.Get("nonce"), challenge: q.Get("code_challenge"), created: time.Now(), last: true}
	for _, o := range w.login {
		if o.state == lg.state || o.nonce == lg.nonce {
			w.r.Violation("state-reused", "two logins have the same state or nonce")
		}
		if o.browser == b {
			o.last = false
		}
	}
	lg.code = fmt.Sprintf("code/%d+&", len(w.login))
	w.idp.codes[lg.code] = c10Code{nonce: lg.nonce, challenge: lg.challenge}
	w.login = append(w.login, lg)
	return lg
}

func (w *c10World) callback(b int, state, code string) *httptest.ResponseRecorder {
	rec := httptest.NewRecorder()
	q := url.Values{"state": {state}, "code": {code}}
	if state == "" {
		q.Del("state")
	}
	w.p.HandleCallback(rec, w.browsers[b].request(c10Redirect+"?"+q.Encode()))
	return rec
}

// session checks that the session is the one of the login.
func (w *c10World) session(lg *c10Login, tok string, rec *httptest.ResponseRecorder) string {
	t, err := w.tm.ValidateToken(tok, jwt.WithIssuer(c10Issuer), jwt.WithAudience(c10Issuer))
	if err != nil {
		return fmt.Sprintf("the session is not valid: %v", err)
	}
	c := t.Claims.(jwt.MapClaims)
	u, _ := url.Parse(lg.url)
	hh := sha256.Sum256([]byte(u.Host))
	for k, v := range map[string]string{"sub": w.idp.answer.sub, "email": w.idp.answer.email, "provider": "idp", "hhash": hex.EncodeToString(hh[:])} {
		if c[k] != v {
			return fmt.Sprintf("the session has %s %q, want %q", k, c[k], v)
		}
	}
	if l := rec.Header().Get("Location"); rec.Code != 302 || l != lg.url {
		return fmt.Sprintf("the user is sent to %q (%d), want %q", l, rec.Code, lg.url)
	}
	return ""
}

func TestVX(t *testing.T) {
	r := vx.Start(t, "C10")
	defer r.Done()
	tm := c10TM(r)
	// A session needs time only from the bubble; random is real.
	rand.Read(make([]byte, 1))
	c10Answers(r, tm)
	c10Sequences(r, tm)
	c10Races(r, tm)
}

func c10Answers(r *vx.R, tm *tokenmanager.TokenManager) {
	hds := []string{"", "example.com", "*"}
	emails := []string{"u@example.com", ""}
	verif := []string{"", "true", "false"}
	hd := []string{"", "example.com", "other.com", "Example.com.evil"}
	nonce := []string{"own", "none", "bogus", "other"}
	sub := []string{"subject", ""}
	fails := []string{"", "error", "json", "notjwt", "status"}
	for _, cfg := range hds {
		for _, ui := range []bool{false, true} {
			for _, pkce := range []bool{false, true} {
				vx.Product([]int{len(emails), len(verif), len(hd), len(nonce), len(sub), len(fails), 3}, func(x []int) bool {
					a := c10Answer{email: emails[x[0]], verified: verif[x[1]], hd: hd[x[2]], nonce: nonce[x[3]], sub: sub[x[4]], fail: fails[x[5]]}
					// The other request: from the same browser before or after, or another browser.
					other := x[6]
					if a.fail != "" && (x[0]+x[1]+x[2]+x[3]+x[4] > 0) || ui && (x[3] > 0 || other == 1) {
						return true
					}
					id := fmt.Sprintf("answer/%q-%v-%v/%+v/%d", cfg, ui, pkce, a, other)
					if !r.Case(id) {
						return true
					}
					r.Exec()
					r.Step(3)
					vsched.Bubble(r, id, func(xx *vsched.X) {
						w := c10New(r, tm, cfg, ui, pkce)
						var l, o *c10Login
						switch other {
						case 0:
							o = w.start(0, "https://other.example.com/other")
							l = w.start(0, "https://www.example.com/page?a=b&c=%2F")
						case 1:
							l = w.start(0, "https://www.example.com/page?a=b&c=%2F")
							o = w.start(1, "https://other.example.com/other")
						case 2:
							o = w.start(1, "https://other.example.com/other")
							l = w.start(0, "https://www.example.com/page?a=b&c=%2F")
						}
						if l == nil || o == nil {
							return
						}
						w.idp.answer = a
						w.idp.other = o.nonce
						rec := w.callback(0, l.state, l.code)
						tok := w.browsers[0].response(rec)
						why := ""
						switch {
						case a.fail != "":
							why = "the provider failed"
						case a.email == "":
							why = "no e-mail address"
						case a.verified == "false":
							why = "the address is not verified"
						case a.sub == "":
							why = "no subject"
						case cfg != "" && (a.hd == "" || cfg != "*" && a.hd != cfg):
							why = "not the allowed domain"
						case !ui && a.nonce != "own":
							why = "the nonce is not the one of this request"
						}
						r.State(cfg, ui, pkce, why)
						switch {
						case why != "" && tok != "":
							r.Outcome("wrongly accepted")
							r.Violation("accepted:"+why, "%s: a session was created although %s", id, why)
						case why == "" && tok == "":
							r.Outcome("wrongly refused")
							r.Violation("refused", "%s: the login was refused: %d %s", id, rec.Code, rec.Body)
						case tok != "":
							r.Outcome("accepted")
							if m := w.session(l, tok, rec); m != "" {
								r.Violation("session", "%s: %s", id, m)
							}
							if _, err := w.tm.ValidateToken(tok); err != nil {
								r.Violation("session", "%s: %v", id, err)
							}
						default:
							r.Outcome("refused: " + why)
							if rec.Code < 400 {
								r.Violation("refusal-status", "%s: refused with status %d", id, rec.Code)
							}
						}
						// Whatever the outcome, the state is spent.
						w.idp.answer = c10Answer{email: "u@example.com", verified: "true", hd: "example.com", nonce: "own", sub: "subject"}
						w.browsers[0].jar[w.browsers[0].nonce] = l.state
						rec = w.callback(0, l.state, l.code)
						if w.browsers[0].response(rec) != "" {
							r.Violation("state-twice", "%s: the state was accepted again", id)
						}
					})
					return true
				})
			}
		}
	}
}

// c10Sequences runs all sequences of steps of two browsers.
func c10Sequences(r *vx.R, tm *tokenmanager.TokenManager) {
	type action struct {
		kind string
		a    [3]int
	}
	var acts []action
	for b := 0; b < 2; b++ {
		acts = append(acts, action{"L", [3]int{b}})
	}
	for b := 0; b < 2; b++ {
		for s := 0; s < 4; s++ { // logins 0..1, unknown, none
			for c := 0; c < 2; c++ {
				if s >= 2 && c > 0 {
					continue
				}
				acts = append(acts, action{"C", [3]int{b, s, c}})
			}
		}
	}
	acts = append(acts, action{"T-", [3]int{}}, action{"T+", [3]int{}})
	urls := []string{"https://www.example.com/a?x=1#f", "https://b.example.com/%2e/b"}
	depth := r.Pick(5, 6)
	r.Bound("sequence length", depth)
	for _, cfg := range []struct{ ui, pkce bool }{{false, true}, {false, false}, {true, true}} {
		vx.Sequences(len(acts), 2, depth, func(seq []int) bool {
			// Only sequences whose callbacks are for logins that exist.
			n, cb := 0, 0
			var id strings.Builder
			fmt.Fprintf(&id, "seq/%v-%v/", cfg.ui, cfg.pkce)
			for _, i := range seq {
				a := acts[i]
				switch a.kind {
				case "L":
					n++
				case "C":
					cb++
					if a.a[1] < 2 && a.a[1] >= n || a.a[2] >= n {
						return true
					}
				}
				fmt.Fprintf(&id, "%s%d%d%d.", a.kind, a.a[0], a.a[1], a.a[2])
			}
			if n == 0 || n > 2 || acts[seq[0]].kind != "L" || cb == 0 || acts[seq[len(seq)-1]].kind != "C" {
				return true
			}
			if !r.Case(id.String()) {
				return true
			}
			r.Exec()
			r.Step(len(seq))
			vsched.Bubble(r, id.String(), func(xx *vsched.X) {
				w := c10New(r, tm, "", cfg.ui, cfg.pkce)
				for _, i := range seq {
					a := acts[i]
					switch a.kind {
					case "L":
						if w.start(a.a[0], urls[len(w.login)]) == nil {
							return
						}
					case "T-":
						time.Sleep(4*time.Minute + 58*time.Second)
					case "T+":
						time.Sleep(3 * time.Second)
					case "C":
						b := a.a[0]
						var lg *c10Login
						state, code := "0123456789abcdef", w.login[a.a[2]].code
						switch {
						case a.a[1] < 2:
							lg = w.login[a.a[1]]
							state = lg.state
						case a.a[1] == 3:
							state = ""
						}
						rec := w.callback(b, state, code)
						tok := w.browsers[b].response(rec)
						why, may := "", false
						switch {
						case lg == nil:
							why = "its state is unknown"
						case lg.sessions > 0:
							why = "its state was used before"
						case lg.browser != b:
							why = "another browser made the request"
						case time.Since(lg.created) > 5*time.Minute:
							why = "the request is too old"
						case w.login[a.a[2]] != lg && (cfg.pkce || !cfg.ui):
							why = "the provider's answer is for another request"
						case lg.answered || !lg.last:
							may = true // a second attempt, or one in another tab
						}
						// Any callback uses up the browser's cookie.
						for _, o := range w.login {
							if o == lg || o.browser == b {
								o.answered = true
							}
						}
						r.State(cfg.ui, cfg.pkce, why, may, len(w.login))
						if tok != "" {
							if why != "" {
								r.Outcome("wrongly accepted")
								r.Violation("accepted:"+why, "%s: a session was created although %s", id.String(), why)
								return
							}
							lg.sessions++
							r.Outcome("accepted")
							if m := w.session(lg, tok, rec); m != "" {
								r.Violation("session", "%s: %s", id.String(), m)
							}
							continue
						}
						r.Outcome("refused: " + why)
						if why == "" && !may {
							r.Violation("refused", "%s: the login was refused: %d %s", id.String(), rec.Code, bytes.TrimSpace(rec.Body.Bytes()))
							return
						}
						if rec.Code < 400 {
							r.Violation("refusal-status", "%s: refused with status %d, location %q", id.String(), rec.Code, rec.Header().Get("Location"))
						}
					}
				}
			})
			return true
		})
	}
}

func c10Races(r *vx.R, tm *tokenmanager.TokenManager) {
	type race struct {
		name  string
		calls [][2]int // browser, login; login -1 starts a new one
	}
	races := []race{
		{"same-2", [][2]int{{0, 0}, {0, 0}}},
		{"same-3", [][2]int{{0, 0}, {0, 0}, {0, 0}}},
		{"stolen", [][2]int{{0, 0}, {1, 0}}},
		{"two-browsers", [][2]int{{0, 0}, {1, 1}}},
		{"two-browsers-twice", [][2]int{{0, 0}, {1, 1}, {0, 0}, {1, 1}}},
		{"callback-login", [][2]int{{0, 0}, {1, -1}, {0, 0}}},
	}
	for _, ui := range []bool{false, true} {
		for _, rc := range races {
			id := fmt.Sprintf("race/%s-%v", rc.name, ui)
			vsched.Explore(r, id, vsched.Opts{Deviations: r.Pick(3, 4)}, func(x *vsched.X) func() {
				w := c10New(r, tm, "", ui, true)
				w.start(0, "https://www.example.com/0")
				w.start(1, "https://www.example.com/1")
				if len(w.login) < 2 {
					return nil
				}
				w.idp.yield = true
				recs := make([]*httptest.ResponseRecorder, len(rc.calls))
				// The requests are sent before any answer arrives.
				for i, c := range rc.calls {
					i, c := i, c
					if c[1] < 0 {
						req := w.browsers[c[0]].request("https://www.example.com/.sso/login")
						x.Go(fmt.Sprintf("login%d", i), func() {
							rec := httptest.NewRecorder()
							w.p.RequestLogin(rec, req, "https://www.example.com/2")
							recs[i] = rec
						})
						continue
					}
					q := url.Values{"state": {w.login[c[1]].state}, "code": {w.login[c[1]].code}}
					req := w.browsers[c[0]].request(c10Redirect + "?" + q.Encode())
					x.Go(fmt.Sprintf("callback%d", i), func() {
						rec := httptest.NewRecorder()
						w.p.HandleCallback(rec, req)
						recs[i] = rec
					})
				}
				return func() {
					got := map[int]int{}
					for i, c := range rc.calls {
						if recs[i] == nil {
							r.Violation("race-stuck", "%s: call %d never ended", id, i)
							return
						}
						if c[1] < 0 {
							if recs[i].Code != 302 {
								r.Violation("race-login", "%s: login failed with %d", id, recs[i].Code)
							}
							continue
						}
						b := &c10Browser{jar: map[string]string{}}
						tok := b.response(recs[i])
						if tok == "" {
							continue
						}
						lg := w.login[c[1]]
						if lg.browser != c[0] {
							r.Violation("race-stolen", "%s: another browser got the session", x.ID)
						}
						if m := w.session(lg, tok, recs[i]); m != "" {
							r.Violation("race-session", "%s: %s", x.ID, m)
						}
						got[c[1]]++
					}
					for l := 0; l < 2; l++ {
						want := 0
						stolen := false
						for _, c := range rc.calls {
							if c[1] == l && w.login[l].browser == c[0] {
								want = 1
							} else if c[1] == l {
								stolen = true
							}
						}
						r.Outcome("race sessions %d", got[l])
						if got[l] > want || got[l] < want && !stolen {
							r.Violation(fmt.Sprintf("race-sessions-%d", got[l]), "%s: %d sessions for login %d, want %d", x.ID, got[l], l, want)
						}
					}
				}
			})
		}
	}
}
