package oidc_test

import (
	"context"
	"encoding/json"
	"fmt"
	"net/http"
	"net/http/httptest"
	"net/url"
	"reflect"
	"strings"
	"testing"
	"time"

	"github.com/c2FmZQ/storage"
	"github.com/c2FmZQ/storage/crypto"
	jwt "github.com/golang-jwt/jwt/v5"

	"github.com/c2FmZQ/tlsproxy/internal/vsched"
	"github.com/c2FmZQ/tlsproxy/internal/vx"
	"github.com/c2FmZQ/tlsproxy/proxy/internal/oidc"
	"github.com/c2FmZQ/tlsproxy/proxy/internal/tokenmanager"
)

type c11Quiet struct{}

func (c11Quiet) Errorf(string, ...any) {}
func (c11Quiet) Record(string)         {}

func c11TM(r *vx.R) *tokenmanager.TokenManager {
	mk, err := crypto.CreateAESMasterKeyForTest()
	if err != nil {
		r.T.Fatal(err)
	}
	tm, err := tokenmanager.New(storage.New(r.Scratch("store"), mk), nil, c11Quiet{})
	if err != nil {
		r.T.Fatal(err)
	}
	return tm
}

const c11Issuer = "https://op.example.com/op"

type c11Key struct{}

var (
	c11Users = []jwt.MapClaims{
		{"sub": "sub-0", "email": "u0@example.com", "name": "User Zero", "given_name": "User", "sid": "SID0", "hhash": "x", "iss": "https://login.example.com/", "aud": "https://login.example.com/", "proxyauth": "p", "exp": 4000000000, "secretclaim": "s0"},
		{"sub": "sub-1", "email": "u1@example.com", "name": "User One", "picture": "https://p/1", "sid": "SID1", "iss": "https://login.example.com/", "aud": "https://login.example.com/", "proxyauth": "p", "exp": 4000000000, "secretclaim": "s1"},
	}
	c11Clients = []oidc.Client{
		{ID: "client0", Secret: "secret0", RedirectURI: []string{"https://c0.example.net/cb", "https://c0.example.net/cb2?x=1"}},
		{ID: "client1", Secret: "secret1", RedirectURI: []string{"https://c1.example.net/cb", "https://shared.example.net/cb"}},
		{ID: "client2", Secret: "secret0", RedirectURI: []string{"https://shared.example.net/cb"}},
	}
	c11Profile = []string{"name", "family_name", "given_name", "middle_name", "nickname", "preferred_username", "profile", "picture", "website", "gender", "birthdate", "zoneinfo", "locale"}
)

type c11World struct {
	r     *vx.R
	tm    *tokenmanager.TokenManager
	s     *oidc.ProviderServer
	codes []*c11Code
	all   map[string]bool
}

type c11Code struct {
	code    string
	user    int
	client  int
	nonce   string
	scope   string
	created time.Time
	tried   bool
	done    int
	access  string
	used    int
	utried  bool
}

func c11New(r *vx.R, tm *tokenmanager.TokenManager) *c11World {
	s := oidc.NewServer(oidc.ServerOptions{TokenManager: tm, Issuer: c11Issuer, PathPrefix: "/op",
		ClaimsFromCtx: func(ctx context.Context) jwt.MapClaims {
			c, _ := ctx.Value(c11Key{}).(jwt.MapClaims)
			return c
		}, Clients: c11Clients, RewriteRules: []oidc.RewriteRule{
			{InputClaim: "email", OutputClaim: "login", Regex: "^([^@]+)@.*$", Value: "$1"},
			{InputClaim: "picture", OutputClaim: "avatar", Regex: "^https://", Value: "x://"},
			{InputClaim: "${name:lower}/${login}", OutputClaim: "tag", Regex: "^(.*)$", Value: "<$1>"},
		}, EventRecorder: c11Quiet{}, Logger: c11Quiet{}})
	return &c11World{r: r, tm: tm, s: s, all: map[string]bool{}}
}

func c11Ctx(req *http.Request, user int) *http.Request {
	if user < 0 || user >= len(c11Users) {
		return req
	}
	c := jwt.MapClaims{}
	for k, v := range c11Users[user] {
		c[k] = v
	}
	return req.WithContext(context.WithValue(req.Context(), c11Key{}, c))
}

func (w *c11World) authReq(user int, v url.Values, post bool) *http.Request {
	if post {
		req := httptest.NewRequest("POST", "https://op.example.com/op/authorization", strings.NewReader(v.Encode()))
		req.Header.Set("Content-Type", "application/x-www-form-urlencoded")
		return c11Ctx(req, user)
	}
	return c11Ctx(httptest.NewRequest("GET", "https://op.example.com/op/authorization?"+v.Encode(), nil), user)
}

// auth makes an authorization request, and returns the new code.
func (w *c11World) auth(user int, v url.Values, post bool) (*c11Code, *httptest.ResponseRecorder) {
	rec := httptest.NewRecorder()
	w.s.ServeAuthorization(rec, w.authReq(user, v, post))
	return w.authed(user, v, rec), rec
}

func (w *c11World) authed(user int, v url.Values, rec *httptest.ResponseRecorder) *c11Code {
	loc := rec.Header().Get("Location")
	if loc == "" {
		return nil
	}
	u, err := url.Parse(loc)
	if err != nil {
		w.r.Violation("redirect", "redirected to %q", loc)
		return nil
	}
	q := u.Query()
	base, _ := url.Parse(v.Get("redirect_uri"))
	want := base.Query()
	want.Set("state", v.Get("state"))
	want.Set("code", q.Get("code"))
	want.Set("scope", q.Get("scope"))
	u.RawQuery, base.RawQuery = "", ""
	if u.String() != base.String() || !reflect.DeepEqual(q, want) {
		w.r.Violation("redirect", "redirected to %q for redirect_uri %q", loc, v.Get("redirect_uri"))
	}
	if q.Get("code") == "" {
		return nil
	}
	c := &c11Code{code: q.Get("code"), user: user, nonce: v.Get("nonce"), scope: v.Get("scope"), created: time.Now(), client: -1}
	for i, cl := range c11Clients {
		if cl.ID == v.Get("client_id") {
			c.client = i
		}
	}
	if w.all[c.code] || len(c.code) < 12 {
		w.r.Violation("code", "the code %q was issued twice or is too short", c.code)
	}
	w.all[c.code] = true
	w.codes = append(w.codes, c)
	return c
}

func c11TokenReq(method string, v url.Values) *http.Request {
	req := httptest.NewRequest(method, "https://op.example.com/op/token", strings.NewReader(v.Encode()))
	req.Header.Set("Content-Type", "application/x-www-form-urlencoded")
	if method == "GET" {
		req = httptest.NewRequest(method, "https://op.example.com/op/token?"+v.Encode(), nil)
	}
	return req
}

// redeemed tells whether an answer of the token endpoint has tokens, and what
// is wrong with them.
func (w *c11World) redeemed(c *c11Code, rec *httptest.ResponseRecorder) (bool, string) {
	var a struct {
		AccessToken string `json:"access_token"`
		IDToken     string `json:"id_token"`
		TokenType   string `json:"token_type"`
		Scope       string `json:"scope"`
	}
	err := json.Unmarshal(rec.Body.Bytes(), &a)
	if rec.Code != 200 {
		if a.AccessToken != "" || a.IDToken != "" {
			return true, fmt.Sprintf("status %d with tokens", rec.Code)
		}
		return false, ""
	}
	if err != nil || a.AccessToken == "" || a.IDToken == "" || !strings.EqualFold(a.TokenType, "bearer") {
		return true, fmt.Sprintf("malformed answer %q", rec.Body)
	}
	if c == nil {
		return true, "for no code"
	}
	c.access = a.AccessToken
	t, err := w.tm.ValidateToken(a.IDToken, jwt.WithIssuer(c11Issuer), jwt.WithAudience(c11Clients[c.client].ID))
	if err != nil {
		return true, fmt.Sprintf("the ID token is not valid: %v", err)
	}
	if t.Method.Alg() != "RS256" {
		return true, "the ID token's algorithm is " + t.Method.Alg()
	}
	got := t.Claims.(jwt.MapClaims)
	iat, _ := got.GetIssuedAt()
	exp, _ := got.GetExpirationTime()
	if iat == nil || exp == nil || exp.Sub(c.created) > 10*time.Minute || exp.Before(time.Now()) {
		return true, fmt.Sprintf("the ID token is valid from %v to %v", iat, exp)
	}
	want := c11Identity(c)
	want["iss"], want["aud"] = c11Issuer, c11Clients[c.client].ID
	if c.nonce != "" {
		want["nonce"] = c.nonce
	}
	delete(got, "iat")
	delete(got, "exp")
	delete(got, "scope")
	if !reflect.DeepEqual(map[string]any(got), want) {
		return true, fmt.Sprintf("the ID token says %v, want %v", got, want)
	}
	return true, ""
}

// c11Identity is what the client may learn about the user.
func c11Identity(c *c11Code) map[string]any {
	u := c11Users[c.user]
	login, _, _ := strings.Cut(u["email"].(string), "@")
	want := map[string]any{"sub": u["sub"], "login": login, "tag": "<" + strings.ToLower(u["name"].(string)) + "/" + login + ">"}
	if pic, ok := u["picture"].(string); ok {
		want["avatar"] = strings.Replace(pic, "https://", "x://", 1)
	}
	sc := strings.Split(c.scope, " ")
	for _, s := range sc {
		switch s {
		case "email":
			want["email"], want["email_verified"] = u["email"], true
		case "profile":
			for _, k := range c11Profile {
				if u[k] != nil {
					want[k] = u[k]
				}
			}
		}
	}
	return want
}

func c11UserInfoReq(method, authz string) *http.Request {
	req := httptest.NewRequest(method, "https://op.example.com/op/userinfo", nil)
	if authz != "" {
		req.Header.Set("Authorization", authz)
	}
	return req
}

func (w *c11World) info(c *c11Code, rec *httptest.ResponseRecorder) (bool, string) {
	var got map[string]any
	err := json.Unmarshal(rec.Body.Bytes(), &got)
	if rec.Code != 200 {
		if len(got) > 0 {
			return true, fmt.Sprintf("status %d with claims", rec.Code)
		}
		return false, ""
	}
	if err != nil || c == nil {
		return true, fmt.Sprintf("unexpected answer %q", rec.Body)
	}
	if want := c11Identity(c); !reflect.DeepEqual(got, want) {
		return true, fmt.Sprintf("userinfo says %v, want %v", got, want)
	}
	return true, ""
}

func c11Values(kv ...string) url.Values {
	v := url.Values{}
	for i := 0; i < len(kv); i += 2 {
		if kv[i+1] != "-" {
			v.Set(kv[i], kv[i+1])
		}
	}
	return v
}

func TestVX(t *testing.T) {
	r := vx.Start(t, "C11")
	defer r.Done()
	tm := c11TM(r)
	c11AuthParams(r, tm)
	c11TokenParams(r, tm)
	c11InfoParams(r, tm)
	c11Sequences(r, tm)
	c11Races(r, tm)
}

func c11Good(client int) url.Values {
	return c11Values("response_type", "code", "client_id", c11Clients[client].ID, "redirect_uri", c11Clients[client].RedirectURI[0], "scope", "openid email", "state", "st", "nonce", "n")
}

func c11Redeem(c *c11Code) url.Values {
	cl := c11Clients[c.client]
	return c11Values("grant_type", "authorization_code", "code", c.code, "client_id", cl.ID, "client_secret", cl.Secret, "redirect_uri", cl.RedirectURI[0])
}

func c11AuthParams(r *vx.R, tm *tokenmanager.TokenManager) {
	types := []string{"code", "-", "", "token", "id_token", "code id_token", "Code"}
	clients := []string{"client0", "client1", "client2", "-", "", "Client0", "client9", "client0 "}
	redirs := []string{"https://c0.example.net/cb", "https://c0.example.net/cb2?x=1", "https://c1.example.net/cb", "https://shared.example.net/cb",
		"https://c0.example.net/cb/", "https://c0.example.net/cb?x=1", "https://c0.example.net/cb#f", "https://c0.example.net/cb2", "HTTPS://c0.example.net/cb", "https://c0.example.net./cb", "https://c0.example.net:443/cb", "https://evil.example.org/https://c0.example.net/cb", "", "-", "/cb"}
	states := []string{"-", "st", "a&code=x#?é ", strings.Repeat("s", 5000)}
	nonces := []string{"-", "n", "\"<é>&"}
	scopes := []string{"-", "openid", "openid email", "openid email profile", "profile", "openid  email", "openidemail", "email email", "openid offline_access", "Email"}
	for user := -1; user < 2; user++ {
		for _, post := range []bool{false, true} {
			vx.Product([]int{len(types), len(clients), len(redirs), len(states), len(nonces), len(scopes)}, func(x []int) bool {
				n := 0 // at most one unusual thing among the last three
				for _, i := range x[3:] {
					if i > 0 {
						n++
					}
				}
				if n > 1 && x[0]+x[1] > 0 {
					return true
				}
				id := fmt.Sprintf("auth/%d/%v/%v", user, post, x)
				if !r.Case(id) {
					return true
				}
				r.Exec()
				r.Step(2)
				w := c11New(r, tm)
				v := c11Values("response_type", types[x[0]], "client_id", clients[x[1]], "redirect_uri", redirs[x[2]], "state", states[x[3]], "nonce", nonces[x[4]], "scope", scopes[x[5]])
				may := user >= 0 && x[0] == 0
				reg := false
				for _, c := range c11Clients {
					for _, u := range c.RedirectURI {
						reg = reg || c.ID == v.Get("client_id") && u == v.Get("redirect_uri") && v.Has("redirect_uri")
					}
				}
				c, rec := w.auth(user, v, post)
				r.State("auth", user >= 0, x[0] == 0, reg)
				switch {
				case rec.Header().Get("Location") != "" && !reg:
					r.Violation("auth-redirect", "%s: redirected to %q", id, rec.Header().Get("Location"))
				case c != nil && !may:
					r.Violation("auth-code", "%s: a code was issued (user %d, response type %q)", id, user, types[x[0]])
				case c == nil && may && reg:
					r.Violation("auth-refused", "%s: no code was issued: %d %s", id, rec.Code, rec.Body)
				case c != nil:
					r.Outcome("code")
					trec := httptest.NewRecorder()
					tv := c11Redeem(c)
					tv.Set("redirect_uri", v.Get("redirect_uri"))
					w.s.ServeToken(trec, c11TokenReq("POST", tv))
					ok, m := w.redeemed(c, trec)
					if !ok {
						r.Violation("redeem-refused", "%s: the code was refused: %d %s", id, trec.Code, trec.Body)
					} else if m != "" {
						r.Violation("redeem", "%s: %s", id, m)
					} else {
						urec := httptest.NewRecorder()
						w.s.ServeUserInfo(urec, c11UserInfoReq("GET", "Bearer "+c.access))
						if ok, m := w.info(c, urec); !ok || m != "" {
							r.Violation("userinfo", "%s: %d %s", id, urec.Code, m)
						}
					}
				default:
					r.Outcome("no code %d", rec.Code)
				}
				return true
			})
		}
	}
}

func c11TokenParams(r *vx.R, tm *tokenmanager.TokenManager) {
	methods := []string{"POST", "GET", "PUT", "HEAD"}
	grants := []string{"authorization_code", "-", "", "refresh_token", "password", "client_credentials"}
	codes := []string{"own", "other", "access", "-", "", "bogus", "own "}
	clients := []string{"client0", "client1", "client2", "-", "", "client9"}
	secrets := []string{"secret0", "secret1", "-", "", "secret", "secret00", "Secret0"}
	redirs := []string{"https://c0.example.net/cb", "https://c0.example.net/cb2?x=1", "https://c1.example.net/cb", "https://shared.example.net/cb", "-", "", "https://evil.example.org/"}
	vx.Product([]int{len(methods), len(grants), len(codes), len(clients), len(secrets), len(redirs)}, func(x []int) bool {
		id := fmt.Sprintf("token/%v", x)
		if (x[0] > 0 || x[1] > 0) && x[2]+x[3]+x[4]+x[5] > 1 {
			return true
		}
		if !r.Case(id) {
			return true
		}
		r.Exec()
		r.Step(3)
		w := c11New(r, tm)
		own, _ := w.auth(0, c11Good(0), false)
		other, _ := w.auth(1, c11Good(1), false)
		if own == nil || other == nil {
			r.Violation("auth-refused", "%s: no code", id)
			return true
		}
		code := codes[x[2]]
		var c *c11Code
		switch code {
		case "own":
			code, c = own.code, own
		case "own ":
			code = own.code + " "
		case "other":
			code, c = other.code, other
		case "access":
			// The access token is no code.
			rec := httptest.NewRecorder()
			w.s.ServeToken(rec, c11TokenReq("POST", c11Redeem(other)))
			w.redeemed(other, rec)
			code = other.access
		}
		ok := methods[x[0]] == "POST" && x[1] == 0 && c != nil && clients[x[3]] == c11Clients[c.client].ID && secrets[x[4]] == c11Clients[c.client].Secret
		reg := false
		if c != nil {
			for _, u := range c11Clients[c.client].RedirectURI {
				reg = reg || redirs[x[5]] == u
			}
		}
		ok = ok && reg
		rec := httptest.NewRecorder()
		w.s.ServeToken(rec, c11TokenReq(methods[x[0]], c11Values("grant_type", grants[x[1]], "code", code, "client_id", clients[x[3]], "client_secret", secrets[x[4]], "redirect_uri", redirs[x[5]])))
		got, m := w.redeemed(c, rec)
		r.State("token", ok, x[0], x[1], x[2])
		r.Outcome("token %v %d", got, rec.Code)
		switch {
		case got && !ok:
			r.Violation("token-accepted", "%s: %s %s with code %s of %s, client %q, secret %q, redirect_uri %q was accepted", id, methods[x[0]], grants[x[1]], codes[x[2]], "client0", clients[x[3]], secrets[x[4]], redirs[x[5]])
		case !got && ok:
			r.Violation("token-refused", "%s: refused with %d %s", id, rec.Code, rec.Body)
		case m != "":
			r.Violation("token-content", "%s: %s", id, m)
		}
		return true
	})
}

func c11InfoParams(r *vx.R, tm *tokenmanager.TokenManager) {
	methods := []string{"GET", "POST", "PUT", "DELETE"}
	schemes := []string{"Bearer ", "bearer ", "BEARER ", "Basic ", "", "Bearer", "Bearer  ", "Token  "}
	toks := []string{"own", "code", "other", "", "bogus", "own2", "idtoken"}
	vx.Product([]int{len(methods), len(schemes), len(toks)}, func(x []int) bool {
		id := fmt.Sprintf("info/%v", x)
		if !r.Case(id) {
			return true
		}
		r.Exec()
		r.Step(5)
		w := c11New(r, tm)
		var cs []*c11Code
		for i := 0; i < 3; i++ {
			c, _ := w.auth(i%2, c11Good(i%2), false)
			if c == nil {
				r.Violation("auth-refused", "%s: no code", id)
				return true
			}
			cs = append(cs, c)
			if i < 2 {
				rec := httptest.NewRecorder()
				w.s.ServeToken(rec, c11TokenReq("POST", c11Redeem(c)))
				if ok, m := w.redeemed(c, rec); !ok || m != "" {
					r.Violation("token-refused", "%s: %d %s", id, rec.Code, m)
					return true
				}
			}
		}
		var c *c11Code
		tok := toks[x[2]]
		switch tok {
		case "own":
			c, tok = cs[0], cs[0].access
		case "own2":
			tok = cs[0].access + "2"
		case "other":
			c, tok = cs[1], cs[1].access
		case "code":
			tok = cs[2].code
		}
		rec := httptest.NewRecorder()
		w.s.ServeUserInfo(rec, c11UserInfoReq(methods[x[0]], schemes[x[1]]+tok))
		got, m := w.info(c, rec)
		ok := x[0] < 2 && x[1] < 3 && c != nil
		r.Outcome("info %v %d", got, rec.Code)
		switch {
		case got && !ok:
			r.Violation("info-accepted", "%s: %s with %q was accepted", id, methods[x[0]], schemes[x[1]]+toks[x[2]])
		case !got && ok:
			r.Violation("info-refused", "%s: refused with %d", id, rec.Code)
		case m != "":
			r.Violation("info-content", "%s: %s", id, m)
		}
		return true
	})
}

// c11Sequences runs all sequences of authorizations, redemptions, userinfo
// requests and delays.
func c11Sequences(r *vx.R, tm *tokenmanager.TokenManager) {
	type act struct {
		kind string
		a, b int
	}
	acts := []act{{"A", 0, 0}, {"A", 1, 1}, {"A", 1, 0}}
	for c := 0; c < 2; c++ {
		for cl := 0; cl < 2; cl++ {
			acts = append(acts, act{"R", c, cl})
		}
		acts = append(acts, act{"W", c, 0}) // wrong secret
		acts = append(acts, act{"U", c, 0})
	}
	acts = append(acts, act{"T-", 0, 0}, act{"T+", 0, 0})
	depth := r.Pick(5, 6)
	r.Bound("sequence length", depth)
	vx.Sequences(len(acts), 2, depth, func(seq []int) bool {
		n, u := 0, 0
		var id strings.Builder
		id.WriteString("seq/")
		for _, i := range seq {
			a := acts[i]
			switch a.kind {
			case "A":
				n++
			case "R", "W":
				if a.a >= n {
					return true
				}
				u++
			case "U":
				if a.a >= n || u == 0 {
					return true
				}
			}
			fmt.Fprintf(&id, "%s%d%d.", a.kind, a.a, a.b)
		}
		last := acts[seq[len(seq)-1]].kind
		if n == 0 || n > 2 || acts[seq[0]].kind != "A" || last != "R" && last != "U" {
			return true
		}
		if !r.Case(id.String()) {
			return true
		}
		r.Exec()
		r.Step(len(seq))
		vsched.Bubble(r, id.String(), func(x *vsched.X) {
			w := c11New(r, tm)
			for _, i := range seq {
				a := acts[i]
				switch a.kind {
				case "A":
					v := c11Good(a.b)
					v.Set("nonce", fmt.Sprint("nonce", len(w.codes)))
					if c, rec := w.auth(a.a, v, false); c == nil {
						r.Violation("auth-refused", "%s: no code: %d", id.String(), rec.Code)
						return
					}
				case "T-":
					time.Sleep(time.Minute + 58*time.Second)
				case "T+":
					time.Sleep(3 * time.Second)
				case "R", "W":
					c := w.codes[a.a]
					v := c11Redeem(c)
					cl := c11Clients[a.b]
					if a.kind == "W" {
						v.Set("client_secret", "wrong")
					} else {
						v.Set("client_id", cl.ID)
						v.Set("client_secret", cl.Secret)
						v.Set("redirect_uri", cl.RedirectURI[0])
					}
					rec := httptest.NewRecorder()
					w.s.ServeToken(rec, c11TokenReq("POST", v))
					got, m := w.redeemed(c, rec)
					why := ""
					switch {
					case a.kind == "W":
						why = "the secret is wrong"
					case c.client != a.b:
						why = "the code is another client's"
					case c.done > 0:
						why = "the code was redeemed before"
					case time.Since(c.created) > 2*time.Minute:
						why = "the code is too old"
					}
					r.State(a.kind, why, c.tried, len(w.codes))
					r.Outcome("redeem %v: %s", got, why)
					switch {
					case got && why != "":
						r.Violation("accepted:"+why, "%s: redeemed although %s", id.String(), why)
						return
					case !got && why == "" && !c.tried:
						r.Violation("refused", "%s: refused: %d", id.String(), rec.Code)
						return
					case m != "":
						r.Violation("content", "%s: %s", id.String(), m)
						return
					case got:
						c.done++
					}
					c.tried = true
				case "U":
					c := w.codes[a.a]
					tok := c.access
					if tok == "" {
						tok = c.code
					}
					rec := httptest.NewRecorder()
					w.s.ServeUserInfo(rec, c11UserInfoReq("GET", "Bearer "+tok))
					got, m := w.info(c, rec)
					why := ""
					switch {
					case c.access == "":
						why = "it has no access token"
					case c.used > 0:
						why = "the token was used before"
					case time.Since(c.created) > 5*time.Minute:
						why = "the token is too old"
					}
					r.State("U", why, len(w.codes))
					r.Outcome("userinfo %v: %s", got, why)
					switch {
					case got && why != "":
						r.Violation("info-accepted:"+why, "%s: accepted although %s", id.String(), why)
						return
					case !got && why == "" && time.Since(c.created) < 2*time.Minute:
						r.Violation("info-refused", "%s: refused: %d", id.String(), rec.Code)
						return
					case m != "":
						r.Violation("info-content", "%s: %s", id.String(), m)
						return
					case got:
						c.used++
					}
				}
			}
		})
		return true
	})
}

func c11Races(r *vx.R, tm *tokenmanager.TokenManager) {
	races := []struct {
		name  string
		calls []string
	}{
		{"token-2", []string{"t0", "t0"}},
		{"token-3", []string{"t0", "t0", "t0"}},
		{"token-other-client", []string{"t0", "o0"}},
		{"tokens", []string{"t0", "t1", "t0"}},
		{"token-auth", []string{"t0", "a", "t0"}},
		{"token-wrong", []string{"t0", "w0", "t0"}},
		{"info-2", []string{"u1", "u1"}},
		{"info-3", []string{"u1", "t0", "u1", "u1"}},
	}
	for _, rc := range races {
		id := "race/" + rc.name
		vsched.Explore(r, id, vsched.Opts{Deviations: r.Pick(3, 4)}, func(x *vsched.X) func() {
			w := c11New(r, tm)
			for i := 0; i < 2; i++ {
				if c, _ := w.auth(i, c11Good(i), false); c == nil {
					r.Violation("auth-refused", "no code")
					return nil
				}
			}
			if strings.Contains(strings.Join(rc.calls, ""), "u1") {
				rec := httptest.NewRecorder()
				w.s.ServeToken(rec, c11TokenReq("POST", c11Redeem(w.codes[1])))
				w.redeemed(w.codes[1], rec)
			}
			recs := make([]*httptest.ResponseRecorder, len(rc.calls))
			for i, call := range rc.calls {
				i := i
				h := w.s.ServeToken
				c := w.codes[0]
				if strings.HasSuffix(call, "1") {
					c = w.codes[1]
				}
				var req *http.Request
				switch call[0] {
				case 't':
					req = c11TokenReq("POST", c11Redeem(c))
				case 'o':
					v := c11Redeem(w.codes[1])
					v.Set("code", c.code)
					req = c11TokenReq("POST", v)
				case 'w':
					v := c11Redeem(c)
					v.Set("client_secret", "x")
					req = c11TokenReq("POST", v)
				case 'a':
					req = w.authReq(1, c11Good(1), false)
					h = w.s.ServeAuthorization
				case 'u':
					req = c11UserInfoReq("GET", "Bearer "+c.access)
					h = w.s.ServeUserInfo
				}
				x.Go(fmt.Sprintf("%s.%d", call, i), func() {
					rec := httptest.NewRecorder()
					h(rec, req)
					recs[i] = rec
				})
			}
			return func() {
				n := map[string]int{}
				for i, call := range rc.calls {
					if recs[i] == nil {
						r.Violation("race-stuck", "%s: %s never ended", x.ID, call)
						return
					}
					c := w.codes[0]
					if strings.HasSuffix(call, "1") {
						c = w.codes[1]
					}
					switch call[0] {
					case 'a':
						if recs[i].Code != 302 {
							r.Violation("race-auth", "%s: %d", x.ID, recs[i].Code)
						}
					case 'u':
						if ok, m := w.info(c, recs[i]); ok {
							n[call]++
							if m != "" {
								r.Violation("race-content", "%s: %s", x.ID, m)
							}
						}
					default:
						if ok, m := w.redeemed(c, recs[i]); ok {
							n[call]++
							if m != "" {
								r.Violation("race-content", "%s: %s", x.ID, m)
							}
						}
					}
				}
				for _, k := range rc.calls {
					want := 1
					min := 1
					switch k[0] {
					case 'a':
						continue
					case 'o', 'w':
						want, min = 0, 0
					}
					if rc.name == "token-other-client" || rc.name == "token-wrong" {
						min = 0
					}
					r.Outcome("race %s %d", k, n[k])
					if n[k] > want || n[k] < min {
						r.Violation(fmt.Sprintf("race-%s-%d", k, n[k]), "%s: %s succeeded %d times, want %d", x.ID, k, n[k], want)
					}
				}
			}
		})
	}
}
