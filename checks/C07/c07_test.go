package proxy

import (
	"bytes"
	"crypto"
	"crypto/ecdsa"
	"crypto/ed25519"
	"crypto/elliptic"
	"crypto/hmac"
	"crypto/rand"
	"crypto/rsa"
	"crypto/sha256"
	"crypto/sha512"
	"crypto/x509"
	"encoding/base64"
	"encoding/json"
	"encoding/pem"
	"fmt"
	"hash"
	"io"
	"math/big"
	"net/http"
	"net/url"
	"regexp"
	"sort"
	"strings"
	"testing"
	"time"

	"github.com/c2FmZQ/tlsproxy/internal/vsched"
	"github.com/c2FmZQ/tlsproxy/internal/vx"
)

// c07Host says which provider a host uses, and whether it makes ID tokens.
type c07Host struct {
	provider string
	generate bool
}

// c07Conf is a configuration: the callback host of each provider, and the
// hosts.
type c07Conf struct {
	name      string
	providers map[string][2]string // domain, callback host
	hosts     map[string]c07Host
}

const (
	c07H1 = "h1.example.com"
	c07H2 = "h2.example.com"
	c07H3 = "h3.example.com"
	c07H4 = "h4.example.org"
	c07H5 = "xn--bcher-kva.example.com"
	c07H6 = "h6.example.com"
	c07H7 = "h7.example.com" // logins with an e-mail
	c07OP = "op.example.com"
)

func c07Confs() []c07Conf {
	mk := func(name string, f func(c *c07Conf)) c07Conf {
		c := c07Conf{name: name,
			providers: map[string][2]string{
				"idpA": {"example.com", "sso.example.com"},
				"idpB": {"example.com", "sso.example.com"},
				"idpC": {"example.org", "sso.example.org"},
				"idpD": {"", "h6.example.com"},
			},
			hosts: map[string]c07Host{
				c07H1: {"idpA", true}, c07H2: {"idpA", false}, c07H3: {"idpB", true},
				c07H4: {"idpC", true}, c07H5: {"idpA", true}, c07H6: {"idpD", true},
				c07OP: {"idpA", false},
			}}
		f(&c)
		return c
	}
	return []c07Conf{
		mk("base", func(c *c07Conf) {}),
		mk("swap", func(c *c07Conf) {
			c.hosts[c07H1], c.hosts[c07H3] = c07Host{"idpB", true}, c07Host{"idpA", true}
		}),
		mk("rename", func(c *c07Conf) {
			c.providers["idpX"] = c.providers["idpA"]
			delete(c.providers, "idpA")
			for h, v := range c.hosts {
				if v.provider == "idpA" {
					v.provider = "idpX"
					c.hosts[h] = v
				}
			}
		}),
		mk("move", func(c *c07Conf) { c.providers["idpA"] = [2]string{"example.com", "sso2.example.com"} }),
		mk("passkey", func(c *c07Conf) {
			c.providers["pk"] = c.providers["idpA"]
			c.hosts[c07H2] = c07Host{"pk", true}
			c.hosts[c07H1] = c07Host{"pk", true}
		}),
	}
}

func (c c07Conf) config() *Config {
	cfg := simCfg()
	for _, h := range []string{"sso.example.com", "sso2.example.com", "sso.example.org"} {
		cfg.Backends = append(cfg.Backends, &Backend{ServerNames: []string{h}, Mode: "LOCAL"})
	}
	for _, h := range c.names() {
		be := simHTTPBackend(h, "HTTP", "192.168.1.1:80")
		be.SSO = &BackendSSO{Provider: c.hosts[h].provider, GenerateIDTokens: c.hosts[h].generate, SetUserIDHeader: true}
		if h == c07OP {
			be.Mode, be.Addresses = "LOCAL", nil
			be.SSO.LocalOIDCServer = &LocalOIDCServer{Clients: []*LocalOIDCClient{
				{ID: "client", Secret: "secret", RedirectURI: []string{"https://rp.example.net/cb"}},
				{ID: "https://h1.example.com/", Secret: "secret2", RedirectURI: []string{"https://h1.example.com/cb"}},
			}}
		}
		cfg.Backends = append(cfg.Backends, be)
	}
	be := simHTTPBackend(c07H7, "HTTP", "192.168.1.1:80")
	be.SSO = &BackendSSO{Provider: c.hosts[c07H1].provider, ForceReAuth: time.Hour}
	cfg.Backends = append(cfg.Backends, be)
	var ps []string
	for p := range c.providers {
		ps = append(ps, p)
	}
	sort.Strings(ps)
	for _, p := range ps {
		v := c.providers[p]
		if p == "pk" {
			cfg.PasskeyProviders = append(cfg.PasskeyProviders, &ConfigPasskey{Name: "pk", IdentityProvider: "idpB", Endpoint: "https://" + v[1] + "/passkeys", Domain: v[0]})
			continue
		}
		cfg.OIDCProviders = append(cfg.OIDCProviders, vxIDP(p, v[0], "https://"+v[1]+"/"+p))
	}
	return cfg
}

func (c c07Conf) names() (out []string) {
	for h := range c.hosts {
		out = append(out, h)
	}
	sort.Strings(out)
	return
}

func (c c07Conf) issuer(provider string) string {
	if v, ok := c.providers[provider]; ok {
		return "https://" + v[1] + "/"
	}
	return "-"
}

// c07Tok is a credential, and what it was issued for.
type c07Tok struct {
	name, kind, val  string
	provider, issuer string
	host             string
	email            string
	sid              string // the browser's
	exp              time.Time
	session          string // name of the session it comes from
	used             bool
}

type c07World struct {
	r      *vx.R
	x      *vsched.X
	s      *sim
	id     string
	cur    c07Conf
	conn   map[string]*simConn
	user   string // seen by the upstream
	hits   int
	n      int
	minted int
}

func (w *c07World) violation(key, f string, a ...any) {
	w.r.Violation(key, "%s: "+f, append([]any{w.id}, a...)...)
}

type c07Resp struct {
	st   int
	h    http.Header
	body string
	hit  bool
	user string
}

func (w *c07World) do(host, method, path string, hdr map[string]string, body string) c07Resp {
	for try := 0; ; try++ {
		c := w.conn[host]
		if c == nil {
			var err error
			if c, err = w.s.dial("client:"+host, host, nil, "192.0.2.1:0", nil); err != nil {
				w.violation("dial", "%v", err)
				return c07Resp{}
			}
			w.conn[host] = c
		}
		var b bytes.Buffer
		fmt.Fprintf(&b, "%s %s HTTP/1.1\r\nHost: %s\r\n", method, path, host)
		for k, v := range hdr {
			fmt.Fprintf(&b, "%s: %s\r\n", k, v)
		}
		if body != "" {
			fmt.Fprintf(&b, "Content-Type: application/x-www-form-urlencoded\r\nContent-Length: %d\r\n", len(body))
		}
		b.WriteString("\r\n" + body)
		c.raw.SetDeadline(time.Now().Add(simPatience))
		hits := w.hits
		w.user = ""
		var resp *http.Response
		_, err := c.tls.Write(b.Bytes())
		if err == nil {
			resp, err = http.ReadResponse(c.br, &http.Request{Method: method})
		}
		if err != nil {
			w.conn[host] = nil
			c.raw.Close()
			if try < 2 && simErr(err) != "HANG" {
				continue
			}
			w.violation("http", "%s %s: %v", method, path, err)
			return c07Resp{}
		}
		d, err := io.ReadAll(resp.Body)
		if err != nil || resp.Close {
			c.raw.Close()
			w.conn[host] = nil
		}
		return c07Resp{resp.StatusCode, resp.Header, string(d), w.hits > hits, w.user}
	}
}

func c07Cookie(h http.Header, name string) string {
	for _, c := range (&http.Response{Header: h}).Cookies() {
		if c.Name == name && c.MaxAge >= 0 {
			return c.Value
		}
	}
	return ""
}

var c07Redirect = regexp.MustCompile(`redirect=([A-Za-z0-9_.-]+)`)

// mint obtains one of each of the credentials under the current configuration.
func (w *c07World) mint() (out []*c07Tok) {
	c := w.cur
	w.minted++
	pre := fmt.Sprintf("%s.%d:", c.name, w.minted)
	now := time.Now()
	sessions := map[string]*c07Tok{}
	for _, h := range c.names() {
		p := c.hosts[h].provider
		be := w.s.p.backends[beKey{serverName: h}]
		w.n++
		email := fmt.Sprintf("u%d@example.com", w.n)
		rec := &simRec{h: http.Header{}}
		if err := be.SSO.cm.SetAuthTokenCookie(rec, "sub-"+email, email, "sid-"+email, h, map[string]any{"name": "User", "url": "https://h1.example.com/x", "proxyauth": "x"}); err != nil {
			w.violation("mint", "%v", err)
			continue
		}
		t := &c07Tok{name: pre + "session/" + h, kind: "session", val: c07Cookie(rec.h, "TLSPROXYAUTH"), provider: p, issuer: c.issuer(p), email: email, exp: now.Add(20 * time.Hour).Truncate(time.Second)}
		t.session = t.name
		sessions[h] = t
		out = append(out, t)
	}
	for _, h := range c.names() {
		// Another session of the same user.
		if s := sessions[h]; s != nil && c.hosts[h].generate {
			be := w.s.p.backends[beKey{serverName: h}]
			rec := &simRec{h: http.Header{}}
			if err := be.SSO.cm.SetAuthTokenCookie(rec, "sub-"+s.email, s.email, "sid2-"+s.email, h, nil); err != nil {
				w.violation("mint", "%v", err)
			}
			resp := w.do(h, "GET", "/", map[string]string{"Cookie": "TLSPROXYAUTH=" + c07Cookie(rec.h, "TLSPROXYAUTH")}, "")
			if v := c07Cookie(resp.h, "TLSPROXYIDTOKEN"); v != "" {
				out = append(out, &c07Tok{name: pre + "id2/" + h, kind: "id", val: v, provider: s.provider, issuer: s.issuer, host: h, email: s.email, exp: s.exp})
			}
		}
	}
	if s := sessions[c07H1]; s != nil {
		resp := w.do(c07H7, "GET", "/", map[string]string{"Cookie": "TLSPROXYAUTH=" + s.val}, "")
		m := c07Redirect.FindStringSubmatch(resp.body + resp.h.Get("Location"))
		if sid := c07Cookie(resp.h, "TLSPROXYSID"); m == nil || sid == "" {
			w.violation("mint", "no login at %s: %d %v", c07H7, resp.st, resp.h)
		} else {
			out = append(out, &c07Tok{name: pre + "url/" + c07H7, kind: "url", val: m[1], host: c07H7, sid: sid, email: s.email, exp: now.Add(1e6 * time.Hour)})
		}
	}
	for _, h := range c.names() {
		p := c.hosts[h].provider
		s := sessions[h]
		if s == nil {
			continue
		}
		if c.hosts[h].generate {
			resp := w.do(h, "GET", "/", map[string]string{"Cookie": "TLSPROXYAUTH=" + s.val}, "")
			v := c07Cookie(resp.h, "TLSPROXYIDTOKEN")
			if v == "" {
				w.violation("mint", "no ID token at %s: %d %v", h, resp.st, resp.h)
			} else {
				out = append(out, &c07Tok{name: pre + "id/" + h, kind: "id", val: v, provider: p, issuer: c.issuer(p), host: h, email: s.email, exp: s.exp, session: s.name})
			}
		}
		resp := w.do(h, "GET", "/", nil, "")
		m := c07Redirect.FindStringSubmatch(resp.body + resp.h.Get("Location"))
		sid := c07Cookie(resp.h, "TLSPROXYSID")
		if m == nil || sid == "" {
			w.violation("mint", "no login at %s: %d %v", h, resp.st, resp.h)
			continue
		}
		out = append(out, &c07Tok{name: pre + "url/" + h, kind: "url", val: m[1], host: h, sid: sid, exp: now.Add(1e6 * time.Hour)})
	}
	for i, cl := range w.config().clients {
		authorize := func() string {
			resp := w.do(c07OP, "GET", "/authorization?response_type=code&scope=openid+email&client_id="+url.QueryEscape(cl[0])+"&redirect_uri="+url.QueryEscape(cl[2]), map[string]string{"Cookie": "TLSPROXYAUTH=" + sessions[c07OP].val}, "")
			u, err := url.Parse(resp.h.Get("Location"))
			if err != nil || u.Query().Get("code") == "" {
				w.violation("mint", "no code: %d %v", resp.st, resp.h)
				return ""
			}
			return u.Query().Get("code")
		}
		code := authorize()
		out = append(out, &c07Tok{name: fmt.Sprint(pre, "code/", i), kind: "code", val: code, host: cl[0], exp: now.Add(2 * time.Minute)})
		code = authorize()
		resp := w.do(c07OP, "POST", "/token", nil, url.Values{"grant_type": {"authorization_code"}, "code": {code}, "client_id": {cl[0]}, "client_secret": {cl[1]}, "redirect_uri": {cl[2]}}.Encode())
		var v struct {
			AccessToken string `json:"access_token"`
			IDToken     string `json:"id_token"`
		}
		json.Unmarshal([]byte(resp.body), &v)
		if v.AccessToken == "" || v.IDToken == "" {
			w.violation("mint", "no access token: %d %s", resp.st, resp.body)
			continue
		}
		out = append(out,
			&c07Tok{name: fmt.Sprint(pre, "code-used/", i), kind: "code", val: code, host: cl[0], exp: now.Add(2 * time.Minute), used: true},
			&c07Tok{name: fmt.Sprint(pre, "access/", i), kind: "access", val: v.AccessToken, host: cl[0], exp: now.Add(2 * time.Minute)},
			&c07Tok{name: fmt.Sprint(pre, "opid/", i), kind: "opid", val: v.IDToken, host: cl[0], exp: now.Add(5 * time.Minute)})
	}
	return out
}

type c07Clients struct{ clients [][3]string }

func (w *c07World) config() c07Clients {
	return c07Clients{[][3]string{{"client", "secret", "https://rp.example.net/cb"}, {"https://h1.example.com/", "secret2", "https://h1.example.com/cb"}}}
}

func (w *c07World) judge(where string, t *c07Tok, want, got bool, resp c07Resp) {
	w.r.Step(1)
	w.r.Outcome(fmt.Sprintf("%s %s %v", t.kind, where, got))
	switch {
	case want && !got:
		w.violation("refused", "%s isn't accepted as %s with %s: %d %q", t.name, where, w.cur.name, resp.st, resp.h.Get("Location"))
	case !want && got:
		w.violation("accepted", "%s is accepted as %s with %s: %d %q %q", t.name, where, w.cur.name, resp.st, resp.user, resp.h.Get("Location"))
	case want && resp.hit && resp.user != t.email:
		w.violation("identity", "%s as %s gives the identity %q, not %q", t.name, where, resp.user, t.email)
	}
	if resp.hit && !got && want {
		w.violation("hit", "%s reached the backend", t.name)
	}
}

// asSession presents t as a session on a host.
func (w *c07World) asSession(h string, t *c07Tok, want bool, extra string) {
	ck := "TLSPROXYAUTH=" + t.val + extra
	resp := w.do(h, "GET", "/", map[string]string{"Cookie": ck}, "")
	got := resp.hit || resp.st == 302 && c07Cookie(resp.h, "TLSPROXYIDTOKEN") != ""
	if h == c07OP {
		got = resp.st != 403
	}
	w.judge("session on "+h, t, want, got, resp)
}

func (w *c07World) asBearer(h string, t *c07Tok, want bool, scheme string) {
	resp := w.do(h, "GET", "/", map[string]string{"Authorization": scheme + t.val}, "")
	got := resp.hit
	if h == c07OP {
		got = resp.st != 403
	}
	w.judge(scheme+"on "+h, t, want, got, resp)
}

func (w *c07World) asRedirect(h, path string, t *c07Tok, sid string, want bool) {
	hdr := map[string]string{}
	if sid != "" {
		hdr["Cookie"] = "TLSPROXYSID=" + sid
	}
	resp := w.do(h, "GET", path+url.QueryEscape(t.val), hdr, "")
	w.judge(path+" on "+h, t, want, resp.st == 302 && resp.h.Get("Location") != "", resp)
}

func (w *c07World) asCode(t *c07Tok, want func(client string) bool) {
	for _, cl := range w.config().clients {
		resp := w.do(c07OP, "POST", "/token", nil, url.Values{"grant_type": {"authorization_code"}, "code": {t.val}, "client_id": {cl[0]}, "client_secret": {cl[1]}, "redirect_uri": {cl[2]}}.Encode())
		w.judge("code of "+cl[0], t, want(cl[0]), resp.st == 200, resp)
	}
}

// present presents t everywhere.
func (w *c07World) present(t *c07Tok, mine map[string]*c07Tok, reloaded bool) {
	c := w.cur
	live := time.Now().Before(t.exp)
	for _, h := range c.names() {
		p := c.hosts[h].provider
		same := live && t.provider == p && t.issuer == c.issuer(p)
		w.asSession(h, t, t.kind == "session" && same, "")
		if !reloaded {
			w.asSession(h, t, t.kind == "session" && same, "; TLSPROXYIDTOKEN="+t.val)
		}
		for _, s := range []string{"Bearer ", "bearer "} {
			if reloaded && s != "Bearer " {
				continue
			}
			w.asBearer(h, t, t.kind == "id" && same && t.host == h, s)
		}
		if !reloaded {
			w.asBearer(h, t, false, "Basic ")
			w.asBearer(h, t, false, "")
		}
		if s := mine[h]; s != nil && c.hosts[h].generate && time.Now().Before(s.exp) {
			// An ID token, with a session.
			resp := w.do(h, "GET", "/", map[string]string{"Cookie": "TLSPROXYAUTH=" + s.val + "; TLSPROXYIDTOKEN=" + t.val}, "")
			w.judge("ID token on "+h, &c07Tok{name: t.name, kind: t.kind, email: s.email}, t.kind == "id" && same && t.host == h && t.session == s.name, resp.hit, resp)
		}
		for _, path := range []string{"/.sso/login?redirect=", "/.sso/logout?u="} {
			if t.sid != "" {
				w.asRedirect(h, path, t, t.sid, t.kind == "url")
			}
			if reloaded {
				continue
			}
			w.asRedirect(h, path, t, "", false)
			w.asRedirect(h, path, t, "0123456789abcdef", false)
			w.asRedirect(h, path, t, "sid-"+t.email, false)
		}
	}
	op := live && !reloaded && !t.used
	switch t.kind {
	case "access":
		// Good for one time.
		resp := w.do(c07OP, "GET", "/userinfo", map[string]string{"Authorization": "Bearer " + t.val}, "")
		w.judge("access token", t, op, resp.st == 200, resp)
		t.used = true
		w.asCode(t, func(string) bool { return false })
	case "code":
		resp := w.do(c07OP, "GET", "/userinfo", map[string]string{"Authorization": "Bearer " + t.val}, "")
		w.judge("access token", t, false, resp.st == 200, resp)
		done := false
		w.asCode(t, func(client string) bool {
			// Using the code of another client loses it.
			if done {
				return false
			}
			done = true
			return op && client == t.host
		})
		t.used = true
	default:
		resp := w.do(c07OP, "GET", "/userinfo", map[string]string{"Authorization": "Bearer " + t.val}, "")
		w.judge("access token", t, false, resp.st == 200, resp)
		w.asCode(t, func(string) bool { return false })
	}
}

func (w *c07World) reload(c c07Conf) {
	if err := w.s.p.Reconfigure(c.config()); err != nil {
		w.violation("reload", "%s: %v", c.name, err)
	}
	time.Sleep(time.Second)
	for _, k := range w.conn {
		if k != nil {
			k.raw.Close()
		}
	}
	w.conn = map[string]*simConn{}
	w.cur = c
}

func c07Bubble(r *vx.R, id string, c c07Conf, f func(w *c07World)) {
	vsched.Bubble(r, id, func(x *vsched.X) {
		time.Sleep(time.Hour + 250*time.Millisecond)
		w := &c07World{r: r, x: x, id: id, cur: c, conn: map[string]*simConn{}}
		w.s = newSim(x, c.config())
		w.s.webUpstream("192.168.1.1:80", "", http.HandlerFunc(func(rw http.ResponseWriter, req *http.Request) {
			w.hits++
			w.user = req.Header.Get("X-Tlsproxy-User-Id")
			rw.Write([]byte("ok"))
		}))
		f(w)
		if w.s.panicked() {
			w.violation("panic", "the proxy panicked")
		}
	})
}

func c07Mine(toks []*c07Tok) map[string]*c07Tok {
	m := map[string]*c07Tok{}
	for _, t := range toks {
		if t.kind == "session" {
			m[t.name[strings.LastIndex(t.name, "/")+1:]] = t
		}
	}
	return m
}

func TestVX(t *testing.T) {
	r := vx.Start(t, "C07")
	defer r.Done()
	simInit(r, "sso.example.com", "sso2.example.com", "sso.example.org", c07H1, c07H2, c07H3, c07H4, c07H5, c07H6, c07H7, c07OP)
	confs := c07Confs()
	ages := []time.Duration{0, 119 * time.Second, 121 * time.Second, 299 * time.Second, 301 * time.Second, 20*time.Hour - 2*time.Second, 20*time.Hour + time.Second, 24 * time.Hour}
	r.Bound("configurations, ages", fmt.Sprint(len(confs), len(ages)))
	for _, c := range confs {
		for i, age := range ages {
			id := fmt.Sprintf("age/%s/%d", c.name, i)
			if !r.Case(id) {
				continue
			}
			r.Exec()
			c07Bubble(r, id, c, func(w *c07World) {
				toks := w.mint()
				time.Sleep(age)
				for _, t := range toks {
					w.present(t, c07Mine(toks), false)
				}
			})
		}
	}
	for _, c := range confs {
		for _, d := range confs {
			for _, late := range []bool{false, true} {
				id := fmt.Sprintf("reload/%s/%s/%v", c.name, d.name, late)
				if !r.Case(id) {
					continue
				}
				r.Exec()
				c07Bubble(r, id, c, func(w *c07World) {
					toks := w.mint()
					if late {
						// The ID tokens are made later than the session.
						time.Sleep(10 * time.Hour)
						for _, t := range toks {
							if t.kind != "id" {
								continue
							}
							for _, s := range toks {
								if s.name == t.session {
									resp := w.do(t.host, "GET", "/", map[string]string{"Cookie": "TLSPROXYAUTH=" + s.val}, "")
									t.val = c07Cookie(resp.h, "TLSPROXYIDTOKEN")
								}
							}
						}
						time.Sleep(10*time.Hour - 2*time.Second - 10*time.Millisecond)
					}
					w.reload(d)
					now := w.mint()
					for _, t := range toks {
						w.present(t, c07Mine(now), true)
					}
					w.reload(c)
					for _, t := range append(toks, now...) {
						w.present(t, c07Mine(toks), true)
					}
				})
			}
		}
	}
	c07Forge(r, confs[0])
}

func c07B64(b []byte) string { return base64.RawURLEncoding.EncodeToString(b) }

// c07Forgeries returns tokens made from a good one.
func c07Forgeries(w *c07World, tok string) map[string]string {
	out := map[string]string{}
	parts := strings.Split(tok, ".")
	dec := func(s string) []byte {
		b, err := base64.RawURLEncoding.DecodeString(s)
		if err != nil {
			w.violation("forge", "%v", err)
		}
		return b
	}
	var hdr, claims map[string]any
	json.Unmarshal(dec(parts[0]), &hdr)
	json.Unmarshal(dec(parts[1]), &claims)
	enc := func(m map[string]any) string {
		b, _ := json.Marshal(m)
		return c07B64(b)
	}
	with := func(m map[string]any, k string, v any) map[string]any {
		o := map[string]any{}
		for a, b := range m {
			o[a] = b
		}
		if v == nil {
			delete(o, k)
		} else {
			o[k] = v
		}
		return o
	}
	// Each header and claim altered, or removed, with the same signature.
	for k, v := range hdr {
		out["hdr-"+k+"-del"] = enc(with(hdr, k, nil)) + "." + parts[1] + "." + parts[2]
		for i, nv := range []any{"x", 1, "", []any{v}, "none", "HS256", "RS256", "ES256"} {
			if nv != v {
				out[fmt.Sprintf("hdr-%s-%d", k, i)] = enc(with(hdr, k, nv)) + "." + parts[1] + "." + parts[2]
			}
		}
	}
	for k, v := range claims {
		out["claim-"+k+"-del"] = parts[0] + "." + enc(with(claims, k, nil)) + "." + parts[2]
		for i, nv := range []any{"x", 4e9, "root@example.com", []any{v, "x"}} {
			out[fmt.Sprintf("claim-%s-%d", k, i)] = parts[0] + "." + enc(with(claims, k, nv)) + "." + parts[2]
		}
	}
	// Each character.
	for i := range tok {
		c := byte('A')
		if tok[i] == 'A' {
			c = 'z'
		}
		v := tok[:i] + string(c) + tok[i+1:]
		p := strings.Split(v, ".")
		if len(p) == 3 {
			same := true
			for j := range p {
				a, err1 := base64.RawURLEncoding.DecodeString(p[j])
				b, err2 := base64.RawURLEncoding.DecodeString(parts[j])
				same = same && err1 == nil && err2 == nil && bytes.Equal(a, b)
			}
			if same {
				continue
			}
		}
		out[fmt.Sprintf("char-%d", i)] = v
	}
	// Parts.
	for i, v := range []string{
		parts[0] + "." + parts[1] + ".", parts[0] + "." + parts[1], parts[1] + "." + parts[0] + "." + parts[2],
		parts[0] + "..", "..", ".", "", parts[0] + "." + parts[1] + "." + parts[2] + "." + parts[2], tok + ".", "." + tok, tok + "A", tok[:len(tok)-1],
		tok[:len(tok)-4], tok + parts[2], parts[0] + "." + parts[1] + "." + c07B64(make([]byte, 64)), parts[0] + "." + parts[1] + "." + c07B64(append([]byte{1}, make([]byte, 63)...)),
		parts[0] + "." + parts[1] + "." + c07B64(bytes.Repeat([]byte{0xff}, 64)), parts[0] + "." + parts[1] + "." + c07B64(make([]byte, 256)),
	} {
		out[fmt.Sprintf("part-%d", i)] = v
	}
	// Keys that can be had by anybody, and foreign ones.
	pubs := w.jwks()
	edPub, edKey, _ := ed25519.GenerateKey(rand.Reader)
	ecKey, _ := ecdsa.GenerateKey(elliptic.P256(), rand.Reader)
	rsaKey := c07RSA
	kids := []any{nil, "", "x"}
	for _, p := range pubs {
		kids = append(kids, p.kid)
	}
	jwk := map[string]any{"kty": "OKP", "crv": "Ed25519", "alg": "EdDSA", "x": c07B64(edPub), "kid": "x"}
	better := with(claims, "email", "root@example.com")
	for ki, kid := range kids {
		h := with(hdr, "kid", kid)
		for bi, body := range []map[string]any{claims, better} {
			n := fmt.Sprintf("%d-%d", ki, bi)
			sign := func(name, alg string, hdr map[string]any, f func(s string) []byte) {
				s := enc(with(hdr, "alg", alg)) + "." + enc(body)
				out["sign-"+name+"-"+n] = s + "." + c07B64(f(s))
			}
			for _, a := range []string{"none", "None", "NONE", "nOnE", ""} {
				sign("none-"+a, a, h, func(string) []byte { return nil })
			}
			for pi, p := range pubs {
				for mi, m := range p.material {
					for _, a := range []string{"HS256", "HS384", "HS512"} {
						sign(fmt.Sprintf("hmac-%d-%d-%s", pi, mi, a), a, h, func(s string) []byte {
							f := map[string]func() hash.Hash{"HS256": sha256.New, "HS384": sha512.New384, "HS512": sha512.New}[a]
							d := hmac.New(f, m)
							d.Write([]byte(s))
							return d.Sum(nil)
						})
					}
				}
			}
			eds := func(s string) []byte { return ed25519.Sign(edKey, []byte(s)) }
			ecs := func(s string) []byte {
				d := sha256.Sum256([]byte(s))
				r, t, _ := ecdsa.Sign(rand.Reader, ecKey, d[:])
				return append(r.FillBytes(make([]byte, 32)), t.FillBytes(make([]byte, 32))...)
			}
			rs := func(s string) []byte {
				d := sha256.Sum256([]byte(s))
				b, _ := rsa.SignPKCS1v15(rand.Reader, rsaKey, crypto.SHA256, d[:])
				return b
			}
			for _, a := range []string{"EdDSA", "ES256", "RS256", "PS256", "ES384"} {
				sign("ed-"+a, a, h, eds)
				sign("ec-"+a, a, h, ecs)
				sign("rsa-"+a, a, h, rs)
			}
			sign("jwk", "EdDSA", with(h, "jwk", jwk), eds)
			sign("jku", "EdDSA", with(h, "jku", "https://192.168.1.1/jwks"), eds)
			sign("x5c", "RS256", with(h, "x5c", []string{base64.StdEncoding.EncodeToString(x509.MarshalPKCS1PublicKey(&rsaKey.PublicKey))}), rs)
			for _, a := range []string{"EdDSA", "ES256", "RS256"} {
				for z, v := range [][]byte{nil, make([]byte, 64), bytes.Repeat([]byte{1}, 64), make([]byte, 256), append(make([]byte, 255), 1)} {
					sign(fmt.Sprintf("zero-%d-%s", z, a), a, h, func(string) []byte { return v })
				}
			}
		}
	}
	return out
}

var c07RSA *rsa.PrivateKey

type c07Pub struct {
	kid      string
	material [][]byte
}

// jwks reads the published keys.
func (w *c07World) jwks() (out []c07Pub) {
	resp := w.do(c07OP, "GET", "/jwks", nil, "")
	var v struct{ Keys []map[string]string }
	json.Unmarshal([]byte(resp.body), &v)
	for _, k := range v.Keys {
		p := c07Pub{kid: k["kid"]}
		var pub any
		d := func(n string) []byte { b, _ := base64.RawURLEncoding.DecodeString(k[n]); return b }
		switch k["kty"] {
		case "RSA":
			pub = &rsa.PublicKey{N: new(big.Int).SetBytes(d("n")), E: int(new(big.Int).SetBytes(d("e")).Int64())}
			p.material = append(p.material, d("n"), []byte(k["n"]))
		case "EC":
			pub = &ecdsa.PublicKey{Curve: elliptic.P256(), X: new(big.Int).SetBytes(d("x")), Y: new(big.Int).SetBytes(d("y"))}
			p.material = append(p.material, d("x"), append(append([]byte{4}, d("x")...), d("y")...))
		default:
			pub = ed25519.PublicKey(d("x"))
			p.material = append(p.material, d("x"), []byte(k["x"]))
		}
		der, err := x509.MarshalPKIXPublicKey(pub)
		if err != nil {
			w.violation("jwks", "%v", err)
		}
		j, _ := json.Marshal(k)
		pm := pem.EncodeToMemory(&pem.Block{Type: "PUBLIC KEY", Bytes: der})
		p.material = append(p.material, der, pm, bytes.TrimSpace(pm), j, []byte(k["kid"]), nil)
		out = append(out, p)
	}
	if len(out) == 0 {
		w.violation("jwks", "no keys: %d", resp.st)
	}
	return out
}

func c07Forge(r *vx.R, c c07Conf) {
	var err error
	if c07RSA, err = rsa.GenerateKey(rand.Reader, 2048); err != nil {
		r.T.Fatal(err)
	}
	for _, kind := range []string{"session", "id", "url"} {
		for _, h := range c.names() {
			if kind == "id" && !c.hosts[h].generate {
				continue
			}
			if (h == c07H2 || h == c07H5 || h == c07H6) && !r.Thorough() {
				continue
			}
			id := "forge/" + kind + "/" + h
			if !r.Case(id) {
				continue
			}
			r.Exec()
			c07Bubble(r, id, c, func(w *c07World) {
				toks := w.mint()
				var good, other *c07Tok
				for _, t := range toks {
					if t.kind == kind && strings.HasSuffix(t.name, "/"+h) {
						good = t
					} else if t.kind == kind {
						other = t
					}
				}
				if good == nil {
					return
				}
				try := func(n, v string, want bool) {
					t := *good
					t.name, t.val = "forgery "+n, v
					switch kind {
					case "session":
						w.asSession(h, &t, want, "")
					case "id":
						w.asBearer(h, &t, want, "Bearer ")
					case "url":
						w.asRedirect(h, "/.sso/login?redirect=", &t, t.sid, want)
						w.asRedirect(h, "/.sso/logout?u=", &t, t.sid, want)
					}
				}
				try("none", good.val, true)
				f := c07Forgeries(w, good.val)
				// Parts of two tokens.
				a, b := strings.Split(good.val, "."), strings.Split(other.val, ".")
				if b[1] != a[1] {
					f["mix-1"] = a[0] + "." + a[1] + "." + b[2]
					f["mix-2"] = a[0] + "." + b[1] + "." + a[2]
				}
				var names []string
				for n := range f {
					names = append(names, n)
				}
				sort.Strings(names)
				for _, n := range names {
					if f[n] == "" && kind == "url" {
						continue
					}
					try(n, f[n], false)
				}
				try("none", good.val, true)
			})
		}
	}
}
