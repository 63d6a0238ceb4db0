package proxy

import (
	"encoding/base64"
	"encoding/json"
	"fmt"
	"net/http"
	"net/http/cookiejar"
	"net/url"
	"regexp"
	"slices"
	"strings"
	"testing"
	"time"

	"golang.org/x/net/html"

	"github.com/c2FmZQ/tlsproxy/internal/vsched"
	"github.com/c2FmZQ/tlsproxy/internal/vx"
)

const (
	c35Plain = "h1.example.com" // a login page
	c35Gen   = "h2.example.com" // identity tokens
	c35Deny  = "h3.example.com" // nobody is allowed
	c35Other = "h4.example.com" // another provider
	c35PK    = "h5.example.com" // passkeys
	c35IDN   = "xn--bcher-kva.example.com"
	c35SSO   = "sso.example.com"
)

var c35Hosts = []string{c35Plain, c35Gen, c35Deny, c35Other, c35PK, c35IDN}

func c35Config() *Config {
	cfg := simCfg(&Backend{ServerNames: []string{c35SSO}, Mode: "LOCAL"})
	for _, h := range c35Hosts {
		be := simHTTPBackend(h, "HTTP", "192.168.1.1:80")
		be.SSO = &BackendSSO{Provider: "idpA", GenerateIDTokens: h == c35Gen}
		switch h {
		case c35Deny:
			be.SSO.ACL = &[]string{"nobody@example.com"}
		case c35Other:
			be.SSO.Provider = "idpB"
		case c35PK:
			be.SSO.Provider = "pk"
		}
		cfg.Backends = append(cfg.Backends, be)
	}
	for _, p := range []string{"idpA", "idpB"} {
		cfg.OIDCProviders = append(cfg.OIDCProviders, vxIDP(p, "example.com", "https://"+c35SSO+"/"+p))
	}
	cfg.PasskeyProviders = []*ConfigPasskey{{Name: "pk", IdentityProvider: "idpB", Endpoint: "https://" + c35SSO + "/passkeys", Domain: "example.com"}}
	return cfg
}

func c35Own(host string) bool {
	h, _, _ := strings.Cut(host, ":")
	return h == c35SSO || slices.Contains(c35Hosts, h)
}

var c35Targets = []string{
	"/plain", "/", "//evil.com/", "///evil.com", "//evil.com", "/\\evil.com", "/%5Cevil.com", "/%2F%2Fevil.com/", "/%2fevil.com", "/.//evil.com/",
	"/x/..//evil.com/", "//evil.com@h1.example.com/", "/@evil.com", "/<zq>", "/%3Czq%3E", "/\"zq", "/%22zq=1", "/'zq", "/%27zq",
	"/?a=<zq>", "/?\"><zq x=\"", "/?a=%22%3E%3Czq%3E", "/?'zq=", "/?redirect=https://evil.com/&u=https://evil.com/", "/?url=//evil.com/", "/?next=https%3A%2F%2Fevil.com",
	"/?state=x&code=y", "/?sid=x", "/%0d%0aSet-Cookie:%20zq=1", "/?a=%0d%0aLocation:%20https://evil.com/", "/javascript:alert(1)", "/{{.Token}}", "/?{{.}}", "/${JWT:email}",
	"/%00", "/\u00e9", "/" + strings.Repeat("A", 90) + "<zq>\"'" + strings.Repeat("B", 90), "/" + strings.Repeat("%3Cz", 80), "/#zq", "/?#zq", "/%", "/%zz", "/a%2Fb%3Fc%23d", "/?a=b;c=d&e=%", "/+%20", "/~user/:x",
	"//evil.com:443/", "/.sso", "/.sso/x", "/x:y", "x", "",
}

type c35World struct {
	r    *vx.R
	x    *vsched.X
	s    *sim
	id   string
	user string
	hits int
	// headers are sent with the first request.
	headers []string
}

func (w *c35World) violation(key, f string, a ...any) {
	w.r.Violation(key, "%s: "+f, append([]any{w.id}, a...)...)
}

func c35Bubble(r *vx.R, id string, f func(w *c35World)) {
	vsched.Bubble(r, id, func(x *vsched.X) {
		time.Sleep(time.Hour + 250*time.Millisecond)
		w := &c35World{r: r, x: x, id: id}
		w.s = newSim(x, c35Config())
		w.s.webUpstream("192.168.1.1:80", "", http.HandlerFunc(func(rw http.ResponseWriter, req *http.Request) {
			w.hits++
			rw.Write([]byte("ok"))
		}))
		f(w)
		if w.s.panicked() {
			w.violation("panic", "the proxy panicked")
		}
	})
}

var (
	c35Tok = regexp.MustCompile(`[A-Za-z0-9_-]{10,}\.[A-Za-z0-9_-]{10,}\.[A-Za-z0-9_-]{10,}`)
	c35Hex = regexp.MustCompile(`[0-9a-f]{24,}`)
	c35JS  = regexp.MustCompile(`"(\\.|[^"\\])*"|'(\\.|[^'\\])*'`)
)

// c35Skeleton is what a browser would act upon.
func c35Skeleton(p simPage) string {
	ct := p.h.Get("Content-Type")
	var out strings.Builder
	var keys []string
	for k := range p.h {
		keys = append(keys, k)
	}
	slices.Sort(keys)
	fmt.Fprintln(&out, p.status, keys, ct)
	if !strings.HasPrefix(ct, "text/html") {
		return out.String()
	}
	z := html.NewTokenizer(strings.NewReader(p.body))
	in := ""
	for {
		t := z.Next()
		if t == html.ErrorToken {
			return out.String()
		}
		tok := z.Token()
		switch t {
		case html.TextToken:
			if in == "script" || in == "style" {
				fmt.Fprintf(&out, "%s\n", c35Tok.ReplaceAllString(tok.Data, "TOKEN"))
			}
		case html.StartTagToken, html.SelfClosingTagToken, html.EndTagToken:
			in = ""
			if t == html.StartTagToken {
				in = tok.Data
			}
			fmt.Fprintf(&out, "%v %s", t, tok.Data)
			for _, a := range tok.Attr {
				v := c35Tok.ReplaceAllString(a.Val, "TOKEN")
				switch {
				case strings.HasPrefix(a.Key, "on"):
					v = c35JS.ReplaceAllString(v, "STRING")
				case a.Key == "value":
					v = "VALUE"
				case a.Key == "href" && strings.HasPrefix(v, "https://"):
					// Links to the page itself.
					u, err := url.Parse(v)
					if err != nil {
						v = "malformed"
					} else {
						v = "HOST " + u.Host
					}
				}
				fmt.Fprintf(&out, " %s=%q", a.Key, v)
			}
			fmt.Fprintln(&out)
		case html.CommentToken, html.DoctypeToken:
			fmt.Fprintf(&out, "%v %q\n", t, tok.Data)
		}
	}
}

func (w *c35World) same(what string, p, plain simPage) {
	w.r.Step(1)
	if a, b := c35Skeleton(p), c35Skeleton(plain); a != b {
		al, bl := strings.Split(a, "\n"), strings.Split(b, "\n")
		for i := range al {
			if i >= len(bl) || al[i] != bl[i] {
				o := ""
				if i < len(bl) {
					o = bl[i]
				}
				w.violation("page", "%s: the page has %q instead of %q", what, al[i], o)
				return
			}
		}
		w.violation("page", "%s: the page lacks elements", what)
	}
}

// at compares the destination with what was asked for.
func (w *c35World) at(what string, p simPage, host, target string) {
	w.r.Step(1)
	got, err := p.resolve()
	if err != nil {
		w.violation("destination", "%s: malformed location %q", what, p.location())
		return
	}
	g, err := url.Parse(got)
	want := "https://" + host + target
	if strings.HasPrefix(target, "https://") || strings.HasPrefix(target, "http://") {
		want = target
	}
	base, _ := url.Parse("https://" + host + "/")
	v, err2 := url.ParseRequestURI(want)
	if err2 == nil {
		// What browsers make of it.
		v = base.ResolveReference(v)
	}
	if err != nil || err2 != nil {
		w.violation("destination", "%s: location %q", what, p.location())
		return
	}
	if strings.Contains(target, "#") {
		// That isn't what browsers send.
		v.Path, v.RawQuery = g.Path, g.RawQuery
	}
	if g.Scheme != "https" || g.Host != host || !c35Own(host) || g.Path != v.Path || c35Query(g.RawQuery) != c35Query(v.RawQuery) {
		w.violation("destination", "%s: the user is sent to %q instead of %q", what, p.location(), want)
	}
	w.r.Outcome("destination ok")
}

func c35Query(s string) string {
	if v, err := url.PathUnescape(s); err == nil {
		return v
	}
	return s
}

// own checks that a page doesn't send the user away.
func (w *c35World) own(what string, p simPage) {
	if p.location() == "" {
		return
	}
	u, err := p.resolve()
	v, err2 := url.Parse(u)
	if err != nil || err2 != nil || v.Scheme != "https" || !(c35Own(v.Host) || v.Host == "idp.example.org") {
		w.violation("away", "%s: %d, the user is sent to %q", what, p.status, p.location())
	}
}

// loginLink requests a page, and returns the login token.
func (w *c35World) loginLink(b *simBrowser, host, target string, skip bool) (simPage, string) {
	hdr := map[string]string{}
	for _, k := range w.headers {
		hdr[k] = "evil.com"
		if k == "Referer" || k == "Origin" || strings.HasSuffix(k, "-Url") {
			hdr[k] = "https://evil.com/"
		} else if k == "Forwarded" {
			hdr[k] = "host=evil.com;proto=http"
		}
	}
	if skip {
		hdr["X-Skip-Login-Confirmation"] = "1"
	}
	p := b.do("GET", host, target, hdr, "")
	if m := simRedirectRE.FindStringSubmatch(p.location()); p.status == 302 && m != nil {
		return p, m[1]
	}
	if m := simRedirectRE.FindStringSubmatch(p.body); p.status == 403 && m != nil {
		return p, m[1]
	}
	return p, ""
}

// session gives the browser a session on a host.
func (w *c35World) session(b *simBrowser, host, email string) {
	be := w.s.p.backends[beKey{serverName: host}]
	rec := &simRec{h: http.Header{}}
	if err := be.SSO.cm.SetAuthTokenCookie(rec, "sub-"+email, email, "sid-"+email, host, map[string]any{"name": "User", "passkey_hash": "abc"}); err != nil {
		w.violation("session", "%v", err)
		return
	}
	b.jar.SetCookies(&url.URL{Scheme: "https", Host: host, Path: "/"}, (&http.Response{Header: rec.h}).Cookies())
}

func c35Switch(body string) string {
	_, v, ok := strings.Cut(body, "/.sso/logout?u=")
	if !ok {
		return ""
	}
	v, _, _ = strings.Cut(v, `"`)
	return v
}

func TestVX(t *testing.T) {
	r := vx.Start(t, "C35")
	defer r.Done()
	defer simFakeIDP()()
	simInit(r, append([]string{c35SSO}, c35Hosts...)...)
	r.Bound("targets, hosts", fmt.Sprint(len(c35Targets), len(c35Hosts)))
	c35Addresses(r)
	c35Tokens(r)
	c35Identities(r)
	c35Interleavings(r)
	c35Spoof(r)
}

// c35Addresses is about hostile addresses of hosts of the proxy.
func c35Addresses(r *vx.R) {
	n := 0
	for _, host := range c35Hosts {
		for ti, target := range c35Targets {
			for _, flow := range []string{"login", "skip", "port", "headers", "session", "denied", "status"} {
				id := fmt.Sprintf("address/%s/%d/%s", host, ti, flow)
				n++
				if !r.Case(id) {
					continue
				}
				r.Exec()
				c35Bubble(r, id, func(w *c35World) {
					b, plain := w.s.browser("b"), w.s.browser("plain")
					what := fmt.Sprintf("%q at %s (%s)", target, host, flow)
					hh := host
					if flow == "port" {
						hh += ":8443"
					}
					switch flow {
					case "session":
						// The session is good already.
						w.session(b, host, "u@example.com")
						p := b.do("GET", hh, target, nil, "")
						for i := 0; i < 4 && p.status/100 == 3; i++ {
							w.own(what, p)
							if p.status == 302 {
								w.at(what, p, hh, target)
							}
							u, err := p.resolve()
							if err != nil || !strings.HasPrefix(u, "https://"+hh+"/") {
								break
							}
							p = b.get(u)
						}
						return
					case "denied", "status":
						tg := target
						if flow == "status" {
							if !strings.HasPrefix(target, "/?") {
								return
							}
							tg = "/.sso/" + target[1:]
						} else if host != c35Deny {
							return
						}
						w.session(b, host, "u@example.com")
						w.session(plain, host, "u@example.com")
						pt := "/.sso/"
						if flow == "denied" {
							pt = "/plain"
						}
						p, q := b.do("GET", hh, tg, nil, ""), plain.do("GET", hh, pt, nil, "")
						if p.status == 302 && host == c35Gen {
							w.at(what, p, hh, tg)
							p, q = b.do("GET", hh, tg, nil, ""), plain.do("GET", hh, "/.sso/", nil, "")
						}
						tok := c35Switch(p.body)
						if tok == "" {
							w.own(what, p)
							return
						}
						w.same(what, p, q)
						p = b.do("GET", hh, "/.sso/logout?u="+tok, nil, "")
						w.finish(what, b, p, hh, tg)
						return
					}
					if flow == "headers" {
						w.headers = []string{"X-Forwarded-Host", "X-Forwarded-Server", "X-Original-Url", "X-Rewrite-Url", "X-Host", "Forwarded", "Referer", "Origin"}
					}
					p, tok := w.loginLink(b, hh, target, flow == "skip")
					q, _ := w.loginLink(plain, hh, "/plain", flow == "skip")
					if tok == "" {
						w.r.Outcome(fmt.Sprintf("refused %d", p.status))
						w.own(what, p)
						return
					}
					w.same(what, p, q)
					w.own(what, p)
					p = b.do("GET", hh, "/.sso/login?redirect="+tok, nil, "")
					w.finish(what, b, p, hh, target)
				})
			}
		}
	}
}

// finish goes on from the redirection to the provider.
func (w *c35World) finish(what string, b *simBrowser, p simPage, host, target string) {
	if p.status != 302 {
		w.violation("flow", "%s: no login: %d %q", what, p.status, p.body)
		return
	}
	u, err := p.resolve()
	if err != nil {
		w.violation("flow", "%s: %v", what, err)
		return
	}
	if strings.HasPrefix(u, "https://"+c35SSO) && strings.Contains(u, "/passkeys?") {
		// The passkey page.
		u = strings.Replace(u, ":8443", "", 1)
		q, chain := b.follow(b.get(u))
		if q.status != 200 || len(chain) == 0 {
			w.violation("flow", "%s: no passkey page: %d %q", what, q.status, q.body)
			return
		}
		w.links(what, q, host, target)
		tok := simRedirectRE.FindStringSubmatch(q.url)
		if tok == nil {
			w.violation("flow", "%s: no token: %q", what, q.url)
			return
		}
		// Through the other provider.
		v := b.do("GET", c35SSO, "/passkeys?get=RegisterNewID&redirect="+tok[1], nil, "")
		if v.status != 302 || !strings.HasPrefix(v.location(), "https://idp.example.org/idpB/") {
			w.violation("flow", "%s: %d %q", what, v.status, v.location())
			return
		}
		v = b.authenticate(v.location(), "u@example.com")
		if v.status != 302 {
			w.violation("flow", "%s: %d %q", what, v.status, v.body)
			return
		}
		w.at(what+" back to the passkeys", v, c35SSO, "/passkeys?get=RegisterNewID&redirect="+tok[1])
		v = b.get(v.location())
		if v.status != 200 {
			w.violation("flow", "%s: %d %q", what, v.status, v.body)
			return
		}
		w.links(what, v, host, target)
		v = b.do("POST", c35SSO, "/passkeys?get=Switch&redirect="+tok[1], map[string]string{"X-Csrf-Check": "1"}, "")
		var res struct{ Redirect string }
		if err := json.Unmarshal([]byte(v.body), &res); err != nil || !strings.HasPrefix(v.h.Get("Content-Type"), "application/json") {
			w.violation("flow", "%s: %d %q", what, v.status, v.body)
			return
		}
		v.h.Set("Location", res.Redirect)
		w.at(what+" switch", v, host, target)
		return
	}
	if !strings.HasPrefix(u, "https://idp.example.org/") {
		w.violation("away", "%s: the user is sent to %q", what, p.location())
		return
	}
	p = b.authenticate(u, "u@example.com")
	if p.err != nil || p.status != 302 {
		w.violation("flow", "%s: %d %v %q", what, p.status, p.err, p.body)
		return
	}
	w.at(what, p, host, target)
}

// links checks the links of a page of the passkey flow.
func (w *c35World) links(what string, p simPage, host, target string) {
	z := html.NewTokenizer(strings.NewReader(p.body))
	for z.Next() != html.ErrorToken {
		tok := z.Token()
		if strings.Contains(tok.Data, "zq") && tok.Type != html.TextToken {
			w.violation("page", "%s: the page has a %q element", what, tok.Data)
		}
		for _, a := range tok.Attr {
			if strings.Contains(a.Key, "zq") || strings.HasPrefix(a.Key, "on") && strings.Contains(c35JS.ReplaceAllString(a.Val, ""), "zq") {
				w.violation("page", "%s: attribute %s=%q", what, a.Key, a.Val)
			}
			if tok.Data == "a" && a.Key == "href" && a.Val != "https://fidoalliance.org/passkeys/" && !strings.HasPrefix(a.Val, "/passkeys?") {
				q := simPage{url: p.url, h: http.Header{"Location": {a.Val}}}
				w.at(what+" link", q, host, target)
			}
		}
	}
}

// c35Tokens presents login tokens to endpoints.
func c35Tokens(r *vx.R) {
	type token struct {
		name, val, host, url string
		browser              int
	}
	mutate := map[string]func(s string) string{
		"flip": func(s string) string {
			c := byte('A')
			if s[len(s)-10] == c {
				c = 'B'
			}
			return s[:len(s)-10] + string(c) + s[len(s)-9:]
		},
		"cut": func(s string) string { return s[:len(s)-3] },
		"evil": func(s string) string {
			p := strings.Split(s, ".")
			b, _ := base64.RawURLEncoding.DecodeString(p[1])
			var m map[string]any
			json.Unmarshal(b, &m)
			m["url"] = "https://evil.com/"
			b, _ = json.Marshal(m)
			return p[0] + "." + base64.RawURLEncoding.EncodeToString(b) + "." + p[2]
		},
		"none": func(s string) string {
			p := strings.Split(s, ".")
			b, _ := base64.RawURLEncoding.DecodeString(p[1])
			var m map[string]any
			json.Unmarshal(b, &m)
			m["url"] = "https://evil.com/"
			b, _ = json.Marshal(m)
			return base64.RawURLEncoding.EncodeToString([]byte(`{"alg":"none","typ":"JWT"}`)) + "." + base64.RawURLEncoding.EncodeToString(b) + "."
		},
		"empty":   func(string) string { return "" },
		"address": func(string) string { return "https://evil.com/" },
		"scheme":  func(string) string { return "//evil.com/" },
		"append":  func(s string) string { return s + ".x" },
	}
	var names []string
	for k := range mutate {
		names = append(names, k)
	}
	names = append(names, "", "params")
	slices.Sort(names)
	for bi := 0; bi < 3; bi++ {
		for _, mut := range names {
			id := fmt.Sprintf("token/%d/%s", bi, mut)
			if !r.Case(id) {
				continue
			}
			r.Exec()
			c35Bubble(r, id, func(w *c35World) {
				browsers := []*simBrowser{w.s.browser("b0"), w.s.browser("b1"), w.s.browser("b2")}
				var toks []token
				for i, b := range browsers[:2] {
					for _, h := range []string{c35Plain, c35Other, c35PK} {
						p, tok := w.loginLink(b, h, "/from?x=y", false)
						if tok == "" {
							w.violation("flow", "no token at %s: %d", h, p.status)
							return
						}
						toks = append(toks, token{"login", tok, h, "https://" + h + "/from?x=y", i})
						if h == c35PK {
							p, _ := b.follow(b.do("GET", h, "/.sso/login?redirect="+tok, nil, ""))
							m := simRedirectRE.FindStringSubmatch(p.url)
							if m == nil {
								w.violation("flow", "no passkey token: %d %q", p.status, p.url)
								return
							}
							toks = append(toks, token{"passkey", m[1], c35SSO, "https://" + h + "/from?x=y", i})
						}
					}
					w.session(b, c35Deny, "u@example.com")
					p := b.do("GET", c35Deny, "/from?x=y", nil, "")
					toks = append(toks, token{"denied", c35Switch(p.body), c35Deny, "https://" + c35Deny + "/from?x=y", i})
					toks = append(toks, token{"session", c35CookieOf(b, c35Deny, "TLSPROXYAUTH"), "", "", i})
				}
				b := browsers[bi]
				for _, t := range toks {
					if len(t.val) < 20 {
						w.violation("flow", "no %s token", t.name)
						continue
					}
					v := t.val
					if mut != "" && mut != "params" {
						v = mutate[mut](v)
					}
					v = url.QueryEscape(v)
					if mut == "params" {
						for _, k := range []string{"redirect", "u", "url", "next", "return", "return_to", "returnTo", "redirect_uri", "redirect_url", "dest", "target", "continue", "rd", "goto", "host", "path"} {
							v += "&" + k + "=https://evil.com/"
						}
					}
					for _, host := range append([]string{c35SSO}, c35Hosts...) {
						for _, ep := range []string{"/.sso/login?redirect=", "/.sso/logout?u=", "POST/.sso/login?redirect=", "/passkeys?get=Login&redirect=", "/passkeys?get=RegisterNewID&redirect=", "/passkeys?get=RefreshID&email=%3Czq%3E&redirect="} {
							if (host == c35SSO) != strings.HasPrefix(ep, "/passkeys") {
								continue
							}
							// The endpoints change cookies.
							jar := *b
							jar.jar = c35Copy(b, host)
							jar.conns = b.conns
							what := fmt.Sprintf("%s token of browser %d from %s presented by browser %d to %s%s", t.name, t.browser, t.host, bi, host, ep)
							w.r.Step(1)
							var p simPage
							if e, ok := strings.CutPrefix(ep, "POST"); ok {
								path, k, _ := strings.Cut(e, "?")
								if p = jar.do("POST", host, path, nil, k+v); host == c35Gen && p.status == 302 && strings.TrimPrefix(p.location(), "https://"+host) == path {
									p = jar.do("POST", host, path, nil, k+v)
								}
							} else {
								p = jar.do("GET", host, ep+v, nil, "")
								if host == c35Gen && p.status == 302 && strings.TrimPrefix(p.location(), "https://"+host) == ep+v {
									// With the identity token.
									p = jar.do("GET", host, ep+v, nil, "")
								}
							}
							// Tokens go with the browser, not with the host.
							valid := (mut == "" || mut == "params") && t.browser == bi && t.name != "session"
							accepted := valid && t.host == host
							w.own(what, p)
							w.r.Outcome(fmt.Sprintf("%s %v %d", ep, accepted, p.status))
							switch {
							case p.err != nil:
								w.violation("flow", "%s: %v", what, p.err)
							case !valid && p.location() != "":
								w.violation("accepted", "%s: %d %q", what, p.status, p.location())
							case !valid && p.status < 400 && !(mut == "empty" && strings.Contains(ep, "logout") && p.status == 200):
								w.violation("accepted", "%s: %d %q", what, p.status, p.body)
							case accepted && (p.status >= 400 || ep != "/passkeys?get=Login&redirect=" && p.location() == ""):
								w.violation("refused", "%s: %d %q", what, p.status, p.body)
							case valid && p.status == 302 && !strings.HasPrefix(ep, "/passkeys"):
								u, _ := url.Parse(t.url)
								w.finish(what, &jar, p, u.Host, u.RequestURI())
							}
						}
					}
				}
			})
		}
	}
}

func c35CookieOf(b *simBrowser, host, name string) string {
	for _, c := range b.jar.Cookies(&url.URL{Scheme: "https", Host: host, Path: "/"}) {
		if c.Name == name {
			return c.Value
		}
	}
	return ""
}

// c35Identities is about what the provider says of the user.
func c35Identities(r *vx.R) {
	for i, email := range []string{"<zq>@example.com", `"><zq a="@example.com`, `'zq'@example.com`, `"+zq+"@example.com`, "u@evil.com\r\nX-Zq: 1", "</script><zq>@example.com", "{{.}}@example.com", "javascript:zq@example.com", "é@example.com"} {
		for _, host := range []string{c35Plain, c35Deny, c35PK, c35SSO} {
			id := fmt.Sprintf("identity/%d/%s", i, host)
			if !r.Case(id) {
				continue
			}
			r.Exec()
			c35Bubble(r, id, func(w *c35World) {
				b, plain := w.s.browser("b"), w.s.browser("plain")
				what := fmt.Sprintf("identity %q at %s", email, host)
				if host == c35SSO {
					// With passkeys.
					for _, mode := range []string{"RegisterNewID", "RefreshID"} {
						var pages []simPage
						for i, br := range []*simBrowser{b, plain} {
							_, tok := w.loginLink(br, c35PK, "/plain", false)
							p, _ := br.follow(br.do("GET", c35PK, "/.sso/login?redirect="+tok, nil, ""))
							m := simRedirectRE.FindStringSubmatch(p.url)
							if m == nil {
								w.violation("flow", "no token")
								return
							}
							if mode == "RefreshID" {
								w.session(br, c35Other, []string{email, "u@example.com"}[i])
							}
							p, _ = br.follow(br.do("GET", c35SSO, "/passkeys?get="+mode+"&redirect="+m[1], nil, ""))
							if p.status == 302 {
								p = br.authenticate(p.location(), []string{email, "u@example.com"}[i])
								p, _ = br.follow(p)
							}
							if p.status != 200 {
								w.violation("flow", "%s: %d %q", what, p.status, p.body)
								return
							}
							pages = append(pages, p)
						}
						w.same(what+" "+mode, pages[0], pages[1])
					}
					return
				}
				w.session(b, host, email)
				w.session(plain, host, "u@example.com")
				for _, target := range []string{"/.sso/", "/plain", "/.sso/logout", "/.sso/passkeys"} {
					p, q := b.do("GET", host, target, nil, ""), plain.do("GET", host, target, nil, "")
					w.same(what+target, p, q)
					w.own(what+target, p)
				}
				if host == c35PK {
					// The page to manage keys.
					for _, br := range []*simBrowser{b, plain} {
						w.session(br, c35PK, map[bool]string{true: email, false: "u@example.com"}[br == b])
					}
					p, _ := b.follow(b.do("GET", c35PK, "/.sso/passkeys", nil, ""))
					w.own(what, p)
				}
			})
		}
	}
}

// c35Interleavings is about logins in progress.
func c35Interleavings(r *vx.R) {
	max := r.Pick(5, 6)
	r.Bound("interleaving length", max)
	type step struct {
		name string
		f    func(w *c35World, st *c35State)
	}
	var steps []step
	for bi := 0; bi < 2; bi++ {
		for i, h := range []string{c35Plain, c35Other} {
			if bi == 1 && i == 1 {
				continue
			}
			steps = append(steps, step{fmt.Sprintf("start%d%d", bi, i), func(w *c35World, st *c35State) {
				target := fmt.Sprintf("/page%d", len(st.logins))
				_, tok := w.loginLink(st.browsers[bi], h, target, false)
				if tok == "" {
					// It has a session.
					return
				}
				p := st.browsers[bi].do("GET", h, "/.sso/login?redirect="+tok, nil, "")
				if p.status != 302 {
					w.violation("flow", "%d", p.status)
					return
				}
				st.logins = append(st.logins, &c35Login{bi, h, target, p.location(), i, false, false})
			}})
		}
	}
	for li := 0; li < 2; li++ {
		for bi := 0; bi < 2; bi++ {
			for _, cross := range []bool{false, true} {
				if cross && bi == 1 {
					continue
				}
				steps = append(steps, step{fmt.Sprintf("end%d%d%v", li, bi, cross), func(w *c35World, st *c35State) {
					if li >= len(st.logins) {
						return
					}
					l := st.logins[li]
					auth := l.auth
					if cross {
						auth = strings.ReplaceAll(auth, map[int]string{0: "idpA", 1: "idpB"}[l.provider], map[int]string{1: "idpA", 0: "idpB"}[l.provider])
					}
					p := st.browsers[bi].authenticate(auth, fmt.Sprintf("u%d@example.com", bi))
					what := fmt.Sprintf("login %d of browser %d ended by browser %d (%v)", li, l.browser, bi, cross)
					w.r.Step(1)
					session := false
					for _, c := range (&http.Response{Header: p.h}).Cookies() {
						session = session || c.Name == "TLSPROXYAUTH" && c.MaxAge >= 0
					}
					w.r.Outcome(fmt.Sprintf("%v %d", l.browser == bi, p.status))
					if p.status/100 == 3 || session {
						if l.browser != bi || cross || l.done {
							w.violation("moved", "%s: %d %q", what, p.status, p.location())
							return
						}
						l.done = true
						w.at(what, p, l.host, l.target)
						return
					}
					if l.browser == bi && !cross && li == len(st.logins)-1 && !l.done && !l.tried {
						w.violation("refused", "%s: %d %q", what, p.status, p.body)
					}
				}})
			}
		}
	}
	vx.Sequences(len(steps), 2, max, func(seq []int) bool {
		var names []string
		starts, last := 0, 0
		for _, o := range seq {
			names = append(names, steps[o].name)
			if strings.HasPrefix(steps[o].name, "start") {
				starts++
			} else {
				last++
				if starts == 0 || strings.HasPrefix(steps[o].name, "end1") && starts < 2 {
					return true
				}
			}
		}
		if starts > 2 || last == 0 || strings.HasPrefix(names[len(names)-1], "start") {
			return true
		}
		id := "interleaving/" + strings.Join(names, ",")
		if !r.Case(id) {
			return true
		}
		r.Exec()
		c35Bubble(r, id, func(w *c35World) {
			st := &c35State{browsers: []*simBrowser{w.s.browser("b0"), w.s.browser("b1")}}
			for _, o := range seq {
				before := make([]bool, len(st.logins))
				steps[o].f(w, st)
				for i := range before {
					// An attempt uses up the state, or the cookie.
					if strings.HasPrefix(steps[o].name, fmt.Sprint("end", i)) || strings.HasPrefix(steps[o].name, "end") && strings.HasPrefix(steps[o].name[4:], fmt.Sprint(st.logins[i].browser)) {
						st.logins[i].tried = true
					}
				}
			}
		})
		return !r.Expired()
	})
}

type c35Login struct {
	browser      int
	host, target string
	auth         string
	provider     int
	done, tried  bool
}

type c35State struct {
	browsers []*simBrowser
	logins   []*c35Login
}

// c35Spoof is about an attacker who starts the login, with other names.
func c35Spoof(r *vx.R) {
	for _, host := range c35Hosts {
		for i, name := range []string{"evil.com", "evil.com:443", host + ".evil.com", "x." + host, host + "@evil.com", host + ":443@evil.com", "evil.com/" + host, "evil.com?" + host, "evil.com#" + host, "evil.com\\" + host, "h1.example.com:x", strings.ToUpper(host), host + ".", "", "[::1]", "xn--evil", c35SSO} {
			for _, target := range []string{"/plain", "/.sso/", "/.sso/passkeys", "/.sso/logout", "/denied", "https://evil.com/plain"} {
				for _, signed := range []bool{false, true} {
					id := fmt.Sprintf("spoof/%s/%d/%s/%v", host, i, strings.ReplaceAll(target, "/", "_"), signed)
					if !r.Case(id) {
						continue
					}
					r.Exec()
					c35Bubble(r, id, func(w *c35World) {
						a, v := w.s.browser("attacker"), w.s.browser("victim")
						what := fmt.Sprintf("Host %q at %s %s", name, host, target)
						if signed {
							w.session(a, host, "attacker@example.com")
						}
						raw := func(path string) simPage { return c35Raw(a, host, name, path) }
						p := raw(target)
						w.r.Outcome(fmt.Sprintf("spoof %d", p.status))
						var links []string
						links = append(links, p.location())
						if tok := c35Switch(p.body); tok != "" {
							q := raw("/.sso/logout?u=" + tok)
							links = append(links, q.location())
						}
						if m := simRedirectRE.FindStringSubmatch(p.body + p.location()); m != nil {
							q := raw("/.sso/login?redirect=" + m[1])
							links = append(links, q.location())
						}
						// The victim follows the links that lead to the
						// proxy.
						for _, l := range links {
							u, err := url.Parse(l)
							if err != nil || u.Scheme != "https" || u.Hostname() != c35SSO {
								continue
							}
							w.session(v, c35Other, "victim@example.com")
							q, _ := v.follow(v.do("GET", c35SSO, u.RequestURI(), nil, ""))
							w.own(what, q)
							z := html.NewTokenizer(strings.NewReader(q.body))
							for z.Next() != html.ErrorToken {
								tok := z.Token()
								for _, at := range tok.Attr {
									if tok.Data == "a" && at.Key == "href" && at.Val != "https://fidoalliance.org/passkeys/" {
										w.own(what, simPage{url: q.url, h: http.Header{"Location": {at.Val}}})
									}
								}
							}
							if m := simRedirectRE.FindStringSubmatch(q.url); m != nil {
								q = v.do("POST", c35SSO, "/passkeys?get=Switch&redirect="+m[1], map[string]string{"X-Csrf-Check": "1"}, "")
								var res struct{ Redirect string }
								json.Unmarshal([]byte(q.body), &res)
								q.h.Set("Location", res.Redirect)
								w.own(what+" switch", q)
							}
						}
					})
				}
			}
		}
	}
}

// c35Raw sends a request with some other Host on a connection to host.
func c35Raw(b *simBrowser, host, name, target string) simPage {
	b.name = "raw"
	c := *b
	c.hostHeader = &name
	return c.do("GET", host, target, nil, "")
}

// c35Copy returns a jar with the cookies for a host.
func c35Copy(b *simBrowser, host string) *cookiejar.Jar {
	jar, _ := cookiejar.New(nil)
	for _, h := range append([]string{c35SSO}, c35Hosts...) {
		u := &url.URL{Scheme: "https", Host: h, Path: "/"}
		jar.SetCookies(u, b.jar.Cookies(u))
	}
	return jar
}
