package proxy

import (
	"bytes"
	"crypto/tls"
	"encoding/base64"
	"encoding/json"
	"fmt"
	"io"
	"net/http"
	"net/http/cookiejar"
	"net/url"
	"regexp"
	"strings"
	"time"
)

// simBrowser is a client with cookies.
type simBrowser struct {
	s     *sim
	name  string
	jar   *cookiejar.Jar
	conns map[string]*simConn
	// hostHeader is sent instead of the host.
	hostHeader *string
	cert       *tls.Certificate
}

type simPage struct {
	url    string
	status int
	h      http.Header
	body   string
	err    error
}

func (p simPage) location() string { return p.h.Get("Location") }

func (s *sim) browser(name string) *simBrowser {
	jar, err := cookiejar.New(nil)
	if err != nil {
		panic(err)
	}
	return &simBrowser{s: s, name: name, jar: jar, conns: map[string]*simConn{}}
}

// drop closes the connections.
func (b *simBrowser) drop() {
	for _, c := range b.conns {
		c.raw.Close()
	}
	b.conns = map[string]*simConn{}
}

// do sends one request. Redirects aren't followed. target is sent as is.
func (b *simBrowser) do(method, host, target string, hdr map[string]string, body string) (page simPage) {
	page.url = "https://" + host + target
	page.h = http.Header{}
	u := &url.URL{Scheme: "https", Host: host, Path: "/"}
	name := u.Hostname()
	if v, _, ok := strings.Cut(target, "?"); ok || v != "" {
		if p, err := url.PathUnescape(v); err == nil {
			u.Path = p
		}
	}
	for try := 0; ; try++ {
		c := b.conns[name]
		if c == nil {
			if c, page.err = b.s.dial(b.name+":"+name, name, []string{"http/1.1"}, "192.0.2.1:0", b.cert); page.err != nil {
				return page
			}
			b.conns[name] = c
		}
		var buf bytes.Buffer
		hh := host
		if b.hostHeader != nil {
			hh = *b.hostHeader
		}
		fmt.Fprintf(&buf, "%s %s HTTP/1.1\r\nHost: %s\r\n", method, target, hh)
		var ck []string
		for _, k := range b.jar.Cookies(u) {
			ck = append(ck, k.Name+"="+k.Value)
		}
		if len(ck) > 0 {
			fmt.Fprintf(&buf, "Cookie: %s\r\n", strings.Join(ck, "; "))
		}
		for k, v := range hdr {
			fmt.Fprintf(&buf, "%s: %s\r\n", k, v)
		}
		if body != "" {
			if hdr["Content-Type"] == "" {
				fmt.Fprintf(&buf, "Content-Type: application/x-www-form-urlencoded\r\n")
			}
			fmt.Fprintf(&buf, "Content-Length: %d\r\n", len(body))
		}
		buf.WriteString("\r\n" + body)
		c.raw.SetDeadline(time.Now().Add(simPatience))
		var resp *http.Response
		_, err := c.tls.Write(buf.Bytes())
		if err == nil {
			resp, err = http.ReadResponse(c.br, &http.Request{Method: method})
		}
		if err != nil {
			c.raw.Close()
			delete(b.conns, name)
			if try < 2 && simErr(err) != "HANG" {
				continue
			}
			page.err = err
			return page
		}
		d, err := io.ReadAll(resp.Body)
		if err != nil || resp.Close {
			c.raw.Close()
			delete(b.conns, name)
		}
		b.jar.SetCookies(u, resp.Cookies())
		page.status, page.h, page.body, page.err = resp.StatusCode, resp.Header, string(d), err
		return page
	}
}

// get sends a GET request for an absolute URL, without its fragment.
func (b *simBrowser) get(u string) simPage {
	v, err := url.Parse(u)
	if err != nil || v.Scheme != "https" {
		return simPage{url: u, h: http.Header{}, err: fmt.Errorf("not a https URL: %q", u)}
	}
	v.Fragment = ""
	t := v.RequestURI()
	if strings.HasPrefix(u, "https://"+v.Host+"/") {
		t, _, _ = strings.Cut(strings.TrimPrefix(u, "https://"+v.Host), "#")
	}
	return b.do("GET", v.Host, t, nil, "")
}

// resolve is how a browser understands a Location header.
func (p simPage) resolve() (string, error) {
	base, err := url.Parse(p.url)
	if err != nil {
		return "", err
	}
	loc := strings.ReplaceAll(strings.TrimLeft(p.location(), " \t\r\n"), "\\", "/")
	if strings.HasPrefix(loc, "//") {
		loc = "//" + strings.TrimLeft(loc, "/")
	}
	u, err := base.Parse(loc)
	if err != nil {
		return "", err
	}
	return u.String(), nil
}

// follow follows the redirects until the identity provider, or another page.
func (b *simBrowser) follow(p simPage) (simPage, []string) {
	var chain []string
	for i := 0; i < 8 && p.err == nil && p.status >= 300 && p.status < 400 && p.location() != ""; i++ {
		next, err := p.resolve()
		if err != nil {
			p.err = err
			return p, chain
		}
		chain = append(chain, next)
		if strings.HasPrefix(next, "https://idp.example.org/") {
			return p, chain
		}
		p = b.get(next)
	}
	return p, chain
}

var simRedirectRE = regexp.MustCompile(`redirect=([A-Za-z0-9_-]{10,}\.[A-Za-z0-9_-]{10,}\.[A-Za-z0-9_-]{10,})`)

// simIdentity is what the identity provider says of the user.
var simIdentity struct {
	email string
	nonce string
}

type simIDP struct{}

// RoundTrip is the token endpoint.
func (simIDP) RoundTrip(req *http.Request) (*http.Response, error) {
	if req.Body != nil {
		io.Copy(io.Discard, req.Body)
		req.Body.Close()
	}
	enc := func(v any) string {
		b, _ := json.Marshal(v)
		return base64.RawURLEncoding.EncodeToString(b)
	}
	tok := enc(map[string]any{"alg": "none"}) + "." + enc(map[string]any{
		"iss": "https://idp.example.org/", "sub": "sub-" + simIdentity.email, "email": simIdentity.email, "nonce": simIdentity.nonce,
	}) + "."
	b, _ := json.Marshal(map[string]any{"id_token": tok})
	return &http.Response{StatusCode: 200, Proto: "HTTP/1.1", ProtoMajor: 1, ProtoMinor: 1, Header: http.Header{}, Body: io.NopCloser(bytes.NewReader(b)), Request: req}, nil
}

// simFakeIDP makes the proxy's requests to identity providers succeed.
func simFakeIDP() func() {
	rt := http.DefaultTransport
	http.DefaultTransport = simIDP{}
	return func() { http.DefaultTransport = rt }
}

// callback is the identity provider's answer to an authorization request.
func simCallback(auth, code string) (string, error) {
	u, err := url.Parse(auth)
	if err != nil {
		return "", err
	}
	q := u.Query()
	return q.Get("redirect_uri") + "?" + url.Values{"code": {code}, "state": {q.Get("state")}}.Encode(), nil
}

// authenticate is what happens at the identity provider, and after. It returns
// the page that the callback answers with.
func (b *simBrowser) authenticate(auth, email string) simPage {
	u, err := url.Parse(auth)
	if err != nil {
		return simPage{h: http.Header{}, err: err}
	}
	cb, err := simCallback(auth, "code")
	if err != nil {
		return simPage{h: http.Header{}, err: err}
	}
	simIdentity.email, simIdentity.nonce = email, u.Query().Get("nonce")
	return b.get(cb)
}

// login requests a page, and logs in if needed. It returns the last page, and
// says whether a login took place.
func (b *simBrowser) login(u, email string) (simPage, bool, error) {
	p, chain := b.follow(b.get(u))
	if p.err != nil {
		return p, false, p.err
	}
	if p.status == 403 {
		m := simRedirectRE.FindStringSubmatch(p.body)
		if m == nil {
			return p, false, fmt.Errorf("no login link: %q", p.body)
		}
		v, _ := url.Parse(p.url)
		p, chain = b.follow(b.get("https://" + v.Host + "/.sso/login?redirect=" + m[1]))
	}
	if len(chain) == 0 || !strings.HasPrefix(chain[len(chain)-1], "https://idp.example.org/") {
		return p, false, p.err
	}
	p = b.authenticate(chain[len(chain)-1], email)
	if p.err != nil {
		return p, true, p.err
	}
	if p.status != 302 {
		return p, true, fmt.Errorf("callback: %d %s", p.status, p.body)
	}
	back := p.location()
	p, _ = b.follow(p)
	if p.err == nil && back != u {
		return p, true, fmt.Errorf("sent to %q after the login", back)
	}
	return p, true, p.err
}
