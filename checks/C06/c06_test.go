package proxy

import (
	"fmt"
	"net/url"
	"path/filepath"
	"strings"
	"testing"
	"time"

	"github.com/c2FmZQ/tlsproxy/internal/vx"
)

func TestVX(t *testing.T) {
	r := vx.Start(t, "C06")
	defer r.Done()
	base := r.Scratch("tree")
	for _, f := range []string{"root/p/f", "root/p/index.html", "root/q/f", "root/index.html", "root/f", "over/f", "over/p/f"} {
		vxWrite(t, filepath.Join(base, f), "FILE "+f)
	}
	up := vxNewUpstream(t, "up", nil)
	defer up.close()
	up2 := vxNewUpstream(t, "up2", nil)
	defer up2.close()
	f := false
	const issuer = "https://sso.example.com/"
	sso := func(paths []string, acl *[]string) *BackendSSO {
		return &BackendSSO{Provider: "idp", ACL: acl, Paths: paths}
	}
	acl := &[]string{"bob@example.net", "@corp.example"}
	prot := []string{"/p/", "/adm"}
	ssoOIDC := sso(prot, acl)
	ssoOIDC.Paths = append([]string{"/openid/authorization"}, prot...)
	ssoOIDC.LocalOIDCServer = &LocalOIDCServer{PathPrefix: "/openid", Clients: []*LocalOIDCClient{{ID: "c", Secret: "s", RedirectURI: []string{"https://x.example.com/cb"}}}}
	p := vxStart(r, &Config{
		OIDCProviders: []*ConfigOIDC{vxIDP("idp", "example.com", "https://sso.example.com/cb"), vxIDP("other", "example.com", "https://sso.example.com/cb2")},
		Backends: []*Backend{
			{ServerNames: []string{"sso.example.com"}, Mode: "LOCAL"},
			{ServerNames: []string{"http.example.com"}, Mode: "HTTP", Addresses: []string{up.addr}, SSO: sso(prot, acl), ExportJWKS: "/p/jwks"},
			{ServerNames: []string{"raw.example.com"}, Mode: "HTTP", Addresses: []string{up.addr}, SanitizePath: &f, SSO: sso(prot, acl)},
			{ServerNames: []string{"local.example.com"}, Mode: "LOCAL", DocumentRoot: filepath.Join(base, "root"), SSO: sso(prot, acl)},
			{ServerNames: []string{"all.example.com"}, Mode: "HTTP", Addresses: []string{up.addr}, SSO: sso(nil, nil)},
			{ServerNames: []string{"none.example.com"}, Mode: "HTTP", Addresses: []string{up.addr}, SSO: sso(nil, &[]string{})},
			{ServerNames: []string{"over.example.com"}, Mode: "HTTP", Addresses: []string{up.addr}, SSO: sso(prot, acl),
				PathOverrides: []*PathOverride{
					{Paths: []string{"/p/q/"}, Addresses: []string{up2.addr}, SanitizePath: &f},
					{Paths: []string{"/q/"}, Addresses: []string{up2.addr}, SanitizePath: &f},
					{Paths: []string{"/p/p/"}, DocumentRoot: filepath.Join(base, "over")},
				}},
			{ServerNames: []string{"oidc.example.com"}, Mode: "HTTP", Addresses: []string{up.addr}, SSO: ssoOIDC},
			{ServerNames: []string{"ca.example.com"}, Mode: "LOCAL", SSO: sso(nil, acl)},
		},
		PKI: []*ConfigPKI{{Name: "ca", KeyType: "ecdsa-p256", Endpoint: "https://ca.example.com/certs", CRLDistributionPoints: []string{"https://ca.example.com/crl"}}},
	})
	defer p.vxStop()
	now := time.Now()

	type cred struct {
		name, hdr string
		ok        map[string]bool // by ACL: "acl", "nil"
	}
	both := map[string]bool{"acl": true, "nil": true}
	onlyNil := map[string]bool{"nil": true}
	ck := func(tok string) string { return "Cookie: TLSPROXYAUTH=" + tok + "\r\n" }
	mk := func(email string, mod func(m map[string]any), alg string) string {
		c := vxSession("idp", issuer, email, "sso.example.com", now)
		if mod != nil {
			mod(c)
		}
		return p.vxToken(r, c, alg)
	}
	bob := mk("bob@example.net", nil, "")
	tamper := bob[:len(bob)-6] + "AAAAAA"
	creds := []cred{
		{"none", "", nil},
		{"bob", ck(bob), both},
		{"bob-rs256", ck(mk("bob@example.net", nil, "RS256")), both},
		{"domain", ck(mk("carol@corp.example", nil, "")), both},
		{"alice", ck(mk("alice@example.net", nil, "")), onlyNil},
		{"subdomain", ck(mk("x@evil-corp.example", nil, "")), onlyNil},
		{"domain-as-user", ck(mk("@corp.example@evil.example", nil, "")), onlyNil},
		{"dom-suffix", ck(mk("eve@sub.corp.example", nil, "")), onlyNil},
		{"case", ck(mk("BOB@example.net", nil, "")), onlyNil},
		{"expired", ck(mk("bob@example.net", func(m map[string]any) { m["exp"] = now.Add(-time.Minute).Unix() }, "")), nil},
		{"tampered", ck(tamper), nil},
		{"other-provider", ck(mk("bob@example.net", func(m map[string]any) { m["provider"] = "other" }, "")), nil},
		{"no-email", ck(mk("", nil, "")), nil},
		{"idtoken-cookie", "Cookie: TLSPROXYIDTOKEN=" + bob + "\r\n", nil},
		{"wrong-cookie-name", "Cookie: tlsproxyauth=" + bob + "\r\n", nil},
		{"bearer-session", "Authorization: Bearer " + bob + "\r\n", nil},
		{"empty-bearer", "Authorization: Bearer \r\n", nil},
		{"bad-bearer-good-cookie", "Authorization: Bearer xxx\r\n" + ck(bob), both},
		{"user-header", "X-Tlsproxy-User-Id: bob@example.net\r\n", nil},
		{"confirm", "X-Skip-Login-Confirmation: 1\r\n", nil},
		{"upgrade", "Connection: Upgrade\r\nUpgrade: websocket\r\n", nil},
	}
	aclOf := map[string]string{"http.example.com": "acl", "raw.example.com": "acl", "local.example.com": "acl", "over.example.com": "acl", "oidc.example.com": "acl", "all.example.com": "nil", "none.example.com": "none", "ca.example.com": "acl"}
	protected := func(host, clean string) bool {
		switch host {
		case "all.example.com", "none.example.com", "ca.example.com":
			return true
		}
		if host == "oidc.example.com" && strings.HasPrefix(clean, "/openid/authorization") {
			return true
		}
		return strings.HasPrefix(clean, "/p/") || strings.HasPrefix(clean, "/adm")
	}
	clients := map[string]*vxClient{}
	h2c := map[string]*vxH2Client{}
	for h := range aclOf {
		clients[h] = &vxClient{p: p, d: vxDial{sni: h}}
		h2c[h] = &vxH2Client{p: p, d: vxDial{sni: h}}
	}

	probe := func(ver, host, method, target string, c cred) {
		id := strings.Join([]string{ver, host, method, target, c.name}, " ")
		if !r.Case(id) {
			return
		}
		up.take()
		up2.take()
		var status int
		var body, loc string
		if ver == "h1" {
			resp, err := clients[host].do(method, method+" "+target+" HTTP/1.1\r\nHost: "+host+"\r\n"+c.hdr+"\r\n")
			if err != nil {
				r.Violation("no-response", "%s: %v", id, err)
				return
			}
			status, body, loc = resp.Status, string(resp.Body), resp.Header.Get("Location")
		} else {
			var extra [][2]string
			for _, l := range strings.Split(strings.TrimSuffix(c.hdr, "\r\n"), "\r\n") {
				if k, v, ok := strings.Cut(l, ": "); ok {
					extra = append(extra, [2]string{strings.ToLower(k), v})
				}
			}
			resp, err := h2c[host].get(method, host, target, extra...)
			if err != nil {
				r.Violation("no-response", "%s: %v", id, err)
				return
			}
			status, body, loc = resp.Status, string(resp.Body), resp.Header.Get("Location")
		}
		r.Exec()
		r.Step(2)
		got := append(up.take(), up2.take()...)
		ok := c.ok[aclOf[host]]
		reached := len(got) > 0
		what := fmt.Sprintf("%s: status %d location %q body %.60q", id, status, loc, body)
		for _, g := range got {
			what += fmt.Sprintf(" forwarded as [%s %s %s]", g.Up, g.Method, g.URI)
		}
		r.Outcome("%s %s %d fwd=%v", host, c.name, status, reached)
		u, err := url.ParseRequestURI(target)
		clean := ""
		if err == nil {
			clean = vxClean(u.Path)
		}
		r.State(host, clean, c.name, status, reached)
		if !ok {
			// Nothing protected may come out.
			for _, g := range got {
				gu, err := url.ParseRequestURI(g.URI)
				if err != nil {
					r.Violation("unparsable-forward", "%s", what)
					continue
				}
				for _, pth := range []string{gu.Path, vxClean(gu.Path)} {
					if protected(host, pth) {
						r.Violation("protected-forwarded", "%s", what)
						return
					}
				}
			}
			if strings.Contains(body, "FILE root/p/") || strings.Contains(body, "FILE over/") {
				r.Violation("protected-file", "%s", what)
			}
			if host == "ca.example.com" && status == 200 && strings.Contains(strings.ToLower(body), "<html") && clean == "/certs" {
				r.Violation("protected-endpoint", "%s", what)
			}
			if host == "oidc.example.com" && strings.HasPrefix(loc, "https://x.example.com/") {
				r.Violation("protected-endpoint", "%s: authorization code issued", what)
			}
		}
		if err != nil || ver == "h2" && method == "CONNECT" || u.Host != "" && u.Host != host {
			return
		}
		if strings.Contains(c.hdr, "Upgrade") || target == "*" {
			return
		}
		bypass := strings.HasPrefix(clean, "/.sso/") || clean == "/.sso" || strings.HasPrefix(clean, "/cb") || clean == "/p/jwks" || clean == "/crl" || strings.HasPrefix(clean, "/openid")
		if bypass || clean == "/p" || clean == "/p/p" || clean == "/p/q" || clean == "/q" {
			return
		}
		isUp := host == "http.example.com" || host == "raw.example.com" || host == "all.example.com" || host == "none.example.com" || host == "oidc.example.com" || (host == "over.example.com" && !strings.HasPrefix(clean, "/p/p/"))
		if isUp {
			// A request that is allowed gets through.
			should := ok || (!protected(host, clean) && !protected(host, u.Path))
			if should && !reached {
				r.Violation("allowed-not-forwarded", "%s", what)
			}
			if !should && status < 300 {
				r.Violation("denied-2xx", "%s", what)
			}
			if !should && len(c.ok) == 0 && c.hdr == "" && method == "GET" && status != 403 {
				r.Violation("no-login-page", "%s", what)
			}
		}
		if host == "local.example.com" && method == "GET" && u.Path == clean && ok {
			if clean == "/p/f" && !strings.Contains(body, "FILE root/p/f") {
				r.Violation("allowed-not-served", "%s", what)
			}
		}
	}
	segs := []string{"", ".", "..", "p", "q", "f", "%2e%2e", "%70", "p%2ff", "%2fp", "..%2fp", "P", "adm", "%5c", ";x", "%252fp", "%2e"}
	depth := r.Pick(3, 4)
	r.Bound("path depth", depth)
	r.Bound("segments", len(segs))
	r.Bound("credentials", len(creds))
	// All spellings without a credential and with a wrong user.
	paths := func(d int, f func(string)) {
		vx.Sequences(len(segs), 1, d, func(seq []int) bool {
			var sb strings.Builder
			for _, s := range seq {
				sb.WriteString("/" + segs[s])
			}
			f(sb.String())
			return true
		})
	}
	for _, h := range []string{"http.example.com", "raw.example.com", "local.example.com", "over.example.com"} {
		paths(depth, func(s string) { probe("h1", h, "GET", s, creds[0]) })
		paths(depth-1, func(s string) {
			probe("h1", h, "GET", s+"/", creds[0])
			probe("h2", h, "GET", s, creds[0])
			probe("h1", h, "GET", s, creds[4])
			probe("h1", h, "GET", s, creds[1])
			probe("h1", h, "POST", s, creds[0])
		})
	}
	for _, h := range []string{"all.example.com", "none.example.com", "oidc.example.com", "ca.example.com"} {
		paths(2, func(s string) { probe("h1", h, "GET", s, creds[0]) })
	}
	// All credentials on representative spellings.
	targets := []string{"/", "/p/", "/p/f", "//p/f", "/p", "/q/../p/f", "/q/%2e%2e/p/f", "/p%2ff", "/%70/f", "/adm", "/admin", "/adm/x", "/p/q/f", "/p/p/f", "/q/f", "/p/../q/f", "/p/jwks", "/certs", "/certs/../certs", "//certs", "/crl", "/.sso/", "/.sso/login", "/.sso/../p/f", "/.sso/%2e%2e/p/f", "/.sso/x", "/.sso", "/cb", "/cb/../p/f", "/openid/authorization?client_id=c&redirect_uri=https%3A%2F%2Fx.example.com%2Fcb&response_type=code&scope=openid", "/openid//authorization?client_id=c&redirect_uri=https%3A%2F%2Fx.example.com%2Fcb&response_type=code&scope=openid", "/openid/token", "/openid/authorization/../../p/f", "/.well-known/passkey-endpoints", "/p/f?/../..", "/favicon.ico", "*"}
	for h := range aclOf {
		targets = append(targets, "https://"+h+"/p/f")
	}
	hostsSorted := []string{"http.example.com", "raw.example.com", "local.example.com", "all.example.com", "none.example.com", "over.example.com", "oidc.example.com", "ca.example.com"}
	targets = targets[:len(targets)-len(aclOf)]
	for _, h := range hostsSorted {
		for _, tg := range append(append([]string{}, targets...), "https://"+h+"/p/f", "https://"+h+"//p/f") {
			for _, c := range creds {
				for _, m := range []string{"GET", "HEAD", "POST", "OPTIONS", "PUT", "FOO"} {
					if m != "GET" && c.name != "none" && c.name != "bob" && c.name != "alice" && c.name != "expired" && !r.Thorough() {
						continue
					}
					probe("h1", h, m, tg, c)
				}
				if !strings.HasPrefix(tg, "https:") && tg != "*" && c.name != "upgrade" {
					probe("h2", h, "GET", tg, c)
				}
			}
		}
	}
	r.Sample("http.example.com protects /p/ and /adm: h1 GET /q/%%2e%%2e/%%70/f without a session")
	r.Sample("raw.example.com does not sanitize paths: h2 GET //p%%2ff with a session of a user outside of the ACL")
}
