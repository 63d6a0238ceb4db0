package proxy

import (
	"crypto/ecdsa"
	"crypto/elliptic"
	"crypto/rand"
	"crypto/sha256"
	"crypto/tls"
	"crypto/x509"
	"crypto/x509/pkix"
	"encoding/hex"
	"fmt"
	"math/big"
	"net/http"
	"sort"
	"strings"
	"testing"
	"time"

	"github.com/c2FmZQ/tlsproxy/internal/vx"
)

func c09Cert(t *testing.T) (tls.Certificate, string) {
	k, _ := ecdsa.GenerateKey(elliptic.P256(), rand.Reader)
	tmpl := &x509.Certificate{SerialNumber: big.NewInt(7), Subject: pkix.Name{CommonName: "client"},
		NotBefore: time.Now().Add(-time.Hour), NotAfter: time.Now().Add(time.Hour),
		IsCA: true, BasicConstraintsValid: true, KeyUsage: x509.KeyUsageCertSign | x509.KeyUsageDigitalSignature,
		ExtKeyUsage: []x509.ExtKeyUsage{x509.ExtKeyUsageClientAuth}, DNSNames: []string{"client.example.com"}}
	der, err := x509.CreateCertificate(rand.Reader, tmpl, tmpl, k.Public(), k)
	if err != nil {
		t.Fatal(err)
	}
	return tls.Certificate{Certificate: [][]byte{der}, PrivateKey: k}, string(pemCert(der))
}

func pemCert(der []byte) string {
	const w = 64
	b := new(strings.Builder)
	b.WriteString("-----BEGIN CERTIFICATE-----\n")
	e := b64(der)
	for len(e) > w {
		b.WriteString(e[:w] + "\n")
		e = e[w:]
	}
	b.WriteString(e + "\n-----END CERTIFICATE-----\n")
	return b.String()
}

func b64(b []byte) string {
	const tbl = "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/"
	var out []byte
	for i := 0; i < len(b); i += 3 {
		var v uint32
		n := 0
		for j := 0; j < 3; j++ {
			v <<= 8
			if i+j < len(b) {
				v |= uint32(b[i+j])
				n++
			}
		}
		for j := 0; j < 4; j++ {
			if j <= n {
				out = append(out, tbl[v>>(18-6*j)&63])
			} else {
				out = append(out, '=')
			}
		}
	}
	return string(out)
}

func TestVX(t *testing.T) {
	r := vx.Start(t, "C09")
	defer r.Done()
	vxInit(t)
	up := vxNewUpstream(t, "up", nil)
	defer up.close()
	upTC := vxCM.TLSConfig()
	upTC.NextProtos = []string{"h2", "http/1.1"}
	upTLS := vxNewUpstream(t, "uptls", upTC)
	defer upTLS.close()
	cert, certPEM := c09Cert(t)
	const issuer = "https://sso.example.com/"
	hdrs := map[string]string{"X-Email": "${JWT:email}", "X-Ip": "${REMOTE_IP}", "X-Sn": "${SERVER_NAME}", "X-Static": "v", "X-None": "${JWT:nope}", "X-Mix": "a-${JWT:email}-${NETWORK}", "X-Name": "${JWT:name}"}
	h2 := "h2"
	cfg := &Config{
		OIDCProviders: []*ConfigOIDC{vxIDP("idp", "example.com", "https://sso.example.com/cb")},
		Backends: []*Backend{
			{ServerNames: []string{"sso.example.com"}, Mode: "LOCAL"},
			{ServerNames: []string{"id.example.com"}, Mode: "HTTP", Addresses: []string{up.addr}, ForwardHTTPHeaders: hdrs,
				SSO: &BackendSSO{Provider: "idp", Paths: []string{"/p/"}, SetUserIDHeader: true},
				PathOverrides: []*PathOverride{
					{Paths: []string{"/o/"}, Addresses: []string{up.addr}, ForwardHTTPHeaders: &map[string]string{"X-Over": "${JWT:email}", "Host": "over.internal"}},
					{Paths: []string{"/n/"}, Addresses: []string{up.addr}},
					{Paths: []string{"/e/"}, Addresses: []string{up.addr}, ForwardHTTPHeaders: &map[string]string{}},
				}},
			{ServerNames: []string{"h2.example.com"}, Mode: "HTTPS", Addresses: []string{upTLS.addr}, ForwardHTTPHeaders: hdrs, BackendProto: &h2,
				ForwardServerName: "up.example.com", ForwardRootCAs: []string{vxCM.RootCAPEM()},
				SSO: &BackendSSO{Provider: "idp", Paths: []string{"/p/"}, SetUserIDHeader: true}},
			{ServerNames: []string{"noid.example.com"}, Mode: "HTTP", Addresses: []string{up.addr}, SSO: &BackendSSO{Provider: "idp", Paths: []string{"/p/"}}},
			{ServerNames: []string{"nosso.example.com"}, Mode: "HTTP", Addresses: []string{up.addr}, ForwardHTTPHeaders: hdrs},
			{ServerNames: []string{"cert.example.com"}, Mode: "HTTP", Addresses: []string{up.addr}, SSO: &BackendSSO{Provider: "idp", SetUserIDHeader: true, Paths: []string{"/p/"}},
				ClientAuth: &ClientAuth{RootCAs: []string{certPEM}, AddClientCertHeader: []string{"hash", "dns"}}},
			{ServerNames: []string{"certno.example.com"}, Mode: "HTTP", Addresses: []string{up.addr},
				ClientAuth: &ClientAuth{RootCAs: []string{certPEM}}},
		},
	}
	p := vxStart(r, cfg)
	defer p.vxStop()
	now := time.Now()
	bob := p.vxToken(r, vxSession("idp", issuer, "bob@example.net", "sso.example.com", now), "")
	inj := vxSession("idp", issuer, "bob@example.net", "sso.example.com", now)
	inj["name"] = "a\r\nX-Inj: 1"
	injTok := p.vxToken(r, inj, "")
	expired := vxSession("idp", issuer, "old@example.net", "sso.example.com", now)
	expired["exp"] = now.Add(-time.Hour).Unix()
	expTok := p.vxToken(r, expired, "")
	sum := sha256.Sum256(cert.Certificate[0])
	xfcc := "Hash=" + hex.EncodeToString(sum[:]) + ";DNS=client.example.com"

	type backend struct {
		name, path string
		sso, uid   bool
		hdrs       map[string]string
		xfcc       string
		host       string
	}
	backends := []backend{
		{"id.example.com", "/p/a", true, true, hdrs, "", ""},
		{"id.example.com", "/q", true, true, hdrs, "", ""},
		{"id.example.com", "/o/a", true, true, map[string]string{"X-Over": "${JWT:email}"}, "", "over.internal"},
		{"id.example.com", "/n/a", true, true, hdrs, "", ""},
		{"id.example.com", "/e/a", true, true, map[string]string{}, "", ""},
		{"h2.example.com", "/p/a", true, true, hdrs, "", ""},
		{"h2.example.com", "/q", true, true, hdrs, "", ""},
		{"noid.example.com", "/p/a", true, false, nil, "", ""},
		{"noid.example.com", "/q", true, false, nil, "", ""},
		{"nosso.example.com", "/q", false, false, hdrs, "", ""},
		{"cert.example.com", "/p/a", true, true, nil, xfcc, ""},
		{"cert.example.com", "/q", true, true, nil, xfcc, ""},
		{"certno.example.com", "/q", false, false, nil, "", ""},
	}
	type cred struct {
		name, cookie, bearer string
		email                string
		evil                 bool
	}
	creds := []cred{
		{"none", "", "", "", false},
		{"session", "TLSPROXYAUTH=" + bob, "", "bob@example.net", false},
		{"session+sid", "TLSPROXYAUTH=" + bob + "; TLSPROXYSID=abcdef", "", "bob@example.net", false},
		{"expired", "TLSPROXYAUTH=" + expTok, "", "", false},
		{"bearer", "", "yes", "ida@example.net", false},
		{"inject", "TLSPROXYAUTH=" + injTok, "", "bob@example.net", true},
	}
	atoms := [][2]string{
		{"X-Tlsproxy-User-Id", "evil@example.net"}, {"x-tlsproxy-user-id", ""}, {"X-TLSPROXY-USER-ID", "evil2"},
		{"X-Forwarded-For", "6.6.6.6"}, {"x-forwarded-for", "6.6.6.6, 7.7.7.7"},
		{"X-Forwarded-Client-Cert", "Hash=evil"}, {"x-FORWARDED-client-cert", "Hash=evil;DNS=x"},
		{"X-Email", "evil"}, {"X-Static", "evil"}, {"X-None", "evil"}, {"X-Ip", "6.6.6.6"},
		{"X-Custom", "keep"}, {"X-Custom2", ""}, {"Cookie", "a=b; c=d"}, {"Cookie", "TLSPROXYAUTH=zzz; e=f; TLSPROXYAUTHX=g"},
		{"Cookie", "TLSPROXYIDTOKEN=idt"}, {"Accept-Encoding", "br"}, {"User-Agent", "ua"}, {"Referer", "https://r.example/"}, {"Content-Type", "text/x"},
		{"X-Forwarded-Host", "fh"}, {"Accept", "*/*"},
	}
	conns := []string{"", "X-Tlsproxy-User-Id", "x-tlsproxy-user-id", "X-Forwarded-For", "X-Forwarded-Client-Cert", "X-Email, X-Static", "Via", "Cookie", "keep-alive, X-Ip", "X-Custom", "X-TLSPROXY-USER-ID,X-Forwarded-Client-Cert,x-mix , Host", "TE"}

	clients := map[string]*vxClient{}
	h2c := map[string]*vxH2Client{}
	for _, b := range backends {
		d := vxDial{sni: b.name}
		if b.name == "cert.example.com" || b.name == "certno.example.com" {
			d.certs = []tls.Certificate{cert}
		}
		clients[b.name] = &vxClient{p: p, d: d}
		h2c[b.name] = &vxH2Client{p: p, d: d}
	}
	norm := func(cookies []string) string {
		var out []string
		for _, l := range cookies {
			for _, c := range strings.Split(l, ";") {
				if c = strings.TrimSpace(c); c != "" {
					out = append(out, c)
				}
			}
		}
		sort.Strings(out)
		return strings.Join(out, "; ")
	}
	expand := func(v string, email string, b backend) string {
		v = strings.ReplaceAll(v, "${JWT:email}", email)
		v = strings.ReplaceAll(v, "${JWT:nope}", "")
		v = strings.ReplaceAll(v, "${JWT:name}", "")
		v = strings.ReplaceAll(v, "${REMOTE_IP}", "127.0.0.1")
		v = strings.ReplaceAll(v, "${SERVER_NAME}", b.name)
		return strings.ReplaceAll(v, "${NETWORK}", "tcp")
	}

	probe := func(ver string, b backend, c cred, conn string, as []int, body string) {
		id := fmt.Sprintf("%s %s%s %s conn=%q atoms=%v body=%q", ver, b.name, b.path, c.name, conn, as, body)
		if !r.Case(id) {
			return
		}
		up.take()
		upTLS.take()
		bearer := ""
		if c.bearer != "" {
			bearer = p.vxToken(r, vxIDToken("idp", issuer, c.email, "https://"+b.name+"/", now), "ES256")
		}
		var fields [][2]string
		if c.cookie != "" {
			fields = append(fields, [2]string{"Cookie", c.cookie})
		}
		if bearer != "" {
			fields = append(fields, [2]string{"Authorization", "Bearer " + bearer})
		}
		for _, a := range as {
			fields = append(fields, atoms[a])
		}
		method := "GET"
		if body != "" {
			method = "POST"
			fields = append(fields, [2]string{"Content-Length", fmt.Sprint(len(body))})
		}
		var status int
		target := b.path + "?q=1&r=%20;x"
		if ver == "h1" {
			var sb strings.Builder
			fmt.Fprintf(&sb, "%s %s HTTP/1.1\r\nHost: %s\r\n", method, target, b.name)
			for _, f := range fields {
				fmt.Fprintf(&sb, "%s: %s\r\n", f[0], f[1])
			}
			if conn != "" {
				fmt.Fprintf(&sb, "Connection: %s\r\n", conn)
			}
			resp, err := clients[b.name].do(method, sb.String()+"\r\n"+body)
			if err != nil {
				r.Violation("no-response", "%s: %v", id, err)
				return
			}
			status = resp.Status
		} else {
			fs := [][2]string{{":method", method}, {":scheme", "https"}, {":authority", b.name}, {":path", target}}
			for _, f := range fields {
				if f[0] == "Cookie" {
					for _, cc := range strings.Split(f[1], "; ") {
						fs = append(fs, [2]string{"cookie", cc})
					}
					continue
				}
				fs = append(fs, [2]string{strings.ToLower(f[0]), f[1]})
			}
			cl := h2c[b.name]
			var err error
			if cl.h == nil {
				cl.h, err = p.vxH2Conn(cl.d)
				if err != nil {
					r.Violation("no-response", "%s: %v", id, err)
					return
				}
			}
			var bb []byte
			if body != "" {
				bb = []byte(body)
			}
			sid, err := cl.h.request(fs, bb, nil)
			var resp *vxH2Resp
			if err == nil {
				resp, err = cl.h.response(sid)
			}
			if err != nil {
				cl.h.close()
				cl.h = nil
				r.Violation("no-response", "%s: %v", id, err)
				return
			}
			status = resp.Status
		}
		r.Exec()
		r.Step(2)
		got := append(up.take(), upTLS.take()...)
		r.Outcome("%s%s %s %d fwd=%d", b.name, b.path, c.name, status, len(got))
		connTokens := map[string]bool{}
		for _, t := range strings.Split(conn, ",") {
			connTokens[http.CanonicalHeaderKey(strings.TrimSpace(t))] = true
		}
		// The proxy's reserved names in what arrived are never the client's.
		for _, g := range got {
			for k, vs := range g.Header {
				for _, v := range vs {
					if strings.Contains(v, "evil") && !(b.hdrs == nil || b.hdrs["X-Email"] == "") {
						r.Violation("forged", "%s: upstream got %s: %q", id, k, v)
						return
					}
				}
			}
			if g.Header.Get("X-Inj") != "" {
				r.Violation("inject", "%s: upstream headers %q", id, g.Header)
			}
			for _, ck := range []string{bob, injTok} {
				for k, vs := range g.Header {
					if strings.Contains(strings.Join(vs, ";"), ck) {
						r.Violation("session-leaked", "%s: upstream got the session in %s", id, k)
						return
					}
				}
			}
		}
		if c.evil {
			return
		}
		// With "Connection: Cookie" or "Authorization" the client asks for its
		// own credential to be dropped: both readings are fine.
		allowed := strings.HasPrefix(b.path, "/p/") == false || !b.sso || c.email != ""
		if len(got) == 0 {
			if allowed && !connTokens["Cookie"] {
				r.Violation("not-forwarded", "%s: status %d", id, status)
			}
			return
		}
		if !allowed {
			r.Violation("forwarded-unauthenticated", "%s: status %d", id, status)
			return
		}
		if len(got) != 1 {
			r.Violation("several", "%s: %d upstream requests", id, len(got))
			return
		}
		g := got[0]
		email := ""
		if b.sso {
			email = c.email
		}
		if connTokens["Cookie"] && g.Header.Get("X-Tlsproxy-User-Id") == "" && b.uid && c.cookie != "" {
			email = ""
		}
		r.State(b.name, b.path, c.name, conn, fmt.Sprint(len(g.Header)), email)
		if string(g.Body) != body || g.URI != target || g.Method != method {
			r.Violation("request-changed", "%s: upstream got %s %s body %q", id, g.Method, g.URI, g.Body)
		}
		wantHost := b.name
		if b.host != "" {
			wantHost = b.host
		}
		if g.Host != wantHost {
			r.Violation("host", "%s: upstream got Host %q, want %q", id, g.Host, wantHost)
		}
		want := map[string][]string{}
		var cookies []string
		for _, f := range fields {
			k := http.CanonicalHeaderKey(f[0])
			if k == "Cookie" {
				cookies = append(cookies, f[1])
				continue
			}
			if k == "Content-Length" || connTokens[k] {
				continue
			}
			want[k] = append(want[k], f[1])
		}
		delete(want, "X-Tlsproxy-User-Id")
		delete(want, "X-Forwarded-Client-Cert")
		want["X-Forwarded-For"] = []string{"127.0.0.1"}
		if b.uid && email != "" {
			want["X-Tlsproxy-User-Id"] = []string{email}
		}
		for k, v := range b.hdrs {
			delete(want, k)
			if v = expand(v, email, b); v != "" {
				want[k] = []string{v}
			}
		}
		if b.xfcc != "" {
			want["X-Forwarded-Client-Cert"] = []string{b.xfcc}
		}
		gh := g.Header.Clone()
		if len(gh["Via"]) != 1 {
			r.Violation("via", "%s: Via %q", id, gh["Via"])
		}
		for _, k := range []string{"Via", "Content-Length", "Te"} {
			gh.Del(k)
			delete(want, k)
		}
		if _, ok := want["Accept-Encoding"]; !ok {
			gh.Del("Accept-Encoding")
		}
		var wc []string
		for _, l := range cookies {
			for _, cc := range strings.Split(l, ";") {
				cc = strings.TrimSpace(cc)
				wc = append(wc, cc)
			}
		}
		if !connTokens["Cookie"] {
			// A live session never leaves the proxy (checked above). Other
			// cookies with its name, and the identifier of the login flow, may
			// be kept or not.
			drop := func(s string) string {
				var out []string
				for _, cc := range strings.Split(s, "; ") {
					if cc != "" && !strings.HasPrefix(cc, "TLSPROXYAUTH=") && !strings.HasPrefix(cc, "TLSPROXYSID=") {
						out = append(out, cc)
					}
				}
				return strings.Join(out, "; ")
			}
			if gc, ww := drop(norm(gh["Cookie"])), drop(norm(wc)); gc != ww {
				r.Violation("cookies", "%s: upstream got cookies %q, want %q", id, gc, ww)
			}
		}
		gh.Del("Cookie")
		if g.Proto == "HTTP/2.0" {
			// Empty user agents are sent as no user agent.
			if gh.Get("User-Agent") == "" {
				gh.Del("User-Agent")
			}
		}
		for k, vs := range gh {
			if strings.Join(want[k], "|") != strings.Join(vs, "|") || len(want[k]) != len(vs) {
				key := "header-wrong:" + k
				if !strings.HasPrefix(k, "X-") {
					key = "header-changed"
				}
				r.Violation(key, "%s: upstream got %s: %q, want %q", id, k, vs, want[k])
				return
			}
		}
		for k, vs := range want {
			if _, ok := gh[k]; !ok {
				key := "header-missing:" + k
				if connTokens[k] || len(connTokens) > 0 && strings.HasPrefix(k, "X-") {
					key = "header-stripped:" + k
				}
				r.Violation(key, "%s: upstream did not get %s: %q", id, k, vs)
				return
			}
		}
	}

	n := len(atoms)
	var combos [][]int
	combos = append(combos, nil)
	for i := 0; i < n; i++ {
		combos = append(combos, []int{i})
	}
	for i := 0; i < n; i++ {
		for j := i + 1; j < n; j++ {
			combos = append(combos, []int{i, j})
		}
	}
	if r.Thorough() {
		for i := 0; i < n; i++ {
			for j := i + 1; j < n; j++ {
				for k := j + 1; k < n; k++ {
					combos = append(combos, []int{i, j, k})
				}
			}
		}
	}
	r.Bound("attacker headers per request", r.Pick(2, 3))
	r.Bound("connection options", len(conns))
	for _, b := range backends {
		for _, c := range creds {
			for _, combo := range combos {
				for _, conn := range conns {
					if !r.Thorough() && len(combo) == 2 && (conn != "" || c.name != "session") {
						continue
					}
					probe("h1", b, c, conn, combo, "")
				}
				if len(combo) < 2 || c.name == "session" {
					probe("h2", b, c, "", combo, "")
					probe("h1", b, c, "", combo, "hello body")
					probe("h2", b, c, "", combo, "hello body")
				}
			}
		}
	}
	r.Sample("cert.example.com/q with a session, Connection: X-Forwarded-Client-Cert, X-Tlsproxy-User-Id: evil@example.net")
}
