package proxy

import (
	"crypto/x509"
	"fmt"
	"net/url"
	"path/filepath"
	"strings"
	"testing"

	"github.com/c2FmZQ/tlsproxy/internal/vx"
)

// c24Over is a path override in the reference model.
type c24Over struct {
	prefixes []string
	up       string // "" for static
	files    map[string]string
	sanitize *bool
}

type c24BE struct {
	names    []string
	up       string
	files    map[string]string
	sanitize bool
	over     []c24Over
	local    map[string]string // "host path" (host "" = any) -> kind
	prefixes map[string]bool   // local endpoints that match sub paths
	isLocal  bool
}

func TestVX(t *testing.T) {
	r := vx.Start(t, "C24")
	defer r.Done()
	base := r.Scratch("tree")
	vxWrite(t, filepath.Join(base, "s/f"), "static s")
	vxWrite(t, filepath.Join(base, "s/x/f"), "static s/x")
	vxWrite(t, filepath.Join(base, "root/f"), "static root")
	vxWrite(t, filepath.Join(base, "root/x/f"), "static root/x")
	var ups []*vxUpstream
	for i := 0; i < 9; i++ {
		ups = append(ups, vxNewUpstream(t, fmt.Sprintf("u%d", i), nil))
		defer ups[i].close()
	}
	f, tr := false, true
	p := vxStart(r, &Config{
		Backends: []*Backend{
			{ServerNames: []string{"a.example.com", "b.example.com"}, Mode: "HTTP", Addresses: []string{ups[0].addr}, ExportJWKS: "/jwks",
				PathOverrides: []*PathOverride{
					{Paths: []string{"/x/"}, Addresses: []string{ups[1].addr}},
					{Paths: []string{"/x/y/", "/w/"}, Addresses: []string{ups[2].addr}, SanitizePath: &f},
					{Paths: []string{"/s/"}, DocumentRoot: filepath.Join(base, "s")},
					{Paths: []string{"/y/x/", "/y/"}, Addresses: []string{ups[3].addr}},
				}},
			{ServerNames: []string{"c.example.com"}, Mode: "HTTP", Addresses: []string{ups[4].addr}, SanitizePath: &f,
				PathOverrides: []*PathOverride{
					{Paths: []string{"/x/y/"}, Addresses: []string{ups[5].addr}, SanitizePath: &tr},
					{Paths: []string{"/x/"}, Addresses: []string{ups[6].addr}},
				}},
			{ServerNames: []string{"h.example.com"}, Mode: "HTTP", DocumentRoot: filepath.Join(base, "root"),
				PathOverrides: []*PathOverride{
					{Paths: []string{"/w/"}, Addresses: []string{ups[7].addr}},
				}},
			{ServerNames: []string{"l.example.com"}, Mode: "LOCAL", DocumentRoot: filepath.Join(base, "root")},
			// The same server name, two backends by protocol.
			{ServerNames: []string{"d.example.com"}, Mode: "HTTP", Addresses: []string{ups[8].addr}, ALPNProtos: &[]string{"h2"}},
			{ServerNames: []string{"d.example.com"}, Mode: "HTTP", Addresses: []string{ups[0].addr}, ALPNProtos: &[]string{"http/1.1"}},
		},
		PKI: []*ConfigPKI{{Name: "ca", KeyType: "ecdsa-p256",
			IssuingCertificateURLs: []string{"https://a.example.com/x/ca"},
			CRLDistributionPoints:  []string{"https://a.example.com/crl", "https://l.example.com/crl"},
			OCSPServer:             []string{"https://c.example.com/ocsp"},
		}},
	})
	defer p.vxStop()
	rootFiles := map[string]string{"/f": "static root", "/x/f": "static root/x"}
	model := map[string]*c24BE{}
	ab := &c24BE{names: []string{"a.example.com", "b.example.com"}, up: "u0", sanitize: true,
		over: []c24Over{
			{prefixes: []string{"/x/"}, up: "u1"},
			{prefixes: []string{"/x/y/", "/w/"}, up: "u2", sanitize: &f},
			{prefixes: []string{"/s/"}, files: map[string]string{"/f": "static s", "/x/f": "static s/x"}},
			{prefixes: []string{"/y/x/", "/y/"}, up: "u3"},
		},
		local: map[string]string{" /jwks": "jwks", "a.example.com /x/ca": "cert", "a.example.com /crl": "crl"}}
	model["a.example.com"] = ab
	model["b.example.com"] = ab
	model["c.example.com"] = &c24BE{names: []string{"c.example.com"}, up: "u4", sanitize: false,
		over: []c24Over{
			{prefixes: []string{"/x/y/"}, up: "u5", sanitize: &tr},
			{prefixes: []string{"/x/"}, up: "u6"},
		},
		local: map[string]string{"c.example.com /ocsp": "ocsp"}, prefixes: map[string]bool{"c.example.com /ocsp": true}}
	model["h.example.com"] = &c24BE{names: []string{"h.example.com"}, files: rootFiles, sanitize: true,
		over: []c24Over{{prefixes: []string{"/w/"}, up: "u7"}}, local: map[string]string{}}
	model["l.example.com"] = &c24BE{names: []string{"l.example.com"}, files: rootFiles, isLocal: true,
		local: map[string]string{"l.example.com /crl": "crl"}}
	model["d.example.com h2"] = &c24BE{names: []string{"d.example.com"}, up: "u8", sanitize: true}
	model["d.example.com http/1.1"] = &c24BE{names: []string{"d.example.com"}, up: "u0", sanitize: true}

	h1 := map[string]*vxClient{}
	h2 := map[string]*vxH2Client{}
	for _, n := range []string{"a.example.com", "b.example.com", "c.example.com", "h.example.com", "l.example.com", "d.example.com"} {
		h1[n] = &vxClient{p: p, d: vxDial{sni: n}}
		h2[n] = &vxH2Client{p: p, d: vxDial{sni: n}}
	}
	kindOf := func(status int, body []byte, hdr string) string {
		switch {
		case strings.Contains(string(body), `"keys"`):
			return "jwks"
		case strings.HasPrefix(hdr, "application/x-pem-file"), strings.HasPrefix(hdr, "application/x-x509-ca-cert"), strings.HasPrefix(hdr, "application/pkix-cert"):
			return "cert"
		}
		if _, err := x509.ParseRevocationList(body); err == nil {
			return "crl"
		}
		return ""
	}

	// probe sends one request and compares what happened with the model.
	// The request before it, if any, has its own backend.
	var before []string
	probe := func(ver, sni, host, method, target string) {
		id := strings.Join([]string{ver, sni, host, method, target}, " ")
		after := ""
		if before != nil {
			id += " after " + strings.Join(before, " ")
			after = ":after"
		}
		if !r.Case(id) {
			return
		}
		if before != nil {
			if before[0] == "h1" {
				h1[before[1]].do("GET", "GET "+before[2]+" HTTP/1.1\r\nHost: "+before[1]+"\r\n\r\n")
			} else {
				h2[before[1]].get("GET", before[1], before[2])
			}
			r.Step(1)
		}
		for _, u := range ups {
			u.take()
		}
		var status int
		var body []byte
		var loc, ct, xup string
		if ver == "h1" {
			resp, err := h1[sni].do(method, method+" "+target+" HTTP/1.1\r\nHost: "+host+"\r\n\r\n")
			if err != nil {
				r.Violation("no-response", "%s: %v", id, err)
				return
			}
			status, body, loc, ct, xup = resp.Status, resp.Body, resp.Header.Get("Location"), resp.Header.Get("Content-Type"), resp.Header.Get("X-Up")
		} else {
			resp, err := h2[sni].get(method, host, target)
			if err != nil || resp.Reset || resp.Conn != nil {
				if resp != nil && resp.Reset && resp.Code == 1 {
					r.Outcome("h2 protocol error")
					return
				}
				r.Violation("no-response", "%s: %v %+v", id, err, resp)
				return
			}
			status, body, loc, ct, xup = resp.Status, resp.Body, resp.Header.Get("Location"), resp.Header.Get("Content-Type"), resp.Header.Get("X-Up")
		}
		r.Exec()
		r.Step(2)
		var got []vxUpReq
		for _, u := range ups {
			got = append(got, u.take()...)
		}
		what := fmt.Sprintf("%s: status %d location %q body %.80q upstream requests %d", id, status, loc, body, len(got))
		for _, g := range got {
			what += fmt.Sprintf(" [%s %s %s host %s]", g.Up, g.Method, g.URI, g.Host)
		}
		if len(got) > 1 {
			r.Violation("several-upstreams", "%s", what)
			return
		}
		u, err := url.ParseRequestURI(target)
		if err != nil {
			if len(got) != 0 || status < 400 {
				r.Violation("bad-target", "%s", what)
			}
			return
		}
		effHost := host
		if u.Host != "" {
			effHost = u.Host
		}
		hostname := effHost
		if i := strings.LastIndex(hostname, ":"); i >= 0 {
			hostname = hostname[:i]
		}
		m := model[sni]
		if m == nil {
			m = model[sni+map[string]string{"h1": " http/1.1", "h2": " h2"}[ver]]
		}
		clean := vxClean(u.Path)
		r.State(sni, hostname, clean, status, xup)
		r.Outcome("%s %d %s", sni, status, xup)

		fail := func(key string) { r.Violation(key+after, "%s", what) }

		if status == 400 && len(got) == 0 && strings.ContainsAny(effHost, " /\\@,") {
			return // malformed Host header
		}
		// Local endpoints first.
		for k, kind := range m.local {
			hh, pp, _ := strings.Cut(k, " ")
			if hh != "" && hh != hostname {
				continue
			}
			if clean == pp || (m.prefixes[k] && strings.HasPrefix(clean, pp+"/")) {
				if len(got) != 0 {
					fail("local-forwarded")
					return
				}
				if m.prefixes[k] && strings.HasPrefix(u.Path, pp+"/") && status/100 != 3 {
					// The rest of the path belongs to the endpoint.
					if status == 421 || xup != "" {
						fail("local-endpoint")
					}
					return
				}
				if clean != u.Path {
					lu, err := url.Parse(loc)
					if status/100 != 3 || err != nil || lu.Path != clean || lu.RawQuery != u.RawQuery {
						fail("local-clean")
					}
					return
				}
				if method != "GET" {
					return
				}
				if kind == "ocsp" {
					if status == 421 || xup != "" {
						fail("local-endpoint")
					}
					return
				}
				if kindOf(status, body, ct) != kind {
					fail("local-endpoint")
				}
				return
			}
		}
		if k := kindOf(status, body, ct); k != "" {
			fail("local-elsewhere")
			return
		}
		static := func(files map[string]string, rel string) {
			if len(got) != 0 {
				fail("static-forwarded")
				return
			}
			if method != "GET" {
				return
			}
			want, ok := files[rel]
			if clean != u.Path {
				if status == 200 {
					fail("static-unclean")
				}
				return
			}
			if ok != (status == 200) || (ok && string(body) != want) {
				fail("static")
			}
		}
		if m.isLocal {
			static(m.files, clean)
			return
		}
		okHost := false
		if effHost == "" {
			// No host in the request: the server name of the connection.
			effHost, hostname = sni, sni
		}
		for _, n := range m.names {
			okHost = okHost || n == hostname
		}
		if strings.HasSuffix(effHost, ":x") && status == 421 && len(got) == 0 {
			return // not a valid port
		}
		if !okHost {
			if len(got) != 0 {
				fail("misdirected-forwarded")
				return
			}
			if status != 421 {
				if status == 400 && (effHost == "" || strings.ContainsAny(effHost, " /\\@")) {
					return
				}
				fail("misdirected")
			}
			return
		}
		wantUp, san := m.up, m.sanitize
		for _, o := range m.over {
			hit := ""
			for _, pre := range o.prefixes {
				if clean+"/" == pre {
					lu, err := url.Parse(loc)
					if len(got) != 0 || status/100 != 3 || err != nil || lu.Path != clean+"/" || lu.Host != "" || lu.RawQuery != u.RawQuery {
						fail("prefix-redirect")
					}
					return
				}
				if strings.HasPrefix(clean, pre) {
					hit = pre
					break
				}
			}
			if hit == "" {
				continue
			}
			if o.up == "" {
				static(o.files, strings.TrimPrefix(clean, strings.TrimSuffix(hit, "/")))
				return
			}
			wantUp = o.up
			if o.sanitize != nil {
				san = *o.sanitize
			}
			break
		}
		if wantUp == "" {
			static(m.files, clean)
			return
		}
		if len(got) != 1 || got[0].Up != wantUp || xup != wantUp || status != 200 {
			what += " want " + wantUp
			fail("wrong-upstream")
			return
		}
		g := got[0]
		if g.Method != method {
			fail("method-changed")
		}
		if g.Host != effHost {
			fail("host-changed")
		}
		gp, gq, _ := strings.Cut(g.URI, "?")
		tp, tq, hasq := strings.Cut(target, "?")
		if u.Host != "" {
			tp = u.EscapedPath()
		}
		_ = hasq
		if gq != tq {
			fail("query-changed")
		}
		if san && clean != u.Path {
			gu, err := url.ParseRequestURI(gp)
			if err != nil || gu.Path != clean {
				what += " want path " + clean
				fail("path-clean")
			}
		} else if gp != tp {
			gu, err := url.ParseRequestURI(gp)
			if err != nil || gu.Path != u.Path || (gu.EscapedPath() != u.EscapedPath()) {
				what += " want path " + tp
				fail("path-changed")
			}
		}
	}

	segs := []string{"", ".", "..", "x", "y", "w", "s", "f", "ca", "%2e%2e", "x%2fy", "X", "crl", "jwks", "ocsp", "x%3f", "%20"}
	depth := r.Pick(3, 4)
	r.Bound("path depth", depth)
	r.Bound("segments", len(segs))
	paths := func(d int, f func(string)) {
		vx.Sequences(len(segs), 1, d, func(seq []int) bool {
			var sb strings.Builder
			for _, s := range seq {
				sb.WriteString("/" + segs[s])
			}
			f(sb.String())
			return true
		})
	}
	for _, n := range []string{"a.example.com", "c.example.com"} {
		paths(depth, func(s string) { probe("h1", n, n, "GET", s) })
	}
	for _, n := range []string{"b.example.com", "h.example.com", "l.example.com", "d.example.com"} {
		paths(depth-1, func(s string) { probe("h1", n, n, "GET", s) })
	}
	for n := range h2 {
		_ = n
	}
	for _, n := range []string{"a.example.com", "b.example.com", "c.example.com", "h.example.com", "l.example.com", "d.example.com"} {
		paths(depth-1, func(s string) { probe("h2", n, n, "GET", s) })
	}
	// The handler of one request doesn't depend on the one before it, whose
	// connections may still be open.
	var each [][]string
	for _, ver := range []string{"h1", "h2"} {
		for _, x := range []string{"a /f", "a /x/f", "a /w/f", "a /s/f", "a /y/f", "b /f", "b /x/f", "c /f", "c /x/f", "c /x/y/f", "h /f", "h /w/f", "l /f", "d /f"} {
			n, tg, _ := strings.Cut(x, " ")
			each = append(each, []string{ver, n + ".example.com", tg})
		}
	}
	for _, x := range each {
		for _, y := range each {
			before = x
			probe(y[0], y[1], y[1], "GET", y[2])
		}
	}
	before = nil
	targets := []string{"/", "/x", "/x/", "/x/y/z", "/x/ca", "/w/f", "/s/f", "/f", "/crl", "/crl/", "/jwks", "/ocsp", "/ocsp/MEI=", "/y/x/1", "/xy", "/x?q", "/z?a=b;c=d&e=%2f%20+", "/x/../z?../x/", "/z/%2e%2e/x/f?", "/x/%25", "/%78/f", "/q%2Fr/../x", "/é"}
	hosts := []string{"a.example.com", "b.example.com", "c.example.com", "h.example.com", "l.example.com", "d.example.com", "A.example.com", "a.example.com:443", "a.example.com:80", "b.example.com:x", "a.example.com.", "", "evil.example.org", "a.example.com@c.example.com", "127.0.0.1", "[::1]", "xa.example.com", "a.example.com, c.example.com", "c.example.com:443", "u0"}
	for _, n := range []string{"a.example.com", "b.example.com", "c.example.com", "h.example.com", "l.example.com", "d.example.com"} {
		for _, h := range hosts {
			for _, tg := range targets {
				for _, m := range []string{"GET", "POST", "DELETE"} {
					probe("h1", n, h, m, tg)
				}
				probe("h2", n, h, "GET", tg)
			}
			for _, tg := range []string{"/x/y", "/", "/crl"} {
				probe("h1", n, n, "GET", "https://"+h+tg)
			}
		}
	}
	r.Sample("h1, SNI a.example.com, Host c.example.com:443, GET /x/../w/f?q")
}
