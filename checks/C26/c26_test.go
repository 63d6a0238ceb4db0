package proxy

import (
	"crypto/ed25519"
	"crypto/rand"
	"crypto/sha256"
	"crypto/tls"
	"crypto/x509"
	"crypto/x509/pkix"
	"encoding/hex"
	"encoding/pem"
	"fmt"
	"math/big"
	"net/http"
	"net/url"
	"slices"
	"strings"
	"testing"
	"time"

	"github.com/c2FmZQ/tlsproxy/internal/vx"
)

type c26Field struct{ k, v string }

// c26Parse parses one element: fields separated by ';', values optionally in
// double quotes, '\' escapes the next character. A ',' outside of quotes starts
// another element.
func c26Parse(h string) ([]c26Field, error) {
	var out []c26Field
	i := 0
	for i < len(h) {
		eq := strings.IndexByte(h[i:], '=')
		if eq < 0 {
			return nil, fmt.Errorf("no = in %q", h[i:])
		}
		k := h[i : i+eq]
		for _, c := range k {
			if !(c >= 'a' && c <= 'z' || c >= 'A' && c <= 'Z') {
				return nil, fmt.Errorf("bad key %q", k)
			}
		}
		i += eq + 1
		quoted := i < len(h) && h[i] == '"'
		if quoted {
			i++
		}
		var v []byte
		closed := false
	V:
		for i < len(h) {
			c := h[i]
			switch {
			case c == '\\':
				if i+1 >= len(h) {
					return nil, fmt.Errorf("trailing backslash")
				}
				v = append(v, h[i+1])
				i += 2
				continue
			case quoted && c == '"':
				i++
				closed = true
				break V
			case !quoted && c == ';':
				break V
			case !quoted && (c == ',' || c == '=' || c == '"'):
				return nil, fmt.Errorf("unquoted %q", c)
			}
			v = append(v, c)
			i++
		}
		if quoted && !closed {
			return nil, fmt.Errorf("unterminated quote")
		}
		out = append(out, c26Field{k, string(v)})
		if i < len(h) {
			if h[i] != ';' {
				return nil, fmt.Errorf("unexpected %q after value", h[i])
			}
			i++
			if i == len(h) {
				return nil, fmt.Errorf("trailing ;")
			}
		}
	}
	return out, nil
}

// c26Subject turns the slash-separated form back into RFC 2253 form.
func c26Subject(s string) (string, error) {
	if !strings.HasPrefix(s, "/") {
		return "", fmt.Errorf("subject does not start with /")
	}
	var parts []string
	var cur []byte
	for i := 1; i < len(s); i++ {
		switch {
		case s[i] == '\\' && i+1 < len(s):
			i++
			if s[i] != '/' {
				cur = append(cur, '\\')
			}
			cur = append(cur, s[i])
		case s[i] == '/':
			parts = append(parts, string(cur))
			cur = nil
		default:
			cur = append(cur, s[i])
		}
	}
	parts = append(parts, string(cur))
	return strings.Join(parts, ","), nil
}

func c26Expect(which []string, cert *x509.Certificate, chains [][]*x509.Certificate) []c26Field {
	var out []c26Field
	for _, f := range which {
		switch strings.ToLower(f) {
		case "hash":
			h := sha256.Sum256(cert.Raw)
			out = append(out, c26Field{"Hash", hex.EncodeToString(h[:])})
		case "cert":
			out = append(out, c26Field{"Cert", string(pem.EncodeToMemory(&pem.Block{Type: "CERTIFICATE", Bytes: cert.Raw}))})
		case "chain":
			for _, ch := range chains {
				var b []byte
				for _, c := range ch {
					b = append(b, pem.EncodeToMemory(&pem.Block{Type: "CERTIFICATE", Bytes: c.Raw})...)
				}
				out = append(out, c26Field{"Chain", string(b)})
			}
		case "subject":
			out = append(out, c26Field{"Subject", cert.Subject.String()})
		case "uri":
			for _, u := range cert.URIs {
				out = append(out, c26Field{"URI", u.String()})
			}
		case "dns":
			for _, n := range cert.DNSNames {
				out = append(out, c26Field{"DNS", n})
			}
		}
	}
	return out
}

// c26Check compares a header with the certificate. It returns a reason.
func c26Check(h string, which []string, cert *x509.Certificate, chains [][]*x509.Certificate) string {
	want := c26Expect(which, cert, chains)
	got, err := c26Parse(h)
	if err != nil {
		return fmt.Sprintf("malformed: %v in %q", err, h)
	}
	for i := range got {
		switch got[i].k {
		case "Subject":
			if got[i].v, err = c26Subject(got[i].v); err != nil {
				return fmt.Sprintf("malformed subject: %v in %q", err, h)
			}
		case "Hash":
		default:
			v, err := url.QueryUnescape(got[i].v)
			if err != nil {
				return fmt.Sprintf("malformed %s: %v", got[i].k, err)
			}
			got[i].v = v
		}
	}
	if !slices.Equal(got, want) {
		return fmt.Sprintf("parsed %q, want %q (header %q)", got, want, h)
	}
	return ""
}

func TestVX(t *testing.T) {
	r := vx.Start(t, "C26")
	defer r.Done()
	vxInit(t)
	_, key, _ := ed25519.GenerateKey(rand.Reader)
	mk := func(tmpl *x509.Certificate, parent *x509.Certificate) (*x509.Certificate, error) {
		tmpl.SerialNumber = big.NewInt(7)
		tmpl.NotBefore, tmpl.NotAfter = time.Now().Add(-time.Hour), time.Now().Add(time.Hour)
		tmpl.ExtKeyUsage = []x509.ExtKeyUsage{x509.ExtKeyUsageClientAuth}
		if parent == nil {
			parent = tmpl
		}
		der, err := x509.CreateCertificate(rand.Reader, tmpl, parent, key.Public(), key)
		if err != nil {
			return nil, err
		}
		return x509.ParseCertificate(der)
	}
	ca, err := mk(&x509.Certificate{Subject: pkix.Name{CommonName: "root"}, IsCA: true, BasicConstraintsValid: true, KeyUsage: x509.KeyUsageCertSign}, nil)
	if err != nil {
		t.Fatal(err)
	}
	toks := []string{"a", ",", ";", "=", `"`, `\`, "/", "+", " ", "#", "\r\n", "\x00", "é", "%2C", "CN=", ";By=", "<"}
	seen := map[string]string{}

	apply := func(which []string, cert *x509.Certificate, chains [][]*x509.Certificate) string {
		req := &http.Request{Header: http.Header{}, TLS: &tls.ConnectionState{PeerCertificates: []*x509.Certificate{cert}, VerifiedChains: chains}}
		addXFCCHeader(req, which)
		if v := req.Header.Values("X-Forwarded-Client-Cert"); len(v) != 1 {
			return fmt.Sprint(v)
		}
		return req.Header.Get("X-Forwarded-Client-Cert")
	}

	// Every subject, in one attribute or split over two.
	depth := r.Pick(3, 4)
	r.Bound("subject tokens", depth)
	r.Bound("token alphabet", len(toks))
	vx.Sequences(len(toks), 0, depth, func(s []int) bool {
		v := ""
		for _, i := range s {
			v += toks[i]
		}
		for split := 0; split <= len(s); split++ {
			a, b := "", ""
			for j, i := range s {
				if j < split {
					a += toks[i]
				} else {
					b += toks[i]
				}
			}
			for _, form := range []string{"CN+OU", "OU2", "O+OU"} {
				if form != "CN+OU" && (split == 0 || split == len(s)) {
					continue
				}
				id := fmt.Sprintf("subject %s %q|%q", form, a, b)
				if !r.Case(id) {
					continue
				}
				var n pkix.Name
				switch form {
				case "CN+OU":
					n.CommonName = a
					if b != "" {
						n.OrganizationalUnit = []string{b}
					}
				case "OU2":
					n.OrganizationalUnit = []string{a, b}
				case "O+OU":
					n.Organization = []string{a}
					n.OrganizationalUnit = []string{b}
				}
				cert, err := mk(&x509.Certificate{Subject: n}, ca)
				if err != nil {
					r.Outcome("certificate impossible")
					continue
				}
				h := apply([]string{"subject", "hash"}, cert, nil)
				r.Exec()
				r.Step(1)
				r.State(h[:len(h)-64])
				if why := c26Check(h, []string{"subject", "hash"}, cert, nil); why != "" {
					r.Violation("subject", "%s: %s", id, why)
				}
				sub := h[:len(h)-64]
				if old, ok := seen[sub]; ok && old != cert.Subject.String() {
					r.Violation("ambiguous", "%s: header %q also for subject %q", id, sub, old)
				}
				seen[sub] = cert.Subject.String()
				r.Outcome("subject ok")
			}
		}
		return true
	})

	// Every name.
	vx.Sequences(len(toks), 1, depth, func(s []int) bool {
		v := ""
		for _, i := range s {
			v += toks[i]
		}
		id := fmt.Sprintf("names %q", v)
		if !r.Case(id) {
			return true
		}
		var variants []*x509.Certificate
		if c, err := mk(&x509.Certificate{DNSNames: []string{v, "x.example.com"}}, ca); err == nil {
			variants = append(variants, c)
		}
		for _, us := range []string{"spiffe://d/" + v, "x:" + v, "https://h/?" + v} {
			u, err := url.Parse(us)
			if err != nil {
				continue
			}
			if c, err := mk(&x509.Certificate{URIs: []*url.URL{u, {Scheme: "u", Opaque: "2"}}}, ca); err == nil {
				variants = append(variants, c)
			}
		}
		if len(variants) == 0 {
			r.Outcome("certificate impossible")
		}
		for _, cert := range variants {
			for _, which := range [][]string{{"uri", "dns"}, {"DNS", "Hash", "URI"}} {
				h := apply(which, cert, nil)
				r.Exec()
				r.Step(1)
				if why := c26Check(h, which, cert, nil); why != "" {
					r.Violation("names", "%s: %s", id, why)
				}
				r.Outcome("names ok")
			}
		}
		return true
	})

	// Every selection of fields, in every rotation.
	fields := []string{"cert", "chain", "hash", "subject", "uri", "dns"}
	full, err := mk(&x509.Certificate{Subject: pkix.Name{CommonName: "a;b", Organization: []string{"x,y"}}, DNSNames: []string{"d1", "d2;URI=x"}, URIs: []*url.URL{{Scheme: "u", Opaque: "1,2"}, {Scheme: "v", Opaque: "3"}}}, ca)
	if err != nil {
		t.Fatal(err)
	}
	empty, _ := mk(&x509.Certificate{}, ca)
	vx.Subsets(len(fields), func(mask int) {
		for rot := 0; rot < len(fields); rot++ {
			var which []string
			for i := range fields {
				if j := (i + rot) % len(fields); mask&(1<<j) != 0 {
					which = append(which, fields[j])
				}
			}
			for ci, cert := range []*x509.Certificate{full, empty} {
				for _, chains := range [][][]*x509.Certificate{{{cert, ca}}, {{cert}, {cert, ca}}} {
					id := fmt.Sprintf("fields %v cert=%d chains=%d", which, ci, len(chains))
					if len(which) == 0 || !r.Case(id) {
						continue
					}
					h := apply(which, cert, chains)
					r.Exec()
					r.Step(1)
					r.State(id)
					if why := c26Check(h, which, cert, chains); why != "" {
						r.Violation("fields", "%s: %s", id, why)
					}
				}
			}
		}
	})

	// Through the proxy, on the wire.
	up := vxNewUpstream(t, "up", nil)
	defer up.close()
	caPEM := string(pem.EncodeToMemory(&pem.Block{Type: "CERTIFICATE", Bytes: ca.Raw}))
	sels := [][]string{{"subject"}, {"hash", "dns", "uri"}, {"Cert", "Chain", "Subject"}, {}}
	var bes []*Backend
	for i, s := range sels {
		bes = append(bes, &Backend{ServerNames: []string{fmt.Sprintf("h%d.example.com", i)}, Mode: "HTTP", Addresses: []string{up.addr},
			ClientAuth: &ClientAuth{RootCAs: []string{caPEM}, AddClientCertHeader: s}})
	}
	p := vxStart(r, &Config{Backends: bes})
	defer p.vxStop()
	vx.Sequences(len(toks), 1, 2, func(s []int) bool {
		v := ""
		for _, i := range s {
			v += toks[i]
		}
		for bi, which := range sels {
			for _, ver := range []string{"h1", "h2"} {
				id := fmt.Sprintf("wire %d %s %q", bi, ver, v)
				if !r.Case(id) {
					continue
				}
				tmpl := &x509.Certificate{Subject: pkix.Name{CommonName: v + "x"}, DNSNames: []string{"d" + v}}
				if u, err := url.Parse("x:" + v); err == nil {
					tmpl.URIs = []*url.URL{u}
				}
				cert, err := mk(tmpl, ca)
				if err != nil {
					tmpl.DNSNames = nil
					if cert, err = mk(tmpl, ca); err != nil {
						continue
					}
				}
				up.take()
				d := vxDial{sni: fmt.Sprintf("h%d.example.com", bi), certs: []tls.Certificate{{Certificate: [][]byte{cert.Raw}, PrivateKey: key}}}
				var status int
				if ver == "h1" {
					h, err := p.vxHTTPConn(d)
					if err == nil {
						var resp *vxResp
						resp, err = h.do("GET", "GET / HTTP/1.1\r\nHost: "+d.sni+"\r\nX-Forwarded-Client-Cert: Subject=evil\r\nx-forwarded-client-cert: By=evil\r\n\r\n")
						if err == nil {
							status = resp.Status
						}
						h.close()
					}
					if err != nil {
						r.Violation("wire-refused", "%s: %v", id, err)
						continue
					}
				} else {
					h, err := p.vxH2Conn(d)
					if err == nil {
						var resp *vxH2Resp
						resp, err = h.get("GET", d.sni, "/", [2]string{"x-forwarded-client-cert", "Subject=evil"}, [2]string{"x-forwarded-client-cert", "By=evil"})
						if err == nil {
							status = resp.Status
						}
						h.close()
					}
					if err != nil {
						r.Violation("wire-refused", "%s: %v", id, err)
						continue
					}
				}
				r.Exec()
				r.Step(2)
				got := up.take()
				r.Outcome("wire fields=%v status=%d forwarded=%d", which, status, len(got))
				ctl := strings.ContainsAny(v, "\r\n\x00")
				if len(got) == 0 {
					if !ctl {
						r.Violation("wire-refused", "%s: status %d", id, status)
					}
					continue
				}
				vals := got[0].Header.Values("X-Forwarded-Client-Cert")
				if len(which) == 0 {
					if len(vals) != 0 {
						r.Violation("wire", "%s: got %q", id, vals)
					}
					continue
				}
				if len(vals) != 1 {
					r.Violation("wire", "%s: got %q", id, vals)
					continue
				}
				if why := c26Check(vals[0], which, cert, [][]*x509.Certificate{{cert, ca}}); why != "" {
					r.Violation("wire", "%s: %s", id, why)
				}
			}
		}
		return true
	})
	r.Sample(`wire: CN=",;x" DNS="d,;" with fields hash, dns, uri`)
}
