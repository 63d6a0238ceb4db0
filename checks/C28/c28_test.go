package proxy

import (
	"bytes"
	"context"
	"crypto/tls"
	"crypto/x509"
	"encoding/pem"
	"fmt"
	"io"
	"net"
	"net/http"
	"net/url"
	"os"
	"path/filepath"
	"regexp"
	"runtime/debug"
	"slices"
	"strings"
	"testing"
	"time"

	yaml "gopkg.in/yaml.v3"

	"github.com/c2FmZQ/tlsproxy/internal/vnet"
	"github.com/c2FmZQ/tlsproxy/internal/vsched"
	"github.com/c2FmZQ/tlsproxy/internal/vx"
)

func c28Base() string {
	ind := func(n int, s string) string {
		return strings.ReplaceAll(strings.TrimSpace(s), "\n", "\n"+strings.Repeat(" ", n))
	}
	root := vxCM.RootCAPEM()
	return `definitions:
- &secret sesame
cacheDir: ` + simStuff.dir + `
tlsAddr: ` + simAddr + `
enableQUIC: false
maxOpen: 1000
acceptProxyHeaderFrom:
- 10.8.0.0/16
defaultServerName: t1.example.com
email: me@example.com
acceptTOS: true
revokeUnusedCertificates: false
logFilter:
  connections: false
oidc:
- name: idp
  authorizationEndpoint: https://idp.example.org/auth
  tokenEndpoint: https://idp.example.org/token
  userinfoEndpoint: https://idp.example.org/userinfo
  redirectUrl: https://login.example.com/oidc
  clientId: client
  clientSecret: *secret
  scopes:
  - openid
  domain: example.com
saml:
- name: saml
  ssoUrl: https://idp.example.org/saml
  entityId: entity
  certs: |
    ` + ind(4, root) + `
  acsUrl: https://login.example.com/saml
  domain: example.com
passkey:
- name: pk
  identityProvider: idp
  refreshInterval: 10h
  endpoint: https://login.example.com/pk
  domain: example.com
pki:
- name: ca
  keyType: ecdsa-p256
  issuingCertificateUrls:
  - https://login.example.com/ca.pem
  crlDistributionPoints:
  - https://login.example.com/crl
  ocspServers:
  - https://login.example.com/ocsp
  endpoint: https://login.example.com/pki
  admins:
  - admin@example.com
sshCertificateAuthorities:
- name: ssh
  keyType: ed25519
  publicKeyEndpoint: https://login.example.com/ssh.pub
  certificateEndpoint: https://login.example.com/ssh
tlsCertificates:
- serverNames:
  - own.example.com
  key: /nowhere/key.pem
  cert: /nowhere/cert.pem
bwLimits:
- name: slow
  ingress: 100000
  egress: 100000
webSockets:
- endpoint: wss://login.example.com/ws
  address: 192.168.1.1:80
backends:
- serverNames:
  - t1.example.com
  - Bücher.example.com
  mode: tcp
  addresses:
  - 192.168.1.1:80
  allowIPs:
  - 0.0.0.0/0
  denyIPs:
  - 10.9.0.0/16
  clientAuth:
    acl:
    - CN=client
    rootCAs:
    - ca
    - |
      ` + ind(6, root) + `
    addClientCertHeader:
    - hash
  bwLimit: slow
  forwardRateLimit: 100000
  forwardTimeout: 20s
  proxyProtocolVersion: v2
  halfCloseTimeout: 10s
  serverCloseEndsConnection: false
  clientCloseEndsConnection: true
- serverNames:
  - h1.example.com
  mode: HTTP
  addresses:
  - 192.168.1.3:80
  alpnProtos:
  - h2
  - http/1.1
  backendProto: http/1.1
  forwardRateLimit: 100000
  forwardServerName: inside.example.com
  forwardRootCAs:
  - ca
  insecureSkipVerify: false
  sanitizePath: true
  exportJwks: /jwks
  forwardHttpHeaders:
    x-a: b
  logFilter:
    requests: false
  sso:
    provider: idp
    forceReAuth: 1h
    acl:
    - "@example.com"
    paths:
    - /private/
    setUserIdHeader: true
    generateIdTokens: true
    localOIDCServer:
      pathPrefix: /op
      clients:
      - id: rp
        secret: *secret
        redirectUri:
        - https://rp.example.com/cb
      rewriteRules:
      - inputClaim: email
        outputClaim: preferred_username
        regex: ^([^@]+)@
        value: $1
  pathOverrides:
  - paths:
    - /other/
    mode: https
    addresses:
    - 192.168.1.4:443
    backendProto: h2
    forwardRootCAs:
    - ca
    forwardServerName: other.example.com
    forwardTimeout: 10s
    proxyProtocolVersion: v1
    forwardHttpHeaders:
      x-b: c
    sanitizePath: false
    insecureSkipVerify: true
- serverNames:
  - login.example.com
  mode: LOCAL
  sso:
    provider: pk
- serverNames:
  - console.example.com
  mode: CONSOLE
- serverNames:
  - pt.example.com
  mode: TLSPASSTHROUGH
  addresses:
  - 192.168.1.2:443
- serverNames:
  - st.example.com
  mode: HTTPS
  documentRoot: /nowhere
- serverNames:
  - t2.example.com
  mode: TLS
  addresses:
  - 192.168.1.2:443
  alpnProtos: []
  forwardRateLimit: 100000
`
}

// c28Valid is what the documentation says about a configuration that was
// decoded but not checked. It returns the first rule that is broken, and
// whether that can't be known.
func c28Valid(c *Config) (string, bool) {
	nilIn := func(n int, f func(i int) bool) bool {
		for i := 0; i < n; i++ {
			if f(i) {
				return true
			}
		}
		return false
	}
	switch {
	case nilIn(len(c.OIDCProviders), func(i int) bool { return c.OIDCProviders[i] == nil }),
		nilIn(len(c.SAMLProviders), func(i int) bool { return c.SAMLProviders[i] == nil }),
		nilIn(len(c.PasskeyProviders), func(i int) bool { return c.PasskeyProviders[i] == nil }),
		nilIn(len(c.PKI), func(i int) bool { return c.PKI[i] == nil }),
		nilIn(len(c.SSHCertificateAuthorities), func(i int) bool { return c.SSHCertificateAuthorities[i] == nil }),
		nilIn(len(c.TLSCertificates), func(i int) bool { return c.TLSCertificates[i] == nil }),
		nilIn(len(c.BWLimits), func(i int) bool { return c.BWLimits[i] == nil }),
		nilIn(len(c.WebSockets), func(i int) bool { return c.WebSockets[i] == nil }),
		nilIn(len(c.Backends), func(i int) bool { return c.Backends[i] == nil }):
		return "empty element", false
	}
	cidrs := func(l []string) bool {
		for _, s := range l {
			if _, _, err := net.ParseCIDR(s); err != nil {
				return false
			}
		}
		return true
	}
	if !cidrs(c.AcceptProxyHeaderFrom) {
		return "acceptProxyHeaderFrom", false
	}
	if c.EnableQUIC != nil && *c.EnableQUIC && !quicIsEnabled {
		return "enableQUIC", false
	}
	host := func(s string) (string, bool) {
		u, err := url.Parse(s)
		if err != nil {
			return "", false
		}
		return idnaToASCII(u.Hostname()), true
	}
	within := func(dom, u string) bool {
		if dom == "" {
			return true
		}
		h, ok := host(u)
		d := idnaToASCII(strings.TrimPrefix(dom, "."))
		return ok && (h == d || strings.HasSuffix(h, "."+d))
	}
	provs := map[string]bool{}
	for _, o := range c.OIDCProviders {
		if provs[o.Name] {
			return "duplicate provider", false
		}
		provs[o.Name] = true
		if o.DiscoveryURL == "" && (o.AuthEndpoint == "" || o.TokenEndpoint == "") || o.RedirectURL == "" || o.ClientID == "" || o.ClientSecret == "" {
			return "oidc: missing field", false
		}
		for _, u := range []string{o.DiscoveryURL, o.AuthEndpoint, o.TokenEndpoint, o.RedirectURL} {
			if _, err := url.Parse(u); err != nil {
				return "oidc: URL", false
			}
		}
		if !within(o.Domain, o.RedirectURL) {
			return "oidc: domain", false
		}
	}
	for _, s := range c.SAMLProviders {
		if provs[s.Name] {
			return "duplicate provider", false
		}
		provs[s.Name] = true
		if s.SSOURL == "" || s.EntityID == "" || s.Certs == "" || s.ACSURL == "" {
			return "saml: missing field", false
		}
		for _, u := range []string{s.SSOURL, s.ACSURL} {
			if _, err := url.Parse(u); err != nil {
				return "saml: URL", false
			}
		}
		if !within(s.Domain, s.ACSURL) {
			return "saml: domain", false
		}
		if !c28PEM(s.Certs) {
			return "saml: certs", false
		}
	}
	for _, p := range c.PasskeyProviders {
		if provs[p.Name] {
			return "duplicate provider", false
		}
		if p.Endpoint == "" || !provs[p.IdentityProvider] || p.IdentityProvider == "" {
			return "passkey: missing field", false
		}
		provs[p.Name] = true
		if !within(p.Domain, p.Endpoint) {
			return "passkey: domain", false
		}
	}
	modes := []string{"", "PLAINTEXT", "TCP", "TLS", "TLSPASSTHROUGH", "QUIC", "HTTP", "HTTPS", "LOCAL", "CONSOLE"}
	mode := func(be *Backend) string {
		m := strings.ToUpper(be.Mode)
		if m == "" || m == "PLAINTEXT" {
			return "TCP"
		}
		return m
	}
	names := map[string]string{}
	type np struct{ n, p string }
	seen := map[np]bool{}
	doubt := false
	for _, be := range c.Backends {
		if !slices.Contains(modes, strings.ToUpper(be.Mode)) || mode(be) == "QUIC" && !quicIsEnabled {
			if mode(be) == "QUIC" {
				doubt = true
			} else {
				return "mode", false
			}
		}
		m := mode(be)
		web := m == "HTTP" || m == "HTTPS"
		if m == "TLSPASSTHROUGH" && be.ClientAuth != nil {
			return "clientAuth", false
		}
		if be.BackendProto != nil && !web {
			return "backendProto", false
		}
		if len(be.ServerNames) == 0 {
			return "serverNames", false
		}
		protos := []string{"h2", "http/1.1"}
		if be.ALPNProtos != nil {
			protos = *be.ALPNProtos
		}
		for _, n := range be.ServerNames {
			n = idnaToASCII(n)
			if _, dup := names[n]; dup && len(protos) == 0 {
				return "duplicate name", false
			}
			if names[n] == "" {
				names[n] = m
			}
			for _, p := range protos {
				if seen[np{n, p}] {
					return "duplicate name", false
				}
				seen[np{n, p}] = true
			}
		}
		local := m == "LOCAL" || m == "CONSOLE"
		if local && len(be.Addresses) > 0 || !local && !web && len(be.Addresses) == 0 {
			return "addresses", false
		}
		if be.DocumentRoot != "" && len(be.Addresses) > 0 {
			return "documentRoot", false
		}
		if be.AllowIPs != nil && !cidrs(*be.AllowIPs) || be.DenyIPs != nil && !cidrs(*be.DenyIPs) {
			return "CIDR", false
		}
		if v := be.ProxyProtocolVersion; v != "" && v != "v1" && v != "v2" {
			return "proxyProtocolVersion", false
		}
		if len(be.PathOverrides) > 0 && !web {
			return "pathOverrides", false
		}
		for _, po := range be.PathOverrides {
			if po == nil {
				return "empty element", false
			}
			if len(po.Paths) == 0 {
				return "pathOverrides: paths", false
			}
			for _, p := range po.Paths {
				if !strings.HasPrefix(p, "/") || !strings.HasSuffix(p, "/") {
					return "pathOverrides: paths", false
				}
			}
			if u := strings.ToUpper(po.Mode); u != "" && u != "HTTP" && u != "HTTPS" {
				return "pathOverrides: mode", false
			}
			if v := po.ProxyProtocolVersion; v != "" && v != "v1" && v != "v2" {
				return "proxyProtocolVersion", false
			}
		}
		if be.SSO != nil && !web && !local {
			return "sso", false
		}
	}
	pkis := map[string]bool{}
	for _, p := range c.PKI {
		if p.Name == "" || pkis[p.Name] {
			return "pki: name", false
		}
		pkis[p.Name] = true
		if p.Endpoint != "" {
			h, ok := host(p.Endpoint)
			if !ok || names[h] != "LOCAL" && names[h] != "CONSOLE" {
				return "pki: endpoint", false
			}
		}
		if k := p.KeyType; k != "" && !slices.Contains([]string{"ecdsa-p224", "ecdsa-p256", "ecdsa-p384", "ecdsa-p521", "ed25519", "rsa-2048", "rsa-3072", "rsa-4096"}, k) {
			doubt = true
		}
	}
	sshs := map[string]bool{}
	for _, p := range c.SSHCertificateAuthorities {
		if p.Name == "" || sshs[p.Name] {
			return "ssh: name", false
		}
		sshs[p.Name] = true
		if p.CertificateEndpoint != "" {
			h, ok := host(p.CertificateEndpoint)
			if _, def := names[h]; !ok || !def {
				return "ssh: endpoint", false
			}
		}
		if k := p.KeyType; k != "" && !slices.Contains([]string{"ecdsa-p256", "ecdsa-p384", "ecdsa-p521", "ed25519", "rsa-2048", "rsa-3072", "rsa-4096"}, k) {
			doubt = true
		}
	}
	bws := map[string]bool{}
	for _, b := range c.BWLimits {
		if bws[b.Name] {
			return "bwLimits", false
		}
		bws[b.Name] = true
	}
	roots := func(l []string) bool {
		for _, s := range l {
			if !pkis[s] && !x509.NewCertPool().AppendCertsFromPEM([]byte(s)) {
				return false
			}
		}
		return true
	}
	for _, be := range c.Backends {
		if be.BWLimit != "" && !bws[be.BWLimit] {
			return "bwLimit", false
		}
		if ca := be.ClientAuth; ca != nil {
			if !roots(ca.RootCAs) {
				return "clientAuth: rootCAs", false
			}
			for _, f := range ca.AddClientCertHeader {
				if !slices.Contains([]string{"cert", "chain", "hash", "subject", "uri", "dns"}, strings.ToLower(f)) {
					return "addClientCertHeader", false
				}
			}
		}
		if !roots(be.ForwardRootCAs) {
			return "forwardRootCAs", false
		}
		for _, po := range be.PathOverrides {
			if !roots(po.ForwardRootCAs) {
				return "forwardRootCAs", false
			}
		}
		if s := be.SSO; s != nil {
			if !provs[s.Provider] {
				return "sso: provider", false
			}
			if l := s.LocalOIDCServer; l != nil {
				for _, cl := range l.Clients {
					if cl == nil {
						return "empty element", false
					}
					if cl.ID == "" || cl.Secret == "" || len(cl.RedirectURI) == 0 {
						return "localOIDCServer: client", false
					}
				}
				for _, rr := range l.RewriteRules {
					if rr == nil {
						return "empty element", false
					}
					if _, err := regexp.Compile(rr.Regex); err != nil || rr.Regex == "" || rr.InputClaim == "" || rr.OutputClaim == "" {
						return "localOIDCServer: rule", false
					}
				}
			}
		}
	}
	return "", doubt
}

// c28PEM returns whether s consists of certificates.
func c28PEM(s string) bool {
	if strings.HasPrefix(s, "/") {
		b, err := os.ReadFile(s)
		if err != nil {
			return false
		}
		s = string(b)
	}
	n := 0
	b := []byte(s)
	for {
		p, rest := pem.Decode(b)
		if p == nil {
			return n > 0
		}
		if p.Type == "CERTIFICATE" {
			if _, err := x509.ParseCertificate(p.Bytes); err != nil {
				return false
			}
			n++
		}
		b = rest
	}
}

// c28Mut changes a document in one place.
type c28Mut struct {
	name  string
	apply func(doc *yaml.Node) // doc is a copy
	path  string
}

func c28Copy(n *yaml.Node) *yaml.Node {
	if n == nil {
		return nil
	}
	m := *n
	m.Content = nil
	for _, c := range n.Content {
		m.Content = append(m.Content, c28Copy(c))
	}
	return &m
}

func c28At(doc *yaml.Node, path []int) *yaml.Node {
	n := doc
	for _, i := range path {
		if i >= len(n.Content) {
			return nil
		}
		n = n.Content[i]
	}
	return n
}

func c28Lit(s string) *yaml.Node {
	var d yaml.Node
	if err := yaml.Unmarshal([]byte(s), &d); err != nil {
		panic(err)
	}
	return d.Content[0]
}

// c28Values are the interesting values of some fields.
var c28Values = map[string][]string{
	"mode":                  {"plaintext", "tcp", "TLS", "tlspassthrough", "quic", "HTTP", "https", "local", "console", "ftp", "HTTP "},
	"proxyProtocolVersion":  {"v0", "v1", "v2", "v3", "v-1", "v+1", "v", "1", "v01", "V1", "v257", "v1x"},
	"provider":              {"idp", "saml", "pk", "IDP", "nobody"},
	"identityProvider":      {"idp", "saml", "pk", "nobody"},
	"bwLimit":               {"slow", "Slow", "fast"},
	"endpoint":              {"https://h1.example.com/x", "https://console.example.com/x", "https://t1.example.com/x", "https://nowhere.example.com/x", "https://LOGIN.example.com/x", "https://login.example.com:8443/x", "%zz", "login.example.com/x", "https://[::1/x"},
	"certificateEndpoint":   {"https://h1.example.com/x", "https://nowhere.example.com/x", "%zz", "/x"},
	"publicKeyEndpoint":     {"https://nowhere.example.com/x", "%zz"},
	"redirectUrl":           {"https://h1.example.com/x", "https://notexample.com/x", "https://example.com/x", "%zz", "/x"},
	"acsUrl":                {"https://h1.example.com/x", "https://notexample.com/x", "https://example.com/x", "%zz", "/x"},
	"authorizationEndpoint": {"%zz", "/auth"},
	"tokenEndpoint":         {"%zz"},
	"ssoUrl":                {"%zz"},
	"domain":                {"ample.com", ".example.com", "login.example.com", "xlogin.example.com", "EXAMPLE.com", "com", "other.org", "/"},
	"name":                  {"idp", "saml", "pk", "ca", "ssh", "slow"},
	"serverNames":           {"[t1.example.com]", "[T1.EXAMPLE.com]", "[xn--bcher-kva.example.com]", "[pt.example.com, pt.example.com]", "[new.example.com]"},
	"alpnProtos":            {"[h2]", "[h2, h2]", "[http/1.1]", "[x]", "[h3, h2]"},
	"acceptProxyHeaderFrom": {"[10.0.0.1]", "[10.0.0.0/33]", "['::/0']", "[10.0.0.0/8, x]"},
	"allowIPs":              {"[10.0.0.1]", "[10.0.0.0/33]", "['::/0']", "[10.0.0.0/8, x]"},
	"denyIPs":               {"[10.0.0.1]", "[10.0.0.0/33]", "['::/0']", "[10.0.0.0/8, x]"},
	"rootCAs":               {"[ca]", "[nothere]", "[ca, nothere]", "['']", "[/nowhere/ca.pem]"},
	"forwardRootCAs":        {"[ca]", "[nothere]", "[ca, nothere]", "['']", "[/nowhere/ca.pem]"},
	"addClientCertHeader":   {"[HASH, cert, Chain, subject, uri, dns]", "[by]", "[hash, '']"},
	"regex":                 {"'('", "'a{2,1}'", "'['", "'.*'"},
	"paths":                 {"[/a]", "[a/]", "[/, /a/]", "[/a/, b]"},
	"documentRoot":          {"/nowhere"},
	"enableQUIC":            {"true"},
	"keyType":               {"ecdsa-p384", "rsa-1", "ED25519"},
	"addresses":             {"[192.168.1.1:80, 192.168.1.2:80]", "[x]"},
	"backendProto":          {"''", "h3", "x"},
	"certs":                 {"nocerts", "/nowhere/c.pem"},
	"discoveryUrl":          {"%zz"},
	"forwardServerName":     {"BÜCHER.example.com"},
	"defaultServerName":     {"BÜCHER.example.com", "nowhere"},
	"ingress":               {".5", "1e9"},
	"refreshInterval":       {"1x"},
	"halfCloseTimeout":      {"0s", "1"},
}

// c28Adds are fields that can be added.
var c28Adds = []struct{ at, key, val string }{
	{"backends/0", "backendProto", "h2"}, {"backends/0", "documentRoot", "/nowhere"}, {"backends/0", "pathOverrides", "[{paths: [/x/]}]"},
	{"backends/2", "addresses", "['192.168.1.1:80']"}, {"backends/3", "addresses", "['192.168.1.1:80']"}, {"backends/4", "clientAuth", "{}"}, {"backends/2", "clientAuth", "{acl: []}"},
	{"backends/3", "sso", "{provider: saml}"}, {"backends/4", "sso", "{provider: saml}"}, {"backends/0", "sso", "{provider: saml}"}, {"backends/6", "sso", "{provider: idp}"}, {"backends/5", "sso", "{provider: pk}"},
	{"backends/5", "pathOverrides", "[{paths: [/x/], documentRoot: /nowhere}]"}, {"backends/5", "addresses", "['192.168.1.1:80']"}, {"backends/5", "backendProto", "''"},
	{"backends/2", "bwLimit", "slow"}, {"backends/6", "bwLimit", "fast"}, {"oidc/0", "discoveryUrl", "'%zz'"}, {"backends/6", "forwardRootCAs", "[nothere]"},
}

func c28Mutations(doc *yaml.Node) []c28Mut {
	var out []c28Mut
	var walk func(n *yaml.Node, path []int, name, key string)
	walk = func(n *yaml.Node, path []int, name, key string) {
		at := append([]int{}, path...)
		add := func(what string, f func(n *yaml.Node)) {
			out = append(out, c28Mut{name + "=" + what, func(d *yaml.Node) {
				if n := c28At(d, at); n != nil {
					f(n)
				}
			}, name})
		}
		set := func(v string) {
			add(v, func(n *yaml.Node) { *n = *c28Lit(v) })
		}
		for _, v := range []string{"null", "''", "[]", "{}", "x", "-1", "[null]", "[x]", "true"} {
			set(v)
		}
		for _, v := range c28Values[key] {
			if !strings.HasPrefix(v, "[") && !strings.HasPrefix(v, "'") && !strings.HasPrefix(v, ".5") && !strings.HasPrefix(v, "1e") && v != "true" {
				v = "'" + v + "'"
			}
			set(v)
		}
		if key == "certs" {
			add("cert+garbage", func(n *yaml.Node) { n.Value += "garbage\n" })
			add("garbage+cert", func(n *yaml.Node) { n.Value = "garbage\n" + n.Value })
			add("cert+cert", func(n *yaml.Node) { n.Value += n.Value })
			add("other-block", func(n *yaml.Node) { n.Value = "-----BEGIN X-----\nAAAA\n-----END X-----\n" })
			add("bad-block", func(n *yaml.Node) { n.Value = "-----BEGIN CERTIFICATE-----\nAAAA\n-----END CERTIFICATE-----\n" })
			add("newline", func(n *yaml.Node) { n.Value += "\n\n" })
		}
		switch n.Kind {
		case yaml.MappingNode:
			add("unknown-key", func(n *yaml.Node) { n.Content = append(n.Content, c28Lit("zzunknown"), c28Lit("1")) })
			for i := 0; i+1 < len(n.Content); i += 2 {
				k := n.Content[i].Value
				if k == "definitions" || k == "cacheDir" || k == "tlsAddr" {
					continue
				}
				i := i
				add("no-"+k, func(n *yaml.Node) { n.Content = slices.Delete(n.Content, i, i+2) })
				add("twice-"+k, func(n *yaml.Node) { n.Content = append(n.Content, c28Copy(n.Content[i]), c28Copy(n.Content[i+1])) })
				add("upper-"+k, func(n *yaml.Node) { n.Content[i].Value = strings.ToUpper(k) })
				walk(n.Content[i+1], append(at, i+1), name+"/"+k, k)
			}
		case yaml.SequenceNode:
			add("append-null", func(n *yaml.Node) { n.Content = append(n.Content, c28Lit("null")) })
			add("prepend-null", func(n *yaml.Node) { n.Content = append([]*yaml.Node{c28Lit("null")}, n.Content...) })
			for i, c := range n.Content {
				i := i
				add(fmt.Sprintf("no-%d", i), func(n *yaml.Node) { n.Content = slices.Delete(n.Content, i, i+1) })
				add(fmt.Sprintf("twice-%d", i), func(n *yaml.Node) { n.Content = append(n.Content, c28Copy(n.Content[i])) })
				if i > 0 {
					add(fmt.Sprintf("swap-%d", i), func(n *yaml.Node) { n.Content[0], n.Content[i] = n.Content[i], n.Content[0] })
				}
				walk(c, append(at, i), fmt.Sprintf("%s/%d", name, i), "")
			}
		}
	}
	walk(doc, nil, "", "")
	for _, a := range c28Adds {
		a := a
		out = append(out, c28Mut{"/" + a.at + "+" + a.key + "=" + a.val, func(d *yaml.Node) {
			n := d
			for _, k := range strings.Split(a.at, "/") {
				var next *yaml.Node
				if n.Kind == yaml.SequenceNode {
					if i := int(k[0] - '0'); i < len(n.Content) {
						next = n.Content[i]
					}
				} else {
					for i := 0; i+1 < len(n.Content); i += 2 {
						if n.Content[i].Value == k {
							next = n.Content[i+1]
						}
					}
				}
				if next == nil {
					return
				}
				n = next
			}
			if n.Kind != yaml.MappingNode {
				return
			}
			for i := 0; i+1 < len(n.Content); i += 2 {
				if n.Content[i].Value == a.key {
					n.Content[i+1] = c28Lit(a.val)
					return
				}
			}
			n.Content = append(n.Content, c28Lit(a.key), c28Lit(a.val))
		}, "/" + a.at + "/" + a.key})
	}
	return out
}

func c28Doc() *yaml.Node {
	// Aliases are expanded.
	var v any
	text := c28Base()
	var d yaml.Node
	if err := yaml.Unmarshal([]byte(text), &d); err != nil {
		panic(err)
	}
	_ = v
	var expand func(n *yaml.Node) *yaml.Node
	expand = func(n *yaml.Node) *yaml.Node {
		if n.Kind == yaml.AliasNode {
			m := c28Copy(n.Alias)
			m.Anchor = ""
			return m
		}
		n.Anchor = ""
		for i := range n.Content {
			n.Content[i] = expand(n.Content[i])
		}
		return n
	}
	return expand(d.Content[0])
}

type c28Result struct {
	cfg   *Config
	err   error
	panic string
}

func c28Read(file string) (res c28Result) {
	defer func() {
		if e := recover(); e != nil {
			res.panic = fmt.Sprint(e)
			if vxVerbose() {
				debug.PrintStack()
			}
		}
	}()
	res.cfg, res.err = ReadConfig(file)
	return
}

func vxVerbose() bool { return os.Getenv("VX_VERBOSE") != "" }

func c28Reconfigure(p *Proxy, cfg *Config) (err error, pan string) {
	defer func() {
		if e := recover(); e != nil {
			pan = fmt.Sprint(e)
			if vxVerbose() {
				debug.PrintStack()
			}
		}
	}()
	return p.Reconfigure(cfg), ""
}

func TestVX(t *testing.T) {
	r := vx.Start(t, "C28")
	defer r.Done()
	simInit(r, "t1.example.com", "t2.example.com", "h1.example.com", "h2.example.com", "pt.example.com", "login.example.com", "console.example.com", "st.example.com", "xn--bcher-kva.example.com", "inside.example.com")
	debug.SetGCPercent(800)
	debug.SetMemoryLimit(1 << 30)
	c28Texts(r)
	c28Mutants(r)
	c28Histories(r)
	c28Slow(r)
	c28Late(r)
	c28Races(r)
}

// c28Good is the configuration of the running proxy.
func c28Good(v int) *Config {
	up := fmt.Sprintf("192.168.2.%d:80", v)
	bes := []*Backend{
		{ServerNames: []string{"t1.example.com"}, Mode: "TCP", Addresses: []string{up}, BWLimit: "slow"},
		{ServerNames: []string{"h1.example.com"}, Mode: "HTTP", Addresses: []string{fmt.Sprintf("192.168.3.%d:80", v)}},
		{ServerNames: []string{fmt.Sprintf("h%d.example.com", v+1)}, Mode: "LOCAL"},
	}
	if v == 2 {
		bes[2].ServerNames = []string{"login.example.com"}
	}
	bes = append(bes, &Backend{ServerNames: []string{"t2.example.com"}, Mode: "TCP", Addresses: []string{fmt.Sprintf("192.168.2.%d:80", 3-v)}})
	cfg := simCfg(bes...)
	cfg.BWLimits = []*BWLimit{{Name: "slow", Ingress: float64(1000000 * v), Egress: float64(1000000 * v)}}
	cfg.DefaultServerName = fmt.Sprintf("t%d.example.com", v)
	return cfg
}

type c28World struct {
	s *sim
	x *vsched.X
}

func c28Sim(x *vsched.X, cfg *Config) *c28World {
	w := &c28World{newSim(x, cfg), x}
	for v := 1; v <= 2; v++ {
		v := v
		w.s.upstream(fmt.Sprintf("192.168.2.%d:80", v), func(c *vnet.VConn) {
			defer c.Close()
			fmt.Fprintf(c, "T%d", v)
			io.Copy(c, c)
		})
		w.s.webUpstream(fmt.Sprintf("192.168.3.%d:80", v), "", http.HandlerFunc(func(w http.ResponseWriter, req *http.Request) { fmt.Fprintf(w, "H%d", v) }))
	}
	return w
}

func (w *c28World) limits() string {
	l := w.s.p.bwLimits["slow"]
	if l == nil {
		return ""
	}
	return fmt.Sprintf("%v/%v/%v/%v", float64(l.ingress.Limit()), float64(l.egress.Limit()), l.ingress.Burst(), l.egress.Burst())
}

// tcp opens a connection and returns what it gets.
func (w *c28World) tcp(sni string) (*tls.Conn, string) {
	raw, err := w.x.N.Dial(context.Background(), w.s.addr, "10.0.0.7", false)
	if err != nil {
		return nil, simErr(err)
	}
	w.x.Cleanup(raw.Reset)
	raw.SetDeadline(time.Now().Add(simPatience))
	tc := simTLSConfig(sni, nil, nil)
	if sni == "" {
		tc.InsecureSkipVerify = true
	}
	c := tls.Client(raw, tc)
	if err := c.Handshake(); err != nil {
		raw.Close()
		return nil, simErr(err)
	}
	b := make([]byte, 2)
	if _, err := io.ReadFull(c, b); err != nil {
		raw.Close()
		return nil, simErr(err)
	}
	return c, string(b)
}

// probe describes the service.
func (w *c28World) probe(name string) string {
	var out []string
	c, s := w.tcp("t1.example.com")
	out = append(out, s)
	if c != nil {
		c.Close()
	}
	c, s = w.tcp("")
	out = append(out, s)
	if c != nil {
		c.Close()
	}
	for _, h := range []string{"h1.example.com", "h2.example.com", "login.example.com"} {
		c, err := w.s.dial(name, h, []string{"http/1.1"}, "10.0.0.7", nil)
		if err != nil {
			out = append(out, simErr(err))
			continue
		}
		st, b, err := c.get(h, "/")
		if err != nil {
			out = append(out, simErr(err))
		} else if st != 200 {
			out = append(out, fmt.Sprint(st))
		} else {
			out = append(out, b)
		}
		c.raw.Close()
	}
	return strings.Join(out, " ") + " " + w.limits()
}

func c28Texts(r *vx.R) {
	texts := []string{
		"", " ", "---", "null", "[]", "{}", "x", "- x", "backends:", "backends: x", "backends: [[]]", "backends:\n- ", "a: b", "!!binary x", "? {a: b}\n: c", "{[]: 1}", "&a [*a]", "a: &a\n  b: *a",
		"backends: &a [*a]", "definitions: &a [*a]\nbackends: []", "definitions: {[]: {}}\nbackends: []", "tlsAddr: !!binary /w==", "maxOpen: 99999999999999999999", "maxOpen: 0x10", "email: !!int x", "<<: {a: 1}", "<<: [1]", "<<: *x",
		"definitions:\n  x: &x {mode: LOCAL, serverNames: [login.example.com]}\nbackends:\n- <<: *x\n- <<: *x\n  serverNames: [h1.example.com]\n", "\x00", "\xff\xfe", "backends: []\n---\nbackends: []\n", "backends: []\n...\nx",
		"a: *b", "- &a b\n- *a", "backends: !!set {x}", "%YAML 9.9\n---\n{}", "\t", "'", "\"\\u", "backends:\n  - mode: LOCAL\n   serverNames: []", strings.Repeat("[", 20000), strings.Repeat("{a: ", 20000), "bwLimits:\n- name: x\n  ingress: .nan\n  egress: -.inf\n",
		"definitions:\n a: &a [x,x,x,x,x,x,x,x,x]\n b: &b [*a,*a,*a,*a,*a,*a,*a,*a,*a]\n c: &c [*b,*b,*b,*b,*b,*b,*b,*b,*b]\n d: &d [*c,*c,*c,*c,*c,*c,*c,*c,*c]\n e: &e [*d,*d,*d,*d,*d,*d,*d,*d,*d]\n f: &f [*e,*e,*e,*e,*e,*e,*e,*e,*e]\n g: [*f,*f,*f,*f,*f,*f,*f,*f,*f]\nbackends: []\n",
	}
	for i, text := range texts {
		id := fmt.Sprintf("text/%d", i)
		if !r.Case(id) {
			continue
		}
		r.Exec()
		r.Step(1)
		file := filepath.Join(r.Scratch("c28"), "config.yaml")
		if err := os.WriteFile(file, []byte("cacheDir: "+simStuff.dir+"\n"+text), 0600); err != nil {
			r.T.Fatal(err)
		}
		for _, t := range []string{"cacheDir: " + simStuff.dir + "\n" + text, text + "\ncacheDir: " + simStuff.dir + "\n"} {
			os.WriteFile(file, []byte(t), 0600)
			res := c28Read(file)
			if res.panic != "" {
				r.Violation("panic:text", "%s: ReadConfig panics: %s", id, res.panic)
			}
			if res.err == nil && res.panic == "" {
				if why := c28Stable(res.cfg, file); why != "" {
					r.Violation("stable", "%s: %s", id, why)
				}
			}
			r.Outcome("text accepted=%v", res.err == nil)
		}
	}
}

// c28Stable returns how an accepted configuration isn't a fixed point.
func c28Stable(cfg *Config, file string) string {
	one := cfg.serialize()
	again := cfg.clone()
	if !bytes.Equal(again.serialize(), one) {
		return "the copy differs"
	}
	if err := again.Check(); err != nil {
		return fmt.Sprintf("the second check fails: %v", err)
	}
	if !bytes.Equal(again.serialize(), one) {
		return fmt.Sprintf("the second check changes the configuration")
	}
	if err := cfg.Check(); err != nil || !bytes.Equal(cfg.serialize(), one) {
		return fmt.Sprintf("checking it in place again changes the configuration: %v", err)
	}
	os.WriteFile(file, one, 0600)
	res := c28Read(file)
	if res.err != nil || res.panic != "" {
		return fmt.Sprintf("its serialized form is rejected: %v", res.err)
	}
	if !bytes.Equal(res.cfg.serialize(), one) {
		return "its serialized form is another configuration"
	}
	if !res.cfg.equal(cfg) || !cfg.equal(again) {
		return "its copy isn't equal"
	}
	return ""
}

// c28Lost returns what checking a configuration has lost of it.
func c28Lost(raw, checked *yaml.Node, path string) string {
	if raw.Kind != checked.Kind {
		return path
	}
	switch raw.Kind {
	case yaml.DocumentNode:
		return c28Lost(raw.Content[0], checked.Content[0], path)
	case yaml.MappingNode:
	keys:
		for i := 0; i+1 < len(raw.Content); i += 2 {
			k := raw.Content[i].Value
			if path == "" && k == "definitions" {
				continue
			}
			for j := 0; j+1 < len(checked.Content); j += 2 {
				if checked.Content[j].Value == k {
					if s := c28Lost(raw.Content[i+1], checked.Content[j+1], path+"/"+k); s != "" {
						return s
					}
					continue keys
				}
			}
			if v := raw.Content[i+1]; v.Kind != yaml.ScalarNode || v.Value != "" {
				return path + "/" + k
			}
		}
	case yaml.SequenceNode:
		if len(raw.Content) != len(checked.Content) {
			return path
		}
		for i := range raw.Content {
			if s := c28Lost(raw.Content[i], checked.Content[i], fmt.Sprintf("%s/%d", path, i)); s != "" {
				return s
			}
		}
	case yaml.ScalarNode:
		a, b := raw.Value, checked.Value
		switch {
		case strings.EqualFold(a, b), idnaToASCII(a) == b, strings.HasSuffix(path, "/mode") && (a == "" || strings.EqualFold(a, "plaintext") && b == "TCP"), a == "0", a == "0s", a == "":
		default:
			return path
		}
	}
	return ""
}

func c28Mutants(r *vx.R) {
	base := c28Doc()
	muts := c28Mutations(base)
	dir := r.Scratch("c28")
	file := filepath.Join(dir, "config.yaml")
	good := c28Good(1)
	run := func(id string, ms ...c28Mut) {
		if !r.Case(id) {
			return
		}
		r.Exec()
		r.Step(len(ms))
		doc := c28Copy(base)
		for _, m := range ms {
			m.apply(doc)
		}
		text, err := yaml.Marshal(doc)
		if err != nil {
			r.Outcome("not a document")
			return
		}
		os.WriteFile(file, text, 0600)
		var raw Config
		dec := yaml.NewDecoder(bytes.NewReader(text))
		dec.KnownFields(true)
		why, doubt := "decoding", false
		if err := dec.Decode(&raw); err == nil {
			why, doubt = c28Valid(&raw)
		}
		if why != "" && len(ms) == 0 {
			r.Violation("base", "%s: the documented fields aren't understood: %s", id, why)
		}
		res := c28Read(file)
		if res.panic != "" {
			r.Outcome("wrong: panic")
			r.Violation("panic:"+why, "%s: ReadConfig panics: %s", id, res.panic)
			return
		}
		if res.err != nil {
			if why == "" && !doubt {
				r.Outcome("wrong: rejected")
				r.Violation("rejected", "%s: a valid configuration is rejected: %v", id, res.err)
			}
			r.Outcome("rejected: %s", why)
			return
		}
		if why == "decoding" {
			r.Violation("accepted:decoding", "%s: a configuration that can't be decoded is accepted", id)
			return
		}
		cfg := res.cfg
		var before, after yaml.Node
		if yaml.Unmarshal(raw.serialize(), &before) != nil || yaml.Unmarshal(cfg.serialize(), &after) != nil {
			r.Violation("serialize", "%s: the serialized configuration can't be read", id)
		} else if s := c28Lost(&before, &after, ""); s != "" {
			r.Violation("lost", "%s: checking the configuration has lost or changed %s", id, s)
		}
		if s := c28Stable(cfg.clone(), file); s != "" {
			r.Violation("stable", "%s: %s", id, s)
		}
		vsched.Bubble(r, id, func(x *vsched.X) {
			w := c28Sim(x, good)
			defer w.s.p.Stop()
			before := w.probe("a")
			err, pan := c28Reconfigure(w.s.p, cfg)
			if pan != "" {
				r.Violation("panic:"+why, "%s: Reconfigure panics: %s", id, pan)
				return
			}
			switch {
			case err == nil && why != "":
				r.Outcome("wrong: accepted")
				r.Violation("accepted:"+why, "%s: a configuration that breaks a rule (%s) is accepted", id, why)
			case err != nil && why == "" && !doubt:
				r.Outcome("wrong: rejected")
				r.Violation("rejected", "%s: a valid configuration is rejected: %v", id, err)
			}
			if err != nil {
				if after := w.probe("b"); after != before {
					r.Violation("rejected-effect", "%s: the configuration is rejected (%v), and the service was %q and is %q", id, err, before, after)
				}
				r.Outcome("rejected at reload: %s", why)
				return
			}
			r.Outcome("accepted")
			// An equal configuration changes nothing.
			cur := w.s.p.cfg
			if err := w.s.p.Reconfigure(res.cfg); err != nil || w.s.p.cfg != cur {
				r.Violation("equal", "%s: the same configuration again is a change (%v)", id, err)
			}
			if len(ms) == 1 {
				c, s := w.tcp("t1.example.com")
				if c != nil {
					c.Close()
				}
				r.State(s)
			}
			if err := w.s.p.Reconfigure(good); err != nil {
				r.Violation("back", "%s: the previous configuration is rejected: %v", id, err)
			}
			if after := w.probe("c"); after != before {
				r.Violation("back", "%s: the service was %q, and with the same configuration again it is %q", id, before, after)
			}
			if w.s.panicked() {
				r.Violation("panic:service", "%s: the proxy panics", id)
			}
		})
	}
	run("mutant/none")
	for _, m := range muts {
		run("mutant"+strings.ReplaceAll(m.name, " ", "_"), m)
	}
	r.Bound("mutations", len(muts))
	// Pairs.
	keys := []string{"mode", "provider", "identityProvider", "bwLimit", "name", "serverNames", "domain"}
	var some []c28Mut
	for _, m := range muts {
		p, v, _ := strings.Cut(m.name, "=")
		last := p[strings.LastIndex(p, "/")+1:]
		if r.Thorough() || slices.Contains(keys, last) && !strings.ContainsAny(v[:1], "-x{ntusap") && v != "true" && v != "[x]" {
			some = append(some, m)
		}
	}
	r.Bound("mutations in pairs", len(some))
	for i, a := range some {
		for _, b := range some[i+1:] {
			if a.path == b.path || strings.HasPrefix(b.path, a.path+"/") {
				continue
			}
			run("pair"+strings.ReplaceAll(a.name+"+"+b.name, " ", "_"), a, b)
			if r.Expired() {
				return
			}
		}
	}
}

func c28Bad(kind string, v int) *Config {
	cfg := c28Good(v)
	switch kind {
	case "bad-mode":
		cfg.Backends[0].Mode = "ftp"
	case "bad-provider":
		cfg.Backends[1].SSO = &BackendSSO{Provider: "nobody"}
	case "bad-ssh":
		cfg.SSHCertificateAuthorities = []*ConfigSSHCertificateAuthority{{Name: "newssh", KeyType: "rot13", PublicKeyEndpoint: "https://h1.example.com/ssh"}}
	case "bad-pki":
		cfg.PKI = []*ConfigPKI{{Name: "newpki", KeyType: "rot13"}}
	case "bad-saml":
		cfg.SAMLProviders = []*ConfigSAML{{Name: "s", SSOURL: "https://idp.example.org/", EntityID: "x", Certs: "nocerts", ACSURL: "https://h1.example.com/saml"}}
	case "bad-discovery":
		o := vxIDP("idp", "", "https://h1.example.com/cb")
		o.DiscoveryURL = "https://idp.example.org/missing"
		cfg.OIDCProviders = []*ConfigOIDC{o}
	case "bad-roots":
		cfg.Backends[1].ForwardRootCAs = []string{"nothere"}
	}
	return cfg
}

type c28NoIDP struct{ delay time.Duration }

func (d c28NoIDP) RoundTrip(req *http.Request) (*http.Response, error) {
	if req.Body != nil {
		req.Body.Close()
	}
	select {
	case <-time.After(d.delay):
	case <-req.Context().Done():
	}
	return &http.Response{Status: "404 Not found", StatusCode: 404, Header: http.Header{}, Body: io.NopCloser(strings.NewReader("")), Request: req}, nil
}

func c28WithIDP(d time.Duration) func() {
	old := http.DefaultTransport
	http.DefaultTransport = c28NoIDP{d}
	return func() { http.DefaultTransport = old }
}

func c28Histories(r *vx.R) {
	kinds := []string{"good1", "good2", "equal", "bad-mode", "bad-provider", "bad-ssh", "bad-pki", "bad-saml", "bad-discovery", "bad-roots"}
	depth := r.Pick(3, 4)
	r.Bound("history length", depth)
	vx.Sequences(len(kinds), 1, depth, func(seq []int) bool {
		var l []string
		for _, k := range seq {
			l = append(l, kinds[k])
		}
		id := "history/" + strings.Join(l, ".")
		if !r.Case(id) {
			return true
		}
		r.Exec()
		r.Step(len(seq))
		vsched.Bubble(r, id, func(x *vsched.X) {
			defer c28WithIDP(time.Millisecond)()
			w := c28Sim(x, c28Good(1))
			defer w.s.p.Stop()
			want := map[int]string{1: "T1 T1 H1 404 unrecognized name 1e+06/1e+06/1000000/1000000", 2: "T2 T1 H2 unrecognized name 404 2e+06/2e+06/2000000/2000000"}
			cur := 1
			held, s := w.tcp("t1.example.com")
			if held == nil || s != "T1" {
				r.Violation("service", "%s: initially, a connection gets %q", id, s)
				return
			}
			hb, err := w.s.dial("held", "h1.example.com", []string{"http/1.1"}, "10.0.0.7", nil)
			if err != nil {
				r.Violation("service", "%s: %v", id, err)
				return
			}
			for i, k := range seq {
				was := cur
				var err error
				var pan string
				switch kinds[k] {
				case "good1", "good2":
					cur = k + 1
					err, pan = c28Reconfigure(w.s.p, c28Good(cur))
				case "equal":
					err, pan = c28Reconfigure(w.s.p, w.s.p.cfg.clone())
				default:
					// The rest of the configuration isn't the current one.
					err, pan = c28Reconfigure(w.s.p, c28Bad(kinds[k], 3-cur))
					if err == nil && pan == "" {
						r.Violation("accepted:"+kinds[k], "%s: configuration %d is accepted", id, i)
						return
					}
					err = nil
				}
				if pan != "" {
					r.Violation("panic:"+kinds[k], "%s: configuration %d: panic: %s", id, i, pan)
					return
				}
				if err != nil {
					r.Violation("rejected", "%s: configuration %d: %v", id, i, err)
					return
				}
				if got := w.probe(fmt.Sprint(i)); got != want[cur] {
					r.Violation("service:"+kinds[k], "%s: after %d (%s), the service is %q, want %q", id, i, kinds[k], got, want[cur])
					return
				}
				// Connections stay usable, unless their backend was replaced.
				msg := fmt.Sprintf("%02d", i)
				held.Write([]byte(msg))
				b := make([]byte, 2)
				if _, err := io.ReadFull(held, b); err != nil || string(b) != msg {
					r.Violation("held", "%s: after %d (%s), an open connection gets %q %v", id, i, kinds[k], b, err)
					return
				}
				if cur == was && kinds[k] != "good1" && kinds[k] != "good2" {
					if st, b, err := hb.get("h1.example.com", "/"); err != nil || st != 200 || b != fmt.Sprintf("H%d", cur) {
						r.Violation("held", "%s: after %d (%s), an open HTTP connection gets %d %q %v", id, i, kinds[k], st, b, err)
						return
					}
				} else {
					hb.raw.Close()
					if hb, err = w.s.dial("held", "h1.example.com", []string{"http/1.1"}, "10.0.0.7", nil); err != nil {
						r.Violation("service", "%s: %v", id, err)
						return
					}
				}
			}
			r.Outcome("history ends with %d", cur)
			r.State(cur, l[len(l)-1])
		})
		return true
	})
}

// c28Slow looks at the service while a configuration is being evaluated.
func c28Slow(r *vx.R) {
	for _, kind := range []string{"bad-discovery"} {
		for _, delay := range []time.Duration{time.Second, time.Minute, time.Hour} {
			for _, held := range []bool{false, true} {
				id := fmt.Sprintf("slow/%s/%v/%v", kind, delay, held)
				if !r.Case(id) {
					continue
				}
				r.Exec()
				vsched.Bubble(r, id, func(x *vsched.X) {
					defer c28WithIDP(delay)()
					w := c28Sim(x, c28Good(1))
					defer w.s.p.Stop()
					var c *simConn
					if held {
						var err error
						if c, err = w.s.dial("held", "h1.example.com", []string{"http/1.1"}, "10.0.0.7", nil); err != nil {
							r.Violation("service", "%s: %v", id, err)
							return
						}
					}
					done := make(chan error, 1)
					go func() {
						err, _ := c28Reconfigure(w.s.p, c28Bad(kind, 2))
						done <- err
					}()
					time.Sleep(delay / 10)
					start := time.Now()
					got := w.probe("slow")
					if took := time.Since(start); took > delay/10 {
						r.Outcome("wrong: stalled")
						r.Violation("stalled", "%s: while the identity provider takes %v, requests take %v", id, delay, took)
					}
					if want := "T1 T1 H1 404 unrecognized name 1e+06/1e+06/1000000/1000000"; got != want {
						r.Violation("service:slow", "%s: while a configuration is evaluated, the service is %q, want %q", id, got, want)
					}
					if held && delay < time.Hour {
						if st, b, err := c.get("h1.example.com", "/"); err != nil || b != "H1" {
							r.Violation("held", "%s: %d %q %v", id, st, b, err)
						}
					}
					if err := <-done; err == nil {
						r.Violation("accepted:"+kind, "%s", id)
					}
					r.Step(1)
					r.Outcome("slow")
				})
			}
		}
	}
}

// c28Late has configurations that fail in the last steps.
func c28Late(r *vx.R) {
	for _, kind := range []string{"bad-ssh", "bad-pki", "bad-saml", "bad-discovery", "bad-roots", "bad-provider", "bad-mode"} {
		id := "late/" + kind
		if !r.Case(id) {
			continue
		}
		r.Exec()
		vsched.Bubble(r, id, func(x *vsched.X) {
			defer c28WithIDP(time.Millisecond)()
			w := c28Sim(x, c28Good(1))
			defer w.s.p.Stop()
			rename := func(c *Config) *Config {
				for _, p := range c.PKI {
					p.Name = "late" + p.Name
				}
				for _, p := range c.SSHCertificateAuthorities {
					p.Name = "late" + p.Name
				}
				return c
			}
			// The same name, with the correct key type, is accepted later.
			if err, _ := c28Reconfigure(w.s.p, rename(c28Bad(kind, 2))); err == nil && r.ReplayCase() == "" {
				r.Violation("accepted:"+kind, "%s", id)
			}
			cfg := rename(c28Bad(kind, 2))
			for _, p := range cfg.PKI {
				p.KeyType = "ecdsa-p256"
			}
			for _, p := range cfg.SSHCertificateAuthorities {
				p.KeyType = "ed25519"
			}
			if kind == "bad-ssh" || kind == "bad-pki" {
				if err, pan := c28Reconfigure(w.s.p, cfg); err != nil || pan != "" {
					r.Violation("corrected", "%s: the corrected configuration is rejected: %v %s", id, err, pan)
				}
			}
			r.Step(2)
			r.Outcome("late")
		})
	}
}

func c28Races(r *vx.R) {
	for _, sc := range []string{"good2", "bad-ssh", "good2-good1"} {
		sc := sc
		vsched.Explore(r, "race/"+sc, vsched.Opts{Deviations: r.Pick(1, 3)}, func(x *vsched.X) func() {
			w := c28Sim(x, c28Good(1))
			var got [2]string
			for i := 0; i < 2; i++ {
				i := i
				x.Go(fmt.Sprintf("client%d", i), func() {
					c, s := w.tcp("t1.example.com")
					got[i] = s
					if c != nil {
						c.Close()
					}
				})
			}
			for i, k := range strings.Split(strings.ReplaceAll(sc, "bad-ssh", "badssh"), "-") {
				x.Go(fmt.Sprintf("reload%d", i), func() {
					switch k {
					case "good2":
						w.s.p.Reconfigure(c28Good(2))
					case "good1":
						cfg := c28Good(1)
						cfg.Email = "x"
						w.s.p.Reconfigure(cfg)
					default:
						w.s.p.Reconfigure(c28Bad("bad-ssh", 2))
					}
				})
			}
			return func() {
				for i, s := range got {
					if s != "T1" && s != "T2" || s == "T2" && sc == "bad-ssh" {
						r.Violation("race", "%s: connection %d gets %q", x.ID, i, s)
					}
				}
				end := w.probe("end")
				if !strings.HasPrefix(end, "T1 T1 H1 404 unrec") && !strings.HasPrefix(end, "T2 T1 H2 unrecognized name 404") {
					r.Violation("race", "%s: in the end, the service is %q", x.ID, end)
				}
				if strings.HasPrefix(end, "T1") != strings.HasSuffix(end, "1e+06/1e+06/1000000/1000000") {
					r.Violation("race", "%s: in the end, the service is %q", x.ID, end)
				}
				r.Outcome("race %s %v", sc, got)
			}
		})
	}
}
