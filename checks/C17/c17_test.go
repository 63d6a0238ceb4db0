package proxy

import (
	"bytes"
	"context"
	gocrypto "crypto"
	"crypto/ecdsa"
	"crypto/elliptic"
	"crypto/rand"
	"crypto/tls"
	"crypto/x509"
	"crypto/x509/pkix"
	"errors"
	"fmt"
	"io"
	"math/big"
	"net/http"
	"strings"
	"testing"
	"time"

	"github.com/c2FmZQ/storage"
	"github.com/c2FmZQ/storage/crypto"
	vos "github.com/c2FmZQ/tlsproxy/zzvx/vos"
	"golang.org/x/crypto/ocsp"

	"github.com/c2FmZQ/tlsproxy/internal/vnet"
	"github.com/c2FmZQ/tlsproxy/internal/vsched"
	"github.com/c2FmZQ/tlsproxy/internal/vx"
	"github.com/c2FmZQ/tlsproxy/proxy/internal/ocspcache"
)

// c17CA is an authority.
type c17CA struct {
	cert *x509.Certificate
	key  *ecdsa.PrivateKey
}

var (
	c17Root, c17IntA, c17IntB, c17Evil, c17SameName *c17CA
	c17Delegate, c17NoUsage, c17Old, c17EvilDel     *c17CA
	c17MK                                           crypto.MasterKey
	c17SN                                           int64 = 1000
)

func c17Issue(parent *c17CA, name string, mod func(c *x509.Certificate)) *c17CA {
	key, err := ecdsa.GenerateKey(elliptic.P256(), rand.Reader)
	if err != nil {
		panic(err)
	}
	c17SN++
	templ := &x509.Certificate{
		SerialNumber: big.NewInt(c17SN), Subject: pkix.Name{CommonName: name}, NotBefore: vxLongAgo, NotAfter: vxFarAway,
		KeyUsage: x509.KeyUsageDigitalSignature, BasicConstraintsValid: true,
	}
	if mod != nil {
		mod(templ)
	}
	pc, pk := templ, key
	if parent != nil {
		pc, pk = parent.cert, parent.key
	}
	b, err := x509.CreateCertificate(rand.Reader, templ, pc, key.Public(), pk)
	if err != nil {
		panic(err)
	}
	cert, err := x509.ParseCertificate(b)
	if err != nil {
		panic(err)
	}
	return &c17CA{cert, key}
}

// c17Servers is how many responders a certificate has.
func c17Servers(name string, n int, bad bool) func(c *x509.Certificate) {
	return func(c *x509.Certificate) {
		for i := 0; i < n; i++ {
			c.OCSPServer = append(c.OCSPServer, fmt.Sprintf("http://%s-%d.ocsp.test/", name, i))
		}
	}
}

func c17IsCA(servers func(c *x509.Certificate)) func(c *x509.Certificate) {
	return func(c *x509.Certificate) {
		c.IsCA = true
		c.KeyUsage |= x509.KeyUsageCertSign
		if servers != nil {
			servers(c)
		}
	}
}

func c17Init() {
	ca := c17IsCA(nil)
	c17Root = c17Issue(nil, "root", ca)
	c17Evil = c17Issue(nil, "evil", ca)
	c17SameName = c17Issue(nil, "root", ca)
	c17Delegate = c17Issue(c17Root, "delegate", func(c *x509.Certificate) { c.ExtKeyUsage = []x509.ExtKeyUsage{x509.ExtKeyUsageOCSPSigning} })
	c17NoUsage = c17Issue(c17Root, "user", func(c *x509.Certificate) { c.ExtKeyUsage = []x509.ExtKeyUsage{x509.ExtKeyUsageClientAuth} })
	c17Old = c17Issue(c17Root, "old", func(c *x509.Certificate) {
		c.ExtKeyUsage = []x509.ExtKeyUsage{x509.ExtKeyUsageOCSPSigning}
		c.NotBefore = time.Date(1999, 1, 1, 0, 0, 0, 0, time.UTC)
		c.NotAfter = time.Date(1999, 12, 1, 0, 0, 0, 0, time.UTC)
	})
	c17EvilDel = c17Issue(c17Evil, "delegate", func(c *x509.Certificate) { c.ExtKeyUsage = []x509.ExtKeyUsage{x509.ExtKeyUsageOCSPSigning} })
}

// c17Kinds are the kinds of responses, and what they say.
var c17Kinds = []struct {
	name    string
	verdict byte // Good, Revoked, Unknown, - (none)
	fetch   bool // not a response
}{
	{"good", 'G', false}, {"revoked", 'R', false}, {"unknown", 'U', false},
	{"delegated", 'G', false}, {"delegated-revoked", 'R', false}, {"embedded", 'G', false}, {"no-next", 'g', false},
	{"serial", '-', false}, {"signer", '-', false}, {"same-name", '-', false}, {"no-usage", '-', false}, {"old-delegate", '-', false}, {"evil-delegate", '-', false}, {"self", '-', false},
	{"expired", '-', false}, {"expired-revoked", '-', false}, {"now", '-', false}, {"future", '-', false}, {"garbage", '-', false}, {"empty", '-', false}, {"try-later", '-', false}, {"altered", '-', false},
	{"refused", '-', true}, {"hang", '-', true}, {"cut", '-', true}, {"server-error", '-', true},
}

const c17Valid = 24 * time.Hour

// c17Make makes a response for a certificate.
func c17Make(kind string, cert *c17CA, issuer *c17CA) []byte {
	now := time.Now()
	t := ocsp.Response{Status: ocsp.Good, SerialNumber: cert.cert.SerialNumber, ThisUpdate: now.Add(-time.Hour), NextUpdate: now.Add(c17Valid), IssuerHash: gocrypto.SHA256}
	signer := issuer
	switch kind {
	case "revoked", "expired-revoked":
		t.Status, t.RevokedAt = ocsp.Revoked, now.Add(-2*time.Hour)
	case "unknown":
		t.Status = ocsp.Unknown
	case "delegated-revoked":
		t.Status, t.RevokedAt = ocsp.Revoked, now.Add(-2*time.Hour)
		signer = c17Delegate
	case "delegated":
		signer = c17Delegate
	case "embedded":
		t.Certificate = issuer.cert
	case "no-next":
		t.NextUpdate = time.Time{}
	case "serial":
		t.SerialNumber = new(big.Int).Add(cert.cert.SerialNumber, big.NewInt(100000))
	case "signer":
		signer = c17Evil
	case "same-name":
		signer = c17SameName
	case "no-usage":
		signer = c17NoUsage
	case "old-delegate":
		signer = c17Old
	case "evil-delegate":
		signer = c17EvilDel
	case "self":
		signer = cert
		t.Certificate = cert.cert
	case "now":
		t.NextUpdate = now
	case "future":
		t.ThisUpdate = now.Add(6 * time.Hour)
	case "garbage":
		return []byte("hello")
	case "empty":
		return []byte{}
	case "try-later":
		return ocsp.TryLaterErrorResponse
	}
	if strings.HasPrefix(kind, "expired") {
		t.ThisUpdate, t.NextUpdate = now.Add(-48*time.Hour), now.Add(-time.Hour)
	}
	if signer != issuer && signer != c17Evil && signer != c17SameName {
		t.Certificate = signer.cert
	}
	if issuer != c17Root && (signer == c17Delegate || signer == c17NoUsage || signer == c17Old) {
		panic("wrong issuer")
	}
	b, err := ocsp.CreateResponse(issuer.cert, signer.cert, t, signer.key)
	if err != nil {
		panic(err)
	}
	if kind == "altered" {
		// The status.
		if i := bytes.LastIndex(b, []byte{0x80, 0}); i > 0 {
			b[i] = 0x82
		} else {
			panic("no status")
		}
	}
	return b
}

type c17Responder struct {
	cert, issuer *c17CA
	kind         string
}

// c17Web has the responders, by name.
type c17Web struct {
	hosts map[string]c17Responder
	calls int
}

func (w *c17Web) RoundTrip(req *http.Request) (*http.Response, error) {
	w.calls++
	var body []byte
	if req.Body != nil {
		body, _ = io.ReadAll(req.Body)
		req.Body.Close()
	}
	resp := func(code int, b []byte) *http.Response {
		return &http.Response{StatusCode: code, Proto: "HTTP/1.1", ProtoMajor: 1, ProtoMinor: 1, Header: http.Header{"Content-Type": {"application/ocsp-response"}}, Body: io.NopCloser(bytes.NewReader(b)), Request: req}
	}
	r, ok := w.hosts[req.URL.Host]
	if !ok {
		return nil, errors.New("no such host")
	}
	q, err := ocsp.ParseRequest(body)
	if err != nil || q.SerialNumber.Cmp(r.cert.cert.SerialNumber) != 0 {
		return resp(400, nil), nil
	}
	switch r.kind {
	case "refused":
		return nil, errors.New("connection refused")
	case "hang":
		<-req.Context().Done()
		return nil, req.Context().Err()
	case "cut":
		b := c17Make("good", r.cert, r.issuer)
		return resp(200, b[:len(b)-5]), nil
	case "server-error":
		return resp(500, []byte("oops")), nil
	}
	return resp(200, c17Make(r.kind, r.cert, r.issuer)), nil
}

type c17World struct {
	r     *vx.R
	x     *vsched.X
	id    string
	web   *c17Web
	cache *ocspcache.OCSPCache
}

func (w *c17World) violation(key, f string, a ...any) {
	w.r.Violation(key, "%s: "+f, append([]any{w.id}, a...)...)
}

func c17Bubble(r *vx.R, id string, f func(w *c17World)) {
	vsched.Bubble(r, id, func(x *vsched.X) {
		vos.Reset()
		time.Sleep(time.Hour + 250*time.Millisecond)
		rt := http.DefaultTransport
		defer func() { http.DefaultTransport = rt }()
		w := &c17World{r: r, x: x, id: id, web: &c17Web{hosts: map[string]c17Responder{}}}
		http.DefaultTransport = w.web
		w.cache = ocspcache.New(storage.New("/cache", c17MK), vxLog{})
		defer func() {
			if e := recover(); e != nil {
				w.violation("panic", "panic: %v", e)
			}
		}()
		f(w)
	})
}

func c17Chain(cs ...*c17CA) []*x509.Certificate {
	var out []*x509.Certificate
	for _, c := range cs {
		out = append(out, c.cert)
	}
	return out
}

// verify verifies chains, and compares the result.
func (w *c17World) verify(key string, chains [][]*x509.Certificate, staple []byte, want byte) {
	start := time.Now()
	err := w.cache.VerifyChains(chains, staple)
	w.r.Step(1)
	w.r.Outcome("%c %v", want, err)
	if want == 'A' && err != nil {
		w.violation("refused:"+key, "refused: %v", err)
	}
	if want == 'X' && err == nil {
		w.violation("accepted:"+key, "accepted")
	}
	if d := time.Since(start); d > time.Minute {
		w.violation("slow", "it took %v", d)
	}
}

func TestVX(t *testing.T) {
	r := vx.Start(t, "C17")
	defer r.Done()
	simInit(r, c17Name)
	c17Init()
	c17MK = simStuff.mk
	c17Singles(r)
	c17Chains(r)
	c17Proxy(r)
	c17Sequences(r)
}

// c17Singles is about one certificate.
func c17Singles(r *vx.R) {
	leafs := []*c17CA{}
	for n := 0; n < 3; n++ {
		leafs = append(leafs, c17Issue(c17Root, "leaf", c17Servers("leaf", n, false)))
	}
	r.Bound("kinds of responses", len(c17Kinds))
	run := func(id, key string, leaf *c17CA, staple string, sv, v byte, kinds ...string) {
		if !r.Case(id) {
			return
		}
		r.Exec()
		c17Bubble(r, id, func(w *c17World) {
			for i, k := range kinds {
				w.web.hosts[fmt.Sprintf("leaf-%d.ocsp.test", i)] = c17Responder{leaf, c17Root, k}
			}
			var sb []byte
			if staple != "" {
				sb = c17Make(staple, leaf, c17Root)
			}
			want := byte('A')
			noResponder := len(kinds) == 0
			switch {
			case sv == 'R':
				want = 'X'
			case sv == 'g':
				// Whether it is used without a time limit isn't specified.
				want = '?'
			case sv == 'G' || noResponder:
			case v == 'G' || v == 'g':
			default:
				want = 'X'
			}
			if sv == 'g' && (noResponder || v == 'G' || v == 'g') {
				want = 'A'
			}
			chains := [][]*x509.Certificate{c17Chain(leaf, c17Root)}
			w.verify(key, chains, sb, want)
			// It isn't remembered wrongly.
			for i := range kinds {
				w.web.hosts[fmt.Sprintf("leaf-%d.ocsp.test", i)] = c17Responder{leaf, c17Root, "refused"}
			}
			if !noResponder && (v == 'g' || sv == 'g') && sv != 'G' && sv != 'R' {
				want = 'X'
				if sv == 'g' {
					want = '?'
				}
			}
			time.Sleep(time.Minute)
			w.verify(key+"-again", chains, nil, map[bool]byte{true: '?', false: want}[noResponder])
			w.other(key, leafs, leaf)
			// And not for too long.
			time.Sleep(c17Valid)
			if noResponder {
				want = '?'
			} else {
				want = 'X'
			}
			w.verify(key+"-expired", chains, nil, want)
			// With a good answer, all is well.
			for i := range kinds {
				w.web.hosts[fmt.Sprintf("leaf-%d.ocsp.test", i)] = c17Responder{leaf, c17Root, "good"}
			}
			if !noResponder {
				w.verify(key+"-recovers", chains, nil, 'A')
			}
			w.cache.Response(leaf.cert, c17Root.cert, time.Hour)
			w.cache.Response(leaf.cert, c17Root.cert, time.Hour)
			w.flush()
		})
	}
	for _, s := range append(c17Kinds[:0:0], append([]struct {
		name    string
		verdict byte
		fetch   bool
	}{{"", '-', false}}, c17Kinds...)...) {
		if s.fetch {
			continue
		}
		run("single/none/"+s.name, "staple:"+s.name, leafs[0], s.name, s.verdict, '-')
		for _, k := range c17Kinds {
			run("single/"+s.name+"/"+k.name, s.name+":"+k.name, leafs[1], s.name, s.verdict, k.verdict, k.name)
		}
	}
	for _, a := range c17Kinds {
		for _, b := range c17Kinds {
			// The first one that knows.
			v := a.verdict
			if v == '-' || v == 'U' {
				v = b.verdict
			}
			run("two/"+a.name+"/"+b.name, "two:"+a.name+":"+b.name, leafs[2], "", '-', v, a.name, b.name)
		}
	}
}

// other checks that what is known about a certificate isn't applied to others.
func (w *c17World) other(key string, leafs []*c17CA, but *c17CA) {
	for _, l := range leafs {
		if l == but || len(l.cert.OCSPServer) == 0 {
			continue
		}
		hosts := w.web.hosts
		w.web.hosts = map[string]c17Responder{}
		w.verify("other:"+key, [][]*x509.Certificate{c17Chain(l, c17Root)}, nil, 'X')
		w.web.hosts = hosts
	}
}

// flush makes the cache save its content.
func (w *c17World) flush() {
	ctx, cancel := context.WithCancel(context.Background())
	done := make(chan struct{})
	go func() {
		defer close(done)
		w.cache.FlushLoop(ctx)
	}()
	time.Sleep(61 * time.Second)
	cancel()
	<-done
}

// c17Chains is about chains with several certificates.
func c17Chains(r *vx.R) {
	kinds := []string{"none", "good", "revoked", "unknown", "serial", "refused"}
	verdict := func(k string) bool { return k == "none" || k == "good" }
	n := func(k string) int {
		if k == "none" {
			return 0
		}
		return 1
	}
	inter := map[string]*c17CA{}
	for _, name := range []string{"a", "b"} {
		for i := 0; i < 2; i++ {
			inter[fmt.Sprint(name, i)] = c17Issue(c17Root, "int-"+name, c17IsCA(c17Servers("int-"+name, i, false)))
		}
	}
	for _, lk := range kinds {
		for _, ak := range kinds {
			for _, bk := range append(kinds, "absent") {
				for _, staple := range []string{"", "good", "revoked", "serial"} {
					id := fmt.Sprintf("chain/%s/%s/%s/%s", lk, ak, bk, staple)
					if !r.Case(id) {
						continue
					}
					r.Exec()
					c17Bubble(r, id, func(w *c17World) {
						a, b := inter[fmt.Sprint("a", n(ak))], inter[fmt.Sprint("b", n(bk))]
						// Both authorities have the same key, so
						// that the leaf has two chains.
						leaf := c17Leaf(a, n(lk))
						b2 := &c17CA{b.cert, a.key}
						w.web.hosts["leaf-0.ocsp.test"] = c17Responder{leaf, a, lk}
						w.web.hosts["int-a-0.ocsp.test"] = c17Responder{a, c17Root, ak}
						w.web.hosts["int-b-0.ocsp.test"] = c17Responder{b, c17Root, bk}
						chains := [][]*x509.Certificate{c17Chain(leaf, a, c17Root)}
						ok := verdict(ak)
						if bk != "absent" {
							chains = append(chains, c17Chain(leaf, b2, c17Root))
							ok = ok || verdict(bk)
						}
						lok := verdict(lk)
						var sb []byte
						if staple != "" {
							sb = c17Make(staple, leaf, a)
							if staple == "good" {
								lok = true
							} else if staple == "revoked" {
								lok = false
							}
						}
						want := byte('X')
						if ok && lok {
							want = 'A'
						}
						if staple == "revoked" && !ok {
							want = 'X'
						}
						w.verify("chain", chains, sb, want)
						if staple == "good" && lk == "none" {
							return
						}
						w.verify("chain-again", chains, nil, map[bool]byte{true: '?', false: want}[lk == "none" && staple != ""])
					})
				}
			}
		}
	}
}

var c17Leafs = map[string]*c17CA{}

func c17Leaf(ca *c17CA, servers int) *c17CA {
	k := fmt.Sprint(ca.cert.SerialNumber, servers)
	if c17Leafs[k] == nil {
		c17Leafs[k] = c17Issue(ca, "leaf", c17Servers("leaf", servers, false))
	}
	return c17Leafs[k]
}

// c17Model is what the cache should know.
type c17Model map[string]c17Entry

type c17Entry struct {
	verdict byte
	next    time.Time
}

func (m c17Model) copy() c17Model {
	out := c17Model{}
	for k, v := range m {
		out[k] = v
	}
	return out
}

func (m c17Model) get(k string) byte {
	if e, ok := m[k]; ok && time.Now().Before(e.next) {
		return e.verdict
	}
	return 0
}

func c17Sequences(r *vx.R) {
	depth := r.Pick(4, 5)
	r.Bound("sequence length", depth)
	a := c17Issue(c17Root, "A", c17Servers("A", 1, false))
	b := c17Issue(c17Root, "B", c17Servers("B", 1, false))
	certs := map[string]*c17CA{"A": a, "B": b}
	ops := []string{"verifyA", "verifyB", "goodA", "revA", "swapA", "unkA", "respA", "is-good", "is-revoked", "is-down", "is-wrong", "wait-min", "wait-23h30", "wait-25h", "flush", "restart"}
	idle := func(o string) bool { return strings.HasPrefix(o, "is-") || strings.HasPrefix(o, "wait") }
	vx.Sequences(len(ops), 1, depth, func(seq []int) bool {
		var names []string
		for i, o := range seq {
			names = append(names, ops[o])
			if i > 0 && (strings.HasPrefix(ops[o], "is-") && strings.HasPrefix(ops[seq[i-1]], "is-") || strings.HasPrefix(ops[o], "wait-m") && strings.HasPrefix(ops[seq[i-1]], "wait-m")) {
				return true
			}
		}
		if last := names[len(names)-1]; len(seq) < depth || idle(last) || last == "flush" || last == "restart" {
			return true
		}
		id := "seq/" + strings.Join(names, ",")
		if !r.Case(id) {
			return true
		}
		r.Exec()
		c17Bubble(r, id, func(w *c17World) {
			model, saved := c17Model{}, c17Model{}
			kind := "good"
			set := func() {
				w.web.hosts["A-0.ocsp.test"] = c17Responder{a, c17Root, kind}
				w.web.hosts["B-0.ocsp.test"] = c17Responder{b, c17Root, kind}
			}
			fetch := func(k string) byte {
				switch kind {
				case "good":
					model[k] = c17Entry{'G', time.Now().Add(c17Valid).Truncate(time.Second)}
				case "revoked":
					model[k] = c17Entry{'R', time.Now().Add(c17Valid).Truncate(time.Second)}
				default:
					return 0
				}
				return model[k].verdict
			}
			set()
			for i, op := range names {
				switch {
				case strings.HasPrefix(op, "is-"):
					kind = map[string]string{"good": "good", "revoked": "revoked", "down": "refused", "wrong": "serial"}[op[3:]]
					set()
				case op == "wait-min":
					time.Sleep(time.Minute)
				case op == "wait-23h30":
					time.Sleep(23*time.Hour + 30*time.Minute)
				case op == "wait-25h":
					time.Sleep(25 * time.Hour)
				case op == "flush":
					w.flush()
					saved = model.copy()
				case op == "restart":
					w.cache = ocspcache.New(storage.New("/cache", c17MK), vxLog{})
					model = saved.copy()
				case op == "respA":
					fresh := false
					if e, ok := model["A"]; ok && time.Now().Add(time.Hour).Before(e.next) {
						fresh = true
					}
					old := model.get("A")
					v := byte(0)
					if fresh {
						v = old
					} else {
						v = fetch("A")
					}
					resp, err := w.cache.Response(a.cert, c17Root.cert, time.Hour)
					w.r.Step(1)
					w.r.Outcome("resp %v %v", v != 0, err == nil)
					what := strings.Join(names[:i+1], " ")
					switch {
					case err == nil && resp == nil:
						w.violation("resp-nil", "no response and no error after %s", what)
					case err != nil && v != 0:
						w.violation("resp-error", "%v after %s", err, what)
					case err == nil && resp.SerialNumber.Cmp(a.cert.SerialNumber) != 0:
						w.violation("resp-serial", "the response is for another certificate after %s", what)
					case err == nil && !time.Now().Before(resp.NextUpdate):
						w.violation("resp-expired", "the response expired after %s", what)
					case err == nil && v != 0 && (resp.Status == ocsp.Good) != (v == 'G'):
						w.violation("resp-status", "status %d after %s", resp.Status, what)
					case err == nil && v != 0 && !time.Now().Add(time.Hour).Before(resp.NextUpdate):
						w.violation("resp-late", "the response expires soon, and wasn't refreshed after %s", what)
					case err == nil && v == 0 && old == 0:
						w.violation("resp-unknown", "a response that nobody made after %s", what)
					}
				default:
					k := op[len(op)-1:]
					var staple []byte
					want := byte('X')
					switch op {
					case "goodA":
						staple = c17Make("good", a, c17Root)
						if model.get("A") != 'R' {
							model["A"] = c17Entry{'G', time.Now().Add(c17Valid).Truncate(time.Second)}
						}
					case "revA":
						staple = c17Make("revoked", a, c17Root)
						model["A"] = c17Entry{'R', time.Now().Add(c17Valid).Truncate(time.Second)}
					case "swapA":
						staple = c17Make("good", b, c17Root)
					case "unkA":
						staple = c17Make("unknown", a, c17Root)
					}
					v := model.get(k)
					if v == 0 {
						v = fetch(k)
					}
					if v == 'G' {
						want = 'A'
					}
					w.verify(op+" after "+strings.Join(names[:i], " "), [][]*x509.Certificate{c17Chain(certs[k], c17Root)}, staple, want)
				}
			}
		})
		return !r.Expired()
	})
}

const c17Name = "h1.example.com"

// c17Proxy is about the places where the proxy uses responses.
func c17Proxy(r *vx.R) {
	ca := &c17CA{vxCM.ca, vxCM.key}
	tlsCert := func(c *c17CA) *tls.Certificate {
		return &tls.Certificate{Certificate: [][]byte{c.cert.Raw, ca.cert.Raw}, PrivateKey: c.key, Leaf: c.cert}
	}
	host := func(name string, n int, usage x509.ExtKeyUsage) *c17CA {
		return c17Issue(ca, name, func(c *x509.Certificate) {
			c.DNSNames = []string{name}
			c.ExtKeyUsage = []x509.ExtKeyUsage{usage}
			c17Servers("srv", n, false)(c)
		})
	}
	plain := func(kind string) bool {
		return !strings.Contains(kind, "delegate") && kind != "no-usage"
	}
	servers := []*c17CA{host(c17Name, 0, x509.ExtKeyUsageServerAuth), host(c17Name, 1, x509.ExtKeyUsageServerAuth)}
	clients := []*c17CA{host("client", 0, x509.ExtKeyUsageClientAuth), host("client", 1, x509.ExtKeyUsageClientAuth)}
	saved := vxCM.certs[c17Name]
	defer func() { vxCM.certs[c17Name] = saved }()
	for _, n := range []int{0, 1} {
		for _, k := range c17Kinds {
			if n == 0 && k.name != "good" || !plain(k.name) {
				continue
			}
			// Certificates of the proxy.
			id := fmt.Sprintf("staple/%d/%s", n, k.name)
			if r.Case(id) {
				r.Exec()
				c17Bubble(r, id, func(w *c17World) {
					vxCM.certs[c17Name] = tlsCert(servers[n])
					defer func() { vxCM.certs[c17Name] = saved }()
					w.web.hosts["srv-0.ocsp.test"] = c17Responder{servers[n], ca, k.name}
					s := c17Sim(w, simHTTPBackend(c17Name, "LOCAL", ""))
					for i := 0; i < 4; i++ {
						if i == 3 {
							// As certificate managers do.
							vxCM.certs[c17Name] = tlsCert(servers[n])
							w.web.hosts["srv-0.ocsp.test"] = c17Responder{servers[n], ca, "refused"}
							time.Sleep(2 * c17Valid)
						}
						c, err := s.dial(fmt.Sprint("c", i), c17Name, []string{"http/1.1"}, "192.0.2.1:0", nil)
						if err != nil {
							w.violation("staple-error", "connection %d: %v", i, err)
							return
						}
						sb := c.tls.ConnectionState().OCSPResponse
						r.Step(1)
						r.Outcome("staple %v", len(sb) > 0)
						if len(sb) > 0 {
							resp, err := ocsp.ParseResponseForCert(sb, servers[n].cert, ca.cert)
							if err != nil || resp.Status != ocsp.Good || !resp.NextUpdate.IsZero() && time.Now().After(resp.NextUpdate) || resp.ThisUpdate.After(time.Now()) {
								w.violation("staple-bad", "connection %d has a bad response: %v %v", i, resp, err)
							}
						} else if k.verdict == 'G' && n > 0 && i < 3 {
							w.violation("staple-none", "connection %d has no response", i)
						}
						c.raw.Close()
					}
					if s.panicked() {
						w.violation("staple-panic", "panic")
					}
				})
			}
			// Certificates of clients.
			id = fmt.Sprintf("client/%d/%s", n, k.name)
			if r.Case(id) {
				r.Exec()
				c17Bubble(r, id, func(w *c17World) {
					w.web.hosts["srv-0.ocsp.test"] = c17Responder{clients[n], ca, k.name}
					be := simHTTPBackend(c17Name, "LOCAL", "")
					be.ClientAuth = &ClientAuth{RootCAs: []string{vxCM.RootCAPEM()}}
					s := c17Sim(w, be)
					want := n == 0 || k.verdict == 'G' || k.verdict == 'g'
					for i := 0; i < 3; i++ {
						if i == 2 {
							w.web.hosts["srv-0.ocsp.test"] = c17Responder{clients[n], ca, "refused"}
							time.Sleep(2 * c17Valid)
							want = n == 0
						}
						ok := false
						c, err := s.dial(fmt.Sprint("c", i), c17Name, []string{"http/1.1"}, "192.0.2.1:0", tlsCert(clients[n]))
						if err == nil {
							var st int
							st, _, err = c.get(c17Name, "/")
							ok = err == nil && st > 0
							c.raw.Close()
						}
						r.Step(1)
						r.Outcome("client %v", ok)
						if ok != want {
							w.violation(fmt.Sprintf("client-%v:%s", ok, k.name), "client %d: served %v: %v", i, ok, err)
						}
					}
				})
			}
			// Certificates of backends.
			for _, staple := range []string{"", "good", "revoked", "serial", "signer", "expired"} {
				if k.name == "hang" {
					// The HTTP transport waits for a mutex, which
					// the virtual clock doesn't know.
					continue
				}
				id = fmt.Sprintf("backend/%d/%s/%s", n, k.name, staple)
				if !r.Case(id) {
					continue
				}
				r.Exec()
				c17Bubble(r, id, func(w *c17World) {
					w.web.hosts["srv-0.ocsp.test"] = c17Responder{servers[n], ca, k.name}
					be := simHTTPBackend(c17Name, "HTTPS", "192.168.1.1:443")
					be.ForwardServerName = c17Name
					be.ForwardRootCAs = []string{vxCM.RootCAPEM()}
					s := c17Sim(w, be)
					tc := tlsCert(servers[n])
					if staple != "" {
						tc.OCSPStaple = c17Make(staple, servers[n], ca)
					}
					s.webUpstreamTLS("192.168.1.1:443", &tls.Config{Certificates: []tls.Certificate{*tc}, NextProtos: []string{"http/1.1"}}, http.HandlerFunc(func(rw http.ResponseWriter, req *http.Request) {
						io.WriteString(rw, "hello")
					}))
					want := n == 0 || staple != "revoked" && (staple == "good" || k.verdict == 'G' || k.verdict == 'g')
					c, err := s.dial("c", c17Name, []string{"http/1.1"}, "192.0.2.1:0", nil)
					if err != nil {
						w.violation("backend-error", "%v", err)
						return
					}
					st, body, err := c.get(c17Name, "/")
					r.Step(1)
					r.Outcome("backend %d", st)
					if n == 0 && staple == "revoked" {
						// Without an address, whether OCSP is used isn't specified.
					} else if ok := err == nil && st == 200 && body == "hello"; ok != want {
						w.violation(fmt.Sprintf("backend-%v:%s:%s", ok, k.name, staple), "served %v: %d %q %v", ok, st, body, err)
					}
					c.raw.Close()
				})
			}
		}
	}
}

func c17Sim(w *c17World, be *Backend) *sim {
	oc := simStuff.oc
	defer func() { simStuff.oc = oc }()
	simStuff.oc = w.cache
	return newSim(w.x, simCfg(be))
}

var _ = vnet.Begin
