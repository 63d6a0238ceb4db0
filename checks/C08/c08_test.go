package tokenmanager

import (
	"context"
	"crypto"
	"crypto/ecdsa"
	"crypto/ed25519"
	"crypto/elliptic"
	"crypto/rand"
	"crypto/rsa"
	"encoding/base64"
	"encoding/json"
	"fmt"
	"math/big"
	"net/http/httptest"
	"strings"
	"testing"
	"testing/synctest"
	"time"

	"github.com/c2FmZQ/storage"
	mkc "github.com/c2FmZQ/storage/crypto"
	jwt "github.com/golang-jwt/jwt/v5"

	"github.com/c2FmZQ/tlsproxy/internal/vsched"
	"github.com/c2FmZQ/tlsproxy/internal/vx"
	vos "github.com/c2FmZQ/tlsproxy/zzvx/vos"
)

type c08Quiet struct{}

func (c08Quiet) Errorf(string, ...any) {}

var c08Algs = []string{"", "ES256", "RS256"}

// c08JWKS reads the published key set as RFC 7517 and 7518 say.
func c08JWKS(tm *TokenManager) (map[string]crypto.PublicKey, error) {
	rec := httptest.NewRecorder()
	tm.ServeJWKS(rec, httptest.NewRequest("GET", "/jwks", nil))
	if rec.Code != 200 {
		return nil, fmt.Errorf("status %d", rec.Code)
	}
	var set struct {
		Keys []map[string]string `json:"keys"`
	}
	if err := json.Unmarshal(rec.Body.Bytes(), &set); err != nil {
		return nil, err
	}
	out := map[string]crypto.PublicKey{}
	for _, k := range set.Keys {
		dec := func(f string, size int) []byte {
			b, err := base64.RawURLEncoding.Strict().DecodeString(k[f])
			if err != nil || size > 0 && len(b) != size || len(b) == 0 || size == 0 && b[0] == 0 {
				return nil
			}
			return b
		}
		if k["kid"] == "" || out[k["kid"]] != nil {
			return nil, fmt.Errorf("key id %q is empty or repeated", k["kid"])
		}
		switch k["kty"] {
		case "EC":
			x, y := dec("x", 32), dec("y", 32)
			if k["crv"] != "P-256" || k["alg"] != "ES256" || x == nil || y == nil {
				return nil, fmt.Errorf("malformed EC key %v", k)
			}
			pk := &ecdsa.PublicKey{Curve: elliptic.P256(), X: new(big.Int).SetBytes(x), Y: new(big.Int).SetBytes(y)}
			if !pk.Curve.IsOnCurve(pk.X, pk.Y) {
				return nil, fmt.Errorf("not on the curve: %v", k)
			}
			out[k["kid"]] = pk
		case "OKP":
			x := dec("x", 32)
			if k["crv"] != "Ed25519" || k["alg"] != "EdDSA" || x == nil {
				return nil, fmt.Errorf("malformed OKP key %v", k)
			}
			out[k["kid"]] = ed25519.PublicKey(x)
		case "RSA":
			n, e := dec("n", 0), dec("e", 0)
			if k["alg"] != "RS256" || n == nil || e == nil {
				return nil, fmt.Errorf("malformed RSA key %v", k)
			}
			out[k["kid"]] = &rsa.PublicKey{N: new(big.Int).SetBytes(n), E: int(new(big.Int).SetBytes(e).Int64())}
		default:
			return nil, fmt.Errorf("unknown key type %v", k)
		}
		if k["use"] != "sig" {
			return nil, fmt.Errorf("use %q", k["use"])
		}
	}
	return out, nil
}

type c08Token struct {
	tok    string
	alg    string
	kid    string
	issued time.Time
	exp    time.Time
}

type c08World struct {
	r    *vx.R
	id   string
	mk   mkc.MasterKey
	tm   *TokenManager
	stop func()
	live []*c08Token
	bad  bool
	n    int
	// when the disk last failed
	failed time.Time
}

func (w *c08World) start() bool {
	tm, err := New(storage.New("/cache", w.mk), nil, c08Quiet{})
	if err != nil {
		w.violation("start", "the token manager doesn't start: %v", err)
		return false
	}
	w.tm = tm
	ctx, cancel := context.WithCancel(context.Background())
	done := make(chan bool)
	go func() {
		tm.KeyRotationLoop(ctx)
		close(done)
	}()
	w.stop = func() { cancel(); <-done }
	return true
}

func (w *c08World) violation(key, f string, a ...any) {
	if !w.bad {
		w.r.Violation(key, "%s: "+f, append([]any{w.id}, a...)...)
	}
	w.bad = true
}

// issue makes a token of each algorithm (RSA ones less often).
func (w *c08World) issue() {
	defer func() {
		if e := recover(); e != nil {
			w.violation("create", "no token can be made: panic: %v", e)
		}
	}()
	for _, alg := range c08Algs {
		if alg == "RS256" && w.n%8 != 0 {
			continue
		}
		now := time.Now()
		c := jwt.MapClaims{"iat": now.Unix(), "exp": now.Add(24 * time.Hour).Unix(), "n": w.n}
		s, err := w.tm.CreateToken(c, alg)
		if err != nil {
			w.violation("create", "no token can be made: %v", err)
			return
		}
		p, _, err := new(jwt.Parser).ParseUnverified(s, jwt.MapClaims{})
		if err != nil {
			w.violation("create", "malformed token: %v", err)
			return
		}
		kid, _ := p.Header["kid"].(string)
		t := &c08Token{tok: s, alg: p.Method.Alg(), kid: kid, issued: now, exp: now.Add(24 * time.Hour)}
		if want := alg; want != "" && t.alg != want {
			w.violation("alg", "asked for %s, got %s", want, t.alg)
		}
		// The latest token of each key is as good as the others.
		for i, o := range w.live {
			if o.kid == kid && o.alg == t.alg {
				w.live = append(w.live[:i], w.live[i+1:]...)
				break
			}
		}
		w.live = append(w.live, t)
	}
}

func (w *c08World) verify(when string) {
	now := time.Now()
	var keys map[string]crypto.PublicKey
	var err error
	if keys, err = c08JWKS(w.tm); err != nil {
		w.violation("jwks", "%v", err)
		return
	}
	out := w.live[:0]
	for _, t := range w.live {
		if !now.Before(t.exp) {
			if _, err := w.tm.ValidateToken(t.tok); err == nil && now.After(t.exp) {
				w.violation("expired", "a token is accepted after its expiry")
			}
			continue
		}
		out = append(out, t)
		w.r.Step(1)
		if _, err := w.tm.ValidateToken(t.tok); err != nil {
			w.violation("invalidated", "%s: a %s token issued %v ago, that expires in %v, doesn't verify any more: %v", when, t.alg, now.Sub(t.issued).Round(time.Minute), t.exp.Sub(now).Round(time.Minute), err)
			return
		}
		pk := keys[t.kid]
		if pk == nil {
			w.violation("unpublished", "%s: the key of a %s token issued %v ago isn't published", when, t.alg, now.Sub(t.issued))
			return
		}
		if _, err := jwt.Parse(t.tok, func(*jwt.Token) (any, error) { return pk, nil }, jwt.WithValidMethods([]string{t.alg})); err != nil {
			w.violation("published-key", "%s: a %s token doesn't verify with the published key: %v", when, t.alg, err)
			return
		}
	}
	w.live = out
}

// run lets time pass while the proxy is up.
func (w *c08World) run(d time.Duration, when string) {
	// Never at the very instant the keys are rotated.
	time.Sleep(7 * time.Second)
	for e := time.Now().Add(d); time.Now().Before(e) && !w.bad; {
		step := e.Sub(time.Now())
		if step > time.Hour {
			step = time.Hour
		}
		time.Sleep(step)
		if w.n++; w.n%2 == 0 {
			w.issue()
		}
		if soon := w.soon(); w.n%4 == 0 || soon {
			w.verify(when)
		}
	}
}

// soon tells whether a token expires within the next two hours.
func (w *c08World) soon() bool {
	for _, t := range w.live {
		if d := time.Until(t.exp); d > 0 && d <= time.Hour {
			return true
		}
	}
	return false
}

type c08Action struct {
	name string
	f    func(w *c08World)
}

func c08Run(d time.Duration) func(w *c08World) {
	return func(w *c08World) { w.run(d, "running") }
}

func c08Down(d time.Duration) func(w *c08World) {
	return func(w *c08World) {
		w.stop()
		time.Sleep(d)
		if w.start() {
			w.verify("after a restart")
			w.issue()
			w.verify("after a restart")
		}
	}
}

func c08Fail(kind string, d time.Duration, restart bool) func(w *c08World) {
	return func(w *c08World) {
		vos.Fail(func(k, f string) bool { return k == kind && (kind != "create" || strings.Contains(f, ".tmp-")) })
		w.run(d, "while the disk fails")
		vos.Fail(nil)
		// A lock may be left behind.
		w.failed = time.Now()
		if restart && !w.bad {
			w.stop()
			time.Sleep(15 * time.Minute)
			if w.start() {
				w.verify("after a restart")
			}
		}
	}
}

func TestVX(t *testing.T) {
	r := vx.Start(t, "C08")
	defer r.Done()
	var mk mkc.MasterKey
	mk, err := mkc.CreateAESMasterKey(mkc.WithLogger(c08Log{}))
	if err != nil {
		t.Fatal(err)
	}
	h := time.Hour
	day := 24 * h
	acts := []c08Action{
		{"run3h", c08Run(3 * h)},
		{"run26h", c08Run(26 * h)},
		{"run8d", c08Run(8*day + h)},
		{"down0", c08Down(10 * time.Second)},
		{"down23h", c08Down(23 * h)},
		{"down6d12h", c08Down(6*day + 12*h)},
		{"down6d23h", c08Down(6*day + 23*h)},
		{"down8d", c08Down(8 * day)},
		{"down30d", c08Down(30 * day)},
		{"nowrite4h", c08Fail("create", 4*h, false)},
		{"norename30h", c08Fail("rename", 30*h, true)},
		{"nowrite8d", c08Fail("create", 8*day, false)},
		{"nounlock2h", c08Fail("remove", 2*h, false)},
		{"noread3h", c08Fail("read", 3*h, false)},
	}
	depth := r.Pick(3, 4)
	r.Bound("history length", depth)
	budget := r.Pick(1, 2) // periods of 8 days
	r.Bound("periods of 8 days", budget)
	vx.Sequences(len(acts), 1, depth, func(seq []int) bool {
		var names []string
		long := 0
		for _, a := range seq {
			if acts[a].name == "run8d" || acts[a].name == "nowrite8d" {
				long++
			}
		}
		if long > budget || long > 0 && len(seq) > r.Pick(2, 3) {
			return true
		}
		for i, a := range seq {
			n := acts[a].name
			names = append(names, n)
			// Long ones only once.
			for _, b := range seq[:i] {
				if b == a && (strings.HasSuffix(n, "8d") || strings.HasSuffix(n, "30d")) {
					return true
				}
			}
		}
		if len(seq) > 2 && !r.Thorough() {
			for _, n := range names {
				if strings.Contains("run3h down6d12h nounlock2h noread3h nowrite4h", n) {
					return true
				}
			}
		}
		id := "history/" + strings.Join(names, ",")
		if !r.Case(id) {
			return true
		}
		r.Exec()
		synctest.Run(func() {
			vos.Reset()
			w := &c08World{r: r, id: id, mk: mk}
			if !w.start() {
				return
			}
			w.issue()
			for _, a := range seq {
				if !w.bad {
					acts[a].f(w)
				}
			}
			if !w.bad {
				w.run(25*h, "at the end")
			}
			// In the end, old keys are gone.
			if !w.bad && (len(seq) == 1 || len(w.tm.keys.Keys) > 27) {
				if len(w.tm.keys.Keys) > 27 {
					w.r.Outcome("many keys")
				}
				time.Sleep(8 * day)
				for _, k := range w.tm.keys.Keys {
					if time.Since(k.CreationTime) > 9*day {
						w.violation("old-key", "a key is published %v after it was made", time.Since(k.CreationTime))
					}
				}
			}
			r.State("keys", len(w.tm.keys.Keys), len(w.live))
			r.Outcome("%d keys", len(w.tm.keys.Keys))
			w.stop()
		})
		return true
	})
	c08Forms(r, mk)
	c08Races(r, mk)
}

type c08Log struct{}

func (c08Log) Debug(...any)          {}
func (c08Log) Debugf(string, ...any) {}
func (c08Log) Info(...any)           {}
func (c08Log) Infof(string, ...any)  {}
func (c08Log) Error(...any)          {}
func (c08Log) Errorf(string, ...any) {}
func (c08Log) Fatal(a ...any)        { panic(fmt.Sprint(a...)) }
func (c08Log) Fatalf(f string, a ...any) {
	panic(fmt.Sprintf(f, a...))
}

// c08Forms publishes keys with every shape of coordinates.
func c08Forms(r *vx.R, mk mkc.MasterKey) {
	// EC keys whose coordinates have no or some leading zeros.
	for zx := 0; zx < 2; zx++ {
		for zy := 0; zy < 2; zy++ {
			id := fmt.Sprintf("form/ec-%d-%d", zx, zy)
			if !r.Case(id) {
				continue
			}
			r.Exec()
			r.Step(1)
			var key *ecdsa.PrivateKey
			for {
				k, err := ecdsa.GenerateKey(elliptic.P256(), rand.Reader)
				if err != nil {
					r.T.Fatal(err)
				}
				if (k.X.BitLen() <= 248) == (zx == 1) && (k.Y.BitLen() <= 248) == (zy == 1) {
					key = k
					break
				}
			}
			vos.Reset()
			tm, err := New(storage.New("/cache", mk), nil, c08Quiet{})
			if err != nil {
				r.T.Fatal(err)
			}
			tm.keys = tokenKeys{Keys: []*tokenKey{{ID: "k", privKey: key, CreationTime: time.Now()}}}
			keys, err := c08JWKS(tm)
			if err != nil {
				r.Violation("jwks", "%s: %v", id, err)
				continue
			}
			if pk, ok := keys["k"].(*ecdsa.PublicKey); !ok || !pk.Equal(key.Public()) {
				r.Violation("jwks-key", "%s: another key is published", id)
			}
		}
	}
	// The entity tag says whether the set is the same.
	if r.Case("form/etag") {
		r.Exec()
		vos.Reset()
		tm, err := New(storage.New("/cache", mk), nil, c08Quiet{})
		if err != nil {
			r.T.Fatal(err)
		}
		get := func(tag string) *httptest.ResponseRecorder {
			rec := httptest.NewRecorder()
			req := httptest.NewRequest("GET", "/jwks", nil)
			if tag != "" {
				req.Header.Set("If-None-Match", tag)
			}
			tm.ServeJWKS(rec, req)
			return rec
		}
		tag := get("").Header().Get("Etag")
		if rec := get(tag); rec.Code != 304 {
			r.Outcome("etag not used: %d", rec.Code)
		}
		tm.keys.Keys = tm.keys.Keys[1:]
		if rec := get(tag); rec.Code != 200 {
			r.Violation("jwks-etag", "another key set has the same entity tag")
		}
	}
}

func c08Races(r *vx.R, mk mkc.MasterKey) {
	for _, sc := range []struct {
		name string
		age  time.Duration
	}{{"rotate-25h", 25 * time.Hour}, {"drop-8d", 8 * 24 * time.Hour}, {"fresh", time.Hour}} {
		id := "race/" + sc.name
		vsched.Explore(r, id, vsched.Opts{Deviations: r.Pick(3, 4)}, func(x *vsched.X) func() {
			vos.Reset()
			tm, err := New(storage.New("/cache", mk), nil, c08Quiet{})
			if err != nil {
				r.T.Fatal(err)
			}
			claims := func() jwt.MapClaims { return jwt.MapClaims{"exp": time.Now().Add(20 * time.Hour).Unix()} }
			time.Sleep(sc.age)
			before, err := tm.CreateToken(claims(), "")
			if err != nil {
				r.Violation("create", "%v", err)
				return nil
			}
			var during string
			var errs []error
			check := func(s string) {
				if _, err := tm.ValidateToken(s); err != nil {
					errs = append(errs, err)
				}
			}
			x.Go("rotate", func() {
				if err := tm.rotateKeys(); err != nil && err != storage.ErrRolledBack {
					errs = append(errs, err)
				}
			})
			x.Go("issue", func() {
				s, err := tm.CreateToken(claims(), "ES256")
				if err != nil {
					errs = append(errs, err)
					return
				}
				during = s
				check(s)
			})
			x.Go("verify", func() {
				check(before)
				if _, err := c08JWKS(tm); err != nil {
					errs = append(errs, err)
				}
				check(before)
			})
			return func() {
				if len(x.Stuck)+len(x.Blocked) > 0 {
					r.Violation("race-stuck", "%s: %v %v", x.ID, x.Stuck, x.Blocked)
					return
				}
				if during != "" {
					check(during)
				}
				check(before)
				tm2, err := New(storage.New("/cache", mk), nil, c08Quiet{})
				if err != nil {
					r.Violation("start", "%s: %v", x.ID, err)
					return
				}
				for _, s := range []string{before, during} {
					if _, err := tm2.ValidateToken(s); err != nil {
						errs = append(errs, fmt.Errorf("after a restart: %w", err))
					}
				}
				r.Outcome("race errors %d", len(errs))
				if len(errs) > 0 {
					r.Violation("race", "%s: %v", x.ID, errs)
				}
			}
		})
	}
}
