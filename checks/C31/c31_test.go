package proxy

import (
	"fmt"
	"net/http"
	"runtime/debug"
	"strings"
	"testing"
	"time"

	"github.com/c2FmZQ/storage"
	mkc "github.com/c2FmZQ/storage/crypto"

	"github.com/c2FmZQ/tlsproxy/internal/vsched"
	"github.com/c2FmZQ/tlsproxy/internal/vx"
	"github.com/c2FmZQ/tlsproxy/proxy/internal/ocspcache"
	vos "github.com/c2FmZQ/tlsproxy/zzvx/vos"
)

type c31Provider struct {
	name, domain, callback string
}

type c31Host struct {
	name     string
	provider *c31Provider
	force    time.Duration
	generate bool
	paths    []string // where a login is required
}

var (
	c31A = &c31Provider{"idpA", "example.com", "https://sso.example.com/a"}
	c31B = &c31Provider{"idpB", "example.com", "https://sso.example.com/b"}
	c31C = &c31Provider{"idpC", "", "https://h6.example.com/cb"}
	c31D = &c31Provider{"idpD", "h7.example.com", "https://h7.example.com/cb"}

	c31Hosts = []*c31Host{
		{name: "h1.example.com", provider: c31A},
		{name: "h2.example.com", provider: c31A, force: time.Hour},
		{name: "xn--bcher-kva.example.com", provider: c31A, force: 30 * time.Minute},
		{name: "h4.example.com", provider: c31B},
		{name: "h5.example.com", provider: c31A, force: 30 * time.Hour, generate: true},
		{name: "h6.example.com", provider: c31C},
		{name: "a.h7.example.com", provider: c31D, force: 2 * time.Hour},
		{name: "h8.example.com", provider: c31A, generate: true},
		{name: "h9.example.com", provider: c31A, paths: []string{"/private/"}},
	}
)

func c31Config() *Config {
	cfg := simCfg()
	for _, h := range []string{"sso.example.com", "h7.example.com"} {
		cfg.Backends = append(cfg.Backends, &Backend{ServerNames: []string{h}, Mode: "LOCAL"})
	}
	for _, h := range c31Hosts {
		be := simHTTPBackend(h.name, "HTTP", "192.168.1.1:80")
		be.SSO = &BackendSSO{Provider: h.provider.name, GenerateIDTokens: h.generate, SetUserIDHeader: true, ForceReAuth: h.force, Paths: h.paths}
		cfg.Backends = append(cfg.Backends, be)
	}
	for _, p := range []*c31Provider{c31A, c31B, c31C, c31D} {
		cfg.OIDCProviders = append(cfg.OIDCProviders, vxIDP(p.name, p.domain, p.callback))
	}
	return cfg
}

// c31Session is what the model knows of a login.
type c31Session struct {
	provider *c31Provider
	host     string
	email    string
	at       time.Time
}

type c31World struct {
	r        *vx.R
	x        *vsched.X
	s        *sim
	b        *simBrowser
	id       string
	user     string
	hits     int
	n        int
	sessions map[string]*c31Session // by domain
	bearers  map[string]time.Time   // with their expiration
}

func (w *c31World) violation(key, f string, a ...any) {
	w.r.Violation(key, "%s: "+f, append([]any{w.id}, a...)...)
}

const c31Life = 20 * time.Hour

// covers says whether a cookie of a domain is sent to a host.
func c31Domain(p *c31Provider) string {
	if p.domain == "" {
		return "=h6.example.com"
	}
	return p.domain
}

func (w *c31World) session(h *c31Host) *c31Session {
	s := w.sessions[c31Domain(h.provider)]
	if s == nil || s.provider != h.provider || time.Since(s.at) >= c31Life {
		return nil
	}
	return s
}

// accepted says whether the browser's session is good for a host.
func (w *c31World) accepted(h *c31Host) bool {
	s := w.session(h)
	return s != nil && (h.force == 0 || s.host == h.name && time.Since(s.at) <= h.force)
}

func (w *c31World) path(h *c31Host) string {
	if len(h.paths) > 0 {
		return h.paths[0] + "x?a=b&c=%2F"
	}
	return "/x?a=b&c=%2F"
}

// visit requests a page, and compares.
func (w *c31World) visit(h *c31Host) {
	want := w.accepted(h)
	hits := w.hits
	w.user = ""
	p, _ := w.b.follow(w.b.get("https://" + h.name + w.path(h)))
	w.r.Step(1)
	got := w.hits > hits
	s := w.session(h)
	desc := "no session"
	if s != nil {
		desc = fmt.Sprintf("session from %s, %v old", s.host, time.Since(s.at))
	}
	desc = fmt.Sprintf("%s (re-login after %v, %s): %d %v", h.name, h.force, desc, p.status, p.err)
	w.r.Outcome(fmt.Sprintf("%s %v %d", h.name, got, p.status))
	switch {
	case p.err != nil:
		w.violation("error", "%s", desc)
	case want && !got:
		w.violation("refused", "the session isn't accepted at %s", desc)
	case !want && got:
		w.violation("accepted", "served as %q without a good session at %s", w.user, desc)
	case got && w.user != s.email:
		w.violation("identity", "served as %q instead of %q at %s", w.user, s.email, desc)
	case !got && p.status != 403:
		w.violation("status", "%s", desc)
	}
	if len(h.paths) > 0 {
		w.user = ""
		p := w.b.get("https://" + h.name + "/public")
		if e := w.session(h); p.status != 200 || e == nil && w.user != "" || e != nil && w.user != e.email {
			w.violation("public", "%d as %q at %s", p.status, w.user, desc)
		}
	}
	if h.generate {
		for tok, exp := range w.bearers {
			hits := w.hits
			p := w.s.browser("bearer").do("GET", h.name, "/", map[string]string{"Authorization": "Bearer " + tok}, "")
			if w.hits > hits && (h.force != 0 || !time.Now().Before(exp)) {
				w.violation("bearer", "an ID token that expired %v ago is accepted at %s", time.Since(exp), desc)
			} else if w.hits == hits && p.status != 403 {
				w.violation("bearer", "%d %v", p.status, p.err)
			}
		}
		if v := c31Cookie(w.b, h.name, "TLSPROXYIDTOKEN"); v != "" && s != nil && got {
			if _, ok := w.bearers[v]; !ok && len(w.bearers) < 3 {
				w.bearers[v] = s.at.Truncate(time.Second).Add(c31Life)
			}
		}
	}
}

func c31Cookie(b *simBrowser, host, name string) string {
	req, _ := http.NewRequest("GET", "https://"+host+"/", nil)
	for _, c := range b.jar.Cookies(req.URL) {
		if c.Name == name {
			return c.Value
		}
	}
	return ""
}

func (w *c31World) probe() {
	for _, h := range c31Hosts {
		w.visit(h)
	}
}

func (w *c31World) record(h *c31Host, email string) {
	w.sessions[c31Domain(h.provider)] = &c31Session{h.provider, h.name, email, time.Now().Truncate(time.Second)}
}

// login asks for a page, and goes through the login if there is one.
func (w *c31World) login(h *c31Host) {
	want := !w.accepted(h)
	w.n++
	email := fmt.Sprintf("u%d@example.com", w.n)
	hits := w.hits
	w.user = ""
	p, got, err := w.b.login("https://"+h.name+w.path(h), email)
	if got != want {
		w.violation("login", "login %v instead of %v at %s: %v", got, want, h.name, err)
	}
	if !got {
		return
	}
	if err != nil {
		w.violation("flow", "login at %s: %v", h.name, err)
		return
	}
	w.record(h, email)
	if w.hits == hits || w.user != email || p.url != "https://"+h.name+w.path(h) {
		w.violation("back", "after the login at %s: %q %d as %q", h.name, p.url, p.status, w.user)
	}
}

// again is a new login on request.
func (w *c31World) again(h *c31Host) {
	if w.accepted(h) {
		p := w.b.get("https://" + h.name + "/.sso/")
		m := c31SwitchRE(p.body)
		if m == "" {
			w.violation("status", "no account switch on the status page of %s: %d %s", h.name, p.status, p.body)
			return
		}
		w.n++
		email := fmt.Sprintf("u%d@example.com", w.n)
		p = w.b.get("https://" + h.name + "/.sso/logout?u=" + m)
		if s := w.sessions[c31Domain(h.provider)]; s != nil {
			delete(w.sessions, c31Domain(h.provider))
		}
		if p.status != 302 {
			w.violation("switch", "%d at %s", p.status, h.name)
			return
		}
		p = w.b.authenticate(p.location(), email)
		if p.err != nil || p.status != 302 || p.location() != "https://"+h.name+"/.sso/" {
			w.violation("switch", "%d %v %q", p.status, p.err, p.location())
			return
		}
		w.record(h, email)
		w.b.follow(p)
		return
	}
	w.login(h)
}

func c31SwitchRE(body string) string {
	_, v, ok := strings.Cut(body, "/.sso/logout?u=")
	if !ok {
		return ""
	}
	v, _, _ = strings.Cut(v, `"`)
	return v
}

func (w *c31World) logout(h *c31Host) {
	w.b.follow(w.b.get("https://" + h.name + "/.sso/logout"))
	delete(w.sessions, c31Domain(h.provider))
}

func c31Bubble(r *vx.R, id string, f func(w *c31World)) {
	vsched.Bubble(r, id, func(x *vsched.X) {
		time.Sleep(time.Hour + 250*time.Millisecond)
		w := &c31World{r: r, x: x, id: id, sessions: map[string]*c31Session{}, bearers: map[string]time.Time{}}
		w.s = newSim(x, c31Config())
		w.b = w.s.browser("browser")
		w.s.webUpstream("192.168.1.1:80", "", http.HandlerFunc(func(rw http.ResponseWriter, req *http.Request) {
			w.hits++
			w.user = req.Header.Get("X-Tlsproxy-User-Id")
			rw.Write([]byte("ok"))
		}))
		f(w)
		if w.s.panicked() {
			w.violation("panic", "the proxy panicked")
		}
	})
}

func TestVX(t *testing.T) {
	r := vx.Start(t, "C31")
	defer r.Done()
	defer simFakeIDP()()
	names := []string{"sso.example.com", "h7.example.com"}
	for _, h := range c31Hosts {
		names = append(names, h.name)
	}
	simInit(r, names...)
	// The cache is written every minute.
	vos.Reset()
	debug.SetGCPercent(2000)
	debug.SetMemoryLimit(1 << 30)
	mk, err := mkc.CreateAESMasterKeyForTest()
	if err != nil {
		t.Fatal(err)
	}
	simStuff.oc = ocspcache.New(storage.New("/cache", mk), vxLog{})
	type op struct {
		name string
		f    func(w *c31World)
	}
	var ops []op
	for _, i := range []int{0, 1, 3, 5, 6} {
		h := c31Hosts[i]
		ops = append(ops, op{"login:" + h.name, func(w *c31World) { w.login(h) }})
	}
	ops = append(ops,
		op{"abandon", func(w *c31World) {
			// A login that doesn't go any further than the provider.
			for _, i := range []int{0, 6} {
				h := c31Hosts[i]
				p := w.b.get("https://" + h.name + w.path(h))
				if m := simRedirectRE.FindStringSubmatch(p.body); p.status == 403 && m != nil {
					w.b.get("https://" + h.name + "/.sso/login?redirect=" + m[1])
				}
			}
		}},
		op{"switch", func(w *c31World) { w.again(c31Hosts[0]) }},
		op{"logout", func(w *c31World) { w.logout(c31Hosts[4]) }},
		op{"logout6", func(w *c31World) { w.logout(c31Hosts[5]) }},
		op{"probe", func(w *c31World) { w.probe() }},
		op{"reload", func(w *c31World) {
			if err := w.s.p.Reconfigure(c31Config()); err != nil {
				w.violation("reload", "%v", err)
			}
			time.Sleep(time.Second)
			w.b.drop()
		}},
		op{"31m", func(w *c31World) { time.Sleep(31 * time.Minute) }},
		op{"10h", func(w *c31World) { time.Sleep(10 * time.Hour) }},
	)
	// Ages.
	second := time.Second
	for i, h := range c31Hosts {
		for _, g := range c31Hosts {
			if i > 0 && g != h && g != c31Hosts[0] {
				continue
			}
			for _, d := range []time.Duration{0, time.Minute, 30*time.Minute - second, 30*time.Minute + second, time.Hour - second, time.Hour + second, 2*time.Hour - second, 2*time.Hour + second, c31Life - second, c31Life + second, 24*time.Hour + second, 30*time.Hour + second} {
				for _, how := range []string{"idle", "busy", "again"} {
					if g != h && how != "busy" && !r.Thorough() {
						continue
					}
					id := fmt.Sprintf("age/%s/%s/%v/%s", h.name, g.name, d, how)
					if !r.Case(id) {
						continue
					}
					r.Exec()
					c31Bubble(r, id, func(w *c31World) {
						w.login(h)
						if how != "idle" {
							w.visit(g)
							time.Sleep(d / 2)
							w.probe()
							time.Sleep(d - d/2)
						} else {
							time.Sleep(d)
						}
						w.visit(g)
						w.visit(h)
						if how == "again" {
							w.login(g)
							w.login(h)
							w.login(g)
						}
						w.probe()
					})
				}
			}
		}
	}
	max := r.Pick(3, 4)
	r.Bound("history length", max)
	vx.Sequences(len(ops), 1, max, func(seq []int) bool {
		var names []string
		for _, o := range seq {
			names = append(names, ops[o].name)
		}
		id := "history/" + strings.Join(names, ",")
		if !r.Case(id) {
			return true
		}
		r.Exec()
		c31Bubble(r, id, func(w *c31World) {
			w.login(c31Hosts[0])
			for _, o := range seq {
				ops[o].f(w)
			}
			w.probe()
		})
		return !r.Expired()
	})
}
