package proxy

import (
	"context"
	"crypto/tls"
	"crypto/x509"
	"crypto/x509/pkix"
	"fmt"
	"io"
	"net"
	"net/http"
	"net/url"
	"os"
	"path/filepath"
	"regexp"
	"runtime/debug"
	"sort"
	"strconv"
	"strings"
	"testing"
	"time"

	"golang.org/x/net/html"

	"github.com/c2FmZQ/tlsproxy/internal/vnet"
	"github.com/c2FmZQ/tlsproxy/internal/vsched"
	"github.com/c2FmZQ/tlsproxy/internal/vx"
)

const c37Console = "console.example.com"

// c37Page is what the page says.
type c37Page struct {
	metrics map[string][]string // count, egress, rate, ingress, rate
	events  map[string]string
	in      []c37In
	out     []c37Out
	rows    int
	text    string
	tags    map[string]int
	evil    bool // an element or attribute that clients made up
	config  string
}

type c37In struct {
	source, desc, egress, ingress string
	dests                         []string
	client                        string
	rates                         []string
}

type c37Out struct {
	backend, desc, egress, ingress string
}

var c37Bytes = regexp.MustCompile(`^Elapsed:(\S+) Egress:(.*) \((.*)/s\) Ingress:(.*) \((.*)/s\)$`)

func c37Text(n *html.Node) string {
	if n.Type == html.TextNode {
		return n.Data
	}
	var sb strings.Builder
	for c := n.FirstChild; c != nil; c = c.NextSibling {
		sb.WriteString(c37Text(c))
	}
	return sb.String()
}

func c37Elems(n *html.Node) []*html.Node {
	var out []*html.Node
	for c := n.FirstChild; c != nil; c = c.NextSibling {
		if c.Type == html.ElementNode {
			out = append(out, c)
		}
	}
	return out
}

func c37Class(n *html.Node, k, v string) bool {
	for _, a := range n.Attr {
		if a.Key == k {
			for _, f := range strings.Fields(a.Val) {
				if f == v {
					return true
				}
			}
		}
	}
	return false
}

// leaves returns the texts of the innermost div elements.
func c37Leaves(n *html.Node) []string {
	var out []string
	var walk func(n *html.Node) bool
	walk = func(n *html.Node) bool {
		inner := false
		for _, c := range c37Elems(n) {
			if walk(c) {
				inner = true
			}
		}
		if n.Data == "div" && !inner {
			out = append(out, strings.TrimSpace(c37Text(n)))
		}
		return n.Data == "div" || inner
	}
	walk(n)
	return out
}

func c37Parse(body string) (*c37Page, error) {
	doc, err := html.Parse(strings.NewReader(body))
	if err != nil {
		return nil, err
	}
	p := &c37Page{metrics: map[string][]string{}, events: map[string]string{}, text: c37Text(doc), tags: map[string]int{}}
	panels := map[string]*html.Node{}
	var walk func(n *html.Node)
	walk = func(n *html.Node) {
		if n.Type == html.ElementNode {
			p.tags[n.Data]++
			if strings.Contains(n.Data, "zzx") {
				p.evil = true
			}
			for _, a := range n.Attr {
				if strings.Contains(a.Key, "zzx") || strings.Contains(a.Val, "zzx") {
					p.evil = true
				}
				if a.Key == "id" && strings.HasPrefix(a.Val, "panel-") {
					panels[a.Val] = n
				}
			}
		}
		if n.Type == html.CommentNode && strings.Contains(n.Data, "zzx") {
			p.evil = true
		}
		for c := n.FirstChild; c != nil; c = c.NextSibling {
			if (n.Data == "script" || n.Data == "style") && strings.Contains(c.Data, "zzx") {
				p.evil = true
			}
			walk(c)
		}
	}
	walk(doc)
	if panels["panel-backend-metrics"] == nil || panels["panel-events"] == nil || panels["panel-connections"] == nil || panels["panel-config"] == nil {
		return nil, fmt.Errorf("not the status page: %.100q", body)
	}
	p.config = c37Text(panels["panel-config"])
	rows := func(n *html.Node) [][]string {
		var out [][]string
		var walk func(n *html.Node)
		walk = func(n *html.Node) {
			if c37Class(n, "class", "row") {
				var r []string
				for _, c := range c37Elems(n) {
					r = append(r, strings.TrimSpace(c37Text(c)))
				}
				out = append(out, r)
				return
			}
			for _, c := range c37Elems(n) {
				walk(c)
			}
		}
		walk(n)
		return out
	}
	for _, r := range rows(panels["panel-backend-metrics"]) {
		if len(r) != 6 || p.metrics[r[0]] != nil {
			return nil, fmt.Errorf("metrics: %q", r)
		}
		p.metrics[r[0]] = r[1:]
	}
	for _, r := range rows(panels["panel-events"]) {
		if len(r) != 2 || p.events[r[1]] != "" {
			return nil, fmt.Errorf("events: %q", r)
		}
		p.events[r[1]] = r[0]
	}
	group := 0
	for _, c := range c37Elems(panels["panel-connections"]) {
		if !c37Class(c, "class", "group") {
			continue
		}
		group++
		be := ""
		for _, d := range c37Elems(c) {
			l := c37Leaves(d)
			if len(l) == 1 && strings.HasPrefix(l[0], "Backend:") {
				be = strings.TrimSpace(l[0][8:])
				continue
			}
			if len(l) < 2 {
				return nil, fmt.Errorf("connections: %q", l)
			}
			m := c37Bytes.FindStringSubmatch(l[len(l)-1])
			if m == nil {
				return nil, fmt.Errorf("connections: %q", l)
			}
			if group == 1 {
				in := c37In{source: l[0], desc: l[1], egress: m[2], ingress: m[4], rates: []string{m[3], m[5]}}
				for _, x := range l[2 : len(l)-1] {
					if strings.HasPrefix(x, "X509 [") {
						in.client = x
					} else if x != "" && x != "\u00a0" {
						in.dests = append(in.dests, x)
					}
				}
				p.in = append(p.in, in)
			} else {
				p.out = append(p.out, c37Out{backend: be, desc: l[0], egress: m[2], ingress: m[4]})
			}
		}
	}
	return p, nil
}

func c37Size(n int64) string {
	switch {
	case n > 1000000000:
		return fmt.Sprintf("%.1f GB", float64(n)/1e9)
	case n > 1000000:
		return fmt.Sprintf("%.1f MB", float64(n)/1e6)
	case n > 1000:
		return fmt.Sprintf("%.1f KB", float64(n)/1e3)
	}
	return fmt.Sprintf("%d \u00a0B", n)
}

// c37Conn counts bytes.
type c37Conn struct {
	net.Conn
	sent, recv, first int64
	tls               *tls.Conn
	name, mode        string
}

func (c *c37Conn) Read(b []byte) (int, error) {
	n, err := c.Conn.Read(b)
	c.recv += int64(n)
	return n, err
}

func (c *c37Conn) Write(b []byte) (int, error) {
	n, err := c.Conn.Write(b)
	c.sent += int64(n)
	if c.first == 0 {
		c.first = int64(n)
	}
	return n, err
}

func c37View(s *sim, b *simBrowser) (*c37Page, simPage, error) {
	p := b.get("https://" + c37Console + "/")
	if p.err != nil {
		return nil, p, p.err
	}
	if p.status != 200 {
		return nil, p, fmt.Errorf("status %d", p.status)
	}
	pg, err := c37Parse(p.body)
	return pg, p, err
}

func TestVX(t *testing.T) {
	r := vx.Start(t, "C37")
	defer r.Done()
	simInit(r, c37Console, "t1.example.com", "pt.example.com", "h1.example.com", "xn--bcher-kva.example.com", "login.example.com", "ca.example.com", "o1.example.com", "o2.example.com", "local.example.com")
	debug.SetGCPercent(800)
	debug.SetMemoryLimit(1 << 30)
	c37Secrets(r)
	c37Numbers(r)
	c37Hostile(r)
	c37Access(r)
	c37Races(r)
}

// c37IDP is a token endpoint that notes the secret.
type c37IDP struct{ secret string }

func (i *c37IDP) RoundTrip(req *http.Request) (*http.Response, error) {
	if req.Body != nil {
		b, _ := io.ReadAll(req.Body)
		req.Body.Close()
		v, _ := url.ParseQuery(string(b))
		i.secret = v.Get("client_secret")
		if _, p, ok := req.BasicAuth(); ok {
			i.secret = p
		}
		req.Body = nil
	}
	return simIDP{}.RoundTrip(req)
}

func c37Secrets(r *vx.R) {
	shapes := []func(s string) string{
		func(s string) string { return s },
		func(s string) string { return `<` + s + `>&"'` },
		func(s string) string { return s + "\nsecond" + s + "\n" },
		func(s string) string { return "12" + s + ": {[" },
		func(s string) string { return "é" + s + "\u2028" },
		func(s string) string { return strings.Repeat(s+" ", 20) },
	}
	dir := r.Scratch("c37")
	pos := []string{"p1", "p2", "o1a", "o1b", "o2a", "other"}
	for mask := 0; mask < 1<<len(pos); mask++ {
		if mask&1 == 0 && mask&(4+8+16) != 0 {
			continue // the OpenID servers need a provider
		}
		for si, shape := range shapes {
			for _, anchors := range []bool{false, true} {
				id := fmt.Sprintf("secrets/%d/%d/%v", mask, si, anchors)
				if !r.Case(id) {
					continue
				}
				r.Exec()
				secret := map[string]string{}
				var defs, oidc, bes strings.Builder
				for i, p := range pos {
					if mask&(1<<i) == 0 {
						continue
					}
					secret[p] = shape("zz9secret" + p + "z")
				}
				q := func(p string) string {
					v := strconv.Quote(secret[p])
					if anchors {
						fmt.Fprintf(&defs, "- &%s %s\n", p, v)
						return "*" + p
					}
					return v
				}
				if mask&32 != 0 {
					fmt.Fprintf(&defs, "- %s\n- key: %s\n", strconv.Quote(secret["other"]), strconv.Quote(secret["other"]))
				}
				for i, p := range []string{"p1", "p2"} {
					if mask&(1<<i) != 0 {
						fmt.Fprintf(&oidc, "- name: %s\n  authorizationEndpoint: https://idp.example.org/auth\n  tokenEndpoint: https://idp.example.org/token\n  redirectUrl: https://login.example.com/%s\n  clientId: client\n  clientSecret: %s\n  domain: example.com\n", p, p, q(p))
					}
				}
				clients := func(ps ...string) {
					for _, p := range ps {
						if secret[p] != "" {
							fmt.Fprintf(&bes, "      - id: id%s\n        secret: %s\n        redirectUri:\n        - https://client.example.com/%s\n", p, q(p), p)
						}
					}
				}
				if mask&1 != 0 {
					bes.WriteString("- serverNames:\n  - login.example.com\n  mode: local\n")
					bes.WriteString("- serverNames:\n  - h1.example.com\n  mode: http\n  addresses:\n  - 192.168.1.1:80\n  sso:\n    provider: p1\n")
				}
				if mask&(4+8) != 0 {
					bes.WriteString("- serverNames:\n  - o1.example.com\n  mode: local\n  sso:\n    provider: p1\n    localOIDCServer:\n      clients:\n")
					clients("o1a", "o1b")
				}
				if mask&16 != 0 {
					bes.WriteString("- serverNames:\n  - o2.example.com\n  mode: local\n  sso:\n    provider: p1\n    localOIDCServer:\n      clients:\n")
					clients("o2a")
				}
				text := ""
				if defs.Len() > 0 {
					text += "definitions:\n" + defs.String()
				}
				text += "cacheDir: " + simStuff.dir + "\ntlsAddr: " + simAddr + "\nenableQUIC: false\nmaxOpen: 1000\n"
				if oidc.Len() > 0 {
					text += "oidc:\n" + oidc.String()
				}
				text += "backends:\n- serverNames:\n  - " + c37Console + "\n  mode: console\n" + bes.String()
				file := filepath.Join(dir, "config.yaml")
				if err := os.WriteFile(file, []byte(text), 0600); err != nil {
					r.T.Fatal(err)
				}
				vsched.Bubble(r, id, func(x *vsched.X) {
					idp := &c37IDP{}
					old := http.DefaultTransport
					http.DefaultTransport = idp
					defer func() { http.DefaultTransport = old }()
					cfg, err := ReadConfig(file)
					if err != nil {
						r.T.Fatalf("%s: %v\n%s", id, err, text)
					}
					s := newSim(x, cfg)
					defer s.p.Stop()
					s.webUpstream("192.168.1.1:80", "", http.HandlerFunc(func(w http.ResponseWriter, req *http.Request) { w.Write([]byte("hello")) }))
					b := s.browser("admin")
					var changes string
					for i := 0; i < 3; i++ {
						pg, p, err := c37View(s, b)
						if err != nil {
							r.Violation("page", "%s: %v", id, err)
							return
						}
						r.Step(1)
						for _, v := range []string{p.body, html.UnescapeString(p.body), pg.text} {
							if strings.Contains(v, "zz9secret") {
								i := strings.Index(v, "zz9secret")
								r.Violation("secret", "%s: the page contains a secret: %.40q", id, v[i:])
								return
							}
						}
						if mask&3 != 0 && !strings.Contains(pg.config, "clientId: client") {
							r.Violation("config", "%s: the configuration isn't displayed", id)
						}
						switch i {
						case 0:
							changes = pg.events["config change"]
							// The same configuration, and one with other secrets.
							if cfg, err := ReadConfig(file); err != nil {
								r.Violation("reload", "%s: %v", id, err)
							} else if err := s.p.Reconfigure(cfg); err != nil {
								r.Violation("reload", "%s: %v", id, err)
							}
						case 1:
							if pg.events["config change"] != changes {
								r.Violation("changed", "%s: after the page was displayed, the same configuration is a change", id)
							}
							if mask&1 != 0 {
								_, did, err := s.browser("user").login("https://h1.example.com/", "alice@example.com")
								if err != nil || !did || idp.secret != secret["p1"] {
									r.Violation("secret-lost", "%s: after the page was displayed, the secret sent is %q, want %q (%v)", id, idp.secret, secret["p1"], err)
								}
							}
						}
					}
					r.State(mask)
					r.Outcome("no secret")
				})
			}
		}
	}
}

func c37Cfg() *Config {
	bes := []*Backend{
		{ServerNames: []string{c37Console}, Mode: "CONSOLE"},
		{ServerNames: []string{"t1.example.com"}, Mode: "TCP", Addresses: []string{"192.168.1.1:80"}},
		{ServerNames: []string{"xn--bcher-kva.example.com"}, Mode: "TCP", Addresses: []string{"192.168.1.1:80"}},
		{ServerNames: []string{"pt.example.com"}, Mode: "TLSPASSTHROUGH", Addresses: []string{"192.168.1.2:443"}},
		{ServerNames: []string{"h1.example.com"}, Mode: "HTTP", Addresses: []string{"192.168.1.3:80"}},
	}
	return simCfg(bes...)
}

type c37World struct {
	s     *sim
	conns []*c37Conn // open
	all   []*c37Conn
	http  *c37Conn
	n     int // connections in total
	count map[string]int64
	bad   int
	nosni int
	last  time.Time
}

func c37Sim(x *vsched.X, cfg *Config) *c37World {
	w := &c37World{s: newSim(x, cfg), count: map[string]int64{}}
	echo := func(c net.Conn) {
		defer c.Close()
		io.Copy(c, c)
	}
	w.s.upstream("192.168.1.1:80", func(c *vnet.VConn) { echo(c) })
	tc := simServerTLS("pt.example.com")
	w.s.upstream("192.168.1.2:443", func(c *vnet.VConn) { echo(tls.Server(c, tc)) })
	w.s.webUpstream("192.168.1.3:80", "", http.HandlerFunc(func(w http.ResponseWriter, req *http.Request) { w.Write([]byte("hello")) }))
	return w
}

func (w *c37World) open(name, mode string) (*c37Conn, error) {
	w.n++
	raw, err := w.s.x.N.Dial(context.Background(), w.s.addr, fmt.Sprintf("10.0.0.%d", 1+w.n%3), false)
	if err != nil {
		return nil, err
	}
	w.s.x.Cleanup(raw.Reset)
	raw.SetDeadline(time.Now().Add(simPatience))
	c := &c37Conn{Conn: raw, name: name, mode: mode}
	w.last = time.Now()
	tcfg := simTLSConfig(name, nil, nil)
	if mode == ModeHTTP {
		tcfg.NextProtos = []string{"http/1.1"}
	}
	if name == "" {
		tcfg.InsecureSkipVerify = true
	}
	c.tls = tls.Client(c, tcfg)
	if err := c.tls.Handshake(); err != nil {
		raw.Close()
		return nil, err
	}
	w.all = append(w.all, c)
	w.count[name]++
	return c, nil
}

func (w *c37World) finish(c *c37Conn) {
	c.tls.CloseWrite()
	io.Copy(io.Discard, c.tls)
	c.Conn.Close()
	w.last = time.Now()
}

func c37Numbers(r *vx.R) {
	type action struct{ kind, name, mode string }
	acts := []action{
		{"open", "t1.example.com", ModeTCP}, {"open", "xn--bcher-kva.example.com", ModeTCP}, {"open", "pt.example.com", ModeTLSPassthrough}, {"open", "h1.example.com", ModeHTTP},
		{"small", "", ""}, {"large", "", ""}, {"close", "", ""}, {"badname", "", ""}, {"nosni", "", ""}, {"reload", "", ""}, {"second", "", ""}, {"minutes", "", ""}, {"view", "", ""},
	}
	depth := r.Pick(4, 5)
	r.Bound("sequence length", depth)
	uni := func(n string) string {
		if n == "xn--bcher-kva.example.com" {
			return "bücher.example.com"
		}
		return n
	}
	vx.Sequences(len(acts), 1, depth, func(seq []int) bool {
		open, last, bad := 0, "", false
		for i, a := range seq {
			k := acts[a].kind
			if (k == "badname" || k == "nosni") && bad || acts[a].name == "xn--bcher-kva.example.com" && open > 0 {
				return true
			}
			bad = bad || k == "badname" || k == "nosni"
			switch k {
			case "open":
				open++
			case "small", "large", "close":
				if open == 0 {
					return true
				}
				if k == "close" {
					open--
				}
			case "reload":
				if i+1 < len(seq) {
					return true
				}
			case "view":
				if i+1 == len(seq) && i > 0 || last == k {
					return true
				}
			case "second", "minutes":
				if last == "second" || last == "minutes" {
					return true
				}
			}
			last = k
		}
		var sb strings.Builder
		for i, a := range seq {
			if i > 0 {
				sb.WriteByte('.')
			}
			sb.WriteString(acts[a].kind)
			if acts[a].name != "" {
				sb.WriteString(acts[a].name[:1])
			}
		}
		id := "numbers/" + sb.String()
		if !r.Case(id) {
			return true
		}
		r.Exec()
		r.Step(len(seq))
		vsched.Bubble(r, id, func(x *vsched.X) {
			w := c37Sim(x, c37Cfg())
			defer w.s.p.Stop()
			admin := w.s.browser("admin")
			views := 0
			adminOpen := false
			reloads := 0
			fail := func(key, f string, a ...any) {
				r.Outcome("wrong: %s", key)
				r.Violation(key, "%s: "+f, append([]any{id}, a...)...)
			}
			view := func() {
				pg, _, err := c37View(w.s, admin)
				if err != nil {
					fail("page", "%v", err)
					return
				}
				if !adminOpen {
					adminOpen = true
					w.n++
					w.count[c37Console]++
				}
				views++
				// Totals.
				type tot struct{ sent, recv, first int64 }
				tots := map[string]*tot{}
				for _, c := range w.all {
					if tots[c.name] == nil {
						tots[c.name] = &tot{}
					}
					tots[c.name].sent += c.sent
					tots[c.name].recv += c.recv
					tots[c.name].first += c.first
				}
				idle := time.Since(w.last) >= 90*time.Second
				for name, n := range w.count {
					m := pg.metrics[uni(name)]
					if n == 0 {
						continue
					}
					if m == nil {
						fail("metrics-missing", "no numbers for %s", name)
						continue
					}
					if m[0] != fmt.Sprint(n) {
						fail("count", "%s has %s connections on the page, want %d", name, m[0], n)
					}
					tt := tots[name]
					if tt == nil {
						continue
					}
					if m[1] != c37Size(tt.recv) {
						fail("egress", "%s: %s sent to clients, want %s", name, m[1], c37Size(tt.recv))
					}
					if m[3] != c37Size(tt.sent) && m[3] != c37Size(tt.sent-tt.first) {
						fail("ingress", "%s: %s received from clients, want %s (or %s)", name, m[3], c37Size(tt.sent), c37Size(tt.sent-tt.first))
					}
					if idle && (m[2] != "(0 \u00a0B/s)" || m[4] != "(0 \u00a0B/s)") {
						fail("rate", "%s: nothing happened for more than a minute, but the rates are %s %s", name, m[2], m[4])
					}
				}
				for name := range pg.metrics {
					ok := false
					for n, c := range w.count {
						ok = ok || uni(n) == name && c > 0
					}
					if !ok {
						fail("metrics-extra", "%s isn't a backend that had connections", name)
					}
				}
				// Events.
				if pg.events["tcp connection"] != fmt.Sprint(w.n) {
					fail("events", "%s connections, want %d", pg.events["tcp connection"], w.n)
				}
				if want := w.nosni; want > 0 && pg.events["no SNI"] != fmt.Sprint(want) {
					fail("events", "%s connections without a name, want %d", pg.events["no SNI"], want)
				}
				if n := pg.events["config change"]; n != fmt.Sprint(reloads) && (reloads > 0 || n != "") {
					fail("events", "%s configuration changes, want %d", n, reloads)
				}
				if pg.events["panic"] != "" {
					fail("panic", "the proxy panics")
				}
				// Connections.
				var want, got []string
				for _, c := range w.conns {
					e := fmt.Sprintf("%s %s %s|%s|%s", "tcp:"+c.LocalAddr().String(), uni(c.name), c.mode, c37Size(c.recv), c37Size(c.sent))
					want = append(want, e)
				}
				own := 0
				for _, c := range pg.in {
					f := strings.Fields(strings.TrimPrefix(c.desc, "<=>"))
					if len(f) < 2 {
						fail("connection", "%q", c.desc)
						return
					}
					if f[0] == c37Console {
						own++
						continue
					}
					src, typ, _ := strings.Cut(c.source, " ")
					if typ != "TLS" {
						fail("connection", "%q", c.source)
					}
					got = append(got, fmt.Sprintf("%s %s %s|%s|%s", src, f[0], f[1], c.egress, c.ingress))
					if f[1] != ModeHTTP && len(c.dests) != 1 || f[1] == ModeHTTP && len(c.dests) > 1 {
						fail("destination", "%s has the destinations %q", f[0], c.dests)
					}
				}
				if own != 1 {
					fail("connection", "%d connections to the console", own)
				}
				sort.Strings(want)
				sort.Strings(got)
				if strings.Join(want, "\n") != strings.Join(got, "\n") {
					fail("connections", "the page has %q, want %q", got, want)
				}
				// Outbound connections of these backends.
				outs := map[string]int{}
				for _, c := range w.conns {
					if c.mode != ModeHTTP {
						outs[uni(c.name)]++
					}
				}
				for _, c := range pg.out {
					if c.backend != "h1.example.com" {
						outs[c.backend]--
					}
				}
				for n, v := range outs {
					if v != 0 {
						fail("outbound", "%s: %+d outbound connections on the page (%v)", n, -v, pg.out)
					}
				}
				r.Outcome("view: %d inbound, %d outbound", len(pg.in), len(pg.out))
			}
			exchange := func(c *c37Conn, n int) error {
				w.last = time.Now()
				if c.mode == ModeHTTP {
					fmt.Fprintf(c.tls, "POST / HTTP/1.1\r\nHost: h1.example.com\r\nContent-Length: %d\r\n\r\n%s", n, strings.Repeat("x", n))
					buf := make([]byte, 4096)
					m := ""
					for !strings.Contains(m, "hello") {
						k, err := c.tls.Read(buf)
						m += string(buf[:k])
						if err != nil {
							return err
						}
					}
					return nil
				}
				go c.tls.Write(make([]byte, n))
				_, err := io.ReadFull(c.tls, make([]byte, n))
				return err
			}
			for _, i := range seq {
				a := acts[i]
				switch a.kind {
				case "open":
					c, err := w.open(a.name, a.mode)
					if err != nil {
						fail("open", "%s: %v", a.name, err)
						return
					}
					w.conns = append(w.conns, c)
					if a.mode == ModeHTTP {
						if err := exchange(c, 1); err != nil {
							fail("exchange", "%v", err)
						}
					}
				case "small", "large":
					n := 10
					if a.kind == "large" {
						n = 40000
					}
					if len(w.conns) == 0 {
						return
					}
					if err := exchange(w.conns[len(w.conns)-1], n); err != nil {
						fail("exchange", "%v", err)
					}
				case "close":
					if len(w.conns) == 0 {
						return
					}
					w.finish(w.conns[0])
					w.conns = w.conns[1:]
				case "badname":
					if _, err := w.open("unknown.example.com", ""); err == nil {
						fail("badname", "a connection to an unknown name succeeds")
					}
					w.bad++
				case "nosni":
					if _, err := w.open("", ""); err == nil {
						fail("nosni", "a connection without a name succeeds")
					}
					w.nosni++
				case "reload":
					cfg := c37Cfg()
					cfg.Email = fmt.Sprintf("user%d@example.com", reloads)
					if err := w.s.p.Reconfigure(cfg); err != nil {
						fail("reload", "%v", err)
					}
					reloads++
					// Connections may end.
					for _, c := range w.conns {
						c.Conn.Close()
					}
					w.conns = nil
					w.all = nil
					w.count = map[string]int64{}
					admin.drop()
					time.Sleep(time.Second)
					// The totals go on, but bytes aren't known.
					return
				case "second":
					time.Sleep(time.Second)
				case "minutes":
					time.Sleep(2 * time.Minute)
					// Idle HTTP connections end.
					var open []*c37Conn
					for _, c := range w.conns {
						if c.mode != ModeHTTP {
							open = append(open, c)
							continue
						}
						c.Conn.SetDeadline(time.Now().Add(time.Second))
						io.Copy(io.Discard, c.tls)
						c.Conn.Close()
					}
					w.conns = open
					admin.drop()
					adminOpen = false
				case "view":
					time.Sleep(time.Millisecond)
					view()
				}
			}
			time.Sleep(time.Second)
			view()
			r.State(len(w.conns), w.n, views)
		})
		return true
	})
}

func c37Hostile(r *vx.R) {
	evil := []string{
		"<zzx>", "</div><zzx zzx=1>", `"zzx="1`, `" zzx=1 `, "' zzx=1 '", "<!--zzx", "</pre><zzx>", "<script>zzx</script>", "</script><script>zzx", "<img src=zzx onerror=zzx>",
		"&lt;zzx&gt;", "\u2028<zzx>", "{{zzx}}<zzx>", "<svg/onload=zzx>", "javascript:zzx//<zzx>", "\x00<zzx>", "\xff<zzx>", strings.Repeat("<zzx>", 40),
	}
	fields := []string{"sni", "alpn", "host", "path", "cn", "org", "mail", "upgrade", "useragent", "email", "refresh", "query", "method", "denied-cn", "revproxy"}
	r.Bound("hostile strings", len(evil))
	for _, f := range fields {
		for i, e := range evil {
			id := fmt.Sprintf("hostile/%s/%d", f, i)
			if !r.Case(id) {
				continue
			}
			r.Exec()
			r.Step(1)
			vsched.Bubble(r, id, func(x *vsched.X) {
				defer simFakeIDP()()
				cfg := c37Cfg()
				auth := simHTTPBackend("ca.example.com", "TCP", "192.168.1.1:80")
				auth.ClientAuth = &ClientAuth{RootCAs: []string{vxCM.RootCAPEM()}}
				if f == "denied-cn" {
					auth.ClientAuth.ACL = &[]string{"nobody"}
				}
				sso := simHTTPBackend("h1.example.com", "HTTP", "192.168.1.3:80")
				if f == "email" {
					sso.SSO = &BackendSSO{Provider: "idp"}
				}
				cfg.Backends[4] = sso
				cfg.Backends = append(cfg.Backends, auth, &Backend{ServerNames: []string{"login.example.com"}, Mode: "LOCAL"})
				if f == "email" {
					cfg.Backends[0].SSO = &BackendSSO{Provider: "idp"}
				}
				cfg.OIDCProviders = append(cfg.OIDCProviders, vxIDP("idp", "example.com", "https://login.example.com/cb"))
				w := c37Sim(x, cfg)
				defer w.s.p.Stop()
				admin := w.s.browser("admin")
				shown := true
				var keep []io.Closer
				dial := func(sni string, protos []string, cert *tls.Certificate) *tls.Conn {
					raw, err := x.N.Dial(context.Background(), w.s.addr, "10.0.0.9", false)
					if err != nil {
						r.T.Fatal(err)
					}
					x.Cleanup(raw.Reset)
					raw.SetDeadline(time.Now().Add(time.Minute))
					tc := simTLSConfig(sni, protos, cert)
					tc.InsecureSkipVerify = true
					c := tls.Client(raw, tc)
					keep = append(keep, c)
					if err := c.Handshake(); err != nil {
						return nil
					}
					return c
				}
				request := func(text string) {
					if c := dial("h1.example.com", nil, nil); c != nil {
						io.WriteString(c, text)
						c.SetReadDeadline(time.Now().Add(time.Second))
						io.Copy(io.Discard, c)
					}
				}
				target := "/"
				switch f {
				case "sni":
					dial(e, nil, nil)
				case "alpn":
					dial("t1.example.com", []string{e}, nil)
					dial("nothere.example.com", []string{e}, nil)
				case "host":
					request("GET / HTTP/1.1\r\nHost: " + e + "\r\n\r\n")
				case "path":
					request("GET /" + e + " HTTP/1.1\r\nHost: h1.example.com\r\n\r\n")
				case "method":
					request(e + " / HTTP/1.1\r\nHost: h1.example.com\r\n\r\n")
				case "upgrade", "revproxy":
					request("GET / HTTP/1.1\r\nHost: h1.example.com\r\nConnection: upgrade\r\nUpgrade: " + e + "\r\nX-Forwarded-For: " + e + "\r\n\r\n")
				case "useragent":
					request("GET / HTTP/1.1\r\nHost: h1.example.com\r\nUser-Agent: " + e + "\r\nReferer: " + e + "\r\n\r\n")
				case "cn", "org", "mail", "denied-cn":
					cert := simCert("client", func(c *x509.Certificate) {
						switch f {
						case "org":
							c.Subject = pkix.Name{Organization: []string{strings.ToValidUTF8(e, "x")}, CommonName: "client"}
						case "mail":
							c.EmailAddresses = []string{strings.Map(func(r rune) rune {
								if r > 126 || r < 32 {
									return 'x'
								}
								return r
							}, e)}
							c.Subject = pkix.Name{}
						default:
							c.Subject = pkix.Name{CommonName: strings.ToValidUTF8(e, "x")}
						}
					})
					if c := dial("ca.example.com", nil, cert); c != nil {
						c.SetReadDeadline(time.Now().Add(time.Second))
						c.Write([]byte("x"))
						c.Read(make([]byte, 1))
					}
				case "email":
					if _, _, err := admin.login("https://"+c37Console+"/", "a"+e+"@example.com"); err != nil {
						r.Note("hostile e-mail: %v", err)
					}
				case "refresh":
					target = "/?refresh=" + url.QueryEscape(e)
				case "query":
					target = "/?" + url.QueryEscape(e) + "=" + url.QueryEscape(e)
				}
				time.Sleep(time.Second)
				p := admin.get("https://" + c37Console + target)
				if p.err != nil || p.status != 200 {
					if f == "email" && p.err == nil {
						r.Outcome("hostile e-mail refused")
						return
					}
					r.Violation("page", "%s: %d %v", id, p.status, p.err)
					return
				}
				if p.h.Get("Refresh") != "" {
					r.Violation("refresh", "%s: the page is refreshed: %q", id, p.h.Get("Refresh"))
				}
				if ct := p.h.Get("Content-Type"); !strings.HasPrefix(ct, "text/html") || !strings.Contains(strings.ToLower(ct), "utf-8") {
					r.Violation("content-type", "%s: %q", id, ct)
				}
				pg, err := c37Parse(p.body)
				if err != nil {
					r.Violation("page", "%s: %v", id, err)
					return
				}
				if pg.evil || pg.tags["script"] != 1 || pg.tags["img"] != 0 || pg.tags["svg"] != 0 {
					r.Violation("escape", "%s: %q becomes a part of the page", id, e)
				}
				if !strings.Contains(pg.text, "zzx") {
					shown = false
				}
				if pg.events["panic"] != "" {
					r.Violation("panic", "%s: the proxy panics", id)
				}
				r.Outcome("%s shown=%v", f, shown)
				for _, k := range keep {
					k.Close()
				}
			})
		}
	}
	// Numbers are accepted for refresh.
	id := "hostile/refresh-number"
	if r.Case(id) {
		r.Exec()
		vsched.Bubble(r, id, func(x *vsched.X) {
			w := c37Sim(x, c37Cfg())
			defer w.s.p.Stop()
			if p := w.s.browser("admin").get("https://" + c37Console + "/?refresh=10"); p.h.Get("Refresh") != "10" {
				r.Violation("refresh", "%s: %q", id, p.h.Get("Refresh"))
			}
		})
	}
}

func c37Access(r *vx.R) {
	policies := []string{"open", "sso", "sso-acl", "sso-paths", "cert", "cert-acl", "ip", "sso-cert"}
	clients := []string{"nobody", "alice", "bob"}
	paths := []string{"/", "/index.html", "/metrics", "/?refresh=1", "//", "/.", "/x/../", "/%2e", "/private/", "/private/..", "/private/x", "/.sso", "/.sso/", "/debug/pprof/", "/config", "/favicon.ico/../"}
	hosts := []string{c37Console, "local.example.com", "h1.example.com"}
	for _, pol := range policies {
		for _, cl := range clients {
			for _, host := range hosts {
				for _, path := range paths {
					id := fmt.Sprintf("access/%s/%s/%s%s", pol, cl, host[:1], path)
					if !r.Case(id) {
						continue
					}
					r.Exec()
					r.Step(1)
					vsched.Bubble(r, id, func(x *vsched.X) {
						defer simFakeIDP()()
						cfg := c37Cfg()
						con := cfg.Backends[0]
						allowed := true
						if strings.Contains(pol, "sso") {
							con.SSO = &BackendSSO{Provider: "idp"}
							allowed = cl != "nobody"
						}
						switch pol {
						case "sso-acl":
							con.SSO.ACL = &[]string{"alice@example.com"}
							allowed = cl == "alice"
						case "sso-paths":
							con.SSO.Paths = []string{"/private/"}
							allowed = true
						}
						if strings.Contains(pol, "cert") {
							con.ClientAuth = &ClientAuth{RootCAs: []string{vxCM.RootCAPEM()}}
							allowed = allowed && cl != "nobody"
						}
						if pol == "cert-acl" {
							con.ClientAuth.ACL = &[]string{"CN=alice"}
							allowed = cl == "alice"
						}
						if pol == "ip" {
							con.AllowIPs = &[]string{"10.9.9.9/32"}
							allowed = false
						}
						cfg.Backends = append(cfg.Backends, &Backend{ServerNames: []string{"login.example.com"}, Mode: "LOCAL"}, &Backend{ServerNames: []string{"local.example.com"}, Mode: "LOCAL"})
						cfg.OIDCProviders = append(cfg.OIDCProviders, vxIDP("idp", "example.com", "https://login.example.com/cb"))
						w := c37Sim(x, cfg)
						defer w.s.p.Stop()
						b := w.s.browser(cl)
						var cert *tls.Certificate
						if cl != "nobody" && strings.Contains(pol, "cert") {
							cert = simCert(cl, func(c *x509.Certificate) { c.Subject = pkix.Name{CommonName: cl} })
						}
						b.cert = cert
						if cl != "nobody" && strings.Contains(pol, "sso") {
							u := "https://" + c37Console + "/private/"
							b.login(u, cl+"@example.com")
						}
						p := b.do("GET", host, path, nil, "")
						seen := strings.Contains(p.body, "panel-config") || strings.Contains(p.body, "Backend metrics")
						switch {
						case seen && host != c37Console:
							r.Outcome("wrong")
							r.Violation("elsewhere", "%s: the status page is served", id)
						case seen && !allowed:
							r.Outcome("wrong")
							r.Violation("access", "%s: the status page is served", id)
						case !seen && allowed && host == c37Console && path == "/":
							r.Outcome("wrong")
							r.Violation("refused", "%s: the status page isn't served: %d %v", id, p.status, p.err)
						case seen && pol == "sso-paths" && cl == "nobody" && strings.HasPrefix(path, "/private/") && !strings.Contains(path, ".."):
							r.Outcome("wrong")
							r.Violation("access", "%s: the status page is served", id)
						}
						if seen {
							for _, c := range b.jar.Cookies(&url.URL{Scheme: "https", Host: c37Console, Path: "/"}) {
								if len(c.Value) > 20 && strings.Contains(html.UnescapeString(p.body), c.Value) {
									r.Violation("token", "%s: the page contains the cookie %s", id, c.Name)
								}
							}
						}
						r.Outcome("access %s %s seen=%v", pol, cl, seen)
					})
				}
			}
		}
	}
}

func c37Races(r *vx.R) {
	for _, sc := range []string{"open-open", "open-view", "open-open-view"} {
		vsched.Explore(r, "race/"+sc, vsched.Opts{Deviations: r.Pick(1, 2)}, func(x *vsched.X) func() {
			w := c37Sim(x, c37Cfg())
			admin := w.s.browser("admin")
			if _, _, err := c37View(w.s, admin); err != nil {
				r.Violation("page", "%s: %v", x.ID, err)
			}
			var conns [2]*tls.Conn
			open := func(i int) func() {
				return func() {
					raw, err := x.N.Dial(context.Background(), w.s.addr, fmt.Sprintf("10.0.0.%d", i+1), false)
					if err != nil {
						return
					}
					x.Cleanup(raw.Reset)
					raw.SetDeadline(time.Now().Add(simPatience))
					c := tls.Client(raw, simTLSConfig("t1.example.com", nil, nil))
					if c.Handshake() == nil {
						conns[i] = c
					}
				}
			}
			n := strings.Count(sc, "open")
			for i := 0; i < n; i++ {
				x.Go(fmt.Sprintf("open%d", i), open(i))
			}
			var pg *c37Page
			var verr error
			if strings.Contains(sc, "view") {
				x.Go("view", func() { pg, _, verr = c37View(w.s, admin) })
			}
			return func() {
				if strings.Contains(sc, "view") {
					if verr != nil || pg == nil {
						r.Violation("page", "%s: %v", x.ID, verr)
					} else if m := pg.metrics["t1.example.com"]; m != nil && m[0] != "0" && m[0] != "1" && m[0] != "2" {
						r.Violation("race-count", "%s: %s connections", x.ID, m[0])
					}
				}
				pg, _, err := c37View(w.s, admin)
				if err != nil {
					r.Violation("page", "%s: %v", x.ID, err)
					return
				}
				for i := 0; i < n; i++ {
					if conns[i] == nil {
						r.Violation("race-open", "%s: a connection fails", x.ID)
						return
					}
				}
				m := pg.metrics["t1.example.com"]
				if m == nil || m[0] != fmt.Sprint(n) {
					r.Violation("race-count", "%s: %v connections, want %d", x.ID, m, n)
				}
				if pg.events["tcp connection"] != fmt.Sprint(n+1) {
					r.Violation("race-events", "%s: %s events, want %d", x.ID, pg.events["tcp connection"], n+1)
				}
				in := 0
				for _, c := range pg.in {
					if strings.Contains(c.desc, "t1.example.com") {
						in++
					}
				}
				if in != n {
					r.Violation("race-connections", "%s: %d connections, want %d", x.ID, in, n)
				}
				r.Outcome("race %d", in)
			}
		})
	}
}
