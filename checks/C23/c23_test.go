package proxy

import (
	"fmt"
	"net/http"
	"net/url"
	"os"
	"path/filepath"
	"strings"
	"testing"

	"github.com/c2FmZQ/tlsproxy/internal/vx"
)

// The document tree. Everything outside of root/ must never be served.
func c23Tree(r *vx.R) (base string, files map[string]string, dirs map[string]bool) {
	base = r.Scratch("tree")
	files = map[string]string{
		"/a":              "file a",
		"/b.txt":          "file b",
		"/index.html":     "root index",
		"/d/index.html":   "d index",
		"/d/a":            "file d/a",
		"/d/e/a":          "file d/e/a",
		"/e/a":            "file e/a",
		"/.hid":           "hidden",
		"/.h/a":           "hidden dir",
		"/d/.hid":         "hidden d",
		"/a b":            "file with space",
		"/é":              "file é",
		"/%2e":            "file percent",
		"/x\\y":           "backslash",
		"/d/...":          "dots",
		"/i/index.html/a": "index is a dir",
		"/pre/a":          "file pre/a in main root",
	}
	dirs = map[string]bool{"/": true}
	for f, c := range files {
		vxWrite(r.T, filepath.Join(base, "root", f), c)
		for d := filepath.Dir(f); d != "/"; d = filepath.Dir(d) {
			dirs[d] = true
		}
	}
	vxWrite(r.T, filepath.Join(base, "secret"), "SECRET outside")
	vxWrite(r.T, filepath.Join(base, "a"), "SECRET outside a")
	vxWrite(r.T, filepath.Join(base, "root2/a"), "SECRET sibling")
	vxWrite(r.T, filepath.Join(base, "rootx"), "SECRET rootx")
	vxWrite(r.T, filepath.Join(base, "over/a"), "override a")
	vxWrite(r.T, filepath.Join(base, "over/index.html"), "override index")
	vxWrite(r.T, filepath.Join(base, "over/d/z"), "override d/z")
	vxWrite(r.T, filepath.Join(base, "over/.hid"), "override hidden")
	return
}

// c23Clean is the lexical cleaning of a URL path, written independently.
func c23Clean(p string) string {
	var out []string
	segs := strings.Split(p, "/")
	for _, s := range segs {
		switch s {
		case "", ".":
		case "..":
			if len(out) > 0 {
				out = out[:len(out)-1]
			}
		default:
			out = append(out, s)
		}
	}
	c := "/" + strings.Join(out, "/")
	if c != "/" && (strings.HasSuffix(p, "/")) {
		c += "/"
	}
	return c
}

func TestVX(t *testing.T) {
	r := vx.Start(t, "C23")
	defer r.Done()
	base, files, dirs := c23Tree(r)
	overFiles := map[string]string{"/a": "override a", "/index.html": "override index", "/d/z": "override d/z", "/.hid": "x"}
	overDirs := map[string]bool{"/": true, "/d": true}
	up := vxNewUpstream(t, "up", nil)
	defer up.close()
	p := vxStart(r, &Config{
		Backends: []*Backend{
			{ServerNames: []string{"local.example.com"}, Mode: "LOCAL", DocumentRoot: filepath.Join(base, "root")},
			{ServerNames: []string{"slash.example.com"}, Mode: "LOCAL", DocumentRoot: filepath.Join(base, "root") + "/"},
			{ServerNames: []string{"http.example.com"}, Mode: "HTTP", DocumentRoot: filepath.Join(base, "root"),
				PathOverrides: []*PathOverride{
					{Paths: []string{"/pre/"}, DocumentRoot: filepath.Join(base, "over")},
					{Paths: []string{"/e/"}, Addresses: []string{up.addr}, Mode: "HTTP"},
				}},
			{ServerNames: []string{"none.example.com"}, Mode: "LOCAL"},
		},
	})
	defer p.vxStop()

	alphabet := []string{"", ".", "..", "a", "d", "e", ".hid", ".h", "%2e", "%2e%2e", "%2E.", "..%2f", "%2fa", "%5c..", `..\`, "i", "index.html", "pre"}
	extra := []string{"root2", "secret", "rootx", "a%20b", "%c3%a9", "%252e", "%252e%252e", "x%5cy", "...", "%00", "a%00", "b.txt", "A", "a%2f", "%2e%2e%2fsecret", "root", "a.", "~", ";a", "*"}
	maxDepth := r.Pick(3, 4)
	r.Bound("depth", maxDepth)
	r.Bound("alphabet", len(alphabet)+len(extra))
	hosts := []string{"local.example.com", "http.example.com", "slash.example.com", "none.example.com"}
	clients := map[string]*vxClient{}
	for _, h := range hosts {
		clients[h] = &vxClient{p: p, d: vxDial{sni: h}}
	}

	probe := func(host, method, target, hdr string) {
		id := host + " " + method + " " + target + " " + hdr
		if !r.Case(id) {
			return
		}
		u, err := url.ParseRequestURI(target)
		h := ""
		if hdr != "" {
			h = hdr + "\r\n"
		}
		resp, rerr := clients[host].do(method, method+" "+target+" HTTP/1.1\r\nHost: "+host+"\r\n"+h+"\r\n")
		r.Exec()
		r.Step(1)
		defer func() {
			// Following redirects ends, on this host.
			hops := 0
			for resp != nil && resp.Status/100 == 3 && resp.Status != 304 && strings.HasPrefix(resp.Header.Get("Location"), "/") {
				if hops++; hops > 4 {
					r.Violation("redirect-loop", "%s: more than 4 redirects, last %q", id, resp.Header.Get("Location"))
					return
				}
				var err error
				resp, err = clients[host].do("GET", "GET "+resp.Header.Get("Location")+" HTTP/1.1\r\nHost: "+host+"\r\n\r\n")
				r.Step(1)
				if err != nil {
					r.Violation("no-response", "%s: after redirect: %v", id, err)
					return
				}
				if strings.Contains(string(resp.Body), "SECRET") {
					r.Violation("escape", "%s: redirected to body %q from outside of the document root", id, resp.Body)
				}
			}
			up.take()
		}()
		if rerr != nil {
			r.Violation("no-response", "%s: %v", id, rerr)
			return
		}
		r.Outcome("%s %d", host, resp.Status)
		if strings.Contains(string(resp.Body), "SECRET") {
			r.Violation("escape", "%s: body %q from outside of the document root", id, resp.Body)
			return
		}
		ups := up.take()
		if err != nil {
			if resp.Status != 400 {
				r.Violation("bad-target", "%s: status %d", id, resp.Status)
			}
			return
		}
		path := u.Path
		clean := c23Clean(path)
		r.State(host, clean, method, resp.Status)
		// Which tree.
		tfiles, tdirs, rel, root := files, dirs, clean, true
		if host == "http.example.com" {
			if clean == "/e" || strings.HasPrefix(clean, "/e/") {
				return // forwarded: C24's subject
			}
			if strings.HasPrefix(clean, "/pre/") {
				tfiles, tdirs, rel, root = overFiles, overDirs, strings.TrimPrefix(clean, "/pre"), false
			}
		}
		if len(ups) != 0 {
			r.Violation("upstream", "%s: static request reached an upstream", id)
		}
		loc := resp.Header.Get("Location")
		if resp.Status >= 300 && resp.Status < 400 && resp.Status != 304 {
			lu, err := url.Parse(loc)
			if err != nil || lu.Host != "" || lu.Scheme != "" || !strings.HasPrefix(loc, "/") || strings.HasPrefix(loc, "//") || strings.HasPrefix(loc, `/\`) || strings.ContainsAny(loc, "\r\n\t") {
				r.Violation("redirect-host", "%s: redirected to %q", id, loc)
				return
			}
			if lu.RawQuery != u.RawQuery {
				r.Violation("redirect-query", "%s: redirected to %q", id, loc)
			}
			if c23Clean(lu.Path) != lu.Path {
				r.Violation("redirect-unclean", "%s: redirected to %q", id, loc)
			}
		}
		if resp.Status >= 500 {
			r.Violation("5xx", "%s: status %d", id, resp.Status)
			return
		}
		if host == "none.example.com" {
			if resp.Status != 404 {
				r.Violation("noroot", "%s: status %d", id, resp.Status)
			}
			return
		}
		_ = root
		if host == "http.example.com" && clean == "/pre" {
			if resp.Status/100 != 3 {
				r.Violation("prefix-redirect", "%s: status %d", id, resp.Status)
			}
			return
		}
		if method != "GET" && method != "HEAD" {
			if resp.Status != 405 {
				r.Violation("method", "%s: status %d", id, resp.Status)
			}
			return
		}
		hidden := false
		for _, s := range strings.Split(rel, "/") {
			if strings.HasPrefix(s, ".") || strings.Contains(s, `\`) {
				hidden = true
			}
		}
		trim := strings.TrimSuffix(rel, "/")
		if trim == "" {
			trim = "/"
		}
		want := ""
		served := false
		wantRedirect := ""
		switch {
		case hidden:
		case tdirs[trim] && strings.HasSuffix(rel, "/"):
			want, served = tfiles[strings.TrimSuffix(trim, "/")+"/index.html"]
		case tdirs[trim]:
			wantRedirect = clean + "/"
		case !strings.HasSuffix(rel, "/"):
			want, served = tfiles[trim]
		default:
			if _, ok := tfiles[trim]; ok {
				wantRedirect = strings.TrimSuffix(clean, "/")
			}
		}
		if clean != path {
			// Unclean spelling: redirect to the clean one (nothing served
			// unless it is the very file).
			if resp.Status == 200 || resp.Status == 206 {
				if !served || (method == "GET" && string(resp.Body) != want) {
					r.Violation("unclean-served", "%s: status %d body %q", id, resp.Status, resp.Body)
				}
			}
			return
		}
		switch resp.Status {
		case 200, 206:
			if !served {
				r.Violation("served-not-named", "%s: status %d body %q, but the cleaned path %q names no visible file", id, resp.Status, resp.Body, clean)
				return
			}
			if method == "HEAD" {
				if len(resp.Body) != 0 {
					r.Violation("head-body", "%s", id)
				}
				if resp.Header.Get("Content-Length") != fmt.Sprint(len(want)) {
					r.Violation("head-length", "%s: %q", id, resp.Header)
				}
			} else if resp.Status == 206 {
				if !strings.HasPrefix(hdr, "Range:") || !strings.Contains(want, string(resp.Body)) {
					r.Violation("range", "%s: body %q", id, resp.Body)
				}
			} else if string(resp.Body) != want {
				r.Violation("wrong-content", "%s: body %q, want %q", id, resp.Body, want)
			}
		case 304, 412, 416:
			if hdr == "" || !served {
				r.Violation("cond", "%s: status %d", id, resp.Status)
			}
		case 421:
			if !strings.HasPrefix(target, "http://evil") {
				r.Violation("misdirected", "%s: status 421", id)
			}
		default:
			if served {
				r.Violation("not-served", "%s: status %d, want the file %q", id, resp.Status, want)
			}
			if wantRedirect != "" {
				lu, err := url.Parse(loc)
				if resp.Status/100 != 3 || err != nil || lu.Path != wantRedirect {
					r.Violation("no-redirect", "%s: status %d location %q, want %q", id, resp.Status, loc, wantRedirect)
				}
			}
		}
	}

	stop := false
	for _, host := range hosts {
		d := maxDepth
		al := alphabet
		if host == "none.example.com" || host == "slash.example.com" {
			d--
		}
		vx.Sequences(len(al), 1, d, func(seq []int) bool {
			var sb strings.Builder
			for _, s := range seq {
				sb.WriteString("/" + al[s])
			}
			probe(host, "GET", sb.String(), "")
			return !stop
		})
		// The long tail of unusual names in every position of a short path.
		all := append(append([]string{}, alphabet...), extra...)
		vx.Sequences(len(all), 1, 2, func(seq []int) bool {
			isExtra := false
			var sb strings.Builder
			for _, s := range seq {
				isExtra = isExtra || s >= len(alphabet)
				sb.WriteString("/" + all[s])
			}
			if isExtra {
				probe(host, "GET", sb.String(), "")
				probe(host, "GET", sb.String()+"/", "")
			}
			return true
		})
		for _, x := range []string{"/pre/../a", "/pre/..%2fa", "/pre/%2e%2e/a", "/pre/../../secret", "/pre//a", "/pre/d/z", "/pre/../pre/a", "/prea", "/pre%2fa", "//evil.example.org/..", "//evil.example.org/%2e%2e", "/%2fevil.example.org/..", `/\evil.example.org/..`, "/%5cevil.example.org/", "///evil.example.org", "/d/../..//evil.example.org", "//evil.example.org/d/..", "/a?x=1", "/d?x=1&y=%2f", "/d/..?q=a%0d%0aSet-Cookie:x=y", "/a%0d%0aX-Bad:1", "/d%0d%0aX-Bad:1/..", "/d%3fx=1", "/a%3f", "/a%23b", "/d/%23/..", "http://" + host + "/a", "http://evil.example.org/d", "http://evil.example.org/d/..", "/"} {
			for _, m := range []string{"GET", "HEAD"} {
				probe(host, m, x, "")
			}
		}
		// Methods and conditional headers on every kind of target.
		for _, target := range []string{"/a", "/", "/d", "/d/", "/nope", "/.hid", "/d//a", "/i/", "/pre/a", "/pre", "/e/../a"} {
			for _, m := range []string{"GET", "HEAD", "POST", "PUT", "DELETE", "OPTIONS", "PATCH", "TRACE", "FOO", "get"} {
				probe(host, m, target, "")
				if m != "GET" && m != "HEAD" {
					probe(host, m, target, "X-HTTP-Method-Override: GET")
				}
			}
			for _, h := range []string{"Range: bytes=0-2", "Range: bytes=-3", "Range: bytes=100-", "If-None-Match: *", "If-Modified-Since: Mon, 02 Jan 2090 15:04:05 GMT", "X-Original-URL: /../secret", "X-Forwarded-Prefix: /../", "If-Match: \"x\"", "X-Rewrite-URL: /.hid"} {
				probe(host, "GET", target, h)
			}
		}
	}
	r.Sample("GET /d/%%2e%%2e/..%%2f/a on a LOCAL backend whose root has siblings ../secret, ../root2, ../rootx")
	for _, f := range []string{"/a", "/d/e/a"} {
		if _, err := os.Stat(filepath.Join(base, "root", f)); err != nil {
			t.Fatal(err)
		}
	}
	_ = http.StatusOK
}
