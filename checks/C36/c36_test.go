package proxy

import (
	"bufio"
	"bytes"
	"context"
	"crypto/tls"
	"fmt"
	"io"
	"net"
	"net/http"
	"sort"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"testing"
	"time"

	"github.com/c2FmZQ/tlsproxy/internal/vx"
	"github.com/quic-go/quic-go"
	"github.com/quic-go/quic-go/http3"
	"golang.org/x/net/http2"
	"golang.org/x/net/http2/hpack"
)

// What a client learned about one exchange.
type c36Result struct {
	status   int
	interim  []int
	header   http.Header
	trailer  http.Header
	body     []byte
	complete bool
	err      string
	reusable bool
}

type c36Client interface {
	// exchange sends a request and reads what comes back.
	exchange(rq c36Request) *c36Result
	close()
}

type c36Request struct {
	method, host, uri string
	fields            [][2]string
	body              []byte // nil: no body
	chunks            []int  // h1: chunk sizes (chunked framing when not nil)
	trailers          [][2]string
	expect            bool
}

// ---- HTTP/1.1

type c36H1 struct {
	p *vxProxy
	d vxDial
	h *vxHTTP
}

func (c *c36H1) close() {
	if c.h != nil {
		c.h.close()
		c.h = nil
	}
}

func (rq c36Request) wire() string {
	var b strings.Builder
	fmt.Fprintf(&b, "%s %s HTTP/1.1\r\nHost: %s\r\n", rq.method, rq.uri, rq.host)
	for _, f := range rq.fields {
		fmt.Fprintf(&b, "%s: %s\r\n", f[0], f[1])
	}
	if rq.chunks != nil {
		if len(rq.trailers) > 0 {
			var n []string
			for _, t := range rq.trailers {
				n = append(n, t[0])
			}
			fmt.Fprintf(&b, "Trailer: %s\r\n", strings.Join(n, ", "))
		}
		b.WriteString("Transfer-Encoding: chunked\r\n\r\n")
		rest := rq.body
		for _, n := range rq.chunks {
			fmt.Fprintf(&b, "%x\r\n%s\r\n", n, rest[:n])
			rest = rest[n:]
		}
		b.WriteString("0\r\n")
		for _, t := range rq.trailers {
			fmt.Fprintf(&b, "%s: %s\r\n", t[0], t[1])
		}
		b.WriteString("\r\n")
		return b.String()
	}
	if rq.body != nil {
		fmt.Fprintf(&b, "Content-Length: %d\r\n", len(rq.body))
	}
	return b.String() + "\r\n" + string(rq.body)
}

func (c *c36H1) conn() error {
	if c.h == nil {
		h, err := c.p.vxHTTPConn(c.d)
		if err != nil {
			return err
		}
		c.h = h
	}
	return nil
}

func c36ReadH1(br *bufio.Reader, method string) *c36Result {
	r := &c36Result{}
	for {
		resp, err := http.ReadResponse(br, &http.Request{Method: method})
		if err != nil {
			r.err = err.Error()
			return r
		}
		if resp.StatusCode/100 == 1 && resp.StatusCode != 101 {
			r.interim = append(r.interim, resp.StatusCode)
			continue
		}
		r.status, r.header = resp.StatusCode, resp.Header
		r.body, err = io.ReadAll(resp.Body)
		r.trailer = resp.Trailer
		r.complete = err == nil
		if err != nil {
			r.err = err.Error()
		}
		r.reusable = err == nil && !resp.Close
		return r
	}
}

func (c *c36H1) exchange(rq c36Request) *c36Result {
	if err := c.conn(); err != nil {
		return &c36Result{err: "dial: " + err.Error()}
	}
	c.h.c.SetDeadline(time.Now().Add(20 * time.Second))
	w := rq.wire()
	if rq.expect {
		i := strings.Index(w, "\r\n\r\n") + 4
		io.WriteString(c.h.c, w[:i])
		// The interim response is consumed by c36ReadH1; the body follows
		// without waiting for it, which is allowed.
		io.WriteString(c.h.c, w[i:])
	} else if _, err := io.WriteString(c.h.c, w); err != nil {
		c.close()
		return &c36Result{err: "write: " + err.Error()}
	}
	r := c36ReadH1(c.h.br, rq.method)
	if !r.reusable {
		c.close()
	}
	return r
}

// ---- HTTP/2

type c36H2 struct {
	p *vxProxy
	d vxDial
	h *vxH2
}

func (c *c36H2) close() {
	if c.h != nil {
		c.h.close()
		c.h = nil
	}
}

func (rq c36Request) h2fields() [][2]string {
	fs := [][2]string{{":method", rq.method}, {":scheme", "https"}, {":authority", rq.host}, {":path", rq.uri}}
	for _, f := range rq.fields {
		fs = append(fs, [2]string{strings.ToLower(f[0]), f[1]})
	}
	if rq.body != nil && rq.chunks == nil {
		fs = append(fs, [2]string{"content-length", fmt.Sprint(len(rq.body))})
	}
	return fs
}

func c36FromH2(resp *vxH2Resp, method string) *c36Result {
	r := &c36Result{status: resp.Status, header: resp.Header, trailer: resp.Trailer, body: resp.Body}
	r.complete = resp.Ended && !resp.Reset
	if cl := resp.Header.Get("Content-Length"); cl != "" && method != "HEAD" && resp.Status != 304 && cl != strconv.Itoa(len(resp.Body)) {
		r.complete = false
	}
	if !r.complete {
		r.err = fmt.Sprintf("reset=%v %v conn=%v", resp.Reset, resp.Code, resp.Conn)
	}
	return r
}

func (c *c36H2) exchange(rq c36Request) *c36Result {
	for try := 0; ; try++ {
		if c.h == nil {
			h, err := c.p.vxH2Conn(c.d)
			if err != nil {
				return &c36Result{err: "dial: " + err.Error()}
			}
			c.h = h
		}
		var tr [][2]string
		for _, t := range rq.trailers {
			tr = append(tr, [2]string{strings.ToLower(t[0]), t[1]})
		}
		body := rq.body
		if rq.chunks != nil && body == nil {
			body = []byte{}
		}
		id, err := c.h.request(rq.h2fields(), body, tr)
		var resp *vxH2Resp
		if err == nil {
			resp, err = c.h.response(id)
		}
		if err != nil {
			c.close()
			if try == 0 && strings.Contains(err.Error(), "goaway") {
				continue
			}
			return &c36Result{err: err.Error()}
		}
		if resp.Conn != nil {
			c.close()
		}
		return c36FromH2(resp, rq.method)
	}
}

// ---- HTTP/3

type c36H3 struct{ h *vxH3 }

func (c *c36H3) close() {}

func (c *c36H3) exchange(rq c36Request) *c36Result {
	hd := http.Header{}
	for _, f := range rq.fields {
		hd.Add(f[0], f[1])
	}
	var tr http.Header
	for _, t := range rq.trailers {
		if tr == nil {
			tr = http.Header{}
		}
		tr.Add(t[0], t[1])
	}
	resp, err := c.h.do(rq.method, rq.host, rq.uri, hd, rq.body, tr)
	if err != nil {
		return &c36Result{err: err.Error()}
	}
	r := &c36Result{status: resp.Status, header: resp.Header, trailer: resp.Trailer, body: resp.Body, complete: resp.Err == nil}
	if resp.Err != nil {
		r.err = resp.Err.Error()
	}
	return r
}

// ---- scripted HTTP/2 upstream (clear text, prior knowledge)

type c36H2Up struct {
	addr string
	mu   sync.Mutex
	ops  []string
	reqs []*vxRawReq
}

func (u *c36H2Up) set(ops ...string) { u.mu.Lock(); u.ops = ops; u.mu.Unlock() }
func (u *c36H2Up) take() []*vxRawReq {
	u.mu.Lock()
	defer u.mu.Unlock()
	r := u.reqs
	u.reqs = nil
	return r
}

func c36NewH2Up(t testing.TB) *c36H2Up {
	l, err := net.Listen("tcp", "127.0.0.1:0")
	if err != nil {
		t.Fatal(err)
	}
	u := &c36H2Up{addr: l.Addr().String()}
	go func() {
		for {
			c, err := l.Accept()
			if err != nil {
				return
			}
			go u.serve(c)
		}
	}()
	return u
}

func (u *c36H2Up) serve(c net.Conn) {
	defer c.Close()
	pre := make([]byte, len(http2.ClientPreface))
	if _, err := io.ReadFull(c, pre); err != nil || string(pre) != http2.ClientPreface {
		return
	}
	fr := http2.NewFramer(c, c)
	fr.WriteSettings(http2.Setting{ID: http2.SettingInitialWindowSize, Val: 1 << 24})
	fr.WriteWindowUpdate(0, 1<<28)
	dec := hpack.NewDecoder(4096, nil)
	reqs := map[uint32]*vxRawReq{}
	var block []byte
	fin := func(id uint32) bool {
		r := reqs[id]
		delete(reqs, id)
		u.mu.Lock()
		u.reqs = append(u.reqs, r)
		ops := u.ops
		u.mu.Unlock()
		for _, op := range ops {
			name, arg, _ := strings.Cut(op, " ")
			var hb bytes.Buffer
			enc := hpack.NewEncoder(&hb)
			switch name {
			case "interim":
				enc.WriteField(hpack.HeaderField{Name: ":status", Value: "103"})
				fr.WriteHeaders(http2.HeadersFrameParam{StreamID: id, BlockFragment: hb.Bytes(), EndHeaders: true})
			case "headers", "headers-end":
				for _, f := range strings.Split(arg, "|") {
					k, v, _ := strings.Cut(f, "=")
					enc.WriteField(hpack.HeaderField{Name: k, Value: v})
				}
				fr.WriteHeaders(http2.HeadersFrameParam{StreamID: id, BlockFragment: hb.Bytes(), EndHeaders: true, EndStream: name == "headers-end"})
			case "data", "data-end":
				fr.WriteData(id, name == "data-end", []byte(arg))
			case "trailers":
				k, v, _ := strings.Cut(arg, "=")
				enc.WriteField(hpack.HeaderField{Name: k, Value: v})
				fr.WriteHeaders(http2.HeadersFrameParam{StreamID: id, BlockFragment: hb.Bytes(), EndHeaders: true, EndStream: true})
			case "rst":
				n, _ := strconv.Atoi(arg)
				fr.WriteRSTStream(id, http2.ErrCode(n))
			case "goaway":
				fr.WriteGoAway(id, http2.ErrCodeInternal, nil)
			case "fin":
				c.(*net.TCPConn).CloseWrite()
				go io.Copy(io.Discard, c)
				time.Sleep(50 * time.Millisecond)
				return false
			case "close":
				c.(*net.TCPConn).SetLinger(0)
				return false
			}
		}
		return true
	}
	head := func(id uint32, end bool) bool {
		fs, err := dec.DecodeFull(block)
		block = nil
		if err != nil {
			return false
		}
		r := reqs[id]
		if r == nil {
			r = &vxRawReq{Header: http.Header{}}
			reqs[id] = r
			for _, f := range fs {
				switch f.Name {
				case ":method":
					r.Method = f.Value
				case ":path":
					r.URI = f.Value
				case ":authority":
					r.Host = f.Value
				case ":scheme":
				default:
					r.Header.Add(f.Name, f.Value)
				}
			}
		} else {
			r.Trailer = http.Header{}
			for _, f := range fs {
				r.Trailer.Add(f.Name, f.Value)
			}
		}
		return !end || fin(id)
	}
	var endStream bool
	for {
		f, err := fr.ReadFrame()
		if err != nil {
			return
		}
		switch f := f.(type) {
		case *http2.SettingsFrame:
			if !f.IsAck() {
				fr.WriteSettingsAck()
			}
		case *http2.PingFrame:
			if !f.IsAck() {
				fr.WritePing(true, f.Data)
			}
		case *http2.HeadersFrame:
			block = append(block, f.HeaderBlockFragment()...)
			endStream = f.StreamEnded()
			if f.HeadersEnded() && !head(f.StreamID, endStream) {
				return
			}
		case *http2.ContinuationFrame:
			block = append(block, f.HeaderBlockFragment()...)
			if f.HeadersEnded() && !head(f.StreamID, endStream) {
				return
			}
		case *http2.DataFrame:
			if r := reqs[f.StreamID]; r != nil {
				r.Body = append(r.Body, f.Data()...)
				if f.StreamEnded() && !fin(f.StreamID) {
					return
				}
			}
		case *http2.RSTStreamFrame:
			if r := reqs[f.StreamID]; r != nil {
				r.Err = fmt.Errorf("reset %v", f.ErrCode)
				u.mu.Lock()
				u.reqs = append(u.reqs, r)
				u.mu.Unlock()
				delete(reqs, f.StreamID)
			}
		}
	}
}

// ---- HTTP/3 upstream

type c36H3Up struct {
	addr string
	mu   sync.Mutex
	h    http.HandlerFunc
	reqs []*vxRawReq
}

func c36NewH3Up(t testing.TB) *c36H3Up {
	pc := vxUDP()
	u := &c36H3Up{addr: pc.LocalAddr().String()}
	s := &http3.Server{TLSConfig: vxCM.TLSConfig(), QUICConfig: &quic.Config{}, Handler: http.HandlerFunc(func(w http.ResponseWriter, req *http.Request) {
		r := &vxRawReq{Method: req.Method, URI: req.RequestURI, Host: req.Host, Header: req.Header.Clone()}
		r.Body, r.Err = io.ReadAll(req.Body)
		r.Trailer = req.Trailer.Clone()
		u.mu.Lock()
		u.reqs = append(u.reqs, r)
		h := u.h
		u.mu.Unlock()
		h(w, req)
	})}
	go s.Serve(pc)
	return u
}

var c36Hop = map[string]bool{"Connection": true, "Keep-Alive": true, "Transfer-Encoding": true, "Te": true, "Trailer": true, "Proxy-Connection": true, "Upgrade": true}

// Headers the proxy itself (or the HTTP server it is built on) may add.
var c36Added = map[string]bool{"Strict-Transport-Security": true, "Alt-Svc": true, "Date": true, "Content-Type": true, "Content-Length": true, "Trailer": true, "Connection": true}

func c36Wire(s string) string { return strings.ReplaceAll(s, "\n", "\r\n") }

type c36Framing struct {
	name, method, wire string
	cuts               []int // nil: every position
	status             int
	header             http.Header
	trailer            http.Header
}

func TestVX(t *testing.T) {
	r := vx.Start(t, "C36")
	defer r.Done()
	vxInit(t)
	raw := vxNewRaw(t)
	h2up := c36NewH2Up(t)
	h3up := c36NewH3Up(t)
	h2, h3 := "h2", "h3"
	p := vxStart(r, &Config{
		EnableQUIC: vxPtr(true),
		Backends: []*Backend{
			{ServerNames: []string{"raw.example.com"}, Mode: "HTTP", Addresses: []string{raw.addr}},
			{ServerNames: []string{"up2.example.com"}, Mode: "HTTP", Addresses: []string{h2up.addr}, BackendProto: &h2},
			{ServerNames: []string{"up3.example.com"}, Mode: "HTTPS", Addresses: []string{h3up.addr}, BackendProto: &h3, ForwardServerName: "up3.example.com", ForwardRootCAs: []string{vxCM.RootCAPEM()}},
		},
	})
	defer p.vxStop()
	clients := map[string]map[string]c36Client{}
	for _, n := range []string{"raw", "up2", "up3"} {
		d := vxDial{sni: n + ".example.com"}
		clients[n] = map[string]c36Client{"h1": &c36H1{p: p, d: d}, "h2": &c36H2{p: p, d: d}, "h3": &c36H3{h: p.vxH3Client(d)}}
	}
	protos := []string{"h1", "h2", "h3"}

	// judge compares what the client learned with the response.
	judge := func(id string, res *c36Result, complete, either bool, status int, hdr, trailer http.Header, body []byte) {
		r.Outcome("upstream complete=%v either=%v: client %d complete=%v", complete, either, res.status, res.complete)
		if complete && !res.complete && !either {
			r.Violation("complete-response-lost", "%s: client got status %d, %d bytes, %s", id, res.status, len(res.body), res.err)
			return
		}
		if !res.complete {
			if res.status == status && !bytes.HasPrefix(body, res.body) {
				r.Violation("body-changed", "%s: client got %q", id, c36Short(res.body))
			}
			return
		}
		if res.status == 502 || res.status == 504 {
			if complete && !either && status != res.status {
				r.Violation("complete-response-lost", "%s: client got status %d", id, res.status)
			}
			return
		}
		if !complete && !either {
			r.Violation("truncated-looks-complete", "%s: client got a complete response, status %d body %q", id, res.status, c36Short(res.body))
			return
		}
		if res.status != status {
			r.Violation("status-changed", "%s: client got status %d, want %d", id, res.status, status)
			return
		}
		if !bytes.Equal(res.body, body) {
			r.Violation("body-changed", "%s: client got %q, want %q", id, c36Short(res.body), c36Short(body))
			return
		}
		for k, v := range hdr {
			if c36Hop[k] {
				continue
			}
			if strings.Join(res.header[k], "|") != strings.Join(v, "|") {
				r.Violation("header-changed", "%s: client got %s: %q, want %q", id, k, res.header[k], v)
				return
			}
		}
		for k, v := range res.header {
			if _, ok := hdr[k]; !ok && !c36Added[k] {
				r.Violation("header-added", "%s: client got %s: %q", id, k, v)
				return
			}
		}
		for k, v := range trailer {
			if strings.Join(res.trailer[k], "|") != strings.Join(v, "|") {
				r.Violation("trailer-lost", "%s: client got trailer %s: %q, want %q", id, k, res.trailer[k], v)
				return
			}
		}
	}

	// ---- A. every response framing, cut at every byte.
	big := strings.Repeat("0123456789abcdef", 2500)
	big2 := strings.Repeat("x", 3000)
	fr := []c36Framing{
		{name: "cl0", method: "GET", wire: c36Wire("HTTP/1.1 200 OK\nContent-Length: 0\nX-A: 1\n\n"), status: 200, header: http.Header{"X-A": {"1"}}},
		{name: "cl5", method: "GET", wire: c36Wire("HTTP/1.1 200 OK\nContent-Length: 5\nX-A: 1\nX-A: 2\n\nhello"), status: 200, header: http.Header{"X-A": {"1", "2"}}},
		{name: "cl5-404", method: "GET", wire: c36Wire("HTTP/1.1 404 No\nContent-Length: 5\nContent-Type: x/y\n\nhello"), status: 404, header: http.Header{"Content-Type": {"x/y"}}},
		{name: "chunk0", method: "GET", wire: c36Wire("HTTP/1.1 200 OK\nTransfer-Encoding: chunked\n\n0\n\n"), status: 200},
		{name: "chunk2", method: "GET", wire: c36Wire("HTTP/1.1 201 OK\nTransfer-Encoding: chunked\nX-B: ü\n\n3\nabc\n5;ext\ndefgh\n0\n\n"), status: 201, header: http.Header{"X-B": {"ü"}}},
		{name: "trailers", method: "GET", wire: c36Wire("HTTP/1.1 200 OK\nTransfer-Encoding: chunked\nTrailer: X-T\n\n3\nabc\n0\nX-T: tv\n\n"), status: 200, trailer: http.Header{"X-T": {"tv"}}},
		{name: "interim", method: "GET", wire: c36Wire("HTTP/1.1 103 Early\nLink: a\n\nHTTP/1.1 200 OK\nContent-Length: 2\n\nok"), status: 200},
		{name: "post", method: "POST", wire: c36Wire("HTTP/1.1 500 Err\nContent-Length: 3\n\nerr"), status: 500},
		{name: "head", method: "HEAD", wire: c36Wire("HTTP/1.1 200 OK\nContent-Length: 5\nEtag: \"x\"\n\n"), status: 200, header: http.Header{"Etag": {"\"x\""}}},
		{name: "204", method: "DELETE", wire: c36Wire("HTTP/1.1 204 No\nX-A: 1\n\n"), status: 204, header: http.Header{"X-A": {"1"}}},
		{name: "304", method: "GET", wire: c36Wire("HTTP/1.1 304 No\nEtag: \"x\"\n\n"), status: 304, header: http.Header{"Etag": {"\"x\""}}},
		{name: "redirect", method: "GET", wire: c36Wire("HTTP/1.1 302 F\nLocation: /x?y=%20\nSet-Cookie: a=b; Path=/\nSet-Cookie: c=d\nContent-Length: 0\n\n"), status: 302, header: http.Header{"Location": {"/x?y=%20"}, "Set-Cookie": {"a=b; Path=/", "c=d"}}},
		{name: "close", method: "GET", wire: c36Wire("HTTP/1.1 200 OK\nConnection: close\nX-A: 1\n\nhello"), status: 200, header: http.Header{"X-A": {"1"}}},
		{name: "hop", method: "GET", wire: c36Wire("HTTP/1.1 200 OK\nConnection: X-Hop\nX-Hop: 1\nKeep-Alive: timeout=5\nContent-Length: 2\n\nok"), status: 200},
		{name: "clbig", method: "GET", wire: c36Wire("HTTP/1.1 200 OK\nContent-Length: "+strconv.Itoa(len(big))+"\n\n") + big, status: 200},
		{name: "chunkbig", method: "GET", wire: c36Wire("HTTP/1.1 200 OK\nTransfer-Encoding: chunked\n\nbb8\n"+big2+"\nbb8\n"+big2+"\n") + fmt.Sprintf("%x\r\n%s\r\n0\r\n\r\n", len(big), big), status: 200},
	}
	for i := range fr {
		f := &fr[i]
		if len(f.wire) < 300 {
			continue
		}
		h := strings.Index(f.wire, "\r\n\r\n") + 4
		for _, k := range []int{h - 1, h, h + 1, h + 2, h + 2047, h + 2048, h + 2049, h + 3005, h + 3006, h + 3007, h + 4095, h + 4096, h + 4097, h + 8192, h + 16384, h + 32767, h + 32768, h + 32769, len(f.wire) - 7, len(f.wire) - 6, len(f.wire) - 5, len(f.wire) - 4, len(f.wire) - 3, len(f.wire) - 2, len(f.wire) - 1, len(f.wire)} {
			f.cuts = append(f.cuts, k)
		}
	}
	r.Bound("response framings", len(fr))
	r.Bound("response cut positions", "every byte (large bodies: buffer boundaries)")
	r.Bound("client protocols", "HTTP/1.1, HTTP/2, HTTP/3")
	seq := 0
	for _, f := range fr {
		cuts := f.cuts
		if cuts == nil {
			for k := 0; k <= len(f.wire); k++ {
				cuts = append(cuts, k)
			}
		}
		for _, proto := range protos {
			for _, k := range cuts {
				for _, end := range []string{"fin", "rst", "keep"} {
					b := []byte(f.wire[:k])
					n, _, closeDelim := vxScan(f.method, b)
					_, body, _ := vxScan(f.method, []byte(f.wire))
					if closeDelim {
						_, body, _ = vxScan(f.method, b)
					}
					complete := n >= 0 && n == k
					if end == "keep" && (!complete || closeDelim) {
						continue
					}
					if end == "rst" && closeDelim {
						// The peer may or may not have read everything before
						// the reset.
						complete = false
					}
					if end == "rst" && k > 2000 && proto == "h3" && k%2 == 1 && !r.Thorough() {
						continue
					}
					id := fmt.Sprintf("A %s %s cut=%d/%d %s", proto, f.name, k, len(f.wire), end)
					if !r.Case(id) {
						continue
					}
					seq++
					raw.take()
					raw.set(func(c net.Conn, q *vxRawReq) string {
						c.Write(b)
						if end == "rst" {
							// Let the bytes be read first, so that the only
							// difference with fin is how the stream ends.
							time.Sleep(2 * time.Millisecond)
						}
						return end
					})
					rq := c36Request{method: f.method, host: "raw.example.com", uri: fmt.Sprintf("/a/%d", seq), fields: [][2]string{{"Accept-Encoding", "x"}}}
					if f.method == "POST" {
						rq.body = []byte("b")
					}
					res := clients["raw"][proto].exchange(rq)
					r.Exec()
					r.Step(2)
					r.State("A", proto, f.name, complete, res.status, res.complete, len(res.body))
					// A complete message followed by a reset may be reported
					// either way. In a response body that the end of the
					// connection ends, a FIN is the end.
					judge(id, res, complete, complete && end == "rst", f.status, f.header, f.trailer, body)
					if f.name == "interim" && complete && res.status == 200 && proto == "h1" && len(res.interim) != 1 {
						r.Violation("interim-lost", "%s: client got interim responses %v", id, res.interim)
					}
				}
			}
		}
	}

	// ---- B. request fidelity.
	type shape struct {
		name   string
		body   []byte
		chunks []int
		tr     [][2]string
		expect bool
	}
	bb := []byte(big)
	shapes := []shape{
		{"none", nil, nil, nil, false}, {"cl0", []byte{}, nil, nil, false}, {"cl1", []byte("x"), nil, nil, false}, {"cl5", []byte("he\r\no"), nil, nil, false},
		{"clbig", bb, nil, nil, false}, {"chunk0", []byte{}, []int{}, nil, false}, {"chunk1", []byte("abc"), []int{3}, nil, false},
		{"chunk3", []byte("abcdefgh"), []int{1, 2, 5}, nil, false}, {"chunkbig", bb, []int{1, 4095, 4097, len(bb) - 8193}, nil, false},
		{"chunktr", []byte("abc"), []int{3}, [][2]string{{"X-Tr", "v1"}}, false}, {"expect", []byte("abcd"), nil, nil, true},
	}
	methods := []string{"GET", "HEAD", "POST", "PUT", "PATCH", "DELETE", "OPTIONS", "PROPFIND", "M-SEARCH"}
	uris := []string{"/", "/a%2Fb?x=1&y=%20;z", "/p/?", "/%C3%BC?q=ü", "/a;b=c/d?x=a+b&x=#"}
	uris[4] = "/a;b=c/d?x=a+b&x="
	fieldSets := [][][2]string{
		{{"Accept-Encoding", "x"}},
		{{"Accept-Encoding", "x"}, {"X-Multi", "1"}, {"X-Multi", "2, 3"}, {"X-Empty", ""}, {"Authorization", "Basic Zm9v"}, {"Range", "bytes=0-1"}, {"If-None-Match", "\"e\""}, {"Content-Type", "a/b; c=d"}},
		{{"Accept-Encoding", "x"}, {"Te", "trailers"}, {"Cookie", "a=b; c=d"}, {"User-Agent", "Ünï"}, {"X-Forwarded-Proto", "http"}, {"Forwarded", "for=1.2.3.4"}, {"Max-Forwards", "1"}},
	}
	checkReq := func(id string, rq c36Request, q *vxRawReq, up string) {
		if q.Err != nil {
			r.Violation("request-cut", "%s: upstream could not read the request: %v", id, q.Err)
			return
		}
		if q.Method != rq.method || q.URI != rq.uri || q.Host != rq.host {
			r.Violation("request-line", "%s: upstream got %s %s host %s", id, q.Method, q.URI, q.Host)
			return
		}
		if !bytes.Equal(q.Body, rq.body) {
			r.Violation("request-body", "%s: upstream got %q, want %q", id, c36Short(q.Body), c36Short(rq.body))
			return
		}
		want := map[string][]string{}
		for _, f := range rq.fields {
			k := http.CanonicalHeaderKey(f[0])
			want[k] = append(want[k], f[1])
		}
		delete(want, "Te")
		delete(want, "Expect")
		delete(want, "Cookie")
		got := q.Header.Clone()
		for _, rqf := range rq.fields {
			if rqf[0] == "Cookie" && strings.Join(got["Cookie"], "; ") != rqf[1] {
				r.Violation("request-header", "%s: upstream got cookies %q", id, got["Cookie"])
				return
			}
		}
		for _, k := range []string{"Via", "X-Forwarded-For", "Content-Length", "Transfer-Encoding", "Te", "Trailer", "Connection", "Cookie", "Expect"} {
			got.Del(k)
		}
		if _, ok := want["User-Agent"]; !ok {
			if ua := got.Get("User-Agent"); ua != "" && !strings.HasPrefix(ua, "quic-go") {
				r.Violation("request-header", "%s: upstream got User-Agent %q", id, ua)
			}
			got.Del("User-Agent")
		}
		for k, v := range got {
			if strings.Join(v, "|") != strings.Join(want[k], "|") {
				r.Violation("request-header", "%s: upstream got %s: %q, want %q", id, k, v, want[k])
				return
			}
		}
		for k, v := range want {
			if _, ok := got[k]; !ok {
				r.Violation("request-header", "%s: upstream did not get %s: %q", id, k, v)
				return
			}
		}
	}
	ups := []string{"raw", "up2", "up3"}
	for _, up := range ups {
		for _, proto := range protos {
			for _, m := range methods {
				for _, s := range shapes {
					for ui, uri := range uris {
						for fi, fs := range fieldSets {
							if !r.Thorough() && ui != 0 && fi != 0 && s.name != "cl5" {
								continue
							}
							if proto != "h1" && (s.expect || (ui == 3)) {
								continue
							}
							if proto == "h3" && s.name == "cl0" {
								continue
							}
							id := fmt.Sprintf("B %s %s %s %s %q %d", up, proto, m, s.name, uri, fi)
							if !r.Case(id) {
								continue
							}
							fs := fs
							rq := c36Request{method: m, host: up + ".example.com", uri: uri, fields: fs, body: s.body, chunks: s.chunks, trailers: s.tr, expect: s.expect}
							if s.expect {
								rq.fields = append(append([][2]string{}, fs...), [2]string{"Expect", "100-continue"})
							}
							var body []byte
							if m != "HEAD" {
								body = []byte("re:" + uri)
							}
							var take func() []*vxRawReq
							switch up {
							case "raw":
								take = raw.take
								raw.set(func(c net.Conn, q *vxRawReq) string {
									fmt.Fprintf(c, "HTTP/1.1 200 OK\r\nContent-Length: %d\r\nX-R: r\r\n\r\n%s", len("re:"+uri), body)
									return "keep"
								})
							case "up2":
								take = h2up.take
								if m == "HEAD" {
									h2up.set("headers-end :status=200|x-r=r")
								} else {
									h2up.set("headers :status=200|x-r=r", "data-end "+string(body))
								}
							case "up3":
								take = func() []*vxRawReq {
									h3up.mu.Lock()
									defer h3up.mu.Unlock()
									q := h3up.reqs
									h3up.reqs = nil
									return q
								}
								h3up.mu.Lock()
								h3up.h = func(w http.ResponseWriter, req *http.Request) {
									w.Header().Set("X-R", "r")
									w.Write(body)
								}
								h3up.mu.Unlock()
							}
							take()
							res := clients[up][proto].exchange(rq)
							r.Exec()
							r.Step(2)
							qs := take()
							r.State("B", up, proto, m, s.name, res.status, len(qs))
							if len(qs) != 1 {
								r.Violation("request-count", "%s: upstream got %d requests; client got %d %s", id, len(qs), res.status, res.err)
								continue
							}
							checkReq(id, rq, qs[0], up)
							judge(id, res, true, false, 200, http.Header{"X-R": {"r"}}, nil, body)
						}
					}
				}
			}
		}
	}

	// ---- C. requests cut by the client never look complete upstream.
	var cutIDs sync.Map
	reqWires := map[string]c36Request{
		"cl":    {method: "POST", fields: nil, body: []byte("0123456789")},
		"clbig": {method: "PUT", body: bb},
		"chunk": {method: "POST", body: []byte("abcdefgh"), chunks: []int{3, 5}},
	}
	var names []string
	for n := range reqWires {
		names = append(names, n)
	}
	sort.Strings(names)
	var cutsPending atomic.Int32
	base := len(p.inConns.slice())
	for _, n := range names {
		rq := reqWires[n]
		rq.host = "raw.example.com"
		rq.uri = "/cut/000000"
		w := rq.wire()
		h := strings.Index(w, "\r\n\r\n") + 4
		var ks []int
		for k := h; k < len(w); k++ {
			if len(w) < 300 || k%4096 == h%4096 || k > len(w)-3 {
				ks = append(ks, k)
			}
		}
		for _, k := range ks {
			for _, how := range []string{"fin", "rst", "tls"} {
				id := fmt.Sprintf("C h1 %s cut=%d/%d %s", n, k, len(w), how)
				if !r.Case(id) {
					continue
				}
				seq++
				rq := rq
				rq.uri = fmt.Sprintf("/cut/%06d", seq)
				cutIDs.Store(rq.uri, id)
				raw.set(func(c net.Conn, q *vxRawReq) string {
					io.WriteString(c, "HTTP/1.1 200 OK\r\nContent-Length: 2\r\n\r\nok")
					return "keep"
				})
				hc, err := p.vxHTTPConn(vxDial{sni: "raw.example.com"})
				if err != nil {
					r.Violation("no-response", "%s: %v", id, err)
					continue
				}
				io.WriteString(hc.c, rq.wire()[:k])
				nc := hc.c.(*tls.Conn).NetConn().(*net.TCPConn)
				switch how {
				case "fin":
					nc.Close()
				case "rst":
					nc.SetLinger(0)
					nc.Close()
				case "tls":
					hc.c.Close()
				}
				r.Exec()
				r.Step(1)
				cutsPending.Add(1)
			}
		}
	}
	// HTTP/2: cut by RST_STREAM or by dropping the connection.
	for _, nd := range []int{0, 1, 9, 10} {
		for _, how := range []string{"rst", "conn"} {
			for _, cl := range []bool{true, false} {
				id := fmt.Sprintf("C h2 data=%d %s cl=%v", nd, how, cl)
				if !r.Case(id) {
					continue
				}
				seq++
				uri := fmt.Sprintf("/cut/%06d", seq)
				cutIDs.Store(uri, id)
				h, err := p.vxH2Conn(vxDial{sni: "raw.example.com"})
				if err != nil {
					r.Violation("no-response", "%s: %v", id, err)
					continue
				}
				fs := [][2]string{{":method", "POST"}, {":scheme", "https"}, {":authority", "raw.example.com"}, {":path", uri}}
				if cl {
					fs = append(fs, [2]string{"content-length", "10"})
				}
				h.hb.Reset()
				for _, f := range fs {
					h.enc.WriteField(hpack.HeaderField{Name: f[0], Value: f[1]})
				}
				h.fr.WriteHeaders(http2.HeadersFrameParam{StreamID: 1, BlockFragment: h.hb.Bytes(), EndHeaders: true})
				if nd > 0 {
					h.fr.WriteData(1, false, bb[:nd])
				}
				if how == "rst" {
					h.fr.WriteRSTStream(1, http2.ErrCodeCancel)
					h.c.SetDeadline(time.Now().Add(300 * time.Millisecond))
					go func() {
						io.Copy(io.Discard, h.c)
						h.close()
					}()
				} else {
					h.close()
				}
				r.Exec()
				r.Step(1)
				cutsPending.Add(1)
			}
		}
	}
	if cutsPending.Load() > 0 {
		vxEventually(func() bool { return len(p.inConns.slice()) <= base && raw.active.Load() == 0 })
		time.Sleep(300 * time.Millisecond)
		seen := 0
		for _, q := range raw.take() {
			v, ok := cutIDs.Load(q.URI)
			if !ok {
				continue
			}
			seen++
			id := v.(string)
			// With all of a counted body delivered the request is complete.
			full := strings.HasPrefix(id, "C h2 data=10") && strings.Contains(id, "cl=true")
			if q.Err == nil && !full {
				r.SetCase(id)
				r.Violation("cut-request-looks-complete", "%s: upstream read a complete request with body %q", id, c36Short(q.Body))
			}
		}
		r.Outcome("cut requests that reached the upstream: %v", seen > 0)
	}

	// ---- D. HTTP/2 upstream: every way a response can stop.
	type h2case struct {
		name     string
		ops      []string
		complete bool
		either   bool
		status   int
		body     string
		trailer  http.Header
	}
	var h2cases []h2case
	for _, clh := range []string{"", "|content-length=6"} {
		hd := "headers :status=200|x-r=r" + clh
		full := [][]string{{hd, "data abc", "data-end def"}, {"interim", hd, "data abcdef", "data-end "}}
		if clh == "" {
			full = append(full, []string{hd + "|trailer=x-t", "data abcdef", "trailers x-t=tv"})
		}
		for fi, ops := range full {
			var tr http.Header
			if fi == 2 {
				tr = http.Header{"X-T": {"tv"}}
			}
			for _, end := range []string{"", "rst 0", "rst 2", "rst 8", "goaway", "fin", "close"} {
				for k := 0; k <= len(ops); k++ {
					if end == "" && k < len(ops) {
						continue
					}
					c := h2case{name: fmt.Sprintf("cl=%v full=%d n=%d end=%q", clh != "", fi, k, end), status: 200, trailer: tr, body: "abcdef"}
					c.ops = append(append([]string{}, ops[:k]...), end)
					c.complete = k == len(ops)
					c.either = k == len(ops) && end != ""
					if end == "goaway" && k < len(ops) {
						c.ops = append(c.ops, "fin")
					}
					h2cases = append(h2cases, c)
				}
			}
		}
	}
	h2cases = append(h2cases,
		h2case{name: "short cl", ops: []string{"headers :status=200|content-length=6", "data-end abc"}, status: 200, body: "abcdef"},
		h2case{name: "204", ops: []string{"headers-end :status=204"}, complete: true, status: 204},
		h2case{name: "end on headers", ops: []string{"headers-end :status=404|x-r=r"}, complete: true, status: 404},
	)
	for _, proto := range protos {
		for _, c := range h2cases {
			for _, m := range []string{"GET", "POST"} {
				id := fmt.Sprintf("D %s %s %s", proto, c.name, m)
				if !r.Case(id) {
					continue
				}
				h2up.take()
				h2up.set(c.ops...)
				rq := c36Request{method: m, host: "up2.example.com", uri: "/d"}
				if m == "POST" {
					rq.body = []byte("body")
				}
				res := clients["up2"][proto].exchange(rq)
				if res.status == 502 && c.complete && len(h2up.take()) == 0 {
					// The pooled connection died with the previous case.
					res = clients["up2"][proto].exchange(rq)
				}
				r.Exec()
				r.Step(2)
				r.State("D", proto, c.name, res.status, res.complete)
				hdr := http.Header{"X-R": {"r"}}
				if res.header.Get("X-R") == "" {
					hdr = nil
				}
				judge(id, res, c.complete, c.either, c.status, hdr, c.trailer, []byte(c.body))
			}
		}
	}

	// ---- E. two exchanges, every order of their parts.
	type gate struct{ ch chan string }
	var orders [][]int
	vx.Sequences(2, 6, 6, func(s []int) bool {
		n := 0
		for _, v := range s {
			n += v
		}
		if n == 3 {
			orders = append(orders, append([]int(nil), s...))
		}
		return true
	})
	for _, proto := range protos {
		for oi, ord := range orders {
			for fault := -1; fault < 6; fault++ {
				id := fmt.Sprintf("E %s order=%v fault=%d", proto, ord, fault)
				if !r.Case(id) {
					continue
				}
				_ = oi
				seq++
				uris := []string{fmt.Sprintf("/e/%d/0", seq), fmt.Sprintf("/e/%d/1", seq)}
				gates := []*gate{{make(chan string, 4)}, {make(chan string, 4)}}
				acks := make(chan bool, 16)
				raw.set(func(c net.Conn, q *vxRawReq) string {
					for i, u := range uris {
						if q.URI != u {
							continue
						}
						for {
							s, ok := <-gates[i].ch
							if !ok {
								return "rst"
							}
							switch s {
							case "end":
								return "keep"
							default:
								io.WriteString(c, s)
								acks <- true
							}
						}
					}
					return "fin"
				})
				part := func(i, k int) string {
					b := strings.Repeat(string(rune('A'+i)), 10)
					switch k {
					case 0:
						return fmt.Sprintf("HTTP/1.1 200 OK\r\nContent-Length: 20\r\nX-I: %d\r\n\r\n", i)
					default:
						return b
					}
				}
				results := make([]*c36Result, 2)
				var wg sync.WaitGroup
				switch proto {
				case "h2":
					h, err := p.vxH2Conn(vxDial{sni: "raw.example.com"})
					if err != nil {
						r.Violation("no-response", "%s: %v", id, err)
						continue
					}
					var ids []uint32
					for i := 0; i < 2; i++ {
						sid, _ := h.request([][2]string{{":method", "GET"}, {":scheme", "https"}, {":authority", "raw.example.com"}, {":path", uris[i]}}, nil, nil)
						ids = append(ids, sid)
					}
					wg.Add(1)
					go func() {
						defer wg.Done()
						defer h.close()
						for i, x := range c36ReadH2Many(h, ids) {
							results[i] = c36FromH2(x, "GET")
						}
					}()
				default:
					for i := 0; i < 2; i++ {
						wg.Add(1)
						go func() {
							defer wg.Done()
							var cl c36Client = clients["raw"]["h3"]
							if proto == "h1" {
								cl = &c36H1{p: p, d: vxDial{sni: "raw.example.com"}}
								defer cl.close()
							}
							results[i] = cl.exchange(c36Request{method: "GET", host: "raw.example.com", uri: uris[i]})
						}()
					}
				}
				pos := []int{0, 0}
				faulted := []bool{false, false}
				ok := true
				for step, i := range ord {
					if faulted[i] {
						continue
					}
					s := part(i, pos[i])
					pos[i]++
					if step == fault {
						faulted[i] = true
						close(gates[i].ch)
						continue
					}
					gates[i].ch <- s
					select {
					case <-acks:
					case <-time.After(15 * time.Second):
						ok = false
					}
					if pos[i] == 3 {
						gates[i].ch <- "end"
					}
				}
				wg.Wait()
				r.Exec()
				r.Step(6)
				if !ok {
					r.Violation("no-response", "%s: a request did not reach the upstream", id)
					continue
				}
				for i, res := range results {
					want := strings.Repeat(string(rune('A'+i)), 20)
					r.State("E", proto, ord, fault, i, res.complete)
					if res.complete && res.status == 200 && res.header.Get("X-I") != strconv.Itoa(i) {
						r.Violation("mixed", "%s: exchange %d got headers %q", id, i, res.header)
					}
					judge(fmt.Sprintf("%s exchange %d", id, i), res, !faulted[i], false, 200, http.Header{"X-I": {strconv.Itoa(i)}}, nil, []byte(want))
				}
			}
		}
	}
	// Pipelined requests on one connection are answered in order.
	for n := 2; n <= r.Pick(3, 4); n++ {
		vx.Sequences(4, n, n, func(s []int) bool {
			id := fmt.Sprintf("E pipeline %v", s)
			if !r.Case(id) {
				return true
			}
			raw.set(func(c net.Conn, q *vxRawReq) string {
				fmt.Fprintf(c, "HTTP/1.1 200 OK\r\nContent-Length: %d\r\nX-U: %s\r\n\r\n", len(q.URI)+len(q.Body), q.URI)
				if q.Method != "HEAD" {
					fmt.Fprintf(c, "%s%s", q.URI, q.Body)
				}
				return "keep"
			})
			hc, err := p.vxHTTPConn(vxDial{sni: "raw.example.com"})
			if err != nil {
				r.Violation("no-response", "%s: %v", id, err)
				return true
			}
			defer hc.close()
			var all string
			var rqs []c36Request
			for i, k := range s {
				rq := c36Request{method: []string{"GET", "POST", "POST", "HEAD"}[k], host: "raw.example.com", uri: fmt.Sprintf("/pl/%d", i)}
				switch k {
				case 1:
					rq.body = []byte(fmt.Sprintf("GET /evil%d HTTP/1.1\r\nHost: raw.example.com\r\n\r\n", i))
				case 2:
					rq.body = []byte("abcdef")
					rq.chunks = []int{2, 4}
				}
				rqs = append(rqs, rq)
				all += rq.wire()
			}
			hc.c.SetDeadline(time.Now().Add(20 * time.Second))
			io.WriteString(hc.c, all)
			for i, rq := range rqs {
				res := c36ReadH1(hc.br, rq.method)
				want := []byte(rq.uri + string(rq.body))
				if rq.method == "HEAD" {
					want = nil
				}
				judge(fmt.Sprintf("%s response %d", id, i), res, true, false, 200, http.Header{"X-U": {rq.uri}}, nil, want)
			}
			r.Exec()
			r.Step(n)
			return true
		})
	}
	// Bytes after the end of a response never become part of the next one.
	for _, proto := range protos {
		for xi, extra := range []string{"x", "HTTP/1.1 200 OK\r\nContent-Length: 4\r\n\r\nevil", "\r\n", strings.Repeat("y", 5000)} {
			for _, f := range fr[:6] {
				id := fmt.Sprintf("E extra %s %s %d", proto, f.name, xi)
				if !r.Case(id) {
					continue
				}
				first := f.wire + extra
				var n atomic.Int32
				raw.set(func(c net.Conn, q *vxRawReq) string {
					if q.URI == "/first" && n.Add(1) == 1 {
						io.WriteString(c, first)
						return "keep"
					}
					io.WriteString(c, "HTTP/1.1 200 OK\r\nContent-Length: 6\r\nX-S: s\r\n\r\nsecond")
					return "keep"
				})
				res := clients["raw"][proto].exchange(c36Request{method: "GET", host: "raw.example.com", uri: "/first"})
				_, body, _ := vxScan("GET", []byte(f.wire))
				judge(id+" first", res, true, false, f.status, f.header, f.trailer, body)
				for k := 0; k < 3; k++ {
					res = clients["raw"][proto].exchange(c36Request{method: "GET", host: "raw.example.com", uri: "/second"})
					if string(res.body) == "evil" || res.complete && res.status == 200 && string(res.body) != "second" {
						r.Violation("mixed", "%s: next exchange got %q", id, c36Short(res.body))
					} else if !res.complete || res.status != 200 {
						r.Outcome("after extra bytes: %d %v", res.status, res.complete)
					}
				}
				r.Exec()
				r.Step(4)
			}
		}
	}

	// ---- F. HTTP/3 upstream that stops.
	for _, proto := range protos {
		for _, size := range []int{0, 5, 3000, 40000} {
			for _, cl := range []bool{true, false} {
				for _, at := range []int{-1, 0, 1, 2500, 39999} {
					if at >= size {
						continue
					}
					id := fmt.Sprintf("F %s size=%d cl=%v stop=%d", proto, size, cl, at)
					if !r.Case(id) {
						continue
					}
					h3up.mu.Lock()
					h3up.h = func(w http.ResponseWriter, req *http.Request) {
						w.Header().Set("X-R", "r")
						if cl {
							w.Header().Set("Content-Length", strconv.Itoa(size))
						}
						w.WriteHeader(200)
						n := size
						if at >= 0 {
							n = at
						}
						w.Write(bb[:n])
						if at >= 0 {
							w.(http.Flusher).Flush()
							panic(http.ErrAbortHandler)
						}
					}
					h3up.mu.Unlock()
					res := clients["up3"][proto].exchange(c36Request{method: "GET", host: "up3.example.com", uri: "/f"})
					r.Exec()
					r.Step(2)
					r.State("F", proto, size, cl, at, res.complete)
					judge(id, res, at < 0, false, 200, http.Header{"X-R": {"r"}}, nil, bb[:size])
				}
			}
		}
	}
	r.Sample("A h2 trailers cut at byte 92 (before the trailer's end), reset")
	_ = context.Background
}

// c36ReadH2Many reads the responses of several streams.
func c36ReadH2Many(h *vxH2, ids []uint32) []*vxH2Resp {
	h.c.SetDeadline(time.Now().Add(40 * time.Second))
	out := map[uint32]*vxH2Resp{}
	for _, id := range ids {
		out[id] = &vxH2Resp{Header: http.Header{}, Trailer: http.Header{}}
	}
	open := len(ids)
	for open > 0 {
		f, err := h.fr.ReadFrame()
		if err != nil {
			for _, r := range out {
				if !r.Ended && !r.Reset {
					r.Conn = err
				}
			}
			break
		}
		switch f := f.(type) {
		case *http2.SettingsFrame:
			if !f.IsAck() {
				h.fr.WriteSettingsAck()
			}
		case *http2.PingFrame:
			if !f.IsAck() {
				h.fr.WritePing(true, f.Data)
			}
		case *http2.HeadersFrame:
			fs, _ := h.dec.DecodeFull(f.HeaderBlockFragment())
			r := out[f.StreamID]
			for _, x := range fs {
				if x.Name == ":status" {
					r.Status, _ = strconv.Atoi(x.Value)
				} else {
					r.Header.Add(x.Name, x.Value)
				}
			}
			if f.StreamEnded() {
				r.Ended = true
				open--
			}
		case *http2.DataFrame:
			r := out[f.StreamID]
			r.Body = append(r.Body, f.Data()...)
			if f.StreamEnded() {
				r.Ended = true
				open--
			}
		case *http2.RSTStreamFrame:
			if r := out[f.StreamID]; !r.Ended && !r.Reset {
				r.Reset, r.Code = true, f.ErrCode
				open--
			}
		}
	}
	var res []*vxH2Resp
	for _, id := range ids {
		res = append(res, out[id])
	}
	return res
}

func c36Short(b []byte) string {
	if len(b) > 80 {
		return fmt.Sprintf("%s...(%d bytes)", b[:80], len(b))
	}
	return string(b)
}
