package proxy

import (
	"bufio"
	"bytes"
	"context"
	"crypto/tls"
	"fmt"
	"io"
	"log"
	"net"
	"net/http"
	"os"
	"path/filepath"
	"strings"
	"sync"
	"testing"
	"time"

	"github.com/c2FmZQ/tlsproxy/internal/vx"
)

// Helpers for harnesses that drive a complete proxy over loopback TCP.

var vxCM *vxCertManager

func vxInit(t testing.TB) {
	if os.Getenv("VX_LOGS") == "" {
		log.SetOutput(io.Discard)
	}
	if vxCM == nil {
		vxCM = vxNewCertManager("root-ca.example.com")
	}
}

func vxPtr[T any](v T) *T { return &v }

// vxProxy is a running proxy.
type vxProxy struct {
	*Proxy
	cancel func()
	addr   string
	dir    string
}

var vxSeq int

// vxNewProxy creates a proxy (not yet listening).
func vxNewProxy(r *vx.R, cfg *Config) *vxProxy {
	vxInit(r.T)
	vxSeq++
	if cfg.CacheDir == "" {
		cfg.CacheDir = r.Scratch(fmt.Sprintf("cache%d", vxSeq))
	}
	if cfg.MaxOpen == 0 {
		cfg.MaxOpen = 1000
	}
	if cfg.TLSAddr == "" {
		cfg.TLSAddr = "127.0.0.1:0"
	}
	if cfg.EnableQUIC == nil {
		cfg.EnableQUIC = vxPtr(false)
	}
	for _, be := range cfg.Backends {
		if be.ForwardRateLimit == 0 {
			be.ForwardRateLimit = 1000000
		}
	}
	p, err := vxMakeProxy(cfg, vxCM)
	if err != nil {
		r.T.Fatalf("harness configuration rejected: %v", err)
	}
	return &vxProxy{Proxy: p, dir: cfg.CacheDir}
}

// vxStart creates and starts a proxy.
func vxStart(r *vx.R, cfg *Config) *vxProxy {
	p := vxNewProxy(r, cfg)
	p.vxListen(r)
	return p
}

func (p *vxProxy) vxListen(r *vx.R) {
	ctx, cancel := context.WithCancel(context.Background())
	p.cancel = cancel
	if err := p.Start(ctx); err != nil {
		r.T.Fatal(err)
	}
	p.addr = p.listener.Addr().String()
}

func (p *vxProxy) vxStop() {
	p.Stop()
	p.cancel()
}

type vxDial struct {
	sni     string
	protos  []string
	certs   []tls.Certificate
	from    string // source IP
	addr    string
	pre     []byte // bytes to send before the handshake
	noSNI   bool
	maxVer  uint16
	cache   tls.ClientSessionCache
	timeout time.Duration
}

// vxTCP opens a TCP connection from a given source IP.
func vxTCP(addr, from string) (net.Conn, error) {
	d := net.Dialer{Timeout: 10 * time.Second}
	if from != "" {
		d.LocalAddr = &net.TCPAddr{IP: net.ParseIP(from)}
	}
	return d.Dial("tcp", addr)
}

// vxTLS opens a TLS connection.
func (p *vxProxy) vxTLS(d vxDial) (*tls.Conn, error) {
	addr := d.addr
	if addr == "" {
		addr = p.addr
	}
	c, err := vxTCP(addr, d.from)
	if err != nil {
		return nil, err
	}
	if len(d.pre) > 0 {
		c.Write(d.pre)
	}
	tc := &tls.Config{
		ServerName:         d.sni,
		NextProtos:         d.protos,
		RootCAs:            vxCM.RootCACertPool(),
		Certificates:       d.certs,
		MaxVersion:         d.maxVer,
		ClientSessionCache: d.cache,
	}
	if d.noSNI || d.sni == "" {
		tc.ServerName = ""
		tc.InsecureSkipVerify = true
	}
	conn := tls.Client(c, tc)
	to := d.timeout
	if to == 0 {
		to = 20 * time.Second
	}
	conn.SetDeadline(time.Now().Add(to))
	if err := conn.Handshake(); err != nil {
		c.Close()
		return nil, err
	}
	return conn, nil
}

// vxHTTP is a client HTTP/1.1 connection on which raw requests are sent.
type vxHTTP struct {
	c  net.Conn
	br *bufio.Reader
}

func (p *vxProxy) vxHTTPConn(d vxDial) (*vxHTTP, error) {
	if d.protos == nil {
		d.protos = []string{"http/1.1"}
	}
	c, err := p.vxTLS(d)
	if err != nil {
		return nil, err
	}
	return &vxHTTP{c: c, br: bufio.NewReader(c)}, nil
}

type vxResp struct {
	Status int
	Header http.Header
	Body   []byte
	Close  bool
	Resp   *http.Response
}

// do sends a raw request and reads the response.
func (h *vxHTTP) do(method, raw string) (*vxResp, error) {
	h.c.SetDeadline(time.Now().Add(20 * time.Second))
	if _, err := io.WriteString(h.c, raw); err != nil {
		return nil, err
	}
	return h.read(method)
}

func (h *vxHTTP) read(method string) (*vxResp, error) {
	resp, err := http.ReadResponse(h.br, &http.Request{Method: method})
	if err != nil {
		return nil, err
	}
	b, err := io.ReadAll(resp.Body)
	if err != nil {
		return nil, err
	}
	return &vxResp{Status: resp.StatusCode, Header: resp.Header, Body: b, Close: resp.Close, Resp: resp}, nil
}

func (h *vxHTTP) close() { h.c.Close() }

// vxClient keeps one HTTP/1.1 connection open and replaces it when needed.
type vxClient struct {
	p *vxProxy
	d vxDial
	h *vxHTTP
}

func (c *vxClient) do(method, raw string) (*vxResp, error) {
	for try := 0; ; try++ {
		if c.h == nil {
			h, err := c.p.vxHTTPConn(c.d)
			if err != nil {
				return nil, err
			}
			c.h = h
		}
		resp, err := c.h.do(method, raw)
		if err != nil || resp.Close {
			c.h.close()
			c.h = nil
		}
		if err != nil && try == 0 {
			continue
		}
		return resp, err
	}
}

func (c *vxClient) close() {
	if c.h != nil {
		c.h.close()
		c.h = nil
	}
}

// vxUpReq is what an upstream received.
type vxUpReq struct {
	Up      string
	Method  string
	URI     string
	Host    string
	Proto   string
	Header  http.Header
	Body    []byte
	Trailer http.Header
	Remote  string
	TLSName string
}

// vxUpstream is a recording HTTP server.
type vxUpstream struct {
	name  string
	addr  string
	srv   *http.Server
	l     net.Listener
	mu    sync.Mutex
	reqs  []vxUpReq
	conns int
	// Handler runs after recording when set.
	Handler http.HandlerFunc
}

type vxCountingListener struct {
	net.Listener
	up *vxUpstream
}

func (l vxCountingListener) Accept() (net.Conn, error) {
	c, err := l.Listener.Accept()
	if err == nil {
		l.up.mu.Lock()
		l.up.conns++
		l.up.mu.Unlock()
	}
	return c, err
}

// vxNewUpstream starts an HTTP/1.1 (and h2 with TLS) server.
func vxNewUpstream(t testing.TB, name string, tc *tls.Config) *vxUpstream {
	l, err := net.Listen("tcp", "127.0.0.1:0")
	if err != nil {
		t.Fatal(err)
	}
	u := &vxUpstream{name: name, addr: l.Addr().String(), l: l}
	u.srv = &http.Server{
		ErrorLog: log.New(io.Discard, "", 0),
		Handler: http.HandlerFunc(func(w http.ResponseWriter, req *http.Request) {
			b, _ := io.ReadAll(req.Body)
			rec := vxUpReq{Up: name, Method: req.Method, URI: req.RequestURI, Host: req.Host, Proto: req.Proto,
				Header: req.Header.Clone(), Body: b, Trailer: req.Trailer.Clone(), Remote: req.RemoteAddr}
			if req.TLS != nil {
				rec.TLSName = req.TLS.ServerName
			}
			u.mu.Lock()
			u.reqs = append(u.reqs, rec)
			h := u.Handler
			u.mu.Unlock()
			if h != nil {
				req.Body = io.NopCloser(bytes.NewReader(b))
				h(w, req)
				return
			}
			w.Header().Set("X-Up", name)
			fmt.Fprintf(w, "up=%s\n", name)
		}),
	}
	var ll net.Listener = vxCountingListener{l, u}
	if tc != nil {
		u.srv.TLSConfig = tc
		go u.srv.ServeTLS(ll, "", "")
	} else {
		go u.srv.Serve(ll)
	}
	return u
}

func (u *vxUpstream) take() []vxUpReq {
	u.mu.Lock()
	defer u.mu.Unlock()
	r := u.reqs
	u.reqs = nil
	return r
}

func (u *vxUpstream) numConns() int {
	u.mu.Lock()
	defer u.mu.Unlock()
	return u.conns
}

func (u *vxUpstream) close() { u.srv.Close() }

// vxGreeter is a TCP server that sends a line to each client, and records what
// each client sent.
type vxGreeter struct {
	name  string
	addr  string
	l     net.Listener
	mu    sync.Mutex
	conns int
	data  [][]byte
}

// vxNewGreeter starts a TCP server that reads everything (recording it) after
// having sent its name.
func vxNewGreeter(t testing.TB, name string, tc *tls.Config) *vxGreeter {
	l, err := net.Listen("tcp", "127.0.0.1:0")
	if err != nil {
		t.Fatal(err)
	}
	g := &vxGreeter{name: name, addr: l.Addr().String(), l: l}
	go func() {
		for {
			c, err := l.Accept()
			if err != nil {
				return
			}
			g.mu.Lock()
			g.conns++
			i := len(g.data)
			g.data = append(g.data, nil)
			g.mu.Unlock()
			go func() {
				defer c.Close()
				if tc != nil {
					s := tls.Server(c, tc)
					if err := s.Handshake(); err != nil {
						return
					}
					c = s
				}
				fmt.Fprintf(c, "up=%s\n", name)
				buf := make([]byte, 4096)
				for {
					n, err := c.Read(buf)
					g.mu.Lock()
					g.data[i] = append(g.data[i], buf[:n]...)
					g.mu.Unlock()
					if err != nil {
						return
					}
				}
			}()
		}
	}()
	return g
}

func (g *vxGreeter) numConns() int {
	g.mu.Lock()
	defer g.mu.Unlock()
	return g.conns
}

func (g *vxGreeter) total() int {
	g.mu.Lock()
	defer g.mu.Unlock()
	n := 0
	for _, d := range g.data {
		n += len(d)
	}
	return n
}

func vxWrite(t testing.TB, path, content string) {
	if err := os.MkdirAll(filepath.Dir(path), 0o755); err != nil {
		t.Fatal(err)
	}
	if err := os.WriteFile(path, []byte(content), 0o644); err != nil {
		t.Fatal(err)
	}
}

// vxReadLine reads up to a newline or end.
func vxReadLine(c net.Conn) (string, error) {
	var b []byte
	one := make([]byte, 1)
	for {
		n, err := c.Read(one)
		if n > 0 {
			if one[0] == '\n' {
				return string(b), nil
			}
			b = append(b, one[0])
		}
		if err != nil {
			return string(b), err
		}
	}
}

// vxEventually polls until f is true (generous real time limit).
func vxEventually(f func() bool) bool {
	for i := 0; i < 4000; i++ {
		if f() {
			return true
		}
		if i < 200 {
			time.Sleep(200 * time.Microsecond)
		} else {
			time.Sleep(5 * time.Millisecond)
		}
	}
	return f()
}

// vxAlert names the TLS alert in err.
func vxAlert(err error) string {
	if err == nil {
		return ""
	}
	s := err.Error()
	if i := strings.Index(s, "remote error: tls: "); i >= 0 {
		return s[i+len("remote error: tls: "):]
	}
	if strings.Contains(s, "reset by peer") || strings.Contains(s, "EOF") || strings.Contains(s, "broken pipe") {
		return "closed"
	}
	return s
}
