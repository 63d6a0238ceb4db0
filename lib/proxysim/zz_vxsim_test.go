package proxy

import (
	"bufio"
	"context"
	"crypto/tls"
	"crypto/x509"
	"errors"
	"fmt"
	"io"
	"log"
	"net"
	"net/http"
	"os"
	"runtime/debug"
	"sort"
	"strings"
	"time"

	"golang.org/x/net/http2"

	"github.com/c2FmZQ/storage"
	"github.com/c2FmZQ/storage/crypto"

	"github.com/c2FmZQ/tlsproxy/internal/vnet"
	"github.com/c2FmZQ/tlsproxy/internal/vsched"
	"github.com/c2FmZQ/tlsproxy/internal/vx"
	"github.com/c2FmZQ/tlsproxy/proxy/internal/netw"
	"github.com/c2FmZQ/tlsproxy/proxy/internal/ocspcache"
	"github.com/c2FmZQ/tlsproxy/proxy/internal/tokenmanager"
)

// A complete proxy on an in-memory network, in a synctest bubble.

var simStuff struct {
	mk    crypto.MasterKey
	store *storage.Storage
	tm    *tokenmanager.TokenManager
	oc    *ocspcache.OCSPCache
	dir   string
}

// simInit prepares what the executions share. It must be called outside of the
// bubbles.
func simInit(r *vx.R, names ...string) {
	vxInit(r.T)
	if os.Getenv("VX_LOGS") != "" {
		log.SetOutput(os.Stdout)
	}
	mk, err := crypto.CreateMasterKey(crypto.WithLogger(vxLog{}), crypto.WithStrictWipe(false))
	if err != nil {
		r.T.Fatal(err)
	}
	simStuff.mk = mk
	simStuff.dir = r.Scratch("simcache")
	simStuff.store = storage.New(simStuff.dir+"/test", mk)
	tm, err := tokenmanager.New(simStuff.store, nil, nil)
	if err != nil {
		r.T.Fatal(err)
	}
	simStuff.tm = tm
	simStuff.oc = ocspcache.New(simStuff.store, vxLog{})
	debug.SetGCPercent(400)
	for _, n := range names {
		vxCM.GetCert(n)
	}
}

type sim struct {
	x      *vsched.X
	p      *Proxy
	addr   string
	cancel func()
	nc     int
}

const simAddr = "127.0.0.1:443"

func simCfg(bes ...*Backend) *Config {
	for _, be := range bes {
		if be.ForwardRateLimit == 0 {
			be.ForwardRateLimit = 1000000
		}
	}
	return &Config{
		CacheDir:   simStuff.dir,
		MaxOpen:    1000,
		TLSAddr:    simAddr,
		EnableQUIC: vxPtr(false),
		Backends:   bes,
	}
}

// newSim starts a proxy in the current bubble.
func newSim(x *vsched.X, cfg *Config) *sim {
	p := &Proxy{
		certManager:  vxCM,
		mk:           simStuff.mk,
		store:        simStuff.store,
		tokenManager: simStuff.tm,
		bwLimits:     make(map[string]*bwLimit),
		inConns:      newConnTracker(),
		outConns:     newConnTracker(),
	}
	p.ocspCache = simStuff.oc
	if err := p.Reconfigure(cfg); err != nil {
		panic(fmt.Sprintf("harness configuration rejected: %v", err))
	}
	ctx, cancel := context.WithCancel(context.Background())
	p.mk = nil
	if err := p.Start(ctx); err != nil {
		panic(err)
	}
	s := &sim{x: x, p: p, addr: p.listener.Addr().String(), cancel: cancel}
	x.Cleanup(func() {
		p.Stop()
		cancel()
		x.N.ResetAll()
	})
	return s
}

// panicked reports a panic that the proxy recovered from.
func (s *sim) panicked() bool {
	s.p.eventsmu.Lock()
	defer s.p.eventsmu.Unlock()
	return s.p.events["panic"] > 0
}

// openConns lists the proxy's connections (both sides) that are still open.
func (s *sim) openConns() string {
	var out []string
	for _, c := range s.x.N.Open() {
		out = append(out, c.RemoteAddr().String())
	}
	sort.Strings(out)
	return strings.Join(out, " ")
}

// simConn is a client of the proxy.
type simConn struct {
	name string
	raw  *vnet.VConn
	tls  *tls.Conn
	br   *bufio.Reader
}

const simPatience = 10 * time.Minute

func (s *sim) raw(name, from string) (*simConn, error) {
	c, err := s.x.N.Dial(context.Background(), s.addr, from, false)
	if err != nil {
		return nil, err
	}
	c.SetDeadline(time.Now().Add(simPatience))
	s.x.Cleanup(c.Reset)
	return &simConn{name: name, raw: c}, nil
}

func simTLSConfig(sni string, protos []string, cert *tls.Certificate) *tls.Config {
	tc := &tls.Config{ServerName: sni, NextProtos: protos, RootCAs: vxCM.RootCACertPool()}
	if cert != nil {
		tc.Certificates = []tls.Certificate{*cert}
	}
	return tc
}

func (c *simConn) handshake(tc *tls.Config) error {
	c.tls = tls.Client(c.raw, tc)
	if err := c.tls.Handshake(); err != nil {
		return err
	}
	c.br = bufio.NewReader(c.tls)
	return nil
}

// dial opens a TLS connection.
func (s *sim) dial(name, sni string, protos []string, from string, cert *tls.Certificate) (*simConn, error) {
	c, err := s.raw(name, from)
	if err != nil {
		return nil, err
	}
	if err := c.handshake(simTLSConfig(sni, protos, cert)); err != nil {
		c.raw.Close()
		return nil, err
	}
	return c, nil
}

// simErr classifies an error that a client sees.
func simErr(err error) string {
	switch {
	case err == nil:
		return "ok"
	case errors.Is(err, os.ErrDeadlineExceeded):
		return "HANG"
	case errors.Is(err, io.EOF), errors.Is(err, io.ErrUnexpectedEOF):
		return "eof"
	}
	s := err.Error()
	for _, v := range []string{"connection refused", "connection reset", "broken pipe", "unrecognized name", "access denied", "certificate required", "use of closed", "i/o timeout", "bad certificate", "internal error", "close notify"} {
		if strings.Contains(s, v) {
			if v == "i/o timeout" {
				return "HANG"
			}
			return v
		}
	}
	return s
}

// get sends a request and reads the response.
func (c *simConn) get(host, path string) (int, string, error) {
	if _, err := fmt.Fprintf(c.tls, "GET %s HTTP/1.1\r\nHost: %s\r\n\r\n", path, host); err != nil {
		return 0, "", err
	}
	resp, err := http.ReadResponse(c.br, &http.Request{Method: "GET"})
	if err != nil {
		return 0, "", err
	}
	b, err := io.ReadAll(resp.Body)
	if err != nil {
		return resp.StatusCode, string(b), err
	}
	return resp.StatusCode, string(b), nil
}

// httpUpstream serves handler on addr.
func (s *sim) httpUpstream(addr string, h http.Handler) *http.Server {
	l, err := s.x.N.Listen(addr, false)
	if err != nil {
		panic(err)
	}
	srv := &http.Server{Handler: h, ErrorLog: log.New(io.Discard, "", 0)}
	go srv.Serve(l)
	s.x.Cleanup(func() { srv.Close() })
	return srv
}

// upstream calls f for each connection on addr. f runs in its own goroutine.
func (s *sim) upstream(addr string, f func(c *vnet.VConn)) net.Listener {
	l, err := s.x.N.Listen(addr, false)
	if err != nil {
		panic(err)
	}
	go func() {
		for {
			c, err := l.Accept()
			if err != nil {
				return
			}
			go f(c.(*vnet.VConn))
		}
	}()
	s.x.Cleanup(func() { l.Close() })
	return l
}

// simCert is a client certificate.
func simCert(name string, mod func(*x509.Certificate)) *tls.Certificate {
	return vxCM.issue(name, func(c *x509.Certificate) {
		c.ExtKeyUsage = []x509.ExtKeyUsage{x509.ExtKeyUsageClientAuth}
		if mod != nil {
			mod(c)
		}
	})
}

func simHTTPBackend(name, mode, addr string) *Backend {
	be := &Backend{ServerNames: []string{name}, Mode: mode}
	if addr != "" {
		be.Addresses = []string{addr}
	}
	return be
}

// simFilter drops the scheduling points of bookkeeping.
func simFilter(label string) bool {
	for _, s := range []string{"recordEvent", "setCounters", "(*Counter)", "defaultServerName", "extLogger", "(*LogFilter)"} {
		if strings.Contains(label, s) {
			return false
		}
	}
	return true
}

// simFilterCoarse drops annotations too.
func simFilterCoarse(label string) bool {
	return simFilter(label) && !strings.Contains(label, "nnotation")
}

var _ = netw.NewConn

// closed says whether the proxy closed its end of the connection.
func (c *simConn) closed() bool {
	fin, rst, gone := c.raw.PeerClosed()
	return fin || rst || gone
}

// webUpstream serves h on addr, with HTTP/1.1 and h2, over TLS if name isn't
// empty. Unlike with http.Server, no goroutine waits for a mutex.
func (s *sim) webUpstream(addr, name string, h http.Handler) net.Listener {
	return s.webUpstreamTLS(addr, simServerTLS(name), h)
}

func simServerTLS(name string) *tls.Config {
	if name == "" {
		return nil
	}
	return &tls.Config{GetCertificate: func(*tls.ClientHelloInfo) (*tls.Certificate, error) { return vxCM.GetCert(name) }, NextProtos: []string{"h2", "http/1.1"}}
}

func (s *sim) webUpstreamTLS(addr string, tc *tls.Config, h http.Handler) net.Listener {
	return s.upstream(addr, func(c *vnet.VConn) { s.webServe(c, tc, h) })
}

func (s *sim) webServe(c *vnet.VConn, tc *tls.Config, h http.Handler) {
	defer c.Close()
	var conn net.Conn = c
	if tc != nil {
		conn = tls.Server(c, tc)
		if conn.(*tls.Conn).Handshake() != nil {
			return
		}
	}
	br := bufio.NewReader(conn)
	if b, err := br.Peek(14); err == nil && string(b) == "PRI * HTTP/2.0" {
		(&http2.Server{}).ServeConn(&simBuf{conn, br}, &http2.ServeConnOpts{Handler: h})
		return
	}
	for {
		req, err := http.ReadRequest(br)
		if err != nil {
			return
		}
		if t, ok := conn.(*tls.Conn); ok {
			cs := t.ConnectionState()
			req.TLS = &cs
		}
		w := &simRec{h: http.Header{}, st: 200}
		h.ServeHTTP(w, req)
		io.Copy(io.Discard, req.Body)
		w.h.Set("Content-Length", fmt.Sprint(len(w.b)))
		var buf strings.Builder
		fmt.Fprintf(&buf, "HTTP/1.1 %d %s\r\n", w.st, http.StatusText(w.st))
		w.h.Write(&buf)
		fmt.Fprintf(&buf, "\r\n%s", w.b)
		if _, err := io.WriteString(conn, buf.String()); err != nil {
			return
		}
	}
}

type simBuf struct {
	net.Conn
	br *bufio.Reader
}

func (c *simBuf) Read(b []byte) (int, error) { return c.br.Read(b) }

type simRec struct {
	h  http.Header
	b  []byte
	st int
}

func (r *simRec) Header() http.Header         { return r.h }
func (r *simRec) Write(b []byte) (int, error) { r.b = append(r.b, b...); return len(b), nil }
func (r *simRec) WriteHeader(st int)          { r.st = st }

// simH2 is an h2 client on the connection.
func (c *simConn) simH2() (*http2.ClientConn, error) {
	return (&http2.Transport{}).NewClientConn(c.tls)
}
