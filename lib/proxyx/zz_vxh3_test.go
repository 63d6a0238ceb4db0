package proxy

import (
	"bytes"
	"context"
	"crypto/tls"
	"io"
	"net"
	"net/http"
	"sync"
	"time"

	"github.com/c2FmZQ/tlsproxy/proxy/internal/netw"
	"github.com/quic-go/quic-go"
	"github.com/quic-go/quic-go/http3"
)

// vxH3 is an HTTP/3 client of one server name.
type vxH3 struct {
	p  *vxProxy
	d  vxDial
	mu sync.Mutex
	tr *quic.Transport
	rt *http3.RoundTripper
}

func (p *vxProxy) vxQUICAddr() *net.UDPAddr {
	return p.quicTransport.(*netw.QUICTransport).Addr().(*net.UDPAddr)
}

func vxUDP() *net.UDPConn {
	c, err := net.ListenUDP("udp4", &net.UDPAddr{IP: net.IPv4(127, 0, 0, 1)})
	if err != nil {
		panic(err)
	}
	return c
}

func (p *vxProxy) vxH3Client(d vxDial) *vxH3 {
	h := &vxH3{p: p, d: d, tr: &quic.Transport{Conn: vxUDP()}}
	h.reset()
	return h
}

func (h *vxH3) reset() {
	h.mu.Lock()
	defer h.mu.Unlock()
	if h.rt != nil {
		h.rt.Close()
	}
	h.rt = &http3.RoundTripper{
		DisableCompression: true,
		TLSClientConfig: &tls.Config{
			ServerName:   h.d.sni,
			RootCAs:      vxCM.RootCACertPool(),
			NextProtos:   []string{"h3"},
			Certificates: h.d.certs,
		},
		Dial: func(ctx context.Context, _ string, tc *tls.Config, qc *quic.Config) (quic.EarlyConnection, error) {
			return h.tr.DialEarly(ctx, h.p.vxQUICAddr(), tc, qc)
		},
	}
}

func (h *vxH3) close() {
	h.rt.Close()
	h.tr.Close()
}

type vxH3Resp struct {
	Status  int
	Header  http.Header
	Trailer http.Header
	Body    []byte
	Err     error // reading the body
}

func (h *vxH3) do(method, host, uri string, hdr http.Header, body []byte, trailer http.Header) (*vxH3Resp, error) {
	ctx, cancel := context.WithTimeout(context.Background(), 20*time.Second)
	defer cancel()
	var rd io.Reader
	if body != nil {
		rd = bytes.NewReader(body)
	}
	req, err := http.NewRequestWithContext(ctx, method, "https://"+host+uri, rd)
	if err != nil {
		return nil, err
	}
	for k, v := range hdr {
		req.Header[k] = v
	}
	req.Trailer = trailer
	h.mu.Lock()
	rt := h.rt
	h.mu.Unlock()
	resp, err := rt.RoundTrip(req)
	if err != nil {
		return nil, err
	}
	defer resp.Body.Close()
	r := &vxH3Resp{Status: resp.StatusCode, Header: resp.Header}
	r.Body, r.Err = io.ReadAll(resp.Body)
	r.Trailer = resp.Trailer
	return r, nil
}
