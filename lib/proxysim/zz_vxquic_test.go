package proxy

import (
	"context"
	"crypto/tls"
	"errors"
	"io"
	"net"
	"net/http"
	"strings"
	"time"

	"github.com/quic-go/quic-go"
	"github.com/quic-go/quic-go/http3"
)

// simQUIC is how the two ends are configured.
var simQUIC = &quic.Config{EnableDatagrams: true, MaxIdleTimeout: 30 * time.Minute, KeepAlivePeriod: 10 * time.Second}

// quicDial opens a QUIC connection to the proxy.
func (s *sim) quicDial(from, sni string, protos []string, cert *tls.Certificate) (quic.Connection, error) {
	if from == "" {
		from = "127.0.0.1"
	}
	tc := simTLSConfig(sni, protos, cert)
	if sni == "" {
		// No SNI is sent.
		tc.InsecureSkipVerify = true
		tc.ServerName = ""
		tc.VerifyConnection = func(cs tls.ConnectionState) error { return nil }
	}
	return s.quicDialTLS(from, tc)
}

func (s *sim) quicDialTLS(from string, tc *tls.Config) (quic.Connection, error) {
	return s.quicDialConf(from, tc, simQUIC)
}

func (s *sim) quicDialConf(from string, tc *tls.Config, conf *quic.Config) (quic.Connection, error) {
	if from == "" {
		from = "127.0.0.1"
	}
	// As vnet does: "4/" is the 4-byte form.
	v4, is4 := strings.CutPrefix(from, "4/")
	if h, _, err := net.SplitHostPort(v4); err == nil {
		v4 = h
	}
	ip := net.ParseIP(v4)
	if is4 {
		ip = ip.To4()
	}
	pc, err := s.x.N.ListenUDPAddr(&net.UDPAddr{IP: ip})
	if err != nil {
		panic(err)
	}
	tr := &quic.Transport{Conn: pc}
	s.x.Cleanup(func() {
		tr.Close()
		pc.Close()
	})
	ctx, cancel := context.WithTimeout(context.Background(), time.Minute)
	defer cancel()
	c, err := tr.Dial(ctx, &net.UDPAddr{IP: net.IPv4(127, 0, 0, 1), Port: 443}, tc, conf)
	if err != nil {
		return nil, err
	}
	s.x.Cleanup(func() { c.CloseWithError(0, "bye") })
	return c, nil
}

// quicUpstream is a QUIC server.
func (s *sim) quicUpstream(addr string, tc *tls.Config, cfg *quic.Config, f func(quic.Connection)) {
	pc, err := s.x.N.ListenUDP(addr)
	if err != nil {
		panic(err)
	}
	tr := &quic.Transport{Conn: pc}
	ln, err := tr.Listen(tc, cfg)
	if err != nil {
		panic(err)
	}
	s.x.Cleanup(func() {
		ln.Close()
		tr.Close()
		pc.Close()
	})
	go func() {
		for {
			c, err := ln.Accept(context.Background())
			if err != nil {
				return
			}
			s.x.Cleanup(func() { c.CloseWithError(0, "bye") })
			go f(c)
		}
	}()
}

// simH3Get makes a HTTP/3 request. Nothing else can use the connection.
func simH3Get(c quic.Connection, host, path string) (int, string, error) {
	rt := &http3.Transport{DisableCompression: true}
	ctx, cancel := context.WithTimeout(context.Background(), time.Minute)
	defer cancel()
	req, err := http.NewRequestWithContext(ctx, "GET", "https://"+host+path, nil)
	if err != nil {
		return 0, "", err
	}
	resp, err := rt.NewClientConn(c).RoundTrip(req)
	if err != nil {
		return 0, "", err
	}
	b, err := io.ReadAll(resp.Body)
	resp.Body.Close()
	return resp.StatusCode, string(b), err
}

// quicAsk opens a stream, writes a line, and reads everything that comes back
// within the time.
func quicAsk(c quic.Connection, line string, n int, d time.Duration) (string, error) {
	ctx, cancel := context.WithTimeout(context.Background(), d)
	defer cancel()
	st, err := c.OpenStreamSync(ctx)
	if err != nil {
		return "", err
	}
	defer func() {
		st.CancelRead(0)
		st.CancelWrite(0)
	}()
	st.SetDeadline(time.Now().Add(d))
	if _, err := io.WriteString(st, line); err != nil {
		return "", err
	}
	b := make([]byte, n)
	k, err := io.ReadFull(st, b)
	return string(b[:k]), err
}

// quicErr says how a connection or a stream ended.
func quicErr(err error) string {
	var app *quic.ApplicationError
	var h3 *http3.Error
	var str *quic.StreamError
	var tr *quic.TransportError
	var idle *quic.IdleTimeoutError
	var ne net.Error
	switch {
	case err == nil:
		return ""
	case errors.As(err, &app):
		if app.Remote {
			return "closed " + strings.ReplaceAll(app.ErrorMessage, " ", "-")
		}
		return "closed here"
	case errors.As(err, &h3):
		if h3.Remote {
			return "closed " + strings.ReplaceAll(h3.ErrorMessage, " ", "-")
		}
		return "closed here"
	case errors.As(err, &str):
		return "reset"
	case errors.As(err, &tr):
		if tr.ErrorCode.IsCryptoError() {
			return "alert " + tls.AlertError(tr.ErrorCode-0x100).Error()
		}
		return "transport " + tr.ErrorCode.String()
	case errors.As(err, &idle):
		return "HANG"
	case errors.Is(err, io.EOF), errors.Is(err, io.ErrUnexpectedEOF):
		return "EOF"
	case errors.Is(err, context.DeadlineExceeded), errors.As(err, &ne) && ne.Timeout():
		return "HANG"
	}
	return err.Error()
}
