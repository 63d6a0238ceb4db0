package proxy

import (
	"bytes"
	"crypto/tls"
	"errors"
	"fmt"
	"io"
	"net"
	"net/http"
	"strconv"
	"strings"
	"time"

	"golang.org/x/net/http2"
	"golang.org/x/net/http2/hpack"
)

// vxH2 is a minimal raw HTTP/2 client: it sends exactly the header fields it is
// told to.
type vxH2 struct {
	c    net.Conn
	fr   *http2.Framer
	hb   bytes.Buffer
	enc  *hpack.Encoder
	dec  *hpack.Decoder
	next uint32
}

type vxH2Resp struct {
	Status  int
	Header  http.Header
	Trailer http.Header
	Body    []byte
	// Reset is set when the stream was reset; Ended when END_STREAM was
	// received.
	Reset bool
	Code  http2.ErrCode
	Ended bool
	Conn  error
}

func (p *vxProxy) vxH2Conn(d vxDial) (*vxH2, error) {
	d.protos = []string{"h2"}
	c, err := p.vxTLS(d)
	if err != nil {
		return nil, err
	}
	if c.ConnectionState().NegotiatedProtocol != "h2" {
		c.Close()
		return nil, errors.New("h2 not negotiated")
	}
	return vxNewH2(c)
}

func vxNewH2(c net.Conn) (*vxH2, error) {
	if _, err := io.WriteString(c, http2.ClientPreface); err != nil {
		return nil, err
	}
	h := &vxH2{c: c, fr: http2.NewFramer(c, c), next: 1}
	h.enc = hpack.NewEncoder(&h.hb)
	h.dec = hpack.NewDecoder(4096, nil)
	h.fr.SetMaxReadFrameSize(1 << 20)
	if err := h.fr.WriteSettings(http2.Setting{ID: http2.SettingEnablePush, Val: 0}, http2.Setting{ID: http2.SettingInitialWindowSize, Val: 1 << 24}); err != nil {
		return nil, err
	}
	h.fr.WriteWindowUpdate(0, 1<<28)
	return h, nil
}

// request sends a request and returns its stream id. body nil: END_STREAM on
// the headers.
func (h *vxH2) request(fields [][2]string, body []byte, trailers [][2]string) (uint32, error) {
	h.c.SetDeadline(time.Now().Add(20 * time.Second))
	id := h.next
	h.next += 2
	h.hb.Reset()
	for _, f := range fields {
		h.enc.WriteField(hpack.HeaderField{Name: f[0], Value: f[1]})
	}
	end := body == nil && trailers == nil
	if err := h.fr.WriteHeaders(http2.HeadersFrameParam{StreamID: id, BlockFragment: h.hb.Bytes(), EndHeaders: true, EndStream: end}); err != nil {
		return id, err
	}
	for len(body) > 16000 {
		if err := h.fr.WriteData(id, false, body[:16000]); err != nil {
			return id, err
		}
		body = body[16000:]
	}
	if !end {
		if err := h.fr.WriteData(id, trailers == nil, body); err != nil {
			return id, err
		}
	}
	if trailers != nil {
		h.hb.Reset()
		for _, f := range trailers {
			h.enc.WriteField(hpack.HeaderField{Name: f[0], Value: f[1]})
		}
		if err := h.fr.WriteHeaders(http2.HeadersFrameParam{StreamID: id, BlockFragment: h.hb.Bytes(), EndHeaders: true, EndStream: true}); err != nil {
			return id, err
		}
	}
	return id, nil
}

// response reads frames until the stream ends.
func (h *vxH2) response(id uint32) (*vxH2Resp, error) {
	h.c.SetDeadline(time.Now().Add(20 * time.Second))
	r := &vxH2Resp{Header: http.Header{}, Trailer: http.Header{}}
	var block []byte
	var blockEnd bool
	for {
		f, err := h.fr.ReadFrame()
		if err != nil {
			r.Conn = err
			if r.Status != 0 {
				return r, nil
			}
			return r, err
		}
		done := func() error {
			fs, err := h.dec.DecodeFull(block)
			block = nil
			if err != nil {
				return err
			}
			if r.Status < 200 {
				r.Header = http.Header{} // drop interim headers
			}
			dst := r.Header
			if r.Status >= 200 {
				dst = r.Trailer
			}
			for _, f := range fs {
				if f.Name == ":status" {
					r.Status, _ = strconv.Atoi(f.Value)
					continue
				}
				dst.Add(f.Name, f.Value)
			}
			return nil
		}
		switch f := f.(type) {
		case *http2.SettingsFrame:
			if !f.IsAck() {
				h.fr.WriteSettingsAck()
			}
		case *http2.PingFrame:
			if !f.IsAck() {
				h.fr.WritePing(true, f.Data)
			}
		case *http2.GoAwayFrame:
			if f.LastStreamID < id {
				return r, fmt.Errorf("goaway %v", f.ErrCode)
			}
		case *http2.HeadersFrame:
			block = append(block, f.HeaderBlockFragment()...)
			blockEnd = f.StreamEnded()
			if f.HeadersEnded() {
				if err := done(); err != nil {
					return r, err
				}
				if f.StreamID == id && blockEnd {
					r.Ended = true
					return r, nil
				}
			}
		case *http2.ContinuationFrame:
			block = append(block, f.HeaderBlockFragment()...)
			if f.HeadersEnded() {
				if err := done(); err != nil {
					return r, err
				}
				if f.StreamID == id && blockEnd {
					r.Ended = true
					return r, nil
				}
			}
		case *http2.DataFrame:
			if f.StreamID == id {
				r.Body = append(r.Body, f.Data()...)
				if f.StreamEnded() {
					r.Ended = true
					return r, nil
				}
			}
		case *http2.RSTStreamFrame:
			if f.StreamID == id {
				r.Reset = true
				r.Code = f.ErrCode
				return r, nil
			}
		}
	}
}

// get is a simple request.
func (h *vxH2) get(method, authority, path string, extra ...[2]string) (*vxH2Resp, error) {
	fields := [][2]string{{":method", method}, {":scheme", "https"}}
	if authority != "" {
		fields = append(fields, [2]string{":authority", authority})
	}
	fields = append(fields, [2]string{":path", path})
	fields = append(fields, extra...)
	id, err := h.request(fields, nil, nil)
	if err != nil {
		return nil, err
	}
	return h.response(id)
}

func (h *vxH2) close() { h.c.Close() }

// vxH2Client keeps one connection open, replacing it when it fails.
type vxH2Client struct {
	p *vxProxy
	d vxDial
	h *vxH2
}

func (c *vxH2Client) get(method, authority, path string, extra ...[2]string) (*vxH2Resp, error) {
	for try := 0; ; try++ {
		if c.h == nil {
			h, err := c.p.vxH2Conn(c.d)
			if err != nil {
				return nil, err
			}
			c.h = h
		}
		resp, err := c.h.get(method, authority, path, extra...)
		if err != nil {
			c.h.close()
			c.h = nil
			if try == 0 {
				continue
			}
		}
		return resp, err
	}
}

// vxClean is the lexical cleaning of a URL path, written independently of the
// code under test.
func vxClean(p string) string {
	var out []string
	for _, s := range strings.Split(p, "/") {
		switch s {
		case "", ".":
		case "..":
			if len(out) > 0 {
				out = out[:len(out)-1]
			}
		default:
			out = append(out, s)
		}
	}
	c := "/" + strings.Join(out, "/")
	if c != "/" && strings.HasSuffix(p, "/") {
		c += "/"
	}
	return c
}

var _ = tls.VersionTLS13
