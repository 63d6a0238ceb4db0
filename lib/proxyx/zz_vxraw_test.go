package proxy

import (
	"bufio"
	"bytes"
	"io"
	"net"
	"net/http"
	"sync"
	"sync/atomic"
	"testing"
)

// vxRawReq is a request received by a scripted upstream. Err is set when the
// request was cut off before its end.
type vxRawReq struct {
	Method, URI, Host string
	Header            http.Header
	Body              []byte
	Trailer           http.Header
	Err               error
}

// vxRaw is an HTTP/1.1 upstream whose responses are arbitrary bytes.
type vxRaw struct {
	addr   string
	l      net.Listener
	active atomic.Int32
	mu     sync.Mutex
	reqs   []*vxRawReq
	// Respond writes the response and returns what to do with the connection:
	// "keep", "fin" or "rst". It is called when the request was read entirely.
	Respond func(c net.Conn, r *vxRawReq) string
}

func vxNewRaw(t testing.TB) *vxRaw {
	l, err := net.Listen("tcp", "127.0.0.1:0")
	if err != nil {
		t.Fatal(err)
	}
	u := &vxRaw{addr: l.Addr().String(), l: l}
	go func() {
		for {
			c, err := l.Accept()
			if err != nil {
				return
			}
			go u.serve(c)
		}
	}()
	return u
}

func (u *vxRaw) serve(c net.Conn) {
	defer c.Close()
	br := bufio.NewReader(c)
	for {
		req, err := http.ReadRequest(br)
		if err != nil {
			return
		}
		u.active.Add(1)
		r := &vxRawReq{Method: req.Method, URI: req.RequestURI, Host: req.Host, Header: req.Header}
		if req.Header.Get("Expect") == "100-continue" {
			io.WriteString(c, "HTTP/1.1 100 Continue\r\n\r\n")
		}
		r.Body, r.Err = io.ReadAll(req.Body)
		r.Trailer = req.Trailer
		if len(req.TransferEncoding) > 0 {
			r.Header.Set("Transfer-Encoding", req.TransferEncoding[0])
		}
		u.mu.Lock()
		u.reqs = append(u.reqs, r)
		f := u.Respond
		u.mu.Unlock()
		if r.Err != nil {
			u.active.Add(-1)
			return
		}
		what := f(c, r)
		u.active.Add(-1)
		switch what {
		case "keep":
		case "rst":
			c.(*net.TCPConn).SetLinger(0)
			return
		default:
			c.(*net.TCPConn).CloseWrite()
			go io.Copy(io.Discard, c)
			return
		}
	}
}

func (u *vxRaw) take() []*vxRawReq {
	u.mu.Lock()
	defer u.mu.Unlock()
	r := u.reqs
	u.reqs = nil
	return r
}

func (u *vxRaw) set(f func(c net.Conn, r *vxRawReq) string) {
	u.mu.Lock()
	u.Respond = f
	u.mu.Unlock()
}

// vxScan splits a response byte string per HTTP/1.1 framing, written
// independently of net/http. It returns the number of bytes of the response,
// or -1 when it is incomplete, the body, and whether the end of the connection
// ends the body.
func vxScan(method string, b []byte) (n int, body []byte, closeDelim bool) {
	off := 0
	for {
		i := bytes.Index(b[off:], []byte("\r\n\r\n"))
		if i < 0 {
			return -1, nil, false
		}
		head := b[off : off+i]
		off += i + 4
		if bytes.HasPrefix(head, []byte("HTTP/1.1 1")) && !bytes.HasPrefix(head, []byte("HTTP/1.1 101")) {
			continue
		}
		if method == "HEAD" || bytes.HasPrefix(head, []byte("HTTP/1.1 204")) || bytes.HasPrefix(head, []byte("HTTP/1.1 304")) {
			return off, nil, false
		}
		low := bytes.ToLower(head)
		if bytes.Contains(low, []byte("transfer-encoding: chunked")) {
			for {
				i := bytes.Index(b[off:], []byte("\r\n"))
				if i < 0 {
					return -1, body, false
				}
				sz := 0
				for _, c := range b[off : off+i] {
					if c == ';' {
						break
					}
					d := bytes.IndexByte([]byte("0123456789abcdef"), c)
					if d < 0 {
						return -1, body, false
					}
					sz = sz*16 + d
				}
				off += i + 2
				if sz == 0 {
					break
				}
				if len(b) < off+sz+2 || string(b[off+sz:off+sz+2]) != "\r\n" {
					return -1, body, false
				}
				body = append(body, b[off:off+sz]...)
				off += sz + 2
			}
			for {
				i := bytes.Index(b[off:], []byte("\r\n"))
				if i < 0 {
					return -1, body, false
				}
				off += i + 2
				if i == 0 {
					return off, body, false
				}
			}
		}
		if i := bytes.Index(low, []byte("content-length: ")); i >= 0 {
			cl := 0
			for _, c := range low[i+16:] {
				if c < '0' || c > '9' {
					break
				}
				cl = cl*10 + int(c-'0')
			}
			if len(b) < off+cl {
				return -1, b[off:], false
			}
			return off + cl, b[off : off+cl], false
		}
		return len(b), b[off:], true
	}
}
