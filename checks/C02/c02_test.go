package proxy

import (
	"bytes"
	"crypto/tls"
	"encoding/hex"
	"errors"
	"fmt"
	"io"
	"net"
	"slices"
	"strings"
	"testing"
	"time"

	"github.com/c2FmZQ/tlsproxy/internal/vnet"
	"github.com/c2FmZQ/tlsproxy/internal/vsched"
	"github.com/c2FmZQ/tlsproxy/internal/vx"
)

const (
	c02A = "a.example.com"
	c02B = "b.example.com"
	c02D = "default.example.com"
)

// c02Bytes is a connection that delivers bytes, in pieces, and then ends.
type c02Bytes struct {
	b     []byte
	piece int
}

func (c *c02Bytes) Read(p []byte) (int, error) {
	if len(c.b) == 0 {
		return 0, io.EOF
	}
	n := len(c.b)
	if c.piece > 0 {
		n = min(n, c.piece)
	}
	n = copy(p, c.b[:n])
	c.b = c.b[n:]
	return n, nil
}
func (c *c02Bytes) Write(p []byte) (int, error)        { return len(p), nil }
func (c *c02Bytes) Close() error                       { return nil }
func (c *c02Bytes) LocalAddr() net.Addr                { return &net.TCPAddr{} }
func (c *c02Bytes) RemoteAddr() net.Addr               { return &net.TCPAddr{} }
func (c *c02Bytes) SetDeadline(t time.Time) error      { return nil }
func (c *c02Bytes) SetReadDeadline(t time.Time) error  { return nil }
func (c *c02Bytes) SetWriteDeadline(t time.Time) error { return nil }

// Peek is what netw.Conn does.
func (c *c02Bytes) Peek(p []byte) (int, error) {
	n := copy(p, c.b)
	if n < len(p) {
		return n, io.ErrUnexpectedEOF
	}
	return n, nil
}

var errC02 = errors.New("captured")

// c02TLS is what crypto/tls makes of the bytes.
func c02TLS(b []byte) (name string, protos []string, ok bool) {
	cfg := &tls.Config{GetConfigForClient: func(h *tls.ClientHelloInfo) (*tls.Config, error) {
		name, protos, ok = h.ServerName, h.SupportedProtos, true
		return nil, errC02
	}}
	tls.Server(&c02Bytes{b: b}, cfg).Handshake()
	return
}

func c02Peek(b []byte) (h clientHello, err error) {
	defer func() {
		if e := recover(); e != nil {
			// handleConnection recovers, and closes the connection.
			err = fmt.Errorf("panic: %v", e)
		}
	}()
	return peekClientHello(&c02Bytes{b: b})
}

func c02U16(n int) []byte { return []byte{byte(n >> 8), byte(n)} }

func c02Cat(bs ...[]byte) []byte { return bytes.Join(bs, nil) }

type c02Ext struct {
	typ  int
	data []byte
}

func c02SNI(names ...string) c02Ext {
	var l []byte
	for _, n := range names {
		l = append(l, 0)
		l = append(l, c02U16(len(n))...)
		l = append(l, n...)
	}
	return c02Ext{0, c02Cat(c02U16(len(l)), l)}
}

func c02ALPN(protos ...string) c02Ext {
	var l []byte
	for _, p := range protos {
		l = append(l, byte(len(p)))
		l = append(l, p...)
	}
	return c02Ext{16, c02Cat(c02U16(len(l)), l)}
}

func c02Body(exts []c02Ext, noExt bool) []byte {
	body := c02Cat([]byte{3, 3}, bytes.Repeat([]byte{0x41}, 32), []byte{2, 7, 7}, c02U16(4), []byte{0x13, 1, 0xc0, 0x2f}, []byte{1, 0})
	if noExt {
		return body
	}
	var e []byte
	for _, x := range exts {
		e = c02Cat(e, c02U16(x.typ), c02U16(len(x.data)), x.data)
	}
	return c02Cat(body, c02U16(len(e)), e)
}

func c02Msg(body []byte, length int) []byte {
	return c02Cat([]byte{1, byte(length >> 16), byte(length >> 8), byte(length)}, body)
}

func c02Rec(b []byte) []byte { return c02Cat([]byte{22, 3, 1}, c02U16(len(b)), b) }

func c02Hello(exts ...c02Ext) []byte {
	b := c02Body(exts, false)
	return c02Rec(c02Msg(b, len(b)))
}

type c02Case struct {
	desc string
	b    []byte
}

// c02Judge compares the two readings of the same bytes.
func c02Judge(r *vx.R, key, desc string, b []byte) {
	r.Exec()
	h, err := c02Peek(b)
	if err != nil {
		r.Outcome("%s: refused", key)
		return
	}
	name, protos, ok := c02TLS(b)
	if !ok {
		// No TLS server gets anything out of these bytes.
		r.Outcome("%s: not a hello for TLS", key)
		return
	}
	if h.ServerName != name || !slices.Equal(h.ALPNProtos, protos) {
		r.Violation("differs:"+key, "%s: %s: routed by name=%q protocols=%q, a TLS server reads name=%q protocols=%q (bytes %s)", key, desc, h.ServerName, h.ALPNProtos, name, protos, hex.EncodeToString(b))
		return
	}
	r.Outcome("%s: agrees", key)
}

// c02Crafted lists structured variations.
func c02Crafted() []c02Case {
	var out []c02Case
	add := func(desc string, b []byte) { out = append(out, c02Case{desc, b}) }
	other := c02Ext{43, []byte{4, 3, 4, 3, 3}}
	grease := c02Ext{0x2a2a, nil}
	exts := []c02Ext{c02SNI(c02A), c02SNI(c02B), c02SNI(""), c02SNI(), c02SNI(c02A, c02B), c02SNI("", c02A), c02SNI(c02A, ""), c02SNI(c02A + "."), c02SNI("A.Example.COM"), c02SNI("a\x00.example.com"),
		{0, c02Cat(c02U16(4), []byte{1, 0, 1, 'x'})}, {0, c02Cat(c02U16(4+16), []byte{1, 0, 1, 'x', 0, 0, 13}, []byte(c02A))}, {0, nil}, {0, c02Cat(c02SNI(c02A).data, []byte{0})},
		{0, c02Cat(c02U16(14), []byte{0, 0, 13}, []byte(c02A))}, {0, c02Cat(c02U16(200), []byte{0, 0, 13}, []byte(c02A))},
		c02ALPN("h2"), c02ALPN("http/1.1", "h2"), c02ALPN(), c02ALPN(""), c02ALPN("h2", ""), c02ALPN("acme-tls/1"), {16, nil}, {16, c02Cat(c02ALPN("h2").data, []byte{2, 'h', '2'})},
		other, grease, {65037, []byte{0, 1, 2}}, {41, []byte{0, 0}}, {21, bytes.Repeat([]byte{0}, 300)},
	}
	for i, a := range exts {
		add(fmt.Sprintf("ext %d", i), c02Hello(a))
		for j, b := range exts {
			add(fmt.Sprintf("exts %d %d", i, j), c02Hello(a, b))
			for k, c := range exts[:18] {
				if i < 18 && j < 18 {
					add(fmt.Sprintf("exts %d %d %d", i, j, k), c02Hello(a, b, c))
				}
			}
		}
	}
	add("no extensions", c02Rec(c02Msg(c02Body(nil, true), len(c02Body(nil, true)))))
	// The length of the message and the length of the record disagree.
	full := c02Body([]c02Ext{c02SNI(c02A), c02ALPN("h2")}, false)
	short := c02Body(nil, true)
	for l := 0; l <= len(full)+20; l++ {
		add(fmt.Sprintf("message length %d of %d", l, len(full)), c02Rec(c02Msg(full, l)))
		add(fmt.Sprintf("message length %d of %d, two messages", l, len(full)), c02Rec(c02Cat(c02Msg(full, l), c02Msg(c02Body([]c02Ext{c02SNI(c02B)}, false), len(full)))))
	}
	add("hello without extensions, then more", c02Rec(c02Cat(c02Msg(short, len(short)), c02Msg(full, len(full)))))
	// The message is spread over records.
	msg := c02Msg(full, len(full))
	for cut := 0; cut <= len(msg); cut++ {
		add(fmt.Sprintf("two records, cut at %d", cut), c02Cat(c02Rec(msg[:cut]), c02Rec(msg[cut:])))
		add(fmt.Sprintf("one record, the rest missing, cut at %d", cut), c02Rec(msg[:cut]))
		add(fmt.Sprintf("record cut at %d", cut), c02Rec(msg)[:cut])
		// What the first record holds looks like a whole hello.
		alt := c02Body([]c02Ext{c02SNI(c02B)}, false)
		if cut >= len(alt) {
			m := c02Cat(c02Msg(alt, len(full)), full[min(len(full), len(alt)):])
			add(fmt.Sprintf("complete looking first record %d", cut), c02Cat(c02Rec(m[:min(len(m), cut)]), c02Rec(m[min(len(m), cut):])))
		}
	}
	// Record headers.
	for _, typ := range []byte{0, 1, 20, 21, 22, 23, 24, 128, 255} {
		for _, v := range [][2]byte{{0, 0}, {3, 0}, {3, 1}, {3, 3}, {3, 4}, {2, 0}, {16, 0}, {255, 255}} {
			rec := c02Rec(msg)
			rec[0], rec[1], rec[2] = typ, v[0], v[1]
			add(fmt.Sprintf("record type %d version %v", typ, v), rec)
		}
	}
	for _, n := range []int{0, 1, 3, 4, 5, 37, 38, 39, 16383, 16384, 16385, 18432, 65535} {
		add(fmt.Sprintf("record of %d zeros", n), c02Cat([]byte{22, 3, 1}, c02U16(n), make([]byte, n)))
		add(fmt.Sprintf("record of length %d", n), c02Cat([]byte{22, 3, 1}, c02U16(n), msg))
		big := c02Body([]c02Ext{c02SNI(c02A), {21, make([]byte, max(0, n-100))}}, false)
		if len(big)+4 < 65536 {
			add(fmt.Sprintf("hello with %d bytes of padding", n), c02Rec(c02Msg(big, len(big))))
		}
	}
	return out
}

func TestVX(t *testing.T) {
	r := vx.Start(t, "C02")
	defer r.Done()
	simInit(r, c02A, c02B, c02D)

	crafted := c02Crafted()
	r.Bound("structured hellos", len(crafted))
	for i := 0; i < len(crafted); i += 50 {
		if !r.Case(fmt.Sprintf("crafted/%d", i)) {
			continue
		}
		for _, c := range crafted[i:min(i+50, len(crafted))] {
			r.State("%s", c.desc)
			c02Judge(r, "crafted", c.desc, c.b)
		}
	}

	// A hello of any size that fits in a record is understood.
	if r.Case("sizes") {
		hello := func(pad int) []byte {
			b := c02Body([]c02Ext{c02SNI(c02A), {21, make([]byte, pad)}}, false)
			return c02Msg(b, len(b))
		}
		min := len(hello(0))
		for n := min; n <= 16384; n++ {
			// Every size around the powers of two, and one in 61.
			if n%61 != 0 && n&(n+1) != 0 && n&(n-1) != 0 && (n-5)&(n-6) != 0 && n != min && n < 16383 {
				continue
			}
			b := c02Rec(hello(n - min))
			if len(b) != n+5 {
				panic("bad size")
			}
			r.Exec()
			r.Step(1)
			r.State("size %d", n)
			if h, err := c02Peek(b); err != nil || h.ServerName != c02A {
				r.Violation("size", "a hello of %d bytes, in one record, isn't understood: %q %v", n, h.ServerName, err)
			}
		}
	}

	// A hello of crypto/tls, and a small one.
	real := func(name string, protos []string) []byte {
		a, b := net.Pipe()
		go tls.Client(a, &tls.Config{ServerName: name, NextProtos: protos}).Handshake()
		buf := make([]byte, 16384)
		n, _ := b.Read(buf)
		b.Close()
		return buf[:n]
	}
	small := c02Hello(c02SNI(c02A), c02ALPN("h2", "foo"))
	vals := func(b byte) []byte { return []byte{0, 1, 2, 0x10, 0x7f, 0xff, b ^ 0xff, b + 1, b - 1, b ^ 0x80} }
	for hi, h := range [][]byte{small, real(c02A, []string{"h2", "http/1.1"})} {
		for i := range h {
			if !r.Case(fmt.Sprintf("byte/%d/%d", hi, i)) {
				continue
			}
			for _, v := range vals(h[i]) {
				m := slices.Clone(h)
				m[i] = v
				c02Judge(r, "one byte", fmt.Sprintf("hello %d byte %d = %#x", hi, i, v), m)
			}
			for _, v := range vals(0) {
				c02Judge(r, "one byte inserted", fmt.Sprintf("hello %d byte %#x before %d", hi, v, i), slices.Insert(slices.Clone(h), i, v))
			}
			c02Judge(r, "one byte removed", fmt.Sprintf("hello %d byte %d", hi, i), slices.Delete(slices.Clone(h), i, i+1))
		}
	}
	// Two bytes of the small one. All of its length and type fields are
	// outside of the random.
	for i := range small {
		if i >= 11 && i < 43 || !r.Case(fmt.Sprintf("bytes/%d", i)) {
			continue
		}
		for j := i + 1; j < len(small); j++ {
			if j >= 11 && j < 43 {
				continue
			}
			vi, vj := vals(small[i]), vals(small[j])
			if r.Pick(0, 1) == 0 {
				vi, vj = []byte{0, 1, small[i] + 1, small[i] - 1}, []byte{0, 1, small[j] + 1, small[j] - 1}
			}
			for _, a := range vi {
				for _, b := range vj {
					m := slices.Clone(small)
					m[i], m[j] = a, b
					c02Judge(r, "two bytes", fmt.Sprintf("byte %d = %#x, byte %d = %#x", i, a, j, b), m)
				}
			}
		}
	}
	c02Proxy(r, crafted, real)
}

// c02Proxy sends hellos to a proxy with passthrough backends.
func c02Proxy(r *vx.R, crafted []c02Case, real func(string, []string) []byte) {
	type got struct {
		addr string
		b    []byte
	}
	run := func(id string, f func(x *vsched.X, s *sim, seen func() []*got)) {
		if !r.Case(id) {
			return
		}
		vsched.Bubble(r, id, func(x *vsched.X) {
			var list []*got
			bes := []*Backend{}
			names := []string{c02A, c02B, c02D}
			for i, n := range names {
				bes = append(bes, &Backend{ServerNames: []string{n}, Mode: ModeTLSPassthrough, Addresses: []string{fmt.Sprintf("10.0.0.%d:99", i+1)}})
			}
			cfg := simCfg(bes...)
			cfg.DefaultServerName = c02D
			cfg.AcceptProxyHeaderFrom = []string{"192.0.2.0/24"}
			s := newSim(x, cfg)
			for i, n := range names {
				s.upstream(fmt.Sprintf("10.0.0.%d:99", i+1), func(c *vnet.VConn) {
					g := &got{addr: n}
					list = append(list, g)
					buf := make([]byte, 65536)
					for {
						k, err := c.Read(buf)
						g.b = append(g.b, buf[:k]...)
						if err != nil {
							c.Close()
							return
						}
					}
				})
			}
			f(x, s, func() []*got { return list })
			time.Sleep(2 * time.Minute)
			if o := s.openConns(); o != "" {
				r.Violation("left-open", "%s: the proxy still holds connections open: %s", x.ID, o)
			}
		})
	}
	probe := func(x *vsched.X, s *sim, seen func() []*got, key, desc string, segs [][]byte, pause time.Duration, from, prefix string) {
		r.Exec()
		r.Step(len(segs))
		var all []byte
		for _, sg := range segs {
			all = append(all, sg...)
		}
		n0 := len(seen())
		c, err := s.raw("c", from)
		if err != nil {
			r.Violation("down", "%s: %s: can't connect: %v", x.ID, desc, err)
			return
		}
		var out []byte
		closed := make(chan struct{})
		go func() {
			out, _ = io.ReadAll(c.raw)
			close(closed)
		}()
		for i, sg := range segs {
			if i == 0 {
				sg = c02Cat([]byte(prefix), sg)
			}
			if _, err := c.raw.Write(sg); err != nil {
				break
			}
			time.Sleep(pause)
		}
		time.Sleep(time.Millisecond)
		c.raw.CloseWrite()
		select {
		case <-closed:
		case <-time.After(3 * time.Minute):
			r.Violation("hang:"+key, "%s: %s: the connection is still open 3 minutes later", x.ID, desc)
		}
		c.raw.Close()
		time.Sleep(time.Millisecond)
		fresh := seen()[n0:]
		h, herr := c02Peek(all)
		if len(fresh) > 1 {
			r.Violation("twice:"+key, "%s: %s: reached %d upstreams", x.ID, desc, len(fresh))
			return
		}
		if len(fresh) == 0 {
			if len(out) > 0 && out[0] != 0x15 {
				r.Violation("answer:"+key, "%s: %s: the answer isn't an alert: %x", x.ID, desc, out)
			}
			if herr == nil && (h.ServerName == c02A || h.ServerName == c02B || h.ServerName == c02D || h.ServerName == "") {
				r.Violation("refused:"+key, "%s: %s: a good hello for %q was refused (%x)", x.ID, desc, h.ServerName, out)
			}
			r.Outcome("proxy %s: refused, answer of %d bytes", key, len(out))
			return
		}
		name, _, ok := c02TLS(all)
		if name == "" {
			name = c02D
		}
		if ok && fresh[0].addr != name {
			r.Violation("routed:"+key, "%s: %s: sent to the server for %s, the hello says %s", x.ID, desc, fresh[0].addr, name)
		}
		if !bytes.Equal(fresh[0].b, all) {
			r.Violation("bytes:"+key, "%s: %s: the server received %d bytes that aren't the %d that were sent", x.ID, desc, len(fresh[0].b), len(all))
		}
		r.Outcome("proxy %s: reached %s", key, fresh[0].addr)
	}
	alive := func(x *vsched.X, s *sim, seen func() []*got) {
		probe(x, s, seen, "alive", "a good hello afterwards", [][]byte{c02Hello(c02SNI(c02B))}, 0, "", "")
	}
	for i := 0; i < len(crafted); i += 100 {
		run(fmt.Sprintf("proxy/crafted/%d", i), func(x *vsched.X, s *sim, seen func() []*got) {
			for _, c := range crafted[i:min(i+100, len(crafted))] {
				if strings.HasPrefix(c.desc, "exts") && strings.Count(c.desc, " ") > 2 && r.Pick(0, 1) == 0 {
					continue
				}
				probe(x, s, seen, "crafted", c.desc, [][]byte{c.b}, 0, "", "")
			}
			alive(x, s, seen)
		})
	}
	// Every way to cut a hello, and what follows, in two; and in small pieces.
	hellos := [][]byte{c02Hello(c02SNI(c02A), c02ALPN("h2")), c02Hello(c02ALPN("h2")), real(c02B, nil), c02Hello(c02SNI("unknown.example.com"))}
	for hi, h := range hellos {
		for _, pause := range []time.Duration{0, time.Second, 20 * time.Second} {
			for _, px := range []string{"", "PROXY TCP4 10.9.8.7 10.0.0.1 1000 443\r\n"} {
				run(fmt.Sprintf("proxy/cut/%d/%v/%d", hi, pause, len(px)), func(x *vsched.X, s *sim, seen func() []*got) {
					from := ""
					if px != "" {
						from = "192.0.2.9"
					}
					all := c02Cat(h, []byte("the bytes that follow the hello"))
					step := 1
					if hi == 2 && r.Pick(0, 1) == 0 {
						step = 7
					}
					for cut := 1; cut < len(all); cut += step {
						probe(x, s, seen, "cut", fmt.Sprintf("hello %d cut at %d, pause %v", hi, cut, pause), [][]byte{all[:cut], all[cut:]}, pause, from, px)
					}
					if pause < 20*time.Second {
						for _, n := range []int{1, 2, 5, 100} {
							if pause > 0 && n < 100 {
								continue
							}
							probe(x, s, seen, "pieces", fmt.Sprintf("hello %d in pieces of %d", hi, n), slices.Collect(slices.Chunk(all, n)), pause, from, px)
						}
					}
				})
			}
		}
	}
	// A client that stops in the middle, or never gets to the end.
	for hi, h := range hellos[:3] {
		run(fmt.Sprintf("proxy/stall/%d", hi), func(x *vsched.X, s *sim, seen func() []*got) {
			for cut := 0; cut < len(h); cut++ {
				r.Exec()
				n0 := len(seen())
				c, err := s.raw("c", "")
				if err != nil {
					r.Violation("down", "%s: can't connect: %v", x.ID, err)
					return
				}
				if cut%2 == 0 {
					c.raw.Write(h[:cut])
				} else {
					go func() {
						for i := 0; i < cut; i++ {
							if _, err := c.raw.Write(h[i : i+1]); err != nil {
								return
							}
							time.Sleep(11 * time.Second)
						}
					}()
				}
				time.Sleep(2 * time.Minute)
				if !c.closed() {
					r.Violation("stall", "%s: a client that stopped after %d bytes is still connected 2 minutes later", x.ID, cut)
				}
				if len(seen()) > n0 {
					r.Violation("stall-reached", "%s: half a hello (%d bytes) reached a server", x.ID, cut)
				}
				c.raw.Close()
			}
			alive(x, s, seen)
		})
	}
}
