package proxy

import (
	"bufio"
	"bytes"
	"context"
	"crypto/tls"
	"encoding/binary"
	"errors"
	"fmt"
	"io"
	"net"
	"net/http"
	"net/netip"
	"slices"
	"sort"
	"strconv"
	"strings"
	"sync"
	"testing"
	"time"

	"golang.org/x/net/http2"

	"github.com/c2FmZQ/tlsproxy/internal/vnet"
	"github.com/c2FmZQ/tlsproxy/internal/vsched"
	"github.com/c2FmZQ/tlsproxy/internal/vx"
)

const (
	c22TCP  = "tcp.example.com"
	c22HTTP = "http.example.com"
	c22Rule = "rule.example.com"
	c22Name = "out.example.com"
)

var c22Sig2 = []byte("\r\n\r\n\x00\r\nQUIT\n")

// c22Hdr is a PROXY header, read strictly.
type c22Hdr struct {
	ver      int
	local    bool // no address
	udp      bool
	src, dst string
	tlv      map[byte]string
	bad      error // in the TLVs
}

// c22Parse is the reference reader: it returns the header and the number of
// bytes it takes. n == 0 means that there is no header.
func c22Parse(b []byte) (h c22Hdr, n int, err error) {
	if bytes.HasPrefix(b, []byte("PROXY")) {
		h.ver = 1
		i := bytes.Index(b[:min(len(b), 107)], []byte("\r\n"))
		if i < 0 {
			return h, 0, errors.New("no end of line")
		}
		if bytes.IndexByte(b[:i], '\n') >= 0 {
			return h, 0, errors.New("bare newline")
		}
		f := strings.Split(string(b[:i]), " ")
		if f[0] != "PROXY" || len(f) < 2 {
			return h, 0, errors.New("bad line")
		}
		if f[1] == "UNKNOWN" {
			h.local = true
			return h, i + 2, nil
		}
		if len(f) != 6 || f[1] != "TCP4" && f[1] != "TCP6" {
			return h, 0, errors.New("bad line")
		}
		var ap [2]string
		for k := range ap {
			a, err := netip.ParseAddr(f[2+k])
			if err != nil || a.Zone() != "" || (f[1] == "TCP4") != a.Is4() {
				return h, 0, errors.New("bad address")
			}
			p, err := strconv.ParseUint(f[4+k], 10, 16)
			if err != nil || strconv.Itoa(int(p)) != f[4+k] {
				return h, 0, errors.New("bad port")
			}
			ap[k] = netip.AddrPortFrom(a.Unmap(), uint16(p)).String()
		}
		h.src, h.dst = ap[0], ap[1]
		return h, i + 2, nil
	}
	if !bytes.HasPrefix(b, c22Sig2) {
		return h, 0, nil
	}
	h.ver = 2
	if len(b) < 16 {
		return h, 0, errors.New("short")
	}
	l := int(binary.BigEndian.Uint16(b[14:]))
	if len(b) < 16+l {
		return h, 0, errors.New("short")
	}
	d := b[16 : 16+l]
	switch b[12] {
	case 0x20:
		h.local = true
		return h, 16 + l, nil
	case 0x21:
	default:
		return h, 0, errors.New("bad command")
	}
	var alen int
	switch b[13] {
	case 0x11, 0x12:
		alen = 4
	case 0x21, 0x22:
		alen = 16
	default:
		return h, 0, errors.New("bad family")
	}
	h.udp = b[13]&0xf == 2
	if len(d) < 2*alen+4 {
		return h, 0, errors.New("short addresses")
	}
	a, _ := netip.AddrFromSlice(d[:alen])
	c, _ := netip.AddrFromSlice(d[alen : 2*alen])
	h.src = netip.AddrPortFrom(a.Unmap(), binary.BigEndian.Uint16(d[2*alen:])).String()
	h.dst = netip.AddrPortFrom(c.Unmap(), binary.BigEndian.Uint16(d[2*alen+2:])).String()
	h.tlv = make(map[byte]string)
	for t := d[2*alen+4:]; len(t) > 0; {
		if len(t) < 3 || len(t) < 3+int(binary.BigEndian.Uint16(t[1:])) {
			h.bad = errors.New("bad TLV")
			break
		}
		k := int(binary.BigEndian.Uint16(t[1:]))
		if _, ok := h.tlv[t[0]]; ok {
			h.bad = errors.New("repeated TLV")
		}
		h.tlv[t[0]] = string(t[3 : 3+k])
		t = t[3+k:]
	}
	return h, 16 + l, nil
}

func c22V2(cmd, fam byte, data []byte) []byte {
	return slices.Concat(c22Sig2, []byte{cmd, fam}, binary.BigEndian.AppendUint16(nil, uint16(len(data))), data)
}

func c22Addrs(src, dst string, sp, dp int) []byte {
	a, b := netip.MustParseAddr(src).AsSlice(), netip.MustParseAddr(dst).AsSlice()
	return slices.Concat(a, b, binary.BigEndian.AppendUint16(nil, uint16(sp)), binary.BigEndian.AppendUint16(nil, uint16(dp)))
}

type c22In struct {
	desc string
	b    []byte
}

// The header's address is in the range that the rules of one backend admit.
const c22Good, c22Dst = "203.0.113.5", "198.51.100.1"

func c22Headers() []c22In {
	v1 := "PROXY TCP4 203.0.113.5 198.51.100.1 4000 443\r\n"
	v6 := "PROXY TCP6 2001:db8:1::5 2001:db8:2::1 4000 443\r\n"
	a4 := c22Addrs(c22Good, c22Dst, 4000, 443)
	a6 := c22Addrs("2001:db8:1::5", "2001:db8:2::1", 4000, 443)
	tlvs := []byte{2, 0, 3, 'a', 'b', 'c', 1, 0, 2, 'h', '2'}
	out := []c22In{
		{"none", nil},
		{"v1", []byte(v1)},
		{"v1 tcp6", []byte(v6)},
		{"v1 other source", []byte("PROXY TCP4 198.51.100.77 198.51.100.1 4000 443\r\n")},
		{"v1 loopback", []byte("PROXY TCP4 127.0.0.1 127.0.0.1 1 65535\r\n")},
		{"v1 unknown", []byte("PROXY UNKNOWN\r\n")},
		{"v1 unknown with addresses", []byte("PROXY UNKNOWN ffff:f:f:f:f:f:f:f 203.0.113.5 65535 65535\r\n")},
		{"v1 mapped", []byte("PROXY TCP6 ::ffff:203.0.113.5 ::ffff:198.51.100.1 4000 443\r\n")},
		{"v1 twice", []byte(v1 + "PROXY TCP4 198.51.100.77 198.51.100.1 4000 443\r\n")},
		{"v1 then v2", slices.Concat([]byte(v1), c22V2(0x21, 0x11, a4))},
		{"v2 then v1", slices.Concat(c22V2(0x21, 0x11, a4), []byte(v1))},
		{"v2", c22V2(0x21, 0x11, a4)},
		{"v2 tcp6", c22V2(0x21, 0x21, a6)},
		{"v2 mapped", c22V2(0x21, 0x21, c22Addrs("::ffff:203.0.113.5", "::ffff:198.51.100.1", 4000, 443))},
		{"v2 udp", c22V2(0x21, 0x12, a4)},
		{"v2 tlvs", c22V2(0x21, 0x11, slices.Concat(a4, tlvs))},
		{"v2 many tlvs", c22V2(0x21, 0x11, slices.Concat(a4, bytes.Repeat([]byte{4, 0, 1, 0}, 50)))},
		{"v2 too many tlvs", c22V2(0x21, 0x11, slices.Concat(a4, bytes.Repeat([]byte{4, 0, 1, 0}, 500)))},
		{"v2 bad tlvs", c22V2(0x21, 0x11, slices.Concat(a4, []byte{2, 0, 9, 'a'}))},
		{"v2 local", c22V2(0x20, 0, nil)},
		{"v2 local with addresses", c22V2(0x20, 0x11, a4)},
		{"v2 local with tlvs", c22V2(0x20, 0, tlvs)},
		{"v2 unix", c22V2(0x21, 0x31, make([]byte, 216))},
		{"v2 unspec", c22V2(0x21, 0, nil)},
		{"v2 unspec with addresses", c22V2(0x21, 0, a4)},
		{"v2 other version", c22V2(0x11, 0x11, a4)},
		{"v2 other version 3", c22V2(0x31, 0x11, a4)},
		{"v2 other command", c22V2(0x22, 0x11, a4)},
		{"v2 no protocol", c22V2(0x21, 0x10, a4)},
		{"v2 no family", c22V2(0x21, 0x01, a4)},
		{"v2 addresses too short", c22V2(0x21, 0x11, a4[:11])},
		{"v2 tcp6 with v4 addresses", c22V2(0x21, 0x21, a4)},
		{"v2 no addresses", c22V2(0x21, 0x11, nil)},
		{"signature 2 only", c22Sig2},
		{"lower case", []byte("proxy TCP4 203.0.113.5 198.51.100.1 4000 443\r\n")},
	}
	for _, l := range []string{
		"PROXY TCP4 203.0.113.5 198.51.100.1 4000 443\n", "PROXY TCP4 203.0.113.5 198.51.100.1 4000 443\r", "PROXY TCP4 203.0.113.5 198.51.100.1 4000 443",
		"PROXY TCP4 203.0.113.5 198.51.100.1 4000\r\n", "PROXY TCP4 203.0.113.5 198.51.100.1\r\n", "PROXY TCP4\r\n", "PROXY\r\n", "PROXY \r\n",
		"PROXY TCP4 203.0.113.5 198.51.100.1 65536 443\r\n", "PROXY TCP4 203.0.113.5 198.51.100.1 -1 443\r\n", "PROXY TCP4 203.0.113.5 198.51.100.1 x 443\r\n",
		"PROXY TCP4 203.0.113.256 198.51.100.1 4000 443\r\n", "PROXY TCP4 203.0.113.05 198.51.100.1 4000 443\r\n", "PROXY TCP4 203.0.113 198.51.100.1 4000 443\r\n",
		"PROXY TCP4 2001:db8:1::5 2001:db8:2::1 4000 443\r\n", "PROXY TCP6 203.0.113.5 198.51.100.1 4000 443\r\n", "PROXY TCP4 203.0.113.5 2001:db8:2::1 4000 443\r\n",
		"PROXY TCP5 203.0.113.5 198.51.100.1 4000 443\r\n", "PROXY  TCP4 203.0.113.5 198.51.100.1 4000 443\r\n", "PROXY\tTCP4\t203.0.113.5\t198.51.100.1\t4000\t443\r\n",
		"PROXY UDP4 203.0.113.5 198.51.100.1 4000 443\r\n", "PROXYTCP4 203.0.113.5 198.51.100.1 4000 443\r\n", "PROXY tcp4 203.0.113.5 198.51.100.1 4000 443\r\n",
		"PROXY TCP4 203.0.113.5,1.1.1.1 198.51.100.1 4000 443\r\n",
		"PROXY TCP4 203.0.113.5 198.51.100.1 4000 443" + strings.Repeat(" ", 100) + "\r\n", "PROXY UNKNOWN" + strings.Repeat("x", 93) + "\r\n", "PROXY UNKNOWN" + strings.Repeat(" ", 92) + "\r\n",
	} {
		out = append(out, c22In{fmt.Sprintf("%q", l), []byte(l)})
	}
	return out
}

type c22Conn struct {
	b []byte
}

type c22World struct {
	s  *sim
	mu sync.Mutex
	// The connections to the tcp backends.
	conns []*c22Conn
	xaddr []string
}

func c22NewWorld(x *vsched.X, trusted []string, max int) *c22World {
	tcp := &Backend{ServerNames: []string{c22TCP}, Mode: ModeTCP, Addresses: []string{"10.0.0.1:80"}, ProxyProtocolVersion: "v2"}
	rule := &Backend{ServerNames: []string{c22Rule}, Mode: ModeTCP, Addresses: []string{"10.0.0.1:80"}, ProxyProtocolVersion: "v2", AllowIPs: &[]string{"203.0.113.0/24", "2001:db8:1::/48"}}
	web := &Backend{ServerNames: []string{c22HTTP}, Mode: ModeHTTP, Addresses: []string{"10.0.0.2:80"}, ForwardHTTPHeaders: map[string]string{"X-Addr": "${REMOTE_ADDR} ${REMOTE_IP} ${LOCAL_ADDR}"}}
	cfg := simCfg(tcp, rule, web)
	cfg.AcceptProxyHeaderFrom = trusted
	cfg.MaxOpen = max
	w := &c22World{s: newSim(x, cfg)}
	w.s.upstream("10.0.0.1:80", func(c *vnet.VConn) {
		cc := &c22Conn{}
		w.mu.Lock()
		w.conns = append(w.conns, cc)
		w.mu.Unlock()
		buf := make([]byte, 4096)
		for {
			n, err := c.Read(buf)
			w.mu.Lock()
			cc.b = append(cc.b, buf[:n]...)
			w.mu.Unlock()
			if err != nil {
				c.Close()
				return
			}
		}
	})
	w.s.httpUpstream("10.0.0.2:80", http.HandlerFunc(func(rw http.ResponseWriter, req *http.Request) {
		w.mu.Lock()
		w.xaddr = append(w.xaddr, req.Header.Get("X-Addr")+"|"+req.Header.Get("X-Forwarded-For"))
		w.mu.Unlock()
		rw.Header().Set("content-length", "2")
		io.WriteString(rw, "ok")
	}))
	return w
}

// c22Writes sends its first bytes before those of the handshake.
type c22Pre struct {
	*vnet.VConn
	pre   []byte
	cut   int
	pause time.Duration
}

func (c *c22Pre) Write(b []byte) (int, error) {
	if c.pre != nil {
		all := slices.Concat(c.pre, b)
		c.pre = nil
		if c.cut > 0 {
			if _, err := c.VConn.Write(all[:c.cut]); err != nil {
				return 0, err
			}
			time.Sleep(c.pause)
			all = all[c.cut:]
		}
		if _, err := c.VConn.Write(all); err != nil {
			return 0, err
		}
		return len(b), nil
	}
	return c.VConn.Write(b)
}

// c22Want lists the addresses that the proxy may believe: src and dst. The
// second result says whether it must serve the connection.
func c22Want(pre []byte, cut int, trusted bool, sockSrc, sockDst string) (src, dst string, serve, must bool) {
	if len(pre) == 0 {
		return sockSrc, sockDst, true, true
	}
	if !trusted {
		return "", "", false, false
	}
	h, n, err := c22Parse(pre)
	if err != nil || n != len(pre) {
		return "", "", false, false
	}
	split := cut > 0 && cut < len(pre)
	if h.local {
		return sockSrc, sockDst, true, !split
	}
	// What claims to be a datagram needn't be served.
	return h.src, h.dst, true, !split && !h.udp && h.bad == nil
}

// c22Send makes one connection and compares what the proxy believes.
func (w *c22World) send(x *vsched.X, name, from, desc string, pre []byte, cut int, pause time.Duration, trusted bool) {
	r := x.R
	r.Exec()
	r.Step(1)
	r.State("%s %s %s %d %v", name, from, desc, cut, pause)
	w.mu.Lock()
	n0, m0 := len(w.conns), len(w.xaddr)
	w.mu.Unlock()
	sc, err := w.s.raw("c", from)
	if err != nil {
		r.Violation("down", "%s: can't connect: %v", x.ID, err)
		return
	}
	id := fmt.Sprintf("%s: header %s (cut %d, pause %v) from %s to %s", x.ID, desc, cut, pause, from, name)
	sock := func(a net.Addr) string {
		p := a.(*net.TCPAddr).AddrPort()
		return netip.AddrPortFrom(p.Addr().Unmap(), p.Port()).String()
	}
	src, dst, serve, must := c22Want(pre, cut, trusted, sock(sc.raw.LocalAddr()), sock(sc.raw.RemoteAddr()))
	if serve && name == c22Rule {
		ip := netip.MustParseAddrPort(src).Addr()
		if !netip.MustParsePrefix("203.0.113.0/24").Contains(ip) && !netip.MustParsePrefix("2001:db8:1::/48").Contains(ip) {
			serve, must = false, false
		}
	}
	c := tls.Client(&c22Pre{sc.raw, pre, cut, pause}, simTLSConfig(name, nil, nil))
	sc.raw.SetDeadline(time.Now().Add(2 * time.Minute))
	err = c.Handshake()
	got := ""
	if err == nil {
		if name == c22HTTP {
			sc.tls, sc.br = c, bufio.NewReader(c)
			_, _, err = sc.get(name, "/")
		} else {
			fmt.Fprintf(c, "hello")
		}
		time.Sleep(time.Millisecond)
	}
	if simErr(err) == "HANG" {
		r.Violation("hang", "%s: neither served nor refused", id)
	}
	c.Close()
	sc.raw.Close()
	time.Sleep(time.Millisecond)
	w.mu.Lock()
	fresh, freshX := w.conns[n0:], w.xaddr[m0:]
	w.mu.Unlock()
	if name == c22HTTP {
		if len(freshX) > 0 {
			got = freshX[0]
		}
	} else if len(fresh) > 0 {
		h, n, err := c22Parse(fresh[0].b)
		switch {
		case err != nil || n == 0 || h.ver != 2 || h.bad != nil:
			r.Violation("out-header", "%s: the server got a bad header: %v (%x)", id, err, fresh[0].b)
			return
		case string(fresh[0].b[n:]) != "hello":
			r.Violation("out-data", "%s: the server got %q after the header", id, fresh[0].b[n:])
			return
		}
		got = h.src + " " + h.dst
	}
	want := src + " " + dst
	if name == c22HTTP && serve {
		a := netip.MustParseAddrPort(src)
		want = src + " " + a.Addr().String() + " " + dst + "|" + a.Addr().String()
	}
	key := desc
	if strings.HasPrefix(desc, `"`) {
		key = "malformed"
	}
	switch {
	case got != "" && !serve:
		r.Violation("believed:"+key, "%s: was served as %q, and must be refused (trusted=%v)", id, got, trusted)
	case got != "" && got != want:
		r.Violation("address:"+key, "%s: was served as %q, want %q (trusted=%v)", id, got, want, trusted)
	case got == "" && must:
		r.Violation("refused:"+key, "%s: was refused (%v), want %q (trusted=%v)", id, err, want, trusted)
	}
	r.Outcome("%s %s served=%v must=%v", name, key, got != "", must)
}

func c22Incoming(r *vx.R) {
	hdrs := c22Headers()
	r.Bound("headers", len(hdrs))
	type src struct {
		from    string
		trusted map[string]bool
	}
	sets := map[string][]string{
		"none":  nil,
		"net":   {"192.0.2.0/28", "2001:db8:ffff::/48"},
		"host":  {"192.0.2.7/32"},
		"host6": {"2001:db8:ffff::7/128"},
		"all4":  {"0.0.0.0/0"},
		"map":   {"::ffff:192.0.2.0/124"},
	}
	in := func(set, from string) bool {
		a := netip.MustParseAddr(strings.TrimPrefix(from, "4/")).Unmap()
		for _, s := range sets[set] {
			if s == "::ffff:192.0.2.0/124" {
				s = "192.0.2.0/28"
			}
			if netip.MustParsePrefix(s).Contains(a) {
				return true
			}
		}
		return false
	}
	froms := []string{"192.0.2.7", "4/192.0.2.7", "192.0.2.15", "192.0.2.16", "203.0.113.9", "2001:db8:ffff::7", "2001:db8:fffe::7", "127.0.0.1"}
	var names []string
	for n := range sets {
		names = append(names, n)
	}
	sort.Strings(names)
	for _, set := range names {
		for _, from := range froms {
			id := fmt.Sprintf("in/%s/%s", set, strings.ReplaceAll(from, "/", "-"))
			if !r.Case(id) {
				continue
			}
			vsched.Bubble(r, id, func(x *vsched.X) {
				w := c22NewWorld(x, sets[set], 1000)
				for _, h := range hdrs {
					for _, name := range []string{c22TCP, c22Rule, c22HTTP} {
						w.send(x, name, from, h.desc, h.b, 0, 0, in(set, from))
					}
				}
				time.Sleep(2 * time.Minute)
				if o := w.s.openConns(); o != "" {
					r.Violation("left-open", "%s: the proxy still holds connections open: %s", id, o)
				}
			})
		}
	}
	// Every way to cut and to truncate a header.
	for hi, h := range hdrs {
		if len(h.b) > 300 || strings.HasPrefix(h.desc, `"`) {
			continue
		}
		for _, from := range []string{"192.0.2.7", "192.0.2.16"} {
			id := fmt.Sprintf("cut/%d/%s", hi, from)
			if !r.Case(id) {
				continue
			}
			vsched.Bubble(r, id, func(x *vsched.X) {
				w := c22NewWorld(x, sets["net"], 1000)
				for cut := 1; cut <= len(h.b); cut++ {
					pauses := []time.Duration{time.Millisecond}
					if r.Pick(0, 1) == 1 || cut%5 == 0 {
						pauses = append(pauses, 0, 15*time.Second, 40*time.Second)
					}
					for _, p := range pauses {
						if p > 30*time.Second {
							// Refused, or the client's whole header was there.
							continue
						}
						w.send(x, c22Rule, from, h.desc, h.b, cut, p, in("net", from))
					}
					w.send(x, c22TCP, from, h.desc+" truncated", h.b[:cut], 0, 0, in("net", from))
				}
			})
		}
		// Every byte changed.
		if !r.Case(fmt.Sprintf("byte/%d", hi)) {
			continue
		}
		vsched.Bubble(r, fmt.Sprintf("byte/%d", hi), func(x *vsched.X) {
			w := c22NewWorld(x, sets["net"], 1000)
			for i := range h.b {
				for _, v := range []byte{0, ' ', '0', h.b[i] + 1, h.b[i] ^ 0x80, '\r', '\n', 0xff} {
					if v == h.b[i] {
						continue
					}
					m := slices.Clone(h.b)
					m[i] = v
					w.sendMutant(x, fmt.Sprintf("%s byte %d=%#x", h.desc, i, v), m)
				}
			}
		})
	}
	// Sources that are trusted but silent don't get in the way of the others.
	for _, max := range []int{1000, 3} {
		id := fmt.Sprintf("silent/%d", max)
		if !r.Case(id) {
			continue
		}
		vsched.Bubble(r, id, func(x *vsched.X) {
			w := c22NewWorld(x, sets["net"], max)
			var quiet []*simConn
			for i := 0; i < 5; i++ {
				for _, pre := range []string{"", "PROXY", "PROXY TCP4 203.0.113.5 198.51.100.1 4000 443\r\n"} {
					c, err := w.s.raw("q", "192.0.2.7")
					if err != nil {
						continue
					}
					io.WriteString(c.raw, pre)
					quiet = append(quiet, c)
					r.Exec()
				}
			}
			time.Sleep(time.Minute)
			for i, c := range quiet {
				if !c.closed() {
					r.Violation("silent", "%s: silent connection %d is still open a minute later", id, i)
				}
			}
			w.send(x, c22TCP, "192.0.2.7", "v1", []byte("PROXY TCP4 203.0.113.5 198.51.100.1 4000 443\r\n"), 0, 0, true)
		})
	}
}

// sendMutant is for headers whose meaning only the reference knows.
func (w *c22World) sendMutant(x *vsched.X, desc string, b []byte) {
	r := x.R
	r.Exec()
	w.mu.Lock()
	n0 := len(w.conns)
	w.mu.Unlock()
	sc, err := w.s.raw("c", "192.0.2.7")
	if err != nil {
		r.Violation("down", "%s: can't connect: %v", x.ID, err)
		return
	}
	c := tls.Client(&c22Pre{sc.raw, b, 0, 0}, simTLSConfig(c22TCP, nil, nil))
	sc.raw.SetDeadline(time.Now().Add(2 * time.Minute))
	if err = c.Handshake(); err == nil {
		fmt.Fprintf(c, "hello")
		time.Sleep(time.Millisecond)
	} else if simErr(err) == "HANG" {
		r.Violation("hang-mutant", "%s: %s: neither served nor refused", x.ID, desc)
	}
	c.Close()
	sc.raw.Close()
	time.Sleep(time.Millisecond)
	w.mu.Lock()
	fresh := w.conns[n0:]
	w.mu.Unlock()
	if len(fresh) == 0 || len(fresh[0].b) == 0 {
		// No connection, or one that never came to be, e.g. because the
		// two addresses can't be in the same header.
		r.Outcome("mutant refused")
		return
	}
	h, n, perr := c22Parse(fresh[0].b)
	if perr != nil || n == 0 {
		r.Violation("out-header", "%s: %s: the server got a bad header: %v (%x)", x.ID, desc, perr, fresh[0].b)
		return
	}
	want, wn, werr := c22Parse(b)
	src := want.src
	if want.local || wn == 0 {
		src = sc.raw.LocalAddr().String()
	}
	// The library is lenient about leading zeros in ports.
	if werr != nil && werr.Error() != "bad port" && werr.Error() != "bad line" {
		r.Violation("believed:mutant", "%s: %s: was served as %s, the header is bad: %v", x.ID, desc, h.src, werr)
		return
	}
	if werr == nil && h.src != src {
		r.Violation("address:mutant", "%s: %s: was served as %s, want %s", x.ID, desc, h.src, src)
	}
	r.Outcome("mutant served")
}

// ---- towards the backends

// c22Listener reads the PROXY header of each connection.
type c22Listener struct {
	net.Listener
	ver int
	f   func(c *c22Server)
}

func (l *c22Listener) Accept() (net.Conn, error) {
	c, err := l.Listener.Accept()
	if err != nil {
		return nil, err
	}
	cc := &c22Server{VConn: c.(*vnet.VConn), l: l}
	return cc, nil
}

type c22Server struct {
	*vnet.VConn
	l    *c22Listener
	once sync.Once
	rbuf []byte
	hdr  c22Hdr
	err  error
}

func (c *c22Server) header() {
	c.once.Do(func() {
		if c.l.ver > 0 {
			var buf []byte
			one := make([]byte, 1)
			for {
				if _, err := c.VConn.Read(one); err != nil {
					c.err = fmt.Errorf("header: %w after %q", err, buf)
					break
				}
				buf = append(buf, one[0])
				h, n, err := c22Parse(buf)
				if err == nil && n == len(buf) && n > 0 {
					c.hdr, c.err = h, h.bad
					break
				}
				if len(buf) > 1000 || len(buf) >= 12 && n == 0 && err == nil {
					c.err = fmt.Errorf("no header: %q", buf)
					break
				}
			}
		}
		// A second header would come now.
		first := make([]byte, 5)
		n, err := io.ReadFull(c.VConn, first)
		c.rbuf = first[:n]
		if err == nil && (string(first) == "PROXY" || string(first) == string(c22Sig2[:5])) {
			c.err = fmt.Errorf("unexpected header after %+v", c.hdr)
		}
		if c.l.ver > 0 && c.err == nil && c.hdr.ver != c.l.ver {
			c.err = fmt.Errorf("header of version %d, want %d", c.hdr.ver, c.l.ver)
		}
		c.l.f(c)
	})
}

func (c *c22Server) Read(b []byte) (int, error) {
	c.header()
	if len(c.rbuf) > 0 {
		n := copy(b, c.rbuf)
		c.rbuf = c.rbuf[n:]
		return n, nil
	}
	return c.VConn.Read(b)
}

type c22ConnKey struct{}

func c22TLSServer() *tls.Config {
	return &tls.Config{GetCertificate: func(*tls.ClientHelloInfo) (*tls.Certificate, error) { return vxCM.GetCert(c22Name) }, NextProtos: []string{"h2", "http/1.1"}}
}

// c22Serve is an http server that reads PROXY headers, and answers with the
// client's address.
func c22Serve(x *vsched.X, s *sim, addr string, ver int, useTLS bool, bad func(string, string, ...any)) {
	l, err := x.N.Listen(addr, false)
	if err != nil {
		panic(err)
	}
	pl := &c22Listener{Listener: l, ver: ver, f: func(c *c22Server) {
		if c.err != nil && !errors.Is(c.err, io.EOF) {
			bad("header:"+addr, "server %s: %v", addr, c.err)
		}
	}}
	h := http.HandlerFunc(func(w http.ResponseWriter, req *http.Request) {
		io.Copy(io.Discard, req.Body)
		c := req.Context().Value(c22ConnKey{}).(*c22Server)
		if d := req.Header.Get("X-Delay"); d != "" {
			time.Sleep(time.Second)
		}
		b := fmt.Sprintf("%s %s %s %q %q", addr, c.hdr.src, c.hdr.dst, c.hdr.tlv[2], c.hdr.tlv[1])
		w.Header().Set("content-length", fmt.Sprint(len(b)))
		io.WriteString(w, b)
	})
	go func() {
		for {
			c, err := pl.Accept()
			if err != nil {
				return
			}
			go func() {
				cc := c.(*c22Server)
				if useTLS {
					tc := tls.Server(c, c22TLSServer())
					if tc.Handshake() != nil {
						c.Close()
						return
					}
					c = tc
				}
				c22ServeConn(c, cc, h)
			}()
		}
	}()
	x.Cleanup(func() { l.Close() })
}

func c22ServeConn(c net.Conn, cc *c22Server, h http.Handler) {
	h2s := &http2.Server{}
	wrapped := http.HandlerFunc(func(w http.ResponseWriter, req *http.Request) {
		h.ServeHTTP(w, req.WithContext(context.WithValue(req.Context(), c22ConnKey{}, cc)))
	})
	br := bufio.NewReader(c)
	if tc, ok := c.(*tls.Conn); ok && tc.ConnectionState().NegotiatedProtocol == "h2" {
		h2s.ServeConn(c, &http2.ServeConnOpts{Handler: wrapped})
		return
	}
	if b, err := br.Peek(14); err == nil && string(b) == "PRI * HTTP/2.0" {
		h2s.ServeConn(&c22Buf{c, br}, &http2.ServeConnOpts{Handler: wrapped})
		return
	}
	for {
		req, err := http.ReadRequest(br)
		if err != nil {
			c.Close()
			return
		}
		rec := &c22Rec{h: http.Header{}}
		wrapped.ServeHTTP(rec, req)
		fmt.Fprintf(c, "HTTP/1.1 200 OK\r\nContent-Length: %d\r\n\r\n%s", rec.b.Len(), rec.b.String())
	}
}

type c22Buf struct {
	net.Conn
	br *bufio.Reader
}

func (c *c22Buf) Read(b []byte) (int, error) { return c.br.Read(b) }

type c22Rec struct {
	h http.Header
	b bytes.Buffer
}

func (r *c22Rec) Header() http.Header         { return r.h }
func (r *c22Rec) Write(b []byte) (int, error) { return r.b.Write(b) }
func (r *c22Rec) WriteHeader(int)             {}

func c22Stream(r *vx.R) {
	type client struct {
		desc, from string
		pre        []byte
		src, dst   string // declared
	}
	clients := []client{
		{"v4", "192.0.2.50", nil, "", ""},
		{"short v4", "4/192.0.2.50", nil, "", ""},
		{"v6", "2001:db8::50", nil, "", ""},
		{"px v4", "192.0.2.7", []byte("PROXY TCP4 203.0.113.5 198.51.100.1 4000 443\r\n"), "203.0.113.5:4000", "198.51.100.1:443"},
		{"px v6", "192.0.2.7", c22V2(0x21, 0x21, c22Addrs("2001:db8:1::5", "2001:db8:2::1", 4000, 443)), "[2001:db8:1::5]:4000", "[2001:db8:2::1]:443"},
		{"px mapped", "192.0.2.7", c22V2(0x21, 0x21, c22Addrs("::ffff:203.0.113.5", "::ffff:198.51.100.1", 4000, 443)), "203.0.113.5:4000", "198.51.100.1:443"},
		{"px local", "192.0.2.7", c22V2(0x20, 0, nil), "", ""},
	}
	for _, mode := range []string{ModeTCP, ModeTLS, ModeTLSPassthrough} {
		for ver := 0; ver <= 2; ver++ {
			for _, protos := range [][]string{nil, {"foo"}} {
				id := fmt.Sprintf("stream/%s/%d/%v", mode, ver, protos)
				if !r.Case(id) {
					continue
				}
				vsched.Bubble(r, id, func(x *vsched.X) {
					be := &Backend{ServerNames: []string{c22Name}, Mode: mode, Addresses: []string{"10.0.0.8:99", "10.0.0.9:99"}, InsecureSkipVerify: true}
					if protos != nil && mode != ModeTLSPassthrough {
						be.ALPNProtos = &protos
					}
					if ver > 0 {
						be.ProxyProtocolVersion = fmt.Sprintf("v%d", ver)
					}
					cfg := simCfg(be)
					cfg.AcceptProxyHeaderFrom = []string{"192.0.2.7/32"}
					s := newSim(x, cfg)
					// The first address is down.
					ch := make(chan string, 10)
					l, err := x.N.Listen("10.0.0.9:99", false)
					if err != nil {
						panic(err)
					}
					x.Cleanup(func() { l.Close() })
					pl := &c22Listener{Listener: l, ver: ver, f: func(*c22Server) {}}
					go func() {
						for {
							c, err := pl.Accept()
							if err != nil {
								return
							}
							go func() {
								cc := c.(*c22Server)
								if mode == ModeTLS || mode == ModeTLSPassthrough {
									tc := c22TLSServer()
									tc.NextProtos = protos
									c = tls.Server(c, tc)
								}
								b := make([]byte, 5)
								n, err := io.ReadFull(c, b)
								ch <- fmt.Sprintf("%v %d %s %s %q %q %q %v", cc.err, cc.hdr.ver, cc.hdr.src, cc.hdr.dst, cc.hdr.tlv[2], cc.hdr.tlv[1], b[:n], err)
								c.Close()
							}()
						}
					}()
					for round := 0; round < 2; round++ {
						for _, cl := range clients {
							r.Exec()
							r.Step(1)
							r.State("%s %s", id, cl.desc)
							sc, err := s.raw("c", cl.from)
							if err != nil {
								panic(err)
							}
							c := tls.Client(&c22Pre{sc.raw, cl.pre, 0, 0}, simTLSConfig(c22Name, protos, nil))
							sc.raw.SetDeadline(time.Now().Add(time.Minute))
							_, err = io.WriteString(c, "hello")
							src, dst := cl.src, cl.dst
							if src == "" {
								src, dst = sc.raw.LocalAddr().String(), sc.raw.RemoteAddr().String()
							}
							name, alpn := c22Name, strings.Join(protos, "")
							if mode == ModeTLSPassthrough {
								alpn = ""
							}
							if ver < 2 {
								name, alpn = "", ""
							}
							if ver == 0 {
								src, dst = "", ""
							}
							want := fmt.Sprintf("<nil> %d %s %s %q %q %q <nil>", ver, src, dst, name, alpn, "hello")
							select {
							case got := <-ch:
								if got != want {
									r.Violation(fmt.Sprintf("stream:%s:v%d", mode, ver), "%s: client %s: the server got %s, want %s", id, cl.desc, got, want)
								}
							case <-time.After(time.Minute):
								r.Violation(fmt.Sprintf("stream-none:%s:v%d", mode, ver), "%s: client %s: nothing reached the server (%v)", id, cl.desc, err)
							}
							sc.raw.Close()
							r.Outcome("stream %s v%d %s", mode, ver, cl.desc)
						}
					}
					if len(ch) > 0 {
						r.Violation("stream-extra", "%s: more connections than clients", id)
					}
				})
			}
		}
	}
}

type c22Client struct {
	name     string
	protos   []string
	from     string
	pre      []byte
	src, dst string

	sc *simConn
	h2 *http2.ClientConn
}

func (c *c22Client) dial(s *sim, n int) error {
	sc, err := s.raw(c.name, c.from)
	if err != nil {
		return err
	}
	var pre []byte
	c.src, c.dst = sc.raw.LocalAddr().String(), sc.raw.RemoteAddr().String()
	if c.from == "192.0.2.7" {
		// The load balancer has the address of another client, with another port.
		c.src, c.dst = fmt.Sprintf("192.0.2.50:%d", 5000+n), "198.51.100.1:443"
		pre = []byte(fmt.Sprintf("PROXY TCP4 192.0.2.50 198.51.100.1 %d 443\r\n", 5000+n))
	}
	sc.raw.SetDeadline(time.Time{})
	sc.tls = tls.Client(&c22Pre{sc.raw, pre, 0, 0}, simTLSConfig(c22Name, c.protos, nil))
	if err := sc.tls.Handshake(); err != nil {
		return err
	}
	sc.br = bufio.NewReader(sc.tls)
	c.sc, c.h2 = sc, nil
	if slices.Contains(c.protos, "h2") {
		if c.h2, err = (&http2.Transport{}).NewClientConn(sc.tls); err != nil {
			return err
		}
	}
	return nil
}

func (c *c22Client) get(path string, delay bool) (string, error) {
	req, _ := http.NewRequest("GET", "https://"+c22Name+path, nil)
	if delay {
		req.Header.Set("X-Delay", "1")
	}
	var resp *http.Response
	var err error
	if c.h2 != nil {
		resp, err = c.h2.RoundTrip(req)
	} else {
		if err = req.Write(c.sc.tls); err == nil {
			resp, err = http.ReadResponse(c.sc.br, req)
		}
	}
	if err != nil {
		return "", err
	}
	b, err := io.ReadAll(resp.Body)
	resp.Body.Close()
	if resp.StatusCode != 200 {
		return "", fmt.Errorf("status %d %s", resp.StatusCode, b)
	}
	return string(b), err
}

func c22HTTPOut(r *vx.R) {
	depth := r.Pick(3, 4)
	r.Bound("requests in a sequence", depth)
	type conf struct {
		mode  string
		proto string
		v, pv int
	}
	var confs []conf
	for _, m := range []string{ModeHTTP, ModeHTTPS} {
		for _, p := range []string{"", "http/1.1", "h2"} {
			for v := 0; v <= 2; v++ {
				for pv := 0; pv <= 2; pv++ {
					if v+pv == 0 {
						continue
					}
					confs = append(confs, conf{m, p, v, pv})
				}
			}
		}
	}
	ops := []string{"A/", "A/po/", "B/", "B/po/", "D/", "D/po/", "A~", "AB/", "AD/po/", "BD/"}
	for ci, cf := range confs {
		cur := map[string]bool{}
		_ = cur
		seqs := [][]string{}
		var rec func(s []string)
		rec = func(s []string) {
			if len(s) == depth {
				seqs = append(seqs, slices.Clone(s))
				return
			}
			for _, o := range ops {
				rec(append(s, o))
			}
		}
		rec(nil)
		// In the quick tier, the configurations share the sequences.
		for si, seq := range seqs {
			if r.Pick(0, 1) == 0 && (si+ci)%7 != 0 {
				continue
			}
			id := fmt.Sprintf("http/%s/%s/%d%d/%s", cf.mode, cf.proto, cf.v, cf.pv, strings.ReplaceAll(strings.Join(seq, "."), "/", "-"))
			if !r.Case(id) {
				continue
			}
			r.Exec()
			vsched.Bubble(r, id, func(x *vsched.X) {
				c22Run(x, id, cf.mode, cf.proto, cf.v, cf.pv, seq)
			})
		}
	}
}

func c22Run(x *vsched.X, id, mode, proto string, v, pv int, seq []string) {
	r := x.R
	ver := func(n int) string {
		if n == 0 {
			return ""
		}
		return fmt.Sprintf("v%d", n)
	}
	be := &Backend{ServerNames: []string{c22Name}, Mode: mode, Addresses: []string{"10.0.0.8:99"}, InsecureSkipVerify: true, ProxyProtocolVersion: ver(v), BackendProto: &proto,
		PathOverrides: []*PathOverride{{Paths: []string{"/po/"}, Addresses: []string{"10.0.0.9:99"}, InsecureSkipVerify: true, ProxyProtocolVersion: ver(pv)}}}
	cfg := simCfg(be)
	cfg.AcceptProxyHeaderFrom = []string{"192.0.2.7/32"}
	s := newSim(x, cfg)
	bad := func(key, f string, a ...any) {
		r.Violation(key+fmt.Sprintf(":%s:%s", mode, proto), "%s: %s", id, fmt.Sprintf(f, a...))
	}
	c22Serve(x, s, "10.0.0.8:99", v, mode == ModeHTTPS, bad)
	c22Serve(x, s, "10.0.0.9:99", pv, mode == ModeHTTPS, bad)
	clients := map[string]*c22Client{
		"A": {name: "A", from: "192.0.2.50"},
		"B": {name: "B", from: "192.0.2.50", protos: []string{"h2"}},
		"D": {name: "D", from: "192.0.2.7"},
	}
	dials := 0
	check := func(c *c22Client, path string, delay bool, src, dst string) {
		got, err := c.get(path, delay)
		addr, ver := "10.0.0.8:99", v
		if path != "/" {
			addr, ver = "10.0.0.9:99", pv
		}
		name, alpn := "", ""
		if ver == 0 {
			src, dst = "", ""
		}
		if ver == 2 {
			name, alpn = c22Name, strings.Join(c.protos, "")
		}
		want := fmt.Sprintf("%s %s %s %q %q", addr, src, dst, name, alpn)
		if err != nil || got != want {
			r.Violation(fmt.Sprintf("http:%s:%s:v%d", mode, proto, ver), "%s: client %s %s: the server's connection is for %q (%v), want %q", id, c.name, path, got, err, want)
		}
	}
	for i, op := range seq {
		r.Step(1)
		r.State("%s %s %d %d %v", mode, proto, v, pv, seq[:i+1])
		who := strings.TrimRight(op, "/po~")
		var wg sync.WaitGroup
		for _, w := range who {
			c := clients[string(w)]
			if c.sc == nil || strings.HasSuffix(op, "~") {
				if c.sc != nil {
					c.sc.raw.Close()
				}
				dials++
				if err := c.dial(s, dials); err != nil {
					r.Violation("refused-client", "%s: client %s: %v", id, c.name, err)
					return
				}
			}
			if !strings.HasSuffix(op, "~") {
				wg.Add(1)
				src, dst := c.src, c.dst
				go func() {
					defer wg.Done()
					check(c, op[len(who):], len(who) > 1, src, dst)
				}()
			}
		}
		wg.Wait()
	}
	r.Outcome("http %s %q v%d v%d", mode, proto, v, pv)
}

func TestVX(t *testing.T) {
	r := vx.Start(t, "C22")
	defer r.Done()
	simInit(r, c22TCP, c22HTTP, c22Rule, c22Name)
	for _, f := range []func(*vx.R){c22Incoming, c22Stream, c22HTTPOut} {
		t0 := time.Now()
		f(r)
		t.Logf("%v", time.Since(t0))
	}
}
