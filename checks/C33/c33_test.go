package proxy

import (
	"bytes"
	"context"
	"crypto/tls"
	"crypto/x509"
	"errors"
	"fmt"
	"io"
	"net"
	"slices"
	"strings"
	"sync"
	"testing"
	"time"

	"github.com/quic-go/quic-go"

	"github.com/c2FmZQ/tlsproxy/internal/vnet"
	"github.com/c2FmZQ/tlsproxy/internal/vsched"
	"github.com/c2FmZQ/tlsproxy/internal/vx"
	"github.com/c2FmZQ/tlsproxy/proxy/internal/netw"
)

const (
	c33Name = "quic.example.com"
	c33Addr = "10.0.0.9:99"
)

// c33Opt is the close policy of the backend.
type c33Opt struct {
	server, client int // nil, false, true
	timeout        time.Duration
	bw             bool // with bandwidth limits
}

func (o c33Opt) String() string {
	s := []string{"nil", "false", "true"}
	bw := ""
	if o.bw {
		bw = ",bw"
	}
	return fmt.Sprintf("sc=%s,cc=%s,t=%v%s", s[o.server], s[o.client], o.timeout, bw)
}

func (o c33Opt) ends(up string, server bool) bool {
	v := o.client
	if server {
		v = o.server
	}
	if v == 0 {
		// The default of serverCloseEndsConnection is true, but not
		// with QUIC backends.
		return server && up != ModeQUIC
	}
	return v == 2
}

func (o c33Opt) wait() time.Duration {
	if o.timeout > 0 {
		return o.timeout
	}
	return time.Minute
}

func (o c33Opt) backend(mode string) *Backend {
	be := &Backend{ServerNames: []string{c33Name}, Mode: mode, Addresses: []string{c33Addr}, InsecureSkipVerify: true, ForwardTimeout: 10 * time.Second, ALPNProtos: &[]string{"foo"}}
	if o.server > 0 {
		be.ServerCloseEndsConnection = vxPtr(o.server == 2)
	}
	if o.client > 0 {
		be.ClientCloseEndsConnection = vxPtr(o.client == 2)
	}
	if o.timeout > 0 {
		be.HalfCloseTimeout = vxPtr(o.timeout)
	}
	return be
}

// c33End is one end of a stream.
type c33End struct {
	who  byte
	quic bool
	r    io.Reader
	w    io.Writer
	conn net.Conn // without QUIC
	raw  *vnet.VConn

	wmu  sync.Mutex
	sent int

	mu  sync.Mutex
	got []byte
	end error
}

func (e *c33End) read() {
	if e.r == nil {
		return
	}
	buf := make([]byte, 8192)
	for {
		n, err := e.r.Read(buf)
		e.mu.Lock()
		e.got = append(e.got, buf[:n]...)
		if err != nil {
			e.end = err
			e.mu.Unlock()
			return
		}
		e.mu.Unlock()
	}
}

func (e *c33End) state() ([]byte, string) {
	e.mu.Lock()
	defer e.mu.Unlock()
	switch {
	case e.end == nil:
		return e.got, "open"
	case e.end == io.EOF:
		return e.got, "eof"
	}
	return e.got, "error"
}

func c33Pattern(who byte, stream, from, n int) []byte {
	b := make([]byte, n)
	for i := range b {
		k := uint32(from+i)*2654435761 + uint32(who)*40503 + uint32(stream)*77777
		b[i] = byte(k >> 16)
	}
	return b
}

func (e *c33End) send(stream, n int) error {
	e.wmu.Lock()
	b := c33Pattern(e.who, stream, e.sent, n)
	e.sent += n
	e.wmu.Unlock()
	_, err := e.w.Write(b)
	return err
}

func (e *c33End) fin() error {
	if e.quic {
		return e.w.(io.Closer).Close()
	}
	return closeWrite(e.conn)
}

func (e *c33End) reset() {
	if e.quic {
		e.w.(quic.SendStream).CancelWrite(7)
		return
	}
	e.raw.Reset()
}

func (e *c33End) stop() {
	e.r.(quic.ReceiveStream).CancelRead(8)
}

// c33Stream is a stream through the proxy.
type c33Stream struct {
	idx  int
	kind byte // b: bidirectional, u: unidirectional, uppercase: opened by the server
	c, u *c33End

	dirs   [2]c33Dir // client to server, server to client
	sick   bool
	sickAt string
	dl     time.Time
}

// c33Dir is what is known of one direction.
type c33Dir struct {
	sent    int
	fin     bool
	reset   bool
	stopped bool
	cut     bool // ended by the close policy
	failed  bool // ended by the half close timeout
}

func (d *c33Dir) done() bool { return d.fin || d.reset || d.cut || d.failed }

func (st *c33Stream) has(d int) bool {
	switch st.kind {
	case 'u':
		return d == 0
	case 'U':
		return d == 1
	}
	return true
}

func (st *c33Stream) opener() byte {
	if st.kind == 'B' || st.kind == 'U' {
		return 'u'
	}
	return 'c'
}

// c33World is a client, the proxy, and an upstream server.
type c33World struct {
	x     *vsched.X
	s     *sim
	front string // QUIC or TLS
	up    string // mode
	o     c33Opt
	c     quic.Connection
	tls   *simConn

	mu  sync.Mutex
	uc  []quic.Connection
	acc chan *c33End // streams accepted by the upstream
	cac chan *c33End // streams accepted by the client
	ups []*vnet.VConn
	sts []*c33Stream
}

func c33Accept(conn quic.Connection, who byte, ch chan *c33End) {
	go func() {
		for {
			st, err := conn.AcceptStream(context.Background())
			if err != nil {
				return
			}
			e := &c33End{who: who, quic: true, r: st, w: st}
			go e.read()
			ch <- e
		}
	}()
	go func() {
		for {
			st, err := conn.AcceptUniStream(context.Background())
			if err != nil {
				return
			}
			e := &c33End{who: who, quic: true, r: st}
			go e.read()
			ch <- e
		}
	}()
}

func c33TLS(name string) *tls.Config {
	return &tls.Config{NextProtos: []string{"foo", "h3"}, GetCertificate: func(*tls.ClientHelloInfo) (*tls.Certificate, error) { return vxCM.GetCert(name) }}
}

func newC33(x *vsched.X, front, up string, o c33Opt) *c33World {
	w := &c33World{x: x, front: front, up: up, o: o, acc: make(chan *c33End, 1000), cac: make(chan *c33End, 1000)}
	be := o.backend(up)
	if up == ModeQUIC {
		// As Check() does.
		if o.server == 0 {
			be.ServerCloseEndsConnection = vxPtr(false)
		}
		if o.client == 0 {
			be.ClientCloseEndsConnection = vxPtr(false)
		}
	}
	cfg := simCfg(be)
	if o.bw {
		cfg.BWLimits = []*BWLimit{{Name: "bw", Ingress: 1e8, Egress: 1e8}}
		be.BWLimit = "bw"
	}
	cfg.EnableQUIC = vxPtr(true)
	w.s = newSim(x, cfg)
	if up == ModeQUIC {
		w.s.quicUpstream(c33Addr, c33TLS(c33Name), simQUIC, func(c quic.Connection) {
			w.mu.Lock()
			w.uc = append(w.uc, c)
			w.mu.Unlock()
			c33Accept(c, 'u', w.acc)
		})
	} else {
		w.s.upstream(c33Addr, func(c *vnet.VConn) {
			w.mu.Lock()
			w.ups = append(w.ups, c)
			w.mu.Unlock()
			e := &c33End{who: 'u', raw: c, conn: c, r: c, w: c}
			if up == ModeTLS {
				tc := tls.Server(c, &tls.Config{GetCertificate: func(*tls.ClientHelloInfo) (*tls.Certificate, error) { return vxCM.GetCert(c33Name) }})
				e.conn, e.r, e.w = tc, tc, tc
				go func() {
					if err := tc.Handshake(); err != nil {
						return
					}
					w.acc <- e
					e.read()
				}()
				return
			}
			w.acc <- e
			e.read()
		})
	}
	if front == "TLS" {
		c, err := w.s.dial("c", c33Name, []string{"foo"}, "", nil)
		if err != nil {
			panic(err)
		}
		c.raw.SetDeadline(time.Time{})
		w.tls = c
	} else {
		c, err := w.s.quicDial("", c33Name, []string{"foo"}, nil)
		if err != nil {
			panic(err)
		}
		w.c = c
		c33Accept(c, 'c', w.cac)
	}
	w.settle()
	return w
}

func (w *c33World) settle() { time.Sleep(200 * time.Millisecond) }

// upConn is the QUIC connection to the upstream.
func (w *c33World) upConn() quic.Connection {
	w.mu.Lock()
	defer w.mu.Unlock()
	if len(w.uc) == 0 {
		return nil
	}
	return w.uc[0]
}

// open creates a stream. The other end appears with the first event.
func (w *c33World) open(kind byte) *c33Stream {
	st := &c33Stream{idx: len(w.sts), kind: kind}
	w.sts = append(w.sts, st)
	ctx, cancel := context.WithTimeout(context.Background(), 5*time.Second)
	defer cancel()
	conn, who := w.c, byte('c')
	if st.opener() == 'u' {
		conn, who = w.upConn(), 'u'
	}
	e := &c33End{who: who, quic: true}
	switch {
	case w.front == "TLS":
		e.quic, e.raw, e.conn, e.r, e.w = false, w.tls.raw, w.tls.tls, w.tls.tls, w.tls.tls
	case kind == 'b' || kind == 'B':
		s, err := conn.OpenStreamSync(ctx)
		if err != nil {
			return nil
		}
		e.r, e.w = s, s
	default:
		s, err := conn.OpenUniStreamSync(ctx)
		if err != nil {
			return nil
		}
		e.w = s
	}
	if who == 'c' {
		st.c = e
	} else {
		st.u = e
	}
	go e.read()
	return st
}

// pick gives the other end of the stream to it, if it's there.
func (w *c33World) pick(st *c33Stream) {
	if st.c != nil && st.u != nil {
		return
	}
	if st.opener() == 'c' {
		select {
		case st.u = <-w.acc:
		default:
		}
	} else {
		select {
		case st.c = <-w.cac:
		default:
		}
	}
}

var c33Sizes = []int{1, 40000, 17, 5000}

// c33Enabled lists the events that are possible on a stream after the others.
func c33Enabled(front, up string, kind byte, prev []string) []string {
	var done [2]bool // by writer
	var stop [2]bool
	opened, over := false, false
	for _, ev := range prev {
		d := 0
		if ev[0] == 'u' {
			d = 1
		}
		switch ev[1:] {
		case "s":
			opened = true
		case "f":
			opened = true
			done[d] = true
		case "r":
			if !opened {
				over = true
			}
			opened = true
			done[d] = true
			if d == 0 && front == "TLS" || d == 1 && up != ModeQUIC {
				over = true
			}
		case "x":
			stop[1-d] = true
		}
	}
	if over {
		return nil
	}
	st := &c33Stream{kind: kind}
	var out []string
	for d := 0; d < 2; d++ {
		who := "cu"[d : d+1]
		q := d == 0 && front == "QUIC" || d == 1 && up == ModeQUIC
		if st.has(d) && !done[d] && (opened || st.opener() == who[0]) {
			out = append(out, who+"s", who+"f", who+"r")
		}
		if q && st.has(1-d) && !stop[1-d] && !done[1-d] && opened {
			out = append(out, who+"x")
		}
	}
	if opened && (len(prev) == 0 || !strings.EqualFold(prev[len(prev)-1], "w")) {
		out = append(out, "w", "W")
	}
	return out
}

// play runs an event on a stream and updates what is expected.
func (w *c33World) play(st *c33Stream, ev string) {
	if ev == "w" {
		time.Sleep(w.o.wait() - 3*time.Second)
		return
	}
	if ev == "W" {
		time.Sleep(w.o.wait() + 2*time.Second)
		return
	}
	e, d := st.c, 0
	if ev[0] == 'u' {
		e, d = st.u, 1
	}
	if e == nil {
		// The proxy never opened that end.
		return
	}
	me, other := &st.dirs[d], &st.dirs[1-d]
	sick := func(why string) {
		if !st.sick {
			st.sick = true
			st.sickAt = why
		}
	}
	switch ev[1:] {
	case "s":
		n := c33Sizes[(st.idx+d+len(ev)+e.sent)%len(c33Sizes)]
		go e.send(st.idx, n)
		if !me.done() {
			me.sent += n
		}
		if me.stopped || (!w.endQUIC(1-d) && other.reset) {
			sick(ev)
		}
	case "f":
		go e.fin()
		if me.done() {
			return
		}
		me.fin = true
		if !st.has(1 - d) {
			if w.up != ModeQUIC {
				// The TCP connection is half closed.
				st.dl = time.Now().Add(w.o.wait())
			}
			return
		}
		if !other.done() {
			if w.o.ends(w.up, d == 1) {
				other.cut = true
			} else if t := time.Now().Add(w.o.wait()); st.dl.IsZero() || t.Before(st.dl) {
				st.dl = t
			}
		}
	case "r":
		e.reset()
		if !me.fin {
			me.reset = true
		}
		sick(ev)
	case "x":
		e.stop()
		other.stopped = true
		sick(ev)
	}
}

func (w *c33World) endQUIC(who int) bool {
	return who == 0 && w.front == "QUIC" || who == 1 && w.up == ModeQUIC
}

// judge compares what both ends see with what they should see.
func (w *c33World) judge(st *c33Stream, key, what string) {
	r := w.x.R
	w.pick(st)
	if !st.dl.IsZero() && time.Now().After(st.dl) {
		for d := range st.dirs {
			if st.has(d) && !st.dirs[d].done() {
				st.dirs[d].failed = true
			}
		}
		st.sick = true
	}
	for d := 0; d < 2; d++ {
		if !st.has(d) {
			continue
		}
		dir := &st.dirs[d]
		e, wr, name, peer := st.u, st.c, "upstream", "client"
		if d == 1 {
			e, wr, name, peer = st.c, st.u, "client", "upstream"
		}
		if e == nil {
			if wr != nil && (dir.sent > 0 || dir.fin && !w.o.ends(w.up, d == 1)) && !st.sick {
				r.Violation("lost:"+name+":"+key, "%s: after %s: the %s doesn't see the stream at all", w.x.ID, what, name)
			}
			continue
		}
		if dir.stopped || !w.endQUIC(1-d) && st.dirs[1-d].reset {
			// It doesn't read.
			continue
		}
		got, end := e.state()
		all := c33Pattern("cu"[d], st.idx, 0, dir.sent)
		if wr == nil {
			all = nil
		}
		if len(got) > len(all) || !bytes.Equal(got, all[:len(got)]) {
			r.Violation("corrupt:"+name+":"+key, "%s: after %s: stream %d: the %s received %d bytes that aren't what the %s sent (%d)", w.x.ID, what, st.idx, name, len(got), peer, len(all))
			continue
		}
		isQ := w.endQUIC(1 - d)
		whole := dir.fin && len(got) == len(all)
		r.Outcome("%s->%s %c %s: fin=%v reset=%v cut=%v failed=%v sick=%v: %s", w.front, w.up, st.kind, name, dir.fin, dir.reset, dir.cut, dir.failed, st.sick, end)
		switch {
		case !st.sick && !dir.cut:
			want := "open"
			if dir.fin {
				want = "eof"
			}
			if len(got) != len(all) {
				r.Violation("lost:"+name+":"+key, "%s: after %s: stream %d: the %s received %d of the %d bytes of the %s (%s)", w.x.ID, what, st.idx, name, len(got), len(all), peer, end)
			} else if end != want {
				r.Violation("end:"+name+":"+key, "%s: after %s: stream %d: the %s sees %q, not %q (%v)", w.x.ID, what, st.idx, name, end, want, e.end)
			}
		case end == "eof" && !whole && isQ && !dir.cut && !(dir.reset && !w.endQUIC(d)):
			r.Violation("truncated:"+name+":"+key, "%s: after %s: stream %d: the %s sees the end of the stream after %d bytes; the %s sent %d and didn't finish (reset=%v failed=%v)", w.x.ID, what, st.idx, name, len(got), peer, len(all), dir.reset, dir.failed)
		case end == "open" && (dir.reset || dir.cut || dir.failed):
			r.Violation("hang:"+name+":"+key, "%s: after %s: stream %d: the %s still waits (reset=%v cut=%v failed=%v)", w.x.ID, what, st.idx, name, dir.reset, dir.cut, dir.failed)
		case end == "open" && dir.fin && len(got) == len(all) && !st.dirs[1-d].stopped:
			r.Violation("hang:"+name+":"+key, "%s: after %s: stream %d: the %s doesn't see the end of the stream", w.x.ID, what, st.idx, name)
		}
	}
}

// quiet checks that nothing is left once the client is gone.
func (w *c33World) quiet(key, what string) {
	r := w.x.R
	if n := w.s.p.inConns.slice(); len(n) > 0 {
		r.Violation("left-in:"+key, "%s: after %s: %d client connections are still tracked", w.x.ID, what, len(n))
	}
	if n := w.s.p.outConns.slice(); len(n) > 0 {
		r.Violation("left-out:"+key, "%s: after %s: %d backend connections are still tracked", w.x.ID, what, len(n))
	}
	if o := w.s.openConns(); o != "" {
		r.Violation("left-open:"+key, "%s: after %s: the proxy still holds connections open: %s", w.x.ID, what, o)
	}
	w.mu.Lock()
	defer w.mu.Unlock()
	for _, c := range w.uc {
		select {
		case <-c.Context().Done():
		default:
			r.Violation("left-up:"+key, "%s: after %s: the QUIC connection to the upstream is still open", w.x.ID, what)
		}
	}
	if w.s.panicked() {
		r.Violation("panic:"+key, "%s: after %s: the proxy recovered from a panic", w.x.ID, what)
	}
}

func (w *c33World) bye(key, what string) {
	if w.tls != nil {
		w.tls.tls.Close()
		w.tls.raw.Reset()
		// The connection to the upstream isn't used anymore.
		time.Sleep(2 * time.Minute)
	} else {
		w.c.CloseWithError(0, "bye")
		time.Sleep(time.Second)
		for _, st := range w.sts {
			if !st.dl.IsZero() && st.dl.After(time.Now()) {
				// A stream that is half closed.
				time.Sleep(time.Until(st.dl) + time.Second)
			}
		}
	}
	w.quiet(key, what+" and the client is gone")
}

// c33Seqs enumerates the sequences of events on one stream.
func c33Seqs(front, up string, kind byte, depth int, f func([]string)) {
	var rec func(seq []string)
	rec = func(seq []string) {
		evs := c33Enabled(front, up, kind, seq)
		if len(seq) == depth || len(evs) == 0 {
			f(seq)
			return
		}
		for _, ev := range evs {
			rec(append(append([]string(nil), seq...), ev))
		}
	}
	rec(nil)
}

type c33Shape struct {
	front, up string
	kinds     string
}

var c33Shapes = []c33Shape{
	{"QUIC", ModeQUIC, "buBU"},
	{"QUIC", ModeTCP, "bu"},
	{"QUIC", ModeTLS, "bu"},
	{"TLS", ModeQUIC, "b"},
}

func c33Single(r *vx.R) {
	depth := r.Pick(3, 4)
	r.Bound("events on a stream", depth)
	opts := []c33Opt{{}, {1, 1, 10 * time.Second, true}, {1, 1, 10 * time.Second, false}, {1, 2, 10 * time.Second, false}, {2, 1, 10 * time.Second, false}, {2, 2, 10 * time.Second, false}}
	for _, sh := range c33Shapes {
		for _, o := range opts {
			for _, kind := range []byte(sh.kinds) {
				c33Seqs(sh.front, sh.up, kind, depth, func(seq []string) {
					id := fmt.Sprintf("one/%s-%s/%c/%v/%s", sh.front, sh.up, kind, o, strings.Join(seq, "."))
					if !r.Case(id) {
						return
					}
					r.Exec()
					vsched.Bubble(r, id, func(x *vsched.X) {
						r.State("%s %s %c %v %v", sh.front, sh.up, kind, o, seq)
						w := newC33(x, sh.front, sh.up, o)
						key := fmt.Sprintf("%s-%s:%c:%v:", sh.front, sh.up, kind, o)
						st := w.open(kind)
						if st == nil {
							r.Violation("open:"+key, "%s: no stream", x.ID)
							return
						}
						for i, ev := range seq {
							w.play(st, ev)
							w.settle()
							what := strings.Join(seq[:i+1], " ")
							w.judge(st, key+what, what)
							r.Step(1)
						}
						w.bye(key+strings.Join(seq, " "), strings.Join(seq, " "))
					})
				})
			}
		}
	}
}

// c33Pairs enumerates the interleavings of the events of two streams of the
// same connection.
func c33Pairs(r *vx.R) {
	depth := r.Pick(3, 4)
	r.Bound("events on two streams", depth)
	for _, sh := range c33Shapes {
		if sh.front != "QUIC" {
			continue
		}
		for _, kinds := range []string{"bb", "bu", "bB", "uU"} {
			if strings.Trim(kinds, sh.kinds) != "" || sh.up == ModeTLS && r.Pick(0, 1) == 0 {
				continue
			}
			var rec func(seq []string, a, b []string)
			run := func(seq []string) {
				id := fmt.Sprintf("two/%s-%s/%s/%s", sh.front, sh.up, kinds, strings.Join(seq, "."))
				if !r.Case(id) {
					return
				}
				r.Exec()
				vsched.Bubble(r, id, func(x *vsched.X) {
					r.State("two %s %s %s %v", sh.front, sh.up, kinds, seq)
					w := newC33(x, sh.front, sh.up, c33Opt{})
					key := fmt.Sprintf("%s-%s:%s:", sh.front, sh.up, kinds)
					var sts []*c33Stream
					for i, ev := range seq {
						n := int(ev[0] - '0')
						for len(sts) <= n {
							st := w.open(kinds[len(sts)])
							if st == nil {
								r.Violation("open:"+key, "%s: no stream", x.ID)
								return
							}
							sts = append(sts, st)
						}
						w.play(sts[n], ev[1:])
						w.settle()
						what := strings.Join(seq[:i+1], " ")
						w.judge(sts[n], key+what, what)
						for _, st := range sts {
							if st != sts[n] {
								w.judge(st, key+what, what)
							}
						}
						r.Step(1)
					}
					w.bye(key+strings.Join(seq, " "), strings.Join(seq, " "))
				})
			}
			rec = func(seq []string, a, b []string) {
				if len(seq) == depth {
					if len(a) > 0 && len(b) > 0 {
						run(seq)
					}
					return
				}
				any := false
				for n, prev := range [][]string{a, b} {
					if n == 1 && len(a) == 0 {
						// The first stream is the one that's used first.
						continue
					}
					for _, ev := range c33Enabled(sh.front, sh.up, kinds[n], prev) {
						if ev == "w" || ev == "W" {
							continue
						}
						any = true
						next := append(append([]string(nil), seq...), fmt.Sprint(n)+ev)
						if n == 0 {
							rec(next, append(append([]string(nil), a...), ev), b)
						} else {
							rec(next, a, append(append([]string(nil), b...), ev))
						}
					}
				}
				if !any && len(a) > 0 && len(b) > 0 {
					run(seq)
				}
			}
			rec(nil, nil, nil)
		}
	}
}

// c33Gone enumerates the points at which the connection to the backend ends.
func c33Gone(r *vx.R) {
	depth := r.Pick(2, 3)
	for _, kind := range []byte("buBU") {
		for _, how := range []string{"app", "silent"} {
			c33Seqs("QUIC", ModeQUIC, kind, depth, func(seq []string) {
				for n := range len(seq) + 1 {
					if seq := seq[:n]; true {
						id := fmt.Sprintf("gone/%s/%c/%s", how, kind, strings.Join(seq, "."))
						if slices.ContainsFunc(seq, func(s string) bool { return strings.EqualFold(s, "w") }) || !r.Case(id) {
							continue
						}
						r.Exec()
						vsched.Bubble(r, id, func(x *vsched.X) {
							r.State("gone %s %c %v", how, kind, seq)
							w := newC33(x, "QUIC", ModeQUIC, c33Opt{})
							key := fmt.Sprintf("gone:%s:%c:", how, kind)
							what := strings.Join(seq, " ")
							st := w.open(kind)
							for _, ev := range seq {
								w.play(st, ev)
								w.settle()
							}
							w.judge(st, key+what, what)
							if how == "app" {
								w.upConn().CloseWithError(6, "gone")
							} else {
								x.N.UDPHook = func(src, dst *net.UDPAddr, b []byte) bool {
									return src.String() == c33Addr || dst.String() == c33Addr
								}
							}
							what += " and the backend connection is gone"
							time.Sleep(time.Minute)
							st.sick = true
							if st.c != nil && st.has(1) && !st.dirs[1].stopped {
								_, end := st.c.state()
								got, _ := st.c.state()
								whole := st.dirs[1].fin && len(got) == st.dirs[1].sent
								r.Outcome("gone %s: whole=%v %s", how, whole, end)
								if end == "open" {
									r.Violation("gone-hang:"+key+what, "%s: after %s: the client still waits", x.ID, what)
								}
								if end == "eof" && !whole {
									r.Violation("gone-truncated:"+key+what, "%s: after %s: the client sees the end of the stream after %d of %d bytes (fin=%v)", x.ID, what, len(got), st.dirs[1].sent, st.dirs[1].fin)
								}
								if whole && end != "eof" && len(seq) > 0 && seq[len(seq)-1] != "uf" && !st.dirs[0].reset {
									r.Violation("gone-lost:"+key+what, "%s: after %s: the client doesn't see the end of the stream", x.ID, what)
								}
							}
							select {
							case <-w.c.Context().Done():
							default:
								r.Violation("gone-zombie:"+key+what, "%s: after %s: the client's connection stays open, and nothing can use it", x.ID, what)
							}
							w.x.N.UDPHook = nil
							if n := len(w.s.p.inConns.slice()) + len(w.s.p.outConns.slice()); n > 0 {
								r.Violation("gone-left:"+key+what, "%s: after %s: %d connections are still tracked", x.ID, what, n)
							}
							w.settle()
						})
					}
				}
			})
		}
	}
}

// c33Many uses the same connection for more streams than can be open at the
// same time.
func c33Many(r *vx.R) {
	n := 130
	r.Bound("consecutive streams on a connection", n)
	for _, sh := range c33Shapes {
		if sh.front != "QUIC" {
			continue
		}
		for _, kind := range []byte(sh.kinds) {
			for _, o := range []c33Opt{{}, {1, 1, 10 * time.Second, false}, {2, 2, 10 * time.Second, false}} {
				c33Seqs("QUIC", sh.up, kind, 3, func(seq []string) {
					// Only sequences that end the stream.
					if slices.ContainsFunc(seq, func(s string) bool { return strings.EqualFold(s, "w") }) {
						return
					}
					st := &c33Stream{kind: kind}
					var done [2]bool
					for _, ev := range seq {
						d := 0
						if ev[0] == 'u' {
							d = 1
						}
						switch ev[1:] {
						case "f", "r":
							done[d] = true
							if ev[1:] == "f" && o.ends(sh.up, d == 1) || ev[1:] == "r" {
								done[1-d] = true
							}
						}
					}
					for d := range done {
						if st.has(d) && !done[d] {
							return
						}
					}
					id := fmt.Sprintf("many/%s/%c/%v/%s", sh.up, kind, o, strings.Join(seq, "."))
					if r.Pick(0, 1) == 0 && len(seq) == 3 && o.server > 0 || !r.Case(id) {
						return
					}
					r.Exec()
					vsched.Bubble(r, id, func(x *vsched.X) {
						r.State("many %s %c %v %v", sh.up, kind, o, seq)
						w := newC33(x, "QUIC", sh.up, o)
						key := fmt.Sprintf("many:%s:%c:%v:%s", sh.up, kind, o, strings.Join(seq, " "))
						for i := 0; i < n; i++ {
							st := w.open(kind)
							if st == nil {
								r.Violation("stuck:"+key, "%s: no stream can be opened after %d streams that ended", x.ID, i)
								return
							}
							for _, ev := range seq {
								w.play(st, ev)
								time.Sleep(20 * time.Millisecond)
								w.pick(st)
							}
							time.Sleep(100 * time.Millisecond)
							w.judge(st, key, strings.Join(seq, " "))
							for _, e := range []*c33End{st.c, st.u} {
								if e == nil || e.w == nil || !e.quic || e.r == nil {
									continue
								}
								// An end that sees an error gives up.
								if _, end := e.state(); end == "error" {
									e.reset()
								}
							}
						}
						if seq[0][1:] != "r" && (kind == 'b' || sh.up == ModeQUIC) {
							for _, c := range w.s.p.inConns.slice() {
								if q, ok := c.(*netw.QUICConn); ok && len(q.Streams()) > 5 {
									r.Violation("streams:"+key, "%s: %d streams are listed after %d streams that ended", x.ID, len(q.Streams()), n)
								}
							}
						}
						r.Step(n)
						w.bye(key, strings.Join(seq, " "))
					})
				})
			}
		}
	}
}

// c33Admission compares who is served over QUIC with who is served over TLS.
func c33Admission(r *vx.R) {
	const addr = "10.0.0.9:%d"
	l := func(s ...string) *[]string { return &s }
	certs := map[string]*tls.Certificate{
		"none":  nil,
		"alice": simCert("alice", nil),
		"bob":   simCert("bob", nil),
		"eve":   c33Stranger("alice"),
		"old":   simCert("alice", func(c *x509.Certificate) { c.NotAfter = vxLongAgo.AddDate(1, 0, -1) }),
		"srv":   simCert("alice", func(c *x509.Certificate) { c.ExtKeyUsage = []x509.ExtKeyUsage{x509.ExtKeyUsageServerAuth} }),
	}
	names := []string{"a", "b", "c", "d", "e", "p", "bücher", "A", "nobody", ""}
	host := func(n string) string {
		switch n {
		case "":
			return ""
		case "bücher":
			n = "xn--bcher-kva"
		}
		return n + ".example.com"
	}
	var lists [][]string
	protos := []string{"foo", "bar", "baz"}
	for _, a := range protos {
		lists = append(lists, []string{a})
		for _, b := range protos {
			if a != b {
				lists = append(lists, []string{a, b})
			}
		}
	}
	modes := []string{ModeTCP, ModeTLS, ModeQUIC}
	for _, mode := range modes {
		for _, def := range []string{"", "a", "c", "d", "p"} {
			for cert := range certs {
				for _, from := range []string{"127.0.0.1", "10.1.0.5"} {
					id := fmt.Sprintf("admission/%s/def=%s/%s/%s", mode, def, cert, from)
					if !r.Case(id) {
						continue
					}
					vsched.Bubble(r, id, func(x *vsched.X) {
						n := 0
						backend := func(name string, protos ...string) *Backend {
							n++
							return &Backend{ServerNames: []string{name}, Mode: mode, Addresses: []string{fmt.Sprintf(addr, n)}, InsecureSkipVerify: true, ForwardTimeout: 10 * time.Second, ALPNProtos: &protos}
						}
						a, a2 := backend("a.example.com", "foo"), backend("a.example.com", "bar")
						b := backend("b.example.com", "bar", "foo")
						c := backend("c.example.com", "foo")
						c.ClientAuth = &ClientAuth{RootCAs: []string{vxCM.RootCAPEM()}, ACL: l("CN=alice")}
						d := backend("d.example.com", "foo", "bar")
						d.AllowIPs = l("10.1.0.0/16")
						e := backend("e.example.com", "foo")
						e.DenyIPs = l("10.0.0.0/8")
						e2 := backend("e.example.com", "bar")
						e2.ClientAuth = &ClientAuth{RootCAs: []string{vxCM.RootCAPEM()}}
						p := backend("p.example.com", "foo")
						p.Mode = ModeTLSPassthrough
						u := backend("bücher.example.com", "foo", "bar")
						cfg := simCfg(a, a2, b, c, d, e, e2, p, u)
						cfg.EnableQUIC = vxPtr(true)
						if def != "" {
							cfg.DefaultServerName = host(def)
						}
						s := newSim(x, cfg)
						for i := 1; i <= n; i++ {
							c33Ident(s, mode, fmt.Sprintf(addr, i), fmt.Sprint(i))
						}
						for _, name := range names {
							if name != "" && def != "" && def != "a" {
								continue
							}
							sni := host(name)
							for _, list := range lists {
								r.Exec()
								r.Step(1)
								r.State("admission %s %s %s %s %s %v", mode, def, cert, from, name, list)
								over, errT := c33AskTLS(s, sni, list, from, certs[cert])
								quicc, errQ := c33AskQUIC(s, sni, list, from, certs[cert])
								key := fmt.Sprintf("admission:%s:%s:%v", mode, name, list)
								what := fmt.Sprintf("a client at %s with the certificate %s, server name %q and protocols %v", from, cert, sni, list)
								if name == "p" || name == "" && def == "p" {
									// The passthrough backend doesn't
									// exist for QUIC.
									over = ""
								}
								r.Outcome("admission %s: TLS %v, QUIC %v %s", mode, over != "", quicc != "", quicErr(errQ))
								if over != quicc {
									r.Violation(key, "%s: %s gets %q over TLS (%v), and %q over QUIC (%v)", x.ID, what, over, errT, quicc, errQ)
								}
								if quicErr(errQ) == "HANG" {
									r.Violation("hang:"+key, "%s: %s isn't answered over QUIC", x.ID, what)
								}
							}
						}
						if s.panicked() {
							r.Violation("panic", "%s: the proxy recovered from a panic", x.ID)
						}
					})
				}
			}
		}
	}
}

// c33Dead enumerates when a backend can be reached.
func c33Dead(r *vx.R) {
	for _, mode := range []string{ModeTCP, ModeTLS, ModeQUIC} {
		for mask := 0; mask < 8; mask++ {
			for _, nAddr := range []int{1, 2} {
				id := fmt.Sprintf("dead/%s/%d/%d", mode, nAddr, mask)
				if !r.Case(id) {
					continue
				}
				r.Exec()
				vsched.Bubble(r, id, func(x *vsched.X) {
					be := c33Opt{}.backend(mode)
					if nAddr == 2 {
						be.Addresses = append(be.Addresses, "10.0.0.8:88")
					}
					be.ForwardTimeout = 5 * time.Second
					cfg := simCfg(be)
					cfg.EnableQUIC = vxPtr(true)
					s := newSim(x, cfg)
					down := map[string]bool{}
					for _, a := range be.Addresses {
						c33Ident(s, mode, a, "1")
					}
					x.N.UDPHook = func(src, dst *net.UDPAddr, b []byte) bool { return down[src.String()] || down[dst.String()] }
					x.N.DialHook = func(ctx context.Context, addr string) error {
						if down[addr] {
							return errors.New("connection refused")
						}
						return nil
					}
					var c quic.Connection
					for k := 0; k < 3; k++ {
						up := mask&(1<<k) == 0
						for _, a := range be.Addresses {
							down[a] = !up
						}
						if nAddr == 2 {
							// One that works is enough.
							down[be.Addresses[k%2]] = true
						}
						r.State("dead %s %d %d %d", mode, nAddr, mask, k)
						if c == nil || mode == ModeQUIC {
							var err error
							if c, err = s.quicDial("", c33Name, []string{"foo"}, nil); err != nil {
								r.Violation("dead-dial:"+mode, "%s: %v", x.ID, err)
								return
							}
						}
						got, err := quicAsk(c, "hi", 1, 20*time.Second)
						r.Step(1)
						r.Outcome("dead %s up=%v %q %s", mode, up, got, quicErr(err))
						key := fmt.Sprintf("dead:%s:%v:%d", mode, up, nAddr)
						switch {
						case up && got != "1":
							r.Violation(key, "%s: attempt %d: the backend works, and the client gets %q (%v)", x.ID, k, got, err)
						case !up && (got != "" || quicErr(err) == "HANG"):
							r.Violation(key, "%s: attempt %d: the backend is down, and the client gets %q (%v)", x.ID, k, got, err)
						case !up && quicErr(err) == "EOF":
							r.Violation(key, "%s: attempt %d: the backend is down, and the client sees the end of the stream, as if the backend had nothing to say", x.ID, k)
						case !up && mode != ModeQUIC && c.Context().Err() != nil:
							r.Violation(key, "%s: attempt %d: the backend is down, and all the streams of the client are closed (%v)", x.ID, k, err)
						}
						if mode == ModeQUIC {
							c.CloseWithError(0, "bye")
							time.Sleep(11 * time.Second)
							if n := len(s.p.inConns.slice()) + len(s.p.outConns.slice()); n > 0 {
								r.Violation("left:"+key, "%s: attempt %d: %d connections are still tracked", x.ID, k, n)
							}
						}
					}
					c.CloseWithError(0, "bye")
					time.Sleep(time.Second)
					if o := s.openConns(); o != "" {
						r.Violation("dead-left:"+mode, "%s: the proxy still holds connections open: %s", x.ID, o)
					}
					if s.panicked() {
						r.Violation("panic", "%s: the proxy recovered from a panic", x.ID)
					}
				})
			}
		}
	}
}

// c33Datagrams enumerates sequences of datagrams.
func c33Datagrams(r *vx.R) {
	depth := r.Pick(4, 6)
	r.Bound("datagrams", depth)
	events := []string{"c1", "c1000", "u1", "u1000"}
	for _, cs := range []bool{true, false} {
		for _, us := range []bool{true, false} {
			vx.Sequences(len(events), depth, depth, func(seq []int) bool {
				if len(seq) != depth || (!cs || !us) && seq[0] != 0 {
					return true
				}
				id := fmt.Sprintf("datagrams/%v/%v/%v", cs, us, strings.ReplaceAll(fmt.Sprint(seq), " ", "-"))
				if !r.Case(id) {
					return true
				}
				r.Exec()
				vsched.Bubble(r, id, func(x *vsched.X) {
					r.State("datagrams %v %v %v", cs, us, seq)
					cfg := simCfg(c33Opt{1, 1, 0, false}.backend(ModeQUIC))
					cfg.EnableQUIC = vxPtr(true)
					s := newSim(x, cfg)
					conf := func(dg bool) *quic.Config {
						c := simQUIC.Clone()
						c.EnableDatagrams = dg
						return c
					}
					var mu sync.Mutex
					var gotC, gotU, wantC, wantU []string
					recv := func(c quic.Connection, got *[]string) {
						for {
							b, err := c.ReceiveDatagram(context.Background())
							if err != nil {
								return
							}
							mu.Lock()
							*got = append(*got, string(b))
							mu.Unlock()
						}
					}
					var up quic.Connection
					s.quicUpstream(c33Addr, c33TLS(c33Name), conf(us), func(c quic.Connection) {
						up = c
						go recv(c, &gotU)
						for {
							st, err := c.AcceptStream(context.Background())
							if err != nil {
								return
							}
							go func() {
								io.Copy(st, st)
								st.Close()
							}()
						}
					})
					c, err := s.quicDialConf("", simTLSConfig(c33Name, []string{"foo"}, nil), conf(cs))
					if err != nil {
						r.Violation("datagrams-dial", "%s: %v", x.ID, err)
						return
					}
					go recv(c, &gotC)
					time.Sleep(100 * time.Millisecond)
					if up == nil {
						r.Violation("datagrams-up", "%s: no connection to the upstream", x.ID)
						return
					}
					for i, e := range seq {
						ev := events[e]
						n := 1
						if ev[1:] == "1000" {
							n = 1000
						}
						b := c33Pattern(ev[0], i, i, n)
						if ev[0] == 'c' && c.SendDatagram(b) == nil && cs && us {
							wantU = append(wantU, string(b))
						}
						if ev[0] == 'u' && up.SendDatagram(b) == nil && cs && us {
							wantC = append(wantC, string(b))
						}
						time.Sleep(10 * time.Millisecond)
						r.Step(1)
					}
					time.Sleep(100 * time.Millisecond)
					mu.Lock()
					key := fmt.Sprintf("datagrams:%v:%v", cs, us)
					if !slices.Equal(gotC, wantC) || !slices.Equal(gotU, wantU) {
						r.Violation(key, "%s: the client received %d datagrams (%d sent), the upstream %d (%d sent), or not the same ones", x.ID, len(gotC), len(wantC), len(gotU), len(wantU))
					}
					r.Outcome("datagrams %v %v: %d %d", cs, us, len(gotC), len(gotU))
					mu.Unlock()
					if got, err := quicAsk(c, "hi", 2, 5*time.Second); got != "hi" {
						r.Violation(key+":stream", "%s: the streams don't work: %q %v", x.ID, got, err)
					}
				})
				return true
			})
		}
	}
}

// c33Idle enumerates what a client did before it disappears.
func c33Idle(r *vx.R) {
	for _, sh := range c33Shapes {
		if sh.front != "QUIC" {
			continue
		}
		for _, kind := range []byte(sh.kinds) {
			c33Seqs("QUIC", sh.up, kind, 2, func(seq []string) {
				for n := range len(seq) + 1 {
					seq := seq[:n]
					id := fmt.Sprintf("idle/%s/%c/%s", sh.up, kind, strings.Join(seq, "."))
					if slices.ContainsFunc(seq, func(s string) bool { return strings.EqualFold(s, "w") }) || !r.Case(id) {
						continue
					}
					r.Exec()
					vsched.Bubble(r, id, func(x *vsched.X) {
						r.State("idle %s %c %v", sh.up, kind, seq)
						w := newC33(x, "QUIC", sh.up, c33Opt{})
						st := w.open(kind)
						for _, ev := range seq {
							w.play(st, ev)
							w.settle()
							w.pick(st)
						}
						from := w.c.LocalAddr().(*net.UDPAddr).Port
						x.N.UDPHook = func(src, dst *net.UDPAddr, b []byte) bool { return src.Port == from || dst.Port == from }
						time.Sleep(2 * time.Minute)
						r.Step(1)
						key := fmt.Sprintf("idle:%s:%c:%s", sh.up, kind, strings.Join(seq, " "))
						w.quiet(key, strings.Join(seq, " ")+" and the client disappears")
						r.Outcome("idle %s", sh.up)
						x.N.UDPHook = nil
					})
				}
			})
		}
	}
}

// c33Open fills the proxy with connections.
func c33Open(r *vx.R) {
	depth := r.Pick(5, 7)
	r.Bound("connections opened and closed with a limit", depth)
	events := []string{"QUIC", "TLS", "close"}
	const limit = 2
	vx.Sequences(len(events), depth, depth, func(seq []int) bool {
		if len(seq) != depth {
			return true
		}
		id := "open/" + strings.ReplaceAll(fmt.Sprint(seq), " ", "-")
		if !r.Case(id) {
			return true
		}
		r.Exec()
		vsched.Bubble(r, id, func(x *vsched.X) {
			r.State("open %v", seq)
			cfg := simCfg(c33Opt{}.backend(ModeTCP))
			cfg.EnableQUIC = vxPtr(true)
			cfg.MaxOpen = limit
			s := newSim(x, cfg)
			s.upstream(c33Addr, func(c *vnet.VConn) { io.Copy(c, c) })
			var open []func()
			for i, e := range seq {
				var ok bool
				var bye func()
				switch events[e] {
				case "QUIC":
					c, err := s.quicDial("", c33Name, []string{"foo"}, nil)
					if err == nil {
						got, _ := quicAsk(c, "hi", 2, 5*time.Second)
						ok = got == "hi"
						bye = func() { c.CloseWithError(0, "bye") }
					}
				case "TLS":
					c, err := s.dial("c", c33Name, []string{"foo"}, "", nil)
					if err == nil {
						c.raw.SetDeadline(time.Now().Add(5 * time.Second))
						io.WriteString(c.tls, "hi")
						b := make([]byte, 2)
						io.ReadFull(c.tls, b)
						ok = string(b) == "hi"
						c.raw.SetDeadline(time.Time{})
						bye = func() { c.raw.Reset() }
					}
				case "close":
					if len(open) > 0 {
						open[0]()
						open = open[1:]
						time.Sleep(time.Second)
					}
					continue
				}
				r.Step(1)
				r.Outcome("open %s: %d %v", events[e], len(open), ok)
				if ok {
					open = append(open, bye)
				}
				if want := len(open) <= limit; ok && !want {
					r.Violation("open-over:"+events[e], "%s: step %d: more than %d connections are open", x.ID, i, limit)
				}
				if !ok && len(open) < limit-1 {
					// The limit counts one less.
					r.Violation("open-under:"+events[e], "%s: step %d: refused with %d connections open", x.ID, i, len(open))
				}
				time.Sleep(time.Second)
				if n := len(s.p.inConns.slice()); n != len(open) {
					r.Violation("open-count:"+events[e], "%s: step %d: %d connections are tracked, and %d are open", x.ID, i, n, len(open))
				}
			}
			if s.panicked() {
				r.Violation("panic", "%s: the proxy recovered from a panic", x.ID)
			}
		})
		return true
	})
}

// c33Stranger is a certificate of another authority.
func c33Stranger(name string) *tls.Certificate {
	c := vxNewCertManager("other").issue(name, func(c *x509.Certificate) {
		c.ExtKeyUsage = []x509.ExtKeyUsage{x509.ExtKeyUsageClientAuth}
	})
	return c
}

// c33Ident is an upstream that says who it is when it's asked.
func c33Ident(s *sim, mode, addr, who string) {
	if mode == ModeQUIC {
		s.quicUpstream(addr, &tls.Config{NextProtos: []string{"foo", "bar", "baz"}, GetCertificate: c33TLS(c33Name).GetCertificate}, simQUIC, func(c quic.Connection) {
			for {
				st, err := c.AcceptStream(context.Background())
				if err != nil {
					return
				}
				go func() {
					io.ReadFull(st, make([]byte, 2))
					io.WriteString(st, who)
					st.Close()
				}()
			}
		})
	}
	s.upstream(addr, func(c *vnet.VConn) {
		var conn net.Conn = c
		if mode == ModeTLS {
			conn = tls.Server(c, &tls.Config{GetCertificate: c33TLS(c33Name).GetCertificate})
		}
		io.ReadFull(conn, make([]byte, 2))
		io.WriteString(conn, who)
		conn.Close()
	})
}

func c33AskTLS(s *sim, sni string, protos []string, from string, cert *tls.Certificate) (string, error) {
	c, err := s.raw("c", from)
	if err != nil {
		return "", err
	}
	defer c.raw.Reset()
	tc := simTLSConfig(sni, protos, cert)
	if sni == "" {
		tc.InsecureSkipVerify = true
		tc.VerifyConnection = func(cs tls.ConnectionState) error { return nil }
	}
	if err := c.handshake(tc); err != nil {
		return "", err
	}
	c.raw.SetDeadline(time.Now().Add(20 * time.Second))
	io.WriteString(c.tls, "hi")
	b := make([]byte, 1)
	n, err := io.ReadFull(c.tls, b)
	return string(b[:n]), err
}

func c33AskQUIC(s *sim, sni string, protos []string, from string, cert *tls.Certificate) (string, error) {
	c, err := s.quicDial(from, sni, protos, cert)
	if err != nil {
		return "", err
	}
	defer c.CloseWithError(0, "bye")
	return quicAsk(c, "hi", 1, 20*time.Second)
}

func TestVX(t *testing.T) {
	r := vx.Start(t, "C33")
	defer r.Done()
	simInit(r, c33Name, "a.example.com", "b.example.com", "c.example.com", "d.example.com", "e.example.com", "p.example.com", "A.example.com", "xn--bcher-kva.example.com")
	c33Admission(r)
	c33Dead(r)
	c33Datagrams(r)
	c33Idle(r)
	c33Open(r)
	c33Single(r)
	c33Pairs(r)
	c33Gone(r)
	c33Many(r)
}
