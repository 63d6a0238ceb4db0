package proxy

import (
	"bytes"
	"context"
	"crypto/tls"
	"fmt"
	"io"
	"net"
	"strings"
	"sync"
	"testing"
	"time"

	"github.com/c2FmZQ/tlsproxy/internal/vnet"
	"github.com/c2FmZQ/tlsproxy/internal/vsched"
	"github.com/c2FmZQ/tlsproxy/internal/vx"
)

const c18Name = "stream.example.com"

// c18Hello is what a real client sends first.
var c18Hello []byte

type c18Opt struct {
	server, client int // nil, false, true
	timeout        time.Duration
	px             bool // the client is behind a trusted load balancer
}

func (o c18Opt) String() string {
	s := []string{"nil", "false", "true"}
	px := ""
	if o.px {
		px = " px"
	}
	return fmt.Sprintf("sc=%s cc=%s t=%v%s", s[o.server], s[o.client], o.timeout, px)
}

func (o c18Opt) backend(mode string) *Backend {
	be := &Backend{ServerNames: []string{c18Name}, Mode: mode, Addresses: []string{"10.0.0.9:99"}, InsecureSkipVerify: true}
	if o.server > 0 {
		be.ServerCloseEndsConnection = vxPtr(o.server == 2)
	}
	if o.client > 0 {
		be.ClientCloseEndsConnection = vxPtr(o.client == 2)
	}
	if o.timeout > 0 {
		be.HalfCloseTimeout = vxPtr(o.timeout)
	}
	return be
}

func (o c18Opt) serverEnds() bool { return o.server != 1 }
func (o c18Opt) clientEnds() bool { return o.client == 2 }
func (o c18Opt) wait() time.Duration {
	if o.timeout > 0 {
		return o.timeout
	}
	return time.Minute
}

// c18End is one end of the stream.
type c18End struct {
	name string
	raw  *vnet.VConn
	conn net.Conn // raw, or TLS over it
	sent []byte
	wmu  sync.Mutex

	mu   sync.Mutex
	got  []byte
	end  error
	endT time.Time
}

func (e *c18End) read(slow time.Duration) {
	time.Sleep(slow)
	buf := make([]byte, 8192)
	for {
		n, err := e.conn.Read(buf)
		e.mu.Lock()
		e.got = append(e.got, buf[:n]...)
		if err != nil {
			e.end = err
			e.endT = time.Now()
			e.mu.Unlock()
			return
		}
		e.mu.Unlock()
	}
}

func (e *c18End) state() (int, []byte, string) {
	e.mu.Lock()
	defer e.mu.Unlock()
	if e.end == nil {
		return len(e.got), e.got, "open"
	}
	if e.end == io.EOF {
		return len(e.got), e.got, "eof"
	}
	return len(e.got), e.got, "error"
}

// pattern never repeats within a test.
func c18Pattern(who byte, from, n int) []byte {
	b := make([]byte, n)
	for i := range b {
		k := uint32(from+i)*2654435761 + uint32(who)*40503
		b[i] = byte(k >> 16)
	}
	return b
}

func (e *c18End) send(n int) error {
	e.wmu.Lock()
	defer e.wmu.Unlock()
	b := c18Pattern(e.name[0], len(e.sent), n)
	e.sent = append(e.sent, b...)
	_, err := e.conn.Write(b)
	return err
}

func (e *c18End) fin() error {
	e.wmu.Lock()
	defer e.wmu.Unlock()
	return closeWrite(e.conn)
}

type c18Stream struct {
	s    *sim
	c, u *c18End
}

// c18Open makes a stream that goes through the proxy.
func c18Open(x *vsched.X, mode string, o c18Opt, slowC, slowU time.Duration) *c18Stream {
	r := x.R
	cfg := simCfg(o.backend(mode))
	from := ""
	if o.px {
		cfg.AcceptProxyHeaderFrom = []string{"192.0.2.0/24"}
		from = "192.0.2.7"
	}
	s := newSim(x, cfg)
	ch := make(chan *c18End, 1)
	s.upstream("10.0.0.9:99", func(c *vnet.VConn) {
		u := &c18End{name: "upstream", raw: c, conn: c}
		if mode == ModeTLS {
			tc := tls.Server(c, &tls.Config{GetCertificate: func(*tls.ClientHelloInfo) (*tls.Certificate, error) { return vxCM.GetCert(c18Name) }})
			if err := tc.Handshake(); err != nil {
				r.Violation("upstream-handshake", "%s: %v", x.ID, err)
			}
			u.conn = tc
		}
		ch <- u
		u.read(slowU)
	})
	st := &c18Stream{s: s}
	c := &c18End{name: "client"}
	sc, err := s.raw("c", from)
	if err != nil {
		panic(err)
	}
	if o.px {
		fmt.Fprintf(sc.raw, "PROXY TCP4 203.0.113.5 192.0.2.1 4000 443\r\n")
	}
	switch mode {
	case ModeTLSPassthrough:
		c.raw, c.conn = sc.raw, sc.raw
		c.sent = append(c.sent, c18Hello...)
		c.conn.Write(c18Hello)
	default:
		if err := sc.handshake(simTLSConfig(c18Name, nil, nil)); err != nil {
			panic(err)
		}
		c.raw, c.conn = sc.raw, sc.tls
	}
	c.raw.SetDeadline(time.Time{})
	go c.read(slowC)
	st.c = c
	st.u = <-ch
	return st
}

func (st *c18Stream) String() string {
	cn, _, ce := st.c.state()
	un, _, ue := st.u.state()
	return fmt.Sprintf("client got %d/%d %s; upstream got %d/%d %s", cn, len(st.u.sent), ce, un, len(st.c.sent), ue)
}

var c18Hung = 5 * time.Minute

// c18Quiet checks that nothing is left.
func c18Quiet(x *vsched.X, st *c18Stream, key, what string) {
	r := x.R
	if o := st.s.openConns(); o != "" {
		r.Violation("left-open:"+key, "%s: after %s: the proxy still holds connections open: %s", x.ID, what, o)
	}
	if n := len(st.s.p.inConns.slice()); n > 0 {
		r.Violation("left-in:"+key, "%s: after %s: %d client connections are still tracked", x.ID, what, n)
	}
	if n := len(st.s.p.outConns.slice()); n > 0 {
		r.Violation("left-out:"+key, "%s: after %s: %d backend connections are still tracked", x.ID, what, n)
	}
	if st.s.panicked() {
		r.Violation("panic:"+key, "%s: after %s: the proxy recovered from a panic", x.ID, what)
	}
}

var c18Events = []string{"Cs", "Us", "Cf", "Uf", "Cc", "Uc", "Cr", "Ur", "Ct", "Ut", "w", "W"}

var c18Sizes = []int{1, 70000, 17, 5000}

// c18Seqs lists the event sequences that are possible.
func c18Seqs(depth int, cTLS, uTLS bool, f func(seq []string)) {
	var rec func(seq []string, cDone, uDone, over bool)
	rec = func(seq []string, cDone, uDone, over bool) {
		if over || len(seq) == depth {
			f(seq) // it covers its prefixes
			return
		}
		for _, ev := range c18Events {
			cd, ud, ov := cDone, uDone, false
			switch ev {
			case "Cs":
				if cDone {
					continue
				}
			case "Us":
				if uDone {
					continue
				}
			case "Cf", "Cc":
				if cDone {
					continue
				}
				cd = true
			case "Uf", "Uc":
				if uDone {
					continue
				}
				ud = true
			case "Ct":
				if !cTLS || cDone {
					continue
				}
				cd = true
			case "Ut":
				if !uTLS || uDone {
					continue
				}
				ud = true
			case "Cr", "Ur":
				ov = true
			case "w", "W":
				if len(seq) > 0 && strings.EqualFold(seq[len(seq)-1], "w") {
					continue
				}
			}
			rec(append(append([]string(nil), seq...), ev), cd, ud, ov)
		}
	}
	rec(nil, false, false, false)
}

// c18Run plays the events, with a pause after each, and compares what the two
// ends see with what they should see.
func c18Run(x *vsched.X, mode string, o c18Opt, limit int, seq []string) {
	r := x.R
	x.N.Limit = limit
	st := c18Open(x, mode, o, 0, 0)
	key := mode + " " + o.String()

	var (
		cDone, uDone bool
		cGone, uGone bool
		dead         bool
		toC, toU     []byte
		cEOF, uEOF   bool
		deadline     time.Time
		failed       bool
	)
	toU = append(toU, st.c.sent...)
	expire := func() {
		if !dead && !deadline.IsZero() && time.Now().After(deadline) {
			dead = true
			failed = true
		}
	}
	half := func() {
		d := time.Now().Add(o.wait())
		if deadline.IsZero() || d.Before(deadline) {
			deadline = d
		}
	}
	settle := func() { time.Sleep(time.Millisecond) }
	settle()
	nc, nu := 0, 0
	for i, ev := range seq {
		expire()
		switch ev {
		case "Cs":
			n := c18Sizes[nc%len(c18Sizes)]
			nc++
			from := len(st.c.sent)
			go st.c.send(n)
			settle()
			if !dead && !uGone {
				toU = append(toU, st.c.sent[from:]...)
			} else if !dead {
				dead, failed = true, true
			}
		case "Us":
			n := c18Sizes[nu%len(c18Sizes)]
			nu++
			from := len(st.u.sent)
			go st.u.send(n)
			settle()
			if !dead && !cGone {
				toC = append(toC, st.u.sent[from:]...)
			} else if !dead {
				dead, failed = true, true
			}
		case "Cf", "Cc", "Ct":
			if ev == "Cf" {
				st.c.fin()
			} else if ev == "Ct" {
				// crypto/tls takes the end of the TCP stream
				// between records for the end of the data.
				st.c.raw.CloseWrite()
			} else {
				st.c.conn.Close()
				cGone = true
			}
			cDone = true
			if !dead {
				uEOF = true
				if o.clientEnds() || uDone {
					dead = true
				} else {
					half()
				}
			}
		case "Uf", "Uc", "Ut":
			if ev == "Uf" {
				st.u.fin()
			} else if ev == "Ut" {
				st.u.raw.CloseWrite()
			} else {
				st.u.conn.Close()
				uGone = true
			}
			uDone = true
			if !dead {
				cEOF = true
				if o.serverEnds() || cDone {
					dead = true
				} else {
					half()
				}
			}
		case "Cr":
			st.c.raw.Reset()
			cGone = true
			if !dead && !cDone {
				dead, failed = true, true
			}
		case "Ur":
			st.u.raw.Reset()
			uGone = true
			if !dead && !uDone {
				dead, failed = true, true
			}
		case "w":
			time.Sleep(o.wait() - 2*time.Second)
		case "W":
			time.Sleep(o.wait() + time.Second)
		}
		settle()
		expire()
		what := strings.Join(seq[:i+1], " ")
		k := key + " " + what
		check := func(who, peer *c18End, gone bool, want []byte, eof bool) {
			if gone {
				return
			}
			n, got, end := who.state()
			if !bytes.Equal(got, want) {
				r.Violation("bytes:"+who.name+":"+k, "%s: %s after %s: the %s received %d bytes, not the %d that the %s sent (or other bytes)", x.ID, key, what, who.name, n, len(want), peer.name)
			}
			wantEnd := "open"
			if eof || dead {
				wantEnd = "eof"
			}
			if failed && !eof {
				wantEnd = "closed"
			}
			if end == "error" && eof && dead {
				// The other side ended the connection in the meantime.
				end = "eof"
			}
			if end != wantEnd && !(wantEnd == "closed" && end != "open") {
				r.Violation("end:"+who.name+":"+k, "%s: %s after %s: the %s sees %q (%v), want %q", x.ID, key, what, who.name, end, who.end, wantEnd)
			}
		}
		check(st.c, st.u, cGone, toC, cEOF)
		check(st.u, st.c, uGone, toU, uEOF)
		if dead {
			c18Quiet(x, st, k, key+" "+what)
		} else if st.s.openConns() == "" {
			r.Violation("cut:"+k, "%s: %s after %s: the proxy closed the connections", x.ID, key, what)
		}
	}
	r.Outcome("%s %s: dead=%v failed=%v", mode, seq[len(seq)-1], dead, failed)
	// Whatever happened, nothing stays once the ends are gone.
	st.c.raw.Reset()
	st.u.raw.Reset()
	time.Sleep(o.wait() + 2*time.Second)
	c18Quiet(x, st, key+" "+strings.Join(seq, " "), key+" "+strings.Join(seq, " ")+" and both ends gone")
}

func TestVX(t *testing.T) {
	r := vx.Start(t, "C18")
	defer r.Done()
	simInit(r, c18Name)
	{
		a, b := net.Pipe()
		go func() {
			tls.Client(a, &tls.Config{ServerName: c18Name}).HandshakeContext(context.Background())
		}()
		buf := make([]byte, 16384)
		n, _ := b.Read(buf)
		b.Close()
		c18Hello = buf[:n]
	}

	t0 := time.Now()
	depth := r.Pick(3, 5)
	r.Bound("events in a sequence", depth)
	opts := []c18Opt{{server: 0}, {1, 1, 10 * time.Second, false}, {1, 2, 10 * time.Second, false}, {2, 1, 10 * time.Second, false}, {2, 2, 10 * time.Second, false}, {1, 0, 5 * time.Second, false}, {1, 1, 10 * time.Second, true}}
	if r.Pick(0, 1) == 1 {
		opts = nil
		for s := 0; s < 3; s++ {
			for c := 0; c < 3; c++ {
				for _, t := range []time.Duration{0, 10 * time.Second} {
					opts = append(opts, c18Opt{s, c, t, false}, c18Opt{s, c, t, true})
				}
			}
		}
	}
	modes := []string{ModeTCP, ModeTLS, ModeTLSPassthrough}
	for _, mode := range modes {
		for _, o := range opts {
			d := depth
			if o.server == 1 && o.client == 1 && o.timeout > 0 && !o.px {
				d++
			}
			c18Seqs(d, mode != ModeTLSPassthrough, mode == ModeTLS, func(seq []string) {
				limits := []int{0}
				if len(seq) == d {
					limits = []int{0, 4096}
				}
				for _, l := range limits {
					id := fmt.Sprintf("seq/%s/%v/%d/%s", mode, o, l, strings.Join(seq, "."))
					if !r.Case(id) {
						continue
					}
					r.Exec()
					vsched.Bubble(r, id, func(x *vsched.X) {
						r.State("%s %v %d %v", mode, o, l, seq)
						c18Run(x, mode, o, l, seq)
					})
				}
			})
		}
	}
	t1 := time.Now()
	c18Schedules(r, modes)
	t.Logf("sequences %v schedules %v", t1.Sub(t0), time.Since(t1))
}

// c18Schedules explores the order in which the two ends and the proxy run.
func c18Schedules(r *vx.R, modes []string) {
	dev := r.Pick(1, 2)
	r.Bound("deviations from the default schedule", dev)
	scripts := []string{"s", "ssf", "f", "sc"}
	if r.Pick(0, 1) == 1 {
		scripts = []string{"s", "sf", "ssf", "f", "c", "sc", "ssc"}
	}
	for _, mode := range modes {
		for _, o := range []c18Opt{{}, {1, 1, 40 * time.Second, false}, {2, 2, 10 * time.Second, false}} {
			for _, cs := range scripts {
				for _, us := range scripts {
					for _, slow := range []int{0, 1, 2} {
						if cs == "s" && us == "s" {
							continue
						}
						if slow > 0 && !(o.server == 1) && r.Pick(0, 1) == 0 {
							continue
						}
						scn := fmt.Sprintf("race/%s/%v/%s-%s-%d", mode, o, cs, us, slow)
						vsched.Explore(r, scn, vsched.Opts{Deviations: dev, Filter: simFilterCoarse}, func(x *vsched.X) func() {
							var slowC, slowU time.Duration
							if slow == 1 {
								slowC = 5 * time.Second
							}
							if slow == 2 {
								slowU = 5 * time.Second
							}
							x.N.Limit = 20000
							x.N.Points = map[string]bool{"Read": true, "Write": true, "Close": true, "CloseWrite": true}
							st := c18Open(x, mode, o, slowC, slowU)
							play := func(e *c18End, script string) func() {
								return func() {
									for _, ev := range script {
										var err error
										switch ev {
										case 's':
											err = e.send(c18Sizes[1-len(e.sent)%2])
										case 'f':
											err = e.fin()
										case 'c':
											err = e.conn.Close()
										}
										if err != nil {
											return
										}
									}
								}
							}
							x.Go("client", play(st.c, cs))
							x.Go("upstream", play(st.u, us))
							return func() {
								time.Sleep(8 * time.Second)
								c18JudgeRace(x, st, mode, o, scn, cs, us)
							}
						})
					}
				}
			}
		}
	}
}

func c18JudgeRace(x *vsched.X, st *c18Stream, mode string, o c18Opt, scn, cs, us string) {
	r := x.R
	_, _, ceo := st.c.state()
	_, _, ueo := st.u.state()
	r.Outcome("%s %s/%s: client %s, upstream %s", mode, cs, us, ceo, ueo)
	if len(x.Blocked) > 0 {
		r.Violation("blocked:"+scn, "%s: goroutines wait for a lock forever: %v", x.ID, x.Blocked)
	}
	_, cg, ce := st.c.state()
	_, ug, ue := st.u.state()
	// Never anything but a prefix of what was sent.
	if !bytes.HasPrefix(st.u.sent, cg) {
		r.Violation("corrupt:client:"+scn, "%s: the client received %d bytes that aren't what the upstream sent", x.ID, len(cg))
	}
	if !bytes.HasPrefix(st.c.sent, ug) {
		r.Violation("corrupt:upstream:"+scn, "%s: the upstream received %d bytes that aren't what the client sent", x.ID, len(ug))
	}
	last := func(s string) byte { return s[len(s)-1] }
	cl, ul := last(cs), last(us)
	// Without a side that cuts the other one off, every byte arrives, and
	// then the end.
	cutByC := cl == 'c' || cl == 'f' && o.clientEnds()
	cutByU := ul == 'c' || ul == 'f' && o.serverEnds()
	if !cutByC && !cutByU {
		if len(cg) != len(st.u.sent) {
			r.Violation("lost:client:"+scn, "%s: the client received %d of %d bytes", x.ID, len(cg), len(st.u.sent))
		}
		if len(ug) != len(st.c.sent) {
			r.Violation("lost:upstream:"+scn, "%s: the upstream received %d of %d bytes", x.ID, len(ug), len(st.c.sent))
		}
		if ul == 'f' && ce != "eof" || ul == 's' && ce != "open" {
			r.Violation("end:client:"+scn, "%s: the client sees %s after script %s", x.ID, ce, us)
		}
		if cl == 'f' && ue != "eof" || cl == 's' && ue != "open" {
			r.Violation("end:upstream:"+scn, "%s: the upstream sees %s after script %s", x.ID, ue, cs)
		}
	}
	// A side that sends nothing can't make the other's bytes get lost.
	if cs == "f" && !cutByC && ul == 'f' && !bytes.Equal(cg, st.u.sent) {
		r.Violation("lost:client:"+scn, "%s: the client received %d of %d bytes", x.ID, len(cg), len(st.u.sent))
	}
	if us == "f" && !cutByU && cl == 'f' && !bytes.Equal(ug, st.c.sent) {
		r.Violation("lost:upstream:"+scn, "%s: the upstream received %d of %d bytes", x.ID, len(ug), len(st.c.sent))
	}
	if ce == "open" && (ul != 's') {
		r.Violation("hang:client:"+scn, "%s: the client still waits after the upstream ended", x.ID)
	}
	if ue == "open" && (cl != 's') {
		r.Violation("hang:upstream:"+scn, "%s: the upstream still waits after the client ended", x.ID)
	}
	if (cl != 's' && ul != 's') || cutByC || cutByU {
		time.Sleep(o.wait())
		c18Quiet(x, st, scn, "scripts "+cs+" and "+us)
	}
	st.c.raw.Reset()
	st.u.raw.Reset()
	time.Sleep(2 * time.Minute)
	c18Quiet(x, st, scn+" gone", "scripts "+cs+" and "+us+" and both ends gone")
}
