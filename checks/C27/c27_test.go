package proxy

import (
	"crypto/tls"
	"errors"
	"fmt"
	"io"
	"net"
	"net/http"
	"strings"
	"sync"
	"testing"
	"time"

	"github.com/c2FmZQ/tlsproxy/internal/vnet"
	"github.com/c2FmZQ/tlsproxy/internal/vsched"
	"github.com/c2FmZQ/tlsproxy/internal/vx"
	"github.com/c2FmZQ/tlsproxy/proxy/internal/counter"
	"github.com/c2FmZQ/tlsproxy/proxy/internal/netw"
	"golang.org/x/time/rate"
)

const (
	c27A = "a.example.com"
	c27B = "b.example.com"
	c27C = "c.example.com"
)

// c27Flow records when bytes moved.
type c27Flow struct {
	mu  sync.Mutex
	ev  []c27Ev
	sum int64
}

type c27Ev struct {
	t time.Duration
	n int64
}

func (f *c27Flow) add(t0 time.Time, n int) {
	if n <= 0 {
		return
	}
	f.mu.Lock()
	defer f.mu.Unlock()
	f.ev = append(f.ev, c27Ev{time.Since(t0), int64(n)})
	f.sum += int64(n)
}

// over says whether more than rate*interval+extra bytes moved in any interval.
func (f *c27Flow) over(rate, extra float64) string {
	f.mu.Lock()
	defer f.mu.Unlock()
	for i := range f.ev {
		var sum int64
		for j := i; j < len(f.ev); j++ {
			sum += f.ev[j].n
			d := f.ev[j].t - f.ev[i].t
			if max := rate*d.Seconds() + extra + 1; float64(sum) > max {
				return fmt.Sprintf("%d bytes in %v from %v on, the limit allows %.0f", sum, d, f.ev[i].t, max)
			}
		}
	}
	return ""
}

type c27Conn struct {
	net.Conn
	t0      time.Time
	in, out []*c27Flow
}

func (c *c27Conn) Read(b []byte) (int, error) {
	n, err := c.Conn.Read(b)
	for _, f := range c.in {
		f.add(c.t0, n)
	}
	return n, err
}

func (c *c27Conn) Write(b []byte) (int, error) {
	n, err := c.Conn.Write(b)
	for _, f := range c.out {
		f.add(c.t0, n)
	}
	return n, err
}

func (c *c27Conn) CloseWrite() error { return closeWrite(c.Conn) }

type c27Work struct {
	mode     string
	conns    int
	size     int
	dir      string // in, out, both
	in, out  float64
	name     string // spelling of the limit's name where it is defined
	ref      string // and where it is used
	reload   bool
	interval time.Duration // pause between chunks
}

func (w c27Work) String() string {
	return fmt.Sprintf("%s n=%d size=%d %s limits=%.0f/%.0f %s/%s reload=%v pause=%v", w.mode, w.conns, w.size, w.dir, w.in, w.out, w.name, w.ref, w.reload, w.interval)
}

const c27Burst = 1 << 17

func c27Backend(name, mode, addr, limit string) *Backend {
	be := simHTTPBackend(name, mode, addr)
	be.BWLimit = limit
	be.ForwardTimeout = time.Hour
	be.HalfCloseTimeout = vxPtr(24 * time.Hour)
	return be
}

func c27Run(x *vsched.X, w c27Work) {
	r := x.R
	key := w.mode + " " + w.dir
	mk := func(in, out float64) *Config {
		cfg := simCfg(
			c27Backend(c27A, w.mode, "10.0.0.1:80", w.ref),
			c27Backend(c27B, w.mode, "10.0.0.2:80", w.ref),
			c27Backend(c27C, w.mode, "10.0.0.3:80", ""),
		)
		cfg.BWLimits = []*BWLimit{{Name: w.name, Ingress: in, Egress: out}}
		return cfg
	}
	if err := mk(w.in, w.out).clone().Check(); err != nil {
		r.Outcome("the configuration is rejected (%s/%s)", w.name, w.ref)
		if w.name == w.ref {
			r.Violation("rejected", "%s: %v", x.ID, err)
		}
		return
	}
	s := newSim(x, mk(w.in, w.out))
	t0 := time.Now()
	shared := map[string]*c27Flow{"in": {}, "out": {}}
	perName := map[string]map[string]*c27Flow{}
	for _, n := range []string{c27A, c27B, c27C} {
		perName[n] = map[string]*c27Flow{"in": {}, "out": {}}
	}
	var done sync.WaitGroup
	payload := c27Pattern(w.size)

	// The upstreams: read what the request announces, send what it asks for.
	for i, addr := range []string{"10.0.0.1:80", "10.0.0.2:80", "10.0.0.3:80"} {
		name := []string{c27A, c27B, c27C}[i]
		limited := name != c27C
		if w.mode == ModeHTTP {
			s.httpUpstream(addr, http.HandlerFunc(func(rw http.ResponseWriter, req *http.Request) {
				buf := make([]byte, 32768)
				total := 0
				for {
					n, err := req.Body.Read(buf)
					total += n
					if limited {
						shared["in"].add(t0, n)
					}
					if err != nil {
						break
					}
				}
				rw.Header().Set("x-total", fmt.Sprint(total))
				if w.dir != "in" {
					// With a length, nothing is flushed by a timer, which would wait for a
					// mutex that the bubble cannot see.
					rw.Header().Set("content-length", fmt.Sprint(len(payload)))
				}
				if w.dir != "in" {
					rw.Write(payload)
				}
			}))
			continue
		}
		s.upstream(addr, func(c *vnet.VConn) {
			var wg sync.WaitGroup
			wg.Add(1)
			go func() {
				defer wg.Done()
				buf := make([]byte, 32768)
				for {
					n, err := c.Read(buf)
					if limited {
						shared["in"].add(t0, n)
					}
					if err != nil {
						return
					}
				}
			}()
			if w.dir != "in" {
				c.Write(payload)
			}
			wg.Wait()
			c.Close()
		})
	}

	type result struct {
		name string
		took time.Duration
		got  int
		err  error

		closed bool
	}
	results := make([]result, w.conns)
	for i := 0; i < w.conns; i++ {
		name := []string{c27A, c27B, c27C}[i%3]
		res := &results[i]
		res.name = name
		raw, err := s.raw("c", "")
		if err != nil {
			panic(err)
		}
		raw.raw.SetDeadline(time.Time{})
		cc := &c27Conn{Conn: raw.raw, t0: t0, in: []*c27Flow{perName[name]["out"]}, out: []*c27Flow{perName[name]["in"]}}
		if name != c27C {
			cc.in = append(cc.in, shared["out"])
		}
		done.Add(1)
		go func() {
			defer done.Done()
			if w.reload && i >= w.conns/2 {
				time.Sleep(400 * time.Millisecond) // after the reload
			}
			start := time.Now()
			defer func() { res.took = time.Since(start) }()
			var conn net.Conn = cc
			if w.mode == ModeTLSPassthrough {
				if _, err := cc.Write(c27Hello[name]); err != nil {
					res.err = err
					return
				}
			} else {
				tc := simTLSConfig(name, []string{"http/1.1"}, nil)
				if w.mode == ModeTCP {
					tc.NextProtos = nil
				}
				c := tls.Client(cc, tc)
				if res.err = c.Handshake(); res.err != nil {
					return
				}
				conn = c
			}
			send := func(b []byte) error {
				for len(b) > 0 {
					n := min(len(b), max(1, w.size/4))
					if _, err := conn.Write(b[:n]); err != nil {
						return err
					}
					b = b[n:]
					time.Sleep(w.interval)
				}
				return nil
			}
			var got []byte
			var rerr error
			read := make(chan struct{})
			go func() {
				got, rerr = io.ReadAll(conn)
				close(read)
			}()
			if w.mode == ModeHTTP {
				body := 0
				if w.dir != "out" {
					body = len(payload)
				}
				fmt.Fprintf(conn, "POST / HTTP/1.1\r\nHost: %s\r\nContent-Length: %d\r\nConnection: close\r\n\r\n", name, body)
				if body > 0 {
					if res.err = send(payload); res.err != nil {
						res.closed = w.reload && len(got) == 0
						return
					}
				}
				<-read
				res.err = rerr
				if i := strings.Index(string(got), "\r\n\r\n"); i >= 0 {
					res.got = len(got) - i - 4
				}
				if w.reload && len(got) == 0 {
					// A connection that is being set up during a
					// reload can be closed.
					res.closed = true
					return
				}
				if !strings.Contains(strings.ToLower(string(got)), fmt.Sprintf("x-total: %d\r\n", body)) {
					res.err = fmt.Errorf("the upstream did not get %d bytes", body)
				}
				cc.Close() // without sending anything more
				return
			}
			if w.dir != "out" {
				if res.err = send(payload); res.err != nil {
					return
				}
			}
			// The upstream closes the connection when the client is done.
			res.err = closeWrite(conn)
			<-read
			res.got = len(got)
			if rerr != nil {
				res.err = rerr
			}
			conn.Close()
		}()
	}
	if w.reload {
		time.Sleep(300 * time.Millisecond)
		// The same limits: nothing may start over.
		if err := s.p.Reconfigure(mk(w.in, w.out)); err != nil {
			r.Violation("reload", "%s: %v", x.ID, err)
		}
	}
	finished := make(chan struct{})
	go func() { done.Wait(); close(finished) }()
	rate := min(w.in, w.out)
	// Reads are paid for by the buffer, not by the byte.
	patience := time.Duration(float64(w.conns)*float64(w.size+100000)*40/rate*float64(time.Second)) + time.Duration(w.conns)*w.interval*100 + time.Minute
	select {
	case <-finished:
	case <-time.After(patience):
		r.Violation("stalls:"+key, "%s: transfers aren't complete after %v", x.ID, patience)
		return
	}
	for i, res := range results {
		if res.closed {
			r.Outcome("%s: closed by the reload", w.mode)
			return
		}
		if res.err != nil || (w.dir != "in" && res.got != len(payload)) {
			r.Violation("fails:"+key, "%s: transfer %d (%s) failed after %v with %d bytes: %v", x.ID, i, res.name, res.took, res.got, res.err)
			return
		}
		if res.name == c27C && res.took > w.interval*10+100*time.Millisecond {
			r.Violation("unlimited:"+key, "%s: transfer %d of a backend without a limit took %v", x.ID, i, res.took)
		}
	}
	time.Sleep(time.Second)
	burst := func(v float64) float64 { return max(v, c27Burst) }
	nLimited := 0
	for _, res := range results {
		if res.name != c27C {
			nLimited++
		}
	}
	if s := shared["out"].over(w.out, burst(w.out)); s != "" {
		r.Violation("over-out:"+key, "%s: too much is sent: %s", x.ID, s)
	}
	// One read buffer per connection can be paid for in advance.
	if s := shared["in"].over(w.in, burst(w.in)+float64(nLimited)*32768); s != "" {
		r.Violation("over-in:"+key, "%s: too much is received: %s", x.ID, s)
	}
	// The totals.
	s.p.mu.Lock()
	for _, n := range []string{c27A, c27B, c27C} {
		var in, out, cnt int64
		if m := s.p.metrics[n]; m != nil {
			in, out, cnt = m.numBytesReceived.Value(), m.numBytesSent.Value(), m.numConnections.Value()
		}
		want := int64((w.conns + 2 - map[string]int{c27A: 0, c27B: 1, c27C: 2}[n]) / 3)
		if cnt != want {
			r.Violation("count:"+key, "%s: %d connections counted for %s, want %d", x.ID, cnt, n, want)
		}
		if f := perName[n]["in"].sum; f != in {
			r.Violation("total-in:"+key, "%s: %d bytes counted as received for %s, %d were", x.ID, in, n, f)
		}
		if f := perName[n]["out"].sum; f != out {
			r.Violation("total-out:"+key, "%s: %d bytes counted as sent for %s, %d were", x.ID, out, n, f)
		}
	}
	s.p.mu.Unlock()
	r.Outcome("%s %s: completed", w.mode, w.dir)
}

func c27Pattern(n int) []byte {
	b := make([]byte, n)
	for i := range b {
		b[i] = byte(i * 7)
	}
	return b
}

var c27Hello = map[string][]byte{}

func TestVX(t *testing.T) {
	r := vx.Start(t, "C27")
	defer r.Done()
	simInit(r, c27A, c27B, c27C)
	for _, n := range []string{c27A, c27B, c27C} {
		a, b := net.Pipe()
		go tls.Client(a, simTLSConfig(n, nil, nil)).Handshake()
		buf := make([]byte, 16384)
		k, _ := b.Read(buf)
		b.Close()
		c27Hello[n] = buf[:k]
	}
	run := func(w c27Work) {
		id := "bw/" + w.String()
		if !r.Case(id) {
			return
		}
		r.Exec()
		r.State("%s", id)
		vsched.Bubble(r, id, func(x *vsched.X) { c27Run(x, w) })
	}
	names := []string{"slow", "Slow", "SLOW"}
	for _, def := range names {
		for _, ref := range names {
			run(c27Work{mode: ModeTCP, conns: 2, size: 300000, dir: "out", in: 65536, out: 65536, name: def, ref: ref})
		}
	}
	sizes := []int{1, 20000, 150000, 400000}
	limits := [][2]float64{{65536, 65536}, {300000, 20000}, {20000, 300000}, {1000000, 1000000}}
	conns := []int{1, 2, 4}
	if r.Pick(0, 1) == 1 {
		sizes = []int{0, 1, 2000, 20000, 131072, 150000, 400000, 1000000}
		limits = append(limits, [2]float64{1000, 1000}, [2]float64{10000000, 131072})
		conns = []int{1, 2, 3, 4, 6, 8}
	}
	for _, mode := range []string{ModeTCP, ModeTLSPassthrough, ModeHTTP} {
		for _, dir := range []string{"in", "out", "both"} {
			for _, n := range conns {
				for _, size := range sizes {
					for _, l := range limits {
						for _, reload := range []bool{false, true} {
							for _, iv := range []time.Duration{0, 700 * time.Millisecond} {
								run(c27Work{mode: mode, conns: n, size: size, dir: dir, in: l[0], out: l[1], name: "slow", ref: "slow", reload: reload, interval: iv})
							}
						}
					}
				}
			}
		}
	}
	t1 := time.Now()
	c27Errors(r)
	c27Counter(r)
	t.Logf("counter %v", time.Since(t1))
}

// c27Counter compares counters with a list of what happened.
func c27Counter(r *vx.R) {
	type op struct {
		d time.Duration
		n int64
	}
	ops := []op{
		{0, 10}, {300 * time.Millisecond, 1}, {time.Second, 7}, {1700 * time.Millisecond, 5}, {30 * time.Second, 100},
		{59 * time.Second, 1000}, {60 * time.Second, 3}, {61 * time.Second, 30}, {time.Hour, 300},
	}
	depth := r.Pick(5, 6)
	r.Bound("counter operations", depth)
	// One bubble for all the sequences that start alike.
	first := make([]int, 0, 81)
	for i := 0; i < len(ops)*len(ops); i++ {
		first = append(first, i)
	}
	for _, f := range first {
		id := fmt.Sprintf("counter/%d", f)
		if !r.Case(id) {
			continue
		}
		vsched.Bubble(r, id, func(x *vsched.X) {
			x.R.Bound("counter slots", 60)
			rec := func([]int) {}
			check := func(seq []int) {
				r.Exec()
				time.Sleep(time.Until(time.Now().Truncate(time.Second).Add(time.Second)))
				type inc struct {
					t time.Time
					n int64
				}
				var hist []inc
				c := counter.New(time.Minute, time.Second)
				start := time.Now()
				for k, i := range seq {
					r.Step(1)
					time.Sleep(ops[i].d)
					now := time.Now()
					got := c.Incr(ops[i].n)
					hist = append(hist, inc{now, ops[i].n})
					var total int64
					for _, h := range hist {
						total += h.n
					}
					if v := c.Value(); v != total || got != total {
						r.Violation("counter-total", "%s: after %v the total is %d, want %d", id, seq[:k+1], v, total)
					}
					for _, wait := range []time.Duration{0, time.Second, 20 * time.Second} {
						if wait > 0 && k < len(seq)-1 {
							continue
						}
						time.Sleep(wait)
						now := time.Now()
						for _, p := range []time.Duration{time.Second, 10 * time.Second, time.Minute} {
							// The whole seconds of the period, or of the
							// counter's life, the current one included.
							end := now.Truncate(time.Second)
							n := min(int64(p/time.Second), int64(end.Sub(start)/time.Second))
							want := 0.0
							if n > 0 {
								from := end.Add(-time.Duration(n-1) * time.Second)
								var sum int64
								for _, h := range hist {
									if !h.t.Before(from) {
										sum += h.n
									}
								}
								want = float64(sum) / float64(n)
							}
							if rt := c.Rate(p); rt < want-1e-9 || rt > want+1e-9 {
								r.Violation("counter-rate", "%s: after %v and %v the rate over %v is %v, want %v", id, seq[:k+1], wait, p, rt, want)
							}
						}
						if v := c.Value(); v != total {
							r.Violation("counter-total", "%s: after %v and %v the total is %d, want %d", id, seq[:k+1], wait, v, total)
						}
					}
				}
			}
			rec = func(seq []int) {
				if len(seq) == depth {
					check(seq)
					return
				}
				for i := range ops {
					rec(append(append([]int(nil), seq...), i))
				}
			}
			rec([]int{f / len(ops), f % len(ops)})
		})
		r.State("%s", id)
	}
}

// c27Script is a connection whose reads and writes do what they are told.
type c27Script struct {
	net.Conn
	n   int
	err error
}

func (c *c27Script) Read(b []byte) (int, error)      { return min(c.n, len(b)), c.err }
func (c *c27Script) Write(b []byte) (int, error)     { return min(c.n, len(b)), c.err }
func (c *c27Script) Close() error                    { return nil }
func (c *c27Script) SetReadDeadline(time.Time) error { return nil }

// c27Errors checks that what is counted is what was moved, also by the reads
// and writes that fail, or end, in the middle.
func c27Errors(r *vx.R) {
	type step struct {
		op  string
		n   int
		err error
	}
	var steps []step
	boom := errors.New("boom")
	for _, op := range []string{"read", "write", "peek"} {
		for _, n := range []int{0, 1, 7, 16} {
			for _, err := range []error{nil, boom, io.EOF} {
				if err == nil && n < 16 && op == "write" || op == "peek" && (n == 0 || err == io.EOF) {
					continue
				}
				steps = append(steps, step{op, n, err})
			}
		}
	}
	depth := r.Pick(3, 4)
	r.Bound("reads and writes that fail: steps, depth", fmt.Sprint(len(steps), depth))
	for _, limited := range []bool{false, true} {
		for i := range steps {
			id := fmt.Sprintf("errors/%v/%d", limited, i)
			if !r.Case(id) {
				continue
			}
			vsched.Bubble(r, id, func(x *vsched.X) {
				seq := []int{i}
				var walk func()
				walk = func() {
					r.Exec()
					r.Step(1)
					sc := &c27Script{}
					c := netw.NewConn(sc)
					if limited {
						l := rate.NewLimiter(rate.Inf, 0)
						c.SetLimiters(l, l)
					}
					sent, received := counter.New(time.Minute, time.Second), counter.New(time.Minute, time.Second)
					c.SetCounters(sent, received)
					var out, in int64
					peeked := 0
					var desc []string
					for _, k := range seq {
						st := steps[k]
						sc.n, sc.err = st.n, st.err
						b := make([]byte, 16)
						var n int
						var err error
						switch st.op {
						case "read":
							n, err = c.Read(b)
							in += int64(n)
							if peeked > 0 {
								peeked -= n
							} else if n != st.n || err != st.err {
								r.Violation("errors-result", "%s: a read of (%d, %v) returned (%d, %v)", id, st.n, st.err, n, err)
							}
						case "write":
							n, err = c.Write(b)
							out += int64(n)
							if n != st.n || err != st.err {
								r.Violation("errors-result", "%s: a write of (%d, %v) returned (%d, %v)", id, st.n, st.err, n, err)
							}
						case "peek":
							if peeked > 0 {
								continue
							}
							n, _ = c.Peek(b[:min(max(st.n, 1), 16)])
							peeked = n
						}
						desc = append(desc, fmt.Sprintf("%s(%d, %v)", st.op, st.n, st.err))
					}
					r.State("%d %d %d", out, in, peeked)
					if v, w := c.BytesSent(), sent.Value(); v != out || w != out {
						r.Violation("errors-sent", "%s: after %v %d bytes were sent; the connection counts %d and the server name %d", id, desc, out, v, w)
					}
					if v, w := c.BytesReceived(), received.Value(); v != in || w != in {
						r.Violation("errors-received", "%s: after %v %d bytes were received; the connection counts %d and the server name %d", id, desc, in, v, w)
					}
					if len(seq) < depth {
						for k := range steps {
							seq = append(seq, k)
							walk()
							seq = seq[:len(seq)-1]
						}
					}
				}
				walk()
			})
		}
	}
	r.Outcome("reads and writes that fail")
}
