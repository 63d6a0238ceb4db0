package proxy

import (
	"context"
	"fmt"
	"io"
	"net/http"
	"os"
	"sort"
	"strings"
	"sync"
	"syscall"
	"testing"
	"time"

	"github.com/c2FmZQ/tlsproxy/internal/vnet"
	"github.com/c2FmZQ/tlsproxy/internal/vsched"
	"github.com/c2FmZQ/tlsproxy/internal/vx"
)

const c21Name = "www.example.com"

var c21Addrs = []string{"10.0.0.1:80", "10.0.0.2:80", "10.0.0.3:80"}

type c21Attempt struct {
	tried []string
	ok    bool
}

type c21World struct {
	mu    sync.Mutex
	down  map[string]bool
	by    map[any]*c21Attempt
	order []*c21Attempt
}

// c21Hook records the dials of each client connection.
func c21Hook(x *vsched.X, w *c21World, yield bool) {
	w.by = map[any]*c21Attempt{}
	x.N.DialHook = func(ctx context.Context, addr string) error {
		if yield {
			x.Yield("dial")
		}
		w.mu.Lock()
		defer w.mu.Unlock()
		k := ctx.Value(connCtxKey)
		a := w.by[k]
		if a == nil {
			a = &c21Attempt{}
			w.by[k] = a
			w.order = append(w.order, a)
		}
		a.tried = append(a.tried, addr)
		if w.down[addr] {
			return os.NewSyscallError("connect", syscall.ECONNREFUSED)
		}
		a.ok = true
		return nil
	}
}

func (w *c21World) setHealth(mask, n int) {
	w.mu.Lock()
	defer w.mu.Unlock()
	w.down = map[string]bool{}
	for i := 0; i < n; i++ {
		if mask&(1<<i) != 0 {
			w.down[c21Addrs[i]] = true
		}
	}
}

// c21Judge checks one attempt; works is what the client saw.
func c21Judge(r *vx.R, id, what string, a *c21Attempt, n int, works bool) {
	seen := map[string]bool{}
	for _, v := range a.tried {
		if seen[v] {
			r.Violation("twice", "%s: %s tries an address twice: %v", id, what, a.tried)
		}
		seen[v] = true
	}
	if !a.ok && len(seen) < n {
		r.Violation("giveup", "%s: %s fails but not all of the %d addresses were tried: %v", id, what, n, a.tried)
	}
	if a.ok != works {
		r.Violation("result", "%s: %s: a dial worked: %v (%v), the client's connection works: %v", id, what, a.ok, a.tried, works)
	}
}

func c21Echo(c *vnet.VConn) {
	io.Copy(c, c)
	c.Close()
}

// c21Try opens a connection and uses it.
func c21Try(s *sim) bool {
	c, err := s.dial("c", c21Name, nil, "", nil)
	if err != nil {
		return false
	}
	defer c.raw.Close()
	if _, err := io.WriteString(c.tls, "ping"); err != nil {
		return false
	}
	b := make([]byte, 4)
	_, err = io.ReadFull(c.br, b)
	return err == nil
}

func TestVX(t *testing.T) {
	r := vx.Start(t, "C21")
	defer r.Done()
	simInit(r, c21Name)
	names := func(a []string) string {
		var s []string
		for _, v := range a {
			s = append(s, strings.TrimSuffix(strings.TrimPrefix(v, "10.0.0."), ":80"))
		}
		return strings.Join(s, "")
	}

	// One after the other, with health changes in between.
	length := r.Pick(4, 5)
	r.Bound("consecutive dials", length)
	for n := 1; n <= 3; n++ {
		for warm := 0; warm < n; warm++ {
			sizes := make([]int, length)
			for i := range sizes {
				sizes[i] = 1 << n
			}
			vx.Product(sizes, func(idx []int) bool {
				id := fmt.Sprintf("seq/%d/%d/%v", n, warm, strings.Trim(fmt.Sprint(idx), "[]"))
				if !r.Case(id) {
					return true
				}
				r.Exec()
				vsched.Bubble(r, id, func(x *vsched.X) {
					be := simHTTPBackend(c21Name, ModeTCP, "")
					be.Addresses = c21Addrs[:n]
					s := newSim(x, simCfg(be))
					for _, a := range c21Addrs[:n] {
						s.upstream(a, c21Echo)
					}
					w := &c21World{}
					c21Hook(x, w, false)
					var healthy []string
					step := func(what string, mask int) {
						w.setHealth(mask, n)
						ok := c21Try(s)
						a := w.order[len(w.order)-1]
						c21Judge(r, id, what, a, n, ok)
						r.State(n, mask, names(a.tried))
						r.Step(1)
						if mask != 0 {
							healthy = nil
							return
						}
						if len(a.tried) != 1 {
							r.Violation("rotation", "%s: %s: all addresses are healthy, tried %v", id, what, a.tried)
							return
						}
						healthy = append(healthy, a.tried[0])
						if k := len(healthy); k >= n {
							m := map[string]bool{}
							for _, v := range healthy[k-n:] {
								m[v] = true
							}
							if len(m) != n {
								r.Violation("rotation", "%s: %s: consecutive connections to %d healthy addresses used %v", id, what, n, healthy)
							}
						}
					}
					for i := 0; i < warm; i++ {
						step("warm-up", 0)
					}
					for i, m := range idx {
						step(fmt.Sprintf("dial %d", i), m)
					}
					for i := 0; i < n; i++ {
						step("recovery", 0)
					}
					r.Outcome("seq %d addresses ok", n)
				})
				return true
			})
		}
	}

	// Path overrides.
	vx.Sequences(4, 1, r.Pick(5, 6), func(seq []int) bool {
		id := fmt.Sprintf("override/%v", strings.Trim(fmt.Sprint(seq), "[]"))
		if !r.Case(id) {
			return true
		}
		r.Exec()
		vsched.Bubble(r, id, func(x *vsched.X) {
			be := simHTTPBackend(c21Name, ModeHTTP, "")
			be.Addresses = []string{"10.1.0.1:80", "10.1.0.2:80"}
			be.PathOverrides = []*PathOverride{
				{Paths: []string{"/a/"}, Addresses: []string{"10.2.0.1:80", "10.2.0.2:80", "10.2.0.3:80"}},
				{Paths: []string{"/b/"}, Addresses: []string{"10.3.0.1:80", "10.3.0.2:80"}},
				{Paths: []string{"/c/"}, Addresses: []string{"10.4.0.1:80"}},
			}
			sizes := []int{2, 3, 2, 1}
			s := newSim(x, simCfg(be))
			for i, n := range sizes {
				for j := 0; j < n; j++ {
					me := fmt.Sprintf("%d.%d", i, j)
					s.httpUpstream(fmt.Sprintf("10.%d.0.%d:80", i+1, j+1), http.HandlerFunc(func(w http.ResponseWriter, req *http.Request) {
						w.Header().Set("Connection", "close")
						io.WriteString(w, me)
					}))
				}
			}
			c, err := s.dial("c", c21Name, []string{"http/1.1"}, "", nil)
			if err != nil {
				panic(err)
			}
			used := make([][]string, 4)
			for _, k := range seq {
				path := []string{"/", "/a/x", "/b/x", "/c/x"}[k]
				st, b, err := c.get(c21Name, path)
				time.Sleep(time.Millisecond)
				if err != nil || st != 200 || !strings.HasPrefix(b, fmt.Sprintf("%d.", k)) {
					r.Violation("override", "%s: %s: %d %q %v", id, path, st, b, err)
					return
				}
				used[k] = append(used[k], b)
				if l, n := len(used[k]), sizes[k]; l >= n {
					m := map[string]bool{}
					for _, v := range used[k][l-n:] {
						m[v] = true
					}
					if len(m) != n {
						r.Violation("override-rotation", "%s: consecutive requests for %s used %v of %d addresses", id, path, used[k], n)
					}
				}
			}
			r.Outcome("overrides ok")
			r.State("override", fmt.Sprint(used))
		})
		return true
	})

	// At the same time.
	dev := r.Pick(2, 3)
	r.Bound("deviations from the default schedule", dev)
	filter := func(l string) bool {
		return strings.Contains(l, ".dial") || strings.HasPrefix(l, "dial")
	}
	for _, cl := range []int{2, 3} {
		for n := 2; n <= 3; n++ {
			for mask := 0; mask < 1<<n; mask++ {
				for flip := -1; flip < 1<<n; flip++ {
					if flip == mask || cl == 3 && flip >= 0 && !r.Thorough() {
						continue
					}
					scn := fmt.Sprintf("conc-%d-%d-%d-%d", cl, n, mask, flip)
					vsched.Explore(r, scn, vsched.Opts{Deviations: dev, Filter: filter}, func(x *vsched.X) func() {
						be := simHTTPBackend(c21Name, ModeTCP, "")
						be.Addresses = c21Addrs[:n]
						s := newSim(x, simCfg(be))
						for _, a := range c21Addrs[:n] {
							s.upstream(a, c21Echo)
						}
						w := &c21World{}
						w.setHealth(mask, n)
						c21Hook(x, w, true)
						res := make([]bool, cl)
						var cs []*simConn
						for i := 0; i < cl; i++ {
							c, err := s.raw("c", "")
							if err != nil {
								panic(err)
							}
							cs = append(cs, c)
						}
						for i, c := range cs {
							x.Go(fmt.Sprintf("c%d", i), func() {
								if c.handshake(simTLSConfig(c21Name, nil, nil)) != nil {
									return
								}
								if _, err := io.WriteString(c.tls, "ping"); err != nil {
									return
								}
								b := make([]byte, 4)
								_, err := io.ReadFull(c.br, b)
								res[i] = err == nil
							})
						}
						if flip >= 0 {
							x.Go("health", func() { w.setHealth(flip, n) })
						}
						return func() {
							works := 0
							for _, v := range res {
								if v {
									works++
								}
							}
							did := 0
							var used []string
							for i, a := range w.order {
								c21Judge(r, x.ID, fmt.Sprintf("attempt %d", i), a, n, a.ok)
								if a.ok {
									did++
									used = append(used, a.tried[len(a.tried)-1])
								}
							}
							if did != works {
								r.Violation("result", "%s: %d dials worked, %d clients are served", x.ID, did, works)
							}
							if mask == 0 && flip < 0 {
								m := map[string]int{}
								for _, v := range used {
									m[v]++
								}
								for v, k := range m {
									if k > (cl+n-1)/n {
										r.Violation("rotation", "%s: %d concurrent connections to %d healthy addresses: %s is used %d times", x.ID, cl, n, v, k)
									}
								}
							}
							sort.Strings(used)
							r.Outcome("conc %d/%d worked", works, cl)
						}
					})
				}
			}
		}
	}
}
