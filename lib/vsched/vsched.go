// Package vsched explores the schedules of instrumented code: the code runs in
// a synctest bubble (virtual time, in-memory network) and one goroutine at a
// time proceeds from one scheduling point to the next. Every schedule with at
// most a given number of deviations from the default one is executed.
package vsched

import (
	"fmt"
	"os"
	"runtime"
	"strconv"
	"strings"
	"testing/synctest"
	"time"

	"github.com/c2FmZQ/tlsproxy/internal/vnet"
	"github.com/c2FmZQ/tlsproxy/internal/vsync"
	"github.com/c2FmZQ/tlsproxy/internal/vx"
)

// X is one execution.
type X struct {
	R       *vx.R
	N       *vnet.Net
	ID      string
	Stuck   []string // harness threads that never finished
	Blocked []string // goroutines that wait for a lock forever
	Log     []string
	names   []string
	fs      []func()
	running map[string]bool
	ended   chan string
	cleanup []func()
	leak    string
}

// Go adds a harness thread.
func (x *X) Go(name string, f func()) {
	x.names = append(x.names, name)
	x.fs = append(x.fs, f)
}

// Cleanup adds a function that is called at the end, in reverse order. It must
// make every goroutine of the bubble end.
func (x *X) Cleanup(f func()) { x.cleanup = append(x.cleanup, f) }

// Yield is a scheduling point of a harness thread.
func (x *X) Yield(label string) { vsync.Yield(label) }

func (x *X) Logf(f string, a ...any) { x.Log = append(x.Log, fmt.Sprintf(f, a...)) }

type step struct {
	alts   int
	chosen string
	names  []string
}

// Opts are the bounds.
type Opts struct {
	Deviations int
	MaxSteps   int
	Horizon    time.Duration
	Filter     func(label string) bool
	Verbose    bool
}

type dev struct{ i, a int }

func devString(d []dev) string {
	if len(d) == 0 {
		return "0"
	}
	var s []string
	for _, x := range d {
		s = append(s, fmt.Sprintf("%d.%d", x.i, x.a))
	}
	return strings.Join(s, ",")
}

func parseDevs(s string) (d []dev) {
	if s == "0" {
		return nil
	}
	for _, v := range strings.Split(s, ",") {
		a, b, _ := strings.Cut(v, ".")
		i, _ := strconv.Atoi(a)
		j, _ := strconv.Atoi(b)
		d = append(d, dev{i, j})
	}
	return
}

var groups int

// Explore runs body under every schedule within the bounds. body sets the
// scene (without scheduling), adds the harness threads and returns the function
// that judges the execution when everything has come to rest.
func Explore(r *vx.R, scn string, o Opts, body func(x *X) func()) {
	if o.MaxSteps == 0 {
		o.MaxSteps = 3000
	}
	if o.Horizon == 0 {
		o.Horizon = 30 * time.Minute
	}
	if r.Replaying() {
		if v, ok := strings.CutPrefix(r.ReplayCase(), scn+"/"); ok {
			o.Verbose = os.Getenv("VX_TRACE") != ""
			r.InGroup(scn + "/" + v)
			run(r, scn+"/"+v, parseDevs(v), o, body, true)
		}
		return
	}
	shard, n := r.Shard()
	base := groups
	groups++
	r.InGroup(scn + "/0")
	tr := run(r, scn+"/0", nil, o, body, base%n == shard)
	if base%n == shard {
		var names []string
		for _, s := range tr {
			names = append(names, s.chosen)
		}
		r.Sample("%s: default schedule of %d steps: %s", scn, len(tr), strings.Join(names, " | "))
	}
	k := 0
	var rec func(prefix []dev, tr []step)
	rec = func(prefix []dev, tr []step) {
		if len(prefix) >= o.Deviations {
			return
		}
		start := 0
		if len(prefix) > 0 {
			start = prefix[len(prefix)-1].i + 1
		}
		for i := start; i < len(tr); i++ {
			for a := 1; a < tr[i].alts; a++ {
				if len(prefix) == 0 {
					k++
					if (k+base)%n != shard {
						continue
					}
				}
				if r.Expired() {
					return
				}
				d := append(append([]dev{}, prefix...), dev{i, a})
				id := scn + "/" + devString(d)
				r.InGroup(id)
				t2 := run(r, id, d, o, body, true)
				rec(d, t2)
			}
		}
	}
	rec(nil, tr)
}

// Bubble runs body in a bubble without controlling the schedule.
func Bubble(r *vx.R, id string, body func(x *X)) {
	run(r, id, nil, Opts{MaxSteps: 10, Horizon: time.Minute}, func(x *X) func() {
		body(x)
		return func() {}
	}, true)
}

// run executes one schedule.
func run(r *vx.R, id string, devs []dev, o Opts, body func(x *X) func(), judge bool) (tr []step) {
	x := &X{R: r, ID: id, running: map[string]bool{}}
	done := make(chan struct{})
	stop := make(chan struct{})
	go func() {
		select {
		case <-done:
		case <-stop:
		case <-time.After(40 * time.Second):
			buf := make([]byte, 1<<20)
			n := runtime.Stack(buf, true)
			os.WriteFile(os.Getenv("VX_OUT")+"/stuck.txt", buf[:n], 0o600)
			fmt.Printf("STUCK %s\n", id)
			os.Exit(3)
		}
	}()
	func() {
		defer func() {
			if e := recover(); e != nil {
				s := fmt.Sprint(e)
				if !strings.Contains(s, "deadlock") {
					panic(e)
				}
				x.leak = s
			}
		}()
		synctest.Run(func() {
			x.N = vnet.Begin()
			defer vnet.End()
			x.ended = make(chan string, 100)
			check := body(x)
			synctest.Wait()
			s := vsync.Begin(o.Filter)
			for i, n := range x.names {
				f := x.fs[i]
				x.running[n] = true
				go func() {
					s.SetName(n)
					vsync.Yield("start")
					f()
					x.ended <- n
				}()
			}
			cur := ""
			di := 0
			for len(tr) < o.MaxSteps {
				synctest.Wait()
			drain:
				for {
					select {
					case n := <-x.ended:
						delete(x.running, n)
					case <-s.Signal():
					default:
						break drain
					}
				}
				en, dis := s.Parked()
				if len(en) == 0 {
					if len(x.running) == 0 && len(dis) == 0 {
						break
					}
					tm := time.NewTimer(o.Horizon)
					select {
					case <-s.Signal():
						tm.Stop()
						continue
					case n := <-x.ended:
						delete(x.running, n)
						tm.Stop()
						continue
					case <-tm.C:
					}
					for n := range x.running {
						x.Stuck = append(x.Stuck, n)
					}
					for _, d := range dis {
						x.Blocked = append(x.Blocked, d.Name+" "+d.Label)
					}
					break
				}
				for i, t := range en {
					if t.Name == cur {
						copy(en[1:i+1], en[:i])
						en[0] = t
						break
					}
				}
				idx := 0
				if di < len(devs) && devs[di].i == len(tr) {
					if devs[di].a < len(en) {
						idx = devs[di].a
					}
					di++
				}
				t := en[idx]
				cur = t.Name
				st := step{alts: len(en), chosen: t.Name + ":" + t.Label}
				if judge {
					var all []any
					for _, e := range en {
						all = append(all, e.Name, e.Label)
					}
					r.State(all...)
				}
				if o.Verbose {
					var alt []string
					for _, e := range en {
						alt = append(alt, e.Name+":"+e.Label)
					}
					fmt.Printf("%3d %s   [%s]\n", len(tr), st.chosen, strings.Join(alt, " ; "))
				}
				tr = append(tr, st)
				s.Release(t)
			}
			if len(tr) >= o.MaxSteps {
				r.NotExhaustive("schedule longer than the step limit")
			}
			s.End()
			synctest.Wait()
			if judge {
				r.Exec()
				r.Step(len(tr))
				if check != nil {
					check()
				}
			}
			for i := len(x.cleanup) - 1; i >= 0; i-- {
				x.cleanup[i]()
			}
		})
	}()
	close(done)
	if x.leak != "" {
		r.Outcome("goroutines left in the bubble")
	}
	return tr
}
