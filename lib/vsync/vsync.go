// Package vsync replaces package sync in instrumented sources. Its locks block
// on channels, so that goroutines that wait for them are durably blocked in a
// synctest bubble, and every lock operation is a scheduling point of the
// controlled scheduler when one is active.
package vsync

import (
	"runtime"
	"sort"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
)

type (
	Locker = sync.Locker
	Pool   = sync.Pool
	Map    = sync.Map
)

// Cond has a scheduling point between the check of the condition and the wait.
type Cond struct {
	L Locker
	c *sync.Cond
}

func NewCond(l Locker) *Cond { return &Cond{L: l, c: sync.NewCond(l)} }

func (c *Cond) Wait() {
	Yield("Cond.Wait")
	c.c.Wait()
}

func (c *Cond) Signal()    { c.c.Signal() }
func (c *Cond) Broadcast() { c.c.Broadcast() }

// thread is a goroutine known to the scheduler.
type thread struct {
	id     uint64
	name   string
	ch     chan struct{}
	label  string
	ready  func() bool
	parked bool
	done   bool
}

// Thread describes a goroutine that waits at a scheduling point.
type Thread struct {
	Name, Label string
	t           *thread
}

// Sched is the controlled scheduler.
type Sched struct {
	mu      sync.Mutex
	threads map[uint64]*thread
	nkids   map[string]int
	signal  chan struct{}
	ignore  map[string]bool
	sites   map[uintptr]siteInfo
	filter  func(label string) bool
	npoints int
}

type siteInfo struct {
	fn   string
	skip bool
}

var (
	active atomic.Bool
	cur    *Sched
	gen    atomic.Int64
)

// Begin activates a scheduler. It must be called in the bubble.
func Begin(filter func(label string) bool) *Sched {
	s := &Sched{threads: map[uint64]*thread{}, nkids: map[string]int{}, signal: make(chan struct{}, 1), sites: map[uintptr]siteInfo{}, filter: filter}
	cur = s
	gen.Add(1)
	active.Store(true)
	return s
}

// End deactivates the scheduler and lets everybody go.
func (s *Sched) End() {
	active.Store(false)
	s.mu.Lock()
	defer s.mu.Unlock()
	for _, t := range s.threads {
		if t.parked {
			t.parked = false
			close(t.ch)
		}
	}
}

// Signal is notified when a goroutine arrives at a scheduling point.
func (s *Sched) Signal() <-chan struct{} { return s.signal }

// Parked returns the goroutines that wait at a point, and whether each of them
// can proceed, in a reproducible order.
func (s *Sched) Parked() (enabled, disabled []Thread) {
	s.mu.Lock()
	defer s.mu.Unlock()
	for _, t := range s.threads {
		if !t.parked {
			continue
		}
		d := Thread{Name: t.name, Label: t.label, t: t}
		if t.ready == nil || t.ready() {
			enabled = append(enabled, d)
		} else {
			disabled = append(disabled, d)
		}
	}
	sort.Slice(enabled, func(i, j int) bool { return enabled[i].Name < enabled[j].Name })
	sort.Slice(disabled, func(i, j int) bool { return disabled[i].Name < disabled[j].Name })
	return
}

// Release lets one goroutine proceed.
func (s *Sched) Release(d Thread) {
	s.mu.Lock()
	t := d.t
	t.parked = false
	ch := t.ch
	s.mu.Unlock()
	close(ch)
}

func gid() uint64 {
	var buf [64]byte
	n := runtime.Stack(buf[:], false)
	b := buf[len("goroutine "):n]
	var id uint64
	for _, c := range b {
		if c < '0' || c > '9' {
			break
		}
		id = id*10 + uint64(c-'0')
	}
	return id
}

// origin returns the creator of this goroutine.
func origin() (site string, parent uint64) {
	buf := make([]byte, 16384)
	n := runtime.Stack(buf, false)
	st := string(buf[:n])
	i := strings.LastIndex(st, "\ncreated by ")
	if i < 0 {
		return "main", 0
	}
	st = st[i+len("\ncreated by "):]
	line, rest, _ := strings.Cut(st, "\n")
	fn, g, _ := strings.Cut(line, " in goroutine ")
	parent, _ = strconv.ParseUint(strings.TrimSpace(g), 10, 64)
	loc := strings.TrimSpace(rest)
	if j := strings.Index(loc, " +0x"); j >= 0 {
		loc = loc[:j]
	}
	if j := strings.LastIndex(loc, "/"); j >= 0 {
		loc = loc[j+1:]
	}
	if j := strings.LastIndex(fn, "/"); j >= 0 {
		fn = fn[j+1:]
	}
	_ = loc
	return fn, parent
}

func (s *Sched) thread() *thread {
	id := gid()
	s.mu.Lock()
	t := s.threads[id]
	s.mu.Unlock()
	if t != nil {
		return t
	}
	site, parent := origin()
	s.mu.Lock()
	defer s.mu.Unlock()
	pn := ""
	if pt := s.threads[parent]; pt != nil {
		pn = pt.name + ">"
	}
	n := pn + site
	k := s.nkids[n]
	s.nkids[n] = k + 1
	if k > 0 {
		n += "#" + strconv.Itoa(k)
	}
	t = &thread{id: id, name: n}
	s.threads[id] = t
	return t
}

// SetName names the current goroutine.
func (s *Sched) SetName(name string) {
	id := gid()
	s.mu.Lock()
	defer s.mu.Unlock()
	s.threads[id] = &thread{id: id, name: name}
}

// Functions that hold a lock of their own (or of the standard library) when
// they call back: no scheduling point below them.
func holder(fn string) bool {
	switch {
	case strings.HasPrefix(fn, "crypto/tls.(*Conn)"),
		strings.HasPrefix(fn, "net/http.(*Server)."),
		strings.HasPrefix(fn, "net/http.(*Transport)."),
		strings.HasPrefix(fn, "net/http.(*persistConn)."),
		strings.HasPrefix(fn, "net/http.(*http2"),
		strings.HasPrefix(fn, "net/http.http2"),
		strings.HasPrefix(fn, "net/http.(*response)"),
		strings.HasPrefix(fn, "net/http.(*connReader)"),
		strings.HasPrefix(fn, "golang.org/x/net/http2"),
		strings.HasPrefix(fn, "sync.(*Once)"),
		strings.HasPrefix(fn, "log."),
		strings.HasPrefix(fn, "context."):
		return true
	}
	return false
}

func short(fn string) string {
	if j := strings.LastIndex(fn, "/"); j >= 0 {
		fn = fn[j+1:]
	}
	return fn
}

// point is a scheduling point.
func point(op string, ready func() bool) {
	if !active.Load() {
		return
	}
	s := cur
	var pcs [48]uintptr
	n := runtime.Callers(3, pcs[:])
	label := ""
	fr := runtime.CallersFrames(pcs[:n])
	for {
		f, more := fr.Next()
		if f.Function != "" {
			if label == "" && !strings.Contains(f.Function, "/internal/vsync.") && !strings.Contains(f.Function, "/internal/vnet.") {
				label = op + " " + short(f.Function)
			}
			// Handlers run under (*conn).serve and (*http2serverConn).runHandler.
			if holder(f.Function) && !strings.HasSuffix(f.Function, ".runHandler") && !strings.HasSuffix(f.Function, ".processHeaders") {
				return
			}
			if strings.HasSuffix(f.Function, "net/http.(*http2serverConn).runHandler") {
				break
			}
		}
		if !more {
			break
		}
	}
	if s.filter != nil && !s.filter(label) {
		return
	}
	s.park(label, ready)
}

func (s *Sched) park(label string, ready func() bool) {
	t := s.thread()
	s.mu.Lock()
	if !active.Load() || cur != s {
		s.mu.Unlock()
		return
	}
	t.label = label
	t.ready = ready
	t.ch = make(chan struct{})
	t.parked = true
	ch := t.ch
	s.npoints++
	s.mu.Unlock()
	select {
	case s.signal <- struct{}{}:
	default:
	}
	<-ch
}

// Yield is an explicit scheduling point.
func Yield(label string) {
	if !active.Load() {
		return
	}
	cur.park(label, nil)
}

// Point is a scheduling point that is subject to the filters.
func Point(label string) { point(label, nil) }

// Mutex is a mutual exclusion lock.
type Mutex struct {
	mu      sync.Mutex
	locked  bool
	waiters []chan struct{}
}

func (m *Mutex) free() bool {
	m.mu.Lock()
	defer m.mu.Unlock()
	return !m.locked
}

func (m *Mutex) Lock() {
	point("Lock", m.free)
	for {
		m.mu.Lock()
		if !m.locked {
			m.locked = true
			m.mu.Unlock()
			return
		}
		ch := make(chan struct{})
		m.waiters = append(m.waiters, ch)
		m.mu.Unlock()
		<-ch
	}
}

func (m *Mutex) TryLock() bool {
	point("TryLock", nil)
	m.mu.Lock()
	defer m.mu.Unlock()
	if m.locked {
		return false
	}
	m.locked = true
	return true
}

func (m *Mutex) Unlock() {
	m.mu.Lock()
	defer m.mu.Unlock()
	if !m.locked {
		panic("sync: unlock of unlocked mutex")
	}
	m.locked = false
	for _, ch := range m.waiters {
		close(ch)
	}
	m.waiters = nil
}

// RWMutex is a reader/writer lock. Like sync's, a waiting writer keeps new
// readers out.
type RWMutex struct {
	mu      sync.Mutex
	writer  bool
	pending int
	readers int
	waiters []chan struct{}
}

func (m *RWMutex) canRead() bool {
	m.mu.Lock()
	defer m.mu.Unlock()
	return !m.writer && m.pending == 0
}

func (m *RWMutex) wake() {
	for _, ch := range m.waiters {
		close(ch)
	}
	m.waiters = nil
}

func (m *RWMutex) RLock() {
	point("RLock", m.canRead)
	for {
		m.mu.Lock()
		if !m.writer && m.pending == 0 {
			m.readers++
			m.mu.Unlock()
			return
		}
		ch := make(chan struct{})
		m.waiters = append(m.waiters, ch)
		m.mu.Unlock()
		<-ch
	}
}

func (m *RWMutex) TryRLock() bool {
	point("TryRLock", nil)
	m.mu.Lock()
	defer m.mu.Unlock()
	if m.writer || m.pending > 0 {
		return false
	}
	m.readers++
	return true
}

func (m *RWMutex) RUnlock() {
	m.mu.Lock()
	defer m.mu.Unlock()
	if m.readers <= 0 {
		panic("sync: RUnlock of unlocked RWMutex")
	}
	m.readers--
	m.wake()
}

func (m *RWMutex) Lock() {
	point("Lock", nil)
	first := true
	for {
		m.mu.Lock()
		if !m.writer && m.readers == 0 {
			if !first {
				m.pending--
			}
			m.writer = true
			m.mu.Unlock()
			return
		}
		if first {
			m.pending++
			first = false
		}
		ch := make(chan struct{})
		m.waiters = append(m.waiters, ch)
		m.mu.Unlock()
		<-ch
	}
}

func (m *RWMutex) TryLock() bool {
	point("TryLock", nil)
	m.mu.Lock()
	defer m.mu.Unlock()
	if m.writer || m.readers > 0 {
		return false
	}
	m.writer = true
	return true
}

func (m *RWMutex) Unlock() {
	m.mu.Lock()
	defer m.mu.Unlock()
	if !m.writer {
		panic("sync: Unlock of unlocked RWMutex")
	}
	m.writer = false
	m.wake()
}

type rlocker RWMutex

func (r *rlocker) Lock()   { (*RWMutex)(r).RLock() }
func (r *rlocker) Unlock() { (*RWMutex)(r).RUnlock() }

func (m *RWMutex) RLocker() Locker { return (*rlocker)(m) }

// WaitGroup waits for a collection of goroutines.
type WaitGroup struct {
	mu      sync.Mutex
	n       int
	waiters []chan struct{}
}

func (w *WaitGroup) Add(d int) {
	w.mu.Lock()
	defer w.mu.Unlock()
	w.n += d
	if w.n < 0 {
		panic("sync: negative WaitGroup counter")
	}
	if w.n == 0 {
		for _, ch := range w.waiters {
			close(ch)
		}
		w.waiters = nil
	}
}

func (w *WaitGroup) Done() {
	point("Done", nil)
	w.Add(-1)
}

func (w *WaitGroup) Go(f func()) {
	w.Add(1)
	go func() {
		defer w.Done()
		f()
	}()
}

func (w *WaitGroup) Wait() {
	w.mu.Lock()
	if w.n == 0 {
		w.mu.Unlock()
		return
	}
	ch := make(chan struct{})
	w.waiters = append(w.waiters, ch)
	w.mu.Unlock()
	<-ch
}

// Once runs a function once.
type Once struct {
	m    Mutex
	done atomic.Bool
}

func (o *Once) Do(f func()) {
	if o.done.Load() {
		return
	}
	o.m.Lock()
	defer o.m.Unlock()
	if !o.done.Load() {
		defer o.done.Store(true)
		f()
	}
}

func OnceFunc(f func()) func() {
	var o Once
	return func() { o.Do(f) }
}

func OnceValue[T any](f func() T) func() T {
	var o Once
	var v T
	return func() T {
		o.Do(func() { v = f() })
		return v
	}
}

func OnceValues[T1, T2 any](f func() (T1, T2)) func() (T1, T2) {
	var o Once
	var a T1
	var b T2
	return func() (T1, T2) {
		o.Do(func() { a, b = f() })
		return a, b
	}
}
