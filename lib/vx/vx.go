// Package vx is the reporting and enumeration core of the model checking
// harnesses in /verif. It is overlaid into the module under test at
// proxy/internal/vx (it is not part of the repository).
package vx

import (
	"encoding/binary"
	"encoding/json"
	"fmt"
	"hash/fnv"
	"os"
	"path/filepath"
	"runtime"
	"sort"
	"strconv"
	"strings"
	"sync"
	"testing"
	"time"
)

// R collects what one shard of one check covered.
type R struct {
	T        *testing.T
	ID       string
	Tier     string
	Seed     int64
	shard    int
	nshards  int
	replay   string
	deadline time.Time
	outDir   string
	scratch  string

	mu         sync.Mutex
	ncase      int
	cur        string
	states     map[uint64]struct{}
	trans      int64
	execs      int64
	exhaustive bool
	samples    []string
	outcomes   map[string]int64
	viols      []violation
	violKeys   map[string]int
	bounds     map[string]any
	notes      []string
	caseLimit  int
	finished   bool
	curFile    *os.File
}

type violation struct {
	Key    string `json:"key"`
	Detail string `json:"detail"`
	Case   string `json:"case"`
}

// realNow is wall clock time, also when called from inside a synctest bubble.
var processStart = time.Now()

// Start begins a check. The runner passes parameters through the environment.
func Start(t *testing.T, id string) *R {
	// The memory profiler slows everything down when a package turns it up.
	runtime.MemProfileRate = 0
	r := &R{
		T: t, ID: id,
		Tier:       envOr("VERIF_TIER", "quick"),
		nshards:    1,
		exhaustive: true,
		states:     map[uint64]struct{}{},
		outcomes:   map[string]int64{},
		violKeys:   map[string]int{},
		bounds:     map[string]any{},
		outDir:     os.Getenv("VX_OUT"),
		replay:     os.Getenv("VX_REPLAY"),
		scratch:    os.Getenv("VX_SCRATCH"),
	}
	r.Seed, _ = strconv.ParseInt(envOr("VERIF_SEED", "1"), 10, 64)
	if s := os.Getenv("VX_SHARD"); s != "" {
		fmt.Sscanf(s, "%d/%d", &r.shard, &r.nshards)
	}
	if r.scratch == "" {
		r.scratch = t.TempDir()
	}
	secs := 240
	if s := os.Getenv("VX_SECONDS"); s != "" {
		secs, _ = strconv.Atoi(s)
	}
	r.deadline = time.Now().Add(time.Duration(secs) * time.Second)
	startWatch(time.Duration(secs) * time.Second)
	return r
}

func envOr(k, d string) string {
	if v := os.Getenv(k); v != "" {
		return v
	}
	return d
}

// expired is set by a goroutine that lives outside of any synctest bubble, so
// that deadlines are in real time everywhere.
var expiredFlag struct {
	sync.Mutex
	v bool
}
var watchOnce sync.Once

func startWatch(d time.Duration) {
	watchOnce.Do(func() {
		go func() {
			time.Sleep(d)
			expiredFlag.Lock()
			expiredFlag.v = true
			expiredFlag.Unlock()
		}()
	})
}

// Thorough is true in the thorough tier.
func (r *R) Thorough() bool { return r.Tier == "thorough" }

// Pick returns q in the quick tier and th in the thorough tier.
func (r *R) Pick(q, th int) int {
	if r.Thorough() {
		return th
	}
	return q
}

// Scratch returns a fresh directory for this shard.
func (r *R) Scratch(name string) string {
	d := filepath.Join(r.scratch, fmt.Sprintf("s%d-%s", r.shard, name))
	os.RemoveAll(d)
	if err := os.MkdirAll(d, 0o755); err != nil {
		r.T.Fatal(err)
	}
	return d
}

// Replaying is true when a single recorded case is being replayed.
func (r *R) Replaying() bool { return r.replay != "" }

// ReplayCase returns the replayed case.
func (r *R) ReplayCase() string { return r.replay }

// Expired is true when the time budget is used up; the run then is no longer
// exhaustive.
func (r *R) Expired() bool {
	expiredFlag.Lock()
	defer expiredFlag.Unlock()
	if expiredFlag.v {
		r.mu.Lock()
		r.exhaustive = false
		r.mu.Unlock()
		return true
	}
	return false
}

// Shard returns this shard's number and the number of shards.
func (r *R) Shard() (int, int) { return r.shard, r.nshards }

// Case announces a case of the enumeration. It returns true if this shard has
// to execute it.
func (r *R) Case(id string) bool {
	r.mu.Lock()
	n := r.ncase
	r.ncase++
	r.cur = id
	r.mu.Unlock()
	r.saveCur(id, n)
	if r.replay != "" {
		return r.replay == id || strings.HasPrefix(r.replay, id+"@")
	}
	if n%r.nshards != r.shard {
		return false
	}
	if r.Expired() {
		return false
	}
	r.timing(id)
	return true
}

// timing logs slow cases when VX_TIMING is set.
func (r *R) timing(id string) {
	f := os.Getenv("VX_TIMING")
	if f == "" {
		return
	}
	now := time.Now()
	if !lastCase.IsZero() {
		fd, err := os.OpenFile(f, os.O_APPEND|os.O_CREATE|os.O_WRONLY, 0o644)
		if err == nil {
			fmt.Fprintf(fd, "%d %s\n", now.Sub(lastCase).Milliseconds(), lastID)
			fd.Close()
		}
	}
	lastCase, lastID = now, id
}

var (
	lastCase time.Time
	lastID   string
)

// saveCur leaves the current case where the runner finds it if the process is
// terminated by the code under test.
func (r *R) saveCur(id string, n int) {
	if r.outDir == "" || (r.replay == "" && n >= 0 && n%r.nshards != r.shard) {
		return
	}
	r.mu.Lock()
	defer r.mu.Unlock()
	if r.curFile == nil {
		f, err := os.Create(filepath.Join(r.outDir, fmt.Sprintf("cur-%d", r.shard)))
		if err != nil {
			return
		}
		r.curFile = f
	}
	r.curFile.Truncate(0)
	r.curFile.WriteAt([]byte(id), 0)
}

// Group is like Case for a set of cases that must run in the same process (a
// shared fixture). It does not become the current case.
func (r *R) Group(n int, prefix string) bool {
	if r.replay != "" {
		return strings.HasPrefix(r.replay, prefix)
	}
	return n%r.nshards == r.shard
}

// InGroup announces a case in a group that this shard owns.
func (r *R) InGroup(id string) bool {
	r.mu.Lock()
	r.cur = id
	r.mu.Unlock()
	r.saveCur(id, -1)
	if r.replay != "" {
		return r.replay == id || strings.HasPrefix(r.replay, id+"@")
	}
	return !r.Expired()
}

// ReplaySuffix returns what follows "id@" in the replayed case.
func (r *R) ReplaySuffix(id string) (string, bool) {
	return strings.CutPrefix(r.replay, id+"@")
}

// SetCase sets the id under which violations are recorded.
func (r *R) SetCase(id string) {
	r.mu.Lock()
	r.cur = id
	r.mu.Unlock()
	r.saveCur(id, -1)
}

// Exec counts one complete execution of the implementation under test.
func (r *R) Exec() {
	r.mu.Lock()
	r.execs++
	r.mu.Unlock()
}

// Step counts n transitions (operations, events or scheduling steps).
func (r *R) Step(n int) {
	r.mu.Lock()
	r.trans += int64(n)
	r.mu.Unlock()
}

// State records an observed abstract state. Equal states are counted once.
func (r *R) State(parts ...any) {
	h := fnv.New64a()
	fmt.Fprintln(h, parts...)
	r.mu.Lock()
	r.states[h.Sum64()] = struct{}{}
	r.mu.Unlock()
}

// Outcome counts a class of observed result.
func (r *R) Outcome(f string, a ...any) {
	s := fmt.Sprintf(f, a...)
	r.mu.Lock()
	if _, ok := r.outcomes[s]; ok || len(r.outcomes) < 200 {
		r.outcomes[s]++
	} else {
		r.outcomes["(other)"]++
	}
	r.mu.Unlock()
}

// Sample keeps a few written out cases.
func (r *R) Sample(f string, a ...any) {
	r.mu.Lock()
	defer r.mu.Unlock()
	if len(r.samples) < 6 {
		s := fmt.Sprintf(f, a...)
		if len(s) > 600 {
			s = s[:600]
		}
		r.samples = append(r.samples, s)
	}
}

// Bound reports a bound of the exploration.
func (r *R) Bound(k string, v any) {
	r.mu.Lock()
	r.bounds[k] = v
	r.mu.Unlock()
}

// Note records a remark in the evidence.
func (r *R) Note(f string, a ...any) {
	r.mu.Lock()
	r.notes = append(r.notes, fmt.Sprintf(f, a...))
	r.mu.Unlock()
}

// NotExhaustive marks the run as capped.
func (r *R) NotExhaustive(why string) {
	r.mu.Lock()
	r.exhaustive = false
	r.notes = append(r.notes, "capped: "+why)
	r.mu.Unlock()
}

// Violation records that the property failed in the current case. key
// identifies what failed (it is matched against the known findings).
func (r *R) Violation(key, f string, a ...any) {
	r.mu.Lock()
	defer r.mu.Unlock()
	r.violKeys[key]++
	if r.violKeys[key] > 3 || len(r.viols) > 60 {
		return
	}
	d := fmt.Sprintf(f, a...)
	if len(d) > 4000 {
		d = d[:4000]
	}
	r.viols = append(r.viols, violation{Key: key, Detail: d, Case: r.cur})
}

// Cur returns the current case id.
func (r *R) Cur() string { r.mu.Lock(); defer r.mu.Unlock(); return r.cur }

// NViolations returns how many violations were recorded.
func (r *R) NViolations() int {
	r.mu.Lock()
	defer r.mu.Unlock()
	n := 0
	for _, c := range r.violKeys {
		n += c
	}
	return n
}

// Done writes the shard's result.
func (r *R) Done() {
	r.mu.Lock()
	defer r.mu.Unlock()
	if r.finished {
		return
	}
	r.finished = true
	out := map[string]any{
		"transitions": r.trans,
		"execs":       r.execs,
		"cases":       r.ncase,
		"nstates":     len(r.states),
		"exhaustive":  r.exhaustive,
		"samples":     r.samples,
		"outcomes":    r.outcomes,
		"violations":  r.viols,
		"violCounts":  r.violKeys,
		"bounds":      r.bounds,
		"notes":       r.notes,
	}
	b, err := json.Marshal(out)
	if err != nil {
		r.T.Fatal(err)
	}
	if r.outDir == "" {
		b, _ = json.MarshalIndent(out, "", " ")
		fmt.Println(string(b))
		return
	}
	hs := make([]uint64, 0, len(r.states))
	for h := range r.states {
		hs = append(hs, h)
	}
	sort.Slice(hs, func(i, j int) bool { return hs[i] < hs[j] })
	sb := make([]byte, 8*len(hs))
	for i, h := range hs {
		binary.LittleEndian.PutUint64(sb[8*i:], h)
	}
	base := filepath.Join(r.outDir, fmt.Sprintf("shard-%d", r.shard))
	if err := os.WriteFile(base+".states", sb, 0o644); err != nil {
		r.T.Fatal(err)
	}
	if err := os.WriteFile(base+".json", b, 0o644); err != nil {
		r.T.Fatal(err)
	}
}

// Product enumerates all index vectors with the given sizes.
func Product(sizes []int, f func(idx []int) bool) {
	idx := make([]int, len(sizes))
	for _, s := range sizes {
		if s == 0 {
			return
		}
	}
	for {
		if !f(idx) {
			return
		}
		i := len(idx) - 1
		for ; i >= 0; i-- {
			idx[i]++
			if idx[i] < sizes[i] {
				break
			}
			idx[i] = 0
		}
		if i < 0 {
			return
		}
	}
}

// Sequences enumerates all sequences over n symbols with length min to max,
// shortest first.
func Sequences(n, min, max int, f func(seq []int) bool) {
	for l := min; l <= max; l++ {
		sizes := make([]int, l)
		for i := range sizes {
			sizes[i] = n
		}
		stop := false
		if l == 0 {
			if !f(nil) {
				return
			}
			continue
		}
		Product(sizes, func(idx []int) bool {
			if !f(idx) {
				stop = true
				return false
			}
			return true
		})
		if stop {
			return
		}
	}
}

// Subsets enumerates all subsets of n elements as bit masks.
func Subsets(n int, f func(mask int)) {
	for m := 0; m < 1<<n; m++ {
		f(m)
	}
}
