// Package mc explores finite spaces of cases completely and in parallel, and
// keeps the books: distinct states, calls of the implementation, traces
// replayed, outcomes seen, violations with replay files, and the evidence.
package mc

import (
	"encoding/binary"
	"encoding/json"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"runtime"
	"runtime/debug"
	"runtime/metrics"
	"sort"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"syscall"
	"time"
)

// Check is the code that decides one property.
type Check struct {
	ID    string
	Level string
	// Rule says what is enumerated and what a state is.
	Rule        string
	Assumptions []string
	// Need lists outcomes that must have been seen for the run to mean
	// anything.
	Need []string
	// Light checks use their thorough bounds on every run and the Deep ones
	// on thorough runs.
	Light bool
	Run   func(r *Run)
}

// Run is one run of a check.
type Run struct {
	Check    *Check
	Thorough bool
	Deep     bool
	Seed     int64

	dir      string
	start    time.Time
	deadline time.Time
	replay   string
	isReplay bool
	known    map[string]string
	journal  []byte

	stop    atomic.Bool
	expired atomic.Bool
	slots   []slot

	mu        sync.Mutex
	states    [64]shard
	trans     int64
	traces    int64
	evals     int64
	outcomes  map[string]int64
	samples   []any
	sampleAt  int64
	hits      map[string]string
	violation *Violation
	extra     map[string]any
}

type shard struct {
	mu sync.Mutex
	m  map[uint64]struct{}
}

type slot struct {
	since atomic.Int64
	key   atomic.Pointer[string]
}

// Violation is a case in which the property does not hold.
type Violation struct {
	Property string `json:"property"`
	Case     string `json:"case"`
	What     string `json:"what"`
	Again    string `json:"reproduced,omitempty"`
	Replay   string `json:"replay"`
}

// W is a worker of a run. Its counters are its own until it is done.
type W struct {
	R        *Run
	slot     int
	trans    int64
	traces   int64
	evals    int64
	outcomes map[string]int64
}

const slotSize = 1 << 17

// hang is how long one case, which takes micro- to milliseconds, may run before
// it counts as not terminating.
const hang = 90 * time.Second

// Dir is the root of the verification framework.
func Dir() string {
	if d := os.Getenv("VERIF_DIR"); d != "" {
		return d
	}
	return "/verif"
}

// Repo is the root of the repository.
func Repo() string {
	if d := os.Getenv("VERIF_REPO"); d != "" {
		return d
	}
	return "/repo"
}

// Main runs the check named on the command line.
func Main(checks []*Check) {
	// the zone of the machine must not matter
	time.Local = time.FixedZone("local", 5*3600+45*60)
	if len(os.Args) < 2 {
		for _, c := range checks {
			fmt.Println(c.ID)
		}
		os.Exit(2)
	}
	var c *Check
	for _, x := range checks {
		if x.ID == os.Args[1] {
			c = x
		}
	}
	if c == nil {
		fmt.Fprintln(os.Stderr, "no check", os.Args[1])
		os.Exit(2)
	}
	if os.Getenv("VERIF_CHILD") == "" {
		os.Exit(parent(c))
	}
	os.Exit(child(c))
}

// parent runs the check in a child process, so that a crash that cannot be
// recovered (stack overflow, concurrent map writes, out of memory) is reported
// with the case that was running.
func parent(c *Check) int {
	jf, err := os.CreateTemp("", "verif-journal-")
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	defer os.Remove(jf.Name())
	jf.Truncate(int64(slotSize * (runtime.NumCPU() + 2)))
	jf.Close()
	self, _ := os.Executable()
	start := time.Now()
	var code int
	var errOut *tail
	for try := 0; ; try++ {
		cmd := exec.Command(self, os.Args[1:]...)
		cmd.Env = append(os.Environ(), "VERIF_CHILD="+jf.Name())
		cmd.Stdout = os.Stdout
		errOut = &tail{max: 1 << 18}
		cmd.Stderr = errOut
		err = cmd.Run()
		code = 0
		if err == nil {
			break
		}
		code = 2
		if ee, ok := err.(*exec.ExitError); ok {
			code = ee.ExitCode()
		}
		if code == 0 || code == 1 || code == 3 {
			break
		}
		fmt.Fprintln(os.Stderr, "the run ended with", err)
		// killed from outside, or not started: a machine short of memory
		if len(errOut.bytes()) > 0 || try > 0 || time.Since(start) > 200*time.Second {
			break
		}
	}
	if code == 0 || code == 1 || code == 3 {
		os.Stderr.Write(errOut.bytes())
		if code == 3 {
			return 2
		}
		return code
	}
	text := string(errOut.bytes())
	os.Stderr.WriteString(text)
	if !strings.Contains(text, "fatal error:") && !strings.Contains(text, "panic:") && !strings.Contains(text, "\nSIG") && !strings.HasPrefix(text, "SIG") {
		return 2
	}
	if !strings.Contains(text, "github.com/flowchartsman/aql/") || !mentionsRepo(text) {
		return 2
	}
	data, _ := os.ReadFile(jf.Name())
	var running []string
	for i := 0; i+slotSize <= len(data); i += slotSize {
		n := int(binary.LittleEndian.Uint64(data[i:]))
		if n > 0 && n <= slotSize-8 {
			running = append(running, string(data[i+8:i+8+n]))
		}
	}
	v := &Violation{Property: c.ID, Case: strings.Join(running, "\n"), What: "the process crashed while these cases were running: " + firstLines(text, 30)}
	v.report()
	writeEvidence(c, nil, 1, map[string]any{"states": len(running), "transitions": 0, "traces_validated_against_impl": 0, "crashed": true}, time.Now(), false)
	return 1
}

// mentionsRepo reports whether a stack has a frame in the repository's own code.
func mentionsRepo(s string) bool {
	for _, l := range strings.Split(s, "\n") {
		if strings.Contains(l, "github.com/flowchartsman/aql/") && !strings.Contains(l, "zz_verif") {
			return true
		}
	}
	return false
}

type tail struct {
	max  int
	head []byte
}

func (t *tail) Write(p []byte) (int, error) {
	if room := t.max - len(t.head); room > 0 {
		if len(p) < room {
			room = len(p)
		}
		t.head = append(t.head, p[:room]...)
	}
	return len(p), nil
}

func (t *tail) bytes() []byte { return t.head }

func firstLines(s string, n int) string {
	ls := strings.Split(s, "\n")
	if len(ls) > n {
		ls = ls[:n]
	}
	return strings.Join(ls, "\n")
}

func child(c *Check) int {
	thorough := os.Getenv("VERIF_TIER") == "thorough"
	r := &Run{
		Check:    c,
		Thorough: thorough || c.Light,
		Deep:     thorough,
		Seed:     1,
		dir:      Dir(),
		start:    time.Now(),
		known:    map[string]string{},
		hits:     map[string]string{},
		outcomes: map[string]int64{},
		extra:    map[string]any{},
	}
	if s, err := strconv.ParseInt(os.Getenv("VERIF_SEED"), 10, 64); err == nil {
		r.Seed = s
	}
	limit := 400 * time.Second
	if thorough {
		limit = 780 * time.Second
	}
	r.deadline = r.start.Add(limit)
	for i := range r.states {
		r.states[i].m = map[uint64]struct{}{}
	}
	r.slots = make([]slot, runtime.NumCPU()+2)
	if len(os.Args) > 3 && os.Args[2] == "--replay" {
		b, err := os.ReadFile(os.Args[3])
		if err != nil {
			fmt.Fprintln(os.Stderr, err)
			return 3
		}
		var v Violation
		if err := json.Unmarshal(b, &v); err != nil {
			fmt.Fprintln(os.Stderr, err)
			return 3
		}
		r.replay, r.isReplay = v.Case, true
	}
	r.loadKnown()
	if jf, err := os.OpenFile(os.Getenv("VERIF_CHILD"), os.O_RDWR, 0); err == nil {
		r.journal, _ = syscall.Mmap(int(jf.Fd()), 0, slotSize*len(r.slots), syscall.PROT_READ|syscall.PROT_WRITE, syscall.MAP_SHARED)
		jf.Close()
	}
	debug.SetMaxStack(512 << 20)
	debug.SetGCPercent(1000)
	debug.SetMemoryLimit(8 << 30)
	go r.watch()
	c.Run(r)
	return r.finish()
}

func (r *Run) loadKnown() {
	b, err := os.ReadFile(filepath.Join(r.dir, "known-findings.txt"))
	if err != nil {
		return
	}
	for _, l := range strings.Split(string(b), "\n") {
		rest, ok := strings.CutPrefix(l, "known: property="+r.Check.ID+" case=")
		if !ok {
			continue
		}
		q, err := strconv.QuotedPrefix(rest)
		if err != nil {
			continue
		}
		key, _ := strconv.Unquote(q)
		r.known[key] = strings.TrimSpace(rest[len(q):])
	}
}

// watch reports a case that does not come to an end.
func (r *Run) watch() {
	heap := []metrics.Sample{{Name: "/memory/classes/heap/objects:bytes"}}
	for range time.Tick(time.Second) {
		now := time.Now().UnixNano()
		for i := range r.slots {
			t := r.slots[i].since.Load()
			if t != 0 && now-t > int64(hang) {
				k := r.slots[i].key.Load()
				r.fail(*k, fmt.Sprintf("still running after %s", hang), "")
				os.Exit(r.finish())
			}
		}
		// a case that eats the memory of the machine
		metrics.Read(heap)
		if heap[0].Value.Uint64() > 12<<30 {
			for i := range r.slots {
				if t := r.slots[i].since.Load(); t != 0 && now-t > int64(5*time.Second) {
					r.fail(*r.slots[i].key.Load(), "still running and the process has 12 GB of live objects", "")
					os.Exit(r.finish())
				}
			}
		}
		if time.Now().After(r.deadline) {
			r.expired.Store(true)
			r.stop.Store(true)
		}
	}
}

// Stopped reports whether the run should end: a violation was found or the time
// is over.
func (r *Run) Stopped() bool { return r.stop.Load() }

// Set records an additional measured figure in the evidence.
func (r *Run) Set(name string, v any) {
	r.mu.Lock()
	r.extra[name] = v
	r.mu.Unlock()
}

// Incomplete records that the space was not enumerated completely.
func (r *Run) Incomplete() { r.expired.Store(true) }

func (r *Run) worker(slot int) *W {
	return &W{R: r, slot: slot, outcomes: map[string]int64{}}
}

func (w *W) done() {
	r := w.R
	r.mu.Lock()
	defer r.mu.Unlock()
	r.trans += w.trans
	r.traces += w.traces
	r.evals += w.evals
	for k, n := range w.outcomes {
		r.outcomes[k] += n
	}
	w.trans, w.traces, w.evals = 0, 0, 0
	w.outcomes = map[string]int64{}
}

// Trouble is what a case panics with that cannot be run, for reasons that have
// nothing to do with the code under test.
type Trouble struct{ Err error }

type stopGen struct{}

// Each runs f on everything gen yields, in parallel.
func Each[T any](r *Run, gen func(yield func(T)), f func(w *W, t T)) {
	EachBatch(r, 16, gen, f)
}

// EachBatch is Each with a given number of items per hand-over.
func EachBatch[T any](r *Run, batch int, gen func(yield func(T)), f func(w *W, t T)) {
	ch := make(chan []T, 64)
	var wg sync.WaitGroup
	n := runtime.NumCPU()
	for i := 0; i < n; i++ {
		wg.Add(1)
		go func(slot int) {
			defer wg.Done()
			w := r.worker(slot)
			defer w.done()
			for b := range ch {
				for _, t := range b {
					if r.Stopped() {
						break
					}
					f(w, t)
				}
			}
		}(i)
	}
	func() {
		defer func() {
			if e := recover(); e != nil {
				if _, ok := e.(stopGen); !ok {
					panic(e)
				}
			}
		}()
		var buf []T
		gen(func(t T) {
			if r.Stopped() {
				panic(stopGen{})
			}
			buf = append(buf, t)
			if len(buf) >= batch {
				ch <- buf
				buf = nil
			}
		})
		if len(buf) > 0 {
			ch <- buf
		}
	}()
	close(ch)
	wg.Wait()
}

// Slice makes a generator of a slice.
func Slice[T any](ts []T) func(func(T)) {
	return func(yield func(T)) {
		for _, t := range ts {
			yield(t)
		}
	}
}

// One runs f on a single worker.
func (r *Run) One(f func(w *W)) {
	if r.Stopped() {
		return
	}
	w := r.worker(len(r.slots) - 1)
	defer w.done()
	f(w)
}

func hash(s string) uint64 {
	h := uint64(14695981039346656037)
	for i := 0; i < len(s); i++ {
		h ^= uint64(s[i])
		h *= 1099511628211
	}
	h ^= h >> 29
	h *= 0xbf58476d1ce4e5b9
	h ^= h >> 32
	return h
}

// State records a state; it reports whether it is new.
func (w *W) State(key string) bool {
	h := hash(key)
	s := &w.R.states[h%64]
	s.mu.Lock()
	_, old := s.m[h]
	if !old {
		s.m[h] = struct{}{}
	}
	s.mu.Unlock()
	return !old
}

// Step counts calls of the implementation.
func (w *W) Step(n int) { w.trans += int64(n) }

// Trace counts a sequence of calls replayed on the implementation and compared
// with the model.
func (w *W) Trace() { w.traces++ }

// Outcome counts an outcome.
func (w *W) Outcome(s string) { w.outcomes[s]++ }

// Case runs one case. The key identifies it and is its state. f returns what is
// wrong, or the empty string.
func (w *W) Case(key string, f func() string) bool {
	r := w.R
	if r.isReplay && key != r.replay {
		return true
	}
	if r.Stopped() {
		return true
	}
	w.State(key)
	w.evals++
	w.sample(key)
	what := w.guard(key, f)
	if what == "" {
		return true
	}
	if d, ok := r.known[key]; ok {
		r.mu.Lock()
		r.hits[key] = d
		r.mu.Unlock()
		return true
	}
	again := 1
	for i := 0; i < 4; i++ {
		if w.guard(key, f) != "" {
			again++
		}
	}
	r.fail(key, what, fmt.Sprintf("%d of 5 runs", again))
	return false
}

func (w *W) sample(key string) {
	// samples at growing distances, so that they come from all over the run
	r := w.R
	if w.evals&(w.evals-1) != 0 {
		return
	}
	r.mu.Lock()
	if len(r.samples) < 40 {
		if len(key) > 300 {
			key = key[:300] + "..."
		}
		r.samples = append(r.samples, key)
	}
	r.mu.Unlock()
}

func (w *W) guard(key string, f func() string) (what string) {
	r := w.R
	s := &r.slots[w.slot]
	s.key.Store(&key)
	s.since.Store(time.Now().UnixNano())
	if r.journal != nil {
		j := r.journal[w.slot*slotSize : (w.slot+1)*slotSize]
		n := copy(j[8:], key)
		binary.LittleEndian.PutUint64(j, uint64(n))
	}
	defer func() {
		s.since.Store(0)
		if r.journal != nil {
			binary.LittleEndian.PutUint64(r.journal[w.slot*slotSize:], 0)
		}
		if e := recover(); e != nil {
			if t, ok := e.(Trouble); ok {
				fmt.Fprintf(os.Stderr, "case %q could not be run: %v\n", key, t.Err)
				os.Exit(3)
			}
			// in the repository's code, or in the check's when it is given
			// something it never is
			st := string(debug.Stack())
			what = fmt.Sprintf("panic: %v\n%s", e, firstLines(st, 40))
		}
	}()
	return f()
}

func (r *Run) fail(key, what, again string) {
	r.mu.Lock()
	defer r.mu.Unlock()
	if r.violation == nil {
		r.violation = &Violation{Property: r.Check.ID, Case: key, What: what, Again: again}
	}
	r.stop.Store(true)
}

// Fail records a violation that is not bound to one case.
func (r *Run) Fail(key, what string) { r.fail(key, what, "") }

func (v *Violation) report() {
	path := filepath.Join(Dir(), "evidence", v.Property+".replay.json")
	v.Replay = "run.sh " + v.Property + " --replay " + path
	b, _ := json.MarshalIndent(v, "", "  ")
	os.MkdirAll(filepath.Dir(path), 0o755)
	os.WriteFile(path, append(b, '\n'), 0o644)
	fmt.Printf("case: %q\nwhat: %s\n", v.Case, v.What)
	fmt.Printf("VIOLATION property=%s replay=%s\n", v.Property, path)
}

func (r *Run) finish() int {
	r.mu.Lock()
	defer r.mu.Unlock()
	states := 0
	for i := range r.states {
		r.states[i].mu.Lock()
		states += len(r.states[i].m)
		r.states[i].mu.Unlock()
	}
	cov := map[string]any{
		"states":                        states,
		"transitions":                   r.trans,
		"traces_validated_against_impl": r.traces,
		"outcomes":                      r.outcomes,
		"rule":                          r.Check.Rule,
		"samples":                       r.samples,
		"exhaustive":                    !r.expired.Load() && r.violation == nil,
	}
	for k, v := range r.extra {
		cov[k] = v
	}
	if r.isReplay {
		if r.violation == nil {
			fmt.Println("the case does not fail")
			return 0
		}
		fmt.Printf("case: %q\nwhat: %s\n", r.violation.Case, r.violation.What)
		return 1
	}
	nv := 0
	if r.violation != nil {
		nv = 1
	}
	writeEvidence(r.Check, r, nv, cov, r.start, r.Deep)
	var keys []string
	for k := range r.hits {
		keys = append(keys, k)
	}
	sort.Strings(keys)
	for _, k := range keys {
		fmt.Printf("KNOWN-FINDING: property=%s %s (case %q)\n", r.Check.ID, r.hits[k], k)
	}
	fmt.Printf("%s: states=%d transitions=%d traces=%d outcomes=%v exhaustive=%v %.1fs\n", r.Check.ID, states, r.trans, r.traces, r.outcomes, cov["exhaustive"], time.Since(r.start).Seconds())
	if r.violation != nil {
		r.violation.report()
		return 1
	}
	if !r.expired.Load() {
		for _, n := range r.Check.Need {
			if r.outcomes[n] == 0 {
				fmt.Fprintf(os.Stderr, "the run never saw outcome %q\n", n)
				return 3
			}
		}
	}
	return 0
}

func writeEvidence(c *Check, r *Run, violations int, cov map[string]any, start time.Time, thorough bool) {
	tier := "quick"
	if os.Getenv("VERIF_TIER") == "thorough" {
		tier = "thorough"
	}
	seed := int64(1)
	if s, err := strconv.ParseInt(os.Getenv("VERIF_SEED"), 10, 64); err == nil {
		seed = s
	}
	level := c.Level
	if level == "" {
		level = "model_checking"
	}
	ev := map[string]any{
		"property":    c.ID,
		"tier":        tier,
		"seed":        seed,
		"level":       level,
		"coverage":    cov,
		"assumptions": append([]string{}, c.Assumptions...),
		"wall_s":      time.Since(start).Seconds(),
		"violations":  violations,
	}
	b, err := json.MarshalIndent(ev, "", "  ")
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(3)
	}
	path := filepath.Join(Dir(), "evidence", c.ID+".json")
	os.MkdirAll(filepath.Dir(path), 0o755)
	if err := os.WriteFile(path, append(b, '\n'), 0o644); err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(3)
	}
}
