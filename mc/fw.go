package main

import (
	"context"
	"encoding/json"
	"fmt"
	"hash/maphash"
	"io"
	"os"
	"os/exec"
	"path/filepath"
	"runtime"
	"runtime/debug"
	"sort"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"syscall"
	"time"
)

// Check is one registered property check.
type Check struct {
	ID    string
	Level string
	Rule  string // how cases are made and what makes one non-trivial
	Run   func(*C)
}

var registry = map[string]*Check{}

func register(c *Check) { registry[c.ID] = c }

const shards = 64

// C is the context of one run.
type C struct {
	chk      *Check
	Tier     string
	seed     int
	start    time.Time
	deadline time.Time
	only     string // replay: run only the case with this key

	evals   atomic.Int64
	trans   atomic.Int64
	beat    atomic.Int64
	capped  atomic.Bool
	late    atomic.Bool
	nontriv [shards]struct {
		sync.Mutex
		m map[uint64]struct{}
	}
	outc [shards]struct {
		sync.Mutex
		m map[uint64]struct{}
	}

	mu       sync.Mutex
	samples  []any
	fails    []failure
	failKeys map[string]bool
	notes    map[string]any
	assume   []string
	slots    [64]atomic.Pointer[slot]
}

type slot struct {
	key func() string
}

type failure struct {
	Key, Detail string
	Known       string
}

var seedHash = maphash.MakeSeed()

func hash64(s string) uint64 { return maphash.String(seedHash, s) }

func (c *C) Thorough() bool { return c.Tier == "thorough" }
func (c *C) Quick() bool    { return !c.Thorough() }

// Pick returns q in the quick tier and t in the thorough tier.
func (c *C) Pick(q, t int) int {
	if c.Thorough() {
		return t
	}
	return q
}

// Expired reports whether the internal deadline has passed; exploration then stops and the run is
// reported as not exhaustive.
func (c *C) Expired() bool {
	if c.late.Load() { // not the clock: it may be a virtual one
		c.capped.Store(true)
		return true
	}
	return false
}

func (c *C) Note(k string, v any) { c.mu.Lock(); c.notes[k] = v; c.mu.Unlock() }

func (c *C) AddNote(k string, n int64) {
	c.mu.Lock()
	v, _ := c.notes[k].(int64)
	c.notes[k] = v + n
	c.mu.Unlock()
}

// Sample keeps a few actual cases for the evidence file.
func (c *C) Sample(v any) {
	c.mu.Lock()
	if len(c.samples) < 12 {
		c.samples = append(c.samples, v)
	}
	c.mu.Unlock()
}

func (c *C) wantSample() bool {
	n := c.evals.Load()
	return n&(n-1) == 0 // powers of two: spread over the run
}

// Distinct records a distinct non-trivial case.
func (c *C) Distinct(key string) {
	h := hash64(key)
	s := &c.nontriv[h%shards]
	s.Lock()
	if s.m == nil {
		s.m = make(map[uint64]struct{})
	}
	if len(s.m) < 200_000 {
		s.m[h] = struct{}{}
	}
	s.Unlock()
}

// Outcome records a distinct observed outcome.
func (c *C) Outcome(key string) {
	h := hash64(key)
	s := &c.outc[h%shards]
	s.Lock()
	if s.m == nil {
		s.m = make(map[uint64]struct{})
	}
	if len(s.m) < 50_000 {
		s.m[h] = struct{}{}
	}
	s.Unlock()
}

func (c *C) distinctCount() (n, o int64) {
	for i := range c.nontriv {
		n += int64(len(c.nontriv[i].m))
		o += int64(len(c.outc[i].m))
	}
	return
}

// protect runs f and turns a panic into an error text.
func protect(f func() string) (res string) {
	defer func() {
		if r := recover(); r != nil {
			st := string(debug.Stack())
			res = fmt.Sprintf("panic: %v\n%s", r, trimStack(st))
		}
	}()
	return f()
}

func trimStack(s string) string {
	var out []string
	for _, l := range strings.Split(s, "\n") {
		if strings.Contains(l, "spreak") && !strings.HasPrefix(l, "\t") {
			out = append(out, strings.TrimSpace(l))
		}
		if len(out) > 6 {
			break
		}
	}
	return strings.Join(out, " <- ")
}

// Case runs one case. f returns "" if the property held, otherwise what went wrong. key identifies
// the case exactly and is stable from run to run.
func (c *C) Case(key func() string, f func() string) bool {
	return c.caseW(0, key, f)
}

func (c *C) caseW(w int, key func() string, f func() string) bool {
	if c.only != "" && key() != c.only {
		return true
	}
	c.slots[w].Store(&slot{key})
	c.beat.Add(1)
	if traceDir != "" {
		trace(w, key())
	}
	res := protect(f)
	c.evals.Add(1)
	c.slots[w].Store(nil)
	if c.wantSample() {
		c.Sample(key())
	}
	if res == "" {
		return true
	}
	c.fail(key(), res, f)
	return false
}

func (c *C) fail(key, detail string, again func() string) {
	c.mu.Lock()
	if c.failKeys[key] || len(c.fails) >= 200 {
		c.mu.Unlock()
		return
	}
	c.failKeys[key] = true
	c.mu.Unlock()
	if again != nil {
		for i := 0; i < 5; i++ {
			if r := protect(again); r == "" {
				c.mu.Lock()
				c.notes["unconfirmed"] = fmt.Sprintf("%s: %s (did not repeat)", key, detail)
				c.mu.Unlock()
				return
			}
		}
	}
	f := failure{Key: key, Detail: detail, Known: known[c.chk.ID][key]}
	c.mu.Lock()
	c.fails = append(c.fails, f)
	c.mu.Unlock()
}

// Unknown reports the number of failures that are not listed as known findings.
func (c *C) Unknown() int {
	c.mu.Lock()
	defer c.mu.Unlock()
	n := 0
	for _, f := range c.fails {
		if f.Known == "" {
			n++
		}
	}
	return n
}

// Par distributes 0..n-1 over workers in contiguous strides. body must use w for caseW.
func (c *C) Par(n int, body func(w, i int)) {
	workers := min(runtime.GOMAXPROCS(0), 8)
	if c.only != "" {
		workers = 1
	}
	var next atomic.Int64
	var wg sync.WaitGroup
	for w := 0; w < workers; w++ {
		wg.Add(1)
		go func(w int) {
			defer wg.Done()
			for {
				i := int(next.Add(1)) - 1
				if i >= n || c.Expired() || c.Unknown() >= 40 {
					return
				}
				body(w, i)
			}
		}(w)
	}
	wg.Wait()
}

var known = map[string]map[string]string{} // property -> key -> what

func loadKnown(root string) {
	b, err := os.ReadFile(filepath.Join(root, "known_findings.jsonl"))
	if err != nil {
		return
	}
	for _, l := range strings.Split(string(b), "\n") {
		l = strings.TrimSpace(l)
		if l == "" || strings.HasPrefix(l, "#") || strings.HasPrefix(l, "fixed:") {
			continue
		}
		var e struct{ Property, Key, What string }
		if err := json.Unmarshal([]byte(l), &e); err != nil {
			fmt.Fprintln(os.Stderr, "known_findings:", err)
			continue
		}
		if known[e.Property] == nil {
			known[e.Property] = map[string]string{}
		}
		known[e.Property][e.Key] = e.What
	}
}

func cpuTime() time.Duration {
	var ru syscall.Rusage
	_ = syscall.Getrusage(syscall.RUSAGE_SELF, &ru)
	return time.Duration(ru.Utime.Nano() + ru.Stime.Nano())
}

func rssMB() int {
	b, err := os.ReadFile("/proc/self/statm")
	if err != nil {
		return 0
	}
	f := strings.Fields(string(b))
	if len(f) < 2 {
		return 0
	}
	n, _ := strconv.Atoi(f[1])
	return n * os.Getpagesize() >> 20
}

const rssLimitMB = 12_000

// watchdog turns a case that never returns, or eats all memory, into a violation. Only processor time
// counts, so a stalled machine raises no alarm.
func (c *C) watchdog(root string) {
	last, lastCPU := c.beat.Load(), cpuTime()
	for {
		time.Sleep(200 * time.Millisecond)
		b, cpu := c.beat.Load(), cpuTime()
		hung := b == last && cpu-lastCPU > 90*time.Second
		big := rssMB() > rssLimitMB
		if b != last {
			last, lastCPU = b, cpu
		}
		if time.Now().After(c.deadline) {
			c.late.Store(true)
		}
		if time.Now().After(c.deadline.Add(90 * time.Second)) {
			c.capped.Store(true)
			c.Note("stopped", "hard deadline")
			os.Exit(c.finish(root))
		}
		if !hung && !big {
			continue
		}
		any := false
		for i := range c.slots {
			if s := c.slots[i].Load(); s != nil {
				why := "the call does not return (90 s of processor time)"
				if big {
					why = "the call uses memory without bound"
				}
				c.fail(s.key(), why, nil)
				any = true
			}
		}
		if any {
			os.Exit(c.finish(root))
		}
		lastCPU = cpu
	}
}

func (c *C) finish(root string) int {
	c.mu.Lock()
	defer c.mu.Unlock()
	ev := c.evals.Load()
	d, o := c.distinctCount()
	cov := map[string]any{
		"rule":       c.chk.Rule,
		"exhaustive": !c.capped.Load(),
	}
	if c.chk.Level == "model_checking" {
		cov["states"] = d
		cov["transitions"] = c.trans.Load()
		cov["traces_validated_against_impl"] = ev
	} else {
		cov["evaluations"] = ev
		cov["distinct_nontrivial"] = d
	}
	if o > 0 {
		cov["distinct_outcomes"] = o
	}
	for k, v := range c.notes {
		cov[k] = v
	}
	if len(c.samples) == 0 {
		c.samples = append(c.samples, "none")
	}
	cov["samples"] = c.samples
	bad := 0
	sort.Slice(c.fails, func(i, j int) bool {
		if len(c.fails[i].Key) != len(c.fails[j].Key) {
			return len(c.fails[i].Key) < len(c.fails[j].Key)
		}
		return c.fails[i].Key < c.fails[j].Key
	})
	dir := filepath.Join(root, "evidence", "replay")
	_ = os.MkdirAll(dir, 0o755)
	first := ""
	for i, f := range c.fails {
		if f.Known != "" {
			fmt.Printf("KNOWN-FINDING: property=%s %s\n", c.chk.ID, f.Known)
			continue
		}
		bad++
		if bad > 10 {
			continue
		}
		p := filepath.Join(dir, fmt.Sprintf("%s-%d.json", c.chk.ID, i))
		b, _ := json.MarshalIndent(map[string]any{"property": c.chk.ID, "tier": c.Tier, "key": f.Key, "detail": f.Detail}, "", " ")
		_ = os.WriteFile(p, b, 0o644)
		fmt.Printf("-- %s\n   case: %s\n   %s\n", c.chk.ID, f.Key, f.Detail)
		if first == "" {
			first = p
		}
	}
	e := map[string]any{
		"property": c.chk.ID, "tier": c.Tier, "seed": c.seed, "level": c.chk.Level,
		"coverage": cov, "wall_s": time.Since(c.start).Seconds(), "violations": bad,
	}
	if len(c.assume) > 0 {
		e["assumptions"] = c.assume
	}
	b, err := json.MarshalIndent(e, "", " ")
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
	}
	if c.only == "" {
		if err := os.WriteFile(filepath.Join(root, "evidence", c.chk.ID+".json"), b, 0o644); err != nil {
			fmt.Fprintln(os.Stderr, err)
		}
	}
	fmt.Printf("%s %s: %d evaluations, %d distinct, %d outcomes, exhaustive=%v, %d violations, %.1fs\n",
		c.chk.ID, c.Tier, ev, d, o, !c.capped.Load(), bad, time.Since(c.start).Seconds())
	if bad > 0 {
		fmt.Printf("VIOLATION property=%s replay=%s\n", c.chk.ID, first)
		return 1
	}
	return 0
}

func main() {
	debug.SetGCPercent(600)
	debug.SetMemoryLimit(10 << 30)
	root := os.Getenv("VERIF_ROOT")
	if root == "" {
		root = "/verif"
	}
	if len(os.Args) < 2 {
		fmt.Println("usage: mc ID | replay FILE")
		os.Exit(2)
	}
	if os.Args[1] == "c03ref" {
		ref03(os.Args[2:])
	}
	if os.Args[1] == "c07run" {
		run07(os.Args[2:])
	}
	if os.Args[1] == "c02run" {
		run02(os.Args[2:])
	}
	if os.Getenv(innerEnv) == "" {
		os.Exit(supervise(root))
	}
	loadKnown(root)
	id, only := os.Args[1], ""
	tier := os.Getenv("VERIF_TIER")
	if id == "replay" {
		var r struct{ Property, Tier, Key string }
		b, err := os.ReadFile(os.Args[2])
		if err == nil {
			err = json.Unmarshal(b, &r)
		}
		if err != nil {
			fmt.Println(err)
			os.Exit(2)
		}
		id, only, tier = r.Property, r.Key, r.Tier
	}
	chk := registry[id]
	if chk == nil {
		fmt.Println("unknown check", id)
		os.Exit(2)
	}
	if tier != "thorough" {
		tier = "quick"
	}
	seed, _ := strconv.Atoi(os.Getenv("VERIF_SEED"))
	_ = os.MkdirAll(filepath.Join(root, "evidence"), 0o755)
	limit := 240 * time.Second
	if tier == "thorough" {
		limit = 600 * time.Second
	}
	c := &C{chk: chk, Tier: tier, seed: seed, start: time.Now(), only: only,
		failKeys: map[string]bool{}, notes: map[string]any{}}
	c.deadline = c.start.Add(limit)
	go c.watchdog(root)
	chk.Run(c)
	os.Exit(c.finish(root))
}

// ---- crashes of the whole process (stack overflow, unrecovered panic) are violations, too

const innerEnv, traceEnv = "MC_INNER", "MC_TRACE"

var traceDir = os.Getenv(traceEnv)
var traceFiles [64]*os.File

func trace(w int, key string) {
	if traceFiles[w] == nil {
		f, err := os.Create(filepath.Join(traceDir, strconv.Itoa(w)))
		if err != nil {
			return
		}
		traceFiles[w] = f
	}
	_ = traceFiles[w].Truncate(0)
	_, _ = traceFiles[w].WriteAt([]byte(key), 0)
}

// headBuffer keeps the beginning of what a process says.
type headBuffer struct{ b []byte }

func (h *headBuffer) Write(p []byte) (int, error) {
	if room := 1<<16 - len(h.b); room > 0 {
		h.b = append(h.b, p[:min(room, len(p))]...)
	}
	return len(p), nil
}

// crashed returns the reason if a process ended because the Go runtime gave up.
func crashed(stderr string) string {
	for _, l := range strings.Split(stderr, "\n") {
		if strings.HasPrefix(l, "panic: ") || strings.HasPrefix(l, "fatal error: ") {
			if strings.Contains(l, "out of memory") || strings.Contains(l, "cannot allocate") {
				return "" // says nothing about the code
			}
			return l
		}
	}
	return ""
}

func inner(quiet bool, limit time.Duration, env []string, args ...string) (code int, why string) {
	exe, err := os.Executable()
	if err != nil {
		return 2, ""
	}
	ctx, cancel := context.WithTimeout(context.Background(), limit)
	defer cancel()
	cmd := exec.CommandContext(ctx, exe, args...)
	cmd.Env = append(append(os.Environ(), innerEnv+"=1"), env...)
	var head headBuffer
	cmd.Stderr = &head
	if !quiet {
		cmd.Stdout = os.Stdout
		cmd.Stderr = io.MultiWriter(&shortWriter{left: 60}, &head)
	}
	if err := cmd.Run(); err == nil {
		return 0, ""
	}
	code = cmd.ProcessState.ExitCode()
	if code == 1 {
		return 1, ""
	}
	return code, crashed(string(head.b))
}

// shortWriter passes the first lines on to stderr; a crash prints thousands.
type shortWriter struct{ left int }

func (w *shortWriter) Write(p []byte) (int, error) {
	for _, line := range strings.SplitAfter(string(p), "\n") {
		if w.left <= 0 {
			break
		}
		_, _ = os.Stderr.WriteString(line)
		w.left -= strings.Count(line, "\n")
	}
	return len(p), nil
}

// supervise runs the check in a process of its own. If that crashes, twice, the crash is the violation.
func supervise(root string) int {
	start := time.Now()
	code, why := inner(false, time.Hour, nil, os.Args[1:]...)
	if code == 0 || code == 1 || why == "" {
		return code
	}
	id, tier := os.Args[1], os.Getenv("VERIF_TIER")
	key := ""
	if id == "replay" {
		var r struct{ Property, Tier, Key string }
		if b, err := os.ReadFile(os.Args[2]); err != nil || json.Unmarshal(b, &r) != nil {
			return code
		}
		id, tier, key = r.Property, r.Tier, r.Key
	}
	file := filepath.Join(root, "evidence", "replay", id+"-crash.json")
	write := func(key string) {
		_ = os.MkdirAll(filepath.Dir(file), 0o755)
		b, _ := json.MarshalIndent(map[string]any{"property": id, "tier": tier, "key": key, "detail": why}, "", " ")
		_ = os.WriteFile(file, b, 0o644)
	}
	if os.Args[1] != "replay" {
		// once more, noting the cases; then the cases that were being run, one by one
		dir, err := os.MkdirTemp("", "mc-trace")
		if err != nil {
			return code
		}
		defer os.RemoveAll(dir)
		if _, again := inner(true, 400*time.Second, []string{traceEnv + "=" + dir}, os.Args[1:]...); again == "" {
			return code
		}
		for w := 0; w < 64 && key == "" && time.Since(start) < 500*time.Second; w++ {
			if b, err := os.ReadFile(filepath.Join(dir, strconv.Itoa(w))); err == nil {
				write(string(b))
				if _, again := inner(true, 60*time.Second, nil, "replay", file); again != "" {
					key = string(b)
				}
			}
		}
	}
	write(key)
	fmt.Printf("-- %s\n   case: %s\n   the process ended: %s\nVIOLATION property=%s replay=%s\n", id, key, why, id, file)
	return 1
}

// ---- small helpers shared by the checks

func q(s string) string { return strconv.Quote(s) }

func diff(what, got, want string) string {
	if got == want {
		return ""
	}
	return fmt.Sprintf("%s: got %q, want %q", what, got, want)
}

func errText(err error) string {
	if err == nil {
		return "<nil>"
	}
	return err.Error()
}

// product calls f with every tuple of indices below dims.
func product(dims []int, f func(ix []int)) {
	ix := make([]int, len(dims))
	for _, d := range dims {
		if d == 0 {
			return
		}
	}
	for {
		f(ix)
		k := len(dims) - 1
		for k >= 0 {
			ix[k]++
			if ix[k] < dims[k] {
				break
			}
			ix[k] = 0
			k--
		}
		if k < 0 {
			return
		}
	}
}

// tuple decodes i into indices below dims (mixed radix).
func tuple(i int, dims []int) []int {
	ix := make([]int, len(dims))
	for k := len(dims) - 1; k >= 0; k-- {
		ix[k] = i % dims[k]
		i /= dims[k]
	}
	return ix
}

func size(dims []int) int {
	n := 1
	for _, d := range dims {
		n *= d
	}
	return n
}

// permutations calls f with every permutation of 0..n-1.
func permutations(n int, f func(p []int)) {
	p := make([]int, n)
	for i := range p {
		p[i] = i
	}
	var rec func(k int)
	rec = func(k int) {
		if k == n {
			f(p)
			return
		}
		for i := k; i < n; i++ {
			p[k], p[i] = p[i], p[k]
			rec(k + 1)
			p[k], p[i] = p[i], p[k]
		}
	}
	rec(0)
}
