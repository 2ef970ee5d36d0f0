package main

import (
	"context"
	"encoding/json"
	"fmt"
	"hash/fnv"
	"math/rand"
	"os"
	"runtime"
	"runtime/debug"
	"sort"
	"strings"
	"sync"
	"sync/atomic"
	"syscall"
	"time"
)

// Check is one property check: a fixed, seed-determined list of cases, each run
// against the real code under monitors.
type Check struct {
	ID        string
	Race      bool // run in the race-instrumented binary; race reports are violations
	Level     string
	Rule      string
	Assume    []string
	Quick     int // number of cases
	Thorough  int
	Shards    int // max parallel processes (0 = 8)
	PerProc   int // max cases per process (0 = unlimited); fresh process afterwards
	StallSecs int // progress watchdog (0 = default)
	Setup     func() error
	Run       func(c *C)
}

var registry = map[string]*Check{}

func register(c *Check) {
	if c.Level == "" {
		c.Level = "exploration"
	}
	registry[c.ID] = c
}

type failure struct{ msg string }

// C is the context of one case.
type C struct {
	Check    *Check
	Idx      int
	Seed     int64
	Tier     string
	Rng      *rand.Rand
	Ctx      context.Context
	mu       sync.Mutex
	trace    []string
	counters map[string]int64
	sig      uint64
	nontriv  bool
	sample   string
	async    *failure
	known    map[string]string
	cleanup  []func()
}

var progress int64 // bumped by every Tick

// Tick tells the watchdog the case is making progress.
func (c *C) Tick() { atomic.AddInt64(&progress, 1) }

// Logf adds a line to the case's history, shown with a violation.
func (c *C) Logf(format string, a ...interface{}) {
	atomic.AddInt64(&progress, 1)
	c.mu.Lock()
	s := fmt.Sprintf(format, a...)
	if len(s) > 600 {
		s = s[:600] + "..."
	}
	c.trace = append(c.trace, s)
	if len(c.trace) > 4000 {
		c.trace = append(c.trace[:0:0], c.trace[2000:]...)
	}
	c.mu.Unlock()
}

// Failf reports a violation and aborts the case. Only from the case goroutine.
func (c *C) Failf(format string, a ...interface{}) {
	panic(failure{fmt.Sprintf(format, a...)})
}

// FailAsync reports a violation from any goroutine.
func (c *C) FailAsync(format string, a ...interface{}) {
	c.mu.Lock()
	if c.async == nil {
		c.async = &failure{fmt.Sprintf(format, a...)}
	}
	c.mu.Unlock()
}

// CheckAsync aborts the case if a goroutine reported a violation.
func (c *C) CheckAsync() {
	c.mu.Lock()
	f := c.async
	c.mu.Unlock()
	if f != nil {
		panic(*f)
	}
}

// Failed returns whether an async failure was reported.
func (c *C) Failed() bool {
	c.mu.Lock()
	defer c.mu.Unlock()
	return c.async != nil
}

// Known reports that the specific finding key was observed. If it is listed in
// the known findings file it is only reported, otherwise it is a violation.
func (c *C) Known(key, what string) {
	c.mu.Lock()
	if c.known == nil {
		c.known = map[string]string{}
	}
	c.known[key] = what
	c.mu.Unlock()
}

// Count adds to an evidence counter.
func (c *C) Count(name string, n int64) {
	c.mu.Lock()
	c.counters[name] += n
	c.mu.Unlock()
}

// Max keeps the maximum seen (summed into "max_"+name).
func (c *C) Max(name string, n int64) {
	c.mu.Lock()
	if c.counters["max_"+name] < n {
		c.counters["max_"+name] = n
	}
	c.mu.Unlock()
}

// Sig mixes a value into the signature that identifies what this case covered.
func (c *C) Sig(a ...interface{}) {
	h := fnv.New64a()
	fmt.Fprint(h, a...)
	c.mu.Lock()
	c.sig = c.sig*1099511628211 + h.Sum64()
	c.mu.Unlock()
}

// NonTrivial marks the case as having exercised what the property is about.
func (c *C) NonTrivial() { c.mu.Lock(); c.nontriv = true; c.mu.Unlock() }

// Sample sets the description of this case for the evidence file.
func (c *C) Sample(format string, a ...interface{}) {
	c.mu.Lock()
	c.sample = fmt.Sprintf(format, a...)
	c.mu.Unlock()
}

// Cleanup registers fn to be run when the case ends.
func (c *C) Cleanup(fn func()) { c.cleanup = append(c.cleanup, fn) }

// TempDir returns a scratch directory removed at the end of the case.
func (c *C) TempDir() string {
	d, err := os.MkdirTemp(scratchDir(), "case")
	if err != nil {
		panic(err)
	}
	c.Cleanup(func() { os.RemoveAll(d) })
	return d
}

func scratchDir() string {
	if d := os.Getenv("VH_SCRATCH"); d != "" {
		return d
	}
	return os.TempDir()
}

// result is what a child process reports for each case.
type result struct {
	Case     int
	Start    bool              `json:",omitempty"`
	Viol     string            `json:",omitempty"`
	Kind     string            `json:",omitempty"` // "", violation, harness, deadlock, stall
	Trace    []string          `json:",omitempty"`
	Sig      uint64            `json:",omitempty"`
	NonTriv  bool              `json:",omitempty"`
	Sample   string            `json:",omitempty"`
	Counters map[string]int64  `json:",omitempty"`
	Known    map[string]string `json:",omitempty"`
}

func caseSeed(seed int64, id string, idx int) int64 {
	h := fnv.New64a()
	fmt.Fprintf(h, "%d/%s/%d", seed, id, idx)
	return int64(h.Sum64() >> 1)
}

const modPath = "github.com/Vivino/rankdb"

// hasTarget tells whether the stack contains a frame of the code under test.
func hasTarget(stack string) bool {
	return strings.Contains(stack, modPath+".") || strings.Contains(stack, modPath+"/")
}

func runCase(ck *Check, seed int64, tier string, idx int) (res result) {
	cs := caseSeed(seed, ck.ID, idx)
	ctx, cancel := context.WithCancel(context.Background())
	c := &C{Check: ck, Idx: idx, Seed: cs, Tier: tier, Rng: rand.New(rand.NewSource(cs)), counters: map[string]int64{}, Ctx: ctx}
	atomic.AddInt64(&progress, 1)
	res.Case = idx
	func() {
		defer func() {
			if r := recover(); r != nil {
				if f, ok := r.(failure); ok {
					res.Viol, res.Kind = f.msg, "violation"
					return
				}
				st := string(debug.Stack())
				if a, ok := r.(interface{ Addr() uintptr }); ok {
					// The harness has no unsafe code: the memory came from the code under test.
					res.Viol, res.Kind = fmt.Sprintf("memory handed out by the code under test is not valid (fault at %#x): %v\n%s", a.Addr(), r, st), "violation"
					return
				}
				// The panicking frame is the first one below runtime panic frames.
				if panicInTarget(st) {
					res.Viol, res.Kind = fmt.Sprintf("panic in code under test: %v\n%s", r, st), "violation"
				} else {
					res.Viol, res.Kind = fmt.Sprintf("harness panic: %v\n%s", r, st), "harness"
				}
			}
		}()
		debug.SetPanicOnFault(true)
		ck.Run(c)
		c.CheckAsync()
	}()
	cancel()
	func() {
		defer func() { _ = recover() }()
		for i := len(c.cleanup) - 1; i >= 0; i-- {
			c.cleanup[i]()
		}
	}()
	c.mu.Lock()
	defer c.mu.Unlock()
	if res.Viol == "" && c.async != nil {
		res.Viol, res.Kind = c.async.msg, "violation"
	}
	if res.Viol != "" {
		res.Trace = c.trace
	}
	res.Sig, res.NonTriv, res.Sample, res.Counters, res.Known = c.sig, c.nontriv, c.sample, c.counters, c.known
	return res
}

// panicInTarget decides whether the code that panicked belongs to the code
// under test: the first frame outside the runtime and standard library counts.
func panicInTarget(stack string) bool {
	i := strings.LastIndex(stack, "panic(")
	if i >= 0 {
		stack = stack[i:]
	}
	return firstOwner(stack) == "target"
}

// firstOwner walks the function lines of a stack and returns "target" or
// "harness" for the first frame that belongs to either, "other" otherwise.
func firstOwner(stack string) string {
	for _, l := range strings.Split(stack, "\n") {
		l = strings.TrimSpace(l)
		switch {
		case strings.HasPrefix(l, modPath):
			return "target"
		case strings.HasPrefix(l, "main."), strings.HasPrefix(l, "verif.local/"):
			return "harness"
		}
	}
	return "other"
}

// --- watchdog -------------------------------------------------------------

type gor struct {
	id, state, body string
}

func dumpGoroutines() []gor {
	buf := make([]byte, 8<<20)
	n := runtime.Stack(buf, true)
	var out []gor
	for _, blk := range strings.Split(string(buf[:n]), "\n\n") {
		blk = strings.TrimSpace(blk)
		if !strings.HasPrefix(blk, "goroutine ") {
			continue
		}
		nl := strings.IndexByte(blk, '\n')
		if nl < 0 {
			continue
		}
		head, body := blk[:nl], blk[nl+1:]
		head = strings.TrimPrefix(head, "goroutine ")
		sp := strings.IndexByte(head, ' ')
		st := strings.Trim(head[sp+1:], "[]:")
		if i := strings.IndexByte(st, ','); i >= 0 {
			st = st[:i]
		}
		out = append(out, gor{id: head[:sp], state: st, body: body})
	}
	return out
}

func blockedState(s string) bool {
	switch s {
	case "sync.Mutex.Lock", "sync.RWMutex.Lock", "sync.RWMutex.RLock", "sync.WaitGroup.Wait", "semacquire", "sync.Cond.Wait",
		"chan send", "chan receive", "select", "chan send (nil chan)", "chan receive (nil chan)", "select (no cases)":
		return true
	}
	return false
}

// deadlocked looks at all goroutines. It returns a description when at least
// one goroutine is blocked inside the code under test in a lock or channel
// operation and no goroutine that involves the code under test or the harness can run.
func deadlocked() (bool, string, string) {
	gs := dumpGoroutines()
	var blocked []gor
	runnable := ""
	lockWait := false
	for _, g := range gs {
		if strings.Contains(g.body, "main.watchdog") || strings.Contains(g.body, "main.dumpGoroutines") {
			continue
		}
		if !hasTarget(g.body) && !strings.Contains(g.body, "main.") {
			continue
		}
		if blockedState(g.state) {
			if hasTarget(g.body) {
				blocked = append(blocked, g)
				if strings.HasPrefix(g.state, "sync.") || g.state == "semacquire" || g.state == "chan send" || g.state == "chan receive" {
					lockWait = true
				}
			}
			continue
		}
		if g.state == "IO wait" || g.state == "sleep" || g.state == "finalizer wait" || g.state == "GC worker (idle)" {
			// Background sleepers are fine unless they belong to a client operation.
			if g.state == "sleep" && strings.Contains(g.body, "main.") && strings.Contains(g.body, "runCase") {
				runnable = g.state + "\n" + g.body
			}
			continue
		}
		runnable = g.state + "\n" + g.body
	}
	sort.Slice(blocked, func(i, j int) bool { return blocked[i].id < blocked[j].id })
	var sb, key strings.Builder
	for _, g := range blocked {
		fmt.Fprintf(&sb, "goroutine %s [%s]\n%s\n\n", g.id, g.state, g.body)
		fmt.Fprintf(&key, "%s:%s;", g.id, g.state)
	}
	if runnable != "" {
		return false, key.String(), "runnable: " + runnable
	}
	return lockWait && len(blocked) > 0, key.String(), sb.String()
}

// inTarget returns the goroutines that are inside an operation of the code
// under test that the harness called: goroutine and outermost target frame.
func inTarget() map[string]string {
	out := map[string]string{}
	for _, g := range dumpGoroutines() {
		if strings.Contains(g.body, "main.watchdog") || !hasTarget(g.body) || !strings.Contains(g.body, "main.") {
			continue
		}
		frame, outer := "", ""
		for _, l := range strings.Split(g.body, "\n") {
			if l != "" && l[0] != '\t' && !strings.HasPrefix(l, "created by") {
				outer = l
			}
			if strings.HasPrefix(l, modPath) {
				frame = l
				if i := strings.LastIndexByte(l, '('); i > 0 {
					frame = l[:i]
				}
			}
		}
		if frame != "" && strings.HasPrefix(outer, "main.") {
			out[g.id+" "+frame] = g.state + "\n" + g.body
		}
	}
	return out
}

func cpuTime() time.Duration {
	var ru syscall.Rusage
	syscall.Getrusage(syscall.RUSAGE_SELF, &ru)
	return time.Duration(ru.Utime.Nano() + ru.Stime.Nano())
}

// watchdog fires when no progress was made for a long time. It is a violation
// if the goroutine states prove a deadlock, if one operation of the code under
// test has used 45 s of CPU time without returning, or if it has not returned
// after more than three minutes in which this process was able to run;
// otherwise the case is inconclusive.
func watchdog(stall time.Duration, report func(kind, msg string)) {
	last := atomic.LoadInt64(&progress)
	since, cpu, turns := time.Now(), cpuTime(), 0
	for {
		time.Sleep(500 * time.Millisecond)
		turns++
		cur := atomic.LoadInt64(&progress)
		if cur != last {
			last, since, cpu, turns = cur, time.Now(), cpuTime(), 0
			continue
		}
		if time.Since(since) < stall {
			continue
		}
		ok := true
		desc, key0 := "", ""
		stuck := inTarget()
		for i := 0; i < 4; i++ {
			dl, key, d := deadlocked()
			desc = d
			if i == 0 {
				key0 = key
			}
			if !dl || key != key0 || atomic.LoadInt64(&progress) != last {
				ok = false
			}
			time.Sleep(2 * time.Second)
			turns += 4
			now := inTarget()
			for k := range stuck {
				if v, there := now[k]; there {
					stuck[k] = v
				} else {
					delete(stuck, k)
				}
			}
		}
		if atomic.LoadInt64(&progress) != last {
			last, since, cpu, turns = atomic.LoadInt64(&progress), time.Now(), cpuTime(), 0
			continue
		}
		if ok {
			report("deadlock", "deadlock: every goroutine involved is blocked, unchanged over four samples\n"+desc)
			return
		}
		var sb strings.Builder
		for k, v := range stuck {
			fmt.Fprintf(&sb, "goroutine %s [%s\n\n", k, v)
		}
		if used := cpuTime() - cpu; len(stuck) > 0 && used > 45*time.Second {
			report("deadlock", fmt.Sprintf("no end: an operation has used %v of CPU time without returning\n%s", used, sb.String()))
			return
		}
		if time.Since(since) > stall+150*time.Second {
			if len(stuck) > 0 && turns > 300 {
				report("deadlock", fmt.Sprintf("no end: an operation has not returned after %v\n%s", time.Since(since), sb.String()))
				return
			}
			report("stall", "no progress, but not provably deadlocked\n"+desc)
			return
		}
	}
}

// --- child ----------------------------------------------------------------

func childMain(id, tier string, seed int64, cases []int, outPath string) int {
	ck := registry[id]
	if ck == nil {
		fmt.Fprintln(os.Stderr, "unknown check", id)
		return 3
	}
	f, err := os.OpenFile(outPath, os.O_CREATE|os.O_WRONLY|os.O_APPEND, 0o644)
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 3
	}
	var mu sync.Mutex
	cur := -1
	emit := func(r result) {
		mu.Lock()
		defer mu.Unlock()
		b, _ := json.Marshal(r)
		f.Write(append(b, '\n'))
	}
	if ck.Setup != nil {
		if err := ck.Setup(); err != nil {
			fmt.Fprintln(os.Stderr, "setup:", err)
			return 3
		}
	}
	stall := time.Duration(ck.StallSecs) * time.Second
	if stall == 0 {
		stall = 40 * time.Second
	}
	go watchdog(stall, func(kind, msg string) {
		emit(result{Case: cur, Kind: kind, Viol: msg})
		os.Exit(7)
	})
	for _, i := range cases {
		cur = i
		emit(result{Case: i, Start: true})
		r := runCase(ck, seed, tier, i)
		emit(r)
		if r.Viol != "" {
			return 6
		}
	}
	return 0
}
