package main

import (
	"bufio"
	"encoding/hex"
	"fmt"
	"hash/fnv"
	"io"
	"math/rand"
	"os"
	"path/filepath"
	"runtime"
	"runtime/debug"
	"runtime/metrics"
	"strings"
	"sync"
	"sync/atomic"
	"time"
)

// Replay is the witness of a violation: property, suite, case number and seed regenerate the case
// exactly; Trace and Message describe it for a reader.
type Replay struct {
	Property string   `json:"property"`
	Suite    string   `json:"suite"`
	Case     int      `json:"case"`
	Seed     int64    `json:"seed"`
	Tier     string   `json:"tier"`
	Message  string   `json:"message"`
	Trace    []string `json:"trace,omitempty"`
	Minimal  []string `json:"minimal_history,omitempty"`
	Stack    string   `json:"stack,omitempty"`
}

// Ctx is the context of one run of one property
type Ctx struct {
	id, tier   string
	seed       int64
	scale      int
	start      time.Time
	workers    int
	div        int // development: only a fraction of the cases, and an end at the first violation
	replay     *Replay
	known      []knownFinding
	mu         sync.Mutex
	evals      int64
	distinct   map[uint64]struct{}
	counts     map[string]int64
	samples    []string
	violations []*Replay
	knownSeen  map[string]bool
	running    map[runKey]time.Time
}

type runKey struct {
	suite string
	n     int
}

func (c *Ctx) thorough() bool { return c.tier == "thorough" }

// T is the context of one case
type T struct {
	c       *Ctx
	suite   string
	n       int
	Rng     *rand.Rand
	trace   []string
	minimal []string
	counts  map[string]int64
	dist    map[uint64]struct{}
	evals   int64
	sample  string
}

type violation struct{ msg string }

// Fail reports a violation and ends the case
func (t *T) Fail(format string, a ...any) { panic(violation{fmt.Sprintf(format, a...)}) }

// Check fails the case if !ok
func (t *T) Check(ok bool, format string, a ...any) {
	if !ok {
		t.Fail(format, a...)
	}
}

func (t *T) Logf(format string, a ...any) {
	if len(t.trace) < 2000 {
		s := fmt.Sprintf(format, a...)
		if len(s) > 400 {
			s = s[:400] + "..."
		}
		t.trace = append(t.trace, s)
	}
}

// Count counts an observed event
func (t *T) Count(name string, n int) { t.counts[name] += int64(n) }

// Eval counts an oracle evaluation
func (t *T) Eval(n int) { t.evals += int64(n) }

// Seen records a distinct non-trivial case by its fingerprint
func (t *T) Seen(parts ...any) {
	h := fnv.New64a()
	for _, p := range parts {
		switch p := p.(type) {
		case []byte:
			h.Write(p)
		case string:
			h.Write([]byte(p))
		default:
			fmt.Fprint(h, p)
		}
		h.Write([]byte{0xfe})
	}
	t.dist[h.Sum64()] = struct{}{}
}

func (t *T) Sample(format string, a ...any) {
	if t.sample == "" {
		s := fmt.Sprintf(format, a...)
		if len(s) > 900 {
			s = s[:900] + "..."
		}
		t.sample = s
	}
}

func caseRng(seed int64, id, suite string, n int) *rand.Rand {
	h := fnv.New64a()
	fmt.Fprintf(h, "%d|%s|%s|%d", seed, id, suite, n)
	return rand.New(rand.NewSource(int64(h.Sum64())))
}

// Cases runs n independent cases of a suite in parallel. The list of cases depends on seed only.
func (c *Ctx) Cases(suite string, n int, f func(t *T)) {
	c.casesW(suite, n, c.workers, f)
}

func (c *Ctx) casesW(suite string, n, workers int, f func(t *T)) {
	if c.replay != nil {
		if c.replay.Suite != suite {
			return
		}
		c.runCase(suite, c.replay.Case, f)
		return
	}
	if only := os.Getenv("VMON_SUITE"); only != "" && only != suite {
		return
	}
	if n > 40 && c.div > 1 {
		n = max(40, n/c.div)
	}
	t0 := time.Now()
	var next int64 = -1
	var stop int32
	var wg sync.WaitGroup
	for w := 0; w < workers; w++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for {
				i := int(atomic.AddInt64(&next, 1))
				if i >= n || atomic.LoadInt32(&stop) != 0 {
					return
				}
				if !c.runCase(suite, i, f) {
					atomic.StoreInt32(&stop, 1)
					if c.div > 1 {
						os.Exit(c.finish(properties[c.id]))
					}
				}
			}
		}()
	}
	wg.Wait()
	if os.Getenv("VMON_VERBOSE") != "" {
		fmt.Fprintf(os.Stderr, "  suite %-24s n=%d %.1fs\n", suite, n, time.Since(t0).Seconds())
	}
}

func (c *Ctx) runCase(suite string, i int, f func(t *T)) (ok bool) {
	t := &T{c: c, suite: suite, n: i, Rng: caseRng(c.seed, c.id, suite, i), counts: map[string]int64{}, dist: map[uint64]struct{}{}}
	c.mu.Lock()
	if c.running == nil {
		c.running = map[runKey]time.Time{}
	}
	c.running[runKey{suite, i}] = time.Now()
	c.mu.Unlock()
	msg, stack := protect(func() { f(t) })
	c.mu.Lock()
	defer c.mu.Unlock()
	delete(c.running, runKey{suite, i})
	c.evals += t.evals
	for k, v := range t.counts {
		c.counts[k] += v
	}
	for k := range t.dist {
		c.distinct[k] = struct{}{}
	}
	c.counts["suite:"+suite+" cases"]++
	if t.sample != "" && len(c.samples) < 6 {
		cnt := 0
		for _, s := range c.samples {
			if strings.HasPrefix(s, suite+":") {
				cnt++
			}
		}
		if cnt < 1 {
			c.samples = append(c.samples, suite+": "+t.sample)
		}
	}
	if msg == "" {
		return true
	}
	c.violations = append(c.violations, &Replay{
		Property: c.id, Suite: suite, Case: i, Seed: c.seed, Tier: c.tier,
		Message: msg, Trace: t.trace, Minimal: t.minimal, Stack: stack,
	})
	return false
}

// monitorLiveness reports calls which do not end: a case takes milliseconds, some take seconds, so a case which runs for
// minutes, or which makes the process grow far beyond its usual size, is stuck in a call of the code under test.
func (c *Ctx) monitorLiveness(p *property, caseLimit time.Duration, heapLimit uint64) {
	sample := []metrics.Sample{{Name: "/memory/classes/heap/objects:bytes"}}
	for {
		time.Sleep(time.Second)
		metrics.Read(sample)
		heap := sample[0].Value.Uint64()
		if heap > heapLimit { // what is garbage does not count
			runtime.GC()
			metrics.Read(sample)
			heap = sample[0].Value.Uint64()
		}
		c.mu.Lock()
		var oldest runKey
		var age time.Duration
		for k, t0 := range c.running {
			if d := time.Since(t0); d > age {
				oldest, age = k, d
			}
		}
		msg := ""
		switch {
		case age > caseLimit:
			msg = fmt.Sprintf("the case did not end in %v: a call does not return", caseLimit)
		case heap > heapLimit && age > 0:
			msg = fmt.Sprintf("the case made the process grow to %d MB: a call does not end or allocates without bound", heap>>20)
		}
		if msg != "" {
			buf := make([]byte, 1<<16)
			buf = buf[:runtime.Stack(buf, true)]
			c.violations = append(c.violations, &Replay{Property: c.id, Suite: oldest.suite, Case: oldest.n, Seed: c.seed, Tier: c.tier, Message: msg, Stack: string(buf)})
		}
		c.mu.Unlock()
		if msg != "" {
			os.Exit(c.finish(p))
		}
	}
}

// protect runs f and returns the failure, if any. Panics of the code under test are failures.
func protect(f func()) (msg, stack string) {
	defer func() {
		if r := recover(); r != nil {
			if v, is := r.(violation); is {
				msg = v.msg
			} else {
				msg = fmt.Sprintf("panic: %v", r)
				stack = string(debug.Stack())
				if len(stack) > 6000 {
					stack = stack[:6000]
				}
			}
			if msg == "" {
				msg = "failed"
			}
		}
	}()
	f()
	return "", ""
}

// catch runs f and returns the value it panicked with, or nil
func catch(f func()) (r any) {
	defer func() {
		r = recover()
		if v, is := r.(violation); is {
			panic(v)
		}
	}()
	f()
	return nil
}

// mustNot runs f of the code under test and fails the case if it panics
func (t *T) mustNot(what any, f func()) {
	if r := catch(f); r != nil {
		if g, is := what.(func() string); is {
			what = g()
		}
		t.Fail("%s: panic: %v", what, r)
	}
}

// ---- known findings

type knownFinding struct {
	Property string
	Witness  string // identifier of the specific deterministic witness
	What     string
}

// loadKnown reads /verif/known_findings.txt. Lines:
//
//	known: property=<id> witness=<name> <what fails>
//	fixed: property=<id> <commit> <what failed>
func loadKnown(id string) []knownFinding {
	f, err := os.Open(filepath.Join(verifDir(), "known_findings.txt"))
	if err != nil {
		return nil
	}
	defer f.Close()
	var ret []knownFinding
	sc := bufio.NewScanner(f)
	for sc.Scan() {
		line := strings.TrimSpace(sc.Text())
		if !strings.HasPrefix(line, "known: ") {
			continue
		}
		parts := strings.SplitN(strings.TrimPrefix(line, "known: "), " ", 3)
		if len(parts) != 3 {
			continue
		}
		k := knownFinding{
			Property: strings.TrimPrefix(parts[0], "property="),
			Witness:  strings.TrimPrefix(parts[1], "witness="),
			What:     "witness=" + strings.TrimPrefix(parts[1], "witness=") + " " + parts[2],
		}
		if k.Property == id {
			ret = append(ret, k)
		}
	}
	return ret
}

// Witness runs one deterministic witness of a (possibly known) defect. If it fails and is listed, it is a
// known finding; if it fails and is not listed, it is a violation.
func (c *Ctx) Witness(name string, f func(t *T)) {
	listed := false
	for _, k := range c.known {
		if k.Witness == name {
			listed = true
		}
	}
	suite := "witness:" + name
	if !listed {
		c.Cases(suite, 1, f)
		return
	}
	if c.replay != nil && c.replay.Suite != suite {
		return
	}
	t := &T{c: c, suite: suite, Rng: caseRng(c.seed, c.id, suite, 0), counts: map[string]int64{}, dist: map[uint64]struct{}{}}
	msg, _ := protect(func() { f(t) })
	c.mu.Lock()
	defer c.mu.Unlock()
	c.evals += t.evals
	c.counts["known-finding witnesses run"]++
	if msg != "" {
		if c.knownSeen == nil {
			c.knownSeen = map[string]bool{}
		}
		c.knownSeen[name] = true
	}
}

func hx(b []byte) string {
	if len(b) > 48 {
		return fmt.Sprintf("%s..(%d)", hex.EncodeToString(b[:40]), len(b))
	}
	return hex.EncodeToString(b)
}

func toolMain(args []string) int {
	if len(args) == 3 && args[0] == "crash-child" {
		return crashChild(args[1:])
	}
	return 3
}

type ioWriter = io.Writer
