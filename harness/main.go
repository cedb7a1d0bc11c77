// vmon: runtime monitors for iotaledger/trie.go. See /verif/DESIGN.md.
//
//	vmon run <PROPERTY>       run the monitor of one property (VERIF_SEED, VERIF_TIER)
//	vmon replay <FILE>        re-run the single case recorded in a replay file
//	vmon list                 list properties
package main

import (
	"bytes"
	"encoding/json"
	"fmt"
	"io"
	"os"
	"os/exec"
	"path/filepath"
	"runtime"
	"runtime/debug"
	"sort"
	"strconv"
	"strings"
	"sync"
	"time"
)

type property struct {
	id    string
	level string
	rule  string
	assum []string
	run   func(c *Ctx)
}

var properties = map[string]*property{}

func register(p *property) {
	if p.level == "" {
		p.level = "exploration"
	}
	properties[p.id] = p
}

func verifDir() string {
	if d := os.Getenv("VMON_VERIF"); d != "" {
		return d
	}
	return "/verif"
}

func main() {
	if len(os.Args) < 2 {
		fmt.Fprintln(os.Stderr, "usage: vmon run ID | replay FILE | list")
		os.Exit(3)
	}
	switch os.Args[1] {
	case "list":
		ids := []string{}
		for id := range properties {
			ids = append(ids, id)
		}
		sort.Strings(ids)
		fmt.Println(strings.Join(ids, "\n"))
	case "run":
		id := os.Args[2]
		if os.Getenv("VMON_CHILD") == "" {
			os.Exit(parent(id, os.Args))
		}
		os.Exit(child(id, nil))
	case "replay":
		data, err := os.ReadFile(os.Args[2])
		if err != nil {
			fmt.Fprintln(os.Stderr, err)
			os.Exit(3)
		}
		var r Replay
		if err = json.Unmarshal(data, &r); err != nil {
			fmt.Fprintln(os.Stderr, err)
			os.Exit(3)
		}
		if r.Suite == "*" { // not bound to one case: the whole run
			os.Setenv("VERIF_SEED", fmt.Sprint(r.Seed))
			os.Setenv("VERIF_TIER", r.Tier)
			os.Exit(parent(r.Property, []string{os.Args[0], "run", r.Property}))
		}
		os.Exit(child(r.Property, &r))
	case "tool":
		os.Exit(toolMain(os.Args[2:]))
	default:
		os.Exit(3)
	}
}

// parent runs the monitor in a child process, so that fatal errors which no recover() can catch
// (stack overflow, concurrent map access, data race reports) still give a verdict with a witness.
func parent(id string, args []string) int {
	replayDir := filepath.Join(verifDir(), "replays")
	_ = os.MkdirAll(replayDir, 0o755)
	self, err := os.Executable()
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 3
	}
	cmd := exec.Command(self, args[1:]...)
	cmd.Env = append(os.Environ(), "VMON_CHILD=1", "GORACE=halt_on_error=0 exitcode=66")
	var errBuf tailBuffer
	cmd.Stdout = os.Stdout
	cmd.Stderr = io.MultiWriter(&errBuf, os.Stderr)
	err = cmd.Run()
	code := 0
	if err != nil {
		code = 3
		if ee, ok := err.(*exec.ExitError); ok {
			code = ee.ExitCode()
		}
	}
	races := bytes.Count(errBuf.all(), []byte("WARNING: DATA RACE"))
	if code == 0 && races == 0 {
		return 0
	}
	if code == 1 && races == 0 {
		return 1
	}
	text := string(errBuf.all())
	what := ""
	switch {
	case races > 0:
		what = fmt.Sprintf("%d data race report(s)", races)
	case strings.Contains(text, "stack overflow") || strings.Contains(text, "stack exceeds"):
		what = "fatal: stack overflow"
	case strings.Contains(text, "fatal error: concurrent map"):
		what = "fatal: concurrent map access"
	case strings.Contains(text, "all goroutines are asleep"):
		what = "fatal: deadlock"
	case strings.Contains(text, "unexpected fault address") || strings.Contains(text, "SIGSEGV"):
		what = "fatal: memory fault"
	case code == 2 && strings.Contains(text, "panic:"):
		// a panic in a goroutine that is not a case (e.g. started by code under test)
		what = "unrecovered panic"
	}
	if what == "" {
		fmt.Fprintf(os.Stderr, "vmon: child ended with code %d: inconclusive\n", code)
		return 3
	}
	if code == 1 {
		return 1 // the child has reported a violation itself
	}
	path := filepath.Join(replayDir, fmt.Sprintf("%s-fatal.json", id))
	r := Replay{Property: id, Seed: envSeed(), Tier: envTier(), Suite: "*", Message: what, Stack: text}
	data, _ := json.MarshalIndent(r, "", " ")
	_ = os.WriteFile(path, data, 0o644)
	fmt.Printf("VIOLATION property=%s replay=%s\n", id, path)
	fmt.Printf("  %s\n", what)
	return 1
}

type tailBuffer struct {
	mu sync.Mutex
	b  []byte
}

func (t *tailBuffer) Write(p []byte) (int, error) {
	t.mu.Lock()
	defer t.mu.Unlock()
	if len(t.b) < 1<<20 {
		t.b = append(t.b, p...)
	}
	return len(p), nil
}
func (t *tailBuffer) all() []byte {
	t.mu.Lock()
	defer t.mu.Unlock()
	return append([]byte(nil), t.b...)
}

func envSeed() int64 {
	s, err := strconv.ParseInt(os.Getenv("VERIF_SEED"), 10, 64)
	if err != nil {
		return 1
	}
	return s
}

func envTier() string {
	if os.Getenv("VERIF_TIER") == "thorough" {
		return "thorough"
	}
	return "quick"
}

func child(id string, rep *Replay) int {
	p, ok := properties[id]
	if !ok {
		fmt.Fprintf(os.Stderr, "unknown property %s\n", id)
		return 3
	}
	debug.SetGCPercent(300)
	debug.SetMemoryLimit(10 << 30)
	debug.SetMaxStack(1 << 29)
	c := &Ctx{
		id: id, seed: envSeed(), tier: envTier(), start: time.Now(),
		distinct: map[uint64]struct{}{}, counts: map[string]int64{}, replay: rep,
		workers: runtime.NumCPU(),
	}
	if w := os.Getenv("VMON_WORKERS"); w != "" {
		c.workers, _ = strconv.Atoi(w)
	}
	if rep != nil {
		c.seed, c.tier = rep.Seed, rep.Tier
	}
	c.scale = 1
	if c.tier == "thorough" {
		c.scale = 12
	}
	c.known = loadKnown(id)
	// watchdog: a firing is inconclusive (exit 3), never a verdict
	limit := 850 * time.Second
	if c.tier == "thorough" {
		limit = 4 * time.Hour
	}
	time.AfterFunc(limit, func() {
		c.mu.Lock()
		n := len(c.violations)
		c.mu.Unlock()
		if n > 0 {
			os.Exit(c.finish(p))
		}
		fmt.Fprintln(os.Stderr, "vmon: watchdog: run did not end in time: inconclusive")
		os.Exit(3)
	})
	caseLimit := 400 * time.Second
	if c.thorough() {
		caseLimit = time.Hour
	}
	heapLimit := uint64(18 << 30)
	if d, _ := strconv.Atoi(os.Getenv("VMON_DIV")); d > 1 {
		c.div, caseLimit, heapLimit = d, 120*time.Second, 3<<30
	}
	go c.monitorLiveness(p, caseLimit, heapLimit)
	p.run(c)
	return c.finish(p)
}

func (c *Ctx) finish(p *property) int {
	c.mu.Lock()
	defer c.mu.Unlock()
	cov := map[string]any{
		"evaluations":         c.evals,
		"distinct_nontrivial": len(c.distinct),
		"rule":                p.rule,
		"samples":             append([]string{}, c.samples...),
	}
	keys := make([]string, 0)
	for k := range c.counts {
		keys = append(keys, k)
	}
	sort.Strings(keys)
	obs := map[string]int64{}
	for _, k := range keys {
		obs[k] = c.counts[k]
	}
	cov["observed"] = obs
	ev := map[string]any{
		"property": c.id, "tier": c.tier, "seed": c.seed, "level": p.level,
		"coverage": cov, "assumptions": p.assum,
		"wall_s": time.Since(c.start).Seconds(), "violations": len(c.violations),
	}
	if c.replay == nil {
		data, err := json.MarshalIndent(ev, "", " ")
		if err != nil {
			fmt.Fprintln(os.Stderr, err)
			return 3
		}
		dir := filepath.Join(verifDir(), "evidence")
		_ = os.MkdirAll(dir, 0o755)
		if err = os.WriteFile(filepath.Join(dir, c.id+".json"), append(data, '\n'), 0o644); err != nil {
			fmt.Fprintln(os.Stderr, err)
			return 3
		}
	}
	for _, k := range c.known {
		if c.knownSeen[k.Witness] {
			fmt.Printf("KNOWN-FINDING: property=%s %s\n", c.id, k.What)
		}
	}
	fmt.Printf("%s %s seed=%d evaluations=%d distinct=%d violations=%d %.1fs\n", c.id, c.tier, c.seed, c.evals, len(c.distinct), len(c.violations), time.Since(c.start).Seconds())
	for _, k := range keys {
		fmt.Printf("   %-40s %d\n", k, c.counts[k])
	}
	if len(c.violations) > 0 {
		for i, v := range c.violations {
			if i >= 5 {
				break
			}
			path := filepath.Join(verifDir(), "replays", fmt.Sprintf("%s-%d.json", c.id, i))
			_ = os.MkdirAll(filepath.Dir(path), 0o755)
			data, _ := json.MarshalIndent(v, "", " ")
			_ = os.WriteFile(path, data, 0o644)
			fmt.Printf("VIOLATION property=%s replay=%s\n", c.id, path)
			fmt.Printf("  suite=%s case=%d: %s\n", v.Suite, v.Case, firstLine(v.Message))
		}
		return 1
	}
	if c.replay == nil && (c.evals == 0 || len(c.distinct) == 0) {
		fmt.Fprintln(os.Stderr, "vmon: nothing was observed: inconclusive")
		return 3
	}
	return 0
}

func firstLine(s string) string {
	if i := strings.IndexByte(s, '\n'); i >= 0 {
		s = s[:i]
	}
	if len(s) > 600 {
		s = s[:600] + "..."
	}
	return s
}
