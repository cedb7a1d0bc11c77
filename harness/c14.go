package main

import (
	"bufio"
	"bytes"
	"fmt"
	"math/rand"
	"os"
	"os/exec"
	"path/filepath"
	"strconv"
	"strings"
	"time"

	"github.com/iotaledger/hive.go/core/kvstore"
	"github.com/iotaledger/hive.go/core/kvstore/badger"
	"github.com/iotaledger/hive.go/core/kvstore/mapdb"
	"github.com/iotaledger/trie.go/hive_adaptor"
)

func init() {
	register(&property{id: "C14", level: "fault_enumeration",
		rule:  "Random histories of updates and commits through the batched updater over an instrumented database. After every change of the content of the database (every crash point) the partition of the trie is compared with the canonical trie of the partition of the values, which must be the state before or after the commit. An error is injected at every database call in turn (one call, or a run of calls; before or after the effect), the call is retried and the end state compared. Processes which update a database on disk are killed and their database is opened again. Distinct by history and fault.",
		assum: []string{"Commit of a batch of the database is atomic", "a failed call is repeated by the caller"},
		run:   runC14})
}

type batchOp struct {
	k, v   []byte
	commit bool
	reopen bool
}

func (o batchOp) String() string {
	if o.commit {
		return "Commit()"
	}
	if o.reopen {
		return "crash"
	}
	return fmt.Sprintf("Update(%x, %x)", o.k, o.v)
}

func batchOps(r *rand.Rand, cfg Cfg, n int, crash bool) []batchOp {
	p := newProfile(r, cfg)
	var ops []batchOp
	var have [][]byte
	var vals [][]byte
	pc := 3 + r.Intn(20)
	for i := 0; i < n; i++ {
		switch x := r.Intn(100); {
		case x < pc:
			ops = append(ops, batchOp{commit: true})
			if r.Intn(6) == 0 {
				ops = append(ops, batchOp{commit: true})
			}
		case crash && x < pc+4:
			ops = append(ops, batchOp{reopen: true})
		default:
			var k, v []byte
			if len(have) > 0 && r.Intn(100) < 45 {
				k = have[r.Intn(len(have))]
			} else {
				k = p.key(r, have)
				have = append(have, k)
			}
			switch y := r.Intn(100); {
			case y < 25:
				if r.Intn(2) == 0 {
					v = []byte{}
				}
			case y < 35:
				v = k
			default:
				v = p.value(r, k, &vals)
			}
			ops = append(ops, batchOp{k: k, v: v})
		}
	}
	return append(ops, batchOp{commit: true})
}

var layouts = [][2][]byte{{{1}, {2}}, {{2}, {1}}, {{0}, {0xff}}, {{1, 0}, {1, 1}}, {{1, 1, 1}, {1, 1, 2}}, {[]byte("trie"), []byte("values")}, {{0xff, 0xff}, {0xff, 0xfe}}, {bytes.Repeat([]byte{9}, 30), {8}}}

// batchWorld is an updater over the instrumented database
type batchWorld struct {
	t         *T
	cfg       Cfg
	db        *fakeDB
	up        *hive_adaptor.HiveBatchedUpdater
	tp, vp    []byte
	foreign   map[string][]byte
	all       map[string][]byte // state of all updates
	committed map[string][]byte // state at the last commit known to be successful
	inCommit  bool
	muts      int // changes of the database in the current call
	points    int
}

func newBatchWorld(t *T, cfg Cfg, layout [2][]byte, share bool) *batchWorld {
	bufs := oneBuffer(layout[:]...)
	w := &batchWorld{t: t, cfg: cfg, db: newFakeDB(), tp: bufs[0], vp: bufs[1], foreign: map[string][]byte{}, all: map[string][]byte{}, committed: map[string][]byte{}}
	w.db.c.quiet = true
	w.db.c.share = share
	for _, k := range [][]byte{{3}, {0x7f, 1}, {}, {1, 0xff}, {9}} {
		if !bytes.HasPrefix(k, w.tp) && !bytes.HasPrefix(k, w.vp) {
			w.foreign[string(k)] = []byte("foreign")
			w.db.c.m[string(k)] = []byte("foreign")
		}
	}
	w.db.c.onMut = w.crashPoint
	w.open()
	return w
}

func (w *batchWorld) open() {
	up, err := hive_adaptor.NewHiveBatchedUpdater(w.db, newModel(w.cfg), w.tp, w.vp, w.cfg.Opt)
	w.t.Check(err == nil, "updater: %v", err)
	w.up = up
}

// crashPoint is called after every change of the content: if the program ended here, this is what would be left
func (w *batchWorld) crashPoint(op string) {
	t := w.t
	w.muts++
	w.points++
	t.Count("crash points checked", 1)
	t.Eval(1)
	t.Check(w.inCommit, "the database is changed (%s) before the commit", op)
	vals := w.db.c.partition(w.vp)
	ok := sameContent(vals, w.all) || sameContent(vals, w.committed)
	t.Check(ok, "crash after %s: values are neither the ones before the commit nor the ones after: %s", op, diffStores(vals, w.all))
	w.consistent("crash after " + op)
}

// consistent checks that the trie in the database is the one of the values in it
func (w *batchWorld) consistent(where string) {
	t := w.t
	vals := w.db.c.partition(w.vp)
	tree := buildTree(vals, w.cfg)
	got, want := w.db.c.partition(w.tp), tree.storeOf()
	t.Check(sameContent(got, want), "%s: the trie is not the one of the values: %s", where, diffStores(got, want))
	for k, v := range w.foreign {
		t.Check(bytes.Equal(w.db.c.m[k], v), "%s: foreign key '%x' is changed", where, k)
	}
	t.Check(len(w.db.c.m) == len(w.foreign)+len(got)+len(vals), "%s: there are keys outside the partitions", where)
}

// attempt runs one call of the updater; it fails the case when an injected fault is not reported
func (w *batchWorld) attempt(o batchOp, hits *int) (failed bool) {
	t := w.t
	h := *hits
	w.muts = 0
	if o.commit {
		var err error
		w.inCommit = true
		p := t.surfaced(o.String(), func() { err = w.up.Commit() })
		w.inCommit = false
		failed = p || err != nil
		t.Check(w.muts <= 1, "%s: the database is changed %d times in one commit", o, w.muts)
		t.Check(failed || !w.db.c.dirty, "%s succeeds, the database is not flushed", o)
	} else {
		k, v := append([]byte{}, o.k...), append([]byte(nil), o.v...)
		failed = t.surfaced(o.String(), func() { w.up.Update(k, v) })
		for i := range k {
			k[i] ^= 0x5a
		}
		for i := range v {
			v[i] ^= 0x5a
		}
	}
	t.Check(failed == (*hits > h), "%s: %d errors of the database, reported as failure: %v", o, *hits-h, failed)
	return
}

// run executes the history; fault decides about every call of the database
func (w *batchWorld) run(ops []batchOp, fault func(n int, op string) bool) (calls int) {
	t := w.t
	hits := 0
	if fault != nil {
		w.db.c.fault = func(n int, op string) error {
			if fault(n, op) {
				hits++
				t.Count("faults "+op, 1)
				return errDB
			}
			return nil
		}
	}
	for i := 0; i < len(ops); i++ {
		o := ops[i]
		t.Logf("%s", o)
		switch {
		case o.reopen:
			w.open()
			w.db.c.dirty = false
			w.all = w.db.c.partition(w.vp)
			w.committed = copyMap(w.all)
			t.Count("crashes", 1)
		case o.commit:
			for try := 0; ; try++ {
				t.Check(try < 60, "harness: too many retries")
				if !w.attempt(o, &hits) {
					break
				}
				t.Logf("  failed")
				t.Count("failed commits", 1)
				w.consistent("failed commit")
				if i+1 < len(ops) && !ops[i+1].commit && t.Rng.Intn(3) == 0 {
					// go on with updates (or crash) and commit later
					break
				}
				if try == 59 {
					return
				}
				continue
			}
			vals := w.db.c.partition(w.vp)
			if sameContent(vals, w.all) {
				w.committed = copyMap(w.all)
			}
		default:
			for try := 0; w.attempt(o, &hits); try++ {
				t.Logf("  failed")
				t.Count("failed updates", 1)
				t.Check(try < 60, "harness: too many retries")
			}
			if len(o.v) == 0 {
				delete(w.all, string(o.k))
			} else {
				w.all[string(o.k)] = append([]byte{}, o.v...)
			}
			t.Count("updates", 1)
		}
	}
	w.db.c.fault = nil
	w.attempt(batchOp{commit: true}, &hits)
	vals := w.db.c.partition(w.vp)
	t.Check(sameContent(vals, w.all), "after the commit the values are not the ones of all updates: %s", diffStores(vals, w.all))
	w.consistent("after the commit")
	t.Eval(2)
	return w.db.c.n
}

func batchCfg(r *rand.Rand) Cfg {
	cfg := randCfg(r)
	cfg.Opt = r.Intn(2) == 0
	if r.Intn(2) == 0 {
		cfg.Thr = []int{1, 5, 20, 32, 60, 1000}[r.Intn(6)]
	}
	return cfg
}

func batchClean(t *T) {
	cfg := batchCfg(t.Rng)
	w := newBatchWorld(t, cfg, layouts[t.Rng.Intn(len(layouts))], t.n%2 == 0)
	ops := batchOps(t.Rng, cfg, 5+t.Rng.Intn(60), true)
	w.run(ops, nil)
	t.Seen(cfg.String(), fmt.Sprint(ops))
	t.Sample("%s partitions %x %x: %d operations, %d crash points, %d values, root %x", cfg, w.tp, w.vp, len(ops), w.points, len(w.all), buildTree(w.all, cfg).rootBytes())
}

// batchFaults strikes every call of the database in turn
func batchFaults(t *T) {
	cfg := batchCfg(t.Rng)
	layout := layouts[t.Rng.Intn(len(layouts))]
	ops := batchOps(t.Rng, cfg, 3+t.Rng.Intn(25), t.Rng.Intn(4) == 0)
	total := newBatchWorld(t, cfg, layout, t.n%2 == 0).run(ops, nil)
	step := 1 + total/80
	for at := 1 + t.Rng.Intn(step); at <= total; at += step {
		t.trace = t.trace[:0]
		w := newBatchWorld(t, cfg, layout, t.n%2 == 0)
		length := 1
		if t.Rng.Intn(4) == 0 {
			length = 2 + t.Rng.Intn(6)
		}
		if t.Rng.Intn(2) == 0 {
			w.db.c.after = map[string]bool{"batch-commit": true}
		}
		t.Logf("%s, calls %d..%d of the database fail", cfg, at, at+length-1)
		w.run(ops, func(n int, op string) bool { return n >= at && n < at+length })
		t.Count("fault positions", 1)
	}
	t.Seen("faults", cfg.String(), fmt.Sprint(ops))
}

// batchKind strikes all calls of one kind for a while
func batchKind(t *T) {
	cfg := batchCfg(t.Rng)
	kinds := []string{"get", "batched", "batch-set", "batch-delete", "batch-commit", "flush"}
	kind := kinds[t.n%len(kinds)]
	w := newBatchWorld(t, cfg, layouts[t.Rng.Intn(len(layouts))], t.n%2 == 0)
	if t.Rng.Intn(2) == 0 {
		w.db.c.after = map[string]bool{"batch-commit": true}
	}
	ops := batchOps(t.Rng, cfg, 5+t.Rng.Intn(40), false)
	left := 1 + t.Rng.Intn(20)
	p := 1 + t.Rng.Intn(5)
	t.Logf("%s, calls of kind %s fail", cfg, kind)
	w.run(ops, func(n int, op string) bool {
		if op != kind || left == 0 || t.Rng.Intn(p) != 0 {
			return false
		}
		left--
		return true
	})
	t.Seen("kind", kind, cfg.String(), fmt.Sprint(ops))
}

// ---- the databases of the library

func checkDB(t *T, kvs kvstore.KVStore, cfg Cfg, tp, vp []byte, where string) map[string][]byte {
	part := func(p []byte) map[string][]byte {
		ret := map[string][]byte{}
		err := kvs.Iterate(p, func(k, v []byte) bool { ret[string(k[len(p):])] = append([]byte{}, v...); return true })
		t.Check(err == nil, "harness: %v", err)
		return ret
	}
	vals := part(vp)
	got, want := part(tp), buildTree(vals, cfg).storeOf()
	t.Eval(1)
	t.Check(sameContent(got, want), "%s: the trie in the database is not the one of the values: %s", where, diffStores(got, want))
	return vals
}

func batchReal(t *T, onDisk bool) {
	cfg := batchCfg(t.Rng)
	two := oneBuffer([]byte{1}, []byte{2})
	tp, vp := two[0], two[1]
	all := map[string][]byte{}
	sessions, n := 1, 5+t.Rng.Intn(60)
	var kvs kvstore.KVStore = mapdb.NewMapDB()
	dir := ""
	if onDisk {
		var err error
		dir, err = os.MkdirTemp(tmpDir(), "badger")
		t.Check(err == nil, "harness: %v", err)
		defer os.RemoveAll(dir)
		sessions = 3
	}
	for s := 0; s < sessions; s++ {
		if onDisk {
			db, err := badger.CreateDB(filepath.Join(dir, "db"))
			t.Check(err == nil, "harness: badger: %v", err)
			kvs = badger.New(db)
		}
		up, err := hive_adaptor.NewHiveBatchedUpdater(kvs, newModel(cfg), tp, vp, cfg.Opt)
		t.Check(err == nil, "updater: %v", err)
		pending := copyMap(all)
		for _, o := range batchOps(t.Rng, cfg, n, false) {
			t.Logf("%s", o)
			if o.commit {
				t.Check(up.Commit() == nil, "commit fails")
				all = copyMap(pending)
				if t.Rng.Intn(3) == 0 {
					vals := checkDB(t, kvs, cfg, tp, vp, "after the commit")
					t.Check(sameContent(vals, all), "values are %s", diffStores(vals, all))
				}
				continue
			}
			up.Update(append([]byte{}, o.k...), append([]byte(nil), o.v...))
			if len(o.v) == 0 {
				delete(pending, string(o.k))
			} else {
				pending[string(o.k)] = append([]byte{}, o.v...)
			}
		}
		vals := checkDB(t, kvs, cfg, tp, vp, "after the session")
		t.Check(sameContent(vals, all), "values are %s", diffStores(vals, all))
		// the session ends with updates which are not committed
		up.Update([]byte("never"), []byte("committed"))
		if onDisk {
			_ = kvs.Close()
			err := up.Commit()
			t.Check(err != nil, "commit to a closed database succeeds")
			t.Count("sessions on disk", 1)
		}
	}
	t.Seen("real", onDisk, cfg.String(), fmt.Sprint(all))
}

// batchTurns: several updaters of one database take turns, each turn ends with a commit. Between its turns an updater has
// nothing pending, so what the others do meanwhile is what it must start from.
func batchTurns(t *T) {
	cfg := batchCfg(t.Rng)
	two := oneBuffer([]byte{1}, []byte{2})
	tp, vp := two[0], two[1]
	var kvs kvstore.KVStore = mapdb.NewMapDB()
	if t.n%2 == 0 {
		kvs = newFakeDB()
	}
	ups := make([]*hive_adaptor.HiveBatchedUpdater, 2+t.Rng.Intn(2))
	for i := range ups {
		var err error
		ups[i], err = hive_adaptor.NewHiveBatchedUpdater(kvs, newModel(cfg), tp, vp, cfg.Opt)
		t.Check(err == nil, "updater: %v", err)
	}
	all := map[string][]byte{}
	ops := batchOps(t.Rng, cfg, 10+t.Rng.Intn(60), false)
	for len(ops) > 0 {
		i := t.Rng.Intn(len(ups))
		for len(ops) > 0 && !ops[0].commit {
			o := ops[0]
			ops = ops[1:]
			t.Logf("updater %d: %s", i, o)
			ups[i].Update(append([]byte{}, o.k...), append([]byte(nil), o.v...))
			if len(o.v) == 0 {
				delete(all, string(o.k))
			} else {
				all[string(o.k)] = append([]byte{}, o.v...)
			}
		}
		t.Check(ups[i].Commit() == nil, "commit fails")
		if len(ops) > 0 {
			ops = ops[1:]
		}
		where := fmt.Sprintf("after the turn of updater %d of %d", i, len(ups))
		vals := checkDB(t, kvs, cfg, tp, vp, where)
		t.Check(sameContent(vals, all), "%s: values are %s", where, diffStores(vals, all))
		t.Count("turns of updaters", 1)
	}
	t.Seen("turns", cfg.String(), fmt.Sprint(all))
}

// ---- processes which are killed

// crashChild updates the database in dir for ever; it reports every commit
func crashChild(args []string) int {
	dir, seed := args[0], int64(0)
	seed, _ = strconv.ParseInt(args[1], 10, 64)
	cfg := crashCfg(seed)
	db, err := badger.CreateDB(dir)
	if err != nil {
		fmt.Println("cannot open", err)
		return 3
	}
	up, err := hive_adaptor.NewHiveBatchedUpdater(badger.New(db), newModel(cfg), roomy([]byte{1}), roomy([]byte{2}), cfg.Opt)
	if err != nil {
		return 3
	}
	fmt.Println("open")
	for i := 0; ; i++ {
		for _, o := range crashBatch(seed, i) {
			up.Update(o.k, o.v)
		}
		if err := up.Commit(); err != nil {
			fmt.Println("failed", err)
			return 1
		}
		fmt.Println("committed", i)
	}
}

func crashCfg(seed int64) Cfg { return batchCfg(rand.New(rand.NewSource(seed))) }

func crashBatch(seed int64, i int) []batchOp {
	r := rand.New(rand.NewSource(seed*1000003 + int64(i)))
	var ops []batchOp
	for j := 0; j < 1+r.Intn(20); j++ {
		o := batchOp{k: randBytes(r, 1+r.Intn(2)), v: randBytes(r, 1+r.Intn(40))}
		if r.Intn(4) == 0 {
			o.v = nil
		}
		ops = append(ops, o)
	}
	return ops
}

func killCase(t *T) {
	dir, err := os.MkdirTemp(tmpDir(), "kill")
	t.Check(err == nil, "harness: %v", err)
	defer os.RemoveAll(dir)
	self, err := os.Executable()
	t.Check(err == nil, "harness: %v", err)
	seed := t.Rng.Int63n(1 << 40)
	cfg := crashCfg(seed)
	cmd := exec.Command(self, "tool", "crash-child", filepath.Join(dir, "db"), fmt.Sprint(seed))
	out, err := cmd.StdoutPipe()
	t.Check(err == nil && cmd.Start() == nil, "harness: process")
	stop := t.Rng.Intn(30)
	delay := time.Duration(t.Rng.Intn(3000)) * time.Microsecond
	acked, bad := -1, ""
	timer := time.AfterFunc(60*time.Second, func() { _ = cmd.Process.Kill() })
	sc := bufio.NewScanner(out)
	killed := false
	for sc.Scan() {
		line := sc.Text()
		switch {
		case strings.HasPrefix(line, "committed "):
			acked, _ = strconv.Atoi(line[10:])
		case line != "open":
			bad = line
		}
		if acked >= stop && !killed {
			killed = true
			time.Sleep(delay)
			_ = cmd.Process.Kill()
		}
	}
	timer.Stop()
	_ = cmd.Wait()
	t.Check(!strings.HasPrefix(bad, "failed"), "commit to the database on disk fails: %s", bad)
	if bad != "" || acked < 0 {
		t.Count("killed processes, inconclusive", 1)
		return
	}
	db, err := badger.CreateDB(filepath.Join(dir, "db"))
	if err != nil {
		t.Count("killed processes, inconclusive", 1)
		return
	}
	kvs := badger.New(db)
	defer func() { _ = kvs.Close() }()
	vals := checkDB(t, kvs, cfg, []byte{1}, []byte{2}, fmt.Sprintf("%s: process killed after commit %d", cfg, acked))
	// the state of some commit which is not older than the last one reported
	state := map[string][]byte{}
	found := false
	for i := 0; i <= acked+200 && !found; i++ {
		for _, o := range crashBatch(seed, i) {
			if len(o.v) == 0 {
				delete(state, string(o.k))
			} else {
				state[string(o.k)] = o.v
			}
		}
		found = i >= acked && sameContent(state, vals)
	}
	t.Check(found, "process killed after it reported commit %d: the values are not the ones of a commit", acked)
	t.Count("processes killed", 1)
	t.Seen("kill", seed, acked)
	// and it can be continued
	up, err := hive_adaptor.NewHiveBatchedUpdater(kvs, newModel(cfg), roomy([]byte{1}), roomy([]byte{2}), cfg.Opt)
	t.Check(err == nil, "updater: %v", err)
	up.Update([]byte("abc"), []byte("continued"))
	t.Check(up.Commit() == nil, "commit after the crash")
	checkDB(t, kvs, cfg, []byte{1}, []byte{2}, "continued after the crash")
}

func runC14(c *Ctx) {
	c.Cases("crash-points", 30000*c.scale, batchClean)
	c.Cases("faults", 4000*c.scale, batchFaults)
	c.Cases("fault-kinds", 40000*c.scale, batchKind)
	c.Cases("mapdb", 6000*c.scale, func(t *T) { batchReal(t, false) })
	c.Cases("turns", 3000*c.scale, batchTurns)
	c.Cases("badger", 60*c.scale, func(t *T) { batchReal(t, true) })
	c.casesW("killed", 48*minInt(c.scale, 6), 4, killCase)
}
