package main

import (
	"bytes"
	"errors"
	"fmt"
	"os"
	"path/filepath"
	"runtime"
	"strings"
	"sync"

	"github.com/iotaledger/hive.go/core/kvstore"
	"github.com/iotaledger/hive.go/core/kvstore/badger"
	"github.com/iotaledger/hive.go/core/kvstore/mapdb"
	"github.com/iotaledger/trie.go/hive_adaptor"
	"github.com/iotaledger/trie.go/trie"
)

func init() {
	register(&property{id: "C13", level: "fault_enumeration",
		rule:  "Random histories of calls on several adaptors over one database with neighbouring and nested prefixes; every result is compared with a model map, every call the database receives is checked to stay inside the prefix, and the raw content is compared. A fault is injected at every call of the database in turn: it must be surfaced as a panic. Distinct by prefixes, history and fault position.",
		assum: []string{"a database which reports no error returns what was stored", "errors which wrap kvstore.ErrKeyNotFound mean absence"},
		run:   runC13})
}

func prefixesOf(t *T) [][]byte {
	sets := [][][]byte{
		{{1}, {2}}, {{1}, {1, 2}, {1, 2, 3}}, {{}, {1}}, {{0}, {0, 0}, {0, 0, 0}}, {{0xff}, {0xff, 0xff}, {0xfe}}, {{0xfe, 0xff}, {0xff}, {0xff, 0}},
		{[]byte("trie"), []byte("trievalue"), []byte("tri")}, {{}}, {nil, {0}}, {{1, 0}, {1}, {0, 1}}, {bytes.Repeat([]byte{7}, 40), bytes.Repeat([]byte{7}, 39)}, {{0x7f, 0xff}, {0x80}},
	}
	return sets[t.Rng.Intn(len(sets))]
}

// hiveKey is a key which is likely to meet the ones of other partitions
func hiveKey(t *T, alpha []byte) []byte {
	if t.Rng.Intn(30) == 0 {
		return randBytes(t.Rng, 100+t.Rng.Intn(200))
	}
	return fromAlpha(t.Rng, alpha, t.Rng.Intn(5))
}

// surfaced runs f and returns whether it panicked, with an error of the database and not with a crash
func (t *T) surfaced(what string, f func()) bool {
	r := catch(f)
	if r == nil {
		return false
	}
	_, crash := r.(runtime.Error)
	t.Check(!crash, "%s: crash instead of the error of the database: %v", what, r)
	return true
}

type partition struct {
	prefix []byte
	ad     *hive_adaptor.HiveKVStoreAdaptor
}

type hiveOp struct {
	part int
	kind int // 0 get 1 has 2 set 3 delete (empty value) 4 iterate 5 iterate and stop
	k, v []byte
	stop int
}

func (o hiveOp) String() string {
	return fmt.Sprintf("partition %d: %s(%x, %x)", o.part, []string{"Get", "Has", "Set", "Set empty", "Iterate", "Iterate until"}[o.kind], o.k, o.v)
}

func hiveOps(t *T, nParts, n int, noEmptyKey bool) []hiveOp {
	alpha := []byte{0, 1, 2, 0xff, 7, 't', 'v'}
	alpha = alpha[t.Rng.Intn(3) : 4+t.Rng.Intn(4)]
	var ops []hiveOp
	for i := 0; i < n; i++ {
		o := hiveOp{part: t.Rng.Intn(nParts), kind: []int{0, 0, 1, 1, 2, 2, 2, 2, 3, 4, 5}[t.Rng.Intn(11)], k: hiveKey(t, alpha), stop: 1 + t.Rng.Intn(4)}
		if noEmptyKey && len(o.k) == 0 {
			o.k = []byte{0}
		}
		if o.kind == 2 {
			o.v = randBytes(t.Rng, 1+t.Rng.Intn(20))
			if t.Rng.Intn(500) == 0 {
				o.v = randBytes(t.Rng, 70000)
			}
		}
		if o.kind == 3 && t.Rng.Intn(2) == 0 {
			o.v = []byte{}
		}
		ops = append(ops, o)
	}
	return ops
}

// hiveExec executes the operation and compares with the model of the whole database
func hiveExec(t *T, parts []partition, all map[string][]byte, o hiveOp) {
	p := parts[o.part]
	full := string(p.prefix) + string(o.k)
	want, live := all[full]
	k, v := append([]byte{}, o.k...), append([]byte(nil), o.v...)
	switch o.kind {
	case 0:
		got := p.ad.Get(k)
		t.Check(bytes.Equal(got, want) && (len(got) > 0) == live, "%s: got %x, want %x", o, got, want)
		t.Check(live || got == nil, "%s: absent key gives a value which is not nil", o)
	case 1:
		got := p.ad.Has(k)
		t.Check(got == live, "%s: got %v, want %v", o, got, live)
	case 2, 3:
		p.ad.Set(k, v)
		if len(o.v) == 0 {
			delete(all, full)
		} else {
			all[full] = append([]byte{}, o.v...)
		}
	case 4, 5:
		live := map[string][]byte{}
		for f, v := range all {
			if strings.HasPrefix(f, string(p.prefix)) {
				live[f[len(p.prefix):]] = v
			}
		}
		n, stopped := 0, false
		total := len(live)
		var got, kept []kvPair
		p.ad.Iterate(func(k, v []byte) bool {
			got, kept = append(got, kvPair{append([]byte(nil), k...), append([]byte(nil), v...)}), append(kept, kvPair{k, v})
			t.Check(!stopped, "%s: the consumer is called after it has stopped", o)
			w, ok := live[string(k)]
			t.Check(ok && bytes.Equal(w, v), "%s: pair %x:%x is not in the partition, or twice", o, k, v)
			delete(live, string(k))
			n++
			stopped = o.kind == 5 && n == o.stop
			return !stopped
		})
		for i, q := range kept {
			t.Check(bytes.Equal(q.k, got[i].k) && bytes.Equal(q.v, got[i].v), "%s: pair %d was delivered as %x:%x, the consumer keeps it, and later it is %x:%x", o, i, got[i].k, got[i].v, q.k, q.v)
		}
		if o.kind == 5 {
			t.Check(n == minInt(o.stop, total), "%s: %d pairs are delivered", o, n)
		} else {
			t.Check(len(live) == 0, "%s: %d of %d pairs are not delivered", o, len(live), total)
		}
		t.Count("pairs iterated", n)
	}
	t.Eval(1)
	t.Count([]string{"get", "has", "set", "delete", "iterate", "iterate and stop"}[o.kind], 1)
}

func partsOver(kvs kvstore.KVStore, prefixes [][]byte) (ret []partition) {
	bufs := oneBuffer(prefixes...)
	for i, p := range prefixes {
		ret = append(ret, partition{p, hive_adaptor.NewHiveKVStoreAdaptor(kvs, bufs[i])})
	}
	return
}

// mapCase: histories on the instrumented database, all calls stay in the partition
func mapCase(t *T) {
	prefixes := prefixesOf(t)
	db := newFakeDB()
	db.c.share = t.n%2 == 0
	if t.n%3 == 0 {
		db.c.rng = t.Rng
	}
	parts := partsOver(db, prefixes)
	all := map[string][]byte{}
	// foreign content
	for i := 0; i < t.Rng.Intn(4); i++ {
		all[string(hiveKey(t, []byte{0, 1, 2, 0xff}))] = []byte("foreign")
	}
	for k, v := range all {
		db.c.m[k] = v
	}
	ops := hiveOps(t, len(parts), 20+t.Rng.Intn(60), false)
	for _, o := range ops {
		t.Logf("%s", o)
		p := parts[o.part].prefix
		db.c.touched = func(op string, key []byte) {
			t.Check(bytes.HasPrefix(key, p), "%s: the database is asked to %s '%x', which is outside prefix '%x'", o, op, key, p)
			t.Check(op == "get" || op == "has" || op == "set" || op == "delete" || op == "iterate", "%s: the database is asked to %s", o, op)
			if o.kind == 0 || o.kind == 1 || o.kind >= 4 {
				t.Check(op != "set" && op != "delete", "%s: the database is asked to %s", o, op)
			}
		}
		t.mustNot(func() string { return o.String() }, func() { hiveExec(t, parts, all, o) })
		if t.Rng.Intn(10) == 0 {
			t.Check(sameContent(db.c.m, all), "%s: content of the database: %s", o, diffStores(db.c.m, all))
		}
	}
	t.Check(sameContent(db.c.m, all), "content of the database: %s", diffStores(db.c.m, all))
	t.Count("database calls checked", db.c.n)
	t.Seen(fmt.Sprint(prefixes), fmt.Sprint(ops))
	t.Sample("prefixes %x: %d calls, %d pairs in the database", prefixes, len(ops), len(all))
}

// dbErrors are errors a database may give. None of them means that the key is absent
var dbErrors = []error{errDB, kvstore.ErrStoreClosed, fmt.Errorf("wrapped: %w", errDB), errors.New("key not found"), errors.New("")}

func hiveFaults(t *T) {
	prefixes := prefixesOf(t)
	db := newFakeDB()
	parts := partsOver(db, prefixes)
	all := map[string][]byte{}
	kind := dbErrors[t.Rng.Intn(len(dbErrors))]
	after := t.Rng.Intn(3) == 0
	every := 1 + t.Rng.Intn(3)
	for i, o := range hiveOps(t, len(parts), 20+t.Rng.Intn(30), false) {
		t.Logf("%s", o)
		if i < 5 || i%every != 0 {
			t.mustNot(func() string { return o.String() }, func() { hiveExec(t, parts, all, o) })
			continue
		}
		// every call of the database which the operation needs fails in turn
		for f := 1; ; f++ {
			db.c.after = nil
			if after {
				db.c.after = map[string]bool{"get": true, "has": true, "set": true, "delete": true}
			}
			db.c.iterAt = t.Rng.Intn(3)
			start, hit := db.c.n, false
			db.c.fault = func(n int, op string) error {
				if n == start+f {
					hit = true
					return kind
				}
				return nil
			}
			before := copyMap(db.c.m)
			p := parts[o.part]
			s := t.surfaced(o.String(), func() {
				switch o.kind {
				case 0:
					p.ad.Get(o.k)
				case 1:
					p.ad.Has(o.k)
				case 2, 3:
					p.ad.Set(o.k, o.v)
				default:
					p.ad.Iterate(func(k, v []byte) bool { return true })
				}
			})
			db.c.fault = nil
			t.Eval(1)
			if !hit {
				t.Check(!s, "%s: panics without a fault", o)
				break
			}
			t.Check(s, "%s: error '%v' of the database at call %d is not surfaced", o, kind, f)
			t.Count("faults surfaced", 1)
			// the failed operation has happened or has not, and nothing else
			full := string(p.prefix) + string(o.k)
			for k := range before {
				if k != full {
					t.Check(bytes.Equal(before[k], db.c.m[k]), "%s: failed and changed '%x'", o, k)
				}
			}
			t.Check(len(db.c.m) <= len(before)+1, "%s: failed and added other pairs", o)
			v, is := db.c.m[full]
			v0, is0 := before[full]
			t.Check(is == is0 && bytes.Equal(v, v0) || o.kind >= 2 && o.kind <= 3 && is == (len(o.v) > 0) && bytes.Equal(v, o.v), "%s: failed and left %x", o, v)
			t.Check(f < 50, "%s: too many calls", o)
		}
		db.c.after = nil
		hiveExec(t, parts, all, o)
	}
	t.Check(sameContent(db.c.m, all), "content of the database: %s", diffStores(db.c.m, all))
	t.Seen("faults", fmt.Sprint(prefixes), kind, after, all)
}

// rawEmpty: empty values which somebody else has stored are the same thing for all calls
func rawEmpty(t *T) {
	db := newFakeDB()
	ad := hive_adaptor.NewHiveKVStoreAdaptor(db, roomy([]byte{1}))
	for i := 0; i < 6; i++ {
		k := fromAlpha(t.Rng, []byte{0, 1}, t.Rng.Intn(3))
		db.c.m["\x01"+string(k)] = randBytes(t.Rng, t.Rng.Intn(2))
	}
	for k := range db.c.m {
		t.Check(ad.Has([]byte(k[1:])) == (ad.Get([]byte(k[1:])) != nil), "presence and reading do not agree for raw value %x", db.c.m[k])
		t.Eval(1)
	}
	t.Seen("raw", db.c.m)
}

func closedCase(t *T) {
	kvs := mapdb.NewMapDB()
	ad := hive_adaptor.NewHiveKVStoreAdaptor(kvs, roomy([]byte{1}))
	ad.Set([]byte("a"), []byte("b"))
	_ = kvs.Close()
	for i, f := range []func(){func() { ad.Get([]byte("a")) }, func() { ad.Has([]byte("a")) }, func() { ad.Has([]byte("b")) }, func() { ad.Set([]byte("a"), []byte("c")) }, func() { ad.Set([]byte("a"), nil) }, func() { ad.Iterate(func(k, v []byte) bool { return true }) }} {
		t.Check(t.surfaced("closed database", f), "call %d on a closed database succeeds", i)
		t.Eval(1)
	}
	t.Seen("closed")
}

// realDB: the databases of the library, in memory and on disk with reopening
func realDB(t *T, onDisk bool) {
	prefixes := prefixesOf(t)
	all := map[string][]byte{}
	if !onDisk {
		parts := partsOver(mapdb.NewMapDB(), prefixes)
		for _, o := range hiveOps(t, len(parts), 30+t.Rng.Intn(60), false) {
			t.Logf("%s", o)
			t.mustNot(func() string { return o.String() }, func() { hiveExec(t, parts, all, o) })
		}
		t.Seen("mapdb", fmt.Sprint(prefixes), fmt.Sprint(all))
		return
	}
	dir, err := os.MkdirTemp(tmpDir(), "badger")
	t.Check(err == nil, "harness: %v", err)
	defer os.RemoveAll(dir)
	for session := 0; session < 2; session++ {
		db, err := badger.CreateDB(filepath.Join(dir, "db"))
		t.Check(err == nil, "harness: badger: %v", err)
		kvs := badger.New(db)
		parts := partsOver(kvs, prefixes)
		func() {
			defer func() { _ = kvs.Close() }()
			for i := range parts {
				hiveExec(t, parts, all, hiveOp{part: i, kind: 4})
			}
			for _, o := range hiveOps(t, len(parts), 60, true) { // badger has no empty keys
				t.Logf("%s", o)
				t.mustNot(func() string { return o.String() }, func() { hiveExec(t, parts, all, o) })
			}
			for i := range parts {
				hiveExec(t, parts, all, hiveOp{part: i, kind: 4})
			}
		}()
		t.Count("databases on disk opened", 1)
		// closed
		t.Check(t.surfaced("closed badger", func() { parts[0].ad.Get([]byte{1}) }), "reading a closed database succeeds")
	}
	t.Seen("badger", fmt.Sprint(prefixes), fmt.Sprint(all))
}

// hiveConcurrent: every goroutine owns a partition and sees its own map only
func hiveConcurrent(t *T) {
	kvs := mapdb.NewMapDB()
	prefixes := [][]byte{{1}, {2}, {3, 1}, {3, 2}, {0xff}, {0, 0}}
	parts := partsOver(kvs, prefixes)
	var wg sync.WaitGroup
	msgs := make([]string, len(parts))
	for i := range parts {
		sub := &T{c: t.c, suite: t.suite, n: t.n, Rng: caseRng(t.c.seed, "C13", t.suite, t.n*100+i), counts: map[string]int64{}, dist: map[uint64]struct{}{}}
		ops := hiveOps(sub, 1, 150, false)
		wg.Add(1)
		go func(i int) {
			defer wg.Done()
			msgs[i], _ = protect(func() {
				own := map[string][]byte{}
				for j, o := range ops {
					hiveExec(sub, parts[i:i+1], own, o)
					if j%8 == 0 {
						runtime.Gosched()
					}
				}
			})
		}(i)
	}
	wg.Wait()
	for i, m := range msgs {
		t.Check(m == "", "partition %x used concurrently with other partitions: %s", prefixes[i], m)
	}
	t.Count("concurrent partitions", len(parts))
	t.Eval(len(parts) * 150)
	t.Seen("concurrent", t.n)
}

// trieFaults: a trie over a failing database gives an error and never another result
func trieFaults(t *T) {
	cfg := randCfg(t.Rng)
	s := stateBy(t, cfg, 30)
	db := newFakeDB()
	db.c.quiet = true
	two := oneBuffer([]byte{1}, []byte{2})
	tp, vp := two[0], two[1]
	for k, v := range s.w.ts.m {
		db.c.m[string(tp)+k] = v
	}
	for k, v := range s.w.cur {
		db.c.m[string(vp)+k] = v
	}
	var vs trie.KVReader
	if cfg.Thr > 0 {
		vs = hive_adaptor.NewHiveKVStoreAdaptor(db, vp)
	}
	ts := hive_adaptor.NewHiveKVStoreAdaptor(db, tp)
	open := func() *trie.Trie { return trie.New(s.w.model, ts, vs, cfg.Opt) }
	keys := s.probeKeys(t, 6)
	for _, k := range keys {
		k := k
		v := randBytes(t.Rng, 3)
		acts := []struct {
			name string
			f    func() []byte
		}{
			{"root of a reader", func() []byte { return rootOf(trie.NewTrieReader(s.w.model, ts, vs)) }},
			{"proof", func() []byte { return proofBytes(t, s.w.model, k, trie.NewTrieReader(s.w.model, ts, vs)) }},
			{"update and commit", func() []byte { tr := open(); tr.Update(k, v); tr.Commit(); return rootOf(tr) }},
			{"delete and commit", func() []byte { tr := open(); tr.Delete(k); tr.Commit(); return rootOf(tr) }},
			{"delete, persist", func() []byte {
				tr := open()
				tr.Delete(k)
				tr.Commit()
				into := newMStore()
				for k, v := range s.w.ts.m {
					into.Set([]byte(k), v)
				}
				tr.PersistMutations(into)
				return rootOf(trie.NewTrieReader(s.w.model, into, s.w.valueReader()))
			}},
		}
		a := acts[t.Rng.Intn(len(acts))]
		db.c.fault = nil
		start := db.c.n
		want := a.f()
		total := db.c.n - start
		for f := 1; f <= total; f++ {
			start, hit := db.c.n, false
			db.c.fault = func(n int, op string) error {
				if n == start+f {
					hit = true
					return errDB
				}
				return nil
			}
			var got []byte
			sur := t.surfaced(a.name, func() { got = a.f() })
			db.c.fault = nil
			t.Eval(1)
			if !hit {
				t.Check(!sur, "%s of key %x panics without a fault", a.name, k)
				continue
			}
			t.Check(sur, "%s of key %x: error of the database at read %d of %d is not surfaced (result %x, without fault %x)", a.name, k, f, total, got, want)
			t.Count("faults under a trie", 1)
		}
	}
	t.Seen("trie", cfg.String(), s.tree.rootBytes())
}

func runC13(c *Ctx) {
	c.Cases("histories", 60000*c.scale, mapCase)
	c.Cases("faults", 40000*c.scale, hiveFaults)
	c.Cases("raw-empty", 50*c.scale, rawEmpty)
	c.Cases("closed", 1, closedCase)
	c.Cases("mapdb", 20000*c.scale, func(t *T) { realDB(t, false) })
	c.Cases("badger", 100*c.scale, func(t *T) { realDB(t, true) })
	c.Cases("concurrent", 1500*c.scale, hiveConcurrent)
	c.Cases("trie-faults", 20000*c.scale, trieFaults)
}
