package main

import (
	"bytes"
	"fmt"
	"os"

	"github.com/iotaledger/hive.go/core/kvstore"
	"github.com/iotaledger/hive.go/core/kvstore/mapdb"
	"github.com/iotaledger/trie.go/hive_adaptor"
	"github.com/iotaledger/trie.go/models/trie_blake2b"
	"github.com/iotaledger/trie.go/models/trie_blake2b/trie_blake2b_verify"
	"github.com/iotaledger/trie.go/models/trie_kzg_bn256"
	"github.com/iotaledger/trie.go/trie"
)

func init() {
	register(&property{id: "C26",
		rule:  "Objects are used for very long, or with very much content: one trie (with its model, its store and a reader) for up to 70000 commits over few keys, chains of thousands of clones of clones, tries of 15000 to 76000 pairs in one batch which are then thinned and emptied, streams, dumps and in-memory stores of more than 65536 records, adaptors with more than 65536 pairs, batches of tens of thousands of updates and updaters with up to 70000 commits, validators called tens of thousands of times. At each commit, or at the end of each phase, the result is compared with the independent oracle as for small and young objects. Distinct by suite, configuration and final content.",
		assum: []string{"what shows only after more than 2^17 steps or pairs is out of reach"},
		run:   runC26})
}

// longLife: one trie, never reopened, for very many rounds over few keys
func longLife(t *T) {
	r := t.Rng
	cfg := optCfg(t)
	rounds := 300 + r.Intn(4000)
	if t.n%8 == 0 {
		rounds = 66000 + r.Intn(4000)
	}
	keys := [][]byte{}
	for i := 0; i < 2+r.Intn(5); i++ {
		k := fromAlpha(r, []byte{0, 1, 0x10, 0xff}, r.Intn(4))
		keys = append(keys, k)
	}
	w := newWorld(t, cfg)
	kept := w.reader()
	var vals [][]byte
	for i := 0; i < 4; i++ {
		vals = append(vals, randBytes(r, 1+r.Intn(40)))
	}
	for i := 0; i < rounds; i++ {
		for j := r.Intn(3); j >= 0; j-- {
			k := keys[r.Intn(len(keys))]
			switch r.Intn(4) {
			case 0:
				w.exec(Op{Kind: opDel, K: k})
			default:
				w.exec(Op{Kind: opSet, K: k, V: vals[r.Intn(len(vals))]})
			}
		}
		where := fmt.Sprintf("%s: round %d of a long life", cfg, i)
		switch x := r.Intn(40); {
		case x == 0:
			w.exec(Op{Kind: opClear})
		case x < 12:
			w.exec(Op{Kind: opPersist})
			want := w.tree.storeOf()
			t.Check(sameContent(w.ts.m, want), "%s: the store is not the one of the content: %s", where, diffStores(w.ts.m, want))
			w.checkRoot(w.tr, where)
			w.checkRoot(kept, where+", kept reader")
		case x < 14:
		default:
			w.exec(Op{Kind: opCommit})
			w.checkRoot(w.tr, where)
		}
	}
	w.exec(Op{Kind: opPersist})
	w.checkNodes(kept, "at the end of a long life, kept reader")
	w.checkNodes(w.tr, "at the end of a long life")
	t.Count("rounds of long lives", rounds)
	t.Seen("life", cfg.String(), w.tree.rootBytes(), rounds)
	t.Sample("%s: %d rounds on one trie with %d keys", cfg, rounds, len(keys))
}

// cloneChain: clones of clones of clones; some ancestors are kept and looked at in the end
func cloneChain(t *T) {
	r := t.Rng
	cfg := optCfg(t)
	w := newWorld(t, cfg)
	keys := [][]byte{}
	for i := 0; i < 2+r.Intn(12); i++ {
		keys = append(keys, fromAlpha(r, []byte{0, 1, 0x10, 0xff}, r.Intn(5)))
	}
	type ancestor struct {
		tr      *trie.Trie
		content map[string][]byte
		gen     int
	}
	var kept []ancestor
	gens := 300 + r.Intn(2500)
	for g := 0; g < gens; g++ {
		old := w.tr
		w.tr = old.Clone()
		if r.Intn(40) == 0 {
			kept = append(kept, ancestor{old, copyMap(w.cur), g})
		}
		k := keys[r.Intn(len(keys))]
		switch x := r.Intn(12); {
		case x < 5:
			w.exec(Op{Kind: opSet, K: k, V: randBytes(r, 1+r.Intn(40))})
		case x < 8:
			w.exec(Op{Kind: opDel, K: k})
		case x < 10:
			w.exec(Op{Kind: opCommit})
			w.checkRoot(w.tr, fmt.Sprintf("%s: clone of generation %d", cfg, g))
		}
	}
	w.exec(Op{Kind: opCommit})
	w.checkRoot(w.tr, fmt.Sprintf("%s: last of %d generations", cfg, gens))
	for _, a := range kept {
		a.tr.Commit()
		got, want := rootOf(a.tr), buildTree(a.content, cfg).rootBytes()
		t.Eval(1)
		t.Check(bytes.Equal(got, want), "%s: ancestor of generation %d: root %x, want %x", cfg, a.gen, got, want)
		t.Count("ancestors checked", 1)
	}
	w.exec(Op{Kind: opPersist})
	want := w.tree.storeOf()
	t.Check(sameContent(w.ts.m, want), "%s: store of generation %d: %s", cfg, gens, diffStores(w.ts.m, want))
	t.Count("generations of clones", gens)
	t.Seen("clones", cfg.String(), w.tree.rootBytes(), gens)
}

// manyPairs: a large trie is filled in one batch, read completely, changed, thinned and emptied
func manyPairs(t *T, cfg Cfg, n int) {
	r := t.Rng
	w := newWorld(t, cfg)
	w.forceVS = true
	w.open()
	kl := 2 + r.Intn(3)
	big := n >= 66000 // more nodes than 16 bits count, all of them in the buffer
	if big {
		kl = 3 + r.Intn(2)
	}
	fill := func(n int) {
		for i := 0; i < n; i++ {
			k := randBytes(r, kl)
			if r.Intn(8) == 0 {
				k = append(k, randBytes(r, r.Intn(3))...)
			}
			w.exec(Op{Kind: opSet, K: k, V: randBytes(r, 1+r.Intn(40))})
		}
	}
	var kept *trie.TrieReader
	look := func(where string) {
		where = fmt.Sprintf("%s: %s: %d pairs", cfg, where, len(w.cur))
		if big || r.Intn(2) == 0 { // everything is read, and some of it changed, before it is persisted
			w.exec(Op{Kind: opCommit})
			w.checkNodes(w.tr, where+", not persisted")
			if len(w.cur) > 0 {
				fill(5)
			}
		}
		w.exec(Op{Kind: opPersist})
		w.checkRoot(w.tr, where)
		want := w.tree.storeOf()
		t.Check(sameContent(w.ts.m, want), "%s: the store is not the one of the content: %s", where, diffStores(w.ts.m, want))
		if kept == nil {
			kept = w.reader()
		}
		w.checkRoot(kept, where)
		w.checkNodes(kept, where+", kept reader")
		w.checkNodes(w.tr, where)
		bad := w.tr.Reconcile(w.vs)
		t.Check(len(bad) == 0, "%s: %d keys do not reconcile with the values", where, len(bad))
		t.Eval(3)
		t.Count("pairs in large tries", len(w.cur))
		if s := stateOf(w); s.m != nil {
			for i := 0; i < 30 && len(s.keys) > 0; i++ {
				k := s.keys[r.Intn(len(s.keys))]
				if i%3 == 0 {
					k = append(append([]byte{}, k...), byte(i))
				}
				s.checkProof(t, k, []trie.NodeStore{w.tr, kept}[i%2], where)
			}
		}
	}
	fill(n)
	look("filled")
	// built at once from the values
	all := newMStore()
	all.m = w.cur
	other := trie.New(newModel(cfg), newMStore(), all, cfg.Opt)
	other.UpdateAll(all)
	other.Commit()
	t.Check(bytes.Equal(rootOf(other), w.tree.rootBytes()), "%s: mass update from %d pairs gives root %x, want %x", cfg, len(w.cur), rootOf(other), w.tree.rootBytes())
	// pairs which do not match are reported, all of them
	diff := newMStore()
	diff.m = map[string][]byte{}
	wrong := map[string]bool{}
	for k, v := range w.cur {
		if r.Intn(2) == 0 {
			v = append([]byte{}, v...)
			v[0] ^= 1
			if !bytes.Equal(v, []byte(k)) && !bytes.Equal(w.cur[k], []byte(k)) {
				wrong[k] = true
			} else {
				v = w.cur[k]
			}
		}
		diff.m[k] = v
	}
	bad := w.tr.Reconcile(diff)
	t.Check(len(bad) == len(wrong), "%s: %d keys are reported as different, want %d", cfg, len(bad), len(wrong))
	for _, k := range bad {
		t.Check(wrong[string(k)], "%s: key %x is reported as different", cfg, k)
	}
	if big || r.Intn(2) == 0 {
		w.exec(Op{Kind: opClear})
	}
	fill(n / 20)
	look("changed")
	keys := sortedKeys(w.cur)
	r.Shuffle(len(keys), func(i, j int) { keys[i], keys[j] = keys[j], keys[i] })
	for _, k := range keys[:len(keys)-20] {
		w.exec(Op{Kind: opDel, K: []byte(k)})
	}
	look("thinned")
	for _, k := range keys {
		w.exec(Op{Kind: opDel, K: []byte(k)})
	}
	look("emptied")
	t.Seen("many", cfg.String(), n, kl)
}

// manyRecords: streams, files, dumps and stores of more records than 16 bits count
func manyRecords(t *T) {
	r := t.Rng
	n := 65530 + r.Intn(12)
	if t.n%2 == 0 {
		n = 66000 + r.Intn(70000)
	}
	ps := make([]kvPair, n)
	for i := range ps {
		ps[i] = kvPair{[]byte(fmt.Sprintf("%x", i)), randBytes(r, 1+r.Intn(12))}
	}
	all, _ := encodePairs(ps)
	var buf bytes.Buffer
	w := trie.NewBinaryStreamWriter(&buf)
	for _, p := range ps {
		t.Check(w.Write(p.k, p.v) == nil, "pair is not written")
	}
	cnt, sz := w.Stats()
	t.Check(cnt == n && sz == len(all), "statistics %d, %d, want %d, %d", cnt, sz, n, len(all))
	t.Check(bytes.Equal(buf.Bytes(), all), "stream of %d pairs has wrong bytes", n)
	got, err := collect(t, trie.NewBinaryStreamIterator(bytes.NewReader(all)), -1, "long stream")
	t.Check(err == nil && samePairs(got, ps), "stream of %d pairs gives %d pairs, %v", n, len(got), err)
	stop := 65534 + r.Intn(4)
	if stop <= n {
		got, err = collect(t, trie.NewBinaryStreamIterator(bytes.NewReader(all)), stop, "long stream")
		t.Check(err == nil && samePairs(got, ps[:min(stop, n)]), "consumer which stops after %d pairs gets %d, %v", stop, len(got), err)
	}
	cut := len(all) - 1 - r.Intn(3)
	got, err = collect(t, trie.NewBinaryStreamIterator(bytes.NewReader(all[:cut])), -1, "long stream")
	t.Check(err != nil && samePairs(got, ps[:n-1]), "truncated stream of %d pairs gives %d pairs, %v", n, len(got), err)
	// in memory
	mem := trie.NewInMemoryKVStore()
	ref := map[string][]byte{}
	for _, p := range ps {
		mem.Set(p.k, p.v)
		ref[string(p.k)] = p.v
	}
	for i := 0; i < n/10; i++ {
		k := ps[r.Intn(n)].k
		mem.Set(k, nil)
		delete(ref, string(k))
	}
	size := 0
	for k, v := range ref {
		size += len(record(kvPair{[]byte(k), v}))
	}
	t.Check(trie.NumEntries(mem) == len(ref) && trie.ByteSize(mem) == size, "store of %d pairs reports %d pairs, %d bytes, want %d", len(ref), trie.NumEntries(mem), trie.ByteSize(mem), size)
	f := tempName(t)
	defer os.Remove(f)
	b, err := trie.DumpToFile(mem, f)
	t.Check(err == nil && b == size, "dump of %d pairs reports %d bytes, want %d, %v", len(ref), b, size, err)
	into := newMStore()
	b, err = trie.UnDumpFromFile(into, f)
	t.Check(err == nil && b == size, "restoring %d pairs reports %d bytes, want %d, %v", len(ref), b, size, err)
	t.Check(sameContent(into.m, ref), "restored store of %d pairs differs: %s", len(ref), diffStores(into.m, ref))
	mem2 := trie.NewInMemoryKVStore()
	_, err = trie.UnDumpFromFile(mem2, f)
	t.Check(err == nil && trie.NumEntries(mem2) == len(ref), "restored store has %d pairs, want %d", trie.NumEntries(mem2), len(ref))
	// random streams
	par := trie.RandStreamParams{Seed: r.Int63(), NumKVPairs: n, MaxKey: 1 + r.Intn(8), MaxValue: 1 + r.Intn(8)}
	a, err := collect(t, trie.NewRandStreamIterator(par), -1, "random")
	t.Check(err == nil && len(a) == n, "random stream of %d pairs gives %d, %v", n, len(a), err)
	c, _ := collect(t, trie.NewRandStreamIterator(par), -1, "random")
	t.Check(samePairs(a, c), "random stream of %d pairs is not reproducible", n)
	for _, p := range a {
		t.Check(len(p.k) <= par.MaxKey && len(p.v) <= par.MaxValue, "random stream: key of %d bytes, value of %d bytes", len(p.k), len(p.v))
	}
	t.Eval(10)
	t.Count("records", 4*n)
	t.Seen("records", n, all[:100])
}

// manyKeys: adaptors over a large database
func manyKeys(t *T) {
	r := t.Rng
	n := 66000 + r.Intn(20000)
	var kvs kvstore.KVStore = mapdb.NewMapDB()
	if t.n%2 == 0 {
		db := newFakeDB()
		db.c.quiet = true
		kvs = db
	}
	prefixes := [][]byte{{1}, {2}, {1, 0xff}}
	ads := []*hive_adaptor.HiveKVStoreAdaptor{}
	for _, p := range prefixes {
		ads = append(ads, hive_adaptor.NewHiveKVStoreAdaptor(kvs, p))
	}
	ref := []map[string][]byte{{}, {}, {}}
	for i := 0; i < n; i++ {
		for j := 0; j < 2; j++ {
			if j == 1 && i%7 != 0 {
				continue
			}
			k := []byte(fmt.Sprintf("%d", i))
			v := randBytes(r, 1+r.Intn(8))
			ads[j].Set(k, v)
			ref[j][string(k)] = v
		}
		if i%50 == 0 {
			ads[0].Set([]byte("0"), nil)
			delete(ref[0], "0")
		}
	}
	for j := 0; j < 2; j++ {
		got := map[string][]byte{}
		cnt := 0
		ads[j].Iterate(func(k, v []byte) bool {
			got[string(k)] = append([]byte{}, v...)
			cnt++
			return true
		})
		t.Check(cnt == len(ref[j]) && sameContent(got, ref[j]), "partition of %d pairs iterates over %d: %s", len(ref[j]), cnt, diffStores(got, ref[j]))
		for k, v := range ref[j] {
			t.Check(bytes.Equal(ads[j].Get([]byte(k)), v) && ads[j].Has([]byte(k)), "key %s of a partition of %d pairs: wrong value", k, len(ref[j]))
		}
		stop, seen := 1+r.Intn(len(ref[j])), 0
		ads[j].Iterate(func(k, v []byte) bool { seen++; return seen < stop })
		t.Check(seen == stop, "consumer which stops after %d pairs gets %d", stop, seen)
	}
	ads[2].Iterate(func(k, v []byte) bool { t.Fail("empty partition gives key %x", k); return false })
	t.Eval(5)
	t.Count("keys in databases", len(ref[0])+len(ref[1]))
	t.Seen("keys", n)
}

// longUpdater: very many commits, or very many updates in one commit, of one updater
func longUpdater(t *T) {
	r := t.Rng
	cfg := batchCfg(r)
	w := newBatchWorld(t, cfg, layouts[r.Intn(len(layouts))], r.Intn(2) == 0)
	var ops []batchOp
	if t.n%2 == 0 { // large batches
		n := 5000 + r.Intn(20000)
		if t.n%4 == 0 {
			n = 66000 + r.Intn(4000)
		}
		for b := 0; b < 2; b++ {
			for i := 0; i < n; i++ {
				k := randBytes(r, 2+r.Intn(2))
				v := randBytes(r, 1+r.Intn(8))
				if r.Intn(8) == 0 {
					v = nil
				}
				ops = append(ops, batchOp{k: k, v: v})
			}
			ops = append(ops, batchOp{commit: true})
			n = n / 10
		}
		t.Count("updates in large batches", len(ops))
	} else {
		n := 500 + r.Intn(5000)
		if t.n%4 == 1 {
			n = 66000
		}
		for i := 0; i < n; i++ {
			for j := r.Intn(3); j >= 0; j-- {
				k := fromAlpha(r, []byte{0, 1, 0x10, 0xff}, r.Intn(3))
				v := randBytes(r, 1+r.Intn(36))
				if r.Intn(3) == 0 {
					v = nil
				}
				ops = append(ops, batchOp{k: k, v: v})
			}
			ops = append(ops, batchOp{commit: true})
		}
		t.Count("commits of one updater", n)
	}
	w.run(ops, nil)
	t.Seen("updater", cfg.String(), len(ops), buildTree(w.all, cfg).rootBytes())
}

// longValidation: proofs are made and validated very often with one model; verdicts never change
func longValidation(t *T) {
	r := t.Rng
	cfg := allCfgs()[t.n%6]
	w := newWorld(t, cfg)
	for i := 0; i < 8; i++ {
		w.exec(Op{Kind: opSet, K: fromAlpha(r, []byte{0, 1, 0x10, 0xff}, r.Intn(5)), V: randBytes(r, 1+r.Intn(40))})
	}
	w.exec(Op{Kind: opPersist})
	s := stateOf(w)
	type item struct {
		p    *trie_blake2b.Proof
		b    []byte
		root []byte
		ok   bool
	}
	var items []item
	for _, k := range s.keys {
		p := s.m.Proof(k, w.tr)
		bad := append([]byte{}, s.root...)
		bad[r.Intn(len(bad))] ^= 1 << r.Intn(8)
		items = append(items, item{p, p.Bytes(), s.root, true}, item{p, p.Bytes(), bad, false})
		e := cloneProof(p)
		if n := len(e.Path); n > 0 && len(e.Path[n-1].Terminal) > 1 {
			e.Path[n-1].Terminal[1] ^= 1
			items = append(items, item{e, e.Bytes(), s.root, false})
		}
	}
	rounds := 20000
	if t.n%6 == 0 {
		rounds = 70000
	}
	reader := w.reader()
	for i := 0; i < rounds; i++ {
		it := items[r.Intn(len(items))]
		err := trie_blake2b_verify.Validate(it.p, it.root)
		t.Check((err == nil) == it.ok, "%s: validation %d gives %v, want acceptance: %v", cfg, i, err, it.ok)
		if i%8 == 0 {
			k := s.keys[r.Intn(len(s.keys))]
			b := s.m.Proof(k, []trie.NodeStore{w.tr, reader}[i/8%2]).Bytes()
			p2, err := trie_blake2b.ProofFromBytes(b)
			t.Check(err == nil && trie_blake2b_verify.Validate(p2, s.root) == nil, "%s: proof %d of one model is not valid", cfg, i)
		}
	}
	t.Eval(rounds)
	t.Count("validations", rounds)
	t.Seen("validation", cfg.String(), s.root)
}

// longKZG: as longLife and longValidation, with the polynomial model
func longKZG(t *T) {
	r := t.Rng
	cfg := Cfg{Arity: 256, KZG: true}
	w := newWorld(t, cfg)
	keys := [][]byte{{}, {1}, {1, 2}, {0xff, 3}, {0xff}}
	n := 400 + r.Intn(200)
	for i := 0; i < n; i++ {
		k := keys[r.Intn(len(keys))]
		if r.Intn(3) == 0 {
			w.exec(Op{Kind: opDel, K: k})
		} else {
			w.exec(Op{Kind: opSet, K: k, V: []byte{byte(1 + r.Intn(3))}})
		}
		w.exec(Op{Kind: opPersist})
		w.checkRoot(w.tr, fmt.Sprintf("kzg: round %d of a long life", i))
	}
	w.exec(Op{Kind: opSet, K: []byte{1, 2}, V: []byte{9}})
	w.exec(Op{Kind: opSet, K: []byte{1, 3}, V: []byte{8}})
	w.exec(Op{Kind: opPersist})
	p, ok := trie_kzg_bn256.Model.ProofOfInclusion([]byte{1, 2}, w.tr)
	q, ok2 := trie_kzg_bn256.Model.ProofOfInclusion([]byte{1, 3}, w.tr)
	t.Check(ok && ok2, "kzg: no proof of a present key")
	root := trie.RootCommitment(w.tr)
	for i := 0; i < 60; i++ {
		t.Check(p.Validate(root, []byte{9}) == nil, "kzg: validation %d of a valid proof fails", i)
		t.Check(p.Validate(root, []byte{8}) != nil, "kzg: validation %d with a wrong value succeeds", i)
		if i%10 == 0 {
			t.Check(q.Validate(root, []byte{8}) == nil, "kzg: validation %d of a valid proof fails", i)
		}
	}
	t.Eval(n)
	t.Count("rounds of long lives, kzg", n)
	t.Seen("kzg", w.tree.rootBytes())
}

func runC26(c *Ctx) {
	k := minInt(c.scale, 6)
	c.Cases("long-life", 24*k, longLife)
	c.Cases("clone-chains", 24*k, cloneChain)
	c.casesW("many-pairs", 6*k, 4, func(t *T) {
		cfg := allCfgs()[t.n%6]
		cfg.Thr = []int{0, 20}[t.Rng.Intn(2)]
		cfg.Opt = t.Rng.Intn(2) == 0
		n := 15000 + t.Rng.Intn(15000)
		if t.n%6 == 2 {
			n = 66000 + t.Rng.Intn(10000)
		}
		manyPairs(t, cfg, n)
	})
	c.casesW("many-records", 4*k, 4, manyRecords)
	c.casesW("many-keys", 4*k, 4, manyKeys)
	c.Cases("long-updater", 8*k, longUpdater)
	c.Cases("long-validation", 12*k, longValidation)
	c.Cases("long-kzg", 4*k, longKZG)
}
