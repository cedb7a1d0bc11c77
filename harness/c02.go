package main

import (
	"bytes"
	"fmt"

	"github.com/iotaledger/trie.go/models/trie_blake2b"
	"github.com/iotaledger/trie.go/trie"
)

func init() {
	register(&property{id: "C02",
		rule:  "A case is a random history with commits, persists, cache clears, reopenings and clones under one configuration (arity, hash size, threshold, key-commitment option, sometimes KZG); at every persist the whole store is compared byte by byte with the independently encoded canonical tree, and readers and reopened tries are compared by root, nodes and proofs. Non-trivial: a persist of a non-empty content; distinct by (configuration, content).",
		assum: []string{"only committed states are persisted; the value store is kept in step when a threshold is used"},
		run:   runC02})
}

func optCfg(t *T) Cfg {
	cfg := randCfg(t.Rng)
	if t.Rng.Intn(4) == 0 {
		cfg.Thr = []int{1, 5, 19, 20, 21, 31, 32, 33, 64, 5000}[t.Rng.Intn(10)]
	}
	if t.Rng.Intn(4) == 0 {
		cfg.Opt = true
	}
	return cfg
}

func (w *World) checkStore(where string) {
	want := w.tree.storeOf()
	w.t.Eval(1)
	if !sameContent(w.ts.m, want) {
		w.t.Fail("%s: store differs from the canonical tree of the content: %s", where, diffStores(w.ts.m, want))
	}
	w.t.Count("stores compared", 1)
	w.t.Count("stored nodes compared", len(want))
}

// checkProofsEqual compares proofs of some keys between two views of the same state
func (w *World) checkProofsEqual(a, b trie.NodeStore, n int) {
	keys := sortedKeys(w.cur)
	for i := 0; i < n; i++ {
		var k []byte
		if len(keys) > 0 && w.t.Rng.Intn(3) > 0 {
			k = []byte(keys[w.t.Rng.Intn(len(keys))])
			if w.t.Rng.Intn(4) == 0 {
				k = k[:w.t.Rng.Intn(len(k)+1)]
			}
		} else {
			k = randBytes(w.t.Rng, w.t.Rng.Intn(4))
		}
		pa, pb := proofBytes(w.t, w.model, k, a), proofBytes(w.t, w.model, k, b)
		w.t.Check(bytes.Equal(pa, pb), "proof of key %x differs between the writer and the reopened trie: %x, %x", k, pa, pb)
		w.t.Count("proofs compared", 1)
	}
}

func c02Monitor(w *World) {
	var kept *trie.TrieReader
	if w.t.Rng.Intn(4) == 0 {
		w.ts2 = newMStore()
	}
	w.onPersist = func(w *World) {
		w.checkStore("after persist")
		if kept == nil {
			kept = w.reader()
		}
		if w.t.Rng.Intn(4) == 0 {
			// a reader which was opened on an earlier state
			w.checkRoot(kept, "kept reader")
			w.checkNodes(kept, "kept reader")
			w.t.Count("states seen by a kept reader", 1)
		}
		if len(w.cur) > 0 {
			w.t.Seen(w.cfg.String(), w.tree.rootBytes())
		}
		switch w.t.Rng.Intn(6) {
		case 0:
			rd := w.reader()
			w.checkRoot(rd, "reader")
			w.checkNodes(rd, "reader")
			w.checkProofsEqual(w.tr, rd, 3)
		case 1:
			var tr2 *trie.Trie
			if w.cfg.Opt {
				tr2 = trie.New(w.model, w.ts, w.valueReader(), true)
			} else {
				tr2 = trie.New(w.model, w.ts, w.valueReader())
			}
			w.checkRoot(tr2, "new trie on the store")
			w.checkNodes(tr2, "new trie on the store")
			w.checkProofsEqual(w.tr, tr2, 3)
		}
	}
	w.onCommit = func(w *World) {
		if w.t.Rng.Intn(8) == 0 {
			w.checkRoot(w.tr, "commit in a continued trie")
		}
	}
}

func runC02(c *Ctx) {
	c.Cases("history", 7000*c.scale, func(t *T) {
		cfg := optCfg(t)
		p := newProfile(t.Rng, cfg)
		ops := history(t.Rng, p, cfg, histParams{minOps: 5, maxOps: 100, pCommit: 25})
		t.Sample("%s %s: %v", cfg, p.name, histString(ops[:minInt(len(ops), 12)]))
		w := runHistory(t, cfg, ops, c02Monitor)
		rd := w.reader()
		w.checkRoot(rd, "reader at the end")
		w.checkNodes(rd, "reader at the end")
		w.checkProofsEqual(w.tr, rd, 4)
	})
	c.Cases("tiny", 25000*c.scale, func(t *T) {
		cfg := optCfg(t)
		p := &genProfile{hs: cfg.HS, thr: cfg.Thr, arity: cfg.Arity, alpha: alphabets[t.Rng.Intn(5)], lenMin: 0, lenMax: 3, pool: 2 + t.Rng.Intn(5)}
		ops := history(t.Rng, p, cfg, histParams{minOps: 2, maxOps: 14, pDel: 40, pCommit: 40})
		runHistory(t, cfg, ops, c02Monitor)
	})
	c.Cases("sizes", 600, func(t *T) {
		for _, cfg := range allCfgs() {
			if t.Rng.Intn(3) == 0 {
				cfg.Thr = t.Rng.Intn(t.n + 2)
			}
			w := newWorld(t, cfg)
			k := randBytes(t.Rng, 1+t.Rng.Intn(4))
			k2 := append(append([]byte{}, k...), randBytes(t.Rng, t.n)...)
			w.exec(Op{Kind: opSet, K: k, V: randBytes(t.Rng, t.n+1)})
			w.exec(Op{Kind: opSet, K: k2, V: randBytes(t.Rng, t.n+1)})
			if len(k2) > 1 {
				w.exec(Op{Kind: opSet, K: k2[:t.Rng.Intn(len(k2))], V: []byte{1}})
			}
			w.exec(Op{Kind: opPersist})
			w.checkStore(fmt.Sprintf("sizes %d %s", t.n, cfg))
			w.checkNodes(w.reader(), "sizes, reader")
			w.checkProofsEqual(w.tr, w.reader(), 3)
			w.exec(Op{Kind: opReopen})
			w.exec(Op{Kind: opDel, K: k})
			w.exec(Op{Kind: opPersist})
			w.checkStore(fmt.Sprintf("sizes %d %s after delete", t.n, cfg))
			t.Seen(cfg.String(), w.tree.rootBytes())
		}
	})
	c.Cases("fanout", 36, func(t *T) {
		// nodes with any number of children, 0..256, children removed one by one
		cfg := allCfgs()[t.n%6]
		w := newWorld(t, cfg)
		pre := randBytes(t.Rng, t.Rng.Intn(3))
		for _, i := range t.Rng.Perm(256) {
			w.exec(Op{Kind: opSet, K: append(append([]byte{}, pre...), byte(i)), V: []byte{byte(i), 1}})
			if t.Rng.Intn(16) == 0 {
				w.exec(Op{Kind: opPersist})
				w.checkStore("fan-out growing")
			}
		}
		w.exec(Op{Kind: opPersist})
		w.checkStore("fan-out full")
		w.exec(Op{Kind: opReopen})
		for _, i := range t.Rng.Perm(256) {
			w.exec(Op{Kind: opDel, K: append(append([]byte{}, pre...), byte(i))})
			if t.Rng.Intn(16) == 0 {
				w.exec(Op{Kind: opPersist})
				w.checkStore("fan-out shrinking")
				w.exec(Op{Kind: []opKind{opClear, opReopen, opCommit}[t.Rng.Intn(3)]})
			}
		}
		w.exec(Op{Kind: opPersist})
		w.checkStore("fan-out emptied")
		t.Seen("fanout", t.n)
	})
	c.Cases("large", 12*c.scale, func(t *T) {
		cfg := allCfgs()[t.n%6]
		if t.n%2 == 1 {
			cfg.Thr = 20
		}
		w := newWorld(t, cfg)
		w.onPersist = func(w *World) { w.checkStore("large") }
		bulkHistory(t, w, 4000+t.Rng.Intn(6000), func(string) {})
		w.checkNodes(w.reader(), "large, reader")
		w.checkProofsEqual(w.tr, w.reader(), 200)
		t.Seen(cfg.String(), w.tree.rootBytes())
	})
	c.Cases("longkeys", 24, func(t *T) {
		cfg := allCfgs()[t.n%6]
		n := []int{500, 4096, 8190, 32000}[t.n/6]
		if cfg.Arity == 2 && n > 9000 {
			n = 8192
		}
		w := newWorld(t, cfg)
		base := randBytes(t.Rng, n)
		for i := 0; i < 6; i++ {
			k := append([]byte(nil), base[:t.Rng.Intn(n)]...)
			k = append(k, randBytes(t.Rng, t.Rng.Intn(3))...)
			w.exec(Op{Kind: opSet, K: k, V: randBytes(t.Rng, 1+t.Rng.Intn(40))})
		}
		w.exec(Op{Kind: opSet, K: base, V: []byte{1}})
		w.exec(Op{Kind: opPersist})
		w.checkStore("long keys")
		w.checkNodes(w.reader(), "long keys, reader")
		w.checkProofsEqual(w.tr, w.reader(), 4)
		w.exec(Op{Kind: opReopen})
		w.exec(Op{Kind: opDel, K: base})
		w.exec(Op{Kind: opPersist})
		w.checkStore("long keys after delete")
		t.Seen(cfg.String(), w.tree.rootBytes())
	})
	// the persisted bytes do not depend on the route: compare stores of two different histories of one content
	c.Cases("routes", 1500*c.scale, func(t *T) {
		cfg := optCfg(t)
		p := newProfile(t.Rng, cfg)
		a := newWorld(t, cfg)
		for _, o := range history(t.Rng, p, cfg, histParams{minOps: 5, maxOps: 60}) {
			a.exec(o)
		}
		b := newWorld(t, cfg)
		for _, k := range sortedKeys(a.cur) {
			b.exec(Op{Kind: opSet, K: []byte(k), V: a.cur[k]})
		}
		b.exec(Op{Kind: opPersist})
		t.Eval(1)
		t.Check(sameContent(a.ts.m, b.ts.m), "stores of the same content differ: %s", diffStores(a.ts.m, b.ts.m))
		if len(a.cur) > 0 {
			t.Seen(cfg.String(), a.tree.rootBytes())
		}
	})
	// the polynomial model persists through the same code
	c.Cases("kzg", 60*c.scale, func(t *T) {
		cfg := Cfg{Arity: 256, KZG: true, Opt: t.Rng.Intn(4) == 0}
		p := &genProfile{hs: 32, arity: 256, alpha: alphabets[t.Rng.Intn(5)], lenMin: 0, lenMax: 3, pool: 3 + t.Rng.Intn(5)}
		ops := history(t.Rng, p, cfg, histParams{minOps: 5, maxOps: 25, pCommit: 30, noRead: true})
		w := runHistory(t, cfg, ops, func(w *World) {
			w.onPersist = func(w *World) {
				w.checkStore("kzg after persist")
				w.checkRoot(w.reader(), "kzg reader")
			}
		})
		w.checkNodes(w.reader(), "kzg reader")
		t.Seen(w.tree.rootBytes())
	})
	_ = trie_blake2b.New
}
