package main

import (
	"bytes"
	"fmt"

	"github.com/iotaledger/trie.go/trie"
)

func init() {
	register(&property{id: "C01",
		rule:  "A case is a random operation history (set/overwrite/delete/key-commitment/commit/persist/clear/reopen/clone/read) over a pool of related keys under one arity and hash size; after every commit the root (and at the end every node) is compared with an independently computed canonical tree. Non-trivial: the committed content is not empty; distinct by (configuration, content).",
		assum: []string{"blake2b from golang.org/x/crypto is trusted", "histories persist only committed states, as the API requires"},
		run:   runC01})
}

func c01Monitor(w *World) {
	w.onCommit = func(w *World) {
		w.checkRoot(w.tr, "after commit")
		if len(w.cur) > 0 {
			w.t.Seen(w.cfg.String(), w.tree.rootBytes())
		}
		if w.t.Rng.Intn(4) == 0 {
			w.checkNodes(w.tr, "after commit")
		}
		if w.t.Rng.Intn(4) == 0 {
			before := rootOf(w.tr)
			w.tr.Commit()
			w.t.Check(bytes.Equal(before, rootOf(w.tr)), "repeated commit changed the root")
		}
	}
	w.onPersist = func(w *World) {
		if w.t.Rng.Intn(3) == 0 {
			w.checkRoot(w.reader(), "reader after persist")
		}
	}
	w.onOp = func(w *World, o Op) {
		// the state after this operation: what the root would be if it was committed now
		if !w.dirty || len(w.cur) > 60 || w.t.Rng.Intn(10) > 0 {
			return
		}
		cl := w.tr.Clone()
		cl.Commit()
		want := buildTree(w.cur, w.cfg).rootBytes()
		w.t.Eval(1)
		w.t.Count("pending states committed in a clone", 1)
		w.t.Check(bytes.Equal(rootOf(cl), want), "clone committed after %s: root %x, want %x", o, rootOf(cl), want)
	}
}

func runC01(c *Ctx) {
	// long random histories
	c.Cases("history", 9000*c.scale, func(t *T) {
		cfg := randCfg(t.Rng)
		p := newProfile(t.Rng, cfg)
		ops := history(t.Rng, p, cfg, histParams{minOps: 5, maxOps: 120})
		t.Sample("%s %s: %v", cfg, p.name, histString(ops[:minInt(len(ops), 12)]))
		w := runHistory(t, cfg, ops, c01Monitor)
		w.checkNodes(w.tr, "end")
		w.checkRoot(w.reader(), "reader at the end")
	})
	// tiny exhaustive-like histories: two to four keys which are prefixes of each other, all short op sequences are likely
	c.Cases("tiny", 30000*c.scale, func(t *T) {
		cfg := randCfg(t.Rng)
		p := &genProfile{hs: cfg.HS, arity: cfg.Arity, alpha: alphabets[t.Rng.Intn(5)], lenMin: 0, lenMax: 3, pool: 2 + t.Rng.Intn(5)}
		ops := history(t.Rng, p, cfg, histParams{minOps: 2, maxOps: 14, pDel: 40, pCommit: 30})
		runHistory(t, cfg, ops, c01Monitor)
	})
	// keys inserted and deleted again between commits, below nodes with committed children
	c.Cases("churn", 12000*c.scale, func(t *T) {
		cfg := randCfg(t.Rng)
		p := &genProfile{hs: cfg.HS, arity: cfg.Arity, alpha: alphabets[t.Rng.Intn(7)], lenMin: 0, lenMax: 2, pool: 2 + t.Rng.Intn(8), prefix: randBytes(t.Rng, t.Rng.Intn(3))}
		keys := p.keys(t.Rng)
		live := map[string]bool{}
		var ops []Op
		for _, k := range keys {
			if t.Rng.Intn(4) > 0 {
				ops = append(ops, Op{Kind: opSet, K: k, V: randBytes(t.Rng, 1+t.Rng.Intn(35))})
				live[string(k)] = true
			}
		}
		for i := 1 + t.Rng.Intn(3); i > 0; i-- {
			ops = append(ops, Op{Kind: []opKind{opCommit, opPersist}[t.Rng.Intn(2)]})
			if ops[len(ops)-1].Kind == opPersist && t.Rng.Intn(2) == 0 {
				ops = append(ops, Op{Kind: opReopen})
			}
			for j := 1 + t.Rng.Intn(3); j > 0; j-- {
				ops = append(ops, churn(t.Rng, p, keys[t.Rng.Intn(len(keys))], keys, live)...)
			}
		}
		ops = append(ops, Op{Kind: opPersist})
		w := runHistory(t, cfg, ops, c01Monitor)
		w.checkNodes(w.tr, "end")
		w.checkRoot(w.reader(), "reader at the end")
	})
	// the same content by permuted orders with all kinds of detours, directly compared
	c.Cases("permute", 1500*c.scale, func(t *T) {
		cfg := randCfg(t.Rng)
		p := newProfile(t.Rng, cfg)
		keys := p.keys(t.Rng)
		var vals [][]byte
		content := map[string][]byte{}
		for _, k := range keys {
			if t.Rng.Intn(3) > 0 {
				content[string(k)] = p.value(t.Rng, k, &vals)
			}
		}
		want := buildTree(content, cfg).rootBytes()
		for v := 0; v < 3; v++ {
			w := newWorld(t, cfg)
			perm := t.Rng.Perm(len(keys))
			// noise first
			for _, i := range perm {
				if t.Rng.Intn(2) == 0 {
					w.exec(Op{Kind: opSet, K: keys[i], V: p.value(t.Rng, keys[i], &vals)})
				}
				if t.Rng.Intn(8) == 0 {
					w.exec(Op{Kind: []opKind{opCommit, opPersist}[t.Rng.Intn(2)]})
				}
			}
			if t.Rng.Intn(2) == 0 {
				w.exec(Op{Kind: opPersist})
				w.exec(Op{Kind: []opKind{opClear, opReopen}[t.Rng.Intn(2)]})
			}
			for _, i := range t.Rng.Perm(len(keys)) {
				k := keys[i]
				if v, ok := content[string(k)]; ok {
					w.exec(Op{Kind: opSet, K: k, V: v})
				} else {
					w.exec(Op{Kind: opDel, K: k})
				}
				if t.Rng.Intn(10) == 0 {
					w.exec(Op{Kind: opCommit})
				}
			}
			// a noise key may remain which is not in the pool: none, pool keys only
			w.exec(Op{Kind: opCommit})
			t.Eval(1)
			t.Check(bytes.Equal(rootOf(w.tr), want), "root depends on history: %x, want %x, %s, content %s", rootOf(w.tr), want, cfg, contentStr(content))
		}
		if len(content) > 0 {
			t.Seen(cfg.String(), want)
		}
	})
	// value and key sizes swept densely
	c.Cases("sizes", 700, func(t *T) {
		l := t.n
		for _, cfg := range allCfgs() {
			w := newWorld(t, cfg)
			k := randBytes(t.Rng, 1+t.Rng.Intn(4))
			k2 := append(append([]byte{}, k...), randBytes(t.Rng, l)...)
			w.exec(Op{Kind: opSet, K: k, V: randBytes(t.Rng, l+1)})
			w.exec(Op{Kind: opSet, K: k2, V: randBytes(t.Rng, l+1)})
			if len(k2) > 1 && t.Rng.Intn(2) == 0 {
				w.exec(Op{Kind: opSet, K: k2[:t.Rng.Intn(len(k2))], V: []byte{1}})
			}
			w.exec(Op{Kind: opPersist})
			w.checkRoot(w.tr, fmt.Sprintf("sizes %d %s", l, cfg))
			w.checkRoot(w.reader(), fmt.Sprintf("sizes %d %s reader", l, cfg))
			t.Seen(cfg.String(), w.tree.rootBytes())
			w.exec(Op{Kind: opReopen})
			w.exec(Op{Kind: opDel, K: k})
			w.exec(Op{Kind: opCommit})
			w.checkRoot(w.tr, fmt.Sprintf("sizes %d %s after delete", l, cfg))
		}
	})
	// very long keys
	c.Cases("longkeys", 24, func(t *T) {
		cfg := allCfgs()[t.n%6]
		n := []int{1000, 4095, 8191, 32000}[t.n/6]
		if cfg.Arity == 2 && n > 9000 {
			n = 8192
		}
		w := newWorld(t, cfg)
		base := randBytes(t.Rng, n)
		for i := 0; i < 6; i++ {
			k := append([]byte(nil), base[:t.Rng.Intn(n)]...)
			k = append(k, randBytes(t.Rng, t.Rng.Intn(3))...)
			w.exec(Op{Kind: opSet, K: k, V: randBytes(t.Rng, 1+t.Rng.Intn(40))})
		}
		w.exec(Op{Kind: opSet, K: base, V: []byte{1}})
		w.exec(Op{Kind: opPersist})
		w.checkRoot(w.tr, "long keys")
		w.checkRoot(w.reader(), "long keys reader")
		w.exec(Op{Kind: opReopen})
		w.exec(Op{Kind: opDel, K: base})
		w.exec(Op{Kind: opPersist})
		w.checkRoot(w.tr, "long keys after delete")
		t.Seen(cfg.String(), w.tree.rootBytes())
	})
	// large tries in large and small batches
	nl := 12
	if c.thorough() {
		nl = 96
	}
	c.Cases("large", nl, func(t *T) {
		cfg := allCfgs()[t.n%6]
		n := 4000 + t.Rng.Intn(4000)
		if c.thorough() {
			n *= 4
		}
		w := newWorld(t, cfg)
		bulkHistory(t, w, n, func(where string) { w.checkRoot(w.tr, where) })
		w.checkRoot(w.reader(), "large reader")
		t.Seen(cfg.String(), w.tree.rootBytes())
	})
	// deep chains: every prefix of a long key is a key
	c.Cases("chain", 18, func(t *T) {
		cfg := allCfgs()[t.n%6]
		w := newWorld(t, cfg)
		n := 300
		base := fromAlpha(t.Rng, alphabets[t.Rng.Intn(len(alphabets))], n)
		for _, i := range t.Rng.Perm(n) {
			w.exec(Op{Kind: opSet, K: base[:i], V: randBytes(t.Rng, 1+t.Rng.Intn(34))})
		}
		w.exec(Op{Kind: opPersist})
		w.checkRoot(w.tr, "chain")
		w.exec(Op{Kind: opReopen})
		for _, i := range t.Rng.Perm(n) {
			if t.Rng.Intn(3) > 0 {
				w.exec(Op{Kind: opDel, K: base[:i]})
			}
			if t.Rng.Intn(60) == 0 {
				w.exec(Op{Kind: opPersist})
				w.checkRoot(w.tr, "chain, deleting")
				w.exec(Op{Kind: opClear})
			}
		}
		w.exec(Op{Kind: opPersist})
		w.checkRoot(w.tr, "chain thinned")
		w.checkRoot(w.reader(), "chain thinned, reader")
		t.Seen(cfg.String(), w.tree.rootBytes())
	})
	// mass update through an iterator equals single updates
	c.Cases("updateall", 300, func(t *T) {
		cfg := randCfg(t.Rng)
		p := newProfile(t.Rng, cfg)
		var vals [][]byte
		st := newMStore()
		for _, k := range p.keys(t.Rng) {
			st.Set(k, p.value(t.Rng, k, &vals))
		}
		w := newWorld(t, cfg)
		w.tr.UpdateAll(st)
		w.tr.Commit()
		want := buildTree(st.m, cfg).rootBytes()
		t.Eval(1)
		t.Check(bytes.Equal(rootOf(w.tr), want), "mass update: root %x, want %x", rootOf(w.tr), want)
		t.Seen(cfg.String(), want)
	})
	_ = trie.AllPathArity
}

func allCfgs() []Cfg {
	var r []Cfg
	for _, a := range []int{2, 16, 256} {
		for _, h := range []int{20, 32} {
			r = append(r, Cfg{Arity: a, HS: h})
		}
	}
	return r
}

// bulkHistory fills, thins and refills a large trie in batches
func bulkHistory(t *T, w *World, n int, check func(where string)) {
	keyLen := 1 + t.Rng.Intn(20)
	alpha := alphabets[[]int{6, 2, 4}[t.Rng.Intn(3)]]
	if len(alpha) > 0 && keyLen < 8 {
		keyLen = 8
	}
	if keyLen < 3 {
		keyLen = 3
	}
	keys := make([][]byte, n)
	for i := range keys {
		keys[i] = fromAlpha(t.Rng, alpha, 1+t.Rng.Intn(keyLen))
	}
	batch := n/3 + 1
	for i, k := range keys {
		w.exec(Op{Kind: opSet, K: k, V: randBytes(t.Rng, 1+t.Rng.Intn(36))})
		if (i+1)%batch == 0 {
			w.exec(Op{Kind: opPersist})
			check(fmt.Sprintf("bulk %d", i))
			if t.Rng.Intn(2) == 0 {
				w.exec(Op{Kind: opClear})
			}
		}
	}
	w.exec(Op{Kind: opPersist})
	check("bulk filled")
	w.exec(Op{Kind: opReopen})
	for _, i := range t.Rng.Perm(n) {
		if t.Rng.Intn(4) > 0 {
			w.exec(Op{Kind: opDel, K: keys[i]})
		}
	}
	w.exec(Op{Kind: opPersist})
	check("bulk thinned")
	w.exec(Op{Kind: opClear})
	for i := 0; i < n/8; i++ {
		w.exec(Op{Kind: opSet, K: keys[t.Rng.Intn(n)], V: randBytes(t.Rng, 1+t.Rng.Intn(36))})
	}
	w.exec(Op{Kind: opPersist})
	check("bulk refilled")
}
