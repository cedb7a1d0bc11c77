package main

import (
	"bytes"

	"github.com/iotaledger/trie.go/models/trie_blake2b/trie_blake2b_verify"
	"github.com/iotaledger/trie.go/trie"
)

func init() {
	register(&property{id: "C04",
		rule:  "A case builds a state by a random history and checks proofs of present keys and of absent keys placed around every kind of path ending (inside a fragment, at a branching node without terminal, at a missing child, beyond a leaf, empty key), from the updatable trie, a reader and a reopened trie: verdict, classification, shown commitment, right and wrong values and roots, size, byte round trip, sub-state. Distinct by (configuration, root, path); non-trivial: the trie is not empty or the key is probed on the empty trie once.",
		assum: []string{"blake2b is collision-free on the inputs used"},
		run:   runC04})
}

func runC04(c *Ctx) {
	run := func(t *T, cfg Cfg, ops, probes int) {
		s := stateBy(t, cfg, ops)
		t.Sample("%s content %s", cfg, contentStr(s.w.cur))
		t.Logf("%s content %s", cfg, contentStr(s.w.cur))
		views := []trie.NodeStore{s.w.tr, s.w.reader()}
		names := []string{"trie", "reader"}
		w2 := trie.New(s.w.model, s.w.ts, s.w.valueReader(), cfg.Opt)
		views, names = append(views, w2), append(names, "reopened trie")
		for _, k := range s.probeKeys(t, probes) {
			i := t.Rng.Intn(3)
			s.checkProof(t, k, views[i], names[i])
		}
	}
	proofCfg := func(t *T) Cfg {
		cfg := optCfg(t)
		return cfg
	}
	c.Cases("states", 2500*c.scale, func(t *T) { run(t, proofCfg(t), 60, 24) })
	c.Cases("tiny", 6000*c.scale, func(t *T) { run(t, proofCfg(t), 8, 12) })
	c.Cases("fanout", 30, func(t *T) {
		// nodes with every number of children: every child position as proof path and as missing child
		cfg := allCfgs()[t.n%6]
		w := newWorld(t, cfg)
		pre := randBytes(t.Rng, t.Rng.Intn(2))
		missing := map[int]bool{}
		for i := 0; i < 256; i++ {
			if t.Rng.Intn(8) == 0 && t.n%2 == 0 {
				missing[i] = true
				continue
			}
			k := append(append([]byte{}, pre...), byte(i))
			if t.Rng.Intn(2) == 0 {
				k = append(k, byte(t.Rng.Intn(3)))
			}
			w.exec(Op{Kind: opSet, K: k, V: randBytes(t.Rng, 1+t.Rng.Intn(40))})
		}
		w.exec(Op{Kind: opPersist})
		s := stateOf(w)
		for i := 0; i < 256; i++ {
			k := append(append([]byte{}, pre...), byte(i))
			s.checkProof(t, k, w.tr, "fan-out")
			s.checkProof(t, append(k, byte(t.Rng.Intn(3))), w.reader(), "fan-out reader")
		}
	})
	c.Cases("sizes", 400, func(t *T) {
		// path fragments and values of every length
		for _, cfg := range allCfgs() {
			w := newWorld(t, cfg)
			k := randBytes(t.Rng, 1)
			long := append(append([]byte{}, k...), randBytes(t.Rng, t.n)...)
			w.exec(Op{Kind: opSet, K: long, V: randBytes(t.Rng, t.n+1)})
			if t.n%2 == 0 {
				w.exec(Op{Kind: opSet, K: k, V: randBytes(t.Rng, t.n+2)})
			}
			w.exec(Op{Kind: opSet, K: append(append([]byte{}, long...), 1, 2, 3), V: []byte{1}})
			w.exec(Op{Kind: opPersist})
			s := stateOf(w)
			for _, x := range [][]byte{k, long, append(append([]byte{}, long...), 1), append(append([]byte{}, long...), 1, 2, 3), append(append([]byte{}, long...), 1, 2, 3, 4), long[:len(long)/2], {}, long[:len(long)-1]} {
				s.checkProof(t, x, w.tr, "sizes")
			}
		}
	})
	c.Cases("longkeys", 24, func(t *T) {
		cfg := allCfgs()[t.n%6]
		n := []int{500, 4096, 8190, 65000}[t.n/6]
		if cfg.Arity == 16 {
			n = minInt(n, 32000)
		}
		if cfg.Arity == 2 && n > 9000 {
			n = 8192
		}
		w := newWorld(t, cfg)
		base := randBytes(t.Rng, n)
		for i := 0; i < 8; i++ {
			k := append([]byte(nil), base[:t.Rng.Intn(n)]...)
			w.exec(Op{Kind: opSet, K: k, V: randBytes(t.Rng, 1+t.Rng.Intn(40))})
		}
		w.exec(Op{Kind: opSet, K: base, V: []byte{1}})
		w.exec(Op{Kind: opPersist})
		s := stateOf(w)
		for i := 0; i < 6; i++ {
			s.checkProof(t, base[:t.Rng.Intn(n)], w.tr, "long keys")
		}
		s.checkProof(t, base, w.reader(), "long keys")
		for _, k := range s.keys {
			s.checkProof(t, k, w.reader(), "long keys")
		}
	})
	c.Cases("chain", 12, func(t *T) {
		// proofs with hundreds of elements
		cfg := allCfgs()[t.n%6]
		w := newWorld(t, cfg)
		n := 320
		base := fromAlpha(t.Rng, alphabets[t.Rng.Intn(len(alphabets))], n)
		for i := 0; i <= n; i++ {
			if i%3 != 1 {
				w.exec(Op{Kind: opSet, K: base[:i], V: randBytes(t.Rng, 1+t.Rng.Intn(34))})
			}
		}
		w.exec(Op{Kind: opPersist})
		s := stateOf(w)
		for _, i := range []int{0, 1, 2, 100, 255, 256, 257, 300, 301, 302, n} {
			s.checkProof(t, base[:i], w.tr, "chain")
		}
		s.checkProof(t, append(append([]byte{}, base...), 1), w.reader(), "chain")
	})
	c.Cases("large", 12*c.scale, func(t *T) {
		cfg := allCfgs()[t.n%6]
		w := newWorld(t, cfg)
		bulkHistory(t, w, 3000, func(string) {})
		s := stateOf(w)
		rd := w.reader()
		for _, k := range s.probeKeys(t, 400) {
			s.checkProof(t, k, rd, "large")
		}
	})
	c.Witness("hashed-value-shown-as-value", func(t *T) {
		// the commitment to a long value equals the commitment to its hash given as a value
		cfg := Cfg{Arity: 16, HS: 32}
		w := newWorld(t, cfg)
		v := bytes.Repeat([]byte("long"), 20)
		w.exec(Op{Kind: opSet, K: []byte("k"), V: v})
		w.exec(Op{Kind: opPersist})
		s := stateOf(w)
		p := s.m.Proof([]byte("k"), w.tr)
		t.Eval(1)
		t.Check(trie_blake2b_verify.ValidateWithValue(p, s.root, blakeSum(32, v)) != nil,
			"the proof of a value longer than the hash also validates with the hash of the value given as the value")
	})
}
