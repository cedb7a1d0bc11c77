package main

import (
	"bytes"
	"fmt"

	"github.com/iotaledger/hive.go/core/kvstore/mapdb"
	"github.com/iotaledger/trie.go/hive_adaptor"
	"github.com/iotaledger/trie.go/trie"
)

func init() {
	register(&property{id: "C17",
		rule:  "A trie built by a random history (committed, pending, reloaded, empty) is reconciled with stores derived from its content by removing, adding and changing pairs in small ways, through different iterators; the list is compared with the set difference. Tries are mass-updated from stores and compared with the canonical tree. Distinct by content of trie and store.",
		assum: []string{"values whose commitments collide by construction (finding of C18) are not compared"},
		run:   runC17})
}

// reusing is an iterator which reuses its buffers, as iterators of databases do
type reusing struct {
	keys []string
	m    map[string][]byte
	k, v []byte
}

func (s *reusing) Iterate(f func(k, v []byte) bool) {
	for _, k := range s.keys {
		s.k = append(s.k[:0], k...)
		s.v = append(s.v[:0], s.m[k]...)
		if !f(s.k, s.v) {
			return
		}
	}
	for i := range s.k {
		s.k[i] ^= 0xff
	}
}

// iteratorsOf are several iterators over the same content
func iteratorsOf(t *T, m map[string][]byte) (trie.KVIterator, string) {
	switch t.Rng.Intn(4) {
	case 0:
		s := newMStore()
		for k, v := range m {
			s.Set([]byte(k), v)
		}
		return s, "ordered store"
	case 1:
		s := trie.NewInMemoryKVStore()
		for k, v := range m {
			s.Set([]byte(k), v)
		}
		return s, "in-memory store"
	case 2:
		s := hive_adaptor.NewHiveKVStoreAdaptor(mapdb.NewMapDB(), roomy([]byte("x")))
		for k, v := range m {
			s.Set([]byte(k), v)
		}
		return s, "adaptor"
	}
	keys := sortedKeys(m)
	t.Rng.Shuffle(len(keys), func(i, j int) { keys[i], keys[j] = keys[j], keys[i] })
	return &reusing{keys: keys, m: m}, "iterator which reuses its buffers"
}

// variant derives the content of a store from the one of a trie
func (s *state) variant(t *T, p *genProfile) map[string][]byte {
	m := copyMap(s.w.cur)
	if t.Rng.Intn(6) == 0 {
		return m
	}
	keys := sortedKeys(m)
	for i := 1 + t.Rng.Intn(4); i > 0; i-- {
		switch x := t.Rng.Intn(5); {
		case x == 0 && len(keys) > 0:
			delete(m, keys[t.Rng.Intn(len(keys))])
		case x <= 2 && len(keys) > 0:
			k := keys[t.Rng.Intn(len(keys))]
			if v := mutateValue(t, s.w.cur[k]); len(v) > 0 {
				m[k] = v
			}
		case x == 3 && len(keys) > 1:
			// exchange values
			a, b := keys[t.Rng.Intn(len(keys))], keys[t.Rng.Intn(len(keys))]
			m[a], m[b] = s.w.cur[b], s.w.cur[a]
		default:
			for _, k := range s.probeKeys(t, 2) {
				m[string(k)] = randBytes(t.Rng, 1+t.Rng.Intn(40))
			}
		}
	}
	if t.Rng.Intn(12) == 0 {
		m = map[string][]byte{}
	}
	return m
}

func reconcileCase(t *T, s *state, tr *trie.Trie, store map[string][]byte, where string) {
	it, name := iteratorsOf(t, store)
	where = fmt.Sprintf("%s: %s, %s", s.cfg, where, name)
	var got [][]byte
	before := rootOf(tr)
	t.mustNot(where, func() { got = tr.Reconcile(it) })
	t.Eval(1)
	t.Check(bytes.Equal(rootOf(tr), before), "%s: reconciliation has changed the root", where)
	seen := map[string]bool{}
	for _, k := range got {
		t.Check(!seen[string(k)], "%s: key %x is listed twice", where, k)
		seen[string(k)] = true
		_, in := store[string(k)]
		t.Check(in, "%s: key %x is listed and is not in the store", where, k)
	}
	for k, v := range store {
		if w, ok := s.w.cur[k]; ok && !bytes.Equal(v, w) && oTermEqual(s.cfg.commitData([]byte(k), v), s.cfg.commitData([]byte(k), w), s.cfg) {
			t.Count("colliding values, not compared", 1)
			continue
		}
		w, ok := s.w.cur[k]
		bad := !ok || !bytes.Equal(v, w)
		t.Check(seen[k] == bad, "%s: key %x with value %s in the store and %s (%v) in the trie: listed %v", where, k, hx(v), hx(w), ok, seen[k])
		if bad {
			t.Count("mismatches listed", 1)
		} else {
			t.Count("matches not listed", 1)
		}
	}
}

func reconcile(t *T) {
	cfg := optCfg(t)
	if t.n%40 == 0 {
		cfg = Cfg{Arity: 256, KZG: true, Opt: t.Rng.Intn(2) == 0}
	}
	reconcileCfg(t, cfg)
}

func reconcileCfg(t *T, cfg Cfg) {
	var p *genProfile
	n := 40
	if cfg.KZG {
		p, n = kzgProfile(t), 10
	} else {
		p = newProfile(t.Rng, cfg)
	}
	var s *state
	if t.n%7 == 0 {
		s = stateOf(newWorld(t, cfg))
	} else {
		s = stateByProfile(t, cfg, p, n)
	}
	w := s.w
	w.exec(Op{Kind: opPersist})
	reconcileCase(t, s, w.tr, s.variant(t, p), "committed")
	w.exec(Op{Kind: opReopen})
	reconcileCase(t, s, w.tr, s.variant(t, p), "reloaded")
	t.Check(bytes.Equal(rootOf(w.tr), s.root), "%s: reconciliation has changed the root", cfg)
	// pending
	for i := 0; i < 1+t.Rng.Intn(8); i++ {
		k := p.key(t.Rng, s.keys)
		if len(s.keys) > 0 && t.Rng.Intn(2) == 0 {
			k = s.keys[t.Rng.Intn(len(s.keys))]
		}
		if t.Rng.Intn(2) == 0 {
			w.exec(Op{Kind: opDel, K: k})
		} else {
			w.exec(Op{Kind: opSet, K: k, V: randBytes(t.Rng, 1+t.Rng.Intn(40))})
		}
		if t.Rng.Intn(3) == 0 {
			reconcileCase(t, s, w.tr, s.variant(t, p), "pending")
		}
	}
	reconcileCase(t, s, w.tr, s.variant(t, p), "pending")
	pend := stateOf(w)
	reconcileCase(t, pend, w.tr.Clone(), pend.variant(t, p), "clone with pending changes")
	w.exec(Op{Kind: opCommit})
	w.checkRoot(w.tr, "after reconciliation")
	reconcileCase(t, pend, w.tr, pend.variant(t, p), "committed, not persisted")
	w.exec(Op{Kind: opPersist})
	t.Check(sameContent(w.ts.m, w.tree.storeOf()), "%s: stored nodes after reconciliation: %s", cfg, diffStores(w.ts.m, w.tree.storeOf()))
	t.Seen(cfg.String(), contentStr(w.cur), w.tree.rootBytes())
	t.Sample("%s: %d pairs, root %x", cfg, len(w.cur), w.tree.rootBytes())
}

func updateAll(t *T) {
	cfg := optCfg(t)
	if t.n%40 == 0 {
		cfg = Cfg{Arity: 256, KZG: true}
	}
	updateAllCfg(t, cfg)
}

func updateAllCfg(t *T, cfg Cfg) {
	m := map[string][]byte{}
	if cfg.KZG {
		for i := 0; i < 6; i++ {
			m[string(fromAlpha(t.Rng, []byte{0, 1}, t.Rng.Intn(4)))] = randBytes(t.Rng, 1+t.Rng.Intn(3))
		}
	} else {
		p := newProfile(t.Rng, cfg)
		var have, vals [][]byte
		for i := t.Rng.Intn(60); i > 0; i-- {
			k := p.key(t.Rng, have)
			have = append(have, k)
			if v := p.value(t.Rng, k, &vals); len(v) > 0 {
				m[string(k)] = v
			}
		}
	}
	w := newWorld(t, cfg)
	it, name := iteratorsOf(t, m)
	where := fmt.Sprintf("%s: mass update from %s", cfg, name)
	t.mustNot(where, func() { w.tr.UpdateAll(it) })
	for k, v := range m {
		w.set([]byte(k), v)
	}
	again, _ := iteratorsOf(t, m)
	t.Check(len(w.tr.Reconcile(again)) == 0, "%s: reconciliation before the commit is not empty", where)
	w.exec(Op{Kind: opPersist})
	w.checkRoot(w.tr, where)
	t.Check(sameContent(w.ts.m, w.tree.storeOf()), "%s: stored nodes: %s", where, diffStores(w.ts.m, w.tree.storeOf()))
	again, _ = iteratorsOf(t, m)
	got := w.tr.Reconcile(again)
	t.Eval(3)
	t.Check(len(got) == 0, "%s: reconciliation lists %x", where, got)
	// and over existing content
	more := map[string][]byte{}
	for _, k := range sortedKeys(m) {
		if t.Rng.Intn(3) == 0 {
			more[k] = randBytes(t.Rng, 1+t.Rng.Intn(30))
		}
	}
	more["another key"] = []byte{1}
	it, _ = iteratorsOf(t, more)
	w.exec(Op{Kind: opReopen})
	w.tr.UpdateAll(it)
	for k, v := range more {
		w.set([]byte(k), v)
	}
	w.exec(Op{Kind: opPersist})
	w.checkRoot(w.tr, where+" twice")
	// and in the order of the iterator: the last value of a key counts, an empty one deletes
	seq := &sequence{}
	have := sortedKeys(w.cur)
	for i := 1 + t.Rng.Intn(12); i > 0; i-- {
		k := []byte(have[t.Rng.Intn(len(have))])
		if t.Rng.Intn(5) == 0 {
			k = append(append([]byte{}, k...), byte(i))
		}
		v := randBytes(t.Rng, 1+t.Rng.Intn(30))
		switch t.Rng.Intn(6) {
		case 0:
			v = nil
		case 1:
			v = []byte{}
		}
		seq.k, seq.v = append(seq.k, k), append(seq.v, v)
		w.set(k, v)
	}
	w.tr.UpdateAll(seq)
	w.exec(Op{Kind: opPersist})
	w.checkRoot(w.tr, where+" in order")
	t.Seen("all", cfg.String(), w.tree.rootBytes())
}

// sequence is an iterator over a list of pairs, keys may repeat
type sequence struct{ k, v [][]byte }

func (s *sequence) Iterate(f func(k, v []byte) bool) {
	for i := range s.k {
		if !f(append([]byte{}, s.k[i]...), append([]byte(nil), s.v[i]...)) {
			return
		}
	}
}

// many: stores with hundreds of pairs and of mismatches
func reconcileMany(t *T) {
	cfg := optCfg(t)
	w := newWorld(t, cfg)
	n := []int{17, 33, 65, 129, 257, 300, 700, 1500}[t.n%8]
	content := map[string][]byte{}
	for i := 0; i < n; i++ {
		content[string(randBytes(t.Rng, 1+t.Rng.Intn(4)))] = randBytes(t.Rng, 1+t.Rng.Intn(40))
	}
	for _, k := range sortedKeys(content) {
		w.exec(Op{Kind: opSet, K: []byte(k), V: content[k]})
	}
	w.exec(Op{Kind: opPersist})
	if t.Rng.Intn(2) == 0 {
		w.exec(Op{Kind: opReopen})
	}
	s := stateOf(w)
	one := func(where string, f func(k string, m map[string][]byte)) {
		m := map[string][]byte{}
		for _, k := range sortedKeys(content) {
			f(k, m)
		}
		reconcileCase(t, s, w.tr, m, where)
	}
	one("all values changed", func(k string, m map[string][]byte) { m[k] = append(append([]byte{}, content[k]...), 1) })
	one("all keys changed", func(k string, m map[string][]byte) { m["-"+k] = content[k] })
	p := 2 + t.Rng.Intn(10)
	one("some changed", func(k string, m map[string][]byte) {
		switch t.Rng.Intn(p) {
		case 0:
			m[k] = append(append([]byte{}, content[k]...), 1)
		case 1:
			m[k+"+"] = content[k]
		default:
			m[k] = content[k]
		}
	})
	m := copyMap(content)
	m[sortedKeys(m)[t.Rng.Intn(len(m))]] = []byte("one value")
	reconcileCase(t, s, w.tr, m, "one changed")
	it, _ := iteratorsOf(t, content)
	fresh := newWorld(t, cfg)
	fresh.tr.UpdateAll(it)
	fresh.cur = content
	fresh.dirty = true
	fresh.exec(Op{Kind: opPersist})
	fresh.checkRoot(fresh.tr, "mass update of many")
	t.Seen("many", cfg.String(), s.root)
}

func runC17(c *Ctx) {
	c.Cases("reconcile-many", 64*c.scale, reconcileMany)
	c.Cases("reconcile", 12000*c.scale, reconcile)
	c.Cases("update-all", 10000*c.scale, updateAll)
}
