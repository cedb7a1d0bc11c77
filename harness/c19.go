package main

import (
	"bytes"
	"fmt"

	"github.com/iotaledger/trie.go/trie"
)

func init() {
	register(&property{id: "C19",
		rule:  "Random sequences of all calls of the in-memory key/value store over small and hostile sets of keys (empty, nil, embedded zeros, invalid UTF-8, prefixes of each other, long) are compared call by call with a model map; buffers are overwritten after each call, iterations are stopped at random points and run inside each other; several stores run side by side. Entry and byte counts are compared with sums over the model for the store and for other iterators. Distinct by the final content and length of history.",
		assum: []string{"slices returned by Get and by the iteration are not written to by the caller", "the store is not changed during an iteration"},
		run:   runC19})
}

// listIter is an iterator over a fixed list; it may repeat keys and deliver empty values
type listIter struct {
	ps      []kvPair
	stopped int
}

func (l *listIter) Iterate(f func(k, v []byte) bool) {
	for i, p := range l.ps {
		if !f(p.k, p.v) {
			l.stopped = i + 1
			return
		}
	}
}

type memStore struct {
	s     trie.KVStore
	model map[string][]byte
	held  []heldValue
}

type heldValue struct {
	got  []byte
	want []byte
	key  string
}

func memKeys(t *T) [][]byte {
	r := t.Rng
	sets := [][][]byte{
		{nil, {}, {0}, {0, 0}, {0, 0, 0}, {0xff}, {0xff, 0xff}},
		{[]byte("a"), []byte("A"), []byte("a\x00"), []byte("\x00a"), []byte("aa"), []byte("ab"), []byte("b")},
		{{0xc3, 0x28}, {0xc3, 0xa9}, {0x65, 0xcc, 0x81}, {0xed, 0xa0, 0x80}, {0xef, 0xbf, 0xbd}, {0xff}, {0xfe}, {0x80}},
		{[]byte("key"), []byte("key "), []byte(" key"), []byte("KEY"), []byte("key\n"), []byte("6b6579"), []byte("ke"), []byte("keyy")},
	}
	switch i := r.Intn(len(sets) + 2); {
	case i < len(sets):
		return sets[i]
	case i == len(sets):
		var ret [][]byte
		for n := 3 + r.Intn(40); n > 0; n-- {
			ret = append(ret, randBytes(r, boundaryLens[r.Intn(len(boundaryLens))]))
		}
		return ret
	}
	base := randBytes(r, 60)
	var ret [][]byte
	for n := 3 + r.Intn(12); n > 0; n-- {
		k := append([]byte{}, base[:r.Intn(61)]...)
		if len(k) > 0 && r.Intn(2) == 0 {
			k[r.Intn(len(k))] ^= 1 << uint(r.Intn(8))
		}
		ret = append(ret, k)
	}
	return ret
}

func (m *memStore) iterate(t *T, stop int) {
	seen := map[string]bool{}
	calls := 0
	keep := t.Rng.Intn(2) == 0
	var got, kept []kvPair
	m.s.Iterate(func(k, v []byte) bool {
		t.Check(stop == 0 || calls < stop, "iteration goes on after the consumer has stopped it at pair %d", stop)
		calls++
		t.Check(!seen[string(k)], "iteration delivers key %x twice", k)
		seen[string(k)] = true
		want, in := m.model[string(k)]
		t.Check(in && bytes.Equal(v, want), "iteration delivers %x:%x, want %x (%v)", k, v, want, in)
		got, kept = append(got, kvPair{append([]byte(nil), k...), append([]byte(nil), v...)}), append(kept, kvPair{k, v})
		// the key belongs to the consumer
		for i := range k {
			if !keep {
				k[i] ^= 0x33
				got[len(got)-1].k[i] ^= 0x33
			}
		}
		if calls == 1 && len(m.model) < 20 {
			n := 0
			m.s.Iterate(func(_, _ []byte) bool { n++; return true })
			t.Check(n == len(m.model), "iteration inside an iteration delivers %d of %d pairs", n, len(m.model))
		}
		return calls != stop
	})
	for i, q := range kept {
		t.Check(bytes.Equal(q.k, got[i].k) && bytes.Equal(q.v, got[i].v), "pair %d was delivered as %x:%x, the consumer keeps it, and later it is %x:%x", i, got[i].k, got[i].v, q.k, q.v)
	}
	want := len(m.model)
	if stop > 0 && stop < want {
		want = stop
	}
	t.Check(calls == want, "iteration delivers %d pairs, want %d", calls, want)
	t.Eval(1)
	t.Count("pairs iterated", calls)
}

func (m *memStore) counts(t *T, s trie.KVIterator, what string) {
	size := 0
	for k, v := range m.model {
		size += len(k) + len(v) + 6
	}
	t.Eval(2)
	t.Check(trie.NumEntries(s) == len(m.model), "%s: NumEntries is %d, want %d", what, trie.NumEntries(s), len(m.model))
	t.Check(trie.ByteSize(s) == size, "%s: ByteSize is %d, want %d", what, trie.ByteSize(s), size)
}

func memCase(t *T) {
	r := t.Rng
	keys := memKeys(t)
	stores := []*memStore{}
	for i := 1 + r.Intn(2); i > 0; i-- {
		stores = append(stores, &memStore{s: trie.NewInMemoryKVStore(), model: map[string][]byte{}})
	}
	n := 5 + r.Intn(80)
	if r.Intn(60) == 0 {
		n = 2000
	}
	for i := 0; i < n; i++ {
		m := stores[r.Intn(len(stores))]
		k := append([]byte(nil), keys[r.Intn(len(keys))]...)
		if len(k) == 0 && r.Intn(2) == 0 {
			k = nil
		}
		ks := string(k)
		want, live := m.model[ks]
		switch x := r.Intn(12); {
		case x < 4:
			v := randBytes(r, 1+r.Intn(12))
			if r.Intn(6) == 0 {
				v = [][]byte{{0}, {0, 0}, k, bytes.Repeat([]byte{1}, 300)}[r.Intn(4)]
				v = append([]byte(nil), v...)
			}
			t.Logf("Set(%x, %x)", k, v)
			if len(v) == 0 {
				delete(m.model, ks)
			} else {
				m.model[ks] = append([]byte{}, v...)
			}
			m.s.Set(k, v)
			for j := range k {
				k[j] ^= 0x5a
			}
			for j := range v {
				v[j] ^= 0x5a
			}
			k = []byte(ks)
			t.Check(bytes.Equal(m.s.Get(k), m.model[ks]), "Get(%x) is %x just after Set of %x", k, m.s.Get(k), m.model[ks])
		case x < 6:
			t.Logf("Set(%x, empty)", k)
			m.s.Set(k, [][]byte{nil, {}, make([]byte, 0, 8)}[r.Intn(3)])
			delete(m.model, ks)
			t.Check(m.s.Get(k) == nil && !m.s.Has(k), "key %x is there after its deletion", k)
		case x < 8:
			got := m.s.Get(k)
			t.Check(bytes.Equal(got, want) && (got != nil) == live, "Get(%x) is %x, want %x", k, got, want)
			if live && len(m.held) < 50 {
				m.held = append(m.held, heldValue{got, append([]byte{}, got...), ks})
			}
		case x < 10:
			t.Check(m.s.Has(k) == live, "Has(%x) is %v, want %v", k, !live, live)
		case x == 10:
			stop := 0
			if r.Intn(2) == 0 {
				stop = 1 + r.Intn(len(m.model)+2)
			}
			m.iterate(t, stop)
		case x == 11:
			m.counts(t, m.s, "store")
		}
		t.Eval(1)
	}
	for _, m := range stores {
		m.iterate(t, 0)
		m.counts(t, m.s, "store")
		for _, k := range keys {
			want, live := m.model[string(k)]
			t.Check(m.s.Has(k) == live && bytes.Equal(m.s.Get(k), want), "key %x: %v %x, want %v %x", k, m.s.Has(k), m.s.Get(k), live, want)
		}
		for _, h := range m.held {
			t.Check(bytes.Equal(h.got, h.want), "value of key %x returned earlier has changed from %x to %x", h.key, h.want, h.got)
			t.Count("values held over later calls", 1)
		}
		t.Seen(fullStr(m.model), n)
	}
	t.Sample("%d operations over %d keys, %d stores, content %s", n, len(keys), len(stores), contentStr(stores[0].model))
}

// countCase: helpers on other iterators
func countCase(t *T) {
	r := t.Rng
	l := &listIter{}
	size := 0
	for n := r.Intn(40); n > 0; n-- {
		p := kvPair{randBytes(r, r.Intn(40)), randBytes(r, r.Intn(80))}
		if r.Intn(10) == 0 {
			p = kvPair{nil, nil}
		}
		if r.Intn(5) == 0 && len(l.ps) > 0 {
			p.k = l.ps[0].k
		}
		if r.Intn(200) == 0 {
			p.v = make([]byte, 70000)
		}
		l.ps = append(l.ps, p)
		size += len(p.k) + len(p.v) + 6
	}
	t.Eval(2)
	t.Check(trie.NumEntries(l) == len(l.ps) && l.stopped == 0, "NumEntries is %d, want %d", trie.NumEntries(l), len(l.ps))
	t.Check(trie.ByteSize(l) == size && l.stopped == 0, "ByteSize is %d, want %d", trie.ByteSize(l), size)
	t.Seen("count", size, len(l.ps))
}

// memTrie: the in-memory store under a trie
func memTrie(t *T) {
	cfg := optCfg(t)
	p := newProfile(t.Rng, cfg)
	ops := history(t.Rng, p, cfg, histParams{minOps: 5, maxOps: 50})
	ts, vs := trie.NewInMemoryKVStore(), trie.NewInMemoryKVStore()
	model := newModel(cfg)
	tr := trie.New(model, ts, vs, cfg.Opt)
	content := map[string][]byte{}
	for i, o := range ops {
		switch o.Kind {
		case opSet, opSetStr, opKeyCommit:
			v := o.V
			if o.Kind == opKeyCommit {
				v = o.K
			}
			tr.Update(o.K, v)
			content[string(o.K)] = v
		case opDel, opDelStr, opSetEmpty:
			tr.Delete(o.K)
			delete(content, string(o.K))
		case opPersist:
			tr.Commit()
			tr.PersistMutations(ts)
			old := map[string]bool{}
			vs.Iterate(func(k, _ []byte) bool { old[string(k)] = true; return true })
			for k := range old {
				if content[k] == nil {
					vs.Set([]byte(k), nil)
				}
			}
			for k, v := range content {
				vs.Set([]byte(k), v)
			}
			tree := buildTree(content, cfg)
			m := &memStore{s: ts, model: tree.storeOf()}
			got := map[string][]byte{}
			ts.Iterate(func(k, v []byte) bool { got[string(k)] = v; return true })
			t.Check(sameContent(got, m.model), "%s: operation %d: %s", cfg, i, diffStores(got, m.model))
			m.counts(t, ts, "store of the trie")
			(&memStore{s: vs, model: content}).iterate(t, 0)
			t.Check(bytes.Equal(rootOf(trie.NewTrieReader(model, ts, vs)), tree.rootBytes()), "%s: root of the reader is wrong", cfg)
			if t.Rng.Intn(2) == 0 {
				tr.ClearCache()
			}
			t.Count("tries persisted in the store", 1)
		}
	}
	t.Seen("trie", cfg.String(), fullStr(content))
}

func runC19(c *Ctx) {
	c.Cases("map", 60000*c.scale, memCase)
	c.Cases("counts", 40000*c.scale, countCase)
	c.Cases("tries", 6000*c.scale, memTrie)
	// iterations over stores of every small size, stopped at every point
	c.Cases("stops", 40, func(t *T) {
		m := &memStore{s: trie.NewInMemoryKVStore(), model: map[string][]byte{}}
		for i := 0; i < t.n; i++ {
			k, v := []byte(fmt.Sprint(i)), randBytes(t.Rng, 1+i)
			m.s.Set(k, v)
			m.model[string(k)] = v
		}
		for stop := 0; stop <= t.n+1; stop++ {
			m.iterate(t, stop)
		}
		t.Seen("stops", t.n)
	})
}
