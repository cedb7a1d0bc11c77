package main

import (
	"bytes"
	"fmt"
	"io"
	"math/rand"

	"github.com/iotaledger/hive.go/core/kvstore/mapdb"
	"github.com/iotaledger/trie.go/hive_adaptor"
	"github.com/iotaledger/trie.go/models/trie_blake2b"
	"github.com/iotaledger/trie.go/models/trie_blake2b/trie_blake2b_verify"
	"github.com/iotaledger/trie.go/models/trie_kzg_bn256"
	"github.com/iotaledger/trie.go/trie"
)

func init() {
	register(&property{id: "C25",
		rule:  "A case builds tries at the limits: keys whose path fragments have encoded lengths around 255, 256 and 65535 bytes (by insertion, by splits and by merges), chains of thousands of nested keys, nodes with all children on several levels. Roots, stored bytes, reopened tries and proofs are compared with the canonical tree; where a fragment or a key is longer than the format can say, persisting and serialization must fail loudly, leave no wrong bytes under any key, and the trie must work exactly after the key is deleted. Distinct by (configuration, lengths of the keys); non-trivial: a key has at least 255 bytes, or the depth is at least 100, or a node has all children.",
		assum: []string{"the length prefix of keys and path fragments has 16 bits (encode.go, proof.go)"},
		run:   runC25})
}

const maxField = 65535

func encLen(units []byte, arity int) int { return len(oEncode(units, arity)) }

// fragmentsFit: every path fragment of the tree can be stored
func fragmentsFit(tree *oTree) bool {
	for _, n := range tree.nodes {
		if encLen(n.PF, tree.cfg.Arity) > maxField {
			return false
		}
	}
	return true
}

// limitKeys gives keys with a length of about n which share parts of any length
func limitKeys(r *rand.Rand, n, cnt int) [][]byte {
	base := randBytes(r, n)
	if r.Intn(2) == 0 {
		base = bytes.Repeat([]byte{[]byte{0, 1, 0x80, 0xff}[r.Intn(4)]}, n)
	}
	ks := [][]byte{base}
	for len(ks) < cnt {
		from := ks[r.Intn(len(ks))]
		cut := []int{0, 1, 2, len(from), len(from) - 1, len(from) - 2, len(from) - 255, len(from) - 256, len(from) - 257, 254, 255, 256, r.Intn(len(from) + 1)}[r.Intn(13)]
		cut = max(0, min(cut, len(from)))
		k := append([]byte{}, from[:cut]...)
		if r.Intn(2) == 0 {
			k = append(k, randBytes(r, r.Intn(4))...)
		}
		if r.Intn(6) == 0 && len(k) > 0 {
			k[len(k)-1] ^= 1 << r.Intn(8)
		}
		ks = append(ks, k)
	}
	return ks
}

func lensOf(m map[string][]byte) string {
	s := ""
	for _, k := range sortedKeys(m) {
		s += fmt.Sprintf("%d ", len(k))
	}
	return s
}

// limitProof is checkProof where the proof may be too long to be serialized
func (s *state) limitProof(t *T, key []byte, ns trie.NodeStore, where string) {
	path := oUnpack(key, s.cfg.Arity)
	nodes, ending := s.tree.walk(path)
	fits := encLen(path, s.cfg.Arity) <= maxField && len(nodes) <= maxField
	for _, n := range nodes {
		fits = fits && encLen(n.PF, s.cfg.Arity) <= maxField
	}
	if fits {
		s.checkProof(t, key, ns, where)
		t.Count("proofs", 1)
		return
	}
	var p *trie_blake2b.Proof
	t.mustNot(where, func() { p = s.m.Proof(append([]byte(nil), key...), ns) })
	s.checkVerdict(t, key, path, p, ending, where)
	t.Eval(1)
	t.Check(trie_blake2b_verify.Validate(p, s.root) == nil, "%s: proof of a key of %d bytes is not valid", where, len(key))
	var err error
	pan := catch(func() { err = p.Write(io.Discard) })
	t.Check(pan != nil || err != nil, "%s: proof of a key of %d bytes is serialized, its length has 16 bits", where, len(key))
	pan = catch(func() { p.Bytes() })
	t.Check(pan != nil, "%s: proof of a key of %d bytes has bytes, its length has 16 bits", where, len(key))
	t.Count("proofs which are refused by serialization", 1)
}

func longKeys(t *T) {
	r := t.Rng
	cfg := optCfg(t)
	top := map[int]int{256: maxField, 16: maxField - 1, 2: maxField - 1}[cfg.Arity]
	lens := []int{254, 255, 256, 257, 300, 511, 512, 513, 4095, 4096, 20000, 32767, 32768, top - 2, top - 1, top, top + 1, top + 2, top + 300, 2*maxField + r.Intn(5)}
	n := lens[r.Intn(len(lens))]
	w := newWorld(t, cfg)
	keys := limitKeys(r, n, 3+r.Intn(6))
	t.Sample("%s, lengths of keys %v", cfg, func() (l []int) {
		for _, k := range keys {
			l = append(l, len(k))
		}
		return
	}())
	failed := false
	for step := 0; step < 4+r.Intn(6); step++ {
		for i := 0; i < 1+r.Intn(4); i++ {
			k := keys[r.Intn(len(keys))]
			if r.Intn(3) == 0 && len(w.cur) > 0 {
				if ks := sortedKeys(w.cur); r.Intn(4) > 0 {
					k = []byte(ks[r.Intn(len(ks))])
				}
				w.exec(Op{Kind: opDel, K: k})
			} else {
				v := randBytes(r, 1+r.Intn(60))
				if r.Intn(6) == 0 && len(k) > 0 {
					v = k
				}
				w.exec(Op{Kind: opSet, K: k, V: v})
			}
		}
		w.commit()
		where := fmt.Sprintf("%s, keys of %s bytes", cfg, lensOf(w.cur))
		w.checkRoot(w.tr, where)
		s := stateOf(w)
		for i := 0; i < 2; i++ {
			k := keys[r.Intn(len(keys))]
			if r.Intn(4) == 0 {
				k = append(append([]byte{}, k...), byte(r.Intn(256)))
			} else if r.Intn(4) == 0 {
				k = k[:r.Intn(len(k)+1)]
			}
			s.limitProof(t, k, w.tr, where)
		}
		if len(w.cur) > 0 && n >= 255 {
			t.Seen(cfg.String(), lensOf(w.cur))
		}
		if !fragmentsFit(w.tree) {
			// nothing wrong is stored: what is there is the node of this trie, or of the one stored before
			old := copyMap(w.ts.m)
			if pan := catch(func() { w.tr.PersistMutations(w.ts) }); pan == nil {
				t.Fail("%s: a path fragment which is longer than its length can say is stored", where)
			}
			fit := &oTree{cfg: cfg, byKey: map[string]*oNode{}}
			for _, o := range w.tree.nodes {
				if encLen(o.PF, cfg.Arity) <= maxField {
					fit.nodes = append(fit.nodes, o)
				}
			}
			now := fit.storeOf()
			for k, v := range w.ts.m {
				t.Check(bytes.Equal(v, now[k]) || old[k] != nil && bytes.Equal(v, old[k]),
					"%s: after a refused persist the node at a key of %d bytes has bytes which are of no trie", where, len(k))
			}
			failed = true
			t.Eval(1)
			t.Count("persists refused", 1)
			continue
		}
		w.persist()
		w.checkStore(where)
		if failed {
			t.Count("persists after a refused one", 1)
			failed = false
		}
		t.Count("persists with long keys", 1)
		w.checkNodes(w.reader(), where+", reader")
		re := trie.New(w.model, w.ts, w.valueReader(), cfg.Opt)
		w.checkRoot(re, where+", reopened")
		for i := 0; i < 2; i++ {
			s.limitProof(t, keys[r.Intn(len(keys))], []trie.NodeStore{re, w.reader()}[i], where+", reopened")
		}
		if r.Intn(3) == 0 {
			w.tr = re
		}
	}
}

// longBatch: the batched updater refuses as a whole what can not be stored
func longBatch(t *T) {
	r := t.Rng
	cfg := batchCfg(r)
	if cfg.KZG {
		cfg = Cfg{Arity: []int{2, 16, 256}[r.Intn(3)], HS: 20}
	}
	kvs := mapdb.NewMapDB()
	tp, vp := []byte{1}, []byte{2}
	up, err := hive_adaptor.NewHiveBatchedUpdater(kvs, newModel(cfg), tp, vp, cfg.Opt)
	t.Check(err == nil, "updater: %v", err)
	keys := limitKeys(r, []int{300, 65533, 65534, 65535, 65536, 70000}[r.Intn(6)], 4+r.Intn(4))
	all, pending := map[string][]byte{}, map[string][]byte{}
	for step := 0; step < 5; step++ {
		for i := 0; i < 1+r.Intn(3); i++ {
			k, v := keys[r.Intn(len(keys))], randBytes(r, 1+r.Intn(40))
			if len(k) == 0 {
				continue
			}
			if r.Intn(3) == 0 {
				v = nil
				delete(pending, string(k))
			} else {
				pending[string(k)] = v
			}
			up.Update(append([]byte{}, k...), append([]byte(nil), v...))
		}
		tree := buildTree(pending, cfg)
		where := fmt.Sprintf("%s: batch with keys of %s bytes", cfg, lensOf(pending))
		pan := catch(func() { err = up.Commit() })
		ok := pan == nil && err == nil
		t.Eval(1)
		if fragmentsFit(tree) {
			t.Check(ok, "%s: is not committed: %v %v", where, err, pan)
			all = copyMap(pending)
			t.Count("batches with long keys", 1)
		} else {
			t.Check(!ok, "%s: is committed, a path fragment is longer than its length can say", where)
			t.Count("batches refused", 1)
		}
		vals := checkDB(t, kvs, cfg, tp, vp, where)
		t.Check(sameContent(vals, all), "%s: values are not the ones of the last commit: %s", where, diffStores(vals, all))
		t.Seen("batch", cfg.String(), lensOf(pending))
		if !ok {
			// withdrawn, the rest is committed
			for k := range copyMap(pending) {
				if len(k) > 60000 {
					delete(pending, k)
					up.Update([]byte(k), nil)
				}
			}
		}
	}
}

func deepTrie(t *T) {
	r := t.Rng
	cfg := optCfg(t)
	n := map[int]int{256: 700, 16: 400, 2: 120}[cfg.Arity]
	if t.n%20 == 19 {
		n *= 2
	}
	n = n/3 + r.Intn(n)
	base := randBytes(r, n)
	if r.Intn(2) == 0 {
		base = fromAlpha(r, []byte{0, 0xff}, n)
	}
	w := newWorld(t, cfg)
	order := r.Perm(n + 1)
	if r.Intn(3) == 0 {
		for i := range order {
			order[i] = n - i
		}
	}
	for j, i := range order {
		if r.Intn(20) == 0 {
			continue
		}
		w.exec(Op{Kind: opSet, K: base[:i], V: randBytes(r, 1+r.Intn(40))})
		if i > 0 && r.Intn(10) == 0 { // a branch beside the chain
			k := append([]byte{}, base[:i]...)
			k[i-1] ^= 1 << r.Intn(8)
			w.exec(Op{Kind: opSet, K: k, V: randBytes(r, 1+r.Intn(40))})
		}
		if j == len(order)/2 {
			w.exec(Op{Kind: opPersist})
		}
	}
	for round := 0; round < 3; round++ {
		w.exec(Op{Kind: opPersist})
		where := fmt.Sprintf("%s: %d nested keys", cfg, len(w.cur))
		w.checkRoot(w.tr, where)
		w.checkStore(where)
		w.checkNodes(w.reader(), where)
		s := stateOf(w)
		for i := 0; i < 4; i++ {
			k := base[:r.Intn(n+1)]
			if i == 0 {
				k = append(append([]byte{}, base...), 7)
			}
			s.limitProof(t, k, []trie.NodeStore{w.tr, w.reader()}[i%2], where)
			checkPath(t, s.tree, w.tr, k, where)
		}
		nodes, _ := s.tree.walk(oUnpack(base, cfg.Arity))
		t.Count("depth of tries, total", len(nodes))
		if len(nodes) >= 100 {
			t.Seen("deep", cfg.String(), s.root)
		}
		for i := r.Intn(n); i > 0; i-- {
			w.exec(Op{Kind: opDel, K: base[:r.Intn(n+1)]})
		}
	}
}

// abyss: a path of very many nodes. Keys are inserted from the longest one, so that building it is cheap
func abyss(t *T) {
	r := t.Rng
	cfg := allCfgs()[t.n%6]
	cfg.Opt = r.Intn(2) == 0
	depth := 4500 + r.Intn(1500)
	if t.n >= 6 {
		depth = 8200 + r.Intn(4000)
	}
	w := newWorld(t, cfg)
	var base []byte
	bits := map[int]int{256: 8, 16: 4, 2: 1}[cfg.Arity]
	side := 8 / bits // nodes which one byte can have on the path, with branches at each position
	base = randBytes(r, depth/side+2)
	for i := len(base); i > 0; i-- {
		w.exec(Op{Kind: opSet, K: base[:i], V: randBytes(r, 1+r.Intn(40))})
		for b := bits; b < 8; b += bits { // a branch inside the byte
			k := append([]byte{}, base[:i]...)
			k[i-1] ^= 1 << (b - 1)
			w.exec(Op{Kind: opSet, K: k, V: randBytes(r, 1+r.Intn(40))})
		}
	}
	for round := 0; round < 2; round++ {
		w.exec(Op{Kind: opPersist})
		where := fmt.Sprintf("%s: path of about %d nodes", cfg, depth)
		w.checkRoot(w.tr, where)
		want := w.tree.storeOf()
		t.Check(sameContent(w.ts.m, want), "%s: the store is not the one of the content: %s", where, diffStores(w.ts.m, want))
		s := stateOf(w)
		for i := 0; i < 2; i++ {
			k := base[:len(base)-i]
			if i == 1 {
				k = append(append([]byte{}, base...), 7)
			}
			s.limitProof(t, k, []trie.NodeStore{w.tr, w.reader()}[i%2], where)
		}
		nodes, _ := s.tree.walk(oUnpack(base, cfg.Arity))
		t.Count("nodes of very long paths", len(nodes))
		t.Seen("abyss", cfg.String(), s.root)
		// the longest key goes, a change at the deep end
		w.exec(Op{Kind: opDel, K: base})
		w.exec(Op{Kind: opCloneSwap})
	}
}

func wideTrie(t *T) {
	r := t.Rng
	cfg := allCfgs()[t.n%6]
	cfg.Thr = []int{0, 20}[r.Intn(2)]
	w := newWorld(t, cfg)
	pre := randBytes(r, r.Intn(3))
	var keys [][]byte
	for a := 0; a < 256; a++ {
		keys = append(keys, append(append([]byte{}, pre...), byte(a)))
		if r.Intn(24) == 0 {
			for b := 0; b < 256; b++ {
				keys = append(keys, append(append([]byte{}, pre...), byte(a), byte(b)))
			}
		}
	}
	keys = append(keys, pre)
	r.Shuffle(len(keys), func(i, j int) { keys[i], keys[j] = keys[j], keys[i] })
	for _, k := range keys {
		w.exec(Op{Kind: opSet, K: k, V: randBytes(r, 1+r.Intn(40))})
	}
	for round := 0; round < 4; round++ {
		w.exec(Op{Kind: opPersist})
		where := fmt.Sprintf("%s: wide trie of %d keys", cfg, len(w.cur))
		w.checkRoot(w.tr, where)
		w.checkStore(where)
		w.checkNodes(w.reader(), where)
		s := stateOf(w)
		for i := 0; i < 10; i++ {
			s.limitProof(t, keys[r.Intn(len(keys))], []trie.NodeStore{w.tr, w.reader()}[i%2], where)
		}
		for _, n := range w.tree.nodes {
			t.Count("nodes with all children", btoi(len(n.Children) == cfg.Arity))
		}
		t.Seen("wide", cfg.String(), s.root)
		// down to one child, to none, and up again
		keep := r.Intn(3)
		for i, k := range keys {
			switch round {
			case 0:
				if i >= keep {
					w.exec(Op{Kind: opDel, K: k})
				}
			case 1:
				w.exec(Op{Kind: opSet, K: k, V: []byte{byte(i), 1}})
			case 2:
				if r.Intn(2) == 0 {
					w.exec(Op{Kind: opDel, K: k})
				}
			}
		}
	}
}

func kzgLimits(t *T) {
	r := t.Rng
	cfg := Cfg{Arity: 256, KZG: true, Opt: r.Intn(4) == 0}
	w := newWorld(t, cfg)
	n := []int{255, 256, 257, 1000, 65534, 65535, 65536, 66000}[t.n%8]
	keys := limitKeys(r, n, 4)
	if t.n%3 == 2 { // a deep chain
		n = 60
		keys = nil
		base := randBytes(r, n)
		for i := 0; i <= n; i++ {
			keys = append(keys, base[:i])
		}
	}
	for _, k := range keys {
		w.exec(Op{Kind: opSet, K: k, V: randBytes(r, 1+r.Intn(40))})
	}
	w.exec(Op{Kind: opDel, K: keys[r.Intn(len(keys))]})
	w.commit()
	where := fmt.Sprintf("%s, keys of %s bytes", cfg, lensOf(w.cur))
	w.checkRoot(w.tr, where)
	s := stateOf(w)
	t.Sample("%s", where)
	if !fragmentsFit(w.tree) {
		t.Check(catch(func() { w.tr.PersistMutations(w.ts) }) != nil, "%s: a path fragment which is longer than its length can say is stored", where)
		t.Count("persists refused", 1)
	} else {
		w.persist()
		w.checkStore(where)
		w.checkRoot(w.reader(), where+", reader")
		t.Count("persists with long keys", 1)
	}
	t.Seen(cfg.String(), lensOf(w.cur))
	for i := 0; i < 3 && len(s.keys) > 0; i++ {
		k := s.keys[r.Intn(len(s.keys))]
		if len(k) <= maxField {
			s.kzgCheckPresent(t, k, w.tr, where)
			t.Count("proofs", 1)
			continue
		}
		p, ok := trie_kzg_bn256.Model.ProofOfInclusion(append([]byte(nil), k...), w.tr)
		t.Check(ok && p.Validate(kzgRoot(w.tr)) == nil, "%s: no valid proof of a key of %d bytes", where, len(k))
		var err error
		pan := catch(func() { err = p.Write(io.Discard) })
		t.Check(pan != nil || err != nil, "%s: proof of a key of %d bytes is serialized, its length has 16 bits", where, len(k))
		t.Count("proofs which are refused by serialization", 1)
	}
}

func runC25(c *Ctx) {
	c.Cases("long-keys", 400*c.scale, longKeys)
	c.Cases("batches", 400*c.scale, longBatch)
	c.Cases("deep", 40*c.scale, deepTrie)
	c.casesW("abyss", 4*c.scale, 2, abyss)
	c.Cases("wide", 24*c.scale, wideTrie)
	c.Cases("kzg", 10*c.scale, kzgLimits)
}
