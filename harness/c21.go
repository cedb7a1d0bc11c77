package main

import (
	"bytes"
	"fmt"
	"math/rand"

	"github.com/iotaledger/trie.go/hive_adaptor"
	"github.com/iotaledger/trie.go/models/trie_blake2b"
	"github.com/iotaledger/trie.go/models/trie_kzg_bn256"
	"github.com/iotaledger/trie.go/trie"
)

func init() {
	register(&property{id: "C21",
		rule:  "Single calls (updates, deletions, proofs, node reads, roots) and batches of them run on tries opened on persisted states of very different sizes and shapes, over a store which records every read and write and a commitment model which counts every computation. Each key which is read must belong to a node on the path of a key of the call or to a direct child of such a node, the number of different nodes read is bounded by 2 per node of the path plus 4, the number of reads by 10 per node plus 16, commitments recomputed by the number of nodes on the changed paths, and the writes of a persist must be nodes read or changed since the cache was cleared. Distinct by state and call; the largest states have tens of thousands of keys.",
		assum: []string{"the path of a key is the one in the canonical trees before and after the call", "constants of the bounds are 2 times or more what the implementation needs"},
		run:   runC21})
}

// countingModel counts computations of commitments of nodes
type countingModel struct {
	trie.CommitmentModel
	updates, calcs, data int
}

func (m *countingModel) CommitToData(d []byte) trie.TCommitment {
	m.data++
	return m.CommitmentModel.CommitToData(d)
}

func (m *countingModel) CalcNodeCommitment(n *trie.NodeData) trie.VCommitment {
	m.calcs++
	return m.CommitmentModel.CalcNodeCommitment(n)
}

func (m *countingModel) UpdateNodeCommitment(mutate *trie.NodeData, ch map[byte]trie.VCommitment, delta bool, term trie.TCommitment, update *trie.VCommitment) {
	m.updates++
	m.CommitmentModel.UpdateNodeCommitment(mutate, ch, delta, term, update)
}

// workWorld is a persisted state on which single calls are measured
type workWorld struct {
	t     *T
	cfg   Cfg
	model *countingModel
	ts    *MStore
	vs    *MStore
	cur   map[string][]byte
	tree  *oTree
	reads []string
	vgets int
}

// newWorkWorld builds the store from the canonical tree, without the code under test
func newWorkWorld(t *T, cfg Cfg, content map[string][]byte) *workWorld {
	w := &workWorld{t: t, cfg: cfg, model: &countingModel{CommitmentModel: newModel(cfg)}, ts: newMStore(), vs: newMStore(), cur: content}
	w.tree = buildTree(content, cfg)
	w.ts.m = w.tree.storeOf()
	w.ts.share = true
	w.vs.m = content
	w.vs.share = true
	w.ts.onGet = func(k []byte) { w.reads = append(w.reads, string(k)) }
	w.vs.onGet = func([]byte) { w.vgets++ }
	return w
}

func (w *workWorld) reset() { w.reads, w.vgets, w.ts.hass, w.vs.hass = nil, 0, 0, 0 }

func (w *workWorld) open() *trie.Trie {
	return trie.New(w.model, w.ts, w.vs, w.cfg.Opt)
}

// pathNodes is the number of nodes on the path of the key
func pathNodes(tree *oTree, path []byte) int {
	if tree.root == nil {
		return 0
	}
	n, _ := tree.walk(path)
	return len(n)
}

// near tells if the node key is on the path of the unpacked key, or is a direct child of a node on it
func near(tree *oTree, path, node []byte) bool {
	if bytes.HasPrefix(path, node) {
		return true
	}
	nodes := []*oNode{}
	if tree.root != nil {
		nodes, _ = tree.walk(path)
	}
	for _, n := range nodes {
		if len(node) == len(n.Key)+len(n.PF)+1 && bytes.HasPrefix(node, n.Key) && bytes.HasPrefix(node[len(n.Key):], n.PF) {
			return true
		}
	}
	return false
}

// local checks the reads of calls with the given keys
func (w *workWorld) local(keys [][]byte, after *oTree, nodes int, what string) {
	t := w.t
	t.Eval(1)
	limit := 10*nodes + 16*len(keys)
	total := len(w.reads) + w.vgets + w.ts.hass + w.vs.hass
	distinct := map[string]bool{}
	for _, r := range w.reads {
		distinct[r] = true
	}
	t.Check(len(distinct) <= 2*nodes+4*len(keys), "%s: %d different nodes are read, path of %d nodes, %d pairs in the trie", what, len(distinct), nodes, len(w.cur))
	t.Check(total <= limit, "%s: %d reads of the stores, path of %d nodes, %d pairs in the trie (limit %d)", what, total, nodes, len(w.cur), limit)
	t.Count("store reads observed", total)
	for _, r := range w.reads {
		node, ok := oDecode([]byte(r), w.cfg.Arity)
		t.Check(ok, "%s: reads '%x' which is not the key of a node", what, r)
		is := false
		for _, k := range keys {
			p := oUnpack(k, w.cfg.Arity)
			if near(w.tree, p, node) || after != nil && near(after, p, node) {
				is = true
				break
			}
		}
		t.Check(is, "%s: reads node '%x' which is not on the path and is not a child of it", what, node)
	}
}

func contentOf(r *rand.Rand, shape, n int) map[string][]byte {
	m := map[string][]byte{}
	switch shape {
	case 0: // random keys
		for i := 0; i < n; i++ {
			m[string(randBytes(r, 8))] = randBytes(r, 1+r.Intn(40))
		}
	case 1: // dense: short keys, wide nodes
		for i := 0; i < n; i++ {
			m[string([]byte{byte(i >> 8), byte(i)})] = randBytes(r, 1+r.Intn(4))
		}
	case 2: // chain: every key is a prefix of the next
		k := []byte{}
		for i := 0; i < n && i < 300; i++ {
			k = append(k, byte(r.Intn(256)))
			m[string(k)] = randBytes(r, 1+r.Intn(40))
		}
		for i := 0; i < 20; i++ {
			m[string(append(append([]byte{}, k[:r.Intn(len(k)+1)]...), byte(r.Intn(256))))] = []byte{1}
		}
	case 3: // long common prefixes
		pre := randBytes(r, 20+r.Intn(60))
		for i := 0; i < n; i++ {
			m[string(pre)+string(randBytes(r, 3))] = randBytes(r, 1+r.Intn(40))
		}
	case 4: // one node with all children, each with children
		for i := 0; i < 256; i++ {
			for j := 0; j <= n/256; j++ {
				m[string([]byte{5, byte(i), byte(j * 7)})] = []byte{byte(i), 1}
			}
		}
		m[string([]byte{5})] = []byte("terminal")
	case 5: // pairs of siblings: deletions merge
		for i := 0; i < n/2; i++ {
			k := randBytes(r, 6)
			m[string(append(k, 1, 2))] = []byte{1}
			m[string(append(append([]byte{}, k...), 2, 2))] = []byte{2}
		}
	}
	return m
}

func workKey(r *rand.Rand, keys []string) []byte {
	if len(keys) == 0 {
		return randBytes(r, 3)
	}
	k := []byte(keys[r.Intn(len(keys))])
	switch r.Intn(6) {
	case 0:
		return append(append([]byte{}, k...), randBytes(r, 1+r.Intn(3))...)
	case 1:
		return append([]byte{}, k[:r.Intn(len(k)+1)]...)
	case 2:
		x := append([]byte{}, k...)
		if len(x) > 0 {
			x[r.Intn(len(x))] ^= 1 << uint(r.Intn(8))
		}
		return x
	}
	return k
}

func workCase(t *T, cfg Cfg, shape, n int, rounds int) {
	r := t.Rng
	w := newWorkWorld(t, cfg, contentOf(r, shape, n))
	keys := sortedKeys(w.cur)
	where := fmt.Sprintf("%s shape %d, %d pairs, %d nodes", cfg, shape, len(w.cur), len(w.tree.nodes))
	t.Count("nodes of the states", len(w.tree.nodes))
	for i := 0; i < rounds; i++ {
		w.single(workKey(r, keys), i, where)
	}
	w.batch(keys, where)
	t.Seen(cfg.String(), w.tree.rootBytes(), shape)
	t.Sample("%s: depth %d", where, maxDepth(w.tree))
}

func maxDepth(tree *oTree) int {
	var rec func(n *oNode) int
	rec = func(n *oNode) int {
		d := 0
		for _, c := range n.Children {
			d = maxInt(d, rec(c))
		}
		return d + 1
	}
	if tree.root == nil {
		return 0
	}
	return rec(tree.root)
}

// changed gives the canonical tree with one key changed
func (w *workWorld) changed(key, val []byte) *oTree {
	m := copyMap(w.cur)
	if len(val) == 0 {
		delete(m, string(key))
	} else {
		m[string(key)] = val
	}
	return buildTree0(m, w.cfg)
}

func (w *workWorld) single(key []byte, i int, where string) {
	t := w.t
	r := t.Rng
	path := oUnpack(key, w.cfg.Arity)
	p := pathNodes(w.tree, path)
	reader := trie.NewTrieReader(w.model, w.ts, w.vs)
	arg := append([]byte{}, key...)
	one := [][]byte{key}
	switch i % 5 {
	case 0, 1: // update, deletion on a trie just opened
		tr := w.open()
		w.reset()
		val := randBytes(r, 1+r.Intn(40))
		what := fmt.Sprintf("%s: update of %x", where, key)
		if i%5 == 1 {
			val = nil
			what = fmt.Sprintf("%s: deletion of %x", where, key)
			tr.Delete(arg)
		} else {
			tr.Update(arg, val)
		}
		after := w.changed(key, val)
		w.local(one, after, p, what)
		t.Count("updates and deletions measured", 1)
		// commit: everything it needs is there
		pa := maxInt(p, pathNodes(after, path))
		w.reset()
		w.model.updates, w.model.calcs = 0, 0
		tr.Commit()
		w.local(one, after, p, what+": commit")
		rec := w.model.updates + w.model.calcs
		t.Check(rec <= 2*pa+8, "%s: commit computes %d commitments, path of %d nodes", what, rec, pa)
		t.Count("commitments recomputed by commits", rec)
		w.reset()
		w.model.updates, w.model.calcs = 0, 0
		tr.Commit()
		t.Check(w.model.updates+w.model.calcs == 0, "%s: commit without changes computes %d commitments", what, w.model.updates+w.model.calcs)
		w.local(one, after, 0, what+": commit without changes")
		w.persistIsLocal(tr, one, after, what)
	case 2: // proofs
		for v, ns := range []trie.NodeStore{w.open(), reader} {
			w.reset()
			what := fmt.Sprintf("%s: proof %d of %x", where, v, key)
			switch m := w.model.CommitmentModel.(type) {
			case *trie_blake2b.CommitmentModel:
				m.Proof(arg, ns)
			case *trie_kzg_bn256.CommitmentModel:
				m.ProofOfInclusion(arg, ns)
			}
			w.local(one, nil, p, what)
			t.Count("proofs measured", 1)
		}
	case 3: // root, node
		for v, ns := range []trie.NodeStore{w.open(), reader} {
			w.reset()
			trie.RootCommitment(ns)
			w.local([][]byte{nil}, nil, 1, fmt.Sprintf("%s: root %d", where, v))
			w.reset()
			ns.GetNode(path[:r.Intn(len(path)+1)])
			t.Check(len(w.reads)+w.ts.hass <= 8, "%s: reading one node makes %d reads of the store", where, len(w.reads)+w.ts.hass)
			t.Eval(1)
		}
		tr := w.open()
		w.reset()
		m := newMStore()
		m.m[string(key)] = []byte{1}
		tr.Reconcile(m)
		w.local(one, nil, p, fmt.Sprintf("%s: reconciliation of one key", where))
	case 4: // opening, cloning, clearing
		w.reset()
		tr := w.open()
		tr.Clone()
		tr.ClearCache()
		tr.Info()
		t.Eval(1)
		t.Check(len(w.reads)+w.vgets <= 8, "%s: opening and cloning make %d reads of the stores", where, len(w.reads)+w.vgets)
		// read a few nodes, persist: writes only what was read
		for j := 0; j < 3; j++ {
			tr.GetNode(path[:r.Intn(len(path)+1)])
		}
		w.persistIsLocal(tr, one, nil, fmt.Sprintf("%s: reading along %x", where, key))
	}
}

// persistIsLocal persists into another store and checks the keys which are written
func (w *workWorld) persistIsLocal(tr *trie.Trie, keys [][]byte, after *oTree, what string) {
	t := w.t
	out := newMStore()
	out.logSets = true
	w.reset()
	n := tr.PersistMutations(out)
	t.Eval(1)
	t.Check(n == len(out.lastSet), "%s: persist reports %d mutations, makes %d", what, n, len(out.lastSet))
	t.Check(len(w.reads)+w.vgets <= 4*len(out.lastSet)+8, "%s: persist of %d nodes makes %d reads of the stores", what, len(out.lastSet), len(w.reads)+w.vgets)
	for _, k := range out.lastSet {
		node, ok := oDecode([]byte(k), w.cfg.Arity)
		t.Check(ok, "%s: persist writes '%x'", what, k)
		is := false
		for _, key := range keys {
			p := oUnpack(key, w.cfg.Arity)
			is = is || near(w.tree, p, node) || after != nil && near(after, p, node)
		}
		t.Check(is, "%s: persist writes node '%x' which is neither on the path nor a child of it", what, node)
	}
	t.Count("writes of persists checked", len(out.lastSet))
	tr.ClearCache()
	out.lastSet = nil
	n = tr.PersistMutations(out)
	t.Check(n == 0 && len(out.lastSet) == 0, "%s: persist after clearing the cache writes %d nodes", what, len(out.lastSet))
}

// batch: several rounds of calls, commits and persists on one trie; reads and computations are bounded by the sum
func (w *workWorld) batch(all []string, where string) {
	t := w.t
	r := t.Rng
	tr := w.open()
	cur := copyMap(w.cur)
	for round := 0; round < 3; round++ {
		var keys [][]byte
		nodes := 0
		before := buildTree0(cur, w.cfg)
		w.tree = before
		w.reset()
		n := 1 + r.Intn(12)
		steps := []string{}
		for i := 0; i < n; i++ {
			k := workKey(r, all)
			keys = append(keys, k)
			nodes += pathNodes(before, oUnpack(k, w.cfg.Arity))
			if r.Intn(2) == 0 {
				v := randBytes(r, 1+r.Intn(20))
				tr.Update(k, v)
				cur[string(k)] = v
				steps = append(steps, fmt.Sprintf("%x:%x", k, v))
			} else {
				tr.Delete(k)
				delete(cur, string(k))
				steps = append(steps, fmt.Sprintf("-%x", k))
			}
		}
		after := buildTree0(cur, w.cfg)
		for _, k := range keys {
			nodes += pathNodes(after, oUnpack(k, w.cfg.Arity))
		}
		what := fmt.Sprintf("%s: batch %v", where, steps)
		// keys of the batch move nodes: what is on a path in between is bounded by number only
		total := len(w.reads) + w.vgets + w.ts.hass + w.vs.hass
		t.Eval(2)
		t.Check(total <= 10*nodes+16*n, "%s: %d reads of the stores, %d nodes on the paths", what, total, nodes)
		w.reset()
		w.model.updates, w.model.calcs = 0, 0
		tr.Commit()
		rec := w.model.updates + w.model.calcs
		t.Check(rec <= 2*nodes+8*n, "%s: commit computes %d commitments, %d nodes on the paths", what, rec, nodes)
		t.Check(len(w.reads) <= 10*nodes+16*n, "%s: commit makes %d reads", what, len(w.reads))
		w.model.updates, w.model.calcs = 0, 0
		tr.Commit()
		t.Check(w.model.updates+w.model.calcs == 0, "%s: commit without changes computes commitments", what)
		t.Count("batches measured", 1)
		if r.Intn(2) == 0 {
			w.ts.logSets = true
			w.ts.lastSet = nil
			w.ts.share = false
			tr.PersistMutations(w.ts)
			t.Check(len(w.ts.lastSet) <= (round+1)*(4*nodes+8*n)*4, "%s: persist makes %d writes, %d nodes on the paths", what, len(w.ts.lastSet), nodes)
			w.ts.logSets = false
			w.vs.m = copyMap(cur)
			tr.ClearCache()
		}
	}
}

// batchedWork: commits of the updater of batches touch only what the keys of the batch need, whatever was committed before
func batchedWork(t *T) {
	cfg := batchCfg(t.Rng)
	r := t.Rng
	m := contentOf(r, t.n%6, []int{1, 10, 60, 200}[t.n/6%4])
	db := newFakeDB()
	db.c.quiet = true
	tree := buildTree0(m, cfg)
	tp, vp := []byte{1}, []byte{2}
	for k, v := range buildTree(m, cfg).storeOf() {
		db.c.m[string(tp)+k] = v
	}
	for k, v := range m {
		db.c.m[string(vp)+k] = v
	}
	type access struct {
		op  string
		key string
	}
	var acc []access
	db.c.touched = func(op string, key []byte) { acc = append(acc, access{op, string(key)}) }
	up, err := hive_adaptor.NewHiveBatchedUpdater(db, newModel(cfg), tp, vp, cfg.Opt)
	t.Check(err == nil, "updater: %v", err)
	keys := sortedKeys(m)
	for round := 0; round < 2+r.Intn(5); round++ {
		after := copyMap(m)
		var ks [][]byte
		acc = nil
		for i := 0; i < 1+r.Intn(3); i++ {
			k := workKey(r, keys)
			v := randBytes(r, 1+r.Intn(40))
			if r.Intn(3) == 0 {
				v = nil
			}
			if len(v) == 0 {
				delete(after, string(k))
			} else {
				after[string(k)] = v
			}
			ks = append(ks, k)
			t.Logf("round %d: update %x %x", round, k, v)
			up.Update(append([]byte{}, k...), append([]byte(nil), v...))
		}
		t.Check(up.Commit() == nil, "commit fails")
		tree2 := buildTree0(after, cfg)
		nodes := 0
		for _, k := range ks {
			p := oUnpack(k, cfg.Arity)
			nodes += pathNodes(tree, p) + pathNodes(tree2, p)
		}
		writes := 0
		for _, a := range acc {
			if a.op != "batch-set" && a.op != "batch-delete" || a.key[0] != 1 {
				continue
			}
			writes++
			node, ok := oDecode([]byte(a.key[1:]), cfg.Arity)
			t.Check(ok, "writes %x, which is not the key of a node", a.key)
			is := len(ks) > 1 // keys of one batch move nodes: what was on a path in between is bounded by number
			for _, k := range ks {
				p := oUnpack(k, cfg.Arity)
				is = is || near(tree, p, node) || near(tree2, p, node)
			}
			t.Check(is, "%s: round %d: commit writes node '%x' which is neither on the path of %x nor a child of it", cfg, round, node, ks[0])
		}
		t.Check(writes <= 2*nodes+8*len(ks), "%s: round %d: commit of %d keys writes %d nodes, paths of %d nodes", cfg, round, len(ks), writes, nodes)
		t.Check(len(acc) <= 14*nodes+26*len(ks)+4, "%s: round %d: commit of %d keys makes %d calls to the database, paths of %d nodes", cfg, round, len(ks), len(acc), nodes)
		t.Eval(2)
		t.Count("writes of batches checked", writes)
		m, tree = after, tree2
	}
	t.Seen("batched", cfg.String(), fullStr(m))
}

func runC21(c *Ctx) {
	sizes := []int{1, 10, 100, 1000}
	c.Cases("states", 3000*c.scale, func(t *T) {
		cfg := optCfg(t)
		workCase(t, cfg, t.n%6, sizes[t.n/6%len(sizes)], 25)
	})
	c.Cases("small", 20000*c.scale, func(t *T) {
		cfg := optCfg(t)
		p := newProfile(t.Rng, cfg)
		m := map[string][]byte{}
		var vals [][]byte
		for _, k := range p.keys(t.Rng) {
			if t.Rng.Intn(3) > 0 {
				m[string(k)] = p.value(t.Rng, k, &vals)
			}
		}
		w := newWorkWorld(t, cfg, m)
		keys := sortedKeys(m)
		for i := 0; i < 10; i++ {
			w.single(workKey(t.Rng, keys), i, cfg.String())
		}
		w.batch(keys, cfg.String())
		t.Seen(cfg.String(), fullStr(m))
	})
	c.Cases("batched", 1500*c.scale, batchedWork)
	c.Cases("large", 18*c.scale, func(t *T) {
		cfg := optCfg(t)
		workCase(t, cfg, t.n%6, 30000, 60)
	})
	c.Cases("kzg", 60*c.scale, func(t *T) {
		workCase(t, Cfg{Arity: 256, KZG: true, Opt: t.Rng.Intn(4) == 0}, t.n%6, []int{1, 10, 40}[t.n/6%3], 10)
	})
}
