package main

import (
	"bytes"
	"fmt"
	"io"
	"math/rand"

	"github.com/iotaledger/trie.go/models/trie_blake2b"
	"github.com/iotaledger/trie.go/models/trie_blake2b/trie_blake2b_verify"
	"github.com/iotaledger/trie.go/models/trie_kzg_bn256"
	"github.com/iotaledger/trie.go/trie"
)

func arityOf(a int) trie.PathArity {
	switch a {
	case 2:
		return trie.PathArity2
	case 16:
		return trie.PathArity16
	}
	return trie.PathArity256
}

func newModel(cfg Cfg) trie.CommitmentModel {
	if cfg.KZG {
		return trie_kzg_bn256.Model
	}
	if cfg.Thr == 0 {
		return trie_blake2b.New(arityOf(cfg.Arity), trie_blake2b.HashSize(cfg.HS))
	}
	return trie_blake2b.New(arityOf(cfg.Arity), trie_blake2b.HashSize(cfg.HS), cfg.Thr)
}

func newModelT(t *T, cfg Cfg) trie.CommitmentModel {
	if cfg.Mod != "" {
		return &toyModel{t: t, cfg: cfg, kind: cfg.Mod, inPlace: t.n%2 == 1}
	}
	return newModel(cfg)
}

// World is one trie under test together with its shadow: the content it must have
type World struct {
	t        *T
	cfg      Cfg
	model    trie.CommitmentModel
	ts       *MStore
	ts2      *MStore // second target of persists, if any
	vs       *MStore
	tr       *trie.Trie
	cur      map[string][]byte // content including pending updates
	pers     map[string][]byte // content last persisted
	dirty    bool              // there are updates since the last commit
	forceVS  bool              // give the value store even when no option needs it
	scribble bool              // overwrite all argument buffers after each call
	everNode map[string]bool   // keys of nodes which existed in some earlier committed state
	tree     *oTree            // canonical tree of cur, valid when !dirty
	// monitors
	onCommit  func(w *World)
	onPersist func(w *World)
	onOp      func(w *World, o Op)
}

func newWorld(t *T, cfg Cfg) *World {
	w := &World{t: t, cfg: cfg, model: newModelT(t, cfg), ts: newMStore(), vs: newMStore(),
		cur: map[string][]byte{}, pers: map[string][]byte{}, everNode: map[string]bool{}}
	w.open()
	return w
}

func (w *World) valueReader() trie.KVReader {
	if w.cfg.Thr == 0 && !w.forceVS {
		return nil
	}
	return w.vs
}

func (w *World) open() {
	if w.cfg.Opt {
		w.tr = trie.New(w.model, w.ts, w.valueReader(), true)
	} else {
		w.tr = trie.New(w.model, w.ts, w.valueReader())
	}
}

func (w *World) reader() *trie.TrieReader {
	return trie.NewTrieReader(w.model, w.ts, w.valueReader())
}

func (w *World) buf(b []byte) []byte {
	if b == nil {
		return nil
	}
	return append(make([]byte, 0, len(b)+8), b...)
}

func (w *World) scrib(bs ...[]byte) {
	if !w.scribble {
		return
	}
	for _, b := range bs {
		b = b[:cap(b)]
		for i := range b {
			b[i] ^= 0x5a
		}
	}
}

func (w *World) set(k, v []byte) {
	if len(v) == 0 {
		delete(w.cur, string(k))
	} else {
		w.cur[string(k)] = append([]byte(nil), v...)
	}
	w.dirty = true
}

func (w *World) exec(o Op) {
	switch o.Kind {
	case opSet:
		k, v := w.buf(o.K), w.buf(o.V)
		w.tr.Update(k, v)
		w.scrib(k, v)
		w.set(o.K, o.V)
	case opSetEmpty:
		k := w.buf(o.K)
		if len(o.K)%2 == 0 {
			w.tr.Update(k, nil)
		} else {
			w.tr.Update(k, []byte{})
		}
		w.scrib(k)
		w.set(o.K, nil)
	case opDel:
		k := w.buf(o.K)
		w.tr.Delete(k)
		w.scrib(k)
		w.set(o.K, nil)
	case opSetStr:
		k, v := w.buf(o.K), w.buf(o.V)
		var ki, vi any = k, v
		if o.X&1 != 0 {
			ki = string(k)
		}
		if o.X&2 != 0 {
			vi = string(v)
		}
		if len(k) == 0 && o.X == 0 {
			ki = nil
		}
		w.tr.UpdateStr(ki, vi)
		w.scrib(k, v)
		w.set(o.K, o.V)
	case opDelStr:
		k := w.buf(o.K)
		var ki any = k
		if o.X&1 != 0 {
			ki = string(k)
		}
		w.tr.DeleteStr(ki)
		w.scrib(k)
		w.set(o.K, nil)
	case opKeyCommit:
		k := w.buf(o.K)
		w.tr.InsertKeyCommitment(k)
		w.scrib(k)
		w.set(o.K, o.K)
	case opCommit:
		w.commit()
	case opPersist:
		w.commit()
		w.persist()
	case opPersistAgain:
		if !w.dirty && !w.forceVS && sameContent(w.cur, w.pers) {
			before := copyMap(w.ts.m)
			w.tr.PersistMutations(w.ts)
			w.t.Check(sameContent(before, w.ts.m), "persisting again without changes changed the store: %s", diffStores(w.ts.m, before))
			w.t.Count("persists repeated", 1)
		}
	case opClear:
		w.tr.ClearCache()
		w.cur = copyMap(w.pers)
		w.dirty = false
		w.tree = nil
	case opReopen:
		w.open()
		w.cur = copyMap(w.pers)
		w.dirty = false
		w.tree = nil
	case opCloneSwap:
		old := w.tr
		w.tr = w.tr.Clone()
		// the abandoned original is changed further: it must not influence the clone
		r := rand.New(rand.NewSource(o.X))
		ks := sortedKeys(w.cur)
		for i := 0; i < r.Intn(5); i++ {
			if len(ks) > 0 && r.Intn(2) == 0 {
				k := []byte(ks[r.Intn(len(ks))])
				if r.Intn(2) == 0 {
					old.Delete(k)
				} else {
					old.Update(k, randBytes(r, 5))
				}
			} else {
				old.Update(randBytes(r, r.Intn(4)), randBytes(r, 3))
			}
		}
		if r.Intn(2) == 0 {
			old.Commit()
		}
		if r.Intn(3) == 0 {
			old.ClearCache()
		}
		w.t.Count("clones swapped", 1)
	case opRead:
		w.read(o)
	}
	w.t.Count("op "+opNames[o.Kind], 1)
	if w.onOp != nil {
		w.onOp(w, o)
	}
}

func (w *World) commit() {
	w.tr.Commit()
	w.dirty = false
	w.tree = buildTree(w.cur, w.cfg)
	if w.onCommit != nil {
		w.onCommit(w)
	}
	for _, n := range w.tree.nodes {
		w.everNode[string(n.Key)] = true
	}
}

// logWriter collects what is written. It keeps the slices
type logWriter [][2][]byte

func (l *logWriter) Set(k, v []byte) { *l = append(*l, [2][]byte{k, v}) }

func (w *World) persist() {
	if w.ts2 != nil {
		// a second store gets the same mutations, and the first one gets them from a buffer
		var log logWriter
		w.tr.PersistMutations(&log)
		w.tr.PersistMutations(w.ts2)
		for _, o := range log {
			w.ts.Set(o[0], o[1])
		}
		w.t.Check(sameContent(w.ts.m, w.ts2.m), "stores which got the same mutations differ: %s", diffStores(w.ts.m, w.ts2.m))
		w.t.Count("persists to two stores", 1)
	} else {
		w.tr.PersistMutations(w.ts)
	}
	for k := range w.pers {
		if _, ok := w.cur[k]; !ok {
			w.vs.Set([]byte(k), nil)
		}
	}
	for k, v := range w.cur {
		w.vs.Set([]byte(k), v)
	}
	w.pers = copyMap(w.cur)
	if w.onPersist != nil {
		w.onPersist(w)
	}
}

// read performs read-only calls; whatever they return here (possibly on uncommitted state), they must not matter later
func (w *World) read(o Op) {
	r := rand.New(rand.NewSource(o.X))
	path := oUnpack(o.K, w.cfg.Arity)
	for i := 0; i < 3; i++ {
		switch r.Intn(7) {
		case 0:
			w.tr.GetNode(path[:r.Intn(len(path)+1)])
		case 1:
			proofBytes(w.t, w.model, o.K, w.tr)
		case 2:
			m := newMStore()
			for k, v := range w.cur {
				if len(k) < 200 {
					m.m[k] = v
				}
			}
			m.m[string(o.K)] = []byte{1}
			w.tr.Reconcile(m)
		case 3:
			trie.RootCommitment(w.tr)
		case 4:
			_ = w.tr.Info()
			_ = w.tr.Model().Description()
		case 5:
			w.tr.DangerouslyDumpCacheToString()
		case 6:
			if n, ok := w.tr.GetNode(nil); ok && n.Terminal() != nil {
				_ = trie.ToString(n)
			}
		}
	}
}

// proofBytes gives the serialized proof of a key ("" when the model refuses)
func proofBytes(t *T, model trie.CommitmentModel, key []byte, ns trie.NodeStore) []byte {
	switch m := model.(type) {
	case *trie_blake2b.CommitmentModel:
		return m.Proof(key, ns).Bytes()
	case *trie_kzg_bn256.CommitmentModel:
		p, ok := m.ProofOfInclusion(key, ns)
		if !ok {
			return nil
		}
		return p.Bytes()
	case *toyModel:
		return toyPath(m, key, ns)
	}
	panic("model")
}

func commitBytes(c interface{ Write(w io.Writer) error }) []byte {
	var b bytes.Buffer
	if err := c.Write(&b); err != nil {
		panic(violation{fmt.Sprintf("commitment write: %v", err)})
	}
	return b.Bytes()
}

func rootOf(ns trie.NodeStore) []byte {
	c := trie.RootCommitment(ns)
	if isNil(c) {
		return nil
	}
	return c.Bytes()
}

func isNil(c any) bool {
	r, conclusive := trie.CheckNils(c, nil)
	return conclusive && r
}

// termRaw strips the representation of a terminal commitment down to what it commits to
func termRaw(c trie.TCommitment, cfg Cfg) []byte {
	b := c.Bytes()
	if cfg.KZG {
		return b
	}
	if len(b) == 0 {
		return nil
	}
	return b[1:]
}

// checkNode compares a node of the trie with the canonical one
func checkNode(t *T, cfg Cfg, got trie.Node, want *oNode, where string) {
	t.Check(bytes.Equal(got.PathFragment(), want.PF), "%s: node '%x': path fragment %x, want %x", where, want.Key, got.PathFragment(), want.PF)
	t.Check(bytes.Equal(got.Key(), want.Key), "%s: node '%x': reports key %x", where, want.Key, got.Key())
	if want.Data == nil {
		t.Check(isNil(got.Terminal()), "%s: node '%x': has terminal, want none", where, want.Key)
	} else {
		t.Check(!isNil(got.Terminal()), "%s: node '%x': has no terminal", where, want.Key)
		wb := oTermBytes(want.Data, cfg)
		if !cfg.KZG {
			wb = wb[1:]
		}
		t.Check(bytes.Equal(termRaw(got.Terminal(), cfg), wb), "%s: node '%x': terminal %x, want %x", where, want.Key, termRaw(got.Terminal(), cfg), wb)
	}
	ch := got.ChildCommitments()
	t.Check(len(ch) == len(want.Children), "%s: node '%x': %d children, want %d", where, want.Key, len(ch), len(want.Children))
	for i, c := range want.Children {
		g, ok := ch[i]
		t.Check(ok && !isNil(g), "%s: node '%x': child %d is missing", where, want.Key, i)
		t.Check(bytes.Equal(g.Bytes(), c.Commit), "%s: node '%x': child %d commitment %x, want %x", where, want.Key, i, g.Bytes(), c.Commit)
	}
}

// checkNodes compares the whole node set
func (w *World) checkNodes(ns trie.NodeStore, where string) {
	for _, n := range w.tree.nodes {
		g, ok := ns.GetNode(append([]byte(nil), n.Key...))
		w.t.Check(ok, "%s: node '%x' is missing", where, n.Key)
		checkNode(w.t, w.cfg, g, n, where)
		w.t.Count("nodes compared", 1)
	}
	for k := range w.everNode {
		if _, in := w.tree.byKey[k]; !in {
			_, ok := ns.GetNode([]byte(k))
			w.t.Check(!ok, "%s: node '%x' of an earlier state is still reachable", where, k)
		}
	}
}

func (w *World) checkRoot(ns trie.NodeStore, where string) {
	got, want := rootOf(ns), w.tree.rootBytes()
	w.t.Eval(1)
	w.t.Check(bytes.Equal(got, want), "%s: root %x, want %x for content of %d pairs: %s", where, got, want, len(w.cur), contentStr(w.cur))
	w.t.Count("roots compared", 1)
}

func contentStr(m map[string][]byte) string {
	s := "{"
	for i, k := range sortedKeys(m) {
		if i == 8 {
			return s + "...}"
		}
		s += fmt.Sprintf("%s:%s ", hx([]byte(k)), hx(m[k]))
	}
	return s + "}"
}

// verifyBlake validates a proof and returns the claim it makes
func verifyBlake(p *trie_blake2b.Proof, root []byte) (err error, key, term []byte, absent bool) {
	if err = trie_blake2b_verify.Validate(p, root); err != nil {
		return
	}
	key, term = trie_blake2b_verify.MustKeyWithTerminal(p)
	absent = trie_blake2b_verify.IsProofOfAbsence(p)
	return
}

func histString(ops []Op) []string {
	r := make([]string, len(ops))
	for i, o := range ops {
		r[i] = o.String()
	}
	return r
}

// runHistory executes a history in a fresh world; on failure it is shrunk and the failure is raised again
func runHistory(t *T, cfg Cfg, ops []Op, setup func(w *World)) *World {
	run := func(tt *T, ops []Op) *World {
		w := newWorld(tt, cfg)
		setup(w)
		for _, o := range ops {
			w.exec(o)
		}
		return w
	}
	var w *World
	msg, stack := protect(func() { w = run(t, ops) })
	if msg == "" {
		return w
	}
	min := shrink(ops, func(o []Op) bool {
		tt := &T{c: t.c, suite: t.suite, n: t.n, Rng: rand.New(rand.NewSource(1)), counts: map[string]int64{}, dist: map[uint64]struct{}{}}
		m, _ := protect(func() { run(tt, o) })
		if m != "" {
			msg = m
		}
		return m != ""
	})
	t.minimal = append([]string{"config " + cfg.String()}, histString(min)...)
	t.trace = nil
	t.Fail("%s [minimal history, %d of %d operations, %s: %v] %s", msg, len(min), len(ops), cfg, histString(min[:minInt(len(min), 12)]), firstLine(stack))
	return nil
}

func minInt(a, b int) int {
	if a < b {
		return a
	}
	return b
}

func shrink(ops []Op, fails func([]Op) bool) []Op {
	cur := append([]Op(nil), ops...)
	budget := 400
	for chunk := len(cur) / 2; chunk >= 1 && budget > 0; {
		removed := false
		for i := 0; i+chunk <= len(cur) && budget > 0; {
			cand := append(append([]Op(nil), cur[:i]...), cur[i+chunk:]...)
			budget--
			if len(cand) > 0 && fails(cand) {
				cur = cand
				removed = true
			} else {
				i += chunk
			}
		}
		if chunk == 1 && !removed {
			break
		}
		if chunk > 1 {
			chunk /= 2
		}
	}
	return cur
}
