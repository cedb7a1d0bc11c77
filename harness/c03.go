package main

import (
	"bytes"
	"fmt"
	"math/rand"

	"github.com/iotaledger/trie.go/trie"
)

func init() {
	register(&property{id: "C03",
		rule:  "A case runs up to four clones of one trie over one immutable base store; random updates, deletions, commits, reads, cache drops and further clonings are interleaved on all of them, each copy has its own shadow content, and after every operation on one copy another copy is audited: committed root and nodes, store content produced by persisting to a private copy of the base. In other cases several tries over one store take turns, each dropping its cache first. Non-trivial: an audit of a copy while at least one sibling has a different content; distinct by (configuration, contents).",
		assum: []string{"clones share the base store, so persisting inside a case goes to a private copy of it"},
		run:   runC03})
}

// branch is one clone with its shadow
type branch struct {
	tr    *trie.Trie
	cur   map[string][]byte
	dirty bool
	name  string
}

type forest struct {
	t    *T
	cfg  Cfg
	base *World // gives base store, persisted content
	br   []*branch
	next int
}

func (f *forest) tree(b *branch) *oTree { return buildTree(b.cur, f.cfg) }

// audit checks a committed branch completely, without using it in a way that could repair it: the check persists to a copy
func (f *forest) audit(b *branch, where string) {
	t := f.t
	if b.dirty {
		// look at a clone instead of committing the branch itself: the clone must have the same pending state
		b = &branch{tr: b.tr.Clone(), cur: b.cur, name: b.name + "'"}
		b.tr.Commit()
		t.Count("audits through a clone of a dirty trie", 1)
	}
	tree := f.tree(b)
	t.Eval(1)
	got := rootOf(b.tr)
	t.Check(bytes.Equal(got, tree.rootBytes()), "%s: clone %s: root %x, want %x, content %s", where, b.name, got, tree.rootBytes(), contentStr(b.cur))
	st := f.base.ts.copy()
	b.tr.PersistMutations(st)
	want := tree.storeOf()
	t.Check(sameContent(st.m, want), "%s: clone %s: persisted content differs: %s", where, b.name, diffStores(st.m, want))
	for _, o := range f.br {
		if !sameContent(o.cur, b.cur) {
			t.Seen(f.cfg.String(), tree.rootBytes(), contentStr(o.cur))
			t.Count("audits with a differing sibling", 1)
			break
		}
	}
}

func (f *forest) auditNodes(b *branch, where string) {
	if b.dirty {
		return
	}
	tree := f.tree(b)
	for _, n := range tree.nodes {
		g, ok := b.tr.GetNode(append([]byte(nil), n.Key...))
		f.t.Check(ok, "%s: clone %s: node '%x' is missing", where, b.name, n.Key)
		checkNode(f.t, f.cfg, g, n, where+" clone "+b.name)
	}
}

func runC03(c *Ctx) {
	c.Cases("clones", 6000*c.scale, func(t *T) { cloneCase(t, optCfg(t), 10, 60) })
	c.Cases("clones-tiny", 12000*c.scale, func(t *T) { cloneCase(t, optCfg(t), 2, 12) })
	c.Cases("clones-kzg", 40*c.scale, func(t *T) {
		cloneCase(t, Cfg{Arity: 256, KZG: true}, 4, 14)
	})
	c.Cases("rollback", 6000*c.scale, func(t *T) { rollbackCase(t, optCfg(t)) })
	c.Cases("turns", 3000*c.scale, func(t *T) { turnsCase(t, optCfg(t)) })
	c.Cases("turns-kzg", 20*c.scale, func(t *T) { turnsCase(t, Cfg{Arity: 256, KZG: true}) })
	c.Cases("reads", 4000*c.scale, readsCase)
	c.Cases("reads-kzg", 25*c.scale, func(t *T) { readsCaseCfg(t, Cfg{Arity: 256, KZG: true}) })
	c.Cases("clones-large", 6*c.scale, func(t *T) {
		cfg := allCfgs()[t.n%6]
		w := newWorld(t, cfg)
		bulkHistory(t, w, 1500+t.Rng.Intn(2000), func(string) {})
		keys := sortedKeys(w.cur)
		f := &forest{t: t, cfg: cfg, base: w}
		a := &branch{tr: w.tr, cur: copyMap(w.cur), name: "a"}
		b := &branch{tr: w.tr.Clone(), cur: copyMap(w.cur), name: "b"}
		f.br = []*branch{a, b}
		for i := 0; i < 800; i++ {
			x := f.br[t.Rng.Intn(2)]
			k := []byte(keys[t.Rng.Intn(len(keys))])
			if t.Rng.Intn(2) == 0 {
				x.tr.Delete(k)
				delete(x.cur, string(k))
			} else {
				v := randBytes(t.Rng, 6)
				x.tr.Update(k, v)
				x.cur[string(k)] = v
			}
			x.dirty = true
		}
		a.tr.Commit()
		a.dirty = false
		f.audit(b, "large")
		f.audit(a, "large")
		f.auditNodes(a, "large")
	})
}

func cloneCase(t *T, cfg Cfg, minOps, maxOps int) {
	p := newProfile(t.Rng, cfg)
	if cfg.KZG {
		p = &genProfile{hs: 32, arity: 256, alpha: alphabets[t.Rng.Intn(5)], lenMin: 0, lenMax: 3, pool: 3 + t.Rng.Intn(4)}
	}
	keys := p.keys(t.Rng)
	var vals [][]byte
	w := newWorld(t, cfg)
	// base content
	for i := 0; i < t.Rng.Intn(len(keys)+2); i++ {
		k := keys[t.Rng.Intn(len(keys))]
		w.exec(Op{Kind: opSet, K: k, V: p.value(t.Rng, k, &vals)})
	}
	w.exec(Op{Kind: opPersist})
	if t.Rng.Intn(2) == 0 {
		w.exec(Op{Kind: opReopen})
	}
	baseBytes := copyMap(w.ts.m)
	f := &forest{t: t, cfg: cfg, base: w}
	f.br = []*branch{{tr: w.tr, cur: copyMap(w.cur), name: "0"}}
	t.Logf("config %s, base %s", cfg, contentStr(w.cur))
	t.Sample("%s, base %s", cfg, contentStr(w.cur))
	n := minOps + t.Rng.Intn(maxOps-minOps+1)
	for i := 0; i < n; i++ {
		b := f.br[t.Rng.Intn(len(f.br))]
		what := ""
		switch x := t.Rng.Intn(20); {
		case x < 8:
			k := keys[t.Rng.Intn(len(keys))]
			v := p.value(t.Rng, k, &vals)
			what = fmt.Sprintf("Set(%s,%s)", hx(k), hx(v))
			b.tr.Update(append([]byte(nil), k...), append([]byte(nil), v...))
			b.cur[string(k)] = v
			b.dirty = true
		case x < 13:
			k := keys[t.Rng.Intn(len(keys))]
			what = fmt.Sprintf("Del(%s)", hx(k))
			b.tr.Delete(append([]byte(nil), k...))
			delete(b.cur, string(k))
			b.dirty = true
		case x < 15:
			what = "Commit"
			b.tr.Commit()
			b.dirty = false
		case x < 16:
			what = "ClearCache"
			b.tr.ClearCache()
			b.cur = copyMap(w.pers)
			b.dirty = false
		case x < 17:
			k := keys[t.Rng.Intn(len(keys))]
			what = "Read " + hx(k)
			proofBytes(t, w.model, k, b.tr)
		default:
			if len(f.br) < 4 {
				f.next++
				nb := &branch{tr: b.tr.Clone(), cur: copyMap(b.cur), dirty: b.dirty, name: fmt.Sprintf("%s.%d", b.name, f.next)}
				f.br = append(f.br, nb)
				what = "Clone -> " + nb.name
				t.Count("clones", 1)
			} else {
				i := t.Rng.Intn(len(f.br))
				what = "drop " + f.br[i].name
				f.br = append(f.br[:i:i], f.br[i+1:]...)
			}
		}
		t.Logf("%s: %s", b.name, what)
		if t.Rng.Intn(2) == 0 {
			f.audit(f.br[t.Rng.Intn(len(f.br))], "after "+b.name+": "+what)
		}
	}
	for _, b := range f.br {
		f.audit(b, "end")
		if !b.dirty {
			f.auditNodes(b, "end")
		}
	}
	// commit each at the end, in turn
	for _, b := range f.br {
		b.tr.Commit()
		b.dirty = false
		for _, o := range f.br {
			f.audit(o, "end, after commit of "+b.name)
		}
	}
	t.Check(sameContent(w.ts.m, baseBytes), "operations on clones changed the base store: %s", diffStores(w.ts.m, baseBytes))
	// dropping every cache leads back to the base
	for _, b := range f.br {
		b.tr.ClearCache()
		b.cur = copyMap(w.pers)
		f.audit(b, "all caches dropped")
	}
}

// rollbackCase: a persisted trie, any pending or committed changes, cache drop: as if it was freshly opened
func rollbackCase(t *T, cfg Cfg) {
	p := newProfile(t.Rng, cfg)
	ops := history(t.Rng, p, cfg, histParams{minOps: 1, maxOps: 30, pCommit: 15})
	w := runHistory(t, cfg, ops, func(w *World) {})
	for round := 0; round < 3; round++ {
		before := copyMap(w.ts.m)
		// random changes, never persisted
		for i := 0; i < 1+t.Rng.Intn(12); i++ {
			o := ops[t.Rng.Intn(len(ops))]
			switch o.Kind {
			case opSet, opDel, opSetEmpty, opSetStr, opDelStr, opKeyCommit, opCommit, opRead, opCloneSwap:
				w.exec(o)
				t.Logf("%s", o)
			}
			if t.Rng.Intn(5) == 0 {
				w.exec(Op{Kind: opCommit})
			}
		}
		w.exec(Op{Kind: opClear})
		t.Check(sameContent(before, w.ts.m), "unpersisted changes reached the store: %s", diffStores(w.ts.m, before))
		w.tree = buildTree(w.cur, cfg)
		w.checkRoot(w.tr, "after the cache was dropped")
		w.checkNodes(w.tr, "after the cache was dropped")
		// nothing pending: persisting writes the same bytes
		w.tr.PersistMutations(w.ts)
		t.Check(sameContent(before, w.ts.m), "persisting after dropping the cache changed the store: %s", diffStores(w.ts.m, before))
		if len(w.cur) > 0 {
			t.Seen("rollback", cfg.String(), w.tree.rootBytes())
		}
		// and work continues correctly
		for i := 0; i < 1+t.Rng.Intn(6); i++ {
			o := ops[t.Rng.Intn(len(ops))]
			switch o.Kind {
			case opSet, opDel, opSetEmpty, opSetStr, opDelStr, opKeyCommit:
				w.exec(o)
			}
		}
		w.exec(Op{Kind: opPersist})
		w.checkStore("continued after the cache was dropped")
		w.checkRoot(w.tr, "continued after the cache was dropped")
	}
}

func readsCase(t *T) { readsCaseCfg(t, optCfg(t)) }

// readsCaseCfg: two identical histories, one with reads in between: everything observable stays the same
func readsCaseCfg(t *T, cfg Cfg) {
	p := newProfile(t.Rng, cfg)
	if cfg.KZG {
		p = &genProfile{hs: 32, arity: 256, alpha: alphabets[t.Rng.Intn(5)], lenMin: 0, lenMax: 3, pool: 3 + t.Rng.Intn(4)}
	}
	hp := histParams{minOps: 5, maxOps: 50, noRead: true, noClone: true}
	if cfg.KZG {
		hp.maxOps = 16
	}
	ops := history(t.Rng, p, cfg, hp)
	quiet := newWorld(t, cfg)
	noisy := newWorld(t, cfg)
	for i, o := range ops {
		quiet.exec(o)
		noisy.exec(o)
		t.Logf("%s", o)
		r := rand.New(rand.NewSource(int64(i)))
		for j := 0; j < t.Rng.Intn(3); j++ {
			k := p.key(r, nil)
			if len(ops) > 0 && r.Intn(2) == 0 {
				k = ops[r.Intn(len(ops))].K
			}
			noisy.read(Op{K: k, X: r.Int63()})
			t.Count("reads inserted", 1)
		}
		if !noisy.dirty {
			t.Eval(1)
			a, b := rootOf(quiet.tr), rootOf(noisy.tr)
			t.Check(bytes.Equal(a, b), "reads changed the root: %x, want %x after operation %d (%s)", b, a, i, o)
		}
		if !sameContent(quiet.ts.m, noisy.ts.m) {
			t.Fail("reads changed the stored trie after operation %d (%s): %s", i, o, diffStores(noisy.ts.m, quiet.ts.m))
		}
	}
	noisy.checkRoot(noisy.tr, "after reads")
	noisy.checkStore("after reads")
	if len(noisy.cur) > 0 {
		t.Seen("reads", cfg.String(), noisy.tree.rootBytes())
	}
}

// turnsCase: tries over one store take turns. Each drops its cache at the beginning of its turn, whatever it has seen
// or done before, and from then on it must be like a trie which was just opened on the store; readers follow the store.
func turnsCase(t *T, cfg Cfg) {
	p := newProfile(t.Rng, cfg)
	if cfg.KZG {
		p = &genProfile{hs: 32, arity: 256, alpha: alphabets[t.Rng.Intn(5)], lenMin: 0, lenMax: 3, pool: 3 + t.Rng.Intn(4)}
	}
	hp := histParams{minOps: 20, maxOps: 80, pDel: 40}
	turns := 4 + t.Rng.Intn(8)
	if cfg.KZG {
		hp.minOps, hp.maxOps, turns = 8, 14, 4
	}
	ops := history(t.Rng, p, cfg, hp)
	ws := make([]*World, 2+t.Rng.Intn(2))
	for i := range ws {
		ws[i] = newWorld(t, cfg)
		ws[i].ts, ws[i].vs = ws[0].ts, ws[0].vs
		ws[i].open()
	}
	rd := ws[0].reader()
	pers := map[string][]byte{}
	t.Logf("config %s, %d tries", cfg, len(ws))
	for turn := 0; turn < turns; turn++ {
		i := t.Rng.Intn(len(ws))
		w := ws[i]
		w.pers = copyMap(pers)
		w.exec(Op{Kind: opClear})
		where := fmt.Sprintf("turn %d of trie %d", turn, i)
		t.Logf("%s", where)
		w.tree = buildTree(w.cur, cfg)
		if t.Rng.Intn(2) == 0 {
			w.checkRoot(w.tr, where+", cache dropped")
			w.checkNodes(w.tr, where+", cache dropped")
		}
		if t.Rng.Intn(2) == 0 {
			w.checkRoot(rd, where+", reader")
			w.checkNodes(rd, where+", reader")
		}
		for j := t.Rng.Intn(8); j >= 0; j-- {
			o := ops[t.Rng.Intn(len(ops))]
			switch o.Kind {
			case opSet, opDel, opSetEmpty, opSetStr, opDelStr, opKeyCommit, opCommit, opRead, opCloneSwap:
				w.exec(o)
				t.Logf("%s", o)
			}
		}
		if t.Rng.Intn(3) > 0 {
			w.exec(Op{Kind: opPersist})
			pers = copyMap(w.pers)
			w.checkStore(where + ", persisted")
			w.checkRoot(w.tr, where+", persisted")
		}
		// what it has seen now must not matter in its next turn
		for j := 0; j < 3; j++ {
			w.read(Op{K: ops[t.Rng.Intn(len(ops))].K, X: t.Rng.Int63()})
		}
		w.tr.GetNode(nil)
		if turn > 1 && len(pers) > 0 {
			t.Seen("turns", cfg.String(), w.tree.rootBytes(), turn)
		}
		t.Count("turns taken", 1)
	}
}
