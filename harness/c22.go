package main

import (
	"bytes"
	"fmt"

	"github.com/iotaledger/trie.go/trie"
)

func init() {
	register(&property{id: "C22",
		rule:  "A case is a random history of a trie over a commitment model of the monitor: one whose root is a complete description of what it commits to, of any length, or a homomorphic sum; with an arbitrary rule which terminals are stored with the node, updating commitments in place or not, over all arities and options. The content is read back from the root itself and compared with the shadow content; nodes, store, reloads, clones, rollbacks, reconciliation and mass update are compared with the canonical tree; every call of the model is checked against the documented contract. Distinct by (configuration, root); non-trivial: not empty.",
		assum: []string{"the model follows the contract documented on the interface: commitments are values of the model, no data commits to nil except empty data"},
		run:   runC22})
}

func toyCfg(t *T) Cfg {
	cfg := Cfg{Arity: []int{2, 16, 256}[t.Rng.Intn(3)], HS: 32, Mod: []string{modOpen, modAdd}[t.Rng.Intn(2)]}
	if t.Rng.Intn(3) == 0 {
		cfg.Thr = 1
	}
	cfg.Opt = t.Rng.Intn(3) == 0
	return cfg
}

// toyState reads the content back from the root
func (w *World) toyState(ns trie.NodeStore, where string) {
	root := rootOf(ns)
	if w.cfg.Mod != modOpen {
		return
	}
	want := map[string][]byte{}
	for _, p := range pairsOf(w.cur, w.cfg) {
		want[string(p.path)] = p.data
	}
	got := map[string][]byte{}
	if root != nil {
		toyContent(root, nil, got)
	}
	w.t.Eval(1)
	w.t.Check(sameContent(got, want), "%s: the root commits to other content: %s", where, diffStores(got, want))
	w.t.Check((root == nil) == (len(want) == 0), "%s: root %x with %d pairs", where, root, len(want))
	w.t.Count("contents read back from a root", 1)
}

func c22Monitor(w *World) {
	m := w.model.(*toyModel)
	updates := 0
	w.onCommit = func(w *World) {
		w.toyState(w.tr, "after commit")
		w.checkRoot(w.tr, "after commit")
		w.t.Count("updates of nodes seen by the model", m.updates-updates)
		before := m.updates
		if w.t.Rng.Intn(4) == 0 {
			w.tr.Commit()
			w.t.Check(m.updates == before, "a commit without changes calls the model %d times", m.updates-before)
		}
		updates = m.updates
		w.t.Count("updates by difference", m.deltas)
		m.deltas = 0
		if len(w.cur) > 0 {
			w.t.Seen(w.cfg.String(), w.tree.rootBytes())
		}
	}
	w.onPersist = func(w *World) {
		w.checkStore("after persist")
		if w.t.Rng.Intn(4) == 0 {
			rd := w.reader()
			w.toyState(rd, "reader")
			w.checkRoot(rd, "reader")
			w.checkNodes(rd, "reader")
			w.checkProofsEqual(w.tr, rd, 3)
		}
	}
}

func runC22(c *Ctx) {
	c.Cases("history", 6000*c.scale, func(t *T) {
		cfg := toyCfg(t)
		p := newProfile(t.Rng, cfg)
		ops := history(t.Rng, p, cfg, histParams{minOps: 5, maxOps: 80})
		t.Sample("%s %s: %v", cfg, p.name, histString(ops[:minInt(len(ops), 12)]))
		w := runHistory(t, cfg, ops, c22Monitor)
		w.checkNodes(w.tr, "end")
	})
	c.Cases("tiny", 30000*c.scale, func(t *T) {
		cfg := toyCfg(t)
		p := &genProfile{hs: 32, arity: cfg.Arity, alpha: alphabets[t.Rng.Intn(5)], lenMin: 0, lenMax: 3, pool: 2 + t.Rng.Intn(5)}
		ops := history(t.Rng, p, cfg, histParams{minOps: 2, maxOps: 14, pDel: 40, pCommit: 35})
		runHistory(t, cfg, ops, c22Monitor)
	})
	c.Cases("clones", 3000*c.scale, func(t *T) { cloneCase(t, toyCfg(t), 5, 40) })
	c.Cases("rollback", 2000*c.scale, func(t *T) { rollbackCase(t, toyCfg(t)) })
	c.Cases("reads", 2000*c.scale, func(t *T) { readsCaseCfg(t, toyCfg(t)) })
	c.Cases("reconcile", 2000*c.scale, func(t *T) { reconcileCfg(t, toyCfg(t)) })
	c.Cases("update-all", 2000*c.scale, func(t *T) { updateAllCfg(t, toyCfg(t)) })
	c.Cases("large", 6*c.scale, func(t *T) {
		cfg := toyCfg(t)
		cfg.Mod, cfg.Arity = modAdd, []int{2, 16, 256}[t.n%3]
		w := newWorld(t, cfg)
		w.onPersist = func(w *World) { w.checkStore("large") }
		bulkHistory(t, w, 3000, func(string) {})
		w.checkRoot(w.tr, "large")
		w.checkNodes(w.reader(), "large, reader")
	})
	c.Cases("values", 300, func(t *T) {
		// terminals of every size, stored with the node or not
		cfg := toyCfg(t)
		w := newWorld(t, cfg)
		for i := 0; i < 4; i++ {
			w.exec(Op{Kind: opSet, K: randBytes(t.Rng, t.Rng.Intn(4)), V: bytes.Repeat([]byte{byte(i + 1)}, 1+t.n+i)})
		}
		w.exec(Op{Kind: opPersist})
		w.exec(Op{Kind: opReopen})
		w.tree = buildTree(w.cur, cfg)
		where := fmt.Sprintf("values of %d bytes", t.n)
		w.toyState(w.tr, where)
		w.checkStore(where)
		w.checkNodes(w.tr, where)
		t.Seen(cfg.String(), w.tree.rootBytes())
	})
}
