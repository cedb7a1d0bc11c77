package main

import (
	"bytes"

	"github.com/iotaledger/trie.go/trie"
)

func init() {
	register(&property{id: "C23",
		rule:  "A case builds a trie by a random history and looks keys up: the generic path of present keys and of absent keys around every kind of ending, from a trie with pending changes, a committed one, a clone, a reader and a reopened trie, is compared with the path in the canonical tree: nodes, their keys, fragments and terminals, and how the path ends; nodes are asked for at every canonical key and at keys where there is none. Distinct by (configuration, content, key); non-trivial: the path has a node.",
		assum: []string{"how a path ends is one of three codes: a terminal ending is also given where the key ends at a node which has no terminal"},
		run:   runC23})
}

func checkPath(t *T, tree *oTree, ns trie.NodeStore, key []byte, where string) {
	path := oUnpack(key, tree.cfg.Arity)
	given := append([]byte(nil), path...)
	var g *trie.ProofGeneric
	t.mustNot(where, func() { g = trie.GetProofGeneric(ns, given) })
	t.Check(bytes.Equal(given, path), "%s: lookup of %x changes the given key", where, key)
	t.Eval(1)
	t.Check(bytes.Equal(g.Key, path), "%s: path of %x is for key %x, want %x", where, key, g.Key, path)
	nodes, ending := tree.walk(path)
	t.Check(len(g.Path) == len(nodes), "%s: path of key %x has %d nodes, want %d: %x", where, key, len(g.Path), len(nodes), g.Path)
	for i, n := range nodes {
		t.Check(bytes.Equal(g.Path[i], n.Key), "%s: path of key %x: node %d is '%x', want '%x'", where, key, i, g.Path[i], n.Key)
		x, ok := ns.GetNode(append([]byte(nil), g.Path[i]...))
		t.Check(ok, "%s: path of key %x: node '%x' is missing", where, key, n.Key)
		checkShape(t, tree.cfg, x, n, where)
	}
	want := map[oEnding]trie.ProofEndingCode{endPresent: trie.EndingTerminal, endNoTerm: trie.EndingTerminal, endSplit: trie.EndingSplit, endExtend: trie.EndingExtend}
	if ending == endEmpty {
		t.Count("lookups in an empty trie", 1)
		return
	}
	t.Check(g.Ending == want[ending], "%s: path of key %x ends with %s, want %s", where, key, g.Ending, want[ending])
	t.Count([]string{"", "endings: terminal", "endings: node without terminal", "endings: inside a fragment", "endings: missing child"}[ending], 1)
	t.Count("nodes on paths", len(nodes))
	t.Check(g.String() != "", "no description")
}

// checkShape compares what holds for a node also while changes are pending: key, fragment and terminal
func checkShape(t *T, cfg Cfg, got trie.Node, want *oNode, where string) {
	t.Check(bytes.Equal(got.Key(), want.Key), "%s: node '%x': reports key '%x'", where, want.Key, got.Key())
	t.Check(bytes.Equal(got.PathFragment(), want.PF), "%s: node '%x': path fragment %x, want %x", where, want.Key, got.PathFragment(), want.PF)
	if want.Data == nil {
		t.Check(isNil(got.Terminal()), "%s: node '%x': has terminal, want none", where, want.Key)
		return
	}
	t.Check(!isNil(got.Terminal()), "%s: node '%x': has no terminal", where, want.Key)
	wb := oTermBytes(want.Data, cfg)
	if !cfg.KZG {
		wb = wb[1:]
	}
	t.Check(bytes.Equal(termRaw(got.Terminal(), cfg), wb), "%s: node '%x': terminal %x, want %x", where, want.Key, termRaw(got.Terminal(), cfg), wb)
}

// lookAround asks for nodes at and around the canonical keys
func lookAround(t *T, tree *oTree, ns trie.NodeStore, where string, n int) {
	for _, o := range tree.nodes {
		if len(tree.nodes) > 60 && t.Rng.Intn(len(tree.nodes)/30) > 0 {
			continue
		}
		x, ok := ns.GetNode(append([]byte(nil), o.Key...))
		t.Check(ok, "%s: node '%x' is missing", where, o.Key)
		checkShape(t, tree.cfg, x, o, where)
		t.Count("nodes found", 1)
		if n == 0 {
			continue
		}
		// keys which are no nodes: inside the fragment, beyond it, missing children, shorter keys
		full := append(append([]byte{}, o.Key...), o.PF...)
		for _, k := range [][]byte{full, append(append([]byte{}, full...), byte(t.Rng.Intn(tree.cfg.Arity))), o.Key[:len(o.Key)/2], full[:len(o.Key)+t.Rng.Intn(len(o.PF)+1)],
			append(append([]byte{}, o.Key...), byte(t.Rng.Intn(tree.cfg.Arity)), byte(t.Rng.Intn(tree.cfg.Arity)))} {
			_, in := tree.byKey[string(k)]
			_, ok := ns.GetNode(k)
			t.Check(ok == in, "%s: node at '%x': %v, want %v", where, k, ok, in)
			t.Count("nodes looked for", 1)
		}
	}
}

func lookups(t *T, cfg Cfg, p *genProfile, maxOps, probes int) {
	s := stateByProfile(t, cfg, p, maxOps)
	w := s.w
	t.Sample("%s content %s", cfg, contentStr(w.cur))
	all := func(tree *oTree, views map[string]trie.NodeStore, st *state) {
		names := make([]string, 0, len(views))
		for n := range views {
			names = append(names, n)
		}
		for _, k := range st.probeKeys(t, probes) {
			for _, n := range names {
				if len(names) > 1 && t.Rng.Intn(2) == 0 {
					continue
				}
				checkPath(t, tree, views[n], k, n)
				if len(tree.nodes) > 0 {
					t.Seen(cfg.String(), tree.rootBytes(), k, n)
				}
			}
		}
		for n, v := range views {
			lookAround(t, tree, v, n, 1)
		}
	}
	w.exec(Op{Kind: opPersist})
	re := trie.New(w.model, w.ts, w.valueReader(), cfg.Opt)
	all(s.tree, map[string]trie.NodeStore{"trie": w.tr, "reader": w.reader(), "reopened": re, "clone": w.tr.Clone()}, s)
	// pending changes are seen by the trie, and not by the reader; a reader which is kept sees what is persisted meanwhile
	kept, keptLate := w.reader(), w.reader()
	checkPath(t, s.tree, kept, p.key(t.Rng, s.keys), "kept reader, first use")
	lookAround(t, s.tree, kept, "kept reader, first use", 1)
	for round := 0; round < 3; round++ {
		old := buildTree(w.pers, cfg)
		for i := 0; i < 1+t.Rng.Intn(4); i++ {
			k := p.key(t.Rng, s.keys)
			if len(s.keys) > 0 && t.Rng.Intn(2) == 0 {
				k = s.keys[t.Rng.Intn(len(s.keys))]
			}
			if t.Rng.Intn(2) == 0 {
				w.exec(Op{Kind: opDel, K: k})
			} else {
				w.exec(Op{Kind: opSet, K: k, V: randBytes(t.Rng, 1+t.Rng.Intn(40))})
			}
		}
		if t.Rng.Intn(4) == 0 {
			w.exec(Op{Kind: opCommit})
		}
		pend := stateOf(w)
		all(pend.tree, map[string]trie.NodeStore{"trie with pending changes": w.tr}, pend)
		all(pend.tree, map[string]trie.NodeStore{"clone with pending changes": w.tr.Clone()}, pend)
		all(old, map[string]trie.NodeStore{"reader beside pending changes": w.reader(), "kept reader beside pending changes": kept}, pend)
		if t.Rng.Intn(2) == 0 {
			w.exec(Op{Kind: opPersist})
			s = stateOf(w)
			all(s.tree, map[string]trie.NodeStore{"kept reader after a persist": kept, "trie after a persist": w.tr, "kept reader, unused so far": keptLate}, s)
		}
	}
	w.exec(Op{Kind: opPersist})
	w.checkRoot(w.tr, "after lookups")
	w.checkStore("after lookups")
}

func runC23(c *Ctx) {
	c.Cases("states", 5000*c.scale, func(t *T) {
		cfg := optCfg(t)
		if t.n%8 == 7 {
			cfg = toyCfg(t)
		}
		lookups(t, cfg, newProfile(t.Rng, cfg), 50, 12)
	})
	c.Cases("tiny", 10000*c.scale, func(t *T) {
		cfg := optCfg(t)
		p := &genProfile{hs: cfg.HS, thr: cfg.Thr, arity: cfg.Arity, alpha: alphabets[t.Rng.Intn(5)], lenMin: 0, lenMax: 3, pool: 2 + t.Rng.Intn(5)}
		lookups(t, cfg, p, 8, 8)
	})
	c.Cases("kzg", 40*c.scale, func(t *T) { lookups(t, Cfg{Arity: 256, KZG: true, Opt: t.Rng.Intn(4) == 0}, kzgProfile(t), 10, 6) })
	c.Cases("exhaustive", 6, func(t *T) {
		// every key of up to two bytes of a small alphabet in tries over subsets of these keys
		cfg := allCfgs()[t.n]
		al := []byte{0x00, 0x01, 0x80}
		ks := [][]byte{{}}
		for i := 0; i < len(ks) && len(ks[i]) < 2; i++ {
			for _, a := range al {
				ks = append(ks, append(append([]byte{}, ks[i]...), a))
			}
		}
		for mask := 0; mask < 1<<len(ks); mask++ {
			if mask%7 != t.n && mask > 128 {
				continue
			}
			w := newWorld(t, cfg)
			for i, k := range ks {
				if mask>>i&1 == 1 {
					w.exec(Op{Kind: opSet, K: k, V: []byte{byte(i + 1)}})
				}
			}
			tree := buildTree(w.cur, cfg)
			for _, k := range append(ks, []byte{0, 0, 0}, []byte{0, 2}, []byte{0xff}) {
				checkPath(t, tree, w.tr, k, "exhaustive")
			}
			if mask > 0 {
				t.Seen("exhaustive", cfg.String(), mask)
			}
		}
	})
	c.Cases("large", 12*c.scale, func(t *T) {
		cfg := allCfgs()[t.n%6]
		w := newWorld(t, cfg)
		bulkHistory(t, w, 3000, func(string) {})
		s := stateOf(w)
		rd := w.reader()
		for i, k := range s.probeKeys(t, 600) {
			if i%2 == 0 {
				checkPath(t, s.tree, rd, k, "large, reader")
			} else {
				checkPath(t, s.tree, w.tr, k, "large, trie")
			}
		}
		lookAround(t, s.tree, rd, "large", 1)
		t.Seen(cfg.String(), s.root)
	})
	c.Cases("longkeys", 24, func(t *T) {
		cfg := allCfgs()[t.n%6]
		n := []int{300, 1000, 4000, 8000}[t.n/6]
		w := newWorld(t, cfg)
		base := randBytes(t.Rng, n)
		for i := 0; i < 10; i++ {
			w.exec(Op{Kind: opSet, K: base[:t.Rng.Intn(n)], V: []byte{byte(i + 1)}})
		}
		w.exec(Op{Kind: opPersist})
		s := stateOf(w)
		for _, k := range s.probeKeys(t, 20) {
			checkPath(t, s.tree, w.reader(), k, "long keys")
		}
		checkPath(t, s.tree, w.tr, base, "long keys")
		t.Seen(cfg.String(), s.root)
	})
}
