package main

import (
	"bytes"
	"fmt"
	"math/rand"

	"github.com/iotaledger/trie.go/trie"
)

func init() {
	register(&property{id: "C16",
		rule:  "The same history is executed in lockstep by tries which differ in storage options only (thresholds around the sizes in use, key-commitment optimisation, options changed at reopening); roots, nodes and serialized proofs are compared with the trie without options after every commit and through readers after every persist, and the stored bytes with an independent definition of what may be omitted. Values are withheld from readers one by one. Distinct by configurations and content.",
		assum: []string{"the value store holds the values of the persisted content"},
		run:   runC16})
}

// mapped gives the operation which means the same without key-commitment optimisation
func mapped(o Op, opt bool, arity int) Op {
	if !opt {
		return o
	}
	switch o.Kind {
	case opKeyCommit:
		return Op{Kind: opSet, K: o.K, V: oUnpack(o.K, arity)}
	case opSet, opSetStr:
		if bytes.Equal(o.K, o.V) {
			o.V = oUnpack(o.K, arity)
		}
	}
	return o
}

func thresholds(r *rand.Rand) []int {
	all := []int{1, 2, 3, 5, 8, 19, 20, 21, 22, 31, 32, 33, 34, 40, 63, 64, 65, 100, 5000, 1 << 30}
	ret := []int{0}
	for i := 0; i < 3; i++ {
		ret = append(ret, all[r.Intn(len(all))])
	}
	return ret
}

// sameNodes compares all nodes of the trees through two views
func sameNodes(t *T, cfg Cfg, a, b trie.NodeStore, tree *oTree, where string) {
	for _, n := range tree.nodes {
		x, okx := a.GetNode(append([]byte(nil), n.Key...))
		y, oky := b.GetNode(append([]byte(nil), n.Key...))
		t.Check(okx && oky, "%s: node '%x' is missing: %v, %v", where, n.Key, okx, oky)
		t.Check(bytes.Equal(x.PathFragment(), y.PathFragment()), "%s: node '%x': path fragments %x, %x", where, n.Key, x.PathFragment(), y.PathFragment())
		nx, ny := isNil(x.Terminal()), isNil(y.Terminal())
		t.Check(nx == ny, "%s: node '%x': terminal present: %v, %v", where, n.Key, !nx, !ny)
		if !nx {
			t.Check(bytes.Equal(termRaw(x.Terminal(), cfg), termRaw(y.Terminal(), cfg)), "%s: node '%x': terminals %x, %x", where, n.Key, termRaw(x.Terminal(), cfg), termRaw(y.Terminal(), cfg))
		}
		cx, cy := x.ChildCommitments(), y.ChildCommitments()
		t.Check(len(cx) == len(cy), "%s: node '%x': %d and %d children", where, n.Key, len(cx), len(cy))
		for i := range cx {
			t.Check(!isNil(cy[i]) && bytes.Equal(cx[i].Bytes(), cy[i].Bytes()), "%s: node '%x': child %d differs", where, n.Key, i)
		}
		t.Count("nodes compared between options", 1)
	}
}

func lockstep(t *T) {
	arity, hs, opt := []int{2, 16, 256}[t.n%3], []int{20, 32}[t.Rng.Intn(2)], t.Rng.Intn(2) == 0
	baseCfg := Cfg{Arity: arity, HS: hs}
	var cfgs []Cfg
	for _, thr := range thresholds(t.Rng) {
		cfgs = append(cfgs, Cfg{Arity: arity, HS: hs, Thr: thr, Opt: opt})
	}
	if arity == 256 && !opt {
		cfgs = append(cfgs, Cfg{Arity: arity, HS: hs, Opt: true}, Cfg{Arity: arity, HS: hs, Opt: true, Thr: cfgs[1].Thr})
	}
	pc := baseCfg
	pc.Thr = minInt(cfgs[1+t.Rng.Intn(3)].Thr, 5000)
	p := newProfile(t.Rng, pc)
	ops := history(t.Rng, p, baseCfg, histParams{minOps: 5, maxOps: 50, pDel: []int{5, 25, 45}[t.Rng.Intn(3)], pCommit: 12})
	if t.Rng.Intn(2) == 0 {
		// pairs with equal key and value, at the root too
		for i := range ops {
			if ops[i].Kind == opSet && t.Rng.Intn(3) == 0 {
				ops[i].V = ops[i].K
				if len(ops[i].V) == 0 {
					ops[i].V = []byte{7}
				}
			}
		}
	}
	ops = append(ops, Op{Kind: opPersist})
	base := newWorld(t, baseCfg)
	var worlds []*World
	for _, c := range cfgs {
		worlds = append(worlds, newWorld(t, c))
	}
	compare := func(a, b trie.NodeStore, w *World, where string, withProofs bool) {
		where = fmt.Sprintf("%s: %s", w.cfg, where)
		ra, rb := rootOf(a), rootOf(b)
		t.Eval(1)
		t.Check(bytes.Equal(ra, rb), "%s: root is %x, without options %x", where, rb, ra)
		sameNodes(t, baseCfg, a, b, base.tree, where)
		if withProofs {
			s := stateOf(base)
			for _, k := range s.probeKeys(t, 4) {
				pa, pb := proofBytes(t, base.model, k, a), proofBytes(t, w.model, k, b)
				t.Eval(1)
				t.Check(bytes.Equal(pa, pb), "%s: proof of %x is %x, without options %x", where, k, pb, pa)
				t.Count("proofs compared between options", 1)
			}
		}
	}
	for i, o := range ops {
		t.Logf("%s", o)
		if o.Kind == opRead && o.X%2 == 0 {
			continue
		}
		base.exec(mapped(o, opt, arity))
		for _, w := range worlds {
			w.exec(o)
			if o.Kind == opReopen && arity == 256 && t.Rng.Intn(3) == 0 || o.Kind == opReopen && t.Rng.Intn(3) == 0 {
				// reopened with another threshold (and at arity 256 with another optimisation)
				w.cfg.Thr = cfgs[t.Rng.Intn(4)].Thr
				if arity == 256 {
					w.cfg.Opt = t.Rng.Intn(2) == 0
				}
				w.model = newModel(w.cfg)
				w.forceVS = true
				w.open()
				t.Count("options changed", 1)
			}
		}
		if o.Kind != opCommit && o.Kind != opPersist {
			continue
		}
		for _, w := range worlds {
			compare(base.tr, w.tr, w, fmt.Sprintf("after operation %d", i), o.X%3 == 0)
			if o.Kind == opPersist {
				mixed := w.forceVS
				reader := trie.NewTrieReader(w.model, w.ts, w.vs)
				compare(base.reader(), reader, w, fmt.Sprintf("persisted after operation %d", i), true)
				if !mixed {
					got, want := w.ts.m, w.tree.storeOf()
					t.Check(sameContent(got, want), "%s: stored nodes: %s", w.cfg, diffStores(got, want))
					t.Count("stored bytes", trie.ByteSize(w.ts))
				}
			}
		}
	}
	t.Seen(fmt.Sprint(cfgs), base.tree.rootBytes())
	t.Sample("%v: %d operations, %d pairs, root %x", cfgs, len(ops), len(base.cur), base.tree.rootBytes())
}

// withheld: a reader which needs a value and does not get it reports that
func withheld(t *T) {
	cfg := Cfg{Arity: []int{2, 16, 256}[t.n%3], HS: []int{20, 32}[t.Rng.Intn(2)], Thr: minInt(thresholds(t.Rng)[1], 5000), Opt: t.Rng.Intn(2) == 0}
	s := stateBy(t, cfg, 40)
	needs := func(n *oNode) bool {
		if n.Data == nil || len(n.Data) > cfg.Thr {
			return false
		}
		full := append(append([]byte{}, n.Key...), n.PF...)
		return !(cfg.Opt && len(full) > 0 && oTermEqual(n.Data, full, cfg))
	}
	keyOf := func(n *oNode) string {
		return string(oPack(append(append([]byte{}, n.Key...), n.PF...), cfg.Arity))
	}
	read := func(r trie.NodeStore, n *oNode, must bool, where string) {
		var got trie.Node
		var ok bool
		p := catch(func() { got, ok = r.GetNode(append([]byte(nil), n.Key...)) })
		t.Eval(1)
		if must {
			t.Check(p != nil, "%s: node '%x' which needs its value is read as %v", where, n.Key, got)
			t.Count("missing values reported", 1)
			return
		}
		t.Check(p == nil && ok, "%s: node '%x' which does not need a value is not read: %v", where, n.Key, p)
		checkNode(t, cfg, got, n, where)
	}
	any := false
	for _, n := range s.tree.nodes {
		read(trie.NewTrieReader(s.w.model, s.w.ts, nil), n, needs(n), cfg.String()+": no value store")
		any = any || needs(n)
	}
	for _, n := range s.tree.nodes {
		if !needs(n) {
			continue
		}
		k := keyOf(n)
		for mode := 0; mode < 3; mode++ {
			vs := s.w.vs.copy()
			switch mode {
			case 0:
				delete(vs.m, k)
			case 1:
				vs.m[k] = []byte{}
			case 2:
				// the value of every other key, but not this one
				vs = newMStore()
				for k2, v := range s.w.vs.m {
					if k2 != k {
						vs.m[k2] = v
					}
				}
			}
			r := trie.NewTrieReader(s.w.model, s.w.ts, vs)
			read(r, n, true, fmt.Sprintf("%s: value of key %x withheld (%d)", cfg, k, mode))
			for _, m := range s.tree.nodes {
				if m != n {
					read(r, m, false, fmt.Sprintf("%s: value of another key withheld", cfg))
				}
			}
			// updates and deletions: the result of the complete store, or an error
			if t.Rng.Intn(3) == 0 {
				key := []byte(sortedKeys(s.w.cur)[t.Rng.Intn(len(s.w.cur))])
				act := func(vs trie.KVReader) []byte {
					tr := trie.New(s.w.model, s.w.ts, vs, cfg.Opt)
					if mode == 0 {
						tr.Delete(key)
					} else {
						tr.Update(key, []byte("new"))
					}
					tr.Commit()
					return rootOf(tr)
				}
				want := act(s.w.vs)
				var got []byte
				if catch(func() { got = act(vs) }) == nil {
					t.Check(bytes.Equal(got, want), "%s: value of key %x withheld: update of key %x gives root %x, want %x", cfg, k, key, got, want)
				}
				t.Count("updates with a withheld value", 1)
			}
		}
	}
	if any {
		t.Seen("withheld", cfg.String(), s.root)
	}
}

// keyEqualsValue: small tries in which single pairs have equal key and value
func keyEqualsValue(t *T) {
	arity, hs := []int{2, 16, 256}[t.n%3], []int{20, 32}[t.n/3%2]
	r := t.Rng
	cfg := Cfg{Arity: arity, HS: hs, Opt: true}
	if r.Intn(2) == 0 {
		cfg.Thr = thresholds(r)[1]
	}
	n := 1 + r.Intn(4)
	like := false
	w, base := newWorld(t, cfg), newWorld(t, Cfg{Arity: arity, HS: hs})
	for i := 0; i < n; i++ {
		// lengths around the sizes at which the path is committed by its hash
		l := []int{0, 1, 2, 3, 4, 5, hs/8 - 1, hs / 8, hs/8 + 1, hs/2 - 1, hs / 2, hs/2 + 1, hs - 1, hs, hs + 1, 64}[r.Intn(16)]
		k := fromAlpha(r, []byte{0, 1, 0x10, 0xff}, l)
		o := Op{Kind: opSet, K: k, V: k}
		if l == 0 || r.Intn(4) == 0 {
			// not equal, but like the path, like the hash of the key or like the hash of the path
			like = true
			o.V = [][]byte{oUnpack(k, arity), blakeSum(hs, k), blakeSum(hs, oUnpack(k, arity)), append(append([]byte{}, k...), 0)}[r.Intn(4)]
			if len(o.V) == 0 {
				o.V = []byte{1}
			}
		} else if r.Intn(2) == 0 {
			o = Op{Kind: opKeyCommit, K: k}
		}
		w.exec(o)
		base.exec(mapped(o, true, arity))
	}
	for round := 0; round < 2; round++ {
		for _, x := range []*World{w, base} {
			x.exec(Op{Kind: opPersist})
		}
		t.Eval(2)
		t.Check(bytes.Equal(rootOf(w.tr), rootOf(base.tr)), "%s: root %x, without optimisation %x: %s", cfg, rootOf(w.tr), rootOf(base.tr), contentStr(w.cur))
		t.Check(bytes.Equal(rootOf(w.reader()), rootOf(base.reader())), "%s: root after reload %x, without optimisation %x: %s", cfg, rootOf(w.reader()), rootOf(base.reader()), contentStr(w.cur))
		sameNodes(t, cfg, base.reader(), w.reader(), base.tree, cfg.String())
		if !like || round == 0 { // a value which is the hash of the path is stored as key commitment, with one flag more or less after a reload
			t.Check(sameContent(w.ts.m, w.tree.storeOf()), "%s: stored nodes: %s", cfg, diffStores(w.ts.m, w.tree.storeOf()))
		}
		for k := range w.cur {
			a, b := proofBytes(t, base.model, []byte(k), base.reader()), proofBytes(t, w.model, []byte(k), w.reader())
			t.Check(bytes.Equal(a, b), "%s: proof of %x differs", cfg, k)
		}
		first := []byte(sortedKeys(w.cur)[0])
		for _, x := range []*World{w, base} {
			x.exec(Op{Kind: opReopen})
			if round == 0 {
				x.exec(Op{Kind: opDel, K: first})
			}
			x.exec(Op{Kind: opSet, K: []byte{1, 2}, V: []byte{9}})
		}
	}
	t.Seen("equal", cfg.String(), contentStr(base.pers))
}

func runC16(c *Ctx) {
	c.Cases("lockstep", 6000*c.scale, lockstep)
	c.Cases("withheld", 12000*c.scale, withheld)
	c.Cases("key-equals-value", 40000*c.scale, keyEqualsValue)
}
