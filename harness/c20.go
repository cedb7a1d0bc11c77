package main

import (
	"bytes"
	"fmt"
	"sort"

	"github.com/iotaledger/trie.go/hive_adaptor"
	"github.com/iotaledger/trie.go/models/trie_blake2b"
	"github.com/iotaledger/trie.go/models/trie_blake2b/trie_blake2b_verify"
	"github.com/iotaledger/trie.go/models/trie_kzg_bn256"
	"github.com/iotaledger/trie.go/trie"
	"go.dedis.ch/kyber/v3"
)

func init() {
	register(&property{id: "C20",
		rule:  "Random histories in which every buffer given to the trie is overwritten after the call and every serialization the trie returns is overwritten by its consumer, over stores which keep and hand out slices without copying; roots and stored bytes are compared with the canonical tree. Proofs, commitments and nodes read from the store are held with a copy of their bytes and compared and validated again after later operations, and the persisted slices are compared with their copies after every operation until the next persist. Parsed objects are compared after their input is overwritten. Distinct by configuration and content.",
		assum: []string{"nodes of an updatable trie are live views and are not held", "slices handed out by a store are not written to by the caller"},
		run:   runC20})
}

func wreck(bs ...[]byte) {
	for _, b := range bs {
		b = b[:cap(b)]
		for i := range b {
			b[i] ^= 0xa5
		}
	}
}

// held is a result handed out earlier
type held struct {
	what  string
	check func() error
}

type aliasWorld struct {
	*World
	held []held
	snap map[string][]byte
	m    map[string][]byte
}

func differ(what string, got, want []byte) error {
	if bytes.Equal(got, want) {
		return nil
	}
	return fmt.Errorf("%s were %s, now %s", what, hx(want), hx(got))
}

func (a *aliasWorld) hold(what string, check func() error) {
	a.t.Count("results held: "+what, 1)
	h := held{fmt.Sprintf("%s of operation %d", what, len(a.held)), check}
	if len(a.held) < 24 {
		a.held = append(a.held, h)
	} else {
		a.held[a.t.Rng.Intn(len(a.held))] = h
	}
}

// holdBytes holds an object which serializes
func (a *aliasWorld) holdBytes(what string, c interface{ Bytes() []byte }) {
	b := c.Bytes()
	want := append([]byte{}, b...)
	wreck(b)
	a.hold(what, func() error {
		b := c.Bytes()
		defer wreck(b)
		return differ("bytes", b, want)
	})
}

func nodeFingerprint(n trie.Node) []byte {
	var b bytes.Buffer
	fmt.Fprintf(&b, "%x|%x|", n.Key(), n.PathFragment())
	if !isNil(n.Terminal()) {
		fmt.Fprintf(&b, "%x", n.Terminal().Bytes())
	}
	ch := n.ChildCommitments()
	idx := []int{}
	for i := range ch {
		idx = append(idx, int(i))
	}
	sort.Ints(idx)
	for _, i := range idx {
		fmt.Fprintf(&b, "|%d:%x", i, ch[byte(i)].Bytes())
	}
	return b.Bytes()
}

func (a *aliasWorld) key() []byte {
	r := a.t.Rng
	if len(a.cur) > 0 && r.Intn(3) > 0 {
		ks := sortedKeys(a.cur)
		return []byte(ks[r.Intn(len(ks))])
	}
	return randBytes(r, r.Intn(4))
}

func (a *aliasWorld) proof(ns trie.NodeStore, where string) {
	t := a.t
	key := a.key()
	arg := append([]byte{}, key...)
	root := append([]byte{}, rootOf(ns)...)
	switch m := a.model.(type) {
	case *trie_blake2b.CommitmentModel:
		p := m.Proof(arg, ns)
		b := p.Bytes()
		wreck(arg, b)
		want := p.Bytes()
		if t.Rng.Intn(4) == 0 {
			// the proof belongs to its owner, who edits it
			tamper(t, p)
			t.Count("proofs edited in place", 1)
			p2 := m.Proof(append([]byte{}, key...), ns)
			t.Check(bytes.Equal(p2.Bytes(), want), "%s: proof of %x after another proof of it was edited is %x, was %x", where, key, p2.Bytes(), want)
			return
		}
		t.Check(bytes.Equal(p.Key, oUnpack(key, a.cfg.Arity)), "%s: key of the proof changes with the buffer of the caller", where)
		a.hold("proof", func() error {
			b := p.Bytes()
			if err := differ("bytes of a proof", b, want); err != nil {
				return err
			}
			wreck(b)
			if len(root) > 0 {
				if err := trie_blake2b_verify.Validate(p, root); err != nil {
					return fmt.Errorf("proof is not valid any more: %v", err)
				}
			}
			return nil
		})
	case *trie_kzg_bn256.CommitmentModel:
		p, ok := m.ProofOfInclusion(arg, ns)
		if !ok {
			return
		}
		b := p.Bytes()
		wreck(arg, b)
		want := p.Bytes()
		t.Check(bytes.Equal(p.Key, key), "%s: key of the proof changes with the buffer of the caller", where)
		rc := trie.RootCommitment(ns)
		n := 0
		a.hold("proof", func() error {
			b := p.Bytes()
			if err := differ("bytes of a proof", b, want); err != nil {
				return err
			}
			wreck(b)
			if n++; n%8 == 1 {
				if err := p.Validate(rc); err != nil {
					return fmt.Errorf("proof is not valid any more: %v", err)
				}
			}
			return nil
		})
	}
}

// tamper edits all parts of a proof in place
func tamper(t *T, p *trie_blake2b.Proof) {
	wreck(p.Key)
	for _, e := range p.Path {
		wreck(e.PathFragment, e.Terminal)
		for i, c := range e.Children {
			wreck(c)
			if t.Rng.Intn(2) == 0 {
				delete(e.Children, i)
			}
		}
		e.Children[0] = []byte{1}
		e.ChildIndex++
	}
}

// take obtains results and wrecks or holds them
func (a *aliasWorld) take() {
	r := a.t.Rng
	var ns trie.NodeStore = a.tr
	from := "trie"
	if r.Intn(2) == 0 {
		ns, from = a.reader(), "reader"
	} else if a.dirty {
		// pending state: serializations are wrecked, not held
		arg := oUnpack(a.key(), a.cfg.Arity)
		arg = arg[:r.Intn(len(arg)+1)]
		if n, ok := a.tr.GetNode(arg); ok {
			if !isNil(n.Terminal()) {
				wreck(n.Terminal().Bytes())
			}
			for _, c := range n.ChildCommitments() {
				if !isNil(c) {
					wreck(c.Bytes())
				}
			}
		}
		wreck(arg)
		return
	}
	switch r.Intn(4) {
	case 0:
		if c := trie.RootCommitment(ns); !isNil(c) {
			a.holdBytes("root", c)
		}
	case 1, 2:
		a.proof(ns, from)
	case 3:
		tree := a.tree
		if from == "reader" || tree == nil {
			tree = buildTree(a.pers, a.cfg)
			if from != "reader" {
				return
			}
		}
		if len(tree.nodes) == 0 {
			return
		}
		arg := append([]byte{}, tree.nodes[r.Intn(len(tree.nodes))].Key...)
		n, ok := ns.GetNode(arg)
		a.t.Check(ok, "%s: node '%x' is missing", from, arg)
		if from == "reader" {
			want := nodeFingerprint(n)
			wreck(arg)
			a.hold("node", func() error { return differ("data of a node read from the store", nodeFingerprint(n), want) })
		} else {
			wreck(arg)
		}
		if !isNil(n.Terminal()) {
			a.holdBytes("terminal", n.Terminal())
		}
		for _, c := range n.ChildCommitments() {
			a.holdBytes("child commitment", c)
			break
		}
	}
}

func (a *aliasWorld) audit(where string) {
	t := a.t
	for _, h := range a.held {
		if err := h.check(); err != nil {
			t.Fail("%s: %s, held since: %v", where, h.what, err)
		}
		t.Count("held results compared", 1)
	}
	t.Eval(1)
	for k, v := range a.vs.m {
		t.Check(bytes.Equal(v, a.pers[k]), "%s: stored value of key %x changed to %x", where, k, v)
	}
	t.Check(sameContent(a.ts.m, a.snap), "%s: persisted data changed after they were stored: %s", where, diffStores(a.ts.m, a.snap))
}

func (a *aliasWorld) snapshot() {
	a.snap = map[string][]byte{}
	for k, v := range a.ts.m {
		a.snap[k] = append([]byte{}, v...)
	}
}

func aliasCase(t *T, cfg Cfg, p *genProfile, maxOps int) {
	ops := history(t.Rng, p, cfg, histParams{minOps: 4, maxOps: maxOps})
	share := t.Rng.Intn(2) == 0
	step := 0
	w := runHistory(t, cfg, ops, func(w *World) {
		a := &aliasWorld{World: w}
		w.scribble = true
		w.ts.share, w.vs.share = share, share
		a.snapshot()
		w.onCommit = func(w *World) { w.checkRoot(w.tr, "after commit") }
		w.onPersist = func(w *World) {
			w.checkStore("after persist")
			w.checkRoot(w.reader(), "reader after persist")
			a.snapshot()
			for k, v := range w.vs.m { // the shadow content is not shared with the store
				w.vs.m[k] = append([]byte{}, v...)
			}
		}
		w.onOp = func(w *World, o Op) {
			step++
			for i := w.t.Rng.Intn(3); i > 0; i-- {
				a.take()
			}
			a.audit(fmt.Sprintf("after %s", o))
		}
	})
	t.Seen(cfg.String(), fullStr(w.cur), share)
	t.Sample("%s: %d operations, content %s", cfg, len(ops), contentStr(w.cur))
}

// parsers do not keep their input
func parseCase(t *T) {
	cfg := optCfg(t)
	s := stateBy(t, cfg, 25)
	r := t.Rng
	hide := func(b []byte) []byte { return append(make([]byte, 0, len(b)+4), b...) }
	for i := 0; i < 6; i++ {
		if len(s.tree.nodes) == 0 {
			break
		}
		n := s.tree.nodes[r.Intn(len(s.tree.nodes))]
		data, key := hide(oNodeBytes(n, cfg)), hide(n.Key)
		var vs trie.KVReader
		if cfg.Thr > 0 {
			vs = s.w.vs
		}
		nd, err := trie.NodeDataFromBytes(s.w.model, data, key, arityOf(cfg.Arity), vs)
		t.Check(err == nil, "%s: node does not parse: %v", cfg, err)
		wreck(data, key)
		t.Check(bytes.Equal(nd.PathFragment, n.PF), "%s: path fragment of a parsed node changes with its input: %x, want %x", cfg, nd.PathFragment, n.PF)
		if n.Data != nil {
			t.Check(bytes.Equal(termRaw(nd.Terminal, cfg), oRaw(n.Data, cfg.HS)), "%s: terminal of a parsed node changes with its input", cfg)
		}
		for c, x := range nd.ChildCommitments {
			t.Check(bytes.Equal(x.Bytes(), n.Children[c].Commit), "%s: child of a parsed node changes with its input", cfg)
		}
		cb := hide(n.Commit)
		vc, err := s.w.tr.VectorCommitmentFromBytes(cb)
		t.Check(err == nil, "%s: commitment: %v", cfg, err)
		wreck(cb)
		t.Check(bytes.Equal(vc.Bytes(), n.Commit), "%s: parsed commitment changes with its input", cfg)
		t.Eval(2)
	}
	for _, k := range s.probeKeys(t, 4) {
		p := s.m.Proof(k, s.w.tr)
		b := hide(p.Bytes())
		p2, err := trie_blake2b.ProofFromBytes(b)
		t.Check(err == nil, "%s: proof: %v", cfg, err)
		wreck(b)
		d := proofsEqual(p, p2)
		t.Check(d == "", "%s: parsed proof changes with its input: %s", cfg, d)
		t.Check(trie_blake2b_verify.Validate(p2, s.root) == nil || len(s.root) == 0, "%s: parsed proof is not valid after its input is overwritten", cfg)
		// arguments and results of validation
		v := hide(s.truth[string(p.Key)])
		kk, term := trie_blake2b_verify.MustKeyWithTerminal(p2)
		_ = trie_blake2b_verify.ValidateWithValue(p2, s.root, v)
		t.Check(bytes.Equal(v, s.truth[string(p.Key)]) && proofsEqual(p, p2) == "", "%s: validation changes its arguments", cfg)
		_, _ = kk, term
		t.Eval(1)
	}
	for i := 0; i < 6; i++ {
		v := randBytes(r, []int{1, 5, 19, 20, 21, 31, 32, 33, 64}[r.Intn(9)])
		arg := hide(v)
		c := s.w.model.CommitToData(arg)
		cl := c.Clone()
		wreck(arg)
		wreck(c.Bytes())
		t.Check(bytes.Equal(termRaw(c, cfg), oRaw(v, cfg.HS)), "%s: commitment to data of %d bytes changes with its input", cfg, len(v))
		wreck(cl.Bytes())
		t.Check(bytes.Equal(cl.Bytes(), c.Bytes()), "%s: clone of a commitment differs", cfg)
		raw := hide(v)
		rb := trie_blake2b.CommitToDataRaw(raw, trie_blake2b.HashSize(cfg.HS))
		wreck(rb)
		t.Check(len(v) > cfg.HS || bytes.Equal(raw, v), "%s: CommitToDataRaw of %d bytes returns its argument", cfg, len(v))
		t.Eval(1)
	}
	t.Seen("parse", cfg.String(), s.root)
}

func nodePoint(t *T, b []byte) kyber.Point {
	p := suiteBN.G1().Point()
	t.Check(p.UnmarshalBinary(b) == nil, "commitment %x is no point", b)
	return p
}

func parseKZG(t *T) {
	s := kzgState(t, 8)
	hide := func(b []byte) []byte { return append(make([]byte, 0, len(b)+4), b...) }
	for i, k := range s.keys {
		if i == 2 {
			break
		}
		p, ok := trie_kzg_bn256.Model.ProofOfInclusion(hide(k), s.w.tr)
		t.Check(ok, "no proof of %x", k)
		b := hide(p.Bytes())
		p2, err := trie_kzg_bn256.ProofOfInclusionFromBytes(b)
		t.Check(err == nil, "proof: %v", err)
		wreck(b)
		t.Check(bytes.Equal(p2.Bytes(), p.Bytes()), "parsed proof changes with its input")
		t.Check(p2.Validate(trie.RootCommitment(s.w.tr), s.w.cur[string(k)]) == nil, "parsed proof is not valid after its input is overwritten")
		t.Eval(2)
	}
	for _, n := range s.tree.nodes {
		data := hide(oNodeBytes(n, s.cfg))
		key := hide(n.Key)
		nd, err := trie.NodeDataFromBytes(s.w.model, data, key, trie.PathArity256, s.w.vs)
		t.Check(err == nil, "node does not parse: %v", err)
		wreck(data, key)
		t.Check(bytes.Equal(nd.PathFragment, n.PF), "path fragment of a parsed node changes with its input")
		c := trie_kzg_bn256.Model.CalcNodeCommitment(nd)
		t.Check(bytes.Equal(c.Bytes(), n.Commit), "parsed node changes with its input")
		t.Eval(1)
	}
	// clones of commitments: one is updated in place, the other is not
	root0 := append([]byte{}, s.root...)
	for _, n := range s.tree.nodes {
		vc, err := s.w.tr.VectorCommitmentFromBytes(hide(n.Commit))
		t.Check(err == nil, "commitment: %v", err)
		if isNil(vc) {
			continue
		}
		cl := vc.Clone()
		nd, ok := s.w.tr.GetNode(hide(n.Key))
		t.Check(ok, "node %x is missing", n.Key)
		data := &trie.NodeData{PathFragment: nd.PathFragment(), ChildCommitments: nd.ChildCommitments(), Terminal: nd.Terminal()}
		// the terminal is replaced
		trie_kzg_bn256.Model.UpdateNodeCommitment(data, nil, true, trie_kzg_bn256.Model.CommitToData([]byte("another")), &cl)
		t.Check(bytes.Equal(vc.Bytes(), n.Commit), "a commitment changes when its clone is updated")
		t.Check(!bytes.Equal(cl.Bytes(), n.Commit), "a clone is not updated")
		cl, delta := vc.Clone(), vc.Clone()
		trie_kzg_bn256.Model.UpdateVCommitment(&cl, delta)
		t.Check(bytes.Equal(vc.Bytes(), n.Commit) && bytes.Equal(delta.Bytes(), n.Commit), "a commitment changes when another is added to its clone")
		sum := nodePoint(t, n.Commit)
		sum.Add(sum, nodePoint(t, n.Commit))
		t.Check(bytes.Equal(cl.Bytes(), mustPoint(sum)), "sum of commitments is wrong")
		t.Eval(4)
	}
	// a proof belongs to its owner: it can be tampered with
	for i, k := range s.keys {
		if i == 3 {
			break
		}
		p, ok := trie_kzg_bn256.Model.ProofOfInclusion(hide(k), s.w.tr)
		t.Check(ok, "no proof of %x", k)
		one := p.Terminal.Clone().One()
		wreck(p.Key)
		p.Terminal.Add(p.Terminal, one)
		if i > 0 {
			for _, e := range p.Path {
				e.C.Add(e.C, kzgSetup.Suite.G1().Point().Base())
				e.Proof.Add(e.Proof, kzgSetup.Suite.G1().Point().Base())
				e.VectorIndex ^= 1
			}
		}
		p2, ok := trie_kzg_bn256.Model.ProofOfInclusion(hide(k), s.w.tr)
		t.Check(ok && p2.Validate(trie.RootCommitment(s.w.tr), s.w.cur[string(k)]) == nil, "proof of %x is not valid after another proof of it was changed", k)
		t.Eval(1)
	}
	s.w.exec(Op{Kind: opSet, K: []byte("zz"), V: []byte("other")})
	s.w.exec(Op{Kind: opPersist})
	s.w.checkRoot(s.w.tr, "after proofs were changed")
	s.w.checkStore("after proofs were changed")
	s.w.exec(Op{Kind: opDel, K: []byte("zz")})
	s.w.exec(Op{Kind: opCommit})
	t.Check(bytes.Equal(rootOf(s.w.tr), root0), "root after proofs were changed: %x, want %x", rootOf(s.w.tr), root0)
	v := hide([]byte("some value"))
	c := trie_kzg_bn256.Model.CommitToData(v)
	wreck(v)
	wreck(c.Bytes())
	t.Check(bytes.Equal(c.Bytes(), oTermBytes([]byte("some value"), s.cfg)), "commitment to data changes with its input")
	t.Seen("parse kzg", s.root)
}

// updater: buffers given to the batched updater
func updaterAlias(t *T) {
	cfg := batchCfg(t.Rng)
	layout := layouts[t.Rng.Intn(len(layouts))]
	db := newFakeDB()
	db.c.quiet = true
	tp, vp := roomy(layout[0]), roomy(layout[1])
	up, err := hive_adaptor.NewHiveBatchedUpdater(db, newModel(cfg), tp, vp, cfg.Opt)
	t.Check(err == nil, "updater: %v", err)
	content := map[string][]byte{}
	for n := 1 + t.Rng.Intn(4); n > 0; n-- {
		for _, o := range batchOps(t.Rng, cfg, 1+t.Rng.Intn(20), false) {
			if o.commit {
				continue
			}
			k, v := roomy(append([]byte{}, o.k...)), roomy(append([]byte{}, o.v...))
			t.Logf("Update(%x, %x)", k, v)
			up.Update(k, v)
			t.Check(intact(k) && intact(v), "Update writes behind the end of its arguments")
			wreck(k, v)
			if len(o.v) == 0 {
				delete(content, string(o.k))
			} else {
				content[string(o.k)] = append([]byte{}, o.v...)
			}
		}
		t.Check(up.Commit() == nil, "commit failed")
		t.Check(intact(tp) && intact(vp) && bytes.Equal(tp, layout[0]) && bytes.Equal(vp, layout[1]), "the updater writes into its prefixes")
		got, tree := db.c.partition(layout[1]), buildTree(content, cfg)
		t.Eval(2)
		t.Check(sameContent(got, content), "%s: stored values: %s", cfg, diffStores(got, content))
		got = db.c.partition(layout[0])
		t.Check(sameContent(got, tree.storeOf()), "%s: stored nodes: %s", cfg, diffStores(got, tree.storeOf()))
	}
	t.Seen("updater", cfg.String(), fullStr(content))
}

func runC20(c *Ctx) {
	c.Cases("aliasing", 25000*c.scale, func(t *T) {
		cfg := optCfg(t)
		aliasCase(t, cfg, newProfile(t.Rng, cfg), 40)
	})
	c.Cases("aliasing-kzg", 600*c.scale, func(t *T) {
		aliasCase(t, Cfg{Arity: 256, KZG: true, Opt: t.Rng.Intn(4) == 0}, kzgProfile(t), 14)
	})
	c.Cases("parsers", 20000*c.scale, parseCase)
	c.Cases("parsers-kzg", 300*c.scale, parseKZG)
	c.Cases("updater", 20000*c.scale, updaterAlias)
}
