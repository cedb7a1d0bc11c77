package main

import (
	"bytes"
	"fmt"

	"github.com/iotaledger/trie.go/models/trie_kzg_bn256"
	"github.com/iotaledger/trie.go/trie"
)

func init() {
	register(&property{id: "C07",
		rule:  "A case builds a state of the polynomial model by a random history and asks for proofs of present keys and of absent keys around every kind of path ending, from the updatable trie, a reader and a reopened trie; proofs are compared with openings computed independently, checked by an own pairing equation and by the validator with right and wrong values and roots, and round-tripped through bytes. Distinct by (root, key); non-trivial: the state is not empty or the key is probed on the empty state.",
		assum: []string{"kyber bn256 is trusted", "the public setup is consistent (C09)"},
		run:   runC07})
}

func kzgState(t *T, maxOps int) *state {
	cfg := Cfg{Arity: 256, KZG: true, Opt: t.Rng.Intn(4) == 0}
	p := kzgProfile(t)
	ops := history(t.Rng, p, cfg, histParams{minOps: 1, maxOps: maxOps, pDel: 25, pCommit: 8})
	w := runHistory(t, cfg, ops, func(w *World) {})
	s := stateOf(w)
	t.Logf("content %s", contentStr(w.cur))
	t.Sample("content %s", contentStr(w.cur))
	return s
}

func (s *state) kzgCheckPresent(t *T, key []byte, ns trie.NodeStore, where string) {
	m := trie_kzg_bn256.Model
	val := s.w.cur[string(key)]
	var p *trie_kzg_bn256.ProofOfInclusion
	var ok bool
	t.mustNot(fmt.Sprintf("%s: ProofOfInclusion of %x", where, key), func() { p, ok = m.ProofOfInclusion(append([]byte(nil), key...), ns) })
	t.Eval(1)
	t.Check(ok && p != nil, "%s: no proof of inclusion for present key %x", where, key)
	t.Check(bytes.Equal(p.Key, key), "%s: proof for key %x names key %x", where, key, p.Key)
	nodes, _ := s.tree.walk(key)
	t.Check(len(p.Path) == len(nodes), "%s: proof of %x has %d elements, the path has %d nodes", where, key, len(p.Path), len(nodes))
	t.Check(bytes.Equal(scalarBytes(p.Terminal), scalarBytes(kzgScalarOfHash(val))), "%s: proof of %x shows another terminal", where, key)
	for i, e := range p.Path {
		want := 256
		v := p.Terminal
		if i+1 < len(nodes) {
			want = int(nodes[i+1].Key[len(nodes[i+1].Key)-1])
			v = kzgScalarOfHash(nodes[i+1].Commit)
		}
		t.Check(int(e.VectorIndex) == want, "%s: proof of %x has index %d at element %d, want %d", where, key, e.VectorIndex, i, want)
		t.Check(bytes.Equal(mustPoint(e.C), nodes[i].Commit), "%s: proof of %x has a wrong commitment at element %d", where, key, i)
		t.Check(kzgOpens(kzgSetup, e.C, e.Proof, v, want), "%s: opening at element %d of the proof of %x does not satisfy the pairing equation", where, i, key)
		t.Count("openings checked by pairing", 1)
	}
	root := kzgRoot(ns)
	err := p.Validate(root)
	t.Check(err == nil, "%s: honest proof of %x is rejected: %v", where, key, err)
	err = p.Validate(root, append([]byte(nil), val...))
	t.Check(err == nil, "%s: honest proof of %x is rejected with its value: %v", where, key, err)
	for i := 0; i < 3; i++ {
		o := mutateValue(t, val)
		if i == 2 && len(s.keys) > 0 {
			o = s.w.cur[string(s.keys[t.Rng.Intn(len(s.keys))])]
		}
		if bytes.Equal(o, val) {
			continue
		}
		t.mustNot("Validate with a wrong value", func() { err = p.Validate(root, o) })
		t.Check(err != nil, "%s: proof of key %x with value %s also validates with value %s", where, key, hx(val), hx(o))
	}
	// other roots
	other := []trie.VCommitment{nil, kzgChild(t)}
	if len(nodes) > 1 {
		x, xerr := s.w.tr.VectorCommitmentFromBytes(nodes[1].Commit)
		t.Check(xerr == nil, "commitment does not parse: %v", xerr)
		other = append(other, x)
	}
	for _, o := range other {
		t.mustNot("Validate with a wrong root", func() { err = p.Validate(o) })
		t.Check(err != nil, "%s: proof of %x validates against another root", where, key)
	}
	b := p.Bytes()
	sz, err := trie.Size(p)
	t.Check(err == nil && sz == len(b), "%s: reported size %d, serialized to %d bytes", where, sz, len(b))
	t.Check(len(b) == 2+len(key)+32+2+len(nodes)*(64+2+64), "%s: proof of %x has %d bytes", where, key, len(b))
	q, err := trie_kzg_bn256.ProofOfInclusionFromBytes(append([]byte(nil), b...))
	t.Check(err == nil, "%s: serialized proof of %x does not parse: %v", where, key, err)
	t.Check(bytes.Equal(q.Key, key) && kzgSameBody(p, q) && bytes.Equal(q.Bytes(), b), "%s: proof of %x changes by serialization", where, key)
	rootFromBytes, err := s.w.tr.VectorCommitmentFromBytes(s.root)
	t.Check(err == nil, "root does not parse: %v", err)
	t.Check(q.Validate(rootFromBytes) == nil && q.Validate(rootFromBytes, val) == nil, "%s: proof of %x is rejected after serialization", where, key)
	rd := bytes.NewReader(append(append([]byte(nil), b...), 1, 2))
	var r trie_kzg_bn256.ProofOfInclusion
	t.Check(r.Read(rd) == nil && rd.Len() == 2, "%s: reading a proof from a stream consumes the following bytes", where)
	t.Check(bytes.Equal(p.Bytes(), b), "%s: validation changed the proof", where)
	t.Count("proofs of present keys", 1)
	t.Seen(s.root, key)
}

func (s *state) kzgCheckAbsent(t *T, key []byte, ns trie.NodeStore, where string) {
	var p *trie_kzg_bn256.ProofOfInclusion
	var ok bool
	t.mustNot(fmt.Sprintf("%s: ProofOfInclusion of absent key %x, content %s", where, key, contentStr(s.w.cur)),
		func() { p, ok = trie_kzg_bn256.Model.ProofOfInclusion(append([]byte(nil), key...), ns) })
	t.Eval(1)
	t.Check(!ok && p == nil, "%s: proof of inclusion produced for absent key %x", where, key)
	_, ending := s.tree.walk(key)
	t.Count(fmt.Sprintf("absent keys, ending %d", ending), 1)
	t.Seen(s.root, key)
}

func (s *state) kzgViews() ([]trie.NodeStore, []string) {
	return []trie.NodeStore{s.w.tr, s.w.reader(), trie.New(s.w.model, s.w.ts, nil, s.cfg.Opt)}, []string{"trie", "reader", "reopened trie"}
}

func runC07(c *Ctx) {
	c.Cases("states", 260*c.scale, func(t *T) {
		s := kzgState(t, 14)
		views, names := s.kzgViews()
		n := 0
		for _, i := range t.Rng.Perm(len(s.keys)) {
			v := t.Rng.Intn(3)
			s.kzgCheckPresent(t, s.keys[i], views[v], names[v])
			if n++; n == 3 {
				break
			}
		}
		for _, k := range s.probeKeys(t, 24) {
			if _, ok := s.w.cur[string(k)]; !ok {
				v := t.Rng.Intn(3)
				s.kzgCheckAbsent(t, k, views[v], names[v])
			}
		}
	})
	c.Cases("absent", 3000*c.scale, func(t *T) {
		s := kzgState(t, 14)
		views, names := s.kzgViews()
		for _, k := range s.probeKeys(t, 30) {
			if _, ok := s.w.cur[string(k)]; !ok {
				v := t.Rng.Intn(3)
				s.kzgCheckAbsent(t, k, views[v], names[v])
			}
		}
	})
	c.Cases("positions", 64, func(t *T) {
		// every child position of one node
		w := newWorld(t, Cfg{Arity: 256, KZG: true})
		pre := randBytes(t.Rng, t.Rng.Intn(2))
		for i := 0; i < 4; i++ {
			k := append(append([]byte{}, pre...), byte(t.n*4+i))
			w.exec(Op{Kind: opSet, K: append(k, randBytes(t.Rng, t.Rng.Intn(3))...), V: randBytes(t.Rng, 1+t.Rng.Intn(40))})
		}
		w.exec(Op{Kind: opSet, K: pre, V: randBytes(t.Rng, 1+t.Rng.Intn(40))})
		w.exec(Op{Kind: opPersist})
		s := stateOf(w)
		for i, k := range s.keys {
			if i < 2 || t.Rng.Intn(3) == 0 {
				s.kzgCheckPresent(t, k, w.tr, "positions")
			}
		}
	})
	c.Cases("updated", 60*c.scale, func(t *T) {
		// a proof does not survive a change of its key
		s := kzgState(t, 10)
		if len(s.keys) == 0 {
			return
		}
		k := s.keys[t.Rng.Intn(len(s.keys))]
		p, ok := trie_kzg_bn256.Model.ProofOfInclusion(k, s.w.tr)
		t.Check(ok, "no proof of present key %x", k)
		oldRoot := kzgRoot(s.w.tr)
		if t.Rng.Intn(2) == 0 {
			s.w.exec(Op{Kind: opDel, K: k})
		} else {
			s.w.exec(Op{Kind: opSet, K: k, V: append([]byte{9}, s.w.cur[string(k)]...)})
		}
		s.w.exec(Op{Kind: opCommit})
		t.Eval(1)
		root := kzgRoot(s.w.tr)
		t.Check(p.Validate(root) != nil, "proof of %x validates against the root after the key has changed", k)
		t.Check(p.Validate(oldRoot) == nil, "proof of %x does not validate against its root after the trie has changed", k)
		t.Seen("updated", s.root, k)
		if _, present := s.w.cur[string(k)]; !present {
			s2 := stateOf(s.w)
			s2.kzgCheckAbsent(t, k, s.w.tr, "after deletion")
		}
	})
	c.Cases("depth", 4*c.scale, func(t *T) {
		// a chain of nodes
		w := newWorld(t, Cfg{Arity: 256, KZG: true})
		n := 12 + t.Rng.Intn(10)
		base := fromAlpha(t.Rng, alphabets[t.Rng.Intn(len(alphabets))], n)
		for i := 0; i <= n; i++ {
			w.exec(Op{Kind: opSet, K: base[:i], V: randBytes(t.Rng, 1+t.Rng.Intn(40))})
		}
		w.exec(Op{Kind: opPersist})
		s := stateOf(w)
		s.kzgCheckPresent(t, base, w.reader(), "depth")
		s.kzgCheckPresent(t, base[:n/2], w.tr, "depth")
		s.kzgCheckAbsent(t, append(append([]byte{}, base...), 0), w.tr, "depth")
	})
}
