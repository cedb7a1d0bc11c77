package main

import (
	"bytes"
	"sort"

	"github.com/iotaledger/trie.go/models/trie_kzg_bn256"
	"github.com/iotaledger/trie.go/trie"
	"go.dedis.ch/kyber/v3"
)

func init() {
	register(&property{id: "C06",
		rule:  "A case is a random operation history over a trie with the polynomial model: after every commit the root, and after every persist the whole store, are compared with the canonical tree whose commitments are computed as sums over the public Lagrange basis; other cases call the incremental update of the model directly on node data of every shape and compare with the commitment from scratch. Distinct by content or by node data; non-trivial: not empty.",
		assum: []string{"kyber bn256 is trusted", "the points of the public setup are taken as they are; C09 checks them"},
		run:   runC06})
}

func kzgProfile(t *T) *genProfile {
	p := &genProfile{hs: 32, arity: 256, alpha: alphabets[t.Rng.Intn(len(alphabets))], lenMin: 0, lenMax: 3, pool: 3 + t.Rng.Intn(5)}
	switch t.Rng.Intn(6) {
	case 0:
		p.chain = true
		p.lenMax = 5
	case 1:
		p.prefix = randBytes(t.Rng, boundaryLens[t.Rng.Intn(len(boundaryLens))])
	case 2:
		p.lenMin, p.lenMax, p.pool = 1, 1, 8+t.Rng.Intn(12)
	case 3:
		p.lenMax = 40
	}
	return p
}

func c06Monitor(w *World) {
	w.onCommit = func(w *World) {
		w.checkRoot(w.tr, "after commit")
		if len(w.cur) > 0 {
			w.t.Seen(w.tree.rootBytes())
		}
		if w.t.Rng.Intn(4) == 0 {
			before := rootOf(w.tr)
			w.tr.Commit()
			w.t.Check(bytes.Equal(before, rootOf(w.tr)), "repeated commit changed the root")
		}
	}
	w.onPersist = func(w *World) {
		w.checkStore("after persist")
		if w.t.Rng.Intn(4) == 0 {
			w.checkRoot(w.reader(), "reader after persist")
			w.checkNodes(w.reader(), "reader after persist")
		}
	}
}

func runC06(c *Ctx) {
	kz := Cfg{Arity: 256, KZG: true}
	c.Cases("history", 3000*c.scale, func(t *T) {
		cfg := kz
		cfg.Opt = t.Rng.Intn(4) == 0
		p := kzgProfile(t)
		ops := history(t.Rng, p, cfg, histParams{minOps: 3, maxOps: 30})
		t.Sample("%s %s: %v", cfg, p.name, histString(ops[:minInt(len(ops), 12)]))
		w := runHistory(t, cfg, ops, c06Monitor)
		w.checkNodes(w.tr, "end")
		w.checkRoot(w.reader(), "reader at the end")
	})
	c.Cases("tiny", 10000*c.scale, func(t *T) {
		cfg := kz
		cfg.Opt = t.Rng.Intn(4) == 0
		p := &genProfile{hs: 32, arity: 256, alpha: alphabets[t.Rng.Intn(5)], lenMin: 0, lenMax: 3, pool: 2 + t.Rng.Intn(4)}
		ops := history(t.Rng, p, cfg, histParams{minOps: 2, maxOps: 10, pDel: 40, pCommit: 35})
		runHistory(t, cfg, ops, c06Monitor)
	})
	c.Cases("fanout", 40*c.scale, func(t *T) {
		// wide nodes: every child index, values at the boundary of the vector
		w := newWorld(t, kz)
		pre := randBytes(t.Rng, t.Rng.Intn(3))
		for _, i := range t.Rng.Perm(256) {
			if t.Rng.Intn(3) == 0 {
				w.exec(Op{Kind: opSet, K: append(append([]byte{}, pre...), byte(i)), V: randBytes(t.Rng, 1+t.Rng.Intn(3))})
			}
		}
		w.exec(Op{Kind: opSet, K: append(append([]byte{}, pre...), 255), V: []byte{1}})
		w.exec(Op{Kind: opSet, K: append(append([]byte{}, pre...), 0), V: []byte{1}})
		w.exec(Op{Kind: opPersist})
		w.checkRoot(w.tr, "fan-out")
		w.checkStore("fan-out")
		if t.Rng.Intn(2) == 0 {
			w.exec(Op{Kind: opReopen})
		}
		for i := 0; i < 256; i++ {
			if t.Rng.Intn(4) == 0 {
				w.exec(Op{Kind: opDel, K: append(append([]byte{}, pre...), byte(i))})
			}
		}
		w.exec(Op{Kind: opPersist})
		w.checkRoot(w.tr, "fan-out after deletions")
		w.checkStore("fan-out after deletions")
		t.Seen(w.tree.rootBytes())
	})
	c.Cases("incremental", 6000*c.scale, deltaCase)
	c.Cases("additive", 400*c.scale, func(t *T) {
		// UpdateVCommitment adds a difference to a commitment
		m := trie_kzg_bn256.Model
		a, b := randNodeData(t, 4), randNodeData(t, 4)
		ca, cb := m.CalcNodeCommitment(a), m.CalcNodeCommitment(b)
		pa, pb := pointOf(ca.Bytes()), pointOf(cb.Bytes())
		var acc trie.VCommitment
		m.UpdateVCommitment(&acc, ca)
		t.Eval(1)
		t.Check(bytes.Equal(acc.Bytes(), ca.Bytes()), "difference added to nothing is %x, want %x", acc.Bytes(), ca.Bytes())
		m.UpdateVCommitment(&acc, cb)
		sum := kzgSetup.Suite.G1().Point().Add(pa, pb)
		sb, _ := sum.MarshalBinary()
		t.Check(bytes.Equal(acc.Bytes(), sb), "sum of commitments is %x, want %x", acc.Bytes(), sb)
		t.Check(bytes.Equal(ca.Bytes(), mustPoint(pa)) && bytes.Equal(cb.Bytes(), mustPoint(pb)), "adding changed the operands")
		t.Seen("sum", sb)
	})
}

func mustPoint(p kyber.Point) []byte {
	b, err := p.MarshalBinary()
	if err != nil {
		panic(err)
	}
	return b
}

func pointOf(b []byte) kyber.Point {
	p := kzgSetup.Suite.G1().Point()
	if err := p.UnmarshalBinary(b); err != nil {
		panic(violation{"commitment does not parse: " + err.Error()})
	}
	return p
}

// kzgChild gives a random valid vector commitment
func kzgChild(t *T) trie.VCommitment {
	n := trie.NewNodeData()
	n.Terminal = trie_kzg_bn256.Model.CommitToData(randBytes(t.Rng, 1+t.Rng.Intn(8)))
	return trie_kzg_bn256.Model.CalcNodeCommitment(n)
}

func randNodeData(t *T, maxCh int) *trie.NodeData {
	n := trie.NewNodeData()
	n.PathFragment = randBytes(t.Rng, []int{0, 0, 1, 2, 5, 33, 70}[t.Rng.Intn(7)])
	for i := 0; i < t.Rng.Intn(maxCh+1); i++ {
		idx := byte(t.Rng.Intn(256))
		if t.Rng.Intn(3) == 0 {
			idx = []byte{0, 1, 127, 128, 254, 255}[t.Rng.Intn(6)]
		}
		n.ChildCommitments[idx] = kzgChild(t)
	}
	if t.Rng.Intn(2) == 0 || len(n.ChildCommitments) == 0 {
		n.Terminal = trie_kzg_bn256.Model.CommitToData(randBytes(t.Rng, 1+t.Rng.Intn(40)))
	}
	return n
}

// oNodeDataCommit is the commitment of node data from its definition
func oNodeDataCommit(n *trie.NodeData) []byte {
	s := kzgSetup.Suite
	sum := s.G1().Point().Null()
	add := func(i int, x kyber.Scalar) {
		sum.Add(sum, s.G1().Point().Mul(x, kzgSetup.LagrangeBasis[i]))
	}
	for i, c := range n.ChildCommitments {
		add(int(i), kzgScalarOfHash(c.Bytes()))
	}
	if !isNil(n.Terminal) {
		x := s.G1().Scalar()
		if err := x.UnmarshalBinary(n.Terminal.Bytes()); err != nil {
			panic(err)
		}
		add(256, x)
	}
	add(257, kzgScalarOfHash(blakeSum(32, n.PathFragment)))
	return mustPoint(sum)
}

func deltaCase(t *T) {
	m := trie_kzg_bn256.Model
	n := randNodeData(t, 5)
	c0 := m.CalcNodeCommitment(n)
	t.Eval(1)
	t.Check(bytes.Equal(c0.Bytes(), oNodeDataCommit(n)), "commitment of node data from scratch is %x, want %x: %s", c0.Bytes(), oNodeDataCommit(n), n)
	cur := n.Clone()
	com := c0
	for step := 0; step < 1+t.Rng.Intn(4); step++ {
		// the update
		upd := map[byte]trie.VCommitment{}
		want := cur.Clone()
		idx := make([]int, 0)
		for i := range cur.ChildCommitments {
			idx = append(idx, int(i))
		}
		sort.Ints(idx)
		for _, i := range idx {
			switch t.Rng.Intn(4) {
			case 0:
				upd[byte(i)] = nil
				delete(want.ChildCommitments, byte(i))
				t.Count("children removed", 1)
			case 1:
				upd[byte(i)] = kzgChild(t)
				want.ChildCommitments[byte(i)] = upd[byte(i)].Clone()
				t.Count("children replaced", 1)
			}
		}
		for i := 0; i < t.Rng.Intn(3); i++ {
			x := byte(t.Rng.Intn(256))
			if _, ok := cur.ChildCommitments[x]; !ok {
				upd[x] = kzgChild(t)
				want.ChildCommitments[x] = upd[x].Clone()
				t.Count("children added", 1)
			}
		}
		term := cur.Terminal
		switch t.Rng.Intn(4) {
		case 0:
			term = nil
		case 1:
			term = m.CommitToData(randBytes(t.Rng, 1+t.Rng.Intn(40)))
		case 2:
			if term != nil {
				term = term.Clone()
			}
		}
		want.Terminal = nil
		if term != nil {
			want.Terminal = term.Clone()
		}
		wantBytes := oNodeDataCommit(want)
		prevTerm, prevCom := cur.Terminal, com
		var prevTermBytes []byte
		if prevTerm != nil {
			prevTermBytes = prevTerm.Bytes()
		}
		prevComBytes := prevCom.Bytes()
		mode := t.Rng.Intn(4)
		next := com
		switch mode {
		case 0: // only the data
			m.UpdateNodeCommitment(cur, upd, false, term, nil)
			next = m.CalcNodeCommitment(cur)
		case 1: // from scratch
			m.UpdateNodeCommitment(cur, upd, false, term, &next)
		default: // by difference
			m.UpdateNodeCommitment(cur, upd, true, term, &next)
			t.Count("updates by difference", 1)
		}
		t.Eval(1)
		t.Check(bytes.Equal(next.Bytes(), wantBytes), "update of a node (mode %d) gives %x, from scratch it is %x", mode, next.Bytes(), wantBytes)
		t.Check(bytes.Equal(oNodeDataCommit(cur), wantBytes), "node data is not updated")
		t.Check(bytes.Equal(prevCom.Bytes(), prevComBytes), "the commitment before the update is changed in place")
		if prevTerm != nil {
			t.Check(bytes.Equal(prevTerm.Bytes(), prevTermBytes), "the terminal before the update is changed in place")
		}
		t.Seen(wantBytes, mode)
		com = next
	}
}
