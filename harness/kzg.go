package main

import (
	"bytes"
	"fmt"

	"github.com/iotaledger/trie.go/models/trie_kzg_bn256"
	"github.com/iotaledger/trie.go/trie"
	"go.dedis.ch/kyber/v3"
)

// ---- independent openings of vector commitments over a public setup

// kzgOpens is the pairing equation e(pi, [s-x_i]2) == e(C - [v]1, [1]2)
func kzgOpens(ts *trie_kzg_bn256.TrustedSetup, c, pi kyber.Point, v kyber.Scalar, i int) bool {
	l := ts.Suite.Pair(pi, ts.Diff2[i])
	d := ts.Suite.G1().Point().Sub(c, ts.Suite.G1().Point().Mul(v, nil))
	return l.Equal(ts.Suite.Pair(d, ts.Suite.G2().Point().Base()))
}

// kzgOpening is the opening of the vector at index i, computed from the definition of the quotient
func kzgOpening(ts *trie_kzg_bn256.TrustedSetup, vect []kyber.Scalar, i int) kyber.Point {
	g := ts.Suite.G1()
	zero := g.Scalar().Zero()
	at := func(j int) kyber.Scalar {
		if j < len(vect) && vect[j] != nil {
			return vect[j]
		}
		return zero
	}
	y := at(i)
	ret := g.Point().Null()
	qi := g.Scalar().Zero()
	for j := range ts.Domain {
		if j == i {
			continue
		}
		num := g.Scalar().Sub(at(j), y)
		if num.Equal(zero) {
			continue
		}
		den := g.Scalar().Sub(ts.Domain[j], ts.Domain[i])
		q := g.Scalar().Div(num, den)
		ret.Add(ret, g.Point().Mul(q, ts.LagrangeBasis[j]))
		// contribution to q_i = f'(x_i): (f_j-y) A'(i) / (A'(j) (x_i-x_j))
		x := g.Scalar().Mul(q, ts.AprimeDomainI[i])
		x.Div(x, ts.AprimeDomainI[j])
		qi.Sub(qi, x)
	}
	return ret.Add(ret, g.Point().Mul(qi, ts.LagrangeBasis[i]))
}

// kzgVector is the vector of a canonical node
func kzgVector(n *oNode) []kyber.Scalar {
	v := make([]kyber.Scalar, 258)
	for i, c := range n.Children {
		v[i] = kzgScalarOfHash(c.Commit)
	}
	if n.Data != nil {
		v[256] = kzgScalarOfHash(n.Data)
	}
	v[257] = kzgScalarOfHash(blakeSum(32, n.PF))
	return v
}

func scalarBytes(s kyber.Scalar) []byte {
	b, err := s.MarshalBinary()
	if err != nil {
		panic(err)
	}
	return b
}

func kzgProofStr(p *trie_kzg_bn256.ProofOfInclusion) string {
	s := fmt.Sprintf("key=%s", hx(p.Key))
	if p.Terminal != nil {
		s += fmt.Sprintf(" term=%s", hx(scalarBytes(p.Terminal)[:6]))
	}
	for _, e := range p.Path {
		if e == nil {
			s += " | nil"
			continue
		}
		s += fmt.Sprintf(" | C=%s idx=%d pi=%s", hx(mustPoint(e.C)[:6]), e.VectorIndex, hx(mustPoint(e.Proof)[:6]))
	}
	return s
}

func kzgCloneProof(p *trie_kzg_bn256.ProofOfInclusion) *trie_kzg_bn256.ProofOfInclusion {
	q := &trie_kzg_bn256.ProofOfInclusion{Key: append([]byte(nil), p.Key...), Terminal: p.Terminal.Clone()}
	for _, e := range p.Path {
		q.Path = append(q.Path, &trie_kzg_bn256.ProofElement{C: e.C.Clone(), VectorIndex: e.VectorIndex, Proof: e.Proof.Clone()})
	}
	return q
}

func kzgSameBody(a, b *trie_kzg_bn256.ProofOfInclusion) bool {
	if len(a.Path) != len(b.Path) || !a.Terminal.Equal(b.Terminal) {
		return false
	}
	for i := range a.Path {
		x, y := a.Path[i], b.Path[i]
		if x.VectorIndex != y.VectorIndex || !bytes.Equal(mustPoint(x.C), mustPoint(y.C)) || !bytes.Equal(mustPoint(x.Proof), mustPoint(y.Proof)) {
			return false
		}
	}
	return true
}

// kzgHonest is the proof of a present key by the definition
func kzgHonest(tree *oTree, path []byte) *trie_kzg_bn256.ProofOfInclusion {
	nodes, ending := tree.walk(path)
	if ending != endPresent {
		panic("kzgHonest: absent")
	}
	p := &trie_kzg_bn256.ProofOfInclusion{Key: append([]byte(nil), path...), Terminal: kzgScalarOfHash(nodes[len(nodes)-1].Data)}
	for i, n := range nodes {
		idx := 256
		if i < len(nodes)-1 {
			idx = int(nodes[i+1].Key[len(nodes[i+1].Key)-1])
		}
		p.Path = append(p.Path, &trie_kzg_bn256.ProofElement{C: n.point.Clone(), VectorIndex: uint16(idx), Proof: kzgOpening(kzgSetup, kzgVector(n), idx)})
	}
	return p
}

func kzgRoot(ns trie.NodeStore) trie.VCommitment { return trie.RootCommitment(ns) }
