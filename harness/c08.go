package main

import (
	"bytes"
	"encoding/binary"
	"fmt"

	"github.com/iotaledger/trie.go/models/trie_kzg_bn256"
	"github.com/iotaledger/trie.go/trie"
	"go.dedis.ch/kyber/v3"
)

func init() {
	register(&property{id: "C08",
		rule:  "A case builds a state of the polynomial model and honest proofs computed from the definition, edits, recombines, re-chains or re-encodes them in one or more places (with openings that are correct for a wrong statement where those can be computed from the public setup) and gives them to the validator. An accepted object must name a key of the state, show its terminal, and lie on the path of nodes of the canonical tree with openings which pass an own pairing equation. Distinct by the object; non-trivial: it differs from every honest proof.",
		assum: []string{"kyber bn256 is trusted", "no discrete logarithm relation of the public setup is known to the workload"},
		run:   runC08})
}

// kzgTruth decides whether the body of a proof is the one of a present key of the state, and which
func (s *state) kzgTruth(p *trie_kzg_bn256.ProofOfInclusion) (key []byte, ok bool, why string) {
	n := s.tree.root
	if n == nil {
		return nil, false, "the state is empty"
	}
	for i, e := range p.Path {
		if !bytes.Equal(mustPoint(e.C), n.Commit) {
			return nil, false, fmt.Sprintf("commitment of element %d is not the one of the node", i)
		}
		var v kyber.Scalar
		last := i == len(p.Path)-1
		if last {
			if e.VectorIndex != 256 {
				return nil, false, "the last element does not open the terminal"
			}
			if n.Data == nil {
				return nil, false, "the last node has no terminal"
			}
			v = kzgScalarOfHash(n.Data)
			if !bytes.Equal(scalarBytes(p.Terminal), scalarBytes(v)) {
				return nil, false, "the terminal is not the one of the node"
			}
		} else {
			c := n.Children[byte(e.VectorIndex)]
			if e.VectorIndex > 255 || c == nil {
				return nil, false, fmt.Sprintf("element %d goes to a child which does not exist", i)
			}
			v = kzgScalarOfHash(c.Commit)
			if !kzgOpens(kzgSetup, e.C, e.Proof, v, int(e.VectorIndex)) {
				return nil, false, fmt.Sprintf("opening of element %d is wrong", i)
			}
			n = c
			continue
		}
		if !kzgOpens(kzgSetup, e.C, e.Proof, v, 256) {
			return nil, false, "opening of the terminal is wrong"
		}
		return append(append([]byte{}, n.Key...), n.PF...), true, ""
	}
	return nil, false, "the path is empty"
}

// kzgJudge validates an object and decides on an acceptance
func (s *state) kzgJudge(t *T, p *trie_kzg_bn256.ProofOfInclusion, value [][]byte, how func() string) {
	var err error
	root, rerr := s.w.tr.VectorCommitmentFromBytes(s.root)
	t.Check(rerr == nil, "root does not parse: %v", rerr)
	before := p.Bytes()
	t.mustNot(func() string { return "Validate: " + how() + ": " + kzgProofStr(p) }, func() { err = p.Validate(root, value...) })
	t.Eval(1)
	t.Check(bytes.Equal(before, p.Bytes()), "validation changed the proof")
	if err != nil {
		t.Count("objects rejected", 1)
		t.Seen(before)
		return
	}
	k, ok, why := s.kzgTruth(p)
	t.Check(ok, "%s: accepted but false (%s): %s; content %s", how(), why, kzgProofStr(p), contentStr(s.w.cur))
	if len(value) > 0 {
		t.Check(bytes.Equal(s.w.cur[string(k)], value[0]), "%s: accepted for value %s, the value is %s", how(), hx(value[0]), hx(s.w.cur[string(k)]))
	}
	if bytes.Equal(k, p.Key) {
		t.Count("objects accepted, true", 1)
		return
	}
	// The key is not bound to the path: listed finding key-not-bound-to-path
	t.Count("objects accepted, honest up to the name of the key (listed finding)", 1)
	s.kzgListed(t)
}

func (s *state) kzgListed(t *T) {
	for _, k := range t.c.known {
		if k.Witness == "key-not-bound-to-path" {
			return
		}
	}
	t.Fail("proof of one key accepted under the name of another key")
}

type kzgPool struct {
	s      *state
	honest []*trie_kzg_bn256.ProofOfInclusion
	pts    []kyber.Point
	scs    []kyber.Scalar
}

func newKzgPool(t *T, n int) *kzgPool {
	s := kzgState(t, 10)
	for len(s.keys) == 0 {
		s.w.exec(Op{Kind: opSet, K: randBytes(t.Rng, t.Rng.Intn(3)), V: randBytes(t.Rng, 1+t.Rng.Intn(5))})
		s.w.exec(Op{Kind: opPersist})
		s = stateOf(s.w)
	}
	kp := &kzgPool{s: s}
	for _, i := range t.Rng.Perm(len(s.keys)) {
		kp.honest = append(kp.honest, kzgHonest(s.tree, s.keys[i]))
		if len(kp.honest) == n {
			break
		}
	}
	g := kzgSetup.Suite.G1()
	kp.pts = append(kp.pts, g.Point().Null(), g.Point().Base(), kzgSetup.LagrangeBasis[0], kzgSetup.LagrangeBasis[256], kzgSetup.LagrangeBasis[257])
	for _, h := range kp.honest {
		for _, e := range h.Path {
			kp.pts = append(kp.pts, e.C, e.Proof)
		}
		kp.scs = append(kp.scs, h.Terminal)
	}
	for _, nd := range s.tree.nodes {
		kp.pts = append(kp.pts, nd.point)
		kp.scs = append(kp.scs, kzgScalarOfHash(nd.Commit), kzgScalarOfHash(blakeSum(32, nd.PF)))
	}
	kp.scs = append(kp.scs, g.Scalar().Zero(), g.Scalar().One(), g.Scalar().SetInt64(-1))
	return kp
}

func (kp *kzgPool) point(t *T) kyber.Point {
	p := kp.pts[t.Rng.Intn(len(kp.pts))].Clone()
	switch t.Rng.Intn(4) {
	case 0:
		p.Neg(p)
	case 1:
		p.Add(p, kp.pts[t.Rng.Intn(len(kp.pts))])
	}
	return p
}

func (kp *kzgPool) scalar(t *T) kyber.Scalar {
	v := kp.scs[t.Rng.Intn(len(kp.scs))].Clone()
	switch t.Rng.Intn(4) {
	case 0:
		v.Neg(v)
	case 1:
		v.Add(v, kzgSetup.Suite.G1().Scalar().One())
	}
	return v
}

// nodeOf finds the node with the commitment
func (s *state) nodeOf(c kyber.Point) *oNode {
	b := mustPoint(c)
	for _, n := range s.tree.nodes {
		if bytes.Equal(n.Commit, b) {
			return n
		}
	}
	return nil
}

func unitVector(i int, v kyber.Scalar) []kyber.Scalar {
	ret := make([]kyber.Scalar, 258)
	ret[i] = v
	return ret
}

// kzgAttack changes a copy of an honest proof and tells how
func (kp *kzgPool) attack(t *T) (*trie_kzg_bn256.ProofOfInclusion, string) {
	s := kp.s
	p := kzgCloneProof(kp.honest[t.Rng.Intn(len(kp.honest))])
	h := kp.honest[t.Rng.Intn(len(kp.honest))]
	i := t.Rng.Intn(len(p.Path))
	e := p.Path[i]
	last := len(p.Path) - 1
	switch x := t.Rng.Intn(26); x {
	case 0:
		p.Terminal = kp.scalar(t)
		return p, "terminal replaced"
	case 1:
		e.C = kp.point(t)
		return p, fmt.Sprintf("commitment %d replaced", i)
	case 2:
		e.Proof = kp.point(t)
		return p, fmt.Sprintf("opening %d replaced", i)
	case 3:
		e.VectorIndex = []uint16{0, 1, 255, 256, 257, uint16(t.Rng.Intn(258)), e.VectorIndex ^ 1}[t.Rng.Intn(7)]
		return p, fmt.Sprintf("index %d replaced by %d", i, e.VectorIndex)
	case 4:
		e.VectorIndex = []uint16{258, 259, 511, 512, 513, 1000, 0x7fff, 0x8000, 0xff00, 0xffff, e.VectorIndex + 258, e.VectorIndex + 256, e.VectorIndex + 512}[t.Rng.Intn(13)]
		return p, fmt.Sprintf("index %d out of range: %d", i, e.VectorIndex)
	case 5:
		p.Path = p.Path[:i]
		return p, "path cut at the end"
	case 6:
		p.Path = p.Path[i+1:]
		return p, "path cut at the start"
	case 7:
		p.Path = append(p.Path[:i:i], p.Path[i+1:]...)
		return p, fmt.Sprintf("element %d removed", i)
	case 8:
		p.Path = append(p.Path[:i+1:i+1], p.Path[i:]...)
		return p, fmt.Sprintf("element %d repeated", i)
	case 9:
		p.Path = append(p.Path, kzgCloneProof(h).Path...)
		return p, "another proof appended"
	case 10:
		if last > 0 {
			j := (i + 1) % len(p.Path)
			p.Path[i], p.Path[j] = p.Path[j], p.Path[i]
		} else {
			p.Path = nil
		}
		return p, "elements swapped"
	case 11: // another honest proof's tail
		q := kzgCloneProof(h)
		j := t.Rng.Intn(len(q.Path))
		p.Path = append(p.Path[:i:i], q.Path[j:]...)
		p.Terminal = q.Terminal
		return p, "tail of another proof grafted"
	case 12:
		p.Terminal = h.Terminal.Clone()
		return p, "terminal of another proof"
	case 13: // child or fragment shown as the terminal, with its correct opening
		n := s.nodeOf(e.C)
		vec := kzgVector(n)
		idx := 257
		if len(n.Children) > 0 && t.Rng.Intn(2) == 0 {
			for c := range n.Children {
				if idx == 257 || int(c) < idx {
					idx = int(c)
				}
			}
		}
		p.Path = p.Path[:i+1]
		e.VectorIndex, e.Proof, p.Terminal = uint16(idx), kzgOpening(kzgSetup, vec, idx), vec[idx].Clone()
		return p, fmt.Sprintf("value at index %d of element %d shown as the terminal with a correct opening", idx, i)
	case 14: // absent value shown with a correct opening
		n := s.nodeOf(e.C)
		vec := kzgVector(n)
		idx := 256
		if vec[256] != nil {
			idx = t.Rng.Intn(256)
			for vec[idx] != nil {
				idx = (idx + 1) % 256
			}
		}
		p.Path = p.Path[:i+1]
		e.VectorIndex, e.Proof, p.Terminal = uint16(idx), kzgOpening(kzgSetup, vec, idx), kzgSetup.Suite.G1().Scalar().Zero()
		return p, fmt.Sprintf("nothing at index %d of element %d shown as zero terminal with a correct opening", idx, i)
	case 15: // shifted chain: C+d*L_i, with the matching opening and terminal
		d := kp.scalar(t)
		idx := int(e.VectorIndex)
		e.C = kzgSetup.Suite.G1().Point().Add(e.C, kzgSetup.Suite.G1().Point().Mul(d, kzgSetup.LagrangeBasis[idx]))
		e.Proof = kzgSetup.Suite.G1().Point().Add(e.Proof, kzgOpening(kzgSetup, unitVector(idx, d), idx))
		if i == last {
			p.Terminal = kzgSetup.Suite.G1().Scalar().Add(p.Terminal, d)
		}
		return p, fmt.Sprintf("element %d shifted by a known vector with a correct opening", i)
	case 16: // everything negated
		e.C.Neg(e.C)
		e.Proof.Neg(e.Proof)
		if i == last {
			p.Terminal.Neg(p.Terminal)
		}
		return p, fmt.Sprintf("element %d negated", i)
	case 17: // own node grafted below an honest prefix
		v := kzgScalarOfHash(randBytes(t.Rng, 3))
		vec := unitVector(256, v)
		vec[257] = kzgScalarOfHash(blakeSum(32, nil))
		c := kzgSetup.Suite.G1().Point().Null()
		for j, sc := range vec {
			if sc != nil {
				c.Add(c, kzgSetup.Suite.G1().Point().Mul(sc, kzgSetup.LagrangeBasis[j]))
			}
		}
		p.Path = append(p.Path[:i:i], &trie_kzg_bn256.ProofElement{C: c, VectorIndex: 256, Proof: kzgOpening(kzgSetup, vec, 256)})
		p.Terminal = v
		return p, fmt.Sprintf("own node with a correct opening in place of element %d", i)
	case 18: // constant polynomial: the same value at every index, opening is the null point
		v := kp.scalar(t)
		c := kzgSetup.Suite.G1().Point().Mul(v, nil)
		p.Path = append(p.Path[:i:i], &trie_kzg_bn256.ProofElement{C: c, VectorIndex: 256, Proof: kzgSetup.Suite.G1().Point().Null()})
		p.Terminal = v
		return p, fmt.Sprintf("constant polynomial in place of element %d", i)
	case 19: // a chain of null points
		n := t.Rng.Intn(3)
		null := kzgSetup.Suite.G1().Point().Null
		p.Path = p.Path[:i]
		for j := 0; j <= n; j++ {
			p.Path = append(p.Path, &trie_kzg_bn256.ProofElement{C: null(), VectorIndex: []uint16{0, 256}[b2i(j == n)], Proof: null()})
		}
		p.Terminal = kzgSetup.Suite.G1().Scalar().Zero()
		return p, "null elements"
	case 20: // opening of another honest element
		j := t.Rng.Intn(len(h.Path))
		e.Proof = h.Path[j].Proof.Clone()
		return p, "opening of another element"
	case 21: // another honest index of the same node, with its opening
		n := s.nodeOf(e.C)
		vec := kzgVector(n)
		idx := t.Rng.Intn(258)
		for vec[idx] == nil {
			idx = (idx + 1) % 258
		}
		e.VectorIndex, e.Proof = uint16(idx), kzgOpening(kzgSetup, vec, idx)
		return p, fmt.Sprintf("element %d opened at index %d", i, idx)
	case 22: // opening plus an opening of zero elsewhere
		e.Proof = kzgSetup.Suite.G1().Point().Add(e.Proof, kzgOpening(kzgSetup, unitVector(t.Rng.Intn(258), kp.scalar(t)), t.Rng.Intn(258)))
		return p, "opening shifted"
	case 23: // terminal in the middle of the path
		if last > 0 {
			j := t.Rng.Intn(last)
			n := s.nodeOf(p.Path[j].C)
			vec := kzgVector(n)
			p.Path[j].VectorIndex, p.Path[j].Proof = 256, kzgOpening(kzgSetup, vec, 256)
			return p, "index of the terminal in the middle of the path, with its opening"
		}
		p.Path[0].VectorIndex = 257
		return p, "index 257 at the end"
	case 24: // two edits
		p.Terminal = kp.scalar(t)
		p.Path[last].Proof = kp.point(t)
		return p, "terminal and last opening replaced"
	default:
		switch t.Rng.Intn(4) {
		case 0:
			p.Key = nil
		case 1:
			p.Key = append(p.Key, byte(t.Rng.Intn(256)))
		case 2:
			p.Key = append([]byte(nil), h.Key...)
		case 3:
			p.Key = randBytes(t.Rng, t.Rng.Intn(5))
		}
		return p, "key renamed"
	}
}

func b2i(b bool) int {
	if b {
		return 1
	}
	return 0
}

func runC08(c *Ctx) {
	c.Cases("attack", 420*c.scale, func(t *T) {
		kp := newKzgPool(t, 3)
		for i := 0; i < 60; i++ {
			p, how := kp.attack(t)
			if t.Rng.Intn(6) == 0 {
				// through bytes
				q, err := trie_kzg_bn256.ProofOfInclusionFromBytes(p.Bytes())
				t.Check(err == nil, "%s: does not parse: %v", how, err)
				t.Check(bytes.Equal(q.Bytes(), p.Bytes()), "%s: changes by serialization", how)
				p = q
			}
			var value [][]byte
			if t.Rng.Intn(4) == 0 {
				value = [][]byte{kp.s.w.cur[string(kp.s.keys[t.Rng.Intn(len(kp.s.keys))])]}
			}
			kp.s.kzgJudge(t, p, value, func() string { return how })
			t.Count("attack: "+how[:minInt(len(how), 14)], 1)
		}
		// the honest ones are accepted, whatever was done to their copies
		for _, h := range kp.honest {
			root := kzgRoot(kp.s.w.tr)
			t.Check(h.Validate(root, kp.s.w.cur[string(h.Key)]) == nil, "honest proof of %x is rejected", h.Key)
		}
	})
	c.Cases("roots", 60*c.scale, func(t *T) {
		// honest proofs against everything which is nearly the root
		kp := newKzgPool(t, 3)
		g := kzgSetup.Suite.G1()
		bin := kp.s.root
		var roots []trie.VCommitment
		add := func(p kyber.Point) {
			if v, err := kp.s.w.tr.VectorCommitmentFromBytes(mustPoint(p)); err == nil {
				roots = append(roots, v)
			}
		}
		rp := kp.s.tree.root.point
		add(g.Point().Neg(rp))
		add(g.Point().Add(rp, rp))
		add(g.Point().Add(rp, g.Point().Base()))
		add(g.Point().Sub(rp, kzgSetup.LagrangeBasis[256]))
		for _, p := range kp.pts {
			add(p)
			add(g.Point().Add(rp, p))
		}
		for i := 0; i < 10; i++ {
			add(kp.point(t))
		}
		for _, h := range kp.honest {
			for _, e := range h.Path {
				add(e.C)
				add(e.Proof)
			}
			for _, root := range roots {
				if bytes.Equal(root.Bytes(), bin) {
					continue
				}
				for _, v := range [][][]byte{nil, {kp.s.w.cur[string(h.Key)]}} {
					var err error
					t.mustNot(func() string { return "Validate against another root" }, func() { err = h.Validate(root, v...) })
					t.Eval(1)
					t.Check(err != nil, "proof of %x is valid for root %s, the root is %x", h.Key, root, bin)
					t.Count("other roots refused", 1)
				}
			}
			t.Seen("roots", bin, h.Key)
		}
	})
	c.Cases("other-state", 250*c.scale, func(t *T) {
		// proofs of one state against the root of a state which differs in one pair
		kp := newKzgPool(t, 4)
		old := kp.s
		k := old.keys[t.Rng.Intn(len(old.keys))]
		switch t.Rng.Intn(3) {
		case 0:
			old.w.exec(Op{Kind: opDel, K: k})
		case 1:
			old.w.exec(Op{Kind: opSet, K: k, V: append([]byte{1}, old.w.cur[string(k)]...)})
		case 2:
			old.w.exec(Op{Kind: opSet, K: append(append([]byte{}, k...), 7), V: []byte{1}})
		}
		old.w.exec(Op{Kind: opPersist})
		s := stateOf(old.w)
		if s.tree.root == nil {
			for _, h := range kp.honest {
				t.Eval(1)
				t.Check(h.Validate(nil) != nil, "proof accepted with no root")
			}
			return
		}
		for _, h := range kp.honest {
			s.kzgJudge(t, h, nil, func() string { return "proof of another state" })
			// top of the new state, rest of the old one
			for _, k2 := range s.keys {
				if t.Rng.Intn(3) > 0 {
					continue
				}
				q := kzgHonest(s.tree, k2)
				for i := 1; i < len(q.Path); i++ {
					r := kzgCloneProof(q)
					r.Path = append(r.Path[:i:i], kzgCloneProof(h).Path[minInt(i, len(h.Path)-1):]...)
					r.Terminal = h.Terminal.Clone()
					s.kzgJudge(t, r, nil, func() string { return "tail of another state grafted" })
				}
			}
		}
	})
	c.Cases("confusion", 60*c.scale, c08Confusion)
	c.Cases("bytes", 160*c.scale, c08Bytes)
	c.Cases("malformed", 400*c.scale, func(t *T) {
		// parsed only: no pairing
		kp := newKzgPool(t, 1)
		b := kp.honest[0].Bytes()
		parse := func(x []byte, how string, args ...any) (p *trie_kzg_bn256.ProofOfInclusion, err error) {
			t.mustNot(func() string { return fmt.Sprintf(how, args...) }, func() { p, err = trie_kzg_bn256.ProofOfInclusionFromBytes(x) })
			t.Eval(1)
			return
		}
		for i := 0; i < len(b); i++ {
			_, err := parse(b[:i:i], "truncated at %d", i)
			t.Check(err != nil, "proof of %d bytes truncated at %d is parsed", len(b), i)
		}
		for i := 1; i < 6; i++ {
			_, err := parse(append(append([]byte{}, b...), randBytes(t.Rng, i)...), "extended by %d", i)
			t.Check(err != nil, "proof extended by %d bytes is parsed", i)
			_, err = parse(append(append([]byte{}, b...), make([]byte, 66*i)...), "extended by zeroes")
			t.Check(err != nil, "proof extended by zeroes is parsed")
		}
		klen := int(binary.LittleEndian.Uint16(b))
		off := 2 + klen
		// points that are not on the curve
		for i := range kp.honest[0].Path {
			at := off + 34 + i*130
			for _, o := range []int{at, at + 66} {
				x := append([]byte{}, b...)
				x[o+t.Rng.Intn(64)] ^= 1 << uint(t.Rng.Intn(8))
				_, err := parse(x, "bit of a point flipped")
				t.Check(err != nil, "a proof with an invalid curve point is parsed")
				copy(x[o:], randBytes(t.Rng, 64))
				_, err = parse(x, "random point")
				t.Check(err != nil, "a proof with random bytes in place of a curve point is parsed")
				copy(x[o:], bytes.Repeat([]byte{0xff}, 64))
				_, err = parse(x, "0xff point")
				t.Check(err != nil, "a proof with 0xff in place of a curve point is parsed")
				t.Count("invalid points refused", 3)
			}
		}
		// scalar out of the field
		x := append([]byte{}, b...)
		copy(x[off:], bytes.Repeat([]byte{0xff}, 32))
		if p, err := parse(x, "terminal out of the field"); err == nil {
			kp.s.kzgJudge(t, p, nil, func() string { return "terminal out of the field" })
		}
		// numbers of elements
		for _, n := range []int{len(kp.honest[0].Path) + 1, len(kp.honest[0].Path) - 1, 0xffff, 256} {
			x := append([]byte{}, b...)
			binary.LittleEndian.PutUint16(x[off+32:], uint16(n))
			_, err := parse(x, "number of elements %d", n)
			t.Check(err != nil, "a proof with a wrong number of elements is parsed")
		}
		t.Seen(b)
	})
	c.Witness("key-not-bound-to-path", func(t *T) {
		w := newWorld(t, Cfg{Arity: 256, KZG: true})
		w.exec(Op{Kind: opSet, K: []byte("abc"), V: []byte("v")})
		w.exec(Op{Kind: opPersist})
		s := stateOf(w)
		p := kzgHonest(s.tree, []byte("abc"))
		p.Key = []byte("xyz")
		t.Eval(1)
		t.Check(p.Validate(kzgRoot(w.tr), []byte("v")) != nil, "proof of key 'abc' re-labelled to the absent key 'xyz' validates")
	})
}

// c08Bytes mutates serialized proofs; what parses is judged
func c08Bytes(t *T) {
	kp := newKzgPool(t, 2)
	b := kp.honest[t.Rng.Intn(len(kp.honest))].Bytes()
	o := kp.honest[t.Rng.Intn(len(kp.honest))].Bytes()
	for i := 0; i < 150; i++ {
		x := append([]byte{}, b...)
		off := 2 + int(binary.LittleEndian.Uint16(b))
		switch t.Rng.Intn(6) {
		case 0:
			x = mutBytes(t, append([][]byte{}, b, o))
		case 1: // terminal
			x[off+t.Rng.Intn(32)] ^= 1 << uint(t.Rng.Intn(8))
		case 2: // index
			j := t.Rng.Intn((len(x) - off - 34) / 130)
			x[off+34+j*130+64+t.Rng.Intn(2)] = byte(t.Rng.Intn(256))
		case 3: // null point
			j := t.Rng.Intn((len(x) - off - 34) / 130)
			copy(x[off+34+j*130+66*t.Rng.Intn(2):][:64], make([]byte, 64))
		case 4: // points exchanged
			j, k := t.Rng.Intn((len(x)-off-34)/130), t.Rng.Intn((len(x)-off-34)/130)
			copy(x[off+34+j*130+66*t.Rng.Intn(2):][:64], b[off+34+k*130+66*t.Rng.Intn(2):][:64])
		case 5: // key length
			binary.LittleEndian.PutUint16(x, uint16(t.Rng.Intn(off+40)))
		}
		var p *trie_kzg_bn256.ProofOfInclusion
		var err error
		t.mustNot(func() string { return fmt.Sprintf("parse %x", x) }, func() { p, err = trie_kzg_bn256.ProofOfInclusionFromBytes(x) })
		t.Eval(1)
		if err != nil {
			t.Count("bytes refused", 1)
			continue
		}
		t.Count("bytes parsed", 1)
		kp.s.kzgJudge(t, p, nil, func() string { return fmt.Sprintf("parsed from %x", x) })
	}
}

var _ = trie.Size

// c08Confusion: values of the state are the bytes of commitments, so that terminals and children are the same scalars.
// Nodes which are not in the state are hung below such a terminal, and children are shown as values.
func c08Confusion(t *T) {
	g := kzgSetup.Suite.G1()
	w := newWorld(t, Cfg{Arity: 256, KZG: true})
	// the bottom of the own chain shows a terminal, every node above commits to the one below at some index
	own := kzgScalarOfHash(randBytes(t.Rng, 3))
	var chain []*trie_kzg_bn256.ProofElement
	next := own
	for i, n := 0, 1+t.Rng.Intn(3); i < n; i++ {
		vec := make([]kyber.Scalar, 258)
		idx := []int{t.Rng.Intn(256), 256}[b2i(i == 0 || t.Rng.Intn(4) == 0)]
		vec[idx] = next
		vec[257] = kzgScalarOfHash(blakeSum(32, randBytes(t.Rng, t.Rng.Intn(3))))
		c := g.Point().Null()
		for j, sc := range vec {
			if sc != nil {
				c.Add(c, g.Point().Mul(sc, kzgSetup.LagrangeBasis[j]))
			}
		}
		chain = append([]*trie_kzg_bn256.ProofElement{{C: c, VectorIndex: uint16(idx), Proof: kzgOpening(kzgSetup, vec, idx)}}, chain...)
		next = kzgScalarOfHash(mustPoint(c))
	}
	v := mustPoint(chain[0].C)
	k := randBytes(t.Rng, t.Rng.Intn(3))
	w.exec(Op{Kind: opSet, K: k, V: v})
	for i := t.Rng.Intn(6); i > 0; i-- {
		x := append(append([]byte{}, k[:t.Rng.Intn(len(k)+1)]...), randBytes(t.Rng, 1+t.Rng.Intn(2))...)
		if !bytes.Equal(x, k) {
			w.exec(Op{Kind: opSet, K: x, V: randBytes(t.Rng, 1+t.Rng.Intn(4))})
		}
	}
	w.exec(Op{Kind: opPersist})
	s := stateOf(w)
	p := kzgHonest(s.tree, k)
	p.Path = append(p.Path, chain...)
	p.Terminal = own
	for _, key := range [][]byte{k, append(append([]byte{}, k...), 1), append(append([]byte{}, k...), 1, 2, 3)} {
		q := kzgCloneProof(p)
		q.Key = key
		s.kzgJudge(t, q, nil, func() string { return "own nodes below a value which is a commitment" })
	}
	// and a child shown as a value: the value is the bytes of the commitment of the child
	for _, n := range s.tree.nodes {
		for c, ch := range n.Children {
			kids, _ := s.tree.walk(append(append([]byte{}, ch.Key...), ch.PF...))
			q := &trie_kzg_bn256.ProofOfInclusion{Key: append([]byte{}, ch.Key...), Terminal: kzgScalarOfHash(ch.Commit)}
			for i, m := range kids[:len(kids)-1] {
				idx := int(c)
				if i < len(kids)-2 {
					idx = int(kids[i+1].Key[len(kids[i+1].Key)-1])
				}
				q.Path = append(q.Path, &trie_kzg_bn256.ProofElement{C: m.point.Clone(), VectorIndex: uint16(idx), Proof: kzgOpening(kzgSetup, kzgVector(m), idx)})
			}
			s.kzgJudge(t, q, [][]byte{ch.Commit}, func() string { return "child shown as a value" })
			q.Path[len(q.Path)-1].VectorIndex = 256
			s.kzgJudge(t, q, [][]byte{ch.Commit}, func() string { return "child shown as a value, at the index of the terminal" })
		}
	}
	t.Check(kzgHonest(s.tree, k).Validate(kzgRoot(w.tr), v) == nil, "honest proof of %x is rejected", k)
}
