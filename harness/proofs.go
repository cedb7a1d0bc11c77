package main

import (
	"bytes"
	"fmt"
	"sort"

	"github.com/iotaledger/trie.go/models/trie_blake2b"
	"github.com/iotaledger/trie.go/models/trie_blake2b/trie_blake2b_verify"
	"github.com/iotaledger/trie.go/trie"
)

// state is a committed content with its canonical tree, the trie and a reader
type state struct {
	w     *World
	cfg   Cfg
	m     *trie_blake2b.CommitmentModel
	tree  *oTree
	root  []byte
	truth map[string][]byte // path -> committed data
	keys  [][]byte          // present keys
}

// stateBy builds a state by a random history (so that all node shapes occur), persisted
func stateBy(t *T, cfg Cfg, maxOps int) *state {
	p := newProfile(t.Rng, cfg)
	return stateByProfile(t, cfg, p, maxOps)
}

func stateByProfile(t *T, cfg Cfg, p *genProfile, maxOps int) *state {
	ops := history(t.Rng, p, cfg, histParams{minOps: 1, maxOps: maxOps, pDel: 20, pCommit: 5})
	w := runHistory(t, cfg, ops, func(w *World) {})
	return stateOf(w)
}

func stateOf(w *World) *state {
	s := &state{w: w, cfg: w.cfg, tree: buildTree(w.cur, w.cfg), truth: map[string][]byte{}}
	s.m, _ = w.model.(*trie_blake2b.CommitmentModel)
	s.root = s.tree.rootBytes()
	for _, p := range pairsOf(w.cur, w.cfg) {
		s.truth[string(p.path)] = p.data
	}
	for _, k := range sortedKeys(w.cur) {
		s.keys = append(s.keys, []byte(k))
	}
	return s
}

// probeKeys gives present and absent keys around the structure of the tree
func (s *state) probeKeys(t *T, n int) [][]byte {
	seen := map[string]bool{}
	var ret [][]byte
	add := func(k []byte) {
		if !seen[string(k)] {
			seen[string(k)] = true
			ret = append(ret, append([]byte(nil), k...))
		}
	}
	add(nil)
	for _, i := range t.Rng.Perm(len(s.keys)) {
		k := s.keys[i]
		add(k)
		if len(ret) > n/2 {
			break
		}
	}
	per := map[int]int{2: 8, 16: 2, 256: 1}[s.cfg.Arity]
	for len(ret) < n {
		before := len(ret)
		switch t.Rng.Intn(6) {
		case 0, 1: // ends at, or just after, a node
			if len(s.tree.nodes) > 0 {
				nd := s.tree.nodes[t.Rng.Intn(len(s.tree.nodes))]
				full := append(append([]byte{}, nd.Key...), nd.PF...)
				switch t.Rng.Intn(4) {
				case 0:
					full = full[:len(full)/per*per]
				case 1:
					full = append(full, byte(t.Rng.Intn(s.cfg.Arity)))
				case 2:
					full = append([]byte{}, nd.Key...)
				case 3:
					if len(full) > 0 {
						full[len(full)-1] ^= 1
					}
				}
				for len(full)%per != 0 {
					full = append(full, byte(t.Rng.Intn(s.cfg.Arity)))
				}
				add(oPack(full, s.cfg.Arity))
			}
		case 2:
			if len(s.keys) > 0 {
				k := s.keys[t.Rng.Intn(len(s.keys))]
				add(k[:t.Rng.Intn(len(k)+1)])
			}
		case 3:
			if len(s.keys) > 0 {
				k := s.keys[t.Rng.Intn(len(s.keys))]
				add(append(append([]byte{}, k...), []byte{0, 1, 0xff, byte(t.Rng.Intn(256))}[t.Rng.Intn(4)]))
			}
		case 4:
			if len(s.keys) > 0 {
				k := append([]byte{}, s.keys[t.Rng.Intn(len(s.keys))]...)
				if len(k) > 0 {
					k[t.Rng.Intn(len(k))] ^= 1 << uint(t.Rng.Intn(8))
					add(k)
				}
			}
		case 5:
			add(randBytes(t.Rng, t.Rng.Intn(5)))
		}
		if len(ret) == before && t.Rng.Intn(20) == 0 {
			break
		}
	}
	return ret
}

// oProofRoot recomputes the root from the fields of a proof, independently of the verifier
func oProofRoot(p *trie_blake2b.Proof, arity, hs int) []byte {
	var c []byte
	for i := len(p.Path) - 1; i >= 0; i-- {
		c = oElemHash(p.Path[i], c, i == len(p.Path)-1, arity, hs)
	}
	return c
}

func oElemHash(e *trie_blake2b.ProofElement, child []byte, last bool, arity, hs int) []byte {
	w := hs + 1
	buf := make([]byte, (arity+2)*w)
	for i, c := range e.Children {
		if int(i) < arity {
			copy(buf[int(i)*w:(int(i)+1)*w], c)
		}
	}
	if !last && e.ChildIndex >= 0 && e.ChildIndex < arity {
		copy(buf[e.ChildIndex*w:(e.ChildIndex+1)*w], child)
	}
	copy(buf[arity*w:(arity+1)*w], e.Terminal)
	copy(buf[(arity+1)*w:], oRaw(e.PathFragment, hs))
	return blakeSum(hs, buf)
}

func cloneProof(p *trie_blake2b.Proof) *trie_blake2b.Proof {
	q := &trie_blake2b.Proof{PathArity: p.PathArity, HashSize: p.HashSize, Key: append([]byte(nil), p.Key...)}
	for _, e := range p.Path {
		q.Path = append(q.Path, cloneElem(e))
	}
	return q
}

func cloneElem(e *trie_blake2b.ProofElement) *trie_blake2b.ProofElement {
	f := &trie_blake2b.ProofElement{PathFragment: append([]byte(nil), e.PathFragment...), ChildIndex: e.ChildIndex, Children: map[byte][]byte{}}
	if e.Terminal != nil {
		f.Terminal = append([]byte{}, e.Terminal...)
	}
	for i, c := range e.Children {
		f.Children[i] = append([]byte(nil), c...)
	}
	return f
}

func proofStr(p *trie_blake2b.Proof) string {
	s := fmt.Sprintf("key=%x arity=%d hs=%d", p.Key, int(p.PathArity)+1, p.HashSize)
	for _, e := range p.Path {
		if e == nil {
			s += " | nil"
			continue
		}
		ch := []int{}
		for i := range e.Children {
			ch = append(ch, int(i))
		}
		sort.Ints(ch)
		s += fmt.Sprintf(" | pf=%x idx=%d term=%x(nil=%v) ch=%v", e.PathFragment, e.ChildIndex, e.Terminal, e.Terminal == nil, ch)
	}
	if len(s) > 1500 {
		s = s[:1500] + ".."
	}
	return s
}

func proofsEqual(a, b *trie_blake2b.Proof) string {
	if a.PathArity != b.PathArity || a.HashSize != b.HashSize || !bytes.Equal(a.Key, b.Key) || len(a.Path) != len(b.Path) {
		return "header"
	}
	for i := range a.Path {
		x, y := a.Path[i], b.Path[i]
		if !bytes.Equal(x.PathFragment, y.PathFragment) {
			return fmt.Sprintf("path fragment of element %d", i)
		}
		if x.ChildIndex != y.ChildIndex {
			return fmt.Sprintf("child index of element %d", i)
		}
		if (x.Terminal == nil) != (y.Terminal == nil) || !bytes.Equal(x.Terminal, y.Terminal) {
			return fmt.Sprintf("terminal of element %d", i)
		}
		if len(x.Children) != len(y.Children) {
			return fmt.Sprintf("number of children of element %d: %d, %d", i, len(x.Children), len(y.Children))
		}
		for c := range x.Children {
			if !bytes.Equal(x.Children[c], y.Children[c]) {
				return fmt.Sprintf("child %d of element %d", c, i)
			}
		}
	}
	return ""
}

// checkProof checks completeness for one key over one view of the state
func (s *state) checkProof(t *T, key []byte, ns trie.NodeStore, where string) {
	path := oUnpack(key, s.cfg.Arity)
	nodes, ending := s.tree.walk(path)
	p := s.m.Proof(append([]byte(nil), key...), ns)
	t.Eval(1)
	t.Check(p != nil, "%s: no proof for key %x", where, key)
	t.Check(bytes.Equal(p.Key, path), "%s: proof for key %x names path %x", where, key, p.Key)
	t.Check(len(p.Path) == len(nodes), "%s: proof of key %x has %d elements, the path has %d nodes", where, key, len(p.Path), len(nodes))
	s.checkVerdict(t, key, path, p, ending, where)
	if len(nodes) > 0 {
		t.Check(bytes.Equal(oProofRoot(p, s.cfg.Arity, s.cfg.HS), s.root), "%s: proof of key %x does not recompute to the root by the definition: %s", where, key, proofStr(p))
		// sub-state
		last := nodes[len(nodes)-1]
		ct := trie_blake2b_verify.CommitmentToTheTerminalNode(p)
		t.Check(bytes.Equal(ct, last.Commit), "%s: commitment to the last node of the proof of %x is %x, want %x", where, key, ct, last.Commit)
		if t.Rng.Intn(6) == 0 {
			s.checkSubState(t, last, ct, where)
		}
	}
	b := p.Bytes()
	sz, err := trie.Size(p)
	t.Check(err == nil && sz == len(b) && trie.MustSize(p) == len(b), "%s: reported size %d (%v), serialized to %d bytes", where, sz, err, len(b))
	p2, err := trie_blake2b.ProofFromBytes(append([]byte(nil), b...))
	t.Check(err == nil, "%s: serialized proof of key %x does not parse: %v: %s", where, key, err, proofStr(p))
	if d := proofsEqual(p, p2); d != "" {
		t.Fail("%s: proof of key %x changes by serialization: %s: %s -> %s", where, key, d, proofStr(p), proofStr(p2))
	}
	t.Check(bytes.Equal(p2.Bytes(), b), "%s: proof bytes are not stable, key %x", where, key)
	s.checkVerdict(t, key, path, p2, ending, where+" (parsed)")
	// prefixed with the bytes of something else it does not parse to the same; streaming read leaves the rest
	rd := bytes.NewReader(append(append([]byte(nil), b...), 0xAA, 0xBB))
	var p3 trie_blake2b.Proof
	t.Check(p3.Read(rd) == nil && rd.Len() == 2, "%s: reading a proof from a stream consumes %d extra bytes", where, 2-rd.Len())
	t.Count(fmt.Sprintf("ending %d", ending), 1)
	t.Seen(s.cfg.String(), s.root, path)
}

func (s *state) checkVerdict(t *T, key, path []byte, p *trie_blake2b.Proof, ending oEnding, where string) {
	err := trie_blake2b_verify.Validate(p, s.root)
	t.Check(err == nil, "%s: honest proof of key %x is rejected: %v: %s", where, key, err, proofStr(p))
	k, term := trie_blake2b_verify.MustKeyWithTerminal(p)
	absent := trie_blake2b_verify.IsProofOfAbsence(p)
	if ending == endEmpty {
		t.Check(absent && term == nil, "%s: proof over an empty trie is not a proof of absence", where)
		t.Check(trie_blake2b_verify.ValidateWithValue(p, s.root, []byte{1}) != nil, "%s: value proven in an empty trie", where)
		t.Check(trie_blake2b_verify.Validate(p, randBytes(t.Rng, s.cfg.HS)) != nil, "%s: empty proof validates against a root", where)
		return
	}
	t.Check(bytes.Equal(k, path), "%s: proof of key %x reports key %x", where, key, k)
	if ending == endPresent {
		data := s.truth[string(path)]
		want := oRaw(data, s.cfg.HS)
		t.Check(!absent, "%s: proof of present key %x is a proof of absence", where, key)
		t.Check(bytes.Equal(term, want), "%s: proof of key %x shows value commitment %x, want %x", where, key, term, want)
		err = trie_blake2b_verify.ValidateWithValue(p, s.root, append([]byte(nil), data...))
		t.Check(err == nil, "%s: proof of key %x is rejected with its value %s: %v", where, key, hx(data), err)
		for i := 0; i < 4; i++ {
			other := mutateValue(t, data)
			if i == 3 && len(s.keys) > 0 {
				other = s.w.cur[string(s.keys[t.Rng.Intn(len(s.keys))])]
			}
			if bytes.Equal(oRaw(other, s.cfg.HS), want) {
				continue
			}
			t.Check(trie_blake2b_verify.ValidateWithValue(p, s.root, other) != nil, "%s: proof of key %x with value %s also proves value %s", where, key, hx(data), hx(other))
			t.Count("wrong values refused", 1)
		}
	} else {
		t.Check(absent && term == nil, "%s: proof of absent key %x is not a proof of absence (terminal %x)", where, key, term)
		t.Check(trie_blake2b_verify.ValidateWithValue(p, s.root, randBytes(t.Rng, 1+t.Rng.Intn(3))) != nil, "%s: a value is proven for absent key %x", where, key)
		t.Check(trie_blake2b_verify.ValidateWithValue(p, s.root, nil) != nil, "%s: empty value is proven for absent key %x", where, key)
		last := p.Path[len(p.Path)-1]
		if last.Terminal != nil {
			t.Check(trie_blake2b_verify.ValidateWithValue(p, s.root, last.Terminal) != nil, "%s: value of another key is proven for absent key %x", where, key)
		}
	}
	// wrong roots
	for i := 0; i < 2; i++ {
		r := append([]byte(nil), s.root...)
		switch t.Rng.Intn(4) {
		case 0:
			r[t.Rng.Intn(len(r))] ^= 1 << uint(t.Rng.Intn(8))
		case 1:
			r = r[:t.Rng.Intn(len(r))]
		case 2:
			r = append(r, 0)
		case 3:
			r = nil
		}
		t.Check(trie_blake2b_verify.Validate(p, r) != nil, "%s: proof of key %x validates against wrong root %x (right one %x)", where, key, r, s.root)
	}
}

// checkSubState: the pairs below a node, with the path to the node cut off, form a trie with the same root
func (s *state) checkSubState(t *T, n *oNode, ct []byte, where string) {
	per := map[int]int{2: 8, 16: 2, 256: 1}[s.cfg.Arity]
	if len(n.Key)%per != 0 {
		return
	}
	cfg := s.cfg
	cfg.Opt = false
	cfg.Thr = 0
	tr := trie.New(newModel(cfg), newMStore(), nil)
	cnt := 0
	for p, d := range s.truth {
		if bytes.HasPrefix([]byte(p), n.Key) {
			tr.Update(oPack([]byte(p)[len(n.Key):], s.cfg.Arity), d)
			cnt++
			if cnt > 60 {
				return
			}
		}
	}
	tr.Commit()
	t.Check(bytes.Equal(rootOf(tr), ct), "%s: commitment %x to the last node is not the root %x of the sub-state below %x", where, ct, rootOf(tr), n.Key)
	t.Count("sub-states rebuilt", 1)
}

func mutateValue(t *T, v []byte) []byte {
	r := t.Rng
	switch r.Intn(6) {
	case 0:
		return append(append([]byte{}, v...), byte(r.Intn(256)))
	case 1:
		if len(v) > 0 {
			return append([]byte{}, v[:len(v)-1]...)
		}
	case 2:
		if len(v) > 0 {
			x := append([]byte{}, v...)
			x[r.Intn(len(x))] ^= 1 << uint(r.Intn(8))
			return x
		}
	case 3:
		return randBytes(r, len(v))
	case 4:
		return append(append([]byte{}, v...), 0)
	case 5:
		return nil
	}
	return randBytes(r, 1+r.Intn(40))
}
