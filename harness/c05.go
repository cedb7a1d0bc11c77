package main

import (
	"bytes"
	"fmt"

	"github.com/iotaledger/trie.go/models/trie_blake2b"
	"github.com/iotaledger/trie.go/models/trie_blake2b/trie_blake2b_verify"
	"github.com/iotaledger/trie.go/trie"
)

func init() {
	register(&property{id: "C05",
		rule:  "A case builds a state by a random history and attacks its root with proof objects: every path of real nodes used as last element with every class of child index and a set of keys around the structure (exhaustive for small tries), honest proofs edited field by field, spliced, truncated, extended, relabelled, and byte-level edits of serialized proofs. The oracle compares what an accepted object states with the content. Distinct: attack objects by their fields and root; non-trivial: the object differs from the honest proof of its key.",
		assum: []string{"blake2b is collision-free on the inputs used", "an accepted object whose slots are equal to those of the real nodes only because of zero padding or value/hash ambiguity is attributed to the listed known findings"},
		run:   runC05})
}

// padSlot is what the commitment of a node contains for some data
func padSlot(raw []byte, hs int) string {
	b := make([]byte, hs+1)
	copy(b, raw)
	return string(b)
}

// ambiguous tells if the accepted proof follows the nodes of the tree slot by slot, but with fields which differ
// from the fields of the nodes. This is the known ambiguity of the slots and nothing else.
func (s *state) ambiguous(p *trie_blake2b.Proof) bool {
	n := s.tree.root
	differs := false
	for i, e := range p.Path {
		if n == nil {
			return false
		}
		if padSlot(oRaw(e.PathFragment, s.cfg.HS), s.cfg.HS) != padSlot(oRaw(n.PF, s.cfg.HS), s.cfg.HS) {
			return false
		}
		if !bytes.Equal(e.PathFragment, n.PF) {
			differs = true
		}
		var want []byte
		if n.Data != nil {
			want = oRaw(n.Data, s.cfg.HS)
		}
		if padSlot(e.Terminal, s.cfg.HS) != padSlot(want, s.cfg.HS) {
			return false
		}
		if !bytes.Equal(e.Terminal, want) {
			differs = true
		}
		if i < len(p.Path)-1 {
			if e.ChildIndex < 0 || e.ChildIndex >= s.cfg.Arity {
				return false
			}
			n = n.Children[byte(e.ChildIndex)]
		}
	}
	return differs
}

// attack validates a proof object and checks what it states when it is accepted. Returns true if accepted.
func (s *state) attack(t *T, p *trie_blake2b.Proof, how string) bool {
	var err error
	t.mustNot(func() string { return "Validate of " + how + " [" + proofStr(p) + "]" }, func() { err = trie_blake2b_verify.Validate(p, s.root) })
	t.Eval(1)
	t.Count("objects attacked", 1)
	if t.evals%16 == 0 {
		t.Seen(s.root, how, len(p.Path), p.Key, fmt.Sprint(int(p.PathArity), int(p.HashSize)), lastIdx(p))
	}
	// with a value: it must agree with the plain validation and with the content
	if t.Rng.Intn(8) == 0 || err == nil {
		val := randBytes(t.Rng, 3)
		if d, ok := s.truth[string(p.Key)]; ok && t.Rng.Intn(3) > 0 {
			val = d
		} else if len(s.keys) > 0 {
			val = s.w.cur[string(s.keys[t.Rng.Intn(len(s.keys))])]
		}
		var errv error
		t.mustNot(func() string { return "ValidateWithValue of " + how + " [" + proofStr(p) + "]" }, func() { errv = trie_blake2b_verify.ValidateWithValue(p, s.root, val) })
		if err != nil {
			t.Check(errv != nil, "%s: proof is invalid but valid with value %s: %s", how, hx(val), proofStr(p))
		}
		if errv == nil && !s.ambiguous(p) {
			d, ok := s.truth[string(p.Key)]
			t.Check(ok && bytes.Equal(oRaw(d, s.cfg.HS), oRaw(val, s.cfg.HS)), "%s: value %s is proven for key %x, the content has %s (present: %v): %s", how, hx(val), p.Key, hx(d), ok, proofStr(p))
		}
	}
	if err != nil {
		return false
	}
	t.Count("objects accepted", 1)
	var key, term []byte
	var absent bool
	t.mustNot(func() string { return "claims of accepted " + how + " [" + proofStr(p) + "]" }, func() {
		key, term = trie_blake2b_verify.MustKeyWithTerminal(p)
		absent = trie_blake2b_verify.IsProofOfAbsence(p)
		trie_blake2b_verify.CommitmentToTheTerminalNode(p)
	})
	t.Check(absent == (term == nil), "%s: absence %v with terminal %x", how, absent, term)
	if len(p.Path) == 0 {
		t.Check(len(s.truth) == 0 && absent, "%s: empty proof is accepted for non-empty content", how)
		return true
	}
	if s.ambiguous(p) {
		t.Count("objects attributed to known slot ambiguity", 1)
		return true
	}
	t.Check(bytes.Equal(key, p.Key), "%s: key %x reported, proof has %x", how, key, p.Key)
	d, present := s.truth[string(key)]
	if absent {
		t.Check(!present, "%s: FALSE ABSENCE accepted for present key %x with value %s: %s", how, key, hx(d), proofStr(p))
		t.Count("true absences", 1)
		return true
	}
	t.Check(present, "%s: FALSE INCLUSION accepted of absent key %x with terminal %x: %s", how, key, term, proofStr(p))
	t.Check(bytes.Equal(term, oRaw(d, s.cfg.HS)), "%s: FALSE VALUE accepted: key %x has commitment %x, shown %x: %s", how, key, oRaw(d, s.cfg.HS), term, proofStr(p))
	t.Count("true inclusions", 1)
	return true
}

func lastIdx(p *trie_blake2b.Proof) int {
	if len(p.Path) == 0 || p.Path[len(p.Path)-1] == nil {
		return -9
	}
	return p.Path[len(p.Path)-1].ChildIndex
}

func (s *state) elemOf(n *oNode, childIdx int) *trie_blake2b.ProofElement {
	e := &trie_blake2b.ProofElement{PathFragment: append([]byte(nil), n.PF...), ChildIndex: childIdx, Children: map[byte][]byte{}}
	if n.Data != nil {
		e.Terminal = oRaw(n.Data, s.cfg.HS)
	}
	for i, c := range n.Children {
		if int(i) != childIdx {
			e.Children[i] = append([]byte(nil), c.Commit...)
		}
	}
	return e
}

// lineage gives nodes from the root to n
func (s *state) lineage(n *oNode) []*oNode {
	nodes, _ := s.tree.walk(append(append([]byte{}, n.Key...), n.PF...))
	return nodes
}

// pathTo builds a proof along real nodes up to n; the last element gets childIdx
func (s *state) pathTo(n *oNode, childIdx int) *trie_blake2b.Proof {
	p := &trie_blake2b.Proof{PathArity: arityOf(s.cfg.Arity), HashSize: trie_blake2b.HashSize(s.cfg.HS)}
	ns := s.lineage(n)
	for i, x := range ns {
		idx := childIdx
		if i < len(ns)-1 {
			idx = int(ns[i+1].Key[len(ns[i+1].Key)-1])
		}
		p.Path = append(p.Path, s.elemOf(x, idx))
	}
	return p
}

// attackKeys gives unpacked keys (of any length) around the structure
func (s *state) attackKeys(t *T, limit int) [][]byte {
	seen := map[string]bool{}
	var ret [][]byte
	add := func(b []byte) {
		if !seen[string(b)] {
			seen[string(b)] = true
			ret = append(ret, append([]byte(nil), b...))
		}
	}
	u := func() byte { return byte(t.Rng.Intn(s.cfg.Arity)) }
	add(nil)
	add([]byte{u()})
	for _, i := range t.Rng.Perm(len(s.tree.nodes)) {
		n := s.tree.nodes[i]
		full := append(append([]byte{}, n.Key...), n.PF...)
		add(full)
		add(n.Key)
		add(append(append([]byte{}, full...), u()))
		add(append(append([]byte{}, full...), 0))
		for c := range n.Children {
			add(append(append([]byte{}, full...), c))
			add(append(append([]byte{}, full...), c, u()))
			break
		}
		if len(full) > 0 {
			x := append([]byte{}, full...)
			x[t.Rng.Intn(len(x))] = u()
			add(x)
			add(full[:t.Rng.Intn(len(full))])
		}
		if len(ret) > limit {
			break
		}
	}
	// a unit out of the range of the arity
	if len(ret) > 1 {
		add(append(append([]byte{}, ret[len(ret)-1]...), 255))
	}
	return ret
}

func (s *state) childIdxClasses(t *T, n *oNode, all bool) []int {
	a := s.cfg.Arity
	idx := []int{a, a + 1, a + 2, -1, 256, 257, 255, 1 << 16, -1 << 31, 1<<62 - 1}
	if all && a <= 16 {
		for i := 0; i < a; i++ {
			idx = append(idx, i)
		}
		return idx
	}
	for c := range n.Children {
		idx = append(idx, int(c))
		if len(idx) > 16 {
			break
		}
	}
	return append(idx, t.Rng.Intn(a), 0, a-1)
}

func forgeCase(t *T, maxOps, keyLimit int, cfg Cfg) {
	s := stateBy(t, cfg, maxOps)
	t.Logf("%s content %s", cfg, contentStr(s.w.cur))
	t.Sample("%s content %s", cfg, contentStr(s.w.cur))
	keys := s.attackKeys(t, keyLimit)
	nodes := s.tree.nodes
	if len(nodes) > 12 {
		nodes = nil
		for _, i := range t.Rng.Perm(len(s.tree.nodes))[:12] {
			nodes = append(nodes, s.tree.nodes[i])
		}
	}
	for _, n := range nodes {
		for _, idx := range s.childIdxClasses(t, n, true) {
			base := s.pathTo(n, idx)
			full := append(append([]byte{}, n.Key...), n.PF...)
			ks := keys
			if len(ks) > 14 {
				ks = nil
				for i := 0; i < 10; i++ {
					ks = append(ks, keys[t.Rng.Intn(len(keys))])
				}
			}
			ks = append(append([][]byte{}, ks...), full, n.Key, append(append([]byte{}, full...), byte(idx)))
			for c := range n.Children {
				ks = append(ks, append(append([]byte{}, full...), c))
				if t.Rng.Intn(3) == 0 {
					break
				}
			}
			for _, k := range ks {
				base.Key = k
				s.attack(t, base, fmt.Sprintf("path to node '%x' with index %d", n.Key, idx))
				// with all real children left in place (needed to keep the hash when the node really has one there)
				if _, has := n.Children[byte(idx)]; has && idx >= 0 && idx < s.cfg.Arity {
					q := *base
					q.Path = append([]*trie_blake2b.ProofElement{}, base.Path...)
					q.Path[len(q.Path)-1] = s.elemOf(n, -1)
					q.Path[len(q.Path)-1].ChildIndex = idx
					s.attack(t, &q, fmt.Sprintf("path to node '%x' with index %d and its child commitment", n.Key, idx))
				}
				if n.Data != nil && t.Rng.Intn(4) == 0 {
					q := *base
					q.Path = append([]*trie_blake2b.ProofElement{}, base.Path...)
					e := s.elemOf(n, idx)
					e.Terminal = nil
					q.Path[len(q.Path)-1] = e
					s.attack(t, &q, fmt.Sprintf("path to node '%x' with index %d without terminal", n.Key, idx))
				}
			}
		}
	}
}

func (s *state) honest(t *T, key []byte) *trie_blake2b.Proof {
	return cloneProof(s.m.Proof(key, s.w.tr))
}

// edit makes one random edit of the proof, returns its description
func (s *state) edit(t *T, p *trie_blake2b.Proof, pool []*trie_blake2b.Proof, keys [][]byte) string {
	r := t.Rng
	a := s.cfg.Arity
	if len(p.Path) == 0 {
		p.Path = append(p.Path, cloneElem(pool[r.Intn(len(pool))].Path[0]))
		return "element added to empty path"
	}
	i := r.Intn(len(p.Path))
	if r.Intn(2) == 0 {
		i = len(p.Path) - 1
	}
	e := p.Path[i]
	if e == nil {
		p.Path[i] = cloneElem(pool[0].Path[0])
		return "nil element replaced"
	}
	other := pool[r.Intn(len(pool))]
	oe := other.Path[r.Intn(len(other.Path))]
	switch r.Intn(30) {
	case 0, 1, 2:
		p.Key = append([]byte(nil), keys[r.Intn(len(keys))]...)
		return "key relabelled"
	case 3:
		p.Key = append([]byte(nil), other.Key...)
		return "key of another proof"
	case 4:
		if len(p.Key) > 0 {
			p.Key = p.Key[:r.Intn(len(p.Key))]
		}
		return "key truncated"
	case 5:
		p.Key = append(append([]byte(nil), p.Key...), byte(r.Intn(a)))
		return "key extended"
	case 6:
		if len(p.Key) > 0 {
			p.Key[r.Intn(len(p.Key))] = byte(r.Intn(a))
		}
		return "key unit changed"
	case 7, 8:
		ci := s.childIdxClasses(t, s.tree.nodes[r.Intn(len(s.tree.nodes))], false)
		e.ChildIndex = ci[r.Intn(len(ci))]
		return fmt.Sprintf("child index of element %d -> %d", i, e.ChildIndex)
	case 9:
		e.Terminal = nil
		return fmt.Sprintf("terminal of element %d removed", i)
	case 10:
		e.Terminal = []byte{}
		return fmt.Sprintf("terminal of element %d emptied", i)
	case 11:
		e.Terminal = append([]byte(nil), oe.Terminal...)
		return fmt.Sprintf("terminal of element %d taken from elsewhere", i)
	case 12:
		e.Terminal = randBytes(r, r.Intn(s.cfg.HS+6))
		return fmt.Sprintf("terminal of element %d random", i)
	case 13:
		if len(e.Terminal) > 0 {
			if r.Intn(2) == 0 {
				e.Terminal[r.Intn(len(e.Terminal))] ^= 1 << uint(r.Intn(8))
			} else {
				e.Terminal = e.Terminal[:len(e.Terminal)-1]
			}
		}
		return fmt.Sprintf("terminal of element %d changed", i)
	case 14:
		if len(e.PathFragment) > 0 {
			e.PathFragment = e.PathFragment[:r.Intn(len(e.PathFragment))]
		}
		return fmt.Sprintf("fragment of element %d cut", i)
	case 15:
		e.PathFragment = append(append([]byte(nil), e.PathFragment...), byte(1+r.Intn(a-1)))
		return fmt.Sprintf("fragment of element %d extended", i)
	case 16:
		if len(e.PathFragment) > 0 {
			e.PathFragment[r.Intn(len(e.PathFragment))] = byte(r.Intn(256))
		}
		return fmt.Sprintf("fragment of element %d changed", i)
	case 17:
		e.PathFragment = append([]byte(nil), oe.PathFragment...)
		return fmt.Sprintf("fragment of element %d taken from elsewhere", i)
	case 18:
		p.Path = p.Path[:i]
		return "path cut"
	case 19:
		p.Path = append(p.Path, cloneElem(oe))
		return "path extended"
	case 20:
		p.Path = append(p.Path[:i:i], append([]*trie_blake2b.ProofElement{cloneElem(e)}, p.Path[i:]...)...)
		return "element duplicated"
	case 21:
		p.Path = append(p.Path[:i:i], p.Path[i+1:]...)
		return "element removed"
	case 22:
		p.Path[i] = cloneElem(oe)
		return "element replaced"
	case 23:
		j := r.Intn(len(other.Path) + 1)
		np := append([]*trie_blake2b.ProofElement{}, p.Path[:i]...)
		for _, x := range other.Path[j:] {
			np = append(np, cloneElem(x))
		}
		p.Path = np
		return "tail spliced"
	case 24:
		for c := range e.Children {
			delete(e.Children, c)
			break
		}
		return fmt.Sprintf("child of element %d removed", i)
	case 25:
		e.Children[byte(r.Intn(a))] = randBytes(r, s.cfg.HS)
		return fmt.Sprintf("random child of element %d", i)
	case 26:
		for c := range e.Children {
			e.Children[byte(r.Intn(256))] = e.Children[c]
			break
		}
		return fmt.Sprintf("child of element %d copied", i)
	case 27:
		switch r.Intn(6) {
		case 0:
			p.PathArity = trie.PathArity([]int{1, 15, 255, 0, 2, 16, 254, 3}[r.Intn(8)])
		case 1:
			p.HashSize = trie_blake2b.HashSize([]int{20, 32, 0, 1, 255, 33, 64}[r.Intn(7)])
		case 2:
			p.Path[i] = nil
		case 3:
			e.Children[byte(r.Intn(a))] = randBytes(r, []int{0, 1, 19, 21, 31, 33, 34, 40}[r.Intn(8)])
		case 4:
			e.Children[byte(r.Intn(a))] = nil
		case 5:
			e.Children = map[byte][]byte{}
		}
		return "malformed"
	case 28:
		// the child commitment of the next element put back
		if i+1 < len(p.Path) && p.Path[i+1] != nil {
			e.Children[byte(e.ChildIndex)] = oElemHash(p.Path[i+1], nil, true, a, s.cfg.HS)
		}
		return "commitment of the next element restored"
	default:
		// swap two values: terminal of the last element with another state value
		e.Terminal = oRaw(s.w.cur[string(s.keys[r.Intn(len(s.keys))])], s.cfg.HS)
		return fmt.Sprintf("terminal of element %d = value of another key", i)
	}
}

func editCase(t *T, cfg Cfg, maxOps, n int) {
	s := stateBy(t, cfg, maxOps)
	t.Logf("%s content %s", cfg, contentStr(s.w.cur))
	if len(s.keys) == 0 {
		// only the empty proof holds
		p := &trie_blake2b.Proof{PathArity: arityOf(cfg.Arity), HashSize: trie_blake2b.HashSize(cfg.HS), Key: []byte{1}}
		s.attack(t, p, "empty proof")
		p.Path = []*trie_blake2b.ProofElement{{ChildIndex: cfg.Arity, Terminal: []byte{1}}}
		t.Check(!s.attack(t, p, "element over empty state"), "non-empty proof accepted for the empty state")
		return
	}
	var pool []*trie_blake2b.Proof
	for _, k := range s.probeKeys(t, 10) {
		pool = append(pool, s.honest(t, k))
	}
	keys := s.attackKeys(t, 30)
	for i := 0; i < n; i++ {
		p := cloneProof(pool[t.Rng.Intn(len(pool))])
		how := ""
		for j := 0; j < 1+t.Rng.Intn(3); j++ {
			if len(how) > 0 {
				how += ", "
			}
			how += s.edit(t, p, pool, keys)
			if hasNil(p) {
				break
			}
		}
		s.attack(t, p, how)
	}
	// the same proof against related roots
	for i := 0; i < 5; i++ {
		p := pool[t.Rng.Intn(len(pool))]
		for _, n := range s.lineage(s.tree.nodes[t.Rng.Intn(len(s.tree.nodes))]) {
			if !bytes.Equal(n.Commit, s.root) {
				t.Check(trie_blake2b_verify.Validate(p, n.Commit) != nil, "proof validates against the commitment of an inner node: %s", proofStr(p))
			}
			// the path from an inner node must not validate as a proof from the root
			if len(p.Path) > 1 {
				q := cloneProof(p)
				q.Path = q.Path[1:]
				s.attack(t, q, "first element removed")
				q.Key = q.Key[minInt(len(q.Key), len(p.Path[0].PathFragment)+1):]
				s.attack(t, q, "first element and its part of the key removed")
			}
		}
	}
}

// deepPlaces: proofs of many elements, edited at every place of the key and of the path in turn
func deepPlaces(t *T) {
	r := t.Rng
	cfg := allCfgs()[t.n%6]
	w := newWorld(t, cfg)
	n := 3 + r.Intn(map[int]int{256: 40, 16: 24, 2: 10}[cfg.Arity])
	base := fromAlpha(r, []byte{0, 0, 0xff, 0x10}, n)
	if r.Intn(2) == 0 {
		base = randBytes(r, n)
	}
	skip := r.Intn(4) // long fragments too, or a node at each place
	for i := 0; i <= n; i++ {
		if i == n || r.Intn(4) >= skip {
			w.exec(Op{Kind: opSet, K: base[:i], V: randBytes(r, 1+r.Intn(40))})
		}
		if i > 0 && r.Intn(3) > 0 {
			k := append([]byte{}, base[:i]...)
			k[i-1] ^= 1 << r.Intn(8)
			w.exec(Op{Kind: opSet, K: k, V: randBytes(r, 1+r.Intn(40))})
		}
	}
	w.exec(Op{Kind: opPersist})
	s := stateOf(w)
	ks := [][]byte{base, append(append([]byte{}, base...), 0), base[:len(base)-1], s.keys[r.Intn(len(s.keys))]}
	ks = append(ks, append([]byte{}, base...))
	ks[len(ks)-1][n-1] ^= 0x80
	for _, k := range ks {
		h := s.honest(t, k)
		t.Count("elements of deep proofs", len(h.Path))
		unit := func(old byte) byte {
			if r.Intn(2) == 0 {
				return old ^ 1
			}
			return byte((int(old) + 1 + r.Intn(cfg.Arity-1)) % cfg.Arity)
		}
		for i := range h.Key {
			p := cloneProof(h)
			p.Key[i] = unit(p.Key[i])
			s.attack(t, p, fmt.Sprintf("unit %d of the key changed", i))
			p = cloneProof(h)
			p.Key = append(p.Key[:i:i], p.Key[i+1:]...)
			s.attack(t, p, fmt.Sprintf("unit %d of the key removed", i))
			p = cloneProof(h)
			p.Key = append(append(append([]byte{}, h.Key[:i]...), byte(r.Intn(cfg.Arity))), h.Key[i:]...)
			s.attack(t, p, fmt.Sprintf("unit inserted in the key at %d", i))
			if i+1 < len(h.Key) {
				p = cloneProof(h)
				p.Key[i], p.Key[i+1] = p.Key[i+1], p.Key[i]
				s.attack(t, p, fmt.Sprintf("units %d and %d of the key swapped", i, i+1))
			}
		}
		pos := 0
		for i, e := range h.Path {
			at := pos + len(e.PathFragment)
			pos = at + 1
			for _, both := range []bool{false, true} { // the key follows the edit
				if e.ChildIndex >= 0 && e.ChildIndex < cfg.Arity && at < len(h.Key) {
					p := cloneProof(h)
					c := unit(byte(e.ChildIndex))
					p.Path[i].ChildIndex = int(c)
					if both {
						p.Key[at] = c
					}
					s.attack(t, p, fmt.Sprintf("child index of element %d changed", i))
				}
				if l := len(e.PathFragment); l > 0 && at <= len(h.Key) {
					p := cloneProof(h)
					j := r.Intn(l)
					c := unit(e.PathFragment[j])
					p.Path[i].PathFragment[j] = c
					if both {
						p.Key[at-l+j] = c
					}
					s.attack(t, p, fmt.Sprintf("fragment of element %d changed", i))
					p = cloneProof(h)
					p.Path[i].PathFragment = append(append([]byte{}, e.PathFragment[:j]...), e.PathFragment[j+1:]...)
					if both {
						p.Key = append(append([]byte{}, h.Key[:at-l+j]...), h.Key[at-l+j+1:]...)
					}
					s.attack(t, p, fmt.Sprintf("unit of the fragment of element %d removed", i))
				}
			}
			for c := range e.Children {
				p := cloneProof(h)
				p.Path[i].Children[c][r.Intn(cfg.HS)] ^= 1 << r.Intn(8)
				s.attack(t, p, fmt.Sprintf("child of element %d changed", i))
				p = cloneProof(h)
				delete(p.Path[i].Children, c)
				s.attack(t, p, fmt.Sprintf("child of element %d removed", i))
				break
			}
			if len(e.Terminal) > 0 {
				p := cloneProof(h)
				p.Path[i].Terminal[r.Intn(len(e.Terminal))] ^= 1 << r.Intn(8)
				s.attack(t, p, fmt.Sprintf("terminal of element %d changed", i))
				p = cloneProof(h)
				p.Path[i].Terminal = nil
				s.attack(t, p, fmt.Sprintf("terminal of element %d removed", i))
			}
			p := cloneProof(h)
			p.Path = append(p.Path[:i:i], p.Path[i+1:]...)
			s.attack(t, p, fmt.Sprintf("element %d removed", i))
			p = cloneProof(h)
			p.Path = p.Path[:i+1]
			for _, idx := range []int{p.Path[i].ChildIndex, cfg.Arity, cfg.Arity + 1} {
				p.Path[i].ChildIndex = idx
				s.attack(t, p, fmt.Sprintf("path cut after element %d, index %d", i, idx))
			}
		}
	}
}

// rootsCase: honest proofs against everything which is nearly the root
func rootsCase(t *T) {
	r := t.Rng
	cfg := allCfgs()[t.n%6]
	s := stateBy(t, cfg, 20)
	if s.tree.root == nil {
		return
	}
	t.Logf("%s content %s", cfg, contentStr(s.w.cur))
	var roots [][]byte
	for i := range s.root {
		b := append([]byte{}, s.root...)
		b[i] ^= 1 << r.Intn(8)
		roots = append(roots, b, s.root[:i], s.root[i:len(s.root):len(s.root)][1:])
		b = append([]byte{}, s.root[:i]...)
		roots = append(roots, append(b, randBytes(r, cfg.HS-i)...), append(append([]byte{}, s.root[:i]...), make([]byte, cfg.HS-i)...))
	}
	roots = append(roots, nil, append(append([]byte{}, s.root...), 0), append([]byte{0}, s.root...), append(append([]byte{}, s.root...), s.root...), append(append([]byte{}, s.root...), make([]byte, 32-cfg.HS)...))
	for _, hs := range []int{20, 32} {
		if hs != cfg.HS {
			if other := buildTree(s.w.cur, Cfg{Arity: cfg.Arity, HS: hs, Opt: cfg.Opt}); other.root != nil {
				roots = append(roots, other.root.Commit, append(append([]byte{}, other.root.Commit...), make([]byte, 12)...)[:cfg.HS])
			}
		}
	}
	for _, k := range s.probeKeys(t, 4) {
		p := s.honest(t, k)
		for _, root := range roots {
			if bytes.Equal(root, s.root) {
				continue
			}
			var err error
			t.mustNot(func() string { return "Validate against another root: " + proofStr(p) }, func() { err = trie_blake2b_verify.Validate(p, root) })
			t.Eval(1)
			t.Check(err != nil, "%s: proof of %x is valid for %x, the root is %x", cfg, k, root, s.root)
			if v, ok := s.w.cur[string(k)]; ok {
				t.mustNot(func() string { return "ValidateWithValue against another root: " + proofStr(p) }, func() { err = trie_blake2b_verify.ValidateWithValue(p, root, []byte(v)) })
				t.Check(err != nil, "%s: proof of %x with value is valid for %x, the root is %x", cfg, k, root, s.root)
			}
			t.Count("other roots refused", 1)
		}
		t.Seen("roots", cfg.String(), s.root, k)
	}
}

func hasNil(p *trie_blake2b.Proof) bool {
	for _, e := range p.Path {
		if e == nil {
			return true
		}
	}
	return false
}

func bytesCase(t *T, cfg Cfg, maxOps, n int) {
	s := stateBy(t, cfg, maxOps)
	t.Logf("%s content %s", cfg, contentStr(s.w.cur))
	var pool [][]byte
	for _, k := range s.probeKeys(t, 8) {
		pool = append(pool, s.honest(t, k).Bytes())
	}
	for i := 0; i < n; i++ {
		b := mutBytes(t, pool)
		var p *trie_blake2b.Proof
		var err error
		t.mustNot(func() string { return fmt.Sprintf("ProofFromBytes(%x)", b) }, func() { p, err = trie_blake2b.ProofFromBytes(append([]byte(nil), b...)) })
		t.Count("byte objects", 1)
		if err != nil {
			t.Count("byte objects refused by the parser", 1)
			continue
		}
		s.attack(t, p, "parsed bytes")
	}
}

// mutBytes edits one of the byte strings
func mutBytes(t *T, pool [][]byte) []byte {
	r := t.Rng
	b := append([]byte(nil), pool[r.Intn(len(pool))]...)
	for j := 0; j < 1+r.Intn(3); j++ {
		if len(b) == 0 {
			return append(b, byte(r.Intn(256)))
		}
		i := r.Intn(len(b))
		if r.Intn(3) == 0 {
			i = r.Intn(minInt(len(b), 12))
		}
		switch r.Intn(9) {
		case 0:
			b[i] ^= 1 << uint(r.Intn(8))
		case 1:
			b[i] = byte(r.Intn(256))
		case 2:
			b = append(b[:i], b[i+1:]...)
		case 3:
			b = append(b[:i:i], append([]byte{byte(r.Intn(256))}, b[i:]...)...)
		case 4:
			b = b[:i]
		case 5:
			o := pool[r.Intn(len(pool))]
			if len(o) > 0 {
				b = append(b[:i:i], o[r.Intn(len(o)):]...)
			}
		case 6:
			b[i]++
		case 7:
			b[i]--
		case 8:
			b[i] = []byte{0, 1, 2, 0x0f, 0x10, 0x11, 0xff, 0xfe, 0x7f, 0x80}[r.Intn(10)]
		}
	}
	return b
}

func runC05(c *Ctx) {
	c.Cases("forge", 6000*c.scale, func(t *T) { forgeCase(t, 10, 24, allCfgs()[t.n%6]) })
	c.Cases("forge-deep", 1500*c.scale, func(t *T) { forgeCase(t, 60, 60, allCfgs()[t.n%6]) })
	c.Cases("edit", 8000*c.scale, func(t *T) { editCase(t, allCfgs()[t.n%6], 30, 150) })
	c.Cases("edit-tiny", 15000*c.scale, func(t *T) { editCase(t, allCfgs()[t.n%6], 5, 60) })
	c.Cases("bytes", 6000*c.scale, func(t *T) { bytesCase(t, allCfgs()[t.n%6], 25, 200) })
	c.Cases("shift", 8000*c.scale, shiftCase)
	c.Cases("no-path", 600*c.scale, func(t *T) {
		// a proof without elements says nothing and is valid for no root of a state
		cfg := allCfgs()[t.n%6]
		s := stateBy(t, cfg, 3)
		roots := [][]byte{{0}, make([]byte, cfg.HS), make([]byte, 20), make([]byte, 32), bytes.Repeat([]byte{0xff}, cfg.HS), randBytes(t.Rng, 1+t.Rng.Intn(40)), blakeSum(cfg.HS, nil), s.root, append(append([]byte{}, s.root...), 0)}
		for _, root := range roots {
			for i, path := range [][]*trie_blake2b.ProofElement{nil, {}} {
				if len(root) == 0 {
					continue
				}
				p := &trie_blake2b.Proof{PathArity: arityOf(cfg.Arity), HashSize: trie_blake2b.HashSize(cfg.HS), Path: path}
				if i == 0 {
					p.Key = randBytes(t.Rng, t.Rng.Intn(4))
				}
				var err error
				t.mustNot(func() string { return "empty proof" }, func() { err = trie_blake2b_verify.Validate(p, root) })
				t.Eval(1)
				t.Check(err != nil, "%s: FALSE ABSENCE: a proof without elements is valid for root %x", cfg, root)
				t.mustNot(func() string { return "empty proof" }, func() { err = trie_blake2b_verify.ValidateWithValue(p, root, nil) })
				t.Check(err != nil, "%s: a proof without elements is valid with a value for root %x", cfg, root)
				t.Count("proofs without elements refused", 1)
			}
		}
		t.Seen("no path", cfg.String(), s.root)
	})
	c.Cases("deep-places", 120*c.scale, deepPlaces)
	c.Cases("roots", 1200*c.scale, rootsCase)
	c.Witness("terminal-trailing-zero", func(t *T) {
		cfg := Cfg{Arity: 16, HS: 20}
		w := newWorld(t, cfg)
		w.exec(Op{Kind: opSet, K: []byte("k"), V: []byte{1}})
		w.exec(Op{Kind: opPersist})
		s := stateOf(w)
		p := s.honest(t, []byte("k"))
		p.Path[0].Terminal = []byte{1, 0}
		t.Eval(1)
		t.Check(trie_blake2b_verify.ValidateWithValue(p, s.root, []byte{1, 0}) != nil, "a proof of value 01 edited to show value 0100 validates")
	})
	c.Witness("path-fragment-trailing-zero", func(t *T) {
		cfg := Cfg{Arity: 256, HS: 32}
		w := newWorld(t, cfg)
		w.exec(Op{Kind: opSet, K: []byte("k"), V: []byte{1}})
		w.exec(Op{Kind: opPersist})
		s := stateOf(w)
		p := s.honest(t, []byte("k"))
		p.Key = []byte("k\x00")
		p.Path[0].PathFragment = []byte("k\x00")
		t.Eval(1)
		t.Check(trie_blake2b_verify.ValidateWithValue(p, s.root, []byte{1}) != nil, "a proof of key 'k' edited to key 'k\\x00' validates")
	})
	c.Witness("path-fragment-replaced-by-its-hash", func(t *T) {
		cfg := Cfg{Arity: 256, HS: 32}
		w := newWorld(t, cfg)
		k := bytes.Repeat([]byte("key"), 20)
		w.exec(Op{Kind: opSet, K: k, V: []byte{1}})
		w.exec(Op{Kind: opPersist})
		s := stateOf(w)
		p := s.honest(t, k)
		h := blakeSum(32, k)
		p.Key, p.Path[0].PathFragment = h, h
		t.Eval(1)
		t.Check(trie_blake2b_verify.ValidateWithValue(p, s.root, []byte{1}) != nil, "a proof of a key longer than the hash edited to the hash of the key validates")
	})
	c.Witness("terminal-zero-dropped", func(t *T) {
		cfg := Cfg{Arity: 16, HS: 20}
		w := newWorld(t, cfg)
		w.exec(Op{Kind: opSet, K: []byte("k"), V: []byte{0}})
		w.exec(Op{Kind: opPersist})
		s := stateOf(w)
		p := s.honest(t, []byte("k"))
		p.Path[0].Terminal = nil
		t.Eval(1)
		t.Check(trie_blake2b_verify.Validate(p, s.root) != nil, "a proof of value 00 edited to show absence validates")
	})
}

// shiftCase: units moved between key, fragments and child indices of neighbouring elements
func shiftCase(t *T) {
	cfg := allCfgs()[t.n%6]
	s := stateBy(t, cfg, 30)
	t.Logf("%s content %s", cfg, contentStr(s.w.cur))
	if len(s.keys) == 0 {
		return
	}
	for i := 0; i < 40; i++ {
		k := s.keys[t.Rng.Intn(len(s.keys))]
		p := s.honest(t, k)
		j := t.Rng.Intn(len(p.Path))
		e := p.Path[j]
		switch t.Rng.Intn(7) {
		case 0: // two elements merged into one fragment
			if j+1 < len(p.Path) {
				n := p.Path[j+1]
				e.PathFragment = append(append(append([]byte{}, e.PathFragment...), byte(e.ChildIndex)), n.PathFragment...)
				e.ChildIndex = n.ChildIndex
				e.Children = n.Children
				p.Path = append(p.Path[:j+1], p.Path[j+2:]...)
			}
		case 1: // fragment unit moved to the child index
			if len(e.PathFragment) > 0 {
				e.ChildIndex = int(e.PathFragment[len(e.PathFragment)-1])
				e.PathFragment = e.PathFragment[:len(e.PathFragment)-1]
			}
		case 2: // key shortened by the part of the first element
			p.Key = p.Key[minInt(len(p.Key), len(e.PathFragment)):]
		case 3: // last element dropped, its index kept
			p.Path = p.Path[:len(p.Path)-1]
			if len(p.Path) > 0 {
				l := p.Path[len(p.Path)-1]
				switch t.Rng.Intn(3) {
				case 0:
					l.ChildIndex = cfg.Arity
				case 1:
					l.ChildIndex = cfg.Arity + 1
				}
			}
		case 4: // last index to any of the classes, key to any of the nodes
			l := p.Path[len(p.Path)-1]
			l.ChildIndex = cfg.Arity + t.Rng.Intn(2)
			n := s.tree.nodes[t.Rng.Intn(len(s.tree.nodes))]
			p.Key = append(append([]byte{}, n.Key...), n.PF...)
		case 5: // terminal of an inner element as if the key ended there
			p.Path = p.Path[:j+1]
			if e.ChildIndex >= 0 && e.ChildIndex < cfg.Arity && j+1 <= len(p.Path) {
				nodes, _ := s.tree.walk(oUnpack(k, cfg.Arity))
				if j+1 < len(nodes) {
					e.Children[byte(e.ChildIndex)] = nodes[j+1].Commit
				}
			}
			e.ChildIndex = []int{cfg.Arity, cfg.Arity + 1, e.ChildIndex}[t.Rng.Intn(3)]
		case 6: // same key with units appended or removed at the end
			if t.Rng.Intn(2) == 0 {
				p.Key = append(append([]byte{}, p.Key...), byte(t.Rng.Intn(cfg.Arity)))
			} else if len(p.Key) > 0 {
				p.Key = p.Key[:len(p.Key)-1]
			}
		}
		s.attack(t, p, "shifted")
	}
}
