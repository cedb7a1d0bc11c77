package main

import (
	"bytes"
	"fmt"

	"github.com/iotaledger/trie.go/models/trie_kzg_bn256"
	"github.com/iotaledger/trie.go/trie"
)

func init() {
	register(&property{id: "C27",
		rule:  "A case is a random history of one trie into which calls are inserted which make no sense: a key commitment for the empty key, keys and values of types which are not bytes or strings, lookups of paths with units outside of the arity or below the last unit of the stored keys, commitments parsed from bytes of another length, persists of a trie with pending updates, proofs of one model asked for over a trie of another model. Each must be refused (by a panic or an error; a premature persist may be carried out instead), and the root, the nodes and the pending content must be as before, which is compared right after the call, at the next commit and in the whole store at the next persist. Distinct by (configuration, root, kind of the refused call).",
		assum: []string{"after a premature persist the store is not read until the next commit and persist"},
		run:   runC27})
}

type notBytes struct{ a, b byte }

// wrongTyped gives an argument which is neither bytes nor a string
func wrongTyped(t *T, like []byte) any {
	switch t.Rng.Intn(9) {
	case 0:
		return t.Rng.Intn(300)
	case 1:
		return byte(t.Rng.Intn(256))
	case 2:
		return notBytes{1, 2}
	case 3:
		return []int{1, 2}
	case 4:
		return [][]byte{like}
	case 5:
		return &like
	case 6:
		return true
	case 7:
		return map[string][]byte{"": like}
	default:
		return 1.5
	}
}

type misuse struct {
	t     *T
	w     *World
	cfg   Cfg
	other *trie.Trie // of another model
	dirty bool       // the store has got a premature persist
}

func (m *misuse) refused(kind, where string, f func()) {
	before := rootOf(m.w.tr)
	m.t.Logf("refused: %s", where)
	pan := catch(f)
	m.t.Check(pan != nil, "%s: %s is not refused", m.cfg, where)
	m.same(kind, where, before)
}

func (m *misuse) same(kind, where string, before []byte) {
	got := rootOf(m.w.tr)
	m.t.Eval(1)
	m.t.Check(bytes.Equal(got, before), "%s: %s has changed the root from %x to %x", m.cfg, where, before, got)
	// what a commit would give now
	if m.t.Rng.Intn(3) == 0 {
		cl := m.w.tr.Clone()
		cl.Commit()
		want := buildTree(m.w.cur, m.cfg).rootBytes()
		m.t.Check(bytes.Equal(rootOf(cl), want), "%s: after %s the pending content is not the same: root %x, want %x, content %s", m.cfg, where, rootOf(cl), want, contentStr(m.w.cur))
	}
	m.t.Count("refused: "+kind, 1)
	m.t.Seen(m.cfg.String(), before, kind)
}

func (m *misuse) call(keys [][]byte) {
	t, tr := m.t, m.w.tr
	k := keys[t.Rng.Intn(len(keys))]
	v := randBytes(t.Rng, 1+t.Rng.Intn(30))
	switch t.Rng.Intn(9) {
	case 0:
		var e []byte
		if t.Rng.Intn(2) == 0 {
			e = []byte{}
		}
		m.refused("empty key commitment", "key commitment for the empty key", func() { tr.InsertKeyCommitment(e) })
	case 1:
		x := wrongTyped(t, k)
		m.refused("type of key", fmt.Sprintf("update with a key of type %T", x), func() { tr.UpdateStr(x, v) })
	case 2:
		x := wrongTyped(t, v)
		m.refused("type of value", fmt.Sprintf("update of key %x with a value of type %T", k, x), func() { tr.UpdateStr(string(k), x) })
	case 3:
		x := wrongTyped(t, k)
		m.refused("type of deleted key", fmt.Sprintf("deletion of a key of type %T", x), func() { tr.DeleteStr(x) })
	case 4:
		// a path which no key has
		path := oUnpack(k, m.cfg.Arity)
		path = append([]byte{}, path[:t.Rng.Intn(len(path)+1)]...)
		what := "below the last unit of every key"
		if m.cfg.Arity < 256 && t.Rng.Intn(2) == 0 {
			bad := byte(m.cfg.Arity + t.Rng.Intn(256-m.cfg.Arity))
			if len(path) > 0 && t.Rng.Intn(2) == 0 {
				path[t.Rng.Intn(len(path))] = bad
			} else {
				path = append(path, bad)
			}
			what = "with a unit outside of the arity"
		} else {
			for i := 0; i < 40*8; i++ {
				path = append(path, byte(t.Rng.Intn(m.cfg.Arity)))
			}
		}
		before := rootOf(tr)
		var ok bool
		pan := catch(func() { _, ok = tr.GetNode(path) })
		t.Check(pan != nil || !ok, "%s: a node is found at path %x, %s", m.cfg, path, what)
		m.same("lookup "+what, fmt.Sprintf("lookup of path %x", path), before)
		if !m.dirty {
			rd := m.w.reader()
			pan = catch(func() { _, ok = rd.GetNode(path) })
			t.Check(pan != nil || !ok, "%s: reader: a node is found at path %x, %s", m.cfg, path, what)
		}
	case 5:
		before := rootOf(tr)
		size := len(commitBytesOf(tr, before))
		if size == 0 {
			return
		}
		for _, n := range []int{0, 1, size - 1, size + 1, 2 * size} {
			b := append([]byte{}, before...)
			for len(b) < n {
				b = append(b, before...)
			}
			var err error
			pan := catch(func() { _, err = tr.VectorCommitmentFromBytes(b[:n]) })
			t.Check(pan == nil && err != nil, "%s: commitment from %d bytes instead of %d: error %v, panic %v", m.cfg, n, size, err, pan)
		}
		m.same("length of commitment", "commitment from bytes of wrong length", before)
	case 6, 7:
		before := rootOf(tr)
		t.Logf("premature persist")
		m.dirty = true
		if pan := catch(func() { tr.PersistMutations(m.w.ts) }); pan != nil {
			t.Count("premature persists refused", 1)
		} else {
			t.Count("premature persists carried out", 1)
		}
		m.same("premature persist", "a persist before the commit", before)
	default:
		// proofs of inclusion of the polynomial model for tries which it can not prove
		if m.cfg.KZG || m.other == nil {
			var p *trie_kzg_bn256.ProofOfInclusion
			var ok bool
			before := rootOf(tr)
			o := trie.New(newModel(Cfg{Arity: 16, HS: 20}), trie.NewInMemoryKVStore(), nil)
			o.Update(k, v)
			o.Commit()
			pan := catch(func() { p, ok = trie_kzg_bn256.Model.ProofOfInclusion(k, o) })
			t.Check(pan != nil || !ok || p == nil, "%s: proof of the polynomial model for a trie of another arity", m.cfg)
			m.same("proof over other model", "proof over a trie of another model", before)
			return
		}
		var p *trie_kzg_bn256.ProofOfInclusion
		var ok bool
		before := rootOf(tr)
		pan := catch(func() { p, ok = trie_kzg_bn256.Model.ProofOfInclusion(k, tr) })
		t.Check(pan != nil || !ok || p == nil, "%s: proof of the polynomial model for a trie of the hash model", m.cfg)
		m.same("proof over other model", "proof of the polynomial model over the trie", before)
	}
}

// commitBytesOf gives the root's bytes again if they can be parsed
func commitBytesOf(tr *trie.Trie, root []byte) []byte {
	if len(root) == 0 {
		return nil
	}
	c, err := tr.VectorCommitmentFromBytes(root)
	if err != nil {
		return nil
	}
	return c.Bytes()
}

func misuseCase(t *T, cfg Cfg, maxOps int) {
	p := newProfile(t.Rng, cfg)
	if cfg.KZG {
		p = kzgProfile(t)
	} else if maxOps < 20 {
		p = &genProfile{hs: cfg.HS, thr: cfg.Thr, arity: cfg.Arity, alpha: alphabets[t.Rng.Intn(5)], lenMin: 0, lenMax: 3, pool: 3 + t.Rng.Intn(5)}
	}
	w := newWorld(t, cfg)
	m := &misuse{t: t, w: w, cfg: cfg}
	if t.Rng.Intn(2) == 0 {
		m.other = w.tr
	}
	keys := append(p.keys(t.Rng), []byte{1}, nil)
	ops := history(t.Rng, p, cfg, histParams{minOps: 4, maxOps: maxOps, pDel: 25, pCommit: 10 + t.Rng.Intn(16)})
	t.Sample("%s %s: %v", cfg, p.name, histString(ops[:minInt(len(ops), 8)]))
	persist := func() {
		w.exec(Op{Kind: opPersist})
		m.dirty = false
		w.checkStore("persist after refused calls")
	}
	for _, o := range ops {
		switch o.Kind {
		case opClear, opReopen, opPersistAgain:
			if m.dirty {
				persist()
			}
		}
		switch o.Kind {
		case opSet, opDel, opSetEmpty:
			keys = append(keys, o.K)
		}
		w.exec(o)
		if o.Kind == opPersist {
			m.dirty = false
			w.checkStore("persist after refused calls")
		}
		if !w.dirty && w.tree != nil {
			w.checkRoot(w.tr, "after refused calls")
		}
		for t.Rng.Intn(3) == 0 {
			m.call(keys)
		}
	}
	persist()
	w.checkRoot(w.tr, "at the end")
	rd := w.reader()
	w.checkRoot(rd, "reader at the end")
	w.checkNodes(rd, "reader at the end")
}

func runC27(c *Ctx) {
	c.Cases("histories", 9000*c.scale, func(t *T) { misuseCase(t, optCfg(t), 40) })
	c.Cases("tiny", 40000*c.scale, func(t *T) { misuseCase(t, optCfg(t), 14) })
	c.Cases("kzg", 60*c.scale, func(t *T) { misuseCase(t, Cfg{Arity: 256, KZG: true, Opt: t.n%2 == 0}, 12) })
	c.Cases("helpers", 200, func(t *T) {
		x := wrongTyped(t, []byte{1})
		if _, isByte := x.(byte); !isByte {
			t.Check(catch(func() { trie.Concat([]byte{1}, x) }) != nil, "concatenation with %T is not refused", x)
		}
		t.Check(catch(func() { trie.Assert(false, "%d", 1) }) != nil, "an assertion which does not hold passes")
		t.Check(catch(func() { trie.Assert(true, "%d", 1) }) == nil, "an assertion which holds does not pass")
		d := uint16(trie_kzg_bn256.FACTOR + 1 + t.Rng.Intn(100))
		t.Check(catch(func() { trie_kzg_bn256.GenRootOfUnityQuasiPrimitive(suiteBN, d) }) != nil, "roots of unity of degree %d are not refused", d)
		t.Eval(4)
		t.Seen("helpers", fmt.Sprintf("%T", x), d)
	})
}
