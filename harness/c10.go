package main

import (
	"bytes"
	"encoding/binary"
	"fmt"

	"github.com/iotaledger/trie.go/trie"
)

func init() {
	register(&property{id: "C10",
		rule:  "Small domains are exhausted (all unit sequences and all byte strings up to a length, all combinations of node features), larger ones are sampled: encodings, decodings, packings, serialized nodes, commitments and length-prefixed fields are compared byte by byte with an independent codec, inverted, and checked for collisions. Distinct by the encoded object.",
		assum: []string{"the documented layouts are the ones of README, node data comments and the field functions"},
		run:   runC10})
}

// checkSeq checks one sequence of units: encoding, packing and their inverses
func checkSeq(t *T, u []byte, arity int) []byte {
	a := arityOf(arity)
	in := append([]byte(nil), u...)
	var enc, packed, dec []byte
	var err error
	t.mustNot(func() string { return fmt.Sprintf("encode %x arity %d", u, arity) }, func() { enc, err = trie.EncodeUnpackedBytes(in, a) })
	t.Check(err == nil, "arity %d: sequence %x is not encoded: %v", arity, u, err)
	t.Check(bytes.Equal(enc, oEncode(u, arity)), "arity %d: sequence %x is encoded as %x, want %x", arity, u, enc, oEncode(u, arity))
	t.Check(bytes.Equal(in, u), "arity %d: encoding changed its argument %x", arity, u)
	enc = append([]byte(nil), enc...)
	t.mustNot(func() string { return fmt.Sprintf("decode %x arity %d", enc, arity) }, func() { dec, err = trie.DecodeToUnpackedBytes(enc, a) })
	t.Check(err == nil && bytes.Equal(dec, u), "arity %d: sequence %x is encoded as %x and decoded as %x (%v)", arity, u, enc, dec, err)
	packed, err = trie.PackUnpackedBytes(in, a)
	t.Check(err == nil && bytes.Equal(packed, oPack(u, arity)), "arity %d: sequence %x is packed as %x, want %x (%v)", arity, u, packed, oPack(u, arity), err)
	t.Eval(3)
	return enc
}

// checkDec checks decoding of arbitrary bytes
func checkDec(t *T, b []byte, arity int) bool {
	a := arityOf(arity)
	in := append([]byte(nil), b...)
	want, ok := oDecode(b, arity)
	var dec []byte
	var err error
	t.mustNot(func() string { return fmt.Sprintf("decode %x arity %d", b, arity) }, func() { dec, err = trie.DecodeToUnpackedBytes(in, a) })
	t.Eval(1)
	if !ok {
		t.Check(err != nil, "arity %d: non-canonical encoding %x is decoded as %x", arity, b, dec)
		return false
	}
	t.Check(err == nil && bytes.Equal(dec, want), "arity %d: %x is decoded as %x (%v), want %x", arity, b, dec, err, want)
	enc, err := trie.EncodeUnpackedBytes(dec, a)
	t.Check(err == nil && bytes.Equal(enc, b), "arity %d: %x decodes to %x which encodes to %x", arity, b, dec, enc)
	return true
}

func checkKey(t *T, k []byte, arity int) {
	a := arityOf(arity)
	in := append([]byte(nil), k...)
	u := trie.UnpackBytes(in, a)
	t.Check(bytes.Equal(u, oUnpack(k, arity)), "arity %d: key %x is unpacked to %x", arity, k, u)
	p, err := trie.PackUnpackedBytes(u, a)
	t.Check(err == nil && bytes.Equal(p, k), "arity %d: key %x is unpacked and packed to %x (%v)", arity, k, p, err)
	t.Check(bytes.Equal(in, k), "unpacking changed the key")
	if len(u) > 0 {
		u[0] ^= 1
		t.Check(bytes.Equal(in, k), "arity %d: result of unpacking shares memory with the key", arity)
	}
	t.Eval(2)
}

func allSeqs(arity, n int, f func(u []byte)) {
	u := make([]byte, n)
	for {
		f(u)
		i := n - 1
		for ; i >= 0; i-- {
			if int(u[i])+1 < arity {
				u[i]++
				break
			}
			u[i] = 0
		}
		if i < 0 {
			return
		}
	}
}

// randTerm is random terminal data of every size class
func randTermData(t *T, cfg Cfg) []byte {
	switch t.Rng.Intn(6) {
	case 0:
		return nil
	case 1:
		return randBytes(t.Rng, 1+t.Rng.Intn(3))
	case 2:
		return randBytes(t.Rng, max(1, cfg.HS-1+t.Rng.Intn(3)))
	case 3:
		return randBytes(t.Rng, max(1, cfg.Thr-1+t.Rng.Intn(3)))
	case 4:
		return bytes.Repeat([]byte{0}, 1+t.Rng.Intn(40))
	}
	return randBytes(t.Rng, 1+t.Rng.Intn(100))
}

// nodeCase: node data with a combination of features is written, compared with the documented layout and read back
func nodeCase(t *T, cfg Cfg, key, pf, data []byte, isKey, skip bool, children []byte) {
	model := newModel(cfg)
	a := arityOf(cfg.Arity)
	nd := trie.NewNodeData()
	nd.PathFragment = append([]byte(nil), pf...)
	full := append(append([]byte{}, key...), pf...)
	vs := newMStore()
	if data != nil {
		if isKey {
			data = full
		}
		nd.Terminal = model.CommitToData(append([]byte(nil), data...))
		vs.Set(oPack(full, cfg.Arity), data)
	}
	cc := map[byte][]byte{}
	for _, i := range children {
		var c trie.VCommitment
		if cfg.KZG {
			c = kzgChild(t)
		} else {
			b := randBytes(t.Rng, cfg.HS)
			var err error
			c = model.NewVectorCommitment()
			err = c.Read(bytes.NewReader(b))
			t.Check(err == nil, "commitment is not read: %v", err)
		}
		nd.ChildCommitments[i] = c
		cc[i] = c.Bytes()
	}
	what := func() string {
		return fmt.Sprintf("%s key=%x pf=%s data=%s isKey=%v skip=%v children=%d", cfg, key, hx(pf), hx(data), isKey, skip, len(children))
	}
	var w bytes.Buffer
	var err error
	t.mustNot(func() string { return "Write: " + what() }, func() { err = nd.Write(&w, a, isKey, skip) })
	t.Eval(1)
	if data == nil && len(children) == 0 {
		t.Check(err != nil, "%s: a node which commits to nothing is serialized", what())
		return
	}
	t.Check(err == nil, "%s: node is not serialized: %v", what(), err)
	// documented layout
	var want bytes.Buffer
	var fl byte
	if data != nil {
		fl |= fTerm
		if skip {
			fl |= fValue
		}
		if isKey {
			fl |= fKey
		}
	}
	if len(children) > 0 {
		fl |= fChildren
	}
	if len(pf) > 0 {
		fl |= fPF
	}
	want.WriteByte(fl)
	if len(pf) > 0 {
		e := oEncode(pf, cfg.Arity)
		_ = binary.Write(&want, binary.LittleEndian, uint16(len(e)))
		want.Write(e)
	}
	if data != nil && !skip && !isKey {
		want.Write(oTermBytes(data, cfg))
	}
	if len(children) > 0 {
		sz := max(1, cfg.Arity/8)
		flags := make([]byte, sz)
		for i := range cc {
			flags[i/8] |= 1 << (i % 8)
		}
		want.Write(flags)
		for i := 0; i < 256; i++ {
			if c, ok := cc[byte(i)]; ok {
				want.Write(c)
			}
		}
	}
	t.Check(bytes.Equal(w.Bytes(), want.Bytes()), "%s: node is serialized to %x, want %x", what(), w.Bytes(), want.Bytes())
	// back
	var back *trie.NodeData
	b := append([]byte(nil), w.Bytes()...)
	t.mustNot(func() string { return "NodeDataFromBytes: " + what() }, func() { back, err = trie.NodeDataFromBytes(model, b, key, a, vs) })
	t.Check(err == nil, "%s: serialized node is not read: %v", what(), err)
	t.Check(bytes.Equal(back.PathFragment, pf), "%s: path fragment is read as %x", what(), back.PathFragment)
	t.Check(model.EqualCommitments(back.Terminal, nd.Terminal), "%s: terminal is read as %v", what(), back.Terminal)
	t.Check(len(back.ChildCommitments) == len(cc), "%s: %d children are read", what(), len(back.ChildCommitments))
	for i, c := range cc {
		x, ok := back.ChildCommitments[i]
		t.Check(ok && bytes.Equal(x.Bytes(), c), "%s: child %d is read as %v", what(), i, x)
	}
	var w2 bytes.Buffer
	err = back.Write(&w2, a, isKey, skip)
	t.Check(err == nil && bytes.Equal(w2.Bytes(), b), "%s: node changes by reading and writing", what())
	c1, c2 := model.CalcNodeCommitment(nd), model.CalcNodeCommitment(back)
	t.Check(bytes.Equal(c1.Bytes(), c2.Bytes()), "%s: the node read back has another commitment", what())
	// from a stream: exactly its bytes are consumed
	rd := bytes.NewReader(append(append([]byte(nil), b...), 0xAA, 0xBB, 0xCC))
	nd2 := trie.NewNodeData()
	err = nd2.Read(rd, model, key, a, vs)
	t.Check(err == nil && rd.Len() == 3, "%s: reading from a stream leaves %d of 3 following bytes (%v)", what(), rd.Len(), err)
	// sizes
	n, err := trie.Size(nodeWriter{nd, a, isKey, skip})
	t.Check(err == nil && n == len(b), "%s: reported size %d, serialized to %d bytes", what(), n, len(b))
	// clone is equal and independent
	cl := nd.Clone()
	var w3 bytes.Buffer
	t.Check(cl.Write(&w3, a, isKey, skip) == nil && bytes.Equal(w3.Bytes(), b), "%s: clone is serialized differently", what())
	t.Count("nodes round-tripped", 1)
	t.Seen(b)
}

type nodeWriter struct {
	n     *trie.NodeData
	a     trie.PathArity
	isKey bool
	skip  bool
}

func (w nodeWriter) Write(x ioWriter) error { return w.n.Write(x, w.a, w.isKey, w.skip) }

func randUnits(t *T, arity, n int) []byte {
	u := make([]byte, n)
	for i := range u {
		u[i] = byte(t.Rng.Intn(arity))
	}
	switch t.Rng.Intn(5) {
	case 0:
		for i := range u {
			u[i] = 0
		}
	case 1:
		for i := range u {
			u[i] = byte(arity - 1)
		}
	}
	return u
}

func nodeCfgs() []Cfg {
	return append(allCfgs(), Cfg{Arity: 256, HS: 32, KZG: true})
}

func runC10(c *Ctx) {
	maxLen := map[int]int{2: 13, 16: 3, 256: 2}
	if c.thorough() {
		maxLen = map[int]int{2: 17, 16: 4, 256: 2}
	}
	c.Cases("sequences", 3*18, func(t *T) {
		arity := []int{2, 16, 256}[t.n%3]
		n := t.n / 3
		if n > maxLen[arity] {
			return
		}
		seen := map[string]string{}
		allSeqs(arity, n, func(u []byte) {
			enc := checkSeq(t, u, arity)
			if o, dup := seen[string(enc)]; dup {
				t.Fail("arity %d: sequences %x and %x have the same encoding %x", arity, o, u, enc)
			}
			seen[string(enc)] = string(u)
			t.Seen(arity, u)
		})
		t.Count("sequences exhausted", len(seen))
		t.Sample("arity %d: all %d sequences of length %d", arity, len(seen), n)
	})
	c.Cases("lengths", 300*min(c.scale, 4), func(t *T) {
		// encodings of all lengths are pairwise distinct: the length is in the encoding
		for _, arity := range []int{2, 16, 256} {
			u := randUnits(t, arity, t.n)
			enc := checkSeq(t, u, arity)
			for i := 1; i <= 17; i++ {
				v := append(append([]byte(nil), u...), make([]byte, i)...)
				e2 := checkSeq(t, v, arity)
				t.Check(!bytes.Equal(enc, e2), "arity %d: %x and its extension by %d zeroes have the same encoding", arity, u, i)
			}
			for i := 0; i < 20; i++ {
				x := append([]byte(nil), enc...)
				if len(x) > 0 {
					x[t.Rng.Intn(len(x))] ^= 1 << uint(t.Rng.Intn(8))
					checkDec(t, x, arity)
					checkDec(t, x[:t.Rng.Intn(len(x))], arity)
					x[0] = byte(t.Rng.Intn(256))
					checkDec(t, x, arity)
				}
			}
			checkKey(t, randBytes(t.Rng, t.n), arity)
			t.Seen(arity, u)
		}
	})
	c.Cases("decode", 3*3, func(t *T) {
		arity := []int{2, 16, 256}[t.n%3]
		ok := 0
		allSeqs(256, t.n/3, func(b []byte) {
			if checkDec(t, b, arity) {
				ok++
			}
		})
		t.Count("byte strings decoded", ok)
		t.Seen("decode", arity, t.n/3)
	})
	c.Cases("decode3", 256, func(t *T) {
		// all strings of three bytes with a sensible first byte, for every second byte
		for _, arity := range []int{2, 16} {
			for f := 0; f < 10; f++ {
				for x := 0; x < 256; x++ {
					checkDec(t, []byte{byte(f), byte(t.n), byte(x)}, arity)
				}
			}
		}
		t.Seen("decode3", t.n)
	})
	c.Cases("keys", 3*3, func(t *T) {
		arity := []int{2, 16, 256}[t.n%3]
		seen := map[string]bool{}
		allSeqs(256, t.n/3, func(k []byte) {
			checkKey(t, k, arity)
			u := string(trie.UnpackBytes(k, arityOf(arity)))
			t.Check(!seen[u], "arity %d: two keys have the same path", arity)
			seen[u] = true
		})
		t.Count("keys exhausted", len(seen))
		t.Seen("keys", arity, t.n/3)
	})
	c.Cases("wrong-units", 2000, func(t *T) {
		arity := []int{2, 16}[t.n%2]
		u := randUnits(t, arity, 1+t.Rng.Intn(40))
		u[t.Rng.Intn(len(u))] = byte(arity + t.Rng.Intn(256-arity))
		var err error
		t.mustNot("encode", func() { _, err = trie.EncodeUnpackedBytes(u, arityOf(arity)) })
		t.Check(err != nil, "arity %d: sequence %x with a wrong unit is encoded", arity, u)
		t.mustNot("pack", func() { _, err = trie.PackUnpackedBytes(u, arityOf(arity)) })
		t.Check(err != nil, "arity %d: sequence %x with a wrong unit is packed", arity, u)
		t.Eval(2)
		t.Seen("wrong", arity, u)
	})
	c.Cases("wrong-arity", 253, func(t *T) {
		a := trie.PathArity(t.n)
		if t.n == 1 || t.n == 15 || t.n == 255 {
			return
		}
		var err error
		t.mustNot("encode", func() { _, err = trie.EncodeUnpackedBytes([]byte{0, 1}, a) })
		t.Check(err != nil, "encoded with arity %d", t.n)
		t.mustNot("pack", func() { _, err = trie.PackUnpackedBytes([]byte{0, 1}, a) })
		t.Check(err != nil, "packed with arity %d", t.n)
		t.mustNot("decode", func() { _, err = trie.DecodeToUnpackedBytes([]byte{0, 1}, a) })
		t.Check(err != nil, "decoded with arity %d", t.n)
		t.Check(catch(func() { trie.UnpackBytes([]byte{1}, a) }) != nil, "unpacked with arity %d", t.n)
		t.Eval(4)
		t.Seen("arity", t.n)
	})
	c.Cases("nodes-combinations", 7*20, func(t *T) {
		cfg := nodeCfgs()[t.n%7]
		for pl := t.n / 7; pl == t.n/7; pl++ {
			for d := 0; d < 6; d++ {
				for kl := 0; kl < 2; kl++ {
					for ch := 0; ch < 6; ch++ {
						for o := 0; o < 3; o++ {
							per := map[int]int{2: 8, 16: 2, 256: 1}[cfg.Arity]
							pf := randUnits(t, cfg.Arity, pl)
							key := randUnits(t, cfg.Arity, kl*3)
							var data []byte
							if d > 0 {
								data = randBytes(t.Rng, []int{1, 19, 21, cfg.HS, cfg.HS + 1}[d-1])
							}
							isKey, skip := data != nil && o == 1, data != nil && o == 2
							if isKey && len(key)+len(pf) == 0 {
								continue
							}
							if skip {
								// the value is looked up under the packed key: make it whole
								for (len(key)+len(pf))%per != 0 {
									key = append(key, byte(t.Rng.Intn(cfg.Arity)))
								}
							}
							var children []byte
							for i := 0; i < []int{0, 1, 2, 3, cfg.Arity / 2, cfg.Arity}[ch]; i++ {
								children = append(children, byte(i%cfg.Arity))
							}
							if ch == 1 {
								children[0] = byte(cfg.Arity - 1)
							}
							if ch == 2 {
								children[1] = byte(t.Rng.Intn(cfg.Arity))
							}
							if cfg.KZG && (ch > 3 && (pl%5 != 0 || o > 0 && kl > 0) || ch > 0 && pl%2 == 1 && o > 0) {
								continue
							}
							children = uniq(children)
							nodeCase(t, cfg, key, pf, data, isKey, skip, children)
						}
					}
				}
			}
		}
	})
	c.Cases("nodes", 12000*c.scale, func(t *T) {
		cfg := nodeCfgs()[t.Rng.Intn(7)]
		if cfg.KZG && t.Rng.Intn(3) > 0 {
			cfg = Cfg{Arity: 256, HS: 20}
		}
		if !cfg.KZG {
			cfg.Thr = []int{0, 0, 1, 20, 32, 50}[t.Rng.Intn(6)]
		}
		per := map[int]int{2: 8, 16: 2, 256: 1}[cfg.Arity]
		pl := t.Rng.Intn(12)
		switch t.Rng.Intn(10) {
		case 0:
			pl = boundaryLens[t.Rng.Intn(len(boundaryLens))]
		case 1:
			pl = t.Rng.Intn(3000)
		}
		pf := randUnits(t, cfg.Arity, pl)
		key := randUnits(t, cfg.Arity, t.Rng.Intn(10))
		for (len(key)+len(pf))%per != 0 {
			key = append(key, byte(t.Rng.Intn(cfg.Arity)))
		}
		data := randTermData(t, cfg)
		var children []byte
		for i := 0; i < []int{0, 1, 2, 5, cfg.Arity}[t.Rng.Intn(5)]; i++ {
			children = append(children, byte(t.Rng.Intn(cfg.Arity)))
		}
		if cfg.KZG && len(children) > 20 {
			children = children[:20]
		}
		o := t.Rng.Intn(4)
		nodeCase(t, cfg, key, pf, data, data != nil && o == 1 && len(key)+len(pf) > 0, data != nil && o == 2, uniq(children))
		t.Sample("%s pf=%s data=%s children=%d", cfg, hx(pf), hx(data), len(children))
	})
	c.Cases("fragment-limit", 12, func(t *T) {
		// the encoded path fragment has a length of two bytes
		cfg := allCfgs()[t.n%6]
		n := map[int]int{256: 65535, 16: 65534 * 2, 2: 65534 * 8}[cfg.Arity]
		if t.n < 6 {
			nodeCase(t, cfg, nil, randUnits(t, cfg.Arity, n), []byte{1, 2}, false, false, nil)
			return
		}
		model := newModel(cfg)
		nd := trie.NewNodeData()
		nd.PathFragment = randUnits(t, cfg.Arity, n+1)
		nd.Terminal = model.CommitToData([]byte{1})
		var w bytes.Buffer
		var err error
		r := catch(func() { err = nd.Write(&w, arityOf(cfg.Arity), false, false) })
		t.Eval(1)
		t.Check(r != nil || err != nil, "%s: a path fragment of %d units is written with two bytes of length", cfg, n+1)
	})
	c.Cases("commitments", 7*60, func(t *T) {
		cfg := nodeCfgs()[t.n%7]
		model := newModel(cfg)
		for i := 0; i < 3; i++ {
			data := randBytes(t.Rng, t.n/7+1)
			if i == 1 {
				data = make([]byte, t.n/7+1)
			}
			cfg.Thr = []int{0, 20, 40}[t.Rng.Intn(3)]
			if !cfg.KZG {
				model = newModel(cfg)
			}
			tc := model.CommitToData(append([]byte(nil), data...))
			b := tc.Bytes()
			t.Check(bytes.Equal(b, oTermBytes(data, cfg)), "%s: commitment to %s is serialized to %x, want %x", cfg, hx(data), b, oTermBytes(data, cfg))
			x := model.NewTerminalCommitment()
			rd := bytes.NewReader(append(append([]byte(nil), b...), 9))
			t.Check(x.Read(rd) == nil && rd.Len() == 1, "%s: commitment to %s is not read", cfg, hx(data))
			t.Check(model.EqualCommitments(x, tc) && bytes.Equal(x.Bytes(), b), "%s: commitment to %s changes by serialization", cfg, hx(data))
			if !cfg.KZG {
				t.Check(model.ForceStoreTerminalWithNode(x) == (len(data) > cfg.Thr), "%s: the size class of %d bytes is lost by serialization", cfg, len(data))
			}
			t.Check(model.EqualCommitments(tc.Clone(), tc), "clone differs")
			n, err := trie.Size(tc)
			t.Check(err == nil && n == len(b) && trie.MustSize(tc) == n, "size of a commitment")
			t.Eval(4)
			t.Seen(b)
		}
		t.Check(isNil(model.CommitToData(nil)) && isNil(model.CommitToData([]byte{})), "%s: empty data has a commitment", cfg)
	})
	c.Cases("fields", 1500, c10Fields)
	c.Cases("field-limits", 1, func(t *T) {
		refused := func(what string, f func() error) {
			var err error
			r := catch(func() { err = f() })
			t.Eval(1)
			t.Check(r != nil || err != nil, "%s is written", what)
		}
		for _, n := range []int{256, 257, 300, 511, 512, 65536} {
			refused(fmt.Sprintf("a field of %d bytes with one byte of length", n), func() error { return trie.WriteBytes8(&bytes.Buffer{}, make([]byte, n)) })
		}
		for _, n := range []int{65536, 65537, 131071, 131072} {
			refused(fmt.Sprintf("a field of %d bytes with two bytes of length", n), func() error { return trie.WriteBytes16(&bytes.Buffer{}, make([]byte, n)) })
		}
		for n := 0; n < 10; n++ {
			b := make([]byte, n)
			_, err := trie.Uint16From2Bytes(b)
			t.Check((err == nil) == (n == 2), "uint16 from %d bytes: %v", n, err)
			_, err = trie.Uint32From4Bytes(b)
			t.Check((err == nil) == (n == 4), "uint32 from %d bytes: %v", n, err)
		}
		t.Seen("limits")
	})
}

func uniq(b []byte) []byte {
	seen := map[byte]bool{}
	var ret []byte
	for _, x := range b {
		if !seen[x] {
			seen[x] = true
			ret = append(ret, x)
		}
	}
	return ret
}

func c10Fields(t *T) {
	n := t.n % 300
	if t.n >= 300 {
		n = []int{255, 256, 257, 65534, 65535, 65536, 1000, 100000, t.Rng.Intn(70000)}[t.Rng.Intn(9)]
	}
	data := randBytes(t.Rng, n)
	tail := randBytes(t.Rng, t.Rng.Intn(4))
	check := func(name string, w func(b *bytes.Buffer) error, r func(rd *bytes.Reader) ([]byte, error), prefix []byte) {
		var b bytes.Buffer
		t.Check(w(&b) == nil, "%s of %d bytes fails", name, n)
		t.Check(bytes.Equal(b.Bytes(), append(append([]byte{}, prefix...), data...)), "%s: %d bytes are written with prefix %x", name, n, b.Bytes()[:minInt(len(b.Bytes()), 6)])
		b.Write(tail)
		rd := bytes.NewReader(b.Bytes())
		got, err := r(rd)
		t.Check(err == nil && bytes.Equal(got, data) && rd.Len() == len(tail), "%s: %d bytes are read back as %d bytes, %v", name, n, len(got), err)
		t.Eval(1)
	}
	if n <= 255 {
		check("WriteBytes8", func(b *bytes.Buffer) error { return trie.WriteBytes8(b, data) }, func(r *bytes.Reader) ([]byte, error) { return trie.ReadBytes8(r) }, []byte{byte(n)})
	}
	if n <= 65535 {
		check("WriteBytes16", func(b *bytes.Buffer) error { return trie.WriteBytes16(b, data) }, func(r *bytes.Reader) ([]byte, error) { return trie.ReadBytes16(r) }, []byte{byte(n), byte(n >> 8)})
	}
	check("WriteBytes32", func(b *bytes.Buffer) error { return trie.WriteBytes32(b, data) }, func(r *bytes.Reader) ([]byte, error) { return trie.ReadBytes32(r) }, []byte{byte(n), byte(n >> 8), byte(n >> 16), 0})
	x := t.Rng.Uint32()
	switch t.Rng.Intn(4) {
	case 0:
		x = uint32(n)
	case 1:
		x = ^uint32(0) - uint32(t.Rng.Intn(3))
	}
	var b bytes.Buffer
	t.Check(trie.WriteUint32(&b, x) == nil && trie.WriteUint16(&b, uint16(x)) == nil && trie.WriteByte(&b, byte(x)) == nil, "integers are not written")
	want := []byte{byte(x), byte(x >> 8), byte(x >> 16), byte(x >> 24), byte(x), byte(x >> 8), byte(x)}
	t.Check(bytes.Equal(b.Bytes(), want), "integers of %x are written as %x", x, b.Bytes())
	t.Check(bytes.Equal(trie.Uint32To4Bytes(x), want[:4]) && bytes.Equal(trie.Uint16To2Bytes(uint16(x)), want[4:6]), "bytes of %x", x)
	y, err := trie.Uint32From4Bytes(want[:4])
	t.Check(err == nil && y == x && trie.MustUint32From4Bytes(want[:4]) == x, "%x from bytes is %x", x, y)
	z, err := trie.Uint16From2Bytes(want[4:6])
	t.Check(err == nil && z == uint16(x), "%x from bytes is %x", uint16(x), z)
	var y2 uint32
	var z2 uint16
	t.Check(trie.ReadUint32(&b, &y2) == nil && trie.ReadUint16(&b, &z2) == nil && y2 == x && z2 == uint16(x), "integers of %x are read as %x, %x", x, y2, z2)
	bb, err := trie.ReadByte(&b)
	t.Check(err == nil && bb == byte(x), "byte %x is read as %x", byte(x), bb)
	// concatenation
	parts := []any{data, byte(x), string(tail), kzgSetup}
	t.Check(bytes.Equal(trie.Concat(parts[:3]...), append(append(append([]byte{}, data...), byte(x)), tail...)), "concatenation")
	t.Check(len(trie.Concat()) == 0, "empty concatenation")
	h := trie.Blake2b160(data)
	t.Check(bytes.Equal(h[:], blakeSum(20, data)), "hash of 20 bytes of %s", hx(data))
	t.Eval(10)
	t.Seen("fields", n, x)
}
