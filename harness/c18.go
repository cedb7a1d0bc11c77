package main

import (
	"bytes"
	"crypto/sha256"
	"encoding/binary"

	"github.com/iotaledger/trie.go/trie"
)

func init() {
	register(&property{id: "C18",
		rule:  "Families of near-identical contents (bytes moved between key and value, between path and child index and between levels, values exchanged, lengths changed, values and paths replaced by hashes and commitments of the same tree, pairs added and removed, exhaustive contents over small domains) are committed by tries which walk from one content to the next, and the roots of each family are compared pairwise: equal roots of different contents are a violation unless every node of the two has the same zero-padded slots, which is the format collision listed in the findings. Distinct by configuration and content.",
		assum: []string{"collisions of blake2b and of the polynomial commitment do not occur", "collisions by zero padding of slots, by missing tags of hashed data and by key commitments at arity 2 and 16 are attributed to the listed findings"},
		run:   runC18})
}

// slotClass identifies the contents which the format itself can not tell apart: the tree with its slots as they enter the hash
func slotClass(tree *oTree) string {
	cfg := tree.cfg
	trim := func(b []byte) []byte {
		if cfg.KZG {
			return b
		}
		return bytes.TrimRight(oRaw(b, cfg.HS), "\x00")
	}
	var rec func(n *oNode) []byte
	rec = func(n *oNode) []byte {
		h := sha256.New()
		put := func(b []byte) {
			var l [4]byte
			binary.LittleEndian.PutUint32(l[:], uint32(len(b)))
			h.Write(l[:])
			h.Write(b)
		}
		if cfg.KZG && n.Data != nil {
			h.Write([]byte{1})
		}
		put(trim(n.Data))
		put(trim(n.PF))
		for i := 0; i < 256; i++ {
			if c, ok := n.Children[byte(i)]; ok {
				h.Write([]byte{byte(i)})
				put(rec(c))
			}
		}
		return h.Sum(nil)
	}
	if tree.root == nil {
		return ""
	}
	return string(rec(tree.root))
}

// family compares the roots of all contents it is given
type family struct {
	t       *T
	cfg     Cfg
	tr      *trie.Trie
	model   trie.CommitmentModel
	ts      *MStore
	vs      *MStore
	cur     map[string][]byte
	byRoot  map[string]*famEntry
	seen    map[string]bool
	entries int
}

type famEntry struct {
	content string
	full    string
	class   string
	root    trie.VCommitment
}

func newFamily(t *T, cfg Cfg) *family {
	f := &family{t: t, cfg: cfg, model: newModel(cfg), byRoot: map[string]*famEntry{}, seen: map[string]bool{}}
	f.restart()
	return f
}

func (f *family) restart() {
	f.ts, f.vs, f.cur = newMStore(), newMStore(), map[string][]byte{}
	f.tr = trie.New(f.model, f.ts, f.vs, f.cfg.Opt)
}

func fullStr(m map[string][]byte) string {
	var b []byte
	for _, k := range sortedKeys(m) {
		b = binary.LittleEndian.AppendUint32(b, uint32(len(k)))
		b = append(b, k...)
		b = binary.LittleEndian.AppendUint32(b, uint32(len(m[k])))
		b = append(b, m[k]...)
	}
	return string(b)
}

// add walks the trie to the content and compares the root with all roots before
func (f *family) add(content map[string][]byte) {
	t := f.t
	m := map[string][]byte{}
	for k, v := range content {
		if len(k) > 7000 { // paths have lengths of 16 bits
			return
		}
		if len(v) > 0 {
			m[k] = v
		}
	}
	full := fullStr(m)
	if f.seen[full] {
		return
	}
	f.seen[full] = true
	if t.Rng.Intn(12) == 0 {
		f.restart()
	}
	var todo []string
	for _, k := range sortedKeys(f.cur) {
		if m[k] == nil {
			todo = append(todo, k)
		}
	}
	for _, k := range sortedKeys(m) {
		if !bytes.Equal(f.cur[k], m[k]) {
			todo = append(todo, k)
		}
	}
	t.Rng.Shuffle(len(todo), func(i, j int) { todo[i], todo[j] = todo[j], todo[i] })
	for i, k := range todo {
		if v := m[k]; v != nil {
			f.tr.Update([]byte(k), append([]byte{}, v...))
		} else {
			f.tr.Delete([]byte(k))
		}
		if i == len(todo)/2 && t.Rng.Intn(4) == 0 {
			f.tr.Commit()
		}
	}
	f.cur = m
	f.tr.Commit()
	if t.Rng.Intn(3) == 0 {
		f.tr.PersistMutations(f.ts)
		for k := range f.vs.m {
			if m[k] == nil {
				f.vs.Set([]byte(k), nil)
			}
		}
		for k, v := range m {
			f.vs.Set([]byte(k), v)
		}
		f.tr.ClearCache()
	}
	t.Eval(1)
	f.entries++
	t.Count("contents committed", 1)
	c := trie.RootCommitment(f.tr)
	if isNil(c) {
		t.Check(len(m) == 0, "%s: content %s has no root", f.cfg, contentStr(m))
		return
	}
	t.Check(len(m) != 0, "%s: empty content has root %s", f.cfg, c)
	root := string(c.Bytes())
	e := &famEntry{content: contentStr(m), full: full, class: slotClass(buildTree0(m, f.cfg)), root: c}
	t.Seen(f.cfg.String(), full)
	old, is := f.byRoot[root]
	if !is {
		// a sample of the comparison by the model itself
		for _, x := range f.byRoot {
			t.Check(!f.model.EqualCommitments(c, x.root), "%s: roots of %s and %s are different bytes but equal commitments", f.cfg, e.content, x.content)
			t.Count("root commitments compared by the model", 1)
			break
		}
		f.byRoot[root] = e
		return
	}
	t.Check(f.model.EqualCommitments(c, old.root), "%s: equal roots are not equal commitments", f.cfg)
	if old.full == e.full {
		return
	}
	if old.class == e.class {
		t.Count("collisions of the listed findings", 1)
		return
	}
	t.Fail("%s: contents %s and %s have the same root %x", f.cfg, old.content, e.content, root)
}

// buildTree0 is the canonical tree without commitments
func buildTree0(m map[string][]byte, cfg Cfg) *oTree {
	return &oTree{cfg: cfg, root: canonical(pairsOf(m, cfg), 0)}
}

func with(m map[string][]byte, kv ...any) map[string][]byte {
	r := copyMap(m)
	for i := 0; i < len(kv); i += 2 {
		k := string(kv[i].([]byte))
		if kv[i+1] == nil {
			delete(r, k)
		} else if v := kv[i+1].([]byte); len(v) == 0 {
			delete(r, k)
		} else {
			r[k] = v
		}
	}
	return r
}

// neighbours adds contents which differ from m by one small change
func (f *family) neighbours(m map[string][]byte, n int) {
	r := f.t.Rng
	keys := sortedKeys(m)
	if len(keys) == 0 {
		return
	}
	hs := f.cfg.HS
	if hs == 0 {
		hs = 32
	}
	tree := buildTree(m, f.cfg)
	cat := func(a ...[]byte) []byte { return bytes.Join(a, nil) }
	pick := func() []byte { return []byte(keys[r.Intn(len(keys))]) }
	for i := 0; i < n; i++ {
		k := pick()
		v := m[string(k)]
		switch r.Intn(22) {
		case 0: // last byte of the key to the value
			if len(k) > 0 {
				f.add(with(m, k, nil, k[:len(k)-1], cat(k[len(k)-1:], v)))
			}
		case 1: // first byte of the value to the key
			f.add(with(m, k, nil, cat(k, v[:1]), v[1:]))
			f.add(with(m, k, nil, cat(k, v[:1]), v))
		case 2: // key and value exchanged
			f.add(with(m, k, nil, v, k))
		case 3: // values of two keys exchanged
			k2 := pick()
			f.add(with(m, k, m[string(k2)], k2, v))
		case 4: // length of the value
			f.add(with(m, k, cat(v, []byte{byte(r.Intn(256))})))
			f.add(with(m, k, v[:len(v)-1]))
			f.add(with(m, k, cat([]byte{0}, v)))
			f.add(with(m, k, v[1:]))
			f.add(with(m, k, cat(v, v)))
		case 5: // length of the key
			f.add(with(m, k, nil, cat(k, []byte{byte(r.Intn(256))}), v))
			f.add(with(m, k, nil, cat([]byte{byte(r.Intn(2))}, k), v))
			if len(k) > 0 {
				f.add(with(m, k, nil, k[1:], v))
				f.add(with(m, k, nil, k[:len(k)-1], v))
			}
		case 6: // hashes of the value
			f.add(with(m, k, blakeSum(hs, v)))
			f.add(with(m, k, blakeSum(hs, blakeSum(hs, v))))
			f.add(with(m, k, blakeSum(52-hs, v)))
		case 7: // hashes of the key and of the path
			f.add(with(m, k, nil, blakeSum(hs, k), v))
			f.add(with(m, k, nil, blakeSum(hs, oUnpack(k, maxInt(f.cfg.Arity, 2))), v))
		case 8: // a bit of the value, at its ends and at the size of the hash
			for _, at := range []int{0, len(v) - 1, hs - 1, hs, hs + 1, r.Intn(len(v))} {
				if at < len(v) {
					x := append([]byte{}, v...)
					x[at] ^= 1 << uint(r.Intn(8))
					f.add(with(m, k, x))
				}
			}
		case 9: // a bit of the key
			for _, at := range []int{0, len(k) - 1, r.Intn(len(k) + 1)} {
				if at >= 0 && at < len(k) {
					x := append([]byte{}, k...)
					x[at] ^= 1 << uint(r.Intn(8))
					f.add(with(m, k, nil, x, v))
				}
			}
		case 10: // nibbles and bits moved
			if len(k) > 0 {
				x := append([]byte{}, k...)
				j := r.Intn(len(x))
				x[j] = x[j]<<4 | x[j]>>4
				f.add(with(m, k, nil, x, v))
				x = append([]byte{}, k...)
				x[j] = x[j]<<1 | x[j]>>7
				f.add(with(m, k, nil, x, v))
				if len(x) > 1 {
					x = append([]byte{}, k...)
					j = r.Intn(len(x) - 1)
					x[j], x[j+1] = x[j+1], x[j]
					f.add(with(m, k, nil, x, v))
				}
			}
		case 11: // a pair removed, added
			f.add(with(m, k, nil))
			f.add(with(m, randBytes(r, r.Intn(4)), v))
			f.add(with(m, cat(k, []byte{byte(r.Intn(256))}), v))
			f.add(with(m, k[:r.Intn(len(k)+1)], v))
		case 12: // all keys under one more, one less byte
			x := map[string][]byte{}
			b := byte(r.Intn(256))
			for k, v := range m {
				x[string(b)+k] = v
			}
			f.add(x)
			x = map[string][]byte{}
			for k, v := range m {
				x[k+string([]byte{b})] = v
			}
			f.add(x)
		case 13: // the sub-state below a node as the whole content
			nd := tree.nodes[r.Intn(len(tree.nodes))]
			per := map[int]int{0: 1, 2: 8, 16: 2, 256: 1}[f.cfg.Arity]
			if len(nd.Key)%per == 0 {
				pre := oPack(nd.Key, arityN(f.cfg))
				x := map[string][]byte{}
				for k, v := range m {
					if bytes.HasPrefix([]byte(k), pre) {
						x[k[len(pre):]] = v
					}
				}
				f.add(x)
				for k := range x {
					f.add(with(m, append(append([]byte{}, pre...), k...), nil))
					break
				}
			}
		case 14: // a commitment of the tree as a value, in place of the sub-tree and elsewhere
			nd := tree.nodes[r.Intn(len(tree.nodes))]
			f.add(with(m, k, nd.Commit))
			full := append(append([]byte{}, nd.Key...), nd.PF...)
			per := map[int]int{0: 1, 2: 8, 16: 2, 256: 1}[f.cfg.Arity]
			if len(nd.Key)%per == 0 {
				at := oPack(nd.Key, arityN(f.cfg))
				x := map[string][]byte{}
				for k, v := range m {
					if !bytes.HasPrefix([]byte(k), at) {
						x[k] = v
					}
				}
				x[string(at)] = nd.Commit
				f.add(x)
				if len(at) > 0 {
					f.add(with(x, at, nil, at[:len(at)-1], nd.Commit))
				}
			}
			if len(full)%per == 0 {
				f.add(with(m, oPack(full, arityN(f.cfg)), nd.PF))
			}
		case 15: // sub-trees exchanged
			a, b := byte(r.Intn(256)), byte(r.Intn(256))
			if len(k) > 0 {
				a = k[0]
				if k2 := pick(); len(k2) > 0 {
					b = k2[0]
				}
			}
			x := map[string][]byte{}
			for k, v := range m {
				y := []byte(k)
				if len(y) > 0 && y[0] == a {
					y[0] = b
				} else if len(y) > 0 && y[0] == b {
					y[0] = a
				}
				x[string(y)] = v
			}
			f.add(x)
		case 16: // path and terminal exchanged, at the root
			f.add(map[string][]byte{string(k): v})
			f.add(map[string][]byte{string(v): k})
			f.add(map[string][]byte{"": cat(k, v)})
			f.add(map[string][]byte{string(cat(k, v)): {1}})
			f.add(map[string][]byte{string(cat(k, v)): v})
		case 17: // path of the key as the value
			f.add(with(m, k, oUnpack(k, arityN(f.cfg))))
			f.add(with(m, k, k))
			f.add(with(m, k, oEncode(oUnpack(k, arityN(f.cfg)), arityN(f.cfg))))
		case 18: // a node split at another point
			if len(k) > 1 {
				j := r.Intn(len(k))
				f.add(with(m, k[:j], v))
				f.add(with(m, k[:j], v, k, nil))
				f.add(with(m, cat(k[:j], k[j+1:]), v))
				f.add(with(m, cat(k[:j], k[j+1:]), v, k, nil))
				f.add(with(m, cat(k[:j], k[j:j+1], k[j:]), v, k, nil))
			}
		case 19: // values which look like stored commitments
			for _, pre := range [][]byte{{byte(len(v))}, {byte(len(v)) | 0x40}, {byte(len(v)) | 0xc0}, {0}} {
				f.add(with(m, k, cat(pre, v)))
			}
			f.add(with(m, k, cat(v, []byte{byte(len(v))})))
		case 20: // same value everywhere
			x := map[string][]byte{}
			for k := range m {
				x[k] = v
			}
			f.add(x)
		case 21: // value beyond the size of the hash with the same start, the same end
			f.add(with(m, k, cat(v, randBytes(r, hs))))
			f.add(with(m, k, cat(randBytes(r, hs), v)))
			if len(v) > hs {
				f.add(with(m, k, v[:hs]))
				f.add(with(m, k, v[len(v)-hs:]))
			}
		}
	}
}

func arityN(c Cfg) int {
	if c.KZG {
		return 256
	}
	return c.Arity
}

func maxInt(a, b int) int {
	if a > b {
		return a
	}
	return b
}

// domain: all contents over a small set of keys and values
func domain(t *T, cfg Cfg, keys, vals [][]byte, limit int) {
	f := newFamily(t, cfg)
	total := 1
	for range keys {
		total *= len(vals) + 1
	}
	step := 1
	if total > limit {
		step = total/limit | 1
	}
	for i := t.n % step; i < total; i += step {
		m := map[string][]byte{}
		x := i
		for _, k := range keys {
			if d := x % (len(vals) + 1); d > 0 {
				m[string(k)] = vals[d-1]
			}
			x /= len(vals) + 1
		}
		f.add(m)
	}
	t.Sample("%s: %d contents over %d keys and %d values, %d roots", cfg, f.entries, len(keys), len(vals), len(f.byRoot))
}

func runC18(c *Ctx) {
	c.Cases("families", 8000*c.scale, func(t *T) {
		cfg := Cfg{Arity: []int{2, 16, 256}[t.n%3], HS: []int{20, 32}[t.Rng.Intn(2)], Thr: []int{0, 0, 10, 32, 100}[t.Rng.Intn(5)], Opt: t.Rng.Intn(4) == 0}
		p := newProfile(t.Rng, cfg)
		f := newFamily(t, cfg)
		m := map[string][]byte{}
		var vals [][]byte
		keys := p.keys(t.Rng)
		n := 1 + t.Rng.Intn(minInt(len(keys), 12))
		for i := 0; i < n; i++ {
			k := keys[t.Rng.Intn(len(keys))]
			m[string(k)] = p.value(t.Rng, k, &vals)
		}
		f.add(m)
		f.add(nil)
		f.neighbours(m, 60)
		t.Sample("%s: base %s, %d contents, %d roots", cfg, contentStr(m), f.entries, len(f.byRoot))
	})
	c.Cases("kzg-families", 800*c.scale, func(t *T) {
		cfg := Cfg{Arity: 256, KZG: true}
		p := newProfile(t.Rng, cfg)
		f := newFamily(t, cfg)
		m := map[string][]byte{}
		var vals [][]byte
		keys := p.keys(t.Rng)
		n := 1 + t.Rng.Intn(minInt(len(keys), 6))
		for i := 0; i < n; i++ {
			k := keys[t.Rng.Intn(len(keys))]
			m[string(k)] = p.value(t.Rng, k, &vals)
		}
		f.add(m)
		f.add(nil)
		f.neighbours(m, 30)
		t.Sample("%s: base %s, %d contents, %d roots", cfg, contentStr(m), f.entries, len(f.byRoot))
	})
	c.Cases("large-values", 60*c.scale, func(t *T) {
		r := t.Rng
		cfg := Cfg{Arity: []int{2, 16, 256}[t.n%3], HS: []int{20, 32}[r.Intn(2)], Thr: []int{0, 100, 70000}[r.Intn(3)], Opt: r.Intn(4) == 0}
		if t.n%4 == 3 {
			cfg = Cfg{Arity: 256, KZG: true}
		}
		sizes := []int{257, 4095, 4096, 4097, 8193, 32767, 32768, 65534, 65535, 65536, 65537, 65600, 131071, 131072, 131073, 1 << 20, 1<<20 + 1}
		n := sizes[(t.n/3)%len(sizes)]
		if r.Intn(12) == 0 {
			n = 1<<24 + r.Intn(3)
		}
		k := randBytes(r, r.Intn(40))
		v := randBytes(r, n)
		f := newFamily(t, cfg)
		m := map[string][]byte{string(k): v}
		if r.Intn(2) == 0 {
			m[string(randBytes(r, 3))] = []byte{1}
		}
		f.add(m)
		at := []int{0, 1, n / 2, n - 1, n - 2}
		for _, x := range []int{20, 32, 64, 128, 255, 256, 4096, 32768, 65535, 65536} {
			if x < n {
				at = append(at, x, x-1, n-x)
			}
		}
		for i := 0; i < 8; i++ {
			at = append(at, r.Intn(n))
		}
		r.Shuffle(len(at), func(i, j int) { at[i], at[j] = at[j], at[i] })
		if n > 1<<20+1 {
			at = at[:6]
		}
		for _, x := range at {
			w := append([]byte{}, v...)
			w[x] ^= byte(1 + r.Intn(255))
			f.add(with(m, k, w))
		}
		f.add(with(m, k, v[:n-1]))
		f.add(with(m, k, v[1:]))
		f.add(with(m, k, append(append([]byte{}, v...), 1)))
		f.add(with(m, k, append([]byte{1}, v...)))
		f.add(with(m, k, v[:min(n, 65536)]))
		f.add(with(m, k, v[:min(n, 65535)]))
		f.add(with(m, k, v[:n&0xffff]))
		f.add(with(m, k, v[:n&0xff]))
		t.Count("contents with values of more than 64 KB", f.entries*btoi(n > 65536))
		t.Sample("%s: value of %d bytes, %d contents, %d roots", cfg, n, f.entries, len(f.byRoot))
	})
	b := func(bs ...byte) []byte { return bs }
	domains := []struct{ keys, vals [][]byte }{
		{[][]byte{b(), b(0), b(1), b(0, 0), b(0, 1), b(1, 0), b(1, 1)}, [][]byte{b(1), b(1, 1), b(0, 1)}},
		{[][]byte{b(), b(0), b(0xff), b(0, 0xff), b(0xff, 0), b(0x0f), b(0xf0), b(0, 0, 0)}, [][]byte{b(0), b(0xff)}},
		{[][]byte{b(0x10), b(0x11), b(0x12), b(0x20), b(0x21), b(0x10, 0x10), b(0x10, 0x20), b(0x20, 0x10)}, [][]byte{b(0x10), b(0x20), b(2)}},
		{[][]byte{b('a'), b('b'), b('a', 'a'), b('a', 'b'), b('b', 'a'), b('b', 'b'), b('a', 'b', 'a'), b('b', 'a', 'b')}, [][]byte{b('a'), b('b'), b('a', 'b'), b('b', 'a')}},
	}
	c.Cases("domains", 2*3*2*len(domains), func(t *T) {
		cfg := Cfg{Arity: []int{2, 16, 256}[t.n%3], HS: []int{20, 32}[t.n/3%2], Opt: t.n/6%2 == 1}
		d := domains[t.n/12%len(domains)]
		domain(t, cfg, d.keys, d.vals, 6000*c.scale)
	})
	// listed findings
	collide := func(name string, cfg Cfg, x, y map[string][]byte) {
		c.Witness(name, func(t *T) {
			roots := [2][]byte{}
			for i, m := range []map[string][]byte{x, y} {
				tr := trie.New(newModel(cfg), newMStore(), nil, cfg.Opt)
				for k, v := range m {
					tr.Update([]byte(k), v)
				}
				tr.Commit()
				roots[i] = rootOf(tr)
			}
			t.Eval(1)
			t.Seen(name)
			t.Check(!bytes.Equal(roots[0], roots[1]), "%s: contents %s and %s have the same root %x", cfg, contentStr(x), contentStr(y), roots[0])
		})
	}
	cfg := Cfg{Arity: 256, HS: 32}
	long := bytes.Repeat([]byte("long"), 10)
	collide("value-trailing-zero", cfg, map[string][]byte{"k": {1}}, map[string][]byte{"k": {1, 0}})
	collide("path-trailing-zero", cfg, map[string][]byte{"k": {1}}, map[string][]byte{"k\x00": {1}})
	collide("value-and-its-hash", cfg, map[string][]byte{"k": long}, map[string][]byte{"k": blakeSum(32, long)})
	collide("path-and-its-hash", cfg, map[string][]byte{string(long): {1}}, map[string][]byte{string(blakeSum(32, long)): {1}})
	collide("zero-value-and-absence", cfg, map[string][]byte{"k": {0}, "ka": {1}, "kb": {1}}, map[string][]byte{"ka": {1}, "kb": {1}})
	collide("key-commitment-and-path", Cfg{Arity: 16, HS: 32, Opt: true}, map[string][]byte{"ab": []byte("ab")}, map[string][]byte{"ab": {6, 1, 6, 2}})
}
