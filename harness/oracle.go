package main

// Independent definition of the 256+ trie: canonical tree of a set of key/value pairs, its commitments
// (hash model and polynomial model) and its stored form. Nothing in this file calls the code under test,
// except that the polynomial model takes the public setup points from it.

import (
	"bytes"
	"encoding/binary"
	"fmt"
	"sort"
	"sync"

	"github.com/iotaledger/trie.go/models/trie_kzg_bn256"
	"go.dedis.ch/kyber/v3"
	"golang.org/x/crypto/blake2b"
)

// unit = one path element. arity: 2, 16 or 256
func oUnpack(key []byte, arity int) []byte {
	switch arity {
	case 256:
		return append([]byte(nil), key...)
	case 16:
		r := make([]byte, 0, 2*len(key))
		for _, b := range key {
			r = append(r, b>>4, b&15)
		}
		return r
	case 2:
		r := make([]byte, 0, 8*len(key))
		for _, b := range key {
			for i := 7; i >= 0; i-- {
				r = append(r, (b>>uint(i))&1)
			}
		}
		return r
	}
	panic("arity")
}

// oPack packs units big-endian, zero padded to whole bytes
func oPack(units []byte, arity int) []byte {
	switch arity {
	case 256:
		return append([]byte(nil), units...)
	case 16:
		r := make([]byte, (len(units)+1)/2)
		for i, u := range units {
			if i%2 == 0 {
				r[i/2] |= u << 4
			} else {
				r[i/2] |= u
			}
		}
		return r
	case 2:
		r := make([]byte, (len(units)+7)/8)
		for i, u := range units {
			r[i/8] |= u << uint(7-i%8)
		}
		return r
	}
	panic("arity")
}

// oEncode is the documented encoding of a unit sequence: empty -> empty, arity 256 -> as is,
// otherwise one byte with the number of padding units, then the packed units
func oEncode(units []byte, arity int) []byte {
	if len(units) == 0 {
		return nil
	}
	switch arity {
	case 256:
		return append([]byte(nil), units...)
	case 16:
		return append([]byte{byte(len(units) % 2)}, oPack(units, 16)...)
	case 2:
		return append([]byte{byte((8 - len(units)%8) % 8)}, oPack(units, 2)...)
	}
	panic("arity")
}

// oDecode is the strict inverse of oEncode
func oDecode(data []byte, arity int) ([]byte, bool) {
	if len(data) == 0 {
		return nil, true
	}
	if arity == 256 {
		return append([]byte(nil), data...), true
	}
	per := 2
	if arity == 2 {
		per = 8
	}
	if len(data) == 1 {
		return nil, false // the empty sequence is encoded as empty data
	}
	pad := int(data[0])
	if pad >= per {
		return nil, false
	}
	u := oUnpack(data[1:], arity)
	if len(u) < pad {
		return nil, false
	}
	for _, x := range u[len(u)-pad:] {
		if x != 0 {
			return nil, false
		}
	}
	return u[:len(u)-pad], true
}

func blakeSum(size int, data []byte) []byte {
	h, err := blake2b.New(size, nil)
	if err != nil {
		panic(err)
	}
	h.Write(data)
	return h.Sum(nil)
}

// oRaw is the commitment to data under the hash model: data itself if it is not longer than the hash
func oRaw(data []byte, hs int) []byte {
	if len(data) <= hs {
		return append([]byte{}, data...)
	}
	return blakeSum(hs, data)
}

// oNode is a node of the canonical tree
type oNode struct {
	Key      []byte // path to the node, child index included
	PF       []byte
	Data     []byte // data the terminal commits to; nil when there is no terminal
	Children map[byte]*oNode
	Commit   []byte // serialized commitment of the node
	point    kyber.Point
}

type oPair struct {
	path []byte // unpacked key
	data []byte // data committed by the terminal
}

// canonical builds the canonical tree; pairs must be sorted by path and have no duplicates
func canonical(pairs []oPair, depth int) *oNode {
	if len(pairs) == 0 {
		return nil
	}
	first, last := pairs[0].path, pairs[len(pairs)-1].path
	n := depth
	for n < len(first) && n < len(last) && first[n] == last[n] {
		n++
	}
	ret := &oNode{Key: first[:depth], PF: first[depth:n], Children: map[byte]*oNode{}}
	i := 0
	if len(first) == n {
		ret.Data = pairs[0].data
		i = 1
	}
	for i < len(pairs) {
		u := pairs[i].path[n]
		j := i
		for j < len(pairs) && pairs[j].path[n] == u {
			j++
		}
		ret.Children[u] = canonical(pairs[i:j], n+1)
		i = j
	}
	return ret
}

// Cfg is a configuration of the trie under test
type Cfg struct {
	Arity int // 2, 16, 256
	HS    int // 20, 32
	Thr   int // value size threshold
	Opt   bool
	KZG   bool
	Mod   string // model of the monitor (toy.go)
}

func (c Cfg) String() string {
	if c.Mod != "" {
		return fmt.Sprintf("%s/a%d/skip=%v/opt=%v", c.Mod, c.Arity, c.Thr > 0, c.Opt)
	}
	if c.KZG {
		return fmt.Sprintf("kzg/opt=%v", c.Opt)
	}
	return fmt.Sprintf("b2b/a%d/h%d/thr%d/opt=%v", c.Arity, c.HS, c.Thr, c.Opt)
}

// commitData is what the terminal of pair (k, v) commits to. The only documented exception to the value itself
// is the key-commitment optimisation, where a value equal to its key is committed as the path of the key.
func (c Cfg) commitData(k, v []byte) []byte {
	if c.Opt && bytes.Equal(k, v) {
		return oUnpack(v, c.Arity)
	}
	return v
}

func pairsOf(m map[string][]byte, cfg Cfg) []oPair {
	ps := make([]oPair, 0, len(m))
	for k, v := range m {
		if len(v) == 0 {
			continue
		}
		ps = append(ps, oPair{oUnpack([]byte(k), cfg.Arity), cfg.commitData([]byte(k), v)})
	}
	sort.Slice(ps, func(i, j int) bool { return bytes.Compare(ps[i].path, ps[j].path) < 0 })
	return ps
}

// oTree is the canonical tree of a content
type oTree struct {
	cfg   Cfg
	root  *oNode
	nodes []*oNode
	byKey map[string]*oNode
}

func buildTree(m map[string][]byte, cfg Cfg) *oTree {
	t := &oTree{cfg: cfg, byKey: map[string]*oNode{}}
	t.root = canonical(pairsOf(m, cfg), 0)
	t.collect(t.root)
	return t
}

func (t *oTree) collect(n *oNode) {
	if n == nil {
		return
	}
	// post-order, so that commitments of children are known
	for _, c := range n.Children {
		t.collect(c)
	}
	if t.cfg.Mod != "" {
		ch := map[byte][]byte{}
		for i, c := range n.Children {
			ch[i] = c.Commit
		}
		n.Commit = toyCommit(t.cfg.Mod, t.cfg.Arity, ch, n.Data, n.Data != nil, n.PF).Bytes()
	} else if t.cfg.KZG {
		t.commitKZG(n)
	} else {
		n.Commit = commitBlake(n, t.cfg)
	}
	t.nodes = append(t.nodes, n)
	t.byKey[string(n.Key)] = n
}

func (t *oTree) rootBytes() []byte {
	if t.root == nil {
		return nil
	}
	return t.root.Commit
}

var vecPool = sync.Pool{New: func() any { b := make([]byte, 0, 258*33); return &b }}

// commitBlake: arity+2 slots of hs+1 zero-padded bytes: child commitments, terminal, path fragment
func commitBlake(n *oNode, cfg Cfg) []byte {
	w := cfg.HS + 1
	bp := vecPool.Get().(*[]byte)
	buf := (*bp)[:(cfg.Arity+2)*w]
	for i := range buf {
		buf[i] = 0
	}
	for i, c := range n.Children {
		copy(buf[int(i)*w:], c.Commit)
	}
	if n.Data != nil {
		copy(buf[cfg.Arity*w:], oRaw(n.Data, cfg.HS))
	}
	copy(buf[(cfg.Arity+1)*w:], oRaw(n.PF, cfg.HS))
	r := blakeSum(cfg.HS, buf)
	vecPool.Put(bp)
	return r
}

// ---- polynomial model

var kzgSetup = &trie_kzg_bn256.Model.TrustedSetup

func kzgScalarOfHash(data []byte) kyber.Scalar {
	h := blakeSum(32, data)
	return kzgSetup.Suite.G1().Scalar().SetBytes(h)
}

func (t *oTree) commitKZG(n *oNode) {
	sum := kzgSetup.Suite.G1().Point().Null()
	add := func(i int, s kyber.Scalar) {
		sum.Add(sum, kzgSetup.Suite.G1().Point().Mul(s, kzgSetup.LagrangeBasis[i]))
	}
	for i, c := range n.Children {
		add(int(i), kzgScalarOfHash(c.Commit))
	}
	if n.Data != nil {
		add(256, kzgScalarOfHash(n.Data))
	}
	add(257, kzgScalarOfHash(blakeSum(32, n.PF)))
	n.point = sum
	b, err := sum.MarshalBinary()
	if err != nil {
		panic(err)
	}
	n.Commit = b
}

// ---- stored form

const (
	fTerm     = 0x01
	fValue    = 0x02
	fKey      = 0x04
	fChildren = 0x08
	fPF       = 0x10
)

// oTermBytes is the serialized terminal commitment
func oTermBytes(data []byte, cfg Cfg) []byte {
	if cfg.Mod != "" {
		return lenBytes(data)
	}
	if cfg.KZG {
		b, err := kzgScalarOfHash(data).MarshalBinary()
		if err != nil {
			panic(err)
		}
		return b
	}
	raw := oRaw(data, cfg.HS)
	l := byte(len(raw))
	if len(data) > cfg.Thr {
		l |= 0xC0
	}
	return append([]byte{l}, raw...)
}

// oTermEqual tells if two data have equal commitments
func oTermEqual(a, b []byte, cfg Cfg) bool {
	if cfg.KZG || cfg.Mod != "" {
		return bytes.Equal(a, b)
	}
	return bytes.Equal(oRaw(a, cfg.HS), oRaw(b, cfg.HS))
}

// valueOmitted tells if the terminal commitment is left to the value store
func (c Cfg) valueOmitted(data []byte) bool {
	if c.Mod != "" {
		return !toyForced(data, c)
	}
	return !c.KZG && len(data) <= c.Thr
}

func oNodeBytes(n *oNode, cfg Cfg) []byte {
	var out bytes.Buffer
	var fl byte
	full := append(append([]byte{}, n.Key...), n.PF...)
	if n.Data != nil {
		fl |= fTerm
		if cfg.valueOmitted(n.Data) {
			fl |= fValue
		}
		if cfg.Opt && len(full) > 0 && oTermEqual(n.Data, full, cfg) {
			fl |= fKey
		}
	}
	if len(n.Children) > 0 {
		fl |= fChildren
	}
	if len(n.PF) > 0 {
		fl |= fPF
	}
	out.WriteByte(fl)
	if fl&fPF != 0 {
		enc := oEncode(n.PF, cfg.Arity)
		var l [2]byte
		binary.LittleEndian.PutUint16(l[:], uint16(len(enc)))
		out.Write(l[:])
		out.Write(enc)
	}
	if fl&fTerm != 0 && fl&(fValue|fKey) == 0 {
		out.Write(oTermBytes(n.Data, cfg))
	}
	if fl&fChildren != 0 {
		sz := cfg.Arity / 8
		if sz == 0 {
			sz = 1
		}
		flags := make([]byte, sz)
		for i := range n.Children {
			flags[i/8] |= 1 << (i % 8)
		}
		out.Write(flags)
		for i := 0; i < cfg.Arity; i++ {
			if c, ok := n.Children[byte(i)]; ok {
				out.Write(c.Commit)
			}
		}
	}
	return out.Bytes()
}

// storeOf is the exact expected content of the trie store
func (t *oTree) storeOf() map[string][]byte {
	ret := make(map[string][]byte, len(t.nodes))
	for _, n := range t.nodes {
		ret[string(oEncode(n.Key, t.cfg.Arity))] = oNodeBytes(n, t.cfg)
	}
	return ret
}

// where does the path of a key end in the canonical tree
type oEnding int

const (
	endEmpty   oEnding = iota // no tree
	endPresent                // node with terminal
	endNoTerm                 // key ends exactly at a node without a terminal
	endSplit                  // key leaves the tree inside a path fragment
	endExtend                 // key leaves the tree at a missing child
)

// walk returns the nodes along the path of an unpacked key and how it ends
func (t *oTree) walk(path []byte) ([]*oNode, oEnding) {
	if t.root == nil {
		return nil, endEmpty
	}
	n := t.root
	var ret []*oNode
	for {
		ret = append(ret, n)
		tail := path[len(n.Key):]
		if bytes.Equal(tail, n.PF) {
			if n.Data != nil {
				return ret, endPresent
			}
			return ret, endNoTerm
		}
		if !bytes.HasPrefix(tail, n.PF) {
			return ret, endSplit
		}
		c, ok := n.Children[tail[len(n.PF)]]
		if !ok {
			return ret, endExtend
		}
		n = c
	}
}
