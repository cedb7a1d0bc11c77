package main

// Commitment models of the monitor: two small models which follow the documented contract of trie.CommitmentModel
// and check, call by call, that the trie keeps its side of it.
//   open: a commitment is the complete description of the committed data, of any length. What a root says can be read.
//   add:  a commitment is a sum over the slots, updated by differences where the contract allows it.

import (
	"bytes"
	"encoding/binary"
	"encoding/hex"
	"fmt"
	"hash/fnv"
	"io"
	"sort"

	"github.com/iotaledger/trie.go/trie"
)

const (
	modOpen = "open"
	modAdd  = "add"
)

// toyV is a vector commitment, toyT a terminal commitment: different types, and pointers, which a model may update in place
type toyV struct {
	b    []byte
	sum  [2]uint64
	kind string
}

type toyT struct{ data []byte }

func putLen(w io.Writer, b []byte) error {
	var l [binary.MaxVarintLen64]byte
	n := binary.PutUvarint(l[:], uint64(len(b)))
	if _, err := w.Write(l[:n]); err != nil {
		return err
	}
	_, err := w.Write(b)
	return err
}

func getLen(r io.Reader) ([]byte, error) {
	var n uint64
	for s := uint(0); ; s += 7 {
		var b [1]byte
		if _, err := io.ReadFull(r, b[:]); err != nil {
			return nil, err
		}
		n |= uint64(b[0]&0x7f) << s
		if b[0] < 0x80 {
			break
		}
		if s > 28 {
			return nil, fmt.Errorf("wrong length")
		}
	}
	if n > 1<<26 {
		return nil, fmt.Errorf("wrong length")
	}
	b := make([]byte, n)
	_, err := io.ReadFull(r, b)
	return b, err
}

func lenBytes(b []byte) []byte {
	var buf bytes.Buffer
	_ = putLen(&buf, b)
	return buf.Bytes()
}

func (c *toyV) Write(w io.Writer) error {
	if c.kind == modAdd {
		var b [16]byte
		binary.BigEndian.PutUint64(b[:], c.sum[0])
		binary.BigEndian.PutUint64(b[8:], c.sum[1])
		_, err := w.Write(b[:])
		return err
	}
	return putLen(w, c.b)
}

func (c *toyV) Read(r io.Reader) (err error) {
	if c.kind == modAdd {
		var b [16]byte
		if _, err = io.ReadFull(r, b[:]); err == nil {
			c.sum[0], c.sum[1] = binary.BigEndian.Uint64(b[:]), binary.BigEndian.Uint64(b[8:])
		}
		return
	}
	c.b, err = getLen(r)
	return
}

func (c *toyV) Bytes() []byte {
	var b bytes.Buffer
	_ = c.Write(&b)
	return b.Bytes()
}
func (c *toyV) String() string { return hex.EncodeToString(c.Bytes()) }
func (c *toyV) Clone() trie.VCommitment {
	return &toyV{b: append([]byte(nil), c.b...), sum: c.sum, kind: c.kind}
}

func (c *toyT) Write(w io.Writer) error      { return putLen(w, c.data) }
func (c *toyT) Read(r io.Reader) (err error) { c.data, err = getLen(r); return }
func (c *toyT) Bytes() []byte                { return lenBytes(c.data) }
func (c *toyT) String() string               { return hex.EncodeToString(c.data) }
func (c *toyT) Clone() trie.TCommitment      { return &toyT{append([]byte(nil), c.data...)} }

// toyModel implements trie.CommitmentModel
type toyModel struct {
	t       *T
	cfg     Cfg
	kind    string
	inPlace bool // updated commitments are written into the given object
	updates int
	deltas  int
}

func (m *toyModel) PathArity() trie.PathArity { return arityOf(m.cfg.Arity) }
func (m *toyModel) Description() string       { return "model of the monitor: " + m.kind }
func (m *toyModel) ShortName() string         { return m.kind }
func (m *toyModel) NewVectorCommitment() trie.VCommitment {
	return &toyV{kind: m.kind}
}
func (m *toyModel) NewTerminalCommitment() trie.TCommitment { return &toyT{} }

func (m *toyModel) bad(format string, args ...any) {
	panic(violation{"contract of the model: " + fmt.Sprintf(format, args...)})
}

func (m *toyModel) EqualCommitments(a, b trie.Serializable) bool {
	if isNil(a) || isNil(b) {
		return isNil(a) && isNil(b)
	}
	switch x := a.(type) {
	case *toyV:
		y, ok := b.(*toyV)
		if !ok {
			m.bad("a vector commitment is compared with a %T", b)
		}
		return bytes.Equal(x.Bytes(), y.Bytes())
	case *toyT:
		y, ok := b.(*toyT)
		if !ok {
			m.bad("a terminal commitment is compared with a %T", b)
		}
		return bytes.Equal(x.data, y.data)
	}
	m.bad("comparing %T with %T", a, b)
	return false
}

func (m *toyModel) CommitToData(d []byte) trie.TCommitment {
	if len(d) == 0 {
		return nil
	}
	return &toyT{append([]byte(nil), d...)}
}

// toyForced is the rule which terminals are stored with the node; any rule is allowed
func toyForced(data []byte, cfg Cfg) bool {
	if cfg.Thr == 0 {
		return true
	}
	h := fnv.New32a()
	h.Write(data)
	return (h.Sum32()>>3)%3 == 0
}

func (m *toyModel) ForceStoreTerminalWithNode(c trie.TCommitment) bool {
	if isNil(c) {
		m.bad("storage rule asked about no terminal")
	}
	return toyForced(c.(*toyT).data, m.cfg)
}

// toyCommit is the definition of the commitment: slots in the order of the index, then terminal, then fragment
func toyCommit(kind string, arity int, children map[byte][]byte, term []byte, hasTerm bool, pf []byte) *toyV {
	if kind == modAdd {
		c := &toyV{kind: kind}
		for i, b := range children {
			c.add(int(i), b, false)
		}
		if hasTerm {
			c.add(arity, term, false)
		}
		c.add(arity+1, pf, false)
		return c
	}
	var b bytes.Buffer
	_ = putLen(&b, pf)
	if hasTerm {
		b.WriteByte(1)
		_ = putLen(&b, term)
	} else {
		b.WriteByte(0)
	}
	idx := make([]int, 0, len(children))
	for i := range children {
		idx = append(idx, int(i))
	}
	sort.Ints(idx)
	_ = putLen(&b, make([]byte, len(idx))) // count, in a wasteful way: makes sizes vary more
	for _, i := range idx {
		b.WriteByte(byte(i))
		b.Write(children[byte(i)])
	}
	return &toyV{kind: kind, b: b.Bytes()}
}

const toyP = 1<<61 - 1

func (c *toyV) add(slot int, data []byte, minus bool) {
	h := fnv.New128a()
	h.Write([]byte{byte(slot), byte(slot >> 8), 1})
	h.Write(data)
	h.Write([]byte{byte(slot), 7})
	s := h.Sum(nil)
	for i := range c.sum {
		x := binary.BigEndian.Uint64(s[8*i:]) % toyP
		if minus {
			x = toyP - x
		}
		c.sum[i] = (c.sum[i] + x) % toyP
	}
}

func (m *toyModel) calc(n *trie.NodeData) *toyV {
	ch := map[byte][]byte{}
	for i, c := range n.ChildCommitments {
		if int(i) >= m.cfg.Arity {
			m.bad("child index %d at arity %d", i, m.cfg.Arity)
		}
		if isNil(c) {
			continue
		}
		ch[i] = c.(*toyV).Bytes()
	}
	var term []byte
	if !isNil(n.Terminal) {
		term = n.Terminal.(*toyT).data
	}
	for _, u := range n.PathFragment {
		if int(u) >= m.cfg.Arity {
			m.bad("unit %d in a path fragment at arity %d", u, m.cfg.Arity)
		}
	}
	return toyCommit(m.kind, m.cfg.Arity, ch, term, !isNil(n.Terminal), n.PathFragment)
}

func (m *toyModel) CalcNodeCommitment(n *trie.NodeData) trie.VCommitment { return m.calc(n) }

func (m *toyModel) UpdateNodeCommitment(mutate *trie.NodeData, ch map[byte]trie.VCommitment, calcDelta bool, term trie.TCommitment, update *trie.VCommitment) {
	m.updates++
	if mutate == nil {
		m.bad("update of nothing")
	}
	for i, c := range ch {
		if int(i) >= m.cfg.Arity {
			m.bad("update of child %d at arity %d", i, m.cfg.Arity)
		}
		if !isNil(c) && c.(*toyV).kind != m.kind {
			m.bad("foreign commitment")
		}
	}
	if term != nil && isNil(term) {
		m.bad("typed nil as a terminal")
	}
	old := m.calc(mutate)
	// a model which updates in place loses the previous commitments of children, and computes from scratch
	incremental := update != nil && !isNil(*update) && calcDelta && !m.inPlace
	if incremental && !bytes.Equal((*update).Bytes(), old.Bytes()) {
		m.bad("the incremental update of a commitment %s which is not the commitment %s of the previous data", *update, old)
	}
	sum := old
	diff := func(slot int, before, after []byte, had, has bool) {
		if had {
			sum.add(slot, before, true)
		}
		if has {
			sum.add(slot, after, false)
		}
	}
	for i, c := range ch {
		before := mutate.ChildCommitments[i]
		if m.kind == modAdd {
			var x, y []byte
			if !isNil(before) {
				x = before.(*toyV).Bytes()
			}
			if !isNil(c) {
				y = c.(*toyV).Bytes()
			}
			diff(int(i), x, y, !isNil(before), !isNil(c))
		}
		if isNil(c) {
			delete(mutate.ChildCommitments, i)
		} else {
			mutate.ChildCommitments[i] = c
		}
	}
	if m.kind == modAdd {
		var x, y []byte
		if !isNil(mutate.Terminal) {
			x = mutate.Terminal.(*toyT).data
		}
		if term != nil {
			y = term.(*toyT).data
		}
		diff(m.cfg.Arity, x, y, !isNil(mutate.Terminal), term != nil)
	}
	mutate.Terminal = term
	if update == nil {
		return
	}
	n := sum
	if m.kind != modAdd || !incremental {
		n = m.calc(mutate)
	} else {
		m.deltas++
	}
	if m.inPlace && !isNil(*update) {
		o := (*update).(*toyV)
		o.b, o.sum = n.b, n.sum
		return
	}
	*update = n
}

// ---- reading a root of the open model

type toyReader struct {
	b []byte
}

func (r *toyReader) bytes() []byte {
	n, k := binary.Uvarint(r.b)
	if k <= 0 || uint64(len(r.b)-k) < n {
		panic(violation{"the root does not describe a tree"})
	}
	x := r.b[k : k+int(n)]
	r.b = r.b[k+int(n):]
	return x
}

func (r *toyReader) byte() byte {
	if len(r.b) == 0 {
		panic(violation{"the root does not describe a tree"})
	}
	x := r.b[0]
	r.b = r.b[1:]
	return x
}

// toyContent reads the committed pairs (path -> data) from a commitment of the open model
func toyContent(commit []byte, at []byte, into map[string][]byte) {
	outer := &toyReader{commit}
	r := &toyReader{outer.bytes()}
	if len(outer.b) != 0 {
		panic(violation{"extra bytes after the description of a node"})
	}
	path := append(append([]byte{}, at...), r.bytes()...)
	switch r.byte() {
	case 0:
	case 1:
		into[string(path)] = r.bytes()
	default:
		panic(violation{"the root does not describe a tree"})
	}
	for n := len(r.bytes()); n > 0; n-- {
		i := r.byte()
		toyContent(lenBytes(r.bytes()), append(append([]byte{}, path...), i), into)
	}
	if len(r.b) != 0 {
		panic(violation{"extra bytes in the description of a node"})
	}
}

// toyPath serializes what a lookup of the key gives
func toyPath(m *toyModel, key []byte, ns trie.NodeStore) []byte {
	g := trie.GetProofGeneric(ns, trie.UnpackBytes(key, m.PathArity()))
	var b bytes.Buffer
	b.WriteByte(byte(g.Ending))
	_ = putLen(&b, g.Key)
	for _, k := range g.Path {
		_ = putLen(&b, k)
		n, ok := ns.GetNode(k)
		if !ok {
			panic(violation{fmt.Sprintf("node '%x' on the path of key %x is missing", k, key)})
		}
		_ = putLen(&b, n.PathFragment())
		if t := n.Terminal(); !isNil(t) {
			_ = putLen(&b, t.Bytes())
		}
	}
	return b.Bytes()
}
