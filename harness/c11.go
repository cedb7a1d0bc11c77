package main

import (
	"bytes"
	"encoding/binary"
	"errors"
	"fmt"
	"io"
	"math/rand"
	"os"
	"path/filepath"
	"runtime"
	"testing/iotest"

	"github.com/iotaledger/trie.go/models/trie_blake2b"
	"github.com/iotaledger/trie.go/models/trie_kzg_bn256"
	"github.com/iotaledger/trie.go/trie"
)

func init() {
	register(&property{id: "C11", level: "fault_enumeration",
		rule:  "An object is serialized honestly, then: cut at every byte, extended, its reader fails at every byte, and its bytes are edited. Every variant is parsed all at once and through readers which deliver it byte by byte, in random pieces, with empty reads and with the end together with the last data. An independent strict parser says which bytes must be refused and which must be accepted with which content; bytes in between (unknown flag bits and the like) must be treated alike by all deliveries and re-serialize to an equal object. A non-trivial case is one variant of one object; distinct by its bytes.",
		assum: []string{"unknown flag bits, a children section without children and both storage flags at once are neither required nor forbidden to be accepted"},
		run:   runC11})
}

// verdicts of the strict parser
const (
	vRefuse = iota
	vAccept
	vLoose
)

// parser is one parser of external bytes
type parser struct {
	name   string
	bytes  func(b []byte) (any, error)    // whole input, must refuse trailing bytes; may be nil
	read   func(r io.Reader) (any, error) // from a stream
	write  func(o any) ([]byte, error)    // serialization
	same   func(a, b any) string          // "" when equal
	strict func(b []byte) (int, any, int) // verdict, object when vAccept (nil: not given), number of bytes consumed when from a stream (-1: unknown)
}

// pieces delivers the bytes in random pieces, with occasional empty reads
type pieces struct {
	b     []byte
	r     *rand.Rand
	empty bool
	last  bool
	err   error // returned at the end
	eager bool  // error together with the last data
}

func (p *pieces) Read(x []byte) (int, error) {
	if len(x) == 0 {
		return 0, nil
	}
	if len(p.b) == 0 {
		return 0, p.err
	}
	if p.empty && !p.last && p.r.Intn(3) == 0 {
		p.last = true
		return 0, nil
	}
	p.last = false
	n := 1 + p.r.Intn(minInt(len(x), len(p.b)))
	if p.r.Intn(3) == 0 {
		n = 1
	}
	n = copy(x[:n], p.b)
	p.b = p.b[n:]
	if len(p.b) == 0 && p.eager {
		return n, p.err
	}
	return n, nil
}

var errInjected = errors.New("injected fault of the reader")

func deliveries(t *T, b []byte) []io.Reader {
	c := func() []byte { return append([]byte(nil), b...) }
	return []io.Reader{
		bytes.NewReader(c()),
		iotest.OneByteReader(bytes.NewReader(c())),
		&pieces{b: c(), r: t.Rng, err: io.EOF},
		&pieces{b: c(), r: t.Rng, err: io.EOF, empty: true},
		&pieces{b: c(), r: t.Rng, err: io.EOF, eager: true},
		iotest.HalfReader(bytes.NewReader(c())),
		iotest.DataErrReader(bytes.NewReader(c())),
	}
}

var deliveryNames = []string{"at once", "byte by byte", "in pieces", "in pieces with empty reads", "with EOF together with the last piece", "in halves", "data with EOF"}

// judge parses b in all ways
func (p *parser) judge(t *T, b []byte, what string) {
	verdict, want, used := p.strict(b)
	t.Eval(1)
	t.Count("inputs "+p.name, 1)
	var first any
	var firstErr error
	in := append([]byte(nil), b...)
	if p.bytes != nil {
		t.mustNot(func() string { return fmt.Sprintf("%s: %s: %x", p.name, what, b) }, func() { first, firstErr = p.bytes(in) })
		t.Check(bytes.Equal(in, b), "%s: %s: parsing %x changes the input", p.name, what, b)
		switch verdict {
		case vRefuse:
			t.Check(firstErr != nil, "%s: %s: malformed bytes %x are accepted", p.name, what, b)
		case vAccept:
			t.Check(firstErr == nil, "%s: %s: well-formed bytes %x are refused: %v", p.name, what, b, firstErr)
			if want != nil {
				d := p.same(first, want)
				t.Check(d == "", "%s: %s: bytes %x are misread: %s", p.name, what, b, d)
			}
		}
		if firstErr == nil {
			t.Count("accepted", 1)
			p.again(t, first, b, what, verdict == vAccept)
		} else {
			t.Count("refused", 1)
		}
	}
	if p.read == nil {
		return
	}
	for i, r := range deliveries(t, b) {
		var o any
		var err error
		t.mustNot(func() string { return fmt.Sprintf("%s: %s: delivered %s: %x", p.name, what, deliveryNames[i], b) }, func() { o, err = p.read(r) })
		t.Count("deliveries", 1)
		if p.bytes == nil && i == 0 {
			first, firstErr = o, err
			switch {
			case verdict == vRefuse:
				t.Check(err != nil, "%s: %s: malformed bytes %x are accepted", p.name, what, b)
			case verdict == vAccept:
				t.Check(err == nil, "%s: %s: well-formed bytes %x are refused: %v", p.name, what, b, err)
			}
			if err == nil {
				p.again(t, o, b[:max(0, used)], what, verdict == vAccept)
			}
			continue
		}
		if firstErr == nil {
			t.Check(err == nil, "%s: %s: bytes %x are accepted at once, refused when delivered %s: %v", p.name, what, b, deliveryNames[i], err)
			d := p.same(o, first)
			t.Check(d == "", "%s: %s: bytes %x are read differently when delivered %s: %s", p.name, what, b, deliveryNames[i], d)
		} else if p.bytes == nil {
			t.Check(err != nil, "%s: %s: bytes %x are refused at once, accepted when delivered %s", p.name, what, b, deliveryNames[i])
		} else if err == nil {
			// a stream may go on after the object: only trailing bytes are a reason for the difference
			w, e := p.write(o)
			t.Check(e == nil && len(w) < len(b), "%s: %s: bytes %x are refused at once, accepted when delivered %s (%v)", p.name, what, b, deliveryNames[i], e)
		}
	}
	t.Seen(p.name, b)
}

// again serializes an accepted object and parses it back
func (p *parser) again(t *T, o any, b []byte, what string, exact bool) {
	var w []byte
	var err error
	t.mustNot(func() string { return fmt.Sprintf("%s: %s: serialization of what was parsed from %x", p.name, what, b) }, func() { w, err = p.write(o) })
	t.Check(err == nil, "%s: %s: what is parsed from %x does not serialize: %v", p.name, what, b, err)
	if exact {
		t.Check(bytes.Equal(w, b), "%s: %s: bytes %x are serialized as %x", p.name, what, b, w)
		return
	}
	var o2 any
	if p.bytes != nil {
		o2, err = p.bytes(w)
	} else {
		o2, err = p.read(bytes.NewReader(w))
	}
	t.Check(err == nil, "%s: %s: what is parsed from %x is serialized to %x which is refused: %v", p.name, what, b, w, err)
	d := p.same(o2, o)
	t.Check(d == "", "%s: %s: what is parsed from %x is serialized to %x which is a different object: %s", p.name, what, b, w, d)
}

// torture runs all systematic variants of one honest serialization
func (p *parser) torture(t *T, b []byte, every bool) {
	v, _, _ := p.strict(b)
	t.Check(v == vAccept, "harness: %s: honest bytes %x", p.name, b)
	p.judge(t, b, "honest")
	step := 1
	if !every && len(b) > 80 {
		step = 1 + len(b)/80
	}
	for i := 0; i < len(b); i += step {
		j := i
		if step > 1 {
			j = minInt(len(b)-1, i+t.Rng.Intn(step))
		}
		p.judgeCut(t, b, j)
	}
	p.judgeCut(t, b, len(b)-1)
	for _, tail := range [][]byte{{0}, {0xff}, randBytes(t.Rng, 1+t.Rng.Intn(40)), b} {
		x := append(append([]byte{}, b...), tail...)
		if p.bytes != nil {
			_, err := p.bytes(x)
			t.Check(err != nil, "%s: %x with trailing bytes %s is accepted", p.name, b, hx(tail))
		}
		if p.read != nil {
			rd := bytes.NewReader(x)
			o, err := p.read(rd)
			t.Check(err == nil && rd.Len() == len(tail), "%s: reading %x from a longer stream: %v, %d of %d following bytes left", p.name, b, err, rd.Len(), len(tail))
			w, err := p.write(o)
			t.Check(err == nil && bytes.Equal(w, b), "%s: reading %x from a longer stream gives %x", p.name, b, w)
		}
		t.Count("extended inputs", 1)
	}
}

// judgeCut: input truncated at i, and a reader which fails at i
func (p *parser) judgeCut(t *T, b []byte, i int) {
	x := append([]byte(nil), b[:i]...)
	t.Eval(1)
	t.Seen(p.name, "cut", x)
	t.Count("truncated inputs", 1)
	if p.bytes != nil {
		var err error
		t.mustNot(func() string { return fmt.Sprintf("%s truncated at %d of %x", p.name, i, b) }, func() { _, err = p.bytes(x[:i:i]) })
		t.Check(err != nil, "%s: truncated at %d of %d bytes is accepted: %x", p.name, i, len(b), b)
	}
	if p.read == nil {
		return
	}
	for k, r := range deliveries(t, x) {
		var err error
		t.mustNot(func() string { return fmt.Sprintf("%s truncated at %d of %x", p.name, i, b) }, func() { _, err = p.read(r) })
		t.Check(err != nil, "%s: truncated at %d of %d bytes delivered %s is accepted: %x", p.name, i, len(b), deliveryNames[k], b)
		if i > 0 && k == 0 {
			t.Count("truncated inputs which are not the plain end", b2i(err != io.EOF))
		}
	}
	for k := 0; k < 3; k++ {
		r := &pieces{b: append([]byte(nil), x...), r: t.Rng, err: errInjected, eager: k == 1, empty: k == 2}
		var err error
		t.mustNot("failing reader", func() { _, err = p.read(r) })
		t.Check(reported(err), "%s: fault of the reader at byte %d of %d is reported as: %v", p.name, i, len(b), err)
		t.Count("faults of readers", 1)
	}
}

// ---- nodes

type lexer struct {
	b    []byte
	i    int
	fail bool
}

func (l *lexer) take(n int) []byte {
	if l.fail || n < 0 || l.i+n > len(l.b) {
		l.fail = true
		return nil
	}
	r := l.b[l.i : l.i+n]
	l.i += n
	return r
}
func (l *lexer) u8() int {
	if b := l.take(1); b != nil {
		return int(b[0])
	}
	return 0
}
func (l *lexer) u16() int {
	if b := l.take(2); b != nil {
		return int(binary.LittleEndian.Uint16(b))
	}
	return 0
}
func (l *lexer) b16() []byte { return l.take(l.u16()) }

type parsedNode struct {
	nd    *trie.NodeData
	isKey bool
	skip  bool
}

func nodeParser(cfg Cfg, key []byte, vs trie.KVReader) *parser {
	model := newModel(cfg)
	a := arityOf(cfg.Arity)
	flagsOf := func(b []byte, nd *trie.NodeData) *parsedNode {
		r := &parsedNode{nd: nd}
		if len(b) > 0 {
			r.isKey = b[0]&fKey != 0
			r.skip = b[0]&fValue != 0
		}
		return r
	}
	return &parser{
		name: "node " + cfg.String(),
		bytes: func(b []byte) (any, error) {
			nd, err := trie.NodeDataFromBytes(model, b, key, a, vs)
			if err != nil {
				return nil, err
			}
			return flagsOf(b, nd), nil
		},
		read: func(r io.Reader) (any, error) {
			var seen bytes.Buffer
			nd := trie.NewNodeData()
			if err := nd.Read(io.TeeReader(r, &seen), model, key, a, vs); err != nil {
				return nil, err
			}
			return flagsOf(seen.Bytes(), nd), nil
		},
		write: func(o any) ([]byte, error) {
			n := o.(*parsedNode)
			var w bytes.Buffer
			err := n.nd.Write(&w, a, n.isKey, n.skip)
			return w.Bytes(), err
		},
		same: func(x, y any) string {
			p, q := x.(*parsedNode).nd, y.(*parsedNode).nd
			switch {
			case !bytes.Equal(p.PathFragment, q.PathFragment):
				return fmt.Sprintf("path fragment %x and %x", p.PathFragment, q.PathFragment)
			case isNil(p.Terminal) != isNil(q.Terminal):
				return "terminal is there in one of them"
			case !isNil(p.Terminal) && !bytes.Equal(termRaw(p.Terminal, cfg), termRaw(q.Terminal, cfg)):
				return fmt.Sprintf("terminal %x and %x", p.Terminal.Bytes(), q.Terminal.Bytes())
			case len(p.ChildCommitments) != len(q.ChildCommitments):
				return fmt.Sprintf("%d and %d children", len(p.ChildCommitments), len(q.ChildCommitments))
			}
			for i, c := range p.ChildCommitments {
				d, ok := q.ChildCommitments[i]
				if !ok || !bytes.Equal(c.Bytes(), d.Bytes()) {
					return fmt.Sprintf("child %d", i)
				}
			}
			return ""
		},
		strict: func(b []byte) (int, any, int) {
			l := &lexer{b: b}
			loose := false
			nd := trie.NewNodeData()
			fl := byte(l.u8())
			if fl&^(fTerm|fValue|fKey|fChildren|fPF) != 0 {
				loose = true
			}
			if fl&fPF != 0 {
				e := l.b16()
				if l.fail {
					return vRefuse, nil, 0
				}
				u, ok := oDecode(e, cfg.Arity)
				if !ok {
					return vRefuse, nil, 0
				}
				if len(e) == 0 {
					loose = true
				}
				nd.PathFragment = append([]byte(nil), u...)
			}
			if fl&fTerm == 0 && fl&(fKey|fValue) != 0 {
				return vRefuse, nil, 0
			}
			if fl&fTerm != 0 {
				full := append(append([]byte{}, key...), nd.PathFragment...)
				if fl&fKey != 0 && fl&fValue != 0 {
					loose = true
				}
				switch {
				case fl&fKey != 0:
					if len(full) == 0 {
						return vRefuse, nil, 0
					}
					nd.Terminal = model.CommitToData(full)
				case fl&fValue != 0:
					per := map[int]int{2: 8, 16: 2, 256: 1}[cfg.Arity]
					if vs == nil {
						return vRefuse, nil, 0
					}
					v := vs.Get(oPack(full, cfg.Arity))
					if len(v) == 0 {
						return vRefuse, nil, 0
					}
					if len(full)%per != 0 {
						loose = true
					}
					nd.Terminal = model.CommitToData(v)
				case cfg.KZG:
					s := l.take(32)
					if l.fail {
						return vRefuse, nil, 0
					}
					nd.Terminal = model.NewTerminalCommitment()
					if nd.Terminal.Read(bytes.NewReader(s)) != nil {
						return vRefuse, nil, 0
					}
					loose = loose || !bytes.Equal(nd.Terminal.Bytes(), s)
				default:
					h := l.u8()
					n := h & 0x3f
					if n > 32 {
						return vRefuse, nil, 0
					}
					if n == 0 || n > cfg.HS || h&0xc0 == 0x40 || h&0xc0 == 0x80 {
						loose = true
					}
					raw := l.take(n)
					if l.fail {
						return vRefuse, nil, 0
					}
					if !loose {
						nd.Terminal = model.CommitToData(raw) // not longer than the hash: itself
					}
				}
			}
			if fl&fChildren != 0 {
				flags := l.take(max(1, cfg.Arity/8))
				if l.fail {
					return vRefuse, nil, 0
				}
				n := 0
				for i := 0; i < len(flags)*8; i++ {
					if flags[i/8]&(1<<(i%8)) == 0 {
						continue
					}
					if i >= cfg.Arity {
						loose = true
						continue
					}
					n++
					sz := cfg.HS
					if cfg.KZG {
						sz = 64
					}
					cb := l.take(sz)
					if l.fail {
						return vRefuse, nil, 0
					}
					c := model.NewVectorCommitment()
					if c.Read(bytes.NewReader(cb)) != nil {
						return vRefuse, nil, 0 // not a point
					}
					if !bytes.Equal(c.Bytes(), cb) {
						loose = true
					}
					nd.ChildCommitments[byte(i)] = c
				}
				if n == 0 {
					loose = true
					if fl&fTerm == 0 {
						return vRefuse, nil, 0
					}
				}
			}
			if fl&(fTerm|fChildren) == 0 || l.fail || l.i != len(b) {
				return vRefuse, nil, 0
			}
			if loose {
				return vLoose, nil, -1
			}
			return vAccept, flagsOf(b, nd), len(b)
		},
	}
}

// ---- proofs of the hash model

func blakeProofParser() *parser {
	return &parser{
		name:  "blake2b proof",
		bytes: func(b []byte) (any, error) { return nilIfErr(trie_blake2b.ProofFromBytes(b)) },
		read: func(r io.Reader) (any, error) {
			p := &trie_blake2b.Proof{}
			return p, p.Read(r)
		},
		write: func(o any) ([]byte, error) {
			var w bytes.Buffer
			err := o.(*trie_blake2b.Proof).Write(&w)
			return w.Bytes(), err
		},
		same: func(a, b any) string { return proofsEqual(a.(*trie_blake2b.Proof), b.(*trie_blake2b.Proof)) },
		strict: func(b []byte) (int, any, int) {
			l := &lexer{b: b}
			loose := false
			a, hs := l.u8(), l.u8()
			if l.fail || (a != 1 && a != 15 && a != 255) || (hs != 20 && hs != 32) {
				return vRefuse, nil, 0
			}
			p := &trie_blake2b.Proof{PathArity: trie.PathArity(a), HashSize: trie_blake2b.HashSize(hs)}
			k, ok := oDecode(l.b16(), a+1)
			if !ok || l.fail {
				return vRefuse, nil, 0
			}
			p.Key = append([]byte(nil), k...)
			n := l.u16()
			if l.fail {
				return vRefuse, nil, 0
			}
			for i := 0; i < n; i++ {
				e := &trie_blake2b.ProofElement{Children: map[byte][]byte{}}
				pf, ok := oDecode(l.b16(), a+1)
				if !ok || l.fail {
					return vRefuse, nil, 0
				}
				e.PathFragment = append([]byte(nil), pf...)
				e.ChildIndex = l.u16()
				fl := l.u8()
				if fl&^3 != 0 {
					loose = true
				}
				if fl&1 != 0 {
					e.Terminal = append([]byte{}, l.take(l.u8())...)
					if len(e.Terminal) == 0 || len(e.Terminal) > hs {
						loose = true
					}
				}
				if fl&2 != 0 {
					flags := l.take(32)
					if l.fail {
						return vRefuse, nil, 0
					}
					for c := 0; c < 256; c++ {
						if flags[c/8]&(1<<(c%8)) == 0 {
							continue
						}
						if c > a {
							loose = true
							continue
						}
						e.Children[byte(c)] = append([]byte{}, l.take(hs)...)
					}
					if len(e.Children) == 0 {
						loose = true
					}
				}
				if l.fail {
					return vRefuse, nil, 0
				}
				p.Path = append(p.Path, e)
			}
			if l.i != len(b) {
				return vRefuse, nil, 0
			}
			if loose {
				return vLoose, nil, -1
			}
			return vAccept, p, len(b)
		},
	}
}

func nilIfErr[T any](o T, err error) (any, error) {
	if err != nil {
		return nil, err
	}
	return o, nil
}

// ---- proofs of the KZG model

func kzgProofParser() *parser {
	return &parser{
		name:  "KZG proof",
		bytes: func(b []byte) (any, error) { return nilIfErr(trie_kzg_bn256.ProofOfInclusionFromBytes(b)) },
		read: func(r io.Reader) (any, error) {
			p := &trie_kzg_bn256.ProofOfInclusion{}
			return p, p.Read(r)
		},
		write: func(o any) ([]byte, error) {
			var w bytes.Buffer
			err := o.(*trie_kzg_bn256.ProofOfInclusion).Write(&w)
			return w.Bytes(), err
		},
		same: func(a, b any) string {
			p, q := a.(*trie_kzg_bn256.ProofOfInclusion), b.(*trie_kzg_bn256.ProofOfInclusion)
			if !bytes.Equal(p.Key, q.Key) || !bytes.Equal(scalarBytes(p.Terminal), scalarBytes(q.Terminal)) || !kzgSameBody(p, q) {
				return "differs"
			}
			return ""
		},
		strict: func(b []byte) (int, any, int) {
			l := &lexer{b: b}
			loose := false
			p := &trie_kzg_bn256.ProofOfInclusion{Terminal: suiteBN.G1().Scalar()}
			p.Key = append([]byte(nil), l.b16()...)
			s := l.take(32)
			if l.fail || p.Terminal.UnmarshalBinary(s) != nil {
				return vRefuse, nil, 0
			}
			loose = loose || !bytes.Equal(scalarBytes(p.Terminal), s)
			n := l.u16()
			if l.fail || l.i+n*130 != len(b) {
				return vRefuse, nil, 0
			}
			for i := 0; i < n; i++ {
				e := &trie_kzg_bn256.ProofElement{C: suiteBN.G1().Point(), Proof: suiteBN.G1().Point()}
				cb := l.take(64)
				e.VectorIndex = uint16(l.u16())
				pb := l.take(64)
				if l.fail || e.C.UnmarshalBinary(append([]byte{}, cb...)) != nil || e.Proof.UnmarshalBinary(append([]byte{}, pb...)) != nil {
					return vRefuse, nil, 0
				}
				loose = loose || !bytes.Equal(mustPoint(e.C), cb) || !bytes.Equal(mustPoint(e.Proof), pb)
				p.Path = append(p.Path, e)
			}
			if loose {
				return vLoose, nil, -1
			}
			return vAccept, p, len(b)
		},
	}
}

// ---- fields

func fieldParser(name string, lenBytes int, read func(r io.Reader) ([]byte, error), write func(w io.Writer, b []byte) error) *parser {
	return &parser{
		name: name,
		read: func(r io.Reader) (any, error) { return nilIfErr(read(r)) },
		write: func(o any) ([]byte, error) {
			var w bytes.Buffer
			err := write(&w, o.([]byte))
			return w.Bytes(), err
		},
		same: func(a, b any) string {
			if !bytes.Equal(a.([]byte), b.([]byte)) {
				return fmt.Sprintf("%s and %s", hx(a.([]byte)), hx(b.([]byte)))
			}
			return ""
		},
		strict: func(b []byte) (int, any, int) {
			l := &lexer{b: b}
			x := l.take(lenBytes)
			if l.fail {
				return vRefuse, nil, 0
			}
			n := 0
			for i := len(x) - 1; i >= 0; i-- {
				n = n<<8 | int(x[i])
			}
			d := l.take(n)
			if l.fail {
				return vRefuse, nil, 0
			}
			return vAccept, append([]byte{}, d...), l.i
		},
	}
}

func fixedParser(name string, n int, read func(r io.Reader) ([]byte, error)) *parser {
	return &parser{
		name:  name,
		read:  func(r io.Reader) (any, error) { return nilIfErr(read(r)) },
		write: func(o any) ([]byte, error) { return o.([]byte), nil },
		same: func(a, b any) string {
			if !bytes.Equal(a.([]byte), b.([]byte)) {
				return fmt.Sprintf("%x and %x", a, b)
			}
			return ""
		},
		strict: func(b []byte) (int, any, int) {
			if len(b) < n {
				return vRefuse, nil, 0
			}
			return vAccept, b[:n], n
		},
	}
}

func fieldParsers() []*parser {
	return []*parser{
		fieldParser("ReadBytes8", 1, trie.ReadBytes8, trie.WriteBytes8),
		fieldParser("ReadBytes16", 2, trie.ReadBytes16, trie.WriteBytes16),
		fieldParser("ReadBytes32", 4, trie.ReadBytes32, trie.WriteBytes32),
		fixedParser("ReadByte", 1, func(r io.Reader) ([]byte, error) { b, err := trie.ReadByte(r); return []byte{b}, err }),
		fixedParser("ReadUint16", 2, func(r io.Reader) ([]byte, error) {
			var x uint16
			err := trie.ReadUint16(r, &x)
			return trie.Uint16To2Bytes(x), err
		}),
		fixedParser("ReadUint32", 4, func(r io.Reader) ([]byte, error) {
			var x uint32
			err := trie.ReadUint32(r, &x)
			return trie.Uint32To4Bytes(x), err
		}),
	}
}

// ---- commitments

func commitParser(cfg Cfg, vector bool) *parser {
	model := newModel(cfg)
	mk := func() trie.Serializable {
		if vector {
			return model.NewVectorCommitment()
		}
		return model.NewTerminalCommitment()
	}
	p := &parser{
		name: fmt.Sprintf("commitment %s vector=%v", cfg, vector),
		read: func(r io.Reader) (any, error) {
			c := mk()
			return c, c.Read(r)
		},
		write: func(o any) ([]byte, error) {
			var w bytes.Buffer
			err := o.(trie.Serializable).Write(&w)
			return w.Bytes(), err
		},
		same: func(a, b any) string {
			if !bytes.Equal(a.(trie.Serializable).Bytes(), b.(trie.Serializable).Bytes()) || !model.EqualCommitments(a.(trie.Serializable), b.(trie.Serializable)) {
				return fmt.Sprintf("%x and %x", a.(trie.Serializable).Bytes(), b.(trie.Serializable).Bytes())
			}
			return ""
		},
	}
	if vector {
		tr := trie.New(model, newMStore(), nil)
		p.bytes = func(b []byte) (any, error) { return nilIfErr(tr.VectorCommitmentFromBytes(b)) }
	}
	p.strict = func(b []byte) (int, any, int) {
		n := cfg.HS
		loose := false
		switch {
		case cfg.KZG && vector:
			n = 64
		case cfg.KZG:
			n = 32
		case !vector:
			if len(b) == 0 {
				return vRefuse, nil, 0
			}
			n = 1 + int(b[0]&0x3f)
			if n > 33 {
				return vRefuse, nil, 0
			}
			loose = n == 1 || n > cfg.HS+1 || b[0]&0xc0 == 0x40 || b[0]&0xc0 == 0x80
		}
		if len(b) < n || p.bytes != nil && len(b) > n {
			return vRefuse, nil, 0
		}
		if cfg.KZG {
			var err error
			var c []byte
			if vector {
				x := suiteBN.G1().Point()
				if err = x.UnmarshalBinary(append([]byte{}, b[:n]...)); err == nil {
					c = mustPoint(x)
				}
			} else {
				x := suiteBN.G1().Scalar()
				if err = x.UnmarshalBinary(append([]byte{}, b[:n]...)); err == nil {
					c = scalarBytes(x)
				}
			}
			if err != nil {
				return vRefuse, nil, 0
			}
			loose = !bytes.Equal(c, b[:n])
		}
		if loose {
			return vLoose, nil, n
		}
		return vAccept, nil, n
	}
	return p
}

// honestNode serializes random node data
func honestNode(t *T, cfg Cfg) (b, key []byte, vs *MStore) {
	model := newModel(cfg)
	for {
		vs = newMStore()
		key = randUnits(t, cfg.Arity, t.Rng.Intn(4))
		pf := randUnits(t, cfg.Arity, []int{0, 0, 1, 2, 5, 8, 16, 40}[t.Rng.Intn(8)])
		full := append(append([]byte{}, key...), pf...)
		per := map[int]int{2: 8, 16: 2, 256: 1}[cfg.Arity]
		nd := trie.NewNodeData()
		nd.PathFragment = pf
		data := randTermData(t, cfg)
		isKey, skip := false, false
		if data != nil {
			switch t.Rng.Intn(4) {
			case 0:
				if len(full) > 0 {
					isKey = true
					data = full
				}
			case 1:
				if len(full)%per == 0 {
					skip = true
					vs.Set(oPack(full, cfg.Arity), data)
				}
			}
			nd.Terminal = model.CommitToData(data)
		}
		for i := 0; i < []int{0, 0, 1, 2, 3}[t.Rng.Intn(5)]; i++ {
			x := byte(t.Rng.Intn(cfg.Arity))
			if cfg.KZG {
				nd.ChildCommitments[x] = kzgChild(t)
			} else {
				c := model.NewVectorCommitment()
				_ = c.Read(bytes.NewReader(randBytes(t.Rng, cfg.HS)))
				nd.ChildCommitments[x] = c
			}
		}
		if data == nil && len(nd.ChildCommitments) == 0 {
			continue
		}
		var w bytes.Buffer
		err := nd.Write(&w, arityOf(cfg.Arity), isKey, skip)
		t.Check(err == nil, "node is not written: %v", err)
		return w.Bytes(), key, vs
	}
}

func nodeInputs(t *T, cfg Cfg, n int, every bool) {
	b, key, vs := honestNode(t, cfg)
	p := nodeParser(cfg, key, vs)
	p.torture(t, b, every)
	b2, _, _ := honestNode(t, cfg)
	for i := 0; i < n; i++ {
		p.judge(t, mutBytes(t, [][]byte{b, b, b2}), "edited")
	}
	// without the value store
	if len(b) > 0 && b[0]&fValue != 0 && b[0]&fKey == 0 {
		for _, s := range []trie.KVReader{nil, newMStore(), emptyValues{}} {
			_, err := trie.NodeDataFromBytes(newModel(cfg), b, key, arityOf(cfg.Arity), s)
			t.Check(err != nil, "%s: node %x which refers to a value is read without the value", cfg, b)
		}
		t.Count("nodes without their value", 1)
	}
	t.Sample("%s key=%x node=%x", cfg, key, b)
}

// emptyValues is a reader which gives an empty slice for every key
type emptyValues struct{}

func (emptyValues) Get([]byte) []byte { return []byte{} }
func (emptyValues) Has([]byte) bool   { return false }

func runC11(c *Ctx) {
	c.Cases("nodes", 9000*c.scale, func(t *T) {
		cfg := allCfgs()[t.n%6]
		cfg.Thr = []int{0, 0, 5, 40}[t.Rng.Intn(4)]
		nodeInputs(t, cfg, 60, t.n%5 == 0)
	})
	c.Cases("nodes-kzg", 300*c.scale, func(t *T) { nodeInputs(t, Cfg{Arity: 256, HS: 32, KZG: true}, 25, false) })
	c.Cases("nodes-small", 6*256, func(t *T) {
		// all one- and two-byte inputs, and all third bytes for the interesting ones
		cfg := allCfgs()[t.n%6]
		f := byte(t.n / 6)
		vs := newMStore()
		vs.Set([]byte("\x00"), []byte{1})
		p := nodeParser(cfg, []byte{0, 0, 0, 0, 0, 0, 0, 0}[:map[int]int{2: 8, 16: 2, 256: 1}[cfg.Arity]], vs)
		p.judge(t, []byte{f}, "small")
		for x := 0; x < 256; x += 1 + 3*b2i(f > 0x1f) {
			p.judge(t, []byte{f, byte(x)}, "small")
			if f <= 0x1f {
				p.judge(t, []byte{f, byte(x), byte(t.Rng.Intn(4))}, "small")
				p.judge(t, append([]byte{f, byte(x)}, randBytes(t.Rng, t.Rng.Intn(60))...), "small")
			}
		}
	})
	c.Cases("node-random", 20000*c.scale, func(t *T) {
		cfg := allCfgs()[t.n%6]
		p := nodeParser(cfg, randUnits(t, cfg.Arity, t.Rng.Intn(3)), []trie.KVReader{nil, newMStore()}[t.Rng.Intn(2)])
		for i := 0; i < 20; i++ {
			b := randBytes(t.Rng, t.Rng.Intn(90))
			if len(b) > 0 {
				b[0] &= 0x1f
			}
			if len(b) > 2 && t.Rng.Intn(2) == 0 {
				b[1], b[2] = byte(t.Rng.Intn(8)), 0
			}
			p.judge(t, b, "random")
		}
	})
	c.Cases("proofs", 3000*c.scale, func(t *T) {
		s := stateBy(t, allCfgs()[t.n%6], 25)
		p := blakeProofParser()
		var pool [][]byte
		for _, k := range s.probeKeys(t, 4) {
			pool = append(pool, s.honest(t, k).Bytes())
		}
		for i, b := range pool {
			p.torture(t, b, i == 0 && len(b) < 600)
		}
		for i := 0; i < 80; i++ {
			p.judge(t, mutBytes(t, pool), "edited")
		}
		t.Sample("%s proof %s", s.cfg, hx(pool[0]))
	})
	c.Cases("proofs-kzg", 60*c.scale, func(t *T) {
		kp := newKzgPool(t, 2)
		p := kzgProofParser()
		var pool [][]byte
		for _, h := range kp.honest {
			pool = append(pool, h.Bytes())
		}
		for _, b := range pool[:minInt(len(pool), 2)] {
			p.torture(t, b, false)
		}
		for i := 0; i < 60; i++ {
			p.judge(t, mutBytes(t, pool), "edited")
		}
	})
	c.Cases("commitments", 700*c.scale, func(t *T) {
		cfg := nodeCfgs()[t.n%7]
		m := newModel(cfg)
		p := commitParser(cfg, true)
		var b []byte
		if cfg.KZG {
			b = kzgChild(t).Bytes()
		} else {
			b = randBytes(t.Rng, cfg.HS)
		}
		p.torture(t, b, true)
		q := commitParser(cfg, false)
		d := randTermData(t, cfg)
		for d == nil {
			d = randTermData(t, cfg)
		}
		tb := m.CommitToData(d).Bytes()
		q.torture(t, tb, true)
		for i := 0; i < 30; i++ {
			p.judge(t, mutBytes(t, [][]byte{b}), "edited")
			q.judge(t, mutBytes(t, [][]byte{tb}), "edited")
		}
		if !cfg.KZG && t.n < 7*256 {
			q.judge(t, append([]byte{byte(t.n / 7)}, randBytes(t.Rng, 63)...), "first byte")
		}
	})
	c.Cases("fields", 3000*c.scale, func(t *T) {
		for _, p := range fieldParsers() {
			n := t.Rng.Intn(40)
			switch t.Rng.Intn(6) {
			case 0:
				n = 0
			case 1:
				n = 255
			}
			if p.name != "ReadBytes8" && t.Rng.Intn(6) == 0 {
				n = []int{256, 257, 300, 1000, 4096, 65535}[t.Rng.Intn(6)]
			}
			d := randBytes(t.Rng, n)
			var b []byte
			switch p.name {
			case "ReadBytes8":
				b = append([]byte{byte(n)}, d...)
			case "ReadBytes16":
				b = append([]byte{byte(n), byte(n >> 8)}, d...)
			case "ReadBytes32":
				b = append([]byte{byte(n), byte(n >> 8), 0, 0}, d...)
			case "ReadByte":
				b = randBytes(t.Rng, 1)
			case "ReadUint16":
				b = randBytes(t.Rng, 2)
			default:
				b = randBytes(t.Rng, 4)
			}
			p.torture(t, b, n <= 40)
			for i := 0; i < 10; i++ {
				p.judge(t, mutBytes(t, [][]byte{b}), "edited")
			}
		}
	})
	c.Cases("paths", 400*c.scale, func(t *T) {
		// encoded paths inside of a longer buffer: nothing behind the slice is read or changed
		arity := []int{2, 16, 256}[t.n%3]
		for i := 0; i < 50; i++ {
			b := randBytes(t.Rng, t.Rng.Intn(12))
			if len(b) > 0 && t.Rng.Intn(2) == 0 {
				b[0] %= 9
			}
			if len(b) > 1 && t.Rng.Intn(2) == 0 {
				b[len(b)-1] &= 0xff << uint(t.Rng.Intn(9))
			}
			checkDec(t, b, arity)
			buf := append(append([]byte{}, b...), 0xAA, 0xBB)
			_, err := trie.DecodeToUnpackedBytes(buf[:len(b)], arityOf(arity))
			_, ok := oDecode(b, arity)
			t.Check((err == nil) == ok && buf[len(b)] == 0xAA, "decoding %x depends on or changes the bytes behind", b)
			t.Seen("path", arity, b)
		}
	})
	c.Cases("setups", 24*c.scale, func(t *T) {
		d := 1 + t.n%4
		k := newSetup(t, d, t.n%2 == 0)
		k.ts = k.roundTrip(t)
		b := k.ts.Bytes()
		for i := 0; i < len(b); i++ {
			var err error
			t.mustNot("setup", func() { _, err = trie_kzg_bn256.TrustedSetupFromBytes(suiteBN, b[:i:i]) })
			t.Check(err != nil, "setup of %d bytes truncated at %d is loaded", len(b), i)
			t.Eval(1)
			t.Count("truncated setups", 1)
		}
		c09Corrupt(t, k, 40)
		f := filepath.Join(tmpDir(), fmt.Sprintf("setup%d", t.n))
		defer os.Remove(f)
		for _, x := range [][]byte{b, b[:len(b)-1], append(append([]byte{}, b...), 1), {}, b[:len(b)/2]} {
			t.Check(os.WriteFile(f, x, 0600) == nil, "harness: file")
			_, err := trie_kzg_bn256.TrustedSetupFromFile(suiteBN, f)
			t.Check((err == nil) == bytes.Equal(x, b), "setup file of %d bytes (%d in full): %v", len(x), len(b), err)
		}
		_, err := trie_kzg_bn256.TrustedSetupFromFile(suiteBN, f+".missing")
		t.Check(err != nil, "missing setup file is loaded")
		t.Seen("setup", b)
	})
	// memory is bounded by the size of the input, whatever lengths the input declares. One at a time: the counter is global
	c.casesW("memory", 60, 1, func(t *T) {
		mem := func(what string, n int, f func()) {
			var a, b runtime.MemStats
			runtime.ReadMemStats(&a)
			t.mustNot(what, f)
			runtime.ReadMemStats(&b)
			d := b.TotalAlloc - a.TotalAlloc
			t.Check(d < uint64(64<<20+n*1000), "%s: %d bytes of input allocate %d bytes", what, n, d)
			t.Eval(1)
			t.Count("allocations measured", 1)
		}
		h := []byte{0xff, 0xff, 0xff, byte(0x7f + 0x80*(t.n%2))}
		tail := randBytes(t.Rng, t.Rng.Intn(20))
		in := append(append([]byte{}, h...), tail...)
		mem("ReadBytes32", len(in), func() { _, err := trie.ReadBytes32(bytes.NewReader(in)); t.Check(err != nil, "accepted") })
		mem("stream", len(in), func() {
			err := trie.NewBinaryStreamIterator(bytes.NewReader(append([]byte{0, 0}, in...))).Iterate(func(k, v []byte) bool { return true })
			t.Check(err != nil, "a stream with a truncated value of declared length 4 GB is accepted")
		})
		mem("blake2b proof", 100, func() {
			_, err := trie_blake2b.ProofFromBytes(append([]byte{255, 32, 0, 0, 0xff, 0xff}, tail...))
			t.Check(err != nil, "accepted")
		})
		mem("KZG proof", 100, func() {
			_, err := trie_kzg_bn256.ProofOfInclusionFromBytes(append(append(make([]byte, 34), 0xff, 0xff), tail...))
			t.Check(err != nil, "accepted")
		})
		mem("setup", 100, func() {
			_, err := trie_kzg_bn256.TrustedSetupFromBytes(suiteBN, append([]byte{0xff, 0xff}, append(make([]byte, 32), tail...)...))
			t.Check(err != nil, "accepted")
		})
		mem("node", 100, func() {
			_, err := trie.NodeDataFromBytes(newModel(Cfg{Arity: 256, HS: 32}), append([]byte{0x11, 0xff, 0xff}, tail...), nil, trie.PathArity256, nil)
			t.Check(err != nil, "accepted")
		})
		t.Seen("mem", in)
	})
	// a serializer reports the faults of its writer
	c.Cases("writers", 300*c.scale, func(t *T) {
		type ws struct {
			name string
			f    func(w io.Writer) error
		}
		var all []ws
		cfg := nodeCfgs()[t.n%7]
		if t.n%7 == 6 && t.n > 7*5 {
			cfg = allCfgs()[t.n%6]
		}
		b, key, vs := honestNode(t, cfg)
		p := nodeParser(cfg, key, vs)
		o, err := p.bytes(b)
		t.Check(err == nil, "node %x: %v", b, err)
		n := o.(*parsedNode)
		all = append(all, ws{"node", func(w io.Writer) error { return n.nd.Write(w, arityOf(cfg.Arity), n.isKey, n.skip) }})
		if n.nd.Terminal != nil {
			all = append(all, ws{"terminal", n.nd.Terminal.Write})
		}
		for _, c := range n.nd.ChildCommitments {
			all = append(all, ws{"commitment", c.Write})
		}
		if !cfg.KZG {
			s := stateBy(t, cfg, 10)
			for _, k := range s.probeKeys(t, 2) {
				all = append(all, ws{"proof", s.honest(t, k).Write})
			}
		} else {
			all = append(all, ws{"KZG proof", newKzgPool(t, 1).honest[0].Write})
		}
		d := randBytes(t.Rng, 1+t.Rng.Intn(20))
		all = append(all, ws{"WriteBytes8", func(w io.Writer) error { return trie.WriteBytes8(w, d) }},
			ws{"WriteBytes16", func(w io.Writer) error { return trie.WriteBytes16(w, d) }},
			ws{"WriteBytes32", func(w io.Writer) error { return trie.WriteBytes32(w, d) }},
			ws{"WriteUint16", func(w io.Writer) error { return trie.WriteUint16(w, 7) }},
			ws{"WriteUint32", func(w io.Writer) error { return trie.WriteUint32(w, 7) }},
			ws{"WriteByte", func(w io.Writer) error { return trie.WriteByte(w, 7) }})
		for _, x := range all {
			var full bytes.Buffer
			t.Check(x.f(&full) == nil, "%s: not written", x.name)
			step := 1 + full.Len()/60
			for i := 0; i < full.Len(); i += step {
				fw := &failWriter{left: i}
				var err error
				t.mustNot(x.name, func() { err = x.f(fw) })
				t.Check(reported(err), "%s of %d bytes: fault of the writer after %d bytes is reported as: %v", x.name, full.Len(), i, err)
				t.Check(bytes.Equal(fw.got, full.Bytes()[:len(fw.got)]), "%s: written bytes differ", x.name)
				t.Eval(1)
				t.Count("faults of writers", 1)
			}
			t.Seen(x.name, full.Bytes())
		}
	})
	c.Cases("long-proofs", 2, func(t *T) {
		// a proof with more elements than its format can count is refused
		for _, n := range []int{65535, 65536, 65537, 70000} {
			e := &trie_blake2b.ProofElement{ChildIndex: 0}
			p := &trie_blake2b.Proof{PathArity: trie.PathArity2, HashSize: trie_blake2b.HashSize160}
			for i := 0; i < n; i++ {
				p.Path = append(p.Path, e)
			}
			var w bytes.Buffer
			err := p.Write(&w)
			if err == nil {
				q, err := trie_blake2b.ProofFromBytes(w.Bytes())
				t.Check(err == nil && len(q.Path) == n, "proof of %d elements is serialized to bytes which are parsed as %v", n, err)
			}
			t.Check(err == nil || n > 65535, "proof of %d elements is not serialized: %v", n, err)
			t.Eval(1)
			t.Seen("long", n)
		}
	})
}

var errInjectedW = errors.New("injected fault of the writer")

// failWriter accepts left bytes, then fails
type failWriter struct {
	left int
	got  []byte
}

func (f *failWriter) Write(p []byte) (int, error) {
	if len(p) <= f.left {
		f.left -= len(p)
		f.got = append(f.got, p...)
		return len(p), nil
	}
	n := f.left
	f.got = append(f.got, p[:n]...)
	f.left = 0
	return n, errInjectedW
}

// reported tells if a fault below is reported as an error which can not be taken for the end of data. How it is wrapped is not judged
func reported(err error) bool { return err != nil && !errors.Is(err, io.EOF) }
