package main

import (
	"bytes"
	"encoding/binary"
	"encoding/hex"
	"fmt"
	"math/big"
	"math/rand"
	"os"
	"os/exec"
	"path/filepath"
	"regexp"
	"strings"
	"syscall"
	"time"
	"unsafe"

	"github.com/iotaledger/trie.go/models/trie_kzg_bn256"
	"github.com/iotaledger/trie.go/trie"
	"go.dedis.ch/kyber/v3"
	"go.dedis.ch/kyber/v3/pairing/bn256"
)

func init() {
	register(&property{id: "C09",
		rule:  "A case generates a trusted setup of some degree with a secret known to the monitor (powers of a root of unity or natural domain) and compares every point of it with big-integer arithmetic, loads it from its bytes and compares again, commits node vectors and opens them at many indices with the real model over the setup and checks the openings with an own pairing equation for the true and for wrong values and indices; corrupted bytes, degenerate secrets and wrong roots must be refused. The embedded setup is checked for consistency by pairings alone. Distinct by setup and vector; non-trivial: degree at least 2.",
		assum: []string{"kyber bn256 arithmetic and pairing are trusted", "the model can be used only with degree 258; openings are exercised for that degree, points of the setup for all"},
		run:   runC09})
}

var suiteBN = bn256.NewSuite()
var orderBN = new(big.Int).Set(bn256.Order)

func bigOf(s kyber.Scalar) *big.Int { return new(big.Int).SetBytes(scalarBytes(s)) }

func scalarOf(x *big.Int) kyber.Scalar {
	y := new(big.Int).Mod(x, orderBN)
	return suiteBN.G1().Scalar().SetBytes(y.Bytes())
}

func randScalar(r *rand.Rand) *big.Int {
	b := make([]byte, 40)
	r.Read(b)
	return new(big.Int).Mod(new(big.Int).SetBytes(b), orderBN)
}

// rootOfUnity of order 5743, deterministic
func rootOfUnity(r *rand.Rand) *big.Int {
	e := new(big.Int).Sub(orderBN, big.NewInt(1))
	e.Div(e, big.NewInt(5743))
	for {
		x := new(big.Int).Exp(randScalar(r), e, orderBN)
		if x.BitLen() > 220 {
			return x
		}
	}
}

type knownSetup struct {
	d       int
	natural bool
	omega   *big.Int
	secret  *big.Int
	ts      *trie_kzg_bn256.TrustedSetup
	dom     []*big.Int
	ap      []*big.Int // A'(x_i)
}

func (k *knownSetup) String() string {
	return fmt.Sprintf("d=%d natural=%v omega=%x secret=%x", k.d, k.natural, k.omega, k.secret)
}

func newSetup(t *T, d int, natural bool) *knownSetup {
	k := &knownSetup{d: d, natural: natural, secret: randScalar(t.Rng)}
	for k.secret.BitLen() < 220 {
		k.secret = randScalar(t.Rng)
	}
	var err error
	if natural {
		k.omega = new(big.Int)
		k.ts, err = trie_kzg_bn256.TrustedSetupFromSecretNaturalDomain(suiteBN, uint16(d), scalarOf(k.secret))
	} else {
		k.omega = rootOfUnity(t.Rng)
		om := scalarOf(k.omega)
		sec := scalarOf(k.secret)
		k.ts, err = trie_kzg_bn256.TrustedSetupFromSecretPowers(suiteBN, uint16(d), om, sec)
		t.Check(bigOf(om).Cmp(k.omega) == 0 && bigOf(sec).Cmp(k.secret) == 0, "generation changed its arguments")
	}
	t.Check(err == nil, "%s: setup is not generated: %v", k, err)
	k.fill()
	return k
}

func (k *knownSetup) fill() {
	k.dom = make([]*big.Int, k.d)
	for i := range k.dom {
		if k.omega.Sign() == 0 {
			k.dom[i] = big.NewInt(int64(i))
		} else {
			k.dom[i] = new(big.Int).Exp(k.omega, big.NewInt(int64(i)), orderBN)
		}
	}
	k.ap = make([]*big.Int, k.d)
	for i := range k.ap {
		p := big.NewInt(1)
		for j := range k.dom {
			if j != i {
				p.Mul(p, new(big.Int).Sub(k.dom[i], k.dom[j]))
				p.Mod(p, orderBN)
			}
		}
		k.ap[i] = p
	}
}

// check compares all points with the definition
func (k *knownSetup) check(t *T, ts *trie_kzg_bn256.TrustedSetup, where string) {
	t.Check(int(ts.D) == k.d && len(ts.LagrangeBasis) == k.d && len(ts.Diff2) == k.d && len(ts.Domain) == k.d, "%s: %s: wrong degree %d", where, k, ts.D)
	t.Check(bigOf(ts.Omega).Cmp(k.omega) == 0, "%s: %s: omega is %s", where, k, ts.Omega)
	a := big.NewInt(1) // A(s)
	for _, x := range k.dom {
		a.Mul(a, new(big.Int).Sub(k.secret, x))
		a.Mod(a, orderBN)
	}
	for i := 0; i < k.d; i++ {
		t.Check(bigOf(ts.Domain[i]).Cmp(k.dom[i]) == 0, "%s: %s: domain element %d is wrong", where, k, i)
		sx := new(big.Int).Sub(k.secret, k.dom[i])
		den := new(big.Int).Mul(sx, k.ap[i])
		den.Mod(den, orderBN)
		l := new(big.Int).ModInverse(den, orderBN)
		l.Mul(l, a)
		t.Check(ts.LagrangeBasis[i].Equal(suiteBN.G1().Point().Mul(scalarOf(l), nil)), "%s: %s: Lagrange point %d is wrong", where, k, i)
		t.Check(ts.Diff2[i].Equal(suiteBN.G2().Point().Mul(scalarOf(sx), nil)), "%s: %s: point [s-x]2 %d is wrong", where, k, i)
		t.Eval(3)
	}
	t.Count("points of setups compared", 2*k.d)
}

// opening of the vector over this setup by the definition, with the known secret
func (k *knownSetup) opening(vec []kyber.Scalar, i int) kyber.Point {
	f := new(big.Int) // f(s)
	a := big.NewInt(1)
	for _, x := range k.dom {
		a.Mul(a, new(big.Int).Sub(k.secret, x))
		a.Mod(a, orderBN)
	}
	for j, v := range vec {
		if v == nil {
			continue
		}
		den := new(big.Int).Mul(new(big.Int).Sub(k.secret, k.dom[j]), k.ap[j])
		den.Mod(den, orderBN)
		l := new(big.Int).ModInverse(den, orderBN)
		l.Mul(l, a)
		l.Mul(l, bigOf(v))
		f.Add(f, l)
	}
	if vec[i] != nil {
		f.Sub(f, bigOf(vec[i]))
	}
	den := new(big.Int).Sub(k.secret, k.dom[i])
	den.Mod(den, orderBN)
	f.Mul(f, new(big.Int).ModInverse(den, orderBN))
	return suiteBN.G1().Point().Mul(scalarOf(f), nil)
}

// exercise uses the setup in the model: commitments and openings of nodes at many indices
func (k *knownSetup) exercise(t *T, ts *trie_kzg_bn256.TrustedSetup, where string, nOpen int) {
	m := &trie_kzg_bn256.CommitmentModel{TrustedSetup: *ts}
	// node vectors
	for i := 0; i < 4; i++ {
		nd := randNodeData(t, []int{0, 3, 40, 256}[i])
		c := m.CalcNodeCommitment(nd)
		vec := vectorOfNode(nd)
		want := suiteBN.G1().Point().Null()
		for j, v := range vec {
			if v != nil {
				want.Add(want, suiteBN.G1().Point().Mul(v, ts.LagrangeBasis[j]))
			}
		}
		t.Eval(1)
		t.Check(bytes.Equal(c.Bytes(), mustPoint(want)), "%s: commitment of a node is wrong, %s", where, k)
	}
	// openings through a trie of two levels
	store := newMStore()
	tr := trie.New(m, store, nil)
	cur := map[string][]byte{}
	pre := randBytes(t.Rng, t.Rng.Intn(3))
	set := func(k []byte) {
		v := randBytes(t.Rng, 1+t.Rng.Intn(40))
		tr.Update(k, v)
		cur[string(k)] = v
	}
	dense := t.Rng.Intn(2) == 0
	for i := 0; i < 256; i++ {
		if dense || t.Rng.Intn(20) == 0 || i == 0 || i == 255 {
			set(append(append([]byte{}, pre...), byte(i)))
		}
	}
	if t.Rng.Intn(2) == 0 {
		set(pre)
	}
	tr.Commit()
	keys := sortedKeys(cur)
	for n := 0; n < nOpen; n++ {
		key := []byte(keys[t.Rng.Intn(len(keys))])
		if n == 0 {
			key = append(append([]byte{}, pre...), 0)
		}
		if n == 1 {
			key = append(append([]byte{}, pre...), 255)
		}
		p, ok := m.ProofOfInclusion(key, tr)
		t.Check(ok, "%s: no proof of present key %x", where, key)
		for i, e := range p.Path {
			v := p.Terminal
			if i+1 < len(p.Path) {
				v = kzgScalarOfHash(mustPoint(p.Path[i+1].C))
			} else {
				t.Check(bigOf(v).Cmp(bigOf(kzgScalarOfHash(cur[string(key)]))) == 0, "%s: wrong terminal", where)
			}
			idx := int(e.VectorIndex)
			t.Eval(3)
			t.Check(kzgOpens(ts, e.C, e.Proof, v, idx), "%s: opening at index %d does not satisfy the pairing equation, %s", where, idx, k)
			wrong := suiteBN.G1().Scalar().Add(v, suiteBN.G1().Scalar().One())
			t.Check(!kzgOpens(ts, e.C, e.Proof, wrong, idx), "%s: opening at index %d also opens to another value, %s", where, idx, k)
			t.Check(!kzgOpens(ts, e.C, e.Proof, v, (idx+1)%k.d), "%s: opening at index %d also opens at the next index, %s", where, idx, k)
			nd, ok := tr.GetNode(pathOfElement(p, pre, i))
			t.Check(ok, "%s: no node of element %d", where, i)
			vec := vectorOfNode(&trie.NodeData{PathFragment: nd.PathFragment(), ChildCommitments: nd.ChildCommitments(), Terminal: nd.Terminal()})
			if k.secret != nil {
				t.Check(bytes.Equal(mustPoint(e.Proof), mustPoint(k.opening(vec, idx))), "%s: opening at index %d is not the one of the definition, %s", where, idx, k)
			}
			t.Count("openings checked by pairing", 1)
			if k.secret != nil {
				t.Seen(k.secret.Bytes(), mustPoint(e.C), idx)
			} else {
				t.Seen("embedded", mustPoint(e.C), idx)
			}
		}
	}
}

// pathOfElement is the key of the node of an element in the trie of two levels
func pathOfElement(p *trie_kzg_bn256.ProofOfInclusion, pre []byte, i int) []byte {
	if i == 0 {
		return nil
	}
	return append(append([]byte{}, pre...), byte(p.Path[0].VectorIndex))
}

func vectorOfNode(nd *trie.NodeData) []kyber.Scalar {
	vec := make([]kyber.Scalar, 258)
	for i, c := range nd.ChildCommitments {
		if c != nil {
			vec[i] = kzgScalarOfHash(c.Bytes())
		}
	}
	if nd.Terminal != nil {
		vec[256] = suiteBN.G1().Scalar().SetBytes(nd.Terminal.Bytes())
	}
	vec[257] = kzgScalarOfHash(blakeSum(32, nd.PathFragment))
	return vec
}

func (k *knownSetup) roundTrip(t *T) *trie_kzg_bn256.TrustedSetup {
	b := k.ts.Bytes()
	t.Check(len(b) == 2+32+k.d*(64+128), "%s: serialized to %d bytes", k, len(b))
	t.Check(int(binary.LittleEndian.Uint16(b)) == k.d, "%s: serialized with another degree", k)
	ts, err := trie_kzg_bn256.TrustedSetupFromBytes(suiteBN, append([]byte{}, b...))
	t.Check(err == nil, "%s: serialized setup is not loaded: %v", k, err)
	t.Check(bytes.Equal(ts.Bytes(), b), "%s: the loaded setup has other bytes", k)
	return ts
}

func c09Corrupt(t *T, k *knownSetup, n int) {
	b := k.ts.Bytes()
	load := func(x []byte) (ts *trie_kzg_bn256.TrustedSetup, err error) {
		t.mustNot("TrustedSetupFromBytes", func() { ts, err = trie_kzg_bn256.TrustedSetupFromBytes(suiteBN, x) })
		t.Eval(1)
		return
	}
	refuse := func(x []byte, what string) {
		_, err := load(x)
		t.Check(err != nil, "%s: setup %s is loaded", k, what)
		t.Count("corrupt setups refused", 1)
	}
	cuts := []int{0, 1, 2, 3, 33, 34, 35, 97, 98, len(b) - 1, len(b) - 2, len(b) - 64, len(b) - 128, len(b) / 2}
	for i := 0; i < n; i++ {
		cuts = append(cuts, t.Rng.Intn(len(b)))
	}
	for _, i := range cuts {
		if i >= 0 && i < len(b) {
			refuse(b[:i:i], fmt.Sprintf("truncated at %d of %d", i, len(b)))
		}
	}
	refuse(append(append([]byte{}, b...), 0), "extended by a zero byte")
	refuse(append(append([]byte{}, b...), randBytes(t.Rng, 1+t.Rng.Intn(200))...), "extended")
	refuse(append(append([]byte{}, b...), b[len(b)-128:]...), "extended by its last point")
	for _, d := range []int{k.d + 1, k.d - 1, 0, 0xffff, k.d ^ 0x100} {
		if d < 0 || d > 0xffff || d == k.d {
			continue
		}
		x := append([]byte{}, b...)
		binary.LittleEndian.PutUint16(x, uint16(d))
		refuse(x, fmt.Sprintf("with declared degree %d", d))
	}
	om := func(v *big.Int) []byte {
		x := append([]byte{}, b...)
		copy(x[2:34], scalarBytes(scalarOf(v)))
		return x
	}
	if k.d >= 2 {
		refuse(om(big.NewInt(1)), "with omega 1")
	}
	refuse(om(big.NewInt(2)), "with omega 2")
	refuse(om(big.NewInt(-1)), "with omega -1")
	refuse(om(randScalar(t.Rng)), "with random omega")
	// roots of unity of other orders
	for _, o := range []int64{2, 3, 6, 16, 32} {
		e := new(big.Int).Sub(orderBN, big.NewInt(1))
		e.Div(e, big.NewInt(o))
		r := new(big.Int).Exp(randScalar(t.Rng), e, orderBN)
		if r.Cmp(big.NewInt(1)) == 0 && k.d < 2 {
			continue
		}
		refuse(om(r), fmt.Sprintf("with a root of unity of order dividing %d", o))
	}
	// points
	for i := 0; i < n; i++ {
		x := append([]byte{}, b...)
		x[34+t.Rng.Intn(len(b)-34)] ^= 1 << uint(t.Rng.Intn(8))
		refuse(x, "with a flipped bit in a point")
		j := t.Rng.Intn(k.d)
		x = append([]byte{}, b...)
		copy(x[34+64*j:], randBytes(t.Rng, 64))
		refuse(x, "with random bytes in place of a point")
	}
}

func runC09(c *Ctx) {
	c.Cases("full", 16*c.scale, func(t *T) {
		k := newSetup(t, 258, t.n%2 == 0)
		t.Sample("%s", k)
		k.check(t, k.ts, "generated")
		ts := k.roundTrip(t)
		k.check(t, ts, "loaded")
		k.exercise(t, k.ts, "generated", 8)
		k.exercise(t, ts, "loaded", 8)
		k.check(t, k.ts, "after use")
		// both give the same proofs
		m1, m2 := &trie_kzg_bn256.CommitmentModel{TrustedSetup: *k.ts}, &trie_kzg_bn256.CommitmentModel{TrustedSetup: *ts}
		for i := 0; i < 3; i++ {
			keys := [][]byte{randBytes(t.Rng, 2), randBytes(t.Rng, 2), randBytes(t.Rng, 1)}
			t1, t2 := trie.New(m1, newMStore(), nil), trie.New(m2, newMStore(), nil)
			for _, key := range keys {
				t1.Update(key, key)
				t2.Update(key, key)
			}
			t1.Commit()
			t2.Commit()
			t.Check(bytes.Equal(trie.RootCommitment(t1).Bytes(), trie.RootCommitment(t2).Bytes()), "%s: loaded setup gives another commitment", k)
			p1, ok1 := m1.ProofOfInclusion(keys[0], t1)
			p2, ok2 := m2.ProofOfInclusion(keys[0], t2)
			t.Check(ok1 && ok2 && bytes.Equal(p1.Bytes(), p2.Bytes()), "%s: loaded setup gives another proof", k)
			t.Eval(2)
		}
		if t.n%4 < 2 {
			c09Corrupt(t, k, 2)
		}
	})
	c.Cases("degrees", 160*c.scale, func(t *T) {
		d := []int{1, 2, 3, 4, 5, 8, 15, 16, 17, 31, 32, 33}[t.Rng.Intn(12)]
		if t.Rng.Intn(10) == 0 {
			d = 2 + t.Rng.Intn(70)
		}
		k := newSetup(t, d, t.Rng.Intn(2) == 0)
		k.check(t, k.ts, "generated")
		k.check(t, k.roundTrip(t), "loaded")
		c09Corrupt(t, k, 6)
		f := filepath.Join(tmpDir(), fmt.Sprintf("setup-%d.bin", t.n))
		if err := os.WriteFile(f, k.ts.Bytes(), 0o600); err == nil {
			ts, err := trie_kzg_bn256.TrustedSetupFromFile(suiteBN, f)
			t.Check(err == nil && bytes.Equal(ts.Bytes(), k.ts.Bytes()), "%s: setup is not restored from file: %v", k, err)
			_ = os.WriteFile(f, k.ts.Bytes()[:len(k.ts.Bytes())-1], 0o600)
			_, err = trie_kzg_bn256.TrustedSetupFromFile(suiteBN, f)
			t.Check(err != nil, "truncated file of a setup is loaded")
			_ = os.Remove(f)
			_, err = trie_kzg_bn256.TrustedSetupFromFile(suiteBN, f)
			t.Check(err != nil, "missing file of a setup is loaded")
		}
		t.Seen(k.String())
	})
	c.Cases("large-degree", 4*c.scale, func(t *T) {
		d := []int{259, 260, 261, 300, 384, 512, 257 + t.Rng.Intn(300), 259 + t.Rng.Intn(40)}[t.n%8]
		k := newSetup(t, max(d, 258), (t.n+t.n/8)%2 == 0)
		k.check(t, k.ts, "generated")
		ts := k.roundTrip(t)
		k.check(t, ts, "loaded")
		t.Seen(k.String())
	})
	c.Cases("seed", 12*c.scale, func(t *T) {
		seed := randBytes(t.Rng, t.Rng.Intn(60))
		d := 2 + t.Rng.Intn(20)
		ts, err := trie_kzg_bn256.TrustedSetupFromSeed(suiteBN, uint16(d), append([]byte{}, seed...))
		t.Check(err == nil, "setup from seed %x: %v", seed, err)
		k := &knownSetup{d: d, natural: true, omega: new(big.Int), secret: new(big.Int).Mod(new(big.Int).SetBytes(blakeSum(32, seed)), orderBN), ts: ts}
		k.fill()
		k.check(t, ts, "from seed")
		k.check(t, k.roundTrip(t), "from seed, loaded")
		t.Seen(seed, d)
	})
	c.Cases("refused", 120*c.scale, func(t *T) {
		d := 2 + t.Rng.Intn(24)
		om := rootOfUnity(t.Rng)
		good := randScalar(t.Rng)
		for good.BitLen() < 220 {
			good = randScalar(t.Rng)
		}
		gen := func(om, secret *big.Int, what string) {
			var err error
			t.mustNot(what, func() {
				_, err = trie_kzg_bn256.TrustedSetupFromSecretPowers(suiteBN, uint16(d), scalarOf(om), scalarOf(secret))
			})
			t.Eval(1)
			t.Check(err != nil, "d=%d: setup with %s is generated", d, what)
		}
		short := new(big.Int).SetBytes(randBytes(t.Rng, t.Rng.Intn(25)))
		gen(om, short, fmt.Sprintf("short secret %x", short))
		gen(om, new(big.Int), "zero secret")
		gen(om, big.NewInt(1), "secret 1")
		i := t.Rng.Intn(d)
		if x := new(big.Int).Exp(om, big.NewInt(int64(i)), orderBN); x.BitLen() > 220 {
			gen(om, x, fmt.Sprintf("secret equal to element %d of the domain", i))
		}
		if x := new(big.Int).Exp(om, big.NewInt(int64(d-1)), orderBN); x.BitLen() > 220 {
			gen(om, x, "secret equal to the last element of the domain")
		}
		gen(big.NewInt(1), good, "omega 1")
		gen(new(big.Int), good, "omega 0")
		gen(big.NewInt(-1), good, "omega -1")
		gen(randScalar(t.Rng), good, "random omega")
		for _, s := range []*big.Int{new(big.Int), big.NewInt(1), big.NewInt(int64(t.Rng.Intn(d))), short} {
			var err error
			t.mustNot("natural domain", func() {
				_, err = trie_kzg_bn256.TrustedSetupFromSecretNaturalDomain(suiteBN, uint16(d), scalarOf(s))
			})
			t.Eval(1)
			t.Check(err != nil, "setup over the natural domain with secret %x is generated", s)
		}
		t.Seen(om.Bytes(), d)
	})
	// the powers of a root of unity repeat in domains larger than its order: such setups must be refused
	c.casesW("repeating", 2*minInt(c.scale, 6), 4, func(t *T) {
		om := rootOfUnity(t.Rng)
		d := trie_kzg_bn256.FACTOR + 2 + t.Rng.Intn(5)
		var err error
		if t.n%2 == 0 {
			t.mustNot("generation", func() {
				_, err = trie_kzg_bn256.TrustedSetupFromSecretPowers(suiteBN, uint16(d), scalarOf(om), scalarOf(randScalar(t.Rng)))
			})
		} else {
			var b bytes.Buffer
			_ = binary.Write(&b, binary.LittleEndian, uint16(d))
			_, _ = scalarOf(om).MarshalTo(&b)
			p1, _ := suiteBN.G1().Point().Mul(scalarOf(randScalar(t.Rng)), nil).MarshalBinary()
			p2, _ := suiteBN.G2().Point().Mul(scalarOf(randScalar(t.Rng)), nil).MarshalBinary()
			b.Write(bytes.Repeat(p1, d))
			b.Write(bytes.Repeat(p2, d))
			t.mustNot("loading", func() { _, err = trie_kzg_bn256.TrustedSetupFromBytes(suiteBN, b.Bytes()) })
		}
		t.Eval(1)
		t.Check(err != nil, "setup of degree %d over the powers of %x, which repeat, is accepted", d, om)
		t.Count("setups with repeating domain refused", 1)
		t.Seen(om.Bytes(), d)
	})
	c.Cases("roots", 60*c.scale, func(t *T) {
		d := 1 + t.Rng.Intn(60)
		om, pw := trie_kzg_bn256.GenRootOfUnityQuasiPrimitive(suiteBN, uint16(d))
		x := bigOf(om)
		t.Eval(d)
		t.Check(new(big.Int).Exp(x, big.NewInt(trie_kzg_bn256.FACTOR), orderBN).Cmp(big.NewInt(1)) == 0, "generated root of unity %x is not a root of unity", x)
		t.Check(x.Cmp(big.NewInt(1)) != 0, "generated root of unity is 1")
		t.Check(len(pw) == d, "%d powers, want %d", len(pw), d)
		seen := map[string]bool{}
		for i, p := range pw {
			t.Check(bigOf(p).Cmp(new(big.Int).Exp(x, big.NewInt(int64(i)), orderBN)) == 0, "power %d of the generated root is wrong", i)
			t.Check(!seen[bigOf(p).String()], "powers of the generated root repeat at %d", i)
			seen[bigOf(p).String()] = true
		}
		t.Seen(x.Bytes())
	})
	c.Cases("embedded", 1, func(t *T) {
		// no secret is known: consistency by pairings
		b := trie_kzg_bn256.GetTrustedSetupBin()
		ts, err := trie_kzg_bn256.TrustedSetupFromBytes(suiteBN, b)
		t.Check(err == nil, "embedded setup is not loaded: %v", err)
		t.Check(bytes.Equal(ts.Bytes(), b), "embedded setup changes by loading")
		k := &knownSetup{d: int(ts.D), omega: bigOf(ts.Omega), ts: ts}
		t.Check(k.d == 258, "embedded setup has degree %d", k.d)
		k.fill()
		sum, s1 := suiteBN.G1().Point().Null(), suiteBN.G1().Point().Null()
		for i, l := range ts.LagrangeBasis {
			sum.Add(sum, l)
			s1.Add(s1, suiteBN.G1().Point().Mul(scalarOf(k.dom[i]), l))
		}
		t.Check(sum.Equal(suiteBN.G1().Point().Base()), "Lagrange points of the embedded setup do not sum up to one")
		var s2 kyber.Point
		var aH kyber.Point
		for i := range ts.Diff2 {
			x := suiteBN.G2().Point().Mul(scalarOf(k.dom[i]), nil)
			x.Add(x, ts.Diff2[i])
			if s2 == nil {
				s2 = x
			}
			t.Check(s2.Equal(x), "point [s-x]2 %d of the embedded setup is inconsistent", i)
			y := suiteBN.Pair(suiteBN.G1().Point().Mul(scalarOf(k.ap[i]), ts.LagrangeBasis[i]), ts.Diff2[i])
			if aH == nil {
				aH = y
			}
			t.Check(aH.Equal(y), "Lagrange point %d of the embedded setup is inconsistent", i)
			t.Eval(2)
		}
		t.Check(suiteBN.Pair(s1, suiteBN.G2().Point().Base()).Equal(suiteBN.Pair(suiteBN.G1().Point().Base(), s2)), "secrets of the two groups of the embedded setup differ")
		t.Check(bytes.Equal(kzgSetup.Bytes(), b), "the setup of the model is not the embedded one")
		t.Seen("embedded")
		t.Count("points of the embedded setup checked", 2*k.d)
	})
	c.Cases("embedded-openings", 24*c.scale, func(t *T) {
		k := &knownSetup{d: 258, omega: bigOf(kzgSetup.Omega)}
		k.exercise(t, kzgSetup, "embedded", 8)
	})
	c.casesW("program", 2, 2, c09Program)
}

func tmpDir() string {
	if d := os.Getenv("VMON_TMP"); d != "" {
		return d
	}
	return os.TempDir()
}

// c09Program runs kzg_setup on a pseudo-terminal: the file it writes must be a consistent setup
func c09Program(t *T) {
	bin := filepath.Join(tmpDir(), "kzg_setup")
	if _, err := os.Stat(bin); err != nil {
		t.Count("program not built, skipped", 1)
		return
	}
	ptm, pts, err := openPty()
	if err != nil {
		t.Count("no pseudo-terminal, program skipped", 1)
		return
	}
	defer ptm.Close()
	dir, err := os.MkdirTemp(tmpDir(), "setup")
	if err != nil {
		t.Count("no scratch directory, program skipped", 1)
		return
	}
	defer os.RemoveAll(dir)
	name := filepath.Join(dir, []string{"out.bin", "out.go"}[t.n])
	cmd := exec.Command(bin, name)
	cmd.Stdin, cmd.Dir = pts, dir
	var out bytes.Buffer
	cmd.Stdout, cmd.Stderr = &out, &out
	if err = cmd.Start(); err != nil {
		pts.Close()
		t.Count("program not started, skipped", 1)
		return
	}
	go func() {
		time.Sleep(300 * time.Millisecond)
		_, _ = ptm.Write([]byte("too short\n"))
		time.Sleep(300 * time.Millisecond)
		_, _ = ptm.Write([]byte(hex.EncodeToString(randBytes(rand.New(rand.NewSource(int64(t.n))), 16)) + "\n"))
	}()
	done := make(chan error, 1)
	go func() { done <- cmd.Wait() }()
	select {
	case err = <-done:
	case <-time.After(120 * time.Second):
		_ = cmd.Process.Kill()
		<-done
		pts.Close()
		t.Count("program did not end, inconclusive", 1)
		return
	}
	pts.Close()
	t.Check(err == nil, "kzg_setup fails: %v: %s", err, out.String())
	data, err := os.ReadFile(name)
	t.Check(err == nil, "kzg_setup wrote no file: %v: %s", err, out.String())
	if t.n == 1 {
		var sb strings.Builder
		for _, m := range regexp.MustCompile(`"([0-9a-f]*)"`).FindAllSubmatch(data, -1) {
			sb.Write(m[1])
		}
		data, err = hex.DecodeString(sb.String())
		t.Check(err == nil, "kzg_setup wrote malformed source: %v", err)
	} else {
		t.Check(strings.Contains(out.String(), "SUCCESS"), "kzg_setup reports no success: %s", out.String())
	}
	ts, err := trie_kzg_bn256.TrustedSetupFromBytes(suiteBN, data)
	t.Check(err == nil, "the file of kzg_setup is not loaded: %v", err)
	t.Check(ts.D == 258, "the setup of kzg_setup has degree %d", ts.D)
	k := &knownSetup{d: 258, omega: bigOf(ts.Omega)}
	k.exercise(t, ts, "written by kzg_setup", 4)
	t.Count("setups of the program checked", 1)
}

func openPty() (ptm, pts *os.File, err error) {
	ptm, err = os.OpenFile("/dev/ptmx", os.O_RDWR|syscall.O_NOCTTY, 0)
	if err != nil {
		return nil, nil, err
	}
	var n uint32
	var zero int32
	if _, _, e := syscall.Syscall(syscall.SYS_IOCTL, ptm.Fd(), 0x80045430, uintptr(unsafe.Pointer(&n))); e != 0 {
		ptm.Close()
		return nil, nil, e
	}
	if _, _, e := syscall.Syscall(syscall.SYS_IOCTL, ptm.Fd(), 0x40045431, uintptr(unsafe.Pointer(&zero))); e != 0 {
		ptm.Close()
		return nil, nil, e
	}
	pts, err = os.OpenFile(fmt.Sprintf("/dev/pts/%d", n), os.O_RDWR|syscall.O_NOCTTY, 0)
	if err != nil {
		ptm.Close()
		return nil, nil, err
	}
	return ptm, pts, nil
}
