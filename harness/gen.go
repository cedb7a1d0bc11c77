package main

import (
	"bytes"
	"fmt"
	"math/rand"
)

// ---- generators of keys, values and histories

type genProfile struct {
	name   string
	alpha  []byte // alphabet of key bytes
	lenMin int
	lenMax int
	pool   int    // number of keys in the pool
	prefix []byte // shared prefix of all keys
	hs     int
	thr    int
	arity  int
	chain  bool // nested chain of keys
	fan    bool // wide fan-out
}

var boundaryLens = []int{0, 1, 2, 3, 7, 8, 9, 15, 16, 17, 19, 20, 21, 31, 32, 33, 34, 40, 41, 63, 64, 65, 127, 128, 129, 255, 256, 257, 300}

func randBytes(r *rand.Rand, n int) []byte {
	b := make([]byte, n)
	r.Read(b)
	return b
}

func fromAlpha(r *rand.Rand, a []byte, n int) []byte {
	b := make([]byte, n)
	for i := range b {
		if len(a) == 0 {
			b[i] = byte(r.Intn(256))
		} else {
			b[i] = a[r.Intn(len(a))]
		}
	}
	return b
}

var alphabets = [][]byte{
	{0x00, 0x01},
	{0x00, 0xff},
	{0x00, 0x01, 0x10, 0xff},
	{'a', 'b'},
	{0x00, 0x0f, 0xf0, 0xff},
	{0x7f, 0x80, 0x81},
	{},
	{0x00},
	{0xff},
}

func newProfile(r *rand.Rand, cfg Cfg) *genProfile {
	p := &genProfile{hs: cfg.HS, thr: cfg.Thr, arity: cfg.Arity}
	if p.hs == 0 {
		p.hs = 32
	}
	p.alpha = alphabets[r.Intn(len(alphabets))]
	switch r.Intn(10) {
	case 0, 1, 2:
		p.lenMin, p.lenMax, p.pool = 0, 3, 4+r.Intn(12)
	case 3, 4:
		p.lenMin, p.lenMax, p.pool = 0, 7, 4+r.Intn(24)
	case 5:
		p.lenMin, p.lenMax, p.pool = 1, 2, 10+r.Intn(60)
		p.fan = true
	case 6:
		p.lenMin, p.lenMax, p.pool = 0, 6, 4+r.Intn(10)
		p.prefix = fromAlpha(r, p.alpha, boundaryLens[r.Intn(len(boundaryLens))])
	case 7:
		p.lenMin, p.lenMax, p.pool = 0, 70, 4+r.Intn(12)
	case 8:
		p.lenMin, p.lenMax, p.pool = 0, 30, 5+r.Intn(25)
		p.chain = true
	case 9:
		p.lenMin, p.lenMax, p.pool = 0, 2, 2+r.Intn(3)
	}
	p.name = fmt.Sprintf("a%x/l%d-%d/p%d/px%d/ch%v", p.alpha, p.lenMin, p.lenMax, p.pool, len(p.prefix), p.chain)
	return p
}

func (p *genProfile) key(r *rand.Rand, have [][]byte) []byte {
	if len(have) > 0 {
		switch r.Intn(8) {
		case 0: // prefix of an existing key
			k := have[r.Intn(len(have))]
			return append([]byte(nil), k[:r.Intn(len(k)+1)]...)
		case 1: // extension
			k := have[r.Intn(len(have))]
			if len(k) < 400 {
				return append(append([]byte(nil), k...), fromAlpha(r, p.alpha, 1+r.Intn(3))...)
			}
		case 2: // change one bit
			k := append([]byte(nil), have[r.Intn(len(have))]...)
			if len(k) > 0 {
				i := len(k) - 1
				if r.Intn(2) == 0 {
					i = r.Intn(len(k))
				}
				k[i] ^= 1 << uint(r.Intn(8))
			}
			return k
		case 3: // nested
			if p.chain {
				k := have[len(have)-1]
				if len(k) < 400 {
					return append(append([]byte(nil), k...), fromAlpha(r, p.alpha, 1)...)
				}
			}
		}
	}
	n := p.lenMin + r.Intn(p.lenMax-p.lenMin+1)
	if r.Intn(25) == 0 {
		n = boundaryLens[r.Intn(len(boundaryLens))]
	}
	return append(append([]byte(nil), p.prefix...), fromAlpha(r, p.alpha, n)...)
}

func (p *genProfile) keys(r *rand.Rand) [][]byte {
	have := make([][]byte, 0, p.pool)
	seen := map[string]bool{}
	if p.fan && r.Intn(3) == 0 {
		// every byte value under one prefix
		for i := 0; i < 256; i++ {
			k := append(append([]byte(nil), p.prefix...), byte(i))
			have = append(have, k)
			seen[string(k)] = true
		}
		return have
	}
	for tries := 0; len(have) < p.pool && tries < p.pool*6; tries++ {
		k := p.key(r, have)
		if !seen[string(k)] {
			seen[string(k)] = true
			have = append(have, k)
		}
	}
	return have
}

// value of a pair; never empty
func (p *genProfile) value(r *rand.Rand, key []byte, vals *[][]byte) []byte {
	var v []byte
	switch r.Intn(14) {
	case 0, 1, 2:
		v = randBytes(r, 1+r.Intn(4))
	case 3:
		v = randBytes(r, p.hs-1+r.Intn(3))
	case 4:
		v = randBytes(r, 1+r.Intn(70))
	case 5:
		if p.thr > 0 {
			v = randBytes(r, max(1, p.thr-1+r.Intn(3)))
		} else {
			v = randBytes(r, 18+r.Intn(18))
		}
	case 6:
		v = append([]byte(nil), key...)
	case 7:
		if r.Intn(40) == 0 {
			// around the 2-byte lengths, and variants of such a value which differ in one byte only
			v = randBytes(r, []int{65534, 65535, 65536, 65537, 70001, 131072}[r.Intn(6)])
			for _, o := range *vals {
				if len(o) > 65000 && r.Intn(3) > 0 {
					v = append([]byte(nil), o...)
					v[[]int{0, len(v) / 2, len(v) - 1, min(65535, len(v)-1), r.Intn(len(v))}[r.Intn(5)]] ^= 1
				}
			}
		} else if r.Intn(4) == 0 {
			v = randBytes(r, []int{63, 64, 65, 127, 128, 129, 255, 256, 257, 511, 512, 1000, 1024, 4096}[r.Intn(14)])
		} else {
			v = randBytes(r, 64)
		}
	case 8:
		v = oUnpack(key, p.arity)
	case 9:
		v = []byte{byte(r.Intn(2))}
	case 10:
		v = append(randBytes(r, 1+r.Intn(6)), 0)
	case 11:
		v = bytes.Repeat([]byte{0}, 1+r.Intn(40))
	default:
		if len(*vals) > 0 {
			v = append([]byte(nil), (*vals)[r.Intn(len(*vals))]...)
		} else {
			v = randBytes(r, 5)
		}
	}
	if len(v) == 0 {
		v = []byte{7}
	}
	if len(*vals) < 8 {
		*vals = append(*vals, v)
	} else {
		(*vals)[r.Intn(8)] = v
	}
	return v
}

type opKind int

const (
	opSet opKind = iota
	opSetEmpty
	opDel
	opSetStr
	opDelStr
	opKeyCommit
	opCommit
	opPersist // commit + persist
	opPersistAgain
	opClear
	opReopen
	opCloneSwap
	opRead
	opUpdateAll
	opDirty  // batch of pending updates that is then dropped
	opDirect // persist without clearing, then clear
)

var opNames = [...]string{"Set", "SetEmpty", "Del", "SetStr", "DelStr", "KeyCommit", "Commit", "Persist", "PersistAgain", "Clear", "Reopen", "CloneSwap", "Read", "UpdateAll", "Dirty", "Direct"}

type Op struct {
	Kind opKind
	K, V []byte
	X    int64
}

func (o Op) String() string {
	switch o.Kind {
	case opSet, opSetStr:
		return fmt.Sprintf("%s(%s, %s)", opNames[o.Kind], hx(o.K), hx(o.V))
	case opSetEmpty, opDel, opDelStr, opKeyCommit, opRead:
		return fmt.Sprintf("%s(%s)", opNames[o.Kind], hx(o.K))
	}
	return opNames[o.Kind]
}

type histParams struct {
	minOps, maxOps int
	pDel           int // percent of deletions
	pCommit        int // percent of structural operations
	noStore        bool
	noClone        bool
	noRead         bool
}

// history generates operations; it ends with Commit or Persist
func history(r *rand.Rand, p *genProfile, cfg Cfg, h histParams) []Op {
	keys := p.keys(r)
	var vals [][]byte
	n := h.minOps + r.Intn(h.maxOps-h.minOps+1)
	live := map[string]bool{}
	var ops []Op
	pDel := h.pDel
	if pDel == 0 {
		pDel = []int{5, 25, 45, 60}[r.Intn(4)]
	}
	pStruct := h.pCommit
	if pStruct == 0 {
		pStruct = []int{3, 10, 25, 40}[r.Intn(4)]
	}
	pick := func() []byte {
		if r.Intn(20) == 0 {
			return p.key(r, keys)
		}
		return keys[r.Intn(len(keys))]
	}
	pickLive := func() []byte {
		if len(live) > 0 && r.Intn(3) > 0 {
			// deterministic choice among live keys
			var l [][]byte
			for _, k := range keys {
				if live[string(k)] {
					l = append(l, k)
				}
			}
			if len(l) > 0 {
				return l[r.Intn(len(l))]
			}
		}
		return pick()
	}
	for len(ops) < n {
		if r.Intn(30) == 0 {
			ops = append(ops, churn(r, p, pickLive(), keys, live)...)
			continue
		}
		x := r.Intn(100)
		switch {
		case x < pStruct:
			switch y := r.Intn(20); {
			case y < 7:
				ops = append(ops, Op{Kind: opCommit})
			case y < 13 && !h.noStore:
				ops = append(ops, Op{Kind: opPersist})
				switch r.Intn(4) {
				case 0:
					ops = append(ops, Op{Kind: opClear})
				case 1:
					ops = append(ops, Op{Kind: opReopen})
				case 2:
					ops = append(ops, Op{Kind: opPersistAgain})
				}
			case y == 13 && !h.noStore:
				ops = append(ops, Op{Kind: opClear})
			case y == 14 && !h.noStore:
				ops = append(ops, Op{Kind: opReopen})
			case y <= 16 && !h.noClone:
				ops = append(ops, Op{Kind: opCloneSwap, X: r.Int63()})
			case y <= 18 && !h.noRead:
				ops = append(ops, Op{Kind: opRead, K: pick(), X: r.Int63()})
			}
		case x < pStruct+(100-pStruct)*pDel/100:
			k := pickLive()
			switch r.Intn(4) {
			case 0:
				ops = append(ops, Op{Kind: opSetEmpty, K: k})
			case 1:
				ops = append(ops, Op{Kind: opDelStr, K: k, X: int64(r.Intn(2))})
			default:
				ops = append(ops, Op{Kind: opDel, K: k})
			}
			delete(live, string(k))
		default:
			k := pick()
			v := p.value(r, k, &vals)
			switch {
			case r.Intn(8) == 0:
				ops = append(ops, Op{Kind: opSetStr, K: k, V: v, X: int64(r.Intn(4))})
			case r.Intn(8) == 0 && len(k) > 0:
				ops = append(ops, Op{Kind: opKeyCommit, K: k})
			default:
				ops = append(ops, Op{Kind: opSet, K: k, V: v})
			}
			live[string(k)] = true
		}
	}
	if r.Intn(12) == 0 {
		// empty the trie, in random order
		for _, i := range r.Perm(len(keys)) {
			ops = append(ops, Op{Kind: opDel, K: keys[i]})
		}
	}
	if h.noStore {
		ops = append(ops, Op{Kind: opCommit})
	} else {
		ops = append(ops, Op{Kind: opPersist})
	}
	return ops
}

// churn inserts fresh keys next to a key and deletes them again before anything is committed, then touches a neighbour
func churn(r *rand.Rand, p *genProfile, at []byte, keys [][]byte, live map[string]bool) []Op {
	pre := at[:r.Intn(len(at)+1)]
	if r.Intn(2) == 0 {
		pre = at
	}
	if len(pre) > 400 {
		pre = pre[:400]
	}
	var fresh [][]byte
	var ops []Op
	used := map[string]bool{}
	for i := 1 + r.Intn(6); i > 0; i-- {
		k := append(append([]byte(nil), pre...), byte(r.Intn(256)))
		if r.Intn(3) > 0 {
			k[len(k)-1] = byte(r.Intn(4)) << uint(r.Intn(7))
		}
		if r.Intn(3) == 0 {
			k = append(k, fromAlpha(r, p.alpha, r.Intn(3))...)
		}
		if live[string(k)] || used[string(k)] {
			continue
		}
		used[string(k)] = true
		fresh = append(fresh, k)
		ops = append(ops, Op{Kind: opSet, K: k, V: randBytes(r, 1+r.Intn(40))})
	}
	for _, i := range r.Perm(len(fresh)) {
		if r.Intn(10) == 0 {
			ops = append(ops, Op{Kind: opSet, K: fresh[i], V: randBytes(r, 3)})
		}
		ops = append(ops, Op{Kind: opDel, K: fresh[i]})
	}
	// neighbours
	var near [][]byte
	for _, k := range keys {
		if live[string(k)] && bytes.HasPrefix(k, pre) {
			near = append(near, k)
		}
	}
	for i := r.Intn(3); i > 0 && len(near) > 0; i-- {
		k := near[r.Intn(len(near))]
		if r.Intn(3) > 0 {
			ops = append(ops, Op{Kind: opDel, K: k})
			delete(live, string(k))
		} else {
			ops = append(ops, Op{Kind: opSet, K: k, V: randBytes(r, 4)})
			live[string(k)] = true
		}
	}
	return ops
}

func randCfg(r *rand.Rand) Cfg {
	return Cfg{Arity: []int{2, 16, 256}[r.Intn(3)], HS: []int{20, 32}[r.Intn(2)]}
}

func btoi(b bool) int {
	if b {
		return 1
	}
	return 0
}
