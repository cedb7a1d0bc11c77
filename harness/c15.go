package main

import (
	"bytes"
	"fmt"
	"math/rand"
	"os"
	"path/filepath"
	"runtime"
	"sort"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	"github.com/anishathalye/porcupine"
	"github.com/iotaledger/hive.go/core/kvstore"
	"github.com/iotaledger/hive.go/core/kvstore/badger"
	"github.com/iotaledger/hive.go/core/kvstore/mapdb"
	"github.com/iotaledger/trie.go/hive_adaptor"
	"github.com/iotaledger/trie.go/models/trie_blake2b"
	"github.com/iotaledger/trie.go/models/trie_blake2b/trie_blake2b_verify"
	"github.com/iotaledger/trie.go/models/trie_kzg_bn256"
	"github.com/iotaledger/trie.go/trie"
)

func init() {
	register(&property{id: "C15",
		rule:  "Goroutines which share a store, a model, a setup, a proof or a database and nothing else run random work without any synchronisation by the harness, in a binary built with the race detector; every result is compared with the oracle or with the same work done alone. Histories of adaptor calls on a synchronised database are recorded and checked for linearizability per key with porcupine. Distinct by the order in which the steps of the goroutines really happened.",
		assum: []string{"the race detector sees races of the executions which were run", "the database is synchronised"},
		run:   runC15})
}

// frozenStore is a store which is only read: no counters, nothing to race on
type frozenStore struct{ m map[string][]byte }

func (s frozenStore) Get(k []byte) []byte {
	v, ok := s.m[string(k)]
	if !ok {
		return nil
	}
	return append([]byte{}, v...)
}
func (s frozenStore) Has(k []byte) bool { _, ok := s.m[string(k)]; return ok }
func (s frozenStore) Iterate(f func(k, v []byte) bool) {
	for k, v := range s.m {
		if !f([]byte(k), append([]byte{}, v...)) {
			return
		}
	}
}

// steps are the times at which a goroutine did its steps; kept without synchronisation
type steps []int64

func (s *steps) step() { *s = append(*s, time.Now().UnixNano()) }

// together runs f in n goroutines which share no synchronisation, and records the order of their steps
func together(t *T, n int, f func(t *T, i int, st *steps)) {
	subs := make([]*T, n)
	st := make([]steps, n)
	msgs := make([]string, n)
	var ready, done sync.WaitGroup
	start := make(chan struct{})
	for i := 0; i < n; i++ {
		subs[i] = &T{c: t.c, suite: t.suite, n: t.n, Rng: caseRng(t.c.seed, t.c.id, t.suite, t.n*1000+i), counts: map[string]int64{}, dist: map[uint64]struct{}{}}
		ready.Add(1)
		done.Add(1)
		go func(i int) {
			defer done.Done()
			ready.Done()
			<-start
			var stack string
			msgs[i], stack = protect(func() { f(subs[i], i, &st[i]) })
			if stack != "" {
				msgs[i] += " " + firstLine(stack)
			}
		}(i)
	}
	ready.Wait()
	close(start)
	done.Wait()
	type ev struct {
		at int64
		g  int
	}
	var evs []ev
	for i, s := range subs {
		t.evals += s.evals
		for k, v := range s.counts {
			t.counts[k] += v
		}
		for _, at := range st[i] {
			evs = append(evs, ev{at, i})
		}
	}
	sort.Slice(evs, func(i, j int) bool { return evs[i].at < evs[j].at })
	order := make([]byte, len(evs))
	switches := 0
	for i, e := range evs {
		order[i] = byte(e.g)
		if i > 0 && e.g != evs[i-1].g {
			switches++
		}
	}
	t.Count("concurrent steps", len(evs))
	t.Count("switches between goroutines", switches)
	if switches >= n {
		t.Seen(t.suite, order)
	}
	t.Sample("%d goroutines, %d steps, %d switches: order %s", n, len(evs), switches, hx(order))
	for i, m := range msgs {
		t.Check(m == "", "goroutine %d of %d: %s", i, n, m)
	}
}

// sharedReaders: one store, one model, readers of their own or a common one
func sharedReaders(t *T) {
	cfg := optCfg(t)
	s := stateBy(t, cfg, 40)
	store := frozenStore{s.w.ts.m}
	var vs trie.KVReader
	if cfg.Thr > 0 {
		vs = frozenStore{s.w.vs.m}
	}
	keys := s.probeKeys(t, 12)
	type res struct {
		proof []byte
		node  []byte
	}
	want := make([]res, len(keys))
	model := s.m
	all := make([]*trie_blake2b.Proof, len(keys))
	for i, k := range keys {
		all[i] = model.Proof(k, trie.NewTrieReader(model, store, vs))
		want[i].proof = all[i].Bytes()
	}
	common := trie.NewTrieReader(model, store, vs)
	together(t, 4, func(t *T, g int, st *steps) {
		r := common
		if g%2 == 0 {
			r = trie.NewTrieReader(model, store, vs)
		}
		for j := 0; j < 25; j++ {
			i := t.Rng.Intn(len(keys))
			switch t.Rng.Intn(5) {
			case 0, 1:
				p := model.Proof(keys[i], r)
				t.Check(bytes.Equal(p.Bytes(), want[i].proof), "proof of %x made concurrently differs", keys[i])
				t.Check(trie_blake2b_verify.Validate(p, s.root) == nil || s.root == nil, "proof of %x made concurrently is not valid", keys[i])
				q, err := trie_blake2b.ProofFromBytes(p.Bytes())
				t.Check(err == nil && bytes.Equal(q.Bytes(), want[i].proof), "proof of %x is not parsed", keys[i])
			case 2:
				// one proof object is validated by all
				p := all[i]
				if s.root != nil {
					t.Check(trie_blake2b_verify.Validate(p, s.root) == nil, "common proof of %x is not valid", keys[i])
				}
				t.Check(bytes.Equal(p.Bytes(), want[i].proof), "common proof of %x is serialized differently", keys[i])
				k, term := trie_blake2b_verify.MustKeyWithTerminal(p)
				_, present := s.truth[string(k)]
				t.Check((len(term) > 0) == present, "common proof of %x: terminal %x", keys[i], term)
				t.Check(trie_blake2b_verify.IsProofOfAbsence(p) == !present, "common proof of %x", keys[i])
			case 3:
				for _, n := range s.tree.nodes {
					got, ok := r.GetNode(append([]byte(nil), n.Key...))
					t.Check(ok, "node '%x' is missing", n.Key)
					checkNode(t, cfg, got, n, "concurrent reader")
				}
			case 4:
				t.Check(bytes.Equal(rootOf(r), s.root), "root read concurrently is %x, want %x", rootOf(r), s.root)
			}
			t.Eval(1)
			st.step()
		}
	})
}

// sharedModel: independent tries over one model, each against its own oracle
func sharedModel(t *T) {
	cfg := optCfg(t)
	model := newModel(cfg)
	n := 4
	hist := make([][]Op, n)
	for i := range hist {
		hist[i] = history(t.Rng, newProfile(t.Rng, cfg), cfg, histParams{minOps: 5, maxOps: 60, pDel: 20})
	}
	together(t, n, func(t *T, g int, st *steps) {
		w := newWorld(t, cfg)
		w.model = model
		w.open()
		w.onCommit = func(w *World) { w.checkRoot(w.tr, "concurrent trie") }
		for _, o := range hist[g] {
			w.exec(o)
			st.step()
		}
		w.exec(Op{Kind: opPersist})
		w.checkStore("concurrent trie")
		w.checkNodes(w.reader(), "concurrent trie")
	})
}

// clones of one trie with pending changes, over one store
func clones(t *T) {
	cfg := optCfg(t)
	s := stateBy(t, cfg, 30)
	store := frozenStore{s.w.ts.m}
	var vs trie.KVReader
	if cfg.Thr > 0 {
		vs = frozenStore{s.w.vs.m}
	}
	base := trie.New(s.w.model, store, vs, cfg.Opt)
	cur := copyMap(s.w.pers)
	p := newProfile(t.Rng, cfg)
	keys := append(p.keys(t.Rng), s.keys...)
	mutate := func(t *T, tr *trie.Trie, cur map[string][]byte) {
		k := keys[t.Rng.Intn(len(keys))]
		if t.Rng.Intn(3) == 0 {
			tr.Delete(append([]byte{}, k...))
			delete(cur, string(k))
		} else {
			v := randBytes(t.Rng, 1+t.Rng.Intn(40))
			tr.Update(append([]byte{}, k...), v)
			cur[string(k)] = v
		}
	}
	for i := 0; i < t.Rng.Intn(15); i++ {
		mutate(t, base, cur)
	}
	if t.Rng.Intn(3) == 0 {
		base.Commit()
	}
	n := 4
	tries := []*trie.Trie{base}
	for len(tries) < n {
		tries = append(tries, tries[t.Rng.Intn(len(tries))].Clone())
	}
	together(t, n, func(t *T, g int, st *steps) {
		tr, cur := tries[g], copyMap(cur)
		for i := 0; i < 25; i++ {
			switch t.Rng.Intn(10) {
			case 0:
				tr.Commit()
				tree := buildTree(cur, cfg)
				t.Check(bytes.Equal(rootOf(tr), tree.rootBytes()), "root of the clone is %x, want %x", rootOf(tr), tree.rootBytes())
				t.Eval(1)
				t.Count("roots of clones compared", 1)
			case 1:
				tr = tr.Clone()
			default:
				mutate(t, tr, cur)
			}
			st.step()
		}
		tr.Commit()
		tree := buildTree(cur, cfg)
		into := newMStore()
		for k, v := range store.m {
			into.m[k] = v
		}
		tr.PersistMutations(into)
		t.Eval(2)
		t.Check(bytes.Equal(rootOf(tr), tree.rootBytes()), "root of the clone is %x, want %x", rootOf(tr), tree.rootBytes())
		t.Check(sameContent(into.m, tree.storeOf()), "clone is persisted as %s", diffStores(into.m, tree.storeOf()))
	})
}

// kzgShared: the polynomial model, whose setup is shared by everything
func kzgShared(t *T) {
	s := kzgState(t, 8)
	store := frozenStore{s.w.ts.m}
	model := trie_kzg_bn256.Model
	var proofs []*trie_kzg_bn256.ProofOfInclusion
	var want [][]byte
	var keys [][]byte
	for i, k := range s.keys {
		if i == 2 {
			break
		}
		p, ok := model.ProofOfInclusion(k, trie.NewTrieReader(model, store, nil))
		t.Check(ok, "no proof of %x", k)
		proofs, want, keys = append(proofs, p), append(want, p.Bytes()), append(keys, k)
	}
	root := trie.RootCommitment(trie.NewTrieReader(model, store, nil))
	rootB := s.root
	more := [][]Op{}
	for i := 0; i < 3; i++ {
		more = append(more, history(t.Rng, kzgProfile(t), s.cfg, histParams{minOps: 2, maxOps: 6, pDel: 20, noRead: true}))
	}
	together(t, 3, func(t *T, g int, st *steps) {
		r := trie.NewTrieReader(model, store, nil)
		t.Check(bytes.Equal(rootOf(r), rootB), "root read concurrently differs")
		for i, k := range keys {
			switch (g + i) % 3 {
			case 0:
				p, ok := model.ProofOfInclusion(k, r)
				t.Check(ok && bytes.Equal(p.Bytes(), want[i]), "proof of %x made concurrently differs", k)
				t.Check(p.Validate(root) == nil, "proof of %x made concurrently is not valid", k)
			case 1:
				q, err := trie_kzg_bn256.ProofOfInclusionFromBytes(want[i])
				t.Check(err == nil && q.Validate(root) == nil && bytes.Equal(q.Bytes(), want[i]), "proof of %x is not parsed or not valid", k)
			case 2:
				t.Check(proofs[i].Validate(root) == nil, "common proof of %x is not valid", k)
			}
			st.step()
			t.Eval(1)
		}
		w := newWorld(t, s.cfg)
		w.onCommit = func(w *World) { w.checkRoot(w.tr, "concurrent KZG trie") }
		for _, o := range more[g] {
			w.exec(o)
			st.step()
		}
	})
}

// helpers: functions without state must not have one
func stateless(t *T) {
	type job struct {
		arity int
		keys  [][]byte
		par   trie.RandStreamParams
	}
	jobs := make([]job, 4)
	for i := range jobs {
		jobs[i] = job{arity: []int{2, 16, 256}[t.Rng.Intn(3)], par: trie.RandStreamParams{Seed: t.Rng.Int63(), NumKVPairs: 20, MaxKey: 10, MaxValue: 10}}
		for j := 0; j < 20; j++ {
			jobs[i].keys = append(jobs[i].keys, randBytes(t.Rng, t.Rng.Intn(8)))
		}
	}
	run := func(j job, st *steps) []byte {
		var out bytes.Buffer
		a := arityOf(j.arity)
		for _, k := range j.keys {
			u := trie.UnpackBytes(k, a)
			e, err := trie.EncodeUnpackedBytes(u, a)
			fmt.Fprintf(&out, "%x %x %v\n", u, e, err)
			d, err := trie.DecodeToUnpackedBytes(e, a)
			fmt.Fprintf(&out, "%x %v\n", d, err)
			m := trie_blake2b.New(a, trie_blake2b.HashSize256)
			fmt.Fprintf(&out, "%s %s\n", m.Description(), m.ShortName())
			if c := m.CommitToData(append(k, 1)); c != nil {
				fmt.Fprintf(&out, "%x\n", c.Bytes())
			}
			h := trie.Blake2b160(k)
			fmt.Fprintf(&out, "%x\n", h[:])
			if st != nil {
				st.step()
			}
		}
		_ = trie.NewRandStreamIterator(j.par).Iterate(func(k, v []byte) bool {
			fmt.Fprintf(&out, "%x %x\n", k, v)
			if st != nil {
				st.step()
			}
			return true
		})
		s := trie.NewInMemoryKVStore()
		for _, k := range j.keys {
			s.Set(k, append(k, 2))
		}
		n := 0
		for _, k := range j.keys {
			n += len(s.Get(k))
		}
		fmt.Fprintf(&out, "%d %d %d\n", n, trie.ByteSize(s), trie.NumEntries(s))
		var b bytes.Buffer
		w := trie.NewBinaryStreamWriter(&b)
		for _, k := range j.keys {
			_ = w.Write(k, k)
		}
		fmt.Fprintf(&out, "%x\n", b.Bytes())
		return out.Bytes()
	}
	want := make([][]byte, len(jobs))
	for i, j := range jobs {
		want[i] = run(j, nil)
	}
	together(t, len(jobs), func(t *T, g int, st *steps) {
		got := run(jobs[g], st)
		t.Eval(1)
		t.Check(bytes.Equal(got, want[g]), "results of concurrent calls differ from the ones alone")
	})
}

// separate: goroutines which share nothing but constant data use the stateless parts of the library: setups, parsers,
// descriptions, files, dumps, mass updates, adaptors which only read
func separate(t *T) {
	r := t.Rng
	n := 4
	cfg := Cfg{Arity: []int{2, 16, 256}[r.Intn(3)], HS: []int{20, 32}[r.Intn(2)], Opt: r.Intn(2) == 0}
	content := map[string][]byte{}
	for i := 0; i < 12; i++ {
		content[string(fromAlpha(r, []byte{0, 1, 0x10, 0xff}, r.Intn(5)))] = randBytes(r, 1+r.Intn(40))
	}
	keys := sortedKeys(content)
	// constant data, made before
	kz := buildTree(map[string][]byte{"a": {1}, "ab": {2}, "b": {3}}, Cfg{Arity: 256, KZG: true})
	kstore := frozenStore{kz.storeOf()}
	kproof := kzgHonest(kz, []byte("ab")).Bytes()
	sec, om := randScalar(r), rootOfUnity(r)
	for sec.BitLen() < 220 {
		sec = randScalar(r)
	}
	d := 2 + r.Intn(5)
	first, err := trie_kzg_bn256.TrustedSetupFromSecretPowers(suiteBN, uint16(d), scalarOf(om), scalarOf(sec))
	t.Check(err == nil, "setup: %v", err)
	setup := first.Bytes()
	setupFile := tempName(t)
	t.Check(os.WriteFile(setupFile, setup, 0600) == nil, "harness: file")
	defer os.Remove(setupFile)
	tree := buildTree(content, cfg)
	frozen, vals := frozenStore{tree.storeOf()}, frozenStore{content}
	db := mapdb.NewMapDB()
	for k, v := range content {
		_ = db.Set(append([]byte{7}, k...), v)
	}
	shared := hive_adaptor.NewHiveKVStoreAdaptor(db, []byte{7})
	root := tree.rootBytes()
	names := make([]string, n)
	for i := range names {
		names[i] = fmt.Sprintf("%s-%d", setupFile, i)
		defer os.Remove(names[i])
	}
	// parts gives the work; each part returns what it observed
	parts := func(name string, seed int64) []func() string {
		rr := rand.New(rand.NewSource(seed))
		val := randBytes(rr, 5)
		return []func() string{
			func() string {
				ts, err := trie_kzg_bn256.TrustedSetupFromBytes(suiteBN, setup)
				ts2, err2 := trie_kzg_bn256.TrustedSetupFromFile(suiteBN, setupFile)
				if err != nil || err2 != nil {
					return fmt.Sprint(err, err2)
				}
				return fmt.Sprintf("%x %x", ts.Bytes(), ts2.Bytes())
			},
			func() string {
				a, err := trie_kzg_bn256.TrustedSetupFromSecretPowers(suiteBN, uint16(d), scalarOf(om), scalarOf(sec))
				b, err2 := trie_kzg_bn256.TrustedSetupFromSecretNaturalDomain(suiteBN, uint16(d), scalarOf(sec))
				c, err3 := trie_kzg_bn256.TrustedSetupFromSeed(suiteBN, uint16(d), val)
				if err != nil || err2 != nil || err3 != nil {
					return fmt.Sprint(err, err2, err3)
				}
				return fmt.Sprintf("%x %x %x", a.Bytes(), b.Bytes(), c.Bytes())
			},
			func() string {
				w, pw := trie_kzg_bn256.GenRootOfUnityQuasiPrimitive(suiteBN, 4)
				return fmt.Sprint(len(pw), pw[0].Equal(suiteBN.G1().Scalar().One()), pw[1].Equal(w))
			},
			func() string {
				p, err := trie_kzg_bn256.ProofOfInclusionFromBytes(kproof)
				if err != nil {
					return err.Error()
				}
				return p.String() + fmt.Sprintf("%x", p.Bytes()) + trie_kzg_bn256.Model.Description() + trie_kzg_bn256.Model.ShortName()
			},
			func() string {
				rd := trie.NewTrieReader(trie_kzg_bn256.Model, kstore, nil)
				p, ok := trie_kzg_bn256.Model.ProofOfInclusion([]byte("a"), rd)
				if !ok {
					return "no proof"
				}
				nd, _ := rd.GetNode(nil)
				c := trie.RootCommitment(rd)
				return fmt.Sprint(p.Validate(c, []byte{1}), p.String(), trie.ToString(nd), c.String(), c.Clone().String(), rd.Info())
			},
			func() string {
				m := trie_kzg_bn256.New()
				c := m.CommitToData(val)
				v := m.NewVectorCommitment()
				tr := trie.New(m, trie.NewInMemoryKVStore(), nil)
				tr.Update([]byte("a"), val)
				tr.Update([]byte("b"), val)
				tr.Commit()
				cl := tr.Clone()
				cl.Update([]byte("a"), []byte{1})
				cl.Commit()
				w := trie.RootCommitment(cl).Clone()
				return fmt.Sprintf("%s %s %s %s %x %x %s", c.String(), c.Clone().String(), v.String(), m.Description(), rootOf(cl), rootOf(tr), w.String())
			},
			func() string {
				var out strings.Builder
				all, _ := encodePairs([]kvPair{{[]byte("k"), val}, {val, val}})
				_ = trie.NewBinaryStreamIterator(bytes.NewReader(all)).Iterate(func(k, v []byte) bool { fmt.Fprintf(&out, "%x:%x ", k, v); return true })
				u, err := trie.Uint16From2Bytes([]byte{1, 2})
				return out.String() + fmt.Sprint(u, err)
			},
			func() string {
				w, err := trie.CreateKVStreamFile(name)
				if err != nil {
					return err.Error()
				}
				for _, k := range keys {
					_ = w.Write([]byte(k), content[k])
				}
				out := fmt.Sprintln(w.Stats())
				_ = w.Close()
				f, err := trie.OpenKVStreamFile(name)
				if err != nil {
					return err.Error()
				}
				_ = f.Iterate(func(k, v []byte) bool { out += fmt.Sprintf("%x:%x ", k, v); return true })
				_ = f.Close()
				return out
			},
			func() string {
				m := trie.NewInMemoryKVStore()
				for _, k := range keys {
					m.Set([]byte(k), content[k])
				}
				a, err := trie.DumpToFile(m, name)
				into := trie.NewInMemoryKVStore()
				b, err2 := trie.UnDumpFromFile(into, name)
				out := fmt.Sprintln(a, err, b, err2, trie.NumEntries(into), trie.ByteSize(into))
				for _, k := range keys {
					out += fmt.Sprintf("%v %x ", into.Has([]byte(k)), into.Get([]byte(k)))
				}
				return out
			},
			func() string {
				m := newModel(cfg)
				tr := trie.New(m, trie.NewInMemoryKVStore(), vals, cfg.Opt)
				tr.UpdateAll(vals)
				tr.Update([]byte(name), val)
				tr.Delete([]byte(name))
				tr.Commit()
				out := fmt.Sprintf("%x %d %s %d", rootOf(tr), len(tr.Reconcile(vals)), tr.Info(), tr.PathArity())
				c, err := tr.VectorCommitmentFromBytes(rootOf(tr))
				if err == nil {
					out += fmt.Sprint(m.EqualCommitments(c, trie.RootCommitment(tr)))
				}
				return out + fmt.Sprint(len(tr.DangerouslyDumpCacheToString()) > 0)
			},
			func() string {
				m := newModel(cfg).(*trie_blake2b.CommitmentModel)
				rd := trie.NewTrieReader(m, frozen, vals)
				out := rd.Info() + m.HashSize().String()
				for _, k := range keys {
					g := trie.GetProofGeneric(rd, trie.UnpackBytes([]byte(k), m.PathArity()))
					p := m.Proof([]byte(k), rd)
					q, err := trie_blake2b.ProofFromBytes(p.Bytes())
					out += fmt.Sprint(g.String(), g.Ending.String(), err, trie_blake2b_verify.ValidateWithValue(q, root, content[k]), trie.MustSize(p))
					out += fmt.Sprintf("%x", trie_blake2b_verify.CommitmentToTheTerminalNode(q))
				}
				return out
			},
			func() string {
				got := map[string][]byte{}
				shared.Iterate(func(k, v []byte) bool { got[string(k)] = append([]byte{}, v...); return true })
				own := mapdb.NewMapDB()
				ad := hive_adaptor.NewHiveKVStoreAdaptor(own, []byte{1})
				up, _ := hive_adaptor.NewHiveBatchedUpdater(own, newModel(cfg), []byte{2}, []byte{1}, cfg.Opt)
				for _, k := range keys {
					up.Update([]byte(k), content[k])
				}
				err := up.Commit()
				n := 0
				ad.Iterate(func(k, v []byte) bool { n += len(k) + len(v); return true })
				return fmt.Sprint(fullStr(got), err, n)
			},
		}
	}
	seed := r.Int63()
	var want []string
	for _, f := range parts(names[0]+"w", seed) {
		want = append(want, f())
	}
	_ = os.Remove(names[0] + "w")
	perms := make([][]int, n)
	for i := range perms {
		perms[i] = r.Perm(len(want))
	}
	together(t, n, func(t *T, g int, st *steps) {
		ps := parts(names[g], seed)
		for _, i := range perms[g] {
			got := ps[i]()
			st.step()
			t.Eval(1)
			t.Check(got == want[i], "part %d of separate work: concurrent calls give %s, alone %s", i, got, want[i])
		}
	})
}

// ---- adaptors over a synchronised database

type regIn struct {
	op  int // 0 get 1 has 2 set 3 delete
	key string
	val string
}

var regModel = porcupine.Model{
	Partition: func(h []porcupine.Operation) [][]porcupine.Operation {
		m := map[string][]porcupine.Operation{}
		for _, o := range h {
			k := o.Input.(regIn).key
			m[k] = append(m[k], o)
		}
		var ret [][]porcupine.Operation
		for _, k := range sortedKeys(m) {
			ret = append(ret, m[k])
		}
		return ret
	},
	Init: func() any { return "" },
	Step: func(state, input, output any) (bool, any) {
		in := input.(regIn)
		switch in.op {
		case 0:
			return output.(string) == state.(string), state
		case 1:
			return output.(string) == fmt.Sprint(state.(string) != ""), state
		case 2:
			return true, in.val
		}
		return true, ""
	},
	Equal: func(a, b any) bool { return a == b },
}

func linearizable(t *T, onDisk bool) {
	var kvs kvstore.KVStore = mapdb.NewMapDB()
	if onDisk {
		dir, err := os.MkdirTemp(tmpDir(), "badger")
		t.Check(err == nil, "harness: %v", err)
		defer os.RemoveAll(dir)
		db, err := badger.CreateDB(filepath.Join(dir, "db"))
		t.Check(err == nil, "harness: badger: %v", err)
		kvs = badger.New(db)
		defer func() { _ = kvs.Close() }()
	}
	prefix := roomy([]byte{1})
	common := hive_adaptor.NewHiveKVStoreAdaptor(kvs, prefix)
	n := 5
	var clock int64
	hist := make([][]porcupine.Operation, n)
	together(t, n, func(t *T, g int, st *steps) {
		ad := common
		if g%2 == 0 {
			ad = hive_adaptor.NewHiveKVStoreAdaptor(kvs, prefix)
		}
		for j := 0; j < 40; j++ {
			in := regIn{op: []int{0, 0, 0, 1, 2, 2, 3}[t.Rng.Intn(7)], key: string([]byte{byte(t.Rng.Intn(3)), 1})}
			if in.op == 2 {
				in.val = fmt.Sprintf("g%d-%d", g, j)
			}
			if t.Rng.Intn(4) == 0 {
				runtime.Gosched()
			}
			call := atomic.AddInt64(&clock, 1)
			out := ""
			switch in.op {
			case 0:
				out = string(ad.Get([]byte(in.key)))
			case 1:
				out = fmt.Sprint(ad.Has([]byte(in.key)))
			case 2:
				ad.Set([]byte(in.key), []byte(in.val))
			case 3:
				ad.Set([]byte(in.key), nil)
			}
			ret := atomic.AddInt64(&clock, 1)
			hist[g] = append(hist[g], porcupine.Operation{ClientId: g, Input: in, Call: call, Output: out, Return: ret})
			st.step()
		}
	})
	var all []porcupine.Operation
	overlaps := 0
	for g, h := range hist {
		all = append(all, h...)
		for _, o := range h {
			for g2, h2 := range hist {
				if g2 <= g {
					continue
				}
				for _, o2 := range h2 {
					if o.Input.(regIn).key == o2.Input.(regIn).key && o.Call < o2.Return && o2.Call < o.Return {
						overlaps++
					}
				}
			}
		}
	}
	t.Count("recorded adaptor calls", len(all))
	t.Count("overlapping pairs of calls on one key", overlaps)
	r := porcupine.CheckOperationsTimeout(regModel, all, 60*time.Second)
	t.Eval(1)
	if r == porcupine.Unknown {
		t.Count("linearizability inconclusive", 1)
		return
	}
	if r == porcupine.Illegal {
		sort.Slice(all, func(i, j int) bool { return all[i].Call < all[j].Call })
		for _, o := range all {
			t.Logf("client %d [%d,%d] %+v -> %v", o.ClientId, o.Call, o.Return, o.Input, o.Output)
		}
		t.Fail("history of %d adaptor calls is not linearizable", len(all))
	}
	t.Count("histories linearizable", 1)
}

// updaters over one database with partitions of their own, and readers of other partitions
func sharedDB(t *T) {
	cfg := batchCfg(t.Rng)
	kvs := mapdb.NewMapDB()
	model := newModel(cfg)
	n := 4
	ops := make([][]batchOp, n)
	for i := range ops {
		ops[i] = batchOps(t.Rng, cfg, 30, false)
	}
	together(t, n, func(t *T, g int, st *steps) {
		tp, vp := roomy([]byte{byte(g), 1}), roomy([]byte{byte(g), 2})
		up, err := hive_adaptor.NewHiveBatchedUpdater(kvs, model, tp, vp, cfg.Opt)
		t.Check(err == nil, "updater: %v", err)
		all := map[string][]byte{}
		for _, o := range ops[g] {
			st.step()
			if !o.commit {
				up.Update(append([]byte{}, o.k...), append([]byte(nil), o.v...))
				if len(o.v) == 0 {
					delete(all, string(o.k))
				} else {
					all[string(o.k)] = o.v
				}
				continue
			}
			t.Check(up.Commit() == nil, "commit fails")
			r := trie.NewTrieReader(model, hive_adaptor.NewHiveKVStoreAdaptor(kvs, tp), hive_adaptor.NewHiveKVStoreAdaptor(kvs, vp))
			want := buildTree(all, cfg).rootBytes()
			t.Check(bytes.Equal(rootOf(r), want), "root in partition %d is %x, want %x", g, rootOf(r), want)
			t.Eval(1)
		}
		vals := checkDB(t, kvs, cfg, tp, vp, "concurrent updater")
		t.Check(sameContent(vals, all), "values of a concurrent updater: %s", diffStores(vals, all))
	})
}

func runC15(c *Ctx) {
	if !raceEnabled {
		fmt.Fprintln(os.Stderr, "vmon: built without the race detector")
		os.Exit(3)
	}
	w := c.workers/2 + 1
	c.casesW("readers", 1500*c.scale, w, sharedReaders)
	c.casesW("models", 1500*c.scale, w, sharedModel)
	c.casesW("clones", 1500*c.scale, w, clones)
	c.casesW("kzg", 40*c.scale, w, kzgShared)
	c.casesW("stateless", 600*c.scale, w, stateless)
	c.casesW("separate", 12*c.scale, w, separate)
	c.casesW("databases", 1200*c.scale, w, sharedDB)
	c.casesW("linearizable", 1500*c.scale, w, func(t *T) { linearizable(t, false) })
	c.casesW("linearizable-disk", 10*c.scale, w, func(t *T) { linearizable(t, true) })
}
