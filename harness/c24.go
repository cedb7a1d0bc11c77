package main

import (
	"bytes"
	"fmt"
	"strings"

	"github.com/iotaledger/trie.go/trie"
)

func init() {
	register(&property{id: "C24", level: "fault_enumeration",
		rule:  "A case runs a random history of one trie over stores which fail (panic with an error) at chosen accesses: the n-th read of the trie store or of the value store during an update, deletion, lookup, proof, reconciliation, mass update or commit, or the n-th write of a persist. After a failure the operation is either repeated or given up; an operation given up must leave the pending state as it was (a mass update: the pairs handled so far). At commits root and nodes are compared with the canonical tree, at persists the whole store. Distinct by (configuration, root, failing operation); non-trivial: a failure has happened.",
		assum: []string{"a failing store panics, as the adaptor of the repository does; a failed persist is repeated, on the same or on another trie over the same state, before the store is read again"},
		run:   runC24})
}

// faulty fails at a chosen access
type faulty struct {
	s     *MStore
	left  int // accesses until the failure, 0 = never
	hit   bool
	burst int // how many accesses in a row fail
	late  bool
}

var errStore = fmt.Errorf("the store fails")

func (f *faulty) step() {
	if f.left > 0 {
		f.left--
		if f.left == 0 {
			f.hit = true
			if f.burst > 1 {
				f.burst--
				f.left = 1
			}
			panic(errStore)
		}
	}
}

func (f *faulty) Get(k []byte) []byte { f.step(); return f.s.Get(k) }
func (f *faulty) Has(k []byte) bool   { f.step(); return f.s.Has(k) }
func (f *faulty) Set(k, v []byte) {
	if f.late {
		f.s.Set(k, v) // the write takes effect and is reported as failed
	}
	f.step()
	if !f.late {
		f.s.Set(k, v)
	}
}

// caught runs f and tells if the injected error came out; any other panic goes on
func caught(f func()) (failed bool) {
	defer func() {
		if r := recover(); r != nil {
			// as it is, or wrapped or reworded on its way by the code in between
			if strings.Contains(fmt.Sprint(r), errStore.Error()) {
				failed = true
				return
			}
			panic(r)
		}
	}()
	f()
	return false
}

func faultCase(t *T, cfg Cfg, maxOps int) {
	p := newProfile(t.Rng, cfg)
	if cfg.KZG {
		p = kzgProfile(t)
	}
	base := stateByProfile(t, cfg, p, maxOps)
	w := base.w
	w.exec(Op{Kind: opPersist})
	ts, vs := &faulty{s: w.ts}, &faulty{s: w.vs}
	var vr trie.KVReader
	if cfg.Thr > 0 {
		vr = vs
	}
	open := func() *trie.Trie { return trie.New(w.model, ts, vr, cfg.Opt) }
	tr := open()
	keys := p.keys(t.Rng)
	keys = append(keys, base.keys...)
	if len(keys) == 0 {
		keys = append(keys, []byte{1})
	}
	var vals [][]byte
	cur, pers := copyMap(w.cur), copyMap(w.cur)
	dirty := false
	arm := func() *faulty {
		f := ts
		if cfg.Thr > 0 && t.Rng.Intn(4) == 0 {
			f = vs
		}
		f.left, f.hit, f.burst = 0, false, 1
		if t.Rng.Intn(3) > 0 {
			f.left = 1 + t.Rng.Intn(1+t.Rng.Intn(12))
			f.burst = 1 + t.Rng.Intn(3)
		}
		return f
	}
	disarm := func() { ts.left, vs.left = 0, 0 }
	log := func(f string, a ...any) { t.Logf(f, a...) }
	log("config %s, base %s", cfg, contentStr(cur))
	t.Sample("%s, base %s", cfg, contentStr(cur))
	failures := 0
	check := func(where string) {
		tree := buildTree(cur, cfg)
		t.Eval(1)
		got := rootOf(tr)
		t.Check(bytes.Equal(got, tree.rootBytes()), "%s: root %x, want %x for content %s", where, got, tree.rootBytes(), contentStr(cur))
		for _, n := range tree.nodes {
			g, ok := tr.GetNode(append([]byte(nil), n.Key...))
			t.Check(ok, "%s: node '%x' is missing", where, n.Key)
			checkNode(t, cfg, g, n, where)
		}
		if failures > 0 && len(cur) > 0 {
			t.Seen(cfg.String(), tree.rootBytes(), failures)
		}
	}
	// attempt runs one operation with a possible failure; done tells if it has taken effect in the end
	attempt := func(name string, f func()) (done bool) {
		a := arm()
		failed := caught(f)
		t.Check(!failed || a.hit, "%s fails without a failure of the store", name)
		t.Check(failed || !a.hit, "%s: a failure of the store is not surfaced", name)
		if failed {
			failures++
			t.Count("failures during "+name, 1)
			log("%s FAILS", name)
		}
		for n := 0; failed && t.Rng.Intn(3) > 0; n++ {
			log("%s repeated", name)
			t.Count("operations repeated", 1)
			if n > 4 {
				disarm()
			}
			failed = caught(f)
		}
		disarm()
		if !failed {
			log("%s", name)
		} else {
			t.Count("operations given up", 1)
		}
		return !failed
	}
	for i := 4 + t.Rng.Intn(maxOps); i > 0; i-- {
		k := keys[t.Rng.Intn(len(keys))]
		switch x := t.Rng.Intn(40); {
		case x < 12:
			v := p.value(t.Rng, k, &vals)
			if attempt("update", func() { log("Set(%x, %s)", k, hx(v)); tr.Update(w.buf(k), w.buf(v)) }) {
				cur[string(k)] = v
				dirty = true
			}
		case x < 23:
			if attempt("deletion", func() { log("Del(%x)", k); tr.Delete(w.buf(k)) }) {
				delete(cur, string(k))
				dirty = true
			}
		case x < 25:
			path := oUnpack(k, cfg.Arity)
			attempt("lookup", func() { tr.GetNode(path[:t.Rng.Intn(len(path)+1)]) })
		case x < 27:
			var got []byte
			if attempt("proof", func() { got = proofBytes(t, w.model, k, tr) }) && !dirty {
				disarm()
				want := proofBytes(t, w.model, k, tr.Clone())
				t.Check(bytes.Equal(got, want), "proof of %x after failures %x, want %x", k, got, want)
			}
		case x < 28:
			st := newMStore()
			for k, v := range cur {
				st.Set([]byte(k), v)
			}
			if t.Rng.Intn(2) == 0 {
				st.Set(k, []byte("other"))
			}
			want := map[string]bool{}
			for k, v := range st.m {
				if !bytes.Equal(cur[k], v) {
					want[k] = true
				}
			}
			var got [][]byte
			if attempt("reconciliation", func() { got = tr.Reconcile(st) }) {
				t.Check(len(got) == len(want), "reconciliation after failures lists %x, want %v", got, want)
			}
		case x < 29:
			// a mass update which fails has handled the pairs before the failing one
			st := &reusing{m: map[string][]byte{}}
			for n := t.Rng.Intn(4); n >= 0; n-- {
				k := string(keys[t.Rng.Intn(len(keys))])
				if _, in := st.m[k]; !in {
					st.keys = append(st.keys, k)
				}
				st.m[k] = p.value(t.Rng, []byte(k), &vals)
			}
			at := -1
			it := iterFunc(func(f func(k, v []byte) bool) {
				for i, k := range st.keys {
					at = i
					if !f([]byte(k), append([]byte(nil), st.m[k]...)) {
						return
					}
				}
				at = len(st.keys)
			})
			if attempt("mass update", func() { at = -1; tr.UpdateAll(it) }) {
				at = len(st.keys)
			} else {
				// the iteration which was repeated may have come further than the last one: give them once more
				for i := 0; i < at; i++ {
					tr.Update([]byte(st.keys[i]), append([]byte(nil), st.m[st.keys[i]]...))
				}
				at = len(st.keys)
				for i := 0; i < at; i++ {
					tr.Update([]byte(st.keys[i]), append([]byte(nil), st.m[st.keys[i]]...))
				}
			}
			for i := 0; i < at; i++ {
				cur[st.keys[i]] = st.m[st.keys[i]]
			}
			dirty = true
		case x < 33:
			if attempt("commit", func() { tr.Commit() }) {
				dirty = false
				check("after commit")
			} else {
				dirty = true
			}
		case x < 36:
			tr.Commit()
			dirty = false
			check("before persist")
			for n := 0; ; n++ {
				ts.left, ts.hit, ts.burst, ts.late = 0, false, 1, t.Rng.Intn(2) == 0
				if t.Rng.Intn(2) == 0 && n < 5 {
					ts.left = 1 + t.Rng.Intn(1+t.Rng.Intn(20))
				}
				failed := caught(func() { tr.PersistMutations(ts) })
				t.Check(failed == ts.hit, "persist: failure of the store %v, surfaced %v", ts.hit, failed)
				disarm()
				if !failed {
					break
				}
				failures++
				t.Count("failures during persist", 1)
				if t.Rng.Intn(3) == 0 {
					check("after a failed persist") // the trie serves the state from its cache and the partly written store
				}
				if t.Rng.Intn(4) == 0 {
					tr = tr.Clone()
				}
			}
			for k := range pers {
				if _, in := cur[k]; !in {
					w.vs.Set([]byte(k), nil)
				}
			}
			for k, v := range cur {
				w.vs.Set([]byte(k), v)
			}
			pers = copyMap(cur)
			want := buildTree(cur, cfg).storeOf()
			t.Eval(1)
			t.Check(sameContent(w.ts.m, want), "store after failures: %s", diffStores(w.ts.m, want))
			t.Count("stores compared", 1)
			if t.Rng.Intn(2) == 0 {
				tr.ClearCache()
			}
		case x < 38:
			log("clear")
			tr.ClearCache()
			cur, dirty = copyMap(pers), false
		case x < 39:
			log("reopen")
			tr = open()
			cur, dirty = copyMap(pers), false
		default:
			tr = tr.Clone()
		}
	}
	tr.Commit()
	check("end")
	tr.PersistMutations(ts)
	want := buildTree(cur, cfg).storeOf()
	t.Check(sameContent(w.ts.m, want), "store at the end: %s", diffStores(w.ts.m, want))
}

type iterFunc func(f func(k, v []byte) bool)

func (i iterFunc) Iterate(f func(k, v []byte) bool) { i(f) }

// everyFault: one operation, every access in turn fails once; given up and repeated
func everyFault(t *T) {
	cfg := optCfg(t)
	if t.Rng.Intn(4) == 0 {
		cfg = toyCfg(t)
	}
	s := stateBy(t, cfg, 25)
	w := s.w
	w.exec(Op{Kind: opPersist})
	ts, vs := &faulty{s: w.ts}, &faulty{s: w.vs}
	var vr trie.KVReader
	if cfg.Thr > 0 {
		vr = vs
	}
	for _, k := range s.probeKeys(t, 5) {
		for _, del := range []bool{false, true} {
			v := []byte("new value")
			after := copyMap(w.cur)
			if del {
				delete(after, string(k))
			} else {
				after[string(k)] = v
			}
			trees := []*oTree{buildTree(w.cur, cfg), buildTree(after, cfg)}
			for _, f := range []*faulty{ts, vs} {
				for n := 1; n < 400; n++ {
					tr := trie.New(w.model, ts, vr, cfg.Opt)
					op := func() {
						if del {
							tr.Delete(w.buf(k))
						} else {
							tr.Update(w.buf(k), w.buf(v))
						}
					}
					f.left, f.burst, f.hit = n, 1, false
					failed := caught(op)
					f.left = 0
					t.Check(failed == f.hit, "del=%v of %x: failure of the store %v, surfaced %v", del, k, f.hit, failed)
					if !failed {
						break
					}
					t.Count("accesses which failed", 1)
					for again := 0; again < 2; again++ {
						x := tr
						if again == 0 {
							x = tr.Clone()
						} else {
							op()
						}
						x.Commit()
						t.Eval(1)
						name := []string{"given up", "repeated"}[again]
						t.Check(bytes.Equal(rootOf(x), trees[again].rootBytes()), "%s: del=%v of key %x fails at access %d and is %s: root %x, want %x, content %s", cfg, del, k, n, name, rootOf(x), trees[again].rootBytes(), contentStr(w.cur))
						st := w.ts.copy()
						x.PersistMutations(st)
						t.Check(sameContent(st.m, trees[again].storeOf()), "%s: del=%v of key %x fails at access %d and is %s: store: %s", cfg, del, k, n, name, diffStores(st.m, trees[again].storeOf()))
					}
					t.Seen(cfg.String(), s.root, k, del, n)
				}
			}
		}
	}
}

func runC24(c *Ctx) {
	c.Cases("histories", 8000*c.scale, func(t *T) {
		cfg := optCfg(t)
		if t.n%8 == 7 {
			cfg = toyCfg(t)
		}
		faultCase(t, cfg, 40)
	})
	c.Cases("tiny", 20000*c.scale, func(t *T) { faultCase(t, optCfg(t), 8) })
	c.Cases("kzg", 60*c.scale, func(t *T) { faultCase(t, Cfg{Arity: 256, KZG: true, Opt: t.Rng.Intn(4) == 0}, 8) })
	c.Cases("every-access", 1500*c.scale, everyFault)
}
