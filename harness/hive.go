package main

import (
	"errors"
	"fmt"
	"math/rand"
	"sort"
	"strings"
	"sync"

	"github.com/iotaledger/hive.go/core/kvstore"
)

var errDB = errors.New("injected database error")

// dbCore is an instrumented database: a map with a call log and faults, shared by all realms and batches of it
type dbCore struct {
	mu     sync.Mutex
	m      map[string][]byte
	n      int      // calls so far
	log    []string // kind and full key of every call
	fault  func(n int, op string) error
	after  map[string]bool // operations whose fault strikes after the effect
	onMut  func(op string) // after every change of the content
	rng    *rand.Rand      // order of iteration: nil = sorted
	share  bool            // hands out and keeps slices without copying, as the databases in memory do
	iterAt int             // number of pairs delivered before a fault of the iteration
	closed bool
	dirty  bool // a batch was committed and not flushed since
	quiet  bool // no log
	// touched reports every full key a call touches
	touched func(op string, key []byte)
}

// roomy is a copy of b within a larger buffer, as it is when b was cut out of something: who appends to it without
// copying writes into what follows
func roomy(b []byte) []byte {
	if b == nil {
		return nil
	}
	r := make([]byte, len(b)+48)
	copy(r, b)
	for i := len(b); i < len(r); i++ {
		r[i] = spare
	}
	return r[:len(b)]
}

// oneBuffer gives copies which lie one behind the other in one buffer
func oneBuffer(bs ...[]byte) [][]byte {
	var all []byte
	for _, b := range bs {
		all = append(all, b...)
	}
	all = roomy(all)
	ret := make([][]byte, len(bs))
	n := 0
	for i, b := range bs {
		if b != nil {
			ret[i] = all[n : n+len(b)]
		}
		n += len(b)
	}
	return ret
}

const spare = 0xc3

// intact tells if what follows a roomy slice was left alone
func intact(b []byte) bool {
	for _, x := range b[len(b):cap(b)] {
		if x != spare {
			return false
		}
	}
	return true
}

type fakeDB struct {
	c     *dbCore
	realm []byte
}

func newFakeDB() *fakeDB { return &fakeDB{c: &dbCore{m: map[string][]byte{}}} }

// call logs the call and returns the injected error
func (d *fakeDB) call(op string, key []byte) ([]byte, error) {
	c := d.c
	full := append(append([]byte{}, d.realm...), key...)
	if c.closed {
		return full, kvstore.ErrStoreClosed
	}
	c.n++
	if !c.quiet {
		c.log = append(c.log, fmt.Sprintf("%s %x", op, full))
	}
	if c.touched != nil {
		c.touched(op, full)
	}
	if c.fault != nil {
		return full, c.fault(c.n, op)
	}
	return full, nil
}

func (c *dbCore) mutated(op string) {
	if c.onMut != nil {
		c.onMut(op)
	}
}

func (c *dbCore) keep(v []byte) []byte {
	if c.share {
		return v
	}
	return append([]byte{}, v...)
}

func (d *fakeDB) WithRealm(realm kvstore.Realm) (kvstore.KVStore, error) {
	return &fakeDB{c: d.c, realm: append([]byte{}, realm...)}, nil
}
func (d *fakeDB) Realm() kvstore.Realm { return append([]byte{}, d.realm...) }

func (d *fakeDB) Get(key kvstore.Key) (kvstore.Value, error) {
	d.c.mu.Lock()
	defer d.c.mu.Unlock()
	k, err := d.call("get", key)
	v, ok := d.c.m[string(k)]
	if err != nil {
		if d.c.after["get"] { // value and error
			return d.c.keep(v), err
		}
		return nil, err
	}
	if !ok {
		return nil, kvstore.ErrKeyNotFound
	}
	return d.c.keep(v), nil
}

func (d *fakeDB) Has(key kvstore.Key) (bool, error) {
	d.c.mu.Lock()
	defer d.c.mu.Unlock()
	k, err := d.call("has", key)
	if err != nil {
		return d.c.after["has"], err
	}
	_, ok := d.c.m[string(k)]
	return ok, nil
}

func (d *fakeDB) Set(key kvstore.Key, value kvstore.Value) error {
	d.c.mu.Lock()
	defer d.c.mu.Unlock()
	k, err := d.call("set", key)
	if err == nil || d.c.after["set"] {
		d.c.m[string(k)] = d.c.keep(value)
		d.c.mutated("set")
	}
	return err
}

func (d *fakeDB) Delete(key kvstore.Key) error {
	d.c.mu.Lock()
	defer d.c.mu.Unlock()
	k, err := d.call("delete", key)
	if err == nil || d.c.after["delete"] {
		delete(d.c.m, string(k))
		d.c.mutated("delete")
	}
	return err
}

func (d *fakeDB) DeletePrefix(prefix kvstore.KeyPrefix) error {
	d.c.mu.Lock()
	defer d.c.mu.Unlock()
	p, err := d.call("deleteprefix", prefix)
	if err == nil {
		for k := range d.c.m {
			if strings.HasPrefix(k, string(p)) {
				delete(d.c.m, k)
			}
		}
		d.c.mutated("deleteprefix")
	}
	return err
}

func (d *fakeDB) Clear() error { return d.DeletePrefix(nil) }

func (d *fakeDB) Flush() error {
	d.c.mu.Lock()
	defer d.c.mu.Unlock()
	_, err := d.call("flush", nil)
	if err == nil {
		d.c.dirty = false
	}
	return err
}

func (d *fakeDB) Close() error { d.c.closed = true; return nil }

func (d *fakeDB) iterate(op string, prefix []byte, f func(k, v []byte) bool) error {
	d.c.mu.Lock()
	p, err := d.call(op, prefix)
	type kv struct {
		k string
		v []byte
	}
	var list []kv
	for k, v := range d.c.m {
		if strings.HasPrefix(k, string(p)) {
			list = append(list, kv{k, d.c.keep(v)})
		}
	}
	sort.Slice(list, func(i, j int) bool { return list[i].k < list[j].k })
	if d.c.rng != nil {
		d.c.rng.Shuffle(len(list), func(i, j int) { list[i], list[j] = list[j], list[i] })
	}
	at := d.c.iterAt
	d.c.mu.Unlock()
	for i, e := range list {
		if err != nil && i >= at {
			return err
		}
		if !f([]byte(e.k[len(d.realm):]), e.v) {
			return nil
		}
	}
	return err
}

func (d *fakeDB) Iterate(prefix kvstore.KeyPrefix, f kvstore.IteratorKeyValueConsumerFunc, _ ...kvstore.IterDirection) error {
	return d.iterate("iterate", prefix, f)
}

func (d *fakeDB) IterateKeys(prefix kvstore.KeyPrefix, f kvstore.IteratorKeyConsumerFunc, _ ...kvstore.IterDirection) error {
	return d.iterate("iterate", prefix, func(k, _ []byte) bool { return f(k) })
}

func (d *fakeDB) Batched() (kvstore.BatchedMutations, error) {
	d.c.mu.Lock()
	defer d.c.mu.Unlock()
	if _, err := d.call("batched", nil); err != nil {
		return nil, err
	}
	return &fakeBatch{d: d}, nil
}

// fakeBatch keeps the slices of keys and values it is given until Commit, as the databases do
type fakeBatch struct {
	d    *fakeDB
	list []batchMut
}

type batchMut struct {
	key, value []byte
	del        bool
}

func (b *fakeBatch) Set(key kvstore.Key, value kvstore.Value) error {
	b.d.c.mu.Lock()
	defer b.d.c.mu.Unlock()
	_, err := b.d.call("batch-set", key)
	if err == nil {
		b.list = append(b.list, batchMut{key: key, value: value})
	}
	return err
}

func (b *fakeBatch) Delete(key kvstore.Key) error {
	b.d.c.mu.Lock()
	defer b.d.c.mu.Unlock()
	_, err := b.d.call("batch-delete", key)
	if err == nil {
		b.list = append(b.list, batchMut{key: key, del: true})
	}
	return err
}

func (b *fakeBatch) Cancel() { b.list = nil }

func (b *fakeBatch) Commit() error {
	b.d.c.mu.Lock()
	defer b.d.c.mu.Unlock()
	_, err := b.d.call("batch-commit", nil)
	if err == nil || b.d.c.after["batch-commit"] {
		for _, x := range b.list {
			full := string(b.d.realm) + string(x.key)
			if x.del {
				delete(b.d.c.m, full)
			} else {
				b.d.c.m[full] = b.d.c.keep(x.value)
			}
		}
		if len(b.list) > 0 {
			b.d.c.dirty = true
			b.d.c.mutated("batch-commit")
		}
	}
	return err
}

// partition is the content under a prefix
func (c *dbCore) partition(prefix []byte) map[string][]byte {
	ret := map[string][]byte{}
	for k, v := range c.m {
		if strings.HasPrefix(k, string(prefix)) {
			ret[k[len(prefix):]] = v
		}
	}
	return ret
}

func (c *dbCore) copyContent() map[string][]byte {
	ret := map[string][]byte{}
	for k, v := range c.m {
		ret[k] = append([]byte{}, v...)
	}
	return ret
}

var _ kvstore.KVStore = (*fakeDB)(nil)
var _ kvstore.BatchedMutations = (*fakeBatch)(nil)
