package main

import (
	"bytes"
	"fmt"
	"sort"

	"github.com/iotaledger/trie.go/trie"
)

// MStore is an instrumented key/value store. It copies on write and on read, counts accesses, and has a budget of
// reads: code under test that loops over the store runs out of it, which is a violation decided on logical steps.
type MStore struct {
	m       map[string][]byte
	gets    int
	hass    int
	sets    int
	dels    int
	budget  int // 0 = unlimited
	onGet   func(k []byte)
	lastSet []string
	logSets bool
	share   bool // hand out internal slices, as an in-memory map does
}

func newMStore() *MStore { return &MStore{m: map[string][]byte{}, budget: 20_000_000} }

func (s *MStore) Get(k []byte) []byte {
	s.gets++
	if s.budget > 0 && s.gets > s.budget {
		panic(violation{fmt.Sprintf("read budget of the store exhausted (%d reads): unbounded work", s.budget)})
	}
	if s.onGet != nil {
		s.onGet(k)
	}
	v, ok := s.m[string(k)]
	if !ok {
		return nil
	}
	if s.share {
		return v
	}
	return append([]byte{}, v...)
}

func (s *MStore) Has(k []byte) bool { s.hass++; _, ok := s.m[string(k)]; return ok }

func (s *MStore) Set(k, v []byte) {
	if s.logSets {
		s.lastSet = append(s.lastSet, string(k))
	}
	if len(v) == 0 {
		s.dels++
		delete(s.m, string(k))
		return
	}
	s.sets++
	if s.share {
		s.m[string(k)] = v
		return
	}
	s.m[string(k)] = append([]byte{}, v...)
}

// Iterate in a deterministic order
func (s *MStore) Iterate(f func(k, v []byte) bool) {
	keys := make([]string, 0, len(s.m))
	for k := range s.m {
		keys = append(keys, k)
	}
	sort.Strings(keys)
	for _, k := range keys {
		if !f([]byte(k), append([]byte{}, s.m[k]...)) {
			return
		}
	}
}

func (s *MStore) copy() *MStore {
	r := newMStore()
	for k, v := range s.m {
		r.m[k] = append([]byte{}, v...)
	}
	return r
}

var _ trie.KVStore = (*MStore)(nil)

// diffStores describes the first differences between two store contents
func diffStores(got, want map[string][]byte) string {
	var out []string
	keys := map[string]bool{}
	for k := range got {
		keys[k] = true
	}
	for k := range want {
		keys[k] = true
	}
	ks := make([]string, 0, len(keys))
	for k := range keys {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	for _, k := range ks {
		g, okg := got[k]
		w, okw := want[k]
		switch {
		case !okg:
			out = append(out, fmt.Sprintf("missing node at '%x' (want %s)", k, hx(w)))
		case !okw:
			out = append(out, fmt.Sprintf("superfluous node at '%x' (%s)", k, hx(g)))
		case !bytes.Equal(g, w):
			out = append(out, fmt.Sprintf("node at '%x' is %x, want %x", k, g, w))
		}
		if len(out) == 4 {
			break
		}
	}
	s := ""
	for i, o := range out {
		if i > 0 {
			s += "; "
		}
		if len(o) > 500 {
			o = o[:500] + ".."
		}
		s += o
	}
	return s
}

func sameContent(a, b map[string][]byte) bool {
	if len(a) != len(b) {
		return false
	}
	for k, v := range a {
		w, ok := b[k]
		if !ok || !bytes.Equal(v, w) {
			return false
		}
	}
	return true
}

func copyMap(m map[string][]byte) map[string][]byte {
	r := make(map[string][]byte, len(m))
	for k, v := range m {
		r[k] = v
	}
	return r
}

func sortedKeys[V any](m map[string]V) []string {
	ks := make([]string, 0, len(m))
	for k := range m {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	return ks
}
