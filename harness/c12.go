package main

import (
	"bytes"
	"encoding/binary"
	"fmt"
	"math"
	"os"
	"os/exec"
	"path/filepath"
	"regexp"
	"strconv"
	"strings"
	"sync"
	"time"

	"github.com/iotaledger/hive.go/core/kvstore"
	"github.com/iotaledger/hive.go/core/kvstore/badger"
	"github.com/iotaledger/trie.go/hive_adaptor"
	"github.com/iotaledger/trie.go/trie"
)

func init() {
	register(&property{id: "C12", level: "fault_enumeration",
		rule:  "Random lists of pairs are written to streams, files and dumps and read back through readers which deliver the bytes in all ways, with the data cut and the reader or writer failing at every byte, and the consumer stopping at every pair; the events (pairs delivered, errors, statistics) are compared with the list. Random streams are compared with a second run of the same seed. The bench program runs as a process in a scratch directory and its databases are compared with the stream it read. Distinct by list and fault.",
		assum: []string{"the operating system delivers file data", "/dev/full stands for a full disk"},
		run:   runC12})
}

type kvPair struct{ k, v []byte }

func randPairs(t *T, n int, emptyValues bool) []kvPair {
	var ret []kvPair
	for i := 0; i < n; i++ {
		kl, vl := t.Rng.Intn(6), t.Rng.Intn(8)
		switch t.Rng.Intn(40) {
		case 0:
			kl = []int{0, 255, 256, 257, 1000}[t.Rng.Intn(5)]
		case 1:
			vl = []int{0, 255, 256, 257, 512, 513, 1000}[t.Rng.Intn(7)]
		}
		if !emptyValues && vl == 0 {
			vl = 1
		}
		ret = append(ret, kvPair{randBytes(t.Rng, kl), randBytes(t.Rng, vl)})
	}
	return ret
}

// record is one record in the documented format
func record(p kvPair) []byte {
	var b bytes.Buffer
	_ = binary.Write(&b, binary.LittleEndian, uint16(len(p.k)))
	b.Write(p.k)
	_ = binary.Write(&b, binary.LittleEndian, uint32(len(p.v)))
	b.Write(p.v)
	return b.Bytes()
}

func encodePairs(ps []kvPair) (all []byte, ends []int) {
	ends = []int{0}
	for _, p := range ps {
		all = append(all, record(p)...)
		ends = append(ends, len(all))
	}
	return
}

func samePairs(a, b []kvPair) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if !bytes.Equal(a[i].k, b[i].k) || !bytes.Equal(a[i].v, b[i].v) {
			return false
		}
	}
	return true
}

// collect iterates and stops after stop pairs (-1: never). It fails if the consumer is called after it has stopped
func collect(t *T, it trie.KVStreamIterator, stop int, what string) (got []kvPair, err error) {
	stopped := false
	keep := t.Rng.Intn(2) == 0
	var kept []kvPair
	t.mustNot(what, func() {
		err = it.Iterate(func(k, v []byte) bool {
			t.Check(!stopped, "%s: the consumer is called after it has stopped", what)
			got = append(got, kvPair{append([]byte(nil), k...), append([]byte(nil), v...)})
			if keep {
				kept = append(kept, kvPair{k, v})
			} else { // the consumer may use what it is given as it likes
				for i := range k {
					k[i] ^= 0xff
				}
				for i := range v {
					v[i] ^= 0xff
				}
			}
			stopped = len(got) == stop
			return !stopped
		})
	})
	for i, p := range kept {
		t.Check(bytes.Equal(p.k, got[i].k) && bytes.Equal(p.v, got[i].v), "%s: pair %d was delivered as %s, the consumer keeps it, and later it is %s", what, i, sizesOrBytes(got[i]), sizesOrBytes(p))
	}
	t.Count("pairs kept by the consumer", len(kept))
	t.Count("pairs delivered", len(got))
	return
}

func sizesOrBytes(p kvPair) string {
	if len(p.k)+len(p.v) > 200 {
		return fmt.Sprintf("%d, %d bytes", len(p.k), len(p.v))
	}
	return fmt.Sprintf("%x:%x", p.k, p.v)
}

// keepWriter is a writer which keeps the slices it is given, like a batch which is written later
type keepWriter struct {
	trie.KVWriter
	got, kept []kvPair
}

func (w *keepWriter) Set(k, v []byte) {
	w.got = append(w.got, kvPair{append([]byte(nil), k...), append([]byte(nil), v...)})
	w.kept = append(w.kept, kvPair{k, v})
	w.KVWriter.Set(k, v)
}

func (w *keepWriter) check(t *T, what string) {
	for i, p := range w.kept {
		t.Check(bytes.Equal(p.k, w.got[i].k) && bytes.Equal(p.v, w.got[i].v), "%s: pair %d was written as %s, the writer keeps it, and later it is %s", what, i, sizesOrBytes(w.got[i]), sizesOrBytes(p))
	}
	t.Count("pairs kept by the writer", len(w.kept))
}

// fullPairs is the number of complete records in the first n bytes
func fullPairs(ends []int, n int) int {
	c := 0
	for c+1 < len(ends) && ends[c+1] <= n {
		c++
	}
	return c
}

func streamCase(t *T) {
	ps := randPairs(t, t.Rng.Intn(12), true)
	if t.n%50 == 0 {
		ps = append(ps, kvPair{randBytes(t.Rng, 65535), randBytes(t.Rng, 70000)})
	}
	all, ends := encodePairs(ps)
	big := len(all) > 3000
	// writer
	var b bytes.Buffer
	w := trie.NewBinaryStreamWriter(&b)
	for i, p := range ps {
		n, sz := w.Stats()
		t.Check(n == i && sz == ends[i], "statistics after %d pairs: %d pairs, %d bytes, want %d bytes", i, n, sz, ends[i])
		t.Check(w.Write(p.k, p.v) == nil, "pair is not written")
	}
	n, sz := w.Stats()
	t.Check(n == len(ps) && sz == len(all), "statistics after %d pairs: %d pairs, %d bytes, want %d bytes", len(ps), n, sz, len(all))
	t.Check(bytes.Equal(b.Bytes(), all), "stream of %d pairs is %x, want %x", len(ps), b.Bytes(), all)
	t.Seen(all)
	t.Sample("%d pairs, stream %s", len(ps), hx(all))
	// all deliveries
	for i, r := range deliveries(t, all) {
		got, err := collect(t, trie.NewBinaryStreamIterator(r), -1, "stream delivered "+deliveryNames[i])
		t.Eval(1)
		t.Check(err == nil && samePairs(got, ps), "stream of %d pairs delivered %s gives %d pairs, %v: %x", len(ps), deliveryNames[i], len(got), err, all)
	}
	// the consumer stops
	for stop := 1; stop <= len(ps); stop++ {
		got, err := collect(t, trie.NewBinaryStreamIterator(bytes.NewReader(all)), stop, "stop")
		t.Eval(1)
		t.Check(err == nil && samePairs(got, ps[:stop]), "consumer which stops after %d pairs gets %d pairs, %v", stop, len(got), err)
		t.Count("consumers which stop", 1)
	}
	step := 1
	if big {
		step = len(all)/200 + 1
	}
	for cut := 0; cut <= len(all); cut += step {
		want := fullPairs(ends, cut)
		boundary := ends[want] == cut
		for i, r := range deliveries(t, all[:cut]) {
			got, err := collect(t, trie.NewBinaryStreamIterator(r), -1, "truncated")
			t.Eval(1)
			t.Check(samePairs(got, ps[:want]), "stream truncated at byte %d of %d delivered %s gives %d pairs, want %d: %x", cut, len(all), deliveryNames[i], len(got), want, all)
			t.Check((err == nil) == boundary, "stream truncated at byte %d of %d (record boundary: %v) delivered %s: %v", cut, len(all), boundary, deliveryNames[i], err)
			t.Count("truncated streams", 1)
			if big && i > 1 {
				break
			}
		}
		for k := 0; k < 3; k++ {
			r := &pieces{b: append([]byte(nil), all[:cut]...), r: t.Rng, err: errInjected, eager: k == 1, empty: k == 2}
			got, err := collect(t, trie.NewBinaryStreamIterator(r), -1, "fault")
			t.Eval(1)
			// an error which comes with the last bytes may be reported in place of the record they complete
			t.Check(samePairs(got, ps[:want]) || k == 1 && want > 0 && samePairs(got, ps[:want-1]), "reader which fails at byte %d of %d: %d pairs, want %d", cut, len(all), len(got), want)
			t.Check(reported(err), "reader which fails at byte %d of %d: error is %v", cut, len(all), err)
			t.Count("faults of readers", 1)
		}
		// faulty writer
		if cut < len(all) {
			fw := &failWriter{left: cut}
			w := trie.NewBinaryStreamWriter(fw)
			ok := 0
			var err error
			for _, p := range ps {
				t.mustNot("Write", func() { err = w.Write(p.k, p.v) })
				if err != nil {
					break
				}
				ok++
			}
			n, _ := w.Stats()
			t.Eval(1)
			t.Check(reported(err), "writer which fails after byte %d of %d: %v", cut, len(all), err)
			t.Check(ok == want && n == want, "writer which fails after byte %d of %d: %d pairs are reported as written, statistics say %d, want %d", cut, len(all), ok, n, want)
			t.Check(bytes.Equal(fw.got, all[:len(fw.got)]), "written bytes differ")
			t.Count("faults of writers", 1)
		}
	}
}

// largeCase: records around the sizes at which the lengths need another byte, and keys which do not fit at all: these
// are refused and leave the stream as it was
func largeCase(t *T) {
	r := t.Rng
	var ps []kvPair
	var b bytes.Buffer
	w := trie.NewBinaryStreamWriter(&b)
	total := 0
	for i := 2 + r.Intn(5); i > 0; i-- {
		p := kvPair{randBytes(r, r.Intn(5)), randBytes(r, r.Intn(5))}
		switch r.Intn(4) {
		case 0:
			p.k = randBytes(r, []int{254, 255, 256, 32767, 32768, 65534, 65535}[r.Intn(7)])
		case 1:
			p.v = randBytes(r, []int{255, 256, 65534, 65535, 65536, 65537, 131071, 131072, 1 << 20}[r.Intn(9)])
		case 2:
			if r.Intn(8) == 0 {
				p.v = randBytes(r, 1<<24+r.Intn(2))
			}
		case 3:
			n, before := []int{65536, 65537, 70000, 131072, 1 << 20}[r.Intn(5)], b.Len()
			var err error
			pan := catch(func() { err = w.Write(randBytes(r, n), p.v) })
			t.Check(pan != nil || err != nil, "a record with a key of %d bytes is written, the length has 16 bits", n)
			t.Check(b.Len() == before, "a record with a key of %d bytes is refused and leaves %d bytes in the stream", n, b.Len()-before)
			kv, sz := w.Stats()
			t.Check(kv == len(ps) && sz == total, "a refused record counts: %d pairs, %d bytes, want %d, %d", kv, sz, len(ps), total)
			t.Count("records refused", 1)
			continue
		}
		t.Check(w.Write(p.k, p.v) == nil, "record with %d and %d bytes is not written", len(p.k), len(p.v))
		ps = append(ps, p)
		total += len(record(p))
		kv, sz := w.Stats()
		t.Check(kv == len(ps) && sz == total, "statistics %d pairs, %d bytes, want %d, %d", kv, sz, len(ps), total)
		t.Eval(1)
		t.Count("large records", 1)
	}
	all, ends := encodePairs(ps)
	t.Check(bytes.Equal(b.Bytes(), all), "stream of large records differs: %s", sizesOf(ps))
	for i, rd := range deliveries(t, all) {
		if i == 1 && len(all) > 1<<19 {
			continue
		}
		got, err := collect(t, trie.NewBinaryStreamIterator(rd), -1, "large records delivered "+deliveryNames[i])
		t.Eval(1)
		t.Check(err == nil && samePairs(got, ps), "%s delivered %s gives %s, %v", sizesOf(ps), deliveryNames[i], sizesOf(got), err)
	}
	for i := 0; i < 10 && len(all) > 0; i++ {
		cut := r.Intn(len(all))
		if i < 4 && len(ps) > 0 { // at the ends of a record and at multiples of 64 KB
			cut = max(0, min(len(all), ends[r.Intn(len(ends))]-[]int{1, 2, 65535, 65536}[i]))
		}
		want := fullPairs(ends, cut)
		got, err := collect(t, trie.NewBinaryStreamIterator(bytes.NewReader(all[:cut])), -1, "truncated")
		t.Eval(1)
		t.Check(samePairs(got, ps[:want]) && (err == nil) == (ends[want] == cut), "%s truncated at byte %d gives %s, %v", sizesOf(ps), cut, sizesOf(got), err)
	}
	// a dump of it
	f := tempName(t)
	defer os.Remove(f)
	src, dst := newMStore(), newMStore()
	size := 0
	for _, p := range ps {
		src.Set(p.k, p.v)
	}
	for k, v := range src.m {
		size += len(record(kvPair{[]byte(k), v}))
	}
	n, err := trie.DumpToFile(src, f)
	t.Check(err == nil && n == size, "dump of %s: %d bytes, want %d, %v", sizesOf(ps), n, size, err)
	n, err = trie.UnDumpFromFile(dst, f)
	t.Check(err == nil && n == size, "restored dump of %s: %d bytes, want %d, %v", sizesOf(ps), n, size, err)
	t.Check(sameContent(dst.m, src.m), "restored dump of %s differs", sizesOf(ps))
	t.Eval(2)
	t.Seen("large", all)
	t.Sample("records %s", sizesOf(ps))
}

func sizesOf(ps []kvPair) (ret string) {
	for _, p := range ps {
		ret += fmt.Sprintf("(%d,%d)", len(p.k), len(p.v))
	}
	return
}

func tempName(t *T) string {
	return filepath.Join(tmpDir(), fmt.Sprintf("c12-%s-%d-%d", t.suite, t.n, t.Rng.Int63()))
}

func fileCase(t *T) {
	ps := randPairs(t, t.Rng.Intn(15), true)
	all, ends := encodePairs(ps)
	f := tempName(t)
	defer os.Remove(f)
	if t.n%2 == 0 {
		// an older, longer file is replaced
		t.Check(os.WriteFile(f, randBytes(t.Rng, len(all)+50), 0600) == nil, "harness: file")
	}
	w, err := trie.CreateKVStreamFile(f)
	t.Check(err == nil, "file is not created: %v", err)
	for _, p := range ps {
		t.Check(w.Write(p.k, p.v) == nil, "pair is not written")
	}
	n, sz := w.Stats()
	t.Check(n == len(ps) && sz == len(all), "statistics %d, %d, want %d, %d", n, sz, len(ps), len(all))
	t.Check(w.Close() == nil, "file is not closed")
	data, _ := os.ReadFile(f)
	t.Check(bytes.Equal(data, all), "file of %d pairs: %x, want %x", len(ps), data, all)
	read := func(stop int) ([]kvPair, error) {
		r, err := trie.OpenKVStreamFile(f)
		t.Check(err == nil, "file is not opened: %v", err)
		got, err := collect(t, r, stop, "file")
		t.Check(r.Close() == nil, "file is not closed")
		return got, err
	}
	got, err := read(-1)
	t.Eval(1)
	t.Check(err == nil && samePairs(got, ps), "file of %d pairs gives %d pairs, %v", len(ps), len(got), err)
	if len(ps) > 0 {
		stop := 1 + t.Rng.Intn(len(ps))
		got, err = read(stop)
		t.Check(err == nil && samePairs(got, ps[:stop]), "consumer which stops after %d pairs gets %d pairs, %v", stop, len(got), err)
	}
	for i := 0; i < 15 && len(all) > 0; i++ {
		cut := t.Rng.Intn(len(all))
		t.Check(os.Truncate(f, 0) == nil && os.WriteFile(f, all[:cut], 0600) == nil, "harness: file")
		want := fullPairs(ends, cut)
		got, err := read(-1)
		t.Eval(1)
		t.Check(samePairs(got, ps[:want]) && (err == nil) == (ends[want] == cut), "file truncated at byte %d of %d gives %d pairs of %d, %v", cut, len(all), len(got), want, err)
		t.Count("truncated files", 1)
	}
	_, err = trie.OpenKVStreamFile(f + ".missing")
	t.Check(err != nil, "missing file is opened")
	_, err = trie.CreateKVStreamFile(filepath.Join(f+".nodir", "x"))
	t.Check(err != nil, "file is created in a missing directory")
	if d, err := trie.OpenKVStreamFile(tmpDir()); err == nil {
		_, err = collect(t, d, -1, "directory")
		t.Check(err != nil, "a directory is read as an empty stream")
		_ = d.Close()
	}
	if full, err := trie.CreateKVStreamFile("/dev/full"); err == nil && len(ps) > 0 {
		err = full.Write(ps[0].k, ps[0].v)
		if n, _ := full.Stats(); err != nil {
			t.Check(n == 0, "statistics count a pair which is not written")
		}
		if err2 := full.Close(); err == nil {
			err = err2
		}
		t.Check(err != nil, "writing to a full disk is reported as success")
		t.Count("full disks", 1)
	}
	t.Seen("file", all)
}

func dumpCase(t *T) {
	src := newMStore()
	for _, p := range randPairs(t, t.Rng.Intn(15), false) {
		src.Set(p.k, p.v)
	}
	var ps []kvPair
	src.Iterate(func(k, v []byte) bool { ps = append(ps, kvPair{k, v}); return true })
	all, ends := encodePairs(ps)
	f := tempName(t)
	defer os.Remove(f)
	if t.n%2 == 0 {
		t.Check(os.WriteFile(f, randBytes(t.Rng, len(all)+50), 0600) == nil, "harness: file")
	}
	var from trie.KVIterator = src
	inmem := t.n%3 == 0
	if inmem {
		s := trie.NewInMemoryKVStore()
		for _, p := range ps {
			s.Set(p.k, p.v)
		}
		from = s
	}
	n, err := trie.DumpToFile(from, f)
	data, _ := os.ReadFile(f)
	t.Eval(1)
	t.Check(err == nil && n == len(all) && len(data) == len(all), "dump of %d bytes reports %d bytes, %v, file has %d", len(all), n, err, len(data))
	t.Check(trie.ByteSize(from) == n && trie.NumEntries(from) == len(ps), "size of the store: %d bytes, %d entries, dump has %d bytes, %d entries", trie.ByteSize(from), trie.NumEntries(from), n, len(ps))
	if !inmem {
		t.Check(bytes.Equal(data, all), "dump is %x, want %x", data, all)
	}
	restore := func(into map[string][]byte, what string, wantPairs []kvPair, wantErr bool) {
		dst := newMStore()
		want := map[string][]byte{}
		for k, v := range into {
			dst.Set([]byte(k), v)
			want[k] = v
		}
		sz := 0
		for _, p := range wantPairs {
			want[string(p.k)] = p.v
			sz += len(record(p))
		}
		var n int
		var err error
		into2 := &keepWriter{KVWriter: dst}
		t.mustNot(what, func() { n, err = trie.UnDumpFromFile(into2, f) })
		into2.check(t, what)
		t.Eval(1)
		t.Check((err != nil) == wantErr, "%s: restored with error %v", what, err)
		t.Check(n == sz, "%s: %d bytes are reported as restored, want %d", what, n, sz)
		t.Check(sameContent(dst.m, want), "%s: restored store differs: %s", what, diffStores(dst.m, want))
		t.Count("restored dumps", 1)
	}
	fromFile := ps
	if inmem {
		// in the order of the file
		fromFile = nil
		got, err := collect(t, trie.NewBinaryStreamIterator(bytes.NewReader(data)), -1, "dump")
		t.Check(err == nil, "dump is not a stream")
		fromFile = got
		all, ends = encodePairs(got)
	}
	restore(nil, "dump", fromFile, false)
	other := map[string][]byte{"other": {1}}
	if len(ps) > 0 {
		other[string(ps[0].k)] = []byte("older value")
	}
	restore(other, "dump into a store with content", fromFile, false)
	step := 1 + len(all)/60
	for cut := 0; cut < len(all); cut += step {
		t.Check(os.WriteFile(f, all[:cut], 0600) == nil, "harness: file")
		want := fullPairs(ends, cut)
		restore(nil, fmt.Sprintf("dump truncated at byte %d of %d", cut, len(all)), fromFile[:want], ends[want] != cut)
		t.Count("truncated dumps", 1)
	}
	_, err = trie.UnDumpFromFile(newMStore(), f+".missing")
	t.Check(err != nil, "a missing dump is restored")
	_, err = trie.UnDumpFromFile(newMStore(), tmpDir())
	t.Check(err != nil, "a directory is restored as a dump")
	_, err = trie.DumpToFile(src, filepath.Join(f+".nodir", "x"))
	t.Check(err != nil, "dump into a missing directory succeeds")
	if len(ps) > 0 {
		if _, err := os.Stat("/dev/full"); err == nil {
			_, err = trie.DumpToFile(from, "/dev/full")
			t.Check(err != nil, "dump to a full disk is reported as success")
			t.Count("full disks", 1)
		}
	}
	t.Seen("dump", all)
}

func randStreamCase(t *T) {
	maxes := []int{0, 1, 2, 3, 10, 64, 300}
	par := trie.RandStreamParams{Seed: t.Rng.Int63(), NumKVPairs: []int{1, 2, 3, 10, 50, 400}[t.Rng.Intn(6)], MaxKey: maxes[t.Rng.Intn(len(maxes))], MaxValue: maxes[t.Rng.Intn(len(maxes))]}
	if t.n%5 == 0 {
		par.Seed = []int64{0, 1, -1, 1 << 32, math.MinInt64, math.MaxInt64 - 1}[t.Rng.Intn(6)]
	}
	what := fmt.Sprintf("%+v", par)
	full, err := collect(t, trie.NewRandStreamIterator(par), -1, what)
	t.Eval(1)
	t.Check(err == nil && len(full) == par.NumKVPairs, "%s: %d pairs, %v", what, len(full), err)
	for _, p := range full {
		t.Check(len(p.k) <= par.MaxKey && len(p.v) <= par.MaxValue, "%s: key of %d bytes, value of %d bytes", what, len(p.k), len(p.v))
	}
	// reproducible
	again, _ := collect(t, trie.NewRandStreamIterator(par), -1, what)
	t.Check(samePairs(full, again), "%s: the same seed gives another stream", what)
	par2 := par
	par2.Seed++
	other, _ := collect(t, trie.NewRandStreamIterator(par2), -1, what)
	total := 0
	for _, p := range full {
		total += len(p.k) + len(p.v)
	}
	if total > 64 {
		t.Check(!samePairs(full, other), "%s: another seed gives the same stream", what)
	}
	// interrupted: not a pair more, not another one
	it := trie.NewRandStreamIterator(par)
	var got []kvPair
	for len(got) < len(full) {
		stop := 1 + t.Rng.Intn(len(full))
		if t.Rng.Intn(3) == 0 {
			stop = 1
		}
		g, err := collect(t, it, stop, what)
		t.Check(err == nil, "%s: %v", what, err)
		got = append(got, g...)
		t.Check(len(g) > 0, "%s: stream ends after %d of %d pairs", what, len(got), len(full))
		t.Check(len(got) <= len(full), "%s: %d pairs in pieces", what, len(got))
		t.Count("interrupted random streams", 1)
	}
	t.Check(samePairs(got, full), "%s: an interrupted stream gives other pairs", what)
	g, err := collect(t, it, 1, what)
	t.Check(err == nil && len(g) == 0, "%s: more pairs after the end", what)
	// endless
	par.NumKVPairs = 0
	n := 1 + t.Rng.Intn(600)
	g, err = collect(t, trie.NewRandStreamIterator(par), n, what)
	t.Check(err == nil && len(g) == n, "%s: endless stream ends after %d pairs", what, len(g))
	m := minInt(n, len(full))
	t.Check(samePairs(g[:m], full[:m]), "%s: the limit changes the stream", what)
	if t.n%20 == 0 {
		g, err := collect(t, trie.NewRandStreamIterator(), 300, "default")
		t.Check(err == nil && len(g) == 300, "default random stream: %d pairs, %v", len(g), err)
		for _, p := range g {
			t.Check(len(p.k) <= 64 && len(p.v) <= 128, "default random stream: key of %d bytes, value of %d bytes", len(p.k), len(p.v))
		}
	}
	t.Seen("rand", what)
}

// streamTrie: a trie built from a stream is the one of its content
func streamTrie(t *T) {
	cfg := randCfg(t.Rng)
	par := trie.RandStreamParams{Seed: t.Rng.Int63(), NumKVPairs: 1 + t.Rng.Intn(120), MaxKey: 1 + t.Rng.Intn(8), MaxValue: 1 + t.Rng.Intn(50)}
	f := tempName(t)
	defer os.Remove(f)
	w, err := trie.CreateKVStreamFile(f)
	t.Check(err == nil, "file: %v", err)
	err = trie.NewRandStreamIterator(par).Iterate(func(k, v []byte) bool { return w.Write(k, v) == nil })
	t.Check(err == nil && w.Close() == nil, "stream is not written")
	world := newWorld(t, cfg)
	r, err := trie.OpenKVStreamFile(f)
	t.Check(err == nil, "file: %v", err)
	err = r.Iterate(func(k, v []byte) bool { world.exec(Op{Kind: opSet, K: k, V: v}); return true })
	t.Check(err == nil, "stream: %v", err)
	_ = r.Close()
	world.exec(Op{Kind: opPersist})
	world.checkRoot(world.tr, "built from a stream")
	// dump of the trie store is a trie store
	n, err := trie.DumpToFile(world.ts, f)
	t.Check(err == nil && n == trie.ByteSize(world.ts), "dump of the trie: %d bytes, %v", n, err)
	st := newMStore()
	_, err = trie.UnDumpFromFile(st, f)
	t.Check(err == nil && sameContent(st.m, world.ts.m), "restored trie store differs (%v)", err)
	root := rootOf(trie.NewTrieReader(world.model, st, world.valueReader()))
	t.Check(bytes.Equal(root, world.tree.rootBytes()), "root of the restored trie is %x, want %x", root, world.tree.rootBytes())
	t.Eval(3)
	t.Seen("trie", cfg.String(), root)
}

// ---- the bench program

type benchRun struct {
	t   *T
	dir string
	cfg Cfg
	out string
}

// bench runs the program; ok is false when it does not end or can not be started (inconclusive)
// forkLock keeps the forks of this process away from databases which are open in it: until its exec, a child holds a
// copy of the descriptor with the directory lock, so the lock would outlive the database
var forkLock sync.RWMutex

func (b *benchRun) run(args ...string) (string, error, bool) {
	bin := filepath.Join(tmpDir(), "trie_bench")
	if _, err := os.Stat(bin); err != nil {
		b.t.Count("program not built, skipped", 1)
		return "", nil, false
	}
	all := []string{fmt.Sprintf("-blake2b=%d", b.cfg.HS), fmt.Sprintf("-arity=%d", b.cfg.Arity), fmt.Sprintf("-valuethr=%d", b.cfg.Thr)}
	if b.cfg.Opt {
		all = append(all, "-optkey")
	}
	cmd := exec.Command(bin, append(all, args...)...)
	cmd.Dir = b.dir
	var out bytes.Buffer
	cmd.Stdout, cmd.Stderr = &out, &out
	forkLock.RLock()
	err := cmd.Start()
	forkLock.RUnlock()
	if err != nil {
		return "", nil, false
	}
	done := make(chan error, 1)
	go func() { done <- cmd.Wait() }()
	select {
	case err := <-done:
		b.t.Count("program runs", 1)
		return out.String(), err, true
	case <-time.After(200 * time.Second):
		_ = cmd.Process.Kill()
		<-done
		b.t.Count("program did not end, inconclusive", 1)
		return "", nil, false
	}
}

func (b *benchRun) stream() []kvPair {
	f, err := trie.OpenKVStreamFile(filepath.Join(b.dir, "x.bin"))
	b.t.Check(err == nil, "generated file: %v", err)
	defer f.Close()
	var ps []kvPair
	err = f.Iterate(func(k, v []byte) bool {
		ps = append(ps, kvPair{append([]byte{}, k...), append([]byte{}, v...)})
		return true
	})
	b.t.Check(err == nil, "generated file is not a stream: %v", err)
	return ps
}

func number(out, pattern string) int {
	m := regexp.MustCompile(pattern).FindStringSubmatch(out)
	if m == nil {
		return -1
	}
	n, _ := strconv.Atoi(m[1])
	return n
}

func rootLine(out string) string {
	m := regexp.MustCompile(`root commitment: ([0-9a-f]*)`).FindStringSubmatch(out)
	if m == nil {
		return "(none)"
	}
	return m[1]
}

// withDB opens the badger database of a finished run
func (b *benchRun) withDB(suffix string, f func(kvs kvstore.KVStore)) {
	dir := filepath.Join(b.dir, fmt.Sprintf("x.%d.%d.%d.dbdir%s", b.cfg.HS, b.cfg.Arity, b.cfg.Thr, suffix))
	_, err := os.Stat(dir)
	b.t.Check(err == nil, "database directory: %v", err)
	forkLock.Lock()
	defer forkLock.Unlock()
	db, err := badger.CreateDB(dir)
	b.t.Check(err == nil, "database is not opened: %v", err)
	defer db.Close()
	f(badger.New(db))
}

func newBench(t *T, cfg Cfg) *benchRun {
	dir, err := os.MkdirTemp(tmpDir(), "bench")
	if err != nil {
		t.Fail("harness: %v", err)
	}
	return &benchRun{t: t, dir: dir, cfg: cfg}
}

func contentOfPairs(ps []kvPair) map[string][]byte {
	m := map[string][]byte{}
	for _, p := range ps {
		if len(p.v) == 0 {
			delete(m, string(p.k))
		} else {
			m[string(p.k)] = p.v
		}
	}
	return m
}

func benchCase(t *T) {
	cfg := allCfgs()[t.n%6]
	cfg.Thr = []int{0, 0, 20}[t.Rng.Intn(3)]
	cfg.Opt = t.Rng.Intn(2) == 0
	b := newBench(t, cfg)
	defer os.RemoveAll(b.dir)
	n := 40 + t.Rng.Intn(400)
	maxKey, maxVal := []int{2, 3, 40, 100}[t.Rng.Intn(4)], []int{2, 32, 60}[t.Rng.Intn(3)]
	hash := t.n%4 == 3
	args := []string{fmt.Sprintf("-n=%d", n), fmt.Sprintf("-maxkey=%d", maxKey), fmt.Sprintf("-maxvalue=%d", maxVal)}
	if hash {
		args = append(args, "-hashkv")
	}
	what := fmt.Sprintf("%s n=%d maxkey=%d maxvalue=%d hashkv=%v", cfg, n, maxKey, maxVal, hash)
	out, err, ok := b.run(append(args, "gen", "x")...)
	if !ok {
		return
	}
	t.Check(err == nil, "%s: gen: %v: %s", what, err, out)
	ps := b.stream()
	t.Eval(1)
	t.Check(len(ps) == n, "%s: %d pairs are generated", what, len(ps))
	for _, p := range ps {
		if hash {
			t.Check(len(p.k) == 32 && (len(p.v) == 32 || len(p.v) == 0), "%s: pair of %d, %d bytes", what, len(p.k), len(p.v))
		} else {
			t.Check(len(p.k) <= maxKey && len(p.v) <= maxVal, "%s: pair of %d, %d bytes", what, len(p.k), len(p.v))
		}
	}
	content := contentOfPairs(ps)
	tree := buildTree(content, cfg)
	want := fmt.Sprintf("%x", tree.rootBytes())
	rootFromValue := cfg.Thr > 0 && tree.nodes != nil && tree.byKey[""] != nil && tree.byKey[""].Data != nil
	if !rootFromValue { // otherwise: listed finding
		out, err, ok = b.run("mkdbmem", "x")
		if !ok {
			return
		}
		t.Check(err == nil, "%s: mkdbmem: %v: %s", what, err, out)
		t.Check(rootLine(out) == want, "%s: mkdbmem: root %s, want %s: %s", what, rootLine(out), want, out)
		out, err, ok = b.run("mkdbbadger", "x")
		if !ok {
			return
		}
		t.Check(err == nil, "%s: mkdbbadger: %v: %s", what, err, out)
		t.Check(rootLine(out) == want, "%s: mkdbbadger: root %s, want %s: %s", what, rootLine(out), want, out)
		b.withDB("", func(kvs kvstore.KVStore) {
			got := map[string][]byte{}
			hive_adaptor.NewHiveKVStoreAdaptor(kvs, []byte{1}).Iterate(func(k, v []byte) bool { got[string(k)] = append([]byte{}, v...); return true })
			t.Check(sameContent(got, tree.storeOf()), "%s: trie in the database differs: %s", what, diffStores(got, tree.storeOf()))
			got = map[string][]byte{}
			hive_adaptor.NewHiveKVStoreAdaptor(kvs, []byte{2}).Iterate(func(k, v []byte) bool { got[string(k)] = append([]byte{}, v...); return true })
			t.Check(sameContent(got, content), "%s: values in the database differ: %s", what, diffStores(got, content))
		})
		out, err, ok = b.run("scandbbadger", "x")
		if !ok {
			return
		}
		same := false // listed finding
		for k, v := range content {
			same = same || cfg.Opt && k == string(v)
		}
		t.Check(err == nil || same, "%s: scandbbadger: %v: %s", what, err, out)
		t.Check(rootLine(out) == want, "%s: scandbbadger: root %s, want %s: %v: %s", what, rootLine(out), want, err, out)
		t.Check(number(out, `K/V STORAGE: number of key/value pairs: (\d+)`) == len(content), "%s: scandbbadger: %s, want %d pairs", what, out, len(content))
		t.Check(number(out, `TRIE: number of nodes: (\d+)`) == len(tree.nodes), "%s: scandbbadger: %s, want %d nodes", what, out, len(tree.nodes))
		// a database is not overwritten
		_, err, ok = b.run("mkdbbadger", "x")
		t.Check(!ok || err != nil, "%s: mkdbbadger overwrites a database", what)
	}
	// a damaged file is reported
	data, _ := os.ReadFile(filepath.Join(b.dir, "x.bin"))
	if err := os.WriteFile(filepath.Join(b.dir, "x.bin"), data[:len(data)-1], 0600); err == nil && !rootFromValue {
		out, err, ok := b.run("mkdbmem", "x")
		t.Check(!ok || err != nil && strings.Contains(out, "error"), "%s: mkdbmem of a truncated file succeeds: %s", what, out)
	}
	t.Eval(8)
	t.Seen("bench", what, want)
	t.Sample("bench %s: root %s", what, want)
}

func runC12(c *Ctx) {
	c.Cases("streams", 1500*c.scale, streamCase)
	c.Cases("files", 1200*c.scale, fileCase)
	c.Cases("dumps", 1200*c.scale, dumpCase)
	c.Cases("large-records", 150*c.scale, largeCase)
	c.Cases("random-streams", 1500*c.scale, randStreamCase)
	c.Cases("stream-tries", 800*c.scale, streamTrie)
	c.Cases("bench", 12*min(c.scale, 5), benchCase)
	c.Witness("bench-notrie-last-batch", func(t *T) {
		b := newBench(t, Cfg{Arity: 16, HS: 20})
		defer os.RemoveAll(b.dir)
		if _, err, ok := b.run("-n=50", "gen", "x"); !ok || err != nil {
			return
		}
		content := map[string][]byte{}
		for _, p := range b.stream() {
			content[string(p.k)] = p.v
		}
		out, err, ok := b.run("mkdbbadgernotrie", "x")
		if !ok {
			return
		}
		t.Check(err == nil, "mkdbbadgernotrie: %v: %s", err, out)
		b.withDB(".notrie", func(kvs kvstore.KVStore) {
			got := map[string][]byte{}
			_ = kvs.Iterate(nil, func(k, v []byte) bool { got[string(k)] = append([]byte{}, v...); return true })
			t.Check(sameContent(got, content), "database of mkdbbadgernotrie has %d of %d pairs", len(got), len(content))
		})
	})
	c.Witness("bench-root-terminal", func(t *T) {
		b := newBench(t, Cfg{Arity: 16, HS: 20, Thr: 40})
		defer os.RemoveAll(b.dir)
		if _, err, ok := b.run("-n=1", "gen", "x"); !ok || err != nil {
			return
		}
		if out, err, ok := b.run("mkdbmem", "x"); ok {
			t.Check(err == nil, "mkdbmem with -valuethr and a terminal at the root: %v: %s", err, hx([]byte(out)))
		}
	})
	c.Witness("bench-short-batch", func(t *T) {
		b := newBench(t, Cfg{Arity: 16, HS: 20})
		defer os.RemoveAll(b.dir)
		t.Check(os.WriteFile(filepath.Join(b.dir, "x.bin"), bytes.Repeat(record(kvPair{[]byte("a"), []byte("b")}), 100_000), 0600) == nil, "harness: file")
		if out, err, ok := b.run("mkdbmem", "x"); ok {
			t.Check(err == nil, "mkdbmem of one batch: %v: %s", err, hx([]byte(out)))
		}
	})
	c.Witness("bench-scan-optkey", func(t *T) {
		b := newBench(t, Cfg{Arity: 16, HS: 32, Opt: true})
		defer os.RemoveAll(b.dir)
		t.Check(os.WriteFile(filepath.Join(b.dir, "x.bin"), record(kvPair{[]byte("a"), []byte("a")}), 0600) == nil, "harness: file")
		if out, err, ok := b.run("mkdbbadger", "x"); !ok || err != nil {
			return
		} else if scan, err, ok := b.run("scandbbadger", "x"); ok {
			t.Check(err == nil, "scandbbadger of a database with a key equal to its value: %v: %s %s", err, out, scan)
		}
	})
	c.Witness("bench-counts", func(t *T) {
		b := newBench(t, Cfg{Arity: 16, HS: 20})
		defer os.RemoveAll(b.dir)
		out, err, ok := b.run("-n=30", "gen", "x")
		if !ok || err != nil {
			return
		}
		t.Check(number(out, `generated total (\d+)`) == 30, "gen of 30 pairs: %s", out)
		if out, err, ok = b.run("mkdbmem", "x"); ok && err == nil {
			t.Check(number(out, `commited (\d+) records`) == 30, "mkdbmem of 30 pairs: %s", out)
		}
	})
}
