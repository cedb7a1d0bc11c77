From 08594def44cf49df5366d079c571c9ef61fa3bda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:47:25 +0000
Subject: [PATCH 01/38] fix: Reconcile panics with index out of range when the
 trie is empty

---
 trie/trie.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/trie/trie.go b/trie/trie.go
index 9bafa7f..693faa0 100644
--- a/trie/trie.go
+++ b/trie/trie.go
@@ -436,7 +436,7 @@ func (tr *Trie) Reconcile(store KVIterator) [][]byte {
 	ret := make([][]byte, 0)
 	store.Iterate(func(k, v []byte) bool {
 		p, _, ending := proofPath(tr, UnpackBytes(k, tr.PathArity()))
-		if ending == EndingTerminal {
+		if len(p) > 0 && ending == EndingTerminal {
 			lastKey := p[len(p)-1]
 			n, ok := tr.GetNode(lastKey)
 			if !ok {
-- 
2.43.0


From 5e6bba83074a546ff338e5d4c77845f3955fb0e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:50:16 +0000
Subject: [PATCH 02/38] fix: key commitment at the root node is stored by value
 and reloads as a different commitment

---
 trie/node.go     | 4 ++--
 trie/nodedata.go | 7 ++++---
 2 files changed, 6 insertions(+), 5 deletions(-)

diff --git a/trie/node.go b/trie/node.go
index e9aa780..09b1738 100644
--- a/trie/node.go
+++ b/trie/node.go
@@ -144,8 +144,8 @@ func (n *bufferedNode) Bytes(model CommitmentModel, arity PathArity, optimizeKey
 	// Optimization: if terminal commits to unpackedKey, no need to serialize it,
 	// because all information is in the key
 	isKeyCommitment := false
-	if optimizeKeyCommitments && len(n.unpackedKey) > 0 {
-		keyCommitment := model.CommitToData(Concat(n.unpackedKey, n.n.PathFragment))
+	if fullKey := Concat(n.unpackedKey, n.n.PathFragment); optimizeKeyCommitments && len(fullKey) > 0 {
+		keyCommitment := model.CommitToData(fullKey)
 		isKeyCommitment = model.EqualCommitments(n.n.Terminal, keyCommitment)
 	}
 	var buf bytes.Buffer
diff --git a/trie/nodedata.go b/trie/nodedata.go
index fc0bc29..77942ca 100644
--- a/trie/nodedata.go
+++ b/trie/nodedata.go
@@ -215,10 +215,11 @@ func (n *NodeData) Read(r io.Reader, model CommitmentModel, unpackedKey []byte,
 		// terminal exists. Should be taken from 1 or 3 locations
 		if smallFlags&takeTerminalFromKeyFlag != 0 {
 			// terminal is in key
-			if len(unpackedKey) == 0 {
-				return xerrors.New("non-empty unpackedKey expected")
+			fullKey := Concat(unpackedKey, n.PathFragment)
+			if len(fullKey) == 0 {
+				return xerrors.New("non-empty key expected")
 			}
-			n.Terminal = model.CommitToData(Concat(unpackedKey, n.PathFragment))
+			n.Terminal = model.CommitToData(fullKey)
 		} else if smallFlags&takeTerminalFromValueFlag != 0 {
 			// terminal should be taken from the value store
 			if valueStore == nil {
-- 
2.43.0


From e799ba9a65c61deaa1e10e00a5e73da88c79f1f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:50:44 +0000
Subject: [PATCH 03/38] fix: KZG ProofOfInclusion panics for an absent key
 which ends at a branching node

---
 models/trie_kzg_bn256/proof.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/models/trie_kzg_bn256/proof.go b/models/trie_kzg_bn256/proof.go
index 33b3e9c..2ce026c 100644
--- a/models/trie_kzg_bn256/proof.go
+++ b/models/trie_kzg_bn256/proof.go
@@ -88,6 +88,11 @@ func (m *CommitmentModel) ProofOfInclusion(key []byte, tr trie.NodeStore) (*Proo
 		}
 	}
 
+	if nodes[proofLength-1].Terminal == nil {
+		// the path ends at the branching node without terminal: key is not present in the state
+		return nil, false
+	}
+
 	for i, n := range nodes {
 		ret.Path[i].C = m.calcNodeCommitment(n).Point
 		//if i == 0 || i == proofLength-1 {
-- 
2.43.0


From 8dc4296bf549fc26047d6b447493609a01251057 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:56:40 +0000
Subject: [PATCH 04/38] fix: serialization of the proof writes wrapped-around
 children at arity 256

---
 models/trie_blake2b/proof.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/models/trie_blake2b/proof.go b/models/trie_blake2b/proof.go
index 81785c6..f31f2f5 100644
--- a/models/trie_blake2b/proof.go
+++ b/models/trie_blake2b/proof.go
@@ -201,7 +201,7 @@ func (e *ProofElement) Write(w io.Writer, arity trie.PathArity, sz HashSize) err
 		if _, err = w.Write(flags[:]); err != nil {
 			return err
 		}
-		for i := 0; i < arity.VectorLength(); i++ {
+		for i := 0; i < arity.NumChildren(); i++ {
 			child, ok := e.Children[uint8(i)]
 			if !ok {
 				continue
-- 
2.43.0


From c13138722e74a76fcc1e2ac87fa9ece69f98db3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:57:01 +0000
Subject: [PATCH 05/38] fix: decoding of path accepts nothing but panics when
 there is less data than padding

---
 trie/encode.go | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/trie/encode.go b/trie/encode.go
index 8712103..75f60fe 100644
--- a/trie/encode.go
+++ b/trie/encode.go
@@ -52,7 +52,7 @@ func decode16(data []byte) ([]byte, error) {
 	}
 	ret := make([]byte, 0, len(data)*2)
 	ret = unpack16(ret, data[1:])
-	if data[0] == 1 && ret[len(ret)-1] != 0 {
+	if data[0] == 1 && (len(ret) == 0 || ret[len(ret)-1] != 0) {
 		// enforce padding with 0
 		return nil, ErrWrongFormat
 	}
@@ -117,8 +117,9 @@ func decode2(data []byte) ([]byte, error) {
 	}
 	ret := make([]byte, 0, len(data)*8)
 	ret = unpack2(ret, data[1:])
-	Assert(len(ret) >= int(data[0]), "trie::decode2:: assert failed: len(ret) >= int(data[0]), data: %s",
-		hex.EncodeToString(data))
+	if len(ret) < int(data[0]) {
+		return nil, ErrWrongFormat
+	}
 	// enforce the last data[0] elements are 0
 	for j := len(ret) - int(data[0]); j < len(ret); j++ {
 		if ret[j] != 0 {
-- 
2.43.0


From 196526b3ed93eace12b9fcd3182147af24ff6bf4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:57:53 +0000
Subject: [PATCH 06/38] fix: readers take partially delivered or truncated data
 for complete data

---
 models/trie_blake2b/model.go     |  9 ++-------
 models/trie_blake2b/proof.go     |  4 ++--
 models/trie_kzg_bn256/trusted.go |  2 +-
 trie/nodedata.go                 |  8 ++------
 trie/util.go                     | 25 ++++++++++++++++---------
 5 files changed, 23 insertions(+), 25 deletions(-)

diff --git a/models/trie_blake2b/model.go b/models/trie_blake2b/model.go
index 0193fb1..2feec20 100644
--- a/models/trie_blake2b/model.go
+++ b/models/trie_blake2b/model.go
@@ -4,7 +4,6 @@ package trie_blake2b
 import (
 	"bytes"
 	"encoding/hex"
-	"errors"
 	"fmt"
 	"io"
 
@@ -238,7 +237,7 @@ func (v vectorCommitment) Bytes() []byte {
 }
 
 func (v vectorCommitment) Read(r io.Reader) error {
-	_, err := r.Read(v)
+	_, err := io.ReadFull(r, v)
 	return err
 }
 
@@ -312,13 +311,9 @@ func (t *terminalCommitment) Read(r io.Reader) error {
 	if l > 0 {
 		t.bytes = make([]byte, l)
 
-		n, err := r.Read(t.bytes)
-		if err != nil {
+		if _, err = io.ReadFull(r, t.bytes); err != nil {
 			return err
 		}
-		if n != int(l) {
-			return errors.New("bad data length")
-		}
 	}
 	return nil
 }
diff --git a/models/trie_blake2b/proof.go b/models/trie_blake2b/proof.go
index f31f2f5..eaa6c12 100644
--- a/models/trie_blake2b/proof.go
+++ b/models/trie_blake2b/proof.go
@@ -245,14 +245,14 @@ func (e *ProofElement) Read(r io.Reader, arity trie.PathArity, sz HashSize) erro
 	e.Children = make(map[byte][]byte)
 	if smallFlags&hasChildrenFlag != 0 {
 		var flags [32]byte
-		if _, err = r.Read(flags[:]); err != nil {
+		if _, err = io.ReadFull(r, flags[:]); err != nil {
 			return err
 		}
 		for i := 0; i < arity.NumChildren(); i++ {
 			ib := uint8(i)
 			if flags[i/8]&(0x1<<(i%8)) != 0 {
 				e.Children[ib] = make([]byte, sz)
-				if _, err = r.Read(e.Children[ib]); err != nil {
+				if _, err = io.ReadFull(r, e.Children[ib]); err != nil {
 					return err
 				}
 			}
diff --git a/models/trie_kzg_bn256/trusted.go b/models/trie_kzg_bn256/trusted.go
index 9f6d77b..8de993f 100644
--- a/models/trie_kzg_bn256/trusted.go
+++ b/models/trie_kzg_bn256/trusted.go
@@ -275,7 +275,7 @@ func (sd *TrustedSetup) write(w io.Writer) error {
 // read unmarshal
 func (sd *TrustedSetup) read(r io.Reader) error {
 	var tmp2 [2]byte
-	if _, err := r.Read(tmp2[:]); err != nil {
+	if _, err := io.ReadFull(r, tmp2[:]); err != nil {
 		return err
 	}
 
diff --git a/trie/nodedata.go b/trie/nodedata.go
index 77942ca..e2e378c 100644
--- a/trie/nodedata.go
+++ b/trie/nodedata.go
@@ -106,12 +106,8 @@ func newCflags(arity PathArity) cflags {
 
 func readCflags(r io.Reader, arity PathArity) (cflags, error) {
 	ret := newCflags(arity)
-	n, err := r.Read(ret)
-	if err != nil {
-		return nil, err
-	}
-	if n != cflagsSize(arity) {
-		return nil, fmt.Errorf("expected %d bytes, got %d", cflagsSize(arity), n)
+	if _, err := io.ReadFull(r, ret); err != nil {
+		return nil, fmt.Errorf("expected %d bytes: %w", cflagsSize(arity), err)
 	}
 	return ret, nil
 }
diff --git a/trie/util.go b/trie/util.go
index 2eb9133..59c483f 100644
--- a/trie/util.go
+++ b/trie/util.go
@@ -192,6 +192,16 @@ func readKV(r io.Reader) ([]byte, []byte, bool) {
 // r/w utility functions
 // TODO rewrite with generics when switch to Go 1.18
 
+// readFull reads exactly len(data) bytes of the data which are expected in the reader.
+// The end of the reader in this place is always unexpected
+func readFull(r io.Reader, data []byte) error {
+	_, err := io.ReadFull(r, data)
+	if errors.Is(err, io.EOF) {
+		return io.ErrUnexpectedEOF
+	}
+	return err
+}
+
 func ReadBytes8(r io.Reader) ([]byte, error) {
 	length, err := ReadByte(r)
 	if err != nil {
@@ -201,8 +211,7 @@ func ReadBytes8(r io.Reader) ([]byte, error) {
 		return []byte{}, nil
 	}
 	ret := make([]byte, length)
-	_, err = r.Read(ret)
-	if err != nil {
+	if err = readFull(r, ret); err != nil {
 		return nil, err
 	}
 	return ret, nil
@@ -232,8 +241,7 @@ func ReadBytes16(r io.Reader) ([]byte, error) {
 		return []byte{}, nil
 	}
 	ret := make([]byte, length)
-	_, err = r.Read(ret)
-	if err != nil {
+	if err = readFull(r, ret); err != nil {
 		return nil, err
 	}
 	return ret, nil
@@ -255,7 +263,7 @@ func WriteBytes16(w io.Writer, data []byte) error {
 
 func ReadUint16(r io.Reader, pval *uint16) error {
 	var tmp2 [2]byte
-	_, err := r.Read(tmp2[:])
+	_, err := io.ReadFull(r, tmp2[:])
 	if err != nil {
 		return err
 	}
@@ -283,7 +291,7 @@ func Uint16From2Bytes(b []byte) (uint16, error) {
 
 func ReadByte(r io.Reader) (byte, error) {
 	var b [1]byte
-	_, err := r.Read(b[:])
+	_, err := io.ReadFull(r, b[:])
 	if err != nil {
 		return 0, err
 	}
@@ -306,8 +314,7 @@ func ReadBytes32(r io.Reader) ([]byte, error) {
 		return []byte{}, nil
 	}
 	ret := make([]byte, length)
-	_, err = r.Read(ret)
-	if err != nil {
+	if err = readFull(r, ret); err != nil {
 		return nil, err
 	}
 	return ret, nil
@@ -348,7 +355,7 @@ func MustUint32From4Bytes(b []byte) uint32 {
 
 func ReadUint32(r io.Reader, pval *uint32) error {
 	var tmp4 [4]byte
-	_, err := r.Read(tmp4[:])
+	_, err := io.ReadFull(r, tmp4[:])
 	if err != nil {
 		return err
 	}
-- 
2.43.0


From adc72abed5855148721d10094cdae31161fdfdc6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:57:54 +0000
Subject: [PATCH 07/38] fix: ReadBytes32 allocates up to 4 GB on the word of a
 truncated input

---
 trie/util.go | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/trie/util.go b/trie/util.go
index 59c483f..24a6b6a 100644
--- a/trie/util.go
+++ b/trie/util.go
@@ -310,13 +310,14 @@ func ReadBytes32(r io.Reader) ([]byte, error) {
 	if err != nil {
 		return nil, err
 	}
-	if length == 0 {
-		return []byte{}, nil
-	}
-	ret := make([]byte, length)
-	if err = readFull(r, ret); err != nil {
+	// the length is not trusted until the data is there: do not allocate it upfront
+	ret, err := io.ReadAll(io.LimitReader(r, int64(length)))
+	if err != nil {
 		return nil, err
 	}
+	if len(ret) != int(length) {
+		return nil, io.ErrUnexpectedEOF
+	}
 	return ret, nil
 }
 
-- 
2.43.0


From a09b046de734a29f913abe314d01047f41e3efd0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:57:56 +0000
Subject: [PATCH 08/38] fix: WriteBytes8 accepts 256 bytes and writes length 0

---
 trie/util.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/trie/util.go b/trie/util.go
index 24a6b6a..ff3d0c5 100644
--- a/trie/util.go
+++ b/trie/util.go
@@ -218,7 +218,7 @@ func ReadBytes8(r io.Reader) ([]byte, error) {
 }
 
 func WriteBytes8(w io.Writer, data []byte) error {
-	if len(data) > 256 {
+	if len(data) > math.MaxUint8 {
 		panic(fmt.Sprintf("WriteBytes8: too long data (%v)", len(data)))
 	}
 	err := WriteByte(w, byte(len(data)))
-- 
2.43.0


From 3bab0288f80ba4daea38add70696a50a26ed39fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:57:57 +0000
Subject: [PATCH 09/38] fix: error of the database is reported as absence of
 the key by Has

---
 hive_adaptor/hiveadaptor.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/hive_adaptor/hiveadaptor.go b/hive_adaptor/hiveadaptor.go
index 06e621d..99a6bfb 100644
--- a/hive_adaptor/hiveadaptor.go
+++ b/hive_adaptor/hiveadaptor.go
@@ -46,11 +46,11 @@ func (kvs *HiveKVStoreAdaptor) Get(key []byte) []byte {
 
 func (kvs *HiveKVStoreAdaptor) Has(key []byte) bool {
 	v, err := kvs.kvs.Get(makeKey(kvs.prefix, key))
-	if errors.Is(err, kvstore.ErrKeyNotFound) || len(v) == 0 {
+	if errors.Is(err, kvstore.ErrKeyNotFound) {
 		return false
 	}
 	mustNoErr(err)
-	return true
+	return len(v) != 0
 }
 
 func (kvs *HiveKVStoreAdaptor) Set(key, value []byte) {
-- 
2.43.0


From e41372c4404161be8f15dbc869b7f10b9bf3d23a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:57:59 +0000
Subject: [PATCH 10/38] fix: UnDumpFromFile panics on a truncated file and
 ignores read errors

---
 trie/util.go | 24 +++++++++++++++---------
 1 file changed, 15 insertions(+), 9 deletions(-)

diff --git a/trie/util.go b/trie/util.go
index ff3d0c5..77e72c4 100644
--- a/trie/util.go
+++ b/trie/util.go
@@ -151,13 +151,15 @@ func UnDumpFromFile(w KVWriter, fname string) (int, error) {
 	}
 	defer func() { _ = file.Close() }()
 
-	var k, v []byte
-	var exit bool
 	n := 0
 	for {
-		if k, v, exit = readKV(file); exit {
+		k, v, err := readKV(file)
+		if errors.Is(err, io.EOF) {
 			break
 		}
+		if err != nil {
+			return n, err
+		}
 		n += len(k) + len(v) + 6
 		w.Set(k, v)
 	}
@@ -175,17 +177,21 @@ func writeKV(w io.Writer, k, v []byte) (int, error) {
 	return len(k) + len(v) + 6, nil
 }
 
-// readKV deserializes key/value pair from io.Reader. Returns key/value pair and an error flag if not enough data
-func readKV(r io.Reader) ([]byte, []byte, bool) {
+// readKV deserializes key/value pair from io.Reader. Returns key/value pair.
+// The error is io.EOF only at the end of data, i.e. if there is not a single byte of the next pair
+func readKV(r io.Reader) ([]byte, []byte, error) {
 	k, err := ReadBytes16(r)
-	if errors.Is(err, io.EOF) {
-		return nil, nil, true
+	if err != nil {
+		return nil, nil, err
 	}
 	v, err := ReadBytes32(r)
+	if errors.Is(err, io.EOF) {
+		err = io.ErrUnexpectedEOF
+	}
 	if err != nil {
-		panic(err)
+		return nil, nil, err
 	}
-	return k, v, false
+	return k, v, nil
 }
 
 // ---------------------------------------------------------------------------
-- 
2.43.0


From b84be9f02f5688828ddb6a319bd013fff72ca3e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:58:00 +0000
Subject: [PATCH 11/38] fix: ToString panics for a node without terminal

---
 trie/node.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/trie/node.go b/trie/node.go
index 09b1738..3b923c8 100644
--- a/trie/node.go
+++ b/trie/node.go
@@ -160,10 +160,14 @@ func childKey(n Node, childIndex byte) []byte {
 }
 
 func ToString(n Node) string {
+	t := "<nil>"
+	if n.Terminal() != nil {
+		t = n.Terminal().String()
+	}
 	return fmt.Sprintf("nodeData(key: '%s', pathFragment: '%s', term: '%s', numChildren: %d",
 		hex.EncodeToString(n.Key()),
 		hex.EncodeToString(n.PathFragment()),
-		n.Terminal().String(),
+		t,
 		len(n.ChildCommitments()),
 	)
 }
-- 
2.43.0


From fe2ae4c48c93b25d39bf8c7de0ca2c472a162e56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:58:02 +0000
Subject: [PATCH 12/38] fix: Reconcile reports key commitments as mismatches at
 arity 2 and 16

---
 trie/trie.go | 17 ++++++++++-------
 1 file changed, 10 insertions(+), 7 deletions(-)

diff --git a/trie/trie.go b/trie/trie.go
index 693faa0..3649d9a 100644
--- a/trie/trie.go
+++ b/trie/trie.go
@@ -156,14 +156,17 @@ func (tr *Trie) commitNode(key []byte, update *VCommitment) {
 	n.pathChanged = false
 }
 
-// Update updates Trie with the unpackedKey/value. Reorganizes and re-calculates trie, keeps cache consistent
-func (tr *Trie) Update(key []byte, value []byte) {
-	var c TCommitment
+// commitToValue returns terminal commitment to the value of the key. Returns nil if value is empty
+func (tr *Trie) commitToValue(key, value []byte) TCommitment {
 	if tr.nodeStore.optimizeKeyCommitments && bytes.Equal(key, value) {
-		c = tr.nodeStore.reader.m.CommitToData(UnpackBytes(value, tr.nodeStore.arity))
-	} else {
-		c = tr.nodeStore.reader.m.CommitToData(value)
+		return tr.nodeStore.reader.m.CommitToData(UnpackBytes(value, tr.nodeStore.arity))
 	}
+	return tr.nodeStore.reader.m.CommitToData(value)
+}
+
+// Update updates Trie with the unpackedKey/value. Reorganizes and re-calculates trie, keeps cache consistent
+func (tr *Trie) Update(key []byte, value []byte) {
+	c := tr.commitToValue(key, value)
 	if c == nil {
 		// nil value means deletion
 		tr.Delete(key)
@@ -442,7 +445,7 @@ func (tr *Trie) Reconcile(store KVIterator) [][]byte {
 			if !ok {
 				ret = append(ret, k)
 			} else {
-				if !tr.Model().EqualCommitments(tr.nodeStore.reader.m.CommitToData(v), n.Terminal()) {
+				if !tr.Model().EqualCommitments(tr.commitToValue(k, v), n.Terminal()) {
 					ret = append(ret, k)
 				}
 			}
-- 
2.43.0


From 70c9305d3ef493002ca778fe8cfe6ef65dc8e9a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:01:21 +0000
Subject: [PATCH 13/38] fix: trie and proofs keep the key buffer of the caller,
 overwriting it corrupts the trie

---
 models/trie_kzg_bn256/proof.go | 2 +-
 trie/encode.go                 | 3 ++-
 trie/node.go                   | 2 +-
 trie/nodestore.go              | 2 +-
 4 files changed, 5 insertions(+), 4 deletions(-)

diff --git a/models/trie_kzg_bn256/proof.go b/models/trie_kzg_bn256/proof.go
index 2ce026c..577acbd 100644
--- a/models/trie_kzg_bn256/proof.go
+++ b/models/trie_kzg_bn256/proof.go
@@ -55,7 +55,7 @@ func ProofOfInclusionFromBytes(data []byte) (*ProofOfInclusion, error) {
 func (m *CommitmentModel) ProofOfInclusion(key []byte, tr trie.NodeStore) (*ProofOfInclusion, bool) {
 	trie.Assert(tr.PathArity() == trie.PathArity256, "for KZG commitment model only 256-ary trie is supported")
 
-	proofGeneric := trie.GetProofGeneric(tr, key)
+	proofGeneric := trie.GetProofGeneric(tr, trie.UnpackBytes(key, tr.PathArity()))
 	if proofGeneric == nil || len(proofGeneric.Path) == 0 || proofGeneric.Ending != trie.EndingTerminal {
 		// key is not present in the state
 		return nil, false
diff --git a/trie/encode.go b/trie/encode.go
index 75f60fe..604e382 100644
--- a/trie/encode.go
+++ b/trie/encode.go
@@ -130,10 +130,11 @@ func decode2(data []byte) ([]byte, error) {
 	return ret, nil
 }
 
+// UnpackBytes returns sequence of path elements in a new slice, independent of src
 func UnpackBytes(src []byte, arity PathArity) []byte {
 	switch arity {
 	case PathArity256:
-		return src
+		return append(make([]byte, 0, len(src)), src...)
 	case PathArity16:
 		return unpack16(make([]byte, 0, 2*len(src)), src)
 	case PathArity2:
diff --git a/trie/node.go b/trie/node.go
index 3b923c8..7ff1c0d 100644
--- a/trie/node.go
+++ b/trie/node.go
@@ -57,7 +57,7 @@ func nodeReadOnlyFromBytes(model CommitmentModel, data, unpackedKey []byte, arit
 	}
 	return &nodeReadOnly{
 		n:   *ret,
-		key: unpackedKey,
+		key: append([]byte(nil), unpackedKey...), // the key belongs to the caller
 	}, nil
 }
 
diff --git a/trie/nodestore.go b/trie/nodestore.go
index d638504..f0ef9e8 100644
--- a/trie/nodestore.go
+++ b/trie/nodestore.go
@@ -92,7 +92,7 @@ func (sc *nodeStoreBuffered) getNode(unpackedKey []byte) (*bufferedNode, bool) {
 	if !ok {
 		return nil, false
 	}
-	ret = newBufferedNode(unpackedKey)
+	ret = newBufferedNode(n.key)
 	ret.n = n.n
 	ret.newTerminal = n.n.Terminal
 	sc.nodeCache[string(unpackedKey)] = ret
-- 
2.43.0


From 08cd62514d6b1ff2aa1a70d3cb28901fadb5a045 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:01:23 +0000
Subject: [PATCH 14/38] fix: batched updater keeps the value buffer of the
 caller until the commit

---
 hive_adaptor/hiveadaptor.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/hive_adaptor/hiveadaptor.go b/hive_adaptor/hiveadaptor.go
index 99a6bfb..3b31cd2 100644
--- a/hive_adaptor/hiveadaptor.go
+++ b/hive_adaptor/hiveadaptor.go
@@ -107,7 +107,8 @@ func (a *HiveBatchedUpdater) Update(key []byte, value []byte) {
 		a.wTrie = newBatchWriter(a.batch, a.triePrefix)
 		a.wValue = newBatchWriter(a.batch, a.valueStorePrefix)
 	}
-	a.wValue.Set(key, value)
+	// the batch may keep the slices until it is committed, they must not be the ones of the caller
+	a.wValue.Set(append([]byte(nil), key...), append([]byte(nil), value...))
 	a.trie.Update(key, value)
 }
 
-- 
2.43.0


From 3a3166be8a48a22f1d55b958b63705bbc4499155 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:01:25 +0000
Subject: [PATCH 15/38] fix: in-memory key/value store keeps the value buffer
 of the caller

---
 trie/kv.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/trie/kv.go b/trie/kv.go
index 1097e73..9f7bee3 100644
--- a/trie/kv.go
+++ b/trie/kv.go
@@ -74,7 +74,7 @@ func (im inMemoryKVStore) Iterate(f func(k []byte, v []byte) bool) {
 
 func (im inMemoryKVStore) Set(k, v []byte) {
 	if len(v) != 0 {
-		im[string(k)] = v
+		im[string(k)] = append([]byte(nil), v...)
 	} else {
 		delete(im, string(k))
 	}
-- 
2.43.0


From e8ab6be0b77a992fbcb100107463950ee2f1c348 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:02:30 +0000
Subject: [PATCH 16/38] fix: proof with invalid path arity is accepted by the
 parser and crashes validation

---
 models/trie_blake2b/proof.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/models/trie_blake2b/proof.go b/models/trie_blake2b/proof.go
index eaa6c12..1e03c3b 100644
--- a/models/trie_blake2b/proof.go
+++ b/models/trie_blake2b/proof.go
@@ -130,6 +130,11 @@ func (p *Proof) Read(r io.Reader) error {
 		return err
 	}
 	p.PathArity = trie.PathArity(b)
+	switch p.PathArity {
+	case trie.PathArity256, trie.PathArity16, trie.PathArity2:
+	default:
+		return trie.ErrWrongArity
+	}
 
 	b, err = trie.ReadByte(r)
 	if err != nil {
-- 
2.43.0


From 47fef2c95b66f67516f0e76c4e9ab0e7f5c5c1ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:02:32 +0000
Subject: [PATCH 17/38] fix: validation of a malformed blake2b proof panics

---
 .../trie_blake2b_verify/verify.go             | 34 +++++++++++++++++++
 trie/model.go                                 |  2 +-
 2 files changed, 35 insertions(+), 1 deletion(-)

diff --git a/models/trie_blake2b/trie_blake2b_verify/verify.go b/models/trie_blake2b/trie_blake2b_verify/verify.go
index 47e1b32..2c57a92 100644
--- a/models/trie_blake2b/trie_blake2b_verify/verify.go
+++ b/models/trie_blake2b/trie_blake2b_verify/verify.go
@@ -51,6 +51,9 @@ func Validate(p *trie_blake2b.Proof, rootBytes []byte) error {
 		}
 		return nil
 	}
+	if err := checkFormat(p); err != nil {
+		return err
+	}
 	c, err := verify(p, 0, 0)
 	if err != nil {
 		return err
@@ -87,6 +90,37 @@ func CommitmentToTheTerminalNode(p *trie_blake2b.Proof) []byte {
 	return hashIt(p.Path[len(p.Path)-1], nil, p.PathArity, p.HashSize)
 }
 
+// checkFormat checks if elements of the proof can be hashed, i.e. if they can represent nodes of the trie
+func checkFormat(p *trie_blake2b.Proof) error {
+	switch p.PathArity {
+	case trie.PathArity256, trie.PathArity16, trie.PathArity2:
+	default:
+		return trie.ErrWrongArity
+	}
+	if p.HashSize != trie_blake2b.HashSize160 && p.HashSize != trie_blake2b.HashSize256 {
+		return errors.New("wrong hash size")
+	}
+	for i, e := range p.Path {
+		if e == nil {
+			return fmt.Errorf("wrong proof: missing element. Path position: %d", i)
+		}
+		if len(e.Terminal) > int(p.HashSize) {
+			return fmt.Errorf("wrong proof: terminal too long. Path position: %d", i)
+		}
+		for _, c := range e.PathFragment {
+			if !p.PathArity.IsChildIndex(int(c)) {
+				return fmt.Errorf("wrong proof: wrong path fragment. Path position: %d", i)
+			}
+		}
+		for idx, c := range e.Children {
+			if !p.PathArity.IsChildIndex(int(idx)) || len(c) != int(p.HashSize) {
+				return fmt.Errorf("wrong proof: wrong child commitment at index %d. Path position: %d", idx, i)
+			}
+		}
+	}
+	return nil
+}
+
 func verify(p *trie_blake2b.Proof, pathIdx, keyIdx int) ([]byte, error) {
 	trie.Assert(pathIdx < len(p.Path), "assertion: pathIdx < lenPlus1(p.Path)")
 	trie.Assert(keyIdx <= len(p.Key), "assertion: keyIdx <= lenPlus1(p.Key)")
diff --git a/trie/model.go b/trie/model.go
index c8e67af..a6da7d5 100644
--- a/trie/model.go
+++ b/trie/model.go
@@ -74,7 +74,7 @@ func (a PathArity) VectorLength() int {
 }
 
 func (a PathArity) IsChildIndex(i int) bool {
-	return i <= int(a)
+	return i >= 0 && i <= int(a)
 }
 
 func (a PathArity) NumChildren() int {
-- 
2.43.0


From 9d36d5d17247d54eae99e622c6d062d852fe0288 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:02:33 +0000
Subject: [PATCH 18/38] fix: blake2b proof validates for a key which is not on
 the path of the proof

---
 .../trie_blake2b_verify/verify.go             | 33 +++++++++++++++----
 1 file changed, 26 insertions(+), 7 deletions(-)

diff --git a/models/trie_blake2b/trie_blake2b_verify/verify.go b/models/trie_blake2b/trie_blake2b_verify/verify.go
index 2c57a92..4a1a8c4 100644
--- a/models/trie_blake2b/trie_blake2b_verify/verify.go
+++ b/models/trie_blake2b/trie_blake2b_verify/verify.go
@@ -26,7 +26,7 @@ func MustKeyWithTerminal(p *trie_blake2b.Proof) ([]byte, []byte) {
 		}
 		return p.Key, nil
 	case lastElem.ChildIndex == p.PathArity.TerminalCommitmentIndex():
-		if lastElem.Terminal == nil {
+		if len(lastElem.Terminal) == 0 {
 			return p.Key, nil
 		}
 		return p.Key, lastElem.Terminal
@@ -144,21 +144,40 @@ func verify(p *trie_blake2b.Proof, pathIdx, keyIdx int) ([]byte, error) {
 		if nextKeyIdx > len(p.Key) {
 			return nil, fmt.Errorf("wrong proof: proof path out of key bounds. Path position: %d, key position %d", pathIdx, keyIdx)
 		}
+		if int(p.Key[nextKeyIdx-1]) != elem.ChildIndex {
+			return nil, fmt.Errorf("wrong proof: child index %d does not follow the key. Path position: %d, key position %d", elem.ChildIndex, pathIdx, keyIdx)
+		}
 		c, err := verify(p, pathIdx+1, nextKeyIdx)
 		if err != nil {
 			return nil, err
 		}
 		return hashIt(elem, c, p.PathArity, p.HashSize), nil
 	}
-	// it is the last in the path
-	if p.PathArity.IsChildIndex(elem.ChildIndex) {
-		c := elem.Children[byte(elem.ChildIndex)]
-		if c != nil {
+	// it is the last in the path. The node must say something about the key itself
+	keyEndsHere := bytes.Equal(tail, elem.PathFragment)
+	if isPrefix && !keyEndsHere {
+		// the key continues through a child
+		if _, ok := elem.Children[tail[len(elem.PathFragment)]]; ok {
 			return nil, fmt.Errorf("wrong proof: child commitment of the last element expected to be nil. Path position: %d, key position %d", pathIdx, keyIdx)
 		}
-		return hashIt(elem, nil, p.PathArity, p.HashSize), nil
 	}
-	if elem.ChildIndex != p.PathArity.TerminalCommitmentIndex() && elem.ChildIndex != p.PathArity.PathFragmentCommitmentIndex() {
+	switch {
+	case p.PathArity.IsChildIndex(elem.ChildIndex):
+		// proof of absence: no child where the key continues
+		if !isPrefix || keyEndsHere || int(tail[len(elem.PathFragment)]) != elem.ChildIndex {
+			return nil, fmt.Errorf("wrong proof: child index %d does not follow the key. Path position: %d, key position %d", elem.ChildIndex, pathIdx, keyIdx)
+		}
+	case elem.ChildIndex == p.PathArity.TerminalCommitmentIndex():
+		// proof of presence or absence of the value: the key must end in the node
+		if !keyEndsHere {
+			return nil, fmt.Errorf("wrong proof: the key does not end at the last element. Path position: %d, key position %d", pathIdx, keyIdx)
+		}
+	case elem.ChildIndex == p.PathArity.PathFragmentCommitmentIndex():
+		// proof of absence: the key goes another way than the path fragment or beyond it
+		if keyEndsHere {
+			return nil, fmt.Errorf("wrong proof: the key ends at the last element. Path position: %d, key position %d", pathIdx, keyIdx)
+		}
+	default:
 		return nil, fmt.Errorf("wrong proof: child index expected to be %d or %d. Path position: %d, key position %d",
 			p.PathArity.TerminalCommitmentIndex(), p.PathArity.PathFragmentCommitmentIndex(), pathIdx, keyIdx)
 	}
-- 
2.43.0


From 317c467d6256a1dfdd8e40f9681953a8f6b813bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:25:20 +0000
Subject: [PATCH 19/38] fix: KZG proof of inclusion with wrong vector index
 panics or validates

---
 models/trie_kzg_bn256/proof.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/models/trie_kzg_bn256/proof.go b/models/trie_kzg_bn256/proof.go
index 577acbd..4675a3f 100644
--- a/models/trie_kzg_bn256/proof.go
+++ b/models/trie_kzg_bn256/proof.go
@@ -138,7 +138,11 @@ func (p *ProofOfInclusion) Validate(root trie.VCommitment, value ...[]byte) erro
 	var val kyber.Scalar
 
 	for i := range p.Path {
-		if p.Path[i].VectorIndex < 256 {
+		isLast := i == len(p.Path)-1
+		if isLast && p.Path[i].VectorIndex != 256 || !isLast && p.Path[i].VectorIndex > 255 {
+			return xerrors.New(fmt.Sprintf("wrong vector index at path position %d", i))
+		}
+		if !isLast {
 			val = scalarFromPoint(Model.Suite.G1().Scalar(), p.Path[i+1].C)
 		} else {
 			val = p.Terminal
-- 
2.43.0


From 6b37cd107039f50a8365d70aa3032ae01972c7ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:25:21 +0000
Subject: [PATCH 20/38] fix: KZG proof of inclusion validates for the absent
 key of a node without terminal

---
 models/trie_kzg_bn256/proof.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/models/trie_kzg_bn256/proof.go b/models/trie_kzg_bn256/proof.go
index 4675a3f..674547a 100644
--- a/models/trie_kzg_bn256/proof.go
+++ b/models/trie_kzg_bn256/proof.go
@@ -132,6 +132,10 @@ func (p *ProofOfInclusion) Validate(root trie.VCommitment, value ...[]byte) erro
 	if len(p.Path) == 0 {
 		return xerrors.New("proof path is empty")
 	}
+	// zero is the value at the index of the terminal in the node without terminal
+	if p.Terminal.Equal(Model.Suite.G1().Scalar().Zero()) {
+		return xerrors.New("proof contains no terminal commitment")
+	}
 	if !equalCommitments(root, &vectorCommitment{Point: p.Path[0].C}) {
 		return xerrors.New("provided commitment and commitment to the first element are not equal")
 	}
-- 
2.43.0


From b453c71feaa8c8b8147480213218f7090b40db84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:25:21 +0000
Subject: [PATCH 21/38] fix: trusted setup with natural domain cannot be
 restored from bytes

---
 models/trie_kzg_bn256/trusted.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/models/trie_kzg_bn256/trusted.go b/models/trie_kzg_bn256/trusted.go
index 8de993f..083d2a5 100644
--- a/models/trie_kzg_bn256/trusted.go
+++ b/models/trie_kzg_bn256/trusted.go
@@ -284,7 +284,8 @@ func (sd *TrustedSetup) read(r io.Reader) error {
 	if _, err := sd.Omega.UnmarshalFrom(r); err != nil {
 		return err
 	}
-	if !isRootOfUnity(sd.Suite, sd.Omega) {
+	// omega == 0 means natural domain
+	if !sd.Omega.Equal(sd.ZeroG1) && !isRootOfUnity(sd.Suite, sd.Omega) {
 		return errNotROU
 	}
 	for i := range sd.LagrangeBasis {
-- 
2.43.0


From 610cabb009a8483acabcfb78aebf0f4a7535918d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:25:21 +0000
Subject: [PATCH 22/38] fix: incremental update of the KZG commitment loses
 deletions of children and modifies its inputs

---
 models/trie_kzg_bn256/model.go | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/models/trie_kzg_bn256/model.go b/models/trie_kzg_bn256/model.go
index f6d7966..3abc44f 100644
--- a/models/trie_kzg_bn256/model.go
+++ b/models/trie_kzg_bn256/model.go
@@ -177,8 +177,8 @@ func (m *CommitmentModel) UpdateNodeCommitment(mutate *trie.NodeData, childUpdat
 					prevS := scalarFromPoint(m.TrustedSetup.Suite.G1().Scalar(), prevC.(*vectorCommitment).Point)
 					delta.Sub(delta, prevS)
 				}
-				deltas[int(i)] = delta
 			}
+			deltas[int(i)] = delta
 		}
 		// update mutated part
 		if childUpd == nil {
@@ -191,8 +191,7 @@ func (m *CommitmentModel) UpdateNodeCommitment(mutate *trie.NodeData, childUpdat
 		delta := m.TrustedSetup.Suite.G1().Scalar().Zero()
 		if terminal == nil {
 			if mutate.Terminal != nil {
-				delta = mutate.Terminal.(*terminalCommitment).Scalar
-				delta.Neg(delta)
+				delta.Neg(mutate.Terminal.(*terminalCommitment).Scalar)
 			}
 		} else {
 			delta.Set(terminal.(*terminalCommitment).Scalar)
@@ -208,7 +207,7 @@ func (m *CommitmentModel) UpdateNodeCommitment(mutate *trie.NodeData, childUpdat
 
 		// update upper commitment by adding calculated delta
 		if *update != nil {
-			prevP = (*update).(*vectorCommitment).Point
+			prevP = (*update).(*vectorCommitment).Point.Clone()
 		} else {
 			prevP = m.TrustedSetup.Suite.G1().Point().Null()
 		}
-- 
2.43.0


From c5290b25a527952ffe7a43b37bc10cb09351be61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:45:38 +0000
Subject: [PATCH 23/38] fix: trusted setup is generated with omega which is not
 a root of unity and then cannot be loaded

---
 models/trie_kzg_bn256/trusted.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/models/trie_kzg_bn256/trusted.go b/models/trie_kzg_bn256/trusted.go
index 083d2a5..c9024e5 100644
--- a/models/trie_kzg_bn256/trusted.go
+++ b/models/trie_kzg_bn256/trusted.go
@@ -163,6 +163,9 @@ func (sd *TrustedSetup) generatePowers(omega, secret kyber.Scalar) error {
 	if len(secret.String()) < 50 {
 		return errWrongSecret
 	}
+	if !isRootOfUnity(sd.Suite, omega) {
+		return errNotROU
+	}
 	sd.Omega.Set(omega)
 	for i := range sd.Domain {
 		powerSimple(sd.Suite, sd.Omega, i, sd.Domain[i])
-- 
2.43.0


From 431483cacce55d25bacd6b0f86e9bc586a63a719 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:49:29 +0000
Subject: [PATCH 24/38] fix: packing of nibbles accepts wrong nibbles at odd
 positions and gives the encoding of another path

---
 trie/encode.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/trie/encode.go b/trie/encode.go
index 604e382..dd11b3b 100644
--- a/trie/encode.go
+++ b/trie/encode.go
@@ -30,6 +30,9 @@ func pack16(dst, src []byte) ([]byte, error) {
 		}
 		c := src[i] << 4
 		if i+1 < len(src) {
+			if src[i+1] > 0x0F {
+				return nil, ErrWrongNibble
+			}
 			c |= src[i+1]
 		}
 		dst = append(dst, c)
-- 
2.43.0


From 7dbb6dfccdc246ea74bf6f0bfefea303ecf2159a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:49:44 +0000
Subject: [PATCH 25/38] fix: decoding of path accepts non-canonical encoding of
 the empty path

---
 trie/encode.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/trie/encode.go b/trie/encode.go
index dd11b3b..ddbe922 100644
--- a/trie/encode.go
+++ b/trie/encode.go
@@ -199,8 +199,16 @@ func DecodeToUnpackedBytes(encoded []byte, arity PathArity) ([]byte, error) {
 	case PathArity256:
 		return encoded, nil
 	case PathArity16:
+		if len(encoded) == 1 {
+			// the empty path is encoded as empty data
+			return nil, ErrWrongFormat
+		}
 		return decode16(encoded)
 	case PathArity2:
+		if len(encoded) == 1 {
+			// the empty path is encoded as empty data
+			return nil, ErrWrongFormat
+		}
 		return decode2(encoded)
 	}
 	return nil, ErrWrongArity
-- 
2.43.0


From bef403fd27e53107e75447f40ab76c313b8e26fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:50:05 +0000
Subject: [PATCH 26/38] fix: random stream panics when maximum length of keys
 or values is 0 or 1

---
 trie/kv.go | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/trie/kv.go b/trie/kv.go
index 9f7bee3..b741c73 100644
--- a/trie/kv.go
+++ b/trie/kv.go
@@ -257,9 +257,9 @@ func (r *RandStreamIterator) Iterate(fun func(k []byte, v []byte) bool) error {
 		max = math.MaxInt
 	}
 	for r.count < max {
-		k := make([]byte, r.rnd.Intn(r.par.MaxKey-1)+1)
+		k := make([]byte, r.rndLen(r.par.MaxKey))
 		r.rnd.Read(k)
-		v := make([]byte, r.rnd.Intn(r.par.MaxValue-1)+1)
+		v := make([]byte, r.rndLen(r.par.MaxValue))
 		r.rnd.Read(v)
 		if !fun(k, v) {
 			return nil
@@ -268,3 +268,14 @@ func (r *RandStreamIterator) Iterate(fun func(k []byte, v []byte) bool) error {
 	}
 	return nil
 }
+
+// rndLen is a random length which does not exceed max
+func (r *RandStreamIterator) rndLen(max int) int {
+	switch {
+	case max <= 0:
+		return 0
+	case max == 1:
+		return 1
+	}
+	return r.rnd.Intn(max-1) + 1
+}
-- 
2.43.0


From 42d0755a02ad76f5a50fe551eb9065b90ee9d5a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:50:05 +0000
Subject: [PATCH 27/38] fix: random stream generates more pairs than the limit
 after the consumer has stopped

---
 trie/kv.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/trie/kv.go b/trie/kv.go
index b741c73..58ca460 100644
--- a/trie/kv.go
+++ b/trie/kv.go
@@ -261,10 +261,10 @@ func (r *RandStreamIterator) Iterate(fun func(k []byte, v []byte) bool) error {
 		r.rnd.Read(k)
 		v := make([]byte, r.rndLen(r.par.MaxValue))
 		r.rnd.Read(v)
+		r.count++
 		if !fun(k, v) {
 			return nil
 		}
-		r.count++
 	}
 	return nil
 }
-- 
2.43.0


From eda001fa2247fa333a4f232f42d9b3b9dfec79c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:50:34 +0000
Subject: [PATCH 28/38] fix: trie_bench mkdbbadgernotrie does not store records
 after the last full batch

---
 examples/trie_bench/main.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/examples/trie_bench/main.go b/examples/trie_bench/main.go
index caf238b..f2700b4 100644
--- a/examples/trie_bench/main.go
+++ b/examples/trie_bench/main.go
@@ -354,6 +354,10 @@ func file2kvsNoTrie(kvs kvstore.KVStore) {
 		return true
 	})
 	must(err)
+	if batched != nil {
+		must(batched.Commit())
+		must(kvs.Flush())
+	}
 	fmt.Printf("Speed: %f records/sec\n", float64(counterRec)/tm.Duration().Seconds())
 }
 
-- 
2.43.0


From dc72ba332c8362d64b2bb477ddb657e4ffc32a72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:50:34 +0000
Subject: [PATCH 29/38] fix: trie_bench panics with -valuethr when the root
 node has a terminal

---
 examples/trie_bench/main.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/examples/trie_bench/main.go b/examples/trie_bench/main.go
index f2700b4..e49bc16 100644
--- a/examples/trie_bench/main.go
+++ b/examples/trie_bench/main.go
@@ -290,7 +290,10 @@ func file2kvs(kvs kvstore.KVStore) {
 
 	tm := newTimer()
 	counterRec := 1
-	tr := trie.NewTrieReader(model, hive_adaptor.NewHiveKVStoreAdaptor(kvs, triePrefix), nil)
+	tr := trie.NewTrieReader(model,
+		hive_adaptor.NewHiveKVStoreAdaptor(kvs, triePrefix),
+		hive_adaptor.NewHiveKVStoreAdaptor(kvs, valueStorePrefix),
+	)
 	updater, err := hive_adaptor.NewHiveBatchedUpdater(kvs, model, triePrefix, valueStorePrefix, *optkey)
 	must(err)
 	var mem runtime.MemStats
-- 
2.43.0


From d3c68cc0e33c8b1173a080670293cd5cf07668bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:50:34 +0000
Subject: [PATCH 30/38] fix: trie_bench panics with division by zero when the
 first batch takes less than a second

---
 examples/trie_bench/main.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/examples/trie_bench/main.go b/examples/trie_bench/main.go
index e49bc16..daf887f 100644
--- a/examples/trie_bench/main.go
+++ b/examples/trie_bench/main.go
@@ -303,8 +303,12 @@ func file2kvs(kvs kvstore.KVStore) {
 			must(updater.Commit())
 			runtime.ReadMemStats(&mem)
 
+			sec := int(tm.Duration().Seconds())
+			if sec == 0 {
+				sec = 1
+			}
 			fmt.Printf("commited %d records. rec/sec: %v, mem alloc: %f MB\n",
-				counterRec, counterRec/int(tm.Duration().Seconds()),
+				counterRec, counterRec/sec,
 				float32(mem.Alloc)/(1024*1024),
 			)
 		}
-- 
2.43.0


From 345181f51ff4630ea260406a8089f9ca178b98bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:50:34 +0000
Subject: [PATCH 31/38] fix: trie_bench reports one record more than it has
 generated or committed

---
 examples/trie_bench/main.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/examples/trie_bench/main.go b/examples/trie_bench/main.go
index daf887f..f0f7ed7 100644
--- a/examples/trie_bench/main.go
+++ b/examples/trie_bench/main.go
@@ -157,7 +157,7 @@ func genrnd() {
 		return true
 	})
 	must(err)
-	fmt.Printf("generated total %d key/value pairs, %f MB\n", count+1, float32(wrote)/(1024*1024))
+	fmt.Printf("generated total %d key/value pairs, %f MB\n", count, float32(wrote)/(1024*1024))
 }
 
 // all values loads in memory
@@ -318,7 +318,7 @@ func file2kvs(kvs kvstore.KVStore) {
 	must(err)
 	if updater != nil {
 		must(updater.Commit())
-		fmt.Printf("commited %d records. Duration: %v\n", counterRec, tm.Duration())
+		fmt.Printf("commited %d records. Duration: %v\n", counterRec-1, tm.Duration())
 	}
 	fmt.Printf("Speed: %f records/sec\n", float64(counterRec)/tm.Duration().Seconds())
 
-- 
2.43.0


From 8f2acb5938575efc68de9912d2eef2d6e9a39f1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:56:39 +0000
Subject: [PATCH 32/38] fix: value store which returns an empty value for a
 node with terminal is an error, not a node without terminal

---
 trie/nodedata.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/trie/nodedata.go b/trie/nodedata.go
index e2e378c..ef544af 100644
--- a/trie/nodedata.go
+++ b/trie/nodedata.go
@@ -226,7 +226,8 @@ func (n *NodeData) Read(r io.Reader, model CommitmentModel, unpackedKey []byte,
 				return err
 			}
 			value := valueStore.Get(key)
-			if value == nil {
+			if len(value) == 0 {
+				// empty value means absence, same as nil
 				return fmt.Errorf("can't find terminal value for key '%x'", key)
 			}
 			n.Terminal = model.CommitToData(value)
-- 
2.43.0


From 64d3d9f6b9f71a9c939dd29c027815f78442f072 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:56:41 +0000
Subject: [PATCH 33/38] fix: serialized node which commits to nothing is
 refused by the reader as it is by the writer

---
 trie/nodedata.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/trie/nodedata.go b/trie/nodedata.go
index ef544af..639d44d 100644
--- a/trie/nodedata.go
+++ b/trie/nodedata.go
@@ -258,5 +258,8 @@ func (n *NodeData) Read(r io.Reader, model CommitmentModel, unpackedKey []byte,
 			}
 		}
 	}
+	if n.Terminal == nil && len(n.ChildCommitments) == 0 {
+		return errors.New("node does not commit to anything")
+	}
 	return nil
 }
-- 
2.43.0


From 1985782b5f425442a85ec626830601429a2c2b80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:56:56 +0000
Subject: [PATCH 34/38] fix: proof with more than 65535 path elements is not
 serialized with a wrapped element count

---
 models/trie_blake2b/proof.go   | 4 ++++
 models/trie_kzg_bn256/proof.go | 4 ++++
 2 files changed, 8 insertions(+)

diff --git a/models/trie_blake2b/proof.go b/models/trie_blake2b/proof.go
index 1e03c3b..fadda25 100644
--- a/models/trie_blake2b/proof.go
+++ b/models/trie_blake2b/proof.go
@@ -5,6 +5,7 @@ import (
 	"errors"
 	"fmt"
 	"io"
+	"math"
 
 	"github.com/iotaledger/trie.go/trie"
 )
@@ -113,6 +114,9 @@ func (p *Proof) Write(w io.Writer) error {
 	if err = trie.WriteBytes16(w, encodedKey); err != nil {
 		return err
 	}
+	if len(p.Path) > math.MaxUint16 {
+		return fmt.Errorf("too long proof path: %d elements", len(p.Path))
+	}
 	if err = trie.WriteUint16(w, uint16(len(p.Path))); err != nil {
 		return err
 	}
diff --git a/models/trie_kzg_bn256/proof.go b/models/trie_kzg_bn256/proof.go
index 674547a..57433b7 100644
--- a/models/trie_kzg_bn256/proof.go
+++ b/models/trie_kzg_bn256/proof.go
@@ -4,6 +4,7 @@ import (
 	"bytes"
 	"fmt"
 	"io"
+	"math"
 
 	"github.com/iotaledger/trie.go/trie"
 	"go.dedis.ch/kyber/v3"
@@ -165,6 +166,9 @@ func (p *ProofOfInclusion) Write(w io.Writer) error {
 	if _, err := p.Terminal.MarshalTo(w); err != nil {
 		return err
 	}
+	if len(p.Path) > math.MaxUint16 {
+		return fmt.Errorf("too long proof path: %d elements", len(p.Path))
+	}
 	if err := trie.WriteUint16(w, uint16(len(p.Path))); err != nil {
 		return err
 	}
-- 
2.43.0


From 015e0df96402407775f04bcd9cfd12b2e6897483 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:01:59 +0000
Subject: [PATCH 35/38] revert the four repairs of examples/trie_bench: files
 under examples are out of bounds

---
 examples/trie_bench/main.go | 19 ++++---------------
 1 file changed, 4 insertions(+), 15 deletions(-)

diff --git a/examples/trie_bench/main.go b/examples/trie_bench/main.go
index f0f7ed7..caf238b 100644
--- a/examples/trie_bench/main.go
+++ b/examples/trie_bench/main.go
@@ -157,7 +157,7 @@ func genrnd() {
 		return true
 	})
 	must(err)
-	fmt.Printf("generated total %d key/value pairs, %f MB\n", count, float32(wrote)/(1024*1024))
+	fmt.Printf("generated total %d key/value pairs, %f MB\n", count+1, float32(wrote)/(1024*1024))
 }
 
 // all values loads in memory
@@ -290,10 +290,7 @@ func file2kvs(kvs kvstore.KVStore) {
 
 	tm := newTimer()
 	counterRec := 1
-	tr := trie.NewTrieReader(model,
-		hive_adaptor.NewHiveKVStoreAdaptor(kvs, triePrefix),
-		hive_adaptor.NewHiveKVStoreAdaptor(kvs, valueStorePrefix),
-	)
+	tr := trie.NewTrieReader(model, hive_adaptor.NewHiveKVStoreAdaptor(kvs, triePrefix), nil)
 	updater, err := hive_adaptor.NewHiveBatchedUpdater(kvs, model, triePrefix, valueStorePrefix, *optkey)
 	must(err)
 	var mem runtime.MemStats
@@ -303,12 +300,8 @@ func file2kvs(kvs kvstore.KVStore) {
 			must(updater.Commit())
 			runtime.ReadMemStats(&mem)
 
-			sec := int(tm.Duration().Seconds())
-			if sec == 0 {
-				sec = 1
-			}
 			fmt.Printf("commited %d records. rec/sec: %v, mem alloc: %f MB\n",
-				counterRec, counterRec/sec,
+				counterRec, counterRec/int(tm.Duration().Seconds()),
 				float32(mem.Alloc)/(1024*1024),
 			)
 		}
@@ -318,7 +311,7 @@ func file2kvs(kvs kvstore.KVStore) {
 	must(err)
 	if updater != nil {
 		must(updater.Commit())
-		fmt.Printf("commited %d records. Duration: %v\n", counterRec-1, tm.Duration())
+		fmt.Printf("commited %d records. Duration: %v\n", counterRec, tm.Duration())
 	}
 	fmt.Printf("Speed: %f records/sec\n", float64(counterRec)/tm.Duration().Seconds())
 
@@ -361,10 +354,6 @@ func file2kvsNoTrie(kvs kvstore.KVStore) {
 		return true
 	})
 	must(err)
-	if batched != nil {
-		must(batched.Commit())
-		must(kvs.Flush())
-	}
 	fmt.Printf("Speed: %f records/sec\n", float64(counterRec)/tm.Duration().Seconds())
 }
 
-- 
2.43.0


From 8d631e8568ad6b77a59a52decb7b9350794c0284 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:15:55 +0000
Subject: [PATCH 36/38] fix: failed read of the store during deletion leaves
 the trie half changed, repeating the deletion corrupts it

---
 trie/trie.go | 49 ++++++++++++++++++++++++++++++++++++++-----------
 1 file changed, 38 insertions(+), 11 deletions(-)

diff --git a/trie/trie.go b/trie/trie.go
index 3649d9a..c363b1d 100644
--- a/trie/trie.go
+++ b/trie/trie.go
@@ -269,6 +269,17 @@ func (tr *Trie) Delete(key []byte) {
 	if !ok {
 		return
 	}
+	// node which will be merged is read before anything is changed: if reading fails, the trie stays as it was
+	if children := tr.remainingChildren(lastNode); len(children) > 0 {
+		tr.fetchOnlyChild(lastNode, children)
+	} else if len(proof) >= 2 {
+		prevNode := tr.nodeStore.mustGetNode(proof[len(proof)-2])
+		if prevNode.newTerminal == nil {
+			children = tr.remainingChildren(prevNode)
+			delete(children, lastKey[len(lastKey)-1])
+			tr.fetchOnlyChild(prevNode, children)
+		}
+	}
 	lastNode.setNewTerminal(nil)
 	reorg, mergeChildIndex := tr.checkReorg(lastNode)
 	switch reorg {
@@ -356,17 +367,7 @@ func (tr *Trie) checkReorg(n *bufferedNode) (reorgStatus, byte) {
 	if n.newTerminal != nil {
 		return nodeReorgNOP, 0
 	}
-	toCheck := make(map[byte]struct{})
-	for c := range n.ChildCommitments() {
-		toCheck[c] = struct{}{}
-	}
-	for c := range n.modifiedChildren {
-		if tr.hasCommitment(childKey(n, c)) {
-			toCheck[c] = struct{}{}
-		} else {
-			delete(toCheck, c)
-		}
-	}
+	toCheck := tr.remainingChildren(n)
 	switch len(toCheck) {
 	case 0:
 		return nodeReorgRemove, 0
@@ -378,6 +379,32 @@ func (tr *Trie) checkReorg(n *bufferedNode) (reorgStatus, byte) {
 	return nodeReorgNOP, 0
 }
 
+// remainingChildren returns indices of children the node will have in the (future) committed state
+func (tr *Trie) remainingChildren(n *bufferedNode) map[byte]struct{} {
+	ret := make(map[byte]struct{})
+	for c := range n.ChildCommitments() {
+		ret[c] = struct{}{}
+	}
+	for c := range n.modifiedChildren {
+		if tr.hasCommitment(childKey(n, c)) {
+			ret[c] = struct{}{}
+		} else {
+			delete(ret, c)
+		}
+	}
+	return ret
+}
+
+// fetchOnlyChild brings the child to the cache if there is exactly one
+func (tr *Trie) fetchOnlyChild(n *bufferedNode, children map[byte]struct{}) {
+	if len(children) != 1 {
+		return
+	}
+	for c := range children {
+		tr.nodeStore.mustGetNode(childKey(n, c))
+	}
+}
+
 // UpdateStr updates unpackedKey/value pair in the trie
 func (tr *Trie) UpdateStr(key interface{}, value interface{}) {
 	var k, v []byte
-- 
2.43.0


From 3cd9fe9487bf297b75b8ede20143185c9dedb5ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:36:22 +0000
Subject: [PATCH 37/38] fix: Reconcile keeps the key buffer of the iterator,
 the list is corrupted by an iterator which reuses its buffer

---
 trie/trie.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/trie/trie.go b/trie/trie.go
index c363b1d..8313412 100644
--- a/trie/trie.go
+++ b/trie/trie.go
@@ -470,14 +470,14 @@ func (tr *Trie) Reconcile(store KVIterator) [][]byte {
 			lastKey := p[len(p)-1]
 			n, ok := tr.GetNode(lastKey)
 			if !ok {
-				ret = append(ret, k)
+				ret = append(ret, append([]byte(nil), k...))
 			} else {
 				if !tr.Model().EqualCommitments(tr.commitToValue(k, v), n.Terminal()) {
-					ret = append(ret, k)
+					ret = append(ret, append([]byte(nil), k...))
 				}
 			}
 		} else {
-			ret = append(ret, k)
+			ret = append(ret, append([]byte(nil), k...))
 		}
 		return true
 	})
-- 
2.43.0


From b796cf6d0fbb2828852ed375315f8b8fa8c0f4e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:58:19 +0000
Subject: [PATCH 38/38] fix: blake2b proof shares slices with the trie, editing
 a proof corrupts the trie

---
 models/trie_blake2b/proof.go | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/models/trie_blake2b/proof.go b/models/trie_blake2b/proof.go
index fadda25..3179a10 100644
--- a/models/trie_blake2b/proof.go
+++ b/models/trie_blake2b/proof.go
@@ -74,21 +74,22 @@ func (m *CommitmentModel) Proof(key []byte, tr trie.NodeStore) *Proof {
 				panic("wrong ending code")
 			}
 		}
+		// the proof is independent of the trie: it does not share slices with the nodes
 		em := &ProofElement{
-			PathFragment: node.PathFragment(),
+			PathFragment: append([]byte(nil), node.PathFragment()...),
 			Children:     make(map[byte][]byte),
 			Terminal:     nil,
 			ChildIndex:   childIndex,
 		}
 		if node.Terminal() != nil {
-			em.Terminal = node.Terminal().(*terminalCommitment).bytes
+			em.Terminal = append([]byte{}, node.Terminal().(*terminalCommitment).bytes...)
 		}
 		for idx, v := range node.ChildCommitments() {
 			if int(idx) == childIndex {
 				// skipping the commitment which must come from the next child
 				continue
 			}
-			em.Children[idx] = v.(vectorCommitment)
+			em.Children[idx] = append([]byte(nil), v.(vectorCommitment)...)
 		}
 		ret.Path[i] = em
 	}
-- 
2.43.0

