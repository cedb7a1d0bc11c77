#!/usr/bin/env python3
# Generates /verif/properties.jsonl (one JSON object per line).
import json,os
P=[]
def p(id,title,statement,over,qtext,why,files,mech,observe,state=None):
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech],"observe_at":observe,"hook_needed":None}
    if state: a["state"]=[{"name":n,"meaning":m,"where":w} for n,m,w in state]
    P.append({"id":id,"title":title,"statement":statement,"quantifier":{"over":over,"text":qtext},"why_tests_cant":why,"anchors":a})

T="trie/trie.go"; NS="trie/nodestore.go"; N="trie/node.go"; ND="trie/nodedata.go"; E="trie/encode.go"; KV="trie/kv.go"; U="trie/util.go"; PR="trie/proof.go"
B="models/trie_blake2b/model.go"; BP="models/trie_blake2b/proof.go"; BV="models/trie_blake2b/trie_blake2b_verify/verify.go"
K="models/trie_kzg_bn256/model.go"; KP="models/trie_kzg_bn256/proof.go"; KT="models/trie_kzg_bn256/trusted.go"; KF="models/trie_kzg_bn256/fun.go"
H="hive_adaptor/hiveadaptor.go"

p("C01","Hash-model root is a canonical function of the key/value content",
 "After a commit, the root commitment of a trie under the hash-based model equals the commitment of the canonical 256+ tree of the key/value pairs currently in it, and is absent exactly when there are none. It depends on nothing else: not on the order, grouping or redundancy of updates and deletions, on where commits, persists, cache clears, reloads or clones happened in between, or on keys that were inserted and later removed. Setting an empty value, deleting a key and never having inserted it are the same thing.",
 ["histories","inputs","configurations"],
 "Every finite history of insert/overwrite/delete/commit/persist/clear-cache/reopen/clone operations over arbitrary byte keys and values, for path arity 2, 16 and 256 and 160/256-bit hashes.",
 "Tests compare a few orderings of a few hundred fixed or seeded keys with each other; none compares the root with an independent definition, and the number of histories (splits, merges, delete-reinsert across commit/persist boundaries) is unbounded.",
 [T,NS,N,B],[("path walk, split, extend, merge on delete","trie/trie.go Update/splitNode/Delete/mergeNode/checkReorg"),("recursive commit of modified nodes","trie/trie.go commitNode"),("node hashing","models/trie_blake2b/model.go makeHashVector/HashTheVector/CommitToDataRaw")],
 ["root commitment after commit","node set reachable through the node store"],
 [("buffered nodes","pending state of the trie: nodes, deletion marks, modified-children marks","trie/nodestore.go nodeStoreBuffered")])

p("C02","Persisted trie is complete, exact and reproduces the same state",
 "After a commit followed by persisting, the trie store contains exactly the nodes of the canonical tree of the current content: no node missing, stale or superfluous, each with its documented byte layout. A reader or a new updatable trie opened on that store gives the same root, the same nodes and the same proofs as the trie that wrote it, and further updates continue from it as if it had never been closed. Persisting again without changes leaves the store as it is. A second store which gets the same persists, at once or from a buffer, holds the same.",
 ["histories","inputs","configurations"],
 "Every history of updates, deletions, commits, persists, cache clears and reopenings over one store, for all arities and hash sizes, including histories that empty the trie or restructure previously persisted nodes.",
 "Tests persist a handful of growing tries and compare roots; a stale or missing node below the root is only visible if the right key is touched after reload, and no test compares the store content with what it should be.",
 [T,NS,N,ND,E,B],[("persist writes cached nodes and deletes removed ones","trie/nodestore.go persistMutations"),("deletion marks and un-deletion","trie/nodestore.go removeKey/unDelete/insertNewNode"),("node serialization","trie/nodedata.go Read/Write, trie/node.go bufferedNode.Bytes"),("key encoding","trie/encode.go EncodeUnpackedBytes")],
 ["content of the key/value store given to persist","root, nodes and proofs through a fresh reader"],
 [("deleted marks","nodes to be removed from the store at the next persist","trie/nodestore.go nodeStoreBuffered.deleted")])

p("C03","Clones are isolated, cache clearing rolls back, reads have no effect",
 "A clone of a trie starts with the same committed and pending state as the original, and from then on neither can observe operations applied to the other. Dropping the cache returns the trie to exactly the last persisted state, whatever was pending or committed, also when another trie over the same store persisted it. Reading (nodes, proofs, reconciliation, root, description, cache dump), at any point, changes no later result, neither in the trie nor in its store.",
 ["histories","inputs"],
 "Every history that clones at an arbitrary point (clean, dirty, committed-not-persisted), interleaves operations on all copies, inserts reads between any two operations and clears caches.",
 "Tests clone once at one point of a short script; sharing of a map or slice between copies, or a read that leaves a mark in the cache, only shows for particular operation sequences after the clone.",
 [T,NS,N,ND],[("deep copy of cache and deletion marks","trie/nodestore.go clone, trie/node.go bufferedNode.Clone, trie/nodedata.go NodeData.Clone"),("cache drop","trie/nodestore.go clearCache"),("read path filling the cache","trie/nodestore.go getNode")],
 ["roots, nodes and persisted content of each copy after further operations"])

p("C04","Hash-model proofs: complete, correctly classified, and stable in bytes",
 "For every committed state and every key, present or not, a proof can be built from the updatable trie or from a reader; it validates against the root, and tells inclusion of exactly the stored value (and of no other value) for present keys and absence for all other keys. Its serialized form has the reported size, and parses back to an equal proof with the same verdict. The commitment it gives for its last node is the root of the sub-state below that point of the key.",
 ["inputs","histories","configurations"],
 "All states reachable by update histories, all byte keys (present, prefixes, extensions, diverging, empty), all arities and hash sizes, value sizes around the hash size.",
 "Tests prove a few present keys and some absent ones on random data; the endings of the path (split, extension, terminal, missing terminal), the child indices and the serialization flags have a combinatorial number of combinations.",
 [PR,BP,BV,B],[("generic path","trie/proof.go proofPath"),("proof construction","models/trie_blake2b/proof.go Proof"),("proof serialization","models/trie_blake2b/proof.go Write/Read"),("validation and classification","models/trie_blake2b/trie_blake2b_verify/verify.go")],
 ["proof object, its bytes, and the verifier's verdicts"])

p("C05","Hash-model proofs: no proof that validates states anything false",
 "If a proof validates against the root of a state, the key it names has in that state the value commitment the proof shows, or is absent if it shows absence. This holds for every proof object an adversary can build or obtain by editing, truncating, extending, re-labelling or recombining honest proofs and their bytes. Validation of such an object ends with an error or a true statement, and never with a crash.",
 ["inputs"],
 "All proof objects over all states: honest proofs of one key re-labelled to other keys, edited fields, spliced paths, other arity/hash-size labels, mutated bytes.",
 "Tests only validate honest proofs and a proof against a wrong root or value; soundness quantifies over all proof objects.",
 [BV,BP,B],[("recomputation of the root along the path","models/trie_blake2b/trie_blake2b_verify/verify.go verify/hashIt"),("classification of the claim","models/trie_blake2b/trie_blake2b_verify/verify.go MustKeyWithTerminal/IsProofOfAbsence/ValidateWithValue"),("parsing limits","models/trie_blake2b/proof.go Read")],
 ["verdict of the verifier together with the claim (key, value commitment or absence)"])

p("C06","KZG root is a canonical function of the key/value content",
 "After a commit, the root commitment of a trie under the polynomial-commitment model equals the commitment of the canonical 256+ tree of the current content, computed independently from the public setup. It does not depend on the history of updates, deletions, commits, persists, cache clears, reloads and clones, including those that update an existing commitment by a difference rather than from scratch. The store holds exactly the canonical nodes.",
 ["histories","inputs"],
 "Every history of operations over arbitrary byte keys and values with the KZG model.",
 "The existing KZG tests use tiny tries and few operation sequences because the model is slow, and compare runs with each other rather than with the definition.",
 [K,T,NS,KF],[("node commitment from scratch and by delta","models/trie_kzg_bn256/model.go UpdateNodeCommitment/calcNodeCommitment"),("vector layout","models/trie_kzg_bn256/model.go makeVector"),("linear combination","models/trie_kzg_bn256/fun.go commit")],
 ["root commitment, nodes and store content after commit and persist"])

p("C07","KZG proofs of inclusion: complete, refused for absent keys, stable in bytes",
 "For every committed state and every present key a proof of inclusion can be built from the trie or a reader, validates against the root with and without the stored value, and its serialized form parses back to an equal, still valid proof. For a key that is not present no proof is produced, without a failure of any kind. The proof validates with no other value and against no other root.",
 ["inputs","histories"],
 "All states reachable by update histories and all byte keys: present, absent, prefixes of stored keys that end at branching nodes, extensions, the empty key.",
 "Tests build proofs for a few present keys of small tries; absent keys at branching nodes and deep paths are not covered.",
 [KP,K,PR,KF],[("proof construction","models/trie_kzg_bn256/proof.go ProofOfInclusion"),("opening at an index","models/trie_kzg_bn256/fun.go prove/qPoly/verify"),("serialization","models/trie_kzg_bn256/proof.go Write/Read")],
 ["proof object, its bytes, verdict of validation"])

p("C08","KZG proofs of inclusion: altered or malformed proofs are rejected",
 "A proof whose terminal, any path commitment, opening, index or path length differs from an honest proof for that root is rejected, as is a proof for a key/value pair that is not in the state. Validation of any object parsed from bytes ends with an error or acceptance of a true statement, never with a crash. Bytes that are truncated, extended or contain invalid curve points are refused when parsed.",
 ["inputs"],
 "All proof objects obtainable by editing, truncating, extending, splicing or relabelling honest proofs and their bytes, over all states.",
 "Tests check honest proofs, one wrong value and one wrong root.",
 [KP,KF],[("chain of openings","models/trie_kzg_bn256/proof.go Validate"),("pairing check","models/trie_kzg_bn256/fun.go verify"),("parsing","models/trie_kzg_bn256/proof.go Read, models/trie_kzg_bn256/model.go")],
 ["verdict of validation, parse errors"])

p("C09","Trusted setup: serialization is exact, commitments open at every index",
 "A trusted setup, whether over powers of a root of unity or over the natural domain, serializes to bytes that load back to an equal setup that gives the same commitments and proofs. For every setup and every committed node vector, the opening produced for an index passes the pairing check for the true value at that index and fails for any other value or index. Setup bytes that are truncated, extended, of a length that does not fit the declared degree or with invalid points, degenerate secrets, wrong roots of unity and degrees at which the domain would repeat are refused.",
 ["inputs","configurations"],
 "All degrees, secrets, both kinds of domain, all vectors (including sparse, zero and equal entries) and all indices; all corrupted setup files.",
 "Tests use one or two seeds and degrees, and mostly the embedded setup.",
 [KT,KF,K,"models/trie_kzg_bn256/util.go","models/trie_kzg_bn256/kzg_setup/kzg_setup.go"],[("generation","models/trie_kzg_bn256/trusted.go generatePowers/generateFromNaturalDomain/precalculate"),("load","models/trie_kzg_bn256/trusted.go TrustedSetupFromBytes/read"),("openings","models/trie_kzg_bn256/fun.go prove/verify")],
 ["loaded setup fields, commitments and openings checked by an independent pairing equation"])

p("C10","Path and node encodings are injective and round-trip",
 "Unpacking a key for any path arity is inverted by packing, and encoding any unit sequence valid for the arity, of any length, is inverted by decoding; distinct sequences have distinct encodings, and non-canonical encodings and units outside of the arity are refused. Node data in any representable combination of path fragment, terminal, storage flags and children serializes to the documented layout, parses back to equal data, and leaves no unread or extra byte. Primitive length-prefixed fields, sizes and stream layouts follow the documented little-endian format up to their stated limits and refuse what exceeds them.",
 ["inputs","configurations"],
 "All unit sequences of all lengths for the three arities; all node data; all byte strings at and around the length limits of 8/16/32-bit prefixes.",
 "Tests encode a few random keys; boundary lengths and the flag combinations are not enumerated, and a wrong byte in the layout is invisible as long as reader and writer agree.",
 [E,ND,N,U,B],[("pack/unpack/encode/decode","trie/encode.go"),("node layout","trie/nodedata.go"),("length-prefixed primitives","trie/util.go")],
 ["encoded bytes and decoded values"])

p("C11","Malformed or fragmented input is refused, never misread and never a crash",
 "Every parser of external bytes (nodes, paths, proofs, commitments, length-prefixed fields, setups) returns an error for input that is truncated at any point, has trailing bytes or violates the format, and never panics. What it returns does not depend on how the reader delivers the bytes: one at a time, in arbitrary pieces or all at once. Whatever it accepts re-serializes to the bytes it was parsed from or to an equivalent object.",
 ["inputs","fault_sequences"],
 "All byte strings (all truncations and mutations of valid encodings, random and structured garbage) and all legal splittings of the input by the reader, including reader errors at every byte.",
 "Tests parse only complete, valid, in-memory encodings.",
 [U,E,ND,B,BP,K,KP,KT],[("length checks and full reads","trie/util.go Read*"),("path decoding checks","trie/encode.go decode16/decode2"),("node and proof readers","trie/nodedata.go Read, models/trie_blake2b/proof.go Read, models/trie_kzg_bn256/proof.go Read")],
 ["error/return value of each parser on each input and each chunking"])

p("C12","Key/value streams and dumps carry exactly what was written",
 "A stream or file of key/value pairs read back yields exactly the pairs written, in order, with exact statistics, and a dump restored into a store reproduces it. A stream that ends inside a record, or whose reader or writer fails, gives an error and never a wrong, padded or silently missing record; a consumer that stops early gets no further records, and what has been delivered stays as delivered while the stream goes on. A random stream with a fixed seed is reproducible and respects its size limits, and the command-line bench that generates, builds and scans databases through these streams agrees with the content.",
 ["inputs","crash_points","fault_sequences"],
 "All sequences of pairs (empty, maximal and large sizes), all truncation points (a crash while writing), all reader/writer fault points and chunkings, all consumer stop points.",
 "Tests write and read back one intact file.",
 [KV,U,"examples/trie_bench/main.go"],[("record format","trie/kv.go BinaryStreamWriter/BinaryStreamIterator"),("dump/undump","trie/util.go DumpToFile/UnDumpFromFile"),("random stream","trie/kv.go RandStreamIterator")],
 ["records delivered, errors, counters, file bytes"])

p("C13","Database adaptor is an exact, isolated map over its prefix",
 "Seen through the adaptor, a partition of a key/value database behaves as a map from byte keys to non-empty values: reads return the last value set, setting an empty value deletes, presence agrees with reading, and iteration yields each live pair exactly once with the prefix removed until the consumer stops, in slices that stay as delivered. Operations on one partition never read or change keys outside its prefix. Errors of the database are surfaced and never reported as absence or success.",
 ["histories","inputs","fault_sequences","schedules"],
 "All operation histories, all prefixes (empty, nested, with extreme bytes), concurrent callers on a synchronised database, and a database error at any operation.",
 "Tests use one in-memory database without faults and without neighbouring partitions.",
 [H,KV],[("prefixing","hive_adaptor/hiveadaptor.go makeKey"),("Get/Has/Set/Iterate","hive_adaptor/hiveadaptor.go HiveKVStoreAdaptor")],
 ["results of adaptor calls, raw content and call log of the database"])

p("C14","Batched updates are atomic and survive a failure at any point",
 "Updates made through the batched updater reach the database only at commit, in one atomic batch that holds both the value changes and the matching trie changes, so at every crash point the trie in the database is exactly the trie of the values in it. A commit that fails reports the error and loses nothing: after the fault is gone, committing again stores all updates made so far. After success the database equals the state of all updates, with the last update of each key winning, and it has been flushed. Several updaters over one database may take turns, each turn ending with a commit: each starts from what the others committed.",
 ["histories","crash_points","fault_sequences","configurations"],
 "All update histories and batch boundaries, a stop or an error at every database operation, all model options, partitions in any layout.",
 "Tests run fault-free batches on an in-memory database and look at the end state only.",
 [H,T,NS],[("single batch for values and trie","hive_adaptor/hiveadaptor.go HiveBatchedUpdater.Update/Commit"),("clearing only after success","hive_adaptor/hiveadaptor.go Commit")],
 ["database content after every individual database operation, commit errors"])

p("C15","Concurrent use of independent objects is race-free and gives the same results",
 "Readers over one store, their proofs and validations, separate tries over one shared commitment model, clones used each by its own goroutine, and adaptors over a synchronised database can be used concurrently without a data race. Each concurrent computation gives the result the same computation gives alone. Concurrent histories of reads and writes through the database adaptor are linearizable per key.",
 ["schedules","histories"],
 "All interleavings of concurrent readers, provers, verifiers, clones and independent tries sharing a model, a store or a database.",
 "No existing test starts a goroutine.",
 [T,NS,B,K,KT,KF,H],[("stateless reader","trie/nodestore.go nodeStore"),("stateless models","models/trie_blake2b/model.go, models/trie_kzg_bn256/model.go"),("deep clone","trie/trie.go Clone"),("shared setup is read-only","models/trie_kzg_bn256/trusted.go")],
 ["race detector reports, results per goroutine, recorded adaptor histories"])

p("C16","Storage options change storage only, never commitments or proofs",
 "Skipping value commitments below a size threshold, whatever the threshold, leaves every root, node and proof as without it, before and after reload, when the value store is kept in step; key-commitment optimisation does so for all pairs at arity 256 and for all pairs whose value differs from the key at other arities, and at other arities commits a pair with equal key and value to the key's path, equally before and after reload. Under these options the store omits exactly the commitments that are derivable from the value or from the key. Reading without a required value store or with a missing value is reported and never yields a different commitment.",
 ["histories","inputs","configurations"],
 "All thresholds (0, around the hash size, larger than all values), with and without key-commitment optimisation, all arities and hash sizes, all histories with persists and reloads, values equal to keys included.",
 "Tests compare a few option combinations by size and root on one random data set; values equal to keys at the root node, around the threshold and mixed histories are not covered.",
 [N,ND,T,B],[("which terminals are stored","trie/node.go bufferedNode.Bytes, models/trie_blake2b/model.go ForceStoreTerminalWithNode"),("derivation at load","trie/nodedata.go Read"),("key commitments","trie/trie.go Update/InsertKeyCommitment")],
 ["roots, nodes, proofs and stored bytes across option variants"])

p("C17","Reconciliation lists exactly the mismatches; mass update builds the store's trie",
 "Comparing a trie with a key/value store returns exactly the keys of the store whose pair is not committed in the trie, each once: keys missing from the trie, keys with a different value, and nothing else. It works for every trie, including an empty one, for every storage option and for pending as well as committed state, and changes nothing in the trie, its root included. Mass-updating an empty trie from a store gives the root of that store's content and an empty reconciliation; in general a mass update equals updating pair by pair in the order of the store's iteration, where an empty value deletes.",
 ["inputs","histories","configurations"],
 "All pairs of trie content and store content, over all arities, hash sizes and options.",
 "Tests reconcile identical contents and one or two manual mismatches.",
 [T,PR],[("reconciliation","trie/trie.go Reconcile"),("mass update","trie/trie.go UpdateAll")],
 ["returned key lists, roots"])

p("C18","Different contents have different roots",
 "Two different sets of key/value pairs never have the same root commitment, whatever the keys and values are. In particular moving a byte between key and value, between path parts or levels, exchanging values, changing only lengths, or replacing a value by its hash changes the root. The empty content is the only one without a root.",
 ["inputs","configurations"],
 "All pairs of distinct contents, all arities and hash sizes and the KZG model, up to collisions of the hash function.",
 "Tests only check that equal contents have equal roots.",
 [B,K],[("slot layout of the node vector","models/trie_blake2b/model.go HashTheVector/makeHashVector/CommitToDataRaw"),("slot layout of the polynomial","models/trie_kzg_bn256/model.go makeVector")],
 ["root commitments of families of near-identical contents"])

p("C19","In-memory key/value store is an exact map",
 "The in-memory store returns for every key the last value set, treats an empty or nil value as deletion, reports presence in agreement with reading, and iterates over each live pair exactly once until the consumer stops. Distinct byte keys never interfere. The helper functions that count entries and bytes of an iterator agree with its content.",
 ["histories","inputs"],
 "All operation histories over arbitrary byte keys and values.",
 "Tests use the store as a fixture and do not check its own contract.",
 [KV,U],[("map semantics","trie/kv.go inMemoryKVStore"),("counters","trie/util.go ByteSize/NumEntries")],
 ["results of store calls against a model map"])

p("C20","Caller-owned buffers and returned results do not alias internal state",
 "After a call that takes a key or value returns, the caller may overwrite its buffers without changing any later root, proof, node or persisted byte of the trie. A proof obtained earlier stays valid for its root, and its bytes stay the same, whatever is done to the trie afterwards. Persisted data, commitments and nodes read from a store are not changed by later operations (nodes of an updatable trie are live views), and overwriting a returned serialization or editing a returned proof in place has no effect on the trie.",
 ["histories","inputs"],
 "All operation histories in which every caller buffer is overwritten right after each call, and every earlier result is re-examined after later operations.",
 "Tests always pass fresh, never reused buffers and use proofs at once.",
 [T,NS,E,BP,KP,B],[("copying of keys","trie/encode.go UnpackBytes, trie/nodestore.go getNode"),("proofs detached from the cache","models/trie_blake2b/proof.go Proof, models/trie_kzg_bn256/proof.go ProofOfInclusion")],
 ["roots, proofs, persisted bytes after buffers are overwritten"])

p("C21","Work is local to the touched paths",
 "An update, deletion or proof on a persisted trie reads only nodes on the path of its key and their direct children, so its store reads are bounded by a small multiple of the path length whatever the size of the trie. A commit recomputes only nodes on the paths changed since the last commit, and a commit without changes recomputes nothing. A persist after a cache clear writes only nodes that were read or changed since then, and so does each commit of the batched updater.",
 ["histories","inputs"],
 "All tries and all update sequences on them.",
 "Tests check results, not the amount of work; a lost 'unmodified' shortcut leaves all results the same.",
 [T,NS,PR],[("modification marks","trie/trie.go markModifiedCommitmentsBackToRoot/commitNode"),("cache","trie/nodestore.go getNode")],
 ["counted store reads, node-commitment computations and store writes"])

p("C22","The trie is correct over every conforming commitment model",
 "For every implementation of the commitment-model interface that follows its documented contract, whatever the size of its commitments, whichever terminals it wants stored with the node, at every path arity and storage option, the root is the model's commitment to the canonical tree of the current content, so it commits to exactly the current pairs; stored nodes, reloads, clones, cache clears, reads, reconciliation and mass update behave as for the built-in models. The trie hands the model consistent data: children and path units within the arity, terminals that are present or nil, and an incremental update only with the commitment of the previous data.",
 ["histories","inputs"],
 "All operation histories over all conforming models, arities and options.",
 "Tests use the two built-in models only, whose commitments have a fixed size, hide what they commit to, and ignore part of the interface.",
 [T,NS,ND,N,"trie/model.go","trie/commitment.go"],[("calls of the model","trie/trie.go commitNode, RootCommitment, commitToValue; trie/node.go bufferedNode.Bytes"),("commitments of any size in nodes","trie/nodedata.go Write/Read")],
 ["content read back from a root that describes it; calls the model receives; store and nodes"])

p("C23","Lookups follow the canonical path and end as the content demands",
 "For every key, present or not, the generic path of the key in a trie, a clone, a reader or a reopened trie lists exactly the nodes of the canonical tree on the way to that key, from the root down, and its ending code tells whether the key ends at a node, inside a path fragment, or at a missing child. A node can be fetched at exactly the keys of the canonical tree, and reports its own key, path fragment and terminal. With pending updates the trie shows the path of the pending content, and a reader of its store that of the persisted content.",
 ["histories","inputs"],
 "All tries, pending or committed, and all keys.",
 "Tests look keys up only through proofs of a few keys, and never compare the nodes on the way.",
 [PR,T,NS,N],[("path walk","trie/proof.go proofPath, GetProofGeneric, commonPrefix"),("node lookup","trie/nodestore.go getNode")],
 ["paths, ending codes and nodes returned for probe keys"])

p("C24","A failing store is surfaced and leaves the trie as it was",
 "When the store below a trie fails at any read during an update, deletion, lookup, proof, reconciliation or commit, the failure reaches the caller, and the pending and committed state of the trie is as before the call: giving the operation up has no effect, and repeating it after the fault is gone gives the result as if nothing had failed. A persist that fails at any write, whether or not the write took effect, can be repeated until it succeeds, and the store then holds exactly the nodes of the committed state; until then the trie still serves that state.",
 ["fault_sequences","histories"],
 "All operation histories and all accesses of the stores at which a failure, or a run of failures, can occur.",
 "Tests use in-memory stores, which never fail.",
 [T,NS,PR],[("reads before changes","trie/trie.go Delete, fetchOnlyChild; Update, splitNode"),("cache","trie/nodestore.go getNode, persistMutations")],
 ["roots, nodes, stores after injected failures at chosen accesses"])

p("C25","Long keys, deep and wide tries: exact up to the format limits",
 "Keys of any length, chains of nested keys of any depth and nodes with every possible child work exactly like small ones: roots, stored nodes, reloads and proofs are those of the canonical tree, also when path fragments become long or short by splits, deletions and merges, and around every width of a length prefix (255/256, 65535/65536 encoded bytes). What the stored form or the proof form can not express, a path fragment or key whose encoding is longer than 65535 bytes, is refused loudly when it is persisted or serialized: no wrong bytes are stored or returned, a batched commit is refused as a whole, and after the key is deleted the trie persists and proves exactly.",
 ["histories","inputs"],
 "All operation histories over keys of all lengths, all depths and fan-outs, at every arity and option.",
 "Tests use keys of at most some hundred bytes; nothing reaches the limits of the length prefixes, or depths and fan-outs of the thousands.",
 [T,NS,ND,PR,"trie/encode.go","trie/util.go","models/trie_blake2b/proof.go","models/trie_kzg_bn256/proof.go"],[("length prefixes","trie/util.go WriteBytes16/ReadBytes16; trie/nodedata.go Write; Proof.Write"),("splits and merges","trie/trie.go splitNode, mergeNode")],
 ["roots, stores, proofs of tries with extreme keys; failures of persist and serialization"])

p("C26","Guarantees hold at scale and over long lives",
 "Nothing depends on how long an object has been in use or how much it holds. A trie, its model, its store and a reader that lived through any number of updates, commits, persists and cache clears, or a clone of a clone of any generation, behave like fresh ones on the same content. Tries of any number of pairs, filled, changed, thinned or emptied in one batch, have the roots, stored nodes, lookups, proofs and reconciliation of their content. Streams, dumps, in-memory stores, adaptors and iterations of any number of records are complete and exactly counted; batches of any number of updates stay atomic, and an updater can make any number of commits; a proof validates the same however many were validated before.",
 ["histories","inputs"],
 "All numbers of operations and of pairs.",
 "Tests use fresh objects, some hundred operations and at most some thousand pairs; counters, buffers and caches that fill up or wrap around never do.",
 [T,NS,KV,U,H,BP,BV],[("node cache","trie/nodestore.go nodeStoreBuffered"),("counters and buffers of streams","trie/kv.go"),("batches","hive_adaptor/hiveadaptor.go HiveBatchedUpdater")],
 ["roots, stores, proofs, counts after many operations and for many pairs"])

p("C27","Calls that make no sense are refused and have no effect",
 "A key commitment for the empty key, a key or value that is neither bytes nor a string, a concatenation of unsupported types, commitment bytes of a wrong length, a proof asked from a model over a trie it can not prove, and roots of unity of an impossible degree are refused by an error or a panic and never carried out as something else. A node is never found at a path that is in no key or has units outside of the arity. Whatever was refused, at any point of a history, the committed state, the pending updates and the store are as before, and work continues as if the call had not been made. Persisting before pending updates are committed is refused or made good by the persist after the commit, whose store is exact.",
 ["histories","inputs"],
 "All points of all histories at which such a call can be made, all arguments which do not fit, at every arity and option.",
 "Tests never make such calls, least of all in the middle of a history with pending updates.",
 [T,NS,N,U,KP,"models/trie_kzg_bn256/util.go"],[("argument checks","trie/trie.go InsertKeyCommitment, UpdateStr, DeleteStr, VectorCommitmentFromBytes"),("nodes which can not be serialized","trie/node.go bufferedNode.Bytes, trie/nodedata.go Write"),("assertions","trie/util.go Assert, Concat; models/trie_kzg_bn256/proof.go ProofOfInclusion")],
 ["panics and errors of the calls; root, pending content, nodes and store after them"])

with open(os.path.join(os.path.dirname(__file__),"..","properties.jsonl"),"w") as f:
    for x in P:
        assert len(x["title"])<=80,(x["id"],len(x["title"]))
        f.write(json.dumps(x)+"\n")
print(len(P))
