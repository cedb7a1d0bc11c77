#!/usr/bin/env python3
"""Writes MANIFEST.json. CHECKS lists the properties which are decided."""
import json,os,re
here=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SCOPE="Runtime monitoring: holds on the executions observed (seeded workloads, counts in the evidence file), not a proof for all. "
C={
'C01':('online checker of random operation histories against an independent canonical-tree model','Trusts the model in harness/oracle.go and x/crypto blake2b.'),
'C02':('store monitor: exact comparison of persisted bytes with the canonical node set, reload differential','Trusts the model of the stored form in harness/oracle.go.'),
'C03':('differential monitoring of clones, cache drops and inserted reads with per-copy shadow state','Clones share an immutable base store; persisting is audited on a private copy of it.'),
'C04':('online checker of proofs (verdict, classification, byte round trip, sub-state) against the canonical tree','Trusts blake2b collision resistance. One listed finding: raw value and hash share a slot.'),
'C05':('adversarial workload (forged, edited, spliced proofs and bytes) with a truth oracle on every accepted object; crash monitor','Trusts blake2b collision resistance. Objects accepted only because of zero padding or value/hash ambiguity of the slots are attributed to listed findings.'),
'C06':('online checker of random histories against an independent polynomial commitment of the canonical tree; direct monitor of incremental updates','Trusts kyber bn256 and the public setup points (checked by C09).'),
'C07':('online checker of KZG proofs over random states with byte round trip','Trusts kyber bn256.'),
'C08':('adversarial workload on KZG proofs and bytes with a truth oracle; crash monitor','Trusts hardness assumptions of KZG. One listed finding: key of the proof is not bound to its path.'),
'C09':('monitor of openings by an own pairing equation, serialization round trip and corruption','Trusts kyber bn256 pairing.'),
'C10':('exhaustive small-domain and random round-trip / injectivity monitor against an independent codec','Trusts the codec in harness/oracle.go.'),
'C11':('fault-injecting readers and byte mutations on every parser, crash and equivalence monitor','Unknown flag bits are accepted by the parser; only equivalence of the object is demanded.'),
'C12':('fault injection at every byte and call of streams and dumps, end-to-end monitor of the bench process','Trusts the operating system to deliver file data.'),
'C13':('reference-map monitor over recorded and faulty databases, fault at every call','mapdb and badger of hive.go are trusted as databases.'),
'C14':('fault enumeration at every database operation of commit and crash-point consistency monitor','The database is atomic per batch commit, as documented by hive.go.'),
'C15':('Go race detector on concurrent workloads, serial-result oracle, linearizability checker (porcupine)','Races are found only on schedules that occur; the race detector reports by happens-before.'),
'C16':('differential monitoring across storage options with byte-exact store oracle','Trusts the model in harness/oracle.go.'),
'C17':('reconciliation compared with a set difference computed from contents','Trusts the model in harness/oracle.go.'),
'C18':('root collision monitor over families of near-identical contents','Listed findings: zero padding and missing tags of slots of the hash model, and key commitments at arity 2 and 16.'),
'C19':('reference-map monitor over random operation sequences','None beyond the reference map.'),
'C20':('buffer-scribbling workload with byte-exact comparison of later roots, proofs and stores','Buffers are overwritten right after the call returns.'),
'C21':('access-counting store and model, bounds checked per operation','Bounds are a small multiple of the path length.'),
'C22':('commitment models of the monitor (one whose root describes its content, one homomorphic) with a contract checker on every call','Trusts the models in harness/toy.go, which are small.'),
'C23':('online checker of lookups against the path in the canonical tree','Trusts the model in harness/oracle.go.'),
'C24':('fault injection at every store access with a shadow state; operations given up or repeated','A failing store panics, as the adaptor of the repository does.'),
'C25':('online checker of roots, stores, proofs and refusals at the size limits against the canonical tree','Trusts the model in harness/oracle.go. Keys up to about 131 KB, depths up to about 6000 nodes (12000 in the thorough tier).'),
'C26':('online checker of roots, stores, proofs, counts and atomicity in very long histories and on very large contents against the canonical tree and model maps','Trusts the model in harness/oracle.go. Up to about 70000 rounds and 76000 pairs in the quick tier; what shows later only is out of reach.'),
'C27':('misuse injected into random histories, with a monitor of refusals and a comparison of state, pending content and stores with the canonical tree','A premature persist may be refused or carried out; the store is judged after the next commit and persist.'),
}
faults={'C12','C13','C14','C11'}
done=[]
for l in open(here+'/properties.jsonl'):
    pid=json.loads(l)['id']
    if os.path.exists(f'{here}/harness/{pid.lower()}.go'): done.append(pid)
checks=[]
for pid in done:
    src=open(f'{here}/harness/{pid.lower()}.go').read()
    m=re.search(r'level:\s*"(\w+)"',src)
    tech,note=C[pid]
    checks.append({'property':pid,'quick_cmd':f'bash check.sh {pid}','thorough_cmd':f'VERIF_TIER=thorough bash check.sh {pid}',
      'evidence_file':f'evidence/{pid}.json','technique':tech,'level':m.group(1) if m else 'exploration','level_note':SCOPE+note})
na=[{'property':p,'reason':'check not written yet'} for p in C if p not in done]
m={'version':1,'setup_cmd':'bash setup.sh','checks':checks,'not_applicable':na,'notes':'No hooks in /repo: all monitors work through the exported API. Known findings: known_findings.txt.'}
json.dump(m,open(here+'/MANIFEST.json','w'),indent=1)
print(len(checks),'checks')
