#!/usr/bin/env python3
"""Regenerates MANIFEST.json and known_findings.json from the tables below
(a maintenance helper; no check runs it)."""
import json, subprocess, os
here=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props=[json.loads(l) for l in open(here+'/properties.jsonl')]
built=set(subprocess.check_output([here+'/build/vh-remote','-list'],text=True).split()[::2])
T={
'C01':'reference-model monitor over generated operation histories (all lookups audited)',
'C02':'reference-model monitor of removals, every survivor audited',
'C03':'cross-checking monitor of all existence answers against a reference model',
'C04':'reference-model monitor of extraction results, with mutation probes of the results',
'C05':'differential monitor: view operations against full-key operations on a reference model',
'C06':'reference-model monitor of metadata and callbacks',
'C07':'twin-model monitor: copy and original driven independently after the copy',
'C08':'reference-model monitor of modified marks; recorded writes of fake provider and codec',
'C09':'event-log monitor: expected against recorded handler calls',
'C10':'reference-model monitor of loads and merges through fake providers',
'C11':'round-trip monitor over generated documents, corrupted input monitor',
'C12':'table-driven value oracle over generated values and representations',
'C13':'event-log monitor with real timers, goroutine-leak monitor',
'C14':'independent route matcher as the oracle over generated pattern sets',
'C15':'race detector plus per-goroutine result comparison under stress',
'C16':'event-log monitor of watched changes fed through a fake provider',
'C17':'hostile-input stress with panic, hang and memory monitors',
'C18':'round-trip and differential monitor (standard library as the oracle)',
'C19':'source-data oracle over generated environments, flag sets, maps and files',
'C20':'fault injection with before/after snapshot comparison',
'C21':'reference-model monitor of the dumped text and the JSON form',
'C22':'state-comparison monitor against stand-in Consul and etcd servers, goroutine monitor',
'C23':'round-trip and reference-model monitor (standard library as the oracle)',
}
F={'C20':'fault_enumeration'}
checks=[];na=[]
for p in props:
    i=p['id']
    if i not in built:
        na.append({'property':i,'reason':'its check is not finished yet'}); continue
    checks.append({'property':i,'quick_cmd':f'./check.sh {i}','thorough_cmd':f'VERIF_TIER=thorough ./check.sh {i}','evidence_file':f'evidence/{i}.json',
      'technique':'runtime monitoring: '+T[i],'level':F.get(i,'exploration'),
      'level_note':'Holds on every execution explored (generated, seeded workloads on the real code, judged through the public API only); no claim beyond the executions, key/value domains and limits named in DESIGN.md. Trusts the Go toolchain and the reference model in harness/.'})
json.dump({'version':1,'setup_cmd':'./setup.sh','checks':checks,'not_applicable':na,
 'notes':'No hooks in /repo are needed: the monitors observe the public API, provider/codec stubs, handlers, goroutines and the race detector. All commits in /repo are fix: commits.'},open(here+'/MANIFEST.json','w'),indent=1)
open(here+'/MANIFEST.json','a').write('\n')
X='''2443663 C01 a key set on an internal splitting node was not found again
9ca0a06 C03 an internal splitting node (part of a segment) was reported as an existing path
efd9098 C02 Remove deleted siblings sharing leading characters, or nothing at all
fdfeac9 C04 keys of split non-ASCII paths were reported wrongly
a7cf3b3 C06 SetComment/SetTag on an absent path changed another key
543097e C04 GetM/GetR returned foreign keys or lost keys for a path
65ff32f C07 Dup/Clone lost description, comment and tag
c3be1a7 C17 Store.RecursiveMode recursed forever
7d56d14 C06 SetNode ignored its tag argument
e8c7d1a C06 SetEx invoked its callback twice or not at all
4e171f4 C06 Update on an existing key wiped its value
a9afe5a C05 Store.Merge on a prefixed store ignored its prefix
6b2b374 C10 Trie.Merge misplaced nested maps and slices and panicked on nil
dca520f C13 Store.Close did not stop pending TTL jobs
ba97fa6 C13 each prefixed copy started (and leaked) a TTL service
b2677e9 C13 a TTL job cleared another key after its node had been split
a9fedeb C10 Load dropped desc, comment and tag given by a provider
46d9b29 C09 the mergingMapOrLoading argument of handlers was inverted
0d5ff9f C10 loading a stream-only provider always failed
6bce73e C16 Close did not close watchers loaded with a store prefix
69c843e C11 the gob codec lost the encoded bytes and broke at its second use
f520826 C11 the json codec discarded the pretty-printed result
c479515 C19 env/flags providers reported end-of-list while keys remained
c831bc4 C19 flags.WithPrefix never matched a lower-case flag name
e47e7c4 C14 a ':id' pattern was not matched depending on value length and siblings
21a4f57 C05 a BR() lookup stopped at a partially matched node
43e2fbf C05 Remove/SetTag/SetComment/SetTTL on a BR() store changed a parent's key
61ed044 C18 SmartDurationString panicked for math.MinInt64
f8072a3 C17 FromKibiBytes/FromKiloBytes panicked on a non-ASCII space
cd3f5f7 C18 Op.UnmarshalText rejected the text made by Op.MarshalText
b3140a0 C18 cvt.Deflate lost or misplaced keys below a key with a value
3df743c C15 concurrent To/GetSectionFrom/Dup on independent stores raced
642ceb4 C14 a partial match of a ':id' pattern returned no node
a906cbf C14 a stored ':id' key was not found by itself next to a '*path' sibling
5560a97 C01 setting a new key on a splitting node returned a zero value as old data
4c4fb46 C09 the first Set on a parent path fired OnChange instead of OnNew
a6bc332 C08 a key modified by the user stayed dirty after being reloaded
ce30f31 C11 the yaml codec's Load always failed and leaked the file
5ec9294 C17 typed getters hung on []byte values and panicked on malformed lists/maps
053a299 C07 Dup changed type or content of pointers, nil, empty and unexported data
4fd676d C17 To(&map) and the maps provider took exponential time on deeply nested data'''
extra=here+'/tools/fixed.txt'
if os.path.exists(extra): X+='\n'+open(extra).read().strip()
fixed=[]
for l in X.splitlines():
    c,p,w=l.split(' ',2); fixed.append(f'fixed: property={p} {c} {w}')
kf=here+'/known_findings.json'
old=json.load(open(kf)) if os.path.exists(kf) else {'findings':[]}
json.dump({'findings':old['findings'],'fixed':fixed},open(kf,'w'),indent=1)
open(kf,'a').write('\n')
