#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from properties.jsonl and the checks that are built."""
import json, subprocess, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
built = {l.split()[0]: l.split()[1] for l in subprocess.check_output([V + '/.build/mc', 'list']).decode().splitlines()}
BFS = 'explicit-state breadth-first search of the real library (every transition executes it) compared with a symbolic model; leaf traces replayed with in-memory stores'
TECH = {
 'S05': 'bounded-exhaustive enumeration of inputs (grammar, mutations) in every kind of receiver state, executed on the real library',
 'W01': 'bounded-exhaustive enumeration of message fields, executed on the real library against an independent encoder',
 'S11': 'exhaustive enumeration of crash points at every store call over all bounded histories, with recovery, against a symbolic model',
 'E01': 'exhaustive enumeration of short reads and failing reads of the random source for every operation',
 'C01': 'preemption-bounded exhaustive schedule exploration of the real code under a cooperative scheduler, plus race detection',
 'C02': 'exhaustive schedule exploration of the real code under a cooperative scheduler',
}
for k in 'K01 K02 K03 K04 K05 K06'.split():
    TECH[k] = 'bounded-exhaustive enumeration of inputs, executed on the real library against an independent implementation'
for k in ('S13', 'S14', 'G04'):
    TECH[k] = 'explicit-state search of the real library with a Dolev-Yao closure of attacker knowledge in every state'
for k in ('S06', 'S19', 'G07'):
    TECH[k] = 'explicit-state search of the real library in composition with an independent reference implementation'
NOTE = 'Holds for every member of the enumerated bounded space (listed per scenario in the evidence, with states, transitions and replayed traces); trusts the Go standard library primitives used by the oracle and says nothing beyond the bounds.'
props = [json.loads(l) for l in open(V + '/properties.jsonl')]
m = {'version': 1, 'setup_cmd': './build.sh', 'hooks': {'guard': 'verif', 'enable': 'no hooks are needed; the checks use the public API only', 'source_commits': []},
     'checks': [], 'not_applicable': [], 'notes': 'See DESIGN.md. Replays: .build/mc replay replays/<ID>.json'}
for p in props:
    i = p['id']
    if i in built:
        m['checks'].append({'property': i, 'quick_cmd': './check.sh ' + i, 'thorough_cmd': './check.sh ' + i,
            'evidence_file': 'evidence/%s.json' % i, 'technique': TECH.get(i, BFS), 'level': built[i], 'level_note': NOTE})
    else:
        m['not_applicable'].append({'property': i, 'reason': 'check not built yet'})
json.dump(m, open(V + '/MANIFEST.json', 'w'), indent=1)
open(V + '/MANIFEST.json', 'a').write('\n')
