#!/usr/bin/env python3
"""Development aid: applies the changes that mc/mutate lists one at a time to scratch copies
of /repo; those that build and pass the tests are given to the checks.

usage: mutate.py filter MUTANTS OUT WORKERS       which ones build and pass the tests
       mutate.py check SURVIVORS OUT WORKERS [all]  which check notices them"""
import json, os, subprocess, sys, tempfile, threading, queue, time
here = os.path.dirname(os.path.abspath(__file__))
mode, src, dst, workers = sys.argv[1], sys.argv[2], sys.argv[3], int(sys.argv[4])
full = len(sys.argv) > 5
S = 'S17 S06 S08 S20 S07 S16 S01 S13 S14 S04 S10 S02 S12 S09 S03 S11 S18'.split()
G = 'G04 G01 G05 G07 G02 G06 G03'.split()
K = 'K02 K03 K04 K05 K06 K01 W01'.split()
import os
if os.environ.get('FAST'):
    S = 'S17 S06 S08 S20'.split(); G = 'G04 G01'.split(); K = 'K02 K04 K05 K03 K06 W01'.split()
SLOW = 'S15 S19 L01 E01 S05'.split()
def order(f):
    if f.startswith('groups/'):
        return G + ([] if os.environ.get('FAST') else ['E01', 'L01', 'S05']) + (['W01', 'S01'] if full else [])
    if f.startswith(('session/', 'ratchet/', 'state/', 'keys/')):
        return S + ([] if os.environ.get('FAST') else ['K04', 'K06'] + (SLOW if full else ['E01']) + (G[:2] if full else []))
    if f.startswith(('protocol/', 'serialize/')):
        return 'W01 S17 G04'.split() + ([] if os.environ.get('FAST') else 'S12 S10 G03 G06 S04 S03 S05'.split()) + (['S19', 'S06', 'S08', 'S02', 'L01', 'S18', 'S11'] if full else [])
    if f.startswith(('logger/',)):
        return ['L01', 'C01']
    return K + ['G04', 'S06'] + ([] if os.environ.get('FAST') else ['E01', 'S01', 'S12']) + (['G01', 'S05', 'L01', 'C02', 'C01'] if full else ['C02'] if 'Async' in '' else [])
todo = queue.Queue()
seen = set()
if os.path.exists(dst):
    for l in open(dst):
        m = json.loads(l); seen.add((m['File'], m['From'], m['To'], m['New']))
for l in open(src):
    m = json.loads(l)
    if (m['File'], m['From'], m['To'], m['New']) in seen or mode == 'check' and m.get('result') != 'passes':
        continue
    todo.put(m)
lock = threading.Lock()
def sh(cmd, cwd, timeout):
    try:
        r = subprocess.run(['bash', '-c', '. /opt/vp/env.sh; ulimit -v 12000000; ' + cmd], cwd=cwd, capture_output=True, text=True, errors='replace', timeout=timeout)
        return r.returncode, r.stdout + r.stderr
    except subprocess.TimeoutExpired:
        return 124, 'timeout'
def work(i):
    tree = '/tmp/mutw/w%d' % i
    subprocess.run(['rm', '-rf', tree]); os.makedirs(tree)
    subprocess.run(['cp', '-a', '/repo/.', tree], check=True)
    build = '/tmp/mutw/b%d' % i
    os.makedirs(build, exist_ok=True)
    mod = open('/verif/mc/go.mod').read().replace('=> /repo', '=> ' + tree)
    open(build + '/go.mod', 'w').write(mod)
    subprocess.run(['cp', '/verif/mc/go.sum', '/verif/known-findings.txt', build], check=True)
    while True:
        try: m = todo.get_nowait()
        except queue.Empty: return
        p = os.path.join(tree, m['File'])
        old = open(p, 'rb').read()
        open(p, 'wb').write(old[:m['From']] + m['New'].encode() + old[m['To']:])
        t0 = time.time()
        try:
            if mode == 'filter':
                rc, out = sh('go build ./... ', tree, 120)
                if rc: m['result'] = 'no build'
                else:
                    rc, out = sh('go test -vet=off -timeout 60s ./tests/... ./util/... ./ecc/... ./fingerprint/... ./keys/...', tree, 120)
                    m['result'] = 'tests fail' if rc else 'passes'
            else:
                rc, out = sh('cd /verif/mc && go build -modfile %s/go.mod -o %s/mc .' % (build, build), '/tmp', 300)
                m['result'] = 'missed'
                if rc: m['result'] = 'explorer does not build'
                else:
                    for c in order(m['File']):
                        rc, out = sh('VERIF_DIR=%s timeout 600 %s/mc run %s' % (build, build, c), '/tmp', 620)
                        if 'VIOLATION' in out:
                            m['result'] = 'caught'; m['by'] = c; m['how'] = out[:300]; break
                        if ' held' not in out:
                            m['result'] = 'no answer'; m['by'] = c; m['how'] = out[-600:]; break
        finally:
            open(p, 'wb').write(old)
        m['secs'] = round(time.time() - t0)
        with lock:
            open(dst, 'a').write(json.dumps(m) + '\n')
ts = [threading.Thread(target=work, args=(i,)) for i in range(workers)]
[t.start() for t in ts]; [t.join() for t in ts]
