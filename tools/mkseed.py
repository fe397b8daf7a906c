#!/usr/bin/env python3
"""Makes /verif/seeded/<id>/ from the definitions in tools/seeds/*.py.

usage: mkseed.py [ID...]      (all without arguments)

Every definition is validated in a scratch copy of /repo: the patch applies,
the tree builds, its tests pass, the demonstration passes without and fails
with the patch.  Only then is the directory written."""
import glob, json, os, re, shutil, subprocess, sys, tempfile
here = os.path.dirname(os.path.abspath(__file__))
kit = os.path.join(here, 'seedkit')
env = dict(os.environ)

def sh(cmd, cwd, **kw):
    return subprocess.run(['bash', '-c', '. /opt/vp/env.sh; ' + cmd], cwd=cwd, capture_output=True, text=True, **kw)

seeds = {}
def seed(id, prop, needs, breaks, edits, demo, imports=(), race=False):
    assert id not in seeds, id
    seeds[id] = dict(prop=prop, needs=needs, breaks=breaks, edits=edits, demo=demo, imports=list(imports), race=race)

for f in sorted(glob.glob(os.path.join(here, 'seeds', '*.py'))):
    exec(compile(open(f).read(), f, 'exec'))

L = 'github.com/prospik/libsignal-protocol-go/'
SHORT = {'protocol': L+'protocol', 'gratchet': L+'groups/ratchet', 'medium': L+'util/medium', 'ecc': L+'ecc', 'proto': L+'protocol', 'record': L+'state/record', 'grecord': L+'groups/state/record', 'logger': L+'logger',
         'message': L+'keys/message', 'prekey': L+'keys/prekey', 'identity': L+'keys/identity', 'serialize': L+'serialize',
         'keyhelper': L+'util/keyhelper', 'optional': L+'util/optional', 'cipher': L+'cipher', 'kdf': L+'kdf',
         'fingerprint': L+'fingerprint', 'provision': L+'provision', 'ratchet': L+'ratchet', 'session': L+'session',
         'bytehelper': L+'util/bytehelper', 'groups': L+'groups', 'curve': 'golang.org/x/crypto/curve25519',
         'complete': 'github.com/RadicalApp/complete', 'chain': L+'keys/chain', 'root': L+'keys/root', 'hkdf': 'golang.org/x/crypto/hkdf'}
ALIAS = {'gratchet': 'gratchet', 'proto': 'protocol', 'grecord': 'grecord', 'curve': 'curve25519'}

def demo_source(s):
    lines = ['package zzdemo', '', 'import (', '\t"testing"']
    for i in s['imports']:
        path = SHORT.get(i, i)
        al = ALIAS.get(i)
        lines.append('\t%s"%s"' % (al + ' ' if al and not path.endswith('/' + al) else '', path))
    lines += [')', '', s['demo'].strip('\n'), '']
    return '\n'.join(lines)

ok = True
want = sys.argv[1:] or sorted(seeds)
for id in want:
    s = seeds[id]
    tree = tempfile.mkdtemp(prefix='seed-', dir='/tmp')
    try:
        subprocess.run(['cp', '-a', '/repo/.', tree], check=True)
        out = os.path.join(tree, '..', os.path.basename(tree) + '-out')
        os.makedirs(out)
        for f in os.listdir(kit):
            shutil.copy(os.path.join(kit, f), out)
        open(os.path.join(out, 'demo_test.go.txt'), 'w').write(demo_source(s))
        if s['race']:
            d = os.path.join(out, 'demo.sh'); t = open(d).read(); open(d, 'w').write(t.replace('here=$(', 'RACE=1\nhere=$(', 1))
        os.chmod(os.path.join(out, 'demo.sh'), 0o755)
        r = sh('bash %s/demo.sh' % out, tree)
        if r.returncode != 0:
            print(id, 'FAIL: demo fails on the unchanged tree:\n', r.stdout[-3000:], r.stderr[-2000:]); ok = False; continue
        for f, old, new in s['edits']:
            p = os.path.join(tree, f); t = open(p).read()
            if t.count(old) != 1:
                raise SystemExit('%s: %d matches in %s for:\n%s' % (id, t.count(old), f, old))
            open(p, 'w').write(t.replace(old, new))
        for f in {e[0] for e in s['edits']}:
            sh('gofmt -l ' + f, tree)
        diff = sh('git diff', tree).stdout
        r = sh('go build ./... && go vet ./session ./state/... >/dev/null 2>&1; go test -vet=off -count=1 ./...', tree)
        if r.returncode != 0:
            print(id, 'FAIL: build or tests:\n', r.stdout[-3000:], r.stderr[-2000:]); ok = False; continue
        # the patch has to change lines of the original repository
        base = {}
        orig = 0
        cur = None
        for line in diff.splitlines():
            if line.startswith('--- a/'):
                cur = line[6:]
                b = sh('git show 1194aae:' + cur, '/repo').stdout.splitlines()
                base = set(x.strip() for x in b)
            elif line.startswith('-') and not line.startswith('---') and line[1:].strip() and line[1:].strip() in base:
                orig += 1
        r = sh('bash %s/demo.sh' % out, tree)
        if r.returncode == 0:
            print(id, 'FAIL: demo passes with the patch'); ok = False; continue
        why = [l for l in (r.stdout + r.stderr).splitlines() if 'demo_test.go' in l or 'kit_test.go' in l or 'panic' in l or 'RACE' in l][:2]
        if 'build failed' in r.stdout or 'setup failed' in r.stdout:
            print(id, 'FAIL: demo does not build with the patch', r.stdout[-1500:], r.stderr[-1500:]); ok = False; continue
        dst = '/verif/seeded/' + id
        shutil.rmtree(dst, ignore_errors=True)
        shutil.copytree(out, dst)
        open(os.path.join(dst, 'patch.diff'), 'w').write(diff)
        json.dump({'property': s['prop'], 'needs': s['needs'], 'what_it_breaks': s['breaks']}, open(os.path.join(dst, 'meta.json'), 'w'), indent=1)
        print(id, 'ok' + ('' if orig else ' (NO ORIGINAL LINE REMOVED)'), '|', ' / '.join(w.strip() for w in why), flush=True)
    finally:
        shutil.rmtree(tree, ignore_errors=True)
        shutil.rmtree(os.path.join('/tmp', os.path.basename(tree) + '-out'), ignore_errors=True)
sys.exit(0 if ok else 1)
