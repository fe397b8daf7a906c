#!/usr/bin/env python3
"""Applies the behaviour-preserving edits of tools/refactors/*.py, one set at a time, to a
scratch copy of /repo and runs the checks on it: every check has to stay quiet.

usage: refactor.py [-k CHECK,CHECK...] [ID...]"""
import glob, os, subprocess, sys, tempfile
here = os.path.dirname(os.path.abspath(__file__))
sets = {}
def refactor(id, edits):
    assert id not in sets, id
    sets[id] = edits
for f in sorted(glob.glob(os.path.join(here, 'refactors', '*.py'))):
    exec(compile(open(f).read(), f, 'exec'))

args = sys.argv[1:]
checks = None
if args[:1] == ['-k']:
    checks = args[1].split(','); args = args[2:]
if checks is None:
    checks = subprocess.run([os.path.join(here, '..', '.build', 'mc'), 'list'], capture_output=True, text=True).stdout
    checks = [l.split()[0] for l in checks.splitlines() if l.strip()]
def sh(cmd, cwd):
    return subprocess.run(['bash', '-c', '. /opt/vp/env.sh; ' + cmd], cwd=cwd, capture_output=True, text=True)
bad = 0
for id in args or sorted(sets):
    tree = tempfile.mkdtemp(prefix='rf-', dir='/tmp')
    try:
        subprocess.run(['cp', '-a', '/repo/.', tree], check=True)
        for f, old, new in sets[id]:
            p = os.path.join(tree, f); t = open(p).read()
            if t.count(old) != 1:
                print(id, 'EDIT does not match once:', f, t.count(old), old[:80]); break
            open(p, 'w').write(t.replace(old, new))
        else:
            r = sh('go build ./... && go test ./tests/... ./... 2>&1 | grep -v "no test files" | grep -v ^ok', tree)
            if r.returncode == 0 or r.stderr:
                print(id, 'BUILD/TEST', r.stdout[-2000:], r.stderr[-2000:])
            r = sh('TAIL=3 %s/try.sh %s %s' % (here, tree, ' '.join(checks)), '/tmp')
            held = set(l.split()[0] for l in r.stdout.splitlines() if ' held: ' in l)
            for c in checks:
                if c not in held:
                    print(id, c, 'NOT QUIET'); bad = 1
            if len(held) < len(checks) or 'VIOLATION' in r.stdout:
                print(r.stdout[-6000:], r.stderr[-1500:])
            print(id, 'done', flush=True)
    finally:
        subprocess.run(['rm', '-rf', tree])
sys.exit(bad)
