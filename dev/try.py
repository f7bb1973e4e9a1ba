#!/usr/bin/env python3
"""Development aid: apply edits to scratch copies of the repository and list which
checks raise an alarm. Not used by any registered check.

usage: try.py [-t] [-p C01,C02] FILE.py [name...]
FILE.py defines EDITS = {name: [(file, old, new), ...]}; -t also runs the tests."""
import sys, os, shutil, subprocess, tempfile, json
from concurrent.futures import ThreadPoolExecutor
AN = os.environ.get('AN', '/tmp/an')
args = sys.argv[1:]
tests = '-t' in args
if tests: args.remove('-t')
props = None
if '-p' in args:
    i = args.index('-p'); props = args[i+1].split(','); del args[i:i+2]
ns = {}
exec(open(args[0]).read(), ns)
edits = ns['EDITS']
names = args[1:] or list(edits)
env = dict(os.environ, GOTOOLCHAIN='local', GOPROXY='off', GOSUMDB='off', GOWORK='off', GOFLAGS='')
def one(name):
    d = tempfile.mkdtemp(prefix='try-', dir='/tmp')
    try:
        repo = os.path.join(d, 'repo'); vd = os.path.join(d, 'v'); os.makedirs(vd + '/evidence')
        shutil.copytree('/repo', repo, ignore=shutil.ignore_patterns('.git'))
        if os.path.exists('/verif/known-findings.txt'): shutil.copy('/verif/known-findings.txt', vd)
        for f, old, new in edits[name]:
            p = os.path.join(repo, f); s = open(p).read()
            if s.count(old) < 1: return name, 'EDIT-FAILED ' + f + ': ' + old[:60], ''
            s = s.replace(old, new, 1); open(p, 'w').write(s)
        b = subprocess.run(['go', 'build', './...'], cwd=repo, env=env, capture_output=True, text=True)
        if b.returncode: return name, 'BUILD-FAILED', b.stderr[:600]
        out = ''
        if tests:
            t = subprocess.run(['go', 'test', './...'], cwd=repo, env=env, capture_output=True, text=True)
            if t.returncode: out += 'TESTS-FAIL '
        hits = []; detail = ''
        r = subprocess.run([AN, '-repo', repo] + (['-all'] if not props else ['-property', props[0]]), cwd=vd, env=dict(env, VERIF_DIR=vd), capture_output=True, text=True)
        runs = [r]
        for pr in (props or [])[1:]:
            runs.append(subprocess.run([AN, '-repo', repo, '-property', pr], cwd=vd, env=dict(env, VERIF_DIR=vd), capture_output=True, text=True))
        for r in runs:
            for l in r.stdout.splitlines():
                if l.startswith('VIOLATION'): hits.append(l.split()[1].split('=')[1])
                elif l and not l.startswith((' ', 'OK', 'KNOWN')): detail += '      ' + l + '\n'
            if r.returncode not in (0, 1): detail += r.stderr[-500:]
        return name, out + (','.join(hits) or '-'), detail
    finally:
        shutil.rmtree(d)
with ThreadPoolExecutor(6) as ex:
    for name, res, detail in ex.map(one, names):
        print(f'{name:40s} {res}')
        if os.environ.get('V') or 'FAILED' in res: print(detail)
