#!/usr/bin/env python3
"""Development aid: turn an edit of a FILE.py into /verif/seeded/<id> and verify it.

usage: seed.py FILE.py ID...   FILE.py defines SEEDS = {id: dict(property, needs, what, edits, demo)}
demo is the body of main() of a Go program that must call fail(...) when behaviour is wrong."""
import sys, os, json, subprocess, shutil, tempfile
ns = {}; exec(open(sys.argv[1]).read(), ns)
ids = sys.argv[2:] or list(ns['SEEDS'])
env = dict(os.environ, GOTOOLCHAIN='local', GOPROXY='off', GOSUMDB='off', GOWORK='off', GOFLAGS='')
DEMO = '''#!/bin/bash
# Exits 0 when the library behaves as documented, non-zero otherwise.
here="$(cd "$(dirname "$0")" && pwd)"
export GOTOOLCHAIN=local GOPROXY=off GOSUMDB=off GOWORK=off
exec go run %s"$here/main.go"
'''
for i in ids:
    sd = ns['SEEDS'][i]
    out = '/verif/seeded/' + i; os.makedirs(out, exist_ok=True)
    tmp = tempfile.mkdtemp(prefix='seed-', dir='/tmp')
    try:
        a = tmp + '/a'; shutil.copytree('/repo', a)
        for f, old, new in sd['edits']:
            s = open(a + '/' + f).read()
            assert s.count(old) >= 1, (i, f, old)
            open(a + '/' + f, 'w').write(s.replace(old, new, 1))
        subprocess.check_call(['gofmt', '-l', '-w'] + sorted({f for f, _, _ in sd['edits']}), cwd=a, stdout=subprocess.DEVNULL)
        diff = subprocess.check_output(['git', 'diff'], cwd=a, text=True)
        open(out + '/patch.diff', 'w').write(diff)
        imports = sd.get('imports', [])
        body = sd['demo']
        std = ['fmt', 'os'] + imports
        src = 'package main\n\nimport (\n' + ''.join('\t"%s"\n' % x for x in sorted(std)) + '\n\t"github.com/netascode/xmldot"\n)\n\nfunc fail(f string, a ...interface{}) {\n\tfmt.Printf(f+"\\n", a...)\n\tos.Exit(1)\n}\n\n' + sd.get('decls', '') + '\n\nfunc main() {\n' + body.strip('\n') + '\n}\n'
        open(out + '/main.go', 'w').write(src)
        subprocess.run(['gofmt', '-w', out + '/main.go'], check=True)
        open(out + '/demo.sh', 'w').write(DEMO % ('-race ' if sd.get('race') else ''))
        os.chmod(out + '/demo.sh', 0o755)
        json.dump({'property': sd['property'], 'needs': sd['needs'], 'what_it_breaks': sd['what']}, open(out + '/meta.json', 'w'), indent=1)
        r0 = subprocess.run(['bash', out + '/demo.sh'], cwd='/repo', env=env, capture_output=True, text=True, timeout=300)
        r1 = subprocess.run(['bash', out + '/demo.sh'], cwd=a, env=env, capture_output=True, text=True, timeout=300)
        t = subprocess.run(['go', 'test', './...'], cwd=a, env=env, capture_output=True, text=True)
        print(f"{i:28s} clean={r0.returncode} patched={r1.returncode} tests={'ok' if t.returncode == 0 else 'FAIL'} {(r0.stdout + r0.stderr)[:200] if r0.returncode else ''} | {(r1.stdout+r1.stderr)[:160].strip()}")
        if t.returncode: print(t.stdout[-600:])
    finally:
        shutil.rmtree(tmp)
