#!/usr/bin/env python3
"""seed.py make SPEC.py | validate ID... : maintain /verif/seeded. A spec file defines SEEDS = [dict(id, property, file, edits=[(old,new)..], needs, breaks, demo)].
validate applies each patch to /repo, rebuilds, runs the tests, the demo and the property's quick check, and undoes it."""
import json, os, subprocess, sys, re, runpy
V = '/verif'; R = '/repo'
DEMO = '''#!/bin/bash
# run in /repo after the build; exit 0 when the behaviour is right
d=$(cd "$(dirname "$0")" && pwd); t=$(mktemp -d); trap 'rm -rf "$t"' EXIT
g++ -std=gnu++20 -O1 -g -w -DGAPP_BUILD_STATIC -I/repo/src "$d/demo.cpp" /repo/_build/libgapp.a -pthread -o "$t/demo" || exit 3
timeout 120 "$t/demo"
'''
def sh(c, **k): return subprocess.run(c, shell=True, capture_output=True, text=True, **k)
def make(spec):
    for s in runpy.run_path(spec)['SEEDS']:
        d = f"{V}/seeded/{s['id']}"; os.makedirs(d, exist_ok=True)
        files = [s['file']] if isinstance(s['file'], str) else s['file']
        for f, old, new in [(files[0], *e) if len(e) == 2 else e for e in s['edits']]:
            p = f'{R}/src/{f}'; t = open(p, encoding='utf-8', newline='').read(); crlf = '\r\n' in t
            if crlf: old, new = old.replace('\n', '\r\n'), new.replace('\n', '\r\n')
            assert t.count(old) == 1, (s['id'], t.count(old), old); open(p, 'w', encoding='utf-8', newline='').write(t.replace(old, new))
        open(d + '/patch.diff', 'w', newline='').write(subprocess.run(['git', '-C', R, 'diff'], capture_output=True).stdout.decode('utf-8')); sh(f'git -C {R} checkout -- .')
        open(d + '/demo.cpp', 'w').write(s['demo'].lstrip()); open(d + '/demo.sh', 'w').write(DEMO); os.chmod(d + '/demo.sh', 0o755)
        json.dump({'property': s['property'], 'needs': s['needs'], 'what_it_breaks': s['breaks']}, open(d + '/meta.json', 'w'), indent=1); print('made', s['id'])
def validate(ids):
    base = set(json.load(open('/opt/vp/BASELINE.json')).get('stable', []) or [])
    for i in ids:
        d = f'{V}/seeded/{i}'; p = json.load(open(d + '/meta.json'))['property']
        if sh(f'git -C {R} status --porcelain').stdout: sys.exit('repo not clean')
        try:
            a = sh(f'git -C {R} apply {d}/patch.diff'); 
            if a.returncode: print(i, 'DOES NOT APPLY', a.stderr[:200]); continue
            t = sh('bash /opt/vp/test.sh /tmp/seed_t.json'); r = json.load(open('/tmp/seed_t.json')); fails = r['failed']
            dm = sh(f'cd {R} && bash {d}/demo.sh'); ck = sh(f"cd {V} && python3 check.py {p} --tier quick")
            viol = [l for l in ck.stdout.splitlines() if l.startswith('  ')][:2]
            print(f"{i} {p}: passed={len(r['passed'])} failed={fails[:3]} demo_with_patch={dm.returncode} check={ck.returncode} {viol}", flush=True)
            if dm.returncode == 3: print(dm.stderr[:1500])
        finally: sh(f'git -C {R} checkout -- .')
    sh('bash /opt/vp/build.sh')
    for i in ids: x = sh(f'cd {R} && bash {V}/seeded/{i}/demo.sh'); print(i, 'demo on clean tree', x.returncode, x.stdout[-200:], x.stderr[-200:] if x.returncode else '')
if sys.argv[1] == 'make': make(sys.argv[2])
else: validate(sys.argv[2:])
