#!/usr/bin/env python3
"""Write properties.jsonl and MANIFEST.json from tools/props.py (a property is claimed when a harness decides it)."""
import glob, json, os, re, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__))); sys.path.insert(0, V + '/tools')
from props import PROPS, NOT_APPLICABLE
have = {}
for f in glob.glob(V + '/harness/*.cpp'):
    for l in open(f):
        m = re.match(r'// PROPERTY:\s*(.*)', l)
        if m:
            for p in m[1].split(): have.setdefault(p, []).append(os.path.basename(f))
checks = []; na = []; lines = []
for p in PROPS:
    i, title, stmt, over, text, why, files, mech = p[:8]
    assert len(title) <= 80, (i, len(title))
    lines.append({'id': i, 'title': title, 'statement': stmt, 'quantifier': {'over': over, 'text': text}, 'why_tests_cant': why, 'anchors': {'files': ['src/' + f for f in files], 'mechanism': [{'name': n, 'where': 'src/' + w} for n, w in mech]}})
    if i in have:
        checks.append({'property': i, 'quick_cmd': f'python3 check.py {i} --tier quick', 'thorough_cmd': f'python3 check.py {i} --tier thorough', 'technique': 'symbolic execution of the LLVM bitcode compiled from the current sources, every assertion decided by the z3 SMT solver within stated bounds; counterexamples replayed natively', 'level': 'model_checking', 'level_note': 'bounded: sizes, operation counts and schedules as listed in ' + ', '.join('harness/' + x for x in sorted(have[i])) + ' and in the evidence file', 'evidence_file': f'evidence/{i}.json'})
    else: na.append({'property': i, 'reason': NOT_APPLICABLE[i]})
for i in have: assert i in [p[0] for p in PROPS], f'harness for {i} without a property'
open(V + '/properties.jsonl', 'w').write(''.join(json.dumps(l, ensure_ascii=False) + '\n' for l in lines))
m = {'version': 1, 'setup_cmd': 'make -s -j8 -C engine', 'hooks': {'guard': 'GAPP_VERIF', 'enable': '-DGAPP_VERIF', 'source_commits': []}, 'checks': checks, 'not_applicable': na, 'notes': 'See DESIGN.md. check.py compiles /repo/src afresh on every run. No hooks were needed in /repo.'}
json.dump(m, open(V + '/MANIFEST.json', 'w'), indent=1)
import jsonschema
for l in lines: jsonschema.validate(l, json.load(open('/root/.vp/PROPERTIES.schema.json')))
jsonschema.validate(m, json.load(open('/root/.vp/MANIFEST.schema.json')))
print(len(lines), 'properties', len(checks), 'checks', len(na), 'not applicable')
