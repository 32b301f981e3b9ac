#!/usr/bin/env python3
"""Write DESIGN.md (see tools/design_head.md)."""
import glob, json, os, re, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__))); sys.path.insert(0, V + '/tools'); sys.path.insert(0, V)
from props import PROPS, NOT_APPLICABLE
from check import Harness
hs = [Harness(f) for f in sorted(glob.glob(V + '/harness/*.cpp'))]; caught = json.load(open(V + '/tools/caught.json')); cost = json.load(open(V + '/tools/cost.json')) if os.path.exists(V + '/tools/cost.json') else {}
for f in glob.glob(V + '/evidence/P*.json'):
    e = json.load(open(f)); 
    if e.get('tier') == 'quick' and not os.environ.get('KEEP_COST'): cost[e['property']] = [round(e['wall_s']), e['coverage']['states'], e['coverage']['solver_queries']]
json.dump(cost, open(V + '/tools/cost.json', 'w'), sort_keys=True)
o = [open(V + '/tools/design_head.md').read().rstrip() + '\n']
o.append('## Properties\n\nFor each: what the solver decides (the assertions of the harness), the bounds, and why tests cannot settle it. "Cost" is the quick check on this machine (seconds, symbolic paths and forks, solver queries).\n')
for p in PROPS:
    i, title, stmt, over, text, why = p[:6]; mine = [h for h in hs if i in h.props]
    o.append(f'### {i} {title}\n\n{stmt}\n')
    if not mine: o.append(f'Not applicable: {NOT_APPLICABLE[i]}\n'); continue
    o.append(f'*Quantified over* {", ".join(over)}: {text} *Why tests cannot:* {why}\n')
    for h in mine:
        src = open(h.path).read(); labels = []
        for m in re.finditer(r'"((?:[^"\\]|\\.)*)"\s*\)', src):
            t = m[1]
            if ' ' in t and len(t) > 15 and t not in labels and not t.startswith('%'): labels.append(t)
        q = [c['name'] for c in h.configs if c['tier'] != 'thorough']; t = [c['name'] for c in h.configs if c['tier'] == 'thorough']
        opts = sorted({f'{k}={v}' for c in h.configs for k, v in c['opts'].items() if k in ('hwc', 'preempt')})
        o.append(f'- `harness/{h.name}.cpp` on {", ".join("`" + s + "`" for s in h.sources) or "the headers"}' + (f' ({", ".join(opts)})' if opts else '') + '. Bounds: ' + ' '.join(h.bounds) + ('. Assumed: ' + ' '.join(h.assume) if h.assume and h.assume != ['none'] else '') + f'. Quick: {", ".join(q)}.' + (f' Thorough adds: {", ".join(t)}.' if t else ''))
        if labels: o.append('  Asserted: ' + '; '.join(labels[:40]) + '.')
    if i in cost: o.append(f'- Cost: {cost[i][0]} s, {cost[i][1]} paths and forks, {cost[i][2]} queries.')
    o.append('')
fs = json.load(open(V + '/known_findings.json'))['findings']
o.append('## Defects of KRM7/gapp found by the checks\n\nAll were shown on the real code by a native replay (or, where said, a native program) before anything was changed. "fixed" entries suppress nothing.\n')
for f in fs: o.append(f'- {f["id"]} ({f["property"]}, {f["status"]}{" " + f["commit"] if "commit" in f else ""}): {f["what"]}')
o.append('\nFalse alarms met on the way were corrected in the harnesses, not listed: e.g. `randomReal` taken as half-open (it may return the upper end after rounding), completeness claimed for a cache that is smaller than the population, a documented precondition (reference point not better than any point) missing in P31, spurious states from an unconstrained generator.\n')
o.append('## Planted bugs\n\nEach was written from the statement of the property, compiles, and passes the 352 tests. `tools/seed.py validate ID` repeats the experiment.\n\n| id | property | needs | breaks | caught by |\n|---|---|---|---|---|')
for d in sorted(glob.glob(V + '/seeded/*/meta.json')):
    m = json.load(open(d)); b = os.path.basename(os.path.dirname(d)); o.append(f'| {b} | {m["property"]} | {m["needs"]} | {m["what_it_breaks"]} | {caught.get(b, "not yet run")} |')
o.append('\nBesides these, smaller mutations of the sources were tried while a harness was written; where one survived, the harness was strengthened (see the git history).\n')
o.append(open(V + '/tools/design_tail.md').read() if os.path.exists(V + '/tools/design_tail.md') else '')
open(V + '/DESIGN.md', 'w').write('\n'.join(o).rstrip() + '\n'); print(len('\n'.join(o).split()), 'words')
