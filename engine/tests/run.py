#!/usr/bin/env python3
# engine self-tests: each t_*.cpp states which labels must be reached / violated
import subprocess, sys, glob, re, json, os, tempfile
here = os.path.dirname(os.path.abspath(__file__)); V = os.path.dirname(os.path.dirname(here)); symex = V + '/engine/build/symex'
FL = f"-std=c++20 -I{V}/rt -O1 -Xclang -disable-llvm-passes -emit-llvm -c -fno-access-control -fno-vectorize -fno-slp-vectorize -ffp-contract=off -D_GLIBCXX_EXTERN_TEMPLATE=0 -D_GLIBCXX_ASSERTIONS -gline-tables-only -w".split()
bad = 0
with tempfile.TemporaryDirectory() as d:
    for n in ('rt', 'stubs'): subprocess.check_call(['clang++-18', *FL, f'{V}/rt/{n}.cpp', '-o', f'{d}/{n}.bc'])
    for f in sorted(glob.glob(here + '/t_*.cpp')):
        if len(sys.argv) > 1 and sys.argv[1] not in f: continue
        m = re.match(r'// EXPECT: reach=(\S*) viol=(\S*)(?: hwc=(\d+))?', open(f).read())
        subprocess.check_call(['clang++-18', *FL, f, '-o', f'{d}/h.bc'])
        subprocess.check_call([symex, 'prep', f'{d}/h.bc', f'{d}/rt.bc', f'{d}/stubs.bc', '--stubs', V + '/rt/stubs.txt', '-o', f'{d}/o.bc'], stdout=subprocess.DEVNULL)
        for w in (1, 4):
            subprocess.run([symex, 'run', f'{d}/o.bc', '-o', f'{d}/r', '--workers', str(w), '--time', '60', '--hwc', m[3] or '1', '--frontier', '3', '--max-steps', '200000'], check=True)
            reach, viol, uns, paths, comp, t = set(), set(), set(), 0, True, 0
            for i in range(w + 1):
                p = f'{d}/r.{i}'
                if os.path.exists(p):
                    r = json.load(open(p)); reach |= set(r['reached']); viol |= {v['label'] for v in r['violations']}; uns |= set(r['unsupported']); paths += r['paths']; comp &= r['complete']; t += r['solver_time']; os.remove(p)
            ok = reach == set(filter(None, m[1].split(','))) and viol == set(filter(None, m[2].split(','))) and not uns and comp
            print('ok  ' if ok else 'FAIL', os.path.basename(f), 'w', w, 'paths', paths, 'complete', comp, 'solver %.2f' % t, *(() if ok else ('reach', reach, 'viol', viol, 'unsupported', uns)))
            bad += not ok
sys.exit(bad != 0)
