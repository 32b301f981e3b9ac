#!/usr/bin/env python3
"""Decide one property: compile the code of /repo to bitcode, execute the harnesses symbolically, replay counterexamples natively.

usage: check.py PROPERTY [--tier quick|thorough] [--only CONFIG] [--keep DIR]
"""
import argparse, concurrent.futures as cf, glob, hashlib, json, os, re, shutil, subprocess, sys, tempfile, time, threading

V = os.path.dirname(os.path.abspath(__file__)); REPO = os.environ.get('VERIF_REPO', '/repo'); SYMEX = V + '/engine/build/symex'
CLANG = 'clang++-18'
FLAGS = ['-std=c++20', f'-I{REPO}/src', f'-I{V}/rt', f'-I{V}/harness', '-O1', '-Xclang', '-disable-llvm-passes', '-emit-llvm', '-c', '-fno-access-control', '-fno-vectorize', '-fno-slp-vectorize',
         '-ffp-contract=off', '-D_GLIBCXX_EXTERN_TEMPLATE=0', '-D_GLIBCXX_ASSERTIONS', '-gline-tables-only', '-w', '-DGAPP_VERIF']
NCPU = os.cpu_count() or 4


class Harness:
    def __init__(self, path):
        self.path = path; self.name = os.path.basename(path)[:-4]; self.props = []; self.sources = []; self.bounds = []; self.assume = []; self.configs = []; self.stubs = []; self.reach = []; self.fp = []; self.optional = []
        for line in open(path):
            m = re.match(r'//\s*([A-Z]+):\s*(.*)$', line.rstrip())
            if not m:
                if line.startswith('#include'): break
                continue
            k, v = m[1], m[2].strip()
            if k == 'PROPERTY': self.props += v.split()
            elif k == 'SOURCES': self.sources += v.split()
            elif k == 'BOUNDS': self.bounds.append(v)
            elif k == 'ASSUME': self.assume.append(v)
            elif k == 'STUB': self.stubs.append(v)
            elif k == 'OPTIONAL': self.optional += v.split()
            elif k == 'REACH': self.reach += v.split()
            elif k == 'CONFIG':
                t = v.split(); c = {'tier': t[0], 'name': t[1], 'defs': [x for x in t[2:] if x.startswith('-D')], 'opts': dict(x.split('=', 1) for x in t[2:] if '=' in x and not x.startswith('-D'))}
                self.configs.append(c)


def harnesses(prop):
    r = [Harness(p) for p in sorted(glob.glob(V + '/harness/*.cpp'))]
    return [h for h in r if prop in h.props]


def sh(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, errors="replace", **kw)


def sh_group(cmd, timeout):
    """like sh, but ends the whole process group when the time is over (a single solver query may overrun the soft limit)"""
    p = subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, start_new_session=True)
    try: o, e = p.communicate(timeout=timeout); return subprocess.CompletedProcess(cmd, p.returncode, o, e)
    except subprocess.TimeoutExpired:
        try: os.killpg(p.pid, 9)
        except ProcessLookupError: pass
        o, e = p.communicate(); return subprocess.CompletedProcess(cmd, -9, o, e + 'killed at the time limit')


class Build:
    """bitcode of repository sources, compiled at most once per run"""
    def __init__(self, d): self.d = d; self.done = {}; self.lock = threading.Lock(); self.pool = cf.ThreadPoolExecutor(NCPU)
    def _cc(self, src, out, extra):
        r = sh([CLANG, *FLAGS, *extra, src, '-o', out])
        return (out, '') if r.returncode == 0 else (None, r.stderr)
    def get(self, src, extra=(), tag=''):
        key = src + '|' + ' '.join(extra)
        with self.lock:
            if key not in self.done:
                out = os.path.join(self.d, hashlib.md5(key.encode()).hexdigest()[:12] + '.bc')
                self.done[key] = self.pool.submit(self._cc, src, out, list(extra))
        return self.done[key]


def all_sources():
    return sorted(glob.glob(REPO + '/src/**/*.cpp', recursive=True))


def undefined(bc):
    r = sh(['llvm-nm-18', '-u', bc]); return [l.split()[-1] for l in r.stdout.splitlines() if l.strip()]


def prepare(b, h, c, work):
    srcs = [os.path.join(REPO, 'src', s) for s in h.sources]
    srcs = [s for s in srcs if os.path.exists(s)] if h.sources != ['all'] else all_sources()
    futs = [b.get(h.path, tuple(c['defs']))] + [b.get(f'{V}/rt/{n}.cpp') for n in ('rt', 'stubs')] + [b.get(s) for s in srcs]
    bcs = []
    for f in futs:
        o, err = f.result()
        if not o: return None, 'compile error:\n' + err[-3000:], []
        bcs.append(o)
    stubf = os.path.join(work, 'stubs.txt')
    with open(stubf, 'w') as f: f.write('\n'.join(h.stubs) + '\n' + open(V + '/rt/stubs.txt').read())
    out = os.path.join(work, 'm.bc'); opts = ['--no-opt'] if c['opts'].get('opt') == '0' else []
    r = sh([SYMEX, 'prep', *bcs, '--stubs', stubf, '-o', out, *opts])
    if r.returncode: return None, 'prep failed: ' + r.stdout[-2000:] + r.stderr[-2000:], []
    und = [u for u in undefined(out) if u.startswith(('_ZN4gapp', '_ZNK4gapp', '_ZTVN4gapp', '_ZTIN4gapp')) and not any(x in u for x in h.optional)]
    if und:  # a definition lives in another source file: link everything
        more = [s for s in all_sources() if s not in srcs]
        fs = [b.get(s) for s in more]
        for f in fs:
            o, err = f.result()
            if not o: return None, 'compile error:\n' + err[-3000:], []
            bcs.append(o)
        r = sh([SYMEX, 'prep', *bcs, '--stubs', stubf, '-o', out, *opts])
        if r.returncode: return None, 'prep failed: ' + r.stdout[-2000:] + r.stderr[-2000:], []
    return out, '', sorted({l[5:] for l in r.stdout.splitlines() if l.startswith('stub ')})


def run_config(h, c, bc, work, workers, tlimit, grace):
    o = c['opts']; res = os.path.join(work, 'res')
    cmd = [SYMEX, 'run', bc, '-o', res, '--workers', str(workers), '--time', str(int(float(o.get('time', tlimit)))), '--hwc', o.get('hwc', '1'), '--preempt', o.get('preempt', '2'), '--max-steps', o.get('steps', '30000000')]
    if grace: cmd += ['--grace', str(grace)]
    if 'rlimit' in o: cmd += ['--rlimit', o['rlimit']]
    if 'frontier' in o: cmd += ['--frontier', o['frontier']]
    t0 = time.time(); r = sh_group(cmd, tlimit + 20); wall = time.time() - t0
    tot = {'wall_s': round(wall, 2), 'complete': True, 'reached': {}, 'asserts': {}, 'violations': [], 'witnesses': [], 'unsupported': set(), 'contracts': set(), 'functions': {}, 'path_ends': {}, 'stderr': r.stderr[-1500:]}
    cnt = ['paths', 'forks', 'steps', 'queries_asked', 'cache_hits', 'model_hits', 'solver_queries', 'sat', 'unsat', 'unknown', 'symbolic_branches', 'sym_loads', 'sym_stores', 'sched_points', 'thread_switches', 'race_checks', 'assume_killed', 'step_limited', 'pending', 'fp_defs']
    for k in cnt: tot[k] = 0
    tot['solver_time_s'] = 0.0; tot['max_query_s'] = 0.0; tot['rss_mb'] = 0
    files = glob.glob(res + '.[0-9]*'); files = [f for f in files if not f.endswith('.tmp')]
    n = len(files)
    if n == 0: tot['complete'] = False; tot['stderr'] = 'no result: ' + r.stderr[-1500:]; return tot
    if n not in (1, workers + 1): tot['complete'] = False
    for f in files:
        try: j = json.load(open(f))
        except Exception: tot['complete'] = False; continue
        tot['complete'] &= j['complete']
        for k in cnt: tot[k] += j[k]
        tot['solver_time_s'] += j['solver_time']; tot['max_query_s'] = max(tot['max_query_s'], j['max_query']); tot['rss_mb'] = max(tot['rss_mb'], j['rss_mb'])
        for k, v in j['reached'].items(): tot['reached'][k] = tot['reached'].get(k, 0) + v
        for k, v in j['path_ends'].items(): tot['path_ends'][k] = tot['path_ends'].get(k, 0) + v
        for k, v in j['asserts'].items(): tot['asserts'][k] = [x + y for x, y in zip(tot['asserts'].get(k, [0, 0, 0]), v)]
        tot['violations'] += j['violations']; tot['witnesses'] += j['witnesses']; tot['unsupported'] |= set(j['unsupported']); tot['contracts'] |= set(j['contracts'])
        for fn in j['functions']:
            name, file, line, nx, inl = fn
            if file.startswith(REPO + '/src') or '/repo/src' in file: tot['functions'].setdefault(os.path.normpath(file).replace(REPO + '/', ''), set()).add(name)
            for x in inl:
                fl, nm = x.split('\t'); tot['functions'].setdefault(os.path.normpath(fl).replace(REPO + '/', ''), set()).add(nm)
        os.remove(f)
    if tot['unsupported'] or tot['unknown'] or tot['pending']: tot['complete'] = False
    return tot


class Replayer:
    def __init__(self, bc, work, c, h): self.bc = bc; self.work = work; self.c = c; self.bins = {}; self.err = ''
    def binary(self, san, sched):
        k = (san, sched)
        if k in self.bins: return self.bins[k]
        n = os.path.join(self.work, f'native_{san or "plain"}_{int(sched)}')
        r = sh([SYMEX, 'native', self.bc, '-o', n + '.bc', *(['--san', san] if san else []), *(['--sched'] if sched else [])])
        ok = r.returncode == 0
        if ok:
            r = sh([CLANG, '-std=c++20', '-O1', '-c', '-w', '-fno-inline', f'{V}/rt/native.cpp', f'-I{V}/rt', '-o', n + '.nat.o'])
            ok = r.returncode == 0
        if ok:
            sf = [f'-fsanitize={san}', '-Wl,-z,muldefs'] if san else []  # (the replay library defines operator new too)
            r = sh([CLANG, '-O1', '-w', *sf, '-c', '-x', 'ir', n + '.bc', '-o', n + '.o']); ok = r.returncode == 0
            if ok: r = sh([CLANG, *sf, n + '.o', n + '.nat.o', '-o', n, '-lpthread', '-lm']); ok = r.returncode == 0
        if not ok: self.err = (r.stderr or '')[-1500:]
        self.bins[k] = n if ok else None
        return self.bins[k]
    def once(self, v, san='', timeout=20, extra=None):
        sched = bool(v['trace']); b = self.binary(san, sched)
        if not b: return None, 'native build failed: ' + self.err
        inf = os.path.join(self.work, 'inputs.txt')
        with open(inf, 'w') as f: f.write('\n'.join(x[2] for x in v['inputs']) + '\n')
        cmd = [b]; extra = dict(extra or {}, SYMRT_INPUTS=inf)
        if sched:
            tf = os.path.join(self.work, 'trace.txt'); open(tf, 'w').write(v['trace']); extra['SYMRT_TRACE'] = tf
        env = dict(os.environ, SYMRT_HWC=self.c['opts'].get('hwc', '1'), ASAN_OPTIONS='detect_leaks=0:abort_on_error=0:exitcode=66:detect_stack_use_after_return=1', TSAN_OPTIONS='exitcode=66:halt_on_error=1', **extra)
        try: r = subprocess.run(cmd, stdout=subprocess.DEVNULL, stderr=subprocess.PIPE, timeout=timeout, env=env, preexec_fn=lambda: __import__('resource').setrlimit(__import__('resource').RLIMIT_CORE, (0, 0)))
        except subprocess.TimeoutExpired as e: return 'timeout', (e.stderr or b'').decode(errors='replace')[-3000:]
        return r.returncode, r.stderr.decode(errors='replace')[-6000:]
    def reproduce(self, v):
        """does the native run of the same inputs (and schedule) show the same failure?"""
        l = v['label']
        tries = [{}] + ([{'MALLOC_PERTURB_': x} for x in ('255', '1', '85', '170')] if v['uninit'] else [])
        for ex in tries:
            if l == 'data-race':
                rc, out = self.once(v, 'thread', extra=ex); ok = rc == 66 or (out and 'data race' in out)
            elif l == 'non-termination':
                rc, out = self.once(v, '', timeout=20, extra=ex); ok = rc == 'timeout'
            elif l == 'deadlock':
                rc, out = self.once(v, '', timeout=20, extra=ex); ok = rc in (43, 'timeout')
            elif l.startswith('memory:'):
                rc, out = self.once(v, 'address', extra=ex); ok = (rc == 66 and out is not None and 'AddressSanitizer' in out) or (isinstance(rc, int) and rc < 0)
                if not ok and rc is not None: rc, out = self.once(v, '', extra=ex); ok = isinstance(rc, int) and rc < 0
            elif l in ('assert', 'abort', 'uncaught-exception', 'division-by-zero', 'unreachable', 'trap', 'ub-trap', 'stack-overflow'):
                rc, out = self.once(v, '', extra=ex); ok = isinstance(rc, int) and rc < 0
            else:
                rc, out = self.once(v, '', extra=ex); ok = rc == 42 and f'REPLAY-ASSERT {l}\n' in out
            if ok: return True, out
            if rc is None: return False, out
        return False, f'native run ended with {rc}: {out[-1500:] if out else ""}'


def vkey(v): return v['label'] + '@' + v['stack'].split('\n')[0] if v['label'].startswith('memory:') or v['label'] in ('assert', 'uncaught-exception', 'abort', 'data-race', 'deadlock') else v['label']


def load_known():
    p = V + '/known_findings.json'
    return json.load(open(p))['findings'] if os.path.exists(p) else []


def is_known(known, prop, h, v):
    for k in known:
        if k['status'] != 'known' or k['property'] != prop or k['harness'] != h.name: continue
        if not re.fullmatch(k['label'], v['label']): continue
        if k.get('at') and not re.search(k['at'], v['stack'] + v['detail']): continue
        return k
    return None


def main():
    ap = argparse.ArgumentParser(); ap.add_argument('prop'); ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick')); ap.add_argument('--only'); ap.add_argument('--keep'); ap.add_argument('-v', action='store_true')
    a = ap.parse_args(); t0 = time.time(); prop = a.prop; tier = 'thorough' if a.tier == 'thorough' else 'quick'
    budget = float(os.environ.get('VK_BUDGET', 780 if tier == 'quick' else 6 * 3600))
    for f in glob.glob(f'{V}/evidence/replay/{prop}.*') + [f'{V}/evidence/{prop}.json']:
        if os.path.exists(f): os.remove(f)
    hs = harnesses(prop)
    if not hs: print('no harness for', prop); return 2
    if not os.path.exists(SYMEX):
        r = sh(['make', '-s', '-j8', '-C', V + '/engine'])
        if r.returncode: print('engine build failed', r.stderr[-2000:]); return 2
    work = a.keep or tempfile.mkdtemp(prefix='vk_'); os.makedirs(work, exist_ok=True)
    try: return decide(a, prop, tier, hs, work, t0, budget)
    finally:
        if not a.keep: shutil.rmtree(work, ignore_errors=True)


def decide(a, prop, tier, hs, work, t0, budget):
    known = load_known(); b = Build(work); jobs = []
    for h in hs:
        for c in h.configs:
            if c['tier'] not in (tier, 'both') and not (tier == 'thorough' and c['tier'] == 'quick'): continue
            if a.only and c['name'] != a.only: continue
            jobs.append((h, c))
    # heavy configurations get all cores, one after the other; the rest run side by side
    results = {}; lock = threading.Lock()
    def one(h, c, workers):
        w = os.path.join(work, h.name + '.' + c['name']); os.makedirs(w, exist_ok=True); ts = time.time()
        bc, err, stubs = prepare(b, h, c, w)
        if not bc: return {'error': err}
        left = max(20, budget - (time.time() - t0)) 
        r = run_config(h, c, bc, w, workers, min(left, float(c['opts'].get('time', left))), 0 if any(k['status'] == 'known' and k['harness'] == h.name for k in known) else 25)
        r['stubs'] = stubs; r['bc'] = bc; r['work'] = w; r['prep_s'] = round(time.time() - ts - r['wall_s'], 2)
        return r
    light = [(h, c) for h, c in jobs if 'heavy' not in c['opts']]; heavy = [(h, c) for h, c in jobs if 'heavy' in c['opts']]
    for h, c in jobs:  # start compiling everything at once
        for s in h.sources:
            if s != 'all' and os.path.exists(os.path.join(REPO, 'src', s)): b.get(os.path.join(REPO, 'src', s))
        b.get(h.path, tuple(c['defs']))
    par = min(len(light), 8) or 1; wk = max(1, NCPU // par)
    with cf.ThreadPoolExecutor(par) as ex:
        fs = {ex.submit(one, h, c, max(wk, int(c['opts'].get('workers', 1)))): (h, c) for h, c in light}
        for f in cf.as_completed(fs): results[(fs[f][0].name, fs[f][1]['name'])] = f.result()
    for h, c in heavy: results[(h.name, c['name'])] = one(h, c, NCPU)
    # verdicts
    viol = []; knownhit = {}; incon = []; cov_cfg = []; validated = 0; samples = []; allfn = {}; assume = set(); bounds = []
    explored = 0
    for h, c in jobs:
        r = results[(h.name, c['name'])]; tag = f'{h.name}/{c["name"]}'
        if 'error' in r: incon.append(f'{tag}: {r["error"]}'); continue
        rp = Replayer(r['bc'], r['work'], c, h); fails = 0; seen = {}
        for v in r['violations']:
            k = is_known(known, prop, h, v)
            if k: knownhit.setdefault(k['id'], (k, 0)); 
            key = vkey(v) + ('|known' if k else '')
            st = seen.setdefault(key, {'tries': 0, 'ok': False})
            if st['ok'] or st['tries'] >= 4: continue
            st['tries'] += 1; ok, out = rp.reproduce(v); st['ok'] = ok
            if ok:
                if k: continue
                d = os.path.join(V, 'evidence', 'replay'); os.makedirs(d, exist_ok=True)
                p = os.path.join(d, f'{prop}.{h.name}.{c["name"]}.{len(viol)}.json')
                json.dump({'property': prop, 'harness': f'harness/{h.name}.cpp', 'config': c, 'label': v['label'], 'detail': v['detail'], 'stack': v['stack'], 'inputs': v['inputs'], 'schedule': v['trace'], 'native_output': out[-4000:], 'reproduce': f'python3 /verif/check.py {prop} --only {c["name"]}'}, open(p, 'w'), indent=1)
                viol.append((tag, v, p, out))
            else: st['why'] = out
        for key, st in seen.items():
            if not st['ok']: incon.append(f'{tag}: candidate {key} was not reproduced natively: {st.get("why", "")[:600]}')
        want = c['opts'].get('reach'); want = want.split(',') if want else h.reach
        miss = [x for x in want if x not in r['reached']]
        if miss and not r['violations']: incon.append(f'{tag}: expected labels never reached: {miss}')
        never = [k[7:] for k in r['reached'] if k.startswith('wanted:') and 'possible:' + k[7:] not in r['reached']]
        if never and r['complete'] and not r['violations']:
            # no counterexample run exists for "this outcome can happen": the evidence is the exhausted exploration itself (every path condition together with the outcome is unsatisfiable)
            d = os.path.join(V, 'evidence', 'replay'); os.makedirs(d, exist_ok=True)
            for l in never[:3]:
                p = os.path.join(d, f'{prop}.{h.name}.{c["name"]}.{len(viol)}.json'); v = {'label': 'impossible: ' + l, 'detail': f'unsatisfiable on every one of the {r["paths"]} paths within the bounds', 'stack': ''}
                json.dump({'property': prop, 'harness': f'harness/{h.name}.cpp', 'config': c, **v, 'solver_queries': r['solver_queries'], 'reproduce': f'python3 /verif/check.py {prop} --only {c["name"]}'}, open(p, 'w'), indent=1); viol.append((tag, v, p, ''))
        if r['unsupported']: incon.append(f'{tag}: unsupported: {sorted(r["unsupported"])[:5]}')
        if not r['complete'] and not r['violations']: incon.append(f'{tag}: exploration not complete (pending {r["pending"]}, unknown {r["unknown"]}) {r["stderr"][-300:]}')
        if r['paths'] or r['violations']: explored += 1
        # validate the encoding: natively replay a few completed paths of the symbolic run
        nval = 0
        if not r['violations']:
            ws = [w for w in r['witnesses'] if not w['uninit'] and not w['contracts']]; ws = ws[-1:] + ws[:1] if tier == 'quick' else ws[-4:] + ws[:2]
            if h.fp != ['novalidate'] and c['opts'].get('validate') != '0':
                for w in ws[:1] if tier == 'quick' else ws:
                    rc, out = rp.once(w, '')
                    if rc == 0 and 'REPLAY-END' in out: nval += 1; samples.append({'config': tag, 'inputs': [f'{n}={x}' if not kind else f'{n}={x} (double bits)' for n, kind, x in w['inputs'][:40]], 'schedule': w['trace'][:80], 'native': 'completed, all assertions hold'})
                    else: incon.append(f'{tag}: a completed symbolic path did not replay natively: {rc} {out[-800:] if out else ""}')
        validated += nval
        for f, s in r['functions'].items(): allfn.setdefault(f, set()).update(s)
        for x in h.assume: assume.add(x)
        if h.bounds and f'{h.name}: ' + ' '.join(h.bounds) not in bounds: bounds.append(f'{h.name}: ' + ' '.join(h.bounds))
        cov_cfg.append({'config': tag, 'defines': c['defs'], 'options': c['opts'], 'exhausted_within_bounds': r['complete'], **{k: r[k] for k in ('paths', 'forks', 'steps', 'symbolic_branches', 'solver_queries', 'sat', 'unsat', 'unknown', 'cache_hits', 'model_hits', 'sched_points', 'thread_switches', 'race_checks', 'assume_killed', 'wall_s', 'rss_mb')}, 'solver_time_s': round(r['solver_time_s'], 3), 'max_query_s': round(r['max_query_s'], 3), 'reached': r['reached'], 'assertions(checks,symbolic,proved)': r['asserts'], 'path_ends': r['path_ends'], 'stubs': r['stubs'], 'libm_contracts': sorted(r['contracts'])})
        if a.v: print(json.dumps({k: v for k, v in cov_cfg[-1].items() if k not in ('stubs',)}))
        shutil.rmtree(r['work'], ignore_errors=True) if not a.keep else None
    tot = lambda k: sum(x[k] for x in cov_cfg)
    ev = {'property': prop, 'tier': tier, 'seed': int(os.environ.get('VERIF_SEED', '1')), 'level': 'model_checking',
          'coverage': {'states': tot('paths') + tot('forks') if cov_cfg else 0, 'transitions': tot('symbolic_branches') + tot('sched_points') if cov_cfg else 0, 'traces_validated_against_impl': validated, 'samples': samples[:6] or ['none'],
                       'technique': 'symbolic execution of the LLVM bitcode of the repository sources, verdict by the z3 SMT solver for every value within the bounds',
                       'meaning': 'states = symbolic paths completed or forked; transitions = symbolic branch and scheduling decisions; traces = symbolic paths replayed natively with the same outcome',
                       'bounds': bounds, 'exhausted_within_bounds': bool(cov_cfg) and all(x['exhausted_within_bounds'] for x in cov_cfg) and not any('compile error' in i for i in incon),
                       'solver_queries': tot('solver_queries') if cov_cfg else 0, 'solver_unsat': tot('unsat') if cov_cfg else 0, 'solver_sat': tot('sat') if cov_cfg else 0, 'solver_unknown': tot('unknown') if cov_cfg else 0, 'solver_time_s': round(tot('solver_time_s'), 2) if cov_cfg else 0,
                       'functions_encoded': {f: sorted(s) for f, s in sorted(allfn.items())}, 'configurations': cov_cfg, 'inconclusive': incon},
          'assumptions': sorted(assume) + ['IEEE double semantics, round to nearest; libm calls on symbolic arguments are replaced by range contracts', 'random number helpers may return any value in their documented range (stubs listed per configuration) unless the harness says otherwise', 'thread harnesses: sequentially consistent interleavings with a preemption bound, plus happens-before race detection'],
          'wall_s': round(time.time() - t0, 2), 'violations': [{'config': t, 'label': v['label'], 'detail': v['detail'], 'replay': p} for t, v, p, o in viol]}
    if knownhit: ev['coverage']['known_findings_seen'] = sorted(knownhit)
    os.makedirs(V + '/evidence', exist_ok=True); json.dump(ev, open(f'{V}/evidence/{prop}.json', 'w'), indent=1)
    for k in [k for k in known if k['status'] == 'known' and k['property'] == prop]:
        if k['id'] in knownhit: print(f'KNOWN-FINDING: property={prop} {k["what"]}')
    for i in incon: print('INCONCLUSIVE', i)
    for t, v, p, o in viol[:10]:
        print(f'VIOLATION property={prop} replay={p}'); print(f'  {t}: {v["label"]}: {v["detail"]} at {v["stack"].splitlines()[0] if v["stack"] else "?"}')
    print(f'{prop} {tier}: {len(cov_cfg)} configurations, {ev["coverage"]["states"]} states, {ev["coverage"]["solver_queries"]} solver queries ({ev["coverage"]["solver_time_s"]} s), {validated} paths validated natively, {len(viol)} violations, {len(incon)} inconclusive, {ev["wall_s"]} s')
    if viol: return 1
    return 0 if explored else 2


if __name__ == '__main__': sys.exit(main())
