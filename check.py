#!/usr/bin/env python3
"""Decide one property: python3-vt check.py <ID>   (VERIF_TIER, VERIF_SEED from the environment)

1. every contract of the property is proved on the instrumented source of /repo (all obligations by z3);
2. every contract is also run concretely on the pristine code (engine cross-check; and replay of counterexamples);
3. exit 0 if everything is discharged, else VIOLATION.
"""
import sys, os, json, time, subprocess, importlib, concurrent.futures as cf

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
PY = os.environ.get('VERIF_PY', '/opt/veriftools/pyvenv/bin/python')
sys.dont_write_bytecode = True


def worker(mode, mod, name, tier, seed, extra, timeout):
    env = dict(os.environ, PYTHONHASHSEED='0', PYTHONDONTWRITEBYTECODE='1')
    cmd = [PY, '-m', 'vc.worker', mode, mod, name, tier, str(seed), json.dumps(extra)]
    try:
        p = subprocess.run(cmd, cwd=HERE, env=env, capture_output=True, text=True, timeout=timeout)
        return json.loads(p.stdout)
    except subprocess.TimeoutExpired:
        err = 'worker timed out after %ds' % timeout
    except Exception as e:
        err = 'worker died: %r' % (e,)
    return {'name': name, 'status': 'error', 'error': err, 'obs': {}, 'n_obligations': 0, 'n_discharged': 0, 'fails': [],
            'paths': 0, 'queries': 0, 'solver_s': 0, 'wall_s': timeout, 'tried': 0, 'distinct': 0, 'found': None,
            'harness_errors': 0, 'samples': []}


def main():
    pid = sys.argv[1]
    tier = os.environ.get('VERIF_TIER', 'quick')
    if tier not in ('quick', 'thorough'):
        tier = 'quick'
    if '--thorough' in sys.argv:
        tier = 'thorough'
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    t0 = time.time()
    from vc.registry import PROPS, KNOWN
    prop = PROPS[pid]
    mods = prop['modules']
    items, probes = [], []
    for m in mods:
        mm = importlib.import_module('contracts.' + m)
        for c in getattr(mm, 'contracts', []):
            if getattr(c, 'props', None) is None or pid in c.props:
                items.append((m, c))
        for c in getattr(mm, 'probes', []):
            if getattr(c, 'props', None) is None or pid in c.props:
                probes.append((m, c))
    known = [k for k in KNOWN.get('findings', []) if k['property'] == pid]
    quick = tier == 'quick'
    ncpu = max(2, min(8, os.cpu_count() or 2))
    proofs, searches = {}, {}
    hard = 780 if quick else 3400
    sbudget = prop.get('search_s', 12) if quick else 120
    with cf.ThreadPoolExecutor(ncpu) as ex:
        fp = {}
        for m, c in sorted(items, key=lambda mc: -getattr(mc[1], 'weight', 1)):
            fp[ex.submit(worker, 'prove', m, c.name, tier, seed, {}, (c.budget_s + 60) * (1 if quick else 4))] = (m, c)
        fs = {}
        for m, c in items + probes:
            if not c.internal and (type(c).gen is not _base_gen() or c.corpus()):
                fs[ex.submit(worker, 'search', m, c.name, tier, seed, {'budget': sbudget, 'n': c.search_n * (1 if quick else 10)},
                             sbudget + 60)] = (m, c)
        for f in cf.as_completed(list(fp) + list(fs)):
            if f in fp:
                proofs[fp[f][1].name] = f.result()
            else:
                searches[fs[f][1].name] = f.result()
    bad = [(m, c, proofs[c.name]) for m, c in items if proofs[c.name]['status'] != 'ok']
    found = [(m, c, searches[c.name]) for m, c in items + probes if searches.get(c.name, {}).get('found')]
    def listed(c, r):
        return r['fails'] and not r['error'] and all(any(k.get('contract') == c.name and k.get('match', '') in f['obligation'] for k in known) for f in r['fails'])
    # deeper falsification when a proof failed
    if any(not listed(c, r) for m, c, r in bad) and not found:
        left = hard - (time.time() - t0)
        per = max(20, min(prop.get('deep_s', 60) if quick else 300, left / 3))
        jobs = []
        for m, c, r in bad:
            ins = [f['inputs'] for f in r['fails'] if f.get('inputs')]
            if ins and not c.internal:
                jobs.append((m, c, {'budget': 30, 'n': 0, 'inputs': ins, 'corpus': False}, seed))
        badnames = {c.name for _, c, _ in bad}
        order = [(m, c) for m, c in items + probes if c.name in badnames] + \
                [(m, c) for m, c in probes if c.name not in badnames] + \
                [(m, c) for m, c in items if c.name not in badnames]
        for s in range(4):
            for m, c in order:
                if type(c).gen is not _base_gen() and not c.internal:
                    jobs.append((m, c, {'budget': per, 'n': c.search_n * 40, 'corpus': s == 0}, seed * 1000 + 17 * s + 1))
        stop = time.time() + max(30, min(left - 60, 6 * per))
        with cf.ThreadPoolExecutor(ncpu) as ex:
            def job(j):
                m, c, extra, sd = j
                if found or time.time() > stop:
                    return None
                return m, c, worker('search', m, c.name, tier, sd, extra, extra['budget'] + 60)
            for r in ex.map(job, jobs):
                if r and r[2].get('found') and not found:
                    found.append(r)
    # ---- report
    violations = 0
    knownhits = []
    rc = 0

    def is_known(kind, name, text):
        for k in known:
            if k.get('contract') == name and k.get('match', '') in text:
                return k
        return None
    fresh_found = []
    for m, c, r in found:
        k = is_known('input', c.name, r['found']['msg'] + r['found']['input_repr'])
        if k:
            knownhits.append(k)
        else:
            fresh_found.append((m, c, r))
    fresh_bad = []
    for m, c, r in bad:
        ks = [is_known('proof', c.name, f['obligation']) for f in r['fails']]
        if r['fails'] and all(ks) and not r['error']:
            knownhits.extend(ks)
        else:
            fresh_bad.append((m, c, r))
    for k in KNOWN.get('findings', []):
        if k['property'] == pid and k.get('always'):
            knownhits.append(k)
    rdir = os.path.join(HERE, 'evidence', 'replay')
    os.makedirs(rdir, exist_ok=True)
    lines = []
    if fresh_found:
        m, c, r = fresh_found[0]
        path = os.path.join(rdir, pid + '.json')
        obs = [f['obligation'] for _, _, b in bad for f in b['fails']]
        with open(path, 'w') as f:
            json.dump({'property': pid, 'kind': 'failing input replayed on the real code', 'contract': c.name,
                       'target': list(c.target), 'input': r['found']['input'], 'input_repr': r['found']['input_repr'],
                       'observed': r['found']['msg'], 'failed_obligations': obs[:10],
                       'engine_errors': [b['error'] for _, _, b in bad if b['error']],
                       'replay_cmd': '%s -m vc.worker search %s "%s" quick 1 \'%s\'' % (
                           PY, m, c.name, json.dumps({'inputs': [r['found']['input']], 'n': 0, 'corpus': False}))}, f, indent=1)
        lines.append('VIOLATION property=%s replay=%s' % (pid, path))
        print('failing input for %s: %s' % (c.name, r['found']['input_repr'][:600]))
        print('  ' + r['found']['msg'][:600])
        violations = len(fresh_found)
        rc = 1
    elif fresh_bad:
        path = os.path.join(rdir, pid + '.json')
        with open(path, 'w') as f:
            json.dump({'property': pid, 'kind': 'obligation not discharged, no failing input found',
                       'failed': [{'contract': c.name, 'target': list(c.target), 'error': r['error'], 'fails': r['fails']}
                                  for m, c, r in fresh_bad]}, f, indent=1)
        for m, c, r in fresh_bad:
            print('not discharged: %s: %s' % (c.name, r['error'] or '; '.join(
                '%s [%s]' % (f['obligation'], f['detail']) for f in r['fails'][:3])))
        lines.append('VIOLATION property=%s replay=%s no-failing-input-found' % (pid, path))
        violations = len(fresh_bad)
        rc = 1
    seenk = set()
    for k in knownhits:
        if k['what'] not in seenk:
            seenk.add(k['what'])
            print('KNOWN-FINDING: property=%s %s' % (pid, k['what']))
    # ---- evidence
    nob = sum(r['n_obligations'] for r in proofs.values())
    nok = sum(r['n_discharged'] for r in proofs.values())
    backs = {}
    for r in proofs.values():
        for a in r['obs'].values() if r['obs'] else []:
            for b, n in a['back'].items():
                backs[b] = backs.get(b, 0) + n
    fn = []
    for m, c in items:
        r = proofs[c.name]
        fn.append({'contract': c.name, 'functions': list(c.target), 'status': r['status'], 'bounded': c.bounded,
                   'obligations': r['n_obligations'], 'discharged': r['n_discharged'], 'paths': r['paths'],
                   'solver_s': r['solver_s'], 'wall_s': r['wall_s'], 'error': r.get('error')})
    assumptions = list(BASE_ASSUMPTIONS) + [a for m, c in items for a in c.assumptions] + list(prop.get('assumptions', []))
    ded = []
    for a in assumptions:
        if a not in ded:
            ded.append(a)
    ev = {'property': pid, 'tier': tier, 'seed': seed, 'level': prop.get('level', 'proof'),
          'coverage': {'obligations': nob, 'discharged': nok,
                       'checker_cmd': 'python3-vt /verif/check.py %s' % pid,
                       'trusted_base': TRUSTED + prop.get('trusted', []),
                       'back_ends': backs, 'contracts': fn,
                       'functions_under_contract': sorted({t for m, c in items for t in c.target}),
                       'named_obligations': sorted({o for r in proofs.values() for o in (r['obs'] or {})})[:400],
                       'solver_s': round(sum(r['solver_s'] for r in proofs.values()), 2),
                       'bounded_standins': [{'contract': c.name, 'bound': c.bounded} for m, c in items + probes if c.bounded],
                       'concrete_runs': {n: {'tried': r.get('tried'), 'distinct': r.get('distinct'),
                                             'harness_errors': r.get('harness_errors'), 'samples': r.get('samples', [])[:2]}
                                         for n, r in searches.items()}},
          'assumptions': ded, 'wall_s': round(time.time() - t0, 2), 'violations': violations}
    os.makedirs(os.path.join(HERE, 'evidence'), exist_ok=True)
    with open(os.path.join(HERE, 'evidence', pid + '.json'), 'w') as f:
        json.dump(ev, f, indent=1)
    print('%s %s: %d/%d obligations discharged over %d contracts, %d concrete runs, %.1f s' % (
        pid, tier, nok, nob, len(items), sum(r.get('tried') or 0 for r in searches.values()), time.time() - t0))
    for l in lines:
        print(l)
    sys.exit(rc)


def _base_gen():
    from vc.contract import Contract
    return Contract.gen


TRUSTED = ['z3 5.3 (python3-vt)', 'the engine in /verif/vc: AST instrumentation, proxies, loop cutting, sequence axioms',
           'models of CPython builtins and library functions in vc/models.py',
           'CPython 3.12 executing the instrumented source of /repo']
BASE_ASSUMPTIONS = ['termination is not proved (partial correctness)',
                    'machine floats are treated as mathematical reals',
                    'no memory exhaustion, no recursion-depth limit',
                    'objects reachable only through module globals or closures not visible at a loop head are not havocked']

if __name__ == '__main__':
    main()
