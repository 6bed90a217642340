"""Runs one property: discharges its obligations from /repo's current source,
runs its concrete searches on the real code, writes the evidence file and
prints the verdict."""
from . import env  # noqa: F401
import json
import multiprocessing as mp
import os
import sys
import time
import traceback

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))

TRUSTED = ['pyvc (the verifier in /verif/pyvc: symbolic interpreter, models of built-ins)',
           'z3 5.3.2, cvc5 1.1.2', 'CPython 3.12 semantics of the interpreted subset']


def _worker(job):
    modname, index, seconds, max_paths, cross, end = job
    from . import core
    core.CROSS_CHECK = cross
    try:
        import importlib
        mod = importlib.import_module('props.' + modname)
        entry = mod.UNITS[index]
        name, fn = entry[0], entry[1]
        opts = entry[2] if len(entry) > 2 else {}
        # generous: a slower machine or a rewritten function must not turn into an alarm
        limit = max(30, min(3 * opts.get('seconds', seconds), end - time.time()))
        r = core.run_unit(name, fn, 2 * opts.get('max_paths', max_paths), limit)
        return {
            'name': r.name, 'paths': r.paths, 'covers': r.covers, 'undecided': r.undecided, 'wall': r.wall,
            'axioms': sorted(r.axioms), 'functions': sorted(r.functions), 'contracts': sorted(r.contracts),
            'solver_time': core.STATS.solver_time, 'queries': core.STATS.queries,
            'obls': [(o.name, o.status, o.backend, o.time, o.model, o.detail, o.formula, o.path) for o in r.obls],
        }
    except BaseException as e:
        return {'name': '%s[%d]' % (modname, index), 'paths': 0, 'covers': {}, 'undecided': ['%s: %s' % (type(e).__name__, e)],
                'wall': 0.0, 'axioms': [], 'functions': [], 'contracts': [], 'solver_time': 0.0, 'queries': 0, 'obls': [],
                'trace': traceback.format_exc()}


def load_known(prop):
    out = []
    path = os.path.join(ROOT, 'known-findings.jsonl')
    if os.path.exists(path):
        for line in open(path):
            line = line.strip()
            if line.startswith('{'):
                k = json.loads(line)
                if k['property'] == prop:
                    out.append(k)
    return out


def write_replay(prop, n, data):
    d = os.path.join(ROOT, 'replays')
    os.makedirs(d, exist_ok=True)
    path = os.path.join(d, '%s-%d.json' % (prop, n))
    with open(path, 'w') as fh:
        json.dump(data, fh, indent=1, default=str)
    return path


def main(prop, tier, seed):
    t0 = time.time()
    modname = prop.lower()
    level = 'proof'
    err = None
    try:
        import importlib
        mod = importlib.import_module('props.' + modname)
    except Exception:
        err = traceback.format_exc()
        mod = None
    results = []
    search = None
    search_err = None
    if mod is not None:
        units = getattr(mod, 'UNITS', [])
        quick = tier == 'quick'
        sec, paths = (100, 1500) if quick else (400, 6000)
        jobs = [(modname, i, sec, paths, not quick, t0 + (640 if quick else 5500)) for i in range(len(units))]
        ctxmp = mp.get_context('fork')
        nproc = max(1, min(int(os.environ.get('VERIF_JOBS', '8')), (os.cpu_count() or 1)))
        pool = ctxmp.Pool(nproc, maxtasksperchild=4)
        pend = pool.map_async(_worker, jobs, chunksize=1) if jobs else None
        # bounded concrete search on the real code, in this process
        from .concrete import Search
        seconds = getattr(mod, 'SEARCH_SECONDS', (12, 120))[0 if quick else 1]
        search = Search(prop, getattr(mod, 'KINDS', {}), seed, tier, seconds, load_known(prop))
        if hasattr(mod, 'search'):
            try:
                mod.search(search)
            except Exception:
                search_err = traceback.format_exc()
        if pend is not None:
            try:
                # with a failing input in hand the verdict does not depend on the obligations
                results = pend.get(timeout=max(60, 120 - (time.time() - t0)) if search.violations else 780 if quick else 6000)
            except mp.TimeoutError:
                if not search.violations:
                    err = 'verifier time limit'
        pool.terminate()
        pool.join()

    obls = [(r['name'],) + tuple(o) for r in results for o in r['obls']]
    total = len(obls)
    discharged = sum(1 for o in obls if o[2] == 'proved')
    bad = [o for o in obls if o[2] != 'proved']
    undecided = [(r['name'], u) for r in results for u in r['undecided']]
    vac = []
    for r in results:
        cov = r['covers']
        if not r['undecided'] and (not cov or not any(v == 'sat' for v in cov.values())):
            vac.append((r['name'], 'no path reaches the end of this unit'))
        for c, v in cov.items():
            if v == 'unsat':
                vac.append((r['name'], 'cover %s is unreachable' % c))
    if mod is not None and getattr(mod, 'UNITS', []) and total == 0 and not undecided:
        vac.append(('all', 'no obligation was generated'))

    backends = {}
    for o in obls:
        backends[o[3] or 'engine'] = backends.get(o[3] or 'engine', 0) + 1
    static = getattr(mod, 'STATIC', None)

    if hasattr(mod, 'LEVEL'):
        level = mod.LEVEL
    cov = {
        'obligations': total,
        'discharged': discharged,
        'checker_cmd': './check %s --tier %s' % (prop, tier),
        'trusted_base': TRUSTED + list(getattr(mod, 'TRUSTED', [])),
        'units': [{'unit': r['name'], 'paths': r['paths'], 'obligations': len(r['obls']), 'wall_s': round(r['wall'], 2)} for r in results],
        'functions_verified': sorted({f for r in results for f in r['functions']}),
        'functions_used_through_contracts': sorted({f for r in results for f in r['contracts']}),
        'back_ends': backends,
        'solver_time_s': round(sum(o[4] for o in obls), 2),
        'covers': sum(len(r['covers']) for r in results),
        'explanation': getattr(mod, 'EXPLANATION', (mod.__doc__ or '') if mod else ''),
    }
    if search is not None:
        cov['bounded_search'] = {
            'label': 'bounded: concrete executions of the real code against an independent oracle; never counted as proved',
            'evaluations': search.evaluations, 'distinct_nontrivial': len(search.distinct), 'per_kind': search.per_kind,
            'samples': search.samples}
        cov['evaluations'] = search.evaluations
        cov['distinct_nontrivial'] = len(search.distinct)
        cov['rule'] = getattr(mod, 'RULE', 'seeded random and enumerated inputs; non-trivial: distinct (kind, arguments)')
        cov['samples'] = search.samples or ['none']
    assumptions = sorted({a for r in results for a in r['axioms']}) + list(getattr(mod, 'ASSUMPTIONS', []))

    violations = []
    if search is not None:
        for v in search.violations:
            violations.append(('input', v))
    for o in bad:
        violations.append(('obligation', {'unit': o[0], 'obligation': o[1], 'verdict': o[2], 'back_end': o[3], 'counter_model': o[5],
                                          'detail': o[6], 'formula': o[7], 'path': o[8]}))
    for u in undecided:
        violations.append(('obligation', {'unit': u[0], 'obligation': 'unit not accepted by the verifier', 'verdict': 'undecided', 'detail': u[1]}))
    for u in vac:
        violations.append(('obligation', {'unit': u[0], 'obligation': 'non-vacuity', 'verdict': 'refuted', 'detail': u[1]}))
    if err:
        violations.append(('obligation', {'unit': prop, 'obligation': 'contracted functions exist and load', 'verdict': 'undecided', 'detail': err}))
    if search_err:
        violations.append(('obligation', {'unit': prop, 'obligation': 'bounded search runs', 'verdict': 'undecided', 'detail': search_err}))

    ev = {'property': prop, 'tier': tier, 'seed': seed, 'level': level, 'coverage': cov, 'assumptions': assumptions,
          'wall_s': round(time.time() - t0, 2), 'violations': len(violations)}
    os.makedirs(os.path.join(ROOT, 'evidence'), exist_ok=True)
    with open(os.path.join(ROOT, 'evidence', prop + '.json'), 'w') as fh:
        json.dump(ev, fh, indent=1, default=str)

    if search is not None:
        for kid, msg in search.known_hit.items():
            print('KNOWN-FINDING: property=%s %s: %s' % (prop, kid, str(msg)[:200]))
    print('%s: %d obligations, %d discharged, %d units, %d concrete evaluations, %.1fs'
          % (prop, total, discharged, len(results), search.evaluations if search else 0, time.time() - t0))
    if not violations:
        return 0
    inputs = [v for v in violations if v[0] == 'input']
    failed = [v[1] for v in violations if v[0] == 'obligation']
    for f in failed[:8]:
        print('  not discharged: %s / %s: %s %s' % (f['unit'], f['obligation'], f['verdict'], str(f.get('detail', ''))[-300:]))
    if inputs:
        v = inputs[0][1]
        path = write_replay(prop, 0, {'property': prop, 'kind': v['kind'], 'args': v['args'], 'message': v['message'],
                                      'other_inputs': [x[1] for x in inputs[1:6]], 'failed_obligations': failed[:20],
                                      'replay_cmd': './check %s --replay <this file>' % prop})
        print('  failing input: %s%r: %s' % (v['kind'], tuple(v['args']), v['message'][:400]))
        print('VIOLATION property=%s replay=%s' % (prop, path))
    else:
        path = write_replay(prop, 0, {'property': prop, 'failed_obligations': failed[:40], 'note': 'no failing input found'})
        print('VIOLATION property=%s replay=%s no-failing-input-found' % (prop, path))
    return 1


def replay(prop, path):
    import importlib
    mod = importlib.import_module('props.' + prop.lower())
    data = json.load(open(path))
    if 'kind' not in data:
        print(json.dumps(data, indent=1))
        return 1
    try:
        msg = mod.KINDS[data['kind']](*data['args'])
    except Exception as e:
        msg = 'exception %s: %s' % (type(e).__name__, e)
    print('replay %s%r: %s' % (data['kind'], tuple(data['args']), msg or 'property holds'))
    return 1 if msg else 0
