"""Carrying out the checks of one property and writing its evidence."""
import concurrent.futures as cf
import json
import os
import time

import run as R
from registry import REG


def run(a, tmp, t0):
    pid = a.pid
    reg = REG.get(pid, {})
    opts = {'verbose': a.verbose, 'dump': a.dump, 'seconds': 100 if a.tier == 'quick' else 180}
    tus = reg.get('tus') or R.tus_for(pid)
    R.extractor() if tus else None
    paths = []
    if tus:
        with cf.ThreadPoolExecutor(8) as ex:
            paths = list(ex.map(lambda t: R.extract(t, tmp), tus))
    jobs = []
    for p in paths:
        for k in R.keys_in(p, pid):
            if a.only and k[1] != a.only:
                continue
            jobs.append((p, k))
    res = R.run_all(jobs, opts, a.jobs, a.timeout)
    for rule in reg.get('rules', []):
        res += rule(paths, tmp)
    if not a.only:
        want = reg.get('min', 1)
        if len(res) < want:
            raise R.Broken('only %d obligations were found, %d expected' % (len(res), want))
    known = load_known(pid)
    ok = [r for r in res if r['status'] == 'ok']
    bad = [r for r in res if r['status'] == 'fail']
    err = [r for r in res if r['status'] not in ('ok', 'fail')]
    listed, unlisted = [], []
    for r in bad:
        k = [x for x in known if x['obligation'] == r['obligation'] and
             x.get('signature', '') in r.get('detail', '')]
        (listed if k else unlisted).append((r, k[0] if k else None))
    for r in res:
        if a.verbose or r['status'] not in ('ok',):
            print('%-12s %s  %.1fs %s' % (r['status'], r['obligation'], r.get('wall_s', 0),
                                        r.get('stats', '')))
            if r['status'] != 'ok':
                print('   ' + r.get('detail', '').replace('\n', '\n   '))
                for f in r.get('functions', [])[:30]:
                    print('      analysed: ' + f)
    fns = sorted({f for r in res for f in r.get('functions', [])})
    ev = {
        'property': pid, 'tier': a.tier, 'seed': int(os.environ.get('VERIF_SEED', '0') or 0),
        'level': 'other',
        'coverage': {
            'explanation': reg.get('explain', DEFAULT_EXPLAIN),
            'obligations': len(res), 'discharged': len(ok),
            'translation_units': tus,
            'functions_analysed': fns,
            'per_obligation': [{'name': r['obligation'], 'status': r['status'],
                                'seconds': r.get('wall_s', 0),
                                'case_splits': r.get('stats', {}).get('splits', 0),
                                'opaque_calls': sorted(r.get('opaque', {})),
                                'accesses': r.get('bounds', {}).get('accesses', 0),
                                'accesses_not_shown_in_range': r.get('bounds', {}).get('not_shown', []),
                                } for r in res],
            'accesses_checked_for_range': sum(r.get('bounds', {}).get('accesses', 0) for r in res),
        },
        'assumptions': reg.get('assumptions', DEFAULT_ASSUME),
        'wall_s': round(time.time() - t0, 1),
    }
    if unlisted:
        ev['violations'] = len(unlisted)
    if not a.only and not os.environ.get('VERIF_NO_EVIDENCE'):
        d = os.path.join(R.VERIF, 'evidence')
        os.makedirs(d, exist_ok=True)
        with open(os.path.join(d, pid + '.json'), 'w') as f:
            json.dump(ev, f, indent=1)
    for r, k in listed:
        print('KNOWN-FINDING: property=%s %s' % (pid, k['what']))
    if unlisted:
        rp = os.path.join(R.VERIF, 'evidence', pid + '-violation.txt')
        with open(rp, 'w') as f:
            for r, _k in unlisted:
                f.write('obligation %s\n%s\n' % (r['obligation'], r.get('detail', '')))
                for x in r.get('functions', []):
                    f.write('  analysed %s\n' % x)
        for r, _k in unlisted:
            print('VIOLATION property=%s replay=%s' % (pid, rp))
        return 1
    if err:
        print('ANALYSIS-BROKEN %s: %d obligations without an answer' % (pid, len(err)))
        return 3
    print('OK %s: %d obligations, %d functions, %.1fs' % (pid, len(res), len(fns), time.time() - t0))
    return 0


def load_known(pid):
    p = os.path.join(R.VERIF, 'known_findings.json')
    if not os.path.exists(p):
        return []
    return [x for x in json.load(open(p)).get('findings', []) if x['property'] == pid]


DEFAULT_EXPLAIN = (
    'Static value-flow analysis of the current sources: every function named under functions_analysed '
    'was parsed with the clang front end and summarised (results, final contents of reachable objects, '
    'exit conditions) as normalised terms over its unconstrained inputs, with gated merges at joins and '
    'closed forms for loops; each obligation compares that summary with the one of the reference '
    'semantics for the property, and is discharged only if the two are equal for every input.')
DEFAULT_ASSUME = [
    'real-number semantics for floating-point arithmetic, mathematical integers (narrowing to 16 bits '
    'or less and float/double conversions are kept)',
    'arguments passed by reference do not alias',
    'the models of Eigen, the standard library and range-v3 in engine/models.py are faithful',
]
