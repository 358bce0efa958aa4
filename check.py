#!/usr/bin/env python3
"""Runs the check of one property.

    check.py C01 [--tier quick|thorough] [--examples N] [--only SUB] [--timing]
    check.py C01 --replay FILE          re-runs one saved case, without Hypothesis

Exit 0: the property held on everything explored.  Exit 1 with a line ``VIOLATION property=<id> replay=<path>``: it is
broken.  Exit 2: the check itself is broken.
"""
import argparse
import glob
import json
import os
import shutil
import subprocess
import sys
import tempfile
import time

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from vf import env as E  # noqa: E402

TIMEOUT = {'quick': 840, 'thorough': 6 * 3600}


def known_open(pid):
    """Open entries of the known-findings file: {key: text}."""
    found = {}
    if os.path.exists(E.KNOWN):
        for line in open(E.KNOWN):
            parts = line.split(None, 3)
            if len(parts) == 4 and parts[0] == 'open:' and parts[1] == 'property=' + pid and parts[2].startswith('key='):
                found[parts[2][4:]] = parts[3].strip()
    return found


def run_children(jobs, scratch, timeout):
    """Starts one process per job (module, args) and waits for all of them; returns their results."""
    procs = []
    for i, (module, args) in enumerate(jobs):
        args['out'] = os.path.join(scratch, f'out{i}.json')
        log = open(os.path.join(scratch, f'log{i}.txt'), 'w')
        procs.append((args, log, subprocess.Popen([E.PYTHON, '-m', module, json.dumps(args)], cwd=scratch,
                                                  env=E.child_env(scratch), stdout=log, stderr=log)))
    end = time.time() + timeout
    results, errors = [], []
    for args, log, p in procs:
        try:
            p.wait(max(1.0, end - time.time()))
        except subprocess.TimeoutExpired:
            p.kill()
            p.wait()
            errors.append('time budget exhausted (inconclusive)')
            continue
        finally:
            log.close()
        try:
            results.append(json.load(open(args['out'])))
        except Exception:
            errors.append(f'worker died with status {p.returncode}: ' + open(log.name).read()[-3000:])
    errors += [r['error'] for r in results if r.get('error')]
    return results, errors


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('pid')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'), choices=['quick', 'thorough'])
    ap.add_argument('--replay')
    ap.add_argument('--examples', type=int)
    ap.add_argument('--only', action='append')
    ap.add_argument('--timing', action='store_true')
    ap.add_argument('--workers', type=int, default=E.WORKERS)
    a = ap.parse_args()
    seed = int(os.environ.get('VERIF_SEED') or '1')
    t0 = time.time()
    scratch = tempfile.mkdtemp(prefix=f'vf-{a.pid}-')
    try:
        return run(a, seed, t0, scratch)
    finally:
        shutil.rmtree(scratch, ignore_errors=True)


def run(a, seed, t0, scratch):
    pid = a.pid
    if a.replay:
        res, errors = run_children([('vf.replay', {'pid': pid, 'files': [os.path.abspath(a.replay)]})], scratch, 600)
        if errors:
            print('\n'.join(errors), file=sys.stderr)
            return 2
        for f in res[0]['failures']:
            print(f['message'])
            print(f'VIOLATION property={pid} replay={f["file"]}')
            return 1
        print('the replayed case holds')
        return 0

    jobs = [('vf.worker', {'pid': pid, 'tier': a.tier, 'seed': seed, 'worker': w, 'workers': a.workers,
                           'examples': a.examples, 'only': a.only}) for w in range(a.workers)]
    saved = sorted(glob.glob(os.path.join(E.REGRESS, pid, '*.json')))
    if saved:
        jobs.append(('vf.replay', {'pid': pid, 'files': saved}))
    results, errors = run_children(jobs, scratch, TIMEOUT[a.tier])

    subs, failures = {}, []
    for r in results:
        for f in r['failures']:
            failures.append(f)
        for name, s in r.get('subs', {}).items():
            d = subs.setdefault(name, {'evaluations': 0, 'keys': set(), 'labels': {}, 'samples': [], 'doc': s['doc'],
                                       'seconds': 0.0})
            d['evaluations'] += s['evaluations']
            d['keys'].update(s['keys'])
            d['seconds'] += s['seconds']
            d['samples'] = (d['samples'] + s['samples'])[:2]
            for k, v in s['labels'].items():
                d['labels'][k] = d['labels'].get(k, 0) + v

    known = known_open(pid)
    new = [f for f in failures if f.get('key') not in known]
    for key in sorted({f['key'] for f in failures if f.get('key') in known}):
        print(f'KNOWN-FINDING: property={pid} {known[key]}')

    os.makedirs(E.EVIDENCE, exist_ok=True)
    replay = None
    if new:
        new.sort(key=lambda f: (len(json.dumps(f['case'])), f['sub']))
        f = new[0]
        replay = f.get('file')
        if not replay:
            replay = os.path.join(E.EVIDENCE, f'{pid}-violation.json')
            with open(replay, 'w') as fh:
                json.dump({'property': pid, 'sub': f['sub'], 'case': f['case'], 'message': f['message'], 'seed': seed,
                           'fails_alone': f['fails_alone'], 'history': f['history']}, fh, indent=1)

    evaluations = sum(d['evaluations'] for d in subs.values())
    evidence = {
        'property': pid, 'tier': a.tier, 'seed': seed, 'level': 'exploration',
        'coverage': {
            'evaluations': evaluations,
            'distinct_nontrivial': sum(len(d['keys']) for d in subs.values()),
            'rule': 'Hypothesis draws plain cases from the strategy of each sub-test and the real library is run on '
                    'every one of them; a case is non-trivial when the sub-test marks it (it reached the situation the '
                    'sub-test is about - see its description and labels), and distinct by its JSON text.',
            'samples': [{'sub': n, 'case': c} for n, d in sorted(subs.items()) for c in d['samples'][:1]],
            'sub_tests': {n: {'about': d['doc'], 'evaluations': d['evaluations'],
                              'distinct_nontrivial': len(d['keys']), 'labels': dict(sorted(d['labels'].items()))}
                          for n, d in sorted(subs.items())},
            'saved_cases_replayed': len(saved),
        },
        'assumptions': ['The reference computations in /verif/vf and the comparison tolerances stated there are right.'],
        'wall_s': round(time.time() - t0, 2),
        'violations': len(new),
    }
    with open(os.path.join(E.EVIDENCE, pid + '.json'), 'w') as fh:
        json.dump(evidence, fh, indent=1)

    if a.timing:
        for n, d in sorted(subs.items()):
            print(f'  {pid}.{n:34s} {d["evaluations"]:6d} ev {len(d["keys"]):6d} nt {d["seconds"]:7.1f} cpu-s  '
                  + ' '.join(f'{k}={v}' for k, v in sorted(d['labels'].items())))
    if errors and not new:
        print('\n'.join(errors), file=sys.stderr)
        return 2
    if new:
        for f in {f['sub']: f for f in reversed(new)}.values():
            print(f'{pid}.{f["sub"]}: {f["message"][:1500]}')
        print(f'VIOLATION property={pid} replay={replay}')
        return 1
    vac = [n for n, d in subs.items() if d['evaluations'] and not d['keys']]
    if vac and not a.examples:
        print(f'vacuous sub-tests: {vac}', file=sys.stderr)
        return 2
    print(f'{pid}: held on {evaluations} cases ({evidence["coverage"]["distinct_nontrivial"]} distinct non-trivial), '
          f'{evidence["wall_s"]} s')
    return 0


if __name__ == '__main__':
    sys.exit(main())
