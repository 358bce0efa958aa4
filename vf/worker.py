"""Worker process: runs its share of every sub-test of one property and writes a JSON result."""
import importlib
import json
import sys
import time
import traceback


def main():
    args = json.loads(sys.argv[1])
    out = {'worker': args['worker'], 'subs': {}, 'failures': [], 'error': None}
    try:
        from vf import core
        core.load_library()
        importlib.import_module('vf.props.' + args['pid'].lower())
        for s in core.SUBS[args['pid']]:
            if args.get('only') and s.name not in args['only']:
                continue
            total = args.get('examples') or (s.quick if args['tier'] == 'quick' else s.thorough)
            n = total // args['workers'] + (1 if args['worker'] < total % args['workers'] else 0)
            stats = core.Stats()
            t0 = time.time()
            failure = None
            if n > 0:
                failure = core.drive(s, n, core.derive_seed(args['seed'], s.pid, s.name, args['worker']), stats)
            out['subs'][s.name] = {'evaluations': stats.evaluations, 'keys': sorted(stats.keys),
                                   'labels': stats.labels, 'samples': stats.samples, 'doc': s.doc,
                                   'seconds': time.time() - t0}
            if failure:
                out['failures'].append(failure)
                if 'no result within' in failure['message']:
                    break
    except BaseException:
        out['error'] = traceback.format_exc()
    with open(args['out'], 'w') as f:
        json.dump(out, f)


if __name__ == '__main__':
    main()
