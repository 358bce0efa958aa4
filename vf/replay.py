"""Re-runs saved cases without Hypothesis."""
import importlib
import json
import sys
import traceback


def main():
    args = json.loads(sys.argv[1])
    out = {'failures': [], 'error': None}
    try:
        from vf import core
        core.load_library()
        importlib.import_module('vf.props.' + args['pid'].lower())
        subs = {s.name: s for s in core.SUBS[args['pid']]}
        for path in args['files']:
            d = json.load(open(path))
            s = subs[d['sub']]
            try:
                for c in d.get('history') or []:
                    core.run_case(s, c)
                core.run_case(s, d['case'])
            except core.Violation as err:
                out['failures'].append({'sub': s.name, 'case': d['case'], 'message': str(err)[:4000], 'file': path,
                                        'fails_alone': True, 'history': []})
    except BaseException:
        out['error'] = traceback.format_exc()
    with open(args['out'], 'w') as f:
        json.dump(out, f)


if __name__ == '__main__':
    main()
