"""Sub-tests, the oracle vocabulary and the Hypothesis driver.

A property is decided by several sub-tests.  A sub-test is a Hypothesis strategy producing plain JSON-able cases (so a
failing case is a replay file) and a function ``check(case, ev)`` which runs the real library on the case and raises
`Violation` if the oracle disagrees.  ``ev.label`` classifies a case and ``ev.nontrivial()`` marks it as one which
exercises what the sub-test is about.
"""
import contextlib
import hashlib
import json
import math
import os
import signal
import sys
import traceback
import warnings

import numpy as np
import hypothesis
from hypothesis import HealthCheck, Phase, given, settings

from vf.env import REPO

SUBS = {}


class Violation(AssertionError):
    """The property does not hold for this case."""


class HarnessError(Exception):
    """The harness itself is at fault: never reported as a violation."""


class _StopShrink(BaseException):
    """Ends a Hypothesis run when the shrinking budget is spent."""


class Sub:
    def __init__(self, pid, name, strategy, check, quick, thorough, doc):
        self.pid, self.name, self.strategy, self.check = pid, name, strategy, check
        self.quick, self.thorough, self.doc = quick, thorough, doc


def sub(pid, strategy, quick=400, thorough=None, name=None):
    """Registers a sub-test of the property `pid`; `quick`/`thorough` are the total numbers of examples.  With a `name`
    a check which is registered already runs on cases of another generator too."""
    def deco(fn):
        lst = SUBS.setdefault(pid, [])
        key = name or fn.__name__
        assert key not in [s.name for s in lst], key
        lst.append(Sub(pid, key, strategy, fn, quick, thorough or quick * 25, (fn.__doc__ or '').strip()))
        return fn
    return deco


class Ev:
    """What one evaluation reports about its case."""

    def __init__(self):
        self.labels = []
        self.nt = False

    def label(self, *names):
        self.labels.extend(names)

    def nontrivial(self, flag=True):
        if flag:
            self.nt = True


# --------------------------------------------------------------------------------------- oracle vocabulary

def fail(msg):
    raise Violation(msg)


def require(cond, msg, *args):
    if not cond:
        raise Violation(msg.format(*args) if args else msg)


def _show(x):
    s = repr(x)
    return s if len(s) < 400 else s[:400] + '...'


def arr(x):
    return np.asarray(x)


def same(a, b, what, dtype=False):
    """Exact equality of shape and values (NaN equals NaN)."""
    a, b = np.asarray(a), np.asarray(b)
    if a.shape != b.shape:
        raise Violation(f'{what}: shape {a.shape} instead of {b.shape}; got {_show(a)}, expected {_show(b)}')
    if dtype and a.dtype != b.dtype:
        raise Violation(f'{what}: dtype {a.dtype} instead of {b.dtype}')
    with np.errstate(all='ignore'):
        ok = (a == b)
        if a.dtype.kind == 'f' and b.dtype.kind == 'f':
            ok = ok | (np.isnan(a) & np.isnan(b))
    if not np.all(ok):
        raise Violation(f'{what}: got {_show(a)}, expected {_show(b)}')


def close(a, b, what, rtol=1e-9, atol=1e-12):
    """Equality of shape and closeness of values: |a-b| <= atol + rtol*max|b| (arrays as a whole; NaN equals NaN)."""
    a, b = np.asarray(a, dtype=np.float64), np.asarray(b, dtype=np.float64)
    if a.shape != b.shape:
        raise Violation(f'{what}: shape {a.shape} instead of {b.shape}; got {_show(a)}, expected {_show(b)}')
    if a.size == 0:
        return
    na, nb = np.isnan(a), np.isnan(b)
    if np.any(na != nb):
        raise Violation(f'{what}: NaN pattern differs: got {_show(a)}, expected {_show(b)}')
    fin = ~nb
    with np.errstate(all='ignore'):
        bf, af = b[fin], a[fin]
        inf = np.isinf(bf)
        if np.any(af[inf] != bf[inf]) or np.any(np.isinf(af) != inf):
            raise Violation(f'{what}: infinities differ: got {_show(a)}, expected {_show(b)}')
        bf, af = bf[~inf], af[~inf]
        if bf.size == 0:
            return
        tol = atol + rtol * float(np.max(np.abs(bf)))
        err = float(np.max(np.abs(af - bf)))
    if not err <= tol:
        raise Violation(f'{what}: differs by {err:.3g} (tolerance {tol:.3g}): got {_show(a)}, expected {_show(b)}')


def raises(exc, fn, what):
    """fn() must raise one of the given exception types."""
    try:
        with quiet():
            r = fn()
    except exc:
        return
    except Exception as err:
        raise Violation(f'{what}: raised {type(err).__name__} ({err}) instead of {_names(exc)}') from err
    raise Violation(f'{what}: returned {_show(r)} instead of raising {_names(exc)}')


def _names(exc):
    return exc.__name__ if isinstance(exc, type) else '/'.join(e.__name__ for e in exc)


@contextlib.contextmanager
def quiet():
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        with np.errstate(all='ignore'):
            yield


@contextlib.contextmanager
def recorded():
    """Records the warnings raised inside the block."""
    with warnings.catch_warnings(record=True) as w:
        warnings.simplefilter('always')
        with np.errstate(all='ignore'):
            yield w


def snapshot(*arrays):
    return [np.array(a, copy=True) for a in arrays]


# --------------------------------------------------------------------------------------- running one case

def load_library():
    if sys.path[0] != REPO:
        sys.path.insert(0, REPO)
    import skcurve
    if os.path.realpath(os.path.dirname(skcurve.__file__)) != os.path.realpath(os.path.join(REPO, 'skcurve')):
        raise HarnessError(f'skcurve comes from {skcurve.__file__}, not from {REPO}')
    return skcurve


def _case_key(case):
    return hashlib.blake2b(json.dumps(case, sort_keys=True).encode(), digest_size=12).hexdigest()


CASE_SECONDS = 100      # cases take milliseconds


@contextlib.contextmanager
def watchdog(seconds):
    """A case which does not come to an end is a violation, not a check without an answer."""
    def expired(signum, frame):
        raise Violation(f'no result within {seconds} s of processor time')
    old = signal.signal(signal.SIGPROF, expired)
    signal.setitimer(signal.ITIMER_PROF, seconds)       # processor time: a loaded machine does not count
    try:
        yield
    finally:
        signal.setitimer(signal.ITIMER_PROF, 0)
        signal.signal(signal.SIGPROF, old)


_ORACLE_FILES = ('oracle.py', 'gen.py', 'env.py')


def run_case(s, case):
    """Runs one case; returns its Ev, raises Violation (property broken) or HarnessError (harness broken)."""
    ev = Ev()
    try:
        with quiet(), watchdog(CASE_SECONDS):
            s.check(case, ev)
    except Violation:
        raise
    except (HarnessError, hypothesis.errors.HypothesisException, KeyboardInterrupt):
        raise
    except Exception as err:
        # An unexpected exception out of the library, or a result the comparison cannot even process, violates the
        # property.  One raised by the harness' own reference code, which sees only the case, is a harness error.
        frames = traceback.extract_tb(err.__traceback__)
        in_lib = any(os.path.realpath(f.filename).startswith(os.path.realpath(REPO) + os.sep) for f in frames)
        in_oracle = any(os.path.basename(f.filename) in _ORACLE_FILES and os.sep + 'vf' + os.sep in f.filename
                        for f in frames)
        tb = ''.join(traceback.format_exception(type(err), err, err.__traceback__)[-6:])
        if in_oracle and not in_lib:
            raise HarnessError(tb) from err
        raise Violation(f'unexpected {type(err).__name__}: {err}\n{tb}') from err
    return ev


class Stats:
    def __init__(self):
        self.evaluations = 0
        self.keys = set()
        self.labels = {}
        self.samples = []

    def add(self, case, ev):
        self.evaluations += 1
        for l in ev.labels:
            self.labels[l] = self.labels.get(l, 0) + 1
        if ev.nt:
            k = _case_key(case)
            if k not in self.keys:
                self.keys.add(k)
                if len(self.samples) < 2 and len(json.dumps(case)) < 1500:
                    self.samples.append(case)


SHRINK_BUDGET = 400
HISTORY = 12


def drive(s, n, seed, stats):
    """Runs the sub-test on n generated cases.  Returns None or a failure record."""
    best = {}
    state = {'after': 0}
    recent = []

    @hypothesis.seed(seed)
    @settings(max_examples=n, deadline=None, database=None, phases=[Phase.generate, Phase.shrink],
              suppress_health_check=list(HealthCheck), report_multiple_bugs=False, print_blob=False)
    @given(s.strategy)
    def test(case):
        if best:
            state['after'] += 1
            if state['after'] > SHRINK_BUDGET:
                raise _StopShrink()
        try:
            ev = run_case(s, case)
        except Violation as err:
            if 'no result within' in str(err):
                state['after'] = SHRINK_BUDGET      # do not wait again and again
            txt = json.dumps(case, sort_keys=True)
            if not best or (len(txt), txt) < (len(best['txt']), best['txt']):
                best.update(txt=txt, case=case, message=str(err))
                best.setdefault('history', [c for c in recent])
            raise
        if not best:
            stats.add(case, ev)
            recent.append(case)
            del recent[:-HISTORY]

    try:
        test()
    except _StopShrink:
        pass
    except Violation:
        pass
    except hypothesis.errors.Flaky:
        if not best:
            raise
    except HarnessError:
        raise
    except hypothesis.errors.HypothesisException as err:
        if not best:
            raise HarnessError(f'{s.pid}.{s.name}: {type(err).__name__}: {err}') from err
    if best:
        alone = True
        try:
            run_case(s, best['case'])
            alone = False
        except Violation as err:
            best['message'] = str(err)
        return {'sub': s.name, 'case': best['case'], 'message': best['message'][:4000],
                'fails_alone': alone, 'history': [] if alone else best['history']}
    return None


def derive_seed(base, *parts):
    h = hashlib.blake2b(repr((int(base),) + parts).encode(), digest_size=6)
    return int.from_bytes(h.digest(), 'big')
