"""Property-based testing harness.

A check module defines PROPERTY, RULE, and SUBS: a list of Sub objects. Each
Sub has a Hypothesis strategy that produces a complete JSON-able case, and an
oracle: a pure function of the case that runs the real code and raises
Violation when the property does not hold. The oracle returns tags that classify
the case; a case is non-trivial unless the tag 'trivial' is returned.
"""
import hashlib
import json
import math
import os
import signal
import sys
import time
import traceback

import numpy as np


class Violation(AssertionError):
    pass


class Sub:
    def __init__(self, name, strategy, oracle, quick, thorough=None,
                 shards=None, rule=''):
        self.name = name
        self.strategy = strategy      # zero-arg callable -> strategy
        self.oracle = oracle          # case -> iterable of tags (or None)
        self.quick = quick
        self.thorough = thorough if thorough is not None else quick * 20
        self.shards = shards
        self.rule = rule


# ---------------------------------------------------------------- comparisons
def check(cond, msg):
    try:
        ok = bool(cond)
    except Exception as e:  # ambiguous truth value of a malformed result
        raise Violation(f'{msg} (condition not evaluable: {e})')
    if not ok:
        raise Violation(msg)


def arr(x, what='result', dtype=None):
    """Convert a result to an array; a result that cannot be is a violation."""
    try:
        a = np.asarray(x, dtype=dtype)
        if a.dtype == object:
            a = a.astype(float)
        return a
    except Exception as e:
        raise Violation(f'{what}: not array-like ({type(x).__name__}: {e})')


def close(actual, expected, rtol=1e-9, atol=0.0, what='result', shape=True):
    a = arr(actual, what)
    e = np.asarray(expected)
    if shape and a.shape != e.shape:
        raise Violation(f'{what}: shape {a.shape}, expected {e.shape}')
    try:
        ok = np.isclose(a, e, rtol=rtol, atol=atol, equal_nan=True)
    except Exception as ex:
        raise Violation(f'{what}: not comparable ({ex})')
    if not np.all(ok):
        bad = np.argwhere(~np.atleast_1d(ok))[0]
        av = np.broadcast_to(np.atleast_1d(a), np.atleast_1d(ok).shape)
        ev = np.broadcast_to(np.atleast_1d(e), np.atleast_1d(ok).shape)
        raise Violation(
            f'{what}: at {tuple(int(b) for b in bad)} got '
            f'{av[tuple(bad)]!r}, expected {ev[tuple(bad)]!r} '
            f'(rtol={rtol:g}, atol={float(np.max(atol)):g}, '
            f'{int((~ok).sum())} of {ok.size} differ)')


def same_index(actual, expected, what='index'):
    try:
        ok = (len(actual) == len(expected)
              and all(_eq(a, b) for a, b in zip(actual, expected)))
    except Exception as e:
        raise Violation(f'{what}: not comparable ({e})')
    if not ok:
        raise Violation(f'{what}: {list(actual)[:6]!r} expected '
                        f'{list(expected)[:6]!r}')


def _eq(a, b):
    if isinstance(a, float) and isinstance(b, float) \
            and math.isnan(a) and math.isnan(b):
        return True
    return a == b


def raises(exc, fn, what):
    try:
        fn()
    except exc:
        return
    except Exception as e:
        raise Violation(f'{what}: raised {type(e).__name__}, expected '
                        f'{exc}')
    raise Violation(f'{what}: did not raise')


# -------------------------------------------------------------------- running
def jdump(case):
    return json.dumps(case, sort_keys=True, default=_default)


def _default(o):
    if isinstance(o, np.generic):
        return o.item()
    if isinstance(o, np.ndarray):
        return o.tolist()
    raise TypeError(type(o))


def derive_seed(*parts):
    h = hashlib.sha256('|'.join(str(p) for p in parts).encode()).digest()
    return int.from_bytes(h[:6], 'big')


class _Stuck(BaseException):
    pass


SHRINK_BUDGET = 45    # seconds
CASE_LIMIT = 100    # seconds; cases take milliseconds, the slowest a few seconds


def _on_alarm(*_):
    raise _Stuck()


def run_oracle(sub, case):
    """Run the oracle on one case. Returns (tags, None) or (None, message).
    A case that does not return is a violation as well."""
    try:
        signal.signal(signal.SIGALRM, _on_alarm)
        signal.setitimer(signal.ITIMER_REAL, CASE_LIMIT)
        return _run_oracle(sub, case)
    except _Stuck:
        return None, f'no result within {CASE_LIMIT} s'
    finally:
        signal.setitimer(signal.ITIMER_REAL, 0)


def _run_oracle(sub, case):
    from hypothesis.errors import HypothesisException
    try:
        with np.errstate(all='ignore'):
            tags = sub.oracle(case)
        return tuple(tags or ()), None
    except Violation as v:
        return None, str(v)
    except HypothesisException:
        raise
    except (MemoryError, ImportError):
        raise
    except Exception as e:
        tb = traceback.extract_tb(e.__traceback__)
        where = [f for f in tb if '/solarspatialtools/' in f.filename]
        last = where[-1] if where else tb[-1]
        kind = ('code under test raised' if where
                else 'result unusable by the oracle:')
        return None, (f'{kind} {type(e).__name__}: {str(e)[:300]} at '
                      f'{os.path.basename(last.filename)}:{last.name}')


def run_shard(prop, sub, shard, nshards, n_examples, seed, deadline):
    """Run one shard of one sub-check with Hypothesis."""
    import hypothesis
    from hypothesis import settings, HealthCheck, Phase, given

    stats = {'evaluations': 0, 'seen': {}, 'tags': {}, 'samples': [],
             'failure': None, 'timeout': False}
    t_first_fail = [None]

    def body(case):
        now = time.time()
        if now > deadline:
            stats['timeout'] = True
            return
        if t_first_fail[0] is not None \
                and now > t_first_fail[0] + SHRINK_BUDGET:
            return
        tags, msg = run_oracle(sub, case)
        if msg is not None:
            if t_first_fail[0] is None:
                t_first_fail[0] = now
            stats['failure'] = (json.loads(jdump(case)), msg)
            raise Violation(msg)
        if t_first_fail[0] is not None:
            return
        stats['evaluations'] += 1
        text = jdump(case)
        key = hashlib.md5(text.encode()).hexdigest()[:16]
        trivial = 'trivial' in tags
        for t in tags:
            stats['tags'][t] = stats['tags'].get(t, 0) + 1
        if key not in stats['seen']:
            stats['seen'][key] = not trivial
            if not trivial and len(text) < 1500:
                stats['samples'].append(text)
                if len(stats['samples']) > 3:
                    stats['samples'].pop(1)

    test = given(sub.strategy())(body)
    test = settings(max_examples=n_examples, deadline=None, database=None,
                    suppress_health_check=list(HealthCheck),
                    phases=(Phase.generate, Phase.shrink),
                    report_multiple_bugs=False, print_blob=False)(test)
    test = hypothesis.seed(derive_seed(seed, prop, sub.name, shard))(test)
    try:
        test()
    except Violation:
        pass
    except Exception:
        if stats['failure'] is None:
            raise
    return stats
