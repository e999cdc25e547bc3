import numpy as np
import pandas as pd
from hypothesis import strategies as st

from pbt.gen import (INT, as_type, fl, frame, ints, large, make_time, pick,
                     rec, seeds, series, time_spec)
from pbt.harness import Sub, check, close, raises, arr
from pbt import oracles as O
from solarspatialtools import signalproc as sp

RULE = ('non-trivial: the peak correlation is positive and away from lag zero '
        'for at least one pair')
ASSUMPTIONS = ['a returned delay is accepted when the reference correlation '
               'there is within 1e-9 (relative to the product of signal '
               'norms) of its maximum, so ties may resolve either way',
               'constant columns and columns with missing values are claimed '
               'only not to influence other columns']

KIND = pick('noise', 'walk', 'smooth', 'steps', 'cloud')


def ref(a, b, scaling):
    """Correlation, lags and its rounding scale."""
    if scaling == 'coeff':
        x, y = a - a.mean(), b - b.mean()
        d = len(a) * a.std() * b.std()
    else:
        x, y = a, b
        d = 1.0
    num, L = O.xcorr(x, y)
    z = num / d
    tol = 1e-9 * np.sqrt((x * x).sum() * (y * y).sum()) / abs(d)
    return z, L, tol


def verify(delay, peak, a, b, dt, scaling, what):
    z, L, tol = ref(a, b, scaling)
    lag = -delay / dt
    k = int(round(lag)) + len(b) - 1
    check(abs(lag - round(lag)) < 1e-6 and 0 <= k < len(z),
          f'{what}: delay {delay} is not a lag of the correlation')
    top = z.max()
    if top < tol:
        return top
    check(z[k] >= top - 10 * tol, f'{what}: correlation {z[k]!r} at delay '
          f'{delay}, maximum {top!r} at {-L[z.argmax()] * dt}')
    close(peak, top, 1e-9, 10 * tol, f'{what}: peak correlation')
    return top


def pair_signals(c, ncol):
    X = np.column_stack([series(c['n'], c['seed'] + 13 * i, c['kind'])
                         for i in range(ncol)])
    Y = np.empty_like(X)
    r = np.random.default_rng(c['seed'] + 5)
    for i in range(ncol):
        s = int(r.integers(-c['n'] // 3, c['n'] // 3 + 1))
        long = series(3 * c['n'], c['seed'] + 13 * i, c['kind'])
        n = c['n']
        X[:, i] = long[n:2 * n]
        Y[:, i] = long[n - s:2 * n - s] + c['noise'] * (
            X[:, i].std() + 1e-9) * r.standard_normal(n)
    return X, Y


def one_case():
    return rec(n=ints(4, 120), seed=seeds(), kind=KIND, t=time_spec(),
               noise=pick(0.0, 0.1, 2.0),
               scaling=pick('coeff', 'energy', 'unbiased_coeff',
                            'unbiased_energy', None), whole=INT)


def one(c):
    X, Y = pair_signals(c, 1)
    a, b = X[:, 0], Y[:, 0]
    if a.std() < 1e-6 or b.std() < 1e-6:
        return ['trivial']
    ix = make_time(c['t'], c['n'])
    kw = {} if c['scaling'] is None else {'scaling': c['scaling']}
    A, B = pd.Series(a, ix), pd.Series(b, ix)
    if c['whole']:
        A, B = as_type(A, c['whole']), as_type(B, c['whole'])
        a, b = A.values.astype(float), B.values.astype(float)
        if a.std() < 1e-6 or b.std() < 1e-6:
            return ['trivial']
    d, p = sp.xcorr_delay(A, B, **kw)
    sc = c['scaling'] or 'coeff'
    dt = c['t']['dt']
    if sc == 'coeff':
        top = verify(d, p, a, b, dt, 'coeff', 'xcorr_delay')
    else:
        x, y = ((a - a.mean(), b - b.mean()) if 'coeff' in sc else (a, b))
        z, L = O.xcorr(x, y)
        den = (len(a) * a.std() * b.std() if 'coeff' in sc
               else (a * a).sum())
        z = z / den
        if 'unbiased' in sc:
            z = z * len(a) / (len(a) - np.abs(L))
        tol = 1e-7 * np.sqrt((x * x).sum() * (y * y).sum()) / den * len(a)
        k = int(round(-d / dt)) + len(b) - 1
        check(0 <= k < len(z) and abs(-d / dt - L[k]) < 1e-6,
              f'delay {d} is not a lag')
        top = z.max()
        check(z[k] >= top - tol, f'correlation {z[k]} at delay {d}, maximum '
                                 f'{top} ({sc})')
        close(p, top, 1e-7, tol, 'peak')
    return [sc] + (['trivial'] if top <= 0 or d == 0 else [])


def many_case():
    return rec(n=ints(4, 120), seed=seeds(), kind=KIND, t=time_spec(),
               noise=pick(0.0, 0.1, 2.0), ncol=ints(1, 4),
               scaling=pick('coeff', 'none', None), bad=pick(None, 'const',
                                                             'nan', 'huge'),
               tiny=pick(0, 0, 0, -6, -9, 5), opp=pick(False, False, True),
               badcol=ints(0, 3), whole=INT, off=pick(0, 0, 1, 3))


def many(c):
    X, Y = pair_signals(c, c['ncol'])
    if c['whole']:
        X, Y = (as_type(v, c['whole']).astype(float) for v in (X, Y))
    elif c.get('off'):      # signals on a level that is not zero
        X, Y = (v + c['off'] * (v.std() + .1) for v in (X, Y))
    n, ncol = X.shape
    k = 1. if c['whole'] else 10. ** c['tiny']
    X, Y = X * k, Y * k
    if c['opp'] and not c['whole']:
        # no lag with a positive product
        X[:, 0], Y[:, 0] = np.abs(X[:, 0]), -np.abs(Y[:, 0])
        X[0, 0] = 0
    ok = [i for i in range(ncol)
          if X[:, i].std() > 1e-6 * k and Y[:, i].std() > 1e-6 * k]
    bad = None
    if c['bad'] and ncol > 1:
        bad = c['badcol'] % ncol
        if c['bad'] == 'const':
            X[:, bad] = 1.0
        elif c['bad'] == 'nan':
            Y[n // 2, bad] = np.nan
        else:
            Y[:, bad] *= 1e3
        ok = [i for i in ok if i != bad]
    if not ok:
        return ['trivial']
    ix = make_time(c['t'], n)
    A, B = pd.DataFrame(X, index=ix), pd.DataFrame(Y, index=ix)
    if c['whole']:
        A = A.astype(c['whole'])
        if c['bad'] not in ('nan', 'huge'):
            B = B.astype(c['whole'])
    dt = c['t']['dt']
    sc = c['scaling'] or 'coeff'
    kw = {} if c['scaling'] is None else {'scaling': c['scaling']}
    res = {}
    with np.errstate(all='ignore'):
        for mode in ('loop', 'fft'):
            res[mode] = sp.compute_delays(A, B, mode=mode, **kw)
    d0, e0 = sp.compute_delays(A, B, **kw)     # default mode
    moving = False
    for mode, (d, e) in res.items():
        d = arr(d)
        check(d.shape == (ncol,), f'{mode}: {d.shape} delays')
        for key in ('peak_corr', 'mean_corr', 'zero_corr'):
            check(key in e, f'{mode}: {key} missing')
            check(arr(e[key]).shape == (ncol,),
                  f'{mode}: {key} has shape {arr(e[key]).shape}')
        for i in ok:
            a, b = X[:, i], Y[:, i]
            z, L, tol = ref(a, b, sc)
            top = verify(d[i], e['peak_corr'][i], a, b, dt, sc,
                         f'{mode} column {i}')
            # sums are negligible relative to the signals
            e2 = 1. if sc == 'coeff' else np.sqrt(
                (a * a).sum() * (b * b).sum())
            if top < 1e-11 * e2:
                check(d[i] == 0, f'{mode}: no positive correlation but delay '
                                 f'{d[i]}')
            moving |= top > 0 and d[i] != 0
            close(e['mean_corr'][i], z.mean(), 1e-9, 10 * tol,
                  f'{mode}: mean correlation')
            close(e['zero_corr'][i], z[len(b) - 1], 1e-9, 10 * tol,
                  f'{mode}: zero-lag correlation')
            sorted_z = np.sort(z)
            if sorted_z[-1] - sorted_z[-2] > 50 * tol and top > 1e-9 * e2:
                # unique maximum: every way of asking agrees
                check(d[i] == res['loop'][0][i], 'loop and fft disagree')
                check(d0[i] == res['loop'][0][i], 'default mode disagrees')
                if sc == 'coeff':
                    d1, p1 = sp.xcorr_delay(A.iloc[:, i], B.iloc[:, i])
                    check(d1 == d[i], 'xcorr_delay and compute_delays '
                                      'disagree')
                alone = sp.compute_delays(A.iloc[:, [i]], B.iloc[:, [i]],
                                          mode=mode, **kw)
                check(alone[0][0] == d[i], 'column alone gives another delay')
    return [sc, c['bad'] or 'clean'] + ([] if moving else ['trivial'])


def shift_case():
    return rec(n=ints(20, 200), seed=seeds(), kind=pick('noise', 'bump'),
               s=fl(-.4, .4), t=time_spec(), mode=pick('loop', 'fft', 'one'),
               ncol=ints(1, 3), far=pick(False, True),
               scaling=pick('coeff', 'none', None))


def shift(c):
    """A transient observed a whole number of samples later."""
    n = c['n']
    ix = make_time(c['t'], n)
    r = np.random.default_rng(c['seed'])
    X, Y, S = np.zeros((n, c['ncol'])), np.zeros((n, c['ncol'])), []
    w = max(3, n // 10)
    for i in range(c['ncol']):
        s = int(c['s'] * n * r.uniform(.2, 1))
        p = (r.standard_normal(w) if c['kind'] == 'noise'
             else np.hanning(w + 2)[1:-1])
        p = p - p.mean()
        k = n // 2 - w // 2
        if c['far']:
            # from anywhere to anywhere else in the record
            k, s = r.integers(0, n - w + 1, 2)
            if r.random() < .3:
                k, s = (0, n - w) if r.random() < .5 else (n - w, 0)
            s = int(s - k)
        X[k:k + w, i] = p
        Y[k + s:k + s + w, i] = p
        S.append(s)
    A, B = pd.DataFrame(X, index=ix), pd.DataFrame(Y, index=ix)
    e = np.array(S) * c['t']['dt']
    if c['mode'] == 'one':
        d = [sp.xcorr_delay(A.iloc[:, i], B.iloc[:, i])[0]
             for i in range(c['ncol'])]
    else:
        kw = {} if c['scaling'] is None else {'scaling': c['scaling']}
        d = sp.compute_delays(A, B, mode=c['mode'], **kw)[0]
    close(arr(d), e, 1e-9, 1e-9, 'delay of a copy shifted by whole samples')
    return [c['mode']] + (['trivial'] if not any(S) else [])


def bad_case():
    return rec(n=ints(4, 20), seed=seeds(), t=time_spec(),
               kw=pick({'mode': 'FFT2'}, {'mode': 'tf'},
                       {'scaling': 'energy'}, {'scaling': 'bad'},
                       {'scaling': 'unbiased_coeff', 'mode': 'fft'}))


def bad(c):
    A = frame(c['n'], 2, c['seed'], 'noise', make_time(c['t'], c['n']))
    raises(ValueError, lambda: sp.compute_delays(A, A, **c['kw']),
           f'compute_delays with {c["kw"]}')


SUBS = [
    Sub('single pair', one_case, one, 1000, 25000),
    Sub('many pairs', many_case, many, 1000, 25000),
    Sub('whole-sample shift', shift_case, shift, 800, 15000),
    Sub('rejections', bad_case, bad, 80, 500),
    Sub('single pair at scale', lambda: large(one_case(), n=ints(400, 3000)),
        one, 40, 600),
    Sub('many pairs at scale', lambda: large(many_case(), n=ints(300, 1500), ncol=ints(5, 24)),
        many, 40, 600),
    Sub('long pairs', lambda: large(many_case(), n=ints(1500, 12000), ncol=ints(1, 3), whole=pick(0), off=pick(1, 3),
                                    scaling=pick('none', 'none', 'coeff')), many, 16, 200),
    Sub('shift at scale', lambda: large(shift_case(), n=ints(400, 3000), ncol=ints(1, 12)),
        shift, 40, 600),
    Sub('hundreds of pairs', lambda: large(many_case(), n=ints(8, 60), ncol=ints(90, 300)),
        many, 16, 200),
    Sub('single pair of a day', lambda: large(one_case(), n=ints(66000, 87000), t=time_spec((1, .5, 2, 10))),
        one, 6, 60),
    Sub('many pairs of a day', lambda: large(many_case(), n=ints(66000, 87000), ncol=ints(1, 3), t=time_spec((1, .5, 2, 10))),
        many, 6, 60),
    Sub('shift of a day', lambda: large(shift_case(), n=ints(66000, 87000), t=time_spec((1, .5, 2, 10))),
        shift, 6, 60)]
