import numpy as np
import pandas as pd
from hypothesis import strategies as st

from pbt.gen import (as_type, fl, index_spec, ints, large, make_index,
                     make_time, pick, rec, seeds, series, sig_spec,
                     time_spec)
from pbt.harness import Sub, check, close, raises, arr
from pbt import oracles as O
from solarspatialtools import signalproc as sp

RULE = 'non-trivial: both signals have at least three samples and vary'
ASSUMPTIONS = ['the normalised scalings (other than energy) are exercised '
               'with an estimation at most as long as the baseline and '
               'signals whose deviation exceeds 1e-5 of their size']

VALS = st.lists(st.one_of(fl(-10, 10), ints(-5, 5)), min_size=2, max_size=12)
SC = pick('energy', 'coeff', 'unbiased_energy', 'unbiased_coeff', 'none')


def sig():
    return st.one_of(rec(v=VALS),
                     sig_spec(3, 150, ('noise', 'walk', 'smooth', 'cloud')))


def expand(s, n=None):
    if 'v' in s:
        x = np.array(s['v'], float)
        x = np.where(np.abs(x) < 1e-6, 0, x)
    else:
        x = series(s['n'], s['seed'], s['kind'])
    if n is not None:
        x = np.resize(x, n)
    return x


def pack(kind, x, ts):
    if kind == 'array':
        return x.copy()
    if kind == 'list':
        return x.tolist()
    if kind.startswith('int'):
        return x.astype('int64' if kind == 'int' else kind)
    if kind == 'series16':
        return pd.Series(x.astype('int16'), index=make_time(ts, len(x)))
    return pd.Series(x, index=make_time(ts, len(x)))


def varies(x):
    return np.std(x) > 1e-5 * np.max(np.abs(x)) > 0


def case():
    return rec(a=sig(), b=sig(), scaling=st.one_of(SC, st.none()),
               same=st.booleans(), kind=pick('array', 'list', 'series', 'int', 'int16',
                                       'int32', 'series16'),
               t=time_spec(), upper=st.booleans(),
               amp=pick(1, 1, 1, 1e-5, 1e-8, 1e6),
               off=pick(0, 0, 0, 100, 1e4))


def norm(a, b, lags, scaling):
    """The documented normaliser, per lag."""
    n = len(a)
    if scaling == 'none':
        return np.ones(len(lags))
    if scaling.endswith('energy'):
        d = np.sum(a * a) * np.ones(len(lags))
    else:
        d = n * np.std(a) * np.std(b) * np.ones(len(lags))
    if scaling.startswith('unbiased'):
        d = d * (n - np.abs(lags)) / n
    return d


def oracle(c):
    a, b = expand(c['a']), expand(c['b'])
    sc = c['scaling'] or 'coeff'
    if c['same']:
        b = np.resize(b, len(a))
    elif sc not in ('none', 'energy') and len(b) > len(a):
        b = b[:len(a)]   # else the lag correction has no positive value
    if c['kind'] == 'int':
        a, b = np.round(a * 20), np.round(b * 20)
    elif c['kind'] in ('int16', 'int32', 'series16'):
        a, b = (as_type(v, 'int16').astype(float) for v in (a, b))
    else:
        if varies(a) and varies(b):     # small variations on a large level
            a, b = (v + c.get('off', 0) * np.std(v) for v in (a, b))
        a, b = a * c.get('amp', 1), b * c.get('amp', 1)
    if not (varies(a) and varies(b)):
        if 'coeff' in sc or not np.any(a):
            return ['trivial']
    arg = sc.upper() if c['upper'] else sc
    kw = {} if c['scaling'] is None else {'scaling': arg}
    corr, lags = sp.correlation(pack(c['kind'], a, c['t']),
                                pack(c['kind'], b, c['t']), **kw)
    corr, lags = arr(corr), arr(lags)
    if 'coeff' in sc:
        num, L = O.xcorr(a - a.mean(), b - b.mean())
    else:
        num, L = O.xcorr(a, b)
    check(np.array_equal(lags, L), f'lags {lags[:3]}..{lags[-3:]}, expected '
                                   f'{L[0]}..{L[-1]}')
    d = norm(a, b, L, sc)
    x, y = (a - a.mean(), b - b.mean()) if 'coeff' in sc else (a, b)
    nx, ny, na, nb = (np.sqrt(np.sum(v * v)) for v in (x, y, a, b))
    tol = 1e-11 * nx * ny + 1e-13 * max(nx * nb, na * ny)
    close(corr, num / d, 1e-10, tol / np.abs(d), f'correlation ({sc})')
    return [sc, c['kind']] + (['trivial'] if len(a) < 3 or len(b) < 3
                              else [])


def laws_case():
    return rec(a=sig(), b=sig(), g1=fl(0.1, 50), g2=fl(0.1, 50),
               o1=fl(-10, 10), o2=fl(-10, 10), ub=st.booleans(),
               kind=pick('array', 'series'), t=time_spec())


def laws(c):
    a = expand(c['a'])
    b = expand(c['b'], len(a))
    if not (varies(a) and varies(b)):
        return ['trivial']
    P = lambda x: pack(c['kind'], x, c['t'])
    f = lambda x, y, s='coeff': arr(sp.correlation(P(x), P(y), scaling=s)[0])
    r = f(a, b)
    cond = 1e-11 * (1 + (np.abs(a).max() / a.std())) * (
        1 + np.abs(b).max() / b.std())
    check(np.all(np.abs(r) <= 1 + cond), f'coefficient {np.abs(r).max()!r}')
    n = len(a)
    own = f(a, a)
    close(own[n - 1], 1.0, 0, cond * 10, 'own coefficient at lag zero')
    close(f(b, a), r[::-1], 0, cond, 'exchanged signals mirror the lags')
    s = 'unbiased_coeff' if c['ub'] else 'coeff'
    c2 = cond * 100 * (1 + abs(c['o1'])) * (1 + abs(c['o2'])) * n / min(
        1, a.std()) / min(1, b.std())
    close(f(c['g1'] * a + c['o1'], c['g2'] * b + c['o2'], s), f(a, b, s),
          0, c2, 'gains and offsets change the coefficient')
    e = f(a, b, 'none')
    close(f(b, a, 'none')[::-1], e, 0,
          1e-10 * np.sqrt((a * a).sum() * (b * b).sum()), 'mirrored raw sums')
    return ['trivial'] if n < 3 else []


def bad_case():
    return rec(s=pick('coef', '', 'biased', 'unbiased', 'energy '), a=VALS)


def bad(c):
    raises(ValueError, lambda: sp.correlation(np.array(c['a']),
                                              np.array(c['a']), c['s']),
           'unknown scaling')


def fft_case():
    return rec(a=sig_spec(3, 120, ('noise', 'walk', 'smooth', 'cloud')),
               seeds=st.lists(seeds(), min_size=1, max_size=4),
               scaling=st.one_of(pick('coeff', 'none', 'coef', 'energy'),
                                 st.none()),
               kind=pick('array', 'series', 'frame', 'frame', 'rows'),
               one=st.booleans(), t=time_spec(), scale=pick(1, 1, 1e3, 1e-3),
               lift=pick(0, 0, 5, 100))


def fft(c):
    f = getattr(sp, '_fftcorrelate', None)
    if f is None:
        return ['trivial']
    s, n = c['a'], c['a']['n']
    k = 1 if c['kind'] in ('array', 'series') else len(c['seeds'])
    r = [np.random.default_rng(q) for q in c['seeds'][:k]]
    A = np.array([series(n, s['seed'] + i, s['kind']) for i in range(k)])
    B = np.array([series(n, int(q.integers(2**31)), s['kind']) for q in r])
    B = B * np.array([q.uniform(.1, 5) for q in r])[:, None] + c['lift']
    A = A * c['scale'] - c['lift']
    sc = c['scaling'] or 'coeff'
    if 'coeff' in sc and not all(varies(v) for v in [*A, *B]):
        return ['trivial']
    ix = make_time(c['t'], n)

    def as_(m):
        if c['kind'] == 'array':
            return m[0].copy()
        if c['kind'] == 'series':
            return pd.Series(m[0], ix)
        if c['kind'] == 'rows':
            return m.copy()
        return pd.DataFrame(m.T, ix, [f's{i}' for i in range(k)])
    kw = {} if c['scaling'] is None else {'scaling': sc}
    if sc not in ('coeff', 'none'):
        raises(ValueError, lambda: f(as_(A), as_(B), **kw), 'scaling')
        return ['rejected', 'trivial']
    corr, lags = f(as_(A), as_(B), **kw)
    corr = np.atleast_2d(arr(corr))
    check(corr.shape == (k, 2 * n - 1), f'shape {corr.shape}')
    if c['kind'] != 'rows':   # in rows, the lags have no documented meaning
        check(np.array_equal(arr(lags), np.arange(1 - n, n)),
              f'lags {arr(lags)[:3]}')
    for i in range(k):
        a, b = A[i], B[i]
        d = 1.
        if sc == 'coeff':
            d = n * np.std(a) * np.std(b)
            a, b = a - a.mean(), b - b.mean()
        e, _ = O.xcorr(a, b)
        tol = 1e-10 * np.sqrt((A[i] ** 2).sum() * (B[i] ** 2).sum()) / d
        close(corr[i], e / d, 1e-10, tol, f'pair {i} of {k} ({sc})')
    return [sc, c['kind']]


SUBS = [
    Sub('defining sum', case, oracle, 1600, 40000),
    Sub('signal pairs by FFT', fft_case, fft, 400, 10000),
    Sub('laws', laws_case, laws, 1000, 25000),
    Sub('unknown scaling', bad_case, bad, 40, 200),
    Sub('defining sum at scale', lambda: large(case(), a=sig_spec(500, 3000, ('noise', 'walk', 'cloud')), b=sig_spec(500, 3000, ('noise', 'walk', 'cloud'))),
        oracle, 40, 600),
]
