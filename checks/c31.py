import numpy as np
import pandas as pd

from pbt.gen import (fl, ints, large, make_time, pick, rec, seeds,
                     time_spec)
from pbt.harness import Sub, check, close, arr, same_index
from solarspatialtools.dataio import hope_campaign as hc

RULE = 'non-trivial: at least one sample is changed and one is kept'
ASSUMPTIONS = ['column labels and time stamps are unique; fill values are '
               '-999 and measurements lie above -100']


def table():
    return rec(n=ints(1, 60), ncol=ints(1, 4), seed=seeds(),
               t=time_spec((1, 1, 2, .5, 60)), cols=pick('int', 'str'),
               dtype=pick('f8', 'f8', 'f4'))


def build(c):
    r = np.random.default_rng(c['seed'])
    n, m = c['n'], c['ncol']
    cols = ([f'S{i}' for i in r.permutation(m)] if c['cols'] == 'str'
            else [int(i) for i in r.permutation(90)[:m]])
    X = np.round(r.uniform(-60, 1200, (n, m)), 3).astype(c['dtype'])
    return r, X, cols, make_time(c['t'], n)


def same(got, exp, X, df, what):
    check(isinstance(got, pd.DataFrame), f'{what}: {type(got).__name__}')
    same_index(got.columns, exp.columns, f'{what}: columns')
    same_index(got.index, exp.index, f'{what}: index')
    close(got, exp.to_numpy(), 0, 0, what)
    check(np.array_equal(df.to_numpy(), X, equal_nan=True)
          and list(df.columns) == list(exp.columns),
          f'{what}: input was modified')


def tag(X, E):
    a = ~((X == E) | (np.isnan(X) & np.isnan(E)))
    return [] if a.any() and (~a & ~np.isnan(E)).any() else ['trivial']


def flag_case():
    return rec(tab=table(), level=pick(None, None, 1, 2, 3, 4, 5, 0, 1.5, 2.5),
               fdtype=pick('i8', 'i1', 'f8', 'u1'), pre=pick(0, 0, .2),
               order=pick('same', 'same', 'cols', 'rows'))


def flag_oracle(c):
    r, X, cols, ix = build(c['tab'])
    F = r.integers(1, 5, X.shape).astype(c['fdtype'])
    X[r.random(X.shape) < c['pre']] = np.nan
    df = pd.DataFrame(X.copy(), ix, cols)
    fd = pd.DataFrame(F.copy(), ix, cols)
    if c['order'] == 'cols':    # stations in another order
        fd = fd[list(r.permutation(np.array(cols, object)))]
    elif c['order'] == 'rows':
        fd = fd.iloc[r.permutation(len(fd))]
    F0 = fd.to_numpy().copy()
    lv = c['level']
    got = hc.flag_qc(df, fd) if lv is None else hc.flag_qc(df, fd, lv)
    E = X.copy()
    E[F >= (2 if lv is None else lv)] = np.nan
    same(got, pd.DataFrame(E, ix, cols), X, df, f'flag_qc level {lv}')
    check(np.array_equal(fd.to_numpy(), F0), 'flags were modified')
    return [f'level {lv}'] + tag(X, E)


def null_case():
    return rec(tab=table(), p=pick(.05, .3, .9, 0), pre=pick(0, .2))


def null_oracle(c):
    r, X, cols, ix = build(c['tab'])
    X[r.random(X.shape) < c['pre']] = np.nan
    fill = r.random(X.shape) < c['p']
    X[fill] = -999
    df = pd.DataFrame(X.copy(), ix, cols)
    E = X.copy()
    E[fill] = np.nan
    same(hc.null_qc(df), pd.DataFrame(E, ix, cols), X, df, 'null_qc')
    return tag(X, E)


def interp_case():
    return rec(tab=table(), runs=pick('short', 'long', 'mixed', 'limit'),
               limit=pick(None, 0, 1, 2, 3, 5, 5, 8, 20), dens=fl(.05, .9),
               full=pick(False, False, False, True))


def interp_oracle(c):
    r, X, cols, ix = build(c['tab'])
    n, m = X.shape
    lim = c['limit']
    L = 5 if lim is None else lim
    for j in range(m):
        i = 0
        while i < n:
            k = int({'short': r.integers(1, max(L, 1) + 1),
                     'long': r.integers(L + 1, 2 * L + 4),
                     'mixed': r.integers(1, 2 * L + 2),
                     'limit': max(L, 1) + r.integers(0, 2)}[c['runs']])
            if r.random() < c['dens']:
                X[i:i + k, j] = np.nan
                i += k
            i += int(r.integers(1, 4))
    if c['full']:
        X[:, r.integers(0, m)] = np.nan
    df = pd.DataFrame(X.copy(), ix, cols)
    got = hc.interp_nan(df) if lim is None else hc.interp_nan(df, lim)
    E = X.copy()
    nlong = nend = nfill = 0
    for j in range(m):
        i = 0
        while i < n:
            if not np.isnan(X[i, j]):
                i += 1
                continue
            k = i
            while k < n and np.isnan(X[k, j]):
                k += 1
            if i == 0 or k == n:
                nend += 1
            elif k - i > L:
                nlong += 1
            else:
                nfill += 1
                a, b = float(X[i - 1, j]), float(X[k, j])
                for q in range(i, k):
                    E[q, j] = a + (b - a) * (q - i + 1) / (k - i + 1)
            i = k
    w = f'interp_nan limit {lim}'
    G = arr(got, w)
    check(G.shape == E.shape, f'{w}: shape {G.shape}')
    bad = np.isnan(G) != np.isnan(E)
    check(not bad.any(), f'{w}: missing samples at {np.argwhere(bad)[:3]} '
          f'are wrong')
    keep = ~np.isnan(X)
    check(np.array_equal(G[keep], X[keep]), f'{w}: valid samples changed')
    tol = 1e-9 if c['tab']['dtype'] == 'f8' else 1e-3
    close(G, E, 1e-9 if tol < 1e-6 else 1e-5, tol, w)
    check(np.array_equal(df.to_numpy(), X, equal_nan=True),
          f'{w}: input was modified')
    same_index(got.columns, cols, f'{w}: columns')
    same_index(got.index, ix, f'{w}: index')
    return (['long'] if nlong else []) + (['end'] if nend else []) + (
        [] if nfill else ['trivial'])


def pipe_case():
    return rec(tab=table(), p=fl(.02, .4))


def pipe_oracle(c):
    """The documented pipeline: fill values, then gap interpolation; repeating
    a step on its own result changes nothing."""
    r, X, cols, ix = build(c['tab'])
    X[r.random(X.shape) < c['p']] = -999
    df = pd.DataFrame(X.copy(), ix, cols)
    a = hc.null_qc(df)
    close(hc.null_qc(a), arr(a), 0, 0, 'null_qc repeated')
    b = hc.interp_nan(a, 3)
    check(not (arr(b) == -999).any(), 'fill values survive')
    ok = X != -999
    check(np.array_equal(arr(b)[ok], X[ok]), 'valid samples changed')
    # each column is processed on its own
    for j, col in enumerate(cols):
        close(hc.interp_nan(a[[col]], 3), arr(b)[:, [j]], 1e-12, 1e-9,
              f'column {col} alone')
    # reversing time reverses the result
    rev = hc.interp_nan(a.iloc[::-1].set_axis(a.index), 3)
    close(arr(rev)[::-1], arr(b), 1e-5, 1e-3, 'reversed in time')
    return [] if (~ok).any() and ok.any() else ['trivial']


SUBS = [Sub('flag', flag_case, flag_oracle, 500, 15000),
        Sub('null', null_case, null_oracle, 400, 12000),
        Sub('interp', interp_case, interp_oracle, 1000, 30000),
        Sub('pipeline', pipe_case, pipe_oracle, 300, 10000),
    Sub('flag at scale', lambda: large(flag_case(), tab=large(table(), n=ints(300, 3000), ncol=ints(1, 10))),
        flag_oracle, 16, 300),
    Sub('interp at scale', lambda: large(interp_case(), tab=large(table(), n=ints(300, 3000), ncol=ints(1, 10)), limit=pick(None, 5, 20, 100, 400)),
        interp_oracle, 24, 300),
    Sub('interp of hundreds of stations', lambda: large(interp_case(), tab=large(table(), n=ints(20, 60), ncol=ints(70, 90)), limit=pick(None, 5, 2)),
        interp_oracle, 8, 100),
    Sub('flags of a day', lambda: large(flag_case(), tab=large(table(), n=ints(66000, 87000), t=time_spec((1, .5, 2, 10)))),
        flag_oracle, 4, 40),
    Sub('interp of a day', lambda: large(interp_case(), tab=large(table(), n=ints(66000, 87000), t=time_spec((1, .5, 2, 10))), limit=pick(None, 5, 20, 400)),
        interp_oracle, 4, 40)]
