import numpy as np
import pandas as pd
from hypothesis import strategies as st

from pbt.gen import (LABELS, labels, INT, as_type, fl, ints, large, make_time, pick, rec,
                     seeds, series, time_spec)
from pbt.harness import Sub, check, close, raises, arr
from solarspatialtools import stats

RULE = 'non-trivial: the series has at least two different ramps'
ASSUMPTIONS = ['regular sampling apart from missing rows; moving-average bins are anchored at '
               'midnight of the first day (local time, fixed offset)',
               'tied ramps share their average rank']

DTS = (1, 0.5, 0.1, 0.01, 2.5, 10, 60, 300, 86400)


DROP = st.one_of(st.just([]), st.lists(ints(0, 199), max_size=3))


def kept(c, n):
    """Rows that remain after an outage of the logger (the first and the
    typical interval stay)."""
    if n < 14:
        return np.arange(n)
    return np.setdiff1d(np.arange(n), [1 + i % (n - 1) for i in c['drop']])


def case():
    return rec(v=st.one_of(st.lists(st.one_of(ints(0, 8), fl(0, 1200)),
                                    min_size=4, max_size=24),
                           rec(n=ints(8, 200), seed=seeds(),
                               kind=pick('noise', 'walk', 'steps',
                                         'cloud'))),
               ncol=ints(0, 3), lab=LABELS, t=time_spec(DTS), tau=ints(1, 6),
               ma=st.one_of(st.none(), st.booleans()), pct=st.booleans(),
               nan=st.lists(ints(0, 199), max_size=3), seed=seeds(),
               whole=INT, drop=DROP, amp=pick(1, 1, 1, 1e-3, 1e3))


def data(c):
    v = c['v']
    x = (np.array(v, float) if isinstance(v, list)
         else series(v['n'], v['seed'], v['kind']))
    x = np.round(x, 6)
    cols = [x]
    r = np.random.default_rng(c['seed'])
    for _ in range(1, c['ncol']):
        cols.append(r.permutation(x))
    X = np.column_stack(cols)
    if not c['whole']:
        X = X * c.get('amp', 1)
    if c['whole']:
        return as_type(X, c['whole']).astype(float)
    for i in c['nan']:
        X[i % len(X), 0] = np.nan
    return X


def binned(X, ix, width_ns):
    """Averages over bins anchored at midnight of the first day."""
    local = ix.tz_localize(None) if ix.tz is not None else ix
    t = local.as_unit('ns').asi8
    mid = local[0].normalize().as_unit('ns').value
    b = (t - mid) // width_ns
    out = np.full((b[-1] - b[0] + 1, X.shape[1]), np.nan)
    for k in range(out.shape[0]):
        s = X[b == b[0] + k]
        for j in range(X.shape[1]):
            g = s[:, j][~np.isnan(s[:, j])]
            if len(g):
                out[k, j] = g.mean()
    return out


def vs_ref(x, tau):
    d = np.abs(x[tau:] - x[:-tau])
    d = d[~np.isnan(d)]
    if len(d) == 0:
        return np.nan, 1.0
    o = np.sort(d)
    lt, le = (np.searchsorted(o, o, side) for side in ('left', 'right'))
    best = np.max(o * (1 - (lt + (le - lt + 1) / 2) / len(o)))
    return best, d.max()


def ties(x, tau):
    """Largest share of ramps that are equal only up to rounding: their rank
    is not determined."""
    d = np.abs(x[tau:] - x[:-tau])
    d = np.sort(d[~np.isnan(d)])
    if len(d) < 2:
        return 0.
    gap = np.diff(d)
    near = gap < 1e-9 * (d[-1] + 1e-30)
    group = np.concatenate([[0], np.cumsum(~near)])
    size = np.bincount(group)
    mixed = np.bincount(group[1:], near & (gap > 0), len(size)) > 0
    return size[mixed].max() / len(d) if mixed.any() else 0.


def wrap(c, X, ix):
    if c['whole']:
        X = X.astype(c['whole'])
    if c['ncol'] == 0:
        return pd.Series(X[:, 0], ix, name='a')
    return pd.DataFrame(X, ix, columns=labels(c.get('lab'), 'c', X.shape[1]))


def call(f, arg, c, **kw):
    r = f(arg, **kw)
    if isinstance(arg, pd.DataFrame):
        check(isinstance(r, pd.Series) and list(r.index) == list(arg.columns),
              f'{f.__name__} of a DataFrame: {type(r)}')
        return arr(r)
    return np.array([float(r)])


def oracle(c):
    X = data(c)
    ix = make_time(c['t'], len(X))
    k = kept(c, len(X))
    X, ix = X[k], ix[k]
    if len(X) <= c['tau']:
        return ['trivial']
    S = wrap(c, X, ix)
    kw = {'tau': c['tau'], 'pct': c['pct']}
    if c['ma'] is not None:
        kw['moving_avg'] = c['ma']
    if c['tau'] == 1 and c['seed'] % 3 == 0:
        del kw['tau']
    if not c['pct'] and c['seed'] % 2:
        del kw['pct']
    ma = (c['ma'] is None or c['ma']) and c['tau'] > 1
    dns = int(round(c['t']['dt'] * 1e9))
    Y, tau = (binned(X, ix, dns * c['tau']), 1) if ma else (X, c['tau'])
    fac = .1 if c['pct'] else 1.
    vs = call(stats.variability_score, S, c, **kw)
    da = call(stats.darr, S, c, **kw)
    distinct = 0
    for j in range(Y.shape[1]):
        y = Y[:, j]
        d = np.abs(y[tau:] - y[:-tau]) if len(y) > tau else np.array([])
        sc = np.nanmax(np.abs(X[:, j])) if not np.all(
            np.isnan(X[:, j])) else 0.
        close(da[j], fac * np.nansum(d), 1e-4 if c['whole'] else 1e-8, 1e-9 * (sc + 1) * len(y),
              f'darr of column {j}')
        distinct = max(distinct, len(np.unique(d[~np.isnan(d)])))
        unsure = ties(y, tau)
        if unsure < .05:
            e, top = vs_ref(y, tau) if len(y) > tau else (np.nan, 0.)
            close(vs[j], fac * e, 1e-8, 1e-8 * (sc + 1) + 2 * fac * unsure * top,
                  f'variability score of column {j}')
    return [f'ma={ma}', f'pct={c["pct"]}'] + (
        ['trivial'] if distinct < 2 else [])


def vi_case():
    return rec(n=ints(6, 120), seed=seeds(), kind=pick('noise', 'walk',
                                                       'cloud', 'steps'),
               t=time_spec((1, .5, .1, 2.5, 10, 60, 90, 300)), tau=ints(1, 5),
               norm=st.booleans(), frame=pick(0, 1), amp=fl(.1, 100),
               nan=st.lists(ints(0, 119), max_size=2),
               extra=st.booleans(), whole=INT, drop=DROP)


def vi(c):
    n = c['n']
    ix = make_time(c['t'], n)
    x = series(n, c['seed'], c['kind']) * c['amp']
    cs = 800 * np.sin(np.linspace(.3, 2.5, n))
    if c['whole']:
        x, cs = (as_type(v, c['whole']).astype(float) for v in (x, cs))
    for i in c['nan'] if not c['whole'] else ():
        x[i % n] = np.nan
    m = kept(c, n)
    x, cs, ix = x[m], cs[m], ix[m]
    dns = int(round(c['t']['dt'] * 1e9))
    X, C = x[:, None], cs[:, None]
    dt = c['t']['dt']
    if c['tau'] > 1:
        X, C = (binned(v, ix, dns * c['tau']) for v in (X, C))
        dt *= c['tau']
    if len(X) < 3:
        return ['trivial']
    dt /= 60
    path = lambda v: np.nansum(np.sqrt(np.diff(v[:, 0]) ** 2 + dt ** 2))
    e = path(X) / path(C) * (np.sqrt(dt) if c['norm'] else 1)
    kw = {}
    if c['tau'] > 1 or c['extra']:
        kw['moving_avg_tau'] = c['tau']
    if c['norm'] or c['extra']:
        kw['norm'] = c['norm']
    g, k = pd.Series(x, ix, name='g'), pd.Series(cs, ix, name='g')
    if c['whole']:
        g, k = g.astype(c['whole']), k.astype(c['whole'])
    if c['frame']:
        g, k = g.to_frame(), k.to_frame()
    r = stats.variability_index(g, k, **kw)
    # pandas takes increments of narrow integers in single precision
    close(float(np.ravel(r)[0]), e, 1e-4 if c['whole'] else 1e-7, 0, 'variability index')
    # the clear sky has the index of a perfectly clear site
    one = stats.variability_index(k, k, **{**kw, 'norm': False})
    close(float(np.ravel(one)[0]), 1.0, 1e-4 if c['whole'] else 1e-9, 0,
          'index of the clear sky')
    return [f'tau={c["tau"] > 1}', f'norm={c["norm"]}']


def bad_case():
    return rec(v=st.lists(fl(0, 9), min_size=3, max_size=6), f=pick('vi',
                                                                    'darr'))


def bad(c):
    v = np.array(c['v'])
    if c['f'] == 'vi':
        raises(TypeError, lambda: stats.variability_index(v, v),
               'variability_index of an array')
    else:
        raises(TypeError, lambda: stats.darr(v), 'darr of an array')


SUBS = [
    Sub('ramps', case, oracle, 1200, 25000),
    Sub('variability index', vi_case, vi, 800, 15000),
    Sub('rejections', bad_case, bad, 30, 100),
    Sub('ramps at scale', lambda: large(case(), v=rec(n=ints(500, 4000), seed=seeds(), kind=pick('noise', 'walk', 'steps', 'cloud')), ncol=ints(0, 12), tau=ints(1, 60)),
        oracle, 40, 500),
    Sub('variability index at scale', lambda: large(vi_case(), n=ints(500, 4000), tau=ints(1, 60)),
        vi, 40, 500),
    Sub('hundreds of series', lambda: large(case(), v=rec(n=ints(10, 60), seed=seeds(), kind=pick('noise', 'walk', 'steps', 'cloud')), ncol=ints(90, 300)),
        oracle, 8, 100),
    Sub('ramps of a day', lambda: large(case(), v=rec(n=ints(66000, 87000), seed=seeds(), kind=pick('noise', 'walk', 'steps', 'cloud')), ncol=ints(0, 3), tau=pick(1, 1, 2, 60, 3600), amp=pick(1e-3, 1, 1e-3, 1e3), whole=pick(None, None, None, 'int64'), t=time_spec((1, .5, 2, 10))),
        oracle, 12, 100),
    Sub('variability index of a day', lambda: large(vi_case(), n=ints(66000, 87000), tau=ints(1, 3600), t=time_spec((1, .5, 2, 10))),
        vi, 6, 60)]
