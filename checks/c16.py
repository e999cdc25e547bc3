import numpy as np
import pandas as pd
from hypothesis import strategies as st

from pbt.gen import (fl, ints, large, pick, rec, seeds)
from pbt.harness import Sub, check, close, same_index, arr
from solarspatialtools import stats

RULE = ('non-trivial: at least one day has a complete window and the window '
        'has at least two days')
ASSUMPTIONS = ['whole-day windows, '
               'no data in the hours in which the clock changes', 'linear interpolation between '
               'order statistics (the default of pandas and numpy)']


DST = ('America/New_York', 'Australia/Adelaide')


def case():
    return rec(days=ints(1, 9), n=ints(1, 5), unit=pick('d', 'D', 'days',
                                                        ' days'),
               q=st.one_of(st.none(), fl(0, 1), pick(0, .5, .9, 1)),
               step=pick(1800, 3600, 5400, 7200, 21600, 86400, 0.25, 21600.5),
               first=ints(0, 23), last=ints(0, 23), seed=seeds(),
               tz=pick(None, 'UTC', 'Etc/GMT+7', 'Etc/GMT-10', *DST),
               ndrop=pick(0, 0, 1, 3, 8), nan=pick(0., .1, .4),
               form=pick('series', 'unnamed', 'frame'),
               res=pick(None, None, 's', 'ms', 'ns'),
               whole=pick(False, False, False, True),
               start=ints(0, 700), k=ints(1, 6), future=seeds(),
               gone=st.one_of(st.just([]), st.lists(ints(0, 8), max_size=4)))


def build(c):
    d0 = pd.Timestamp('2015-01-01') + pd.Timedelta(days=c['start'])
    r = np.random.default_rng(c['seed'])
    times = []
    for d in range(c['days']):
        day0 = d0 + pd.Timedelta(days=d)
        if c['step'] < 1800:        # sub-second sampling around noon
            tt = [day0 + pd.Timedelta(hours=12) + pd.Timedelta(
                seconds=c['step'] * i) for i in range(2 * c['k'])]
        else:
            m = int(np.ceil(86400 / c['step']))
            tt = [day0 + pd.Timedelta(seconds=c['step'] * i)
                  for i in range(m)]
        times += tt
    ix = pd.DatetimeIndex(times)
    if c['step'] >= 1800:
        # partial first and last days
        f = d0 + pd.Timedelta(hours=c['first'])
        l = d0 + pd.Timedelta(days=c['days'] - 1, hours=c['last'])
        keep = (ix >= f) & (ix <= l)
        full = ix
        ix = ix[keep]
        days = {t.date() for t in ix}
        if len(days) < c['days']:
            ix = full
    if c['tz'] in DST:      # the clock changes before four in the morning
        ix = ix[ix.hour >= 4] if (ix.hour >= 4).any() else \
            ix + pd.Timedelta(hours=12)
    if c['ndrop'] and len(ix) > 3 * c['days']:
        by = {}
        for t in ix:
            by.setdefault(t.date(), []).append(t)
        drop = set(r.choice(len(ix), min(c['ndrop'], len(ix)),
                            replace=False))
        keep = [i for i in range(len(ix)) if i not in drop]
        if len({ix[i].date() for i in keep}) == len(by):
            ix = ix[keep]
    if c['gone']:           # days without any data
        day = (ix.normalize() - d0).days
        keep = ~np.isin(day, c['gone'])
        ix = ix[keep] if keep.any() else ix
    v = np.round(r.uniform(0, 1000, len(ix)), 3)
    if c.get('whole'):
        v = np.round(v).astype(int)
    else:
        v[r.uniform(size=len(ix)) < c['nan']] = np.nan
    res = c.get('res')
    if res and not (res == 's' and c['step'] % 1) and c['step'] >= .25:
        ix = ix.as_unit(res)
    return ix, v


def reference(ix, v, n, q):
    pos = {}
    for t, x in zip(ix, v):
        pos[t] = x
    first = ix[0].normalize()
    out = np.full(len(ix), np.nan)
    for k, t in enumerate(ix):
        if t.normalize() - first < pd.Timedelta(days=n):
            continue
        w = [pos.get(t - pd.Timedelta(days=j), np.nan)
             for j in range(1, n + 1)]
        w = np.sort([x for x in w if not np.isnan(x)])
        if len(w):
            h = (len(w) - 1) * q
            lo = int(np.floor(h))
            hi = min(lo + 1, len(w) - 1)
            out[k] = w[lo] + (h - lo) * (w[hi] - w[lo])
    return out


def wrap(c, v, ix):
    if c['form'] == 'series':
        return pd.Series(v, ix, name='ghi')
    if c['form'] == 'unnamed':
        return pd.Series(v, ix)
    return pd.DataFrame({'ghi': v}, ix)


def oracle(c):
    ix, v = build(c)
    full = ix.tz_localize(c['tz']) if c['tz'] else ix
    kw = {'n_days': f"{c['n']}{c['unit']}"}
    q = .9 if c['q'] is None else c['q']
    if c['q'] is not None:
        kw['quantile'] = c['q']
    r = stats.calc_quantile(wrap(c, v, full), **kw)
    check(isinstance(r, pd.DataFrame) and r.shape == (len(ix), 1),
          f'result {type(r)} of shape {getattr(r, "shape", None)}')
    check(r.index.equals(full) and str(r.index.tz) == str(full.tz),
          'index differs from the index of the input')
    want = 'quantile' if c['form'] == 'unnamed' else 'ghi_quant'
    check(list(r.columns) == [want], f'columns {list(r.columns)}')
    got = arr(r.iloc[:, 0])
    e = reference(ix, v, c['n'], q)
    close(got, e, 1e-9, 1e-7, 'rolling quantile')
    # causality: values of the last day cannot matter for earlier results,
    # nor for its own
    w = v.copy()
    last = ix >= ix[-1].normalize()
    rr = np.random.default_rng(c['future'])
    w[np.asarray(last)] = rr.uniform(0, 1e4, int(last.sum()))
    r2 = stats.calc_quantile(wrap(c, w, full), **kw)
    close(arr(r2.iloc[:, 0]), got, 0, 0, 'result after changing data of the '
                                         'last day only')
    t = [c['form'], c['tz'] or 'naive']
    if c['n'] < 2 or np.all(np.isnan(e)):
        t.append('trivial')
    return t


SUBS = [Sub('rolling quantile', case, oracle, 500, 8000),
    Sub('rolling quantile at scale', lambda: large(case(), days=ints(20, 60), n=ints(5, 30), gone=lambda r: r.integers(0, 60, int(r.integers(0, 25))).tolist()),
        oracle, 6, 60),
    Sub('wide windows', lambda: large(case(), days=ints(24, 60), n=ints(20, 45), step=pick(10800, 21600, 43200, 86400)),
        oracle, 40, 600),
    Sub('more than a year', lambda: large(case(), days=ints(369, 400), n=ints(362, 385), step=pick(43200, 86400)),
        oracle, 6, 60),
]
