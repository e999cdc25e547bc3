import numpy as np
import pandas as pd
from hypothesis import strategies as st

from pbt.gen import (LABELS, labels, INT, fl, index_spec, ints, large, make_index, pick,
                     rec, rows)
from pbt.harness import Sub, check, close, same_index, arr
from solarspatialtools import stats

RULE = 'non-trivial: the two series differ'
ASSUMPTIONS = ['inputs of equal length and (for pandas) equal index']

V = st.one_of(fl(-1000, 1000), ints(-20, 20)).map(
    lambda v: 0.0 if abs(v) < 1e-9 else v)


def case():
    return rec(p=st.lists(st.tuples(V, V), min_size=1, max_size=20),
               kind=pick('array', 'series', 'mixed'), ix=index_spec(),
               nan=st.lists(st.tuples(ints(0, 19), ints(0, 1)), max_size=4),
               same=pick(False, False, False, False, True), off=fl(-10, 10), ints=INT)


def oracle(c):
    b = np.array([float(p[0]) for p in c['p']])
    e = np.array([float(p[1]) for p in c['p']])
    if c['same']:
        e = b.copy()
    if c['ints'] and not (c['kind'] == 'series' and c['nan']):
        b, e = b.astype(c['ints']), e.astype(c['ints'])
    n = len(b)
    if c['kind'] == 'series':
        for i, w in c['nan']:
            (b if w else e)[i % n] = np.nan
        ix = make_index(c['ix'], n)
        B, E = pd.Series(b, ix), pd.Series(e, ix)
    elif c['kind'] == 'mixed':
        ix = make_index(c['ix'], n)
        B, E = pd.Series(b, ix), e.copy()
    else:
        B, E = b.copy(), e.copy()
    b, e = b.astype(float), e.astype(float)
    d = e - b
    sc = np.nanmax(np.abs(np.concatenate([b, e, [0]]))) + 1e-300
    for name, f, x in (('bias_error', stats.bias_error, d),
                       ('absolute_error', stats.absolute_error, np.abs(d)),
                       ('squared_error', stats.squared_error, d * d)):
        r = f(B, E)
        close(arr(r), x.astype(float), 1e-12, 1e-12 * (
            sc * sc if 'sq' in name else sc), name)
        if c['kind'] != 'array':
            check(isinstance(r, pd.Series), f'{name} is {type(r)}')
            same_index(r.index, ix, f'index of {name}')
    ok = d[~np.isnan(d)] if d.dtype.kind == 'f' else d
    if len(ok) == 0:
        for f in (stats.mbe, stats.mae, stats.mse, stats.rmse):
            check(np.isnan(f(B, E)), 'mean of no samples')
        return ['trivial']
    m = {'mbe': ok.mean(), 'mae': np.abs(ok).mean(),
         'mse': (ok.astype(float) ** 2).mean()}
    m['rmse'] = np.sqrt(m['mse'])
    for k, x in m.items():
        close(float(getattr(stats, k)(B, E)), x, 1e-10,
              1e-10 * (sc * sc if k == 'mse' else sc), k)
    # swapping the arguments
    close(float(stats.mbe(E, B)), -m['mbe'], 1e-10, 1e-10 * sc,
          'mbe of swapped arguments')
    for k in ('mae', 'mse', 'rmse'):
        close(float(getattr(stats, k)(E, B)), m[k], 1e-10,
              1e-10 * (sc * sc if k == 'mse' else sc),
              f'{k} of swapped arguments')
    mb, ma, rm = (float(getattr(stats, k)(B, E))
                  for k in ('mbe', 'mae', 'rmse'))
    t = 1e-9 * sc
    check(abs(mb) <= ma + t and ma <= rm + t,
          f'|MBE|={abs(mb)} MAE={ma} RMSE={rm} are not ordered')
    return [c['kind']] + (['trivial'] if not np.any(ok) else []) + (
        ['missing samples'] if len(ok) < n else [])


def forms_case():
    return rec(r=ints(1, 6), k=ints(1, 4), v=st.lists(
        st.tuples(V, V), min_size=1, max_size=24), ix=index_spec(),
        kind=pick('scalar', 'list', '2d', 'frame', 'array', 'frame-array'),
        nan=st.lists(st.tuples(ints(0, 23), ints(0, 1)), max_size=3),
        ints=INT, lab=LABELS)


def forms(c):
    """Other containers, and missing samples in them."""
    kind = c['kind']
    n = {'scalar': 1, 'list': len(c['v']), 'array': len(c['v'])}.get(
        kind, c['r'] * c['k'])
    P = np.array([c['v'][i % len(c['v'])] for i in range(n)], float)
    b, e = P[:, 0].copy(), P[:, 1].copy()
    if c['nan'] and kind != 'scalar':
        for i, w in c['nan']:
            (b if w else e)[i % n] = np.nan
    elif c['ints']:
        b, e = b.astype(c['ints']), e.astype(c['ints'])
    if kind == 'scalar':
        B, E = b[0].item(), e[0].item()
    elif kind == 'list':
        B, E = b.tolist(), e.tolist()
    elif kind == 'array':
        B, E = b.copy(), e.copy()
    else:
        b, e = b.reshape(c['r'], c['k']), e.reshape(c['r'], c['k'])
        B, E = b.copy(), e.copy()
        if kind != '2d':
            ix = make_index(c['ix'], c['r'])
            cols = labels(c.get('lab'), 'c', c['k'])
            B = pd.DataFrame(B, ix, cols)
            if kind == 'frame':
                E = pd.DataFrame(E, ix, cols)
    d = np.asarray(e, float) - np.asarray(b, float)
    sc = np.nanmax(np.abs(np.append(np.concatenate(
        [np.ravel(b), np.ravel(e)]).astype(float), 1e-300)))
    for name, x in (('bias_error', d), ('absolute_error', np.abs(d)),
                    ('squared_error', d * d)):
        r = getattr(stats, name)(B, E)
        if kind == 'scalar':
            x = x[0]
        elif kind.startswith('frame'):
            check(isinstance(r, pd.DataFrame), f'{name} is {type(r)}')
            same_index(r.index, ix, f'index of {name}')
            check(list(r.columns) == cols, f'columns of {name}')
        close(np.asarray(r, float), x, 1e-12, 1e-12 * (
            sc * sc if 'sq' in name else sc), f'{name} of {kind}')
    skip = kind.startswith('frame')     # pandas leaves missing samples out

    def mean(x):
        if not skip:
            return x.mean()
        x = x[~np.isnan(x)]
        return x.mean() if len(x) else np.nan
    for name, x in (('mbe', d), ('mae', np.abs(d)), ('mse', d * d),
                    ('rmse', d * d)):
        r = getattr(stats, name)(B, E)
        g = np.sqrt if name == 'rmse' else (lambda z: z)
        a = 1e-10 * (sc * sc if name == 'mse' else sc)
        if isinstance(r, pd.Series):    # column by column
            close(r.to_numpy(float), [g(mean(x[:, i])) for i in range(
                x.shape[1])], 1e-10, a, f'{name} of {kind}')
        else:
            close(float(r), g(mean(np.ravel(x))), 1e-10, a,
                  f'{name} of {kind}')
    return [kind] + (['missing samples'] if np.isnan(d).any() else []) + (
        ['trivial'] if not np.nansum(np.abs(d)) else [])


SUBS = [Sub('containers', forms_case, forms, 1200, 30000),
    Sub('definitions', case, oracle, 2400, 60000),
    Sub('definitions at scale', lambda: large(case(), p=rows(200, 3000, (-1000, 1000), (-1000, 1000))),
        oracle, 40, 600),
]
