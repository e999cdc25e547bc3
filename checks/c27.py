import numpy as np
import pandas as pd
from hypothesis import strategies as st

from pbt.gen import (fl, ints, large, make_time, pick, rec, seeds,
                     time_spec)
from pbt.harness import Sub, check, close, raises, arr
from checks.c25 import perturb
from solarspatialtools.synthirrad import copula

RULE = ('non-trivial: at least two hours that differ in at least one argument '
        'given per hour')
ASSUMPTIONS = ['per-hour values are lists, tuples or numpy arrays; a single '
               'value is a Python or numpy number or a one-element array']

ONE = ('one', 'int', 'np', 'npint', 'len1')


def case():
    return rec(nh=ints(1, 5), ns=ints(1, 4), seed=seeds(), rs=seeds(),
               nt=ints(1, 10), t=time_spec((1, 10, 60)),
               times=pick('one', 'list', 'tuple'),
               spd=pick('array', 'list', 'tuple', 'one', 'int', 'np', 'npint', 'len1'),
               dir=pick('list', 'array', 'tuple', 'one', 'int', 'np', 'npint', 'len1'),
               csi=pick('array', 'list', 'tuple'), params=pick('list', 'one', 'tuple'),
               opts=pick('default', 'raw', 'clip', 'scale'),
               same=pick('none', 'none', 'spd', 'dir', 'csi'),
               uneven=pick(False, True))


def pack(kind, v):
    if kind == 'array':
        return np.array(v), v
    if kind == 'list':
        return list(v), v
    if kind == 'tuple':
        return tuple(v), v
    n = len(v)
    x = v[0]
    if kind == 'int':
        x = int(x) + 1
    elif kind == 'np':
        x = np.float64(x)
    elif kind == 'npint':
        x = np.int64(int(x) + 1)
    elif kind == 'len1':
        return np.array([x]), [x] * n
    return x, [x] * n


def oracle(c):
    r = np.random.default_rng(c['seed'])
    nh = c['nh']
    x, y = r.integers(-40, 41, (2, c['ns'])) * 10.
    spd = list(r.uniform(1, 25, nh))
    ang = list(r.uniform(-3, 3, nh))
    csi = list(r.uniform(.1, .95, nh))
    if c['same'] != 'none':
        q = {'spd': spd, 'dir': ang, 'csi': csi}[c['same']]
        q[:] = q[:1] * nh
    S, spds = pack(c['spd'], spd)
    D, angs = pack(c['dir'], ang)
    M, _ = pack(c['csi'], csi)
    ts = []
    for h in range(nh):
        n = c['nt'] + (int(r.integers(0, 4)) if c['uneven'] else 0)
        t = make_time(c['t'], n) + pd.Timedelta(hours=h)
        ts.append(t[np.sort(r.permutation(n)[:max(1, n - h)])])
    if c['times'] == 'one':
        T, ts = ts[0], [ts[0]] * nh
    else:
        T = list(ts) if c['times'] == 'list' else tuple(ts)
    ps = [perturb(int(k)) for k in r.integers(0, 1000, nh)]
    if c['params'] == 'one':
        P, ps = ps[0], [ps[0]] * nh
    else:
        P = list(ps) if c['params'] == 'list' else tuple(ps)
    kw = {'default': {}, 'raw': {'scale': False, 'noneg': False},
          'clip': {'scale': False}, 'scale': {'noneg': False}}[c['opts']]

    got = arr(copula.downscale_multihour(T, x, y, S, D, M, P, seed=c['rs'],
                                         **kw))
    exp = np.concatenate([arr(copula.downscale(
        ts[h], x, y, spds[h], angs[h], csi[h], ps[h], seed=c['rs'], **kw))
        for h in range(nh)])
    what = {k: c[k] for k in ('times', 'spd', 'dir', 'params', 'opts')}
    if not np.isfinite(exp).all() or np.abs(exp).max() > 1e6:
        return ['trivial']
    close(got, exp, 1e-7, 1e-7, f'{nh} hours {what}')
    if c['opts'] == 'default':
        at = 0
        for h in range(nh):
            n = len(ts[h])
            b = got[at:at + n]
            at += n
            if exp[at - n:at].mean() > 1e-9:
                close(b.mean(), csi[h], 1e-9, 0, f'mean of hour {h}')
    varied = [k for k in ('spd', 'dir') if c[k] in ('array', 'list', 'tuple')
              and c['same'] != k] + ['csi'] * (c['same'] != 'csi') \
        + ['params'] * (c['params'] != 'one')
    return [f'{k}:{c[k]}' for k in ('times', 'spd', 'dir', 'params')] + (
        ['trivial'] if nh < 2 or not varied else [])


def bad_case():
    return rec(nh=ints(2, 5), wrong=pick('times', 'params', 'spd', 'dir'),
               d=pick(-1, 1, 2), seed=seeds(), kind=pick('list', 'array'),
               others=pick('list', 'one'), len1=pick(False, True))


def bad(c):
    r = np.random.default_rng(c['seed'])
    nh = c['nh']
    t = pd.date_range('2021-03-01', periods=3, freq='10s')
    m = nh + c['d']
    if m < 2 and c['wrong'] in ('spd', 'dir'):
        m = nh + 1       # one value for all hours is allowed
    if c['len1'] and c['wrong'] in ('times', 'params'):
        m = 1
    if m == nh:
        return ['trivial']
    P = dict(copula.DEFAULT_PARAMS)
    many = c['others'] == 'list'
    a = {'times': [t] * nh if many else t, 'params': [P] * nh if many else P,
         'spd': [5.] * nh if many else 5., 'dir': [.1] * nh if many else .1}
    w = c['wrong']
    v = {'times': t, 'params': P, 'spd': 5., 'dir': .1}[w]
    a[w] = [v] * m
    if w in ('spd', 'dir') and c['kind'] == 'array':
        a[w] = np.array(a[w])
    x = np.array([0., 10.])
    raises(ValueError, lambda: copula.downscale_multihour(
        a['times'], x, x, a['spd'], a['dir'], r.uniform(.2, .8, nh),
        a['params'], seed=1), f'{m} values of {w} for {nh} hours')
    return [w]


SUBS = [Sub('hours', case, oracle, 500, 12000),
        Sub('lengths', bad_case, bad, 150, 2000),
    Sub('hours at scale', lambda: large(case(), nh=ints(10, 30), nt=ints(1, 5)),
        oracle, 12, 200),
]
