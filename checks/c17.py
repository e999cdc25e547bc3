import numpy as np
import pandas as pd
from hypothesis import strategies as st

from pbt.gen import (INT, fl, ints, large, make_time, pick, rec, rows,
                     time_spec)
from pbt.harness import Sub, check, close, arr
from solarspatialtools import irradiance

RULE = 'non-trivial: at least one ratio is finite and positive'
ASSUMPTIONS = ['infinite irradiance is not generated']

G = st.one_of(fl(0, 1500), fl(-50, 3000), ints(-5, 1200),
              pick(0.0, float('nan'), -1.0))
CS = st.one_of(fl(1, 1200), pick(0.0, float('nan'), -3.0), fl(0, 1e-3),
               ints(0, 1000))
KMAX = st.one_of(st.none(), fl(.1, 5), pick(1, 2.0, 1.5, 0, float('inf')))


def case():
    return rec(rows=st.lists(st.tuples(G, G, G, CS), min_size=1,
                             max_size=12),
               kind=pick('scalar', 'array', 'series', 'frame1', 'frame3'),
               cs=pick('vector', 'scalar'), kmax=KMAX, t=time_spec(),
               cols=pick(('a', 'b', 'c'), ('z', 'y', 'x'), (7, 3, 5),
                         (1.5, 'q', 0)), whole=INT)


def ratio(g, c, kmax):
    if np.isnan(g) or np.isnan(c):
        return np.nan
    with np.errstate(all='ignore'):
        r = np.float64(g) / np.float64(c)
    if not np.isfinite(r) or r < 0:
        return 0.0
    return min(r, kmax)


def oracle(c):
    rows = [[float(v) for v in r] for r in c['rows']]
    n = len(rows)
    T = c.get('whole')
    if T:
        # whole numbers in an integer type
        rows = [[round(v) if v == v else 0 for v in r] for r in rows]
    kmax = 2.0 if c['kmax'] is None else c['kmax']
    kw = {} if c['kmax'] is None else {'max_clearsky_index': c['kmax']}
    cs = np.array([r[3] for r in rows])
    if c['cs'] == 'scalar':
        cs = np.full(n, cs[0])
    nc = 3 if c['kind'] == 'frame3' else 1
    e = np.array([[ratio(r[j], cs[i], kmax) for j in range(nc)]
                  for i, r in enumerate(rows)])
    g = np.array([r[:nc] for r in rows])
    if T:
        g, cs = g.astype(T), cs.astype(T)
    ix = make_time(c['t'], n)
    k = c['kind']
    with np.errstate(all='ignore'):
        if k == 'scalar':
            if cs[0] == 0:
                r = [irradiance.clearsky_index(np.float64(g[0, 0]),
                                               np.float64(cs[0]), **kw)]
            else:
                r = [irradiance.clearsky_index(float(g[0, 0]), float(cs[0]),
                                               **kw)]
            close(float(r[0]), e[0, 0], 1e-12, 0, 'scalar clear-sky index')
            return ['scalar'] + ([] if e[0, 0] > 0 else ['trivial'])
        one = np.float64(cs[0])
        if k == 'array':
            r = irradiance.clearsky_index(
                g[:, 0].copy(), one if c['cs'] == 'scalar' else cs.copy(),
                **kw)
        else:
            CSX = one if c['cs'] == 'scalar' else pd.Series(cs, ix)
            if k == 'series':
                G_ = pd.Series(g[:, 0], ix, name='ghi')
            else:
                G_ = pd.DataFrame(g, ix, columns=list(c['cols'])[:nc])
            r = irradiance.clearsky_index(G_, CSX, **kw)
            check(type(r) is type(G_), f'{type(G_)} gives {type(r)}')
            check(r.index.equals(ix), 'index changed')
            if k != 'series':
                check(list(r.columns) == list(G_.columns),
                      f'columns {list(r.columns)}')
    close(arr(r).reshape(n, -1), e, 1e-12, 0, f'clear-sky index ({k})')
    return [k] + ([] if np.any(e > 0) else ['trivial'])


SUBS = [Sub('ratio', case, oracle, 2000, 50000),
    Sub('ratio at scale', lambda: large(case(), rows=rows(200, 2000, (-100, 1200), (-100, 1200), (0, 1200), (0, 1100))),
        oracle, 40, 400),
]
