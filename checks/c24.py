import itertools
import warnings

import numpy as np
import pandas as pd
from hypothesis import strategies as st
from scipy.optimize import linear_sum_assignment

from pbt.gen import (fl, ints, large, pick, rec, seeds)
from pbt.harness import Sub, check, close, same_index
from checks.c23 import labels, same
from solarspatialtools import field

RULE = 'non-trivial: the optimal assignment moves at least one entity'
ASSUMPTIONS = ['rows of both tables are the same entities in the same order '
               '(the existing tests fix a positional reading of complete '
               'tables)',
               'an entity whose predicted easting or northing is missing has '
               'no prediction']


def case():
    return rec(n=pick(4, 3, 5, 6, 7, 8, 9, 2, 1), seed=seeds(), lab=pick('str', 'int', 'float',
                                                    'small', 'time'),
               layout=pick('random', 'grid', 'line', 'utm', 'dup'),
               err=pick(0., .05, .3, 1., 3., 300., 3e3), perm=pick('none', 'swap', 'all'),
               nan=pick(0, 0, 0, 1, 2, 4), nanwhat=pick('both', 'E', 'N'),
               extra=ints(0, 2), pextra=pick(0, 0, 1, 2), big=pick(0, 0, 0, 20))


def oracle(c):
    r = np.random.default_rng(c['seed'])
    n = c['n'] + c['big']
    lab = labels(c['lab'], n, c['seed'])
    if c['layout'] == 'grid':
        w = int(np.ceil(np.sqrt(n)))
        xy = np.array([(i % w, i // w) for i in range(n)], float)[
            r.permutation(n)] * 40
    elif c['layout'] == 'line':
        xy = np.column_stack([r.permutation(n) * 40., np.zeros(n)])
    elif c['layout'] == 'dup':
        xy = r.integers(0, 3, (n, 2)) * 40.
    else:
        xy = r.uniform(0, 40 * np.sqrt(n), (n, 2))
    if c['layout'] == 'utm':
        xy = xy + [4e5, 4.4e6]
    q = np.arange(n)
    if c['perm'] == 'all':
        q = r.permutation(n)
    elif c['perm'] == 'swap' and n > 1:
        i, j = r.choice(n, 2, replace=False)
        q[[i, j]] = q[[j, i]]
    pr = xy[q] + c['err'] * 40 * r.standard_normal((n, 2))
    have = np.ones(n, bool)
    have[r.permutation(n)[:min(c['nan'], n)]] = False
    pr[~have, :1 if c['nanwhat'] == 'E' else 2] = np.nan
    if c['nanwhat'] == 'N':
        pr[~have, 0] = 7.
    ix = pd.Index(lab, name='id')
    orig = pd.DataFrame(xy, ix, ['E', 'N'])
    pred = pd.DataFrame(pr, ix, ['E', 'N'])
    if c['extra'] > 0:
        orig['id2'] = r.permutation(n)
    if c['extra'] > 1:
        orig['cap'] = r.uniform(0, 1, n)
    if c['pextra'] > 0:
        z = r.uniform(0, 1, n)
        z[r.uniform(size=n) < .3] = np.nan
        pred['score'] = z
    if c['pextra'] > 1:
        pred['number'] = np.arange(n)
    o0, p0 = orig.copy(), pred.copy()
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        m, out = field.assign_positions(orig, pred)
    same(orig, o0, 'original positions')
    same(pred, p0, 'predicted positions')

    check(isinstance(m, list) and len(m) == n, f'remap of {len(m)} for {n}')
    d = dict(m)
    check(sorted(d) == sorted(lab) and sorted(d.values()) == sorted(lab),
          f'not a permutation of the entities: {m}')
    at = {x: i for i, x in enumerate(lab)}
    for x, h in zip(lab, have):
        check(h or d[x] == x, f'{x} has no prediction but was moved')
    cost = sum(np.hypot(*(pr[at[a]] - xy[at[b]])) for a, b in m if have[at[a]])
    P, X = pr[have], xy[have]
    C = np.hypot(P[:, None, 0] - X[None, :, 0], P[:, None, 1] - X[None, :, 1])
    k = len(P)
    if k <= 6:
        best = min(sum(C[i, s[i]] for i in range(k))
                   for s in itertools.permutations(range(k)))
    else:
        i, j = linear_sum_assignment(C)
        best = C[i, j].sum()
    check(cost <= best + 1e-7 * (1 + best),
          f'total distance {cost!r}, minimum {best!r}: {m}')
    exp = pd.DataFrame({q: [o0[q].tolist()[at[d[x]]] for x in lab]
                        for q in o0.columns}, index=o0.index)
    same(out, exp, 'remapped table')
    same(out, field.remap_positions(orig, m), 'table of the remap')
    return [c['layout'], c['lab'], f"nan{c['nan']}", f"pextra{c['pextra']}"] \
        + (['trivial'] if all(a == b for a, b in m) else [])


SUBS = [Sub('assign', case, oracle, 800, 20000),
    Sub('assign at scale', lambda: large(case(), n=ints(30, 150)),
        oracle, 16, 200),
]
