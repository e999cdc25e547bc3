import numpy as np
import pandas as pd
from hypothesis import strategies as st
from scipy.optimize import linear_sum_assignment

from pbt.gen import fl, ints, large, pick, rec, seeds, index_spec, make_index
from pbt.harness import Sub, check, arr
from solarspatialtools import cmv

RULE = ('non-trivial: more vectors than requested and the best and a typical '
        'subset differ by more than the tolerance')
ASSUMPTIONS = ['the rotation search of the code is not exactly global: '
               'alignments up to 0.01 below the best sum of |cos| on a '
               'fine grid are accepted']
TOL = .01


def case():
    return rec(N=pick(10, 12, 14, 8, 6, 16, 4, 3, 2, 1), n=pick(4, 3, 5, 2, 6, 7, 1, 8), seed=seeds(),
               layout=pick('uniform', 'cluster', 'fan', 'fan', 'dup'),
               off=fl(0, 3.2), index=index_spec(), as_=pick('series', 'array'),
               mag=pick('one', 'wide'), ops=st.lists(
                   pick('flip', 'scale', 'index', 'array', 'whole', 'turn',
                        'coarse'),
                   min_size=1, max_size=3))


def quality(dirs, n, ngrid=360):
    """Best alignment over fan rotations of a set of directions."""
    best = 0
    for o in np.arange(ngrid) / ngrid * np.pi / n:
        fan = np.arange(n) / n * np.pi + o
        d = np.abs(np.cos(dirs[None, :] - fan[:, None]))
        r, k = linear_sum_assignment(-d)
        best = max(best, d[r, k].sum())
    return best


def make(c):
    r = np.random.default_rng(c['seed'])
    N, n = c['N'], c['n']
    if c['layout'] == 'cluster':
        a = c['off'] + .15 * r.standard_normal(N)
        k = r.integers(0, N + 1)
        a[:k] = r.uniform(0, np.pi, k)
    elif c['layout'] == 'fan':
        a = c['off'] + .3 + .1 * r.standard_normal(N)
        m = min(n, N)
        a[:m] = c['off'] + np.arange(m) / n * np.pi \
            + .002 * r.standard_normal(m)
    elif c['layout'] == 'dup':
        a = r.choice(r.uniform(0, np.pi, 4), N)
    else:
        a = r.uniform(0, 2 * np.pi, N)
    a = r.permutation(a) + np.pi * r.integers(0, 2, N)
    L = r.uniform(1, 20, N) if c['mag'] == 'one' else 10 ** r.uniform(-4, 4, N)
    return a, L, r


def call(a, L, n, index, kind):
    x, y = L * np.cos(a), L * np.sin(a)
    if kind == 'int':
        x, y = (np.rint(1e4 * f(a)).astype('int64') for f in (np.cos, np.sin))
    if kind == 'coarse':
        x, y = np.rint(4 * np.cos(a)), np.rint(4 * np.sin(a))
        x, y = x.astype('int64'), y.astype('int64')
    if kind == 'series':
        x, y = pd.Series(x, index), pd.Series(y, index)
    out = list(cmv.optimum_subset(x, y, n=n))
    N = len(a)
    check(len(out) == min(n, N), f'{len(out)} indices for n={n} of {N}')
    check(len({int(i) for i in out}) == len(out), f'repeated indices {out}')
    check(all(int(i) == i and 0 <= i < N for i in out),
          f'not positional indices: {out}')
    return [int(i) for i in out]


def oracle(c):
    a, L, r = make(c)
    N, n = c['N'], c['n']
    ix = make_index(c['index'], N)
    got = call(a, L, n, ix, c['as_'])
    if n >= N:
        check(sorted(got) == list(range(N)), f'not all indices: {got}')
    best = quality(a, n)
    q = quality(a[got], n)
    check(q >= best - TOL, f'alignment {q:.4f} of {got}, achievable {best:.4f}'
          f' (n={n}, N={N})')
    tags = [c['layout']]
    for op in c['ops']:
        tags.append(op)
        b, M, j, kind = a, L, ix, c['as_']
        if op == 'flip':
            b = a + np.pi * r.integers(0, 2, N)
        elif op == 'scale':
            M = L * 10 ** r.uniform(-3, 3, N)
        elif op == 'index':
            j = pd.Index(r.permutation(N) + 3)
        elif op == 'whole':
            kind = 'int'
        elif op == 'array':
            kind = 'array'
        elif op == 'coarse':    # small whole numbers: other directions
            k2 = call(a, L, n, ix, 'coarse')
            a2 = np.arctan2(np.rint(4 * np.sin(a)), np.rint(4 * np.cos(a)))
            q2, b2 = quality(a2[k2], n), quality(a2, n)
            check(q2 >= b2 - TOL, f'alignment {q2:.4f} of {k2} among '
                  f'components of whole numbers, achievable {b2:.4f}')
            continue
        else:
            b = a + r.uniform(-3, 3)
        g2 = call(b, M, n, j, kind)
        if op in ('index', 'array'):
            check(g2 == got, f'{g2} instead of {got} after {op}')
        else:
            q2 = quality(a[g2], n)
            check(q2 >= best - TOL, f'alignment {q2:.4f} of {g2} after {op}, '
                  f'achievable {best:.4f}')
    if N <= n or best - quality(a[:n], n) < TOL:
        tags.append('trivial')
    return tags


SUBS = [Sub('diverse', case, oracle, 800, 10000),
        Sub('diverse at scale', lambda: large(
            case(), N=ints(30, 400), n=ints(1, 24)), oracle, 24, 300)]
