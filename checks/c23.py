import numpy as np
import pandas as pd
from hypothesis import strategies as st

from pbt.gen import (fl, ints, large, pick, rec, seeds)
from pbt.harness import Sub, check, same_index
from solarspatialtools import field

RULE = ('non-trivial: at least one entity is moved (for cascades by both '
        'remaps, with compositions that depend on their order)')
ASSUMPTIONS = ['an entity that a remap does not list stays where it is',
               'labels are sortable, unique and not missing']


def labels(kind, n, seed):
    r = np.random.default_rng(seed)
    if kind == 'str':
        x = [f'CMB-{i:03d}' for i in range(n)]
    elif kind == 'int':
        x = [int(i) for i in r.choice(max(200, 2 * n), n, replace=False) - 100]
    elif kind == 'float':
        x = [float(i) / 4 for i in r.choice(max(200, 2 * n), n, replace=False)]
    elif kind == 'small':
        x = list(range(n))
    else:
        x = list(pd.Timestamp('2020-01-01') + pd.to_timedelta(range(n), 'D'))
    return [x[i] for i in r.permutation(n)]


def table(lab, seed, cols):
    r = np.random.default_rng(seed + 7)
    n = len(lab)
    d = {}
    for k in range(cols):
        q = ['E', 'N', 'name', 'k', 'flag', 'z'][k % 6]
        if q == 'name':
            d[q] = [f'v{i}' for i in r.permutation(n)]
        elif q == 'k':
            d[q] = r.permutation(n) * 10
        elif q == 'flag':
            d[q] = r.integers(0, 2, n).astype(bool)
        elif q == 'z':
            v = r.uniform(0, 1, n)
            v[r.uniform(size=n) < .2] = np.nan
            d[q] = v
        else:
            d[q] = r.uniform(-1e6, 1e6, n)
    return pd.DataFrame(d, index=pd.Index(lab, name='id'))


def remap_of(spec, lab):
    """A list of (entity, partner) pairs."""
    r = np.random.default_rng(spec['seed'])
    n = len(lab)
    k = spec['kind']
    if k == 'perm':
        q = r.permutation(n)
        m = [(lab[i], lab[q[i]]) for i in range(n)]
    elif k == 'cycle':
        m = [(lab[i], lab[(i + 1) % n]) for i in range(n)]
    elif k == 'identity':
        m = [(x, x) for x in lab]
    elif k == 'partial':
        s = [lab[i] for i in r.permutation(n)[:max(2, n // 2)]] \
            if n > 1 else lab
        m = list(zip(s, s[1:] + s[:1]))
    elif k == 'any':      # not a permutation: partners may repeat
        m = [(lab[i], lab[int(r.integers(n))])
             for i in r.permutation(n)[:int(r.integers(1, n + 1))]]
    else:
        m = []
    return [m[i] for i in r.permutation(len(m))]


def rspec():
    return rec(kind=pick('perm', 'cycle', 'partial', 'any', 'perm', 'cycle',
                         'partial', 'any', 'identity',
                         'empty'), seed=seeds())


def same(a, b, what):
    same_index(a.index, b.index, what + ' index')
    same_index(a.columns, b.columns, what + ' columns')
    for q in b.columns:
        x, y = list(a[q]), list(b[q])
        ok = all((u == v) or (u != u and v != v) for u, v in zip(x, y))
        check(ok, f'{what}: column {q} is {x[:6]}, expected {y[:6]}')


def apply(df, remap, cols=None):
    out = {q: list(df[q]) for q in df.columns}
    at = {x: i for i, x in enumerate(df.index)}
    for a, b in remap:
        for q in (df.columns if cols is None else cols):
            out[q][at[a]] = df[q].tolist()[at[b]]
    return pd.DataFrame(out, index=df.index, columns=df.columns)


def remap_case():
    return rec(n=pick(4, 3, 5, 6, 7, 9, 2, 1), lab=pick('str', 'int', 'float', 'small', 'time'),
               seed=seeds(), cols=ints(1, 6), r=rspec(),
               sel=st.lists(ints(0, 5), max_size=3, unique=True),
               subset=pick(True, False))


def remap(c):
    lab = labels(c['lab'], c['n'], c['seed'])
    df = table(lab, c['seed'], c['cols'])
    m = remap_of(c['r'], lab)
    keep, m0 = df.copy(), list(m)
    if c['subset']:
        cols = list(dict.fromkeys(df.columns[i % len(df.columns)]
                                  for i in c['sel']))
        got = field.remap_positions(df, m, columns=cols)
        exp = apply(df, m, cols)
    else:
        cols = None
        got = field.remap_positions(df, m)
        exp = apply(df, m)
    same(got, exp, 'remapped table')
    same(df, keep, 'input table')
    check(m == m0, 'remap was modified')
    for q in df.columns:
        check(got[q].dtype == df[q].dtype, f'dtype of {q}')
    got.iloc[:, 0] = got.iloc[::-1, 0].values     # not a view of the input
    same(df, keep, 'input table after changing the result')
    return [c['r']['kind'], 'some' if cols is not None else 'all'] + (
        ['trivial'] if all(a == b for a, b in m) or cols == [] else [])


def cascade_case():
    return rec(n=pick(4, 3, 5, 6, 7, 9, 2, 1), lab=pick('str', 'int', 'float', 'small', 'time'),
               seed=seeds(), rs=st.lists(rspec(), min_size=2, max_size=5),
               right=pick(True, False))


def cascade(c):
    lab = labels(c['lab'], c['n'], c['seed'])
    df = table(lab, c['seed'], 3)
    ms = [remap_of(s, lab) for s in c['rs']]
    keep = [list(m) for m in ms]
    step = df
    for m in ms:
        step = field.remap_positions(step, m)
    # the same by a chain of cascades, associated either way
    if c['right']:
        tot = ms[-1]
        for m in ms[-2::-1]:
            tot = field.cascade_remap(m, tot)
    else:
        tot = ms[0]
        for m in ms[1:]:
            tot = field.cascade_remap(tot, m)
    check(ms == keep, 'remaps were modified')
    w = f"cascade of {[s['kind'] for s in c['rs']]}"
    check(isinstance(tot, list) and all(isinstance(t, tuple) and len(t) == 2
                                        for t in tot), f'{w}: not pairs')
    keys = [t[0] for t in tot]
    check(keys == sorted(keys) and len(set(keys)) == len(keys),
          f'{w}: entities not sorted and unique: {keys}')
    check(set(keys) == {a for m in ms for a, _ in m}, f'{w}: entities {keys}')
    same(field.remap_positions(df, tot), step, w)
    exp = df
    for m in ms:
        exp = apply(exp, m)
    same(step, exp, f'successive remaps ({w})')
    # identity and inverse
    m = ms[0]
    ident = [(x, x) for x in lab]
    full = dict(ident)
    full.update(m)
    want = sorted(full.items())
    check(field.cascade_remap(m, ident) == want, 'right identity')
    check(field.cascade_remap(ident, m) == want, 'left identity')
    if len(set(full.values())) == len(lab):
        inv = [(b, a) for a, b in full.items()]
        check(field.cascade_remap(m, inv) == sorted(ident), 'right inverse')
        check(field.cascade_remap(inv, m) == sorted(ident), 'left inverse')
    a, b = dict(ms[0]), dict(ms[1])
    ab = {k: a.get(b.get(k, k), b.get(k, k)) for k in lab}
    ba = {k: b.get(a.get(k, k), a.get(k, k)) for k in lab}
    return [s['kind'] for s in c['rs']] + [c['lab']] + (
        ['trivial'] if ab == ba else [])


SUBS = [Sub('remap', remap_case, remap, 800, 20000),
        Sub('cascade', cascade_case, cascade, 800, 20000),
    Sub('remap at scale', lambda: large(remap_case(), n=ints(30, 300), cols=ints(1, 20), lab=pick('str', 'int', 'time')),
        remap, 40, 600),
    Sub('cascade at scale', lambda: large(cascade_case(), n=ints(30, 150), lab=pick('str', 'int', 'time'), rs=st.lists(rspec(), min_size=2, max_size=12)),
        cascade, 40, 600),
]
