import numpy as np
import pandas as pd
from hypothesis import strategies as st

from pbt.gen import (fl, ints, large, make_time, pick, rec, seeds,
                     time_spec)
from pbt.harness import Sub, check, close, raises, arr, same_index
from solarspatialtools import field, signalproc, cmv

RULE = ('non-trivial: the winds are at least 0.35 rad from parallel and no '
        'selection is decided by a tie')
ASSUMPTIONS = ['delays and coherences of the tables are compared with the '
               'public compute_delays_tf for the aligned data (decided by '
               'C10 and C11)',
               'as the code and its documentation of the reference point '
               'have it, the coherence modes leave out the single most '
               'coherent point (the reference itself) and therefore use '
               'ndownsel - 1 points, while the distance mode counts the '
               'reference among the ndownsel closest',
               'columns of pos_utm other than E and N are ignored']

MODES = ('coherence', 'global_coherence', 'distance', 'all', 'preavg')


def plant():
    return rec(ns=ints(4, 14), seed=seeds(), n=pick(200, 301, 400),
               dt=pick(10, 5), t=time_spec((1,)), a1=fl(-3.1, 3.1),
               da=fl(.35, 2.75), s1=fl(3, 15), s2=fl(3, 15),
               noise=pick(.05, .3, 1., 3.), size=pick(100., 400.),
               zone=pick(0., 1.), more=pick(0, 0, 37),
               lab=pick('str', 'str', 'int'), nvec=pick('array', 'tuple', 'list'))


def winds(c):
    a = [c['a1'], c['a1'] + c['da']]
    return [np.array([np.cos(x) * s, np.sin(x) * s])
            for x, s in zip(a, (c['s1'], c['s2']))]


def build(c, noise=None, true=None):
    """Planned positions and two periods below advecting patterns."""
    r = np.random.default_rng(c['seed'])
    ns = c['ns']
    names = [i if c.get('lab') == 'int' else f'c{i:02d}'
             for i in r.permutation(ns).tolist()]
    pos = pd.DataFrame(r.uniform(-1, 1, (ns, 2)) * c['size'], names,
                       ['E', 'N'])
    w = winds(c)
    dfs = []
    noise = c['noise'] if noise is None else noise
    xy = pos.values if true is None else true(pos, r)
    for k, v in enumerate(w):
        s = np.hypot(*v)
        delay = xy @ v / s ** 2
        n = c['n'] + k * c.get('more', 0)   # periods of different lengths
        ix = make_time(dict(c['t'], dt=c['dt']), n)
        tt = np.arange(n) * c['dt']
        m = 120
        f = r.uniform(0., .03, m)
        f[:12] = r.uniform(0., .0008, 12)
        ph = r.uniform(0, 2 * np.pi, m)
        Y = np.cos(2 * np.pi * f[:, None, None] * (tt[None, :, None]
                   - delay[None, None, :]) + ph[:, None, None]).sum(0)
        Y = Y / np.sqrt(m)
        # every site has its own noise level: coherences differ
        Y = Y + noise * r.uniform(.1, 1, ns) * r.standard_normal(Y.shape)
        dfs.append(pd.DataFrame(Y, ix, names))
    pos = pos + c['zone'] * np.array([4e5, 4.4e6])
    return pos, dfs, w


def asvecs(c, w):
    if c['nvec'] == 'array':
        return np.array(w)
    return [tuple(x) if c['nvec'] == 'tuple' else list(x) for x in w]


def model_case():
    return rec(p=plant(), mode=pick(*MODES), nd=ints(3, 16), k=ints(0, 13),
               navgs=pick(5, 5, 3, 8), coh=pick(.6, .6, .3, .9, 0),
               flim=pick(.02, .02, .012, .04, None), method=pick('multi', 'fit'),
               dflt=pick(True, False), dead=pick(0, 0, 0, 1, 2),
               ops=pick('columns', 'shift', 'sites', 'none'),
               d=st.tuples(fl(-1e4, 1e4), fl(-1e4, 1e4)),
               plan=pick('EN', 'EN', 'NE', 'zone', 'front'))


def planned(pos, how):
    """The plan with other columns or with its columns in another order."""
    if how == 'NE':
        return pos[['N', 'E']]
    if how == 'zone':
        return pos.assign(zone=32.)
    if how == 'front':
        return pos.assign(height=7.5)[['height', 'N', 'E']]
    return pos


def expected(pos, dfs, w, ref, mode, nd, kw):
    tabs = []
    for df, v in zip(dfs, w):
        delay, ex = signalproc.compute_delays_tf(df[ref], df[list(pos.index)],
                                                 **kw)
        u = v / np.hypot(*v)
        plan = -(pos.values - pos.loc[ref].values) @ u
        dd = -delay * np.hypot(*v)
        tabs.append(pd.DataFrame(
            {'plan_dist': plan, 'delay_dist': dd, 'error_dist': dd - plan,
             'delay': delay, 'coh': ex['mean_coh']}, pos.index))
    L = len(pos)

    def top(x):
        o = np.argsort(x)
        gaps = [x[o[-1]] - x[o[-2]]]
        lo = max(0, L - nd)
        if lo > 0:
            gaps.append(x[o[lo]] - x[o[lo - 1]])
        return list(pos.index[o[lo:L - 1]]), min(gaps)
    tie = np.inf
    if mode in ('coherence', 'preavg'):
        sel = []
        for t in tabs:
            s, g = top(t['coh'].values)
            sel.append(s)
            tie = min(tie, g)
    elif mode == 'global_coherence':
        s, tie = top(sum(t['coh'].values ** 2 for t in tabs))
        sel = [s, s]
    elif mode == 'distance':
        d = np.hypot(*(pos.values - pos.loc[ref].values).T)
        o = np.argsort(d)
        if nd < L:
            tie = d[o[nd]] - d[o[nd - 1]]
        sel = [list(pos.index[o[:nd]])] * 2
    else:
        sel = [list(pos.index)] * 2
    tabs = [t.loc[s] for t, s in zip(tabs, sel)]
    e = [np.nanmean(t['error_dist']) if t['error_dist'].notna().any()
         else np.nan for t in tabs]
    U = np.array([v / np.hypot(*v) for v in w])
    if np.isfinite(e).all():
        p = np.linalg.solve(U, e) + pos.loc[ref].values
    else:
        p = np.array([np.nan, np.nan])
    return p, tabs, tie, e


def model(c):
    pos, dfs, w = build(c['p'])
    r = np.random.default_rng(c['p']['seed'] + 1)
    ref = pos.index[c['k'] % len(pos)]
    for i in range(c['dead']):
        name = pos.index[(c['k'] + 1 + i) % len(pos)]
        if name != ref:
            dfs[i % 2][name] = .8 if i else np.nan
    if c['ops'] == 'columns':
        dfs = [d[list(r.permutation(d.columns))] for d in dfs]
    elif c['ops'] == 'sites':
        pos = pos.iloc[r.permutation(len(pos))]
    kw = {} if c['dflt'] else {'navgs': c['navgs'], 'coh_limit': c['coh'],
                               'freq_limit': c['flim']}
    exp, tabs, tie, e = expected(pos, dfs, w, ref, c['mode'], c['nd'],
                                 dict(kw, method=c['method']))
    if tie < 1e-9 or min(abs(x) for x in e) < 1e-9:
        return ['trivial', 'tie']

    def call(p):
        return field.compute_predicted_position(
            dfs, planned(p, c['plan']), ref, asvecs(c['p'], w),
            mode=c['mode'],
            ndownsel=c['nd'], delay_method=c['method'], **kw)
    got, full = call(pos)
    w_ = f"({c['mode']}, {c['method']}, {c['ops']}, {c['plan']})"
    sc = np.abs(exp - pos.loc[ref].values).max()
    big = np.abs(pos.values).max()
    tol = 1e-6 * sc + 1e-9 * big if np.isfinite(sc) else 1e-3
    g = arr(got)
    close(g, exp, 0, tol, f'position {w_}')
    check(len(full) == 2, 'two tables')
    for i, (a, b) in enumerate(zip(full, tabs)):
        check(len(a) == len(b) and set(a.index) == set(b.index),
              f'table {i}: points {list(a.index)}, expected {list(b.index)} '
              f'{w_}')
        for q in b.columns:
            check(q in a.columns, f'table {i}: no column {q}')
            x = b[q].values
            m = np.nanmax(np.abs(x), initial=0)
            close(a[q].reindex(b.index).values, x, 1e-6,
                  1e-6 * m + 1e-9 * big, f'table {i} {q} {w_}')
    if c['ops'] == 'shift':
        d = np.array(c['d'])
        got2, _ = call(pos + d)
        close(arr(got2) - d, g, 0, tol + 1e-9 * np.abs(d).max(),
              f'shifted plan {w_}')
    return [c['mode'], c['method'], c['ops'], f"dead{c['dead']}", c['plan']]


def recover_case():
    return rec(p=plant(), mode=pick(*MODES), k=ints(0, 13), j=ints(0, 13),
               method=pick('multi', 'fit'), what=pick('swap', 'move'),
               d=st.tuples(fl(-80, 80), fl(-80, 80)), nd=ints(4, 9))


def recover(c):
    q = dict(c['p'], n=400, dt=10, size=150., s1=max(c['p']['s1'], 8),
             s2=max(c['p']['s2'], 8), ns=max(6, c['p']['ns']))
    k, j = c['k'] % q['ns'], c['j'] % q['ns']

    def true(pos, r):
        xy = pos.values.copy()
        if c['what'] == 'swap':
            xy[[k, j]] = xy[[j, k]]
        else:
            xy[k] += c['d']
        return xy
    pos, dfs, w = build(q, .05, true)
    plan = pos.values
    xy = true(pos - q['zone'] * np.array([4e5, 4.4e6]), None) + \
        q['zone'] * np.array([4e5, 4.4e6])
    got, full = field.compute_predicted_position(
        dfs, pos, pos.index[k], w, mode=c['mode'], ndownsel=c['nd'],
        delay_method=c['method'])
    # the mean includes the reference and its partner where they are selected
    off = pd.DataFrame((xy[k] - xy) - (plan[k] - plan), pos.index)
    U = np.array([v / np.hypot(*v) for v in w])
    e = [off.loc[t.index].values.mean(0) @ u for t, u in zip(full, U)]
    truth = plan[k] + np.linalg.solve(U, e)
    err = np.abs(U @ (arr(got) - truth)).max()
    moved = np.abs(xy[k] - plan[k]).max()
    lim = 8.
    check(err < lim, f"recovered position off by {err:.1f} m ({c['mode']}, "
          f"{c['method']}, reference moved {moved:.0f} m)")
    return [c['mode'], c['method'], c['what']] + (
        ['trivial'] if moved < 30 else [])


def auto_case():
    return rec(p=plant(), mode=pick(*MODES), k=ints(0, 13),
               method=pick('multi', 'fit'), cols=pick(True, False))


def auto(c):
    """Without cloud vectors those of the jamaly method are used."""
    pos, dfs, _ = build(c['p'])
    r = np.random.default_rng(c['p']['seed'] + 2)
    ref = pos.index[c['k'] % len(pos)]
    if c['cols']:
        dfs = [d[list(r.permutation(d.columns))] for d in dfs]
    w = []
    for d in dfs:
        v, th, _ = cmv.compute_cmv(d, pos, method='jamaly')
        w.append((v * np.cos(th), v * np.sin(th)))
    raises(ValueError, lambda: field.compute_predicted_position(
        dfs, pos, ref, w, mode='best'), 'invalid mode')
    if not np.isfinite(w).all() or min(np.hypot(*v) for v in w) < 1e-6:
        return ['trivial']
    x = np.abs(np.sin(np.diff(np.arctan2(*np.transpose(w))))[0])
    if x < .1:
        return ['trivial']
    kw = dict(mode=c['mode'], ndownsel=4, delay_method=c['method'])
    a, fa = field.compute_predicted_position(dfs, pos, ref, **kw)
    b, fb = field.compute_predicted_position(dfs, pos, ref, w, **kw)
    big = np.abs(pos.values).max() * 1e-9
    for f, g in zip(fa, fb):
        same_index(f.index, g.index, 'selected points')
        close(f.values, g.values, 1e-6, 1e-6 + big, 'table')
    sc = np.abs(arr(b) - pos.loc[ref].values).max()
    close(arr(a), arr(b), 0, 1e-6 * sc + big, 'position with own vectors')
    return [c['mode'], c['method']]


SUBS = [Sub('model', model_case, model, 600, 10000),
        Sub('recover', recover_case, recover, 300, 5000),
        Sub('auto', auto_case, auto, 100, 2000),
    Sub('model at scale', lambda: large(model_case(), p=large(plant(), ns=ints(20, 50), n=pick(600, 901, 1500)), nd=ints(10, 50), k=ints(0, 49)),
        model, 16, 200),
]
