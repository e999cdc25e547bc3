import numpy as np
import pandas as pd
from hypothesis import strategies as st

from pbt.gen import fl, ints, pick, rec, seeds
from pbt.harness import Sub, check, close, arr
from checks.c22 import plant, build
from solarspatialtools import field, signalproc, spatial

RULE = ('non-trivial: at least two labels are wrong, the plant has at least '
        'two sites and the wind crosses them')
ASSUMPTIONS = ['layout: the pattern moves rigidly, the winds are at least '
               '0.7 rad from parallel, sites at least 60 m apart, and the '
               'prediction uses all sites (or, where one point is left out, '
               'only neighbours are exchanged), so that the wrong labels of '
               'the partners cancel',
               'plant: the signal is periodic with the record and its '
               'frequencies lie on the grid of the filter']


# -------------------------------------------------- which label is where
def layout_case():
    return rec(p=plant(), mode=pick('all', 'all', 'distance', 'coherence',
                                    'global_coherence', 'preavg'),
               method=pick('multi', 'multi', 'fit'),
               perm=pick('shuffle', 'cycle', 'swap', 'none'), ps=seeds(),
               first=pick('none', 'none', 'shuffle', 'swap'),
               partial=st.booleans(), nx=ints(3, 4), ny=ints(2, 3),
               order=st.booleans())


def permute(kind, xy, r):
    n = len(xy)
    p = np.arange(n)
    if kind == 'shuffle':
        return r.permutation(n)
    if kind == 'cycle':
        k = r.permutation(n)[:int(r.integers(3, n + 1))]
        p[k] = np.roll(k, 1)
    if kind == 'swap':
        a = int(r.integers(n))
        d = np.hypot(*(xy - xy[a]).T)
        d[a] = np.inf
        b = int(np.argmin(d))
        p[[a, b]] = p[[b, a]]
    return p


def layout(c):
    n = c['nx'] * c['ny']
    q = dict(c['p'], n=400, dt=10, s1=max(c['p']['s1'], 8),
             s2=max(c['p']['s2'], 8), ns=n, size=1.)
    q['da'] = min(max(q['da'], .7), 2.4)
    kind, first = c['perm'], c['first']
    if c['mode'] not in ('all', 'distance'):
        kind, first = ('none' if kind == 'none' else 'swap'), 'none'
    r = np.random.default_rng(c['ps'])
    g = np.array([(i, j) for i in range(c['nx']) for j in range(c['ny'])],
                 float)
    xy = (g - g.mean(0)) * 95 + r.uniform(-17, 17, g.shape)
    xy = xy[r.permutation(n)]
    perm = permute(kind, xy, r)
    _, dfs, w = build(q, .05, lambda pos, _: xy[perm])
    names = list(dfs[0].columns)
    plan = pd.DataFrame(xy + q['zone'] * np.array([4e5, 4.4e6]), names,
                        ['E', 'N'])
    truth = {names[k]: names[perm[k]] for k in range(n)}
    p0 = permute(first, xy, r)
    remap0 = [(names[k], names[p0[k]]) for k in range(n)
              if not c['partial'] or p0[k] != k]
    pos = field.remap_positions(plan, remap0)
    if c['order']:
        pos = pos.loc[r.permutation(names)]
    left = 0

    def survey(pos, what):
        pred = pd.DataFrame(
            [arr(field.compute_predicted_position(
                dfs, pos, k, w, mode=c['mode'], ndownsel=n,
                delay_method=c['method'])[0]) for k in pos.index],
            pos.index, ['E', 'N'])
        true = np.array([plan.loc[truth[k]].values for k in pos.index])
        err = np.hypot(*(pred.values - true).T)
        # leaving out one point stretches the displacement a little
        lim = 25. if c['mode'] in ('all', 'distance') else 45.
        check(err.max() < lim, f'{what}: predicted position off by '
              f'{err.max():.0f} m ({c["mode"]}, {c["method"]})')
        return field.assign_positions(pos, pred), pred
    (remap1, fixed), _ = survey(pos, 'first survey')
    total = remap1 if not remap0 else field.cascade_remap(remap0, remap1)
    got = dict(total)
    for k in names:
        check(got.get(k, k) == truth[k],
              f'{k} was assigned to {got.get(k, k)}, its data come from '
              f'{truth[k]} ({c["mode"]}, {c["method"]})')
    final = field.remap_positions(plan, total)
    want = plan.loc[[truth[k] for k in names]].values
    close(final.loc[names].values, want, 0, 0, 'corrected layout')
    close(fixed.loc[names].values, want, 0, 0, 'layout of the assignment')
    # a survey of the corrected layout finds nothing to do
    (remap2, _), _ = survey(final, 'second survey')
    check(all(a == b for a, b in remap2), f'second survey: {remap2}')
    again = dict(field.cascade_remap(total, remap2))
    check(all(again[k] == truth[k] for k in names), 'cascade with identity')
    wrong = sum(pos.loc[k].values.tolist() != plan.loc[truth[k]].values.tolist()
                for k in names)
    return [c['mode'], kind, first] + ([] if wrong else ['trivial'])


# ---------------------------------------- output of a plant from one sensor
def cam_case():
    return rec(ns=ints(1, 9), seed=seeds(), n=pick(120, 200, 240),
               dt=pick(1, 2, 5), v=pick(4, 5, 8, 10, 16), ang=fl(-3.1, 3.1),
               length=fl(.1, 30), m=ints(1, 6), dx=pick(1, .5, .25),
               size=fl(10, 200), frame=st.booleans(), k=ints(1, 2),
               latlon=st.booleans(), ref=pick('site', 'away'),
               lat=fl(-60, 60), lon=fl(-170, 170))


def cam(c):
    r = np.random.default_rng(c['seed'])
    n, dt, v, dx = c['n'], c['dt'], c['v'], c['dx']
    xmax = v * n * dt * c['k']
    u = np.array([np.cos(c['ang']), np.sin(c['ang'])])
    half = min(c['size'], xmax / 8)
    # distinct places along the wind, so that no two sites share a pixel
    slots = r.choice(np.arange(-12, 13), c['ns'], replace=False) / 12
    along = slots * half + r.uniform(-.2, .2, c['ns']) * half / 12
    if half / 12 * .6 < dx:
        return ['trivial']
    p = np.array([-u[1], u[0]])
    pos = along[:, None] * u + r.uniform(-half, half, (c['ns'], 1)) * p
    ref = pos[0] if c['ref'] == 'site' else r.uniform(-1, 1, 2) * half
    x = (pos - ref) @ u
    names = [f's{i}' for i in range(c['ns'])]
    if c['latlon']:
        # metres in the projection that belongs to the reference
        ll = [spatial.lcs2latlon(float(a), float(b), c['lat'], c['lon'])
              for a, b in pos - ref]
        ll = np.array([[float(np.ravel(z)[0]) for z in q] for q in ll])
        P = pd.DataFrame(ll, names, ['lat', 'lon'])
        R = pd.Series([c['lat'], c['lon']], ['lat', 'lon'])
    else:
        z = r.uniform(-1e5, 1e5, 2)
        P = pd.DataFrame(pos + z, names, ['E', 'N'])
        R = pd.Series(ref + z, ['E', 'N'])
    filt = signalproc.get_camfilter(P, v, tuple(u * c['length']), R, dx=dx,
                                    xmax=xmax)
    T = n * dt
    ks = r.integers(0, n // 2, (2, c['m']))
    amp, ph = r.uniform(.1, 1, (2, c['m'])), r.uniform(-3, 3, (2, c['m']))
    t = np.arange(n) * dt

    def signal(j, t):
        return (amp[j] * np.cos(2 * np.pi * ks[j] * t[:, None] / T
                                + ph[j])).sum(1)
    ix = pd.date_range('2020-06-01', periods=n, freq=f'{dt}s', tz='UTC')
    S = pd.DataFrame({'a': signal(0, t), 'b': signal(1, t)}, ix)
    if c['frame']:
        out = signalproc.apply_filter(S, filt)
    else:
        out = pd.DataFrame({q: signalproc.apply_filter(S[q], filt)
                            for q in S})
    # sites sit on pixels: half a pixel, and what the projection distorts
    slack = dx / 2 + (abs(x) * 1e-5 + 1e-3).max() * c['latlon'] + 1e-6
    for j, q in enumerate(S):
        e = np.mean([signal(j, t - d / v) for d in x], axis=0)
        tol = (amp[j] * np.minimum(2, 2 * np.pi * ks[j] / T * slack / v)
               ).sum() + 1e-9
        close(arr(out[q]), e, 0, tol, f'output of {c["ns"]} sites below '
              f'clouds moving with {v} m/s (dx {dx})')
    return ['latlon' if c['latlon'] else 'utm'] + (
        ['trivial'] if c['ns'] < 2 else [])


SUBS = [Sub('layout', layout_case, layout, 120, 2500),
        Sub('plant output', cam_case, cam, 600, 15000)]
