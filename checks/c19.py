import numpy as np
import pandas as pd
from hypothesis import strategies as st

from pbt.gen import (cloud_spec, clouds, fl, for_tf, ints, large, pick,
                     rec, seeds)
from pbt.harness import Sub, check, close, raises, arr
from checks import cmvlib as M
from solarspatialtools import cmv

RULE = ('non-trivial: at least one pair of different sites is flagged and '
        'one is good, or fewer than two are good')
ASSUMPTIONS = ['a pair whose deciding quantity lies within 1e-7 (relative) '
               'of a limit is not compared', 'pairs with missing or constant '
               'signals are claimed only not to be good',
               'when several limits fail, the flag is that of the last check '
               'in the documented sequence']

MOD = pick('none', 'none', 'const', 'nan1', 'nan', 'dark', 'flat', 'noise',
           'faint', 'copy', 'scale', 'near')
F = M.F


def case():
    return rec(f=cloud_spec(2, 6), mods=st.lists(MOD, min_size=6, max_size=6),
               method=pick('jamaly', 'jamaly', 'gagne'),
               backend=pick('xcorr', 'xcorr', 'xcorr', 'tf'),
               ref=pick('none', 'one', 'list', 'many'), k=ints(0, 5),
               opt=rec(ktlim=st.one_of(st.none(), fl(.1, 1.2)),
                       var_s_lim=st.one_of(st.none(), fl(0, .4)),
                       mincorr=st.one_of(st.none(), fl(0, .99)),
                       minvelocity=st.one_of(st.none(), fl(0, 30)),
                       maxvelocity=st.one_of(st.none(), fl(5, 200))),
               upper=st.booleans(), intids=st.booleans())


DEF = {'ktlim': .4, 'var_s_lim': .05, 'mincorr': .8, 'minvelocity': 0.,
       'maxvelocity': 70.}


def modify(c, pos, ts):
    r = np.random.default_rng(c['f']['seed'] + 3)
    ids = list(pos.index)
    for i, m in zip(ids, c['mods']):
        x = ts[i].values.copy()
        if m == 'const':
            x[:] = .7
        elif m == 'nan':
            x[:] = np.nan
        elif m == 'nan1':
            x[len(x) // 3] = np.nan
        elif m == 'dark':
            x = x * .3
        elif m == 'flat':
            x = .9 + .05 * (x - x.mean())
        elif m == 'faint':
            x = .9 + .0012 * (x - x.mean())
        elif m == 'noise':
            x = r.uniform(.2, 1.1, len(x))
        elif m == 'copy':
            x = ts[ids[0]].values.copy()
        elif m == 'scale':
            x = 1.4 * x
        elif isinstance(m, list) and m[0] == 'kt':
            x = x * m[1] / x.max()
        elif isinstance(m, list):
            # 1 - mean / max is m[1] while the maximum stays
            q = 1 - x.mean() / x.max()
            x = x.max() - (x.max() - x) * m[1] / q
        elif isinstance(m, float):
            # so much noise that the correlation with the pattern is m
            x = x + r.standard_normal(len(x)) * x.std() * \
                np.sqrt(1 / m ** 2 - 1)
        elif m == 'near':
            pos.loc[i] = pos.loc[ids[0]].values + .5
        ts[i] = x
    return pos, ts


class Near(Exception):
    pass


def lt(a, b):
    """a < b, refusing to decide within rounding."""
    if abs(a - b) < 1e-7 * (1 + abs(b)) and not (a == 0 or b == 0):
        raise Near
    return a < b


def expect(a, b, same, delay, pk, mn, dist, method, o):
    flag = F.SAME if same else F.GOOD
    if lt(np.std(a), .001) or lt(np.std(b), .001):
        flag = F.NOSIGNAL
    if delay == 0:
        flag = F.NOLAG
    if lt(a.max(), o['ktlim']) or lt(b.max(), o['ktlim']):
        flag = F.OVERCAST
    if method == 'jamaly':
        if any(lt(1 - s.mean() / s.max(), o['var_s_lim']) for s in (a, b)):
            flag = F.LOWVAR_S
        if lt(pk, o['mincorr']) or lt(1 - mn / pk, o['mincorr']):
            flag = F.LOWCORR
        if delay == 0:
            ok = False if dist == 0 or o['maxvelocity'] else False
        else:
            s = abs(dist / delay)
            ok = lt(o['minvelocity'], s) and lt(s, o['maxvelocity'])
        if not ok:
            flag = F.VELLIMIT
    return flag


def oracle(c):
    if c['backend'] == 'tf':
        c = dict(c, f=for_tf(c['f']))
    pos, ts, u, K = clouds(c['f'])
    pos, ts = modify(c, pos, ts)
    if c['intids']:
        ren = {p: k + 100 for k, p in enumerate(pos.index)}
        pos, ts = pos.rename(index=ren), ts.rename(columns=ren)
    ids = list(pos.index)
    method, backend = c['method'], c['backend']
    o = dict(DEF)
    opts = {}
    for k, x in c['opt'].items():
        if x is not None and (method == 'jamaly' or k == 'ktlim'):
            o[k] = opts[k] = x
    kw = {'options': opts} if opts else {}
    refs = None
    if c['ref'] == 'one':
        refs = [ids[c['k'] % len(ids)]]
        kw['reference_id'] = refs[0]
    elif c['ref'] == 'list':
        refs = [ids[c['k'] % len(ids)], ids[-1]]
        kw['reference_id'] = refs
    elif c['ref'] == 'many':
        r = np.random.default_rng(c['f']['seed'] + 9)
        refs = [ids[i] for i in r.permutation(len(ids))[:max(
            1, len(ids) - c['k'] % 3)]]
        kw['reference_id'] = refs
    v, th, d = cmv.compute_cmv(
        ts, pos, method=method.upper() if c['upper'] else method,
        delay_backend=backend.upper() if c['upper'] else backend, **kw)
    pairs = M.pairs_of(ids, refs)
    got = [tuple(p) for p in np.asarray(d.allpairs).tolist()]
    check(got == pairs, f'pairs {got[:5]}, expected {pairs[:5]}')
    flags = list(d.pair_flag)
    check(len(flags) == len(pairs), f'{len(flags)} flags')
    good = [f == F.GOOD for f in flags]
    allbad = sum(good) <= 1
    lag = None
    if allbad:
        check(v == 0 and th == 0, f'speed {v}, direction {th} without '
                                  'accepted pairs')
        check(d.flag == F.ALLBAD, f'flag {d.flag} without accepted pairs')
        if backend == 'tf':
            return ['all bad']
    elif backend == 'tf':
        lag = arr(d.pair_lag)
        cl = arr(d.corr_lag)
    dt = c['f']['dt']
    # base flags of all pairs
    base, cor = [], []
    for i, (p, q) in enumerate(pairs):
        a, b = ts[p].values, ts[q].values
        if np.isnan(a).any() or np.isnan(b).any() or a.std() < 1e-12 \
                or b.std() < 1e-12:
            check(not good[i], f'pair {p, q} with an unusable signal is good')
            base.append(None)
            cor.append(None)
            continue
        dist = float(np.hypot(*(pos.loc[q] - pos.loc[p])))
        if backend == 'tf':
            x, y = a - a.mean(), b - b.mean()
            z = M.O.xcorr(x, y)[0] / (len(a) * a.std() * b.std())
            mn, delay, pk = z.mean(), lag[i], cl[i]
        else:
            delay, pk, mn, _, gap = M.pair_corr(a, b, dt)
            if gap < 1e-8 and p != q:
                base.append('?')
                cor.append(pk)
                continue
        try:
            if np.isnan(pk) or np.isnan(delay):
                check(not good[i], 'pair without correlation is good')
                base.append(None)
            else:
                base.append(expect(a, b, p == q, delay, pk, mn, dist, method,
                                   o))
        except Near:
            base.append('?')
        cor.append(pk)
    if method == 'gagne':
        if '?' in base or any(k is not None and min(
                abs(k - x) for x in (.99, .95, .9)) < 1e-7 for k in cor):
            return ['near a limit', 'trivial']
        lim = .99
        for lim in (.99, .95, .9):
            n = sum(b == F.GOOD and k >= lim for b, k in zip(base, cor)
                    if k is not None)
            if n >= 12:
                break
        few = n < 12
        base = [b if b is None or k >= lim else F.LOWCORR
                for b, k in zip(base, cor)]
        if few:
            check(d.flag == F.ALLBAD, f'overall flag {d.flag} with only {n} '
                                      'well correlated pairs')
        elif not allbad:
            check(d.flag == F.GOOD, f'overall flag {d.flag}')
    for i, (w, f) in enumerate(zip(base, flags)):
        if w is None or w == '?':
            continue
        check(f == w, f'pair {pairs[i]} has {f}, expected {w} ({method}, '
                      f'{backend}, {o})')
    kinds = {w for w, p in zip(base, pairs) if p[0] != p[1]
             and isinstance(w, F)}
    t = [method, backend] + [k.name for k in kinds]
    if not allbad and len(kinds) < 2:
        t.append('trivial')
    if method == 'gagne':
        t.append(f'level {lim}' if not few else 'few')
    # only the accepted pairs enter the estimate
    if not allbad:
        lg = arr(d.pair_lag)[good]
        vec = np.array([pos.loc[b].values - pos.loc[a].values
                        for a, b in pairs])[good]
        e = np.array([np.cos(th), np.sin(th)])
        if method == 'jamaly':
            close(v, abs(np.median(vec @ e / lg)), 1e-6, 1e-9,
                  'speed as the median over the accepted pairs')
        else:
            ev, cond, m = M.gagne(vec, lg)
            # without any distance between the sites there is no solution
            if cond < 1e3 and m * np.linalg.norm(vec) > 1e-6:
                close(v * e, ev, 0, 1e-4 * cond * np.hypot(*ev),
                      'estimate from the accepted pairs')
    return t


def graded_case():
    """Many sites whose pairs are correlated to different degrees."""
    levels = [[.9999, .999, .9985], [.998, .988, .995], [.99, .985, .98, .97],
              [.975, .97, .96], [.9999, .9999, .97, .945, .92]]
    return rec(f=rec_scaled(), mods=st.one_of(*[
        st.lists(pick(*x), min_size=10, max_size=10) for x in levels]),
               method=pick('gagne', 'gagne', 'gagne', 'jamaly'),
               backend=pick('xcorr', 'xcorr', 'xcorr', 'tf'),
               ref=pick('none', 'none', 'none', 'list'), k=ints(0, 5),
               opt=rec(ktlim=st.none(), var_s_lim=st.none(),
                       mincorr=pick(.9, .97, .985), minvelocity=st.none(),
                       maxvelocity=st.none()),
               upper=st.booleans(), intids=st.booleans())


def rec_scaled():
    return large(cloud_spec(), ns=ints(6, 9), n=ints(200, 400), kd=pick(20),
                 kind=pick('pulse', 'pulse', 'pulse', 'smooth'),
                 jit=pick(0, 0, 1), noise=pick(0.))


def near_case():
    """Quantities close to a limit, on either side, limits left out or given."""
    return rec(f=large(cloud_spec(), ns=ints(2, 5), kd=pick(20),
                       kind=pick('pulse', 'pulse', 'smooth'), noise=pick(0.)),
               what=pick('kt', 'var', 'vmax', 'vmin', 'corr'),
               rel=pick(-.06, -.02, -.004, .004, .02, .06), k=ints(0, 5),
               given=pick(False, False, True), lim=fl(.2, .9),
               method=pick('jamaly', 'jamaly', 'jamaly', 'gagne'))


def near(c):
    w = c['what']
    key = {'kt': 'ktlim', 'var': 'var_s_lim', 'vmax': 'maxvelocity',
           'vmin': 'minvelocity', 'corr': 'mincorr'}[w]
    lim = DEF[key]
    if c['given'] or w == 'vmin':
        lim = c['lim'] * {'vmax': 60, 'vmin': 20, 'var': .3}.get(w, 1)
    at = lim * (1 + c['rel'])
    f = dict(c['f'])
    mods = ['none'] * 6
    if w in ('vmax', 'vmin'):
        f.update(speed=at, cross=0., jit=0)
    elif w == 'corr':
        mods[c['k'] % f['ns']] = min(at, .999)
    else:
        mods[c['k'] % f['ns']] = [w, at]
    opt = dict.fromkeys(DEF)
    if lim != DEF[key]:
        opt[key] = lim
    if w == 'var' and c['given']:
        opt['mincorr'] = .3
    t = oracle(dict(f=f, mods=mods, method=c['method'] if w == 'kt'
                    else 'jamaly', backend='xcorr', ref='none', k=0, opt=opt,
                    upper=False, intids=False))
    return t + [w, 'default' if lim == DEF[key] else 'given']


def bad_case():
    return rec(f=cloud_spec(2, 3),
               kw=pick({'method': 'other'}, {'delay_backend': 'fft'},
                       {'options': {'maxvel': 3}}, {'method': ''},
                       {'method': 'gagne', 'options': {'mincorr': .5}},
                       {'method': 'gagne', 'options': {'maxvelocity': 5,
                                                       'ktlim': .1}},
                       {'options': {'ktlim': .1, 'x': 1}}))


def bad(c):
    pos, ts, u, K = clouds(c['f'])
    raises(ValueError, lambda: cmv.compute_cmv(ts, pos, **c['kw']),
           f'compute_cmv with {c["kw"]}')


SUBS = [
    Sub('flags', case, oracle, 900, 20000),
    Sub('graded correlations', graded_case, oracle, 60, 1500),
    Sub('near the limits', near_case, near, 160, 3000),
    Sub('rejections', bad_case, bad, 80, 500),
    Sub('flags at scale', lambda: large(case(), f=large(cloud_spec(), ns=ints(8, 16), n=ints(260, 900))),
        oracle, 24, 300),
    Sub('flags of many sites', lambda: large(case(), f=large(cloud_spec(), ns=ints(25, 40), n=ints(90, 150)), ref=pick('none', 'one', 'many')),
        oracle, 8, 100),
]
