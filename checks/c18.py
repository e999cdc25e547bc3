import numpy as np
import pandas as pd
from hypothesis import strategies as st

from pbt.gen import (INT, as_type, cloud_spec, clouds, fl, for_tf, ints,
                     large, make_time, pick, rec, seeds, time_spec)
from pbt.harness import Sub, check, close, arr
from checks import cmvlib as M
from solarspatialtools import cmv, signalproc as sp

RULE = ('non-trivial: at least two pairs are accepted and the estimate is '
        'not the zero/all-bad answer')
ASSUMPTIONS = ['estimates are compared where they are well conditioned '
               '(stated in the oracle: spread of the pair velocities, '
               'condition number of the site layout)',
               'the transfer-function backend recovers the speed within 20 % '
               'and the direction within 0.1 rad on smooth 30-minute records '
               '(its fixed settings include the signal mean)']


def case():
    return rec(f=cloud_spec(), method=pick('jamaly', 'gagne', 'JAMALY', None),
               backend=pick('xcorr', 'xcorr', 'tf', None),
               ref=pick('none', 'none', 'one', 'list'), opt=pick(0, 1),
               k=ints(0, 5), whole=INT, zone=st.booleans(),
               ipos=pick(False, False, True))


def oracle(c):
    if c['backend'] == 'tf':
        c = dict(c, f=for_tf(c['f']))
    pos, ts, u, K = clouds(c['f'])
    if c.get('ipos'):       # whole metres
        pos = pos.round().astype(int)
    ts = as_type(ts, c['whole'])
    ids = list(pos.index)
    sites = pos.assign(zone=19.) if c['zone'] else pos
    kw = {}
    if c['method']:
        kw['method'] = c['method']
    if c['backend']:
        kw['delay_backend'] = c['backend']
    method = (c['method'] or 'jamaly').lower()
    backend = c['backend'] or 'xcorr'
    if c['opt'] and method == 'jamaly':
        kw['options'] = {'maxvelocity': 1e6, 'mincorr': .3}
    refs = None
    if c['ref'] == 'one':
        kw['reference_id'] = ids[c['k'] % len(ids)]
        refs = [kw['reference_id']]
    elif c['ref'] == 'list':
        refs = [ids[c['k'] % len(ids)], ids[0]]
        kw['reference_id'] = tuple(refs)
    v, th, d = cmv.compute_cmv(ts, sites, **kw)
    flags = list(d.pair_flag)
    good = np.array([f == M.F.GOOD for f in flags])
    check(v >= 0, f'speed {v}')
    check(0 <= th <= 2 * np.pi, f'direction {th}')
    if good.sum() <= 1:
        return ['trivial']
    pairs = M.pairs_of(ids, refs)
    check([tuple(p) for p in d.allpairs] == pairs, 'pairs')
    vec = np.array([pos.loc[b].values - pos.loc[a].values for a, b in pairs])
    lag = arr(d.pair_lag)
    check(lag.shape == (len(pairs),), f'{lag.shape} lags')
    check(d.wind_speed == v and d.wind_angle == th,
          'speed and direction in the output data differ from the result')
    # per-pair data belong to the listed pairs
    dt = c['f']['dt']
    raw, lagc = arr(d.corr_raw), arr(d.corr_lag)
    if backend == 'xcorr':
        for i, (a, b) in enumerate(pairs):
            dd, pk, mn, z0, gap = M.pair_corr(ts[a].values, ts[b].values, dt)
            close(raw[i], z0, 0, 1e-8, f'zero-lag correlation of {a, b}')
            close(lagc[i], pk, 0, 1e-8, f'lagged correlation of {a, b}')
            if gap > 1e-8:
                close(lag[i], dd, 0, 1e-6 * dt, f'lag of pair {a, b}')
        check(d.pair_coh is None, 'coherence from the xcorr backend')
    else:
        coh = arr(d.pair_coh)
        A = pd.DataFrame({i: ts[a].values for i, (a, b) in enumerate(pairs)},
                         ts.index)
        B = pd.DataFrame({i: ts[b].values for i, (a, b) in enumerate(pairs)},
                         ts.index)
        dl, ex = sp.compute_delays_tf(A, B, 5, .6, .02, 'multi', .5,
                                      'hamming', True)
        close(lag, arr(dl), 1e-9, 1e-9 * dt, 'transfer function lags')
        close(coh, arr(ex['mean_coh']), 1e-9, 1e-12, 'mean coherence')
        close(lagc, arr(ex['peak_corr']), 1e-9, 1e-12, 'lagged correlation')
        close(raw, arr(ex['zero_corr']), 1e-9, 1e-12, 'zero-lag correlation')
    e = np.array([np.cos(th), np.sin(th)])
    close(arr(d.pair_dists), vec @ e, 0, 1e-7 * (np.abs(vec).max() + 1),
          'distances along the cloud direction')
    lg, vg = lag[good], vec[good]
    md = d.method_data
    t = [method, backend]
    if method == 'jamaly':
        lam, opt, at = M.jamaly(vg, lg)
        var, med, v40, v60, vel = at(th)
        tol = 1e-6 * lam[1] + 1e-12 * np.abs(vel).max() ** 2
        check(var <= lam[0] + tol, f'variance {var} at the returned '
              f'direction, minimum {lam[0]} at {opt} (mod pi)')
        close(v, med, 1e-6, 1e-9 * np.abs(vel).max(), 'median speed')
        check(int(md['ngood']) == good.sum(), 'number of good pairs')
        err = abs((v60 - v40) / med)
        if abs(err - .4) > 1e-6:
            want = M.F.TREND if err > .4 else M.F.GOOD
            check(d.flag == want, f'flag {d.flag} at error index {err}')
        close(abs(float(md['error_index'])), err, 1e-5, 1e-7, 'error index')
        u = arr(md['velocity'])
        e6, e4, e5 = np.nanpercentile(u, [60, 40, 50])
        close(md['error_index'], (e6 - e4) / e5, 1e-6, 1e-9, 'error index of '
              'the listed velocities')
        s = np.sort(np.abs([float(md['v40']), float(md['v60'])]))
        close(s, np.sort(np.abs([v40, v60])), 1e-5,
              1e-8 * np.abs(vel).max(), 'velocity percentiles')
        close(np.abs(arr(md['velocity'])), np.abs(vel), 1e-5,
              1e-7 * np.abs(vel).max(), 'pair velocities')
        # linear relation of distance and delay of the good pairs
        if len(lg) > 2 and np.ptp(lg) > 0:
            x, y = lg - lg.mean(), vg @ e - (vg @ e).mean()
            if np.abs(y).max() > 1e-6 * np.abs(vg).max():
                r = x @ y / np.sqrt(x @ x * (y @ y))
                close(md['r_corr'], abs(r), 0, 1e-5,
                      'correlation of distance and delay')
                ss = np.sqrt(max(1 - r * r, 0) * (y @ y) / (x @ x)
                             / (len(x) - 2))
                close(md['stderr_corr'], ss, 1e-4, 1e-4 * np.sqrt(
                    y @ y / (x @ x)), 'standard error of that relation')
        S = np.array([[ts[a].values, ts[b].values] for a, b in pairs])
        with np.errstate(all='ignore'):
            q = 1 - S.mean(2) / S.max(2)
        close(np.array([arr(k) for k in md['var_s']]).T[good], q[good], 1e-9,
              1e-9, 'variation ratios of the pairs')
        rq = arr(md['r_qc'])
        for i in np.flatnonzero(good)[:40]:
            a, b = S[i] - S[i].mean(1, keepdims=True)
            mn = M.O.xcorr(a, b)[0].mean() / (len(a) * a.std() * b.std())
            close(rq[i], 1 - mn / lagc[i], 1e-6, 1e-9,
                  'ratio of mean and peak correlation')
        t.append('trend' if err > .4 else 'steady')
    else:
        ev, cond, m = M.gagne(vg, lg)
        if cond < 1e4 and m * np.linalg.norm(vg) > 1e-6:
            g = v * e
            close(g, ev, 0, 1e-5 * cond * np.hypot(*ev),
                  'inverse of the least-squares slowness')
            # up to the residual variance; its derivatives are finite
            # differences
            if cond < 30 and min(abs(e)) > .1:
                G = np.linalg.inv(vg.T @ vg)
                pc = np.asarray(md['pcov'], float)
                check(pc.shape == (2, 2), f'covariance of the slowness {pc}')
                close(pc / np.trace(pc), G / np.trace(G), 0, .05,
                      'covariance of the slowness')
    check(repr(d) == repr(d.to_dict()), 'text of the output data')
    for k, x in d.to_dict().items():
        check(x is getattr(d, k), f'to_dict: {k}')
    return t


def truth_case():
    return rec(f=cloud_spec(4, 7), method=pick('jamaly', 'gagne'),
               backend=pick('xcorr', None))


def truth(c):
    f = dict(c['f'], kind='pulse', noise=0.0, jit=0, kd=6)
    pos, ts, u, K = clouds(f)
    kw = {'delay_backend': c['backend']} if c['backend'] else {}
    v, th, d = cmv.compute_cmv(ts, pos, method=c['method'], **kw)
    good = np.array([q == M.F.GOOD for q in d.pair_flag])
    if good.sum() < 3:
        return ['trivial']
    pairs = M.pairs_of(list(pos.index))
    vec = np.array([pos.loc[b].values - pos.loc[a].values
                    for a, b in pairs])[good]
    lag = arr(d.pair_lag)[good]
    if c['method'] == 'jamaly':
        lam, _, _ = M.jamaly(vec, lag)
        if lam[1] < 1e-3 * f['speed'] ** 2:
            return ['trivial']
    elif np.linalg.cond(vec) > 1e3:
        return ['trivial']
    close(v, f['speed'], 1e-4, 0, 'speed of the advecting pattern')
    close(M.angdiff(th, f['ang']), 0., 0, 1e-4, 'direction of the pattern')
    if c['method'] == 'jamaly':
        check(d.flag == M.F.GOOD, f'flag {d.flag} for a perfect field')
    return [c['method']]


def tf_case():
    return rec(seed=seeds(), ns=ints(5, 6), speed=fl(4, 25), ang=fl(-7, 7),
               method=pick('jamaly', 'gagne'), t=time_spec((1,)),
               n=ints(1500, 2400))


def tf(c):
    r = np.random.default_rng(c['seed'])
    u = np.array([np.cos(c['ang']), np.sin(c['ang'])])
    # sites around a circle, so both directions are always sampled
    a = np.arange(c['ns']) * 2 * np.pi / c['ns'] + r.uniform(0, 7)
    pos = 120 * np.column_stack([np.cos(a), np.sin(a)]) \
        + r.uniform(-25, 25, (c['ns'], 2))
    tau = pos @ u / c['speed']
    n = c['n']
    f = np.fft.rfftfreq(2 * n, 1.)
    S = (r.standard_normal(len(f)) + 1j * r.standard_normal(len(f))) / (
        1 + (f / .01) ** 2)
    S[0] = 0
    X = np.column_stack([np.fft.irfft(S * np.exp(-2j * np.pi * f * q),
                                      2 * n)[:n] for q in tau])
    X = .8 + .3 * X / np.abs(X).max()
    nm = [f's{i}' for i in range(c['ns'])]
    ts = pd.DataFrame(X, make_time(c['t'], n), nm)
    v, th, d = cmv.compute_cmv(ts, pd.DataFrame(pos, nm, ['x', 'y']),
                               method=c['method'], delay_backend='tf')
    good = sum(q == M.F.GOOD for q in d.pair_flag)
    if good < 5:
        return ['trivial']
    close(v, c['speed'], .2, 0, 'speed (transfer functions)')
    close(M.angdiff(th, c['ang']), 0., 0, .1, 'direction (transfer '
                                              'functions)')
    return [c['method']]


MEMBERS = ['corr_raw', 'corr_lag', 'allpairs', 'pair_lag', 'pair_coh',
           'pair_dists', 'wind_speed', 'wind_angle', 'pair_flag', 'flag',
           'method_data']


def holder_case():
    return rec(v=st.lists(st.one_of(st.none(), st.none(), fl(-9, 9),
                                    pick('x', 0)),
                          min_size=11, max_size=11), again=ints(0, 10))


def holder(c):
    """The output object lists every member, also those that were not set."""
    d, other = cmv.WindspeedData(), cmv.WindspeedData()
    want = dict.fromkeys(MEMBERS)
    for k, x in zip(MEMBERS, c['v']):
        if x is not None:
            setattr(d, k, x)
            want[k] = x
    got = d.to_dict()
    check(got == want, f'to_dict gives {got}, expected {want}')
    check(repr(d) == repr(got), 'text of the output data')
    check(not any(x is not None for x in other.to_dict().values()),
          'members of another object were set')
    k = MEMBERS[c['again']]
    setattr(d, k, 'changed')
    check(d.to_dict()[k] == 'changed', f'{k} set a second time')
    n = sum(x is not None for x in want.values())
    return [f'{n} set'] + (['trivial'] if n in (0, 11) else [])


SUBS = [
    Sub('estimate', case, oracle, 640, 15000),
    Sub('output object', holder_case, holder, 300, 4000),
    Sub('advecting pattern', truth_case, truth, 480, 10000),
    Sub('transfer functions', tf_case, tf, 240, 4000),
    Sub('estimate at scale', lambda: large(case(), f=large(cloud_spec(), ns=ints(8, 20), n=ints(260, 900))),
        oracle, 16, 200),
    Sub('advecting pattern at scale', lambda: large(truth_case(), f=large(cloud_spec(), ns=ints(8, 20), n=ints(400, 900))),
        truth, 16, 200),
]
