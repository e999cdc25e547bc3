import numpy as np
import pandas as pd
from hypothesis import strategies as st

from pbt.gen import (TZS, cloud_spec, clouds, fl, for_tf, ints, large,
                     pick, rec, seeds)
from pbt.gen import INT, as_type
from pbt.harness import Sub, check, close, arr
from checks import cmvlib as M
from solarspatialtools import cmv

RULE = ('non-trivial: at least three pairs are accepted and the estimate is '
        'well conditioned')
ASSUMPTIONS = ['velocity limits are opened (0 to 1e9 m/s) for scaling and '
               'sampling period relations, which would otherwise move pairs '
               'across them']

OPS = ('translate', 'rotate', 'scale', 'rename', 'columns', 'unused',
       'clock', 'dead', 'halve', 'sites', 'mirror', 'gain', 'zone')


def case():
    return rec(f=cloud_spec(3, 6), method=pick('jamaly', 'gagne'),
               backend=pick('xcorr', 'xcorr', 'tf'), ref=pick('none', 'one'),
               ops=st.lists(pick(*OPS), min_size=1, max_size=3), k=ints(0, 5),
               seed=seeds(), a=fl(-7, 7), s=fl(.1, 10),
               t=st.tuples(fl(-1e5, 1e5), fl(-1e5, 1e5)),
               dead=pick('const', 'nan', 'zero'), at=ints(0, 6),
               tz=pick(*TZS), start=ints(0, 10**8), whole=INT)


def oracle(c):
    if c['backend'] == 'tf':
        c = dict(c, f=for_tf(c['f']))
    pos, ts, u, K = clouds(c['f'])
    ts = as_type(ts, c['whole'])
    opts = {'maxvelocity': 1e9} if c['method'] == 'jamaly' else None
    if 'gain' in c['ops']:      # absolute limits do not follow the gain
        opts = dict(opts or {}, ktlim=0.)
    ids = list(pos.index)
    ref = ids[c['k'] % len(ids)] if c['ref'] == 'one' else None

    def run(p, t, rf):
        with np.errstate(all='ignore'):
            return cmv.compute_cmv(t, p, reference_id=rf, method=c['method'],
                                   options=opts, delay_backend=c['backend'])
    v0, th0, d0 = run(pos, ts, ref)
    good = np.array([f == M.F.GOOD for f in d0.pair_flag])
    if good.sum() < 3:
        return ['trivial']
    lag = arr(d0.pair_lag)[good]
    pairs = M.pairs_of(ids, None if ref is None else [ref])
    vec = np.array([pos.loc[b].values - pos.loc[a].values
                    for a, b in pairs])[good]
    if c['method'] == 'jamaly':
        lam, _, at = M.jamaly(vec, lag)
        vel = at(th0)[4]
        if lam[1] - lam[0] < .05 * lam[1] or lam[1] < 1e-6 * (
                np.abs(vel).max() ** 2) or v0 < 1e-2 * np.abs(vel).max():
            return ['trivial']
        err = abs(np.diff(np.percentile(vel, [40, 60]))[0]) / v0
        near_trend = abs(err - .4) < 1e-3
        rv, ra = 1e-4 * np.abs(vel).max() / v0, 1e-4
    else:
        ev, cond, m = M.gagne(vec, lag)
        if cond > 1e3:
            return ['trivial']
        near_trend = False
        rv = ra = 1e-4
    # margins of the pair decisions that rounding could flip
    for i, (a, b) in enumerate(pairs):
        x, y = ts[a].values, ts[b].values
        if a != b:
            dd, pk, mn, _, gap = M.pair_corr(x, y, c['f']['dt'])
            lim = ([.8] if c['method'] == 'jamaly' else [.99, .95, .9])
            if c['backend'] == 'tf':
                pk = arr(d0.corr_lag)[i]
            if gap < 1e-9 or min(abs(pk - q) for q in lim) < 1e-6 or (
                    abs(1 - mn / pk - .8) < 1e-6):
                return ['trivial', 'near a limit']
    fv, da = 1.0, 0.0
    r = np.random.default_rng(c['seed'])
    p, t = pos.copy(), ts.copy()
    ops = list(dict.fromkeys(c['ops']))
    if c['backend'] == 'tf':
        ops = [o for o in ops if o != 'halve']
    # later operations see the result of the earlier ones
    order = [o for o in ops if o != 'mirror'] or ['translate']
    sign = 1.0
    for o in order:
        if o == 'translate':
            p = p.assign(E=p.E + c['t'][0], N=p.N + c['t'][1])
        elif o == 'rotate':
            R = np.array([[np.cos(c['a']), -np.sin(c['a'])],
                          [np.sin(c['a']), np.cos(c['a'])]])
            xy = p[['E', 'N']].values @ R.T
            p = p.assign(E=xy[:, 0], N=xy[:, 1])
            da += c['a']
        elif o == 'scale':
            p = p.assign(E=p.E * c['s'], N=p.N * c['s'])
            fv *= c['s']
        elif o == 'rename':
            new = {q: f'n{k}' for k, q in zip(r.permutation(len(t.columns)),
                                              t.columns)}
            p, t = p.rename(index=new), t.rename(columns=new)
            ref = new.get(ref)
        elif o == 'columns':
            t = t[list(r.permutation(t.columns))]
        elif o == 'unused':
            t = t.copy()
            t.insert(c['at'] % (t.shape[1] + 1), 'unused',
                     r.uniform(0, 1, len(t)))
        elif o == 'clock':
            i = t.index.tz_localize(None) + pd.Timedelta(seconds=c['start'])
            t = t.set_axis(i.tz_localize(c['tz']), axis=0)
        elif o == 'dead':
            val = {'const': .8, 'nan': np.nan, 'zero': 0.}[c['dead']]
            # labels of one kind only: either strings or numbers
            dead = 'dead' if all(isinstance(q, str) for q in p.index) else 97
            t = t.copy()
            t[dead] = val
            k = c['at'] % (len(p) + 1)
            row = pd.DataFrame([[7., 9., 19.][:p.shape[1]]], [dead],
                               p.columns)
            p = pd.concat([p.iloc[:k], row, p.iloc[k:]])
        elif o == 'halve':
            i = t.index
            i = i.as_unit('ns')
            t = t.set_axis(i[0] + (i - i[0]) / 2, axis=0)
            fv *= 2
        elif o == 'gain':
            t = t * np.exp(r.uniform(-2, 7, t.shape[1]))
        elif o == 'zone':
            p = p.assign(zone=19.)
        elif o == 'sites':
            p = p.iloc[r.permutation(len(p))]
    v1, th1, d1 = run(p, t, ref)
    w = f'after {order} ({c["method"]}, {c["backend"]})'
    close(v1, v0 * fv, rv, 0, f'speed {w}')
    close(M.angdiff(th1, th0 + da), 0., 0, ra, f'direction {w}')
    ng = sum(f == M.F.GOOD for f in d1.pair_flag)
    check(ng == good.sum(), f'{ng} accepted pairs, before {good.sum()} {w}')
    if not near_trend:
        check(d1.flag == d0.flag, f'flag {d1.flag}, before {d0.flag} {w}')
    return [c['method'], c['backend']] + order


SUBS = [Sub('symmetries', case, oracle, 900, 20000),
    Sub('symmetries at scale', lambda: large(case(), f=large(cloud_spec(), ns=ints(8, 16), n=ints(260, 900))),
        oracle, 16, 200),
]
