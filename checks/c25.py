import numpy as np
import pandas as pd
from hypothesis import strategies as st

from pbt.gen import fl, ints, large, pick, rec, seeds, time_spec, make_time
from pbt.harness import Sub, check, close, arr
from solarspatialtools.synthirrad import copula

RULE = ('non-trivial: at least two sites and times and a field that is not '
        'constant; for frozen clouds at least one shared cloud parcel')
ASSUMPTIONS = ['invariance under a shift of the layout is checked where the '
               'shifted coordinates are exact (otherwise rounding alone '
               'decides which of several equivalent decompositions of a '
               'nearly singular covariance is drawn from)',
               'frozen series agree to 2e-3 of clear-sky index: coincident '
               'parcels are drawn through a singular covariance']


def perturb(spec):
    """Parameter sets near the published ones."""
    r = np.random.default_rng(spec)
    if spec % 3 == 0:
        return dict(copula.DEFAULT_PARAMS)
    P = {'comp': [.8051, 7.3605, .7092], 'mean': [2.2928, 1.0801, .4532],
         'sdevClear': [.3512, 4.8414, .6442],
         'sdevCloud': [.1997, 5.0919, .3863], 'corr_quadr': .0043}
    out = {}
    for k, v in P.items():
        f = r.uniform(.85, 1.15, np.size(v))
        out[k] = [a * b for a, b in zip(v, f)] if isinstance(v, list) \
            else v * float(r.choice([.2, 1., 5.]))
    return out


def layout():
    return rec(ns=ints(1, 6), nt=ints(1, 22), seed=seeds(), pseed=ints(0, 99),
               t=time_spec((1, 5, 10, 60, .5)), spd=fl(0, 30), ang=fl(-7, 7),
               csi=fl(.05, .98), size=pick(50., 500., 5000.),
               irregular=pick(False, False, True), rs=seeds(),
               order=pick(None, None, None, 1, 2, 3))


def expand(c):
    r = np.random.default_rng(c['seed'])
    x, y = r.integers(-64, 65, (2, c['ns'])) * c['size'] / 64
    t = make_time(c['t'], c['nt'])
    if c['irregular']:
        k = np.cumsum(r.integers(1, 6, c['nt'])) - 1
        t = t[:1].append(t[0] + pd.to_timedelta(
            k[1:] * c['t']['dt'] * 1000, 'ms'))
    return t, x, y, perturb(c['pseed'])


def options_case():
    return rec(g=layout(), gseed=seeds(), dt=ints(-10**8, 10**8),
               sh=st.tuples(ints(-50, 50), ints(-50, 50)),
               tz=pick(None, 'UTC', 'Etc/GMT+5'), args=pick(True, False))


def options(c):
    g = c['g']
    t, x, y, P = expand(g)
    if g.get('order'):      # times in any order, some of them repeated
        t = t[np.random.default_rng(g['order']).choice(
            len(t), len(t), replace=g['order'] == 2)]
    args = (t, x, y, g['spd'], g['ang'], g['csi'], P)
    np.random.seed(c['gseed'] % 2**32)
    s0 = np.random.get_state()

    def run(*a, **kw):
        kw.setdefault('seed', g['rs'])
        out = copula.downscale(*a, **kw)
        return arr(out, 'field')
    raw = run(*args, scale=False, noneg=False)
    check(raw.shape == (len(t), len(x)), f'shape {raw.shape}, expected '
          f'{(len(t), len(x))}')
    check(np.isfinite(raw).all(), 'unscaled field is not finite')
    check(np.abs(raw).max() <= 2 + 1e-9, 'values beyond the support')
    clip = np.where(raw < 0, 0., raw)
    a = run(*args, scale=False, noneg=True)
    close(a, clip, 1e-9, 1e-12, 'clipped field')
    check((a >= 0).all(), 'negative values although noneg')
    if abs(clip.mean()) > 1e-6:
        b = run(*args, noneg=True, scale=True)
        close(b, clip * g['csi'] / clip.mean(), 1e-9, 1e-12,
              'clipped and scaled field')
        close(b.mean(), g['csi'], 1e-9, 0, 'mean of the scaled field')
        check((b >= 0).all(), 'negative values although noneg')
        d = run(*args)
        close(d, b, 1e-9, 1e-12, 'default options')
    if abs(raw.mean()) > 1e-3:
        e = run(*args, noneg=False, scale=True)
        close(e, raw * g['csi'] / raw.mean(), 1e-9, 1e-12, 'scaled field')
        close(e.mean(), g['csi'], 1e-9, 0, 'mean of the scaled field')
    # without a seed: neither reads nor advances the global random state
    np.random.seed(c['gseed'] % 2**32)
    n1 = run(*args, scale=False, noneg=False, seed=None)
    s1 = np.random.get_state()
    check(s0[0] == s1[0] and np.array_equal(s0[1], s1[1])
          and s0[2:] == s1[2:], 'global random state was changed (no seed)')
    n2 = run(*args, scale=False, noneg=False, seed=None)
    check(n1.shape == raw.shape and not np.allclose(n1, n2, 0, 1e-12),
          'two fields without a seed are equal')
    np.random.seed(c['gseed'] % 2**32)
    run(*args, scale=False, noneg=False)
    # global random state
    s1 = np.random.get_state()
    check(s0[0] == s1[0] and np.array_equal(s0[1], s1[1])
          and s0[2:] == s1[2:], 'global random state was changed')
    np.random.seed((c['gseed'] + 1) % 2**32)
    np.random.uniform(size=3)
    close(run(*args, scale=False, noneg=False), raw, 0, 1e-9,
          'same seed, other global state')
    other = run(*args, scale=False, noneg=False, seed=g['rs'] + 1)
    check(not np.allclose(other, raw, 0, 1e-12), 'seed has no effect')
    # only relative times matter
    t2 = t.tz_localize(None) + pd.Timedelta(seconds=c['dt'])
    t2 = t2.tz_localize(c['tz'])
    close(run(t2, *args[1:], scale=False, noneg=False), raw, 0, 1e-9,
          'field at other absolute times')
    # only relative positions matter (exact arithmetic)
    z = (t, x, y, 0.0, g['ang'], g['csi'], P)
    o = run(*z, scale=False, noneg=False)
    dx, dy = (k * g['size'] / 64 for k in c['sh'])
    close(run(t, x + dx, y + dy, *z[3:], scale=False, noneg=False), o, 0,
          1e-9, 'field of a shifted layout')
    # without motion all times of a site are the same
    close(o, np.broadcast_to(o[:1], o.shape), 0, 2e-3, 'still clouds')
    # still clouds: the direction does not matter
    close(run(t, x, y, 0.0, g['ang'] + 1.3, *z[5:], scale=False,
              noneg=False), o, 0, 2e-3, 'direction of still clouds')
    return ['trivial'] if raw.size < 4 or raw.std() < 1e-3 else \
        ['irregular' if g['irregular'] else 'regular']


def frozen_case():
    return rec(ks=st.lists(ints(-12, 12), min_size=2, max_size=5,
                           unique=True), nt=ints(3, 24), seed=seeds(),
               pseed=ints(0, 99), t=time_spec((1, 5, 10, 60, .5)),
               spd=fl(.5, 30), ang=fl(-7, 7), csi=fl(.05, .98), rs=seeds(),
               extra=ints(0, 2), scale=pick(True, False),
               noneg=pick(True, False), off=st.tuples(fl(-1e4, 1e4),
                                                      fl(-1e4, 1e4)),
               decoy=pick(None, 'sites', 'times', 'wind', 'seed'))


def frozen(c):
    r = np.random.default_rng(c['seed'])
    dt = c['t']['dt']
    k = np.array(c['ks'])
    d = k * dt * c['spd']
    x = np.r_[d * np.cos(c['ang']), r.uniform(-500, 500, c['extra'])]
    y = np.r_[d * np.sin(c['ang']), r.uniform(-500, 500, c['extra'])]
    p = r.permutation(len(x))
    t = make_time(c['t'], c['nt'])
    args = [t, x[p] + c['off'][0], y[p] + c['off'][1], c['spd'], c['ang'],
            c['csi'], perturb(c['pseed'])]
    kw = dict(seed=c['rs'], scale=c['scale'], noneg=c['noneg'])
    if c['decoy']:
        # a field of a similar setting was generated just before
        q = list(args)
        inner = slice(1, -1)
        if c['decoy'] == 'sites':
            for i in (1, 2):
                q[i] = q[i].copy()
                q[i][inner] = q[i][inner][::-1] + 7. * c['spd']
        elif c['decoy'] == 'times':
            m = np.arange(len(t))
            m[inner] = 0
            q[0] = t[np.sort(m)]
        elif c['decoy'] == 'wind':
            q[4] = q[4] + 1.5
        copula.downscale(*q, **dict(kw, seed=kw['seed'] + (
            c['decoy'] == 'seed')))
    out = arr(copula.downscale(*args, **kw), 'field')
    check(out.shape == (c['nt'], len(x)), f'shape {out.shape}')
    m = np.abs(out).max()
    if not np.isfinite(m) or m > 20 or m < 1e-6:
        return ['trivial']
    inv = np.argsort(p)
    Z = out[:, inv]
    shared = 0
    n = c['nt']
    for i in range(len(k)):
        for j in range(len(k)):
            s = k[j] - k[i]
            if 0 < s < n:
                shared += 1
                close(Z[s:, j], Z[:n - s, i], 0, 2e-3 * max(1, m),
                      f'site {s} steps downwind')
    tags = [f"extra{c['extra']}"]
    if not shared or Z.std() < 1e-3:
        tags.append('trivial')
    return tags


SUBS = [Sub('options', options_case, options, 400, 6000),
        Sub('frozen', frozen_case, frozen, 500, 8000),
        Sub('options at scale', lambda: large(options_case(), g=large(
            layout(), ns=ints(4, 30), nt=ints(12, 20))), options, 6, 80),
        Sub('frozen at scale', lambda: large(frozen_case(), nt=ints(60, 120),
            ks=lambda r: r.permutation(np.arange(-12, 13))[:5].tolist()),
            frozen, 6, 80)]
