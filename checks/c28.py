import math

import numpy as np
import pandas as pd
import pvlib
from hypothesis import strategies as st

from pbt.gen import fl, ints, large, pick, rec, seeds, time_spec, make_time, series
from pbt.harness import Sub, check, close, raises, arr
from solarspatialtools.synthirrad import cloudfield

RULE = ('non-trivial: the series is not constant (statistics); at least two '
        'scales and a score between 1 and 179 (score weights)')
ASSUMPTIONS = ['series are complete; a constant series has no wavelet '
               'content to normalise, so its weights are not claimed',
               'wavelet modes are those of pvlib; for whole-second periods '
               'they are also recomputed independently as differences of '
               'centred moving averages',
               'a variability score of zero has no weights of the published '
               'form and is not claimed']


def case():
    return rec(n=ints(2, 220), seed=seeds(), t=time_spec((1, 1, 2, .5, 10)),
               kind=pick('cloud', 'steps', 'const', 'noise', 'walk', 'pulse'),
               thr=pick(None, .95, .9, 1., .5, 0), at=pick(True, False),
               name=pick(None, 'kt'))


def make(c):
    n = c['n']
    r = np.random.default_rng(c['seed'])
    if c['kind'] == 'const':
        x = np.full(n, .25 * int(r.integers(1, 5)))
    elif c['kind'] == 'pulse':
        x = np.full(n, .5)
        a = int(r.integers(0, n))
        x[a:a + int(r.integers(1, n + 1))] = 1.0625
    elif c['kind'] == 'cloud':
        x = series(n, c['seed'], 'cloud') / 800
    elif c['kind'] == 'steps':
        x = series(n, c['seed'], 'steps')
    else:
        x = .7 + .1 * series(n, c['seed'], c['kind'])
    thr = .95 if c['thr'] is None else c['thr']
    if c['at']:      # samples exactly at the threshold
        x[r.integers(0, n, max(1, n // 8))] = thr
    return x, thr


def modes(x, dt):
    """Wavelet modes as differences of centred moving averages of the
    symmetrically extended series."""
    n = len(x)
    m = 13 - int(math.ceil(math.log(dt) / math.log(2)))
    L = np.r_[x[::-1], x, x[::-1]]
    cs = np.r_[0., np.cumsum(L)]
    av = [L]
    for i in range(1, m):
        w = 2 ** i
        # pandas' centred window of even width w at k covers k-w/2 .. k+w/2-1
        k = np.arange(3 * n)
        lo = np.clip(k - w // 2, 0, 3 * n)
        hi = np.clip(k + w // 2, 0, 3 * n)
        a = (cs[hi] - cs[lo]) / (hi - lo)
        a = np.roll(a, -1)
        a[-1] = a[-2]
        av.append(a)
    return np.array([av[i] - av[i + 1] for i in range(m - 1)])[:, n:2 * n]


def stats(c):
    x, thr = make(c)
    n = len(x)
    dt = c['t']['dt']
    s = pd.Series(x.copy(), make_time(c['t'], n), name=c['name'])
    kw = {} if c['thr'] is None else {'clear_threshold': c['thr']}
    out = cloudfield.get_timeseries_stats(s, **kw)
    check(len(out) == 7, f'{len(out)} results')
    mean, p1, mx, frac, vs, w, scales = out
    check(np.array_equal(s.values, x), 'series was modified')
    close(mean, x.mean(), 1e-12, 1e-12, 'mean')
    close(p1, np.quantile(x, .01), 1e-12, 1e-12, 'first percentile')
    close(mx, x.max(), 0, 0, 'maximum')
    close(frac, (x > thr).sum() / n, 1e-12, 0, 'fraction above threshold')
    d = np.abs(np.diff(x))
    # probability of a larger ramp; equal ramps share their mean rank
    rank = np.array([(d < q).sum() + ((d == q).sum() + 1) / 2 for q in d])
    score = (d * (1 - rank / len(d))).max() * 1e4
    close(vs, score, 1e-9, 1e-9, 'variability score')
    W = arr(w, 'weights')
    exp, _ = pvlib.scaling._compute_wavelet(s)
    exp = exp[:-1]
    check(list(scales) == list(range(1, len(exp) + 1)),
          f'scales {scales}, expected 1..{len(exp)}')
    check(W.shape == (len(exp),), f'{W.shape} weights, {len(exp)} scales')
    e = (exp ** 2).mean(axis=1)
    if x.std() < 1e-9:
        return ['trivial', 'const']
    close(W, e / e.sum(), 1e-9, 1e-12, 'weights')
    check((W >= 0).all(), 'negative weight')
    close(W.sum(), 1., 1e-9, 0, 'sum of weights')
    if dt >= 1:
        q = (modes(x, dt) ** 2).mean(axis=1)
        close(W, q / q.sum(), 1e-6, 1e-9, 'weights (own wavelets)')
    # normalised: unaffected by scaling and shifting the series
    out2 = cloudfield.get_timeseries_stats(s * 2 + 1)
    close(out2[5], W, 1e-6, 1e-9, 'weights of a scaled and shifted series')
    close(out2[0], 2 * mean + 1, 1e-9, 1e-9, 'mean of the scaled series')
    return [c['kind'], f'dt{dt}']


def vs_case():
    return rec(n=ints(1, 12), vs=st.one_of(fl(.5, 179), fl(1, 40)),
               kind=pick('range', 'pow', 'float'), seed=seeds(),
               neg=fl(-200, -1e-6))


def vs(c):
    r = np.random.default_rng(c['seed'])
    n = c['n']
    s = {'range': np.arange(1., n + 1), 'pow': 2. ** np.arange(n),
         'float': np.sort(r.uniform(1, 30, n))}[c['kind']]
    if c['kind'] == 'range':
        s = np.arange(1, n + 1)
    s0 = s.copy()
    w = arr(cloudfield._calc_vs_weights(s, c['vs']), 'weights')
    check(np.array_equal(s, s0), 'scales were modified')
    raises(ValueError, lambda: cloudfield._calc_vs_weights(s, c['neg']),
           'negative variability score')
    v1 = -math.log(1 - c['vs'] / 180) / .6
    L = np.log(s.astype(float)) / v1
    e = np.exp(L - L.max())
    if L.max() > 600:        # overflow of the published form
        return ['trivial']
    close(w, e / e.sum(), 1e-8, 1e-300, 'weights of a score')
    close(w.sum(), 1., 1e-9, 0, 'sum')
    check((w >= 0).all() and (np.diff(w) >= -1e-15).all(),
          'weights do not grow with scale')
    return ['trivial'] if n < 2 else [c['kind']]


def wave_case():
    return rec(m=ints(1, 13), n=ints(1, 60), seed=seeds(),
               nan=pick(0, 0, 1, 5), sc=fl(-6, 6))


def wave(c):
    r = np.random.default_rng(c['seed'])
    w = r.standard_normal((c['m'], c['n'])) * 10 ** r.uniform(
        -2, 2, (c['m'], 1)) * 10 ** c['sc']
    for _ in range(c['nan']):
        if c['n'] > 8:
            w[r.integers(c['m']), r.integers(c['n'])] = np.nan
    w0 = w.copy()
    got = arr(cloudfield._calc_wavelet_weights(w), 'weights')
    check(np.array_equal(w, w0, equal_nan=True), 'wavelets were modified')
    e = np.array([np.mean(x[~np.isnan(x)] ** 2) for x in w])
    close(got, e / e.sum(), 1e-9, 0, 'mean-square weights')
    return ['trivial'] if c['m'] < 2 else []


SUBS = [Sub('statistics', case, stats, 250, 6000),
        Sub('statistics at scale', lambda: large(case(), n=ints(1000, 9000)),
            stats, 8, 100),
        Sub('score weights', vs_case, vs, 400, 10000),
        Sub('wavelet weights', wave_case, wave, 200, 5000)]
