import warnings

import numpy as np
import pandas as pd
from hypothesis import strategies as st

from pbt.gen import (LABELS_DUP, labels, fl, frame, ints, large, make_time, pick, rec, seeds,
                     time_spec, whole)
from pbt.harness import Sub, check, close, raises, arr
from pbt import oracles as O
from solarspatialtools import signalproc as sp, field

RULE = 'non-trivial: at least two admitted bins in every pair'
ASSUMPTIONS = ['signals have a positive mean larger than their fluctuation, '
               'as irradiance has, so the zero-frequency phase is zero']


def signals(c, nin, nout):
    n = c['n']
    r = np.random.default_rng(c['seed'])
    m = 4
    base = np.convolve(r.standard_normal(n + 80), np.hanning(m + 2)[1:-1],
                       'same')
    X = np.empty((n, nin))
    Y = np.empty((n, nout))
    for i in range(nin):
        b = base if nout > 1 and nin == 1 else np.convolve(
            r.standard_normal(n + 80), np.hanning(m + 2)[1:-1], 'same')
        X[:, i] = b[40:40 + n]
        if nin > 1 and nout == 1:
            X[:, i] = base[40 + i:40 + i + n]
    for j in range(nout):
        src = X[:, min(j, nin - 1)]
        s = int(r.integers(-3, 4))
        Y[:, j] = np.roll(src, s) + c['noise'] * r.standard_normal(n)
    return X / 4 / np.abs(X).max() + 1, Y / 4 / np.abs(Y).max() + 1


def common():
    return dict(n=ints(60, 300), seed=seeds(), noise=fl(0.01, 1.0),
                t=time_spec(), navgs=ints(2, 6),
                cohlim=st.one_of(fl(0, .9), pick(.6)), fq=fl(.1, 1.1),
                overlap=st.one_of(pick(.5, 0., .25), fl(0, .8)),
                window=pick('hamming', 'hann', 'boxcar'))


DEFAULTS = {'navgs': 5, 'cohlim': .6, 'flim': .02, 'overlap': .5,
            'window': 'hamming'}


def case():
    return rec(**common(), lab=LABELS_DUP, ncol=ints(1, 4), pair=pick('NxN', '1xN', 'Nx1'),
               series=pick('none', 'none', 'in', 'out', 'both'),
               method=pick('fit', 'multi', None), xc=st.booleans(),
               dead=pick(None, None, 'in', 'out'), whole=whole(),
               nolim=pick('', '', '', 'c', 'f', 'cf'), far=pick(*[False] * 7, True),
               dflt=st.lists(pick(*DEFAULTS), max_size=3, unique=True))


def oracle(c):
    n = c['ncol']
    nin, nout = {'NxN': (n, n), '1xN': (1, n), 'Nx1': (n, 1)}[c['pair']]
    if c['series'] in ('in', 'both'):
        nin = 1
    if c['series'] in ('out', 'both'):
        nout = 1
    X, Y = signals(c, nin, nout)
    if c.get('far'):    # opposite sign: delays up to 1.5 times the record
        c = {**c, 'navgs': 1, 'dflt': [], 'nolim': '', 'xc': True,
             'fq': 3 / c['n'], 't': {**c['t'], 'dt': min(c['t']['dt'], 60)}}
        Y = -Y
    if c['whole']:
        X, Y = np.rint(1000 * X), np.rint(1000 * Y)
    dead = None
    if c['dead'] == 'in' and nin > 1:
        X[:, 0] = 0.0
        dead = 0
    if c['dead'] == 'out' and nout > 1:
        Y[:, -1] = np.nan
        dead = nout - 1
    ix = make_time(c['t'], c['n'])
    A = pd.DataFrame(X, ix, labels(c.get('lab'), 'i', nin))
    B = pd.DataFrame(Y, ix, labels(c.get('lab'), 'o', nout))
    if c['whole']:
        A = A.astype('int64')
        B = B if dead is not None else B.astype('int64')
    a = A.iloc[:, 0] if c['series'] in ('in', 'both') else A
    b = B.iloc[:, 0] if c['series'] in ('out', 'both') else B
    dt = c['t']['dt']
    c = {**c, 'flim': c['fq'] * 0.5 / dt,
         **{k: DEFAULTS[k] for k in c['dflt']}}
    nolim = c.get('nolim', '')      # None: include all points
    if 'c' in nolim and 'cohlim' not in c['dflt']:
        c['cohlim'] = None
    if 'f' in nolim and 'flim' not in c['dflt']:
        c['flim'] = None
    lf = c['flim']
    kw = dict(navgs=c['navgs'], coh_limit=c['cohlim'], freq_limit=lf,
              overlap=c['overlap'], window=c['window'],
              compute_xcorr=c['xc'])
    for k in c['dflt']:
        del kw[{'cohlim': 'coh_limit', 'flim': 'freq_limit'}.get(k, k)]
    if not c['xc']:
        del kw['compute_xcorr']
    if c['method']:
        kw['method'] = c['method']
    method = c['method'] or 'multi'
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        d, e = sp.compute_delays_tf(a, b, **kw)
    npair = max(nin, nout)
    d = arr(d)
    check(d.shape == (npair,), f'{d.shape} delays for {npair} pairs')
    ix_ = arr(e['ix']).astype(bool)
    few = False
    for k in range(npair):
        i, j = (k if nin > 1 else 0), (k if nout > 1 else 0)
        if k == dead:
            if c['dead'] == 'out' or method == 'fit':
                pass
            continue
        # (settings, pairing) of this pair on its own; no detrending
        tf, coh = sp.averaged_tf(A.iloc[:, [i]], B.iloc[:, [j]], c['navgs'],
                                 overlap=c['overlap'], window=c['window'],
                                 detrend=None)
        f, z = np.asarray(tf.index), tf.values[:, 0]
        g = coh.values[:, 0]
        fm = np.ones(len(f), bool) if lf is None else f < lf
        m = fm
        if c['cohlim'] is not None:
            amb = np.abs(g - c['cohlim']) < 1e-9
            m = fm & (g > c['cohlim'])
            if np.any(amb & fm):
                return ['trivial']
        check(ix_.shape == (len(f), npair), f'mask shape {ix_.shape}')
        check(np.array_equal(ix_[:, k], m), f'mask of pair {k}')
        mc = np.nansum(g[fm]) / fm.sum()
        close(arr(e['mean_coh'])[k], mc, 1e-7, 1e-9, 'mean coherence')
        few |= m.sum() < 2
        if m.sum() == 0 or f[m].sum() < 1e-12:
            if m.sum() == 0 and method == 'fit':
                check(np.isnan(d[k]), f'no admitted bin but delay {d[k]}')
            continue
        sel = m if method == 'fit' else fm
        steps = np.abs(np.diff(np.angle(z[sel])))
        if np.any(np.abs(steps - np.pi) < 1e-5):
            continue
        ph = O.unwrap(np.angle(z[sel]))
        if method == 'fit':
            F = f[sel]
            exp = -np.sum(ph * F) / (2 * np.pi * np.sum(F * F))
        else:
            M = m[sel]
            exp = -np.sum(ph[M]) / (2 * np.pi * np.sum(f[sel][M]))
        close(d[k], exp, 1e-5, 1e-5 * dt, f'delay of pair {k} ({method})')
        if c['xc']:
            x, y = X[:, i], Y[:, j]
            num, L = O.xcorr(x - x.mean(), y - y.mean())
            r = num / (len(x) * x.std() * y.std())
            close(arr(e['mean_corr'])[k], r.mean(), 1e-7, 1e-10, 'mean_corr')
            close(arr(e['zero_corr'])[k], r[len(x) - 1], 1e-7, 1e-10,
                  'zero_corr')
            lag = -d[k] / dt
            if L[0] < lag < L[-1]:
                close(arr(e['peak_corr'])[k], np.interp(lag, L, r), 1e-6,
                      1e-9, 'peak_corr (correlation at the tf delay)')
            elif not L[0] - 1e-6 < lag < L[-1] + 1e-6:
                check(np.isnan(arr(e['peak_corr'])[k]), f'peak_corr '
                      f'{arr(e["peak_corr"])[k]} at the lag {lag} of records '
                      f'of {len(x)} samples')
    return [method, c['pair'], 'xcorr' if c['xc'] else 'plain'] + (
        ['trivial'] if few else [])


def batch_case():
    return rec(**common(), ncol=ints(2, 5), method=pick('fit', 'multi'),
               perm=seeds(), xc=st.booleans(), one=st.booleans(),
               wlab=st.booleans(), wopt=pick('', '', 'freq'))


def batch(c):
    nin = 1 if c['one'] else c['ncol']
    X, Y = signals(c, nin, c['ncol'])
    ix = make_time(c['t'], c['n'])
    A, B = pd.DataFrame(X, ix), pd.DataFrame(Y, ix)
    dt = c['t']['dt']
    kw = dict(navgs=c['navgs'], coh_limit=c['cohlim'], method=c['method'],
              freq_limit=c['fq'] * .5 / dt, overlap=c['overlap'],
              window=c['window'], compute_xcorr=c['xc'])
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        d, e = sp.compute_delays_tf(A, B, **kw)
        p = np.random.default_rng(c['perm']).permutation(c['ncol'])
        Ap = A if c['one'] else A.iloc[:, p]
        dp, ep = sp.compute_delays_tf(Ap, B.iloc[:, p], **kw)
        keys = ['mean_coh'] + (['peak_corr', 'mean_corr', 'zero_corr']
                               if c['xc'] else [])
        close(dp, arr(d)[p], 1e-5, 1e-5 * dt, 'delays after reordering pairs')
        for k in keys:
            close(ep[k], arr(e[k])[p], 1e-5, 1e-7, f'{k} after reordering')
        check(np.array_equal(arr(ep['ix']), arr(e['ix'])[:, p]),
              'mask after reordering')
        for k in range(c['ncol']):
            a1 = A.iloc[:, 0 if c['one'] else k]
            d1, e1 = sp.compute_delays_tf(a1, B.iloc[:, k], **kw)
            close(arr(d1).ravel(), arr(d)[k:k+1], 1e-5, 1e-5 * dt,
                  'delay of the pair alone')
            for q in keys:
                close(arr(e1[q]).ravel(), arr(e[q])[k:k+1], 1e-5, 1e-7,
                      f'{q} of the pair alone')
    # the deprecated wrapper: delays of one reference to all others
    D = B.copy()
    D.columns = [i if c.get('wlab') else f's{i}' for i in range(D.shape[1])]
    lf = c['fq'] * .5 / dt
    s0, s1 = D.columns[:2]
    if c.get('wopt') == 'freq':
        lf = None
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        w, wc = field.compute_delays(D, s1, navgs=c['navgs'],
                                     coh_limit=c['cohlim'], freq_limit=lf,
                                     method=c['method'])
        n_, ne = sp.compute_delays_tf(D[s1], D, navgs=c['navgs'],
                                      coh_limit=c['cohlim'], freq_limit=lf,
                                      method=c['method'])
        close(w, arr(n_), 1e-9, 1e-9 * dt, 'delays of the deprecated wrapper')
        close(wc, arr(ne['mean_coh']), 1e-9, 1e-12, 'coherence of the '
              'deprecated wrapper')
        # documented defaults: 5 averages, 0.6, 0.02 Hz, joint fit
        a1 = field.compute_delays(D, s0)
        a2, e2 = sp.compute_delays_tf(D[s0], D)
        a3, e3 = sp.compute_delays_tf(D[s0], D, navgs=5, coh_limit=.6,
                                      freq_limit=.02, method='multi',
                                      overlap=.5, window='hamming')
    close(a1[0], arr(a3), 1e-9, 1e-9 * dt, 'wrapper defaults')
    close(a1[1], arr(e3['mean_coh']), 1e-9, 1e-12, 'wrapper defaults')
    close(a2, arr(a3), 1e-9, 1e-9 * dt, 'defaults')
    check(not any(k in e2 for k in ('peak_corr', 'zero_corr')),
          'cross-correlation extras without request')
    return [c['method']]


def sub_case():
    return rec(n=ints(300, 900), seed=seeds(), t=time_spec((1, .5, 2)),
               ncol=ints(1, 3), shift=fl(-3, 3), method=pick('fit', 'multi'),
               navgs=ints(2, 4))


def subsample(c):
    """Sub-sample shifts of a band-limited periodic signal."""
    n, dt = c['n'], c['t']['dt']
    r = np.random.default_rng(c['seed'])
    f = np.fft.rfftfreq(n, dt)
    spec = (r.standard_normal(len(f)) + 1j * r.standard_normal(len(f)))
    spec[f > .25 / dt] = 0
    spec[0] = 0
    x = np.fft.irfft(spec, n)
    sc = 4 * np.abs(x).max()
    sh = c['shift'] * r.uniform(.3, 1, c['ncol']) * dt
    Y = np.column_stack([np.fft.irfft(spec * np.exp(-2j * np.pi * f * s), n)
                         for s in sh])
    ix = make_time(c['t'], n)
    A = pd.DataFrame({'r': x / sc + 1}, ix)
    B = pd.DataFrame(Y / sc + 1, ix)
    d, e = sp.compute_delays_tf(A, B, navgs=c['navgs'], coh_limit=.5,
                                freq_limit=.2 / dt, method=c['method'],
                                window='hann')
    close(arr(d), sh, 0, .25 * dt, 'recovered sub-sample shift')
    return ['trivial'] if np.all(np.abs(sh) < .05 * dt) else [c['method']]


def bad_case():
    return rec(n=ints(40, 80), seed=seeds(), a=ints(2, 4), b=ints(2, 4),
               t=time_spec(), m=pick('shape', 'diff', 'x'))


def bad(c):
    ix = make_time(c['t'], c['n'])
    b = c['a'] + 1 if c['a'] == c['b'] else c['b']
    A = frame(c['n'], c['a'], c['seed'], 'noise', ix)
    B = frame(c['n'], b, c['seed'], 'noise', ix)
    if c['m'] == 'shape':
        raises(ValueError, lambda: sp.compute_delays_tf(A, B),
               'incompatible column counts')
    else:
        raises(ValueError, lambda: sp.compute_delays_tf(A, A, method=c['m']),
               'unknown method')


SUBS = [
    Sub('definition', case, oracle, 800, 20000),
    Sub('batching', batch_case, batch, 400, 8000),
    Sub('sub-sample shift', sub_case, subsample, 400, 8000),
    Sub('rejections', bad_case, bad, 80, 500),
    Sub('definition at scale', lambda: large(case(), n=ints(600, 3000), ncol=ints(5, 16), navgs=ints(3, 40)),
        oracle, 24, 400),
    Sub('batching at scale', lambda: large(batch_case(), n=ints(600, 3000), ncol=ints(5, 24), navgs=ints(3, 40)),
        batch, 16, 300),
    Sub('hundreds of pairs', lambda: large(batch_case(), n=ints(60, 120), ncol=ints(90, 300)),
        batch, 8, 100),
    Sub('definition for a day', lambda: large(case(), n=ints(66000, 87000), navgs=ints(3, 60), ncol=ints(1, 3), t=time_spec((1, .5, 2, 10))),
        oracle, 4, 60)]
