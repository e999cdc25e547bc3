import numpy as np
import pandas as pd
from hypothesis import strategies as st

from pbt.gen import (LABELS, LABELS_DUP, labels, as_whole, fl, frame, ints, large, make_time, pick,
                     rec, seeds, time_spec, whole)
from pbt.harness import Sub, check, close, raises, arr
from pbt import oracles as O
from solarspatialtools import signalproc as sp

RULE = ('non-trivial: more than one segment is averaged (a single segment is '
        'counted as trivial)')
ASSUMPTIONS = ['reference: segment-by-segment Welch average written with '
               'numpy rfft; only the window shape is taken from scipy',
               'bins whose input power is below 1e-10 of its maximum are not '
               'compared in transfer functions and coherence']

WIN = pick('hamming', 'hann', 'boxcar', 'blackman', 'bartlett',
           ['kaiser', 6.], ['kaiser', 2.], ['tukey', .3])


def common():
    return dict(n=ints(40, 400), navgs=ints(1, 8),
                overlap=st.one_of(pick(0.5, 0.0, 0.25, 0.75),
                                  fl(0.0, 0.9)),
                window=WIN, t=time_spec(), seed=seeds(),
                kind=pick('noise', 'walk', 'steps'),
                defaults=st.booleans(), whole=whole())


def seg(c):
    nper = int(c['n'] // c['navgs'])
    return nper, int(nper * c['overlap'])


def kwargs(c, *extra):
    if c['defaults']:
        c = dict(c, overlap=.5, window='hamming', detrend='linear',
                 scaling='density')
        return c, {}
    kw = {k: c[k] for k in ('overlap', 'window', 'detrend') + extra}
    if isinstance(c['window'], list):
        c = dict(c, window=tuple(c['window']))
        kw['window'] = c['window']
    if kw['detrend'] in ('none', 'false'):
        kw['detrend'] = None if kw['detrend'] == 'none' else False
    return c, kw


def psd_case():
    return rec(**common(), lab=LABELS, ncol=ints(1, 4), series=pick(False, True, 'named'),
               detrend=pick('linear', 'constant', 'none', 'false'),
               scaling=pick('density', 'spectrum'))


def psd(c):
    c, kw = kwargs(c, 'scaling')
    nper, nov = seg(c)
    ix = make_time(c['t'], c['n'])
    df = frame(c['n'], c['ncol'], c['seed'], c['kind'], ix,
               labels(c.get('lab'), 'c', c['ncol']))
    df = as_whole(df, c['whole'])
    arg = df
    cols = list(df.columns)
    if c['series']:
        df = df.iloc[:, :1]
        arg = df.iloc[:, 0].copy()
        cols = [df.columns[0]]
        if c['series'] is True:
            arg.name = None
            cols = [0]
    r = sp.averaged_psd(arg, c['navgs'], **kw)
    check(isinstance(r, (pd.DataFrame, pd.Series)), f'result is {type(r)}')
    if isinstance(r, pd.Series):
        r = pd.DataFrame(r)
    else:
        check(list(r.columns) == cols, f'columns {list(r.columns)}, '
                                       f'expected {cols}')
    dt = c['t']['dt']
    det = None if c['detrend'] in ('none', 'false') else c['detrend']
    check(r.shape[1] == df.shape[1], f'{r.shape[1]} columns')
    for i in range(df.shape[1]):
        x = df.iloc[:, i].values.astype(float)
        f, p = O.welch(x, x, dt, nper, nov, c['window'], det, c['scaling'])
        close(r.index, f, 1e-9, 1e-12, 'frequency axis')
        p = p.real
        close(r.iloc[:, i].values, p, 1e-7, 1e-12 * p.max(), 'power spectrum')
    nseg = (c['n'] - nov) // (nper - nov)
    return [det, c['scaling']] + (['trivial'] if nseg < 2 else [])


def tf_case():
    return rec(**common(), lab=LABELS_DUP, nin=ints(1, 4), pair=pick('NxN', '1xN', 'Nx1'),
               series=pick('none', 'in', 'out', 'both'),
               detrend=pick('linear', 'constant', 'none', 'false'),
               mix=fl(0, 1))


def build(c, nin, nout, ix):
    X = frame(c['n'], nin, c['seed'], c['kind'], ix,
              labels(c.get('lab'), 'in', nin))
    Y = frame(c['n'], nout, c['seed'] + 7777, 'noise', ix,
              labels(c.get('lab'), 'out', nout))
    # outputs partly depend on the inputs (delayed), so coherence varies
    for j in range(nout):
        x = X.iloc[:, min(j, nin - 1)].values
        Y.iloc[:, j] = (c['mix'] * np.roll(x, 1 + j)
                        + (1 - c['mix']) * Y.iloc[:, j].values
                        + 0.05 * Y.iloc[::-1, j].values)
    return X, Y


def tf(c):
    c, kw = kwargs(c)
    nper, nov = seg(c)
    ix = make_time(c['t'], c['n'])
    n = c['nin']
    nin, nout = {'NxN': (n, n), '1xN': (1, n), 'Nx1': (n, 1)}[c['pair']]
    if c['series'] in ('in', 'both'):
        nin = 1
    if c['series'] in ('out', 'both'):
        nout = 1
    X, Y = build(c, nin, nout, ix)
    X, Y = as_whole(X, c['whole']), as_whole(Y, c['whole'])
    ax = X.iloc[:, 0] if c['series'] in ('in', 'both') else X
    ay = Y.iloc[:, 0] if c['series'] in ('out', 'both') else Y
    T, C = sp.averaged_tf(ax, ay, c['navgs'], **kw)
    npair = max(nin, nout)
    pairs = [(i if nin > 1 else 0, i if nout > 1 else 0)
             for i in range(npair)]
    cols = [f'{X.columns[i]}_{Y.columns[j]}' for i, j in pairs]
    check(list(T.columns) == cols, f'columns {list(T.columns)} vs {cols}')
    check(list(C.columns) == cols, f'coherence columns {list(C.columns)}')
    dt = c['t']['dt']
    det = None if c['detrend'] in ('none', 'false') else c['detrend']
    for k, (i, j) in enumerate(pairs):
        x = X.iloc[:, i].values.astype(float)
        y = Y.iloc[:, j].values.astype(float)
        a = (dt, nper, nov, c['window'], det, 'density')
        f, pxx = O.welch(x, x, *a)
        _, pyy = O.welch(y, y, *a)
        _, pxy = O.welch(x, y, *a)
        pxx, pyy = pxx.real, pyy.real
        close(T.index, f, 1e-9, 1e-12, 'frequency axis')
        close(C.index, f, 1e-9, 1e-12, 'frequency axis of the coherence')
        ok = (pxx > 1e-10 * pxx.max()) & (pyy > 1e-10 * pyy.max())
        e = pxy[ok] / pxx[ok]
        got = T.iloc[:, k].values[ok]
        close(got.real, e.real, 1e-5, 1e-6 * np.abs(e), 'real part of the tf')
        close(got.imag, e.imag, 1e-5, 1e-6 * np.abs(e), 'imaginary part of '
                                                        'the tf')
        coh = C.iloc[:, k].values[ok]
        close(coh, np.abs(pxy[ok]) ** 2 / (pxx[ok] * pyy[ok]), 1e-5, 1e-7,
              'coherence')
        check(np.all((coh >= 0) & (coh <= 1 + 1e-6)), 'coherence outside '
                                                      '[0, 1]')
    nseg = (c['n'] - nov) // (nper - nov)
    return [c['pair'], str(det)] + (['trivial'] if nseg < 2 else [])


def bad_case():
    return rec(n=ints(40, 80), seed=seeds(), a=ints(2, 5), b=ints(2, 5),
               t=time_spec())


def bad(c):
    b = c['b'] if c['b'] != c['a'] else c['a'] + 1
    ix = make_time(c['t'], c['n'])
    X, Y = (frame(c['n'], k, c['seed'], 'noise', ix) for k in (c['a'], b))
    raises(ValueError, lambda: sp.averaged_tf(X, Y, 2),
           f'averaged_tf with {c["a"]} and {b} columns')


SUBS = [
    Sub('power spectrum', psd_case, psd, 1000, 25000),
    Sub('transfer function', tf_case, tf, 1000, 25000),
    Sub('incompatible columns', bad_case, bad, 80, 500),
    Sub('power spectrum at scale', lambda: large(psd_case(), n=ints(1000, 9000), navgs=ints(1, 60), ncol=ints(1, 20)),
        psd, 40, 600),
    Sub('transfer function at scale', lambda: large(tf_case(), n=ints(1000, 9000), navgs=ints(1, 60), nin=ints(1, 20)),
        tf, 40, 600),
    Sub('hundreds of spectra', lambda: large(psd_case(), n=ints(60, 120), ncol=ints(90, 300)),
        psd, 8, 100),
    Sub('hundreds of transfer functions', lambda: large(tf_case(), n=ints(60, 120), nin=ints(90, 300)),
        tf, 8, 100),
    Sub('spectra of a day', lambda: large(psd_case(), n=ints(66000, 87000), navgs=ints(1, 60), ncol=ints(1, 4), t=time_spec((1, .5, 2, 10))),
        psd, 4, 60),
    Sub('transfer functions of a day', lambda: large(tf_case(), n=ints(66000, 87000), navgs=ints(1, 60), nin=ints(1, 4), t=time_spec((1, .5, 2, 10))),
        tf, 4, 60)]
