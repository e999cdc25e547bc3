import math

import numpy as np
import pandas as pd
from hypothesis import strategies as st

from pbt.gen import (LABELS, labels, INT, as_type, fl, frame, ints, large, make_time, pick,
                     rec, seeds, series, time_spec)
from pbt.harness import Sub, check, close, raises, same_index, arr
from pbt import oracles as O
from solarspatialtools import signalproc as sp

RULE = 'non-trivial: the filter is not a constant real gain'
ASSUMPTIONS = ['filter phase steps between bins below 3.1 rad; single '
               'precision (1e-6) for the Marcos filter']


def case():
    return rec(n=ints(4, 150), seed=seeds(), kind=pick('noise', 'walk',
                                                       'cloud'),
               t=time_spec(), lab=LABELS, ncol=ints(1, 3), sig=pick('series', 'frame'),
               filt=pick('series', 'frame'), nf=ints(4, 60), big=fl(0, 3.),
               order=pick('sorted', 'fft', 'shuffled'), wide=fl(1.0, 3.0),
               g=fl(-3, 3), whole=INT, flat=pick(None, None, None, 'value', 'zero'))


def make_filter(c):
    """A filter on its own frequency grid, wider than the signal band."""
    r = np.random.default_rng(c['seed'] + 99)
    fmax = .5 / c['t']['dt'] * c['wide'] * 1.0000001
    m = c['nf']
    f = np.sort(np.concatenate([[-fmax, fmax],
                                r.uniform(-fmax, fmax, m)]))
    f = f[np.concatenate([[True], np.diff(f) > 1e-9 * fmax])]
    n = len(f)
    mag = r.uniform(.1, 2, n)
    ph = r.uniform(-3, 3) + np.concatenate(
        [[0], np.cumsum(r.uniform(-c['big'], c['big'], n - 1))])
    p = {'sorted': np.arange(n), 'fft': np.fft.ifftshift(np.arange(n)),
         'shuffled': r.permutation(n)}[c['order']]
    H = pd.Series((mag * np.exp(1j * ph))[p], index=f[p])
    return f, mag, ph, H


def sig(c):
    x = sig_(c)
    if c.get('flat'):       # a constant column
        v = 0 if c['flat'] == 'zero' else 1 + c['seed'] % 99
        if c['sig'] == 'series':
            x[:] = v
        else:
            x.iloc[:, c['seed'] % x.shape[1]] = v
    return x


def sig_(c):
    ix = make_time(c['t'], c['n'])
    if c['sig'] == 'series':
        return as_type(pd.Series(series(c['n'], c['seed'], c['kind']), ix),
                       c['whole'])
    return as_type(frame(c['n'], c['ncol'], c['seed'], c['kind'], ix,
                         labels(c.get('lab'), 's', c['ncol'])), c['whole'])


def run(x, H, form):
    r = sp.apply_filter(x, H.to_frame('H') if form == 'frame' else H)
    check(type(r) is type(x), f'filtered {type(x).__name__} is '
                              f'{type(r).__name__}')
    check(len(r) == len(x) and r.index.equals(x.index),
          'filtered signal is not on the index of the input')
    if isinstance(x, pd.DataFrame):
        check(list(r.columns) == list(x.columns), 'columns changed')
    v = np.asarray(r.values)
    check(not np.iscomplexobj(v), 'filtered signal is complex')
    return v


def definition(c):
    x = sig(c)
    f, mag, ph, H = make_filter(c)
    got = run(x, H, c['filt']).reshape(c['n'], -1)
    X = np.asarray(x.values, float).reshape(c['n'], -1)
    n, dt = c['n'], c['t']['dt']
    q = np.fft.fftfreq(n, dt)
    h = np.interp(q, f, mag) * np.exp(1j * np.interp(q, f, ph))
    for k in range(X.shape[1]):
        e = np.fft.ifft(np.fft.fft(X[:, k]) * h).real
        close(got[:, k], e, 0, 1e-8 * np.abs(X[:, k]).max() * n ** .5 + 1e-12,
              f'filtered column {k}')
    # linearity
    Y = np.roll(X, 1, 0) * c['g'] + 2 * X
    y = (pd.Series(Y[:, 0], x.index) if c['sig'] == 'series'
         else pd.DataFrame(Y, x.index, x.columns))
    z = (pd.Series(np.roll(X, 1, 0)[:, 0], x.index) if c['sig'] == 'series'
         else pd.DataFrame(np.roll(X, 1, 0), x.index, x.columns))
    lin = c['g'] * run(z, H, c['filt']).reshape(n, -1) + 2 * got
    close(run(y, H, c['filt']).reshape(n, -1), lin, 0,
          1e-8 * np.abs(X).max() * n ** .5 * 10 + 1e-12, 'linearity')
    return [c['sig'], c['order']]


def special_case():
    return rec(n=ints(4, 150), seed=seeds(), kind=pick('noise', 'walk',
                                                       'cloud'),
               t=time_spec(), ncol=ints(1, 3), sig=pick('series', 'frame'),
               filt=pick('series', 'frame'), what=pick('unity', 'gain',
                                                       'delay', 'short'),
               flat=pick(None, None, None, 'value', 'zero'),
               g=fl(.01, 20), s=fl(-.49, .49), cut=fl(.1, .95),
               side=pick('both', 'high', 'low'), whole=INT)


def special(c):
    x = sig(c)
    n, dt = c['n'], c['t']['dt']
    X = np.asarray(x.values, float).reshape(n, -1)
    tol = 1e-9 * np.abs(X).max() * n ** .5 + 1e-12
    f = np.fft.fftfreq(n, dt)
    if c['what'] == 'short':
        g = np.linspace(-1, 1, 41) * .5 / dt * 1.01
        q = np.fft.fftfreq(n, dt)
        hi, lo = q.max(), q.min()
        if c['side'] in ('both', 'high'):
            g = g[g < c['cut'] * hi]
        if c['side'] in ('both', 'low'):
            g = g[g > c['cut'] * lo]
        if len(g) < 2:
            return ['trivial']
        raises(ValueError, lambda: sp.apply_filter(
            x, pd.Series(np.ones(len(g), complex), g)),
            f'filter not covering the band ({c["side"]})')
        return ['not covering']
    # dense enough that the fft grid itself is part of the filter
    if c['what'] == 'unity':
        H, e = np.ones(n, complex), X
    elif c['what'] == 'gain':
        H, e = np.full(n, c['g'], complex), c['g'] * X
        tol *= c['g'] + 1
    else:
        s = int(round(c['s'] * n))
        if abs(s) * 2 >= n:
            s = 0
        H, e = np.exp(-2j * np.pi * f * s * dt), np.roll(X, s, axis=0)
    H = pd.Series(H, f)
    if n % 2 == 0:
        # fft grids have no positive Nyquist bin; the signal needs none
        pass
    got = run(x, H, c['filt']).reshape(n, -1)
    close(got, e, 0, tol * 10, f'{c["what"]} filter')
    return [c['what']] + (['trivial'] if c['what'] == 'unity' else [])


def marcos_case():
    return rec(s=st.one_of(fl(.01, 1000), ints(1, 100)),
               f=st.lists(fl(-5, 5), min_size=1, max_size=12),
               default=st.booleans(), form=pick('array', 'list?'))


def marcos(c):
    kw = {} if c['default'] else {'freq': np.array(c['f'])}
    H = sp.get_marcosfilter(c['s'], **kw)
    f = np.linspace(0, .5, 100) if c['default'] else np.array(c['f'])
    check(isinstance(H, pd.Series), f'filter is {type(H)}')
    close(arr(H.index), f, 1e-12, 0, 'frequencies')
    fc = .02 / math.sqrt(c['s'])
    e = 1 / (1 + 1j * f / fc)
    close(np.abs(H.values - e), 0 * f, 0, 3e-6, 'Marcos filter')
    close(np.abs(H.values), 1 / np.sqrt(1 + (f / fc) ** 2), 1e-5, 0,
          'magnitude of the Marcos filter')


SUBS = [
    Sub('definition', case, definition, 1000, 25000),
    Sub('special filters', special_case, special, 1000, 25000),
    Sub('Marcos', marcos_case, marcos, 400, 8000),
    Sub('definition at scale', lambda: large(case(), n=ints(1000, 6000), ncol=ints(1, 12), nf=ints(100, 2000)),
        definition, 24, 400),
    Sub('special filters at scale', lambda: large(special_case(), n=ints(1000, 6000), ncol=ints(1, 12)),
        special, 24, 400),
    Sub('hundreds of signals', lambda: large(case(), n=ints(10, 60), ncol=ints(90, 300)),
        definition, 8, 100),
    Sub('definition for a day', lambda: large(case(), n=ints(66000, 87000), nf=ints(100, 2000), ncol=ints(1, 3), t=time_spec((1, .5, 2, 10))),
        definition, 6, 60)]
