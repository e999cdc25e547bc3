import warnings

import numpy as np
import pandas as pd
from hypothesis import strategies as st

from pbt.gen import (fl, ints, large, pick, rec, seeds)
from pbt.harness import Sub, check, close, raises, arr
from pbt import oracles as O
from solarspatialtools import signalproc as sp

RULE = ('non-trivial: the limits admit at least two bins and exclude at least '
        'one')
ASSUMPTIONS = ['phase steps between bins below 3.1 rad over the unwrapped '
               'range; the value for a column of the multi-column fit '
               'that has no admitted bin is not claimed']


def case():
    return rec(n=ints(4, 60), df=fl(1e-4, 0.02), f0=pick(0., 1.),
               ncol=ints(1, 4), seed=seeds(), jit=pick(0.0, 0.05, 0.5, 3.0),
               cohlim=st.one_of(st.none(), fl(0, 0.95), pick(0.6, 0.0)),
               fq=st.one_of(st.none(), fl(0.05, 1.1), pick(0.0)),
               zero=pick(False, True), two=pick(False, False, False, True),
               edge=pick(None, 'f', 'c'), nancol=ints(0, 6),
               method=pick('fit', 'multi', 'diff'), series=st.booleans(),
               frac=fl(-0.9, 0.9), uneven=pick(False, False, True),
               dflt=pick('', '', '', 'c', 'f', 'cf'))


def build(c):
    r = np.random.default_rng(c['seed'])
    n, ncol = c['n'], (1 if c['method'] != 'multi' or c['series']
                       else c['ncol'])
    f = (np.arange(n) + c['f0']) * c['df']
    if c['uneven']:
        f = f[0] + np.cumsum(np.append(0, r.uniform(.2, 1, n - 1))) * c['df']
    if c.get('two'):    # a two-sided transfer function in rising order
        f = f - f[n // 2]
    # delays below the unambiguous range of the bin spacing
    tau = np.atleast_1d(c['frac'] * r.uniform(0.2, 1, ncol) * 0.45 / c['df']
                        * r.choice([-1, 1], ncol))
    ph = -2 * np.pi * f[:, None] * tau + c['jit'] * r.uniform(
        -.5, .5, (n, ncol)) * .1
    tf = r.uniform(.2, 2, (n, ncol)) * np.exp(1j * ph)
    coh = np.round(r.uniform(0, 1, (n, ncol)), 3)
    if c.get('zero'):
        coh[r.random(coh.shape) < .3] = 0.
    return f, tau, tf, coh


def oracle(c):
    f, tau, tf, coh = build(c)
    n, ncol = tf.shape
    lc, lf = c['cohlim'], (None if c['fq'] is None else c['fq'] * f[-1])
    if c['edge'] == 'f' and lf is not None:
        lf = float(f[n // 2])       # exactly a bin: strictly below counts
    if c['edge'] == 'c' and lc is not None:
        lc = float(coh[n // 2, 0])  # exactly a coherence: strictly above
    m = c['method']
    kw = {'coh_limit': lc, 'freq_limit': lf, 'method': m}
    if 'c' in c['dflt']:    # the documented defaults
        lc = .6
        del kw['coh_limit']
    if 'f' in c['dflt']:
        lf = .02
        del kw['freq_limit']
    if c['dflt'] == 'cf' and m == 'fit':
        del kw['method']
    mask = np.ones((n, ncol), bool)
    if lc is not None:
        mask &= coh > lc
    fm = np.ones(n, bool) if lf is None else f < lf
    mask &= fm[:, None]
    nan = None
    if m == 'multi' and ncol > 1 and c['nancol'] < ncol:
        nan = c['nancol']
        tf = tf.copy()
        tf[:, nan] = np.nan
    cols = [f'c{i}' for i in range(ncol)]
    T = pd.DataFrame(tf, index=f, columns=cols)
    C = pd.DataFrame(coh, index=f, columns=cols)
    if c['series']:
        T, C = T.iloc[:, 0], C.iloc[:, 0]
    with warnings.catch_warnings(record=True) as rec_w:
        warnings.simplefilter('always')
        d, ix = sp.tf_delay(T, C, **kw)
    ix = arr(ix)
    check(ix.reshape(n, -1).shape == (n, ncol), f'mask shape {ix.shape}')
    check(np.array_equal(ix.reshape(n, ncol).astype(bool), mask),
          'the returned mask is not the set of admitted bins')
    d = np.atleast_1d(arr(d)).ravel()
    check(d.shape == (ncol,), f'{d.shape} delays for {ncol} columns')
    used = mask.sum(0)
    for k in range(ncol):
        if k == nan:
            check(np.isnan(d[k]), f'column without data gives {d[k]}')
            continue
        mk = mask[:, k]
        sc = np.abs(tau[k]) + 1 / (f[-1] * 2 * np.pi) * .1
        if not mk.any():
            if m == 'fit':
                check(np.isnan(d[k]), f'no admitted bins but delay {d[k]}')
            continue
        if m == 'multi':
            ph = O.unwrap(np.angle(tf[fm, k]))
            F, M = f[fm], mk[fm]
            if np.abs(np.sum(F[M])) < 1e-12 + .05 * np.sum(np.abs(F[M])):
                continue
            e = -np.sum(ph[M]) / (2 * np.pi * np.sum(F[M]))
            e2 = 1 / np.abs(np.sum(F[M])) * len(F)
        elif m == 'fit':
            ph = O.unwrap(np.angle(tf[mk, k]))
            F = f[mk]
            if np.sum(F * F) < 1e-12:
                continue
            # gaps in the admitted bins may make the phase ambiguous by
            # whole turns; borders of the unwrapping are excluded
            st_ = np.abs(np.diff(np.angle(tf[mk, k])))
            if np.any(np.abs(st_ - np.pi) < 1e-6):
                continue
            e = -np.sum(ph * F) / (2 * np.pi * np.sum(F * F))
            e2 = 1 / np.sqrt(np.sum(F * F))
        else:
            ph = O.unwrap(np.angle(tf[:, k]))
            g = -np.diff(ph) / np.diff(f) / (2 * np.pi)
            g = np.append(g, g[-1])
            e = np.sum(g[mk]) / mk.sum()
            e2 = 1 / np.diff(f).min()
        close(d[k], e, 1e-5, 1e-6 * e2, f'delay of column {k} ({m})')
        # bins outside the mask do not matter (keeping the phase unwrapping)
    t = [m]
    if used.max() < 2 or used.min() == n:
        t.append('trivial')
    return t


def pure_case():
    return rec(n=ints(6, 60), df=fl(1e-4, 0.02), ncol=ints(1, 4),
               seed=seeds(), lim=pick(None, 0.3, 0.6), fq=fl(0.3, 1.2),
               method=pick('fit', 'multi', 'diff'),
               wild=pick(False, True, 'nan'), uneven=st.booleans(),
               frac=fl(0.05, .9))


def pure(c):
    """A pure delay is recovered; masked bins may hold anything; each column
    of a joint fit equals the same column on its own."""
    r = np.random.default_rng(c['seed'])
    n, m = c['n'], c['method']
    ncol = c['ncol'] if m == 'multi' else 1
    f = np.arange(n) * c['df']
    if c['uneven']:
        f = np.cumsum(np.append(0, r.uniform(.2, 1, n - 1))) * c['df']
    tau = c['frac'] * r.uniform(-.48, .48, ncol) / c['df']
    tf = r.uniform(.2, 2, (n, ncol)) * np.exp(-2j * np.pi * f[:, None] * tau)
    coh = r.uniform(0, 1, (n, ncol))
    coh[1:4] = 0.9          # at least a few admitted, contiguous low bins
    lf = max(c['fq'] * f[-1], f[4])
    fm = f < lf
    if m == 'fit':
        # admitted bins are contiguous: unwrapping stays unambiguous
        coh[:] = 0.9
        coh[r.integers(4, n):] = 0.1
    if c['wild']:
        # everything at or above the frequency limit is noise
        if m == 'fit':
            out = ~(fm[:, None] & ((coh > c['lim']) if c['lim'] is not None
                                   else True))
        elif m == 'multi':
            out = np.repeat(~fm[:, None], ncol, 1)
        else:
            out = np.zeros_like(coh, bool)
        ph = r.uniform(-np.pi, np.pi, tf.shape)
        tf = np.where(out, np.nan if c['wild'] == 'nan'
                      else np.abs(tf) * np.exp(1j * ph), tf)
    cols = list(range(ncol))
    T = pd.DataFrame(tf, index=f, columns=cols)
    C = pd.DataFrame(coh, index=f, columns=cols)
    d, ix = sp.tf_delay(T, C, c['lim'], lf, m)
    d = np.atleast_1d(arr(d)).ravel()
    close(d, tau, 1e-5, 1e-6 / c['df'], f'pure delay by {m}')
    if m == 'multi':
        for k in range(ncol):
            one, ixk = sp.tf_delay(T.iloc[:, [k]], C.iloc[:, [k]], c['lim'],
                                   lf, m)
            close(np.atleast_1d(arr(one)).ravel()[0], d[k], 1e-5,
                  1e-6 / c['df'], 'column fitted alone')
            check(np.array_equal(arr(ixk).ravel(), arr(ix)[:, k]),
                  'mask of the column alone')
    return [m, 'noise outside' if c['wild'] else 'clean']


def bad_case():
    return rec(n=ints(3, 10), seed=seeds(), kind=pick('m', 'fit', 'diff',
                                                      'default'))


def bad(c):
    r = np.random.default_rng(c['seed'])
    f = np.arange(c['n']) * .01
    z = np.exp(1j * r.uniform(-1, 1, (c['n'], 2)))
    T, C = pd.DataFrame(z, index=f), pd.DataFrame(np.abs(z), index=f)
    if c['kind'] == 'm':
        raises(ValueError, lambda: sp.tf_delay(T, C, method='lsq'),
               'unknown method')
    elif c['kind'] == 'default':
        # documented defaults: coherence above 0.6, below 0.02 Hz, 'fit'
        C = pd.DataFrame(r.uniform(0.5, .7, (c['n'], 1)), index=f / 10)
        T = T.iloc[:, [0]].set_axis(f / 10)
        _, ix = sp.tf_delay(T, C)
        e = (C.values[:, 0] > .6) & (f / 10 < .02)
        check(np.array_equal(arr(ix).ravel(), e), 'mask under the defaults')
    else:
        raises(ValueError, lambda: sp.tf_delay(T, C, method=c['kind']),
               'several columns with a one-column method')


SUBS = [
    Sub('definition', case, oracle, 1600, 40000),
    Sub('pure delay', pure_case, pure, 1200, 30000),
    Sub('rejections', bad_case, bad, 120, 1000),
    Sub('definition at scale', lambda: large(case(), n=ints(200, 1200), ncol=ints(1, 24), df=fl(1e-5, 1e-3)),
        oracle, 40, 600),
    Sub('pure delay at scale', lambda: large(pure_case(), n=ints(200, 1200), ncol=ints(1, 24), df=fl(1e-5, 1e-3)),
        pure, 40, 600),
    Sub('hundreds of pairs', lambda: large(case(), n=ints(10, 60), ncol=ints(90, 300)),
        oracle, 16, 200),
]
