import numpy as np
import pandas as pd
from hypothesis import strategies as st

from pbt.gen import (column, fl, ints, large, pick, rec, seeds)
from pbt.harness import Sub, check, close, raises, same_index, arr
from solarspatialtools import signalproc as sp

RULE = ('non-trivial: the phase of the generated transfer function wraps or '
        'its magnitude varies between bins')
ASSUMPTIONS = ['transfer functions have non-zero magnitude, phase steps '
               'between adjacent bins stay below 3.1 rad (no aliasing)']


def tf_spec():
    return rec(df=st.lists(fl(1e-3, 0.1), min_size=1, max_size=14),
               f0=st.one_of(pick(0.0), fl(-0.5, 0.5)),
               seed=seeds(), ncol=ints(1, 3), big=fl(0.1, 3.1),
               order=pick('sorted', 'fft', 'shuffled'),
               perm=seeds())


def make(s):
    """Returns frequency, magnitude and continuous phase, sorted."""
    r = np.random.default_rng(s['seed'])
    f = s['f0'] + np.concatenate([[0], np.cumsum(s['df'])])
    n = len(f)
    mag = r.uniform(0.1, 5, (n, s['ncol']))
    ph = r.uniform(-3, 3, s['ncol']) + np.concatenate(
        [np.zeros((1, s['ncol'])),
         np.cumsum(r.uniform(-s['big'], s['big'], (n - 1, s['ncol'])), 0)])
    if s['order'] == 'sorted':
        p = np.arange(n)
    elif s['order'] == 'fft':
        p = np.fft.ifftshift(np.arange(n))
    else:
        p = np.random.default_rng(s['perm']).permutation(n)
    return f, mag, ph, p


def case():
    return rec(tf=tf_spec(), series=st.booleans(),
               q=st.lists(fl(0, 1), min_size=1, max_size=12),
               asindex=pick(True, False, 'strided'), grid=pick('free', 'free', 'ends',
                                                'perm', 'near'))


def interp(c):
    f, mag, ph, p = make(c['tf'])
    z = mag * np.exp(1j * ph)
    cols = [f'k{i}' for i in range(z.shape[1])]
    T = pd.DataFrame(z[p], index=f[p], columns=cols)
    if c['series']:
        T = T.iloc[:, 0]
        mag, ph, z = mag[:, :1], ph[:, :1], z[:, :1]
    new = f[0] + np.array(c['q']) * (f[-1] - f[0])
    new = np.clip(new, f[0], f[-1])
    g = c.get('grid', 'free')
    rg = np.random.default_rng(c['tf']['perm'] + 1)
    if g == 'ends':     # as many frequencies with the same first and last
        new = f[p].copy()
        new[1:-1] = rg.uniform(f[0], f[-1], max(len(f) - 2, 0))
    elif g == 'perm':   # the frequencies of the tf in another order
        new = f[rg.permutation(len(f))]
    elif g == 'near':   # only one of the frequencies differs
        new = f[p].copy()
        new[rg.integers(len(f))] = rg.uniform(f[0], f[-1])
    how = c['asindex']
    q = np.repeat(new, 2)[::2] if \
        how == 'strided' else pd.Index(new) if how else new
    r = sp.interp_tf(q, T)
    check(type(r) is type(T), f'result is {type(r)}, input {type(T)}')
    same_index(r.index, new, 'index of interpolated tf')
    if not c['series']:
        check(list(r.columns) == cols, f'columns {list(r.columns)}')
    v = arr(r, dtype=complex).reshape(len(new), -1)
    for k in range(mag.shape[1]):
        e = np.interp(new, f, mag[:, k]) * np.exp(
            1j * np.interp(new, f, ph[:, k]))
        close(v[:, k].real, e.real, 0, 1e-9, 'interpolated real part')
        close(v[:, k].imag, e.imag, 0, 1e-9, 'interpolated imaginary part')
    # original frequencies, in the original (arbitrary) order
    b = sp.interp_tf(T.index, T)
    d = arr(b, dtype=complex).reshape(len(f), -1) - z[p]
    close(np.abs(d), 0 * mag, 0, 1e-9, 'tf at its own frequencies')
    # no extrapolation
    for bad in (f[0] - 1e-3, f[-1] + 1e-3):
        raises(ValueError, lambda: sp.interp_tf(np.array([f[0], bad]), T),
               'extrapolation')
    return [c['tf']['order']]


def delay_case():
    return rec(tf=tf_spec(), tau=fl(-20, 20), tau2=fl(-20, 20),
               series=st.booleans(), fmax=fl(0.05, 1.0), n=ints(4, 40),
               q=st.lists(fl(-1, 1), min_size=1, max_size=10))


def delay(c):
    f, mag, ph, p = make(c['tf'])
    z = (mag * np.exp(1j * ph))[p, 0]
    F = f[p]

    def wrap(v):
        v = arr(v, 'apply_delay result', dtype=complex).ravel()
        check(v.shape == F.shape, f'apply_delay shape {v.shape}')
        return pd.Series(v, F) if c['series'] else pd.DataFrame({'a': v},
                                                                index=F)
    T = wrap(z)
    one = arr(wrap(sp.apply_delay(T, c['tau'])), dtype=complex).ravel()
    e = z * np.exp(-2j * np.pi * F * c['tau'])
    close(np.abs(one - e), 0 * F, 0, 1e-9, 'delayed tf')
    close(np.abs(one), np.abs(z), 1e-9, 0, 'magnitude after a delay')
    two = arr(wrap(sp.apply_delay(wrap(one), c['tau2'])),
              dtype=complex).ravel()
    sum_ = arr(wrap(sp.apply_delay(T, c['tau'] + c['tau2'])),
               dtype=complex).ravel()
    close(np.abs(two - sum_), 0 * F, 0, 1e-8, 'successive delays')
    zero = arr(wrap(sp.apply_delay(T, 0.0)), dtype=complex).ravel()
    close(np.abs(zero - z), 0 * F, 0, 1e-12, 'zero delay')
    # a pure delay survives interpolation
    g = np.linspace(-c['fmax'], c['fmax'], c['n'])
    step = g[1] - g[0]
    tau = c['tau']
    if abs(2 * np.pi * step * tau) > 3.0:
        tau = 3.0 / (2 * np.pi * step) * np.sign(tau)
    D = pd.Series(np.exp(-2j * np.pi * g * tau), index=g)
    q = np.array(c['q']) * c['fmax']
    r = arr(sp.interp_tf(q, D), dtype=complex)
    close(np.abs(r - np.exp(-2j * np.pi * q * tau)), 0 * q, 0, 1e-8,
          'interpolated pure delay')
    return ['trivial'] if tau == 0 else []


def clean_case():
    return rec(n=ints(2, 40), seed=seeds(), dt=pick(1.0, .5, 10.),
               cplx=st.booleans())


def clean(c):
    n = c['n']
    r = np.random.default_rng(c['seed'])
    v = r.standard_normal(n) + (1j * r.standard_normal(n) if c['cplx'] else 0)
    f = np.fft.fftfreq(n, c['dt'])
    out = sp.cleanfreq(pd.Series(v.copy(), index=f))
    check(isinstance(out, pd.Series), f'cleanfreq returns {type(out)}')
    check(np.array_equal(np.asarray(out.values), v),
          'cleanfreq changed the values')
    g = np.array([np.nan if x is None else x for x in out.index], float)
    e = f.copy()
    e[n // 2] = np.nan
    close(g, e, 0, 0, 'index after cleanfreq')


SUBS = [
    Sub('interpolation', case, interp, 1200, 30000),
    Sub('delay', delay_case, delay, 1200, 30000),
    Sub('cleanfreq', clean_case, clean, 200, 2000),
    Sub('interpolation at scale', lambda: large(case(), tf=large(tf_spec(), df=column(200, 900, 1e-3, .1), ncol=ints(1, 20)), q=column(50, 400, 0, 1)),
        interp, 24, 400),
    Sub('delay at scale', lambda: large(delay_case(), tf=large(tf_spec(), df=column(200, 900, 1e-3, .1), ncol=ints(1, 20)), n=ints(200, 2000)),
        delay, 24, 400),
]
