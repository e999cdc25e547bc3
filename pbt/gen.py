"""Shared generators. Cases are JSON-able; bulk numeric data are expanded
deterministically from small drawn descriptions by the functions below."""
import numpy as np
import pandas as pd
from hypothesis import strategies as st


def fl(lo, hi):
    return st.floats(lo, hi, allow_nan=False, allow_infinity=False,
                     allow_subnormal=False)


def ints(lo, hi):
    return st.integers(lo, hi)


def seeds():
    return st.integers(0, 2 ** 31 - 1)


def pick(*xs):
    return st.sampled_from(xs)


def rec(**kw):
    return st.fixed_dictionaries(
        {k: (v if hasattr(v, 'map') and hasattr(v, 'filter') else st.just(v))
         for k, v in kw.items()})


# ------------------------------------------------------------------- indices
def index_spec(*more):
    """A non-time pandas index: kind and a permutation seed. 'dup' has labels
    that occur more than once."""
    return rec(kind=pick('range', 'shuffled', 'str', 'offset', 'float',
                         *more), seed=seeds())


def make_index(spec, n):
    r = np.random.default_rng(spec['seed'])
    k = spec['kind']
    if k == 'range':
        return pd.RangeIndex(n)
    if k == 'shuffled':
        return pd.Index(r.permutation(n))
    if k == 'str':
        return pd.Index([f's{i:02d}' for i in r.permutation(n)])
    if k == 'float':
        return pd.Index(np.sort(r.uniform(0, 10, n)))
    if k == 'dup':
        return pd.Index([f's{i}' for i in r.integers(0, max(2, n // 2), n)])
    return pd.RangeIndex(7, 7 + n)


# column labels: names, numbers, both, or the same name for several columns
LABELS = pick('str', 'str', 'str', 'int', 'mixed')
LABELS_DUP = pick('str', 'str', 'str', 'int', 'mixed', 'dup')


def labels(kind, stem, n):
    if kind == 'int':
        return [(7 * i + 3) % 1009 for i in range(n)]
    if kind == 'mixed':
        return [i if i % 3 == 1 else (f'{stem}{i}' if i % 3 else i + .5)
                for i in range(n)]
    if kind == 'dup':
        return [f'{stem}{i // 2}' for i in range(n)]
    return [f'{stem}{i}' for i in range(n)]


TZS = [None, 'UTC', 'Etc/GMT+5', 'Etc/GMT-9']


def time_spec(dts=(1, 0.5, 0.25, 2, 10, 0.01, 3600, 129600), tzs=TZS):
    return rec(start=ints(0, 2 * 365 * 86400), dt=pick(*dts), tz=pick(*tzs),
               unit=pick('ns', 'us', 'ms', 's'), freq=pick(False, True))


def make_time(spec, n):
    t0 = pd.Timestamp('2012-01-01') + pd.Timedelta(seconds=spec['start'])
    step = int(round(spec['dt'] * 1e9))
    ix = pd.DatetimeIndex(t0.value + step * np.arange(n, dtype='int64'))
    unit = spec.get('unit', 'ns')
    if not (unit == 's' and step % 10 ** 9 or step % 10 ** 6):
        ix = ix.as_unit(unit)
    if spec['tz']:
        ix = ix.tz_localize(spec['tz'])
    if spec.get('freq') and n > 2:
        # as made by date_range
        ix.freq = pd.tseries.frequencies.to_offset(pd.Timedelta(step, 'ns'))
    return ix


def whole():
    """Marks a share of the cases: numbers are whole and passed as integers."""
    return pick(False, False, False, True)


def as_whole(x, on, k=50):
    """The same data as whole numbers in an integer type, when on is set."""
    if not on:
        return x
    x = x * k
    return (x.round() if hasattr(x, 'round') else np.rint(x)).astype('int64')


# integer types that measurements are stored in
INT = pick(None, None, None, 'int64', 'int32', 'int16')


def as_type(x, dtype):
    """The same data as whole numbers of an integer type (at most +-900, so
    the samples themselves fit), when a type is given."""
    if not dtype:
        return x
    top = np.nanmax(np.abs(np.asarray(x, float)))
    x = x * (900 / top if top else 1.)
    return (x.round() if hasattr(x, 'round') else np.rint(x)).astype(dtype)


# ------------------------------------------------------------------- signals
KINDS = ('noise', 'walk', 'smooth', 'steps', 'cloud')


def series(n, seed, kind='noise'):
    r = np.random.default_rng(seed)
    if kind == 'noise':
        return r.standard_normal(n)
    if kind == 'walk':
        return np.cumsum(r.standard_normal(n))
    if kind == 'smooth':
        m = max(3, n // 12)
        k = np.hanning(m + 2)[1:-1]
        return np.convolve(r.standard_normal(n + m), k / k.sum(),
                           'same')[m // 2:m // 2 + n]
    if kind == 'steps':
        return np.repeat(r.choice([0.2, 0.6, 1.0], n // 5 + 1), 5)[:n] \
            + 0.01 * r.standard_normal(n)
    if kind == 'cloud':
        x = np.clip(0.7 + 0.5 * series(n, seed + 1, 'smooth'), 0.05, 1.3)
        return x * 800
    raise ValueError(kind)


def sig_spec(nmin=16, nmax=256, kinds=KINDS):
    return rec(n=ints(nmin, nmax), seed=seeds(), kind=pick(*kinds))


def frame(n, ncol, seed, kind='noise', index=None, columns=None):
    data = np.column_stack([series(n, seed + 101 * i, kind)
                            for i in range(ncol)])
    return pd.DataFrame(data, index=index, columns=columns)


# ------------------------------------------------- sites under moving clouds
def cloud_spec(nmin=3, nmax=6):
    return rec(ns=ints(nmin, nmax), n=ints(100, 260), seed=seeds(),
               dt=pick(1, .5, 2, 10), speed=fl(1, 30), ang=fl(-7, 7),
               cross=fl(10, 300), kind=pick('pulse', 'smooth'),
               noise=pick(0.0, 0.0, 0.02, 0.2), t=time_spec((1,)),
               jit=pick(0, 0, 1, 3, 8), kd=pick(6, 6, 20),
               lab=pick('str', 'str', 'int'))


def for_tf(c):
    """The same field within the band of the transfer-function backend."""
    return dict(c, dt=10, kd=20, kind='smooth', jit=min(c['jit'], 1))


def clouds(c, ns=None):
    """Positions and clear-sky index of sites below one advecting pattern.
    Travel times between the sites are whole numbers of samples."""
    r = np.random.default_rng(c['seed'])
    ns, n, dt = ns or c['ns'], c['n'], c['dt']
    m = max(ns, n // c['kd'])
    K = r.choice(np.arange(-m, m + 1), ns, replace=False)
    u = np.array([np.cos(c['ang']), np.sin(c['ang'])])
    p = np.array([-u[1], u[0]])
    along = K * dt * c['speed']
    cross = r.uniform(-1, 1, ns) * c['cross']
    pos = along[:, None] * u + cross[:, None] * p + r.uniform(-5e3, 5e3, 2)
    if c['kind'] == 'pulse':
        w = n // 3
        q = np.convolve(r.standard_normal(w + 4), [1, 2, 1], 'same')[2:-2]
        q = q - q.mean()
        long = np.zeros(3 * n)
        long[n + n // 2 - w // 2:n + n // 2 - w // 2 + w] = q
    else:
        long = np.convolve(r.standard_normal(3 * n + 40),
                           np.hanning(14), 'same')[20:-20]
    long = .8 + .35 * long / np.abs(long).max()
    # sites that do not follow the common motion exactly
    Q = K + r.integers(-c['jit'], c['jit'] + 1, ns)
    Y = np.column_stack([long[n - k:2 * n - k] for k in Q])
    Y = Y + c['noise'] * .1 * r.standard_normal(Y.shape)
    names = [i if c.get('lab') == 'int' else f'p{i}'
             for i in r.permutation(ns).tolist()]
    ix = make_time(dict(c['t'], dt=dt), n)
    return (pd.DataFrame(pos, names, ['E', 'N']),
            pd.DataFrame(Y, ix, names), u, K)


# ------------------------------------------------------------- large cases
def large(base, **over):
    """Cases of a base strategy in which some entries are replaced by large
    ones: a strategy, a value, or a function of a random generator."""
    fix = {k: v for k, v in over.items() if hasattr(v, 'filter')}
    fun = {k: v for k, v in over.items() if callable(v) and k not in fix}
    val = {k: v for k, v in over.items() if k not in fix and k not in fun}

    def join(c, s, d):
        r = np.random.default_rng(s)
        return {**c, **val, **d, **{k: f(r) for k, f in fun.items()}}
    return st.builds(join, base, seeds(), rec(**fix))


def rows(lo, hi, *ranges):
    """For large(): between lo and hi rows of numbers in the given ranges."""
    def f(r):
        n = int(r.integers(lo, hi + 1))
        return np.column_stack([r.uniform(a, b, n) for a, b in ranges]).tolist()
    return f


def column(lo, hi, a, b):
    def f(r):
        return r.uniform(a, b, int(r.integers(lo, hi + 1))).tolist()
    return f
