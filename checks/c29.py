import contextlib
import io

import numpy as np
from hypothesis import strategies as st

from pbt.gen import fl, ints, large, pick, rec, seeds
from pbt.harness import Sub, check, close, raises, arr
from solarspatialtools.synthirrad import cloudfield as cf

RULE = ('non-trivial: the field has clear and cloudy pixels (or noise of at '
        'least two scales)')
ASSUMPTIONS = ['fields are large enough for the requested clear fraction: at '
               'least 1100 clear pixels or none (the code itself asserts '
               'the fraction to 0.1 %)',
               'some of the weight is on scales that the field resolves; a '
               'field that is constant has no quantiles to divide by',
               'a mean is attainable for the original method if the clear '
               'and edge pixels alone do not exceed it, and for the basic '
               'method if the cloudy pixels need to lie between the minimum '
               'and the unscaled clouds',
               'the maximum is at least one']


def quiet(f, *a, **k):
    with contextlib.redirect_stdout(io.StringIO()):
        return f(*a, **k)


def interp_matrix(m, n):
    """Linear interpolation from m equally spaced nodes to n positions."""
    B = np.zeros((n, m))
    p = np.linspace(0, m - 1, n) if n > 1 else np.zeros(1)
    i = np.minimum(p.astype(int), m - 2)
    f = p - i
    B[np.arange(n), i] = 1 - f
    B[np.arange(n), i + 1] += f
    return B


# ------------------------------------------------------------------ the noise
def noise_case():
    return rec(a=ints(0, 14), b=ints(0, 14), n=ints(2, 40), m=ints(2, 40),
               seed=seeds(), same=pick(True, False, False))


def noise(c):
    a, b, n, m = c['a'], c['b'], c['n'], c['m']
    if c['same']:
        a, b = n, m
    np.random.seed(c['seed'])
    R, F = cf._random_at_scale((a, b), (n, m))
    R, F = arr(R), arr(F)
    check(F.shape == (n, m), f'shape {F.shape}, expected {(n, m)}')
    ea, eb = max(a, 1), max(b, 1)
    check(R.shape == (ea + (ea == 1), eb + (eb == 1)), f'noise {R.shape}')
    if ea == 1:
        check(np.array_equal(R[0], R[1]), 'repeated noise row')
    if eb == 1:
        check(np.array_equal(R[:, 0], R[:, 1]), 'repeated noise column')
    check((R >= 0).all() and (R < 1).all(), 'noise outside 0 to 1')
    e = interp_matrix(R.shape[0], n) @ R @ interp_matrix(R.shape[1], m).T
    close(F, e, 1e-9, 1e-12, 'linear interpolation of the noise')
    np.random.seed(c['seed'])
    R2, F2 = cf._random_at_scale((a, b), (n, m))
    check(np.array_equal(R, R2) and np.array_equal(F, F2), 'reproducible')
    R3, _ = cf._random_at_scale((a, b), (n, m))
    check(not np.array_equal(R, R3), 'noise does not change')
    return ['trivial'] if ea * eb < 4 else ['same' if c['same'] else 'up']


def uniform_case():
    return rec(a=ints(60, 120), b=ints(60, 120), seed=seeds())


def uniform(c):
    np.random.seed(c['seed'])
    R, _ = cf._random_at_scale((c['a'], c['b']), (2, 2))
    u = np.sort(R.ravel())
    n = len(u)
    d = np.abs(u - (np.arange(n) + .5) / n).max()
    lim = np.sqrt(-np.log(1e-11 / 2) / 2 / n) + 1 / n
    check(d < lim, f'noise is not uniform: distance {d:.4f}, limit {lim:.4f}')
    z = R - .5
    for q, w in ((z[1:] * z[:-1], 'rows'), (z[:, 1:] * z[:, :-1], 'columns')):
        check(abs(q.mean()) * 12 < 7 / np.sqrt(q.size),
              f'neighbouring {w} of the noise are correlated')


# ------------------------------------------------------------------ the stack
def stack_case():
    return rec(n=ints(4, 70), m=ints(4, 70), seed=seeds(),
               k=st.lists(ints(1, 7), min_size=2, max_size=6, unique=True),
               wseed=seeds(), as_=pick('array', 'list'),
               light=st.lists(pick(0, 1e-4, .01, 1, 1), min_size=6,
                              max_size=6))


def stack(c):
    r = np.random.default_rng(c['wseed'])
    size = (c['n'], c['m'])
    sc = list(c['k'])
    w, v = r.uniform(.05, 1, (2, len(sc)))
    w = w * c.get('light', [1] * 6)[:len(sc)]

    def run(w, normalize=None):
        np.random.seed(c['seed'])
        kw = {} if normalize is None else {'normalize': normalize}
        a, b = (list(w), sc) if c['as_'] == 'list' else (w, np.array(sc))
        return arr(cf._stack_random_field(a, b, size, **kw))
    f = run(w)
    check(f.shape == size, f'shape {f.shape}, expected {size}')
    check(f.min() >= -1e-12 and f.max() <= w.sum() + 1e-12,
          'weighted noise outside 0 to the sum of weights')
    close(run(w), f, 0, 0, 'same seed')
    g = run(v)
    close(run(w + v), f + g, 1e-9, 1e-12, 'field is additive in weights')
    close(run(3 * w), 3 * f, 1e-9, 1e-12, 'field scales with weights')
    nodes = []
    total = np.zeros(size)
    for i, s in enumerate(sc):
        # the part of one scale, isolated by its weight
        e = w.copy()
        e[i] += 1
        part = run(e) - f
        total = total + w[i] * part
        gx, gy = (max(int(q * 2. ** (1 - s)), 1) for q in size)
        nodes.append(gx * gy)
        B, C = (interp_matrix(max(q, 2), z) for q, z in zip((gx, gy), size))
        R = np.linalg.pinv(B) @ part @ np.linalg.pinv(C).T
        close(B @ R @ C.T, part, 0, 1e-8, f'scale {s} of field {size} is not '
              f'an interpolation of {gx} x {gy} values')
        if np.linalg.matrix_rank(B) == B.shape[1] and \
                np.linalg.matrix_rank(C) == C.shape[1]:
            check(R.min() > -1e-7 and R.max() < 1 + 1e-7,
                  f'noise of scale {s} outside 0 to 1')
            if R.size > 60:
                check(R.max() > .7 and R.min() < .3, f'noise of scale {s} '
                      f'covers only {R.min():.2f} to {R.max():.2f}')
    close(total, f, 1e-8, 1e-8, 'sum of the weighted scales')
    if f.max() - f.min() > 1e-6:
        h = run(w, True)
        close(h, (f - f.min()) / (f.max() - f.min()), 1e-9, 1e-9,
              'normalised field')
    raises(ValueError, lambda: cf._stack_random_field(w, sc + [2], size),
           'more scales than weights')
    return ['trivial'] if len(sc) < 2 or max(nodes) < 4 else [
        'square' if c['n'] == c['m'] else 'oblong', c['as_']]


# ------------------------------------------------------------- mask and edges
def mask_case():
    return rec(n=ints(50, 100), m=ints(50, 100), seed=seeds(),
               frac=st.one_of(fl(.2, 1), fl(.2, 1), pick(.5, .25, 0., 1.)),
               bad=pick(-1e-6, 1.000001, 2., -1.), kind=pick('stack', 'white'))


def smooth_field(r, n, m):
    """Continuous random field from its own noise."""
    out = np.zeros((n, m))
    for k, w in ((2, .2), (4, .3), (9, .5)):
        a, b = max(2, n // k), max(2, m // k)
        out += w * (interp_matrix(a, n) @ r.uniform(0, 1, (a, b))
                    @ interp_matrix(b, m).T)
    return out


def mask(c):
    r = np.random.default_rng(c['seed'])
    n, m = c['n'], c['m']
    f = smooth_field(r, n, m) if c['kind'] == 'stack' \
        else r.standard_normal((n, m))
    f0 = f.copy()
    raises(ValueError, lambda: cf._calc_clear_mask(f, c['bad']),
           f"clear fraction {c['bad']}")
    frac = c['frac']
    if 0 < frac * n * m < 1100:
        return ['trivial']
    M = arr(cf._calc_clear_mask(f, frac))
    check(np.array_equal(f, f0), 'field was modified')
    check(M.shape == (n, m), f'shape {M.shape}')
    check(np.isin(M, (0, 1)).all(), 'mask is not zero or one')
    check(abs(M.mean() - frac) <= 1.01e-3 * frac + 1e-12,
          f'clear fraction {M.mean()}, requested {frac}')
    if 0 < M.mean() < 1:
        check(f[M == 1].max() <= f[M == 0].min(),
              'clear pixels are not the lowest values')
    return ['trivial'] if frac in (0, 1) else [c['kind']]


def edges_case():
    return rec(n=ints(3, 30), m=ints(3, 30), seed=seeds(), size=ints(1, 7),
               thr=pick(0, 0, 0, .1, .35), kind=pick('blob', 'dots', 'half',
                                                     'blob', 'dots', 'none',
                                                     'all', 'pixel'),
               dflt=pick(True, False))


def make_mask(kind, n, m, r):
    if kind == 'blob':
        f = smooth_field(r, n, m)
        return (f > np.quantile(f, r.uniform(.1, .9))).astype(float)
    if kind == 'dots':
        return (r.uniform(size=(n, m)) < r.uniform(.05, .6)).astype(float)
    M = np.zeros((n, m))
    if kind == 'half':
        if r.uniform() < .5:
            M[:int(r.integers(1, n))] = 1
        else:
            M[:, int(r.integers(1, m)):] = 1
    elif kind == 'all':
        M[:] = 1
    elif kind == 'pixel':
        M[r.integers(n), r.integers(m)] = 1
    return M


def sobel2(M):
    p = np.pad(M, 1, 'symmetric')
    d0 = p[2:] - p[:-2]
    gx = d0[:, :-2] + 2 * d0[:, 1:-1] + d0[:, 2:]
    d1 = p[:, 2:] - p[:, :-2]
    gy = d1[:-2] + 2 * d1[1:-1] + d1[2:]
    return gx ** 2 + gy ** 2


def box(E, s):
    lo, hi = s // 2, s - 1 - s // 2
    for ax in (0, 1):
        p = np.pad(E, [(lo, hi) if a == ax else (0, 0) for a in (0, 1)],
                   'symmetric')
        n = E.shape[ax]
        E = sum(np.take(p, range(k, k + n), ax) for k in range(s)) / s
    return E


def edges(c):
    r = np.random.default_rng(c['seed'])
    n, m, s = c['n'], c['m'], c['size']
    if s > min(n, m):
        return ['trivial']
    M = make_mask(c['kind'], n, m, r)
    M0 = M.copy()
    if c['dflt'] and c['thr'] == 0:
        E, S = cf._find_edges(M, s)
    else:
        E, S = cf._find_edges(M, s, c['thr'])
    check(np.array_equal(M, M0), 'mask was modified')
    E, S = arr(E), arr(S)
    exp = sobel2(M)
    close(E, exp, 1e-9, 1e-9, 'edges')
    # uniform surroundings have no edge, straight borders do
    p = np.pad(M, 1, 'symmetric')
    win = np.lib.stride_tricks.sliding_window_view(p, (3, 3))
    mixed = win.max((2, 3)) != win.min((2, 3))
    check(not (E[~mixed] > 0).any(), 'edge away from any border')
    if c['kind'] == 'half':
        check((E[mixed] > 0).all(), 'border without edge')
    check(S.shape == (n, m), f'shape {S.shape} of broadened edges')
    B = box(exp, s)
    if B.max() < 1e-5:
        check(not S.any(), 'broadened edges of a uniform mask')
        return ['trivial']
    q = B / B.max()
    sure = (np.abs(q - c['thr']) > 1e-7) if c['thr'] else \
        (B < 1e-7) | (B > 2e-5)
    check(np.array_equal(S.astype(bool)[sure], (q > c['thr'] + 1e-12)[sure]
                         if c['thr'] else (B > 1e-5)[sure]),
          f'broadened edges (size {s}, threshold {c["thr"]})')
    return [c['kind']]


# -------------------------------------------------------------------- scaling
def scale_case():
    return rec(n=ints(8, 50), m=ints(8, 50), seed=seeds(),
               method=pick('lave', 'basic'), mean=fl(.05, 1.1),
               mx=fl(1, 1.6), lo=fl(0, .85), q=pick(None, .99, .999, .95, .8),
               esize=ints(1, 5), etype=pick('sobel', 'bool', 'float'),
               mask=pick('blob', 'blob', 'dots', 'half', 'none', 'all'),
               flip=pick(False, False, True), cs=pick(None, None, .6, .2, 0., 0, 1.))


def scaling(c):
    r = np.random.default_rng(c['seed'])
    n, m = c['n'], c['m']
    f = smooth_field(r, n, m)
    M = make_mask(c['mask'], n, m, r)
    E = sobel2(M)
    if c['etype'] == 'bool':
        E = box(E, c['esize']) > 1e-5
    elif c['etype'] == 'float':
        E = (box(E, c['esize']) > 1e-5).astype(float)
    keep = f.copy(), M.copy(), E.copy()
    mean, mx, lo = c['mean'], c['mx'], c['lo']
    clear, edge = M > 0, (E > 0) & ~(M > 0)
    cloud = ~clear & ~(E > 0)
    w = f"({c['method']}, mean {mean:.3f}, max {mx:.3f}, min {lo:.3f})"
    if c['method'] == 'lave':
        kw = {} if c['q'] is None else {'max_quant': c['q']}
        out = arr(quiet(cf._scale_field_lave, f, M, E, mean, mx, lo, **kw))
    else:
        kw = {} if c['q'] is None else {'quant': c['q']}
        if c['flip']:
            kw['flipdistr'] = True
        if c['cs'] is not None:
            kw['cs_smoothing'] = c['cs']
        out = arr(quiet(cf._scale_field_basic, f, M, E, mean, mx, lo, **kw))
    for a, b, t in zip((f, M, E), keep, ('field', 'mask', 'edges')):
        check(np.array_equal(a, b), f'{t} was modified')
    check(out.shape == (n, m), f'shape {out.shape}')
    if clear.all():
        close(out, np.ones((n, m)), 0, 0, 'completely clear field')
        return ['trivial', 'all']
    if c['method'] == 'basic' and c['cs'] is not None:
        pass
    else:
        check((out[clear] == 1).all(), f'clear pixels are not one {w}')
    x = f[~clear]
    if c['method'] == 'lave':
        u = np.clip(1 - f * (1 - lo) / np.quantile(x, c['q'] or .99), 0, 1)
        ce = 1 + (u - u.min()) / (u.max() - u.min()) * (mx - 1)
    else:
        q = c['q'] or .999
        a, b = np.quantile(x, q), np.quantile(x, 1 - q)
        if a - b < 1e-6:
            return ['trivial']
        u = (f - b) / (a - b)
        u = np.where(u > 1, 2 - u, u)
        u = np.abs(u)
        if c['flip']:
            u = 1 - u
        ce = u * (mx - 1) + 1
    close(out[edge], ce[edge], 1e-9, 1e-9, f'cloud edges {w}')
    if c['method'] == 'lave':
        check((out[edge] >= 1 - 1e-9).all() and (out[edge] <= mx + 1e-9)
              .all(), f'enhancement outside 1 to the maximum {w}')
    elif c['cs'] is not None:
        close(out[clear], u[clear] * (1 - c['cs']) + c['cs'], 1e-9, 1e-9,
              f'smoothed clear sky {w}')
    if not cloud.any():
        return ['trivial', 'no cloud']
    rest = n * m * mean - out[~cloud].sum()
    y = out[cloud]
    tags = [c['method'], c['mask'], c['etype']]
    slack = 1e-6 * n * m
    if c['method'] == 'lave':
        if u[cloud].sum() < 1e-3:
            return ['trivial']
        if rest > slack:
            close(out.mean(), mean, 1e-9, 1e-12, f'mean {w}')
            close(y, u[cloud] * rest / u[cloud].sum(), 1e-8, 1e-9,
                  f'clouds {w}')
            tags.append('attained')
        elif rest < -slack:
            close(y, u[cloud], 1e-9, 1e-9, f'unscaled clouds {w}')
    else:
        tgt, cur = rest - lo * cloud.sum(), u[cloud].sum()
        if slack < tgt < cur - slack:
            close(out.mean(), mean, 1e-9, 1e-12, f'mean {w}')
            close(y, u[cloud] * tgt / cur + lo, 1e-8, 1e-9, f'clouds {w}')
            tags.append('attained')
        elif tgt < -slack or tgt > cur + slack:
            close(y, u[cloud] * (1 - lo) + lo, 1e-9, 1e-9,
                  f'unscaled clouds {w}')
        if not c['flip']:
            check(y.min() >= lo - 1e-9, f'cloud below the minimum {w}')
    return tags


# ------------------------------------------------------------------ the field
def field_case():
    return rec(n=ints(60, 130), m=ints(60, 130), seed=seeds(), wseed=seeds(),
               ns=ints(2, 6), frac=st.one_of(fl(.3, .95), fl(.3, .95),
                                             pick(.5, .4, 0., 1.)),
               mean=fl(.05, 1.), near=pick(True, True, False), mx=fl(1.01, 1.5),
               lo=fl(0, .6), scaling=pick('original', 'basic', None),
               es=pick(None, 3, 1, 5), bad=pick('lave', '', 'Basic'),
               steep=pick(1, 3, 8),
               lists=pick(True, False))


def whole(c):
    r = np.random.default_rng(c['wseed'])
    size = (c['n'], c['m'])
    N = c['n'] * c['m']
    w = r.uniform(.1, 1, c['ns'])
    w[:4] *= c['steep'] ** np.arange(len(w[:4]))
    w = w / w.sum()
    sc = list(range(1, c['ns'] + 1))
    kw = {}
    if c['scaling']:
        kw['scaling'] = c['scaling']
    if c['es']:
        kw['edgesmoothing'] = c['es']
    frac, mean, mx, lo = c['frac'], c['mean'], c['mx'], c['lo']
    if 0 < frac * N < 1100:
        return ['trivial']
    if c['near']:     # a mean that the cloudy pixels can attain
        mean = frac + (1 - frac) * (lo + (.9 - lo) * mean)

    def run(frac=frac, **k):
        np.random.seed(c['seed'])
        return arr(quiet(cf.cloudfield_timeseries,
                         list(w) if c['lists'] else w, sc, size, frac, mean,
                         mx, lo, **{**kw, **k}))
    out = run()
    check(out.shape == size, f'shape {out.shape}, expected {size}')
    check(np.isfinite(out).all(), 'field is not finite')
    check((out >= 0).all(), 'negative clear-sky index')
    check(np.array_equal(run(), out), 'not reproducible from the seed')
    raises(ValueError, lambda: run(scaling=c['bad']), 'unknown scaling')
    raises(ValueError, lambda: run(frac=1.01), 'clear fraction above one')
    raises(ValueError, lambda: run(frac=-.01), 'negative clear fraction')
    d = c['scaling'] or 'original'
    check(np.array_equal(run(scaling=d), out), 'default scaling')
    check(np.array_equal(run(edgesmoothing=c['es'] or 3), out),
          'default edge smoothing')
    quiet(cf.cloudfield_timeseries, w, sc, size, frac, mean, mx, lo, **kw)
    one = out == 1
    k = one.sum()
    wh = f"({d}, {size}, clear {frac:.3f}, mean {mean:.3f}, max {mx:.3f})"
    check(k >= frac * N * (1 - 1.01e-3) - 1e-6, f'only {k} of {N} pixels '
          f'clear {wh}')
    # (the highest pixels of the original method share the value one)
    check(k <= frac * N * (1 + 1.01e-3) + 4 + .013 * N,
          f'{k} of {N} pixels clear {wh}')
    cloud = out < 1
    if not cloud.any():
        return ['trivial']
    rest = N * mean - out[~cloud].sum()
    t = rest / cloud.sum()
    tags = [d]
    if d == 'original':
        if t > 1e-6:
            close(out.mean(), mean, 1e-9, 0, f'mean {wh}')
            tags.append('attained')
        if t < .3:
            check(out.max() <= mx + 1e-9, f'maximum {out.max()} {wh}')
    else:
        check(out[cloud].min() >= lo - 1e-9, f'minimum {out.min()} {wh}')
        if 1e-3 < t - lo < .1:
            close(out.mean(), mean, 1e-9, 0, f'mean {wh}')
            tags.append('attained')
        ext = 1 + 1.25 * (mx - 1)   # reflected extremes
        if frac > 0 and 1e-3 < t - lo < .1 or t < 0:
            check(out.max() <= max(ext, 1.2), f'maximum {out.max()} {wh}')
    # enhancement appears exactly where there are borders
    if 0 < frac < 1 and (d == 'basic' or t < .3):
        check((out > 1).any(), f'no cloud enhancement {wh}')
    if frac == 0 and d == 'original' and t < .3:
        check(out.max() <= 1 + 1e-9, f'enhancement without borders {wh}')
    return tags + (['trivial'] if frac in (0, 1) else [])


SUBS = [Sub('noise', noise_case, noise, 400, 10000),
        Sub('uniform noise', uniform_case, uniform, 30, 600),
        Sub('stack', stack_case, stack, 300, 6000),
        Sub('clear mask', mask_case, mask, 300, 6000),
        Sub('edges', edges_case, edges, 400, 10000),
        Sub('wide edges', lambda: large(edges_case(), n=ints(40, 130), m=ints(
            40, 130), size=ints(10, 40), kind=pick('pixel', 'half', 'blob')),
            edges, 60, 1500),
        Sub('scaling', scale_case, scaling, 600, 15000),
        Sub('field', field_case, whole, 250, 5000),
        Sub('field at scale', lambda: large(field_case(), n=ints(300, 700),
            m=ints(200, 500)), whole, 6, 80),
        Sub('edges at scale', lambda: large(edges_case(), n=ints(200, 500),
            m=ints(200, 500), size=ints(1, 60)), edges, 6, 80),
        Sub('scaling at scale', lambda: large(scale_case(), n=ints(200, 500),
            m=ints(200, 500)), scaling, 8, 100)]
