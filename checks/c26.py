import numpy as np
import pandas as pd
from hypothesis import strategies as st
from scipy.stats import binom, norm, rankdata

from pbt.gen import fl, ints, pick, rec, seeds
from pbt.harness import Sub, check, close, arr
from checks.c25 import perturb
from solarspatialtools.synthirrad import copula

RULE = ('non-trivial: the mixture has two components of weight above 1e-3 '
        '(parameters), or the latent correlation is between 0.02 and 0.98')
ASSUMPTIONS = ['distributions are compared within statistical limits that a '
               'correct sampler exceeds with probability below 1e-9 per case '
               '(Kolmogorov distance, normal-score correlation)',
               'the support is the grid -2 to 2 with spacing 0.01 of the '
               'implementation: distributions may be displaced by 0.01']

TABLE = {'comp': [.8051, 7.3605, .7092], 'mean': [2.2928, 1.0801, .4532],
         'sdevClear': [.3512, 4.8414, .6442],
         'sdevCloud': [.1997, 5.0919, .3863], 'corr_quadr': .0043}


def sig(x, a, c):
    return 1 / (1 + np.exp(-a * (x - c)))


def published(m, P):
    """Equations 9-14 (with the corrected assignment of equation 12)."""
    w1 = 1 - P['comp'][0] * sig(m, P['comp'][1], P['comp'][2])
    w2 = 1 - w1
    mu2 = P['mean'][0] * w1 * m + P['mean'][1] * w2 * (m - P['mean'][2])
    mu1 = (m - w2 * mu2) / w1
    s2 = P['sdevClear'][0] * (1 - sig(m, P['sdevClear'][1],
                                      P['sdevClear'][2]))
    s1 = P['sdevCloud'][0] * sig(m, P['sdevCloud'][1], P['sdevCloud'][2])
    k = max(P['corr_quadr'] * m * (1 - m), 1e-5)
    return [mu1, mu2], [w1, w2], [s1, s2], k


def cdf(x, m, P):
    mu, w, s, _ = published(m, P)

    def F(v):
        return sum(a * norm.cdf((v - b) / d) for a, b, d in zip(w, mu, s))
    lo, hi = F(-2.), F(2.)
    return np.clip((F(np.asarray(x)) - lo) / (hi - lo), 0, 1)


def param_case():
    return rec(csi=st.one_of(fl(.02, 1.), fl(1., 1.3), pick(.5, 1., .7092)),
               pseed=ints(0, 2000), rseed=seeds(), vec=pick(True, False),
               wide=pick(True, False))


def anything(seed):
    """Parameters of any climate."""
    r = np.random.default_rng(seed)
    return {'comp': [r.uniform(.05, .95), 10 ** r.uniform(-1, 1.3),
                     r.uniform(-.2, 1.2)],
            'mean': [r.uniform(.5, 3), r.uniform(-1, 3), r.uniform(0, 1)],
            'sdevClear': [10 ** r.uniform(-1.5, 0), 10 ** r.uniform(-1, 1.3),
                          r.uniform(0, 1)],
            'sdevCloud': [10 ** r.uniform(-1.5, 0), 10 ** r.uniform(-1, 1.3),
                          r.uniform(0, 1)],
            'corr_quadr': 10 ** r.uniform(-4, 0)}


def params(c):
    """Deterministic pieces: parameters, mixture and inverse sampling."""
    P, m = (anything if c['wide'] else perturb)(c['pseed']), c['csi']
    keep = repr(P)
    for q, v in TABLE.items():
        close(copula.DEFAULT_PARAMS[q], v, 1e-12, 0, f'published {q}')
    mu, w, s, k = published(m, P)
    a, b, v, kk = copula._process_params(m, P)
    check(repr(P) == keep, 'parameters were modified')
    close(a, mu, 1e-9, 1e-12, 'component means')
    close(b, w, 1e-9, 1e-12, 'component weights')
    close(v, np.square(s), 1e-9, 1e-15, 'component variances')
    close(kk, k, 1e-9, 0, 'decay rate')
    close(np.dot(arr(a), arr(b)), m, 1e-9, 1e-12, 'mean of the mixture')
    close(sum(arr(b)), 1., 1e-12, 0, 'sum of weights')
    if c['vec']:
        K = np.array([.0, m, 1.0, 1.25, -.1])
        close(copula._exponential_decay_parameter(K, P['corr_quadr']),
              [1e-5, k, 1e-5, 1e-5, 1e-5], 1e-9, 0,
              'decay rates of several means')
    for q in (1.25, -.1):
        close(copula._exponential_decay_parameter(q, P['corr_quadr']), 1e-5,
              1e-9, 0, f'decay rate of a mean of {q}')
    if min(w) < 1e-3 or min(s) < .012:
        return ['trivial']
    x = np.arange(-2, 2, .01)
    f, F = copula._gmdistribution(x, mu, np.square(s), w)
    pdf = sum(q * norm.pdf(x, u, d) for q, u, d in zip(w, mu, s))
    close(f, pdf, 1e-8, 1e-10 * pdf.max(), 'mixture density')
    e = np.cumsum(pdf) / pdf.sum()
    close(F, e, 1e-8, 1e-10, 'mixture distribution function')
    r = np.random.default_rng(c['rseed'])
    u = np.r_[r.uniform(0, 1, 12), 0.5]
    got = arr(copula._inverse_sample(x, F, u.reshape(-1, 1)))
    check(got.shape == (13, 1), f'shape {got.shape} of the inverse')
    got = got.ravel()
    inside = (u > e[0] + 1e-9) & (u < 1 - 1e-9)
    i = np.searchsorted(e, u)
    lo, hi = x[np.maximum(i - 1, 0)] - 1e-6, x[np.minimum(i, 399)] + 1e-6
    check(((got >= lo) & (got <= hi))[inside].all(), 'inverse sample is not '
          'between the neighbouring grid values')
    j = np.maximum(i - 1, 0)
    h = np.minimum(i, 399)
    with np.errstate(all='ignore'):
        lin = x[j] + (u - e[j]) / (e[h] - e[j]) * (x[h] - x[j])
    ok = inside & (e[h] - e[j] > 1e-6) & (i > 0)
    close(got[ok], lin[ok], 0, 1e-6, 'linear inverse of the distribution')
    close(copula._inverse_sample(x, F, float(u[0])), got[0], 1e-12, 1e-12,
          'scalar inverse')
    return ['vec' if c['vec'] else 'one', 'wide' if c['wide'] else 'near']


def marginal_case():
    return rec(csi=st.one_of(fl(.05, .97), pick(.5, .7092)),
               pseed=ints(0, 2000), rs=seeds(), n=pick(150, 250),
               rep=ints(14, 20), nt=pick(1, 1, 3), spd=fl(0, 30),
               ang=fl(-3, 3))


def marginal(c):
    P, m = perturb(c['pseed']), c['csi']
    mu, w, s, k = published(m, P)
    n = c['n'] // c['nt']
    t = pd.date_range('2020-06-01', periods=c['nt'], freq=f'{10**7}s')
    x = np.arange(n) * 1e9
    spd = c['spd'] if c['nt'] == 1 else max(c['spd'], 10.)
    y = np.zeros(n)
    out = np.concatenate([arr(copula.downscale(
        t, x, y, spd, np.pi / 2 if c['nt'] > 1 else c['ang'], m, P,
        seed=c['rs'] + i, scale=False, noneg=False)).ravel()
        for i in range(c['rep'])])
    N = len(out)
    q = np.sort(out)
    lim = np.sqrt(-np.log(1e-10 / 2) / (2 * N))
    up, lo = np.arange(1, N + 1) / N, np.arange(N) / N
    d1 = (lo - cdf(q + .0101, m, P)).max()
    d2 = (cdf(q - .0101, m, P) - up).max()
    check(max(d1, d2) < lim, f'distribution of unscaled values differs from '
          f'the mixture: distance {max(d1, d2):.3f}, limit {lim:.3f} '
          f'(N={N}, mean {m})')
    g = np.linspace(-2, 2, 4001)
    G = cdf(g, m, P)
    mean = 2 - np.trapezoid(G, g)
    sd = np.sqrt(max(np.trapezoid(2 * g * (1 - G), g) + 4. - mean ** 2, 1e-4))
    check(abs(out.mean() - mean) < .011 + 7 * sd / np.sqrt(N),
          f'mean of unscaled values {out.mean():.4f}, mixture {mean:.4f}')
    return ['trivial'] if min(w) < 1e-3 else [f"nt{c['nt']}"]


def dependence_case():
    return rec(csi=fl(.1, .95), pseed=ints(0, 2000), rs=seeds(),
               rho=fl(.05, .95), geo=fl(-7, 7), spd=fl(0, 30), ang=fl(-7, 7),
               kind=pick('space', 'time', 'both', 'along'),
               steps=ints(1, 6), rep=pick(40, 60))


def dependence(c):
    """Many independent pairs of space-time points with one distance."""
    P, m = perturb(c['pseed']), c['csi']
    k = published(m, P)[3]
    d = -np.log(c['rho']) / k
    dt = 10. * c['steps']
    spd, ang = c['spd'], c['ang']
    if c['kind'] == 'space':
        sx = d * np.array([np.cos(c['geo']), np.sin(c['geo'])])
        nt = 1
    elif c['kind'] == 'time':
        spd, sx, nt = d / dt, np.zeros(2), 2
    elif c['kind'] == 'along':
        # displaced by more than the drift
        sx = (d + spd * dt) * np.array([np.cos(ang), np.sin(ang)])
        nt = 2
    else:
        sx = d * np.array([np.cos(c['geo']), np.sin(c['geo'])]) \
            + spd * dt * np.array([np.cos(ang), np.sin(ang)])
        nt = 2
    pairs = 40
    one = c['kind'] == 'time'
    base = np.arange(pairs) * 1e10
    x = base if one else np.r_[base, base + sx[0]]
    y = base * 0 if one else np.r_[base * 0, base * 0 + sx[1]]
    t = pd.date_range('2020-06-01', periods=nt, freq=f"{int(dt)}s")
    A, B = [], []
    for i in range(c['rep']):
        o = arr(copula.downscale(t, x, y, spd, ang, m, P, seed=c['rs'] + i,
                                 scale=False, noneg=False))
        if one:
            a, b = o[0], o[1]
        elif nt == 1:
            a, b = o[0, :pairs], o[0, pairs:]
        else:
            a, b = o[0, :pairs], o[1, pairs:]
        A.append(a)
        B.append(b)
    A, B = np.concatenate(A), np.concatenate(B)
    N = len(A)
    z = norm.ppf((rankdata(np.r_[A, B]) - .5) / (2 * N))
    got = np.corrcoef(z[:N], z[N:])[0, 1]
    check(abs(np.arctanh(np.clip(got, -.9999, .9999)) - np.arctanh(c['rho']))
          < 6.5 / np.sqrt(N) + .015, f'latent correlation {got:.3f} at '
          f'distance {d:.1f}, expected {c["rho"]:.3f} ({c["kind"]}, N={N})')
    return [c['kind']] + (['trivial'] if not .02 < c['rho'] < .98 else [])


def tails_case():
    return rec(csi=st.one_of(fl(.1, .95), pick(.5, .7092)),
               pseed=ints(0, 2000), rs=seeds())


def tails(c):
    """Rare values: many independent sites, counts beyond outer quantiles."""
    P, m = perturb(c['pseed']), c['csi']
    mu, w, s, k = published(m, P)
    n, rep = 400, 50
    t = pd.date_range('2020-06-01', periods=1, freq='s')
    x, y = np.arange(n) * 1e9, np.zeros(n)
    v = np.concatenate([arr(copula.downscale(
        t, x, y, 5., 0., m, P, seed=c['rs'] + i, scale=False,
        noneg=False)).ravel() for i in range(rep)])
    N = len(v)
    g = np.linspace(-2, 2, 40001)
    G = cdf(g, m, P)
    for q in (.001, .002, .01, .05, .2, .8, .95, .99, .998, .999):
        at = g[np.searchsorted(G, q)]
        lo, hi = cdf(at - .0102, m, P), cdf(at + .0102, m, P)
        got = int((v < at).sum())
        check(binom.cdf(got, N, lo) > 1e-8 and binom.sf(got - 1, N, hi) > 1e-8,
              f'{got} of {N} unscaled values below {at:.4f}, expected between '
              f'{N * lo:.0f} and {N * hi:.0f} (mean {m})')
    return ['trivial'] if min(w) < 1e-3 else ['tails']


def joint_case():
    return rec(csi=fl(.1, .95), pseed=ints(0, 2000), rs=seeds(),
               ls=ints(0, 10**6), sites=ints(2, 4), nt=ints(1, 3),
               spread=fl(.1, 3.), spd=fl(0, 2.), ang=fl(-7, 7))


def joint(c):
    """Independent copies of a cluster: all correlations at once and the
    normality of random combinations."""
    P, m = perturb(c['pseed']), c['csi']
    k = published(m, P)[3]
    r = np.random.default_rng(c['ls'])
    ns, nt = c['sites'], c['nt']
    rel = r.uniform(-1, 1, (ns, 2)) * c['spread'] / k
    dt = 10.
    spd = c['spd'] / k / dt
    u = spd * np.array([np.cos(c['ang']), np.sin(c['ang'])])
    copies = 240 // (ns * nt)
    base = np.arange(copies) * 1e9
    x = (base[:, None] + rel[:, 0]).ravel()
    y = (0 * base[:, None] + rel[:, 1]).ravel()
    t = pd.date_range('2020-06-01', periods=nt, freq='10s')
    rep = 25
    Z = []
    for i in range(rep):
        o = arr(copula.downscale(t, x, y, spd, c['ang'], m, P,
                                 seed=c['rs'] + i, scale=False, noneg=False))
        check(o.shape == (nt, copies * ns), f'shape {o.shape}')
        Z.append(o.reshape(nt, copies, ns).transpose(1, 0, 2)
                 .reshape(copies, nt * ns))
    Z = np.concatenate(Z)
    N, p = Z.shape
    Z = norm.ppf((rankdata(Z) - .5) / Z.size).reshape(N, p)
    pt = (rel[None] - (np.arange(nt) * dt)[:, None, None] * u).reshape(p, 2)
    D = np.sqrt(((pt[:, None] - pt[None]) ** 2).sum(-1))
    R = np.exp(-k * D)
    got = np.corrcoef(Z.T)
    lim = 7 / np.sqrt(N) + .015
    a, b = np.arctanh(np.clip(got, -.999, .999)), np.arctanh(np.clip(R, 0, .999))
    off = ~np.eye(p, dtype=bool)
    # ties on the grid and the linear inverse matter for near copies only
    off &= R < .98
    if off.any():
        e = np.abs(a - b) * off
        i = np.unravel_index(e.argmax(), e.shape)
        check(e[i] < lim, f'latent correlation {got[i]:.3f} of points '
              f'{D[i] * k:.2f} decay lengths apart, expected {R[i]:.3f} '
              f'(N={N})')
    W = Z @ r.standard_normal((p, 6))
    W = (W - W.mean(0)) / W.std(0)
    kurt = (W ** 4).mean(0) - 3
    check(np.abs(kurt).max() < 9 * np.sqrt(24 / N) + .1,
          f'combinations of latent values are not normal: excess '
          f'{kurt.max():.2f} (N={N})')
    return [f'{ns}x{nt}'] + ([] if off.any() else ['trivial'])


def precise_case():
    return rec(rs=seeds(), ls=ints(0, 10**6), near=fl(.05, 7.), np_=ints(2, 3),
               k=pick(1., .3, .02))


def precise(c):
    """The copula itself, with an identical distribution function: millions of
    samples resolve small correlations and rare values."""
    r = np.random.default_rng(c['ls'])
    p, n, k = c['np_'], 1_000_000, c['k']
    pt = np.cumsum(r.uniform(.5, 1, (p, 1)) * c['near'] * np.stack(
        [np.cos(a := r.uniform(-1, 1, p)), np.sin(a)], 1), 0) / k
    D = np.sqrt(((pt[:, None] - pt[None]) ** 2).sum(-1))
    g = np.linspace(0, 1, 201)
    u = arr(copula._space_time_copula(n, D, g, g.copy(), k, seed=c['rs']))
    check(u.shape == (n, p), f'{u.shape} samples of {p} points')
    want = 6 / np.pi * np.arcsin(np.exp(-k * D) / 2)
    got = np.corrcoef(u.T)
    i = np.unravel_index(np.abs(got - want).argmax(), want.shape)
    check(abs(got[i] - want[i]) < 6.5 / np.sqrt(n), f'rank correlation '
          f'{got[i]:.5f} at {k * D[i]:.2f} decay lengths, expected '
          f'{want[i]:.5f}')
    close(u.mean(0), np.full(p, .5), 0, 6.5 * np.sqrt(1 / 12 / n), 'mean rank')
    close(u.var(0), np.full(p, 1 / 12), 0, 6.5 * np.sqrt(1 / 180 / n),
          'variance of the ranks')
    for q in (3e-5, 1e-3, .03):
        for j in range(p):
            for m in (u[:, j] < q).sum(), (u[:, j] > 1 - q).sum():
                check(binom.cdf(m, n, q) > 1e-10 and
                      binom.sf(m - 1, n, q) > 1e-10,
                      f'{m} of {n} ranks beyond {q}')
    return ['small' if want.min() < .05 else 'large']


SUBS = [Sub('parameters', param_case, params, 600, 20000),
        Sub('marginal', marginal_case, marginal, 40, 1200),
        Sub('dependence', dependence_case, dependence, 80, 2000),
        Sub('tails', tails_case, tails, 12, 300),
        Sub('joint', joint_case, joint, 40, 1200),
        Sub('precise', precise_case, precise, 24, 500)]
