"""Reference pieces shared by the cloud-motion checks (C18, C19, C20)."""
import itertools

import numpy as np

from pbt import oracles as O
from solarspatialtools import cmv

F = cmv.Flag


def pairs_of(ids, refs=None):
    out = list(itertools.combinations_with_replacement(ids, 2))
    if refs is not None:
        out = [p for p in out if p[0] in refs or p[1] in refs]
    return out


def pair_corr(a, b, dt):
    """Delay, peak, mean and zero-lag coefficient of a pair; the margin by
    which the maximum is unique (relative to rounding)."""
    x, y = a - a.mean(), b - b.mean()
    num, L = O.xcorr(x, y)
    z = num / (len(a) * a.std() * b.std())
    k = int(z.argmax())
    s = np.sort(z)
    gap = s[-1] - s[-2]
    d = -L[k] * dt
    if z[k] < 1e-10:
        d = 0.0
    return d, z[k], z.mean(), z[len(b) - 1], gap


def angdiff(a, b):
    return (a - b + np.pi) % (2 * np.pi) - np.pi


def jamaly(vec, lag):
    """Minimal variance, a function theta -> (variance, median, v40, v60) and
    the spread of the quadratic form."""
    w = vec / lag[:, None]
    S = np.cov(w.T, bias=True)
    lam, U = np.linalg.eigh(S)

    def at(theta):
        v = w @ np.array([np.cos(theta), np.sin(theta)])
        return (np.var(v), np.median(v), np.percentile(v, 40),
                np.percentile(v, 60), v)
    th = np.arctan2(U[1, 0], U[0, 0])
    return lam, th, at


def gagne(vec, lag):
    a, *_ = np.linalg.lstsq(vec, lag, rcond=None)
    m2 = a @ a
    s = np.linalg.svd(vec, compute_uv=False)
    return a / m2, s[0] / max(s[-1], 1e-300), np.sqrt(m2)
