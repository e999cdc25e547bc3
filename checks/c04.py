import math

import numpy as np
from hypothesis import strategies as st

from pbt.gen import fl, large, pick, rec, ints, whole
from pbt.harness import Sub, check, close, arr
from solarspatialtools import spatial

RULE = ('non-trivial: at least one pair of vectors at an angle with sine '
        'above 1e-3')
ASSUMPTIONS = ['non-parallel rows have an angle with sine above 1e-3 and '
               'lengths within a factor 1e4; parallel rows are exactly '
               'parallel (integer multiples)']


def row():
    good = st.builds(lambda m, r, t, s, g: ([m * math.cos(t),
                                             m * math.sin(t)],
                                            [r * m * math.cos(t + g * s),
                                             r * m * math.sin(t + g * s)]),
                     fl(1e-2, 1e4), fl(0.01, 100), fl(-7, 7),
                     fl(0.002, math.pi - 0.002), pick(-1, 1))
    axis = st.builds(lambda a, b, f: ([a, 0.0], [0.0, b]) if f
                     else ([0.0, b], [a, 0.0]),
                     ints(1, 50).map(float), ints(-50, -1).map(float),
                     st.booleans())
    par = st.builds(lambda x, y, k: ([float(x), float(y)],
                                     [float(k * x), float(k * y)]),
                    ints(-9, 9), ints(1, 9), pick(-2, -1, 2, 3, 1))
    return st.one_of(good, good, good, axis, par)


def case():
    return rec(rows=st.lists(row(), min_size=1, max_size=6), whole=whole(),
               unit=pick(0, 0, 0, -9, -5, 6, 12, 30))


def oracle(c):
    A = np.array([r[0] for r in c['rows']])
    B = np.array([r[1] for r in c['rows']])
    if c['whole']:
        A, B = np.rint(A), np.rint(B)
        A[np.hypot(*A.T) == 0] = B[np.hypot(*B.T) == 0] = (1, 2)
        A, B = A.astype(int), B.astype(int)
    elif c['unit']:
        # the same vectors in another unit of length
        A, B = A * 10. ** c['unit'], B * 10. ** c['unit']
    with np.errstate(all='ignore'):
        C = arr(spatial.compute_intersection(A.copy(), B.copy()))
        D = arr(spatial.compute_intersection(B.copy(), A.copy()))
    check(C.shape == A.shape, f'shape {C.shape} for {A.shape}')
    A, B = A.astype(float), B.astype(float)
    cross = A[:, 0] * B[:, 1] - A[:, 1] * B[:, 0]
    ma, mb = np.hypot(*A.T), np.hypot(*B.T)
    sine = np.abs(cross) / (ma * mb)
    n_good = 0
    for i in range(len(A)):
        if cross[i] == 0:
            check(not np.all(np.isfinite(C[i])),
                  f'parallel pair {A[i]}, {B[i]} gives a finite {C[i]}')
            continue
        n_good += 1
        tol = 1e-12 * (ma[i] + mb[i]) ** 2 / sine[i] ** 2
        check(abs(C[i] @ A[i] - ma[i] ** 2) <= tol * (ma[i] / mb[i] + 1),
              f'C.A = {C[i] @ A[i]!r}, |A|^2 = {ma[i] ** 2!r} for '
              f'A={A[i]}, B={B[i]}')
        check(abs(C[i] @ B[i] - mb[i] ** 2) <= tol * (mb[i] / ma[i] + 1),
              f'C.B = {C[i] @ B[i]!r}, |B|^2 = {mb[i] ** 2!r} for '
              f'A={A[i]}, B={B[i]}')
        rt = 1e-9 / sine[i]
        close(D[i], C[i], 0, rt * (ma[i] + mb[i]), 'after exchanging A and B')
        # row on its own
        with np.errstate(all='ignore'):
            t = int if c['whole'] else float
            one = arr(spatial.compute_intersection(A[i:i+1].astype(t),
                                                   B[i:i+1].astype(t)))
        close(one, C[i:i+1], 0, rt * (ma[i] + mb[i]), 'row computed alone')
    t = ['with parallel row'] if np.any(cross == 0) else []
    return t + (['trivial'] if n_good == 0 else [])


def many(r):
    """Many rows, some of them parallel."""
    n = int(r.integers(60, 600))
    out = []
    for m, q, t, s, k in zip(10 ** r.uniform(-2, 4, n),
                             10 ** r.uniform(-2, 2, n), r.uniform(-7, 7, n),
                             r.uniform(.002, 6.28, n), r.random(n)):
        if k < .1:
            a = r.integers(1, 9, 2).astype(float)
            out.append((a.tolist(), (a * int(r.integers(1, 4))).tolist()))
            continue
        if abs(math.sin(s)) < .002:
            s = 1.
        out.append(([m * math.cos(t), m * math.sin(t)],
                    [q * m * math.cos(t + s), q * m * math.sin(t + s)]))
    return out


SUBS = [Sub('intersection', case, oracle, 3000, 80000),
        Sub('intersection at scale', lambda: large(case(), rows=many),
            oracle, 12, 200)]
