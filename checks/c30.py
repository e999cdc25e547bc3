import numpy as np
import pandas as pd
from hypothesis import strategies as st

from pbt.gen import (fl, ints, large, pick, rec, seeds)
from pbt.harness import Sub, check, close, arr
from solarspatialtools.synthirrad import cloudfield as cf

RULE = 'non-trivial: the position is not the origin of the field'
ASSUMPTIONS = ['positions lie inside the field and away from pixel borders, '
               'where rounding would decide, or exactly on a pixel border '
               'that is exact in floating point',
               'the field has one pixel per second of cloud travel (the '
               'documented default of pixres; other values are not claimed)']


def case():
    return rec(nx=ints(1, 60), ny=ints(1, 12), seed=seeds(), kx=ints(0, 59),
               ky=ints(0, 11), fx=pick(0., .25, .5, .8), fy=pick(0., .3, .7),
               spd=pick(1., 2., .5, 4., 8., 10., 16., .25, 12.5),
               dur=ints(0, 80), fill=pick(True, True, False),
               d2=ints(1, 20), kind=pick('tuple', 'array', 'list'),
               dkind=pick('int', 'float', 'np'), wild=fl(.1, 40),
               usewild=pick(False, True), whole=pick(False, True),
               ftype=pick('plain', 'plain', 'int', 'single', 'fortran',
                          'part', 'readonly'))


def oracle(c):
    nx, ny = c['nx'], c['ny']
    r = np.random.default_rng(c['seed'])
    kx, ky = c['kx'] % nx, c['ky'] % ny
    dur = c['dur']
    if c['fill']:           # the whole series lies inside the field
        dur = dur % (nx - kx)
    F = r.uniform(0, 1.3, (nx, ny))
    ft = c.get('ftype', 'plain')
    if ft == 'int':
        F = np.rint(900 * F).astype('int64')
    elif ft == 'single':
        F = F.astype('float32')
    elif ft == 'fortran':
        F = np.asfortranarray(F)
    elif ft == 'part':
        F = np.tile(F, (2, 3))[nx:, ::3] if ny % 3 == 0 else \
            np.repeat(F, 2, 1)[:, ::2]
        nx, ny = F.shape
    F0 = F.copy()
    F.flags.writeable = ft != 'readonly'
    s, fx, fy = c['spd'], c['fx'], c['fy']
    if c['usewild']:
        s, fx, fy = c['wild'], fx or .4, fy or .6

    def at(i, j, d):
        p = ((i + fx) * s, (j + fy) * s)
        if c.get('whole') and s == int(s) and p[0] % 1 == p[1] % 1 == 0:
            p = int(p[0]), int(p[1])
        p = {'tuple': tuple, 'array': np.array, 'list': list}[c['kind']](p)
        d = {'int': int, 'float': float, 'np': np.int64}[c['dkind']](d)
        return arr(cf.get_positional_ts(p, F, s, d))
    got = at(kx, ky, dur)
    exp = F0[kx:kx + dur + 1, ky]
    w = f'series at pixel {(kx, ky)} of {(nx, ny)}, speed {s}, {dur} s'
    close(got, exp, 0, 0, w)
    check(np.array_equal(F, F0), 'field was modified')
    if kx + dur < nx:
        check(len(got) == dur + 1, f'{len(got)} samples for {dur} s')
    # a site further along the wind sees the same series earlier by the
    # travel time
    k = c['d2'] % nx
    if kx + k < nx:
        b = at(kx + k, ky, dur)
        n = max(0, min(len(got) - k, len(b)))
        close(b[:n], got[k:k + n], 0, 0, f'{w}: {k} s along the wind')
    p = ((kx + fx) * s, (ky + fy) * s)
    d = cf.get_positional_ts(p, F, s)
    close(d, F0[kx:kx + 3601, ky], 0, 0, 'default duration')
    return ['wild' if c['usewild'] else 'exact', c['kind']] + (
        ['trivial'] if kx == ky == 0 else [])


SUBS = [Sub('series', case, oracle, 1000, 30000),
    Sub('series at scale', lambda: large(case(), nx=ints(300, 2500), ny=ints(20, 300), kx=ints(0, 2400), ky=ints(0, 299), dur=ints(100, 2000), d2=ints(20, 600)),
        oracle, 40, 800),
]
