import math

import numpy as np
import pandas as pd
from hypothesis import strategies as st

from pbt.gen import (fl, index_spec, ints, large, make_index, pick, rec,
                     rows, whole)
from pbt.harness import Sub, check, close, raises, same_index, arr
from pbt import oracles as O
from solarspatialtools import spatial

RULE = ('non-trivial: at least one target differs from the origin by more '
        'than 1e-6 degrees')
ASSUMPTIONS = ['reference: Krueger series transverse Mercator; tolerance '
               '1e-4 m', 'origin within 6 degrees of latitude 78 at most and '
               'targets within 4 degrees of the origin']

OLON = st.one_of(fl(-180, 180),
                 st.builds(lambda k, d: max(-180.0, min(180.0, 6. * k + d)),
                           ints(-30, 30), st.one_of(pick(0.0, .001, -.001),
                                                    fl(-.5, .5))))
OLAT = st.one_of(fl(-75, 75), fl(-.5, .5), pick(0.0, 51.0, -33.0))
DELTA = st.one_of(fl(-4, 4), fl(-.02, .02), pick(0.0))


def wrap(lon):
    return (lon + 180.0) % 360.0 - 180.0 if not -180 <= lon <= 180 else lon


def origin():
    # pyproj rounds an origin within 1e-8 degrees (1 mm) of a whole number
    return st.tuples(OLAT, OLON).map(
        lambda o: tuple(round(x, 7) + 0. for x in o))


def target(o, d):
    return max(-79.0, min(79.0, o[0] + d[0])), wrap(o[1] + d[1])


def offset(o, t, zone):
    e0, n0 = O.tm(o[0], o[1], 0., zone * 6 - 183, .9996)
    e1, n1 = O.tm(t[0], t[1], 0., zone * 6 - 183, .9996)
    return e1 - e0, n1 - n0


def integral(case, o, ts):
    """Whole degrees, given as integers."""
    if not case['whole']:
        return o, ts
    return (tuple(int(round(x)) for x in o),
            [tuple(int(round(x)) for x in t) for t in ts])


def pack(kind, v, ix):
    v = [x if isinstance(x, int) else float(x) for x in v]
    return {'list': lambda: list(v), 'array': lambda: np.array(v),
            'series': lambda: pd.Series(v, index=make_index(ix, len(v))),
            'tuple': lambda: tuple(v)}[kind]()


def tags(o, ts):
    out = []
    if all(abs(t[0] - o[0]) < 1e-6 and abs(t[1] - o[1]) < 1e-6 for t in ts):
        out.append('trivial')
    if any((t[0] < 0) != (o[0] < 0) for t in ts):
        out.append('across the equator')
    if any(abs(t[1] - o[1]) > 180 for t in ts):
        out.append('across the antimeridian')
    if any(O.zone_of(t[1]) != O.zone_of(o[1]) for t in ts):
        out.append('across a zone border')
    return out


def lcs_case():
    return rec(o=origin(), d=st.lists(st.tuples(DELTA, DELTA), min_size=1,
                                      max_size=5),
               kind=pick('scalar', 'list', 'tuple', 'array', 'series'),
               ix=index_spec('dup'), whole=whole(), dz=st.one_of(st.none(), ints(-1, 1)))


def lcs(case):
    o = case['o']
    o, ts = integral(case, o, [target(o, d) for d in case['d']])
    zs = O.zone_of(o[1])
    kw = {}
    if case['dz'] is not None:
        z = (sorted(zs)[0] - 1 + case['dz']) % 60 + 1
        zs, kw = {z}, {'zone': z}

    if case['kind'] == 'scalar':
        ts = ts[:1]
        r = spatial.latlon2lcs(*ts[0], *o, **kw)
        check(len(r) == 2, 'latlon2lcs must return (east, north)')
        got = [(float(r[0]), float(r[1]))]
    else:
        la = pack(case['kind'], [t[0] for t in ts], case['ix'])
        lo = pack(case['kind'], [t[1] for t in ts], case['ix'])
        r = spatial.latlon2lcs(la, lo, *o, **kw)
        check(len(r) == 2, 'latlon2lcs must return (east, north)')
        if case['kind'] == 'series':
            same_index(r[0].index, la.index, 'index of east')
            same_index(r[1].index, la.index, 'index of north')
        E, N = arr(r[0]), arr(r[1])
        check(E.shape == N.shape == (len(ts),), f'shape {E.shape}')
        got = list(zip(E, N))
    ok = False
    msg = ''
    for z in zs:
        try:
            for g, t in zip(got, ts):
                close(g, offset(o, t, z), 0, 1e-4,
                      f'local coordinates of {t} from {o} in zone {z}')
            ok = True
        except AssertionError as e:
            msg = str(e)
    check(ok, msg)
    # inverse, one point at a time
    for g, t in zip(got, ts):
        b = spatial.lcs2latlon(g[0], g[1], *o, **kw)
        check(len(b) == 2, 'lcs2latlon must return (lat, lon)')
        close(float(b[0]), t[0], 0, 3e-9, 'round-trip latitude')
        d = (float(b[1]) - t[1] + 180) % 360 - 180
        close(d * math.cos(math.radians(t[0])), 0., 0, 3e-9,
              'round-trip longitude')
    return [case['kind']] + tags(o, ts)


def inv_case():
    return rec(o=origin(), e=fl(-2e5, 2e5), n=fl(-2e5, 2e5),
               dz=st.one_of(st.none(), ints(-1, 1)))


def inv(case):
    """lcs2latlon on its own, against the reference projection."""
    o = case['o']
    zs = O.zone_of(o[1])
    kw = {}
    if case['dz'] is not None:
        z = (sorted(zs)[0] - 1 + case['dz']) % 60 + 1
        zs, kw = {z}, {'zone': z}
    la, lo = spatial.lcs2latlon(case['e'], case['n'], *o, **kw)
    t = (float(la), float(lo))
    d = [offset(o, t, z) for z in zs]
    check(any(abs(x - case['e']) < 1e-4 and abs(y - case['n']) < 1e-4
              for x, y in d),
          f'lcs2latlon{(case["e"], case["n"], *o)} gives {t}, which lies at '
          f'{d}')
    return tags(o, [t])


def flat_case():
    return rec(o=origin(), d=st.lists(st.tuples(DELTA, DELTA), min_size=1,
                                      max_size=5),
               kind=pick('scalar', 'list', 'array', 'series'),
               ix=index_spec('dup'), whole=whole(),
               method=pick('matlab', 'tmerc', 'default'))


def flat(case):
    o = case['o']
    o, ts = integral(case, o, [target(o, d) for d in case['d']])
    kw = {} if case['method'] == 'default' else {'method': case['method']}
    if case['kind'] == 'scalar':
        ts = ts[:1]
        la, lo = ts[0]
    else:
        la = pack(case['kind'], [t[0] for t in ts], case['ix'])
        lo = pack(case['kind'], [t[1] for t in ts], case['ix'])
    r = spatial.lla2flat(la, lo, *o, **kw)
    check(len(r) == 2, 'lla2flat must return (east, north)')
    E, N = np.atleast_1d(arr(r[0])), np.atleast_1d(arr(r[1]))
    check(E.shape == N.shape == (len(ts),), f'shape {E.shape}')
    s2 = math.sin(math.radians(o[0])) ** 2
    e2 = O.F_WGS * (2 - O.F_WGS)
    rn = O.A_WGS / math.sqrt(1 - e2 * s2)
    rm = rn * (1 - e2) / (1 - e2 * s2)
    for t, e, n in zip(ts, E, N):
        dl = t[1] - o[1]
        dl -= 360.0 * round(dl / 360.0)
        if case['method'] == 'tmerc':
            ee, en = O.tm(t[0], t[1], o[0], o[1], 1.0)
        else:
            ee = rn * math.cos(math.radians(o[0])) * math.radians(dl)
            en = rm * math.radians(t[0] - o[0])
        close([e, n], [ee, en], 1e-9, 1e-4, f'flat coordinates of {t} '
                                            f'relative to {o}')
    r0 = spatial.lla2flat(*o, *o, **kw)
    close([float(r0[0]), float(r0[1])], [0., 0.], 0, 1e-6,
          'flat coordinates of the reference itself')
    return [case['method'], case['kind']] + tags(o, ts)


def bad_case():
    return rec(o=origin(), m=pick('Matlab', 'utm', '', 'flat', 'TMERC'))


def bad(case):
    raises(ValueError, lambda: spatial.lla2flat(1., 1., *case['o'],
                                                method=case['m']),
           'unknown lla2flat method')


SUBS = [
    Sub('local coordinates', lcs_case, lcs, 1600, 40000),
    Sub('inverse', inv_case, inv, 800, 20000),
    Sub('flat earth', flat_case, flat, 1600, 40000),
    Sub('unknown method', bad_case, bad, 40, 200),
    Sub('local coordinates at scale', lambda: large(lcs_case(), d=rows(100, 400, (-4, 4), (-4, 4))),
        lcs, 24, 400),
    Sub('flat earth at scale', lambda: large(flat_case(), d=rows(100, 400, (-4, 4), (-4, 4))),
        flat, 24, 400),
]
