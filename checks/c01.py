import math

import numpy as np
import pandas as pd
from hypothesis import strategies as st

from pbt.gen import (fl, index_spec, ints, large, make_index, pick, rec,
                     rows)
from pbt.harness import Sub, check, close, raises, same_index, arr
from pbt import oracles as O
from solarspatialtools import spatial

RULE = ('points at least 1 cm off zone centre lines and off the equator count '
        'as non-trivial; duplicates of a generated case do not count')
ASSUMPTIONS = ['reference: Krueger series of order 6 in the third flattening '
               '(written here, no PROJ); tolerance 1e-4 m']

LON = st.one_of(
    fl(-180, 180),
    st.builds(lambda k, d: max(-180.0, min(180.0, 6.0 * k + d)),
              ints(-30, 30),
              st.one_of(pick(0.0, 1e-7, -1e-7, 1e-4, -1e-4), fl(-1, 1))),
    ints(-180, 180))
LAT = st.one_of(fl(-83.5, 83.5), fl(-0.01, 0.01),
                pick(0.0, 1e-9, -1e-9, 45.0, -45.0), ints(-83, 83))


def near_zone(lon, dz):
    z = sorted(O.zone_of(lon))[0]
    return (z - 1 + dz) % 60 + 1


def pts(lo, hi):
    return st.lists(st.tuples(LAT, LON), min_size=lo, max_size=hi)


def point():
    return rec(p=st.tuples(LAT, LON), dz=st.one_of(st.none(), ints(-2, 2)),
               np=st.booleans())


def _polar_ok(lat, lon, zone):
    d = abs((lon - (zone * 6 - 183) + 180) % 360 - 180)
    return d < 20


def forward(case):
    lat, lon = case['p']
    zone = None if case['dz'] is None else near_zone(lon, case['dz'])
    a, b = (np.float64(lat), np.float64(lon)) if case['np'] else (lat, lon)
    r = spatial.latlon2utm(a, b) if zone is None \
        else spatial.latlon2utm(a, b, zone=zone)
    check(len(r) == 3, 'latlon2utm does not return (E, N, zone)')
    e, n, z = float(r[0]), float(r[1]), r[2]
    if zone is None:
        check(z in O.zone_of(lon), f'zone {z} for longitude {lon}')
    else:
        check(z == zone, f'zone {z}, requested {zone}')
    ee, en = O.utm(lat, lon, int(z))
    close(e, ee, 0, 1e-4, 'easting')
    close(n, en, 0, 1e-4, 'northing')
    back = spatial.utm2latlon(e, n, int(z), south=(lat < 0))
    check(len(back) == 2, 'utm2latlon does not return (lat, lon)')
    close(float(back[0]), lat, 0, 2e-9, 'round-trip latitude')
    # longitude lines converge: tolerance in metres on the ground
    dlon = (float(back[1]) - lon + 180) % 360 - 180
    close(dlon * math.cos(math.radians(lat)), 0.0, 0, 2e-9,
          'round-trip longitude')
    return ['explicit zone' if zone else 'own zone',
            'south' if lat < 0 else 'north'] + (
        ['trivial'] if abs(e - 5e5) < .01 and abs(lat) < 1e-7 else [])


def inverse_case():
    # grid coordinates drawn directly, with the hemisphere flag
    return rec(e=fl(170000, 830000), n=fl(1000, 9200000), zone=ints(1, 60),
               south=st.booleans(), pos=st.booleans())


def inverse(case):
    e, n, z, s = case['e'], case['n'], case['zone'], case['south']
    if s:
        n = 1e7 - n
    if case['pos']:
        lat, lon = spatial.utm2latlon(e, n, z, s)
    elif s:
        lat, lon = spatial.utm2latlon(e=e, n=n, zone=z, south=s)
    else:
        lat, lon = spatial.utm2latlon(e, n, z)
    check((lat < 0) == s, 'hemisphere of the inverse')
    ee, en = O.utm(lat, lon, z)
    close(e, ee, 0, 1e-4, 'easting of the returned point')
    close(n, en, 0, 1e-4, 'northing of the returned point')
    return ['south' if s else 'north']


def vector_case():
    return rec(pts=pts(1, 7), kind=pick('list', 'tuple', 'array', 'series'),
               ix=index_spec('dup'), zone=st.one_of(st.none(), ints(1, 60)))


def _pack(kind, v, ix):
    v = [float(x) for x in v]
    return {'list': lambda: list(v), 'tuple': lambda: tuple(v),
            'array': lambda: np.array(v),
            'series': lambda: pd.Series(v, index=make_index(ix, len(v)))
            }[kind]()


def vector(case):
    P = case['pts']
    zone = case['zone']
    if zone is not None:
        P = [p for p in P if _polar_ok(*p, zone)]
        if not P:
            lon0 = zone * 6 - 183
            P = [[20.0, lon0 + 1.5], [-20.0, lon0 - 2.0]]
    lat = _pack(case['kind'], [p[0] for p in P], case['ix'])
    lon = _pack(case['kind'], [p[1] for p in P], case['ix'])
    r = spatial.latlon2utm(lat, lon, zone)
    if case['kind'] == 'series':
        check(isinstance(r, pd.DataFrame), 'pandas input must give DataFrame')
        check(list(r.columns) == ['E', 'N', 'zone'],
              f'columns {list(r.columns)}')
        same_index(r.index, lat.index, 'index of latlon2utm')
    a = arr(r)
    check(a.shape == (len(P), 3), f'shape {a.shape} for {len(P)} points')
    for (la, lo), (e, n, z) in zip(P, a):
        if zone is None:
            check(z in O.zone_of(lo), f'zone {z} for longitude {lo}')
        else:
            check(z == zone, f'zone {z}, requested {zone}')
        close([e, n], O.utm(la, lo, int(z)), 0, 1e-4, 'element of latlon2utm')
    # the inverse, for one zone and hemisphere at a time
    z0, s0 = int(a[0, 2]), P[0][0] < 0
    keep = [i for i in range(len(P))
            if int(a[i, 2]) == z0 and (P[i][0] < 0) == s0]
    e = _pack(case['kind'], a[keep, 0], case['ix'])
    n = _pack(case['kind'], a[keep, 1], case['ix'])
    b = spatial.utm2latlon(e, n, z0, s0)
    if case['kind'] == 'series':
        check(isinstance(b, pd.DataFrame), 'pandas input must give DataFrame')
        check(list(b.columns) == ['lat', 'lon'], f'columns {list(b.columns)}')
        same_index(b.index, e.index, 'index of utm2latlon')
    b = arr(b)
    check(b.shape == (len(keep), 2), f'shape {b.shape} of inverse')
    for i, (la, lo) in zip(keep, b):
        close(la, P[i][0], 0, 2e-9, 'round-trip latitude')
        d = (lo - P[i][1] + 180) % 360 - 180
        close(d * math.cos(math.radians(la)), 0., 0, 2e-9,
              'round-trip longitude')
    mixed = len({p[0] < 0 for p in P}) == 2
    return [case['kind']] + (['trivial'] if len(P) < 2 else []) + (
        ['both hemispheres'] if mixed else [])


def missing_case():
    return rec(pts=pts(1, 6), kind=pick('list', 'tuple', 'array', 'series'),
               ix=index_spec('dup'), at=ints(0, 5), k=ints(1, 2), zone=ints(1, 60),
               south=st.booleans(), what=pick('both', 'first', 'second'))


def missing(case):
    """Sites without coordinates stay missing and do not disturb others."""
    zone = case['zone']
    P = [(p[0], zone * 6 - 183 + (p[1] % 6 - 3)) for p in case['pts']]
    ok = [i for i in range(len(P))]
    a = [list(p) for p in P]
    g = [[3e5 + 1e3 * i, 4e6 + 1e4 * i] for i in range(len(P))]
    at = case['at'] % (len(P) + 1)
    nan = float('nan')
    hole = {'both': [nan, nan], 'first': [nan, 8.0],
            'second': [8.0, nan]}[case['what']]
    for _ in range(case['k']):
        a.insert(at, list(hole))
        g.insert(at, [nan if h != h else 4e5 for h in hole])
        ok = [i + (i >= at) for i in ok]
    f = lambda v: _pack(case['kind'], v, case['ix'])
    r = arr(spatial.latlon2utm(f([p[0] for p in a]), f([p[1] for p in a]),
                               zone))
    check(r.shape == (len(a), 3), f'shape {r.shape} for {len(a)} points')
    b = arr(spatial.utm2latlon(f([p[0] for p in g]), f([p[1] for p in g]),
                               zone, case['south']))
    check(b.shape == (len(a), 2), f'shape {b.shape} for {len(a)} points')
    for i, p in zip(ok, P):
        close(r[i, :2], O.utm(p[0], p[1], zone), 0, 1e-4,
              'site next to a missing one')
    for i, (e, n) in enumerate(g):
        if i in ok:
            la, lo = b[i]
            ee, en = O.utm(la, lo, zone)
            close(e, ee, 0, 1e-4, 'easting next to a missing one')
            close(n % 1e7, en % 1e7, 0, 1e-4, 'northing next to a missing one')
        else:
            check(not np.isfinite(r[i, :2]).any(),
                  f'coordinates {r[i]} for a missing site')
            check(not np.isfinite(b[i]).any(),
                  f'coordinates {b[i]} for a missing site')


def mismatch_case():
    return rec(pts=pts(1, 5), extra=ints(1, 3), side=pick(0, 1),
               kind=pick('list', 'tuple', 'array', 'series'), ix=index_spec('dup'))


def mismatch(case):
    P = case['pts']
    lat = [p[0] for p in P]
    lon = [p[1] for p in P]
    (lat if case['side'] else lon).extend([1.0] * case['extra'])
    f = lambda v: _pack(case['kind'], v, case['ix'])
    raises(ValueError, lambda: spatial.latlon2utm(f(lat), f(lon)),
           'latlon2utm with unequal lengths')
    raises(ValueError, lambda: spatial.utm2latlon(f(lat), f(lon), 33),
           'utm2latlon with unequal lengths')


SUBS = [
    Sub('forward', point, forward, 2400, 60000),
    Sub('inverse', inverse_case, inverse, 1200, 30000),
    Sub('containers', vector_case, vector, 1200, 25000),
    Sub('missing', missing_case, missing, 300, 6000),
    Sub('unequal lengths', mismatch_case, mismatch, 200, 2000),
    Sub('containers at scale', lambda: large(vector_case(), pts=rows(100, 600, (-83, 83), (-180, 180))),
        vector, 24, 400),
]
