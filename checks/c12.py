import math

import numpy as np
import pandas as pd
from hypothesis import strategies as st

from pbt.gen import (column, fl, index_spec, ints, large, make_index, pick,
                     rec, rows, seeds)
from pbt.harness import Sub, check, close, raises, arr
from pbt import oracles as O
from solarspatialtools import signalproc as sp

RULE = 'non-trivial: at least two distinct centers inside the domain'
ASSUMPTIONS = ['grid points within 1e-6 of a window edge are not compared '
               'unless all quantities are multiples of 1/4 (exact)',
               'the profile inside a triangle is not claimed, only its '
               'support; the Gaussian is compared to 1e-3 (documented as '
               'full width at half maximum)']


def plant_case():
    exact = ints(-200, 200).map(lambda k: k / 4)
    return rec(c=st.lists(st.one_of(exact, fl(-60, 60), ints(-50, 50)),
                          min_size=1, max_size=6),
               ref=st.one_of(st.none(), ints(-10, 10), exact, fl(-10, 10)),
               width=st.one_of(st.none(), pick(1, 2, 4, 0.5, 5.0, 10),
                               fl(.5, 30)),
               dx=pick(1, 0.5, 0.25, 2, 4.0), xmax=pick(100, 160, 200.0, 128),
               shape=pick('square', 'gaussian', 'triangle', 'SQUARE', None),
               form=pick('list', 'array', 'frame', 'int', 'tuple', 'series'))


def is_exact(*v):
    return all(float(x) * 8 == round(float(x) * 8) for x in v)


def square(x, centers, w, exact):
    """Union of the windows [c - w/2, c + w/2); and undecided points."""
    out = np.zeros(len(x), bool)
    und = np.zeros(len(x), bool)
    for c in centers:
        out |= (x >= c - w / 2) & (x < c + w / 2)
        und |= np.abs(x - (c - w / 2)) < 1e-6
        und |= np.abs(x - (c + w / 2)) < 1e-6
    return out, und & (not exact)


def plant(c):
    cen = [float(v) for v in c['c']]
    arg = cen
    if c['form'] == 'int':
        cen = [int(v) for v in cen]
        arg = cen
    elif c['form'] == 'array':
        arg = np.array(cen)
    elif c['form'] == 'tuple':
        arg = tuple(cen)
    elif c['form'] == 'series':
        arg = pd.Series(cen, [f's{i}' for i in range(len(cen))])
    elif c['form'] == 'frame':
        arg = pd.DataFrame({'dist': cen})
    kw = {'dx': c['dx'], 'xmax': c['xmax']}
    if c['ref'] is not None:
        kw['ref_center'] = c['ref']
    if c['width'] is not None:
        kw['width'] = c['width']
    if c['shape'] is not None:
        kw['shape'] = c['shape']
    p, x = sp.get_1d_plant(arg, **kw)
    p, x = arr(p), arr(x)
    dx = float(c['dx'])
    check(p.shape == x.shape and x.ndim == 1, f'shapes {p.shape}, {x.shape}')
    check(abs(x[0] + c['xmax'] / 2) <= 1e-9, f'domain starts at {x[0]}')
    check(c['xmax'] / 2 - dx - 1e-9 <= x[-1] < c['xmax'] / 2,
          f'domain ends at {x[-1]}')
    close(np.diff(x), np.full(len(x) - 1, dx), 1e-9, 0, 'grid spacing')
    r = c['ref'] or 0
    w = dx if c['width'] is None else float(c['width'])
    rel = [v - r for v in cen]
    shape = (c['shape'] or 'square').lower()
    if shape == 'gaussian':
        e = np.zeros(len(x))
        s = w / (2 * math.sqrt(2 * math.log(2)))
        for v in rel:
            e += np.exp(-(x - v) ** 2 / (2 * s * s))
        close(p, e, 0, 1e-3 * len(rel), 'gaussian plant density')
    else:
        ex = is_exact(r, w, *cen)
        e, und = square(x, rel, w, ex)
        if shape == 'square':
            close(p[~und], e[~und].astype(float), 0, 1e-12,
                  'square plant density')
        else:
            check(np.all(p[~und & ~e] == 0), 'triangle density outside of its '
                                             'support')
            inside = np.zeros(len(x), bool)
            for v in rel:
                inside |= (x > v - w / 2 + 1e-6) & (x < v + w / 2 - 1e-6)
            for v in rel:   # a window may start inside another one
                inside &= np.abs(x - (v - w / 2)) > 1e-6
            check(np.all(p[inside] > 0), 'triangle density vanishes inside '
                                         'its support')
    n_in = len({round(v, 6) for v in rel if abs(v) < c['xmax'] / 2})
    return [shape] + (['trivial'] if n_in < 2 else [])


def response(x, w, freq, v):
    return np.exp(-2j * np.pi * np.outer(freq, x) / v) @ (w / w.sum())


def cam_case():
    return rec(n=ints(8, 240), dx=pick(1, .5, 2, 10.), off=fl(0, 1),
               seed=seeds(), v=st.one_of(fl(.5, 40), fl(-40, -.5),
                                         pick(1, 5, -3)),
               kind=pick('sparse', 'dense', 'single'), grid=pick('c', 'any'))


def cam(c):
    r = np.random.default_rng(c['seed'])
    n, dx, v = c['n'], float(c['dx']), c['v']
    if c['grid'] == 'c':
        x = np.arange(-(n // 2), n - n // 2) * dx
    else:
        x = (np.arange(n) - round(c['off'] * n)) * dx + (
            c['off'] * dx if c['off'] > .5 else 0)
    w = np.zeros(n)
    if c['kind'] == 'dense':
        w = r.uniform(0, 1, n) + .01
    elif c['kind'] == 'single':
        w[r.integers(n)] = r.uniform(.1, 9)
    else:
        w[r.integers(0, n, 4)] = r.uniform(.1, 1, 4)
    H = sp.plant1d_to_camfilter(w.copy(), x.copy(), v)
    check(isinstance(H, pd.Series), f'filter is {type(H)}')
    f = arr(H.index)
    close(f, np.fft.fftfreq(n, dx / abs(v)), 1e-9, 1e-12, 'frequencies')
    z = H.values
    e = response(x, w, f, v)
    close(np.abs(z - e), 0 * f, 0, 1e-8 * (1 + np.abs(x).max() / dx) ** .5,
          'filter against the weighted travel-time delays')
    close(z[0], 1.0, 0, 1e-9, 'gain at zero frequency')
    m = (n - 1) // 2
    close(np.abs(z[1:m+1] - np.conj(z[-1:-m-1:-1])), np.zeros(m), 0, 1e-8,
          'conjugate symmetry')
    R = sp.plant1d_to_camfilter(w.copy(), x.copy(), -v)
    close(np.abs(R.values - np.conj(z)), 0 * f, 0, 1e-8,
          'filter of the reversed cloud')
    if c['kind'] == 'single':
        close(np.abs(z), np.ones(n), 1e-9, 0, 'magnitude of a pure delay')
    return [c['kind'], 'reversed' if v < 0 else 'forward'] + (
        ['trivial'] if c['kind'] == 'single' else [])


def filter_case():
    return rec(p=st.lists(st.tuples(fl(-70, 70), fl(-70, 70)), min_size=1,
                          max_size=6),
               lat=st.one_of(fl(-60, 60), fl(-5e-4, 5e-4)),
               zone=ints(1, 60),
               dlon=st.one_of(fl(-2.5, 2.5), fl(-3.0005, -2.9995),
                              fl(2.9995, 3.0005)),
               ref=ints(0, 5), v=st.one_of(fl(.5, 30), fl(-30, -.5)),
               ang=fl(-7, 7), scale=fl(.01, 50), dx=pick(1, 2, .5),
               xmax=pick(400, 500, 640), width=st.one_of(st.none(),
                                                         fl(1, 30)),
               shape=pick('square', 'gaussian', None), mode=pick('utm',
                                                                 'latlon'),
               t=st.tuples(fl(-1e5, 1e5), fl(-1e5, 1e5)), rot=fl(-4, 4),
               ix=index_spec(), extra=st.booleans(),
               twin=pick(0, 0, 0, 1, 3),
               away=st.one_of(st.none(), st.none(),
                              st.tuples(fl(-60, 60), fl(-60, 60))))


def filt(c):
    P = np.array(c['p'])
    P = np.concatenate([P, P[:1].repeat(c['twin'], 0)])   # same place
    n = len(P)
    ix = make_index(c['ix'], n)
    k = c['ref'] % n
    d = np.array([math.cos(c['ang']), math.sin(c['ang'])])
    away = np.array(c.get('away') or [0., 0.])   # reference not a site
    tags = [c['mode']]
    kw = {'dx': c['dx'], 'xmax': c['xmax']}
    if c['width'] is not None:
        kw['width'] = c['width']
    if c['shape'] is not None:
        kw['shape'] = c['shape']
    if c['mode'] == 'latlon':
        la = c['lat'] + P[:, 1] / 111e3
        lo = c['zone'] * 6 - 183 + c['dlon'] + P[:, 0] / 111e3 / math.cos(
            math.radians(c['lat']))
        lo = np.clip(lo, -180, 180)
        pos = pd.DataFrame({'lat': la, 'lon': lo}, index=ix)
        # one plane, that of the reference, also when the plant lies across
        # the border of its zone or across the equator
        rla = la[k] + away[1] / 111e3
        rlo = float(np.clip(lo[k] + away[0] / 111e3, -180, 180))
        z = min(int((rlo + 180) // 6) + 1, 60)
        XY = np.array([O.tm(a, b, 0., z * 6 - 183, .9996)
                       for a, b in zip(la, lo)])
        R0 = np.array(O.tm(rla, rlo, 0., z * 6 - 183, .9996))
        if min(int((q + 180) // 6) + 1 for q in lo) != max(
                int((q + 180) // 6) + 1 for q in lo):
            tags.append('several zones')
        if min(la) < 0 <= max(la):
            tags.append('several hemispheres')
    else:
        XY = P + np.array(c['t'])
        pos = pd.DataFrame(XY, index=ix, columns=['E', 'N'])
        R0 = XY[k] + away
    if c['extra']:
        pos['other'] = 1.0
    ref = pos.iloc[k]
    if c.get('away'):
        tags.append('reference elsewhere')
        ref = ref.copy()
        if c['mode'] == 'latlon':
            ref['lat'], ref['lon'] = rla, rlo
        else:
            ref['E'], ref['N'] = R0
    dist = (XY - R0) @ d
    w = float(c['dx'] if c['width'] is None else c['width'])
    x = np.arange(-c['xmax'] / 2, c['xmax'] / 2, c['dx'])
    if (c['shape'] or 'square') == 'square':
        s, und = square(x, dist, w, False)
        und = np.zeros(len(x), bool)
        for q in dist:
            und |= np.abs(np.abs(x - q) - w / 2) < 1e-4
        # the reference's own window starts at -w/2: exact when dist is 0
        und &= ~(np.abs(np.abs(x - 0.) - w / 2) < 1e-4) | und
        if np.any(und) or not s.any():
            return ['trivial']
        s = s.astype(float)
    else:
        sg = w / (2 * math.sqrt(2 * math.log(2)))
        s = np.exp(-(x[:, None] - dist) ** 2 / (2 * sg * sg)).sum(1)
        if s.sum() < 1e-3:
            return ['trivial']
    H = sp.get_camfilter(pos, c['v'], tuple(c['scale'] * d), ref, **kw)
    f = np.fft.fftfreq(len(x), c['dx'] / abs(c['v']))
    close(arr(H.index), f, 1e-9, 1e-12, 'frequencies')
    tol = 1e-6 if (c['shape'] or 'square') == 'square' else 3e-2
    sel = np.unique(np.concatenate([[0, 1, len(f) // 2],
                                    np.arange(0, len(f), 17)]))
    e = response(x, s, f[sel], c['v'])
    close(np.abs(H.values[sel] - e), 0 * sel, 0, tol,
          'camfilter against the projected positions')
    if c['mode'] == 'utm':
        # a rotated, translated plant with the wind rotated alike
        a = c['rot']
        R = np.array([[math.cos(a), -math.sin(a)], [math.sin(a),
                                                    math.cos(a)]])
        Q = P @ R.T + 1234.5
        pos2 = pd.DataFrame(Q, index=ix, columns=['E', 'N'])
        ref2 = pos2.iloc[k] + R @ away
        H2 = sp.get_camfilter(pos2, c['v'], tuple(R @ d), ref2, **kw)
        close(np.abs(H2.values - H.values), 0 * f, 0, 1e-6,
              'filter of the rotated plant')
    return tags + (['trivial'] if n < 2 else [])


def bad_case():
    return rec(s=pick('circle', '', 'squares', 'tri'), c=fl(-5, 5))


def bad(c):
    raises(ValueError, lambda: sp.get_1d_plant([c['c']], shape=c['s'],
                                               xmax=50), 'unknown shape')


SUBS = [
    Sub('plant', plant_case, plant, 1600, 40000),
    Sub('response', cam_case, cam, 1200, 30000),
    Sub('positions', filter_case, filt, 1000, 20000),
    Sub('unknown shape', bad_case, bad, 30, 100),
    Sub('plant at scale', lambda: large(plant_case(), c=column(20, 200, -400, 400), xmax=pick(1000, 2000, 3000.)),
        plant, 40, 600),
    Sub('response at scale', lambda: large(cam_case(), n=ints(500, 2500)),
        cam, 40, 600),
    Sub('positions at scale', lambda: large(filter_case(), p=rows(20, 150, (-70, 70), (-70, 70))),
        filt, 40, 500),
]
