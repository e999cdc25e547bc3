import math

import numpy as np
import pandas as pd
from hypothesis import strategies as st

from pbt.gen import (fl, index_spec, ints, large, make_index, pick, rec,
                     rows)
from pbt.harness import Sub, check, close, same_index, arr
from solarspatialtools import spatial

RULE = 'non-trivial: the vectors are longer than 1e-6'
ASSUMPTIONS = ['components between 1e-6 and 1e7 in magnitude, or zero']

COMP = st.one_of(fl(-100, 100), fl(-1e7, 1e7), ints(-50, 50),
                 pick(0, 0.0)).map(lambda x: x * 0 if abs(x) < 1e-6 else x)
VEC = st.tuples(COMP, COMP)
DIRV = VEC.filter(lambda v: math.hypot(*v) > 1e-6)
ANG = st.one_of(fl(-10, 10), pick(0.0, math.pi, -math.pi, math.pi / 2))


def mk(kind, v, labels=('x', 'y')):
    return {'tuple': lambda: tuple(v), 'list': lambda: list(v),
            'array': lambda: np.array(v, float),
            'series': lambda: pd.Series([float(x) for x in v],
                                        index=list(labels))}[kind]()


def basic_case():
    return rec(a=DIRV, b=VEC, ka=pick('array', 'series'),
               kb=pick('tuple', 'list', 'array'))


def basic(case):
    (ax, ay), (bx, by) = case['a'], case['b']
    sc = (abs(ax) + abs(ay)) * (abs(bx) + abs(by)) + 1e-30
    kb = case['kb']
    close(spatial.dot(mk(kb, case['a']), mk(kb, case['b'])), ax*bx + ay*by,
          0, 1e-12 * sc, 'dot')
    for k in (kb, case['ka']):
        close(spatial.magnitude(mk(k, case['a'])), math.hypot(ax, ay), 1e-12,
              0, 'magnitude')
    u = spatial.unit(mk(case['ka'], case['a']))
    check(type(u) is type(mk(case['ka'], case['a'])), f'unit gives {type(u)}')
    if case['ka'] == 'series':
        same_index(u.index, ['x', 'y'], 'index of unit vector')
    m = math.hypot(ax, ay)
    close(arr(u), [ax / m, ay / m], 1e-12, 1e-15, 'unit vector')
    # polar conversion, scalars
    r, t = spatial.rect2pol(ax, ay)
    close(r, m, 1e-12, 0, 'radius')
    check(-math.pi <= t <= math.pi, f'angle {t} outside [-pi, pi]')
    close([m * math.cos(t), m * math.sin(t)], [ax, ay], 0, 1e-12 * m,
          'direction of the polar angle')
    close(list(spatial.pol2rect(r, t)), [ax, ay], 0, 1e-12 * m,
          'polar round trip')
    return [case['ka'], kb]


def polar_case():
    return rec(p=st.lists(VEC, min_size=1, max_size=6), seed=ints(0, 10**6),
               series=st.booleans(), ix=index_spec('dup'),
               rt=st.lists(st.tuples(fl(1e-3, 1e4), ANG), min_size=1,
                           max_size=6))


def polar(case):
    x = np.array([p[0] for p in case['p']], float)
    y = np.array([p[1] for p in case['p']], float)
    if case['series']:
        ix = make_index(case['ix'], len(x))
        r, t = spatial.rect2pol(pd.Series(x, ix), pd.Series(y, ix))
    else:
        r, t = spatial.rect2pol(x, y)
    r, t = arr(r), arr(t)
    # numpy 2-point Series are ambiguous for magnitude([x, y]); only values
    close(r, np.hypot(x, y), 1e-12, 0, 'radii')
    check(np.all(np.abs(t) <= np.pi), 'angle outside [-pi, pi]')
    m = np.hypot(x, y)
    bx, by = spatial.pol2rect(r, t)
    close(bx, x, 0, 1e-12 * (m + 1e-30), 'x after polar round trip')
    close(by, y, 0, 1e-12 * (m + 1e-30), 'y after polar round trip')
    rr = np.array([p[0] for p in case['rt']])
    tt = np.array([p[1] for p in case['rt']])
    r2, t2 = spatial.rect2pol(*spatial.pol2rect(rr, tt))
    close(r2, rr, 1e-11, 0, 'radius after rectangular round trip')
    d = (np.asarray(t2) - tt) / (2 * np.pi)
    close((d - np.round(d)), 0 * d, 0, 1e-11,
          'angle (modulo 2 pi) after rectangular round trip')
    return ['trivial'] if np.all(m < 1e-6) else []


def rot_case():
    return rec(p=st.lists(VEC, min_size=1, max_size=6), a=ANG, b=ANG,
               kind=pick('tuple', 'list', 'array'), many=st.booleans())


def rot(case):
    P = np.array(case['p'], float)
    if case['many']:
        v = {'tuple': lambda: (tuple(P[:, 0]), tuple(P[:, 1])),
             'list': lambda: [list(P[:, 0]), list(P[:, 1])],
             'array': lambda: P.T.copy()}[case['kind']]()
        X, Y = P[:, 0], P[:, 1]
    else:
        v = mk(case['kind'], P[0])
        X, Y = P[0]
    m = np.hypot(X, Y)
    tol = 1e-11 * (m + 1e-30)

    def expect(r, ang, what):
        if case['kind'] == 'array':
            check(isinstance(r, np.ndarray), f'{what} gives {type(r)}')
        else:
            check(isinstance(r, tuple), f'{what} gives {type(r)}')
        c, s = math.cos(ang), math.sin(ang)
        close(r[0], c * X - s * Y, 0, tol, what + ' (x)')
        close(r[1], s * X + c * Y, 0, tol, what + ' (y)')
        close(np.hypot(r[0], r[1]), m, 1e-11, 1e-12, what + ' (length)')
    r = spatial.rotate_vector(v, case['a'])
    expect(r, case['a'], 'rotation')
    expect(spatial.rotate_vector(r, case['b']), case['a'] + case['b'],
           'two successive rotations')
    return [case['kind']] + (['trivial'] if np.all(m < 1e-6) else [])


def proj_case():
    return rec(p=st.lists(VEC, min_size=1, max_size=6), d=DIRV,
               s=st.one_of(fl(1e-3, 1e3), pick(1, 2)),
               kd=pick('tuple', 'array', 'list'),
               kv=pick('array', 'list', 'frame', 'tuple'), ix=index_spec('dup'),
               cols=pick(('dx', 'dy'), ('a', 'b'), (1, 0)))


def proj(case):
    P = np.array(case['p'], float)
    kv = case['kv']
    if kv == 'frame':
        v = pd.DataFrame(P, index=make_index(case['ix'], len(P)),
                         columns=list(case['cols']))
    else:
        v = {'array': lambda: P.copy(), 'list': lambda: P.tolist(),
             'tuple': lambda: tuple(map(tuple, P))}[kv]()
    ux, uy = np.array(case['d'], float) / math.hypot(*case['d'])
    exp = P[:, 0] * ux + P[:, 1] * uy
    tol = 1e-12 * (np.hypot(P[:, 0], P[:, 1]) + 1e-30)
    # a list direction is accepted by numpy division with the magnitude
    kd = case['kd']
    lab = ('E', 'N')
    for sign, scale in ((1, 1), (1, case['s']), (-1, case['s'])):
        d = [sign * scale * c for c in case['d']]
        r = spatial.project_vectors(v, mk(kd, d, lab))
        if kv == 'frame':
            check(isinstance(r, pd.DataFrame), 'projection of a DataFrame is '
                                               f'{type(r)}')
            check(list(r.columns) == ['dist'], f'columns {list(r.columns)}')
            same_index(r.index, v.index, 'index of the projection')
            r = r['dist']
        close(arr(r), sign * exp, 0, tol, 'projection')
    return [kv, kd] + (['trivial'] if np.abs(P).max() < 1e-6 else [])


def vecs_case():
    return rec(p=st.lists(VEC, min_size=1, max_size=6), ref=VEC,
               extra=st.lists(COMP, min_size=0, max_size=2),
               kind=pick('list', 'tuple', 'array', 'series'),
               kr=pick('tuple', 'list', 'array', 'series', 'row'),
               num=pick('float', 'asis', 'intref', 'intpos', 'int', 'intx',
                        'inty', 'intx-ref', 'inty-ref'),
               ix=index_spec('dup'))


def vecs(case):
    P = np.array(case['p'], float)
    num = case['num']
    if num in ('intpos', 'int'):
        P = np.round(P).astype(int)
    elif num == 'asis':
        P = np.array(case['p'])
    ix = make_index(case['ix'], len(P))
    f = {'list': list, 'tuple': tuple, 'array': np.array,
         'series': lambda v: pd.Series(list(v), index=ix)}[case['kind']]
    rv = list(case['ref']) + list(case['extra'])
    if num in ('intref', 'int', 'intx-ref', 'inty-ref'):
        rv = [int(round(c)) for c in rv]
    elif num != 'asis':
        rv = [float(c) for c in rv]
    kr = case['kr']
    if kr == 'series':
        ref = pd.Series(rv, index=list('ENzq')[:len(rv)])
    elif kr == 'row':
        ref = pd.DataFrame([rv], columns=list('ENzq')[:len(rv)]).iloc[0]
    else:
        ref = {'tuple': tuple, 'list': list, 'array': np.array}[kr](rv)
    x, y = P[:, 0], P[:, 1]
    if num.startswith('intx'):      # one integer coordinate
        x = np.round(x).astype(int)
    elif num.startswith('inty'):
        y = np.round(y).astype(int)
    P = np.array([x, y], float).T
    r = spatial.compute_vectors(f(x), f(y), ref)
    if case['kind'] == 'series':
        check(isinstance(r, pd.DataFrame), f'vectors are {type(r)}')
        check(list(r.columns) == ['dx', 'dy'], f'columns {list(r.columns)}')
        same_index(r.index, ix, 'index of vectors')
    close(arr(r), P.astype(float) - np.array(rv[:2], float), 1e-12, 1e-9,
          f'reference to site vectors ({num})')
    return [case['kind'], kr] + (['trivial'] if len(P) < 2 else [])


SUBS = [
    Sub('scalar algebra', basic_case, basic, 1500, 40000),
    Sub('polar', polar_case, polar, 1000, 25000),
    Sub('rotation', rot_case, rot, 1200, 30000),
    Sub('projection', proj_case, proj, 1200, 30000),
    Sub('vectors', vecs_case, vecs, 1200, 30000),
    Sub('polar at scale', lambda: large(polar_case(), p=rows(100, 900, (-100, 100), (-1e4, 1e4))),
        polar, 24, 400),
    Sub('rotation at scale', lambda: large(rot_case(), p=rows(100, 900, (-100, 100), (-1e4, 1e4))),
        rot, 24, 400),
    Sub('projection at scale', lambda: large(proj_case(), p=rows(100, 900, (-100, 100), (-1e4, 1e4))),
        proj, 24, 400),
    Sub('vectors at scale', lambda: large(vecs_case(), p=rows(100, 900, (-100, 100), (-1e4, 1e4))),
        vecs, 24, 400),
]
