import math

import numpy as np
import pandas as pd
from hypothesis import strategies as st

from pbt.gen import (TZS, fl, index_spec, ints, large, make_index,
                     pick, rec, rows, whole)
from pbt.harness import Sub, check, close, arr
from solarspatialtools import spatial

RULE = 'non-trivial: more than one site or time, and a moving cloud field'
ASSUMPTIONS = ['distances up to 1e6 m, up to 5 sites and 6 times']


def case():
    return rec(sites=st.lists(st.tuples(fl(-1e4, 1e4), fl(-1e4, 1e4)),
                              min_size=1, max_size=5),
               times=st.lists(st.one_of(ints(1, 20).map(float),
                                        pick(.5, .01, 600., 3600., 90000.)),
                              min_size=0, max_size=5),
               start=ints(0, 10**8), tz=pick(*TZS),
               cs=st.one_of(fl(0.1, 40), fl(-20, -.1), pick(0, 5, 0.0)),
               cd=st.one_of(fl(-7, 7), pick(0, math.pi, math.pi / 2)),
               kind=pick('list', 'array', 'series'), ix=index_spec('dup'),
               conn=ints(0, 4), whole=whole(),
               unit=pick('ns', 'us', 'ms'),
               clock=pick(None, None, *range(len(CLOCK))), at=fl(0, 1),
               order=pick(None, None, None, 1, 2, 3))


# changes of the clock (UTC)
CLOCK = [('Europe/Berlin', '2020-03-29 01:00'),
         ('Europe/Berlin', '2020-10-25 01:00'),
         ('America/New_York', '2021-03-14 07:00'),
         ('America/New_York', '2021-11-07 06:00'),
         ('Australia/Lord_Howe', '2019-04-06 15:00')]


def oracle(c):
    S = [list(map(float, s)) for s in c['sites']]
    off = np.concatenate([[0.], np.cumsum(c['times'])])
    if c.get('order'):      # times in any order, some of them repeated
        r = np.random.default_rng(c['order'])
        off = r.choice(off, len(off), replace=c['order'] == 2)
    ns, nt = len(S), len(off)
    cs, cd = c['cs'], c['cd']
    # connect the last site to the first: displaced by a whole time step
    connected = None
    if ns > 1 and nt > 1:
        k = 1 + c['conn'] % (nt - 1)
        S[-1] = [S[0][0] + cs * (off[k] - off[0]) * math.cos(cd),
                 S[0][1] + cs * (off[k] - off[0]) * math.sin(cd)]
        connected = ((0, 0), (ns - 1, k))
    t0 = pd.Timestamp('2010-01-01') + pd.Timedelta(seconds=c['start'])
    times = pd.DatetimeIndex([t0 + pd.Timedelta(milliseconds=int(round(o * 1e3)))
                              for o in off], tz=c['tz'])
    if c['clock'] is not None and nt > 1:
        tz, t = CLOCK[c['clock']]
        t0 = pd.Timestamp(t) - pd.Timedelta(
            milliseconds=int(c['at'] * max(off) * 1e3))
        times = pd.DatetimeIndex(
            [t0 + pd.Timedelta(milliseconds=int(round(o * 1e3)))
             for o in off], tz='UTC').tz_convert(tz)
    times = times.as_unit(c['unit'])
    if c['whole']:
        S = [[round(s[0]), round(s[1])] for s in S]
        connected = None
    X, Y = [s[0] for s in S], [s[1] for s in S]
    if c['kind'] == 'array':
        X, Y = np.array(X), np.array(Y)
    elif c['kind'] == 'series':
        ix = make_index(c['ix'], ns)
        X, Y = pd.Series(X, ix), pd.Series(Y, ix)
    D = arr(spatial.spacetime_distances(X, Y, times, cs, cd))
    n = ns * nt
    check(D.shape == (n, n), f'shape {D.shape}, expected {(n, n)}')
    exp = np.zeros((n, n))
    for i in range(ns):
        for s in range(nt):
            for j in range(ns):
                for t in range(nt):
                    dt = off[t] - off[s]
                    exp[i * nt + s, j * nt + t] = math.hypot(
                        S[j][0] - S[i][0] - cs * dt * math.cos(cd),
                        S[j][1] - S[i][1] - cs * dt * math.sin(cd))
    sc = 1e-11 * (max(map(abs, sum(S, []))) + abs(cs) * max(off) + 1)
    close(D, exp, 0, sc, 'space-time distance')
    close(D, D.T, 0, sc, 'symmetry')
    check(np.all(np.diag(D) == 0), 'diagonal is not zero')
    if connected:
        (i, s), (j, t) = connected
        check(D[i * nt + s, j * nt + t] <= sc,
              'points connected by the cloud field are not at distance zero')
    for a in range(n):
        check(np.all(D <= D[:, a:a+1] + D[a:a+1, :] + 4 * sc),
              'triangle inequality')
    return [c['kind']] + (['trivial'] if n == 1 or cs == 0 else [])


SUBS = [Sub('distances', case, oracle, 1500, 40000),
    Sub('distances at scale', lambda: large(case(), sites=rows(6, 26, (-1e4, 1e4), (-1e4, 1e4)), times=lambda r: r.integers(1, 900, int(r.integers(5, 26))).astype(float).tolist()),
        oracle, 24, 300),
]
