import os
import shutil
import tempfile

import numpy as np
import pandas as pd
from hypothesis import strategies as st

from pbt.gen import fl, ints, large, pick, rec, seeds
from pbt.harness import Sub, check, close, same_index
from solarspatialtools.dataio import nrcan_data as nd

RULE = 'non-trivial: at least two sensors, or samples off the 10 ms grid'
ASSUMPTIONS = ['NRCAN layout: one <date>_<id>.csv per sensor with date, time '
               'of day and the columns G1 (W/m2) and G2 (W/m2); times of a '
               'sensor increase; the target file does not exist yet',
               'times outside the span of the first sensor (in name order) '
               'are not claimed']


def case():
    return rec(ns=ints(1, 4), n=ints(1, 25), seed=seeds(),
               day=ints(0, 2000), t0=ints(0, 86000_000),
               step=pick('even', 'even', 'gaps', 'odd'),
               pause=pick(0, 0, 0, 15, 70, 300),
               span=pick('same', 'same', 'own'), fmt=pick('ms', 'us'),
               site=pick('VAR', 'AFN', 'ALD', 'csv'),
               tail=pick('', '', 'v', 's', 'c', 'csv'),
               other=st.lists(pick('notes.txt', 'x.CSV', 'latlon_site.csv',
                                   '20140101_latlon.csv', 'a_b.csv.bak'),
                              max_size=3, unique=True),
               inside=pick(False, True), extra=pick(False, True),
               cols=pick('plain', 'more', 'swap'), ints=pick(False, True), blank=pick(0, 0, .2))


def times(r, c, n):
    """Offsets in microseconds from the start of the record."""
    k = c['step']
    if k == 'even':
        d = np.full(n - 1, 10_000)
    elif k == 'gaps':
        d = r.choice([10_000, 10_000, 10_000, 50_000, 120_000, 1_000_000],
                     n - 1)
    else:
        d = r.integers(1, 60, n - 1) * 1000
        if c['fmt'] == 'us':
            d = d + r.integers(0, 1000, n - 1)
    if c['pause'] and n > 1:
        d[int(r.integers(n - 1))] += c['pause'] * 1_000_000
    return np.concatenate([[0], np.cumsum(d)]).astype('int64')


def clock(us, fmt):
    s, f = divmod(int(us), 1_000_000)
    h, s = divmod(s, 3600)
    m, s = divmod(s, 60)
    return f'{h:02d}:{m:02d}:{s:02d}.' + (
        f'{f // 1000:03d}' if fmt == 'ms' else f'{f:06d}')


def oracle(c):
    r = np.random.default_rng(c['seed'])
    date = pd.Timestamp('2012-01-01') + pd.Timedelta(days=c['day'])
    nums = r.permutation(np.arange(1, 30))[:c['ns']]
    ids = [f"{c['site']}{k:02d}{c['tail']}" for k in nums]
    base = c['t0'] // 10 * 10_000
    if c['pause']:
        base = min(base, 85_000_000_000)
    if c['step'] == 'odd':
        base += int(r.integers(0, 10)) * 1000
    common = base + times(r, c, c['n'])
    sens = {}
    root = tempfile.mkdtemp(prefix='c33-')
    try:
        src = os.path.join(root, '20140717_site')
        os.makedirs(src)
        for i in r.permutation(len(ids)):
            t = common
            if c['span'] == 'own':
                off = int(r.integers(-20, 20)) * 10_000
                t = max(base + off, 0) + times(r, c, int(r.integers(
                    1, c['n'] + 8)))
            g1 = np.round(r.uniform(-3, 1300, len(t)), 2)
            g2 = np.round(r.uniform(-3, 1300, len(t)), 2)
            if c['ints']:
                g1, g2 = np.round(g1).astype(int), np.round(g2).astype(int)
            elif c.get('blank'):    # samples without a value
                for g in (g1, g2):
                    g[r.random(len(t)) < c['blank']] = np.nan
            df = pd.DataFrame({'Date': date.strftime('%Y-%m-%d'),
                               'Time': [clock(x, c['fmt']) for x in t]})
            if c['cols'] == 'more':
                df['T (C)'] = 20.0
            if c['cols'] == 'swap':
                df['G2 (W/m2)'] = g2
            df['G1 (W/m2)'] = g1
            df['G2 (W/m2)'] = g2
            df.to_csv(os.path.join(
                src, f"{date.strftime('%Y%m%d')}_{ids[i]}.csv"), index=False)
            sens[ids[i]] = (t, g1, g2)
        lat = np.round(r.uniform(-80, 80, len(ids)), 6)
        lon = np.round(r.uniform(-170, 170, len(ids)), 6)
        ll = pd.DataFrame({'Site': ids, 'Latitude': lat, 'Longitude': lon})
        for o in c['other']:
            with open(os.path.join(src, o), 'w') as fh:
                fh.write('Site,Latitude,Longitude\nX,1,2\n')
        llf = os.path.join(src if c['inside'] else root, 'latlon_x.csv')
        ll.to_csv(llf, index=False)
        tgt = os.path.join(root, 'out.h5')
        before = {f: open(os.path.join(src, f), 'rb').read()
                  for f in os.listdir(src)}
        nd.process_files(src, llf, tgt)
        after = {f: open(os.path.join(src, f), 'rb').read()
                 for f in os.listdir(src)}
        check(before == after, 'the source directory changed')
        with pd.HDFStore(tgt, 'r') as h:
            keys = {k.strip('/') for k in h.keys()}
        check(keys == {'data', 'data_tilt', 'latlon'}, f'keys {keys}')
        got = {'data': pd.read_hdf(tgt, key='data'),
               'data_tilt': pd.read_hdf(tgt, key='data_tilt')}
        L = pd.read_hdf(tgt, key='latlon')
    finally:
        shutil.rmtree(root)

    check(sorted(L.index) == sorted(ids), f'latlon ids {list(L.index)}')
    close(L.loc[ids, 'lat'], lat, 1e-12, 0, 'lat')
    close(L.loc[ids, 'lon'], lon, 1e-12, 0, 'lon')
    first = sorted(ids)[0]
    G = 10_000
    for kk, (key, df) in enumerate(got.items()):
        check(sorted(df.columns) == sorted(ids),
              f'{key}: sensors {list(df.columns)}, files for {sorted(ids)}')
        ix = df.index
        check(isinstance(ix, pd.DatetimeIndex) and ix.tz is not None,
              f'{key}: no time zone')
        check(ix[0].utcoffset() == pd.Timedelta(hours=-5),
              f'{key}: UTC offset {ix[0].utcoffset()}')
        loc = ix.tz_localize(None)
        ns = loc.as_unit('ns').asi8 - date.as_unit('ns').value
        us = ns // 1000
        check((ns % 1000 == 0).all(), f'{key}: off the grid')
        check((us % G == 0).all() and (np.diff(us) == G).all(),
              f'{key}: not an even 10 ms grid')
        t1 = sens[first][0]
        check(us[0] <= t1[0] // G * G and us[-1] >= t1[-1] // G * G,
              f'{key}: the span of {first} is not covered')
        sel = (us >= t1[0] // G * G) & (us <= t1[-1] // G * G)
        for s in ids:
            t, g = sens[s][0], sens[s][1 + kk]
            k = np.searchsorted(t, us, side='right') - 1
            e = np.where(k >= 0, g[np.maximum(k, 0)], np.nan).astype(float)
            e[us > t[-1] // G * G] = np.nan
            m = sel if s != first else np.ones(len(us), bool)
            # a sensor is only claimed within its own record
            m = m & (us <= t[-1] // G * G)
            close(df[s].to_numpy(float)[m], e[m], 1e-12, 0,
                  f'{key} of {s}')
    return [c['step'], c['span']] + (
        ['trivial'] if c['ns'] == 1 and c['step'] == 'even' else [])


def again_case():
    return rec(ns=ints(1, 3), n=ints(2, 12), seed=seeds(), day=ints(0, 2000),
               hist=st.lists(pick('same', 'values', 'place', 'day', 'drop',
                                  'more'), min_size=1, max_size=4))


def again(c):
    """A directory is processed repeatedly, each time into a new file, while
    its contents are exchanged: every output belongs to the present files."""
    r = np.random.default_rng(c['seed'])
    root = tempfile.mkdtemp(prefix='c33-')
    state = {'day': c['day'], 'n': c['n']}
    ids = [f'AFN{k:02d}' for k in range(1, c['ns'] + 1)]
    vals, place = {}, {}

    def new_vals():
        for s in ids:
            vals[s] = np.round(r.uniform(0, 1300, (state['n'], 2)), 2)

    def new_place():
        for s in ids:
            place[s] = np.round(r.uniform(-80, 80, 2), 5)
    new_vals()
    new_place()
    src, llf = os.path.join(root, 'src'), os.path.join(root, 'll.csv')
    try:
        os.makedirs(src)
        for k, what in enumerate(['first'] + c['hist']):
            if what == 'values':
                new_vals()
            elif what == 'place':
                new_place()
            elif what == 'day':
                state['day'] += 1
            elif what == 'drop' and len(ids) > 1:
                ids.pop(0)
            elif what == 'more':
                state['n'] += 3
                new_vals()
            date = pd.Timestamp('2012-01-01') + pd.Timedelta(
                days=state['day'])
            t = [clock(36_000_000_000 + 10_000 * i, 'ms')
                 for i in range(state['n'])]
            shutil.rmtree(src)
            os.makedirs(src)
            for s in ids:
                # the file names stay, whatever is inside
                pd.DataFrame({'Date': date.strftime('%Y-%m-%d'), 'Time': t,
                              'G1 (W/m2)': vals[s][:, 0],
                              'G2 (W/m2)': vals[s][:, 1]}).to_csv(
                    os.path.join(src, f'20120101_{s}.csv'), index=False)
            pd.DataFrame({'Site': ids, 'Latitude': [place[s][0] for s in ids],
                          'Longitude': [place[s][1] for s in ids]}).to_csv(
                llf, index=False)
            tgt = os.path.join(root, f'out{k}.h5')
            nd.process_files(src, llf, tgt)
            w = f'run {k} ({what})'
            L = pd.read_hdf(tgt, key='latlon')
            check(sorted(L.index) == ids, f'{w}: latlon ids {list(L.index)}')
            for i, key in enumerate(('data', 'data_tilt')):
                df = pd.read_hdf(tgt, key=key)
                check(sorted(df.columns) == ids and len(df) == state['n'],
                      f'{w}: {key} is {df.shape} of {list(df.columns)}')
                check(df.index[0].tz_localize(None) == date
                      + pd.Timedelta(hours=10), f'{w}: starts {df.index[0]}')
                for s in ids:
                    close(df[s].to_numpy(float), vals[s][:, i], 1e-12, 0,
                          f'{w}: {key} of {s}')
            for s in ids:
                close(L.loc[s, ['lat', 'lon']].to_numpy(float), place[s],
                      1e-12, 0, f'{w}: place of {s}')
    finally:
        shutil.rmtree(root)
    return [] if set(c['hist']) - {'same'} else ['trivial']


SUBS = [Sub('process', case, oracle, 240, 6000),
        Sub('renewed files', again_case, again, 60, 1500),
        Sub('process at scale', lambda: large(
            case(), n=ints(500, 4000), ns=ints(1, 3), t0=ints(0, 80000_000)),
            oracle, 8, 120)]
