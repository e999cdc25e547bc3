import contextlib
import io
import os
import shutil
import tempfile

import netCDF4
import numpy as np
import pandas as pd
from hypothesis import strategies as st

from pbt.gen import ints, large, pick, rec, seeds
from pbt.harness import Sub, check, close, raises, same_index, Violation
from solarspatialtools.dataio import hope_campaign as hc

RULE = ('non-trivial: at least two stations and, for a conversion, two files '
        'or two conversions')
ASSUMPTIONS = ['HOPE layout: variables station_id, lat, lon, time (unix '
               'seconds), rsds and rsds_flag (time x station), the same '
               'stations in all files of a directory']


def write_nc(path, r, n, ids, lat, lon, t0, dt, spec):
    if spec['tt'] != 'f8':
        dt = max(1, dt)
    t = t0 + dt * np.arange(n)
    if spec.get('rep'):     # some samples share a time stamp
        t = np.sort(r.choice(t, n))
    X = np.round(r.uniform(-5, 1300, (n, len(ids))), 2).astype(spec['f'])
    X[r.random(X.shape) < .1] = -999
    if spec.get('gap'):     # one longer outage of every station
        for j in range(len(ids)):
            i = int(r.integers(0, n))
            X[i:i + spec['gap'], j] = -999
    ft = spec.get('ft', 'i1')
    F = r.integers(1, 5, X.shape).astype(ft)
    if ft != 'i1':          # more kinds of flags
        F[r.random(X.shape) < .3] = 200
    ds = netCDF4.Dataset(path, 'w')
    ds.createDimension('time', None if spec['unlim'] else n)
    ds.createDimension('station', len(ids))
    v = ds.createVariable('station_id', spec['idt'], ('station',))
    v[:] = ids
    for nm, z in (('lat', lat), ('lon', lon)):
        ds.createVariable(nm, spec['f'], ('station',))[:] = z
    v = ds.createVariable('time', spec['tt'], ('time',))
    v.units = 'seconds since 1970-01-01 00:00:00 UTC'
    v[:] = t
    if spec.get('pack'):    # whole numbers with a scale, as CF allows
        R = np.rint(np.asarray(X, float) * 10).astype('i4')
        v = ds.createVariable('rsds', 'i4', ('time', 'station'))
        v.set_auto_maskandscale(False)
        v.scale_factor, v[:] = .1, R
        X = R * .1
    else:
        v = ds.createVariable('rsds', spec['f'], ('time', 'station'),
                              fill_value=-999)
        v[:] = X
    v.units = 'W m-2'
    ds.createVariable('rsds_flag', ft, ('time', 'station'),
                      fill_value=4 if spec['ffill'] else None)[:] = F
    ds.close()
    return t, X, F


def station_set(r, ns, spec):
    ids = r.permutation(np.arange(1, 120))[:ns]
    if spec['sorted']:
        ids = np.sort(ids)
    lat = r.uniform(-60, 60, ns).astype(spec['f'])
    lon = r.uniform(-180, 180, ns).astype(spec['f'])
    return ids, lat, lon


def spec():
    return rec(f=pick('f4', 'f8'), idt=pick('i4', 'i2', 'i8'),
               tt=pick('i4', 'f8', 'i8'), unlim=pick(True, False),
               sorted=pick(False, True), ffill=pick(False, True),
               ns=ints(1, 12), seed=seeds(), dt=pick(1, 10, 60, .5, .25), rep=pick(False, False, True),
               pack=pick(False, False, True), ft=pick('i1', 'i1', 'i4', 'i2'))


def cmp_table(df, t, X, ids, what):
    check(isinstance(df, pd.DataFrame), f'{what}: {type(df).__name__}')
    check(df.shape == X.shape, f'{what}: shape {df.shape}, expected {X.shape}')
    same_index([int(i) for i in df.columns], [int(i) for i in ids],
               f'{what}: station ids')
    check(isinstance(df.index, pd.DatetimeIndex) and df.index.tz is not None,
          f'{what}: time index has no time zone')
    check(all(o.total_seconds() == 0 for o in
              {x.utcoffset() for x in df.index[:3]}), f'{what}: not UTC')
    exp = pd.to_datetime(np.round(np.asarray(t, float) * 1000).astype('int64'),
                         unit='ms', utc=True)
    same_index(df.index.tz_convert('UTC'), exp, f'{what}: time stamps')
    close(df.to_numpy(), X, 1e-13, 0, what)


def cmp_latlon(df, ids, lat, lon, what):
    check({'lat', 'lon'} <= set(df.columns), f'{what}: {list(df.columns)}')
    check(len(df) == len(ids), f'{what}: {len(df)} stations')
    same_index([int(i) for i in df.index], [int(i) for i in ids],
               f'{what}: ids')
    close(df['lat'], lat, 0, 0, f'{what}: lat')
    close(df['lon'], lon, 0, 0, f'{what}: lon')


def parse_case():
    return rec(s=spec(), n=ints(1, 40), t0=ints(1_300_000_000, 1_500_000_000),
               again=ints(0, 2))


def open_files(d):
    """Files below directory d which this process holds open."""
    out = []
    d = os.path.realpath(d)
    for f in os.listdir('/proc/self/fd'):
        with contextlib.suppress(OSError):
            x = os.readlink('/proc/self/fd/' + f)
            if x.startswith(d + os.sep):
                out.append(os.path.basename(x))
    return out


def parse_oracle(c):
    s = c['s']
    r = np.random.default_rng(s['seed'])
    ids, lat, lon = station_set(r, s['ns'], s)
    with tempfile.TemporaryDirectory(prefix='c32-') as d:
        fn = os.path.join(d, 'a.nc')
        t, X, F = write_nc(fn, r, c['n'], ids, lat, lon, c['t0'], s['dt'], s)
        b0 = open(fn, 'rb').read()
        data, flag, sd = hc.parse_file(fn)
        cmp_table(data, t, X, ids, 'irradiance')
        cmp_table(flag, t, F, ids, 'flags')
        cmp_latlon(sd, ids, lat, lon, 'stations')
        with open(fn, 'rb') as fh:
            check(fh.read() == b0, 'the file was modified')
        check(not open_files(d), f'files are still open: {open_files(d)}')
        if c.get('again'):      # another file under the same name
            os.remove(fn)
            m = 1 + (c['n'] + c['again']) % 9
            ids2, lat2, lon2 = station_set(r, 1 + s['ns'] % 12, s)
            t2, X2, F2 = write_nc(fn, r, m, ids2, lat2, lon2, c['t0'] + 10,
                                  s['dt'], s)
            d2, f2, sd2 = hc.parse_file(fn)
            cmp_table(d2, t2, X2, ids2, 'irradiance of the replaced file')
            cmp_table(f2, t2, F2, ids2, 'flags of the replaced file')
            cmp_latlon(sd2, ids2, lat2, lon2, 'stations of the replaced file')
            cmp_table(data, t, X, ids, 'irradiance parsed before')
        # per station id, values and places belong together
        i = int(r.integers(0, len(ids)))
        close(data[ids[i]], X[:, i], 0, 0, f'station {ids[i]}')
        close(sd.loc[ids[i]], [lat[i], lon[i]], 0, 0, f'place {ids[i]}')
    return [] if s['ns'] > 1 else ['trivial']


def conv_case():
    return rec(s=spec(), nf=ints(1, 4), sizes=st.lists(
        ints(1, 25), min_size=4, max_size=4), names=seeds(),
        other=st.lists(pick('x.txt', 'y.NC', 'z.nc.bak', 'nc', 'a.xml',
                            '0.nc4'), max_size=3, unique=True),
        hist=st.lists(pick('conv', 'over', 'over', 'addfile', 'replace'),
                             max_size=4),
        pre=pick('none', 'none', 'junk', 'h5'),
        verbose=pick(False, False, True, 'default'),
        first=pick(None, False, True), inside=pick(False, True))


def conv_oracle(c):
    s = c['s']
    r = np.random.default_rng(s['seed'])
    ids, lat, lon = station_set(r, s['ns'], s)
    rn = np.random.default_rng(c['names'])
    # time order need not be name order
    fm = {0: 'd{:03d}', 1: 'd{}', 2: 'hope_{}_trop00'}[int(rn.integers(0, 3))]
    stems = [fm.format(int(k)) for k in rn.permutation(500)[:c['nf'] + 3]]
    contents = {}
    root = tempfile.mkdtemp(prefix='c32-')
    try:
        d = os.path.join(root, 'src')
        os.makedirs(d)
        cursor = [1_370_000_000]

        def add(i):
            n = c['sizes'][i % 4]
            contents[stems[i] + '.nc'] = write_nc(
                os.path.join(d, stems[i] + '.nc'), r, n, ids,
                lat, lon, cursor[0], s['dt'], s)
            cursor[0] += int(n * s['dt'] + rn.integers(0, 1000))
        for i in range(c['nf']):
            add(i)
        nfiles = c['nf']
        for o in c['other']:
            with open(os.path.join(d, o), 'w') as fh:
                fh.write('other')
        tgt = os.path.join(d if c['inside'] else root, 'out.h5')
        have = False
        if c['pre'] == 'junk':
            with open(tgt, 'wb') as fh:
                fh.write(b'precious')
            have = True
        elif c['pre'] == 'h5':
            pd.DataFrame({1: [1., 2.]}).to_hdf(tgt, key='data', mode='w',
                                               format='table')
            have = True

        def convert(over):
            with contextlib.redirect_stdout(io.StringIO()) as out:
                loud = c.get('verbose', False)
                if loud == 'default':
                    hc.dataset_to_h5(d, tgt, **(
                        {} if over is None else {'overwrite': over}))
                elif over is None:
                    hc.dataset_to_h5(d, tgt, verbose=loud)
                else:
                    hc.dataset_to_h5(d, tgt, over, loud)
            check(loud or out.getvalue() == '',
                  'prints although not verbose')
            check(not loud or out.getvalue(), 'verbose prints nothing')

        def verify(what):
            names = sorted(contents)
            t = np.concatenate([contents[k][0] for k in names])
            X = np.concatenate([contents[k][1] for k in names])
            F = np.concatenate([contents[k][2] for k in names])
            with pd.HDFStore(tgt, 'r') as h:
                keys = {k.strip('/') for k in h.keys()}
            check(keys == {'latlon', 'data', 'flag'}, f'{what}: keys {keys}')
            cmp_table(pd.read_hdf(tgt, key='data'), t, X, ids,
                      f'{what}: data')
            cmp_table(pd.read_hdf(tgt, key='flag'), t, F, ids,
                      f'{what}: flag')
            cmp_latlon(pd.read_hdf(tgt, key='latlon'), ids, lat, lon,
                       f'{what}: latlon')

        steps = [('first', c['first'])]
        for hname in c['hist']:
            steps.append((hname, {'conv': False, 'over': True,
                                  'addfile': None, 'replace': None}[hname]))
        nconv = 0
        for k, (nm, over) in enumerate(steps):
            if nm == 'addfile':
                if nfiles < len(stems):
                    add(nfiles)
                    nfiles += 1
                continue
            if nm == 'replace':     # one of the files gets new contents
                i = k % len(contents)
                os.remove(os.path.join(d, sorted(contents)[i]))
                j = stems.index(sorted(contents)[i][:-3])
                add(j)
                continue
            w = f'step {k} ({nm}, overwrite={over})'
            if have and not over:
                b0 = open(tgt, 'rb').read()
                raises(ValueError, lambda: convert(over), w)
                check(os.path.exists(tgt) and open(tgt, 'rb').read() == b0,
                      f'{w}: existing target was altered')
            else:
                convert(over)
                check(not open_files(root), f'{w}: files are still open: '
                      f'{open_files(root)}')
                have = True
                nconv += 1
                verify(w)
        left = {x for x in os.listdir(d)}
        check(set(contents) | set(c['other']) == left - {'out.h5'},
              f'files in the source directory changed: {sorted(left)}')
    finally:
        shutil.rmtree(root)
    return [f'conversions {nconv}', f'files {nfiles}'] + (
        [] if s['ns'] > 1 and (nfiles > 1 or nconv > 1) else ['trivial'])


SUBS = [Sub('parse', parse_case, parse_oracle, 300, 8000),
        Sub('convert', conv_case, conv_oracle, 240, 5000),
        Sub('parse at scale', lambda: large(parse_case(), n=ints(1000, 9000),
            s=large(spec(), ns=ints(20, 110))), parse_oracle, 8, 100),
        Sub('convert at scale', lambda: large(conv_case(), nf=ints(5, 30),
            sizes=st.lists(ints(100, 1500), min_size=4, max_size=4),
            s=large(spec(), ns=ints(20, 110))), conv_oracle, 6, 80)]
