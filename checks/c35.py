import contextlib
import copy
import enum
import importlib
import io
import os
import random
import sys
import warnings

import numpy as np
import pandas as pd
from hypothesis import strategies as st

from pbt import env
from pbt.gen import clouds, fl, ints, pick, rec, seeds, make_time, series
from pbt.harness import Sub, check, Violation
from checks.c25 import perturb

RULE = ('non-trivial: at least three different functions are called on shared '
        'inputs')
ASSUMPTIONS = ['cleanfreq is documented to adjust the signal object it is '
               'given and is left out',
               'cloudfield_timeseries is documented to use the global random '
               'state: it is seeded before each call',
               'results of repeated calls are compared to 1e-9 relative: the '
               'same arithmetic may be carried out in another memory layout']

MODS = ('cmv', 'field', 'signalproc', 'spatial', 'stats', 'irradiance',
        'synthirrad.cloudfield', 'synthirrad.copula',
        'dataio.hope_campaign')


class Pkg:
    """One import of the package; fresh() gives a pristine second one."""

    def __init__(self):
        for m in MODS:
            setattr(self, m.split('.')[-1],
                    importlib.import_module('solarspatialtools.' + m))


def fresh():
    own = {k: v for k, v in sys.modules.items()
           if k.split('.')[0] == 'solarspatialtools'}
    for k in own:
        del sys.modules[k]
    try:
        return Pkg()
    finally:
        for k in [k for k in sys.modules
                  if k.split('.')[0] == 'solarspatialtools']:
            del sys.modules[k]
        sys.modules.update(own)


# ------------------------------------------------------------- shared inputs
def world(c, seed):
    """All inputs. Worlds of one case differ in values but not in shape."""
    r = np.random.default_rng(seed)
    cl = dict(ns=c['ns'], n=c['n'], seed=seed, dt=c['dt'], speed=7.,
              ang=float(r.uniform(-3, 3)), cross=150., kind='smooth', jit=1,
              noise=.1, kd=20, t={'start': 3600, 'dt': c['dt'],
                                  'tz': c['tz']})
    pos, kt, u, _ = clouds(cl)
    cl['ang'] += 1.3
    cl['seed'] = seed + 1
    pos2, kt2, u2, _ = clouds(cl)
    names = list(pos.index)
    kt2.columns = names
    ghi = kt * 800
    n = len(kt)
    w = {'pos': pos, 'kt': kt, 'kt2': kt2, 'ghi': ghi,
         'one': kt[names[0]].copy(), 'two': kt[names[1]].copy(),
         'bycol': kt.iloc[:, [0]].copy(),
         'clear': pd.Series(np.linspace(700, 900, n), kt.index),
         'ref': names[0], 'names': names, 'some': names[:2],
         'jopt': {'mincorr': .2, 'var_s_lim': .01}, 'gopt': {'ktlim': .3},
         'vecs': [u * 7., u2 * 7.], 'dfs': [kt, kt2],
         'x': r.uniform(-300, 300, 4), 'y': r.uniform(-300, 300, 4),
         'lat': r.uniform(40, 50, 4), 'lon': r.uniform(7, 11, 4),
         'vec': r.uniform(-5, 5, 2), 'wind': u * 3.,
         'vecarr': pd.DataFrame(r.uniform(-9, 9, (5, 2)), columns=['E', 'N']),
         'A': np.array([[0., 0.], [1., 2.]]) + r.uniform(0, .1, (2, 2)),
         'B': np.array([[0., 3.], [2., -1.]]) + r.uniform(0, .1, (2, 2)),
         'cx': pd.Series(r.uniform(-9, 9, 12)),
         'cy': pd.Series(r.uniform(-9, 9, 12)),
         'times': make_time({'start': 0, 'dt': 10, 'tz': 'UTC'}, 5),
         'params': copy.deepcopy(perturb(int(seed % 1000))),
         'plist': copy.deepcopy([perturb(int(seed % 500)),
                                perturb(int(seed % 700))]),
         'csi': np.array([.4, .7]) + r.uniform(0, .1),
         'spds': np.array([4., 9.]), 'dirs': np.array([.1, 1.]),
         'remap': list(zip(names, names[1:] + names[:1])),
         'remap2': list(zip(names, names[-1:] + names[:-1])),
         'flags': pd.DataFrame(r.integers(1, 5, kt.shape), kt.index, names),
         'gaps': ghi.mask(r.random(ghi.shape) < .3),
         'fills': ghi.mask(r.random(ghi.shape) < .2, -999.),
         'centers': np.round(r.uniform(-40, 40, 4)),
         'weights': r.uniform(.1, 1, 4), 'scales': [1, 2, 3, 5],
         'field': r.uniform(0, 1.2, (60, 8)), 'spot': (3.5, 2.5),
         'freq': np.linspace(0, .5, 40),
         'tfq': np.linspace(0, .035, 25),
         'llpos': pd.DataFrame({'lat': 50 + r.uniform(0, .002, c['ns']),
                                'lon': 8 + r.uniform(0, .002, c['ns'])},
                               names),
         'days': pd.Series(np.round(r.uniform(0, 1000, 96)),
                           pd.date_range('2020-01-01', periods=96,
                                         freq='6h', tz='UTC')),
         }
    w['pred'] = w['pos'] + r.uniform(-20, 20, w['pos'].shape)
    w['tf'] = pd.DataFrame(r.normal(size=(20, 2)) + 1j,
                           np.arange(20) / 500., ['a', 'b'])
    w['tfu'] = w['tf'].iloc[r.permutation(20)]
    w['coh'] = pd.DataFrame(r.uniform(.5, 1, (20, 2)), w['tf'].index,
                            ['a', 'b'])
    w['filt'] = pd.Series(r.normal(size=41) + 1j * r.normal(size=41),
                          np.linspace(-1.2 / c['dt'], 1.2 / c['dt'], 41))
    return w


SORTED = {'freq', 'tfq', 'times', 'scales', 'spot', 'flags'}


def inner(x, how):
    """Equal in its ends, shape and (for 'turn') sum and extremes."""
    x = x.copy()
    if len(x) > 2 and x.dtype.kind in 'fc':
        if how == 'turn':
            x[1:-1] = x[1:-1][::-1].copy()
        else:
            whole = np.array_equal(x, np.round(x.real))
            x[1:-1] = x[1:-1] + (1. if whole else .01 * np.nanmax(np.abs(x)))
    return x


def twin(w, how, top=True):
    """Inputs that resemble the given ones."""
    if isinstance(w, dict):
        out = {k: v if k in SORTED else twin(v, how, False)
               for k, v in w.items()}
        if not top:
            return dict(w)
        out['params'] = dict(w['params'], sdevCloud=[
            1.1 * w['params']['sdevCloud'][0], *w['params']['sdevCloud'][1:]])
        out['jopt'] = dict(w['jopt'], mincorr=.3)
        return out
    if isinstance(w, pd.DataFrame):
        return pd.DataFrame(inner(w.to_numpy(), how), w.index, w.columns)
    if isinstance(w, pd.Series):
        return pd.Series(inner(w.to_numpy(), how), w.index, name=w.name)
    if isinstance(w, np.ndarray):
        return inner(w, how)
    if isinstance(w, (list, tuple)):
        return type(w)(twin(v, how, False) for v in w)
    return w


def update(a, b):
    """The user overwrites an input in place."""
    if isinstance(a, dict):
        for k in a:
            if isinstance(a[k], (dict, list, np.ndarray, pd.DataFrame,
                                 pd.Series)):
                update(a[k], b[k])
            else:
                a[k] = b[k]
    elif isinstance(a, pd.DataFrame):
        for i in range(a.shape[1]):
            a.iloc[:, i] = b.iloc[:, i].to_numpy()
    elif isinstance(a, pd.Series):
        a.iloc[:] = b.to_numpy()
    elif isinstance(a, np.ndarray):
        a[...] = b
    else:
        for i in range(len(a)):
            if isinstance(a[i], (dict, list, np.ndarray, pd.DataFrame,
                                 pd.Series)):
                update(a[i], b[i])
            elif isinstance(a, list):
                a[i] = b[i]


OPS = {
    'correlation': lambda P, w: P.signalproc.correlation(
        w['one'].values, w['two'].values),
    'correlation_e': lambda P, w: P.signalproc.correlation(
        w['one'], w['two'], scaling='energy'),
    'averaged_psd': lambda P, w: P.signalproc.averaged_psd(w['kt'], 4),
    'averaged_psd_1': lambda P, w: P.signalproc.averaged_psd(w['one'], 3),
    'averaged_tf': lambda P, w: P.signalproc.averaged_tf(
        w['one'], w['kt'], 4),
    'averaged_tf_n': lambda P, w: P.signalproc.averaged_tf(
        w['kt'], w['kt2'], 3, overlap=.25, detrend='constant'),
    'interp_tf': lambda P, w: P.signalproc.interp_tf(w['tfq'], w['tf']),
    'interp_tf_u': lambda P, w: P.signalproc.interp_tf(w['tfq'], w['tfu']),
    'interp_tf_1': lambda P, w: P.signalproc.interp_tf(w['tfq'],
                                                       w['tf']['a']),
    'tf_delay_fit': lambda P, w: P.signalproc.tf_delay(
        w['tf']['a'], w['coh']['a'], method='fit'),
    'tf_delay_multi': lambda P, w: P.signalproc.tf_delay(
        w['tf'], w['coh'], method='multi'),
    'tf_delay_diff': lambda P, w: P.signalproc.tf_delay(
        w['tf']['a'], w['coh']['a'], None, None, method='diff'),
    'xcorr_delay': lambda P, w: P.signalproc.xcorr_delay(w['one'], w['two']),
    'delays_loop': lambda P, w: P.signalproc.compute_delays(
        w['kt'], w['kt2']),
    'delays_fft': lambda P, w: P.signalproc.compute_delays(
        w['kt'], w['kt2'], mode='fft'),
    'delays_tf': lambda P, w: P.signalproc.compute_delays_tf(
        w['one'], w['kt'], navgs=4, coh_limit=.1),
    'delays_tf_x': lambda P, w: P.signalproc.compute_delays_tf(
        w['kt'], w['kt2'], navgs=3, coh_limit=.1, compute_xcorr=True),
    'apply_delay': lambda P, w: P.signalproc.apply_delay(w['tf']['a'], 3.5),
    'get_1d_plant': lambda P, w: P.signalproc.get_1d_plant(
        w['centers'], width=4, xmax=200),
    'get_1d_plant_g': lambda P, w: P.signalproc.get_1d_plant(
        w['centers'], ref_center=2., width=6, shape='gaussian', xmax=200),
    'camfilter': lambda P, w: P.signalproc.plant1d_to_camfilter(
        *P.signalproc.get_1d_plant(w['centers'], width=4, xmax=200), 5.),
    'get_camfilter': lambda P, w: P.signalproc.get_camfilter(
        w['pos'], 5., w['wind'], w['pos'].mean(), xmax=3000, width=4),
    'get_camfilter_ll': lambda P, w: P.signalproc.get_camfilter(
        w['llpos'], 5., w['wind'], w['llpos'].mean(), xmax=3000),
    'marcos': lambda P, w: P.signalproc.get_marcosfilter(3., w['freq']),
    'marcos_d': lambda P, w: P.signalproc.get_marcosfilter(3.),
    'plant_delta': lambda P, w: P.signalproc.get_1d_plant(
        w['centers'], xmax=100),
    'apply_filter': lambda P, w: P.signalproc.apply_filter(
        w['one'], w['filt']),
    'apply_filter_n': lambda P, w: P.signalproc.apply_filter(
        w['kt'], w['filt'].to_frame()),
    'cmv_jamaly': lambda P, w: P.cmv.compute_cmv(
        w['kt'], w['pos'], options=w['jopt']),
    'cmv_ref': lambda P, w: P.cmv.compute_cmv(w['kt'], w['pos'], w['ref']),
    'cmv_refs': lambda P, w: P.cmv.compute_cmv(
        w['kt'], w['pos'], w['some'], options=w['jopt']),
    'cmv_gagne': lambda P, w: P.cmv.compute_cmv(
        w['kt'], w['pos'], method='gagne', options=w['gopt']),
    'cmv_same': lambda P, w: P.cmv.compute_cmv(
        w['kt'] * 0 + .5, w['pos']),
    'cmv_tf': lambda P, w: P.cmv.compute_cmv(
        w['kt'], w['pos'], method='gagne', options=w['gopt'],
        delay_backend='tf'),
    'optimum_subset': lambda P, w: P.cmv.optimum_subset(
        w['cx'], w['cy'], n=4),
    'predicted': lambda P, w: P.field.compute_predicted_position(
        w['dfs'], w['pos'], w['ref'], w['vecs'], ndownsel=4, coh_limit=.05,
        navgs=3),
    'predicted_d': lambda P, w: P.field.compute_predicted_position(
        w['dfs'], w['pos'], w['ref'], w['vecs'], mode='distance',
        ndownsel=4, coh_limit=.05, navgs=3),
    'predicted_cmv': lambda P, w: P.field.compute_predicted_position(
        w['dfs'], w['pos'], w['ref'], mode='all', coh_limit=.05, navgs=3),
    'field_delays': lambda P, w: P.field.compute_delays(
        w['kt'], w['ref'], navgs=3, coh_limit=.1),
    'remap': lambda P, w: P.field.remap_positions(w['pos'], w['remap']),
    'remap_c': lambda P, w: P.field.remap_positions(
        w['pos'], w['remap2'], columns=['E']),
    'cascade': lambda P, w: P.field.cascade_remap(w['remap'], w['remap2']),
    'assign': lambda P, w: P.field.assign_positions(w['pos'], w['pred']),
    'latlon2utm': lambda P, w: P.spatial.latlon2utm(w['lat'], w['lon']),
    'latlon2utm_p': lambda P, w: P.spatial.latlon2utm(
        w['llpos']['lat'], w['llpos']['lon']),
    'utm2latlon': lambda P, w: P.spatial.utm2latlon(
        w['x'] + 5e5, w['y'] + 5e6, 32),
    'latlon2lcs': lambda P, w: P.spatial.latlon2lcs(
        w['lat'], w['lon'], 45.5, 8.5),
    'lcs2latlon': lambda P, w: P.spatial.lcs2latlon(12., 13., 45.5, 8.5),
    'lla2flat': lambda P, w: P.spatial.lla2flat(
        w['lat'], w['lon'], 45.5, 8.5),
    'dot': lambda P, w: P.spatial.dot(w['vec'], w['wind']),
    'unit': lambda P, w: P.spatial.unit(w['vec']),
    'magnitude': lambda P, w: P.spatial.magnitude(w['vec']),
    'rect2pol': lambda P, w: P.spatial.rect2pol(w['x'], w['y']),
    'pol2rect': lambda P, w: P.spatial.pol2rect(w['x'], w['y']),
    'rotate': lambda P, w: P.spatial.rotate_vector(w['vec'], .7),
    'project': lambda P, w: P.spatial.project_vectors(
        w['vecarr'], w['wind']),
    'vectors': lambda P, w: P.spatial.compute_vectors(
        w['pos']['E'], w['pos']['N'], w['pos'].iloc[1]),
    'intersection': lambda P, w: P.spatial.compute_intersection(
        w['A'], w['B']),
    'spacetime': lambda P, w: P.spatial.spacetime_distances(
        w['x'], w['y'], w['times'], 4., .3),
    'rmse': lambda P, w: P.stats.rmse(w['one'], w['two']),
    'mae': lambda P, w: P.stats.mae(w['one'].values, w['two'].values),
    'mbe': lambda P, w: P.stats.mbe(w['one'], w['two']),
    'errors': lambda P, w: (P.stats.squared_error(w['one'], w['two']),
                            P.stats.absolute_error(w['one'], w['two']),
                            P.stats.bias_error(w['one'], w['two'])),
    'vs': lambda P, w: P.stats.variability_score(w['kt']),
    'vs_ma': lambda P, w: P.stats.variability_score(w['one'], tau=3),
    'vs_pct': lambda P, w: P.stats.variability_score(
        w['ghi'], tau=2, moving_avg=False, pct=True),
    'vi': lambda P, w: P.stats.variability_index(
        w['ghi'][w['ref']], w['clear']),
    'vi_ma': lambda P, w: P.stats.variability_index(
        w['ghi'], w['clear'], 3, True),
    'darr': lambda P, w: P.stats.darr(w['ghi'], tau=2),
    'darr_pct': lambda P, w: P.stats.darr(w['one'], pct=True),
    'quantile': lambda P, w: P.stats.calc_quantile(w['days'], '4d'),
    'csi': lambda P, w: P.irradiance.clearsky_index(w['ghi'], w['clear']),
    'csi_1': lambda P, w: P.irradiance.clearsky_index(
        w['ghi'][w['ref']], w['clear'], 1.2),
    'ts_stats': lambda P, w: P.cloudfield.get_timeseries_stats(w['one']),
    'positional': lambda P, w: P.cloudfield.get_positional_ts(
        w['spot'], w['field'], 1.5, 20),
    'cloudfield': lambda P, w: P.cloudfield.cloudfield_timeseries(
        w['weights'], w['scales'], (90, 60), .4, .7, 1.2, .3, 'basic'),
    'cloudfield_o': lambda P, w: P.cloudfield.cloudfield_timeseries(
        w['weights'], w['scales'], (90, 60), .4, .7, 1.2, .3),
    'downscale': lambda P, w: P.copula.downscale(
        w['times'], w['x'], w['y'], 6., .4, .6, w['params'], seed=5),
    'multihour': lambda P, w: P.copula.downscale_multihour(
        w['times'], w['x'], w['y'], w['spds'], w['dirs'], w['csi'],
        w['plist'], seed=5),
    'downscale_u': lambda P, w: P.copula.downscale(
        w['times'], w['x'], w['y'], 6., .4, .6, w['params']),
    'multihour_u': lambda P, w: P.copula.downscale_multihour(
        w['times'], w['x'], w['y'], w['spds'], w['dirs'], w['csi'],
        w['plist']),
    'multihour_1': lambda P, w: P.copula.downscale_multihour(
        [w['times'], w['times']], w['x'], w['y'], 5., .2, w['csi'],
        w['params'], seed=6),
    'flag_qc': lambda P, w: P.hope_campaign.flag_qc(w['ghi'], w['flags']),
    'null_qc': lambda P, w: P.hope_campaign.null_qc(w['fills']),
    'interp_nan': lambda P, w: P.hope_campaign.interp_nan(w['gaps'], 3),
    # documented failures are part of a history as well
    'bad_mode': lambda P, w: P.signalproc.compute_delays(
        w['kt'], w['kt2'], mode='nope'),
    'bad_method': lambda P, w: P.cmv.compute_cmv(
        w['kt'], w['pos'], method='nope', options=w['jopt']),
    'bad_option': lambda P, w: P.cmv.compute_cmv(
        w['kt'], w['pos'], options={'nope': 1}),
    'bad_field': lambda P, w: P.field.compute_predicted_position(
        w['dfs'], w['pos'], w['ref'], w['vecs'], mode='nope'),
    'bad_filter': lambda P, w: P.signalproc.apply_filter(
        w['one'], w['filt'].iloc[:5]),
}
BAD = {k for k in OPS if k.startswith('bad_')}
RANDOM = {'cloudfield', 'cloudfield_o'}
# no seed given: only the shape of the result repeats
UNSEEDED = {'downscale_u', 'multihour_u'}


# ------------------------------------------------------------- canonical form
def canon(x, out=None, path=''):
    """Flatten to a list of (path, kind, value)."""
    if out is None:
        out = []
    if isinstance(x, pd.DataFrame):
        out.append((path, 'type', 'frame'))
        canon(x.index, out, path + '.index')
        canon(list(x.columns), out, path + '.columns')
        for i in range(x.shape[1]):
            canon(x.iloc[:, i].to_numpy(copy=True), out, f'{path}[{i}]')
    elif isinstance(x, pd.Series):
        out.append((path, 'type', 'series'))
        canon(x.index, out, path + '.index')
        out.append((path + '.name', 'v', repr(x.name)))
        canon(x.to_numpy(copy=True), out, path + '.values')
    elif isinstance(x, pd.DatetimeIndex):
        out.append((path, 'v', str(x.tz)))
        out.append((path, 'a', x.as_unit('ns').asi8.copy()))
    elif isinstance(x, pd.Index):
        canon(x.to_numpy(copy=True), out, path)
    elif isinstance(x, np.ndarray):
        if x.dtype == object:
            out.append((path, 'v', repr(x.tolist())))
        else:
            out.append((path, 'a', x.copy()))
    elif isinstance(x, dict):
        out.append((path, 'v', repr(sorted(map(repr, x)))))
        for k in x:
            canon(x[k], out, f'{path}.{k}')
    elif isinstance(x, (list, tuple)):
        out.append((path, 'v', f'{len(x)}'))
        for i, v in enumerate(x):
            canon(v, out, f'{path}[{i}]')
    elif isinstance(x, enum.Enum):
        out.append((path, 'v', x.name))
    elif x is None or isinstance(x, (str, bool)):
        out.append((path, 'v', repr(x)))
    elif isinstance(x, (int, float, complex, np.generic)):
        out.append((path, 'a', np.asarray(x)))
    elif hasattr(x, 'to_dict'):
        canon(x.to_dict(), out, path)
    else:
        out.append((path, 'v', type(x).__name__))
    return out


def differ(a, b, exact):
    """The first difference of two canonical forms, or None."""
    if len(a) != len(b):
        return f'structure ({len(a)} and {len(b)} parts)'
    for (p, k, v), (q, l, u) in zip(a, b):
        if p != q or k != l:
            return f'structure at {p or q}'
        if k != 'a':
            if v != u:
                return f'{p}: {v} became {u}'[:200]
            continue
        if v.shape != u.shape or (exact and v.dtype != u.dtype):
            return f'{p}: {v.dtype}{v.shape} became {u.dtype}{u.shape}'
        if v.dtype.kind in 'fc' or u.dtype.kind in 'fc':
            if exact:
                ok = np.array_equal(v, u, equal_nan=True)
            else:
                s = np.abs(v[np.isfinite(v)])
                ok = np.allclose(v, u, 1e-9, 1e-10 * (s.max() if s.size
                                                      else 1), equal_nan=True)
        else:
            ok = np.array_equal(v, u)
        if not ok:
            return f'{p}: values changed'
    return None


def arrays(x, out):
    if isinstance(x, np.ndarray):
        out.append(x)
    elif isinstance(x, (list, tuple)):
        for v in x:
            arrays(v, out)
    elif isinstance(x, dict):
        for v in x.values():
            arrays(v, out)
    elif isinstance(x, pd.DataFrame):
        for i in range(x.shape[1]):
            out.append(x.iloc[:, i].to_numpy())
    elif isinstance(x, pd.Series):
        out.append(x.to_numpy())
    elif hasattr(x, 'to_dict') and not isinstance(x, pd.Index):
        arrays(x.to_dict(), out)
    return out


def poison(x, inputs):
    """The user overwrites a result in place (unless it is an input)."""
    mine = arrays(x, [])
    if any(np.shares_memory(a, b) for a in mine for b in inputs
           if a.size and b.size):
        return
    if isinstance(x, np.ndarray):
        if x.flags.writeable and x.dtype.kind in 'fciu' and x.ndim:
            x[...] = -7777
    elif isinstance(x, (pd.DataFrame, pd.Series)):
        with contextlib.suppress(Exception):
            x.iloc[...] = -7777
    elif isinstance(x, (list, tuple)):
        for v in x:
            poison(v, inputs)
        if isinstance(x, list):
            x.clear()
    elif isinstance(x, dict):
        for v in x.values():
            poison(v, inputs)
        x.clear()
    elif hasattr(x, 'to_dict') and not isinstance(x, pd.Index):
        for v in x.to_dict().values():
            poison(v, inputs)


def rng_state():
    s = np.random.get_state()
    return (s[0], s[1].tobytes(), s[2:]), random.getstate()


def options(d=None, path=''):
    """All pandas options."""
    out = {}
    for k, v in (pd._config.config._global_config if d is None
                 else d).items():
        if isinstance(v, dict):
            out.update(options(v, path + k + '.'))
        else:
            out[path + k] = v
    return out


def glob():
    return (dict(np.geterr()), np.geterrcall(), np.get_printoptions(),
            dict(os.environ), os.getcwd(), options())


def filters():
    return list(warnings.filters)


def restore(g):
    np.set_printoptions(**g[2])
    for k, v in g[5].items():
        if options()[k] != v:
            with warnings.catch_warnings():
                warnings.simplefilter('ignore')
                pd.set_option(k, v)
    for k in set(os.environ) - set(g[3]):
        del os.environ[k]
    os.environ.update(g[3])
    os.chdir(g[4])


def call(P, name, w):
    if name in RANDOM:
        np.random.seed(1234)
    with contextlib.redirect_stdout(io.StringIO()):
        try:
            out = OPS[name](P, w)
        except Exception as e:
            if name not in BAD:
                raise
            return 'raised ' + type(e).__name__
    if name in BAD:
        return 'returned'
    if name in UNSEEDED:
        return [list(np.shape(x)) for x in
                (out if isinstance(out, (list, tuple)) else [out])]
    return out


def case():
    return rec(ns=ints(4, 6), n=pick(100, 120), dt=pick(1, 10),
               tz=pick(None, 'UTC'), seed=seeds(),
               err=pick('warn', 'ignore', 'mixed'),
               twin=pick(None, None, 'turn', 'inner'),
               hist=st.lists(st.tuples(st.sampled_from(sorted(OPS)),
                                       ints(0, 1)),
                             min_size=3, max_size=10))


ERR = {'warn': dict(all='warn'), 'ignore': dict(all='ignore'),
       'mixed': dict(divide='ignore', over='warn', under='ignore',
                     invalid='warn')}


def worlds(c, k):
    if k == 0:
        return world(c, c['seed'])
    if c['twin']:
        return twin(world(c, c['seed']), c['twin'])
    return world(c, c['seed'] + 7919)


def watched(P, n, w, g0, f0, what):
    """One call, which leaves the process as it was."""
    r0, m0 = rng_state(), len(sys.modules)
    out = call(P, n, w)
    g1 = glob()
    check(g1[0] == g0[0], f'{what}: numpy error handling {g0[0]} became '
          f'{g1[0]}')
    for i, t in enumerate(('numpy error callback', 'numpy print options',
                           'environment', 'working directory',
                           'pandas options')):
        check(g1[i + 1] == g0[i + 1], f'{what}: {t} changed')
    # a module imported on first use may register its own filters
    check(filters() == f0 or len(sys.modules) > m0,
          f'{what}: warning filters changed')
    if n not in RANDOM:
        check(rng_state() == r0, f'{what}: random state changed')
    return out


def alone(c, calls):
    """Every call on its own: a pristine package and untouched inputs."""
    ref = {}
    np.random.seed(99)
    random.seed(99)
    with np.errstate(**ERR[c['err']]):
        g0 = glob()
        try:
            for k in (0, 1):
                for n in sorted({n for n, j in calls if j == k}):
                    with warnings.catch_warnings():
                        P = fresh()
                        w = worlds(c, k)
                        g1, f1 = glob(), filters()
                        ref[n, k] = canon(watched(P, n, w, g1, f1,
                                                  f'{n} on its own'))
        finally:
            restore(g0)
    return ref


def oracle(c):
    names = sorted({n for n, _ in c['hist']})
    ref = alone(c, set(c['hist']))
    P = Pkg()
    W = [worlds(c, 0), worlds(c, 1)]
    snap = [canon(w) for w in W]
    inputs = [a for w in W for a in arrays(w, [])]
    kept = []
    with np.errstate(**ERR[c['err']]), warnings.catch_warnings():
        np.random.seed(99)
        random.seed(99)
        g0, f0 = glob(), filters()

        def step(n, k, what):
            out = watched(P, n, W[k], g0, f0, what)
            for j in range(2):
                d = differ(snap[j], canon(W[j]), True)
                check(d is None, f'{what}: input{d} was modified')
            cn = canon(out)
            d = differ(ref[n, k], cn, False)
            check(d is None, f'{what}: result differs from that of the call '
                  f'on its own: {d}')
            return out, cn
        for i, (n, k) in enumerate(c['hist']):
            kept.append((n, *step(n, k, f'{n} as call {i + 1}')))
        for n, out, cn in kept:
            d = differ(cn, canon(out), True)
            check(d is None, f'{n}: result{d} by later calls')
        for n, out, _ in kept:
            poison(out, inputs)
        d = [differ(snap[j], canon(W[j]), True) for j in range(2)]
        if d == [None, None]:
            for n, k in sorted(set(c['hist'])):
                step(n, k, f'{n} after its result was overwritten')
    return ['trivial'] if len(names) < 3 else []


def solo_case():
    return rec(ns=ints(4, 6), n=pick(100, 120), dt=pick(1, 10),
               tz=pick(None, 'UTC'), seed=seeds(), twin=pick('turn', 'inner'),
               err=pick('warn', 'ignore', 'mixed'),
               op=st.sampled_from(sorted(OPS)))


def solo(c):
    """Each function twice on the same inputs and on similar ones."""
    n = c['op']
    oracle(dict(c, hist=[(n, 0), (n, 0), (n, 1)]))
    return [n]


def updated(c):
    """The same objects hold other values at the second call."""
    n = c['op']
    ref = alone(c, [(n, 0), (n, 1)])
    P, w = Pkg(), worlds(c, 0)
    with np.errstate(**ERR[c['err']]), warnings.catch_warnings():
        for k in (0, 1, 0):
            update(w, worlds(c, k))
            d = differ(ref[n, k], canon(call(P, n, w)), False)
            check(d is None, f'{n}, inputs overwritten by the user: result '
                  f'differs from that of a first call: {d}')
    return [n]


SUBS = [Sub('history', case, oracle, 320, 8000),
        Sub('twice', solo_case, solo, 560, 8000),
        Sub('updated', solo_case, updated, 300, 6000)]
