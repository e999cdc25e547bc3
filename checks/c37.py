import builtins
import contextlib
import email.message
import io
import os
import runpy
import shutil
import sys
import tempfile
import urllib.error
import urllib.request
import urllib.response
import warnings

import numpy as np
import pandas as pd
from hypothesis import strategies as st

from pbt.gen import ints, pick, rec, seeds
from pbt.harness import Sub, check, close, same_index
from checks.c32 import write_nc, station_set, cmp_table, cmp_latlon
from solarspatialtools.dataio import hope_campaign as hc

RULE = ('non-trivial: a history with at least two invocations, or one with a '
        'conversion')
ASSUMPTIONS = ['the program is run as a script (its module under the name '
               '__main__, arguments in sys.argv, answers from a stand-in for '
               'input) in a scratch directory; the archive is a stand-in '
               'for the web behind urllib, so no connection is made',
               'the quality control named null blanks values below -100, '
               'interp also fills gaps of up to five samples, flag blanks '
               'values flagged 2 or worse, as the module documents']

NAMES = {'HOPE': 'hope', 'HOPE-MELPITZ': 'hopm', 'LINDENBERG': 'ioprao'}


class Web(urllib.request.BaseHandler):
    """Serves the given bytes for all addresses; counts and breaks."""
    handler_order = 1

    def __init__(self):
        self.data, self.faults, self.log = {}, {}, []

    def https_open(self, req):
        url = req.full_url
        self.log.append(url)
        body = self.data.get(url)
        fault = self.faults.pop(url, None)
        if body is None:
            raise urllib.error.HTTPError(url, 404, 'not found',
                                         email.message.Message(), None)
        if fault == 'refused':
            raise urllib.error.URLError('refused')
        if fault == '503':
            raise urllib.error.HTTPError(url, 503, 'unavailable',
                                         email.message.Message(), None)
        h = email.message.Message()
        h['Content-Length'] = str(len(body))
        if fault == 'cut':
            body = body[:len(body) // 2]
        r = urllib.response.addinfourl(io.BytesIO(body), h, url, 200)
        r.msg = 'OK'
        return r

    http_open = https_open


@contextlib.contextmanager
def patched(web, argv, answers):
    old = sys.argv, builtins.input, urllib.request._opener
    asked = []

    def answer(prompt=''):
        asked.append(prompt)
        if not answers:
            raise EOFError('no answer left')
        return answers.pop(0)
    try:
        sys.argv = ['hope_campaign.py'] + argv
        builtins.input = answer
        o = urllib.request.OpenerDirector()
        o.add_handler(web)
        o.add_handler(urllib.request.HTTPErrorProcessor())
        o.add_handler(urllib.request.HTTPDefaultErrorHandler())
        urllib.request.install_opener(o)
        yield asked
    finally:
        sys.argv, builtins.input = old[:2]
        urllib.request._opener = old[2]


def invoke(web, argv, answers):
    """Run the program. Returns (exception or None, questions asked)."""
    with patched(web, argv, list(answers)) as asked, warnings.catch_warnings(), \
            contextlib.redirect_stdout(io.StringIO()), \
            contextlib.redirect_stderr(io.StringIO()):
        warnings.simplefilter('ignore')
        try:
            runpy.run_path(hc.__file__, run_name='__main__')
            return None, asked
        except (Exception, SystemExit) as e:
            if isinstance(e, SystemExit) and e.code in (0, None):
                return None, asked
            return e, asked


def step():
    return rec(h5=pick(True, False), qc=pick(None, None, 'null', 'interp',
                                             'flag', 'best'),
               meta=pick(False, True), silent=pick(False, True),
               yes=pick('y', 'Y', 'n', 'N', '', 'yes'),
               yes2=pick('y', 'Y', 'n', ''), add=ints(0, 2),
               fault=pick(None, None, None, 'cut', '503', 'refused'),
               fk=ints(0, 5), long=pick(False, True))


def case():
    return rec(s=rec(f=pick('f4', 'f8'), idt=pick('i4', 'i8'), tt=pick('i4', 'f8'),
                     unlim=pick(True, False), sorted=pick(False, True),
                     ffill=pick(False, True), ns=ints(1, 5), seed=seeds(),
                     dt=pick(1, 10), gap=ints(0, 8)),
               name=pick('HOPE', 'hope', 'HOPE-Melpitz', 'lindenberg',
                         'Lindenberg', 'hope-melpitz'),
               steps=st.lists(step(), min_size=1, max_size=4), n=ints(1, 25),
               sub=pick('', 'a', 'a/b'), pre=pick(False, False, True),
               scheme=pick('https', 'http'),
               bad=pick(None, None, None, None, 'HOPE2', '', 'melpitz'))


def interp(x, limit=5):
    x = x.astype(float).copy()
    n = len(x)
    i = 0
    while i < n:
        if not np.isnan(x[i]):
            i += 1
            continue
        j = i
        while j < n and np.isnan(x[j]):
            j += 1
        if 0 < i and j < n and j - i <= limit:
            a, b = x[i - 1], x[j]
            for k in range(i, j):
                x[k] = a + (b - a) * (k - i + 1) / (j - i + 1)
        i = j
    return x


def controlled(X, F, qc):
    X = X.astype(float).copy()
    if qc == 'flag':
        X[F >= 2] = np.nan
        return X
    X[X < -100] = np.nan
    if qc == 'interp':
        for j in range(X.shape[1]):
            X[:, j] = interp(X[:, j])
    return X


def tree(d):
    out = {}
    for r, _, fs in os.walk(d):
        for f in fs:
            p = os.path.join(r, f)
            with open(p, 'rb') as fh:
                out[os.path.relpath(p, d)] = fh.read()
    return out


def oracle(c):
    s = c['s']
    r = np.random.default_rng(s['seed'])
    ids, lat, lon = station_set(r, s['ns'], s)
    root = tempfile.mkdtemp(prefix='c37-')
    try:
        return history(c, s, r, ids, lat, lon, root)
    finally:
        shutil.rmtree(root)


def history(c, s, r, ids, lat, lon, root):
    tgt = os.path.join(root, 'run', c['sub']) if c['sub'] else os.path.join(
        root, 'run')
    work = os.path.join(root, 'server')
    os.makedirs(work)
    if c['pre']:
        os.makedirs(tgt)
    name = c['name']
    urls = {k.upper(): v for k, v in hc.URLS.items()}
    check(set(NAMES) <= set(urls), 'campaigns missing')
    u = urls[name.upper()]
    check(NAMES[name.upper()] in u['wget'] and NAMES[name.upper()]
          in u['meta'], f'addresses of {name}: {u}')
    web = Web()
    meta = b'<meta %d/>' % s['seed']
    for k in NAMES:      # the other campaigns offer something else
        web.data[urls[k]['meta']] = b'<other/>'
        web.data[urls[k]['wget']] = b'wget https://other.example/o.nc\n'
    web.data['https://other.example/o.nc'] = b'other'
    web.data[u['meta']] = meta
    order = [f'p{int(k):02d}.nc' for k in r.permutation(90)[:10]]
    tables, base = {}, f'{c["scheme"]}://archive.example/rsds/2013/'
    cursor = [1_370_000_000]

    def publish():
        fn = order[len(tables)]
        n = c['n']
        p = os.path.join(work, fn)
        t, X, F = write_nc(p, r, n, ids, lat, lon, cursor[0], s['dt'], s)
        cursor[0] += n * s['dt'] + int(r.integers(0, 100))
        tables[fn] = (t, X, F)
        with open(p, 'rb') as fh:
            web.data[base + fn] = fh.read()
        web.data[u['wget']] = ''.join(
            f'wget -nc {base}{f}\n' for f in tables).encode()
    publish()
    if c['bad'] is not None:
        e, _ = invoke(web, [c['bad'], tgt, '-m', '-h5'], ['y'] * 3)
        check(e is not None, f'unknown campaign {c["bad"]!r} accepted')
        check(not web.log, f'unknown campaign: fetched {web.log}')
        check(not tree(os.path.join(root, 'run')) if os.path.isdir(
            os.path.join(root, 'run')) else True, 'unknown campaign: wrote')
        return ['unknown']
    h5 = name.lower() + '.h5'
    in_h5 = None          # names of the files the summary was made from
    have = {}             # expected files other than tables
    qcs = {}              # qc name -> names of the files it was made from
    conv = 0
    for k, q in enumerate(c['steps']):
        for _ in range(q['add'] if k else 0):
            if len(tables) < 10:
                publish()
        argv = [name, tgt]
        if q['meta']:
            argv.append('--meta' if q['long'] else '-m')
        if q['h5']:
            argv.append('--makeh5' if q['long'] else '-h5')
        if q['silent']:
            argv.append('--silent' if q['long'] else '-s')
        if q['qc']:
            argv += ['--qc' if q['long'] else '-q', q['qc']]
        if k % 2:         # options may come first
            argv = argv[2:] + argv[:2]
        w = f'step {k} {argv}'
        before = tree(tgt) if os.path.isdir(tgt) else {}
        missing = [f for f in tables if f not in before]
        fault = None
        if q['fault'] and missing:
            fault = missing[q['fk'] % len(missing)]
            web.faults[base + fault] = q['fault']
        del web.log[:]
        asks = []
        if q['h5'] and in_h5 is not None:
            asks.append(q['yes'])
        if q['qc'] in qcs:
            asks.append(q['yes2'])
        e, asked = invoke(web, argv, asks)
        web.faults.clear()
        now = tree(tgt) if os.path.isdir(tgt) else {}
        for f in before:
            if f.endswith('.nc'):
                check(now.get(f) == before[f], f'{w}: {f} was altered')
        for f in now:
            if f.endswith('.nc'):
                check(f in tables, f'{w}: unexpected {f}')
                check(now[f] == web.data[base + f],
                      f'{w}: {f} is not what the archive holds')
            else:
                known = f in (h5,) or f.startswith(name.lower() + '-qc') \
                    or f.lower() == f'{name.lower()}_metadata.xml'
                check(known, f'{w}: left {f}')
        if q['meta']:
            m = [v for f, v in now.items()
                 if f.lower() == f'{name.lower()}_metadata.xml']
            check(m == [meta], f'{w}: metadata {m}')
        else:
            check(u['meta'] not in web.log, f'{w}: metadata without request')
        if fault:
            check(e is not None, f'{w}: a failed transfer goes unnoticed')
            check(fault not in now, f'{w}: incomplete {fault} kept')
            check(now.get(h5) == before.get(h5), f'{w}: summary changed by '
                                                 'a run that failed')
            continue
        check(set(tables) <= set(now), f'{w}: fetched only {sorted(now)}')
        again = [f for f in before if base + f in web.log]
        check(not again, f'{w}: {again} fetched again')
        names = sorted(f for f in now if f.endswith('.nc'))
        if q['h5']:
            if in_h5 is None or q['yes'].lower() == 'y':
                check(h5 in now, f'{w}: no {h5}: {e!r}')
                in_h5 = names
                conv += 1
            else:
                check(now[h5] == before[h5], f'{w}: {h5} changed although '
                                             f'answered {q["yes"]!r}')
            summary(os.path.join(tgt, h5), in_h5, tables, ids, lat, lon,
                    f'{w}: {h5}', None)
        else:
            check(now.get(h5) == before.get(h5), f'{w}: summary changed')
        qf = {f for f in now if '-qc' in f}
        if q['qc'] is None or in_h5 is None or q['qc'] == 'best':
            check({f: now[f] for f in qf} == {f: before[f] for f in before
                                              if '-qc' in f},
                  f'{w}: controlled data changed')
            if q['qc'] is None:
                check(e is None, f'{w}: {e!r}')
            else:
                check(e is not None, f'{w}: accepted')
            continue
        check(e is None, f'{w}: {e!r}')
        if q['qc'] not in qcs or q['yes2'].lower() == 'y':
            qcs[q['qc']] = list(in_h5)
            fresh = True
        else:
            fresh = False
        for m, used in qcs.items():
            f = f'{name.lower()}-qc{m}.h5'
            check(f in now, f'{w}: no {f}')
            if m != q['qc'] or not fresh:
                check(now[f] == before[f], f'{w}: {f} changed')
        check(len(qf) == len(qcs), f'{w}: {sorted(qf)}')
        f = f'{name.lower()}-qc{q["qc"]}.h5'
        summary(os.path.join(tgt, f), qcs[q['qc']], tables, ids, lat, lon,
                f'{w}: {f}', q['qc'])
    return [f'conversions {min(conv, 2)}', f'controls {len(qcs)}'] + (
        [] if conv or len(c['steps']) > 1 else ['trivial'])


def summary(path, names, tables, ids, lat, lon, what, qc):
    t = np.concatenate([tables[k][0] for k in names])
    X = np.concatenate([tables[k][1] for k in names])
    F = np.concatenate([tables[k][2] for k in names])
    with pd.HDFStore(path, 'r') as h:
        keys = {k.strip('/') for k in h.keys()}
    check(keys == {'latlon', 'data', 'flag'}, f'{what}: keys {keys}')
    d = pd.read_hdf(path, key='data')
    if qc is None:
        cmp_table(d, t, X, ids, f'{what}: data')
    else:
        E = controlled(X, F, qc)
        check(d.shape == E.shape, f'{what}: shape {d.shape}')
        same_index([int(i) for i in d.columns], [int(i) for i in ids],
                   f'{what}: ids')
        same_index(d.index.tz_convert('UTC'), pd.to_datetime(
            t.astype('int64'), unit='s', utc=True), f'{what}: time stamps')
        close(d.to_numpy(), E, 1e-5 if X.dtype == 'f4' else 1e-9, 1e-2
              if X.dtype == 'f4' else 1e-6, f'{what}: data')
    cmp_table(pd.read_hdf(path, key='flag'), t, F, ids, f'{what}: flag')
    cmp_latlon(pd.read_hdf(path, key='latlon'), ids, lat, lon,
               f'{what}: latlon')


def renew_case():
    """Histories in which new files arrive and everything is asked for again."""
    def same(c, qc, steps):
        return dict(c, bad=None, steps=[
            dict(q, qc=qc if q['qc'] else None, h5=True, fault=None)
            for q in steps])
    again = rec(h5=pick(True), qc=pick(None, 'x', 'x', 'x'),
                meta=pick(False), silent=pick(False, True),
                yes=pick('y', 'Y', 'y', 'Y', 'n'),
                yes2=pick('y', 'Y', 'N', 'n', ''), add=ints(1, 2),
                fault=pick(None), fk=ints(0, 1), long=pick(False, True))
    return st.builds(same, case(), pick('null', 'interp', 'flag'),
                     st.lists(again, min_size=2, max_size=4))


SUBS = [Sub('campaign', case, oracle, 220, 4000),
        Sub('renewals', renew_case, oracle, 70, 1500)]
