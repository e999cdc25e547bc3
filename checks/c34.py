import contextlib
import http.server
import io
import os
import pathlib
import re
import shutil
import tempfile
import threading
import urllib.error

import numpy as np
from hypothesis import strategies as st

from pbt.gen import ints, large, pick, rec, seeds
from pbt.harness import Sub, check, Violation
from solarspatialtools.dataio import iotools

RULE = ('non-trivial: a directory with matching and other entries, a path '
        'with something to create, a script with two files or a repetition')
ASSUMPTIONS = ['scripts hold one command per line with the URL last; file '
               'names within one script are distinct; everything happens in '
               'scratch directories and over loopback']

STEM = st.text('ab.Z_1 -', min_size=1, max_size=8).filter(
    lambda s: s.strip('.') and s == s.strip())
EXTS = ['.nc', '.csv', '.txt', '.h5', '.NC', '.nc4', '.nc.bak', '.gz', '',
        '.tar.gz', '.c']


def tree(path):
    out = {}
    for d, dirs, files in os.walk(path):
        for x in dirs:
            out[os.path.relpath(os.path.join(d, x), path)] = None
        for x in files:
            p = os.path.join(d, x)
            out[os.path.relpath(p, path)] = open(p, 'rb').read()
    return out


# ------------------------------------------------------------------- listing
def list_case():
    stem = st.one_of(STEM, STEM, STEM, pick('', '.a', 'a.nc'))
    return rec(names=st.lists(st.tuples(stem, pick(*EXTS)), max_size=12),
               dirs=st.lists(st.tuples(STEM, pick('', '.nc', '.csv')),
                             max_size=2),
               ext=pick(None, '.nc', '.csv', '.txt', '.h5', '.NC', '.gz', '.c', ''),
               sort=pick(None, True, False), rel=pick(False, True),
               links=st.lists(st.tuples(STEM, pick('', '.nc', '.csv')),
                              max_size=2))


def list_oracle(c):
    d = tempfile.mkdtemp(prefix='c34-')
    try:
        names = set()
        for a, b in c['names']:
            if a + b:
                names.add(a + b)
        for a, b in c['dirs']:
            if a + b not in names:
                os.makedirs(os.path.join(d, a + b), exist_ok=True)
        for x in names:
            open(os.path.join(d, x), 'w').close()
        names |= {a + b for a, b in c['dirs']}
        for a, b in c.get('links', ()):     # what they name is not there
            if a + b not in names:
                os.symlink(os.path.join(d, '..', 'c34-none'),
                           os.path.join(d, a + b))
                names.add(a + b)
        kw = {}
        if c['sort'] is not None:
            kw['sort'] = c['sort']
        if c['ext'] is not None or c['rel']:
            kw['ext'] = c['ext']
        got = iotools.getfiles(d, **kw)
        if c['ext'] is None:
            exp = set(names)
        else:
            exp = {x for x in names if os.path.splitext(x)[1] == c['ext']}
        w = f"getfiles(ext={c['ext']!r}) of {sorted(names)}"
        check(isinstance(got, list), f'{w}: {type(got).__name__}')
        check(len(got) == len(set(got)), f'{w}: repeated names')
        check(set(got) == exp, f'{w}: {sorted(got)}')
        if c['sort'] in (None, True):
            check(got == sorted(exp), f'{w}: not sorted: {got}')
        check(set(os.listdir(d)) == names, f'{w}: directory changed')
    finally:
        shutil.rmtree(d)
    return [] if exp and exp != names else ['trivial']


# ------------------------------------------------------------------ creating
def path_case():
    return rec(parts=st.lists(STEM, min_size=1, max_size=5),
               exist=ints(0, 5), content=ints(0, 3), rep=ints(1, 3),
               slash=pick(False, True), file=pick(False, False, True))


def path_oracle(c):
    d = tempfile.mkdtemp(prefix='c34-')
    try:
        parts = c['parts']
        k = min(c['exist'], len(parts))
        pre = os.path.join(d, *parts[:k])
        os.makedirs(pre, exist_ok=True)
        for i in range(c['content']):
            with open(os.path.join(pre, f'__keep{i}'), 'w') as fh:
                fh.write(str(i))
        t0 = tree(d)
        p = os.path.join(d, *parts) + ('/' if c['slash'] else '')
        if c.get('file') and k < len(parts):
            # a file of that name is in the way: it is not lost
            with open(os.path.join(pre, parts[k]), 'w') as fh:
                fh.write('keep')
            t0 = tree(d)
            for _ in range(c['rep']):
                with contextlib.suppress(OSError):
                    iotools.ensurepath(p)
            t1 = tree(d)
            check({x: b for x, b in t1.items() if x in t0} == t0,
                  f'ensurepath changed {t0} to {t1}')
            return ['file']
        for _ in range(c['rep']):
            iotools.ensurepath(p)
        check(os.path.isdir(p), f'{parts} was not created')
        t1 = tree(d)
        exp = dict(t0)
        for i in range(1, len(parts) + 1):
            exp.setdefault(os.path.join(*parts[:i]), None)
        check(t1 == exp, f'ensurepath changed {set(t1) ^ set(exp)}')
    finally:
        shutil.rmtree(d)
    return [] if k < len(parts) else ['trivial']


def hist_case():
    step = st.tuples(pick('ensure', 'ensure', 'ensure', 'remove', 'put',
                          'list', 'list'), ints(0, 3), ints(0, 3))
    return rec(steps=st.lists(step, min_size=3, max_size=14),
               nest=pick(True, False))


def hist_oracle(c):
    """Histories over a few directories: creating, removing from outside,
    adding files and listing, in any order."""
    d = tempfile.mkdtemp(prefix='c34-')
    cwd = os.getcwd()
    kinds = []
    try:
        paths = [os.path.join('a', 'b', 'c'), os.path.join('a', 'b'),
                 'a', os.path.join('a', 'x') if c['nest'] else 'x']
        model = {}
        os.chdir(d)

        def add(p):
            while p:
                model.setdefault(p, set())
                p = os.path.dirname(p)
        for k, (what, i, j) in enumerate(c['steps']):
            rel = paths[i]
            p = rel if j == 3 else os.path.join(d, rel)
            w = f'step {k} ({what} {rel})'
            if what == 'ensure':
                if rel not in model:
                    kinds.append('new')
                iotools.ensurepath(p)
                add(rel)
            elif what == 'remove':
                if rel in model:
                    shutil.rmtree(os.path.join(d, rel))
                    kinds.append('removed')
                    for q in list(model):
                        if q == rel or q.startswith(rel + os.sep):
                            del model[q]
            elif what == 'put':
                if rel in model:
                    nm = f'f{j}' + ('.csv' if j % 2 else '.nc')
                    open(os.path.join(d, rel, nm), 'w').close()
                    model[rel].add(nm)
            elif rel in model:
                ext = [None, '.csv', '.nc', '.csv'][j]
                got = iotools.getfiles(p, ext=ext)
                sub = {os.path.basename(q) for q in model
                       if os.path.dirname(q) == rel}
                exp = sorted(x for x in model[rel] | sub
                             if ext is None or os.path.splitext(x)[1] == ext)
                check(got == exp, f'{w}: {got}, expected {exp}')
            now = {x for x, b in tree(d).items() if b is None}
            check(now == set(model), f'{w}: directories {sorted(now)}, '
                  f'expected {sorted(model)}')
            files = {x for x, b in tree(d).items() if b is not None}
            check(files == {os.path.join(q, f) for q in model
                            for f in model[q]}, f'{w}: files {sorted(files)}')
    finally:
        os.chdir(cwd)
        shutil.rmtree(d)
    return [] if kinds.count('new') > 1 and 'removed' in kinds else ['trivial']


# ------------------------------------------------------------------ fetching
FN = st.text('aB1_-', min_size=1, max_size=8)


def fetch_case():
    f = rec(stem=FN, ext=pick('.nc', '.csv', '', '.tar.gz'), size=pick(
        0, 1, 7, 300, 9000, 20000), seed=seeds(),
        have=pick('no', 'no', 'same', 'other', 'empty'),
        style=pick('wget', 'bare', 'opts', 'tab'))
    return rec(files=st.lists(f, min_size=1, max_size=6), rep=ints(1, 3),
               missing=pick(None, None, 0, 1, 3), eol=pick('\n', '\r\n'),
               last=pick(True, False), verbose=pick(None, True, False),
               sub=st.lists(FN, max_size=2), slash=pick(False, True),
               long=pick(0, 0, 0, 3000, 70000))


def body(f):
    return np.random.default_rng(f['seed']).integers(
        0, 256, f['size'], dtype='u1').tobytes()


def script(lines, c):
    if c.get('long'):       # a script of many thousand bytes
        lines = [re.sub('^wget', 'wget --header=' + 'x' * c['long'], x)
                 for x in lines]
    t = c['eol'].join(lines)
    return (t + (c['eol'] if c['last'] else '')).encode()


def quiet(fn):
    with contextlib.redirect_stdout(io.StringIO()) as out:
        fn()
    return out.getvalue()


def line(f, url):
    return {'wget': f'wget {url}', 'bare': url,
            'opts': f'wget -c --no-check-certificate {url}',
            'tab': f'wget\t-x  {url}'}[f['style']]


def dedupe(files):
    out = {}
    for f in files:
        out.setdefault(f['stem'] + f['ext'], f)
    return out


def fetch_oracle(c):
    root = tempfile.mkdtemp(prefix='c34-')
    try:
        src = os.path.join(root, 'src', *[f's{x}' for x in c['sub']])
        tgt = os.path.join(root, 'tgt')
        os.makedirs(src)
        os.makedirs(tgt)
        files = dedupe(c['files'])
        names = list(files)
        lines, exp = [], {}
        for nm, f in files.items():
            b = body(f)
            p = os.path.join(src, nm)
            with open(p, 'wb') as fh:
                fh.write(b)
            lines.append(line(f, pathlib.Path(p).as_uri()))
            h = {'no': None, 'same': b, 'other': b'mine' + b,
                 'empty': b''}[f['have']]
            if h is not None:
                with open(os.path.join(tgt, nm), 'wb') as fh:
                    fh.write(h)
            exp[nm] = b if h is None else h
        with open(os.path.join(tgt, '~unrelated'), 'wb') as fh:
            fh.write(b'keep')
        exp['~unrelated'] = b'keep'
        sp = os.path.join(root, 'wget.sh')
        with open(sp, 'wb') as fh:
            fh.write(script(lines, c))
        url = pathlib.Path(sp).as_uri()
        tg = tgt + ('/' if c['slash'] else '')

        def go():
            if c['verbose'] is None:
                return quiet(lambda: iotools.wget_fromurl(url, tg))
            return quiet(lambda: iotools.wget_fromurl(url, tg, c['verbose']))
        gone = None
        if c['missing'] is not None and c['missing'] < len(names):
            gone = names[c['missing']]
            os.rename(os.path.join(src, gone), os.path.join(root, 'hold'))
            before = tree(tgt)
            fails = files[gone]['have'] == 'no'
            try:
                go()
                if fails:
                    raise Violation(f'a missing source file {gone} was not '
                                    f'reported')
            except (OSError, urllib.error.URLError):
                check(fails, f'{gone} exists already but was fetched')
            now = tree(tgt)
            for nm, b in now.items():
                check(b == exp.get(nm), f'{nm} after an interrupted fetch')
            check(set(before) <= set(now), 'files vanished')
            os.rename(os.path.join(root, 'hold'), os.path.join(src, gone))
        for k in range(c['rep']):
            if k == 1:      # nothing is fetched again
                for nm in files:
                    with open(os.path.join(src, nm), 'wb') as fh:
                        fh.write(b'changed on the server')
                mt = {x: os.stat(os.path.join(tgt, x)).st_mtime_ns
                      for x in exp}
            said = go()
            if c['verbose'] is False:
                check(said == '', f'run {k}: prints although not verbose')
            else:
                check(all(nm in said for nm in files),
                      f'run {k}: not all files were reported: {said!r}')
            now = tree(tgt)
            check(set(now) == set(exp), f'run {k}: files {sorted(now)}, '
                  f'expected {sorted(exp)}')
            for nm in exp:
                check(now[nm] == exp[nm], f'run {k}: content of {nm}')
            if k >= 1:
                check(mt == {x: os.stat(os.path.join(tgt, x)).st_mtime_ns
                             for x in exp}, f'run {k}: files rewritten')
    finally:
        shutil.rmtree(root)
    return (['interrupted'] if gone else []) + (
        ['repeated'] if c['rep'] > 1 else []) + (
        [] if len(files) > 1 or c['rep'] > 1 else ['trivial'])


# ------------------------------------------------- interrupted over the wire
def wire_case():
    f = rec(stem=FN, ext=pick('.nc', '.bin'), size=pick(10, 500, 12000),
            seed=seeds(), have=pick('no', 'no', 'no', 'other'),
            style=pick('wget', 'bare'), fault=pick(
                'none', 'none', 'cut', 'cut', 'e404', 'e500', 'drop'))
    return rec(files=st.lists(f, min_size=1, max_size=5), eol=pick('\n'),
               last=pick(True, False), frac=pick(0., .3, .9))


def wire_oracle(c):
    """Faults of the server hit single transfers; the fetch is repeated until
    it completes. No file may ever be incomplete under its final name."""
    files = dedupe(c['files'])
    faults = {nm: f['fault'] for nm, f in files.items()}
    data = {nm: body(f) for nm, f in files.items()}
    served = {}

    class H(http.server.BaseHTTPRequestHandler):
        def do_GET(self):
            nm = os.path.basename(self.path)
            if nm == 'wget.sh':
                b = self.server.script
                fault = 'none'
            else:
                b = data[nm]
                served[nm] = served.get(nm, 0) + 1
                fault = faults.pop(nm, 'none')
            if fault == 'drop':
                self.close_connection = True
                self.connection.close()
                return
            if fault.startswith('e'):
                self.send_response(int(fault[1:]))
                self.send_header('Content-Length', '5')
                self.end_headers()
                self.wfile.write(b'error')
                return
            self.send_response(200)
            self.send_header('Content-Length', str(len(b)))
            self.end_headers()
            if fault == 'cut':
                b = b[:int(c['frac'] * len(b))]
                self.close_connection = True
            self.wfile.write(b)

        def finish(self):
            with contextlib.suppress(OSError, ValueError):
                super().finish()

        def log_message(self, *a):
            pass

    class S(http.server.HTTPServer):
        def handle_error(self, *a):
            pass
    srv = S(('127.0.0.1', 0), H)
    th = threading.Thread(target=srv.serve_forever, kwargs={
        'poll_interval': .005}, daemon=True)
    th.start()
    tgt = tempfile.mkdtemp(prefix='c34-')
    env = {k: os.environ.pop(k) for k in list(os.environ)
           if k.lower().endswith('_proxy')}
    try:
        base = f'http://127.0.0.1:{srv.server_port}/'
        srv.script = script([line(f, base + nm) for nm, f in files.items()],
                            c)
        exp = dict(data)
        for nm, f in files.items():
            if f['have'] == 'other':
                exp[nm] = b'mine'
                faults.pop(nm, None)
                with open(os.path.join(tgt, nm), 'wb') as fh:
                    fh.write(b'mine')
        nf = sum(v != 'none' for v in faults.values())
        rounds = 0
        while True:
            rounds += 1
            check(rounds <= nf + 1, 'the fetch does not complete')
            try:
                quiet(lambda: iotools.wget_fromurl(base + 'wget.sh', tgt))
                done = True
            except Violation:
                raise
            except Exception:
                done = False
            now = tree(tgt)
            for nm in files:
                if nm in now:
                    check(now[nm] == exp[nm], f'{nm}: {len(now[nm])} of '
                          f'{len(exp[nm])} bytes under its final name after '
                          f'{"a complete" if done else "an interrupted"} '
                          f'fetch')
            if done:
                break
        check(set(files) <= set(now), f'files {sorted(now)}')
        n0 = dict(served)
        quiet(lambda: iotools.wget_fromurl(base + 'wget.sh', tgt))
        check(served == n0, 'complete files were requested again')
        check(set(tree(tgt)) == set(exp), f'left behind: {set(tree(tgt))}')
        for nm, f in files.items():
            if f['have'] == 'other':
                check(nm not in served, f'{nm} exists but was requested')
    finally:
        os.environ.update(env)
        srv.shutdown()
        srv.server_close()
        shutil.rmtree(tgt)
    return [f'faults {nf}'] + ([] if nf else ['trivial'])


SUBS = [Sub('list', list_case, list_oracle, 400, 10000),
        Sub('list at scale', lambda: large(list_case(), names=lambda r: [
            (f'{r.choice(list("aAbz_9"))}{r.integers(3000)}', str(r.choice(EXTS)))
            for _ in range(int(r.integers(100, 700)))]), list_oracle, 8, 100),
        Sub('ensure', path_case, path_oracle, 200, 5000),
        Sub('histories', hist_case, hist_oracle, 300, 8000),
        Sub('fetch', fetch_case, fetch_oracle, 300, 8000),
        Sub('interrupted', wire_case, wire_oracle, 160, 4000)]
