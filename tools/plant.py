"""plant.py SPEC.py [ids...]: validate planted bugs in scratch copies and write
the good ones to /verif/seeded. SPEC defines BUGS = [dict(id, prop, file,
edits=[(old, new)], demo, needs, what)]. Also runs the property's quick check
against the scratch copy and records the outcome."""
import difflib, json, os, runpy, shutil, subprocess, sys, xml.etree.ElementTree as ET
from concurrent.futures import ThreadPoolExecutor
REPO = '/repo'
ORIG = subprocess.run(['git', '-C', REPO, 'log', '--format=%h', '--invert-grep', '--grep=^fix:', '-1'],
                      capture_output=True, text=True).stdout.strip()
STABLE = set(json.load(open('/opt/vp/BASELINE.json'))['stable'])
ENV = dict(os.environ, HOME='/root', LC_ALL='C.UTF-8', TZ='UTC', PYTHONDONTWRITEBYTECODE='1', PYTHONHASHSEED='0',
           MPLBACKEND='Agg', OMP_NUM_THREADS='1', OPENBLAS_NUM_THREADS='1', MKL_NUM_THREADS='1', NUMEXPR_NUM_THREADS='1')


def sh(cmd, **kw):
    return subprocess.run(cmd, capture_output=True, text=True, **kw)


def one(b, full=True):
    w = f"/tmp/bw/{b['id']}"
    shutil.rmtree(w, ignore_errors=True)
    os.makedirs(w)
    for d in ('src', 'tests'):
        shutil.copytree(f'{REPO}/{d}', f'{w}/{d}', ignore=shutil.ignore_patterns('__pycache__'))
    os.symlink(f'{REPO}/demos', f'{w}/demos')
    log = []
    try:
        diff = ''
        byfile = {}
        for e in b['edits']:
            f, old, new = e if len(e) == 3 else (b['file'], *e)
            byfile.setdefault(f, []).append((old, new))
        for f, eds in byfile.items():
            p = f'src/solarspatialtools/{f}'
            s0 = s = open(f'{w}/{p}').read()
            for old, new in eds:
                if s.count(old) != 1:
                    return b, f'edit matches {s.count(old)} times: {old[:60]!r}'
                s = s.replace(old, new)
            open(f'{w}/{p}', 'w').write(s)
            d = list(difflib.unified_diff(s0.splitlines(1), s.splitlines(1), f'a/{p}', f'b/{p}'))
            orig = set(sh(['git', '-C', REPO, 'show', f'{ORIG}:{p}']).stdout.splitlines())
            for l in d[2:]:
                if l.startswith('-') and l[1:].rstrip('\n') not in orig:
                    log.append(f'NOT ORIGINAL: {l.rstrip()}')
            diff += ''.join(l if l.endswith('\n') else l + '\n\\ No newline at end of file\n' for l in d)
        if sh(['git', '-C', REPO, 'apply', '--check', '-'], input=diff).returncode:
            return b, 'patch does not apply'
        dd = f'{w}/demo'
        os.makedirs(dd)
        open(f'{dd}/demo.py', 'w').write(b['demo'].lstrip('\n'))
        open(f'{dd}/demo.sh', 'w').write('#!/bin/bash\nexport PYTHONDONTWRITEBYTECODE=1 MPLBACKEND=Agg\n'
                                         'exec /opt/venv/bin/python "$(dirname "$0")/demo.py"\n')
        os.chmod(f'{dd}/demo.sh', 0o755)
        r0 = sh(['bash', f'{dd}/demo.sh'], cwd=REPO, env=ENV)
        r1 = sh(['bash', f'{dd}/demo.sh'], cwd=w, env=dict(ENV, PYTHONPATH=f'{w}/src'))
        if r0.returncode != 0:
            return b, 'demo fails on the clean tree: ' + r0.stderr[-400:]
        if r1.returncode == 0:
            return b, 'demo passes with the bug'
        if full:
            sh(['/opt/venv/bin/python', '-m', 'pytest', '-q', '-n', '2', '-p', 'no:cacheprovider', '--timeout=300',
                '-o', 'junit_family=xunit2', f'--junitxml={w}/j.xml'], cwd=f'{w}/tests', env=dict(ENV, PYTHONPATH=f'{w}/src'))
            ok = set()
            for t in ET.parse(f'{w}/j.xml').iter('testcase'):
                if not any(c.tag in ('failure', 'error', 'skipped') for c in t):
                    ok.add(f"{t.get('classname')}::{t.get('name')}")
            miss = {x for x in STABLE if x not in ok and 'tests.' + x not in ok and x.replace('tests.', '', 1) not in ok}
            if miss:
                return b, f'{len(miss)} stable tests fail, e.g. {sorted(miss)[:3]}'
        out = {}
        for pr in [b['prop']] + b.get('also', []):
            r = sh(['/verif/run.sh', pr], env=dict(os.environ, VERIF_REPO_SRC=f'{w}/src', VERIF_PROCS='3'), cwd='/verif')
            v = [l for l in r.stdout.splitlines() if l.startswith('VIOLATION')]
            out[pr] = 'caught' if r.returncode == 1 and v else f'missed (rc {r.returncode})'
            if v:
                log.append(f'{pr}: ' + r.stdout.splitlines()[0][:160])
        d = f"/verif/seeded/{b['id']}"
        if not any(l.startswith('NOT ORIG') for l in log):
            os.makedirs(d, exist_ok=True)
            open(f'{d}/patch.diff', 'w').write(diff)
            for f in ('demo.py', 'demo.sh'):
                shutil.copy(f'{dd}/{f}', f'{d}/{f}')
            json.dump({'property': b['prop'], 'needs': b['needs'], 'what_it_breaks': b['what']},
                      open(f'{d}/meta.json', 'w'), indent=1)
        return b, json.dumps(out) + ' ' + ' | '.join(log)
    finally:
        shutil.rmtree(w, ignore_errors=True)


if __name__ == '__main__':
    bugs = runpy.run_path(sys.argv[1])['BUGS']
    ids = set(sys.argv[2:])
    bugs = [b for b in bugs if not ids or b['id'] in ids]
    rf = '/verif/tools/seeded_results.json'
    with ThreadPoolExecutor(3) as ex:
        for b, msg in ex.map(one, bugs):
            print(b['id'], '->', msg, flush=True)
            if msg.startswith('{'):
                res = json.load(open(rf)) if os.path.exists(rf) else {}
                o = json.loads(msg[:msg.index('}') + 1])
                res[b['id']] = ', '.join(k for k, v in o.items() if v == 'caught') or 'missed'
                json.dump(res, open(rf, 'w'), indent=1, sort_keys=True)
