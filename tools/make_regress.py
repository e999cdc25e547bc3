"""Keep one minimised case per repaired defect: revert each fix of
known_findings.txt in a scratch copy, run the check of its property on it and
store the replay file it writes under regress/.  Prints the fixes whose
reversal goes unnoticed or does not apply.  Usage: make_regress.py [commit..]
"""
import glob
import json
import os
import re
import shutil
import subprocess
import sys
import tempfile
from concurrent.futures import ThreadPoolExecutor

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def run(*a, **k):
    return subprocess.run(a, capture_output=True, text=True, **k)


def one(item):
    prop, commit = item
    d = tempfile.mkdtemp(prefix='reg-')
    try:
        w = os.path.join(d, 'repo')
        run('git', 'clone', '-q', '/repo', w)
        r = run('git', '-C', w, 'revert', '-n', commit)
        if r.returncode:
            return f'{prop} {commit}: does not revert'
        env = dict(os.environ, VERIF_REPO_SRC=os.path.join(w, 'src'),
                   VERIF_PROCS='2')
        r = run(os.path.join(V, 'run.sh'), prop, env=env)
        m = re.findall(r'VIOLATION property=\S+ replay=(\S.*)', r.stdout)
        if not m:
            return f'{prop} {commit}: not detected ({r.stdout[-200:]!r})'
        out = []
        for p in m[:3]:
            c = json.load(open(p.strip()))
            t = os.path.join(V, 'regress', prop)
            os.makedirs(t, exist_ok=True)
            name = f"{commit}-{c['sub'].replace(' ', '-')}.json"
            if len(json.dumps(c)) < 20000:
                json.dump(c, open(os.path.join(t, name), 'w'), indent=1)
                out.append(name)
        return f'{prop} {commit}: ok {out}'
    finally:
        shutil.rmtree(d)


items = []
for ln in open(os.path.join(V, 'known_findings.txt')):
    m = re.match(r'fixed: property=(\S+) (\S+)', ln)
    if m and (len(sys.argv) == 1 or m.group(2) in sys.argv[1:]):
        items.append(m.groups())
with ThreadPoolExecutor(4) as ex:
    for x in ex.map(one, items):
        print(x, flush=True)
