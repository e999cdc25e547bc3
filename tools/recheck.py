"""recheck.py [ids...]: run the check of its property against every planted
bug of seeded/ in a scratch copy and report those that are missed."""
import json, os, shutil, subprocess, sys
from concurrent.futures import ThreadPoolExecutor
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def one(i):
    w = f'/tmp/rc/{i}'
    shutil.rmtree(w, ignore_errors=True)
    shutil.copytree('/repo/src', f'{w}/src',
                    ignore=shutil.ignore_patterns('__pycache__'))
    p = json.load(open(f'{V}/seeded/{i}/meta.json'))['property']
    try:
        r = subprocess.run(['git', 'apply', f'{V}/seeded/{i}/patch.diff'],
                           cwd=w, capture_output=True, text=True)
        if r.returncode:
            return i, p, 'does not apply'
        r = subprocess.run([f'{V}/run.sh', p], capture_output=True, text=True,
                           env=dict(os.environ, VERIF_REPO_SRC=f'{w}/src',
                                    VERIF_PROCS='2', VERIF_SEED='1'))
        ok = r.returncode == 1 and f'VIOLATION property={p}' in r.stdout
        return i, p, 'caught' if ok else f'MISSED rc={r.returncode}'
    finally:
        shutil.rmtree(w, ignore_errors=True)


ids = sys.argv[1:] or sorted(os.listdir(f'{V}/seeded'))
with ThreadPoolExecutor(4) as ex:
    n = 0
    for i, p, s in ex.map(one, ids):
        n += s == 'caught'
        if s != 'caught':
            print(i, p, s, flush=True)
print(f'{n} of {len(ids)} caught')
