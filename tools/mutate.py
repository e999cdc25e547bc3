"""mutate.py [--files a.py,b.py] [--out FILE] [--jobs N]: exhaustive small
mutations of the code under test in scratch copies; runs the checks mapped to
the mutated function and lists the mutants no check notices. A tool for finding
holes in the checks; nothing registered uses it."""
import argparse, ast, json, os, shutil, subprocess, sys, time
from concurrent.futures import ThreadPoolExecutor
SRC = '/repo/src/solarspatialtools'
SNAP = f'/tmp/mutate_base_{os.getpid()}'
MAP = {
 'spatial.py': {'_calc_zone': 'C01 C02', 'latlon2utm': 'C01 C02', 'utm2latlon': 'C01 C02', 'latlon2lcs': 'C02', 'lcs2latlon': 'C02',
   'lla2flat': 'C02', 'compute_intersection': 'C04', 'spacetime_distances': 'C05', '*': 'C03 C04'},
 'signalproc.py': {'correlation': 'C06 C10', '_fftcorrelate': 'C06', 'averaged_psd': 'C07', 'averaged_tf': 'C07 C11', 'interp_tf': 'C08',
   'cleanfreq': 'C08', 'apply_delay': 'C08', 'tf_delay': 'C09', 'xcorr_delay': 'C10', 'compute_delays': 'C10 C18', 'compute_delays_tf': 'C11 C18',
   'get_1d_plant': 'C12', 'plant1d_to_camfilter': 'C12', 'get_camfilter': 'C12', 'apply_filter': 'C13', 'get_marcosfilter': 'C13', '*': 'C09 C10'},
 'stats.py': {'variability_score': 'C15', 'variability_index': 'C15', 'darr': 'C15', 'calc_quantile': 'C16', '*': 'C14'},
 'irradiance.py': {'*': 'C17'},
 'cmv.py': {'optimum_subset': 'C21', 'calc_cost': 'C21', 'cost_wrapper': 'C21', '*': 'C18 C19 C20'},
 'field.py': {'compute_predicted_position': 'C22', 'compute_delays': 'C11 C22', 'remap_positions': 'C23', 'cascade_remap': 'C23', 'assign_positions': 'C24', '*': 'C22'},
 'synthirrad/copula.py': {'*': 'C25 C26 C27'},
 'synthirrad/cloudfield.py': {'get_timeseries_stats': 'C28', 'get_positional_ts': 'C30', '*': 'C29'},
 'dataio/hope_campaign.py': {'flag_qc': 'C31', 'null_qc': 'C31', 'interp_nan': 'C31', 'parse_file': 'C32', 'dataset_to_h5': 'C32', '*': 'C37'},
 'dataio/nrcan_data.py': {'*': 'C33'},
 'dataio/iotools.py': {'*': 'C34'},
 'visualization/vis_tools.py': {'*': 'C36'},
}
SWAP = {'nanmean': 'mean', 'mean': 'nanmean', 'argmax': 'argmin', 'argmin': 'argmax', 'max': 'min', 'min': 'max', 'nanmax': 'max', 'nanmedian': 'nanmean',
  'median': 'mean', 'floor': 'ceil', 'ceil': 'floor', 'std': 'var', 'cos': 'sin', 'sin': 'cos', 'total_seconds': 'seconds', 'ffill': 'bfill', 'real': 'imag',
  'nanpercentile': 'percentile', 'nanstd': 'std', 'bitwise_or': 'bitwise_and', 'bitwise_and': 'bitwise_or', 'any': 'all', 'all': 'any', 'fftfreq': 'rfftfreq', 'sum': 'mean', 'values': 'values', 'round': 'floor', 'logical_or': 'logical_and', 'logical_and': 'logical_or'}


class Gen(ast.NodeVisitor):
    def __init__(self, text):
        self.text, self.out, self.fn = text, [], []
        self.off = [0]
        for l in text.encode().splitlines(True):
            self.off.append(self.off[-1] + len(l))
        self.b = text.encode()

    def span(self, n):
        return self.off[n.lineno - 1] + n.col_offset, self.off[n.end_lineno - 1] + n.end_col_offset

    def add(self, n, new, span=None):
        a, z = span or self.span(n)
        old = self.b[a:z].decode()
        if old != new:
            self.out.append((self.fn[-1] if self.fn else '<module>', n.lineno, a, z, old, new))

    def src(self, n):
        a, z = self.span(n)
        return self.b[a:z].decode()

    def visit_FunctionDef(self, n):
        self.fn.append(n.name)
        for d in n.args.defaults + [k for k in n.args.kw_defaults if k]:
            self.visit(d)
        body = n.body[1:] if ast.get_docstring(n) is not None else n.body
        for s in body:
            self.visit(s)
        self.fn.pop()

    def visit_ClassDef(self, n):
        body = n.body[1:] if ast.get_docstring(n) is not None else n.body
        self.fn.append(n.name)
        for s in body:
            self.visit(s)
        self.fn.pop()

    def visit_Compare(self, n):
        T = {ast.Lt: ['<=', '>'], ast.LtE: ['<', '>'], ast.Gt: ['>=', '<'], ast.GtE: ['>', '<'], ast.Eq: ['!='], ast.NotEq: ['=='], ast.Is: ['is not'], ast.IsNot: ['is'], ast.In: ['not in'], ast.NotIn: ['in']}
        if len(n.ops) == 1:
            for t in T.get(type(n.ops[0]), []):
                self.add(n, f'({self.src(n.left)} {t} {self.src(n.comparators[0])})')
        self.generic_visit(n)

    def visit_BinOp(self, n):
        T = {ast.Add: ['-'], ast.Sub: ['+'], ast.Mult: ['/'], ast.Div: ['*'], ast.FloorDiv: ['/'], ast.Mod: ['*'], ast.BitAnd: ['|'], ast.BitOr: ['&']}
        for t in T.get(type(n.op), []):
            self.add(n, f'(({self.src(n.left)}) {t} ({self.src(n.right)}))')
        if isinstance(n.op, (ast.Add, ast.Sub)):
            self.add(n, f'({self.src(n.left)})')
        self.generic_visit(n)

    def visit_BoolOp(self, n):
        t = ' or ' if isinstance(n.op, ast.And) else ' and '
        self.add(n, '(' + t.join('(' + self.src(v) + ')' for v in n.values) + ')')
        for v in n.values:
            self.add(n, f'({self.src(v)})')
        self.generic_visit(n)

    def visit_UnaryOp(self, n):
        if isinstance(n.op, (ast.USub, ast.Not, ast.Invert)):
            self.add(n, f'({self.src(n.operand)})')
        self.generic_visit(n)

    def visit_Constant(self, n):
        v = n.value
        if v is True or v is False:
            self.add(n, str(not v))
        elif isinstance(v, int):
            self.add(n, str(v + 1))
            if v > 0:
                self.add(n, str(v - 1))
        elif isinstance(v, float):
            self.add(n, repr(v * 1.1 if v else .1))
        elif isinstance(v, str) and v and '{' not in self.src(n):
            pass

    def visit_JoinedStr(self, n):
        pass

    def visit_If(self, n):
        self.add(n.test, 'True')
        self.add(n.test, 'False')
        self.generic_visit(n)

    def visit_IfExp(self, n):
        self.add(n, f'({self.src(n.body)})')
        self.add(n, f'({self.src(n.orelse)})')
        self.generic_visit(n)

    def visit_Raise(self, n):
        self.add(n, 'pass')

    def visit_Expr(self, n):
        if isinstance(n.value, ast.Constant):
            return
        self.add(n, 'pass')
        self.generic_visit(n)

    def visit_AugAssign(self, n):
        self.add(n, 'pass')
        self.generic_visit(n)

    def visit_Assign(self, n):
        t = n.targets[0]
        if isinstance(t, ast.Subscript):
            self.add(n, 'pass')
        elif isinstance(t, ast.Name) and t.id in {x.id for x in ast.walk(n.value) if isinstance(x, ast.Name)}:
            self.add(n, 'pass')
        self.generic_visit(n)

    def visit_Call(self, n):
        f = n.func
        for k in n.keywords:
            if k.arg:
                rest = [self.src(a) for a in n.args] + [
                    (f'{q.arg}=' if q.arg else '**') + self.src(q.value) for q in n.keywords if q is not k]
                self.add(n, f'{self.src(f)}({", ".join(rest)})')
        nm = f.attr if isinstance(f, ast.Attribute) else getattr(f, 'id', '')
        if nm in SWAP and SWAP[nm] != nm and isinstance(f, ast.Attribute):
            self.add(n, self.src(f.value) + '.' + SWAP[nm] + self.src(n)[len(self.src(f)):])
        if nm in ('abs', 'deepcopy', 'conj', 'unique', 'sorted', 'int', 'float', 'lower', 'upper', 'copy', 'sqrt', 'round', 'asarray', 'array', 'flatten', 'squeeze', 'list', 'set', 'tuple', 'clip'):
            if n.args and not (isinstance(f, ast.Attribute) and not isinstance(f.value, ast.Name)):
                self.add(n, f'({self.src(n.args[0])})')
            elif isinstance(f, ast.Attribute) and not n.args:
                self.add(n, f'({self.src(f.value)})')
        if len(n.args) >= 2 and len(n.args) <= 3 and not n.keywords and nm not in ('isinstance', 'hasattr', 'range'):
            a = [self.src(x) for x in n.args]
            self.add(n, f'{self.src(f)}({", ".join([a[1], a[0]] + a[2:])})')
        self.generic_visit(n)


FAST = r'''
import sys, os, time, importlib
sys.path.insert(0, '/verif')
from pbt import env
env.load_hypothesis()
import numpy as np
from pbt import harness
harness.SHRINK_BUDGET = 0
try:
    env.load_target()
except Exception as e:
    print('KILL import', e); sys.exit(0)
t0 = time.time()
for prop in sys.argv[1:]:
    try:
        mod = importlib.import_module('checks.' + prop.lower())
    except Exception as e:
        print('KILL import of check', e); sys.exit(0)
    for sub in mod.SUBS:
        sh = sub.shards or (8 if sub.quick >= 160 else max(1, min(8, sub.quick // 20)))
        for k in range(sh):
            m = sub.quick // sh + (1 if k < sub.quick % sh else 0)
            if not m: continue
            r = harness.run_shard(prop, sub, k, sh, m, 1, t0 + 400)
            if r['failure']:
                print('KILL', prop, sub.name, r['failure'][1][:120]); sys.exit(0)
print('SURVIVED', time.time() - t0)
'''


def run(job):
    k, f, m = job
    fn, line, a, z, old, new = m
    w = f'/tmp/mw/{os.getpid()}_{k}'
    shutil.rmtree(w, ignore_errors=True)
    shutil.copytree(SNAP, w, ignore=shutil.ignore_patterns('__pycache__', '*.egg-info'))
    try:
        p = f'{w}/solarspatialtools/{f}'
        b = open(p, 'rb').read()
        b = b[:a] + new.encode() + b[z:]
        try:
            compile(b, p, 'exec')
        except SyntaxError:
            return job, 'SYNTAX'
        open(p, 'wb').write(b)
        ids = MAP[f].get(fn, MAP[f]['*']).split()
        e = dict(os.environ, VERIF_REPO_SRC=w, PYTHONDONTWRITEBYTECODE='1', PYTHONHASHSEED='0', TZ='UTC', LC_ALL='C.UTF-8', MPLBACKEND='Agg',
                 OMP_NUM_THREADS='1', OPENBLAS_NUM_THREADS='1', MKL_NUM_THREADS='1', NUMEXPR_NUM_THREADS='1', BLOSC_NTHREADS='1')
        try:
            r = subprocess.run(['/opt/venv/bin/python', '-c', FAST, *ids], env=e, cwd='/verif', capture_output=True, text=True, timeout=900)
        except subprocess.TimeoutExpired:
            return job, 'TIMEOUT'
        o = [l for l in r.stdout.splitlines() if l.startswith(('KILL', 'SURVIVED'))]
        return job, o[-1] if o else 'ERROR ' + r.stderr[-300:]
    finally:
        shutil.rmtree(w, ignore_errors=True)


if __name__ == '__main__':
    ap = argparse.ArgumentParser()
    ap.add_argument('--files', default=','.join(MAP))
    ap.add_argument('--out', default='/tmp/mutants.log')
    ap.add_argument('--jobs', type=int, default=8)
    ap.add_argument('--funcs')
    ap.add_argument('--count', action='store_true')
    a = ap.parse_args()
    shutil.copytree('/repo/src', SNAP, ignore=shutil.ignore_patterns('__pycache__', '*.egg-info'))
    jobs = []
    for f in a.files.split(','):
        t = open(f'{SRC}/{f}').read()
        g = Gen(t)
        g.visit(ast.parse(t))
        for m in sorted(set(g.out), key=lambda m: m[2:4]):
            if a.funcs and m[0] not in a.funcs.split(','):
                continue
            jobs.append((len(jobs), f, m))
        print(f, len(jobs))
    if a.count:
        sys.exit()
    with open(a.out, 'a') as out, ThreadPoolExecutor(a.jobs) as ex:
        for (k, f, m), res in ex.map(run, jobs):
            print(f'{res.split()[0]} {f}:{m[1]} {m[0]}: {m[4][:70]!r} -> {m[5][:90]!r} | {res[:110]}', file=out, flush=True)
    shutil.rmtree(SNAP)
