"""Entry point: python -m pbt.main ID [--tier T] [--replay FILE]"""
import argparse
import glob
import hashlib
import importlib
import json
import multiprocessing as mp
import os
import sys
import time
import traceback

from pbt import env

env.load_hypothesis()
import numpy as np  # noqa: E402
from pbt import harness  # noqa: E402

VERIF = env.VERIF


def known_findings(prop):
    """Committed list of recorded defects: KNOWN-FINDING entries are JSON lines
    {"property","sub","match","what"}; 'fixed:' lines suppress nothing."""
    out = []
    path = os.path.join(VERIF, 'known_findings.txt')
    if os.path.exists(path):
        for line in open(path):
            line = line.strip()
            if line.startswith('{'):
                e = json.loads(line)
                if e['property'] == prop:
                    out.append(e)
    return out


def strict(o):
    """Evidence is strict JSON: non-finite numbers are written as text."""
    if isinstance(o, float) and (o != o or o in (float('inf'), -float('inf'))):
        return repr(o)
    if isinstance(o, dict):
        return {k: strict(v) for k, v in o.items()}
    if isinstance(o, (list, tuple)):
        return [strict(v) for v in o]
    return o


def _worker(args):
    prop, mod_name, sub_i, shard, nshards, n, seed, deadline = args
    try:
        mod = importlib.import_module(mod_name)
        sub = mod.SUBS[sub_i]
        r = harness.run_shard(prop, sub, shard, nshards, n, seed, deadline)
        return sub_i, shard, r, None
    except BaseException:
        return sub_i, shard, None, traceback.format_exc()


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('id')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    ap.add_argument('--replay')
    ap.add_argument('--only')
    ap.add_argument('--procs', type=int, default=int(
        os.environ.get('VERIF_PROCS', '8')))
    ap.add_argument('--scale', type=float, default=1.0)
    ap.add_argument('-v', action='store_true')
    a = ap.parse_args()
    tier = a.tier if a.tier in ('quick', 'thorough') else 'quick'
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    prop = a.id
    t0 = time.time()

    try:
        env.load_target()
    except Exception as e:
        # A tree whose package cannot be imported gives no answer.
        traceback.print_exc()
        print(f'ERROR: cannot import the code under test: {e}')
        return 2
    mod_name = f'checks.{prop.lower()}'
    mod = importlib.import_module(mod_name)
    subs = mod.SUBS

    if a.replay:
        r = json.load(open(a.replay))
        sub = next(s for s in subs if s.name == r['sub'])
        tags, msg = harness.run_oracle(sub, r['case'])
        if msg is not None:
            print(f'{sub.name}: {msg}')
            print(f'VIOLATION property={prop} replay={a.replay}')
            return 1
        print('replay: property holds on this case', tags)
        return 0

    failures = []     # (sub name, case, message)
    per_sub = {s.name: {'evaluations': 0, 'distinct_nontrivial': 0,
                        'tags': {}} for s in subs}
    seen = {s.name: {} for s in subs}
    samples = []
    timed_out = False

    # 1. replay tier: minimised cases of earlier failures
    regress = sorted(glob.glob(os.path.join(VERIF, 'regress', prop, '*.json')))
    n_reg = 0
    for path in regress:
        r = json.load(open(path))
        sub = next((s for s in subs if s.name == r['sub']), None)
        if sub is None or (a.only and sub.name != a.only):
            continue
        n_reg += 1
        _, msg = harness.run_oracle(sub, r['case'])
        if msg is not None:
            failures.append((sub.name, r['case'], msg))

    # 2. generated search
    budget = 300 if tier == 'quick' else 3000
    deadline = t0 + budget
    jobs = []
    for i, s in enumerate(subs):
        if a.only and s.name != a.only:
            continue
        n = s.quick if tier == 'quick' else s.thorough
        n = max(1, int(n * a.scale))
        shards = s.shards or (8 if n >= 160 else max(1, min(8, n // 20)))
        for k in range(shards):
            m = n // shards + (1 if k < n % shards else 0)
            if m:
                jobs.append((prop, mod_name, i, k, shards, m, seed, deadline))
    errors = []
    if not failures:
        # largest first is unknown; interleave shards so subs progress together
        jobs.sort(key=lambda j: (j[3], j[2]))
        ctx = mp.get_context('fork')
        with ctx.Pool(min(a.procs, max(1, len(jobs)))) as pool:
            for sub_i, shard, r, err in pool.imap_unordered(_worker, jobs):
                s = subs[sub_i]
                if err is not None:
                    errors.append((s.name, err))
                    continue
                timed_out |= r['timeout']
                ps = per_sub[s.name]
                ps['evaluations'] += r['evaluations']
                for t, c in r['tags'].items():
                    ps['tags'][t] = ps['tags'].get(t, 0) + c
                seen[s.name].update(r['seen'])
                for t in r['samples']:
                    samples.append((s.name, t))
                if r['failure'] is not None:
                    failures.append((s.name, *r['failure']))
    for s in subs:
        per_sub[s.name]['distinct_nontrivial'] = sum(
            1 for v in seen[s.name].values() if v)

    # 3. known findings, reporting
    kf = known_findings(prop)
    known, new = [], []
    for f in failures:
        hit = next((e for e in kf if e['sub'] == f[0]
                    and e['match'] in f[2]), None)
        (known if hit else new).append((f, hit))

    # deterministic small selection of samples
    by = {}
    for name, t in sorted(set(samples)):
        by.setdefault(name, []).append(t)
    smp = [{'sub': k, 'case': json.loads(t)} for k in by
           for t in sorted(by[k], key=len)[-1:]]
    ev = {
        'property': prop, 'tier': tier, 'seed': seed, 'level': 'exploration',
        'coverage': {
            'evaluations': sum(p['evaluations'] for p in per_sub.values()),
            'distinct_nontrivial': sum(p['distinct_nontrivial']
                                       for p in per_sub.values()),
            'rule': mod.RULE,
            'samples': smp[:12] or [{'note': 'stopped at a failing case'}],
            'per_sub': per_sub,
            'regression_cases': n_reg,
            'stopped_by_time_budget': timed_out,
        },
        'assumptions': list(getattr(mod, 'ASSUMPTIONS', [])),
        'wall_s': round(time.time() - t0, 2),
        'violations': len(new),
    }
    if not a.only:
        os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
        with open(os.path.join(VERIF, 'evidence', f'{prop}.json'), 'w') as fh:
            json.dump(strict(ev), fh, indent=1, default=str)

    if a.v:
        print(json.dumps(ev, indent=1, default=str))
    for f, hit in known:
        print(f"KNOWN-FINDING: property={prop} {hit['what']}")
    if new:
        new.sort(key=lambda x: len(harness.jdump(x[0][1])))
        for n_i, ((name, case, msg), _) in enumerate(new):
            text = json.dumps({'property': prop, 'sub': name, 'message': msg,
                               'seed': seed, 'case': case}, indent=1)
            tag = hashlib.md5(text.encode()).hexdigest()[:10]
            d = os.path.join(VERIF, 'replays')
            os.makedirs(d, exist_ok=True)
            path = os.path.join(d, f'{prop}-{name}-{tag}.json')
            with open(path, 'w') as fh:
                fh.write(text)
            if n_i < 4:
                print(f'{name}: {msg}')
                print(f'VIOLATION property={prop} replay={path}')
        return 1
    if errors:
        for name, e in errors[:3]:
            print(f'ERROR in {name}:\n{e}')
        return 2
    c = ev['coverage']
    print(f"OK {prop} tier={tier} seed={seed}: {c['evaluations']} cases, "
          f"{c['distinct_nontrivial']} distinct non-trivial, "
          f"{ev['wall_s']} s" + (' (time budget reached)' if timed_out else ''))
    return 0


if __name__ == '__main__':
    sys.exit(main())
