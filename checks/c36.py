import matplotlib
import matplotlib.pyplot as plt
import numpy as np
import pandas as pd

from pbt.gen import (fl, ints, large, pick, rec, seeds)
from pbt.harness import Sub, check, close, arr
from solarspatialtools.visualization import vis_tools as vt

RULE = ('non-trivial: the axis already holds artists, or the joint plot has '
        'at least two points')
ASSUMPTIONS = ['finite data; Agg backend, figures are not shown']

SCALES = {'1d': 86400, '12h': 43200, '1h': 3600, '30m': 1800, '10m': 600,
          '1m': 60, '30s': 30, '15s': 15, '5s': 5}


def ann_case():
    return rec(xs=pick('log', 'linear'), ys=pick('log', 'linear'),
               pre=ints(0, 3), text=ints(0, 2), seed=seeds(),
               lim=pick(None, 'x', 'xy'), rep=pick(1, 1, 2), n=ints(2, 40))


def settings(rc):
    new = dict(matplotlib.rcParams)
    d = [k for k in rc if new.get(k) != rc[k]]
    try:
        check(not d, f'the settings of later figures changed: {d}')
    finally:
        matplotlib.rcParams.update({k: rc[k] for k in d})


def ann_oracle(c):
    r = np.random.default_rng(c['seed'])
    plt.close('all')
    fig, axs = plt.subplots(1, 2)
    rc = dict(matplotlib.rcParams)
    ax, other = axs
    try:
        pre = []
        for _ in range(c['pre']):
            x = 10 ** np.sort(r.uniform(-5, 0, c['n']))
            pre.append((ax.plot(x, r.uniform(1e-3, 1, c['n']))[0], x))
        for i in range(c['text']):
            ax.annotate(f'mine{i}', (.1, .1))
        old_text = list(ax.texts)
        other.plot([0, 1], [0, 1])
        ax.set_xscale(c['xs'])
        ax.set_yscale(c['ys'])
        if c['lim']:
            ax.set_xlim(1e-5, 1)
        if c['lim'] == 'xy':
            ax.set_ylim(1e-3, 1)
        y0 = [p.get_ydata().copy() for p, _ in pre]
        style = [(p.get_color(), p.get_linewidth(), p.get_visible())
                 for p, _ in pre]
        for _ in range(c['rep']):
            n_l, n_t = len(ax.lines), len(ax.texts)
            nc = len(ax.collections)
            vt.annotate_fig(ax)
            new_t = list(ax.texts)[n_t:]
            check(sorted(t.get_text() for t in new_t) == sorted(SCALES),
                  f'labels {[t.get_text() for t in new_t]}')
            for t in new_t:
                f = 1 / SCALES[t.get_text()]
                x = float(t.xy[0])
                check(abs(x - f) <= 1e-9 * f,
                      f'label {t.get_text()} at {x}, expected {f}')
            # every timescale has a mark on the axis at its frequency
            xs = [np.asarray(l.get_xdata(), float)
                  for l in list(ax.lines)[n_l:]]
            for l in list(ax.collections)[nc:]:
                for s in l.get_segments():
                    xs.append(np.asarray(s)[:, 0])
            check(len(xs), 'no marks were drawn')
            x = np.concatenate(xs)
            x = x[np.isfinite(x)]
            marks = np.unique(np.round(np.log(x), 6))
            exp = np.unique(np.round(np.log([1 / v for v in
                                             SCALES.values()]), 6))
            close(marks, exp, 0, 3e-6, 'log of the marked frequencies')
        check(ax.get_xscale() == c['xs'] and ax.get_yscale() == c['ys'],
              'the scale of the axis changed')
        if c['lim']:
            close(ax.get_xlim(), [1e-5, 1], 1e-12, 0, 'x limits')
        if c['lim'] == 'xy':
            close(ax.get_ylim(), [1e-3, 1], 1e-12, 0, 'y limits')
        for (p, x), y, s in zip(pre, y0, style):
            check(p in ax.lines, 'a line was removed')
            check(np.array_equal(p.get_xdata(), x)
                  and np.array_equal(p.get_ydata(), y)
                  and (p.get_color(), p.get_linewidth(),
                       p.get_visible()) == s, 'an existing line changed')
        check(all(t in ax.texts for t in old_text), 'a text was removed')
        check(len(other.lines) == 1 and len(other.texts) == 0,
              'another axis was drawn on')
        check(plt.get_fignums() == [fig.number], 'another figure was made')
        settings(rc)
    finally:
        plt.close('all')
    return [c['xs'] + '/' + c['ys']] + ([] if c['pre'] else ['trivial'])


def hist_case():
    return rec(n=ints(1, 200), seed=seeds(), sx=pick(.01, .2, 1, 5, 20),
               sy=pick(.01, .2, 1, 5, 20), off=fl(-6, 6),
               kind=pick('array', 'series', 'series2', 'list'),
               grid=pick('no', 'no', 'quarter', 'eighth', 'int'),
               open=ints(0, 2))


def hist_oracle(c):
    r = np.random.default_rng(c['seed'])
    plt.close('all')
    x = r.normal(c['off'], c['sx'], c['n'])
    y = r.normal(0, c['sy'], c['n'])
    if c['grid'] != 'no':
        g = {'quarter': .25, 'eighth': .125, 'int': 1.}[c['grid']]
        x, y = np.round(x / g) * g, np.round(y / g) * g
    x0, y0 = x.copy(), y.copy()
    if c['kind'] == 'list':
        X, Y = x.tolist(), y.tolist()
    elif c['kind'] == 'array':
        X, Y = x, y
    else:
        ix = pd.RangeIndex(c['n']) if c['kind'] == 'series' else \
            pd.Index(r.permutation(c['n']))
        X, Y = pd.Series(x, ix), pd.Series(y, ix)
    try:
        for _ in range(c['open']):
            plt.figure()
        before = set(plt.get_fignums())
        rc = dict(matplotlib.rcParams)
        vt.scatter_hist(X, Y)
        settings(rc)
        new = sorted(set(plt.get_fignums()) - before)
        check(len(new) == 1, f'{len(new)} new figures')
        axs = plt.figure(new[0]).axes
        sc = [a for a in axs if a.collections]
        hs = [a for a in axs if a.patches]
        check(len(sc) == 1 and len(sc[0].collections) == 1,
              'not exactly one scatter plot')
        check(len(hs) == 2, f'{len(hs)} histograms')
        off = np.asarray(sc[0].collections[0].get_offsets(), float)
        close(off, np.column_stack([x0, y0]), 0, 0, 'points')
        ps, pp = sc[0].get_position(), {}
        for a in hs:
            p = a.get_position()
            horizontal_axis = p.y0 >= ps.y1 - 1e-6     # above: values of x
            pp['x' if horizontal_axis else 'y'] = a
        check(set(pp) == {'x', 'y'}, 'marginals are not above and beside')
        for nm, v in (('x', x0), ('y', y0)):
            tot = 0
            bars = []
            for b in pp[nm].patches:
                bx, by = b.get_xy()
                if nm == 'x':
                    bars.append((bx, bx + b.get_width(), b.get_height()))
                else:
                    bars.append((by, by + b.get_height(), b.get_width()))
            bars.sort()
            for k, (lo, hi, h) in enumerate(bars):
                e = 1e-9
                # bins are half open, a value on a border (up to rounding of
                # the border) may be counted on either side
                low = ((v >= lo + e) & (v < hi - e)).sum()
                up = ((v >= lo - e) & (v <= hi + e)).sum()
                check(low - 1e-6 <= h <= up + 1e-6,
                      f'{nm}: {h} points in bar [{lo}, {hi}], '
                      f'expected {low}')
                if k:
                    check(lo >= bars[k - 1][1] - 1e-9, f'{nm}: bars overlap')
                tot += h
            check(abs(tot - c['n']) < 1e-6,
                  f'{nm}: {tot} of {c["n"]} points counted')
        check(np.array_equal(x, x0) and np.array_equal(y, y0),
              'inputs were modified')
    finally:
        plt.close('all')
    return [c['kind'], c['grid']] + ([] if c['n'] > 1 else ['trivial'])


SUBS = [Sub('annotate', ann_case, ann_oracle, 120, 3000),
        Sub('scatter_hist', hist_case, hist_oracle, 120, 3000),
    Sub('scatter_hist at scale', lambda: large(hist_case(), n=ints(1000, 8000)),
        hist_oracle, 16, 200),
    Sub('scatter_hist far apart', lambda: large(hist_case(), n=ints(2, 60), off=fl(-700, 700), sx=pick(1, 100.), sy=pick(1, 200.)),
        hist_oracle, 8, 100),
]
