"""C27: plots (spec/Plot*.tla). The plotting program is replaced by the driver, see harness/plot.cpp."""
import itertools
import os
import shutil
import tempfile
import vt

SCHEMA = {'data': ['d', 'kind', 'name', 'names', 'ids', 'ys', 'xs'], 'open': ['p', 'd', 'shared', 'keep', 'late'], 'sample': ['p', 'd'],
          'term': ['p', 't'], 'close': ['p'], 'mine': [],
          'plot': ['p', 'kind', 'x', 'y', 'z', 'save', 'scale', 'title', 'fmt', 'xl', 'yl', 'zl', 'w', 'b', 'margin', 'norm',
                   'v1', 'v2', 'v3', 'grid', 'trained', 'fn']}
TITLES = ['~', 'one', 'two+words', 'Iris', 'T_1']
NAMES = ['setosa', 'iris.setosa', 'versi_color', 'a_data', 'one+more', 'x.plt', 'b-2', 'data', '1.5', 'Z']


def cfg(calls, titles, variant='ok', emit=False):
    return '''SPECIFICATION Spec
CONSTANTS Calls = %d
 Titles = %d
 Variant = "%s"
 Emit = %s
INVARIANTS AsAsked All Ready Printed
CHECK_DEADLOCK TRUE
''' % (calls, titles, variant, 'TRUE' if emit else 'FALSE')


def numbers(r, n):
    k = r.randrange(6)
    if k == 0:
        return [r.choice([0, 100, -100, 250])] * n
    if k == 1:
        return [100 * r.randint(-3, 3) for _ in range(n)]
    g = r.choice([100, 700, 5000])
    return [r.randint(-g, g) for _ in range(n)]


def data(r, d, kind):
    n, dim = r.randint(1, 7) if r.random() < .98 else r.choice([40, 110]), r.choice([2, 3, 3, 4, 5])
    cols = [numbers(r, n) for _ in range(dim)]
    labels = r.sample([-1, 1, 0, 2, 3, 7], r.randint(1, 3))
    ys = [r.choice(labels) for _ in range(n)] if kind == 0 else [r.randint(-900, 900) for _ in range(n)]
    k = len(dict.fromkeys(ys))
    return {'e': 'data', 'd': d, 'kind': kind, 'name': r.choice(['~', 'iris', 'my+data']),
            'names': '|'.join(r.sample(NAMES, k)) if kind == 0 and r.random() < .6 else '~',
            'ids': r.sample(range(1, n + 5), n), 'ys': ys, 'xs': [cols[j][i] for i in range(n) for j in range(dim)], 'dim': dim}


def plot(r, p, d, kind, title=None, save=None):
    dim = d['dim'] if d else 2
    f = r.sample(range(dim), min(3, dim)) + [0]
    n = r.randint(1, 5)
    away = lambda: r.choice([-1, 1]) * r.randint(20, 300)
    return {'e': 'plot', 'p': p, 'kind': kind, 'x': f[0], 'y': f[1], 'z': f[2], 'save': r.choice([0, 1]) if save is None else save,
            'scale': r.choice([10, 10, 10, 12, 15, 30]), 'title': r.choice(TITLES) if title is None else title,
            'fmt': r.choice(['svg', 'png', 'pdf']), 'xl': r.choice(['x', '~', 'width', 'a+b']), 'yl': r.choice(['y', '~', 'height']),
            'zl': r.choice(['z', '~', 'depth']), 'w': [away() for _ in range(dim)], 'b': r.choice([0, away()]),
            'margin': r.choice([0, 0, r.randint(1, 300)]), 'norm': r.randint(1, 300),
            'v1': numbers(r, n), 'v2': numbers(r, n), 'v3': numbers(r, n), 'grid': r.randint(2, 5), 'trained': r.choice([0, 1]),
            'fn': [r.randint(-3, 3) for _ in range(3)]}


def kinds(d, flat=None, marks=None):
    """Calls that make sense for a sample: flat or deep pictures, with a model or without."""
    out = [('2v', 1, 0), ('3v', 0, 0)]
    if d and d['kind'] == 1:
        out = 2 * [('1r', 1, 0), ('1rh', 1, 1), ('2r', 0, 0), ('2rh', 0, 1)] + out
    elif d:
        out = 2 * [('2', 1, 0), ('2h', 1, 1)] + [('ds', 0, 0)] + out
        if d['dim'] > 2:
            out += 2 * [('3', 0, 0), ('3h', 0, 1)]
    return [k for k, f, m in out if (flat is None or f == flat) and (marks is None or m == marks)]


class Session:
    """The names of a late session are not used twice: its files would be written again before they were read."""

    def __init__(self, r, late):
        self.r, self.late, self.n, self.surfaces = r, late, 0, 0

    def add(self, p, d, flat=None, marks=None, title=None, save=None):
        ks = kinds(d, flat, marks)
        if self.late and self.surfaces:
            ks = [k for k in ks if k != 'ds']
        if not ks:
            ks = [k for k in kinds(d) if k != 'ds']
        k = self.r.choice(ks)
        o = plot(self.r, p, d, k, title, save)
        if k == 'ds':
            self.surfaces += 1
        if self.late and k in ('2v', '3v'):
            self.n += 1
            o['title'] = 'v%d%s' % (self.n, '' if o['title'] == '~' else '+' + o['title'])
        return o


def from_history(r, h, late):
    ds = [data(r, k, r.choice([0, 0, 1])) for k in range(1, 2 + sum(o['e'] == 'sample' for o in h['ops']))]
    if not any(o.get('marks') and o['k'] == 'plot' for o in h['ops']) or r.random() < .5:
        for d in ds:
            while d['dim'] < 3:
                d.update(data(r, d['d'], d['kind']))
    s = Session(r, late)
    cur = ds[0]
    ops = ds + [{'e': 'open', 'p': 1, 'd': 1, 'shared': int(h['shared']), 'keep': r.choice([0, 0, 0, 1]), 'late': late}]
    for o in h['ops']:
        if o['e'] == 'sample':
            cur = ds[ds.index(cur) + 1]
            ops.append({'e': 'sample', 'p': 1, 'd': cur['d']})
        else:
            ops.append(s.add(1, cur, int(o['k'] == 'plot'), int(o['marks']), ['~', 'one', 'two+words'][o['title']], int(o['save'])))
    return ops + [{'e': 'close', 'p': 1}]


def random_scens(r, n):
    out = []
    for i in range(n):
        late = r.choice([0, 0, 1])
        ds = {k: data(r, k, r.choice([0, 0, 1])) for k in range(1, r.randint(2, 4))}
        ops, live, s = list(ds.values()), {}, Session(r, late)
        for _ in range(r.randint(3, 10)):
            t = r.random()
            p = r.choice([1, 1, 2])
            if p not in live:
                if r.random() < .25:
                    ops.append({'e': 'mine'})
                d = r.choice([-1] + 3 * list(ds))
                live[p] = ds.get(d)
                ops.append({'e': 'open', 'p': p, 'd': d, 'shared': r.choice([0, 1]), 'keep': r.choice([0, 0, 1]), 'late': late})
            elif t < .12:
                live[p] = r.choice(list(ds.values()))
                ops.append({'e': 'sample', 'p': p, 'd': live[p]['d']})
            elif t < .2:
                ops.append({'e': 'term', 'p': p, 't': r.choice(['dumb', 'qt', 'x11'])})
            elif t < .28:
                del live[p]
                ops.append({'e': 'close', 'p': p})
            else:
                ops.append(s.add(p, live[p]))
        out.append(('r%d' % i, ops + [{'e': 'close', 'p': p} for p in live]))
    return out


def saved_scens(r, n):
    """Many choices of features saved by calls of one kind: they may not share a file."""
    out = []
    for i in range(n):
        d = data(r, 1, 0)
        while d['dim'] < 4:
            d = data(r, 1, 0)
        kind, fmt = r.choice(['2', '2h', '3', '3h']), r.choice(['svg', 'png'])
        k = 2 if kind[0] == '2' else 3
        choices = list(itertools.permutations(range(d['dim']), k))
        ops = [d, {'e': 'open', 'p': 1, 'd': 1, 'shared': r.choice([0, 1]), 'keep': 0, 'late': 0}]
        for c in r.sample(choices, min(12, len(choices))):
            o = plot(r, 1, d, kind, save=1)
            o.update(zip('xyz', c), fmt=fmt)
            ops.append(o)
        out.append(('s%d' % i, ops + [{'e': 'close', 'p': 1}]))
    return out


def run(ctx):
    r, q = ctx.rng, ctx.quick
    jobs = [dict(module='PlotMC', cfg=cfg(2, 2, emit=True), name='sessions of 2 calls', workers=1, timeout=800),
            dict(module='PlotMC', cfg=cfg(3, 1 if q else 2, emit=True), name='sessions of 3 calls', workers=1, timeout=850)]
    jobs += [dict(module='PlotMC', cfg=cfg(2, 1, v), tag='', name='fault: ' + v, workers=1, fault=True) for v in ('keeps', 'unsaved', 'early', 'hasty')]
    if not q:
        jobs.append(dict(module='PlotMC', cfg=cfg(4, 1), tag='', name='sessions of 4 calls', workers=4, timeout=850))
    hist = ctx.models(jobs)
    binary = vt.build('plot')
    base = tempfile.mkdtemp(prefix='vt-plot-')
    try:
        os.chmod(base, 0o777)
        os.mkdir(os.path.join(base, 'bin'))
        os.chmod(os.path.join(base, 'bin'), 0o755)
        program = os.path.join(base, 'bin', 'gnuplot')
        open(program, 'w').write('#!/bin/sh\nexit 1\n')
        os.chmod(program, 0o755)
        scens = []
        for k, cap in ((0, 250 if q else 2000), (1, 500 if q else 5000)):
            hs = sorted(hist[k], key=repr)
            for i, h in enumerate(hs if len(hs) <= cap else r.sample(hs, cap)):
                scens.append(('m%d-%d' % (k, i), from_history(r, h, r.choice([0, 1]))))
        scens += random_scens(r, 500 if q else 6000) + saved_scens(r, 60 if q else 600)
        ctx.conform('PlotTrace', binary, SCHEMA, scens, denv={'VT_SCRATCH': base}, source='sessions of the specification, random sessions')
    finally:
        shutil.rmtree(base, ignore_errors=True)
