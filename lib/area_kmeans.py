"""C20: k-means (spec/KMeans*.tla)."""
import vt

SCHEMA = {'km': ['metric', 'ids', 'ys', 'xs', 'qs', 'k', 'init', 'seed', 'verbose', 'part', 'ms'],
          'span': ['ids', 'ys', 'xs', 'k', 'init', 'from', 'count']}
INITS = ['random', 'kmeanspp']


def cfg(n, k, span, variant='ok', emit=False, judged=True):
    return '''SPECIFICATION Spec
CONSTANTS N = %d
 K = %d
 Span = %d
 Variant = "%s"
 Emit = %s
INVARIANTS Partition Descends Converged %s Printed
PROPERTY Ends
CHECK_DEADLOCK FALSE
''' % (n, k, span, variant, 'TRUE' if emit else 'FALSE', 'Judged' if judged else '')


def some_ids(r, n):
    ids = list(range(1, n + 1))
    if r.random() < .7:
        r.shuffle(ids)
    off = r.choice([0, 0, 0, 1, 7])
    return [i + off for i in ids] if r.random() < .8 else [3 * i + off for i in ids]


def km(r, xs, k, metric='e', init=None, seed=None):
    n, dim = len(xs), len(xs[0])
    span = max(max(map(abs, x)) for x in xs) + 1
    part = r.choice([0, 0, 0, r.randint(1, n)])
    return {'e': 'km', 'metric': metric, 'ids': some_ids(r, n), 'ys': [r.choice([-1, 1, 2]) for _ in range(n)], 'xs': xs,
            'qs': [[r.randint(-span, span) for _ in range(dim)] for _ in range(r.randint(1, 4))], 'k': k, 'init': init or r.choice(INITS),
            'seed': r.choice([0, 1, r.randint(2, 99999)]) if seed is None else seed, 'verbose': r.choice([0, 0, 1]), 'part': part,
            'ms': 600000 if metric == 'e' else 30}


def span(r, xs, k, init, count):
    n = len(xs)
    return {'e': 'span', 'ids': some_ids(r, n), 'ys': [1] * n, 'xs': xs, 'k': k, 'init': init, 'from': r.randint(1, 9999), 'count': count}


def place(r, d, wide=False):
    """The points of the specification, somewhere on a line in one or two dimensions, in any order."""
    a, b, s = r.randint(-3, 3), r.randint(-3, 3), r.choice([-1, 1]) * (r.choice([1, 7, 30]) if wide else 1)
    two = r.random() < .5
    xs = [[s * v + a, s * v + b] if two else [s * v + a] for v in d]
    r.shuffle(xs)
    return xs


def random_scens(r, n):
    out = []
    for i in range(n):
        dim = r.choice([1, 1, 2, 2, 3])
        m = r.choice([1, 2, 3, 4, 5, 6, 8, 11, 15]) if i % 12 else r.choice([25, 40]) if i % 60 else r.choice([90, 150, 280])
        g = r.choice([1, 2, 4, 10]) if m < 16 else 4
        xs = [[r.randint(-g, g) for _ in range(dim)] for _ in range(m)]
        out.append(('r%d' % i, [km(r, xs, r.randint(1, min(m, 6)) if m < 90 else r.choice([2, 7, 15]), r.choice('eeeeemc'))]))
    return out


def kept(ctx, n):
    """The same clusterings, held to the properties of learners in general."""
    ctx.conform('KMeansTrace', vt.build('kmeans'), SCHEMA, random_scens(ctx.rng, n), source='k-means')


def scens(ctx, hist):
    r, q, out = ctx.rng, ctx.quick, []
    for i, h in enumerate(hist):
        for j in range(2 if q else 6):
            out.append(('m%d-%d' % (i, j), [km(r, place(r, h['pts']), h['k'], init=INITS[j % 2])]))
    out += random_scens(r, 500 if q else 6000)
    small = [h for h in hist if len(set(h['pts'])) > 1 and h['k'] > 1 and len(h['pts']) < 4]
    for i, h in enumerate(r.sample(small, min(len(small), 40 if q else 400))):
        d = sorted(set(h['pts']))
        # a start of probability at least 1/27 (random), or steps that are not too uneven (kmeanspp)
        init = 'random' if d[-1] - d[0] > 6 * min(b - a for a, b in zip(d, d[1:])) else r.choice(INITS)
        out.append(('s%d' % i, [span(r, place(r, h['pts'], True), h['k'], init, 900)]))
    for i in range(40 if q else 600):
        n = r.choice([3, 4, 4, 5])
        dim = r.choice([1, 2])
        g = r.choice([1, 1, 5, 20])
        xs = [[g * r.randint(0, 3) for _ in range(dim)] for _ in range(n)]
        out.append(('w%d' % i, [span(r, xs, 2, r.choice(INITS), 900)]))
    return out


def run(ctx):
    binary = vt.build('kmeans')
    q = ctx.quick
    jobs = [dict(module='KMeansMC', cfg=cfg(4, 3, 3, emit=True, judged=False), name='every data set of 4 points on 4 places', workers=1, timeout=800),
            dict(module='KMeansMC', cfg=cfg(3, 2, 3) if q else cfg(4, 3, 3), tag='', name='the results the judge accepts', workers=2, timeout=850),
            dict(module='KMeansMC', cfg=cfg(4, 2, 7, judged=False) if q else cfg(5, 3, 6, judged=False), tag='', name='wider or larger data sets', workers=3, timeout=850)]
    jobs += [dict(module='KMeansMC', cfg=cfg(3, 2, 3, v), tag='', name='fault: ' + v, workers=1, fault=True) for v in ('notReset', 'append', 'once')]
    hist = sorted(ctx.models(jobs)[0], key=repr)
    ctx.conform('KMeansTrace', binary, SCHEMA, scens(ctx, hist), source='inputs of the specification, random inputs')
