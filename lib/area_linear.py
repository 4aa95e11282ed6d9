"""C15, C16, C25: hyperplanes and kernel expansions (spec/Linear*.tla, PerceptronMC, ImaMC, SvmMC)."""
import vt

DATA = ['ids', 'ys', 'xs', 'maxit', 'maxup', 'queries', 'wit', 'witb']
SCHEMA = {'mk': ['kind', 'q', 'rate', 'gamma', 'type', 'param', 'way'], 'fit': DATA, 'again': DATA,
          'budgets': ['ids', 'ys', 'xs', 'limits']}


def perceptron(kind, dim, grid, n, variant='ok', emit=False, it=200, up=200):
    return '''SPECIFICATION Spec
CONSTANTS Kind = "%s"
 Dim = %d
 Grid = %d
 N = %d
 MaxIt = %d
 MaxUp = %d
 Variant = "%s"
 Emit = %s
INVARIANTS IsCombination PrimalIsDual Permuted Sound Limits Bounded Printed
PROPERTIES Ends Succeeds
CHECK_DEADLOCK FALSE
''' % (kind, dim, grid, n, it, up, variant, 'TRUE' if emit else 'FALSE')


def ima(dim, grid, n, variant='ok'):
    return '''SPECIFICATION Spec
CONSTANTS Dim = %d
 Grid = %d
 N = %d
 Variant = "%s"
INVARIANTS Separating MarginOfBest Maximal Bounded
PROPERTIES Increases Ends
CHECK_DEADLOCK FALSE
''' % (dim, grid, n, variant)


def svm(dim, grid, n, c, unit, variant='ok'):
    return '''SPECIFICATION Spec
CONSTANTS Dim = %d
 Grid = %d
 N = %d
 C = %d
 Unit = %d
 Variant = "%s"
INVARIANTS Feasibility Characterised Nearly
PROPERTIES Climbs Ends
CHECK_DEADLOCK FALSE
''' % (dim, grid, n, c, unit, variant)


def separable(r, n, dim, g):
    """Integer points with the labels of a plane; returns the plane too."""
    while True:
        w = [r.randint(-3, 3) for _ in range(dim)]
        b = r.randint(-4, 4)
        xs = [[r.randint(-g, g) for _ in range(dim)] for _ in range(n)]
        v = [sum(a * c for a, c in zip(w, x)) + b for x in xs]
        if any(t == 0 for t in v):
            xs = [x for x, t in zip(xs, v) if t]
            v = [t for t in v if t]
        ys = [1 if t > 0 else -1 for t in v]
        if len(set(ys)) == 2:
            return xs, ys, w, b


def mixed(r, n, dim, g):
    while True:
        xs = [[r.randint(-g, g) for _ in range(dim)] for _ in range(n)]
        ys = [r.choice([-1, 1]) for _ in xs]
        if len(set(ys)) == 2:
            return xs, ys, [], 0


def ids(r, n):
    i = list(range(1, n + 1))
    if r.random() < .5:
        r.shuffle(i)
    return i


def fit(r, data, maxit=100, maxup=0, queries=None, e='fit', order=None):
    xs, ys, w, b = data
    dim = len(xs[0])
    if queries is None:
        queries = [[r.randint(-6, 6) for _ in range(dim)] for _ in range(r.randint(0, 3))]
    return {'e': e, 'ids': ids(r, len(ys)) if order is None else order, 'ys': ys, 'xs': xs, 'maxit': maxit, 'maxup': maxup,
            'queries': queries, 'wit': w, 'witb': b}


def mk(r, kind, rate=None, gamma=None, typ=None, param=None, q=None, way=None):
    typ = typ if typ is not None else r.choice([0, 0, 1, 2]) if kind in (2, 4, 7, 8) else 0
    if param is None:
        param = {0: 0, 1: r.choice([1, 2, 3]) * 1000, 2: r.choice([100, 500, 1000])}[typ]
    gamma = gamma if gamma is not None else r.choice([0, 0, 100, 300, 500]) if kind in (3, 4, 9) else 0
    q = q if q is not None else r.choice([2, 2, 1, -1, 3]) if kind in (3, 6, 9) else 2
    return {'e': 'mk', 'kind': kind, 'q': q, 'rate': rate or r.choice([500, 1000, 250, 2000]), 'gamma': gamma, 'type': typ, 'param': param,
            'way': r.choice([0, 1]) if way is None else way}


def order(data, r):
    xs, ys, w, b = data
    p = list(range(len(ys)))
    r.shuffle(p)
    return [xs[i] for i in p], [ys[i] for i in p], w, b


def onehot(r, n, extra):
    """Every point has a coordinate of its own: the weights count its mistakes."""
    xs = [[1 if k == i else 0 for k in range(n)] + [r.randint(-3, 3) for _ in range(extra)] for i in range(n)]
    ys = [r.choice([-1, 1]) for _ in range(n)]
    ys[0], ys[1] = 1, -1
    return xs, ys, ys[:] + [0] * extra, 0


def sequence(r, kind, data, limits=None, way=None):
    """One learner: trained, perhaps trained again, perhaps given other data of the same or another dimension."""
    maxit, maxup = limits or (2000, 0)
    first = fit(r, data, maxit, maxup)
    ops = [mk(r, kind, way=way), first]
    if r.random() < .3 and kind != 9:
        ops.append(dict(first, e='again'))
    return ops


def random_scens(r, kinds, n, big):
    scens = []
    for i in range(n):
        kind = kinds[i % len(kinds)]
        m = r.randint(2, 9) if i % 12 else r.randint(20, big)
        dim = r.randint(1, 4)
        g = r.choice([1, 3, 5])
        data = separable(r, m, dim, g) if r.random() < .75 else mixed(r, min(m, 8), dim, g)
        if r.random() < .15 and kind != 8:
            data = onehot(r, r.randint(2, 8), r.randint(0, 3))
        sep = bool(data[2])
        limits = None if sep or kind in (6, 7, 8, 9) else (r.choice([1, 3, 20]), r.choice([0, 1, 5, 30]))
        if kind in (1, 2, 3, 4, 5) and r.random() < .15:
            limits = (r.choice([1, 2, 5]), r.choice([0, 1, 2, 7]))
        if kind in (6, 7, 9):
            limits = (2000, r.choice([0, 50, 500, 3000])) if sep else (300, 300)
        ops = sequence(r, kind, data, limits or (2000 if kind != 8 else 5000, 0))
        if r.random() < .2 and kind not in (7, 9):
            other = separable(r, r.randint(2, 9), dim if r.random() < .6 else r.randint(1, 4), 3)
            ops.append(fit(r, other, *(limits or (2000 if kind != 8 else 5000, 0))))
        scens.append(('r%d-%d' % (kind, i), ops))
    return scens


def modelled(ctx, hist, kinds):
    """Every final state of the specification's runs: the same data given to the code."""
    r = ctx.rng
    scens = []
    for k, hs in enumerate(hist):
        hs = sorted(hs, key=repr)
        if len(hs) > 700 and ctx.quick:
            hs = r.sample(hs, 700)
        for i, h in enumerate(hs):
            if len(set(h['ys'])) < 2:
                continue
            data = order((h['xs'], h['ys'], h['wit'], h['witb']), r)
            kind = kinds[i % len(kinds)]
            mi, mu = (2000, 0) if kind != 8 else (5000, 0)
            if kind in (6, 7):
                mu = 200
            if not h['wit'] and kind != 8:
                mi, mu = 60, 60
            scens.append(('m%d-%d' % (k, i), [mk(r, kind, typ=0 if i % 2 else None), fit(r, data, mi, mu)]))
    return scens


def run_perceptron(ctx):
    r = ctx.rng
    binary = vt.build('linear')
    q = ctx.quick
    jobs = [dict(module='PerceptronMC', cfg=perceptron('plain', 1, 2, 3, emit=True), name='plain perceptron, 1 feature', workers=1, timeout=600),
            dict(module='PerceptronMC', cfg=perceptron('plain', 2, 1, 3 if q else 4, emit=True), name='plain perceptron, 2 features', workers=1, timeout=800),
            dict(module='PerceptronMC', cfg=perceptron('fixed', 1, 2, 3 if q else 4, emit=True), name='reordering perceptron, 1 feature', workers=1, timeout=800),
            dict(module='PerceptronMC', cfg=perceptron('fixed', 2, 1, 3, emit=True), name='reordering perceptron, 2 features', workers=1, timeout=800),
            dict(module='PerceptronMC', cfg=perceptron('plain', 1, 2, 3, it=3, up=4, emit=False), tag='', name='tight limits', workers=1).copy()]
    jobs[4]['cfg'] = jobs[4]['cfg'].replace('PROPERTIES Ends Succeeds', 'PROPERTIES Ends')
    jobs += [dict(module='PerceptronMC', cfg=perceptron('plain', 1, 1, 3, variant=v), tag='', name='fault: ' + v, workers=1, fault=True)
             for v in ('nobias', 'almost', 'lenient')]
    hist = ctx.models(jobs)
    scens = modelled(ctx, hist[:4], [1, 2, 3, 4, 5])
    scens += random_scens(r, [1, 2, 3, 4, 5], 900 if q else 12000, 60 if q else 150)
    ctx.conform('LinearTrace', binary, SCHEMA, scens, source='every data set of the specification, seeded random data')


def run_svm(ctx):
    r = ctx.rng
    binary = vt.build('linear')
    q = ctx.quick
    jobs = [dict(module='SvmMC', cfg=svm(1, 2, 3, 3, 2), tag='', name='dual on a grid, 1 feature', workers=2, timeout=600),
            dict(module='SvmMC', cfg=svm(2, 1, 3, 3, 2), tag='', name='dual on a grid, 2 features', workers=2, timeout=600),
            dict(module='SvmMC', cfg=svm(1, 2, 4, 2 if q else 3, 1), tag='', name='dual on a grid, 4 points', workers=2, timeout=800),
            dict(module='SvmMC', cfg=svm(1, 2, 3, 3, 2, 'drift'), tag='', name='fault: equality constraint not kept', workers=1, fault=True),
            dict(module='SvmMC', cfg=svm(1, 2, 3, 3, 2, 'slack'), tag='', name='fault: conditions too weak', workers=1, fault=True),
            dict(module='PerceptronMC', cfg=perceptron('plain', 1, 2, 4, emit=True), name='data sets, 1 feature', workers=1, timeout=800),
            dict(module='PerceptronMC', cfg=perceptron('plain', 2, 1, 3, emit=True), name='data sets, 2 features', workers=1, timeout=800)]
    hist = ctx.models(jobs)
    scens = modelled(ctx, hist[5:7], [8])
    scens += random_scens(r, [8], 500 if q else 8000, 50 if q else 120)
    ctx.conform('LinearTrace', binary, SCHEMA, scens, source='every data set of the specification, seeded random data')


def run_ima(ctx):
    r = ctx.rng
    binary = vt.build('linear')
    q = ctx.quick
    jobs = [dict(module='ImaMC', cfg=ima(1, 2, 3 if q else 4), tag='', name='margin increments, 1 feature', workers=2, timeout=600),
            dict(module='ImaMC', cfg=ima(2, 1, 3), tag='', name='margin increments, 2 features', workers=4, timeout=600),
            dict(module='ImaMC', cfg=ima(1, 2, 3, 'limits').replace('Maximal ', ''), tag='', name='margin increments with limits', workers=2, timeout=600),
            dict(module='ImaMC', cfg=ima(1, 1, 3, 'stay'), tag='', name='fault: margin not increased', workers=1, fault=True),
            dict(module='ImaMC', cfg=ima(1, 1, 3, 'last'), tag='', name='fault: last plane instead of the best', workers=1, fault=True),
            dict(module='PerceptronMC', cfg=perceptron('fixed', 1, 2, 3, emit=True), name='data sets, 1 feature', workers=1, timeout=800),
            dict(module='PerceptronMC', cfg=perceptron('fixed', 2, 1, 3, emit=True), name='data sets, 2 features', workers=1, timeout=800)]
    hist = ctx.models(jobs)
    scens = modelled(ctx, hist[5:7], [6, 7])
    scens += random_scens(r, [6, 7, 9], 450 if q else 6000, 40 if q else 100)
    for i in range(60 if q else 600):
        kind = [6, 7][i % 2]
        xs, ys, w, b = separable(r, r.randint(2, 9), r.randint(1, 3), 3)
        scens.append(('b%d' % i, [mk(r, kind, typ=0, q=r.choice([2, 2, 1, -1]) if kind == 6 else 2),
                                  {'e': 'budgets', 'ids': ids(r, len(ys)), 'ys': ys, 'xs': xs, 'limits': [20, 60, 200, 600, 2000]}]))
    scens += refits(r)
    ctx.conform('LinearTrace', binary, SCHEMA, scens, source='every data set of the specification, seeded random data, growing budgets')


# IMADual keeps the kernel matrix of the data it was first trained on (known finding)
REFIT = ([[1, 1], [2, 3], [-1, -1], [-2, 0]], [1, 1, -1, -1], [1, 1], 0)
REFIT_NEAR = ([[1, -1], [3, -2], [-2, 2], [-1, 3]], [1, 1, -1, -1], [1, -1], 0)
REFIT_FAR = ([[10, 10], [20, 30], [-10, -10], [-20, 0]], [1, 1, -1, -1], [1, 1], 0)


def refits(r):
    o = [1, 2, 3, 4]
    start = mk(r, 7, rate=1000, typ=0, param=0, way=0)
    return [('ima-refit-%d' % i, [start, fit(r, a, 2000, 0, [], order=o), fit(r, b, 2000, 0, [], order=o)])
            for i, (a, b) in enumerate([(REFIT, REFIT_NEAR), (REFIT, REFIT_FAR), (REFIT_FAR, REFIT)], 1)]


def kept(ctx, n):
    """The same fits, held to C24: the caller's data."""
    ctx.conform('LinearTrace', vt.build('linear'), SCHEMA, random_scens(ctx.rng, list(range(1, 10)), n, 40), source='linear classifiers')


def run(ctx):
    {'C15': run_perceptron, 'C16': run_svm, 'C25': run_ima}[ctx.prop](ctx)
