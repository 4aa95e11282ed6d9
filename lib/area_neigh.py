"""C12, C13, C21: distance matrices, nearest neighbours, over-sampling (spec/Neighbours*.tla, DistMatrix.tla)."""
import vt

SCHEMA = {'mat': ['metric', 'ids', 'xs', 'tri', 'threads', 'policy', 'seed'],
          'knn': ['metric', 'ids', 'ys', 'xs', 'train', 'k', 'mode', 'threads'],
          'knnr': ['metric', 'ids', 'ys', 'xs', 'train', 'k'],
          'smote': ['metric', 'ids', 'ys', 'xs', 'k', 'seed'], 'bsmote': ['metric', 'ids', 'ys', 'xs', 'k', 'seed']}
METRICS = 'emc'


def mat_cfg(n, blocks, variant='ok', emit=False):
    return '''SPECIFICATION FairSpec
CONSTANTS N = %d
 MaxBlocks = %d
 Variant = "%s"
 Emit = %s
INVARIANTS NoStrayWrite FinishedIsComplete Printed
PROPERTY Terminates
CHECK_DEADLOCK FALSE
''' % (n, blocks, variant, 'TRUE' if emit else 'FALSE')


def mc_cfg(n, maxd, labels, emit=True):
    return '''SPECIFICATION Spec
CONSTANTS N = %d
 MaxD = %d
 Labels = {%s}
 Emit = %s
INVARIANTS Agree Shortcuts PartnerSets Printed
CHECK_DEADLOCK FALSE
''' % (n, maxd, ', '.join(map(str, labels)), 'TRUE' if emit else 'FALSE')


def coords(r, n, dim, span, distinct=False):
    while True:
        xs = [[r.randint(-span, span) for _ in range(dim)] for _ in range(n)]
        if not distinct or len(set(map(tuple, xs))) == n:
            return xs


def perm(r, n):
    ids = list(range(1, n + 1))
    if r.random() < 0.75:
        r.shuffle(ids)
    return ids


def matrix_scens(ctx, hist):
    r, out = ctx.rng, []
    for k, h in enumerate(hist):
        n = len(h['ids'])
        for j in range(2 if ctx.quick else 6):
            out.append(('m%d-%d' % (k, j), [{'e': 'mat', 'metric': METRICS[(k + j) % 3], 'ids': h['ids'], 'xs': coords(r, n, 2, 9), 'tri': h['tri'],
                                            'threads': h['blocks'], 'policy': r.choice(['rand', 'pct']), 'seed': r.randint(1, 99999)}]))
    for k in range(300 if ctx.quick else 3000):
        n = r.choice([1, 2, 3, 5, 6, 7, 9, 12, 15]) if k % 25 else r.choice([24, 40]) if k % 100 else r.choice([70, 110])
        out.append(('r%d' % k, [{'e': 'mat', 'metric': r.choice(METRICS), 'ids': perm(r, n), 'xs': coords(r, n, r.choice([1, 2, 3]), 20),
                                'tri': r.random() < .5, 'threads': r.choice([1, 2, 3, 4, 5, 8]) if k % 10 else r.choice([11, 16, 30]), 'policy': r.choice(['rand', 'rand', 'pct']),
                                'seed': r.randint(1, 99999)}]))
    return out


def run_matrix(ctx):
    binary = vt.build('dmat')
    n = 3 if ctx.quick else 4
    jobs = [dict(module='DistMatrix', cfg=mat_cfg(n, 3), tag='', name='DistMatrix', workers=4, timeout=800),
            dict(module='DistMatrix', cfg=mat_cfg(4, 5, emit=True).replace('INVARIANTS NoStrayWrite FinishedIsComplete Printed\nPROPERTY Terminates',
                                                                         'INVARIANTS Printed\nCONSTRAINT OnlyInitial'), name='DistMatrix, inputs', workers=1),
            dict(module='DistMatrix', cfg=mat_cfg(3, 3, 'byPosition'), tag='', name='DistMatrix with fault byPosition', workers=1, fault=True)]
    hist = ctx.models(jobs)[1]
    ctx.conform('NeighboursTrace', binary, SCHEMA, matrix_scens(ctx, hist), source='specification inputs and random inputs, controlled schedules',
                op_timeout=40, shards=vt.NCPU)


def knn_case(r, d, y, k, m, kind, mode='brute'):
    """A one-query case with the given distances: the query is the last point."""
    n = len(d)
    xs = []
    for v in d:
        s = r.choice([-1, 1])
        if m == 'c':
            xs.append([s * v, r.randint(-v, v)] if r.random() < .5 else [r.randint(-v, v), s * v])
        elif m == 'm':
            a = r.randint(0, v)
            xs.append([s * a, r.choice([-1, 1]) * (v - a)])
        else:
            xs.append([s * v, 0] if r.random() < .5 else [0, s * v])
    base = [r.randint(-5, 5), r.randint(-5, 5)]
    xs = [[a + b for a, b in zip(x, base)] for x in xs] + [base]
    ids = perm(r, n + 1)
    op = {'e': kind, 'metric': m, 'ids': ids, 'ys': y + [y[0]], 'xs': xs, 'train': list(range(1, n + 1)), 'k': k}
    if kind == 'knn':
        op.update(mode=mode, threads=r.choice([1, 2, 3]))
    return op


def knn_scens(ctx, hist, count, kinds=('knn', 'knn', 'knnr')):
    r, out = ctx.rng, []
    for i, h in enumerate(hist):
        out.append(('m%d' % i, [knn_case(r, h['ds'], h['ys'], h['k'], METRICS[i % 3], kinds[i % len(kinds)], ['brute', 'full', 'tri'][i // 3 % 3])]))
    for i in range(count + count // 50):
        n = r.choice([2, 3, 4, 5, 6, 8, 10, 12]) if i % 5 else r.choice([20, 30, 45])
        if i >= count:
            n = r.choice([70, 130, 260])
        kind = r.choice(kinds)
        labs = r.sample([-2, -1, 0, 1, 2, 3, 7], r.choice([1, 2, 2, 3, 4])) if i < count or r.random() < .5 else r.sample(range(-9, 40), 30)
        ys = [r.choice(labs) for _ in range(n)] if kind == 'knn' else [r.randint(-50, 50) for _ in range(n)]
        train = sorted(r.sample(range(1, n + 1), r.randint(1, n)))
        if r.random() < .3:
            r.shuffle(train)
        k = len(train) if r.random() < .2 else r.randint(1, len(train))
        op = {'e': kind, 'metric': r.choice(METRICS), 'ids': perm(r, n), 'ys': ys, 'xs': coords(r, n, r.choice([1, 2, 3]), r.choice([1, 2, 4, 20]) if n < 13 else 2000 if kind == 'knnr' or n < 60 else r.choice([3, 20, 2000])),
              'train': train, 'k': k}
        if kind == 'knn':
            op.update(mode=r.choice(['brute', 'full', 'tri']), threads=r.choice([1, 2, 4]))
        out.append(('r%d' % i, [op]))
    return out


def run_knn(ctx):
    binary = vt.build('neigh')
    jobs = [dict(module='NeighboursMC', cfg=mc_cfg(3, 2, [1, 2, 3]), name='NeighboursMC', workers=1),
            dict(module='NeighboursMC', cfg=mc_cfg(4, 2, [1, 2]) if ctx.quick else mc_cfg(5, 2, [1, 2]), name='NeighboursMC, larger', workers=1,
                 timeout=900)]
    hist = sorted((h for hs in ctx.models(jobs) for h in hs), key=repr)
    ctx.conform('NeighboursTrace', binary, SCHEMA, knn_scens(ctx, ctx.rng.sample(hist, 1500 if ctx.quick else 12000), 600 if ctx.quick else 6000),
                source='specification inputs and random inputs')


def kept(ctx, n):
    """The same predictions, held to C24: the caller's data."""
    ctx.conform('NeighboursTrace', vt.build('neigh'), SCHEMA, knn_scens(ctx, [], n), source='nearest neighbours')


def smote_scens(ctx, hist, count):
    r, out = ctx.rng, []
    for i, h in enumerate(hist):
        # the minority point at 0, its neighbours at the given distances on a line, and a majority that is closer or farther
        d = h['ds']
        mino = [[0]] + [[r.choice([-1, 1]) * v] for v in d]
        maj = [[r.randint(-9, 9)] for _ in range(len(mino) + r.randint(1, 3))]
        out.append(('m%d' % i, [smote_op(r, mino, maj, METRICS[i % 3], h['k'], 'smote')]))
    for i in range(count):
        dim = r.choice([1, 2, 2, 3])
        n = r.randint(1, 6) if i % 40 else r.randint(8, 14) if i % 100 else 36
        span = r.choice([3, 9, 20]) if n < 7 else 100 if n < 40 else 1000
        mino = coords(r, n, dim, span)
        if r.random() < .2:
            mino[-1] = list(mino[0])
        maj = coords(r, n + r.randint(1, 5), dim, span)
        extra = coords(r, n + r.randint(1, 4), dim, span) if r.random() < .4 else []
        out.append(('r%d' % i, [smote_op(r, mino, maj, r.choice(METRICS), r.randint(1, 5) if n < 7 else r.randint(1, n), 'smote', extra)]))
    return out


def smote_op(r, mino, maj, metric, k, kind, extra=()):
    labs = r.sample([-1, 0, 1, 2, 5], 3)
    pts = [(labs[0], x) for x in mino] + [(labs[1], x) for x in maj] + [(labs[2], x) for x in extra]
    if r.random() < .8:
        r.shuffle(pts)
    off = r.choice([0, 0, 10])
    ids = [i + off for i in perm(r, len(pts))]
    return {'e': kind, 'metric': metric, 'ids': ids, 'ys': [p[0] for p in pts], 'xs': [p[1] for p in pts], 'k': k, 'seed': r.randint(1, 9999)}


BORDER = {'e': 'bsmote', 'metric': 'e', 'ids': [1, 2, 3, 4, 5, 6, 7], 'ys': [1, 1, 1, 1, 2, 2, 2],
          'xs': [[0], [1], [2], [3], [4], [6], [9]], 'k': 1, 'seed': 5}


def run_smote(ctx):
    binary = vt.build('neigh')
    hist = ctx.models([dict(module='NeighboursMC', cfg=mc_cfg(3 if ctx.quick else 4, 3, [1]), name='NeighboursMC', workers=1)])[0]
    hist = sorted(hist, key=repr)
    if len(hist) > 600 and ctx.quick:
        hist = ctx.rng.sample(hist, 600)
    ctx.conform('NeighboursTrace', binary, SCHEMA, smote_scens(ctx, hist, 400 if ctx.quick else 6000) + [('borderline', [BORDER])],
                source='specification inputs and random inputs')


def run(ctx):
    {'C12': run_matrix, 'C13': run_knn, 'C21': run_smote}[ctx.prop](ctx)
