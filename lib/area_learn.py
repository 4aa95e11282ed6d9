"""C24, C28, C29: lives of learners, seeds, generated datasets (spec/LearnerMC.tla, SeedMC.tla, LearnerTrace.tla)."""
import vt

SCHEMA = {'data': ['d', 'ids', 'ys', 'xs'], 'queries': ['qs'], 'change': ['d', 'how', 'i'], 'mk': ['l', 'd', 'type', 'seed'], 'give': ['l', 'd'],
          'train': ['l'], 'ask': ['l', 'order'], 'noise': ['s', 'k'], 'call': ['f', 'd', 'seed'],
          'spirals': ['n', 'k', 'sh', 'noise', 'loops', 'seed'], 'blobs': ['n', 'k', 'dims', 'sd', 'lo', 'hi', 'sh', 'cl', 'seed'],
          'blobsat': ['ns', 'cs', 'sds', 'sh', 'cl', 'seed'], 'regr': ['n', 'dims', 'bias', 'noise', 'inf', 'sh', 'seed']}
TWO = ['perc', 'percfm', 'percd', 'percfmd', 'balanced', 'smo', 'smog', 'imap', 'imad', 'vote', 'boost', 'committee']
ANY = ['knn', 'knn3', 'knnr', 'lms', 'kmeans', 'kmeanspp', 'ova', 'ovo', 'ovosmo', 'bag']
RANDOM = ['balanced', 'bag', 'kmeans', 'kmeanspp']
OWN = ['shuffle', 'sampling', 'samplingw', 'split', 'splitu', 'folds', 'foldsq', 'parts', 'smote', 'rsm', 'kfold', 'kkfold', 'kfoldp',
       'fit-bag', 'fit-kmeans', 'fit-kmeanspp', 'fit-perc', 'fit-percd', 'fit-smo', 'fit-imap', 'fit-knn', 'fit-vote', 'fit-boost']
GLOBAL = ['spirals', 'spirals2', 'blobs', 'blobs2', 'blobsat', 'regr', 'regr2', 'point', 'pointin', 'pointat', 'pointn', 'ints', 'fit-balanced']


def life_cfg(n, learners, sets, variant='ok', emit=False):
    return '''SPECIFICATION Spec
CONSTANTS Learners = {%s}
 Sets = {%s}
 Len_ = %d
 Variant = "%s"
 Emit = %s
INVARIANTS Depends Stable Printed
PROPERTY CallersOnly
CHECK_DEADLOCK FALSE
''' % (learners, sets, n, variant, 'TRUE' if emit else 'FALSE')


def seed_cfg(n, variant='ok', emit=False):
    return '''SPECIFICATION Spec
CONSTANTS Seeds = {1, 2}
 Len_ = %d
 Variant = "%s"
 Emit = %s
INVARIANTS Reproducible Printed
CHECK_DEADLOCK FALSE
''' % (n, variant, 'TRUE' if emit else 'FALSE')


def gen_cfg(k, n, variant='ok', emit=False):
    return '''SPECIFICATION Spec
CONSTANTS K = %d
 Max = %d
 Variant = "%s"
 Emit = %s
INVARIANTS Shape Grouped Printed
CHECK_DEADLOCK FALSE
''' % (k, n, variant, 'TRUE' if emit else 'FALSE')


def dataset(r, d, dim, labels, per, gap=6):
    """At least three points per class; usually classes can be told apart."""
    pts = []
    apart = r.random() < .7
    for c, y in enumerate(labels):
        for _ in range(r.randint(*per)):
            x = [r.randint(-3, 3) for _ in range(dim)]
            if apart:
                x[c % dim] += gap * (1 if c < dim else -1)
            pts.append((y, x))
    r.shuffle(pts)
    ids = list(range(1, len(pts) + 1))
    r.shuffle(ids)
    return {'e': 'data', 'd': d, 'ids': ids, 'ys': [p[0] for p in pts], 'xs': [p[1] for p in pts]}


def queries(r, dim):
    return {'e': 'queries', 'qs': [[r.randint(-9, 9) for _ in range(dim)] for _ in range(r.randint(3, 6))]}


def changes(r, d):
    return {'e': 'change', 'd': d, 'how': r.choice(['coord', 'coord', 'label', 'raw', 'swap', 'drop', 'add', 'scale']), 'i': r.randint(0, 8)}


def life(r, hist, types):
    """A history of the specification with concrete learners: the first data a learner is given it is built with."""
    dim = r.randint(2, 3)
    labels = [-1, 1] if types[0] in TWO or r.random() < .5 else [1, 2, 3]
    ops = [queries(r, dim), dataset(r, 1, dim, labels, (3, 5)), dataset(r, 2, dim, labels, (3, 5))]
    built, trained = {}, set()
    seed = r.choice([0, 1, 7, r.randint(2, 9999)])
    for name, a, b in hist:
        if name == 'give' and a not in built:
            built[a] = types[(a - 1) % len(types)]
            ops.append({'e': 'mk', 'l': a, 'd': b, 'type': built[a], 'seed': seed})
        elif name == 'give' and built[a] == 'imad' and a in trained:
            pass        # known finding of C25: the kernel matrix of the data before stays
        elif name == 'give':
            ops.append({'e': 'give', 'l': a, 'd': b})
        elif name == 'change':
            ops.append(changes(r, a))
        elif name == 'train':
            trained.add(a)
            ops.append({'e': 'train', 'l': a})
        else:
            ops.append({'e': 'ask', 'l': a, 'order': 0})
    last = {}
    for x in built:      # every model that was trained last is asked once more, in other orders
        st = [h for h in hist if h[1] == x and h[0] in ('give', 'train')]
        if st and st[-1][0] == 'train':
            ops += [{'e': 'ask', 'l': x, 'order': k} for k in (1, 2, 3, 0)]
    return ops


def twice(r, typ):
    """The same learner built twice from equal data, with other things going on in between."""
    dim = r.randint(2, 3)
    labels = [-1, 1] if typ in TWO or r.random() < .4 else [1, 2, 3]
    data = dataset(r, 1, dim, labels, (3, 6))
    seed = r.choice([1, 2, r.randint(3, 99999)])
    ops = [queries(r, dim), data, dict(dataset(r, 2, dim, labels, (3, 4)))]
    one = [{'e': 'mk', 'l': 1, 'd': 1, 'type': typ, 'seed': seed}, {'e': 'train', 'l': 1}, {'e': 'ask', 'l': 1, 'order': 0}]
    other = r.choice(TWO + ANY if labels == [-1, 1] else ANY)
    between = [[{'e': 'mk', 'l': 2, 'd': 2, 'type': other, 'seed': r.choice([0, 1, seed])}, {'e': 'train', 'l': 2}, {'e': 'ask', 'l': 2, 'order': 0}],
               [{'e': 'noise', 's': r.choice([0, seed, 5]), 'k': r.randint(0, 5)}], [{'e': 'mk', 'l': 2, 'd': 1, 'type': typ, 'seed': seed + 1}, {'e': 'train', 'l': 2},
                {'e': 'ask', 'l': 2, 'order': 0}],
               [{'e': 'ask', 'l': 1, 'order': 1}], [], [changes(r, 2)]]
    two = [{'e': 'mk', 'l': 3, 'd': r.choice([1, 1, 2]), 'type': typ, 'seed': seed}]
    if two[0]['d'] == 2:
        two.append({'e': 'give', 'l': 3, 'd': 1})
    if r.random() < .4:
        two.append(changes(r, 1))
    two += [{'e': 'train', 'l': 3}, {'e': 'ask', 'l': 3, 'order': r.choice([0, 1])}, {'e': 'ask', 'l': 1, 'order': 0}, {'e': 'ask', 'l': 3, 'order': r.choice([2, 3])}]
    return ops + one + r.choice(between) + r.choice(between) + two


def life_models(ctx):
    q = ctx.quick
    jobs = [dict(module='LearnerMC', cfg=life_cfg(6, '1', '1', emit=True), name='one learner, one dataset', workers=1),
            dict(module='LearnerMC', cfg=life_cfg(5, '1, 2', '1, 2', emit=True), name='two learners, two datasets', workers=1),
            dict(module='LearnerMC', cfg=life_cfg(6 if q else 7, '1, 2', '1, 2'), tag='', name='longer lives', workers=3, timeout=800)]
    jobs += [dict(module='LearnerMC', cfg=life_cfg(5, '1', '1', v), tag='', name='fault: ' + v, workers=1, fault=True)
             for v in ('shares', 'writes', 'remembers', 'lazy')]
    return ctx.models(jobs)[:2]


def lives(ctx, hist, per_type):
    r, out = ctx.rng, []
    pools = [sorted((h for h in hs if any(x[0] == 'train' for x in h)), key=repr) for hs in hist]
    for t in TWO + ANY:
        for i in range(per_type):
            h = r.choice(pools[i % 2])
            mate = r.choice([t, t, r.choice(ANY), r.choice(TWO)])
            out.append(('l-%s-%d' % (t, i), life(r, h, [t, mate] if t in TWO or mate not in TWO else [mate, t])))
    return out


def run_life(ctx):
    import area_combine, area_feat, area_kmeans, area_linear, area_neigh, area_regress, area_valid, area_vector
    r, q = ctx.rng, ctx.quick
    hist = life_models(ctx)
    scens = lives(ctx, hist, 16 if q else 900) + [('t-%s-%d' % (t, i), twice(r, t)) for t in TWO + ANY for i in range(8 if q else 400)]
    ctx.conform('LearnerTrace', vt.build('learn'), SCHEMA, scens, source='lives of the specification with every learner, random lives')
    # the drivers of the other areas, whose judges hold them to this property as well
    n = 120 if q else 3000
    for area in (area_neigh, area_combine, area_valid, area_linear, area_feat, area_kmeans, area_regress, area_vector):
        area.kept(ctx, n)


def run_seeds(ctx):
    import area_kmeans
    r, q = ctx.rng, ctx.quick
    jobs = [dict(module='SeedMC', cfg=seed_cfg(4, emit=True), name='every history of 4 calls', workers=1),
            dict(module='SeedMC', cfg=seed_cfg(6 if q else 7), tag='', name='longer histories', workers=2, timeout=800)]
    jobs += [dict(module='SeedMC', cfg=seed_cfg(4, v), tag='', name='fault: ' + v, workers=1, fault=True) for v in ('guard',)]
    hist = sorted(ctx.models(jobs)[0], key=repr)
    scens = []
    for i, h in enumerate(hist if not q else r.sample(hist, min(len(hist), 500))):
        for j in range(2 if q else 40):
            dim = r.randint(2, 3)
            seeds = {0: 0, 1: r.choice([1, 1, r.randint(1, 999)]), 2: r.choice([2, 42, r.randint(1000, 2 ** 20)])}
            own, glob = OWN[(2 * i + j) % len(OWN)], r.choice(GLOBAL)
            ops = [queries(r, dim), dataset(r, 1, dim, [-1, 1], (4, 6))]
            for name, s in h:
                if name == 'noise':
                    ops.append({'e': 'noise', 's': seeds[s], 'k': r.randint(0, 4)})
                else:
                    ops.append({'e': 'call', 'f': own if name == 'own' else glob, 'd': 1, 'seed': seeds[s]})
            scens.append(('m%d-%d' % (i, j), ops))
    for i in range(300 if q else 20000):
        dim = r.randint(2, 3)
        ops = [queries(r, dim), dataset(r, 1, dim, [-1, 1], (4, 6))]
        pool = [(r.choice(OWN + GLOBAL), r.choice([1, 2, 3, r.randint(4, 2 ** 20)])) for _ in range(3)]
        for _ in range(r.randint(6, 14)):
            if r.random() < .25:
                ops.append({'e': 'noise', 's': r.choice([0, 1, 2, pool[0][1]]), 'k': r.randint(0, 6)})
            else:
                f, s = r.choice(pool)
                ops.append({'e': 'call', 'f': f, 'd': 1, 'seed': s if r.random() < .9 else 0})
        scens.append(('r%d' % i, ops))
    scens += [('t-%s-%d' % (t, i), twice(r, t)) for t in TWO + ANY if t != 'committee' for i in range(8 if q else 600)]
    area_kmeans.kept(ctx, 120 if q else 1500)
    ctx.conform('LearnerTrace', vt.build('learn'), SCHEMA, scens, source='histories of the specification with every function that takes a seed, random histories')


def run_generators(ctx):
    r, q, scens = ctx.rng, ctx.quick, []
    jobs = [dict(module='GenerateMC', cfg=gen_cfg(3, 3, emit=True) if q else gen_cfg(4, 3, emit=True), name='every small request', workers=1, timeout=800),
            dict(module='GenerateMC', cfg=gen_cfg(4, 3) if q else gen_cfg(5, 3), tag='', name='larger requests', workers=3, timeout=800)]
    jobs += [dict(module='GenerateMC', cfg=gen_cfg(2, 2, v), tag='', name='fault: ' + v, workers=1, fault=True) for v in ('first', 'perClass', 'keepsCounting')]
    for i, h in enumerate(sorted(ctx.models(jobs)[0], key=repr)):
        k, dim = len(h['want']), r.randint(1, 3)
        seed = r.choice([0, r.randint(1, 99999)])
        scens.append(('m%d' % i, [{'e': 'blobsat', 'ns': h['want'], 'cs': [[r.randint(-9, 9) for _ in range(dim)] for _ in range(k)], 'sds': [1] * k,
                                   'sh': h['sh'], 'cl': i % 3 > 0, 'seed': seed}]))
        if len(set(h['want'])) == 1 and h['want'][0]:
            scens.append(('ms%d' % i, [{'e': 'spirals', 'n': k * h['want'][0] + r.randint(0, k - 1), 'k': k, 'sh': h['sh'], 'noise': 0, 'loops': 1, 'seed': seed},
                                       {'e': 'blobs', 'n': h['want'][0], 'k': k, 'dims': dim, 'sd': 1, 'lo': -5, 'hi': 5, 'sh': h['sh'], 'cl': i % 3 > 0, 'seed': seed}]))
    n = 600 if q else 12000
    for i in range(n):
        seed = r.choice([0, 1, r.randint(2, 99999)])
        k = r.choice([1, 2, 2, 3, 4, 5])
        scens.append(('s%d' % i, [{'e': 'spirals', 'n': r.choice([k, 2 * k, r.randint(k, 40)] if i % 50 else [150, 301]), 'k': k, 'sh': r.random() < .5, 'noise': r.choice([0, 0, 1, 3]),
                                   'loops': r.randint(1, 3), 'seed': seed}]))
        lo = r.randint(-9, 5)
        scens.append(('b%d' % i, [{'e': 'blobs', 'n': r.choice([0, 1, 2, 3, 7, 10] if i % 50 else [60, 130]), 'k': k, 'dims': r.randint(1, 5) if i % 50 else 12, 'sd': r.choice([1, 1, 1000000, 4000000]), 'lo': lo,
                                   'hi': lo + r.randint(0, 12), 'sh': r.random() < .5, 'cl': r.random() < .7, 'seed': seed}]))
        dim = r.randint(1, 4)
        scens.append(('c%d' % i, [{'e': 'blobsat', 'ns': [r.choice([1, 1, 2, 5, 8]) for _ in range(k)], 'cs': [[r.randint(-9, 9) for _ in range(dim)] for _ in range(k)],
                                   'sds': [r.choice([1, 1, 1, 2000000]) for _ in range(k)], 'sh': r.random() < .5, 'cl': r.random() < .7, 'seed': seed}]))
        dim = r.randint(1, 6)
        scens.append(('r%d' % i, [{'e': 'regr', 'n': r.randint(1, 12) if i % 50 else r.choice([70, 200]), 'dims': dim, 'bias': r.randint(-5, 5), 'noise': r.choice([0, 0, 100]), 'inf': r.randint(0, dim + 1),
                                   'sh': r.random() < .5, 'seed': seed}]))
    ctx.conform('LearnerTrace', vt.build('learn'), SCHEMA, scens, source='every small request of the specification, random requests')


def run(ctx):
    {'C24': run_life, 'C28': run_seeds, 'C29': run_generators}[ctx.prop](ctx)
