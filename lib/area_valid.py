"""C18, C19: metrics and cross-validation (spec/Validate*.tla)."""
import vt

SCHEMA = {'conf': ['ids', 'ys', 'ps', 'positives'], 'crep': ['ys', 'ps'],
          'kfold': ['dual', 'strict', 'strat', 'folds', 'times', 'seed', 'ids', 'ys', 'pred'],
          'kkfold': ['dual', 'strict', 'strat', 'folds', 'times', 'seed', 'ids', 'ys', 'pred']}
LABELS = [-3, -1, 0, 1, 2, 3, 7, 10]


def cfg(kind, n, k=2, labels=(1, 2), variant='ok', emit=False):
    return '''SPECIFICATION Spec
CONSTANTS Kind = "%s"
 N = %d
 K = %d
 Labels = {%s}
 Variant = "%s"
 Emit = %s
INVARIANTS Filled RowSums Diagonal Partition Held MeanLaws Printed
CHECK_DEADLOCK FALSE
''' % (kind, n, k, ', '.join(map(str, labels)), variant, 'TRUE' if emit else 'FALSE')


def ids(r, n):
    i = list(range(1, n + 1))
    if r.random() < .5:
        r.shuffle(i)
    return i


def subsets(r, cl):
    out = [[]] + [[c] for c in cl]
    for _ in range(2):
        s = [c for c in cl if r.random() < .5]
        r.shuffle(s)
        if s:
            out.append(s)
    return out


def run_metrics(ctx):
    r = ctx.rng
    binary = vt.build('valid')
    jobs = [dict(module='ValidateMC', cfg=cfg('count', 4, labels=(1, 2, 3), emit=True), name='counting, 3 classes', workers=1, timeout=600),
            dict(module='ValidateMC', cfg=cfg('count', 6 if not ctx.quick else 5, labels=(1, 2), emit=True), name='counting, 2 classes', workers=1, timeout=600),
            dict(module='ValidateMC', cfg=cfg('count', 3, labels=(1, 2), variant='transposed'), tag='', name='transposed counting', workers=1, fault=True)]
    hist = ctx.models(jobs)
    scens = []
    for k, hs in enumerate(hist[:2]):
        hs = sorted(hs, key=repr)
        for i, h in enumerate(hs):
            labs = r.sample(LABELS, 3) if i % 3 else [-1, 1, 2]
            if k == 1 and i % 2:
                labs = r.sample([[-1, 1], [1, -1], [0, 1], [1, 2]], 1)[0]
            ys = [labs[c - 1] for c in h['ys']]
            ps = [labs[c - 1] for c in h['ps']]
            cl = list(dict.fromkeys(ys))
            ops = [{'e': 'conf', 'ids': ids(r, len(ys)), 'ys': ys, 'ps': ps, 'positives': subsets(r, cl)}]
            if i % 2 or len(set(ys) | set(ps)) == 2:
                ops.append({'e': 'crep', 'ys': ys, 'ps': ps})
            scens.append(('m%d-%d' % (k, i), ops))
    for i in range(500 if ctx.quick else 6000):
        n = r.randint(1, 30) if i % 10 else 120 if i % 50 else r.choice([300, 600])
        labs = r.sample(LABELS, r.choice([1, 2, 2, 3, 4, 5, 8])) if i % 50 else r.sample(range(-9, 60), r.choice([12, 25]))
        if i % 4 == 0:
            labs = [-1, 1]
        ys = [r.choice(labs) for _ in range(n)]
        cl = list(dict.fromkeys(ys))
        err = r.choice([.1, .4, .9])
        ps = [r.choice(cl) if r.random() < err else y for y in ys]
        scens.append(('r%d' % i, [{'e': 'conf', 'ids': ids(r, n), 'ys': ys, 'ps': ps, 'positives': subsets(r, cl)},
                                  {'e': 'crep', 'ys': ys, 'ps': ps},
                                  {'e': 'crep', 'ys': [labs[0]] * n, 'ps': [r.choice(labs[:2]) for _ in range(n)]}]))
    ctx.conform('ValidateTrace', binary, SCHEMA, scens, source='every small table of predictions of the specification, random tables')


def cv(r, e, ys, folds, times, strat, dual=False, seed=None, err=None, strict=False):
    cl = list(dict.fromkeys(ys))
    err = r.choice([0, .2, .5, 1]) if err is None else err
    pred = [[r.choice(cl) if r.random() < err else y for y in ys] for _ in range(folds * times + 1)]
    return {'e': e, 'dual': dual, 'strict': strict, 'strat': strat, 'folds': folds, 'times': times, 'seed': r.randint(0, 9999) if seed is None else seed,
            'ids': ids(r, len(ys)), 'ys': ys, 'pred': pred}


def cv_scens(r, count):
    scens = []
    for i in range(count):
        folds = r.choice([2, 2, 3, 4, 5, 6]) if i % 10 else r.choice([7, 9, 11, 12]) if i % 50 else r.choice([17, 24])
        strat = r.random() < .6
        k = r.choice([2, 2, 3, 4])
        labs = r.choice([[-1, 1], [1, -1]]) if k == 2 and r.random() < .7 else r.sample(LABELS, k)
        # stratified folds: every class has at least as many points as there are folds
        ys = [c for c in labs for _ in range(r.randint(folds, folds + 4) if strat else r.randint(1, 6))]
        while len(ys) < folds:
            ys.append(labs[0])
        r.shuffle(ys)
        if r.random() < .7:
            scens.append(('k%d' % i, [cv(r, 'kfold', ys, folds, 1, strat, dual=i % 3 == 0)]))
        else:
            scens.append(('kk%d' % i, [cv(r, 'kkfold', ys, folds, r.randint(1, 3) if folds > 6 else r.randint(1, 5), strat, dual=i % 3 == 0)]))
    return scens


def kept(ctx, n):
    """The same validations, held to C24: the caller's data."""
    ctx.conform('ValidateTrace', vt.build('valid'), SCHEMA, cv_scens(ctx.rng, n), source='cross-validation')


def run_cv(ctx):
    r = ctx.rng
    binary = vt.build('valid')
    jobs = [dict(module='ValidateMC', cfg=cfg('cv', 5, k=2, emit=True), name='2-fold', workers=1),
            dict(module='ValidateMC', cfg=cfg('cv', 5 if ctx.quick else 6, k=3, emit=True), name='3-fold', workers=1, timeout=600),
            dict(module='ValidateMC', cfg=cfg('cv', 4 if ctx.quick else 5, k=4, emit=True), name='4-fold', workers=1, timeout=600),
            dict(module='ValidateMC', cfg=cfg('cv', 4, k=2, variant='leak'), tag='', name='evaluation on training points', workers=1, fault=True),
            dict(module='ValidateMC', cfg=cfg('cv', 4, k=2, variant='twoFold'), tag='', name='two-fold evaluation of the same half', workers=1, fault=True)]
    hist = ctx.models(jobs)
    scens = cv_scens(r, 700 if ctx.quick else 8000)
    for k, hs in enumerate(hist[:3]):
        for i, h in enumerate(sorted(hs, key=repr)):
            # as many points as in the specification; the library chooses the split
            n = len(h['fold'])
            labs = r.choice([[-1, 1], [1, 2, 3], [5]])
            ys = [r.choice(labs) for _ in range(n)]
            scens.append(('m%d-%d' % (k, i), [cv(r, 'kfold', ys, k + 2, 1, False)]))
    ys = [1, 1, 1, 1, -1, -1, -1, -1]
    scens.append(('dual-kfold', [cv(r, 'kfold', ys, 2, 1, True, dual=True, seed=3, strict=True)]))
    scens.append(('dual-kkfold', [cv(r, 'kkfold', ys, 2, 2, True, dual=True, seed=3, strict=True)]))
    ctx.conform('ValidateTrace', binary, SCHEMA, scens, source='data sizes of the specification, random data, table classifiers')


def run(ctx):
    {'C18': run_metrics, 'C19': run_cv}[ctx.prop](ctx)
