"""C22: feature selection (spec/Feat*.tla)."""
import vt

DATA = ['ids', 'ys', 'xs', 'names']
SCHEMA = {'rank': ['fisher', 'dual', 'number', 'times'] + DATA + ['rets'],
          'rfe': ['dual', 'final', 'jump', 'times', 'qtde', 'fold', 'cvjump', 'limit'] + DATA + ['rets', 'errs', 'weights'],
          'aos': ['final', 'breadth', 'sorting', 'choice', 'ahead', 'cut', 'times', 'seed', 'failing'] + DATA}


def rank(d, s, variant='ok', emit=False):
    return '''SPECIFICATION Spec
CONSTANTS D = %d
 MaxScore = %d
 Variant = "%s"
 Emit = %s
INVARIANTS Ranked Requested Learned Printed
PROPERTIES Ends
CHECK_DEADLOCK FALSE
''' % (d, s, variant, 'TRUE' if emit else 'FALSE')


def rfe(d, w, variant='ok', emit=False):
    return '''SPECIFICATION Spec
CONSTANTS D = %d
 MaxWeight = %d
 Limit = 5
 Variant = "%s"
 Emit = %s
INVARIANTS Requested LeastGone LastLearned Printed
PROPERTIES Ends
CHECK_DEADLOCK FALSE
''' % (d, w, variant, 'TRUE' if emit else 'FALSE')


def aos(d, b, v, failures=False, variant='ok'):
    return '''SPECIFICATION Spec
CONSTANTS D = %d
 Breadth = %d
 MaxValue = %d
 Failures = %s
 Variant = "%s"
INVARIANTS NeverBeyond Requested Once
PROPERTIES Ends
CHECK_DEADLOCK FALSE
''' % (d, b, v, 'TRUE' if failures else 'FALSE', variant)


def names(r, d):
    k = r.random()
    if k < .5:
        return list(range(1, d + 1))
    n = r.sample(range(0 if k > .9 else 1, 3 * d + 2), d)
    if k < .8:
        n.sort()
    return n


def data(r, n, d, g, constant=.15):
    often = r.choice([.5, .5, .1, .9])      # classes of different sizes
    ys = [1, -1, 1, -1] + [1 if r.random() < often else -1 for _ in range(n - 4)]
    r.shuffle(ys)
    shift = [r.randint(0, g) for _ in range(d)]
    xs = [[r.randint(-g, g) + (shift[k] if y > 0 else 0) for k in range(d)] for y in ys]
    for k in range(d):      # one class spreads more than the other
        if r.random() < .3:
            few = r.choice([1, -1])
            for x, y in zip(xs, ys):
                if y == few:
                    x[k] //= 4
    for k in range(d):
        if r.random() < constant:
            c, e = r.randint(-g, g), r.choice([0, 0, r.randint(-g, g)])
            for x, y in zip(xs, ys):
                x[k] = c + (e if y > 0 else 0)
    ids = list(range(1, n + 1))
    if r.random() < .3:
        ids = sorted(r.sample(range(1, 3 * n), n))
    return {'ids': ids, 'ys': ys, 'xs': xs, 'names': names(r, d)}


def scored(score):
    """Columns whose scores are ordered as given: the same spread, the means that far apart."""
    ys = [1] * 3 + [-1] * 3
    xs = [[s + t if y > 0 else t for s in score] for y, t in zip(ys, [-1, 0, 1, -1, 0, 1])]
    return {'ids': list(range(1, 7)), 'ys': ys, 'xs': xs, 'names': list(range(1, len(score) + 1))}


def rank_op(r, d, number, rets):
    return dict({'e': 'rank', 'fisher': r.choice([0, 1]), 'dual': r.choice([0, 1]), 'number': number, 'times': r.choice([1, 1, 2]), 'rets': rets}, **d)


def fails(d, p, r):
    return [0 if r.random() < p else 1 for _ in range(d + 1)]


def rfe_op(r, d, final, jump, weights, rets, errs, qtde=None, cvjump=1, limit=5):
    q = qtde if qtde is not None else r.choice([0, 0, 1, 2])
    return dict({'e': 'rfe', 'dual': 0 if q else r.choice([0, 1]), 'final': final, 'jump': jump, 'times': r.choice([1, 2]), 'qtde': q,
                 'fold': 2, 'cvjump': cvjump, 'limit': limit, 'rets': rets, 'errs': errs, 'weights': weights}, **d)


def modelled(ctx, ranks, rfes):
    r = ctx.rng
    scens = []
    for i, h in enumerate(ranks):
        d = scored(h['score'])
        rets = [1] * 6
        if h['fails']:
            rets[h['fails']] = 0
        scens.append(('mr%d' % i, [rank_op(r, d, h['number'], rets)]))
    for i, h in enumerate(rfes):
        dim = len(h['hist'][0]['w'])
        d = data(r, 20, dim, 4)
        d['ys'] = [1] * 10 + [-1] * 10
        rets = [x['ok'] for x in h['hist']]
        errs = [0 if not x['e'] else 2 for x in h['hist']]
        q = 1 if any(errs) else r.choice([0, 1, 2])
        scens.append(('mf%d' % i, [rfe_op(r, d, h['final'], h['jump'], [x['w'] for x in h['hist']], rets, errs, qtde=q)]))
    return scens


def random_scens(r, n):
    scens = []
    for i in range(n):
        dim = r.randint(2, 8) if i % 10 else r.randint(9, 30)
        d = data(r, r.randint(4, 14), dim, r.choice([2, 4, 8]))
        if i % 2:
            scens.append(('r%d' % i, [rank_op(r, d, r.randint(1, dim), fails(dim, r.choice([0, 0, .1]), r))]))
            continue
        q = r.choice([0, 0, 1, 2])
        if q:
            m = r.choice([10, 20])
            d = data(r, m, dim, 4)
            d['ys'] = [1] * (m // 2) + [-1] * (m // 2)
            r.shuffle(d['ys'])
        weights = [[r.randint(-9, 9) for _ in range(dim)] for _ in range(dim + 1)]
        if r.random() < .3:
            weights = [r.sample(range(1, 2 * dim + 1), dim)]
        e0 = r.randint(0, 3)
        errs = [e0] + [r.choice([e0, e0, max(0, e0 - 1), e0 + r.randint(0, 2)]) for _ in range(dim)]
        scens.append(('r%d' % i, [rfe_op(r, d, r.randint(1, dim - 1), r.choice([1, 1, 2, 3, 5]), weights, fails(dim, r.choice([0, 0, .1]), r), errs,
                                         qtde=q, cvjump=r.choice([1, 1, 2]), limit=r.choice([0, 5, 20]))]))
    return scens


def searches(r, n):
    scens = []
    for i in range(n):
        dim = r.randint(2, 6)
        d = data(r, r.randint(4, 10), dim, 4, 0)
        sorting = r.randint(1, 6)
        ahead = r.choice([0, 0, 0, 1, 2])
        # choosing by the distance of the centres needs a sorting that computes it; a node that
        # fails while looking ahead may leave nothing to search
        scens.append(('s%d' % i, [dict({'e': 'aos', 'final': r.randint(1, dim - 1), 'breadth': r.randint(1, 3), 'sorting': sorting,
                                        'choice': r.choice([1, 2]) if sorting in (2, 3) else 1, 'ahead': ahead, 'cut': r.choice([0, 0, 1, 2]),
                                        'times': r.choice([1, 1, 1, 2]), 'seed': r.randint(0, 10 ** 6),
                                        'failing': 0 if ahead else r.choice([0, 0, 10, 40])}, **d)]))
    return scens


def kept(ctx, n):
    """The same selections, held to C24: the caller's data."""
    ctx.conform('FeatTrace', vt.build('featselect'), SCHEMA, random_scens(ctx.rng, n) + searches(ctx.rng, n // 3), source='feature selection')


def run(ctx):
    r = ctx.rng
    binary = vt.build('featselect')
    q = ctx.quick
    jobs = [dict(module='FeatRankMC', cfg=rank(4, 2, emit=True), name='score ranking', workers=1),
            dict(module='FeatRfeMC', cfg=rfe(3, 1, emit=True), name='recursive elimination, 3 features', workers=1),
            dict(module='FeatRfeMC', cfg=rfe(4, 1), tag='', name='recursive elimination, 4 features', workers=2, timeout=800),
            dict(module='FeatAosMC', cfg=aos(3, 2, 2), tag='', name='best-first search', workers=2),
            dict(module='FeatAosMC', cfg=aos(3, 2, 2, True), tag='', name='best-first search with failing trainings', workers=2),
            dict(module='FeatAosMC', cfg=aos(3, 3, 2, True) if q else aos(4, 2, 2), tag='', name='best-first search, wider', workers=4, timeout=800)]
    jobs += [dict(module='FeatRankMC', cfg=rank(3, 1, v), tag='', name='fault: ' + v, workers=1, fault=True) for v in ('highest', 'forgets', 'onemore')]
    jobs += [dict(module='FeatRfeMC', cfg=rfe(3, 1, v), tag='', name='fault: ' + v, workers=1, fault=True) for v in ('everything', 'overshoot', 'any')]
    jobs += [dict(module='FeatAosMC', cfg=aos(3, 2, 2, variant=v), tag='', name='fault: ' + v, workers=1, fault=True) for v in ('shallow', 'fails')]
    hist = ctx.models(jobs)
    ranks, rfes = sorted(hist[0], key=repr), sorted(hist[1], key=repr)
    scens = modelled(ctx, ranks if not q else r.sample(ranks, min(600, len(ranks))), rfes)
    scens += random_scens(r, 600 if q else 8000)
    scens += searches(r, 120 if q else 1500)
    ctx.conform('FeatTrace', binary, SCHEMA, scens, source='every history of the specification, seeded random data, weights and failures')
