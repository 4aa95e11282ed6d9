"""C14, C17: one-vs-one, one-vs-all, ensembles (spec/Combine*.tla)."""
import vt

D = ['ids', 'ys', 'xs']
SCHEMA = {'ovo': ['sampled'] + D + ['dec'], 'ova': ['sampled'] + D + ['score'], 'ovap': D + ['qs'],
          'vnew': ['t', 'rude'] + D + ['table'], 'vtype': ['t'], 'vweights': ['w'], 'vassign': [], 'veval': [],
          'bag': ['seed', 'rude'] + D + ['table'], 'boost': ['rude'] + D + ['table', 'own'], 'comm': ['n'] + D + ['qs']}


def cfg(kind, k=3, m=3, n=3, maxw=2, length=3, variant='ok', emit=False):
    return '''SPECIFICATION Spec
CONSTANTS Kind = "%s"
 K = %d
 M = %d
 N = %d
 MaxW = %d
 Len0 = %d
 Variant = "%s"
 Emit = %s
INVARIANTS OvoRight OvoStrong VoteRight VoteLaws Guessing Positive Recursive Printed
CONSTRAINT OnlyFirst
CHECK_DEADLOCK FALSE
''' % (kind, k, m, n, maxw, length, variant, 'TRUE' if emit else 'FALSE')


LABELS = [-3, -1, 0, 1, 2, 3, 7, 10]


def data(r, k, per=(1, 3), dim=2, labels=None, ids=None):
    """k classes, their points in any order; the first coordinate names the point."""
    labs = labels or r.sample(LABELS if k <= len(LABELS) else range(-9, 40), k)
    ys = [c for c in labs for _ in range(r.randint(*per))]
    r.shuffle(ys)
    n = len(ys)
    xs = [[100 + i] + [r.randint(-5, 5) for _ in range(dim - 1)] for i in range(n)]
    r.shuffle(xs)
    ids = list(range(1, n + 1))
    if r.random() < .5:
        r.shuffle(ids)
    return {'ids': ids, 'ys': ys, 'xs': xs}


def classes(ys):
    return list(dict.fromkeys(ys))


def ovo_scens(ctx, tables, count):
    r, out = ctx.rng, []
    todo = list(tables)
    r.shuffle(todo)
    i = 0
    while todo:                       # several queries share one training
        part, todo = todo[:6], todo[6:]
        out.append(('o%d' % i, [dict(data(r, len(part[0])), e='ovo', sampled=r.random() < .25, dec=part)]))
        i += 1
    for j in range(count):
        k = r.choice([2, 3, 4, 4, 5]) if j % 12 else r.choice([6, 7, 8]) if j % 60 else r.choice([11, 14])
        q = [[[0 if a == b else r.choice([-1, 1]) for b in range(k)] for a in range(k)] for _ in range(4)]
        out.append(('ro%d' % j, [dict(data(r, k), e='ovo', sampled=r.random() < .25, dec=q)]))
        k = r.choice([2, 3, 4, 5]) if j % 12 else r.choice([6, 7, 8]) if j % 60 else r.choice([12, 20])
        q = [[r.choice([-3, -2, -1, 0, 1, 2, 3]) for _ in range(k)] for _ in range(6)]
        out.append(('ra%d' % j, [dict(data(r, k), e='ova', sampled=r.random() < .25, score=q)]))
        if j % 2 == 0:
            d = data(r, r.choice([2, 3, 4]), per=(1, 4))
            d['xs'] = [[x[0] - 104, x[1]] for x in d['xs']]
            out.append(('rp%d' % j, [dict(d, e='ovap', qs=[[r.randint(-9, 9), r.randint(-9, 9)] for _ in range(8)])]))
    # every relative order of three scores
    import itertools
    for k in (2, 3, 4):
        every = [list(t) for t in itertools.product([-2, -1, 1] if k == 4 else [-2, -1, 0, 1], repeat=k)]
        for j in range(0, len(every), 10):
            out.append(('a%d-%d' % (k, j), [dict(data(r, k), e='ova', sampled=False, score=every[j:j + 10])]))
    return out


def run_decompose(ctx):
    binary = vt.build('combine')
    jobs = [dict(module='CombineMC', cfg=cfg('ovo', 3), tag='', name='one-vs-one, 3 classes', workers=2)]
    jobs.append(dict(module='CombineMC', cfg=cfg('ovo', 3, emit=True), name='one-vs-one tables', workers=1))
    jobs.append(dict(module='CombineMC', cfg=cfg('ovo', 3, variant='winsOnly'), tag='', name='one-vs-one counting wins only', workers=1, fault=True))
    if not ctx.quick:
        jobs.append(dict(module='CombineMC', cfg=cfg('ovo', 4, emit=True), name='one-vs-one tables, 4 classes', workers=1))
    hist = ctx.models(jobs)
    tables = sorted([h['dec'] for h in hist[1]], key=repr)
    scens = ovo_scens(ctx, tables, 500 if ctx.quick else 4000)
    if not ctx.quick:
        scens += [('4' + s, o) for s, o in ovo_scens(ctx, sorted([h['dec'] for h in hist[3]], key=repr), 0)]
    ctx.conform('CombineTrace', binary, SCHEMA, scens, source='every table of decisions and scores of the specification, random tables')


def vote_scens(ctx, hist, count):
    r, out = ctx.rng, []
    for i, h in enumerate(hist):
        k = 3
        d = data(r, k)
        cl = classes(d['ys'])
        # members' predictions: the table for the first query, random for two more
        tab = [[cl[c - 1]] + [r.choice(cl) for _ in range(2)] for c in h['table']]
        ops = [dict(d, e='vnew', t='hard', rude=i % 5 == 0, table=tab)]
        if any(o['e'] == 'vtype' for o in h['hist']):
            ops.append({'e': 'vweights', 'w': [1] * len(tab)})
        ops += h['hist']
        out.append(('v%d' % i, ops))
    for i in range(count):
        k, m = r.choice([2, 3, 4]), r.randint(1, 5)
        if i % 12 == 3:
            k, m = r.choice([2, 5, 7]), r.choice([8, 11])
        if i % 60 == 5:
            k, m = r.choice([10, 12, 20]), r.choice([8, 11])
        d = data(r, k)
        cl = classes(d['ys'])
        tab = [[r.choice(cl) for _ in range(6)] for _ in range(m)]
        ops = [dict(d, e='vnew', t=r.choice(['hard', 'soft']), rude=r.random() < .2, table=tab)]
        if ops[0]['t'] == 'soft' or r.random() < .5:
            ops.append({'e': 'vweights', 'w': [r.randint(0, 4) for _ in range(m)]})
        have = len(ops) > 1
        for _ in range(r.randint(2, 6)):
            c = r.random()
            if c < .4:
                ops.append({'e': 'veval'})
            elif c < .6:
                ops.append({'e': 'vweights', 'w': [r.randint(0, 4) for _ in range(m)]})
                have = True
            elif c < .9:
                ops.append({'e': 'vtype', 't': r.choice(['hard', 'soft']) if have else 'hard'})
            else:
                ops.append({'e': 'vassign'})
        ops.append({'e': 'veval'})
        out.append(('rv%d' % i, ops))
    return out


def boost_scens(ctx, hist, count):
    r, out = ctx.rng, []

    def case(sid, d, miss, nq):
        cl = classes(d['ys'])
        m = len(miss)
        own = [[r.choice([c for c in cl if c != y]) if z else y for z, y in zip(row, d['ys'])] for row in miss]
        tab = [[r.choice(cl) for _ in range(nq)] for _ in range(m)]
        out.append((sid, [dict(d, e='boost', rude=r.random() < .5, table=tab, own=own)]))
    for i, h in enumerate(hist):
        n = len(h['miss'][0])
        while True:
            d = data(r, 2 if n < 4 else r.choice([2, 3]), per=(1, n))
            if len(d['ys']) == n:
                break
        case('b%d' % i, d, h['miss'], 8)
    for i in range(count):
        d = data(r, r.choice([2, 2, 3]), per=(1, 3))
        n, m = len(d['ys']), r.choice([2, 3, 3])
        if i % 8 == 0:
            miss = [[0] * n for _ in range(m)]
        else:
            miss = []
            while len(miss) < m:
                row = [1 if r.random() < .35 else 0 for _ in range(n)]
                if 0 < sum(row) < n:
                    miss.append(row)
        case('rb%d' % i, d, miss, 8)
    return out


def bag_scens(ctx, count):
    r, out = ctx.rng, []
    for i in range(count):
        k = r.choice([2, 2, 3, 4])
        d = data(r, k, per=(1, 8) if i % 50 else (20, 60))
        cl, m = classes(d['ys']), r.choice([1, 2, 3, 5, 7, 10])
        tab = [[r.choice(cl) for _ in range(6)] for _ in range(m)]
        out.append(('bag%d' % i, [dict(d, e='bag', seed=r.randint(1, 9999), rude=r.random() < .3, table=tab)]))
    for i in range(count // 3):
        # separable through the origin: a committee of perceptrons has no limit but time
        n = r.randint(2, 6)
        ys = [1, -1] + [r.choice([-1, 1]) for _ in range(n)]
        r.shuffle(ys)
        xs = r.sample(range(1, 12), len(ys))
        xs = [[y * x, y * r.randint(2, 9)] for x, y in zip(xs, ys)]
        out.append(('com%d' % i, [{'e': 'comm', 'n': r.randint(1, 5), 'ids': list(range(1, len(ys) + 1)), 'ys': ys, 'xs': xs,
                                   'qs': [[r.randint(-9, 9), r.randint(-9, 9)] for _ in range(8)]}]))
    return out


def usable(h):
    """Soft voting needs weights: they are set first when the type is ever changed."""
    return True


def run_ensembles(ctx):
    binary = vt.build('combine')
    jobs = [dict(module='CombineMC', cfg=cfg('vote', 3, 3, maxw=1, length=3, emit=True), name='voting histories', workers=1, timeout=600),
            dict(module='CombineMC', cfg=cfg('vote', 3, 2, maxw=1, length=5), tag='', name='voting, longer histories', workers=2, timeout=600),
            dict(module='CombineMC', cfg=cfg('boost', 2, 3, 3, emit=True), name='boosting', workers=1, timeout=600),
            dict(module='CombineMC', cfg=cfg('boost', 3, 3, 4, emit=False), tag='', name='boosting, 3 classes', workers=2, timeout=800),
            dict(module='CombineMC', cfg=cfg('vote', 2, 3, maxw=2, length=4, variant='hardOverwrites'), tag='', name='voting that overwrites weights',
                 workers=1, fault=True),
            dict(module='CombineMC', cfg=cfg('boost', 2, 2, 3, variant='noUpdate'), tag='', name='boosting without update', workers=1, fault=True)]
    hist = ctx.models(jobs)
    votes = sorted(hist[0], key=repr)
    votes = ctx.rng.sample(votes, min(len(votes), 700 if ctx.quick else 8000))
    boosts = sorted(hist[2], key=repr)
    n = 500 if ctx.quick else 6000
    scens = vote_scens(ctx, votes, n) + boost_scens(ctx, boosts, n) + bag_scens(ctx, n)
    ctx.conform('CombineTrace', binary, SCHEMA, scens, source='voting and boosting histories of the specification, random ensembles')


def kept(ctx, n):
    """The same histories, held to C24: the caller's data."""
    n //= 4
    ctx.conform('CombineTrace', vt.build('combine'), SCHEMA, ovo_scens(ctx, [], n) + vote_scens(ctx, [], n) + boost_scens(ctx, [], n) + bag_scens(ctx, n),
                source='decompositions and ensembles')


def run(ctx):
    {'C14': run_decompose, 'C17': run_ensembles}[ctx.prop](ctx)
