"""C26: points, reductions, statistics and distances (spec/Vector*.tla)."""
import vt

SCHEMA = {'new': ['t', 'xs', 'ys', 'ids', 'als'], 'copy': ['d', 's'], 'assign': ['d', 's'], 'set': ['d', 'i', 'v'], 'fill': ['d', 'v'],
          'sel': ['d', 's', 'feats'], 'let': ['d', 'code'], 'build': ['d', 'code'], 'upd': ['d', 'o', 'code'], 'upds': ['d', 'o', 'v'],
          'red': ['code'], 'pair': ['a', 'b'], 'norm': ['a', 'q'], 'dist': ['x', 'y'], 'stat': ['ids', 'ys', 'xs', 'names', 'feats', 'f'],
          'line': ['lo', 'hi', 'n'], 'rnd': ['lo', 'hi', 'size', 'seed'], 'fun': ['x']}
LIM = 20000


def cfg(part, dim, span, n=1, variant='ok', emit=False):
    return '''SPECIFICATION Spec
CONSTANTS Dim = %d
 Wide = %d
 From = %d
 Part = "%s"
 Len_ = %d
 Variant = "%s"
 Emit = %s
INVARIANTS Laws Followed Printed
PROPERTY Stored
CHECK_DEADLOCK FALSE
''' % (dim, max(span) - min(span), 50 + min(span), part, n, variant, 'TRUE' if emit else 'FALSE')


class Out(Exception):
    """The value is not a small integer."""


def ap(o, a, b):
    if o == 3:
        if b == 0 or a % b:
            raise Out
        v = a // b
    else:
        v = a + b if o == 0 else a - b if o == 1 else a * b
    if abs(v) > LIM:
        raise Out
    return v


def value(R, code):
    def ev(i):
        k = code[i]
        if k < 4:
            return R[k - 1], i + 1
        if k == 4:
            e, j = ev(i + 1)
            return [abs(v) for v in e], j
        if k == 5:
            e, j = ev(i + 2)
            if any(abs(v ** code[i + 1]) > LIM or (code[i + 1] > 2 and abs(v) > 27) for v in e):
                raise Out
            return [v ** code[i + 1] for v in e], j
        if k < 20:
            e, j = ev(i + 1)
            return [ap(k - 10, a, b) for a, b in zip(e, R[code[j] - 1])], j + 1
        if k < 30:
            e, j = ev(i + 2)
            return [ap(k - 20, a, b) for a, b in zip(R[code[i + 1] - 1], e)], j
        if k < 40:
            e, j = ev(i + 1)
            return [ap(k - 30, a, code[j]) for a in e], j + 1
        e, j = ev(i + 2)
        return [ap(k - 40, code[i + 1], a) for a in e], j
    return ev(0)[0]


def sizes(R, code):
    """Whether all the points of an expression have the same size."""
    def refs(i):
        k = code[i]
        if k < 4:
            return [k], i + 1
        if k == 4:
            return refs(i + 1)
        if k == 5:
            return refs(i + 2)
        if k < 20:
            r, j = refs(i + 1)
            return r + [code[j]], j + 1
        if k < 30:
            r, j = refs(i + 2)
            return r + [code[i + 1]], j
        if k < 40:
            r, j = refs(i + 1)
            return r, j + 1
        return refs(i + 2)
    return len({len(R[k - 1]) for k in refs(0)[0]}) == 1


def expr(r, depth):
    if depth == 0 or r.random() < .15:
        return [r.randint(1, 3)]
    k = r.random()
    o = r.choice([0, 1, 2, 2, 3])
    e = expr(r, depth - 1)
    if k < .12:
        return [4] + e
    if k < .24:
        return [5, r.choice([1, 2, 2, 3])] + e
    if k < .45:
        return [10 + o] + e + [r.randint(1, 3)]
    if k < .65:
        return [20 + o, r.randint(1, 3)] + e
    if k < .83:
        return [30 + o] + e + [r.choice([-3, -2, -1, 1, 2, 3, 5])]
    return [40 + o, r.choice([-6, -2, 0, 1, 2, 3, 12])] + e


def good(r, R, depth, dim=None):
    """A random expression that has a value."""
    for _ in range(40):
        c = expr(r, depth)
        if not sizes(R, c):
            continue
        try:
            v = value(R, c)
        except Out:
            continue
        if dim is None or len(v) == dim:
            return c, v
    k = r.choice([k for k in (1, 2, 3) if dim is None or len(R[k - 1]) == dim])
    return [k], R[k - 1]


def new(r, R, t=None):
    return {'e': 'new', 't': t or r.choice('ddi'), 'xs': [list(v) for v in R], 'ys': [r.choice([-1, 0, 1, 2, 7]) for _ in R],
            'ids': [r.choice([0, 1, 5, 123]) for _ in R], 'als': [r.choice([0, 1, 3]) for _ in R]}


def asks(r, R, out):
    for _ in range(r.randint(1, 2)):
        c, v = good(r, R, 1)
        if v:
            out.append({'e': 'red', 'code': c})
    a, b = r.randint(1, 3), r.randint(1, 3)
    if len(R[a - 1]) == len(R[b - 1]):
        out.append({'e': 'pair', 'a': a, 'b': b})
    if any(R[a - 1]):
        out.append({'e': 'norm', 'a': a, 'q': r.choice([1, 2])})


def history(r, length):
    dim = r.choice([1, 2, 2, 3, 4, 6, 9]) if r.random() < .96 else r.choice([17, 33, 70])
    g = r.choice([1, 3, 3, 9, 40])
    R = [[r.randint(-g, g) for _ in range(dim)] for _ in range(3)]
    out = [new(r, R)]
    for _ in range(length):
        k = r.random()
        d, s = r.randint(1, 3), r.randint(1, 3)
        if k < .1 and d != s:
            out.append({'e': 'copy', 'd': d, 's': s})
            R[d - 1] = list(R[s - 1])
        elif k < .2:
            out.append({'e': 'assign', 'd': d, 's': s})
            R[d - 1] = list(R[s - 1])
        elif k < .3:
            i, v = r.randint(1, len(R[d - 1])), r.randint(-g, g)
            out.append({'e': 'set', 'd': d, 'i': i, 'v': v})
            R[d - 1] = R[d - 1][:i - 1] + [v] + R[d - 1][i:]
        elif k < .35:
            v = r.randint(-g, g)
            out.append({'e': 'fill', 'd': d, 'v': v})
            R[d - 1] = [v] * len(R[d - 1])
        elif k < .42:
            n = len(R[s - 1])
            f = r.sample(range(1, n + 1), r.randint(1, n))
            out.append({'e': 'sel', 'd': d, 's': s, 'feats': f})
            R[d - 1] = [R[s - 1][i - 1] for i in sorted(f)]
        elif k < .62:
            c, v = good(r, R, 2, len(R[d - 1]))
            out.append({'e': 'let', 'd': d, 'code': c})
            R[d - 1] = v
        elif k < .78:
            c, v = good(r, R, 2)
            out.append({'e': 'build', 'd': d, 'code': c})
            R[d - 1] = v
        else:
            o = r.choice([0, 1, 2, 3])
            if r.random() < .5:
                op = {'e': 'upds', 'd': d, 'o': o, 'v': r.choice([-2, -1, 1, 2, 3])}
                e = [op['v']] * len(R[d - 1])
            else:
                c, e = good(r, R, 1, len(R[d - 1]))
                op = {'e': 'upd', 'd': d, 'o': o, 'code': c}
                # a point on both sides is changed while it is read; only its own element matters
            try:
                v = [ap(o, a, b) for a, b in zip(R[d - 1], e)]
            except Out:
                continue
            out.append(op)
            R[d - 1] = v
        if r.random() < .4:
            asks(r, R, out)
    asks(r, R, out)
    return out


def distances(r, n):
    ops = []
    for _ in range(n):
        k = r.random()
        dim = r.choice([1, 1, 2, 2, 3, 4]) if r.random() < .96 else r.choice([9, 20, 40])
        if k < .25:
            pool = [0, 1, 4, 9, 16, 25, 36, 49] if dim == 1 else [0, 1, 4, 9, 16]
        elif k < .4:
            pool = [1, 4, 9]
        elif k < .7:
            pool = range(1, 20 if dim == 1 else 6)
        elif k < .85:
            pool = range(0, 6)
        else:
            pool = range(-7, 8)
        x, y = [r.choice(pool) for _ in range(dim)], [r.choice(pool) for _ in range(dim)]
        ops.append({'e': 'dist', 'x': x, 'y': list(x) if r.random() < .1 else y})
    return ops


def stat(r):
    n, dim = r.choice([1, 2, 3, 4, 5, 7]), r.choice([1, 2, 3, 4])
    g = r.choice([1, 3, 5])
    if r.random() < .04:
        n, dim, g = r.choice([7, 12, 18]), r.choice([3, 12]), 1
    names = r.sample(range(1, dim + 3), dim)
    return {'e': 'stat', 'ids': r.sample(range(1, 30 + n), n), 'ys': [r.choice([-1, 1]) for _ in range(n)], 'xs': [[r.randint(-g, g) for _ in range(dim)] for _ in range(n)],
            'names': names, 'feats': r.sample(names, r.randint(0, dim)), 'f': r.choice(names + [dim + 3])}


def kept(ctx, n):
    r = ctx.rng
    ctx.conform('VectorTrace', vt.build('vector'), SCHEMA, [('k%d' % i, [stat(r)]) for i in range(n)], source='statistics of datasets')


def run(ctx):
    r, q = ctx.rng, ctx.quick
    jobs = [dict(module='VectorMC', cfg=cfg('laws', 2, range(0, 5), emit=True), name='every pair of points of 2 coordinates up to 4', workers=1),
            dict(module='VectorMC', cfg=cfg('laws', 2, range(-2, 3), emit=True), name='signed coordinates', workers=1),
            dict(module='VectorMC', cfg=cfg('laws', 1, range(1, 50) if not q else range(1, 26), emit=True), name='every pair of numbers', workers=1, timeout=800),
            dict(module='VectorMC', cfg=cfg('registers', 2, [0], 2, emit=True), name='every history of 2 changes', workers=1),
            dict(module='VectorMC', cfg=cfg('laws', 3, range(0, 3) if q else range(0, 4)), tag='', name='three coordinates', workers=2, timeout=850)]
    for v in ('half', 'max', 'oneside', 'plus'):
        jobs.append(dict(module='VectorMC', cfg=cfg('laws', 2, range(1, 4), variant=v), tag='', name='fault: ' + v, workers=1, fault=True))
    jobs.append(dict(module='VectorMC', cfg=cfg('registers', 2, [0], 2, 'shift'), tag='', name='fault: shift', workers=1, fault=True))
    hist = ctx.models(jobs)
    binary = vt.build('vector')
    scens = []
    for k in range(3):
        for i, h in enumerate(sorted(hist[k], key=repr)):
            scens.append(('p%d-%d' % (k, i), [{'e': 'dist', 'x': h[0], 'y': h[1]}]))
    hs = sorted(hist[3], key=repr)
    for i, h in enumerate(hs if not q else r.sample(hs, min(len(hs), 4000))):
        R = [[1, 2], [1, -1], [2, 2]]
        scens.append(('h%d' % i, [new(r, R)] + [{'e': o, 'd': d, 's': s} if o != 'let' else {'e': 'let', 'd': d, 'code': c} for o, d, s, c in h]))
    for i in range(1500 if q else 15000):
        scens.append(('r%d' % i, history(r, r.randint(3, 14))))
    for i in range(150 if q else 2000):
        scens.append(('d%d' % i, distances(r, 20)))
        scens.append(('s%d' % i, [stat(r) for _ in range(4)]))
    for i in range(60 if q else 600):
        lo = r.randint(-5, 5)
        scens.append(('l%d' % i, [{'e': 'line', 'lo': lo, 'hi': lo + r.randint(1, 9), 'n': r.choice([2, 3, 4, 5, 7, 9, 50])},
                                  {'e': 'rnd', 'lo': lo, 'hi': lo + r.randint(1, 9), 'size': r.choice([1, 2, 3, 5, 9, 70]), 'seed': r.randint(1, 9999)},
                                  {'e': 'fun', 'x': [r.randint(0, 7) for _ in range(r.choice([1, 2, 3, 4, 60]))]}]))
    ctx.conform('VectorTrace', binary, SCHEMA, scens, source='every small pair and history of the specification, random histories')
