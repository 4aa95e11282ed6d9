"""C30: regressors (spec/Regress*.tla)."""
import vt

SCHEMA = {'lms': ['ids', 'ys', 'xs', 'r', 'maxit', 'init', 'w0', 'b0', 'verbose', 'late'],
          'knn': ['metric', 'ids', 'ys', 'xs', 'qs', 'k', 'late'], 'mse': ['a', 'b']}


def cfg(points, span, dim, rate, steps, variant='ok', emit=False):
    return '''SPECIFICATION Spec
CONSTANTS Points = %d
 Span = %d
 Dim = %d
 Rate = %d
 Steps = %d
 Variant = "%s"
 Emit = %s
INVARIANTS Nearer Printed
PROPERTY Stays
CHECK_DEADLOCK FALSE
''' % (points, span, dim, rate, steps, variant, 'TRUE' if emit else 'FALSE')


def some_ids(r, n):
    return r.sample(range(1, n + 6), n) if r.random() < .7 else list(range(1, n + 1))


def lms(r, xs, ys, goal, rate, maxit):
    dim = len(xs[0])
    init = r.choice([0, 0, 1])
    return {'e': 'lms', 'ids': some_ids(r, len(xs)), 'ys': ys, 'xs': xs, 'r': rate, 'maxit': maxit, 'init': init,
            'w0': [r.randint(-2, 2) if init else 0 for _ in range(dim)], 'b0': r.randint(-2, 2) if init else 0,
            'verbose': r.choice([0, 0, 1, 2]), 'late': r.choice([0, 0, 1]), 'goal': goal}


def on_plane(r, n, dim, g):
    w, b = [r.randint(-3, 3) for _ in range(dim)], r.randint(-4, 4)
    xs = [[r.randint(-g, g) for _ in range(dim)] for _ in range(n)]
    return xs, [b + sum(u * v for u, v in zip(w, x)) for x in xs], [b] + w


def knn(r, n=None):
    n, dim = n or r.choice([1, 2, 3, 4, 5, 6, 8]), r.choice([1, 1, 2, 3] if not n else [2, 3, 20])
    g = r.choice([1, 2, 5]) if n < 20 else 300
    xs = [[r.randint(-g, g) for _ in range(dim)] for _ in range(n)]
    return {'e': 'knn', 'metric': r.choice('eeem'), 'ids': some_ids(r, n), 'ys': [r.randint(-9, 9) for _ in range(n)], 'xs': xs,
            'qs': [r.choice(xs) if r.random() < .3 else [r.randint(-g, g) for _ in range(dim)] for _ in range(r.randint(1, 4))], 'k': r.randint(1, n),
            'late': r.choice([0, 0, 1])}


def random_scens(r, n):
    out = []
    for i in range(n):
        m, dim = r.choice([1, 1, 2, 3, 4]), r.choice([1, 1, 2, 3])
        g = r.choice([1, 1, 2])
        xs, ys, goal = on_plane(r, m, dim, g)
        big = max(1 + sum(v * v for v in x) for x in xs)
        rate = r.choice([k for k in (1, 2, 3, 4, 5) if 2 << k >= big][:3] + [0, 1])
        if r.random() < .3:
            ys, goal = [r.randint(-6, 6) for _ in xs], []
        small = 2 << rate >= big
        out.append(('l%d' % i, [lms(r, xs, ys, goal, rate, r.choice([1, 1, 2, 3, 4]) if not small or r.random() < .7 else r.choice([60, 2000]))]))
    for i in range(n):
        out.append(('k%d' % i, [knn(r)]))
    for i in range(n // 20):
        out.append(('kb%d' % i, [knn(r, r.choice([40, 130, 260]))]))
    for i in range(n // 4):
        k = r.randint(1, 6) if i % 20 else r.choice([70, 300])
        out.append(('e%d' % i, [{'e': 'mse', 'a': [r.randint(-9, 9) for _ in range(k)], 'b': [r.randint(-9, 9) for _ in range(k)]}]))
    return out


def kept(ctx, n):
    ctx.conform('RegressTrace', vt.build('regress'), SCHEMA, random_scens(ctx.rng, n), source='regressors')


def run(ctx):
    r, q = ctx.rng, ctx.quick
    jobs = [dict(module='RegressMC', cfg=cfg(2, 1, 1, 1, 6, emit=True), name='every data set of 2 numbers on a line', workers=1),
            dict(module='RegressMC', cfg=cfg(2, 1, 2, 2, 4 if q else 8, emit=True), name='2 points of the plane', workers=1, timeout=800),
            dict(module='RegressMC', cfg=cfg(3, 1 if q else 2, 1, 2, 6), tag='', name='3 numbers', workers=2, timeout=800),
            dict(module='RegressMC', cfg=cfg(1, 6, 1, 4, 4), tag='', name='one point, smaller rate', workers=1),
            dict(module='RegressMC', cfg=cfg(2, 1, 1, 1, 6, 'bias'), tag='', name='fault: the bias moves with another rate', workers=1, fault=True)]
    hist = ctx.models(jobs)
    scens = []
    for k in range(2):
        hs = sorted(hist[k], key=repr)
        cap = 1500 if q else 6000
        for i, h in enumerate(hs if len(hs) <= cap else r.sample(hs, cap)):
            scens.append(('m%d-%d' % (k, i), [lms(r, h['xs'], h['ys'], [h['b']] + h['w'], 1 + k, r.choice([1, 2, 3, 500]))]))
    scens += random_scens(r, 600 if q else 6000)
    ctx.conform('RegressTrace', vt.build('regress'), SCHEMA, scens, source='data sets of the specification, random data sets')
