"""C23: the kernel object (spec/KernelCache.tla, KernelTrace.tla)."""
import vt

SCHEMA = {'new': ['type', 'param'], 'settype': ['type'], 'setparam': ['param'], 'recompute': [], 'compute': [], 'call': [],
          'data': ['ids', 'ys', 'al', 'xs'], 'h': [], 'hout': ['out'], 'norm': [], 'pair': ['a', 'b']}


def cfg(n, types='0, 1, 2', params='1, 2, 3', versions='1, 2', variant='ok', emit=False):
    return '''SPECIFICATION Spec
CONSTANTS Types = {%s}
 Params = {%s}
 Versions = {%s}
 Len_ = %d
 Variant = "%s"
 Emit = %s
INVARIANTS Current Printed
PROPERTY Stable
CHECK_DEADLOCK FALSE
''' % (types, params, versions, n, variant, 'TRUE' if emit else 'FALSE')


def data(r, n, dim, g):
    i = list(range(1, n + 1))
    r.shuffle(i)
    return {'e': 'data', 'ids': i, 'ys': [r.choice([-1, 1]) for _ in range(n)], 'al': [r.choice([0, 0, 1, 2, 3]) for _ in range(n)],
            'xs': [[r.randint(-g, g) for _ in range(dim)] for _ in range(n)]}


def query(r, dim):
    k = r.random()
    if k < .3:
        return {'e': 'norm'}
    if k < .5:
        return {'e': 'h'}
    if k < .8:
        return {'e': 'hout', 'out': r.randint(0, dim - 1)}
    return {'e': 'pair', 'a': [r.randint(-3, 3) for _ in range(dim)], 'b': [r.randint(-3, 3) for _ in range(dim)]}


def run(ctx):
    r = ctx.rng
    binary = vt.build('kernel')
    q = ctx.quick
    jobs = [dict(module='KernelCache', cfg=cfg(4, emit=True), name='every history of 4 operations', workers=1),
            dict(module='KernelCache', cfg=cfg(5 if q else 6, types='0, 1', params='2, 3', emit=True), name='longer histories', workers=1, timeout=800),
            dict(module='KernelCache', cfg=cfg(4, variant='paramForgotten'), tag='', name='fault: parameter change keeps the matrix', workers=1, fault=True)]
    hist = ctx.models(jobs)
    scens = []
    for k, hs in enumerate(hist[:2]):
        hs = sorted(hs, key=repr)
        cap = 2500 if q else 20000
        if len(hs) > cap:
            hs = r.sample(hs, cap)
        for i, h in enumerate(hs):
            dim = r.randint(1, 3)
            n = r.randint(2, 4)
            sets = {d: data(r, n if d == 1 else r.randint(2, 4), dim, 3) for d in (1, 2)}
            ops = [{'e': 'new', 'type': 0, 'param': 2}, sets[1]]
            for name, v in h:
                if name == 'settype':
                    ops.append({'e': 'settype', 'type': v})
                elif name == 'setparam':
                    ops.append({'e': 'setparam', 'param': v})
                elif name == 'data':
                    ops.append(sets[v])
                elif name == 'compute':
                    ops.append({'e': r.choice(['compute', 'call'])})
                else:
                    ops.append({'e': name})
                if r.random() < .3:
                    ops.append(query(r, dim))
            scens.append(('m%d-%d' % (k, i), ops + [query(r, dim), query(r, dim)]))
    for i in range(500 if q else 6000):
        dim = r.randint(1, 5) if i % 20 else r.choice([3, 9, 18])
        ops = [{'e': 'new', 'type': r.choice([0, 1, 2, 3]), 'param': r.choice([0, 1, 2, 3])},
               data(r, r.randint(1, 9) if i % 20 else r.randint(30, 60) if i % 100 else r.choice([90, 130]), dim, 2 if i % 20 or dim < 9 else 1)]
        for _ in range(r.randint(4, 14)):
            k = r.random()
            if k < .35:
                ops.append({'e': r.choice(['compute', 'call'])})
            elif k < .45:
                ops.append({'e': 'settype', 'type': r.choice([0, 1, 2, 3])})
            elif k < .55:
                ops.append({'e': 'setparam', 'param': r.choice([0, 1, 2, 3])})
            elif k < .65:
                ops += [data(r, r.randint(1, 9), dim, 2), {'e': 'recompute'}]
            elif k < .7:
                ops.append({'e': 'recompute'})
            else:
                ops.append(query(r, dim))
        scens.append(('r%d' % i, ops))
    ctx.conform('KernelTrace', binary, SCHEMA, scens, source='every history of the specification, random histories')
