"""C01-C08: histories of dataset operations (spec/DataSet.tla, DataSetMC.tla, DataTrace.tla)."""
import vt

SCHEMA = {
    'new': ['s', 'typ'], 'clear': ['s'], 'ins': ['s', 'via', 'y', 'id', 'keep', 'x'], 'insfrom': ['s', 'src', 'i', 'keep'],
    'insall': ['s', 'keep', 'ids', 'ys', 'xs'],
    'rm': ['s', 'id'], 'rmm': ['s', 'ids'], 'upd': ['s', 'i', 'y'], 'copy': ['d', 's', 'how'], 'copyz': ['d', 's'],
    'join': ['s', 'src'], 'ccopy': ['d', 's', 'cs'], 'byclass': ['s', 'keep'], 'selfeat': ['d', 's', 'size', 'feats'],
    'insfeat': ['d', 's', 'keep', 'feats'], 'rmfeat': ['s', 'feats'], 'rmfeatc': ['d', 's', 'fs', 'feats'],
    'setfn': ['s', 'names'], 'shuffle': ['s', 'seed'], 'samp': ['d', 's', 'size', 'wr', 'seed'],
    'split': ['s', 'k', 'strat', 'keep', 'seed'], 'kfs': ['s', 'k', 'q', 'strat', 'keep', 'seed'],
    'kkfs': ['s', 'k', 'q', 'strat', 'keep', 'seed'], 'ptt': ['s', 'k', 'strat', 'keep', 'seed'], 'compdist': ['s'],
    'setx': ['s', 'i', 'k', 'v'], 'cover': ['s', 'size', 'wr', 'seeds'], 'covershuf': ['s', 'seeds'],
    'write': ['s', 'name', 'ext'], 'load': ['s', 'file', 'how'], 'rawfile': ['file', 'body'],
}

STRUCT = ['ins', 'insfrom', 'rm', 'rmm', 'upd', 'join', 'ccopy', 'copy', 'copyz', 'clear']
# operations explored exhaustively per property: (ops, Dim, MaxPts, Depth quick/thorough)
MODEL = {
    'C01': [(STRUCT + ['rmfeat', 'samp', 'compdist', 'shuffle'], 2, 4, 2, 3), (['ins', 'rm', 'rmm', 'upd', 'join'], 1, 4, 3, 4)],
    'C02': [(['ins', 'join', 'shuffle', 'rm', 'rmm'], 2, 4, 3, 4)],
    'C03': [(['copy', 'insfrom', 'join', 'setx', 'upd', 'ccopy', 'rmm'], 2, 4, 3, 4),
            (['copy', 'samp', 'selfeat', 'insfeat', 'rmfeatc', 'setx', 'split', 'kfs', 'ptt', 'byclass'], 2, 3, 2, 3)],
    'C04': [(['selfeat', 'insfeat', 'rmfeat', 'rmfeatc', 'join', 'ins'], 3, 3, 2, 3)],
    'C05': [(['ins', 'insfrom', 'join', 'upd', 'ccopy', 'byclass', 'copyz'], 2, 4, 2, 3)],
    'C06': [(['ins', 'upd', 'join', 'split', 'kfs', 'kkfs', 'ptt', 'rm'], 1, 5, 2, 3)],
    'C08': [(['ins', 'rm', 'upd', 'setx', 'rmfeat', 'join', 'write', 'load'], 2, 4, 3, 4)],
    'C07': [(['ins', 'upd', 'join', 'shuffle', 'samp', 'split', 'kfs', 'rm'], 1, 4, 2, 3)],
}


def mc_cfg(ops, dim, maxpts, depth, start, emit=True):
    return '''SPECIFICATION Spec
CONSTANTS Ops = {%s}
 Dim = %d MaxPts = %d Depth = %d Labels = {1, 2} From = {%d} Emit = %s
INVARIANT AllWellFormed
PROPERTY NeverEmptied OthersUntouched SamplesAreSubsets LoadingReplaces
VIEW Terse
CONSTRAINT Bound
ACTION_CONSTRAINT EmitHist
CHECK_DEADLOCK FALSE
''' % (', '.join('"%s"' % o for o in ops), dim, maxpts, depth, start, 'TRUE' if emit else 'FALSE')


def expand(hist):
    """History printed by TLC -> driver operations."""
    ops = []
    for k, pts in enumerate(hist[0]['sets'], 1):
        ops.append({'e': 'new', 's': k, 'typ': 'C'})
        for p in pts:
            ops.append({'e': 'ins', 's': k, 'via': 0, 'y': p['y'], 'id': p['id'], 'keep': True, 'x': p['x']})
    return ops + [dict(h) for h in hist[1:]]


class Gen:
    """Random histories; keeps a rough picture of the slots so that arguments stay meaningful."""

    def __init__(self, rng, weights, dim=None, typ='C', maxpts=12):
        self.r, self.w, self.typ, self.maxpts = rng, weights, typ, maxpts
        self.dim = dim or rng.choice([1, 2, 3, 4])
        self.tag = 100
        self.big = maxpts > 18
        self.labels = rng.sample([-3, -2, -1, 0, 1, 2, 3, 5] + ([8, 9, 11, 12, 40] if self.big else []), rng.choice([1, 2, 2, 3, 3, 4] + ([9, 12] if self.big else [])))
        self.n = [0, 0, 0]
        self.dims = [0, 0, 0]
        self.names = [[], [], []]
        self.ids = [[1], [1], [1]]
        self.ops = []
        self.huge = False

    def x(self, dim):
        self.tag += 1
        return [self.tag] + [self.r.randint(-9, 9) for _ in range(dim - 1)]

    def add(self, **k):
        self.ops.append(k)

    def fill(self, s, n=None):
        n = self.r.randint(19 if self.big else 1, self.maxpts) if n is None else n
        self.add(e='new', s=s + 1, typ=self.typ)
        self.n[s], self.dims[s], self.names[s] = 0, 0, []
        base = self.r.choice([0, 0, 0, 20])
        order = list(range(1, n + 1))
        keep = self.r.random() < 0.5
        if keep and self.r.random() < 0.6:
            self.r.shuffle(order)
        for i in range(n):
            self.ins(s, keep=keep, id_=base + order[i])

    def ins(self, s, keep=None, id_=None, dim=None):
        dim = dim or (self.dims[s] or self.dim)
        keep = self.r.random() < 0.5 if keep is None else keep
        id_ = self.r.randint(1, 30) if id_ is None else id_
        y = self.r.choice(self.labels) if self.typ == 'C' else self.r.randint(-50, 50)
        self.add(e='ins', s=s + 1, via=self.r.randint(0, 1), y=y, id=id_, keep=keep, x=self.x(dim))
        if self.dims[s] in (0, dim):
            if not self.dims[s]:
                self.names[s] = list(range(1, dim + 1))
            self.dims[s] = dim
            self.n[s] += 1

    def step(self):
        r = self.r
        o = r.choices(list(self.w), list(self.w.values()))[0]
        s = r.randrange(3)
        live = [k for k in range(3) if self.n[k] > 0]
        if not live:
            return self.fill(s)
        if o not in ('new', 'ins') and self.n[s] == 0 and r.random() < 0.9:
            s = r.choice(live)
        src = r.choice(live) if r.random() < 0.9 else r.randrange(3)
        d = r.randrange(3)
        while d == src:
            d = r.randrange(3)
        n = self.n[s]
        if o == 'new':
            self.fill(s)
        elif o == 'clear':
            self.add(e='clear', s=s + 1)
            self.n[s], self.dims[s], self.names[s] = 0, 0, []
        elif o == 'ins':
            dim = self.dims[s] or self.dim
            if r.random() < 0.12:
                dim += 1
            self.ins(s, dim=dim) if self.n[s] else self.ins(s, dim=self.dim)
        elif o == 'insfrom':
            i = r.randint(0, max(0, self.n[src] - 1)) if r.random() < 0.8 else r.choice([-1, -7, self.n[src], self.n[src] + 3])
            self.add(e='insfrom', s=s + 1, src=src + 1, i=i, keep=r.random() < 0.5)
            if 0 <= i < self.n[src] and self.dims[s] in (0, self.dims[src]):
                if not self.n[s]:
                    self.dims[s] = self.dims[src]
                    self.names[s] = list(range(1, self.dims[src] + 1))
                self.n[s] += 1
        elif o == 'rm':
            self.add(e='rm', s=s + 1, id=r.choice([0, 1, n, n + 1, r.randint(1, 30), r.randint(1, max(1, n))]))
            self.n[s] = max(1, n - 1) if n else 0
        elif o == 'rmm':
            k = r.choice([3, 40, 120]) if self.huge else r.randint(1, 5)
            ids = [r.choice([r.randint(1, max(1, n)), r.randint(1, 30), n]) for _ in range(k)]
            if r.random() < 0.08:
                ids = list(range(0, 60))
                r.shuffle(ids)
            self.add(e='rmm', s=s + 1, ids=ids)
            self.n[s] = max(1, n - k) if n else 0
        elif o == 'upd':
            y = r.choice(self.labels + [7, -4]) if self.typ == 'C' else r.randint(-50, 50)
            self.add(e='upd', s=s + 1, i=r.randint(0, n + (1 if r.random() < 0.2 else 0)), y=y)
        elif o == 'copy':
            self.add(e='copy', d=d + 1, s=src + 1, how=r.randint(0, 3))
            self.set(d, src)
        elif o == 'copyz':
            self.add(e='copyz', d=d + 1, s=src + 1)
            self.n[d], self.dims[d], self.names[d] = 0, self.dims[src], list(self.names[src])
        elif o == 'join':
            if s == src or (self.n[s] and self.n[src] and self.dims[s] != self.dims[src]):
                return
            if self.n[s] + self.n[src] > (900 if self.huge else 90 if self.big else 24):
                return
            # an empty target may still remember a dimension (copyZero)
            if not self.n[s] and self.dims[s] > self.dims[src]:
                return
            self.add(e='join', s=s + 1, src=src + 1)
            if self.n[src]:
                if not self.n[s]:
                    self.dims[s] = self.dims[src]
                    self.names[s] = list(self.names[src])
                self.n[s] += self.n[src]
        elif o == 'ccopy':
            cs = r.sample(self.labels + [7], r.randint(1, len(self.labels)))
            if r.random() < .15:
                cs.append(r.choice(cs))
            self.add(e='ccopy', d=d + 1, s=src + 1, cs=cs)
            self.set(d, src)
        elif o == 'byclass':
            if self.typ != 'C':
                return
            self.add(e='byclass', s=s + 1, keep=r.random() < 0.5)
        elif o in ('selfeat', 'insfeat', 'rmfeatc', 'rmfeat'):
            t = src if o != 'rmfeat' else s
            nm = self.names[t]
            if not nm or not self.n[t]:
                return
            if o in ('selfeat', 'insfeat'):
                f = r.sample(nm, r.randint(1, len(nm)))
                if o == 'selfeat':
                    self.add(e=o, d=d + 1, s=src + 1, size=r.choice([-1, -1, r.randint(1, len(f))]), feats=f)
                    size = self.ops[-1]['size']
                    k = len(f) if size == -1 else size
                    self.n[d], self.dims[d], self.names[d] = self.n[src], k, list(range(1, k + 1))
                else:
                    self.add(e=o, d=d + 1, s=src + 1, keep=r.random() < 0.5, feats=f)
                    self.n[d], self.dims[d], self.names[d] = self.n[src], len(f), [x for x in nm if x in f]
                return
            f = r.sample(nm, r.randint(0, len(nm) - 1)) + r.sample([40, 41, 50, 0], r.randint(0, 2))
            if len(nm) == 1:
                f = [nm[0]]
            if f and r.random() < 0.3:
                f.append(r.choice(f))
            r.shuffle(f)
            if o == 'rmfeat':
                self.add(e=o, s=s + 1, feats=f)
                if f and len(nm) > 1:
                    self.names[s] = [x for x in nm if x not in f]
                    self.dims[s] = len(self.names[s])
            else:
                fs = r.choice([-1, -1, r.randint(0, len(f))])
                self.add(e=o, d=d + 1, s=src + 1, fs=fs, feats=f)
                self.set(d, src)
                g = f if fs == -1 else f[:fs]
                if g and len(nm) > 1:
                    self.names[d] = [x for x in nm if x not in g]
                    self.dims[d] = len(self.names[d])
        elif o == 'setfn':
            if not self.n[s]:
                return
            nm = r.sample(range(1, 30), self.dims[s])
            if r.random() < 0.6:
                nm.sort()
            self.add(e='setfn', s=s + 1, names=nm)
            self.names[s] = nm
        elif o == 'shuffle':
            self.add(e='shuffle', s=s + 1, seed=r.choice([0, 1, 42, r.randint(1, 10**6)]))
        elif o == 'samp':
            if self.typ != 'C' or not self.n[src]:
                return
            # the exact size is only known to the driver: stay well below the estimate
            size = r.randint(1, max(1, self.n[src] // 2)) if not getattr(self, 'exact', False) else r.randint(1, self.n[src])
            self.add(e='samp', d=d + 1, s=src + 1, size=size, wr=r.random() < 0.5, seed=r.choice([0, r.randint(1, 10**6)]))
            self.n[d], self.dims[d], self.names[d] = size, self.dims[src], list(range(1, self.dims[src] + 1))
        elif o in ('split', 'kfs', 'kkfs', 'ptt'):
            if self.n[s] < 2:
                return
            c = {'e': o, 's': s + 1, 'k': r.randint(2, max(2, min(r.choice([5, 15, 40]) if self.huge else 15 if self.big else 6, self.n[s]))), 'strat': r.random() < 0.5,
                 'keep': r.random() < 0.7, 'seed': r.choice([0, r.randint(1, 10**6), 42])}
            if o in ('kfs', 'kkfs'):
                c['q'] = r.randint(1, 3) if o == 'kkfs' else 1
            self.ops.append(c)
        elif o == 'compdist':
            self.add(e='compdist', s=s + 1)
        elif o == 'setx':
            if self.dims[s] < 1 or not self.n[s]:
                return
            self.add(e='setx', s=s + 1, i=r.randrange(self.n[s]), k=r.randrange(self.dims[s]), v=r.randint(3000, 9000))
        elif o == 'cover':
            if self.n[s] and self.typ == 'C':
                self.add(e='cover', s=s + 1, size=r.randint(1, max(1, self.n[s] // 2)), wr=r.random() < 0.5, seeds=300)
        elif o == 'covershuf':
            if self.n[s]:
                self.add(e='covershuf', s=s + 1, seeds=300)

    def set(self, d, s):
        self.n[d], self.dims[d], self.names[d] = self.n[s], self.dims[s], list(self.names[s])


W = {
    'C01': dict(ins=3, insfrom=2, rm=3, rmm=3, upd=4, join=3, ccopy=2, byclass=1, copy=2, copyz=1, clear=1, new=1, shuffle=1,
                samp=2, split=1, kfs=1, rmfeat=2, rmfeatc=1, insfeat=1, selfeat=1, setx=1, compdist=1, ptt=1, setfn=1),
    'C02': dict(rm=6, rmm=6, ins=3, insfrom=1, shuffle=2, join=2, upd=1, copy=1, new=1, ccopy=1, samp=1, clear=1),
    'C03': dict(copy=5, setx=5, upd=3, insfrom=3, join=3, ccopy=2, samp=2, selfeat=2, insfeat=2, rmfeatc=2, rmfeat=2, split=2,
                kfs=2, kkfs=1, ptt=2, byclass=2, shuffle=2, rm=1, rmm=1, copyz=1, clear=1, new=1, ins=1),
    'C04': dict(selfeat=4, insfeat=4, rmfeat=5, rmfeatc=4, setfn=2, join=1, ins=2, copy=1, upd=1, shuffle=1, new=1, ccopy=1, rm=1,
                insfrom=1),
    'C05': dict(ins=5, insfrom=5, join=4, upd=5, ccopy=3, byclass=3, copyz=1, clear=1, rm=1, shuffle=1, copy=1, new=1, rmfeat=1),
    'C06': dict(split=4, kfs=4, kkfs=3, ptt=3, upd=1, rm=1, join=1, ins=1, shuffle=1, new=2, ccopy=1, setx=1),
    'C07': dict(shuffle=3, samp=5, split=1, kfs=1, ptt=1, upd=1, rm=1, join=1, ins=1, new=2, ccopy=1, covershuf=1, cover=2),
}


def random_scens(ctx, count, length):
    out = []
    for i in range(count):
        typ = 'R' if (ctx.prop in ('C01', 'C02', 'C03', 'C04', 'C05', 'C06') and ctx.rng.random() < 0.15) else 'C'
        dim = ctx.rng.choice([2, 3, 4, 5]) if ctx.prop == 'C04' else None
        maxpts = ctx.rng.choice([3, 6, 12, 18]) if ctx.prop in ('C06', 'C07') else ctx.rng.choice([2, 4, 6, 9])
        if i % (25 if ctx.prop == 'C03' else 12) == 5:
            # a few larger datasets, more classes, more features
            maxpts, dim = 40, ctx.rng.choice([1, 2, 12]) if ctx.prop != 'C04' else ctx.rng.choice([8, 14])
        g = Gen(ctx.rng, W[ctx.prop], dim=dim, typ=typ, maxpts=maxpts)
        g.fill(0)
        if ctx.rng.random() < 0.6:
            g.fill(1)
        k = 0
        start = len(g.ops)
        while len(g.ops) < max(start, 12) + length and k < length * 3:
            g.step()
            k += 1
        out.append(('r%d' % i, g.ops))
    return out


def large_scens(ctx, count, steps):
    """A few datasets of hundreds of points with more classes and columns: what happens to counters, buffers and shortcuts."""
    r, out = ctx.rng, []
    w = {k: v for k, v in W[ctx.prop].items() if k not in ('new', 'clear', 'cover', 'covershuf', 'kkfs')}
    for i in range(count):
        typ = 'R' if ctx.prop not in ('C06', 'C07') and r.random() < .15 else 'C'
        g = Gen(r, w, dim=r.choice([2, 5, 17]), typ=typ, maxpts=40)
        g.huge = True
        if typ == 'C' and r.random() < .4:
            g.labels = r.sample(range(-20, 60), r.choice([17, 35]))
        for s in (0, 1):
            n = r.choice([70, 140, 260, 300]) if not s else r.choice([5, 40])
            ids = r.sample(range(1, 2 * n), n) if r.random() < .4 else list(range(1, n + 1))
            keep = r.random() < .6
            if typ == 'C':
                ys = [r.choice(g.labels) for _ in range(n)]
                if r.random() < .3:
                    ys.sort()
            else:
                ys = [r.randint(-50, 50) for _ in range(n)]
            g.add(e='new', s=s + 1, typ=typ)
            g.add(e='insall', s=s + 1, keep=keep, ids=ids, ys=ys, xs=[v for _ in range(n) for v in g.x(g.dim)])
            g.n[s], g.dims[s], g.names[s] = n, g.dim, list(range(1, g.dim + 1))
        start, k = len(g.ops), 0
        while len(g.ops) < start + steps and k < 40:
            g.step()
            k += 1
        out.append(('b%d' % i, g.ops))
    return out


SCALE = 8
NAMES = ['a', 'b', 'setosa', 'B2', 'no', 'yes', 'x_1', 'Iris-virginica', 'zz']


def file_scens(ctx, count):
    """Round trips of random datasets, hand-written files, repeated loads into used objects."""
    r, out = ctx.rng, []

    def value():
        k = r.random()
        if k < 0.25:
            return r.randint(-9, 9) * SCALE
        if k < 0.5:
            return r.randint(-99999, 99999) * SCALE          # integers up to six digits
        if k < 0.55:
            return r.choice([1, -1]) * r.choice([10**6, 2 * 10**6, 12 * 10**6, 10**7, 123400000]) * SCALE
        return r.randint(-7999, 7999)                        # eighths, at most six significant digits

    def label(labels):
        return r.choice(labels)

    for i in range(count):
        ops = []
        typ = 'R' if r.random() < 0.25 else 'C'
        ext = r.choice(['data', 'csv'])
        labels = r.sample([-7, -2, -1, 0, 1, 2, 3, 10, 200], r.choice([1, 2, 2, 3, 5]))
        for rnd in range(r.choice([1, 1, 2, 3])):
            n = r.choice([1, 2, 3, 5, 8]) if typ == 'C' else r.choice([2, 3, 5, 8])
            if i % 15 == 7:
                n = 30
            dim = r.choice([1, 2, 3, 5, 9, 13])
            s = r.randint(1, 3)
            ops.append({'e': 'new', 's': s, 'typ': typ})
            if i % 30 == 11 and rnd == 0:
                n, dim = r.choice([100, 260]), r.choice([2, 20, 35])
                ops.append({'e': 'insall', 's': s, 'keep': r.random() < .5, 'ids': r.sample(range(1, 400), n), 'xs': [value() for _ in range(n * dim)],
                            'ys': [label(labels) if typ == 'C' else r.randint(-999, 999) * 2 + 1 for _ in range(n)]})
            for k in range(n if n < 100 else 0):
                y = label(labels) if typ == 'C' else r.randint(-999, 999) * 2 + 1
                ops.append({'e': 'ins', 's': s, 'via': 0, 'y': y, 'id': r.randint(1, 90), 'keep': r.random() < 0.5,
                            'x': [value() for _ in range(dim)]})
            fn = list(range(1, dim + 1))
            if r.random() < 0.4:
                fn = sorted(r.sample(range(1, 120), dim))
                ops.append({'e': 'setfn', 's': s, 'names': fn})
            if r.random() < 0.3 and dim > 1:
                ops.append({'e': 'rmfeat', 's': s, 'feats': [r.choice(fn)]})
            if r.random() < 0.3 and n > 1:
                ops.append({'e': 'shuffle', 's': s, 'seed': 7})
            if r.random() < 0.3 and n > 2 and typ == 'C':
                ops.append({'e': 'rm', 's': s, 'id': r.randint(1, n)})
            name = 'f%d' % r.randint(0, 1)
            ops.append({'e': 'write', 's': s, 'name': name, 'ext': ext})
            for _ in range(r.choice([1, 1, 2])):
                t = r.randint(1, 3)
                how = r.randint(0, 3) if typ == 'C' or ext == 'data' else r.randint(0, 1)
                if typ == 'R' and how < 2:
                    ops.append({'e': 'new', 's': t, 'typ': 'R'})
                ops.append({'e': 'load', 's': t, 'file': name + '.' + ext, 'how': how})
            if r.random() < 0.2:
                ops.append({'e': 'load', 's': r.randint(1, 3), 'file': 'absent.' + ext, 'how': r.randint(0, 1)})
        out.append(('f%d' % i, ops))
    for i in range(count // 3):
        n, dim = r.choice([1, 2, 4, 7]), r.choice([1, 2, 4])
        kind = r.choice(['csv', 'csvend', 'data'])
        named = r.random() < 0.5
        if named:
            pool = r.sample(NAMES, r.choice([1, 2, 3]))
        else:
            pool = [str(v) for v in r.sample([-2, -1, 0, 1, 2, 3, 14], r.choice([1, 2, 3]))]
        labs = [r.choice(pool) for _ in range(n)]
        seen = []
        for q in labs:
            if q not in seen:
                seen.append(q)
        ys = [(seen.index(q) + 1) if named else int(q) for q in labs]
        xs = [[r.choice([r.randint(-999, 999) * SCALE, r.randint(-7999, 7999)]) for _ in range(dim)] for _ in range(n)]
        txt = lambda v: ('%g' % (v / SCALE))
        deli = r.choice([',', ';']) if kind != 'data' else ' '
        fn = sorted(r.sample(range(1, 60), dim)) if kind == 'data' else list(range(1, dim + 1))
        lines = []
        for q, x in zip(labs, xs):
            v = [('%d:' % fn[k] if kind == 'data' else '') + txt(x[k]) for k in range(dim)]
            lines.append((deli.join(v + [q]) if kind == 'csvend' else deli.join([q] + v)).replace(' ', '^'))
        f = 'g.' + kind[:4].replace('csve', 'csv')
        exp = {'ext': kind[:3], 'fn': fn, 'lines': [{'y': y, 'x': x} for y, x in zip(ys, xs)], 'typ': 'C', 'names': labs}
        ops = [{'e': 'new', 's': 1, 'typ': 'C'}, {'e': 'rawfile', 'file': f, 'body': '|'.join(lines) + '|', 'exp': exp}]
        if r.random() < 0.5:
            ops += [{'e': 'ins', 's': 1, 'via': 0, 'y': 5, 'id': 1, 'keep': True, 'x': [8, 16]}] * 2
        ops.append({'e': 'load', 's': 1, 'file': f, 'how': 4 if kind == 'csvend' else r.randint(0, 3)})
        out.append(('g%d' % i, ops))
    return out


def histories(ctx):
    """All operation histories of the exhaustive models of this property, one list per configuration."""
    jobs, conf = [], []
    for k, (ops, dim, maxpts, dq, dt) in enumerate(MODEL[ctx.prop]):
        for start in (1, 2, 3):
            # one worker: the printed histories (and so the replayed sample) do not depend on scheduling
            jobs.append(dict(module='DataSetMC', cfg=mc_cfg(ops, dim, maxpts, dq if ctx.quick else dt, start), timeout=800,
                             name='DataSetMC/%s-%d.%d' % (ctx.prop, k + 1, start), workers=1, heap='3g'))
            conf.append(k)
    out = [[] for _ in MODEL[ctx.prop]]
    for k, hs in zip(conf, ctx.models(jobs)):
        out[k] += hs
    return [sorted(hs, key=repr) for hs in out]


def run_files(ctx):
    binary = vt.build('data')
    hs, = histories(ctx)
    hs = [h for h in hs if any(o['e'] == 'load' for o in h[1:])]
    cap = 1500 if ctx.quick else 12000
    if len(hs) > cap:
        hs = ctx.rng.sample(hs, cap)
    ctx.conform('DataTrace', binary, SCHEMA, [('m%d' % i, expand(h)) for i, h in enumerate(hs)], source='specification histories')
    ctx.conform('DataTrace', binary, SCHEMA, file_scens(ctx, 600 if ctx.quick else 6000), denv={'VT_SCALE': str(SCALE)},
                source='random datasets and files')


def run(ctx):
    if ctx.prop == 'C08':
        return run_files(ctx)
    binary = vt.build('data')
    hists = histories(ctx)
    cap = (1500 if ctx.quick else 12000) // len(hists)
    scens = []
    for k, hs in enumerate(hists):
        # every operation occurs in many histories: keep a seeded sample
        if len(hs) > cap:
            hs = ctx.rng.sample(hs, cap)
        scens += [('m%d-%d' % (k, i), expand(h)) for i, h in enumerate(hs)]
    ctx.conform('DataTrace', binary, SCHEMA, scens, source='specification histories')
    n, length = (400, 12) if ctx.quick else (5000, 20)
    ctx.conform('DataTrace', binary, SCHEMA, random_scens(ctx, n, length), source='random histories')
    # the state of a large dataset is long: few of them
    ctx.conform('DataTrace', binary, SCHEMA, large_scens(ctx, 60 if ctx.quick else 400, 6 if ctx.quick else 8), source='large datasets')
