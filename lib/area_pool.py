"""C09-C11: the thread pool (spec/Pool.tla, PoolMon.tla, PoolTrace.tla; harness/pool.cpp, sim.hpp)."""
import json

import vt

SCHEMA = {'run': ['w', 'sl', 'policy', 'seed', 'runs', 'goals', 'prog']}


# ------------------------------------------------------------------ specification
def P(op, t=0, n=0):
    return {'op': op, 't': t, 'n': n}


def text(prog):
    rec = lambda o: '[op |-> "%s", t |-> %d, n |-> %d]' % (o['op'], o['t'], o['n'])
    return '---- MODULE PoolRun ----\nEXTENDS Pool\nProgramsDef == <<%s>>\nASSUME PartitionsExact\n====\n' % \
        ', '.join('<<%s>>' % ', '.join(map(rec, c)) for c in prog)


def cfg(w0, maxw, variant='ok', emit=False, live=False):
    return '''CONSTANTS Programs <- ProgramsDef
W0 = %d
MaxWorker = %d
Variant = "%s"
Emit = %s
SPECIFICATION %s
INVARIANTS Guarantees Conserved Counter
%s
ACTION_CONSTRAINT Printed
CHECK_DEADLOCK FALSE
''' % (w0, maxw, variant, 'TRUE' if emit else 'FALSE', 'FairSpec' if live else 'Spec',
       'PROPERTY EverythingFinishes' if live else 'VIEW View')


PROGS = {
    # name: (clients, workers at the start, workers ever created, size: quick?)
    'control': ([[P('push', 1), P('pause'), P('wait'), P('counts'), P('unpause'), P('join'), P('destroy')],
                 [P('submit', 2), P('get', 2)]], 2, 2, True),
    'control3': ([[P('push', 1), P('push', 2), P('pause'), P('wait'), P('counts'), P('unpause'), P('wait'), P('join'), P('destroy')],
                 [P('submit', 3), P('get', 3)]], 2, 2, False),
    'producers': ([[P('push', 1), P('wait'), P('join'), P('destroy')], [P('push', 2), P('wait')]], 2, 2, True),
    'producers4': ([[P('push', 1), P('push', 2), P('wait'), P('join'), P('destroy')], [P('push', 3), P('push', 4), P('wait')]], 2, 2, False),
    'three': ([[P('push', 1), P('join'), P('destroy')], [P('push', 2)], [P('submit', 3), P('get', 3)]], 2, 2, False),
    'resize': ([[P('push', 1), P('push', 2), P('reset', 0, 1), P('push', 3), P('wait'), P('counts'), P('destroy')]], 2, 3, True),
    'resizePaused': ([[P('push', 1), P('pause'), P('push', 2), P('reset', 0, 2), P('counts'), P('unpause'), P('wait'), P('destroy')]], 1, 3, True),
    'resizeRace': ([[P('push', 1), P('reset', 0, 2), P('join'), P('destroy')], [P('push', 2), P('push', 3)]], 1, 3, True),
    'dropped': ([[P('push', 1), P('push', 2), P('pause'), P('destroy')]], 2, 2, True),
    'wide': ([[P('push', 1), P('push', 2), P('push', 3), P('wait'), P('join'), P('destroy')], [P('push', 4), P('wait')]], 3, 3, False),
    'long': ([[P('push', 1), P('pause'), P('push', 2), P('wait'), P('counts'), P('unpause'), P('reset', 0, 2), P('wait'), P('join'), P('destroy')],
              [P('submit', 3), P('get', 3), P('push', 4)]], 2, 4, False),
}
FAULTS = {
    'pauseUnlocked': ([[P('push', 1), P('pause'), P('wait'), P('unpause'), P('destroy')]], 2, 2, 'C10'),
    'countUnlocked': ([[P('push', 1), P('push', 2), P('pause'), P('wait'), P('unpause'), P('join'), P('destroy')], [P('push', 3)]], 2, 2, 'C10'),
    'lifo': ([[P('push', 1), P('push', 2), P('push', 3), P('destroy')]], 1, 1, 'C09'),
    'peek': ([[P('push', 1), P('destroy')]], 1, 1, 'C09'),
    'lateCount': ([[P('push', 1), P('wait'), P('join'), P('destroy')], [P('push', 2)]], 2, 2, 'C10'),
    'destroyNoWait': ([[P('push', 1), P('push', 2), P('destroy')]], 1, 1, 'C09'),
    'resetForgets': ([[P('pause'), P('push', 1), P('reset', 0, 1), P('wait'), P('unpause'), P('destroy')]], 1, 2, 'C10'),
    'noJoin': ([[P('push', 1), P('push', 2), P('reset', 0, 1), P('destroy')]], 2, 3, 'C10'),
}


def driver_op(o, kinds):
    t = o['t']
    if o['op'] == 'submit':
        return 'submit:%d::%s:%d' % (t, kinds[t % len(kinds)], 10 + t)
    return {'push': 'push:%d:' % t, 'get': 'get:%d' % t, 'reset': 'reset:%d' % o['n']}.get(o['op'], o['op'])


def models(ctx):
    """Explores the design exhaustively, shows that the monitor notices design faults, and returns histories."""
    jobs, names = [], []
    for n, (prog, w0, mw, quick) in PROGS.items():
        if quick or not ctx.quick:
            jobs.append(dict(module='PoolRun', cfg=cfg(w0, mw), text=text(prog), name='Pool/' + n, tag='', workers=2, timeout=800))
            if n in ('resize', 'resizePaused', 'dropped') or not ctx.quick and n in ('control', 'three'):
                jobs.append(dict(module='PoolRun', cfg=cfg(w0, mw, live=True), text=text(prog), name='Pool/%s, liveness' % n,
                                 tag='', workers=2, timeout=800))
    for n, (prog, w0, mw, _) in FAULTS.items():
        jobs.append(dict(module='PoolRun', cfg=cfg(w0, mw, variant=n), text=text(prog), name='Pool with fault ' + n, tag='', workers=1,
                         fault=True))
    sims = []
    per = 60 if ctx.quick else 600
    for n, (prog, w0, mw, quick) in PROGS.items():
        sims.append(n)
        jobs.append(dict(module='PoolRun', cfg=cfg(w0, mw, emit=True), text=text(prog), name='Pool/%s, histories' % n, workers=1, heap='2g',
                         extra=['-simulate', 'num=%d' % per, '-depth', '400', '-seed', str(ctx.seed)]))
    return list(zip(sims, ctx.models(jobs)[-len(sims):]))


def replays(ctx, hists):
    out = []
    for n, hs in hists:
        prog, w0, _, _ = PROGS[n]
        seen = set()
        for k, h in enumerate(hs):
            if tuple(h) in seen:
                continue
            seen.add(tuple(h))
            kinds = [['v', 'n', 'x'], ['s', 'va', 'na'], ['x', 'nx', 'v']][k % 3]
            ps = ';'.join('|'.join(driver_op(o, kinds) for o in c) for c in prog)
            out.append(('h-%s-%d' % (n, k), [{'e': 'run', 'w': w0, 'sl': k % 2 * 1000, 'policy': 'goal', 'seed': k, 'runs': 1,
                                             'goals': ','.join(h), 'prog': ps}]))
    return out


# ------------------------------------------------------------------ programs
class Gen:
    """Programs that terminate on a correct pool: only client 1 controls it, gates are opened and the pool is
    unpaused before anything waits for tasks."""

    def __init__(self, r, focus):
        self.r, self.focus = r, focus
        self.w = r.choice([1, 1, 2, 2, 3, 4])
        self.t = 0
        self.gates = 0
        self.loopid = 0

    def task(self):
        self.t += 1
        return self.t

    def body(self, gate=None):
        r = self.r
        b = [str(r.choice([0, 0, 1, 2, 4]))]
        if gate:
            b.append('g%d' % gate)
        if r.random() < 0.15:
            b.append('p%d' % self.task())
        r.shuffle(b)
        return '+'.join(b)

    def push(self, own, gate=None):
        r = self.r
        t = self.task()
        if r.random() < (0.8 if self.focus == 'C11' else 0.3):
            kind = r.choice(['n', 'na', 'v', 'va', 's', 'nx', 'x'])
            own.append(t)
            return 'submit:%d:%s:%s:%d' % (t, self.body(gate), kind, r.randint(10, 99))
        return '%s:%d:%s' % (r.choice(['push', 'pusha']), t, self.body(gate))

    def loop(self):
        r = self.r
        self.loopid += 1
        ty = r.choice('iiulz')
        lo = r.randint(0, 6) if ty in 'uz' else r.randint(-6, 6)
        if ty == 'z':
            lo = 0
        hi = lo + r.choice([0, 1, 1, 2, 3, 4, 5, 7, 8, 11, 16, 23])
        if r.random() < 0.25 and ty != 'z':
            lo, hi = hi, lo
        return 'loop:%d:%d:%d:%d:%d:%s' % (self.loopid, lo, hi, r.choice([0, 0, 1, 2, 3, 4, 5, 8, 30]), r.choice([0, 0, 1, 2]), ty)

    def client(self, n):
        r, out, own = self.r, [], []
        for _ in range(n):
            k = r.random()
            if k < 0.6:
                out.append(self.push(own))
            elif k < (0.85 if self.focus == 'C11' else 0.65) and own:
                out.append('%s:%d' % (r.choice(['get', 'get', 'poll']), own.pop(r.randrange(len(own)))) if r.random() < .9 else
                           'poll:%d' % own[0])
            elif k < 0.75 and self.loops:
                out.append(self.loop())
            elif k < 0.9:
                out.append('wait')
            else:
                out.append('sleep:%d' % r.randint(1, 6))
        return [o for o in out]

    def program(self, size):
        r = self.r
        self.loops = r.random() < (0.7 if self.focus == 'C11' else 0.2)
        nclients = r.choice([1, 1, 2, 2, 3])
        others = [self.client(r.randint(1, size)) for _ in range(nclients - 1)]
        out, own, paused, gated, w = [], [], False, [], self.w
        ctl = {'C09': 0.25, 'C10': 0.6, 'C11': 0.15}[self.focus]

        def flow():
            for g in gated:
                out.append('open:%d' % g)
            gated.clear()
        for _ in range(r.randint(2, size + 3)):
            k = r.random()
            if k < ctl:
                c = r.random()
                if c < 0.25:
                    out.append('unpause' if paused else 'pause')
                    paused = not paused
                    if r.random() < 0.6:
                        flow()
                        out += ['wait'] + (['counts'] if r.random() < .7 else [])
                elif c < 0.45:
                    flow()
                    out.append('wait')
                    if r.random() < 0.6:
                        out.append('counts')
                elif c < 0.75:
                    flow()
                    w = r.choice([1, 2, 3, 4])
                    out.append('reset:%d' % w)
                    if r.random() < 0.5:
                        out.append('counts')
                elif c < 0.9 and not paused and self.gates + 1 < 15:
                    # fill every worker with a gated task
                    self.gates += 1
                    gated.append(self.gates)
                    for _ in range(w):
                        t = self.task()
                        out.append('push:%d:g%d' % (t, self.gates))
                    if r.random() < .5:
                        out += [self.push(own)]
                    out += ['sleep:%d' % r.randint(5, 30), 'counts']
                else:
                    out.append('counts')
            elif k < ctl + (1 - ctl) * 0.55:
                g = None
                if r.random() < 0.2 and self.gates + 1 < 15:
                    self.gates += 1
                    g = self.gates
                    gated.append(g)
                out.append(self.push(own, g))
            elif k < ctl + (1 - ctl) * 0.7:
                if own and not paused:
                    flow()
                    out.append('get:%d' % own.pop(r.randrange(len(own))))
                elif own:
                    out.append('poll:%d' % r.choice(own))
            elif self.loops and not paused:
                flow()
                out.append(self.loop())
            else:
                out.append('sleep:%d' % r.randint(1, 8))
        flow()
        if paused:
            out.append('unpause')
        out.append('join')
        e = r.random()
        if e < 0.3:
            out += ['wait', 'counts']
        elif e < 0.5:
            out += ['pause'] + [self.push(own) for _ in range(r.randint(0, 2))] + (['wait', 'counts'] if r.random() < .5 else [])
        if r.random() < 0.3 and own and e < 0.3:
            out += ['get:%d' % t for t in own]
        out.append('destroy')
        return ';'.join('|'.join(c) for c in [out] + others)


def random_progs(ctx, count, runs, size):
    out = []
    for k in range(count):
        g = Gen(ctx.rng, ctx.prop)
        ps = g.program(ctx.rng.randint(2, size))
        out.append(('r%d' % k, [{'e': 'run', 'w': g.w, 'sl': ctx.rng.choice([0, 1000]), 'policy': ctx.rng.choice(['rand', 'rand', 'pct']),
                                'seed': ctx.rng.randint(1, 99999), 'runs': runs, 'goals': '-', 'prog': ps}]))
    return out


def bursts(ctx, count, runs):
    """Many more tasks than the small programs hold: queues, counts and blocks in the hundreds."""
    r, out = ctx.rng, []
    for k in range(count):
        w = r.choice([1, 2, 3, 5, 12])
        t, ops, own = 0, [], []
        if ctx.prop == 'C11':
            for i in range(1, r.randint(2, 3)):
                lo = r.randint(0, 40)
                hi = lo + r.choice([31, 64, 65, 100, 129, 257])
                ops.append('loop:%d:%d:%d:%d:0:%s' % (i, *r.choice([(lo, hi), (hi, lo)]), r.choice([0, 7, 33, 64]), r.choice('iil')))
        n = r.choice([40, 66, 70, 90] if ctx.prop != 'C11' else [20, 34])
        if r.random() < .5:
            ops.append('pause')
        for _ in range(n):
            t += 1
            if r.random() < (.7 if ctx.prop == 'C11' else .1):
                own.append(t)
                ops.append('submit:%d:0:%s:%d' % (t, r.choice(['n', 'v', 's', 'x', 'nx']), r.randint(10, 99)))
            else:
                ops.append('push:%d:0' % t)
        ops.append('counts')
        if 'pause' in ops:
            if ctx.prop == 'C10' and r.random() < .5:
                ops += ['wait', 'reset:%d' % r.choice([1, 9, 20]), 'counts']
            ops.append('unpause')
        if r.random() < .6:
            ops += ['wait', 'counts']
        ops += ['get:%d' % x for x in own] + ['join', 'destroy']
        out.append(('b%d' % k, [{'e': 'run', 'w': w, 'sl': r.choice([0, 1000]), 'policy': r.choice(['rand', 'pct']), 'seed': r.randint(1, 99999),
                                'runs': runs, 'goals': '-', 'prog': '|'.join(ops)}]))
    return out


DFS = {
    'C09': ['push:1:|push:2:|join|destroy;push:3:', 'push:1:|push:2:|push:3:|reset:1|join|destroy', 'push:1:p2|push:3:|join|destroy',
            'pause|push:1:|push:2:|unpause|join|destroy;push:3:'],
    'C10': ['push:1:|pause|wait|counts|unpause|wait|counts|destroy', 'push:1:|push:2:|pause|wait|unpause|join|destroy;push:3:',
            'push:1:|reset:1|wait|counts|destroy', 'push:1:|push:2:|wait|counts|join|destroy', 'pause|push:1:|reset:2|wait|counts|unpause|destroy',
            'push:1:|wait|counts|join|destroy;push:2:', 'push:1:1|push:2:|destroy', 'push:1:p2|wait|counts|destroy'],
    'C11': ['submit:1::v:42|submit:2::nx:7|get:1|get:2|join|destroy', 'loop:1:0:3:2:0:i|destroy', 'submit:1::n:0|get:1|loop:1:2:-1:0:1:i|destroy',
            'loop:1:0:2:0:0:i|join|destroy;loop:2:5:7:2:0:u'],
}


def dfs_progs(ctx, runs):
    out = []
    for k, p in enumerate(DFS[ctx.prop]):
        for w in (1, 2) if ctx.quick else (1, 2, 3):
            out.append(('d%d-%d' % (k, w), [{'e': 'run', 'w': w, 'sl': 0, 'policy': 'dfs', 'seed': 2 if ctx.quick else 3, 'runs': runs,
                                            'goals': '-', 'prog': p}]))
    return out


def wants(prog):
    w = {}
    for c in prog.split(';'):
        for o in c.split('|'):
            a = o.split(':')
            if a[0] == 'submit':
                kind, v = a[3], int(a[4])
                w[int(a[1])] = {'kind': 'n', 'v': 1} if kind in ('n', 'na') else {'kind': 'x' if 'x' in kind else 'v', 'v': v}
    return w


class Expand:
    """The executions a reply contains, one after another (each begins with the construction of a pool)."""

    def __init__(self):
        self.runs = self.steps = self.realised = self.distinct = 0

    def __call__(self, evs):
        out = []
        for ev in evs:
            if ev['e'] == 'crash':
                out.append(ev)
                continue
            want = wants(ev['prog'])
            self.runs += ev['runs']
            self.steps += ev['steps']
            self.realised += ev['realised']
            self.distinct += len(ev['logs'])
            for lg in ev['logs']:
                for e in lg:
                    if e['e'] == 'gret':
                        e = dict(e, want=want[e['t']])
                    out.append(e)
        return out


def part(ctx, name, binary, scens, source, op_timeout=120):
    x = Expand()
    ctx.conform('PoolTrace', binary, SCHEMA, scens, source=source, prune=x, op_timeout=op_timeout, shards=vt.NCPU)
    ctx.cov.setdefault('executions', {})[name] = {'executions': x.runs, 'distinct observable': x.distinct, 'scheduler steps': x.steps}
    if name == 'replay':
        ctx.cov['executions'][name]['histories followed to the end'] = x.realised
    vt.log(name, ctx.cov['executions'][name])


def run(ctx):
    binary = vt.build('pool')
    hists = models(ctx)
    part(ctx, 'replay', binary, replays(ctx, hists), 'specification histories')
    part(ctx, 'bounded preemption', binary, dfs_progs(ctx, 400 if ctx.quick else 6000), 'all schedules with few preemptions')
    n, runs, size = (250, 8, 8) if ctx.quick else (3000, 20, 12)
    part(ctx, 'random', binary, random_progs(ctx, n, runs, size), 'random programs and schedules')
    part(ctx, 'bursts', binary, bursts(ctx, *((24, 2) if ctx.quick else (300, 4))), 'random programs with many tasks')
    real = vt.build('pool_real')
    part(ctx, 'real', real, [('t' + s, [dict(ops[0], sl=ops[0]['sl'] // 20, policy='real')]) for s, ops in
                             random_progs(ctx, 60 if ctx.quick else 800, 4, 8)], 'operating-system threads')
