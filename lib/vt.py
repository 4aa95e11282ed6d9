"""Shared machinery: building drivers from /repo, running them, judging traces with TLC."""
import concurrent.futures as cf
import glob
import hashlib
import json
import os
import random
import re
import shutil
import subprocess
import sys
import tempfile
import time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VT_REPO', '/repo')
BUILD = os.path.join(VERIF, 'build')
SPEC = os.path.join(VERIF, 'spec')
HARNESS = os.path.join(VERIF, 'harness')
NCPU = min(8, os.cpu_count() or 4)
TLA_CP = '/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar'
LIBSRC = ['subprojects/ufjfmltk-core/src/Utils.cpp', 'subprojects/ufjfmltk-core/src/Datasets.cpp',
          'subprojects/ufjfmltk-core/src/Random.cpp', 'subprojects/ufjfmltk-classifier/src/int_dll.cpp']


class Broken(Exception):
    """The check itself could not do its work (build failure, TLC failure...)."""


def log(*a):
    print('[%6.1fs]' % (time.time() - T0), *a, file=sys.stderr, flush=True)


T0 = time.time()


def repo_sources():
    out = []
    for top in ('include', 'subprojects'):
        for d, _, fs in os.walk(os.path.join(REPO, top)):
            for f in fs:
                if f.endswith(('.hpp', '.h', '.cpp', '.cc', '.c')):
                    out.append(os.path.join(d, f))
    return sorted(out)


def repo_hash():
    h = hashlib.sha256()
    for f in repo_sources():
        h.update(f.encode())
        with open(f, 'rb') as fh:
            h.update(fh.read())
    return h.hexdigest()[:16]


def includes():
    return ['-I' + os.path.join(REPO, 'include')] + \
        ['-I' + p for p in sorted(glob.glob(os.path.join(REPO, 'subprojects/*/include')))] + ['-I' + HARNESS]


BASE_FLAGS = ['-std=c++17', '-O1', '-g0', '-w', '-D_GLIBCXX_ASSERTIONS', '-pthread']


def _compile(src, obj, flags):
    tmp = '%s.%d.tmp' % (obj, os.getpid())
    r = subprocess.run(['g++', *BASE_FLAGS, *flags, *includes(), '-c', src, '-o', tmp],
                       stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode:
        raise Broken('compiling %s failed:\n%s' % (src, r.stdout[-4000:]))
    os.replace(tmp, obj)


# extra flags of a driver
FLAGS = {}


def libjobs(flags):
    libdir = os.path.join(BUILD, 'lib-' + hashlib.sha256((repo_hash() + repr(flags)).encode()).hexdigest()[:16])
    os.makedirs(libdir, exist_ok=True)
    jobs, objs = [], []
    for s in LIBSRC:
        o = os.path.join(libdir, os.path.basename(s) + '.o')
        objs.append(o)
        if not os.path.exists(o):
            jobs.append((os.path.join(REPO, s), o))
    return jobs, objs


def libobjs(flags=()):
    jobs, _ = libjobs(list(flags))
    with cf.ThreadPoolExecutor(NCPU) as ex:
        for f in [ex.submit(_compile, s, o, list(flags)) for s, o in jobs]:
            f.result()


def build(name, flags=()):
    """Compiles harness/<name>.cpp with the library sources of /repo's working tree."""
    flags = list(flags) or list(FLAGS.get(name, ()))
    key = hashlib.sha256()
    key.update(repo_hash().encode())
    for f in [os.path.join(HARNESS, name + '.cpp')] + sorted(glob.glob(os.path.join(HARNESS, '*.hpp'))):
        key.update(open(f, 'rb').read())
    key.update(repr((BASE_FLAGS, flags)).encode())
    d = os.path.join(BUILD, 'bin')
    os.makedirs(d, exist_ok=True)
    out = os.path.join(d, '%s-%s' % (name, key.hexdigest()[:16]))
    if os.path.exists(out):
        return out
    for old in glob.glob(os.path.join(d, name + '-*')):
        if time.time() - os.path.getmtime(old) > 3600:
            os.unlink(old)
    jobs, objs = libjobs(flags)
    ho = out + '.o'
    jobs.append((os.path.join(HARNESS, name + '.cpp'), ho))
    t = time.time()
    with cf.ThreadPoolExecutor(NCPU) as ex:
        for f in [ex.submit(_compile, s, o, flags) for s, o in jobs]:
            f.result()
    tmp = '%s.%d.tmp' % (out, os.getpid())
    r = subprocess.run(['g++', *BASE_FLAGS, *flags, ho, *objs, '-o', tmp], stdout=subprocess.PIPE,
                       stderr=subprocess.STDOUT, text=True)
    if r.returncode:
        raise Broken('linking %s failed:\n%s' % (name, r.stdout[-4000:]))
    os.replace(tmp, out)
    os.unlink(ho)
    log('built', name, '%.1fs' % (time.time() - t))
    return out


def scratch(prefix):
    os.makedirs(os.path.join(BUILD, 'tmp'), exist_ok=True)
    return tempfile.mkdtemp(prefix=prefix + '-', dir=os.path.join(BUILD, 'tmp'))


# --------------------------------------------------------------------------- drivers

def _fmt(v):
    if isinstance(v, bool):
        return '1' if v else '0'
    if isinstance(v, (list, tuple)):
        return ' '.join([str(len(v))] + [_fmt(x) for x in v])
    return str(v)


def opline(op, schema):
    return ' '.join([op['e']] + [_fmt(op[k]) for k in schema[op['e']]])


def _run_shard(args):
    """Runs scenarios [(sid, [op dict])] in one driver process, restarting it after a crash.
    Returns {sid: [event dict]}; a crash or hang becomes a final event with e='crash'."""
    binary, scens, schema, workdir, op_timeout, env, extra = args
    os.makedirs(workdir, exist_ok=True)
    results = {}
    todo = list(scens)
    hangs = crashes = 0
    # after a hang the rest is given less time, after several the rest is left out (see ctx.conform)
    while todo and hangs < 5 and crashes < 60:
        if hangs == 1:
            op_timeout = max(3, op_timeout / 4)
        lines = []
        for sid, ops in todo:
            lines.append('begin %s' % sid)
            lines.extend(opline(o, schema) for o in ops)
        inp = os.path.join(workdir, 'in.txt')
        outp = os.path.join(workdir, 'out.jsonl')
        with open(inp, 'w') as f:
            f.write('\n'.join(lines) + '\n')
        fo = os.open(outp, os.O_CREAT | os.O_TRUNC | os.O_WRONLY)
        e = dict(os.environ)
        e.update(env or {})
        with open(inp) as fi:
            p = subprocess.Popen(['/bin/bash', '-c', 'exec 3>"$0"; exec "$@"', outp, binary, workdir, *extra],
                                 stdin=fi, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL, env=e,
                                 preexec_fn=os.setsid)
        os.close(fo)
        last, lastt, hung = -1, time.time(), False
        delay = 0.005
        while p.poll() is None:
            time.sleep(delay)
            delay = min(0.1, delay * 1.5)
            sz = os.path.getsize(outp)
            if sz != last:
                last, lastt = sz, time.time()
            elif time.time() - lastt > op_timeout:
                hung = True
                hangs += 1
                os.killpg(p.pid, 9)
                p.wait()
                break
        with open(outp, errors='replace') as f:
            raw = f.read().split('\n')
        if raw and raw[-1] != '':
            raw.pop()          # an incomplete line of a killed driver
        else:
            raw = raw[:-1]
        pos, done = 0, 0
        crashed = hung or p.returncode != 0
        crashes += crashed
        for sid, ops in todo:
            if pos >= len(raw):
                break
            pos += 1           # the reply to begin
            evs = []
            for o in ops:
                if pos >= len(raw):
                    break
                ev = dict(o)
                ev.update(json.loads(raw[pos]))
                pos += 1
                evs.append(ev)
            if len(evs) < len(ops):
                bad = dict(ops[len(evs)])
                evs.append({'e': 'crash', 'op': bad['e'], 'what': 'hang' if hung else 'exit %s' % p.returncode,
                            'args': opline(bad, schema)})
                results[sid] = evs
                done += 1
                break
            results[sid] = evs
            done += 1
        if not crashed:
            if done != len(todo):
                raise Broken('driver %s stopped early without an error' % binary)
            todo = []
        else:
            if done == 0:
                # died before answering the first begin
                sid, ops = todo[0]
                results[sid] = [{'e': 'crash', 'op': 'begin', 'what': 'exit %s' % p.returncode, 'args': ''}]
                done = 1
            elif pos >= len(raw) and len(results[todo[done - 1][0]]) == len(todo[done - 1][1]) and \
                    (not results[todo[done - 1][0]] or results[todo[done - 1][0]][-1]['e'] != 'crash') and done == len(todo):
                # all operations answered, died while shutting down
                results[todo[-1][0]].append({'e': 'crash', 'op': 'exit', 'what': 'exit %s' % p.returncode, 'args': ''})
            todo = todo[done:]
    return results


def run_driver(binary, scens, schema, op_timeout=20, env=None, shards=None, extra=()):
    """scens: [(sid, [op])]. Returns {sid: [event]}."""
    base = scratch('drv')
    n = shards or max(1, min(NCPU, len(scens) // 20 + 1))
    parts = [scens[i::n] for i in range(n)]
    res = {}
    try:
        with cf.ThreadPoolExecutor(n) as ex:
            for r in ex.map(_run_shard, [(binary, p, schema, os.path.join(base, 's%d' % i), op_timeout, env, list(extra))
                                         for i, p in enumerate(parts) if p]):
                res.update(r)
    finally:
        shutil.rmtree(base, ignore_errors=True)
    return res


# --------------------------------------------------------------------------- TLC

def tlc(module, cfg_text, env=None, workers=1, heap='1g', timeout=600, extra=(), workdir=None, text=None):
    """Runs TLC on spec/<module>.tla with the given configuration text; returns (ok, output)."""
    wd = workdir or scratch('tlc')
    try:
        for f in glob.glob(os.path.join(SPEC, '*.tla')):
            dst = os.path.join(wd, os.path.basename(f))
            if not os.path.exists(dst):
                os.symlink(f, dst)
        if text:        # a generated root module
            with open(os.path.join(wd, module + '.tla'), 'w') as f:
                f.write(text)
        cfg = os.path.join(wd, module + '.cfg')
        with open(cfg, 'w') as f:
            f.write(cfg_text)
        e = dict(os.environ)
        e.update(env or {})
        e.pop('JAVA_TOOL_OPTIONS', None)
        gc = '-XX:+UseSerialGC' if workers == 1 else '-XX:+UseParallelGC'
        cmd = ['java', gc, '-XX:TieredStopAtLevel=4', '-Xss16m', '-Xmx' + heap, '-cp', TLA_CP, 'tlc2.TLC',
               '-config', cfg, '-metadir', os.path.join(wd, 'states'), '-noGenerateSpecTE',
               '-workers', str(workers), *extra, module + '.tla']
        try:
            r = subprocess.run(cmd, cwd=wd, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                               text=True, timeout=timeout)
        except subprocess.TimeoutExpired as x:
            return None, (x.stdout or b'').decode(errors='replace') if isinstance(x.stdout, bytes) else (x.stdout or '')
        return r.returncode == 0, r.stdout
    finally:
        if workdir is None:
            shutil.rmtree(wd, ignore_errors=True)


def printed(out, tag):
    """Values printed by PrintT("@<tag>" \\o ToJson(v))."""
    res = []
    pre = '"@' + tag
    for line in out.split('\n'):
        if line.startswith(pre):
            try:
                res.append(json.loads(json.loads(line)[len(tag) + 1:]))
            except ValueError:
                pass
    return res


def tlc_stats(out):
    m = re.findall(r'(\d+) states generated, (\d+) distinct states found', out)
    if not m:
        return 0, 0
    return int(m[-1][0]), int(m[-1][1])


def model_check(module, cfg, env=None, heap='4g', timeout=600, workers=None, extra=(), text=None):
    """Exhaustive run; returns dict(ok, states, transitions, out)."""
    ok, out = tlc(module, cfg, env=env, workers=workers or NCPU, heap=heap, timeout=timeout, extra=extra, text=text)
    gen, dist = tlc_stats(out)
    return {'ok': ok, 'states': dist, 'transitions': gen, 'out': out}


def _judge_shard(args):
    module, events, prop, env, timeout = args
    wd = scratch('trc')
    try:
        path = os.path.join(wd, 'trace.ndjson')
        with open(path, 'w') as f:
            for ev in events:
                f.write(json.dumps(ev) + '\n')
        e = {'TRACE': path, 'PROP': prop}
        e.update(env or {})
        cfg = 'SPECIFICATION TraceSpec\nPOSTCONDITION TraceAccepted\nCHECK_DEADLOCK FALSE\n'
        ok, out = tlc(module, cfg, env=e, workers=1, heap='3g', timeout=timeout, workdir=wd)
        return ok, out
    finally:
        shutil.rmtree(wd, ignore_errors=True)


def _flatten(scen_events):
    out = []
    for sid, evs in scen_events:
        out.append({'e': 'begin', 'sid': sid})
        for k, ev in enumerate(evs):
            ev = dict(ev)
            ev['sid'] = sid
            ev['ei'] = k
            out.append(ev)
    return out


def _tail(out):
    i = out.find('Error:')
    return out[i:i + 4000] if i >= 0 else out[-3000:]


class Judge:
    """Judges recorded scenarios with a trace specification, sharded over several TLC processes."""

    def __init__(self, module, prop, env=None, timeout=600):
        self.module, self.prop, self.env, self.timeout = module, prop, env or {}, timeout
        self.lines = 0
        self.states = 0

    def run(self, scens, shards=None):
        """scens: [(sid, [event])]. Returns [(sid, k, [failed clause])] of rejected events."""
        if not scens:
            return []
        tot = sum(len(e) + 1 for _, e in scens)
        n = shards or max(1, min(NCPU, tot // 150 + 1, len(scens)))
        parts = [scens[i::n] for i in range(n)]
        rejects = []
        with cf.ThreadPoolExecutor(n) as ex:
            rs = list(ex.map(_judge_shard, [(self.module, _flatten(p), self.prop, self.env, self.timeout) for p in parts]))
        for p, (ok, out) in zip(parts, rs):
            rej = printed(out, 'REJECT')
            need = sum(len(e) + 1 for _, e in p)
            gen, dist = tlc_stats(out)
            if ok:
                if rej or dist != need + 1:
                    raise Broken('trace specification accepted %s of %s lines:\n%s' % (dist, need, out[-3000:]))
                self.lines += need
                self.states += dist
                continue
            if rej and dist == need + 1:
                self.lines += need
                self.states += dist
                for r in rej:
                    rejects.append((r['sid'], r['k'], sorted(r['bad'])))
                continue
            if ok is not None and 'Parsing or semantic analysis failed' in out:
                i = out.find('Semantic errors')
                raise Broken('%s does not parse:\n%s' % (self.module, out[max(0, i - 500):i + 2500] if i >= 0 else out[-2500:]))
            # TLC could not evaluate a line: isolate the scenario(s)
            if len(p) == 1:
                raise Broken('trace specification failed on scenario %s:\n%s' % (p[0][0], _tail(out)))
            half = len(p) // 2
            for q in (p[:half], p[half:]):
                rejects.extend(self.run(q, shards=1))
        return rejects
