"""One run of one check: scenarios, judgement, known findings, evidence, verdict."""
import concurrent.futures as cf
import json
import os
import random
import sys
import time

import vt

KNOWN = os.path.join(vt.VERIF, 'known_findings.json')


class Ctx:
    def __init__(self, prop, tier):
        self.prop, self.tier = prop, tier
        self.quick = tier == 'quick'
        self.seed = int(os.environ.get('VERIF_SEED', '1') or '1')
        self.rng = random.Random('%s-%s' % (prop, self.seed))
        self.t0 = time.time()
        self.violations = []
        self.known_hits = {}
        self.cov = {'states': 0, 'transitions': 0, 'traces_validated_against_impl': 0, 'samples': []}
        self.assumptions = []
        self.level = 'model_checking'
        try:
            self.known = [f for f in json.load(open(KNOWN))['findings'] if f['property'] == prop]
        except FileNotFoundError:
            self.known = []
        self.replay_dir = os.path.join(vt.BUILD, 'replay')
        os.makedirs(self.replay_dir, exist_ok=True)

    # ------------------------------------------------------------ model
    def model(self, module, cfg, tag='H', env=None, timeout=300, heap='6g', workers=None, name=None, text=None, extra=(), fault=False):
        """Exhaustive TLC run; the specification itself must satisfy its properties."""
        t = time.time()
        r = vt.model_check(module, cfg, env=env, timeout=timeout, heap=heap, workers=workers, text=text, extra=extra)
        if fault:
            # a specification with a seeded fault: its own properties have to notice
            if r['ok'] or 'is violated' not in r['out']:
                raise vt.Broken('%s: the fault is not noticed\n%s' % (name, r['out'][-1500:]))
            self.cov.setdefault('seeded_model_faults_noticed', []).append(name)
            return r
        if not r['ok']:
            raise vt.Broken('%s: the specification does not satisfy its own properties or TLC failed:\n%s'
                            % (module, '\n'.join(l for l in r['out'].split('\n') if not l.startswith('"@'))[-4000:]))
        self.cov['states'] += r['states']
        self.cov['transitions'] += r['transitions']
        self.cov.setdefault('models', []).append(
            {'module': name or module, 'states': r['states'], 'transitions': r['transitions'], 'wall_s': round(time.time() - t, 1)})
        vt.log('model', name or module, r['states'], 'states', r['transitions'], 'transitions', '%.1fs' % (time.time() - t))
        return vt.printed(r['out'], tag) if tag else r

    def models(self, jobs):
        """Several independent runs in parallel: [(kwargs of model)] -> [printed histories]."""
        with cf.ThreadPoolExecutor(vt.NCPU) as ex:
            return [f.result() for f in [ex.submit(self.model, **j) for j in jobs]]

    # ------------------------------------------------------------ conformance
    def conform(self, module, binary, schema, scens, env=None, denv=None, op_timeout=20, prune=None, shards=None,
                judge_timeout=600, extra=(), source=''):
        """Runs scenarios in the real code and judges the recorded traces. Returns the events."""
        t = time.time()
        scens = [(str(sid), ops) for sid, ops in scens]
        evs = vt.run_driver(binary, scens, schema, op_timeout=op_timeout, env=denv, extra=extra, shards=shards)
        t1 = time.time()
        missing = [sid for sid, _ in scens if sid not in evs]
        died = [sid for sid, ev in evs.items() if ev and ev[-1].get('e') == 'crash']
        if missing and not died:
            raise vt.Broken('no events for scenarios %s' % missing[:5])
        if missing:
            vt.log('left out after %d crashes or hangs: %d scenarios' % (len(died), len(missing)))
            scens = [s for s in scens if s[0] in evs]
        tr = [(sid, prune(evs[sid]) if prune else evs[sid]) for sid, _ in scens]
        judge = vt.Judge(module, self.prop, env=env, timeout=judge_timeout)
        rejects = judge.run(tr)
        self.cov['traces_validated_against_impl'] += len(scens)
        self.cov['trace_events'] = self.cov.get('trace_events', 0) + judge.lines
        if source:
            by = self.cov.setdefault('by_source', {})
            by[source] = by.get(source, 0) + len(scens)
        if scens and len(self.cov['samples']) < 4:
            sid, ops = scens[len(scens) // 2]
            self.cov['samples'].append({'scenario': sid, 'ops': [vt.opline(o, schema) for o in ops][:12]})
        vt.log('conform', source, len(scens), 'scenarios', judge.lines, 'events: driver %.1fs judge %.1fs' % (t1 - t, time.time() - t1),
               'rejected', len(rejects))
        byid = dict(scens)
        trd = dict(tr)
        first = {}
        for sid, k, bad in rejects:
            if sid not in first or k < first[sid][0]:
                first[sid] = (k, bad)
        confirmed = 0
        seen = {}
        for sid, (k, bad) in sorted(first.items(), key=lambda e: len(byid[e[0]])):
            kf = self._known(sid, bad)
            if kf is not None:
                self.known_hits[kf['id']] = kf
                # other clauses of the same scenario still count
                bad = [b for b in bad if not any(b.startswith(c) for c in kf['clauses'])]
                if not bad:
                    continue
            key = (trd[sid][k]['e'] if k < len(trd[sid]) else '?', tuple(b.split(' in ')[0] if b.startswith('the call never returned') else b for b in bad))
            if seen.get(key, 0) >= 2 or confirmed >= 8:
                continue
            if self._confirm(module, binary, schema, sid, byid[sid], trd[sid], env, denv, op_timeout, prune, extra):
                seen[key] = seen.get(key, 0) + 1
                confirmed += 1
                self._report(sid, k, bad, byid[sid], trd[sid], schema)
            else:
                vt.log('NOT confirmed', sid, k, bad)
        if missing and not self.violations:
            raise vt.Broken('%d scenarios were not run after crashes that did not happen again' % len(missing))
        return evs

    def _known(self, sid, bad):
        for f in self.known:
            if f.get('status') == 'open' and sid == f['scenario'] and \
                    any(any(b.startswith(c) for c in f['clauses']) for b in bad):
                return f
        return None

    def _confirm(self, module, binary, schema, sid, ops, trace, env, denv, op_timeout, prune, extra):
        crash = trace and trace[-1].get('e') == 'crash'
        for _ in range(3):
            evs = vt.run_driver(binary, [(sid, ops)], schema, op_timeout=op_timeout * 2, env=denv, shards=1, extra=extra)
            tr = prune(evs[sid]) if prune else evs[sid]
            if vt.Judge(module, self.prop, env=env).run([(sid, tr)], shards=1):
                return True
        if crash:
            return False
        # a schedule- or entropy-dependent failure: the recorded execution itself is the evidence
        return bool(vt.Judge(module, self.prop, env=env).run([(sid, trace)], shards=1))

    def _report(self, sid, k, bad, ops, trace, schema):
        path = os.path.join(self.replay_dir, '%s-%s.json' % (self.prop, len(self.violations) + 1))
        with open(path, 'w') as f:
            json.dump({'property': self.prop, 'scenario': sid, 'rejected_event': k, 'failed_clauses': bad,
                       'operations': [vt.opline(o, schema) for o in ops],
                       'event': trace[k] if k < len(trace) else None,
                       'previous': trace[k - 1] if 0 < k <= len(trace) else None}, f, indent=1)
        self.violations.append((bad, path))
        print('VIOLATION property=%s replay=%s  # %s' % (self.prop, path, '; '.join(bad)[:300]), flush=True)

    def violation(self, what, detail):
        """A violation found outside conform()."""
        path = os.path.join(self.replay_dir, '%s-%s.json' % (self.prop, len(self.violations) + 1))
        with open(path, 'w') as f:
            json.dump({'property': self.prop, 'what': what, 'detail': detail}, f, indent=1)
        self.violations.append(([what], path))
        print('VIOLATION property=%s replay=%s  # %s' % (self.prop, path, what[:300]), flush=True)

    # ------------------------------------------------------------ end
    def finish(self):
        for kf in self.known_hits.values():
            print('KNOWN-FINDING: property=%s %s' % (self.prop, kf['what']), flush=True)
        ev = {'property': self.prop, 'tier': self.tier, 'seed': self.seed, 'level': self.level, 'coverage': self.cov,
              'assumptions': self.assumptions, 'wall_s': round(time.time() - self.t0, 2), 'violations': len(self.violations)}
        d = os.path.join(vt.VERIF, 'evidence')
        os.makedirs(d, exist_ok=True)
        with open(os.path.join(d, self.prop + '.json'), 'w') as f:
            json.dump(ev, f, indent=1)
        return 1 if self.violations else 0
