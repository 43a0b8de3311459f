"""What all checks share: running the model checker on a design model, running drivers against the code in
/repo, having TLC judge the recorded traces, reporting and evidence."""
import concurrent.futures
import json
import os
import re
import shutil
import subprocess
import sys
import tempfile
import time

from vf import tlc

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SUT = os.path.join(ROOT, 'sut')
PYTHON = '/opt/venv/bin/python'
LEVEL = 'model_checking'


class Broken(Exception):
    """The check itself cannot give an answer."""


class Run(object):
    def __init__(self, prop, tier, seed):
        self.prop = prop
        self.tier = tier
        self.seed = seed
        self.t0 = time.time()
        self.states = 0
        self.transitions = 0
        self.traces = 0
        self.trace_events = 0
        self.samples = []
        self.models = []
        self.violations = []
        self.other = {}
        self.assumptions = []
        self.notes = {}
        self.work = tempfile.mkdtemp(prefix='vf-%s-' % prop)
        self.findings = load_findings(prop)

    thorough = property(lambda self: self.tier == 'thorough')

    def log(self, *a):
        print('[%s %6.1fs]' % (self.prop, time.time() - self.t0), *a, flush=True)

    # -- the specification ---------------------------------------------------------------------
    def mc(self, module, constants=None, invariants=(), label=None, killed_by=None, **kw):
        """Checks a model.  killed_by: the model contains a planted design error; one of these
        invariants must fail, otherwise the specification could not see that error."""
        label = label or module
        r = tlc.run(module, constants, invariants, **kw)
        if killed_by is not None:
            if r.violated not in killed_by:
                raise Broken('%s: planted design error not found: %s %s' % (label, r.violated, r.error))
            self.models.append({'model': label, 'design_error_found_by': r.violated,
                                'states': r.distinct, 'transitions': r.generated})
        else:
            if not r.finished:
                raise Broken('%s: %s %s\n%s' % (label, r.violated, r.error, r.out[-3000:]))
            self.models.append({'model': label, 'states': r.distinct, 'transitions': r.generated,
                                'exhaustive': not kw.get('simulate')})
        self.states += r.distinct
        self.transitions += r.generated
        self.log('model %s: %d states, %d transitions%s' % (
            label, r.distinct, r.generated, ', design error found by %s' % r.violated if killed_by else ''))
        return r

    def mcs(self, jobs, threads=4):
        """Several calls of mc (argument lists and keywords) side by side."""
        with concurrent.futures.ThreadPoolExecutor(threads) as ex:
            fs = [ex.submit(self.mc, *a, **dict(dict(workers=3, heap='3g'), **k)) for a, k in jobs]
            for f in fs:
                f.result()

    # -- the implementation --------------------------------------------------------------------
    def drive(self, driver, scenarios, shards=8, timeout=300):
        """Runs scenarios (dicts with an id) through sut/<driver>.py; returns the recorded traces."""
        shards = max(1, min(shards, (len(scenarios) + 3) // 4))
        parts = [scenarios[i::shards] for i in range(shards)]
        d = tempfile.mkdtemp(dir=self.work)

        def one(i):
            part = parts[i]
            traces = []
            rounds = 0
            while part:
                rounds += 1
                src = os.path.join(d, 'in%d_%d.json' % (i, rounds))
                dst = os.path.join(d, 'out%d_%d.ndjson' % (i, rounds))
                scratch = os.path.join(d, 'scratch%d_%d' % (i, rounds))
                os.mkdir(scratch)
                with open(src, 'w') as f:
                    json.dump(part, f)
                rc, err = run_driver(driver, src, dst, scratch, timeout)
                got = []
                if os.path.exists(dst):
                    with open(dst) as f:
                        for line in f:
                            if line.endswith('\n'):
                                got.append(json.loads(line))
                shutil.rmtree(scratch, ignore_errors=True)
                traces += got
                part = part[len(got):]
                if rc == 0 and not part:
                    break
                if rc == 0 or not got and rounds > 1 or rounds > 20 or (not part):
                    raise Broken('driver %s ended with %s after %d of %d scenarios: %s' % (
                        driver, rc, len(got), len(part) + len(got), err))
                if rc != 'timeout' and rc >= 0:
                    raise Broken('driver %s failed: %s' % (driver, err))
                # killed or stuck in the scenario after the last one recorded
                dead = part.pop(0)
                traces.append({'id': dead['id'], 'cfg': dead.get('cfg', {}), 'dead': True,
                               'ev': [{'e': 'dead'}]})
            return traces

        with concurrent.futures.ThreadPoolExecutor(shards) as ex:
            out = [t for ts in ex.map(one, range(shards)) for t in ts]
        order = {s['id']: n for n, s in enumerate(scenarios)}
        out.sort(key=lambda t: order[t['id']])
        if len(out) != len(scenarios):
            raise Broken('driver %s: %d traces for %d scenarios' % (driver, len(out), len(scenarios)))
        shutil.rmtree(d, ignore_errors=True)
        return out

    # -- traces against the specification ------------------------------------------------------
    def judge(self, module, traces, procs=4, constants=None, timeout=600):
        """Every trace is checked by TLC against the contract.  Returns a verdict per trace:
        {'ok', 'at' (1-based event index), 'clauses'}."""
        self.traces += len(traces)
        self.trace_events += sum(len(t['ev']) for t in traces)
        verdicts = {}
        live = []
        for n, t in enumerate(traces):
            if t.get('dead'):
                verdicts[n] = {'ok': False, 'at': 1, 'clauses': ['dead']}
            else:
                live.append(n)
        # balance by size
        live.sort(key=lambda n: -len(json.dumps(traces[n])))
        procs = max(1, min(procs, (len(live) + 19) // 20))
        groups = [live[i::procs] for i in range(procs)]

        def one(g):
            todo = list(g)
            res = {}
            states = trans = 0
            while todo:
                path = os.path.join(self.work, 'tr-%d-%d.ndjson' % (todo[0], len(todo)))
                with open(path, 'w') as f:
                    for n in todo:
                        t = traces[n]
                        f.write(json.dumps({'id': n, 'cfg': t['cfg'], 'ev': t['ev']}) + '\n')
                r = tlc.run(module, constants, (), env={'TRACES': path}, workers=2, timeout=timeout)
                os.remove(path)
                for p in r.prints:
                    if p.startswith('VERDICT '):
                        v = json.loads(p[8:])
                        res[v['id']] = {'ok': v['ok'], 'at': v['at'], 'clauses': sorted(v['clauses'])}
                states += r.distinct
                trans += r.generated
                if r.finished:
                    missing = [n for n in todo if n not in res]
                    if missing:
                        raise Broken('%s: no verdict for %s' % (module, missing[:5]))
                    break
                m = re.findall(r'/\\ tr = (\d+)', r.out)
                if not m:
                    raise Broken('%s: %s' % (module, r.error))
                n = todo[int(m[-1]) - 1]
                if n in res and res[n]['ok'] is False:
                    raise Broken('%s: %s' % (module, r.error))
                k = re.findall(r'/\\ i = (\d+)', r.out)
                res[n] = {'ok': False, 'at': int(k[-1]) + 1 if k else 1, 'clauses': ['uninterpretable'],
                          'detail': (r.error or '')[:800]}
                todo = [x for x in todo if x not in res]
                if sum(1 for v in res.values() if v['clauses'] == ['uninterpretable']) > 5:
                    # enough: these are reported, the others stay unjudged
                    for x in todo:
                        res[x] = {'ok': True, 'at': 0, 'clauses': []}
                    break
            return res, states, trans

        with concurrent.futures.ThreadPoolExecutor(procs) as ex:
            for res, states, trans in ex.map(one, groups):
                verdicts.update(res)
                self.states += states
                self.transitions += trans
        return [verdicts[n] for n in range(len(traces))]

    def conform(self, driver, scenarios, module, props_of, name=None, sample=2, **kw):
        """drive + judge + report.  props_of(clause, trace, at, scenario) -> properties the clause
        belongs to."""
        ids = [s['id'] for s in scenarios]
        if len(set(ids)) != len(ids):
            raise Broken('duplicate scenario ids')
        if not scenarios:
            return [], []
        traces = self.drive(driver, scenarios, timeout=kw.pop('drive_timeout', 300))
        verdicts = self.judge(module, traces, **kw)
        bad = 0
        for s, t, v in zip(scenarios, traces, verdicts):
            if v['ok']:
                continue
            mine = []
            for c in v['clauses']:
                ps = props_of(c, t, v['at'], s)
                if c.startswith('harness.') or ps is None:
                    raise Broken('harness: %s at event %d of %s: %s' % (
                        c, v['at'], t['id'], short(t['ev'][max(0, v['at'] - 3):v['at']])))
                if self.prop in ps or c in ('dead', 'uninterpretable'):
                    mine.append(c)
                else:
                    self.other[c] = self.other.get(c, 0) + 1
            if mine:
                bad += 1
                self.violation(mine, s, t, v, driver, module)
        good = [n for n, v in enumerate(verdicts) if v['ok']]
        for n in good[len(good) // 3:][:sample]:
            if len(self.samples) < 12:
                self.samples.append({'driver': driver, 'scenario': clip(scenarios[n]),
                                     'trace': clip(traces[n]['ev']), 'verdict': 'accepted'})
        self.log('%s: %d traces (%d events) judged by %s, %d rejected for %s%s' % (
            name or driver, len(traces), sum(len(t['ev']) for t in traces), module, bad, self.prop,
            ', elsewhere: %s' % self.other if self.other else ''))
        return traces, verdicts

    # -- results -------------------------------------------------------------------------------
    def violation(self, clauses, scenario, trace, verdict, driver, module):
        sig = '%s %s %s' % (driver, '+'.join(clauses), scenario['id'])
        for f in self.findings:
            if re.search(f['match'], sig):
                f['seen'] = f.get('seen', 0) + 1
                return
        self.violations.append(sig)
        if len(self.violations) <= 5:
            d = os.path.join(ROOT, 'work', 'replay')
            os.makedirs(d, exist_ok=True)
            path = os.path.join(d, '%s-%d.json' % (self.prop, len(self.violations)))
            with open(path, 'w') as f:
                json.dump({'property': self.prop, 'driver': driver, 'spec': module, 'clauses': clauses,
                           'at': verdict['at'], 'detail': verdict.get('detail', ''),
                           'scenario': scenario, 'trace': trace}, f, indent=1)
            print('VIOLATION property=%s replay=%s' % (self.prop, path), flush=True)
            print('   rule(s) %s broken at event %d of scenario %s: %s' % (
                ', '.join(clauses), verdict['at'], scenario['id'],
                short(trace['ev'][max(0, verdict['at'] - 2):verdict['at']])), flush=True)

    def finish(self):
        for f in self.findings:
            print('KNOWN-FINDING: property=%s %s' % (self.prop, f['what']))
        if len(self.violations) > 5:
            print('   ... %d violating traces in all' % len(self.violations))
        ev = {'property': self.prop, 'tier': self.tier, 'seed': self.seed, 'level': LEVEL,
              'coverage': {'states': self.states, 'transitions': self.transitions,
                           'traces_validated_against_impl': self.traces,
                           'trace_events': self.trace_events,
                           'models': self.models, 'samples': self.samples, 'notes': self.notes},
              'assumptions': self.assumptions, 'wall_s': round(time.time() - self.t0, 1),
              'violations': len(self.violations)}
        d = os.path.join(ROOT, 'evidence')
        os.makedirs(d, exist_ok=True)
        with open(os.path.join(d, self.prop + '.json'), 'w') as f:
            json.dump(ev, f, indent=1)
        shutil.rmtree(self.work, ignore_errors=True)
        self.log('%s: %d states, %d transitions, %d traces' % (
            'VIOLATED' if self.violations else 'held', self.states, self.transitions, self.traces))
        return 1 if self.violations else 0


def short(x, n=600):
    s = json.dumps(x)
    return s if len(s) <= n else s[:n] + '...'


def clip(x, n=1500):
    s = json.dumps(x)
    return x if len(s) <= n else s[:n] + '...'


def load_findings(prop):
    """finding: property=<id> match=<regex on 'driver clauses scenario'> <what fails>"""
    out = []
    path = os.path.join(ROOT, 'KNOWN_FINDINGS.txt')
    if os.path.exists(path):
        with open(path) as f:
            for line in f:
                m = re.match(r'finding: property=(\S+) match=(\S+) (.*)', line)
                if m and m.group(1) == prop:
                    out.append({'match': m.group(2), 'what': m.group(3)})
    return out


def run_driver(driver, src, dst, scratch, timeout):
    env = {'PATH': os.environ.get('PATH', ''), 'HOME': scratch, 'LANG': 'C.UTF-8',
           'PYTHONDONTWRITEBYTECODE': '1', 'PYTHONHASHSEED': '0', 'PYTHONNOUSERSITE': '1',
           'PYTHONPYCACHEPREFIX': '/nonexistent/no-pycache', 'VF_SCRATCH': scratch,
           'VF_REPO': os.environ.get('VF_REPO', '/repo'), 'TMPDIR': scratch}
    try:
        p = subprocess.run([PYTHON, '-B', '-W', 'ignore', os.path.join(SUT, driver + '.py'), src, dst], cwd=scratch,
                           env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout)
        return p.returncode, p.stdout.decode('utf-8', 'replace')[-2000:]
    except subprocess.TimeoutExpired:
        return 'timeout', 'timeout'
