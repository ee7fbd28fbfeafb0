"""Shared machinery of the checks: TLC runner, implementation driver runner,
trace validation, evidence, known findings, violation reports."""
import json
import os
import random
import re
import shutil
import subprocess
import sys
import tempfile
import time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SPEC = os.path.join(VERIF, 'spec')
REPO = os.environ.get('VERIF_REPO', '/repo')
PYPY = os.environ.get('VERIF_PYTHON', '/opt/venv-pypy/bin/python')
CP = ('/opt/veriftools/tla/tla2tools.jar:'
      '/opt/veriftools/tla/CommunityModules-deps.jar')
EVID = os.path.join(VERIF, 'evidence')


class MachineryError(Exception):
    pass


class TLCResult(object):
    def __init__(self, out, rc, wall):
        self.out = out
        self.rc = rc
        self.wall = wall
        m = re.findall(r'(\d+) states generated, (\d+) distinct states found', out)
        self.generated = int(m[-1][0]) if m else 0
        self.distinct = int(m[-1][1]) if m else 0
        m = re.search(r'Number of states generated: (\d+)|Simulation.*?(\d+) states', out)
        self.violated = None
        m = re.search(r'(?:Invariant|Action property|Temporal properties?|property) (\S+) (?:is|was|were) violated', out)
        if m:
            self.violated = m.group(1)
        elif 'is violated' in out or 'were violated' in out:
            self.violated = 'unknown'

    def lines(self, tag):
        """Lines printed by the spec with PrintT(tag \\o json-string)."""
        res = []
        pre = '"' + tag + ' '
        for ln in self.out.splitlines():
            if ln.startswith(pre) and ln.endswith('"'):
                body = ln[len(pre):-1]
                res.append(json.loads(body.replace('\\"', '"').replace('\\\\', '\\')))
        return res


class Check(object):
    def __init__(self, pid, tier):
        self.pid = pid
        self.tier = tier
        self.quick = tier != 'thorough'
        self.seed = int(os.environ.get('VERIF_SEED', '1') or '1')
        self.rng = random.Random('%s-%s' % (pid, self.seed))
        self.t0 = time.time()
        self.scratch = tempfile.mkdtemp(prefix='verif-%s-' % pid)
        self.states = 0
        self.transitions = 0
        self.traces = 0
        self.samples = []
        self.notes = {}
        self.assumptions = []
        self.fails = []          # (clause, detail)
        self.known = []          # messages
        self.kf = load_known(pid)
        self.nrep = 0
        self.design_runs = []

    # ------------------------------------------------------------------ TLC
    def tlc(self, module, cfg=None, workers=4, env=None, args=(), timeout=800,
            heap='6g', expect_ok=True, simulate=None, depth=None, count=True):
        md = tempfile.mkdtemp(prefix='md-', dir=self.scratch)
        cmd = ['java', '-XX:+UseParallelGC', '-Xmx' + heap, '-Xss64m',
               '-Djava.io.tmpdir=' + self.scratch, '-cp', CP, 'tlc2.TLC',
               '-workers', str(workers), '-metadir', md, '-deadlock',
               '-noGenerateSpecTE', '-seed', str(self.seed), '-config', (cfg or module) + '.cfg']
        if simulate:
            cmd += ['-simulate', 'num=%d' % simulate, '-depth', str(depth or 20)]
        cmd += list(args) + [module + '.tla']
        e = dict(os.environ)
        e.update(env or {})
        t = time.time()
        try:
            p = subprocess.run(cmd, cwd=SPEC, env=e, stdout=subprocess.PIPE,
                               stderr=subprocess.STDOUT, timeout=timeout)
        except subprocess.TimeoutExpired:
            raise MachineryError('TLC timed out on %s after %ds' % (module, timeout))
        out = p.stdout.decode('utf-8', 'replace')
        r = TLCResult(out, p.returncode, time.time() - t)
        shutil.rmtree(md, ignore_errors=True)
        if expect_ok and p.returncode != 0:
            keep = [l for l in out.splitlines() if not l.startswith('"')]
            raise MachineryError('TLC failed on %s (rc %s):\n%s' %
                                 (module, p.returncode, '\n'.join(keep[-60:])))
        if count:
            self.states += r.distinct
            self.transitions += r.generated
        return r

    def design(self, module, cfg=None, **kw):
        """Exhaustive check of the design specification's own invariants."""
        r = self.tlc(module, cfg, **kw)
        self.design_runs.append({'module': module, 'cfg': cfg or module,
                                 'distinct_states': r.distinct,
                                 'states_generated': r.generated,
                                 'wall_s': round(r.wall, 1)})
        return r

    def must_fail(self, module, cfg, invariant, why):
        """Vacuity: a design that is known to be wrong has to violate the
        invariant."""
        r = self.tlc(module, cfg, workers=2, expect_ok=False, count=False)
        if r.violated != invariant:
            raise MachineryError('vacuity run of %s (%s) found nothing: %s' % (module, cfg, r.out[-500:]))
        self.notes.setdefault('vacuity', []).append('%s violates %s, as it must' % (why, invariant))

    # -------------------------------------------------------------- driver
    def drive(self, driver, tasks, timeout=600, procs=6, per=50):
        """Run the implementation driver (PyPy) on the tasks; returns the
        observations in order.  Every task gets an observation."""
        if not tasks:
            return []
        n = max(1, min(procs, len(tasks) // per + 1))
        chunks = [tasks[k::n] for k in range(n)]
        env = dict(os.environ)
        env.update(PYTHONDONTWRITEBYTECODE='1', PYTHONHASHSEED='0',
                   PYTHONPATH=REPO, PYTHONNOUSERSITE='1', LANG='C.UTF-8',
                   PYTHONPYCACHEPREFIX=os.path.join(self.scratch, 'pyc'),
                   VERIF_REPO=REPO, TMPDIR=self.scratch)
        def start(k, ch):
            fin = os.path.join(self.scratch, 'drv-%s-%d.in' % (driver, k))
            fout = os.path.join(self.scratch, 'drv-%s-%d.out' % (driver, k))
            ferr = os.path.join(self.scratch, 'drv-%s-%d.err' % (driver, k))
            with open(fin, 'w') as f:
                for t in ch:
                    f.write(json.dumps(t) + '\n')
            wd = os.path.join(self.scratch, 'wd-%d' % k)
            os.makedirs(wd, exist_ok=True)
            return (subprocess.Popen(
                [PYPY, '-W', 'ignore', os.path.join(VERIF, 'harness', 'drv', driver + '.py'), fin, fout],
                cwd=wd, env=env, stdout=subprocess.DEVNULL, stderr=open(ferr, 'w')), fout, ferr)

        ps = [start(k, ch) for k, ch in enumerate(chunks)]
        t = time.time()
        got = []
        for k, ch in enumerate(chunks):
            lines, died = [], 0
            while True:
                p, fout, ferr = ps[k]
                try:
                    rc = p.wait(max(1, timeout - (time.time() - t)))
                except subprocess.TimeoutExpired:
                    for q in ps:
                        q[0].kill()
                    raise MachineryError('driver %s timed out' % driver)
                new = open(fout).read().split('\n')[:-1] if os.path.exists(fout) else []
                lines += new
                if rc == 0 and len(lines) == len(ch):
                    break
                if rc >= 0 or len(lines) >= len(ch):
                    raise MachineryError('driver %s failed (rc %s, %d/%d results):\n%s' %
                                         (driver, rc, len(lines), len(ch), open(ferr).read()[-3000:]))
                # the library took the whole process down
                died += 1
                lines.append(json.dumps({'err': 'the process died (signal %d)' % -rc}))
                if died == 3:
                    lines += [lines[-1]] * (len(ch) - len(lines))
                if len(lines) == len(ch):
                    break
                ps[k] = start(k, ch[len(lines):])
            got.append(lines)
        res = [None] * len(tasks)
        for k, lines in enumerate(got):
            for j, ln in enumerate(lines):
                res[k + j * n] = json.loads(ln)
        return res

    def answered(self, tasks, traces, obs):
        """Without the tasks the driver got no observation for at all (the
        library raised outside of the observed calls, hung, died): these fail."""
        keep = []
        for t, tr, o in zip(tasks, traces, obs):
            if o['err']:
                self.fail('raised', {'clause': 'raised', 'detail': {'error': o['err'], 'tb': o.get('tb')}, 'input': t})
            else:
                keep.append((t, tr, o))
        return [list(x) for x in zip(*keep)] if keep else [[], [], []]

    # ---------------------------------------------------- trace validation
    def validate(self, module, traces, cfg=None, workers=6, env=None, batch=4000,
                 timeout=800, heap='8g', tag='V'):
        """traces: list of JSON-able records.  TLC prints one verdict per trace:
        [tid, ok, clause, detail].  Returns the list of verdict records."""
        verdicts = [None] * len(traces)
        for b in range(0, len(traces), batch):
            part = traces[b:b + batch]
            fn = os.path.join(self.scratch, 'tr-%s-%d.ndjson' % (module, b))
            with open(fn, 'w') as f:
                for t in part:
                    f.write(json.dumps(t) + '\n')
            e = dict(env or {})
            e['TRACE_FILE'] = fn
            todo = list(range(b, b + len(part)))
            for again in range(6):
                r = self.tlc(module, cfg, workers=workers, env=e, timeout=timeout, heap=heap,
                             expect_ok=False, count=not again)
                for v in r.lines(tag):
                    k = todo[v['tid'] - 1]
                    if verdicts[k] is None or not v['ok']:
                        verdicts[k] = v
                if r.rc == 0:
                    break
                # an observation the specification cannot even be evaluated
                # on (a number out of all bounds, say) does not conform
                at = re.findall(r'^(?:/\\ )?tid = (\d+)', r.out, re.M)
                if not at or 'OutOfMemory' in r.out or 'StackOverflow' in r.out:
                    keep = [x for x in r.out.splitlines() if not x.startswith('"')]
                    raise MachineryError('TLC failed on %s (rc %s):\n%s' % (module, r.rc, '\n'.join(keep[-60:])))
                why = [x for x in r.out.splitlines() if 'Overflow' in x or x.startswith('Attempted')]
                k = todo[int(at[-1]) - 1]
                verdicts[k] = {'tid': k, 'ok': False, 'clause': 'outside-the-specification',
                               'detail': {'error': (why or ['evaluation error'])[0]}}
                todo = [j for j in todo if verdicts[j] is None]
                if not todo or again == 5:
                    for j in todo:
                        verdicts[j] = {'tid': j, 'ok': True, 'clause': '', 'detail': {'not judged': True}}
                    break
                with open(fn, 'w') as f:
                    for j in todo:
                        f.write(json.dumps(traces[j]) + '\n')
            os.unlink(fn)
        missing = [k for k, v in enumerate(verdicts) if v is None]
        if missing:
            raise MachineryError('%s: no verdict for %d traces, first %d: %s' %
                                 (module, len(missing), missing[0],
                                  json.dumps(traces[missing[0]])[:1500]))
        self.traces += len(traces)
        return verdicts

    def judge(self, traces, verdicts, describe=None, inputs=None):
        """Turn failing verdicts into violations / known findings."""
        for k, v in enumerate(verdicts):
            if v['ok']:
                continue
            info = {'clause': v.get('clause'), 'detail': v.get('detail'),
                    'trace': traces[k]}
            if inputs is not None:
                info['input'] = inputs[k]
            self.fail(v.get('clause', '?'), info)

    def fail(self, clause, info):
        key = info.get('finding_key')
        for kf in self.kf:
            if kf['match'](clause, info):
                msg = kf['text']
                if msg not in self.known:
                    self.known.append(msg)
                return
        self.fails.append((clause, info))

    # ------------------------------------------------------------- results
    def sample(self, obj, limit=6):
        if len(self.samples) < limit:
            self.samples.append(obj)

    def finish(self, extra=None, level='model_checking'):
        rdir = os.path.join(EVID, 'replay')
        os.makedirs(rdir, exist_ok=True)
        for old in os.listdir(rdir):
            if old.startswith(self.pid + '-'):
                os.unlink(os.path.join(rdir, old))
        paths = []
        seen = {}
        for clause, info in self.fails:
            seen.setdefault(clause, []).append(info)
        n = 0
        for clause, infos in list(seen.items())[:8]:
            infos.sort(key=lambda i: len(json.dumps(i)))
            n += 1
            path = os.path.join(rdir, '%s-%d.json' % (self.pid, n))
            with open(path, 'w') as f:
                json.dump({'property': self.pid, 'clause': clause,
                           'occurrences': len(infos), 'seed': self.seed,
                           'tier': self.tier, 'first': infos[0]}, f, indent=1)
            paths.append((clause, path, len(infos)))
        cov = {'states': self.states, 'transitions': self.transitions,
               'traces_validated_against_impl': self.traces,
               'samples': self.samples or ['(none)'],
               'design_runs': self.design_runs}
        cov.update(self.notes)
        cov.update(extra or {})
        ev = {'property': self.pid, 'tier': 'thorough' if not self.quick else 'quick',
              'seed': self.seed, 'level': level, 'coverage': cov,
              'wall_s': round(time.time() - self.t0, 2),
              'result': 'violation' if self.fails else 'held',
              'violations': [{'clause': c, 'replay': p, 'occurrences': k} for c, p, k in paths],
              'known_findings': self.known,
              'assumptions': self.assumptions}
        with open(os.path.join(EVID, self.pid + '.json'), 'w') as f:
            json.dump(ev, f, indent=1)
        for m in self.known:
            print('KNOWN-FINDING: property=%s %s' % (self.pid, m))
        for clause, path, k in paths:
            print('clause %s failed %d time(s)' % (clause, k))
            print('VIOLATION property=%s replay=%s' % (self.pid, path))
        print('%s %s: %s; TLC %d distinct states / %d generated; %d implementation traces; %.1fs' %
              (self.pid, self.tier, 'VIOLATION' if self.fails else 'held', self.states,
               self.transitions, self.traces, time.time() - self.t0))
        self.cleanup()
        return 1 if self.fails else 0

    def cleanup(self):
        shutil.rmtree(self.scratch, ignore_errors=True)


# --------------------------------------------------------- known findings
def load_known(pid):
    """known_findings lines:
       finding: property=<id> key=<predicate name> <text>
       fixed: property=<id> <commit> <text>      (suppresses nothing)"""
    import known
    res = []
    fn = os.path.join(VERIF, 'known_findings')
    if not os.path.exists(fn):
        return res
    for ln in open(fn):
        m = re.match(r'finding:\s+property=(\S+)\s+key=(\S+)\s+(.*)', ln.strip())
        if m and m.group(1) == pid:
            res.append({'match': known.PREDICATES[m.group(2)], 'text': m.group(3), 'key': m.group(2)})
    return res
