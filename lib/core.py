"""Common machinery: running TLC, recording results, evidence, violations.

Exit codes of a check: 0 property held on everything explored, 1 violation (with a VIOLATION line),
2 failure of the machinery itself (never a verdict about the code)."""
import json, os, re, shutil, signal, subprocess, sys, tempfile, time, traceback
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('EFFECTOR_REPO', '/repo')
SPEC = os.path.join(VERIF, 'spec')
JARS = '/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar'


class MachineryError(Exception):
    pass


class CaseTimeout(Exception):
    pass


class time_limit:
    """A call of the code under test that never returns is an observation ('no answer'), not a hang of the check.
    The limit counts processor time of the process, so that a busy machine does not look like a call that hangs; a call
    that waits without working is given eight times as long."""
    def __init__(self, seconds=120):
        self.seconds = seconds

    def _raise(self, *a):
        raise CaseTimeout('no answer within %d s' % self.seconds)

    def __enter__(self):
        self.old = [(q, signal.signal(q, self._raise)) for q in (signal.SIGALRM, signal.SIGPROF)]
        signal.setitimer(signal.ITIMER_PROF, self.seconds, 5)   # again: the code may swallow the first
        signal.setitimer(signal.ITIMER_REAL, 8 * self.seconds, 5)

    def __exit__(self, *a):
        signal.setitimer(signal.ITIMER_PROF, 0)
        signal.setitimer(signal.ITIMER_REAL, 0)
        for q, h in self.old:
            signal.signal(q, h)


class TLCResult:
    def __init__(self, out, states, distinct, depth, records):
        self.out, self.states, self.distinct, self.depth, self.records = out, states, distinct, depth, records


def _parse_records(text):
    recs, seen = [], set()
    for line in text.splitlines():
        line = line.strip()
        if line.startswith('"@@') and line.endswith('"'):
            if line in seen:
                continue
            seen.add(line)
            recs.append(json.loads(json.loads(line)[2:]))
    return recs


def run_tlc(module, cfg, workdir, env=None, workers=4, timeout=800, simulate=None, xmx='3g', extra=()):
    """Run TLC on /verif/spec/<module>.tla with /verif/spec/<cfg>.cfg; returns the records printed with Emit()."""
    meta = tempfile.mkdtemp(prefix='tlcmeta', dir=workdir)
    cmd = ['java', '-XX:+UseParallelGC', '-Xmx' + xmx, '-Xss64m', '-Djava.io.tmpdir=' + workdir, '-cp', JARS, 'tlc2.TLC',
           '-noGenerateSpecTE', '-metadir', meta, '-workers', str(workers), '-config', cfg + '.cfg']
    if simulate:
        cmd += ['-simulate', simulate]
    cmd += list(extra) + [module + '.tla']
    e = dict(os.environ)
    e.update(env or {})
    e.pop('JAVA_TOOL_OPTIONS', None)
    try:
        p = subprocess.run(cmd, cwd=SPEC, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout)
    except subprocess.TimeoutExpired:
        raise MachineryError('TLC timed out on %s/%s' % (module, cfg))
    finally:
        shutil.rmtree(meta, ignore_errors=True)
    out = p.stdout.decode('utf8', 'replace')
    states = distinct = depth = 0
    for m in re.finditer(r'(\d+) states generated(?: \([^)]*\))?, (\d+) distinct states found', out):
        states, distinct = int(m.group(1)), int(m.group(2))
    m = re.search(r'number of states generated: (\d+)', out)
    if m and not states:
        states = distinct = int(m.group(1))
    m = re.search(r'depth of the complete state graph search is (\d+)', out)
    if m:
        depth = int(m.group(1))
    if p.returncode != 0:
        errs = [l for l in out.splitlines() if not l.startswith('"@@')]
        i = next((k for k, l in enumerate(errs) if 'Error' in l), 0)
        raise MachineryError('TLC failed (%d) on %s/%s:\n%s' % (p.returncode, module, cfg, '\n'.join(errs[i:i + 25])))
    return TLCResult(out, states, distinct, depth, _parse_records(out))


class Ctx:
    def __init__(self, pid, seed, tier):
        self.pid, self.seed, self.tier = pid, seed, tier
        self.t0 = time.time()
        self.work = tempfile.mkdtemp(prefix='verif-%s-' % pid)
        self.failures = []          # (scenario, clause, detail)
        self.states = 0
        self.transitions = 0
        self.traces = 0
        self.samples = []
        self.extra = {}
        self.known_hits = []
        self.max_failures = 5
        self.notes = []

    @property
    def thorough(self):
        return self.tier == 'thorough'

    def n(self, quick, thorough=None):
        """Number of cases of a family in this tier."""
        return (thorough if thorough is not None else 6 * quick) if self.thorough else quick

    def write(self, name, obj):
        path = os.path.join(self.work, name)
        with open(path, 'w') as fh:
            json.dump(obj, fh)
        return path

    def tlc(self, module, cfg=None, scenarios=None, shards=1, workers=4, env=None, simpler=None, **kw):
        """Evaluate/explore the specification; scenarios (if any) are split over `shards` parallel TLC processes.
        Every emitted record carries 'id' = index of the scenario in `scenarios` (1-based inside a shard).
        A scenario whose numbers do not fit TLC's integers is replaced by simpler(scenario) or left out (and counted)."""
        cfg = cfg or module
        if scenarios is None:
            r = run_tlc(module, cfg, self.work, env=env, workers=workers, **kw)
            self.states += r.distinct
            self.transitions += r.states
            return r.records
        if not scenarios:
            return []
        shards = max(1, min(shards, len(scenarios)))
        chunks = [list(range(s, len(scenarios), shards)) for s in range(shards)]

        def one(k):
            scs = [{q: v for q, v in scenarios[i].items() if q != 'drv'} for i in chunks[k]]
            simplified = set()
            while True:
                path = self.write('scen-%s-%d-%d.json' % (cfg, time.time_ns() % 10**9, k), scs)
                ee = dict(env or {})
                ee['SCEN'] = path
                try:
                    return run_tlc(module, cfg, self.work, env=ee, workers=workers, **kw)
                except MachineryError as e:
                    m = re.search(r'^/\\ id = (\d+)', str(e), re.M)
                    if 'Overflow' not in str(e) or not m or len(scs) < 2 or self.extra.get('out of range', 0) > 3 + len(scenarios) // 20:
                        raise
                    self.count('out of range')
                    j = int(m.group(1)) - 1
                    if simpler and j not in simplified:
                        simplified.add(j)
                        scs[j] = simpler(scs[j])
                    else:
                        simplified = {q - (q > j) for q in simplified if q != j}
                        del scs[j], chunks[k][j]

        with ThreadPoolExecutor(shards) as ex:
            results = list(ex.map(one, range(shards)))
        recs = []
        for k, r in enumerate(results):
            self.states += r.distinct
            self.transitions += r.states
            for rec in r.records:
                rec['id'] = chunks[k][rec['id'] - 1]
                recs.append(rec)
        return recs

    def tlc_by_id(self, *a, **kw):
        d = {}
        for r in self.tlc(*a, **kw):
            d.setdefault(r['id'], []).append(r)
        return d

    def having(self, recs, items):
        """(k, item) of the items the specification judged (see tlc: it leaves out what TLC's integers cannot hold)"""
        return [(k, q) for k, q in enumerate(items) if k in recs]

    def pmap(self, fn, items, procs=None):
        """fn(sub, item) for every item in forked workers; sub collects failures/counters like a Ctx.  Returns the values of
        fn in order (None where the worker stopped early because enough failures were found)."""
        from multiprocessing.connection import Pipe, wait
        procs = procs or min(8, os.cpu_count() or 1)
        items = list(items)
        size = max(1, min(50, len(items) // (4 * procs) or 1))
        chunks = [(k, items[k:k + size]) for k in range(0, len(items), size)]
        out = [None] * len(items)
        # (not multiprocessing.Pool: its terminate can deadlock, and it waits for ever for a worker that died)
        todo, workers = iter(chunks), {}
        sys.stdout.flush()
        sys.stderr.flush()
        try:
            for _ in range(min(procs, len(chunks))):
                here, there = Pipe()
                pid = os.fork()
                if pid == 0:
                    _worker(fn, self, there, [here] + list(workers))
                there.close()
                workers[here] = pid
                here.send(next(todo, None))
            while workers:
                for c in wait(list(workers)):
                    try:
                        k, vals, sub = c.recv()
                    except EOFError:
                        pid = workers.pop(c)
                        c.close()
                        _, status = os.waitpid(pid, 0)
                        if status:
                            raise MachineryError('a worker process died with status %d' % status)
                        continue
                    out[k:k + len(vals)] = vals
                    if sub['error']:
                        raise MachineryError(sub['error'])
                    self.failures += [(f[0], f[1], f[2]) for f in sub['failures']]
                    self.traces += sub['traces']
                    for q, v in sub['extra'].items():
                        self.count(q, v)
                    for q in sub['samples']:
                        self.sample(q)
                    if self.enough:
                        return out
                    c.send(next(todo, None))
        finally:
            for c, pid in workers.items():
                try:
                    os.kill(pid, signal.SIGKILL)
                except ProcessLookupError:
                    pass
                os.waitpid(pid, 0)
                c.close()
        return out

    def count(self, key, k=1):
        self.extra[key] = self.extra.get(key, 0) + k

    def fail(self, scenario, clause, detail):
        self.failures.append((scenario, clause, str(detail)[:2000]))

    @property
    def enough(self):
        return len(self.failures) >= self.max_failures

    def sample(self, obj):
        if len(self.samples) < 3:
            self.samples.append(json.loads(json.dumps(obj, default=str)))

    def close(self):
        shutil.rmtree(self.work, ignore_errors=True)


class Sub:
    """what a worker of pmap collects"""
    max_failures = 5

    def __init__(self, ctx):
        self.pid, self.seed, self.tier, self.work = ctx.pid, ctx.seed, ctx.tier, ctx.work
        self.failures, self.traces, self.extra, self.samples = [], 0, {}, []

    thorough, count, fail, enough, sample = Ctx.thorough, Ctx.count, Ctx.fail, Ctx.enough, Ctx.sample


def _worker(fn, ctx, conn, others):
    status = 1
    try:
        for c in others:
            c.close()
        while True:
            chunk = conn.recv()
            if chunk is None:
                break
            conn.send(_run_chunk(fn, ctx, chunk))
        status = 0
    except BaseException:
        traceback.print_exc()
    finally:
        try:
            sys.stdout.flush()
            sys.stderr.flush()
        finally:
            os._exit(status)


def _run_chunk(fn, ctx, chunk):
    k, items = chunk
    sub, vals, err = Sub(ctx), [], None
    try:
        for it in items:
            vals.append(None if sub.enough else fn(sub, it))
    except Exception:
        err = traceback.format_exc()
    return k, vals, dict(failures=sub.failures, traces=sub.traces, extra=sub.extra, samples=sub.samples, error=err)


def load_known():
    """known_findings.jsonl: {"kind":"known","property":..,"match":{"clause":..,"scenario":{..subset..}},"what":..} or kind fixed."""
    path = os.path.join(VERIF, 'known_findings.jsonl')
    out = []
    if os.path.exists(path):
        for line in open(path):
            line = line.strip()
            if line and not line.startswith('#'):
                d = json.loads(line)
                if d.get('kind') == 'known':
                    out.append(d)
    return out


def matches(finding, pid, scenario, clause):
    if finding['property'] != pid:
        return False
    m = finding['match']
    if 'clause' in m and m['clause'] != clause:
        return False
    for k, v in m.get('scenario', {}).items():
        if not isinstance(scenario, dict) or scenario.get(k) != v:
            return False
    return True


def finish(ctx, level='model_checking', assumptions=()):
    os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
    known = load_known()
    new, hits = [], {}
    for sc, clause, detail in ctx.failures:
        k = next((f for f in known if matches(f, ctx.pid, sc, clause)), None)
        if k is None:
            new.append((sc, clause, detail))
        else:
            hits[k['what']] = hits.get(k['what'], 0) + 1
    for what in hits:
        print('KNOWN-FINDING: property=%s %s' % (ctx.pid, what))
    cov = dict(states=ctx.states, transitions=ctx.transitions, traces_validated_against_impl=ctx.traces,
               samples=ctx.samples or ['none'])
    cov.update(ctx.extra)
    ev = dict(property=ctx.pid, tier=ctx.tier, seed=ctx.seed, level=level, coverage=cov,
              assumptions=list(assumptions), wall_s=round(time.time() - ctx.t0, 2), violations=len(new))
    with open(os.path.join(VERIF, 'evidence', ctx.pid + '.json'), 'w') as fh:
        json.dump(ev, fh, indent=1, default=str)
    if new:
        rdir = os.path.join(VERIF, 'evidence', 'replay')
        os.makedirs(rdir, exist_ok=True)
        for i, (sc, clause, detail) in enumerate(new[:3]):
            path = os.path.join(rdir, '%s-%d.json' % (ctx.pid, i))
            with open(path, 'w') as fh:
                json.dump(dict(property=ctx.pid, clause=clause, detail=detail, scenario=sc), fh, default=str)
            print('clause: %s\n  %s' % (clause, detail))
            print('VIOLATION property=%s replay=%s' % (ctx.pid, path))
        return 1
    print('OK property=%s tier=%s seed=%d states=%d traces=%d %s wall=%.1fs' % (
        ctx.pid, ctx.tier, ctx.seed, ctx.states, ctx.traces,
        ' '.join('%s=%s' % kv for kv in sorted(ctx.extra.items())), time.time() - ctx.t0))
    return 0
