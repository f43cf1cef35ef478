"""Shared machinery of the checks: scratch build of /repo, TLC runs, driver
runs, verdicts, evidence.  Runs under the plain system python3."""
import contextlib, glob, hashlib, json, os, re, shutil, signal, subprocess, sys, tempfile, time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VERIF_REPO', '/repo')    # other trees only by hand (tools/trybug.py)
SPEC = os.path.join(VERIF, 'spec')
PY = '/opt/venv/bin/python' if os.path.exists('/opt/venv/bin/python') else sys.executable
CFLAGS = '-g -O2 -fwrapv -Wall -UNDEBUG'


class MachineryError(Exception):
    """Something of ours broke: neither 'held' nor 'violated'."""


class Ctx:
    def __init__(self, pid):
        self.pid = pid
        self.seed = int(os.environ.get('VERIF_SEED', '1') or '1')
        self.tier = os.environ.get('VERIF_TIER', 'quick') or 'quick'
        if self.tier not in ('quick', 'thorough'):
            self.tier = 'quick'
        self.thorough = self.tier == 'thorough'
        self.t0 = time.time()
        self.scratch = tempfile.mkdtemp(prefix='verif-%s-' % pid)
        self.states = 0
        self.transitions = 0
        self.traces = 0
        self.events = 0
        self.samples = []
        self.parts = {}
        self.violations = []
        self.assumptions = []
        self.repo = None
        self._n = 0

    # ---------------------------------------------------------------- build
    def build(self):
        """Copies /repo's current working tree to scratch and builds it there
        with C assertions on.  /repo itself is never written to."""
        dst = os.path.join(self.scratch, 'repo')
        os.mkdir(dst)
        for name in os.listdir(REPO):
            if name in ('.git', 'build', 'docs', 'specs', '__pycache__'):
                continue
            s = os.path.join(REPO, name)
            d = os.path.join(dst, name)
            if os.path.isdir(s):
                shutil.copytree(s, d, symlinks=True, ignore=shutil.ignore_patterns(
                    '*.so', '__pycache__', '*.pyc', '*.o'))
            else:
                shutil.copy2(s, d, follow_symlinks=False)
        env = self.env()
        env['CFLAGS'] = CFLAGS
        log = os.path.join(self.scratch, 'build.log')
        with open(log, 'w') as f:
            rc = subprocess.call([PY, 'setup.py', 'build_ext', '--inplace', '--force',
                                  '--parallel', '4'], cwd=dst, env=env, stdout=f,
                                 stderr=subprocess.STDOUT, timeout=600)
        if rc or not (glob.glob(dst + '/guppy/sets/setsc*.so') and
                      glob.glob(dst + '/guppy/heapy/heapyc*.so')):
            sys.stderr.write(open(log).read()[-4000:])
            raise MachineryError('build of the scratch copy failed')
        self.repo = dst
        return dst

    def env(self):
        e = {k: v for k, v in os.environ.items()
             if k in ('PATH', 'LANG', 'TMPDIR', 'JAVA_HOME')}
        e.update(HOME=self.scratch, LC_ALL='C.UTF-8', PYTHONDONTWRITEBYTECODE='1',
                 PYTHONNOUSERSITE='1', PYTHONHASHSEED='0', TMPDIR=self.scratch)
        if self.repo:
            e['PYTHONPATH'] = self.repo + os.pathsep + os.path.join(VERIF, 'drivers')
        return e

    # -------------------------------------------------------------- drivers
    def drive(self, script, args, out=None, timeout=600, input=None):
        """Runs a driver under the repository's interpreter against the scratch
        build.  Returns (rc, tail of stderr).  A timeout gives rc 'timeout'."""
        cmd = [PY, os.path.join(VERIF, 'drivers', script)] + [str(a) for a in args]
        with tempfile.TemporaryFile(dir=self.scratch) as err, \
                tempfile.TemporaryFile(dir=self.scratch) as outf:
            p = subprocess.Popen(cmd, cwd=self.scratch, env=self.env(), stdout=outf,
                                 stderr=err, stdin=subprocess.DEVNULL, start_new_session=True)
            try:
                rc = p.wait(timeout=timeout)
            except subprocess.TimeoutExpired:
                with contextlib.suppress(OSError):
                    os.killpg(p.pid, signal.SIGKILL)
                p.wait()
                rc = 'timeout'
            err.seek(0, 2)
            n = err.tell()
            err.seek(max(0, n - 6000))
            return rc, err.read().decode('utf-8', 'replace')

    def drive_many(self, jobs, timeout=600, par=8):
        """jobs: list of (script, args).  Runs them in parallel."""
        from concurrent.futures import ThreadPoolExecutor
        with ThreadPoolExecutor(par) as ex:
            return list(ex.map(lambda j: self.drive(j[0], j[1], timeout=timeout), jobs))

    # ------------------------------------------------------------------ TLC
    def tlc(self, module, cfg=None, env=None, workers=8, extra=(), timeout=800, heap='6g', fast=False):
        """Runs TLC on spec/<module>.tla with spec/<cfg>.  Returns a dict."""
        wd = tempfile.mkdtemp(prefix='tlc-', dir=self.scratch)
        for f in glob.glob(SPEC + '/*.tla') + glob.glob(SPEC + '/*.cfg'):
            shutil.copy(f, wd)
        e = dict(self.env())
        e.update(env or {})
        cmd = ['java', '-XX:+UseSerialGC' if workers == 1 else '-XX:+UseParallelGC', '-Djava.io.tmpdir=' + wd, '-XX:TieredStopAtLevel=1' if fast else '-XX:+TieredCompilation', '-Xmx' + heap, '-Xss64m', '-cp',
               '/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar',
               'tlc2.TLC', '-cleanup', '-workers', str(workers), '-metadir', os.path.join(wd, 'st'),
               '-config', cfg or module + '.cfg'] + list(extra) + [module + '.tla']
        log = os.path.join(wd, 'out.txt')
        with open(log, 'w') as f:
            p = subprocess.Popen(cmd, cwd=wd, env=e, stdout=f, stderr=subprocess.STDOUT,
                                 stdin=subprocess.DEVNULL, start_new_session=True)
            try:
                rc = p.wait(timeout=timeout)
            except subprocess.TimeoutExpired:
                with contextlib.suppress(OSError):
                    os.killpg(p.pid, signal.SIGKILL)
                p.wait()
                rc = 'timeout'
        out = open(log, errors='replace').read()
        r = dict(rc=rc, out=out, states=0, generated=0, wd=wd)
        m = re.findall(r'([\d,]+) states generated(?: \([^)]*\))?, ([\d,]+) distinct states found', out)
        if m:
            r['generated'] = int(m[-1][0].replace(',', ''))
            r['states'] = int(m[-1][1].replace(',', ''))
        else:
            m = re.findall(r'The number of states generated: ([\d,]+)', out)
            if m:
                r['generated'] = int(m[-1].replace(',', ''))
        shutil.rmtree(os.path.join(wd, 'st'), ignore_errors=True)
        return r

    def model_check(self, module, cfg=None, env=None, workers=4, timeout=600, extra=()):
        """Design-level check: the specification itself satisfies its
        invariants.  A failure here is an error of the specification (the
        code is not involved), so it is a machinery error."""
        # One worker by default: with several, TLC now and then fails on its
        # own ("Field name ... occurs multiple times in record", a race in the
        # normalisation of shared constant records); retried with one.
        r = self.tlc(module, cfg, env=env, workers=workers, timeout=timeout, extra=extra, fast=timeout <= 600)
        if workers > 1 and (r['rc'] != 0 or 'No error has been found' not in r['out']):
            r = self.tlc(module, cfg, env=env, workers=1, timeout=timeout, extra=extra)
        if r['rc'] != 0 or 'No error has been found' not in r['out']:
            sys.stderr.write(r['out'][-5000:])
            raise MachineryError('model check of %s/%s failed rc=%s' % (module, cfg, r['rc']))
        self.states += r['states']
        self.transitions += r['generated']
        self.parts['model ' + (cfg or module)] = dict(states=r['states'], generated=r['generated'])
        return r

    def check_traces(self, module, traces, cfg=None, name=None, par=8, timeout=800, chunk=150):
        """Trace validation.  traces: list of traces, each a dict with key
        'ev' (list of events) and anything else the specification wants.
        The trace specification walks every trace and prints
        <<"BAD", tid, l, clause, ...>> at the first event it rejects.
        Returns list of (trace, position, clause, text)."""
        if not traces:
            raise MachineryError('no traces for ' + module)
        # Balanced chunks, each checked by a TLC process with one worker.
        n = max((len(traces) + chunk - 1) // chunk, min(par, len(traces)))
        chunks = [[] for _ in range(n)]
        load = [0] * n
        for t in sorted(traces, key=lambda t: -len(t['ev'])):
            k = load.index(min(load))
            chunks[k].append(t)
            load[k] += len(t['ev']) + 20
        chunks = [c for c in chunks if c]

        def one(trs):
            tf = tempfile.mktemp(dir=self.scratch, suffix='.json')
            with open(tf, 'w') as f:
                json.dump(trs, f, separators=(',', ':'))
            r = self.tlc(module, cfg, env={'TRACE_FILE': tf}, workers=1, timeout=timeout, heap='3g', fast=True)
            out = r['out']
            if r['rc'] != 0 and 'TLC was evaluating the nested' in out and not re.search(r'OutOfMemory|StackOverflow', out):
                # An answer of a form that the specification has no meaning for.
                tid = int(re.findall(r'/\\ tid = (\d+)', out)[-1])
                l = int(re.findall(r'/\\ l = (\d+)', out)[-1])
                why = re.search(r'The exception was.*?Error: The behavior', out, re.S)
                ev = trs[tid - 1]['ev'][l - 1]
                return r, [(trs[tid - 1], l, str(ev.get('o', ev.get('op', '?'))), 'an answer without meaning: %s %s' % (
                    re.sub(r'\s+', ' ', why.group(0) if why else '')[:300], json.dumps(ev)[:1000]))]
            if r['rc'] != 0 or 'No error has been found' not in out:
                if os.environ.get('VERIF_KEEP'):
                    shutil.copy(tf, os.path.join(tempfile.gettempdir(), 'verif-failed-%s.json' % module))
                return MachineryError('trace check %s failed to run, rc=%s\n%s' % (
                    module, r['rc'], digest(out)))
            os.unlink(tf)
            found = parse_bad(out)
            expect = sum(len(t['ev']) + 1 for t in trs)
            if not found and r['states'] != expect:
                return MachineryError('trace check %s consumed %d states, expected %d\n%s'
                                      % (module, r['states'], expect, out[-3000:]))
            return r, [(trs[tid - 1], l, clause, rest) for tid, l, clause, rest in found]

        from concurrent.futures import ThreadPoolExecutor
        with ThreadPoolExecutor(par) as ex:
            res = list(ex.map(one, chunks))
        bad = []
        for x in res:
            if isinstance(x, MachineryError):
                raise x
            r, found = x
            bad += found
            self.states += r['states']
            self.transitions += r['generated']
        nev = sum(len(t['ev']) for t in traces)
        self.traces += len(traces)
        self.events += nev
        d = self.parts.setdefault('traces ' + (name or module), dict(traces=0, events=0))
        d['traces'] += len(traces)
        d['events'] += nev
        if len(self.samples) < 4:
            t = traces[len(traces) // 2]
            s = json.dumps(t)
            self.samples.append({'part': name or module, 'trace': t if len(s) < 3000 else s[:3000]})
        return bad

    def simulate(self, module, cfg, num, depth, seed=None, env=None, timeout=600, workers=1):
        """TLC -simulate: returns behaviours printed by the specification as
        lines @@<json>."""
        extra = ['-simulate', 'num=%d' % num, '-depth', str(depth), '-seed',
                 str(seed if seed is not None else self.seed)]
        r = self.tlc(module, cfg, env=env, workers=workers, extra=extra, timeout=timeout)
        if r['rc'] not in (0,) or 'Error:' in r['out']:
            sys.stderr.write(r['out'][:2000] + r['out'][-3000:])
            raise MachineryError('simulation of %s failed rc=%s' % (module, r['rc']))
        beh = []
        for line in r['out'].splitlines():
            if line.startswith('"@@'):
                beh.append(json.loads(json.loads(line)[2:]))
            elif line.startswith('@@'):
                beh.append(json.loads(line[2:]))
        self.states += r['generated']
        self.transitions += r['generated']
        self.parts['simulate ' + (cfg or module)] = dict(behaviours=len(beh), states=r['generated'])
        return beh

    # -------------------------------------------------------------- verdict
    def violation(self, what, data):
        self.violations.append((what, data))

    def known(self):
        """Findings recorded for this property: list of (key, text)."""
        res = []
        fn = os.path.join(VERIF, 'known-findings.json')
        if os.path.exists(fn):
            for d in json.load(open(fn)):
                if d.get('status') == 'known' and d['property'] == self.pid:
                    res.append((d['key'], d['what']))
        return res

    def finish(self, level='model_checking'):
        known = self.known()
        fresh = []
        seen = set()
        for what, data in self.violations:
            for key, text in known:
                if what == key:
                    if key not in seen:
                        print('KNOWN-FINDING: property=%s %s' % (self.pid, text))
                        seen.add(key)
                    break
            else:
                fresh.append((what, data))
        ev = dict(property=self.pid, tier=self.tier, seed=self.seed, level=level,
                  coverage=dict(states=self.states, transitions=self.transitions,
                                traces_validated_against_impl=self.traces,
                                events_validated=self.events, parts=self.parts,
                                samples=self.samples or ['none']),
                  assumptions=self.assumptions, wall_s=round(time.time() - self.t0, 2),
                  violations=len(fresh))
        os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
        with open(os.path.join(VERIF, 'evidence', self.pid + '.json'), 'w') as f:
            json.dump(ev, f, indent=1)
        if fresh:
            os.makedirs(os.path.join(VERIF, 'replays'), exist_ok=True)
            for i, (what, data) in enumerate(fresh[:5]):
                fn = os.path.join(VERIF, 'replays', '%s-%d.json' % (self.pid, i))
                with open(fn, 'w') as f:
                    json.dump(dict(property=self.pid, what=what, seed=self.seed,
                                   tier=self.tier, data=data), f, indent=1, default=str)
                print('%s: %s' % (self.pid, what[:600]))
                print('VIOLATION property=%s replay=%s' % (self.pid, fn))
            return 1
        print('%s: held; states=%d traces=%d events=%d wall=%.1fs' % (
            self.pid, self.states, self.traces, self.events, time.time() - self.t0))
        return 0


def parse_bad(out):
    """Finds <<"BAD", tid, l, "clause", ...>> tuples in TLC's output (which
    may be pretty-printed over several lines)."""
    res = []
    for m in re.finditer(r'<<\s*"BAD",\s*(\d+),\s*(\d+),\s*"([^"]*)"', out):
        # find the balanced end
        i = m.start()
        depth = 0
        j = i
        while j < len(out):
            if out.startswith('<<', j):
                depth += 1
                j += 2
                continue
            if out.startswith('>>', j):
                depth -= 1
                j += 2
                if depth == 0:
                    break
                continue
            j += 1
        res.append((int(m.group(1)), int(m.group(2)), m.group(3),
                    re.sub(r'\s+', ' ', out[i:j])[:1500]))
    return res


def digest(out):
    i = out.find('Error:')
    if i < 0:
        return out[-3000:]
    j = out.rfind('/\\ l =')
    k = out.rfind('State ')
    return out[i:i + 1500] + '\n...\n' + (out[k:k + 200] if k > 0 else '') + '\n...\n' + out[-2500:]


def crash_text(rc, err):
    if rc == 'timeout':
        return 'the driver did not finish in time (hang)'
    if isinstance(rc, int) and rc < 0:
        try:
            n = signal.Signals(-rc).name
        except ValueError:
            n = str(-rc)
        return 'the interpreter was killed by ' + n
    return 'driver exit %s' % rc


def run(pid, fn):
    ctx = Ctx(pid)
    try:
        try:
            fn(ctx)
            rc = ctx.finish()
        except MachineryError as e:
            print('%s: ERROR %s' % (pid, e), file=sys.stderr)
            # A violation already established stands, whatever broke later.
            rc = ctx.finish() if ctx.violations else 2
            if rc == 0:
                rc = 2
    finally:
        if not os.environ.get('VERIF_KEEP'):
            shutil.rmtree(ctx.scratch, ignore_errors=True)
        else:
            print('kept', ctx.scratch, file=sys.stderr)
    return rc
