"""Shared machinery of the checks: TLC runner, verdict collection, evidence, known findings."""
import contextlib, io, json, os, random, re, shutil, subprocess, sys, tempfile, time, traceback

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = '/repo'
SPEC = os.path.join(VERIF, 'spec')
JAVA_CP = '/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar'


class MachineryError(Exception):
    pass


class TlcResult:
    def __init__(self):
        self.rc = None; self.out = ''; self.generated = 0; self.distinct = 0; self.depth = 0
        self.bad = []; self.prints = []; self.violated = None


def jsonable(x):
    """numpy -> plain Python, recursively"""
    import numpy as np
    if isinstance(x, dict):
        return {str(k): jsonable(v) for k, v in x.items()}
    if isinstance(x, (list, tuple)):
        return [jsonable(v) for v in x]
    if isinstance(x, np.ndarray):
        return [jsonable(v) for v in x.tolist()]
    if isinstance(x, np.bool_):
        return bool(x)
    if isinstance(x, np.integer):
        return int(x)
    if isinstance(x, np.floating):
        return float(x)
    if isinstance(x, bytes):
        return x.decode('latin1')
    return x


def tlaable(x):
    """plain Python -> values the JSON reader of TLC takes: no null, no fractions, 32-bit integers"""
    if isinstance(x, dict):
        return {k: tlaable(v) for k, v in x.items()}
    if isinstance(x, list):
        return [tlaable(v) for v in x]
    if x is None:
        return 'none'
    if isinstance(x, float):
        return repr(x)
    if isinstance(x, int) and not isinstance(x, bool) and abs(x) >= 2**31:
        return str(x)
    return x


class Check:
    """One property's check: collects counts and violations, writes evidence, prints the verdict."""

    def __init__(self, pid, level='model_checking'):
        self.pid = pid
        self.level = level
        self.seed = int(os.environ.get('VERIF_SEED', '1') or 1)
        self.tier = os.environ.get('VERIF_TIER', 'quick') or 'quick'
        self.thorough = self.tier == 'thorough'
        self.rng = random.Random(self.seed * 1000003 + int(pid[1:]))
        self.t0 = time.time()
        self.work = tempfile.mkdtemp(prefix=f'verif-{pid}-')
        self.states = 0; self.transitions = 0; self.traces = 0
        self.samples = []; self.violations = []; self.assumptions = []
        self.extra = {}
        self.actions = {}
        self.exhaustive = None
        self.notes = []

    def keep(self, x):
        """remember a result, to be compared by kept() after further calls"""
        import numpy as np
        if isinstance(x, np.ndarray):
            self.__dict__.setdefault('_kept', []).append((x, x.copy()))
        return x

    def kept(self, what='results are not changed by later calls'):
        import numpy as np
        k = self.__dict__.get('_kept', [])
        self.ok(all(np.array_equal(a, b, equal_nan=a.dtype.kind == 'f') for a, b in k), what, dict(results=len(k)))

    # ---------------------------------------------------------------- TLC
    def tlc(self, module, cfg, env=None, workers=None, args=(), timeout=600, count=True, jvm=()):
        """Run TLC on spec/<module>.tla with the given cfg text. Returns a TlcResult."""
        meta = tempfile.mkdtemp(prefix='tlc-', dir=self.work)
        cfgf = os.path.join(meta, module + '.cfg')
        with open(cfgf, 'w') as f:
            f.write(cfg)
        e = dict(os.environ)
        e.pop('JAVA_TOOL_OPTIONS', None)
        if env:
            e.update({k: str(v) for k, v in env.items()})
        w = str(workers) if workers else '1'
        cmd = ['java', '-Xmx6g', '-XX:+UseParallelGC', '-Xss64m', *jvm, '-cp', JAVA_CP, 'tlc2.TLC', '-metadir', meta,
               '-noGenerateSpecTE', '-workers', w, '-config', cfgf, *args, os.path.join(SPEC, module + '.tla')]
        try:
            pr = subprocess.run(cmd, cwd=meta, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout)
        except subprocess.TimeoutExpired as ex:
            raise MachineryError(f'TLC timed out on {module}: {(ex.output or b"")[-2000:]!r}')
        r = TlcResult()
        r.rc = pr.returncode
        r.out = pr.stdout.decode('utf-8', 'replace')
        for m in re.finditer(r'([\d,]+) states generated, ([\d,]+) distinct states found', r.out):
            r.generated = int(m.group(1).replace(',', '')); r.distinct = int(m.group(2).replace(',', ''))
        m = re.search(r'The depth of the complete state graph search is (\d+)', r.out)
        if m:
            r.depth = int(m.group(1))
        m = re.search(r'Invariant (\S+) is violated|Temporal properties were violated|Deadlock reached|Action property (\S+) is violated|(Postcondition \S+|POSTCONDITION) ', r.out)
        if m:
            r.violated = m.group(0)
        for m in re.finditer(r'<<\s*"BAD",\s*(\d+),\s*"([^"]*)"\s*>>', r.out):
            r.bad.append((int(m.group(1)), ' '.join(m.group(2).split())))
        if len(r.bad) != r.out.count('"BAD"'):
            raise MachineryError(f'{module}: a verdict line could not be read:\n{r.out[-3000:]}')
        shutil.rmtree(meta, ignore_errors=True)
        if count:
            self.states += r.distinct
            self.transitions += r.generated
        return r

    def model(self, module, cfg, workers=8, expect=None, **kw):
        """Model-check a specification; it must pass (a failure is a machinery error: the spec is constant)."""
        r = self.tlc(module, cfg, workers=workers, **kw)
        if expect is None:
            if r.rc != 0:
                raise MachineryError(f'specification {module} does not satisfy its properties:\n{r.out[-3000:]}')
        elif expect not in r.out:
            raise MachineryError(f'specification {module}: expected "{expect}" in\n{r.out[-3000:]}')
        self.extra.setdefault('models', []).append({'module': module, 'distinct': r.distinct, 'generated': r.generated,
                                                   'depth': r.depth, 'cfg': ' '.join(cfg.split())[:300]})
        return r

    def expect_violation(self, module, cfg, what, **kw):
        """Sanity run: the (mutated) specification must violate `what`; shows that the invariant can fail."""
        r = self.tlc(module, cfg, workers=kw.pop('workers', 4), count=False, **kw)
        if what not in r.out:
            raise MachineryError(f'{module}: expected violation of {what}, got\n{r.out[-2000:]}')
        self.extra.setdefault('negative_models', []).append({'module': module, 'violates': what})
        return r

    def generate(self, module, cfg, **kw):
        """TLC prints JSON cases through PrintT(ToJson(...)) lines; returns them parsed."""
        r = self.tlc(module, cfg, **kw)
        cases = []
        for line in r.out.splitlines():
            line = line.strip()
            if line.startswith('"') and line.endswith('"') and ('{' in line or '[' in line):
                try:
                    cases.append(json.loads(json.loads(line)))
                except ValueError:
                    pass
        if not cases:
            raise MachineryError(f'{module}: generator produced no case\n{r.out[-3000:]}')
        return cases

    def validate(self, module, events, constants='', env=None, spec='SPECIFICATION Spec', name=None, cfg_extra='', timeout=600):
        """Trace validation: every event is judged by the specification; failing clauses come back by name.
        The trace module prints <<"BAD", line, clause>> and consumes the whole trace whatever the verdicts."""
        if not events:
            raise MachineryError(f'{module}: empty trace')
        path = os.path.join(self.work, f'{module}-{len(self.extra.get("trace_runs", []))}.ndjson')
        with open(path, 'w') as f:
            for ev in events:
                f.write(json.dumps(tlaable(jsonable(ev))) + '\n')
        cfg = f'{spec}\nCHECK_DEADLOCK FALSE\nPOSTCONDITION TraceConsumed\n{constants}\n{cfg_extra}\n'
        e = {'TRACE': path}
        if env:
            e.update(env)
        r = self.tlc(module, cfg, env=e, timeout=timeout)
        bad = sorted(set(r.bad))
        if r.rc != 0:
            # An observation the specification cannot even evaluate is not one of its behaviours;
            # anything that is not an evaluation failure is a failure of the machinery.
            evalerr = re.search(r'(Attempted to|The first argument of|was not in the domain|is not in the domain|Evaluating|evaluating|not enumerable|'
                                r'In evaluation|Fingerprint|Overflow|overflow|applied the function|non-(?:function|record|string|integer|numeric|boolean))', r.out)
            if not evalerr or 'Parsing or semantic analysis failed' in r.out or 'java.lang.OutOfMemory' in r.out:
                raise MachineryError(f'{module} trace validation failed to run (rc {r.rc}):\n{r.out[-4000:]}')
            m = re.findall(r'\bl = (\d+)', r.out)
            at = int(m[-1]) if m else 1
            bad.append((at, 'observation outside the specification: ' + ' '.join(r.out[r.out.find('Error:'):][:300].split())))
        self.traces += len(events)
        self.extra.setdefault('trace_runs', []).append({'module': module, 'events': len(events), 'name': name or module, 'bad': len(bad)})
        for idx, clause in bad:
            ev = events[idx - 1] if 1 <= idx <= len(events) else None
            self.bad(f'{module}:{clause}', ev)
        return bad

    # ------------------------------------------------------------ verdicts
    def bad(self, what, case=None):
        self.violations.append({'what': what, 'case': jsonable(case)})

    def ok(self, cond, what, case=None):
        if not cond:
            self.bad(what, case)
        return cond

    def sample(self, s):
        if len(self.samples) < 6:
            try:
                self.samples.append(jsonable(s() if callable(s) else s))
            except (LookupError, StopIteration):
                pass

    def known(self):
        out = []
        p = os.path.join(VERIF, 'known-findings.txt')
        if os.path.exists(p):
            for line in open(p):
                m = re.match(r'finding: property=(\S+) match=(\S+) (.*)', line.strip())
                if m and m.group(1) == self.pid:
                    out.append((m.group(2), m.group(3)))
        return out

    def finish(self):
        shutil.rmtree(self.work, ignore_errors=True)
        known = self.known(); seen = set(); fresh = []
        for v in self.violations:
            k = next((k for k in known if k[0] in v['what'].replace(' ', '_')), None)
            if k:
                seen.add(k)
            else:
                fresh.append(v)
        for k in sorted(seen):
            print(f'KNOWN-FINDING: property={self.pid} {k[1]}')
        cov = {'states': self.states, 'transitions': self.transitions,
               'traces_validated_against_impl': self.traces, 'samples': self.samples or ['none']}
        if self.exhaustive is not None:
            cov['exhaustive'] = self.exhaustive
        cov.update(jsonable(self.extra))
        ev = {'property': self.pid, 'tier': self.tier if self.tier in ('quick', 'thorough') else 'quick', 'seed': self.seed,
              'level': self.level, 'coverage': cov, 'assumptions': self.assumptions,
              'wall_s': round(time.time() - self.t0, 2), 'violations': len(fresh)}
        os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
        with open(os.path.join(VERIF, 'evidence', f'{self.pid}.json'), 'w') as f:
            json.dump(ev, f, indent=1, sort_keys=True, default=str)
        if fresh:
            rp = os.path.join(VERIF, 'evidence', f'{self.pid}.replay.json')
            with open(rp, 'w') as f:
                json.dump({'property': self.pid, 'seed': self.seed, 'tier': self.tier,
                           'how': f'VERIF_SEED={self.seed} VERIF_TIER={self.tier} {VERIF}/run {self.pid}',
                           'violations': fresh[:50]}, f, indent=1, default=str)
            for v in fresh[:5]:
                print('  ' + v['what'][:300])
                if v['case'] is not None:
                    print('    case: ' + json.dumps(v['case'], default=str)[:600])
            print(f'VIOLATION property={self.pid} replay={rp}', flush=True)
            return 1
        print(f'OK property={self.pid} states={self.states} transitions={self.transitions} traces={self.traces} '
              f'wall={time.time()-self.t0:.1f}s', flush=True)
        return 0


def from_repo(tb):
    """does the traceback pass through the code under test?"""
    return any(fr.filename.startswith(REPO + '/') for fr in traceback.extract_tb(tb))


def supervise(ck):
    """the check runs in a forked process: one that is ended by the code under test (a memory error) is a violation and not silence"""
    import ctypes, faulthandler, signal
    fault = os.path.join(ck.work, 'fault')
    parent = os.getpid()
    sys.stdout.flush(); sys.stderr.flush()
    pid = os.fork()
    if pid == 0:
        ctypes.CDLL(None).prctl(1, signal.SIGKILL)          # do not outlive the parent
        if os.getppid() != parent:
            os._exit(2)
        faulthandler.enable(open(fault, 'w'))
        return
    for s in (signal.SIGTERM, signal.SIGINT, signal.SIGHUP):
        signal.signal(s, lambda n, f: os.kill(pid, signal.SIGKILL))
    _, st = os.waitpid(pid, 0)
    if os.WIFSIGNALED(st) and os.WTERMSIG(st) in (signal.SIGSEGV, signal.SIGABRT, signal.SIGBUS, signal.SIGFPE, signal.SIGILL):
        tb = open(fault).read() if os.path.exists(fault) else ''
        ck.bad(f'the code under test ended the process with signal {os.WTERMSIG(st)}', {'traceback': tb[-3000:]})
        rc = ck.finish()
    else:
        rc = os.WEXITSTATUS(st) if os.WIFEXITED(st) else 2
    shutil.rmtree(ck.work, ignore_errors=True)
    sys.stdout.flush(); sys.stderr.flush()
    os._exit(rc)


def main(fn, pid, level='model_checking'):
    ck = Check(pid, level)
    supervise(ck)
    try:
        fn(ck)
        rc = ck.finish()
    except Exception as err:
        tb = err.__traceback__
        if from_repo(tb) or (isinstance(err, ImportError) and 'redrock' in str(err)):
            ck.bad(f'the code under test raised {type(err).__name__}: {err}',
                   {'traceback': traceback.format_exc()[-3000:]})
            rc = ck.finish()
        elif isinstance(err, (TypeError, LookupError, ValueError, ArithmeticError)):
            # on the unchanged tree every observation can be read
            ck.bad(f'an observation has not the form it should have: {type(err).__name__}: {err}', {'traceback': traceback.format_exc()[-3000:]})
            rc = ck.finish()
        elif ck.violations:
            rc = ck.finish()
        else:
            traceback.print_exc()
            print(f'ERROR property={pid}: failure of the check itself', flush=True)
            rc = 2
        shutil.rmtree(ck.work, ignore_errors=True)
    sys.stdout.flush(); sys.stderr.flush()
    os._exit(rc)


@contextlib.contextmanager
def quiet():
    """silence the code under test (it prints progress)"""
    with open(os.devnull, 'w') as dn:
        so, se = sys.stdout, sys.stderr
        sys.stdout = dn; sys.stderr = dn
        try:
            import warnings
            with warnings.catch_warnings():
                warnings.simplefilter('ignore')
                yield
        finally:
            sys.stdout, sys.stderr = so, se


class Intern:
    """numeric arrays -> small integers, equal up to a tolerance (for use as opaque values in a specification)"""
    def __init__(self, rtol=1e-7, atol=1e-9):
        self.items = {}; self.n = 0; self.rtol = rtol; self.atol = atol

    def __call__(self, a):
        import numpy as np
        if a is None:
            return 0
        a = np.asarray(a)
        num = a.dtype.kind in 'biufc'
        bucket = self.items.setdefault((a.shape, 'n' if num else a.dtype.kind), [])
        first = a.flat[0] if num and a.size else 0
        last = a.flat[-1] if num and a.size else 0
        rt, at = 2 * self.rtol, 2 * self.atol
        for f, g, b, i in bucket:
            if num:
                if abs(first - f) > at + rt * abs(f) or abs(last - g) > at + rt * abs(g):
                    continue
                if np.allclose(a, b, rtol=self.rtol, atol=self.atol, equal_nan=True):
                    return i
            elif np.array_equal(a, b):
                return i
        self.n += 1
        bucket.append((first, last, a.copy(), self.n))
        return self.n


def guarded(fn, *a, **k):
    """call the code under test; exceptions become values"""
    try:
        return 'ok', fn(*a, **k)
    except Exception as err:
        return 'error', err
