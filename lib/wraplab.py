"""The batch driver bin/wrap-redrock with stand-ins for the commands it runs (rrdesi, rrboss) and for mpi4py.

Every run is a child process (forked), so that a stand-in can end the whole batch.  The stand-in appends its
arguments to a journal, prints a line that identifies the attempt (found again in the log files), leaves the
outputs its plan asks for, and exits with the planned code.  All paths are in a scratch directory."""
import os, sys, json, time, threading, pickle, signal
import numpy as np

FAKE = r'''#!/usr/bin/python3 -SEs
import os, sys, time, json, fcntl
name = os.path.basename(sys.argv[0]); av = sys.argv[1:]
d = os.environ['WRAPLAB']
def opt(*names):
    for i, a in enumerate(av):
        if a in names and i + 1 < len(av): return av[i + 1]
        for n in names:
            if a.startswith(n + '='): return a[len(n) + 1:]
    return None
inp = opt('--infiles', '-i') if name == 'rrdesi' else opt('--spplate')
cat = opt('--outfile', '-o') if name == 'rrdesi' else opt('--zbest')
det = opt('--details', '-d') if name == 'rrdesi' else opt('--output', '-o')
lock = open(d + '/lock', 'w'); fcntl.flock(lock, fcntl.LOCK_EX)
jf = d + '/journal'
lines = [json.loads(x) for x in open(jf)] if os.path.exists(jf) else []
mine = sum(1 for x in lines if x['t'] == 'start' and x['inp'] == inp)
aid = len(lines); tag = '%s/%d' % (os.path.basename(d), aid)
plan = json.load(open(d + '/plan.json')).get(inp or '', [])
o = plan[mine] if mine < len(plan) else 'ok'
def put(r):
    with open(jf, 'a') as f: f.write(json.dumps(r) + '\n')
put(dict(t='start', id=aid, cmd=name, args=av, inp=inp, cat=cat, det=det, cwd=os.getcwd()))
fcntl.flock(lock, fcntl.LOCK_UN)
print('attempt <%s> of %s begins' % (tag, inp)); sys.stdout.flush()
sys.stderr.write('attempt %s warns\n' % tag); sys.stderr.flush()
time.sleep(float(os.environ.get('WRAPLAB_SLEEP', '0')) * ((aid * 7) % 5))
base = o.split('+')[0]
if base in ('ok', 'failcat', 'killcat') and cat: open(cat, 'w').write('catalog of attempt <%s>' % tag)
if base in ('ok', 'faildet') and det: open(det, 'w').write('details of attempt <%s>' % tag)
print('attempt %s of %s ends' % (tag, inp)); sys.stdout.flush()
fcntl.flock(lock, fcntl.LOCK_EX)
put(dict(t='end', id=aid, ok=base in ('ok', 'silent'))); fcntl.flock(lock, fcntl.LOCK_UN)
if base.startswith('kill') or o.endswith('+kill'):
    os.kill(int(os.environ['WRAPLAB_DRIVER']), 9)
if base == 'signal': os.kill(os.getpid(), 9)
sys.exit(0 if base in ('ok', 'silent') else (1, 2, 255)[aid % 3])
'''


class Gone(Exception):
    pass


class World:
    """ranks are threads that really run at the same time"""
    def __init__(self, n):
        self.n = n; self.cv = threading.Condition(); self.slots = {}; self.left = set(); self.box = {}

    def meet(self, k, rank, name, value, root, ready):
        with self.cv:
            s = self.slots.setdefault(k, dict(name=name, root=root, val={}))
            if (s['name'], s['root']) != (name, root):
                raise Gone(f'{name} meets {s["name"]}')
            s['val'][rank] = pickle.dumps(value); self.cv.notify_all()
            t = time.time()
            while not ready(s['val']):
                if any(r in self.left and r not in s['val'] for r in range(self.n)) or time.time() - t > 60:
                    raise Gone(f'rank {rank} waits for ever in {name}')
                self.cv.wait(1)
            return s['val']


class Comm:
    def __init__(self, w, rank):
        self.w = w; self.rank = rank; self.size = w.n; self.k = 0

    def Get_rank(self): return self.rank
    def Get_size(self): return self.size

    def _go(self, name, value, root, ready):
        self.k += 1
        return self.w.meet(self.k, self.rank, name, value, root, ready)

    def barrier(self): self._go('barrier', None, 0, lambda v: len(v) == self.size)
    Barrier = barrier

    def bcast(self, obj=None, root=0):
        v = self._go('bcast', obj if self.rank == root else None, root, lambda v: root in v)
        return obj if self.rank == root else pickle.loads(v[root])

    def gather(self, obj, root=0):
        v = self._go('gather', obj, root, (lambda v: len(v) == self.size) if self.rank == root else (lambda v: True))
        return [pickle.loads(v[r]) for r in range(self.size)] if self.rank == root else None

    def allgather(self, obj):
        v = self._go('allgather', obj, 0, lambda v: len(v) == self.size)
        return [pickle.loads(v[r]) for r in range(self.size)]

    def scatter(self, obj=None, root=0):
        v = self._go('scatter', obj, root, lambda v: root in v)
        return pickle.loads(v[root])[self.rank]

    def allreduce(self, x, op=None):
        a = self.allgather(x); t = a[0]
        for y in a[1:]:
            t = t + y
        return t

    def reduce(self, x, op=None, root=0):
        a = self.gather(x, root)
        if a is None:
            return None
        t = a[0]
        for y in a[1:]:
            t = t + y
        return t


def load():
    """the driver as a module"""
    import importlib.machinery, importlib.util
    l = importlib.machinery.SourceFileLoader('wrap_redrock_under_test', '/repo/bin/wrap-redrock')
    sp = importlib.util.spec_from_loader(l.name, l)
    m = importlib.util.module_from_spec(sp); l.exec_module(m)
    return m


def make_fake(d):
    os.makedirs(d, exist_ok=True)
    for n in ('rrdesi', 'rrboss'):
        with open(f'{d}/{n}', 'w') as f:
            f.write(FAKE)
        os.chmod(f'{d}/{n}', 0o755)


def journal(d):
    p = d + '/journal'
    return [json.loads(x) for x in open(p)] if os.path.exists(p) else []


def drive(d, args, nranks, plan, fakebin, timeout=120, cwd=None):
    """one run of the driver with nranks ranks (0: without MPI).  Returns dict(status, out) - status 'ended', 'error', 'hang', 'killed'"""
    os.makedirs(d, exist_ok=True)
    json.dump(plan, open(d + '/plan.json', 'w'))
    res = d + '/result'; log = d + '/stdout'
    for p in (res, log):
        if os.path.exists(p):
            os.remove(p)
    pid = os.fork()
    if pid == 0:
        try:
            os.setpgid(0, 0)
            fd = os.open(log, os.O_WRONLY | os.O_CREAT | os.O_APPEND)
            os.dup2(fd, 1); os.dup2(fd, 2)
            sys.stdout = os.fdopen(1, 'w'); sys.stderr = os.fdopen(2, 'w')
            os.environ['PATH'] = fakebin + ':' + os.environ['PATH']; os.environ['WRAPLAB'] = d; os.environ['WRAPLAB_DRIVER'] = str(os.getpid())
            os.environ.pop('NERSC_HOST', None)
            if cwd:
                os.chdir(cwd)
            real = time.sleep
            time.sleep = lambda s: real(min(s, 0.02))
            st = 'ended'; msg = []
            sys.argv = ['wrap-redrock', *args]
            import types
            local = threading.local()
            mpi = types.ModuleType('mpi4py'); sub = types.ModuleType('mpi4py.MPI')

            class Proxy:
                def __getattr__(self, k):
                    return getattr(local.comm, k)
            sub.COMM_WORLD = Proxy(); mpi.MPI = sub
            if nranks:
                sys.modules['mpi4py'] = mpi; sys.modules['mpi4py.MPI'] = sub
            else:
                sys.modules['mpi4py'] = None
            m = load()
            errs = [None] * max(nranks, 1)
            w = World(max(nranks, 1))

            def body(r):
                try:
                    local.comm = Comm(w, r)
                    m.main()
                except SystemExit as e:
                    if e.code not in (0, None):
                        errs[r] = e
                except BaseException as e:
                    errs[r] = e
                with w.cv:
                    w.left.add(r); w.cv.notify_all()
            th = [threading.Thread(target=body, args=(r,), daemon=True) for r in range(max(nranks, 1))]
            [t.start() for t in th]; [t.join(timeout) for t in th]
            hang = any(t.is_alive() for t in th) or any(isinstance(e, Gone) for e in errs)
            out = dict(status='hang' if hang else 'error' if any(errs) else 'ended', errors=[repr(e)[:200] if e else '' for e in errs], types=[type(e).__name__ if e else '' for e in errs])
            sys.stdout.flush(); sys.stderr.flush()
            with open(res + '.t', 'w') as f:
                json.dump(out, f)
            os.rename(res + '.t', res)
        except BaseException as e:      # noqa
            try:
                sys.stderr.write(f'wraplab: {e!r}\n'); sys.stderr.flush()
            finally:
                os._exit(3)
        os._exit(0)
    t = time.time(); code = None
    while code is None:
        p, s = os.waitpid(pid, os.WNOHANG)
        if p:
            code = s
        elif time.time() - t > timeout + 60:
            os.kill(pid, signal.SIGKILL); os.waitpid(pid, 0); return dict(status='hang', errors=['time'])
        else:
            time.sleep(0.005)
    # commands left running by a killed batch
    if os.WIFSIGNALED(code):
        time.sleep(0.15)
    t = time.time()
    while time.time() - t < 20:
        j = journal(d)
        if sum(1 for x in j if x['t'] == 'start') == sum(1 for x in j if x['t'] == 'end'):
            break
        time.sleep(0.01)
    if os.path.exists(res):
        return json.load(open(res))
    if os.WIFSIGNALED(code):
        return dict(status='killed', errors=[])
    return dict(status='error', errors=[open(log).read()[-500:]])
