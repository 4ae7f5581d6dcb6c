"""C28: what the command line asks for is what is done, or the run is refused."""
import os, shutil, subprocess, sys
import numpy as np
from common import main, quiet, guarded, REPO
import desilab as D, bosslab as B, archlab as A, simmpi

MODEL = ('CONSTANTS\n N = %d\n Abort = TRUE\n CheckLate = %s\n Swallow = %s\n FirstOnly = %s\nSPECIFICATION Spec\nINVARIANTS Complete NothingRefused OnlyAsked\nPROPERTY Ends\n'
         'CHECK_DEADLOCK FALSE\n')
REQ = dict(prog='rrdesi', details=False, catalog=False, model=False, ids=False, first=-1, count=-1, n=4, chosen=2, input='ok', templates='ok', archetypes='none', nminima=0, npoints=0, nosky=False, negflux=5, place='there', debug=False, gpu=False, ranks=0)
OUT = dict(details='details.h5', catalog='catalog.fits', model='model.fits')
MARK = b'earlier result'
NT = dict(rrdesi=4, rrboss=3)


def complete(kind, path, prog):
    """number of targets of an output if it is whole, else 0"""
    from astropy.io import fits
    from redrock.results import read_zscan
    try:
        if kind == 'details':
            with quiet():
                s, z = read_zscan(path)
            return len(set(s)) if set(s) == set(z['targetid']) else 0
        with fits.open(path, memmap=False) as h:
            names = [x.name for x in h]
            if kind == 'model':
                n = len(h['REDSHIFTS'].data)
                return n if all(h[f'{b}_MODEL'].data.shape[0] == n for b in 'BRZ') else 0
            return len(h['REDSHIFTS' if prog == 'rrdesi' else 'ZBEST'].data)
    except Exception:
        return 0


class Lab:
    def __init__(self, ck):
        self.ck = ck; self.w = ck.work; rng = ck.rng
        self.tdir = f'{self.w}/templates'; self.files = D.template_dir(self.tdir, stars=True, qso=False, nz=8)
        self.tm = D.load(self.files)
        self.rows = [D.make_row(10 + 7 * i, self.tm[0], 0.05 + 0.05 * i, np.random.RandomState(i)) for i in range(4)]
        self.input = D.write_file(f'{self.w}/in.fits', self.rows)
        self.ids = [r['tid'] for r in self.rows]
        self.adir = f'{self.w}/arch'; os.makedirs(self.adir)
        self.afile = A.archetype_file(f'{self.adir}/rrarchetype-galaxy.fits', 'GALAXY', 3, 5)
        self.empty = f'{self.w}/empty'; os.makedirs(self.empty)
        self.useless = f'{self.w}/useless'; os.makedirs(self.useless); open(f'{self.useless}/README', 'w').write('nothing here\n')
        self.plain = f'{self.w}/mine.fits'; shutil.copy(self.afile, self.plain)
        os.environ['CLI_LAB_DIR'] = self.w
        self.n = 0
        # a BOSS plate of three fibers
        self.bdir = f'{self.w}/boss'; os.makedirs(self.bdir)
        c0, c1, m = np.log10(3650.), 0.0016, 250; w = B.wave(c0, c1, m); rs = np.random.RandomState(3)
        data = {}
        for f in (1, 2, 3):
            fl = np.ones(m); ok = (w > 3400) & (w < 10200); fl[ok] = self.tm[0].eval(np.array([2., 0.1 * f, -0.1]), w[ok], 0.06 * f)
            data[f] = dict(flux=fl + 0.1 * rs.normal(size=m), ivar=np.full(m, 100.), mask=np.zeros(m, int), wdisp=np.full(m, 1.2))
        self.plate = B.plate_file(f'{self.bdir}/spPlate-4055-55359.fits', 4055, 55359, [1, 2, 3], data, c0, c1, nexp={'b1': 1, 'r1': 1}, expids=['b1-00000001', 'r1-00000001'])
        B.photo_file(f'{self.bdir}/photoPosPlate-4055-55359.fits', [11, 12, 13])

    def scratch(self):
        self.n += 1
        d = f'{self.w}/o{self.n}'; os.makedirs(d)
        return d

    def options(self, o, d):
        """the command line of a request"""
        a = []
        inp = {'ok': self.input if o['prog'] == 'rrdesi' else self.plate, 'missing': f'{self.w}/nothing.fits'}[o['input']]
        a += (['-i', inp] if o['prog'] == 'rrdesi' else ['--spplate', inp])
        a += ['-t', {'ok': self.tdir, 'missing': f'{self.w}/no-templates'}[o['templates']]]
        names = dict(details='-d', catalog='-o', model='--model') if o['prog'] == 'rrdesi' else dict(details='-o', catalog='--zbest')
        for k, f in names.items():
            if o[k]:
                a += [f, {'there': d, 'new': f'{d}/new/er', 'var': '$CLI_LAB_DIR' + d[len(self.w):]}[o['place']] + f'/{OUT[k]}']
        if o['ids']:
            a += ['--targetids', ','.join(str(i) for i in (self.ids[:2] if o['prog'] == 'rrdesi' else self.bids()[:2]))]
        if o['first'] >= 0:
            a += ['--mintarget', o['first']]
        if o['count'] >= 0:
            a += ['-n', o['count']]
        if o['archetypes'] != 'none':
            a += ['--archetypes', {'ok': self.adir, 'missing': f'{self.w}/no-archetypes', 'empty': self.empty, 'useless': self.useless, 'file': self.afile, 'plain': self.plain,
                                 'env': '$CLI_LAB_DIR/arch', 'envfile': '$CLI_LAB_DIR/mine.fits'}[o['archetypes']]]
        if o['nminima']:
            a += ['--nminima', o['nminima']]
        if o['npoints']:
            a += ['--zminfit-npoints', o['npoints']]
        if o['debug']:
            a += ['--debug']
        if o['gpu']:
            a += ['--gpu']
        return [str(x) for x in a]

    def bids(self):
        from redrock.external.boss import platemjdfiber2targetid
        return [int(platemjdfiber2targetid(4055, 55359, f)) for f in (1, 2, 3)]

    def command(self, o, d, ranks, more=(), seed=0):
        a = self.options(o, d) + [str(x) for x in more]
        if ranks == 0:
            return (D.rrdesi if o['prog'] == 'rrdesi' else B.rrboss)(a + ['--mp', '1'])
        if o['prog'] == 'rrdesi':
            r, w = D.rrdesi_mpi(ranks, a, seed=seed); return r
        return B.rrboss_mpi(ranks, a, seed=seed)


def script(name, args, env=None, stub=None, timeout=300):
    """the installed command in a process of its own"""
    e = dict(os.environ, OMP_NUM_THREADS='1')
    for k, v in (env or {}).items():
        if v is None:
            e.pop(k, None)
        else:
            e[k] = v
    if stub:
        e['PYTHONPATH'] = stub + ':' + e.get('PYTHONPATH', '')
    p = subprocess.run([sys.executable, f'{REPO}/bin/{name}', *args], env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout)
    return p.returncode, p.stdout.decode('utf-8', 'replace')


def requests(lab, rng, n):
    ev = []
    # every kind of contradiction for both commands, then random ones
    todo = []
    for prog in ('rrdesi', 'rrboss'):
        base = dict(REQ, prog=prog, details=True, catalog=True, n=NT[prog])
        todo += [dict(base), dict(base, details=False), dict(base, catalog=False), dict(base, details=False, catalog=False), dict(base, ids=True, first=0), dict(base, ids=True, count=1),
                 dict(base, ids=True, first=1, count=2), dict(base, first=1, count=1), dict(base, first=1), dict(base, count=2), dict(base, first=0), dict(base, count=0), dict(base, ids=True), dict(base, input='missing'), dict(base, templates='missing'),
                 dict(base, archetypes='missing'), dict(base, archetypes='empty'), dict(base, archetypes='useless'),
                 dict(base, place='new'), dict(base, place='new', details=False), dict(base, place='new', catalog=False), dict(base, place='var'), dict(base, place='new', input='missing'), dict(base, debug=True, ranks=2), dict(base, debug=True, ranks=3)]
        if prog == 'rrdesi':
            todo += [dict(base, model=True), dict(base, details=False, catalog=False, model=True), dict(base, catalog=False, model=True), dict(base, first=2, count=3), dict(base, first=4), dict(base, first=5, count=1),
                     dict(base, gpu=True), dict(base, gpu=True, ranks=2), dict(base, archetypes='file'), dict(base, archetypes='plain', ranks=2), dict(base, archetypes='plain'), dict(base, archetypes='env'), dict(base, archetypes='envfile'),
                     dict(base, model=True, details=False, place='new'), dict(base, model=True, place='var', ranks=2)]
    fixed = len(todo)
    for _ in range(n):
        prog = rng.choice(['rrdesi', 'rrdesi', 'rrboss'])
        o = dict(REQ, prog=prog, details=rng.random() < 0.7, catalog=rng.random() < 0.7, model=prog == 'rrdesi' and rng.random() < 0.4, ids=rng.random() < 0.3, n=NT[prog])
        if rng.random() < (0.25 if o['ids'] else 0.5):
            o['first'] = rng.choice([-1, 0, 1, 2]); o['count'] = rng.choice([-1, 1, 2] if prog == 'rrdesi' else [-1, 1])
        x = rng.random()
        if x < 0.12:
            o['input'] = 'missing'
        elif x < 0.24:
            o['templates'] = 'missing'
        elif x < 0.34:
            o['archetypes'] = rng.choice(['missing', 'empty'])
        elif x < 0.45 and prog == 'rrdesi':
            o['archetypes'] = rng.choice(['ok', 'file', 'plain', 'env'])
        o['place'] = rng.choice(['there', 'there', 'there', 'new', 'var'])
        o['ranks'] = rng.choice([0, 0, 2, 3])
        if rng.random() < 0.08:
            o['debug'] = o['ranks'] > 0
        elif rng.random() < 0.05:
            o['gpu'] = prog == 'rrdesi'
        todo.append(o)
    for i, o in enumerate(todo):
        ranks = o['ranks'] = o['ranks'] or (0 if i >= fixed else (0 if i % 3 else 2) if i % 2 else 0)
        top = lab.scratch(); d = top
        if o['place'] == 'new':
            d += '/new/er'
        before = rng.random() < 0.5 and o['place'] != 'new'
        if before:
            for f in OUT.values():
                open(f'{d}/{f}', 'wb').write(MARK)
        st, err = lab.command(o, top, ranks, seed=rng.randrange(10**6))
        ex = {k for k in OUT if os.path.exists(f'{d}/{OUT[k]}')}
        old = {k for k in ex if open(f'{d}/{OUT[k]}', 'rb').read(len(MARK)) == MARK}
        whole = {k: complete(k, f'{d}/{OUT[k]}', o['prog']) for k in sorted(ex - old)}
        ev.append(dict(kind='run', o=o, ranks=ranks, ok=st == 'ok', made=[k for k in whole if whole[k]], rows=[v for v in whole.values() if v], kept=(old == set(OUT)) if before else not ex,
                       strange=sorted({os.path.relpath(os.path.join(p, f), top) for p, _, fs in os.walk(top) for f in fs} - {os.path.relpath(f'{d}/{f}', top) for f in OUT.values()}), why='' if st == 'ok' else repr(err)[:200]))
    return ev


def scripts(lab, rng):
    """exit codes of the commands themselves, with and without MPI (a stand-in with one process)"""
    ev = []
    stub = f'{lab.w}/stub'; os.makedirs(f'{stub}/mpi4py')
    open(f'{stub}/mpi4py/__init__.py', 'w').write('')
    open(f'{stub}/mpi4py/MPI.py', 'w').write('''import os, sys
class C:
    rank = 0; size = 1
    def Get_rank(s): return 0
    def Get_size(s): return 1
    def barrier(s): open(os.environ["STUB_SEEN"], "w").close()
    Barrier = barrier
    def bcast(s, x=None, root=0): return x
    def gather(s, x, root=0): return [x]
    def allgather(s, x): return [x]
    def scatter(s, x=None, root=0): return x[0]
    def alltoall(s, x): return x
    def allreduce(s, x, op=None): return x
    def reduce(s, x, op=None, root=0): return x
    def Abort(s, code=1):
        sys.stdout.flush(); os._exit(code or 1)
    def Split(s, color=0, key=0): return s
    box = []
    def send(s, x, dest, tag=0): s.box.append((tag, x))
    def isend(s, x, dest, tag=0):
        s.box.append((tag, x)); return R(None)
    def recv(s, buf=None, source=-1, tag=-1, status=None):
        k = [i for i, (t, x) in enumerate(s.box) if tag in (-1, t)][0]; return s.box.pop(k)[1]
    def irecv(s, buf=None, source=-1, tag=-1): return R(s, tag)
class R:
    def __init__(s, c, tag=-1): s.c = c; s.tag = tag
    def wait(s, status=None): return s.c.recv(tag=s.tag) if s.c else None
    Wait = wait
COMM_WORLD = C()
SUM = MAX = MIN = None
''')
    good = dict(REQ, details=True, catalog=True); nothing = dict(REQ); lost = dict(REQ, catalog=True, input='missing'); both = dict(REQ, catalog=True, ids=True, count=1)
    jobs = []
    for prog in ('rrdesi', 'rrboss'):
        for o in (good, nothing, lost, both):
            jobs.append((prog, dict(o, prog=prog, n=NT[prog]), {}, False, None))
        jobs.append((prog + '_mpi', dict(good, prog=prog, n=NT[prog]), dict(NERSC_HOST=None), True, True))
        jobs.append((prog + '_mpi', dict(lost, prog=prog, n=NT[prog]), dict(NERSC_HOST=None), True, True))
        jobs.append((prog + '_mpi', dict(good, prog=prog, n=NT[prog]), dict(NERSC_HOST='there', SLURM_JOB_NAME=None), True, False))
        jobs.append((prog + '_mpi', dict(good, prog=prog, n=NT[prog]), dict(NERSC_HOST='there', SLURM_JOB_NAME='job'), True, True))
        jobs.append((prog + '_mpi', dict(good, prog=prog, n=NT[prog]), dict(NERSC_HOST=None), False, None))
    from concurrent.futures import ThreadPoolExecutor
    def one(job):
        name, o, env, st, used = job
        d = None
        with LOCK:
            d = lab.scratch()
            a = lab.options(o, d) + ['--mp', '1']
        seen = f'{d}.seen'
        rc, out = script(name, a, env=dict(env, STUB_SEEN=seen), stub=stub if st else None)
        return d, rc, out, used is None or used == os.path.exists(seen)
    import threading
    LOCK = threading.Lock()
    with ThreadPoolExecutor(6) as ex:
        res = list(ex.map(one, jobs))
    for (name, o, *_), (d, rc, out, used) in zip(jobs, res):
        ex = {k for k in OUT if os.path.exists(f'{d}/{OUT[k]}')}
        whole = {k: complete(k, f'{d}/{OUT[k]}', o['prog']) for k in sorted(ex)}
        ev.append(dict(kind='run', o=o, ranks=name, ok=rc == 0, made=[k for k in whole if whole[k]], rows=[v for v in whole.values() if v], kept=not ex, strange=sorted(set(os.listdir(d)) - set(OUT.values())),
                       why=out[-200:] if rc else ''))
        lab.ck.ok(used, 'the communicator is used except on a login node', dict(cmd=name, why=out[-200:]))
    return ev


class Faulty:
    """a communicator of which one process fails at its n-th call"""
    def __init__(self, comm, rank, at, counts):
        self.c = comm; self.bad = comm.rank == rank; self.at = at; self.counts = counts

    def __getattr__(self, k):
        x = getattr(self.c, k)
        if k in ('rank', 'size', 'world') or not callable(x):
            return x

        def call(*a, **kw):
            if k in ('Abort', 'Get_rank', 'Get_size'):
                return x(*a, **kw)
            self.counts[self.c.rank] = self.counts.get(self.c.rank, 0) + 1
            if self.bad and self.counts[self.c.rank] == self.at:
                raise OSError('injected failure')
            return x(*a, **kw)
        return call


def faults(lab, rng, n):
    ev = []
    base = {}
    for i in range(n):
        prog = 'rrdesi' if i % 3 else 'rrboss'; size = 2 + i % 2; run = D.rrdesi if prog == 'rrdesi' else B.rrboss
        o = dict(REQ, prog=prog, details=True, catalog=True, model=prog == 'rrdesi')
        def go(at, rank, abort):
            d = lab.scratch(); counts = {}
            world = simmpi.World(size, seed=rng.randrange(10**6))
            a = lab.options(o, d) + ([] if abort else ['--no-mpi-abort'])
            with quiet():
                res, err = world.run(lambda c: run(a, comm=Faulty(c, rank, at, counts)))
            return world, err, counts
        if (prog, size) not in base:
            w, err, counts = go(-1, 0, True)
            base[prog, size] = counts if not any(err) else None
            lab.ck.ok(not any(err), 'a run on several processes completes', dict(err=repr(err)[:300]))
        c = base[prog, size]
        if c is None:
            continue
        rank = rng.randrange(size)
        at = rng.randint(3, c[rank] - 2)                 # not in the timing before and after the work
        abort = rng.random() < 0.6
        w, err, counts = go(at, rank, abort)
        mine = err[rank]
        ev.append(dict(kind='fault', prog=prog, rank=rank, size=size, at=at, abort=abort, all=all(e is not None for e in err), aborted=w.aborted is not None,
                       own=isinstance(mine, OSError) and 'injected' in str(mine), early=w.aborted is not None, why=[repr(e)[:100] for e in err]))
    return ev


def details(path):
    from redrock.results import read_zscan
    with quiet():
        return read_zscan(path)


def tables(a, b):
    """two results are the same"""
    (s1, z1), (s2, z2) = a, b
    if len(z1) != len(z2) or set(s1) != set(s2):
        return False
    for c in ('targetid', 'z', 'zerr', 'zwarn', 'chi2', 'npixels', 'znum', 'deltachi2', 'ncoeff'):
        if not np.allclose(z1[c], z2[c], rtol=1e-6, atol=1e-9):
            return False
    return all(list(z1[c]) == list(z2[c]) for c in ('spectype', 'subtype'))


def many(lab, rng, n):
    """number of fits and of refinement points"""
    ev = []
    d = f'{lab.w}/many'; os.makedirs(d)
    # a long scan of features of many scales has many minima
    t = [D.template_file(f'{d}/rrtemplate-GALAXY-None-v9.9.fits', 'GALAXY', '', 10**np.arange(0, 0.5, 0.0012) - 1, 2, 3), D.template_file(f'{d}/rrtemplate-QSO-HIZ-v9.9.fits', 'QSO', 'HIZ', 10**np.arange(0, 0.5, 0.0012) - 1, 1, 8)]
    tm = D.load(t)
    f = D.write_file(f'{d}/in.fits', [D.make_row(1 + i, tm[i % 2], 0.1 + 0.1 * i, np.random.RandomState(50 + i), noise=0.5) for i in range(2)])
    for i in range(n):
        k = rng.choice([0, 1, 2, 4, 5]) if i else 0; p = rng.choice([0, 5, 9, 15, 21, 30]); arch = (i == 1) or rng.random() < 0.25
        if i == 1:
            k = 0
        o = dict(REQ, details=True, nminima=k, npoints=p, archetypes='ok' if arch else 'none')
        out = f'{d}/d{i}.h5'
        a = ['-i', f, '-t', d, '-d', out, '--mp', 1 + i % 2] + (['--nminima', k] if k else []) + (['--zminfit-npoints', p] if p else []) + (['--archetypes', lab.adir] if arch else [])
        st, err = D.rrdesi(a)
        e = dict(kind='rows', o=o, counts=[], points=[], many=not arch, why='' if st == 'ok' else repr(err)[:200])
        if lab.ck.ok(st == 'ok', 'the run completes', dict(options=[str(x) for x in a], why=repr(err)[:300])):
            s, z = details(out)
            for tid in (1, 2):
                for ty in ('GALAXY', 'QSO'):
                    e['counts'].append(int(np.sum((z['targetid'] == tid) & (z['spectype'] == ty))))
            e['points'] = [int(np.asarray(x).size) for x in z['zz']] + [int(np.asarray(x).size) for x in z['zzchi2']]
            for x, y, b in zip(z['zz'], z['zzchi2'], z['z']):
                lab.ck.ok(bool(np.all(np.diff(x) > 0)), 'refinement points are in increasing order')
        ev.append(e)
    return ev


def pixels(lab, rng, n):
    """which pixels are counted: sky lines (their first and last wavelength included) and strongly negative flux"""
    ev = []
    old = dict(D.GRIDS)
    try:
        line = [5571.9, 5572.0, 5572.1, 5581.9, 5582.0, 5582.1]     # where two cameras overlap
        D.GRIDS['b'] = np.sort(np.concatenate([line, 3700 + 60. * np.arange(18), [5590., 5650.]]))
        D.GRIDS['r'] = np.sort(np.concatenate([line, 4600 + 50. * np.arange(19), 5600 + 40. * np.arange(5)]))
        D.GRIDS['z'] = np.sort(np.concatenate([[9791.9, 9792.0, 9794.0, 9795.0, 9795.1], 8200 + 70. * np.arange(22)]))
        narrow = D.GRIDS['z']; wide = np.sort(np.concatenate([line, narrow]))     # one camera with both lines
        for i in range(n):
            rs = np.random.RandomState(rng.randrange(10**6))
            D.GRIDS['z'] = wide if i % 4 == 1 else narrow
            rows = []
            neg = rng.choice([3, 5, 8] if i == 1 else [0, 3, 5, 8]) if i % 2 else 5
            for k in range(3):
                r = D.make_row(100 + k, lab.tm[0], 0.1, rs)
                for b in 'brz':
                    m = len(D.grid(b)); x = np.zeros((D.NDIAG, m)); x[D.NDIAG // 2] = 1; r['R'][b] = x
                    r['ivar'][b] = np.where(rs.rand(m) < 0.1, 0, rs.choice([1., 4., 16.], m))
                    sig = rs.randint(4, 40, m); h = rs.rand(m) < 0.3; sig[h] = -4 * neg + rs.randint(-2, 3, h.sum())
                    r.setdefault('sig', {})[b] = sig
                    r['flux'][b] = np.where(r['ivar'][b] > 0, sig / 4. / np.sqrt(np.where(r['ivar'][b] > 0, r['ivar'][b], 1)), 3.)
                rows.append(r)
            times = 1
            if i == 2:      # so many exposures that the number of pixels needs 32 bits
                times = 400; rows = rows[:1] * times + rows[1:]
            f = D.write_file(f'{lab.w}/p{i}.fits', rows); rows = rows[times - 1:]
            nosky = bool(i % 3 == 0); out = f'{lab.w}/p{i}-out.fits'
            a = ['-i', f, '-t', lab.tdir, '-o', out] + ['--no-skymask'] * nosky + ([] if not i % 2 else [f'--negflux-nsig={-neg}'] if i % 4 == 1 else ['--negflux-nsig', neg]) + ['--allspec'] * (i % 4 == 2)
            if i % 5 == 4:
                (st, err), _ = D.rrdesi_mpi(2, a, seed=i)
            else:
                st, err = D.rrdesi(a + ['--mp', 1 + i % 2])
            if not lab.ck.ok(st == 'ok', 'the run completes', dict(options=[str(x) for x in a], why=repr(err)[:300])):
                continue
            z = D.read_catalog(out)['z']
            e = dict(kind='pixels', o=dict(REQ, nosky=nosky, negflux=neg), targets=[])
            for r in rows:
                px = [dict(x=int(round(10 * w)), w=int(round(v)), f=int(s)) for b in 'brz' for w, v, s in zip(D.grid(b), r['ivar'][b], r['sig'][b])]
                e['targets'].append(dict(pix=px, times=times if r is rows[0] else 1, got=int(z['NPIXELS'][z['TARGETID'] == r['tid']][0])))
            ev.append(e)
    finally:
        D.GRIDS.update(old)
    return ev


def ranges(lab, rng, n):
    """redshift ranges of templates which do not list redshifts"""
    from astropy.io import fits
    ev = []
    d = f'{lab.w}/old'; os.makedirs(d)
    for p in (D.template_file(f'{d}/rrtemplate-GALAXY-None-v2.6.fits', 'GALAXY', '', [0, 1], 2, 3, version='2.6', nw=900, w0=1000.), D.template_file(f'{d}/rrtemplate-QSO-None-v1.1.fits', 'QSO', '', [0, 1], 1, 4, version='1.1', w0=500., nw=900),
              D.template_file(f'{d}/rrtemplate-STAR-F-v0.1.fits', 'STAR', 'F', [0, 1], 1, 5, version='0.1')):
        with fits.open(p, memmap=False) as h:
            hh = fits.HDUList([x for x in h if x.name != 'REDSHIFTS']); hh.writeto(p, overwrite=True)
    f = D.write_file(f'{d}/in.fits', lab.rows[:2])
    for i in range(n):
        u = 10**6
        L = {}
        for ty in ('GALAXY', 'QSO'):
            lo = rng.randint(-2000, 100000) if ty == 'GALAXY' else rng.randint(0, 20000); step = rng.choice([700, 1000, 1500, 3100]); m = rng.randint(3, 40)
            L[ty] = (lo, lo + step * m - rng.randint(step // 4, 3 * step // 4), step)
        s = rng.randint(-3000, 500); st = rng.choice([40, 100, 130]); m = rng.randint(3, 30)
        L['STAR'] = (s, s + st * m - rng.randint(st // 4, 3 * st // 4), st)
        txt = {ty: f'{10**(L[ty][0] / u) - 1:.15g},{10**(L[ty][1] / u) - 1:.15g},{L[ty][2] / u:.10g}' for ty in ('GALAXY', 'QSO')}
        txt['STAR'] = f'{L["STAR"][0] / u:.10g},{L["STAR"][1] / u:.10g},{L["STAR"][2] / u:.10g}'
        out = f'{d}/d{i}.h5'
        a = ['-i', f, '-t', d, '-d', out] + [f'--zscan-{ty.lower()}={x}' for ty, x in txt.items()]
        if i % 3 == 2:
            (ok, err), _ = D.rrdesi_mpi(2 + i % 2, a, seed=i)
        else:
            ok, err = D.rrdesi(a + ['--mp', 1 + i % 2])
        for ty in L:
            e = dict(kind='range', type=ty, lo=L[ty][0], hi=L[ty][1], d=L[ty][2], ok=ok == 'ok', scan=[], why='' if ok == 'ok' else repr(err)[:200])
            if ok == 'ok':
                s, z = details(out)
                t = lab.rows[0]['tid']; key = ty if ty != 'STAR' else 'STAR:::F'
                g = np.asarray(s[t][key]['redshifts'], float)
                e['scan'] = [int(round(x * u)) for x in (g if ty == 'STAR' else np.log10(1 + g))]
            ev.append(e)
    return ev


def equal(lab, rng, T):
    """options which change nothing, and options which must change something"""
    ev = []
    def run(more, o=None, inp=None, ranks=0):
        d = lab.scratch(); out = f'{d}/d.h5'
        a = ['-i', inp or lab.input, '-t', lab.tdir, '-d', out] + more
        if ranks:
            (st, err), _ = D.rrdesi_mpi(ranks, a)
        else:
            st, err = D.rrdesi(a)
        return details(out) if st == 'ok' else None
    ref = run(['--mp', 1])
    for more in (['--mp', 2], ['--mp', 3], ['--ncpu', 1], ['--ncpu', 2], ['--mp', 4, '--ncpu', 1], ['--mp', 1, '--nminima', 3], ['--mp', 1, '--zminfit-npoints', 15], ['--mp', 1, '--negflux-nsig', 5],
                 ['--mp', 1, '--negflux-nsig=-5'], ['--mp', 1, '--cosmics-nsig', 0], ['--mp', 1, '--archetype-legendre-degree', 3, '--archetype-nnearest', 2], ['--mp', 1, '--mintarget', 0], ['--mp', 1, '-n', 4],
                 ['--mp', 1, '--targetids', ','.join(str(i) for i in lab.ids)], ['--mp', 1, '-n', 4, '--mintarget', 0]):
        x = run(more)
        ev.append(dict(kind='same', more=[str(m) for m in more], ok=x is not None and ref is not None, same=bool(x is not None and ref is not None and tables(x, ref))))
    # a clear cosmic ray in one of four exposures: the coadd of the run is that of the threshold asked for
    from redrock.external.desi import DistTargetsDESI
    from redrock.templates import load_dist_templates
    from redrock.zfind import zfind
    def lib(f, nsig):
        with quiet():
            t = DistTargetsDESI([f], coadd=True, cosmics_nsig=nsig)
            dt = load_dist_templates(t.wavegrids(), templates=lab.tdir)
            return zfind(t, dt, 1, nminima=3)
    for k in range(3 if T else 1):
        rows = []; rs = np.random.RandomState(rng.randrange(10**6)); base = D.make_row(5, lab.tm[0], 0.1 + 0.05 * k, rs)
        for e in range(4):
            r = dict(base, exp=e + 1, flux={b: base['flux'][b] + 0.05 * rs.normal(size=len(base['flux'][b])) for b in 'brz'}, ivar={b: np.full(len(D.grid(b)), 25.) for b in 'brz'})
            if e == 2:
                r['flux']['b'][rng.randint(8, 18)] += 80
            rows.append(r)
        f = D.write_file(f'{lab.w}/cosmic{k}.fits', rows)
        with_, without, huge = run(['--mp', 1, '--no-skymask', '--cosmics-nsig', 6], inp=f), run(['--mp', 1, '--no-skymask'], inp=f), run(['--mp', 1, '--no-skymask', '--cosmics-nsig', 1e5], inp=f)
        want = lib(f, 6)
        ev.append(dict(kind='same', more=['cosmics', '6'], ok=with_ is not None, same=bool(with_ and tables(with_, want))))
        ev.append(dict(kind='same', more=['cosmics', '1e5'], ok=bool(huge and without), same=bool(huge and without and tables(huge, without))))
        ev.append(dict(kind='differ', more=['no cosmics'], ok=bool(with_ and without), same=bool(with_ and without and tables(with_, without))))
    return ev


def procs(lab, rng, n):
    import multiprocessing as mp
    from redrock.utils import get_mp
    ev = []
    real = mp.cpu_count, os.cpu_count; keep = {k: os.environ.get(k) for k in ('NERSC_HOST', 'SLURM_JOB_NAME')}
    try:
        for i in range(n):
            cpus = rng.choice([1, 2, 3, 4, 7, 8, 64]); asked = rng.choice([0, 1, 2, 3, 4, 5, 8, 9, 64, 65, 200]); login = rng.random() < 0.4; job = rng.random() < 0.3
            mp.cpu_count = os.cpu_count = lambda: cpus
            for k, v in (('NERSC_HOST', 'x' if login or job else None), ('SLURM_JOB_NAME', 'j' if job and not login else None)):
                os.environ.pop(k, None)
                if v:
                    os.environ[k] = v
            with quiet():
                k, r = guarded(get_mp, asked)
            ev.append(dict(kind='procs', asked=asked, cpus=cpus, login=login, got=int(r) if k == 'ok' else -1))
    finally:
        mp.cpu_count, os.cpu_count = real
        for k, v in keep.items():
            os.environ.pop(k, None)
            if v is not None:
                os.environ[k] = v
    return ev


def check(ck):
    rng = ck.rng; T = ck.thorough
    ck.model('Cli', MODEL % (5 if T else 3, 'FALSE', 'FALSE', 'FALSE'))
    ck.expect_violation('Cli', MODEL % (2, 'TRUE', 'FALSE', 'FALSE'), 'NothingRefused is violated')
    ck.expect_violation('Cli', MODEL % (2, 'FALSE', 'TRUE', 'FALSE'), 'Complete is violated')
    ck.expect_violation('Cli', MODEL % (2, 'FALSE', 'FALSE', 'TRUE'), 'Complete is violated')
    lab = Lab(ck)
    ev = requests(lab, rng, 150 if T else 24) + scripts(lab, rng) + faults(lab, rng, 60 if T else 12) + many(lab, rng, 24 if T else 7) + pixels(lab, rng, 24 if T else 7)
    ev += ranges(lab, rng, 15 if T else 4) + equal(lab, rng, T) + procs(lab, rng, 400)
    ck.extra['events'] = {k: sum(1 for e in ev if e['kind'] == k) for k in sorted({e['kind'] for e in ev})}
    ck.sample(lambda: ev[0])
    ck.validate('T_Cli', ev)
    ck.assumptions += ['MPI is the simulated communicator; for rrdesi_mpi and rrboss_mpi a stand-in of mpi4py with one process', 'GPU options are those of C30; here the machine has none']


if __name__ == '__main__':
    main(check, 'C28', 'model_checking')
