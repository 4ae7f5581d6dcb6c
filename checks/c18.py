"""C18: moving spectra through shared memory loses nothing."""
import os, pickle, hashlib
import numpy as np, scipy.sparse
from common import main, quiet, guarded
import fixtures, mpilab, c01

MODEL = 'CONSTANTS\n N = %d\n NoFlag = %s\nSPECIFICATION Spec\nINVARIANT NothingLost\nCHECK_DEADLOCK FALSE\n'
OPS = ['pack1', 'pack2', 'packall', 'unpackall', 'use1', 'use2', 'child']


def val(a):
    a = np.asarray(a)
    b = a.astype(a.dtype.newbyteorder('=')).tobytes()
    return (a.dtype.kind, a.dtype.itemsize, a.shape, b if len(b) < 10**5 else hashlib.sha256(b).hexdigest())


class It:
    def __init__(self):
        self.d = {}

    def __call__(self, *a):
        return self.d.setdefault(a, len(self.d) + 1)


def make(rng, kind, cache):
    """two spectra of a target, of the given kind of arrays"""
    from redrock.targets import Target, Spectrum
    rs = np.random.RandomState(rng.randrange(2**31))
    sp = []
    for b, n in (('b', 600), ('r', 7)) if kind == 'large' else (('b', 9), ('r', 7)):
        w = np.linspace(3600, 4000, n); f = rs.normal(size=n); iv = rs.rand(n)
        R = fixtures.R_gauss(n, half=2) if n < 100 else fixtures.R_gauss(n, sigma=10., half=30)      # more than 32767 elements
        if kind == 'single':
            f = f.astype(np.float32); iv = iv.astype(np.float32)
        elif kind == 'swapped':
            w, f, iv = (x.astype('>f8') for x in (w, f, iv)); R = scipy.sparse.dia_matrix((R.data.astype('>f4').astype('f4'), R.offsets), shape=(n, n))
        elif kind == 'strided':
            f = np.repeat(f, 2)[::2]; iv = np.asfortranarray(np.outer(iv, [1, 2]))[:, 0]
        elif kind == 'nan':
            f[2] = np.nan; f[3] = np.inf; iv[2] = 0.
        elif kind == 'narrow':
            # no weight in the last column of the resolution: fewer columns are stored
            A = np.eye(n) + 0.1 * np.eye(n, k=-1); A[:, -1] = 0; A[-1, -2] = 1
            R = scipy.sparse.csr_matrix(A).todia()
        elif kind == 'fortran':
            R = scipy.sparse.dia_matrix((np.asfortranarray(R.data), R.offsets), shape=(n, n))
        elif kind == 'offsets':
            R = scipy.sparse.dia_matrix((R.data[::-1].copy(), R.offsets[::-1].copy()), shape=(n, n))
        sp.append(Spectrum(w, f, iv, R, Rcsr=R.tocsr() if cache else None, band=b))
    return Target(5, sp, meta=dict(A=1))


def arrays(it, s):
    return it(val(s.wave), val(s.flux), val(s.ivar))


def used(it, s):
    from redrock.zscan import spectral_data
    R = s.Rcsr
    # what the fits work with: the resolution applied to a vector, next to the data
    x = R.dot(np.arange(R.shape[1], dtype=float))
    return it(val(s.wave), val(s.flux), val(s.ivar), R.shape, val(R.toarray()), val(x))


def full(it, s):
    return it(val(s.wave), val(s.flux), val(s.ivar), s.R.shape, val(s.R.toarray()), val(s.R.offsets), val(s.Rcsr.toarray()), s.Rcsr.shape, s.band, str(s.wavehash), s.nwave)


def child_uses(t):
    """values of the uses in a forked child (pickled)"""
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        try:
            os.close(r)
            out = []
            for s in t.spectra:
                R = s.Rcsr
                x = R.dot(np.arange(R.shape[1], dtype=float))
                out.append((val(s.wave), val(s.flux), val(s.ivar), R.shape, val(R.toarray()), val(x)))
            t.sharedmem_pack(); t.sharedmem_unpack()
            out2 = []
            for s in t.spectra:
                R = s.Rcsr
                out2.append((val(s.wave), val(s.flux), val(s.ivar), R.shape, val(R.toarray()), val(R.dot(np.arange(R.shape[1], dtype=float)))))
            os.write(w, pickle.dumps(out + out2))
        except BaseException as err:
            os.write(w, pickle.dumps(repr(err)))
        os._exit(0)
    os.close(w)
    data = b''
    while True:
        b = os.read(r, 1 << 16)
        if not b:
            break
        data += b
    os.close(r); os.waitpid(pid, 0)
    out = pickle.loads(data)
    if isinstance(out, str):
        raise RuntimeError(out)
    return out


def apart(f):
    """the result of f in a forked process, None when that does not live to tell"""
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        os.close(r)
        try:
            data = pickle.dumps(f())
            with os.fdopen(w, 'wb') as fx:
                fx.write(data)
        finally:
            os._exit(0)
    os.close(w)
    with os.fdopen(r, 'rb') as fx:
        data = fx.read()
    os.waitpid(pid, 0)
    return pickle.loads(data) if data else None


def play(it, t, ops):
    e = dict(kind='history', ops=ops, steps=[], arrays=[arrays(it, s) for s in t.spectra], order0=[s.band for s in t.spectra])
    copy = pickle.loads(pickle.dumps(t))
    e['first'] = [full(it, s) for s in copy.spectra]
    e['used'] = [used(it, s) for s in copy.spectra]
    for o in ops:
        st = dict(op=o, ok=True, state=[], uses=[], who=[])
        try:
            if o in ('pack1', 'pack2'):
                t.spectra[int(o[4]) - 1].sharedmem_pack()
            elif o == 'packall':
                t.sharedmem_pack()
            elif o == 'unpackall':
                t.sharedmem_unpack()
            elif o in ('use1', 'use2'):
                k = int(o[3]); st['uses'].append(used(it, t.spectra[k - 1])); st['who'].append(k)
            else:
                for k, v in enumerate(child_uses(t)):
                    st['uses'].append(it(*v)); st['who'].append(k % 2 + 1)
            st['state'] = [arrays(it, s) for s in t.spectra]
        except Exception as err:
            st['ok'] = False; st['why'] = repr(err)[:200]
        e['steps'].append(st)
    try:
        t.sharedmem_unpack()
        e['last'] = [full(it, s) for s in t.spectra]
    except Exception as err:
        e['last'] = [repr(err)[:200]]
    e['order'] = [s.band for s in t.spectra]
    return e


def check(ck):
    import redrock.zfind as zf
    from redrock.targets import DistTargetsCopy
    rng = ck.rng
    ck.model('Shm', MODEL % (2, 'FALSE'))
    if ck.thorough:
        ck.model('Shm', MODEL % (3, 'FALSE'))
    ck.expect_violation('Shm', MODEL % (2, 'TRUE'), 'NothingLost is violated')
    ops = '{' + ','.join(f'"{o}"' for o in OPS) + '}'
    hist = [c['h'] for c in ck.generate('G_Shm', f'CONSTANTS N = {4 if ck.thorough else 3}\n Ops = {ops}\nSPECIFICATION Spec\nCHECK_DEADLOCK FALSE\n')]
    hist += [[rng.choice(OPS) for _ in range(rng.randint(5, 12))] for _ in range(200 if ck.thorough else 60)]
    kinds = ['plain', 'single', 'swapped', 'strided', 'nan', 'offsets', 'narrow', 'fortran']
    ev = []
    for k, h in enumerate(hist):
        it = It()
        with quiet():
            t = make(rng, kinds[k % len(kinds)], cache=(k // len(kinds)) % 2 == 1)
        e = play(it, t, h); e['arrays_kind'] = kinds[k % len(kinds)]
        ev.append(e)
    for h in (['packall'], ['pack1', 'use1', 'child'], ['use1', 'packall', 'use1', 'unpackall', 'use2', 'packall', 'child']):
        for cache in (True, False):
            it = It()
            with quiet():
                t = make(rng, 'large', cache)
            e = apart(lambda: play(it, t, h))     # a memory error ends the process
            if e is None:
                ck.bad('the process that used the spectra died', dict(ops=h, cache=cache))
                continue
            e['arrays_kind'] = 'large'
            ev.append(e)
    # whole runs with workers leave the data as they were, in any number of runs
    for rnd in range(4 if ck.thorough else 2):
        it = It()
        S = mpilab.Setup(rng, 3, c01.tmpls(rnd % 2), noise=0.2)
        tg = S.fresh()
        e = [dict(kind='history', ops=['zfind'], steps=[], arrays=[arrays(it, s) for s in t.spectra], order0=[s.band for s in t.spectra], used=[]) for t in tg]
        for x, t in zip(e, pickle.loads(pickle.dumps(tg))):
            x['first'] = [full(it, s) for s in t.spectra]
        for mp in (2, 1, 3):
            with quiet():
                d = DistTargetsCopy(tg); dts = fixtures.disttemplates(S.templates, d)
                st, r = guarded(zf.zfind, d, dts, mp_procs=mp, nminima=1)
            for x, t in zip(e, tg):
                x['steps'].append(dict(op=f'zfind {mp}', ok=st == 'ok', state=[arrays(it, s) for s in t.spectra], uses=[], who=[], why=str(r)[:200] if st != 'ok' else 'ok'))
        for x, t in zip(e, tg):
            t.sharedmem_unpack()
            x['last'] = [full(it, s) for s in t.spectra]; x['order'] = [s.band for s in t.spectra]
        ev += e
    ck.extra['histories'] = len(hist)
    ck.sample(lambda: ev[0]); ck.sample(lambda: {k: ev[-1][k] for k in ('ops', 'first', 'last')})
    ck.validate('T_Shm', ev)
    ck.assumptions += ['workers are forked, as on Linux by default', 'byte order is not part of the value; element type is']


if __name__ == '__main__':
    main(check, 'C18')
