"""C32: runs in one process do not depend on each other and leave their inputs as they were."""
import os, copy, pickle, hashlib
import numpy as np
from common import main, quiet, guarded, Intern
import fixtures as F, archlab as A, desilab as D, c02

CFG = 'CONSTANTS\n Args = {1, 2, 3}\n Objs = {%s}\n L = %d\n NoKey = %s\n InPlace = %s\n Sticky = %s\n Alias = %s\n Mixed = %s\nSPECIFICATION Spec\nINVARIANTS Independent Untouched\nCHECK_DEADLOCK FALSE\n'
WRONG = ['NoKey', 'InPlace', 'Sticky', 'Alias', 'Mixed']


def cfg(objs, l, wrong=None):
    return CFG % ((objs, l) + tuple('TRUE' if w == wrong else 'FALSE' for w in WRONG))


class World:
    """the shared objects; two worlds made with the same seed are the same"""
    def __init__(self, wd, seed, kind):
        from redrock.targets import DistTargetsCopy
        from redrock.archetypes import All_archetypes
        rs = np.random.RandomState(seed)
        self.wd = wd
        gal = F.template('GALAXY', '', 0.02, 0.3, nz=12, nbasis=3, seed=seed % 100, wavemin=1000, wavemax=9900, oii=kind == 0)
        qso = F.template('QSO', 'HIZ', 1.9, 2.4, nz=10, nbasis=2, seed=seed % 100 + 1, wavemin=800, wavemax=9900, igm=['Calura12', 'Inoue14'][kind])
        low = F.template('QSO', 'LOZ', 1.7, 2.0, nz=8, nbasis=2, seed=seed % 100 + 2, wavemin=800, wavemax=9900, igm=['Kamble20', 'Calura12'][kind])
        star = F.template('STAR', 'F', -0.002, 0.002, nz=9, nbasis=1, seed=seed % 100 + 3, wavemin=1000, wavemax=9900)
        self.templates = [[gal, qso, star], [low, gal, qso]][kind]
        self.archetypes = None
        with quiet():
            self.archetypes = All_archetypes(archetypes_dir=wd + '/arch').archetypes
        bandsets = [('b', 'r', 'z'), ('b', 'r', 'z'), ('r', 'z', 'b'), ('b', 'r', 'z')]
        self.targets = []
        for i in range(4):
            t = self.templates[i % len(self.templates)]; zz = t.redshifts
            x = F.target(900 + 11 * i, t, max(0, float(zz[1] + (zz[-2] - zz[1]) * rs.rand())), nspec=[3, 6, 3, 3][i], seed=rs.randint(10**5), bands=bandsets[i], noise=0.2)
            for s in x.spectra:
                s.ivar[rs.rand(len(s.ivar)) < 0.1] = 0
            if i == 3 and kind:
                for s in x.spectra:
                    s.ivar[:] = 0
            self.targets.append(x)
        self.dt = DistTargetsCopy(self.targets)
        self.dts = F.disttemplates(self.templates, self.dt)
        self.wave = {h: w for h, w in self.dt.wavegrids().items()}
        self.born = {}; self.args = {}                       # arrays and dicts handed to the operations

    def arg(self, name, make):
        if name not in self.args:
            self.args[name] = make()
            self.born[name] = digest(self.args[name])
        return self.args[name]

    def state(self):
        """what a user may rely on to stay as it is"""
        out = {}
        def put(k, v):
            v = np.ascontiguousarray(v)
            out[k] = (v.shape, v.dtype.str, hashlib.md5(v.tobytes()).hexdigest())
        for t in self.targets:
            out[f'target {t.id} identity'] = (t.id, len(t.spectra), repr(sorted(t.meta.items())), tuple(s.wavehash for s in t.spectra), tuple(s.band for s in t.spectra))
            for i, s in enumerate(t.spectra):
                s = copy.copy(s); s.sharedmem_unpack()         # where the data are is not judged
                put(f'target {t.id} wave {i}', s.wave); put(f'target {t.id} flux {i}', s.flux); put(f'target {t.id} ivar {i}', s.ivar)
                put(f'target {t.id} R {i}', s.R.toarray()); put(f'target {t.id} Rcsr {i}', s.Rcsr.toarray())
        for t in self.templates:
            out[f'template {t.full_type} identity'] = (t.template_type, t.sub_type, t.full_type, t.nbasis, str(t.igm_model), str(t.method))
            put(f'template {t.full_type} flux', t.flux); put(f'template {t.full_type} wave', t.wave); put(f'template {t.full_type} redshifts', t.redshifts)
        for k, a in (self.archetypes or {}).items():
            put(f'archetype {k} flux', a.flux); put(f'archetype {k} wave', a.wave)
            out[f'archetype {k} names'] = tuple(map(str, a.sub_type))
        for h, w in self.wave.items():
            put(f'wavelengths {h}', w)
        out['targets in order'] = tuple(self.dt.all_target_ids); out['targets here'] = tuple(t.id for t in self.dt.local())
        for t in self.dts:
            put(f'redshifts here of {t.template.full_type}', t.local.redshifts)
        for d in ('files', 'arch', 't'):
            for f in sorted(os.listdir(f'{self.wd}/{d}')):
                out[f'file {f}'] = hashlib.md5(open(f'{self.wd}/{d}/{f}', 'rb').read()).hexdigest()
        return out


def digest(x):
    return [(p, hashlib.md5(np.ascontiguousarray(v).tobytes()).hexdigest() if isinstance(v, np.ndarray) else repr(v)) for p, v in flat(x)]


def table(tab):
    out = {}
    for c in tab.colnames:
        out[c] = np.asarray(tab[c])
    return out


def scans(al):
    return {str(t): {ft: {k: np.asarray(al[t][ft][k]) for k in ('redshifts', 'zchi2', 'penalty', 'zcoeff')} for ft in al[t]} for t in al}


def zfind(W, mp=1, arch=False, sub=None, tsub=None, **kw):
    from redrock.zfind import zfind as zf
    from redrock.targets import DistTargetsCopy
    d, t = W.dt, W.dts
    if sub is not None:
        d = DistTargetsCopy([W.targets[i] for i in sub])
    if tsub is not None or sub is not None:
        t = F.disttemplates([W.templates[i] for i in (tsub or range(len(W.templates)))], d)
    if arch:
        kw['archetypes'] = W.archetypes; kw['ncamera'] = 3
    n = len(kw)
    al, tab = zf(d, t, mp, **kw)
    return [scans(al), table(tab)]


def rowsof(W, arch):
    """fixed rows, made by hand, to evaluate"""
    def make():
        out = []
        for i, t in enumerate(W.targets):
            x = W.templates[i % len(W.templates)]; z = float(max(0, x.redshifts[3]))
            if arch:
                a = W.archetypes['GALAXY']; two = i % 2
                out.append(dict(SPECTYPE='GALAXY', SUBTYPE=';'.join(map(str, a.sub_type[:1 + two])), FITMETHOD='ARCH', Z=z, COEFF=np.array([1.5, 0.5, 0.0][:2 + two]),
                                LEGCOEFF=np.array([[0.3, -0.2]] * 3) if i < 2 else np.array([0.1, 0.2, 0.4])))
            else:
                out.append(dict(SPECTYPE=x.template_type, SUBTYPE=x.sub_type, FITMETHOD=x.method, Z=z, COEFF=np.linspace(1, 2, x.nbasis)))
        return out
    return W.arg('rows' + str(arch), make)


def models(W, arch):
    d = {(t.template_type, t.sub_type): t for t in W.templates}
    return [dict(t.eval_model(r, d, W.archetypes)) for t, r in zip(W.targets, rowsof(W, arch))]


def program(W, name, *opt):
    for f in ('o.fits', 'd.h5', 'm.fits'):
        if os.path.exists(f'{W.wd}/{f}'):
            os.remove(f'{W.wd}/{f}')
    wd = W.wd
    args = W.arg('options ' + name, lambda: dict(options=['-i', f'{wd}/files/in.fits', '-o', f'{wd}/o.fits', '-d', f'{wd}/d.h5', '--model', f'{wd}/m.fits', '--mp', '1'] + [str(o) for o in opt]))
    st, err = D.rrdesi(args['options'], tdir=W.wd + '/t')
    if st != 'ok':
        raise RuntimeError(repr(err)[:300])
    from redrock.results import read_zscan
    c = D.read_catalog(f'{W.wd}/o.fits'); m = D.read_catalog(f'{W.wd}/m.fits')
    al, zf = read_zscan(f'{W.wd}/d.h5')
    return [table(c['z']), {k: v for k, v in m.items() if isinstance(v, np.ndarray)}, scans(al), table(zf), [f'{k}={c["header"][k]}' for k in c['header'] if k.startswith(('TEMNAM', 'TEMFIL', 'ARCNAM', 'ARCFIL'))]]


def igm(W, model, z, lo, hi, arr=True):
    from redrock.igm import transmission_Lyman
    w = W.arg(f'wave {lo} {hi}', lambda: np.linspace(lo, hi, 60)); zz = W.arg(f'z {z}', lambda: np.array(z))
    return transmission_Lyman(zz, w, model=model, always_return_array=arr)


def rebin(W, k, nz):
    from redrock.templates import rebin_template
    t = W.templates[k % len(W.templates)]
    z = W.arg(f'z of {k} {nz}', lambda: t.redshifts[nz:nz + 4].copy())
    return rebin_template(t, z, W.wave)


def scan(W, k):
    from redrock.zscan import calc_zchi2_targets
    return scans(calc_zchi2_targets(W.dt, W.dts[k:], use_gpu=False))


def pack(W):
    for t in W.targets:
        t.sharedmem_pack()
    for t in W.targets:
        t.sharedmem_unpack()
    return [s.flux for t in W.targets for s in t.spectra] + [s.Rcsr.toarray() for t in W.targets for s in t.spectra]


def archeval(W, leg):
    a = W.archetypes['QSO']; w = W.arg('wave of arch', lambda: np.linspace(3700., 5000., 50))
    return a.eval(str(a.sub_type[1]), W.arg('coeff of arch', lambda: np.array([2.0])), w, 0.7, legcoeff=None if leg is None else W.arg(f'leg {leg}', lambda: np.linspace(-1, 1, leg)))


def minima(W):
    from redrock.fitz import fitz
    from redrock.templates import DistTemplate
    t = W.targets[0]; x = W.templates[0]
    c = W.arg('chi2', lambda: (np.linspace(-1, 1, len(x.redshifts))**2 + 0.3 * np.cos(3. * np.arange(len(x.redshifts)))) * 50)
    return dict(fitz(c, W.arg('zs', lambda: x.redshifts.copy()), t, x, nminima=3))


def table_read(W, ids):
    from redrock.results import read_zscan
    al, z = read_zscan(f'{W.wd}/files/scan.h5', select_targetids=ids, upper=ids is not None)
    return [scans(al), table(z)]


def operations(W0):
    f = lambda **k: (lambda W: zfind(W, **k))
    wd = W0.wd; pri = f'{wd}/files/prior.fits'; scn = f'{wd}/files/scan.h5'
    ids = [t.id for t in W0.targets]
    return [('fits', f()), ('one minimum', f(nminima=1)), ('prior', f(priors=pri)), ('camera polynomials of degree 2', f(arch=True, per_camera=True, deg_legendre=2, prior_sigma=0.1)),
            ('polynomials of degree 3', f(arch=True, per_camera=False, deg_legendre=3)), ('nearest 2', f(arch=True, per_camera=True, deg_legendre=1, n_nearest=2)),
            ('archetypes alone', f(arch=True)), ('stored scan', f(chi2_scan=scn)), ('stored scan and prior', f(chi2_scan=scn, priors=pri, nminima=2)), ('two workers', f(mp=2)),
            ('part of the targets', f(sub=[2, 0])), ('part of the templates', f(tsub=[1])), ('points of the fit', f(zminfit_npoints=7)),
            ('scan', lambda W: scan(W, 0)), ('scan of some', lambda W: scan(W, 1)),
            ('1 polynomial', lambda W: [t.legendre(1) for t in W.targets]), ('4 polynomials', lambda W: [t.legendre(nleg=4, use_gpu=False) for t in W.targets]),
            ('models', lambda W: models(W, False)), ('models of archetypes', lambda W: models(W, True)),
            ('template at redshifts', lambda W: rebin(W, 0, 1)), ('template at other redshifts', lambda W: rebin(W, 0, 5)), ('another template', lambda W: rebin(W, 1, 3)),
            ('absorption', lambda W: igm(W, 'Inoue14', [2.1, 3.0], 3600., 5500.)), ('absorption far', lambda W: igm(W, 'Inoue14', [5.0, 6.4, 0.3], 3200., 9500.)), ('absorption other', lambda W: igm(W, 'Calura12', [2.9], 3400., 5500.)),
            ('shared memory', pack), ('archetype', lambda W: archeval(W, None)), ('archetype and polynomials', lambda W: archeval(W, 3)), ('minima', minima),
            ('read', lambda W: table_read(W, None)), ('read some', lambda W: table_read(W, [ids[2], ids[0]])),
            ('rrdesi', lambda W: program(W, 'plain')), ('rrdesi archetypes', lambda W: program(W, 'arch', '--archetypes', wd + '/arch', '--archetype-nnearest', '2')),
            ('rrdesi selection', lambda W: program(W, 'sel', '-n', '2', '--mintarget', '1', '--nminima', '2', '--no-mpi-abort')), ('rrdesi prior', lambda W: program(W, 'prior', '--priors', pri)),
            ('rrdesi one template', lambda W: program(W, 'one', '-t', W.wd + '/t/rrtemplate-GALAXY-None-v9.9.fits', '--zscan-galaxy', '0.02,0.2,1e-2'))]


def flat(x):
    """leaves with their place"""
    if isinstance(x, dict):
        return [(f'{k}.{p}', v) for k in sorted(x, key=str) for p, v in flat(x[k])]
    if isinstance(x, (list, tuple)):
        return [(f'{i}.{p}', v) for i, y in enumerate(x) for p, v in flat(y)]
    return [('', x)]


def copied(x):
    return [(p, v.copy() if isinstance(v, np.ndarray) else v) for p, v in flat(x)]


def value(it, leaves):
    out = []
    for p, v in leaves:
        if isinstance(v, str) or v is None:
            out.append([p, 's:' + str(v)])
        else:
            a = np.asarray(v)
            if a.dtype.kind in 'SUO':
                out.append([p, 's:' + '|'.join((y.decode() if isinstance(y, bytes) else str(y)).strip() for y in a.ravel())])
            else:
                out.append([p, it(a.astype(float))])
    return out


def alone(fn, mk):
    """in a process that does nothing else"""
    r, w = os.pipe(); pid = os.fork()
    if pid == 0:
        try:
            os.close(r)
            with quiet():
                W = mk(); st, out = guarded(fn, W)
            b = pickle.dumps((st, copied(out) if st == 'ok' else repr(out)[:300]))
            with os.fdopen(w, 'wb') as f:
                f.write(b)
        finally:
            os._exit(0)
    os.close(w)
    with os.fdopen(r, 'rb') as f:
        b = f.read()
    os.waitpid(pid, 0)
    return pickle.loads(b) if b else ('error', 'the process ended')


def prepare(wd, seed, kind):
    from redrock.results import write_zscan
    for d in ('files', 'arch', 't'):
        os.makedirs(f'{wd}/{d}')
    A.archetype_file(f'{wd}/arch/rrarchetype-galaxy.fits', 'GALAXY', 4, seed % 50, w0=900., nw=1000)
    A.archetype_file(f'{wd}/arch/rrarchetype-qso.fits', 'QSO', 3, seed % 50 + 1, w0=900., nw=1000)
    tf = D.template_dir(wd + '/t', nz=8, stars=False); tm = D.load(tf)
    rows = [D.make_row(900 + 11 * i, tm[i % 2], float(tm[i % 2].redshifts[3]), rs=np.random.RandomState(seed + i)) for i in range(4)]
    D.write_file(f'{wd}/files/in.fits', rows, coadded=True)

    class Ck:
        work = wd + '/files'
    c02.priorfile(Ck, [900, 911, 922, 933])


def check(ck):
    rng = ck.rng
    ck.model('History', cfg('1, 2', 5 if ck.thorough else 4))
    for w in WRONG:
        ck.expect_violation('History', cfg('1, 2', 3, w), 'Untouched is violated' if w == 'InPlace' else 'Independent is violated')
    ev = []; ck.extra['pairs of operations'] = 0
    for kind in range(2):
        wd = f'{ck.work}/{kind}'; seed = rng.randrange(10**5)
        prepare(wd, seed, kind)
        mk = lambda: World(wd, seed, kind)
        if True:                         # the stored scan
            st, r = alone(lambda W: store(W), mk)
            if st != 'ok':
                ck.bad('the stored scan could not be made', r)
        with quiet():
            W0 = mk()
        ops = operations(W0)
        want = {}
        n = len(ops); length = 1200 if ck.thorough else 120
        hist = ck.generate('G_History', f'CONSTANTS\n NOps = {n}\n Len0 = {length}\nSPECIFICATION Spec\nCHECK_DEADLOCK FALSE\n',
                           args=('-simulate', 'num=1', '-depth', str(length + 2), '-seed', str(ck.seed + kind)))[0]['ops']
        it = Intern(rtol=1e-7, atol=1e-9)
        with quiet():
            W = mk()
            for k in sorted(set(hist)):
                want[k] = alone(ops[k - 1][1], mk)
        before = W.state(); kept = []; past = []; pairs = set()
        for k in hist:
            name, fn = ops[k - 1]
            with quiet():
                st, out = guarded(fn, W)
            after = W.state()
            changed = [x for x in before if after.get(x) != before[x]] + [f'argument {x}' for x in W.args if digest(W.args[x]) != W.born[x]]
            W.born = {x: digest(W.args[x]) for x in W.args}
            before = after
            e = dict(kind=kind, op=name, before=past[-6:], ok=st == want[k][0] == 'ok', why='ok' if st == 'ok' == want[k][0] else str(want[k][1] if st == 'ok' else out)[:300],
                     got=[], want=[], again=[], changed=changed[:6])
            if st == want[k][0] == 'ok':
                e['got'] = value(it, copied(out)); e['want'] = value(it, want[k][1])
                kept.append((e, out))
            ev.append(e)
            if past:
                pairs.add((past[-1], name))
            past.append(name)
        for e, out in kept:
            e['again'] = value(it, copied(out))
        ck.extra['pairs of operations'] += len(pairs); ck.extra['operations'] = n
    for e in ev:                     # what is different, instead of everything
        if e['got'] == e['want'] == e['again']:
            e['got'] = e['want'] = e['again'] = ['same']
        else:
            d = [i for i in range(max(len(e['got']), len(e['want']), len(e['again']))) if not (e['got'][i:i + 1] == e['want'][i:i + 1] == e['again'][i:i + 1])][:4]
            for q in ('got', 'want', 'again'):
                e[q] = [e[q][i] for i in d if i < len(e[q])]
    ck.sample(lambda: {k: ev[7][k] for k in ('op', 'before', 'ok', 'changed')})
    ck.validate('T_History', ev)
    ck.assumptions += ['what an operation computes alone is that of a forked process with objects made anew', 'answers are compared to 1e-7']


def store(W):
    from redrock.results import write_zscan
    from redrock.zfind import zfind as zf
    from redrock.targets import DistTargetsCopy
    al, tab = zf(W.dt, W.dts, 1)
    for k in list(tab.colnames):
        if k == 'NAME':
            tab.remove_column(k)
    write_zscan(f'{W.wd}/files/scan.h5', al, tab, clobber=True)


if __name__ == '__main__':
    main(check, 'C32')
