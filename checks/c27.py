"""C27: BOSS targets keep their identity and their exposures."""
import os
import numpy as np
from common import main, quiet, guarded
import bosslab as B, desilab as D, fixtures as F, archlab as A

CFG = 'CONSTANTS\n Half = 2\n Rf = %d\n Rd = 4\n FMax = 4\n DMax = %d\n PMax = 3\n ByPosition = %s\n NoModulo = %s\n FirstPlate = %s\n Replace = %s\nSPECIFICATION Spec\nINVARIANTS Identity Own Once\nCHECK_DEADLOCK FALSE\n'
WRONG = ['ByPosition', 'NoModulo', 'FirstPlate', 'Replace']


def cfg(wrong=None, rf=5, dmax=3):
    return CFG % ((rf, dmax) + tuple('TRUE' if w == wrong else 'FALSE' for w in WRONG))


def split(t):
    t = int(t)
    return [t // 10**9, t // 10**4 % 10**5, t % 10**4]


def identifiers(ck, rng):
    from redrock.external.boss import platemjdfiber2targetid as enc, targetid2platemjdfiber as dec
    ev = []
    E = [(266, 51602, 1), (3586, 55181, 1000), (15000, 59999, 500), (1, 1, 1), (99999, 99999, 9999), (0, 51602, 3), (10000, 10000, 1000)]
    E += [(rng.randint(1, 20000), rng.randint(0, 99999), rng.randint(1, 1000)) for _ in range(400 if ck.thorough else 60)]
    for n, (p, m, f) in enumerate(E):
        for t in ((int,), (np.int32,), (np.int64,), (int, int, np.int32))[n % 4:n % 4 + 1]:
            t = (t * 3)[:3] if len(t) == 1 else t
            st, x = guarded(enc, *[c(v) for c, v in zip(t, (p, m, f))])
            sb, b = guarded(dec, x)
            ev.append(dict(kind='id', plate=p, mjd=m, fiber=f, parts=split(x) if st == 'ok' else [], back=[int(v) for v in b] if sb == 'ok' else [], types=[c.__name__ for c in t]))
    # columns of a table
    for dt in (np.int32, np.int64, '>i4'):
        P, M_, Fi = (np.array([e[i] for e in E[:6]], dtype=dt) for i in range(3))
        st, x = guarded(enc, P, M_, Fi)
        sb, b = guarded(dec, x)
        for n in range(6):
            ev.append(dict(kind='id', plate=E[n][0], mjd=E[n][1], fiber=E[n][2], parts=split(x[n]) if st == 'ok' else [], back=[int(v[n]) for v in b] if sb == 'ok' else [], types=[str(dt)]))
    return ev


class World:
    """one or two plates in a folder, and everything that is in their files"""
    def __init__(self, wd, rng, nfile, frames, flux=None, plates=None, nfib=3):
        self.wd = wd; os.makedirs(wd)
        rs = np.random.RandomState(rng.randrange(10**6))
        self.files = []; self.units = []; self.frames = frames; self.object = nfile > 1
        plates = plates or [(rng.choice([3586, 266, 10235]), rng.choice([55181, 55190])) for _ in range(nfile)]
        objects = [int(x) for x in rs.permutation(900)[:6] + 100]
        for k, (p, m) in enumerate(plates):
            last = rng.choice([[], [500]] if frames else [[], [500], [501, 1000]])      # the ends of the spectrographs
            fib = sorted(rng.sample(range(1, 6), nfib) + last); twice = frames and rng.random() < 0.5
            if frames:
                fib2 = sorted(500 + f for f in rng.sample([1, 2, 3, 4, 500], 2)) if twice else []
            things = {f: objects[rng.randrange(6)] if nfile > 1 else 0 for f in range(1, 1001)}
            if k and nfile > 1:           # some objects on both plates
                prev = self.units[-1]
                for f in fib:
                    if rng.random() < 0.7:
                        things[f] = rng.choice(prev['things'])
            self.flux = flux
            path = f'{wd}/spPlate-{p:04d}-{m}-{k}.fits'
            wide = not flux and rng.random() < 0.4 and rng.choice([3.6, 6.5])
            def rows(fibers, la, cam):
                d = {}
                for f in fibers:
                    l = la(f); w = 10**l; key = (things[f] if nfile > 1 else f)
                    fl = flux(key, w) if flux else 5 + rs.rand(len(l))
                    s = 0.15 if flux else 1.0
                    d[f] = dict(flux=np.asarray(fl) + s * rs.normal(size=len(l)), ivar=rs.uniform(0.7, 1.3, len(l)) / s**2, mask=np.where(rs.rand(len(l)) < 0.1, rs.choice([1, 2**26, 2**5]), 0),
                                wdisp=np.where(rs.rand(len(l)) < (0.01 if flux else 0.03), rs.choice([0, 8e-6], len(l)), rs.uniform(0.8, wide if wide else 1.2 if (k + len(cam)) % 2 else 1.02, 1 if flux else len(l)) * np.ones(len(l))), loglam=l)
                return d
            if not frames:
                c1 = 0.004; c0 = np.log10(rng.choice([3400., 3561., 3300.])); n = rng.choice([112, 125])
                d = rows(fib, lambda f: c0 + c1 * np.arange(n), '')
                B.plate_file(path, p, m, fib, d, c0, c1)
                self.units.append(dict(plate=p, mjd=m, fibers=fib, things=[things[f] for f in fib], data=d, lo=3500., hi=10000.))
            else:
                exps = {}; ids = []
                for c in ('b1', 'r1', 'b2', 'r2') if twice else ('b1', 'r1'):
                    exps[c] = rng.choice([1, 2] if flux else [1, 2, 3])
                    if rng.random() < 0.3 and (c[0] == 'r' or twice and c == 'b2'):
                        if not any(i[:2] == c for i in ids) and len(exps) > 1:
                            exps.pop(c); continue          # no exposure of this camera
                    for x in range(exps[c]):
                        e = f'{c}-{10 * k + x + 1:08d}'; ids.append(e)
                        ff = fib if c[1] == '1' else fib2
                        lo, hi = (3500 - rs.uniform(0, 90), 6250.) if c[0] == 'b' else (5450., 10250.)
                        d = rows(ff, lambda f: np.log10(lo + f * 37 % 50) + np.arange(70) * (np.log10(hi) - np.log10(lo)) / 70, c)
                        B.frame_file(f'{wd}/spCFrame-{e}.fits', c, p, m, ff, d)
                        self.units.append(dict(plate=p, mjd=m, fibers=ff, things=[things[f] for f in ff], data=d, lo=3500. if c[0] == 'b' else 5500., hi=6000. if c[0] == 'b' else 10000.))
                B.plate_file(path, p, m, fib, rows(fib, lambda f: 3.5 + 0.004 * np.arange(20), ''), 3.5, 0.004, nexp=exps, expids=ids)
            if nfile > 1:
                B.photo_file(path.replace('spPlate', 'photoPosPlate'), [things[f] for f in range(1, 1001)])
            self.files.append(path)

    def name(self, u, f):
        return (u['things'][u['fibers'].index(f)],) if self.object else (u['plate'], u['mjd'], f)

    def ident(self, nm):
        return nm[0] if self.object else nm[0] * 10**9 + nm[1] * 10**4 + nm[2]

    def names(self):
        return sorted({self.name(u, f) for u in self.units for f in u['fibers']})

    def spectrum(self, k, f, usemask):
        u = self.units[k]; d = u['data'][f]
        la = 10**np.array([x['loglam'] for x in u['data'].values()])
        if self.frames and len(la) < max((g - 1) % 500 for g in u['fibers']) + 1:      # rows without fiber repeat the first
            la = np.vstack([la, 10**u['data'][u['fibers'][0]]['loglam']])
        lim = B.crop(la, u['lo'], u['hi'])
        w, fl, iv = B.expected(d, 10**d['loglam'], lim, usemask)
        allwd = np.array([np.where(np.asarray(x['wdisp'], np.float32) < 1e-5, 2, x['wdisp'])[lim[0]:lim[1]] for x in u['data'].values()])
        half = int(4 * np.ceil(max(allwd.max(), 1.0)) + 1) // 2
        self.half = half
        return w, fl, iv, B.resolution(np.asarray(d['wdisp'])[lim[0]:lim[1]], half)

    def public(self):
        return [dict(plate=u['plate'], mjd=u['mjd'], fibers=[int(x) for x in u['fibers']], things=[int(x) for x in u['things']]) for u in self.units]


def brick(s):
    s = s.decode() if isinstance(s, bytes) else str(s)
    return [int(x) for x in s.strip().split('-')]


def reading(ck, rng, i, wd):
    from redrock.external.boss import read_spectra
    nfile = 1 if i % 3 else 2; frames = i % 2 == 1
    w = World(wd, rng, nfile, frames, plates=[(3586, 55181)] * nfile if i % 5 == 0 else None)
    names = w.names(); kw = {}
    sel = []
    if i % 4 in (1, 2):
        sel = rng.sample(names, rng.randint(1, len(names))); kw['targetids'] = [w.ident(n) for n in sel]
    fibers = []
    if i % 4 == 3 or i % 8 == 4:
        allf = sorted({f for u in w.units for f in u['fibers']}); fibers = rng.sample(allf, rng.randint(1, len(allf))); kw['fiberid'] = fibers if rng.random() < 0.5 else np.array(fibers)
        if not any(f in fibers for u in w.units for f in u['fibers']):
            fibers = []; kw.pop('fiberid')
    usemask = rng.random() < 0.5; kw['use_andmask'] = usemask; kw['use_frames'] = frames; kw['cache_Rcsr'] = rng.random() < 0.5
    arg = w.files
    if nfile == 1 and rng.random() < 0.5:
        arg = w.files[0].replace('-0.fits', '-*.fits')
    with quiet():
        st, res = guarded(read_spectra, arg, **kw)
    e = dict(kind='read', ok=st == 'ok', units=w.public(), object=w.object, sel=[list(n) for n in sel], fibers=fibers, targets=[], meta=[], wave=True, weight=True, res=True, frames=frames, why=repr(res)[:300] if st != 'ok' else '')
    if st == 'ok':
        T, meta = res
        ref = {(k, f): w.spectrum(k, f, usemask) for k, u in enumerate(w.units) for f in u['fibers']}
        tup = lambda t: [int(t)] if w.object else split(t)
        for t in T:
            found = []
            for s in t.spectra:
                hit = [kf for kf, r in ref.items() if len(r[1]) == len(s.flux) and np.allclose(r[1], s.flux, rtol=1e-6)]
                if len(hit) != 1:
                    found.append([0, 0]); continue
                k, f = hit[0]; found.append([k + 1, int(f)]); r = ref[hit[0]]
                e['wave'] &= bool(len(r[0]) == len(s.wave) and np.allclose(r[0], s.wave, rtol=1e-9))
                # badly resolved pixels lose their weight when the spectrum is made
                R = r[3]; low = R.sum(axis=1) < 0.99
                close = abs(R.sum(axis=1) - 0.99) < 1e-6
                e['weight'] &= bool(np.allclose(np.where(low, 0, r[2])[~close], np.asarray(s.ivar)[~close], rtol=1e-6))
                for have in [s.R] + ([s.Rcsr] if s.Rcsr is not None else []):
                    have = have.toarray() if hasattr(have, 'toarray') else np.asarray(have)
                    e['res'] &= bool(have.shape == R.shape and np.allclose(have, R, atol=1e-6))
                e['res'] &= (s.Rcsr is not None) if kw['cache_Rcsr'] else True
            e['targets'].append(dict(name=tup(t.id), brick=brick(t.meta['BRICKNAME']), spectra=found))
        e['meta'] = [dict(name=tup(r['TARGETID']), brick=brick(r['BRICKNAME'])) for r in meta]
    return e


def reference(w, names, tfiles, coadd, usemask, nminima, arch, tdir, priors=None):
    """fits of targets made without the reader"""
    import scipy.sparse
    from redrock.targets import Spectrum, Target, DistTargetsCopy
    from redrock.templates import load_dist_templates
    from redrock.zfind import zfind
    T = []
    for nm in names:
        sp = []
        for k, u in enumerate(w.units):
            for f in u['fibers']:
                if w.name(u, f) == nm:
                    a, b, c, R = w.spectrum(k, f, usemask); n = len(a)
                    h = w.half         # spectra are coadded when wavelengths and number of diagonals are the same
                    full = np.array([np.concatenate([np.diagonal(R, o) if o < 0 else np.zeros(o), np.zeros(-o) if o < 0 else np.diagonal(R, o)]) for o in range(h, -h - 1, -1)])
                    R = scipy.sparse.dia_matrix((full, np.arange(h, -h - 1, -1)), (n, n))
                    sp.append(Spectrum(a, b, c, R, R.tocsr()))
        T.append(Target(w.ident(nm), sp, coadd=coadd, meta=dict(X=1, X_datatype='i4')))
    with quiet():
        dt = DistTargetsCopy(T, comm=None)
        tm = load_dist_templates(dt.wavegrids(), templates=tdir, comm=None, mp_procs=1)
        ar = None
        if arch:
            from redrock.archetypes import All_archetypes
            ar = All_archetypes(archetypes_dir=arch).archetypes
        return zfind(dt, tm, 1, nminima=nminima, archetypes=ar, priors=priors, deg_legendre=0)[1]


def txt(x):
    return (x.decode() if isinstance(x, bytes) else str(x)).strip()


def same(a, b, cols):
    for x, y in cols:
        u, v = a[x], b[y]
        if isinstance(u, (str, bytes, np.str_, np.bytes_)):
            if txt(u) != txt(v):
                return False
        else:
            u = np.trim_zeros(np.atleast_1d(u).astype(float).ravel(), 'b'); v = np.trim_zeros(np.atleast_1d(v).astype(float).ravel(), 'b')
            if u.shape != v.shape or not np.allclose(u, v, rtol=2e-4, atol=2e-5):
                return False
    return True


def complete(ck, rng, i, wd, tdir, tf, tm, arch):
    from redrock.results import read_zscan
    from astropy.table import Table
    from astropy.io import fits
    frames = i % 3 == 1; nfile = 2 if i % 4 == 2 else 1
    spec = {}
    def flux(key, w):
        if key not in spec:
            t = rng.choice(tm); z = t.redshifts
            spec[key] = (t, float(z[1] + (z[-2] - z[1]) * rng.random()), np.array([rng.uniform(1.5, 3)] + [rng.uniform(-0.2, 0.2) for _ in range(t.nbasis - 1)]))
        t, z, c = spec[key]
        ok = (w > 3400) & (w < 10200); f = np.ones(len(w)); f[ok] = t.eval(c, w[ok], z)
        return f
    w = World(wd, rng, nfile, frames, flux=flux, nfib=4)
    names = w.names(); sel = names; first = 0; n = -1; opt = []
    if i % 4 == 1:
        sel = sorted(rng.sample(names, 2)); opt += ['--targetids', ','.join(str(w.ident(x)) for x in sel)]
    elif i % 4 == 3 and len(names) > 2:
        first = rng.choice([1, 0, 2]); n = rng.choice([-1, 1, 2])
        if first or n < 0:
            opt += ['--mintarget', first]
        if n >= 0:
            opt += ['-n', n]
    usemask = rng.random() < 0.5; allspec = rng.random() < 0.4; nm = rng.choice([1, 2, 3])
    opt += ['--use-andmask'] * usemask + ['--allspec'] * allspec + ['--use-frames'] * frames + ['--nminima', nm]
    ar = arch if i % 5 in (2, 3) else None
    if ar:
        opt += ['--archetypes', ar]
    pri = None
    if i % 6 == 4:
        pri = f'{wd}/priors.fits'
        t = Table(dict(TARGETID=[w.ident(x) for x in sel[:2]], FUNCTION=[rng.choice(['gaussian', 'tophat', 'lorentzien'])] * len(sel[:2]), Z=[0.1] * len(sel[:2]), SIGMA=[0.05] * len(sel[:2])))
        t.meta['EXTNAME'] = 'PRIORS'; t.write(pri)
        opt += ['--priors', pri]
    out = f'{wd}/zbest.fits'; det = f'{wd}/details.h5'
    args = ['--spplate', *w.files, '-t', tdir, '--zbest', out, '--output', det, *opt]
    if i % 3 == 0 and i:
        st, err = B.rrboss_mpi(rng.choice([2, 3]), args, seed=i); how = 'mpi'
    else:
        st, err = B.rrboss(args + ['--mp', 1 + i % 2]); how = 'mp'
    e = dict(kind='run', ok=st == 'ok' and os.path.exists(out) and os.path.exists(det), names=[list(x) for x in sel], first=first, n=n, rows=[], fit=True, brick=True, details=True, header=True,
             opt=[str(o) for o in opt], how=how, files=len(w.files), why=repr(err)[:400] if st != 'ok' else '')
    if e['ok']:
        with fits.open(out, memmap=False) as h:
            z = Table(h['ZBEST'].data.copy()); hd = h[0].header.copy()
        tup = (lambda t: [int(t)]) if w.object else split
        e['rows'] = [tup(t) for t in z['TARGETID']]
        ref = reference(w, sel, tf, not allspec, usemask, nm, ar, tdir, pri)
        e['brick'] = all(brick(r['BRICKNAME']) == [x[0] if len(x) == 1 else 0 for x in ({u['plate'] for u in w.units}, {u['mjd'] for u in w.units}) for x in [sorted(x)]] for r in z)
        with quiet():
            _, zf = read_zscan(det)
        cols = ['z', 'zerr', 'zwarn', 'npixels', 'chi2', 'deltachi2', 'spectype', 'subtype', 'fitmethod', 'coeff']
        for r in z:
            q = ref[(ref['targetid'] == r['TARGETID'])]
            b = q[q['znum'] == 0]
            e['fit'] &= len(b) == 1 and same(r, b[0], [(c.upper(), c) for c in cols])
            e['why'] += '; '.join(f'{int(r["TARGETID"])} {c}: {r[c.upper()]} but {b[0][c]}' for c in cols if len(b) == 1 and not same(r, b[0], [(c.upper(), c)]))
            d = zf[zf['targetid'] == r['TARGETID']]
            e['details'] &= len(d) == len(q) and same(r, d[d['znum'] == 0][0], [(c.upper(), c) for c in cols]) and all(same(x, y, [(c, c) for c in cols]) for x, y in zip(d, q))
        if i % 6 in (0, 5):      # again, from the scan just made
            more = ['--spplate', *w.files, '-t', tdir, '--zbest', f'{wd}/again.fits', '--chi2-scan', det, *opt]
            st, err = B.rrboss_mpi(2, more, seed=i) if i % 4 == 0 else B.rrboss(more + ['--mp', 1 + (i + 1) % 2])
            e['ok'] = st == 'ok'
            if st == 'ok':
                y = Table(fits.getdata(f'{wd}/again.fits', 'ZBEST'))
                e['why'] += 'again: ' + '; '.join(f'{int(r["TARGETID"])} {c}: {r[c.upper()]} now {y[y["TARGETID"] == r["TARGETID"]][0][c.upper()]}' for r in z for c in cols if not same(r, y[y['TARGETID'] == r['TARGETID']][0], [(c.upper(), c.upper())]))
                e['fit'] &= len(y) == len(z) and all(same(r, y[y['TARGETID'] == r['TARGETID']][0], [(c.upper(), c.upper()) for c in cols]) for r in z)
            else:
                e['why'] += 'again: ' + repr(err)[:300]
        have = {(hd[f'TEMNAM{k:02d}'], str(hd[f'TEMVER{k:02d}'])) for k in range(len(tf)) if f'TEMNAM{k:02d}' in hd}
        e['header'] = have == {(t.full_type, str(t._version)) for t in tm} and f'TEMNAM{len(tf):02d}' not in hd and hd['RRVER'] != ''
        if ar:
            fs = sorted(os.listdir(ar))
            e['header'] &= {(hd.get(f'ARCNAM{k:02d}'), str(hd.get(f'ARCVER{k:02d}'))) for k in range(len(fs))} == {(A.Arch(f'{ar}/{f}').type, str(A.Arch(f'{ar}/{f}').version)) for f in fs}
        else:
            e['header'] &= 'ARCNAM00' not in hd
    return e


def check(ck):
    rng = ck.rng
    ck.model('Boss', cfg())
    for w in WRONG:
        ck.expect_violation('Boss', cfg(w), 'Own is violated')
    ck.expect_violation('Boss', cfg(rf=4), 'Identity')
    ck.expect_violation('Boss', cfg(dmax=4), 'Identity')
    ev = identifiers(ck, rng)
    for i in range(120 if ck.thorough else 24):
        ev.append(reading(ck, rng, i, f'{ck.work}/r{i}'))
    tdir = ck.work + '/t'; tf = D.template_dir(tdir, stars=True, nz=8); tm = D.load(tf)
    arch = ck.work + '/arch'; os.makedirs(arch)
    A.archetype_file(f'{arch}/rrarchetype-galaxy.fits', 'GALAXY', 4, 31, w0=900., nw=1000, version='8'); A.archetype_file(f'{arch}/rrarchetype-qso.fits', 'QSO', 3, 32, w0=800., nw=1000, version='0.7')
    for i in range(40 if ck.thorough else 12):
        ev.append(complete(ck, rng, i, f'{ck.work}/e{i}', tdir, tf, tm, arch))
    ck.validate('T_Boss', ev)
    for k in ('read', 'run'):
        ck.sample(lambda: next(e for e in ev if e['kind'] == k))
    ck.extra['readings'] = sum(e['kind'] == 'read' for e in ev); ck.extra['runs'] = sum(e['kind'] == 'run' for e in ev)
    ck.assumptions += ['the rows of a plate file are its fibers in order (row = fiber - 1), those of a frame the fibers of its spectrograph',
                       'fits of the same spectra agree within 2e-4: the reference fits targets built from the content of the files without the reader']


main(check, 'C27')
