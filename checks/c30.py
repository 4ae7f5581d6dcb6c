"""C30: using GPUs changes nothing but the speed."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'lib', 'gpu'))
import numpy as np
import cupy as cp                      # the stand-in
from common import main, quiet, guarded, Intern
import fixtures, refmodel


def host(x):
    """what is on the device, as the host sees it"""
    if isinstance(x, cp.ndarray):
        return x.get()
    if isinstance(x, dict):
        return {k: host(v) for k, v in x.items()}
    if isinstance(x, (list, tuple)):
        return [host(v) for v in x]
    return x


def flat(x):
    if isinstance(x, dict):
        return [y for k in sorted(x) for y in flat(x[k])]
    if isinstance(x, (list, tuple)):
        return [z for y in x for z in flat(y)]
    return [x]


class Judge:
    def __init__(self):
        self.ev = []; self.intern = Intern(rtol=1e-7, atol=1e-10); self.n = 0

    def launches(self, what):
        for q in cp.LAUNCHES:
            self.ev.append(dict(kind='launch', what=what, kernel=q['kernel'], beyond=q['beyond'], races=q['races'], types=q['types'], threads=q['threads']))
        del cp.LAUNCHES[:]

    def same(self, what, f, g, rtol=None, scale=None):
        """f: on the host, g: on the device"""
        del cp.LAUNCHES[:]
        with quiet():
            a = guarded(f); b = guarded(g)
        self.launches(what)
        it = self.intern if rtol is None else Intern(rtol=rtol, atol=rtol * (scale or 1))
        def rows(st, out):
            if st != 'ok':
                return []
            r = []
            for x in flat(host(out)):
                if x is None or isinstance(x, str):
                    r.append('s:' + str(x))
                elif isinstance(x, np.ndarray) and x.dtype.kind in 'SU':
                    r.append(['s:' + str(y) for y in x.ravel()])
                else:
                    r.append(it(np.asarray(x, dtype=float)))
            return r
        self.ev.append(dict(kind='same', what=what, cpu=a[0], gpu=b[0], want=rows(*a), got=rows(*b),
                            why='ok' if b[0] == 'ok' else (type(b[1]).__name__ + ' ' + str(b[1])[:160]).replace('"', '').replace('\n', ' ')))
        return a, b


def rebinning(ck, J):
    from redrock import rebin, templates
    rng = np.random.RandomState(ck.rng.randrange(2**31))
    for k in range(120 if ck.thorough else 40):
        n = int(rng.randint(8, 60)); nb = int(rng.randint(1, 5)); m = int(rng.randint(1, 30))
        x = np.cumsum(rng.uniform(0.3, 3.0, n)) + 100. if k % 3 else 100. + 2.0 * np.arange(n)
        y = rng.normal(size=(nb, n)) if k % 4 else rng.normal(size=n)
        nz = [0, 1, 3, 7, 25][k % 5]
        z = None if nz == 0 else float(rng.uniform(0, 0.2)) if k % 7 == 1 else rng.uniform(0, 0.2, nz)
        zmax = 0 if z is None else np.max(z); zmin = 0 if z is None else np.min(z)
        lo, hi = x[0] * (1 + zmax), x[-1] * (1 + zmin)
        if hi - lo < 1:
            hi = lo + 1
        e = np.sort(rng.uniform(lo, hi, m + 1))
        if np.diff(e).min() < 1e-6:
            e = np.linspace(lo, hi, m + 1)
        if k % 5 == 0:
            e[-1] = x[-1] * (1 + zmin)            # up to the last sample
        if k % 6 == 0:
            e[0] = x[0] * (1 + zmax)
        if k % 8 == 3:                              # samples on edges
            for i in range(1, m):
                j = np.argmin(np.abs(x - e[i]))
                e[i] = x[j] if z is None else e[i]
            e = np.unique(e)
        if k % 11 == 5:
            e[0] = x[0] * (1 + zmax) - 1e-3         # beyond
        if k % 11 == 6:
            e[-1] = x[-1] * (1 + zmin) + 1e-3
        f = lambda: rebin.trapz_rebin(x, y, edges=e, myz=z)
        h = rng.randint(3)
        g = [lambda: rebin.trapz_rebin(x, y, edges=e, myz=z, use_gpu=True),
             lambda: rebin.trapz_rebin(cp.asarray(x), cp.asarray(y), edges=cp.asarray(e), myz=z if z is None or np.isscalar(z) else cp.asarray(z), use_gpu=True),
             lambda: rebin.trapz_rebin(cp.asarray(x), cp.asarray(y), edges=cp.asarray(e), myz=z if z is None or np.isscalar(z) else cp.asarray(z), use_gpu=True,
                                       xmin=x[0] * (1 + zmax), xmax=x[-1] * (1 + zmin), edge_min=e[0], edge_max=e[-1])][h]
        J.same(f'trapz_rebin {k} {h}', f, g)
        if k % 5 == 2:
            c = 0.5 * (e[1:] + e[:-1])
            if len(c) > 2:
                J.same(f'trapz_rebin centers {k}', lambda: rebin.trapz_rebin(x, y, xnew=c, myz=z), lambda: rebin.trapz_rebin(x, y, xnew=c, myz=z, use_gpu=True))


def products(ck, J):
    """the products of matrices, on their own"""
    from redrock import zscan
    import mpilab
    rng = np.random.RandomState(ck.rng.randrange(2**31))
    zscan.cp = cp
    for k in range(60 if ck.thorough else 24):
        nz = [1, 2, 5, 33, 513][k % 5]; nrows = int(rng.randint(1, 40)) if k % 6 else int(rng.randint(60, 200)); nb = int(rng.randint(1, 6))
        a = rng.normal(size=(nz, nrows, nb)); b = rng.normal(size=(nz, nrows, nb)); full = bool(k % 4)
        if hasattr(zscan, 'calc_batch_dot_product_3d3d_gpu'):
            J.same(f'a.T b {nz} {nrows} {nb} {full}', lambda: np.einsum('iaj,iak->ijk', a, b), lambda: zscan.calc_batch_dot_product_3d3d_gpu(cp.asarray(a), cp.asarray(b), transpose_a=True, fullprecision=full))
            at = np.ascontiguousarray(a.swapaxes(1, 2))
            J.same(f'a b {nz} {nrows} {nb} {full}', lambda: np.einsum('iaj,iak->ijk', a, b), lambda: zscan.calc_batch_dot_product_3d3d_gpu(cp.asarray(at), cp.asarray(b), fullprecision=full))
        c = rng.normal(size=(nz, nb))
        J.same(f'model {nz} {nrows} {nb}', lambda: zscan.calc_batch_dot_product_3d2d(a, c, False), lambda: zscan.calc_batch_dot_product_3d2d(cp.asarray(a), cp.asarray(c), True))
    for k in range(4):
        tm, S = setup(ck.rng, nspec=[1, 3, 6, 2][k])
        t = S.fresh()[0]; nz = [1, 3, 4, 2][k]; nb = [2, 1, 4, 3][k]
        d = {s.wavehash: rng.normal(size=(nz, len(s.wave), nb)) for s in t.spectra}
        J.same(f'resolution {k}', lambda: np.stack([zscan.dot_product_sparse_one(t.spectra, d, i) for i in range(nz)]),
               lambda: zscan.batch_dot_product_sparse(t.spectra, {h: cp.asarray(d[h]) for h in d}, nz, True))
        J.same(f'resolution, strided {k}', lambda: np.stack([zscan.dot_product_sparse_one(t.spectra, d, i) for i in range(nz)]),
               lambda: zscan.batch_dot_product_sparse(t.spectra, {h: cp.asarray(np.ascontiguousarray(d[h].swapaxes(1, 2))).swapaxes(1, 2) for h in d}, nz, True))


def transmission(ck, J):
    from redrock.igm import transmission_Lyman
    rng = np.random.RandomState(ck.rng.randrange(2**31))
    w = np.linspace(3600., 5800., 40)
    for model in ('Calura12', 'Kamble20', 'Inoue14', 'None', None):
        for z in (np.array([2.5]), np.array([0.1, 1.9, 3.0, 4.7]), 2.2, np.linspace(1.5, 6.5, 9), np.array([0.2, 0.3]), np.array([4.1, 2.0, 3.3])):
            for arr in (True, False):
                J.same(f'transmission {model} {np.size(z)} {arr}', lambda: transmission_Lyman(z, w, model=model, always_return_array=arr),
                       lambda: transmission_Lyman(z if np.isscalar(z) else [z, cp.asarray(z)][rng.randint(2)], w, use_gpu=True, model=model, always_return_array=arr))


def setup(rng, nspec=3, ntarg=2, kind='pca', seed=0, bands=('b', 'r', 'z')):
    """templates and targets of one kind"""
    import mpilab
    sd = rng.randrange(10**6)
    if kind == 'pca':
        tm = [fixtures.template('GALAXY', '', 0.0, 0.3, 9, 3, sd, oii=rng.random() < 0.5), fixtures.template('QSO', 'HIZ', 1.9, 3.1, 8, 2, sd + 1, igm='Inoue14', wavemin=800., wavemax=9000.),
              fixtures.template('QSO', 'LOZ', 1.9, 3.1, 7, 2, sd + 5, igm='Calura12', wavemin=800., wavemax=9000.), fixtures.template('STAR', 'F', -0.002, 0.002, 7, 1, sd + 2)]
    else:
        tm = [fixtures.template('GALAXY', '', 0.0, 0.3, 9, 3, sd, method=kind), fixtures.template('STAR', 'F', -0.002, 0.002, 7, 1, sd + 2)]
    return tm, mpilab.Setup(rng, ntarg, tm, nspec=(nspec,), bands=bands, noise=0.2)


def used_as(wave, t):
    return {s.wavehash: s.wave for s in t.spectra}


def edges_of(t):
    return {s.wavehash: (s.gpuedges, s.minedge, s.maxedge) for s in t.spectra}


def fits(ck, J):
    from redrock import zscan, templates, fitz as fz
    rng = ck.rng
    for k in range(12 if ck.thorough else 5):
        kind = ['pca', 'NMF', 'pca', 'pca', 'NMF'][k % 5]
        tm, S = setup(rng, nspec=[3, 1, 6, 2, 3][k % 5], kind=kind)
        for case in range(4):
            tt = S.fresh(); t = tt[0]; u = S.fresh()[0]
            for a in (t, u):
                if case == 1:
                    for s in a.spectra:
                        s.ivar[::3] = 0
                if case == 2:
                    for s in a.spectra[1:] or a.spectra:
                        s.ivar[:] = 0
                if case == 3:
                    for s in a.spectra:
                        s.ivar[:] = 0
            dw = used_as(None, t)
            tx = tm[(k + case) % len(tm)]
            z = tx.redshifts
            zz = [z, z[2:4], z[:1]][case % 3]
            what = f'{kind} {k} {case}'
            A, B = J.same('rebin_template ' + what, lambda: templates.rebin_template(tx, zz, dw),
                          [lambda: templates.rebin_template(tx, zz, dw, use_gpu=True), lambda: templates.rebin_template(tx, cp.asarray(zz), dedges=edges_of(t), use_gpu=True),
                           lambda: templates.rebin_template(tx, cp.asarray(zz), dedges={h: e[0] for h, e in edges_of(t).items()}, use_gpu=True)][rng.randrange(3)])
            if A[0] != 'ok' or B[0] != 'ok':
                continue
            cd, gd = A[1], B[1]
            for alg in ('PCA', 'NNLS', 'NMF', 'BVLS', 'bounds', 'prior', 'half', 'nonsense'):
                args = dict(solve_matrices_algorithm={'bounds': 'BVLS', 'prior': 'PCA', 'half': 'PCA'}.get(alg, alg))
                n = tx.nbasis
                if alg == 'bounds':
                    b = np.zeros((2, n)); b[1] = np.inf; b[0][1:] = -np.inf
                    args['solver_args'] = dict(bounds=b)
                if alg == 'prior':
                    args['prior'] = np.diag(np.linspace(0, 30., n))
                if alg == 'half':
                    args['fullprecision'] = False
                if alg in ('BVLS', 'bounds') and case == 3 or not np.concatenate([s.ivar for s in t.spectra]).any() and case != 3:
                    continue
                def f():
                    w, fl, wf = zscan.spectral_data(t.spectra)
                    return zscan.calc_zchi2_batch(t.spectra, cd, w, fl, wf, len(zz), n, **args)
                def g():
                    w, fl, wf = u.gpu_spectral_data()
                    return zscan.calc_zchi2_batch(u.spectra, gd, w, fl, wf, len(zz), n, use_gpu=True, **args)
                J.same(f'calc_zchi2_batch {alg} {what}', f, g, rtol=1e-6)
        # templates that vanish where the data are: no solution
        tt = S.fresh(); t = tt[0]
        dw = used_as(None, t); tx = tm[0]; zz = tx.redshifts[:3]
        cd = {h: np.ascontiguousarray(np.random.RandomState(k).rand(3, len(w), 3)) for h, w in dw.items()}
        for h in cd:
            cd[h][1, :, 2] = 0
        gd = {h: cp.asarray(cd[h]) for h in cd}
        for alg in ('PCA', 'NNLS'):
            def f():
                return zscan.calc_zchi2_batch(t.spectra, cd, *zscan.spectral_data(t.spectra), 3, 3, solve_matrices_algorithm=alg)
            def g():
                return zscan.calc_zchi2_batch(t.spectra, gd, *t.gpu_spectral_data(), 3, 3, solve_matrices_algorithm=alg, use_gpu=True)
            J.same(f'calc_zchi2_batch singular {alg}', f, g, rtol=1e-6)


def scans(ck, J):
    """the coarse scan and the fits around its minima, with the objects the programs use"""
    from redrock import zscan, fitz as fz, zfind as zf
    from redrock.templates import DistTemplate, ReDistTemplate
    from redrock.targets import DistTargetsCopy
    rng = ck.rng
    for k in range(9 if ck.thorough else 4):
        kind = ['pca', 'NMF', 'pca'][k % 3]
        tm, S = setup(rng, nspec=[3, 2, 6, 1][k % 4], kind=kind, ntarg=3)
        cp.FREE[0] = [16 << 30, 1 << 30][k % 2]
        dw = S.dwave()
        if k % 3 == 2:
            for s in S.targets[1].spectra:
                s.ivar[:] = 0
        for tx in tm:
            what = f'{kind} {k} {tx.full_type}'
            cls = [DistTemplate, ReDistTemplate][k % 2]
            a = guarded(DistTemplate, tx, dw); b = guarded(cls, tx, dw, use_gpu=True, gpu_mode=True)
            J.launches('DistTemplate ' + what)
            J.same('DistTemplate ' + what, lambda: a[1].local.data, lambda: b[1].local.data)
            if a[0] != 'ok' or b[0] != 'ok':
                continue
            T = S.fresh(); U = S.fresh(); ids = [t.id for t in T]
            A, B = J.same('calc_zchi2 ' + what, lambda: zscan.calc_zchi2(ids, T, a[1]), lambda: zscan.calc_zchi2(ids, U, b[1], use_gpu=True), rtol=1e-6)
            if A[0] != 'ok' or B[0] != 'ok':
                continue
            tx.gpuwave = cp.asarray(tx.wave); tx.gpuflux = cp.asarray(tx.flux)
            for j in range(len(ids)):
                chi2 = A[1][0][j] + A[1][2][j]
                if not np.any([s.ivar.any() for s in T[j].spectra]):
                    continue
                n = [9, 15, None][rng.randrange(3)]; nm = rng.choice([1, 3])
                J.same(f'fitz {j} {n} {nm} ' + what, lambda: fz.fitz(chi2, tx.redshifts, T[j], tx, nminima=nm, zminfit_npoints=n),
                       lambda: fz.fitz(chi2, tx.redshifts, U[j], tx, nminima=nm, zminfit_npoints=n, use_gpu=True), rtol=1e-5)
        # everything together
        def whole(gpu):
            d = DistTargetsCopy(S.fresh())
            dt = [ReDistTemplate(t, dw, use_gpu=True, gpu_mode=True) if gpu else DistTemplate(t, dw) for t in tm]
            sc, tab = zf.zfind(d, dt, mp_procs=1, nminima=2, use_gpu=gpu)
            c = sorted(tab.colnames)
            return c, [np.asarray(tab[x]) for x in c], [[sc[t][ft][q] for q in sorted(sc[t][ft])] for t in sorted(sc) for ft in sorted(sc[t])]
        J.same(f'zfind {kind} {k}', lambda: whole(False), lambda: whole(True), rtol=1e-5)
    cp.FREE[0] = 16 << 30


def archetypes(ck, J):
    from redrock.archetypes import Archetype
    from redrock import fitz as fz, zscan
    from redrock.zscan import spectral_data
    import archlab
    rng = ck.rng
    p = archlab.archetype_file(os.path.join(ck.work, 'rrarchetype-galaxy.fits'), 'GALAXY', 5, seed=rng.randrange(10**5), w0=1500., dw=10., nw=800)
    with quiet():
        ar = Archetype(p)
    for k in range(24 if ck.thorough else 9):
        nspec = [3, 3, 2, 1, 6][k % 5]
        tm, S = setup(rng, nspec=nspec, kind='pca', ntarg=1)
        T = S.fresh()[0]; U = S.fresh()[0]
        dw = used_as(None, T)
        nleg = [2, 0, 3, 1][k % 4]; percam = k % 3 != 1 and nspec > 1
        if percam and nleg == 0 and k % 2:
            percam = False
        nn = [None, 2, 1, 3][rng.randrange(4)] if k % 2 else None
        ncam = len(dw) if percam else 1
        prior = fz.prior_on_coeffs(nn or 1, nleg, 0.3, ncam) if percam and k % 4 == 0 and nleg else None
        z = rng.uniform(0.0, 0.3)
        if k % 9 == 5:
            # the data end beyond the archetypes at rest, not beyond the redshifted ones
            with quiet():
                full = ar.wave, ar.flux
                last = max(s.wave[-1] + (s.wave[-1] - s.wave[-2]) for s in T.spectra)
                z = 0.25; keep = ar.wave <= last / 1.1
                p2 = archlab.archetype_file(os.path.join(ck.work, f'short{k}.fits'), 'GALAXY', 4, seed=rng.randrange(10**5), w0=1500., dw=10., nw=int(keep.sum()))
                ar2 = Archetype(p2)
            J.same(f'archetypes rebinned at the red end {k}', lambda: ar2.rebin_template_batch(z, dw), lambda: ar2.rebin_template_batch(z, dw, dedges=edges_of(U), use_gpu=True))
            J.same(f'archetypes rebinned beyond the red end {k}', lambda: ar2.rebin_template_batch(0.0, dw), lambda: ar2.rebin_template_batch(0.0, dw, dedges=edges_of(U), use_gpu=True))
        if k == 4:
            z = (min(s.wave[0] - (s.wave[1] - s.wave[0]) / 2 for s in T.spectra) / ar.wave[0] - 1) + 1e-3   # just beyond the blue end of the archetypes
        for t in (T, U):
            t.legendre(nleg)
        what = f'{k} nspec {nspec} nleg {nleg} percam {percam} nn {nn} prior {prior is not None}'
        ed = edges_of(U)
        for zz in (z, 0.0) if k != 4 else (z,):
            J.same(f'archetypes rebinned {what}', lambda: ar.rebin_template_batch(zz, dw), lambda: ar.rebin_template_batch(zz, dw, dedges=ed, use_gpu=True))
            J.same(f'archetypes rebinned, some {what}', lambda: ar.rebin_template_batch(zz, dw, indx=[2, 0]), lambda: ar.rebin_template_batch(zz, dw, dedges=ed, indx=[2, 0], use_gpu=True))
            J.same(f'archetypes rebinned, plain {what}', lambda: ar.rebin_template_batch(zz, dw), lambda: ar.rebin_template_batch(zz, dw, use_gpu=True))
        J.same(f'archetypes interpolated {what}', lambda: ar.rebin_template_batch(z, dw, trapz=False), lambda: ar.rebin_template_batch(z, dw, trapz=False, use_gpu=True))
        for m in ('bvls', 'pca'):
            if m == 'pca' and nn:
                continue
            J.same(f'best archetype {m} {what}', lambda: ar.get_best_archetype(T, *spectral_data(T.spectra), dw, z, percam, nn, prior=prior, solve_method=m),
                   lambda: ar.get_best_archetype(U, *spectral_data(U.spectra), dw, z, percam, nn, prior=prior, solve_method=m, use_gpu=True), rtol=1e-6)
        tx = tm[0]
        from redrock.templates import DistTemplate
        with quiet():
            chi2 = zscan.calc_zchi2([T.id], [T], DistTemplate(tx, dw))[0][0]
        tx.gpuwave = cp.asarray(tx.wave); tx.gpuflux = cp.asarray(tx.flux)
        kw = dict(nminima=2, archetype=ar, deg_legendre=nleg, per_camera=percam, n_nearest=nn, prior_sigma=0.3 if prior is not None else None)
        J.same(f'fitz with archetypes {what}', lambda: fz.fitz(chi2, tx.redshifts, T, tx, **kw), lambda: fz.fitz(chi2, tx.redshifts, U, tx, use_gpu=True, **kw), rtol=1e-5)


def asking(ck, J):
    """requests for polynomials in every order"""
    import mpilab
    tm = [fixtures.template('GALAXY', '', 0.0, 0.3, 5, 1, 3)]
    S = mpilab.Setup(ck.rng, 1, tm, nspec=(3,))
    cases = ck.generate('G_Device', 'SPECIFICATION GSpec\nCONSTANTS Degrees = {1, 2, 3} Changes = 0 Stale = FALSE Early = FALSE\nCHECK_DEADLOCK FALSE\n')
    if not ck.thorough:
        cases = [c for c in cases if len({x['n'] for x in c['calls']}) <= 2]
        cases = ck.rng.sample(cases, min(len(cases), 250))
    ref = {n: S.fresh()[0].legendre(n) for n in (1, 2, 3)}
    hs = sorted(ref[1])
    want = {n: [J.intern(np.asarray(ref[n][h])) for h in hs] for n in ref}
    t = S.fresh()[0]
    for c in cases:
        t._legendre = None; t._gpulegendre = None; t.nleg = None
        u = S.fresh()[0] if ck.thorough or len(J.ev) % 7 == 0 else None
        tt = u if u is not None else type(t)(t.id, t.spectra)
        got = []
        for q in c['calls']:
            st, r = guarded(tt.legendre, q['n'], use_gpu=q['side'] == 'device')
            if st != 'ok':
                break
            got.append(dict(n=int(next(iter(r.values())).shape[0]), side='device' if all(isinstance(x, cp.ndarray) for x in r.values()) else 'host',
                            value=[J.intern(host(r[h])) for h in sorted(r)], want=want[q['n']]))
        J.ev.append(dict(kind='ask', calls=c['calls'], got=got))
    # the copies of the spectra
    for k in range(3):
        t = S.fresh()[0]
        if k:
            for s in t.spectra:
                s.ivar[::k + 1] = 0
        from redrock.zscan import spectral_data
        for _ in range(2):
            J.same(f'spectra on the device {k}', lambda: spectral_data(t.spectra), lambda: t.gpu_spectral_data())


class Lab:
    def __init__(self, ck):
        import desilab as D, archlab as A
        self.ck = ck; w = ck.work; rng = ck.rng
        self.tdir = f'{w}/templates'; files = D.template_dir(self.tdir, nz=9, seed=rng.randrange(100))
        tm = D.load(files)
        rows = []
        for i in range(5):
            src = tm[i % 2]
            rows.append(D.make_row(100 + 3 * i, src, float(src.redshifts[0] + (0.2 + 0.15 * i) * (src.redshifts[-1] - src.redshifts[0])), np.random.RandomState(rng.randrange(10**6)), zero=i == 3))
        self.ids = [r['tid'] for r in rows]
        self.rows = rows
        self.input = D.write_file(f'{w}/in.fits', rows)
        self.adir = f'{w}/arch'; os.makedirs(self.adir)
        A.archetype_file(f'{self.adir}/rrarchetype-galaxy.fits', 'GALAXY', 4, rng.randrange(10**5), w0=1500., dw=10., nw=860)
        self.n = 0; self.refs = {}

    def options(self, extra):
        self.n += 1
        d = f'{self.ck.work}/g{self.n}'; os.makedirs(d)
        return ['-i', self.input, '-t', self.tdir, '-o', f'{d}/z.fits', '-d', f'{d}/d.h5', *extra], d

    def results(self, d, intern):
        import desilab as D, mpilab
        from redrock.results import read_zscan
        cols, rows = mpilab.table_rows(D.read_catalog(f'{d}/z.fits')['z'], intern, skip=('VERSION',))
        with quiet():
            sc, zf = read_zscan(f'{d}/d.h5')
        c2, r2 = mpilab.table_rows(zf, intern)
        scan = [[str(t), ft, [intern(np.asarray(sc[t][ft][k], float)) for k in ('redshifts', 'zchi2', 'penalty', 'zcoeff')]] for t in sorted(sc) for ft in sorted(sc[t])]
        return cols + c2, rows + r2, scan

    def reference(self, extra):
        """the run without GPU"""
        import desilab as D
        key = tuple(map(str, extra))
        if key not in self.refs:
            o, d = self.options([*extra, '--mp', '1'])
            st, err = D.rrdesi(o)
            it = Intern(rtol=1e-4, atol=1e-5)
            self.refs[key] = (it, self.results(d, it) if st == 'ok' else ([], [], []))
        return self.refs[key]

    def run(self, J, size, buses, extra=(), gpuargs=(), mode='eager', record=False):
        """rrdesi --gpu; buses: the device of every rank (None: not MPI)"""
        import desilab as D, simmpi, mpilab, threading
        it, ref = self.reference(extra)
        o, d = self.options([*extra, '--gpu', *gpuargs])
        what = f'ranks {size} devices {buses} {" ".join(map(str, [*extra, *gpuargs]))} {mode}'
        del cp.LAUNCHES[:]
        seen = {}; counts = []
        import redrock.external.desi as rd
        orig_z, orig_c = getattr(rd, 'zfind', None), getattr(rd, 'getGPUCountMPI', None)
        def zf(targets, *a, **k):
            seen[targets.comm.rank if targets.comm is not None else 0] = (bool(k.get('use_gpu', False)), [int(x) for x in targets.local_target_ids()])
            return orig_z(targets, *a, **k)
        def cnt(comm):
            n = orig_c(comm); counts.append(int(n)); return n
        if orig_z:
            rd.zfind = zf
        if orig_c:
            rd.getGPUCountMPI = cnt
        left = 0
        try:
            if size is None:
                st, err = D.rrdesi([*o, '--mp', '1'])
                why = str(err)
            else:
                def fn(c):
                    cp.BUS[threading.get_ident()] = buses[c.rank]
                    return D.rrdesi(o, comm=c)
                w = simmpi.World(size, seed=self.ck.rng.randrange(10**6), mode=mode)
                with quiet():
                    res, err = w.run(fn)
                st = 'ok' if all(e is None for e in err) else 'error'; why = mpilab.errtext(err); left = w.leftover()
        finally:
            if orig_z:
                rd.zfind = orig_z
            if orig_c:
                rd.getGPUCountMPI = orig_c
            cp.BUS.clear()
        J.launches(what)
        ev = dict(kind='run', what=what, outcome=st, left=left, why='ok' if st == 'ok' else why[:200].replace('"', '').replace('\n', ' '), cols=[], rows=[], scan=[], refcols=ref[0], refrows=ref[1], refscan=ref[2])
        if st == 'ok':
            st2, r = guarded(self.results, d, it)
            if st2 == 'ok':
                ev['cols'], ev['rows'], ev['scan'] = r
            else:
                ev['outcome'] = 'error'; ev['why'] = 'no results: ' + str(r)[:150].replace('"', '')
        J.ev.append(ev)
        if seen:
            rk = sorted(seen)
            J.ev.append(dict(kind='who', what=what, n=len(self.ids), gpu=[seen[r][0] for r in rk], ids=[seen[r][1] for r in rk]))
        if counts and not os.path.exists('/proc/driver/nvidia/gpus'):
            J.ev.append(dict(kind='count', bus=buses, got=counts))
        return st


    def refused(self, J, size, gpuargs):
        """runs that have no meaning are refused, and not silently"""
        import desilab as D, simmpi
        o, d = self.options(['--gpu', *gpuargs])
        if size is None:
            sts = [D.rrdesi([*o, '--mp', '1'])[0]]
        else:
            w = simmpi.World(size, seed=self.ck.rng.randrange(10**6), mode='eager')
            with quiet():
                res, err = w.run(lambda c: D.rrdesi(o, comm=c))
            sts = ['ok' if e is None else 'error' for e in err]
        J.launches('refused')
        J.ev.append(dict(kind='refused', what=f'ranks {size} {" ".join(map(str, gpuargs))}', outcome=sts, files=sorted(os.listdir(d))))


def runs(ck, J):
    lab = Lab(ck)
    a, b, c = '0000:01:00.0', '0000:02:00.0', '0001:01:00.0'
    ar = ['--archetypes', lab.adir]
    plan = [(None, None, [], [], 'eager'), (1, [a], [], [], 'eager'), (2, [a, b], [], [], 'sync'), (3, [a, b, a], [], [], 'eager'), (4, [a, a, a, a], ['--nminima', 2], [], 'sync'),
            (3, [a, b, c], [], ['--max-gpuprocs', 2], 'eager'), (2, [a, b], ar, [], 'eager'), (3, [a, a, b], [*ar, '--archetype-legendre-degree', 3, '--archetype-nnearest', 2], [], 'sync'),
            (None, None, [*ar, '--archetypes-no-legendre'], [], 'eager'), (3, [a, b, c], [], ['--max-gpuprocs', 5], 'eager'), (7, [a, b, c, a, b, c, a], [], [], 'eager')]
    if ck.thorough:
        plan += [(n, [(a, b, c)[k % g] for k in range(n)], [], [], m) for n in (2, 3, 4, 5, 6) for g in (1, 2, 3) for m in ('eager', 'sync')]
        plan += [(n, [a] * n, ar, ['--max-gpuprocs', k], 'sync') for n in (3, 4) for k in (1, 2, 3)]
    for size, buses, extra, gpuargs, mode in plan:
        lab.run(J, size, buses, extra, gpuargs, mode)
    # counting devices
    import simmpi, threading
    from redrock.utils import getGPUCountMPI
    if not os.path.exists('/proc/driver/nvidia/gpus'):
        pool = [f'{d}:{x}:{v}.{q}' for d in ('0000', '0001', '1c00') for x in ('01', '41', 'C1') for v in ('00', '01') for q in (0, 1)]
        for k in range(40):
            size = ck.rng.randint(1, 6); some = ck.rng.sample(pool, ck.rng.randint(1, 3)); bus = [ck.rng.choice(some) for _ in range(size)]
            def fn(comm):
                cp.BUS[threading.get_ident()] = bus[comm.rank]
                return int(getGPUCountMPI(comm))
            with quiet():
                res, err = simmpi.World(size, seed=ck.rng.randrange(10**6), mode=['eager', 'sync'][k % 2]).run(fn)
            cp.BUS.clear()
            J.ev.append(dict(kind='count', bus=bus, got=[-1 if r is None else r for r in res]))
    # no GPUs at all, by the options
    for size in (None, 1, 3):
        for n in (0, -1):
            lab.refused(J, size, ['--max-gpuprocs', n])
    # many targets per GPU: by the capacities that rrdesi gives to the distribution
    import redrock.external.desi as rd, desilab as D
    from redrock.utils import distribute_work
    orig = getattr(rd, 'DistTargetsDESI', None)
    for size, buses in ((3, [a, a, a]), (4, [a, b, a, b])):
        caps = []
        class Rec(orig):
            def __init__(self, *x, **k):
                caps.append(k.get('capacities')); super().__init__(*x, **k)
        o, d = lab.options(['--gpu'])
        try:
            rd.DistTargetsDESI = Rec
            def fn(comm):
                cp.BUS[threading.get_ident()] = buses[comm.rank]
                return D.rrdesi(o, comm=comm)
            with quiet():
                simmpi.World(size, seed=1).run(fn)
        finally:
            rd.DistTargetsDESI = orig; cp.BUS.clear(); del cp.LAUNCHES[:]
        g = len(set(buses))
        if caps and all(x is not None and list(x) == list(caps[0]) for x in caps):
            n = 10007 * g + 5
            st, out = guarded(distribute_work, size, list(range(n)), capacities=list(caps[0]))
            short = lambda q: [q[0], len(q)] if q else []
            ev = dict(kind='many', n=n, outcome=st, gpu=[r < g for r in range(size)], got=[len(x) for x in out] if st == 'ok' else [])
            J.ev.append(ev)


def check(ck):
    K = 'SPECIFICATION Spec\nCONSTANTS Cells = %d Rows = %d Par = %d Block = %d Guard = %s Atomic = %s Rest = %s RoundUp = %s\nINVARIANTS InsideOnly EveryRowOnce NeverTwice\nPROPERTY Terminates\nCHECK_DEADLOCK FALSE\n'
    T, F = 'TRUE', 'FALSE'
    for q in [(2, 3, 2, 4), (3, 5, 2, 4), (2, 2, 3, 3), (5, 2, 1, 4), (1, 7, 4, 8)] + ([(4, 5, 2, 6), (3, 7, 3, 6), (9, 1, 1, 4)] if ck.thorough else []):
        ck.model('Kernel', K % (*q, T, T, T, T))
    for q, flags, what in (((2, 3, 2, 4), (T, F, T, T), 'EveryRowOnce is violated'), ((3, 3, 1, 4), (F, T, T, T), 'InsideOnly is violated'), ((2, 3, 2, 4), (T, T, F, T), 'EveryRowOnce is violated'),
                           ((3, 3, 1, 2), (T, T, T, F), 'EveryRowOnce is violated'), ((3, 4, 2, 3), (T, T, T, T), 'is violated')):
        ck.expect_violation('Kernel', K % (*q, *flags), what)
    V = 'SPECIFICATION Spec\nCONSTANTS Degrees = {0, 1, 2} Changes = 2 Stale = %s Early = %s\nINVARIANT Answered\nCONSTRAINT Bound\nCHECK_DEADLOCK FALSE\n'
    ck.model('Device', V % (F, F))
    ck.expect_violation('Device', V % (T, F), 'Answered is violated')
    ck.expect_violation('Device', V % (F, T), 'Answered is violated')
    J = Judge()
    cp.ORDER[0] = ck.rng.randrange(1, 2**30)
    rebinning(ck, J)
    products(ck, J)
    transmission(ck, J)
    fits(ck, J)
    scans(ck, J)
    archetypes(ck, J)
    asking(ck, J)
    runs(ck, J)
    ck.sample(lambda: [e for e in J.ev if e['kind'] == 'launch'][:3])
    for k in ('same', 'ask', 'who', 'count'):
        ck.sample(lambda: next(e for e in J.ev if e['kind'] == k))
    ck.extra['launches'] = sum(e['kind'] == 'launch' for e in J.ev)
    ck.extra['kernels'] = sorted({e['kernel'] for e in J.ev if e['kind'] == 'launch'})
    ck.validate('T_Gpu', J.ev)
    ck.assumptions += ['there is no GPU: kernels are compiled from their CUDA source by g++ and run thread by thread in random orders, cupy is a stand-in that keeps host and device apart (lib/gpu/cupy)',
                       'MPI ranks are simulated (lib/simmpi.py)', 'GPU and CPU sum in different orders: values are compared with relative tolerances from 1e-7 (single functions) to 1e-4 (tables of whole runs)']
    cp.close()


if __name__ == '__main__':
    main(check, 'C30')
