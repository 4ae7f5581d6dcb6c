"""C19: a coadd is the weighted mean per wavelength grid."""
import numpy as np, scipy.sparse
from common import main, quiet, guarded

MODEL = ('CONSTANTS\n MaxSpec = %d\n GridNames = {"b","r"}\n Flux = {0,1,3}\n Ivar = {0,1,2}\n MixGrids = %s\n LastFirst = %s\n'
         'SPECIFICATION Spec\nINVARIANTS Done Between\nCHECK_DEADLOCK FALSE\n')


def resolution(n, a):
    """rows (a, 16-2a, a)/16; the ends take what falls off"""
    off = np.array([1, 0, -1]); d = np.zeros((3, n), dtype=int)
    d[0, :] = a; d[1, :] = 16 - 2 * a; d[2, :] = a
    d[0, 0] = 0; d[2, n - 1] = 0          # outside the matrix
    d[1, 0] += a; d[1, n - 1] += a
    return off, d


def build(rng, nspec, named, float32=False, spike=False, uf=1., uw=1.):
    """inputs as integers, and the target"""
    from redrock.targets import Target, Spectrum
    n = {g: rng.randint(8, 12) for g in 'brz'}
    wave = {g: np.linspace(3600 + 1000 * i, 4400 + 1000 * i, n[g]) for i, g in enumerate('brz')}
    inp = []; sp = []; must = []
    grids = [rng.choice('brz'[:rng.randint(1, 3)]) for _ in range(nspec)]
    if spike:
        grids = ['b'] * nspec + ['r']
    hit = None
    if spike:
        hit = (rng.randrange(nspec), rng.randrange(3, n['b'] - 3))
    for k, g in enumerate(grids):
        a = rng.choice([1, 2, 4])
        f = [rng.randint(-5, 20) if not spike else 10 + rng.randint(0, 1) for _ in range(n[g])]
        iv = [rng.choice([0, 1, 2, 4]) if rng.random() < (0.3 if not spike else 0.0) else rng.choice([1, 2, 4]) for _ in range(n[g])]
        if rng.random() < 0.15 and not spike:
            iv = [0] * n[g]
        if spike and k == hit[0]:
            f[hit[1]] = 4000; must.append([k + 1, hit[1] + 1])
        off, d = resolution(n[g], a)
        dt = np.float32 if float32 else float
        R = scipy.sparse.dia_matrix((d / 16., off), shape=(n[g], n[g]))
        inp.append(dict(grid=g, f=f, iv=iv, R=d.tolist()))
        sp.append(Spectrum(wave[g].copy() if rng.random() < 0.5 else wave[g], np.array(f, dtype=dt) * dt(uf), np.array(iv, dtype=dt) * dt(uw), R, band=g if named else None))
    return inp, sp, wave, must


def rejecting(rng, uf=1., uw=1.):
    """spectra for which the specification says which pixels are rejected"""
    from redrock.targets import Spectrum
    n = {g: rng.randint(6, 10) for g in 'br'}
    wave = {g: np.linspace(3600 + 1000 * i, 4400 + 1000 * i, n[g]) for i, g in enumerate('br')}
    grids = [rng.choice('bbr') for _ in range(rng.randint(2, 6) if rng.random() < 0.8 else rng.randint(12, 20))]
    nsig = rng.choice([1, 2, 3, 5])
    line = {g: [rng.choice([0, 0, 0, 0, 3, 40]) for _ in range(n[g])] for g in 'br'} if rng.random() < 0.3 else {g: [5] * n[g] for g in 'br'}
    inp = []; sp = []
    for g in grids:
        w = rng.choice([1, 2, 4]); iv = [w] * n[g]
        f = [x + (rng.choice([1, -1, 2, 3, 4, 5, -6, 8, 12, 20]) if rng.random() < 0.3 else 0) for x in line[g]]
        off, d = resolution(n[g], rng.choice([1, 2, 4]))
        inp.append(dict(grid=g, f=f, iv=iv, R=d.tolist()))
        sp.append(Spectrum(wave[g], uf * np.array(f, float), uw * np.array(iv, float), scipy.sparse.dia_matrix((d / 16., off), shape=(n[g], n[g])), band=g))
    return inp, sp, wave, float(nsig), nsig


def observe(t, names, wave, uf=1., uw=1.):
    out = []
    for s in t.spectra:
        g = names[s.wavehash]
        R = s.R
        low = np.asarray(R.sum(axis=1)).ravel() < 0.99
        out.append(dict(grid=g, w=[int(round(float(x))) if abs(x - round(float(x))) < 1e-6 else -1 for x in s.ivar / uw], fn=[int(round(1000 * float(x))) for x in s.flux / uf],
                        R=[[int(round(16000 * float(x))) for x in row] for row in align(R)], low=[bool(x) for x in low],
                        same=bool(len(s.wave) == len(wave[g]) == len(s.flux) == len(s.ivar) and np.array_equal(s.wave, wave[g]) and s.R.shape == (len(s.wave),) * 2)))
    return out


def align(R):
    """diagonals 1, 0, -1 of the matrix whatever the storage"""
    A = R.toarray(); n = A.shape[0]
    d = np.zeros((3, n))
    for k, o in enumerate((1, 0, -1)):
        for j in range(n):
            i = j - o
            if 0 <= i < n:
                d[k, j] = A[i, j]
    return d


def check(ck):
    from redrock.targets import Target
    rng = ck.rng
    ck.model('Coadd', MODEL % (3, 'FALSE', 'FALSE'))
    if ck.thorough:
        ck.model('Coadd', MODEL % (4, 'FALSE', 'FALSE'))
    ck.expect_violation('Coadd', MODEL % (2, 'TRUE', 'FALSE'), 'Done is violated')
    ck.expect_violation('Coadd', MODEL % (2, 'FALSE', 'TRUE'), 'Done is violated')
    V = ('SPECIFICATION Spec\nCONSTANTS Spectra = %s Flux = {0, 1, %s} Weights = {1, 3} Nsig = 2 Pooled = %s Every = %s Sigma = %s\n'
         'INVARIANTS %s\nCHECK_DEADLOCK FALSE\n')
    T, F = 'TRUE', 'FALSE'
    fl = '5' if not ck.thorough else '5, 9'
    W, N = '{1, 2, 3} Pixels = 3', '{1, 2} Pixels = 3'
    for sp in ((W,) if ck.thorough else (N, '{3} Pixels = 2')):
        ck.model('Cosmic', V % (sp, fl, F, F, F, 'Bounds AgreeKept SomeLeft FirstKept OffsetsIgnored'))
        ck.model('Cosmic', V % (sp, fl, T, F, F, 'Bounds SomeLeft FirstKept'))
    ck.expect_violation('Cosmic', V % (W, '9', T, F, F, 'AgreeKept'), 'AgreeKept is violated')
    ck.expect_violation('Cosmic', V % (N, '9', F, T, F, 'SomeLeft'), 'SomeLeft is violated')
    ck.expect_violation('Cosmic', V % (N, '3', F, F, T, 'Bounds'), 'Bounds is violated')
    ev = []
    for rnd in range(1500 if ck.thorough else 300):
        spike = rnd % 4 == 3
        nspec = rng.randint(2, 4) if spike else rng.randint(1, 5) if rnd % 20 != 14 else rng.randint(13, 30)
        # units of flux and weight: powers of two; the significance of an outlier does not depend on them
        p = rng.choice([0, 0, 0, -18, -40, 12, 24]); uf = 2.**p; uw = 2.**(-2 * p)
        named = rnd % 3 != 0
        inp, sp, wave, must = build(rng, nspec, named, float32=rnd % 5 == 4, spike=spike, uf=uf, uw=uw)
        if spike and rng.random() < 0.4:
            # some spectra of the target without any weight, before the one that is hit: they do not count
            k = next((i for i, x in enumerate(inp) if x['grid'] == 'b' and i + 1 != must[0][0]), None)
            if k is not None and sum(x['grid'] == 'b' for x in inp) > 2:
                inp[k]['iv'] = [0] * len(inp[k]['iv']); sp[k].ivar[:] = 0
        names = {s.wavehash: x['grid'] for s, x in zip(sp, inp)}
        keep = [(s.flux.copy(), s.ivar.copy(), s.R.toarray(), s.wave.copy()) for s in sp]
        nsig = 4.0 if spike or rnd % 7 == 0 else 0.0
        exact = 0
        if rnd % 8 in (1, 5):
            inp, sp, wave, nsig, exact = rejecting(rng, uf, uw); must = []
            names = {s.wavehash: x['grid'] for s, x in zip(sp, inp)}
            keep = [(s.flux.copy(), s.ivar.copy(), s.R.toarray(), s.wave.copy()) for s in sp]
        e = dict(nsig=exact, kind='coadd', ok=True, inp=inp, out=[], cosmic=nsig > 0, must=must, intact=True, again=True)
        cache = rnd % 2 == 0

        def go():
            how = rnd % 3
            if how == 0:
                return Target(1, list(sp), coadd=True, cosmics_nsig=nsig)
            t = Target(1, list(sp)); t.compute_coadd(cache_Rcsr=cache, cosmics_nsig=nsig)
            return t
        with quiet(), np.errstate(all='ignore'):
            st, t = guarded(go)
        if st != 'ok':
            e.update(ok=False, why=repr(t)[:200])
        else:
            try:
                e['out'] = observe(t, names, wave, uf, uw)
                e['intact'] = bool(all(np.array_equal(a, s.flux) and np.array_equal(b, s.ivar) and np.array_equal(c, s.R.toarray()) and np.array_equal(d, s.wave)
                                       for (a, b, c, d), s in zip(keep, sp)))
                a = observe(t, names, wave, uf, uw)
                csr = all(np.allclose(s.Rcsr.toarray(), s.R.toarray()) for s in t.spectra)
                with quiet():
                    t.compute_coadd()
                b = observe(t, names, wave, uf, uw)
                # pixels that lost their weight because of their neighbours lose their resolution when coadded again
                e['again'] = bool(csr and [x['grid'] for x in a] == [x['grid'] for x in b] and all(
                    all(q == p or q == 0 for p, q in zip(x['w'], y['w'])) and all(abs(p - q) <= 1 for p, q, w in zip(x['fn'], y['fn'], y['w']) if w) for x, y in zip(a, b))
                    and list(t.bands) == list(dict.fromkeys(s.band for s in t.spectra)))
            except Exception as err:
                e.update(ok=False, why='observing: ' + repr(err)[:200])
        ev.append(e)
    ck.extra['with rejection'] = sum(e['cosmic'] for e in ev)
    ck.sample(lambda: ev[1]); ck.sample(lambda: {k: ev[3][k] for k in ('must', 'out')})
    ck.validate('T_Coadd', ev)
    ck.assumptions += ['integer fluxes and weights, resolution in 1/16, so that the means are rationals the specification computes exactly',
                       'the resolution is weighted with the weight of the pixel it is stored with (diagonal format), as in desispec',
                       'rejection takes at most one spectrum out of a pixel; a spike of hundreds of sigma is a clear outlier']


if __name__ == '__main__':
    main(check, 'C19')
