"""C08: refinement of a redshift and its warnings."""
import itertools
import numpy as np
from common import main, quiet, guarded, Intern
import fixtures, refmodel

BAD, LIMIT = 32, 64       # filled from zwarning below


def bits():
    from redrock.zwarning import ZWarningMask as ZW
    return int(ZW.BAD_MINFIT), int(ZW.Z_FITLIMIT)


def three_events(ck):
    from redrock.fitz import minfit
    bad, lim = bits()
    rng = ck.rng
    cases = []
    for x in ((0, 1, 2), (1, 3, 4)):
        for y in itertools.product(range(-2, 5), repeat=3):
            cases.append((x, y))
    for _ in range(3000 if ck.thorough else 800):
        x = tuple(sorted(rng.sample(range(-6, 7), 3)))
        cases.append((x, tuple(rng.randint(-3, 20) for _ in range(3))))
    ev = []; skipped = 0
    for i, (x, y) in enumerate(cases):
        D = (x[1] - x[0]) * (x[2] - x[0]) * (x[2] - x[1])
        A = y[0] * (x[2] - x[1]) - y[1] * (x[2] - x[0]) + y[2] * (x[1] - x[0])
        B = -(y[0] * (x[1] + x[2]) * (x[2] - x[1]) - y[1] * (x[0] + x[2]) * (x[2] - x[0]) + y[2] * (x[0] + x[1]) * (x[1] - x[0]))
        C = y[0] * x[1] * x[2] * (x[2] - x[1]) - y[1] * x[0] * x[2] * (x[2] - x[0]) + y[2] * x[0] * x[1] * (x[1] - x[0])
        if A == 0 and B == 0:
            skipped += 1        # a flat line: its parabola is rounding noise
            continue
        if A != 0 and (-B == 2 * A * x[0] or -B == 2 * A * x[2] or 4 * A * C == B * B):
            skipped += 1        # on the boundary: rounding decides
            continue
        sc, off = (1.0, 0.0) if i % 3 else (0.002, 0.3)
        with quiet():
            st, out = guarded(minfit, np.array(x) * sc + off, np.array(y, dtype=float))
        e = dict(kind='three', x=x, y=y, ok=st == 'ok', why='' if st == 'ok' else repr(out), bad=False, other=0, x0=0, y0=0, xerr2=0)
        if st == 'ok':
            x0, xerr, y0, zw = out
            e.update(bad=bool(zw & bad), other=int(zw) & ~bad)
            if A != 0:
                e.update(x0=int(round(1000 * (x0 - off) / sc)), y0=int(round(100 * y0)), xerr2=int(round(1000 * (xerr / sc)**2)))
        ev.append(e)
    for n in (0, 1, 2):
        with quiet():
            st, out = guarded(minfit, np.arange(n, dtype=float), np.ones(n))
        ev.append(dict(kind='few', ok=st == 'ok', bad=st == 'ok' and bool(out[3] & bad), other=0 if st != 'ok' else int(out[3]) & ~bad))
    ck.extra['three_points_on_boundary_not_judged'] = skipped
    return ev


def row_event(r, k, redshifts, cand, designed=None):
    """the event for row k of the result of fitz, or None when a rounding decides"""
    bad, lim = bits()
    zz = np.ravel(r['zz'][k]).astype(float); yy = np.ravel(r['zzchi2'][k]).astype(float)
    n = len(zz); imin = int(np.argmin(yy))
    srt = np.sort(yy)
    if n < 3 or srt[1] - srt[0] <= 1e-9 * abs(srt[0]):
        return None
    i = min(max(imin, 1), n - 2)
    y = yy[i - 1:i + 2]; rng = y.max() - y.min()
    if rng < 1e-7 * abs(y.max()):
        return None
    R = 10000.0
    yn = (y - y.min()) / rng * R
    dz = zz[i] - zz[i - 1]
    A = yn[0] - 2 * yn[1] + yn[2]; B = yn[2] - yn[0]
    if abs(A) < 300 and n <= 15:
        if abs(A) < 5:
            return None
        pos = -1000 * B / (2 * A)
    elif abs(A) < 300:
        return None
    else:
        pos = -1000 * B / (2 * A)
    P = lambda z: float(np.clip((z - zz[i]) / dz * 1000, -1e6, 1e6))
    first, last, lo, hi = P(zz[0]), P(zz[-1]), P(redshifts[1]), P(redshifts[-2])
    z = float(np.ravel(r['z'][k])[0]); zerr = float(np.ravel(r['zerr'][k])[0]); chi2 = float(np.ravel(r['chi2'][k])[0]); zw = int(np.ravel(r['zwarn'][k])[0])
    tol = 12 + abs(pos) * 6 / abs(A)
    for edge in (first, last, lo, hi, -1000, 1000):
        if abs(pos - edge) < tol:
            return None
    if abs(pos) > 1e6:
        pos = np.sign(pos) * 1e6
    # a grid point exactly at the limit is inside; the normalised limit may be off by rounding
    zero = max(-12000.0, min(0.0, -y.min() / rng * R)) if y.min() > 0 else min(12000.0, -y.min() / rng * R)
    vert = yn[1] - B * B / (8 * A)
    if A > 0 and abs(vert - zero) < 30 and zero > -12000:
        return None
    zn = P(z)
    for edge in (lo, hi):
        if 0 < abs(zn - edge) < 12:
            return None
    if zn in (lo, hi) or abs(zn - lo) < 1e-6 or abs(zn - hi) < 1e-6:
        zn = lo if abs(zn - lo) < 1e-6 else hi
    c = (chi2 - y.min()) / rng * R
    if abs(c) > 1e6:
        return None
    z2 = 100 * (zerr / dz)**2 * rng
    return dict(kind='row', wlo=int(np.floor(P(redshifts[max(cand - 1, 0)]))), whi=int(np.ceil(P(redshifts[min(cand + 1, len(redshifts) - 1)]))), y=[int(round(v)) for v in yn], zero=int(round(zero)), first=int(round(first)), last=int(round(last)), lo=int(round(lo)), hi=int(round(hi)),
                low=int(imin - i), z=int(round(zn)), chi2=int(round(c)), zerr2=int(round(min(z2, 2e8))) if abs(A) >= 300 else int(round(2e6 / abs(A))),
                bad=bool(zw & bad), lim=bool(zw & lim), other=zw & ~(bad | lim), coeff=0, wantcoeff=0, n=n, designed=designed is not None)


def fit_at(tg, t, z):
    """coefficients of the least squares fit at one redshift, by the public functions"""
    from redrock.zscan import spectral_data, calc_zchi2_batch
    from redrock.rebin import rebin_template
    from redrock.igm import transmission_Lyman
    w, f, wf = spectral_data(tg.spectra)
    dwave = {s.wavehash: s.wave for s in tg.spectra}
    b = rebin_template(t, np.array([z]), dwave)
    for k in dwave:
        T = transmission_Lyman(np.array([z]), dwave[k], model=t.igm_model)
        b[k] = b[k] * T[:, :, None]
    c, co = calc_zchi2_batch(tg.spectra, b, w, f, wf, 1, t.nbasis, solve_matrices_algorithm=t.solve_matrices_algorithm)
    return co[0]


def lsq(tg, t, z, oii):
    """chi2 at one redshift, apart from redrock: least squares over all spectra, with the penalty for negative [OII]"""
    import scipy.optimize
    A = []; y = []
    for s in tg.spectra:
        b = np.array([refmodel.rebin(t.wave * (1 + z), f, refmodel.edges(s.wave)) for f in t.flux]) * refmodel.igm(t.igm_model, z, s.wave)
        q = np.sqrt(s.ivar)
        A.append(s.R.dot(b.T) * q[:, None]); y.append(s.flux * q)
    A = np.vstack(A); y = np.concatenate(y)
    if t.method == 'NMF':
        c = scipy.optimize.nnls(A, y)[0]
    else:
        c = np.linalg.lstsq(A, y, rcond=None)[0]
    flux = float((c @ t.flux[:, (t.wave >= 3724) & (t.wave <= 3733)]).sum()) if oii else 0.0
    return float(((y - A @ c)**2).sum()), max(0.0, -flux), np.linalg.cond(A) if t.method != 'NMF' or c.min() > 0 else np.inf      # (active bounds: see the finding of C26)


def grid_event(r, tg, t, zs, imin, n):
    """the refined scan of a row"""
    zz = np.ravel(r['zz'][0]).astype(float); yy = np.ravel(r['zzchi2'][0]).astype(float)
    want = [lsq(tg, t, z, t.method == 'PCA') for z in zz]
    if max(w[2] for w in want) > 1e5:
        return None
    chi = np.array([w[0] + w[1] for w in want]); pen = [w[1] for w in want]
    sc = 1e6 / max(chi.max(), 1e-9) if chi.max() > 1e-6 else 0      # a perfect fit is rounding
    grid = np.linspace(zs[max(imin - 1, 0)], zs[min(imin + 1, len(zs) - 1)], n)
    Q = lambda a: [int(round(v)) for v in np.clip(a, -1e9, 1e9)]
    return dict(kind='grid', method=t.method, nbasis=int(t.nbasis), igm=t.igm_model, tol=20 if t.method == 'PCA' else 300, zgot=Q((zz - grid[0]) / (grid[-1] - grid[0]) * 1e6), zwant=Q((grid - grid[0]) / (grid[-1] - grid[0]) * 1e6), got=Q(yy * sc), want=Q(chi * sc), penalty=Q(np.array(pen) * sc))


def row_events(ck, nconf):
    import redrock.fitz as fz
    rng = ck.rng; ev = []; skipped = 0; nd = 0
    for c in range(nconf):
        nzs = rng.choice([3, 4, 6, 9]); lo = rng.choice([0.0, 0.03, 0.1]); step = rng.choice([0.0004, 0.002, 0.01, 0.02])
        oii = c % 12 in (1, 5)     # a line that is fitted negative
        far = dict(wavemin=1000, wavemax=9900, nw=891) if oii else {} if c % 4 != 3 else dict(wavemin=750, wavemax=9900)     # so far that the forest is in the spectrum
        zs = lo + (2.2 if c % 4 == 3 else 0) + step * np.arange(nzs)
        t = fixtures.template('GALAXY', '', redshifts=zs, nbasis=1 + c % 2, seed=131 + c, **far, igm='Calura12' if c % 4 == 3 else 'None',
                              method='PCA' if c % 3 else 'NMF', oii=oii)
        ztrue = rng.choice([zs[0] - step, zs[0], zs[1], zs[-1], zs[-1] + step, zs[len(zs) // 2] + 0.3 * step])
        tg = fixtures.target(5, t, max(ztrue, 0.0), nspec=1 + c % 2, seed=c, noise=rng.choice([0.02, 0.5]) if oii or c % 4 == 3 else rng.choice([1e-9, 0.05, 0.5, 3.0, 10.0]),
                             bands=('b', 'r') if c // 4 % 2 else ('r', 'b'), coeff=np.array([1.5, -rng.uniform(0.5, 2)]) if oii else None)
        npoints = rng.choice([15, 15, 7, 5, 4, 3, 25, 41, None])
        for imin in range(nzs):
            x = np.abs(np.arange(nzs) - imin).astype(float)
            with quiet():
                st, r = guarded(fz.fitz, x, zs, tg, t, nminima=1, zminfit_npoints=npoints)
            if st != 'ok':
                ck.bad('fitz failed', dict(redshifts=zs, imin=imin, why=repr(r)))
                continue
            g = grid_event(r, tg, t, zs, imin, npoints or 15)
            if g:
                ev.append(g)
            e = row_event(r, 0, zs, imin)
            if e is None:
                skipped += 1
                continue
            z = float(np.ravel(r['z'])[0])
            it = Intern(rtol=1e-6, atol=1e-8 * float(np.max(np.abs(r['coeff'])) + 1e-30))
            with quiet():
                if z > -1:
                    e['wantcoeff'] = it(fit_at(tg, t, z)); e['coeff'] = it(np.ravel(r['coeff'][0]))
            ev.append(e)
        # the same with designed chi2 values in place of the computed ones (when the code reaches the name)
        if hasattr(fz, 'calc_zchi2_batch'):
            real = fz.calc_zchi2_batch
            for p in range(10):
                n = npoints or 15
                kind = rng.randrange(5)
                if kind == 0:
                    y = [rng.randint(1, 50) for _ in range(n)]
                elif kind == 1:
                    k = rng.uniform(-3, n + 2); y = [3 + 5 * (j - k)**2 for j in range(n)]
                elif kind == 2:
                    y = [40 - 2.0 * j - (0.3 * j * j if rng.random() < 0.5 else 0) for j in range(n)]
                    if rng.random() < 0.5:
                        y.reverse()
                elif kind == 3:
                    k = rng.randrange(n); y = [0.02 + 8 * abs(j - k) - (2 if j == k + 1 else 0) for j in range(n)]
                else:
                    k = rng.randrange(n); y = [10.0 + (0 if j == k else 4 + 0.001 * j) for j in range(n)]
                calls = [0]

                def fake(spectra, binned, *a, **kw):
                    out = real(spectra, binned, *a, **kw)
                    if len(out[0]) == n and calls[0] == 0:
                        calls[0] += 1
                        return np.array(y, dtype=float), out[1]
                    return out
                imin = rng.randrange(nzs)
                fz.calc_zchi2_batch = fake
                try:
                    with quiet():
                        st, r = guarded(fz.fitz, np.abs(np.arange(nzs) - imin).astype(float), zs, tg, t, nminima=1, zminfit_npoints=npoints)
                finally:
                    fz.calc_zchi2_batch = real
                if st != 'ok':
                    # a parabola far outside may leave the range of the template
                    if calls[0] and 'rebin' not in repr(r).lower() and 'template' not in repr(r).lower():
                        ck.bad('fitz failed', dict(redshifts=zs, imin=imin, y=y, why=repr(r)))
                    continue
                if calls[0] == 0 or not np.allclose(np.ravel(r['zzchi2']), y):
                    continue
                nd += 1
                e = row_event(r, 0, zs, imin, y)
                if e is None:
                    skipped += 1
                else:
                    ev.append(e)
    ck.extra['rows_near_a_boundary_not_judged'] = skipped
    ck.extra['rows_with_designed_chi2'] = nd
    return ev


def check(ck):
    ev = three_events(ck)
    ck.extra['minfit_calls'] = len(ev)
    r = row_events(ck, 120 if ck.thorough else 36)
    g = [e for e in r if e['kind'] == 'grid']; r = [e for e in r if e['kind'] == 'row']
    ck.extra['refined_scans'] = len(g); ck.extra['refined_scans_with_penalty'] = sum(any(e['penalty']) for e in g); ck.sample(lambda: g[0])
    ck.extra['rows'] = len(r)
    ck.extra['rows_bad'] = sum(e['bad'] for e in r); ck.extra['rows_limit'] = sum(e['lim'] for e in r)
    ck.sample(lambda: ev[30]); ck.sample(lambda: r[0]); ck.sample(lambda: r[-1])
    ck.validate('T_Minfit', ev + r + g)
    ck.assumptions += ['the minimum of the parabola, the refinement window and the limits of the scan are at least 1% of a grid step apart']


if __name__ == '__main__':
    main(check, 'C08')
