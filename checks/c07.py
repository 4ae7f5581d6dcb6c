"""C07: choice of the candidate redshifts from the scan."""
import numpy as np
from common import main, quiet, guarded, Intern
import fixtures

CFG = '''SPECIFICATION Spec
CONSTANTS N = %d V = %d NMin = %d Lim = %d UU = %d Refine = %s
INVARIANTS Separated GlobalFirst NotTooMany Complete InOutcomes
PROPERTY Ends
CHECK_DEADLOCK FALSE
'''
U = 100000


def models(ck):
    # one grid step is 10/UU of redshift
    for a in [(4, 2, 2, 10, 10000, 'TRUE'), (4, 2, 3, 10, 5000, 'TRUE'), (3, 3, 3, 10, 3000, 'TRUE')] + \
             ([(5, 2, 3, 10, 5000, 'TRUE'), (5, 2, 2, 10, 7000, 'TRUE')] if ck.thorough else []):
        ck.model('Minima', CFG % a)
    ck.expect_violation('Minima', CFG % (4, 2, 3, 10, 5000, 'FALSE'), 'Invariant')


def minima_events(ck):
    from redrock.fitz import find_minima
    cases = [c['x'] for c in ck.generate('G_Minima', 'CONSTANTS L = %d V = %d\nINIT Init\nNEXT Next\nCHECK_DEADLOCK FALSE\n' % ((7, 2) if ck.thorough else (6, 2)))]
    rng = ck.rng
    for _ in range(300):
        n = rng.choice([1, 2, 7, 9, 12, 30, 60]); v = rng.choice([1, 3, 10, 100])
        cases.append([rng.randint(0, v) for _ in range(n)])
    ev = []
    for i, x in enumerate(cases):
        how = i % 4
        arr = np.array(x, dtype=float) * (0.25 if how == 2 else 1.0)
        if how == 3:
            arr = np.array([9e99 if v == max(x) else float(v) for v in x])
        arg = arr if how != 1 else list(map(float, x))
        with quiet():
            st, out = guarded(find_minima, arg)
        ev.append(dict(kind='minima', x=x, ok=st == 'ok', got=[int(j) + 1 for j in out] if st == 'ok' else [], why='' if st == 'ok' else repr(out)))
    return ev


def full(rows, i, names):
    return np.concatenate([np.ravel(np.asarray(rows[k][i], dtype=float)) for k in names])


def close_call(z, lim):
    """is any pair of redshifts so near to the limit that rounding decides?"""
    k = np.round(np.asarray(z) * U); a, b = np.meshgrid(k, k)
    dv = 2998 * np.abs(a - b); edge = lim * (U + b)
    return np.any(np.abs(dv - edge) < 2e-4 * edge + 2998 * 1.2)


def near_any(zs, ref, lim):
    """the pairs which the selection compares: (scan, refined) and (refined, refined)"""
    ks = np.round(np.asarray(zs) * U); kr = np.round(np.asarray(ref) * U)
    bad = set()
    for src in (ks, kr):
        a, b = np.meshgrid(src, kr)           # a = candidate, b = accepted
        d = np.abs(2998 * np.abs(a - b) - lim * (U + b)) < 2e-4 * lim * (U + b) + 2998 * 1.2
        for j, i in zip(*np.where(d)):
            if i != j:
                bad.add((min(i, j), max(i, j)))
    return bad


def fitz_events(ck, nconf, npat):
    import redrock.fitz as fz
    from redrock.targets import DistTargetsCopy
    rng = ck.rng
    ev = []; skipped = 0
    for c in range(nconf):
        star = c % 3 == 1
        lim = 1 if star else 10
        # spacing of the grid against the limit
        dense = c % 6 == 2              # many minima within the limit
        step = (0.07 if dense else rng.choice([0.2, 0.35, 0.6, 0.8, 1.3, 2.5])) * (0.000335 if star else 0.00336)
        if c % 6 == 4:
            step = rng.choice([0.44, 0.47]) * 0.000335      # a pair two steps apart is separate at negative redshift only
        nz = 56 if dense else rng.choice([8, 14, 22]); z0 = (0.0 if c % 6 != 4 else -0.2) if star else rng.choice([0.02, 0.1])
        zs = z0 - (step * nz / 2 if star else 0) + step * np.arange(nz)
        if c % 4 == 3:
            # uneven grid
            zs = zs[0] + np.concatenate([[0], np.cumsum(step * np.array([rng.choice([0.3, 1.0, 1.7]) for _ in range(nz - 1)]))])
        t = fixtures.template('STAR' if star else ('QSO' if c % 2 else 'GALAXY'), 'K' if star else '', redshifts=zs, nbasis=1 + c % 2, seed=31 + c,
                              igm='Calura12' if c % 5 == 2 else 'None')
        tg = fixtures.target(5, t, float(zs[nz // 2]), nspec=1 + c % 2, seed=c, noise=rng.choice([0.3, 2.0, 10.0]), bands=('b', 'r'))
        npoints = rng.choice([15, 15, 7, 3, 24])
        intern = Intern(rtol=1e-9, atol=1e-12)
        with quiet():
            ref = []; rid = []; okref = True
            for i in range(nz):
                st, r = guarded(fz.fitz, np.abs(np.arange(nz) - i).astype(float), zs, tg, t, nminima=1, zminfit_npoints=npoints)
                if st != 'ok' or len(r['z']) != 1:
                    ck.bad('fitz failed for a scan with a single minimum', dict(index=i, zs=zs, why=repr(r) if st != 'ok' else len(r['z'])))
                    okref = False
                    break
                names = [k for k in ('z', 'zerr', 'zwarn', 'chi2', 'zz', 'zzchi2', 'coeff', 'npixels')]
                ref.append(float(np.ravel(r['z'])[0])); rid.append(intern(full(r, 0, names)))
        if not okref:
            continue
        if len(set(rid)) != nz:
            skipped += 1
            continue
        badpairs = near_any(zs, ref, lim)
        nclose = 0
        for p in range(npat):
            kind = p % 5
            if dense and p % 2:
                mid = rng.randrange(nz)
                x = [3 * abs(j - mid) + (200 if (j - mid) % 2 else 0) + rng.randint(0, 1) for j in range(nz)]
            elif kind == 0:
                x = [rng.randint(0, 6) for _ in range(nz)]
            elif kind == 1:
                x = [rng.randint(0, 1000) for _ in range(nz)]
            elif kind == 2:
                x = [rng.randint(0, 40) + (100 if j % 2 else 0) for j in range(nz)]
            elif kind == 3:
                x = list(range(nz)) if rng.random() < 0.5 else list(range(nz, 0, -1))
                for _ in range(3):
                    x[rng.randrange(nz)] = rng.randint(0, nz)
            else:
                x = [rng.choice([5, 9, 9, 30, 31, 60]) for _ in range(nz)]
            mins = [j for j in range(nz) if (j == 0 or x[j] <= x[j - 1]) and (j == nz - 1 or x[j] <= x[j + 1])]
            if any((a, b) in badpairs for a in mins for b in mins if a < b):
                skipped += 1
                continue
            vals = [x[j] for j in mins]
            ties = max(vals.count(v) for v in set(vals))
            if ties > 4 or len([v for v in set(vals) if vals.count(v) > 1]) > 4:
                skipped += 1
                continue
            nmin = rng.choice([1, 2, 3, 3, 4, 5, 8])
            with quiet():
                # only the order of the values counts
                base, scale = rng.choice([(0., 1.), (0., 1.), (5000., 0.001), (37., 0.01), (0., 1e4)])
                st, r = guarded(fz.fitz, base + scale * np.array(x, dtype=float), zs, tg, t, nminima=nmin, zminfit_npoints=npoints)
            e = dict(kind='fitz', ok=st == 'ok', why='' if st == 'ok' else repr(r), x=x, zs=[int(round(z * U)) for z in zs],
                     ref=[int(round(z * U)) for z in ref], rid=rid, nmin=nmin, lim=lim, u=U, got=[], chi=[], z=[], step=step, npoints=npoints)
            if st == 'ok':
                e['got'] = [intern(full(r, i, names)) for i in range(len(r['z']))]
                chi = [float(v) for v in np.ravel(r['chi2'])]
                order = sorted(set(chi))
                e['chi'] = [order.index(v) for v in chi]
                e['z'] = [int(round(float(v) * U)) for v in np.ravel(r['z'])]
                if len(e['got']) < min(nmin, len(mins)):
                    nclose += 1
            ev.append(e)
        ck.extra['with_candidates_skipped'] = ck.extra.get('with_candidates_skipped', 0) + nclose
    ck.extra['near_ties_not_judged'] = skipped
    return ev


def real_scans(ck):
    """scans made by the code itself, noisy data"""
    import redrock.fitz as fz, redrock.zscan as zsc
    from redrock.targets import DistTargetsCopy
    rng = ck.rng; ev = []
    for c in range(6 if ck.thorough else 3):
        t = fixtures.template('GALAXY', '', 0.0, 0.12, nz=45, nbasis=1, seed=61 + c)
        tg = fixtures.target(5, t, 0.05, nspec=2, seed=c, noise=20.0, bands=('b', 'r'))
        zs = t.redshifts
        with quiet():
            d = DistTargetsCopy([tg]); dts = fixtures.disttemplates([t], d)
            scan = zsc.calc_zchi2_targets(d, dts)
            x = scan[5][t.full_type]['zchi2'] + scan[5][t.full_type]['penalty']
            names = ['z', 'zerr', 'zwarn', 'chi2', 'zz', 'zzchi2', 'coeff', 'npixels']
            intern = Intern(rtol=1e-9, atol=1e-12); ref = []; rid = []
            for i in range(len(zs)):
                r = fz.fitz(np.abs(np.arange(len(zs)) - i).astype(float), zs, tg, t, nminima=1)
                ref.append(float(np.ravel(r['z'])[0])); rid.append(intern(full(r, 0, names)))
            bad = near_any(zs, ref, 10)
            order = np.argsort(np.argsort(x)); xi = [int(v) for v in order]
            mins = [j for j in range(len(zs)) if (j == 0 or xi[j] <= xi[j - 1]) and (j == len(zs) - 1 or xi[j] <= xi[j + 1])]
            if any((a, b) in bad for a in mins for b in mins if a < b) or len(set(np.round(x, 9))) != len(x):
                continue
            for nmin in (1, 3, 5, 10):
                r = fz.fitz(x, zs, tg, t, nminima=nmin)
                chi = [float(v) for v in np.ravel(r['chi2'])]; o = sorted(set(chi))
                ev.append(dict(kind='fitz', ok=True, why='', x=xi, zs=[int(round(z * U)) for z in zs], ref=[int(round(z * U)) for z in ref], rid=rid, nmin=nmin,
                               lim=10, u=U, got=[intern(full(r, i, names)) for i in range(len(r['z']))], chi=[o.index(v) for v in chi],
                               z=[int(round(float(v) * U)) for v in np.ravel(r['z'])], step=0, npoints=15))
    return ev


def check(ck):
    models(ck)
    ev = minima_events(ck)
    ck.extra['find_minima_calls'] = len(ev)
    f = fitz_events(ck, 40 if ck.thorough else 12, 60 if ck.thorough else 30)
    f += real_scans(ck)
    ck.extra['fitz_calls'] = len(f)
    ck.sample(lambda: ev[500]); ck.sample(lambda: f[0])
    ck.validate('T_Minima', ev + f)
    ck.assumptions += ['the refinement of one minimum is observed by a call with a scan that has this single minimum',
                       'pairs within rounding of the velocity limit, and scans with more than four tied minima, are not judged']


if __name__ == '__main__':
    main(check, 'C07')
