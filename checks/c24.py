"""C24: absorption by the intergalactic medium."""
import os
import numpy as np
from common import main, quiet, guarded

MODEL = ('CONSTANTS\n Waves = {121567, 243134, 200000, 400000, 972540}\n Factors = {8, 12, 16, 24, 64}\n Lines <- LinesC\n ByFirst = %s\n Closed = %s\n'
         'SPECIFICATION Spec\nINVARIANTS OnlyDims Redward Alone MoreWithRedshift\nCHECK_DEADLOCK FALSE\n')
HERE = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'lib', 'igmdata')
LAF = np.loadtxt(HERE + '/LAFcoeff.txt'); DLA = np.loadtxt(HERE + '/DLAcoeff.txt')
SERIES = {'Calura12': [(12156700, 0.0023, 3.64), (10257200, 0.0023 / 5.2615, 3.64), (9725370, 0.0023 / 14.356, 3.64), (9497431, 0.0023 / 29.85984, 3.64),
                       (9378035, 0.0023 / 53.36202, 3.64)], 'Kamble20': [(12156700, 0.00554, 3.182)]}


def q(x):
    return int(min(max(round(x * 1e6), -10**9), 10**9)) if np.isfinite(x) else 10**9


def tables(model, F, W):
    if model in SERIES:
        s = SERIES[model]
        return dict(lines=[a[0] for a in s], t=[[q(A * (w / 100. / (l / 1e4))**B) for l, A, B in s] for w in W])
    if model == 'Inoue14':
        L = [int(round(x * 1e4)) for x in LAF[:, 1]]
        laf = [[[q(r[2] * (w / 100. / r[1])**1.2) for r in LAF], [q(r[3] * (w / 100. / r[1])**3.7) for r in LAF], [q(r[4] * (w / 100. / r[1])**5.5) for r in LAF]] for w in W]
        dla = [[[q(r[2] * (w / 100. / r[1])**2) for r in DLA], [q(r[3] * (w / 100. / r[1])**3) for r in DLA]] for w in W]
        cont = []
        for f in F:
            row = []
            for w in W:
                s = f / 8.; r = w / 100. / 911.8
                row.append([q(x) for x in (
                    0.3248 * (r**1.2 - s**-0.9 * r**2.1),
                    2.545e-2 * (s**1.6 * r**2.1 - r**3.7),
                    2.545e-2 * s**1.6 * r**2.1 + 0.3248 * r**1.2 - 0.2496 * r**2.1,
                    5.221e-4 * (s**3.4 * r**2.1 - r**5.5),
                    5.221e-4 * s**3.4 * r**2.1 + 0.2182 * r**2.1 - 2.545e-2 * r**3.7,
                    5.221e-4 * s**3.4 * r**2.1 + 0.3248 * r**1.2 - 3.140e-2 * r**2.1,
                    0.2113 * s**2 - 0.07661 * s**2.3 * r**-0.3 - 0.1347 * r**2,
                    0.04696 * s**3 - 0.01779 * s**3.3 * r**-0.3 - 0.02916 * r**3,
                    0.6340 + 0.04696 * s**3 - 0.01779 * s**3.3 * r**-0.3 - 0.1347 * r**2 - 0.2905 * r**-0.3)])
            cont.append(row)
        return dict(lines=L, laf=laf, dla=dla, cont=cont)
    return dict(lines=[])


def inputs(rng):
    nz = rng.choice([1, 1, 2, 3, 5]); nw = rng.choice([1, 2, 5, 9])
    F = [rng.randint(8, 64) for _ in range(nz)]
    if rng.random() < 0.2:
        F = [rng.choice([8, 16, 32, 64]) for _ in range(nz)]
    if rng.random() < 0.1:
        F[rng.randrange(nz)] = 7
    mode = rng.random()
    if mode < 0.35:          # everywhere
        W = [rng.randint(60000, 1200000) for _ in range(nw)]
    elif mode < 0.75:        # around the lines of one of the redshifts
        f = rng.choice(F); W = [int(rng.choice([1215.67, 1025.72, 972.54, 949.74, 937.8, 920, 911.8, 800, 600]) * 100 * f / 8. * rng.choice([1, 1.0005, 0.9995, 0.97, 1.1])) for _ in range(nw)]
    elif mode < 0.9:         # around the regimes
        W = [int(911.8 * 100 * rng.choice([2.2, 5.7, 3.0]) * rng.choice([1.002, 0.998, 1.2, 0.9])) for _ in range(nw)]
    else:                    # redward of the line for some or all redshifts
        f = max(F) if rng.random() < 0.5 else min(F); W = [int(121567 * f / 8. * (1 + rng.random() * 2)) + 1 for _ in range(nw)]
    W = [min(max(w, 15000, int(12000 * max(F) / 8.)), 2000000) for w in W]
    if rng.random() < 0.15:
        F = [rng.choice([8, 16, 32]) for _ in range(nz)]; W[0] = 121567 * F[0] // 8
    if rng.random() < 0.2:
        W = [w // 100 * 100 for w in W]
    if rng.random() < 0.4:
        W.sort()
    return F, W


def ambiguous(F, W):
    """too close to a border between regimes to be decided in floating point (the redshifted lines at powers of two are exact)"""
    for w in W:
        for b in [l * 1e4 for l in LAF[:, 1]] + [9118000., 9497431., 9378035.]:
            for t in (2.2, 5.7, 3.0):
                if abs(w / (b / 100 * t) - 1) < 1e-9:
                    return True
            for f in F:
                if f not in (8, 16, 32, 64) and abs(w / (b / 100 * f / 8.) - 1) < 1e-9:
                    return True
                if abs(w - b / 100 * f / 8.) < 1e-6 and w % 1 == 0 and b not in (12156700.,):
                    return True
    return False


def scans(ck, n):
    """whole scans of targets with some bands in the forest, against least squares with the absorption computed apart"""
    import itertools
    import fixtures
    from redrock.zscan import calc_zchi2
    from redrock.templates import DistTemplate
    from c08 import lsq
    rng = ck.rng; ev = []
    orders = [p for m in (1, 2, 3) for p in itertools.permutations('brz', m)]
    for k in range(n):
        bands = orders[k % len(orders)] if k % 3 else ('r', 'b', 'z')
        model = ('Calura12', 'Inoue14', 'Kamble20', 'None')[k // 2 % 4]
        lo = rng.choice([1.9, 2.4, 3.0, 3.6]); zs = lo + rng.choice([0.02, 0.1, 0.3]) * np.arange(5)
        if k % 4 == 1:
            zs = np.concatenate([[0.3, 1.2], zs])        # only some redshifts are so far
        t = fixtures.template('QSO', 'X', redshifts=zs, nbasis=1 + k % 3, seed=200 + k, wavemin=500, wavemax=9900, nw=800, igm=model)
        with quiet():
            tg = [fixtures.target(7 + i, t, float(rng.choice(zs)), nspec=len(bands), seed=k + i, noise=0.3, bands=bands) for i in range(2)]
            dwave = {s.wavehash: s.wave for s in tg[0].spectra}
            dt = DistTemplate(t, dwave)
            st, r = guarded(calc_zchi2, [x.id for x in tg], tg, dt)
        e = dict(kind='scan', done=st == 'ok', model=model, bands=bands, z=[repr(float(z)) for z in zs], got=[], want=[])
        if st == 'ok':
            for i, x in enumerate(tg):
                want = [lsq(x, t, z, False) for z in zs]
                if max(w[2] for w in want) > 1e5:
                    continue
                want = np.array([w[0] for w in want])
                Q = lambda a: [int(round(v)) for v in np.clip(np.asarray(a, float) / want.max() * 1e6, -1e9, 1e9)]
                e['got'].append(Q(r[0][i])); e['want'].append(Q(want))
        else:
            e['error'] = repr(r)[:200]
        ev.append(e)
    return ev


def models(ck, n):
    """models of one template after another: other redshifts, other grids of the same length"""
    import fixtures, refmodel as rm
    rng = ck.rng; ev = []
    for k in range(n):
        model = ('Calura12', 'Inoue14', 'Kamble20', 'None')[k % 4]
        t = fixtures.template('QSO', 'X', redshifts=np.linspace(1.5, 4, 6), nbasis=2, seed=300 + k, wavemin=500, wavemax=9900, nw=800, igm=model)
        e = dict(kind='scan', done=True, model=model, bands=['eval'], z=[], got=[], want=[])
        grids = [np.linspace(3600 + 700 * i, 4500 + 700 * i, 60) for i in range(4)]
        for _ in range(8):
            z = rng.choice([1.9, 2.4, 2.4, 3.1, 3.8, 0.4]); w = rng.choice(grids); c = np.array([rng.choice([1.0, 2.0, 0.5]), 0.3])
            with quiet():
                st, f = guarded(t.eval, c, w, z)
            if st != 'ok':
                e['done'] = False; e['error'] = repr(f)[:200]; break
            T = rm.igm(model, z, w)
            want = rm.rebin(t.wave * (1 + z), c.dot(t.flux), rm.edges(w)) * (1 if T is None else T)
            Q = lambda a: [int(round(v)) for v in np.clip(np.asarray(a, float) / np.abs(want).max() * 1e6, -1e9, 1e9)]
            e['z'].append(repr(z)); e['got'].append(Q(f)); e['want'].append(Q(want))
        ev.append(e)
    return ev


def scaled(ck, n):
    """the model of Inoue et al. with optical depths multiplied by a number, and tabulated on a grid of redshifts"""
    import refmodel as rm
    from redrock.igm import Inoue14
    rng = ck.rng; ev = []
    for k in range(n):
        s = rng.choice([1., 0.5, 2., 0.25, 1.5]); w = np.linspace(rng.choice([3600., 4000.]), rng.choice([7000., 9800.]), rng.choice([40, 75]))
        st, m = guarded(Inoue14, scale_tau=s) if k % 3 else guarded(Inoue14); s = s if k % 3 else 1.
        e = dict(kind='scaled', done=st == 'ok', scale=repr(s), z=[], got=[], want=[]); ev.append(e)
        if st != 'ok':
            continue
        Q = lambda a: [int(round(v)) for v in np.clip(np.asarray(a, float) * 1e6, -1e9, 1e9)]
        for z in rng.sample([0.5, 1.9, 2.5, 3.2, 4.1, 5.0], 3):
            st, f = guarded(m.full_IGM, np.array([z]), w[None, :])
            if st != 'ok' or np.shape(f) != (1, len(w)):
                e['done'] = False; break
            e['z'].append(repr(z)); e['got'].append(Q(f[0])); e['want'].append(Q(rm.igm('Inoue14', z, w)**s))
        zg = np.sort(rng.sample([1.5, 1.9, 2.3, 2.5, 2.9, 3.3, 3.7, 4.2], 4)); rest = np.linspace(910., 1300., 60)
        st, _ = guarded(m.build_grid, zg, rest)
        if st != 'ok':
            e['done'] = False; continue
        for z in rng.sample(list(zg), 2):
            st, f = guarded(m.interpolate, z)
            if st != 'ok':
                e['done'] = False; break
            e['z'].append(repr(float(z))); e['got'].append(Q(f)); e['want'].append(Q(rm.igm('Inoue14', float(z), rest * (1 + z))**s))
    return ev


def check(ck):
    from redrock.igm import transmission_Lyman
    rng = ck.rng
    spec = os.path.join(ck.work, 'x')
    ck.model('MC_Igm', MODEL % ('FALSE', 'FALSE'))
    ck.expect_violation('MC_Igm', MODEL % ('TRUE', 'FALSE'), 'is violated')
    ck.expect_violation('MC_Igm', MODEL % ('FALSE', 'TRUE'), 'is violated')
    ev = []; stats = {}
    n = 3000 if ck.thorough else 700
    while len(ev) < n:
        F, W = inputs(rng)
        if ambiguous(F, W):
            continue
        model = rng.choice(['Calura12', 'Kamble20', 'Inoue14', 'Inoue14', 'None', None])
        zlist = len(F) > 1 or rng.random() < 0.5; wlist = len(W) > 1 or rng.random() < 0.5
        always = rng.random() < 0.6
        z = [f / 8. - 1 for f in F]; w = [x / 100. for x in W]
        zi = rng.random() < 0.3 and all(f % 8 == 0 for f in F); wi = all(x % 100 == 0 for x in W)
        if zi:
            z = [int(a) for a in z]
        if wi:
            w = [int(a) for a in w]
        za = (np.array(z) if rng.random() < 0.8 else list(z)) if zlist else z[0]
        wa = (np.array(w) if rng.random() < 0.9 else list(w)) if wlist else w[0]
        keep = (np.array(z, dtype=float), np.array(w, dtype=float))
        with quiet():
            k, T = guarded(transmission_Lyman, za, wa, model=model, always_return_array=always) if model != 'Calura12' or rng.random() < 0.5 else guarded(transmission_Lyman, za, wa, always_return_array=always)
        if k == 'ok':
            ck.keep(T)
        e = dict(kind='T', model='null' if model is None else model, F=F, W=W, zlist=zlist, wlist=wlist, always=always, done=k == 'ok', none=k == 'ok' and T is None,
                 shape=[], tau=[], one=[], ok=[], **tables(model, F, W))
        stats[e['model']] = stats.get(e['model'], 0) + 1
        if k != 'ok':
            e['error'] = repr(T)[:200]
        if k == 'ok' and T is not None:
            e['shape'] = list(np.shape(T))
            A = np.asarray(T, dtype=float)
            if A.size == len(F) * len(W):
                A = A.reshape(len(F), len(W))
                e['one'] = (A == 1).tolist(); e['ok'] = ((A >= 0) & (A <= 1)).tolist()
                with np.errstate(all='ignore'):
                    t = -np.log(A) * 1e6
                e['tau'] = [[int(min(max(round(x), -10**9), 10**9)) if np.isfinite(x) else 10**9 for x in row] for row in np.where(np.isfinite(t), t, 1e9)]
        ck.ok(np.array_equal(np.asarray(za, float).ravel(), keep[0][:1] if not zlist else keep[0]) and np.array_equal(np.asarray(wa, float).ravel(), keep[1][:1] if not wlist else keep[1]),
              'the arguments are not changed', dict(F=F, W=W))
        ev.append(e)
    for m in ('Inoue', 'calura12', '', 'Unknown', 0, 'none'):
        for a in (True, False):
            for z, w in ((2.0, np.array([900., 3000.])), (0.0, np.array([5000.])), (np.array([0.1, 4]), np.array([4000., 5000.]))):
                with quiet():
                    k, T = guarded(transmission_Lyman, z, w, model=m, always_return_array=a)
                ev.append(dict(kind='unknown', done=k == 'ok', model=str(m)))
    ev += models(ck, 60 if ck.thorough else 16)
    ev += scaled(ck, 40 if ck.thorough else 8)
    ck.extra['models_evaluated'] = stats; ck.extra['nothing_to_apply'] = sum(1 for e in ev if e.get('none'))
    sc = scans(ck, 120 if ck.thorough else 32); ck.extra['scans_with_absorption'] = len(sc); ck.sample(lambda: sc[0])
    ev += sc
    ck.sample(lambda: {k: v for k, v in ev[0].items() if k in ('model', 'F', 'W', 'tau', 'none')})
    ck.kept()
    ck.validate('T_Igm', ev)
    ck.assumptions += ['rest wavelengths of 100 Angstrom or more (below, the published fit of Inoue et al. is not used)', 'coefficients of the models are those of the pinned tree', 'CPU code only', 'whole scans agree with least squares within 2e-5 of the largest chi-squared']


if __name__ == '__main__':
    main(check, 'C24', 'model_checking')
