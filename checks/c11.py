"""C11: missing data are flagged and change nothing else."""
import numpy as np
from common import main, quiet, guarded, Intern
import ranklab, c09, fixtures, realrank


def isolation(ck, rounds):
    """the same good targets with and without bad companions: the good ones' rows stay the same"""
    import redrock.zfind as zf
    from redrock.targets import DistTargetsCopy
    rng = ck.rng
    ev = []
    for rnd in range(rounds):
        tmpl = realrank.make_templates(3 + rnd)[:3 + rnd % 3]
        good = []
        for i in range(3):
            src = tmpl[i % len(tmpl)]
            good.append(fixtures.target(100 + i, src, float(src.redshifts[len(src.redshifts) // 2]) + 0.003, nspec=1 + i, seed=70 * rnd + i, meta=dict(A=i)))
        bad = []
        for i in range(4):
            t = fixtures.target(200 + i, tmpl[0], 0.2, nspec=[1, 3, 2, 2][i], seed=500 + i, meta=dict(A=9))
            t, fl = realrank.mask_target(t, rng, ['none', 'none', 'few', 'few'][i])
            bad.append((t, fl))
        def run(tg, mp=1):
            with quiet():
                d = DistTargetsCopy(list(tg)); dts = fixtures.disttemplates(tmpl, d)
                return guarded(zf.zfind, d, dts, nminima=3, mp_procs=mp)
        layouts = [good, [bad[0][0]] + good, good[:1] + [bad[0][0], bad[1][0]] + good[1:], good + [bad[1][0]],
                   [b[0] for b in bad] + good, [bad[0][0]], [bad[2][0]]]
        intern = Intern(rtol=1e-9, atol=1e-12)
        ref = None
        for k, lay in enumerate(layouts):
            st, out = run(lay, mp=1 if k % 3 != 2 else 2)
            if st != 'ok':
                ck.bad(f'a run with targets without data failed: {type(out).__name__}: {out}', {'layout': [t.id for t in lay]})
                continue
            tab = out[1]
            rows = {t.id: [[intern(float(r[c])) for c in ('z', 'zerr', 'chi2', 'deltachi2')] +
                           [int(r['zwarn']), str(r['spectype']), str(r['subtype']), intern(realrank.strip(np.ravel(r['coeff'])))]
                           for r in tab[tab['targetid'] == t.id]] for t in lay}
            if ref is None:
                ref = {t.id: rows[t.id] for t in good}
            npix = {t.id: int(sum((s.ivar > 0).sum() for s in t.spectra)) for t in lay}
            ev.append(dict(kind='iso', outcome='ok', order=[t.id for t in lay],
                           targets=[dict(id=t.id, rows=rows[t.id], ref=ref.get(t.id, []) if t in good else [], good=any(t is g for g in good),
                                         pixels=npix[t.id],
                                         fits=[dict(npix=int(r['npixels']), nco=int(r['ncoeff']), zw=int(r['zwarn'])) for r in tab[tab['targetid'] == t.id]])
                                    for t in lay]))
    return ev


def weights(ck):
    """direct fits of targets with every kind of weight pattern"""
    import redrock.fitz as fz
    from redrock.targets import Spectrum, Target
    rng = ck.rng
    ev = []
    tmpl = fixtures.template('GALAXY', '', 0.0, 0.3, nz=7, nbasis=1, seed=5)
    for n in range(80 if ck.thorough else 25):
        sp = []
        for b in ['b', 'r', 'z'][:rng.choice([1, 2, 3])]:
            for _ in range(rng.choice([1, 1, 2])):
                w = fixtures.grid(b)
                p = rng.choice([0.0, 0.05, 0.3, 1.0])
                iv = np.array([0.0 if rng.random() >= p else rng.choice([1e-12, 1.0, 25.0]) for _ in w])
                sp.append(Spectrum(w, np.ones(len(w)) * rng.choice([1.0, -2.0]) + 0.1 * np.arange(len(w)) % 3, iv, fixtures.R_gauss(len(w)), band=b))
        t = Target(5, sp)
        if n % 3 == 2:
            t.compute_coadd()
        with quiet():
            st, f = guarded(fz.fitz, np.array([3., 2., 1., 2., 3., 2., 4.]), tmpl.redshifts, t, tmpl, nminima=2)
        if st != 'ok':
            ck.bad(f'fitz failed: {f!r}', {'pixels': [s.ivar.tolist() for s in sp]})
            continue
        ev.append(dict(kind='pix', outcome='ok', positive=[[bool(x > 0) for x in s.ivar] for s in t.spectra],
                       got=[int(x) for x in np.ravel(f['npixels'])]))
    return ev


def check(ck):
    c09.models(ck)
    ev = weights(ck)
    ev += isolation(ck, 4 if ck.thorough else 2)
    ck.sample(lambda: ev[0]['got'])
    ck.sample(lambda: {k: v for k, v in ev[-1].items()})
    ck.validate('T_Data', ev)
    from redrock.zwarning import ZWarningMask as ZW
    ev = c09.prepared(ck, 8 if ck.thorough else 2, ties=False)
    ev += realrank.events(ck, 6 if ck.thorough else 3)
    ck.validate('T_Rank', ev)
    ck.assumptions += ['chi2 values of a target without data are all the same large value; their order is not judged']


if __name__ == '__main__':
    main(check, 'C11')
