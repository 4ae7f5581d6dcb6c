"""C10: chi-squared gaps and the small-gap warning."""
import itertools
import numpy as np
from common import main, quiet, guarded
import ranklab, c09

CUNIT = ranklab.CUNIT


def direct(ck):
    from redrock.zfind import calc_deltachi2
    rng = ck.rng
    ev = []
    lists = []
    # every list of three candidates over a few redshifts, chi2 values and flags
    for zs in itertools.product([0, 20, 40], repeat=3):
        for zw in itertools.product([0, 1024], repeat=3):
            for chis in ([10, 14, 46], [10, 46, 47], [10, 45, 81], [10, 10, 40]):
                lists.append([dict(k=k, zw=w, chi=c, lim=10) for k, w, c in zip(zs, zw, chis)])
    for _ in range(6000 if ck.thorough else 1200):
        n = rng.choice([1, 2, 3, 4, 6, 9, 9, 30] if _ % 8 == 0 else [1, 2, 3, 4, 6, 9])
        cs = ranklab.random_cands(rng, n, ['x'])
        mixed = rng.random() < 0.6
        neg = rng.choice([0, 0, 0, 25000 // 6])
        chi0 = rng.choice([0, 0, 0, 1 << 16, 1 << 26])          # spectra with very many pixels have a large chi2
        lim0 = rng.choice([1, 5, 10, 30])
        for c in cs:
            c['lim'] = rng.choice([1, 10, 10]) if mixed else lim0
            c['chi'] += chi0
            c['k'] -= neg
        if rng.random() < 0.7:
            cs.sort(key=lambda c: ((c['zw'] & ranklab.BADBITS) != 0, c['chi']))
        lists.append(cs)
    for i, cs in enumerate(lists):
        if ranklab.near_tie([c['k'] for c in cs], [c['lim'] for c in cs], 10000):
            continue
        chi2 = np.array([c['chi'] / CUNIT for c in cs]); z = np.array([c['k'] / 1e4 for c in cs]); zw = np.array([c['zw'] for c in cs])
        lims = np.array([100.0 * c['lim'] for c in cs])
        args = (chi2.copy(), z.copy(), zw.copy())
        same = len(set(lims)) == 1
        if same and i % 2 == 0:
            st, out = guarded(calc_deltachi2, *args, dvlimit=float(lims[0]))
        elif same and lims[0] == 1000 and i % 2 == 1:
            st, out = guarded(calc_deltachi2, *args)
        else:
            st, out = guarded(calc_deltachi2, *args, dvlimit=lims.copy())
        e = dict(kind='gap', outcome=st if st == 'ok' else repr(out), rows=cs, U=10000, thr=9 * CUNIT, tol=0, d=[], set=[])
        if st == 'ok':
            e['d'] = [ranklab.num(x * CUNIT) for x in np.asarray(out[0])]
            e['set'] = [bool(x) for x in np.asarray(out[1])]
            ck.ok(np.array_equal(args[0], chi2) and np.array_equal(args[2], zw), 'calc_deltachi2 changes its arguments', e)
        ev.append(e)
    return ev


def check(ck):
    c09.models(ck)
    ev = direct(ck)
    ck.extra['direct_calls'] = len(ev)
    ev += c09.prepared(ck, 6 if ck.thorough else 2, ties=False)
    import realrank
    ev += realrank.events(ck, 4 if ck.thorough else 1)
    ck.sample(lambda: ev[5]); ck.sample(lambda: ev[-1])
    ck.validate('T_Rank', ev)
    ck.assumptions += ['velocity distances within 2e-4 of the limit are not judged']


if __name__ == '__main__':
    main(check, 'C10')
