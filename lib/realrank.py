"""Real runs of zfind judged against the candidates which the public fitz returns for the same scan."""
import numpy as np
import fixtures, ranklab
from common import quiet, guarded, Intern

U = 100000


def make_templates(seed, stars=True):
    T = fixtures.template
    out = [T('GALAXY', '', 0.0, 0.4, nz=40, nbasis=2, seed=seed), T('QSO', 'LOZ', 0.05, 0.5, nz=30, nbasis=3, seed=seed + 1),
           T('QSO', 'HIZ', 0.3, 0.8, nz=30, nbasis=1, seed=seed + 2, igm='Calura12')]
    if stars:
        out += [T('STAR', 'F', -0.002, 0.002, nz=21, nbasis=1, seed=seed + 3), T('STAR', 'M', -0.002, 0.002, nz=21, nbasis=2, seed=seed + 4)]
    return out


def mask_target(t, rng, mode):
    """leave only some pixels with weight"""
    from redrock.targets import Spectrum, Target
    sp = []
    npx = [len(s.ivar) for s in t.spectra]
    tot = sum(npx)
    if mode == 'none':
        keep = 0
    elif mode == 'few':
        keep = rng.choice([1, 5, 9, 10, 11, 15, 19, 20, 21, 25, 29, 30, 31, 40])
    else:
        keep = tot
    idx = sorted(rng.sample(range(tot), min(keep, tot)))
    flag = np.zeros(tot, dtype=bool); flag[idx] = True
    o = 0
    for s in t.spectra:
        iv = s.ivar.copy(); f = flag[o:o + len(iv)]; o += len(iv)
        iv[~f] = 0.0
        flux = s.flux.copy()
        flux[~f] = rng.choice([0.0, 1e3, -5.0])
        sp.append(Spectrum(s.wave, flux, iv, s.R, band=s.band))
    return Target(t.id, sp, meta=t.meta), flag


def run_real(ck, seed, ntarg=6, nmin=3, modes=('full', 'few', 'none'), mp_procs=1):
    import redrock.zfind as zf, redrock.fitz as fz
    from redrock.targets import DistTargetsCopy
    from redrock.zscan import calc_zchi2_targets
    rng = ck.rng
    tmpl = make_templates(seed)
    tg = []; flags = {}
    ids = rng.sample(range(1, 10**6), ntarg)
    for i, tid in enumerate(ids):
        src = tmpl[i % len(tmpl)]
        t = fixtures.target(tid, src, rng.uniform(max(src.redshifts[0], 0), src.redshifts[-1]), nspec=rng.choice([1, 2, 3]), seed=seed * 50 + i,
                            noise=rng.choice([0.05, 0.5, 3.0]), meta=dict(A=tid))
        t, fl = mask_target(t, rng, modes[i % len(modes)])
        tg.append(t); flags[tid] = fl
    with quiet():
        d = DistTargetsCopy(tg)
        dts = fixtures.disttemplates(tmpl, d)
        scan = calc_zchi2_targets(d, dts)
        fits = {t.id: {dt.template.full_type: fz.fitz(scan[t.id][dt.template.full_type]['zchi2'] + scan[t.id][dt.template.full_type]['penalty'],
                       dt.template.redshifts, t, dt.template, nminima=nmin) for dt in dts} for t in tg}
        st, out = guarded(zf.zfind, d, dts, nminima=nmin, mp_procs=mp_procs)
    return tmpl, tg, flags, fits, st, out


def fit_rows(f):
    n = len(f['chi2'])
    return [{k: np.asarray(f[k][i]) for k in f} for i in range(n)]


def sc(x):
    return float(np.asarray(x).reshape(-1)[0])


def events(ck, nrounds, npix_from_flags=False, stats=None):
    ev = []
    for rnd in range(nrounds):
        nmin = [3, 1, 2, 5, 4, 3][rnd % 6]
        tmpl, tg, flags, fits, st, out = run_real(ck, 11 + 7 * rnd + ck.seed, ntarg=9, nmin=nmin, mp_procs=1 if rnd % 2 == 0 else 2)
        if st != 'ok':
            ck.bad(f'zfind failed: {type(out).__name__}: {out}')
            continue
        table = out[1]
        for t in tg:
            cl = []
            for tp in tmpl:
                for r in fit_rows(fits[t.id][tp.full_type]):
                    cl.append((r, tp))
            rows_t = table[table['targetid'] == t.id]
            chis = [sc(r['chi2']) for r, _ in cl]
            big = max(chis + [1.0]) > 1e6
            unit = 1.0 if big else max(1e-3, max(chis + [1.0]) / 1e8)
            q = lambda x: int(round(x / unit))
            ks = [sc(r['z']) * U for r, _ in cl]
            lims = [1 if tp.template_type == 'STAR' else 10 for _, tp in cl]
            flat = not np.any(flags[t.id])
            if not flat and (ranklab.near_tie(ks, lims, U) or near_chi(chis, unit)):
                if stats is not None:
                    stats['skipped'] = stats.get('skipped', 0) + 1
                continue
            intern = Intern(rtol=1e-9, atol=1e-12)
            cols = lambda r: [intern(sc(r['zerr'])), intern(sc(r['z'])), intern(sc(r['chi2'])), intern(np.ravel(r['zz'])), intern(np.ravel(r['zzchi2'])),
                              str(np.ravel(r['fitmethod'])[0]), int(sc(r['npixels'])), intern(strip(np.ravel(r['coeff'])))]
            if flat:
                # every chi2 is the same large value: only the warnings, ranks and values can be judged
                chi = lambda x: 0
            else:
                chi = lambda x: q(x)
            cands = [dict(type=tp.template_type, sub=tp.sub_type, chi=chi(sc(r['chi2'])), k=0 if flat else int(round(sc(r['z']) * U)),
                          lim=1 if tp.template_type == 'STAR' else 10, zw=int(sc(r['zwarn'])),
                          npix=int(np.sum(flags[t.id])), nco=tp.nbasis, cols=cols(r), zkey=(sc(r['z']), sc(r['chi2']), tp.full_type)) for r, tp in cl]
            rows = []
            for r in rows_t:
                ft = str(r['spectype']) + ((':::' + str(r['subtype'])) if str(r['subtype']) else '')
                cid = 0
                for i, c in enumerate(cands):
                    if abs(c['zkey'][0] - r['z']) < 1e-12 and (c['zkey'][1] == r['chi2'] or abs(c['zkey'][1] - r['chi2']) < 1e-9 * abs(r['chi2'])) \
                            and c['type'] == str(r['spectype']) and c['sub'] == str(r['subtype']):
                        cid = i + 1
                rows.append(dict(id=cid, cols=cols(r), type=str(r['spectype']), sub=str(r['subtype']), znum=int(r['znum']),
                                 d=0 if flat else q(r['deltachi2']), zw=int(r['zwarn'])))
            if flat:
                # chi2 all equal; small gap flags as reported are not judged here
                for r_ in rows:
                    r_['zw'] &= ~4
            for c in cands:
                del c['zkey']
            e = dict(kind='table', outcome='ok', nmin=nmin, U=U, thr=-1 if flat else int(round(9 / unit)), tol=2, cands=cands, rows=rows)
            e['flat'] = flat
            ev.append(e)
    return ev


def strip(a):
    a = list(np.asarray(a, dtype=float))
    while a and a[-1] == 0:
        a.pop()
    return a


def near_chi(chis, unit):
    for i in range(len(chis)):
        for j in range(i):
            d = abs(chis[i] - chis[j])
            if abs(d - 9) < 4 * unit or d < 2 * unit:
                return True
    return False
