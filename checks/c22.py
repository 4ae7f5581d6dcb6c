"""C22: catalog, details and model agree row by row."""
import os
import numpy as np
from common import main, quiet, guarded, Intern
import desilab as D, refmodel as M

BANDS = ('b', 'r', 'z')


def build(wd, tag, nfiles, coadded, rng, tmpls, overlap=True, many=0):
    from astropy.io import fits
    from desispec.maskbits import fibermask
    files = []; paths = []; spec = {}
    pool = D.identifiers(rng, max(9, many + 4))
    for f in range(1, nfiles + 1):
        k = rng.randint(2, 5) if not many else many
        ids = rng.sample(pool if overlap else [p for p in pool if not any(p in g['ids'] for g in files)], k)
        if not coadded:
            ids = ids + [rng.choice(ids) for _ in range(rng.randint(0, 3))]
            rng.shuffle(ids)
        rows = []
        for i, t in enumerate(ids):
            tm = tmpls[t % len(tmpls)]
            zz = tm.redshifts; z = float(zz[1] + (zz[-2] - zz[1]) * ((t * 31 // 7) % 100) / 100)
            kind = (t * 7919 // 701) % 10
            r = D.make_row(t, tm, z, rs=np.random.RandomState(rng.randrange(2**31)), exp=f * 100 + i + 1, noise=0.1,
                           coeff=np.concatenate([[2.0 + t % 5], np.full(tm.nbasis - 1, 0.3)]), status=int(fibermask.BROKENFIBER) if kind == 1 else 0,
                           objtype='SKY' if kind == 2 else 'BAD' if kind == 3 else 'TGT')
            u = 2.**[0, 0, 17, -20, 0][(t * 7919 // 97) % 5]          # bright and faint targets
            for b in BANDS:
                n = len(D.grid(b))
                r['flux'][b] = r['flux'][b] * u; r['ivar'][b] = r['ivar'][b] / u**2
                if kind == 9:       # below zero by less than five sigma
                    r['flux'][b] = -r['flux'][b]; r['ivar'][b] = r['ivar'][b] * (0.2 * u / np.abs(r['flux'][b]).max())**2
                if kind == 4:
                    r['ivar'][b][:] = 0
                elif kind in (5, 6):
                    r['mask'][b][rng.sample(range(n), 3)] = 4
                r['flux'][b] = np.maximum(r['flux'][b], -1e9 if kind == 9 else 0.01 * u).astype(np.float32)
                w = np.where(r['mask'][b] != 0, 0, r['ivar'][b].astype(np.float32))
                spec.setdefault((t, b), []).append((r['R'][b].astype(np.float32), w, f))
            rows.append(r)
        p = f'{wd}/{tag}-{f}.fits'
        D.write_file(p, rows, coadded=coadded, header=heads(f), fmheader=dict(NIGHTLY=f * 11, SURVEY=f'fm{f}'))
        import c13
        c13.brand(p, f)
        paths.append(p); files.append(dict(ids=ids, exps=[ids[i] for i in D.exposures(rows)] if coadded else ids, bands=list(BANDS)))
    return files, paths, spec


HEADS = dict(SPGRPVAL=7, TILEID=100, SPECTRO=3, PETAL=3, NIGHT=20220101, EXPID=55, HPXPIXEL=9, HPXNSIDE=64, HPXNEST=True, SURVEY='sv', PROGRAM='dark', FAPRGRM='darkfa')


def heads(f):
    """identification of a file: a part of the cards, those of the first file are those of the results"""
    return {k: f % 2 == 0 if isinstance(v, bool) else f - 1 if k in ('PETAL', 'SPECTRO') else v + f if isinstance(v, int) else f'{v}{f}' for i, (k, v) in enumerate(HEADS.items()) if i % 4 != f % 4}


def headed(h, want):
    return all(h.get(k) == v for k, v in want.items()) and not any(k in h for k in HEADS if k not in want) and h.get('SPGRP') == 'cumulative'


def catrow(it, r, up):
    g = lambda c: r[c.upper() if up else c]
    s = lambda x: (x.decode() if isinstance(x, bytes) else str(x)).strip()
    co = list(np.asarray(g('coeff'), np.float32))
    while co and co[-1] == 0:
        co.pop()
    return it(np.array([float(g('z')), np.float32(g('zerr')), np.float32(g('chi2')), np.float32(g('deltachi2')), int(g('zwarn')), int(g('npixels'))] + co)) * 100 + \
        sum(map(ord, s(g('spectype')) + s(g('subtype')) + s(g('fitmethod')))) % 100


def check(ck):
    rng = ck.rng; wd = ck.work
    ck.model('Rows', 'CONSTANTS\n Targets = {1, 2, 3, 4}\n Ranks = {0, 1, 2}\n Order <- Order4\nSPECIFICATION Spec\nINVARIANT Aligned\nCHECK_DEADLOCK FALSE\n')
    ck.expect_violation('Rows', 'CONSTANTS\n Targets = {1, 2, 3}\n Ranks = {0, 1}\n Order <- Order3\nSPECIFICATION SpecRaw\nINVARIANT Aligned\nCHECK_DEADLOCK FALSE\n', 'Aligned is violated')
    sets = []
    for d, kw in (('/t', dict()), ('/t2', dict(seed=1, nmf=True))):
        f = D.template_dir(wd + d, nz=8, **kw)
        sets.append((wd + d, D.load(f), M.read_templates(f)))
    ev = []
    for k in range(60 if ck.thorough else 24):
        ev.append(evaluation(rng, *sets[k % 2]))
        ev.append(table(rng, *sets[k % 2]))
    n = 40 if ck.thorough else 14
    for k in range(n):
        tdir, tm, ref = sets[(k // 2) % 2]
        coadded = rng.random() < 0.6
        files, paths, spec = build(wd, 'in', 1 + (k % 3), coadded, rng, tm, many=14 if k == 5 else 0)
        import c13
        sel, first, cnt, kw = c13.selection(rng, files)
        if k < 3 or k == 5:
            sel, first, cnt = [], 0, -1
        elif not sel and (first if cnt < 0 else first + cnt - 1) >= min(len(set(f['ids'])) for f in files):
            first, cnt = 0, -1
        if cnt == 0:
            first, cnt = 0, -1
        # the selection is per file
        kept = {f: sel or list(dict.fromkeys(x['ids']))[first:None if cnt < 0 else first + cnt] for f, x in enumerate(files, 1)}
        spec = {(t, b): [x for x in v if t in kept[x[2]]] for (t, b), v in spec.items()}
        allspec = not coadded and rng.random() < 0.3
        hasmodel = k % 5 != 4; hasdet = k % 4 != 3
        opt = ['-i', *paths, '-o', f'{wd}/o.fits']
        opt += ['--model', f'{wd}/m.fits'] if hasmodel else []
        opt += ['-d', f'{wd}/d.h5'] if hasdet else []
        opt += ['--allspec'] if allspec else []
        if sel:
            opt += ['--targetids=' + ','.join(map(str, sel))]
        elif cnt >= 0:
            opt += ['--mintarget', first, '-n', cnt]
        elif first:
            opt += ['--mintarget', first]
        for p in ('o.fits', 'm.fits', 'd.h5'):
            if os.path.exists(f'{wd}/{p}'):
                os.remove(f'{wd}/{p}')
        if k % 2:
            (st, err), _ = D.rrdesi_mpi(rng.choice([1, 2, 3, 5]), opt, tdir=tdir, seed=k)
        else:
            st, err = D.rrdesi(opt + ['--mp', rng.choice([1, 2, 3])], tdir=tdir)
        there = all(os.path.exists(f'{wd}/{p}') for p in ['o.fits'] + ['m.fits'] * hasmodel + ['d.h5'] * hasdet)
        ok = st == 'ok' and there
        e = dict(kind='run', ok=ok, why=(str(err)[:300] if st != 'ok' else 'a file is missing') if not ok else '', files=files, sel=sel, first=first, n=cnt, hasmodel=hasmodel, hasdet=hasdet, allspec=allspec, how=opt[-1], red=[], fib=[], tsnr=[],
                 mred=[], det=[], cat=[], mcat=[], dcat=[], bands=list(BANDS), mbands=[], model=[], fit=[], exps=[], heads=[], zsame=[])
        if ok:
            it = Intern(rtol=1e-5, atol=1e-12)
            c = D.read_catalog(f'{wd}/o.fits'); z = c['z']
            e['red'] = [int(i) for i in z['TARGETID']]
            e['cat'] = [catrow(it, r, True) for r in z]
            e['fib'] = [[int(r['NUMB'] - r['TARGETID'] % 1000) // 1000, int(r['TARGETID'])] for r in c['FIBERMAP']]
            e['tsnr'] = [[int(round(float(r['TSNR2_LRG']) - r['TARGETID'] % 1000)) // 1000, int(r['TARGETID'])] for r in c['TSNR2']]
            e['exps'] = c13.exprows(c['EXP_FIBERMAP'])
            e['heads'] = [headed(c['header'], heads(1)), c['headers']['FIBERMAP'].get('NIGHTLY') in [11 * f for f in range(1, len(files) + 1)]]
            e['fit'] = [bool(np.any(r['COEFF'] != 0)) for r in z]
            if hasdet:
                from redrock.results import read_zscan
                with quiet():
                    _, zf = read_zscan(f'{wd}/d.h5')
                b = zf[zf['znum'] == 0]
                e['det'] = [int(i) for i in b['targetid']]
                e['dcat'] = [catrow(it, r, False) for r in b]
                zs = {int(r['targetid']): float(r['z']) for r in b}
                e['zsame'] = [abs(zs.get(int(r['TARGETID']), 9) - float(r['Z'])) < 1e-12 for r in z]
            if hasmodel:
                m = D.read_catalog(f'{wd}/m.fits'); mz = m['z']
                e['mred'] = [int(i) for i in mz['TARGETID']]
                e['heads'].append(headed(m['header'], heads(1)))
                e['mcat'] = [catrow(it, r, True) for r in mz]
                e['mbands'] = [x[0].lower() for x in m['names'] if x.endswith('_MODEL')]
                for b in e['mbands']:
                    img = m[b.upper() + '_MODEL']
                    e['model'].append([classify(img[i], mz[i], spec.get((int(mz['TARGETID'][i]), b), []), b, ref, allspec) for i in range(len(img))]
                                      if np.allclose(m[b.upper() + '_WAVELENGTH'], D.grid(b)) else ['wavelengths'])
        ev.append(e)
    ck.extra['models_compared'] = sum(len(b) for e in ev for b in e.get('model', []))
    ck.extra['own'] = sum(x == 'own' for e in ev for b in e.get('model', []) for x in b)
    ck.sample(lambda: ev[0])
    ck.validate('T_Rows', ev)
    ck.assumptions += ['all targets have all bands', 'models agree within 1e-4 of their maximum (the catalog holds coefficients in single precision)',
                       'with --allspec the model is that of any of the exposures of the target']


def evaluation(rng, tdir, tm, ref):
    """models of targets for a table of given best fits, with any coefficients zero"""
    from redrock.targets import DistTargetsCopy, Target, Spectrum
    from desispec.resolution import Resolution
    from astropy.table import Table
    ids = rng.sample(range(1, 10**6), 5)
    tg = []; spec = {}
    for t in ids:
        sp = []
        for b in BANDS:
            rs = np.random.RandomState(rng.randrange(2**31)); w = D.grid(b); n = len(w)
            R = D.resolution(n, rs)
            sp.append(Spectrum(w, np.ones(n), np.ones(n), Resolution(R), band=b))
            spec[t, b] = R
        tg.append(Target(t, sp))
    nmax = max(t.nbasis for t in tm)
    z = Table(); order = rng.sample(ids, 5); rows = []
    for t in order:
        x = rng.choice(tm)
        c = np.zeros(nmax)
        c[:x.nbasis] = [rng.choice([0, 0, rng.uniform(0.2, 3), -rng.uniform(0.2, 3)]) for _ in range(x.nbasis)]
        if x.method == 'NMF':
            c = np.abs(c)
        rows.append((t, x.template_type, x.sub_type, rng.uniform(x.redshifts[0], x.redshifts[-1]), c, x.method))
    z = Table(rows=rows, names=['TARGETID', 'SPECTYPE', 'SUBTYPE', 'Z', 'COEFF', 'FITMETHOD'])
    d = DistTargetsCopy(tg)
    try:
        with quiet():
            m = d.eval_models(z, {(x.template_type, x.sub_type): x for x in tm})
        ids2 = [int(i) for i in d.local_target_ids()]
        ok, why = True, ''
    except Exception as err:
        ok, why, m, ids2 = False, repr(err), [], []
    pos = {t: i for i, t in enumerate(order)}
    got = []
    for t, x in zip(ids2, m):
        for b in BANDS:
            r = z[pos[t]]
            got.append('missing' if b not in x else classify(np.asarray(x[b]), r, [(spec[t, b], None)], b, ref, True))
    want = ['own' if np.any(z[pos[t]]['COEFF'] != 0) else 'zero' for t in ids2 for b in BANDS]
    return dict(kind='eval', ok=ok, why=why[:300], ids=sorted(ids), local=sorted(ids2), want=want, got=got)


def table(rng, tdir, tm, ref):
    """models of the rows of a table at given wavelengths, with and without resolution (templates.eval_model)"""
    from redrock.templates import eval_model
    from desispec.resolution import Resolution
    from astropy.table import Table
    n = rng.randint(1, 6); nmax = max(t.nbasis for t in tm) + rng.choice([0, 0, 3]); rows = []
    for t in range(n):
        x = rng.choice(tm)
        c = np.full(nmax, 7.7); c[:x.nbasis] = [rng.choice([0, rng.uniform(0.2, 3), -rng.uniform(0.2, 3)]) for _ in range(x.nbasis)]
        rows.append((x.template_type, x.sub_type, rng.uniform(x.redshifts[0], x.redshifts[-1]), c))
    z = Table(rows=rows, names=['SPECTYPE', 'SUBTYPE', 'Z', 'COEFF'])
    bands = rng.sample(BANDS, rng.randint(1, 3)); asdict = len(bands) > 1 or rng.random() < 0.5; how = rng.choice(['none', 'R', 'R'])
    Rd = {b: [D.resolution(len(D.grid(b)), np.random.RandomState(rng.randrange(2**31))) for _ in range(n)] for b in bands}
    R = None if how == 'none' else {b: [Resolution(r) for r in Rd[b]] for b in bands}
    w = {b: D.grid(b) for b in bands}
    kw = dict(templates={(x.template_type, x.sub_type): x for x in tm})
    if R is not None or rng.random() < 0.5:
        kw['R'] = R if asdict or R is None else R[bands[0]]
    mismatch = asdict and R is not None and rng.random() < 0.25
    if mismatch:          # resolutions of other bands than the wavelengths, or without bands, are refused
        x = {b: [Resolution(D.resolution(len(D.grid(b)), np.random.RandomState(1)))] * n for b in BANDS}
        kw['R'] = rng.choice([{b: x[b] for b in bands[1:]}, dict(x, extra=x['b']), x[bands[0]]])
    if rng.random() < 0.3:        # the default templates
        del kw['templates']; os.environ['RR_TEMPLATE_DIR'] = tdir
    with quiet():
        st, m = guarded(eval_model, z, w if asdict else w[bands[0]], **kw)
    os.environ.pop('RR_TEMPLATE_DIR', None)
    if mismatch:
        return dict(kind='eval', ok=st != 'ok', why='wrong resolutions accepted', ids=[], local=[], want=[], got=[])
    got = []
    if st == 'ok':
        m = m if asdict else {bands[0]: m}
        for b in bands:
            for i in range(n):
                t = ref[z['SPECTYPE'][i], z['SUBTYPE'][i]]
                f = M.spectrum(t, z['COEFF'][i][:len(t['flux'])], w[b], z['Z'][i])
                if R is not None:
                    f = M.convolve(Rd[b][i], f)
                got.append('own' if b in m and np.shape(m[b]) == (n, len(w[b])) and M.close(m[b][i], f, 1e-5) else 'other')
    return dict(kind='eval', ok=st == 'ok', why=repr(m)[:300] if st != 'ok' else '', ids=bands, local=[b for b in bands if st == 'ok' and b in m], want=['own'] * (n * len(bands)), got=got)


def classify(row, z, spectra, b, ref, allspec):
    if not np.any(row):
        return 'zero'
    s = lambda x: (x.decode() if isinstance(x, bytes) else str(x)).strip()
    t = ref.get((s(z['SPECTYPE']), s(z['SUBTYPE'])))
    if t is None or not spectra:
        return 'other'
    v = M.spectrum(t, z['COEFF'], D.grid(b), float(z['Z']))
    Rs = [x[0] for x in spectra] if allspec else [M.coadd_resolution([x[0] for x in spectra], [x[1] for x in spectra])]
    return 'own' if any(M.close(row, M.convolve(np.asarray(R, float), v)) for R in Rs) else 'other'


if __name__ == '__main__':
    main(check, 'C22')
