"""C13: the DESI reader gives every selected target all of its own spectra."""
import os
import numpy as np
from common import main, quiet, guarded
import desilab as D, simmpi, mpilab

BANDS = ('b', 'r', 'z')
CLASSES = ['nanflux', 'infflux', 'neginfflux', 'naniv', 'infiv', 'masked', 'neg3', 'neg7', 'neg20', 'noweight']


def build(ck, wd, tag, nfiles, coadded, rng, oneR=False, mixed=False):
    """files with a spectrum's identity in its first pixel; mixed: coadded and not"""
    pool = D.identifiers(rng, 6)
    files = []; paths = []; inp = {}
    for f in range(1, nfiles + 1):
        if mixed:
            coadded = rng.random() < 0.5
        tiles = rng.choice([(1,), (1,), (2,), (1, 2), (1, 2, 3)])
        bands = rng.choice([('b', 'r', 'z'), ('b', 'r', 'z'), ('r', 'b'), ('z',), ('z', 'b', 'r')])
        masks = tuple(b for b in bands if rng.random() < 0.65)
        k = rng.randint(1, 6)
        ids = rng.sample(pool, k)
        if not coadded:
            ids = ids + [rng.choice(ids) for _ in range(rng.randint(0, 5))]
            rng.shuffle(ids)
        rows = []; cls = []; tl = []
        for i, t in enumerate(ids, 1):
            r = D.make_row(t, rs=np.random.RandomState(rng.randrange(2**31)), tile=rng.choice(tiles), exp=f * 100 + i, bands=bands)
            tl.append(r['tile']); r['label'] = label(f, t)
            if oneR:
                r['R'] = {b: D.resolution(len(D.grid(b))) for b in bands}
            rc = {}
            for b in bands:
                n = len(D.grid(b)); c = ['normal'] * n
                fl = np.round(np.random.RandomState(rng.randrange(2**31)).uniform(1, 9, n) * 64) / 64
                iv = np.round(np.random.RandomState(rng.randrange(2**31)).uniform(0.5, 2, n) * 64) / 64
                mk = np.zeros(n, dtype=np.int64)
                fl[0] = f * 4096 + i * 16 + BANDS.index(b)
                for p in rng.sample(range(1, n), rng.randint(2, 12)):
                    x = rng.choice(CLASSES)
                    if x == 'masked' and b not in masks:
                        x = 'neg7'
                    c[p] = x
                    if x == 'nanflux': fl[p] = np.nan
                    if x == 'infflux': fl[p] = np.inf
                    if x == 'neginfflux': fl[p] = -np.inf
                    if x == 'naniv': iv[p] = np.nan
                    if x == 'infiv': iv[p] = rng.choice([np.inf, -np.inf])
                    if x == 'masked': mk[p] = 1 << rng.randrange(31)
                    if x.startswith('neg') and x != 'neginfflux': iv[p] = 4.0; fl[p] = -float(x[3:]) / 2
                    if x == 'noweight': iv[p] = 0
                r['flux'][b], r['ivar'][b], r['mask'][b] = fl, iv, mk
                rc[b] = c
                inp[f, i, b] = (fl.astype(np.float32).astype(float), iv.astype(np.float32).astype(float), r['R'][b])
            rows.append(r); cls.append(rc)
        # a number that only this file has, in the fiber map and the scores
        p = f'{wd}/{tag}-{f}.fits'
        D.write_file(p, rows, bands=bands, coadded=coadded, masks=masks, scores=rng.choice(['brz', 'b' + ''.join(x for x in bands if x != 'b')]))
        brand(p, f)
        paths.append(p)
        files.append(dict(ids=ids, exps=[ids[i] for i in D.exposures(rows)] if coadded else ids, bands=list(bands), cls=cls, coadded=coadded, tiles=tl))
    return files, paths, inp, pool


def label(f, t):
    return f'{"file" * f}-{t}'


def brand(p, f):
    from astropy.io import fits
    with fits.open(p, memmap=False) as h:
        ids = h['FIBERMAP'].data['TARGETID']
        h['FIBERMAP'].data['NUMB'][:] = f * 1000 + ids % 1000
        # scores are summed over the exposures and bands: only one row and band of a target counts
        first = np.array([t not in ids[:i] for i, t in enumerate(ids)])
        for b in 'BRZ':
            if f'TSNR2_LRG_{b}' not in h['SCORES'].columns.names:
                continue
            h['SCORES'].data[f'TSNR2_LRG_{b}'][:] = (f * 1000 + ids % 1000) * first * (b == 'B')
        if 'TSNR2_LRG' in h['SCORES'].columns.names:
            h['SCORES'].data['TSNR2_LRG'][:] = f * 1000 + ids % 1000
        if 'EXP_FIBERMAP' in h:
            h['EXP_FIBERMAP'].data['EXPID'][:] = f * 100 + 1 + np.arange(len(h['EXP_FIBERMAP'].data))
        h.writeto(p, overwrite=True)


def coadds(t, nsig=None):
    """spectra of the targets of one rank; nsig: coadd them here"""
    out = {}
    for x in t.local():
        if nsig is not None:
            x.compute_coadd(False, cosmics_nsig=nsig)
        out[int(x.id)] = [(str(s.band), np.array(s.flux, float), np.array(s.ivar, float), resdiag(s)) for s in x.spectra]
    return out


def samecoadds(a, b):
    return len(a) == len(b) and all(x[0] == y[0] and all(np.shape(u) == np.shape(v) and np.allclose(u, v, rtol=1e-5, atol=1e-7) for u, v in zip(x[1:], y[1:])) for x, y in zip(a, b))


def observe(t, inp, coadd):
    """what one rank has"""
    data = []
    for x in t.local():
        d = dict(tid=int(x.id), specs=[], same=[], ivar=[], flux=[])
        if not coadd:
            for s in x.spectra:
                v = int(round(float(s.flux[0]))) if np.isfinite(s.flux[0]) else -1
                key = (v // 4096, v % 4096 // 16, BANDS[v % 16] if 0 <= v % 16 < 3 else '?')
                if key not in inp:
                    d['specs'].append([0, str(s.band), 0]); d['same'].append(False); d['ivar'].append([]); d['flux'].append([])
                    continue
                fl, iv, R = inp[key]
                d['specs'].append([key[0], key[2], key[1]])
                n = len(D.grid(key[2]))
                d['same'].append(bool(len(s.flux) == n and np.array_equal(s.wave, D.grid(key[2])) and s.band == key[2]
                                      and np.allclose(resdiag(s), R, atol=1e-6)))
                d['ivar'].append(['zero' if o == 0 else 'same' if o == i else 'other' for o, i in zip(s.ivar, iv)])
                d['flux'].append(['zero' if o == 0 else 'same' if o == i else 'other' for o, i in zip(s.flux, fl)])
        data.append(d)
    return dict(all=[int(i) for i in t.all_target_ids], local=[int(i) for i in t.local_target_ids()], data=data,
                fiber=[[labelled(r, int(r['NUMB'] - r['TARGETID'] % 1000) // 1000), int(r['TARGETID'])] for r in t.fibermap],
                tsnr=[[int(round(float(r['TSNR2_LRG']) - r['TARGETID'] % 1000)) // 1000, int(r['TARGETID'])] for r in t.tsnr2],
                tiles=[int(i) for i in t.fibermap['TILEID']] if 'TILEID' in t.fibermap.colnames else [], numtile=[int(i) for i in t.fibermap['COADD_NUMTILE']] if 'COADD_NUMTILE' in t.fibermap.colnames else [],
                exps=exprows(t.exp_fibermap), coadds=coadds(t) if coadd else {})


def labelled(r, f):
    """the file of a row; 0: of which the text is not that of the file"""
    s = r['LABEL'] if 'LABEL' in r.colnames else label(f, r['TARGETID'])
    return f if (s.decode() if isinstance(s, bytes) else str(s)).strip() == label(f, r['TARGETID']) else 0


def exprows(t):
    return [[int(r['EXPID']) // 100, int(r['TARGETID']), int(r['EXPID']) % 100] for r in t]


def resdiag(s):
    R = s.R
    return np.asarray(R.data if R.data.ndim == 2 else R.todia().data)


def read(paths, size, kw, seed, mode, inp):
    from redrock.external.desi import DistTargetsDESI
    coadd = kw.get('coadd', True)
    if size == 0:
        with quiet():
            st, t = guarded(lambda: DistTargetsDESI(list(paths), **kw))
            return (st, [observe(t, inp, coadd)] if st == 'ok' else t)
    w = simmpi.World(size, seed=seed, mode=mode)
    with quiet():
        res, err = w.run(lambda c: observe(DistTargetsDESI(list(paths), comm=c, **kw), inp, coadd))
    bad = [e for e in err if e is not None]
    return ('error', mpilab.errtext(err)) if bad else ('ok', res)


def big(wd, size, n, seed):
    """many rows, each with its own flux, weight and resolution"""
    from redrock.external.desi import DistTargetsDESI
    old = dict(D.GRIDS)
    ids = np.where(np.arange(n) % 4001 < 3000, 70, 71 + np.arange(n) % 3)
    one = np.ones(8)
    rows = [dict(tid=int(ids[i]), status=0, objtype='TGT', tile=1, exp=i, flux={'b': one * i}, ivar={'b': one + i % 89}, mask={'b': 0 * one},
                 R={'b': np.full((5, 8), 0.2 + (i % 97) * 1e-3)}) for i in range(n)]
    try:
        D.GRIDS['b'] = np.linspace(3600., 3700., 8)
        D.write_file(wd + '/big.fits', rows, bands=('b',))
    finally:
        D.GRIDS.update(old)

    def obs(t):
        out = []
        for x in t.local():
            mine = np.where(ids == x.id)[0]
            out.append(dict(tid=int(x.id), rows=len(mine), got=len(x.spectra), wrong=sum(
                not (s.flux[3] == i and s.ivar[3] == 1 + i % 89 and abs(resdiag(s)[2, 3] - 0.2 - (i % 97) * 1e-3) < 1e-6) for s, i in zip(x.spectra, mine))))
        return out
    if size:
        w = simmpi.World(size, seed=seed, mode='eager')
        with quiet():
            res, err = w.run(lambda c: obs(DistTargetsDESI([wd + '/big.fits'], coadd=False, comm=c)))
        ok = not [e for e in err if e is not None]; why = mpilab.errtext(err) if not ok else ''
        res = [x for r in res for x in r] if ok else []
    else:
        with quiet():
            st, t = guarded(lambda: DistTargetsDESI([wd + '/big.fits'], coadd=False))
        ok = st == 'ok'; why = str(t) if not ok else ''; res = obs(t) if ok else []
    os.remove(wd + '/big.fits')
    return dict(kind='big', ok=ok, why=why[:300], ids=sorted(set(int(i) for i in ids)), res=res, size=size)


def selection(rng, files):
    """targetids / first, n: <<>>, 0, -1 is everything"""
    known = sorted({i for f in files for i in f['ids']})
    k = rng.choice(['all', 'ids', 'ids', 'range', 'range', 'first'])
    if k == 'all':
        return [], 0, -1, {}
    if k == 'ids':
        s = rng.sample(known, rng.randint(1, len(known)))
        return s, 0, -1, dict(targetids=s)
    least = min(len(set(f['ids'])) for f in files)
    a = rng.randint(0, least); n = rng.randint(0, least - a + (rng.random() < 0.25))
    if k == 'first':
        return [], a, -1, dict(first_target=a)
    return [], a, n, dict(first_target=a, n_target=n)


def check(ck):
    rng = ck.rng; wd = ck.work
    for nt, nr in ((2, 3),) if not ck.thorough else ((2, 3), (3, 3)):
        ck.model('Reader', f'CONSTANTS\n NT = {nt}\n NR = {nr}\nSPECIFICATION Spec\nINVARIANTS Once AllRows Matched\nCHECK_DEADLOCK FALSE\n')
    ev = []
    for k in range(160 if ck.thorough else 46):
        coadded = rng.random() < 0.4
        files, paths, inp, pool = build(ck, wd, 'in', 1 + k % 3, coadded, rng, mixed=k % 6 == 5)
        for rep in range(3):
            sel, first, n, kw = selection(rng, files)
            kw = dict(kw); nsig = rng.choice([5, 5, 10, -5, 2, 15, 30, 0])
            kw.update(coadd=rng.random() < 0.3, negflux_nsig=nsig, cache_Rcsr=rng.random() < 0.3, cosmics_nsig=rng.choice([0, 0, 1.5, 4]))
            size = rng.choice([0, 1, 2, 3, 5])
            st, r = read(paths, size, kw, rng.randrange(10**6), rng.choice(['eager', 'sync']), inp)
            e = dict(kind='read', ok=st == 'ok', why='' if st == 'ok' else str(r)[:300], files=files, sel=sel, first=first, n=n, coadd=kw['coadd'], nsig=abs(nsig),
                     size=size, all=[], local=[], dataids=[], data=[], fiber=[], tsnr=[], exps=[], tiles=[], numtile=[], summed=[])
            if st == 'ok' and kw['coadd']:
                # the coadd of the separate spectra with the same options
                from redrock.external.desi import DistTargetsDESI
                with quiet():
                    ref = coadds(DistTargetsDESI(list(paths), **dict(kw, coadd=False)), kw['cosmics_nsig'])
                e['summed'] = [samecoadds(s, ref.get(t, [])) for x in r for t, s in x['coadds'].items()]
            if st == 'ok':
                e.update(all=[x['all'] for x in r], local=[x['local'] for x in r], dataids=[[d['tid'] for d in x['data']] for x in r],
                         data=[d for x in r for d in x['data']], fiber=[x['fiber'] for x in r], tsnr=[x['tsnr'] for x in r], exps=[x['exps'] for x in r], tiles=[x['tiles'] for x in r], numtile=[x['numtile'] for x in r])
            ev.append(e)
    ck.extra['reads'] = len(ev)
    # more rows than fit into one message
    for size in (0, 2, 3) if ck.thorough else (2,):
        ev.append(big(wd, size, 10003 if size != 3 else 20001, rng.randrange(10**6)))
    # complete runs: pixel counts in the catalog
    D.template_dir(wd + '/t', galaxy=False, qso=False)
    for k in range(24 if ck.thorough else 8):
        coadded = k % 2 == 0
        files, paths, inp, pool = build(ck, wd, 'run', 1 + k % 3, coadded, rng, oneR=True)
        sel, first, n, kw = selection(rng, files)
        opt = ['-i', *paths, '-o', f'{wd}/o.fits']
        if sel:
            opt += ['--targetids=' + ','.join(map(str, sel))]
        elif kw and kw.get('n_target'):
            opt += ['--mintarget', first, '-n', n]
            if first + n > min(len(set(f['ids'])) for f in files):
                continue
        elif kw.get('first_target') and first < min(len(set(f['ids'])) for f in files):
            n = -1; opt += ['--mintarget', first]
        else:
            first, n = 0, -1
        nsig = rng.choice([5, 10, 2, 15, 0]); opt += ['--negflux-nsig', nsig]
        coadd = rng.random() < 0.6; sky = rng.random() < 0.6
        opt += [] if coadd else ['--allspec']
        opt += [] if sky else ['--no-skymask']
        if os.path.exists(f'{wd}/o.fits'):
            os.remove(f'{wd}/o.fits')
        if k % 4 == 3:
            (st, e), _ = D.rrdesi_mpi(2 + k % 3, opt, tdir=wd + '/t', seed=k)
        else:
            st, e = D.rrdesi(opt + ['--mp', 1 + k % 2], tdir=wd + '/t')
        z = D.read_catalog(f'{wd}/o.fits')['z'] if st == 'ok' else None
        ev.append(dict(kind='npix', ok=st == 'ok', why=str(e)[:300], files=files, sel=sel, first=first, n=n, coadd=coadd, nsig=nsig, skymask=sky, reach=D.NDIAG // 2,
                       wave={b: [int(x) for x in np.floor(D.grid(b))] for b in BANDS},
                       ids=[int(i) for i in z['TARGETID']] if z is not None else [], npix=[int(i) for i in z['NPIXELS']] if z is not None else []))
    ck.sample(lambda: {k: v for k, v in ev[0].items() if k in ('files', 'sel', 'first', 'n', 'all', 'local', 'fiber')})
    ck.validate('T_Reader', ev)
    ck.assumptions += ['requested target identifiers appear in at least one file', 'all files of a run are of one kind (coadded or not)',
                       'weights are non-negative in the files']


if __name__ == '__main__':
    main(check, 'C13')
