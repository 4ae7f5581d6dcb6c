"""DESI spectra files, templates and complete runs of rrdesi, all small."""
import os, sys
import numpy as np
import fixtures
from common import quiet

NDIAG = 5
GRIDS = {'b': np.linspace(3600., 4600., 24), 'r': 4516. + 48. * np.arange(26), 'z': np.append(np.linspace(5582., 9792., 39), 9795.)}   # with pixels on the masked sky lines and exactly at their borders


def grid(b):
    return GRIDS[b].copy()


def resolution(n, rs=None, sigma=0.8):
    x = np.arange(NDIAG // 2, -(NDIAG // 2) - 1, -1)
    s = sigma * (1 + (0.3 * rs.rand() if rs is not None else 0))
    k = np.exp(-x**2 / 2 / s**2); k /= k.sum()
    return np.repeat(k[:, None], n, axis=1)


def template_file(path, spectype, subtype, redshifts, nbasis=2, seed=0, method='PCA', igm='None', version='9.9', nw=760, w0=1000., dw=12.5, positive=False):
    from astropy.io import fits
    rs = np.random.RandomState(seed + 5)
    w = w0 + dw * np.arange(nw)
    fl = np.zeros((nbasis, nw))
    for b in range(nbasis):
        f = 1.0 + 0.3 * np.sin(w / (150. + 60 * b + 40 * rs.rand()))
        for _ in range(7):
            f = f + rs.uniform(0.5, 3) * np.exp(-(w - rs.uniform(w[0] + 300, w[-1] - 300))**2 / 2 / rs.uniform(30, 70)**2)
        if b and not positive:
            f = f - 1.3
        fl[b] = f
    h = fits.HDUList([fits.PrimaryHDU(), fits.ImageHDU(fl, name='BASIS_VECTORS'), fits.ImageHDU(np.asarray(redshifts, float), name='REDSHIFTS')])
    hd = h[1].header
    hd['CRVAL1'] = w0; hd['CDELT1'] = dw; hd['LOGLAM'] = 0; hd['RRTYPE'] = spectype; hd['RRSUBTYP'] = subtype
    hd['RRIGM'] = igm; hd['RRMETHOD'] = method; hd['VERSION'] = version
    h.writeto(path, overwrite=True)
    return path


def template_dir(d, stars=True, qso=True, galaxy=True, nz=14, seed=0, nmf=False):
    os.makedirs(d, exist_ok=True)
    out = []
    if galaxy:
        out.append(template_file(f'{d}/rrtemplate-GALAXY-None-v9.9.fits', 'GALAXY', '', np.linspace(0.0, 0.3, nz), 3, seed + 1, igm='None'))
    if qso:
        out.append(template_file(f'{d}/rrtemplate-QSO-HIZ-v10.0.12.fits', 'QSO', 'HIZ', np.linspace(1.6, 2.6, nz), 2, seed + 2, igm='Calura12', w0=800., nw=960, version='10.0.12',
                                 method='NMF' if nmf else 'PCA', positive=nmf))
    if stars:
        for i, s in enumerate(('WDA', 'WDB') if seed % 2 else ('F', 'WD')):
            out.append(template_file(f'{d}/rrtemplate-STAR-{s}-v9.9.fits', 'STAR', s, np.linspace(-0.002, 0.002, 9), 1 + i, seed + 3 + i))
    return out


def load(files):
    from redrock.templates import load_templates
    with quiet():
        return load_templates(list(files))


def make_row(tid, tmpl=None, z=0.1, rs=None, status=0, objtype='TGT', tile=1, exp=1, bands=('b', 'r', 'z'), noise=0.2, coeff=None, zero=False):
    rs = rs or np.random.RandomState(tid % 2**31)
    r = dict(tid=int(tid), status=int(status), objtype=objtype, tile=tile, exp=exp, flux={}, ivar={}, mask={}, R={})
    if tmpl is not None and coeff is None:
        coeff = np.concatenate([[2.0 + rs.rand()], rs.uniform(-0.3, 0.3, max(tmpl.nbasis - 1, 0))])
    for b in bands:
        w = grid(b); n = len(w)
        f = tmpl.eval(coeff, w, z) if tmpl is not None else 2 + rs.rand(n)
        r['R'][b] = resolution(n, rs)
        r['ivar'][b] = rs.uniform(0.5, 1.5, n) / noise**2
        r['flux'][b] = f + noise * rs.normal(size=n)
        r['mask'][b] = np.zeros(n, dtype=np.int32)
        if zero:
            r['ivar'][b][:] = 0
    return r


def exposures(rows):
    """exposures of coadded spectra, as indices of rows: one to three of each, night by night"""
    return [i for k in range(3) for i, r in enumerate(rows) if k <= r['tid'] % 3]


def write_file(path, rows, bands=('b', 'r', 'z'), coadded=False, masks=('b', 'r', 'z'), header=None, scores='brz', fmheader=None):
    from astropy.io import fits
    from astropy.table import Table
    n = len(rows)
    h = fits.HDUList([fits.PrimaryHDU()])
    h[0].header['SPGRP'] = 'cumulative'
    for k, v in (header or {}).items():
        h[0].header[k] = v
    fmhead = dict(fmheader or {})
    fm = Table()
    fm['TARGETID'] = np.array([r['tid'] for r in rows], dtype=np.int64)
    fm['COADD_FIBERSTATUS' if coadded else 'FIBERSTATUS'] = np.array([r['status'] for r in rows], dtype=np.int32)
    fm['OBJTYPE'] = np.array([r['objtype'] for r in rows], dtype='S3')
    fm['NUMB'] = np.array([r['tid'] % 1000 for r in rows], dtype=np.int32)
    if 'label' in rows[0]:       # a text, of a length of its own in every file
        fm['LABEL'] = np.array([r['label'] for r in rows], dtype='S')
    sc = Table(); sc['TARGETID'] = fm['TARGETID']
    for b in scores.upper():
        sc[f'TSNR2_LRG_{b}'] = np.array([r['tid'] % 997 for r in rows], dtype=np.float32)
    sc['OTHER'] = np.arange(n, dtype=np.float32)
    if coadded:
        xs = exposures(rows)
        fm['COADD_NUMEXP'] = np.array([xs.count(i) for i in range(n)], dtype=np.int16)
        sc['TSNR2_LRG'] = np.array([3 * (r['tid'] % 997) for r in rows], dtype=np.float32)
        ex = Table(); ex['TARGETID'] = fm['TARGETID'][xs]; ex['TILEID'] = np.array([rows[i]['tile'] for i in xs], dtype=np.int32)
        ex['EXPID'] = np.array([rows[i]['exp'] + 1000 * j for j, i in enumerate(xs)], dtype=np.int32); ex['FIBERSTATUS'] = fm['COADD_FIBERSTATUS'][xs]
    else:
        fm['TILEID'] = np.array([r['tile'] for r in rows], dtype=np.int32)
        fm['EXPID'] = np.array([r['exp'] for r in rows], dtype=np.int32)
        fm['NIGHT'] = np.array([20200000 + r['exp'] for r in rows], dtype=np.int32)
        fm['EXPTIME'] = np.full(n, 100., dtype=np.float32)
        fm['FIBER_X'] = np.array([r['exp'] % 50 for r in rows], dtype=np.float32)
        fm['LOCATION'] = np.array([r['exp'] % 500 for r in rows], dtype=np.int32)
    def bt(t, name):
        hd = fits.table_to_hdu(t); hd.name = name; return hd
    h.append(bt(fm, 'FIBERMAP'))
    for k, v in fmhead.items():
        h[-1].header[k] = v
    if coadded:
        h.append(bt(ex, 'EXP_FIBERMAP'))
    h.append(bt(sc, 'SCORES'))
    for b in bands:
        w = grid(b); B = b.upper()
        h.append(fits.ImageHDU(w, name=f'{B}_WAVELENGTH'))
        h.append(fits.ImageHDU(np.array([r['flux'][b] for r in rows], dtype=np.float32), name=f'{B}_FLUX'))
        h.append(fits.ImageHDU(np.array([r['ivar'][b] for r in rows], dtype=np.float32), name=f'{B}_IVAR'))
        if b in masks:
            h.append(fits.ImageHDU(np.array([r['mask'][b] for r in rows], dtype=np.int32), name=f'{B}_MASK'))
        h.append(fits.ImageHDU(np.array([r['R'][b] for r in rows], dtype=np.float32), name=f'{B}_RESOLUTION'))
    h.writeto(path, overwrite=True)
    return path


def rrdesi(options, comm=None, tdir=None):
    """run rrdesi in this process; returns ('ok', None) or ('error', exception)"""
    from redrock.external import desi
    old = os.environ.get('RR_TEMPLATE_DIR')
    if tdir:
        os.environ['RR_TEMPLATE_DIR'] = tdir
    try:
        if comm is None:
            with quiet():
                desi.rrdesi([str(o) for o in options])
        else:
            desi.rrdesi([str(o) for o in options], comm=comm)
        return 'ok', None
    except BaseException as e:
        if comm is not None:
            raise
        return 'error', e
    finally:
        if tdir and comm is None:
            if old is None:
                os.environ.pop('RR_TEMPLATE_DIR', None)
            else:
                os.environ['RR_TEMPLATE_DIR'] = old


def rrdesi_mpi(size, options, tdir=None, schedule=(), seed=0, mode='eager'):
    import simmpi, mpilab
    if tdir:
        os.environ['RR_TEMPLATE_DIR'] = tdir
    world = simmpi.World(size, schedule=schedule, seed=seed, mode=mode)
    with quiet():
        res, err = world.run(lambda c: rrdesi(options, comm=c))
    bad = [e for e in err if e is not None]
    return ('ok', None) if not bad else ('error', RuntimeError(mpilab.errtext(err))), world


def read_catalog(path):
    from astropy.table import Table
    from astropy.io import fits
    with fits.open(path, memmap=False) as h:
        names = [x.name for x in h]
        t = Table(h['REDSHIFTS'].data.copy())
        out = dict(names=names, z=t, header=h[0].header.copy(), headers={x.name: x.header.copy() for x in h})
        for k in ('FIBERMAP', 'EXP_FIBERMAP', 'TSNR2'):
            if k in names:
                out[k] = Table(h[k].data.copy())
        for k in names:
            if k.endswith('_MODEL') or k.endswith('_WAVELENGTH'):
                out[k] = np.array(h[k].data)
    return out


identifiers = fixtures.identifiers
