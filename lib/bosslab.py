"""BOSS plates: spPlate, spCFrame and photoPosPlate files, what the reader should make of them, and runs of rrboss."""
import os
import numpy as np
from common import quiet


def wave(c0, c1, n):
    return 10**(c0 + c1 * np.arange(n))


def plate_file(path, plate, mjd, fibers, data, c0, c1, nexp=None, expids=(), shift=0):
    """data: dict fiber -> dict(flux, ivar, mask, wdisp); rows are fiber - 1"""
    from astropy.io import fits
    n = max(fibers); m = len(data[fibers[0]]['flux'])
    def image(k, dt, fill=0):
        a = np.full((n, m), fill, dt)
        for f in fibers:
            a[f - 1] = data[f][k]
        return a
    h = fits.HDUList([fits.PrimaryHDU(image('flux', '>f4')), fits.ImageHDU(image('ivar', '>f4')), fits.ImageHDU(image('mask', '>i4')),
                      fits.ImageHDU(image('mask', '>i4') * 0 + 7), fits.ImageHDU(image('wdisp', '>f4', 1)),
                      fits.BinTableHDU.from_columns([fits.Column(name='FIBERID', format='J', array=np.array(fibers))])])
    hd = h[0].header
    hd['PLATEID'] = plate; hd['MJD'] = mjd; hd['COEFF0'] = c0; hd['COEFF1'] = c1
    for c, k in (nexp or {}).items():
        hd[f'NEXP_{c.upper()}'] = k
    for i, e in enumerate(expids):
        hd[f'EXPID{i + 1:02d}'] = f'{e}-more'
    h.writeto(path, overwrite=True)
    return path


def frame_file(path, camera, plate, mjd, fibers, data):
    """a frame of one camera: 500 fibers at most, rows are (fiber - 1) modulo 500; every fiber has its own wavelengths"""
    from astropy.io import fits
    rows = [(f - 1) % 500 for f in fibers]; n = max(rows) + 1; m = len(data[fibers[0]]['flux'])
    def image(k, dt):
        a = np.ones((n, m), dt)
        for f, r in zip(fibers, rows):
            a[r] = data[f][k]
        for r in set(range(n)) - set(rows):
            a[r] = data[fibers[0]][k]
        return a
    h = fits.HDUList([fits.PrimaryHDU(image('flux', '>f4')), fits.ImageHDU(image('ivar', '>f4')), fits.ImageHDU(image('mask', '>i4')),
                      fits.ImageHDU(image('loglam', '>f8')), fits.ImageHDU(image('wdisp', '>f4')),
                      fits.BinTableHDU.from_columns([fits.Column(name='FIBERID', format='J', array=np.array(fibers))])])
    hd = h[0].header
    hd['PLATEID'] = plate; hd['MJD'] = mjd; hd['CAMERAS'] = camera
    h.writeto(path, overwrite=True)
    return path


def photo_file(path, things):
    from astropy.io import fits
    fits.HDUList([fits.PrimaryHDU(), fits.BinTableHDU.from_columns([fits.Column(name='THING_ID', format='J', array=np.array(things))])]).writeto(path, overwrite=True)


def crop(la, lo, hi):
    """la: wavelengths of all fibers of the file (rows) -> range of pixels"""
    return abs(la - lo).min(axis=0).argmin(), abs(la - hi).min(axis=0).argmin()


def expected(d, la, lim, usemask):
    """wave, flux, ivar and resolution of one fiber, apart from redrock"""
    a, b = lim
    w = la[a:b]; f = np.asarray(d['flux'], np.float32)[a:b].astype(float); iv = np.asarray(d['ivar'], np.float32)[a:b].astype(float)
    if usemask:
        iv = np.where(np.asarray(d['mask'])[a:b] != 0, 0, iv)
    return w, f, iv


def resolution(wd, half):
    """a pixel's light, spread over its neighbours by a Gaussian of wd pixels, all of it on the detector"""
    wd = np.where(np.asarray(wd, np.float32) < 1e-5, 2, np.asarray(wd, np.float32)).astype(float)
    n = len(wd); i = np.arange(n)
    k = np.exp(-(i[:, None] - i[None, :])**2 / 2. / wd[None, :]**2)
    k[abs(i[:, None] - i[None, :]) > half] = 0
    return k / k.sum(axis=0)


def rrboss(options, comm=None):
    from redrock.external import boss
    try:
        if comm is None:
            with quiet():
                boss.rrboss([str(o) for o in options])
        else:
            boss.rrboss([str(o) for o in options], comm=comm)
        return 'ok', None
    except BaseException as e:
        if comm is not None:
            raise
        return 'error', e


def rrboss_mpi(size, options, seed=0):
    import simmpi, mpilab
    w = simmpi.World(size, seed=seed)
    with quiet():
        res, err = w.run(lambda c: rrboss(options, comm=c))
    bad = [e for e in err if e is not None]
    return ('ok', None) if not bad else ('error', RuntimeError(mpilab.errtext(err)))
