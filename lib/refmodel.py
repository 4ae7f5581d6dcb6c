"""Independent evaluation of templates: what a model should be, from the files alone."""
import os
import numpy as np

LYMAN = {'Calura12': [(1215.67, 0.0023, 3.64), (1025.72, 0.0023 / 5.2615, 3.64), (972.537, 0.0023 / 14.356, 3.64), (949.7431, 0.0023 / 29.85984, 3.64),
                      (937.8035, 0.0023 / 53.36202, 3.64)],
         'Kamble20': [(1215.67, 0.00554, 3.182)]}


def edges(c):
    c = np.asarray(c, float)
    m = (c[1:] + c[:-1]) / 2
    return np.concatenate([[2 * c[0] - m[0]], m, [2 * c[-1] - m[-1]]])


def rebin(x, y, e):
    """exact mean over each bin of the piecewise linear function through (x, y); nan outside"""
    x = np.asarray(x, float); y = np.asarray(y, float); e = np.asarray(e, float)
    cum = np.concatenate([[0], np.cumsum((y[1:] + y[:-1]) / 2 * np.diff(x))])
    i = np.clip(np.searchsorted(x, e, side='right') - 1, 0, len(x) - 2)
    d = e - x[i]
    F = cum[i] + d * (y[i] + (y[i + 1] - y[i]) / (x[i + 1] - x[i]) * d / 2)
    out = np.diff(F) / np.diff(e)
    out[(e[:-1] < x[0]) | (e[1:] > x[-1])] = np.nan
    return out


def igm(model, z, lobs):
    """transmission at one redshift"""
    lobs = np.asarray(lobs, float)
    if model in (None, 'None'):
        return np.ones_like(lobs)
    if model in LYMAN:
        tau = np.zeros_like(lobs)
        for line, A, B in LYMAN[model]:
            tau += np.where(lobs / (1 + z) < line, A * (lobs / line)**B, 0)
        return np.exp(-tau)
    if model == 'Inoue14':
        return inoue14(z, lobs)
    raise ValueError(model)


_tab = {}


def inoue14(z, lobs):
    """Inoue et al. 2014, equations 20 to 29, one wavelength at a time"""
    if not _tab:
        d = os.path.join(os.path.dirname(os.path.abspath(__file__)), 'igmdata')
        _tab['laf'] = np.loadtxt(d + '/LAFcoeff.txt'); _tab['dla'] = np.loadtxt(d + '/DLAcoeff.txt')
    out = np.ones(len(lobs))
    for k, w in enumerate(lobs):
        tau = 0.0
        for row in _tab['laf']:
            l, a1, a2, a3 = row[1:5]
            if w < l * (1 + z):
                tau += a1 * (w / l)**1.2 if w < 2.2 * l else a2 * (w / l)**3.7 if w < 5.7 * l else a3 * (w / l)**5.5
        for row, lam in zip(_tab['dla'], _tab['laf'][:, 1]):
            a1, a2 = row[2:4]
            if w < lam * (1 + z):
                tau += a1 * (w / lam)**2 if w < 3 * lam else a2 * (w / lam)**3
        L = 911.8; r = w / L; s = 1 + z
        if w < L * s:
            if z < 1.2:
                t = 0.3248 * (r**1.2 - s**-0.9 * r**2.1)
            elif z < 4.7:
                t = 2.545e-2 * (s**1.6 * r**2.1 - r**3.7) if r >= 2.2 else 2.545e-2 * s**1.6 * r**2.1 + 0.3248 * r**1.2 - 0.2496 * r**2.1
            else:
                t = (5.221e-4 * (s**3.4 * r**2.1 - r**5.5) if r >= 5.7 else 5.221e-4 * s**3.4 * r**2.1 + 0.2182 * r**2.1 - 2.545e-2 * r**3.7 if r >= 2.2
                     else 5.221e-4 * s**3.4 * r**2.1 + 0.3248 * r**1.2 - 3.140e-2 * r**2.1)
            tau += t
            if z < 2:
                t = 0.2113 * s**2 - 7.661e-2 * s**2.3 * r**-0.3 - 0.1347 * r**2
            else:
                t = (4.696e-2 * s**3 - 1.779e-2 * s**3.3 * r**-0.3 - 2.916e-2 * r**3 if r >= 3
                     else 0.6340 + 4.696e-2 * s**3 - 1.779e-2 * s**3.3 * r**-0.3 - 0.1347 * r**2 - 0.2905 * r**-0.3)
            tau += t
        out[k] = np.exp(-tau)
    return out


def read_template(path):
    from astropy.io import fits
    with fits.open(path, memmap=False) as h:
        hd = h['BASIS_VECTORS'].header; fl = np.array(h['BASIS_VECTORS'].data, float)
        w = hd['CRVAL1'] + hd['CDELT1'] * np.arange(hd['NAXIS1'])
        if hd.get('LOGLAM', 0):
            w = 10**w
        return dict(wave=w, flux=fl, type=hd['RRTYPE'].strip().upper(), sub=hd.get('RRSUBTYP', '').strip().upper(), igm=hd.get('RRIGM', 'None'),
                    method=hd.get('RRMETHOD', 'PCA'), z=np.array(h['REDSHIFTS'].data, float) if 'REDSHIFTS' in h else None)


def read_templates(files):
    out = {}
    for f in files:
        t = read_template(f)
        out[t['type'], t['sub']] = t
    return out


def spectrum(t, coeff, wave, z):
    c = np.zeros(len(t['flux'])); k = min(len(c), len(coeff)); c[:k] = np.asarray(coeff, float)[:k]
    return rebin(t['wave'] * (1 + z), c @ t['flux'], edges(wave)) * igm(t['igm'], z, wave)


def coadd_resolution(R, iv):
    """weighted mean of resolutions in band diagonal format, zero columns without weight"""
    R = np.asarray(R, float); iv = np.asarray(iv, float)
    W = iv.sum(0)
    return (R * iv[:, None, :]).sum(0) / np.where(W > 0, W, 1)


def convolve(Rdiag, v):
    import scipy.sparse
    nd, n = Rdiag.shape
    off = np.arange(nd // 2, -(nd // 2) - 1, -1)
    return scipy.sparse.dia_matrix((Rdiag, off), shape=(n, n)) @ v


def close(a, b, tol=1e-4):
    a = np.asarray(a, float); b = np.asarray(b, float)
    if a.shape != b.shape:
        return False
    s = max(np.max(np.abs(b)), 1e-30)
    return bool(np.all(np.abs(a - b) <= tol * s))
