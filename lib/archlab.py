"""Archetype files, and the fit of every archetype to a target computed apart from redrock (plain weighted least squares)."""
import os, itertools
import numpy as np
import refmodel


def archetype_file(path, spectype, n, seed=0, w0=1000., dw=10., nw=900, subtypes=None, loglam=False, version='1.0', kind=None, zero=()):
    from astropy.io import fits
    rs = np.random.RandomState(seed + 77)
    w = w0 + dw * np.arange(nw)
    if loglam:
        l0 = np.log10(w0); dl = 0.0004 if nw is None else (np.log10(w0 + dw * nw) - l0) / nw
        w = 10**(l0 + dl * np.arange(nw))
    fl = np.zeros((n, nw))
    for i in range(n):
        f = 1.0 + 0.3 * np.sin(w / (150. + 400 * rs.rand())) + rs.uniform(-0.4, 0.4) * (w - w.mean()) / np.ptp(w)
        for _ in range(8):
            f = f + rs.uniform(0.3, 3) * np.exp(-(w - rs.uniform(w[0] + 300, w[-1] - 300))**2 / 2 / rs.uniform(30, 70)**2)
        fl[i] = f
    for i in zero:
        fl[i] = 0
    if subtypes is None:
        subtypes = [('ELG', 'LRG', 'BGS', '')[i % 4] for i in range(n)]
    c = fits.ColDefs([fits.Column(name='ARCHETYPE', format=f'{nw}E', array=fl), fits.Column(name='SUBTYPE', format='20A', array=np.array(subtypes, dtype='S20'))])
    h = fits.BinTableHDU.from_columns(c, name='ARCHETYPES')
    h.header['CRVAL1'] = np.log10(w0) if loglam else w0
    h.header['CDELT1'] = dl if loglam else dw
    h.header['LOGLAM'] = int(loglam); h.header['RRTYPE'] = spectype; h.header['VERSION'] = version
    fits.HDUList([fits.PrimaryHDU(), h]).writeto(path, overwrite=True)
    return path


class Arch:
    """the archetypes of a file, read without redrock"""
    def __init__(self, path):
        from astropy.io import fits
        with fits.open(path, memmap=False) as h:
            d = h['ARCHETYPES'].data; hd = h['ARCHETYPES'].header
            self.flux = np.array(d['ARCHETYPE'], dtype=float)
            self.type = hd['RRTYPE'].strip()
            self.names = [f'{str(s).strip()}_{i}' for i, s in enumerate(d['SUBTYPE'])]
            self.wave = hd['CRVAL1'] + hd['CDELT1'] * np.arange(self.flux.shape[1])
            if hd['LOGLAM']:
                self.wave = 10**self.wave
            self.version = hd['VERSION']

    def spectrum(self, i, wave, z):
        return refmodel.rebin((1 + z) * self.wave, self.flux[i], refmodel.edges(wave)) * refmodel.igm('Inoue14', z, wave)


def legendre(n, w):
    x = 2 * (w - w.min()) / (w.max() - w.min()) - 1
    return [np.polynomial.legendre.Legendre.basis(i)(x) for i in range(n)]


def columns(spectra, arch, which, z, nleg, percam, bands):
    """design matrix: archetypes, then the polynomials (of every camera); rows are all pixels of all spectra"""
    rows = []
    for s in spectra:
        R = np.asarray(s.R.todense()) if not isinstance(s.R, np.ndarray) else s.R
        a = [arch.spectrum(i, s.wave, z) for i in which]
        p = legendre(nleg, s.wave)
        if percam:
            k = bands.index(s.band); zero = np.zeros(len(s.wave))
            p = [zero] * (k * nleg) + p + [zero] * ((len(bands) - k - 1) * nleg)
        c = np.array(a + p).reshape(len(a) + len(p), len(s.wave)).T
        rows.append(R.dot(c))
    return np.vstack(rows)


def solve(A, f, w, npos, prior):
    """weighted least squares, the first npos coefficients not negative: by trying which of them are zero"""
    n = A.shape[1]; best = None
    extra = np.sqrt(prior) * np.eye(n)[npos:] if prior else np.zeros((0, n))
    B = np.vstack([A * np.sqrt(w)[:, None], extra]); y = np.concatenate([np.sqrt(w) * f, np.zeros(len(extra))])
    sc = np.sqrt((B**2).sum(axis=0)); sc[sc == 0] = 1
    for k in range(npos + 1):
        for zero in itertools.combinations(range(npos), k):
            use = [i for i in range(n) if i not in zero]
            x = np.zeros(n)
            x[use] = np.linalg.lstsq(B[:, use] / sc[use], y, rcond=1e-13)[0] / sc[use]
            if (x[:npos] < 0).any():
                continue
            q = ((B.dot(x) - y)**2).sum()
            if best is None or q < best[0] - 1e-12 * max(1, q):
                best = (q, x, zero)
    q, x, zero = best
    return float((w * (f - A.dot(x))**2).sum()), x, bool(zero)


def fit(spectra, arch, which, z, nleg, percam, bands, prior):
    f = np.concatenate([s.flux for s in spectra]); w = np.concatenate([s.ivar for s in spectra])
    A = columns(spectra, arch, which, z, nleg, percam, bands)
    return solve(A, f, w, len(which), prior)


def fitc(spectra, arch, which, z, nleg, percam, bands, prior):
    """as fit, with the condition of the problem (columns without any weight left out)"""
    f = np.concatenate([s.flux for s in spectra]); w = np.concatenate([s.ivar for s in spectra])
    M = columns(spectra, arch, which, z, nleg, percam, bands)
    q, x, act = solve(M, f, w, len(which), prior)
    B = M * np.sqrt(w)[:, None]; n = np.sqrt((B**2).sum(axis=0)); B = B[:, n > 0] / n[n > 0]
    s = np.linalg.svd(B, compute_uv=False)
    return q, x, act, float(s[0] / max(s[-1], 1e-300)) if len(s) else 1.0
