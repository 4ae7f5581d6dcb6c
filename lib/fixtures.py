"""Small synthetic templates, spectra and targets (fast: tens of pixels, tens of redshifts)."""
import numpy as np, scipy.sparse
from common import quiet


def R_ident(n, ndiag=3):
    data = np.zeros((ndiag, n)); data[ndiag // 2] = 1.0
    off = np.arange(ndiag // 2, -(ndiag // 2) - 1, -1)
    return scipy.sparse.dia_matrix((data, off), shape=(n, n))


def R_gauss(n, sigma=1.0, half=3):
    x = np.arange(half, -half - 1, -1)
    data = np.zeros((len(x), n))
    for k, o in enumerate(x):
        data[k] = np.exp(-o**2 / (2 * sigma**2))
    # normalise rows: R[i, j] = data[k, j] with j - i = o
    R = scipy.sparse.dia_matrix((data, x), shape=(n, n))
    rows = np.asarray(R.sum(axis=1))[:, 0]
    D = np.zeros_like(data)
    for k, o in enumerate(x):
        for j in range(n):
            i = j - o
            if 0 <= i < n:
                D[k, j] = data[k, j] / rows[i]
    return scipy.sparse.dia_matrix((D, x), shape=(n, n))


def template(spectype='GALAXY', subtype='', zmin=0.0, zmax=0.5, nz=16, nbasis=2, seed=0, method='PCA', wavemin=800., wavemax=9000.,
             nw=400, igm='None', redshifts=None, oii=False):
    from redrock.templates import Template
    rng = np.random.RandomState(seed + 17)
    wave = np.linspace(wavemin, wavemax, nw)
    flux = np.zeros((nbasis, nw))
    for b in range(nbasis):
        f = 1.0 + 0.3 * rng.rand() * np.sin(wave / (150.0 + 60 * b + 40 * rng.rand()))
        for _ in range(6):
            c = rng.uniform(wavemin + 200, wavemax - 200); s = rng.uniform(25, 60); a = rng.uniform(0.5, 3.0)
            f = f + a * np.exp(-(wave - c)**2 / (2 * s * s))
        flux[b] = f
    if oii:                      # a line of its own, so that the fit of other spectra makes it negative
        flux[-1] = 6 * np.exp(-(wave - 3728.)**2 / 2 / 8**2)
    if redshifts is None:
        redshifts = np.linspace(zmin, zmax, nz)
    with quiet():
        return Template(spectype=spectype, subtype=subtype, redshifts=np.asarray(redshifts, dtype=float), wave=wave, flux=flux,
                        method=method, igm_model=igm, version='test')


GRIDS = {'b': (3600., 4600., 24), 'r': (4500., 5700., 26), 'z': (5600., 7200., 28)}


def grid(band):
    a, b, n = GRIDS[band]
    return np.linspace(a, b, n)


def spectrum(tmpl, z, coeff, band='b', seed=0, noise=0.05, ivar=None, R=None, usehash=True):
    from redrock.targets import Spectrum
    w = grid(band)
    rng = np.random.RandomState(seed)
    n = len(w)
    if R is None:
        R = R_gauss(n)
    f = tmpl.eval(np.asarray(coeff, dtype=float), w, z)
    iv = np.full(n, 1.0 / noise**2) * rng.uniform(0.5, 1.5, n)
    if ivar is not None:
        iv = np.asarray(ivar, dtype=float).copy()
    f = f + rng.normal(size=n) * noise
    return Spectrum(w, f, iv, R, band=band)


def target(tid, tmpl, z, nspec=1, seed=0, bands=('b', 'r', 'z'), noise=0.05, meta=None, coeff=None):
    from redrock.targets import Target
    rng = np.random.RandomState(seed + 1000)
    if coeff is None:
        coeff = rng.uniform(0.5, 2.0, tmpl.nbasis)
    sp = [spectrum(tmpl, z, coeff, band=bands[i % len(bands)], seed=seed * 100 + i, noise=noise) for i in range(nspec)]
    return Target(tid, sp, meta=meta if meta is not None else {})


def disttemplates(templates, targets, comm=None):
    from redrock.templates import DistTemplate
    dwave = targets.wavegrids()
    return [DistTemplate(t, dwave, comm=comm) for t in templates]


def dist_targets_class():
    from redrock.targets import DistTargets

    class Local(DistTargets):
        """targets given rank by rank: parts[rank] is that rank's list; the global order is order"""
        def __init__(self, parts, order=None, comm=None):
            r = comm.rank if comm is not None else 0
            self._mine = parts[r]
            ids = [t.id for p in parts for t in p] if order is None else list(order)
            super().__init__(ids, comm=comm)

        def _local_target_ids(self):
            return [t.id for t in self._mine]

        def _local_data(self):
            return self._mine
    return Local


def identifiers(rng, n):
    """identifiers of targets: of 32 bits, or neighbours that differ beyond the precision of floating point, of both signs"""
    if rng.random() < 0.5:
        return rng.sample(range(10**8, 2**31 - 1), n)
    return [(-1 if rng.random() < 0.3 else 1) * (39627 * 10**13 + i) for i in rng.sample(range(4 * n), n)]
