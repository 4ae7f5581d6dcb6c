"""Parallel runs of the scan and of zfind on simulated ranks (simmpi)."""
import numpy as np
import fixtures, simmpi
from common import quiet, guarded, Intern


def hints(gen_orders, size, rng):
    """schedules: prefixes printed by TLC plus a few adversarial ones"""
    out = [list(o) for o in gen_orders]
    for r in range(size):
        out.append([r] * 400)                                      # run one rank as far ahead as possible
        out.append([q for q in range(size) if q != r] * 200)       # starve one rank
    out.append(list(range(size)) * 200)
    out.append(list(range(size))[::-1] * 200)
    return out


def ring_run(tmpl, dwave, size, schedule, seed, mode):
    """one pass of DistTemplate.cycle on every rank; returns trace events"""
    from redrock.templates import DistTemplate
    log = []
    zs = tmpl.redshifts

    def znum(a):
        return [int(np.argmin(np.abs(zs - x))) + 1 if np.min(np.abs(zs - x)) < 1e-12 else 0 for x in np.atleast_1d(a)]

    def fn(comm):
        dt = DistTemplate(tmpl, dwave, comm=comm)
        own = dt.local.index
        k = 0
        done = False
        while not done:
            log.append(dict(kind='eval', rank=comm.rank, slice=int(dt.local.index), zs=znum(dt.local.redshifts)))
            data = dt.local.data
            nz = len(dt.local.redshifts)
            for h in dwave:
                if data[h].shape[0] != nz:
                    log.append(dict(kind='eval', rank=comm.rank, slice=-9, zs=[]))
            done = bool(dt.cycle())
            log.append(dict(kind='next', rank=comm.rank, slice=int(dt.local.index), own=int(own), done=done))
            k += 1
            if k > 3 * size + 5:
                raise RuntimeError('the ring does not stop')
        return own
    w = simmpi.World(size, schedule=schedule, seed=seed, mode=mode)
    with quiet():
        res, err = w.run(fn)
    why = '; '.join(f'rank {r} {type(e).__name__} {str(e)[:80]}' for r, e in enumerate(err) if e is not None).replace('"', '').replace("'", '')
    return [dict(kind='begin', n=size, nz=len(zs))] + log + [dict(kind='end', ok=[e is None for e in err], left=w.leftover(), why=why or 'ok')], w


class Setup:
    """targets and templates; reference results of the serial run"""

    def __init__(self, rng, ntarg, templates, nspec=(1, 2, 3), bands=('b', 'r', 'z'), noise=0.3, ids=None):
        self.templates = templates
        self.ids = fixtures.identifiers(rng, ntarg) if ids is None else list(ids)
        self.targets = []
        for i, tid in enumerate(self.ids):
            src = templates[i % len(templates)]
            z = float(src.redshifts[0] + (src.redshifts[-1] - src.redshifts[0]) * rng.random())
            self.targets.append(fixtures.target(tid, src, max(z, 0), nspec=rng.choice(nspec), seed=rng.randrange(10**6), bands=bands, noise=noise,
                                                meta=dict(NUM=tid * 3 + 1, NAME=f'n{tid}')))

    def fresh(self, tg=None):
        """copies of the targets (a run may change them)"""
        from redrock.targets import Target, Spectrum
        out = []
        for t in (self.targets if tg is None else tg):
            sp = [Spectrum(s.wave.copy(), s.flux.copy(), s.ivar.copy(), s.R.copy(), band=s.band) for s in t.spectra]
            out.append(Target(t.id, sp, meta=dict(t.meta)))
        return out

    def serial(self, order=None, **kw):
        import redrock.zfind as zf
        from redrock.targets import DistTargetsCopy
        tg = self.fresh()
        if order is not None:
            tg = [tg[i] for i in order]
        with quiet():
            d = DistTargetsCopy(tg)
            dt = fixtures.disttemplates(self.templates, d)
            return zf.zfind(d, dt, mp_procs=1, **kw)

    def mpi(self, size, parts=None, schedule=(), seed=0, mode='eager', copies=True, collect=None, **kw):
        """parts: list of target indices per rank (None: DistTargetsCopy distributes)"""
        import redrock.zfind as zf
        from redrock.targets import DistTargetsCopy
        Local = fixtures.dist_targets_class()

        def fn(comm):
            tg = self.fresh()
            if parts is None:
                d = DistTargetsCopy(tg, comm=comm, root=0)
            else:
                d = Local([[tg[i] for i in p] for p in parts], order=self.ids, comm=comm)
            dwave = self.dwave()
            from redrock.templates import DistTemplate
            dts = [DistTemplate(t, dwave, comm=comm) for t in self.templates]
            r = zf.zfind(d, dts, **kw)
            return r, list(d.local_target_ids())
        w = simmpi.World(size, schedule=schedule, seed=seed, mode=mode)
        with quiet():
            res, err = w.run(fn)
        return res, err, w

    def dwave(self):
        out = {}
        for t in self.targets:
            for s in t.spectra:
                out[s.wavehash] = s.wave
        return out


def table_rows(tab, intern, skip=()):
    """a table as rows of small integers (columns in alphabetical order)"""
    cols = [c for c in sorted(tab.colnames) if c not in skip]
    rows = []
    for r in tab:
        row = []
        for c in cols:
            v = r[c]
            a = np.asarray(v)
            if a.dtype.kind in 'SU':
                row.append('s:' + str(v if not isinstance(v, bytes) else v.decode()))
            elif a.dtype.kind in 'iub' and a.ndim == 0:
                row.append(f'i:{int(v)}')
            else:
                row.append(intern(np.atleast_1d(a).astype(float)))
        rows.append(row)
    return cols, rows


def errtext(err):
    return ('; '.join(f'rank {r} {type(e).__name__} {str(e)[:80]}' for r, e in enumerate(err) if e is not None).replace('"', '').replace("'", '')) or 'ok'
