"""C02: results do not depend on the parallelisation."""
import itertools
import numpy as np
from common import main, quiet, guarded, Intern
import fixtures, mpilab, mplab, simmpi, c01, os


def event(intern, ref, st, out, what, others=()):
    ev = dict(kind='same', what=what, outcome='ok' if st == 'ok' else 'error', why='ok' if st == 'ok' else str(out)[:200].replace('"', '').replace('\n', ' '),
              others=list(others), cols=[], refcols=[], rows=[], refrows=[], scan=[], refscan=[])
    if st == 'ok':
        al, tab = out
        ev['cols'], ev['rows'] = mpilab.table_rows(tab, intern)
        ev['refcols'], ev['refrows'] = mpilab.table_rows(ref[1], intern)
        sc = lambda a: [[str(t), [[ft] + [intern(np.asarray(a[t][ft][k], float)) for k in ('redshifts', 'zchi2', 'penalty', 'zcoeff')] for ft in sorted(a[t])]] for t in sorted(a)]
        ev['scan'] = sc(al); ev['refscan'] = sc(ref[0])
    return ev


def priorfile(ck, ids, name='prior.fits'):
    from astropy.table import Table
    t = Table(dict(TARGETID=np.array(ids[:-1], dtype=np.int64), Z=np.linspace(0.1, 0.3, len(ids) - 1), SIGMA=np.full(len(ids) - 1, 0.05),
                   FUNCTION=np.array(['gaussian'] * (len(ids) - 1))))
    t.meta['EXTNAME'] = 'PRIORS'
    p = os.path.join(ck.work, name)
    t.write(p, overwrite=True)
    return p


def crowd(ck, ev):
    """many targets in few workers, and many workers"""
    import redrock.zfind as zf
    from redrock.targets import DistTargetsCopy
    T = fixtures.template; rng = ck.rng
    tm = [T('GALAXY', '', nbasis=1, seed=1, redshifts=np.linspace(0.05, 0.3, 9)), T('STAR', 'F', nbasis=1, seed=4, redshifts=np.linspace(-0.002, 0.002, 5))]
    S = mpilab.Setup(rng, 36, tm)
    intern = Intern(rtol=1e-6, atol=1e-8)
    ref = S.serial(nminima=1)
    for mp in (2, 18) if not ck.thorough else (2, 3, 18, 36, 40):
        with quiet():
            d = DistTargetsCopy(S.fresh()); dts = fixtures.disttemplates(tm, d)
            st, out = guarded(zf.zfind, d, dts, mp_procs=mp, nminima=1)
        ev.append(event(intern, ref, st, out, dict(workers=mp, targets=36)))
    res, err, w = S.mpi(2, seed=rng.randrange(10**6), nminima=1)
    ok = all(e is None for e in err)
    ev.append(event(intern, ref, 'ok' if ok else 'error', res[0][0] if ok else mpilab.errtext(err), dict(ranks=2, targets=36)))


def check(ck):
    import redrock.zfind as zf
    from redrock.targets import DistTargetsCopy
    rng = ck.rng
    c01.models(ck)
    ev = []
    crowd(ck, ev)
    for rnd in range(8 if ck.thorough else 4):
        tm = c01.tmpls(rnd % 3)
        ntarg = [5, 3, 7, 1, 2, 6, 4, 8][rnd]
        S = mpilab.Setup(rng, ntarg, tm)
        if rnd % 4 == 2:
            # one target without any usable pixel
            for s in S.targets[1].spectra:
                s.ivar[:] = 0
        kw = dict(nminima=[3, 1, 2, 5][rnd % 4])
        if rnd % 4 == 1:
            kw['priors'] = priorfile(ck, S.ids, f'p{rnd}.fits')
        if rnd % 4 == 3:
            kw['zminfit_npoints'] = 7
        intern = Intern(rtol=1e-6, atol=1e-8)
        ref = S.serial(**kw)
        for mp in (2, 3, 5) if not ck.thorough else (2, 3, 4, 5, 8):
            nact = min(mp, ntarg)
            perm = list(range(nact)); rng.shuffle(perm)
            for order in [perm, list(range(nact))[::-1]][:1 if mp > 2 else 2]:
                with quiet():
                    d = DistTargetsCopy(S.fresh()); dts = fixtures.disttemplates(tm, d)
                    with mplab.worker_order(order):
                        st, out = guarded(zf.zfind, d, dts, mp_procs=mp, **kw)
                ev.append(event(intern, ref, st, out, dict(workers=mp, order=order)))
        for size in (2, 4, 7) if not ck.thorough else (1, 2, 3, 4, 5, 7, 9):
            for k in range(2):
                res, err, w = S.mpi(size, schedule=rng.choice(mpilab.hints([], size, rng)), seed=rng.randrange(10**6), mode=['eager', 'sync'][k], **kw)
                ok = all(e is None for e in err)
                others = ['none' if r[0][0] is None and r[0][1] is None else 'something' for r in res[1:]] if ok else []
                if w.leftover():
                    others.append('messages left')
                ev.append(event(intern, ref, 'ok' if ok else 'error', res[0][0] if ok else mpilab.errtext(err), dict(ranks=size), others))
        # given order of the targets decides the order of the rows, in every kind of run
        order = list(range(ntarg)); rng.shuffle(order)
        st, out = guarded(S.serial, order=order, **kw)
        tabs = {}
        if st == 'ok':
            exp = [S.ids[i] for i in order]
            got = [int(x) for x in out[1]['targetid'][out[1]['znum'] == 0]]
            ck.ok(got == exp, 'rows do not follow the order of the targets', dict(got=got, want=exp))
    ck.sample(lambda: {k: ev[0][k] for k in ('what', 'outcome', 'cols')}); ck.sample(lambda: ev[0]['rows'][:2])
    ck.validate('T_Pool', ev)
    ck.assumptions += ['values are compared with a relative tolerance of 1e-6 (slices of a template may be rebinned in different batches)', 'MPI ranks are simulated']


if __name__ == '__main__':
    main(check, 'C02')
