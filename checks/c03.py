"""C03: the ring of redshift slices."""
import numpy as np
from common import main, quiet, Intern
import fixtures, mpilab, simmpi

CFG = '''SPECIFICATION Spec
CONSTANTS N = %d NT = %d Sync = %s Reversed = FALSE StopEarly = FALSE
INVARIANTS NoRepeat OwnTemplate Complete OwnSliceBack NothingLeft
PROPERTY Terminates
'''


def orders(ck, n, nt, num):
    r = ck.generate('G_Ring', f'SPECIFICATION GSpec\nCONSTANTS N = {n} NT = {nt} Sync = FALSE Reversed = FALSE StopEarly = FALSE\nCHECK_DEADLOCK FALSE\n',
                    args=('-simulate', f'num={num}', '-depth', '2000', '-seed', str(ck.seed)), count=False)
    return [x['order'] for x in r]


def large(ck):
    """more than a hundred ranks: the slices still come in redshift order"""
    import redrock.zscan as zs
    from redrock.templates import DistTemplate
    Local = fixtures.dist_targets_class()
    t = fixtures.template('GALAXY', '', nbasis=1, seed=1, redshifts=np.linspace(0, 0.4, 120))
    S = mpilab.Setup(ck.rng, 2, [t], bands=('b',), nspec=(1,))
    size = 104
    with quiet():
        from redrock.targets import DistTargetsCopy
        d = DistTargetsCopy(S.fresh())
        ref = zs.calc_zchi2_targets(d, [DistTemplate(t, S.dwave())])
    parts = [[] for _ in range(size)]; parts[size - 1] = [0]; parts[7] = [1]

    def fn(comm):
        tg = S.fresh()
        return zs.calc_zchi2_targets(Local([[tg[i] for i in p] for p in parts], order=S.ids, comm=comm), [DistTemplate(t, S.dwave(), comm=comm)])
    w = simmpi.World(size, schedule=[], seed=1, mode='eager')
    with quiet():
        res, err = w.run(fn)
    if not ck.ok(all(e is None for e in err), 'scan with 104 ranks fails', mpilab.errtext(err)[:300]):
        return
    for r in (7, size - 1):
        for tid in res[r]:
            a, b = res[r][tid][t.full_type], ref[tid][t.full_type]
            for k in ('redshifts', 'zchi2', 'penalty', 'zcoeff'):
                ck.ok(np.shape(a[k]) == np.shape(b[k]) and np.allclose(np.asarray(a[k], float), np.asarray(b[k], float), rtol=1e-9, atol=1e-9),
                      'scan with 104 ranks differs from the serial scan', dict(target=str(tid), column=k))


def check(ck):
    rng = ck.rng
    for n, nt, sync in ([(1, 2, 'FALSE'), (2, 2, 'TRUE'), (3, 1, 'TRUE'), (3, 2, 'FALSE')] +
                        ([(4, 1, 'FALSE'), (4, 1, 'TRUE'), (3, 3, 'FALSE')] if ck.thorough else [])):
        ck.model('Ring', CFG % (n, nt, sync))
    ck.expect_violation('Ring', CFG.replace('Reversed = FALSE', 'Reversed = TRUE') % (2, 1, 'FALSE'), 'Deadlock reached')
    ck.expect_violation('Ring', CFG.replace('StopEarly = FALSE', 'StopEarly = TRUE') % (3, 1, 'FALSE'), 'is violated')
    ev = []
    w = {1: fixtures.grid('b')}
    runs = 0
    for size in (1, 2, 3, 4, 5, 7):
        sched = mpilab.hints(orders(ck, size, 1, 6 if ck.thorough else 3) if size <= 4 else [], size, rng)
        for nz in (1, 2, 3, 5, 8, 16):
            tm = fixtures.template('GALAXY', '', 0.0, 0.3, nz=nz, nbasis=1, seed=3, redshifts=np.linspace(0.0, 0.3, nz))
            pick = sched if ck.thorough else rng.sample(sched, min(len(sched), 4))
            for s in pick:
                for mode in ('eager', 'sync'):
                    e, world = mpilab.ring_run(tm, w, size, s, rng.randrange(10**6), mode)
                    ev += e
                    runs += 1
    ck.extra['ring_runs'] = runs
    # the scan itself: own targets only, complete, in redshift order, equal to the serial scan
    import redrock.zscan as zs
    from redrock.targets import DistTargetsCopy
    from redrock.templates import DistTemplate
    Local = fixtures.dist_targets_class()
    for rnd in range(24 if ck.thorough else 8):
        nzs = rng.choice([(3, 5), (7, 2), (4, 9), (1, 1), (16, 3)]) if rnd != 4 else (25, 5)
        T = fixtures.template
        tmpl = [T('GALAXY', '', nbasis=2, seed=1, redshifts=np.sort(rng.sample(list(np.linspace(0, 0.5, 60)), nzs[0]))),
                T('QSO', 'HIZ', nbasis=1, seed=2, redshifts=np.linspace(1.5, 2.2, nzs[1]), igm='Calura12', wavemax=6000.)]
        size = rng.choice([2, 3, 4, 6]) if rnd != 4 else rng.choice([11, 12, 13])     # slices 10 and more
        S = mpilab.Setup(rng, rng.choice([1, 3, 5]), tmpl)
        with quiet():
            d = DistTargetsCopy(S.fresh())
            dts = [DistTemplate(t, S.dwave()) for t in tmpl]
            ref = zs.calc_zchi2_targets(d, dts)
        parts = [[] for _ in range(size)]
        for i in range(len(S.ids)):
            parts[rng.randrange(size) if rnd % 3 else 0].append(i)
        def fn(comm):
            tg = S.fresh()
            dd = Local([[tg[i] for i in p] for p in parts], order=S.ids, comm=comm)
            dt = [DistTemplate(t, S.dwave(), comm=comm) for t in tmpl]
            return zs.calc_zchi2_targets(dd, dt)
        w_ = simmpi.World(size, schedule=rng.choice(mpilab.hints([], size, rng)), seed=rnd, mode=['eager', 'sync'][rnd % 2])
        with quiet():
            res, err = w_.run(fn)
        intern = Intern(rtol=1e-9, atol=1e-9)
        scans = []
        for r in range(size):
            if err[r] is None:
                for tid, byft in res[r].items():
                    for ft, x in byft.items():
                        pick = lambda y: [intern(np.asarray(y[k], dtype=float)) for k in ('redshifts', 'zchi2', 'penalty', 'zcoeff')]
                        scans.append(dict(target=int(tid), type=ft, got=pick(x), want=pick(ref[tid][ft]) if tid in ref else []))
                    scans.append(dict(target=int(tid), type='all', got=sorted(byft), want=sorted(t.full_type for t in tmpl)))
        ev.append(dict(kind='scan', ok=[e is None for e in err], why=mpilab.errtext(err), left=w_.leftover(),
                       mine=[[S.ids[i] for i in p] for p in parts], got=[sorted(res[r]) if err[r] is None else [] for r in range(size)], scans=scans))
    if ck.thorough:
        large(ck)
    ck.sample(lambda: ev[:8]); ck.sample(lambda: ev[-1])
    ck.validate('T_Ring', ev)
    ck.assumptions += ['ranks are threads of one process on a simulated communicator (lib/simmpi.py) that replays schedules; no MPI library is installed',
                       'model checked for up to 3 ranks (4 in the thorough tier)']


if __name__ == '__main__':
    main(check, 'C03')
