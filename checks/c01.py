"""C01: every target's redshift comes from its own spectra."""
import itertools
import numpy as np
from common import main, quiet, guarded, Intern
import fixtures, mpilab, mplab, simmpi

POOL = '''SPECIFICATION Spec
CONSTANTS Targets = {%s} NW = %d Faults = %d Progress = %s Watch = %s ByWorker = %s
INVARIANTS OwnResult NoneMissing FailureSeen NoFalseError
PROPERTY Ends
'''


def models(ck):
    T3 = '"a","b","c"'
    ck.model('Pool', POOL % (T3, 2, 0, 'TRUE', 'TRUE', 'TRUE'))
    ck.model('Pool', POOL % (T3, 3, 0, 'FALSE', 'TRUE', 'TRUE'))
    if ck.thorough:
        ck.model('Pool', POOL % (T3, 3, 0, 'TRUE', 'TRUE', 'TRUE'))
        ck.model('Pool', POOL % ('"a","b","c","d"', 2, 0, 'TRUE', 'TRUE', 'TRUE'))
    ck.expect_violation('Pool', POOL % (T3, 2, 0, 'TRUE', 'TRUE', 'FALSE'), 'Invariant OwnResult is violated')


def tmpls(k):
    T = fixtures.template
    return [[T('GALAXY', '', nbasis=2, seed=1, redshifts=np.linspace(0.0, 0.4, 9))],
            [T('QSO', 'HIZ', nbasis=1, seed=2, redshifts=np.linspace(1.5, 2.2, 6), igm='Calura12', wavemax=6000.),
             T('GALAXY', '', nbasis=3, seed=3, redshifts=np.linspace(0.0, 0.3, 7)),
             T('STAR', 'F', nbasis=1, seed=4, redshifts=np.linspace(-0.002, 0.002, 5))],
            # with pixels on [OII], for the penalty of negative emission
            [T('GALAXY', '', nbasis=3, seed=5, nw=2700, oii=True, redshifts=np.linspace(0.0, 0.5, 12)), T('QSO', '', nbasis=2, seed=6, redshifts=np.linspace(0.3, 0.9, 8))]][k]


def reference(S, **kw):
    """each target alone"""
    import redrock.zfind as zf
    from redrock.targets import DistTargetsCopy
    ref = {}
    for t in S.fresh():
        with quiet():
            d = DistTargetsCopy([t])
            dts = fixtures.disttemplates(S.templates, d)
            ref[t.id] = zf.zfind(d, dts, mp_procs=1, **kw)
    return ref


def pick_scan(x, intern):
    return {ft: [intern(np.asarray(x[ft][k], float)) for k in ('redshifts', 'zchi2', 'zcoeff', 'penalty')] for ft in x}


def pick_fit(tab, tid, intern):
    return [[intern(float(r['z'])), intern(float(r['chi2'])), intern(float(r['zerr'])), intern(np.trim_zeros(np.ravel(r['coeff']), 'b')), str(r['spectype']), str(r['subtype']),
             int(r['znum']), int(r['npixels']), int(r['zwarn'])] for r in tab[tab['targetid'] == tid]]


def number(tid):
    return 3 * (tid if isinstance(tid, int) else len(tid) * 1000 + int(tid[-1])) + 1


def event(S, ref, st, out, what, intern):
    ev = dict(kind='attr', what=what, outcome='ok' if st == 'ok' else 'error', why='ok' if st == 'ok' else str(out)[:200].replace('"', '').replace('\n', ' '),
              ids=[str(i) for i in S.ids], reported=[], scan=[], fit=[], meta=[])
    if st == 'ok':
        al, tab = out
        ev['reported'] = sorted(str(t) for t in al)
        order = [str(x) for x in tab['targetid'][tab['znum'] == 0]]
        if sorted(order) != sorted(ev['ids']):
            ev['reported'] = order
        for tid in S.ids:
            if tid not in al:
                continue
            a0, t0 = ref[tid]
            got, want = pick_scan(al[tid], intern), pick_scan(a0[tid], intern)
            ev['scan'].append(dict(target=str(tid), got=got, want=want))
            ev['fit'].append(dict(target=str(tid), got=pick_fit(tab, tid, intern), want=pick_fit(t0, tid, intern)))
            rows = tab[tab['targetid'] == tid]
            ev['meta'].append(dict(target=str(tid), got=sorted({f"{int(r['NUM'])} {r['NAME']}" for r in rows}), want=[f'{number(tid)} n{tid}']))
    return ev


def check(ck):
    import redrock.zfind as zf
    from redrock.targets import DistTargetsCopy
    rng = ck.rng
    models(ck)
    ev = []
    layouts = [[1, 2, 3], [3, 1, 2, 1], [1, 1, 4, 1, 2], [2, 1], [1, 3], [1, 1, 1, 1, 1], [1, 2, 2, 1, 3, 1]]
    if ck.thorough:
        layouts += [[rng.choice([1, 1, 2, 3, 5]) for _ in range(rng.randrange(2, 9))] for _ in range(12)]
    distinct = 0
    for li, nspec in enumerate(layouts):
        S = mpilab.Setup(rng, 0, tmpls(li % 3))
        ids = rng.sample(range(1, 10**6), len(nspec))
        if li % 3 == 1:
            ids = [39627000000000000 + 3 * k for k in rng.sample(range(len(ids)), len(ids))]
        if li % 3 == 2:
            ids = [-i if k % 2 else i for k, i in enumerate(ids)]
        if li % 7 == 6:
            # identifiers may be texts, also of different lengths
            ids = [str(i) if k % 2 else f't{i}-{k}' for k, i in enumerate(ids)]
        S.ids = ids
        S.targets = []
        for i, (tid, n) in enumerate(zip(ids, nspec)):
            src = S.templates[i % len(S.templates)]
            z = float(src.redshifts[0] + (src.redshifts[-1] - src.redshifts[0]) * rng.random())
            S.targets.append(fixtures.target(tid, src, max(z, 0), nspec=n, seed=rng.randrange(10**6), noise=0.3, meta=dict(NUM=number(tid), NAME=f'n{tid}')))
        ref = reference(S, nminima=2)
        intern = Intern(rtol=1e-6, atol=1e-9)
        n = len(ids)
        for mp in ([1, 2, 3] if not ck.thorough else [1, 2, 3, 4, 6]):
            nact = min(mp, n)
            perms = list(itertools.permutations(range(nact)))
            for perm in (rng.sample(perms, min(2 if not ck.thorough else 4, len(perms))) if mp > 1 else [None]):
                with quiet():
                    d = DistTargetsCopy(S.fresh()); dts = fixtures.disttemplates(S.templates, d)
                    if perm is None:
                        st, out = guarded(zf.zfind, d, dts, mp_procs=1, nminima=2)
                    else:
                        with mplab.worker_order(list(perm)):
                            st, out = guarded(zf.zfind, d, dts, mp_procs=mp, nminima=2)
                ev.append(event(S, ref, st, out, dict(nspec=nspec, workers=mp, order=perm), intern))
        # the scan function on its own keeps identifiers and data together in any order of the list
        for size in ([2, 3] if not ck.thorough else [2, 3, 4, 6]):
            for parts in (None, 'random'):
                pl = None
                if parts:
                    pl = [[] for _ in range(size)]
                    idx = list(range(n)); rng.shuffle(idx)
                    for i in idx:
                        pl[rng.randrange(size)].append(i)
                res, err, w = S.mpi(size, parts=pl, schedule=rng.choice(mpilab.hints([], size, rng)), seed=rng.randrange(10**6),
                                    mode=rng.choice(['eager', 'sync']), nminima=2)
                ok = all(e is None for e in err)
                ev.append(event(S, ref, 'ok' if ok else 'error', res[0][0] if ok else mpilab.errtext(err), dict(nspec=nspec, ranks=size, parts=pl), intern))
        allref = {k for tid in ids for k in [str(pick_scan(ref[tid][0][tid], intern))]}
        distinct += len(allref) == n
    ck.extra['layouts_with_distinguishable_targets'] = distinct
    if distinct < len(layouts):
        raise Exception('targets are not distinguishable')
    ck.sample(lambda: {k: ev[0][k] for k in ('what', 'ids', 'reported', 'scan')})
    ck.sample(lambda: ev[-1]['what'])
    ck.validate('T_Pool', ev)
    # identifiers and data of a distributed list belong together on every rank
    ck.assumptions += ['a target is compared with a run of that target alone (relative tolerance 1e-6)', 'MPI ranks are simulated']


if __name__ == '__main__':
    main(check, 'C01')
