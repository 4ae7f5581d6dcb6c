"""C05: partition and load balance of work over processes."""
import importlib.machinery, importlib.util, os
import numpy as np
from common import main, quiet, guarded, REPO


def wrapmod():
    ld = importlib.machinery.SourceFileLoader('wrap_redrock_mod', os.path.join(REPO, 'bin', 'wrap-redrock'))
    spec = importlib.util.spec_from_loader('wrap_redrock_mod', ld)
    m = importlib.util.module_from_spec(spec)
    ld.exec_module(m)
    return m


def check(ck):
    from redrock.utils import distribute_work
    from redrock.targets import distribute_targets, DistTargetsCopy, Target, Spectrum
    rng = ck.rng
    consts = lambda n, w, p, c: f'CONSTANTS MaxItems = {n} MaxW = {w} MaxProc = {p} MaxCap = {c}\n'
    b = (5, 3, 3, 3) if ck.thorough else (4, 3, 3, 2)
    ck.model('Dist', 'SPECIFICATION Spec\n' + consts(*b) + 'INVARIANTS TypeOK LoadsRight Balanced OnlyAble\nPROPERTY EverythingPlaced\nCHECK_DEADLOCK FALSE\n')
    cases = ck.generate('G_Dist', 'SPECIFICATION GSpec\n' + consts(*((4, 3, 3, 2) if not ck.thorough else (5, 3, 3, 2))) + 'CHECK_DEADLOCK FALSE\n')
    cases = [(c['ws'], c['cap']) for c in cases]
    for _ in range(4000 if ck.thorough else 600):
        n = rng.choice([0, 1, 2, 3, 5, 8, 13, 30]); p = rng.choice([1, 2, 3, 4, 7, 12])
        cp = [rng.choice([1, 1, 2, 3, 5]) for _ in range(p)]
        if rng.random() < 0.2:
            cp = [c if i == p // 2 or rng.random() < 0.5 else 0 for i, c in enumerate(cp)]
        cases.append(([rng.choice([0, 1, 1, 2, 3, 5, 8, 40]) for _ in range(n)], cp))
    ev = []

    def add(ids, ws, cap, fn, kind='exact', extra=None):
        st, out = guarded(fn)
        e = dict(kind=kind, ids=[str(i) for i in ids], ws=list(map(int, ws)), cap=list(map(int, cap)), outcome='ok' if st == 'ok' else repr(out))
        if st == 'ok':
            try:
                e['out'] = [[str(x) for x in g] for g in out]
            except Exception as err:
                e['outcome'] = repr(err)
        e.setdefault('out', [])
        ev.append(e)

    for k, (ws, cap) in enumerate(cases):
        # identifiers in any order, of any hashable kind
        ids = list(range(100, 100 + len(ws)))
        rng.shuffle(ids)
        if k % 5 == 1:
            ids = [f't{i}' for i in ids]
        elif k % 5 == 2:
            ids = [int(2**53) + i for i in ids]
        elif k % 5 == 3:
            ids = [np.int64(i - 105) for i in ids]
        wd = dict(zip(ids, ws))
        same = all(c == 1 for c in cap)
        equal = all(x == 1 for x in ws)
        unscaled = k % 7 != 3
        if k % 3 == 1:
            # only ratios of weights matter
            wd = {i: x * (0.125 if k % 2 else 10**9) for i, x in wd.items()}
        capi = list(cap) if unscaled else [c / 2 for c in cap]       # only ratios of capacities matter
        add(ids, ws, cap, lambda: distribute_work(len(cap), list(ids), weights=dict(wd), capacities=capi))
        if same:
            add(ids, ws, cap, lambda: distribute_work(len(cap), list(ids), weights=dict(wd)))
        if equal:
            add(ids, ws, cap, lambda: distribute_work(len(cap), list(ids), capacities=list(cap)))
            if same:
                add(ids, ws, cap, lambda: distribute_work(len(cap), list(ids)))
        if k % 40 == 0 and len(ws):
            # weights may also list items that are not in this call
            wd2 = dict(wd); wd2['other'] = 99 * 10**9
            add(ids, ws, cap, lambda: distribute_work(len(cap), tuple(ids), weights=wd2, capacities=list(cap)))
    # targets of files over processes: the weight is the number of spectra of the target in all files, or one when they are coadded
    import c13, simmpi, desilab as D
    from redrock.external.desi import DistTargetsDESI
    for k in range(40 if ck.thorough else 8):
        files, paths, _, _ = c13.build(ck, ck.work, 'in', 1 + k % 3, False, rng)
        known = sorted({i for f in files for i in f['ids']})
        sel = rng.sample(known, rng.randint(1, len(known))) if k % 4 == 3 else []
        first = list(dict.fromkeys(i for f in files for i in f['ids'])) if not sel else sel
        coadd = k % 4 == 2; size = rng.choice([2, 3, 4])
        kw = dict(coadd=coadd, **(dict(targetids=sel) if sel else {}))

        def go():
            world = simmpi.World(size, seed=k, mode='eager')
            with quiet():
                res, err = world.run(lambda c: [int(i) for i in DistTargetsDESI(list(paths), comm=c, **kw).local_target_ids()])
            for e in err:
                if e is not None:
                    raise e
            return res
        add(first, [1 if coadd else sum(f['ids'].count(t) for f in files) for t in first], [1] * size, go, extra='files')
    # targets over processes: the weight is the number of spectra
    import fixtures
    w = np.linspace(3600., 4000., 5); R = fixtures.R_ident(5)

    def tgt(i, n):
        t = Target(int(i), [Spectrum(w, np.ones(5), np.ones(5), R) for _ in range(max(n, 1))])
        t.spectra = t.spectra[:n] if n == 0 else t.spectra
        return t
    for _ in range(60):
        n = rng.randrange(0, 9); p = rng.randrange(1, 6)
        ids = rng.sample(range(1, 1000), n); ns = [rng.choice([1, 1, 2, 3, 6]) for _ in ids]
        tl = [tgt(i, k) for i, k in zip(ids, ns)]
        add(ids, ns, [1] * p, lambda: distribute_targets(tl, p))
        if p >= 2 and n:
            # the same over the ranks of a communicator
            import simmpi
            def rank(c):
                d = DistTargetsCopy(list(tl), comm=c, root=0)
                return list(d.local_target_ids())
            with quiet():
                res, err = simmpi.World(p, seed=rng.randrange(10**6)).run(rank)
            if any(e is not None for e in err):
                ck.bad('distribution of targets over ranks failed', {'errors': [repr(e) for e in err]})
            else:
                add(ids, ns, [1] * p, lambda: res)
    # files over the nodes of a batch job
    wr = wrapmod()
    for k, (ws, cap) in enumerate(cases):
        if (k % 3 == 0 and all(c == 1 for c in cap)) or k % 60 == 0:
            p = len(cap)
            add(range(len(ws)), ws, [1] * p, lambda: wr.weighted_partition(np.array(ws), p)[0], kind='exact' if all(ws) else 'loads')
            st, out = guarded(wr.weighted_partition, [float(x) for x in ws], p)
            ck.ok(st == 'ok' and [float(x) for x in out[1]] == [float(sum(ws[i] for i in g)) for g in out[0]],
                  'weighted_partition: group weight is not the sum of its weights', {'ws': ws, 'n': p})
    ck.sample(lambda: ev[37]); ck.sample(lambda: ev[-1])
    ck.validate('T_Dist', ev)
    ck.exhaustive = True
    ck.assumptions += ['at least one process has capacity; items of equal weight are interchangeable',
                       'exhaustive for the bounded space printed by G_Dist; random beyond it']


main(check, 'C05')
