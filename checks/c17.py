"""C17: priors change only the targets they name, as documented."""
import os
import numpy as np
from common import main, quiet, guarded, Intern
import fixtures, mpilab, c01, desilab as D

MODEL = 'CONSTANTS\n Targets = {%s}\n Kinds = {"g","s"}\n NProc = 2\n Everywhere = %s\n Shared = %s\nSPECIFICATION Spec\nINVARIANTS Once All%s\nCHECK_DEADLOCK FALSE\n'
FN = ('gaussian', 'lorentzien', 'tophat')


def priorfile(path, fn, rows, dtype=np.int64, U=1000.):
    """rows: (target, z0, width) in 1/U"""
    from astropy.table import Table
    t = Table(dict(TARGETID=np.array([r[0] for r in rows], dtype=dtype), Z=np.array([r[1] / U for r in rows]), SIGMA=np.array([r[2] / U for r in rows]),
                   FUNCTION=np.array([fn] * len(rows))))
    t.meta['EXTNAME'] = 'PRIORS'
    t.write(path, overwrite=True)
    return path


def scaled(fn, v, w):
    """observed penalties as integers (see Prior.tla)"""
    v = np.asarray(v, float)
    out = []
    for x in v.flat:
        if np.isnan(x):
            out.append(-1)
        elif np.isposinf(x):
            out.append(-2)
        elif w == 0:
            out.append(0 if abs(x) < 1e-6 else int(np.clip(round(1000 * x), -2**30, 2**30)) or 7)
        elif fn == 'tophat':
            out.append(0 if abs(x) < 1e-6 else 12345)
        else:
            y = x * w * w if fn == 'gaussian' else w * w * np.exp(min(x, 60.) / 2)
            out.append(int(np.clip(round(100 * y), -2**31 + 2, 2**31 - 2)))
    return out


def k1000(z):
    return [int(round(1000 * x)) for x in z]


def tmpls(k):
    # both templates of a pair have equally many redshifts
    T = fixtures.template
    a = [T('GALAXY', '', nbasis=2, seed=1, redshifts=np.arange(0, 401, 20) / 1000.), T('STAR', 'F', nbasis=1, seed=4, redshifts=np.arange(-10, 11) / 1000.)]
    b = [T('QSO', 'HIZ', nbasis=1, seed=2, redshifts=np.arange(1500, 2501, 50) / 1000., igm='Calura12', wavemax=6000.),
         T('GALAXY', '', nbasis=3, seed=3, redshifts=np.arange(0, 601, 30) / 1000.)]
    return a if k == 0 else b


def check(ck):
    import redrock.zfind as zf, redrock.fitz as fz
    from redrock.priors import Priors
    from redrock.targets import DistTargetsCopy
    rng = ck.rng; wd = ck.work
    ck.model('Prior', MODEL % ('1,2,3' if ck.thorough else '1,2', 'FALSE', 'FALSE', ' Funcs'))
    ck.expect_violation('Prior', MODEL % ('1,2', 'TRUE', 'FALSE', ''), 'Once is violated')
    ck.expect_violation('Prior', MODEL % ('1,2', 'FALSE', 'TRUE', ''), 'Once is violated')
    ev = []
    # the functions, on all kinds of grids, through the class
    for rnd in range(60 if ck.thorough else 15):
        fn = FN[rnd % 3]
        rows = [(t, rng.randint(-3, 300) * 5, rng.choice([1, 5, 10, 25, 40, 100, 333])) for t in rng.sample([1, 2, 7, 2**40 + 1, 39627, 11], 3)]
        U = rng.choice([1000., 1000., 1e5, 1e6])              # narrow priors: everything is a multiple of a smaller unit
        with quiet():
            st, P = guarded(Priors, priorfile(f'{wd}/e{rnd}.fits', fn, rows, U=U))
        for t, z0, w in rows + [(987654, 0, 0)]:
            for _ in range(6):
                n = rng.randint(2, 12)
                step = rng.choice([1, 5, 20, 50])
                zs = [max(-100, z0 + rng.randint(-3 * n, n)) + step * i for i in range(n)]
                e = dict(kind='eval', fn=fn, zs=zs, z0=z0, w=w, ok=st == 'ok', vals=[])
                if st == 'ok':
                    with quiet():
                        s2, v = guarded(P.eval, np.int64(t) if rng.random() < 0.5 else t, np.array(zs) / U)
                    e['ok'] = s2 == 'ok'
                    if s2 == 'ok':
                        # a boundary of the top-hat exactly on a grid point is decided by rounding: not judged
                        if fn == 'tophat' and any(2 * abs(z - z0) == w for z in zs):
                            continue
                        e['vals'] = scaled(fn, np.broadcast_to(v, len(zs)), w)
                ev.append(e)
    # runs
    for rnd in range(9 if ck.thorough else 3):
        fn = FN[rnd % 3]
        tm = tmpls(rng.randrange(2))
        ntarg = 5
        S = mpilab.Setup(rng, ntarg, tm, noise=0.1)
        for t in S.targets:
            t.meta.pop('NAME')
        nmin = rng.choice([1, 3, 5])
        gal = [t for t in tm if t.template_type != 'STAR'][-1]
        named = rng.sample(S.ids, 3)
        step = int(round(1000 * (gal.redshifts[1] - gal.redshifts[0])))
        spec = {}
        for t in named:
            i = rng.randrange(2, len(gal.redshifts) - 2)
            spec[t] = (int(round(1000 * gal.redshifts[i])) + 3, rng.choice([5 * step + 1, 9 * step + 1]) if fn == 'tophat' else rng.choice([7, 40, 200]))
        rows = [(t,) + spec[t] for t in named] + [(424242, 100, 10)]
        rng.shuffle(rows)
        pf = priorfile(f'{wd}/r{rnd}.fits', fn, rows)
        scan0, tab0 = S.serial(nminima=nmin)
        inn = Intern(rtol=1e-6, atol=1e-8)
        allowed = {}
        for tg in S.fresh():
            if tg.id not in spec:
                continue
            a = []
            z0, w = spec[tg.id]
            for t in tm:
                zs = t.redshifts
                x = (zs - z0 / 1000.) / (w / 1000.)
                if fn == 'gaussian':
                    p = x**2
                elif fn == 'lorentzien':
                    p = 2 * np.log(1 + x**2)
                else:
                    p = np.full(len(zs), np.nan); ins = np.where(np.abs(x) < 0.5)[0]
                    if len(ins):
                        p[ins] = 0; p[max(ins[0] - 1, 0)] = np.inf; p[min(ins[-1] + 1, len(zs) - 1)] = np.inf
                sc = scan0[tg.id][t.full_type]
                with quiet():
                    f = fz.fitz(sc['zchi2'] + p + sc['penalty'], zs, tg, t, nminima=nmin)
                a += [inn(np.array([float(np.ravel(f['z'][i])[0]), float(np.ravel(f['chi2'][i])[0])])) for i in range(len(f['chi2']))]
            allowed[tg.id] = a

        def record(what, st, r):
            e = dict(kind='run', what=what, fn=fn, ok=st == 'ok', why='ok' if st == 'ok' else str(r)[:300], targets=[])
            if st == 'ok':
                al, tab = r
                for t in S.ids:
                    named_ = t in spec
                    z0, w = spec.get(t, (0, 0))
                    add = []
                    for m in tm:
                        ft = m.full_type
                        with np.errstate(all='ignore'):
                            add.append([k1000(m.redshifts), scaled(fn, al[t][ft]['zchi2'] - scan0[t][ft]['zchi2'], w)])
                    mine = tab[tab['targetid'] == t]
                    skip = ('znum',)
                    e['targets'].append(dict(id=f't{t}', named=named_, z0=z0, w=w, added=add,
                                             same=mpilab.table_rows(mine, inn)[1] == mpilab.table_rows(tab0[tab0['targetid'] == t], inn)[1],
                                             cands=[inn(np.array([float(x['z']), float(x['chi2'])])) for x in mine], allowed=allowed.get(t, []),
                                             zc=[[int(round(1000 * float(x['z']))), next(int(round(1000 * (m.redshifts[1] - m.redshifts[0]))) for m in tm if m.template_type == x['spectype'])]
                                                 for x in mine]))
            ev.append(e)
        st, r = guarded(S.serial, nminima=nmin, priors=pf); record('serial', st, r)
        # one process, several workers
        for mp in (2, 4):
            with quiet():
                d = DistTargetsCopy(S.fresh()); dts = fixtures.disttemplates(tm, d)
                st, r = guarded(zf.zfind, d, dts, mp_procs=mp, nminima=nmin, priors=pf)
            record(f'workers {mp}', st, r)
        for size in (2, 3):
            res, err, w = S.mpi(size, schedule=rng.choice(mpilab.hints([], size, rng)), seed=rng.randrange(10**6), nminima=nmin, priors=pf)
            ok = all(x is None for x in err)
            record(f'ranks {size}', 'ok' if ok else 'error', res[0][0] if ok else mpilab.errtext(err))
    # a top-hat that leaves nothing of any template
    S = mpilab.Setup(rng, 2, tmpls(0), noise=0.1)
    pf = priorfile(wd + '/none.fits', 'tophat', [(S.ids[0], 50000, 10)])
    st, r = guarded(S.serial, nminima=2, priors=pf)
    if st != 'ok':
        # known for this input: nothing of any template inside the window.  Any other way of failing is a new violation.
        ck.bad('a top-hat outside every scanned redshift ends the run for all targets' if isinstance(r, KeyError) else 'top-hat run fails', repr(r)[:200])
    else:
        al, tab = r
        ref = S.serial(nminima=2)[1]; it = Intern(rtol=1e-6, atol=1e-8)
        x, y = (mpilab.table_rows(t[t['targetid'] == S.ids[1]], it)[1] for t in (tab, ref))
        ck.ok(x == y, 'a top-hat that excludes everything changes another target')
    # an unknown function is refused
    with quiet():
        st, r = guarded(Priors, priorfile(wd + '/unk.fits', 'triangle', [(1, 1, 1)]))
    ck.ok(st != 'ok', 'an unknown prior function is accepted')
    program(ck, rng)
    ck.sample(lambda: ev[0]); ck.sample(lambda: {k: v for k, v in ev[-1].items() if k != 'targets'})
    ck.validate('T_Prior', ev)
    ck.assumptions += ['redshifts are multiples of 1/1000 so that the penalties are rationals the specification computes exactly',
                       'grid points exactly on the boundary of a top-hat are not judged']


def program(ck, rng):
    """rrdesi --priors"""
    wd = ck.work; td = wd + '/tm'
    D.template_dir(td, stars=False, qso=False)
    tm = D.load([td + '/' + os.listdir(td)[0]])
    rows = [D.make_row(i, tm[0], 0.1, noise=0.3) for i in (5, 3, 8)]
    f = D.write_file(wd + '/s.fits', rows, coadded=True)
    pf = priorfile(wd + '/cli.fits', 'tophat', [(3, 200, 110)])
    out = {}
    for name, opt in (('no', []), ('p1', ['--priors', pf, '--mp', 1]), ('p2', ['--priors', pf, '--mp', 2])):
        st, r = D.rrdesi(['-i', f, '-o', f'{wd}/{name}.fits', *(opt or ['--mp', 1])], tdir=td)
        if not ck.ok(st == 'ok', 'rrdesi --priors fails', str(r)[:300]):
            return
        out[name] = D.read_catalog(f'{wd}/{name}.fits')['z']
    for n in ('p1', 'p2'):
        for i, t in enumerate((5, 3, 8)):
            a, b = out['no'][i], out[n][i]
            if t == 3:
                ck.ok(0.145 - 0.024 < b['Z'] < 0.255 + 0.024, 'rrdesi --priors: the redshift of a named target is outside its window', float(b['Z']))     # one step of the scan
            else:
                ck.ok(a['Z'] == b['Z'] and a['CHI2'] == b['CHI2'], 'rrdesi --priors changes a target that is not named', int(t))


if __name__ == '__main__':
    main(check, 'C17')
