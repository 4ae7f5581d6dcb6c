"""C16: reusing a stored scan gives the fits of the original run."""
import os
import numpy as np
from common import main, quiet, guarded, Intern, MachineryError
import fixtures, mpilab, mplab, c01, c02, c15, desilab as D

MODEL = 'CONSTANTS\n Stored = {%s}\n NProc = %d\n KeepAll = %s\nSPECIFICATION Spec\nINVARIANT Reported\nPROPERTY Ends\nCHECK_DEADLOCK FALSE\n'


def scanof(it, x):
    """values in the stored precision"""
    return it(np.asarray(x['redshifts'], float), *[np.asarray(x[k]).astype(np.float32) for k in ('zchi2', 'penalty', 'zcoeff')])


def close(a, b):
    """rows of two runs agree up to the stored precision of the scan"""
    if len(a) and int(a[0]['npixels']) == 0:
        return 'same' if all(int(y['npixels']) == 0 for y in b) else 'data in a target without data'          # flat scan: any redshift
    if len(a) != len(b):
        return f'{len(b)} instead of {len(a)} fits'
    for x, y in zip(a, b):
        for c in ('spectype', 'subtype', 'zwarn', 'npixels', 'ncoeff'):
            if x[c] != y[c]:
                return f'{c} {y[c]} instead of {x[c]}'
        if int(x['zwarn']) & 1024:
            continue                       # failed fits keep values of the scan's neighbourhood
        if abs(x['z'] - y['z']) > 1e-4 * (1 + x['z']) or abs(x['chi2'] - y['chi2']) > 1e-4 * abs(x['chi2']) + 1e-3:
            return f'z {y["z"]} chi2 {y["chi2"]} instead of {x["z"]} {x["chi2"]}'
    return 'same'


def check(ck):
    import redrock.zfind as zf
    from redrock.results import write_zscan
    from redrock.targets import DistTargetsCopy
    rng = ck.rng
    ck.model('Reuse', MODEL % ('"a","b","c"', 3, 'FALSE'))
    if ck.thorough:
        ck.model('Reuse', MODEL % ('"a","b","c","d","e"', 4, 'FALSE'))
    ck.expect_violation('Reuse', MODEL % ('"a","b"', 2, 'TRUE'), 'Reported is violated')
    ev = []
    pen = 0
    for rnd in range(9 if ck.thorough else 3):
        tm = c01.tmpls((2, 1, 0)[rnd % 3])
        ntarg = [5, 4, 6][rnd % 3]
        S = mpilab.Setup(rng, ntarg, tm, noise=0.1)
        for t in S.targets:
            t.meta.pop('NAME')
        if rnd % 3 == 1:
            for s in S.targets[2].spectra:
                s.ivar[:] = 0
        nmin = [3, 2, 1][rnd % 3]
        path = f'{ck.work}/scan{rnd}.h5'
        prior = c02.priorfile(ck, S.ids, f'p{rnd}.fits') if rnd % 3 == 1 else None
        scan0, fit0 = S.serial(nminima=nmin)
        pen += int(sum((scan0[t][k]['penalty'] > 0).any() for t in scan0 for k in scan0[t]))
        with quiet():
            write_zscan(path, scan0, fit0, clobber=True)
        orig = S.serial(nminima=nmin, priors=prior)[1] if prior else fit0
        rowsof = lambda tab, t: [r for r in tab[tab['targetid'] == t]]
        base = {}
        for pri in {None, prior}:
            st, r = guarded(S.serial, nminima=nmin, chi2_scan=path, priors=pri)
            base[pri] = r[1] if st == 'ok' else None
        it = c15.Exact(); inn = Intern(rtol=1e-6, atol=1e-8)
        rowkeys = lambda tab, t: mpilab.table_rows(tab[tab['targetid'] == t], inn)[1] if tab is not None else []

        def record(what, ids, st, r, pri, tmpl=tm, others=False):
            types = sorted(t.full_type for t in tmpl)
            e = dict(kind='reuse', what=what, ok=st == 'ok', why='ok' if st == 'ok' else str(r)[:300], ids=[f't{i}' for i in ids], types=types, gids=[], gtypes=types, stored=[], scan=[],
                     rows=[], want=[], near=[], table=[])
            if st == 'ok':
                al, tab = r
                e['gids'] = [f't{int(t)}' for t in al]; e['gtypes'] = sorted({k for t in al for k in al[t]})
                e['table'] = [f't{int(t)}' for t in dict.fromkeys(tab['targetid'])]
                if pri is None:
                    e['stored'] = [[scanof(it, scan0[t][k]) for k in types] for t in ids]
                    e['scan'] = [[scanof(it, al[t][k]) if t in al and k in al[t] else 0 for k in types] for t in ids]
                e['rows'] = [rowkeys(tab, t) for t in ids]
                if tmpl is tm:
                    e['want'] = [rowkeys(base[pri], t) for t in ids]
                    o = orig if pri else fit0
                    e['near'] = [close(rowsof(o, t), rowsof(tab, t)) for t in ids]
                else:
                    e['want'] = e['rows']
            ev.append(e)

        def run(what, ids, mp=1, pri=None, tmpl=tm):
            tg = {t.id: t for t in S.fresh()}
            with quiet():
                d = DistTargetsCopy([tg[i] for i in ids]); dts = fixtures.disttemplates(tmpl, d)
                st, r = guarded(zf.zfind, d, dts, mp_procs=mp, nminima=nmin, chi2_scan=path, priors=pri)
            record(what, ids, st, r, pri, tmpl)
        ids = list(S.ids)
        run('serial', ids)
        run('reversed', ids[::-1])
        for mp in (2, 3, 5):
            run(f'workers {mp}', ids, mp)
        for k in range(3):
            sub = rng.sample(ids, rng.randint(1, ntarg - 1))
            run('subset', sub, mp=[1, 2, 3][k])
        if len(tm) > 1:
            run('fewer templates', ids, tmpl=tm[1:])
            run('other order of templates', ids, tmpl=tm[::-1])
        if prior:
            run('prior', ids, pri=prior); run('prior with workers', ids, 2, pri=prior)
        for size in (2, 3, ntarg + 1):
            for copies in (True, False):
                parts = None
                if not copies:
                    parts = [[] for _ in range(size)]
                    for i in range(ntarg):
                        parts[rng.randrange(size)].append(i)
                res, err, w = S.mpi(size, parts=parts, schedule=rng.choice(mpilab.hints([], size, rng)), seed=rng.randrange(10**6), mode=['eager', 'sync'][copies],
                                    nminima=nmin, chi2_scan=path)
                ok = all(x is None for x in err) and not w.leftover()
                record(f'ranks {size}', ids, 'ok' if ok else 'error', res[0][0] if ok else mpilab.errtext(err), None)
                if ok:
                    ck.ok(all(q[0] == (None, None) for q in res[1:]), 'another rank than the root returns results', f'ranks {size}')
    ck.extra['scans with penalty'] = pen
    if not pen and not ck.violations:
        raise MachineryError('no penalty in the scans')
    modified(ck, rng, ev)
    program(ck, rng)
    ck.sample(lambda: {k: ev[0][k] for k in ('what', 'ids', 'types', 'rows')}); ck.sample(lambda: {k: ev[6][k] for k in ('what', 'ids', 'near')})
    ck.validate('T_Reuse', ev)
    ck.assumptions += ['runs over the same stored scan are compared to 1e-6, with the original run to 1e-4 in z/(1+z) and chi2 (the scan is stored in single precision)',
                       'the stored scan was made without prior']


def modified(ck, rng, ev):
    """a stored scan with other values, so that only its values and penalties decide where the fits begin"""
    import redrock.zfind as zf, redrock.fitz as fz
    from redrock.results import write_zscan
    from redrock.targets import DistTargetsCopy
    for rnd in range(4 if ck.thorough else 2):
        tm = c01.tmpls((1, 2)[rnd % 2])
        S = mpilab.Setup(rng, 5, tm, noise=0.2)
        for t in S.targets:
            t.meta.pop('NAME')
        scan0, fit0 = S.serial(nminima=2)
        rs = np.random.RandomState(rng.randrange(2**31))
        for t in scan0:
            for k in scan0[t]:
                x = scan0[t][k]; n = len(x['zchi2'])
                x['zchi2'] = 1000 + 200 * rs.rand(n); x['penalty'] = 400 * rs.rand(n) * (rs.rand(n) < 0.7)
        path = f'{ck.work}/mod{rnd}.h5'
        with quiet():
            write_zscan(path, scan0, fit0, clobber=True)
        inn = Intern(rtol=1e-6, atol=1e-8)
        pair = lambda z, c: inn(np.array([float(z), float(c)]))
        allowed = {}
        for tg in S.fresh():
            allowed[tg.id] = {}
            for t in tm:
                x = scan0[tg.id][t.full_type]
                with quiet():
                    f = fz.fitz((x['zchi2'].astype(np.float32) + x['penalty'].astype(np.float32)).astype(float), t.redshifts, tg, t, nminima=2)
                allowed[tg.id][t.full_type] = [pair(np.ravel(f['z'][i])[0], np.ravel(f['chi2'][i])[0]) for i in range(len(f['chi2']))]
        def run(what, mp=1, size=None):
            if size:
                res, err, w = S.mpi(size, seed=rng.randrange(10**6), nminima=2, chi2_scan=path)
                st, r = ('ok', res[0][0]) if all(e is None for e in err) else ('error', mpilab.errtext(err))
            else:
                with quiet():
                    d = DistTargetsCopy(S.fresh()); dts = fixtures.disttemplates(tm, d)
                    st, r = guarded(zf.zfind, d, dts, mp_procs=mp, nminima=2, chi2_scan=path)
            e = dict(kind='start', what=what, ok=st == 'ok', why='ok' if st == 'ok' else str(r)[:300], got=[], allowed=[])
            if st == 'ok':
                for i in S.ids:
                    rows = r[1][r[1]['targetid'] == i]
                    e['got'].append([pair(x['z'], x['chi2']) for x in rows])
                    e['allowed'].append(sorted({v for k in allowed[i] for v in allowed[i][k]}))
            ev.append(e)
        run('serial'); run('workers 2', 2); run('workers 4', 4); run('ranks 2', size=2); run('ranks 3', size=3)


def program(ck, rng):
    """rrdesi -d, then rrdesi --chi2-scan with other selections"""
    wd = ck.work; td = wd + '/tm'
    fs = D.template_dir(td); tm = D.load(fs)
    rows = [[D.make_row(100 * f + i, tm[0], 0.03 + 0.05 * i, noise=0.1) for i in (3, 1, 2)] for f in (2, 1)]
    files = [D.write_file(f'{wd}/s{k}.fits', r, coadded=True) for k, r in enumerate(rows)]
    st, r = D.rrdesi(['-i', *files, '-o', wd + '/o1.fits', '-d', wd + '/d1.h5', '--mp', 1], tdir=td)
    if st != 'ok':
        ck.bad('rrdesi fails', str(r)); return
    ref = D.read_catalog(wd + '/o1.fits')['z']
    for opts, want in ((['-i', *files, '--mp', 1], [203, 201, 202, 103, 101, 102]), (['-i', *files[::-1], '--mp', 2], [103, 101, 102, 203, 201, 202]),
                       (['-i', files[1], '--mp', 1], [103, 101, 102]), (['-i', *files, '--targetids', '201,102', '--mp', 1], [201, 102]), (['-i', *files, '-n', 1, '--mp', 2], None)):
        st, r = D.rrdesi([*opts, '--chi2-scan', wd + '/d1.h5', '-o', wd + '/o2.fits', '-d', wd + '/d2.h5'], tdir=td)
        if st != 'ok':
            ck.bad('rrdesi --chi2-scan fails', dict(options=opts[2:], why=str(r)[:300])); continue
        got = D.read_catalog(wd + '/o2.fits')['z']
        ids = [int(t) for t in got['TARGETID']]
        if want is not None:
            ck.ok(ids == want, 'rrdesi --chi2-scan reports other targets', dict(got=ids, want=want))
        for g in got:
            o = ref[ref['TARGETID'] == g['TARGETID']]
            if not ck.ok(len(o) == 1, 'rrdesi --chi2-scan reports a target that was not asked for', int(g['TARGETID'])):
                continue
            o = o[0]
            same = abs(g['Z'] - o['Z']) < 1e-4 and abs(g['CHI2'] - o['CHI2']) < 1e-4 * o['CHI2'] + 1e-3 and g['SPECTYPE'] == o['SPECTYPE'] and g['SUBTYPE'] == o['SUBTYPE'] and g['ZWARN'] == o['ZWARN']
            ck.ok(same, 'rrdesi --chi2-scan gives another fit', dict(options=opts[2:], target=int(g['TARGETID']), z=[g['Z'], o['Z']]))
        from redrock.results import read_zscan_redrock
        ck.ok(set(int(t) for t in read_zscan_redrock(wd + '/d2.h5')) == set(ids), 'details of a run with a stored scan hold other targets', opts[2:])


if __name__ == '__main__':
    main(check, 'C16')
