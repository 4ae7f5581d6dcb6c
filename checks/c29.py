"""C29: the display shows the fit selected, and the keys lead to every fit."""
import os, runpy, sys
import numpy as np
from common import main, quiet, guarded, Intern, REPO
import fixtures as F, archlab as A, desilab as D, bosslab as B, refmodel as M

CFG = 'CONSTANTS\n N = %d\n K = %d\n KeepNum = %s\n NoCircle = %s\n Past = %s\n'
MODEL = CFG + 'SPECIFICATION Spec\nINVARIANTS InRange Shown Reachable Circle\nCHECK_DEADLOCK FALSE\n'


def txt(x):
    return (x.decode() if isinstance(x, bytes) else str(x)).strip()


def display(targets, templates, zscan, zfit, truth=None, archetypes=False):
    import matplotlib.pyplot as plt
    from redrock.plotspec import PlotSpec
    plt.close('all')
    with quiet():
        return PlotSpec(targets, templates, zscan, zfit, truth=truth, archetypes=archetypes)


class Key:
    def __init__(self, key):
        self.key = key


def lines(ax):
    return [(np.asarray(l.get_xdata(), float), np.asarray(l.get_ydata(), float)) for l in ax.lines]


def has(ls, x, y, rtol=1e-5):
    """a curve with these points"""
    for a, b in ls:
        if len(a) == len(x) and np.allclose(a, x, rtol=1e-12) and np.allclose(b, y, rtol=rtol, atol=rtol * (np.nanmax(np.abs(y)) if np.isfinite(y).any() else 1) + 1e-12, equal_nan=True):
            return True
    return False


def model(spec, row, tref, archs, bands):
    """the model of a row at a spectrum, from the files; unconvolved and convolved"""
    z = float(row['z']); c = np.atleast_1d(np.asarray(row['coeff'], float))
    if archs and txt(row['fitmethod']) == 'ARCH':
        a = archs[txt(row['spectype'])]; names = txt(row['subtype']).split(';')
        f = sum(x * a.spectrum(a.names.index(s), spec.wave, z) for x, s in zip(c, names))
        leg = np.asarray(row['legcoeff'], float)
        leg = leg[bands.index(spec.band)] if leg.ndim > 1 else leg
        for l, p in zip(leg, A.legendre(len(leg), spec.wave)):
            f = f + l * p
    else:
        t = tref[txt(row['spectype']), txt(row['subtype'])]
        f = M.spectrum(t, c[:len(t['flux'])], spec.wave, z)
    R = np.asarray(spec.R.todense())
    return f, R.dot(f)


def show(p, targets, zscan, zfit, tref, archs, truth, state, out):
    """what is on display, compared with what the fit says"""
    from redrock.zwarning import ZWarningMask as ZW
    i, k = state
    ids = [t.id for t in targets if t.id in set(zfit['targetid'])]
    t = next(t for t in targets if t.id == ids[i - 1])
    rows = zfit[zfit['targetid'] == t.id]; row = rows[rows['znum'] == k][0]
    axes = p._fig.axes
    ls = [q for ax in axes for q in lines(ax)]; texts = [x.get_text() for ax in axes for x in ax.texts] + [ax.get_title() for ax in axes]
    flux = mod = True
    for s in t.spectra:
        bad = s.ivar == 0
        flux &= has(ls, s.wave, np.where(bad, np.nan, s.flux))
        f, g = model(s, row, tref, archs, list(dict.fromkeys(q.band for q in t.spectra)))
        mod &= has(ls, s.wave, np.where(bad, np.nan, g), 1e-4) and has(ls, s.wave, f, 1e-4)
        # and no other curve over these wavelengths
    n = sum(1 for a, b in ls if any(len(a) == len(s.wave) and np.array_equal(a, s.wave) for s in t.spectra))
    mod &= n == 3 * len(t.spectra)
    scan = all(has(ls, q['redshifts'], np.asarray(q['zchi2']) + q['penalty']) for q in zscan[t.id].values())
    marks = has(ls, np.asarray(rows['z'], float), np.asarray(rows['chi2'], float)) and any(len(a) == 2 and np.allclose(a, row['z']) for a, b in ls)
    whole = ' '.join(texts) + ' ' + out
    named = str(t.id) in whole and f"{row['z']:.3f}" in whole and txt(row['spectype']) in whole and txt(row['subtype']) in whole
    names = [n for n, m in ZW.flags()]
    words = set(' '.join(x.get_text() for ax in axes for x in ax.texts).split())
    tr = True
    if truth is not None:
        w = np.where(truth['targetid'] == t.id)[0]
        v = {round(float(a[0]), 9) for a, b in ls if len(a) == 2 and a[0] == a[1]}
        tr = v == {round(float(row['z']), 9)} | ({round(float(truth['ztrue'][w[0]]), 9)} if len(w) else set())
    return dict(kind='show', kept=True, flux=bool(flux), model=bool(mod), scan=bool(scan), marks=bool(marks), named=bool(named), flags=[n for n in names if n in words],
                wanted=[n for n, m in ZW.flags() if int(row['zwarn']) & int(m)], truth=bool(tr), state=list(state), id=str(t.id), nflags=int(row['zwarn']))


def session(ck, rng, targets, templates, zscan, zfit, tref, keys, archs=None, archetypes=False, truth=None):
    import io, contextlib
    ev = []
    orig = [[(np.array(s.flux), np.array(s.ivar)) for s in t.spectra] for t in targets]
    p = display(targets, templates, zscan, zfit, truth, archetypes)
    def state():
        return [p.itarget + 1, p.znum]
    ids = [t.id for t in p.targets]
    ev.append(dict(kind='open', given=[str(t.id) for t in targets], fitted=sorted({str(i) for i in zfit['targetid']}), kept=[str(i) for i in ids], at=state()))
    cnt = [int(np.sum(zfit['targetid'] == i)) for i in ids]
    ev.append(show(p, targets, zscan, zfit, tref, archs, truth, state(), str(ids[0])))
    seen = set()
    for key in keys:
        before = state()
        # the user looks at a part
        view = []
        for ax in p._fig.axes[:2]:  # some part of what is there (labels far outside of a view overflow the rasteriser of some matplotlib versions)
            v = []
            for a, b in (ax.get_xlim(), ax.get_ylim()):
                v.append((a + (b - a) * rng.random() * 0.2, b - (b - a) * rng.random() * 0.3))
            view.append(v); ax.set_xlim(*v[0]); ax.set_ylim(*v[1])
        buf = io.StringIO()
        with contextlib.redirect_stdout(buf):
            st, err = guarded(p._onkeypress, Key(key))
        kept = all(np.allclose(ax.get_xlim(), v[0]) and np.allclose(ax.get_ylim(), v[1]) for ax, v in zip(p._fig.axes, view))
        after = state()
        ev.append(dict(kind='key', cnt=cnt, before=before, key=key, after=after, ok=st == 'ok', view=bool(kept), told=str(ids[before[0] - 1]) in buf.getvalue(), why='' if st == 'ok' else repr(err)[:200]))
        if st != 'ok':
            break
        if tuple(after) not in seen or rng.random() < 0.1:
            seen.add(tuple(after))
            ev.append(show(p, targets, zscan, zfit, tref, archs, truth, after, str(ids[after[0] - 1])))
    # looking does not change the spectra
    [e for e in ev if e['kind'] == 'show'][-1]['kept'] = all(np.array_equal(s.flux, f, equal_nan=True) and np.array_equal(s.ivar, w) for t, o in zip(targets, orig) for s, (f, w) in zip(t.spectra, o))
    return ev


def ref(t):
    return dict(type=t.template_type, sub=t.sub_type, wave=np.asarray(t.wave, float), flux=np.asarray(t.flux, float), igm=t.igm_model)


def sessions(ck, rng, cases, nrun):
    from astropy.table import Table
    from redrock.archetypes import All_archetypes
    from redrock.zfind import zfind
    ev = []
    tm = [F.template('GALAXY', '', 0.02, 0.3, nz=16, nbasis=3, seed=1, wavemin=1000, wavemax=9900), F.template('QSO', 'HIZ', 1.9, 2.4, nz=16, nbasis=2, seed=2, wavemin=800, wavemax=9900, igm='Calura12'),
          F.template('STAR', 'F', -0.002, 0.002, nz=9, nbasis=1, seed=3, wavemin=1000, wavemax=9900), F.template('STAR', 'WD', -0.002, 0.002, nz=9, nbasis=2, seed=6, wavemin=1000, wavemax=9900)]
    tref = {(t.template_type, t.sub_type): ref(t) for t in tm}
    fs = [A.archetype_file(f'{ck.work}/rrarchetype-{s.lower()}.fits', s, n, seed=n, w0=900., nw=1000) for s, n in (('GALAXY', 4), ('QSO', 3), ('STAR', 2))]
    L = F.dist_targets_class()
    for j in range(nrun):
        keys = cases[j % len(cases)]['keys']; n = len(cases[j % len(cases)]['cnt'])
        targets = []
        for i in range(n + 1):
            t = rng.choice(tm); zz = t.redshifts
            nspec = rng.choice([1, 2, 3, 3])
            x = F.target(10**8 + 17 * i + rng.randrange(10), t, float(zz[1] + (zz[-2] - zz[1]) * rng.random()), nspec=nspec, seed=rng.randrange(10**4), bands=rng.choice([('b', 'r', 'z'), ('z', 'b', 'r')]), noise=rng.choice([0.1, 1.0]))
            r = np.random.RandomState(rng.randrange(10**6))
            for s in x.spectra:
                if rng.random() < 0.5:
                    s.ivar[r.rand(len(s.ivar)) < 0.2] = 0
                    s.flux[(s.ivar == 0) & (r.rand(len(s.ivar)) < 0.5)] = 0      # as of pixels that were not observed
            if i == n - 1 and j % 3 == 2:
                for s in x.spectra:
                    s.ivar[:] = 0
            targets.append(x)
        arch = j % 2
        files = fs if arch and j % 4 == 1 else [rng.choice(fs)]
        conf = dict(archetypes=All_archetypes(lstfilename=list(files)).archetypes, deg_legendre=rng.choice([1, 2, 3]), per_camera=rng.random() < 0.6, n_nearest=rng.choice([None, 2, 3])) if arch else {}
        with quiet():
            DT = L([targets]); T = F.disttemplates(tm, DT)
            if arch:
                conf['ncamera'] = len(DT.wavegrids())
                obj = All_archetypes(lstfilename=list(files))
            zscan, zfit = zfind(DT, T, 1, nminima=rng.choice([1, 2, 3]), **conf)
        # not all targets of the file have fits, nor are they in the same order; not all fits have targets
        drop = targets[rng.randrange(n + 1)].id if rng.random() < 0.7 else None
        zfit = zfit[zfit['targetid'] != drop]
        given = targets[:]
        rng.shuffle(given)
        if rng.random() < 0.3 and len(given) > 2:
            given = given[:-1]
        if not any(t.id in set(zfit['targetid']) for t in given):
            given = targets[:]
        truth = None
        if rng.random() < 0.5:
            k = [t.id for t in targets][:-1]; rng.shuffle(k)
            truth = Table(dict(targetid=np.array(k), ztrue=np.array([0.05 + 0.01 * i for i in range(len(k))])))
        if rng.random() < 0.5:       # scans with a penalty
            for v in zscan.values():
                for q in v.values():
                    q['penalty'] = np.asarray(q['penalty']) + rng.uniform(5, 50) * np.linspace(0, 1, len(q['penalty']))
        zscan2 = {i: v for i, v in zscan.items() if i != drop} if rng.random() < 0.5 else zscan
        ev += session(ck, rng, given, {t.full_type: t for t in tm}, zscan2, zfit, tref, keys, {A.Arch(f).type: A.Arch(f) for f in files} if arch else None, obj if arch else False, truth)
    return ev


def command(argv):
    """the program rrplot in this process; the display it opens"""
    import matplotlib.pyplot as plt
    plt.close('all'); old = sys.argv
    sys.argv = ['rrplot'] + [str(a) for a in argv]
    try:
        with quiet():
            return 'ok', runpy.run_path(f'{REPO}/bin/rrplot', run_name='__main__')['p']
    except BaseException as e:
        return 'error', e
    finally:
        sys.argv = old


def programs(ck, rng):
    ev = []; w = ck.work
    tdir = f'{w}/templates'; files = D.template_dir(tdir, stars=True, qso=True, nz=8); tm = D.load(files); tref = M.read_templates(files)
    adir = f'{w}/arch'; os.makedirs(adir)
    A.archetype_file(f'{adir}/rrarchetype-galaxy.fits', 'GALAXY', 3, 5)
    rows = [D.make_row(40 + 9 * i, tm[i % 2], 0.05 + 0.05 * i if i % 2 == 0 else 1.8 + 0.1 * i, np.random.RandomState(i), exp=e + 1) for i in range(4) for e in range(2)]
    f = D.write_file(f'{w}/in.fits', rows)
    c0, c1, m = np.log10(3650.), 0.0016, 250; wv = B.wave(c0, c1, m); rs = np.random.RandomState(3); data = {}
    for i in (1, 2, 3):
        fl = np.ones(m); ok = (wv > 3400) & (wv < 10200); fl[ok] = tm[0].eval(np.array([2., 0.1 * i, -0.1]), wv[ok], 0.06 * i)
        data[i] = dict(flux=fl + 0.1 * rs.normal(size=m), ivar=np.full(m, 100.), mask=np.zeros(m, int), wdisp=np.full(m, 1.2))
    bd = f'{w}/boss'; os.makedirs(bd)
    plate = B.plate_file(f'{bd}/spPlate-4055-55359.fits', 4055, 55359, [1, 2, 3], data, c0, c1, nexp={'b1': 1, 'r1': 1}, expids=['b1-00000001', 'r1-00000001'])
    B.photo_file(f'{bd}/photoPosPlate-4055-55359.fits', [11, 12, 13])
    from redrock.external.boss import platemjdfiber2targetid
    bids = [int(platemjdfiber2targetid(4055, 55359, i)) for i in (1, 2, 3)]
    ids = sorted({r['tid'] for r in rows})
    for name, opt, run, want in (('desi', [], ['-i', f, '-t', tdir], ids), ('desi', ['--allspec'], ['-i', f, '-t', tdir, '--allspec'], ids), ('desi', ['--targetids', f'{ids[2]},{ids[0]}'], ['-i', f, '-t', tdir], [ids[2], ids[0]]),
                                 ('desi', ['--use-archetype', '--archetypes', adir], ['-i', f, '-t', tdir, '--archetypes', adir], ids), ('boss', ['--datatype', 'boss'], ['--spplate', plate, '-t', tdir], bids),
                                 ('boss', ['--datatype', 'boss', '--targetids', str(bids[1])], ['--spplate', plate, '-t', tdir], [bids[1]])):
        det = f'{w}/d.h5'
        if os.path.exists(det):
            os.unlink(det)
        if name == 'desi':
            st, err = D.rrdesi(run + ['-d', det, '--mp', 1])
        else:
            st, err = B.rrboss(run + ['-o', det, '--mp', 1])
        if not ck.ok(st == 'ok', 'the run completes', dict(run=run, why=repr(err)[:300])):
            continue
        st, p = command(['--specfile', run[1], '--rrfile', det, '-t', tdir] + opt)
        e = dict(kind='program', ok=st == 'ok', ids=[], want=[str(x) for x in want], spectra=[], nspectra=[], why='' if st == 'ok' else repr(p)[:300], opt=[str(x) for x in opt])
        if st == 'ok':
            e['ids'] = [str(t.id) for t in p.targets]
            e['spectra'] = [len(t.spectra) for t in p.targets]
            # the coadd of a BOSS plate has its exposures in one spectrum
            e['nspectra'] = [6 if '--allspec' in opt else 3 for _ in want] if name == 'desi' else e['spectra']
            ev.append(e)
            archs = {'GALAXY': A.Arch(f'{adir}/rrarchetype-galaxy.fits')} if '--use-archetype' in opt else None
            for i in range(len(p.targets)):
                if i:
                    with quiet():
                        k, err = guarded(p._onkeypress, Key('down'))
                    if not ck.ok(k == 'ok', 'the next target is shown', repr(err)[:300]):
                        break
                ev.append(show(p, p.targets, p.zscan, p.zfit, tref, archs, None, [i + 1, 0], ''))
        else:
            ev.append(e)
    return ev


def check(ck):
    rng = ck.rng; T = ck.thorough
    n, k = (5, 4) if T else (4, 3)
    ck.model('Viewer', MODEL % (n, k, 'FALSE', 'FALSE', 'FALSE'))
    for w in (('TRUE', 'FALSE', 'FALSE'), ('FALSE', 'TRUE', 'FALSE'), ('FALSE', 'FALSE', 'TRUE')):
        ck.expect_violation('Viewer', MODEL % ((2, 2) + w), 'InRange is violated')
    cases = ck.generate('G_Viewer', CFG % (4, 3, 'FALSE', 'FALSE', 'FALSE') + ' L = 14\nSPECIFICATION GSpec\nCHECK_DEADLOCK FALSE\n', args=('-simulate', f'num={60 if T else 16}', '-depth', '20', '-seed', str(ck.seed)))
    walk = ['right'] * 4 + ['down', 'left', 'right', 'right', 'down', 'down', 'd', 'right', 'up', 'left', 'left', 'down', 'down', 'd', 'up', 'up', 'up', 'up', 'left', 'x']
    cases = [dict(cnt=[3, 3, 3], keys=walk)] * 2 + cases
    ev = sessions(ck, rng, cases, 60 if T else 14) + programs(ck, rng)
    ck.extra['events'] = {k: sum(1 for e in ev if e['kind'] == k) for k in sorted({e['kind'] for e in ev})}
    ck.sample(lambda: ev[2]); ck.sample(lambda: ev[1])
    ck.validate('T_Viewer', ev)
    ck.assumptions += ['figures are drawn without a screen; key events are delivered by calling the handler that the display registers']


if __name__ == '__main__':
    main(check, 'C29', 'model_checking')
