"""C14: output files appear complete or not at all."""
import os, shutil
import numpy as np
from common import main, quiet, guarded, MachineryError
import publab as P, fixtures, desilab as D, c15

MODEL = ('CONSTANTS\n NParts = %d\n NRuns = %d\n Direct = %s\n EarlyRename = %s\n Swallow = %s\nSPECIFICATION Spec\nINVARIANT Safe\nINVARIANT CanFinish\nCHECK_DEADLOCK FALSE\n')


def writers(rng, wd):
    """name -> function(path, version) that writes the result of that version"""
    from redrock import results
    from redrock.external import desi, boss
    from astropy.table import Table
    tm = D.load(D.template_dir(wd, qso=False))
    res = {v: c15.synthetic(rng, True) for v in range(1, 6)}

    def cat(v):
        n = 40 + v
        t = Table(dict(TARGETID=np.arange(n) + 1000 * v, Z=np.linspace(0, v, n), ZWARN=np.zeros(n, int), COEFF=np.full((n, 10), v * 1.5), SPECTYPE=np.array(['GALAXY'] * n)))
        f = Table(dict(TARGETID=t['TARGETID'], OBJTYPE=np.array(['TGT'] * n), COADD_FIBERSTATUS=np.zeros(n, np.int32)))
        e = Table(dict(TARGETID=t['TARGETID'], TILEID=np.full(n, v), EXPID=np.arange(n)))
        s = Table(dict(TARGETID=t['TARGETID'], TSNR2_LRG=np.full(n, 2.0 * v)))
        return t, f, e, s

    def zscan(path, v):
        results.write_zscan(path, *res[v], clobber=True)

    def zbest(path, v):
        t, f, e, s = cat(v)
        desi.write_zbest(path, t, f, e, s, tm, spec_header=dict(SPGRP='cumulative', TILEID=v))

    def model(path, v):
        t = cat(v)[0]
        wave = {b: fixtures.grid(b) for b in 'brz'}
        desi.write_bestmodel(path, t, {b: np.full((len(t), len(wave[b])), 1.0 * v) for b in wave}, wave, tm)

    def bossz(path, v):
        boss.write_zbest(path, cat(v)[0], {t.full_type: t._version for t in tm}, None)
    return {'zscan': (zscan, 'd.h5', True), 'zbest': (zbest, 'z.fits', True), 'model': (model, 'm.fits', True), 'boss': (bossz, 'b.fits', False)}


def check(ck):
    for n, r in ((2, 3), (3, 4), (5, 6)) if ck.thorough else ((2, 3), (3, 4)):
        ck.model('Publish', MODEL % (n, r, 'FALSE', 'FALSE', 'FALSE'))
    for bad in (('TRUE', 'FALSE', 'FALSE'), ('FALSE', 'TRUE', 'FALSE'), ('FALSE', 'FALSE', 'TRUE')):
        ck.expect_violation('Publish', MODEL % ((3, 3) + bad), 'Safe is violated')
    hist = ck.generate('G_Publish', f'CONSTANT N = {3 if ck.thorough else 2}\nSPECIFICATION Spec\nCHECK_DEADLOCK FALSE\n')
    if ck.thorough:
        hist = ck.rng.sample(hist, 120)
    rng = ck.rng; base = ck.work + '/out'; os.makedirs(base)
    ev = []; points = 0
    with quiet():
        W = writers(rng, ck.work + '/tm')
    dirs = [base]
    if os.path.isdir('/dev/shm') and os.stat('/dev/shm').st_dev != os.stat(base).st_dev:
        import tempfile
        dirs.append(tempfile.mkdtemp(prefix='verif-C14-', dir='/dev/shm'))        # another file system than that of temporary files

    def run_history(name, steps, root):
        """steps: list of (version, fault, point);  returns the event"""
        nonlocal points
        fn, fname, mkdir = W[name]
        if name == 'zscan':
            fname = rng.choice([fname, 'details.hdf5', 'details', 'a.b.h5', 'd.h5.new'])      # any name will do
        d = os.path.join(root, 'h'); shutil.rmtree(d, ignore_errors=True)
        out = os.path.join(d, 'sub', 'dir', fname) if mkdir else os.path.join(d, fname)
        os.makedirs(d)
        e = dict(kind='history', writer=name, steps=[])
        for v, fault, point in steps:
            res, _ = P.attempt(lambda: fn(out, v), root, fault, point)
            points += 1
            e['steps'].append(dict(run=v, fault=fault or 'none', res=res, path=classify(name, out), point=str(point)))
        shutil.rmtree(d)
        return e

    def classify(name, path):
        if not os.path.lexists(path):
            return 0
        g = P.digest(path)
        return next((v for v in ref[name] if ref[name][v] == g and g is not None), -1)
    ref = {}; plan = {}
    try:
        for name, (fn, fname, mkdir) in W.items():
            ref[name] = {}; sizes = []
            for v in (1, 2, 3):
                d = base + f'/ref{name}{v}'; os.makedirs(d); p = d + '/' + fname
                res, n = P.attempt(lambda: fn(p, v), base)
                g = P.digest(p) if res == P.RETURNED else None
                if g is None:
                    ck.bad(f'{name} does not write a readable file', dict(res=res, version=v))
                ref[name][v] = g; sizes.append(os.path.getsize(p) if g else 0)
                shutil.rmtree(d)
            if len(set(ref[name].values())) < 3:
                continue
            # number of file operations of a run in the history directory (with directories to make)
            d = base + '/cnt'; os.makedirs(d)
            _, n = P.attempt(lambda: fn(d + ('/a/b/' if mkdir else '/') + fname, 1), base); shutil.rmtree(d)
            size = max(sizes)
            nb = 40 if ck.thorough else 8
            bytes_ = sorted({0, 1, size - 1, size // 2} | {int(size * (k + rng.random()) / nb) for k in range(nb)})
            plan[name] = dict(steps=n, size=size, pts=[('step', k) for k in range(1, n + 1)] + [('bytes', b) for b in bytes_])
            # every point, with nothing at the path before and with an older result there, then an undisturbed run
            for fault in ('kill', 'error'):
                for pt in plan[name]['pts']:
                    ev.append(run_history(name, [(1, fault, pt), (2, None, None)], base))
                    ev.append(run_history(name, [(1, None, None), (2, fault, pt), (3, None, None)], base))
            for root in dirs[1:]:
                ev.append(run_history(name, [(1, None, None), (2, None, None)], root))
        for h in hist:
            for name in plan if ck.thorough else [rng.choice(list(plan))] if plan else []:
                pts = plan[name]['pts']
                steps = []
                for k, x in enumerate(h['h']):
                    third = {'first': pts[:max(1, len(pts) // 3)], 'middle': pts[len(pts) // 3:2 * len(pts) // 3], 'last': pts[-max(1, len(pts) // 3):], 'x': [None]}[x['at']]
                    steps.append((k + 1, None if x['fault'] == 'none' else x['fault'], rng.choice(third)))
                ev.append(run_history(name, steps, base))
        whole_run(ck, base, ev)
    finally:
        for d in dirs[1:]:
            shutil.rmtree(d, ignore_errors=True)
    ck.extra['interrupted runs'] = points
    ck.extra['points per writer'] = {k: len(v['pts']) for k, v in plan.items()}
    killed = sum(s['res'] == 'killed' for e in ev for s in e['steps']); raised = sum(s['res'] == 'raised' for e in ev for s in e['steps'])
    ck.extra['killed'] = killed; ck.extra['raised'] = raised
    if not ck.violations and (killed < 20 or raised < 20):
        raise MachineryError('the injected faults do not reach the writers')
    ck.sample(lambda: ev[3]); ck.sample(lambda: ev[-1])
    ck.validate('T_Publish', ev)
    ck.assumptions += ['rename within one directory is atomic (POSIX); loss of power with unflushed pages is outside',
                       'points: before and after every file operation Python performs, and when any file would grow beyond n bytes, for a sample of n',
                       'the complete result is what an undisturbed run writes (its content is judged by C15, C20, C22)']


def whole_run(ck, base, ev):
    """rrdesi with its three outputs, interrupted while it writes them"""
    wd = base + '/whole'; os.makedirs(wd); td = wd + '/t'
    D.template_dir(td, stars=False, qso=False)
    inputs = {}
    for v in (1, 2):
        tm = D.load([td + '/' + os.listdir(td)[0]])
        inputs[v] = D.write_file(f'{wd}/in{v}.fits', [D.make_row(10 * v + i, tm[0], 0.05 * i) for i in range(3)], coadded=True)
    names = ['o.fits', 'd.h5', 'm.fits']

    def go(v, d):
        def f():
            st, r = D.rrdesi(['-i', inputs[v], '-o', d + '/o.fits', '-d', d + '/d.h5', '--model', d + '/m.fits', '--mp', 1], tdir=td)
            if st != 'ok':
                raise RuntimeError(str(r))
        return f
    refs = {}
    n = 0
    for v in (1, 2):
        d = f'{base}/whole{v}'; os.makedirs(d)
        res, n = P.attempt(go(v, d), d)
        for x in names:
            refs[x, v] = P.digest(d + '/' + x)
            if refs[x, v] is None:
                ck.bad(f'rrdesi does not write a readable {x}', dict(res=res)); return
    sizes = [os.path.getsize(d + '/' + x) for x in names]
    pts = [('step', k) for k in range(1, n + 1)] + [('bytes', int(s * f)) for s in sizes for f in ((0.02, 0.5, 0.98) if ck.thorough else (0.97,))]
    if not ck.thorough:
        pts = ck.rng.sample(pts, min(len(pts), 8))
    for k, pt in enumerate(pts):
        d = base + '/whole1'                       # holds a complete result of run 1, whatever the last disturbed run did
        dd = base + '/wholex'; shutil.rmtree(dd, ignore_errors=True); shutil.copytree(d, dd)
        fault = ('kill', 'error')[k % 2]
        res, _ = P.attempt(go(2, dd), dd, fault, pt)
        for x in names:
            g = P.digest(dd + '/' + x) if os.path.exists(dd + '/' + x) else 0
            cls = 0 if g == 0 else next((v for v in (1, 2) if refs[x, v] == g and g is not None), -1)
            ev.append(dict(kind='history', writer='rrdesi ' + x, steps=[dict(run=1, fault='none', res='returned', path=1, point='-'), dict(run=2, fault=fault, res=res, path=cls, point=str(pt))]))


if __name__ == '__main__':
    main(check, 'C14')
