"""C06: failing workers."""
import os, signal, time
import numpy as np
from common import main, quiet, guarded
import fixtures, mpilab, mplab, c01

LIMIT = 40


def make_fault():
    """a Spectrum that fails when it is used in a worker"""
    from redrock.targets import Spectrum

    class Faulty(Spectrum):
        how = None; after = 0; parent = None; uses = 0

        def _boom(self):
            if os.getpid() != self.parent and self.how:
                self.uses += 1
                if self.uses > self.after:
                    if self.how == 'exception':
                        raise RuntimeError('injected failure')
                    if self.how == 'exit':
                        os._exit(3)
                    if self.how == 'exit0':
                        os._exit(0)
                    if self.how == 'sysexit':
                        raise SystemExit(4)
                    if self.how == 'keyboard':
                        raise KeyboardInterrupt
                    if self.how == 'memory':
                        raise MemoryError('injected')
                    os.kill(os.getpid(), signal.SIGKILL if self.how == 'kill' else signal.SIGTERM)
                    time.sleep(5)

        @property
        def Rcsr(self):
            self._boom()
            return super().Rcsr

        def sharedmem_unpack(self):
            if self.after < 0:
                self._boom()
            return super().sharedmem_unpack()
    return Faulty


def scenario(spec):
    """runs in a forked child (see mplab.deadline): returns what is in the results"""
    import redrock.zfind as zf, redrock.zscan as zs
    from redrock.targets import DistTargetsCopy, Target
    Faulty = make_fault()
    tm = c01.tmpls(spec['templ'])
    tg = []
    for i in range(spec['ntarg']):
        t = fixtures.target(10 + i, tm[0], 0.1 + 0.02 * i if spec['templ'] == 0 else 1.7, nspec=spec['nspec'][i], seed=i, meta=dict(A=i))
        if i in spec['bad']:
            s0 = t.spectra[-1]
            f = Faulty(s0.wave, s0.flux, s0.ivar, s0.R, band=s0.band)
            f.how = spec['how']; f.after = spec['after']; f.parent = os.getpid()
            t = Target(t.id, list(t.spectra[:-1]) + [f], meta=t.meta)
        tg.append(t)
    d = DistTargetsCopy(tg)
    dts = fixtures.disttemplates(tm, d)
    kw = {}
    if spec['phase'] == 'fit':
        kw['chi2_scan'] = spec['scan']
    with mplab.worker_order(spec['order'], spec['pause']):
        if spec['phase'] == 'scan':
            r = zs.calc_zchi2_targets(d, dts, mp_procs=spec['mp'])
            miss = [t.id for t in tg for x in tm if t.id not in r or x.full_type not in r[t.id] or r[t.id][x.full_type].get('zchi2') is None
                    or len(r[t.id][x.full_type]['zchi2']) != len(x.redshifts)]
        else:
            al, tab = zf.zfind(d, dts, mp_procs=spec['mp'], nminima=2, **kw)
            miss = [t.id for t in tg if t.id not in al or not np.any(tab['targetid'] == t.id)]
            have = {(int(r['targetid']), str(r['spectype'])) for r in tab}
            miss += [t.id for t in tg for x in tm if (t.id, x.template_type) not in have]
    return miss


def program(spec):
    """the same through the command line program; what is missing in its outputs"""
    import desilab as D
    from redrock.targets import Spectrum
    parent = os.getpid(); state = dict(uses=0); real = Spectrum.Rcsr
    Faulty = make_fault()

    def rcsr(self):
        if spec['how'] and (spec['mp'] <= 1 or os.getpid() != parent) and len(self.wave) == 26 and self.ivar[3] == spec['mark']:
            state['uses'] += 1
            if state['uses'] > spec['after']:
                f = Faulty.__new__(Faulty); f.how = spec['how']; f.parent = -1; f.uses = 0; f.after = 0
                f._boom()
        return real.fget(self)
    Spectrum.Rcsr = property(rcsr)
    out, det = spec['base'] + '-o.fits', spec['base'] + '-d.h5'
    opt = ['-i', spec['file'], '-o', out, '-d', det]
    if spec['ranks']:
        (st, e), _ = D.rrdesi_mpi(spec['ranks'], opt, tdir=spec['tdir'], seed=spec['after'])
    else:
        st, e = D.rrdesi(opt + ['--mp', spec['mp']], tdir=spec['tdir'])
    if st != 'ok':
        raise RuntimeError(str(e)[:200])
    if not os.path.exists(out) or not os.path.exists(det):
        return ['no output']
    z = D.read_catalog(out)['z']
    return [t for t in spec['ids'] if t not in list(z['TARGETID'])]


def storedscan(ck, templ, ntarg, nspec, path):
    import redrock.zfind as zf
    from redrock.results import write_zscan
    from redrock.targets import DistTargetsCopy
    tm = c01.tmpls(templ)
    with quiet():
        tg = [fixtures.target(10 + i, tm[0], 0.1 + 0.02 * i if templ == 0 else 1.7, nspec=nspec[i], seed=i, meta=dict(A=i)) for i in range(ntarg)]
        d = DistTargetsCopy(tg); dts = fixtures.disttemplates(tm, d)
        al, tab = zf.zfind(d, dts, nminima=2)
        write_zscan(path, al, tab)


def check(ck):
    rng = ck.rng
    T3 = '"a","b","c"'
    ck.model('Pool', c01.POOL % (T3, 2, 2, 'TRUE', 'TRUE', 'TRUE'))
    ck.model('Pool', c01.POOL % (T3, 2, 2, 'FALSE', 'TRUE', 'TRUE'))
    if ck.thorough:
        ck.model('Pool', c01.POOL % (T3, 3, 2, 'TRUE', 'TRUE', 'TRUE'))
    ck.expect_violation('Pool', c01.POOL % (T3, 2, 1, 'TRUE', 'FALSE', 'TRUE'), 'Deadlock reached')
    scans = {}
    specs = []

    def add(phase, templ, ntarg, mp, bad, how, after, nspec=None, order=None, pause=0):
        nspec = nspec or [1 + (i % 3) for i in range(ntarg)]
        key = (templ, ntarg, tuple(nspec))
        if phase != 'scan' and key not in scans:
            p = os.path.join(ck.work, f'scan{len(scans)}.h5')
            storedscan(ck, templ, ntarg, nspec, p)
            scans[key] = p
        nact = min(mp, ntarg)
        o = order or rng.sample(range(nact), nact)
        specs.append(dict(phase=phase, templ=templ, ntarg=ntarg, mp=mp, bad=bad, how=how, after=after, nspec=nspec, order=o, scan=scans.get(key), pause=pause))
    hows = ['exception', 'kill', 'exit', 'exit0', 'term', 'sysexit', 'keyboard', 'memory']
    for phase in ('scan', 'fit', 'whole'):
        add(phase, 0, 4, 2, [], None, 0)
        add(phase, 1, 3, 3, [], None, 0)
        for k, how in enumerate(hows):
            add(phase, 0, 4, 2, [k % 4], how, [0, 2, 20, -1][k % 4])
        # every worker fails; more workers than targets; a single worker pair; failure in the last template only
        add(phase, 0, 4, 2, [0, 1, 2, 3], 'exception', 0)
        add(phase, 0, 3, 3, [0, 1, 2], 'kill', 0)
        add(phase, 0, 2, 5, [1], 'exception', 0)
        add(phase, 0, 2, 5, [0], 'kill', 0)
        add(phase, 1, 3, 2, [2], 'kill', 60)
        add(phase, 1, 5, 3, [0], 'exception', 30)
        # a slow worker is not a failure
        add(phase, 0, 3, 3 if phase == 'fit' else 2, [], None, 0, pause=1.6)
    if ck.thorough:
        for _ in range(60):
            n = rng.randrange(2, 6)
            add(rng.choice(['scan', 'fit', 'whole']), rng.choice([0, 1]), n, rng.randrange(2, 5), rng.sample(range(n), rng.choice([1, 1, 2])), rng.choice(hows),
                rng.choice([-1, 0, 1, 3, 8, 15, 40]))
    # complete runs of rrdesi: one target marked by its weight
    import desilab as D
    tf = D.template_dir(ck.work + '/t', galaxy=False, qso=False); tm = D.load(tf)
    rows = [D.make_row(100 + i, tm[0], 0.0) for i in range(4)]
    rows[2]['ivar']['r'][3] = 7.5
    D.write_file(ck.work + '/in.fits', rows, coadded=True)
    jobs = [(scenario, (s,)) for s in specs]
    progs = [(1, 0, 'exception', 0), (1, 0, 'exception', 3), (2, 0, 'exception', 0), (2, 0, 'kill', 5), (3, 0, 'exit0', 0), (0, 2, 'exception', 1), (0, 3, 'exception', 40),
             (2, 0, None, 0), (0, 2, None, 0)]
    if ck.thorough:
        progs += [(m, r, h, a) for m, r in ((1, 0), (2, 0), (4, 0), (0, 2), (0, 4)) for h in ('exception', 'memory') for a in (0, 2, 10, 30)]
    for k, (m, r, how, a) in enumerate(progs):
        s = dict(phase='program', mp=m, ranks=r, how=how, after=a, ntarg=4, bad=[2], mark=7.5, file=ck.work + '/in.fits', tdir=ck.work + '/t', base=f'{ck.work}/p{k}',
                 ids=[100, 101, 102, 103])
        specs.append(s); jobs.append((program, (s,)))
    out = mplab.parallel_deadline(jobs, LIMIT, width=6)
    ev = []
    for s, o in zip(specs, out):
        e = dict(kind='fault', phase=s['phase'], workers=s['mp'], targets=s['ntarg'], bad=s['bad'], after=s['after'], fault=s['how'] or 'none', outcome=o[0], missing=[],
                 why=str(o[1])[:150].replace('"', '').replace('\n', ' ') if o[0] == 'error' else 'ok')
        if o[0] == 'ok':
            e['missing'] = o[1]
        if s['how'] and s['after'] > 0 and o[0] == 'ok' and not o[1]:
            # the failure point was never reached in this run
            ck.extra['not_reached'] = ck.extra.get('not_reached', 0) + 1
            e['fault'] = 'none'
        ev.append(e)
    ck.extra['fault_runs'] = len(ev)
    ck.extra['errors_seen'] = sum(e['outcome'] == 'error' for e in ev)
    ck.sample(lambda: ev[2]); ck.sample(lambda: ev[-1])
    ck.validate('T_Pool', ev)
    ck.assumptions += [f'bounded time: {LIMIT} s for runs that take about one second', 'a worker that is killed while it is writing its result into the pipe is not exercised',
                       'a failure with exit status 0 is seen when the worker leaves without its results']


if __name__ == '__main__':
    main(check, 'C06')
