"""C04: collection of the results on the root process."""
import os, pickle, subprocess, sys, tempfile
import numpy as np
from common import main, quiet, Intern
import fixtures, mpilab, simmpi

CFG = '''SPECIFICATION Spec
CONSTANTS N = %d Batch = %d MaxLoc = %d Sync = %s Rounding = "%s"
INVARIANTS ExactlyOnce NeverTwice NothingLeft
PROPERTY Ends
'''


def one(sizes, seed, mode, schedule, nz=2):
    """a complete run with the given number of targets per rank"""
    import redrock.zfind as zf
    from redrock.targets import Target, Spectrum, DistTargetsCopy
    from redrock.templates import DistTemplate
    rs = np.random.RandomState(seed)
    w = np.linspace(3600., 3700., 4); R = fixtures.R_ident(4, 1)
    tm = [fixtures.template('GALAXY', '', nbasis=1, seed=1, redshifts=np.linspace(0.0, 0.2, nz), nw=60)]
    tot = sum(sizes)
    ids = [int(x) for x in rs.permutation(np.arange(10**6, 10**6 + 3 * tot + 3))[:tot]]
    amp = {t: 1.0 + 0.001 * k for k, t in enumerate(ids)}

    def mk(t):
        f = np.array([1.0, 1.5, 2.0, 1.2]) * amp[t] + 0.01 * (t % 13)
        return Target(t, [Spectrum(w, f, np.ones(4), R)], meta=dict(NUM=t % 1000))
    parts = []; o = 0
    for n in sizes:
        parts.append(ids[o:o + n]); o += n
    order = list(ids)
    rs.shuffle(order)
    order = [int(x) for x in order]
    Local = fixtures.dist_targets_class()
    with quiet():
        h = {mk(ids[0]).spectra[0].wavehash: w} if ids else {1: w}
        # reference: scan and fit of every target of a sample, serially
        samp = [t for p in parts for t in p[:2] + p[-2:]] + [p[i] for p in parts for i in (4998, 4999, 5000, 5001) if i < len(p)]
        samp = list(dict.fromkeys(samp))
        d = DistTargetsCopy([mk(t) for t in samp])
        ra, rz = zf.zfind(d, [DistTemplate(t, h) for t in tm], nminima=1)

        def fn(comm):
            mine = [[mk(t) for t in p] if k == comm.rank else [] for k, p in enumerate(parts)]
            dd = Local(mine, order=order, comm=comm)
            return zf.zfind(dd, [DistTemplate(t, h, comm=comm) for t in tm], nminima=1)
        world = simmpi.World(len(sizes), schedule=schedule, seed=seed, mode=mode)
        res, err = world.run(fn)
    ok = all(e is None for e in err)
    ev = dict(completed=ok, why=mpilab.errtext(err), left=world.leftover(), sizes=list(sizes), mode=mode, nsent=world.nsent,
              none=[(r is not None and r[0] is None and r[1] is None) for r in res], ranks=parts, order=order, keys=[], scanbad=[], fitbad=[], tabids=[])
    if ok and res[0] is not None:
        al, tab = res[0]
        if al is not None:
            ev['keys'] = sorted(int(t) for t in al)
            ev['tabids'] = [int(t) for t in tab['targetid'][tab['znum'] == 0]]
            row = {int(r['targetid']): r for r in tab if r['znum'] == 0}
            for t in samp:
                for k in ('zchi2', 'zcoeff', 'redshifts', 'penalty'):
                    if t not in al or not np.allclose(al[t]['GALAXY'][k], ra[t]['GALAXY'][k], rtol=1e-9):
                        ev['scanbad'].append([int(t), k])
                r0 = rz[(rz['targetid'] == t) & (rz['znum'] == 0)][0]
                if t not in row or any(abs(float(row[t][k]) - float(r0[k])) > 1e-9 * (1 + abs(float(r0[k]))) for k in ('z', 'chi2', 'NUM')):
                    ev['fitbad'].append(int(t))
            # every target: scan amplitude belongs to its own data (coefficients grow with the amplitude)
            lin = linear(amp, ra, samp)
            for t in (al if lin is not None else []):
                c = float(al[t]['GALAXY']['zcoeff'][0][0])
                want = float(np.dot([amp[t], 0.01 * (t % 13)], lin))
                if abs(c - want) > 1e-6 * abs(want):
                    ev['scanbad'].append([int(t), 'own data'])
    return ev


def linear(amp, ra, samp):
    """the coefficient at the first redshift is linear in (amplitude, offset): solved from the sampled targets"""
    A = np.array([[amp[s], 0.01 * (s % 13)] for s in samp]); b = np.array([float(ra[s]['GALAXY']['zcoeff'][0][0]) for s in samp])
    x, res, rank, _ = np.linalg.lstsq(A, b, rcond=None)
    return x if rank == 2 and np.allclose(A @ x, b, rtol=1e-8) else None


def spawn(jobs):
    """run the jobs in separate processes (fork), collect the events"""
    import multiprocessing as mp
    q = []
    for j in jobs:
        a, b = mp.Pipe(False)
        p = mp.get_context('fork').Process(target=_job, args=(b, j))
        p.start(); b.close()
        q.append((p, a))
    out = []
    for p, a in q:
        try:
            out.append(a.recv())
        except EOFError:
            out.append(('error', 'the run ended without a result', ''))
        p.join()
    return out


def _job(conn, j):
    import traceback
    try:
        conn.send(('ok', one(*j), ''))
    except BaseException as e:
        conn.send(('error', repr(e), traceback.format_exc()))
    conn.close()
    os._exit(0)


def check(ck):
    rng = ck.rng
    for a in [(2, 2, 5, 'FALSE', 'up'), (2, 2, 5, 'TRUE', 'up'), (3, 2, 4, 'FALSE', 'up')] + \
             ([(3, 2, 5, 'TRUE', 'up'), (3, 3, 7, 'FALSE', 'up')] if ck.thorough else []):
        ck.model('Gather', CFG % a)
    ck.expect_violation('Gather', CFG % (2, 2, 3, 'FALSE', 'down'), 'violated')
    jobs = []
    def add(sizes, mode='eager', schedule=()):
        jobs.append((sizes, rng.randrange(1, 10**6), mode, list(schedule)))
    small = [[1, 1], [0, 1], [3, 0], [2, 0, 5], [1, 2, 3], [0, 0, 1, 0], [5, 4, 3, 2, 1], [1], [0, 3, 0, 2, 7, 1]]
    for s in small:
        for mode in ('eager', 'sync'):
            add(s, mode, rng.choice(mpilab.hints([], len(s), rng)))
    nsmall = len(jobs)
    # around the batch size
    add([2, 4999], 'sync'); add([0, 5000], 'eager'); add([1, 5001], 'sync'); add([3, 9999, 2], 'eager'); add([1, 10000], 'eager')
    add([5, 3, 10001], 'sync'); add([5001, 2], 'eager')
    if ck.thorough:
        add([1, 15000, 4999], 'sync'); add([1, 5000, 10000], 'eager'); add([0, 20001], 'eager'); add([2, 14999], 'sync')
    ev = []
    big = spawn(jobs[nsmall:])
    for j in jobs[:nsmall]:
        ev.append(one(*j))
    for st, e, tb in big:
        if st == 'ok':
            ev.append(e)
        elif '/repo/' in tb:
            ck.bad('a run failed: ' + e, tb[-1500:])
        else:
            from common import MachineryError
            raise MachineryError(e + tb)
    ck.extra['messages'] = sum(e['nsent'] for e in ev)
    ck.sample(lambda: ev[3]); ck.sample(lambda: {k: ev[-1][k] for k in ('sizes', 'mode', 'nsent', 'left', 'completed')})
    ck.validate('T_Gather', ev)
    ck.assumptions += ['ranks are simulated (lib/simmpi.py)', 'the fits of the targets around each batch boundary and at both ends of every rank are compared '
                       'with a serial run; all other targets by their scan coefficient']


if __name__ == '__main__':
    main(check, 'C04')
