"""C12: fiber status and object type -> warnings in the output of rrdesi."""
import itertools, os
import numpy as np
from common import main, quiet, Intern, MachineryError
import desilab as D, fixtures

NAMES = ['POORPOSITION', 'BADPOSITION', 'BROKENFIBER', 'UNASSIGNED', 'BADAMPB', 'BADAMPR', 'BADAMPZ']
NEUTRAL = ['STUCKPOSITIONER', 'RESTRICTED', 'VARIABLETHRU', 'LOWTRANSMISSION', 'NEARCHARGETRAP']


def zwnames(v):
    from redrock.zwarning import ZWarningMask as ZW
    out = []
    for n in ['SKY', 'LITTLE_COVERAGE', 'SMALL_DELTA_CHI2', 'NEGATIVE_MODEL', 'MANY_OUTLIERS', 'Z_FITLIMIT', 'NEGATIVE_EMISSION', 'UNPLUGGED', 'BAD_TARGET',
              'NODATA', 'BAD_MINFIT', 'POORDATA']:
        if int(v) & int(getattr(ZW, n)):
            out.append(n)
            v = int(v) & ~int(getattr(ZW, n))
    return out + (['bits %d' % v] if v else [])


def rows_of(t, up):
    g = lambda c: c.upper() if up else c
    return {c: t[g(c)] for c in ('targetid', 'z', 'zerr', 'zwarn', 'chi2', 'coeff', 'fitmethod', 'npixels', 'spectype', 'subtype', 'ncoeff', 'deltachi2')}


def event_rows(t, tid, up, it):
    r = rows_of(t, up)
    ii = np.where(np.asarray(r['targetid']) == tid)[0]
    s = lambda x: (x.decode() if isinstance(x, bytes) else str(x)).strip()
    out = []
    for i in ii:
        co = np.asarray(r['coeff'][i], float)
        z = float(r['z'][i])
        out.append(dict(type=s(r['spectype'][i]), sub=s(r['subtype'][i]), z='zero' if z == 0 else str(it([z])), coeff='zero' if not np.any(co) else str(it(strip(co))),
                        method=s(r['fitmethod'][i]), zw=zwnames(r['zwarn'][i]),
                        rest=it([float(r[c][i]) for c in ('zerr', 'chi2', 'npixels', 'ncoeff', 'deltachi2')])))
    return out


def strip(a):
    a = list(a)
    while a and a[-1] == 0:
        a.pop()
    return a


def run(ck, wd, rows, coadded, tdir, how, tag, extra=()):
    f = D.write_file(f'{wd}/{tag}.fits', rows, coadded=coadded)
    opt = ['-i', f, '-o', f'{wd}/{tag}-o.fits', '-d', f'{wd}/{tag}-d.h5', *extra]
    for x in opt[3::2]:
        if os.path.exists(str(x)):
            os.remove(x)
    if how[0] == 'mpi':
        (st, e), _ = D.rrdesi_mpi(how[1], opt, tdir=tdir, seed=how[1], mode='eager')
    else:
        st, e = D.rrdesi(opt + ['--mp', how[1]], tdir=tdir)
    if st != 'ok':
        return None, repr(e)
    from redrock.results import read_zscan
    with quiet():
        zs, zf = read_zscan(f'{wd}/{tag}-d.h5')
    return (D.read_catalog(f'{wd}/{tag}-o.fits')['z'], zf), ''


def check(ck):
    from desispec.maskbits import fibermask
    ck.model('Fiber', 'SPECIFICATION Spec\nINVARIANTS KeepsFitWarnings GoodUnchanged BlankIffNoData Monotone NotOnly\nCHECK_DEADLOCK FALSE\n')
    wd = ck.work
    rng = ck.rng
    tf = D.template_dir(wd + '/t', nz=8); tm = D.load(tf)
    st1 = D.template_dir(wd + '/t1', galaxy=False, qso=False, nz=8)
    bit = {n: int(fibermask.mask(n)) for n in NAMES + NEUTRAL}
    # statuses: none, all single ones, all pairs, random sets, each with every object type
    sets = [()] + [(n,) for n in NAMES + NEUTRAL] + list(itertools.combinations(NAMES, 2)) + \
           [tuple(rng.sample(NAMES + NEUTRAL, rng.choice([3, 4, 6]))) for _ in range(40 if ck.thorough else 12)]
    ev = []
    configs = [(True, wd + '/t', ('mp', 2), tm), (True, wd + '/t1', ('mp', 1), None), (False, wd + '/t', ('mpi', 2), tm)]
    if ck.thorough:
        configs += [(False, wd + '/t1', ('mp', 1), None), (True, wd + '/t', ('mpi', 3), tm), (False, wd + '/t', ('mp', 3), tm)]
    for ci, (coadded, tdir, how, tmx) in enumerate(configs):
        combos = [(s, o) for s in sets for o in (('TGT', 'SKY', 'BAD') if coadded else ('TGT', 'SKY', ''))]
        if ci:
            combos = rng.sample(combos, 50 if not ck.thorough else 110)
        if tmx is None:
            tmx = D.load(st1)
        rows = []; stat = {}
        ids = D.identifiers(rng, len(combos))
        for k, ((s, o), tid) in enumerate(zip(combos, ids)):
            t = tmx[k % len(tmx)]
            z = float(t.redshifts[len(t.redshifts) // 2])
            if coadded:
                r = D.make_row(tid, t, z, status=sum(bit[n] for n in s), objtype=o, zero=(k % 23 == 7), noise=rng.choice([0.2, 5.0]))
                rows.append(r); stat[tid] = (list(s), o)
            else:
                nexp = 1 + k % 3
                exps = [list(s)] + [list(set(s) | set(rng.sample(NEUTRAL, 1))) for _ in range(nexp - 1)]
                for j, x in enumerate(exps):
                    rows.append(D.make_row(tid, t, z, rs=np.random.RandomState(tid % 2**31 + j), status=sum(bit[n] for n in x), objtype=o, exp=j + 1, noise=0.3,
                                           coeff=np.concatenate([[2.0], np.zeros(t.nbasis - 1)])))
                stat[tid] = (list(s), o)
        if not coadded:
            rng.shuffle(rows)
        clean = [dict(r, status=0, objtype='TGT') for r in rows]
        a, why1 = run(ck, wd, clean, coadded, tdir, ('mp', 2), 'clean')
        if a is None:
            ck.bad('rrdesi failed on clean input', why1)
            continue
        b, why = run(ck, wd, rows, coadded, tdir, how, 'real')
        it = Intern(rtol=1e-6, atol=1e-7)
        for tid, (s, o) in stat.items():
            for w, up in ((0, True), (1, False)):
                e = dict(ok=b is not None, why=why, status=s, obj=o, tid=tid, file='catalog' if up else 'details', coadded=coadded, how=how,
                         fit=event_rows(a[w], tid, up, it), got=event_rows(b[w], tid, up, it) if b is not None else [])
                if not coadded and len(s) and any(n in s for n in NAMES):
                    pass
                ev.append(e)
    ck.extra['targets'] = len(ev) // 2
    ck.sample(lambda: ev[4]); ck.sample(lambda: ev[-1])
    ck.validate('T_Fiber', ev)
    ck.assumptions += ['statuses of several exposures share the judged bits (how statuses are combined over exposures is decided in desispec)',
                       'MANYBADCOL is not exercised: the code asks for a bit BADCOLUMN, which the installed desispec does not have']


if __name__ == '__main__':
    main(check, 'C12')
