"""C15: the details file gives back what was computed."""
import os
import numpy as np
from common import main, quiet, Intern, guarded, MachineryError
import desilab as D, fixtures, c01

DOWN = ('zerr', 'chi2', 'zz', 'zzchi2', 'coeff', 'deltachi2')


def f32(a):
    with np.errstate(over='ignore'):
        return np.asarray(a).astype(np.float32)


def text(x):
    return (x.decode() if isinstance(x, bytes) else str(x)).strip()


class Exact:
    """interns values exactly (nan equal to nan)"""
    def __init__(self):
        self.d = {}

    def __call__(self, *arrays):
        k = tuple((np.asarray(a).shape, np.ascontiguousarray(a).tobytes()) if not isinstance(a, str) else a for a in arrays)
        return self.d.setdefault(k, len(self.d) + 1)


def tn(t):
    """identifiers are 64-bit; the specification sees them as names"""
    return 't%d' % int(t)


def fulltype(sp, su):
    return f'{sp}:::{su}' if su else sp


def rowkey(it, r, names, up=False):
    parts = []
    for c in names:
        v = r[c.upper() if up else c]
        if c in DOWN:
            parts.append(f32(v))
        elif isinstance(v, (bytes, str, np.str_, np.bytes_)):
            parts.append(text(v))
        else:
            v = np.asarray(v)
            parts.append(v.astype(np.float64) if v.dtype.kind == 'f' else v.astype(np.int64) if v.dtype.kind in 'iub' else np.array([text(x) for x in v.flat]))
    return it(*[p if isinstance(p, str) else np.asarray(p) if p.dtype.kind != 'U' else '|'.join(p.flat) for p in parts])


def stored(it, scan, zfit, names):
    """the written result in the form of the specification"""
    ids = [int(t) for t in dict.fromkeys(zfit['targetid'])]
    types = list(scan[ids[0]].keys())
    sc = [[it(np.asarray(scan[t][k]['redshifts'], float), f32(scan[t][k]['zchi2']), f32(scan[t][k]['penalty']), f32(scan[t][k]['zcoeff'])) for k in types] for t in ids]
    fits = [[[fulltype(text(r['spectype']), text(r['subtype'])), rowkey(it, r, names)] for r in zfit[zfit['targetid'] == t]] for t in ids]
    return dict(ids=[tn(t) for t in ids], types=types, scan=sc, fits=fits)


def reading(it, path, which, how, up, nozfit, base, names):
    from redrock.results import read_zscan, read_zscan_redrock, read_zfit
    e = dict(kind='trip', ok=True, hasscan=how not in ('table', 'tablescalar', 'tableall'), which=[tn(t) for t in which], hasfit=False, gids=[], gtypes=[], gscan=[], table=[], own=[], cols=[], wantcols=[], **base)
    sel = None if not which else which[0] if how in ('scalar', 'tablescalar') else np.array(which) if how == 'array' else list(which)

    def go():
        if how == 'reuse':
            sc = read_zscan_redrock(path); zf = None
        elif not e['hasscan']:
            sc = {}; zf = read_zfit(path, **(dict(select_targetids=sel) if sel is not None else {}), upper=up)
        elif nozfit:
            sc = read_zscan(path, select_targetids=sel, nozfit=True); zf = None
        else:
            sc, zf = read_zscan(path, select_targetids=sel, upper=up)
        return sc, zf
    with quiet():
        st, r = guarded(go)
    if st != 'ok':
        return dict(e, ok=False, why=repr(r)[:300])
    sc, zf = r
    types = base['types']
    e['gids'] = [tn(t) for t in sc]
    e['gtypes'] = sorted({k for t in sc for k in sc[t]}) if sc else types
    try:
        e['gscan'] = [[it(np.asarray(sc[t][k]['redshifts'], float), np.asarray(sc[t][k]['zchi2']), np.asarray(sc[t][k]['penalty']), np.asarray(sc[t][k]['zcoeff'])) for k in types] for t in sc]
        if zf is not None:
            g = (lambda c: c.upper()) if up else (lambda c: c)
            e['hasfit'] = True
            e['table'] = [[tn(r[g('targetid')]), fulltype(text(r[g('spectype')]), text(r[g('subtype')])), rowkey(it, r, names, up)] for r in zf]
            e['own'] = [[[rowkey(it, r, names, up) for r in sc[t][k]['zfit']] if 'zfit' in sc[t][k] else [] for k in types] for t in sc]
            e['cols'] = sorted(zf.colnames); e['wantcols'] = sorted(g(c) for c in names)
    except Exception as err:
        return dict(e, ok=False, why='reading back: ' + repr(err)[:300])
    return e


def synthetic(rng, override, many=0):
    """a result as zfind returns it, with arbitrary values"""
    from astropy.table import Table
    rs = np.random.RandomState(rng.randrange(2**31))
    n = rng.randint(1, 5)
    ids = [int(i) for i in rng.sample([-5, 0, 3, 77, 39627, 2**31, 2**62 + 12345, 12, 123, 5, 51], n)]
    types = rng.sample(['GALAXY', 'QSO', 'STAR'] if rng.random() < 0.3 else ['GALAXY', 'QSO:::HIZ', 'QSO:::F', 'STAR:::F', 'STAR:::WD', 'STAR:::F2', 'STAR'], rng.randint(1, 3))
    if rng.random() < 0.3:
        types += [t for t in rng.sample(['GALAXY:::HIZ', 'QSO:::LOZ', 'STAR:::B', 'STAR:::F3'], 2)]
    ns = {k: (rng.randint(3, 7), rng.randint(1, 4)) for k in types}
    zs = {k: np.sort(rs.rand(ns[k][0])) for k in types}
    big = lambda a: np.where(rs.rand(*a.shape) < 0.05, 9e99, a)
    scan = {t: {k: dict(redshifts=zs[k], zchi2=big(1e4 * rs.rand(ns[k][0])), penalty=rs.rand(ns[k][0]) * (rs.rand() < 0.5), zcoeff=rs.normal(size=ns[k])) for k in types} for t in ids}
    keys = list(ids); rng.shuffle(keys)          # the dictionary is gathered rank by rank, the table is in the global order
    scan = {t: scan[t] for t in keys}
    rows = []
    mc = max(v[1] for v in ns.values())
    long = rng.random() < 0.4
    for t in ids:
        ov = override and rng.random() < 0.5
        for j in range(many if many and t == ids[-1] else rng.randint(1, 6) if rng.random() < 0.8 else 20):
            k = rng.choice(types); sp, su = (k.split(':::') + [''])[:2]
            if long and rng.random() < 0.5:
                su = ';'.join(f'{su}_LONGNAME_{i}' for i in rng.sample(range(30), rng.randint(2, 7)))     # as of archetypes
            c = np.zeros(mc); c[:ns[k][1]] = rs.normal(size=ns[k][1])
            if ov:
                sp, su, c = 'GALAXY', '', np.zeros(mc)
            rows.append((t, 0.0 if ov else rs.rand(), rs.rand() * 1e-3, rng.choice([0, 4, 1024, 2048 | 64]), rs.rand() * 1e5, rs.rand(15), rs.rand(15) * 1e4, c,
                         'NONE' if ov else 'PCA', rng.randint(0, 10**5), sp, su, ns[k][1], j, rs.rand() * 100, rng.randint(0, 2**31), rs.rand()))
    z = Table(rows=rows, names=['targetid', 'z', 'zerr', 'zwarn', 'chi2', 'zz', 'zzchi2', 'coeff', 'fitmethod', 'npixels', 'spectype', 'subtype', 'ncoeff', 'znum', 'deltachi2', 'META', 'MREAL'])
    z['subtype'] = z['subtype'].astype('<U120' if long else '<U20'); z['spectype'] = z['spectype'].astype('<U6')
    for j in range(rng.choice([0, 0, 6, 15])):            # more metadata, or columns of archetype runs
        z[f'meta_{j}' if j % 2 else f'M{j}'] = np.arange(len(z)) * (j + 1)
    return scan, z


def check(ck):
    from redrock.results import write_zscan
    rng = ck.rng; wd = ck.work
    cfg = 'CONSTANTS\n Ts = {1, 2}\n Types = {"a", "b"}\n Extra = {"x"}\n Vals = {0, 1}\nSPECIFICATION %s\nINVARIANT RoundTrip\nCHECK_DEADLOCK FALSE\n'
    ck.model('Store', cfg % 'Spec')
    if ck.thorough:
        ck.model('Store', (cfg % 'Spec').replace('{1, 2}', '{1, 2, 3}').replace('{"a", "b"}', '{"a"}'))
    ck.expect_violation('Store', cfg % 'SpecBad', 'RoundTrip is violated')
    ev = []; it = Exact()

    def exercise(scan, zfit, path, nread):
        names = list(zfit.colnames)
        base = stored(it, scan, zfit, names)
        with quiet():
            st, r = guarded(write_zscan, path, scan, zfit, clobber=True)
        if st != 'ok':
            ev.append(dict(kind='trip', ok=False, hasscan=True, why='write: ' + repr(r)[:300], which=[], hasfit=False, gids=[], gtypes=[], gscan=[], table=[], own=[], cols=[], wantcols=[], **base))
            return
        ids = [int(t[1:]) for t in base['ids']]
        for k in range(nread):
            how = ['all', 'list', 'array', 'scalar', 'reuse', 'list', 'tableall', 'table', 'tablescalar'][k % 9]
            which = [] if how in ('all', 'reuse', 'tableall') else rng.sample(ids, 1 if how in ('scalar', 'tablescalar') else rng.randint(1, len(ids)))
            ev.append(reading(it, path, which, how, k % 2 == 1, k % 5 == 4, base, names))
    os.environ['VERIF_DIR'] = wd
    for k in range(90 if ck.thorough else 30):
        scan, z = synthetic(rng, k % 2 == 0, many={7: 140, 16: 300}.get(k, 0))
        # the same path again and again (nothing of an earlier result may survive), new directories, variables in the name
        path = wd + '/same.h5' if k % 3 else (f'{wd}/new{k}/d/x.h5' if k % 2 else '$VERIF_DIR/var.h5')
        exercise(scan, z, path, 9)
    # real results, with targets without data and metadata
    import redrock.zfind as zf
    from redrock.targets import DistTargetsCopy
    for k in range(6 if ck.thorough else 2):
        tm = c01.tmpls(k % 2)
        with quiet():
            tg = [fixtures.target(900 - 7 * i, tm[0], 0.1 + 0.02 * i if k % 2 == 0 else 1.7, nspec=1 + i % 2, seed=i + k, meta=dict(A=i, B=0.5 * i)) for i in range(4)]
            for s in tg[2].spectra:
                s.ivar[:] = 0
            d = DistTargetsCopy(tg); dts = fixtures.disttemplates(tm, d)
            st, r = guarded(lambda: zf.zfind(d, dts, nminima=2))
        if st != 'ok':
            ck.bad('zfind failed', repr(r)); continue
        exercise(r[0], r[1], wd + '/real.h5', 9)
    ck.extra['results'] = len(ev) // 9
    ck.sample(lambda: {k: ev[1][k] for k in ('ids', 'types', 'which', 'gids', 'table')})
    ck.validate('T_Store', ev)
    ck.assumptions += ['reduction to single precision of the scan and of zerr, chi2, zz, zzchi2, coeff, deltachi2 is documented; everything else is compared exactly',
                       'a selection names stored targets only']


if __name__ == '__main__':
    main(check, 'C15')
