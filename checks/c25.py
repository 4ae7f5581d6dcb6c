"""C25: rebinning gives the exact mean of the template in every bin and refuses to extrapolate."""
import numpy as np
from common import main, quiet, guarded
import fixtures as fx, refmodel as rm

MODEL = ('CONSTANTS\n Knots = {0,1,2,4}\n Values = {%s}\n EdgeSet = {%s}\n LL = 12\n KeepSegment = %s\n Extrapolate = %s\n'
         'SPECIFICATION Spec\nINVARIANTS Exact Whole Between Refusal\nCHECK_DEADLOCK FALSE\n')
L = 48


def grids(rng):
    """knots (in units of 4), factors in quarters and edges"""
    n = rng.randint(2, 9)
    if rng.random() < 0.4:
        step = rng.choice([1, 2]); K = [rng.randint(0, 3) + step * k for k in range(n)]
        K = [K[0] + step * k for k in range(n)]
    else:
        K = [rng.randint(0, 3)]
        for _ in range(n - 1):
            K.append(K[-1] + rng.choice([1, 2]))
    q = rng.choice([[4], [2], [8], [6], [3], [2, 3], [3, 4], [4, 3], [6, 8, 6], [8, 2, 4], [4, 6]])
    lo = max(K[0] * f for f in q); hi = min(K[-1] * f for f in q)
    if rng.random() < 0.12 or hi - lo < 2:          # partly outside
        lo -= rng.randint(0, 3); hi = max(hi + rng.randint(0, 3), lo + 2)
    m = rng.randint(1, 6)
    e = sorted(rng.sample(range(lo, hi + 1), min(m + 1, hi - lo + 1)))
    if rng.random() < 0.3:
        e = sorted(set(e) | {lo, hi})
    if rng.random() < 0.25:
        a = rng.randint(lo, hi - 1); b = rng.randint(a + 1, hi); e = list(range(a, b + 1))
    return K, q, e


def record(v, form, r, nb):
    kind, r = r
    v['ok'] = kind == 'ok'
    v['exact'] = True; v['out'] = []; v['shape'] = []
    if not v['ok']:
        v['error'] = type(r).__name__
        return v
    r = np.asarray(r)
    v['shape'] = list(r.shape)
    E = v['e'] if not v['c'] else edges_of(v['c'])
    nz = len(v['q']); nbin = len(E) - 1
    if r.size == nz * nbin * nb:
        a = r.reshape(nz, nbin, nb) * 2 * v['L'] * np.diff(E)[None, :, None]
        if np.all(np.isfinite(a)) and np.all(np.abs(a) < 2**30):
            v['exact'] = bool(np.max(np.abs(a - np.round(a))) < 1e-4)
            v['out'] = np.round(a).astype(int).tolist()
        else:
            v['exact'] = False; v['out'] = np.zeros((nz, nbin, nb), int).tolist()
    return v


def edges_of(c):
    c = list(c); n = len(c)
    return [c[0] - (c[1] - c[0]) // 2] + [(c[i] + c[i + 1]) // 2 for i in range(n - 1)] + [c[-1] + (c[-1] - c[-2]) // 2]


def edges_of_(c):
    return rm.edges(np.asarray(c))


def archetypes(path, x, y):
    from astropy.io import fits
    h = fits.BinTableHDU.from_columns([fits.Column(name='ARCHETYPE', format=f'{len(x)}E', array=y), fits.Column(name='SUBTYPE', format='5A', array=np.array(['A'] * len(y)))], name='ARCHETYPES')
    h.header.update(CRVAL1=x[0], CDELT1=x[1] - x[0], LOGLAM=0, RRTYPE='GALAXY', VERSION='1')
    fits.HDUList([fits.PrimaryHDU(), h]).writeto(path, overwrite=True)
    return path


def check(ck):
    from redrock.rebin import trapz_rebin, rebin_template, centers2edges
    from redrock.templates import Template, DistTemplate
    from redrock.archetypes import Archetype
    rng = ck.rng
    ck.model('Rebin', MODEL % ('0,1,3', '0,1,2,3,4', 'FALSE', 'FALSE'))
    if ck.thorough:
        ck.model('Rebin', MODEL % ('0,1,3,4', '0,1,2,3,4,5', 'FALSE', 'FALSE'), timeout=800)
    ck.expect_violation('Rebin', MODEL % ('0,1,3', '0,1,2,3,4', 'TRUE', 'FALSE'), 'Exact is violated')
    ck.expect_violation('Rebin', MODEL % ('0,1,3', '0,2,4,5', 'FALSE', 'TRUE'), 'Exact is violated')
    ev = []
    forms = {}
    for rnd in range(4000 if ck.thorough else 900):
        K, q, e = grids(rng)
        c = []
        if rng.random() < 0.35 and len(e) > 2:
            if rng.random() < 0.5:
                s = 2 * rng.randint(1, 2); c = [e[0] + s * k for k in range(rng.randint(2, 5))]
            else:
                c = [e[0]]
                for _ in range(rng.randint(1, 5)):
                    c.append(c[-1] + 2 * rng.randint(1, 3))
        nb = rng.choice([1, 1, 2, 3])
        Y = [[rng.randint(-4, 9) for _ in K] for _ in range(nb)]
        x = np.array(K, dtype=float) * 4; yy = np.array(Y, dtype=float); z = np.array(q) / 4. - 1
        v = dict(kind='rebin', K=K, Y=Y, q=q, e=e if not c else [], c=c, L=L, many=True, bases=True)
        E = np.array(e, dtype=float); C = np.array(c, dtype=float)
        kw = dict(xnew=C) if c else dict(edges=E)
        form = rng.choice(['plain', 'list', 'scalar', 'none', 'template', 'tedges', 'eval', 'dist', 'hints', 'archetype', 'archetype'])
        if form in ('dist', 'eval') and not c:
            form = 'tedges'
        if form == 'archetype' and (not c or len(K) < 2 or len(set(np.diff(K))) > 1):
            form = 'plain'
        forms[form] = forms.get(form, 0) + 1
        with quiet():
            if form == 'plain':
                r = guarded(trapz_rebin, x, yy, myz=z, **kw)
            elif form == 'list':
                v['bases'] = False; v['Y'] = Y[:1]; nb = 1
                r = guarded(trapz_rebin, x, yy[0], myz=list(z), **kw)
            elif form == 'scalar':
                v['many'] = False; v['q'] = q[:1]
                if rng.random() < 0.5:
                    v['bases'] = False; v['Y'] = Y[:1]; nb = 1
                    r = guarded(trapz_rebin, x, yy[0], myz=float(z[0]), **kw)
                else:
                    r = guarded(trapz_rebin, x, yy, myz=float(z[0]), **kw)
            elif form == 'none':
                v['many'] = False; v['q'] = [4]
                if rng.random() < 0.5:
                    v['bases'] = False; v['Y'] = Y[:1]; nb = 1
                    r = guarded(trapz_rebin, x, yy[0], **kw)
                else:
                    r = guarded(trapz_rebin, x, yy, **kw)
            elif form == 'archetype':
                v['many'] = False; v['q'] = q[:1]
                a = Archetype(archetypes(f'{ck.work}/a{rnd}.fits', x, yy)); d = {'g': C}; how = rng.randrange(3)
                if rng.random() < 0.5:       # another band first
                    d = {'o': np.linspace(x[0] * (1 + z[0]), x[-1] * (1 + z[0]), 6)[2:-1], 'g': C}
                    d['o'] = d['o'] if edges_of_(d['o'])[0] >= x[0] * (1 + z[0]) and edges_of_(d['o'])[-1] <= x[-1] * (1 + z[0]) else C
                if how == 0:
                    i = rng.randrange(nb); v['bases'] = False; v['Y'] = [Y[i]]; nb = 1
                    r = guarded(a.rebin_template, i, float(z[0]), d)
                elif how == 1:
                    which = [rng.randrange(nb) for _ in range(rng.randint(1, 3))]; v['Y'] = [Y[i] for i in which]; nb = len(which)
                    r = guarded(a.rebin_template_batch, float(z[0]), d, indx=np.array(which))
                else:
                    r = guarded(a.rebin_template_batch, float(z[0]), d)
                r = (r[0], r[1]['g'] if r[0] == 'ok' else r[1])
            elif form == 'hints':
                r = guarded(trapz_rebin, x, yy, myz=z, xmin=x[0] * (1 + z.max()), xmax=x[-1] * (1 + z.min()), **kw)
            else:
                t = Template(spectype='STAR', subtype='', redshifts=z, wave=x, flux=yy, igm_model='None', version='t')
                if form == 'template' or form == 'dist' and len(set(q)) < len(q):
                    other = {'o': np.linspace(x[0] * (1 + z.max()), max(x[-1] * (1 + z.min()), x[0] * (1 + z.max()) + 1), 6)[1:-1]}
                    d = {'g': C if c else None}
                    if c and rng.random() < 0.5:
                        r = guarded(rebin_template, t, z, d)
                    elif c:
                        r = guarded(rebin_template, t, z, dedges={'g': centers2edges(C)})
                    else:
                        r = guarded(rebin_template, t, z, dedges={'g': E})
                    r = (r[0], r[1]['g'] if r[0] == 'ok' else r[1])
                elif form == 'tedges':
                    ee = E if not c else np.array(edges_of(c), dtype=float)
                    r = guarded(rebin_template, t, z, dedges={'g': (ee, ee[0], ee[-1])})
                    r = (r[0], r[1]['g'] if r[0] == 'ok' else r[1])
                elif form == 'dist':
                    r = guarded(DistTemplate, t, {7: C}, mp_procs=rng.choice([1, 2]))
                    r = (r[0], r[1].local.data[7] if r[0] == 'ok' else r[1])
                else:
                    v['many'] = False; v['bases'] = False; v['q'] = q[:1]
                    co = [rng.randint(-2, 2) for _ in range(nb)]
                    v['Y'] = [[sum(a * b for a, b in zip(co, col)) for col in zip(*Y)]]; nb = 1
                    r = guarded(t.eval, np.array(co, dtype=float), C, float(z[0]))
        ck.keep(r[1])
        ev.append(record(v, form, r, nb))
    for rnd in range(200):
        c = [rng.randint(0, 9)]
        for _ in range(rng.randint(1, 6)):
            c.append(c[-1] + 2 * rng.randint(1, 4))
        k, r = guarded(centers2edges, np.array(c, dtype=float) if rng.random() < 0.5 else c)
        ev.append(dict(kind='edges', c=c, exact=bool(k == 'ok' and np.array_equal(np.round(r), r)), out=[int(a) for a in r] if k == 'ok' else []))
    for rnd in range(60 if ck.thorough else 16):
        g = np.random.RandomState(rng.randrange(10**6))
        n = g.randint(300, 3000); x = np.sort(g.uniform(1000, 9000, n)) if rnd % 2 else np.linspace(1000, 9000, n) if rnd % 4 else 10**np.linspace(3, 3.95, n)
        x[0] = 1000; x[-1] = 9000; x = np.unique(x)
        y = g.normal(size=(3, len(x))); z = g.uniform(0, 1, 5) if rnd % 2 else g.uniform(0, 1) + np.arange(5) * 10.**-g.randint(3, 10) * g.choice([-1, 1])
        w = np.sort(g.uniform(2300, 8200, g.randint(3, 900))) if rnd % 3 else np.linspace(2300, 8200, g.randint(9000, 14000) if rnd == 3 else g.randint(3, 5000))
        w = w[np.concatenate([[True], np.diff(w) > 1e-3])]
        ee = rm.edges(w)
        if ee[0] < 2000 or ee[-1] > 9000 or np.any(np.diff(ee) <= 0):
            continue
        x0, y0, w0, z0 = x.copy(), y.copy(), w.copy(), z.copy()
        k, r = guarded(trapz_rebin, x, y, xnew=w, myz=z)
        ck.ok(np.array_equal(x, x0) and np.array_equal(y, y0) and np.array_equal(w, w0) and np.array_equal(z, z0), 'the arguments are not changed', dict(rnd=rnd))
        same = alone = False
        if k == 'ok':
            want = np.array([[rm.rebin(x * (1 + zz), y[b], ee) for b in range(3)] for zz in z]).transpose(0, 2, 1)
            same = r.shape == want.shape and bool(np.allclose(r, want, rtol=0, atol=2e-6 / min(1, np.diff(ee).min())))
            alone = all(np.allclose(r[i], np.array([trapz_rebin(x * (1 + z[i]), y[b], xnew=w) for b in range(3)]).T, rtol=1e-9, atol=1e-9) for i in range(5))
        ev.append(dict(kind='large', same=same, alone=alone))
    for rnd in range(600 if ck.thorough else 160):       # bins that end just inside or just outside the template
        g = np.random.RandomState(rng.randrange(10**6)); n = g.randint(4, 60)
        x = np.sort(g.uniform(1000, 9000, n)) if rnd % 2 else np.linspace(1000, 9000, n)
        x0, x1 = (1000, 9000) if rnd % 4 < 2 else (1000.42, 9000.37)
        x[0] = x0; x[-1] = x1; z = np.sort(g.uniform(0, 1.5, g.randint(1, 4))) if rnd % 3 else g.uniform(0, 1.5, 1)
        if rnd % 2:
            z = z[::-1].copy()
        lo, hi = x0 * (1 + z.max()), x1 * (1 + z.min()); eps = 10.**-rng.randint(2, 7); where = rng.choice(['in', 'low', 'high'])
        ee = np.linspace(lo * (1 + (-eps if where == 'low' else eps)), hi * (1 - (-eps if where == 'high' else eps)), g.randint(3, 9))
        form = rng.choice(['edges', 'centres', 'template', 'tedges', 'eval', 'dist']); y = g.normal(size=(2, n))
        c = ee[:-1] + np.diff(ee) / 2
        with quiet():
            t = Template(spectype='STAR', subtype='', redshifts=z, wave=x, flux=y, igm_model='None', version='t')
            k, r = (guarded(trapz_rebin, x, y, edges=ee, myz=z) if form == 'edges' else guarded(trapz_rebin, x, y, xnew=c, myz=z) if form == 'centres' else
                    guarded(rebin_template, t, z, {'g': c}) if form == 'template' else guarded(rebin_template, t, z, dedges={'g': (ee, ee[0], ee[-1])}) if form == 'tedges' else
                    guarded(t.eval, np.array([1., 2.]), c, float(z[0])) if form == 'eval' and len(z) == 1 else guarded(DistTemplate, t, {7: c}))
        ev.append(dict(kind='limit', inside=where == 'in', ok=k == 'ok', eps=str(eps), form=form))
    ck.extra['forms'] = forms
    ck.extra['refused'] = sum(1 for v in ev if v['kind'] == 'rebin' and not v['ok'])
    ck.sample(lambda: ev[0])
    ck.kept()
    ck.validate('T_Rebin', ev)
    ck.assumptions += ['CPU code only (no CuPy here)', 'grids of integers in the exact part; floating point grids are compared with an independent integral']


if __name__ == '__main__':
    main(check, 'C25', 'model_checking')
