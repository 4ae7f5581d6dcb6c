"""C23: archetype fits report the archetype that fits best."""
import os
import numpy as np
from common import main, quiet, guarded, Intern
import fixtures as F, archlab as A, desilab as D, refmodel as M

CFG = 'CONSTANTS\n N = %d\n K = %d\n Cams = <<%s>>\n Width = %d\n Levels = {1, 2, 3}\n ByIndex = %s\n ByName = %s\n Short = %s\n NoPoly = %s\nSPECIFICATION Spec\nINVARIANTS Lowest Reproduced Fits\nCHECK_DEADLOCK FALSE\n'
WRONG = ['ByIndex', 'ByName', 'Short', 'NoPoly']


def cfg(n, k, cams, width, wrong=None):
    # a sequence cannot be written in a configuration: 'C<number>' are operators of the module below
    return CFG.replace('Cams = <<%s>>', 'Cams <- %s') % ((n, k, cams, width) + tuple('TRUE' if w == wrong else 'FALSE' for w in WRONG))


def world(rng, tmpls, nt, bandsets, zero=0.2, noise=0.3):
    """targets twice: for redrock and for the reference"""
    spec = []
    for i in range(nt):
        t = rng.choice(tmpls); bands = rng.choice(bandsets); n = len(bands) * rng.choice([1, 1, 1, 2])
        zz = t.redshifts; z = float(zz[1] + (zz[-2] - zz[1]) * rng.random())
        sign = -1 if rng.random() < 0.15 else 1
        spec.append(dict(tid=1000 + 7 * i, tmpl=t, z=z, nspec=n, seed=rng.randrange(10**6), bands=bands, noise=noise,
                         coeff=sign * np.array([rng.uniform(1, 3)] + [rng.uniform(-0.2, 0.2) for _ in range(t.nbasis - 1)]),
                         zero=rng.choice(bands) if rng.random() < zero and len(bands) > 1 else None, some=rng.random() < 0.4,
                         tilt={b: [rng.uniform(-0.8, 0.8) for _ in range(3)] for b in bands} if rng.random() < 0.5 else None))   # what polynomials are for

    def make():
        out = []
        for s in spec:
            t = F.target(s['tid'], s['tmpl'], s['z'], nspec=s['nspec'], seed=s['seed'] % 10**4, bands=s['bands'], noise=s['noise'], coeff=s['coeff'])
            r = np.random.RandomState(s['seed'])
            for q in t.spectra:
                if q.band == s['zero']:
                    q.ivar[:] = 0
                if s['tilt']:
                    x = np.linspace(-1, 1, len(q.flux)); q.flux[:] = q.flux + np.polynomial.legendre.legval(x, s['tilt'][q.band])
                if s['some'] and q.band != s['zero']:
                    q.ivar[r.rand(len(q.ivar)) < 0.2] = 0
            out.append(t)
        return out
    return make


def upper(z):
    z = z.copy()
    for c in z.colnames:
        if c.islower():
            z.rename_column(c, c.upper())
    return z


def places(chi):
    """the place of each value, values that are equal within the tolerance share one"""
    o = np.argsort(chi); out = [0] * len(chi); p = 0
    for a, b in zip([None, *o[:-1]], o):
        if a is None or chi[b] - chi[a] > 1e-6 * abs(chi[b]) + 1e-6:
            p += 1
        out[b] = p
    return out


def txt(x):
    return (x.decode() if isinstance(x, bytes) else str(x)).strip()


def reads(row, arch, bands, nleg, percam, k):
    """named archetypes, their coefficients and the polynomial coefficients in the order of the cameras, from a row"""
    names = [x.strip() for x in txt(row['SUBTYPE']).split(';')]
    pick = [arch.names.index(x) + 1 if x in arch.names else 0 for x in names]
    c = np.atleast_1d(np.asarray(row['COEFF'], float))
    leg = np.asarray(row['LEGCOEFF'], float)
    leg = leg[:len(bands)].reshape(-1) if leg.ndim > 1 else leg.reshape(-1)[:nleg]
    return pick, c[:len(names)], leg


def candidates(ck, rng, files, conf, make, tmpls, nminima, mp):
    """one run of zfind with and one without archetypes -> events"""
    from redrock.archetypes import All_archetypes
    from redrock.zfind import zfind
    from redrock.zwarning import ZWarningMask as ZW
    ev = []
    archs = {a.type: a for a in map(A.Arch, files)}
    with quiet():
        if len(files) == 1:
            ar = All_archetypes(archetypes_dir=files[0]).archetypes
        else:
            ar = All_archetypes(lstfilename=list(files)).archetypes
        L = F.dist_targets_class()
        DT = L([make()]); T = F.disttemplates(tmpls, DT)
        ncam = len(DT.wavegrids())
        st, res = guarded(zfind, DT, T, mp, nminima=nminima, archetypes=ar, ncamera=ncam, **conf)
        info = dict(conf=str(conf), files=[os.path.basename(f) for f in files], mp=mp, templates=[t.full_type for t in tmpls])
        if st != 'ok':
            return [dict(kind='run', ok=False, rows=True, header=True, cat=True, mod=True, det=True, asked=True, why=repr(res)[:300], **info)]
        D0 = L([make()]); T0 = F.disttemplates(tmpls, D0)
        _, plain = zfind(D0, T0, 1, nminima=nminima)
    z = upper(res[1]); p = upper(plain)
    nleg = conf.get('deg_legendre') or 0; percam = bool(conf.get('per_camera')); k = conf.get('n_nearest') or 0
    sig = conf.get('prior_sigma'); prior = 1 / sig**2 if sig and percam else 0
    tdict = {(t.template_type, t.sub_type): t for t in tmpls}
    ids = [t.id for t in make()]
    ev.append(dict(kind='run', ok=True, rows=sorted(set(map(int, z['TARGETID']))) == sorted(ids), header=True, cat=True, mod=True, det=True, asked=True, why='', **info))
    ref = {t.id: t for t in make()}
    for t in DT.local():
        zt = z[z['TARGETID'] == t.id]; pt = p[p['TARGETID'] == t.id]
        if all((s.ivar == 0).all() for s in ref[t.id].spectra):
            zero = True
            for r in zt:
                m = t.eval_model(r, tdict, ar)
                zero &= all((v == 0).all() for v in m.values()) and (np.asarray(r['COEFF']) == 0).all()
            ev.append(dict(kind='nodata', zero=bool(zero), flag=bool((zt['ZWARN'] & ZW.NODATA != 0).all()), **info)); continue
        itz = Intern(rtol=1e-9, atol=1e-12)
        one = len({t.template_type for t in tmpls}) == len(tmpls)
        if one:
            ev.append(dict(kind='cands', **{'with': [sum(map(ord, txt(r['SPECTYPE']))) * 1000 + itz(np.array([r['Z'], r['ZERR']])) for r in zt],
                                            'without': [sum(map(ord, txt(r['SPECTYPE']))) * 1000 + itz(np.array([r['Z'], r['ZERR']])) for r in pt]}, **info))
        itp = Intern(rtol=1e-8, atol=1e-10)
        for s in {t.template_type for t in tmpls} - set(archs):
            f = lambda q: [[itp(np.array([r['Z'], r['CHI2'], *np.trim_zeros(np.atleast_1d(r['COEFF']), 'b')])), sum(map(ord, txt(r['SUBTYPE']) + txt(r['FITMETHOD'])))] for r in q if txt(r['SPECTYPE']) == s]
            ev.append(dict(kind='plain', **{'with': f(zt), 'without': f(pt)}, flag=bool(any(r['ZWARN'] & ZW.NEGATIVE_MODEL for r in zt if txt(r['SPECTYPE']) == s)), **info))
        for r in zt:
            if txt(r['SPECTYPE']) not in archs:
                continue
            arch = archs[txt(r['SPECTYPE'])]; zz = float(r['Z']); n = len(arch.names)
            it = Intern(rtol=3e-6, atol=3e-6)
            sp = ref[t.id].spectra; bands = list(dict.fromkeys(s.band for s in sp))
            pick, c, leg = reads(r, arch, bands, nleg, percam, k)
            with np.errstate(all='ignore'):
                single = [A.fit(sp, arch, [i], zz, nleg, percam, bands, prior) for i in range(n)]
                known = [i + 1 for i in range(n) if not single[i][2]]
                e = dict(kind='cand', n=n, k=k, chi=places([x[0] for x in single]), known=known, pick=pick, type=True, method=txt(r['FITMETHOD']) == 'ARCH', free=False, well=False,
                         got=it(np.array([float(r['CHI2'])])), want=0, again=0, coeff=0, wcoeff=0, poly=0, wpoly=0, low=bool((c >= -1e-10).all()), neg=bool((c < -1e-10).any()),   # the solver's zero may be -1e-18
                         pos=bool((c > 0).all()), flag=bool(r['ZWARN'] & ZW.NEGATIVE_MODEL), pca=True, z=zz, subtype=txt(r['SUBTYPE']), row=[repr(c.tolist()), float(r['CHI2'])], **info)
                if 0 not in pick and len(set(pick)) == len(pick):
                    q, x, act, cond = A.fitc(sp, arch, [i - 1 for i in pick], zz, nleg, percam, bands, prior)
                    e['free'] = not act; e['well'] = cond < 1e6
                    e['want'] = it(np.array([q])); e['ref'] = [repr(x.tolist()), q, repr(leg.tolist())]
                    ic = Intern(rtol=1e-4, atol=1e-5)
                    e['coeff'] = ic(c); e['wcoeff'] = ic(x[:len(pick)])
                    e['poly'] = ic(leg); e['wpoly'] = ic(x[len(pick):])
            m = t.eval_model(r, tdict, ar)
            e['again'] = it(np.array([sum((s.ivar * (s.flux - m[s.wavehash])**2).sum() for s in t.spectra)]))
            # the template of the candidate
            same = [q for q in pt if abs(q['Z'] - zz) < 1e-9 and txt(q['SPECTYPE']) == txt(r['SPECTYPE'])]
            if one and same:
                a = np.trim_zeros(np.atleast_1d(r['PCA_COEFF']).astype(float), 'b'); b = np.trim_zeros(np.atleast_1d(same[0]['COEFF']).astype(float), 'b')
                near = np.any(np.asarray(same[0]['ZWARN']) & ZW.BAD_MINFIT) or (a.shape == b.shape and np.allclose(a, b, rtol=1e-6, atol=1e-9))
                e['pca'] = bool(near and txt(r['PCA_SPECTYPE']) == txt(r['SPECTYPE']) and txt(r['PCA_SUBTYPE']) == txt(same[0]['SUBTYPE']))
            ev.append(e)
    return ev


def configs(rng, n):
    import itertools
    allc = [dict(per_camera=pc, deg_legendre=nl, n_nearest=nn, prior_sigma=ps) for pc, nl, nn, ps in itertools.product((True, False), (0, 1, 2, 3), (None, 1, 2, 3, 5), (None, 0.1, 2.0))]
    rng.shuffle(allc)
    need = [dict(), dict(per_camera=True, deg_legendre=2, prior_sigma=0.1), dict(per_camera=True, deg_legendre=1), dict(per_camera=False, deg_legendre=2, n_nearest=5), dict(per_camera=True, deg_legendre=0, n_nearest=2),
            dict(per_camera=True, deg_legendre=2, n_nearest=4, prior_sigma=0.5), dict(per_camera=False, deg_legendre=6), dict(per_camera=True, deg_legendre=5, prior_sigma=0.5), dict(per_camera=False, deg_legendre=2, n_nearest=2)]
    return (need + allc)[:n]


def functions(ck, rng):
    from redrock.archetypes import Archetype, All_archetypes, find_archetypes, split_archetype_coeff
    ev = []
    for _ in range(12):
        n = rng.randint(1, 5); b = rng.randint(1, 4); leg = rng.randint(0, 3); pad = rng.randint(0, 4)
        s = ';'.join(f'{rng.choice(["ELG", "", "A_B"])}_{i}' for i in rng.sample(range(20), n))
        a, p = split_archetype_coeff(s, np.arange(1, n + b * leg + 1 + pad) * 1.0, b, leg)
        if len(p) == b:
            ev.append(dict(kind='split', n=n, bands=b, leg=leg, arch=[int(x) for x in a], poly=[[int(x) for x in c] for c in p]))
    root = ck.work + '/find'; fl = []
    for j in range(8):
        d = f'{root}/{j}'; os.makedirs(d)
        subs = None if j % 2 else [rng.choice(['ELG', 'ELG', ' LRG', 'a b', '', 'x_y']) for _ in range(4)]
        if j == 2:
            subs = ['ELG_3', 'ELG', 'x', 'ELG']          # one name begins like another
        n = 4 if subs else rng.randint(1, 6)
        types = rng.sample(['GALAXY', 'QSO', 'STAR'], rng.randint(1, 3))
        paths = [A.archetype_file(f'{d}/rrarchetype-{t.lower()}.fits', t, n, seed=j, loglam=j % 3 == 2, subtypes=subs, version=f'{j}.1') for t in types]
        for x in rng.sample(['rrarchetype-a.fits.gz', 'archetype-b.fits', 'rrarchetype-c.txt', 'xrrarchetype-d.fits'], 2):
            open(f'{d}/{x}', 'w').close()
        fl += paths
        how = ['dir', 'file', 'env', 'vars'][j % 4]
        os.environ['RR_ARCHETYPE_DIR'] = d if how == 'env' else root + '/none'
        os.environ['ARCHROOT'] = root
        arg = dict(dir=d, file=paths[0], env=None, vars=f'$ARCHROOT/{j}')[how]
        with quiet():
            st, got = guarded(find_archetypes, arg)
            got = [os.path.expandvars(g) for g in got] if st == 'ok' else []
            want = [paths[0]] if how == 'file' else sorted(paths)
            ok = st == 'ok'
            if ok:
                q, al = guarded(lambda: All_archetypes(archetypes_dir=arg).archetypes)
                ok = q == 'ok' and {k: os.path.realpath(os.path.expandvars(v.filename)) for k, v in al.items()} == {A.Arch(p).type: os.path.realpath(p) for p in want} \
                    and all(v.version == f'{j}.1' and v.template_type == k for k, v in al.items())
        os.environ.pop('RR_ARCHETYPE_DIR'); os.environ.pop('ARCHROOT')
        ev.append(dict(kind='find', ok=bool(ok), found=got, expected=want, how=how))
    import scipy.sparse
    for p in fl[:8]:
        a = A.Arch(p)
        with quiet():
            x = Archetype(p)
        names = [txt(s) for s in x.sub_type]
        ev.append(dict(kind='file', flux=bool(np.allclose(x.flux, a.flux, rtol=1e-6)), wave=bool(np.allclose(x.wave, a.wave, rtol=1e-9)), names=names == a.names,
                       type=[txt(s) for s in x.full_type] == [f'{a.type}:::{s}' for s in a.names], list=names))
        for _ in range(4):
            n = len(a.names); m = rng.randint(1, min(n, 3)); which = rng.sample(range(n), m); z = rng.choice([0.0, 0.3, 1.1, 2.3])
            band = rng.choice('brz'); w = F.grid(band) if rng.random() < 0.5 else 3600. + 1.5 * np.arange(300) * rng.choice([1, 3])
            R = F.R_gauss(len(w)) if rng.random() < 0.5 else None
            nl = rng.randint(0, 3); leg = np.array([rng.uniform(-1, 1) for _ in range(nl)]) if nl or rng.random() < 0.5 else None
            c = [rng.uniform(-1, 2) for _ in range(m)] + [9.9] * rng.randint(0, 2)
            want = sum(ci * a.spectrum(i, w, z) for ci, i in zip(c, which))
            for l, pol in zip(leg if leg is not None else [], A.legendre(nl, w)):
                want = want + l * pol
            if R is not None:
                want = R.dot(want)
            with quiet():
                st, got = guarded(x.eval, ';'.join(a.names[i] for i in which), np.array(c), w, z, R=R.tocsr() if R is not None else None, legcoeff=leg)
            if leg is not None and len(leg) and st == 'ok':      # polynomials of several cameras: one row each
                many = np.array([[rng.uniform(-1, 1) for _ in leg] for _ in range(rng.randint(1, 4))]); many[0] = leg
                k2, g2 = guarded(x.eval, ';'.join(a.names[i] for i in which), np.array(c), w, z, R=R.tocsr() if R is not None else None, legcoeff=many)
                one = [x.eval(';'.join(a.names[i] for i in which), np.array(c), w, z, R=R.tocsr() if R is not None else None, legcoeff=q) for q in many]
                ev.append(dict(kind='eval', same=bool(k2 == 'ok' and np.shape(g2) == np.shape(one) and np.allclose(g2, one, rtol=1e-9, atol=1e-12)), z=z, names=[], err=repr(g2)[:200] if k2 != 'ok' else ''))
            ev.append(dict(kind='eval', same=bool(st == 'ok' and np.allclose(got, want, rtol=1e-7, atol=1e-9)), z=z, names=[a.names[i] for i in which], err=repr(got)[:200] if st != 'ok' else ''))
    return ev


def asked(e, opt, zf, path, tm, ncamera):
    """the fits are those of the library with the options asked for and the documented defaults"""
    from redrock.external.desi import DistTargetsDESI
    from redrock.archetypes import All_archetypes
    from redrock.templates import DistTemplate
    from redrock.zfind import zfind
    o = dict(zip(opt, opt[1:] + ['']))
    f = lambda name: o.get('--archetype' + name)
    kw = dict(nminima=9, per_camera=ncamera > 1 and f('-legendre-percamera') != 'False', deg_legendre=int(f('-legendre-degree') or 2), n_nearest=int(f('-nnearest')) if f('-nnearest') else None,
              prior_sigma=float(f('-legendre-prior') or 0.1), ncamera=ncamera)
    if kw['prior_sigma'] <= 0:
        kw['prior_sigma'] = None
    if '--archetypes-no-legendre' in o:
        kw.update(per_camera=False, deg_legendre=0, prior_sigma=None)
    with quiet():
        d = DistTargetsDESI([path], coadd=True)
        for s in (s for t in d.local() for s in t.spectra):
            s.ivar[((s.wave >= 5572) & (s.wave <= 5582)) | ((s.wave >= 9792) & (s.wave <= 9795))] = 0
        g = d.wavegrids()
        ref = upper(zfind(d, [DistTemplate(t, g) for t in tm], mp_procs=1, archetypes=All_archetypes(archetypes_dir=o['--archetypes']).archetypes, **kw)[1])
    if len(ref) != len(zf):
        e['why'] += f'{len(zf)} fits, not {len(ref)} '
        return False
    key = lambda t: np.lexsort((t['ZNUM'], t['TARGETID']))
    for a, b in zip(ref[key(ref)], zf[key(zf)]):
        same = txt(a['SUBTYPE']) == txt(b['SUBTYPE']) and txt(a['SPECTYPE']) == txt(b['SPECTYPE']) and bool(np.isclose(a['CHI2'], b['CHI2'], rtol=1e-5)) and abs(a['Z'] - b['Z']) < 1e-6
        for c in ('COEFF', 'LEGCOEFF'):
            x, y = (np.trim_zeros(np.asarray(v[c], float).ravel(), 'b') if c in v.colnames else np.zeros(0) for v in (a, b))
            same &= x.shape == y.shape and bool(np.allclose(x, y, rtol=1e-4, atol=1e-5))
        if not same:
            e['why'] += f"{int(a['TARGETID'])}/{int(a['ZNUM'])}: {txt(b['SUBTYPE'])} {b['CHI2']} z {b['Z']}, with the options {kw}: {txt(a['SUBTYPE'])} {a['CHI2']} z {a['Z']} "
            return False
    return True


def e2e(ck, rng, n):
    """complete runs of rrdesi with archetype options"""
    from redrock.results import read_zscan
    ev = []; wd = ck.work
    tdir = wd + '/t'; tf = D.template_dir(tdir, stars=False, nz=8); tm = D.load(tf)
    ad = wd + '/arch'; os.makedirs(ad)
    fs = [A.archetype_file(f'{ad}/rrarchetype-galaxy.fits', 'GALAXY', 5, 31, w0=900., nw=1000, version='0.7'), A.archetype_file(f'{ad}/rrarchetype-qso.fits', 'QSO', 3, 32, w0=900., nw=1000, version='8'),
          A.archetype_file(f'{ad}/rrarchetype-star.fits', 'STAR', 2, 33, w0=900., nw=1000, version='x')]
    need = [['--archetypes', ad], ['--archetypes', ad, '--archetypes-no-legendre'], ['--archetypes', fs[0], '--archetype-nnearest', '2'], ['--archetypes', fs[1], '--archetype-legendre-percamera', 'False'],
            ['--archetypes', ad, '--archetypes-no-legendre', '--archetype-nnearest', '4'], ['--archetypes', ad, '--archetype-legendre-percamera', 'False', '--archetype-nnearest', '4', '--archetype-legendre-degree', '1'],
            ['--archetypes', fs[0], '--archetype-legendre-prior', '0.003', '--archetype-legendre-degree', '3'], ['--archetypes', ad, '--archetype-legendre-prior', '0', '--archetype-legendre-degree', '5']]
    for k in range(n):
        if k < len(need):
            opt = need[k]
        else:
            opt = ['--archetypes', rng.choice([ad, fs[0], fs[1]])]
            if rng.random() < 0.5:
                opt += ['--archetype-legendre-degree', str(rng.choice([0, 1, 2, 3, 5]))]
            if rng.random() < 0.5:
                opt += ['--archetype-nnearest', str(rng.choice([2, 3, 4]))]
            if rng.random() < 0.5:
                opt += ['--archetype-legendre-percamera', rng.choice(['True', 'False'])]
            if rng.random() < 0.5:
                opt += ['--archetype-legendre-prior', str(rng.choice([0.1, 1.0, 0, -1, 0.02]))]
            if rng.random() < 0.2:
                opt += ['--archetypes-no-legendre']
        bands = rng.choice([('b', 'r', 'z'), ('b', 'r', 'z'), ('r',), ('b', 'z')])
        rows = []
        for i in range(rng.randint(2, 4)):
            t = rng.choice(tm); zz = t.redshifts
            rows.append(D.make_row(500 + i, t, float(zz[1] + (zz[-2] - zz[1]) * rng.random()), rs=np.random.RandomState(rng.randrange(10**6)), bands=bands, zero=i == 3))
        D.write_file(f'{wd}/in.fits', rows, bands=bands, coadded=True, masks=bands)
        for f in ('o.fits', 'm.fits', 'd.h5'):
            if os.path.exists(f'{wd}/{f}'):
                os.remove(f'{wd}/{f}')
        args = ['-i', f'{wd}/in.fits', '-o', f'{wd}/o.fits', '-d', f'{wd}/d.h5', '--model', f'{wd}/m.fits', *opt]
        if k % 3 == 2:
            (st, err), _ = D.rrdesi_mpi(rng.choice([2, 3]), args, tdir=tdir, seed=k)
        else:
            st, err = D.rrdesi(args + ['--mp', str(rng.choice([1, 2]))], tdir=tdir)
        e = dict(kind='run', ok=st == 'ok' and all(os.path.exists(f'{wd}/{f}') for f in ('o.fits', 'm.fits', 'd.h5')), rows=True, header=True, cat=True, mod=True, det=True, asked=True,
                 why=repr(err)[:300] if st != 'ok' else '', opt=opt, bands=list(bands))
        if e['ok']:
            cat = D.read_catalog(f'{wd}/o.fits'); z = cat['z']; mod = D.read_catalog(f'{wd}/m.fits'); h = cat['header']
            e['rows'] = sorted(map(int, z['TARGETID'])) == sorted(r['tid'] for r in rows)
            used = fs if opt[1] == ad else [opt[1]]
            listed = {(h[f'ARCNAM{i:02d}'], h[f'ARCFIL{i:02d}'], str(h[f'ARCVER{i:02d}'])) for i in range(len(used)) if f'ARCNAM{i:02d}' in h}
            e['header'] = listed == {(A.Arch(f).type, os.path.basename(f), A.Arch(f).version) for f in used} and f'ARCNAM{len(used):02d}' not in h
            byid = {r['tid']: r for r in rows}; archs = {A.Arch(f).type: A.Arch(f) for f in used}; ref = M.read_templates(tf)
            with quiet():
                _, zall = read_zscan(f'{wd}/d.h5')
            zall = upper(zall); zf = zall[zall['ZNUM'] == 0]
            mids = [int(i) for i in mod['z']['TARGETID']]
            for r in z:
                src = byid[int(r['TARGETID'])]; chi = 0; best = True
                arch = txt(r['FITMETHOD']) == 'ARCH'
                for b in bands:
                    w = D.grid(b); iv = np.asarray(src['ivar'][b], np.float32).astype(float); iv[((w >= 5572) & (w <= 5582)) | ((w >= 9792) & (w <= 9795))] = 0
                    co = np.atleast_1d(r['COEFF']).astype(float)
                    if arch:
                        a = archs[txt(r['SPECTYPE'])]; names = txt(r['SUBTYPE']).split(';')
                        f = sum(c * a.spectrum(a.names.index(s), w, float(r['Z'])) for c, s in zip(co, names))
                        leg = np.asarray(r['LEGCOEFF'], float)
                        leg = leg[bands.index(b)] if leg.ndim > 1 else leg
                        for l, pol in zip(np.atleast_1d(leg), A.legendre(np.size(leg), w)):
                            f = f + l * pol
                    else:
                        f = M.spectrum(ref[txt(r['SPECTYPE']), txt(r['SUBTYPE'])], co, w, float(r['Z']))
                    R = np.asarray(src['R'][b], np.float32).astype(float)
                    f = M.convolve(R, f); iv[M.convolve(R, np.ones(len(w))) < 0.99] = 0     # badly resolved pixels have no weight
                    if not np.any(iv) and not np.any(co):
                        f = np.zeros(len(w))
                    chi += (iv * (np.asarray(src['flux'][b], np.float32) - f)**2).sum()
                    got = mod[f'{b.upper()}_MODEL'][mids.index(int(r['TARGETID']))]
                    e['mod'] &= bool(np.allclose(got, f, rtol=2e-4, atol=2e-4 * np.abs(f).max() + 1e-6))
                nodata = not any(np.any(src['ivar'][b]) for b in bands)
                if arch and not nodata:
                    e['cat'] &= bool(abs(chi - r['CHI2']) <= 2e-3 * chi + 1e-3)
                    if abs(chi - r['CHI2']) > 2e-3 * chi + 1e-3:
                        e['why'] += f"{int(r['TARGETID'])}: {chi} but {r['CHI2']}; coeff {co.tolist()} z {r['Z']} zwarn {r['ZWARN']} "
                q = zf[zf['TARGETID'] == r['TARGETID']][0]
                e['det'] &= txt(q['SUBTYPE']) == txt(r['SUBTYPE']) and txt(q['SPECTYPE']) == txt(r['SPECTYPE']) and bool(np.isclose(q['CHI2'], r['CHI2'], rtol=1e-5))
                for c in ('COEFF', 'LEGCOEFF'):
                    if c in z.colnames or c in zf.colnames:
                        x, y = (np.trim_zeros(np.asarray(v[c], float).ravel(), 'b') if c in v.colnames else np.zeros(0) for v in (q, r))
                        e['det'] &= x.shape == y.shape and bool(np.allclose(x, y, rtol=1e-5, atol=1e-7))
            e['cat'] = bool(e['cat'])
            e['asked'] = asked(e, opt, zall, f'{wd}/in.fits', tm, len(bands))
        ev.append(e)
    return ev


def check(ck):
    rng = ck.rng
    for n, k, cams, width in ((3, 0, 'C3', 2), (4, 2, 'C2', 1), (3, 3, 'C3', 4), (2, 4, 'C1', 1)):
        ck.model('MC_Arch', cfg(n, k, cams, width))
    if ck.thorough:
        ck.model('MC_Arch', cfg(5, 3, 'C3', 4))
    ck.expect_violation('MC_Arch', cfg(3, 2, 'C1', 1, 'ByIndex'), 'Reproduced is violated')
    ck.expect_violation('MC_Arch', cfg(2, 0, 'C3', 1, 'ByName'), 'Reproduced is violated')
    ck.expect_violation('MC_Arch', cfg(2, 4, 'C1', 1, 'Short'), 'Fits is violated')
    ck.expect_violation('MC_Arch', cfg(2, 0, 'C1', 1, 'NoPoly'), 'Reproduced is violated')
    wd = ck.work
    ev = functions(ck, rng)
    tg = F.template('GALAXY', '', 0.02, 0.3, nz=12, nbasis=3, seed=1, wavemin=1000, wavemax=9900)
    tq = F.template('QSO', 'HIZ', 1.9, 2.4, nz=10, nbasis=2, seed=2, wavemin=800, wavemax=9900, igm='Calura12')
    tl = F.template('QSO', 'LOZ', 0.4, 0.9, nz=10, nbasis=2, seed=4, wavemin=800, wavemax=9900)
    tgz = F.template('GALAXY', '', 2.0, 2.4, nz=10, nbasis=2, seed=5, wavemin=800, wavemax=9900, igm='Inoue14')      # the forest is in the spectrum
    ts = F.template('STAR', 'F', -0.002, 0.002, nz=9, nbasis=1, seed=3, wavemin=1000, wavemax=9900)
    t2 = F.template('STAR', 'WD', -0.002, 0.002, nz=9, nbasis=2, seed=6, wavemin=1000, wavemax=9900)
    sizes = {'GALAXY': 6, 'QSO': 4, 'STAR': 2}
    fs = {s: A.archetype_file(f'{wd}/rrarchetype-{s.lower()}.fits', s, n, seed=n, w0=900., nw=1000) for s, n in sizes.items()}
    longn = A.archetype_file(f'{wd}/rrarchetype-long.fits', 'GALAXY', 6, seed=9, w0=900., nw=1000, subtypes=[f'A_LONG_SUBTYPE_{j}xx' for j in range(6)])
    twin = A.archetype_file(f'{wd}/rrarchetype-one.fits', 'GALAXY', 1, seed=8, w0=900., nw=1000)
    sets = [[('b', 'r', 'z')], [('b', 'r', 'z')], [('z', 'b')], [('r',)], [('z', 'r', 'b'), ('b', 'r', 'z')], [('b', 'r', 'z'), ('b', 'z')]]
    for i, c in enumerate(configs(rng, 110 if ck.thorough else 24)):
        tm = [[tg, tq], [tg, ts], [tg, tl, ts], [tl], [tg, ts, t2], [tg, tq]][i % 6]
        arch = [['GALAXY', 'QSO'], ['GALAXY'], ['GALAXY', 'QSO', 'STAR'], ['GALAXY', 'QSO'], ['STAR', 'GALAXY'], ['QSO'], ['GALAXY', 'STAR', 'QSO'], ['STAR']][i % 8]
        if i == 3:
            tm = [tg, ts]; arch = ['STAR', 'QSO']
        if i % 12 in (9, 6):
            tm = [tgz, tq] if i % 12 == 6 else [tgz]; arch = ['GALAXY']
        files = [twin if i % 9 == 7 and s == 'GALAXY' else fs[s] for s in arch]
        if i % 16 == 5:      # joined names of many characters
            tm = [tg, tq]; files = [longn]; c = dict(c, n_nearest=4 + i // 16 % 3)
        make = world(rng, tm, 3 if i % 3 else 2, sets[i % len(sets)] if i % 5 else [('b', 'r', 'z')])
        if i == 8:
            inner = make
            def make(inner=inner):
                t = inner()
                for s in t[0].spectra:
                    s.ivar[:] = 0
                return t
        ev += candidates(ck, rng, files, c, make, tm, 2 + i % 2, 2 if i % 7 == 5 else 1)
    ev += e2e(ck, rng, 36 if ck.thorough else 10)
    ck.validate('T_Arch', ev)
    cand = [e for e in ev if e['kind'] == 'cand']
    ck.extra['candidates'] = len(cand); ck.extra['fits inside the bounds'] = sum(e['free'] for e in cand); ck.extra['well conditioned'] = sum(e['well'] for e in cand)
    ck.extra['polynomials only'] = sum(not e['pos'] for e in cand)
    for e in cand[:2]:
        ck.sample(e)
    ck.assumptions += ['chi-squared values that agree within 1e-6 are ties', 'a fit whose bound is active is only judged by what its row reproduces (see the finding of C26)']


main(check, 'C23')
