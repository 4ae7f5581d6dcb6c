"""C20: a result can be traced back to exactly the templates that made it."""
import os, pathlib
import numpy as np
from common import main, quiet, guarded
import desilab as D

MODEL = 'CONSTANTS\n NFiles = 4\n MaxT = 4\n NoPad = %s\n ByType = %s\nSPECIFICATION Spec\nINVARIANT Traced\nCHECK_DEADLOCK FALSE\n'


def env(**kw):
    for k, v in kw.items():
        if v is None:
            os.environ.pop(k, None)
        else:
            os.environ[k] = v


def find_events(ck, rng, n):
    from redrock.templates import find_templates
    ev = []
    for rnd in range(n):
        root = f'{ck.work}/f{rnd}'; other = f'{ck.work}/g{rnd}'
        os.makedirs(root); os.makedirs(other); os.makedirs(root + '/sub')
        names = rng.sample(['rrtemplate-a.fits', 'rrtemplate-QSO-HIZ-v1.fits', 'rrtemplate-b2.fits', 'x.fits', 'rrtemplate-STAR-F-v0.1.fits', 'rrtemplate-z.fits.gz', 'notes.dat',
                            'rrtemplate-B.fits', 'rrtemplate-1.fits'], rng.randint(0, 6))
        exist = []
        for nme in names:
            open(f'{root}/{nme}', 'w').close(); exist.append(f'{root}/{nme}')
            if rng.random() < 0.5:
                open(f'{other}/{nme}', 'w').close(); exist.append(f'{other}/{nme}')
        for nme in rng.sample(names, min(1, len(names))):
            open(f'{root}/sub/{nme}', 'w').close(); exist.append(f'{root}/sub/{nme}')
            open(f'{other}/{nme}', 'w').close(); exist.append(f'{other}/{nme}')
        lines, text = [], []
        for _ in range(rng.randint(0, 7)):
            x = rng.random()
            if x < 0.15:
                lines.append(dict(t='blank', path='')); text.append(rng.choice(['', '   ', '\t']))
            elif x < 0.35:
                lines.append(dict(t='comment', path='')); text.append(rng.choice(['# ', '#', '  # ']) + 'rrtemplate-none.fits old')
            else:
                if exist and rng.random() < 0.92:
                    p = rng.choice(exist)
                else:
                    p = rng.choice([f'{root}/missing.fits', f'{other}/missing.fits'])
                rel = p.startswith(root + '/') and rng.random() < 0.7
                lines.append(dict(t='entry', path=p))
                text.append(rng.choice(['', '', '  ']) + (os.path.relpath(p, root) if rel else p) + rng.choice(['', '', '  # why', ' trailing words', '\t']))
        body = '\n'.join(text) + rng.choice(['\n', ''])
        how = rng.choice(['dir', 'dir', 'dirlist', 'dirlist', 'list', 'list', 'file', 'files', 'env', 'missing', 'strange'])
        has = how == 'dirlist' or (how == 'env' and rng.random() < 0.5)
        if has:
            open(f'{root}/templates-default.txt', 'w').write(body)
        match = [p for p in exist if os.path.dirname(p) == root and os.path.basename(p).startswith('rrtemplate-') and p.endswith('.fits')]
        order = sorted(match)
        r = dict(how='dir', lines=lines, hasList=has, matching=match, rank={p: i for i, p in enumerate(order)}, exist=exist, file='', files=[])
        env(RR_TEMPLATE_DIR=None)
        if how == 'list':
            nm = rng.choice(['my.txt', 'templates-default.txt', 'other-list.txt'])
            open(f'{root}/{nm}', 'w').write(body); arg = f'{root}/{nm}'; r['how'] = 'list'
        elif how in ('dir', 'dirlist'):
            arg = rng.choice([root, root, pathlib.PosixPath(root)])
        elif how == 'env':
            env(RR_TEMPLATE_DIR=root); arg = None
        elif how == 'file':
            p = f'{other}/' + rng.choice(['one.fits', 'two.fits.gz', 'three.fits.fz']); open(p, 'w').close()
            arg = p; r.update(how='file', file=p)
        elif how == 'files':
            f = [rng.choice(['p.fits', 'q.fits', '/s.fits']) + str(i) for i in range(rng.randint(1, 5))]
            r.update(how='files', files=f); arg = rng.choice([list, tuple, np.array])(f)
        elif how == 'missing':
            arg = rng.choice([f'{root}/none', f'{root}/none.txt', f'{root}/none.fits']); r['how'] = 'missing'
            if rng.random() < 0.3:
                env(RR_TEMPLATE_DIR=f'{root}/none'); arg = None
        else:
            arg = f'{root}/notes.doc'; open(arg, 'w').close(); r['how'] = 'strange'
        # the directory the command is run in does not matter (it has files of the same names)
        cwd = rng.choice([other, root, f'{root}/sub', other])
        back = os.getcwd(); os.chdir(cwd)
        with quiet():
            k, v = guarded(find_templates, arg)
        if k == 'ok' and how != 'files':
            v = [os.path.abspath(x) for x in v]
        os.chdir(back)
        env(RR_TEMPLATE_DIR=None)
        norm = lambda p: os.path.normpath(str(p))
        ids = {}
        out = [norm(p) if how != 'files' else str(p) for p in v] if k == 'ok' else []
        r['rank'] = {p: i for p, i in r['rank'].items()} or {'none': 0}
        if r['how'] != 'dir':
            r['rank'] = {'none': 0}; r['matching'] = []
        ev.append(dict(kind='find', r=r, ok=k == 'ok', out=out, form=how, error='' if k == 'ok' else type(v).__name__))
    return ev


def name_map(ev):
    """paths -> short names, per event"""
    for e in ev:
        m = {}
        f = lambda p: m.setdefault(p, 'p%d' % len(m))
        r = e['r']
        for ln in r['lines']:
            if ln['path']:
                ln['path'] = f(ln['path'])
        for k in ('matching', 'exist', 'files'):
            r[k] = [f(p) for p in r[k]]
        r['file'] = f(r['file']); r['rank'] = {f(p): i for p, i in r['rank'].items()}
        e['out'] = [f(p) for p in e['out']]
    return ev


def load_events(ck, rng, n):
    from redrock.templates import load_templates
    d = f'{ck.work}/load'; os.makedirs(d)
    files = []
    for i, (t, s) in enumerate([('GALAXY', ''), ('QSO', 'LOZ'), ('QSO', 'HIZ'), ('STAR', 'F'), ('STAR', 'WD'), ('GALAXY', 'ELG')]):
        files.append((D.template_file(f'{d}/rrtemplate-{t}-{s or "None"}-v{i}.fits', t, s, np.linspace(0, 0.1, 5), 2, i, version=f'{i}.0', nw=300), t, s))
    ev = []
    for rnd in range(n):
        k = rng.randint(1, len(files)); pick = rng.sample(files, k)
        form = rng.choice(['list', 'tuple', 'txt', 'one', 'dir', 'name'])
        env(RR_TEMPLATE_DIR=None)
        want = [f'{t}.{s}' for _, t, s in pick]
        if form in ('list', 'tuple'):
            arg = (list if form == 'list' else tuple)([f for f, _, _ in pick])
        elif form == 'name':
            env(RR_TEMPLATE_DIR=d); arg = [os.path.basename(f) for f, _, _ in pick]       # found in the template directory
        elif form == 'one':
            pick = pick[:1]; want = want[:1]; arg = pick[0][0]
        elif form == 'txt':
            arg = f'{d}/l{rnd}.txt'; open(arg, 'w').write('# list\n' + ''.join(os.path.basename(f) + '  # x\n' for f, _, _ in pick))
        else:
            arg = d; want = [f'{t}.{s}' for _, t, s in sorted(files)]
        with quiet():
            a, ts = guarded(load_templates, arg)
            b, td = guarded(load_templates, arg, asdict=True)
        env(RR_TEMPLATE_DIR=None)
        out = [f'{t.template_type}.{t.sub_type}' for t in ts] if a == 'ok' else []
        ev.append(dict(kind='load', form=form, ok=a == 'ok', out=out, want=want,
                       dict=bool(b == 'ok' and [f'{x}.{y}' for x, y in td] == want and all((t.template_type, t.sub_type) == key for key, t in td.items()))))
        with quiet():
            a, ts = guarded(load_templates, [files[0][0], f'{d}/none.fits'])
        ck.ok(a == 'error', 'a missing template file is refused')
    return ev


def type_events(rng, n):
    from redrock.templates import make_fulltype, parse_fulltype
    ev = []
    for _ in range(n):
        pairs = []
        for _ in range(2):
            pairs.append((rng.choice(['GALAXY', 'QSO', 'STAR', 'LAE-x', 'A:B']), rng.choice(['', None, 'HIZ', 'F', 'A:1', 'None', 'WD-DA', 'x y'])))
        (t, s), (t2, s2) = pairs
        pad = lambda x: x if x is None or rng.random() < 0.7 else rng.choice([x + ' ', '  ' + x])
        k, full = guarded(make_fulltype, pad(t), pad(s))
        k2, full2 = guarded(make_fulltype, t2, s2)
        k3, back = guarded(parse_fulltype, full) if k == 'ok' else ('error', ())
        ev.append(dict(kind='type', type=t, sub=s or '', full=str(full), back=[str(x) for x in back] if k3 == 'ok' else [], other=[t2, s2 or ''], otherfull=str(full2)))
    return ev


def header_events(ck, rng, n):
    from redrock.templates import header2templatefiles
    from astropy.io import fits
    ev = []
    for _ in range(n):
        entries = []; h = {} if rng.random() < 0.4 else fits.Header()
        m = rng.choice([1, 3, 5, 12]) if _ % 25 else rng.choice([40, 64, 100])
        for i in range(m):
            e = dict(fil='', type='', sub='', ver='')
            x = rng.random()
            if x < (0.05 if m < 40 else 0.0005):
                pass                                     # no keys with this number
            else:
                e['type'] = rng.choice(['GALAXY', 'QSO', 'STAR']); e['sub'] = rng.choice(['', 'HIZ', 'F', 'WD'])
                e['ver'] = rng.choice(['1.1', '2.6', '0.1', '3', '1.1']) if rng.random() < (0.95 if m < 40 else 0.999) else 'unknown'
                if x < 0.55:
                    e['fil'] = f'rrtemplate-{rng.choice("abc")}{rng.randint(0, 99)}' + rng.choice(['.fits', '-' + 'long' * 20 + '.fits'])
            if e['type']:
                keys = dict()
                if e['fil']:
                    keys['TEMFIL%02d' % i] = e['fil']
                if not e['fil'] or rng.random() < 0.7:
                    keys['TEMNAM%02d' % i] = e['type'] + (':::' + e['sub'] if e['sub'] else '')
                    keys['TEMVER%02d' % i] = e['ver'] + rng.choice(['', ' '])
                ks = list(keys); rng.shuffle(ks)
                for kk in ks:
                    h[kk] = keys[kk]
            entries.append(e)
        d = rng.choice([None, '/some/dir'])
        env(RR_TEMPLATE_DIR='/env/dir')
        k, out = guarded(header2templatefiles, h, **({'template_dir': d} if d else {}))
        env(RR_TEMPLATE_DIR=None)
        res = []; ok_dir = True
        if k == 'ok':
            for p in out:
                ok_dir = ok_dir and os.path.dirname(p) == (d or '/env/dir')
                b = os.path.basename(p)
                if any(e['fil'] == b for e in entries):
                    res.append(['file', b])
                else:
                    q = b[len('rrtemplate-'):-len('.fits')].rsplit('-v', 1)
                    res.append(['built', *q[0].split('-', 1), q[1]] if b.startswith('rrtemplate-') and b.endswith('.fits') and len(q) == 2 and '-' in q[0] else ['other', b])
        ev.append(dict(kind='header', entries=entries, ok=k == 'ok', out=res, dir=ok_dir))
    return ev


def file_events(ck, rng, n):
    from redrock.templates import Template
    from astropy.io import fits
    ev = []
    for i in range(n):
        f = dict(type=rng.choice(['GALAXY', 'QSO', 'STAR', 'GALAXY', 'QSO', 'STAR', 'OTHER']), sub=rng.choice(['', 'HIZ', 'F', '' if i % 5 else 'A-RATHER-LONG-NAME-OF-A-SUBTYPE']), ver=rng.choice(['', '2.6', '0.1', '1.0', '1.1', '2.7', '5']),
                 igm=rng.choice(['', '', 'Calura12', 'Inoue14', 'None', 'Kamble20']), method=rng.choice(['', '', 'PCA', 'NMF', 'pca', 'ICA', '']), z=rng.random() < 0.5)
        nw = rng.randint(5, 12); nb = rng.randint(1, 3)
        fl = np.random.RandomState(i).normal(size=(nb, nw)).astype(rng.choice(['f4', 'f8']))
        z = np.linspace(0, rng.choice([1.0, 0.2]), 7)
        p = f'{ck.work}/t{i}.fits'
        h = [fits.PrimaryHDU(), fits.ImageHDU(fl, name='BASIS_VECTORS')]
        if f['z']:
            h.insert(rng.choice([1, 2]), fits.ImageHDU(z, name='REDSHIFTS'))
        h = fits.HDUList(h); hd = h['BASIS_VECTORS'].header
        log = rng.random() < 0.5
        hd['CRVAL1'] = 3.5 if log else 3500.; hd['CDELT1'] = 0.01 if log else 2.5
        if log or rng.random() < 0.5:
            hd['LOGLAM'] = int(log)
        lower = rng.random() < 0.3
        hd['RRTYPE'] = f['type'].lower() if lower else f['type']
        if f['sub'] or rng.random() < 0.5:
            hd['RRSUBTYP'] = f['sub'].lower() if lower else f['sub']
        for key, v in (('VERSION', f['ver']), ('RRIGM', f['igm']), ('RRMETHOD', f['method'])):
            if v:
                hd[key] = v
        f['method'] = f['method'].upper()
        h.writeto(p)
        opt = {}; asked = []
        if rng.random() < 0.4:
            a, b, s = rng.choice([(0.1, 1.1, 0.01), (-0.001, 0.3, 0.002), (0.0, 2.0, 0.05)])
            opt['zscan_' + rng.choice(['galaxy', 'qso', 'star'])] = f'{a},{b},{s}'
            if 'zscan_' + f['type'].lower() in opt:
                asked = [int(round(a * 1e7)), int(round(b * 1e7)), int(round(s * 1e7))]
        with quiet():
            k, t = guarded(Template, p, **opt)
        e = dict(kind='file', f=f, ok=k == 'ok', asked=asked, type='', sub='', ver='', igm='', method='', data=False, zsame=False, first=0, last=0, step=0, stepz=0, uniform=False)
        if k == 'ok':
            w = hd['CRVAL1'] + hd['CDELT1'] * np.arange(nw); w = 10**w if log else w
            tz = np.asarray(t.redshifts, float)
            g = tz if f['type'] == 'STAR' else np.log10(1 + tz)
            e.update(type=t.template_type, sub=t.sub_type, ver=str(t.version), igm=str(t.igm_model), method=t.method,
                     data=bool(np.allclose(t.wave, w, rtol=1e-12) and np.array_equal(t.flux, fl.astype(float)) and t.nbasis == nb and t.nwave == nw and t.full_type == f['type'] + (':::' + f['sub'] if f['sub'] else '')),
                     zsame=bool(np.array_equal(tz, z)), first=int(round(tz[0] * 1e7)), last=int(round(tz[-1] * 1e7)), step=int(round((g[1] - g[0]) * 1e7)),
                     stepz=int(np.ceil(((tz[-1] - tz[-2]) * 1.2) * 1e7)), uniform=bool(np.allclose(np.diff(g), g[1] - g[0], rtol=1e-6, atol=1e-12)))
        os.remove(p)
        ev.append(e)
    return ev


def run_events(ck, rng, n):
    """complete runs: the header of the catalog and of the model file lead back to the templates used"""
    from redrock.templates import load_templates_from_header, header2templatefiles
    from astropy.io import fits
    ev = []
    wd = f'{ck.work}/run'; os.makedirs(wd); d = f'{wd}/templates'
    files = D.template_dir(d, nz=6)
    files.append(D.template_file(f'{d}/rrtemplate-special.fits', 'GALAXY', 'ELG', np.linspace(0, 0.2, 6), 2, 40, version='0.7'))
    ts = D.load(files[:1])
    rows = [D.make_row(100 + i, ts[0], 0.05 + 0.05 * i, np.random.RandomState(i)) for i in range(2)]
    f = D.write_file(f'{wd}/in.fits', rows)
    for rnd in range(n):
        pick = rng.sample(files[:-1] if rnd % 5 in (1, 3) else files, rng.randint(3, len(files) - 1)); form = ('files', 'txt', 'dir', 'env', 'default')[rnd % 5]
        names = [os.path.basename(p) for p in pick]
        for p in (f'{d}/templates-default.txt',):
            if os.path.exists(p):
                os.remove(p)
        opt = ['-i', f, '-o', f'{wd}/o{rnd}.fits', '--model', f'{wd}/m{rnd}.fits', '--mp', 1]
        tdir = d
        if form == 'files':
            opt += ['-t', *pick]
        elif form == 'txt':
            open(f'{d}/mine.txt', 'w').write('\n'.join(names) + '\n'); opt += ['-t', f'{d}/mine.txt']
        elif form == 'dir':
            open(f'{d}/templates-default.txt', 'w').write('\n'.join(names) + '\n'); opt += ['-t', d]
        elif form == 'env':
            open(f'{d}/templates-default.txt', 'w').write('#\n' + '\n'.join(names) + '\n')
        else:
            names = sorted(os.path.basename(p) for p in files)
        st, e = D.rrdesi(opt, tdir=tdir)
        r = dict(kind='run', form=form, ok=st == 'ok', used=names, back=[], model=[], vers=True)
        if st == 'ok':
            h = fits.getheader(f'{wd}/o{rnd}.fits', 0 if rnd % 2 else 'REDSHIFTS'); hm = fits.getheader(f'{wd}/m{rnd}.fits', 0)
            with quiet():
                k, t = guarded(load_templates_from_header, h, template_dir=d)
            r['back'] = [os.path.basename(x.filename) for x in t] if k == 'ok' else [repr(t)]
            k, x = guarded(header2templatefiles, hm, template_dir=d)
            r['model'] = [os.path.basename(y) for y in x] if k == 'ok' else [repr(x)]
            real = [fits.getheader(f'{d}/{y}', 'BASIS_VECTORS')['VERSION'] for y in names]
            r['vers'] = all([g.get(f'TEMVER{i:02d}') for i in range(len(names))] == real and f'TEMVER{len(names):02d}' not in g for g in (h, hm))
            # older results tell type and version only
            old = fits.Header([c for c in h.cards if not c.keyword.startswith('TEMFIL')])
            if all('special' not in y for y in names):
                with quiet():
                    k, t = guarded(load_templates_from_header, old, template_dir=d)
                ck.ok(k == 'ok' and [os.path.basename(x.filename) for x in t] == names, 'type and version lead back to the templates used', dict(names=names))
        else:
            r['error'] = repr(e)[:300]
        ev.append(r)
    return ev


def check(ck):
    rng = ck.rng
    ck.model('Discover', MODEL % ('FALSE', 'FALSE'))
    ck.expect_violation('Discover', MODEL % ('TRUE', 'FALSE'), 'Traced is violated')
    ck.expect_violation('Discover', MODEL % ('FALSE', 'TRUE'), 'Traced is violated')
    T = ck.thorough
    ev = name_map(find_events(ck, rng, 900 if T else 250)) + load_events(ck, rng, 120 if T else 30) + type_events(rng, 300 if T else 120)
    ev += header_events(ck, rng, 800 if T else 250) + file_events(ck, rng, 800 if T else 250) + run_events(ck, rng, 15 if T else 5)
    ck.extra['events'] = {k: sum(1 for e in ev if e['kind'] == k) for k in ('find', 'load', 'type', 'header', 'file', 'run')}
    ck.sample(lambda: ev[0])
    ck.validate('T_Discover', ev)
    ck.assumptions += ['no template data are installed: file names and contents are made here']


if __name__ == '__main__':
    main(check, 'C20', 'model_checking')
