"""C31: templates that are installed or converted are the ones asked for."""
import os, shutil, subprocess, sys
import numpy as np
from common import main, quiet
import desilab as D

REPO = '/repo'


def git(d, *a):
    env = dict(os.environ, GIT_CONFIG_NOSYSTEM='1', GIT_CONFIG_GLOBAL='/dev/null', GIT_AUTHOR_NAME='a', GIT_AUTHOR_EMAIL='a@b', GIT_COMMITTER_NAME='a', GIT_COMMITTER_EMAIL='a@b')
    subprocess.run(['git', '-C', d, *a], check=True, capture_output=True, env=env)


def source(wd):
    """a repository of templates: main, 1.0 and 1.1 are good; bad has a list naming a file it lacks, empty has none, junk a broken file"""
    w = wd + '/src'; os.makedirs(w)
    git(wd, 'init', '-q', '-b', 'main', 'src')
    D.template_file(f'{w}/rrtemplate-GALAXY-None-v1.0.fits', 'GALAXY', '', np.linspace(0, 0.3, 5), 2, 1)
    vers = {}

    def mark(v, tag=True):
        open(w + '/VERSION', 'w').write(v); git(w, 'add', '-A'); git(w, 'commit', '-q', '-m', v)
        if tag:
            git(w, 'tag', v)
        vers[v] = sorted(os.listdir(w))
    mark('1.0')
    D.template_file(f'{w}/rrtemplate-STAR-F-v1.1.fits', 'STAR', 'F', np.linspace(-0.002, 0.002, 5), 1, 2)
    open(w + '/templates-default.txt', 'w').write('rrtemplate-GALAXY-None-v1.0.fits\nrrtemplate-STAR-F-v1.1.fits\n')
    mark('1.1')
    git(w, 'checkout', '-q', '-b', 'main-2'); mark('main-2', False); git(w, 'checkout', '-q', '-b', 'other'); open(w + '/templates-default.txt', 'w').write('rrtemplate-STAR-F-v1.1.fits\n'); mark('other', False)
    git(w, 'checkout', '-q', '-b', 'wrong'); open(w + '/templates-default.txt', 'a').write('rrtemplate-QSO-none.fits\n'); mark('wrong', False)
    git(w, 'checkout', '-q', '-b', 'junk', 'other'); open(w + '/rrtemplate-STAR-F-v1.1.fits', 'w').write('nothing'); mark('junk', False)
    git(w, 'checkout', '-q', '--orphan', 'empty'); git(w, 'rm', '-q', '-rf', '.'); mark('empty', False)
    git(w, 'checkout', '-q', 'main'); open(w + '/templates-default.txt', 'a').write('# more\n'); mark('main', False)
    git(wd, 'clone', '-q', '--bare', 'src', 'src.git')
    return wd + '/src', ['main', '1.0', '1.1', 'main-2', 'other', 'wrong', 'junk', 'empty'], ['main', '1.0', '1.1', 'main-2', 'other']


def tree(d):
    """what a directory has, without git's own"""
    out = {}
    for r, ds, fs in os.walk(d):
        if '.git' in ds:
            ds.remove('.git')
        for f in fs:
            p = os.path.join(r, f)
            if '__pycache__' not in p:
                out[os.path.relpath(p, d)] = open(p, 'rb').read()
        for x in ds:
            out[os.path.relpath(os.path.join(r, x), d) + '/'] = b''
    return out


def install(rng, k, wd, url, versions, good, c):
    box = f'{wd}/box{k}'; os.makedirs(box + '/cwd')
    # a copy of the code: the default place is inside of it
    shutil.copytree(REPO + '/py/redrock', box + '/py/redrock', ignore=shutil.ignore_patterns('__pycache__', 'test', 'templates'))
    shutil.copytree(REPO + '/bin', box + '/bin')
    default = c['where'] == 'code'
    target = box + '/py/redrock/data/templates' if default else box + '/cwd/t/u' if c['where'] == 'deep' else box + '/cwd/t'
    if default:
        os.makedirs(os.path.dirname(target), exist_ok=True)
    if c['before'] == 'foreign':
        os.makedirs(target)
        if c['fill']:
            open(target + '/rrtemplate-mine.fits', 'w').write('mine')
    elif c['before'] == 'file':
        os.makedirs(os.path.dirname(target), exist_ok=True); open(target, 'w').write('mine')
    before = tree(box)
    cmd = [sys.executable, box + '/bin/install_redrock_templates', '--template-url', (url + ('.git' if c['dotgit'] else '')) if not c['nourl'] else url + '-none']
    if c['want'] != 'main' or rng.random() < 0.5:
        cmd += [rng.choice(['-v', '--version']), c['want']]
    if not default:
        cmd += [rng.choice(['-o', '--outdir']), os.path.relpath(target, box + '/cwd') if c['relative'] else target]
    env = dict(os.environ, PYTHONPATH=box + '/py', GIT_CONFIG_NOSYSTEM='1', GIT_CONFIG_GLOBAL='/dev/null', GIT_TERMINAL_PROMPT='0')
    if c['envdir']:
        os.makedirs(box + '/env'); before = tree(box); env['RR_TEMPLATE_DIR'] = box + '/env'
    r = subprocess.run(cmd, cwd=box + '/cwd', env=env, capture_output=True, text=True, timeout=300)
    after = tree(box); rel = os.path.relpath(target, box)
    mine = lambda t: {p: x for p, x in t.items() if p == rel or p.startswith(rel + '/')}
    up = {os.path.relpath(os.path.dirname(target), box) + '/'}
    others = sorted(p for p in set(before) | set(after) if p not in mine(before) and p not in mine(after) and before.get(p) != after.get(p) and p not in up)
    def state():
        if mine(after) == mine(before) and os.path.exists(target) == (c['before'] != 'absent'):
            return c['before']
        f = target + '/VERSION'
        v = open(f).read() if os.path.isfile(f) else 'unknown'
        want = subprocess.run(['git', '-C', url, 'ls-tree', '-r', '--name-only', v], capture_output=True, text=True).stdout.split() if v in versions else None
        return v if want is not None and sorted(want) == sorted(p[len(rel) + 1:] for p in mine(after) if not p.endswith('/')) and all(
            subprocess.run(['git', '-C', url, 'show', f'{v}:{p}'], capture_output=True).stdout == after[f'{rel}/{p}'] for p in want) else 'changed'
    found = ''
    if r.returncode == 0:
        e2 = {x: y for x, y in env.items() if x != 'RR_TEMPLATE_DIR'}
        if not default:
            e2['RR_TEMPLATE_DIR'] = target
        q = subprocess.run([sys.executable, '-c', 'from redrock.templates import get_template_dir as g, load_templates\nload_templates()\nprint("DIR", open(g() + "/VERSION").read())'],
                           env=e2, cwd=box, capture_output=True, text=True, timeout=300)
        found = q.stdout.split('DIR ')[-1].strip() if q.returncode == 0 else 'error ' + q.stderr[-200:]
    e = dict(kind='install', before=c['before'], want='none' if c['nourl'] else c['want'], versions=versions, good=good, exit=r.returncode, dir=state(), others=others, found=found,
             why=(r.stdout[-200:] + r.stderr[-300:]) if r.returncode else '', how={x: str(y) for x, y in c.items()})
    shutil.rmtree(box)
    return e


def convert(rng, k, wd):
    from astropy.io import fits
    from redrock.templates import Template
    out = f'{wd}/conv{k}'; os.makedirs(out)
    named = rng.random() < 0.7; n = rng.randint(1, 5); nw = rng.randint(5, 40)
    typ = rng.choice(['STAR', 'QSO', 'GALAXY', 'Star', 'STAR ', 'galaxy']) if not named else rng.choice(['STAR', 'STAR', 'Star'])
    data = np.round(np.random.RandomState(rng.randrange(10**6)).uniform(-5, 5, (n, nw)) * 64) / 64
    data[:, 0] = np.arange(1, n + 1) * 1024
    c0, c1 = rng.choice([3.5, 3.25, 3.7]), rng.choice([1e-4, 2.5e-4])
    valid = rng.random() < 0.9
    names = []
    while len(names) < n:
        x = ''.join(rng.choice(['A', 'B', 'O', '0', '3', '-', '/', ' ', 'V', '+', '.']) for _ in range(rng.choice([0, 2, 4, 6, 9])))
        x = rng.choice('ABKM') + x + rng.choice('ABKM09')
        if rng.random() < 0.4:
            x = (x + f' ({rng.randint(1, 99999)})').strip()
        plain = lambda s: ''.join(ch for ch in s if ch not in '-/ ()_').upper()
        if plain(x) and plain(x) not in [plain(y) for y in names]:
            names.append(x)
    h = fits.PrimaryHDU(data.astype(rng.choice(['f4', 'f8'])))
    if valid or rng.random() < 0.5:
        h.header['OBJECT'] = typ
    if valid or 'OBJECT' not in h.header:
        h.header['COEFF0'] = c0
    h.header['COEFF1'] = c1
    if named:
        for i, x in enumerate(names):
            h.header[f'NAME{i}'] = x
    hd = fits.HDUList([h] + ([fits.ImageHDU(np.ones(3))] if rng.random() < 0.2 else []))
    src = f'{out}/in.fits'; hd.writeto(src)
    if rng.random() < 0.5:
        os.mkdir(out + '/o'); o = out + '/o'
    else:
        o = out
    open(o + '/rrtemplate-mine.fits', 'w').write('mine')
    before = open(src, 'rb').read()
    ver = '2.6' if typ.strip().upper() == 'GALAXY' else rng.choice(['1.0', '0.1'])
    r = subprocess.run([sys.executable, '-W', 'ignore', REPO + '/bin/rrconvertSDSStemplates', '-i', src, '-o', o, '--version', ver], capture_output=True, text=True, timeout=300)
    res = []
    pre = 'rrtemplate-' + typ.replace(' ', '').lower()
    for f in sorted(os.listdir(o)):
        if f in ('in.fits', 'rrtemplate-mine.fits', 'o'):
            continue
        e = dict(file=['?'] + list(f), sub=[], rows=[], same=False)
        try:
            t = Template(f'{o}/{f}')
            fl = np.asarray(t.flux); rows = [int(round(x / 1024)) for x in fl[:, 0]]
            stem = f[len(pre):-len('.fits')] if f.startswith(pre) and f.endswith('.fits') else '?' + f
            e = dict(file=list(stem[1:] if stem.startswith('-') else stem), sub=list(t.sub_type), rows=rows,
                     same=bool(t.template_type == typ.strip().upper() and np.allclose(t.wave, 10**(c0 + c1 * np.arange(nw)), rtol=1e-12) and t._version == ver
                               and all(1 <= x <= n and np.allclose(y, data[x - 1]) for x, y in zip(rows, fl))))
        except Exception as err:
            e['why'] = repr(err)[:200]
        res.append(e)
    kept = open(src, 'rb').read() == before and open(o + '/rrtemplate-mine.fits').read() == 'mine'
    shutil.rmtree(out)
    return dict(kind='convert', ok=r.returncode == 0, why=r.stderr[-300:] if r.returncode else '', valid=valid, named=named, names=[list(x) for x in names], rows=n, out=res, kept=kept)


def check(ck):
    rng = ck.rng; wd = ck.work
    cfg = ('SPECIFICATION Spec\nCONSTANTS Versions = {"a", "b", "bad"} Good = {"a", "b"} Latest = "b" Force = %s Trust = %s AnyVersion = %s\nINVARIANTS %s\nCHECK_DEADLOCK FALSE\n')
    F, T = 'FALSE', 'TRUE'
    ck.model('Install', cfg % (F, F, F, 'Honest Kept Result'))
    ck.expect_violation('Install', cfg % (T, F, F, 'Kept'), 'Kept is violated')
    ck.expect_violation('Install', cfg % (F, T, F, 'Honest'), 'Honest is violated')
    ck.expect_violation('Install', cfg % (F, F, T, 'Honest'), 'Honest is violated')
    cv = 'SPECIFICATION Spec\nCONSTANTS Chars = {"A", "-", " ", "(", ")", "/"} MaxName = %d MaxFiles = 2 KeepDash = %s AllRows = %s\nINVARIANTS %s\nCHECK_DEADLOCK FALSE\n'
    ck.model('Convert', cv % (3 if ck.thorough else 2, F, F, 'Right OnePath NoClash'))
    ck.expect_violation('Convert', cv % (2, T, F, 'Right'), 'Right is violated')
    ck.expect_violation('Convert', cv % (1, F, T, 'Right'), 'Right is violated')
    ev = []
    url, versions, good = source(wd)
    base = dict(where='out', before='absent', fill=True, want='main', relative=False, dotgit=False, nourl=False, envdir=False)
    cases = [dict(base), dict(base, where='code'), dict(base, where='code', envdir=True, want='1.0'), dict(base, before='foreign', envdir=True), dict(base, where='code', before='foreign'),
             dict(base, nourl=True), dict(base, want='2.0'), dict(base, want='junk'), dict(base, want='wrong', where='code'), dict(base, want='empty'), dict(base, want='other', envdir=True),
             dict(base, before='foreign', fill=False, want='1.1'), dict(base, before='file'), dict(base, want='main-2'), dict(base, want='1.1', relative=True), dict(base, where='deep', dotgit=True)]
    for _ in range(25 if ck.thorough else 1):
        cases.append(dict(where=rng.choice(['out', 'code', 'deep']), before=rng.choice(['absent', 'absent', 'foreign', 'file']), fill=rng.random() < 0.5, want=rng.choice(versions + ['2.0']),
                          relative=rng.random() < 0.5, dotgit=rng.random() < 0.5, nourl=rng.random() < 0.1, envdir=rng.random() < 0.3))
    from random import Random
    from concurrent.futures import ThreadPoolExecutor
    with ThreadPoolExecutor(4) as ex:
        jobs = [ex.submit(install, Random(rng.random()), k, wd, url, versions, good, c) for k, c in enumerate(cases)]
        jobs += [ex.submit(convert, Random(rng.random()), k, wd) for k in range(60 if ck.thorough else 14)]
        with quiet():
            ev += [j.result() for j in jobs]
    ck.extra['installations'] = len(cases); ck.extra['installed'] = sum(e['kind'] == 'install' and e['exit'] == 0 for e in ev)
    ck.extra['templates converted'] = sum(len(e.get('out', [])) for e in ev)
    ck.sample(lambda: ev[0]); ck.sample(lambda: ev[-1])
    ck.validate('T_Install', ev)
    ck.assumptions += ['templates come from a local git repository; git itself removes what it has cloned when it fails', 'names of SDSS templates differ in more than blanks, hyphens, slashes and brackets']


if __name__ == '__main__':
    main(check, 'C31')
