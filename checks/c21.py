"""C21: the batch driver processes every pending file and resumes safely."""
import os, json
import numpy as np
from common import main, quiet
import wraplab as W

CONST = 'CONSTANTS\n Files = {%s}\n Ranks = {%s}\n NRuns = %d\n ByCatalog = %s\n Overlap = %s\n Overwrite = %s\n StopOnFail = %s\n Forget = %s\n Misplan = %s\n'
INV = 'INVARIANTS OneRank Twice LogsKept Finished\nPROPERTY NeverRedone\nCHECK_DEADLOCK FALSE\n'
WRONG = ['ByCatalog', 'Overlap', 'Overwrite', 'StopOnFail', 'Forget', 'Misplan']


def const(files, ranks, runs, wrong=None):
    return CONST % ((','.join(map(str, range(1, files + 1))), ','.join(map(str, range(1, ranks + 1))), runs) + tuple('TRUE' if w == wrong else 'FALSE' for w in WRONG))


def spectra(path, n, rng):
    """an input file with a fiber map of n targets, some of them with several rows"""
    from astropy.io import fits
    ids = [t for t in range(n) for _ in range(rng.choice([1, 1, 2, 3]))]
    c = fits.ColDefs([fits.Column(name='TARGETID', format='K', array=np.array(ids, dtype=np.int64))])
    fits.HDUList([fits.PrimaryHDU(), fits.BinTableHDU.from_columns(c, name='FIBERMAP')]).writeto(path)


def corrupt(path, rng):
    from astropy.io import fits
    k = rng.choice(['empty', 'text', 'nofibermap', 'nocolumn', 'cut'])
    if k == 'empty':
        open(path, 'w').close()
    elif k == 'text':
        open(path, 'w').write('not a FITS file\n')
    elif k == 'nofibermap':
        fits.HDUList([fits.PrimaryHDU(), fits.ImageHDU(np.zeros(3), name='B_FLUX')]).writeto(path)
    elif k == 'nocolumn':
        fits.HDUList([fits.PrimaryHDU(), fits.BinTableHDU.from_columns([fits.Column(name='FIBER', format='K', array=np.arange(3))], name='FIBERMAP')]).writeto(path)
    else:
        spectra(path, 5, rng); b = open(path, 'rb').read(); open(path, 'wb').write(b[:3000])
    return k


def snap(*dirs):
    out = {}
    for d in dirs:
        for p, _, fs in os.walk(d, followlinks=True):
            for f in fs:
                out[os.path.join(p, f)] = open(os.path.join(p, f), 'rb').read()
    return out


class Scene:
    """a tree of input files, what belongs to each of them, and the runs of the driver over it"""

    def __init__(self, ck, rng, k, nfiles, boss=False, bad=False, cat=(), det=(), out=False, many=False):
        self.ck = ck; self.rng = rng; self.name = f's{k}'; self.runs = 0
        self.top = f'{ck.work}/{self.name}'; self.redux = self.top + '/redux'
        self.boss = boss; self.out = rng.choice([self.top + '/out', self.top + '/new/out'] + ([] if out else [None, None]))
        os.makedirs(self.redux)
        self.prefix = rng.choice([None, None, 'spPlate' if boss else 'spectra', 'coadd', 'xyz-'])
        pre = self.prefix or ('spPlate' if boss else 'spectra')
        dirs = ['', 'a', 'a/b', '100/10001', 'sparse.fits.d' if False else 'tile.1', 'redrock', 'spectra/deep' if not boss else 'x/spectra']
        self.files = []; n = 0
        same = self.out is None and rng.random() < 0.4        # the same name in every directory, as in the production layout
        for i in range(nfiles):
            d = f'{self.redux}/' + (f'{i}/p{i}' if same else rng.choice(dirs))
            d = d.rstrip('/')
            if not os.path.exists(d) and rng.random() < 0.25:         # a directory that lies elsewhere and is linked
                os.makedirs(os.path.dirname(d), exist_ok=True); os.makedirs(f'{self.top}/store/{i}'); os.symlink(f'{self.top}/store/{i}', d)
            os.makedirs(d, exist_ok=True)
            base = ('' if same else f'{i}') + rng.choice(['1', '64-x', 'Q.v2'])
            if not pre.endswith('-'):
                base = '-' + base
            self.files.append(f'{d}/{pre}{base}.fits')
        order = list(range(nfiles)); rng.shuffle(order)
        self.bad = set()
        for i in order:
            if not boss and bad and (rng.random() < 0.4 or not self.bad):
                corrupt(self.files[i], rng); self.bad.add(i)
            elif boss and rng.random() < 0.5:
                open(self.files[i], 'w').write('plate')
            else:
                spectra(self.files[i], rng.choice([300, 500, 900] if many else [1, 2, 30, 400]), rng)
        od = self.out or None
        def outname(f, w, ext):
            return os.path.join(od or os.path.dirname(f), w + os.path.basename(f)[len(pre):-5] + ext)
        self.cat = [outname(f, 'redrock', '.fits') for f in self.files]
        self.det = [outname(f, 'rrdetails', '.h5') for f in self.files]
        if od and (cat or det or rng.random() < 0.5):
            os.makedirs(od)
        for i in cat:
            open(self.cat[i - 1], 'w').write('old catalog')
        for i in det:
            open(self.det[i - 1], 'w').write('old details')
        # things that are not inputs, and logs of earlier times
        dd = [os.path.dirname(f) for f in self.files] or [self.redux]
        for nm in rng.sample([f'{pre}-9.fits.gz', f'old{pre}-1.fits', f'{pre}.txt', 'zbest-1.fits', f'{pre}-1.fits.tmp'], rng.randint(0, 4)):
            p = f'{rng.choice(dd)}/{nm}'
            open(p, 'w').write('decoy')
        if boss:
            os.makedirs(self.redux + '/spectra', exist_ok=True)
            if rng.random() < 0.7:
                spectra(f'{self.redux}/spectra/{pre}-7.fits', 3, rng)
        self.logs = {}       # directory -> contents that have to be found again
        for c in self.cat:
            if rng.random() < 0.5 and os.path.isdir(os.path.dirname(c)):
                for sfx in rng.sample(['', '.0', '.1', '.5', '.old', '.2.save', '.10'], rng.randint(1, 4)):
                    s = f'earlier log {c} {sfx}'
                    open(c[:-5] + '.log' + sfx, 'w').write(s)
                    self.logs.setdefault(os.path.dirname(c), []).append(s)

    def options(self, rel=False, maxnodes=None):
        """the command line of a run, and what its commands have to be given"""
        rng = self.rng
        redux = 'redux' if rel else self.redux + rng.choice(['', '', '/'])
        cwd = self.top if rel else None
        a = ['--reduxdir', redux]
        if self.out:
            a += ['--outdir', os.path.relpath(self.out, cwd) if rel else self.out]
        if self.boss:
            a += ['--datatype', 'boss']
        if self.prefix:
            a += ['--prefix', self.prefix]
        want = dict(nminima='3', mp=None, archetypes=None)
        if rng.random() < 0.4:
            want['nminima'] = str(rng.choice([1, 5])); a += ['--nminima', want['nminima']]
        if rng.random() < 0.4:
            want['mp'] = str(rng.choice([1, 2, 7])); a += ['--mp', want['mp']]
        if rng.random() < 0.3:
            want['archetypes'] = 'some/where' if rel and maxnodes else '/some/where'; a += ['--archetypes', want['archetypes']]
            if rel and maxnodes:
                want['archetypes'] = f'{self.top}/some/where'
        if maxnodes or rng.random() < 0.2:
            a += ['--maxnodes', str(maxnodes or rng.choice([1, 2, 300]))]
        return dict(a=a, want=want, redux=redux, cwd=cwd)

    def job(self, nranks, plan, maxnodes, rel=False, go=True):
        """the plan is made, and the job it prints is run with as many ranks as it asks for, from another directory"""
        rng = self.rng
        pending = sum(not (os.path.exists(c) and os.path.exists(t)) for c, t in zip(self.cat, self.det))
        o = self.options(rel, maxnodes)
        first = self.run(nranks, {}, ['--plan'], dry=True, o=o)
        text = open(f'{self.top}/j{self.runs - 1}/stdout').read()
        e = dict(kind='plan', pending=pending, maxnodes=maxnodes, nodes=0, srun=0, same=False, ranks=nranks, info=json.dumps([o['a'], nranks, text[-700:]]))
        lines = [x.split() for x in text.splitlines()]
        n = [int(x[2]) for x in lines if x[:2] == ['#SBATCH', '-N']]
        sr = [x for x in lines if x[:1] == ['srun']]
        e['srun'] = len(sr); e['nodes'] = n[0] if len(n) == 1 else 0
        out = [first, e]
        if len(sr) == 1 and e['nodes']:
            x = sr[0]; at = [i for i, v in enumerate(x) if os.path.basename(v) == 'wrap-redrock']
            if at and os.path.isabs(x[at[0]]) and os.path.realpath(x[at[0]]) == os.path.realpath('/repo/bin/wrap-redrock'):
                e['same'] = True
                if not go:
                    return out
                away = f'{self.top}/elsewhere'; os.makedirs(away, exist_ok=True)
                out.append(self.run(min(e['nodes'], 40), plan, o=dict(a=x[at[0] + 1:], want=o['want'], redux=self.redux, cwd=away)))
        return out

    def run(self, nranks, plan, args=(), dry=False, rel=False, o=None):
        """plan: file index (from 0) -> outcomes of this run.  Returns an event for T_Wrap."""
        rng = self.rng; d = f'{self.top}/j{self.runs}'; tag = os.path.basename(d); self.runs += 1
        state = [dict(cat=os.path.exists(c), det=os.path.exists(t)) for c, t in zip(self.cat, self.det)]
        before = snap(self.redux, self.top + '/out', self.top + '/new')
        o = o or self.options(rel)
        a, want, redux, cwd = o['a'] + list(args), o['want'], o['redux'], o['cwd']
        key = {}
        for i, f in enumerate(self.files):
            for k in {f, os.path.join(redux, os.path.relpath(f, self.redux)), f'{self.redux}/{os.path.relpath(f, self.redux)}'}:
                key[k] = [o for o in plan.get(i, [])]
        r = W.drive(d, a, nranks, key, self.ck.work + '/bin', cwd=cwd)
        after = snap(self.redux, self.top + '/out', self.top + '/new')
        j = W.journal(d)
        real = {os.path.realpath(f): i for i, f in enumerate(self.files)}
        full = lambda p, c: os.path.realpath(os.path.join(c, p)) if p else ''
        att, strange, tags = [], [], []
        for n, x in enumerate(j):
            if x['t'] != 'start':
                continue
            i = real.get(full(x['inp'], x['cwd']))
            if i is None:
                strange.append(' '.join(x['args'])); continue
            end = next((m for m, y in enumerate(j) if y['t'] == 'end' and y['id'] == x['id']), 10**6)
            ok = end < 10**6 and j[end]['ok']
            av = x['args']
            def opt(*ns):
                for q, v in enumerate(av):
                    for m in ns:
                        if v == m and q + 1 < len(av):
                            return av[q + 1]
                        if v.startswith(m + '='):
                            return v[len(m) + 1:]
                return None
            opts = x['cmd'] == ('rrboss' if self.boss else 'rrdesi') and opt('--nminima') == want['nminima'] and opt('--archetypes') == want['archetypes'] and (want['mp'] is None or opt('--mp') == want['mp'])
            att.append(dict(f=i + 1, ok=ok, **{'from': n, 'to': end}, input=True, outs=full(x['cat'], x['cwd']) == os.path.realpath(self.cat[i]) and full(x['det'], x['cwd']) == os.path.realpath(self.det[i]), opts=bool(opts)))
            m = f'attempt <{tag}/{x["id"]}> '
            tags.append(m); self.logs.setdefault(os.path.dirname(self.cat[i]), []).append(m)
        # logs: whatever was logged in a directory is still found in a file there
        lost = []
        for dd, texts in self.logs.items():
            have = [v.decode('latin1') for p, v in after.items() if os.path.dirname(p) == dd and p not in self.cat and p not in self.det]
            lost += [t for t in texts if not any(t in h for h in have)]
        # the rest
        mine = {x['f'] - 1 for x in att}
        ours = {self.cat[i] for i in mine} | {self.det[i] for i in mine}
        islog = lambda p: '.log' in os.path.basename(p)
        touched = sorted(p for p in set(before) | set(after) if not islog(p) and p not in ours and before.get(p) != after.get(p))
        stopped = r['status'] == 'killed'
        return dict(kind='run', files=state, att=att, dry=dry, stopped=stopped, ended=r['status'] == 'ended', strange=strange[:3], lost=lost[:3], touched=touched[:3],
                    info=json.dumps(dict(args=a, ranks=nranks, status=r['status'], errors=[str(x) for x in r.get('errors', [])], rel=rel, boss=self.boss))[:900])


def from_history(ck, rng, k, g, ranks):
    """a behaviour of G_Wrap, replayed: the same files and outputs, each file's outcomes in the same order, the batch killed where it was stopped"""
    nf = max([e['f'] for e in g['h']] + list(g['cat']) + list(g['det']) + [1])
    s = Scene(ck, rng, k, nf, boss=rng.random() < 0.3, cat=g['cat'], det=g['det'])
    ev, plan, lastf = [], {}, None
    for e in g['h']:
        if e['t'] == 'start':
            plan = {}; lastf = None
        elif e['t'] == 'try':
            o = e['o']
            if o == 'fail' and rng.random() < 0.2:
                o = 'signal'
            plan.setdefault(e['f'] - 1, []).append(o); lastf = e['f'] - 1
        else:
            if e['t'] == 'stop':
                if lastf is None:
                    continue
                plan[lastf][-1] += '+kill'
            ev.append(s.run(ranks, plan))
    ev.append(s.run(rng.choice([0, 1, 2, 3]), {}))          # finishing
    ev.append(s.run(rng.choice([0, 1, 2, 3]), {}))          # nothing left
    return ev


def special(ck, rng, k):
    ev = []
    how = k % 7
    nr = rng.choice([0, 1, 2, 3, 5])
    O = ['ok', 'fail', 'failcat', 'faildet', 'silent', 'signal']
    if how == 0:            # unreadable inputs
        s = Scene(ck, rng, f'u{k}', rng.randint(2, 5), bad=True)
        plan = {i: ['fail', 'fail'] for i in s.bad}
        ev += [s.run(nr, plan), s.run(rng.choice([0, 2]), plan)]
    elif how == 1:          # dry runs and plans between real runs
        s = Scene(ck, rng, f'd{k}', rng.randint(2, 6), boss=k % 14 == 1, cat=[1])
        ev += [s.run(nr, {}, ['--dryrun'], dry=True), s.run(nr, {}, ['--plan', '--mp', '1'], dry=True), s.run(nr, {0: ['fail', 'failcat']}), s.run(nr, {}, ['--plan', '--mp', '2'], dry=True), s.run(nr, {}, ['--dryrun'], dry=True)]
    elif how == 6:          # the job a plan prints
        for sub in range(3):
            s = Scene(ck, rng, f'p{k}-{sub}', rng.choice([1, 3, 6]) if sub < 2 else 24, boss=rng.random() < 0.4 and sub < 2, cat=[1], det=[1] if rng.random() < 0.5 and sub else [], out=sub == 0, many=sub == 2)
            plan = {i: rng.choices(O, k=2) for i in range(4)}
            if sub == 2:        # much work, few nodes
                ev += s.job(0, plan, rng.choice([1, 2, 3]), go=False) + s.job(0, plan, rng.choice([1, 2, 3, 5, 300]), go=rng.random() < 0.3)
                continue
            ev += s.job(rng.choice([0, 0, 1, 3]), plan, rng.choice([1, 2, 5, 256, 300]), rel=sub == 0 or rng.random() < 0.6)
            ev += s.job(0, plan, rng.choice([1, 2, 3]), rel=rng.random() < 0.6)
            if sub:
                ev += [s.run(nr, {})]
                ev += s.job(rng.choice([0, 2]), {}, 4)
    elif how == 2:          # no inputs at all
        for n in (0, 1, 3):
            s = Scene(ck, rng, f'n{k}-{n}', 0, boss=rng.random() < 0.4)
            e = s.run(n, {}, ['--plan'] if rng.random() < 0.3 else [])
            i = json.loads(e['info'])
            ev.append(dict(kind='noinput', error=i['status'] in ('error', 'hang'), hang=i['status'] == 'hang', att=len(e['att']) + len(e['strange']), info=e['info']))
    elif how == 3:          # relative directories
        s = Scene(ck, rng, f'r{k}', rng.randint(1, 5), boss=rng.random() < 0.3)
        ev += [s.run(nr, {i: rng.choices(O, k=2) for i in range(5)}, rel=True), s.run(nr, {i: rng.choices(O, k=2) for i in range(5)}), s.run(nr, {}, rel=True)]
    elif how == 4:          # many files, more or fewer than ranks
        s = Scene(ck, rng, f'm{k}', 40 if k % 14 == 4 else rng.choice([1, 2, 7, 12]), boss=rng.random() < 0.4 and k % 14 != 4)
        ev += [s.run(rng.choice([0, 1]) if k % 14 == 4 else rng.choice([0, 2, 3, 5, 8]), {i: rng.choices(O, k=2) for i in range(0, 12)}) for _ in range(2 if k % 14 == 4 else 3)]
    else:                   # the same files again and again, always failing
        s = Scene(ck, rng, f'f{k}', 2)
        ev += [s.run(nr, {i: [rng.choice(['fail', 'failcat', 'faildet'])] * 2 for i in range(2)}) for _ in range(5)]
        ev += [s.run(rng.choice([0, 1]), {}, ['--nompi'])]
    return ev


def real(ck, rng):
    """the driver with the real rrdesi"""
    import desilab as D
    from astropy.io import fits
    top = ck.work + '/real'; os.makedirs(top + '/redux/1'); os.makedirs(top + '/redux/2')
    t = ck.work + '/templates'; tf = D.template_dir(t, qso=False, galaxy=False, nz=6)
    tm = D.load(tf)
    ids = {}
    for k, f in enumerate([top + '/redux/1/spectra-1.fits', top + '/redux/2/spectra-2.fits', top + '/redux/spectra-3.fits']):
        ii = [100 * k + q for q in range(rng.randint(1, 3))]
        D.write_file(f, [D.make_row(q, tm[0], 0.0, np.random.RandomState(q)) for q in ii]); ids[f] = ii
    os.environ['RR_TEMPLATE_DIR'] = t
    a = ['--reduxdir', top + '/redux', '--outdir', top + '/out', '--mp', '1', '--nminima', '1']
    r = W.drive(top + '/j', a, 2, {}, '/repo/bin', timeout=300)
    out = {f: (top + '/out/redrock-' + f[-6:], top + '/out/rrdetails-' + f[-6:-5] + '.h5') for f in ids}
    ok = r['status'] == 'ended' and all(os.path.exists(p) for v in out.values() for p in v)
    same = ok and all(sorted(fits.getdata(c, 'REDSHIFTS')['TARGETID'].tolist()) == ids[f] for f, (c, _) in out.items())
    b = snap(top + '/out'); st = {p: os.stat(p).st_mtime_ns for p in b}
    r2 = W.drive(top + '/j2', a, 2, {}, '/repo/bin', timeout=300)
    idle = r2['status'] == 'ended' and snap(top + '/out') == b and {p: os.stat(p).st_mtime_ns for p in b} == st
    os.environ.pop('RR_TEMPLATE_DIR')
    logs = [x.decode('latin1')[-300:] for p, x in b.items() if '.log' in p][:1] if not ok else []
    return [dict(kind='real', ok=bool(ok), same=bool(same), idle=bool(idle), info=json.dumps([r, r2, logs])[:900])]


def check(ck):
    import redrock.external.desi            # imported once, the runs are forks
    rng = ck.rng
    ck.model('Wrap', const(2, 2, 2) + 'SPECIFICATION Spec\n' + INV + 'PROPERTY Ends\n')
    ck.model('Wrap', const(3, 2, 1) + 'SPECIFICATION Spec\n' + INV)
    if ck.thorough:
        ck.model('Wrap', const(3, 2, 2) + 'SPECIFICATION Spec\n' + INV, timeout=1500)
        ck.model('Wrap', const(3, 3, 1) + 'SPECIFICATION Spec\n' + INV, timeout=1500)
    for w, v in dict(ByCatalog='Finished', Overlap='OneRank', Overwrite='LogsKept', StopOnFail='is violated', Forget='Finished', Misplan='Finished').items():
        ck.expect_violation('Wrap', const(2, 2, 1, w) + 'SPECIFICATION Spec\n' + INV, v)
    W.make_fake(ck.work + '/bin')
    n = 150 if ck.thorough else 14
    cases = []
    for nf, nr, runs, share in ((4, 2, 3, 2), (3, 3, 4, 2), (5, 1, 2, 1)):
        g = ck.generate('G_Wrap', const(nf, nr, runs) + 'SPECIFICATION GSpec\nCHECK_DEADLOCK FALSE\n', args=('-simulate', f'num={n * 6}', '-seed', str(ck.seed * 131 + nf), '-depth', '120'))
        pick = rng.sample(g, min(len(g), max(1, n * share // 5)))
        cases += [(x, nr) for x in pick]
    ev = []
    for k, (g, nr) in enumerate(cases):
        ev += from_history(ck, rng, k, g, rng.choice([nr, nr, 0]))
    for k in range(70 if ck.thorough else 14):
        ev += special(ck, rng, k)
    with quiet():
        ev += real(ck, rng)
    ck.validate('T_Wrap', ev)
    for e in ev[:2]:
        ck.sample(e)
    ck.extra['runs of the driver'] = len(ev)
    ck.assumptions += ['rrdesi and rrboss are stand-ins found through PATH, except in one end-to-end case', 'MPI ranks are threads with a stand-in for mpi4py', 'paths without blanks; with --outdir the base names of the inputs differ']


main(check, 'C21')
